package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", "typestate over SSA: a request is counted in the handler's wait group before its goroutine starts and uncounted only after its response was published; a non-forced close passes end of deliveries and that wait group before it reports completion; the server closes every registered handler with its own force flag and, unless forced, waits for all; stream close marks draining, then closes every open stream with end-of-stream and waits; no stream is registered once draining", p20)
	register("P21", "effect and lock-section analysis over SSA: the handler table is read for the key, checked for shutdown and written in one exclusive critical section; failed registrations close every subscription they opened and write nothing; entries are removed only by their own handler's completion, under the lock, by the same key", p21)
}

const wgName = "(*sync.WaitGroup)."

// subClosed: the wire type of the subscription a Close call closes.
func subClosed(ev *Event) string {
	if ev.Name != "(internal/bus.Subscription).Close" || ev.FnType == nil {
		return ""
	}
	n, ok := types.Unalias(ev.FnType).(*types.Named)
	if !ok || n.TypeArgs().Len() != 1 {
		return "?"
	}
	return strings.TrimPrefix(namedOf(derefNamed(n.TypeArgs().At(0))), "internal.")
}

// handlerTable: the field of the server holding its handlers, and their interface.
func (p *Program) handlerTable() (*types.Var, types.Type) {
	t := p.Named("pkg/server", "RPCServer")
	if t == nil {
		return nil, nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		m, ok := s.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		if it, ok := m.Elem().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			return s.Field(i), m.Elem()
		}
	}
	return nil, nil
}

// closeMethod: the method of the handler interface taking the force flag.
func closeMethod(it types.Type) string {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return ""
	}
	for k := 0; k < i.NumMethods(); k++ {
		sig := i.Method(k).Type().(*types.Signature)
		if sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.Bool]) {
			return i.Method(k).Name()
		}
	}
	return ""
}

func fieldOfAddr(t *Term) *types.Var {
	t = t.strip()
	if t != nil && t.op == "faddr" {
		v, _ := t.obj.(*types.Var)
		return v
	}
	return nil
}

func fieldOfLoad(t *Term) *types.Var {
	t = t.strip()
	if t != nil && (t.op == "load" || t.op == "sload") {
		return fieldOfAddr(t.args[0])
	}
	if t != nil && (t.op == "field" || t.op == "peek") {
		v, _ := t.obj.(*types.Var)
		return v
	}
	return nil
}

type drainInfo struct {
	waits    map[*types.Var]bool // wait groups a graceful close waits on
	drained  map[*types.Var]bool // channels a graceful close receives from
	draining *types.Var
}

func p20(r *Run) {
	p43Predefined(r, "ErrStreamEOF")
	_, it := r.P.handlerTable()
	if it == nil || closeMethod(it) == "" {
		r.Fail("anchor", "pkg/server.RPCServer", "-", "the server's table of handlers was not found", nil)
		return
	}
	cm := closeMethod(it)
	d := &drainInfo{waits: map[*types.Var]bool{}, drained: map[*types.Var]bool{}}
	for _, t := range r.P.implTypes(it, "pkg/server") {
		if fn := r.P.methodOf(t, cm); fn != nil {
			p20Close(r, fn, d)
		}
	}
	active := p20Server(r, cm)
	p20Unary(r, d)
	p20Stream(r, d)
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		p20Active(r, root, active)
	}
	for rule, n := range map[string]int{"counted": 1, "uncounted-late": 1, "graceful": 2, "drained-at-end": 1, "close-subs": 2, "close-all": 1, "force-passed": 1, "closing-first": 1, "wait-active": 1, "active-counted": 2, "drain-first": 1, "eof-cause": 1, "no-late-stream": 1, "streams-awaited": 1} {
		r.Min(rule, n)
	}
}

// paramBool tracks what the path knows of a bool parameter.
func trackForce(x *Exec, st *State, ev *Event) {
	if ev.Kind == EvAssume && ev.Cond.op == "param" {
		if b, ok := ev.Cond.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			st.mon["force"] = x.TT.boolC(ev.Truth)
		}
	}
}

// fanOut follows the closing of many things in goroutines that are waited for.
func fanOut(r *Run, rule string, x *Exec, st *State, ev *Event, isClose func(*Event) bool) {
	switch {
	case ev.Kind == EvGo:
		st.mon["spawned"] = x.TT.boolC(true)
		st.mon["fo-add"] = st.mon["fo-added"]
		delete(st.mon, "fo-closed")
	case ev.Kind == EvCall && ev.Name == wgName+"Add" && ev.Args[0].strip().op == "alloc":
		st.mon["fo-added"] = x.TT.boolC(true)
	case (ev.Kind == EvRet || ev.Kind == EvLeave) && isClose(ev):
		st.mon["fo-closed"] = x.TT.boolC(true)
	case ev.Kind == EvCall && ev.Name == wgName+"Done" && st.has("#go") && ev.Args[0].strip().op == "alloc":
		r.At(st.has("fo-closed"), rule, ev, st, "the closing goroutine reports done before it has closed what it was to close")
		st.mon["fo-doned"] = x.TT.boolC(true)
	case ev.Kind == EvReturn && ev.Name == "go" && st.has("fo-add") && !ev.Truth:
		r.At(st.has("fo-doned"), rule, ev, st, "a closing goroutine never reports done: close waits forever")
	case ev.Kind == EvCall && ev.Name == wgName+"Wait" && ev.Args[0].strip().op == "alloc":
		if st.has("spawned") {
			r.At(st.has("fo-added"), rule, ev, st, "the wait does not count the closing goroutines")
		}
		delete(st.mon, "spawned")
	}
}

func p20Close(r *Run, fn *ssa.Function, d *drainInfo) {
	name := shortName(fn)
	isStreamClose := func(ev *Event) bool {
		return strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 1 && (strings.HasPrefix(ev.Name, "(internal/stream.") ||
			strings.HasPrefix(ev.Name, "(*internal/stream.") || strings.HasPrefix(ev.Name, "(psrpc."))
	}
	isStreams := func(t *Term) bool {
		f := fieldOfLoad(t)
		if f == nil {
			return false
		}
		m, ok := f.Type().Underlying().(*types.Map)
		return ok && strings.Contains(types.TypeString(m.Elem(), nil), "internal/stream.")
	}
	hasStreams := false
	if rv := fn.Signature.Recv(); rv != nil {
		if s, ok := derefNamed(rv.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && strings.Contains(types.TypeString(m.Elem(), nil), "internal/stream.") {
					hasStreams = true
				}
			}
		}
	}
	completed := func(x *Exec, st *State, ev *Event) {
		if f := fieldOfLoad(ev.FnTerm); f != nil && len(ev.Args) == 0 && ownerIs(fn, f) {
			p20Completed(r, x, st, ev, hasStreams)
		}
	}
	r.execFn(name, fn, func(x *Exec, st *State, ev *Event) {
		trackForce(x, st, ev)
		trackSkip(x, st, ev)
		if hasStreams {
			fanOut(r, "streams-awaited", x, st, ev, isStreamClose)
		}
		switch ev.Kind {
		case EvCall:
			if k := subClosed(ev); k != "" {
				st.mon["sub:"+k] = x.TT.boolC(true)
				if k == "ClaimResponse" && !hasStreams && !st.mon["force"].isTrue() {
					r.At(st.has("waited"), "graceful", ev, st, "grants are no longer received although requests accepted earlier may still be waiting for theirs")
				}
				if k == "Stream" {
					r.At(!st.has("spawned"), "streams-awaited", ev, st, "the stream subscription is closed while streams are still being closed")
					r.At(st.has("collected"), "eof-cause", ev, st, "the handler is closed without closing its open streams")
				}
			}
			if ev.Name == wgName+"Wait" {
				if f := fieldOfAddr(ev.Args[0]); f != nil {
					d.waits[f] = true
					r.At(st.mon["force"].isFalse(), "force-no-wait", ev, st, "a forced close waits for handlers")
					if !hasStreams {
						r.At(st.has("sub:Request") && st.has("ended"), "graceful", ev, st, "the close waits for the handlers in progress while further requests can still be accepted")
					}
					st.mon["waited"] = x.TT.boolC(true)
				}
			}
			if strings.HasSuffix(ev.Name, "atomic.Bool).Store") && len(ev.Args) == 2 && ev.Args[1].isTrue() {
				if f := fieldOfAddr(ev.Args[0]); f != nil && hasStreams {
					d.draining = f
					st.mon["draining"] = x.TT.boolC(true)
				}
			}
			if len(ev.Args) > 0 && isStreams(ev.Args[0]) || ev.Callee == nil && len(ev.Args) == 1 && isStreams(ev.Args[0]) {
				r.At(len(st.locks) > 0, "drain-first", ev, st, "the open streams are collected without the lock")
				r.At(st.has("draining"), "drain-first", ev, st, "the open streams are collected before new ones are refused")
				st.mon["collected"] = x.TT.boolC(true)
			}
			if isStreamClose(ev) {
				r.At(globalNamed(ev.Args[len(ev.Args)-1], "ErrStreamEOF"), "eof-cause", ev, st, "an open stream is closed with %v, not with the end-of-stream error", ev.Args[len(ev.Args)-1])
				st.mon["iterclosed"] = x.TT.boolC(true)
			}
			completed(x, st, ev)
		case EvLoad:
			if isStreams(ev.Val) && st.has("draining") {
				r.At(len(st.locks) > 0, "drain-first", ev, st, "the open streams are collected without the lock")
				st.mon["collected"] = x.TT.boolC(true)
			}
		case EvStore:
			if f := fieldOfAddr(ev.Addr); f != nil && ev.Val.isTrue() && hasStreams {
				d.draining = f
				st.mon["draining"] = x.TT.boolC(true)
			}
		case EvGo:
			st.mon["iterclosed"] = x.TT.boolC(true)
		case EvBack:
			if hasStreams && st.has("collected") && !st.has("#go") && len(st.locks) == 0 && !ev.Small {
				r.At(st.has("iterclosed") && !leavesEarly(ev.Loop), "close-all", ev, st, "an open stream may be left out when the handler is closed")
			}
			delete(st.mon, "iterclosed")
		case EvRecv, EvSelect:
			if f := fieldOfLoad(ev.Addr); f != nil && ev.Addr != nil {
				if c, ok := f.Type().Underlying().(*types.Chan); ok && isEmptyStruct(c.Elem()) && !st.has("completed") && !st.has("skip") {
					d.drained[f] = true
					st.mon["ended"] = x.TT.boolC(true)
				}
			}
		case EvReturn:
			if ev.Name == "root" && !ev.Truth && !st.has("skip") {
				r.At(st.has("completed"), "close-subs", ev, st, "closing a handler can end without its completion being reported")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || isMethodNamed(f, "internal/stream", "Close") }
		x.DynImpl = nil // the completion callback is checked at its call
	})
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func p20Completed(r *Run, x *Exec, st *State, ev *Event, hasStreams bool) {
	st.mon["completed"] = x.TT.boolC(true)
	if hasStreams {
		r.At(st.has("sub:Stream"), "close-subs", ev, st, "the handler is reported completed with its stream subscription open")
		r.At(!st.has("spawned"), "graceful", ev, st, "the handler is reported completed while its streams are still being closed")
	} else {
		r.At(st.has("sub:Request"), "close-subs", ev, st, "the handler is reported completed with its request subscription open")
		if !st.mon["force"].isTrue() {
			r.At(st.has("waited"), "graceful", ev, st, "a graceful close reports completion without having waited for the handlers in progress")
		}
	}
	r.At(st.has("sub:ClaimResponse"), "close-subs", ev, st, "the handler is reported completed with its grant subscription open")
}

// p20Server: the server's Close. Returns the wait groups a graceful close waits on.
func p20Server(r *Run, cm string) map[*types.Var]bool {
	tab, _ := r.P.handlerTable()
	active := map[*types.Var]bool{}
	isClose := func(ev *Event) bool {
		return (strings.HasPrefix(ev.Name, "(pkg/server.") || strings.HasPrefix(ev.Name, "(*pkg/server.")) && strings.HasSuffix(ev.Name, ")."+cm)
	}
	r.exec("pkg/server.(RPCServer).Close", func(x *Exec, st *State, ev *Event) {
		trackForce(x, st, ev)
		trackSkip(x, st, ev)
		fanOut(r, "close-all", x, st, ev, isClose)
		isTab := func(t *Term) bool { return t != nil && fieldOfLoad(t) == tab }
		switch ev.Kind {
		case EvStore:
			if f := fieldOfAddr(ev.Addr); f != nil && ev.Val.isTrue() {
				r.At(len(st.locks) > 0, "closing-first", ev, st, "registration is refused without holding the lock of the handlers' table")
				st.mon["closing"] = x.TT.boolC(true)
				st.mon["sect"] = x.TT.boolC(true)
			}
		case EvCall:
			if isUnlock(ev) {
				delete(st.mon, "sect")
				if st.has("listed") {
					r.At(st.has("closing"), "closing-first", ev, st, "a handler can be registered after the list of handlers to close was made")
				}
			}
			if isClose(ev) {
				r.At(len(ev.Args) == 2 && ev.Args[1].strip().op == "param", "force-passed", ev, st, "a handler is not closed with the force flag of the shutdown but with %v", ev.Args[len(ev.Args)-1])
				st.mon["it"] = x.TT.boolC(true)
			}
			if ev.Name == wgName+"Wait" {
				if f := fieldOfAddr(ev.Args[0]); f != nil {
					active[f] = true
					st.mon["act"] = x.TT.boolC(true)
					r.At(!st.mon["force"].isTrue(), "force-no-wait", ev, st, "a forced shutdown waits for handlers")
				}
			}
			for _, a := range ev.Args {
				if isTab(a) {
					st.mon["listed"] = x.TT.boolC(true)
				}
			}
		case EvLoad:
			if ev.Val != nil && isTab(ev.Val) && len(st.locks) > 0 {
				st.mon["listed"] = x.TT.boolC(true)
			}
		case EvGo:
			st.mon["it"] = x.TT.boolC(true)
		case EvBack:
			if st.has("listed") && !st.has("#go") && len(st.locks) == 0 {
				r.At(st.has("it") && !leavesEarly(ev.Loop), "close-all", ev, st, "a registered handler may be left out of the shutdown")
			}
			delete(st.mon, "it")
		case EvReturn:
			if ev.Name == "root" && !ev.Truth {
				if !st.has("skip") {
					r.At(st.has("listed"), "close-all", ev, st, "the shutdown ends without closing the handlers")
					r.At(!st.has("spawned"), "close-all", ev, st, "the shutdown returns while handlers are still being closed")
				}
				if !st.mon["force"].isTrue() {
					r.At(st.has("act"), "wait-active", ev, st, "a graceful shutdown returns without having waited for all handlers to complete")
				}
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || isMethodNamed(f, "pkg/server", cm) }
	})
	return active
}

// p20Active: each registered handler is counted before it starts.
func p20Active(r *Run, root string, active map[*types.Var]bool) {
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if st.has("#go") {
			return
		}
		switch ev.Kind {
		case EvCall:
			if ev.Name == wgName+"Add" && active[fieldOfAddr(ev.Args[0])] {
				r.At(len(st.locks) > 0, "active-counted", ev, st, "a handler is counted without the lock that orders it before a shutdown")
				st.mon["act"] = x.TT.boolC(true)
			}
		case EvGo:
			r.At(st.has("act"), "active-counted", ev, st, "a handler starts before it is counted: a graceful shutdown may not wait for it")
		}
	}, func(x *Exec) { x.FollowGo = false })
}

func p20Unary(r *Run, d *drainInfo) {
	depth := func(st *State) *Term { return st.mon["#go"] }
	r.exec("pkg/server.RegisterHandler", func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvSelect, EvRecv:
			if ev.Val != nil && isMsg(ev.Val, "Request") {
				delete(st.mon, "counted")
				delete(st.mon, "eof")
			}
		case EvAssume:
			if a := ev.Cond; a.op == "recvok" && !ev.Truth && a.args[0].typ != nil && chanElemOf(a.args[0].typ) == "internal.Request" {
				st.mon["eof"] = x.TT.boolC(true)
			}
		case EvCall:
			if f := fieldOfAddr(first(ev.Args)); f != nil && d.waits[f] {
				switch ev.Name {
				case wgName + "Add":
					st.mon["counted"] = depth(st)
					n, ok := constInt(ev.Args[1])
					r.At(ok && n == 1, "counted", ev, st, "one request is counted as %v", ev.Args[1])
					r.At(!st.has("drain"), "drained-at-end", ev, st, "a request is accepted after the end of deliveries was reported")
				case wgName + "Done":
					if st.has("run") {
						r.At(st.has("published"), "uncounted-late", ev, st, "a request stops being waited for before its response is published")
					}
					r.At(st.has("counted"), "counted", ev, st, "a request is uncounted twice or without having been counted: the wait group may panic or pass too early")
					delete(st.mon, "counted")
				}
			}
			if isUserHandler(ev) {
				c := st.mon["counted"]
				r.At(c != nil && c != depth(st), "counted", ev, st, "a request is handled in a goroutine it was not counted before: a graceful shutdown may not wait for it")
				st.mon["run"] = x.TT.boolC(true)
				delete(st.mon, "published")
			}
		case EvRet:
			if p := publishOf(ev); p != nil && p.kind == "Response" {
				st.mon["published"] = x.TT.boolC(true)
			}
		case EvClose:
			f := fieldOfLoad(ev.Addr)
			if f == nil {
				f = fieldHolding(st, ev.Addr)
			}
			if f != nil && d.drained[f] {
				r.At(st.has("eof"), "drained-at-end", ev, st, "the end of deliveries is reported although requests may still arrive")
				st.mon["drain"] = x.TT.boolC(true)
			}
		case EvBack:
			if st.has("drain") {
				ok := false
				for ph, v := range ev.Phis {
					if chanElemOf(ph.Type()) == "internal.Request" && v.isNil() {
						ok = true
					}
				}
				r.At(ok, "drained-at-end", ev, st, "after the end of deliveries the closed channel is read again: its end is reported twice")
			}
		case EvReturn:
			if n, ok := constInt(depth(st)); ev.Name == "go" && ok && n >= 2 && !ev.Truth {
				r.At(!st.has("counted"), "counted", ev, st, "a request can end without being uncounted: a graceful shutdown waits forever")
			}
		}
	}, nil)
}

func first(a []*Term) *Term {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

// leavesEarly: the loop can be left from its body, before its condition ends it.
func leavesEarly(l *loopInfo) bool {
	if l == nil {
		return false
	}
	for b := range l.body {
		if b == l.header {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && !endsInPanic(s) {
				return true
			}
		}
	}
	return false
}

func endsInPanic(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func p20Stream(r *Run, d *drainInfo) {
	r.exec("pkg/server.RegisterStreamHandler", func(x *Exec, st *State, ev *Event) {
		if (ev.Kind == EvCall || ev.Kind == EvEnter) && st.has("refused") && strings.HasSuffix(ev.Name, ").Close") && strings.Contains(ev.Name, "internal/stream.stream") && len(ev.Args) == 2 {
			r.At(!ev.Args[1].isNil(), "no-late-stream", ev, st, "a stream opened during shutdown is closed as if nothing was wrong")
		}
		switch ev.Kind {
		case EvRet:
			if strings.HasSuffix(ev.Name, "atomic.Bool).Load") && d.draining != nil && fieldOfAddr(first(ev.Args)) == d.draining && len(st.locks) > 0 {
				st.mon["ld"] = ev.Results[0]
			}
		case EvLoad:
			if d.draining != nil && fieldOfAddr(ev.Addr) == d.draining && len(st.locks) > 0 {
				st.mon["ld"] = ev.Val
			}
		case EvAssume:
			if l := st.mon["ld"]; l != nil && ev.Cond == l {
				st.mon["open"] = x.TT.boolC(!ev.Truth)
				if ev.Truth {
					st.mon["refused"] = ev.Cond
				}
			}
		case EvCall:
			if isUnlock(ev) {
				delete(st.mon, "ld")
				delete(st.mon, "open")
			}
			if isUserHandler(ev) {
				r.At(st.has("registered"), "no-late-stream", ev, st, "the handler is invoked for a stream that a shutdown would not close")
			}
		case EvMapUpd:
			if ev.MapT != nil && strings.Contains(types.TypeString(ev.MapT.Elem(), nil), "internal/stream.") {
				r.At(st.mon["open"].isTrue(), "no-late-stream", ev, st, "a stream is registered although the shutdown may already have collected the streams to close")
				st.mon["registered"] = x.TT.boolC(true)
			}
		}
	}, nil)
}

// trackSkip notes the path on which a once-only body had already run.
func trackSkip(x *Exec, st *State, ev *Event) {
	if ev.Kind == EvRet && st.has("#onceskip") {
		st.mon["skip"] = x.TT.boolC(true)
	}
}

// ownerIs: f is a field of fn's receiver.
func ownerIs(fn *ssa.Function, f *types.Var) bool {
	rv := fn.Signature.Recv()
	if rv == nil {
		return false
	}
	s, ok := derefNamed(rv.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f.Name() && s.Field(i).Pos() == f.Pos() {
			return true
		}
	}
	return false
}

func isMethodNamed(f fnT, pkg, name string) bool {
	sn := shortName(f)
	return (strings.HasPrefix(sn, "("+pkg+".") || strings.HasPrefix(sn, "(*"+pkg+".")) && strings.HasSuffix(sn, ")."+name)
}
