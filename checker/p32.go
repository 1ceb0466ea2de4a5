package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P32", "typestate over SSA: every subscription a client opens is closed when its construction fails and when its distribution goroutine ends; every wait of that goroutine has the client's close as an alternative, after which it does not wait again; the end of one of its subscriptions closes the client; the goroutine of a client stream watches the client and the stream's context, closes the stream and ends; a server handler's goroutine waits with its completion as an alternative and ends on it, and the handler's close closes that completion once; the last subscriber of a NATS subject removes the subscription and its routing entry in one critical section", p32)
}

func p32(r *Run) {
	fuse := p32Close(r)
	p32Client(r, fuse)
	p32ClientStream(r, fuse)
	ends := p32Handlers(r)
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		p32Run(r, root, ends)
	}
	p32Nats(r)
	for rule, n := range map[string]int{"close-breaks": 1, "construct": 1, "client-closes": 1, "watches": 1, "client-nil": 2, "stream-watches": 1, "stream-ends": 2, "handler-completes": 2, "handler-once": 2, "handler-watches": 2, "handler-ends": 2, "nats-unsubscribes": 2, "nats-together": 1} {
		r.Min(rule, n)
	}
}

// watchOf: the fuse a channel is closed by.
func watchOf(ch *Term) *types.Var {
	ch = ch.strip()
	if ch != nil && (ch.op == "pcall" || ch.op == "call") && strings.HasSuffix(ch.aux, "Fuse).Watch") && len(ch.args) == 1 {
		return fieldOfAddr(ch.args[0])
	}
	return nil
}

// p32Close: the fuse closing a client breaks.
func p32Close(r *Run) *types.Var {
	var fuse *types.Var
	r.exec("pkg/client.(RPCClient).Close", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && (strings.HasSuffix(ev.Name, "Fuse).Break") || strings.HasSuffix(ev.Name, "Fuse).Once")) {
			if f := fieldOfAddr(ev.Args[0]); f != nil {
				fuse = f
				st.mon["broke"] = x.TT.boolC(true)
			}
		}
		if ev.Kind == EvAssume && ev.Truth && (ev.Cond.op == "call" || ev.Cond.op == "pcall") && lastName(ev.Cond.aux) == "IsBroken" {
			st.mon["broke"] = x.TT.boolC(true)
		}
		if ev.Kind == EvReturn && ev.Name == "root" {
			r.At(st.has("broke") && !ev.Truth, "close-breaks", ev, st, "closing a client may leave it open")
		}
	}, nil)
	return fuse
}

// openSubs follows the subscriptions opened and closed: "sub:<id>" while one is open.
func openSubs(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvRet:
		if sub := subscribeOf(ev); sub != nil && len(ev.Results) == 2 {
			id := itoa(ev.Results[0].strip().id)
			st.mon["sub:"+id], st.mon["err:"+id] = x.TT.str(sub.kind), ev.Results[1]
		}
	case EvAssume:
		if ev.Cond.op == "eq" && !ev.Truth {
			for k, t := range st.mon {
				if strings.HasPrefix(k, "err:") && (ev.Cond.args[0] == t && ev.Cond.args[1].isNil() || ev.Cond.args[1] == t && ev.Cond.args[0].isNil()) {
					delete(st.mon, k)
					delete(st.mon, "sub:"+k[4:])
				}
			}
		}
	case EvCall:
		if subClosed(ev) != "" {
			id := itoa(ev.Args[0].strip().id)
			delete(st.mon, "sub:"+id)
			delete(st.mon, "err:"+id)
		}
	}
}

func openKinds(st *State) []string {
	var out []string
	for k, t := range st.mon {
		if strings.HasPrefix(k, "sub:") {
			out = append(out, strings.Trim(t.aux, `"`))
		}
	}
	sort.Strings(out)
	return out
}

func p32Client(r *Run, fuse *types.Var) {
	opened, closed := map[string]*Event{}, map[string]bool{}
	ended := func(c *Term, truth bool) bool { // the condition tells that a subscription ended
		return c.op == "recvok" && !truth && subChan(c.args[0]) || c.op == "eq" && truth && (recvOfSub(c.args[0]) && c.args[1].isNil() || recvOfSub(c.args[1]) && c.args[0].isNil())
	}
	tells := func(c *Term) bool { return ended(c, true) || ended(c, false) }
	r.exec("pkg/client.NewRPCClient", func(x *Exec, st *State, ev *Event) {
		openSubs(x, st, ev)
		inGo := goDepth(st) != ""
		switch ev.Kind {
		case EvRet:
			if sub := subscribeOf(ev); sub != nil {
				e := *ev
				opened[sub.kind] = &e
			}
		case EvCall:
			if k := subClosed(ev); k != "" && inGo {
				closed[k] = true
				r.At(st.has("stop"), "client-closes", ev, st, "the client's goroutine closes a subscription although the client is not closed")
			}
			if strings.HasSuffix(ev.Name, "Fuse).Break") && fuse != nil && fieldOfAddr(ev.Args[0]) == fuse {
				delete(st.mon, "ended")
			}
		case EvBlock:
			if !inGo {
				return
			}
			r.At(!st.has("stop"), "client-closes", ev, st, "the client's goroutine waits again after the client was closed")
			reads := false
			watches := ev.Sel != nil && !ev.Sel.Blocking
			if ev.Sel != nil {
				for _, c := range ev.Sel.Cases {
					reads = reads || c.Dir == types.RecvOnly && subChan(c.Chan)
					watches = watches || c.Dir == types.RecvOnly && fuse != nil && watchOf(c.Chan) == fuse
				}
			}
			if reads {
				r.At(watches, "watches", ev, st, "the client's goroutine waits for messages and is not woken when the client is closed: it and its subscriptions stay")
				r.At(!st.has("ended"), "client-nil", ev, st, "one of the client's subscriptions has ended, and the client is not closed")
			}
		case EvSelect, EvRecv:
			if !inGo || ev.Addr == nil {
				return
			}
			if fuse != nil && watchOf(ev.Addr) == fuse {
				st.mon["stop"] = x.TT.boolC(true)
			}
			if subChan(ev.Addr) && ev.Val != nil {
				st.mon["unk"] = x.TT.boolC(true)
			}
		case EvAssume:
			if inGo && tells(ev.Cond) {
				delete(st.mon, "unk")
				if ended(ev.Cond, ev.Truth) {
					st.mon["ended"] = x.TT.boolC(true)
				}
			}
		case EvBack:
			if inGo && !ev.Small {
				r.At(!st.has("stop"), "client-closes", ev, st, "the client's goroutine goes on after the client was closed")
				r.At(!st.has("unk"), "client-nil", ev, st, "the end of one of the client's subscriptions is not noticed")
				r.At(!st.has("ended"), "client-nil", ev, st, "one of the client's subscriptions has ended, and the client is not closed")
			}
		case EvReturn:
			if ev.Name == "go" && !ev.Truth {
				open := openKinds(st)
				r.At(len(open) == 0, "client-closes", ev, st, "the client's goroutine ends and leaves open: %s", strings.Join(open, ", "))
				r.At(st.has("stop"), "client-closes", ev, st, "the client's goroutine ends although the client is not closed")
			}
			if ev.Name == "root" && len(ev.Results) > 0 && x.isNilT(st, ev.Results[len(ev.Results)-1]) != 1 {
				open := openKinds(st)
				r.At(len(open) == 0, "construct", ev, st, "a client that could not be made leaves open: %s", strings.Join(open, ", "))
			}
		}
	}, nil)
	for k, ev := range opened {
		r.Check(closed[k], "client-closes", "subscription of "+k, r.P.InstrPos(ev.Instr), "nothing closes this subscription when the client is closed", nil)
	}
}

// recvOfSub: t was received from a subscription of the bus.
func recvOfSub(t *Term) bool {
	t = t.strip()
	return t != nil && t.op == "recv" && subChan(t.args[0])
}

// p32ClientStream: the goroutine that hands a client stream its messages.
func p32ClientStream(r *Run, fuse *types.Var) {
	r.exec("pkg/client.OpenStream", func(x *Exec, st *State, ev *Event) {
		if goDepth(st) == "" {
			return
		}
		switch ev.Kind {
		case EvBlock:
			r.At(!st.has("stop"), "stream-ends", ev, st, "the goroutine of a stream waits again after the stream or the client ended")
			reads, ctx, client := false, false, false
			if ev.Sel != nil && ev.Sel.Blocking {
				for _, c := range ev.Sel.Cases {
					if c.Dir != types.RecvOnly {
						continue
					}
					reads = reads || c.Chan.typ != nil && chanElemOf(c.Chan.typ) == "internal.Stream"
					ctx = ctx || doneOf(c.Chan) != nil
					client = client || fuse != nil && watchOf(c.Chan) == fuse
				}
			}
			if reads {
				r.At(ctx, "stream-watches", ev, st, "the goroutine of a stream is not woken when the stream ends: it stays")
				r.At(client, "stream-watches", ev, st, "the goroutine of a stream is not woken when the client is closed: the stream stays open")
			}
		case EvSelect:
			if ev.Addr != nil && (doneOf(ev.Addr) != nil || fuse != nil && watchOf(ev.Addr) == fuse) && selHasStream(ev.Sel) {
				st.mon["stop"] = x.TT.boolC(true)
			}
		case EvCall:
			if strings.HasSuffix(stripInst(ev.Name), ").Close") && strings.Contains(ev.Name, "tream") && len(ev.Args) == 2 {
				st.mon["closed"] = x.TT.boolC(true)
			}
		case EvBack:
			r.At(!st.has("stop"), "stream-ends", ev, st, "the goroutine of a stream goes on after the stream or the client ended")
		case EvReturn:
			if ev.Name == "go" && !ev.Truth && st.has("stop") {
				r.At(st.has("closed"), "stream-ends", ev, st, "the client or the stream's context ended, and the stream is not closed")
				r.OK("stream-ends", "return of the goroutine")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || isMethodNamed(f, "internal/stream", "Close") || isMethodNamed(f, "internal/stream", "HandleStream")
		}
	})
}

func selHasStream(s *SelInfo) bool {
	if s != nil {
		for _, c := range s.Cases {
			if c.Dir == types.RecvOnly && c.Chan.typ != nil && chanElemOf(c.Chan.typ) == "internal.Stream" {
				return true
			}
		}
	}
	return false
}

// p32Handlers: the completion channels the handlers' close methods close, and the types they belong to.
func p32Handlers(r *Run) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	_, it := r.P.handlerTable()
	if it == nil || closeMethod(it) == "" {
		r.Fail("anchor", "pkg/server.RPCServer", "-", "the server's table of handlers was not found", nil)
		return out
	}
	for _, t := range r.P.implTypes(it, "pkg/server") {
		fn := r.P.methodOf(t, closeMethod(it))
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			trackSkip(x, st, ev)
			switch ev.Kind {
			case EvCall:
				if strings.HasSuffix(ev.Name, "Once).Do") || strings.HasSuffix(ev.Name, "Fuse).Once") {
					st.mon["once"] = x.TT.boolC(true)
				}
			case EvAssume:
				if c := ev.Cond; c.op == "call" || c.op == "pcall" {
					s := lastName(c.aux)
					if s == "Swap" || strings.HasPrefix(s, "CompareAndSwap") {
						if ev.Truth == strings.HasPrefix(s, "Compare") {
							st.mon["once"] = x.TT.boolC(true)
						} else {
							st.mon["late"] = x.TT.boolC(true)
						}
					}
				}
			case EvClose:
				f := fieldOfLoad(ev.Addr)
				if f == nil || !ownerIs(fn, f) {
					return
				}
				out[f] = true
				r.At(st.has("once") && !st.has("skip") && !st.has("late"), "handler-once", ev, st, "the completion of a handler is reported on every close: the second one panics")
				r.At(!st.has("ended"), "handler-once", ev, st, "the completion of a handler is reported twice")
				st.mon["ended"] = x.TT.boolC(true)
			case EvRecv:
				if f := fieldOfLoad(ev.Addr); f != nil && ownerIs(fn, f) {
					st.mon["awaited"] = x.TT.boolC(true)
				}
			case EvReturn:
				if ev.Name != "root" || ev.Truth || st.has("skip") {
					return
				}
				if st.has("late") {
					r.At(st.has("awaited"), "handler-once", ev, st, "a close that is not the first returns before the handler is closed")
					return
				}
				r.At(st.has("ended"), "handler-completes", ev, st, "a handler is closed, and its goroutine is not told to end")
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return defaultOpaque(f) || isMethodNamed(f, "internal/stream", "Close") }
			x.DynImpl = nil
		})
	}
	return out
}

// p32Run: the goroutine of a handler.
func p32Run(r *Run, root string, ends map[*types.Var]bool) {
	isEnd := func(ch *Term) bool { f := fieldOfLoad(ch); return f != nil && ends[f] }
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if goDepth(st) == "" {
			return
		}
		switch ev.Kind {
		case EvBlock:
			r.At(!st.has("stop"), "handler-ends", ev, st, "the handler's goroutine waits again after the handler was closed")
			reads, watches := false, false
			if ev.Sel != nil {
				for _, c := range ev.Sel.Cases {
					reads = reads || c.Dir == types.RecvOnly && subChan(c.Chan)
					watches = watches || c.Dir == types.RecvOnly && (isEnd(c.Chan) || fieldHolding(st, c.Chan) != nil && ends[fieldHolding(st, c.Chan)])
				}
				if !ev.Sel.Blocking {
					return
				}
			} else {
				reads = ev.Addr != nil && subChan(ev.Addr)
			}
			if reads {
				st.mon["reads"] = x.TT.str(goDepth(st))
				r.At(watches, "handler-watches", ev, st, "the handler's goroutine is not woken when the handler is closed: it stays")
			}
		case EvSelect, EvRecv:
			if ev.Addr != nil && (isEnd(ev.Addr) || fieldHolding(st, ev.Addr) != nil && ends[fieldHolding(st, ev.Addr)]) {
				st.mon["stop"] = x.TT.boolC(true)
				r.OK("handler-ends", root)
			}
		case EvAssume:
			if c := ev.Cond; c.op == "recvok" && !ev.Truth && subChan(c.args[0]) || c.op == "eq" && ev.Truth && (recvOfSub(c.args[0]) && c.args[1].isNil() || recvOfSub(c.args[1]) && c.args[0].isNil()) {
				st.mon["ended"] = x.TT.boolC(true)
			}
		case EvBack:
			r.At(!st.has("stop"), "handler-ends", ev, st, "the handler's goroutine goes on after the handler was closed")
		case EvReturn:
			if ev.Name == "go" && !ev.Truth && st.mon["reads"] == x.TT.str(goDepth(st)) {
				r.At(st.has("stop") || st.has("ended"), "handler-ends", ev, st, "the handler's goroutine ends although neither the handler is closed nor its subscription ended: requests are no longer read")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || isMethodNamed(f, "pkg/server", "handleRequest")
		}
	})
}

// p32Nats: what is subscribed at the NATS server is unsubscribed when its last subscriber closes.
func p32Nats(r *Run) {
	it := r.P.Named(busPkg, "Reader")
	if it == nil {
		r.Fail("anchor", "internal/bus.Reader", "-", "the reader interface does not exist", nil)
		return
	}
	isNats := func(t types.Type) bool { return strings.HasSuffix(types.TypeString(t, nil), "nats.go.Subscription") }
	var hasNats func(t types.Type, depth int) bool
	hasNats = func(t types.Type, depth int) bool {
		s, ok := derefNamed(t).Underlying().(*types.Struct)
		if !ok || depth > 2 {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isNats(derefNamed(f.Type())) || namedOf(derefNamed(f.Type())) != "" && strings.HasPrefix(namedOf(derefNamed(f.Type())), "internal/bus.") && hasNats(f.Type(), depth+1) {
				return true
			}
		}
		return false
	}
	routes := func(t *Term) bool { // a table of things that hold a NATS subscription
		f := fieldOfLoad(t)
		if f == nil {
			return false
		}
		m, ok := f.Type().Underlying().(*types.Map)
		return ok && hasNats(m.Elem(), 0)
	}
	for _, t := range r.P.implTypes(it, busPkg) {
		fn := r.P.methodOf(t, "Close")
		if fn == nil || !hasNats(t, 0) {
			continue
		}
		routed := false
		if s, ok := derefNamed(t).Underlying().(*types.Struct); ok {
			routed = true
			for i := 0; i < s.NumFields(); i++ {
				if isNats(derefNamed(s.Field(i).Type())) {
					routed = false
				}
			}
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) { p32NatsOn(r, routed, routes, fn, x, st, ev) }, nil)
	}
}

func p32NatsOn(r *Run, routed bool, routes func(*Term) bool, fn *ssa.Function, x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvCall:
		if strings.HasSuffix(ev.Name, "nats.go.Subscription).Unsubscribe") {
			st.mon["unsub"] = x.TT.boolC(true)
			for l := range st.locks {
				st.mon["h:"+itoa(l.id)] = x.TT.boolC(true)
			}
			if routed {
				r.At(!st.has("others"), "nats-unsubscribes", ev, st, "the subject is unsubscribed although other subscribers are left")
				r.At(st.has("none"), "nats-unsubscribes", ev, st, "the subject is unsubscribed without knowing that no subscriber is left")
			}
		}
		if isUnlock(ev) && len(ev.Args) > 0 {
			delete(st.mon, "h:"+itoa(lockKey(st, ev.Args[0]).id))
		}
	case EvAssume:
		c := ev.Cond
		if c.op == "lookupok" && !ev.Truth {
			st.mon["absent"] = x.TT.boolC(true)
		}
		if c.op == "eq" && ev.Truth && (c.args[0].aux == "-1" || c.args[1].aux == "-1") || c.op == "lt" && ev.Truth && c.args[1].aux == "0" {
			st.mon["absent"] = x.TT.boolC(true)
		}
		if l, e := lenFact(c, ev.Truth); l != nil && e >= 0 {
			if e == 0 {
				st.mon["others"] = x.TT.boolC(true)
			} else if isMapType(l.typ) {
				st.mon["none"] = x.TT.boolC(true)
			}
		}
		if manyLeft(c, ev.Truth) {
			st.mon["others"] = x.TT.boolC(true)
		}
	case EvMapDel:
		if routes(ev.Addr) {
			held := false
			for l, m := range st.locks {
				held = held || m == lockW && st.has("h:"+itoa(l.id))
			}
			r.At(st.has("unsub") && held, "nats-together", ev, st, "the routing entry of a subject is removed other than in the critical section that unsubscribes it")
			st.mon["gone"] = x.TT.boolC(true)
		}
	case EvReturn:
		if ev.Name != "root" || ev.Truth {
			return
		}
		if !routed {
			r.At(st.has("unsub"), "nats-unsubscribes", ev, st, "closing a subscription leaves it open at the NATS server")
			return
		}
		r.At(st.has("unsub") || st.has("absent") || st.has("others"), "nats-unsubscribes", ev, st, "closing the last subscription of a subject leaves it open at the NATS server")
		if st.has("unsub") {
			r.At(st.has("gone"), "nats-together", ev, st, "a subject is unsubscribed and its routing entry stays: later subscribers of it get nothing")
		}
	}
}

// manyLeft: the condition tells that a length is more than one.
func manyLeft(c *Term, truth bool) bool {
	if len(c.args) != 2 {
		return false
	}
	a, b := c.args[0].strip(), c.args[1].strip()
	n, okA := constInt(a)
	m, okB := constInt(b)
	switch {
	case c.op == "lt" && b.op == "len" && okA: // n < len
		return truth && n >= 1
	case c.op == "lt" && a.op == "len" && okB: // len < m
		return !truth && m >= 2
	case c.op == "eq" && a.op == "len" && okB:
		return !truth && m == 1 || truth && m > 1
	case c.op == "eq" && b.op == "len" && okA:
		return !truth && n == 1 || truth && n > 1
	}
	return false
}

// subChan: the channel of a subscription of the bus.
func subChan(t *Term) bool {
	t = t.strip()
	return t != nil && (t.op == "call" || t.op == "pcall") && strings.HasSuffix(t.aux, "Subscription).Channel")
}
