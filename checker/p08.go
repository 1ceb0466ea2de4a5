package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P08", "blocking analysis of the distribution goroutines: in the goroutine that reads a bus subscription no unconditional channel operation, no wait, no user code; each select that hands a message over has a default or the done channel registered with that entry, and that done channel ends when the request or stream does", p08)
	register("P09", "resource typestate: every routing-table entry and cancellable context created on an abstract path is deleted or cancelled, with the key it was created with, before that path returns, or handed to the object that does so when it closes; only own keys are deleted", p09)
	register("P10", "typestate over SSA: at every publish the routing entries its replies need exist under the id the message carries, they exist while the reply is awaited, and the awaited channel is the registered one", p10)
}

// elemChans lists the channel types in a routing table's element (a channel or a struct of channels).
func elemChans(t types.Type) []*types.Chan {
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return []*types.Chan{u}
	case *types.Struct:
		var out []*types.Chan
		for i := 0; i < u.NumFields(); i++ {
			if c, ok := u.Field(i).Type().Underlying().(*types.Chan); ok {
				out = append(out, c)
			}
		}
		return out
	case *types.Pointer:
		return elemChans(u.Elem())
	}
	return nil
}

// regKind classifies a routing table by what its entries carry: a wire message type, "ack" (bare signals) or
// "ServerStream" (streams a server serves).
func regKind(m *types.Map) string {
	if m == nil {
		return ""
	}
	if b, ok := m.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return ""
	}
	if n := stripInst(namedOf(m.Elem())); n == "internal/stream.Stream" {
		return "ServerStream"
	}
	for _, c := range elemChans(m.Elem()) {
		n := stripInst(namedOf(derefNamed(c.Elem())))
		if strings.HasPrefix(n, "internal.") {
			return strings.TrimPrefix(n, "internal.")
		}
	}
	if c, ok := m.Elem().Underlying().(*types.Chan); ok {
		if s, ok := c.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			return "ack"
		}
	}
	return ""
}

// trackRegs keeps mon "reg:<kind>" (the key) and "regv:<kind>" (the value) for entries added on this path.
func trackRegs(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvMapUpd:
		if k := regKind(ev.MapT); k != "" {
			st.mon["reg:"+k] = ev.Key
			st.mon["regv:"+k] = ev.Val
			st.mon["regm:"+k] = ev.Addr
		}
	case EvMapDel:
		if k := regKind(ev.MapT); k != "" && st.has("reg:"+k) && same(ev.Key, st.mon["reg:"+k]) {
			delete(st.mon, "reg:"+k)
		}
	}
}

// entryHas: value v (a channel or a struct of channels) is or holds ch.
func (x *Exec) entryHas(st *State, v, ch *Term) bool {
	if v == nil || ch == nil {
		return false
	}
	ch = ch.strip()
	return v.strip() == ch || v.contains(ch) || x.reach(st, v, func(t *Term) bool { return t == ch })
}

// isLoopBlock: the goroutine waits on a bus subscription's channel.
func (x *Exec) isLoopBlock(st *State, ev *Event) bool {
	if ev.Kind != EvBlock || st.mon["#go"] == nil {
		return false
	}
	if l := st.mon["loopat"]; l != nil && l.obj == any(ev.Instr) {
		return true
	}
	for _, c := range ev.Sel.Cases {
		if isSubChan(c) {
			return true
		}
	}
	return false
}

func isSubChan(c SelCase) bool {
	if c.Dir != types.RecvOnly || c.T == nil {
		return false
	}
	t := c.Chan.strip()
	if t == nil {
		return false
	}
	if t.op == "pcall" && strings.HasSuffix(t.aux, ").Channel") {
		return true
	}
	return (t.op == "phi" || t.op == "loopcell" || t.op == "stale") && strings.HasPrefix(namedOf(derefNamed(c.T.Elem())), "internal.")
}

// entryOf: the routing-table lookup a channel was taken from.
func entryOf(t *Term) *Term {
	t = t.strip()
	for t != nil && (t.op == "field" || t.op == "extract" || t.op == "load" || t.op == "sload" || t.op == "faddr" || t.op == "peek" || t.op == "iface" || t.op == "conv") && len(t.args) > 0 {
		t = t.args[0].strip()
	}
	if t != nil && t.op == "lookup" {
		return t
	}
	return nil
}

func p08(r *Run) {
	for _, root := range []string{"pkg/client.NewRPCClient", "pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) { p08Loop(r, x, st, ev) }, nil)
	}
	r.Min("loop", 3)
	r.Min("hand-over", 4)
	r.Min("no-wait", 3)
	p08Selected(r)
	p08Closed(r)
}

func p08Loop(r *Run, x *Exec, st *State, ev *Event) {
	if x.isLoopBlock(st, ev) {
		st.mon["loop"] = st.mon["#go"]
		st.mon["loopat"] = x.TT.mk("instr", x.P.InstrPos(ev.Instr), ev.Instr, nil, nil)
		r.At(true, "loop", ev, st, "")
		r.At(ev.Sel.Blocking, "loop-idle", ev, st, "the distribution loop polls instead of waiting")
	}
	if st.mon["#go"] == nil || !st.has("loop") || st.mon["loop"] != st.mon["#go"] {
		return
	}
	const rule = "no-wait"
	switch ev.Kind {
	case EvSend, EvRecv:
		r.At(false, rule, ev, st, "the distribution loop waits on a channel (%v) without an alternative", ev.Addr)
	case EvBlock:
		if x.isLoopBlock(st, ev) {
			return
		}
		sends := false
		for _, c := range ev.Sel.Cases {
			if c.Dir == types.SendOnly {
				sends = true
			}
		}
		if !ev.Sel.Blocking {
			if sends {
				r.At(true, "hand-over", ev, st, "")
			}
			return
		}
		// a hand-over: a send to a looked-up entry with that entry's own end as the alternative
		ok := false
		for _, c := range ev.Sel.Cases {
			for _, d := range ev.Sel.Cases {
				if c.Dir != types.SendOnly || d.Dir != types.RecvOnly {
					continue
				}
				e, f := entryOf(c.Chan), entryOf(d.Chan)
				if e != nil && e == f {
					ok = true
				}
				if ctx := doneOf(d.Chan); ctx != nil && len(ctxTimed(ctx)) > 0 {
					ok = true
				}
			}
		}
		rl := rule
		if sends {
			rl = "hand-over"
		}
		if len(st.locks) > 0 {
			r.At(false, rl, ev, st, "the distribution loop waits for a receiver while holding a lock other requests and streams need")
		}
		r.At(ok, rl, ev, st, "the distribution loop hands a message over without an alternative that ends with that request or stream")
	case EvCall:
		bad := ""
		switch {
		case isUserHandler(ev):
			bad = "runs the user's handler"
		case ev.Name == "internal/bus.DeserializePayload" && fieldRead(ev.Args[0], "internal.Request", "RawRequest") != nil:
			bad = "decodes and handles a request"
		case dynNamed(ev, "pkg/server.AffinityFunc", "pkg/server.StreamAffinityFunc", "psrpc.ServerRPCInterceptor", "psrpc.ClientResponseHook"):
			bad = "runs user code"
		case isParamFunc(ev) && ev.FnType != nil && namedOf(ev.FnType) == "":
			bad = "runs user code"
		case ev.Name == "time.Sleep", ev.Name == "(*sync.WaitGroup).Wait", ev.Name == "(*sync.Cond).Wait":
			bad = "waits in " + ev.Name
		}
		if p := publishOf(ev); p != nil && (p.kind == "Response" || p.kind == "ClaimRequest") {
			bad = "answers a request itself"
		}
		if bad != "" {
			r.At(false, rule, ev, st, "the distribution loop %s", bad)
		} else {
			r.At(true, rule, ev, st, "")
		}
	}
}

// ctxOfDone finds a context whose Done channel is part of value v.
func (x *Exec) ctxsIn(st *State, v *Term) []*Term {
	var out []*Term
	visit := func(t *Term) bool {
		if c := doneOf(t); c != nil {
			out = append(out, c)
		}
		return false
	}
	v.any(visit)
	x.reach(st, v, visit)
	return out
}

func cancelOf(ctx *Term) *Term {
	ctx = ctx.strip()
	if ctx.op == "extract" && ctx.args[0].op == "ctxnew" {
		return ctx.args[0]
	}
	return nil
}

// calledCancel: the event calls the cancel function of a context; returns that context's creation.
func calledCancel(ev *Event) *Term {
	if ev.Kind != EvCall || ev.FnTerm == nil {
		return nil
	}
	t := ev.FnTerm.strip()
	if t.op == "extract" && t.aux == "1" && t.args[0].op == "ctxnew" {
		return t.args[0]
	}
	return nil
}

// p08Selected: once a request stops reading claims, the done channel registered with its claim entry has fired
// before the request waits for anything else.
func p08Selected(r *Run) {
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.OpenStream"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if st.mon["#go"] != nil {
				return
			}
			trackRegs(x, st, ev)
			if ev.Kind == EvMapUpd && regKind(ev.MapT) == "ClaimRequest" {
				for _, c := range elemChans(ev.MapT.Elem()) {
					if _, ok := c.Elem().Underlying().(*types.Struct); ok {
						st.mon["claimentry"] = ev.Val
					}
				}
				for _, c := range x.ctxsIn(st, ev.Val) {
					if k := cancelOf(c); k != nil {
						st.mon["claimctx"] = k
					}
				}
			}
			if k := calledCancel(ev); k != nil && st.has("claimctx") {
				// cancelling the context the entry ends with, or one it derives from
				for c := st.mon["claimctx"]; c != nil; {
					if c == k {
						st.mon["released"] = x.TT.boolC(true)
					}
					p := c.args[0].strip()
					c = nil
					if p.op == "extract" && p.args[0].op == "ctxnew" {
						c = p.args[0]
					}
				}
			}
			if ev.Kind == EvClose && st.has("claimentry") {
				// or a channel of its own that the entry ends with
				ch := ev.Addr.strip()
				visit := func(t *Term) bool { return t.strip() == ch }
				if st.mon["claimentry"].any(visit) || x.reach(st, st.mon["claimentry"], visit) {
					st.mon["released"] = x.TT.boolC(true)
				}
			}
			if ev.Kind == EvRet && ev.Name == "pkg/client.selectServer" {
				st.mon["selected"] = x.TT.boolC(true)
			}
			if ev.Kind == EvBlock && ev.Sel.Blocking && st.has("selected") && (st.has("claimctx") || st.has("claimentry")) && st.has("reg:ClaimRequest") {
				r.At(st.has("released"), "claims-released", ev, st, "the request waits on although it no longer reads its claims and the entry claims are delivered to has not ended")
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return defaultOpaque(f) || shortName(f) == "pkg/client.selectServer" }
		})
	}
	r.Min("claims-released", 1)
}

// p08Closed: a client stream's entry ends when the stream's adapter is closed.
func p08Closed(r *Run) {
	it := r.P.Named("internal/stream", "StreamAdapter")
	if it == nil {
		r.Fail("anchor", "internal/stream.StreamAdapter", "-", "the stream adapter interface does not exist", nil)
		return
	}
	closes := map[string]bool{} // fields of an adapter whose channel its Close closes
	for _, t := range r.P.implTypes(it, "pkg/client") {
		fn := r.P.methodOf(t, "Close")
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvClose:
				if t := ev.Addr.strip(); (t.op == "load" || t.op == "sload") && t.args[0].op == "faddr" {
					closes[t.args[0].aux] = true
					st.mon["closed"] = x.TT.boolC(true)
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth {
					r.At(st.has("closed"), "stream-release", ev, st, "closing a client stream does not end the entry its messages are delivered to")
				}
			}
		}, nil)
	}
	if len(r.obl["stream-release"]) == 0 {
		r.Min("stream-release", 1)
		return
	}
	r.exec("pkg/client.OpenStream", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Addr.op == "faddr" && closes[ev.Addr.aux] && isChan(ev.Addr.typ.Underlying().(*types.Pointer).Elem()) {
			st.mon["adclosed"] = ev.Val.strip()
		}
		if ev.Kind == EvMapUpd && regKind(ev.MapT) == "Stream" {
			st.mon["streamentry"] = ev.Val
			for _, c := range elemChans(ev.MapT.Elem()) {
				if _, ok := c.Elem().Underlying().(*types.Struct); ok {
					st.mon["needclosed"] = x.TT.boolC(true)
				}
			}
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && st.has("needclosed") && st.has("adclosed") {
			r.At(x.entryHas(st, st.mon["streamentry"], st.mon["adclosed"]), "stream-release", ev, st, "the end registered with a client stream's entry is not the one its adapter closes")
		}
	}, nil)
	r.Min("stream-release", 2)
}

// ---------------------------------------------------------------------------------------------

func p09(r *Run) {
	p09Client(r)
	p09Stream(r)
	p09Server(r)
	p09Opened(r)
	for rule, n := range map[string]int{"entry-removed": 5, "foreign-entry": 4, "context-cancelled": 5} {
		r.Min(rule, n)
	}
}

// trackCtx keeps mon "ctx:<id>" for cancellable contexts created and not yet cancelled or handed on.
func trackCtx(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvRet:
		if len(ev.Results) == 2 && ev.Results[0].op == "extract" && ev.Results[0].args[0].op == "ctxnew" {
			k := ev.Results[0].args[0]
			st.mon["ctx:"+itoa(k.id)] = k
		}
	case EvCall:
		if k := calledCancel(ev); k != nil {
			delete(st.mon, "ctx:"+itoa(k.id))
			delete(st.mon, "handed:"+itoa(k.id))
			return
		}
		if ev.Name == "time.AfterFunc" || ev.Name == "context.AfterFunc" {
			return // a timer is not an owner
		}
	case EvStore:
		// stored into an object: its owner
		if t := ev.Val.strip(); t.op == "extract" && t.aux == "1" && t.args[0].op == "ctxnew" && ev.Addr.op == "faddr" {
			delete(st.mon, "ctx:"+itoa(t.args[0].id))
		}
	case EvGo:
		for n, k := range st.mon {
			if !strings.HasPrefix(n, "ctx:") {
				continue
			}
			hit := func(t *Term) bool { return t.op == "extract" && t.aux == "1" && t.args[0] == k }
			found := ev.FnTerm != nil && x.reach(st, ev.FnTerm, hit)
			for _, a := range ev.Args {
				found = found || x.reach(st, a, hit)
			}
			if found {
				delete(st.mon, n)
				st.mon["handed:"+strings.TrimPrefix(n, "ctx:")] = x.goTerm(ev)
			}
		}
	}
}

func (x *Exec) goTerm(ev *Event) *Term {
	return x.TT.mk("goinstr", x.P.InstrPos(ev.Instr), ev.Instr, nil, nil)
}

func (x *Exec) checkCtx(r *Run, st *State, ev *Event) {
	if ev.Kind != EvReturn || ev.Truth {
		return
	}
	if ev.Name == "go" {
		me := x.goTerm(ev)
		seen := false
		for n, g := range st.mon {
			if strings.HasPrefix(n, "handed:") && g == me {
				seen = true
				r.At(false, "context-cancelled", ev, st, "a goroutine ends without cancelling the context it was given to cancel")
			}
		}
		if !seen {
			r.At(true, "context-cancelled", ev, st, "")
		}
		return
	}
	if st.mon["#go"] != nil {
		return
	}
	ok := true
	for n, k := range st.mon {
		if strings.HasPrefix(n, "ctx:") {
			ok = false
			r.At(false, "context-cancelled", ev, st, "a path returns without cancelling the context it derived with %s: its timer stays until it fires", k.aux)
		}
	}
	if ok {
		r.At(true, "context-cancelled", ev, st, "")
	}
}

// ownKeys: entries may only be deleted under the key of an entry this path added (or, in an adapter's Close, the
// stream id it is given).
func (x *Exec) checkDelete(r *Run, st *State, ev *Event, also func(k string, key *Term) bool) {
	if ev.Kind != EvMapDel {
		return
	}
	k := regKind(ev.MapT)
	if k == "" {
		return
	}
	was := st.mon["reg:"+k]
	if was == nil {
		was = st.mon["old:"+k]
	}
	ok := was != nil && same(ev.Key, was) || also != nil && also(k, ev.Key)
	if was == nil {
		// nothing was added here: the identifier this path registered in another table is its own in every table
		for n, t := range st.mon {
			ok = ok || (strings.HasPrefix(n, "reg:") || strings.HasPrefix(n, "old:")) && same(ev.Key, t)
		}
	}
	r.At(ok, "foreign-entry", ev, st, "a %s entry is deleted under %v, which is not the key it was added with", k, ev.Key)
}

func p09Client(r *Run) {
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.OpenStream", "pkg/client.RequestMulti"} {
		stream := strings.HasSuffix(root, "OpenStream")
		multi := strings.HasSuffix(root, "Multi")
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			x.checkDelete(r, st, ev, func(k string, key *Term) bool {
				return k == "ack" || k == "Stream" && readsFieldNamed(key, "streamID") != nil || fieldRead(key, "internal.Stream", "RequestId") != nil
			})
			if ev.Kind == EvMapUpd && regKind(ev.MapT) != "" {
				st.mon["old:"+regKind(ev.MapT)] = ev.Key
			}
			trackRegs(x, st, ev)
			trackCtx(x, st, ev)
			x.checkCtx(r, st, ev)
			if ev.Kind == EvCall || ev.Kind == EvEnter {
				if strings.HasSuffix(ev.Name, ").Close") && strings.Contains(ev.Name, "stream") {
					st.mon["closedstream"] = x.TT.boolC(true)
				}
			}
			if ev.Kind == EvBlock && st.mon["#go"] != nil && selectsMsg(ev.Sel, "Response") {
				st.mon["collector"] = st.mon["#go"]
			}
			if ev.Kind != EvReturn || ev.Truth {
				return
			}
			if multi && ev.Name == "go" && st.has("collector") {
				r.At(!st.has("reg:Response"), "entry-removed", ev, st, "the multi request's collector ends with the request's response entry still registered")
			}
			if ev.Name != "root" {
				return
			}
			err := ev.Results[len(ev.Results)-1]
			for _, k := range []string{"ClaimRequest", "Response"} {
				if multi {
					continue
				}
				if st.has("old:" + k) {
					r.At(!st.has("reg:"+k), "entry-removed", ev, st, "the call returns with its %s entry still registered", k)
				}
			}
			if stream && st.has("old:Stream") {
				switch x.isNilT(st, err) {
				case 0:
					r.At(!st.has("reg:Stream") || st.has("closedstream"), "entry-removed", ev, st, "opening the stream fails but its entry stays registered")
				case 1:
					r.At(st.has("reg:Stream") && !st.has("closedstream"), "entry-kept", ev, st, "the stream is returned although its entry was removed")
				}
			}
		}, nil)
	}
	r.Min("entry-kept", 1)
}

func p09Stream(r *Run) {
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		x.checkDelete(r, st, ev, nil)
		if ev.Kind == EvMapUpd && regKind(ev.MapT) != "" {
			st.mon["old:"+regKind(ev.MapT)] = ev.Key
		}
		trackRegs(x, st, ev)
		trackCtx(x, st, ev)
		x.checkCtx(r, st, ev)
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && st.has("old:ack") {
			r.At(!st.has("reg:ack"), "entry-removed", ev, st, "the send returns with its acknowledgement entry still registered")
		}
	}, nil)
	r.exec("internal/stream.(stream).HandleStream", func(x *Exec, st *State, ev *Event) {
		x.checkDelete(r, st, ev, func(k string, key *Term) bool {
			return k == "ack" && fieldRead(key, "internal.Stream", "RequestId") != nil || readsFieldNamed(key, "streamID") != nil || fieldRead(key, "internal.Stream", "StreamId") != nil
		})
		trackCtx(x, st, ev)
		x.checkCtx(r, st, ev)
	}, nil)
	// closing a stream, by either side, tells the adapter and cancels the stream's context
	for _, root := range []string{"internal/stream.(streamBase).Close", "internal/stream.(stream).HandleStream"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvStore:
				if ev.Addr.op == "faddr" && ev.Addr.aux == "closed" && ev.Val.isTrue() {
					st.mon["closing"] = x.TT.boolC(true)
				}
			case EvCall, EvEnter:
				if strings.HasSuffix(ev.Name, "StreamAdapter).Close") && len(ev.Args) > 1 {
					st.mon["adapter"] = x.TT.boolC(true)
					r.At(readsFieldNamed(ev.Args[1], "streamID") != nil || fieldRead(ev.Args[1], "internal.Stream", "StreamId") != nil, "foreign-entry", ev, st, "the stream's entry is removed under %v, which is not its id", ev.Args[1])
				}
				if ev.FnTerm != nil && readsFieldNamed(ev.FnTerm, "cancel") != nil {
					st.mon["cancel"] = x.TT.boolC(true)
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth && st.has("closing") {
					r.At(st.has("adapter"), "stream-removed", ev, st, "a closed stream's entry stays registered")
					r.At(st.has("cancel"), "stream-removed", ev, st, "a closed stream's context is not cancelled")
				}
			}
		}, func(x *Exec) {
			impl := x.Impl
			x.Impl = func(ev *Event) []types.Type {
				if namedOf(ev.FnType) == "internal/stream.StreamAdapter" {
					return nil
				}
				return impl(ev)
			}
		})
	}
	r.Min("stream-removed", 2)
	it := r.P.Named("internal/stream", "StreamAdapter")
	if it == nil {
		return
	}
	for _, t := range r.P.implTypes(it, "pkg/client", "pkg/server") {
		fn := r.P.methodOf(t, "Close")
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvMapDel && regKind(ev.MapT) != "" {
				k := ev.Key.strip()
				if r.At(k.op == "param" && k.typ != nil && types.Identical(k.typ.Underlying(), types.Typ[types.String]), "foreign-entry", ev, st, "closing a stream removes the entry of %v, not its own", k) {
					st.mon["gone"] = k
				}
			}
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
				r.At(st.has("gone"), "adapter-removes", ev, st, "closing a stream leaves its entry registered")
			}
		}, nil)
	}
	r.Min("adapter-removes", 2)
}

func p09Server(r *Run) {
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if st.mon["#go"] == nil {
				return
			}
			if ev.Kind == EvMapDel && regKind(ev.MapT) == "ClaimResponse" || ev.Kind == EvMapUpd && regKind(ev.MapT) == "ClaimResponse" {
				x.checkDelete(r, st, ev, nil)
				if ev.Kind == EvMapUpd {
					st.mon["old:ClaimResponse"] = ev.Key
				}
				trackRegs(x, st, ev)
			}
			if ev.Kind == EvMapUpd && regKind(ev.MapT) == "ServerStream" {
				st.mon["sstream"] = ev.Val.strip()
			}
			trackCtx(x, st, ev)
			x.checkCtx(r, st, ev)
			if ev.Kind == EvReturn && ev.Name == "go" && !ev.Truth && st.has("old:ClaimResponse") {
				r.At(!st.has("reg:ClaimResponse"), "entry-removed", ev, st, "a server-side claim ends with its entry still registered")
			}
		}, nil)
	}
}

// p09Opened: a stream the server registered is closed, and so removed, when its handling ends, unless it was hijacked.
func p09Opened(r *Run) {
	r.exec("pkg/server.RegisterStreamHandler", func(x *Exec, st *State, ev *Event) {
		if st.mon["#go"] == nil {
			return
		}
		switch {
		case ev.Kind == EvMapUpd && regKind(ev.MapT) == "ServerStream":
			st.mon["opened"], st.mon["openedgo"] = ev.Val.strip(), st.mon["#go"]
		case ev.Kind == EvRet && strings.HasSuffix(ev.Name, ").Hijacked"):
			st.mon["hij"] = ev.Results[0]
		case ev.Kind == EvAssume && st.has("hij") && ev.Cond == st.mon["hij"]:
			st.mon["hijacked"] = x.TT.boolC(ev.Truth)
		case (ev.Kind == EvCall || ev.Kind == EvEnter) && strings.HasSuffix(ev.Name, ").Close") && strings.Contains(ev.Name, "tream") && len(ev.Args) == 2:
			if o := st.mon["opened"]; o != nil && (ev.Args[0].strip() == o || ev.Args[0].contains(o) || o.contains(ev.Args[0].strip())) {
				delete(st.mon, "opened")
			}
		case ev.Kind == EvMapDel && regKind(ev.MapT) == "ServerStream":
			delete(st.mon, "opened")
		case ev.Kind == EvReturn && ev.Name == "go" && !ev.Truth && st.has("openedgo") && st.mon["openedgo"] == st.mon["#go"]:
			r.At(st.mon["opened"] == nil || st.mon["hijacked"].isTrue(), "entry-removed", ev, st, "the handling of a stream ends with the stream still registered")
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || strings.HasSuffix(shortName(f), ").Hijacked")
		}
	})
}

// ---------------------------------------------------------------------------------------------

func p10(r *Run) {
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.OpenStream", "pkg/client.RequestMulti"} {
		p10Client(r, root)
	}
	p10Send(r)
	p10Server(r)
	p10Subscribe(r)
	for rule, n := range map[string]int{"registered-first": 5, "awaited-registered": 4, "subscribed-first": 4} {
		r.Min(rule, n)
	}
}

func p10Client(r *Run, root string) {
	const rule = "registered-first"
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && st.mon["regm:ack"] != nil && ev.Val.strip() == st.mon["regm:ack"].strip() && ev.Addr.op == "faddr" {
			st.mon["ackstored"] = x.TT.boolC(true)
		}
		trackRegs(x, st, ev)
		if p := publishOf(ev); p != nil && ev.Kind == EvCall {
			switch p.kind {
			case "Request":
				id := x.peek(st, p.msg, "RequestId")
				r.At(st.has("reg:Response") && same(st.mon["reg:Response"], id), rule, ev, st, "the request is published before its response entry is registered under its id")
				st.mon["pubid"] = id
			case "Stream":
				if !isOpen(x, st, p.msg) {
					return
				}
				id, sid := x.peek(st, p.msg, "RequestId"), x.peek(st, p.msg, "StreamId")
				r.At(st.has("reg:Stream") && same(st.mon["reg:Stream"], sid), rule, ev, st, "the stream open is published before the stream's entry is registered under its id")
				r.At(st.has("reg:ack") && same(st.mon["reg:ack"], id) && st.has("ackstored"), rule, ev, st, "the stream open is published before the entry its acknowledgement wakes is registered under its id")
				st.mon["pubid"] = id
			default:
				return
			}
			if st.has("reg:ClaimRequest") && same(st.mon["reg:ClaimRequest"], st.mon["pubid"]) {
				st.mon["claimready"] = x.TT.boolC(true)
			}
		}
		if st.mon["#go"] != nil {
			return
		}
		if ev.Kind == EvCall && ev.Name == "pkg/client.selectServer" {
			r.At(st.has("claimready"), rule, ev, st, "the request was published before its claim entry was registered under its id")
			r.At(st.has("reg:ClaimRequest"), "awaited-registered", ev, st, "the request's claims are awaited although their entry was removed")
			ok := false
			for _, a := range ev.Args {
				if chanElemOfTerm(a) == "internal.ClaimRequest" {
					ok = x.entryHas(st, st.mon["regv:ClaimRequest"], a)
				}
			}
			r.At(ok, "awaited-registered", ev, st, "the claims awaited are not delivered where they are awaited")
		}
		if ev.Kind == EvBlock && ev.Sel.Blocking {
			for _, c := range ev.Sel.Cases {
				if c.Dir != types.RecvOnly || c.T == nil {
					continue
				}
				k := ""
				if namedOf(derefNamed(c.T.Elem())) == "internal.Response" {
					k = "Response"
				} else if s, ok := c.T.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 && doneOf(c.Chan) == nil && c.Chan.op == "mkchan" {
					k = "ack"
				}
				if k == "" {
					continue
				}
				if c.Chan.isNil() {
					continue
				}
				r.At(st.has("reg:"+k) && x.entryHas(st, st.mon["regv:"+k], c.Chan), "awaited-registered", ev, st, "the %s awaited is not the registered entry's, or the entry was removed", k)
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || shortName(f) == "pkg/client.selectServer" }
	})
}

func chanElemOfTerm(t *Term) string {
	t = t.strip()
	if t == nil || t.typ == nil {
		return ""
	}
	return chanElemOf(t.typ)
}

func p10Send(r *Run) {
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		trackRegs(x, st, ev)
		if m := streamSent(x, st, ev); m != nil {
			r.At(st.has("reg:ack") && same(st.mon["reg:ack"], x.peek(st, m, "RequestId")), "registered-first", ev, st, "a stream message is sent before its acknowledgement entry is registered under its id")
		}
		if ev.Kind == EvBlock && ev.Sel.Blocking {
			for _, c := range ev.Sel.Cases {
				if c.Dir == types.RecvOnly && doneOf(c.Chan) == nil {
					r.At(st.has("reg:ack") && x.entryHas(st, st.mon["regv:ack"], c.Chan), "awaited-registered", ev, st, "the acknowledgement awaited is not the registered entry's, or the entry was removed")
				}
			}
		}
	}, nil)
}

func p10Server(r *Run) {
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		isStream := strings.HasSuffix(root, "StreamHandler")
		var none, try []func(ok bool) // registrations without a buffer, deliveries that do not wait
		defer func() {
			for _, f := range none {
				f(len(try) == 0)
			}
		}()
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if s := subscribeOf(ev); s != nil && ev.Kind == EvRet {
				st.mon["sub:"+s.kind] = x.TT.boolC(true)
			}
			if st.mon["#go"] == nil {
				if ev.Kind == EvAssume && readsFieldNamed(ev.Cond, "RequireClaim") != nil && !st.has("flag0") {
					st.mon["flag0"] = x.TT.boolC(ev.Truth)
				}
				return
			}
			trackRegs(x, st, ev)
			if ev.Kind == EvMapUpd && ev.MapT != nil && chanElemOf(ev.MapT.Elem()) == "internal.ClaimResponse" {
				if v := ev.Val.strip(); v.op == "mkchan" {
					e, s := *ev, st
					f := func(ok bool) {
						r.At(ok, "grant-kept", &e, s, "the channel registered for a grant has no room for it and grants are handed over without waiting: one that arrives before the handler waits for it is lost")
					}
					if isZeroInt(v.args[0]) {
						none = append(none, f)
					} else {
						f(true)
					}
				}
			}
			if ev.Kind == EvBlock && !ev.Sel.Blocking {
				for _, c := range ev.Sel.Cases {
					if c.Dir == types.SendOnly && c.T != nil && namedOf(derefNamed(c.T.Elem())) == "internal.ClaimResponse" {
						try = append(try, nil)
					}
				}
			}
			p := publishOf(ev)
			if p != nil && ev.Kind == EvCall {
				switch p.kind {
				case "ClaimRequest":
					id := x.peek(st, p.msg, "RequestId")
					r.At(st.has("reg:ClaimResponse") && same(st.mon["reg:ClaimResponse"], id), "registered-first", ev, st, "a claim is published before the entry its grant is delivered to is registered under its id")
					r.At(st.has("sub:ClaimResponse") || st.mon["flag0"].isFalse(), "subscribed-first", ev, st, "a claim is published although grants are not subscribed to")
				case "Stream":
					sid := x.peek(st, p.msg, "StreamId")
					st.mon["ackreg"] = x.TT.boolC(st.has("reg:ServerStream") && same(st.mon["reg:ServerStream"], sid))
				}
			}
			if isStream && ev.Kind == EvCall && isUserHandler(ev) {
				r.At(st.has("ackreg"), "open-acknowledged", ev, st, "the stream handler runs although the opening was not acknowledged")
				r.At(!st.mon["ackreg"].isFalse(), "registered-first", ev, st, "a stream is acknowledged before it is registered under its id")
			}
			if ev.Kind == EvBlock {
				for _, c := range ev.Sel.Cases {
					if c.Dir == types.RecvOnly && c.T != nil && c.Chan.op == "mkchan" && namedOf(derefNamed(c.T.Elem())) == "internal.ClaimResponse" {
						r.At(st.has("reg:ClaimResponse") && x.entryHas(st, st.mon["regv:ClaimResponse"], c.Chan), "awaited-registered", ev, st, "the grant awaited is not the registered entry's, or the entry was removed")
					}
				}
			}
		}, nil)
	}
}

func p10Subscribe(r *Run) {
	for _, root := range []string{"pkg/client.NewRPCClient"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if s := subscribeOf(ev); s != nil && ev.Kind == EvRet {
				st.mon["sub:"+s.kind] = x.TT.boolC(true)
			}
			trackFlag(x, st, ev, "EnableStreams")
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && x.isNilT(st, ev.Results[0]) == 0 {
				for _, k := range []string{"Response", "ClaimRequest"} {
					r.At(st.has("sub:"+k), "subscribed-first", ev, st, "a client is created that is not subscribed to its %s messages", k)
				}
				off := st.mon["flag:EnableStreams"].isFalse()
				if f := structFieldVar(ev.Results[0].strip().typ, "ClientOpts"); f != nil {
					off = off || x.peek(st, x.faddr(ev.Results[0].strip(), f, types.NewPointer(f.Type())), "EnableStreams").isFalse()
				}
				r.At(st.has("sub:Stream") || off, "subscribed-first", ev, st, "a client with streams is created that is not subscribed to its stream messages")
			}
		}, nil)
	}
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if s := subscribeOf(ev); s != nil && ev.Kind == EvRet {
				st.mon["sub:"+s.kind] = x.TT.boolC(true)
			}
			if st.mon["#go"] == nil {
				trackFlag(x, st, ev, "RequireClaim")
			}
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && x.isNilT(st, ev.Results[0]) == 1 {
				r.At(st.has("sub:Request") || st.has("sub:Stream"), "subscribed-first", ev, st, "a handler is registered that is not subscribed to its requests")
				r.At(st.has("sub:ClaimResponse") || st.mon["flag:RequireClaim"].isFalse(), "subscribed-first", ev, st, "a handler that needs grants is registered without being subscribed to them")
			}
		}, nil)
	}
}
