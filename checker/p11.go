package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P11", "typestate over SSA: an acknowledgement is sent only after decoding succeeded and the message's value was accepted by the receive channel, with the message's own ids; Send reports success only after a receive from the acknowledgement channel it registered; an acknowledgement closes exactly the entry looked up and removed under its id", p11)
	register("P12", "typestate over SSA: the receive channel is closed only on the path that won the closed transition under the stream's lock, once, after waiting for deliveries in progress on a local close; messages are written to it only by a delivery counted while the stream was open", p12)
	register("P13", "dataflow over abstract paths: the cause of the winning close is what is stored, sent to the peer (code and text) and returned by later operations; the remote cause is decoded from the message; no answer to the peer's close; the stream's context is cancelled; the handler's error is the cause unless hijacked", p13)
}

// streamStruct finds the struct that holds a stream's shared state: the one with the acknowledgement table.
func (p *Program) streamStruct() (*types.Named, *types.Struct) {
	sp := p.Pkg("internal/stream")
	if sp == nil {
		return nil, nil
	}
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		s, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && regKind(m) == "ack" {
				return named, s
			}
		}
	}
	return nil, nil
}

type streamFields struct {
	typ                               string
	closed, err, recv, id, cancel, cx *types.Var
}

func (p *Program) streamFields() *streamFields {
	n, s := p.streamStruct()
	if n == nil {
		return nil
	}
	f := &streamFields{typ: namedOf(n)}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i).Origin()
		switch {
		case types.Identical(v.Type(), types.Typ[types.Bool]):
			if f.closed == nil || strings.Contains(strings.ToLower(v.Name()), "closed") {
				f.closed = v
			}
		case v.Type().String() == "error":
			f.err = v
		case isChan(v.Type()):
			if st, ok := v.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
				f.recv = v
			}
		case types.Identical(v.Type(), types.Typ[types.String]):
			f.id = v
		case namedOf(v.Type()) == "context.CancelFunc" || namedOf(v.Type()) == "context.CancelCauseFunc":
			f.cancel = v
		case namedOf(v.Type()) == "context.Context":
			f.cx = v
		}
	}
	return f
}

// loadOf: t reads field f (of any object).
func loadOf(t *Term, f *types.Var) bool {
	t = t.strip()
	if t == nil || f == nil {
		return false
	}
	if t.op == "load" || t.op == "sload" {
		return t.args[0].op == "faddr" && t.args[0].obj == any(f)
	}
	return (t.op == "field" || t.op == "peek") && t.obj == any(f)
}

func isAddrOf(t *Term, f *types.Var) bool {
	return f != nil && t != nil && t.op == "faddr" && t.obj == any(f)
}

func isUnlock(ev *Event) bool {
	return ev.Kind == EvCall && (ev.Name == "(*sync.Mutex).Unlock" || ev.Name == "(*sync.RWMutex).Unlock" || ev.Name == "(*sync.RWMutex).RUnlock" || ev.Name == "(sync.Locker).Unlock")
}

func isLock(ev *Event) bool {
	return ev.Kind == EvCall && (ev.Name == "(*sync.Mutex).Lock" || ev.Name == "(*sync.RWMutex).Lock" || ev.Name == "(sync.Locker).Lock")
}

// track keeps, per critical section: "sclosed" (what the closed flag was found to be), and across sections "won"
// (this path made the closed transition) with its cause. It also applies the invariant closed ⇔ err set, which the
// rule close-invariant checks at every store.
func (f *streamFields) track(r *Run, rule string, x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvAssume:
		if loadOf(ev.Cond, f.closed) && len(st.locks) > 0 {
			st.mon["sclosed"] = x.TT.boolC(ev.Truth)
		}
	case EvLoad:
		if isAddrOf(ev.Addr, f.err) && st.has("sclosed") && len(st.locks) > 0 && !st.has("errset") {
			x.assume(st, x.eq(st, ev.Val, x.TT.nilC()), st.mon["sclosed"].isFalse())
		}
		if isAddrOf(ev.Addr, f.err) && st.mon["sclosed"].isTrue() {
			st.mon["lost"] = ev.Val
		}
	case EvStore:
		if isAddrOf(ev.Addr, f.closed) {
			if !ev.Val.isTrue() {
				r.At(ev.Val.isFalse() && ev.Addr.args[0].op == "alloc", rule, ev, st, "the closed flag is set to %v", ev.Val)
				return
			}
			r.At(len(st.locks) > 0 && st.mon["sclosed"].isFalse(), rule, ev, st, "the stream is marked closed without having found it open under its lock")
			st.mon["won"] = x.TT.boolC(true)
			st.mon["closeset"] = x.TT.boolC(true)
		}
		if isAddrOf(ev.Addr, f.err) {
			if ev.Val.isNil() && ev.Addr.args[0].op == "alloc" {
				return
			}
			r.At(len(st.locks) > 0 && st.mon["sclosed"].isFalse(), rule, ev, st, "the close cause is stored although the stream may already be closed")
			r.At(x.isNilT(st, ev.Val) == 0, rule, ev, st, "the close cause stored may be nil: %v", ev.Val)
			st.mon["cause"] = ev.Val
			st.mon["errset"] = x.TT.boolC(true)
		}
	}
	if isUnlock(ev) && (st.has("closeset") || st.has("errset")) {
		r.At(st.has("closeset") && st.has("errset"), rule, ev, st, "the closed flag and the close cause are not set in one critical section")
	}
	if isUnlock(ev) {
		for _, k := range []string{"sclosed", "closeset", "errset"} {
			delete(st.mon, k)
		}
	}
}

// coverStores demands that every store to f outside a constructor lies in a function the runs analysed.
func (r *Run) coverStores(rule string, fields ...*types.Var) {
	for _, fn := range r.P.Funcs {
		for _, s := range storesTo(fn, fields...) {
			if r.funcs[shortName(fn)] {
				r.OK(rule, shortName(fn)+": store")
			} else {
				r.Fail(rule, shortName(fn)+": store", r.P.InstrPos(s), "a shared field of the stream is written in a function the rule does not reach", nil)
			}
		}
	}
}

const adapterType = "internal/stream.StreamAdapter"

// adapterOpaque leaves the adapter's methods uninterpreted.
func adapterOpaque(x *Exec) {
	impl := x.Impl
	x.Impl = func(ev *Event) []types.Type {
		if namedOf(ev.FnType) == adapterType {
			return nil
		}
		return impl(ev)
	}
}

func adapterSend(ev *Event) bool {
	return strings.HasSuffix(ev.Name, "StreamAdapter).Send") && len(ev.Args) == 3
}

// bodyOf: the wire type of the body of a stream message built here ("Ack", "Close", "Message", "Open") and the body.
func (x *Exec) bodyOf(st *State, msg *Term) (string, *Term) {
	b := x.peek(st, msg, "Body")
	if b.op == "iface" && b.obj != nil {
		n := namedOf(derefNamed(b.obj.(types.Type)))
		if strings.HasPrefix(n, "internal.Stream_") {
			return strings.TrimPrefix(n, "internal.Stream_"), b.strip()
		}
	}
	return "", b
}

func isRecvChan(f *streamFields, ch *Term, t *types.Chan) bool {
	if loadOf(ch, f.recv) {
		return true
	}
	ch = ch.strip()
	return ch != nil && (ch.op == "load" || ch.op == "sload") && ch.args[0].op == "faddr" && ch.args[0].obj == any(f.recv)
}

func p11(r *Run) {
	f := r.P.streamFields()
	if f == nil || f.recv == nil {
		r.Fail("anchor", "internal/stream", "-", "the stream's state was not found", nil)
		return
	}
	r.exec("internal/stream.(stream).HandleStream", func(x *Exec, st *State, ev *Event) {
		f.track(r, "state", x, st, ev)
		switch ev.Kind {
		case EvRet:
			if ev.Name == "internal/bus.DeserializePayload" {
				st.mon["val"], st.mon["valerr"] = ev.Results[0], ev.Results[1]
				src := fieldRead(ev.Args[0], "internal.StreamMessage", "RawMessage")
				r.At(src != nil, "ack-decoded", ev, st, "a stream message is decoded from %v", ev.Args[0])
			}
		case EvSelect, EvSend:
			ch, v := ev.Addr, ev.Val
			send := ev.Kind == EvSend
			if ev.Kind == EvSelect && ev.Case >= 0 {
				c := ev.Sel.Cases[ev.Case]
				ch, v, send = c.Chan, c.Send, c.Dir == types.SendOnly
			}
			if send && ch != nil && isRecvChan(f, ch, nil) {
				st.mon["accepted"] = x.TT.boolC(true)
				if st.has("val") {
					r.At(unAssert(v.strip()) == unAssert(st.mon["val"].strip()) || v.contains(st.mon["val"]), "delivered-value", ev, st, "the value delivered is %v, not what the message was decoded to", v)
				}
			}
		case EvLookup:
			if regKind(ev.MapT) == "ack" {
				o := fieldRead(ev.Key, "internal.Stream", "RequestId")
				r.At(o != nil && o.op == "param", "ack-own-id", ev, st, "an acknowledgement is looked up under %v", ev.Key)
				st.mon["acklook"] = ev.Key
			}
		case EvMapDel:
			if regKind(ev.MapT) == "ack" {
				r.At(st.has("acklook") && same(ev.Key, st.mon["acklook"]), "ack-own-id", ev, st, "the acknowledgement entry is not removed in the critical section that looked it up")
				st.mon["acktaken"] = x.TT.boolC(true)
			}
		case EvClose:
			if ev.ChanT != nil && entryOf(ev.Addr) != nil {
				r.At(st.has("acktaken"), "ack-own-id", ev, st, "an acknowledgement is signalled although its entry was not taken out of the table first")
				l := entryOf(ev.Addr)
				o := fieldRead(l.args[1], "internal.Stream", "RequestId")
				r.At(o != nil && o.op == "param", "ack-own-id", ev, st, "an acknowledgement signals the entry of %v", l.args[1])
				r.At(st.mon["ackbody"].isTrue(), "ack-own-id", ev, st, "a message that is not an acknowledgement signals one")
			}
		case EvAssume:
			if ev.Cond.op == "istype" && ev.Truth {
				if t, ok := ev.Cond.obj.(types.Type); ok {
					st.mon["ackbody"] = x.TT.boolC(strings.HasSuffix(namedOf(derefNamed(t)), "Stream_Ack"))
				}
			}
		case EvCall:
			if isUnlock(ev) {
				delete(st.mon, "acklook")
			}
			if adapterSend(ev) {
				k, _ := x.bodyOf(st, ev.Args[2])
				if k != "Ack" || st.mon["#go"] != nil {
					return
				}
				r.At(st.has("accepted"), "ack-after-accept", ev, st, "a message is acknowledged although it may not have been accepted into the receive channel")
				ok := st.has("valerr") && x.isNilT(st, st.mon["valerr"]) == 1
				r.At(ok, "ack-decoded", ev, st, "a message is acknowledged although it may not have been decoded")
				for _, n := range []string{"StreamId", "RequestId"} {
					o := fieldRead(x.peek(st, ev.Args[2], n), "internal.Stream", n)
					r.At(o != nil && o.op == "param", "ack-ids", ev, st, "the acknowledgement's %s is %v, not the message's", n, x.peek(st, ev.Args[2], n))
				}
				r.At(!st.has("acked"), "ack-once", ev, st, "a message is acknowledged twice")
				st.mon["acked"] = x.TT.boolC(true)
			}
		}
	}, adapterOpaque)
	for _, n := range []string{"ack-after-accept", "ack-decoded", "ack-ids", "ack-own-id", "delivered-value"} {
		r.Min(n, 1)
	}
	// the acknowledgement helper carries the ids of the message it is given
	r.exec("internal/stream.(stream).Ack", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && adapterSend(ev) {
			k, _ := x.bodyOf(st, ev.Args[2])
			r.At(k == "Ack", "ack-ids", ev, st, "an acknowledgement is sent with body %s", k)
			for _, n := range []string{"StreamId", "RequestId"} {
				o := fieldRead(x.peek(st, ev.Args[2], n), "internal.Stream", n)
				r.At(o != nil && o.op == "param", "ack-ids", ev, st, "the acknowledgement's %s is %v, not the message's", n, x.peek(st, ev.Args[2], n))
			}
		}
	}, adapterOpaque)
	// delivery into the receive channel: accepted and nil, or dropped and an error
	r.exec("internal/stream.(streamBase).Recv", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvSelect && ev.Case >= 0 && ev.Sel.Cases[ev.Case].Dir == types.SendOnly || ev.Kind == EvSend {
			st.mon["accepted"] = x.TT.boolC(true)
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			if st.has("accepted") {
				r.OK("accepted-or-error", evConstruct(ev))
			} else {
				r.At(x.isNilT(st, ev.Results[0]) == 0, "accepted-or-error", ev, st, "a message dropped for a slow consumer is reported as accepted")
			}
		}
	}, nil)
	p11Send(r, f)
}

func p11Send(r *Run, f *streamFields) {
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		f.track(r, "state", x, st, ev)
		trackRegs(x, st, ev)
		switch ev.Kind {
		case EvRet:
			if ev.Name == "internal/bus.SerializePayload" {
				st.mon["raw"] = ev.Results[0]
				r.At(ev.Args[0].strip().op == "param", "sent-value", ev, st, "what is encoded is %v, not the message to send", ev.Args[0])
			}
			if adapterSend(ev) {
				st.mon["senderr"] = ev.Results[0]
			}
		case EvCall:
			if adapterSend(ev) {
				k, b := x.bodyOf(st, ev.Args[2])
				if k == "Message" {
					st.mon["sent"] = x.TT.boolC(true)
					raw := x.peek(st, x.peek(st, b, "Message"), "RawMessage")
					r.At(st.has("raw") && raw == st.mon["raw"], "sent-value", ev, st, "the message sent carries %v, not the encoded message", raw)
					r.At(loadOf(x.peek(st, ev.Args[2], "StreamId"), f.id), "sent-value", ev, st, "the message is sent with stream id %v", x.peek(st, ev.Args[2], "StreamId"))
				}
			}
		case EvSelect, EvRecv:
			if ev.Kind == EvSelect && ev.Case < 0 {
				if len(ev.Sel.Cases) == 1 && doneOf(ev.Sel.Cases[0].Chan) != nil && loadOf(doneOf(ev.Sel.Cases[0].Chan), f.cx) {
					st.mon["streamdone"] = x.TT.boolC(false)
				}
				return
			}
			ctx := doneOf(ev.Addr)
			switch {
			case ctx == nil && st.has("regv:ack") && x.entryHas(st, st.mon["regv:ack"], ev.Addr):
				st.mon["gotack"] = x.TT.boolC(true)
			case ctx != nil && loadOf(ctx, f.cx):
				st.mon["streamdone"] = x.TT.boolC(true)
			case ctx != nil:
				st.mon["timed"] = x.TT.boolC(true)
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth {
				return
			}
			err := ev.Results[0]
			if x.isNilT(st, err) != 0 {
				r.At(st.has("gotack"), "send-success", ev, st, "a send may report success without having received its acknowledgement: %v", err)
				if e := st.mon["senderr"]; e != nil {
					r.At(x.isNilT(st, e) == 1 || err == e, "send-success", ev, st, "a send may report success although the message could not be sent")
				}
			}
			if st.mon["streamdone"].isFalse() && !st.has("gotack") {
				r.At(globalNamed(err, "ErrRequestTimedOut"), "send-error", ev, st, "a send that timed out on an open stream returns %v", err)
			}
			if st.mon["streamdone"].isTrue() && !st.has("gotack") {
				r.At(loadOf(err, f.err) || globalNamed(err, "ErrRequestCanceled"), "send-error", ev, st, "a send on a stream that ended returns %v instead of the close cause or the canceled error", err)
			}
		}
	}, adapterOpaque)
	for _, n := range []string{"send-success", "sent-value"} {
		r.Min(n, 1)
	}
}

// ---------------------------------------------------------------------------------------------

func p12(r *Run) {
	f := r.P.streamFields()
	if f == nil || f.recv == nil || f.closed == nil || f.err == nil {
		r.Fail("anchor", "internal/stream", "-", "the stream's state was not found", nil)
		return
	}
	for _, root := range []string{"internal/stream.(streamBase).Close", "internal/stream.(stream).HandleStream", "internal/stream.(streamBase).Send", "internal/stream.(streamBase).Recv", "internal/stream.NewStream"} {
		local := strings.HasSuffix(root, ".Close")
		handle := strings.HasSuffix(root, ".HandleStream")
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			f.track(r, "close-invariant", x, st, ev)
			isWG := func(m string) bool { return ev.Kind == EvCall && ev.Name == "(*sync.WaitGroup)."+m }
			if isWG("Add") {
				st.mon["counted"] = x.TT.boolC(len(st.locks) > 0 && st.mon["sclosed"].isFalse())
				delete(st.mon, "countedgo")
				if g := st.mon["#go"]; g != nil {
					st.mon["countedgo"] = g
				}
				r.At(len(st.locks) > 0 && st.mon["sclosed"].isFalse(), "counted-while-open", ev, st, "a delivery or send is counted without having found the stream open under its lock: a close may already be past waiting for it")
			}
			if isWG("Done") {
				delete(st.mon, "counted")
				if st.mon["owego"] == st.mon["#go"] {
					delete(st.mon, "owego")
				}
			}
			if ev.Kind == EvReturn && ev.Name == "go" && st.has("owego") {
				r.At(false, "write-counted", ev, st, "a message is written to the receive channel by a goroutine the delivery does not wait for: the stream may be closed meanwhile")
				delete(st.mon, "owego")
			}
			if isWG("Wait") && st.has("won") {
				st.mon["waited"] = x.TT.boolC(true)
			}
			if isWG("Wait") {
				r.At(len(st.locks) == 0, "wait-unlocked", ev, st, "the close waits for deliveries in progress while holding a lock they need")
			}
			switch ev.Kind {
			case EvClose:
				if ev.ChanT == nil || !isRecvChan(f, ev.Addr, ev.ChanT) {
					return
				}
				r.At(st.has("won"), "closed-once", ev, st, "the receive channel is closed on a path that did not make the closed transition")
				r.At(!st.has("rclosed"), "closed-once", ev, st, "the receive channel may be closed twice")
				st.mon["rclosed"] = x.TT.boolC(true)
				if local {
					r.At(st.has("waited"), "waits-for-deliveries", ev, st, "a local close closes the receive channel without waiting for deliveries in progress")
				}
				if handle && st.mon["#go"] != nil {
					r.At(st.has("waited"), "waits-for-deliveries", ev, st, "the receive channel is closed in another goroutine than the one that delivers")
				}
			case EvBlock:
				for _, c := range ev.Sel.Cases {
					if c.Dir == types.SendOnly && isRecvChan(f, c.Chan, c.T) {
						p12Write(r, x, st, ev, handle)
					}
				}
			case EvSend:
				if isRecvChan(f, ev.Addr, ev.ChanT) {
					p12Write(r, x, st, ev, handle)
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth && st.has("won") {
					r.At(st.has("rclosed"), "closed-once", ev, st, "the stream closes but its receive channel stays open")
				}
			}
		}, adapterOpaque)
	}
	r.coverStores("close-invariant", f.closed, f.err)
	for rule, n := range map[string]int{"close-invariant": 2, "counted-while-open": 1, "closed-once": 2, "write-counted": 1, "waits-for-deliveries": 1} {
		r.Min(rule, n)
	}
	// nothing else closes or writes a stream's receive channel
	for _, fn := range r.P.Funcs {
		for _, in := range chanUses(fn, f.recv) {
			if !r.funcs[shortName(fn)] {
				r.Fail("closed-once", shortName(fn)+": use", r.P.InstrPos(in), "the receive channel is written or closed in a function the rule does not reach", nil)
			}
		}
	}
}

func p12Write(r *Run, x *Exec, st *State, ev *Event, handle bool) {
	r.At(!st.has("rclosed"), "write-counted", ev, st, "a message is written to the receive channel after it was closed")
	if handle {
		if st.mon["#go"] != nil && st.mon["#go"] != st.mon["countedgo"] {
			st.mon["owego"] = st.mon["#go"]
		}
		r.At(st.mon["counted"].isTrue(), "write-counted", ev, st, "a message is written to the receive channel by a delivery that is not counted: a local close may close the channel under it")
	}
}

// ---------------------------------------------------------------------------------------------

func p13(r *Run) {
	p43Predefined(r, "ErrStreamClosed", "ErrStreamEOF")
	f := r.P.streamFields()
	if f == nil || f.closed == nil || f.err == nil {
		r.Fail("anchor", "internal/stream", "-", "the stream's state was not found", nil)
		return
	}
	r.exec("internal/stream.(streamBase).Close", func(x *Exec, st *State, ev *Event) {
		f.track(r, "cause-final", x, st, ev)
		if st.mon["sclosed"].isTrue() {
			st.mon["foundclosed"] = st.mon["sclosed"]
		}
		if ev.Kind == EvCall && ev.FnTerm != nil && loadOf(ev.FnTerm, f.cancel) {
			st.mon["cancelled"] = x.TT.boolC(true)
			r.At(st.has("won") || st.has("foundclosed"), "cause-first", ev, st, "the stream's context is cancelled before its cause is stored: operations waiting on it find no cause to report")
		}
		if ev.Kind == EvStore && isAddrOf(ev.Addr, f.err) && st.mon["sclosed"].isFalse() {
			c := ev.Val.strip()
			ok := c.op == "param" || globalNamed(c, "ErrStreamClosed")
			r.At(ok || c.op == "phi", "cause-stored", ev, st, "the cause stored is %v, not the one the stream was closed with", c)
			if globalNamed(c, "ErrStreamClosed") {
				nilKnown := false
				for fct, v := range st.facts {
					if v && fct.op == "eq" && fct.args[1].isNil() && fct.args[0].strip().op == "param" {
						nilKnown = true
					}
				}
				r.At(nilKnown, "cause-stored", ev, st, "the given cause may be replaced by the stream-closed error")
			}
		}
		if ev.Kind == EvCall && adapterSend(ev) {
			k, b := x.bodyOf(st, ev.Args[2])
			r.At(k == "Close", "cause-sent", ev, st, "closing sends a %s message", k)
			if k != "Close" {
				return
			}
			r.At(st.has("won"), "cause-sent", ev, st, "a close is sent by a path that did not close the stream")
			r.At(!st.has("sentclose"), "close-sent-once", ev, st, "the peer is told twice that the stream closed")
			st.mon["sentclose"] = x.TT.boolC(true)
			r.At(loadOf(x.peek(st, ev.Args[2], "StreamId"), f.id), "cause-sent", ev, st, "the close is sent for stream %v", x.peek(st, ev.Args[2], "StreamId"))
			m := x.peek(st, b, "Close")
			cause := st.mon["cause"]
			if cause == nil {
				return
			}
			why := x.errCarried(st, cause, x.peek(st, m, "Error"), x.peek(st, m, "Code"), x.TT.nilC(), false)
			r.At(why == "", "cause-sent", ev, st, "the peer does not learn the cause: %s", why)
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			if st.has("won") {
				r.At(st.has("sentclose"), "cause-sent", ev, st, "a local close does not tell the peer")
				r.At(st.has("cancelled"), "cancelled", ev, st, "a closed stream's context is not cancelled")
			} else {
				r.At(loadOf(ev.Results[0], f.err), "later-error", ev, st, "closing a closed stream returns %v, not the first cause", ev.Results[0])
			}
		}
	}, func(x *Exec) { adapterOpaque(x); x.Precise = true })
	r.exec("internal/stream.(stream).HandleStream", func(x *Exec, st *State, ev *Event) {
		f.track(r, "cause-final", x, st, ev)
		if st.mon["sclosed"].isTrue() {
			st.mon["foundclosed"] = st.mon["sclosed"]
		}
		if st.mon["#go"] != nil {
			if ev.Kind == EvCall && ev.Name == "(psrpc.StreamHandler).Close" {
				st.mon["errclose"] = x.TT.boolC(true)
				r.At(x.isNilT(st, ev.Args[1]) == 0, "decode-close", ev, st, "a stream that received an undecodable message is closed without a cause")
			}
			return
		}
		if ev.Kind == EvCall && ev.FnTerm != nil && loadOf(ev.FnTerm, f.cancel) {
			st.mon["cancelled"] = x.TT.boolC(true)
			r.At(st.has("won") || st.has("foundclosed"), "cause-first", ev, st, "the stream's context is cancelled before its cause is stored: operations waiting on it find no cause to report")
		}
		if ev.Kind == EvStore && isAddrOf(ev.Addr, f.err) && st.mon["sclosed"].isFalse() {
			c := callOf(ev.Val, "psrpc.NewErrorFromResponse")
			ok := c != nil && fieldRead(c.args[0], "internal.StreamClose", "Code") != nil && fieldRead(c.args[1], "internal.StreamClose", "Error") != nil
			r.At(ok, "cause-received", ev, st, "the cause stored is %v, not the code and message the peer sent", ev.Val)
		}
		if ev.Kind == EvCall && adapterSend(ev) {
			r.At(!st.has("won"), "no-answer", ev, st, "the peer's close is answered with another message")
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && st.has("won") {
			r.At(st.has("cancelled"), "cancelled", ev, st, "a closed stream's context is not cancelled")
			r.At(true, "no-answer", ev, st, "")
		}
	}, adapterOpaque)
	// Send on a closed stream, and Err
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		f.track(r, "cause-final", x, st, ev)
		if ev.Kind == EvAssume && loadOf(ev.Cond, f.closed) && !st.has("first") {
			st.mon["first"] = x.TT.boolC(ev.Truth)
		}
		if ev.Kind == EvCall && adapterSend(ev) {
			r.At(st.mon["first"].isFalse(), "later-error", ev, st, "a message is sent on a stream that may be closed")
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && st.mon["first"].isTrue() {
			r.At(loadOf(ev.Results[0], f.err), "later-error", ev, st, "a send on a closed stream returns %v, not the close cause", ev.Results[0])
		}
	}, adapterOpaque)
	r.exec("internal/stream.(streamBase).Err", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			r.At(loadOf(ev.Results[0], f.err), "later-error", ev, st, "the error accessor returns %v, not the close cause", ev.Results[0])
		}
	}, nil)
	// the server closes a stream with its handler's error
	r.exec("pkg/server.RegisterStreamHandler", func(x *Exec, st *State, ev *Event) {
		if st.mon["#go"] == nil {
			return
		}
		switch {
		case ev.Kind == EvRet && isUserHandler(ev):
			st.mon["herr"], st.mon["hgo"] = ev.Results[0], st.mon["#go"]
		case ev.Kind == EvRet && strings.HasSuffix(ev.Name, ").Hijacked"):
			st.mon["hij"] = ev.Results[0]
		case ev.Kind == EvAssume && st.has("hij") && ev.Cond == st.mon["hij"]:
			st.mon["hijacked"] = x.TT.boolC(ev.Truth)
		case (ev.Kind == EvCall || ev.Kind == EvEnter) && st.has("herr") && st.mon["hgo"] == st.mon["#go"] && strings.HasSuffix(ev.Name, ").Close") && strings.Contains(ev.Name, "tream") && len(ev.Args) == 2 && isErrIface(ifaceTypeOr(ev.Args[1])):
			if st.has("hclosed") {
				return
			}
			st.mon["hclosed"] = x.TT.boolC(true)
			r.At(ev.Args[1] == st.mon["herr"], "handler-cause", ev, st, "after its handler returned the stream is closed with %v, not with the handler's error", ev.Args[1])
			r.At(st.mon["hijacked"].isFalse(), "handler-cause", ev, st, "a hijacked stream is closed when its handler returns")
		case ev.Kind == EvReturn && ev.Name == "go" && !ev.Truth && st.has("herr"):
			if st.mon["hgo"] == st.mon["#go"] {
				r.At(st.has("hclosed") || st.mon["hijacked"].isTrue(), "handler-cause", ev, st, "a stream that was not hijacked stays open after its handler returned")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || strings.HasSuffix(shortName(f), ").Hijacked")
		}
	})
	r.coverStores("cause-final", f.closed, f.err)
	for rule, n := range map[string]int{"cause-final": 2, "cause-sent": 1, "cause-received": 1, "cancelled": 2, "later-error": 3, "handler-cause": 1, "no-answer": 1} {
		r.Min(rule, n)
	}
}

func ifaceTypeOr(t *Term) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if t.typ != nil {
		return t.typ
	}
	return types.Universe.Lookup("error").Type()
}
