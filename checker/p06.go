package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P06", "dominance on abstract paths: every handling step of a received request or stream message is preceded by the test that now is before that message's expiry; the handler's context derives from a deadline at that expiry; every published expiry is now+timeout, clamped to the caller's deadline", p06)
	register("P07", "blocking analysis: every blocking operation on the caller's goroutine has an alternative on a context that derives from the caller's with the call's timeout; what is returned after that alternative is a non-nil error, classified by cancellation or deadline; closed clients are refused before any effect", p07)
}

// ctxChain lists a context and the contexts it derives from.
func ctxChain(t *Term) []*Term {
	var out []*Term
	for t != nil {
		t = t.strip()
		out = append(out, t)
		switch {
		case t.op == "extract" && t.args[0].op == "ctxnew":
			t = t.args[0].args[0]
		case t.op == "ctxnew":
			t = t.args[0]
		case t.op == "pcall" && strings.HasPrefix(t.aux, "pkg/metadata.") && len(t.args) > 0:
			t = t.args[0]
		case t.op == "field" || t.op == "peek":
			return out
		default:
			return out
		}
	}
	return out
}

// ctxLive lists a context and the contexts that end it: not those beyond context.WithoutCancel.
func ctxLive(t *Term) []*Term {
	c := ctxChain(t)
	for i, k := range c {
		if k.op == "ctxnew" && k.aux == "context.WithoutCancel" {
			return c[:i+1]
		}
	}
	return c
}

// ctxLiveRoot: the outermost context whose end ends t.
func ctxLiveRoot(t *Term) *Term {
	c := ctxLive(t)
	if len(c) == 0 {
		return nil
	}
	return c[len(c)-1]
}

// ctxTimed: the context ends by a timeout or deadline set on the way; returns the ctxnew terms.
func ctxTimed(t *Term) []*Term {
	var out []*Term
	for _, c := range ctxLive(t) {
		if c.op == "extract" {
			c = c.args[0]
		}
		if c.op == "ctxnew" && (c.aux == "context.WithTimeout" || c.aux == "context.WithDeadline" || c.aux == "context.WithTimeoutCause" || c.aux == "context.WithDeadlineCause") {
			out = append(out, c)
		}
	}
	return out
}

func ctxRoot(t *Term) *Term {
	c := ctxChain(t)
	if len(c) == 0 {
		return nil
	}
	return c[len(c)-1]
}

func isCtxType(t *Term) bool { return t != nil && t.typ != nil && namedOf(t.typ) == "context.Context" }

func hasNow(t *Term) bool {
	return t.any(func(u *Term) bool {
		return strings.HasPrefix(u.aux, "time.Now") && (u.op == "call" || u.op == "pcall")
	})
}

// isNow: t is the current time in nanoseconds (what expiries are measured in).
func isNow(t *Term) bool {
	if t.op == "nano" {
		t = t.args[0]
	} else if namedOf(t.typ) != "time.Time" {
		return false
	}
	for c := callOf(t, "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round"); c != nil; c = callOf(t, "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round") {
		t = c.args[0]
	}
	return callOf(t, "time.Now") != nil
}

// expiryOf: t is the expiry of an incoming message.
func expiryOf(t *Term) *Term {
	for _, n := range []string{"internal.Request", "internal.Stream"} {
		if o := fieldRead(t, n, "Expiry"); o != nil {
			return o
		}
	}
	return nil
}

// trackLive notes that a path has established now < m.Expiry.
func trackLive(x *Exec, st *State, ev *Event) {
	if ev.Kind != EvAssume || ev.Cond.op != "lt" {
		return
	}
	l, r := ev.Cond.args[0], ev.Cond.args[1]
	if ev.Truth && isNow(l) {
		if o := expiryOf(unNano(r)); o != nil {
			st.mon["live"] = o
		}
	}
	if !ev.Truth && isNow(r) {
		if o := expiryOf(unNano(l)); o != nil {
			st.mon["live"] = o
		}
	}
}

func unNano(t *Term) *Term {
	if t.op == "nano" {
		t = t.args[0]
	}
	if t.op == "pcall" && t.aux == "time.Unix" && len(t.args) == 2 {
		t = t.args[1]
	}
	return t
}

// handledMessage: the event is a handling step of an incoming message; returns that message and what the step is.
func handledMessage(x *Exec, st *State, ev *Event) (*Term, string) {
	streamIn := func(t *Term) *Term {
		var out *Term
		t.any(func(u *Term) bool {
			if (u.op == "recv" || u.op == "param") && isMsg(u, "Stream") {
				out = u
				return true
			}
			return false
		})
		return out
	}
	switch ev.Kind {
	case EvCall:
		if ev.Name == "internal/bus.DeserializePayload" {
			if o := fieldRead(ev.Args[0], "internal.Request", "RawRequest"); o != nil {
				return o, "decoding its payload"
			}
			if fieldRead(ev.Args[0], "internal.StreamMessage", "RawMessage") != nil {
				return streamIn(ev.Args[0]), "decoding its payload"
			}
		}
		if isUserHandler(ev) {
			return x.inRequest(st, ev), "invoking the handler"
		}
		if ev.Name == "psrpc.NewErrorFromResponse" {
			if fieldRead(ev.Args[0], "internal.StreamClose", "Code") != nil {
				return streamIn(ev.Args[0]), "closing the stream"
			}
		}
		if p := publishOf(ev); p != nil && (p.kind == "ClaimRequest" || p.kind == "Response") {
			return idOf(x.peek(st, p.msg, "RequestId")), "answering it"
		}
	case EvMapDel, EvLookup:
		if o := fieldRead(ev.Key, "internal.Stream", "RequestId"); o != nil && ev.MapT != nil && chanElemOf(ev.MapT.Elem()) == "" && isChan(ev.MapT.Elem()) {
			return o, "taking it as an acknowledgement"
		}
	}
	return nil, ""
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

func p06(r *Run) {
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler", "pkg/client.OpenStream"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			trackLive(x, st, ev)
			if m, what := handledMessage(x, st, ev); m != nil {
				r.At(st.mon["live"] == m, "live-before-handling", ev, st, "a message is handled (%s) without its expiry being known to be in the future", what)
			}
			if ev.Kind == EvCall && root == "pkg/server.RegisterHandler" && (isUserHandler(ev) || dynNamed(ev, "psrpc.ServerRPCInterceptor")) && len(ev.Args) > 1 {
				timed := false
				for _, c := range ctxTimed(ev.Args[0]) {
					d := c.args[1].strip()
					switch {
					case strings.HasPrefix(c.aux, "context.WithDeadline"):
						timed = timed || expiryOf(x.nano(d)) != nil
					case d.op == "binop" && d.aux == "-":
						timed = timed || expiryOf(d.args[0]) != nil && isNow(d.args[1])
					}
				}
				root := ctxLiveRoot(ev.Args[0])
				if root.op == "param" || root.op == "havoc" || root.op == "call" && !strings.HasPrefix(root.aux, "context.") {
					return // the context an interceptor handed on
				}
				r.At(timed, "handler-deadline", ev, st, "the handler's context does not carry the request's expiry as its deadline: %v", ev.Args[0])
			}
		}, nil)
	}
	r.Min("live-before-handling", 5)
	r.Min("handler-deadline", 1)
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) { p06Expiry(r, x, st, ev) }, nil)
	}
	r.Min("expiry", 3)
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		if m := streamSent(x, st, ev); m != nil {
			e := unNano(x.peek(st, m, "Expiry"))
			r.At(callOf(e, "(time.Time).Add") != nil && hasNow(e) || e.any(func(u *Term) bool { return callOf(u, "(context.Context).Deadline") != nil }), "stream-expiry", ev, st, "a stream message's expiry is not its timeout from now: %v", e)
			if a := callOf(e, "(time.Time).Add"); a != nil {
				st.mon["sentfor"] = a.args[1].strip()
			}
		}
		if d := st.mon["sentfor"]; d != nil && ev.Kind == EvBlock && ev.Sel.Blocking {
			for _, c := range ev.Sel.Cases {
				if c.Dir != types.RecvOnly || doneOf(c.Chan) == nil {
					continue
				}
				for _, k := range ctxTimed(doneOf(c.Chan)) {
					w := k.args[1].strip()
					if a := callOf(unNano(w), "(time.Time).Add"); a != nil {
						w = a.args[1].strip()
					}
					if readsFieldNamed(w, "Timeout") != nil && readsFieldNamed(d, "Timeout") != nil {
						r.At(same(w, d), "stream-expiry", ev, st, "a stream message expires after %v, its send ends after %v", d, w)
					}
				}
			}
		}
	}, nil)
	r.Min("stream-expiry", 1)
}

// streamSent: the event hands a stream message to the stream's adapter (or the bus); returns the message.
func streamSent(x *Exec, st *State, ev *Event) *Term {
	if ev.Kind == EvCall || ev.Kind == EvEnter {
		for _, a := range ev.Args {
			if isMsg(a.strip(), "Stream") && a.strip().op == "alloc" {
				return a.strip()
			}
		}
	}
	return nil
}

func p06Expiry(r *Run, x *Exec, st *State, ev *Event) {
	const rule = "expiry"
	if ev.Kind == EvAssume {
		c := ev.Cond
		if d := callOf(c, "(context.Context).Deadline"); d != nil && extractIdx(c) == "1" && !ev.Truth {
			st.mon["nodl"] = ctxRoot(d.args[0])
		}
		if c.op == "lt" {
			dl := func(t *Term) *Term {
				if d := callOf(unNano(t), "(context.Context).Deadline"); d != nil {
					return d
				}
				return nil
			}
			isExp := func(t *Term) bool { return callOf(unNano(t), "(time.Time).Add") != nil }
			switch {
			case dl(c.args[0]) != nil && isExp(c.args[1]):
				if ev.Truth {
					st.mon["dlfirst"] = unNano(c.args[1])
				} else {
					st.mon["expfirst"] = unNano(c.args[1])
				}
			case isExp(c.args[0]) && dl(c.args[1]) != nil:
				if ev.Truth {
					st.mon["expfirst"] = unNano(c.args[0])
				} else {
					st.mon["dlfirst"] = unNano(c.args[0])
				}
			}
		}
	}
	p := publishOf(ev)
	if p == nil || ev.Kind != EvCall || p.kind != "Request" && p.kind != "Stream" {
		return
	}
	if p.kind == "Stream" && !isOpen(x, st, p.msg) {
		return
	}
	e := unNano(x.peek(st, p.msg, "Expiry"))
	if d := callOf(e, "(context.Context).Deadline"); d != nil {
		if len(ctxTimed(d.args[0])) > 0 {
			r.At(true, rule, ev, st, "")
			return
		}
		r.At(st.has("dlfirst"), rule, ev, st, "the expiry is the caller's deadline without being known to be earlier than the request's timeout")
		return
	}
	a := callOf(e, "(time.Time).Add")
	if !r.At(a != nil && hasNow(a.args[0]), rule, ev, st, "the published expiry is neither now plus the timeout nor the caller's deadline: %v", e) {
		return
	}
	r.At(isTimeout(a.args[1]), rule, ev, st, "the published expiry is not the request's timeout from now: now + %v", a.args[1])
	root := ctxRoot(p.ctx)
	ok := st.mon["expfirst"] == e || st.mon["nodl"] == root
	r.At(ok, rule, ev, st, "the published expiry may be later than the caller's deadline")
}

func isOpen(x *Exec, st *State, msg *Term) bool {
	b := x.peek(st, msg, "Body")
	return b.any(func(t *Term) bool { return t.typ != nil && namedOf(derefNamed(t.typ)) == "internal.Stream_Open" }) || b.op == "iface" && b.obj != nil && strings.Contains(types.TypeString(b.obj.(types.Type), nil), "Stream_Open")
}

// isTimeout: a request's timeout as the options computed it.
func isTimeout(t *Term) bool {
	t = t.strip()
	if readsFieldNamed(t, "Timeout") != nil {
		return true
	}
	switch t.op {
	case "binop":
		return t.aux == "-" && t.any(func(u *Term) bool { return callOf(u, "(context.Context).Deadline") != nil })
	case "const":
		return t.aux == "3000000000"
	case "loopcell", "havoc", "phi", "stale", "param", "load":
		return true
	}
	return false
}

// isBound: the timed context k ends once the call's timeout has passed.
func isBound(x *Exec, k *Term) bool {
	d := k.args[1].strip()
	if strings.HasPrefix(k.aux, "context.WithTimeout") {
		return isTimeout(d)
	}
	if a := callOf(d, "(time.Time).Add"); a != nil {
		return isTimeout(a.args[1]) && isNow(x.nano(a.args[0]))
	}
	return d.op == "phi" || callOf(d, "(context.Context).Deadline") != nil || isTimeout(d)
}

// ---------------------------------------------------------------------------------------------

func p07(r *Run) {
	p43Predefined(r, "ErrRequestTimedOut", "ErrRequestCanceled", "ErrClientClosed")
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.OpenStream", "internal/stream.(streamBase).Send"} {
		p07Root(r, root)
	}
	r.Min("bounded-wait", 4)
	r.Min("timeout-outcome", 3)
	p07Multi(r)
	p07Closed(r)
}

func globalNamed(t *Term, name string) bool {
	return t.any(func(u *Term) bool {
		return u.op == "global" && u.obj != nil && u.obj.(*ssa.Global).Name() == name
	})
}

func p07Root(r *Run, root string) {
	stream := strings.Contains(root, "stream.(")
	// timedDone: a case that ends with the caller's context and the call's timeout
	timedDone := func(x *Exec, s *SelInfo) bool {
		for _, c := range s.Cases {
			ctx := doneOf(c.Chan)
			if c.Dir != types.RecvOnly || ctx == nil {
				continue
			}
			rt := ctxLiveRoot(ctx)
			timed := false
			for _, k := range ctxTimed(ctx) {
				timed = timed || isBound(x, k)
			}
			if timed && (rt.op == "param" && isCtxType(rt) || stream && readsFieldNamed(rt, "ctx") != nil) {
				return true
			}
		}
		return false
	}
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if st.mon["#go"] != nil {
			return
		}
		switch ev.Kind {
		case EvBlock:
			if ev.Sel.Blocking {
				r.At(timedDone(x, ev.Sel), "bounded-wait", ev, st, "the call waits without an alternative on its own timed context")
			}
		case EvRecv, EvSend:
			r.At(false, "bounded-wait", ev, st, "the call waits on a channel without an alternative on its own timed context")
		case EvSelect:
			if ev.Case >= 0 && doneOf(ev.Addr) != nil {
				st.mon["done"] = doneOf(ev.Addr)
			} else if ev.Sel.Blocking {
				delete(st.mon, "done")
			}
			if ev.Sel.Blocking {
				delete(st.mon, "canceled")
				delete(st.mon, "deadline")
			}
		case EvAssume:
			c := ev.Cond
			which := ""
			if globalNamed(c, "Canceled") {
				which = "canceled"
			} else if globalNamed(c, "DeadlineExceeded") {
				which = "deadline"
			}
			if which != "" && st.has("done") {
				st.mon[which] = x.TT.boolC(ev.Truth)
				var errOf *Term
				c.any(func(u *Term) bool {
					if u.aux == "(context.Context).Err" {
						errOf = u
						return true
					}
					return false
				})
				if errOf != nil && which == "canceled" {
					derived := false
					for _, k := range ctxChain(errOf.args[0]) {
						if k.op == "extract" {
							k = k.args[0]
						}
						if k.op == "ctxnew" && strings.HasPrefix(k.aux, "context.WithCancel") {
							derived = true
						}
					}
					r.At(!derived, "cancel-source", ev, st, "cancellation is read from a context the call itself cancels, not from the caller's")
				}
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth || !st.has("done") || len(ev.Results) == 0 {
				return
			}
			err := ev.Results[len(ev.Results)-1]
			r.At(x.isNilT(st, err) == 0, "timeout-outcome", ev, st, "the call may report success after its context ended: error %v", err)
			switch {
			case stream:
				ok := globalNamed(err, "ErrRequestTimedOut") || globalNamed(err, "ErrRequestCanceled") || readsFieldNamed(err, "err") != nil
				r.At(ok, "timeout-class", ev, st, "after its context ended the send returns %v", err)
			case st.mon["canceled"].isTrue():
				r.At(globalNamed(err, "ErrRequestCanceled"), "timeout-class", ev, st, "a canceled call returns %v instead of the canceled request error", err)
			case st.mon["deadline"].isTrue():
				r.At(globalNamed(err, "ErrRequestTimedOut"), "timeout-class", ev, st, "a timed out call returns %v instead of the timed out request error", err)
			default:
				r.At(st.has("canceled"), "timeout-class", ev, st, "a call whose context ended returns without finding out whether the caller canceled it: %v", err)
				raw := err.any(func(u *Term) bool { return u.aux == "(context.Context).Err" })
				if raw {
					r.At(st.has("deadline"), "timeout-class", ev, st, "a call whose deadline passed may return the context's own error instead of the timed out request error")
				}
			}
		}
	}, nil)
}

func p07Multi(r *Run) {
	r.exec("pkg/client.RequestMulti", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Addr.op == "faddr" && doneOf(ev.Val) != nil {
			st.mon["done:"+ev.Addr.aux] = ev.Val
		}
		if st.mon["#go"] == nil {
			return
		}
		switch ev.Kind {
		case EvBlock:
			if ev.Sel.Blocking && selectsMsg(ev.Sel, "Response") {
				done, timer := false, false
				for _, c := range ev.Sel.Cases {
					if ctx := doneOf(c.Chan); ctx != nil {
						rt := ctxLiveRoot(ctx)
						if rt.op == "param" && isCtxType(rt) {
							done = true
						}
						for _, k := range ctxTimed(ctx) {
							timer = timer || isBound(x, k)
						}
					}
					if c.Chan.any(func(u *Term) bool {
						return (u.aux == "time.NewTimer" || u.aux == "time.After") && isTimeout(u.args[0])
					}) {
						timer = true
					}
				}
				r.At(done, "multi-bounded", ev, st, "the multi request's collector does not end with the caller's context")
				r.At(timer, "multi-bounded", ev, st, "the multi request's collector does not end at its timeout")
				st.mon["collector"] = x.TT.boolC(true)
			} else if ev.Sel.Blocking && st.has("collector") {
				ends := false
				for _, c := range ev.Sel.Cases {
					if c.Dir != types.RecvOnly {
						continue
					}
					chans := []*Term{c.Chan}
					if f := fieldOfLoad(c.Chan.strip()); f != nil && st.has("done:"+f.Name()) {
						chans = append(chans, st.mon["done:"+f.Name()])
					}
					for _, ch := range chans {
						ctx := doneOf(ch)
						if ctx == nil {
							continue
						}
						for _, k := range ctxTimed(ctx) {
							ends = ends || isBound(x, k)
						}
					}
				}
				r.At(ends, "multi-bounded", ev, st, "the multi request's collector waits without an alternative that ends at the request's timeout")
			}
		case EvSend, EvRecv:
			r.At(!st.has("collector"), "multi-bounded", ev, st, "the multi request's collector waits on %v without an alternative", ev.Addr)
		case EvCall:
			if st.has("collector") && ev.Name == "(*time.Timer).Reset" {
				r.At(false, "multi-bounded", ev, st, "the multi request's timeout starts over")
			}
		case EvClose:
			if chanElemIs(ev.ChanT, "psrpc.Response") {
				st.mon["closedres"] = x.TT.boolC(true)
			}
		case EvReturn:
			if ev.Name == "go" && st.has("collector") {
				r.At(st.has("closedres"), "multi-closed", ev, st, "the multi request's collector ends without closing the response channel")
			}
		}
	}, nil)
	r.Min("multi-bounded", 1)
	r.Min("multi-closed", 1)
}

func p07Closed(r *Run) {
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream", "pkg/client.Join", "pkg/client.JoinQueue"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvAssume {
				c := ev.Cond
				if (c.op == "pcall" || c.op == "call") && strings.HasSuffix(c.aux, "Fuse).IsBroken") && readsField(c.args[0], "closed") {
					st.mon["broken"] = x.TT.boolC(ev.Truth)
				}
			}
			effect := ""
			switch {
			case ev.Kind == EvCall && publishOf(ev) != nil:
				effect = "publishes"
			case ev.Kind == EvCall && subscribeOf(ev) != nil:
				effect = "subscribes"
			case ev.Kind == EvCall && dynNamed(ev, "psrpc.ClientRequestHook", "psrpc.ClientResponseHook"):
				effect = "runs a hook"
			case ev.Kind == EvMapUpd && ev.MapT != nil:
				effect = "registers state"
			}
			if effect != "" {
				r.At(st.mon["broken"].isFalse(), "closed-refused", ev, st, "the call %s although the client may be closed", effect)
			}
			if ev.Kind == EvReturn && ev.Name == "root" && st.mon["broken"].isTrue() {
				err := ev.Results[len(ev.Results)-1]
				r.At(globalNamed(err, "ErrClientClosed"), "closed-error", ev, st, "a call on a closed client returns %v", err)
			}
		}, nil)
	}
	r.Min("closed-refused", 5)
	r.Min("closed-error", 5)
}

func readsField(t *Term, name string) bool {
	return t.any(func(u *Term) bool { return (u.op == "faddr" || u.op == "field" || u.op == "peek") && u.aux == name })
}
