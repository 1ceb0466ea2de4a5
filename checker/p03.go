package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P03", "typestate over SSA: every path from a received request to the handler call passes either the fact that the method needs no claim, or publish of a claim with the computed non-negative affinity (no error), then receipt of a grant, registered under that request's id, that names this server", p03)
	register("P04", "typestate over SSA: at most one grant publish per request, only after a successful server selection on a method that requires claims, naming the selected server and the published request", p04)
}

// reach visits the values stored in the objects reachable from t.
func (x *Exec) reach(st *State, t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var visit func(*Term, int) bool
	visit = func(t *Term, d int) bool {
		t = t.strip()
		if t == nil || d == 0 || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		if v, ok := st.heap[t]; ok && visit(v, d-1) {
			return true
		}
		for k, v := range st.heap {
			if (k.op == "faddr" || k.op == "iaddr") && k.args[0] == t {
				if visit(v, d-1) {
					return true
				}
			}
			if k.op == "faddr" && k.args[0].op == "faddr" && k.args[0].args[0] == t {
				if visit(v, d-1) {
					return true
				}
			}
		}
		for _, a := range t.args {
			if visit(a, d-1) {
				return true
			}
		}
		return false
	}
	return visit(t, 8)
}

// inRequest: the incoming wire message (Request or Stream) a handler invocation serves, and its type name.
func (x *Exec) inRequest(st *State, ev *Event) *Term {
	if len(ev.Args) == 0 {
		return nil
	}
	last := ev.Args[len(ev.Args)-1]
	if req := decodedFrom(last, "internal.Request", "RawRequest"); req != nil {
		return req
	}
	var out *Term
	x.reach(st, last, func(t *Term) bool {
		if o := fieldRead(t, "internal.Stream", "StreamId"); o != nil {
			out = o
			return true
		}
		return false
	})
	return out
}

// idOf: t is the RequestId of an incoming Request or Stream message.
func idOf(t *Term) *Term {
	if o := fieldRead(t, "internal.Request", "RequestId"); o != nil {
		return o
	}
	return fieldRead(t, "internal.Stream", "RequestId")
}

func isServerID(t *Term) bool {
	o := readsFieldNamed(t, "ID")
	return o != nil && o.any(func(u *Term) bool { return u.op == "param" })
}

func flagKnown(st *State, name string, want bool) bool {
	for f, v := range st.facts {
		if v == want && readsFieldNamed(f, name) != nil {
			return true
		}
	}
	return false
}

// trackFlag remembers the value of a routing flag once a path has tested it.
func trackFlag(x *Exec, st *State, ev *Event, name string) {
	if ev.Kind == EvAssume && readsFieldNamed(ev.Cond, name) != nil {
		st.mon["flag:"+name] = x.TT.boolC(ev.Truth)
	}
}

func p03(r *Run) {
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		p03Root(r, root)
	}
	for _, n := range []string{"claim-gate", "grant-own", "claim-fields", "claim-affinity", "grant-named", "grant-registered", "grant-routed", "claim-published", "claim-wait"} {
		r.Min(n, 1) // the two kinds of handlers may share their code
	}
	r.Min("claim-gate", 2)
}

func p03Root(r *Run, root string) {
	nilSent := false
	var nilPaths []func()
	defer func() {
		if nilSent {
			for _, f := range nilPaths {
				f()
			}
		}
	}()
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		trackFlag(x, st, ev, "RequireClaim")
		switch ev.Kind {
		case EvMapUpd:
			if c := ev.MapT; c != nil && chanElemOf(c.Elem()) == "internal.ClaimResponse" {
				if o := idOf(ev.Key); o != nil {
					st.mon["reg"], st.mon["regchan"] = o, ev.Val.strip()
					v := unAssert(ev.Val.strip()).strip()
					shared := v.op == "call" || v.op == "pcall" || v.op == "load" || v.op == "sload"
					r.At(!shared, "grant-own", ev, st, "the channel registered for this request's grant is not its own but %v, which may hold the grant of another request", v)
				} else {
					r.At(false, "grant-registered", ev, st, "the grant channel is registered under %v, not under the request's id", ev.Key)
				}
			}
		case EvCall:
			if p := publishOf(ev); p != nil && p.kind == "ClaimRequest" {
				o := idOf(x.peek(st, p.msg, "RequestId"))
				r.At(o != nil, "claim-fields", ev, st, "the claim does not carry the request's id but %v", x.peek(st, p.msg, "RequestId"))
				r.At(isServerID(x.peek(st, p.msg, "ServerId")), "claim-fields", ev, st, "the claim does not carry this server's id but %v", x.peek(st, p.msg, "ServerId"))
				if o != nil {
					st.mon["claimfor"] = o
					r.At(st.mon["reg"] == o, "grant-registered", ev, st, "the claim is published before the grant channel is registered under the request's id")
					ok := p.channel.any(func(t *Term) bool {
						return fieldRead(t, "internal.Request", "ClientId") == o || fieldRead(t, "internal.StreamOpen", "NodeId") != nil
					})
					r.At(ok, "claim-fields", ev, st, "the claim is not addressed to the client the request came from: %v", p.channel)
				}
				x.checkAffinity(r, st, ev, x.peek(st, p.msg, "Affinity"))
			}
			if isUserHandler(ev) {
				ok := st.mon["flag:RequireClaim"].isFalse()
				if ok {
					r.At(true, "claim-gate", ev, st, "")
					break
				}
				req := x.inRequest(st, ev)
				g := st.mon["granted"]
				if st.has("nilgrant") { // only if a nil grant can be handed over
					e, s := *ev, st
					nilPaths = append(nilPaths, func() {
						r.At(false, "claim-gate", &e, s, "the handler is invoked after receiving a nil grant")
					})
					break
				}
				r.At(g != nil && (req == nil || g == req), "claim-gate", ev, st, "the handler is invoked for a request although no grant naming this server was received for it (request %v)", req)
				if g != nil {
					e := st.mon["cperr"]
					r.At(e != nil && st.mon["claimfor"] == g && x.isNilT(st, e) == 1 || st.has("cpok"), "claim-published", ev, st, "the handler is invoked although publishing the claim may have failed")
				}
			}
		case EvRet:
			if p := publishOf(ev); p != nil && p.kind == "ClaimRequest" {
				st.mon["cperr"] = ev.Results[0]
			}
			if ev.FnTerm != nil && ev.Callee == nil && ev.FnTerm.strip().op == "param" && len(ev.Results) == 1 && isFloat(ev.Results[0]) {
				st.mon["aff"] = ev.Results[0]
			}
		case EvAssume:
			if e := st.mon["cperr"]; e != nil && ev.Cond == x.eq(st, e, x.TT.nilC()) && ev.Truth {
				st.mon["cpok"] = x.TT.boolC(true)
			}
			if g := st.mon["grant"]; g != nil && ev.Cond == x.eq(st, g, x.TT.nilC()) && ev.Truth {
				st.mon["nilgrant"] = x.TT.boolC(true)
			}
			c := ev.Cond
			if c.op == "eq" && ev.Truth {
				for k := 0; k < 2; k++ {
					o := fieldRead(c.args[k], "internal.ClaimResponse", "ServerId")
					if o != nil && st.has("grant") && o == st.mon["grant"] {
						ok := isServerID(c.args[1-k])
						r.At(ok, "grant-named", ev, st, "the grant is compared with %v, not with this server's id", c.args[1-k])
						if ok {
							st.mon["granted"] = st.mon["reg"]
						}
					}
				}
			}
		case EvBlock:
			for _, c := range ev.Sel.Cases {
				if c.Dir == types.RecvOnly && c.T != nil && namedOf(derefNamed(c.T.Elem())) == "internal.ClaimResponse" && st.has("regchan") && c.Chan == st.mon["regchan"] {
					ok := false
					for _, d := range ev.Sel.Cases {
						if d.Dir == types.RecvOnly && d.Chan.any(func(t *Term) bool {
							return fieldRead(t, "internal.Request", "Expiry") != nil || fieldRead(t, "internal.Stream", "Expiry") != nil
						}) {
							ok = true
							bad := laterThanExpiry(d.Chan)
							r.At(bad == nil, "claim-wait", ev, st, "the wait for the grant does not end when the request expires but after %v", bad)
						}
					}
					r.At(ok, "claim-wait", ev, st, "the wait for the grant does not end when the request expires")
				}
				if c.Dir == types.SendOnly && c.T != nil && namedOf(derefNamed(c.T.Elem())) == "internal.ClaimResponse" && x.isNilT(st, c.Send) != 0 {
					nilSent = true
				}
				x.routedByID(r, st, ev, c, "internal.ClaimResponse", "RequestId", "grant-routed")
			}
		case EvSelect, EvRecv:
			if ev.Val != nil && isMsg(ev.Val, "ClaimResponse") && st.has("regchan") && ev.Addr == st.mon["regchan"] {
				st.mon["grant"] = ev.Val
			}
		}
	}, func(x *Exec) { x.Precise = true })
}

// laterThanExpiry: a part of the term that is a time or duration computed from a message's expiry other than as the
// time left until it.
func laterThanExpiry(t *Term) *Term {
	has := func(u *Term) bool { return u.any(func(v *Term) bool { return expiryOf(v) != nil }) }
	var bad *Term
	t.any(func(u *Term) bool {
		switch {
		case u.op == "binop" && (u.aux == "+" || u.aux == "-") && has(u):
			if u.aux == "+" || expiryOf(unNano(u.args[0])) == nil || !hasNow(u.args[1]) {
				bad = u
			}
		case (u.op == "call" || u.op == "pcall") && u.aux == "(time.Time).Add" && has(u):
			bad = u
		}
		return bad != nil
	})
	return bad
}

func chanElemOf(t types.Type) string {
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	return stripInst(namedOf(derefNamed(c.Elem())))
}

func isFloat(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// routedByID: a message handed to a channel found in a routing table was looked up by that message's own id.
func (x *Exec) routedByID(r *Run, st *State, ev *Event, c SelCase, typ, field, rule string) {
	if c.Dir != types.SendOnly || c.T == nil || namedOf(derefNamed(c.T.Elem())) != typ {
		return
	}
	l := c.Chan
	for l != nil && (l.op == "field" || l.op == "extract") {
		l = l.args[0]
	}
	if l != nil && l.op == "nextv" {
		// found by going through the table: its key was compared
		known := false
		for f, v := range st.facts {
			if v && f.op == "eq" && len(f.args) == 2 {
				a, b := f.args[0].strip(), f.args[1].strip()
				for i := 0; i < 2; i++ {
					known = known || a.op == "nextk" && a.args[0] == l.args[0] && fieldRead(b, typ, field) == c.Send.strip()
					a, b = b, a
				}
			}
		}
		r.At(known, rule, ev, st, "a message is handed to every entry of the table, not to the one under its own %s", field)
		return
	}
	if l == nil || l.op != "lookup" || len(l.args) < 2 {
		return
	}
	ok := fieldRead(l.args[1], typ, field) == c.Send.strip()
	r.At(ok, rule, ev, st, "a message is routed by %v, not by its own %s", l.args[1], field)
}

func (x *Exec) checkAffinity(r *Run, st *State, ev *Event, aff *Term) {
	const rule = "claim-affinity"
	if aff.isConst() {
		known := false
		for f, v := range st.facts {
			if v && f.op == "eq" && f.args[1].isNil() && f.args[0].typ != nil {
				if sig, ok := f.args[0].typ.Underlying().(*types.Signature); ok && sig.Results().Len() == 1 {
					if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
						known = true
					}
				}
			}
		}
		r.At(known, rule, ev, st, "a constant affinity %v is claimed although an affinity function may be set", aff)
		r.At(aff.aux == "1", rule, ev, st, "the affinity claimed without an affinity function is %v, not 1", aff)
		return
	}
	if aff.op == "phi" || aff.op == "stale" {
		return
	}
	ok := aff.op == "call" && strings.HasPrefix(aff.aux, "dyn") && st.mon["aff"] == aff
	if r.At(ok, rule, ev, st, "the affinity claimed is not what the affinity function returned: %v", aff) {
		r.At(x.truth(st, x.lt(aff, x.TT.intC(0))) == 0, rule, ev, st, "a claim is published although the affinity may be negative")
	}
}

// ---------------------------------------------------------------------------------------------

func p04(r *Run) {
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.OpenStream"} {
		p04Root(r, root)
	}
	r.exec("pkg/client.RequestMulti", func(x *Exec, st *State, ev *Event) {
		if p := publishOf(ev); p != nil && ev.Kind == EvCall && p.kind == "Request" {
			r.At(true, "multi-no-grant", ev, st, "")
		}
		if p := publishOf(ev); p != nil && ev.Kind == EvCall && p.kind == "ClaimResponse" {
			r.At(false, "multi-no-grant", ev, st, "a multi request publishes a grant")
		}
	}, nil)
	for _, n := range []string{"grant-once", "grant-selected", "grant-id", "grant-required", "claim-source"} {
		r.Min(n, 2)
	}
}

func p04Root(r *Run, root string) {
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		trackFlag(x, st, ev, "RequireClaim")
		if ev.Kind == EvMapUpd && ev.MapT != nil && strings.Contains(types.TypeString(ev.MapT.Elem(), nil), "ClaimRequest") {
			st.mon["claimreg"] = ev.Val.strip()
			st.mon["claimregkey"] = ev.Key
		}
		if ev.Kind == EvRet && ev.Name == "pkg/client.selectServer" && len(ev.Results) == 2 {
			st.mon["sel"], st.mon["selerr"] = ev.Results[0], ev.Results[1]
			delete(st.mon, "selok")
			// the claims it chooses among are those routed to this request
			if reg := st.mon["claimreg"]; reg != nil && len(ev.Args) > 1 {
				ch := ev.Args[1].strip()
				ok := reg.contains(ch) || x.reach(st, reg, func(t *Term) bool { return t == ch })
				r.At(ok, "claim-source", ev, st, "server selection reads %v, which is not where this request's claims are delivered", ch)
			} else {
				r.At(false, "claim-source", ev, st, "server selection runs but no claim channel is registered")
			}
		}
		if ev.Kind == EvAssume {
			if e := st.mon["selerr"]; e != nil && ev.Cond == x.eq(st, e, x.TT.nilC()) {
				st.mon["selok"] = x.TT.boolC(ev.Truth)
			}
		}
		p := publishOf(ev)
		if p == nil || ev.Kind != EvCall {
			return
		}
		switch p.kind {
		case "Request", "Stream":
			st.mon["reqid"] = x.peek(st, p.msg, "RequestId")
		case "ClaimResponse":
			r.At(!st.has("granted"), "grant-once", ev, st, "a second grant may be published for one request")
			st.mon["granted"] = x.TT.boolC(true)
			sid := x.peek(st, p.msg, "ServerId")
			r.At(st.has("sel") && sid == st.mon["sel"], "grant-selected", ev, st, "the grant names %v, not the selected server", sid)
			r.At(st.mon["selok"].isTrue(), "grant-selected", ev, st, "a grant is published although server selection may have failed")
			id := x.peek(st, p.msg, "RequestId")
			r.At(st.has("reqid") && same(id, st.mon["reqid"]), "grant-id", ev, st, "the grant carries the id %v, not that of the published request", id)
			r.At(st.mon["flag:RequireClaim"].isTrue(), "grant-required", ev, st, "a grant is published for a method that may not require claims")
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || shortName(f) == "pkg/client.selectServer" }
	})
}
