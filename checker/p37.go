package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P37", "value-flow analysis over SSA of the registered routing flags: each parameter of the registration is traced to the field it is stored in and each field to the request info returned for that very method, and from there to every decision made on it; claims are published, awaited and subscribed to only under the claim flag and always under it, and a handler subscribes as a queue exactly under the queue flag; channels come from the info of the method being called", p37)
}

const infoPkg = "pkg/info."

var flagNames = []string{"AffinityEnabled", "Multi", "RequireClaim", "Queue"}

// infoField: the field of the info ptr points to, looking into what it embeds.
func (x *Exec) infoField(st *State, ptr *Term, name string) *Term {
	if structFieldVar(ptr.typ, name) != nil {
		return x.peek(st, ptr, name)
	}
	s, ok := derefNamed(ptr.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Embedded() {
			continue
		}
		e := s.Field(i).Origin()
		f := structFieldVar(e.Type(), name)
		if f == nil {
			continue
		}
		ad := x.faddr(ptr, e, types.NewPointer(e.Type()))
		if v, ok := st.heap[x.faddr(ad, f, types.NewPointer(f.Type()))]; ok {
			return v
		}
		if containerValue(st, ad) != nil {
			return x.fieldThrough(st, ad, f)
		}
		if v := x.peek(st, ptr, e.Name()); v != nil {
			return x.field(v, f)
		}
	}
	return nil
}

// paramNo: the number of the parameter t is, -1 if it is none.
func paramNo(fn *ssa.Function, t *Term) int {
	t = t.strip()
	if t == nil || t.op != "param" {
		return -1
	}
	for i, p := range fn.Params {
		if p.Name() == t.aux {
			return i
		}
	}
	return -1
}

func p37(r *Run) {
	p37Register(r)
	p37Lookup(r)
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream", "pkg/client.Join", "pkg/client.JoinQueue",
		"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler", "pkg/server.(RPCServer).DeregisterHandler", "pkg/server.(RPCServer).Publish"} {
		p37Use(r, root)
	}
	p37Server(r)
	for rule, n := range map[string]int{"registered": 1, "looked-up": 1, "own": 5, "own-channel": 5, "claim-only": 2, "claim-always": 2, "queue": 1, "server-claim": 2} {
		r.Min(rule, n)
	}
}

func p37Register(r *Run) {
	fn := r.P.rootFn(infoPkg + "(ServiceDefinition).RegisterMethod")
	if fn == nil {
		r.Fail("registered", "RegisterMethod", "-", "there is no way to register a method", nil)
		return
	}
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		var key, val *Term
		switch {
		case ev.Kind == EvCall && (strings.HasSuffix(ev.Name, "(*sync.Map).Store") || strings.HasSuffix(ev.Name, "(*sync.Map).Swap")) && len(ev.Args) == 3:
			key, val = ev.Args[1], ev.Args[2]
		case ev.Kind == EvCall && strings.HasSuffix(ev.Name, "(*sync.Map).LoadOrStore"):
			r.At(false, "registered", ev, st, "registering a method again keeps its old flags")
			return
		case ev.Kind == EvMapUpd:
			key, val = ev.Key, ev.Val
		case ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth:
			r.At(st.has("stored"), "registered", ev, st, "the method is not registered on every path")
			return
		default:
			return
		}
		st.mon["stored"] = x.TT.boolC(true)
		r.At(paramNo(fn, key) == 1, "registered", ev, st, "the method is registered as %v", key)
		for i, n := range flagNames {
			v := x.infoField(st, val.strip(), n)
			r.At(v != nil && paramNo(fn, v) == i+2, "registered", ev, st, "the flag %s is stored from %v", n, v)
		}
	}, nil)
}

func p37Lookup(r *Run) {
	fn := r.P.rootFn(infoPkg + "(ServiceDefinition).GetInfo")
	if fn == nil {
		r.Fail("looked-up", "GetInfo", "-", "there is no request info", nil)
		return
	}
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
			return
		}
		p := ev.Results[0].strip()
		get := func(n string) *Term {
			if v := x.infoField(st, p, n); v != nil {
				return unstale(v.strip())
			}
			return nil
		}
		for _, n := range flagNames {
			v := get(n)
			f := fieldOfLoad(v)
			ok := f != nil && f.Name() == n && v.any(func(u *Term) bool {
				return (u.op == "call" || u.op == "pcall" || u.op == "lookup") && len(u.args) == 2 && paramNo(fn, u.args[1]) == 1
			})
			r.At(ok, "looked-up", ev, st, "the flag %s of a request is %v, not the one its method was registered with", n, v)
		}
		r.At(paramNo(fn, get("Method")) == 1, "looked-up", ev, st, "the method of a request is %v", get("Method"))
		r.At(paramNo(fn, get("Topic")) == 2, "looked-up", ev, st, "the topic of a request is %v", get("Topic"))
		f := fieldOfLoad(get("Service"))
		r.At(f != nil && f.Name() == "Name", "looked-up", ev, st, "the service of a request is %v", get("Service"))
	}, nil)
}

// madeInfo: the info t is was made by GetInfo.
func madeInfo(t *Term) bool {
	t = unstale(t.strip())
	return t != nil && t.op == "alloc" && t.site != nil && t.site.instr.Parent() != nil && t.site.instr.Parent().Name() == "GetInfo" ||
		t != nil && (t.op == "call" || t.op == "pcall") && strings.HasSuffix(t.aux, ".GetInfo")
}

// chanInfo: the info a channel was named from, and by which method.
func chanInfo(t *Term) (*Term, string) {
	var i *Term
	n := ""
	if t != nil {
		t.any(func(u *Term) bool {
			if (u.op == "call" || u.op == "pcall") && strings.Contains(u.aux, "info.RequestInfo).") && len(u.args) > 0 {
				i, n = u.args[0].strip(), lastName(u.aux)
				return true
			}
			return false
		})
	}
	return i, n
}

// flagAssumed notes what a path has found the flags to be.
func flagAssumed(x *Exec, st *State, ev *Event) {
	if ev.Kind != EvAssume {
		return
	}
	c, truth := ev.Cond, ev.Truth
	for c.op == "not" {
		c, truth = c.args[0], !truth
	}
	if f := fieldOfLoad(unstale(c)); f != nil && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), "pkg/info") {
		st.mon["flag:"+f.Name()] = x.TT.boolC(truth)
	}
}

func flagIs(st *State, n string) int {
	v := st.mon["flag:"+n]
	switch {
	case v == nil:
		return -1
	case unstale(v).isTrue():
		return 1
	}
	return 0
}

func p37Use(r *Run, root string) {
	fn := r.P.rootFn(root)
	if fn == nil {
		r.Fail("own", root, "-", "the API function "+root+" does not exist", nil)
		return
	}
	name := lastName(root)
	opens := name == "RequestSingle" || name == "OpenStream"
	yes := func(x *Exec) *Term { return x.TT.boolC(true) }
	r.execFn(root, fn, func(x *Exec, st *State, ev *Event) {
		flagAssumed(x, st, ev)
		switch ev.Kind {
		case EvEnter, EvCall:
			if strings.HasSuffix(ev.Name, ".GetInfo") && len(ev.Args) == 3 {
				m, t := ev.Args[1].strip(), ev.Args[2].strip()
				r.At(m.op == "param" && m.typ != nil && isString(m.typ) && t.op == "param" && isSliceType(t.typ), "own", ev, st, "the flags used are those of %v %v, not of the method called", m, t)
				return
			}
			if ev.Kind == EvEnter {
				return
			}
			var ch *Term
			kind := ""
			if p := publishOf(ev); p != nil {
				ch, kind = p.channel, p.kind
			} else if s := subscribeOf(ev); s != nil {
				ch = s.channel
				_, n := chanInfo(ch)
				switch {
				case n == "GetRPCChannel" && name == "JoinQueue":
					r.At(s.queue, "queue", ev, st, "joining a queue subscribes each member by itself")
				case n == "GetRPCChannel" && name == "Join":
					r.At(!s.queue, "queue", ev, st, "joining a subscription shares the messages among the members")
				case n == "GetRPCChannel":
					r.At(s.queue == (flagIs(st, "Queue") == 1) && flagIs(st, "Queue") >= 0, "queue", ev, st, "a handler subscribes %s whatever its method was registered with", map[bool]string{true: "as a queue", false: "by itself"}[s.queue])
				case n == "GetClaimResponseChannel":
					r.At(flagIs(st, "RequireClaim") == 1, "server-claim", ev, st, "claim responses are subscribed to for a method without claims")
					st.mon["claimsub"] = yes(x)
				default:
					r.At(!s.queue, "queue", ev, st, "a channel of one server is shared as a queue")
				}
			} else {
				return
			}
			if i, _ := chanInfo(ch); i != nil {
				r.At(madeInfo(i), "own-channel", ev, st, "the channel is named from %v, not from the info of the method called", i)
			}
			if opens && kind == "ClaimResponse" {
				r.At(flagIs(st, "RequireClaim") == 1, "claim-only", ev, st, "a claim is answered for a method without claims")
				st.mon["answered"] = yes(x)
			}
		case EvBlock:
			// waiting for the outcome
			if opens && ev.Sel.Blocking && (selectsMsg(ev.Sel, "Response") || waitsAck(ev.Sel)) && !st.has("answered") {
				r.At(flagIs(st, "RequireClaim") == 0, "claim-always", ev, st, "the outcome of a request to a method with claims is awaited without a server having been selected")
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) == 0 {
				return
			}
			if strings.HasPrefix(name, "Register") && x.isNilT(st, ev.Results[len(ev.Results)-1]) == 1 {
				r.At(st.has("claimsub") == (flagIs(st, "RequireClaim") == 1), "server-claim", ev, st, "a handler for a method with claims does not subscribe to claim responses")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || shortName(f) == "pkg/client.selectServer" || strings.HasSuffix(stripInst(shortName(f)), ".run") || isMethodNamed(f, "pkg/client", "runClientStream")
		}
		x.FollowGo = false
		x.Precise = true
	})
}

// waitsAck: the select waits for something empty (an acknowledgement) besides the end of the call.
func waitsAck(s *SelInfo) bool {
	for _, c := range s.Cases {
		if c.Dir == types.RecvOnly && c.T != nil && isEmptyStruct(c.T.Elem()) && doneOf(c.Chan) == nil && c.Chan.strip().op == "mkchan" {
			return true
		}
	}
	return false
}

// p37Server: the server's side of the claims.
func p37Server(r *Run) {
	for _, f := range r.P.pkgFuncs("pkg/server") {
		if f.Parent() != nil || f.Signature.Recv() == nil || !takesWire(f) {
			continue
		}
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			flagAssumed(x, st, ev)
			if ev.Kind != EvCall {
				return
			}
			if p := publishOf(ev); p != nil && p.kind == "ClaimRequest" {
				if !called37(r, f) {
					r.At(flagIs(st, "RequireClaim") == 1, "server-claim", ev, st, "the server claims a request of a method without claims")
				}
				st.mon["claimed"] = x.TT.boolC(true)
			}
			if (isUserHandler(ev) || fieldHandler(ev)) && !called37(r, f) {
				r.At(flagIs(st, "RequireClaim") == 0 || flagIs(st, "RequireClaim") == 1 && st.has("claimed"), "server-claim", ev, st, "the handler of a method with claims runs without a claim")
			}
		}, func(x *Exec) { x.Precise = true })
	}
}

func takesWire(f fnT) bool {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if n := namedOf(derefNamed(ps.At(i).Type())); n == "internal.Request" || n == "internal.Stream" {
			return true
		}
	}
	return false
}

// called37: another function of the package that takes messages calls f.
func called37(r *Run, f fnT) bool {
	org := func(f *ssa.Function) *ssa.Function {
		if f.Origin() != nil {
			return f.Origin()
		}
		return f
	}
	for _, g := range r.P.pkgFuncs("pkg/server") {
		if g == f || !takesWire(rootOf(g)) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cc := callCommon(in); cc != nil && cc.StaticCallee() != nil && org(cc.StaticCallee()) == org(f) {
					return true
				}
			}
		}
	}
	return false
}

func rootOf(f fnT) fnT {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// fieldHandler: a call of a function kept in a variable or a field that can fail, as the handlers of methods are.
func fieldHandler(ev *Event) bool {
	if ev.FnTerm == nil || ev.Callee != nil || ev.FnType == nil {
		return false
	}
	if t := unstale(ev.FnTerm.strip()); t.op != "load" && t.op != "sload" {
		return false
	}
	sig, ok := ev.FnType.Underlying().(*types.Signature)
	if !ok || sig.Results().Len() == 0 || sig.Params().Len() == 0 {
		return false
	}
	return isErrIface(sig.Results().At(sig.Results().Len() - 1).Type())
}
