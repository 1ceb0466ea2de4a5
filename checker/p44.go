package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P44", "inductive shape analysis over SSA of the bus wrapper: each loop step wraps the handler built so far exactly once, from the last interceptor to the first, starting at the wrapped bus's or reader's own method; the wrapper's publish goes through the handler built, its subscribe and queue subscribe call the wrapped bus's method of the same name with what they were given and return a reader that reads through the handler built and closes the wrapped subscription", p44)
}

// handlerKind: the function type a call returns when it calls an interceptor.
func interceptorCall(ev *Event) string {
	if ev.FnTerm == nil || len(ev.Args) == 0 {
		return ""
	}
	t := ev.FnTerm.strip()
	if t == nil || t.typ == nil {
		return ""
	}
	switch namedOf(t.typ) {
	case busPkg + ".PublishInterceptor", busPkg + ".SubscribeInterceptor":
		return namedOf(t.typ)
	}
	return ""
}

// wrapLoop checks a loop that wraps a handler in every interceptor of a list.
func wrapLoop(r *Run, x *Exec, st *State, ev *Event, order, wrap string, inner func(st *State, t *Term) bool) {
	chainLoop(x, st, ev)
	switch ev.Kind {
	case EvAssume:
		if ev.Cond.any(func(u *Term) bool {
			if u.op != "len" || u.args[0].typ == nil {
				return false
			}
			l, ok := u.args[0].typ.Underlying().(*types.Slice)
			return ok && strings.HasSuffix(namedOf(l.Elem()), "Interceptor")
		}) {
			st.mon["looked"] = x.TT.boolC(true)
		}
	case EvReturn:
		if ev.Name == "root" && !ev.Truth && st.mon["idx"] != nil {
			r.At(!st.has("wrapped"), wrap, ev, st, "the interceptors after the first one taken are left out")
		}
	case EvCall:
		if interceptorCall(ev) == "" {
			return
		}
		in := ev.Args[len(ev.Args)-1].strip()
		r.At(!st.has("wrapped"), wrap, ev, st, "an interceptor wraps the handler twice")
		base, idx := elemIdx(ev.FnTerm)
		st.mon["wrapped"] = x.TT.boolC(true)
		if idx != nil {
			st.mon["idx"] = idx
		}
		switch {
		case inner(st, in):
			r.At(!st.has("iter"), order, ev, st, "an interceptor wraps the bus itself, leaving out the ones before it: %v", in)
		default:
			r.At(in.op == "phi" || in.op == "loopcell" || in == st.mon["last"] || in.op == "load" || in.op == "param" && !st.has("iter"), order, ev, st, "an interceptor wraps %v, not the handler built so far", in)
		}
		if base != nil {
			chainOrder(r, order, ev, st)
		}
	case EvRet:
		if interceptorCall(ev) != "" && len(ev.Results) == 1 {
			st.mon["last"] = ev.Results[0]
		}
	case EvBack:
		if st.mon["idx"] == nil {
			return
		}
		if !r.At(st.has("wrapped"), wrap, ev, st, "an interceptor may be left out") {
			return
		}
		r.At(!leavesEarly(ev.Loop), wrap, ev, st, "the interceptors before one may be left out")
		carried := false
		for _, v := range ev.Phis {
			carried = carried || v.strip() == st.mon["last"].strip()
		}
		for _, v := range st.heap {
			carried = carried || v.strip() == st.mon["last"].strip()
		}
		r.At(carried, order, ev, st, "what an interceptor returned is not what the next one wraps")
		chainOrder(r, order, ev, st)
		st.mon["iter"] = x.TT.boolC(true)
		delete(st.mon, "wrapped")
		delete(st.mon, "exit")
	}
}

// builtLast: t is the handler the loop built, or the inner one when there was nothing to wrap.
func builtLast(st *State, t *Term, inner func(st *State, t *Term) bool) bool {
	t = t.strip()
	last := st.mon["last"]
	if last == nil {
		return st.has("looked") && (inner(st, t) || t.op == "phi")
	}
	return unstale(t) == unstale(last.strip()) || t.op == "phi" || t.op == "loopcell" || t.op == "stale"
}

// fieldsOf: the fields of a built value with the given type.
func (x *Exec) fieldsOf(st *State, v *Term, is func(types.Type) bool) []*Term {
	if v == nil || v.typ == nil {
		return nil
	}
	s, ok := derefNamed(v.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			if t := x.builtField(st, v, s.Field(i).Name()); t != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

func typeNamed(name string) func(types.Type) bool {
	return func(t types.Type) bool { return namedOf(t) == name }
}

func p44(r *Run) {
	// the wrapper: a bus holding a bus and the interceptors' handlers
	it := r.P.Named(busPkg, "MessageBus")
	ctor := r.P.rootFn(busPkg + ".NewTestBus")
	if it == nil || ctor == nil {
		r.Fail("anchor", busPkg, "-", "the bus wrapper was not found", nil)
		return
	}
	var wrapper types.Type
	for _, t := range r.P.implTypes(it, busPkg) {
		if s, ok := derefNamed(t).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if namedOf(s.Field(i).Type()) == busPkg+".MessageBus" {
					wrapper = t
				}
			}
		}
	}
	if wrapper == nil {
		r.Fail("anchor", busPkg, "-", "no bus that wraps another one was found", nil)
		return
	}
	isBus := typeNamed(busPkg + ".MessageBus")
	// construction
	bus := r.P.busParam(ctor)
	innerBus := func(st *State, t *Term) bool {
		t = t.strip()
		is := func(u *Term) bool { return u != nil && u.op == "param" && u.aux == bus }
		return t.op != "phi" && t.op != "call" && t.any(func(u *Term) bool {
			return is(u) || u.op == "alloc" && st.heap[u] != nil && is(unAssert(st.heap[u]).strip())
		})
	}
	r.execFn("NewTestBus", ctor, func(x *Exec, st *State, ev *Event) {
		wrapLoop(r, x, st, ev, "publish-order", "publish-wrap", innerBus)
		if ev.Kind == EvCall && ev.FnTerm != nil && ev.FnTerm.strip().typ != nil && namedOf(ev.FnTerm.strip().typ) == busPkg+".TestBusOption" {
			st.mon["opted"] = x.TT.boolC(true)
		}
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
			return
		}
		if st.mon["idx"] != nil {
			st.mon["idx"] = unstale(st.mon["idx"])
		}
		chainOrder(r, "publish-order", ev, st)
		if !st.has("opted") {
			st.mon["looked"] = x.TT.boolC(true) // there is no interceptor
		}
		v := unAssert(ev.Results[0]).strip()
		if v.op == "param" {
			r.At(!st.has("last"), "built", ev, st, "the bus returned is the one given, without its interceptors")
			return
		}
		for _, b := range x.fieldsOf(st, v, isBus) {
			r.At(unAssert(b).op == "param", "built", ev, st, "the bus wrapped is %v, not the one given", b)
		}
		for _, h := range x.fieldsOf(st, v, typeNamed(busPkg+".PublishHandler")) {
			r.At(builtLast(st, h, innerBus), "built", ev, st, "messages are published through %v, not through every interceptor", h)
		}
		for _, l := range x.fieldsOf(st, v, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && namedOf(s.Elem()) == busPkg+".SubscribeInterceptor"
		}) {
			r.At(l.op != "slice" && (!st.has("opted") || !l.isNil() && l.op != "zero"), "built", ev, st, "the subscribe interceptors kept are %v, not those given", l)
		}
	}, nil)
	r.Min("publish-order", 1)
	r.Min("publish-wrap", 1)
	r.Min("built", 1)

	// publishing
	if fn := r.P.methodOf(wrapper, "Publish"); fn == nil {
		r.Fail("anchor", "Publish", "-", "the wrapper has no Publish of its own", nil)
	} else {
		given := func(args []*Term) bool {
			if len(args) < 3 {
				return false
			}
			args = args[len(args)-3:]
			for i, a := range args {
				if t := unAssert(a).strip(); t.op != "param" || t.aux != fn.Params[i+1].Name() {
					return false
				}
			}
			return true
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvCall:
				if ev.FnTerm != nil && ev.FnTerm.strip().typ != nil && namedOf(ev.FnTerm.strip().typ) == busPkg+".PublishHandler" {
					r.At(!st.has("sent"), "publish-through", ev, st, "a message is passed to the interceptors twice")
					r.At(given(ev.Args), "publish-through", ev, st, "the interceptors get %v, not what is published", ev.Args)
					st.mon["sent"] = x.TT.boolC(true)
				} else if strings.HasSuffix(ev.Name, "MessageBus).Publish") {
					bypass := !st.has("sent")
					for f, v := range st.facts {
						if f.op == "eq" && v && (f.args[1].isNil() || isZeroInt(f.args[1])) {
							bypass = false // known to have no interceptor
						}
					}
					r.At(!bypass, "publish-through", ev, st, "a message is published around the interceptors")
				}
			case EvRet:
				if ev.FnTerm != nil && ev.FnTerm.strip().typ != nil && namedOf(ev.FnTerm.strip().typ) == busPkg+".PublishHandler" && len(ev.Results) == 1 {
					st.mon["err"] = ev.Results[0]
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth && len(ev.Results) == 1 && st.has("sent") {
					ok := ev.Results[0] == st.mon["err"] || st.mon["err"] != nil && x.isNilT(st, ev.Results[0]) == 1 && x.isNilT(st, st.mon["err"]) == 1
					r.At(ok, "publish-through", ev, st, "the publisher gets %v, not the result of publishing", ev.Results[0])
				} else if ev.Name == "root" && !ev.Truth {
					r.At(len(st.facts) > 0, "publish-through", ev, st, "a message is not published at all")
				}
			}
		}, nil)
		r.Min("publish-through", 1)
	}

	// subscribing
	readers := map[types.Type]bool{}
	for _, m := range []string{"Subscribe", "SubscribeQueue"} {
		fn := r.P.methodOf(wrapper, m)
		if fn == nil {
			r.Fail("anchor", m, "-", "the wrapper has no "+m+" of its own", nil)
			continue
		}
		var inner func(st *State, t *Term) bool
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			inner = func(st *State, t *Term) bool {
				own := st.mon["reader"]
				t = t.strip()
				return own != nil && t.op != "phi" && t.op != "call" && t.any(func(u *Term) bool { return u == own || u.op == "alloc" && st.heap[u] == own })
			}
			wrapLoop(r, x, st, ev, "read-order", "read-wrap", inner)
			isParam := func(t *Term, i int) bool {
				t = unAssert(t).strip()
				return t.op == "param" && i < len(fn.Params) && t.aux == fn.Params[i].Name()
			}
			switch ev.Kind {
			case EvCall:
				if interceptorCall(ev) != "" && len(ev.Args) == 3 {
					r.At(isParam(ev.Args[0], 1) && isParam(ev.Args[1], 2), "read-wrap", ev, st, "an interceptor is made for %v, not for this subscription's own channel", ev.Args[1])
				}
				if strings.Contains(ev.Name, "MessageBus).Subscribe") {
					r.At(!st.has("asked"), "subscribe-through", ev, st, "one subscription subscribes to the bus twice")
					r.At(strings.HasSuffix(ev.Name, "."+m), "subscribe-through", ev, st, "%s calls %s of the bus", m, ev.Name)
					n := len(ev.Args)
					r.At(n >= 3 && isParam(ev.Args[n-3], 1) && isParam(ev.Args[n-2], 2) && isParam(ev.Args[n-1], 3), "subscribe-through", ev, st, "the bus is given %v, not what the subscriber asked for", ev.Args)
					st.mon["asked"] = x.TT.boolC(true)
				}
			case EvRet:
				if strings.Contains(ev.Name, "MessageBus).Subscribe") && len(ev.Results) == 2 {
					st.mon["reader"], st.mon["err"] = ev.Results[0], ev.Results[1]
				}
			case EvReturn:
				if ev.Name != "root" || ev.Truth || len(ev.Results) != 2 || st.panic {
					return
				}
				own := st.mon["reader"]
				if !r.At(own != nil, "subscribe-through", ev, st, "nothing is subscribed") {
					return
				}
				v, err := unAssert(ev.Results[0]).strip(), ev.Results[1]
				if x.isNilT(st, st.mon["err"]) != 1 {
					if !(v == own.strip() && err == st.mon["err"]) {
						r.At(err == st.mon["err"] || x.isNilT(st, err) == 0, "subscribe-through", ev, st, "a failed subscription is reported as %v", err)
						r.At(x.isNilT(st, st.mon["err"]) == 0, "subscribe-through", ev, st, "whether subscribing failed is not checked")
					}
					return
				}
				r.At(x.isNilT(st, err) == 1 || err == st.mon["err"], "subscribe-through", ev, st, "a subscription that was made is reported as failed")
				if st.mon["idx"] != nil {
					st.mon["idx"] = unstale(st.mon["idx"])
				}
				chainOrder(r, "read-order", ev, st)
				if v == own.strip() {
					r.At(!st.has("last"), "read-through", ev, st, "the reader returned reads around the interceptors")
					return
				}
				for _, b := range x.fieldsOf(st, v, typeNamed(busPkg+".Reader")) {
					r.At(unAssert(b).strip() == own.strip(), "read-through", ev, st, "the reader returned closes %v, not its own subscription", b)
				}
				n := 0
				for _, h := range x.fieldsOf(st, v, typeNamed(busPkg+".ReadHandler")) {
					n++
					r.At(builtLast(st, h, inner), "read-through", ev, st, "the reader returned reads through %v, not through every interceptor", h)
				}
				r.At(n > 0, "read-through", ev, st, "the reader returned, %v, does not read through the interceptors", v)
				if v.typ != nil {
					readers[derefNamed(v.typ)] = true
				}
			}
		}, nil)
	}
	for rule, n := range map[string]int{"subscribe-through": 2, "read-order": 1, "read-wrap": 1, "read-through": 2} {
		r.Min(rule, n)
	}
	// the reader reads through its handler and closes the subscription it wraps
	for t := range readers {
		if fn := r.P.methodOf(t, "read"); fn != nil && len(fn.Blocks) > 0 {
			r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
				isH := ev.FnTerm != nil && ev.FnTerm.strip().typ != nil && namedOf(ev.FnTerm.strip().typ) == busPkg+".ReadHandler"
				switch {
				case ev.Kind == EvRet && isH && len(ev.Results) == 2:
					r.At(!st.has("b"), "reads", ev, st, "one read takes two messages")
					st.mon["b"], st.mon["ok"] = ev.Results[0], ev.Results[1]
				case ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) == 2:
					ok := st.has("b") && (ev.Results[0] == st.mon["b"] && ev.Results[1] == st.mon["ok"] || x.truth(st, st.mon["ok"]) == 0 && x.truth(st, ev.Results[1]) == 0 || x.truth(st, st.mon["ok"]) == 1 && ev.Results[0] == st.mon["b"] && x.truth(st, ev.Results[1]) == 1)
					r.At(ok, "reads", ev, st, "a read yields %v, not what its handler read", ev.Results[0])
				}
			}, nil)
		} else {
			r.Check(false, "reads", namedOf(t), "internal/bus/bus_interceptor.go", "reading does not go through the interceptors", nil)
		}
		if fn := r.P.methodOf(t, "Close"); fn != nil && len(fn.Blocks) > 0 && fn.Synthetic == "" {
			r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
				if ev.Kind == EvCall && strings.HasSuffix(ev.Name, ".Close") {
					st.mon["closed"] = x.TT.boolC(true)
				}
				if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
					r.At(st.has("closed"), "closes", ev, st, "closing the reader does not close the subscription it wraps")
				}
			}, nil)
		} else {
			r.OK("closes", "promoted from the wrapped subscription")
		}
	}
	r.Min("reads", 1)
	r.Min("closes", 1)
	p44Options(r)
}

// p44Options: an option adds its interceptor after those given before.
func p44Options(r *Run) {
	for _, rel := range []string{"testutils", busPkg} {
		for _, fn := range r.P.pkgFuncs(rel) {
			if fn.Parent() == nil || len(fn.Params) != 1 || namedOf(derefNamed(fn.Params[0].Type())) != busPkg+".TestBusOpts" || fn.Signature.Results().Len() != 0 {
				continue
			}
			r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
				if ev.Kind != EvStore || ev.Addr.op != "faddr" {
					return
				}
				f, _ := ev.Addr.obj.(*types.Var)
				if f == nil || !isSliceType(f.Type()) {
					return
				}
				v := ev.Val.strip()
				own := v.op == "append" && len(v.args) == 2 && readsFieldNamed(v.args[0], f.Name()) != nil
				r.At(own || v.op == "call", "added", ev, st, "an option sets %s to %v instead of adding to the ones given before", f.Name(), v)
			}, nil)
		}
	}
	r.Min("added", 2)
}

// busParam is the name of the parameter holding the bus to be wrapped.
func (p *Program) busParam(fn fnT) string {
	for _, q := range fn.Params {
		if namedOf(q.Type()) == busPkg+".MessageBus" {
			return q.Name()
		}
	}
	return ""
}
