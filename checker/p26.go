package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P26", "path-sensitive dataflow over SSA from the interceptors the metrics options install: every path through an interceptor, panics included, reports to the observer exactly once (at most once for a close, behind an atomic test), after the call it reports on, with the interceptor's own role and info, the returned error, the sizes of the very messages on their proper sides, and counters that each response adds one to; arguments and results pass through untouched", p26)
}

// metricsCtor: an interceptor found in one of the options, with what its closure captured.
type metricsCtor struct {
	kind string // rpc, multi, stream, server
	role int64
	t    *Term
	st   *State
	x    *Exec
	at   ssa.Instruction
}

var metricOptions = map[string]string{
	"WithClientRPCInterceptors":      "client-rpc",
	"WithClientMultiRPCInterceptors": "client-multi",
	"WithClientStreamInterceptors":   "client-stream",
	"WithServerRPCInterceptors":      "server-rpc",
	"WithServerStreamInterceptors":   "server-stream",
}

func isObserver(ev *Event) string {
	if ev.Kind != EvCall || ev.Method == nil {
		return ""
	}
	if i := strings.LastIndex(ev.Name, ".MetricsObserver)."); i >= 0 {
		return ev.Name[i+len(".MetricsObserver)."):]
	}
	return ""
}

func p26(r *Run) {
	found := map[string]bool{}
	for root, role := range map[string]string{"pkg/middleware.WithClientMetrics": "client", "pkg/middleware.WithServerMetrics": "server"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if st.has("run") {
				p26On(r, x, st, ev)
				return
			}
			if ev.Kind != EvEnter && ev.Kind != EvCall || !strings.HasPrefix(ev.Name, "psrpc.") {
				return
			}
			kind := metricOptions[lastName(ev.Name)]
			if kind == "" || len(ev.Args) != 1 {
				return
			}
			r.At(strings.HasPrefix(kind, role), "installed", ev, st, "%s installs %s", root, lastName(ev.Name))
			l := ev.Args[0].strip()
			if l == nil || l.op != "slice" {
				return
			}
			n := 0
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0].strip() == l.args[0].strip() {
					n++
					p26Interceptor(r, x, st, ev, kind, v.strip())
				}
			}
			r.At(n == 1, "installed", ev, st, "%d interceptors are installed for %s", n, kind)
			r.At(!found[kind], "installed", ev, st, "the %s interceptor is installed twice", kind)
			found[kind] = true
		}, func(x *Exec) { x.NoChain, x.Impl, x.Precise, x.MayPanic = true, nil, true, userPanics })
	}
	for _, k := range metricOptions {
		r.Check(found[k], "installed", k, "-", "no "+k+" interceptor is installed: those calls are not reported", nil)
	}
	p26Closes(r)
	for rule, n := range map[string]int{"once": 4, "outcome": 4, "side": 4, "identity": 4, "through": 4, "counter": 2, "field": 1} {
		r.Min(rule, n)
	}
}

// userPanics: a call into the rest of the chain may panic.
func userPanics(ev *Event) bool {
	return ev.FnTerm != nil && ev.Callee == nil && isParam(ev.FnTerm)
}

// p26Interceptor follows one interceptor.
func p26Interceptor(r *Run, x *Exec, st *State, at *Event, kind string, t *Term) {
	s := st.clone()
	for k := range s.mon {
		if !strings.HasPrefix(k, "#") {
			delete(s.mon, k)
		}
	}
	s.mon["run"] = x.TT.str(kind)
	fn, _ := t.obj.(*ssa.Function)
	if !r.At(fn != nil, "installed", at, st, "the %s interceptor is %v", kind, t) {
		return
	}
	role := int64(1)
	if strings.HasPrefix(kind, "server") {
		role = 2
	}
	switch kind {
	case "client-rpc":
		for _, o := range x.runClosure(s, t, at.Instr) {
			if len(o.res) != 1 {
				continue
			}
			r.At(!o.st.has("obs"), "once", at, o.st, "the observer is told before there is a call")
			for _, o2 := range x.runClosure(o.st, o.res[0], at.Instr) {
				p26Done(r, x, o2, at, "OnUnaryRequest")
			}
		}
	case "server-rpc":
		for _, o := range x.runClosure(s, t, at.Instr) {
			want := ""
			if o.st.has("multi") {
				want = "OnUnaryRequest"
				if o.st.mon["multi"].isTrue() {
					want = "OnMultiRequest"
				}
			}
			if !r.At(want != "", "once", at, o.st, "the interceptor does not tell multi requests from others") {
				continue
			}
			p26Done(r, x, o, at, want)
		}
	default:
		for _, o := range x.runClosure(s, t, at.Instr) {
			if o.st.panic || len(o.res) != 1 {
				continue
			}
			if kind == "client-multi" {
				r.At(!o.st.has("obs"), "once", at, o.st, "the observer is told before there is a request")
			} else {
				p26Done(r, x, &outcome{st: o.st}, at, "OnStreamOpen")
			}
			w := o.res[0].strip()
			for w != nil && w.op == "iface" {
				w = w.args[0].strip()
			}
			if !r.At(w != nil && w.op == "alloc", "through", at, o.st, "the interceptor returns %v", o.res[0]) {
				continue
			}
			ctor := map[*types.Var]*Term{}
			for k, v := range o.st.heap {
				if k.op == "faddr" && k.args[0].strip() == w {
					if f, ok := k.obj.(*types.Var); ok {
						ctor[f] = v.strip()
					}
				}
			}
			n, _ := types.Unalias(derefType(w.typ)).(*types.Named)
			if n == nil {
				if p, ok := w.typ.(*types.Pointer); ok {
					n, _ = types.Unalias(p.Elem()).(*types.Named)
				}
			}
			if !r.At(n != nil, "through", at, o.st, "the interceptor returns a %v", w.typ) {
				continue
			}
			if kind == "client-multi" {
				p26Multi(r, n, ctor, role)
			} else {
				p26Stream(r, n, ctor, role)
			}
		}
	}
}

// p26On: the events within a unary or server interceptor, or within the making of a stream or multi interceptor.
func p26On(r *Run, x *Exec, st *State, ev *Event) {
	kind, _ := constStr(st.mon["run"])
	yes := x.TT.boolC(true)
	if m := isObserver(ev); m != "" {
		r.At(!st.has("obs"), "once", ev, st, "one call is reported twice")
		st.mon["obs"] = x.TT.str(m)
		a := ev.Args[1:]
		role, ok := constInt(a[0])
		want := 1
		if strings.HasPrefix(kind, "server") {
			want = 2
		}
		r.At(ok && int64(role) == int64(want), "identity", ev, st, "the observation is reported with role %v", a[0])
		r.At(isParam(a[1]), "identity", ev, st, "the observation is reported with the info %v", a[1])
		if m == "OnStreamOpen" || m == "OnStreamClose" {
			return
		}
		r.At(st.has("called") || st.has("panicked"), "outcome", ev, st, "the call is reported before it was made")
		d := a[2].strip()
		r.At(st.mon["start"] != nil && d.any(func(u *Term) bool { return u == st.mon["start"] }), "outcome", ev, st, "the reported duration %v is not that of the call", d)
		in, out := 4, 5
		switch m {
		case "OnUnaryRequest":
			st.mon["oerr"] = a[3]
		case "OnMultiRequest":
			in, out = 5, 6
			ok, failed := 1, 0
			if !st.mon["failed"].isFalse() {
				ok, failed = 0, 1
			}
			if st.has("called") && st.has("failed") {
				r.At(constIs(a[3], itoa(ok)) && constIs(a[4], itoa(failed)), "counter", ev, st, "the handled request is reported with %v responses and %v errors", a[3], a[4])
			} else if st.has("called") {
				r.At(false, "counter", ev, st, "the handled request is reported with %v responses and %v errors whatever its outcome", a[3], a[4])
			}
		default:
			return
		}
		// bytes received come first
		if kind == "client-rpc" {
			in, out = out, in
		}
		if len(a) > in && len(a) > out {
			rq, rs := sizeArg(a[in]), sizeArg(a[out])
			r.At(rq != nil && isParam(rq), "side", ev, st, "the size of %v is reported where the request's belongs", a[in])
			if st.has("called") {
				r.At(rs != nil && sameVal(rs, st.mon["res"]), "side", ev, st, "the size of %v is reported where the response's belongs", a[out])
			}
		}
		return
	}
	switch ev.Kind {
	case EvPanic:
		st.mon["panicked"] = yes
	case EvAssume:
		if readsFieldNamed(ev.Cond, "Multi") != nil {
			st.mon["multi"] = x.TT.boolC(ev.Truth)
		}
		if e := st.mon["err"]; e != nil && ev.Cond.op == "eq" && (ev.Cond.args[0].strip() == e.strip() && ev.Cond.args[1].isNil() || ev.Cond.args[1].strip() == e.strip() && ev.Cond.args[0].isNil()) {
			st.mon["failed"] = x.TT.boolC(!ev.Truth)
		}
	case EvRet:
		if ev.Name == "time.Now" && !st.has("calling") {
			st.mon["start"] = ev.Results[0].strip()
		}
		if isNext(ev) {
			st.mon["res"], st.mon["err"] = ev.Results[0], ev.Results[1]
			st.mon["called"] = yes
		}
	case EvCall:
		if isNext(ev) {
			r.At(!st.has("calling"), "through", ev, st, "the call is made twice")
			st.mon["calling"] = yes
			for i, a := range ev.Args {
				r.At(isParam(a) && strings.HasPrefix(a.strip().aux, "·"), "through", ev, st, "the call is made with %v instead of argument %d", a, i+1)
			}
		}
	}
}

// isNext: the rest of the chain is called.
func isNext(ev *Event) bool {
	return ev.FnTerm != nil && ev.Callee == nil && isParam(ev.FnTerm) && len(ev.Results)+2 >= 2 && len(ev.Args) >= 2 && ev.Method == nil
}

func sizeArg(t *Term) *Term {
	t = t.strip()
	if t != nil && (t.op == "call" || t.op == "pcall") && strings.HasSuffix(t.aux, "proto.Size") && len(t.args) > 0 {
		return t.args[len(t.args)-1]
	}
	return nil
}

// p26Done: what must have happened by the end of the path.
func p26Done(r *Run, x *Exec, o *outcome, at *Event, want string) {
	got, _ := constStr(o.st.mon["obs"])
	r.At(got == want, "once", at, o.st, "a path ends with %q reported instead of %s", got, want)
	if o.st.panic || len(o.res) != 2 {
		return
	}
	if !r.At(o.st.has("called"), "through", at, o.st, "the call is not made") {
		return
	}
	r.At(sameVal(o.res[0], o.st.mon["res"]) && sameVal(o.res[1], o.st.mon["err"]), "through", at, o.st, "the call returns %v, not its own result", o.res)
	if e := o.st.mon["oerr"]; e != nil {
		r.At(sameVal(e, o.res[1]), "outcome", at, o.st, "the call is reported with the error %v, it returns %v", e, o.res[1])
	}
}

// ctorVal: the value an argument has, fields being what the constructor set.
func ctorVal(t *Term, ctor map[*types.Var]*Term) *Term {
	if f := fieldOfLoad(t); f != nil && ctor[f] != nil {
		return ctor[f]
	}
	return t.strip()
}

func p26Identity(r *Run, ev *Event, st *State, a []*Term, ctor map[*types.Var]*Term, role int64) {
	v, ok := constInt(ctorVal(a[0], ctor))
	r.At(ok && int64(v) == role, "identity", ev, st, "the observation is reported with role %v", ctorVal(a[0], ctor))
	r.At(isParam(ctorVal(a[1], ctor)) && fieldOfLoad(a[1]) != nil, "identity", ev, st, "the observation is reported with the info %v", a[1])
}

// onMethod runs a method of the interceptor; a promoted one reports nothing.
func onMethod(r *Run, n *types.Named, name string, mon func(x *Exec, st *State, ev *Event), opt func(x *Exec)) bool {
	f := r.P.SSA.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), name)
	if f == nil || f.Synthetic != "" {
		return false
	}
	r.execFn(shortName(f), f, mon, opt)
	return true
}

func p26Stream(r *Run, n *types.Named, ctor map[*types.Var]*Term, role int64) {
	opt := func(x *Exec) {
		x.NoChain, x.Impl, x.Precise = true, nil, true
	}
	for _, m := range []string{"Send", "Recv"} {
		want := "OnStream" + m
		ok := onMethod(r, n, m, func(x *Exec, st *State, ev *Event) {
			if o := isObserver(ev); o != "" {
				r.At(o == want && !st.has("obs"), "once", ev, st, "one %s is reported as %s", m, o)
				st.mon["obs"] = x.TT.boolC(true)
				p26Identity(r, ev, st, ev.Args[1:], ctor, role)
				a := ev.Args[3:]
				if m == "Send" {
					r.At(st.mon["start"] != nil && a[0].any(func(u *Term) bool { return u == st.mon["start"] }), "outcome", ev, st, "the reported duration %v is not that of the call", a[0])
					a = a[1:]
				}
				r.At(st.has("called"), "outcome", ev, st, "the %s is reported before it was done", m)
				if st.mon["err"] != nil {
					r.At(sameVal(a[0], st.mon["err"]), "outcome", ev, st, "the %s is reported with the error %v", m, a[0])
				}
				s := sizeArg(a[1])
				r.At(s != nil && isParam(s), "side", ev, st, "the %s is reported with the size %v", m, a[1])
				return
			}
			p26Pass(r, x, st, ev, m, ctor)
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
				r.At(st.has("obs"), "once", ev, st, "the %s is not reported", m)
			}
		}, opt)
		r.Check(ok, "once", n.Obj().Name()+"."+m, "-", "a stream's "+m+" is not reported", nil)
	}
	reported := false
	ok := onMethod(r, n, "Close", func(x *Exec, st *State, ev *Event) {
		if o := isObserver(ev); o != "" {
			reported = true
			r.At(o == "OnStreamClose" && !st.has("obs"), "once", ev, st, "one close is reported as %s", o)
			st.mon["obs"] = x.TT.boolC(true)
			p26Identity(r, ev, st, ev.Args[1:], ctor, role)
			r.At(st.has("first") || st.has("once") || heldLock(st), "once", ev, st, "a close is reported without an atomic test that it is the first: two concurrent closes are both reported")
			return
		}
		if c := ev.Cond; ev.Kind == EvAssume && c != nil && (c.op == "call" || c.op == "pcall" || c.op == "extract") {
			s := lastName(strings.TrimSuffix(c.aux, ""))
			switch {
			case s == "Swap" && len(c.args) > 0 && c.args[len(c.args)-1].strip().isFalse(): // never set
			case s == "Swap" && !ev.Truth, strings.HasPrefix(s, "CompareAndSwap") && ev.Truth, s == "CAS" && ev.Truth:
				st.mon["first"] = x.TT.boolC(true)
			}
		}
		if ev.Kind == EvAssume && ev.Cond.op == "eq" {
			for i := range ev.Cond.args {
				a, k := ev.Cond.args[i].strip(), ev.Cond.args[1-i]
				switch s := lastName(a.aux); {
				case s == "Swap" && isZeroInt(k) && ev.Truth, s == "Add" && isOneInt(k) && ev.Truth:
					st.mon["first"] = x.TT.boolC(true)
				}
			}
		}
		if ev.Kind == EvCall && (ev.Name == "(*sync.Once).Do" || lastName(ev.Name) == "Once" && strings.Contains(ev.Name, "core.Fuse")) {
			st.mon["once"] = x.TT.boolC(true)
		}
		p26Pass(r, x, st, ev, "Close", ctor)
	}, opt)
	r.Check(ok && reported, "once", n.Obj().Name()+".Close", "-", "a stream's close is never reported", nil)
}

func heldLock(st *State) bool { return len(st.locks) > 0 }

// p26Pass: the method hands its arguments on and returns what it gets.
func p26Pass(r *Run, x *Exec, st *State, ev *Event, m string, ctor map[*types.Var]*Term) {
	inner := ev.Method != nil && ev.Callee == nil && lastName(ev.Name) == m && (strings.Contains(ev.Name, "psrpc.StreamHandler)") || strings.Contains(ev.Name, "psrpc.ClientMultiRPCHandler)"))
	switch {
	case ev.Kind == EvRet && ev.Name == "time.Now" && !st.has("calling"):
		st.mon["start"] = ev.Results[0].strip()
	case ev.Kind == EvCall && inner:
		r.At(!st.has("calling"), "through", ev, st, "one %s is handed on twice", m)
		st.mon["calling"] = x.TT.boolC(true)
		r.At(isParam(ctorVal(ev.Args[0], ctor)), "through", ev, st, "the %s is handed on to %v", m, ev.Args[0])
		for i, a := range ev.Args[1:] {
			r.At(isParam(a), "through", ev, st, "argument %d of %s is handed on as %v", i+1, m, a)
		}
	case ev.Kind == EvRet && inner:
		st.mon["called"] = x.TT.boolC(true)
		if len(ev.Results) == 1 {
			st.mon["err"] = ev.Results[0]
		}
	case ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth:
		r.At(st.has("called"), "through", ev, st, "%s is not handed on", m)
		if len(ev.Results) == 1 && st.mon["err"] != nil {
			r.At(sameVal(ev.Results[0], st.mon["err"]), "through", ev, st, "%s returns %v, not its own result", m, ev.Results[0])
		}
	}
}

func p26Multi(r *Run, n *types.Named, ctor map[*types.Var]*Term, role int64) {
	opt := func(x *Exec) { x.NoChain, x.Impl, x.Precise = true, nil, true }
	var resp, errs, rx, tx *types.Var
	ok := onMethod(r, n, "Close", func(x *Exec, st *State, ev *Event) {
		if o := isObserver(ev); o != "" {
			r.At(o == "OnMultiRequest" && !st.has("obs"), "once", ev, st, "one multi request is reported as %s", o)
			st.mon["obs"] = x.TT.boolC(true)
			p26Identity(r, ev, st, ev.Args[1:], ctor, role)
			a := ev.Args[3:]
			started := a[0].any(func(u *Term) bool { f := fieldOfLoad(u); return f != nil && namedOf(f.Type()) == "time.Time" })
			r.At(started, "outcome", ev, st, "the reported duration %v is not that of the request", a[0])
			resp, errs, rx, tx = fieldOfLoad(a[1]), fieldOfLoad(a[2]), fieldOfLoad(a[3]), fieldOfLoad(a[4])
			r.At(resp != nil && errs != nil && rx != nil && tx != nil, "field", ev, st, "the request is reported with %v", a)
			return
		}
		p26Pass(r, x, st, ev, "Close", ctor)
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			r.At(st.has("obs"), "once", ev, st, "the multi request is not reported")
		}
	}, opt)
	if !r.Check(ok && resp != nil && errs != nil && rx != nil && tx != nil, "once", n.Obj().Name()+".Close", "-", "multi requests are not reported", nil) {
		return
	}
	// grows: the field's value is what it was plus the given amount
	delta := func(x *Exec, st *State, f *types.Var) (lin, bool) {
		for k, v := range st.heap {
			if k.op == "faddr" && k.obj == f {
				l := linOf(v)
				for a := range l.m {
					if fieldOfLoad(a) == f && l.m[a] == 1 {
						delete(l.m, a)
						return l, true
					}
				}
				return l, false
			}
		}
		return lin{m: map[*Term]int64{}}, true
	}
	isSize := func(l lin) bool {
		if l.c != 0 || len(l.m) != 1 {
			return false
		}
		for a, k := range l.m {
			s := sizeArg(a)
			return k == 1 && s != nil && isParam(s)
		}
		return false
	}
	zero := func(l lin) bool { return l.c == 0 && len(l.m) == 0 }
	ok = onMethod(r, n, "Recv", func(x *Exec, st *State, ev *Event) {
		r.At(isObserver(ev) == "", "once", ev, st, "a response is reported as %s", isObserver(ev))
		if ev.Kind == EvAssume && ev.Cond.op == "eq" && (isParam(ev.Cond.args[0]) && ev.Cond.args[1].isNil() || isParam(ev.Cond.args[1]) && ev.Cond.args[0].isNil()) {
			st.mon["failed"] = x.TT.boolC(!ev.Truth)
		}
		p26Pass(r, x, st, ev, "Recv", ctor)
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth {
			return
		}
		d1, ok1 := delta(x, st, resp)
		d2, ok2 := delta(x, st, errs)
		one := func(l lin) bool { return l.c == 1 && len(l.m) == 0 }
		switch {
		case !ok1 || !ok2:
			r.At(false, "counter", ev, st, "the counts of responses and errors do not grow by what is received")
		case st.mon["failed"].isTrue():
			r.At(zero(d1) && one(d2), "counter", ev, st, "an error adds %d to the responses and %d to the errors", d1.c, d2.c)
		case st.mon["failed"].isFalse():
			r.At(one(d1) && zero(d2), "counter", ev, st, "a response adds %d to the responses and %d to the errors", d1.c, d2.c)
		default:
			r.At(false, "counter", ev, st, "responses and errors are not told apart")
		}
		d3, ok3 := delta(x, st, rx)
		r.At(ok3 && isSize(d3), "counter", ev, st, "a response does not add its size to the bytes received")
		d4, ok4 := delta(x, st, tx)
		r.At(ok4 && zero(d4), "counter", ev, st, "a response changes the bytes sent")
	}, opt)
	r.Check(ok, "counter", n.Obj().Name()+".Recv", "-", "responses are not counted", nil)
	ok = onMethod(r, n, "Send", func(x *Exec, st *State, ev *Event) {
		r.At(isObserver(ev) == "", "once", ev, st, "sending is reported as %s", isObserver(ev))
		p26Pass(r, x, st, ev, "Send", ctor)
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth {
			return
		}
		d, _ := delta(x, st, tx)
		r.At(isSize(d), "counter", ev, st, "sending does not add the request's size to the bytes sent")
		for _, f := range []*types.Var{resp, errs, rx} {
			d, ok := delta(x, st, f)
			r.At(ok && zero(d), "counter", ev, st, "sending changes %s", f.Name())
		}
	}, opt)
	r.Check(ok, "counter", n.Obj().Name()+".Send", "-", "the request's size is not counted", nil)
}

// p26Closes: the collector of a multi request closes its handler exactly once.
func p26Closes(r *Run) {
	r.exec("pkg/client.RequestMulti", func(x *Exec, st *State, ev *Event) {
		if !st.has("#go") {
			return
		}
		own := ev.Kind == EvEnter && strings.HasSuffix(ev.Name, "multiRPC).Close")
		if own || ev.Kind == EvCall && ev.Method != nil && strings.HasSuffix(ev.Name, "psrpc.ClientMultiRPCHandler).Close") {
			r.At(!st.has("mclosed"), "multi-close", ev, st, "one multi request is closed twice: it is reported twice")
			st.mon["mclosed"] = x.TT.boolC(true)
		}
		if ev.Kind == EvReturn && ev.Name == "go" && !ev.Truth {
			r.At(st.has("mclosed"), "multi-close", ev, st, "a multi request can end without being closed: it is never reported")
		}
	}, func(x *Exec) { x.NoChain, x.Impl = true, nil })
	r.Min("multi-close", 1)
}
