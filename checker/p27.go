package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P27", "path-sensitive dataflow over SSA from the interceptor the recovery option builds, with a panic injected at every call into the rest of the chain: no abstract path leaves the interceptor panicking (a recover counts only in the deferred function itself), every panicking path returns a new error whose code is the constant internal, and every other path returns the handler's own result and error", p27)
}

// recovered: t is what recover() returned.
func recovered(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool { return u.op == "recovered" })
}

func p27(r *Run) {
	r.exec("pkg/middleware.WithServerRecovery", func(x *Exec, st *State, ev *Event) {
		if st.has("run") {
			p27On(r, x, st, ev)
			return
		}
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
			return
		}
		t := ev.Results[0].strip()
		fn, _ := t.obj.(*ssa.Function)
		if !r.At(fn != nil, "contained", ev, st, "the interceptor is %v", t) {
			return
		}
		s := st.clone()
		s.mon["run"] = x.TT.boolC(true)
		n := 0
		for _, o := range x.runClosure(s, t, ev.Instr) {
			n++
			if o.st.panic {
				r.At(!o.st.has("panicked"), "contained", ev, o.st, "a panic in the handler leaves the interceptor")
				r.At(o.st.has("panicked"), "contained", ev, o.st, "the interceptor panics of its own")
				continue
			}
			if len(o.res) != 2 {
				continue
			}
			if !r.At(o.st.has("calling"), "unchanged", ev, o.st, "the interceptor returns without calling the handler") {
				continue
			}
			if !o.st.has("panicked") {
				r.At(sameVal(o.res[0], o.st.mon["res"]) && sameVal(o.res[1], o.st.mon["err"]), "unchanged", ev, o.st, "without a panic the interceptor returns %v, not the handler's result", o.res)
				continue
			}
			p27Error(r, x, o, ev)
		}
		r.At(n > 0, "contained", ev, st, "the interceptor does not return")
	}, func(x *Exec) { x.NoChain, x.Impl, x.Precise, x.MayPanic = true, nil, true, userPanics })
	for _, k := range []string{"contained", "unchanged", "internal"} {
		r.Min(k, 1)
	}
}

func p27Error(r *Run, x *Exec, o *outcome, at *Event) {
	e := o.res[1]
	for e.strip() != nil && e.strip().op == "iface" {
		e = e.strip().args[0]
	}
	e = e.strip()
	if e.isNil() || e.op == "zero" {
		r.At(false, "internal", at, o.st, "after a panic the error is nil: the caller is told it succeeded")
		return
	}
	if c := callOf(e, "psrpc.NewErrorf", "psrpc.NewError", "psrpc.NewErrorFromResponse"); c != nil {
		code, _ := constStr(c.args[0])
		r.At(code == "internal", "internal", at, o.st, "after a panic the error has code %v", c.args[0])
		return
	}
	if e.op == "alloc" {
		f := codeFieldOf(e.typ)
		for k, v := range o.st.heap {
			if f != nil && k.op == "faddr" && k.obj == f && k.args[0].strip() == e {
				code, _ := constStr(v)
				r.At(code == "internal", "internal", at, o.st, "after a panic the error has code %v", v)
				return
			}
		}
	}
	r.At(false, "internal", at, o.st, "after a panic the error is %v, not one with code internal", e)
}

func p27On(r *Run, x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvPanic:
		st.mon["panicked"] = x.TT.boolC(true)
	case EvType:
		if in, ok := ev.Instr.(*ssa.TypeAssert); ok && recovered(ev.Val) {
			r.At(in.CommaOk, "contained", ev, st, "the panic's value is asserted to be a %v: another value panics again", in.AssertedType)
		}
	case EvRet:
		if isNext(ev) {
			st.mon["res"], st.mon["err"] = ev.Results[0], ev.Results[1]
		}
	case EvCall:
		if ev.Name == "psrpc.NewError" && len(ev.Args) > 1 {
			r.At(!ev.Args[1].isNil() && ev.Args[1].strip().op != "zero", "contained", ev, st, "NewError is given no error: it panics")
		}
		if ev.Name == "(error).Error" || strings.HasSuffix(ev.Name, "error).Error") {
			r.At(len(ev.Args) == 0 || !ev.Args[0].isNil(), "contained", ev, st, "Error is called on nil")
		}
		if isNext(ev) {
			r.At(!st.has("calling"), "unchanged", ev, st, "the handler is called twice")
			st.mon["calling"] = x.TT.boolC(true)
			for i, a := range ev.Args {
				r.At(isParam(a) && strings.HasPrefix(a.strip().aux, "·"), "unchanged", ev, st, "the handler is called with %v instead of argument %d", a, i+1)
			}
		}
	}
}
