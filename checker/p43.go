package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P43", "path analysis over SSA of the error constructors, accessors and classifiers: every field of the error built is a function of the argument it stands for (value numbers), details are converted and kept one by one, unwrapping yields the cause and the code, a code is reported only on paths on which the error, or something it wraps, was found to have it, a psrpc code before a gRPC status; the predefined errors' codes are read from the package's initialisation", p43)
}

// errField is the field of an error type that holds its cause, code or details.
func errField(t types.Type, is func(types.Type) bool) string {
	s, ok := derefNamed(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if is(s.Field(i).Type()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
func isCodeType(t types.Type) bool  { return namedOf(t) == "psrpc.ErrorCode" }
func isAnyList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(namedOf(derefNamed(s.Elem())), "anypb.Any")
}

// predefined: the documented code of each error the package defines.
var predefined = map[string]string{
	"ErrRequestCanceled": "canceled", "ErrRequestTimedOut": "deadline_exceeded", "ErrNoResponse": "unavailable",
	"ErrUnimplemented": "unimplemented", "ErrStreamEOF": "unavailable", "ErrClientClosed": "canceled",
	"ErrServerClosed": "canceled", "ErrStreamClosed": "canceled", "ErrSlowConsumer": "unavailable",
}

func p43(r *Run) {
	it := r.P.Named("", "Error")
	if it == nil {
		r.Fail("anchor", "Error", "-", "the error interface does not exist", nil)
		return
	}
	for _, t := range r.P.implTypes(it, "") {
		c, k, d := errField(t, isErrorType), errField(t, isCodeType), errField(t, isAnyList)
		if c != "" && k != "" && d != "" {
			p43Type(r, t, c, k, d)
		}
	}
	p43Ctors(r)
	p43Classify(r)
	p43Predefined(r)
	for rule, n := range map[string]int{"built-code": 3, "built-cause": 3, "built-details": 2, "unwraps": 2, "text": 1, "own-details": 1, "classified": 1, "predefined": 9} {
		r.Min(rule, n)
	}
}

// p43Type: what can be read back from an error is what it was built with.
func p43Type(r *Run, t types.Type, cause, code, details string) {
	field := func(v *Term, name string) bool {
		return v != nil && v.any(func(u *Term) bool {
			o, ok := u.obj.(*types.Var)
			return ok && o.IsField() && o.Name() == name
		})
	}
	visit := func(m string, f func(x *Exec, st *State, ev *Event)) bool {
		fn := r.P.methodOf(t, m)
		if fn == nil || len(fn.Blocks) == 0 {
			return false
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) > 0 {
				f(x, st, ev)
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return f.Pkg != fn.Pkg }
		})
		return true
	}
	if !visit("Error", func(x *Exec, st *State, ev *Event) {
		r.At(field(ev.Results[0], cause), "text", ev, st, "the error's text is not its cause's but %v", ev.Results[0])
	}) {
		r.OK("text", "promoted from the embedded cause")
	}
	visit("DetailsProto", func(x *Exec, st *State, ev *Event) {
		ok := field(ev.Results[0], details) || ev.Results[0].any(func(u *Term) bool { return u.op == "param" || u.op == "alloc" && u.obj != nil })
		r.At(ok && !ev.Results[0].isNil(), "own-details", ev, st, "the details returned are not the error's own but %v", ev.Results[0])
	})
	toCause, is := false, r.P.methodOf(t, "Is") != nil
	visit("Unwrap", func(x *Exec, st *State, ev *Event) {
		res := ev.Results[0]
		els := []*Term{res}
		if isSliceType(res.typ) || res.typ == nil {
			if l, ok := elemsOf(st, res); ok {
				els = l
			}
		}
		a, b := false, false
		for _, e := range els {
			a = a || field(e, cause)
			b = b || field(e, code)
		}
		if len(els) == 1 && els[0] == res && isSliceType(res.typ) {
			// a list whose elements are not known
			a, b = true, true
		}
		toCause = true
		r.At(a, "unwraps", ev, st, "unwrapping does not yield the cause")
		if !is {
			r.At(b, "unwraps", ev, st, "unwrapping does not yield the code")
		}
	})
	r.Check(toCause, "unwraps", namedOf(derefNamed(t)), "errors.go", "the cause of an error cannot be found by errors.Is or errors.As: there is no Unwrap method", nil)
}

func p43Ctors(r *Run) {
	fields := map[string][3]string{} // type -> cause, code, details
	if it := r.P.Named("", "Error"); it != nil {
		for _, t := range r.P.implTypes(it, "") {
			c, k, d := errField(t, isErrorType), errField(t, isCodeType), errField(t, isAnyList)
			if c != "" && k != "" && d != "" {
				fields[namedOf(derefNamed(t))] = [3]string{c, k, d}
			}
		}
	}
	r.Check(len(fields) > 0, "anchor", "Error", "errors.go", "no error type keeps a cause, a code and details", nil)
	isP := func(t *Term, i int, fn *ssa.Function) bool {
		t = unAssert(t)
		for t != nil && len(t.args) == 1 && (t.op == "conv" || t.op == "assert" || t.op == "iface") {
			t = t.args[0]
		}
		return t != nil && t.op == "param" && i < len(fn.Params) && t.aux == fn.Params[i].Name()
	}
	from := func(t *Term, i int, fn *ssa.Function) bool {
		return t != nil && t.any(func(u *Term) bool { return isP(u, i, fn) })
	}
	for _, c := range []struct {
		name                 string
		code, cause, details int
	}{{"NewError", 0, 1, 2}, {"NewErrorf", 0, 1, -1}, {"NewErrorFromResponse", 0, 1, 2}} {
		fn := r.P.rootFn(c.name)
		if fn == nil {
			r.Fail("anchor", c.name, "-", "the constructor does not exist", nil)
			continue
		}
		r.execFn(c.name, fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvRet:
				if strings.HasSuffix(ev.Name, "anypb.New") && len(ev.Results) == 2 {
					st.mon["packed"] = ev.Results[0]
					st.mon["packedErr"] = ev.Results[1]
				}
			case EvNext, EvPhi:
			case EvAppend:
				if p := st.mon["packed"]; p != nil {
					for _, a := range ev.Args {
						if a != nil && a.any(func(u *Term) bool { return u == p }) || st.mon["boxed"] == p {
							st.mon["kept"] = p
						}
					}
					if st.mon["kept"] == p && st.has("iter") {
						r.At(!ev.Args[0].isNil() && ev.Args[0].op != "mkslice", "built-details", ev, st, "the details converted before are dropped")
					}
				}
			case EvStore:
				if p := st.mon["packed"]; p != nil && ev.Val != nil && ev.Val.strip() == p.strip() {
					if ev.Addr.op == "iaddr" && len(ev.Addr.args) == 2 && baseAddr(ev.Addr).strip().op == "alloc" {
						st.mon["boxed"] = p // the argument of an append, or a list of its own
					} else {
						st.mon["kept"] = p
					}
				}
			case EvBack:
				p := st.mon["packed"]
				if p == nil {
					return
				}
				if x.isNilT(st, st.mon["packedErr"]) == 1 {
					r.At(st.mon["kept"] == p, "built-details", ev, st, "a detail that was converted is not kept")
				}
				r.At(!leavesEarly(ev.Loop), "built-details", ev, st, "the details after one may be left out")
				if st.mon["kept"] == p {
					st.mon["iter"] = x.TT.boolC(true)
				}
				delete(st.mon, "kept")
				delete(st.mon, "boxed")
				delete(st.mon, "packed")
				delete(st.mon, "packedErr")
			case EvReturn:
				if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
					return
				}
				e := unAssert(ev.Results[0]).strip()
				var fs [3]string
				for _, f := range fields {
					fs = f
				}
				if f, ok := fields[namedOf(derefNamed(e.typ))]; ok && e.typ != nil {
					fs = f
				}
				cause, code, det := x.builtField(st, e, fs[0]), x.builtField(st, e, fs[1]), x.builtField(st, e, fs[2])
				if cause == nil || code == nil {
					r.At(false, "built-code", ev, st, "the error returned, %v, is not one built here", e)
					return
				}
				ok := isP(code, c.code, fn)
				if !ok && isConstStr(code, "unknown") {
					// only for a code that is empty
					ok = x.emptyStr(st, x.paramOf(fn, c.code)) == 1
				}
				r.At(ok, "built-code", ev, st, "the error's code is %v, not the one given", code)
				if c.name == "NewErrorFromResponse" && isP(code, c.code, fn) {
					r.At(x.emptyStr(st, x.paramOf(fn, c.code)) == 0, "built-code", ev, st, "an error received without a code gets no code: it looks like a success")
				}
				ok = isP(cause, c.cause, fn)
				if c.name != "NewError" {
					f := callOf(unAssert(cause), "errors.New", "fmt.Errorf")
					ok = f != nil && len(f.args) > 0 && from(f.args[0], c.cause, fn)
					if c.name == "NewErrorf" && ok {
						ok = len(f.args) == 2 && (from(f.args[1], c.cause+1, fn) || f.args[1].strip().op != "nil" && !f.args[1].isNil())
					}
				} else if !ok {
					f := callOf(unAssert(cause), "fmt.Errorf")
					ok = f != nil && len(f.args) > 1 && strings.Contains(f.args[0].aux, "%w")
				}
				r.At(ok, "built-cause", ev, st, "the error's cause is %v, not the one given", cause)
				if c.details >= 0 {
					switch {
					case c.name == "NewErrorFromResponse":
						r.At(from(det, c.details, fn), "built-details", ev, st, "the error's details are %v, not those given", det)
					case st.has("iter") && det.isNil():
						r.At(false, "built-details", ev, st, "the error has no details although some were given")
					case st.has("packed") && x.isNilT(st, st.mon["packedErr"]) == 1:
						r.At(st.mon["kept"] == st.mon["packed"], "built-details", ev, st, "a detail that was converted is not kept")
					}
				}
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return f.Pkg != fn.Pkg }
		})
	}
}

// p43Classify: a code is only reported when the error has it.
func p43Classify(r *Run) {
	fn := r.P.rootFn("GetErrorCode")
	if fn == nil {
		r.Fail("anchor", "GetErrorCode", "-", "the classifier does not exist", nil)
		return
	}
	r.execFn("GetErrorCode", fn, func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 2 {
			return
		}
		code, known := ev.Results[0], ev.Results[1]
		err := x.paramOf(fn, 0)
		as := x.truth(st, x.asTerm(err))
		f := x.TT.mk("pcall", "google.golang.org/grpc/status.FromError", nil, nil, nil, err)
		sok := x.truth(st, x.TT.mk("extract", "1", nil, nil, nil, f))
		if k := x.truth(st, known); k == -1 && known.any(func(u *Term) bool {
			return lastName(u.aux) == "Code" || callOf(u, "psrpc.ErrorCodeFromGRPC") != nil
		}) {
			r.At(false, "classified", ev, st, "whether the error has a code is made to depend on which: %v", known)
		}
		if x.truth(st, known) == 0 {
			r.At(as == 0, "classified", ev, st, "an error that wraps one with a code is reported as having none")
			r.At(sok == 0 || x.isNilT(st, x.TT.mk("extract", "0", nil, nil, nil, f)) == 1, "classified", ev, st, "an error that is a gRPC status is reported as having no code")
			return
		}
		if c := callOf(code, "(psrpc.Error).Code"); c != nil {
			u := unAssert(c.args[0])
			r.At(as == 1 && u.op == "as" && u.args[0] == err, "classified", ev, st, "the code reported is %v: it is not the code of the error given or of what it wraps", code)
			return
		}
		if c := callOf(code, "psrpc.ErrorCodeFromGRPC"); c != nil {
			r.At(as == 0, "classified", ev, st, "a psrpc error's own code is replaced by that of its gRPC status")
			r.At(sok == 1 && c.args[0].contains(f), "classified", ev, st, "the code reported is %v: it is not that of the status of the error given", code)
			return
		}
		r.At(false, "classified", ev, st, "the code reported is %v", code)
	}, func(x *Exec) {
		x.Precise = true
		x.Opaque = func(f fnT) bool { return f.Pkg != fn.Pkg || f.Name() == "ErrorCodeFromGRPC" }
	})
}

// p43Predefined: the package's own errors have their documented codes.
func p43Predefined(r *Run, only ...string) {
	root := r.P.Pkg("")
	if root == nil || root.Func("init") == nil {
		r.Fail("anchor", "psrpc", "-", "the root package does not exist", nil)
		return
	}
	got := map[string]*Term{}
	x := NewExec(r.P, monFunc(func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Addr.op == "global" {
			if g, ok := ev.Addr.obj.(*ssa.Global); ok && predefined[g.Name()] != "" {
				got[g.Name()] = ev.Val
			}
		}
	}))
	x.Opaque = func(f fnT) bool { return true }
	x.Budget = 200000
	x.Root(root.Func("init"), nil)
	for name, code := range predefined {
		if len(only) > 0 && !slices.Contains(only, name) {
			continue
		}
		v := got[name]
		if v == nil {
			r.Check(root.Var(name) != nil, "predefined", name, "errors.go", "the error is not defined", nil)
			continue
		}
		c := callOf(v, "psrpc.NewError", "psrpc.NewErrorf", "psrpc.NewErrorFromResponse")
		if c == nil || !c.args[0].isConst() {
			r.OK("predefined", name+" (not built by a constructor from a constant code)")
			continue
		}
		r.Check(isConstStr(c.args[0], code), "predefined", name, "errors.go", name+" has the code "+c.args[0].String()+", documented as "+code, nil)
		if name == "ErrStreamEOF" {
			wraps := callOf(v, "psrpc.NewError") != nil || len(c.args) > 1 && c.args[1].isConst() && strings.Contains(c.args[1].aux, "%w")
			r.Check(wraps && c.args[len(c.args)-1] != nil, "predefined", name, "errors.go", "the end of a stream does not wrap io.EOF", nil)
		}
	}
}

// paramOf is the value a root function is given.
func (x *Exec) paramOf(fn *ssa.Function, i int) *Term {
	return x.TT.mk("param", fn.Params[i].Name(), fn.Params[i], fn.Params[i].Type(), nil)
}

// errorFields are the fields in which the package's error type keeps its cause, code and details.
func (p *Program) errorFields() (cause, code, details string) {
	if it := p.Named("", "Error"); it != nil {
		for _, t := range p.implTypes(it, "") {
			c, k, d := errField(t, isErrorType), errField(t, isCodeType), errField(t, isAnyList)
			if c != "" && k != "" && d != "" {
				return c, k, d
			}
		}
	}
	return "error", "code", "details"
}

// builtField is a field of an error value built on this path.
func (x *Exec) builtField(st *State, e *Term, name string) *Term {
	if e.op == "structval" {
		for i, n := range strings.Split(e.aux, ",") {
			if n == name && i < len(e.args) {
				return e.args[i]
			}
		}
	}
	return x.peek(st, e, name)
}

// emptyStr: 1 if the string is known to be empty, 0 if it is known not to be.
func (x *Exec) emptyStr(st *State, t *Term) int {
	if v := x.truth(st, x.eq(st, t, x.TT.str(""))); v != -1 {
		return v
	}
	for f, v := range st.facts {
		l := func(u *Term) bool { return u.op == "len" && u.args[0].strip() == t.strip() }
		switch {
		case f.op == "eq" && (l(f.args[0]) && isZeroInt(f.args[1]) || l(f.args[1]) && isZeroInt(f.args[0])):
			if v {
				return 1
			}
			return 0
		case f.op == "lt" && isZeroInt(f.args[0]) && l(f.args[1]), f.op == "lt" && l(f.args[0]) && isOneInt(f.args[1]):
			if v == (f.args[0].op == "len") {
				return 1
			}
			return 0
		}
	}
	return -1
}
