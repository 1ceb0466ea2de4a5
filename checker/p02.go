package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "table extraction by constant propagation: each mapping function is evaluated symbolically for every defined code and for an undefined one, and compared with the documented table; an error's conversions are shown to use its own code, message and details", p02)
}

// codeTable is the documented mapping: code -> HTTP status, gRPC code, Twirp code.
var codeTable = map[string]struct {
	http, grpc int
	twirp      string
}{
	"":                      {200, 0, ""},
	"canceled":              {503, 1, "canceled"},
	"malformed_request":     {400, 3, "malformed"},
	"malformed_result":      {500, 13, "malformed"},
	"deadline_exceeded":     {503, 4, "deadline_exceeded"},
	"unavailable":           {503, 14, "unavailable"},
	"unknown":               {500, 2, "unknown"},
	"invalid_argument":      {400, 3, "invalid_argument"},
	"not_found":             {404, 5, "not_found"},
	"not_acceptable":        {406, 2, "unknown"},
	"already_exists":        {409, 6, "already_exists"},
	"permission_denied":     {403, 7, "permission_denied"},
	"resource_exhausted":    {429, 8, "resource_exhausted"},
	"failed_precondition":   {412, 9, "failed_precondition"},
	"aborted":               {409, 10, "aborted"},
	"out_of_range":          {416, 11, "out_of_range"},
	"unimplemented":         {501, 12, "unimplemented"},
	"internal":              {500, 13, "internal"},
	"data_loss":             {500, 15, "data_loss"},
	"unauthenticated":       {401, 16, "unauthenticated"},
	"unprocessable_entity":  {422, 2, "unknown"},
	"upstream_server_error": {502, 13, "internal"},
	"upstream_client_error": {424, 3, "invalid_argument"},
}

// grpcCanonical: the code each canonical gRPC code converts to.
var grpcCanonical = []string{"", "canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "already_exists", "permission_denied", "resource_exhausted", "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "data_loss", "unauthenticated"}

// globalMaps evaluates a package's initialisation: global -> key -> value, for maps of constants.
func (p *Program) globalMaps(pkg *ssa.Package) map[*ssa.Global]map[string]*Term {
	out := map[*ssa.Global]map[string]*Term{}
	initFn := pkg.Func("init")
	if initFn == nil {
		return out
	}
	upd := map[*Term]map[string]*Term{}
	x := NewExec(p, monFunc(func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvMapUpd:
			if ev.Key.isConst() {
				if upd[ev.Addr] == nil {
					upd[ev.Addr] = map[string]*Term{}
				}
				upd[ev.Addr][ev.Key.aux] = ev.Val
			}
		case EvStore:
			if ev.Addr.op == "global" {
				if g, ok := ev.Addr.obj.(*ssa.Global); ok && upd[ev.Val] != nil {
					out[g] = upd[ev.Val]
				}
			}
		}
	}))
	x.Opaque = func(f fnT) bool { return true }
	x.Budget = 200000
	x.Root(initFn, nil)
	return out
}

// evalConst evaluates fn for a constant first parameter; the result on each path that is feasible.
func (r *Run) evalConst(name string, fn *ssa.Function, arg constant.Value, maps map[*ssa.Global]map[string]*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	lookup := func(t *Term) (map[string]*Term, string, bool) {
		m := t.args[0].strip()
		for m != nil && (m.op == "load" || m.op == "sload") {
			m = m.args[0]
		}
		if m == nil || m.op != "global" || !t.args[1].isConst() {
			return nil, "", false
		}
		g, _ := m.obj.(*ssa.Global)
		if maps[g] == nil {
			return nil, "", false
		}
		return maps[g], t.args[1].aux, true
	}
	r.execFn(name, fn, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvAssume:
			if ev.Cond.op == "lookupok" {
				if m, k, ok := lookup(ev.Cond); ok {
					_, has := m[k]
					if has != ev.Truth {
						st.mon["dead"] = ev.Cond
					}
				}
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth || st.has("dead") || len(ev.Results) == 0 {
				return
			}
			v := ev.Results[0].strip()
			if v.op == "lookup" {
				if m, k, ok := lookup(v); ok {
					if w := m[k]; w != nil {
						v = w.strip()
					} else {
						v = x.TT.mk("zero", "", nil, v.typ, nil)
					}
				}
			}
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}, func(x *Exec) {
		x.Precise = true
		x.Opaque = func(f fnT) bool { return f.Pkg == nil || f.Pkg != fn.Pkg }
		x.Init = func(st *State, args []*Term) { args[0] = x.TT.constVal(arg, fn.Params[0].Type()) }
	})
	return out
}

func p02(r *Run) {
	root := r.P.Pkg("")
	if root == nil {
		r.Fail("anchor", "psrpc", "-", "the root package does not exist", nil)
		return
	}
	ec := r.P.Named("", "ErrorCode")
	if ec == nil {
		r.Fail("anchor", "ErrorCode", "-", "the error code type does not exist", nil)
		return
	}
	// the defined codes
	codes := map[string]string{}
	sc := root.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), ec) {
			codes[constant.StringVal(c.Val())] = n
		}
	}
	for k := range codeTable {
		r.Check(codes[k] != "" || k == "", "defined", strconv.Quote(k), "errors.go", "the documented code "+strconv.Quote(k)+" is not defined", nil)
	}
	maps := r.P.globalMaps(root)
	keys := []string{}
	for k := range codeTable {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	decide := func(rule, construct string, fn *ssa.Function, got []*Term, want constant.Value) {
		for _, g := range got {
			c := g.constant()
			if c == nil && g.op == "zero" {
				if want.Kind() == constant.Int {
					c = constant.MakeInt64(0)
				} else {
					c = constant.MakeString("")
				}
			}
			if c == nil {
				r.OK(rule, construct+" (not resolved to a constant)")
				r.notes = append(r.notes, fmt.Sprintf("%s: %s not resolved to a constant: %v", rule, construct, g))
				continue
			}
			r.Check(constant.Compare(c, token.EQL, want), rule, construct, r.P.Pos(fn.Pos()), fmt.Sprintf("%s is %v, documented as %v", construct, c, want), nil)
		}
	}
	for _, m := range []struct {
		name string
		want func(k string) constant.Value
	}{
		{"ToHTTP", func(k string) constant.Value { return constant.MakeInt64(int64(codeTable[k].http)) }},
		{"ToGRPC", func(k string) constant.Value { return constant.MakeInt64(int64(codeTable[k].grpc)) }},
		{"ToTwirp", func(k string) constant.Value { return constant.MakeString(codeTable[k].twirp) }},
	} {
		fn := r.P.Method("", "ErrorCode", m.name)
		if fn == nil {
			r.Fail("anchor", "ErrorCode."+m.name, "-", "the conversion does not exist", nil)
			continue
		}
		for _, k := range append(keys, "some_undefined_code") {
			want := k
			if _, ok := codeTable[k]; !ok {
				want = "unknown"
			}
			decide(m.name, fmt.Sprintf("ErrorCode(%q).%s()", k, m.name), fn, r.evalConst("ErrorCode."+m.name, fn, constant.MakeString(k), maps), m.want(want))
		}
		r.Min(m.name, 20)
	}
	if fn := r.P.rootFn("ErrorCodeFromGRPC"); fn == nil {
		r.Fail("anchor", "ErrorCodeFromGRPC", "-", "the conversion does not exist", nil)
	} else {
		for i := 0; i <= 18; i++ {
			want := "unknown"
			if i < len(grpcCanonical) {
				want = grpcCanonical[i]
			}
			decide("FromGRPC", fmt.Sprintf("ErrorCodeFromGRPC(%d)", i), fn, r.evalConst("ErrorCodeFromGRPC", fn, constant.MakeInt64(int64(i)), maps), constant.MakeString(want))
		}
		r.Min("FromGRPC", 17)
	}
	p02Errors(r)
}

// p02Errors: the conversions of an error are those of its own code.
func p02Errors(r *Run) {
	it := r.P.Named("", "Error")
	if it == nil {
		r.Fail("anchor", "Error", "-", "the error interface does not exist", nil)
		return
	}
	for _, t := range r.P.implTypes(it, "") {
		codeVar := codeFieldOf(t)
		if codeVar == nil {
			continue
		}
		own := func(t *Term) bool {
			return t.any(func(u *Term) bool {
				return loadOf(u, codeVar) || (u.op == "field" || u.op == "peek") && u.obj == codeVar || fieldReadVar(u, codeVar)
			})
		}
		each := func(m string, f func(x *Exec, st *State, ev *Event)) {
			fn := r.P.methodOf(t, m)
			if fn == nil {
				return
			}
			r.execFn(shortName(fn), fn, f, func(x *Exec) {
				x.Opaque = func(f fnT) bool {
					return f.Pkg != fn.Pkg || f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == "psrpc.ErrorCode"
				}
			})
		}
		conv := func(v *Term, name string) bool {
			ok := false
			v.any(func(u *Term) bool {
				if (u.op == "call" || u.op == "pcall") && lastName(u.aux) == name && len(u.args) > 0 && own(u.args[0]) {
					ok = true
				}
				return ok
			})
			return ok
		}
		each("ToHttp", func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvReturn && !ev.Truth {
				r.At(conv(ev.Results[0], "ToHTTP"), "own-code", ev, st, "the HTTP status is not that of the error's own code: %v", ev.Results[0])
			}
		})
		each("Code", func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvReturn && !ev.Truth {
				r.At(own(ev.Results[0]), "own-code", ev, st, "Code does not return the error's own code: %v", ev.Results[0])
			}
		})
		each("GRPCStatus", func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvCall || ev.Callee != nil && ev.Callee.Pkg != nil && ev.Callee.Pkg.Pkg.Path() == "github.com/livekit/psrpc" {
				return
			}
			switch lastName(ev.Name) {
			case "FromProto":
				s := ev.Args[0].strip()
				r.At(conv(x.peek(st, s, "Code"), "ToGRPC"), "own-code", ev, st, "the gRPC status code is not that of the error's own code: %v", x.peek(st, s, "Code"))
				msg := x.peek(st, s, "Message")
				r.At(isErrorText(msg) != nil || msg.any(func(u *Term) bool { return u.op == "call" || u.op == "pcall" || u.op == "param" }), "own-code", ev, st, "the gRPC status does not carry the error's message: %v", msg)
				det := x.peek(st, s, "Details").strip()
				r.At(!det.isNil() && det.op != "zero", "own-code", ev, st, "the gRPC status does not carry the error's details")
			case "New", "Newf":
				r.At(conv(ev.Args[0], "ToGRPC"), "own-code", ev, st, "the gRPC status code is not that of the error's own code: %v", ev.Args[0])
			}
		})
		each("As", func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvCall && ev.Name == "github.com/twitchtv/twirp.NewError" {
				r.At(conv(ev.Args[0], "ToTwirp"), "own-code", ev, st, "the Twirp code is not that of the error's own code: %v", ev.Args[0])
				r.At(!ev.Args[1].isConst(), "own-code", ev, st, "the Twirp error does not carry the error's message")
			}
		})
	}
	r.Min("own-code", 4)
}

func codeFieldOf(t types.Type) *types.Var {
	s, ok := derefNamed(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if namedOf(s.Field(i).Type()) == "psrpc.ErrorCode" {
			return s.Field(i)
		}
	}
	return nil
}

func fieldReadVar(u *Term, f *types.Var) bool {
	if v, ok := u.obj.(*types.Var); ok && v == f {
		return true
	}
	return false
}

func lastName(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return s[i+1:]
		}
	}
	return s
}
