package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// Roles: what a call, a value or a place is in terms of psrpc, found by type rather than by name
// ---------------------------------------------------------------------------------------------

const pubName = "(internal/bus.MessageBus).Publish"

// wireMsg returns the wire message type ("Request", "Response", "ClaimRequest", "ClaimResponse", "Stream") of a
// message handed to the bus, and its pointer.
func wireMsg(t *Term) (string, *Term) {
	for t != nil && t.op == "conv" {
		t = t.args[0]
	}
	if t == nil || t.op != "iface" {
		return "", t
	}
	dt, _ := t.obj.(types.Type)
	n := namedOf(derefNamed(dt))
	if strings.HasPrefix(n, "internal.") {
		return strings.TrimPrefix(n, "internal."), t.strip()
	}
	return "", t.strip()
}

func derefNamed(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return types.Unalias(t)
}

// publish recognises a message-bus publish: kind of wire message, the message pointer, channel, context.
type pubInfo struct {
	kind    string
	msg     *Term
	channel *Term
	ctx     *Term
	bus     *Term
}

func publishOf(ev *Event) *pubInfo {
	if ev.Name != pubName || len(ev.Args) < 4 {
		return nil
	}
	k, m := wireMsg(ev.Args[3])
	return &pubInfo{kind: k, msg: m, channel: ev.Args[2], ctx: ev.Args[1], bus: ev.Args[0]}
}

// subscribeOf recognises bus.Subscribe / bus.SubscribeQueue (generic helpers) – queue, channel, wire type.
type subInfo struct {
	queue   bool
	kind    string
	channel *Term
	bus     *Term
	size    *Term
}

func subscribeOf(ev *Event) *subInfo {
	if ev.Callee == nil {
		return nil
	}
	n := ev.Name
	if n != "internal/bus.Subscribe" && n != "internal/bus.SubscribeQueue" || len(ev.Args) < 4 {
		return nil
	}
	s := &subInfo{queue: n == "internal/bus.SubscribeQueue", bus: ev.Args[1], channel: ev.Args[2], size: ev.Args[3]}
	if cc := callCommon(ev.Instr); cc != nil {
		if rt := cc.Signature().Results(); rt.Len() > 0 {
			if nt, ok := types.Unalias(rt.At(0).Type()).(*types.Named); ok && nt.TypeArgs().Len() == 1 {
				at := nt.TypeArgs().At(0)
				nm := namedOf(derefNamed(at))
				if strings.HasPrefix(nm, "internal.") {
					s.kind = strings.TrimPrefix(nm, "internal.")
				} else {
					s.kind = "payload"
				}
			}
		}
	}
	return s
}

// structFieldVar finds field name of the struct behind t.
func structFieldVar(t types.Type, name string) *types.Var {
	s, ok := derefNamed(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Origin()
		}
	}
	return nil
}

// peek reads a field of the object ptr points to without counting as an access.
func (x *Exec) peek(st *State, ptr *Term, name string) *Term {
	ptr = ptr.strip()
	if ptr == nil || ptr.typ == nil {
		return x.TT.mk("peek", name, nil, nil, nil, ptr)
	}
	f := structFieldVar(ptr.typ, name)
	if f == nil {
		return x.TT.mk("peek", name, nil, nil, nil, ptr)
	}
	ad := x.faddr(ptr, f, types.NewPointer(f.Type()))
	if v, ok := st.heap[ad]; ok {
		return v
	}
	if containerValue(st, ptr) != nil {
		return x.fieldThrough(st, ptr, f)
	}
	if ptr.op == "alloc" {
		return x.zero(f.Type())
	}
	if x.stableAddr(ad) {
		return x.sload(ad, f.Type())
	}
	return x.TT.mk("peek", name, f, f.Type(), nil, ptr)
}

// same: the two terms denote the same value, or two reads of the same location.
func same(a, b *Term) bool {
	a, b = a.strip(), b.strip()
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	isLoad := func(t *Term) bool { return t.op == "load" || t.op == "sload" }
	if isLoad(a) && isLoad(b) {
		return sameAddr(a.args[0], b.args[0])
	}
	return false
}

func sameAddr(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "faddr" && b.op == "faddr" && a.obj == b.obj {
		return sameAddr(a.args[0], b.args[0]) || same(a.args[0], b.args[0])
	}
	return false
}

// fieldRead: t reads field `name` of an object whose (struct) type is typ ("internal.Request"); returns the object.
func fieldRead(t *Term, typ, name string) *Term {
	t = t.strip()
	if t == nil {
		return nil
	}
	switch t.op {
	case "sload", "load":
		a := t.args[0]
		if a.op == "faddr" && a.aux == name && a.args[0].typ != nil && namedOf(derefNamed(a.args[0].typ)) == typ {
			return a.args[0]
		}
	case "field", "peek":
		if t.aux == name && len(t.args) == 1 && t.args[0].typ != nil && namedOf(derefNamed(t.args[0].typ)) == typ {
			return t.args[0]
		}
	}
	return nil
}

// readsField: t is a read of a field with this name whose declaring variable is f (any object).
func readsFieldNamed(t *Term, name string) *Term {
	t = t.strip()
	if t == nil {
		return nil
	}
	if (t.op == "sload" || t.op == "load") && t.args[0].op == "faddr" && t.args[0].aux == name {
		return t.args[0].args[0]
	}
	if (t.op == "field" || t.op == "peek") && t.aux == name {
		return t.args[0]
	}
	return nil
}

// pcallOf: t is the i-th result of a pure call whose name has the given suffix.
func callOf(t *Term, names ...string) *Term {
	t = t.strip()
	if t == nil {
		return nil
	}
	if t.op == "extract" {
		t = t.args[0]
	}
	if t.op != "pcall" && t.op != "call" && t.op != "ctxnew" {
		return nil
	}
	for _, n := range names {
		if t.aux == n {
			return t
		}
	}
	return nil
}

func extractIdx(t *Term) string {
	t = t.strip()
	if t != nil && t.op == "extract" {
		return t.aux
	}
	return ""
}

func isParamFunc(ev *Event) bool {
	return ev.FnTerm != nil && ev.Callee == nil && ev.FnTerm.strip().op == "param"
}

// dynNamed: dynamic call of a function value of the given named type.
func dynNamed(ev *Event, names ...string) bool {
	if ev.FnTerm == nil || ev.Callee != nil || ev.FnType == nil {
		return false
	}
	n := namedOf(ev.FnType)
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	for _, s := range names {
		if n == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// Interface and function-value resolution
// ---------------------------------------------------------------------------------------------

// implTypes lists concrete types of the given packages that provide every method of interface it. Signatures are
// compared up to type parameters.
func (p *Program) implTypes(it types.Type, pkgs ...string) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, rel := range pkgs {
		sp := p.Pkg(rel)
		if sp == nil {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			named, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(named) {
				continue
			}
			pt := types.NewPointer(named)
			match := true
			for i := 0; i < iface.NumMethods(); i++ {
				im := iface.Method(i)
				obj, _, _ := types.LookupFieldOrMethod(pt, true, sp.Pkg, im.Name())
				m, ok := obj.(*types.Func)
				if !ok || !sigLike(m.Type().(*types.Signature), im.Type().(*types.Signature)) {
					match = false
					break
				}
			}
			if match && iface.NumMethods() > 0 {
				out = append(out, pt)
			}
		}
	}
	return out
}

func sigLike(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() || a.Variadic() != b.Variadic() {
		return false
	}
	cmp := func(x, y *types.Tuple) bool {
		for i := 0; i < x.Len(); i++ {
			s, t := x.At(i).Type(), y.At(i).Type()
			if types.Identical(s, t) {
				continue
			}
			if hasTypeParam(s) && hasTypeParam(t) {
				continue
			}
			return false
		}
		return true
	}
	return cmp(a.Params(), b.Params()) && cmp(a.Results(), b.Results())
}

// repoImpl is the default resolver: interfaces declared in the repository, other than the bus, subscriptions and
// user-supplied ones, resolve to the types of internal/stream, pkg/client and pkg/server that implement them.
func (p *Program) repoImpl(ev *Event) []types.Type {
	if ev.FnType == nil {
		return nil
	}
	n := namedOf(ev.FnType)
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	switch n {
	case "internal/bus.MessageBus", "internal/bus.Subscription", "internal/bus.Reader", "psrpc.Error", "psrpc.RPCInfo", "psrpc.Subscription", "error", "":
		return nil
	}
	if !strings.HasPrefix(n, "psrpc.") && !strings.HasPrefix(n, "internal/") && !strings.HasPrefix(n, "pkg/") {
		return nil
	}
	return p.implTypes(ev.FnType, "internal/stream", "pkg/client", "pkg/server")
}

// fieldFuncs resolves a call of a function stored in a struct field to the functions stored there anywhere.
func (x *Exec) fieldFuncs(ev *Event) []*Term {
	t := ev.FnTerm.strip()
	if t == nil || (t.op != "load" && t.op != "sload") || t.args[0].op != "faddr" {
		return nil
	}
	fv, _ := t.args[0].obj.(*types.Var)
	if fv == nil {
		return nil
	}
	return x.fieldFuncTerms(fv)
}

func (x *Exec) fieldFuncTerms(fv *types.Var) []*Term {
	var out []*Term
	for _, f := range x.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa.X.Type(), fa.Field) != fv {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.MakeClosure:
					fn := v.Fn.(*ssa.Function)
					if !x.P.InRepo(fn) {
						continue
					}
					var free []*Term
					for _, q := range fn.FreeVars {
						free = append(free, x.TT.mk("free", q.Name(), q, q.Type(), nil))
					}
					out = append(out, x.TT.mk("closure", shortName(fn), fn, v.Type(), nil, free...))
				case *ssa.Function:
					out = append(out, x.TT.mk("func", shortName(v), v, v.Type(), nil))
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// Roots
// ---------------------------------------------------------------------------------------------

// rootFn resolves an API anchor "pkg/client.RequestSingle" or "pkg/server.(RPCServer).Close".
func (p *Program) rootFn(name string) *ssa.Function {
	if i := strings.Index(name, ".("); i >= 0 {
		rel := name[:i]
		rest := name[i+2:]
		j := strings.Index(rest, ").")
		f := p.Method(rel, rest[:j], rest[j+2:])
		if f != nil && f.Origin() != nil {
			f = f.Origin()
		}
		return f
	}
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return p.Func("", name)
	}
	return p.Func(name[:i], name[i+1:])
}

// exec runs one analysis from an API root.
func (r *Run) exec(root string, mon monFunc, opt func(x *Exec)) *Exec {
	fn := r.P.rootFn(root)
	if fn == nil {
		r.Fail("anchor", root, "-", "the API function "+root+" the property is about does not exist", nil)
		return nil
	}
	return r.execFn(root, fn, mon, opt)
}

func (r *Run) execFn(name string, fn *ssa.Function, mon monFunc, opt func(x *Exec)) *Exec {
	x := NewExec(r.P, mon)
	x.Impl = r.P.repoImpl
	x.DynImpl = x.fieldFuncs
	if r.tier == "thorough" {
		x.Budget *= 3
	}
	var init func(*State, []*Term)
	if opt != nil {
		opt(x)
		init = x.Init
	}
	x.Root(fn, init)
	r.absorb(x, name)
	return x
}

type fnT = *ssa.Function

func itoa(i int) string { return strconv.Itoa(i) }

// methodOf finds the method of a concrete type, generic bodies included.
func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	n, ok := derefNamed(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")
	f := p.Method(rel, n.Obj().Name(), name)
	if f != nil && f.Origin() != nil {
		f = f.Origin()
	}
	return f
}

// storesTo lists the stores in fn to one of the fields.
func storesTo(fn *ssa.Function, fields ...*types.Var) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					v := fieldOf(fa.X.Type(), fa.Field)
					for _, f := range fields {
						if v == f || v != nil && f != nil && v.Origin() == f.Origin() {
							out = append(out, in)
						}
					}
				}
			}
		}
	}
	return out
}

// chanUses lists the sends to and closes of the channel in field f.
func chanUses(fn *ssa.Function, f *types.Var) []ssa.Instruction {
	isF := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldOf(fa.X.Type(), fa.Field) == f
	}
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				if isF(in.Chan) {
					out = append(out, in)
				}
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.SendOnly && isF(s.Chan) {
						out = append(out, in)
					}
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" && isF(in.Call.Args[0]) {
					out = append(out, in)
				}
			}
		}
	}
	return out
}
