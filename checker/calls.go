package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// Call events
// ---------------------------------------------------------------------------------------------

func methodName(m *types.Func) string {
	if o := m.Origin(); o != nil {
		m = o
	}
	s := m.FullName()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "psrpc.")
	return stripGenerics(s)
}

func stripGenerics(s string) string {
	if !strings.ContainsRune(s, '[') {
		return s
	}
	var b strings.Builder
	d := 0
	for _, r := range s {
		switch r {
		case '[':
			d++
		case ']':
			d--
		default:
			if d == 0 {
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

func (x *Exec) callEvent(a *act, env map[ssa.Value]*Term, c *ssa.CallCommon, instr ssa.Instruction) *Event {
	ev := &Event{Kind: EvCall, Instr: instr, Fn: a.fn, Ctx: a.ctx}
	if c.IsInvoke() {
		ev.Method = c.Method
		ev.Name = methodName(c.Method)
		ev.Args = append(ev.Args, x.val(a, env, c.Value))
		ev.FnType = c.Value.Type()
		if m := ownMethod(ev.Args[0], c); m != nil {
			ev.Method = m
			ev.Name = methodName(m)
			ev.FnType = ev.Args[0].strip().typ
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		ev.Name = "builtin " + b.Name()
	} else {
		ev.FnTerm = x.val(a, env, c.Value)
		ev.FnType = c.Value.Type()
		x.bindCallee(ev)
	}
	for _, v := range c.Args {
		ev.Args = append(ev.Args, x.val(a, env, v))
	}
	return ev
}

// ownMethod: a value of one of the repository's interfaces, called through another interface (io.Closer, say), is
// called by its own interface's method.
func ownMethod(recv *Term, c *ssa.CallCommon) *types.Func {
	own := func(t types.Type) *types.Named {
		n, ok := types.Unalias(t).(*types.Named)
		if ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && types.IsInterface(n) {
			return n
		}
		return nil
	}
	recv = recv.strip()
	if recv == nil || recv.typ == nil || own(c.Value.Type()) != nil {
		return nil
	}
	n := own(recv.typ)
	if n == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(n, false, c.Method.Pkg(), c.Method.Name())
	m, _ := o.(*types.Func)
	return m
}

// knownLen: the length of a list put together from literals, -1 if unknown.
func knownLen(t *Term) int64 {
	t = unstale(t.strip())
	switch {
	case t.isNil():
		return 0
	case t.op == "slice" && t.args[0].op == "alloc" && t.args[1].op == "none" && t.args[2].op == "none":
		if p, ok := t.args[0].typ.Underlying().(*types.Pointer); ok {
			return arrayLen(p.Elem())
		}
	case t.op == "slice" && t.args[2].op == "binop" && t.args[2].aux == "+" && t.args[2].args[0] == t.args[1] && t.args[2].args[1].aux == "1":
		return 1
	case t.op == "append" && len(t.args) == 2:
		a, b := knownLen(t.args[0]), knownLen(t.args[1])
		if a >= 0 && b >= 0 {
			return a + b
		}
	}
	return -1
}

// elemOfKnown: where element i of such a list was written.
func elemOfKnown(t *Term, i int64) (*Term, int64) {
	t = unstale(t.strip())
	switch {
	case t.op == "slice":
		return t.args[0], i
	case t.op == "append":
		if n := knownLen(t.args[0]); i < n {
			return elemOfKnown(t.args[0], i)
		} else {
			return elemOfKnown(t.args[1], i-n)
		}
	}
	return nil, 0
}

// bindCallee fills Callee/Name from a function-valued term.
func (x *Exec) bindCallee(ev *Event) {
	t := ev.FnTerm.strip()
	switch t.op {
	case "func", "closure":
		f, _ := t.obj.(*ssa.Function)
		ev.Callee = f
		ev.Name = shortName(f)
	default:
		ev.Name = "dyn"
	}
}

func sigResults(c *ssa.CallCommon) *types.Tuple { return c.Signature().Results() }

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	switch in := in.(type) {
	case *ssa.Call:
		return &in.Call
	case *ssa.Defer:
		return &in.Call
	case *ssa.Go:
		return &in.Call
	}
	return nil
}

// ---------------------------------------------------------------------------------------------
// Which functions are left opaque, which calls are pure
// ---------------------------------------------------------------------------------------------

func defaultOpaque(f *ssa.Function) bool {
	n := shortName(f)
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if o := root.Origin(); o != nil {
		root = o
	}
	pkg := ""
	if root.Pkg != nil {
		pkg = strings.TrimPrefix(strings.TrimPrefix(root.Pkg.Pkg.Path(), modPath), "/")
	} else if root.Object() != nil && root.Object().Pkg() != nil {
		pkg = strings.TrimPrefix(strings.TrimPrefix(root.Object().Pkg().Path(), modPath), "/")
	}
	switch pkg {
	case "internal/logger", "pkg/rand", "pkg/metadata", "version":
		return true
	case "internal":
		// generated protobuf code: only the getters have a body worth following
		return !strings.Contains(n, ").Get")
	case "internal/bus":
		switch f.Name() {
		case "Subscribe", "SubscribeQueue", "SerializePayload", "DeserializePayload", "serialize", "deserialize", "deserializeChannel", "newSubscription":
			return root.Signature.Recv() == nil
		}
	case "pkg/info":
		if strings.HasSuffix(root.Name(), "Channel") || root.Name() == "GetHandlerKey" {
			return true
		}
	case "":
		switch n {
		case "psrpc.NewError", "psrpc.NewErrorf", "psrpc.NewErrorFromResponse", "psrpc.GetErrorCode", "psrpc.ErrorCodeFromGRPC":
			return true
		}
		if strings.Contains(n, "psrpcError)") || strings.Contains(n, "ErrorCode)") {
			return true
		}
	}
	return false
}

// pureCall: same arguments, same result, no effect the rules care about.
func pureCall(name string) bool {
	switch name {
	case "time.Unix", "errors.New", "context.Background", "context.TODO", "strings.Join", "strings.ToLower", "unicode.Is", "reflect.ValueOf", "reflect.TypeOf", "golang.org/x/exp/maps.Values_", "google.golang.org/grpc/status.FromError",
		"(time.Time).Add", "(time.Time).UTC", "(time.Time).Round", "(time.Time).Truncate", "(error).Error", "time.UnixNano", "proto.Size", "google.golang.org/protobuf/proto.Size":
		return true
	}
	for _, s := range []string{
		"(psrpc.Error).", "(*psrpc.psrpcError).", "(psrpc.psrpcError).", "(psrpc.ErrorCode).", "psrpc.NewError", "psrpc.ErrorCodeFromGRPC", "psrpc.GetErrorCode",
		"(*google.golang.org/grpc/internal/status.Status).", "(*google.golang.org/grpc/status.Status).",
		"pkg/metadata.", "(*pkg/info.RequestInfo).Get", "(pkg/info.RequestInfo).Get", "pkg/info.",
		"internal/bus.SerializePayload", "internal/bus.DeserializePayload", "internal/bus.serialize", "internal/bus.deserialize", "internal/bus.deserializeChannel",
		"(time.Duration).", "(context.Context).Value", "(context.Context).Deadline", "(context.Context).Done", "(google.golang.org/protobuf/reflect/protoreflect.ProtoMessage).ProtoReflect", "(google.golang.org/protobuf/reflect/protoreflect.Message).Descriptor", "github.com/zeebo/xxh3.",
	} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	if strings.HasSuffix(name, ").Channel") || strings.HasSuffix(name, ").Context") {
		return true
	}
	return false
}

func noHavoc(name string) bool {
	for _, s := range []string{"fmt.", "errors.", "strings.", "(internal/bus.", "internal/logger.", "pkg/", "internal/bus.", "google.golang.org/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Size", "psrpc.", "context.", "time.", "sync.", "(*sync.", "(*go.uber.org/atomic", "(*sync/atomic", "golang.org/x/exp/maps.Values", "golang.org/x/exp/maps.Keys", "maps.Keys", "slices.Index", "golang.org/x/exp/slices.Index", "(*internal.", "(context."} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// Calls
// ---------------------------------------------------------------------------------------------

func (x *Exec) opaqueResult(a *act, st *State, instr ssa.Instruction, name string, args []*Term) []*Term {
	cc := callCommon(instr)
	rs := cc.Signature().Results()
	n := rs.Len()
	var out []*Term
	pure := pureCall(name)
	var base *Term
	if pure {
		base = x.TT.mk("pcall", name, nil, nil, nil, args...)
	} else {
		base = x.volatile(a, st, instr, "", "call", name, nil, nil, args...)
	}
	if n == 1 {
		base.typ = rs.At(0).Type()
		return []*Term{base}
	}
	for i := 0; i < n; i++ {
		e := x.TT.mk("extract", fmt.Sprint(i), nil, rs.At(i).Type(), nil, base)
		out = append(out, e)
	}
	return out
}

func (x *Exec) ret(st *State, ev *Event, res []*Term) callOut {
	e := *ev
	e.Kind = EvRet
	e.Results = res
	if len(res) > 0 {
		e.Result = res[0]
	}
	x.emit(st, &e)
	return callOut{st: st, res: res}
}

func (x *Exec) one(st *State, res ...*Term) []callOut { return []callOut{{st: st, res: res}} }

// doCall performs the call described by ev.
func (x *Exec) doCall(a *act, instr ssa.Instruction, ev *Event, st *State) []callOut {
	ev.Kind = EvCall
	if strings.HasPrefix(ev.Name, "builtin ") {
		return x.builtin(a, instr, ev, st)
	}
	// interface method on a known dynamic type
	if ev.Method != nil {
		if c, args := x.devirt(a, st, instr, ev.Args[0], ev.Method); c != nil {
			e2 := *ev
			e2.Callee = c
			e2.Args = append(append([]*Term{}, args...), ev.Args[1:]...)
			e2.Method = nil
			e2.FnTerm = nil
			e2.Name = shortName(c)
			ev = &e2
		} else if args != nil { // resolved to another interface value (embedded interface)
			e2 := *ev
			e2.Args = append(append([]*Term{}, args...), ev.Args[1:]...)
			ev = &e2
		}
	}
	return x.dispatch(a, instr, ev, st)
}

func (x *Exec) dispatch(a *act, instr ssa.Instruction, ev *Event, st *State) []callOut {
	if ev.FnTerm != nil && ev.Callee == nil {
		x.bindCallee(ev)
	}
	if x.Model != nil {
		if ok, outs := x.Model(x, st, ev); ok {
			return outs
		}
	}
	if ok, outs := x.builtinModel(a, instr, ev, st); ok {
		return outs
	}
	if ev.Callee != nil {
		f := ev.Callee
		// method value wrapper: x.M bound to its receiver
		if f.Synthetic != "" && len(f.FreeVars) == 1 && strings.HasSuffix(f.Name(), "$bound") && ev.FnTerm != nil {
			if m, ok := f.Object().(*types.Func); ok {
				recv := ev.FnTerm.strip().args[0]
				return x.callMethod(a, instr, ev, st, m, recv, f)
			}
		}
		if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$thunk") {
			if m, ok := f.Object().(*types.Func); ok && len(ev.Args) > 0 {
				e2 := *ev
				e2.Args = ev.Args[1:]
				return x.callMethod(a, instr, &e2, st, m, ev.Args[0], f)
			}
		}
		if o := f.Origin(); o != nil {
			f = o
			ev.Callee = f
		}
		if x.canInline(a, f) {
			return x.inline(a, instr, ev, st)
		}
		x.emit(st, ev)
		return x.opaque(a, instr, ev, st)
	}
	// unknown interface receiver
	if ev.Method != nil {
		x.emit(st, ev)
		if x.Impl != nil {
			if cands := x.Impl(ev); len(cands) > 0 {
				var outs []callOut
				for _, t := range cands {
					s2 := st
					if len(cands) > 1 {
						s2 = st.clone()
					}
					c, recv := x.resolveMethod(a, s2, instr, ev.Args[0], t, ev.Method.Pkg(), ev.Method.Name())
					if c == nil {
						continue
					}
					e2 := *ev
					e2.Callee, e2.Method, e2.Name = c, nil, shortName(c)
					e2.Args = append(append([]*Term{}, recv...), ev.Args[1:]...)
					s2.note(x.P.InstrPos(instr), "dispatch to "+shortName(c))
					outs = append(outs, x.dispatch(a, instr, &e2, s2)...)
				}
				if outs == nil {
					return x.opaque(a, instr, ev, st)
				}
				return outs
			}
		}
		return x.opaque(a, instr, ev, st)
	}
	// unknown function value
	if x.DynImpl != nil {
		if cands := x.DynImpl(ev); len(cands) > 0 {
			var outs []callOut
			for _, c := range cands {
				e2 := *ev
				e2.FnTerm = c
				e2.Callee = nil
				outs = append(outs, x.dispatch(a, instr, &e2, st.clone())...)
			}
			return outs
		}
	}
	x.emit(st, ev)
	return x.opaque(a, instr, ev, st)
}

func (x *Exec) callMethod(a *act, instr ssa.Instruction, ev *Event, st *State, m *types.Func, recv *Term, wrapper *ssa.Function) []callOut {
	e2 := *ev
	e2.FnTerm = nil
	e2.Callee = nil
	sig := m.Type().(*types.Signature)
	if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
		e2.Method = m
		e2.Name = methodName(m)
		e2.Args = append([]*Term{recv}, ev.Args...)
		return x.doCall(a, instr, &e2, st)
	}
	c := x.P.SSA.FuncValue(m.Origin())
	if c == nil {
		e2.Name = methodName(m)
		e2.Args = append([]*Term{recv}, ev.Args...)
		x.emit(st, &e2)
		return x.opaque(a, instr, &e2, st)
	}
	// walk promoted fields if the bound receiver is an outer struct
	var rt types.Type
	if len(wrapper.FreeVars) == 1 {
		rt = wrapper.FreeVars[0].Type()
	}
	args := []*Term{recv}
	if rt != nil {
		if cc, as := x.resolveMethod(a, st, instr, recv, rt, m.Pkg(), m.Name()); cc != nil {
			c, args = cc, as
		}
	}
	e2.Callee = c
	e2.Name = shortName(c)
	e2.Args = append(append([]*Term{}, args...), ev.Args...)
	return x.dispatch(a, instr, &e2, st)
}

// devirt resolves an interface method call when the receiver's dynamic type is known.
func (x *Exec) devirt(a *act, st *State, instr ssa.Instruction, recv *Term, m *types.Func) (*ssa.Function, []*Term) {
	for i := 0; recv.op == "conv" && i < 4; i++ {
		recv = recv.args[0]
	}
	if recv.op != "iface" {
		return nil, nil
	}
	dt, _ := recv.obj.(types.Type)
	if dt == nil {
		return nil, nil
	}
	return x.resolveMethod(a, st, instr, recv.args[0], dt, m.Pkg(), m.Name())
}

func (x *Exec) resolveMethod(a *act, st *State, instr ssa.Instruction, v *Term, t types.Type, pkg *types.Package, name string) (*ssa.Function, []*Term) {
	if types.IsInterface(t) {
		if v.op == "iface" {
			return x.resolveMethod(a, st, instr, v.args[0], v.obj.(types.Type), pkg, name)
		}
		return nil, []*Term{v}
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	fn, ok := obj.(*types.Func)
	if !ok {
		return nil, nil
	}
	cur, ct := v, t
	for _, i := range path[:len(path)-1] {
		isPtr := false
		if p, ok := types.Unalias(ct).Underlying().(*types.Pointer); ok {
			isPtr = true
			ct = p.Elem()
		}
		s := types.Unalias(ct).Underlying().(*types.Struct)
		f := s.Field(i)
		if isPtr {
			ad := x.faddr(cur, f.Origin(), types.NewPointer(f.Type()))
			if _, isS := types.Unalias(f.Type()).Underlying().(*types.Struct); isS {
				cur, ct = ad, types.NewPointer(f.Type())
				continue
			}
			cur = x.load(a, st, instr, ad, f.Type())
		} else {
			cur = x.field(cur, f.Origin())
		}
		ct = f.Type()
	}
	if types.IsInterface(ct) {
		if cur.op == "iface" {
			return x.resolveMethod(a, st, instr, cur.args[0], cur.obj.(types.Type), pkg, name)
		}
		return nil, []*Term{cur}
	}
	c := x.P.SSA.FuncValue(fn.Origin())
	if c == nil {
		return nil, nil
	}
	rp := false
	if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
		_, rp = types.Unalias(sig.Recv().Type()).(*types.Pointer)
	}
	_, cp := types.Unalias(ct).Underlying().(*types.Pointer)
	if !rp && cp {
		cur = x.load(a, st, instr, cur, derefType(ct))
	}
	return c, []*Term{cur}
}

func (x *Exec) canInline(a *act, f *ssa.Function) bool {
	if !x.P.InRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" && f.Parent() == nil && !strings.HasPrefix(f.Synthetic, "instance") && f.Name() != "init" {
		if f.Synthetic != "" && len(f.Blocks) > 0 && x.P.InRepo(f) {
			// wrappers
		} else {
			return false
		}
	}
	if x.Opaque != nil && x.Opaque(f) {
		return false
	}
	if a.ctx.hasFn(f) {
		x.Trunc["recursion:"+shortName(f)]++
		return false
	}
	if a.ctx != nil && a.ctx.depth >= x.MaxDepth {
		x.Trunc["depth:"+shortName(f)]++
		return false
	}
	return true
}

func (x *Exec) inline(a *act, instr ssa.Instruction, ev *Event, st *State) []callOut {
	f := ev.Callee
	nctx := x.TT.ctx(a.ctx, instr, f)
	var free []*Term
	if ev.FnTerm != nil {
		if t := ev.FnTerm.strip(); t.op == "closure" {
			free = t.args
		}
	}
	e := *ev
	e.Kind = EvEnter
	e.ToCtx = nctx
	x.inlined++
	x.emit(st, &e)
	outs := x.call(f, nctx, ev.Args, free, st)
	var res []callOut
	for _, o := range outs {
		l := *ev
		l.Kind = EvLeave
		l.ToCtx = nctx
		l.Results = o.res
		if o.st.panic {
			res = append(res, callOut{st: o.st})
			continue
		}
		if len(o.res) > 0 {
			l.Result = o.res[0]
		}
		x.emit(o.st, &l)
		res = append(res, callOut{st: o.st, res: o.res})
	}
	return res
}

// opaque applies the conservative effect of a call whose body is not followed.
func (x *Exec) opaque(a *act, instr ssa.Instruction, ev *Event, st *State) []callOut {
	name := ev.Name
	var outs []callOut
	if x.MayPanic != nil && x.MayPanic(ev) {
		ps := st.clone()
		ps.panic = true
		ps.note(x.P.InstrPos(instr), "panic in "+name)
		x.emit(ps, &Event{Kind: EvPanic, Instr: instr, Fn: a.fn, Ctx: a.ctx, Name: name})
		outs = append(outs, callOut{st: ps})
	}
	if !pureCall(name) {
		if !noHavoc(name) {
			for _, t := range ev.Args {
				b := t.strip()
				if b.op == "alloc" || (b.op == "faddr" && baseAddr(b).op == "alloc") {
					x.havoc(a, st, instr, b)
				}
			}
		}
		if mayBlock(name) {
			x.releaseShared(st)
		}
	}
	res := x.opaqueResult(a, st, instr, name, ev.Args)
	if name == "(context.Context).Err" && len(res) == 1 && len(ev.Args) == 1 {
		if st.facts[x.TT.mk("ctxdone", "", nil, nil, nil, ev.Args[0].strip())] {
			x.assume(st, x.eq(st, res[0], x.TT.nilC()), false)
		}
	}
	return append(outs, x.ret(st, ev, res))
}

func mayBlock(name string) bool {
	return !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "errors.")
}

func isNamedMethod(f *ssa.Function, pkg, typ, name string) bool {
	return f != nil && shortName(f) == "(*"+pkg+"."+typ+")."+name
}

// lockKey is the term under which the lock is held: another read of the same place is the same lock.
func lockKey(st *State, l *Term) *Term {
	if _, ok := st.locks[l]; ok {
		return l
	}
	for k := range st.locks {
		if sameAddr(k, l) {
			return k
		}
	}
	return l
}

// builtinModel: standard-library and dependency calls with a known meaning.
func (x *Exec) builtinModel(a *act, instr ssa.Instruction, ev *Event, st *State) (bool, []callOut) {
	n := ev.Name
	switch n {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		x.emit(st, ev)
		x.releaseShared(st)
		st.locks[lockKey(st, ev.Args[0])] = lockW
		return true, []callOut{x.ret(st, ev, nil)}
	case "(*sync.RWMutex).RLock":
		x.emit(st, ev)
		x.releaseShared(st)
		if st.locks[lockKey(st, ev.Args[0])] != lockW {
			st.locks[lockKey(st, ev.Args[0])] = lockR
		}
		return true, []callOut{x.ret(st, ev, nil)}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		x.emit(st, ev)
		delete(st.locks, lockKey(st, ev.Args[0]))
		x.releaseShared(st)
		return true, []callOut{x.ret(st, ev, nil)}
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		x.emit(st, ev)
		s2 := st.clone()
		s2.locks[lockKey(st, ev.Args[0])] = lockW
		return true, []callOut{x.ret(s2, ev, []*Term{x.TT.boolC(true)}), x.ret(st, ev, []*Term{x.TT.boolC(false)})}

	case "(*github.com/frostbyte73/core.Fuse).Once", "(*sync.Once).Do":
		x.emit(st, ev)
		skip := st.clone()
		skip.note(x.P.InstrPos(instr), "once: already done")
		skip.mon["#onceskip"] = x.TT.boolC(true)
		outs := []callOut{x.ret(skip, ev, nil)}
		delete(skip.mon, "#onceskip")
		e2 := *ev
		e2.FnTerm = ev.Args[1]
		e2.Callee, e2.Method = nil, nil
		e2.Args = nil
		for _, o := range x.dispatch(a, instr, &e2, st) {
			outs = append(outs, callOut{st: o.st})
		}
		return true, outs
	case "(*github.com/frostbyte73/core.Fuse).Watch":
		x.emit(st, ev)
		return true, []callOut{x.ret(st, ev, []*Term{x.TT.mk("pcall", n, nil, nil, nil, ev.Args...)})}

	case "(*sync.WaitGroup).Go": // Add(1), and a goroutine that ends with Done
		add := *ev
		add.Name, add.Args = "(*sync.WaitGroup).Add", []*Term{ev.Args[0], x.TT.intC(1)}
		x.emit(st, &add)
		e2 := *ev
		e2.FnTerm = ev.Args[1]
		e2.Callee = nil
		e2.Args = nil
		x.bindCallee(&e2)
		e2.Kind = EvGo
		x.emit(st, &e2)
		x.onSpawned = func(o *State) {
			done := *ev
			done.Name, done.Args, done.Defer = "(*sync.WaitGroup).Done", ev.Args[:1], true
			x.emit(o, &done)
		}
		x.spawn(a, instr, &e2, st, "go")
		return true, []callOut{x.ret(st, ev, nil)}
	case "context.AfterFunc":
		x.emit(st, ev)
		e2 := *ev
		e2.FnTerm = ev.Args[1]
		e2.Callee = nil
		e2.Args = nil
		x.bindCallee(&e2)
		x.spawn(a, instr, &e2, st, "AfterFunc")
		return true, []callOut{x.ret(st, ev, x.opaqueResult(a, st, instr, n, ev.Args))}
	case "time.AfterFunc":
		x.emit(st, ev)
		e2 := *ev
		e2.FnTerm = ev.Args[1]
		e2.Callee = nil
		e2.Args = nil
		x.bindCallee(&e2)
		x.spawn(a, instr, &e2, st, "AfterFunc")
		return true, []callOut{x.ret(st, ev, x.opaqueResult(a, st, instr, n, ev.Args))}
	case "time.Until": // t - now
		x.emit(st, ev)
		now := x.volatile(a, st, instr, "now", "call", "time.Now", nil, nil)
		return true, []callOut{x.ret(st, ev, []*Term{x.TT.mk("binop", "-", nil, nil, nil, x.nano(ev.Args[0]), x.nano(now))})}
	case "time.Since":
		x.emit(st, ev)
		now := x.volatile(a, st, instr, "now", "call", "time.Now", nil, nil)
		return true, []callOut{x.ret(st, ev, []*Term{x.TT.mk("binop", "-", nil, nil, nil, x.nano(now), x.nano(ev.Args[0]))})}
	case "(time.Time).UnixNano":
		return true, x.one(st, x.nano(ev.Args[0]))
	case "(time.Time).Sub":
		return true, x.one(st, x.TT.mk("binop", "-", nil, nil, nil, x.nano(ev.Args[0]), x.nano(ev.Args[1])))
	case "(time.Time).Before":
		return true, x.one(st, x.lt(x.nano(ev.Args[0]), x.nano(ev.Args[1])))
	case "(time.Time).After":
		return true, x.one(st, x.lt(x.nano(ev.Args[1]), x.nano(ev.Args[0])))
	case "(time.Time).Equal":
		return true, x.one(st, x.eq(st, x.nano(ev.Args[0]), x.nano(ev.Args[1])))
	case "(time.Time).Compare":
		return true, x.one(st, x.TT.mk("binop", "-", nil, nil, nil, x.nano(ev.Args[0]), x.nano(ev.Args[1])))

	case "errors.As":
		x.emit(st, ev)
		target := ev.Args[1].strip()
		ok := x.TT.mk("pcall", "errors.As", derefType(ifaceType(ev.Args[1])), nil, nil, ev.Args[0])
		st.heap[target] = x.TT.mk("as", "", derefType(ifaceType(ev.Args[1])), nil, nil, ev.Args[0])
		return true, []callOut{x.ret(st, ev, []*Term{ok})}
	case "errors.Is":
		x.emit(st, ev)
		return true, []callOut{x.ret(st, ev, []*Term{x.TT.mk("pcall", "errors.Is", nil, nil, nil, eqStrip(ev.Args[0]), eqStrip(ev.Args[1]))})}
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithValue", "context.WithCancelCause", "context.WithoutCancel", "context.WithTimeoutCause", "context.WithDeadlineCause":
		x.emit(st, ev)
		t := x.volatile(a, st, instr, "", "ctxnew", n, nil, nil, ev.Args...)
		if n == "context.WithValue" || n == "context.WithoutCancel" {
			return true, []callOut{x.ret(st, ev, []*Term{t})}
		}
		c := x.TT.mk("extract", "0", nil, nil, nil, t)
		return true, []callOut{x.ret(st, ev, []*Term{c, x.TT.mk("extract", "1", nil, nil, nil, t)})}
	}
	// a chain of interceptors built by recursion: modelled like the interceptors it applies
	if f := ev.Callee; !x.NoChain && f != nil && a.ctx.hasFn(f) {
		if rs := f.Signature.Results(); rs.Len() == 1 {
			hi, chain := -1, false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				pt := f.Signature.Params().At(i).Type()
				if types.Identical(pt, rs.At(0).Type()) {
					hi = i
				}
				if sl, ok := pt.Underlying().(*types.Slice); ok {
					if sg, ok := coreFunc(sl.Elem()); ok && sg.Params().Len() == 2 && isRPCInfo(sg.Params().At(0).Type()) {
						chain = true
					}
				}
			}
			if hi >= 0 && chain && hi < len(ev.Args) {
				x.emit(st, ev)
				return true, []callOut{x.ret(st, ev, []*Term{ev.Args[hi]})}
			}
		}
	}
	// interceptor values: modelled as well-behaved (they delegate to the handler they are given)
	if !x.NoChain && ev.Callee == nil && ev.FnTerm != nil && ev.FnType != nil {
		if cc := callCommon(instr); cc != nil {
			sig := cc.Signature()
			ps, rs := sig.Params(), sig.Results()
			if named := namedOf(ev.FnType); (named == "" || strings.HasPrefix(named, "psrpc.") || isTypeParam(ev.FnType)) && ps.Len() == 2 && rs.Len() == 1 && isRPCInfo(ps.At(0).Type()) && types.Identical(ps.At(1).Type(), rs.At(0).Type()) {
				x.emit(st, ev)
				return true, []callOut{x.ret(st, ev, []*Term{ev.Args[1]})}
			}
			if ps.Len() == 4 && rs.Len() == 2 && isRPCInfo(ps.At(2).Type()) {
				if _, isF := ps.At(3).Type().Underlying().(*types.Signature); isF {
					x.emit(st, ev)
					e2 := *ev
					e2.FnTerm = ev.Args[3]
					e2.FnType = ps.At(3).Type()
					e2.Callee = nil
					e2.Args = []*Term{ev.Args[0], ev.Args[1]}
					return true, x.dispatch(a, instr, &e2, st)
				}
			}
		}
	}
	return false, nil
}

// coreFunc: the signature of a function type, or of a type parameter constrained to one.
func coreFunc(t types.Type) (*types.Signature, bool) {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				sg, ok := u.Term(0).Type().Underlying().(*types.Signature)
				return sg, ok
			}
		}
		return nil, false
	}
	sg, ok := t.Underlying().(*types.Signature)
	return sg, ok
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func ifaceType(t *Term) types.Type {
	if t.op == "iface" {
		if ty, ok := t.obj.(types.Type); ok {
			return ty
		}
	}
	if t.typ != nil {
		return t.typ
	}
	return types.Typ[types.Invalid]
}

func namedOf(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	p := o.Pkg().Path()
	p = strings.TrimPrefix(p, modPath+"/")
	if p == modPath {
		p = "psrpc"
	}
	return p + "." + o.Name()
}

func isRPCInfo(t types.Type) bool { return namedOf(t) == "psrpc.RPCInfo" }

// spawn analyses a goroutine body (or timer callback) from a copy of the state.
func (x *Exec) spawn(a *act, instr ssa.Instruction, ev *Event, st *State, how string) {
	post := x.onSpawned
	x.onSpawned = nil
	if !x.FollowGo {
		return
	}
	if ev.Callee == nil && ev.FnTerm == nil && ev.Method == nil {
		return
	}
	ns := st.clone()
	ns.locks = map[*Term]lockMode{}
	x.releaseShared(ns)
	ns.gor++
	ns.note(x.P.InstrPos(instr), how+" "+ev.Name)
	ns.mon["#go"] = x.TT.intC(int64(ns.gor))
	// facts about the spawning activation stay valid only for immutable terms; they are all value facts.
	var b strings.Builder
	fmt.Fprintf(&b, "%p/%d/%s", instr, a.ctx.id, ev.Name)
	for _, t := range ev.Args {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	if ev.FnTerm != nil {
		fmt.Fprintf(&b, "f%d", ev.FnTerm.id)
	}
	ns.key(&b)
	if x.goSeen[b.String()] {
		return
	}
	x.goSeen[b.String()] = true
	e2 := *ev
	e2.Kind = EvCall
	for _, o := range x.doCall(a, instr, &e2, ns) {
		if post != nil {
			post(o.st)
		}
		x.emit(o.st, &Event{Kind: EvReturn, Instr: instr, Fn: a.fn, Ctx: a.ctx, Name: "go", Truth: o.st.panic, Results: o.res, Callee: ev.Callee})
	}
}

func (x *Exec) doGo(a *act, instr ssa.Instruction, ev *Event, st *State) {
	x.spawn(a, instr, ev, st, "go")
}

// ---------------------------------------------------------------------------------------------
// Builtins
// ---------------------------------------------------------------------------------------------

func (x *Exec) builtin(a *act, instr ssa.Instruction, ev *Event, st *State) []callOut {
	cc := callCommon(instr)
	var rt types.Type
	if v, ok := instr.(ssa.Value); ok {
		rt = v.Type()
	}
	switch strings.TrimPrefix(ev.Name, "builtin ") {
	case "len", "cap":
		op := strings.TrimPrefix(ev.Name, "builtin ")
		v := ev.Args[0]
		if c := v.constant(); c != nil && c.Kind() == constant.String && op == "len" {
			return x.one(st, x.TT.intC(int64(len(constant.StringVal(c)))))
		}
		if v.isNil() {
			return x.one(st, x.TT.intC(0))
		}
		if arr := arrayLen(cc.Args[0].Type()); arr >= 0 {
			return x.one(st, x.TT.intC(arr))
		}
		if v.op == "mkslice" && op == "len" {
			return x.one(st, v.args[0])
		}
		if v.op == "slice" && v.args[0].op == "alloc" && v.args[1].op == "none" && v.args[2].op == "none" {
			if p, ok := v.args[0].typ.Underlying().(*types.Pointer); ok {
				if n := arrayLen(p.Elem()); n >= 0 {
					return x.one(st, x.TT.intC(n))
				}
			}
		}
		if n := knownLen(v); op == "len" && n >= 0 && n <= maxTrips {
			return x.one(st, x.TT.intC(n))
		}
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Map, *types.Chan:
			return x.one(st, x.volatile(a, st, instr, "", op, "", nil, rt, v))
		}
		return x.one(st, x.TT.mk(op, "", nil, rt, nil, v))
	case "append":
		ev2 := *ev
		ev2.Kind = EvAppend
		r := x.volatile(a, st, instr, "", "append", "", nil, rt, ev.Args...)
		ev2.Result = r
		x.emit(st, &ev2)
		return x.one(st, r)
	case "close":
		e := *ev
		e.Kind = EvClose
		e.Addr = ev.Args[0]
		e.ChanT, _ = cc.Args[0].Type().Underlying().(*types.Chan)
		x.emit(st, &e)
		return x.one(st)
	case "delete":
		e := *ev
		e.Kind = EvMapDel
		e.Addr, e.Key = ev.Args[0], ev.Args[1]
		e.MapT, _ = cc.Args[0].Type().Underlying().(*types.Map)
		x.emit(st, &e)
		return x.one(st)
	case "recover":
		if x.mayRecover(a, st) {
			st.rec = true
			r := x.volatile(a, st, instr, "", "recovered", "", nil, rt)
			st.facts[x.eq(st, r, x.TT.nilC())] = false
			return x.one(st, r)
		}
		return x.one(st, x.TT.nilC())
	case "copy":
		x.emit(st, ev)
		return x.one(st, x.volatile(a, st, instr, "", "call", ev.Name, nil, rt, ev.Args...))
	case "panic":
		st.panic = true
		x.emit(st, &Event{Kind: EvPanic, Instr: instr, Fn: a.fn, Ctx: a.ctx, Val: ev.Args[0]})
		return []callOut{{st: st}}
	case "min", "max":
		x.emit(st, ev)
		return x.one(st, x.TT.mk("minmax", ev.Name, nil, rt, nil, ev.Args...))
	case "ssa:wrapnilchk":
		return x.one(st, ev.Args[0])
	}
	x.emit(st, ev)
	n := cc.Signature().Results().Len()
	var res []*Term
	for i := 0; i < n; i++ {
		res = append(res, x.volatile(a, st, instr, fmt.Sprint(i), "call", ev.Name, nil, nil, ev.Args...))
	}
	return x.one(st, res...)
}

func arrayLen(t types.Type) int64 {
	t = types.Unalias(t).Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem()).Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return a.Len()
	}
	return -1
}

// ---------------------------------------------------------------------------------------------
// Field stability
// ---------------------------------------------------------------------------------------------

func (x *Exec) collectStore(st *State, addr *Term) {}

// unstableFields: fields that some code may write after the object was built. A store counts as construction when
// the object is a fresh allocation of the storing function, or of every caller that passes it in.
func (p *Program) unstableFields() map[*types.Var]bool {
	if p.unstableF != nil {
		return p.unstableF
	}
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callCommon(in); cc != nil {
					if sc := cc.StaticCallee(); sc != nil {
						if o := sc.Origin(); o != nil {
							sc = o
						}
						callers[sc] = append(callers[sc], cc)
					}
				}
			}
		}
	}
	var fresh func(v ssa.Value, d int) bool
	fresh = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return fresh(v.X, d)
		case *ssa.IndexAddr:
			return fresh(v.X, d)
		case *ssa.ChangeType:
			return fresh(v.X, d)
		case *ssa.Parameter:
			if d > 3 {
				return false
			}
			f := v.Parent()
			if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
				return false
			}
			cs := callers[f]
			if len(cs) == 0 {
				return false
			}
			idx := -1
			for i, q := range f.Params {
				if q == v {
					idx = i
				}
			}
			for _, c := range cs {
				if idx < 0 || idx >= len(c.Args) || !fresh(c.Args[idx], d+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			// *cell where the cell holds only fresh objects (captured variables)
			if v.Op == token.MUL {
				if al, ok := v.X.(*ssa.Alloc); ok && d <= 3 {
					n := 0
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == al {
							n++
							if !fresh(s.Val, d+1) {
								return false
							}
						}
					}
					return n > 0
				}
			}
		case *ssa.Call:
			// constructor: returns a fresh allocation
			if sc := v.Call.StaticCallee(); sc != nil && d <= 3 {
				if o := sc.Origin(); o != nil {
					sc = o
				}
				if !p.InRepo(sc) || len(sc.Blocks) == 0 {
					return false
				}
				n := 0
				for _, b := range sc.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						n++
						if !fresh(r.Results[0], d+1) {
							return false
						}
					}
				}
				return n > 0
			}
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
				sc := c.Call.StaticCallee()
				if sc == nil || d > 3 {
					return false
				}
				if o := sc.Origin(); o != nil {
					sc = o
				}
				if !p.InRepo(sc) || len(sc.Blocks) == 0 {
					return false
				}
				for _, b := range sc.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						if k, ok := r.Results[0].(*ssa.Const); ok && k.IsNil() {
							continue
						}
						if !fresh(r.Results[0], d+1) {
							return false
						}
					}
				}
				return true
			}
		case *ssa.Phi:
			if d > 3 {
				return false
			}
			for _, e := range v.Edges {
				if k, ok := e.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				if !fresh(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	res := map[*types.Var]bool{}
	markAll := func(t types.Type) { _ = t }
	_ = markAll
	p.escapedF = map[*types.Var]bool{}
	for _, f := range p.Funcs {
		if p.generated(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						fv := fieldOf(fa.X.Type(), fa.Field)
						if fv != nil && !fresh(fa.X, 0) {
							for v := ssa.Value(fa); ; {
								g, ok := v.(*ssa.FieldAddr)
								if !ok {
									break
								}
								if w := fieldOf(g.X.Type(), g.Field); w != nil {
									res[w] = true
								}
								v = g.X
							}
						}
					} else if pt, ok := in.Addr.Type().Underlying().(*types.Pointer); ok {
						// whole-struct store through a pointer that is not a fresh object
						if s, ok := types.Unalias(pt.Elem()).Underlying().(*types.Struct); ok && !fresh(in.Addr, 0) {
							for i := 0; i < s.NumFields(); i++ {
								res[s.Field(i).Origin()] = true
							}
						}
					}
				case *ssa.FieldAddr:
					// address passed on (not a load, store or nested selection): someone else may write it
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.IndexAddr:
						case *ssa.Store:
							if r.Val == in {
								if fv := fieldOf(in.X.Type(), in.Field); fv != nil {
									res[fv] = true
								}
							}
						case ssa.CallInstruction:
							if _, isStruct := types.Unalias(derefType(in.Type())).Underlying().(*types.Struct); !isStruct {
								if fv := fieldOf(in.X.Type(), in.Field); fv != nil {
									res[fv] = true
								}
							} else if strings.Contains(types.TypeString(derefType(in.Type()), nil), modPath) {
								if fv := fieldOf(in.X.Type(), in.Field); fv != nil {
									p.escapedF[fv] = true
								}
							}
						default:
							if fv := fieldOf(in.X.Type(), in.Field); fv != nil {
								res[fv] = true
							}
						}
					}
				}
			}
		}
	}
	p.unstableF = res
	return res
}

func (p *Program) stableGlobal(g *ssa.Global) bool {
	if p.globalW == nil {
		p.globalW = map[*ssa.Global]bool{}
		for _, f := range p.Funcs {
			if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gg, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						switch in.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							continue
						}
						p.globalW[gg] = true
					}
				}
			}
		}
	}
	return !p.globalW[g]
}

// nonNilGlobal: t reads a package variable that is only ever set, by its initialiser, to a freshly made error.
func (p *Program) nonNilGlobal(t *Term) bool {
	if t.op != "sload" || t.args[0].op != "global" {
		return false
	}
	g, _ := t.args[0].obj.(*ssa.Global)
	if g == nil {
		return false
	}
	if p.nnGlobal == nil {
		p.nnGlobal = map[*ssa.Global]bool{}
		for _, f := range p.Funcs {
			if f.Name() != "init" || f.Parent() != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gg, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					v := s.Val
					for {
						if m, ok := v.(*ssa.MakeInterface); ok {
							v = m.X
						} else if m, ok := v.(*ssa.ChangeInterface); ok {
							v = m.X
						} else {
							break
						}
					}
					if c, ok := v.(*ssa.Call); ok && c.Common().StaticCallee() != nil {
						switch shortName(c.Common().StaticCallee()) {
						case "psrpc.NewError", "psrpc.NewErrorf", "errors.New", "fmt.Errorf":
							p.nnGlobal[gg] = true
						}
					}
				}
			}
		}
	}
	return p.nnGlobal[g] && p.stableGlobal(g)
}

// inMutexStruct: the field belongs to a struct that carries its own mutex.
func (p *Program) inMutexStruct(f *types.Var) bool {
	if p.mutexField == nil {
		p.mutexField = map[*types.Var]bool{}
		for _, pk := range p.TPkg {
			sc := pk.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				s, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				has := false
				for i := 0; i < s.NumFields(); i++ {
					if isMutexType(s.Field(i).Type()) {
						has = true
					}
				}
				if has {
					for i := 0; i < s.NumFields(); i++ {
						p.mutexField[s.Field(i).Origin()] = true
					}
				}
			}
		}
	}
	return p.mutexField[f]
}

func isMutexType(t types.Type) bool {
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch namedOf(t) {
	case "sync.Mutex", "sync.RWMutex":
		return true
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// Roots
// ---------------------------------------------------------------------------------------------

// Root analyses fn with symbolic parameters and reports each return to the monitor.
func (x *Exec) Root(fn *ssa.Function, init func(st *State, args []*Term)) []*outcome {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, x.TT.mk("param", p.Name(), p, p.Type(), nil))
	}
	var free []*Term
	for _, p := range fn.FreeVars {
		free = append(free, x.TT.mk("free", p.Name(), p, p.Type(), nil))
	}
	st := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, locks: map[*Term]lockMode{}, mon: map[string]*Term{}}
	if init != nil {
		init(st, args)
	}
	ctx := x.TT.ctx(nil, nil, fn)
	outs := x.call(fn, ctx, args, free, st)
	for _, o := range outs {
		ev := &Event{Kind: EvReturn, Fn: fn, Ctx: ctx, Callee: fn, Name: "root", Results: o.res, Truth: o.st.panic}
		if len(o.res) > 0 {
			ev.Result = o.res[0]
		}
		x.emit(o.st, ev)
	}
	return outs
}

func (x *Exec) Stats() string {
	ks := []string{}
	for k, v := range x.Trunc {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprintf("funcs=%d states=%d inlined=%d trunc=%v exhausted=%v", len(x.funcsSeen), x.visited, x.inlined, ks, x.Exhausted)
}

func traceLines(st *State, max int) []string {
	var out []string
	for n := st.trace; n != nil; n = n.prev {
		out = append(out, n.pos+": "+n.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > max {
		out = out[len(out)-max:]
	}
	return out
}
