package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P22", "path analysis over SSA of the group registration: every member's register callback is invoked once with the given parameters in order; the first non-nil result ends the loop, the deregister callbacks of exactly the members before the failing one are invoked, and that result is returned; nil is returned only after the last member; deregistration invokes every member's deregister callback", p22)
}

type groupCheck struct {
	r    *Run
	recv string
	role map[*types.Var]int // callback field -> constructor parameter position
}

// callOfMember: a reflective call of a member's callback: the slice, the index and the callback's role.
func (g *groupCheck) callOfMember(ev *Event) (base, idx *Term, role int, ok bool) {
	if ev.Name != "(reflect.Value).Call" || len(ev.Args) != 2 {
		return nil, nil, 0, false
	}
	v := callOf(ev.Args[0], "reflect.ValueOf")
	if v == nil {
		return nil, nil, 0, false
	}
	f := v.args[0].strip()
	var fv *types.Var
	var el *Term
	switch {
	case f.op == "field" || f.op == "peek":
		fv, _ = f.obj.(*types.Var)
		el = f.args[0].strip()
	case (f.op == "load" || f.op == "sload") && f.args[0].op == "faddr":
		fv, _ = f.args[0].obj.(*types.Var)
		el = f.args[0].args[0].strip()
	}
	role, ok = g.role[fv]
	if !ok || el == nil {
		return nil, nil, 0, false
	}
	if el.op == "load" || el.op == "sload" {
		el = el.args[0].strip()
	}
	if el.op != "iaddr" {
		return nil, nil, 0, false
	}
	return el.args[0].strip(), el.args[1], role, true
}

// resultOf: t reads result i of the reflective call c.
func resultIdx(t *Term, c *Term) bool {
	t = t.strip()
	if t == nil || t.op != "load" && t.op != "sload" || t.args[0].op != "iaddr" {
		return false
	}
	return t.args[0].args[0].strip() == c.strip() && t.args[0].args[1].isConst()
}

func (g *groupCheck) params(x *Exec, st *State, ev *Event) {
	if ev.Kind == EvAppend {
		g.appended(x, st, ev)
		return
	}
	if ev.Kind != EvStore || ev.Addr.op != "iaddr" || ev.Addr.args[0].strip().op != "mkslice" {
		return
	}
	v := callOf(ev.Val, "reflect.ValueOf")
	if v == nil {
		return
	}
	l := v.args[0].strip()
	if l.op != "load" && l.op != "sload" || l.args[0].op != "iaddr" {
		return
	}
	src := l.args[0]
	g.r.At(src.args[0].strip().op == "param" && src.args[1] == ev.Addr.args[1], "params-in-order", ev, st, "parameter %v of the callbacks is %v", ev.Addr.args[1], l)
}

// appended: the parameters collected by appending them one by one, in the order they are given in.
func (g *groupCheck) appended(x *Exec, st *State, ev *Event) {
	if len(ev.Args) != 2 {
		return
	}
	es, ok := elemsOf(st, ev.Args[1])
	if !ok {
		return
	}
	for _, e := range es {
		v := callOf(e, "reflect.ValueOf")
		if v == nil {
			continue
		}
		l := v.args[0].strip()
		if l.op != "load" && l.op != "sload" || l.args[0].op != "iaddr" {
			continue
		}
		src := l.args[0]
		base := ev.Args[0].strip()
		empty := base.isNil() || base.op == "phi" || base.op == "append" || base.op == "mkslice" && len(base.args) > 0 && isZeroInt(base.args[0])
		if base.op == "slice" && base.args[0].op == "alloc" && (isZeroInt(base.args[2]) || arrayLen(base.args[0].typ.Underlying().(*types.Pointer).Elem()) == 0) {
			empty = true
		}
		g.r.At(len(es) == 1 && empty && src.args[0].strip().op == "param" && countsUp(src.args[1]), "params-in-order", ev, st, "the parameters of the callbacks are %v followed by %v", base, l)
	}
}

// countsUp: an index that starts at the first element and goes up by one.
func countsUp(t *Term) bool {
	t = t.strip()
	if isZeroInt(t) {
		return true
	}
	if t.op == "binop" && t.aux == "+" && isOneInt(t.args[1]) {
		if n, ok := constInt(t.args[0]); ok {
			return n == -1
		}
		t = t.args[0].strip()
	}
	ph, ok := t.obj.(*ssa.Phi)
	if !ok || t.op != "phi" {
		return false
	}
	for _, e := range ph.Edges {
		switch e := e.(type) {
		case *ssa.BinOp:
			if c, ok := e.Y.(*ssa.Const); e.Op.String() != "+" || e.X != ph || !ok || c.Int64() != 1 {
				return false
			}
		case *ssa.Const:
			if n := e.Int64(); n != 0 && n != -1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func p22(r *Run) {
	g := &groupCheck{r: r, role: map[*types.Var]int{}}
	r.exec("pkg/server.NewRegisterer", func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Name != "root" || len(ev.Results) != 1 {
			return
		}
		s, ok := derefNamed(ev.Results[0].typ).Underlying().(*types.Struct)
		if !ok {
			return
		}
		fn := ev.Fn
		for i := 0; i < s.NumFields(); i++ {
			v := x.peek(st, ev.Results[0], s.Field(i).Name()).strip()
			for k, p := range fn.Params {
				if v != nil && v.op == "param" && v.aux == p.Name() {
					g.role[s.Field(i)] = k
					r.OK("roles", s.Field(i).Name())
				}
			}
		}
	}, nil)
	if len(g.role) != 2 {
		g.rolesFromStores()
	}
	if fn := r.P.rootFn("pkg/server.(RegistererSlice).Register"); fn != nil {
		g.recv = fn.Params[0].Name()
	}
	r.exec("pkg/server.(RegistererSlice).Register", g.register, nil)
	if fn := r.P.rootFn("pkg/server.(RegistererSlice).Deregister"); fn != nil {
		g.recv = fn.Params[0].Name()
	}
	r.exec("pkg/server.(RegistererSlice).Deregister", g.deregister, nil)
	for rule, n := range map[string]int{"roles": 2, "params-in-order": 1, "each-registered": 1, "stop-at-failure": 1, "undo-exactly": 1, "returns-failure": 1, "all-registered": 1, "each-deregistered": 1} {
		r.Min(rule, n)
	}
}

// rolesFromStores: which constructor parameter each callback field is set from.
func (g *groupCheck) rolesFromStores() {
	fn := g.r.P.rootFn("pkg/server.NewRegisterer")
	if fn == nil {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for k, p := range fn.Params {
				if s.Val == p {
					if f := fieldVarOf(fa); f != nil {
						g.role[f] = k
						g.r.OK("roles", f.Name())
					}
				}
			}
		}
	}
}

func (g *groupCheck) register(x *Exec, st *State, ev *Event) {
	r := g.r
	g.params(x, st, ev)
	recv := func(t *Term) bool { t = t.strip(); return t != nil && t.op == "param" && t.aux == g.recv }
	if st.has("dead") {
		return
	}
	switch ev.Kind {
	case EvCall:
		base, idx, role, ok := g.callOfMember(ev)
		if !ok {
			return
		}
		if role == 0 {
			r.At(!st.has("fail"), "stop-at-failure", ev, st, "registration goes on after a member failed to register")
			r.At(recv(base) && !st.has("called"), "each-registered", ev, st, "a member is registered twice, or one outside the group")
			st.mon["called"] = x.TT.boolC(true)
			st.mon["idx"] = idx
			return
		}
		r.At(st.has("fail"), "undo-exactly", ev, st, "a member is deregistered although none failed to register")
		if !st.has("fail") {
			return
		}
		fi := st.mon["idx"]
		good := false
		switch {
		case base.op == "slice" && recv(base.args[0]): // a part of the group
			good = (base.args[1].op == "none" || isZeroInt(base.args[1])) && base.args[2] == fi
		case recv(base):
			good = x.truth(st, x.TT.mk("lt", "", nil, nil, nil, idx, fi)) == 1 || startsBelow(idx, fi)
		}
		r.At(good, "undo-exactly", ev, st, "after member %v failed, member %v of %v is deregistered", fi, idx, base)
	case EvEnter:
		if lastName(ev.Name) == "Deregister" && st.has("fail") && len(ev.Args) > 0 {
			b := ev.Args[0].strip()
			if b.op == "slice" && recv(b.args[0]) && b.args[2] == st.mon["idx"] && (b.args[1].op == "none" || isZeroInt(b.args[1])) {
				st.mon["undone"] = x.TT.boolC(true)
				p := ev.Args[len(ev.Args)-1].strip()
				r.At(p.op == "param", "undo-exactly", ev, st, "the members are deregistered with %v, not with the parameters they were registered with", p)
			}
		}
	case EvRet:
		if _, _, role, ok := g.callOfMember(ev); ok && role == 0 {
			st.mon["res"] = ev.Results[0]
		}
	case EvAssume:
		c := ev.Cond
		if c.aux == "(reflect.Value).IsNil" && len(c.args) == 1 && st.mon["res"] != nil && resultIdx(c.args[0], st.mon["res"]) {
			g.outcome(x, st, ev.Truth)
		}
		if c.op == "eq" && (c.args[0].isNil() || c.args[1].isNil()) && st.mon["res"] != nil {
			o := c.args[0]
			if o.isNil() {
				o = c.args[1]
			}
			if fromResult(o, st.mon["res"]) {
				g.outcome(x, st, ev.Truth)
			}
		}
		if c.op == "lt" && c.args[1].op == "len" && recv(c.args[1].args[0]) && !ev.Truth {
			st.mon["last"] = x.TT.boolC(true)
		}
		if st.has("fail") && c.op == "lt" {
			if c.args[1] == st.mon["idx"] && !ev.Truth || isZeroInt(c.args[1]) && ev.Truth || isOneInt(c.args[1]) && c.args[0] == st.mon["idx"] && ev.Truth || c.args[0].isConst() && c.args[0].aux == "-1" && !ev.Truth {
				st.mon["undone"] = x.TT.boolC(true)
			}
		}
	case EvBack:
		if st.has("fail") {
			return // the loop deregistering
		}
		if g.inLoop(ev.Loop, 0) {
			r.At(st.has("called"), "each-registered", ev, st, "a member may be left unregistered")
			r.At(st.has("ok"), "stop-at-failure", ev, st, "registration goes on although a member may have failed to register")
		}
		for _, k := range []string{"called", "res", "idx", "ok"} {
			delete(st.mon, k)
		}
	case EvReturn:
		if ev.Name != "root" || ev.Truth || len(ev.Results) == 0 {
			return
		}
		res := ev.Results[0]
		if st.has("fail") {
			r.At(st.has("undone") || isZeroInt(st.mon["idx"]), "undo-exactly", ev, st, "the group fails to register and leaves the members registered before it")
			r.At(fromResult(res, st.mon["res"]), "returns-failure", ev, st, "the group returns %v, not the error of the member that failed", res)
			return
		}
		if x.isNilT(st, res) == 1 {
			r.At(st.has("last") && !st.has("called"), "all-registered", ev, st, "success is reported before the last member was registered")
		}
	}
}

func (g *groupCheck) outcome(x *Exec, st *State, ok bool) {
	if ok == st.has("fail") && (ok || st.has("ok")) { // contradicts what this path already found
		st.mon["dead"] = x.TT.boolC(true)
		return
	}
	if ok {
		st.mon["ok"] = x.TT.boolC(true)
	} else {
		st.mon["fail"] = x.TT.boolC(true)
	}
}

// fromResult: the error carried by the reflective call's result.
func fromResult(t, res *Term) bool {
	for i := 0; i < 4 && t != nil; i++ {
		t = unAssert(t)
		if t = t.strip(); t == nil {
			return false
		}
		if t.op == "extract" && len(t.args) == 1 {
			t = t.args[0].strip()
		}
		if c := callOf(t, "(reflect.Value).Interface"); c != nil {
			return resultIdx(c.args[0], res)
		}
	}
	return false
}

func isZeroInt(t *Term) bool {
	n, ok := constInt(t)
	return ok && n == 0
}

func isOneInt(t *Term) bool {
	n, ok := constInt(t)
	return ok && n == 1
}

// startsBelow: a loop variable counting down from the failing index.
func startsBelow(idx, fi *Term) bool {
	idx = idx.strip()
	if idx == fi {
		return false
	}
	if idx.op == "binop" && idx.aux == "-" && idx.args[0] == fi {
		return true
	}
	ph, ok := idx.obj.(*ssa.Phi)
	if !ok || idx.op != "phi" {
		return false
	}
	down, from := false, false
	for _, e := range ph.Edges {
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op.String() != "-" {
			return false
		}
		if b.X == ph {
			down = true
		} else {
			from = true
		}
	}
	return down && from
}

// inLoop: the loop contains a call of a member's callback of the given role (or of a function making one).
func (g *groupCheck) inLoop(l *loopInfo, role int) bool {
	if l == nil {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if k, ok := g.role[fieldVarOf(fa)]; ok && k == role {
					return true
				}
			}
			if f, ok := in.(*ssa.Field); ok {
				if s, ok := f.X.Type().Underlying().(*types.Struct); ok {
					if k, ok := g.role[s.Field(f.Field)]; ok && k == role {
						return true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil && cal.Pkg != nil && cal.Pkg == l.header.Parent().Pkg && len(cal.Blocks) > 0 && len(c.Common().Args) > 0 {
					return true
				}
			}
		}
	}
	return false
}

func (g *groupCheck) deregister(x *Exec, st *State, ev *Event) {
	r := g.r
	g.params(x, st, ev)
	switch ev.Kind {
	case EvCall:
		if base, _, role, ok := g.callOfMember(ev); ok {
			r.At(role == 1, "each-deregistered", ev, st, "deregistering the group invokes a register callback")
			r.At(base.op == "param" && base.aux == g.recv, "each-deregistered", ev, st, "deregistering the group does so for %v only", base)
			st.mon["called"] = x.TT.boolC(true)
		}
	case EvAssume:
		if c := ev.Cond; c.op == "lt" && c.args[1].op == "len" && c.args[1].args[0].strip().op == "param" && c.args[1].args[0].strip().aux == g.recv && !ev.Truth || c.op == "lt" && ev.Truth && (isZeroInt(c.args[1]) || isOneInt(c.args[1]) && c.args[0].op == "len") {
			st.mon["last"] = x.TT.boolC(true)
		}
	case EvBack:
		if g.inLoop(ev.Loop, 1) {
			r.At(st.has("called") && !leavesEarly(ev.Loop), "each-deregistered", ev, st, "a member may be left registered when the group is deregistered")
		}
		delete(st.mon, "called")
	case EvReturn:
		if ev.Name == "root" && !ev.Truth {
			r.At(st.has("last"), "each-deregistered", ev, st, "deregistration of the group may end before its last member")
		}
	}
}
