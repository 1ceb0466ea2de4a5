package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P31", "taint and typestate analysis over SSA from every entry point of the bus, stream, client and server code: what a received message decides (type assertions, pointers, table entries, channel closes, counters, divisors, indexes, sizes) is followed to the operation that could panic on it, and every loop that takes messages off the bus is shown to go on after any of them", p31)
}

// p31Together: whoever sets the flag stores the error in the same function.
func p31Together(r *Run, flag, err *types.Var) {
	for _, rel := range []string{"internal/bus", "internal/stream", "pkg/client", "pkg/server"} {
		for _, f := range r.P.pkgFuncs(rel) {
			for _, in := range storesTo(f, flag) {
				if st, ok := in.(*ssa.Store); ok && st.Val.String() == "true:bool" {
					r.Check(len(storesTo(f, err)) > 0, "together", shortName(f), r.P.InstrPos(in), "the flag is set without the error that tells later callers", nil)
				}
			}
		}
	}
}

// ofMessage: t was computed from what arrived on the bus.
func ofMessage(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool {
		switch u.op {
		case "recv", "param", "fparam":
			if isWireT(u) || u.typ != nil && rawMsg(u.typ) {
				return true
			}
		case "call", "pcall", "extract":
			if g, o := wireGetter(u); g != "" && isWireT(o) {
				return true
			}
			return strings.Contains(u.aux, "UnmarshalNew") || strings.Contains(u.aux, "bus.deserialize") || strings.HasSuffix(u.aux, ".read")
		}
		return false
	})
}

func rawMsg(t types.Type) bool {
	s := t.String()
	return strings.HasSuffix(s, "nats.go.Msg") || strings.HasSuffix(s, "go-redis/v9.Message")
}

// wireGetter: t is what a generated getter of a wire message returned.
func wireGetter(t *Term) (string, *Term) {
	t = unstale(t.strip())
	if t != nil && (t.op == "call" || t.op == "pcall") && len(t.args) == 1 && strings.Contains(t.aux, "internal.") {
		n := lastName(t.aux)
		if strings.HasPrefix(n, "Get") {
			return n, t.args[0].strip()
		}
	}
	return "", nil
}

func wireGot(t *Term) bool { g, o := wireGetter(t); return g != "" && isWireT(o) }

func isOneofWrap(t types.Type) bool {
	n, ok := derefNamed(t).(*types.Named)
	if !ok {
		return false
	}
	for i := 0; i < n.NumMethods(); i++ {
		if strings.HasPrefix(n.Method(i).Name(), "is") && strings.Contains(n.Method(i).Name(), "_") {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// fromTable: the table entry t is, or is a part of.
func fromTable(t *Term) *Term {
	for t != nil {
		t = unstale(t.strip())
		switch t.op {
		case "lookup":
			return t
		case "field", "peek":
			t = t.args[0]
		default:
			return nil
		}
	}
	return nil
}

// subscribedChan: the channel is that of a bus subscription.
func subscribedChan(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool {
		return (u.op == "call" || u.op == "pcall") && strings.HasSuffix(u.aux, "Subscription).Channel")
	})
}

func p31(r *Run) {
	pump(r, false)
	n, pairs := 0, map[[2]*types.Var]bool{}
	roots := append(r.P.entryPoints("internal/bus"), r.P.entryPoints("internal/stream", "pkg/client", "pkg/server")...)
	for _, f := range r.P.pkgFuncs("internal/bus") { // decoders
		if ps := f.Signature.Params(); f.Parent() == nil && ps.Len() > 0 && ps.At(0).Type().String() == "[]byte" {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			p31On(r, pairs, shortName(f), x, st, ev)
		}, func(x *Exec) {
			old := x.Opaque
			x.Opaque = func(f fnT) bool {
				if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "psrpc/internal") {
					return true // generated code
				}
				if strings.HasSuffix(stripInst(shortName(f)), "internal/bus.newSubscription") {
					return false
				}
				return old != nil && old(f)
			}
			x.Impl = func(ev *Event) []types.Type {
				if n, ok := types.Unalias(ev.FnType).(*types.Named); ok && n.Obj().Pkg() != nil && !n.Obj().Exported() && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/bus") {
					return r.P.implTypes(ev.FnType, "internal/bus")
				}
				if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "internal/stream") {
					return nil // the other side is entered by itself
				}
				return r.P.repoImpl(ev)
			}
		})
		n++
	}
	for p := range pairs {
		p31Together(r, p[0], p[1])
	}
	r.notes = append(r.notes, fmt.Sprintf("%d entry points", n))
	for rule, n := range map[string]int{"assert": 1, "nil": 10, "entry": 4, "serving": 4, "blocking": 3, "size": 1} {
		r.Min(rule, n)
	}
}

func p31On(r *Run, pairs map[[2]*types.Var]bool, root string, x *Exec, st *State, ev *Event) {
	yes := x.TT.boolC(true)
	depth := goDepth(st)
	switch ev.Kind {
	case EvAssume:
		p31Assume(pairs, x, st, ev.Cond, ev.Truth)

	case EvType:
		in, ok := ev.Instr.(*ssa.TypeAssert)
		v := unstale(ev.Val.strip())
		from := v
		if v.op == "extract" && len(v.args) == 1 {
			from = v.args[0]
		}
		if !ok || !ofMessage(v) || (from.op == "call" || from.op == "pcall") && !strings.Contains(from.aux, "Unmarshal") && !strings.Contains(from.aux, "bus.deserialize") && !wireGot(v) {
			return // what other code computed from a message has the type that code gave it
		}
		v = unstale(ev.Val)
		if !in.CommaOk && v.op == "iface" {
			if t, ok := v.obj.(types.Type); ok && types.Identical(t, in.AssertedType) {
				return
			}
		}
		known := in.CommaOk
		if !known {
			for c, v := range st.facts {
				known = known || v && c.op == "istype" && c.args[0] == ev.Val
			}
		}
		r.At(known, "assert", ev, st, "a message of another type than %v makes the type assertion panic", in.AssertedType)

	case EvDeref:
		p31Nil(r, x, st, ev, ev.Addr)

	case EvLookup:
		if ofMessage(ev.Key) {
			st.mon["look:"+itoa(ev.Val.id)] = yes
			st.mon["held:"+itoa(ev.Val.id)] = ev.Val
		}
	case EvMapDel:
		for k, v := range st.mon {
			if strings.HasPrefix(k, "held:") {
				if l := unstale(v); l != nil && len(l.args) > 1 && same(l.args[0], ev.Addr) && same(l.args[1], ev.Key) {
					st.mon["gone:"+k[5:]] = yes
				}
			}
		}
	case EvMapUpd:
		if m := unstale(ev.Addr.strip()); m != nil && fieldOfLoad(m) != nil && strings.HasPrefix(namedOf(derefNamed(baseObj2(m))), "internal.") || wireGot(m) {
			r.At(p31Known(x, st, m), "nil", ev, st, "the map of a received message, which may be nil, is written to")
		}

	case EvSend:
		p31Entry(r, x, st, ev, ev.Addr, "sent to")
		if isWireT(ev.Val) && st.has("loop:"+depth) {
			r.At(false, "blocking", ev, st, "the loop that takes messages off the bus stops until somebody reads the one it forwards")
		}
		p31Send(r, x, st, ev, ev.Val)
	case EvRecv:
		p31Took(x, st, ev, ev.Addr, ev.ChanT, nil)
		if st.has("loop:" + depth) {
			// nothing
		}
	case EvSelect:
		sends, recvs := 0, 0
		wire := false
		for _, c := range ev.Sel.Cases {
			if c.Dir == types.SendOnly {
				sends++
				wire = wire || isWireT(c.Send)
			} else {
				recvs++
			}
		}
		if wire && st.has("loop:"+depth) {
			r.At(!ev.Sel.Blocking || recvs > 0, "blocking", ev, st, "the loop that takes messages off the bus stops until somebody reads the one it forwards")
		}
		if ev.Case >= 0 {
			c := ev.Sel.Cases[ev.Case]
			if c.Dir == types.SendOnly {
				p31Entry(r, x, st, ev, c.Chan, "sent to")
				p31Send(r, x, st, ev, c.Send)
			} else {
				p31Took(x, st, ev, c.Chan, c.T, ev.Val)
			}
		}
	case EvBlock:
		for _, c := range ev.Sel.Cases {
			if ev.Sel.Blocking && fromTable(c.Chan) != nil {
				p31Entry(r, x, st, ev, c.Chan, "waited for on")
			}
		}

	case EvClose:
		if l := fromTable(ev.Addr); l != nil && ofMessage(l.args[1]) {
			p31Entry(r, x, st, ev, ev.Addr, "closed on")
			r.At(st.has("gone:"+itoa(l.id)), "close-once", ev, st, "a repeated message closes the channel twice: its entry is not removed from the table in the critical section in which it was found")
			return
		}
		if st.has("handles") {
			r.At(st.has("once") || st.has("own:"+itoa(unstale(ev.Addr.strip()).id)), "close-once", ev, st, "a repeated message closes the channel twice")
		}

	case EvCall:
		p31Call(r, x, st, ev)

	case EvIndex:
		p31Index(r, x, st, ev)
	case EvDivide:
		if _, ok := constInt(ev.Key); ok {
			return
		}
		p31Divide(r, x, st, ev)
	case EvMake:
		if ofMessage(ev.Key) && !ev.Key.any(func(u *Term) bool { return u.op == "len" }) {
			r.At(false, "size", ev, st, "what a message says decides how much is allocated")
		} else {
			r.OK("size", shortName(ev.Fn))
		}

	case EvPanic:
		if _, ok := ev.Instr.(*ssa.Panic); ok && st.has("handles") {
			r.At(false, "panic", ev, st, "handling a message panics")
		}

	case EvLoad:
		if f := fieldOfAddr(ev.Addr); f != nil && len(st.locks) > 0 && isBoolT(f.Type()) {
			switch x.truth(st, ev.Val) {
			case 0:
				st.mon["unset:"+itoa(int(f.Pos()))] = yes
			case 1:
				st.mon["set:"+itoa(int(f.Pos()))] = x.TT.mk("load", "", nil, f.Type(), nil, ev.Addr)
			}
		}
	case EvStore:
		if f := fieldOfAddr(ev.Addr); f != nil && ev.Val.isTrue() && len(st.locks) > 0 && st.has("unset:"+itoa(int(f.Pos()))) {
			st.mon["once"] = yes
		}

	case EvReturn:
		if ev.Name != "go" || ev.Truth {
			return
		}
		if st.has("loop:" + depth) {
			bad := st.has("got:" + depth)
			r.At(!bad, "serving", ev, st, "the loop that takes messages off the bus ends because of a message")
		}
	case EvBack:
		delete(st.mon, "got:"+depth)
		if st.has("loop:" + depth) {
			r.OK("serving", shortName(ev.Fn))
		}
	}
}

// p31Assume records what is known of messages and table entries.
func p31Assume(pairs map[[2]*types.Var]bool, x *Exec, st *State, c *Term, truth bool) {
	yes := x.TT.boolC(true)
	for c.op == "not" {
		c, truth = c.args[0], !truth
	}
	switch c.op {
	case "eq":
		if !c.args[1].isNil() {
			return
		}
		a := unstale(c.args[0].strip())
		if !truth {
			if isWireT(a) || fromTable(a) != nil || ofMessage(a) && a.typ != nil && isMapType(a.typ) {
				st.mon["nn:"+itoa(a.id)] = yes
			}
			if g, o := wireGetter(a); g != "" {
				st.mon["nn:"+g+":"+itoa(o.id)] = yes
			}
			return
		}
		if f := fieldOfLoad(a); f != nil && isErrIface(f.Type()) {
			for k, v := range st.mon {
				if strings.HasPrefix(k, "set:") {
					// a flag is set and the error kept with it is nil: not reachable if both are always set together
					st.mon["noerr"], st.mon["once"] = yes, yes
					pairs[[2]*types.Var{fieldOfLoad(unstale(v)).Origin(), f.Origin()}] = true
				}
			}
		}
		if a.op == "recv" {
			delete(st.mon, "got:"+goDepth(st))
		}
	case "lookupok":
		if truth && len(c.args) == 2 {
			st.mon["there:"+itoa(c.args[0].id)+":"+itoa(c.args[1].id)] = yes
		}
	case "recvok":
		if !truth {
			delete(st.mon, "got:"+goDepth(st))
		}
	default:
		if !truth && c.op == "extract" && strings.HasSuffix(c.args[0].aux, ".read") {
			delete(st.mon, "got:"+goDepth(st))
		}
	}
	if c.op == "istype" && truth && (readsFieldNamed(c.args[0], "Body") != nil || wireGot(c.args[0])) {
		st.mon["handles"] = yes
	}
	if f := fieldOfLoad(c); f != nil && truth {
		st.mon["set:"+itoa(int(f.Pos()))] = c
	}
	if f := fieldOfLoad(c); f != nil && !truth && len(st.locks) > 0 {
		st.mon["unset:"+itoa(int(f.Pos()))] = yes
	}
}

func p31Known(x *Exec, st *State, t *Term) bool {
	t = unstale(t.strip())
	if x.isNilT(st, t) == 0 || st.has("nn:"+itoa(t.id)) {
		return true
	}
	if g, o := wireGetter(t); g != "" {
		return st.has("nn:" + g + ":" + itoa(o.id))
	}
	return false
}

// p31Nil: a pointer that a message decides is known not to be nil when it is followed.
func p31Nil(r *Run, x *Exec, st *State, ev *Event, a *Term) {
	a = unstale(a.strip())
	if a == nil || a.typ == nil || !isPtr(a.typ) {
		return
	}
	switch {
	case a.op == "recv" && isWireT(a):
		if !subscribedChan(a.args[0]) {
			return // forwarded by the loops, which drop nil (rule forward)
		}
	case isWireT(a) && fieldOfLoad(a) != nil:
		if f := fieldOfLoad(a); isOneofWrap(baseObj2(a)) || f == nil {
			return // set by the decoder together with its wrapper
		}
	case isWireT(a):
		if g, _ := wireGetter(a); g == "" {
			return
		}
	default:
		return
	}
	r.At(p31Known(x, st, a), "nil", ev, st, "a message without this part, or the end of the subscription, makes it dereference nil")
}

// baseObj2: the type of the object whose field t was read from.
func baseObj2(t *Term) types.Type {
	if len(t.args) > 0 && t.args[0].op == "faddr" && len(t.args[0].args) > 0 {
		if b := unstale(t.args[0].args[0].strip()); b != nil && b.typ != nil {
			return b.typ
		}
	}
	return types.Typ[types.Invalid]
}

// p31Entry: a table entry that a message names is used only when it exists.
func p31Entry(r *Run, x *Exec, st *State, ev *Event, t *Term, how string) {
	l := fromTable(t)
	if l == nil || !ofMessage(l.args[1]) {
		return
	}
	ok := st.has("there:"+itoa(l.args[0].id)+":"+itoa(l.args[1].id)) || p31Known(x, st, t) || p31Known(x, st, l)
	if !ok {
		for c, v := range st.facts {
			ok = ok || v && c.op == "lookupok" && len(c.args) == 2 && same(c.args[0], l.args[0]) && same(c.args[1], l.args[1])
		}
	}
	if !ok && ev.Sel != nil {
		ok = !ev.Sel.Blocking && ev.Kind != EvClose // a nil channel is never chosen
	}
	r.At(ok, "entry", ev, st, "a message with an unknown id: nothing is in the table, and what is %s is nil", how)
}

// p31Send: what is forwarded to requests and streams is not nil.
func p31Send(r *Run, x *Exec, st *State, ev *Event, v *Term) {
	v = unstale(v.strip())
	if v == nil || !isWireT(v) || v.op != "recv" || !subscribedChan(v.args[0]) {
		return
	}
	r.At(p31Known(x, st, v), "forward", ev, st, "the nil that ends a subscription is forwarded as a message")
}

// p31Took: a loop took something off a subscription.
func p31Took(x *Exec, st *State, ev *Event, ch *Term, ct *types.Chan, v *Term) {
	depth := goDepth(st)
	if depth == "" || depth == "0" || !x.inALoop(ev.Instr) {
		return
	}
	if subscribedChan(ch) || chanElemIs(ct, "internal.Stream") {
		st.mon["loop:"+depth], st.mon["got:"+depth] = x.TT.boolC(true), x.TT.boolC(true)
		st.mon["took"] = x.TT.boolC(true)
	} else {
		delete(st.mon, "got:"+depth)
	}
}

func p31Call(r *Run, x *Exec, st *State, ev *Event) {
	yes := x.TT.boolC(true)
	depth := goDepth(st)
	switch n := isLockCall(ev); n {
	case "unlock", "runlock":
		for k := range st.mon {
			if strings.HasPrefix(k, "held:") || strings.HasPrefix(k, "unset:") {
				delete(st.mon, k)
			}
		}
	}
	switch {
	case strings.HasSuffix(ev.Name, ".read") && x.inALoop(ev.Instr) && depth != "" && depth != "0":
		st.mon["loop:"+depth], st.mon["got:"+depth] = yes, yes

	case ev.Name == wgName+"Add":
		st.mon["add:"+waitKey("", ev.Args[0])] = yes
		st.mon["mine:"+depth+waitKey("", ev.Args[0])] = yes
	case ev.Name == wgName+"Done":
		k := waitKey("", ev.Args[0])
		if !st.has("handles") && !st.has("took") {
			return
		}
		r.At(st.has("add:"+k) || st.has("noerr"), "count", ev, st, "the count can go negative: nothing was added on this path")
		delete(st.mon, "mine:"+depth+k)
	case ev.Name == wgName+"Wait":
		r.At(!st.has("mine:"+depth+waitKey("", ev.Args[0])) || x.addedFor(st, ev), "self-wait", ev, st, "handling a message waits for its own completion")

	case strings.HasSuffix(ev.Name, "psrpc.NewError") || ev.Name == "NewError":
		if len(ev.Args) > 1 {
			r.At(x.isNilT(st, ev.Args[1]) == 0, "panic", ev, st, "an error is built from nil, which panics")
		}
	}
	if ev.Method != nil && len(ev.Args) > 0 {
		p31Entry(r, x, st, ev, ev.Args[0], "called")
	}
	if ev.Callee != nil && ev.Callee.Signature.Recv() != nil && len(ev.Args) > 0 && isPtr(ev.Args[0].typ) {
		if fromTable(ev.Args[0]) == unstale(ev.Args[0].strip()) {
			p31Entry(r, x, st, ev, ev.Args[0], "called")
		}
	}
}

// addedFor: what was added belongs to goroutines started for it, not to the caller.
func (x *Exec) addedFor(st *State, ev *Event) bool {
	for k := range st.mon {
		if strings.HasPrefix(k, "add:") {
			return !st.has("handles")
		}
	}
	return true
}

func p31Index(r *Run, x *Exec, st *State, ev *Event) {
	b, i := unstale(ev.Addr.strip()), unstale(ev.Key.strip())
	if l := fromTable(b); l == nil || !ofMessage(l.args[1]) {
		if !ofMessage(b) && !ofMessage(i) {
			return
		}
	}
	ok := i.op == "mod" || i.op == "binop" && i.aux == token.REM.String()
	ok = ok || x.truth(st, x.TT.mk("lt", "", nil, nil, nil, i, x.lenT(st, b))) == 1 || st.has("some:"+itoa(b.id))
	if k, c := constInt(i); c {
		ok = ok || k >= 0 && int64(k) < knownLen(b)
	} else if !ok {
		ok = x.inALoop(ev.Instr) // the index of a loop over it
	}
	r.At(ok, "index", ev, st, "a message decides which element is used, and there may be none")
}

func (x *Exec) lenT(st *State, b *Term) *Term {
	return x.TT.mk("len", "", nil, types.Typ[types.Int], nil, b)
}

func p31Divide(r *Run, x *Exec, st *State, ev *Event) {
	k := unstale(ev.Key.strip())
	zero := x.truth(st, x.eq(st, k, x.TT.intC(0)))
	// the length of a list kept in a table: P30 shows that no list stays there empty, so its being there is enough
	if l := k; zero != 0 {
		for l.op == "convert" || l.op == "conv" {
			l = unstale(l.args[0].strip())
		}
		if l.op == "len" && fieldOfLoad(l.args[0]) != nil {
			if e := fromTable(fieldBase(l.args[0])); e != nil && isPtr(e.typ) {
				p31Entry(r, x, st, ev, e, "counted")
				return
			}
		}
	}
	r.At(zero == 0, "divide", ev, st, "the divisor can be zero")
}
