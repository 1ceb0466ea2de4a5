package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P23", "inductive shape analysis over SSA closures: each step of the client chain wraps the accumulated handler exactly once, from the last interceptor to the first; each link of the server chain calls its own interceptor exactly once with what it was given, the next interceptors as continuation, and no state shared between calls; per-request interceptors are appended to a fresh copy of the client's; every call, multi, stream and handler path runs through the chain built for it and never around it", p23)
}

// runClosure analyses the function value t with the given arguments from (a copy of) st.
func (x *Exec) runClosure(st *State, t *Term, at ssa.Instruction, args ...*Term) []*outcome {
	t = t.strip()
	if t == nil {
		return nil
	}
	fn, _ := t.obj.(*ssa.Function)
	if fn == nil || len(fn.Blocks) == 0 || t.op != "closure" && t.op != "func" {
		return nil
	}
	for len(args) < len(fn.Params) {
		p := fn.Params[len(args)]
		args = append(args, x.TT.mk("param", "·"+p.Name(), nil, p.Type(), nil))
	}
	s := st.clone()
	var free []*Term
	if t.op == "closure" {
		free = t.args
	}
	return x.call(fn, x.TT.ctx(nil, at, fn), args, free, s)
}

func isFreshParam(t *Term, i int, fn *ssa.Function) bool {
	t = t.strip()
	return t != nil && t.op == "param" && i < len(fn.Params) && t.aux == "·"+fn.Params[i].Name()
}

func p23(r *Run) {
	p23Client(r)
	p23Server(r)
	p23List(r)
	p23Calls(r)
	p23Streams(r)
	p23Handler(r)
	for rule, n := range map[string]int{"client-wrap": 1, "server-link": 1, "list-copied": 1, "list-order": 1, "call-chained": 4, "call-through": 2, "stream-through": 3, "handler-through": 1, "continuation": 1, "server-list": 1} {
		r.Min(rule, n)
	}
}

const chainPkg = "internal/interceptors."

// elemIdx: t is element idx of a slice that is a parameter.
func elemIdx(t *Term) (base, idx *Term) {
	t = t.strip()
	if t == nil || t.op != "load" && t.op != "sload" || t.args[0].op != "iaddr" {
		return nil, nil
	}
	return t.args[0].args[0].strip(), t.args[0].args[1]
}

func isParam(t *Term) bool { t = t.strip(); return t != nil && t.op == "param" }

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// tailOf: t is base[1:].
func tailOf(t, base *Term) bool {
	t = t.strip()
	return t != nil && t.op == "slice" && t.args[0].strip() == base && isOneInt(t.args[1]) && t.args[2].op == "none"
}

// lin is an integer term as a constant plus multiples of atoms.
type lin struct {
	c int64
	m map[*Term]int64
}

func linOf(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	l.add(t, 1)
	for k, v := range l.m {
		if v == 0 {
			delete(l.m, k)
		}
	}
	return l
}

func (l *lin) add(t *Term, k int64) {
	if n, ok := constInt(t); ok {
		l.c += k * int64(n)
		return
	}
	if t != nil && t.op == "binop" && (t.aux == "+" || t.aux == "-") && len(t.args) == 2 {
		l.add(t.args[0], k)
		if t.aux == "-" {
			k = -k
		}
		l.add(t.args[1], k)
		return
	}
	l.m[t] += k
}

// minus: l - o.
func (l lin) minus(o lin) lin {
	d := lin{c: l.c - o.c, m: map[*Term]int64{}}
	for k, v := range l.m {
		d.m[k] += v
	}
	for k, v := range o.m {
		d.m[k] -= v
		if d.m[k] == 0 {
			delete(d.m, k)
		}
	}
	return d
}

// isLenOf: l is len(base)+c.
func (l lin) isLenOf(base *Term) bool {
	if len(l.m) != 1 {
		return false
	}
	for k, v := range l.m {
		return v == 1 && k.op == "len" && k.args[0].strip() == base
	}
	return false
}

// chainOrder checks that a loop visits a slice from its last element to its first.
func chainOrder(r *Run, rule string, ev *Event, st *State) {
	idx := st.mon["idx"]
	switch ev.Kind {
	case EvCall, EvBack:
		if ev.Kind == EvBack {
			l := linOf(idx)
			step, known := int64(0), false
			for a, k := range l.m {
				ph, ok := a.obj.(*ssa.Phi)
				if !ok || a.op != "phi" || ev.Phis[ph] == nil {
					continue
				}
				d := linOf(ev.Phis[ph]).minus(linOf(a))
				if len(d.m) == 0 {
					step, known = step+k*d.c, true
				}
			}
			if known {
				r.At(step == -1, rule, ev, st, "after interceptor %v comes one %d further on: interceptors are chained from the last to the first", idx, step)
			}
			return
		}
		base, _ := elemIdx(ev.FnTerm)
		if l := linOf(idx); !st.has("iter") && len(l.m) == 0 {
			r.At(false, rule, ev, st, "interceptor %d is the first to wrap the call: it becomes the innermost", l.c)
		} else if !st.has("iter") && l.isLenOf(base) {
			r.At(l.c == -1, rule, ev, st, "the interceptors after number %v are left out of the chain", idx)
		}
	case EvReturn:
		// the loop must have passed the first element
		c := st.mon["exit"]
		if idx == nil || c == nil {
			return
		}
		var bound lin // known to be >= 0
		if st.mon["exitT"].isTrue() {
			bound = linOf(c.args[1]).minus(linOf(c.args[0]))
			bound.c--
		} else {
			bound = linOf(c.args[0]).minus(linOf(c.args[1]))
		}
		d := lin{c: -1, m: map[*Term]int64{}}.minus(linOf(idx)).minus(bound)
		if len(d.m) == 0 {
			r.At(d.c >= 0, rule, ev, st, "the chain can end before interceptor 0: the loop ends as soon as %v is %v", c, st.mon["exitT"].isTrue())
		}
	}
}

// chainLoop keeps the facts chainOrder needs.
func chainLoop(x *Exec, st *State, ev *Event) {
	if ev.Kind == EvAssume && ev.Cond.op == "lt" {
		for _, a := range ev.Cond.args {
			for t := range linOf(a).m {
				if t.op == "phi" {
					st.mon["exit"], st.mon["exitT"] = ev.Cond, x.TT.boolC(ev.Truth)
				}
			}
		}
	}
}

func p23Client(r *Run) {
	used := false
	fn := r.P.rootFn(chainPkg + "ChainClientInterceptors")
	if fn != nil {
		for _, ref := range *fn.Params[0].Referrers() {
			if c, ok := ref.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			if _, ok := ref.(*ssa.DebugRef); !ok {
				used = true
			}
		}
	}
	r.Check(used, "client-wrap", "ChainClientInterceptors", "-", "the interceptors are never used", nil)
	r.exec(chainPkg+"ChainClientInterceptors", func(x *Exec, st *State, ev *Event) {
		chainLoop(x, st, ev)
		switch ev.Kind {
		case EvCall:
			base, idx := elemIdx(ev.FnTerm)
			if base == nil || len(ev.Args) != 2 {
				return
			}
			r.At(!st.has("wrapped"), "client-wrap", ev, st, "an interceptor wraps the handler twice")
			r.At(readsFieldNamed(ev.Args[0], "RPCInfo") != nil || isParam(ev.Args[0]), "client-wrap", ev, st, "an interceptor is given %v, not the call's info", ev.Args[0])
			st.mon["wrapped"] = x.TT.boolC(true)
			st.mon["idx"] = idx
			in := ev.Args[1].strip()
			rec := selfCall(in)
			switch {
			case rec != nil:
				r.At(isZeroInt(idx) && anyTail(rec, base), "client-order", ev, st, "interceptor %v wraps %v", idx, in)
				return
			case in.op == "param":
				r.At(!st.has("iter"), "client-order", ev, st, "an interceptor wraps %v, not the handler built so far", in)
			default:
				ok := in.op == "phi" || in.op == "loopcell" || in == st.mon["last"]
				r.At(ok, "client-order", ev, st, "an interceptor wraps %v, not the handler built so far", in)
			}
			if base.op == "param" {
				chainOrder(r, "client-order", ev, st)
			}
		case EvRet:
			if base, _ := elemIdx(ev.FnTerm); base != nil && len(ev.Args) == 2 && len(ev.Results) == 1 {
				st.mon["last"] = ev.Results[0]
			}
		case EvBack:
			if !r.At(st.has("wrapped"), "client-wrap", ev, st, "an interceptor may be left out of the chain") {
				return
			}
			r.At(!leavesEarly(ev.Loop), "client-wrap", ev, st, "the chain may end before the first interceptor")
			carried := false
			for _, v := range ev.Phis {
				if v.strip() == st.mon["last"].strip() {
					carried = true
				}
			}
			for _, v := range st.heap {
				if v.strip() == st.mon["last"].strip() {
					carried = true
				}
			}
			r.At(carried, "client-order", ev, st, "what an interceptor returned is not what the next one wraps")
			chainOrder(r, "client-order", ev, st)
			st.mon["iter"] = x.TT.boolC(true)
			delete(st.mon, "wrapped")
			delete(st.mon, "exit")
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
				return
			}
			t := ev.Results[0].strip()
			if st.mon["last"] != nil {
				r.At(t.op != "param", "client-wrap", ev, st, "the chain returns %v, not the handler it built", t)
			}
			if st.mon["idx"] != nil {
				st.mon["idx"] = unstale(st.mon["idx"])
			}
			chainOrder(r, "client-order", ev, st)
		}
	}, func(x *Exec) { x.NoChain = true; x.Opaque = func(f fnT) bool { return true } })
}

// unstale: the term a monitor kept from an earlier loop iteration, read in terms of the current one.
func unstale(t *Term) *Term {
	for t != nil && t.op == "stale" {
		t = t.args[0]
	}
	return t
}

func constIs(t *Term, s string) bool { return t != nil && t.op == "const" && t.aux == s }

// selfCall: the arguments of a call of a chain-building function of the repository.
func selfCall(t *Term) []*Term {
	t = t.strip()
	if t == nil || t.op != "call" && t.op != "pcall" || !strings.HasPrefix(t.aux, chainPkg) {
		return nil
	}
	return t.args
}

func anyTail(args []*Term, base *Term) bool {
	for _, a := range args {
		if tailOf(a, base) {
			return true
		}
	}
	return false
}

// p23Server: every function of the package building server chains.
func p23Server(r *Run) {
	n := 0
	for _, fn := range r.P.pkgFuncs("internal/interceptors") {
		if fn.Parent() != nil || fn.Signature.Results().Len() != 1 {
			continue
		}
		var slice *ssa.Parameter
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isServerInterceptor(s.Elem()) {
				slice = p
			}
		}
		if slice == nil {
			continue
		}
		n++
		p23Link(r, fn, slice)
	}
	r.Check(n > 0, "server-link", "internal/interceptors", "-", "no function building server chains was found", nil)
}

func isServerInterceptor(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 4 && sig.Results().Len() == 2 && isRPCInfo(sig.Params().At(2).Type())
}

func isServerHandler(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 2 && sig.Results().Len() == 2
}

func p23Link(r *Run, fn *ssa.Function, slice *ssa.Parameter) {
	isBase := func(t *Term) bool { t = t.strip(); return t != nil && t.op == "param" && t.aux == slice.Name() }
	run := func(x *Exec, st *State, ev *Event, c *Term, wantNext *Term, where *Event) {
		f, _ := c.obj.(*ssa.Function)
		s := st.clone()
		s.mon["in"] = c
		delete(s.mon, "res")
		if wantNext != nil {
			s.mon["wantNext"] = wantNext
		}
		outs := x.runClosure(s, c, ev.Instr)
		for _, o := range outs {
			if o.st.panic {
				continue
			}
			res := o.st.mon["res"]
			r.At(res != nil, "server-link", where, o.st, "the link %s can answer without invoking its interceptor", shortName(f))
			if res != nil && len(o.res) == 2 {
				r.At(isResult(o.res[0], res, 0) && isResult(o.res[1], res, 1), "server-link", where, o.st, "the link %s returns %v, not what its interceptor returned", shortName(f), o.res)
			}
		}
	}
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		if c := st.mon["in"]; c != nil {
			p23InLink(r, x, st, ev, c, isBase)
			return
		}
		chainLoop(x, st, ev)
		switch ev.Kind {
		case EvLoad:
			if ev.Addr.op == "iaddr" && isBase(ev.Addr.args[0]) {
				st.mon["idx"] = ev.Addr.args[1]
				if l := linOf(st.mon["idx"]); !st.has("iter") && l.isLenOf(ev.Addr.args[0].strip()) {
					r.At(l.c == -1, "server-link", ev, st, "the interceptors after number %v are left out of the chain", st.mon["idx"])
				}
			}
		case EvAssume:
			if c := ev.Cond; c.op == "lt" && c.args[1].op == "len" && (isZeroInt(c.args[0]) || isParam(c.args[0])) {
				st.mon["some"] = x.TT.boolC(ev.Truth)
			} else if c.op == "lt" && c.args[0].op == "len" && isOneInt(c.args[1]) {
				st.mon["some"] = x.TT.boolC(!ev.Truth)
			}
			if ev.Cond.op == "eq" && ev.Cond.args[0].op == "len" && isZeroInt(ev.Cond.args[1]) {
				st.mon["some"] = x.TT.boolC(!ev.Truth)
			}
			if ev.Cond.op == "eq" && ev.Cond.args[0].op == "len" && isOneInt(ev.Cond.args[1]) && ev.Truth {
				st.mon["one"] = x.TT.boolC(true)
			}
		case EvBack:
			for ph, v := range ev.Phis {
				v = v.strip()
				if v != nil && v.op == "closure" && isServerHandler(v.obj.(*ssa.Function).Signature) {
					run(x, st, ev, v, x.TT.boolC(true), ev)
					_ = ph
					chainOrder(r, "server-link", ev, st)
					st.mon["iter"] = x.TT.boolC(true)
					delete(st.mon, "exit")
				}
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
				return
			}
			t := ev.Results[0].strip()
			base, idx := elemIdx(t)
			switch {
			case st.mon["some"].isFalse():
				r.At(t.isNil() || isParam(t) && !isBase(t), "server-link", ev, st, "without interceptors the handler is %v", t)
			case base != nil:
				r.At(isBase(base) && isZeroInt(idx) && st.has("one"), "server-link", ev, st, "only interceptor %v is used although there may be more", idx)
			case t.isNil() || isParam(t):
				r.At(false, "server-link", ev, st, "the configured interceptors are left out: the chain is %v", t)
			case t.op == "closure" && !st.has("iter"):
				run(x, st, ev, t, nil, ev)
			}
			if st.has("iter") {
				st.mon["idx"] = unstale(st.mon["idx"])
				chainOrder(r, "server-link", ev, st)
			}
		}
	}, func(x *Exec) { x.NoChain = true; x.Opaque = func(f fnT) bool { return f.Parent() == nil } })
}

func p23InLink(r *Run, x *Exec, st *State, ev *Event, c *Term, isBase func(*Term) bool) {
	f := c.obj.(*ssa.Function)
	switch ev.Kind {
	case EvCall:
		base, idx := elemIdx(ev.FnTerm)
		if args := selfCall(ev.FnTerm); base == nil && args != nil && len(ev.Args) == 2 {
			// the whole remaining chain, applied at once
			whole := false
			for _, a := range args {
				whole = whole || isBase(a)
			}
			r.At(whole && !st.has("res"), "server-link", ev, st, "the link %s invokes the chain of %v", shortName(f), args[0])
			r.At(isFreshParam(ev.Args[0], 0, f) && isFreshParam(ev.Args[1], 1, f), "server-link", ev, st, "the link %s passes on %v, not the context and request it was given", shortName(f), ev.Args[:2])
			return
		}
		if base == nil || len(ev.Args) != 4 {
			if ev.FnTerm != nil && ev.Callee == nil && len(ev.Args) == 2 {
				r.At(false, "server-link", ev, st, "the link %s invokes %v itself, past the remaining interceptors", shortName(f), ev.FnTerm)
			}
			return
		}
		r.At(!st.has("res"), "server-link", ev, st, "the link %s invokes an interceptor twice", shortName(f))
		r.At(isBase(base), "server-link", ev, st, "the link %s invokes an interceptor of %v", shortName(f), base)
		r.At(isFreshParam(ev.Args[0], 0, f) && isFreshParam(ev.Args[1], 1, f), "server-link", ev, st, "the link %s passes on %v, not the context and request it was given", shortName(f), ev.Args[:2])
		r.At(isParam(ev.Args[2]), "server-link", ev, st, "the link %s passes on %v as the call's info", shortName(f), ev.Args[2])
		next := ev.Args[3].strip()
		if args := selfCall(next); args != nil {
			ok := isZeroInt(idx) && anyTail(args, base)
			if !isZeroInt(idx) {
				following := false
				for _, a := range args {
					if d := linOf(a).minus(linOf(idx)); len(d.m) == 0 && d.c == 1 {
						following = true
					}
				}
				for _, a := range args {
					ok = ok || following && a.strip() == base
				}
			}
			r.At(ok, "server-link", ev, st, "after interceptor %v of %v come %v", idx, base, args[0])
			var h *Term
			for _, a := range args {
				if a = a.strip(); a.op == "param" && a.typ != nil && isServerHandler(a.typ) {
					h = a
				}
			}
			r.At(h != nil, "server-link", ev, st, "the innermost continuation is not the handler that was given: %v", args)
		} else if next.op == "param" {
			r.At(st.mon["wantNext"] != nil, "server-link", ev, st, "the link %s gives the handler itself to its interceptor although more interceptors may follow", shortName(f))
		}
	case EvRet:
		if base, _ := elemIdx(ev.FnTerm); (base != nil && len(ev.Args) == 4 || selfCall(ev.FnTerm) != nil && len(ev.Args) == 2) && len(ev.Results) > 0 {
			st.mon["res"] = tupleOf(ev.Results)
		}
	case EvStore:
		if isShared(x, c, ev.Addr) {
			r.At(false, "server-link", ev, st, "the link %s changes state shared by every call of the chain", shortName(f))
		}
	}
}

// isShared: the address is captured by the closure from outside.
func isShared(x *Exec, c *Term, a *Term) bool {
	for a != nil {
		for _, f := range c.args {
			if f == a {
				return true
			}
		}
		if a.op != "faddr" && a.op != "iaddr" {
			return false
		}
		a = a.args[0].strip()
	}
	return false
}

// tupleOf: the call whose results these are.
func tupleOf(res []*Term) *Term {
	t := res[0].strip()
	if t != nil && t.op == "extract" {
		return t.args[0]
	}
	return t
}

// p23List: the per-request interceptors follow the client's, in a list of their own.
func p23List(r *Run) {
	r.exec("pkg/client.getRequestInterceptors", func(x *Exec, st *State, ev *Event) {
		fn := ev.Fn
		isP := func(t *Term, i int) bool {
			t = t.strip()
			return t != nil && t.op == "param" && i < len(fn.Params) && t.aux == fn.Params[i].Name()
		}
		switch ev.Kind {
		case EvAssume:
			c := ev.Cond
			if c.op != "eq" && c.op != "lt" {
				return
			}
			own := func(t *Term) bool { return t.op == "len" && isP(t.args[0], 1) }
			switch {
			case c.op == "eq" && (isP(c.args[0], 1) && c.args[1].isNil() || isP(c.args[1], 1) && c.args[0].isNil() || own(c.args[0]) && isZeroInt(c.args[1]) || own(c.args[1]) && isZeroInt(c.args[0])):
				st.mon["some"] = x.TT.boolC(!ev.Truth)
			case c.op == "lt" && isZeroInt(c.args[0]) && own(c.args[1]):
				st.mon["some"] = x.TT.boolC(ev.Truth)
			case c.op == "lt" && own(c.args[0]) && isOneInt(c.args[1]):
				st.mon["some"] = x.TT.boolC(!ev.Truth)
			}
		case EvCall:
			if ev.Name == "builtin copy" && len(ev.Args) == 2 {
				d := ev.Args[0].strip()
				ok := d.op == "mkslice" && isP(ev.Args[1], 0) && d.args[0].op == "len" && isP(d.args[0].args[0], 0)
				r.At(ok, "list-copied", ev, st, "the client's interceptors are not copied in full: copy(%v, %v)", ev.Args[0], ev.Args[1])
				st.mon["base"] = x.TT.boolC(true)
			}
			if strings.HasPrefix(ev.Name, "slices.") || strings.HasPrefix(ev.Name, "golang.org/x/exp/slices.") {
				if len(ev.Args) > 0 && isP(ev.Args[0], 0) && (lastName(ev.Name) == "Clone" || lastName(ev.Name) == "Clip" || lastName(ev.Name) == "Concat") {
					r.OK("list-copied", lastName(ev.Name))
					st.mon["base"] = x.TT.boolC(true)
				}
			}
		case EvAppend:
			dst := ev.Args[0].strip()
			if isP(dst, 0) {
				r.At(false, "list-copied", ev, st, "the request's interceptors are appended to the client's own list, which concurrent calls share")
			}
			if len(ev.Args) > 1 && isP(ev.Args[1], 0) {
				ok := dst.isNil() || dst.op == "mkslice" && isZeroInt(dst.args[0]) || dst.op == "slice" && dst.args[0].op == "alloc"
				r.At(ok, "list-copied", ev, st, "the client's interceptors are appended to %v", dst)
				r.At(!st.has("own"), "list-order", ev, st, "the client's own interceptors come after the request's")
				st.mon["base"] = x.TT.boolC(true)
				return
			}
			r.At(st.has("base"), "list-order", ev, st, "a request's interceptor comes before the client's own")
			if len(ev.Args) > 1 && ev.Args[1].strip().op == "slice" && ev.Args[1].strip().args[0].op == "alloc" {
				r.At(x.inALoop(ev.Instr), "list-order", ev, st, "only one interceptor given with the request is used")
			}
			st.mon["own"] = x.TT.boolC(true)
			st.mon["it"] = x.TT.boolC(true)
		case EvBack:
			r.At(st.has("it") && !leavesEarly(ev.Loop), "list-order", ev, st, "an interceptor given with the request may be left out")
			delete(st.mon, "it")
		case EvReturn:
			if ev.Name != "root" || ev.Truth {
				return
			}
			t := ev.Results[0].strip()
			if isP(t, 0) {
				empty := st.mon["some"].isFalse()
				r.At(empty, "list-order", ev, st, "the interceptors given with the request are ignored")
			} else {
				r.At(st.has("base"), "list-copied", ev, st, "the client's interceptors are not part of the list: %v", t)
			}
		}
	}, func(x *Exec) {
		x.NoChain = true
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) && f.Pkg != nil }
	})
}

func isChainCall(ev *Event) bool {
	n := ev.Name
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	return n == chainPkg+"ChainClientInterceptors"
}

// chainResult: t is the chained handler (or a load of the field it is kept in).
func p23Calls(r *Run) {
	opt := func(x *Exec) {
		x.NoChain = true
		x.Impl = nil
		x.Opaque = func(f fnT) bool {
			n := shortName(f)
			return defaultOpaque(f) || strings.HasPrefix(n, chainPkg) || n == "pkg/client.getRequestInterceptors" || n == "pkg/client.getRequestOpts"
		}
	}
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream"} {
		stream := root == "pkg/client.OpenStream"
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvCall:
				if isChainCall(ev) {
					r.At(!st.has("chain"), "call-chained", ev, st, "the interceptors are chained around the call twice")
					l := ev.Args[0].strip()
					if c := listOf(l); c != nil {
						p23ListArgs(r, x, st, ev, c)
					} else {
						r.At(false, "call-chained", ev, st, "the interceptors chained around the call are %v: those given with the request are not part of it", l)
					}
					st.mon["chain"] = x.TT.boolC(true)
					return
				}
				if chained(x, st, ev.FnTerm) || len(ev.Args) > 0 && ev.Method != nil && chained(x, st, ev.Args[0]) {
					if lastName(ev.Name) != "Send" && ev.Method != nil {
						return
					}
					a := ev.Args
					if ev.Method != nil {
						a = a[1:]
					}
					if stream || len(a) < 3 {
						return
					}
					r.At(!st.has("through"), "call-through", ev, st, "one request goes through the interceptors twice")
					st.mon["through"] = x.TT.boolC(true)
					r.At(a[1].strip().op == "param", "call-through", ev, st, "the interceptors are given %v, not the request", a[1])
					r.At(isParam(a[0]) || isParam(ctxRoot(a[0])), "call-through", ev, st, "the interceptors are given a context not derived from the caller's: %v", a[0])
					r.At(isParam(a[2]), "call-through", ev, st, "the interceptors are given %v, not the options of the request", a[2])
				}
			case EvRet:
				if p := publishOf(ev); p != nil && p.kind == "Request" && !st.has("#go") {
					r.At(st.has("through"), "call-through", ev, st, "a request is sent past the interceptors")
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth && !stream && st.has("chain") {
					r.At(st.has("through"), "call-through", ev, st, "a call can end without its interceptors having run")
				}
			}
		}, opt)
	}
	r.exec("internal/stream.NewStream", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && isChainCall(ev) {
			r.At(isParam(ev.Args[0]), "call-chained", ev, st, "the stream's chain is built from %v, not from the interceptors it was given", ev.Args[0])
			r.At(ev.Args[2].strip().op == "alloc" && !st.has("chain"), "call-chained", ev, st, "the stream's chain ends in %v, not in the stream itself", ev.Args[2])
			st.mon["chain"] = x.TT.boolC(true)
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			r.At(st.has("chain"), "call-chained", ev, st, "a stream is made without its interceptors")
		}
	}, opt)
	for _, s := range []struct{ root, want string }{{"pkg/client.OpenStream", "client"}, {"pkg/server.RegisterStreamHandler", "server"}} {
		r.exec(s.root, func(x *Exec, st *State, ev *Event) {
			if (ev.Kind == EvEnter || ev.Kind == EvCall) && lastName(stripInst(ev.Name)) == "NewStream" && strings.HasPrefix(ev.Name, "internal/stream.") {
				for _, a := range ev.Args {
					a = a.strip()
					if a == nil || a.typ == nil && listOf(a) == nil && fieldOfLoad(a) == nil {
						continue
					}
					if c := listOf(a); c != nil {
						p23ListArgs(r, x, st, ev, c)
						st.mon["si"] = a
					} else if f := fieldOfLoad(a); f != nil && isInterceptorSlice(f.Type()) {
						r.At(s.want == "server", "call-chained", ev, st, "the interceptors given with the stream's options are not used")
						st.mon["si"] = a
					}
				}
				r.At(st.has("si"), "call-chained", ev, st, "a stream is made without the configured interceptors")
			}
		}, opt)
	}
}

func isInterceptorSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasPrefix(namedOf(s.Elem()), "psrpc.") && strings.HasSuffix(namedOf(s.Elem()), "Interceptor")
}

// listOf: the arguments of the call combining the client's and the request's interceptors.
func listOf(t *Term) []*Term {
	t = t.strip()
	if t == nil || t.op != "call" && t.op != "pcall" || stripInst(t.aux) != "pkg/client.getRequestInterceptors" {
		return nil
	}
	return t.args
}

func p23ListArgs(r *Run, x *Exec, st *State, ev *Event, c []*Term) {
	f := fieldOfLoad(c[0])
	r.At(f != nil && isInterceptorSlice(f.Type()), "call-chained", ev, st, "the client's interceptors are %v", c[0])
	r.At(readsFieldNamed(c[1], "Interceptors") != nil, "call-chained", ev, st, "the request's interceptors are %v", c[1])
}

// chained: t is what the chain returned, or is read from the field holding it.
func chained(x *Exec, st *State, t *Term) bool {
	t = t.strip()
	return t != nil && (t.op == "call" || t.op == "pcall") && strings.HasPrefix(t.aux, chainPkg+"ChainClientInterceptors")
}

// p23Streams: a stream's operations, and the delivery of a multi request's responses, go through the chain.
func p23Streams(r *Run) {
	opt := func(x *Exec) { x.NoChain = true; x.Impl = nil }
	isHandler := func(ev *Event, m string) bool {
		return ev.Kind == EvCall && ev.Callee == nil && (ev.Name == "(psrpc.StreamHandler)."+m || ev.Name == "(psrpc.ClientMultiRPCHandler)."+m)
	}
	for _, m := range []string{"Send", "Recv", "Close"} {
		r.exec("internal/stream.(stream)."+m, func(x *Exec, st *State, ev *Event) {
			if isHandler(ev, m) {
				r.At(!st.has("through"), "stream-through", ev, st, "one %s goes through the stream's interceptors twice", m)
				st.mon["through"] = tupleOrNil(ev)
				for i, a := range ev.Args[1:] {
					r.At(isParam(a), "stream-through", ev, st, "argument %d of %s is %v for the interceptors", i, m, a)
				}
			}
			if ev.Kind == EvEnter && bypass(ev, m) {
				r.At(false, "stream-through", ev, st, "%s bypasses the stream's interceptors", m)
			}
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
				r.At(st.has("through"), "stream-through", ev, st, "%s can end without its interceptors having run", m)
			}
		}, opt)
	}
	r.exec("internal/stream.(stream).HandleStream", func(x *Exec, st *State, ev *Event) {
		if isHandler(ev, "Recv") {
			r.At(!st.has("through"), "stream-through", ev, st, "one message goes through the stream's interceptors twice")
			st.mon["through"] = x.TT.boolC(true)
		}
		if (ev.Kind == EvEnter || ev.Kind == EvCall && ev.Callee != nil) && bypass(ev, "Recv") {
			r.At(false, "stream-through", ev, st, "a received message bypasses the stream's interceptors")
		}
		if ev.Kind == EvSend && chanIsField(st, ev.Addr, "recvChan") {
			r.At(st.has("through"), "stream-through", ev, st, "a received message bypasses the stream's interceptors")
		}
	}, opt)
	r.exec("pkg/client.(multiRPC).Send", func(x *Exec, st *State, ev *Event) {
		if isHandler(ev, "Recv") || isHandler(ev, "Close") {
			r.At(fieldOfLoad(ev.Args[0]) != nil, "stream-through", ev, st, "a multi request's event is delivered to %v", ev.Args[0])
		}
		if (ev.Kind == EvEnter || ev.Kind == EvCall && ev.Callee != nil) && strings.HasPrefix(stripInst(ev.Name), "(*pkg/client.multiRPC") && (lastName(ev.Name) == "Recv" || lastName(ev.Name) == "Close") {
			r.At(false, "stream-through", ev, st, "a multi request's %s bypasses its interceptors", lastName(ev.Name))
		}
	}, opt)
}

func chanIsField(st *State, ch *Term, name string) bool {
	f := fieldOfLoad(ch)
	return f != nil && f.Name() == name
}

func tupleOrNil(ev *Event) *Term {
	if ev.FnTerm != nil {
		return ev.FnTerm
	}
	return ev.Args[0]
}

func bypass(ev *Event, m string) bool {
	return strings.HasPrefix(stripInst(ev.Name), "(*internal/stream.streamBase") && lastName(ev.Name) == m
}

// p23Handler: a request reaches the service implementation only through the configured chain.
func p23Handler(r *Run) {
	r.exec("pkg/server.RegisterHandler", func(x *Exec, st *State, ev *Event) {
		if c := st.mon["cont"]; c != nil {
			p23Continuation(r, x, st, ev, c)
			return
		}
		isChain := func(t *Term) bool {
			f := fieldOfLoad(t)
			return f != nil && isServerInterceptor(f.Type())
		}
		switch ev.Kind {
		case EvSelect, EvRecv:
			if ev.Val != nil && isMsg(ev.Val, "Request") {
				delete(st.mon, "through")
			}
		case EvAssume:
			if c := ev.Cond; c.op == "eq" && (isChain(c.args[0]) && c.args[1].isNil() || isChain(c.args[1]) && c.args[0].isNil()) {
				st.mon["none"] = x.TT.boolC(ev.Truth)
			}
		case EvCall:
			if ev.FnTerm != nil && ev.Callee == nil && isChain(ev.FnTerm) && len(ev.Args) == 4 {
				r.At(!st.has("through"), "handler-through", ev, st, "one request goes through the interceptors twice")
				st.mon["through"] = x.TT.boolC(true)
				r.At(readsFieldNamed(ev.Args[2], "RPCInfo") != nil || ev.Args[2].strip().op != "zero", "handler-through", ev, st, "the interceptors are given %v as the call's info", ev.Args[2])
				c := ev.Args[3].strip()
				s := st.clone()
				s.mon["cont"] = c
				f, _ := c.obj.(*ssa.Function)
				if f == nil {
					r.At(false, "continuation", ev, st, "the interceptors' continuation is %v", c)
					return
				}
				for _, o := range x.runClosure(s, c, ev.Instr) {
					if o.st.panic || len(o.res) != 2 {
						continue
					}
					call := o.st.mon["res"]
					if r.At(call != nil, "continuation", ev, o.st, "the continuation can end without invoking the handler") {
						r.At(isResult(o.res[0], call, 0) && isResult(o.res[1], call, 1), "continuation", ev, o.st, "the continuation returns %v, not the handler's own result", o.res)
					}
				}
			} else if isUserHandler(ev) {
				r.At(st.mon["none"].isTrue(), "handler-through", ev, st, "the handler is invoked past the configured interceptors")
			}
		}
	}, func(x *Exec) { x.NoChain = true })
	r.exec("pkg/server.NewRPCServer", func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvBack:
			st.mon["opts"] = x.TT.boolC(true)
			delete(st.mon, "chain")
		case EvCall:
			if ev.FnTerm != nil && ev.Callee == nil && len(ev.Args) == 1 {
				delete(st.mon, "chain") // an option applied after the chain was built
			}
			if ev.Name == chainPkg+"ChainServerInterceptors" {
				f := fieldOfLoad(ev.Args[0])
				r.At(f != nil && isInterceptorSlice(f.Type()) || ev.Args[0].isNil() && !st.has("opts"), "server-list", ev, st, "the server's chain is built from %v", ev.Args[0])
				st.mon["chain"] = x.TT.boolC(true)
			}
		case EvReturn:
			if ev.Name == "root" && !ev.Truth {
				r.At(st.has("chain"), "server-list", ev, st, "the server's chain is not built from the interceptors its options configured")
			}
		}
	}, func(x *Exec) {
		x.NoChain = true
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || strings.HasPrefix(shortName(f), chainPkg) }
	})
}

func p23Continuation(r *Run, x *Exec, st *State, ev *Event, c *Term) {
	f := c.obj.(*ssa.Function)
	switch ev.Kind {
	case EvCall:
		if isUserHandler(ev) {
			r.At(!st.has("res"), "continuation", ev, st, "one continuation invokes the handler twice")
			r.At(ctxRoot(ev.Args[0]) != nil && isFreshParam(ctxRoot(ev.Args[0]), 0, f) || isFreshParam(ev.Args[0], 0, f), "continuation", ev, st, "the handler is given %v, not the context the interceptors passed on", ev.Args[0])
		}
	case EvRet:
		if isUserHandler(ev) && len(ev.Results) == 2 {
			st.mon["res"] = tupleOf(ev.Results)
		}
	}
}

// isResult: t is result i of the call standing for the given tuple.
func isResult(t, call *Term, i int) bool {
	t = t.strip()
	return t != nil && t.op == "extract" && t.aux == itoa(i) && t.args[0] == call
}

func (x *Exec) inALoop(in ssa.Instruction) bool {
	for _, li := range x.info(in.Parent()).loops {
		if li.body[in.Block()] {
			return true
		}
	}
	return false
}
