package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------------------------
// Abstract state
// ---------------------------------------------------------------------------------------------

type lockMode int

const (
	lockR lockMode = 1
	lockW lockMode = 2
)

type traceNode struct {
	prev *traceNode
	pos  string
	msg  string
}

// State is one abstract state: heap cells, branch facts, held locks, and the rule automaton's memory.
type State struct {
	heap  map[*Term]*Term
	facts map[*Term]bool
	locks map[*Term]lockMode
	mon   map[string]*Term
	panic bool
	rec   bool // recover() consumed the panic
	trace *traceNode
	gor   int // goroutine nesting
}

func (s *State) clone() *State {
	n := &State{heap: make(map[*Term]*Term, len(s.heap)), facts: make(map[*Term]bool, len(s.facts)), locks: make(map[*Term]lockMode, len(s.locks)), mon: make(map[string]*Term, len(s.mon)), panic: s.panic, rec: s.rec, trace: s.trace, gor: s.gor}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	return n
}

func (s *State) key(b *strings.Builder) { s.keyF(b, true) }

func (s *State) keyF(b *strings.Builder, withFacts bool) {
	ids := make([]int, 0, len(s.heap))
	m := map[int]int{}
	for k, v := range s.heap {
		ids = append(ids, k.id)
		m[k.id] = v.id
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(b, "%d=%d;", i, m[i])
	}
	if withFacts {
		b.WriteString("|F")
		ids = ids[:0]
		for k, v := range s.facts {
			x := k.id * 2
			if v {
				x++
			}
			ids = append(ids, x)
		}
		sort.Ints(ids)
		for _, i := range ids {
			fmt.Fprintf(b, "%d;", i)
		}
	}
	b.WriteString("|L")
	ids = ids[:0]
	for k, v := range s.locks {
		ids = append(ids, k.id*4+int(v))
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(b, "%d;", i)
	}
	b.WriteString("|M")
	ks := make([]string, 0, len(s.mon))
	for k := range s.mon {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(b, "%s=%d;", k, s.mon[k].id)
	}
	if s.panic {
		b.WriteString("P")
	}
}

func (s *State) note(pos, msg string) {
	s.trace = &traceNode{prev: s.trace, pos: pos, msg: msg}
}

// has reports whether mon key k is set.
func (s *State) has(k string) bool { _, ok := s.mon[k]; return ok }

// ---------------------------------------------------------------------------------------------
// Events and monitors
// ---------------------------------------------------------------------------------------------

type EvKind int

const (
	EvCall   EvKind = iota // call of something not inlined (external, interface, dynamic) – before its effect
	EvRet                  // same, after its result is known
	EvEnter                // about to inline an in-repo function
	EvLeave                // returned from an inlined function (per outcome)
	EvStore                // store through a pointer
	EvLoad                 // load through a pointer
	EvMapUpd               // m[k] = v
	EvMapDel               // delete(m,k)
	EvLookup               // m[k]
	EvSend                 // unconditional channel send
	EvRecv                 // unconditional channel receive
	EvSelect               // a select case was taken
	EvBlock                // a select statement is about to block (before choosing)
	EvClose                // close(ch)
	EvGo                   // go statement
	EvDefer                // defer statement
	EvAssume               // branch assumption
	EvReturn               // the analysed root returns
	EvBack                 // loop back edge
	EvPanic                // explicit panic or a panicking call
	EvAppend               // append(x, y...)
	EvType                 // type assertion
	EvDeref                // field access through a pointer (for nil checks)
	EvPhi
	EvNext   // the next step of ranging over a map
	EvIndex  // an element of a slice, array or string is addressed (Addr, Key)
	EvDivide // integer division or remainder (Addr dividend, Key divisor)
	EvMake   // a slice or channel of the size Key is made
)

var evNames = []string{"call", "ret", "enter", "leave", "store", "load", "mapupd", "mapdel", "lookup", "send", "recv", "select", "block", "close", "go", "defer", "assume", "return", "back", "panic", "append", "type", "deref", "phi", "next", "index", "divide", "make"}

// Event is one program action on an abstract path.
type Event struct {
	Kind    EvKind
	Instr   ssa.Instruction
	Fn      *ssa.Function
	Ctx     *Ctx
	Name    string // callee name, normalised
	Callee  *ssa.Function
	Method  *types.Func
	FnTerm  *Term      // dynamic callee value
	FnType  types.Type // static type of the dynamic callee
	Args    []*Term    // call arguments, receiver first
	Result  *Term
	Results []*Term
	Addr    *Term // store/load address; map; channel
	Key     *Term
	Val     *Term
	Cond    *Term
	Truth   bool
	Sel     *SelInfo
	Case    int // select: chosen case (-1 = default)
	MapT    *types.Map
	ChanT   *types.Chan
	Defer   bool // executed as a deferred call
	Loop    *loopInfo
	Small   bool               // back edge: the loop is run through iteration by iteration
	Phis    map[*ssa.Phi]*Term // back edge: value each header phi would receive
	ToCtx   *Ctx
}

type SelCase struct {
	Dir  types.ChanDir
	Chan *Term
	Send *Term
	T    *types.Chan
}

type SelInfo struct {
	Blocking bool
	Cases    []SelCase
}

// Monitor is a rule automaton: it sees every event and keeps its memory in State.mon.
type Monitor interface {
	On(x *Exec, st *State, ev *Event)
}

type monFunc func(x *Exec, st *State, ev *Event)

func (f monFunc) On(x *Exec, st *State, ev *Event) { f(x, st, ev) }

// ---------------------------------------------------------------------------------------------
// Exec: one analysis run
// ---------------------------------------------------------------------------------------------

type Exec struct {
	P  *Program
	TT *termTable
	M  Monitor

	Opaque    func(*ssa.Function) bool // do not inline
	onSpawned func(*State)             // run at the end of the next spawned goroutine
	FollowGo  bool
	MayPanic  func(*Event) bool
	// Impl resolves an interface method call on an unknown receiver to the possible in-repo dynamic types (nil = leave opaque).
	Impl func(ev *Event) []types.Type
	// DynImpl resolves a call of an unknown function value.
	DynImpl func(ev *Event) []*Term
	// Model overrides the effect of a call. Returns handled and outcomes.
	Model func(x *Exec, st *State, ev *Event) (bool, []callOut)

	// NoChain leaves interceptor values opaque instead of assuming that they delegate to the handler they are given.
	NoChain bool

	MaxDepth int
	Budget   int

	steps     int
	visited   int // (block,state) pairs
	funcsSeen map[*ssa.Function]bool
	goSeen    map[string]bool
	events    map[EvKind]int
	Exhausted bool
	Trunc     map[string]int
	unstable  map[*types.Var]bool
	collect   func(field *types.Var) // pass-1 hook for unstable fields
	fnInfo    map[*ssa.Function]*fnInfo
	calls     map[string]int
	inlined   int
	// Precise keeps branch facts of different paths apart at join points; otherwise states that agree on
	// everything but facts are merged (their common facts survive).
	Precise  bool
	cellVals map[string]*Term
	loopVals map[string]map[*Term]bool
	Init     func(st *State, args []*Term) // extra setup of the root state
}

type callOut struct {
	st  *State
	res []*Term
}

func NewExec(p *Program, m Monitor) *Exec {
	return &Exec{P: p, TT: newTermTable(), M: m, MaxDepth: 14, Budget: 3_000_000, funcsSeen: map[*ssa.Function]bool{}, goSeen: map[string]bool{}, events: map[EvKind]int{}, Trunc: map[string]int{}, unstable: p.unstableFields(), fnInfo: map[*ssa.Function]*fnInfo{}, calls: map[string]int{}, Opaque: defaultOpaque, FollowGo: true}
}

type outcome struct {
	st  *State
	res []*Term
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	ev    *Event
}

type item struct {
	b      *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	st     *State
	defers []*deferred
	key    string
}

type fnInfo struct {
	live  []map[ssa.Value]bool // live-in per block
	loops map[*ssa.BasicBlock]*loopInfo
	rpo   []int
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	cand   *ssa.Phi // the counter of a loop that may be short, depending on bound
	bound  ssa.Value
	small  *ssa.Phi // the counter of a loop known to run at most maxTrips times
}

const maxTrips = 4

// findSmall: a counting loop over a short array literal (or up to a small constant) is run through iteration by
// iteration instead of being summarised.
func (li *loopInfo) findSmall() {
	h := li.header
	cond, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !li.body[h.Succs[0]] || li.body[h.Succs[1]] {
		return
	}
	lt, ok := cond.Cond.(*ssa.BinOp)
	if !ok || lt.Op != token.LSS {
		return
	}
	n := int64(-1)
	switch y := lt.Y.(type) {
	case *ssa.Const:
		if y.Value != nil && y.Value.Kind() == constant.Int {
			n = y.Int64()
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if sl, ok := y.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					n = arrayLen(al.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		}
	}
	if n > maxTrips {
		return
	}
	step := func(v ssa.Value) *ssa.Phi {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() == 1 {
				if ph, ok := b.X.(*ssa.Phi); ok && ph.Block() == h {
					return ph
				}
			}
		}
		return nil
	}
	ph := step(lt.X)
	if ph == nil {
		ph, _ = lt.X.(*ssa.Phi)
	}
	if ph == nil || ph.Block() != h {
		return
	}
	for i, e := range ph.Edges {
		if li.body[h.Preds[i]] {
			if step(e) != ph {
				return
			}
		} else if c, ok := e.(*ssa.Const); !ok || c.Value == nil || c.Int64() < -1 {
			return
		}
	}
	if n < 0 {
		li.cand, li.bound = ph, lt.Y
		return
	}
	li.small = ph
}

// smallIn: the counter of the loop if it is known to run at most maxTrips times when entered from here.
func (x *Exec) smallIn(a *act, li *loopInfo, env map[ssa.Value]*Term) *ssa.Phi {
	if li.small != nil || li.cand == nil {
		return li.small
	}
	if in, ok := li.bound.(ssa.Instruction); ok && li.body[in.Block()] {
		return nil
	}
	if n := x.val(a, env, li.bound); n != nil && n.isConst() {
		if c := n.constant(); c != nil && c.Kind() == constant.Int {
			if v, ok := constant.Int64Val(c); ok && v >= 0 && v <= maxTrips {
				return li.cand
			}
		}
	}
	return nil
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.fnInfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	fi.rpo = make([]int, len(fn.Blocks))
	{
		n := len(fn.Blocks)
		vis := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			vis[b] = true
			for _, s := range b.Succs {
				if !vis[s] {
					dfs(s)
				}
			}
			n--
			fi.rpo[b.Index] = n
		}
		dfs(fn.Blocks[0])
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = li
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[n] {
						continue
					}
					li.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, li := range fi.loops {
		li.findSmall()
	}
	// liveness
	n := len(fn.Blocks)
	fi.live = make([]map[ssa.Value]bool, n)
	liveOut := make([]map[ssa.Value]bool, n)
	for i := range fi.live {
		fi.live[i] = map[ssa.Value]bool{}
		liveOut[i] = map[ssa.Value]bool{}
	}
	isLocal := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := liveOut[i]
			for _, s := range b.Succs {
				for v := range fi.live[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && (k == pi || true) {
							if v := ph.Edges[k]; isLocal(v) && !out[v] {
								out[v] = true
								changed = true
							}
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isLocal(*op) {
						in[*op] = true
					}
				}
			}
			// phis are defined at block entry from the edge
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					// the phi value itself is supplied at entry
					if out[ph] || usedIn(ph, b) {
						in[ph] = true
					}
				}
			}
			for v := range in {
				if !fi.live[i][v] {
					fi.live[i][v] = true
					changed = true
				}
			}
		}
	}
	// a phi is not live out of its predecessors merely because the block lists it as live-in
	x.fnInfo[fn] = fi
	return fi
}

func usedIn(ph *ssa.Phi, b *ssa.BasicBlock) bool {
	for _, r := range *ph.Referrers() {
		if r.Block() == b {
			return true
		}
	}
	return false
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------------------------------------
// Function execution
// ---------------------------------------------------------------------------------------------

type act struct {
	fn    *ssa.Function
	ctx   *Ctx
	args  []*Term
	free  []*Term
	outs  map[string]*outcome
	order []string
	seen  map[string]map[*Term]bool // facts already propagated per block-entry key
	pend  map[string]*item
	work  []*item
	fi    *fnInfo
}

// push adds an item; the worklist is kept so that blocks early in reverse postorder run first.
func (a *act) push(it *item) { a.work = append(a.work, it) }

func (a *act) pop() *item {
	best := len(a.work) - 1
	for i := len(a.work) - 1; i >= 0; i-- {
		w, b := a.work[i], a.work[best]
		if w.idx > 0 && b.idx == 0 {
			best = i
		} else if (w.idx > 0) == (b.idx > 0) && a.fi.rpo[w.b.Index] < a.fi.rpo[b.b.Index] {
			best = i
		}
	}
	it := a.work[best]
	a.work = append(a.work[:best], a.work[best+1:]...)
	if it.key != "" {
		delete(a.pend, it.key)
	}
	return it
}

// meet keeps the facts common to both states; reports whether dst changed.
func meet(dst, src map[*Term]bool) bool {
	ch := false
	for f, v := range dst {
		if w, ok := src[f]; !ok || w != v {
			delete(dst, f)
			ch = true
		}
	}
	return ch
}

// call analyses fn from state st; every returned outcome is one abstract way of returning (or panicking).
func (x *Exec) call(fn *ssa.Function, ctx *Ctx, args, free []*Term, st *State) []*outcome {
	x.funcsSeen[fn] = true
	a := &act{fn: fn, ctx: ctx, args: args, free: free, outs: map[string]*outcome{}, seen: map[string]map[*Term]bool{}, pend: map[string]*item{}, fi: x.info(fn)}
	a.push(&item{b: fn.Blocks[0], env: map[ssa.Value]*Term{}, st: st})
	for len(a.work) > 0 {
		it := a.pop()
		if x.Budget <= 0 || giveUp.Load() {
			x.Exhausted = true
			break
		}
		x.run(a, it)
	}
	res := make([]*outcome, 0, len(a.order))
	for _, k := range a.order {
		res = append(res, a.outs[k])
	}
	return res
}

func (x *Exec) finish(a *act, st *State, res []*Term) {
	x.gc(a.ctx, st, res)
	var b strings.Builder
	st.keyF(&b, x.Precise)
	b.WriteString("|R")
	for _, r := range res {
		fmt.Fprintf(&b, "%d;", r.id)
	}
	k := b.String()
	if o, ok := a.outs[k]; ok {
		meet(o.st.facts, st.facts)
	} else {
		a.outs[k] = &outcome{st: st, res: res}
		a.order = append(a.order, k)
	}
}

// gc drops heap cells and facts that belong to the finished activation and can no longer matter.
func (x *Exec) gc(ctx *Ctx, st *State, roots []*Term) {
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	own := func(t *Term) bool { // created in this activation
		return t.site != nil && t.site.ctx.within(ctx)
	}
	ownBase := func(addr *Term) *Term {
		b := addr
		for (b.op == "faddr" || b.op == "iaddr") && len(b.args) > 0 {
			b = b.args[0]
		}
		return b
	}
	for _, r := range roots {
		mark(r)
	}
	for _, v := range st.mon {
		mark(v)
	}
	for l := range st.locks {
		mark(l)
	}
	for changed := true; changed; {
		n := len(live)
		for a, v := range st.heap {
			base := ownBase(a)
			if !own(base) || live[base] {
				mark(a)
				mark(v)
			}
		}
		changed = len(live) != n
	}
	for a := range st.heap {
		base := ownBase(a)
		if own(base) && !live[base] {
			delete(st.heap, a)
		}
	}
	for f := range st.facts {
		for _, d := range f.deps {
			if own(d) && !live[d] {
				delete(st.facts, f)
				break
			}
		}
	}
}

// gcBlock prunes facts about values of this activation that are dead at a block entry.
func (x *Exec) gcBlock(a *act, it *item) {
	if len(it.st.facts) == 0 {
		return
	}
	live := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || live[t] {
			return
		}
		live[t] = true
		for _, s := range t.args {
			mark(s)
		}
	}
	for _, t := range it.env {
		mark(t)
	}
	for _, t := range a.args {
		mark(t)
	}
	for _, t := range a.free {
		mark(t)
	}
	for _, t := range it.st.mon {
		mark(t)
	}
	for ad, v := range it.st.heap {
		mark(ad)
		mark(v)
	}
	for _, d := range it.defers {
		mark(d.fn)
		if d.ev != nil {
			for _, t := range d.ev.Args {
				mark(t)
			}
		}
	}
	for f := range it.st.facts {
		for _, d := range f.deps {
			if d.site.ctx.within(a.ctx) && !live[d] {
				delete(it.st.facts, f)
				break
			}
		}
	}
}

func (x *Exec) enterBlock(a *act, from *ssa.BasicBlock, to *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, defers []*deferred) {
	x.steps++
	back := to.Dominates(from) && a.fi.loops[to] != nil && a.fi.loops[to].body[from]
	nenv := make(map[ssa.Value]*Term, len(env))
	pi := predIndex(to, from)
	// a block may appear twice among preds (if both branches go to the same block); phis then agree or the
	// caller passes the proper index through enterBlockIdx. SSA's lifted form keeps them distinct in practice.
	var li *loopInfo
	if back {
		li = a.fi.loops[to]
	}
	phiVals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ph.Edges[pi]
		t := x.val(a, env, v)
		phiVals[ph] = t
	}
	var small *ssa.Phi
	if back {
		small = x.smallIn(a, li, env)
		x.emit(st, &Event{Kind: EvBack, Instr: to.Instrs[0], Fn: a.fn, Ctx: a.ctx, Loop: li, Phis: phiVals, Small: small != nil})
	}
	fresh := map[*Term]bool{}
	for ph, t := range phiVals {
		if back {
			op := x.TT.mk("phi", ph.Comment, ph, ph.Type(), &Site{instr: ph, ctx: a.ctx})
			_, edgeConst := ph.Edges[pi].(*ssa.Const)
			keep := false
			switch {
			case t == op:
				keep = true
			case edgeConst:
				keep = true
			case ph == small && t.isConst():
				keep = true
			case t.isConst():
				c := t.constant()
				keep = c == nil || c.Kind() == constant.Bool || c.Kind() == constant.String
			case !x.createdIn(a, li, t) && t.op != "binop" && t.op != "phi":
				keep = !x.grows(fmt.Sprintf("%p/%d", ph, a.ctx.id), t)
			}
			if !keep {
				t = op
			}
			if t == op {
				fresh[op] = true
			}
		}
		nenv[ph] = t
	}
	live := a.fi.live[to.Index]
	for v, t := range env {
		if live[v] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == to {
				continue
			}
			nenv[v] = t
		}
	}
	for v := range nenv {
		if !live[v] {
			delete(nenv, v)
		}
	}
	if back {
		// values created inside the loop body become stale when the body runs again
		stale := map[*Term]*Term{}
		for ad, v := range st.heap {
			if x.createdIn(a, li, baseAddr(ad)) && (baseAddr(ad).op != "alloc" || !baseHeld(a, nenv, baseAddr(ad))) {
				delete(st.heap, ad)
				continue
			}
			if x.createdInAny(a, li, v) || x.grows(fmt.Sprintf("%p/%d/%d", li.header, a.ctx.id, ad.id), v) || (v.isConst() && v.constant() != nil && v.constant().Kind() == constant.Int && x.cellVaries(a, li, ad, v)) {
				nt := x.TT.mk("loopcell", "", nil, ad.typ, &Site{instr: to.Instrs[0], ctx: a.ctx, sub: fmt.Sprint(ad.id)})
				st.heap[ad] = nt
				fresh[nt] = true
			}
		}
		for k, v := range st.mon {
			if x.createdInAny(a, li, v) {
				s, ok := stale[v]
				if !ok {
					if v.op == "stale" {
						s = v
					} else {
						s = x.TT.mk("stale", "", nil, v.typ, nil, v)
					}
					stale[v] = s
				}
				st.mon[k] = s
			}
		}
		for f := range st.facts {
			for _, d := range f.deps {
				if x.siteIn(a, li, d) || fresh[d] {
					delete(st.facts, f)
					break
				}
			}
		}
	}
	it := &item{b: to, idx: 0, env: nenv, st: st, defers: defers}
	x.gcBlock(a, it)
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", to.Index)
	ids := make([]int, 0, len(nenv))
	byName := map[int]int{}
	for v, t := range nenv {
		h := valueIndex(v)
		ids = append(ids, h)
		byName[h] = t.id
	}
	sort.Ints(ids)
	for _, h := range ids {
		fmt.Fprintf(&b, "%d:%d;", h, byName[h])
	}
	b.WriteString("|D")
	for _, d := range defers {
		fmt.Fprintf(&b, "%p/%d", d.instr, d.fn.id)
		if d.ev != nil {
			for _, t := range d.ev.Args {
				fmt.Fprintf(&b, ",%d", t.id)
			}
		}
		b.WriteByte(';')
	}
	st.keyF(&b, x.Precise)
	k := b.String()
	if p, ok := a.pend[k]; ok {
		meet(p.st.facts, st.facts)
		return
	}
	if old, ok := a.seen[k]; ok {
		common := map[*Term]bool{}
		for f, v := range old {
			common[f] = v
		}
		if !meet(common, st.facts) {
			return
		}
		st.facts = common
	}
	x.visited++
	x.Budget--
	it.key = k
	a.pend[k] = it
	a.push(it)
}

func baseHeld(a *act, env map[ssa.Value]*Term, base *Term) bool {
	for _, t := range env {
		if t.contains(base) {
			return true
		}
	}
	return false
}

var valIdx = map[ssa.Value]int{}

func valueIndex(v ssa.Value) int {
	if i, ok := valIdx[v]; ok {
		return i
	}
	valIdx[v] = len(valIdx) + 1
	return len(valIdx)
}

// siteIn: was volatile term d created by an instruction of loop li of activation a (or by a callee invoked there)?
func (x *Exec) siteIn(a *act, li *loopInfo, d *Term) bool {
	if d.site == nil {
		return false
	}
	in := d.site.instr
	for c := d.site.ctx; c != nil; c = c.parent {
		if c == a.ctx {
			return in != nil && in.Block() != nil && in.Parent() == a.fn && li.body[in.Block()]
		}
		in = c.call
	}
	return false
}

func (x *Exec) createdIn(a *act, li *loopInfo, t *Term) bool { return x.createdInAny(a, li, t) }

func (x *Exec) createdInAny(a *act, li *loopInfo, t *Term) bool {
	for _, d := range t.deps {
		if x.siteIn(a, li, d) {
			return true
		}
	}
	return false
}

// grows reports whether the value a loop variable takes is made of several of the values it had before (such as
// a slice cut shorter in every iteration): following it any further would never end.
func (x *Exec) grows(k string, v *Term) bool {
	if len(v.args) == 0 {
		return false
	}
	if x.loopVals == nil {
		x.loopVals = map[string]map[*Term]bool{}
	}
	m := x.loopVals[k]
	if m == nil {
		m = map[*Term]bool{}
		x.loopVals[k] = m
	}
	if m[v] {
		return false
	}
	n, seen := 0, map[*Term]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if m[t] {
			n++
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(v)
	if n > 2 {
		return true
	}
	m[v] = true
	return false
}

// giveUp is set when the process has used up its time or memory: the analysis ends where it is and says so.
var giveUp atomic.Bool

func watchdog(limit time.Duration, heap uint64) {
	start := time.Now()
	for {
		time.Sleep(time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if time.Since(start) > limit || m.HeapAlloc > heap {
			giveUp.Store(true)
		}
	}
}

// cellVaries: the integer constant kept in a cell differs between iterations (a counter).
func (x *Exec) cellVaries(a *act, li *loopInfo, ad, v *Term) bool {
	k := fmt.Sprintf("%p/%d/%d", li.header, a.ctx.id, ad.id)
	if x.cellVals == nil {
		x.cellVals = map[string]*Term{}
	}
	old, ok := x.cellVals[k]
	if !ok {
		x.cellVals[k] = v
		return false
	}
	return old != v
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func baseAddr(addr *Term) *Term {
	b := addr
	for (b.op == "faddr" || b.op == "iaddr") && len(b.args) > 0 {
		b = b.args[0]
	}
	return b
}

func (x *Exec) emit(st *State, ev *Event) {
	x.events[ev.Kind]++
	if ev.Kind == EvCall {
		x.calls[ev.Name]++
	}
	if x.M != nil {
		x.M.On(x, st, ev)
	}
}

func copyEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// val evaluates an SSA value in the current environment.
func (x *Exec) val(a *act, env map[ssa.Value]*Term, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return x.zero(v.Type())
			}
			if _, ok := types.Unalias(v.Type()).(*types.TypeParam); ok {
				return x.TT.mk("const", "nil", nil, v.Type(), nil)
			}
			return x.TT.nilC()
		}
		return x.TT.constVal(v.Value, v.Type())
	case *ssa.Function:
		f := v
		if o := f.Origin(); o != nil {
			f = o
		}
		return x.TT.mk("func", shortName(f), f, v.Type(), nil)
	case *ssa.Global:
		return x.TT.mk("global", globalName(v), v, v.Type(), nil)
	case *ssa.Parameter:
		for i, p := range a.fn.Params {
			if p == v {
				if i < len(a.args) {
					return a.args[i]
				}
			}
		}
	case *ssa.FreeVar:
		for i, p := range a.fn.FreeVars {
			if p == v && i < len(a.free) {
				return a.free[i]
			}
		}
	case *ssa.Builtin:
		return x.TT.mk("builtin", v.Name(), nil, v.Type(), nil)
	}
	if t, ok := env[v]; ok {
		return t
	}
	// value not computed on this path (dead or unmodelled): opaque
	return x.TT.mk("undef", v.Name(), v, v.Type(), &Site{instr: instrOf(v), ctx: a.ctx})
}

func instrOf(v ssa.Value) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return nil
}

func globalName(g *ssa.Global) string {
	s := g.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath+".", "psrpc.")
}

func (x *Exec) zero(t types.Type) *Term {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.TT.boolC(false)
		case u.Info()&types.IsString != 0:
			return x.TT.str("")
		case u.Info()&types.IsInteger != 0:
			return x.TT.intC(0)
		case u.Info()&types.IsFloat != 0:
			return x.TT.constVal(constant.MakeInt64(0), nil)
		}
		return x.TT.nilC()
	case *types.Struct, *types.Array:
		return x.TT.mk("zero", t.String(), nil, t, nil)
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return x.TT.mk("const", "nil", nil, t, nil)
	}
	return x.TT.nilC()
}

// volatile creates a term for a value produced anew each time instr executes, forgetting facts about its previous incarnation.
func (x *Exec) volatile(a *act, st *State, instr ssa.Instruction, sub, op, aux string, obj any, typ types.Type, args ...*Term) *Term {
	t := x.TT.mk(op, aux, obj, typ, &Site{instr: instr, ctx: a.ctx, sub: sub}, args...)
	for f := range st.facts {
		if f.mentions(t) {
			delete(st.facts, f)
		}
	}
	return t
}

func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ifBools branches on the comparison of two truth values by cases.
func (x *Exec) ifBools(a *act, in *ssa.If, b *ssa.BasicBlock, env map[ssa.Value]*Term, st *State, defers []*deferred, l, r *Term, eq bool) {
	say := func(ns *State, c *Term, want bool) bool {
		if tr := x.truth(ns, c); tr >= 0 {
			return (tr == 1) == want
		}
		x.assume(ns, c, want)
		ev := &Event{Kind: EvAssume, Instr: in, Fn: a.fn, Ctx: a.ctx, Cond: c, Truth: want}
		for ev.Cond.op == "not" {
			ev.Cond, ev.Truth = ev.Cond.args[0], !ev.Truth
		}
		ns.note(x.P.InstrPos(in), fmt.Sprintf("assume %v is %v", ev.Cond, ev.Truth))
		x.emit(ns, ev)
		return true
	}
	for _, lv := range []bool{true, false} {
		for _, rv := range []bool{true, false} {
			ns := st.clone()
			if !say(ns, l, lv) || !say(ns, r, rv) {
				continue
			}
			k := 1
			if (lv == rv) == eq {
				k = 0
			}
			x.enterBlock(a, b, b.Succs[k], copyEnv(env), ns, defers)
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Memory
// ---------------------------------------------------------------------------------------------

func fieldOf(t types.Type, i int) *types.Var {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return nil
	}
	return s.Field(i).Origin()
}

func (x *Exec) faddr(base *Term, f *types.Var, typ types.Type) *Term {
	return x.TT.mk("faddr", f.Name(), f, typ, nil, base)
}

// field projects a field out of a struct value.
func (x *Exec) field(v *Term, f *types.Var) *Term {
	switch v.op {
	case "structval":
		for i, n := range strings.Split(v.aux, ",") {
			if n == f.Name() {
				return v.args[i]
			}
		}
	case "zero":
		return x.zero(f.Type())
	case "sload":
		// a field of a stable struct is a stable load of the field's address
		return x.sload(x.faddr(v.args[0], f, types.NewPointer(f.Type())), f.Type())
	case "conv":
		return x.field(v.args[0], f)
	}
	return x.TT.mk("field", f.Name(), f, f.Type(), nil, v)
}

func (x *Exec) sload(addr *Term, typ types.Type) *Term {
	return x.TT.mk("sload", "", nil, typ, nil, addr)
}

// stableAddr: nothing in the repository stores to this location after construction.
func (x *Exec) stableAddr(addr *Term) bool {
	switch addr.op {
	case "faddr":
		f, _ := addr.obj.(*types.Var)
		if f == nil {
			return false
		}
		// a field of a struct stored inside another object: writes through a plain pointer to the inner struct
		// cannot reach it unless the inner struct's address is handed out
		if b := addr.args[0]; b.op == "faddr" {
			if bf, _ := b.obj.(*types.Var); bf != nil && !x.unstable[bf] && !x.P.escapedF[bf] {
				return x.stableAddr(b)
			}
			return !x.unstable[f] && x.stableAddr(b)
		}
		return !x.unstable[f]
	case "global":
		g, _ := addr.obj.(*ssa.Global)
		return g != nil && x.P.stableGlobal(g)
	case "param", "free", "call", "pcall", "extract", "load", "recv", "sload":
		return false
	}
	return false
}

// sharedAddr: a mutable field of an object that carries its own mutex – other goroutines may change it whenever the lock is not held.
func (x *Exec) sharedAddr(addr *Term) bool {
	if addr.op != "faddr" {
		return false
	}
	f, _ := addr.obj.(*types.Var)
	return f != nil && x.unstable[f] && x.P.inMutexStruct(f)
}

func (x *Exec) load(a *act, st *State, instr ssa.Instruction, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok && !hasSub(st, addr) {
		return v
	}
	// whole-struct load of an object whose fields are tracked
	if s, ok := types.Unalias(typ).Underlying().(*types.Struct); ok {
		if hasSub(st, addr) || containerValue(st, addr) != nil {
			var names []string
			var vals []*Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Origin()
				names = append(names, f.Name())
				vals = append(vals, x.load(a, st, instr, x.faddr(addr, f, types.NewPointer(s.Field(i).Type())), s.Field(i).Type()))
			}
			return x.TT.mk("structval", strings.Join(names, ","), nil, typ, nil, vals...)
		}
	}
	// field of a tracked struct value
	if addr.op == "faddr" {
		f := addr.obj.(*types.Var)
		if cv := containerValue(st, addr.args[0]); cv != nil {
			return x.fieldThrough(st, addr.args[0], f)
		}
		_ = f
	}
	if addr.op == "iaddr" && addr.args[0].op == "alloc" {
		if cv, ok := st.heap[addr.args[0]]; ok && cv.op == "zero" {
			return x.zero(typ)
		}
	}
	if x.stableAddr(addr) {
		return x.sload(addr, typ)
	}
	if addr.op == "global" || addr.op == "iaddr" && baseAddr(addr).op == "global" {
		if x.stableAddr(baseAddr(addr)) {
			return x.sload(addr, typ)
		}
	}
	v := x.volatile(a, st, instr, "", "load", "", nil, typ, addr)
	if len(st.locks) > 0 && x.sharedAddr(addr) {
		st.heap[addr] = v
	}
	return v
}

func hasSub(st *State, addr *Term) bool {
	for k := range st.heap {
		if k.op == "faddr" && k.args[0] == addr {
			return true
		}
		if k.op == "faddr" && k.args[0].op == "faddr" && k.args[0].args[0] == addr {
			return true
		}
	}
	return false
}

// containerValue finds a tracked value for addr or one of the structs enclosing it.
func containerValue(st *State, addr *Term) *Term {
	for {
		if v, ok := st.heap[addr]; ok {
			return v
		}
		if addr.op != "faddr" {
			return nil
		}
		addr = addr.args[0]
	}
}

func (x *Exec) fieldThrough(st *State, base *Term, f *types.Var) *Term {
	if v, ok := st.heap[base]; ok {
		return x.field(v, f)
	}
	if base.op == "faddr" {
		return x.field(x.fieldThrough(st, base.args[0], base.obj.(*types.Var)), f)
	}
	return x.TT.mk("field", f.Name(), f, f.Type(), nil, base)
}

func (x *Exec) store(st *State, addr, v *Term) {
	// kill sub-locations
	for k := range st.heap {
		if k != addr && k.op == "faddr" {
			for b := k.args[0]; ; b = b.args[0] {
				if b == addr {
					delete(st.heap, k)
					break
				}
				if b.op != "faddr" {
					break
				}
			}
		}
	}
	if v.op == "structval" {
		delete(st.heap, addr)
		st.heap[addr] = v
		return
	}
	st.heap[addr] = v
}

// havoc forgets a cell and everything below it.
func (x *Exec) havoc(a *act, st *State, instr ssa.Instruction, addr *Term) {
	for k := range st.heap {
		if k == addr {
			continue
		}
		if k.op == "faddr" || k.op == "iaddr" {
			for b := k; b.op == "faddr" || b.op == "iaddr"; b = b.args[0] {
				if b.args[0] == addr {
					if !x.privateStable(k) {
						delete(st.heap, k)
					}
					break
				}
			}
		}
	}
	if _, ok := st.heap[addr]; ok || addr.op == "alloc" {
		st.heap[addr] = x.volatile(a, st, instr, fmt.Sprintf("havoc%d", addr.id), "havoc", "", nil, derefType(addr.typ))
	}
}

// privateStable: an unexported field nothing in the repository writes after construction; foreign code cannot reach it.
func (x *Exec) privateStable(addr *Term) bool {
	for addr.op == "faddr" {
		f, _ := addr.obj.(*types.Var)
		if f == nil || f.Exported() && !f.Embedded() || x.unstable[f] {
			return false
		}
		addr = addr.args[0]
	}
	return addr.op == "alloc"
}

// releaseShared forgets cached mutable shared fields (another goroutine may change them now).
func (x *Exec) releaseShared(st *State) {
	for k := range st.heap {
		if x.sharedAddr(k) {
			delete(st.heap, k)
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Conditions
// ---------------------------------------------------------------------------------------------

func (x *Exec) not(t *Term) *Term {
	if t.isTrue() {
		return x.TT.boolC(false)
	}
	if t.isFalse() {
		return x.TT.boolC(true)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return x.TT.mk("not", "", nil, nil, nil, t)
}

// nano normalises a time.Time term to nanoseconds since the epoch.
func (x *Exec) nano(t *Term) *Term {
	if (t.op == "pcall") && t.aux == "time.Unix" && len(t.args) == 2 && t.args[0].isConst() && t.args[0].aux == "0" {
		return t.args[1]
	}
	return x.TT.mk("nano", "", nil, nil, nil, t)
}

func (x *Exec) lt(l, r *Term) *Term {
	// time.Until(t) compared with 0, time.Since(t) compared with 0, and x - now compared with 0
	if l.isConst() && l.aux == "0" {
		if d := r; d.op == "binop" && d.aux == "-" {
			return x.lt(d.args[1], d.args[0])
		}
	}
	if r.isConst() && r.aux == "0" {
		if d := l; d.op == "binop" && d.aux == "-" {
			return x.lt(d.args[0], d.args[1])
		}
	}
	if l.isConst() && r.isConst() && l.constant() != nil && r.constant() != nil {
		return x.TT.boolC(constant.Compare(l.constant(), token.LSS, r.constant()))
	}
	if l == r {
		return x.TT.boolC(false)
	}
	// len(x) < 0 is false
	if r.isConst() && r.aux == "0" && (l.op == "len" || l.op == "cap") {
		return x.TT.boolC(false)
	}
	return x.TT.mk("lt", "", nil, nil, nil, l, r)
}

func (x *Exec) eq(st *State, l, r *Term) *Term {
	l, r = eqStrip(l), eqStrip(r)
	if l == r {
		return x.TT.boolC(true)
	}
	if l.isConst() && r.isConst() {
		return x.TT.boolC(l.aux == r.aux)
	}
	if l.isConst() {
		l, r = r, l
	}
	if r.isNil() && (l.nonNil() || x.P.nonNilGlobal(l)) {
		return x.TT.boolC(false)
	}
	if r.isConst() && r.aux == "true" {
		return l
	}
	if r.isConst() && r.aux == "false" {
		return x.not(l)
	}
	if !r.isConst() && l.id > r.id {
		l, r = r, l
	}
	// distinct fresh objects
	if (l.op == "alloc" || l.op == "mkchan") && (r.op == "alloc" || r.op == "mkchan") && l != r {
		return x.TT.boolC(false)
	}
	// len(x) == 0  <=>  !(0 < len(x))
	if r.isConst() && r.aux == "0" && (l.op == "len" || l.op == "cap") {
		return x.not(x.lt(r, l))
	}
	// s == ""  <=>  len(s) == 0 ; keep string form
	return x.TT.mk("eq", "", nil, nil, nil, l, r)
}

func eqStrip(t *Term) *Term {
	for t.op == "conv" {
		t = t.args[0]
	}
	if t.op == "iface" && !t.args[0].isNil() {
		// comparing interfaces compares the underlying values; keep non-nilness
		return t
	}
	return t
}

// truth evaluates a boolean term under the state's facts: 1 true, 0 false, -1 unknown.
func (x *Exec) truth(st *State, c *Term) int {
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return 0
	}
	if c.op == "not" {
		switch x.truth(st, c.args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return -1
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch c.op {
	case "eq":
		l, r := c.args[0], c.args[1]
		if r.isConst() {
			// l == other constant known true?
			for f, v := range st.facts {
				if v && f.op == "eq" && f.args[0] == l && f.args[1].isConst() && f.args[1] != r {
					return 0
				}
			}
			if r.aux == "0" || r.aux == `""` {
			}
		}
		if r.isNil() {
			if v, ok := st.facts[x.TT.mk("isnil", "", nil, nil, nil, l)]; ok {
				if v {
					return 1
				}
				return 0
			}
		}
	case "lt":
		// irreflexive chain: l < r known false if r < l known true
		if v, ok := st.facts[x.TT.mk("lt", "", nil, nil, nil, c.args[1], c.args[0])]; ok && v {
			return 0
		}
		// x == const known
		for f, v := range st.facts {
			if v && f.op == "eq" && f.args[1].isConst() && f.args[1].constant() != nil {
				if f.args[0] == c.args[0] && c.args[1].isConst() {
					return x.truth(st, x.lt(f.args[1], c.args[1]))
				}
				if f.args[0] == c.args[1] && c.args[0].isConst() {
					return x.truth(st, x.lt(c.args[0], f.args[1]))
				}
			}
		}
		// l < c1 known true  ⇒  l < c2 for c2 ≥ c1 ; l < c1 known false ⇒ not l < c2 for c2 ≤ c1
		if c.args[1].isConst() && c.args[1].constant() != nil {
			for f, v := range st.facts {
				if f.op == "lt" && f.args[0] == c.args[0] && f.args[1].isConst() && f.args[1].constant() != nil {
					cmp := constant.Compare(f.args[1].constant(), token.LEQ, c.args[1].constant())
					if v && cmp {
						return 1
					}
					if !v && constant.Compare(c.args[1].constant(), token.LEQ, f.args[1].constant()) {
						return 0
					}
				}
				if f.op == "lt" && f.args[1] == c.args[0] && f.args[0].isConst() && f.args[0].constant() != nil && v {
					// k < l  ⇒ not (l < c2) when c2 <= k
					if constant.Compare(c.args[1].constant(), token.LEQ, f.args[0].constant()) {
						return 0
					}
				}
			}
		}
		if c.args[0].isConst() && c.args[0].constant() != nil {
			for f, v := range st.facts {
				if f.op == "lt" && f.args[1] == c.args[1] && f.args[0].isConst() && f.args[0].constant() != nil {
					if v && constant.Compare(c.args[0].constant(), token.LEQ, f.args[0].constant()) {
						return 1
					}
					if !v && constant.Compare(f.args[0].constant(), token.LEQ, c.args[0].constant()) {
						return 0
					}
				}
				if f.op == "lt" && f.args[0] == c.args[1] && f.args[1].isConst() && f.args[1].constant() != nil && v {
					// l < k ⇒ not (c < l) when c >= k
					if constant.Compare(f.args[1].constant(), token.LEQ, c.args[0].constant()) {
						return 0
					}
				}
			}
		}
	}
	return -1
}

func (x *Exec) assume(st *State, c *Term, v bool) {
	for c.op == "not" {
		c, v = c.args[0], !v
	}
	if c.isConst() {
		return
	}
	st.facts[c] = v
}

// known reports whether the state's facts establish cond (or its negation).
func (x *Exec) known(st *State, c *Term, want bool) bool {
	t := x.truth(st, c)
	return (want && t == 1) || (!want && t == 0)
}

func (x *Exec) binop(a *act, st *State, in *ssa.BinOp, l, r *Term) *Term {
	switch in.Op {
	case token.EQL:
		return x.eq(st, l, r)
	case token.NEQ:
		return x.not(x.eq(st, l, r))
	case token.LSS:
		return x.lt(l, r)
	case token.GTR:
		return x.lt(r, l)
	case token.LEQ:
		return x.not(x.lt(r, l))
	case token.GEQ:
		return x.not(x.lt(l, r))
	}
	lc, rc := l.constant(), r.constant()
	if lc != nil && rc != nil {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if lc.Kind() == rc.Kind() {
				return x.TT.constVal(constant.BinaryOp(lc, in.Op, rc), in.Type())
			}
		case token.QUO:
			if lc.Kind() == constant.Int && rc.Kind() == constant.Int && constant.Sign(rc) != 0 {
				return x.TT.constVal(constant.BinaryOp(lc, token.QUO_ASSIGN, rc), in.Type())
			}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(rc); ok && lc.Kind() == constant.Int && n < 128 {
				return x.TT.constVal(constant.Shift(lc, in.Op, uint(n)), in.Type())
			}
		}
	}
	return x.TT.mk("binop", in.Op.String(), nil, in.Type(), nil, l, r)
}

// ---------------------------------------------------------------------------------------------
// Instruction interpretation
// ---------------------------------------------------------------------------------------------

func (x *Exec) run(a *act, it *item) {
	b := it.b
	env, st, defers := it.env, it.st, it.defers
	if it.key != "" {
		fs := make(map[*Term]bool, len(st.facts))
		for f, v := range st.facts {
			fs[f] = v
		}
		a.seen[it.key] = fs
	}
	for i := it.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue

		case *ssa.Alloc:
			t := x.volatile(a, st, in, "", "alloc", in.Comment, nil, in.Type())
			env[in] = t
			for k := range st.heap { // previous incarnation
				if baseAddr(k) == t {
					delete(st.heap, k)
				}
			}
			st.heap[t] = x.zero(in.Type().Underlying().(*types.Pointer).Elem())

		case *ssa.BinOp:
			if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (in.Op == token.QUO || in.Op == token.REM) {
				x.emit(st, &Event{Kind: EvDivide, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: x.val(a, env, in.X), Key: x.val(a, env, in.Y)})
			}
			env[in] = x.binop(a, st, in, x.val(a, env, in.X), x.val(a, env, in.Y))

		case *ssa.UnOp:
			if in.Op == token.ARROW {
				ch := x.val(a, env, in.X)
				ct, _ := in.X.Type().Underlying().(*types.Chan)
				x.emit(st, &Event{Kind: EvRecv, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: ch, ChanT: ct})
				x.noteDone(st, ch)
				x.releaseShared(st)
				v := x.volatile(a, st, in, "v", "recv", "", nil, in.Type(), ch)
				if in.CommaOk {
					ok := x.volatile(a, st, in, "ok", "recvok", "", nil, nil, ch)
					env[in] = x.TT.mk("tuple", "", nil, nil, nil, v, ok)
				} else {
					env[in] = v
				}
				continue
			}
			v := x.val(a, env, in.X)
			switch in.Op {
			case token.MUL:
				ev := &Event{Kind: EvLoad, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: v}
				t := x.load(a, st, in, v, in.Type())
				env[in] = t
				ev.Val = t
				x.emit(st, ev)
			case token.NOT:
				env[in] = x.not(v)
			case token.SUB:
				if c := v.constant(); c != nil {
					env[in] = x.TT.constVal(constant.UnaryOp(token.SUB, c, 0), in.Type())
				} else {
					env[in] = x.TT.mk("neg", "", nil, in.Type(), nil, v)
				}
			default:
				env[in] = x.TT.mk("unop", in.Op.String(), nil, in.Type(), nil, v)
			}

		case *ssa.ChangeType:
			env[in] = x.val(a, env, in.X)
		case *ssa.ChangeInterface:
			env[in] = x.val(a, env, in.X)
		case *ssa.Convert:
			v := x.val(a, env, in.X)
			env[in] = x.convert(v, in.Type(), in.X.Type())
		case *ssa.MultiConvert:
			env[in] = x.TT.mk("conv", "", in.Type(), in.Type(), nil, x.val(a, env, in.X))
		case *ssa.SliceToArrayPointer:
			env[in] = x.TT.mk("s2a", "", nil, in.Type(), nil, x.val(a, env, in.X))
		case *ssa.MakeInterface:
			v := x.val(a, env, in.X)
			env[in] = x.TT.mk("iface", "", in.X.Type(), in.X.Type(), nil, v)

		case *ssa.MakeClosure:
			var bs []*Term
			for _, bv := range in.Bindings {
				bs = append(bs, x.val(a, env, bv))
			}
			f := in.Fn.(*ssa.Function)
			env[in] = x.TT.mk("closure", shortName(f), f, in.Type(), nil, bs...)

		case *ssa.MakeChan:
			x.emit(st, &Event{Kind: EvMake, Instr: in, Fn: a.fn, Ctx: a.ctx, Key: x.val(a, env, in.Size)})
			env[in] = x.volatile(a, st, in, "", "mkchan", "", nil, in.Type(), x.val(a, env, in.Size))
		case *ssa.MakeMap:
			env[in] = x.volatile(a, st, in, "", "mkmap", "", nil, in.Type())
		case *ssa.MakeSlice:
			x.emit(st, &Event{Kind: EvMake, Instr: in, Fn: a.fn, Ctx: a.ctx, Key: x.val(a, env, in.Len)})
			env[in] = x.volatile(a, st, in, "", "mkslice", "", nil, in.Type(), x.val(a, env, in.Len), x.val(a, env, in.Cap))

		case *ssa.FieldAddr:
			base := x.val(a, env, in.X)
			f := fieldOf(in.X.Type(), in.Field)
			x.emit(st, &Event{Kind: EvDeref, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: base})
			env[in] = x.faddr(base, f, in.Type())
		case *ssa.Field:
			v := x.val(a, env, in.X)
			f := fieldOf(in.X.Type(), in.Field)
			env[in] = x.field(v, f)
		case *ssa.IndexAddr:
			x.emit(st, &Event{Kind: EvIndex, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: x.val(a, env, in.X), Key: x.val(a, env, in.Index)})
			base, idx := x.val(a, env, in.X), x.val(a, env, in.Index)
			if base.op == "slice" && base.args[0].op == "alloc" && base.args[1].op == "none" && base.args[2].op == "none" && idx.isConst() {
				base = base.args[0] // an element of an array literal
			}
			if base.op == "slice" && base.args[1].op != "none" && idx.aux == "0" && idx.isConst() && knownLen(base) == 1 {
				base, idx = base.args[0], base.args[1]
			}
			if b := unstale(base.strip()); b.op == "append" && idx.isConst() {
				if c := idx.constant(); c != nil && c.Kind() == constant.Int {
					i, _ := constant.Int64Val(c)
					if n := knownLen(b); i >= 0 && i < n {
						if at, k := elemOfKnown(b, i); at != nil {
							base, idx = at, x.TT.intC(k)
						}
					}
				}
			}
			env[in] = x.TT.mk("iaddr", "", nil, in.Type(), nil, base, idx)
		case *ssa.Index:
			x.emit(st, &Event{Kind: EvIndex, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: x.val(a, env, in.X), Key: x.val(a, env, in.Index)})
			env[in] = x.TT.mk("index", "", nil, in.Type(), nil, x.val(a, env, in.X), x.val(a, env, in.Index))
		case *ssa.Slice:
			args := []*Term{x.val(a, env, in.X)}
			for _, o := range []ssa.Value{in.Low, in.High, in.Max} {
				if o == nil {
					args = append(args, x.TT.mk("none", "", nil, nil, nil))
				} else {
					args = append(args, x.val(a, env, o))
				}
			}
			env[in] = x.sliceTerm(st, in, args)

		case *ssa.Lookup:
			m, k := x.val(a, env, in.X), x.val(a, env, in.Index)
			mt, _ := in.X.Type().Underlying().(*types.Map)
			if mt == nil { // string index
				env[in] = x.TT.mk("index", "", nil, in.Type(), nil, m, k)
				continue
			}
			v := x.volatile(a, st, in, "v", "lookup", "", nil, mt.Elem(), m, k)
			ev := &Event{Kind: EvLookup, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: m, Key: k, Val: v, MapT: mt}
			if in.CommaOk {
				ok := x.volatile(a, st, in, "ok", "lookupok", "", nil, nil, m, k)
				env[in] = x.TT.mk("tuple", "", nil, nil, nil, v, ok)
				ev.Result = ok
			} else {
				env[in] = v
			}
			x.emit(st, ev)
		case *ssa.Extract:
			t := x.val(a, env, in.Tuple)
			env[in] = x.extract(t, in.Index, in.Type())
		case *ssa.TypeAssert:
			v := x.val(a, env, in.X)
			x.emit(st, &Event{Kind: EvType, Instr: in, Fn: a.fn, Ctx: a.ctx, Val: v})
			env[in] = x.typeAssert(a, st, in, v)
		case *ssa.Range:
			env[in] = x.volatile(a, st, in, "", "range", "", nil, nil, x.val(a, env, in.X))
		case *ssa.Next:
			it := x.val(a, env, in.Iter)
			if rt := unstale(it.strip()); !in.IsString && rt.op == "range" && len(rt.args) > 0 {
				x.emit(st, &Event{Kind: EvNext, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: rt.args[0]})
			}
			tup := in.Type().(*types.Tuple)
			ok := x.volatile(a, st, in, "ok", "nextok", "", nil, nil, it)
			k := x.volatile(a, st, in, "k", "nextk", "", nil, tup.At(1).Type(), it)
			v := x.volatile(a, st, in, "v", "nextv", "", nil, tup.At(2).Type(), it)
			env[in] = x.TT.mk("tuple", "", nil, nil, nil, ok, k, v)

		case *ssa.Store:
			ad, v := x.val(a, env, in.Addr), x.val(a, env, in.Val)
			x.emit(st, &Event{Kind: EvStore, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: ad, Val: v})
			if x.collect != nil && ad.op == "faddr" {
				x.collectStore(st, ad)
			}
			x.store(st, ad, v)
		case *ssa.MapUpdate:
			m := x.val(a, env, in.Map)
			mt, _ := in.Map.Type().Underlying().(*types.Map)
			x.emit(st, &Event{Kind: EvMapUpd, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: m, Key: x.val(a, env, in.Key), Val: x.val(a, env, in.Value), MapT: mt})
		case *ssa.Send:
			ct, _ := in.Chan.Type().Underlying().(*types.Chan)
			x.emit(st, &Event{Kind: EvSend, Instr: in, Fn: a.fn, Ctx: a.ctx, Addr: x.val(a, env, in.Chan), Val: x.val(a, env, in.X), ChanT: ct})
			x.releaseShared(st)

		case *ssa.Select:
			x.doSelect(a, in, i, it, env, st, defers)
			return

		case *ssa.Go:
			ev := x.callEvent(a, env, &in.Call, in)
			ev.Kind = EvGo
			x.emit(st, ev)
			x.doGo(a, in, ev, st)

		case *ssa.Defer:
			ev := x.callEvent(a, env, &in.Call, in)
			ev.Defer = true
			ft := ev.FnTerm
			if ft == nil {
				ft = x.TT.mk("callee", ev.Name, nil, nil, nil)
			}
			nd := make([]*deferred, len(defers), len(defers)+1)
			copy(nd, defers)
			defers = append(nd, &deferred{instr: in, fn: ft, ev: ev})
			e2 := *ev
			e2.Kind = EvDefer
			x.emit(st, &e2)

		case *ssa.RunDefers:
			outs := x.runDefers(a, defers, st)
			for _, o := range outs {
				if o.panic && !st.panic {
					x.finishPanic(a, o)
					continue
				}
				a.push(&item{b: b, idx: i + 1, env: copyEnv(env), st: o, defers: nil})
			}
			return

		case *ssa.Call:
			ev := x.callEvent(a, env, &in.Call, in)
			outs := x.doCall(a, in, ev, st)
			if len(outs) == 1 && !outs[0].st.panic {
				st = outs[0].st
				env[in] = x.tuple(outs[0].res)
				continue
			}
			for _, o := range outs {
				if o.st.panic {
					x.unwind(a, env, o.st, defers)
					continue
				}
				ne := copyEnv(env)
				ne[in] = x.tuple(o.res)
				a.push(&item{b: b, idx: i + 1, env: ne, st: o.st, defers: defers})
			}
			return

		case *ssa.If:
			c := x.val(a, env, in.Cond)
			tr := x.truth(st, c)
			if bo, ok := in.Cond.(*ssa.BinOp); ok && tr == -1 && (bo.Op == token.EQL || bo.Op == token.NEQ) && isBoolean(bo.X.Type()) {
				x.ifBools(a, in, b, env, st, defers, x.val(a, env, bo.X), x.val(a, env, bo.Y), bo.Op == token.EQL)
				return
			}
			for k, succ := range b.Succs {
				want := k == 0
				if (tr == 1 && !want) || (tr == 0 && want) {
					continue
				}
				ns, ne := st, env
				if tr == -1 {
					ns = st.clone()
					ne = copyEnv(env)
					x.assume(ns, c, want)
				}
				if !c.isConst() {
					ev := &Event{Kind: EvAssume, Instr: in, Fn: a.fn, Ctx: a.ctx, Cond: c, Truth: want}
					for ev.Cond.op == "not" {
						ev.Cond, ev.Truth = ev.Cond.args[0], !ev.Truth
					}
					ns.note(x.P.InstrPos(in), fmt.Sprintf("assume %v is %v", ev.Cond, ev.Truth))
					x.emit(ns, ev)
				}
				x.enterBlock(a, b, succ, ne, ns, defers)
			}
			return

		case *ssa.Jump:
			x.enterBlock(a, b, b.Succs[0], env, st, defers)
			return

		case *ssa.Return:
			res := make([]*Term, len(in.Results))
			for k, r := range in.Results {
				res[k] = x.val(a, env, r)
			}
			x.finish(a, st, res)
			return

		case *ssa.Panic:
			st.panic = true
			x.emit(st, &Event{Kind: EvPanic, Instr: in, Fn: a.fn, Ctx: a.ctx, Val: x.val(a, env, in.X)})
			x.unwind(a, env, st, defers)
			return

		default:
			if v, ok := in.(ssa.Value); ok {
				env[v] = x.volatile(a, st, in, "", "opaque", fmt.Sprintf("%T", in), nil, v.Type())
			}
		}
	}
}

func (x *Exec) convert(v *Term, to, from types.Type) *Term {
	if v.isConst() && v.constant() != nil {
		tb, ok1 := to.Underlying().(*types.Basic)
		fb, ok2 := from.Underlying().(*types.Basic)
		if ok1 && ok2 && (tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 || tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0) {
			return v
		}
	}
	// numeric width changes and named-string conversions keep the value's identity
	tb, ok1 := to.Underlying().(*types.Basic)
	fb, ok2 := from.Underlying().(*types.Basic)
	if ok1 && ok2 && tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
		return v
	}
	if ok1 && ok2 && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
		return x.TT.mk("conv", "", to.Underlying(), to, nil, v)
	}
	return x.TT.mk("convert", types.TypeString(to, nil), nil, to, nil, v)
}

func (x *Exec) sliceTerm(st *State, in *ssa.Slice, args []*Term) *Term {
	// slicing a freshly allocated array (variadic call / composite literal): keep the backing alloc visible
	return x.TT.mk("slice", "", nil, in.Type(), nil, args...)
}

func (x *Exec) tuple(res []*Term) *Term {
	switch len(res) {
	case 0:
		return x.TT.mk("void", "", nil, nil, nil)
	case 1:
		return res[0]
	}
	return x.TT.mk("tuple", "", nil, nil, nil, res...)
}

func (x *Exec) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	return x.TT.mk("extract", fmt.Sprint(i), nil, typ, nil, t)
}

func (x *Exec) typeAssert(a *act, st *State, in *ssa.TypeAssert, v *Term) *Term {
	// known dynamic type
	if v.op == "iface" {
		dt := v.obj.(types.Type)
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if !hasTypeParam(dt) {
				okT := types.Implements(dt, in.AssertedType.Underlying().(*types.Interface))
				if in.CommaOk {
					if okT {
						return x.TT.mk("tuple", "", nil, nil, nil, v, x.TT.boolC(true))
					}
				} else if okT {
					return v
				}
			}
		} else if types.Identical(dt, in.AssertedType) {
			if in.CommaOk {
				return x.TT.mk("tuple", "", nil, nil, nil, v.args[0], x.TT.boolC(true))
			}
			return v.args[0]
		} else if !hasTypeParam(dt) && !hasTypeParam(in.AssertedType) {
			if in.CommaOk {
				return x.TT.mk("tuple", "", nil, nil, nil, x.zero(in.AssertedType), x.TT.boolC(false))
			}
		}
	}
	val := x.TT.mk("assert", "", in.AssertedType, in.AssertedType, nil, v)
	if in.CommaOk {
		ok := x.TT.mk("istype", "", in.AssertedType, nil, nil, v)
		return x.TT.mk("tuple", "", nil, nil, nil, val, ok)
	}
	return val
}

func hasTypeParam(t types.Type) bool {
	found := false
	var walk func(t types.Type, d int)
	walk = func(t types.Type, d int) {
		if found || d > 6 {
			return
		}
		switch t := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Pointer:
			walk(t.Elem(), d+1)
		case *types.Slice:
			walk(t.Elem(), d+1)
		case *types.Chan:
			walk(t.Elem(), d+1)
		case *types.Map:
			walk(t.Key(), d+1)
			walk(t.Elem(), d+1)
		case *types.Named:
			for i := 0; i < t.TypeArgs().Len(); i++ {
				walk(t.TypeArgs().At(i), d+1)
			}
		}
	}
	walk(t, 0)
	return found
}

func (x *Exec) doSelect(a *act, in *ssa.Select, i int, it *item, env map[ssa.Value]*Term, st *State, defers []*deferred) {
	si := &SelInfo{Blocking: in.Blocking}
	for _, s := range in.States {
		c := SelCase{Dir: s.Dir, Chan: x.val(a, env, s.Chan)}
		c.T, _ = s.Chan.Type().Underlying().(*types.Chan)
		if s.Send != nil {
			c.Send = x.val(a, env, s.Send)
		}
		si.Cases = append(si.Cases, c)
	}
	x.emit(st, &Event{Kind: EvBlock, Instr: in, Fn: a.fn, Ctx: a.ctx, Sel: si})
	x.releaseShared(st)
	n := len(in.States)
	start := 0
	if !in.Blocking {
		start = -1
	}
	if n == 0 && in.Blocking {
		return
	}
	for k := start; k < n; k++ {
		if k >= 0 && si.Cases[k].Chan.isNil() {
			continue // a nil channel is never ready
		}
		ns := st.clone()
		ne := copyEnv(env)
		tup := []*Term{x.TT.intC(int64(k))}
		var okT, recvV *Term
		if k >= 0 && si.Cases[k].Dir == types.RecvOnly {
			okT = x.volatile(a, ns, in, fmt.Sprintf("ok%d", k), "recvok", "", nil, nil, si.Cases[k].Chan)
		} else {
			okT = x.TT.boolC(false)
		}
		tup = append(tup, okT)
		for j, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == k {
				recvV = x.volatile(a, ns, in, fmt.Sprintf("v%d", k), "recv", "", nil, et, si.Cases[k].Chan)
				tup = append(tup, recvV)
			} else {
				tup = append(tup, x.zero(et))
			}
		}
		ne[in] = x.TT.mk("tuple", "", nil, nil, nil, tup...)
		ev := &Event{Kind: EvSelect, Instr: in, Fn: a.fn, Ctx: a.ctx, Sel: si, Case: k}
		if k >= 0 {
			ev.Addr = si.Cases[k].Chan
			ev.ChanT = si.Cases[k].T
			if si.Cases[k].Dir == types.RecvOnly {
				ev.Val = recvV
			} else {
				ev.Val = si.Cases[k].Send
			}
			ns.note(x.P.InstrPos(in), fmt.Sprintf("select case %v", si.Cases[k].Chan))
			x.noteDone(ns, si.Cases[k].Chan)
		}
		x.emit(ns, ev)
		a.push(&item{b: it.b, idx: i + 1, env: ne, st: ns, defers: defers})
	}
}

// noteDone: a receive from ctx.Done() succeeded, so ctx.Err() is not nil from now on.
func (x *Exec) noteDone(st *State, ch *Term) {
	if ctx := doneOf(ch); ctx != nil {
		st.facts[x.TT.mk("ctxdone", "", nil, nil, nil, ctx)] = true
	}
}

// doneOf: ch is ctx.Done(); returns ctx.
func doneOf(ch *Term) *Term {
	if ch != nil && ch.op == "pcall" && strings.HasSuffix(ch.aux, "(context.Context).Done") && len(ch.args) == 1 {
		return ch.args[0].strip()
	}
	return nil
}

func (x *Exec) finishPanic(a *act, st *State) {
	st.panic = true
	x.finish(a, st, nil)
}

// unwind runs deferred calls for a panicking activation; a recover() resumes at the function's recover block.
func (x *Exec) unwind(a *act, env map[ssa.Value]*Term, st *State, defers []*deferred) {
	st.panic = true
	for _, o := range x.runDefers(a, defers, st) {
		if o.rec {
			o.panic, o.rec = false, false
			if a.fn.Recover != nil {
				a.push(&item{b: a.fn.Recover, idx: 0, env: copyEnv(env), st: o, defers: nil})
			} else {
				var res []*Term
				rs := a.fn.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					res = append(res, x.zero(rs.At(i).Type()))
				}
				x.finish(a, o, res)
			}
			continue
		}
		x.finishPanic(a, o)
	}
}

func (x *Exec) runDefers(a *act, defers []*deferred, st *State) []*State {
	states := []*State{st}
	for i := len(defers) - 1; i >= 0; i-- {
		d := defers[i]
		var next []*State
		for _, s := range states {
			wasPanic, wasRec, outer := s.panic, s.rec, s.mon["#panicking"]
			s.panic = false
			s2 := s
			s2.rec = false
			if wasPanic && !wasRec {
				s2.mon["#panicking"] = x.TT.intC(int64(ctxDepth(a.ctx) + 1))
			}
			e := *d.ev
			for _, o := range x.doCall(a, d.instr, &e, s2) {
				recovered := o.st.rec
				delete(o.st.mon, "#panicking")
				if outer != nil {
					o.st.mon["#panicking"] = outer
				}
				if o.st.panic {
					// new panic replaces the old one
				} else if wasPanic {
					o.st.panic = true
					o.st.rec = wasRec || recovered
				}
				next = append(next, o.st)
			}
		}
		states = dedupStates(next)
	}
	return states
}

// mayRecover: recover() stops a panic only when the deferred function itself calls it.
func (x *Exec) mayRecover(a *act, st *State) bool {
	d, ok := constInt(st.mon["#panicking"])
	return ok && int(d) == ctxDepth(a.ctx)
}

// ctxDepth counts activations, not the wrappers the compiler makes.
func ctxDepth(c *Ctx) int {
	n := 0
	for ; c != nil; c = c.parent {
		if c.fn == nil || c.fn.Synthetic == "" || strings.HasPrefix(c.fn.Synthetic, "instance") {
			n++
		}
	}
	return n
}

func dedupStates(in []*State) []*State {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []*State
	for _, s := range in {
		var b strings.Builder
		s.key(&b)
		if s.rec {
			b.WriteString("R")
		}
		if !seen[b.String()] {
			seen[b.String()] = true
			out = append(out, s)
		}
	}
	return out
}
