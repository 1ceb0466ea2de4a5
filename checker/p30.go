package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P30", "typestate and ordering analysis of the Redis bus over SSA: every change of a table of wanted channels marks the channel and wakes the reconciler; the reconciler's decision per channel is compared with the table of what is wanted and of what is current; results are recorded only when the call is known to have succeeded and are marked again otherwise; marks are cleared only in the critical section in which they were read; reader and writer never end", p30)
}

const pubSub = "redis/go-redis/v9.PubSub)."

func pubSubCall(ev *Event) string {
	if i := strings.Index(ev.Name, pubSub); i >= 0 && (ev.Kind == EvCall || ev.Kind == EvRet) {
		return ev.Name[i+len(pubSub):]
	}
	return ""
}

// reconData: the roles of the fields of the bus.
type reconData struct {
	wanted  map[*types.Var]bool // tables of what is wanted locally
	current *types.Var          // what is subscribed remotely
	dirty   *types.Var          // what has to be looked at
	wake    map[*types.Var]bool // channels that wake the reconciler
	sets    map[string]map[ssa.Instruction]bool
	push    bool // work reaches the reconciler through a queue of operations
	nonblk  bool
	read    bool
	write   bool
}

func tableOf(st *State, t *Term) *types.Var {
	if t == nil {
		return nil
	}
	t = unstale(t.strip())
	if f := fieldOfLoad(t); f != nil {
		return f.Origin()
	}
	if a := heldIn(st, t); a != nil {
		if f := fieldOfAddr(a); f != nil {
			return f.Origin()
		}
	}
	return nil
}

// madeBy lists the maps and slices made locally that t was computed from.
func madeBy(t *Term) []ssa.Instruction {
	var out []ssa.Instruction
	if t != nil {
		t.any(func(u *Term) bool {
			if u.site != nil && (u.op == "mkmap" || u.op == "phi" && makesSlice(u.site.instr)) {
				out = append(out, u.site.instr)
			}
			return false
		})
	}
	return out
}

func (d *reconData) setOf(t *Term) string {
	t = unstale(t)
	if t == nil || t.strip().op != "mkmap" && t.strip().op != "phi" || t.strip().site == nil {
		return ""
	}
	for _, k := range []string{"Subscribe", "Unsubscribe"} {
		if d.sets[k][t.strip().site.instr] {
			return k
		}
	}
	return ""
}

func makesSlice(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	_, ok = v.Type().Underlying().(*types.Slice)
	return ok
}

// keySet: the set one of whose members k is.
func (d *reconData) keySet(k *Term) string {
	if m := rangeKey(k); m != nil {
		return d.setOf(m)
	}
	if k = unstale(k); k == nil {
		return ""
	}
	k = k.strip()
	if (k.op == "load" || k.op == "sload") && k.args[0].op == "iaddr" {
		return d.setOf(k.args[0].args[0])
	}
	return ""
}

// rangeKey: the map whose key t is, when it is ranged over.
func rangeKey(t *Term) *Term {
	t = unstale(t)
	if t == nil {
		return nil
	}
	t = t.strip()
	if t.op == "nextk" && len(t.args) > 0 {
		if rg := unstale(t.args[0].strip()); rg.op == "range" {
			return rg.args[0]
		}
	}
	return nil
}

// lenFact: what a condition says about the length of a list: 1 empty, 0 not empty, -1 nothing.
func lenFact(cond *Term, truth bool) (*Term, int) {
	isLen := func(t *Term) *Term {
		t = t.strip()
		if t.op == "len" && len(t.args) == 1 {
			return t.args[0]
		}
		if t.op == "call" && strings.HasSuffix(t.aux, ".Len") && len(t.args) > 0 {
			return t.args[0]
		}
		return nil
	}
	if len(cond.args) != 2 {
		return nil, -1
	}
	a, b := cond.args[0], cond.args[1]
	la, lb := isLen(a), isLen(b)
	ca, oka := constInt(a)
	cb, okb := constInt(b)
	b2i := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	switch {
	case cond.op == "eq" && la != nil && okb && cb == 0:
		return la, b2i(truth)
	case cond.op == "eq" && lb != nil && oka && ca == 0:
		return lb, b2i(truth)
	case cond.op == "lt" && lb != nil && oka && ca == 0: // 0 < len
		return lb, b2i(!truth)
	case cond.op == "lt" && la != nil && okb && cb == 1: // len < 1
		return la, b2i(truth)
	case cond.op == "le" && lb != nil && oka && ca == 1: // 1 <= len
		return lb, b2i(!truth)
	case cond.op == "le" && la != nil && okb && cb == 0: // len <= 0
		return la, b2i(truth)
	case cond.op == "eq" && truth && la != nil && okb && cb > 0:
		return la, 0
	case cond.op == "lt" && truth && lb != nil && oka && ca > 0:
		return lb, 0
	}
	return nil, -1
}

func p30(r *Run) {
	var bus types.Type
	for _, t := range r.buses() {
		s, _ := derefNamed(t).Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if strings.Contains(types.TypeString(s.Field(i).Type(), nil), "redis/go-redis/v9.PubSub") {
				bus = t
			}
		}
	}
	if bus == nil {
		r.Fail("anchor", "internal/bus", "-", "no bus on Redis was found", nil)
		return
	}
	d := &reconData{wanted: map[*types.Var]bool{}, wake: map[*types.Var]bool{}, sets: map[string]map[ssa.Instruction]bool{"Subscribe": {}, "Unsubscribe": {}}}
	bs, _ := derefNamed(bus).Underlying().(*types.Struct)
	mine := func(f *types.Var) bool {
		for i := 0; bs != nil && i < bs.NumFields(); i++ {
			if bs.Field(i).Origin() == f {
				return true
			}
		}
		return false
	}
	// what is wanted: the tables the Subscribe methods put subscriptions into
	for _, n := range []string{"Subscribe", "SubscribeQueue"} {
		fn := r.P.methodOf(bus, n)
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvMapUpd && ev.MapT != nil {
				if f := tableOf(st, ev.Addr); f != nil && mine(f) {
					if s, ok := derefType(ev.MapT.Elem()).Underlying().(*types.Struct); ok && s.NumFields() > 0 {
						d.wanted[f] = true
					}
				}
			}
			if ev.Kind == EvBlock || ev.Kind == EvSend {
				for _, c := range sends(ev) {
					if f := tableOf(st, c); f != nil && mine(f.Origin()) {
						d.wake[f.Origin()] = true
						d.nonblk = d.nonblk || ev.Kind == EvBlock && !ev.Sel.Blocking
					}
				}
			}
		}, nil)
	}
	roots := r.P.entryPoints(busPkg)
	// the reconciler: what it ranges over, looks up, and hands to the connection
	for pass := 0; pass < 2; pass++ {
		for _, f := range roots {
			r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
				switch {
				case (ev.Kind == EvCall) && (pubSubCall(ev) == "Subscribe" || pubSubCall(ev) == "Unsubscribe"):
					for _, a := range ev.Args[2:] {
						for _, in := range madeBy(a) {
							d.sets[pubSubCall(ev)][in] = true
						}
					}
				case pass == 0 && ev.Kind == EvNext:
					if f := tableOf(st, ev.Addr); f != nil && mine(f) && !d.wanted[f] {
						st.mon["ranged"] = x.TT.str(f.Name())
						if d.dirty == nil {
							d.dirty = f
						}
					}
				case pass == 1 && (ev.Kind == EvMapUpd || ev.Kind == EvMapDel || ev.Kind == EvLookup):
					if f := tableOf(st, ev.Addr); f != nil && mine(f) && !d.wanted[f] && f != d.dirty && rangeKey(ev.Key) != nil {
						d.current = f
					}
				case ev.Kind == EvRecv:
					if f := tableOf(st, ev.Addr); f != nil && d.wake[f.Origin()] {
						st.mon["woken"] = x.TT.boolC(true)
					}
				case ev.Kind == EvCall && strings.Contains(ev.Name, "deque.Deque).Pop") && st.has("woken"):
					d.push = true
				}
			}, nil)
		}
	}
	for what, ok := range map[string]bool{"the tables of wanted channels": len(d.wanted) > 0, "the channel that wakes the reconciler": len(d.wake) > 0, "the set of channels to reconcile": d.dirty != nil, "the set of channels subscribed": d.current != nil,
		"the call that subscribes": len(d.sets["Subscribe"]) > 0, "the call that unsubscribes": len(d.sets["Unsubscribe"]) > 0} {
		if !ok {
			r.Fail("anchor", "internal/bus: "+what, "-", what+" was not found", nil)
		}
	}
	if d.dirty == nil || d.current == nil {
		return
	}
	for _, f := range roots {
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			p30Change(r, d, x, st, ev)
			p30Reconcile(r, d, x, st, ev)
			p30Workers(r, d, x, st, ev)
		}, nil)
	}
	r.Check(d.read, "reader", "internal/bus: reader", "-", "no goroutine receives from the connection", nil)
	r.Check(d.write, "writer", "internal/bus: writer", "-", "no goroutine waits for the wake-ups", nil)
	for rule, n := range map[string]int{"scheduled": 2, "decide": 1, "done": 2, "retried": 1, "cleared": 1, "reader": 1, "writer": 1, "wakeup": 1, "removed": 1, "called": 1} {
		r.Min(rule, n)
	}
}

// sends: the channels an event offers to send on.
func sends(ev *Event) []*Term {
	var out []*Term
	switch ev.Kind {
	case EvSend:
		out = append(out, ev.Addr)
	case EvBlock:
		for _, c := range ev.Sel.Cases {
			if c.Dir == types.SendOnly {
				out = append(out, c.Chan)
			}
		}
	}
	return out
}

// p30Change: a change of what is wanted is marked and the reconciler woken after.
func p30Change(r *Run, d *reconData, x *Exec, st *State, ev *Event) {
	yes := x.TT.boolC(true)
	clear := func(ks ...string) {
		for _, k := range ks {
			delete(st.mon, k)
		}
	}
	switch ev.Kind {
	case EvMapUpd, EvMapDel:
		f := tableOf(st, ev.Addr)
		switch {
		case f == nil:
		case d.wanted[f]:
			if ev.Kind == EvMapDel {
				clear("c.empty")
			}
			if ev.Kind == EvMapUpd && st.has("c.has") && st.mon["c.has"] == ev.Key {
				return // the channel was wanted already
			}
			if m := st.mon["c.mark"]; m != nil && m == ev.Key {
				return
			}
			st.mon["c.need"] = ev.Key
		case f == d.dirty && ev.Kind == EvMapUpd && rangeKey(ev.Key) == nil && d.keySet(ev.Key) == "":
			if n := st.mon["c.need"]; n != nil && sameVal(n, ev.Key) {
				clear("c.need")
			} else {
				st.mon["c.mark"] = ev.Key
			}
			if !st.has("c.woke") {
				st.mon["c.owe"] = yes
			}
		}
	case EvAssume:
		if ev.Cond.op == "lookupok" {
			if f := tableOf(st, ev.Cond.args[0]); f != nil && d.wanted[f] && ev.Truth {
				st.mon["c.has"] = ev.Cond.args[1]
			}
		}
		if l, e := lenFact(ev.Cond, ev.Truth); e == 0 && st.has("c.empty") && l.any(func(u *Term) bool {
			return u.op == "call" && strings.HasSuffix(u.aux, "Delete") || u.op == "append" || u.op == "load"
		}) {
			clear("c.empty")
		}
	case EvStore:
		// a subscription is taken off its list
		if f := fieldOfAddr(ev.Addr.strip()); f != nil {
			if t := ev.Val.strip(); t.any(func(u *Term) bool { return u.op == "call" && strings.HasSuffix(u.aux, "slices.Delete") }) && ev.Addr.any(func(u *Term) bool {
				return u.op == "lookup" && d.wanted[origin(tableOf(st, u.args[0]))]
			}) {
				st.mon["c.empty"] = yes
			}
		}
		if f := fieldOfAddr(ev.Addr.strip()); f != nil && d.wake[f.Origin()] {
			if t := ev.Val.strip(); t.op == "mkchan" {
				n, ok := constInt(t.args[0])
				r.At(ok && n > 0 || !d.nonblk, "wakeup", ev, st, "the wake-up channel holds nothing while the reconciler is at work: a wake-up can be lost")
			}
		}
	case EvBlock, EvSend:
		for _, c := range sends(ev) {
			if f := tableOf(st, c); f != nil && d.wake[f.Origin()] && (!d.push || st.has("c.pushed")) {
				clear("c.owe", "c.pushed", "r.again")
				st.mon["c.woke"] = yes
			}
		}
	case EvCall:
		if strings.Contains(ev.Name, "deque.Deque).Push") {
			st.mon["c.pushed"] = yes
		}
		if k := isLockCall(ev); k == "unlock" && len(st.locks) <= 1 {
			clear("c.mark", "c.woke", "c.has")
		}
	case EvReturn:
		if ev.Name == "root" && !ev.Truth {
			r.At(!st.has("c.need"), "scheduled", ev, st, "what is wanted changed for %v, which is not marked for reconciliation", st.mon["c.need"])
			r.At(!st.has("c.owe"), "scheduled", ev, st, "a channel is marked for reconciliation and the reconciler is not woken after that")
			r.At(!st.has("c.empty"), "removed", ev, st, "a subscription leaves its list, and the channel stays wanted though the list may be empty")
		}
	}
}

func origin(v *types.Var) *types.Var {
	if v == nil {
		return nil
	}
	return v.Origin()
}

// p30Reconcile: decides, calls, records.
func p30Reconcile(r *Run, d *reconData, x *Exec, st *State, ev *Event) {
	yes := x.TT.boolC(true)
	clearPre := func(p string) {
		for k := range st.mon {
			if strings.HasPrefix(k, p) {
				delete(st.mon, k)
			}
		}
	}
	isDirty := func(t *Term) bool { f := tableOf(st, t); return f != nil && f == d.dirty }
	ofDirty := func(k *Term) bool { m := rangeKey(k); return m != nil && isDirty(m) }
	settled := func(ev *Event) {
		for _, s := range []string{"Subscribe", "Unsubscribe"} {
			r.At(!st.has("r.owe:"+s), "done", ev, st, "the outcome of %s is neither recorded nor marked to be retried", s)
			r.At(!st.has("r.has:"+s), "called", ev, st, "channels are chosen for %s, which is not called for them", s)
		}
	}
	// apply: the set (or one of its keys) goes to the given table
	apply := func(s string, tbl *types.Var, remove bool) {
		switch {
		case tbl == d.dirty && !remove:
			delete(st.mon, "r.owe:"+s)
			delete(st.mon, "r.has:"+s)
			st.mon["r.again"] = yes
		case tbl == d.current:
			if remove != (s == "Unsubscribe") {
				r.At(false, "done", ev, st, "the channels handed to %s are recorded the wrong way round", s)
				return
			}
			r.At(st.has("r.ok:"+s) || !st.has("r.called:"+s) && !st.has("r.has:"+s), "done", ev, st, "the channels handed to %s are recorded as done without knowing that it succeeded", s)
			delete(st.mon, "r.owe:"+s)
		}
	}
	switch ev.Kind {
	case EvNext:
		if isDirty(ev.Addr) {
			st.mon["r.read"] = yes
			clearPre("k.")
			clearPre("r.again")
		}
		if s := d.setOf(ev.Addr); s != "" {
			st.mon["r.in:"+s] = yes
		}
	case EvAssume:
		c := ev.Cond
		switch {
		case c.op == "lookupok" && ofDirty(c.args[1]):
			if f := tableOf(st, c.args[0]); f != nil {
				st.mon["k."+f.Name()] = x.TT.boolC(ev.Truth)
			}
		case c.op == "eq" && len(c.args) == 2 && c.args[1].isNil():
			l := c.args[0].strip()
			if l.op == "lookup" && ofDirty(l.args[1]) {
				if f := tableOf(st, l.args[0]); f != nil {
					st.mon["k."+f.Name()] = x.TT.boolC(!ev.Truth)
				}
			}
			for _, s := range []string{"Subscribe", "Unsubscribe"} {
				if e := st.mon["r.err:"+s]; e != nil && ev.Truth && (e == l || l.op == "call" && (strings.HasSuffix(l.aux, "multierr.Combine") || strings.HasSuffix(l.aux, "errors.Join") || strings.HasSuffix(l.aux, "multierr.Append")) && holdsArg(st, l, e)) {
					st.mon["r.ok:"+s] = yes
				}
			}
		case c.op == "nextok" && !ev.Truth:
			if rg := unstale(c.args[0].strip()); rg.op == "range" {
				if s := d.setOf(rg.args[0]); s != "" && !st.has("r.body:"+s) {
					delete(st.mon, "r.owe:"+s) // nothing in it
					delete(st.mon, "r.has:"+s)
				}
				delete(st.mon, "r.body:"+d.setOf(rg.args[0]))
			}
		case c.op == "nextok" && ev.Truth:
			if rg := unstale(c.args[0].strip()); rg.op == "range" {
				if s := d.setOf(rg.args[0]); s != "" {
					st.mon["r.body:"+s] = yes
				}
			}
		}
		if l, e := lenFact(c, ev.Truth); e == 1 {
			if s := d.setOf(l); s != "" {
				delete(st.mon, "r.has:"+s)
				delete(st.mon, "r.owe:"+s)
			}
			if isDirty(l) {
				clearPre("r.again")
			}
		}
	case EvMapUpd, EvMapDel:
		if s := d.setOf(ev.Addr); s != "" && ev.Kind == EvMapUpd && ofDirty(ev.Key) {
			st.mon["k.to:"+s] = yes
			st.mon["r.has:"+s] = yes
			return
		}
		if s := d.keySet(ev.Key); s != "" {
			apply(s, tableOf(st, ev.Addr), ev.Kind == EvMapDel)
		}
		if m := rangeKey(ev.Key); m != nil {
			if ev.Kind == EvMapDel && isDirty(ev.Addr) && ofDirty(ev.Key) {
				r.At(st.has("r.read"), "cleared", ev, st, "a mark is cleared in another critical section than the one it was read in")
			}
		}
	case EvAppend:
		if st.has("r.read") {
			st.mon["k.to:?"] = yes
		}
	case EvStore:
		if f := fieldOfAddr(ev.Addr.strip()); f != nil && f.Origin() == d.dirty && baseObj(ev.Addr).op != "alloc" {
			r.At(st.has("r.read"), "cleared", ev, st, "the marks are replaced in another critical section than the one they were read in: a mark made in between is lost")
		}
	case EvCall:
		n := lastName(ev.Name)
		switch {
		case strings.HasSuffix(ev.Name, "maps.Clear") || ev.Name == "builtin clear" || n == "clear":
			if len(ev.Args) > 0 && isDirty(ev.Args[0]) {
				r.At(st.has("r.read"), "cleared", ev, st, "the marks are cleared in another critical section than the one they were read in: a mark made in between is lost")
			}
		case strings.HasSuffix(ev.Name, "maps.Copy") && len(ev.Args) == 2:
			if s := d.setOf(ev.Args[1]); s != "" {
				apply(s, tableOf(st, ev.Args[0]), false)
			}
		}
		if k := isLockCall(ev); k == "unlock" {
			delete(st.mon, "r.read")
		}
	case EvRet:
		s := pubSubCall(ev)
		if s != "Subscribe" && s != "Unsubscribe" {
			return
		}
		hit := false
		for _, a := range ev.Args[2:] {
			for _, in := range madeBy(a) {
				hit = hit || d.sets[s][in]
			}
		}
		if hit && len(ev.Results) > 0 {
			delete(st.mon, "r.ok:"+s)
			delete(st.mon, "r.has:"+s)
			st.mon["r.called:"+s] = yes
			st.mon["r.owe:"+s] = yes
			st.mon["r.err:"+s] = ev.Results[0].strip()
		}
	case EvBack:
		inner, outer := false, false
		for b := range ev.Loop.body {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && d.callsOver(c, 0) {
					outer = true
				}
				nx, ok := in.(*ssa.Next)
				if !ok || nx.IsString {
					continue
				}
				if rg, ok := nx.Iter.(*ssa.Range); ok && d.rangesDirty(rg) {
					if nx.Block() == ev.Loop.header {
						inner = true
					} else {
						outer = true
					}
				}
			}
		}
		if inner {
			for ph, v := range ev.Phis {
				for _, s := range []string{"Subscribe", "Unsubscribe"} {
					if d.sets[s][ph] && v.strip().op != "phi" && !v.isNil() {
						st.mon["k.to:"+s] = yes
						st.mon["r.has:"+s] = yes
						delete(st.mon, "k.to:?")
					}
				}
			}
			p30Decide(r, d, x, st, ev)
		}
		if outer && !inner {
			settled(ev)
			clearPre("r.ok")
			clearPre("r.err")
			clearPre("r.called")
		}
	case EvReturn:
		if !ev.Truth && (ev.Name == "root" || ev.Name == "go") {
			settled(ev)
			r.At(!st.has("r.again"), "retried", ev, st, "channels whose subscribe or unsubscribe failed are marked, and the reconciler stops without looking at them again")
		}
	}
}

func (d *reconData) rangesDirty(rg *ssa.Range) bool {
	if u, ok := rg.X.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return origin(fieldOf(fa.X.Type(), fa.Field)) == d.dirty
		}
	}
	return false
}

// callsOver: the call reaches a function that ranges over the marks.
func (d *reconData) callsOver(c *ssa.Call, depth int) bool {
	fn := c.Call.StaticCallee()
	if fn == nil || depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if rg, ok := in.(*ssa.Range); ok && d.rangesDirty(rg) {
				return true
			}
			if c, ok := in.(*ssa.Call); ok && d.callsOver(c, depth+1) {
				return true
			}
		}
	}
	return false
}

// holdsArg: e is among the arguments of the variadic call c.
func holdsArg(st *State, c, e *Term) bool {
	for _, a := range c.args {
		if a.strip() == e {
			return true
		}
		if a.op == "slice" {
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0] == a.args[0] && v.strip() == e {
					return true
				}
			}
		}
	}
	return false
}

// p30Decide: at the end of the iteration for one channel.
func p30Decide(r *Run, d *reconData, x *Exec, st *State, ev *Event) {
	val := func(f *types.Var) int {
		v := st.mon["k."+f.Name()]
		if v == nil {
			return -1
		}
		return x.truth(st, v)
	}
	des := 0
	for f := range d.wanted {
		switch val(f) {
		case 1:
			des = 1
		case -1:
			if des == 0 {
				des = -1
			}
		}
	}
	cur := val(d.current)
	s, u, any := st.has("k.to:Subscribe"), st.has("k.to:Unsubscribe"), st.has("k.to:?")
	r.At(!s || des == 1, "decide", ev, st, "a channel is subscribed that is not known to be wanted")
	r.At(!u || des == 0, "decide", ev, st, "a channel is unsubscribed that is not known to be unwanted everywhere")
	r.At(s || u || any || cur != -1 && cur == des, "decide", ev, st, "a channel is left as it is without knowing that what is subscribed is what is wanted")
}

// p30Workers: the reader and the writer go on for good.
func p30Workers(r *Run, d *reconData, x *Exec, st *State, ev *Event) {
	yes := x.TT.boolC(true)
	spawned := goDepth(st) != ""
	ends := func(t *Term) bool { // the connection or its context is known to be closed
		return t != nil && t.any(func(u *Term) bool {
			return u.op == "call" && strings.HasSuffix(u.aux, "Context).Err") || u.op == "global" && strings.HasSuffix(u.aux, ".ErrClosed")
		})
	}
	switch ev.Kind {
	case EvCall:
		if pubSubCall(ev) == "ReceiveMessage" || pubSubCall(ev) == "Receive" || pubSubCall(ev) == "ReceiveTimeout" {
			d.read = d.read || spawned
			if st.has("w.recv") {
				r.At(true, "reader", ev, st, "")
			}
			st.mon["w.recv"] = yes
		}
	case EvRecv:
		if f := tableOf(st, ev.Addr); f != nil && d.wake[f.Origin()] {
			d.write = d.write || spawned
			r.At(!st.has("r.again"), "retried", ev, st, "channels are marked to be retried, and the reconciler waits to be woken by somebody else")
			st.mon["w.wake"] = yes
		}
	case EvBlock:
		for _, c := range ev.Sel.Cases {
			if f := tableOf(st, c.Chan); c.Dir != types.SendOnly && f != nil && d.wake[f.Origin()] {
				d.write = d.write || spawned
				r.At(!st.has("r.again"), "retried", ev, st, "channels are marked to be retried, and the reconciler waits to be woken by somebody else")
				st.mon["w.wake"] = yes
			}
		}
	case EvSelect:
		if ev.Case >= 0 && doneOf(ev.Sel.Cases[ev.Case].Chan) != nil {
			delete(st.mon, "w.wake")
			delete(st.mon, "w.recv")
		}
	case EvAssume:
		if ev.Cond.op == "recvok" && !ev.Truth {
			delete(st.mon, "w.wake")
		}
		if ends(ev.Cond) {
			delete(st.mon, "w.wake")
			delete(st.mon, "w.recv")
		}
	case EvBack:
		if st.has("w.wake") {
			r.At(true, "writer", ev, st, "")
		}
	case EvReturn:
		if ev.Name == "root" || ev.Name == "go" {
			r.At(!st.has("w.recv"), "reader", ev, st, "the goroutine that receives from the connection ends")
			r.At(!st.has("w.wake"), "writer", ev, st, "the goroutine that reconciles ends")
		}
	}
}
