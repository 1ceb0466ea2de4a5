package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemOf: the event reads an element of a list of subscriptions (pointers to the struct that owns channel field f).
func elemOf(ev *Event, f *types.Var) *Term {
	if ev.Kind != EvLoad || ev.Addr == nil || ev.Addr.op != "iaddr" || ev.Val == nil {
		return nil
	}
	if ownsField(ev.Val.typ, f) {
		return ev.Val
	}
	return nil
}

func ownsField(t types.Type, f *types.Var) bool {
	if t == nil {
		return false
	}
	n := derefNamed(t)
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return true
		}
	}
	return false
}

func inLoop(ev *Event, blk *ssa.BasicBlock) bool {
	return ev.Loop != nil && ev.Loop.body[blk]
}

func p16(r *Run) {
	envelopeCodec(r)
	pump(r, true)
	for _, t := range r.buses() {
		m := r.learnModes(t)
		for f, roots := range r.busSenders(t) {
			for _, root := range roots {
				p16Dispatch(r, m, f, root)
			}
			counters := map[*types.Var]bool{} // fields that count the subscriptions of a list
			p16Close(r, m, f, t, counters)
			if len(counters) > 0 {
				p16Close(r, m, f, t, counters)
			}
			p16Subscribe(r, f, t, counters)
		}
	}
	r.Min("every-subscriber", 3)
	r.Min("no-drop", 3)
	r.Min("insert", 3)
	r.Min("list-kept", 3)
}

// p16Dispatch: every live element of a broadcast list is written, the loop is left only when exhausted, and every
// table that may hold subscriptions of the channel is consulted.
func p16Dispatch(r *Run, m *queueMode, f *types.Var, root *ssa.Function) {
	var elemBlk = map[string]*ssa.BasicBlock{}
	r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
		m.track(x, st, ev)
		clear := func(ks ...string) {
			for _, k := range ks {
				delete(st.mon, k)
			}
		}
		switch ev.Kind {
		case EvLookup:
			if fl := fieldHolding(st, ev.Addr); fl != nil {
				if _, ok := m.tables[fl]; ok {
					st.mon["table:"+fl.Name()] = ev.Val
					st.mon["found:"+fl.Name()] = ev.Val
				}
			}
			clear("elem", "pending", "qflag", "qlist")
			return
		case EvEnter, EvLeave:
			return
		case EvLoad:
			// the list is read: it is being dispatched to
			for k, v := range st.mon {
				if strings.HasPrefix(k, "found:") && ev.Addr.op == "faddr" && ev.Addr.args[0] == v {
					delete(st.mon, k)
				}
			}
			e := elemOf(ev, f)
			if e == nil || ev.Addr.args[0].op == "alloc" {
				return
			}
			if q := m.queueOf(st, ev.Addr); q == nil || *q {
				return
			}
			if p := st.mon["pending"]; p != nil && p != e && x.isNilT(st, p) != 1 {
				r.At(false, "every-subscriber", ev, st, "a broadcast goes on to the next subscriber without having written to the previous one")
			}
			st.mon["pending"] = e
			st.mon["inloop"] = e
			elemBlk["pending"] = ev.Instr.Block()
		case EvBlock, EvSend:
			ch := sendOn(ev, f)
			if ch == nil {
				return
			}
			if ev.Kind == EvBlock {
				ok := ev.Sel.Blocking
				for _, c := range ev.Sel.Cases {
					if c.Dir == types.RecvOnly {
						ctx := doneOf(c.Chan)
						ok = ok && ctx != nil && fieldBase(ctx) == fieldBase(ch)
					}
				}
				r.At(ok, "no-drop", ev, st, "a message may be dropped for an open subscription (an alternative of the write is not the end of the subscription)")
			}
			st.mon["sent"] = x.TT.boolC(true)
			if b := fieldBase(ch); b != nil && b == st.mon["pending"] {
				clear("pending")
				r.At(true, "every-subscriber", ev, st, "")
			}
		case EvAssume:
			if p := st.mon["pending"]; p != nil && ev.Truth && ev.Cond.op == "eq" && (ev.Cond.args[0] == p && ev.Cond.args[1].isNil() || ev.Cond.args[1] == p && ev.Cond.args[0].isNil()) {
				clear("pending")
			}
			for k, v := range st.mon {
				if !strings.HasPrefix(k, "found:") {
					continue
				}
				if ev.Cond.op == "lookupok" && !ev.Truth && v.op == "lookup" && len(v.args) == len(ev.Cond.args) && v.args[0] == ev.Cond.args[0] && v.args[1] == ev.Cond.args[1] {
					delete(st.mon, k)
				}
				if ev.Cond.op == "eq" && ev.Truth && (ev.Cond.args[0] == v || ev.Cond.args[1] == v) {
					delete(st.mon, k)
				}
			}
			// a subscription that is itself the dispatcher skips only when its own flag says so
			if b := boolField(ev.Cond); b != nil && ev.Truth && ownsFieldBase(ev.Cond, f) {
				st.mon["closedflag"] = x.TT.boolC(true)
			}
		case EvBack:
			own := elemBlk["pending"] != nil && ev.Loop.body[elemBlk["pending"]] && !loopReceives(ev)
			if p := st.mon["pending"]; p != nil {
				r.At(false, "every-subscriber", ev, st, "a broadcast passes over a subscriber without writing to it")
				clear("pending")
			}
			if own {
				clear("inloop")
				return
			}
			if st.has("inloop") && loopReceives(ev) {
				r.At(false, "every-subscriber", ev, st, "a broadcast stops before all subscribers were written to")
			}
			if loopReceives(ev) {
				p16Tables(r, m, st, ev)
				for k := range st.mon {
					if strings.HasPrefix(k, "table:") || strings.HasPrefix(k, "found:") {
						delete(st.mon, k)
					}
				}
				clear("pending", "inloop", "qflag", "qlist")
			}
		case EvReturn:
			if ev.Name == "go" || ev.Truth {
				return
			}
			r.At(!st.has("pending"), "every-subscriber", ev, st, "a broadcast ends without writing to a subscriber it read")
			r.At(!st.has("inloop"), "every-subscriber", ev, st, "a broadcast stops before all subscribers were written to")
			if len(root.Params) > 0 && ownsField(root.Params[0].Type(), f) {
				r.At(st.has("sent") || st.has("closedflag"), "every-subscriber", ev, st, "a message is not written to an open subscription")
			}
			if len(ev.Results) == 1 && ev.Results[0].isNil() {
				p16Tables(r, m, st, ev)
			}
		}
	}, nil)
}

func ownsFieldBase(t *Term, f *types.Var) bool {
	b := fieldBase(t)
	return b != nil && ownsField(b.typ, f)
}

func p16Tables(r *Run, m *queueMode, st *State, ev *Event) {
	any := false
	var key *Term
	same := true
	for fl := range m.tables {
		v := st.mon["table:"+fl.Name()]
		if v == nil {
			continue
		}
		any = true
		if v.op == "lookup" {
			if key != nil && key != v.args[1] {
				same = false
			}
			key = v.args[1]
		}
	}
	if !any {
		return
	}
	for fl := range m.tables {
		if !r.At(st.has("table:"+fl.Name()), "every-table", ev, st, "a message is dispatched without looking for subscriptions in %s", fl.Name()) {
			return
		}
		r.At(!st.has("found:"+fl.Name()), "every-table", ev, st, "the list found in %s is not dispatched to", fl.Name())
	}
	r.At(same, "every-table", ev, st, "the tables are looked up with different keys")
}

// p16Subscribe: the new subscription is inserted in the list found (or made) in the same critical section.
func p16Subscribe(r *Run, f *types.Var, t types.Type, counters map[*types.Var]bool) {
	for _, name := range []string{"Subscribe", "SubscribeQueue"} {
		fn := r.P.methodOf(t, name)
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			insert := func() {
				st.mon["inserted"] = x.TT.boolC(true)
				stale := false
				for k := range st.mon {
					if strings.HasPrefix(k, "released:") {
						stale = true
					}
				}
				r.At(!stale, "insert", ev, st, "a subscription is added to a list after the lock it was found under was released: the list may have been dropped meanwhile")
			}
			switch ev.Kind {
			case EvStore:
				if ev.Addr.op == "faddr" && ev.Addr.obj == f && ev.Addr.args[0].op == "alloc" {
					st.mon["sub"] = ev.Addr.args[0]
				}
				if a := st.mon["grown"]; a != nil && ev.Addr.op == "iaddr" && ev.Addr.args[0] == a.args[1].strip().args[0] && st.has("sub") && ev.Val == st.mon["sub"] {
					// the empty slot just appended
					st.mon["slot"] = x.lenOf(st, a.args[0])
					insert()
				}
				if ev.Addr.op == "iaddr" && ev.Addr.args[0].op != "alloc" && st.has("sub") && ev.Val == st.mon["sub"] {
					if len(ev.Addr.args) > 1 {
						st.mon["slot"] = ev.Addr.args[1]
						ix := ev.Addr.args[1]
						found := ix.any(func(u *Term) bool { return strings.Contains(u.aux, "slices.Index") })
						r.At(found || st.mon["nilslot"] == ix || x.grownAt(st, ix), "insert", ev, st, "a new subscription is stored in a slot that is not known to be empty")
					}
					insert()
				}
				if a := ev.Val.strip(); ev.Addr.op == "faddr" && a.op == "append" && len(a.args) == 2 && !a.args[1].isNil() {
					// one empty slot more: its index is the old length
					if v := a.args[1].strip(); v.op == "slice" && v.args[0].op == "alloc" {
						n, empty := 0, true
						for k, e := range st.heap {
							if k.op == "iaddr" && k.args[0] == v.args[0] {
								n++
								empty = empty && x.isNilT(st, e) > 0
							}
						}
						if p, ok := v.args[0].typ.Underlying().(*types.Pointer); ok && empty && n <= 1 {
							if arr, ok := p.Elem().Underlying().(*types.Array); ok && arr.Len() == 1 {
								st.mon["grown"] = a
							}
						}
					}
				}
				if a := ev.Val.strip(); ev.Addr.op == "faddr" && a.op == "append" && st.has("sub") && x.appends(st, a, st.mon["sub"]) {
					st.mon["slot"] = x.lenOf(st, a.args[0])
					insert()
				}
				if b := ev.Val.strip(); ev.Addr.op == "faddr" && (b.op == "binop" || b.op == "const") && isIntT(ev.Addr.obj.(*types.Var).Type()) {
					if b.op == "const" && b.aux == "1" || b.op == "binop" && b.aux == "+" && b.args[1].aux == "1" && b.args[0].op != "phi" {
						k := "inc:" + ev.Addr.obj.(*types.Var).Name()
						if st.has(k) {
							st.mon["inc2:"+ev.Addr.obj.(*types.Var).Name()] = x.TT.boolC(true)
						}
						st.mon[k] = x.TT.boolC(true)
					}
				}
			case EvLookup:
				if isSubTable(ev.MapT, ev.Addr, f, r.P) {
					for k := range st.mon {
						if strings.HasPrefix(k, "released:") || strings.HasPrefix(k, "under:") {
							delete(st.mon, k)
						}
					}
					for v := range lockVars(st) {
						st.mon["under:"+v.Pkg().Name()+"."+itoa(int(v.Pos()))] = x.TT.boolC(true)
					}
					r.At(len(lockVars(st)) > 0, "insert", ev, st, "the list of a channel's subscriptions is looked up without holding a lock")
				}
			case EvCall:
				if isUnlock(ev) {
					if v := lockVar(ev); v != nil && st.has("under:"+v.Pkg().Name()+"."+itoa(int(v.Pos()))) {
						st.mon["released:"+v.Pkg().Name()+"."+itoa(int(v.Pos()))] = x.TT.boolC(true)
					}
				}
				if strings.Contains(ev.Name, "nats.go.Conn).") && strings.Contains(ev.Name, "ubscribe") {
					st.mon["direct"] = x.TT.boolC(true)
				}
			case EvMapUpd:
				if a := ev.Val.strip(); a.op == "append" && st.has("sub") && x.appends(st, a, st.mon["sub"]) {
					insert()
				}
			case EvAssume:
				if ev.Cond.op == "lookupok" && ev.Truth {
					st.mon["present"] = x.TT.boolC(true)
				}
				if e := st.mon["slotelem"]; e != nil && ev.Cond.op == "eq" && ev.Cond.args[1].isNil() && ev.Cond.args[0] == e {
					delete(st.mon, "nilslot")
					if ev.Truth {
						st.mon["nilslot"] = st.mon["slotix"]
					}
				}
			case EvLoad:
				if e := elemOf(ev, f); e != nil && ev.Addr.args[0].op != "alloc" {
					st.mon["slotelem"], st.mon["slotix"] = e, ev.Addr.args[1]
				}
			case EvReturn:
				if ev.Name == "go" || ev.Truth || len(ev.Results) != 2 || x.isNilT(st, ev.Results[1]) == 0 || !st.has("sub") {
					return
				}
				if mentionsPkg(t, "nats") {
					r.At(st.has("direct") || st.has("inserted") && st.has("present"), "insert", ev, st, "a subscription is returned although its channel was never subscribed")
				} else {
					r.At(st.has("inserted"), "insert", ev, st, "a subscription is returned although it was never added to its channel's list")
				}
				for c := range counters {
					r.At(!st.has("inserted") || st.has("inc:"+c.Name()) && !st.has("inc2:"+c.Name()), "counted", ev, st, "a subscription is added without counting it once in %s, by which its list is found to be empty", c.Name())
				}
				if s := st.mon["slot"]; s != nil {
					// the closure that removes it later captured the slot
					if c := x.capturedInt(st, st.mon["sub"]); c != nil {
						r.At(sameShape(c, s), "slot", ev, st, "the subscription is stored at %v but removes %v when closed", s, c)
					}
				}
			}
		}, nil)
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isSubTable: a map whose values lead to subscriptions owning f.
func isSubTable(mt *types.Map, m *Term, f *types.Var, p *Program) bool {
	if mt == nil && m != nil && m.typ != nil {
		mt, _ = m.typ.Underlying().(*types.Map)
	}
	if mt == nil {
		return false
	}
	return leadsTo(mt.Elem(), f, map[types.Type]bool{})
}

func leadsTo(t types.Type, f *types.Var, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.(type) {
	case *types.Pointer:
		return leadsTo(u.Elem(), f, seen)
	case *types.Slice:
		return leadsTo(u.Elem(), f, seen)
	case *types.Named:
		if ownsField(u, f) {
			return true
		}
		if s, ok := u.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if leadsTo(s.Field(i).Type(), f, seen) {
					return true
				}
			}
			return false
		}
		return leadsTo(u.Underlying(), f, seen)
	case *types.Map:
		return leadsTo(u.Elem(), f, seen)
	}
	return false
}

// appends: the append term adds v.
func (x *Exec) appends(st *State, a, v *Term) bool {
	for _, e := range a.args[1:] {
		if e == v || x.reach(st, e, func(u *Term) bool { return u == v }) {
			return true
		}
	}
	return false
}

func (x *Exec) lenOf(st *State, t *Term) *Term {
	if t.isNil() {
		return x.TT.intC(0)
	}
	return x.TT.mk("len", "", nil, types.Typ[types.Int], nil, t)
}

// grownAt: ix is the index of the empty slot that was just appended to the list.
func (x *Exec) grownAt(st *State, ix *Term) bool {
	a := st.mon["grown"]
	if a == nil || ix == nil {
		return false
	}
	ix = ix.strip()
	return ix == x.lenOf(st, a.args[0]) || ix.op == "binop" && ix.aux == "-" && ix.args[0].op == "len" && ix.args[0].args[0] == a && ix.args[1].aux == "1"
}

// capturedInt: the one integer cell the subscription's own closures captured.
func (x *Exec) capturedInt(st *State, sub *Term) *Term {
	var out *Term
	n := 0
	for a, v := range st.heap {
		if a.op != "faddr" || a.args[0] != sub || v.op != "closure" {
			continue
		}
		for _, c := range v.args {
			val := c
			if c.op == "alloc" {
				val = st.heap[c]
			}
			if val == nil || val.typ == nil || !isIntT(val.typ) {
				continue
			}
			out = val
			n++
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// p16Close: closing removes only this subscription, and drops the list only when it is empty.
func p16Close(r *Run, m *queueMode, f *types.Var, t types.Type, counters map[*types.Var]bool) {
	closers := r.P.subFields()[f]
	for _, fn := range closers {
		for _, root := range r.P.entries(busPkg, fn) {
			r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
				switch ev.Kind {
				case EvCall:
					if isLock(ev) {
						// facts about list sizes learned earlier are stale
						delete(st.mon, "emptycond")
						delete(st.mon, "emptyval")
					}
					if strings.HasSuffix(ev.Name, "slices.Delete") || strings.HasSuffix(ev.Name, "slices.DeleteFunc") {
						st.mon["shrunk"] = x.TT.boolC(true)
						st.mon["prelist"] = ev.Args[0].strip()
					}
					if strings.HasSuffix(ev.Name, "slices.Delete") && len(ev.Args) == 3 {
						i, j := ev.Args[1], ev.Args[2]
						ok := j.op == "binop" && j.aux == "+" && j.args[0] == i && j.args[1].aux == "1"
						r.At(ok, "removes-own", ev, st, "closing a subscription removes [%v:%v] of the list", i, j)
						if i.op == "call" || i.op == "pcall" {
							if strings.HasSuffix(i.aux, "slices.Index") {
								r.At(sameShape(i.args[0], ev.Args[0]), "removes-own", ev, st, "the index was searched in another list")
							}
						}
					}
				case EvStore:
					if v := ev.Val.strip(); v.op == "slice" && ev.Addr.op == "faddr" && isListOf(ev.Addr.obj, f) {
						counted := v.any(func(u *Term) bool {
							fl := fieldOfLoad(u)
							return fl != nil && isIntT(fl.Type())
						})
						r.At(!counted, "removes-own", ev, st, "closing a subscription cuts the list to a counted length, although open subscriptions may lie beyond it: %v", v)
					}
					if ev.Addr.op == "iaddr" && ev.Val.isNil() {
						ix := ev.Addr.args[1]
						r.At(!ix.isConst(), "removes-own", ev, st, "closing a subscription clears a fixed slot")
						st.mon["cleared"] = x.TT.boolC(true)
					}
					if v := ev.Val.strip(); ev.Addr.op == "faddr" && isIntT(ev.Addr.obj.(*types.Var).Type()) && v.op == "binop" {
						if v.aux == "-" && v.args[1].aux == "1" || v.aux == "+" && v.args[1].aux == "-1" {
							k := "dec:" + ev.Addr.aux
							if st.has(k) {
								st.mon["dec2:"+ev.Addr.aux] = x.TT.boolC(true)
							}
							st.mon[k] = x.TT.boolC(true)
							st.mon["pre:"+ev.Addr.aux] = v.args[0].strip()
						}
					}
				case EvAppend:
					// the remaining elements put together again
					if len(ev.Args) > 0 && ev.Args[0].strip().op == "slice" {
						st.mon["shrunk"] = x.TT.boolC(true)
					}
				case EvAssume:
					cf := counterOf(ev.Cond)
					after := st.has("shrunk")
					if cf != nil {
						after = st.has("dec:" + cf.Name())
					}
					for _, a := range ev.Cond.args {
						a = a.strip()
						if cf != nil && a == st.mon["pre:"+cf.Name()] || a.op == "len" && a.args[0].strip() == st.mon["prelist"] {
							after = false // the size read before this subscription was taken out
						}
					}
					if v := emptiness(ev.Cond, ev.Truth, after); v != 0 {
						st.mon["emptycond"] = ev.Cond
						st.mon["emptyval"] = x.TT.boolC(v == 1)
						delete(st.mon, "emptyctr")
						if cf != nil {
							st.mon["emptyctr"] = x.TT.mk("ctr", cf.Name(), cf, nil, nil)
						}
					}
				case EvMapDel:
					if !isSubTable(ev.MapT, ev.Addr, f, r.P) {
						return
					}
					r.At(st.has("emptyval") && st.mon["emptyval"].isTrue(), "list-kept", ev, st, "a channel's list of subscriptions is dropped although it is not known to be empty")
					r.At(len(st.locks) > 0, "list-kept", ev, st, "a channel's list is dropped without holding a lock")
					if c := st.mon["emptycond"]; c != nil && ev.Key != nil {
						if l := listIn(c); l != nil {
							r.At(sameShape(l.args[0], ev.Addr), "list-kept", ev, st, "a channel's list is dropped from a table other than the one whose list was found empty")
							r.At(sameShape(l.args[1], ev.Key), "list-kept", ev, st, "the list of another channel is dropped than the one found empty")
						}
					}
					delete(st.mon, "emptyval")
					st.mon["shrunk"] = x.TT.boolC(true)
					if c := st.mon["emptyctr"]; c != nil {
						counters[c.obj.(*types.Var)] = true
					}
				case EvReturn:
					if !ev.Truth && ev.Name != "go" {
						for c := range counters {
							r.At(!st.has("cleared") || st.has("dec:"+c.Name()) && !st.has("dec2:"+c.Name()), "counted", ev, st, "a subscription is removed without being counted out once of %s, by which its list is found to be empty", c.Name())
						}
					}
					// dropping a list that is empty is not required: an empty list receives nothing
				}
			}, nil)
		}
	}
}

// isListOf: a field holding a list of the subscriptions that own f.
func isListOf(o any, f *types.Var) bool {
	v, ok := o.(*types.Var)
	if !ok {
		return false
	}
	sl, ok := v.Type().Underlying().(*types.Slice)
	return ok && ownsField(sl.Elem(), f)
}

// listIn: the one table lookup a condition's size comes from.
func listIn(c *Term) *Term {
	var out *Term
	n := 0
	c.any(func(u *Term) bool {
		if u.op == "lookup" && len(u.args) == 2 {
			if out == nil || !sameShape(out, u) {
				n++
			}
			out = u
		}
		return false
	})
	if n != 1 {
		return nil
	}
	return out
}

// counterOf: the counter field a condition compares.
func counterOf(c *Term) *types.Var {
	var out *types.Var
	for _, a := range c.args {
		a = a.strip()
		for a.op == "binop" && len(a.args) == 2 && a.args[1].isConst() {
			a = a.args[0].strip()
		}
		if v := fieldOfLoad(a); v != nil && isIntT(v.Type()) {
			out = v
		}
	}
	return out
}

// emptiness: 1 = the condition says the list becomes or is empty, -1 = says it is not, 0 = about something else.
// after: the size is read after this subscription was taken out of it.
func emptiness(c *Term, truth, after bool) int {
	sized := func(t *Term) bool {
		t = t.strip()
		if t.op == "len" {
			return true
		}
		if (t.op == "load" || t.op == "sload" || t.op == "binop") && t.typ != nil && isIntT(t.typ) {
			if t.op == "binop" && !(t.aux == "-" || t.aux == "+") {
				return false
			}
			return t.any(func(u *Term) bool { return u.op == "faddr" })
		}
		return false
	}
	yes := func(b bool) int {
		if b {
			return 1
		}
		return -1
	}
	num := func(t *Term) (int, bool) {
		if !t.isConst() {
			return 0, false
		}
		n, err := strconv.Atoi(t.aux)
		return n, err == nil
	}
	last := 1 // the size at which nothing else is left
	if after {
		last = 0
	}
	switch c.op {
	case "eq":
		for i := 0; i < 2; i++ {
			if k, ok := num(c.args[1-i]); ok && sized(c.args[i]) {
				if truth {
					return yes(k <= last)
				}
				return -1
			}
		}
	case "lt":
		if k, ok := num(c.args[0]); ok && sized(c.args[1]) { // k < n
			return yes(!truth && k <= last)
		}
		if k, ok := num(c.args[1]); ok && sized(c.args[0]) { // n < k
			return yes(truth && k <= last+1)
		}
	}
	return 0
}

// sameShape: the same expression, possibly evaluated at different times.
func sameShape(a, b *Term) bool {
	a, b = a.strip(), b.strip()
	if a == b {
		return true
	}
	if a == nil || b == nil || a.op != b.op || a.aux != b.aux || a.obj != b.obj || len(a.args) != len(b.args) {
		return false
	}
	switch a.op {
	case "alloc", "phi", "loopcell", "havoc", "mkmap", "mkchan":
		return false
	}
	for i := range a.args {
		if !sameShape(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}
