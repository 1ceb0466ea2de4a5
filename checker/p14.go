package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P14", "lock and ordering analysis: every send on a subscription's channel runs under a lock and has the subscription's own context as alternative; every close of that channel is preceded by cancelling that context and then by a critical section of such a lock in which the subscription was removed or marked closed", p14)
	register("P15", "counting dataflow over abstract paths: a queue dispatch writes to at most one subscriber and gives up only after trying all; the Redis read passes a queue message on only after taking its lock; queue subscriptions use one shared queue group and are used exactly for queue methods", p15)
	register("P16", "loop analysis over abstract paths: a broadcast dispatch writes to every live subscriber of the looked-up channel and leaves its loop only when exhausted; lists are filled under the lock they are found under and dropped only when empty", p16)
	register("P17", "effect analysis: no goroutine is started between taking a message in order and handing it on, one worker per ordered queue, batches are appended at the end, taken whole and iterated ascending, and the worker is chosen by the channel alone", p17)
}

const busPkg = "internal/bus"

// busFuncs lists the functions of internal/bus (closures included).
func (p *Program) pkgFuncs(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg != nil && root.Pkg == p.Pkg(rel) && root.Origin() == nil {
			out = append(out, f)
		} else if root.Pkg == nil && root.Object() != nil && root.Object().Pkg() == p.Pkg(rel).Pkg && root.Origin() == nil {
			out = append(out, f)
		}
	}
	return out
}

// closedChanFields lists the channel fields of structs in a package that some function of it closes, with the closers.
func (p *Program) closedChanFields(rel string) map[*types.Var][]*ssa.Function {
	out := map[*types.Var][]*ssa.Function{}
	for _, fn := range p.pkgFuncs(rel) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					cc = &in.Call
				case *ssa.Defer:
					cc = &in.Call
				}
				if cc == nil {
					continue
				}
				bi, ok := cc.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" {
					continue
				}
				if f := loadedField(cc.Args[0]); f != nil {
					out[f] = append(out[f], fn)
				}
			}
		}
	}
	return out
}

func loadedField(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa.X.Type(), fa.Field)
		}
	case *ssa.ChangeType:
		return loadedField(v.X)
	}
	return nil
}

// entries climbs from a function to the functions of the package through which it is reached from outside it:
// those without a static caller, and those used as values.
func (p *Program) entries(rel string, fn *ssa.Function) []*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	valued := map[*ssa.Function]bool{}
	org := func(f *ssa.Function) *ssa.Function {
		if f.Origin() != nil {
			return f.Origin()
		}
		return f
	}
	for _, f := range p.pkgFuncs(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc := callCommon(in)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && (cc == nil || cc.Value != *op) {
						if strings.HasSuffix(g.Name(), "$bound") || strings.HasSuffix(g.Name(), "$thunk") {
							if m, ok := g.Object().(*types.Func); ok {
								if mf := p.SSA.FuncValue(m); mf != nil {
									valued[org(mf)] = true
								}
							}
						} else {
							valued[org(g)] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if m, ok := g.Object().(*types.Func); ok {
						if mf := p.SSA.FuncValue(m); mf != nil {
							valued[org(mf)] = true
						}
					}
				}
				if _, isGo := in.(*ssa.Go); isGo && cc.StaticCallee() != nil {
					callers[org(cc.StaticCallee())] = append(callers[org(cc.StaticCallee())], f)
					continue
				}
				if cc != nil && cc.StaticCallee() != nil {
					callers[org(cc.StaticCallee())] = append(callers[org(cc.StaticCallee())], f)
				}
			}
		}
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			climb(f.Parent())
			return
		}
		cs := callers[f]
		if len(cs) == 0 || valued[f] {
			out = append(out, f)
		}
		for _, c := range cs {
			climb(org(c))
		}
	}
	climb(org(fn))
	return out
}

// lockVars: the mutex fields held, with their mode.
func lockVars(st *State) map[*types.Var]lockMode {
	out := map[*types.Var]lockMode{}
	for t, m := range st.locks {
		if t.op == "faddr" {
			if v, ok := t.obj.(*types.Var); ok {
				out[v] = m
			}
		}
	}
	return out
}

func lockVar(ev *Event) *types.Var {
	if len(ev.Args) == 0 || ev.Args[0].op != "faddr" {
		return nil
	}
	v, _ := ev.Args[0].obj.(*types.Var)
	return v
}

// sendOn: the event sends, or offers to send, on the channel in field f; returns the channel.
func sendOn(ev *Event, f *types.Var) *Term {
	switch ev.Kind {
	case EvSend:
		if loadOf(ev.Addr, f) {
			return ev.Addr
		}
	case EvBlock:
		for _, c := range ev.Sel.Cases {
			if c.Dir == types.SendOnly && loadOf(c.Chan, f) {
				return c.Chan
			}
		}
	}
	return nil
}

func fieldBase(t *Term) *Term {
	t = t.strip()
	if t == nil {
		return nil
	}
	if t.op == "load" || t.op == "sload" {
		if t.args[0].op == "faddr" {
			return t.args[0].args[0]
		}
	}
	if (t.op == "field" || t.op == "peek") && len(t.args) > 0 {
		return t.args[0]
	}
	return nil
}

func (p *Program) senders(rel string, f *types.Var) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.pkgFuncs(rel) {
		snd := false
		for _, in := range chanUses(fn, f) {
			if _, isClose := in.(*ssa.Call); !isClose {
				snd = true
			}
		}
		if !snd {
			continue
		}
		for _, e := range p.entries(rel, fn) {
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	return out
}

// subFields: the channel fields of bus subscriptions: closed by some function and sent on by others.
func (p *Program) subFields() map[*types.Var][]*ssa.Function {
	out := map[*types.Var][]*ssa.Function{}
	for f, closers := range p.closedChanFields(busPkg) {
		if s, ok := f.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			continue
		}
		out[f] = closers
	}
	return out
}

func p14(r *Run) {
	if r.P.Pkg(busPkg) == nil {
		r.Fail("anchor", busPkg, "-", "the bus package does not exist", nil)
		return
	}
	for f, closers := range r.P.subFields() {
		p14Field(r, f, closers)
	}
	p14Reader(r)
	for _, rule := range []string{"send-guarded", "send-released", "close-cancels-first", "close-after-removal", "reader-ends"} {
		r.Min(rule, 3)
	}
}

func p14Field(r *Run, f *types.Var, closers []*ssa.Function) {
	var guards map[*types.Var]lockMode // locks held at every send
	var sctx *types.Var                // context field that releases a blocked send
	for _, root := range r.P.senders(busPkg, f) {
		r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
			ch := sendOn(ev, f)
			if ch == nil {
				return
			}
			held := lockVars(st)
			if guards == nil {
				guards = held
			} else {
				for v, m := range guards {
					h, ok := held[v]
					if !ok {
						delete(guards, v)
					} else if h < m {
						guards[v] = h
					}
				}
			}
			r.At(len(held) > 0, "send-guarded", ev, st, "a message is written to a subscription's channel without holding any lock: its Close may close the channel meanwhile")
			// released by its own context
			ok := ev.Kind == EvBlock && !ev.Sel.Blocking
			if ev.Kind == EvBlock {
				for _, c := range ev.Sel.Cases {
					if ctx := doneOf(c.Chan); c.Dir == types.RecvOnly && ctx != nil && fieldBase(ctx) != nil && fieldBase(ctx) == fieldBase(ch) {
						ok = true
						if a := ctx.strip(); a.op == "load" || a.op == "sload" {
							sctx, _ = a.args[0].obj.(*types.Var)
						}
					}
				}
			}
			r.At(ok, "send-released", ev, st, "a write to a full subscription is not released by that subscription's Close")
		}, nil)
	}
	_ = sctx
	for _, fn := range closers {
		for _, root := range r.P.entries(busPkg, fn) {
			p14Close(r, f, root, guards)
		}
	}
}

func p14Close(r *Run, f *types.Var, root *ssa.Function, guards map[*types.Var]lockMode) {
	removal := false
	r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
		// the engine forks on unknown function fields: only closes of this object count
		switch {
		case ev.Kind == EvCall && ev.FnTerm != nil && isCancelField(ev.FnTerm):
			st.mon["cancelled"] = x.TT.boolC(true)
		case isLock(ev) || ev.Kind == EvCall && ev.Name == "(*sync.RWMutex).RLock":
			v := lockVar(ev)
			m, ok := guards[v]
			if v == nil || !ok {
				return
			}
			r.At(st.has("cancelled"), "close-cancels-first", ev, st, "Close takes a lock that a blocked delivery to this subscription holds before cancelling that delivery: they wait for each other")
			if m == lockW || isLock(ev) {
				st.mon["excluded"] = x.TT.boolC(true)
			}
		case isUnlock(ev):
			delete(st.mon, "insection")
		case ev.Kind == EvMapDel || ev.Kind == EvMapUpd || ev.Kind == EvStore && ev.Addr.op != "alloc":
			held := lockVars(st)
			for v := range guards {
				if held[v] == lockW {
					removal = true
					st.mon["removed"] = x.TT.boolC(true)
				}
			}
		case ev.Kind == EvAssume:
			// not registered (any more)
			c := ev.Cond
			if c.op == "lookupok" && !ev.Truth || c.op == "eq" && ev.Truth && (c.args[0].aux == "-1" || c.args[1].aux == "-1") || c.op == "lt" && ev.Truth && c.args[1].aux == "0" {
				st.mon["absent"] = x.TT.boolC(true)
			}
		case ev.Kind == EvClose && loadOf(ev.Addr, f):
			r.At(st.has("cancelled"), "close-cancels-first", ev, st, "Close does not cancel the deliveries blocked on this subscription")
			if !r.At(st.has("excluded"), "close-after-removal", ev, st, "the subscription's channel is closed without a critical section of a lock its senders hold: a delivery may still write to it") {
				return
			}
			r.At(st.has("removed") || st.has("absent"), "close-after-removal", ev, st, "the subscription's channel is closed although it was neither removed from its list nor marked closed under the lock its senders hold")
			held := lockVars(st)
			_ = held
		}
	}, nil)
	if !removal {
		r.Fail("close-after-removal", shortName(root)+": removal", r.P.Pos(root.Pos()), "closing a subscription never removes it from the list its senders use", nil)
	}
}

func isCancelField(t *Term) bool {
	t = t.strip()
	if t == nil || t.typ == nil {
		return false
	}
	n := namedOf(t.typ)
	return (n == "context.CancelFunc" || n == "context.CancelCauseFunc") && (t.op == "load" || t.op == "sload" || t.op == "field" || t.op == "extract")
}

// p14Reader: after its subscription is closed a reader ends: it reports the end of a closed channel, and the
// goroutine that reads it closes the channel its user reads and returns.
func p14Reader(r *Run) {
	it := r.P.Named(busPkg, "Reader")
	if it == nil {
		r.Fail("anchor", "internal/bus.Reader", "-", "the reader interface does not exist", nil)
		return
	}
	subs := r.P.subFields()
	for _, t := range r.P.implTypes(it, busPkg) {
		fn := r.P.methodOf(t, "read")
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvAssume && ev.Cond.op == "recvok" && !ev.Truth {
				for f := range subs {
					if loadOf(ev.Cond.args[0], f) {
						st.mon["ended"] = x.TT.boolC(true)
					}
				}
			}
			if (ev.Kind == EvSelect || ev.Kind == EvRecv) && ev.Addr != nil && doneOf(ev.Addr) != nil {
				st.mon["ended"] = x.TT.boolC(true)
			}
			if ev.Kind == EvBack && st.has("ended") {
				r.At(false, "reader-ends", ev, st, "the reader goes on after its channel was closed or its context ended")
			}
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) == 2 {
				if st.has("ended") {
					r.At(ev.Results[1].isFalse() || ev.Results[1].op == "recvok", "reader-ends", ev, st, "the reader reports a message after its channel was closed")
				}
				if ev.Results[1].op == "recvok" {
					r.At(true, "reader-ends", ev, st, "")
				}
			}
		}, nil)
	}
	// the pump
	r.exec("internal/bus.newSubscription", func(x *Exec, st *State, ev *Event) {
		if st.mon["#go"] == nil {
			return
		}
		switch ev.Kind {
		case EvRet:
			if strings.HasSuffix(ev.Name, "Reader).read") {
				st.mon["ok"] = ev.Results[1]
				delete(st.mon, "end")
				if x.truth(st, ev.Results[1]) == 0 {
					st.mon["end"] = x.TT.boolC(true)
				}
			}
		case EvAssume:
			if st.has("ok") && (ev.Cond == st.mon["ok"] || readPhi(ev.Cond)) && !ev.Truth {
				st.mon["end"] = x.TT.boolC(true)
			}
		case EvBack:
			r.At(!st.has("end"), "pump-ends", ev, st, "the subscription's goroutine goes on after its reader ended")
		case EvClose:
			r.At(st.has("end"), "pump-ends", ev, st, "the subscription's channel is closed while its reader is open")
			r.At(!st.has("pclosed"), "pump-ends", ev, st, "the subscription's channel is closed twice")
			st.mon["pclosed"] = x.TT.boolC(true)
		case EvReturn:
			if ev.Name == "go" && !ev.Truth {
				r.At(st.has("pclosed"), "pump-ends", ev, st, "the subscription's goroutine ends without closing the channel its user reads")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return shortName(f) != "internal/bus.newSubscription" && defaultOpaque(f) }
	})
	r.Min("pump-ends", 2)
}

// ---------------------------------------------------------------------------------------------

// queueMode tells the queue dispatches of a bus from its broadcasts: by a flag the list or router carries, set
// differently by Subscribe and SubscribeQueue, or by the table the list is looked up in.
type queueMode struct {
	flags  map[*types.Var]bool // flag field -> value meaning queue
	tables map[*types.Var]bool // map field -> is queue table
}

// learnModes runs Subscribe and SubscribeQueue of a bus type.
func (r *Run) learnModes(t types.Type) *queueMode {
	m := &queueMode{flags: map[*types.Var]bool{}, tables: map[*types.Var]bool{}}
	type seen struct{ q, s bool }
	fl := map[*types.Var]map[bool]map[string]bool{} // field -> queue? -> values stored
	tb := map[*types.Var]*seen{}
	for _, q := range []bool{false, true} {
		name := "Subscribe"
		if q {
			name = "SubscribeQueue"
		}
		fn := r.P.methodOf(t, name)
		if fn == nil {
			return m
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvStore:
				if ev.Addr.op == "faddr" && (ev.Val.isTrue() || ev.Val.isFalse()) {
					f := ev.Addr.obj.(*types.Var)
					if fl[f] == nil {
						fl[f] = map[bool]map[string]bool{true: {}, false: {}}
					}
					fl[f][q][ev.Val.aux] = true
				}
			case EvMapUpd, EvLookup:
				a := ev.Addr
				if ev.Kind == EvLookup {
					a = ev.Addr
				}
				if b := a.strip(); b != nil && (b.op == "load" || b.op == "sload") && b.args[0].op == "faddr" {
					f := b.args[0].obj.(*types.Var)
					if tb[f] == nil {
						tb[f] = &seen{}
					}
					if q {
						tb[f].q = true
					} else {
						tb[f].s = true
					}
				}
			}
		}, nil)
	}
	for f, v := range fl {
		if len(v[true]) == 1 && v[true]["true"] && !v[false]["true"] {
			m.flags[f] = true
		}
	}
	for f, s := range tb {
		if s.q != s.s {
			m.tables[f] = s.q
		}
	}
	return m
}

// mode of the current dispatch: 1 queue, 0 broadcast, -1 unknown. Flags of the list take precedence.
func (m *queueMode) track(x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvAssume:
		for f := range m.flags {
			if loadOf(ev.Cond, f) {
				if b := fieldBase(ev.Cond); b != nil && b != st.mon["qlist"] {
					delete(st.mon, "wrote") // another list: another dispatch
					st.mon["qlist"] = b
				}
				st.mon["qflag"] = x.TT.boolC(ev.Truth)
			}
		}
	}
}

// fieldHolding: the struct field a value was loaded from or is stored in.
func fieldHolding(st *State, t *Term) *types.Var {
	b := t.strip()
	if b == nil {
		return nil
	}
	if (b.op == "load" || b.op == "sload") && b.args[0].op == "faddr" {
		return b.args[0].obj.(*types.Var)
	}
	var out *types.Var
	for a, v := range st.heap {
		if a.op == "faddr" && v.strip() == b {
			f := a.obj.(*types.Var)
			if out == nil || f.Pos() < out.Pos() {
				out = f
			}
		}
	}
	return out
}

// queueOf decides the mode of the list a subscription term came from.
func (m *queueMode) queueOf(st *State, ch *Term) *bool {
	yes, no := true, false
	if v := st.mon["qflag"]; v != nil {
		if v.isTrue() {
			return &yes
		}
		return &no
	}
	var res *bool
	ch.any(func(t *Term) bool {
		if t.op == "lookup" {
			if f := fieldHolding(st, t.args[0]); f != nil {
				if q, ok := m.tables[f]; ok {
					if q {
						res = &yes
					} else {
						res = &no
					}
					return true
				}
			}
		}
		return false
	})
	return res
}

// buses lists the message bus implementations that keep subscription lists of their own.
func (r *Run) buses() []types.Type {
	it := r.P.Named(busPkg, "MessageBus")
	if it == nil {
		r.Fail("anchor", "internal/bus.MessageBus", "-", "the bus interface does not exist", nil)
		return nil
	}
	return r.P.implTypes(it, busPkg)
}

// sendersOf: the delivery roots of a bus: senders of those channel fields whose owners its Subscribe methods create.
func (r *Run) busSenders(t types.Type) map[*types.Var][]*ssa.Function {
	made := map[*types.Var]bool{}
	for _, n := range []string{"Subscribe", "SubscribeQueue"} {
		fn := r.P.methodOf(t, n)
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvStore && ev.Addr.op == "faddr" && ev.Val.strip().op == "mkchan" {
				made[ev.Addr.obj.(*types.Var)] = true
			}
		}, nil)
	}
	out := map[*types.Var][]*ssa.Function{}
	for f := range r.P.subFields() {
		if made[f] {
			out[f] = r.P.senders(busPkg, f)
		}
	}
	return out
}

func p15(r *Run) {
	for _, t := range r.buses() {
		m := r.learnModes(t)
		for f, roots := range r.busSenders(t) {
			for _, root := range roots {
				p15Dispatch(r, m, f, root)
			}
		}
		p15Group(r, t)
	}
	r.Min("one-subscriber", 3)
	p15Gate(r)
	p15Methods(r)
}

func p15Dispatch(r *Run, m *queueMode, f *types.Var, root *ssa.Function) {
	r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
		m.track(x, st, ev)
		if ch := sendOn(ev, f); ch != nil {
			q := m.queueOf(st, ch)
			if q == nil || !*q {
				return
			}
			delete(st.mon, "qopen")
			k := "wrote"
			r.At(!st.has(k), "one-subscriber", ev, st, "a queue message may be handed to more than one subscriber")
			st.mon[k] = x.TT.boolC(true)
		}
		tried := st.has("exhausted")
		// a queue that was found is written to, or all of it was tried
		giveUp := func() {
			if st.has("qopen") {
				r.At(st.has("exhausted"), "tries-all", ev, st, "a queue message is given up although not every subscriber was tried")
			}
			delete(st.mon, "qopen")
			delete(st.mon, "exhausted")
		}
		switch ev.Kind {
		case EvAssume:
			c := ev.Cond
			for fl := range m.flags {
				if loadOf(c, fl) {
					giveUp()
					if ev.Truth {
						st.mon["qopen"] = x.TT.boolC(true)
					}
				}
			}
			var look *Term
			if c.op == "lookupok" && ev.Truth {
				look = c
			} else if c.op == "eq" && !ev.Truth && c.args[1].isNil() && c.args[0].strip().op == "lookup" {
				look = c.args[0].strip()
			}
			if look != nil && len(m.flags) == 0 {
				if fl := fieldHolding(st, look.args[0]); fl != nil && m.tables[fl] {
					giveUp()
					st.mon["qopen"] = x.TT.boolC(true)
				}
			}
			if c.op == "lt" {
				count := func(t *Term) bool {
					return !t.any(func(u *Term) bool { return u.op == "load" || u.op == "sload" || u.op == "call" || u.op == "faddr" })
				}
				if a, b := c.args[0].strip(), c.args[1].strip(); !ev.Truth && b.op == "len" && count(a) || ev.Truth && a.op == "len" && count(b) {
					st.mon["exhausted"] = x.TT.boolC(true)
				}
			}
		case EvReturn:
			if !ev.Truth {
				giveUp()
			}
		case EvBack:
			if loopReceives(ev) {
				giveUp()
			}
		}
		if ev.Kind == EvAssume || ev.Kind == EvLookup {
			// a new list: a new dispatch
			if ev.Kind == EvLookup {
				delete(st.mon, "wrote")
				delete(st.mon, "qflag")
			}
		}
		// giving up: an empty slot that was tried must be followed by another try
		if e := elemOf(ev, f); e != nil && ev.Addr.args[0].op != "alloc" {
			if q := m.queueOf(st, ev.Addr); q != nil && *q {
				st.mon["tried"] = e
				st.mon["index"] = ev.Addr.args[1]
				delete(st.mon, "moved")
			}
		}
		if t := st.mon["tried"]; t != nil {
			switch ev.Kind {
			case EvAssume:
				if ev.Truth && ev.Cond.op == "eq" && (ev.Cond.args[0] == t && ev.Cond.args[1].isNil() || ev.Cond.args[1] == t && ev.Cond.args[0].isNil()) {
					st.mon["empty"] = t
				}
			case EvStore:
				st.mon["moved"] = t
			case EvReturn, EvLookup:
				if (ev.Kind == EvLookup || !ev.Truth && ev.Name != "go") && st.has("empty") && !st.has("wrote") && !tried {
					r.At(false, "tries-all", ev, st, "a queue dispatch gives up after an empty slot without trying the others")
				}
				delete(st.mon, "empty")
				delete(st.mon, "tried")
			case EvBack:
				if st.has("empty") && !loopReceives(ev) {
					moved := st.has("moved")
					if ix := st.mon["index"]; ix != nil && !moved {
						moved = ix.any(func(u *Term) bool { return u.op == "phi" }) || ix.isConst()
					}
					r.At(moved, "tries-all", ev, st, "a queue dispatch retries the same empty slot")
					delete(st.mon, "empty")
					delete(st.mon, "tried")
				}
			}
		}
		if ev.Kind == EvBack && st.has("wrote") {
			// the dispatch loop itself must not go on; the reader's loop starts over with another message
			if loopReceives(ev) {
				delete(st.mon, "wrote")
				delete(st.mon, "qflag")
			}
		}
	}, nil)
}

// loopReceives: the loop takes a new message on each iteration.
func loopReceives(ev *Event) bool {
	for _, b := range loopBlocks(ev) {
		for _, in := range b.Instrs {
			if c := callCommon(in); c != nil {
				n := ""
				if c.StaticCallee() != nil {
					n = c.StaticCallee().Name()
				} else if c.Method != nil {
					n = c.Method.Name()
				}
				if n == "ReceiveMessage" || n == "Receive" || n == "NextMsg" || n == "read" {
					return true
				}
			}
		}
	}
	return false
}

func loopBlocks(ev *Event) []*ssa.BasicBlock {
	if ev.Loop == nil {
		return nil
	}
	var out []*ssa.BasicBlock
	for b := range ev.Loop.body {
		out = append(out, b)
	}
	return out
}

// p15Group: NATS-like buses subscribe queues with one constant group, and only queues.
func p15Group(r *Run, t types.Type) {
	for _, q := range []bool{false, true} {
		name := "Subscribe"
		if q {
			name = "SubscribeQueue"
		}
		fn := r.P.methodOf(t, name)
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvCall || !strings.Contains(ev.Name, "nats.go.Conn).") || !strings.Contains(ev.Name, "ubscribe") {
				return
			}
			grp := strings.Contains(ev.Name, "Queue")
			r.At(grp == q, "queue-group", ev, st, "%s subscribes with %s", name, ev.Name)
			if grp && q {
				g := ev.Args[2]
				r.At(g.isConst() && g.aux != `""`, "queue-group", ev, st, "the queue group is %v: processes only share a queue if all use the same group", g)
				if r.group == nil {
					r.group = map[string]bool{}
				}
				r.group[g.String()] = true
				r.At(len(r.group) == 1, "queue-group", ev, st, "queues are subscribed with different groups")
			}
		}, nil)
	}
}

// p15Gate: a reader of a queue that uses a distributed lock passes a message on only after taking it.
func p15Gate(r *Run) {
	it := r.P.Named(busPkg, "Reader")
	if it == nil {
		return
	}
	for _, t := range r.P.implTypes(it, busPkg) {
		fn := r.P.methodOf(t, "read")
		if fn == nil || !mentionsPkg(fn.Signature.Recv().Type(), "redis") {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvAssume:
				if b := boolField(ev.Cond); b != nil {
					st.mon["queue"] = x.TT.boolC(ev.Truth)
				}
				if st.has("lock") && st.has("lockerr") {
					if ev.Cond == st.mon["lock"] {
						st.mon["acquired"] = x.TT.boolC(ev.Truth)
					}
					if ev.Cond == x.eq(st, st.mon["lockerr"], x.TT.nilC()) {
						st.mon["noerr"] = x.TT.boolC(ev.Truth)
					}
				}
			case EvSelect, EvRecv:
				delete(st.mon, "acquired")
				delete(st.mon, "noerr")
				delete(st.mon, "queue")
				if ev.Val != nil {
					st.mon["msg"] = ev.Val
				}
			case EvCall:
				if strings.HasSuffix(ev.Name, ").SetNX") {
					st.mon["keyed"] = x.TT.boolC(st.has("msg") && x.dependsOn(st, ev.Args[2], st.mon["msg"]))
					r.At(st.mon["keyed"].isTrue(), "lock-gate", ev, st, "the lock taken for a queue message does not depend on the message: %v", ev.Args[2])
				}
			case EvRet:
				if strings.HasSuffix(ev.Name, "BoolCmd).Result") && len(ev.Results) == 2 {
					st.mon["lock"], st.mon["lockerr"] = ev.Results[0], ev.Results[1]
				}
			case EvReturn:
				if ev.Name == "root" && !ev.Truth && len(ev.Results) == 2 && !ev.Results[1].isFalse() {
					if st.mon["queue"].isFalse() {
						return
					}
					r.At(st.mon["acquired"].isTrue() && st.mon["noerr"].isTrue(), "lock-gate", ev, st, "a queue message is delivered without having taken its lock")
				}
			}
		}, nil)
	}
	r.Min("lock-gate", 1)
}

// dependsOn: the value is computed from m.
func (x *Exec) dependsOn(st *State, t, m *Term) bool {
	return t.any(func(u *Term) bool { return u == m }) || x.reach(st, t, func(u *Term) bool { return u == m })
}

func mentionsPkg(t types.Type, s string) bool {
	st, ok := derefNamed(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.Contains(types.TypeString(st.Field(i).Type(), nil), s+".") || strings.Contains(types.TypeString(st.Field(i).Type(), nil), "/"+s) {
			return true
		}
	}
	return false
}

// readPhi: a loop variable that always holds what the last read reported.
func readPhi(t *Term) bool {
	t = t.strip()
	if t == nil || t.op != "phi" {
		return false
	}
	ph, ok := t.obj.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		ex, ok := e.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		c, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		if m := c.Call.Method; m == nil || m.Name() != "read" {
			return false
		}
	}
	return true
}

func boolField(t *Term) *types.Var {
	t = t.strip()
	if t == nil {
		return nil
	}
	if (t.op == "load" || t.op == "sload") && t.args[0].op == "faddr" {
		if v, ok := t.args[0].obj.(*types.Var); ok && types.Identical(v.Type(), types.Typ[types.Bool]) {
			return v
		}
	}
	return nil
}

// p15Methods: which subscriptions are queue subscriptions.
func p15Methods(r *Run) {
	// the generic helpers call the method of the same kind
	for _, n := range []string{"Subscribe", "SubscribeQueue"} {
		n := n
		r.exec("internal/bus."+n, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvCall && strings.HasPrefix(ev.Name, "(internal/bus.MessageBus).Subscribe") {
				r.At(strings.HasSuffix(ev.Name, ")."+n), "queue-kind", ev, st, "%s subscribes with %s", n, ev.Name)
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return !strings.HasPrefix(shortName(f), "internal/bus.Subscribe") }
		})
	}
	r.exec("pkg/server.RegisterHandler", func(x *Exec, st *State, ev *Event) {
		trackFlag(x, st, ev, "Queue")
		if s := subscribeOf(ev); s != nil && ev.Kind == EvCall {
			if s.kind == "Request" {
				q := st.mon["flag:Queue"]
				ok := q.isTrue() && s.queue || q.isFalse() && !s.queue
				r.At(ok, "queue-kind", ev, st, "a method's requests are subscribed as a queue: %v, although its queue flag is %v", s.queue, q)
			} else {
				r.At(!s.queue, "queue-kind", ev, st, "%s messages are subscribed as a queue: only one server would get each", s.kind)
			}
		}
	}, nil)
	for root, q := range map[string]bool{"pkg/client.Join": false, "pkg/client.JoinQueue": true, "pkg/client.NewRPCClient": false, "pkg/server.RegisterStreamHandler": false} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if s := subscribeOf(ev); s != nil && ev.Kind == EvCall {
				r.At(s.queue == q, "queue-kind", ev, st, "subscribed as a queue: %v", s.queue)
			}
		}, nil)
	}
	r.Min("queue-kind", 7)
}
