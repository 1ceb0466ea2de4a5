package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ownKey: key is the handler key of the method and topic the call was given.
func ownKey(x *Exec, st *State, key *Term) bool {
	k := key.strip()
	if k == nil || k.op != "pcall" || lastName(k.aux) != "GetHandlerKey" || len(k.args) != 1 {
		return false
	}
	m, t := x.peekIn(st, k.args[0], "Method"), x.peekIn(st, k.args[0], "Topic")
	return m.strip() != nil && m.strip().op == "param" && t.strip() != nil && t.strip().op == "param"
}

// peekIn is peek, also looking into embedded structs.
func (x *Exec) peekIn(st *State, ptr *Term, name string) *Term {
	ptr = ptr.strip()
	if ptr == nil || ptr.typ == nil || structFieldVar(ptr.typ, name) != nil {
		return x.peek(st, ptr, name)
	}
	if s, ok := derefNamed(ptr.typ).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Embedded() && structFieldVar(f.Type(), name) != nil {
				if _, isP := f.Type().(*types.Pointer); isP {
					return x.peekIn(st, x.peek(st, ptr, f.Name()), name)
				}
				return x.peekIn(st, x.faddr(ptr, f, types.NewPointer(f.Type())), name)
			}
		}
	}
	return x.peek(st, ptr, name)
}

type regCheck struct {
	r     *Run
	tab   *types.Var
	deny  *types.Var // the flag under which registration is refused
	cm    string
	del   map[*ssa.Function]bool // functions deleting from the table that were examined
	found bool
}

func p21(r *Run) {
	p43Predefined(r, "ErrServerClosed")
	tab, it := r.P.handlerTable()
	if tab == nil || closeMethod(it) == "" {
		r.Fail("anchor", "pkg/server.RPCServer", "-", "the server's table of handlers was not found", nil)
		return
	}
	c := &regCheck{r: r, tab: tab, cm: closeMethod(it), del: map[*ssa.Function]bool{}}
	c.shutdownFlag()
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		c.registers(root)
	}
	c.deregisters()
	for _, fn := range r.P.pkgFuncs("pkg/server") {
		if d := c.deletes(fn); d != nil {
			r.Check(c.del[fn], "remove-own", shortName(fn), r.P.InstrPos(d), "a handler is removed from the table other than by the completion of its own close", nil)
		}
	}
	for rule, n := range map[string]int{"insert-section": 2, "refuse-duplicate": 2, "refuse-closed": 2, "fail-clean": 2, "success-registered": 2, "completion-set": 2, "remove-own": 2, "deregister-own": 1, "flag-known": 1} {
		r.Min(rule, n)
	}
}

// shutdownFlag: the flag the server's Close sets in the section in which it lists the handlers.
func (c *regCheck) shutdownFlag() {
	c.r.exec("pkg/server.(RPCServer).Close", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Val.isTrue() && len(st.locks) > 0 {
			if f := fieldOfAddr(ev.Addr); f != nil {
				c.deny = f
				c.r.OK("flag-known", "field "+f.Name())
			}
		}
		if ev.Kind == EvCall && strings.HasSuffix(ev.Name, "atomic.Bool).Store") && len(ev.Args) == 2 && ev.Args[1].isTrue() && len(st.locks) > 0 {
			if f := fieldOfAddr(ev.Args[0]); f != nil {
				c.deny = f
				c.r.OK("flag-known", "field "+f.Name())
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || isMethodNamed(f, "pkg/server", c.cm) }
	})
}

func (c *regCheck) isTab(t *Term) bool { return t != nil && fieldOfLoad(t) == c.tab }

func (c *regCheck) deletes(fn *ssa.Function) ssa.Instruction {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
				if u, ok := call.Call.Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVarOf(fa) == c.tab {
						return in
					}
				}
			}
		}
	}
	return nil
}

func fieldVarOf(fa *ssa.FieldAddr) *types.Var {
	s, ok := derefNamed(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(fa.Field)
}

func (c *regCheck) registers(root string) {
	r := c.r
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvGo && st.mon["present"].isTrue() && (strings.HasSuffix(ev.Name, ")."+c.cm) || ev.Callee != nil && isMethodNamed(ev.Callee, "pkg/server", c.cm)) {
			r.At(false, "refuse-duplicate", ev, st, "a refused registration closes the handler already registered")
		}
		if st.has("#go") {
			return
		}
		if st.has("cb") { // inside the completion callback, run for the key it captured
			if ev.Kind == EvMapDel && c.isTab(ev.Addr) {
				c.del[ev.Fn] = true
				r.At(len(st.locks) > 0 && st.locks[oneKey(st)] == lockW, "remove-own", ev, st, "a handler is removed from the table without the exclusive lock")
				r.At(ev.Key == st.mon["key"], "remove-own", ev, st, "the completion of a handler frees %v, not its own key %v", ev.Key, st.mon["key"])
				st.mon["removed"] = x.TT.boolC(true)
			}
			return
		}
		switch ev.Kind {
		case EvStore:
			if f := fieldOfAddr(ev.Addr); f != nil && ev.Val.strip().op == "closure" {
				if sig, ok := f.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 0 && sig.Results().Len() == 0 {
					st.mon["cb-val"], st.mon["cb-of"] = ev.Val.strip(), ev.Addr.strip().args[0].strip()
				}
			}
		case EvLookup:
			if c.isTab(ev.Addr) && excl(st) {
				st.mon["looked"] = ev.Key
				st.mon["lookterm"] = ev.Val
			}
		case EvRet:
			if c.deny != nil && strings.HasSuffix(ev.Name, "atomic.Bool).Load") && fieldOfAddr(first(ev.Args)) == c.deny && excl(st) {
				st.mon["flag"] = ev.Results[0]
			}
			if sub := subscribeOf(ev); sub != nil {
				st.mon["open:"+sub.kind] = extractOf(x, ev, 1)
			}
		case EvLoad:
			if c.deny != nil && fieldOfAddr(ev.Addr) == c.deny && excl(st) {
				st.mon["flag"] = ev.Val
			}
		case EvAssume:
			if f := st.mon["flag"]; f != nil && ev.Cond == f {
				st.mon["closing"] = x.TT.boolC(ev.Truth)
			}
			if l := st.mon["lookterm"]; l != nil {
				if ev.Cond.op == "lookupok" && len(ev.Cond.args) == len(l.args) && ev.Cond.args[1] == l.args[1] {
					st.mon["present"] = x.TT.boolC(ev.Truth)
				}
				if ev.Cond.op == "eq" && (ev.Cond.args[0] == l && ev.Cond.args[1].isNil() || ev.Cond.args[1] == l && ev.Cond.args[0].isNil()) {
					st.mon["present"] = x.TT.boolC(!ev.Truth)
				}
			}
			for k, t := range st.mon {
				if strings.HasPrefix(k, "open:") && t != nil && ev.Cond.op == "eq" && (ev.Cond.args[0] == t && ev.Cond.args[1].isNil() || ev.Cond.args[1] == t && ev.Cond.args[0].isNil()) && !ev.Truth {
					delete(st.mon, k)
				}
			}
		case EvCall:
			if isUnlock(ev) && !st.has("stored") {
				// what was found no longer binds
				for _, k := range []string{"looked", "lookterm"} {
					delete(st.mon, k)
				}
				if st.mon["closing"].isFalse() {
					delete(st.mon, "closing")
				}
				if st.mon["present"].isFalse() {
					delete(st.mon, "present")
				}
			}
			if k := subClosed(ev); k != "" {
				delete(st.mon, "open:"+k)
			}
			if ev.Callee == nil && strings.HasSuffix(ev.Name, ")."+c.cm) || ev.Callee != nil && isMethodNamed(ev.Callee, "pkg/server", c.cm) {
				r.At(!st.mon["present"].isTrue(), "refuse-duplicate", ev, st, "a refused registration closes the handler already registered")
			}
		case EvMapUpd:
			if !c.isTab(ev.Addr) {
				return
			}
			r.At(excl(st), "insert-section", ev, st, "a handler is registered without the exclusive lock of the table")
			r.At(st.mon["closing"].isFalse(), "refuse-closed", ev, st, "a handler is registered without having established, in the same critical section, that the server is not shutting down")
			r.At(st.mon["present"].isFalse() && st.mon["looked"] == ev.Key, "insert-section", ev, st, "a handler is registered without having established, in the same critical section, that none is registered for its key")
			r.At(ownKey(x, st, ev.Key), "insert-section", ev, st, "a handler is registered under %v, not under the key of the method and topic it is for", ev.Key)
			st.mon["key"] = ev.Key
			st.mon["stored"] = x.TT.boolC(true)
			delete(st.mon, "present")
			st.mon["handler"] = ev.Val
		case EvMapDel:
			if c.isTab(ev.Addr) {
				c.del[ev.Fn] = true
				r.At(excl(st) && st.has("stored") && ev.Key == st.mon["key"], "remove-own", ev, st, "a registration removes %v from the table", ev.Key)
				delete(st.mon, "stored")
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth {
				return
			}
			n := 0
			if len(ev.Results) > 0 {
				n = x.isNilT(st, ev.Results[len(ev.Results)-1])
			}
			if st.mon["present"].isTrue() {
				r.At(n == 0, "refuse-duplicate", ev, st, "a second registration for the same method and topic may report success")
				r.At(!st.has("stored"), "refuse-duplicate", ev, st, "a second registration for the same method and topic replaces the first")
			}
			if st.mon["closing"].isTrue() {
				r.At(!st.has("stored"), "refuse-closed", ev, st, "a handler is registered after shutdown began")
				r.At(len(ev.Results) > 0 && globalNamed(ev.Results[len(ev.Results)-1], "ErrServerClosed"), "refuse-closed", ev, st, "a registration after shutdown began returns %v, not the server-closed error", ev.Results)
			}
			if n == 1 {
				r.At(st.has("stored"), "success-registered", ev, st, "a registration reports success without having registered the handler")
				c.completion(x, st, ev)
			} else {
				r.At(!st.has("stored"), "fail-clean", ev, st, "a failed registration leaves its handler registered")
				for k := range st.mon {
					if strings.HasPrefix(k, "open:") {
						r.At(false, "fail-clean", ev, st, "a failed registration leaves its %s subscription open", k[5:])
					}
				}
			}
		}
	}, nil)
}

// excl: an exclusive lock is held.
func excl(st *State) bool {
	for _, m := range st.locks {
		if m == lockW {
			return true
		}
	}
	return false
}

func oneKey(st *State) *Term {
	for t, m := range st.locks {
		if m == lockW {
			return t
		}
	}
	return nil
}

func extractOf(x *Exec, ev *Event, i int) *Term {
	if i < len(ev.Results) {
		return ev.Results[i]
	}
	return nil
}

// completion runs the callback the registered handler will invoke when it has closed.
func (c *regCheck) completion(x *Exec, st *State, ev *Event) {
	r := c.r
	h := st.mon["handler"].strip()
	cb := st.mon["cb-val"]
	if st.mon["cb-of"] != h {
		cb = nil
	}
	r.At(cb != nil, "completion-set", ev, st, "a handler is registered without a completion that removes it again")
	if cb == nil {
		return
	}
	fn, _ := cb.obj.(*ssa.Function)
	if fn == nil {
		return
	}
	s2 := st.clone()
	for l := range s2.locks {
		delete(s2.locks, l)
	}
	s2.mon["cb"] = x.TT.boolC(true)
	for _, o := range x.call(fn, x.TT.ctx(nil, ev.Instr, fn), nil, cb.args, s2) {
		if !o.st.panic {
			r.At(o.st.has("removed"), "completion-set", ev, st, "the completion of a handler may leave it registered: its method and topic stay taken")
		}
	}
}

func (c *regCheck) deregisters() {
	r := c.r
	r.exec("pkg/server.(RPCServer).DeregisterHandler", func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvLookup:
			if c.isTab(ev.Addr) {
				r.At(len(st.locks) > 0, "deregister-own", ev, st, "the table of handlers is read without its lock")
				r.At(ownKey(x, st, ev.Key), "deregister-own", ev, st, "the handler deregistered is looked up by %v, not by the key of the method and topic given", ev.Key)
				st.mon["h"] = ev.Val
			}
		case EvAssume:
			if l := st.mon["h"]; l != nil {
				if ev.Cond.op == "lookupok" && len(ev.Cond.args) == len(l.args) && ev.Cond.args[1] == l.args[1] {
					st.mon["present"] = x.TT.boolC(ev.Truth)
				}
				if ev.Cond.op == "eq" && (ev.Cond.args[0] == l && ev.Cond.args[1].isNil() || ev.Cond.args[1] == l && ev.Cond.args[0].isNil()) {
					st.mon["present"] = x.TT.boolC(!ev.Truth)
				}
			}
		case EvMapDel:
			if c.isTab(ev.Addr) && !c.del[ev.Fn] {
				r.At(st.has("closed"), "remove-own", ev, st, "the method and topic are freed before their handler was closed: its completion would then remove a handler registered later")
			}
		case EvCall:
			if strings.HasSuffix(ev.Name, ")."+c.cm) && strings.Contains(ev.Name, "pkg/server.") {
				r.At(ev.Args[0] == st.mon["h"], "deregister-own", ev, st, "deregistration closes %v, not the handler found for its key", ev.Args[0])
				r.At(st.mon["present"].isTrue(), "deregister-own", ev, st, "deregistration closes a handler although none was found")
				r.At(len(st.locks) == 0, "deregister-own", ev, st, "the handler is closed while the table is locked: its completion needs that lock")
				st.mon["closed"] = x.TT.boolC(true)
			}
		case EvReturn:
			if ev.Name == "root" && !ev.Truth && st.mon["present"].isTrue() {
				r.At(st.has("closed"), "deregister-own", ev, st, "a registered handler is not closed when it is deregistered")
			}
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || isMethodNamed(f, "pkg/server", c.cm) }
		x.Impl = nil
	})
}
