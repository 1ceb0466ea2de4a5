package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P29", "lockset, lock-balance, lock-order and wait-under-lock analysis over SSA from every entry point and goroutine of the repository: a field written after construction and used under a lock anywhere is used under that lock everywhere (exclusively for writes), locks are released on every path, never taken twice, nested without cycles, and nothing is waited for under a lock that its provider needs", p29)
}

// access is one use of a field of a shared object.
type access struct {
	f     *types.Var
	write bool
	elem  bool // of the map the field holds
	locks map[*types.Var]lockMode
	ev    *Event
	st    *State
	key   string
}

type lockData struct {
	acc   map[*types.Var]map[string]*access
	edges map[[2]*types.Var]*Event
	edgeS map[[2]*types.Var]*State
	fns   int
	waits map[string]*lockWait
	prov  map[string][]provided // what is waited for -> the locks its provider took first, per site
	locks map[token.Pos]*types.Var
	recv  map[*types.Var]bool // locks taken by goroutines that take messages
	pubs  map[string]*lockWait
}

// provided: one site that provides something, the locks it took and what it waited for before.
type provided struct {
	took  map[*types.Var]bool
	after []string
}

// lockWait: something that may block, done under locks.
type lockWait struct {
	on    []string // waits for all of these (alternatives of a select)
	locks map[*types.Var]lockMode
	ev    *Event
	st    *State
}

// waitKey names what is waited for: the field holding it or, for a local one, the value itself.
func waitKey(root string, t *Term) string {
	if t == nil {
		return ""
	}
	t = unstale(t.strip())
	if f := fieldOfLoad(t); f != nil {
		return "field " + f.Name() + " at " + itoa(int(f.Pos()))
	}
	if f := fieldOfAddr(t); f != nil {
		return "field " + f.Name() + " at " + itoa(int(f.Pos()))
	}
	if t.op == "alloc" || t.op == "mkchan" {
		return root + " " + itoa(t.id)
	}
	return ""
}

func goDepth(st *State) string {
	if d := st.mon["#go"]; d != nil {
		return d.String()
	}
	return ""
}

// entryPoints: the functions through which the repository's code is entered from outside.
func (p *Program) entryPoints(rels ...string) []*ssa.Function {
	org := func(f *ssa.Function) *ssa.Function {
		if f.Origin() != nil {
			return f.Origin()
		}
		return f
	}
	called := map[*ssa.Function]bool{}
	in := map[string]bool{}
	for _, r := range rels {
		in[r] = true
	}
	for _, rel := range rels {
		for _, f := range p.pkgFuncs(rel) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if cc := callCommon(i); cc != nil && cc.StaticCallee() != nil && org(cc.StaticCallee()) != org(f) {
						called[org(cc.StaticCallee())] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, rel := range rels {
		for _, f := range p.pkgFuncs(rel) {
			if f.Parent() != nil || f.Synthetic != "" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			public := !strings.HasPrefix(rel, "internal") && f.Object() != nil && f.Object().Exported()
			if rv := f.Signature.Recv(); public && rv != nil {
				n, _ := derefNamed(rv.Type()).(*types.Named)
				public = n != nil && n.Obj().Exported()
			}
			if !called[f] || public {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortName(out[i]) < shortName(out[j]) })
	return out
}

var lockPkgs = []string{"internal/bus", "internal/stream", "internal/interceptors", "pkg/client", "pkg/server", "pkg/rand", "pkg/info", "pkg/metadata", "pkg/middleware"}

func isLockCall(ev *Event) string {
	switch ev.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "lock"
	case "(*sync.RWMutex).RLock":
		return "rlock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "unlock"
	case "(*sync.RWMutex).RUnlock":
		return "runlock"
	}
	return ""
}

func (d *lockData) use(f *types.Var, write, elem bool, ev *Event, st *State) {
	if f == nil {
		return
	}
	f = f.Origin()
	ls := lockVars(st)
	var names []string
	for v, m := range ls {
		names = append(names, fmt.Sprint(v.Name(), v.Pos(), m))
	}
	sort.Strings(names)
	key := fmt.Sprint(write, elem, names, ev.Instr != nil)
	if ev.Instr != nil {
		key = fmt.Sprint(key, ev.Instr.Pos(), ev.Fn)
	}
	if d.acc[f] == nil {
		d.acc[f] = map[string]*access{}
	}
	if d.acc[f][key] == nil {
		d.acc[f][key] = &access{f: f, write: write, elem: elem, locks: ls, ev: cp(ev), st: st.clone(), key: key}
	}
}

// reach lists the objects made on this path that t leads to.
func reach(st *State, t *Term, seen map[*Term]bool) {
	t.any(func(u *Term) bool {
		if u.op == "alloc" && !seen[u] {
			seen[u] = true
			for k, v := range st.heap {
				b := k
				for b.op == "faddr" || b.op == "iaddr" {
					b = b.args[0]
				}
				if b == u && v != nil {
					reach(st, v, seen)
				}
			}
		}
		return false
	})
}

func publish(x *Exec, st *State, ts ...*Term) { publishTo(x, st, "pub:", ts...) }

func publishTo(x *Exec, st *State, as string, ts ...*Term) {
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t != nil {
			reach(st, t, seen)
		}
	}
	for a := range seen {
		st.mon[as+itoa(a.id)] = x.TT.boolC(true)
	}
}

func baseObj(t *Term) *Term {
	for t != nil {
		t = unstale(t.strip())
		switch t.op {
		case "faddr", "iaddr":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

// heldIn: the address of the field a map or slice was read from, or is kept in.
func heldIn(st *State, t *Term) *Term {
	t = unstale(t.strip())
	if t == nil {
		return nil
	}
	if (t.op == "load" || t.op == "sload") && fieldOfAddr(t.args[0]) != nil {
		return t.args[0]
	}
	var at *Term
	for k, v := range st.heap {
		if k.op == "faddr" && v != nil && unstale(v.strip()) == t && !t.isConst() && (at == nil || k.id < at.id) {
			at = k
		}
	}
	return at
}

func p29(r *Run) {
	d := &lockData{acc: map[*types.Var]map[string]*access{}, edges: map[[2]*types.Var]*Event{}, edgeS: map[[2]*types.Var]*State{},
		waits: map[string]*lockWait{}, prov: map[string][]provided{}, recv: map[*types.Var]bool{}, locks: map[token.Pos]*types.Var{}, pubs: map[string]*lockWait{}}
	for _, f := range r.P.entryPoints(lockPkgs...) {
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			p29On(r, d, shortName(f), x, st, ev)
		}, func(x *Exec) {
			x.Impl = func(ev *Event) []types.Type {
				// the buses' own internal interfaces
				if n, ok := types.Unalias(ev.FnType).(*types.Named); ok && n.Obj().Pkg() != nil && !n.Obj().Exported() && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/bus") {
					return r.P.implTypes(ev.FnType, "internal/bus")
				}
				return r.P.repoImpl(ev)
			}
		})
		d.fns++
	}
	p29Guarded(r, d)
	p29Order(r, d)
	p29Waits(r, d)
	for rule, n := range map[string]int{"balance": 20, "twice": 10, "guarded": 20, "order": 1, "wait": 1, "publish": 5, "callback": 3} {
		r.Min(rule, n)
	}
	if os.Getenv("PSV_LOCKS") != "" {
		for f, as := range d.acc {
			for _, a := range as {
				var ls []string
				for v, m := range a.locks {
					ls = append(ls, fmt.Sprint(v.Name(), "/", m))
				}
				fmt.Println("ACC", f.Name(), r.P.Fset.Position(f.Pos()).Line, "w", a.write, "e", a.elem, ls, shortName(a.ev.Fn), r.P.InstrPos(a.ev.Instr))
			}
		}
		for e, ev := range d.edges {
			fmt.Println("EDGE", e[0].Name(), r.P.Fset.Position(e[0].Pos()), e[1].Name(), r.P.Fset.Position(e[1].Pos()), r.P.InstrPos(ev.Instr))
		}
	}
}

// provides: this path has provided what k names.
func (d *lockData) provides(k string, st *State) {
	if k == "" {
		return
	}
	took := map[*types.Var]bool{}
	var after []string
	for m := range st.mon {
		if pre := "dep:" + goDepth(st) + ":"; strings.HasPrefix(m, pre) {
			after = append(after, m[len(pre):])
		}
		if pre := "acq:" + goDepth(st) + ":"; strings.HasPrefix(m, pre) {
			var n int
			fmt.Sscan(m[len(pre):], &n)
			if v := d.locks[token.Pos(n)]; v != nil {
				took[v] = true
			}
		}
	}
	d.prov[k] = append(d.prov[k], provided{took, after})
}

func (d *lockData) waitUnder(on []string, ev *Event, st *State) {
	ls := lockVars(st)
	key := fmt.Sprint(on, len(ls), ev.Instr.Pos())
	if d.waits[key] == nil {
		d.waits[key] = &lockWait{on: on, locks: ls, ev: cp(ev), st: st.clone()}
	}
}

func p29Call(r *Run, d *lockData, root string, x *Exec, st *State, ev *Event) {
	switch {
	case ev.Name == wgName+"Wait":
		d.waitUnder([]string{waitKey(root, ev.Args[0])}, ev, st)
	case ev.Name == wgName+"Done":
		d.provides(waitKey(root, ev.Args[0]), st)
	case publishOf(ev) != nil:
		k := fmt.Sprint(ev.Instr.Pos(), len(st.locks))
		if d.pubs[k] == nil {
			d.pubs[k] = &lockWait{locks: lockVars(st), ev: cp(ev), st: st.clone()}
		}
	case isUserHandler(ev), isObserver(ev) != "", dynNamed(ev, "pkg/server.AffinityFunc", "pkg/server.StreamAffinityFunc", "psrpc.ServerRPCInterceptor", "psrpc.ClientRPCInterceptor", "psrpc.ClientMultiRPCInterceptor", "psrpc.StreamInterceptor", "psrpc.ClientRequestHook", "psrpc.ClientResponseHook"):
		n := 0
		for m := range st.locks {
			if m.op == "faddr" {
				n++
			}
		}
		r.At(n == 0, "callback", ev, st, "the user's code is called with a lock held: when it uses the object again, it waits for itself")
	}
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// syncs: the type looks after its own synchronisation.
func syncs(t types.Type, n int) bool {
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Pkg() != nil {
		if p := nt.Obj().Pkg().Name(); p == "sync" || p == "atomic" {
			return true
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && n > 0 {
		for i := 0; i < s.NumFields(); i++ {
			if syncs(s.Field(i).Type(), n-1) {
				return true
			}
		}
	}
	return false
}

// p29Guarded: what is written under a lock is used under it, everywhere.
func p29Guarded(r *Run, d *lockData) {
	for f, m := range d.acc {
		for _, elem := range []bool{false, true} {
			var as []*access
			for _, a := range m {
				if a.elem == elem {
					as = append(as, a)
				}
			}
			sort.Slice(as, func(i, j int) bool { return as[i].key < as[j].key })
			count := map[*types.Var]int{}
			writes := 0
			for _, a := range as {
				if a.write {
					writes++
				}
			}
			if writes == 0 {
				continue
			}
			anyLock, evidence := map[*types.Var]bool{}, false
			for _, a := range as {
				for l, mode := range a.locks {
					if a.write && mode == lockW || elem {
						anyLock[l], evidence = true, true
					}
					if !a.write || mode == lockW {
						count[l]++
					}
				}
			}
			if !evidence {
				// a struct with a lock of its own: a field several functions use and write needs it
				if l := siblingLock(f); l != nil && len(as) > 1 {
					anyLock[l] = true
				}
			}
			if len(anyLock) == 0 {
				continue
			}
			var best *types.Var
			for l := range anyLock {
				if best == nil || count[l] > count[best] || count[l] == count[best] && l.Pos() < best.Pos() {
					best = l
				}
			}
			for _, a := range as {
				mode, has := a.locks[best]
				what := "read"
				if a.write {
					what = "written"
				}
				r.At(has && (!a.write || mode == lockW), "guarded", a.ev, a.st, "%s is %s without (exclusively) holding %s, which guards it elsewhere", f.Name(), what, best.Name())
			}
		}
	}
}

// siblingLock: the lock field of the struct that declares f.
func siblingLock(f *types.Var) *types.Var {
	if f.Pkg() == nil {
		return nil
	}
	sc := f.Pkg().Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var l *types.Var
		mine := false
		for i := 0; i < st.NumFields(); i++ {
			switch fv := st.Field(i); {
			case fv.Origin() == f:
				mine = true
			case namedOf(fv.Type()) == "sync.Mutex" || namedOf(fv.Type()) == "sync.RWMutex":
				l = fv
			case fv.Embedded() && l == nil:
				if es, ok := derefType(fv.Type()).Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if n := namedOf(es.Field(j).Type()); n == "sync.Mutex" || n == "sync.RWMutex" {
							l = es.Field(j)
						}
					}
				}
			}
		}
		if mine {
			return l
		}
	}
	return nil
}

// p29Order: locks are nested in one order.
func p29Order(r *Run, d *lockData) {
	reach := func(from, to *types.Var) bool {
		seen, todo := map[*types.Var]bool{}, []*types.Var{from}
		for len(todo) > 0 {
			v := todo[0]
			todo = todo[1:]
			if v == to {
				return true
			}
			if seen[v] {
				continue
			}
			seen[v] = true
			for e := range d.edges {
				if e[0] == v {
					todo = append(todo, e[1])
				}
			}
		}
		return false
	}
	for e, ev := range d.edges {
		r.At(!reach(e[1], e[0]), "order", ev, d.edgeS[e], "%s is taken with %s held, and elsewhere %s is taken with %s held: two goroutines can wait for each other", e[1].Name(), e[0].Name(), e[0].Name(), e[1].Name())
	}
}

// p29Waits: nothing is waited for under a lock that all its providers need.
func p29Waits(r *Run, d *lockData) {
	var needs func(k string, l *types.Var, seen map[string]bool) bool
	needs = func(k string, l *types.Var, seen map[string]bool) bool {
		ps := d.prov[k]
		if k == "" || len(ps) == 0 || seen[k] {
			return false
		}
		seen[k] = true
		defer delete(seen, k)
		for _, p := range ps {
			ok := p.took[l]
			for _, a := range p.after {
				ok = ok || needs(a, l, seen)
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, w := range d.waits {
		bad := ""
		for l := range w.locks {
			all := len(w.on) > 0
			for _, k := range w.on {
				all = all && needs(k, l, map[string]bool{})
			}
			if all {
				bad = l.Name()
			}
		}
		r.At(bad == "", "wait", w.ev, w.st, "it waits, holding %s, for what is only provided after taking %s", bad, bad)
	}
	for _, w := range d.pubs {
		bad := ""
		for l := range w.locks {
			if d.recv[l] {
				bad = l.Name()
			}
		}
		r.At(bad == "", "publish", w.ev, w.st, "it publishes (and may wait for a receiver) holding %s, which the goroutines that take messages need", bad)
	}
}

func p29On(r *Run, d *lockData, root string, x *Exec, st *State, ev *Event) {
	own := func(a *Term) bool { // an object made on this path that nobody else knows yet
		b := baseObj(a)
		return b == nil || b.op == "alloc" && !st.has("pub:"+itoa(b.id)) || b.op == "structval" || b.op == "zero"
	}
	switch ev.Kind {
	case EvGo:
		publishTo(x, st, "gopub:", append([]*Term{ev.FnTerm}, ev.Args...)...)
		publish(x, st, append([]*Term{ev.FnTerm}, ev.Args...)...)
	case EvMapUpd, EvMapDel, EvLookup:
		if ev.Kind == EvMapUpd {
			publish(x, st, ev.Val, ev.Key)
		}
		if f := heldIn(st, ev.Addr); f != nil && !own(f) {
			d.use(fieldOfAddr(f), ev.Kind != EvLookup, true, ev, st)
		}
	case EvNext:
		if f := heldIn(st, ev.Addr); f != nil && !own(f) {
			d.use(fieldOfAddr(f), false, true, ev, st)
		}
	case EvLoad, EvStore:
		if ev.Kind == EvStore && !own(ev.Addr) {
			publish(x, st, ev.Val)
		}
		a := ev.Addr.strip()
		if a != nil && a.op == "faddr" && !own(a) {
			if b := baseObj(a); ev.Kind == EvLoad || b == nil || b.op != "alloc" || goDepth(st) != "" && st.has("gopub:"+itoa(b.id)) {
				d.use(fieldOfAddr(a), ev.Kind == EvStore, false, ev, st)
			}
		}
		if a != nil && a.op == "iaddr" {
			if f := heldIn(st, a.args[0]); f != nil && !own(f) {
				d.use(fieldOfAddr(f), ev.Kind == EvStore, true, ev, st)
			}
		}
	case EvCall:
		k := isLockCall(ev)
		if k == "" {
			p29Call(r, d, root, x, st, ev)
			for i, a := range ev.Args {
				if a == nil {
					continue
				}
				if f := heldIn(st, a); f != nil && !own(f) && isMapType(fieldOfAddr(f).Type()) {
					n := lastName(ev.Name)
					d.use(fieldOfAddr(f), i == 0 && (n == "Copy" || n == "Clear" || n == "DeleteFunc" || n == "Insert"), true, ev, st)
				}
				if f := fieldOfAddr(a); f != nil && !own(a) && a.strip().op == "faddr" && ev.Callee != nil && !syncs(f.Type(), 3) {
					d.use(f, true, true, ev, st)
				}
			}
			break
		}
		m := lockKey(st, ev.Args[0])
		held, has := st.locks[m]
		switch k {
		case "lock", "rlock":
			r.At(!has, "twice", ev, st, "the lock %v is taken by a goroutine that already holds it: it waits for itself", m)
			lv := lockVar(ev)
			if lv != nil {
				lv = lv.Origin()
				st.mon["acq:"+goDepth(st)+":"+itoa(int(lv.Pos()))] = x.TT.boolC(true)
				d.locks[lv.Pos()] = lv
				if st.has("rcvd") {
					d.recv[lv] = true
				}
			}
			for o := range st.locks {
				if o.op == "faddr" && o != m && lv != nil {
					ov, _ := o.obj.(*types.Var)
					e := [2]*types.Var{ov.Origin(), lv.Origin()}
					if d.edges[e] == nil {
						d.edges[e], d.edgeS[e] = cp(ev), st.clone()
					}
				}
			}
		case "unlock":
			r.At(has && held == lockW, "balance", ev, st, "the lock %v is released without being held", m)
		case "runlock":
			r.At(has && held == lockR, "balance", ev, st, "the read lock %v is released without being held", m)
		}
	case EvClose:
		d.provides(waitKey(root, ev.Addr), st)
	case EvSend:
		publish(x, st, ev.Val)
		d.provides(waitKey(root, ev.Addr), st)
	case EvSelect:
		if ev.Case >= 0 {
			c := ev.Sel.Cases[ev.Case]
			if c.Dir == types.SendOnly {
				d.provides(waitKey(root, c.Chan), st)
			} else {
				st.mon["rcvd"] = x.TT.boolC(true)
			}
		}
	case EvRecv:
		d.waitUnder([]string{waitKey(root, ev.Addr)}, ev, st)
		if k := waitKey(root, ev.Addr); strings.HasPrefix(k, "field") {
			st.mon["dep:"+goDepth(st)+":"+k] = x.TT.boolC(true)
		}
		st.mon["rcvd"] = x.TT.boolC(true)
	case EvBlock:
		if ev.Sel.Blocking {
			var ks []string
			for _, c := range ev.Sel.Cases {
				k := ""
				if c.Dir != types.SendOnly {
					k = waitKey(root, c.Chan)
				}
				ks = append(ks, k)
			}
			d.waitUnder(ks, ev, st)
		}
	case EvReturn:
		if (ev.Name == "root" || ev.Name == "go") && !ev.Truth {
			for m := range st.locks {
				r.At(false, "balance", ev, st, "it returns with the lock %v held", m)
			}
			r.At(true, "balance", ev, st, "")
		}
	}
	if len(st.locks) > 0 && os.Getenv("PSV_LOCKS") != "" {
		switch {
		case ev.Kind == EvSend, ev.Kind == EvRecv, ev.Kind == EvBlock, ev.Kind == EvCall && (ev.Callee == nil || strings.Contains(ev.Name, "Wait")):
			fmt.Println("UNDER", ev.Kind, ev.Name, r.P.InstrPos(ev.Instr), shortName(ev.Fn))
		}
	}
}
