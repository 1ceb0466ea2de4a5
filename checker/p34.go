package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P34", "position-invariant analysis over SSA of the code that writes an identifier (the next unwritten position is tracked through the loops as a linear relation with a loop variable; an identifier is returned only on paths that prove the position reached the end), value analysis of its prefix, length, alphabet and random source, lock analysis of the shared source, and value-flow of freshly generated identifiers into every message", p34)
}

const randPkg = "pkg/rand."

func p34(r *Run) {
	prefixes := map[string]string{}
	for _, n := range []string{"NewClientID", "NewServerID", "NewRequestID", "NewStreamID"} {
		fn := r.P.rootFn(randPkg + n)
		if fn == nil {
			r.Fail("shape", n, "-", "there is no "+n, nil)
			continue
		}
		p, known := p34Shape(r, fn)
		if !known {
			r.notes = append(r.notes, n+" does not build its identifier in a byte slice of its own: its prefix and its completeness are not decided")
			r.OK("shape", n+" (not decided)")
			continue
		}
		r.Check(p != "", "prefix", n, r.P.Pos(fn.Pos()), "an identifier has no prefix", nil)
		for m, q := range prefixes {
			r.Check(p != q, "prefix", n+"/"+m, r.P.Pos(fn.Pos()), "two kinds of identifier have the prefix "+p, nil)
		}
		prefixes[n] = p
	}
	p34Source(r)
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream"} {
		p34Fresh(r, root)
	}
	for _, f := range r.P.pkgFuncs("internal/stream") {
		if f.Parent() == nil && len(f.Blocks) > 0 && (f.Name() == "Send" || f.Name() == "Close") && f.Signature.Recv() != nil {
			p34StreamFresh(r, f)
		}
	}
	for rule, n := range map[string]int{"shape": 4, "source": 1, "fresh": 4} {
		r.Min(rule, n)
	}
}

// ownBytes: the byte slice made by this call that t is a part of, and from where.
func ownBytes(t *Term) (*Term, int64) {
	off := int64(0)
	for t = unstale(t.strip()); t != nil; t = unstale(t.strip()) {
		switch t.op {
		case "mkslice":
			return t, off
		case "alloc":
			if arrayOf(t) >= 0 {
				return t, off
			}
			return nil, 0
		case "slice":
			if t.args[1].op != "none" {
				n, ok := constInt(t.args[1])
				if !ok {
					return nil, 0
				}
				off += n
			}
			t = t.args[0]
			continue
		case "conv", "convert", "tostring":
			t = t.args[0]
			continue
		}
		return nil, 0
	}
	return nil, 0
}

// arrayOf: the size of the array t is, -1 if it is none.
func arrayOf(t *Term) int64 {
	if t.typ == nil {
		return -1
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		return arrayLen(p.Elem())
	}
	return -1
}

// madeSize: the size of a slice made here.
func madeSize(mk *Term) (int64, bool) {
	if mk.op == "alloc" {
		n := arrayOf(mk)
		return n, n >= 0
	}
	return constInt(mk.args[0])
}

// lenNorm replaces the lengths of parts of the slice by their values.
func lenNorm(l lin) lin {
	out := lin{c: l.c, m: map[*Term]int64{}}
	for t, k := range l.m {
		if t.op == "len" {
			if mk, off := ownBytes(t.args[0]); mk != nil && untilEnd(t.args[0]) {
				if n, ok := madeSize(mk); ok {
					out.c += k * (n - off)
					continue
				}
			}
		}
		out.m[t] += k
	}
	return out
}

func untilEnd(t *Term) bool {
	for t = unstale(t.strip()); t != nil && t.op == "slice"; t = unstale(t.args[0].strip()) {
		if t.args[2].op != "none" {
			return false
		}
	}
	return true
}

// A candidate relation "the next position is phi + c" (or just c).
type posT struct {
	phi *ssa.Phi
	c   int64
}

func (x *Exec) setPos(st *State, ps []posT) {
	seen := map[posT]bool{}
	var ts []*Term
	sort.Slice(ps, func(i, j int) bool {
		a, b := "", ""
		if ps[i].phi != nil {
			a = ps[i].phi.Name() + ps[i].phi.Comment
		}
		if ps[j].phi != nil {
			b = ps[j].phi.Name() + ps[j].phi.Comment
		}
		if a != b {
			return a < b
		}
		return ps[i].c < ps[j].c
	})
	for _, p := range ps {
		if seen[p] {
			continue
		}
		seen[p] = true
		var o any
		if p.phi != nil {
			o = p.phi
		}
		ts = append(ts, x.TT.mk("pos", strconv.FormatInt(p.c, 10), o, nil, nil))
	}
	st.mon["pos"] = x.TT.mk("posset", "", nil, nil, nil, ts...)
}

func getPos(st *State) []posT {
	t := unstale(st.mon["pos"])
	if t == nil {
		return nil
	}
	var ps []posT
	for _, a := range t.args {
		p, _ := a.obj.(*ssa.Phi)
		c, _ := strconv.ParseInt(a.aux, 10, 64)
		ps = append(ps, posT{p, c})
	}
	return ps
}

// against: t - (position p), if that is a constant.
func (p posT) against(l lin) (int64, bool) {
	if p.phi == nil {
		return l.c - p.c, len(l.m) == 0
	}
	if len(l.m) != 1 {
		return 0, false
	}
	for t, k := range l.m {
		if t.op == "phi" && t.obj == any(p.phi) && k == 1 {
			return l.c - p.c, true
		}
	}
	return 0, false
}

// p34Shape follows the making of one identifier; the prefix is known when it is written into a byte slice made here.
func p34Shape(r *Run, fn fnT) (string, bool) {
	prefix, known := "", false
	name := fn.Name()
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			if ev.Name == "builtin copy" && len(ev.Args) == 2 {
				mk, off := ownBytes(ev.Args[0])
				if mk == nil {
					return
				}
				s, ok := constStr(ev.Args[1])
				if !ok || off != 0 {
					return
				}
				st.mon["prefix"] = x.TT.str(s)
				if n, ok := madeSize(mk); ok {
					st.mon["made"] = x.TT.intC(n)
				}
				x.setPos(st, []posT{{nil, int64(len(s))}})
				known, prefix = true, s
			}
		case EvStore:
			ad := unstale(ev.Addr.strip())
			if ad == nil || ad.op != "iaddr" {
				return
			}
			mk, off := ownBytes(ad.args[0])
			if mk == nil || st.mon["prefix"] == nil || st.has("lost") {
				return
			}
			l := linOf(ad.args[1])
			l.c += off
			var keep []posT
			for _, p := range getPos(st) {
				if d, ok := p.against(l); ok && d == 0 {
					keep = append(keep, posT{p.phi, p.c + 1})
				}
			}
			if r.At(len(keep) > 0, "complete", ev, st, "%s: a character is written at %v, which is not the next one: another is left out or overwritten", name, ad.args[1]) {
				x.setPos(st, keep)
			} else {
				st.mon["dead"] = x.TT.boolC(true)
			}
			v := unstale(ev.Val.strip())
			for v != nil && (v.op == "conv" || v.op == "convert") {
				v = unstale(v.args[0].strip())
			}
			if v != nil && v.op == "index" && len(v.args) == 2 {
				if s, ok := constStr(v.args[0]); ok {
					r.At(alnum(s), "alphabet", ev, st, "%s draws characters from %q", name, s)
					_, isC := constInt(v.args[1])
					r.At(!isC, "alphabet", ev, st, "%s writes always the same character", name)
				}
			} else if v != nil && v.isConst() {
				r.At(false, "alphabet", ev, st, "%s writes the character %v", name, v)
			}
		case EvBack:
			cs := getPos(st)
			if cs == nil {
				return
			}
			p34Bits(r, st, ev, name)
			for q := range ev.Phis {
				if isSliceType(q.Type()) {
					st.mon["lost"] = x.TT.boolC(true) // the slice itself moves on
					return
				}
			}
			old := map[*ssa.Phi]int64{}
			for _, p := range cs {
				if p.phi != nil {
					old[p.phi] = p.c
				}
			}
			var next []posT
			for q, v := range ev.Phis {
				if v == nil || !isIntT(q.Type()) {
					continue
				}
				l := linOf(unstale(v))
				for _, p := range cs {
					d, ok := p.against(l)
					if !ok {
						continue
					}
					// position = p = v - d, so position = q - d from now on
					if st.has("head:"+q.Name()) && !st.has("cand:"+q.Name()+":"+itoa(int(-d))) {
						continue
					}
					next = append(next, posT{q, -d})
				}
			}
			for q := range ev.Phis {
				st.mon["head:"+q.Name()] = x.TT.boolC(true)
				for k := range st.mon {
					if strings.HasPrefix(k, "cand:"+q.Name()+":") {
						delete(st.mon, k)
					}
				}
			}
			for _, p := range next {
				st.mon["cand:"+p.phi.Name()+":"+itoa(int(p.c))] = x.TT.boolC(true)
			}
			if len(next) == 0 && len(cs) > 0 && cs[0].phi != nil && ev.Phis[cs[0].phi] == nil {
				return // a loop that leaves the position alone
			}
			if len(next) == 0 && len(cs) > 0 && cs[0].phi == nil {
				next = cs
			}
			x.setPos(st, next)
		case EvAssume:
			c, v := ev.Cond, ev.Truth
			for c.op == "not" {
				c, v = c.args[0], !v
			}
			if c.op == "lt" {
				if n, ok := constInt(c.args[1]); ok {
					for t := range linOf(c.args[0]).m {
						if t.op == "phi" {
							st.mon["bound:"+t.aux] = x.TT.intC(n)
						}
					}
				}
			}
			if c.op != "eq" && c.op != "lt" || st.mon["prefix"] == nil {
				return
			}
			a, b := lenNorm(linOf(c.args[0])), lenNorm(linOf(c.args[1]))
			d := a.minus(b)
			if len(d.m) == 0 && (c.op == "eq" && v != (d.c == 0) || c.op == "lt" && v != (d.c < 0)) {
				st.mon["dead"] = x.TT.boolC(true) // cannot be
				return
			}
			if c.op == "eq" && !v || c.op == "lt" && v {
				return
			}
			n, ok := madeLen(st)
			if !ok {
				return
			}
			for _, p := range getPos(st) {
				// position - n == a - b ?
				e, ok := p.against(lin{c: d.c + n, m: d.m})
				if ok && e == 0 {
					st.mon["full"] = x.TT.boolC(true)
				}
				neg := lin{c: -d.c + n, m: map[*Term]int64{}}
				for t, k := range d.m {
					neg.m[t] = -k
				}
				if e, ok = p.against(neg); c.op == "eq" && ok && e == 0 {
					st.mon["full"] = x.TT.boolC(true)
				}
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 || st.has("dead") {
				return
			}
			p := st.mon["prefix"]
			mk, off := ownBytes(ev.Results[0])
			if p == nil || mk == nil {
				return
			}
			s, _ := constStr(p)
			n, ok := madeSize(mk)
			if !ok {
				return
			}
			r.At(off == 0 && n == int64(len(s))+12, "shape", ev, st, "%s: an identifier has %d characters after its prefix, not 12", name, n-off-int64(len(s)))
			r.At(st.has("full") || st.has("lost"), "complete", ev, st, "%s: an identifier is returned before all of it was written", name)
		}
	}, func(x *Exec) {
		x.Precise = true
		x.Opaque = func(f fnT) bool { return !r.P.InRepo(f) }
	})
	return prefix, known
}

func madeLen(st *State) (int64, bool) {
	v := unstale(st.mon["made"])
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

func alnum(s string) bool {
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return len(s) > 0
}

// p34Bits: a number drawn is not used beyond the bits it has.
func p34Bits(r *Run, st *State, ev *Event, name string) {
	for _, v := range ev.Phis {
		v = unstale(v)
		if v == nil || v.op != "binop" || v.aux != ">>" || !drawn(v.args[0]) {
			continue
		}
		k, ok := constInt(v.args[1])
		if !ok {
			continue
		}
		for q := range ev.Phis {
			if b := unstale(st.mon["bound:"+q.Comment]); b != nil {
				if n, ok := constInt(b); ok {
					r.At(n*k <= 63, "alphabet", ev, st, "%s: %d characters are taken from one number of 63 bits, %d bits each", name, n, k)
				}
			}
		}
	}
}

func drawn(t *Term) bool {
	return t.any(func(u *Term) bool { return strings.Contains(u.aux, "rand.Rand).") || u.op == "phi" })
}

// p34Source: the shared source of random numbers is safe to use from many goroutines.
func p34Source(r *Run) {
	p := r.P
	locked := map[*ssa.Global]string{} // "" if safe
	n := 0
	for _, f := range p.pkgFuncs("pkg/rand") {
		p34Init(r, f, locked)
	}
	if sp := p.Pkg("pkg/rand"); sp != nil {
		if f := sp.Func("init"); f != nil {
			p34Init(r, f, locked)
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "pkg/rand") || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callCommon(in); cc != nil && cc.StaticCallee() != nil && strings.Contains(shortName(cc.StaticCallee()), "rand.Rand).") {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		n++
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvCall || !strings.Contains(ev.Name, "rand.Rand).") || len(ev.Args) == 0 {
				return
			}
			g := globalOf(ev.Args[0])
			if g == nil || len(st.locks) > 0 {
				r.At(true, "source", ev, st, "")
				return
			}
			m := lastName(ev.Name)
			r.At(m != "Read" && m != "Seed", "source", ev, st, "the shared source's %s keeps state that is not locked", m)
			why, ok := locked[g]
			r.At(!ok || why == "", "source", ev, st, "numbers are drawn from %s concurrently: %s", g.Name(), why)
		}, nil)
	}
	if n == 0 {
		r.OK("source", "pkg/rand uses no shared source of its own")
	}
	p34Seed(r)
}

func globalOf(t *Term) *ssa.Global {
	t = unstale(t.strip())
	if t == nil || t.op != "load" && t.op != "sload" || len(t.args) == 0 {
		return nil
	}
	g, _ := t.args[0].obj.(*ssa.Global)
	return g
}

// p34Init: what the package's sources are made from.
func p34Init(r *Run, f fnT, locked map[*ssa.Global]string) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok || !strings.HasSuffix(types.TypeString(g.Type(), nil), "rand.Rand") {
				continue
			}
			c, ok := s.Val.(*ssa.Call)
			if !ok || len(c.Call.Args) == 0 {
				continue
			}
			locked[g] = lockedSource(r, c.Call.Args[0])
		}
	}
}

// lockedSource says why a source is not safe to share, "" if it is.
func lockedSource(r *Run, v ssa.Value) string {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return "it has no lock"
	}
	t := mi.X.Type()
	nt, ok := derefNamed(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
		return "it has no lock"
	}
	ms := types.NewMethodSet(t)
	why := ""
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if len(m.Index()) > 1 {
			return m.Obj().Name() + " is that of what it wraps, without a lock"
		}
		f := r.P.methodOf(t, m.Obj().Name())
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		if _, byVal := f.Params[0].Type().(*types.Named); byVal {
			why = m.Obj().Name() + " locks a copy of its mutex"
		}
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvCall && ev.Method != nil && strings.Contains(ev.Name, "rand.Source") {
				excl := false
				for _, l := range st.locks {
					if l == lockW {
						excl = true
					}
				}
				if !excl {
					why = m.Obj().Name() + " uses it without the lock"
				}
			}
		}, nil)
	}
	return why
}

// p34Seed: a source is not started from a constant: every process would generate the same identifiers.
func p34Seed(r *Run) {
	for _, f := range append(r.P.pkgFuncs("pkg/rand"), initOf(r.P, "pkg/rand")...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc := callCommon(in)
				if cc == nil || cc.StaticCallee() == nil || cc.StaticCallee().Name() != "NewSource" || len(cc.Args) != 1 {
					continue
				}
				_, isC := cc.Args[0].(*ssa.Const)
				r.Check(!isC, "source", "seed", r.P.InstrPos(in), "the source starts from a constant: all processes generate the same identifiers", nil)
			}
		}
	}
}

func initOf(p *Program, rel string) []fnT {
	if sp := p.Pkg(rel); sp != nil {
		if f := sp.Func("init"); f != nil {
			return []fnT{f}
		}
	}
	return nil
}

// freshID: t was generated by the function of the package, in this call.
func freshID(t *Term, fn string) bool {
	t = unstale(t.strip())
	return t != nil && (t.op == "call" || t.op == "pcall") && t.aux == randPkg+fn
}

// p34Fresh: requests carry an id generated for them.
func p34Fresh(r *Run, root string) {
	single := strings.HasSuffix(root, "RequestSingle")
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvEnter:
			if single && ev.Callee != nil && ev.Callee.Parent() != nil && isClientHandler(ev.Callee.Signature) {
				st.mon["attempt"] = x.TT.boolC(true)
				delete(st.mon, "gen")
			}
		case EvRet:
			if ev.Name == randPkg+"NewRequestID" && len(ev.Results) == 1 {
				st.mon["gen"] = ev.Results[0]
			}
		case EvCall:
			p := publishOf(ev)
			if p == nil || p.kind != "Request" && p.kind != "Stream" {
				return
			}
			id := unstale(x.peek(st, p.msg, "RequestId"))
			r.At(freshID(id, "NewRequestID"), "fresh", ev, st, "a request carries the id %v", id)
			if single && st.has("attempt") {
				r.At(st.mon["gen"] != nil && unstale(st.mon["gen"]) == id, "fresh", ev, st, "an attempt repeats the id of another request: %v", id)
			}
			if p.kind == "Stream" {
				sid := unstale(x.peek(st, p.msg, "StreamId"))
				r.At(freshID(sid, "NewStreamID"), "fresh", ev, st, "a stream is opened with the id %v", sid)
			}
		}
	}, func(x *Exec) {
		x.FollowGo = false
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || shortName(f) == "pkg/client.selectServer" || isMethodNamed(f, "pkg/client", "runClientStream") || strings.HasSuffix(stripInst(shortName(f)), ").Close")
		}
	})
}

func isClientHandler(s *types.Signature) bool {
	ps := s.Params()
	return s.Variadic() && ps.Len() == 3 && isCtx(ps.At(0).Type()) && types.IsInterface(ps.At(1).Type()) && s.Results().Len() == 2
}

func isCtx(t types.Type) bool { return namedOf(t) == "context.Context" }

// p34StreamFresh: messages of a stream carry an id generated for them.
func p34StreamFresh(r *Run, f fnT) {
	r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvStore {
			return
		}
		fl := fieldOfAddr(unstale(ev.Addr.strip()))
		if fl == nil || fl.Name() != "RequestId" || namedOf(derefType(unstale(ev.Addr.strip()).args[0].typ)) != "internal.Stream" {
			return
		}
		r.At(freshID(ev.Val, "NewRequestID"), "fresh", ev, st, "a stream message carries the id %v", ev.Val)
	}, nil)
}
