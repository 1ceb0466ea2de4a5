package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P28", "provenance and effect analysis over SSA of every function of the metadata package, and of where requests are stamped and handlers called: no write, append or copy goes into a map or slice that came out of a context or from the caller, no returned map is one a context holds, added pairs are applied after and over those already there in the order they were added, reads tolerate contexts without metadata, and requests and headers carry exactly the caller's metadata, id and send time", p28)
}

const mdPkg = "pkg/metadata."

// mdOrigin: where a map or slice comes from: "stored" in a context, the "param" of the function, or "" for one the function made.
func mdOrigin(t *Term) string {
	for n := 0; t != nil && n < 40; n++ {
		t = t.strip()
		if t == nil {
			return ""
		}
		switch t.op {
		case "iface", "slice", "conv", "assert", "field", "peek", "load", "sload", "faddr", "iaddr", "stale", "loopcell":
			if len(t.args) == 0 {
				return ""
			}
			t = t.args[0]
			continue
		case "extract":
			t = t.args[0]
			continue
		case "append":
			t = t.args[0]
			continue
		case "nextv", "nextk":
			t = t.args[0]
			continue
		case "range":
			t = t.args[0]
			continue
		case "param":
			return "param"
		case "call", "pcall":
			if strings.HasPrefix(t.aux, "(context.Context).Value") {
				return "stored"
			}
			if strings.HasSuffix(t.aux, "slices.Clip") && len(t.args) > 0 {
				return ""
			}
			return ""
		default:
			return ""
		}
	}
	return ""
}

// isStored: t was found in a context.
func isStored(t *Term) bool {
	return t != nil && t.any(func(u *Term) bool {
		return (u.op == "call" || u.op == "pcall") && (strings.HasPrefix(u.aux, "(context.Context).Value") || u.aux == mdPkg+"OutgoingContextMetadata" || u.aux == mdPkg+"IncomingHeader")
	})
}

func isMapT(t *Term) bool {
	if t == nil || t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Map)
	return ok
}

func p28(r *Run) {
	fns := r.P.pkgFuncs("pkg/metadata")
	type pair struct{ key, val string }
	put, got := map[pair]*Event{}, map[pair]*Event{}
	for _, f := range fns {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil {
			continue
		}
		name := mdPkg + f.Name()
		adds := false
		if f.Signature.Params().Len() > 1 && f.Signature.Results().Len() == 1 && namedOf(f.Signature.Results().At(0).Type()) == "context.Context" && !strings.HasPrefix(f.Name(), "NewContext") {
			adds = true
		}
		r.execFn(name, f, func(x *Exec, st *State, ev *Event) {
			p28Own(r, x, st, ev)
			if f.Name() == "OutgoingContextMetadata" {
				p28Read(r, x, st, ev)
			}
			p28Write(r, x, st, ev)
			switch ev.Kind {
			case EvType:
				in, ok := ev.Instr.(*ssa.TypeAssert)
				if ok && callOf(ev.Val, "(context.Context).Value") != nil {
					r.At(in.CommaOk, "absent", ev, st, "a context without %v makes it panic", in.AssertedType)
					c := callOf(ev.Val, "(context.Context).Value")
					if k := c.args[1].strip(); k.op == "zero" || k.op == "iface" || k.op == "structval" {
						got[pair{typeOfKey(k), in.AssertedType.String()}] = cp(ev)
					}
				}
			case EvDeref:
				if a := unstale(ev.Addr.strip()); a != nil && a.op == "assert" && callOf(a.args[0], "(context.Context).Value") != nil {
					is := -1
					for c, v := range st.facts {
						if v && c.op == "istype" && c.args[0] == a.args[0] {
							is = 1
						}
					}
					r.At(is == 1 || x.isNilT(st, a) == 0, "absent", ev, st, "what is not in the context is read")
				}
			case EvCall:
				if ev.Name == "context.WithValue" {
					k, v := ev.Args[1].strip(), ev.Args[2]
					put[pair{typeOfKey(k), putType(v)}] = cp(ev)
					if adds {
						p28Added(r, x, st, ev, v)
					}
				}
			case EvReturn:
				if ev.Name != "root" || ev.Truth {
					return
				}
				for _, res := range ev.Results {
					p28Out(r, x, st, ev, res)
				}
				if adds && len(ev.Results) == 1 && isParam(ev.Results[0]) {
					r.At(st.has("nothing"), "added", ev, st, "metadata given to be added is dropped")
				}
			case EvAssume:
				if ev.Cond.op == "lt" {
					// len(param) is 0
					a, b := linOf(ev.Cond.args[0]), linOf(ev.Cond.args[1])
					for t := range b.m {
						if t.op == "len" && isParam(t.args[0]) && !ev.Truth && len(a.m) == 0 && b.c == 0 && a.c <= 0 {
							st.mon["nothing"] = x.TT.boolC(true)
						}
					}
					for t := range a.m {
						if t.op == "len" && isParam(t.args[0]) && ev.Truth && len(b.m) == 0 && a.c == 0 && b.c <= 1 {
							st.mon["nothing"] = x.TT.boolC(true)
						}
					}
				}
				if ev.Cond.op == "eq" && ev.Truth {
					for i := range ev.Cond.args {
						if l := ev.Cond.args[i].strip(); l != nil && l.op == "len" && isParam(l.args[0]) && isZeroInt(ev.Cond.args[1-i]) {
							st.mon["nothing"] = x.TT.boolC(true)
						}
						if isParam(ev.Cond.args[i]) && ev.Cond.args[1-i].isNil() {
							st.mon["nothing"] = x.TT.boolC(true)
						}
					}
				}
			}
		}, func(x *Exec) {
			x.NoChain, x.Impl, x.Precise = true, nil, true
			x.Opaque = func(g fnT) bool {
				return g.Pkg == nil || g.Pkg.Pkg.Name() != "metadata" || g.Object() != nil && g.Object().Exported() && g.Signature.Recv() == nil
			}
		})
	}
	for p, ev := range got {
		r.At(put[p] != nil, "found", ev, nil, "a %s is looked for under %s, which no function of the package puts there", short(p.val), short(p.key))
	}
	for p, ev := range put {
		r.At(got[p] != nil, "found", ev, nil, "a %s is put under %s, where no function of the package looks for it", short(p.val), short(p.key))
		for q := range put {
			r.At(p.key != q.key || p.val == q.val, "found", ev, nil, "%s is used for two kinds of values", short(p.key))
		}
	}
	p28Stamp(r)
	for rule, n := range map[string]int{"own": 2, "out": 2, "added": 2, "absent": 2, "found": 2, "applied": 1, "stamped": 3, "header": 2, "handler-ctx": 2} {
		r.Min(rule, n)
	}
}

func cp(ev *Event) *Event { e := *ev; return &e }

func short(s string) string { return strings.ReplaceAll(s, "github.com/livekit/psrpc/", "") }

func typeOfKey(k *Term) string {
	if k.op == "iface" {
		if t, ok := k.obj.(types.Type); ok {
			return t.String()
		}
		k = k.args[0].strip()
	}
	if k.typ != nil {
		return k.typ.String()
	}
	return k.String()
}

func putType(v *Term) string {
	for v != nil && v.op == "conv" {
		v = v.args[0]
	}
	if v != nil && v.op == "iface" {
		if t, ok := v.obj.(types.Type); ok {
			return t.String()
		}
	}
	if v != nil && v.typ != nil {
		return v.typ.String()
	}
	return "?"
}

// p28Own: only what the function made itself is written to.
func p28Own(r *Run, x *Exec, st *State, ev *Event) {
	own := func(t *Term, what string) {
		o := mdOrigin(t)
		if t.strip() != nil && t.strip().op == "iaddr" || isMapT(t) || t.typ != nil && isSliceType(t.typ) {
			r.At(o == "", "own", ev, st, "%s %s: other contexts or the caller share it", what, map[string]string{"stored": "what a context holds", "param": "what the caller gave", "": ""}[o])
		}
	}
	switch ev.Kind {
	case EvMapUpd, EvMapDel:
		own(ev.Addr, "it writes to")
	case EvStore:
		if a := ev.Addr.strip(); a != nil && (a.op == "iaddr" || a.op == "faddr") {
			o := mdOrigin(a)
			r.At(o == "", "own", ev, st, "it writes to %s", map[string]string{"stored": "what a context holds: other contexts share it", "param": "what the caller gave", "": ""}[o])
		}
	case EvCall:
		switch {
		case strings.HasSuffix(ev.Name, "maps.Copy") && len(ev.Args) == 2, ev.Name == "builtin copy", ev.Name == "builtin clear", strings.HasSuffix(ev.Name, "maps.DeleteFunc"), strings.HasSuffix(ev.Name, "maps.Insert"), strings.HasSuffix(ev.Name, "maps.Clear"):
			own(ev.Args[0], "it writes to")
		}
	case EvAppend:
		if len(ev.Args) > 0 {
			b := ev.Args[0].strip()
			if b != nil && !(b.op == "slice" && len(b.args) > 3 && !b.args[3].isNil() && b.args[3].strip() == b.args[2].strip()) {
				o := mdOrigin(b)
				r.At(o == "", "own", ev, st, "it appends to the slice %s: two contexts derived from one parent overwrite each other's element", map[string]string{"stored": "a context holds", "param": "the caller gave", "": ""}[o])
			}
		}
	}
}

// p28Out: no map a context holds leaves the package.
func p28Out(r *Run, x *Exec, st *State, ev *Event, res *Term) {
	t := res.strip()
	if t == nil || t.isNil() || t.op == "zero" {
		return
	}
	if isMapT(res) || isMapT(t) {
		r.At(mdOrigin(t) == "", "out", ev, st, "it returns the very map the context holds")
		return
	}
	pt, ok := types.Unalias(typeOrInvalid(t)).Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if mdOrigin(t) == "stored" {
		r.At(false, "out", ev, st, "it returns the very %s the context holds", pt.Elem())
		return
	}
	if t.op == "alloc" {
		p28Fields(r, x, st, ev, t)
		if v := st.heap[t]; v != nil && v.op == "structval" {
			for _, a := range v.args {
				if isMapT(a) {
					r.At(mdOrigin(a) == "", "out", ev, st, "what it returns has the very map the context holds")
				}
			}
		} else if v != nil && mdOrigin(v) == "stored" {
			over := false
			for k, w := range st.heap {
				if k.op == "faddr" && k.args[0].strip() == t && isMapT(w) {
					over = true
				}
			}
			r.At(over, "out", ev, st, "it returns a shallow copy of what the context holds, with its very map")
		}
		for k, v := range st.heap {
			if k.op == "faddr" && k.args[0].strip() == t && isMapT(v) {
				r.At(mdOrigin(v) == "", "out", ev, st, "what it returns has the very map the context holds")
			}
		}
	}
}

// p28Fields: a copy of what the context holds has every field of it.
func p28Fields(r *Run, x *Exec, st *State, ev *Event, t *Term) {
	s, ok := derefNamed(t.typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := x.peek(st, t, f.Name())
		r.At(v.any(func(u *Term) bool { return fieldOfLoad(u) == f && isStored(u) }) || isMapT(v), "out", ev, st, "what it returns has %s %v, not what the context holds", f.Name(), v)
	}
}

func typeOrInvalid(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// wrote notes in the state that dst got what was given, or what was there before (and of that, which part).
func wrote(x *Exec, st *State, dst *Term, kind, part string) {
	st.mon["wr:"+itoa(dst.id)+":"+kind+":"+part] = x.TT.boolC(true)
}

// written lists what dst got.
func written(st *State, dst *Term) map[string]bool {
	out := map[string]bool{}
	p := "wr:" + itoa(dst.id) + ":"
	for k := range st.mon {
		if strings.HasPrefix(k, p) {
			out[strings.TrimPrefix(k, p)] = true
		}
	}
	return out
}

func wroteOld(w map[string]bool) bool {
	for k := range w {
		if strings.HasPrefix(k, "old:") {
			return true
		}
	}
	return false
}

// hasGiven: t holds something the caller gave (not just its size).
func hasGiven(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case "len", "cap", "mkslice", "mkmap":
		return false
	case "param":
		return !isCtxType(t)
	}
	for _, a := range t.args {
		if hasGiven(a) {
			return true
		}
	}
	return false
}

// partsOf: which fields of what was in the context t comes from; "*" for all.
func partsOf(t *Term) []string {
	seen := map[string]bool{}
	t.any(func(u *Term) bool {
		if (u.op == "call" || u.op == "pcall") && u.aux == mdPkg+"OutgoingContextMetadata" {
			seen["*"] = true
		}
		if f := fieldOfLoad(u); f != nil && isStored(u) {
			seen[f.Name()] = true
		}
		return false
	})
	if len(seen) == 0 && isStored(t) {
		seen["*"] = true
	}
	var out []string
	for k := range seen {
		out = append(out, k)
	}
	return out
}

// p28Write notes what is written where, on the way to a new context's metadata.
func p28Write(r *Run, x *Exec, st *State, ev *Event) {
	note := func(dst, src *Term, idx *Term) {
		dst = unstale(dst.strip())
		if dst == nil || src == nil {
			return
		}
		old, given := isStored(src), !isStored(src) && hasGiven(src)
		got := map[string]bool{}
		if !old && !given {
			for k := range written(st, unstale(src.strip())) { // made here, of what was given
				got[k] = true
			}
		}
		if given {
			got["given:"] = true
		}
		if old {
			for _, p := range partsOf(src) {
				got["old:"+p] = true
			}
		}
		if old && idx == nil {
			r.At(!written(st, dst)["given:"] && !hasGiven(dst), "added", ev, st, "what was in the context before is written over the metadata given")
		}
		for k := range got {
			i := strings.IndexByte(k, ':')
			wrote(x, st, dst, k[:i], k[i+1:])
		}
	}
	switch ev.Kind {
	case EvMapUpd:
		note(ev.Addr, ev.Val, nil)
	case EvStore:
		if a := ev.Addr.strip(); a != nil && a.op == "iaddr" {
			note(a.args[0], ev.Val, a.args[1])
			if v := ev.Val.strip(); isSliceType(typeOrString(ev.Val)) {
				r.At(mdOrigin(v) != "param", "added", ev, st, "the context keeps the caller's own %v: the caller's later changes reach it", v)
				// what is added comes last
				if n := linOf(a.args[1]); n.c == 0 && len(n.m) == 0 && wroteOld(written(st, unstale(a.args[0].strip()))) {
					r.At(false, "added", ev, st, "the metadata given is put before what was already there")
				}
			}
		}
	case EvCall:
		switch {
		case (strings.HasSuffix(ev.Name, "maps.Copy") || strings.HasSuffix(ev.Name, "maps.Insert")) && len(ev.Args) == 2:
			note(ev.Args[0], ev.Args[1], nil)
		case ev.Name == "builtin copy":
			dst := ev.Args[0].strip()
			if dst != nil && dst.op == "slice" && len(dst.args) > 1 {
				if isStored(ev.Args[1]) && !dst.args[1].isNil() && !isZeroInt(dst.args[1]) {
					r.At(false, "added", ev, st, "what was there before is put after the metadata given")
				}
				dst = dst.args[0]
			}
			note(dst, ev.Args[1], ev.Args[0])
		}
	case EvAppend:
		if len(ev.Args) > 1 && !isStored(ev.Args[0]) {
			r.At(!isStored(ev.Args[1]) || ev.Args[0].isNil() || !ev.Args[0].any(func(u *Term) bool { return isParam(u) && !isCtxType(u) }), "added", ev, st, "what was there before is put after the metadata given")
		}
	case EvAssume:
		c := ev.Cond
		switch {
		case c.op == "nextok":
			over := c.args[0].strip()
			if over != nil && over.op == "range" {
				over = over.args[0].strip()
			}
			k := "ranged:" + itoa(over.id)
			if !ev.Truth && !st.has(k) { // empty
				if isStored(over) {
					for _, p := range partsOf(over) {
						st.mon["none:"+p] = x.TT.boolC(true)
					}
				} else if hasGiven(over) {
					st.mon["none:given"] = x.TT.boolC(true)
				}
			}
			st.mon[k] = x.TT.boolC(true)
		case c.op == "istype" && !ev.Truth && isStored(c.args[0]):
			st.mon["absent"] = x.TT.boolC(true)
		case c.op == "eq" && ev.Truth && (isStored(c.args[0]) && c.args[1].isNil() || isStored(c.args[1]) && c.args[0].isNil()):
			st.mon["absent"] = x.TT.boolC(true)
		case c.op == "eq" && ev.Truth && (isStored(c.args[0]) && isZeroInt(c.args[1]) || isStored(c.args[1]) && isZeroInt(c.args[0])):
			st.mon["absent"] = x.TT.boolC(true)
		case c.op == "lt" && !ev.Truth && isZeroInt(c.args[0]) && c.args[1].strip().op == "len" && isStored(c.args[1]):
			st.mon["absent"] = x.TT.boolC(true)
		case c.op == "lt" && ev.Truth && isOneInt(c.args[1]) && c.args[0].strip().op == "len" && isStored(c.args[0]):
			st.mon["absent"] = x.TT.boolC(true)
		}
	}
}

func typeOrString(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.String]
	}
	return t.typ
}

// p28Added: the value put into the context by a function that adds metadata.
func p28Added(r *Run, x *Exec, st *State, ev *Event, v *Term) {
	for v != nil && (v.op == "iface" || v.op == "conv") {
		v = v.args[0]
	}
	v = v.strip()
	if v == nil {
		return
	}
	parts := []*Term{v}
	if v.op == "structval" {
		parts = v.args
	}
	given := st.has("none:given")
	olds := map[string]bool{}
	var src []*Term
	oldMap, oldList := false, false
	for k := range st.mon {
		if strings.HasPrefix(k, "none:") && k != "none:given" {
			olds[strings.TrimPrefix(k, "none:")] = true
		}
	}
	for _, p := range parts {
		p = p.strip()
		if p.isNil() || p.op == "zero" {
			continue
		}
		if mdOrigin(p) == "param" {
			r.At(false, "added", ev, st, "the context keeps the caller's own %v: the caller's later changes reach it", p)
			given = true
			continue
		}
		was := isStored(p)
		here := hasGiven(p) && !was
		if was {
			src = append(src, p)
			for _, o := range partsOf(p) {
				olds[o] = true
			}
		}
		p.any(func(u *Term) bool {
			w := written(st, u)
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0].strip() == u {
					for z := range written(st, unstale(v.strip())) {
						w[z] = true
					}
				}
			}
			for k := range w {
				if k == "given:" {
					here = true
				} else {
					was = true
					olds[strings.TrimPrefix(k, "old:")] = true
				}
			}
			return false
		})
		given = given || here
		if here && isMapT(p) {
			oldMap = true
		}
		if was && !here && !isMapT(p) {
			oldList = true
		}
	}
	r.At(given, "added", ev, st, "the metadata given is not in the new context")
	r.At(!(oldMap && oldList), "added", ev, st, "pairs appended before are kept on top of the metadata given: they override it")
	if st.has("absent") {
		return
	}
	if !r.At(len(olds) > 0, "added", ev, st, "the metadata already in the context is dropped") || olds["*"] {
		return
	}
	// every part of what was there is kept
	t := storedStruct(st)
	if t == nil {
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		r.At(olds[f.Name()] || x.emptyField(st, f), "added", ev, st, "the %s already in the context is dropped", f.Name())
	}
}

// emptyField: the path has established that the field of what was found in the context is empty.
func (x *Exec) emptyField(st *State, f *types.Var) bool {
	for c, v := range st.facts {
		if c.op == "eq" && v || c.op == "lt" && !v && isZeroInt(c.args[0]) {
			if c.any(func(u *Term) bool { return fieldOfLoad(u) == f && isStored(u) }) {
				return true
			}
		}
	}
	return false
}

// p28Read: every added pair is applied, in order, over the metadata it was added to.
func p28Read(r *Run, x *Exec, st *State, ev *Event) {
	isList := func(t *Term) bool {
		f := fieldOfLoad(t)
		return f != nil && isStored(t) && isSliceType(f.Type())
	}
	fwdLoop(r, x, "applied", "added pairs", "ad", st, ev, isList)
	switch ev.Kind {
	case EvLoad:
		if f := fieldOfLoad(ev.Val); f != nil && isStored(ev.Val) {
			st.mon["read:"+f.Name()] = x.TT.boolC(true)
		}
		if b, idx := elemIdx(ev.Val); b != nil && b.op == "slice" && len(b.args) > 1 && isList(b.args[0].strip()) && linOf(idx).c == 0 {
			r.At(b.args[1].isNil() || isZeroInt(b.args[1]), "applied", ev, st, "the added pairs before number %v are left out", b.args[1])
		}
		// an element of the list is looked at
		if b, idx := elemIdx(ev.Val); b != nil && isList(b) {
			r.At(!st.has("addone"), "applied", ev, st, "added pairs are applied again after all of them")
			if st.mon["adidx"] == nil {
				if l := linOf(idx); len(l.m) == 0 {
					r.At(l.c == 0, "applied", ev, st, "the added pairs are applied from number %d on", l.c)
				} else {
					back := false
					for t, n := range l.m {
						back = back || t.op == "len" && n > 0
					}
					r.At(!back, "applied", ev, st, "the added pairs are applied last to first: the earlier override the later")
				}
			}
			st.mon["adidx"], st.mon["adit"] = idx, x.TT.boolC(true)
		}
	case EvBack:
		// the pairs within one element: two steps at a time
		if ix := st.mon["pair"]; ix != nil && ev.Loop.body[ev.Instr.Block()] {
			for a, n := range linOf(unstale(ix)).m {
				if ph, ok := a.obj.(*ssa.Phi); ok && a.op == "phi" && ev.Phis[ph] != nil {
					if d := linOf(ev.Phis[ph]).minus(linOf(a)); len(d.m) == 0 {
						r.At(n*d.c == 2, "applied", ev, st, "the pairs of one element are walked in steps of %d", n*d.c)
						delete(st.mon, "pair")
						break
					}
				}
			}
		}
	case EvMapUpd:
		kb, ki := elemIdx(ev.Key)
		vb, vi := elemIdx(ev.Val)
		if kb == nil || vb == nil || !isStored(kb) {
			return
		}
		if l, _ := elemIdx(kb); l == nil || !isList(l) {
			return
		}
		d := linOf(vi).minus(linOf(ki))
		r.At(same(kb, vb) && len(d.m) == 0 && d.c == 1, "applied", ev, st, "the value of key %v is %v", ev.Key, ev.Val)
		if l := linOf(ki); len(l.m) == 0 {
			r.At(l.c == 0 || st.has("pair"), "applied", ev, st, "the pairs of one element start at %d", l.c)
		}
		st.mon["pair"] = ki
		base := false
		for k := range st.mon {
			base = base || strings.HasPrefix(k, "none:")
		}
		r.At(base || isStored(ev.Addr) || wroteOld(written(st, unstale(ev.Addr.strip()))) || st.has("absent"), "applied", ev, st, "the pairs are not applied over the metadata they were added to")
		for _, li := range x.info(ev.Fn).loops {
			if li.body[ev.Instr.Block()] {
				r.At(!leavesEarly(li), "applied", ev, st, "the loop over the pairs can end before its last")
			}
		}
	case EvReturn:
		if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
			return
		}
		if st.has("absent") {
			return
		}
		res := ev.Results[0].strip()
		r.At(!res.isNil() && res.op != "zero", "applied", ev, st, "nothing is returned although the context has metadata")
		if t := storedStruct(st); t != nil {
			for i := 0; i < t.NumFields(); i++ {
				r.At(st.has("read:"+t.Field(i).Name()), "applied", ev, st, "the %s in the context is left out", t.Field(i).Name())
			}
		}
	}
}

// storedStruct: the struct this path found in the context.
func storedStruct(st *State) *types.Struct {
	for c, v := range st.facts {
		if c.op == "istype" && v && isStored(c.args[0]) {
			if t, ok := c.obj.(types.Type); ok {
				s, _ := t.Underlying().(*types.Struct)
				return s
			}
		}
	}
	return nil
}

// p28Stamp: what requests carry, what handlers find.
func p28Stamp(r *Run) {
	stamp := func(x *Exec, st *State, ev *Event) {
		p := publishOf(ev)
		if p == nil || ev.Kind != EvCall || p.kind != "Request" && p.kind != "Stream" {
			return
		}
		m, id := p.msg, "ClientId"
		if p.kind == "Stream" {
			b := x.peek(st, p.msg, "Body").strip()
			for b != nil && (b.op == "iface" || b.op == "conv") {
				b = b.args[0].strip()
			}
			if b == nil || b.op != "alloc" || !strings.HasSuffix(typeOrInvalid(b).String(), "Stream_Open") {
				return
			}
			m, id = x.peek(st, b, "Open").strip(), "NodeId"
		}
		md := x.peek(st, m, "Metadata").strip()
		c := callOf(md, mdPkg+"OutgoingContextMetadata")
		r.At(c != nil, "stamped", ev, st, "the %s carries the metadata %v, not the outgoing metadata of the caller's context", p.kind, md)
		if c != nil {
			r.At(isParam(ctxRoot(c.args[0])) || isParam(c.args[0]), "stamped", ev, st, "the metadata is that of %v, not of the caller's context", c.args[0])
		}
		cid := x.peek(st, m, id)
		r.At(readsFieldNamed(cid, "ID") != nil, "stamped", ev, st, "the %s names %v as its sender, not the client's id", p.kind, cid)
		at := x.peek(st, p.msg, "SentAt")
		r.At(hasNow(at) && !at.any(func(u *Term) bool { return strings.HasSuffix(u.aux, "(time.Time).Add") }), "stamped", ev, st, "the send time is %v", at)
	}
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream"} {
		r.exec(root, stamp, func(x *Exec) { x.Impl = nil })
	}
	head := func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && ev.Name == mdPkg+"NewContextWithIncomingHeader" && len(ev.Args) == 2 {
			h := ev.Args[1].strip()
			for name, fields := range map[string][]string{"RemoteID": {"ClientId", "NodeId"}, "SentAt": {"SentAt"}, "Metadata": {"Metadata"}} {
				v := x.peek(st, h, name)
				ok := false
				for _, f := range fields {
					ok = ok || v.any(func(u *Term) bool {
						m := readsFieldNamed(u, f)
						return m != nil && isWireT(m)
					})
				}
				r.At(ok, "header", ev, st, "the handler's header has %s %v, not the message's", name, v)
				if c := callOf(v, "time.Unix"); name == "SentAt" && c != nil {
					r.At(isZeroInt(c.args[0]), "header", ev, st, "the send time is read in the wrong unit: %v", v)
				} else if c != nil {
					r.At(false, "header", ev, st, "the header has %v", v)
				}
			}
		}
		if !(ev.Kind == EvCall) || len(ev.Args) == 0 {
			return
		}
		var c *Term
		if isUserHandler(ev) || dynNamed(ev, "psrpc.ServerRPCInterceptor") || dynNamed(ev, "pkg/server.AffinityFunc", "pkg/server.StreamAffinityFunc") {
			c = ev.Args[0]
		}
		if strings.HasSuffix(ev.Name, "stream.NewStream") {
			c = ev.Args[0]
		}
		if c != nil {
			r.At(hasHeader(c), "handler-ctx", ev, st, "the handler's context %v does not have the incoming header", c)
		}
	}
	for _, root := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler"} {
		r.exec(root, head, func(x *Exec) {
			o := x.Opaque
			x.Opaque = func(f fnT) bool { return o(f) || strings.HasSuffix(shortName(f), "stream.NewStream") }
		})
	}
}

func hasHeader(c *Term) bool {
	for _, u := range ctxChain(c) {
		if callOf(u, mdPkg+"NewContextWithIncomingHeader") != nil {
			return true
		}
	}
	return c.any(func(u *Term) bool { return callOf(u, mdPkg+"NewContextWithIncomingHeader") != nil })
}

// isWireT: a message of the wire protocol.
func isWireT(t *Term) bool {
	return t != nil && t.typ != nil && strings.HasPrefix(namedOf(derefNamed(t.typ)), "internal.")
}
