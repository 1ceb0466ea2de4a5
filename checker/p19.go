package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", "for every channel constructor the pieces its names are built from (by role: service, method, topic, client id, kind constant, queue flag) are extracted and must be complete and kinds pairwise distinct; in every formatter each piece of bytes appended is traced to a constant, an escaped rune or raw text: runes pass only under a proof that they are letters, digits or underscore, all others as a prefix with an unsafe mark and every hexadecimal digit, parts are separated and kept in order, and pooled buffers never carry text over", p19)
}

func safeChar(c rune) bool {
	return c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c == '_' || c >= 'a' && c <= 'z'
}

func constStr(t *Term) (string, bool) {
	t = t.strip()
	if t == nil || !t.isConst() {
		return "", false
	}
	c := t.constant()
	if c == nil || c.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c), true
}

func constInt(t *Term) (int64, bool) {
	t = t.strip()
	if t == nil || !t.isConst() {
		return 0, false
	}
	c := t.constant()
	if c == nil || c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c)
}

// piece: what a part of a channel name comes from.
type piece struct {
	role string // service, method, topic, queue, p0, p1, const, bool, byte, ?
	text string
}

func (x *Exec) pieceOf(fn *ssa.Function, t *Term) piece {
	t = t.strip()
	if t == nil {
		return piece{role: "?"}
	}
	if s, ok := constStr(t); ok {
		return piece{"const", s}
	}
	if t.isConst() {
		if i, ok := constInt(t); ok {
			return piece{"byte", string(rune(i))}
		}
		if t.isTrue() || t.isFalse() {
			return piece{"bool", fmt.Sprint(t.isTrue())}
		}
		return piece{role: "nil"}
	}
	for _, n := range []string{"Service", "Method", "Topic", "Queue"} {
		if readsFieldNamed(t, n) != nil {
			return piece{role: strings.ToLower(n)}
		}
	}
	if t.op == "param" {
		for i, p := range fn.Params {
			if p.Name() == t.aux {
				return piece{role: fmt.Sprint("p", i)}
			}
		}
	}
	return piece{role: "?"}
}

// nameCall: the formatter call a channel name is the result of, and its flattened arguments.
type nameCall struct {
	fn     string
	args   []*Term // as passed
	pieces []piece // variadic slices flattened
	roles  []piece // per argument
	parts  []*nameCall
}

func (x *Exec) nameOf(st *State, fn *ssa.Function, t *Term) *nameCall {
	t = t.strip()
	if t != nil && t.op == "binop" && t.aux == "+" { // written out in place
		n := &nameCall{fn: "+"}
		var flat func(t *Term)
		flat = func(t *Term) {
			if t = t.strip(); t.op == "binop" && t.aux == "+" {
				flat(t.args[0])
				flat(t.args[1])
				return
			}
			if sub := x.nameOf(st, fn, t); sub != nil {
				n.pieces = append(n.pieces, sub.pieces...)
				n.parts = append(n.parts, sub)
				return
			}
			n.pieces = append(n.pieces, x.pieceOf(fn, t))
			n.roles = append(n.roles, x.pieceOf(fn, t))
		}
		flat(t)
		return n
	}
	if t == nil || t.op != "pcall" && t.op != "call" || !strings.HasPrefix(t.aux, "pkg/info.") {
		return nil
	}
	n := &nameCall{fn: t.aux, args: t.args}
	for _, a := range t.args {
		if a.op == "slice" && a.args[0].op == "alloc" {
			base := a.args[0]
			type el struct {
				i int64
				v *Term
			}
			var els []el
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0] == base {
					if i, ok := constInt(k.args[1]); ok {
						els = append(els, el{i, v})
					}
				}
			}
			sort.Slice(els, func(i, j int) bool { return els[i].i < els[j].i })
			for _, e := range els {
				n.pieces = append(n.pieces, x.pieceOf(fn, e.v))
			}
			n.roles = append(n.roles, piece{role: "parts"})
			continue
		}
		p := x.pieceOf(fn, a)
		n.pieces = append(n.pieces, p)
		n.roles = append(n.roles, p)
	}
	return n
}

func (n *nameCall) has(role string) bool {
	for _, p := range n.pieces {
		if p.role == role {
			return true
		}
	}
	return false
}

func (n *nameCall) unknown() bool { return n.has("?") }

func (n *nameCall) kind() string {
	var out []string
	for _, p := range n.pieces {
		if p.role == "const" && p.text != "" {
			out = append(out, p.text)
		}
	}
	return strings.Join(out, " ")
}

// order: the sequence of roles, constants left out.
func (n *nameCall) order() string {
	var out []string
	for _, p := range n.pieces {
		switch p.role {
		case "const", "byte", "bool", "nil", "queue":
		default:
			out = append(out, p.role)
		}
	}
	return strings.Join(out, " ")
}

// formatter: the functions that put a name together.
func formatter(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/info") && f.Signature.Recv() == nil && f.Object() != nil {
		rs := f.Signature.Results()
		return rs.Len() == 1 && isString(rs.At(0).Type())
	}
	return defaultOpaque(f) && !strings.Contains(shortName(f), "pkg/info.")
}

func p19(r *Run) {
	// formatter → which of its parameters must be escaped: "all" or the index of the topic
	must := map[string]map[int]bool{}
	at := ""
	var need func(n *nameCall, all bool)
	need = func(n *nameCall, all bool) {
		if n == nil {
			return
		}
		if n.fn == "+" {
			for _, q := range n.parts {
				need(q, all)
			}
			for _, p := range n.roles {
				if p.role != "const" {
					r.Check(!all && p.role != "topic", "escaped", at, "", "the "+p.role+" goes into a channel name as it is: characters with a meaning to the bus are not escaped", nil)
				}
			}
			return
		}
		m := must[n.fn]
		if m == nil {
			m = map[int]bool{}
			must[n.fn] = m
		}
		for i, p := range n.roles {
			if all || p.role == "topic" {
				m[i] = true
			}
		}
	}
	kinds := map[string]map[string]string{}
	distinct := func(group, kind, ctor string, pos string) {
		if kinds[group] == nil {
			kinds[group] = map[string]string{}
		}
		o, dup := kinds[group][kind]
		r.Check(!dup || o == ctor, "kind-distinct", group+" "+ctor, pos, fmt.Sprintf("%s and %s build the same %s name: their messages share a channel", o, ctor, group), nil)
		kinds[group][kind] = ctor
	}
	for _, fn := range r.P.pkgFuncs("pkg/info") {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 {
			continue
		}
		res := fn.Signature.Results().At(0).Type()
		isChan := namedOf(res) == busChannel
		recvInfo := fn.Signature.Recv() != nil && strings.HasSuffix(namedOf(derefNamed(fn.Signature.Recv().Type())), "info.RequestInfo")
		isKey := recvInfo && isString(res)
		if !isChan && !isKey {
			continue
		}
		name := shortName(fn)
		pos := r.P.Pos(fn.Pos())
		at = name
		r.execFn(name, fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
				return
			}
			v := ev.Results[0].strip()
			if isKey {
				if n := x.nameOf(st, fn, v); n != nil && !n.unknown() {
					r.Check(n.has("method") && n.has("topic"), "key-parts", name, pos, "the handler key does not depend on both method and topic: "+n.order(), st)
					need(n, true)
				}
				return
			}
			get := func(f string) *Term {
				if v.op == "structval" {
					for i, k := range strings.Split(v.aux, ",") {
						if k == f {
							return v.args[i].strip()
						}
					}
				}
				return x.peek(st, v, f)
			}
			leg, srv, loc := x.nameOf(st, fn, get("Legacy")), x.nameOf(st, fn, get("Server")), x.nameOf(st, fn, get("Local"))
			if leg != nil && !leg.unknown() {
				want := []string{"service", "method", "topic"}
				group := "Legacy of requests"
				if !recvInfo {
					want, group = []string{"p0", "p1"}, "Legacy of clients"
				}
				r.Check(leg.order() == strings.Join(want, " "), "legacy-parts", name, pos, "the legacy name is built from "+leg.order()+", not from "+strings.Join(want, " "), st)
				distinct(group, leg.kind(), name, pos)
				sep := false
				for _, p := range leg.pieces {
					if p.role == "byte" {
						sep = p.text != "+" && !safeChar([]rune(p.text)[0])
					}
				}
				r.Check(sep || !hasByte(leg), "separator", name+" legacy", pos, "the separator of the legacy name can occur in its parts", st)
				need(leg, true)
			}
			if srv != nil && !srv.unknown() {
				if recvInfo {
					r.Check(srv.order() == "service topic", "server-parts", name, pos, "the server name is built from "+srv.order()+", not from service and topic", st)
				} else {
					r.Check(srv.order() == "p0 p1", "server-parts", name, pos, "the server name is built from "+srv.order()+", not from service and client id", st)
					distinct("Server of clients", srv.kind(), name, pos)
				}
				need(srv, false)
				q := srv.has("queue")
				if recvInfo {
					r.Check(q == (fn.Name() == "GetRPCChannel"), "queue-flag", name, pos, map[bool]string{true: "a channel that is not the request channel depends on the queue flag", false: "a queue method's request channel equals the plain one"}[q], st)
				}
			}
			if recvInfo {
				if loc != nil && !loc.unknown() {
					r.Check(loc.has("method"), "local-parts", name, pos, "the local name does not contain the method: "+loc.order(), st)
					distinct("Local of requests", loc.kind(), name, pos)
				} else if s, ok := constStr(get("Local")); ok {
					r.Check(false, "local-parts", name, pos, fmt.Sprintf("the local name is the constant %q: methods of one service share a channel", s), st)
				}
			}
		}, func(x *Exec) { x.Opaque = formatter })
	}
	var names []string
	for n := range must {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if fn := r.P.rootFn(n); fn != nil {
			p19Format(r, fn, must[n])
		}
	}
	p19Pool(r)
	for rule, n := range map[string]int{"kind-distinct": 6, "legacy-parts": 5, "server-parts": 5, "local-parts": 2, "key-parts": 1, "queue-flag": 2, "escaped": 1, "safe-rune": 1, "safe-table": 1, "pool": 1, "separator": 3, "queue-suffix": 1, "separator-used": 1, "escape-digits": 1, "all-parts": 1} {
		r.Min(rule, n)
	}
}

func hasByte(n *nameCall) bool { return n.has("byte") }

// runeOf: the term denotes (a conversion of) a character of some text; returns the text.
func runeOf(t *Term) (*Term, *Term) {
	t = t.strip()
	for t != nil && (t.op == "convert" || t.op == "conv") {
		t = t.args[0].strip()
	}
	if t == nil {
		return nil, nil
	}
	if t.op == "nextv" && len(t.args) > 0 {
		if g := t.args[0].strip(); g.op == "range" && len(g.args) > 0 {
			return t, g.args[0].strip()
		}
	}
	if t.op == "index" && len(t.args) == 2 && !t.args[0].isConst() && isString(t.args[0].typ) {
		return t, t.args[0].strip()
	}
	return nil, nil
}

// p19Format traces every piece of bytes a formatter appends.
func p19Format(r *Run, fn *ssa.Function, must map[int]bool) {
	escaped := func(t *Term) bool { // must the text be escaped?
		return t.any(func(u *Term) bool {
			if u.op != "param" {
				return false
			}
			for i, p := range fn.Params {
				if p.Name() == u.aux && must[i] {
					return true
				}
			}
			return false
		})
	}
	// a formatter told its separator puts it in only if something precedes: that condition is not followed here
	delim := false
	for _, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			delim = true
		}
	}
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		chunk := func(kind string, src *Term) {
			// a new part starts: something must separate it from the previous one
			if src != nil && st.mon["src"] != src {
				if st.has("src") && x.topicElem(src) && !delim {
					r.At(st.has("sep"), "separator", ev, st, "a part is appended directly after another: names of different topics coincide")
				}
				st.mon["src"] = src
			}
			delete(st.mon, "sep")
		}
		sep := func(s string) {
			for _, c := range s {
				if !safeChar(c) && c != '+' {
					st.mon["sep"] = x.TT.boolC(true)
				}
			}
		}
		text := func(t *Term) { // a string appended as is
			if s, ok := constStr(t); ok {
				sep(s)
				if s != "" && st.has("queue") {
					st.mon["qchunk"] = x.TT.str(s)
				}
				// an escape prefix
				if strings.HasSuffix(s, "+") {
					st.mon["prefix"] = x.TT.str(s)
				}
				return
			}
			u := t.strip()
			if u.op == "call" || u.op == "pcall" {
				return // formatted text: not traced
			}
			chunk("raw", u)
			r.At(!escaped(u), "escaped", ev, st, "%v is put into the channel name unescaped: it can introduce a separator", u)
			if x.topicElem(u) {
				x.ascending(r, st, ev, u)
			}
		}
		elem := func(v *Term) {
			v = v.strip()
			if i, ok := constInt(v); ok {
				sep(string(rune(i)))
				return
			}
			for v != nil && (v.op == "convert" || v.op == "conv") {
				v = v.args[0].strip()
			}
			if v.op == "param" { // the delimiter
				st.mon["sep"] = x.TT.boolC(true)
				r.At(true, "separator-used", ev, st, "")
				return
			}
			if rn, src := runeOf(v); rn != nil {
				chunk("rune", src)
				ok, why := st.mon["safe"] == rn, ""
				if !ok {
					ok, why = x.provedSafe(r, st, rn)
				}
				r.At(ok, "safe-rune", ev, st, "a character is put into the channel name although it need not be a letter, digit or underscore%s", why)
				if x.topicElem(src) {
					x.ascending(r, st, ev, src)
				}
				return
			}
			if v.op == "index" && len(v.args) == 2 {
				if tab, ok := constStr(v.args[0]); ok {
					x.hexDigit(r, st, ev, tab, v.args[1])
				}
			}
		}
		switch ev.Kind {
		case EvAppend:
			if len(ev.Args) != 2 {
				return
			}
			a := ev.Args[1].strip()
			if isString(a.typ) || isStrConst(a) {
				text(a)
				return
			}
			if a.op == "slice" && a.args[0].op == "alloc" {
				for k, v := range st.heap {
					if k.op == "iaddr" && k.args[0] == a.args[0] {
						elem(v)
					}
				}
			}
		case EvCall:
			switch {
			case strings.HasSuffix(ev.Name, ").WriteString") && len(ev.Args) == 2:
				text(ev.Args[1])
			case (strings.HasSuffix(ev.Name, ").WriteByte") || strings.HasSuffix(ev.Name, ").WriteRune")) && len(ev.Args) == 2:
				elem(ev.Args[1])
			}
		case EvAssume:
			x.skipsPart(r, st, ev)
			for _, a := range ev.Cond.args {
				// remembered here: what a condition with || proves is forgotten where its branches meet
				if rn, _ := runeOf(a); rn != nil && st.mon["safe"] != rn {
					if ok, _ := x.provedSafe(r, st, rn); ok {
						st.mon["safe"] = rn
					}
				}
			}
			if ev.Cond.op == "param" {
				if b, ok := ev.Cond.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					if ev.Truth {
						st.mon["queue"] = x.TT.boolC(true)
					} else {
						st.mon["noqueue"] = x.TT.boolC(true)
					}
				}
			}
		case EvReturn:
			if ev.Name == "root" && !ev.Truth && st.has("queue") {
				r.At(st.has("qchunk"), "queue-suffix", ev, st, "the name of a queue channel has nothing the plain one has not")
			}
		}
	}, func(x *Exec) {
		// the text's shape matters, not what other formatters do
		x.Opaque = func(f fnT) bool { return false }
	})
}

// skipsPart: a part is left out of the name only if it is empty.
func (x *Exec) skipsPart(r *Run, st *State, ev *Event) {
	c := ev.Cond
	isElem := func(t *Term) bool {
		t = t.strip()
		return t != nil && isString(t.typ) && (t.op == "load" || t.op == "sload") && t.args[0].op == "iaddr"
	}
	if c.op != "eq" && c.op != "lt" {
		return
	}
	for k := 0; k < 2; k++ {
		a, b := c.args[k].strip(), c.args[1-k].strip()
		if a.op == "len" && isElem(a.args[0]) {
			n, ok := constInt(b)
			good := ok && (c.op == "eq" && n == 0 || c.op == "lt" && (k == 1 && n == 0 || k == 0 && n == 1))
			r.At(good, "all-parts", ev, st, "whether a part of the topic is put into the name depends on its length: different topics get the same name")
		}
		if isElem(a) && c.op == "eq" {
			s, ok := constStr(b)
			r.At(ok && s == "", "all-parts", ev, st, "whether a part of the topic is put into the name depends on its text: different topics get the same name")
		}
	}
}

func isStrConst(t *Term) bool { _, ok := constStr(t); return ok }

// topicElem: the text is an element of a list.
func (x *Exec) topicElem(t *Term) bool {
	return t.any(func(u *Term) bool { return (u.op == "load" || u.op == "sload") && u.args[0].op == "iaddr" })
}

// ascending: list elements are taken in order.
func (x *Exec) ascending(r *Run, st *State, ev *Event, t *Term) {
	t.any(func(u *Term) bool {
		if (u.op == "load" || u.op == "sload") && u.args[0].op == "iaddr" {
			i := u.args[0].args[1].strip()
			bad := i.any(func(v *Term) bool {
				return v.op == "len" || v.op == "binop" && v.aux == "-" || v.op == "call" || v.op == "pcall"
			})
			r.At(!bad, "in-order", ev, st, "the parts of the topic are not taken in order: %v", i)
		}
		return false
	})
}

// provedSafe: the path has established that the character is a letter, digit or underscore.
func (x *Exec) provedSafe(r *Run, st *State, rn *Term) (bool, string) {
	lo, hi := int64(0), int64(0x10ffff)
	for f, v := range st.facts {
		if v && f.op == "pcall" && f.aux == "unicode.Is" && len(f.args) == 2 && sameRune(f.args[1], rn) {
			ok, known := r.tableSafe(f.args[0])
			if known {
				r.Check(ok, "safe-table", "character table", "-", "the table of characters left unescaped contains others than letters, digits and underscore", st)
				return ok, ""
			}
		}
		switch f.op {
		case "eq":
			if v {
				for k := 0; k < 2; k++ {
					if c, ok := constInt(f.args[k]); ok && sameRune(f.args[1-k], rn) {
						lo, hi = c, c
					}
				}
			}
		case "lt":
			if c, ok := constInt(f.args[1]); ok && sameRune(f.args[0], rn) { // rn < c
				if v && c-1 < hi {
					hi = c - 1
				}
				if !v && c > lo {
					lo = c
				}
			}
			if c, ok := constInt(f.args[0]); ok && sameRune(f.args[1], rn) { // c < rn
				if v && c+1 > lo {
					lo = c + 1
				}
				if !v && c < hi {
					hi = c
				}
			}
		}
	}
	if hi-lo > 64 {
		return false, ""
	}
	for c := lo; c <= hi; c++ {
		if !safeChar(rune(c)) {
			return false, fmt.Sprintf(" (%q)", rune(c))
		}
	}
	r.Check(true, "safe-table", "character range", "-", "", nil)
	return true, ""
}

func sameRune(a, b *Term) bool {
	x, _ := runeOf(a)
	y, _ := runeOf(b)
	return x != nil && x == y
}

// tableSafe reads the literal of a unicode.RangeTable.
func (r *Run) tableSafe(t *Term) (safe, known bool) {
	var obj types.Object
	t.any(func(u *Term) bool {
		if u.op == "global" {
			if g, ok := u.obj.(*ssa.Global); ok {
				obj = g.Object()
			} else if o, ok := u.obj.(types.Object); ok {
				obj = o
			}
		}
		return false
	})
	if obj == nil {
		return false, false
	}
	for _, pk := range r.P.Pkgs {
		if pk.Types != obj.Pkg() {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if pk.TypesInfo.Defs[n] != obj || i >= len(vs.Values) {
							continue
						}
						safe, known = true, false
						ast.Inspect(vs.Values[i], func(nd ast.Node) bool {
							cl, ok := nd.(*ast.CompositeLit)
							if !ok {
								return true
							}
							tn := namedOf(pk.TypesInfo.TypeOf(cl))
							if tn != "unicode.Range16" && tn != "unicode.Range32" {
								return true
							}
							vals := map[string]int64{"Stride": 1}
							for j, e := range cl.Elts {
								k := []string{"Lo", "Hi", "Stride"}[j%3]
								if kv, ok := e.(*ast.KeyValueExpr); ok {
									if id, ok := kv.Key.(*ast.Ident); ok {
										k = id.Name
									}
									e = kv.Value
								}
								if c := pk.TypesInfo.Types[e].Value; c != nil {
									vals[k], _ = constant.Int64Val(constant.ToInt(c))
								}
							}
							known = true
							st := vals["Stride"]
							if st < 1 {
								st = 1
							}
							for c := vals["Lo"]; c <= vals["Hi"]; c += st {
								if !safeChar(rune(c)) {
									safe = false
								}
							}
							return false
						})
						return safe, known
					}
				}
			}
		}
	}
	return false, false
}

// hexDigit: a digit of an escape: the digits are distinct and safe, and together they cover the whole character.
func (x *Exec) hexDigit(r *Run, st *State, ev *Event, tab string, idx *Term) {
	seen := map[rune]bool{}
	ok := len(tab) == 16
	for _, c := range tab {
		ok = ok && safeChar(c) && !seen[c]
		seen[c] = true
	}
	r.At(ok, "escape-digits", ev, st, "the digits of the escape form are not sixteen different safe characters: %q", tab)
	i := idx.strip()
	for i != nil && (i.op == "convert" || i.op == "conv") {
		i = i.args[0].strip()
	}
	if i.op != "binop" || i.aux != "&" || len(i.args) != 2 {
		return
	}
	m, isc := constInt(i.args[1])
	if isc {
		r.At(m == 15, "escape-digits", ev, st, "the mask of an escape digit is %d, not 15", m)
	}
	sh := i.args[0].strip()
	if sh.op != "binop" || sh.aux != ">>" || len(sh.args) != 2 {
		return
	}
	by := sh.args[1].strip()
	for by != nil && (by.op == "convert" || by.op == "conv") {
		by = by.args[0].strip()
	}
	rn, _ := runeOf(sh.args[0])
	if rn == nil {
		return
	}
	// how large can the character be here?
	bits := int64(21)
	for f, v := range st.facts {
		if v && f.op == "lt" && sameRune(f.args[0], rn) {
			if c, ok := constInt(f.args[1]); ok && c <= 0x10000 {
				bits = 16
				if c <= 0x1000 {
					bits = 12
				}
				if c <= 0x100 {
					bits = 8
				}
			}
		}
	}
	if by.op != "phi" {
		return
	}
	ph, ok := by.obj.(*ssa.Phi)
	if !ok {
		return
	}
	for _, e := range ph.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if c, ok := constant.Int64Val(constant.ToInt(e.Value)); ok {
				r.At(c+4 >= bits && c%4 == 0, "escape-digits", ev, st, "the escape starts at bit %d of a character of %d bits: different characters get the same name", c, bits)
			}
		case *ssa.BinOp:
			if c, ok := e.Y.(*ssa.Const); ok {
				n, _ := constant.Int64Val(constant.ToInt(c.Value))
				r.At(e.Op == token.SUB && n == 4 || e.Op == token.ADD && n == -4, "escape-digits", ev, st, "the escape's digits are not four bits apart")
			}
		}
	}
	// the loop ends only after the last digit
	if refs := ph.Referrers(); refs != nil {
		for _, in := range *refs {
			if b, ok := in.(*ssa.BinOp); ok && b.X == ssa.Value(ph) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
					n, _ := constant.Int64Val(constant.ToInt(c.Value))
					switch b.Op {
					case token.GEQ:
						r.At(n == 0, "escape-digits", ev, st, "the escape stops before the last digit")
					case token.GTR:
						r.At(n < 0, "escape-digits", ev, st, "the escape stops before the last digit")
					}
				}
			}
		}
	}
}

// p19Pool: a pooled buffer is handed back empty and only after its text was copied out.
func p19Pool(r *Run) {
	for _, fn := range r.P.pkgFuncs("pkg/info") {
		var puts []ssa.Instruction
		var convs []ssa.Instruction
		get := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc := callCommon(in)
				if cc != nil {
					n := calleeName(cc)
					switch {
					case n == "(*sync.Pool).Get":
						if v, ok := in.(ssa.Value); ok {
							get[v] = true
						}
					case n == "(*sync.Pool).Put":
						if _, ok := in.(*ssa.Defer); !ok {
							puts = append(puts, in)
						}
						r.Check(true, "pool", shortName(fn), "-", "", nil)
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "String" || bi.Name() == "StringData" || bi.Name() == "SliceData") {
						r.Check(false, "pool", shortName(fn), r.P.InstrPos(in), "a name shares memory with its buffer", nil)
					}
				}
				switch in := in.(type) {
				case *ssa.TypeAssert:
					if get[in.X] {
						get[in] = true
					}
				case *ssa.Extract:
					if get[in.Tuple] {
						get[in] = true
					}
				case *ssa.Convert:
					if isString(in.Type()) {
						if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
							convs = append(convs, in)
						}
					}
				case *ssa.Store:
					if get[in.Addr] {
						sl, ok := in.Val.(*ssa.Slice)
						empty := false
						if ok && sl.High != nil {
							if c, ok := sl.High.(*ssa.Const); ok && c.Value != nil {
								n, _ := constant.Int64Val(constant.ToInt(c.Value))
								empty = n == 0
							}
						}
						r.Check(empty, "pool", shortName(fn), r.P.InstrPos(in), "a pooled buffer keeps the text of one name: the next name starts with it", nil)
					}
				}
			}
		}
		for _, p := range puts {
			for _, c := range convs {
				if reachesInstr(p, c) {
					r.Check(false, "pool", shortName(fn), r.P.InstrPos(p), "the buffer is handed back before its text was copied out: another goroutine may overwrite it", nil)
				}
			}
		}
	}
}

// reachesInstr: b can execute after a.
func reachesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(a.Block())
}

// calleeName: the statically known callee or interface method of a call.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return methodName(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return shortName(f)
	}
	return ""
}
