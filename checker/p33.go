package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P33", "output-language analysis of the code generator over SSA: every line a path can print is assembled with symbolic names for the service, the method, its types and its topics; for all 72 combinations of a method's options the printed registration, call, signature, publication and removal are compared with what the options declare, on the client's and the server's side alike; every method is registered in every iteration, and topic lists keep their order", p33)
}

// genModel: one combination of the options of a method.
type genModel struct {
	sub, topics, stream bool
	typ                 int // 0 queue, 1 affinity, 2 multi
	tpNil, single       bool
}

func genModels() []genModel {
	var out []genModel
	for b := 0; b < 8; b++ {
		for t := 0; t < 3; t++ {
			for k := 0; k < 3; k++ {
				out = append(out, genModel{b&1 != 0, b&2 != 0, b&4 != 0, t, k == 0, k == 2})
			}
		}
	}
	return out
}

// eval: the value of an atom printed by canon; 1, 0, or -1 if it is none.
func (m genModel) eval(atom string) int {
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	if strings.HasPrefix(atom, "!") {
		if v := m.eval(atom[1:]); v >= 0 {
			return 1 - v
		}
		return -1
	}
	switch atom {
	case "true", "false":
		return b(atom == "true")
	case "o.Subscription", "GetSubscription(o)":
		return b(m.sub)
	case "o.Topics", "GetTopics(o)":
		return b(m.topics)
	case "o.Stream", "GetStream(o)":
		return b(m.stream)
	case "o.TopicParams==nil", "GetTopicParams(o)==nil":
		return b(m.tpNil)
	case "o.TopicParams.SingleServer", "GetSingleServer(GetTopicParams(o))", "GetSingleServer(o.TopicParams)":
		if m.tpNil && atom == "o.TopicParams.SingleServer" {
			return -1
		}
		return b(m.single)
	}
	for _, p := range []string{"o.Type==", "GetType(o)=="} {
		if strings.HasPrefix(atom, p) {
			return b(atom[len(p):] == fmt.Sprint(m.typ))
		}
	}
	return -1
}

type genCheck struct {
	r      *Run
	pkg    string
	emits  map[*ssa.Function]bool
	opts   map[*ssa.Function]bool // reaches the function that reads a method's options
	writer map[*ssa.Function]int  // 1 without, 2 with an end of line
	rdOpts *ssa.Function

	flag    [4]string // what RegisterMethod's flags mean
	name    map[string]bool
	serv    map[string]bool
	cast    map[string]bool
	covered map[string]map[genModel]bool
	loops   map[string]map[string]bool // loop → kinds printed by it
	iters   []genIter
}

type genIter struct {
	loop  string
	kinds map[string]int
	ms    []genModel
	st    *State
	pos   string
}

func p33(r *Run) {
	g := &genCheck{r: r, pkg: "protoc-gen-psrpc", emits: map[*ssa.Function]bool{}, opts: map[*ssa.Function]bool{}, writer: map[*ssa.Function]int{},
		name: map[string]bool{}, serv: map[string]bool{}, cast: map[string]bool{}, covered: map[string]map[genModel]bool{}, loops: map[string]map[string]bool{}}
	if r.P.Pkg(g.pkg) == nil {
		r.Fail("anchor", g.pkg, "-", "the generator's package does not exist", nil)
		return
	}
	g.flags()
	roots := g.classify()
	for _, fn := range roots {
		g.run(fn)
	}
	g.after()
	g.order()
	g.readOptions()
	g.groups()
	for rule, n := range map[string]int{"flags": 1, "call": 1, "handler": 1, "topic-handler": 1, "deregister": 1, "publish": 1, "signature": 3, "covered": 6, "every-method": 3, "one-name": 1, "ids": 2, "constructor": 1, "shutdown-force": 1, "reg-fails": 1, "topic-order": 2, "no-topics": 2, "legacy-routing": 1, "groups": 1, "options-read": 1, "group-members": 2} {
		r.Min(rule, n)
	}
}

// flags: which field of the method's info each parameter of RegisterMethod sets.
func (g *genCheck) flags() {
	g.r.exec("pkg/info.(ServiceDefinition).RegisterMethod", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Val.strip().op == "param" {
			if f := fieldOfAddr(ev.Addr); f != nil {
				for i, p := range g.r.P.rootFn("pkg/info.(ServiceDefinition).RegisterMethod").Params {
					if p.Name() == ev.Val.strip().aux && i >= 2 && i < 6 {
						g.flag[i-2] = f.Name()
					}
				}
			}
		}
	}, nil)
}

func hasParam(fn *ssa.Function, suffix string) bool {
	for _, p := range fn.Params {
		if strings.HasSuffix(types.TypeString(p.Type(), nil), suffix) {
			return true
		}
	}
	return false
}

func resultIs(fn *ssa.Function, suffix string) bool {
	rs := fn.Signature.Results()
	return rs.Len() == 1 && strings.HasSuffix(types.TypeString(rs.At(0).Type(), nil), suffix)
}

func (g *genCheck) classify() []*ssa.Function {
	fns := g.r.P.pkgFuncs(g.pkg)
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range fns {
		eol := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch in := in.(type) {
				case *ssa.Call:
					c = &in.Call
				case *ssa.Defer:
					c = &in.Call
				case *ssa.MakeClosure:
					calls[fn] = append(calls[fn], in.Fn.(*ssa.Function))
				}
				if c == nil {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					continue
				}
				calls[fn] = append(calls[fn], f)
				n := shortName(f)
				if strings.HasSuffix(n, "bytes.Buffer).WriteString") && fn.Signature.Variadic() && g.writer[fn] == 0 {
					g.writer[fn] = 1
				}
				if strings.HasSuffix(n, "bytes.Buffer).WriteByte") || strings.HasSuffix(n, "bytes.Buffer).WriteRune") {
					eol = true
				}
				if strings.HasSuffix(n, "bytes.Buffer).WriteString") && len(c.Args) == 2 {
					if k, ok := c.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.String() == `"\n"` {
						eol = true
					}
				}
			}
		}
		if g.writer[fn] == 1 && eol {
			g.writer[fn] = 2
		}
		if resultIs(fn, "options.Options") && hasParam(fn, "descriptorpb.MethodDescriptorProto") {
			g.rdOpts = fn
		}
	}
	var fix func(set map[*ssa.Function]bool, base func(*ssa.Function) bool)
	fix = func(set map[*ssa.Function]bool, base func(*ssa.Function) bool) {
		for again := true; again; {
			again = false
			for _, fn := range fns {
				if set[fn] {
					continue
				}
				for _, c := range calls[fn] {
					if base(c) || set[c] {
						set[fn], again = true, true
						break
					}
				}
			}
		}
	}
	// a writer may be made of another (W in terms of P): those are writers, not emitters
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if g.writer[fn] == 0 && fn.Signature.Variadic() && !hasParam(fn, "Proto") {
				for _, c := range calls[fn] {
					if g.writer[c] > 0 {
						g.writer[fn], again = g.writer[c], true
					}
				}
			}
		}
	}
	fix(g.emits, func(f *ssa.Function) bool { return g.writer[f] > 0 })
	fix(g.opts, func(f *ssa.Function) bool { return f == g.rdOpts })
	for fn := range g.writer {
		delete(g.emits, fn)
	}
	called := map[*ssa.Function]bool{}
	isRoot := func(fn *ssa.Function) bool { return g.emits[fn] && hasParam(fn, "descriptorpb.ServiceDescriptorProto") }
	for _, fn := range fns {
		if isRoot(fn) {
			for _, c := range calls[fn] {
				called[c] = true
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range fns {
		if isRoot(fn) && !called[fn] {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return shortName(out[i]) < shortName(out[j]) })
	return out
}

func (g *genCheck) opaque(f fnT) bool {
	if f.Pkg == nil || f.Pkg != g.r.P.Pkg(g.pkg) && f.Parent() == nil {
		return true
	}
	if g.writer[f] > 0 || f == g.rdOpts {
		return true
	}
	if g.emits[f] || f.Parent() != nil {
		return false
	}
	if hasParam(f, "options.Options") || g.opts[f] {
		return !(resultIs(f, "string") || resultIs(f, "bool"))
	}
	return true
}

// elemsOf: the elements of a slice made for a variadic call.
func elemsOf(st *State, t *Term) ([]*Term, bool) {
	t = t.strip()
	if t != nil && t.isNil() {
		return nil, true
	}
	if t == nil || t.op != "slice" || t.args[0].op != "alloc" {
		return nil, false
	}
	m := map[int64]*Term{}
	for k, v := range st.heap {
		if k.op == "iaddr" && k.args[0] == t.args[0] {
			if i, ok := constInt(k.args[1]); ok {
				m[i] = v
			}
		}
	}
	out := make([]*Term, len(m))
	for i, v := range m {
		if int(i) < len(out) {
			out[i] = v
		}
	}
	return out, true
}

// canon prints a term with the names of the descriptors it is about: m the method, s the service, o the method's options.
func (g *genCheck) canon(st *State, t *Term) string {
	t = t.strip()
	for t != nil && (t.op == "iface" || t.op == "convert" || t.op == "conv") && len(t.args) > 0 {
		t = t.args[0].strip()
	}
	if t == nil {
		return "?"
	}
	if s, ok := constStr(t); ok {
		return s
	}
	if t.isTrue() {
		return "true"
	}
	if t.isFalse() {
		return "false"
	}
	if i, ok := constInt(t); ok {
		return fmt.Sprint(i)
	}
	if t.isNil() {
		return "nil"
	}
	if t.typ != nil {
		switch ts := types.TypeString(t.typ, nil); {
		case strings.HasPrefix(ts, "[]"):
		case strings.HasSuffix(ts, "descriptorpb.MethodDescriptorProto"):
			return "m"
		case strings.HasSuffix(ts, "descriptorpb.ServiceDescriptorProto"):
			return "s"
		case strings.HasSuffix(ts, "descriptorpb.FileDescriptorProto"):
			return "f"
		case strings.HasSuffix(ts, "options.Options") && (t.op == "call" || t.op == "pcall"):
			return "o"
		}
	}
	elem := func(a *Term) string {
		if a.op == "iaddr" {
			return g.canon(st, a.args[0]) + "[" + itoa(a.args[1].id) + "]"
		}
		return ""
	}
	switch t.op {
	case "load", "sload":
		if f := fieldOfAddr(t.args[0]); f != nil {
			return g.canon(st, t.args[0].strip().args[0]) + "." + f.Name()
		}
		if e := elem(t.args[0].strip()); e != "" {
			return e
		}
		return "*" + g.canon(st, t.args[0])
	case "iaddr":
		return elem(t)
	case "field", "peek":
		if f, ok := t.obj.(*types.Var); ok {
			return g.canon(st, t.args[0]) + "." + f.Name()
		}
		return g.canon(st, t.args[0]) + "." + t.aux
	case "faddr":
		if f := fieldOfAddr(t); f != nil {
			return g.canon(st, t.args[0]) + "." + f.Name()
		}
	case "param":
		return "$" + t.aux
	case "lookup":
		if s, ok := constStr(t.args[1]); ok {
			return s // the name a package is imported by
		}
	case "not":
		return "!" + g.canon(st, t.args[0])
	case "eq":
		a, b := g.canon(st, t.args[0]), g.canon(st, t.args[1])
		if t.args[0].isConst() || t.args[0].isNil() {
			a, b = b, a
		}
		if b == "true" {
			return a
		}
		if b == "false" {
			return "!" + a
		}
		return a + "==" + b
	case "binop":
		if t.aux == "+" && isString(t.typ) {
			return g.text(st, t.args[0]) + g.text(st, t.args[1])
		}
	case "call", "pcall":
		n := lastName(t.aux)
		args := t.args
		var list []string
		for _, a := range args {
			if es, ok := elemsOf(st, a); ok && a.strip().op == "slice" {
				for _, e := range es {
					list = append(list, g.canon(st, e))
				}
				continue
			}
			if c := g.canon(st, a); !strings.HasPrefix(c, "$") || len(args) == 1 {
				list = append(list, c)
			}
		}
		switch {
		case (t.aux == "fmt.Sprint" || t.aux == "strconv.FormatBool") && len(list) == 1:
			return list[0]
		case t.aux == "fmt.Sprintf" && len(list) > 1 && strings.Count(list[0], "%") == strings.Count(list[0], "%s")+strings.Count(list[0], "%v")+strings.Count(list[0], "%t") && strings.Count(list[0], "%") == len(list)-1:
			out, k := "", 1
			for i := 0; i < len(list[0]); i++ {
				if list[0][i] == '%' {
					out += mark(list[k], args, k)
					k++
					i++
					continue
				}
				out += string(list[0][i])
			}
			return out
		case len(list) == 1 && list[0] == "GetInputType(m)":
			return "IN"
		case len(list) == 1 && list[0] == "GetOutputType(m)":
			return "OUT"
		}
		return n + "(" + strings.Join(list, ",") + ")"
	}
	return "?" + t.op
}

// mark keeps a name apart from the text around it.
func mark(s string, _ []*Term, _ int) string {
	if s == "true" || s == "false" || strings.ContainsAny(s, "⟨") {
		return s
	}
	return "⟨" + s + "⟩"
}

// text is what a string prints.
func (g *genCheck) text(st *State, t *Term) string {
	u := t.strip()
	if s, ok := constStr(u); ok {
		return s
	}
	c := g.canon(st, t)
	if u != nil && (u.op == "binop" || u.op == "lookup" || (u.op == "call" || u.op == "pcall") && u.aux == "fmt.Sprintf") && !strings.HasPrefix(c, "?") {
		return c
	}
	return mark(c, nil, 0)
}

// models: those of all combinations that agree with what the path established.
func (g *genCheck) models(st *State) []genModel {
	var out []genModel
next:
	for _, m := range genModels() {
		for k, v := range st.mon {
			if strings.HasPrefix(k, "f:") {
				e := m.eval(k[2:])
				if e < 0 || (e == 1) != v.isTrue() {
					continue next
				}
			}
		}
		out = append(out, m)
	}
	return out
}

func (g *genCheck) run(fn *ssa.Function) {
	g.r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvAssume:
			a, v := g.canon(st, ev.Cond), ev.Truth
			for strings.HasPrefix(a, "!") {
				a, v = a[1:], !v
			}
			if l := ev.Cond; l.op == "lt" && l.args[1].op == "len" && strings.HasSuffix(g.canon(st, l.args[1].args[0]), ".Method") {
				st.mon["end"] = x.TT.boolC(!ev.Truth)
			}
			if (genModel{}).eval(a) >= 0 || a == "o.TopicParams.SingleServer" {
				if a != "true" && a != "false" {
					if old := st.mon["f:"+a]; old != nil && old.isTrue() != v {
						st.mon["dead"] = x.TT.boolC(true)
					}
					st.mon["f:"+a] = x.TT.boolC(v)
					if len(g.models(st)) == 0 {
						st.mon["dead"] = x.TT.boolC(true)
					}
					if strings.Contains(a, "Stream") {
						st.mon["tested"] = x.TT.boolC(true)
						st.mon["end"] = x.TT.boolC(false)
						if v {
							st.mon["anystream"] = x.TT.boolC(true)
						}
					}
				}
			}
		case EvCall:
			w := 0
			if ev.Callee != nil {
				w = g.writer[ev.Callee]
			}
			if w == 0 {
				return
			}
			es, ok := elemsOf(st, ev.Args[len(ev.Args)-1])
			if !ok {
				g.r.Fail("understood", shortName(ev.Fn), g.r.P.InstrPos(ev.Instr), "what is printed here is not known", st)
				return
			}
			line := ""
			if l := st.mon["line"]; l != nil {
				line, _ = constStr(l)
			}
			for _, e := range es {
				line += g.text(st, e)
			}
			if w == 2 {
				delete(st.mon, "line")
				for _, l := range strings.Split(line, "\n") {
					g.line(x, st, ev, strings.TrimSpace(l))
					if l == "}" {
						delete(st.mon, "fn")
					}
				}
			} else {
				st.mon["line"] = x.TT.str(line)
			}
		case EvBack:
			if !overMethods(ev.Loop) {
				if id := fmt.Sprint(g.r.P.InstrPos(ev.Instr), ev.Loop); st.has("member") {
					g.loops["+"+id] = map[string]bool{}
					g.r.At(!leavesEarly(ev.Loop), "groups", ev, st, "a member of a group may be left out")
				} else {
					g.loops["-"+id] = map[string]bool{}
				}
				delete(st.mon, "member")
				return
			}
			if !st.has("dead") {
				id := fmt.Sprint(g.r.P.InstrPos(ev.Instr), ev.Loop)
				it := genIter{loop: id, kinds: map[string]int{}, ms: g.models(st), st: st.clone(), pos: g.r.P.InstrPos(ev.Instr)}
				for k, v := range st.mon {
					if strings.HasPrefix(k, "e:") {
						n, _ := constInt(v)
						it.kinds[k[2:]] = int(n)
						if g.loops[id] == nil {
							g.loops[id] = map[string]bool{}
						}
						g.loops[id][k[2:]] = true
					}
				}
				g.iters = append(g.iters, it)
			}
			// the next iteration is about another method
			for f := range st.facts {
				if (genModel{tpNil: true}).eval(strings.TrimPrefix(g.canon(st, f), "!")) >= 0 || strings.Contains(f.String(), shortName(g.rdOpts)+"(") {
					delete(st.facts, f)
				}
			}
			for k := range st.mon {
				if strings.HasPrefix(k, "f:") || strings.HasPrefix(k, "e:") || k == "dead" || k == "line" {
					delete(st.mon, k)
				}
			}
		}
	}, func(x *Exec) { x.Opaque = g.opaque })
}

// overMethods: each iteration of the loop is about another method.
func overMethods(l *loopInfo) bool {
	if l == nil {
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.IndexAddr); ok {
				if p, ok := a.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(types.TypeString(p.Elem(), nil), "descriptorpb.MethodDescriptorProto") {
					return true
				}
			}
		}
	}
	return false
}

var (
	reReg    = regexp.MustCompile(`\.RegisterMethod\("([^"]*)", (.*)\)$`)
	reCall   = regexp.MustCompile(`^return (?:⟨)?client(?:⟩)?\.(\w+)\[(.*?)\]\((\w+), \w+\.\w+, "([^"]*)", (⟨[^⟩]*⟩|nil)(.*)\)$`)
	reReg2   = regexp.MustCompile(`^(return|\w+ :?=|if \w+ :?=)\s+server\.(Register\w*)\(([\w.]+), "([^"]*)", (⟨[^⟩]*⟩|nil), ([\w.]+)\.(⟨[^⟩]*⟩), (.*)\)( *;.*\{)?$`)
	reDereg  = regexp.MustCompile(`\.DeregisterHandler\("([^"]*)", (⟨[^⟩]*⟩|nil)\)$`)
	rePub    = regexp.MustCompile(`^return [\w.]+\.Publish\((\w+), "([^"]*)", (⟨[^⟩]*⟩|nil), (\w+)\)$`)
	reFunc   = regexp.MustCompile(`^func (\([^)]*\) )?(.*?)(\{.*)?$`)
	reName   = regexp.MustCompile(`^Name:\s*"([^"]*)",$`)
	reID     = regexp.MustCompile(`^ID:\s*rand\.New(\w+)ID\(\),$`)
	reCtor   = regexp.MustCompile(`client\.(NewRPCClient\w*)\(`)
	reAll    = regexp.MustCompile(`NewRegisterer\(\w+\.Register(⟨[^⟩]*⟩)Topic, \w+\.Deregister(⟨[^⟩]*⟩)Topic\)`)
	reGroup  = regexp.MustCompile(`^(return )?\w+\.all(⟨[^⟩]*⟩)TopicRegisterers\(\)\.(\w+)\((.*)\)$`)
	reDecl   = regexp.MustCompile(`^(?:func \([^)]*\) )?(?:Subscribe|Publish|Register|Deregister)?(⟨\w+\(m\)⟩)(?:Affinity|Topic)?\(`)
	reGroupF = regexp.MustCompile(`\) (Register|Deregister)All(⟨[^⟩]*⟩)Topics\((.*)\)( error)? \{$`)
)

// line: one line of output, printed under what st knows of the method's options.
func (g *genCheck) line(x *Exec, st *State, ev *Event, l string) {
	if st.has("dead") || l == "" || strings.HasPrefix(l, "//") {
		return
	}
	r := g.r
	ms := g.models(st)
	emit := func(kind string) {
		n := int64(0)
		if v := st.mon["e:"+kind]; v != nil {
			n, _ = constInt(v)
		}
		if n < 3 {
			n++
		}
		st.mon["e:"+kind] = x.TT.intC(n)
		if g.covered[kind] == nil {
			g.covered[kind] = map[genModel]bool{}
		}
		for _, m := range ms {
			g.covered[kind][m] = true
		}
	}
	oneName := func(n string) bool {
		if strings.HasSuffix(n, "(m)⟩") {
			g.name[n] = true
			r.Check(len(g.name) == 1, "one-name", "name of a method", r.P.InstrPos(ev.Instr), "a method is named in different ways: "+strings.Join(keysOf(g.name), ", "), st)
			return true
		}
		return r.At(false, "one-name", ev, st, "printed for the method %s, which is not the name of the method at hand", n)
	}
	topicsOK := func(rule, tok string, m genModel) {
		if tok == "nil" {
			r.At(!m.topics, rule, ev, st, "a method with topics is used without its topics")
			return
		}
		g.cast[tok] = true
		r.At(strings.Contains(tok, "(m)"), rule, ev, st, "the topics used, %s, are not those of the method", tok)
		r.Check(len(g.cast) == 1, "one-topics", "topics of a method", r.P.InstrPos(ev.Instr), "the topics of a method are made in different ways: "+strings.Join(keysOf(g.cast), ", "), st)
	}
	// what must follow a registration in a constructor
	if e := st.mon["expect"]; e != nil {
		n, _ := constInt(e)
		ok, next := true, n+1
		switch n {
		case 0:
			ok = strings.Contains(l, "err != nil {")
		case 1:
			if strings.Contains(l, ".Close(") {
				next = 1
				st.mon["undone"] = x.TT.boolC(true)
			} else {
				ok = strings.HasPrefix(l, "return") && strings.HasSuffix(l, "err")
			}
		}
		if !ok {
			r.At(false, "reg-fails", ev, st, "after a registration that may fail the generated code has %q", l)
			next = 2
		}
		if next == 2 {
			if ok {
				r.At(st.has("undone"), "reg-fails", ev, st, "a server of which a handler could not be registered is not closed")
			}
			delete(st.mon, "expect")
			delete(st.mon, "undone")
		} else {
			st.mon["expect"] = x.TT.intC(next)
		}
	}
	if f := reFunc.FindStringSubmatch(l); f != nil {
		st.mon["fn"] = x.TT.str(l)
		if ctorOf(l) != "?" {
			delete(st.mon, "anystream")
			delete(st.mon, "tested")
		}
	}
	fn := ""
	if t := st.mon["fn"]; t != nil {
		fn, _ = constStr(t)
	}
	switch {
	case reReg.MatchString(l):
		k := reReg.FindStringSubmatch(l)
		oneName(k[1])
		emit("register " + ctorOf(fn))
		args := strings.Split(k[2], ", ")
		for _, m := range ms {
			for i, want := range g.flag {
				w := map[string]bool{"AffinityEnabled": m.typ == 1, "Multi": m.typ == 2, "RequireClaim": m.typ != 2 && (m.tpNil || !m.single), "Queue": m.typ == 0}[want]
				got := -1
				if i < len(args) {
					got = m.eval(strings.Trim(args[i], "⟨⟩"))
				}
				if !r.At(len(args) == 4 && (got == 1) == w && got >= 0, "flags", ev, st, "the %s registers a method of type %s (single server: %v) with %s = %s", ctorOf(fn), typName(m.typ), m.single, want, at(args, i)) {
					return
				}
			}
		}
	case reCall.MatchString(l):
		k := reCall.FindStringSubmatch(l)
		oneName(k[4])
		emit("call")
		for _, m := range ms {
			want, typ, tail := "RequestSingle", "*⟨OUT⟩", `^, (\w+), (\w+)\.\.\.$`
			switch {
			case m.sub && m.typ == 2:
				want, tail = "Join", `^$`
			case m.sub:
				want, tail = "JoinQueue", `^$`
			case m.stream:
				want, typ, tail = "OpenStream", "*⟨IN⟩, *⟨OUT⟩", `^, (\w+)\.\.\.$`
			case m.typ == 2:
				want = "RequestMulti"
			}
			r.At(k[1] == want, "call", ev, st, "a %s is called with %s, not with %s", m, k[1], want)
			r.At(k[2] == typ, "call", ev, st, "a %s is called for the types %s, not %s", m, k[2], typ)
			t := regexp.MustCompile(tail).FindStringSubmatch(k[6])
			if r.At(t != nil, "call", ev, st, "a %s is called with the arguments %q", m, k[6]) && len(t) > 1 {
				r.At(strings.Contains(fn, t[len(t)-1]+" ..."), "call", ev, st, "the options of the call are not passed on: %s", l)
				if len(t) == 3 {
					r.At(strings.Contains(fn, t[1]+" *⟨IN⟩"), "call", ev, st, "the request is not passed on: %s", l)
				}
			}
			r.At(strings.Contains(fn, k[3]+" context.Context"), "call", ev, st, "the context of the call is not passed on: %s", l)
			topicsOK("call", k[5], m)
			g.signature(ev, st, fn, m, true)
		}
	case reReg2.MatchString(l):
		k := reReg2.FindStringSubmatch(l)
		oneName(k[4])
		inCtor := ctorOf(fn) == "server"
		kind, rule := "handler", "handler"
		if !inCtor {
			kind, rule = "topic handler", "topic-handler"
		} else {
			st.mon["expect"] = x.TT.intC(0)
			if k[9] != "" {
				st.mon["expect"] = x.TT.intC(1)
			}
			r.At(!strings.HasPrefix(k[1], "return"), "handler", ev, st, "the constructor returns after one registration")
		}
		emit(kind)
		for _, m := range ms {
			want := map[bool]string{false: "RegisterHandler", true: "RegisterStreamHandler"}[m.stream]
			r.At(k[2] == want, rule, ev, st, "a %s is registered with %s", m, k[2])
			r.At(k[7] == k[4], rule, ev, st, "the method %s is registered with the implementation %s", k[4], k[7])
			aff := "nil"
			if m.typ == 1 {
				aff = k[6] + "." + k[4] + "Affinity"
			}
			r.At(k[8] == aff, rule, ev, st, "a %s is registered with the affinity function %s", m, k[8])
			r.At(!m.sub, rule, ev, st, "a subscription is registered as a handler")
			r.At(m.topics == !inCtor, rule, ev, st, "a %s (topics: %v) is registered in %s", m, m.topics, fn)
			topicsOK(rule, k[5], m)
			if !inCtor {
				r.At(regexp.MustCompile(`\) Register`+regexp.QuoteMeta(k[4])+`Topic\(⟨[^⟩]*\(m\)\)⟩\) error \{$`).MatchString(fn), rule, ev, st, "the registration of %s is in %s", k[4], fn)
			}
		}
	case reDereg.MatchString(l):
		k := reDereg.FindStringSubmatch(l)
		oneName(k[1])
		emit("deregistration")
		for _, m := range ms {
			r.At(!m.sub && m.topics, "deregister", ev, st, "a %s (topics: %v) has a deregistration", m, m.topics)
			topicsOK("deregister", k[2], m)
			r.At(regexp.MustCompile(`\) Deregister`+regexp.QuoteMeta(k[1])+`Topic\(⟨[^⟩]*\(m\)\)⟩\) \{$`).MatchString(fn), "deregister", ev, st, "the deregistration of %s is in %s", k[1], fn)
		}
	case rePub.MatchString(l):
		k := rePub.FindStringSubmatch(l)
		oneName(k[2])
		emit("publication")
		for _, m := range ms {
			r.At(m.sub, "publish", ev, st, "a %s is published", m)
			topicsOK("publish", k[3], m)
			p := ""
			if m.topics {
				p = `, ⟨[^⟩]*\(m\)\)⟩`
			}
			r.At(regexp.MustCompile(`\) Publish`+regexp.QuoteMeta(k[2])+`\(`+k[1]+` context\.Context`+p+`, `+k[4]+` \*⟨OUT⟩\) error \{$`).MatchString(fn), "publish", ev, st, "the publication of %s (topics: %v) is in %s", k[2], m.topics, fn)
		}
	case reName.MatchString(l):
		k := reName.FindStringSubmatch(l)
		g.serv[k[1]] = true
		r.Check(len(g.serv) == 1 && strings.HasSuffix(k[1], "(s)⟩"), "one-name", "name of the service", r.P.InstrPos(ev.Instr), "the client and the server are named "+strings.Join(keysOf(g.serv), ", "), st)
		emit("name " + ctorOf(fn))
	case reID.MatchString(l):
		k := reID.FindStringSubmatch(l)
		r.At(strings.ToLower(k[1]) == ctorOf(fn), "ids", ev, st, "the %s gets a new id of kind %s", ctorOf(fn), k[1])
		emit("id " + ctorOf(fn))
	case reCtor.MatchString(l):
		k := reCtor.FindStringSubmatch(l)
		if st.has("anystream") {
			r.At(k[1] == "NewRPCClientWithStreams", "constructor", ev, st, "the client of a service with streams is made with %s", k[1])
		} else if k[1] != "NewRPCClientWithStreams" {
			r.At(monIs(st, "end") != 0, "constructor", ev, st, "the client is made as if there were no streams before all methods were looked at")
			if st.has("tested") {
				g.loops["@tested"] = map[string]bool{}
			}
		} else {
			g.loops["@tested"] = map[string]bool{}
		}
	case reAll.MatchString(l):
		k := reAll.FindStringSubmatch(l)
		st.mon["member"] = x.TT.boolC(true)
		r.At(k[1] == k[2] && strings.Contains(k[1], "[") && !strings.Contains(k[1], "?slice"), "groups", ev, st, "a group registers %s and deregisters %s", k[1], k[2])
	case reGroup.MatchString(l):
		k := reGroup.FindStringSubmatch(l)
		f := reGroupF.FindStringSubmatch(fn)
		if r.At(f != nil, "groups", ev, st, "the group %s is used in %s", k[2], fn) {
			r.At(f[1] == k[3] && f[2] == k[2], "groups", ev, st, "the method %sAll%sTopics calls %s of the group %s", f[1], f[2], k[3], k[2])
			r.At((k[1] != "") == (f[4] != ""), "groups", ev, st, "the outcome of registering a group is not returned")
			base := func(s string) string {
				s = strings.Trim(s, "⟨⟩")
				if i := strings.Index(s, ".topics"); i >= 0 {
					s = s[:i]
				}
				return s[strings.LastIndex(s, "(topicGroups")+1:]
			}
			r.At(strings.Contains(k[4], ".topics") && strings.Contains(f[3], ".topics") && strings.Contains(base(k[4]), strings.TrimSuffix(strings.Trim(k[2], "⟨⟩"), ".typeName")), "groups", ev, st, "the group is registered for %s, given %s", k[4], f[3])
		}
	case strings.Contains(fn, ") Shutdown() {") && strings.Contains(l, ".Close("):
		r.At(strings.HasSuffix(l, ".Close(false)"), "shutdown-force", ev, st, "Shutdown calls %s", l)
	case strings.Contains(fn, ") Kill() {") && strings.Contains(l, ".Close("):
		r.At(strings.HasSuffix(l, ".Close(true)"), "shutdown-force", ev, st, "Kill calls %s", l)
	default:
		if k := reDecl.FindStringSubmatch(l); k != nil {
			oneName(k[1])
			for _, m := range ms {
				g.signature(ev, st, l, m, strings.HasPrefix(l, "func "))
			}
		}
		r.At(!strings.Contains(l, ".RegisterMethod(") && !strings.Contains(l, ".DeregisterHandler(") && !strings.Contains(l, "server.Register") || strings.Contains(l, "RegistererSlice"), "understood", ev, st, "the printed line %q is not understood", l)
	}
}

func (m genModel) String() string {
	switch {
	case m.sub:
		return "subscription (" + typName(m.typ) + ")"
	case m.stream:
		return "stream (" + typName(m.typ) + ")"
	}
	return "method (" + typName(m.typ) + ")"
}

func typName(t int) string { return []string{"QUEUE", "AFFINITY", "MULTI"}[t] }

func at(a []string, i int) string {
	if i < len(a) {
		return a[i]
	}
	return "nothing"
}

func ctorOf(fn string) string {
	switch {
	case regexp.MustCompile(`^func New.*\(s\)⟩?Client`).MatchString(fn):
		return "client"
	case regexp.MustCompile(`^func New.*\(s\)⟩?Server`).MatchString(fn):
		return "server"
	}
	return "?"
}

// signature: a line that declares or implements a method.
func (g *genCheck) signature(ev *Event, st *State, l string, m genModel, impl bool) {
	n := reDecl.FindStringSubmatch(l)
	if n == nil {
		return
	}
	g.signatureOf(ev, st, strings.TrimPrefix(l, "func "), m, impl, n[1])
}

func (g *genCheck) signatureOf(ev *Event, st *State, l string, m genModel, impl bool, n string) {
	if impl {
		if i := strings.Index(l, ") "); strings.HasPrefix(l, "(") && i > 0 {
			l = l[i+2:]
		}
		if i := strings.LastIndex(l, " {"); i > 0 {
			l = l[:i]
		}
	}
	p := ""
	if m.topics {
		p = `, ⟨[^⟩]*topic[^⟩]*\(m\)\)⟩`
	}
	q := regexp.QuoteMeta(n)
	var want string
	switch {
	case strings.HasPrefix(l, n+"Affinity("):
		want = q + `Affinity\(context\.Context, \*⟨IN⟩\) float32`
		if m.stream {
			want = q + `Affinity\(context\.Context\) float32`
		}
		g.r.At(m.typ == 1, "signature", ev, st, "a %s has an affinity function", m)
	case strings.HasPrefix(l, n+"(psrpc.ServerStream["), strings.HasPrefix(l, n+"(context.Context"):
		want = q + `\(context\.Context, \*⟨IN⟩\) \(\*⟨OUT⟩, error\)`
		if m.stream {
			want = q + `\(psrpc\.ServerStream\[\*⟨OUT⟩, \*⟨IN⟩\]\) error`
		}
	case strings.HasPrefix(l, n+"("), strings.HasPrefix(l, "Subscribe"+n+"("):
		switch {
		case m.sub:
			want = `Subscribe` + q + `\(\w+ context\.Context` + p + `\) \(psrpc\.Subscription\[\*⟨OUT⟩\], error\)`
		case m.stream:
			want = q + `\(\w+ context\.Context` + p + `, \w+ \.\.\.psrpc\.RequestOption\) \(psrpc\.ClientStream\[\*⟨IN⟩, \*⟨OUT⟩\], error\)`
		case m.typ == 2:
			want = q + `\(\w+ context\.Context` + p + `, \w+ \*⟨IN⟩, \w+ \.\.\.psrpc\.RequestOption\) \(<-chan \*psrpc\.Response\[\*⟨OUT⟩\], error\)`
		default:
			want = q + `\(\w+ context\.Context` + p + `, \w+ \*⟨IN⟩, \w+ \.\.\.psrpc\.RequestOption\) \(\*⟨OUT⟩, error\)`
		}
	case strings.HasPrefix(l, "Publish"+n+"("):
		want = `Publish` + q + `\(\w+ context\.Context` + p + `, \w+ \*⟨OUT⟩\) error`
		g.r.At(m.sub, "signature", ev, st, "a %s is declared with a publication", m)
	case strings.HasPrefix(l, "Register"+n+"Topic("), strings.HasPrefix(l, "Deregister"+n+"Topic("):
		want = `(Register` + q + `Topic\(⟨[^⟩]*topic[^⟩]*\(m\)\)⟩\) error|Deregister` + q + `Topic\(⟨[^⟩]*topic[^⟩]*\(m\)\)⟩\))`
		g.r.At(!m.sub && m.topics, "signature", ev, st, "a %s (topics: %v) is declared to be registered for topics", m, m.topics)
	default:
		return
	}
	g.r.At(regexp.MustCompile(`^`+want+`$`).MatchString(l), "signature", ev, st, "a %s (topics: %v) is declared as %s", m, m.topics, l)
}

// after: everything was printed for every combination, and in every iteration.
func (g *genCheck) after() {
	r := g.r
	want := map[string]func(genModel) bool{
		"register client": func(genModel) bool { return true },
		"register server": func(genModel) bool { return true },
		"call":            func(genModel) bool { return true },
		"handler":         func(m genModel) bool { return !m.sub && !m.topics },
		"topic handler":   func(m genModel) bool { return !m.sub && m.topics },
		"deregistration":  func(m genModel) bool { return !m.sub && m.topics },
		"publication":     func(m genModel) bool { return m.sub },
		"name client":     func(genModel) bool { return true },
		"name server":     func(genModel) bool { return true },
		"id client":       func(genModel) bool { return true },
		"id server":       func(genModel) bool { return true },
	}
	kinds := []string{}
	for k := range want {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		miss := ""
		for _, m := range genModels() {
			if want[k](m) && !g.covered[k][m] {
				miss = fmt.Sprintf("a %s (topics: %v, single server: %v) gets no %s", m, m.topics, m.single, k)
			}
		}
		r.Check(miss == "", "covered", k, "-", miss, nil)
	}
	r.Check(g.loops["@tested"] != nil, "constructor", "choice of the constructor", "-", "the client is made without looking whether the service has streams", nil)
	for k := range g.loops {
		if strings.HasPrefix(k, "+") {
			r.Check(g.loops["-"+k[1:]] == nil, "groups", "loop over the members", "-", "an iteration over the members of a group prints none", nil)
		}
	}
	for _, it := range g.iters {
		for k := range g.loops[it.loop] {
			if want[k] == nil || strings.HasPrefix(k, "name") || strings.HasPrefix(k, "id") {
				continue
			}
			bad := ""
			for _, m := range it.ms {
				w := 0
				if want[k](m) {
					w = 1
				}
				if it.kinds[k] != w {
					bad = fmt.Sprintf("%d times a %s for a %s (topics: %v)", it.kinds[k], k, m, m.topics)
				}
			}
			r.Check(bad == "", "every-method", "loop printing the "+k, it.pos, "one iteration over the methods prints "+bad, it.st)
		}
	}
}

// order: a list of topics is printed in its order, each element once.
func (g *genCheck) order() {
	r := g.r
	isTopics := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(s.Elem()) == g.pkg+".topic" || ok && strings.HasSuffix(types.TypeString(s.Elem(), nil), ".topic")
	}
	for _, fn := range r.P.pkgFuncs(g.pkg) {
		rs := fn.Signature.Results()
		if len(fn.Params) == 0 || !isTopics(fn.Params[0].Type()) || rs.Len() != 1 || fn.Parent() != nil || strings.Contains(fn.Name(), "TypeParam") {
			continue
		}
		loops := false
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if reorders(ev) {
				r.At(false, "topic-order", ev, st, "the topics are not printed in their order")
			}
			switch ev.Kind {
			case EvAppend:
				st.mon["app"] = x.TT.boolC(true)
				loops = true
				r.At(appendsIn(st, ev), "topic-order", ev, st, "the topics are not printed in their order")
			case EvBack:
				if st.has("app") || loops {
					r.At(st.has("app") && !leavesEarly(ev.Loop), "topic-order", ev, st, "a topic may be left out")
				}
				delete(st.mon, "app")
			case EvReturn:
				if ev.Name == "root" && strings.Contains(fn.Name(), "Cast") {
					if c, ok := constStr(ev.Results[0]); ok {
						r.At(c == "nil", "no-topics", ev, st, "without topics the generated code passes %q", c)
					}
				}
			}
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool {
				return f.Pkg != r.P.Pkg(g.pkg) && f.Parent() == nil || f.Signature.Recv() != nil && !isTopics(f.Signature.Recv().Type()) || g.writer[f] > 0
			}
		})
	}
	// the topics of a method
	for _, fn := range r.P.pkgFuncs(g.pkg) {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !isTopics(rs.At(0).Type()) || !hasParam(fn, "descriptorpb.MethodDescriptorProto") {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if reorders(ev) {
				r.At(false, "topic-order", ev, st, "the topics of a method are not listed in their order")
			}
			switch ev.Kind {
			case EvAssume:
				if a := g.canon(st, ev.Cond); a == "o.Topics" || a == "!o.Topics" {
					st.mon["topics"] = x.TT.boolC(ev.Truth == (a == "o.Topics"))
				}
			case EvAppend:
				st.mon["app"] = x.TT.boolC(true)
				r.At(appendsIn(st, ev), "topic-order", ev, st, "the topics of a method are not listed in their order")
			case EvBack:
				r.At(st.has("app") && !leavesEarly(ev.Loop), "topic-order", ev, st, "a topic of a method may be left out")
				delete(st.mon, "app")
			case EvReturn:
				if ev.Name != "root" || ev.Truth {
					return
				}
				empty := ev.Results[0].isNil()
				if t := st.mon["topics"]; r.At(t != nil, "no-topics", ev, st, "the topics of a method are listed without looking whether it has any") {
					r.At(empty == t.isFalse(), "no-topics", ev, st, "a method with topics: %v has the topics %v", t.isTrue(), ev.Results[0])
				}
			}
		}, func(x *Exec) { x.Opaque = func(f fnT) bool { return f != fn } })
	}
}

// partOf: a field of a struct value or of what a pointer points to.
func partOf(x *Exec, st *State, v *Term, name string) *Term {
	v = v.strip()
	if v.op == "structval" {
		for i, n := range strings.Split(v.aux, ",") {
			if n == name && i < len(v.args) {
				return v.args[i]
			}
		}
		return nil
	}
	if v.op == "alloc" {
		return x.peek(st, v, name)
	}
	return nil
}

// appendsIn: the append keeps what was there and adds what was made of the element at hand; elements are taken in their order.
func appendsIn(st *State, ev *Event) bool {
	if len(ev.Args) < 2 {
		return false
	}
	if es, ok := elemsOf(st, ev.Args[0]); ok && ev.Args[0].strip().op == "slice" && len(es) > 0 {
		return false // the new one is put in front
	}
	es, ok := elemsOf(st, ev.Args[1])
	if !ok {
		return false
	}
	good := true
	for _, e := range es {
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil {
				return
			}
			if t.op == "iaddr" && t.args[0].op != "alloc" {
				if i, ok := constInt(t.args[1]); ok && i != 0 {
					good = false
				} else if !ok && (t.args[1].op == "len" || strings.Contains(t.args[1].String(), "binop<->") || t.args[1].op == "binop" && t.args[1].aux == "-") {
					good = false
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(e)
	}
	return good
}

// reorders: a call that changes the order of a list or makes it shorter.
func reorders(ev *Event) bool {
	return ev.Kind == EvCall && (strings.HasPrefix(ev.Name, "slices.") || strings.HasPrefix(ev.Name, "sort.") || strings.Contains(ev.Name, "exp/slices.")) &&
		!strings.HasSuffix(ev.Name, "Equal") && !strings.Contains(ev.Name, "Contains") && !strings.HasSuffix(ev.Name, "Clone")
}

func (g *genCheck) readOptions() {
	r := g.r
	fn := g.rdOpts
	if fn == nil {
		r.Fail("anchor", "options", "-", "no function reads the options of a method", nil)
		return
	}
	want := map[string]int64{"Options_AffinityFunc": 1, "Options_Multi": 2, "Options_Queue": 0}
	seen := map[string]bool{}
	defer func() {
		for _, n := range []string{"Options_AffinityFunc", "Options_Multi"} {
			r.Check(seen[n], "legacy-routing", "option "+n, r.P.Pos(fn.Pos()), "the deprecated option "+n+" is not looked at", nil)
		}
	}()
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvAssume:
			c := ev.Cond
			if c.op == "istype" && ev.Truth {
				seen[lastName(strings.TrimPrefix(fmt.Sprint(c.obj), "*"))] = true
				st.mon["is"] = x.TT.str(lastName(strings.TrimPrefix(fmt.Sprint(c.obj), "*")))
			}
			has := c.strip()
			none := (has.op == "call" || has.op == "pcall") && strings.HasSuffix(has.aux, "proto.HasExtension") && !ev.Truth
			if c.op == "eq" && ev.Truth && (c.args[0].isNil() || c.args[1].isNil()) {
				none = none || readsFieldNamed(c.args[0], "Options") != nil || readsFieldNamed(c.args[1], "Options") != nil
			}
			if none {
				st.mon["none"] = x.TT.boolC(true)
			}
		case EvStore:
			f := fieldOfAddr(ev.Addr)
			if f == nil || baseObj(ev.Addr).op == "alloc" {
				return
			}
			v, ok := constInt(ev.Val)
			is := ""
			if t := st.mon["is"]; t != nil {
				is, _ = constStr(t)
			}
			w, known := want[is]
			r.At(f.Name() == "Type" && ok && known && v == w, "legacy-routing", ev, st, "the deprecated option %q is read as %s = %v", is, f.Name(), ev.Val)
			st.mon["set"] = x.TT.boolC(true)
		case EvReturn:
			if ev.Name != "root" || ev.Truth {
				return
			}
			if t := ev.Results[0].strip(); t.op == "alloc" {
				r.At(st.has("none"), "options-read", ev, st, "the options of a method that has them are not read")
				zero := true
				for k, v := range st.heap {
					if k.op == "faddr" && k.args[0].strip() == t {
						zero = zero && (v.isNil() || v.isFalse() || isZeroInt(v) || isConstStr(v, ""))
					}
				}
				r.At(zero, "options-read", ev, st, "a method without options is given some")
			} else {
				for t.op == "assert" || t.op == "extract" {
					t = t.args[0].strip()
				}
				r.At(strings.HasSuffix(t.aux, "proto.GetExtension") && strings.Contains(t.String(), fn.Params[len(fn.Params)-1].Name()+"."), "options-read", ev, st, "the options read are %v", t)
			}
			if st.has("is") {
				is, _ := constStr(st.mon["is"])
				if _, ok := want[is]; ok {
					r.At(st.has("set"), "legacy-routing", ev, st, "the deprecated option %s has no effect", is)
				}
			}
		}
	}, func(x *Exec) { x.Opaque = func(f fnT) bool { return f != fn } })
}

func (g *genCheck) groups() {
	r := g.r
	for _, fn := range r.P.pkgFuncs(g.pkg) {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !strings.HasSuffix(types.TypeString(rs.At(0).Type(), nil), ".topicGroupSlice") {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			inGroup := func(t *Term) bool { // the place the map knows for the group at hand
				for t = t.strip(); t != nil; t = t.strip() {
					switch {
					case len(t.args) > 0 && (t.op == "extract" || t.op == "load" || t.op == "sload" || t.op == "faddr" || t.op == "stale"):
						t = t.args[0]
					case t.op == "iaddr":
						t = t.args[1]
					case t.op == "lookup":
						return g.canon(st, t.args[1]) == "o.TopicParams.Group"
					default:
						return false
					}
				}
				return false
			}
			member := func(v *Term, where string) {
				es, ok := elemsOf(st, v)
				r.At(ok && len(es) == 1 && strings.HasSuffix(g.canon(st, es[0]), "(m)"), "group-members", ev, st, "%s gets the member %v", where, v)
				n := int64(1)
				if t := st.mon["n"]; t != nil {
					n = 2
				}
				st.mon["n"] = x.TT.intC(n)
			}
			switch ev.Kind {
			case EvAssume:
				a, v := g.canon(st, ev.Cond), ev.Truth
				for strings.HasPrefix(a, "!") {
					a, v = a[1:], !v
				}
				switch {
				case (a == "o.TopicParams==nil" || a == "o.TopicParams.Group==" || a == "o.Subscription") && v:
					st.mon["skip"] = x.TT.boolC(true)
				case ev.Cond.op == "lookupok":
					st.mon["known"] = x.TT.boolC(ev.Truth)
				}
			case EvAppend:
				elem := ev.Args[1].typ
				if elem == nil || !isSliceType(elem) {
					return
				}
				switch el := elem.Underlying().(*types.Slice).Elem(); {
				case isString(el):
					member(ev.Args[1], "a known group")
					r.At(monIs(st, "known") == 1, "group-members", ev, st, "a method joins a group that was not found")
				case strings.HasSuffix(types.TypeString(derefType(el), nil), ".topicGroup"):
					es, ok := elemsOf(st, ev.Args[1])
					if !r.At(ok && len(es) == 1, "group-members", ev, st, "the group added is not known") {
						return
					}
					m := partOf(x, st, es[0], "methNames")
					if m == nil {
						m = es[0]
					}
					member(m, "a new group")
					r.At(monIs(st, "known") != 1, "group-members", ev, st, "a group that is known is added again")
					if n := partOf(x, st, es[0], "typeName"); n != nil {
						r.At(strings.Contains(g.canon(st, n), "o.TopicParams.Group"), "group-members", ev, st, "the group is named %s", g.canon(st, n))
					}
					if ts := partOf(x, st, es[0], "topics"); ts != nil {
						r.At(strings.HasSuffix(g.canon(st, ts), "(m)"), "group-members", ev, st, "the topics of the group are %s", g.canon(st, ts))
					}
					if l := st.mon["len"]; l != nil {
						if c, ok := constInt(l); !(ok && c == 0 && ev.Args[0].isNil()) {
							r.At(l.op == "len" && unstale(l.args[0]).strip() == ev.Args[0].strip(), "group-members", ev, st, "the place of a group is remembered as %v", l)
						}
					}
				}
			case EvStore:
				if f := fieldOfAddr(ev.Addr); f != nil && ev.Val.strip().op == "append" && isSliceType(f.Type()) {
					r.At(inGroup(ev.Addr), "group-members", ev, st, "a method joins %v, which is not its group", ev.Addr)
					st.mon["stored"] = x.TT.boolC(true)
				}
			case EvMapUpd:
				if g.canon(st, ev.Key) == "o.TopicParams.Group" {
					st.mon["put"] = x.TT.boolC(true)
					if ev.Val.typ != nil && isIntT(ev.Val.typ) || ev.Val.op == "len" || isZeroInt(ev.Val) {
						st.mon["len"] = ev.Val
					}
				}
			case EvBack:
				if !overMethods(ev.Loop) {
					return
				}
				n := int64(0)
				if t := st.mon["n"]; t != nil {
					n, _ = constInt(t)
				}
				r.At((n == 1) == !st.has("skip") && n < 2, "group-members", ev, st, "a method that is a member of a group: %v, is added %d times", !st.has("skip"), n)
				if n == 1 && monIs(st, "known") != 1 {
					r.At(st.has("put"), "group-members", ev, st, "the group added is not remembered")
				} else if n == 1 {
					r.At(st.has("stored"), "group-members", ev, st, "a method does not join its group")
				}
				for _, k := range []string{"n", "skip", "known", "put", "stored", "len"} {
					delete(st.mon, k)
				}
				for f := range st.facts {
					if strings.Contains(f.String(), shortName(g.rdOpts)+"(") {
						delete(st.facts, f)
					}
				}
			}
		}, func(x *Exec) { x.Opaque = g.opaque })
	}
}
