package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value: where a value comes from, not what it is at run time.
// Two program points holding the same Term hold the same value on that abstract path.
type Term struct {
	op   string
	aux  string
	obj  any
	typ  types.Type
	args []*Term
	id   int
	key  string
	site *Site   // creation site of a volatile (re-creatable) term
	deps []*Term // volatile terms contained (including itself), sorted by id
}

// Site is an instruction in a calling context.
type Site struct {
	instr ssa.Instruction
	ctx   *Ctx
	sub   string
}

// Ctx is an interned inlining context (call string).
type Ctx struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	id     int
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(6)
}

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	j := strings.Join(as, ", ")
	switch t.op {
	case "const":
		return t.aux
	case "param", "free", "global", "func":
		return t.aux
	case "faddr":
		return "&" + strings.TrimPrefix(j, "&") + "." + t.aux
	case "field":
		return j + "." + t.aux
	case "sload", "load":
		if t.op == "sload" && len(t.args) == 1 && t.args[0].op == "faddr" {
			return strings.TrimPrefix(t.args[0].str(d), "&")
		}
		return "*" + j
	case "call", "pcall":
		return t.aux + "(" + j + ")"
	case "extract":
		return j + "#" + t.aux
	case "iface", "conv":
		return j
	}
	if t.aux != "" {
		return t.op + "<" + t.aux + ">(" + j + ")"
	}
	return t.op + "(" + j + ")"
}

type termTable struct {
	m    map[string]*Term
	n    int
	ctxs map[string]*Ctx
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}, ctxs: map[string]*Ctx{}} }

func (tt *termTable) mk(op, aux string, obj any, typ types.Type, site *Site, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if site != nil {
		fmt.Fprintf(&b, "@%p/%d/%s", site.instr, site.ctx.id, site.sub)
	}
	switch o := obj.(type) {
	case *ssa.Function:
		fmt.Fprintf(&b, "f%p", o)
	case *types.Var:
		fmt.Fprintf(&b, "v%p", o)
	case types.Type:
		b.WriteString("T" + o.String())
	case ssa.Value:
		fmt.Fprintf(&b, "s%p", o)
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, aux: aux, obj: obj, typ: typ, args: args, id: tt.n, key: k, site: site}
	seen := map[int]*Term{}
	for _, a := range args {
		for _, d := range a.deps {
			seen[d.id] = d
		}
	}
	if site != nil {
		seen[t.id] = t
	}
	for _, d := range seen {
		t.deps = append(t.deps, d)
	}
	sort.Slice(t.deps, func(i, j int) bool { return t.deps[i].id < t.deps[j].id })
	tt.m[k] = t
	return t
}

func (tt *termTable) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	pid, d := 0, 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	k := fmt.Sprintf("%d/%p/%p", pid, call, fn)
	if c, ok := tt.ctxs[k]; ok {
		return c
	}
	c := &Ctx{parent: parent, call: call, fn: fn, depth: d, id: len(tt.ctxs) + 1}
	tt.ctxs[k] = c
	return c
}

// within reports whether c is anc or a descendant of anc.
func (c *Ctx) within(anc *Ctx) bool {
	for x := c; x != nil; x = x.parent {
		if x == anc {
			return true
		}
	}
	return false
}

func (c *Ctx) hasFn(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func (t *Term) mentions(v *Term) bool {
	for _, d := range t.deps {
		if d == v {
			return true
		}
	}
	return false
}

// contains reports whether sub occurs anywhere in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.args {
		if a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(f) {
			return true
		}
	}
	return false
}

// strip removes representation-only wrappers.
func (t *Term) strip() *Term {
	for t != nil && (t.op == "iface" || t.op == "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func (t *Term) isConst() bool { return t != nil && t.op == "const" }
func (t *Term) isNil() bool   { return t != nil && t.op == "const" && t.aux == "nil" }
func (t *Term) isTrue() bool  { return t != nil && t.op == "const" && t.aux == "true" }
func (t *Term) isFalse() bool { return t != nil && t.op == "const" && t.aux == "false" }

func (tt *termTable) constVal(v constant.Value, typ types.Type) *Term {
	return tt.mk("const", v.ExactString(), v, nil, nil)
}
func (tt *termTable) boolC(b bool) *Term { return tt.constVal(constant.MakeBool(b), nil) }
func (tt *termTable) intC(i int64) *Term { return tt.constVal(constant.MakeInt64(i), nil) }
func (tt *termTable) nilC() *Term        { return tt.mk("const", "nil", nil, nil, nil) }
func (tt *termTable) str(s string) *Term { return tt.constVal(constant.MakeString(s), nil) }

func (t *Term) constant() constant.Value {
	if t == nil || t.op != "const" {
		return nil
	}
	v, _ := t.obj.(constant.Value)
	return v
}

// nonNil: terms known to be non-nil.
func (t *Term) nonNil() bool {
	switch t.op {
	case "alloc", "closure", "func", "mkchan", "mkmap", "iface", "faddr", "iaddr", "global", "mkslice", "structval", "ctxnew", "recovered":
		return true
	case "conv":
		return t.args[0].nonNil()
	case "pcall", "call":
		switch t.aux {
		case "fmt.Errorf", "errors.New", "context.Background", "time.NewTimer", "psrpc.NewError", "psrpc.NewErrorf", "psrpc.NewErrorFromResponse":
			return true
		}
	}
	return false
}
