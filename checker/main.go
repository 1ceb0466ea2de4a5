package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// property is one registered check.
type property struct {
	id   string
	rule string // one-line description of the rule applied, for evidence
	run  func(r *Run)
}

var registry = map[string]*property{}

func register(id, rule string, run func(r *Run)) {
	registry[id] = &property{id: id, rule: rule, run: run}
}

func main() {
	go watchdog(10*time.Minute, 12<<30)
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "verification directory (known findings in, evidence out)")
	prop := flag.String("property", "", "property to decide (comma separated, or all)")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "debug: function to dump")
	how := flag.String("how", "", "debug: s|v|o")
	noev := flag.Bool("noevidence", false, "debug: do not write evidence")
	verbose := flag.Bool("v", false, "list every construct examined")
	flag.Parse()

	t := time.Now()
	p, err := Load(*repo, loadPatterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, "psv: cannot analyse the repository:", err)
		os.Exit(2)
	}
	if *dump != "" {
		debugDump(p, *dump, *how)
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		pr := registry[id]
		if pr == nil {
			fmt.Fprintf(os.Stderr, "psv: unknown property %q\n", id)
			os.Exit(2)
		}
		r := newRun(p, pr, *tier, *verif)
		r.start = t
		r.execute()
		if len(ids) > 1 {
			r.start = time.Now()
		}
		if r.report(*noev, *verbose) {
			code = 1
		}
	}
	os.Exit(code)
}

func debugDump(p *Program, name, how string) {
	for _, f := range p.Funcs {
		if shortName(f) != name {
			continue
		}
		if how == "" {
			f.WriteTo(os.Stdout)
			continue
		}
		t := time.Now()
		x := NewExec(p, monFunc(func(x *Exec, st *State, ev *Event) {
			if how == "v" {
				fmt.Println(evNames[ev.Kind], p.InstrPos(ev.Instr), ev.Name, ev.Args, ev.Addr, ev.Key, ev.Val, ev.Cond, ev.Truth, ev.Results)
			}
		}))
		outs := x.Root(f, nil)
		fmt.Println(len(outs), x.Stats(), time.Since(t))
		for _, o := range outs {
			if how == "v" || how == "o" {
				fmt.Println("OUT", o.st.panic, o.res, "facts:")
				for f, v := range o.st.facts {
					fmt.Println("    ", v, f)
				}
			}
		}
	}
}

// Run is one decision of one property.
type Run struct {
	P     *Program
	prop  *property
	tier  string
	verif string
	start time.Time

	obl    map[string]map[string]int // rule -> construct -> times examined
	viol   []*violation
	violK  map[string]*violation
	notes  []string
	roots  []string
	funcs  map[string]bool
	states int
	inl    int
	evs    map[EvKind]int
	trunc  map[string]int
	incons []string
	group  map[string]bool
}

type violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path,omitempty"`
	Known     string   `json:"known_finding,omitempty"`
}

func newRun(p *Program, pr *property, tier, verif string) *Run {
	return &Run{P: p, prop: pr, tier: tier, verif: verif, obl: map[string]map[string]int{}, violK: map[string]*violation{}, funcs: map[string]bool{}, evs: map[EvKind]int{}, trunc: map[string]int{}}
}

func (r *Run) execute() {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("PSV_PANIC") != "" {
				panic(e)
			}
			r.incons = append(r.incons, fmt.Sprint("internal error: ", e))
			r.Fail("engine", "internal", "-", fmt.Sprint("the analysis failed: ", e), nil)
		}
	}()
	r.prop.run(r)
}

// OK records that rule was examined and held at construct.
func (r *Run) OK(rule, construct string) {
	m := r.obl[rule]
	if m == nil {
		m = map[string]int{}
		r.obl[rule] = m
	}
	m[construct]++
}

// Fail records a violation of rule at construct.
func (r *Run) Fail(rule, construct, pos, msg string, st *State) {
	r.OK(rule, construct)
	k := rule + "|" + construct
	if r.violK[k] != nil {
		return
	}
	v := &violation{Rule: rule, Construct: construct, Pos: pos, Msg: msg}
	if st != nil {
		v.Trace = traceLines(st, 40)
	}
	r.violK[k] = v
	r.viol = append(r.viol, v)
}

// Check records one examined obligation and fails it unless ok.
func (r *Run) Check(ok bool, rule, construct, pos, msg string, st *State) bool {
	if ok {
		r.OK(rule, construct)
	} else {
		r.Fail(rule, construct, pos, msg, st)
	}
	return ok
}

// At is Check located at an event.
func (r *Run) At(ok bool, rule string, ev *Event, st *State, msg string, args ...any) bool {
	return r.Check(ok, rule, evConstruct(ev), r.P.InstrPos(ev.Instr), fmt.Sprintf(msg, args...), st)
}

func evConstruct(ev *Event) string {
	s := "?"
	if ev.Fn != nil {
		s = shortName(ev.Fn)
	}
	n := ev.Name
	if ev.Kind != EvCall && ev.Kind != EvRet {
		n = evNames[ev.Kind] + " " + n
	}
	return s + ": " + strings.TrimSpace(n)
}

// Min demands that a rule found at least n constructs to examine: a rule that finds nothing decides nothing.
func (r *Run) Min(rule string, n int) {
	if len(r.obl[rule]) < n && len(r.incons) == 0 {
		r.Fail("coverage", rule, "-", fmt.Sprintf("rule %s examined %d constructs, expected at least %d: the code the rule is about was not found", rule, len(r.obl[rule]), n), nil)
	}
}

// absorb adds an engine run's statistics.
func (r *Run) absorb(x *Exec, root string) {
	r.roots = append(r.roots, root)
	for f := range x.funcsSeen {
		r.funcs[shortName(f)] = true
	}
	r.states += x.visited
	r.inl += x.inlined
	for k, n := range x.events {
		r.evs[k] += n
	}
	for k, n := range x.Trunc {
		r.trunc[k] += n
	}
	if x.Exhausted {
		r.incons = append(r.incons, "state budget exhausted in "+root)
	}
}

type knownFinding struct{ prop, key, desc string }

func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=P14 key=<rule>|<construct> :: description
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		var k knownFinding
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "property="), " key=", 2)
		if len(parts) != 2 {
			continue
		}
		k.prop = strings.TrimSpace(parts[0])
		kd := strings.SplitN(parts[1], " :: ", 2)
		k.key = strings.TrimSpace(kd[0])
		if len(kd) == 2 {
			k.desc = kd[1]
		}
		out = append(out, k)
	}
	return out
}

func (r *Run) report(noev, verbose bool) bool {
	known := loadKnown(filepath.Join(r.verif, "known_findings.txt"))
	var open []*violation
	for _, v := range r.viol {
		hit := false
		for _, k := range known {
			if k.prop == r.prop.id && k.key == v.Rule+"|"+v.Construct {
				v.Known = k.desc
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.prop.id, k.desc, v.Pos)
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	nobl, ninst := 0, 0
	rules := map[string]any{}
	var names []string
	for rule := range r.obl {
		names = append(names, rule)
	}
	sort.Strings(names)
	for _, rule := range names {
		m := r.obl[rule]
		nobl += len(m)
		var cs []string
		for c, n := range m {
			ninst += n
			cs = append(cs, fmt.Sprintf("%s (%d)", c, n))
		}
		sort.Strings(cs)
		rules[rule] = cs
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	evd := filepath.Join(r.verif, "evidence")
	replay := filepath.Join(evd, r.prop.id+".violations.json")
	if !noev {
		_ = os.MkdirAll(evd, 0o755)
		nev := 0
		kinds := map[string]int{}
		for k, n := range r.evs {
			nev += n
			kinds[evNames[k]] = n
		}
		var samples []any
		for i, rule := range names {
			if i >= 8 {
				break
			}
			cs := rules[rule].([]string)
			if len(cs) > 0 {
				samples = append(samples, map[string]string{"rule": rule, "construct": cs[0]})
			}
		}
		cov := map[string]any{
			"explanation": fmt.Sprintf("Static analysis of the current source, no execution. Rule: %s. The analysis examined %d constructs under %d rules (%d times over all abstract paths).",
				r.prop.rule, nobl, len(names), ninst),
			"rule":                r.prop.rule,
			"roots":               r.roots,
			"functions_analysed":  len(fs),
			"functions":           fs,
			"abstract_states":     r.states,
			"calls_inlined":       r.inl,
			"events":              nev,
			"events_by_kind":      kinds,
			"rules":               rules,
			"obligations":         nobl,
			"obligations_checked": ninst,
			"limits":              map[string]any{"truncated": r.trunc, "inconclusive": r.incons},
			"repository":          r.P.Dir,
			"packages":            len(r.P.Pkgs),
			"functions_loaded":    len(r.P.Funcs),
		}
		if len(r.notes) > 0 {
			cov["notes"] = r.notes
		}
		if samples != nil {
			cov["samples"] = samples
		}
		seed := 0
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		ev := map[string]any{
			"property": r.prop.id, "tier": r.tier, "seed": seed, "level": "other",
			"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(open),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evd, r.prop.id+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "psv:", err)
		}
		if len(open) > 0 {
			b, _ := json.MarshalIndent(open, "", " ")
			_ = os.WriteFile(replay, b, 0o644)
		} else {
			_ = os.Remove(replay)
		}
	}
	if verbose {
		for _, rule := range names {
			fmt.Printf("  %s\n", rule)
			for _, c := range rules[rule].([]string) {
				fmt.Printf("      %s\n", c)
			}
		}
		if len(r.trunc) > 0 {
			fmt.Println("  truncated:", r.trunc)
		}
	}
	for _, v := range open {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop.id, replay)
		fmt.Printf("  rule %s: %s\n  at %s in %s\n", v.Rule, v.Msg, v.Pos, v.Construct)
		for _, l := range v.Trace {
			fmt.Println("      " + l)
		}
	}
	if len(open) == 0 {
		fmt.Printf("%s: holds (%d constructs, %d rules, %d functions, %d abstract states, %.1fs)", r.prop.id, nobl, len(names), len(fs), r.states, time.Since(r.start).Seconds())
		if len(r.incons) > 0 {
			fmt.Printf(" — not fully explored: %s", strings.Join(r.incons, "; "))
		}
		fmt.Println()
	}
	return len(open) > 0
}
