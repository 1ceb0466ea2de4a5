package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", "path-sensitive dataflow over SSA: on every path of a call the loop over the request hooks is completed exactly once, in order, before anything is sent, with the call's own context, request and info; the loop over the response hooks is completed exactly once after it with the very result and error the caller gets (unary), or the receiver gets (multi, once per response), or once with the error if sending failed", p24)
}

// hookOf: the event calls an element of a list of hooks.
func hookOf(ev *Event) (kind string, base, idx *Term) {
	if ev.FnTerm == nil || ev.Callee != nil {
		return "", nil, nil
	}
	base, idx = elemIdx(ev.FnTerm)
	if base == nil {
		return "", nil, nil
	}
	return hookList(base), base, idx
}

// hookList: what kind of hooks the list holds.
func hookList(base *Term) string {
	for base.op == "slice" {
		base = base.args[0].strip()
	}
	typ := base.typ
	if f := fieldOfLoad(base); f != nil {
		typ = f.Type()
	} else if base.op != "phi" {
		return ""
	}
	if typ == nil {
		return ""
	}
	s, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	sig, ok := s.Elem().Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 0 || sig.Params().Len() < 3 || !isRPCInfo(sig.Params().At(2).Type()) {
		return ""
	}
	switch sig.Params().Len() {
	case 3:
		return "rq"
	case 5:
		return "rs"
	}
	return ""
}

// fwdLoop follows a loop over a list from its first to its last element; k is where the monitor keeps its state.
// It reports violations of the order, and whether the list has just been completed.
func fwdLoop(r *Run, x *Exec, rule, what, k string, st *State, ev *Event, isList func(*Term) bool) {
	done := func() {
		st.mon[k+"done"] = x.TT.boolC(true)
		delete(st.mon, k+"idx")
	}
	switch ev.Kind {
	case EvAssume:
		if ev.Cond.op != "lt" {
			return
		}
		a, b := linOf(ev.Cond.args[0]), linOf(ev.Cond.args[1])
		var ln *Term
		for t := range b.m {
			if t.op == "len" && isList(t.args[0].strip()) {
				ln = t
			}
		}
		empty := false
		for t := range a.m {
			if t.op == "len" && isList(t.args[0].strip()) && ev.Truth && len(b.m) == 0 && b.c <= 1 {
				empty = true // len < 1
			}
		}
		if empty {
			done()
			return
		}
		if ln == nil || ev.Truth || st.has(k+"done") {
			return
		}
		// the loop ends: a >= len
		if idx := unstale(st.mon[k+"idx"]); idx != nil {
			d := linOf(idx).minus(a)
			if len(d.m) == 0 && len(a.m) > 0 {
				r.At(b.c >= 0 && d.c >= 0, rule, ev, st, "the last of the %s may be left out", what)
			}
			done()
		} else if len(a.m) == 0 && a.c+(-b.c) <= 0 {
			done() // the list is empty
		}
	case EvBack:
		idx := st.mon[k+"idx"]
		if idx == nil || !ev.Loop.body[ev.Instr.Block()] || st.has(k+"done") {
			return
		}
		if !st.has(k + "it") {
			return
		}
		step, known := int64(0), false
		for a, n := range linOf(idx).m {
			if ph, ok := a.obj.(*ssa.Phi); ok && a.op == "phi" && ev.Phis[ph] != nil {
				if d := linOf(ev.Phis[ph]).minus(linOf(a)); len(d.m) == 0 {
					step, known = step+n*d.c, true
				}
			}
		}
		if known {
			r.At(step == 1, rule, ev, st, "the %s do not run one after the other in order", what)
		}
		delete(st.mon, k+"it")
	}
}

func p24(r *Run) {
	isBus := func(ev *Event) bool {
		p := publishOf(ev)
		return p != nil && p.kind == "Request"
	}
	hooks := func(x *Exec, st *State, ev *Event, g string) (kind string) {
		for _, k := range []string{"rq", "rs"} {
			what := "request hooks"
			if k == "rs" {
				what = "response hooks"
			}
			fwdLoop(r, x, "order", what, g+k, st, ev, func(t *Term) bool { return hookList(t) == k })
		}
		if ev.Kind != EvCall {
			return ""
		}
		kind, _, idx := hookOf(ev)
		if kind == "" {
			return ""
		}
		what := map[string]string{"rq": "request hook", "rs": "response hook"}[kind]
		r.At(!st.has(g+kind+"done"), "once", ev, st, "a %s runs again after all of them have run", what)
		r.At(!st.has(g+kind+"it"), "once", ev, st, "a %s runs twice", what)
		if st.mon[g+kind+"idx"] == nil {
			if l := linOf(idx); len(l.m) == 0 {
				r.At(l.c == 0, "order", ev, st, "the %ss start with number %d", what, l.c)
			}
		}
		st.mon[g+kind+"idx"] = idx
		st.mon[g+kind+"it"] = x.TT.boolC(true)
		r.At(isParam(ev.Args[0]) || isParam(ctxRoot(ev.Args[0])), "arguments", ev, st, "the %s gets the context %v, not the caller's", what, ev.Args[0])
		r.At(isParam(ev.Args[1]), "arguments", ev, st, "the %s gets %v, not the request", what, ev.Args[1])
		return kind
	}
	opt := func(x *Exec) { x.Precise = false }

	r.exec("pkg/client.RequestSingle", func(x *Exec, st *State, ev *Event) {
		if isClosedAssume(ev) {
			st.mon["closed"] = x.TT.boolC(true)
		}
		switch hooks(x, st, ev, "") {
		case "rs":
			r.At(st.has("rqdone"), "order", ev, st, "a response hook runs before the request hooks")
			st.mon["rv"], st.mon["re"] = ev.Args[3].strip(), ev.Args[4].strip()
		case "rq":
			r.At(!st.has("sent"), "order", ev, st, "a request hook runs after the request was sent")
		}
		switch {
		case ev.Kind == EvCall && isBus(ev) || ev.Kind == EvRet && isBus(ev):
			r.At(st.has("rqdone"), "request-hooks", ev, st, "the request is sent before every request hook has run")
			r.At(!st.has("rsdone") && !st.has("rsit"), "order", ev, st, "a response hook runs before the request is sent")
			st.mon["sent"] = x.TT.boolC(true)
		case ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && !st.has("closed"):
			r.At(st.has("rqdone"), "request-hooks", ev, st, "a call can end without its request hooks having run")
			r.At(st.has("rsdone"), "response-hooks", ev, st, "a call can end without its response hooks having run")
			if rv := st.mon["rv"]; rv != nil && len(ev.Results) == 2 {
				r.At(sameVal(rv, ev.Results[0]) && sameVal(st.mon["re"], ev.Results[1]), "final-result", ev, st, "the response hooks got (%v, %v), the caller gets (%v, %v)", rv, st.mon["re"], ev.Results[0], ev.Results[1])
			}
		}
	}, opt)

	r.exec("pkg/client.RequestMulti", func(x *Exec, st *State, ev *Event) {
		g := ""
		if st.has("#go") {
			g = "g"
		}
		if isClosedAssume(ev) {
			st.mon["closed"] = x.TT.boolC(true)
		}
		switch hooks(x, st, ev, g) {
		case "rs":
			st.mon[g+"rv"], st.mon[g+"re"] = ev.Args[3].strip(), ev.Args[4].strip()
			if g != "" {
				r.At(st.has("got"), "per-response", ev, st, "a response hook runs although no response was received")
			}
		case "rq":
			r.At(g == "" && !st.has("sent"), "order", ev, st, "a request hook runs after the request was sent")
		}
		switch {
		case ev.Kind == EvGo:
			for _, k := range []string{"grqdone", "grsdone", "grsidx", "grsit", "grv", "gre", "got"} {
				delete(st.mon, k)
			}
		case (ev.Kind == EvSelect || ev.Kind == EvRecv) && g != "" && (ev.Kind == EvRecv || ev.Sel == nil || selectsMsg(ev.Sel, "Response")):
			if st.has("got") {
				r.At(st.has("grsdone"), "per-response", ev, st, "a response is received without the response hooks having run for it")
			}
			delete(st.mon, "got")
			if ev.Val != nil && isMsg(ev.Val, "Response") {
				for _, k := range []string{"grsdone", "grsidx", "grsit", "grv", "gre"} {
					delete(st.mon, k)
				}
				st.mon["got"] = x.TT.boolC(true)
			}
		case ev.Kind == EvReturn && g != "" && ev.Name == "go" && !ev.Truth && st.has("got"):
			r.At(st.has("grsdone"), "per-response", ev, st, "a response is received without the response hooks having run for it")
		case (ev.Kind == EvCall || ev.Kind == EvEnter) && g != "" && lastName(ev.Name) == "Recv" && len(ev.Args) == 3 && st.has("got"):
			if rv := st.mon["grv"]; rv != nil {
				r.At(sameVal(rv, ev.Args[1]) && sameVal(st.mon["gre"], ev.Args[2]), "final-result", ev, st, "the response hooks got (%v, %v), the receiver gets (%v, %v)", rv, st.mon["gre"], ev.Args[1], ev.Args[2])
			}
		case ev.Kind == EvCall && isBus(ev) || ev.Kind == EvRet && isBus(ev):
			if g == "" {
				r.At(st.has("rqdone"), "request-hooks", ev, st, "the request is sent before every request hook has run")
				st.mon["sent"] = x.TT.boolC(true)
			}
		case ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && !st.has("closed"):
			r.At(st.has("rqdone"), "request-hooks", ev, st, "a multi request can end without its request hooks having run")
			err := ev.Results[1]
			if x.isNilT(st, err) == 1 {
				r.At(!st.has("rsdone") || st.mon["rv"] == nil, "send-failed", ev, st, "the response hooks run although the request was sent")
				return
			}
			if r.At(st.has("rsdone"), "send-failed", ev, st, "sending can fail without the response hooks having run") && st.mon["rv"] != nil {
				r.At(st.mon["rv"].isNil() && sameVal(st.mon["re"], err), "final-result", ev, st, "the response hooks got (%v, %v), the caller gets the error %v", st.mon["rv"], st.mon["re"], err)
			}
		}
	}, opt)
	for rule, n := range map[string]int{"once": 2, "arguments": 2, "request-hooks": 2, "response-hooks": 1, "final-result": 2, "per-response": 1, "send-failed": 1} {
		r.Min(rule, n)
	}
}

func isClosedAssume(ev *Event) bool {
	return ev.Kind == EvAssume && ev.Truth && (ev.Cond.op == "call" || ev.Cond.op == "pcall") && lastName(ev.Cond.aux) == "IsBroken"
}

// sameVal: two values that are the same but for being kept in an interface.
func sameVal(a, b *Term) bool {
	a, b = a.strip(), b.strip()
	for a != nil && a.op == "iface" {
		a = a.args[0].strip()
	}
	for b != nil && b.op == "iface" {
		b = b.args[0].strip()
	}
	return a == b || a != nil && b != nil && (a.isNil() || a.op == "zero") && (b.isNil() || b.op == "zero")
}
