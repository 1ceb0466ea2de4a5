package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "case analysis of the server selection loop over abstract paths: for each received claim the facts about minimum, maximum, accept-first and the best affinity so far must force exactly the documented reaction (return, record, ignore, start the short-circuit timer once); the result after the timeout is classified by the same facts", p05)
}

func p05(r *Run) {
	p43Predefined(r, "ErrNoResponse", "ErrRequestCanceled")
	fn := r.P.rootFn("pkg/client.selectServer")
	if fn == nil {
		// find the function that takes claims and returns the chosen server
		for _, f := range r.P.Funcs {
			if f.Pkg != nil && f.Signature.Results().Len() == 2 && f.Parent() == nil {
				for i := 0; i < f.Signature.Params().Len(); i++ {
					if namedOf(f.Signature.Params().At(i).Type()) == "psrpc.SelectionOpts" {
						fn = f
					}
				}
			}
		}
	}
	if fn == nil {
		r.Fail("anchor", "selectServer", "-", "the server selection function does not exist", nil)
		return
	}
	tri := func(t *Term) int {
		switch {
		case t == nil:
			return -1
		case t.isTrue():
			return 1
		case t.isFalse():
			return 0
		}
		return -1
	}
	r.execFn("selectServer", fn, func(x *Exec, st *State, ev *Event) {
		m := func(k string) int { return tri(st.mon[k]) }
		set := func(k string, b bool) { st.mon[k] = x.TT.boolC(b) }
		claim := st.mon["claim"]
		isF := func(t *Term, f string) bool { return claim != nil && fieldRead(t, "internal.ClaimRequest", f) == claim }
		acceptable := func() int {
			switch {
			case m("min0") == 0 || m("minlt") == 0:
				return 1
			case m("min0") == 1 && m("minlt") == 1:
				return 0
			}
			return -1
		}
		switch ev.Kind {
		case EvBlock:
			if ev.Sel.Blocking {
				r.At(m("aff0") == 0 || st.has("afftimer"), "affinity-timer", ev, st, "selection waits although the affinity timeout may be set and its timer was not started")
			}
		case EvSelect:
			if !ev.Sel.Blocking {
				return
			}
			for _, k := range []string{"claim", "min0", "minlt", "acc", "max0", "maxlt", "better", "sc0", "appended", "stored", "storedA", "res", "resbad", "reserr", "done", "canceled", "sidset"} {
				delete(st.mon, k)
			}
			if ev.Case < 0 {
				return
			}
			switch {
			case doneOf(ev.Addr) != nil:
				st.mon["done"] = doneOf(ev.Addr)
			case isMsg(ev.Val, "ClaimRequest"):
				st.mon["claim"] = ev.Val
			case isMsg(ev.Val, "Response"):
				st.mon["res"] = ev.Val
			}
		case EvCall, EvEnter:
			if strings.HasPrefix(ev.Name, "time.") || strings.HasPrefix(ev.Name, "context.With") {
				for _, a := range ev.Args {
					if readsFieldNamed(a, "AffinityTimeout") != nil {
						set("afftimer", true)
					}
					if readsFieldNamed(a, "ShortCircuitTimeout") != nil {
						r.At(!st.has("sctimer"), "short-circuit-once", ev, st, "the short-circuit timer may be started more than once")
						r.At(claim != nil && acceptable() == 1, "short-circuit-claim", ev, st, "the short-circuit timer is started without an acceptable claim")
						set("sctimer", true)
					}
				}
			}
		case EvAppend:
			set("appended", true)
			if len(ev.Args) > 0 {
				switch b := ev.Args[0].strip(); b.op {
				case "phi", "loopcell", "load", "sload", "stale", "havoc", "append":
				default:
					r.At(b.isNil(), "candidates", ev, st, "an acceptable claim is not added to those received before it but to %v", b)
				}
			}
		case EvStore:
			switch {
			case isF(ev.Val, "ServerId"):
				set("stored", true)
			case isF(ev.Val, "Affinity"):
				set("storedA", true)
			case claim != nil && ev.Val.strip() == claim:
				set("stored", true)
				set("storedA", true)
			}
		case EvAssume:
			c := ev.Cond
			if readsFieldNamed(c, "AcceptFirstAvailable") != nil {
				set("acc", ev.Truth)
			}
			if c.op == "lt" {
				a, b := c.args[0], c.args[1]
				zero := func(t *Term) bool { return t.isConst() && t.aux == "0" }
				for f, k := range map[string]string{"MinimumAffinity": "min0", "MaximumAffinity": "max0", "ShortCircuitTimeout": "sc0", "AffinityTimeout": "aff0"} {
					if zero(a) && readsFieldNamed(b, f) != nil {
						set(k, ev.Truth)
					}
				}
				switch {
				case isF(a, "Affinity") && readsFieldNamed(b, "MinimumAffinity") != nil:
					set("minlt", ev.Truth)
				case isF(a, "Affinity") && readsFieldNamed(b, "MaximumAffinity") != nil:
					set("maxlt", ev.Truth)
				case isF(b, "Affinity") && readsFieldNamed(a, "MaximumAffinity") != nil:
					if ev.Truth {
						set("maxlt", false) // above the maximum
					}
				case isF(b, "Affinity") && readsFieldNamed(a, "MinimumAffinity") != nil:
					if ev.Truth {
						set("minlt", false)
					}
				case isF(b, "Affinity"):
					set("better", ev.Truth)
				case isF(a, "Affinity"):
					set("better", !ev.Truth)
				}
			}
			if c.op == "eq" {
				switch {
				case readsFieldNamed(c.args[0], "SelectionFunc") != nil && c.args[1].isNil():
					set("selnil", ev.Truth)
				case globalNamed(c, "Canceled"):
					set("canceled", ev.Truth)
				case c.args[1].isNil() && isErrType(c.args[0]):
					set("reserr", !ev.Truth)
					st.mon["reserrv"] = c.args[0]
				case isConstStr(c.args[1], ""):
					if o := st.mon["res"]; o != nil && (fieldRead(c.args[0], "internal.Response", "Error") == o || fieldRead(c.args[0], "internal.Response", "Code") == o) {
						if !ev.Truth {
							set("resbad", true)
						}
					} else {
						set("sidset", !ev.Truth)
						st.mon["sidv"] = c.args[0]
					}
				}
			}
			if strings.HasPrefix(c.aux, "errors.Is") && globalNamed(c, "Canceled") {
				set("canceled", ev.Truth)
			}
		case EvBack:
			if !loopSelects(ev) {
				return
			}
			if m("resbad") == 1 {
				kept := false
				for ph, v := range ev.Phis {
					if isErrIface(ph.Type()) && callOf(v, "psrpc.NewErrorFromResponse") != nil {
						kept = true
					}
				}
				r.At(kept || !hasErrPhi(ev), "server-error-kept", ev, st, "an error reported by a server during selection is not kept")
			}
			if claim == nil {
				return
			}
			upd, best := st.has("stored"), st.has("storedA")
			badS, badF := false, false
			for ph, v := range ev.Phis {
				if v.strip() == claim {
					upd, best = true, true
				}
				b, ok := ph.Type().Underlying().(*types.Basic)
				if !ok {
					continue
				}
				if b.Info()&types.IsString != 0 {
					if isF(v, "ServerId") {
						upd = true
					} else if v.op != "phi" && !v.isConst() && v.op != "stale" {
						badS = true
					}
				}
				if b.Info()&types.IsFloat != 0 {
					if isF(v, "Affinity") {
						best = true
					} else if v.op != "phi" && !v.isConst() && v.op != "stale" {
						badF = true
					}
				}
			}
			if !upd && !best && !st.has("appended") {
				// dropped: only a claim known to be below the minimum, or one that is not better than the best so far
				known := acceptable() == 0 || acceptable() == 1 && m("better") == 0 && m("selnil") != 0
				r.At(known, "claim-kept", ev, st, "a claim that may reach the minimum affinity is dropped")
			}
			r.At(!badS && !badF, "best-recorded", ev, st, "the recorded best claim takes a value that is not from the claim received")
			if acceptable() != 1 {
				r.At(!upd && !best && !st.has("appended"), "minimum-respected", ev, st, "a claim that may be below the minimum affinity is kept as a candidate")
				return
			}
			r.At(m("acc") == 0 && (m("max0") == 0 || m("maxlt") == 1), "immediate", ev, st, "an acceptable claim is not returned at once although accept-first may be set or the maximum affinity reached")
			if m("selnil") == 0 {
				r.At(st.has("appended"), "candidates", ev, st, "an acceptable claim is not added to those given to the selection function")
			} else {
				switch m("better") {
				case 1:
					r.At(upd && best, "best-recorded", ev, st, "a claim with a higher affinity is not recorded as the best (server recorded: %v, affinity recorded: %v)", upd, best)
				case 0:
					r.At(!upd && !best, "best-recorded", ev, st, "a claim with a lower affinity replaces the best one")
				default:
					r.At(st.has("appended"), "best-recorded", ev, st, "an acceptable claim is not compared with the best one")
				}
			}
			r.At(m("sc0") == 0 || st.has("sctimer"), "short-circuit-start", ev, st, "an acceptable claim does not start the short-circuit timer although one may be configured")
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) != 2 {
				return
			}
			sid, err := ev.Results[0], ev.Results[1]
			if claim != nil {
				if err.isNil() {
					r.At(isF(sid, "ServerId"), "immediate", ev, st, "the server returned at once is not the one that sent the claim: %v", sid)
					r.At(acceptable() == 1, "minimum-respected", ev, st, "a claim is accepted at once although its affinity may be below the minimum")
					r.At(m("acc") == 1 || m("max0") == 1 && m("maxlt") == 0, "immediate", ev, st, "a claim is accepted at once although neither accept-first is set nor the maximum affinity reached")
				} else {
					r.At(false, "immediate", ev, st, "a claim makes selection fail with %v", err)
				}
				return
			}
			if !st.has("done") {
				r.At(st.has("res") == false || !err.isNil(), "result", ev, st, "selection returns a server without a claim")
				return
			}
			fnRes := sid.any(func(t *Term) bool { return t.op == "call" && strings.HasPrefix(t.aux, "dyn") }) && err.any(func(t *Term) bool { return t.op == "call" && strings.HasPrefix(t.aux, "dyn") })
			switch {
			case m("canceled") == 1:
				r.At(globalNamed(err, "ErrRequestCanceled"), "result", ev, st, "selection canceled by the caller returns %v", err)
			case m("canceled") == -1:
				r.At(false, "result", ev, st, "selection ends without finding out whether the caller canceled it")
			case m("selnil") == 0:
				r.At(fnRes, "result", ev, st, "the selection function's result is not what selection returns: %v, %v", sid, err)
			case fnRes:
				r.At(false, "result", ev, st, "a selection function that may be nil is called")
			case err.isNil():
				ok := !sid.isConst() && (m("sidset") == 1 && st.mon["sidv"] == sid)
				r.At(ok, "result", ev, st, "selection succeeds although there may be no acceptable claim: %v", sid)
			default:
				r.At(m("sidset") != 1, "result", ev, st, "selection fails although there was an acceptable claim")
				if m("reserr") == 1 {
					r.At(err == st.mon["reserrv"] || callOf(err, "psrpc.NewErrorFromResponse") != nil, "result-server-error", ev, st, "the error a server reported is replaced by %v", err)
					return
				}
				c := callOf(err, "psrpc.NewErrorf", "psrpc.NewError")
				ok := globalNamed(err, "ErrNoResponse") || c != nil && isConstStr(c.args[0], "unavailable") || err.op == "phi"
				r.At(ok, "result", ev, st, "without an acceptable claim selection returns %v, not unavailable", err)
			}
		}
	}, func(x *Exec) { x.Precise = true })
	for _, n := range []string{"affinity-timer", "immediate", "minimum-respected", "best-recorded", "candidates", "short-circuit-once", "short-circuit-start", "result", "result-server-error", "server-error-kept"} {
		r.Min(n, 1)
	}
	// ErrNoResponse itself must be "unavailable"
	r.P.checkErrGlobal(r, "ErrNoResponse", "unavailable")
}

// loopSelects: the loop whose back edge this is contains a select statement.
func loopSelects(ev *Event) bool {
	if ev.Loop == nil {
		return false
	}
	for b := range ev.Loop.body {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Select); ok {
				return true
			}
		}
	}
	return false
}

func hasErrPhi(ev *Event) bool {
	for ph := range ev.Phis {
		if isErrIface(ph.Type()) {
			return true
		}
	}
	return false
}

func isErrIface(t types.Type) bool { return namedOf(t) == "error" || t.String() == "error" }

func isErrType(t *Term) bool {
	return t != nil && (t.typ != nil && isErrIface(t.typ) || callOf(t, "psrpc.NewErrorFromResponse") != nil)
}

// checkErrGlobal: a package-level error variable is initialised with the given code.
func (p *Program) checkErrGlobal(r *Run, name, code string) {
	sp := p.Pkg("")
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		r.Fail("error-constant", name, "-", "the error variable psrpc."+name+" does not exist", nil)
		return
	}
	got := "?"
	for _, f := range p.Funcs {
		if f.Name() != "init" || f.Pkg != sp {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					v := s.Val
					for {
						if m, ok := v.(*ssa.MakeInterface); ok {
							v = m.X
						} else if m, ok := v.(*ssa.ChangeInterface); ok {
							v = m.X
						} else {
							break
						}
					}
					if c, ok := v.(*ssa.Call); ok && len(c.Call.Args) > 0 {
						a := c.Call.Args[0]
						if k, ok := a.(*ssa.Const); ok && k.Value != nil {
							got = strings.Trim(k.Value.ExactString(), `"`)
						} else if u, ok := a.(*ssa.UnOp); ok {
							got = u.X.Name()
						}
					}
				}
			}
		}
	}
	r.Check(got == code, "error-constant", "psrpc."+name, "errors.go", "psrpc."+name+" has code "+got+", documented "+code, nil)
}
