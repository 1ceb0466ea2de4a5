package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P25", "path-sensitive dataflow over SSA of the retry interceptors, with the closures they return unfolded: another attempt is reached only over a path on which the last one failed, the policy was asked about that very error and the number of attempts made and said so, and the caller's context was polled; the default policy says so only for a recoverable error and below the limit; each attempt carries the timeout the policy computed; what is returned is the last attempt's result, or the canceled error once the context ended", p25)
}

// unfold runs what the root returned (and what that returns) as calls with fresh arguments.
func (x *Exec) unfold(st *State, res []*Term, at ssa.Instruction, depth int, done func(o *outcome, fn *ssa.Function)) {
	if len(res) != 1 || depth == 0 {
		return
	}
	t := res[0].strip()
	if t == nil || t.op != "closure" && t.op != "func" {
		return
	}
	fn, _ := t.obj.(*ssa.Function)
	for _, o := range x.runClosure(st, t, at) {
		if len(o.res) == 1 && !o.st.panic {
			if n := o.res[0].strip(); n != nil && n.op == "closure" {
				x.unfold(o.st, o.res, at, depth-1, done)
				continue
			}
		}
		done(o, fn)
	}
}

func isErrBool(s *types.Signature) bool {
	return s != nil && s.Params().Len() == 1 && isErrIface(s.Params().At(0).Type()) && s.Results().Len() == 1 && isBoolT(s.Results().At(0).Type())
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// isPolicy: func(error, int) (bool, time.Duration, time.Duration)
func isPolicySig(s *types.Signature) bool {
	return s != nil && s.Params().Len() == 2 && isErrIface(s.Params().At(0).Type()) && s.Results().Len() == 3 && isBoolT(s.Results().At(0).Type())
}

func sigOf(ev *Event) *types.Signature {
	if ev.Callee != nil {
		return ev.Callee.Signature
	}
	if ev.FnType != nil {
		s, _ := ev.FnType.Underlying().(*types.Signature)
		return s
	}
	return nil
}

type retryMon struct {
	r       *Run
	attempt func(ev *Event) bool
	timeOpt string // the option carrying a timeout
	hasCtx  bool
	deflt   map[*ssa.Function]bool
	shared  map[*Term]bool // variables that outlive a call
}

func (m *retryMon) iteration(st *State) {
	for _, k := range []string{"err", "res", "nonnil", "retry", "polled", "rec", "recT", "lim", "pol", "to", "nto", "slept"} {
		delete(st.mon, k)
	}
}

func (m *retryMon) on(x *Exec, st *State, ev *Event) {
	r := m.r
	yes := x.TT.boolC(true)
	if st.has("dead") {
		return // not a possible path
	}
	lastErr := func(t *Term) bool { return st.mon["err"] != nil && sameVal(t, st.mon["err"]) }
	// the timeout the coming attempt has to use
	current := func(t *Term) bool {
		t = t.strip()
		if !st.has("again") {
			return readsFieldNamed(t, "Timeout") != nil
		}
		return t == unstale(st.mon["tph"]) || t == unstale(st.mon["pt"]) || t.op == "loopcell" || t.op == "havoc"
	}
	switch {
	case ev.Kind == EvCall && m.attempt(ev):
		if st.has("again") || st.has("err") {
			r.At(st.has("nonnil"), "stops-on-success", ev, st, "another attempt is made although the last one succeeded")
			r.At(st.has("retry"), "retry-allowed", ev, st, "another attempt is made without the policy having said so")
			if m.hasCtx {
				r.At(st.has("polled") && !st.has("canceled"), "canceled", ev, st, "another attempt is made without checking that the caller's context has not ended")
			}
			if st.mon["pt"] != nil && st.has("again") {
				r.At(st.has("tph") || st.has("tcell"), "timeout", ev, st, "the timeout the policy computed is not used for the next attempt")
			}
		}
		r.At(st.has("to") || st.has("nto"), "timeout", ev, st, "the attempt is made without the timeout it should have")
		if o := st.mon["toOpt"]; st.has("to") && o != nil {
			a := ev.Args[len(ev.Args)-1].strip()
			r.At(a.op != "param", "timeout", ev, st, "the attempt's options leave out its timeout: %v", a)
			if a.op == "append" {
				base := a.args[0].strip()
				r.At(base.op != "param" && base.op != "freevar", "timeout", ev, st, "the attempt's timeout is appended in the caller's own list of options, where that of another call may replace it")
			}
			if a.op == "mkslice" || a.op == "slice" && a.args[0].op == "mkslice" {
				for k, v := range st.heap {
					if k.op == "iaddr" && v.strip() == o && linOf(k.args[1]).m != nil {
						if l := linOf(k.args[1]); len(l.m) == 0 && len(linOf(a.args[0]).m) > 0 {
							r.At(false, "timeout", ev, st, "the attempt's timeout comes before the caller's own options, which override it")
						}
					}
				}
			}
		}
		m.iteration(st)
	case ev.Kind == EvRet && m.attempt(ev):
		st.mon["err"] = ev.Results[len(ev.Results)-1]
		if len(ev.Results) == 2 {
			st.mon["res"] = ev.Results[0]
		}
		st.mon["made"] = yes
	case ev.Kind == EvCall && lastName(ev.Name) == m.timeOpt && len(ev.Args) == 1:
		if r.At(current(ev.Args[0]), "timeout", ev, st, "the attempt uses the timeout %v, not the one the policy computed for it", ev.Args[0]) {
			st.mon["to"] = yes
		}
	case ev.Kind == EvRet && lastName(ev.Name) == m.timeOpt && len(ev.Args) == 1:
		st.mon["toOpt"] = ev.Results[0].strip()
	case ev.Kind == EvLeave && lastName(ev.Name) == m.timeOpt && len(ev.Args) == 1:
		st.mon["toOpt"] = ev.Results[0].strip()
		fallthrough
	case ev.Kind == EvEnter && lastName(ev.Name) == m.timeOpt && len(ev.Args) == 1:
		if r.At(current(ev.Args[0]), "timeout", ev, st, "the attempt uses the timeout %v, not the one the policy computed for it", ev.Args[0]) {
			st.mon["to"] = yes
		}

	// the policy
	case (ev.Kind == EvCall || ev.Kind == EvEnter) && isPolicySig(sigOf(ev)):
		r.At(lastErr(ev.Args[0]), "policy-input", ev, st, "the policy is asked about %v, not the last attempt's error", ev.Args[0])
		m.counter(x, st, ev, ev.Args[1])
		delete(st.mon, "retry")
	case ev.Kind == EvRet && isPolicySig(sigOf(ev)):
		st.mon["pol"] = ev.Results[0].strip()
		st.mon["pt"] = ev.Results[1].strip()
	case ev.Kind == EvLeave && isPolicySig(sigOf(ev)):
		say := ev.Results[0].strip()
		if say.isFalse() {
			return
		}
		r.At(st.has("rec"), "recoverable", ev, st, "the default policy retries without the error being recoverable")
		r.At(st.has("lim"), "limit", ev, st, "the default policy retries without checking the limit of attempts")
		r.At(say.isTrue(), "recoverable", ev, st, "the default policy's answer is %v", say)
		st.mon["retry"] = yes
		prev := unstale(st.mon["pt"])
		st.mon["pt"] = ev.Results[1].strip()
		m.backoff(x, st, ev, ev.Results[1], prev)
	case (ev.Kind == EvCall || ev.Kind == EvEnter) && isErrBool(sigOf(ev)):
		r.At(lastErr(ev.Args[0]), "policy-input", ev, st, "%v is checked for being recoverable, not the last attempt's error", ev.Args[0])
		if ev.Kind == EvEnter && ev.Callee.Parent() == nil {
			m.deflt[ev.Callee] = true
		}
	case (ev.Kind == EvRet || ev.Kind == EvLeave) && isErrBool(sigOf(ev)):
		st.mon["recT"] = ev.Results[0].strip()
		if ev.Results[0].isTrue() {
			st.mon["rec"] = yes
		} else {
			delete(st.mon, "rec")
		}
	case ev.Kind == EvAssume:
		c := ev.Cond
		if c == st.mon["recT"] && ev.Truth {
			st.mon["rec"] = yes
		}
		if c == st.mon["pol"] && ev.Truth {
			st.mon["retry"] = yes
		}
		if e := st.mon["err"]; e != nil && c.op == "eq" && (c.args[0].strip() == e.strip() && c.args[1].isNil() || c.args[1].strip() == e.strip() && c.args[0].isNil()) && !ev.Truth {
			st.mon["nonnil"] = yes
		}
		if c.op == "lt" && isZeroInt(c.args[0]) && current(c.args[1]) && !ev.Truth && (!st.has("err") || st.has("again")) {
			st.mon["nto"] = yes
		}
		m.limit(x, st, ev, c)
	case ev.Kind == EvSelect && ev.Sel != nil && selectsDone(ev.Sel):
		if ev.Val != nil || ev.Addr != nil || ev.Case >= 0 {
			if ev.Case >= 0 && ev.Case < len(ev.Sel.Cases) && doneOf(ev.Sel.Cases[ev.Case].Chan) != nil {
				st.mon["canceled"] = yes
				return
			}
		}
		if st.has("canceled") {
			st.mon["dead"] = yes // the context has ended and stays so
		}
		st.mon["polled"] = yes
	case ev.Kind == EvRecv && doneOf(ev.Addr) != nil:
		st.mon["canceled"] = yes
	case ev.Kind == EvCall && ev.Name == "time.Sleep" || ev.Kind == EvRecv:
		delete(st.mon, "polled")
	case ev.Kind == EvBack && st.has("made"):
		delete(st.mon, "tph")
		delete(st.mon, "tcell")
		if pt := st.mon["pt"]; pt != nil {
			for ph, v := range ev.Phis {
				if v.strip() == pt {
					st.mon["tph"] = x.TT.mk("phi", ph.Comment, ph, ph.Type(), &Site{instr: ph, ctx: ev.Ctx})
				}
			}
			for _, v := range st.heap {
				if v.strip() == pt {
					st.mon["tcell"] = yes
				}
			}
		}
		if n := st.mon["n"]; n != nil {
			for a := range linOf(n).m {
				if ph, ok := a.obj.(*ssa.Phi); ok && a.op == "phi" && ev.Phis[ph] != nil {
					if d := linOf(ev.Phis[ph]).minus(linOf(a)); len(d.m) == 0 {
						r.At(d.c == 1, "limit", ev, st, "the number of attempts grows by %d with each", d.c)
					}
				}
			}
		}
		st.mon["again"] = yes
		delete(st.mon, "made")
	}
}

func selectsDone(s *SelInfo) bool {
	for _, c := range s.Cases {
		if doneOf(c.Chan) != nil {
			return true
		}
	}
	return false
}

// counter: the policy is told how many attempts were made.
func (m *retryMon) counter(x *Exec, st *State, ev *Event, n *Term) {
	if l := linOf(n); !st.has("again") && len(l.m) == 0 {
		m.r.At(l.c == 1, "limit", ev, st, "after the first attempt the policy is told that %d were made", l.c)
	} else if st.has("again") {
		m.r.At(len(l.m) > 0, "limit", ev, st, "after several attempts the policy is told that %d were made", l.c)
	}
	st.mon["n"] = n
}

// limit: the number of attempts made is compared to the configured one.
func (m *retryMon) limit(x *Exec, st *State, ev *Event, c *Term) {
	if c.op != "eq" && c.op != "lt" {
		return
	}
	a, b := linOf(c.args[0]), linOf(c.args[1])
	d := b.minus(a) // Max - made
	var max *Term
	for t := range d.m {
		if readsFieldNamed(t, "MaxAttempts") != nil {
			max = t
		}
	}
	if max == nil {
		return
	}
	n := st.mon["n"]
	if n == nil {
		return
	}
	ln := linOf(n)
	k := d.m[max]
	// the difference to (Max - n)
	want := lin{m: map[*Term]int64{max: k}}
	for t, v := range ln.m {
		want.m[t] -= k * v
	}
	want.c -= k * ln.c
	diff := d.minus(want)
	if len(diff.m) > 0 {
		m.r.At(false, "limit", ev, st, "the limit is compared to %v, not to the number of attempts made", c)
		return
	}
	switch {
	case c.op == "eq":
		if m.r.At(diff.c == 0, "limit", ev, st, "the attempts end %d beyond the limit", diff.c) && !ev.Truth {
			st.mon["lim"] = x.TT.boolC(true)
		}
	case k > 0 && ev.Truth: // made + c < Max
		if m.r.At(diff.c <= 0, "limit", ev, st, "%d attempts more than configured are made", diff.c) {
			st.mon["lim"] = x.TT.boolC(true)
		}
	case k < 0 && !ev.Truth: // not Max < made + c, that is made + c <= Max
		if m.r.At(diff.c >= 1, "limit", ev, st, "one attempt more than configured is made") {
			st.mon["lim"] = x.TT.boolC(true)
		}
	}
}

// backoff: the default policy's timeout starts with the configured one and grows by the backoff.
func (m *retryMon) backoff(x *Exec, st *State, ev *Event, t, prev *Term) {
	l := linOf(t)
	if prev != nil {
		d := l.minus(linOf(prev))
		if len(d.m) == 1 && d.c == 0 {
			for a, k := range d.m {
				if k == 1 && readsFieldNamed(a, "Backoff") != nil {
					return
				}
			}
		}
	}
	var base, step int64
	mul := false
	other := 0
	for a, k := range l.m {
		switch {
		case readsFieldNamed(a, "Backoff") != nil:
			step = k
		case readsFieldNamed(a, "Timeout") != nil:
			base = k
		case a.op == "binop":
			mul = true
		default:
			other++
			base = k
		}
	}
	if mul {
		return
	}
	m.r.At(step == 1 && base == 1 && l.c == 0, "backoff", ev, st, "the next attempt's timeout is %v, not the last one's plus the backoff", t)
	if !st.has("again") {
		m.r.At(other == 0, "backoff", ev, st, "the second attempt's timeout is %v, not the configured one plus the backoff", t)
	}
	// what the next computation starts from
	kept := false
	for k, v := range st.heap {
		if v.strip() == t.strip() {
			kept = true
			m.r.At(!m.shared[baseAddr(k)], "backoff", ev, st, "the timeout grows in a variable every call shares: calls do not start with the configured timeout")
		}
	}
	m.r.At(kept, "backoff", ev, st, "the timeout %v is not what the following one grows from", t)
}

func p25(r *Run) {
	p43Classify(r)
	p43Predefined(r, "ErrRequestCanceled")
	deflt := map[*ssa.Function]bool{}
	opt := func(x *Exec) { x.NoChain, x.Impl = true, nil }
	finish := func(x *Exec, st *State, ev *Event, res []*Term) {
		if st.panic || st.has("dead") {
			return
		}
		err := res[len(res)-1]
		if st.has("canceled") {
			r.At(globalNamed(err, "ErrRequestCanceled"), "canceled", ev, st, "once the caller's context ended, the call returns %v, not the canceled error", err)
			return
		}
		last := st.mon["err"]
		if !r.At(last != nil, "attempted", ev, st, "the call can end without an attempt") {
			return
		}
		ok := sameVal(err, last) || x.isNilT(st, last) == 1 && x.isNilT(st, err) == 1
		r.At(ok, "last-error", ev, st, "the call returns %v, not the last attempt's error %v", err, last)
		if len(res) == 2 {
			r.At(sameVal(res[0], st.mon["res"]), "last-error", ev, st, "the call returns %v, not the last attempt's result %v", res[0], st.mon["res"])
		}
	}
	m := &retryMon{r: r, hasCtx: true, timeOpt: "WithRequestTimeout", deflt: deflt, attempt: func(ev *Event) bool {
		return ev.FnTerm != nil && ev.Callee == nil && len(ev.Args) == 3 && isParam(ev.FnTerm)
	}}
	r.exec("pkg/middleware.NewRPCRetryInterceptor", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && !st.has("run") {
			m.shared = map[*Term]bool{}
			for k := range st.heap {
				if b := baseAddr(k); b.op == "alloc" {
					m.shared[b] = true
				}
			}
			s := st.clone()
			s.mon["run"] = x.TT.boolC(true)
			n := 0
			x.unfold(s, ev.Results, ev.Instr, 3, func(o *outcome, fn *ssa.Function) {
				n++
				if len(o.res) == 2 {
					finish(x, o.st, ev, o.res)
				}
			})
			r.At(n > 0, "attempted", ev, st, "the interceptor could not be followed: %v", ev.Results[0])
			return
		}
		if st.has("run") {
			m.on(x, st, ev)
		}
	}, opt)
	ms := &retryMon{r: r, timeOpt: "WithTimeout", deflt: deflt, attempt: func(ev *Event) bool {
		return ev.Method != nil && ev.Callee == nil && strings.HasSuffix(ev.Name, ".StreamHandler).Send")
	}}
	r.exec("pkg/middleware.(streamRetryInterceptor).Send", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth {
			finish(x, st, ev, ev.Results)
			return
		}
		ms.on(x, st, ev)
	}, opt)
	for fn := range deflt {
		p25Default(r, fn)
	}
	for rule, n := range map[string]int{"stops-on-success": 1, "retry-allowed": 1, "canceled": 1, "timeout": 2, "policy-input": 1, "recoverable": 1, "limit": 1, "backoff": 1, "last-error": 1, "default": 1} {
		r.Min(rule, n)
	}
}

// p25Default: what counts as recoverable by default.
func p25Default(r *Run, fn *ssa.Function) {
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		isCode := func(t *Term) bool {
			t = t.strip()
			return t != nil && t.op == "extract" && t.aux == "0" && strings.HasSuffix(t.args[0].aux, "GetErrorCode") || t != nil && strings.HasSuffix(t.aux, ".Code")
		}
		codeEq := func(c *Term) (string, bool) {
			if c == nil || c.op != "eq" {
				return "", false
			}
			for i := 0; i < 2; i++ {
				if isCode(c.args[i]) && c.args[1-i].op == "const" {
					return constStr(c.args[1-i])
				}
			}
			return "", false
		}
		isOK := func(t *Term) bool {
			t = t.strip()
			return t != nil && t.op == "extract" && t.aux == "1" && strings.HasSuffix(t.args[0].aux, "GetErrorCode")
		}
		retried := map[string]bool{"deadline_exceeded": true, "unavailable": true}
		switch ev.Kind {
		case EvAssume:
			if isOK(ev.Cond) {
				st.mon["ok"] = x.TT.boolC(ev.Truth)
			}
			if s, ok := codeEq(ev.Cond); ok {
				if ev.Truth {
					st.mon["is"] = constOf(ev.Cond)
				} else {
					st.mon["not:"+s] = x.TT.boolC(true)
				}
			}
		case EvReturn:
			if ev.Name != "root" || ev.Truth {
				return
			}
			t := ev.Results[0].strip()
			neg := false
			for t.op == "not" {
				t, neg = t.args[0].strip(), !neg
			}
			if isOK(t) {
				r.At(neg, "default", ev, st, "classified errors are retried by default, unclassified ones are not")
				return
			}
			if s, ok := codeEq(t); ok && !neg {
				r.At(retried[s] && !st.mon["ok"].isFalse(), "default", ev, st, "errors with code %s are retried by default", s)
				for c := range retried {
					r.At(c == s || st.has("not:"+c), "default", ev, st, "errors with code %s are not retried by default", c)
				}
				return
			}
			if !t.isTrue() && !t.isFalse() {
				return
			}
			val := t.isTrue() != neg
			switch {
			case st.mon["ok"].isFalse():
				r.At(val, "default", ev, st, "unclassified errors are not retried by default")
			case st.mon["is"] != nil:
				s, _ := constStr(st.mon["is"])
				r.At(val == retried[s], "default", ev, st, "errors with code %s: retried by default is %v", s, val)
			case val:
				r.At(false, "default", ev, st, "errors of any code are retried by default")
			default:
				for c := range retried {
					r.At(st.has("not:"+c), "default", ev, st, "errors with code %s are not retried by default", c)
				}
			}
		}
	}, func(x *Exec) {
		x.Precise = true
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || f.Name() == "GetErrorCode" }
	})
}

func constOf(c *Term) *Term {
	for _, a := range c.args {
		if a.op == "const" {
			return a
		}
	}
	return nil
}
