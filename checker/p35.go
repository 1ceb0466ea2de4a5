package main

import (
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("P35", "closure-body analysis over SSA of every option constructor (what each option stores, into which field, on every path, lists appended to and never replaced), forward-loop analysis of how options are applied (each once, in order, to the settings returned, after every default and with nothing overwritten afterwards), path-sensitive value analysis of the request defaults, and value-flow of the settings into the calls", p35)
}

// optionSets: what each option of the API sets.
var optionSets = map[string]string{
	"WithClientID": "ClientID", "WithClientTimeout": "Timeout", "WithClientSelectTimeout": "SelectionTimeout", "WithClientChannelSize": "ChannelSize",
	"WithClientRequestHooks": "RequestHooks", "WithClientResponseHooks": "ResponseHooks",
	"WithClientRPCInterceptors": "RpcInterceptors", "WithClientMultiRPCInterceptors": "MultiRPCInterceptors", "WithClientStreamInterceptors": "StreamInterceptors",
	"WithServerID": "ServerID", "WithServerTimeout": "Timeout", "WithServerChannelSize": "ChannelSize",
	"WithServerRPCInterceptors": "Interceptors", "WithServerStreamInterceptors": "StreamInterceptors",
	"WithRequestTimeout": "Timeout", "WithSelectionOpts": "SelectionOpts", "WithRequestInterceptors": "Interceptors",
	"WithTimeout":       "Timeout",
	"WithClientOptions": "", "WithServerOptions": "",
}

func p35(r *Run) {
	for _, name := range sortedKeys(optionSets) {
		p35Option(r, name, optionSets[name])
	}
	for _, f := range r.P.Funcs {
		if kind := optsKind(f); kind != "" {
			p35Apply(r, f, kind)
		}
	}
	for _, root := range []string{"pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream"} {
		p35Use(r, root)
	}
	p35Stream(r)
	p35ID(r, "pkg/client.NewRPCClient", "ClientID")
	p35ID(r, "pkg/server.NewRPCServer", "ServerID")
	for rule, n := range map[string]int{"sets": 12, "appends": 5, "composes": 1, "applied": 3, "default": 3, "last-word": 3, "given": 3, "id": 2} {
		r.Min(rule, n)
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func isRootType(t types.Type, name string) bool { return namedOf(t) == "psrpc."+name }

// optsKind: the settings a function makes from options, "" if it is no such function.
func optsKind(f fnT) string {
	if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !f.Signature.Variadic() || len(f.Blocks) == 0 {
		return ""
	}
	ps := f.Signature.Params()
	s, ok := ps.At(ps.Len() - 1).Type().Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	for _, k := range []string{"Client", "Server", "Request", "Stream"} {
		if isRootType(s.Elem(), k+"Option") && isRootType(derefNamed(f.Signature.Results().At(0).Type()), k+"Opts") {
			return k
		}
	}
	return ""
}

func p35Option(r *Run, name, field string) {
	fn := r.P.rootFn(name)
	if fn == nil {
		r.Fail("sets", name, "-", "there is no option "+name, nil)
		return
	}
	list := field != "" && fn.Signature.Variadic()
	r.execFn(name, fn, func(x *Exec, st *State, ev *Event) {
		if st.has("run") {
			p35Store(r, x, st, ev, name, field, list)
			return
		}
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
			return
		}
		s := st.clone()
		s.mon["run"] = x.TT.boolC(true)
		outs := x.runClosure(s, ev.Results[0], ev.Instr)
		if !r.At(len(outs) > 0, "sets", ev, st, "%s is %v", name, ev.Results[0]) {
			return
		}
		for _, o := range outs {
			if o.st.panic {
				continue
			}
			switch {
			case field == "":
				r.At(o.st.has("lsdone"), "composes", ev, o.st, "%s leaves out options", name)
			case list:
				r.At(o.st.has("lsdone") || o.st.has("spread"), "appends", ev, o.st, "%s leaves out some of what it is given", name)
			default:
				r.At(o.st.has("set") || zeroParam(x, o.st, fn), "sets", ev, o.st, "%s does not always set %s", name, field)
			}
		}
	}, func(x *Exec) { x.Precise = true })
}

// zeroParam: the setting is known to be the zero value (or less).
func zeroParam(x *Exec, st *State, fn fnT) bool {
	for c, v := range st.facts {
		for _, a := range c.args {
			o := a.strip()
			if o == nil || !o.any(func(u *Term) bool { return u.op == "param" && !strings.HasPrefix(u.aux, "·") }) {
				continue
			}
			if c.op == "eq" && v && (isZeroInt(c.args[0]) || isZeroInt(c.args[1]) || isConstStr(c.args[0], "") || isConstStr(c.args[1], "")) {
				return true
			}
			if c.op == "lt" && !v && isZeroInt(c.args[0]) || c.op == "lt" && v && isOneInt(c.args[1]) {
				return true
			}
		}
	}
	return false
}

// ownParam: t is what the option was given.
func ownParam(t *Term) bool {
	t = unstale(t.strip())
	return t != nil && t.op == "param" && !strings.HasPrefix(t.aux, "·")
}

// optsField: the field of the settings ad points to.
func optsField(ad *Term) *types.Var {
	ad = unstale(ad.strip())
	f := fieldOfAddr(ad)
	if f == nil {
		return nil
	}
	if b := ad.args[0].strip(); b != nil && b.typ != nil && strings.HasSuffix(namedOf(derefType(b.typ)), "Opts") && strings.HasPrefix(namedOf(derefType(b.typ)), "psrpc.") {
		return f
	}
	return nil
}

func p35Store(r *Run, x *Exec, st *State, ev *Event, name, field string, list bool) {
	isList := func(t *Term) bool { return ownParam(t) }
	if list || field == "" {
		if ev.Kind == EvAssume {
			c, v := ev.Cond, ev.Truth
			for c.op == "not" {
				c, v = c.args[0], !v
			}
			if c.op == "eq" && v && (c.args[0].isNil() || c.args[1].isNil()) {
				for _, a := range c.args {
					if b, i := elemIdx(unstale(a)); b != nil && ownParam(b) {
						st.mon["skip"], st.mon["lsidx"] = x.TT.boolC(true), i
					}
				}
			}
			if c.op == "lt" && v {
				if u := c.args[1].strip(); u.op == "len" && ownParam(u.args[0]) {
					st.mon["in"] = x.TT.boolC(true)
					delete(st.mon, "skip")
				}
			}
		}
		if ev.Kind == EvBack && st.has("in") {
			r.At(st.has("lsit") || st.has("skip"), map[bool]string{true: "composes", false: "appends"}[field == ""], ev, st, "%s leaves out some of what it is given", name)
			delete(st.mon, "in")
		}
	}
	switch {
	case field == "":
		fwdLoop(r, x, "composes", "options", "ls", st, ev, isList)
		if ev.Kind == EvCall && ev.FnTerm != nil && ev.Callee == nil {
			b, i := elemIdx(unstale(ev.FnTerm))
			if !ownParam(b) {
				return
			}
			p35Elem(r, x, st, ev, "composes", i)
			r.At(len(ev.Args) == 1 && isParam(ev.Args[0]) && !ownParam(ev.Args[0]), "composes", ev, st, "an option is applied to %v", ev.Args)
		}
		return
	case list:
		fwdLoop(r, x, "appends", "elements", "ls", st, ev, isList)
		if ev.Kind == EvAppend && len(ev.Args) == 2 {
			if ownParam(ev.Args[1]) {
				st.mon["spread"] = x.TT.boolC(true)
				return
			}
			l := ev.Args[1].strip()
			if l == nil || l.op != "slice" {
				return
			}
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0].strip() == l.args[0].strip() {
					v = unstale(v.strip())
					for v != nil && (v.op == "iface" || v.op == "mkiface" || v.op == "conv" || v.op == "wrap") {
						v = v.args[0].strip()
					}
					b, i := elemIdx(v)
					if ownParam(b) {
						p35Elem(r, x, st, ev, "appends", i)
					} else {
						r.At(false, "appends", ev, st, "%s appends %v", name, v)
					}
				}
			}
			return
		}
	}
	if ev.Kind != EvStore {
		return
	}
	f := optsField(ev.Addr)
	if f == nil {
		return
	}
	if !r.At(f.Name() == field, map[bool]string{true: "appends", false: "sets"}[list], ev, st, "%s sets %s", name, f.Name()) {
		return
	}
	v := unstale(ev.Val.strip())
	if !list {
		r.At(ownParam(v), "sets", ev, st, "%s sets %s to %v", name, field, v)
		st.mon["set"] = x.TT.boolC(true)
		return
	}
	// what it had comes first
	ok := false
	for n := 0; v != nil && n < 20; n++ {
		v = unstale(v.strip())
		if b := fieldOfLoad(v); b != nil {
			ok = b.Name() == field
			break
		}
		if v.op == "loopcell" || v.op == "phi" || v.op == "loopval" {
			ok = true
			break
		}
		if v.op == "append" && (v.args[0].isNil() || isFreshList(v.args[0])) && len(v.args) == 2 {
			v = v.args[1]
			continue
		}
		if v.op == "slice" && !(v.args[1].op == "none" || isZeroInt(v.args[1])) || v.op == "slice" && v.args[2].op != "none" && v.args[2].strip().op != "len" {
			break // a part of it
		}
		if (v.op == "append" || v.op == "call" || v.op == "pcall" || v.op == "slice" && !strings.HasPrefix(v.args[0].strip().op, "alloc")) && len(v.args) > 0 {
			v = v.args[0]
			continue
		}
		break
	}
	r.At(ok, "appends", ev, st, "%s replaces what %s held before: %v", name, field, ev.Val)
}

func isFreshList(t *Term) bool {
	t = t.strip()
	return t != nil && (t.op == "mkslice" && isZeroInt(t.args[0]) || t.op == "slice" && t.args[0].strip().op == "alloc")
}

// p35Elem: one element of the list the option was given is used.
func p35Elem(r *Run, x *Exec, st *State, ev *Event, rule string, idx *Term) {
	if st.mon["lsidx"] == nil {
		if l := linOf(idx); len(l.m) == 0 {
			r.At(l.c == 0, rule, ev, st, "the first %d are left out", l.c)
		}
	}
	r.At(!st.has("lsit"), rule, ev, st, "an element is used twice")
	st.mon["lsidx"] = idx
	st.mon["lsit"] = x.TT.boolC(true)
}

// p35Apply: the settings are the defaults as changed by every option, in order.
func p35Apply(r *Run, f fnT, kind string) {
	last := f.Params[len(f.Params)-1].Name()
	isOpts := func(t *Term) bool {
		t = unstale(t.strip())
		return t != nil && t.op == "param" && t.aux == last
	}
	yes := func(x *Exec) *Term { return x.TT.boolC(true) }
	r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvBack && st.has("in") {
			r.At(st.has("lsit") || st.has("skip"), "applied", ev, st, "an option is not applied")
			delete(st.mon, "in")
		}
		fwdLoop(r, x, "applied", "options", "ls", st, ev, isOpts)
		flagAssumed(x, st, ev)
		switch ev.Kind {
		case EvAssume:
			p35Path(x, st, ev)
			c := ev.Cond
			if c.op == "lt" && ev.Truth {
				if u := c.args[1].strip(); u.op == "len" && isOpts(u.args[0]) {
					st.mon["in"] = yes(x)
					delete(st.mon, "skip")
				}
			}
			if c.op == "eq" && ev.Truth && (c.args[0].isNil() || c.args[1].isNil()) {
				for _, a := range c.args {
					if b, i := elemIdx(unstale(a)); b != nil && isOpts(b) {
						st.mon["skip"], st.mon["lsidx"] = yes(x), i
					}
				}
			}
		case EvCall, EvEnter:
			if strings.HasSuffix(stripInst(ev.Name), ".ChainServerInterceptors") && len(ev.Args) == 1 {
				f := fieldOfLoad(unstale(ev.Args[0]))
				r.At(st.has("lsdone") && (f != nil && f.Name() == "Interceptors" || ev.Args[0].isNil() && !st.has("applied")), "chained", ev, st, "the server's interceptors are chained as %v, before every option was applied or from another list", ev.Args[0])
				st.mon["chained"] = yes(x)
				return
			}
			if ev.FnTerm == nil || ev.Callee != nil {
				return
			}
			b, i := elemIdx(unstale(ev.FnTerm))
			if b == nil || !isOpts(b) {
				return
			}
			if !r.At(len(ev.Args) == 1 && unstale(ev.Args[0].strip()).op == "alloc", "applied", ev, st, "an option is applied to %v", ev.Args) {
				return
			}
			o := unstale(ev.Args[0].strip())
			if st.mon["lsidx"] == nil && !st.has("applied") {
				p35Defaults(r, x, st, ev, kind, o)
			}
			st.mon["applied"], st.mon["o"] = yes(x), o
			p35Elem(r, x, st, ev, "applied", i)
		case EvStore:
			v := optsField(ev.Addr)
			if v == nil || unstale(baseObj(ev.Addr)).op != "alloc" || v.Name() == "ChainedInterceptor" {
				return
			}
			r.At(!st.has("applied") && !st.has("lsdone"), "last-word", ev, st, "%s is overwritten after the options were applied", v.Name())
		case EvReturn:
			if ev.Name != "root" || ev.Truth || len(ev.Results) != 1 {
				return
			}
			r.At(st.has("lsdone"), "applied", ev, st, "the settings are returned before every option was applied")
			if o := unstale(st.mon["o"]); o != nil {
				var alloc *Term
				ev.Results[0].any(func(u *Term) bool {
					if u.op == "alloc" && alloc == nil && strings.HasSuffix(namedOf(derefType(u.typ)), kind+"Opts") {
						alloc = u
					}
					return false
				})
				r.At(alloc == nil || alloc == o, "last-word", ev, st, "the settings returned are %v, not the ones the options were applied to", ev.Results[0])
			}
			if kind == "Server" {
				r.At(st.has("chained"), "chained", ev, st, "the server's interceptors are not chained")
			}
		}
	}, func(x *Exec) {
		x.Precise = true
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || strings.HasSuffix(stripInst(shortName(f)), ".ChainServerInterceptors")
		}
	})
}

// optIn: a field of the settings o points to, by its path.
func (x *Exec) optIn(st *State, o *Term, path ...string) *Term {
	v := x.peek(st, o, path[0])
	if len(path) == 1 {
		return unstale(v)
	}
	sv := structFieldVar(derefType(o.typ), path[0])
	if sv == nil {
		return nil
	}
	f := structFieldVar(sv.Type(), path[1])
	if f == nil {
		return nil
	}
	ad := x.faddr(o, sv, types.NewPointer(sv.Type()))
	if w, ok := st.heap[x.faddr(ad, f, types.NewPointer(f.Type()))]; ok {
		return unstale(w)
	}
	if v != nil {
		return unstale(x.field(v, f))
	}
	return nil
}

// p35Path notes what the path knows about the timeout and the deadline.
func p35Path(x *Exec, st *State, ev *Event) {
	c, v := ev.Cond, ev.Truth
	for c.op == "not" {
		c, v = c.args[0], !v
	}
	set := func(k string) { st.mon[k] = x.TT.boolC(v) }
	switch {
	case isDeadlineOK(c):
		set("ok")
	case c.op == "eq" && (isZeroInt(c.args[0]) || isZeroInt(c.args[1])):
		a := c.args[0]
		if isZeroInt(a) {
			a = c.args[1]
		}
		if isOwnTimeout(a) {
			set("t0")
		} else if isUntil(a) || a.op == "minmax" && len(a.args) == 2 && (isUntil(a.args[0]) || isUntil(a.args[1])) {
			set("d0")
		}
	case c.op == "lt" && isUntil(c.args[0]) && isOwnTimeout(c.args[1]): // dt < T
		set("dltT")
	case c.op == "lt" && isOwnTimeout(c.args[0]) && isUntil(c.args[1]): // T < dt
		set("Tltd")
	case c.op == "lt" && isZeroInt(c.args[0]) && isOwnTimeout(c.args[1]): // 0 < T
		v = !v
		set("t0")
	case c.op == "lt" && isOwnTimeout(c.args[0]) && isOneInt(c.args[1]): // T < 1
		set("t0")
	}
}

func isDeadlineOK(t *Term) bool {
	t = unstale(t.strip())
	if t != nil && t.op == "extract" {
		if t.typ != nil && !isBoolT(t.typ) {
			return false
		}
		t = t.args[0]
	}
	return t != nil && (t.op == "call" || t.op == "pcall") && strings.HasSuffix(t.aux, "Context).Deadline")
}

func isOwnTimeout(t *Term) bool {
	t = unstale(t.strip())
	if t == nil {
		return false
	}
	if t.op == "field" && t.aux == "Timeout" {
		return t.args[0].any(isParam)
	}
	f := fieldOfLoad(t)
	return f != nil && f.Name() == "Timeout"
}

func isUntil(t *Term) bool {
	t = unstale(t.strip())
	return t != nil && (t.op == "call" || t.op == "pcall" || t.op == "binop") && t.any(func(u *Term) bool { return u.aux == "time.Until" || u.aux == "time.Now" }) && t.any(func(u *Term) bool { return strings.HasSuffix(u.aux, "Context).Deadline") })
}

func monIs(st *State, k string) int {
	v := st.mon[k]
	switch {
	case v == nil:
		return -1
	case unstale(v).isTrue():
		return 1
	}
	return 0
}

// p35Defaults: what the settings are before the first option.
func p35Defaults(r *Run, x *Exec, st *State, ev *Event, kind string, o *Term) {
	is := func(want int64, path ...string) {
		v := x.optIn(st, o, path...)
		n, ok := constInt(v)
		r.At(ok && n == want, "default", ev, st, "%s of a %s is %v by default", strings.Join(path, "."), strings.ToLower(kind), v)
	}
	positive := func(path ...string) {
		v := x.optIn(st, o, path...)
		n, ok := constInt(v)
		r.At(ok && n > 0, "default", ev, st, "%s of a %s is %v by default", strings.Join(path, "."), strings.ToLower(kind), v)
	}
	const s = int64(1e9)
	switch kind {
	case "Client":
		is(s, "SelectionTimeout")
		is(0, "Timeout")
		positive("ChannelSize")
	case "Server":
		is(3*s, "Timeout")
		positive("ChannelSize")
	case "Stream":
		v := x.optIn(st, o, "Timeout")
		r.At(isOwnTimeout(v), "default", ev, st, "the timeout of a stream message is %v, not that of its stream", v)
	case "Request":
		v := x.optIn(st, o, "Timeout")
		ok, t0, d0, dlt, tlt := monIs(st, "ok"), monIs(st, "t0"), monIs(st, "d0"), monIs(st, "dltT"), monIs(st, "Tltd")
		n, isC := constInt(v)
		switch {
		case isC:
			r.At(n == 3*s && (t0 == 1 && ok == 0 || d0 == 1), "default", ev, st, "the timeout of a request is %v although the client has one or the context has a deadline", v)
		case isOwnTimeout(v):
			r.At(t0 == 0 && (ok == 0 || dlt == 0 || tlt == 1), "default", ev, st, "the timeout of a request is the client's although it may be none or later than the context's deadline")
		case isUntil(v):
			r.At(ok == 1 && (t0 == 1 || dlt == 1 || tlt == 0), "default", ev, st, "the timeout of a request is the time to the context's deadline although there may be none or the client's is shorter")
		case v != nil && v.op == "minmax":
			r.At(v.aux == "builtin min" && ok == 1 && t0 == 0 && len(v.args) == 2 && (isUntil(v.args[0]) || isUntil(v.args[1])) && (isOwnTimeout(v.args[0]) || isOwnTimeout(v.args[1])), "default", ev, st, "the timeout of a request is %v", v)
		default:
			r.At(false, "default", ev, st, "the timeout of a request is %v", v)
		}
		aff := flagIs(st, "AffinityEnabled")
		sel := x.optIn(st, o, "SelectionOpts", "AffinityTimeout")
		r.At(sel != nil && (readsFieldNamed(sel, "SelectionTimeout") != nil || sel.op == "field" && sel.aux == "SelectionTimeout"), "default", ev, st, "claims are collected for %v, not the selection timeout", sel)
		first := x.optIn(st, o, "SelectionOpts", "AcceptFirstAvailable")
		r.At(aff >= 0 && first != nil && first.isConst() && first.isTrue() == (aff == 0) || first != nil && !first.isConst() && notAffinity(first), "default", ev, st, "the first claim is accepted (%v) whether or not the method has affinity", first)
		if aff == 1 {
			is(200*1000*1000, "SelectionOpts", "ShortCircuitTimeout")
		}
	}
}

func notAffinity(t *Term) bool {
	t = unstale(t.strip())
	if t.op != "not" {
		return false
	}
	f := fieldOfLoad(unstale(t.args[0]))
	return f != nil && f.Name() == "AffinityEnabled"
}

// p35Use: requests use the settings of their client and their own options.
func p35Use(r *Run, root string) {
	fn := r.P.rootFn(root)
	if fn == nil {
		return
	}
	r.execFn(root, fn, func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvCall && ev.Kind != EvEnter || ev.Callee == nil || optsKind(ev.Callee) != "Request" {
			return
		}
		for _, a := range ev.Args {
			switch {
			case a.typ == nil:
			case isRootType(a.typ, "ClientOpts"):
				f := fieldOfLoad(unstale(a))
				r.At(f != nil && f.Name() == "ClientOpts" || readsFieldNamed(a, "ClientOpts") != nil, "given", ev, st, "a request takes %v for the settings of its client", a)
			case isCtxType(a):
				c := ctxRoot(a)
				r.At(isParam(a) || isParam(c), "given", ev, st, "the deadline of a request is that of %v", a)
			}
		}
		o := ev.Args[len(ev.Args)-1].strip()
		r.At(isParam(o), "given", ev, st, "a request is made with the options %v, not its own", o)
	}, func(x *Exec) {
		x.FollowGo = false
		x.Opaque = func(f fnT) bool {
			return defaultOpaque(f) || optsKind(f) != "" || shortName(f) == "pkg/client.selectServer" || isMethodNamed(f, "pkg/client", "runClientStream")
		}
	})
}

// p35Stream: stream messages use the settings of their stream and their own options.
func p35Stream(r *Run) {
	for _, f := range r.P.pkgFuncs("internal/stream") {
		if f.Parent() != nil || f.Name() != "Send" || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		r.execFn(shortName(f), f, func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvCall && ev.Kind != EvEnter || ev.Callee == nil || optsKind(ev.Callee) != "Stream" {
				return
			}
			for _, a := range ev.Args[:len(ev.Args)-1] {
				if a.typ != nil && isRootType(a.typ, "StreamOpts") {
					fl := fieldOfLoad(unstale(a))
					r.At(fl != nil && fl.Name() == "StreamOpts", "given", ev, st, "a stream message takes %v for the settings of its stream", a)
				}
			}
			o := ev.Args[len(ev.Args)-1].strip()
			r.At(isParam(o), "given", ev, st, "a stream message is sent with the options %v, not its own", o)
		}, func(x *Exec) {
			x.Opaque = func(f fnT) bool { return defaultOpaque(f) || optsKind(f) != "" }
		})
	}
}

// p35ID: the id given as an option is the one used.
func p35ID(r *Run, root, field string) {
	yes := func(x *Exec) *Term { return x.TT.boolC(true) }
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		known := func() bool { return st.has("idset") || monIs(st, "noid") == 1 }
		switch ev.Kind {
		case EvAssume:
			c, v := ev.Cond, ev.Truth
			for c.op == "not" {
				c, v = c.args[0], !v
			}
			if c.op == "eq" && (isConstStr(c.args[0], "") || isConstStr(c.args[1], "")) {
				for _, a := range c.args {
					if f := fieldOfLoad(unstale(a)); f != nil && f.Name() == field || readsFieldNamed(a, field) != nil {
						st.mon["noid"] = x.TT.boolC(v)
					}
				}
			}
			if c.op == "lt" && isZeroInt(c.args[0]) && c.args[1].op == "len" {
				if f := fieldOfLoad(unstale(c.args[1].args[0])); f != nil && f.Name() == field {
					st.mon["noid"] = x.TT.boolC(!v)
				}
			}
		case EvStore:
			f := fieldOfAddr(ev.Addr)
			if f == nil || f.Name() != "ID" || f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "pkg/info") {
				return
			}
			v := fieldOfLoad(unstale(ev.Val))
			r.At(v != nil && v.Name() == field || readsFieldNamed(ev.Val, field) != nil, "id", ev, st, "the id is set to %v", ev.Val)
			r.At(monIs(st, "noid") == 0, "id", ev, st, "the generated id may be replaced by an empty one")
			st.mon["idset"] = yes(x)
		case EvCall:
			if subscribeOf(ev) != nil {
				r.At(known(), "id", ev, st, "a subscription is made before the id given as an option is used")
			}
		case EvReturn:
			if ev.Name == "root" && !ev.Truth {
				r.At(known(), "id", ev, st, "the id given as an option is not used")
			}
		}
	}, func(x *Exec) {
		x.Precise = true
		x.FollowGo = false
		x.Opaque = func(f fnT) bool { return defaultOpaque(f) || optsKind(f) != "" }
	})
}
