package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P36", "path-sensitive dataflow and typestate over SSA of the interceptors the tracing options install, with a panic injected at every call into the rest of the chain: a span started is ended exactly once on every path, its context is the one injected into the metadata of the very call it wraps (added to what was there), the server's span starts from the context extracted from the incoming metadata, the call's error is recorded on it, and the call's arguments and results pass through", p36)
}

const otelPkg = "pkg/middleware/otelpsrpc."

func isTracerStart(ev *Event) bool { return strings.HasSuffix(ev.Name, "trace.Tracer).Start") }

func spanCall(ev *Event) string {
	if i := strings.LastIndex(ev.Name, "trace.Span)."); i >= 0 && (ev.Kind == EvCall || ev.Kind == EvRet) {
		return ev.Name[i+len("trace.Span)."):]
	}
	return ""
}

func p36(r *Run) {
	found := map[string]bool{}
	for root, want := range map[string]string{otelPkg + "ClientOptions": "client-rpc", otelPkg + "ServerOptions": "server-rpc"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if st.has("run") {
				p36On(r, x, st, ev)
				return
			}
			p36Default(r, x, st, ev)
			if ev.Kind != EvEnter && ev.Kind != EvCall || !strings.HasPrefix(ev.Name, "psrpc.") {
				return
			}
			kind := metricOptions[lastName(ev.Name)]
			if kind == "" || len(ev.Args) != 1 {
				return
			}
			l := ev.Args[0].strip()
			if l == nil || l.op != "slice" {
				return
			}
			for k, v := range st.heap {
				if k.op == "iaddr" && k.args[0].strip() == l.args[0].strip() {
					p36Run(r, x, st, ev, kind, v.strip())
					found[kind] = true
				}
			}
		}, func(x *Exec) { x.NoChain, x.Impl, x.Precise, x.MayPanic = true, nil, true, userPanics })
		r.Check(found[want], "installed", want, "-", "no "+want+" interceptor is installed", nil)
	}
	for rule, n := range map[string]int{"ended": 2, "once": 2, "error": 2, "through": 2, "inject": 1, "extract": 1} {
		r.Min(rule, n)
	}
}

// p36Default: a configured provider or propagator is kept.
func p36Default(r *Run, x *Exec, st *State, ev *Event) {
	if ev.Kind != EvStore {
		return
	}
	f := fieldOfAddr(ev.Addr)
	if f == nil || f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "otelpsrpc") || isParam(ev.Val) {
		return
	}
	if _, ok := f.Type().Underlying().(*types.Interface); !ok {
		return
	}
	known := false
	for c, v := range st.facts {
		known = known || v && c.op == "eq" && c.args[1].isNil() && c.args[0].any(func(u *Term) bool { return fieldOfLoad(u) == f || u.op == "field" && u.obj == f })
	}
	r.At(known, "configured", ev, st, "the configured %s is replaced", f.Name())
}

func p36Run(r *Run, x *Exec, st *State, at *Event, kind string, t *Term) {
	s := st.clone()
	for k := range s.mon {
		if !strings.HasPrefix(k, "#") {
			delete(s.mon, k)
		}
	}
	s.mon["run"] = x.TT.str(kind)
	done := func(o *outcome) {
		if o.st.panic && !o.st.has("panicked") {
			return
		}
		if !r.At(o.st.has("span"), "started", at, o.st, "a call goes by without a span") {
			return
		}
		r.At(o.st.has("ended"), "ended", at, o.st, "the call can end without its span being ended%s", map[bool]string{true: " (the handler panicked)"}[o.st.has("panicked")])
		if o.st.has("panicked") {
			r.At(o.st.panic, "through", at, o.st, "a panic of the call is swallowed")
			return
		}
		if !r.At(o.st.has("calling"), "through", at, o.st, "the interceptor returns without making the call") {
			return
		}
		if len(o.res) == 2 {
			r.At(sameVal(o.res[0], o.st.mon["res"]) && sameVal(o.res[1], o.st.mon["err"]), "through", at, o.st, "the interceptor returns %v, not the call's result", o.res)
		}
		if x.isNilT(o.st, o.st.mon["err"]) != 1 {
			r.At(o.st.has("recorded"), "error", at, o.st, "the error of the call is not recorded on its span")
			r.At(o.st.has("status"), "error", at, o.st, "the span of a failed call does not get the error status")
		}
	}
	for _, o := range x.runClosure(s, t, at.Instr) {
		if kind == "server-rpc" {
			done(o)
			continue
		}
		if len(o.res) != 1 || o.st.panic {
			continue
		}
		r.At(!o.st.has("span"), "once", at, o.st, "the span is started before there is a call")
		for _, o2 := range x.runClosure(o.st, o.res[0], at.Instr) {
			done(o2)
		}
	}
}

func p36On(r *Run, x *Exec, st *State, ev *Event) {
	client := constIs(st.mon["run"], "\"client-rpc\"")
	yes := x.TT.boolC(true)
	switch ev.Kind {
	case EvPanic:
		st.mon["panicked"] = yes
	case EvRet:
		switch {
		case isTracerStart(ev) && len(ev.Results) == 2:
			r.At(!st.has("span"), "once", ev, st, "two spans are started for one call")
			st.mon["sctx"], st.mon["span"] = ev.Results[0], ev.Results[1].strip()
			if !client {
				if h := st.mon["head"]; h != nil && x.isNilT(st, h) != 1 {
					r.At(st.has("xctx") && ctxHas(ev.Args[1], st.mon["xctx"]), "extract", ev, st, "the server's span does not start from the context in the incoming metadata")
				}
				r.At(h36(st) || st.has("head"), "extract", ev, st, "the incoming metadata is not looked at before the span is started")
			}
			r.At(ctxHas(ev.Args[1], nil), "extract", ev, st, "the span is started from %v, not from the call's context", ev.Args[1])
		case strings.Contains(ev.Name, "otel/propagation.") && lastName(ev.Name) == "Extract":
			r.At(ev.Args[2].any(func(u *Term) bool { return readsFieldNamed(u, "Metadata") != nil }), "extract", ev, st, "the context is extracted from %v", ev.Args[2])
			r.At(ctxHas(ev.Args[1], nil), "extract", ev, st, "the incoming context is dropped")
			st.mon["xctx"] = ev.Results[0]
		case strings.HasSuffix(ev.Name, "metadata.IncomingHeader"):
			st.mon["head"] = ev.Results[0]
		case st.has("calling") && ev.FnTerm != nil && isParam(ev.FnTerm) && len(ev.Results) == 2:
			st.mon["res"], st.mon["err"] = ev.Results[0], ev.Results[1]
		}
	case EvCall:
		if n := spanCall(ev); n != "" && sameVal(ev.Args[0], st.mon["span"]) {
			r.At(!st.has("ended"), "once", ev, st, "the span is used or ended again after it was ended (%s)", n)
			switch n {
			case "End":
				st.mon["ended"] = yes
			case "RecordError":
				if sameVal(ev.Args[1], st.mon["err"]) {
					st.mon["recorded"] = yes
				} else {
					r.At(false, "error", ev, st, "the error recorded is %v, not the call's", ev.Args[1])
				}
			case "SetStatus":
				if c, ok := constInt(ev.Args[1]); ok && st.has("err") {
					if c == 1 {
						st.mon["status"] = yes
						r.At(x.isNilT(st, st.mon["err"]) != 1, "error", ev, st, "a call without an error gets the error status")
					} else {
						delete(st.mon, "status")
						r.At(c != 2 || x.isNilT(st, st.mon["err"]) != 0, "error", ev, st, "a failed call gets the status ok")
					}
				}
			}
			return
		}
		switch {
		case strings.Contains(ev.Name, "otel/propagation.") && lastName(ev.Name) == "Inject":
			if client {
				r.At(st.has("span") && ctxHas(ev.Args[1], st.mon["sctx"]), "inject", ev, st, "what is injected is not the context of the call's span")
				st.mon["map"] = mapIn(ev.Args[2])
			}
		case ev.FnTerm != nil && ev.Callee == nil && isParam(ev.FnTerm) && len(ev.Args) >= 2 && isCtxType(ev.Args[0]):
			r.At(!st.has("calling"), "through", ev, st, "the call is made twice")
			st.mon["calling"] = yes
			r.At(st.has("span") && ctxHas(ev.Args[0], st.mon["sctx"]), "linked", ev, st, "the call does not run in the context of its span")
			r.At(!st.has("ended"), "ended", ev, st, "the span is ended before the call")
			for _, a := range ev.Args[1:] {
				r.At(isParam(a), "through", ev, st, "the call gets %v instead of what was passed", a)
			}
			if client {
				r.At(st.has("map") && addsMetadata(ev.Args[0], st.mon["map"]), "inject", ev, st, "the span's context is not added to the outgoing metadata of the call")
				for _, u := range ctxChain36(ev.Args[0]) {
					r.At(!strings.HasSuffix(u.aux, "metadata.NewContextWithOutgoingMetadata"), "inject", ev, st, "the metadata of the call is replaced")
				}
			}
		}
	}
}

func h36(st *State) bool { return st.has("xctx") }

// ctxHas: the context is built on want (or, with nil, on a context passed in).
func ctxHas(c, want *Term) bool {
	return c != nil && c.any(func(u *Term) bool {
		if want == nil {
			return u.op == "param" && isCtxType(u)
		}
		return u == want || sameVal(u, want)
	})
}

func mapIn(t *Term) *Term {
	var m *Term
	t.any(func(u *Term) bool {
		if u.op == "mkmap" || u.op == "stale" && u.args[0].op == "mkmap" {
			m = u
			return true
		}
		return false
	})
	return m
}

func ctxChain36(c *Term) []*Term {
	var out []*Term
	c.any(func(u *Term) bool {
		if (u.op == "call" || u.op == "pcall") && strings.Contains(u.aux, "pkg/metadata.") {
			out = append(out, u)
		}
		return false
	})
	return out
}

// addsMetadata: the context was built by adding the pairs of m to its outgoing metadata.
func addsMetadata(c, m *Term) bool {
	for _, u := range ctxChain36(c) {
		if m != nil && len(u.args) > 1 && u.any(func(v *Term) bool { return unstale(v) == unstale(m) }) {
			return true
		}
	}
	return false
}
