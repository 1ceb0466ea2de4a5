package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("P01", "path-sensitive typestate over SSA: from each handler invocation to the response publish (server) and from each received response to what the caller gets (client); the code, message, details and payload must be those of that very error or value, compared by value number", p01)
}

// errType is the psrpc.Error interface type.
func (p *Program) errType() types.Type {
	if n := p.Named("", "Error"); n != nil {
		return n
	}
	return types.Typ[types.Invalid]
}

func (x *Exec) asTerm(err *Term) *Term {
	return x.TT.mk("pcall", "errors.As", x.P.errType(), nil, nil, err)
}

// unAssert removes type assertions and interface wrappers.
func unAssert(t *Term) *Term {
	for t != nil && len(t.args) == 1 && (t.op == "assert" || t.op == "iface" || t.op == "conv") {
		t = t.args[0]
	}
	return t
}

// requestOf: the received request a handler argument was decoded from.
func decodedFrom(arg *Term, typ, field string) *Term {
	c := callOf(unAssert(arg), "internal/bus.DeserializePayload")
	if c == nil || len(c.args) == 0 {
		return nil
	}
	return fieldRead(c.args[0], typ, field)
}

func isErrorText(t *Term) *Term {
	if c := callOf(t, "(error).Error", "(psrpc.Error).Error", "(*psrpc.psrpcError).Error", "(psrpc.psrpcError).Error"); c != nil {
		return c.args[0]
	}
	return nil
}

// errCarried decides whether wire fields (text, code, details) carry err faithfully on this path. "" means yes.
func (x *Exec) errCarried(st *State, err, text, code, details *Term, withDetails bool) string {
	as := x.truth(st, x.asTerm(err))
	if recv := isErrorText(text); recv != nil {
		r := unAssert(recv)
		if r.op == "as" {
			if r.args[0] != err {
				return "the message is that of another error: " + r.String()
			}
			if as != 1 {
				return "the message is taken from a failed errors.As"
			}
			c := callOf(code, "(psrpc.Error).Code")
			if c == nil || unAssert(c.args[0]) != r {
				return "the code is not the error's own code: " + code.String()
			}
			if withDetails && !details.any(func(t *Term) bool {
				return callOf(t, "(psrpc.Error).DetailsProto") != nil && unAssert(callOf(t, "(psrpc.Error).DetailsProto").args[0]) == r
			}) {
				return "the error's details are not sent"
			}
			return ""
		}
		if r == unAssert(err) {
			// an error psrpc created itself has a code: dropping it to "unknown" loses it
			if as == 1 {
				return "the error has a code of its own which is not sent"
			}
			if as == -1 {
				return "the code is not taken from the error (it was not asked for one)"
			}
			if withDetails && x.statusKnown(st, err) {
				return "the gRPC status of the error is not translated"
			}
			if !isConstStr(code, "unknown") {
				return "a plain error is sent with code " + code.String() + " instead of unknown"
			}
			return ""
		}
		return "the message is that of another error: " + r.String()
	}
	if strings.HasPrefix(text.strip().aux, "(*google.golang.org/grpc/internal/status.Status).Message") {
		s := text.strip().args[0]
		f := callOf(s, "google.golang.org/grpc/status.FromError", "google.golang.org/grpc/status.Convert")
		if f == nil || unAssert(f.args[0]) != unAssert(err) {
			return "the message is that of another error: " + s.String()
		}
		if as != 0 {
			return "a psrpc error's own code is replaced by a status code"
		}
		c := callOf(code, "psrpc.ErrorCodeFromGRPC")
		if c == nil || !c.args[0].contains(s) {
			return "the code is not that of the error's status: " + code.String()
		}
		if withDetails && !details.contains(s) {
			return "the status details are not sent"
		}
		return ""
	}
	if text.op == "phi" || text.op == "stale" || text.op == "loopcell" {
		return ""
	}
	return "the message is not the error's: " + text.String()
}

func isConstStr(t *Term, s string) bool {
	return t.strip().isConst() && t.strip().aux == fmt.Sprintf("%q", s)
}

// statusKnown: the path has established that err carries a non-OK gRPC status.
func (x *Exec) statusKnown(st *State, err *Term) bool {
	f := x.TT.mk("pcall", "google.golang.org/grpc/status.FromError", nil, nil, nil, err)
	ok := x.TT.mk("extract", "1", nil, nil, nil, f)
	s := x.TT.mk("extract", "0", nil, nil, nil, f)
	if x.truth(st, ok) != 1 {
		return false
	}
	if x.truth(st, x.eq(st, s, x.TT.nilC())) == 1 {
		return false
	}
	c := x.TT.mk("pcall", "(*google.golang.org/grpc/internal/status.Status).Code", nil, nil, nil, s)
	return x.truth(st, x.eq(st, c, x.TT.intC(0))) == 0
}

func (x *Exec) isNilT(st *State, t *Term) int { return x.truth(st, x.eq(st, t, x.TT.nilC())) }

// valNil: v, or v seen through a type assertion, is known to be nil.
func (x *Exec) valNil(st *State, v *Term) bool {
	if x.isNilT(st, v) == 1 {
		return true
	}
	for f, t := range st.facts {
		if t && f.op == "eq" && f.args[1].isNil() && unAssert(f.args[0]) == unAssert(v) {
			return true
		}
	}
	return false
}

func p01(r *Run) {
	payloadCodec(r)
	p01Server(r)
	p01Client(r)
	p01Multi(r)
	p01Errors(r)
}

func p01Server(r *Run) {
	const rule = "server-response"
	r.exec("pkg/server.RegisterHandler", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvCall && isParamFunc(ev) && ev.FnTerm.strip().aux == "svcImpl" || ev.Kind == EvCall && isUserHandler(ev) {
			if st.has("hreq") {
				r.At(false, "handler-once", ev, st, "the handler is invoked a second time for one request")
			}
		}
		if ev.Kind == EvRet && isUserHandler(ev) && len(ev.Results) == 2 {
			req := decodedFrom(ev.Args[len(ev.Args)-1], "internal.Request", "RawRequest")
			r.At(req != nil, "handler-input", ev, st, "the handler is not given the payload of a received request: %v", ev.Args[len(ev.Args)-1])
			if req == nil {
				req = x.TT.nilC()
			}
			st.mon["hreq"], st.mon["hres"], st.mon["herr"] = req, ev.Results[0], ev.Results[1]
			st.mon["hgo"] = st.mon["#go"]
			delete(st.mon, "hpub")
			return
		}
		if p := publishOf(ev); p != nil && ev.Kind == EvCall && p.kind == "Response" {
			text, code, raw, det := x.peek(st, p.msg, "Error"), x.peek(st, p.msg, "Code"), x.peek(st, p.msg, "RawResponse"), x.peek(st, p.msg, "ErrorDetails")
			id := fieldRead(x.peek(st, p.msg, "RequestId"), "internal.Request", "RequestId")
			r.At(id != nil, "response-id", ev, st, "the response does not carry the id of a received request: %v", x.peek(st, p.msg, "RequestId"))
			if id != nil {
				r.At(p.channel.any(func(t *Term) bool { return fieldRead(t, "internal.Request", "ClientId") == id }), "response-addressee", ev, st, "the response is not addressed to the client the request came from: %v", p.channel)
			}
			if !st.has("hreq") {
				ok := !(isConstStr(code, "") || isConstStr(code, "")) || !isConstStr(text, "")
				r.At(ok, "response-without-handler", ev, st, "a success is published although the handler did not run")
				return
			}
			if st.has("hpub") {
				r.At(false, rule, ev, st, "a second response is published for one request")
				return
			}
			st.mon["hpub"] = x.TT.boolC(true)
			if id != nil {
				r.At(id == st.mon["hreq"], "response-id", ev, st, "the response carries the id of another request than the one handled")
			}
			err, res := st.mon["herr"], st.mon["hres"]
			switch x.isNilT(st, err) {
			case 0:
				why := x.errCarried(st, err, text, code, det, true)
				r.At(why == "", "error-carried", ev, st, "the handler returned an error, but %s", why)
			case 1:
				x.p01Success(r, st, ev, res, text, code, raw)
			default:
				r.At(false, rule, ev, st, "the response is the same whether or not the handler returned an error")
			}
		}
		if ev.Kind == EvReturn && st.has("hreq") && !ev.Truth && st.mon["hgo"] == st.mon["#go"] {
			r.At(st.has("hpub"), "response-sent", ev, st, "the handler finished but no response is published on this path")
		}
	}, func(x *Exec) { x.Precise = true })
	for _, n := range []string{"response-id", "error-carried", "success-carried", "response-sent", "response-without-handler"} {
		r.Min(n, 1)
	}
}

// isUserHandler: a call of the handler function given to RegisterHandler/RegisterStreamHandler.
func isUserHandler(ev *Event) bool {
	if ev.FnTerm == nil || ev.Callee != nil {
		return false
	}
	t := ev.FnTerm.strip()
	if t.op != "param" || ev.FnType == nil {
		return false
	}
	sig, ok := ev.FnType.Underlying().(*types.Signature)
	if !ok || namedOf(ev.FnType) != "" {
		return false
	}
	rs := sig.Results()
	return rs.Len() > 0 && types.TypeString(rs.At(rs.Len()-1).Type(), nil) == "error"
}

func (x *Exec) p01Success(r *Run, st *State, ev *Event, res, text, code, raw *Term) {
	const rule = "success-carried"
	if isConstStr(text, "") && isConstStr(code, "") {
		if raw.isNil() {
			r.At(x.valNil(st, res), rule, ev, st, "an empty success is sent for a value that may be non-nil")
			return
		}
		c := callOf(raw, "internal/bus.SerializePayload")
		if !r.At(c != nil, rule, ev, st, "the payload is not the encoded result: %v", raw) {
			return
		}
		v := unAssert(c.args[0])
		if !(v == unAssert(res) || v.isNil() && x.isNilT(st, res) == 1) {
			r.At(false, rule, ev, st, "the payload is not the handler's result: %v", v)
			return
		}
		e := x.TT.mk("extract", "1", nil, nil, nil, c)
		r.At(x.isNilT(st, e) == 1, rule, ev, st, "a result that could not be encoded is sent as a success")
		return
	}
	// the only error allowed without a handler error is the failure to encode the result
	ok := false
	if recv := isErrorText(text); recv != nil {
		for _, t := range []*Term{unAssert(recv)} {
			t.any(func(u *Term) bool {
				if c := callOf(u, "internal/bus.SerializePayload"); c != nil {
					ok = true
				}
				return ok
			})
		}
	}
	r.At(ok, rule, ev, st, "the handler succeeded but an error is sent: %v / %v", code, text)
	r.At(!isConstStr(code, ""), rule, ev, st, "an encoding failure is sent without a code")
}

// responseOK: the message is known to be a success.
func (x *Exec) responseOK(st *State, m *Term) (bool, bool) {
	e := x.truth(st, x.eq(st, x.peek(st, m, "Error"), x.TT.str("")))
	c := x.truth(st, x.eq(st, x.peek(st, m, "Code"), x.TT.str("")))
	return e == 1 && c == 1, e == 0 || c == 0
}

func isMsg(t *Term, name string) bool {
	return t != nil && t.typ != nil && namedOf(derefNamed(t.typ)) == "internal."+name
}

// respTracker follows a received response to the outcome it is turned into.
func respTracker(r *Run, x *Exec, st *State, ev *Event) {
	switch ev.Kind {
	case EvSelect:
		delete(st.mon, "fresh")
		if ev.Case >= 0 && ev.Sel.Cases[ev.Case].Dir == types.RecvOnly && isMsg(ev.Val, "Response") {
			st.mon["res"], st.mon["fresh"] = ev.Val, x.TT.boolC(true)
			delete(st.mon, "resbad")
			delete(st.mon, "des")
			delete(st.mon, "desok")
		}
	case EvAssume:
		if m := st.mon["res"]; m != nil && m.op != "stale" {
			if _, bad := x.responseOK(st, m); bad && (ev.Cond.contains(x.peek(st, m, "Error")) || ev.Cond.contains(x.peek(st, m, "Code"))) {
				st.mon["resbad"] = x.TT.boolC(true)
			}
		}
		if d := st.mon["des"]; d != nil && ev.Cond == x.eq(st, d, x.TT.nilC()) {
			st.mon["desok"] = x.TT.boolC(ev.Truth)
		}
		if v := st.mon["desv"]; v != nil && ev.Truth && ev.Cond.op == "eq" && ev.Cond.args[1].isNil() && unAssert(ev.Cond.args[0]) == v {
			st.mon["desnil"] = x.TT.boolC(true)
		}
	case EvRet:
		if ev.Name == "internal/bus.DeserializePayload" {
			m := fieldRead(ev.Args[0], "internal.Response", "RawResponse")
			if m == nil {
				return
			}
			ok, _ := x.responseOK(st, m)
			r.At(ok, "decode-only-success", ev, st, "a response is decoded as a result although its error and code are not both known to be empty")
			st.mon["des"] = ev.Results[1]
			st.mon["desv"] = ev.Results[0]
			delete(st.mon, "desok")
			delete(st.mon, "desnil")
		}
		if ev.Name == "psrpc.NewErrorFromResponse" {
			m := fieldRead(ev.Args[0], "internal.Response", "Code")
			if m == nil {
				if fieldRead(ev.Args[0], "internal.StreamClose", "Code") == nil {
					r.At(false, "error-rebuilt", ev, st, "the error's code is not the response's code: %v", ev.Args[0])
				}
				return
			}
			ok := fieldRead(ev.Args[1], "internal.Response", "Error") == m
			r.At(ok, "error-rebuilt", ev, st, "the error's message is not the response's: %v", ev.Args[1])
			ok = len(ev.Args) > 2 && ev.Args[2].any(func(t *Term) bool { return fieldRead(t, "internal.Response", "ErrorDetails") == m })
			r.At(ok, "error-rebuilt", ev, st, "the response's error details are dropped")
		}
	}
}

// outcome judges a (value, error) pair given to the caller.
func respOutcome(r *Run, x *Exec, st *State, ev *Event, val, err *Term, rule string) {
	m := st.mon["res"]
	nilE := x.isNilT(st, err)
	d := st.mon["des"]
	if d != nil && err == d && val.contains(st.mon["desv"]) {
		r.At(true, rule, ev, st, "") // both results of the decoder handed on
		return
	}
	if st.has("fresh") && st.has("resbad") {
		c := callOf(err, "psrpc.NewErrorFromResponse")
		ok := c != nil && m != nil && fieldRead(c.args[0], "internal.Response", "Code") == m
		r.At(ok, rule+"-error", ev, st, "the server's error is not what the caller gets: %v", err)
		return
	}
	if nilE == 0 || err.nonNil() || isErrMaker(err) {
		return
	}
	// may be a success
	ok := d != nil && st.mon["desok"].isTrue() && (unAssert(val).contains(st.mon["desv"]) || val.isNil() && st.has("desnil"))
	r.At(ok, rule, ev, st, "the caller may get a success (value %v, error %v) that is not a decoded success response", val, err)
}

func isErrMaker(t *Term) bool {
	return callOf(t, "psrpc.NewError", "psrpc.NewErrorf", "psrpc.NewErrorFromResponse") != nil || t.strip().op == "sload" && t.strip().args[0].op == "global"
}

func p01Client(r *Run) {
	r.exec("pkg/client.RequestSingle", func(x *Exec, st *State, ev *Event) {
		respTracker(r, x, st, ev)
		if ev.Kind == EvRet && ev.Name == "internal/bus.SerializePayload" {
			st.mon["ser"] = ev.Results[1]
		}
		if p := publishOf(ev); p != nil && ev.Kind == EvCall && p.kind == "Request" {
			requestEncoded(r, x, st, ev, p)
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) == 2 {
			if len(st.mon) == 0 && x.isNilT(st, ev.Results[1]) == 0 {
				return
			}
			respOutcome(r, x, st, ev, ev.Results[0], ev.Results[1], "caller-outcome")
		}
	}, nil)
	r.Min("caller-outcome", 1)
	r.Min("caller-outcome-error", 1)
	r.Min("decode-only-success", 1)
	r.Min("error-rebuilt", 1)
	r.Min("request-encoded", 1)
}

func requestEncoded(r *Run, x *Exec, st *State, ev *Event, p *pubInfo) {
	raw := x.peek(st, p.msg, "RawRequest")
	c := callOf(raw, "internal/bus.SerializePayload")
	if r.At(c != nil, "request-encoded", ev, st, "the published request does not carry the encoded payload: %v", raw) {
		ok := unAssert(c.args[0]).op == "param"
		r.At(ok, "request-encoded", ev, st, "the published payload is not the caller's request: %v", c.args[0])
		e := x.TT.mk("extract", "1", nil, nil, nil, c)
		r.At(x.isNilT(st, e) == 1, "request-encoded", ev, st, "a request that could not be encoded is published")
	}
}

func p01Multi(r *Run) {
	r.exec("pkg/client.RequestMulti", func(x *Exec, st *State, ev *Event) {
		if st.has("owed") && (ev.Kind == EvBlock && selectsMsg(ev.Sel, "Response") || ev.Kind == EvReturn && ev.Name == "go") {
			r.At(false, "multi-delivered", ev, st, "a received response was neither delivered to the caller nor replaced by an error before the next one")
			delete(st.mon, "owed")
		}
		respTracker(r, x, st, ev)
		if ev.Kind == EvSelect && st.has("fresh") {
			st.mon["owed"] = x.TT.boolC(true)
		}
		if p := publishOf(ev); p != nil && ev.Kind == EvCall && p.kind == "Request" {
			requestEncoded(r, x, st, ev, p)
		}
		var sent *Term
		switch ev.Kind {
		case EvBlock:
			for _, c := range ev.Sel.Cases {
				if c.Dir == types.SendOnly && chanElemIs(c.T, "psrpc.Response") {
					sent = c.Send
				}
			}
		case EvSend:
			if chanElemIs(ev.ChanT, "psrpc.Response") {
				sent = ev.Val
			}
		}
		if sent != nil {
			delete(st.mon, "owed")
			st.mon["fresh"] = x.TT.boolC(true)
			r.At(true, "multi-delivered", ev, st, "")
			respOutcome(r, x, st, ev, x.peek(st, sent, "Result"), x.peek(st, sent, "Err"), "multi-outcome")
		}
	}, nil)
	r.Min("multi-delivered", 1)
	r.Min("multi-outcome", 1)
	r.Min("multi-outcome-error", 1)
}

func selectsMsg(s *SelInfo, name string) bool {
	for _, c := range s.Cases {
		if c.Dir == types.RecvOnly && c.T != nil && namedOf(derefNamed(c.T.Elem())) == "internal."+name {
			return true
		}
	}
	return false
}

func chanElemIs(c *types.Chan, name string) bool {
	return c != nil && stripInst(namedOf(derefNamed(c.Elem()))) == name
}

func stripInst(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return s[:i]
	}
	return s
}

// p01Errors: the error rebuilt from a response keeps code, message and details; accessors return them.
func p01Errors(r *Run) {
	noOpaque := func(x *Exec) {
		x.Opaque = func(f fnT) bool { return false }
	}
	fErr, fCode, fDetails := r.P.errorFields()
	r.exec("NewErrorFromResponse", func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Truth {
			return
		}
		v := ev.Results[0].strip()
		code, det, inner := x.peek(st, v, fCode), x.peek(st, v, fDetails), x.peek(st, v, fErr)
		r.At(v.op == "alloc", "rebuild", ev, st, "the error built from a response may be nil")
		cs := code.strip()
		empty := x.emptyStr(st, x.paramOf(ev.Callee, 0))
		okc := cs.op == "param" && cs.aux == ev.Callee.Params[0].Name() || empty == 1 && isConstStr(code, "unknown")
		r.At(okc, "rebuild", ev, st, "the rebuilt error's code is %v", code)
		r.At(det.strip().op == "param", "rebuild", ev, st, "the rebuilt error's details are %v", det)
		e := callOf(inner, "errors.New", "fmt.Errorf")
		text := x.TT.mk("param", ev.Callee.Params[1].Name(), ev.Callee.Params[1], ev.Callee.Params[1].Type(), nil)
		plain := e != nil && e.args[0].strip() == text
		if e != nil && !plain && (isConstStr(e.args[0], "%s") || isConstStr(e.args[0], "%v")) {
			plain = len(e.args) > 1 && x.reach(st, e.args[1], func(t *Term) bool { return t == text })
		}
		r.At(plain, "rebuild", ev, st, "the rebuilt error's message is %v", inner)
	}, noOpaque)
	r.Min("rebuild", 1)
	acc := func(m, field string) {
		f := r.P.Method("", "psrpcError", m)
		if f == nil {
			return
		}
		r.execFn("(psrpcError)."+m, f, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvReturn && ev.Name == "root" {
				ok := readsFieldNamed(ev.Results[0], field) != nil && unAssert(readsFieldNamed(ev.Results[0], field)).op == "param"
				r.At(ok, "accessor", ev, st, "%s does not return the error's %s but %v", m, field, ev.Results[0])
			}
		}, noOpaque)
	}
	acc("Code", fCode)
	acc("DetailsProto", fDetails)
	p43Ctors(r)
}
