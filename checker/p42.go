package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P42", "path analysis over SSA of the codec and its callers: what is published is a fresh encoding of the message given, in an envelope naming that message's own type, carrying its bytes and the local channel it is published on; a decoder returns a new message it decoded from the bytes given; on every path success is reported only if every encoding and decoding step on it succeeded; every bus publishes the bytes of the envelope it built, and reads back exactly the bytes it received", p42)
}

const pbPkg = "google.golang.org/protobuf/proto."

// encodedOf: the call that encoded the bytes t, the message it encoded and the buffer it appended to (nil if its own).
func encodedOf(t *Term) (call, msg, buf *Term) {
	if c := callOf(t, pbPkg+"Marshal"); c != nil && len(c.args) == 1 {
		return c, c.args[0].strip(), nil
	}
	if c := callOf(t, "("+pbPkg+"MarshalOptions).Marshal"); c != nil && len(c.args) == 2 {
		return c, c.args[1].strip(), nil
	}
	if c := callOf(t, "("+pbPkg+"MarshalOptions).MarshalAppend"); c != nil && len(c.args) == 3 {
		return c, c.args[2].strip(), c.args[1].strip()
	}
	return nil, nil, nil
}

// ownBuffer: bytes that nothing else holds.
func ownBuffer(b *Term) bool {
	return b == nil || b.isNil() || b.op == "mkslice" || b.op == "slice" && (b.args[0].strip().op == "mkslice" || b.args[0].strip().op == "alloc")
}

// errOf: the error result of a call made on this path.
func (x *Exec) errOf(c *Term) *Term { return x.TT.mk("extract", "1", nil, nil, nil, c) }

// failed: the path returns an error.
func (x *Exec) failed(st *State, err *Term) bool { return x.isNilT(st, err) == 0 }

// succeeded: the step whose error is e cannot have failed when err is returned.
func (x *Exec) succeeded(st *State, e, err *Term) bool {
	return x.isNilT(st, e) == 1 || e == err || e.strip() == err.strip()
}

func isMarshal(name string) bool {
	return name == pbPkg+"Marshal" || name == "("+pbPkg+"MarshalOptions).Marshal" || name == "("+pbPkg+"MarshalOptions).MarshalAppend"
}

// codecEncode: a function encoding its message parameter.
func codecEncode(r *Run, root, rule string) {
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 2 {
			return
		}
		b, err := ev.Results[0], ev.Results[1]
		if x.failed(st, err) {
			return
		}
		c, msg, buf := encodedOf(b)
		if c == nil && x.peek != nil && b.isNil() {
			// nothing to encode
			for f, v := range st.facts {
				if v && f.op == "eq" && (f.args[0].strip().op == "param" && f.args[1].isNil()) {
					return
				}
			}
		}
		if !r.At(c != nil, rule, ev, st, "a message is reported as encoded, but its encoding is %v", b) {
			return
		}
		r.At(msg.op == "param" || unAssert(msg).strip().op == "param", rule, ev, st, "what is encoded is not the message given but %v", msg)
		r.At(ownBuffer(buf), rule, ev, st, "the encoding is written into a buffer that other messages are written into too: %v", buf)
		r.At(x.succeeded(st, x.errOf(c), err), rule, ev, st, "a message that could not be encoded is reported as encoded")
	}, nil)
	r.Min(rule, 1)
}

// codecEnvelope: the function that puts a message into the envelope that is published.
func codecEnvelope(r *Run) {
	const rule = "envelope"
	r.exec("internal/bus.serialize", func(x *Exec, st *State, ev *Event) {
		isParam := func(t *Term) bool { t = unAssert(t.strip()).strip(); return t != nil && t.op == "param" }
		if ev.Kind == EvCall && isMarshal(ev.Name) {
			m := ev.Args[len(ev.Args)-1].strip()
			if !isMsg(m, "Msg") {
				return
			}
			st.mon["env"] = m
			url, val, ch := x.peek(st, m, "TypeUrl"), x.peek(st, m, "Value"), x.peek(st, m, "Channel")
			own := url.any(func(u *Term) bool {
				return (strings.HasSuffix(u.aux, ").FullName") || strings.HasSuffix(u.aux, "proto.MessageName") || strings.Contains(u.aux, "anypb.")) && u.any(func(v *Term) bool { return v.op == "param" })
			})
			r.At(own, rule, ev, st, "the envelope does not name the type of the message it carries but %v", url)
			r.At(isParam(ch), rule, ev, st, "the envelope does not carry the local channel it is published on but %v", ch)
			if val.any(func(u *Term) bool { return strings.Contains(u.aux, "anypb.") }) {
				return
			}
			c, msg, buf := encodedOf(val)
			if r.At(c != nil && isParam(msg), rule, ev, st, "the envelope does not carry the encoded message but %v", val) {
				r.At(ownBuffer(buf), rule, ev, st, "the message is encoded into a buffer that other messages are written into too: %v", buf)
				r.At(x.isNilT(st, x.errOf(c)) == 1, rule, ev, st, "a message that could not be encoded is published")
			}
		}
		if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) == 2 {
			b, err := ev.Results[0], ev.Results[1]
			if x.failed(st, err) {
				return
			}
			c, msg, buf := encodedOf(b)
			if r.At(c != nil && msg == st.mon["env"], rule, ev, st, "what is published is not the encoded envelope but %v", b) {
				r.At(ownBuffer(buf), rule, ev, st, "the envelope is encoded into a buffer that other messages are written into too: %v", buf)
				r.At(x.succeeded(st, x.errOf(c), err), rule, ev, st, "an envelope that could not be encoded is published")
			}
		}
	}, nil)
	r.Min(rule, 2)
}

// trackDecode notes the decoding steps of a path: what was decoded, from what, and their errors ("dec:<n>").
func trackDecode(x *Exec, st *State, ev *Event) {
	if ev.Kind != EvRet {
		return
	}
	n := ev.Name
	switch {
	case (n == pbPkg+"Unmarshal" || n == "("+pbPkg+"UnmarshalOptions).Unmarshal") && len(ev.Args) >= 2 && len(ev.Results) == 1:
		msg, src := ev.Args[len(ev.Args)-1], ev.Args[len(ev.Args)-2]
		st.mon["decoded"], st.mon["source"] = unAssert(msg.strip()).strip(), src.strip()
		st.mon["dec:"+itoa(ev.Results[0].id)] = ev.Results[0]
	case strings.HasSuffix(n, "anypb.Any).UnmarshalNew") || strings.HasSuffix(n, "anypb.UnmarshalNew"):
		if len(ev.Results) == 2 {
			st.mon["decoded"] = ev.Results[0].strip()
			st.mon["dec:"+itoa(ev.Results[1].id)] = ev.Results[1]
		}
	}
}

func freshMsg(t *Term) bool {
	return t.any(func(u *Term) bool {
		return u.op == "alloc" || strings.HasSuffix(u.aux, "Message).New") || strings.HasSuffix(u.aux, "MessageType).New") || u.aux == "reflect.New" || strings.HasSuffix(u.aux, "UnmarshalNew")
	}) && !t.any(func(u *Term) bool { return strings.HasPrefix(u.aux, "(*sync.") })
}

// codecDecode: a function returning the message it decodes from its parameter.
func codecDecode(r *Run, root, rule string) {
	r.exec(root, func(x *Exec, st *State, ev *Event) {
		trackDecode(x, st, ev)
		if ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 2 {
			return
		}
		m, err := unAssert(ev.Results[0].strip()).strip(), ev.Results[1]
		if x.failed(st, err) {
			return
		}
		if !r.At(st.has("decoded"), rule, ev, st, "a message is reported as decoded although nothing was decoded on this path: %v", m) {
			return
		}
		for k, e := range st.mon {
			if strings.HasPrefix(k, "dec:") {
				r.At(x.succeeded(st, e, err), rule, ev, st, "bytes that could not be decoded are reported as decoded")
			}
		}
		if root == "internal/bus.deserializeChannel" {
			d := st.mon["decoded"]
			r.At(readsFieldNamed(m, "Channel") != nil || m == x.peek(st, d, "Channel"), rule, ev, st, "the channel a message is routed by is not the one in its envelope but %v", m)
		} else {
			r.At(m == st.mon["decoded"], rule, ev, st, "what is returned is not what was decoded but %v", m)
			r.At(freshMsg(m), rule, ev, st, "a message is decoded into an object that is shared with other messages: %v", m)
		}
		if root == "internal/bus.DeserializePayload" {
			r.At(st.mon["source"].op == "param", rule, ev, st, "what is decoded is not the payload given but %v", st.mon["source"])
		}
	}, nil)
	r.Min(rule, 1)
}

func payloadCodec(r *Run) {
	codecEncode(r, "internal/bus.SerializePayload", "payload-encode")
	codecDecode(r, "internal/bus.DeserializePayload", "payload-decode")
}

func envelopeCodec(r *Run) {
	codecEnvelope(r)
	codecDecode(r, "internal/bus.deserialize", "envelope-decode")
	codecDecode(r, "internal/bus.deserializeChannel", "channel-decode")
}

func p42(r *Run) {
	payloadCodec(r)
	envelopeCodec(r)
	p42Buses(r)
	p42Readers(r)
	p42Pairs(r)
	p42Layout(r)
	pump(r, true)
}

// p42Buses: what a bus sends is the envelope of the message it was given, and a failure to build it is returned.
func p42Buses(r *Run) {
	const rule = "published-bytes"
	for _, root := range []string{"internal/bus.(localMessageBus).Publish", "internal/bus.(redisMessageBus).Publish", "internal/bus.(natsMessageBus).Publish"} {
		nats := strings.Contains(root, "nats")
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvRet && ev.Name == "internal/bus.serialize" && len(ev.Results) == 2 && len(ev.Args) == 2 {
				st.mon["bytes"], st.mon["serr"] = ev.Results[0], ev.Results[1]
				r.At(unAssert(ev.Args[0].strip()).strip().op == "param", rule, ev, st, "the message published is not the one given but %v", ev.Args[0])
				if nats {
					r.At(readsFieldNamed(ev.Args[1], "Local") != nil, rule, ev, st, "the envelope is published with the local channel %v, not the channel's own", ev.Args[1])
				}
			}
			if ev.Kind == EvReturn && ev.Name == "root" && !ev.Truth && len(ev.Results) == 1 {
				if x.failed(st, ev.Results[0]) {
					return
				}
				ok := st.has("serr") && x.succeeded(st, st.mon["serr"], ev.Results[0])
				r.At(ok, rule, ev, st, "publishing succeeds although the message may not have been encoded")
			}
			if ev.Kind == EvCall || ev.Kind == EvSend || ev.Kind == EvBlock {
				for _, b := range sentBytes(ev) {
					if b.op == "param" || b.op == "const" {
						continue
					}
					if r.At(st.has("bytes") && b == st.mon["bytes"].strip(), rule, ev, st, "what is sent is not the envelope built for the message but %v", b) {
						r.At(x.isNilT(st, st.mon["serr"]) == 1, rule, ev, st, "an envelope that could not be built is sent")
					}
				}
			}
		}, nil)
	}
	r.Min(rule, 3)
}

// sentBytes: the byte slices an event hands over to a bus or to a subscriber.
func sentBytes(ev *Event) []*Term {
	var out []*Term
	add := func(t *Term) {
		t = t.strip()
		if t == nil || t.typ == nil || t.typ.Underlying().String() != "[]byte" && t.typ.Underlying().String() != "[]uint8" {
			return
		}
		out = append(out, t)
	}
	switch ev.Kind {
	case EvSend:
		add(ev.Val)
	case EvBlock:
		for _, c := range ev.Sel.Cases {
			if c.Send != nil {
				add(c.Send)
			}
		}
	case EvCall:
		if strings.HasPrefix(ev.Name, "(*github.com/nats-io/nats.go.Conn).Publish") && len(ev.Args) > 2 {
			add(ev.Args[2])
		}
	}
	return out
}

// pump: the goroutine that decodes what a subscription's reader returns and hands it to the subscription's user.
// full: also decide what it hands over; the rest is that it goes on whatever it read.
func pump(r *Run, full bool) {
	const rule = "handed-over"
	r.exec("internal/bus.newSubscription", func(x *Exec, st *State, ev *Event) {
		if st.mon["#go"] == nil {
			return
		}
		got := func() bool { return st.has("raw") && x.truth(st, st.mon["rok"]) != 0 && !st.has("ended") }
		switch ev.Kind {
		case EvRet:
			switch {
			case strings.HasSuffix(ev.Name, "Reader).read") && len(ev.Results) == 2:
				for _, k := range []string{"msg", "derr", "given", "skip", "ended"} {
					delete(st.mon, k)
				}
				st.mon["raw"], st.mon["rok"] = ev.Results[0], ev.Results[1]
			case ev.Name == "internal/bus.deserialize" && len(ev.Results) == 2 && len(ev.Args) == 1:
				if full {
					r.At(st.has("raw") && ev.Args[0].strip() == st.mon["raw"].strip(), rule, ev, st, "what is decoded is not what was read but %v", ev.Args[0])
				}
				st.mon["msg"], st.mon["derr"] = ev.Results[0], ev.Results[1]
			}
		case EvCall:
			if strings.HasSuffix(ev.Name, "Reader).Close") || strings.HasSuffix(ev.Name, "Subscription).Close") {
				r.At(!got(), "serving", ev, st, "the subscription is closed because of a message it received")
			}
		case EvAssume:
			if ev.Cond.op == "istype" && !ev.Truth {
				st.mon["skip"] = x.TT.boolC(true)
			}
			if st.has("rok") && !ev.Truth && (ev.Cond == st.mon["rok"] || readPhi(ev.Cond)) {
				st.mon["ended"] = x.TT.boolC(true)
			}
		case EvSend, EvBlock:
			if !full {
				return
			}
			var vals []*Term
			if ev.Kind == EvSend {
				vals = append(vals, ev.Val)
			} else {
				for _, c := range ev.Sel.Cases {
					if c.Send != nil {
						vals = append(vals, c.Send)
					} else {
						r.At(!ev.Sel.Blocking, rule, ev, st, "a decoded message may be dropped for an open subscription")
					}
				}
				r.At(ev.Sel.Blocking, rule, ev, st, "a decoded message is dropped when its user is slow")
			}
			for _, v := range vals {
				v = unAssert(v.strip()).strip()
				r.At(st.has("msg") && v == unAssert(st.mon["msg"].strip()).strip(), rule, ev, st, "the subscription's user is given %v, not the message read", v)
				r.At(st.has("derr") && x.isNilT(st, st.mon["derr"]) == 1, rule, ev, st, "the subscription's user is given a message that could not be decoded")
				r.At(!st.has("given"), rule, ev, st, "the subscription's user is given one message twice")
				st.mon["given"] = x.TT.boolC(true)
			}
		case EvBack:
			if !full || !st.has("raw") {
				return
			}
			bad := st.has("derr") && x.isNilT(st, st.mon["derr"]) == 0
			r.At(st.has("given") || st.has("skip") || bad || !got(), rule, ev, st, "a message that was read and decoded is not handed to the subscription's user")
		}
	}, func(x *Exec) {
		x.Opaque = func(f fnT) bool { return shortName(f) != "internal/bus.newSubscription" && defaultOpaque(f) }
	})
	if full {
		r.Min(rule, 3)
	}
}

// p42Readers: a reader returns the bytes of the message it took off its channel, as they are.
func p42Readers(r *Run) {
	const rule = "read-bytes"
	it := r.P.Named(busPkg, "Reader")
	if it == nil {
		r.Fail("anchor", "internal/bus.Reader", "-", "the reader interface does not exist", nil)
		return
	}
	for _, t := range r.P.implTypes(it, busPkg) {
		fn := r.P.methodOf(t, "read")
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			if ev.Kind == EvRecv || ev.Kind == EvSelect {
				st.mon["received"] = x.TT.boolC(true)
			}
			if !st.has("received") || ev.Kind != EvReturn || ev.Name != "root" || ev.Truth || len(ev.Results) != 2 || x.truth(st, ev.Results[1]) == 0 {
				return
			}
			b := ev.Results[0]
			if b.isNil() {
				return // the end of the subscription, or a reader that never has anything
			}
			r.At(receivedAsIs(b), rule, ev, st, "what is read is not what was received but %v", b)
		}, nil)
	}
	r.Min(rule, 3)
}

// receivedAsIs: a value received from a channel, or a field of it, converted at most.
func receivedAsIs(t *Term) bool {
	for t != nil {
		t = unstale(t.strip())
		switch t.op {
		case "recv", "recvv", "selrecv":
			return true
		case "load", "sload", "faddr", "field", "peek", "conv", "convert", "extract":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// p42Pairs: a queued message is published on the channel it was queued with.
func p42Pairs(r *Run) {
	const rule = "paired"
	isPub := func(name string) bool {
		return strings.Contains(name, "redis/go-redis") && strings.HasSuffix(name, ").Publish")
	}
	n := 0
	for _, fn := range r.P.pkgFuncs("internal/bus") {
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Publish" && strings.Contains(c.Call.Method.FullName(), "redis/go-redis") {
					found = true
				}
			}
		}
		if !found {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		n++
		r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
			if ev.Kind != EvCall || !isPub(ev.Name) || len(ev.Args) != 4 {
				return
			}
			c, b := ev.Args[2], unAssert(ev.Args[3].strip())
			of := func(t *Term) *Term {
				t = unstale(t.strip())
				switch t.op {
				case "load", "sload":
					t = t.args[0]
				}
				if t.op == "faddr" || t.op == "field" || t.op == "peek" {
					return unstale(t.args[0].strip())
				}
				return nil
			}
			if c.strip().op == "param" || b.strip().op == "param" {
				return
			}
			cb, bb := of(c), of(b)
			r.At(cb != nil && bb != nil && sameShape(cb, bb), rule, ev, st, "a queued message (%v) is published on a channel that was not queued with it: %v", b, c)
		}, nil)
	}
	if n > 0 {
		r.Min(rule, 1)
	}
}

// fieldNumber: the wire number of a field of a generated message, from its tag.
func fieldNumber(n *types.Named, field string) string {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			parts := strings.Split(reflect.StructTag(s.Tag(i)).Get("protobuf"), ",")
			if len(parts) > 1 {
				return parts[0] + " " + parts[1]
			}
		}
	}
	return ""
}

// p42Layout: the envelope is read back as two other messages (its type and value, and its channel): their fields have
// the same wire type and number.
func p42Layout(r *Run) {
	const rule = "wire-layout"
	msg, ch := r.P.Named("internal", "Msg"), r.P.Named("internal", "Channel")
	var anyT *types.Named
	for _, sp := range r.P.SSA.AllPackages() {
		if sp.Pkg.Path() == "google.golang.org/protobuf/types/known/anypb" {
			if o := sp.Pkg.Scope().Lookup("Any"); o != nil {
				anyT, _ = types.Unalias(o.Type()).(*types.Named)
			}
		}
	}
	if msg == nil || ch == nil || anyT == nil {
		r.Fail("anchor", "internal.Msg", "-", "the envelope's message types were not found", nil)
		return
	}
	same := func(n *types.Named, f string) {
		a, b := fieldNumber(msg, f), fieldNumber(n, f)
		name := "internal.Msg." + f + " / " + namedOf(n) + "." + f
		r.Check(a != "" && a == b, rule, name, r.P.Pos(msg.Obj().Pos()), "the envelope's "+f+" is written as field "+a+" but read as field "+b, nil)
	}
	same(anyT, "TypeUrl")
	same(anyT, "Value")
	same(ch, "Channel")
	r.Min(rule, 3)
}
