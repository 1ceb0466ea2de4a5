package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func p17(r *Run) {
	p17Publish(r)
	p17Deliver(r)
	p17Workers(r)
	p17Batch(r)
	p17Streams(r)
	for rule, n := range map[string]int{"no-goroutine": 3, "bucket": 1, "append-end": 1, "one-worker": 1, "batch": 1, "ascending": 1, "stream-inline": 3} {
		r.Min(rule, n)
	}
}

// p17Publish: a bus hands a message to its transport, or appends it to its channel's own queue, before Publish returns.
func p17Publish(r *Run) {
	for _, t := range r.buses() {
		fn := r.P.methodOf(t, "Publish")
		if fn == nil {
			continue
		}
		r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvGo:
				r.At(false, "no-goroutine", ev, st, "Publish starts a goroutine: messages published in sequence may overtake each other")
			case EvReturn:
				if ev.Name == "root" && !ev.Truth {
					r.At(true, "no-goroutine", ev, st, "")
				}
			case EvLoad:
				// choosing one of several queues
				if ev.Addr.op == "iaddr" && ev.Val != nil && isQueueType(r.P, ev.Val.typ) {
					p17Bucket(r, x, st, ev, ev.Addr.args[1])
				}
			case EvAppend:
				if len(ev.Args) == 2 && elemIsQueued(ev.Args[0], ev.Args[1]) {
					r.At(isFieldLoad(ev.Args[0]) || !x.mentionsParam(st, ev.Args[0], 2), "append-end", ev, st, "a message is put in front of the messages already queued")
					if x.mentionsParam(st, ev.Args[1], 1) {
						r.At(len(st.locks) > 0, "append-end", ev, st, "a message is queued without holding the queue's lock")
					}
				}
			}
		}, nil)
	}
}

func isFieldLoad(t *Term) bool {
	t = t.strip()
	return t != nil && (t.op == "load" || t.op == "sload") && t.args[0].op == "faddr"
}

// madeIn: the object is allocated anew in each iteration of the loop.
func madeIn(t *Term, ev *Event) bool {
	t = t.strip()
	if t == nil || t.site == nil || ev.Loop == nil {
		return false
	}
	fn := ev.Loop.header.Parent()
	if t.site.instr != nil && t.site.instr.Parent() == fn && ev.Loop.body[t.site.instr.Block()] {
		return true
	}
	for c := t.site.ctx; c != nil; c = c.parent {
		if c.call != nil && c.call.Parent() == fn && ev.Loop.body[c.call.Block()] {
			return true
		}
	}
	return false
}

func elemIsQueued(a, b *Term) bool {
	t := a.typ
	if t == nil {
		t = b.typ
	}
	if t == nil {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, isB := s.Elem().Underlying().(*types.Basic)
	return !isB
}

// mentionsParam: the value depends on parameter number n or later of the root.
func (x *Exec) mentionsParam(st *State, t *Term, n int) bool {
	f := func(u *Term) bool {
		return u.op == "param" && !strings.HasPrefix(namedOf(derefNamed(u.typ)), "internal/bus.redis")
	}
	return t.any(f) || x.reach(st, t, f)
}

// isQueueType: a queue of messages to publish: its methods publish through a pipeline.
func isQueueType(p *Program, t types.Type) bool {
	if t == nil {
		return false
	}
	n := derefNamed(t)
	for _, f := range p.publishers() {
		for _, g := range append([]*ssa.Function{f}, goCallers(p, f)...) {
			for g.Parent() != nil {
				g = g.Parent()
			}
			if rv := g.Signature.Recv(); rv != nil && derefNamed(rv.Type()) == n {
				return true
			}
		}
	}
	return false
}

// publishers: functions of the bus package that send messages through the Redis client.
func (p *Program) publishers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.pkgFuncs(busPkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc := callCommon(in); cc != nil && isRedisPublish(cc) {
					out = append(out, fn)
				}
			}
		}
	}
	return out
}

func isRedisPublish(cc *ssa.CallCommon) bool {
	var o *types.Func
	if cc.Method != nil {
		o = cc.Method
	} else if f := cc.StaticCallee(); f != nil {
		o, _ = f.Object().(*types.Func)
	}
	return o != nil && o.Name() == "Publish" && o.Pkg() != nil && strings.Contains(o.Pkg().Path(), "redis")
}

func p17Bucket(r *Run, x *Exec, st *State, ev *Event, ix *Term) {
	bad := ""
	ix.any(func(u *Term) bool {
		switch {
		case u.op == "param" && !(u.typ != nil && strings.HasSuffix(namedOf(u.typ), "bus.Channel")) && !strings.HasSuffix(u.typ.String(), "string"):
			if !strings.HasPrefix(namedOf(derefNamed(u.typ)), "internal/bus.") {
				bad = u.String()
			}
		case (u.op == "call" || u.op == "pcall") && (strings.HasPrefix(u.aux, "time.") || strings.HasPrefix(u.aux, "math/rand") || strings.Contains(u.aux, "atomic")):
			bad = u.String()
		case u.op == "load" && u.typ != nil && isIntT(u.typ):
			bad = u.String()
		}
		return bad != ""
	})
	if !r.At(bad == "", "bucket", ev, st, "the queue a message is put in depends on %s, not on its channel alone", bad) {
		return
	}
	r.At(ix.isConst() || ix.any(func(u *Term) bool { return u.op == "param" }), "bucket", ev, st, "the queue a message is put in does not depend on its channel: %v", ix)
}

// p17Deliver: between receiving a message and writing it to the subscriptions no goroutine is started.
func p17Deliver(r *Run) {
	for _, t := range r.buses() {
		for f, roots := range r.busSenders(t) {
			for _, root := range roots {
				ctor := root.Signature.Recv() == nil
				r.execFn(shortName(root), root, func(x *Exec, st *State, ev *Event) {
					if ev.Kind == EvGo {
						r.At(ctor && st.mon["#go"] == nil, "no-goroutine", ev, st, "a message is passed on in a new goroutine: it may be overtaken by the next one")
					}
					if ch := sendOn(ev, f); ch != nil {
						r.At(true, "no-goroutine", ev, st, "")
					}
				}, nil)
			}
		}
	}
	r.exec("internal/bus.newSubscription", func(x *Exec, st *State, ev *Event) {
		if ev.Kind == EvGo {
			r.At(st.mon["#go"] == nil && !st.has("pump"), "no-goroutine", ev, st, "a subscription's messages are passed on by more than one goroutine")
			st.mon["pump"] = x.TT.boolC(true)
		}
	}, nil)
}

// p17Workers: one worker per queue, one reader per connection, started by the constructor.
func p17Workers(r *Run) {
	for _, t := range r.buses() {
		if !mentionsPkg(t, "redis") {
			continue
		}
		it := derefNamed(t)
		for _, fn := range r.P.pkgFuncs(busPkg) {
			if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
				continue
			}
			// constructors: return the bus interface and allocate this type
			if !allocates(fn, it) {
				continue
			}
			fn := fn
			started := map[*ssa.Function]bool{}
			r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
				if ev.Kind == EvBack {
					for k, v := range st.mon {
						if strings.HasPrefix(k, "go:") && madeIn(v, ev) {
							delete(st.mon, k)
						}
					}
				}
				if ev.Kind != EvGo || st.mon["#go"] != nil {
					return
				}
				k := "go:" + ev.Name
				for _, a := range ev.Args {
					k += fmt.Sprintf(",%d", a.id)
				}
				r.At(!st.has(k), "one-worker", ev, st, "a second worker is started on the same queue or connection")
				st.mon[k] = x.TT.boolC(true)
				if len(ev.Args) > 0 {
					st.mon[k] = ev.Args[0]
				}
				if ev.Callee != nil {
					started[ev.Callee] = true
				}
			}, nil)
		}
	}
}

func allocates(fn *ssa.Function, t types.Type) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && derefNamed(a.Type()) == t {
				return true
			}
		}
	}
	return false
}

// p17Batch: the worker takes the whole queue in one critical section and publishes it front to back.
func p17Batch(r *Run) {
	seen := map[*ssa.Function]bool{}
	for _, pf := range r.P.publishers() {
		root := pf
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, e := range append([]*ssa.Function{root}, goCallers(r.P, root)...) {
			if seen[e] {
				continue
			}
			seen[e] = true
			p17Worker(r, e)
		}
	}
}

// goCallers climbs from a function to those that call it, up to the functions a go statement starts.
func goCallers(p *Program, fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{fn: true}
	var climb func(fn *ssa.Function)
	climb = func(fn *ssa.Function) {
		for _, f := range p.pkgFuncs(busPkg) {
			if seen[f] || f.Parent() != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cc := callCommon(in); cc != nil && cc.StaticCallee() == fn && !seen[f] {
						if _, isGo := in.(*ssa.Go); !isGo {
							seen[f] = true
							out = append(out, f)
							climb(f)
						}
					}
				}
			}
		}
	}
	climb(fn)
	return out
}

func p17Worker(r *Run, fn *ssa.Function) {
	isList := func(t *Term) *types.Var { // &queue.messages
		if t == nil || t.op != "faddr" {
			return nil
		}
		v := t.obj.(*types.Var)
		s, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		if _, b := s.Elem().Underlying().(*types.Basic); b {
			return nil
		}
		return v
	}
	r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvCall:
			if isLock(ev) {
				delete(st.mon, "taken")
				delete(st.mon, "reset")
			}
			if isUnlock(ev) {
				if st.has("taken") {
					r.At(st.has("reset"), "batch", ev, st, "the queue is read but not emptied in the same critical section: messages are published again or lost")
				}
				delete(st.mon, "taken")
			}
			if cc := callCommon(ev.Instr); cc != nil && isRedisPublish(cc) {
				// the message is an element of the batch
				bad := false
				n := 0
				for _, a := range ev.Args {
					a.any(func(u *Term) bool {
						if u.op == "iaddr" {
							n++
							ix := u.args[1]
							if ix.any(func(w *Term) bool {
								return w.op == "binop" && w.aux == "-" || w.op == "len"
							}) {
								bad = true
							}
						}
						return false
					})
				}
				if n > 0 {
					r.At(!bad, "ascending", ev, st, "the messages of a batch are not published front to back")
				}
				r.At(st.mon["#go"] == nil, "ascending", ev, st, "the messages of a batch are published by separate goroutines")
			}
		case EvGo:
			r.At(false, "ascending", ev, st, "the worker starts a goroutine: batches may overtake each other")
		case EvLoad:
			if isList(ev.Addr) != nil && len(st.locks) > 0 {
				st.mon["taken"] = x.TT.boolC(true)
			}
			if isList(ev.Addr) != nil {
				r.At(len(st.locks) > 0, "batch", ev, st, "the queue is read without holding its lock")
			}
		case EvStore:
			if v := isList(ev.Addr); v != nil {
				r.At(len(st.locks) > 0, "batch", ev, st, "the queue is emptied without holding its lock")
				b := ev.Val.strip()
				r.At(!(b.op == "slice" && loadOf(b.args[0], v)), "batch", ev, st, "the emptied queue shares its memory with the batch being published: later messages overwrite it")
				if b.op == "append" && loadOf(b.args[0], v) {
					r.At(false, "batch", ev, st, "messages of an earlier batch are queued again behind later ones")
				}
				if st.has("taken") {
					st.mon["reset"] = x.TT.boolC(true)
				} else if b.isNil() || b.op == "mkslice" || b.op == "slice" {
					r.At(false, "batch", ev, st, "the queue is emptied in another critical section than it was read in: messages queued in between are lost")
				}
			}
		}
	}, nil)
}

// p17Streams: stream messages are passed on inline from the bus to the stream's receive channel, and sent inline.
func p17Streams(r *Run) {
	f := r.P.streamFields()
	if f == nil || f.recv == nil {
		r.Fail("anchor", "internal/stream", "-", "the stream's receive channel was not found", nil)
		return
	}
	// the distribution loops (one goroutine) hand stream messages over themselves
	for _, root := range []string{"pkg/client.NewRPCClient", "pkg/server.RegisterStreamHandler"} {
		r.exec(root, func(x *Exec, st *State, ev *Event) {
			ch := sendOn(ev, f.recv)
			if ch == nil && ev.Kind == EvBlock {
				for _, c := range ev.Sel.Cases {
					if c.Dir == types.SendOnly && chanElemIs(c.T, "internal.Stream") {
						ch = c.Chan
					}
				}
			}
			if ch == nil && ev.Kind == EvSend && ev.ChanT != nil && chanElemIs(ev.ChanT, "internal.Stream") {
				ch = ev.Addr
			}
			if ch != nil {
				r.At(sameShape(st.mon["#go"], x.TT.intC(1)), "stream-inline", ev, st, "a stream message is passed on in a new goroutine: it may be overtaken by the next one")
			}
		}, nil)
	}
	r.exec("internal/stream.(stream).HandleStream", func(x *Exec, st *State, ev *Event) {
		if ch := sendOn(ev, f.recv); ch != nil {
			r.At(st.mon["#go"] == nil, "stream-inline", ev, st, "a stream message is written to the receive channel by a new goroutine")
		}
	}, nil)
	r.exec("internal/stream.(streamBase).Send", func(x *Exec, st *State, ev *Event) {
		if adapterSend(ev) {
			r.At(st.mon["#go"] == nil, "stream-inline", ev, st, "a stream message is published by a new goroutine")
		}
	}, adapterOpaque)
}
