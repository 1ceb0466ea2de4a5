package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("P18", "for every publish and subscribe of the client and server, the channel term (constructor and arguments) is normalised to the roles of its arguments; for each message kind the shapes published must be the shapes subscribed, the request information in them must be that of the method and topic called, each bus must key Publish and Subscribe by the same channel field, and the origin ids sent must be the ids subscribed under", p18)
}

const busChannel = "internal/bus.Channel"

// chanShape normalises a channel value: its constructor and the role of each argument. ok is false if a role is unknown.
func (x *Exec) chanShape(st *State, ch *Term) string {
	c := ch.strip()
	if c == nil || c.op != "pcall" || !strings.HasPrefix(strings.TrimLeft(c.aux, "(*"), "pkg/info.") {
		return "?"
	}
	var parts []string
	for _, a := range c.args {
		parts = append(parts, x.chanArg(st, a))
	}
	return lastName(c.aux) + "(" + strings.Join(parts, ",") + ")"
}

func isInfo(t *Term, name string) bool {
	return t != nil && t.typ != nil && strings.HasSuffix(namedOf(derefNamed(t.typ)), "info."+name)
}

// chanArg: the role of a channel argument: origin (who sent the request), self, service, info, another message field,
// a field to be resolved by what is stored in it (@), or unknown (?).
func (x *Exec) chanArg(st *State, a *Term) string {
	a = a.strip()
	if a == nil {
		return "?"
	}
	if a.isConst() {
		return "const " + a.String()
	}
	if fieldRead(a, "internal.Request", "ClientId") != nil || fieldRead(a, "internal.StreamOpen", "NodeId") != nil {
		return "origin"
	}
	if a == st.mon["self"] {
		return "self"
	}
	if isInfo(a, "RequestInfo") {
		return "info"
	}
	for _, n := range []string{"Name", "ID"} {
		if o := readsFieldNamed(a, n); isInfo(o, "ServiceDefinition") {
			return map[string]string{"Name": "service", "ID": "self"}[n]
		}
	}
	var f *Term
	switch {
	case (a.op == "sload" || a.op == "load") && a.args[0].op == "faddr":
		f = a.args[0]
	case a.op == "field" || a.op == "peek":
		f = a
	}
	if f != nil && f.args[0].typ != nil {
		if n := namedOf(derefNamed(f.args[0].typ)); strings.HasPrefix(n, "internal.") {
			return strings.TrimPrefix(n, "internal.") + "." + f.aux
		}
	}
	if f != nil && f.obj != nil {
		if v, ok := f.obj.(*types.Var); ok && v.Pkg() != nil {
			return "@" + v.Pkg().Path() + "." + v.Name() + fmt.Sprint(v.Pos())
		}
	}
	return "?"
}

func p18(r *Run) {
	envelopeCodec(r)
	p18Shapes(r)
	p18Buses(r)
	for n, m := range map[string]int{"channel-match": 8, "own-info": 5, "origin-sent": 3, "bus-key": 3} {
		r.Min(n, m)
	}
}

func p18Shapes(r *Run) {
	type use struct{ kind, shape string }
	type where struct {
		pos, fn string
	}
	pubs, subs := map[use]where{}, map[use]where{}
	stored := map[string]map[string]bool{}
	mon := func(side string) monFunc {
		return func(x *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvStore:
				if ev.Addr.op != "faddr" {
					return
				}
				v, ok := ev.Addr.obj.(*types.Var)
				if !ok || v.Pkg() == nil {
					return
				}
				if v.Name() == "ID" && isInfo(ev.Addr.args[0], "ServiceDefinition") {
					r.At(!st.has("subbed"), "id-stable", ev, st, "the client's id changes after it subscribed under it: replies to the new id reach nobody")
					st.mon["self"] = ev.Val.strip()
				}
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					k := "@" + v.Pkg().Path() + "." + v.Name() + fmt.Sprint(v.Pos())
					if stored[k] == nil {
						stored[k] = map[string]bool{}
					}
					stored[k][x.chanArg(st, ev.Val)] = true
				}
			case EvCall:
				s := side
				if ev.Fn != nil && ev.Fn.Pkg != nil {
					switch strings.TrimPrefix(ev.Fn.Pkg.Pkg.Path(), modPath+"/") {
					case "pkg/client":
						s = "client"
					case "pkg/server":
						s = "server"
					}
				}
				var ch *Term
				if p := publishOf(ev); p != nil {
					k := p.kind
					if k == "" {
						k = "payload"
					}
					pubs[use{s + " " + k, x.chanShape(st, p.channel)}] = where{r.P.Pos(ev.Instr.Pos()), shortName(ev.Fn)}
					ch = p.channel
					x.originSent(r, st, ev, p)
				}
				if u := subscribeOf(ev); u != nil {
					subs[use{s + " " + u.kind, x.chanShape(st, u.channel)}] = where{r.P.Pos(ev.Instr.Pos()), shortName(ev.Fn)}
					ch = u.channel
					if strings.Contains(x.chanShape(st, ch), "self") {
						st.mon["subbed"] = x.TT.boolC(true)
						r.At(true, "id-stable", ev, st, "")
					}
				}
				if c := ch.strip(); c != nil && c.op == "pcall" && len(c.args) == 1 && isInfo(c.args[0], "RequestInfo") {
					x.ownInfo(r, st, ev, c.args[0].strip())
				}
			}
		}
	}
	for _, n := range []string{"pkg/client.NewRPCClient", "pkg/client.RequestSingle", "pkg/client.RequestMulti", "pkg/client.OpenStream", "pkg/client.Join", "pkg/client.JoinQueue"} {
		r.exec(n, mon("client"), nil)
	}
	for _, n := range []string{"pkg/server.RegisterHandler", "pkg/server.RegisterStreamHandler", "pkg/server.(RPCServer).Publish"} {
		r.exec(n, mon("server"), nil)
	}
	resolve := func(sh string) string {
		for k, v := range stored {
			if len(v) == 1 && strings.Contains(sh, k) {
				for c := range v {
					sh = strings.ReplaceAll(sh, k, c)
				}
			}
		}
		return sh
	}
	// the peer of a reply is the one whose id the request carried
	peer := func(sh string) string {
		l := strings.Index(sh, "(")
		if l < 0 {
			return sh
		}
		return sh[:l] + strings.ReplaceAll(strings.ReplaceAll(sh[l:], "origin", "peer"), "self", "peer")
	}
	want := map[string]map[string]bool{}
	for u := range subs {
		sh := resolve(u.shape)
		if strings.Contains(sh, "@") || strings.Contains(sh, "?") {
			continue
		}
		// a subscriber is reached under its own id
		if want[u.kind] == nil {
			want[u.kind] = map[string]bool{}
		}
		if strings.Contains(sh, "origin") {
			r.Check(false, "channel-match", "subscribe "+u.kind+" in "+subs[u].fn, subs[u].pos, "a receiver subscribes under the id of a message it received, not under its own: "+sh, nil)
			continue
		}
		want[u.kind][peer(sh)] = true
	}
	other := map[string]string{"client": "server", "server": "client"}
	var us []use
	for u := range pubs {
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].kind+us[i].shape < us[j].kind+us[j].shape })
	reached := map[string]bool{}
	for _, u := range us {
		sh := resolve(u.shape)
		side, kind, _ := strings.Cut(u.kind, " ")
		w := want[other[side]+" "+kind]
		if len(w) == 0 {
			r.Check(false, "channel-match", "publish "+u.kind+" in "+pubs[u].fn, pubs[u].pos, "a "+side+" publishes a "+kind+" message but no "+other[side]+" subscribes to any", nil)
			continue
		}
		if strings.Contains(sh, "@") || strings.Contains(sh, "?") {
			r.notes = append(r.notes, "channel of a published "+kind+" not resolved: "+sh)
			continue
		}
		ok := w[peer(sh)] && !strings.Contains(sh[strings.Index(sh, "("):], "self")
		if ok {
			reached[other[side]+" "+kind+peer(sh)] = true
		}
		r.Check(ok, "channel-match", "publish "+u.kind+" "+sh, pubs[u].pos, fmt.Sprintf("a %s publishes a %s on %s, which no %s subscribes to (it subscribes to %v)", side, kind, sh, other[side], keysOf(w)), nil)
	}
	for k, w := range want {
		for sh := range w {
			r.Check(reached[k+sh], "channel-match", "subscribe "+k+" "+sh, "-", "a "+k+" subscription on "+sh+" that nothing is published on", nil)
		}
	}
}

// ownInfo: the request information a channel is made from names the method, topic and service called.
func (x *Exec) ownInfo(r *Run, st *State, ev *Event, i *Term) {
	f := structFieldVar(i.typ, "RPCInfo")
	if i.op != "alloc" || f == nil {
		return
	}
	ri := x.faddr(i, f, types.NewPointer(f.Type()))
	m, t, s := x.peek(st, ri, "Method"), x.peek(st, ri, "Topic"), x.peek(st, ri, "Service")
	r.At(m.op == "param" && isString(m.typ), "own-info", ev, st, "the channel is made from method %v, not from the method called", m)
	r.At(t.op == "param", "own-info", ev, st, "the channel is made from topic %v, not from the topic called", t)
	r.At(x.chanArg(st, s) == "service", "own-info", ev, st, "the channel is made from service %v, not from the own service's name", s)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// originSent: the id a request names as its origin is the id the sender is subscribed under.
func (x *Exec) originSent(r *Run, st *State, ev *Event, p *pubInfo) {
	var id *Term
	switch p.kind {
	case "Request":
		id = x.peek(st, p.msg, "ClientId")
	case "Stream":
		k, b := x.bodyOf(st, p.msg)
		if k != "Open" {
			return
		}
		o := x.peek(st, b, "Open")
		id = x.peek(st, o, "NodeId")
	default:
		return
	}
	if id == nil || id.op == "phi" || id.op == "stale" {
		return
	}
	r.At(x.chanArg(st, id) == "self", "origin-sent", ev, st, "the request names %v as its origin, not the id its sender subscribes under", id)
}

// p18Buses: every bus keys a published message and a subscription by the same field of the channel.
func p18Buses(r *Run) {
	for _, t := range r.buses() {
		wire, all := map[string]map[string]bool{}, map[string]map[string]bool{}
		payload := map[string]bool{}
		for _, m := range []string{"Publish", "Subscribe", "SubscribeQueue"} {
			fn := r.P.methodOf(t, m)
			if fn == nil {
				continue
			}
			wire[m], all[m] = map[string]bool{}, map[string]bool{}
			use := func(set map[string]bool, t *Term) {
				if t == nil {
					return
				}
				t.any(func(u *Term) bool {
					for _, f := range []string{"Legacy", "Server", "Local"} {
						if fieldRead(u, busChannel, f) != nil {
							set[f] = true
						}
					}
					return false
				})
			}
			r.execFn(shortName(fn), fn, func(x *Exec, st *State, ev *Event) {
				switch ev.Kind {
				case EvCall:
					if ev.Name == pubName || strings.HasPrefix(ev.Name, "(internal/bus.") {
						break // a wrapped bus
					}
					if ev.Callee != nil && ev.Callee.Pkg != nil && strings.HasPrefix(ev.Callee.Pkg.Pkg.Path(), modPath) {
						if strings.HasPrefix(ev.Name, busPkg+".serialize") {
							for _, a := range ev.Args {
								use(payload, a)
								use(all[m], a)
							}
						}
						break
					}
					if strings.HasPrefix(ev.Name, "fmt.") || strings.HasPrefix(ev.Name, "errors.") {
						break
					}
					for _, a := range ev.Args {
						use(all[m], a)
						if isString(a.typ) && !strings.Contains(ev.Name, "xxh3") {
							use(wire[m], a)
						}
					}
				case EvLookup, EvMapUpd, EvMapDel:
					use(all[m], ev.Key)
				case EvStore:
					use(all[m], ev.Val)
				case EvAppend:
					for _, a := range ev.Args {
						use(all[m], a)
					}
				}
			}, nil)
		}
		name := namedOf(derefNamed(t))
		for _, m := range []string{"Subscribe", "SubscribeQueue"} {
			if len(all["Publish"]) == 0 || len(all[m]) == 0 {
				continue
			}
			same := fmt.Sprint(keysOf(all["Publish"])) == fmt.Sprint(keysOf(all[m]))
			r.Check(same, "bus-key", name+"."+m, r.P.Pos(r.P.methodOf(t, m).Pos()), fmt.Sprintf("Publish uses the channel's %v but %s its %v", keysOf(all["Publish"]), m, keysOf(all[m])), nil)
			if len(wire["Publish"]) > 0 && len(wire[m]) > 0 {
				same := fmt.Sprint(keysOf(wire["Publish"])) == fmt.Sprint(keysOf(wire[m]))
				r.Check(same, "bus-key", name+"."+m+" transport", r.P.Pos(r.P.methodOf(t, m).Pos()), fmt.Sprintf("the transport is given the channel's %v to publish but its %v to subscribe", keysOf(wire["Publish"]), keysOf(wire[m])), nil)
			}
		}
	}
}
