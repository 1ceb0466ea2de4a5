#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design/head.md, one section per property (title and why from properties.jsonl, rule from the
checker's register() call, oracle/bounds below), tools/design/tail.md with the seeded bugs and mutant counts filled in."""
import json, re, glob, os, runpy, collections
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rules = {}
for f in sorted(glob.glob('checker/*.go')):
    for m in re.finditer(r'register\("(P\d+)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m.group(1)] = (json.loads('"' + m.group(2) + '"'), os.path.basename(f))
# what the rule is compared with, and where its reach ends
ORACLE = {
'P01': ("the error taxonomy of errors.go and the wire fields Code, Error, ErrorDetails, RawResponse", "an error with code OK and an empty text is outside the statement (it has neither)"),
'P02': ("a table transcribed from the documentation in errors.go and from the gRPC code list", "exhaustive over the defined codes, plus one symbolic undefined code"),
'P03': ("the claim protocol of README and internal.proto", "holds per request of one server; two servers are separated by the grant naming one server id"),
'P04': ("the claim protocol of README and internal.proto", "per request; what the bus duplicates is P15/P40"),
'P05': ("the comments on SelectionOpts", "fairness between equal servers is P39"),
'P06': ("Expiry and SentAt of internal.proto", "clocks of different hosts are taken as equal, as the protocol does"),
'P07': ("the timeouts of RequestOpts and the context contract", "that timers fire is the contract of package time; how late is P41; a user's interceptor or hook may take as long as it likes"),
'P08': ("role of the distribution goroutine: it receives from a bus subscription", "a loop that polls is reported too (`loop-idle`)"),
'P09': ("entries and contexts created in the call itself", "memory retained by third-party clients is out of reach"),
'P10': ("the routing table read by the distribution loop for that message kind", "that a subscription is live when Subscribe returns is the bus server's contract"),
'P11': ("StreamAck and StreamMessage of internal.proto", "acceptance is the write into the channel, not consumption"),
'P12': ("Go's rules for channels", "decided for every implementation reachable from the stream API"),
'P13': ("StreamClose of internal.proto", "a peer that vanished without closing is P07/P32"),
'P14': ("Go's rules for channels; contracts of redis and nats callbacks", "a blocked Close of the third-party client is out of reach"),
'P15': ("one write per dispatch; SETNX lock; NATS queue group", "the Redis lock's expiry and de-duplication by content are recorded as a limitation below"),
'P16': ("the lists a bus keeps per channel", "what the Redis or NATS server drops is P40"),
'P17': ("order of the publishing calls of one goroutine", "order between publishers is unspecified"),
'P18': ("the sender's and receiver's channel terms must be equal up to roles", "a hash collision of the Redis queues is irrelevant, names are compared"),
'P19': ("the naming scheme documented in internal/bus/channels and the NATS subject rules", "two deliberately crafted topics that collide through the `.Q` suffix are recorded as a limitation"),
'P20': ("doc comment of RPCServer.Close", "stream handlers are not awaited by design (the stream is closed, the handler is not)"),
'P21': ("RegisterHandler's errors", "across processes registration is not unique by design"),
'P22': ("doc of RegistererSlice in pkg/server/register.go", "members are opaque callbacks"),
'P23': ("order of configuration", "an interceptor may itself call its continuation any number of times"),
'P24': ("ClientRequestHook and ClientResponseHook docs", "hooks themselves are opaque"),
'P25': ("RetryOptions docs", "MaxAttempts 0 is recorded as a limitation; waiting times are compared as terms, not as seconds"),
'P26': ("the MetricsObserver interface", "a multi request whose send fails before it is sent is recorded as a limitation"),
'P27': ("Go's panic and recover rules", "runtime.Goexit and fatal errors cannot be recovered by anyone"),
'P28': ("docs of pkg/metadata", "NewContextWithOutgoingMetadata keeps the caller's map, as documented"),
'P29': ("lock sets inferred from the code: a field used under a lock somewhere is to be used under it everywhere", "locks of third-party code are not modelled; Kill during a running Shutdown waits for it (below)"),
'P30': ("the two tables, wanted and current", "convergence needs a reachable Redis; the retry after a failure is decided, its success is not"),
'P31': ("Go's panicking operations", "out-of-memory and panics inside protobuf are out of reach"),
'P32': ("what the construction started", "ending is decided up to the third-party Close calls"),
'P33': ("the options of protoc-gen-psrpc/options", "combinations of options enumerated exhaustively (72); the rest of the descriptor is symbolic"),
'P34': ("the prefixes in pkg/rand", "collisions are P38"),
'P35': ("docs of the option constructors", "every option constructor found in the repository"),
'P36': ("OpenTelemetry's propagator and span contract", "exporting is out of reach"),
'P37': ("the parameters of RegisterMethod / RegisterHandler", "flags registered differently on the two sides by hand-written code are the user's contract; generated code is P33"),
'P43': ("the documented code of each predefined error and the contract of errors.Is/As/Unwrap", "the wording of messages"),
'P44': ("the contract of an interceptor: a function given the next handler and returning a handler", "what an interceptor does with its handler is its own business"),
'P42': ("the protobuf API's contract (Marshal encodes, Unmarshal decodes into what it is given, both report failure) and the field roles of the envelope", "the protobuf library itself and the transports"),
}
NA = runpy.run_path('tools/gen_manifest.py')['NA']
props = [json.loads(l) for l in open('properties.jsonl')]
cnt = collections.Counter(); quiet = 0
for f in sorted(glob.glob('tools/mutants/*.py')):
    for m in runpy.run_path(f)['M']:
        if not m[1]: quiet += 1
        for p in m[1]: cnt[p] += 1
seeds = collections.defaultdict(list)
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f)); seeds[d['property']].append((f.split('/')[1], d))
out = [open('tools/design/head.md').read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    if i not in rules: continue
    rule, src = rules[i]
    o, b = ORACLE[i]
    out += [f"### {i} {p['title']}", '',
      f"*Decided by* (`checker/{src}`): {rule}.", '',
      f"*Against*: {o}. *Bounds*: no bound on inputs, schedules or loop counts (fixpoint over abstract paths); {b}. "
      f"*Anchors*: {', '.join(p['anchors']['files'])}.", '',
      f"*Why tests cannot*: {p['why_tests_cant']}", '',
      f"*Tried against*: {cnt[i]} source mutants" + (f", planted bugs {', '.join(s for s,_ in seeds[i])}" if seeds[i] else '') + ".", '']
out += ['## Not applicable', '']
for p in props:
    if p['id'] not in rules: out.append(f"* **{p['id']} {p['title']}**: {NA[p['id']]}.")
tail = open('tools/design/tail.md').read()
rows = ['| planted bug | property | caught by | what it breaks |', '|---|---|---|---|']
for i in sorted(seeds):
    for s, d in seeds[i]:
        rows.append(f"| {s} | {i} | {d.get('caught_by', i)} | {d['what_it_breaks']} |")
tail = tail.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NMUT@@', str(sum(cnt.values()))).replace('@@NQUIET@@', str(quiet))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n\n' + tail)
