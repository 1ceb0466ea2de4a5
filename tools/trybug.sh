#!/bin/bash
# trybug.sh ID [edit.py]: (re)makes seeded/ID/patch.diff by running edit.py in a copy of /repo (when given), then confirms the
# planted bug: applies, builds, passes the stable tests, demo passes without it and fails with it, and which checks catch it.
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/trybug-$id
rm -rf "/tmp/trybug-$id"; cp -a /repo "$W"; cd "$W" || exit 2
if [ $# -gt 1 ]; then python3 "$2" || exit 2; git diff > "$S/patch.diff"; git checkout -q -- .; fi
[ -s "$S/patch.diff" ] || { echo "$id: empty patch"; exit 2; }
bash "$S/demo.sh" > /tmp/trybug-$id.clean.log 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... > /tmp/trybug-$id.build.log 2>&1 || { echo "$id: does not build"; cat /tmp/trybug-$id.build.log; exit 2; }
go vet ./... > /dev/null 2>&1 || echo "$id: vet complains"
bash "$S/demo.sh" > /tmp/trybug-$id.bug.log 2>&1; b=$?
mkdir -p "/tmp/trybug-$id-d"; python3 /opt/vp/gen/docker_ping.py "/tmp/trybug-$id-d/docker.sock" & ping=$!
for _ in $(seq 50); do [ -S "/tmp/trybug-$id-d/docker.sock" ] && break; sleep 0.1; done
DOCKER_HOST=unix:///tmp/trybug-$id-d/docker.sock go test -json -vet=off -count=1 -timeout 10m ./... 2>/dev/null > /tmp/trybug-$id.json
kill $ping; wait $ping 2>/dev/null; rm -rf "/tmp/trybug-$id-d"
t=$(python3 - "$id" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
res={}
for l in open(f'/tmp/trybug-{sys.argv[1]}.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail'): res[(e['Package'],e['Test'])]=e['Action']
names=base['stable']
bad=[]
for n in names:
    n=n if isinstance(n,str) else n.get('id') or n.get('name')
    ok=any(n in (f'{p}.{t}',f'{p}::{t}',f'{p}/{t}',t,f'{p} {t}') and r=='pass' for (p,t),r in res.items())
    if not ok: bad.append(n)
print('tests-ok' if not bad else 'TESTS-FAIL '+','.join(map(str,bad[:5])))
P
)
c=$(/tmp/psv -repo "$W" -noevidence -property all 2>&1 | grep -o 'VIOLATION property=P[0-9]*' | sed 's/.*=//' | sort -u | tr '\n' ' ')
want=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "$id: clean=$a bug=$b $t want=$want caught-by=[$c]"
rm -rf "/tmp/trybug-$id"
