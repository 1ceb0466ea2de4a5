#!/bin/bash
# newseed.sh ID PROPERTY PKG: creates seeded/ID/demo.sh (runs demo_test.go inside PKG of the repository in the working directory) and meta.json from stdin lines NEEDS / BREAKS.
set -eu
S=/verif/seeded/$1; mkdir -p "$S"
cat > "$S/demo.sh" <<D
#!/bin/bash
# Runs demo_test.go inside ./$3 of the repository in the working directory.
d="\$(cd "\$(dirname "\$0")" && pwd)"
o="\$(mktemp -d)" || exit 2
trap 'rm -rf "\$o"' EXIT
printf '{"Replace":{"%s/$3/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$d" > "\$o/overlay.json"
go test -overlay "\$o/overlay.json" -count=1 -timeout 120s ${4:-} -run '^TestDemo' ./$3
D
read -r needs; read -r breaks
python3 - "$S" "$2" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
