#!/bin/bash
# seed.sh ID PROP PKG NEEDS BREAKS : turns the change in the scratch copy /tmp/sc and the demo
# /tmp/demo_test.go (package test of ./PKG) into /verif/seeded/ID, after confirming it.
set -u
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/sc diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 1; }
cp /tmp/demo_test.go "$d/verif_demo_test.go"
cat > "$d/demo.sh" <<X
#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run in the repository
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$(pwd)
tmp=\$(mktemp -d) || exit 2
trap 'rm -rf "\$tmp"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
printf '{"Replace":{"%s/$pkg/zz_verif_demo_test.go":"%s/verif_demo_test.go"}}' "\$repo" "\$here" > "\$tmp/ov.json"
go test -overlay "\$tmp/ov.json" -vet=off -timeout 120s -run '^TestVerifDemo\$' -count=1 ./$pkg
X
chmod +x "$d/demo.sh"
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
exec /verif/tools/seedcheck.sh "$id"
