#!/bin/bash
# seedcheck.sh ID... : confirms in a scratch copy that each planted bug builds, passes the stable
# tests, and that its demo tells it from the unchanged tree.
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo/. "$s/"; git -C "$s" checkout -q -- .
  (cd "$s" && bash "$d/demo.sh" >/tmp/seed.out 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/seed.out; rm -rf "$s"; continue; }
  (cd "$s" && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$s"; continue; }
  (cd "$s" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build ./... ) || { echo "$id: does not build"; rm -rf "$s"; continue; }
  r=ok
  (cd "$s" && bash "$d/demo.sh" >/tmp/seed.out 2>&1) && r="demo passes with the bug"
  (cd "$s" && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go test -json ./... > /tmp/seed.json 2>/dev/null)
  python3 - "$id" "$r" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set()
for l in open('/tmp/seed.json'):
    try: o=json.loads(l)
    except: continue
    if o.get('Action')=='pass' and o.get('Test'):
        p.add((o['Package'],o['Test']))
names2=set(k+'/'+t for k,t in p)
miss=[x for x in b if x not in names2]
print(sys.argv[1], sys.argv[2], 'tests missing:', miss)
P
  rm -rf "$s"
done
