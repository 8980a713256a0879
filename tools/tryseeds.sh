#!/bin/bash
# tryseeds.sh [PATTERN]: run each planted bug's check against a patched scratch copy of /repo
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
base=$(mktemp -d /tmp/tryseeds.XXXXXX); trap '/bin/rm -rf "$base"' EXIT
(cd /verif/gosym && go build -o "$base/gosym" .) || exit 2
cp -a /repo "$base/repo"
mkdir "$base/verif"; for f in harness known_findings.jsonl properties.jsonl; do ln -s /verif/$f "$base/verif/$f"; done; mkdir "$base/verif/evidence"
for d in /verif/seeded/*${1}*/; do
  id=$(basename "$d"); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$base/repo" checkout -q -- . && git -C "$base/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  "$base/gosym" -prop "$prop" -repo "$base/repo" -verif "$base/verif" > "$base/out" 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " "$base/out"; then echo "$id: caught by $prop (${e}s)"; else echo "$id: MISSED by $prop rc=$rc (${e}s)"; tail -3 "$base/out"; fi
done
