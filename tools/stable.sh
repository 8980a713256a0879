#!/bin/bash
# stable.sh DIR: build DIR (a copy of /repo) and run the stable tests; exit 0 when all pass
dir=$1
. /opt/vp/env.sh
cd "$dir" || exit 2
PKGS=$(go list -e ./... | grep -v '^github.com/philhofer/seth/yubihsm$')
go build $PKGS || exit 1
go test -json -vet=off -count=1 -timeout 5m -skip '^TestForkedChain$' $PKGS > "$dir/../test.json" 2>/dev/null
python3 - "$dir/../test.json" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except ValueError: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in b if x not in ok]
print('stable',len(b),'missing',bad)
sys.exit(1 if bad else 0)
P
