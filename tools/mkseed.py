#!/usr/bin/env python3
"""Dev helper: make and confirm a planted bug.

usage: from mkseed import seed, then seed(id, prop, pkg, [(file, old, new)...], demo_go, needs, breaks)
The demo is an in-package Go test, laid over the package with -overlay.
A bug is kept only when, in a scratch copy of /repo, the patched tree builds,
passes the stable tests and fails the demo, and the unpatched tree passes it.
"""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# in-package test of %(pkg)s, laid over the package; exits 0 when it passes
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$repo" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$repo/%(dir)szz_demo_test.go\\":\\"$tmp/zz_demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -run '^TestZZDemo' -count=1 -timeout 250s %(race)s./%(dir)s
'''

def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, executable='/bin/bash')

def seed(id, prop, dir, edits, demo, needs, breaks, race=False):
    """dir: '' for the root package or 'tevm/' etc."""
    base = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    out = '/verif/seeded/' + id
    try:
        repo = base + '/repo'
        sh('cp -a /repo %s' % repo, '/')
        for f, old, new in edits:
            p = repo + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'edit does not match once:', f, s.count(old), repr(old[:60])); return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', repo).stdout
        d = base + '/seed'
        os.makedirs(d)
        open(d + '/demo_test.go.txt', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=dir or 'the root package', dir=dir, race='-race ' if race else ''))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, '/repo')
        if r.returncode != 0:
            print(id, 'demo fails on the unchanged tree\n', r.stdout[-1500:]); return False
        r = sh('. /opt/vp/env.sh; cd %s && go build ./... 2>&1 | grep -v yubihsm; go vet ./ ./tevm ./cc ./keccak ./ec ./cmd/eth 2>&1 | grep -i "declared and not used" ' % repo, repo)
        r = sh('bash %s/demo.sh' % d, repo)
        if r.returncode == 0:
            print(id, 'demo passes with the patch'); return False
        if 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(id, 'does not build:\n', r.stdout[-1500:]); return False
        tail = r.stdout[-400:]
        r = sh('bash /verif/tools/stable.sh %s' % repo, repo)
        if r.returncode != 0:
            print(id, 'stable tests fail with the patch\n', r.stdout[-1500:]); return False
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs('/verif/seeded', exist_ok=True)
        shutil.copytree(d, out)
        print(id, 'ok:', ' | '.join(tail.strip().splitlines()[:4])[:300])
        return True
    finally:
        shutil.rmtree(base)
