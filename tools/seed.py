#!/usr/bin/env python3
"""Creates, confirms and runs planted bugs.

seed.py add DEFS.py [ID...]   makes /verif/seeded/<id>/ out of the definitions
seed.py confirm [ID...]       confirms patches and demonstrations in a copy
seed.py table                 rewrites the table in DESIGN.md
seed.py catch [ID...]         runs the check of the property against each bug

Scratch copies are made under /tmp and removed again. `catch` applies the
patch in /repo and undoes it straight afterwards.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, time

REPO = '/repo'
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# Builds main.go against the tree in the current directory and runs it. It
# exits with 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
cat >"$tmp/go.mod" <<END
module demo

go 1.17

require (
	github.com/go-restruct/restruct v0.0.0
	github.com/pkg/errors v0.8.1
)

replace github.com/go-restruct/restruct => $repo
END
cd "$tmp" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 120 go run %s .
'''

def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def copy():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    shutil.copytree(REPO, d + '/repo', symlinks=True)
    return d

def tests(repo):
    rc, out = sh('go build ./... && go test -vet=off -count=1 ./... 2>&1', repo)
    return rc == 0, out

def add(defs, ids):
    for b in runpy.run_path(defs)['BUGS']:
        if ids and b['id'] not in ids:
            continue
        d = copy()
        try:
            repo = d + '/repo'
            for file, old, new in b['edits']:
                p = os.path.join(repo, file)
                s = open(p).read()
                if s.count(old) != 1:
                    print('%s: %s: %d matches' % (b['id'], file, s.count(old)))
                    raise SystemExit(1)
                open(p, 'w').write(s.replace(old, new))
            sh('gofmt -w ' + ' '.join(sorted({e[0] for e in b['edits']})), repo)
            rc, diff = sh('git diff', repo)
            out = os.path.join(SEEDED, b['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/main.go', 'w').write(b['demo'].lstrip('\n'))
            sh('gofmt -w main.go', out)
            open(out + '/demo.sh', 'w').write(DEMO % b.get('flags', ''))
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
            open(out + '/meta.json', 'a').write('\n')
        finally:
            shutil.rmtree(d)
        confirm([b['id']])

def confirm(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        s = os.path.join(SEEDED, i)
        d = copy()
        try:
            repo = d + '/repo'
            rc0, out0 = sh(s + '/demo.sh', repo)
            rc, out = sh('git apply ' + s + '/patch.diff', repo)
            ok, tout = tests(repo)
            rc1, out1 = sh(s + '/demo.sh', repo)
            good = rc0 == 0 and rc == 0 and ok and rc1 not in (0, 124)
            print('%-28s %s demo %d -> %d, tests %s: %s' % (
                i, 'ok ' if good else 'BAD', rc0, rc1, ok,
                (out1.strip().splitlines() or [''])[0][:100]))
            if not good:
                print(out0[-800:], out, tout[-1500:] if not ok else '', out1[-800:])
        finally:
            shutil.rmtree(d)

RECORD = '/verif/tools/caught.json'

def record(i, prop, caught, secs):
    """Keeps what came out; a bug that was missed at first stays marked."""
    r = json.load(open(RECORD)) if os.path.exists(RECORD) else {}
    e = r.setdefault(i, {})
    e.update(property=prop, caught=caught, seconds=round(secs))
    if not caught:
        e['missed_at_first'] = True
    json.dump(r, open(RECORD, 'w'), indent=1, sort_keys=True)
    open(RECORD, 'a').write('\n')

def table():
    """Rewrites the table of planted bugs in DESIGN.md."""
    r = json.load(open(RECORD)) if os.path.exists(RECORD) else {}
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(SEEDED), key=lambda i: (json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property'], i)):
        m = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        e = r.get(i, {})
        how = 'not run' if not e else '%s quick, %d s' % (e['property'], e['seconds']) if e['caught'] else 'MISSED'
        if e.get('caught') and e.get('missed_at_first'):
            how += ' (missed at first)'
        rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), how))
    s = open('/verif/DESIGN.md').read()
    a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
    h, t = s.index(a) + len(a), s.index(b)
    open('/verif/DESIGN.md', 'w').write(s[:h] + '\n'.join(rows) + '\n' + s[t:])

def catch(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        s = os.path.join(SEEDED, i)
        prop = json.load(open(s + '/meta.json'))['property']
        rc, out = sh('git apply ' + s + '/patch.diff', REPO)
        if rc:
            print(i, 'does not apply', out)
            continue
        t = time.time()
        try:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            rc, out = sh('/verif/check %s quick' % prop, '/verif', env=env)
        finally:
            sh('git checkout -- .', REPO)
        line = [l for l in out.splitlines() if l.startswith('VIOLATION property=' + prop + ' ')]
        record(i, prop, rc == 1 and bool(line), time.time() - t)
        print('%-28s %s %s rc=%d %.0fs %s' % (
            i, prop, 'caught' if rc == 1 and line else 'MISSED', rc, time.time() - t,
            (line or [''])[0][:120]), flush=True)
        if rc != 1:
            print(out[-600:])

if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'add':
        add(sys.argv[2], sys.argv[3:])
    elif cmd == 'confirm':
        confirm(sys.argv[2:])
    elif cmd == 'table':
        table()
    else:
        catch(sys.argv[2:])
