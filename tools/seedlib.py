"""Plant a bug: edit a scratch copy of /repo, confirm build, tests and demonstration, keep it under /verif/seeded."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO, BASE = '/repo', 'd78596c'
DEMO = '''#!/bin/bash
# exit 0 when the property holds for the demonstrated case, non-zero when it does not
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -run 'TestZZDemo' ./%(pkg)s
'''
def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
ENV = '. /opt/vp/env.sh; '
STABLE = None
def tests(sc):
    r = sh(ENV + 'go test -json -vet=off -count=1 ./...', sc)
    bad = [json.loads(l) for l in r.stdout.splitlines() if l.startswith('{')]
    return sorted({(e['Package'], str(e.get('Test'))) for e in bad if e['Action'] == 'fail'})
QUEUE = []
def plant(*a, **k):
    QUEUE.append((a, k))
def run(workers=5):
    only = set(sys.argv[1:])
    todo = [q for q in QUEUE if not only or q[0][0] in only]
    if not only:
        todo = [q for q in todo if not os.path.exists(f'/verif/seeded/{q[0][0]}/patch.diff')]
    with ThreadPoolExecutor(workers) as ex:
        for m in ex.map(lambda q: one(*q[0], **q[1]), todo):
            print(m, flush=True)
def one(id, prop, edits, pkg, demo, needs, breaks, skip_tests=False):
    """edits: [(file, old, new)]"""
    sc = tempfile.mkdtemp(prefix='seed-' + id + '-', dir='/tmp')
    try:
        return one_in(sc, id, prop, edits, pkg, demo, needs, breaks, skip_tests)
    finally:
        shutil.rmtree(sc)
def one_in(sc, id, prop, edits, pkg, demo, needs, breaks, skip_tests):
    r = sh(f'git -C {REPO} archive HEAD | tar x -C {sc} && cd {sc} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base')
    assert r.returncode == 0, r.stderr
    d = sc + '-out'
    os.makedirs(d, exist_ok=True)
    try:
        open(d + '/demo_test.go', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg)); os.chmod(d + '/demo.sh', 0o755)
        r = sh(f'bash {d}/demo.sh', sc)
        if r.returncode != 0:
            return id + ' DEMO FAILS ON CLEAN ' + r.stdout[-1500:] + r.stderr[-1000:]
        for f, old, new in edits:
            s = open(f'{sc}/{f}').read()
            if s.count(old) != 1:
                return f'{id} edit does not match once: {f} {s.count(old)} {old[:60]}'
            open(f'{sc}/{f}', 'w').write(s.replace(old, new))
        r = sh(ENV + 'go build ./...', sc)
        if r.returncode: return id + ' BUILD ' + r.stderr[:600]
        diff = sh('git diff', sc).stdout
        f, own = None, []
        for l in diff.splitlines():
            if l.startswith('--- a/'): f = l[6:]
            elif l.startswith('-') and l[1:].strip() and not l.startswith('---'):
                if l[1:] not in sh(f'git -C {REPO} show {BASE}:{f}').stdout.splitlines(): own.append(l)
        removed = [l for l in diff.splitlines() if l.startswith('-') and l[1:].strip() and not l.startswith('---')]
        warn = f' WARNING all removed lines are ours: {own}' if removed and len(own) == len(removed) else ''
        r = sh(f'bash {d}/demo.sh', sc)
        if r.returncode == 0: return id + ' DEMO PASSES WITH BUG'
        out = r.stdout + r.stderr
        if 'build failed' in out or 'setup failed' in out: return id + ' DEMO BUILD ' + out[:800]
        if not skip_tests:
            t = tests(sc)
            if t: return f'{id} TESTS FAIL {t}'
        t = f'/verif/seeded/{id}'
        os.makedirs(t, exist_ok=True)
        for n in ('demo_test.go', 'demo.sh'): shutil.copy(f'{d}/{n}', f'{t}/{n}')
        open(t + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(t + '/meta.json', 'w'), indent=1)
        return id + ' ok' + warn
    finally:
        shutil.rmtree(d)
