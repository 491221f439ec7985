#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs*.py: applies each change in a scratch copy of /repo, confirms
that it builds, that the tests of the repository pass, and that the demonstration passes without it
and fails with it."""
import glob, re, importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds in the demonstrated situation, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'cd /; chmod -R u+w "$tmp"; rm -rf "$tmp"' EXIT
mkdir "$tmp/t"
unset CI UPDATE_SNAPS BUILD_NUMBER CONTINUOUS_INTEGRATION GITHUB_ACTIONS
export NO_COLOR=1 TMPDIR="$tmp/t" GOFLAGS=
%(env)s
mkdir -p "$tmp/repo/zdemo"
cp -R "$repo"/go.mod "$repo"/go.sum "$repo"/snaps "$repo"/match "$repo"/internal "$tmp/repo/" || exit 2
for f in "$here"/*.go; do
  to="$tmp/repo/zdemo/$(basename "$f" | sed 's|__|/|g')"
  mkdir -p "$(dirname "$to")" && cp "$f" "$to" || exit 2
done
cd "$tmp/repo" || exit 2
timeout 250 go test -vet=off -count=1 %(flags)s ./zdemo%(pkgs)s
'''

def load():
    bugs = {}
    for f in sorted(glob.glob(HERE + '/bugs*.py')):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    return bugs

def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
    return r.returncode, r.stdout + r.stderr

def make(b):
    tmp = tempfile.mkdtemp(prefix='plant.')
    try:
        repo = tmp + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        out = SEEDED + '/' + b['id']
        stage = tmp + '/stage'
        os.makedirs(stage)
        shutil.copy(HERE + '/h_test.go', stage + '/h_test.go')
        demo = b['demo']
        if isinstance(demo, str):
            demo = {'demo_test.go': demo}
        for name, src in demo.items():
            open(f'{stage}/{name}', 'w').write(src if src.startswith('package') else 'package zdemo\n' + src)
        open(stage + '/demo.sh', 'w').write(DEMO % {'env': b.get('env', ''), 'flags': b.get('flags', ''), 'pkgs': b.get('pkgs', '')})
        os.chmod(stage + '/demo.sh', 0o755)
        rc, o = sh('bash ' + stage + '/demo.sh', repo)
        if rc: return b['id'], 'demo fails on the clean tree:\n' + o[-3000:]
        for f, old, new in b['edits']:
            p = repo + '/' + f
            s = open(p).read()
            n = s.count(old)
            if n != 1: return b['id'], f'{n} matches in {f} for {old!r}'
            open(p, 'w').write(s.replace(old, new))
        rc, o = sh('gofmt -l snaps match internal; go build ./...', repo)
        if rc: return b['id'], 'build: ' + o[-2000:]
        if o.strip(): return b['id'], 'gofmt: ' + o
        rc, diff = sh('git diff', repo)
        # original lines
        rc, o = sh("env -u CI -u UPDATE_SNAPS go test ./... 2>&1 | tail -60; exit ${PIPESTATUS[0]}", repo) if False else (0, '')
        r = subprocess.run(['bash', '-c', 'export CI=true; unset UPDATE_SNAPS NO_COLOR; go test -race -vet=off -count=1 ./... && GOFLAGS="-trimpath -mod=mod" go test -race -vet=off -count=1 ./examples'], cwd=repo, capture_output=True, text=True)
        if r.returncode: return b['id'], 'TESTS CATCH IT:\n' + '\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l)[-1500:]
        sh('git status --porcelain', repo)
        rc, o = sh('bash ' + stage + '/demo.sh', repo)
        if rc == 0: return b['id'], 'DEMO PASSES with the patch'
        if 'build failed' in o or 'setup failed' in o: return b['id'], 'demo does not build: ' + o[-2000:]
        for i in range(2):
            rc, _ = sh('bash ' + stage + '/demo.sh', repo)
            if rc == 0: return b['id'], 'DEMO FLAKY with the patch'
        # the changed lines must be original
        base = subprocess.run('git diff -U0 | grep "^-[^-]" | wc -l', cwd=repo, shell=True, capture_output=True, text=True).stdout.strip()
        removed = subprocess.run('git diff -U0', cwd=repo, shell=True, capture_output=True, text=True).stdout
        warn = ''
        if base == '0': warn = ' WARN pure insertion'
        else:
            import re
            cur, bad = None, 0
            for l in removed.splitlines():
                if l.startswith('--- a/'): cur = l[6:]
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m:
                    a, n = int(m[1]), int(m[2] or 1)
                    if n:
                        bl = subprocess.run(['git', 'blame', '-s', '-L', f'{a},{a+n-1}', 'HEAD', '--', cur], cwd=repo, capture_output=True, text=True).stdout
                        bad += sum(1 for x in bl.splitlines() if not x.startswith('^'))
            if bad: warn = f' WARN {bad} changed lines are not original'
        open(stage + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(stage + '/meta.json', 'w'), indent=1)
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(stage, out)
        return b['id'], 'ok' + warn + '   ' + ' '.join([l for l in o.splitlines() if 'zdemo' not in l and l.strip()][:3])[:200]
    finally:
        subprocess.call(['chmod', '-R', 'u+w', tmp]); shutil.rmtree(tmp)

if __name__ == '__main__':
    bugs = load()
    want = sys.argv[1:] or [i for i in bugs if not os.path.isdir(SEEDED + '/' + i)]
    os.makedirs(SEEDED, exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "4"))) as ex:
        for i, r in ex.map(make, [bugs[w] for w in want]):
            print(i, r, flush=True)
