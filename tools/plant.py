"""Plants one bug: checks it in a scratch copy of /repo and keeps it as /verif/seeded/<id>/.

plant(id, prop, needs, breaks, edits, main, race=False): edits is a list of (file, old, new)."""
import json, os, shutil, subprocess, sys

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=%(cgo)d
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d) || exit 99
trap 'rm -r -- "$tmp"' EXIT
cp "$here"/*.go "$tmp/" && cp "$repo/go.sum" "$tmp/" || exit 99
{
	echo 'module demo'; echo 'go 1.23'
	echo 'require github.com/mjarkk/yarql v0.0.0'
	grep -E '^require [^(]' "$repo/go.mod"
	echo "replace github.com/mjarkk/yarql => $repo"
} > "$tmp/go.mod"
if [ -f "$tmp/other.go" ]; then mkdir "$tmp/other" && mv "$tmp/other.go" "$tmp/other/" || exit 99; fi
cd "$tmp" && go build %(race)s -o demo . || exit 0
timeout 120 ./demo
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True, **kw)


def plant(*a, **kw):
    try:
        _plant(*a, **kw)
    except AssertionError as e:
        print('ERROR', str(e)[:160].replace('\n',' | '))


def _plant(id, prop, needs, breaks, edits, main, race=False, replace=False, other=None):
    dst = f'/verif/seeded/{id}'
    if os.path.exists(dst) and not replace:
        return print(id, 'exists')
    work = f'/tmp/plant-{id}'
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work + '/repo', symlinks=True)
    repo = work + '/repo'
    os.makedirs(work + '/d')
    with open(work + '/d/demo.sh', 'w') as f:
        f.write(DEMO % dict(cgo=int(race), race='-race' if race else ''))
    os.chmod(work + '/d/demo.sh', 0o755)
    open(work + '/d/main.go', 'w').write(main)
    if other:
        open(work + '/d/other.go', 'w').write(other)
    try:
        r = sh(f'bash {work}/d/demo.sh', repo)
        assert r.returncode == 0, f'{id}: demo fails on the unchanged tree\n' + (r.stdout + r.stderr)[:3000]
        assert 'ok' in r.stdout, f'{id}: demo does not build?\n' + (r.stdout + r.stderr)[:3000]
        for f, a, b in edits:
            s = open(f'{repo}/{f}').read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(f'{repo}/{f}', 'w').write(s.replace(a, b))
        r = sh('go build ./... && go vet -vettool= . ; go build ./... && go test -vet=off -count=1 ./...', repo)
        assert r.returncode == 0, f'{id}: tests\n' + (r.stdout + r.stderr)[-3000:]
        r = sh(f'bash {work}/d/demo.sh', repo)
        assert r.returncode != 0, f'{id}: demo passes with the change'
        out = r.stdout + r.stderr
        diff = sh('git diff', repo).stdout
        # every removed line must be one of the original repository
        base = sh('git rev-list --max-parents=0 HEAD', repo).stdout.split()[0]
        removed, file = 0, ''
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                file = l[6:]
                blame = sh(f'git blame -s HEAD -- {file}', repo).stdout.splitlines()
            elif l.startswith('@@'):
                n = int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and file:
                removed += 1
                b = blame[n - 1]
                assert b.lstrip('^').startswith(base[:7]), f'{id}: line is not of the original: {b}'
                n += 1
            elif l.startswith(' '):
                n += 1
        assert removed, f'{id}: nothing of the original changed'
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(diff)
        shutil.copy(work + '/d/demo.sh', dst)
        shutil.copy(work + '/d/main.go', dst)
        if other:
            shutil.copy(work + '/d/other.go', dst)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(dst + '/meta.json', 'w'), indent=1)
        print(id, 'planted:', out.strip()[:200].replace('\n', ' | '))
    finally:
        shutil.rmtree(work, ignore_errors=True)
