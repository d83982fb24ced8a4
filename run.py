#!/usr/bin/env python3
"""Runs the check of one property: run.py <property> quick|thorough, or run.py <property> replay <file>."""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
import time

from config import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
REPLAYS = os.path.join(HERE, 'replays')
KNOWN = os.path.join(HERE, 'known_findings.txt')


def go_env(race=False):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', GOTRACEBACK='single',
               CGO_ENABLED='1' if race else '0')
    env.setdefault('HOME', '/root')
    env.setdefault('GOPATH', '/root/go')
    env.setdefault('GOMODCACHE', '/root/go/pkg/mod')
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    env['PATH'] = '/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin'
    env.pop('GODEBUG', None)
    return env


def build(tmp, race=False):
    out = os.path.join(tmp, 'race.test' if race else 'h.test')
    cmd = ['go', 'test', '-vet=off', '-c', '-o', out]
    if race:
        cmd += ['-race', '-gcflags=all=-d=checkptr=0']
    r = subprocess.run(cmd + ['.'], cwd=HARNESS, env=go_env(race), capture_output=True, text=True, timeout=800)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout + r.stderr)
        print('ERROR: the harness does not build')
        sys.exit(3)
    return out


def seed_of(prop, seed, shard, part):
    h = hashlib.sha256(f'{prop}/{seed}/{shard}/{part}'.encode()).digest()
    return int.from_bytes(h[:6], 'big') | 1


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(binary, tmp, prop, part, name, shard, seed, checks, timeout, extra=(), env_extra=None):
    cwd = os.path.join(tmp, f'{name}-{shard}{"-again" if env_extra else ""}')
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    env = go_env()
    env['VERIF_STATS'] = os.path.join(cwd, 'stats.json')
    env['VERIF_SCRATCH'] = cwd
    env['GOMAXPROCS'] = str(part.get('procs', 4))
    env.update(env_extra or {})
    cmd = [binary, '-test.run', f'^{name}$', f'-rapid.seed={seed}', f'-rapid.checks={checks}',
           f'-rapid.shrinktime={part.get("shrink", "15s")}', f'-test.timeout={timeout}s', *extra]
    t = time.time()
    failed = env['VERIF_STATS'] + '.failed'
    files = [os.path.join(cwd, f) for f in ('stdout', 'stderr')]
    with open(files[0], 'wb') as o, open(files[1], 'wb') as e:
        r = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=o, stderr=e, preexec_fn=limit)
        while True:
            try:
                rc = r.wait(1)
                break
            except subprocess.TimeoutExpired:
                pass
            slow = os.path.exists(failed) and time.time() - os.path.getmtime(failed) > part.get('shrink_limit', 60)
            if slow or time.time() - t > timeout + 30:
                r.kill()
                r.wait()
                rc = 1 if slow else 'timeout'
                break
    out, err = (open(f, 'rb').read() for f in files)
    if rc == 1 and os.path.exists(failed) and b'--- FAIL' not in out:
        out += b'a case failed, and was not made smaller in time:\n' + open(failed, 'rb').read()
    return dict(rc=rc, out=out.decode('utf8', 'replace'), err=err.decode('utf8', 'replace'), cwd=cwd, cmd=cmd,
                shard=shard, seed=seed, name=name, part=part, wall=time.time() - t)


def fail_files(cwd):
    res = []
    for d, _, fs in os.walk(os.path.join(cwd, 'testdata')):
        res += [os.path.join(d, f) for f in fs if f.endswith('.fail')]
    return sorted(res)


def report(r):
    lines = [l for l in (r['out'] + r['err']).splitlines() if not re.search(r'\[rapid\] draw ', l)]
    return '\n'.join(lines)[:200000]


def write_replay(prop, seed, r, case=''):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop}-{seed}-{r["name"]}-{r["shard"]}.json')
    fails = fail_files(r['cwd'])
    with open(path, 'w') as f:
        json.dump(dict(property=prop, test=r['name'], seed=r['seed'], race=bool(r['part'].get('race')), exit=r['rc'],
                       checks=r['cmd'][4], rapid_failfile=open(fails[0], errors='surrogateescape').read() if fails else None,
                       last_case=case, report=report(r),
                       rerun=f'python3 /verif/run.py {prop} replay {path}'), f, indent=1)
    return path


def known():
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                res[m[1], m[2]] = m[3]
    return res


def replay(prop, path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-')
    try:
        binary = build(tmp, d['race'])
        extra = []
        checks = d['checks'].split('=')[1]
        if d['rapid_failfile']:
            f = os.path.join(tmp, 'x.fail')
            open(f, 'w', errors='surrogateescape').write(d['rapid_failfile'])
            extra = [f'-rapid.failfile={f}']
        part = dict(race=d['race'])
        r = run_shard(binary, tmp, prop, part, d['test'], 0, d['seed'], checks, 800, extra)
        print(report(r))
        print('exit', r['rc'])
        if r['rc'] not in (0, 'timeout'):
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        return 0 if r['rc'] == 0 else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier == 'replay':
        return replay(prop, sys.argv[3])
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    conf = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix='verif-')
    code, violations, results = 0, [], []
    try:
        bins = {}
        for part in conf['parts']:
            race = bool(part.get('race'))
            if race not in bins:
                bins[race] = build(tmp, race)
        jobs = []
        for pi, part in enumerate(conf['parts']):
            n = part[tier]
            if not n:
                continue
            shards = part.get('shards', 4) if tier == 'quick' else part.get('thorough_shards', 8)
            for shard in range(shards):
                jobs.append((part, shard, seed_of(prop, seed, shard, pi), n))
        timeout = 600 if tier == 'quick' else 1500
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(run_shard, bins[bool(p.get('race'))], tmp, prop, p, p['test'], sh, sd, n, timeout)
                  for p, sh, sd, n in jobs]
            results = [f.result() for f in fs]
        for i, r in enumerate(results):
            if r['rc'] == -9 and time.time() - start < 600:
                # ended from outside: once more, alone
                p, sh, sd, n = jobs[i]
                results[i] = run_shard(bins[bool(p.get('race'))], tmp, prop, p, p['test'], sh, sd, n,
                                       min(timeout, 800 - int(time.time() - start)))
        found = known()
        seen = set()
        for r in results:
            for key in re.findall(r'^[ \t]*@@KNOWN (\S+)', r['out'], re.M):
                if (prop, key) in found:
                    if key not in seen:
                        print(f'KNOWN-FINDING: property={prop} {found[prop, key]}')
                    seen.add(key)
                else:
                    violations.append(write_replay(prop, seed, r))
            if r['rc'] == 0:
                continue
            if r['rc'] == 'timeout' or 'panic: test timed out' in r['err'] + r['out'] or r['rc'] == -9:
                print(f'ERROR: {r["name"]} shard {r["shard"]}: no answer (exit {r["rc"]}) after {r["wall"]:.0f} s')
                print(report(r)[-3000:])
                code = max(code, 2)
                continue
            case = ''
            if r['rc'] not in (1, 97):
                # a fatal crash: run again with the current case on file
                log = os.path.join(tmp, 'case.txt')
                run_shard(bins[bool(r['part'].get('race'))], tmp, prop, r['part'], r['name'], r['shard'], r['seed'],
                          [p for p in jobs if p[0] is r['part']][0][3], timeout, env_extra={'VERIF_LOGCASE': log})
                if os.path.exists(log):
                    case = open(log, errors='replace').read()[:100000]
            print(f'---- {r["name"]} shard {r["shard"]} seed {r["seed"]} exit {r["rc"]}')
            print(report(r)[:6000])
            if case:
                print('last case:\n' + case[:4000])
            violations.append(write_replay(prop, seed, r, case))
    finally:
        write_evidence(prop, tier, seed, conf, results, len(violations), time.time() - start)
        shutil.rmtree(tmp, ignore_errors=True)
    for v in violations:
        print(f'VIOLATION property={prop} replay={v}')
    if violations:
        return 1
    if code == 0:
        print(f'OK property={prop} {tier} in {time.time() - start:.1f} s')
    return code


def write_evidence(prop, tier, seed, conf, results, violations, wall):
    evals, hashes, samples, classes, rules = 0, set(), [], {}, []
    for r in results:
        p = os.path.join(r['cwd'], 'stats.json')
        if not os.path.exists(p):
            continue
        s = json.load(open(p))
        evals += s['evaluations']
        raw = open(p + '.hashes', 'rb').read()
        hashes.update((r['name'], h[0]) for h in struct.iter_unpack('<Q', raw))
        for c, n in (s['classes'] or {}).items():
            classes[c] = classes.get(c, 0) + n
        if s['rule'] not in rules:
            rules.append(s['rule'])
            samples += s['samples'] or []
        elif len(samples) < 20:
            samples += (s['samples'] or [])[-2:]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='exploration',
                       coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=' || '.join(rules),
                                     samples=samples[:24], classes=dict(sorted(classes.items())),
                                     shards=len(results)),
                       assumptions=conf.get('assumptions', []), wall_s=round(wall, 2), violations=violations), f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
