#!/usr/bin/env python3
"""Runs the check of one property.

  run.py ID              tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  run.py --replay FILE   re-runs a saved failing case (replays/ID/...)
  run.py --build         compiles every check (setup_cmd)

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
GOBIN = '/opt/veriftools/go1.27.3/bin'

def goenv(scratch):
    e = dict(os.environ)
    for k in ('GOROOT', 'GOBIN', 'GOOS', 'GOARCH', 'GODEBUG'):
        e.pop(k, None)
    home = '/root'
    e.update(HOME=home, PATH=GOBIN + ':/usr/local/bin:/usr/bin:/bin',
             GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOSUMDB='off',
             CGO_ENABLED='1', GOPATH=home + '/go', GOMODCACHE=home + '/go/pkg/mod',
             GOCACHE=home + '/.cache/go-build',
             GOFLAGS='-mod=mod -modfile=%s/go.mod' % scratch,
             VERIF_SCRATCH=scratch, VERIF_KNOWN=KNOWN, TMPDIR=scratch)
    return e

def prepare(scratch):
    """Module file copies and the overlay that supplies release/head.go."""
    shutil.copy(os.path.join(HARNESS, 'go.mod'), scratch + '/go.mod')
    shutil.copy(os.path.join(HARNESS, 'go.sum'), scratch + '/go.sum')
    ov = {'Replace': {REPO + '/release/head.go': os.path.join(HARNESS, 'head.go.txt')}}
    with open(scratch + '/overlay.json', 'w') as f:
        json.dump(ov, f)

def build(scratch, pkg, out, race=False):
    cmd = ['go', 'test', '-c', '-vet=off', '-overlay', scratch + '/overlay.json', '-o', out]
    if race:
        cmd.append('-race')
    cmd.append('./' + pkg)
    return subprocess.run(cmd, cwd=HARNESS, env=goenv(scratch), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)

def options(pkg):
    """check.json in the package: {"race": bool, "tools": [...], "shards": n}"""
    p = os.path.join(HARNESS, pkg, 'check.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def build_tools(scratch, tools):
    """Builds the real commands a check drives into scratch/bin."""
    for t in tools:
        r = subprocess.run(['go', 'build', '-overlay', scratch + '/overlay.json', '-o',
                            scratch + '/bin/', t], cwd=HARNESS, env=goenv(scratch),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r
    return None

def tail(s, n=12000):
    s = '\n'.join(''.join(c if ' ' <= c <= '~' or c == '\t' else '?' for c in l[:600]) for l in s.split('\n'))
    return s if len(s) <= n else s[:n // 2] + '\n...\n' + s[-n // 2:]

def run_test(scratch, binary, test, seed, shard, tier, timeout, failfile=None):
    wd = tempfile.mkdtemp(prefix=test + '-', dir=scratch)
    fast = wd
    try:  # databases are faster in memory
        fast = tempfile.mkdtemp(prefix='verif-', dir='/dev/shm')
    except OSError:
        pass
    try:
        return run_test_in(wd, fast, scratch, binary, test, seed, shard, tier, timeout, failfile)
    finally:
        if fast != wd:
            shutil.rmtree(fast, ignore_errors=True)

def run_test_in(wd, fast, scratch, binary, test, seed, shard, tier, timeout, failfile):
    e = goenv(scratch)
    e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard), VERIF_RESULT=wd + '/result.json',
             VERIF_SCRATCH=wd, VERIF_FAST=fast, TMPDIR=wd, PATH=scratch + '/bin:' + e['PATH'], VERIF_BIN=scratch + '/bin')
    rseed = (abs(seed) * 7919 + shard * 104729 + 17) or 1
    cmd = [binary, '-test.run', '^%s$' % test, '-test.v', '-test.timeout', '%ds' % timeout,
           '-rapid.seed', str(rseed), '-rapid.shrinktime', '20s']
    if failfile:
        cmd += ['-rapid.failfile', failfile]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 30)
        rc, out = p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        rc, out = 'timeout', (x.stdout or b'').decode('utf-8', 'replace')
    fails = []
    for d, _, fs in os.walk(wd + '/testdata'):
        fails += [os.path.join(d, f) for f in fs if f.endswith('.fail')]
    res = []
    try:
        res = json.load(open(wd + '/result.json'))
    except Exception:
        pass
    return dict(test=test, shard=shard, rc=rc, out=out, fails=fails, res=res, wall=time.time() - t0, wd=wd)

def verdict(r):
    """ok, violation or error for one finished test process."""
    if r['rc'] == 0:
        return 'ok' if r['res'] else 'error'
    out = r['out']
    if 'HARNESS-ERROR' in out or r['rc'] in ('timeout', 3, -9) or 'panic: test timed out' in out:
        return 'error'
    if re.search(r'^\s*--- FAIL: ', out, re.M):
        return 'violation'
    if 'github.com/mutecomm/mute/' in out and re.search(
            r'^(panic: |fatal error: (concurrent map|all goroutines|stack overflow|sync: )|runtime: goroutine stack exceeds)', out, re.M):
        return 'violation'
    return 'error'

def known_lines(pid):
    d = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'(KF-\S+) property=(\S+) (.*)', l.strip())
            if m and m.group(2) == pid:
                d[m.group(1)] = m.group(3)
    return d

def main():
    if len(sys.argv) == 2 and sys.argv[1] == '--build':
        scratch = tempfile.mkdtemp(prefix='verif-build-')
        try:
            prepare(scratch)
            bad = 0
            for pkg in sorted(os.listdir(HARNESS)):
                if re.match(r'[a-z]\d+$', pkg):
                    r = build(scratch, pkg, scratch + '/x.test', options(pkg).get('race', False))
                    if r.returncode:
                        print(r.stdout); bad = 1
            return bad
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    failfile = None
    only = None
    only_shard = None
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        failfile = os.path.abspath(sys.argv[2])
        pid = os.path.basename(os.path.dirname(failfile))
        only = os.path.basename(failfile).split('.')[0]
        if not failfile.endswith('.fail'):
            m = re.search(r'\.seed(-?\d+)\.(\d+)\.log$', failfile)
            failfile = None
            if m:  # no shrunk case: run the same cases again
                os.environ['VERIF_SEED'] = m.group(1)
                only_shard = int(m.group(2))
    else:
        pid = sys.argv[1]
        only = os.environ.get('VERIF_ONLY')
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    pkg = pid.lower()
    opts = options(pkg)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        prepare(scratch)
        binary = scratch + '/check.test'
        r = build(scratch, pkg, binary, opts.get('race', False))
        if r.returncode == 0 and opts.get('tools'):
            r = build_tools(scratch, opts['tools']) or r
        if r.returncode != 0:
            print(tail(r.stdout)); print('ERROR: build of the check failed'); return 2
        tests = subprocess.run([binary, '-test.list', '.*'], cwd=scratch, env=goenv(scratch), stdout=subprocess.PIPE,
                               text=True).stdout.split()
        tests = [t for t in tests if t.startswith('Test') and (not only or t == only)]
        shards = opts.get('shards', {}).get(tier, 1 if tier == 'quick' else 8)
        budget = 780 if tier == 'quick' else 3 * 3600
        noshard = opts.get('noshard', [])
        jobs = [(t, s) for t in tests for s in range(1 if t in noshard or failfile else shards)
                if only_shard in (None, s)]
        results = []
        with cf.ThreadPoolExecutor(max_workers=opts.get('workers', os.cpu_count() or 4)) as ex:
            fs = [ex.submit(run_test, scratch, binary, t, seed, s, tier, budget, failfile) for t, s in jobs]
            for f in fs:
                results.append(f.result())
        bad, err = [], []
        for r in results:
            v = verdict(r)
            if v == 'violation': bad.append(r)
            elif v == 'error': err.append(r)
        # evidence
        hashes, ev, samples, rules, per = set(), 0, [], {}, {}
        known = set()
        for r in results:
            for s in r['res']:
                ev += s['evaluations']
                hashes.update(s['hashes'] or [])
                rules[s['test']] = s.get('rule', '')
                p = per.setdefault(s['test'], dict(evaluations=0, distinct_nontrivial=set(), labels={}))
                p['evaluations'] += s['evaluations']
                p['distinct_nontrivial'].update(s['hashes'] or [])
                for k, n in (s.get('labels') or {}).items():
                    p['labels'][k] = p['labels'].get(k, 0) + n
                if r['shard'] == 0:
                    samples += ['%s: %s' % (s['test'], x) for x in (s.get('samples') or [])]
                known.update(s.get('known') or [])
        for p in per.values():
            p['distinct_nontrivial'] = len(p['distinct_nontrivial'])
        kl = known_lines(pid)
        evidence = dict(property=pid, tier=tier, seed=seed, level=opts.get('level', 'exploration'),
                        coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes),
                                      rule='; '.join('%s: %s' % (t, rules[t]) for t in sorted(rules)),
                                      samples=samples, tests=per, known_findings=sorted(known)),
                        assumptions=opts.get('assumptions', []),
                        wall_s=round(time.time() - t0, 2), violations=len(bad))
        if not only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1)
        for k in sorted(known):
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, kl.get(k, '')))
        for t in sorted(per):
            print('%-40s %8d cases, %8d distinct non-trivial' % (t, per[t]['evaluations'], per[t]['distinct_nontrivial']))
        if os.environ.get('VERIF_VERBOSE'):
            for r in results: print('%s/%d %.1fs' % (r['test'], r['shard'], r['wall']))
            for t in sorted(per): print(t, json.dumps(per[t]['labels'], indent=1, sort_keys=True))
        for r in err:
            print('---- %s (shard %d): check error, rc=%s' % (r['test'], r['shard'], r['rc'])); print(tail(r['out']))
        for r in bad:
            print('---- %s (shard %d)' % (r['test'], r['shard'])); print(tail(r['out']))
            d = os.path.join(VERIF, 'replays', pid)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.seed%d.%d.log' % (r['test'], seed, r['shard']))
            with open(path, 'w') as f:
                f.write(r['out'])
            if r['fails']:
                fp = path[:-4] + '.fail'
                shutil.copy(sorted(r['fails'])[0], fp)
                path = fp
            print('VIOLATION property=%s replay=%s' % (pid, path))
        if bad: return 1
        if err or not jobs: return 2
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
