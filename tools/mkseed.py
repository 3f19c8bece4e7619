#!/usr/bin/env python3
"""mkseed [-n] [ids...]: makes /verif/seeded/<id>/ from tools/seeds_src/*.py and
confirms each in a scratch copy of /repo: the patch builds and passes the stable
tests, the demonstration passes before and fails after, and (unless -n) whether
the check of the property reports it.  Results go to tools/seeds.json."""
import concurrent.futures, threading, glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(HOME='/root', LANG='C.UTF-8', PATH=os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')

def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout ' + (e.stdout or b'').decode('utf-8', 'replace')

def load():
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds_src', '*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for s in ns['SEEDS']:
            assert s['id'] not in seeds, s['id']
            seeds[s['id']] = s
    return seeds

TESTS = threading.Lock()

def tests(repo):
    with TESTS:
        return tests1(repo)

def tests1(repo):
    junit = os.path.join(repo, '..', 'junit.xml')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-W', 'ignore::DeprecationWarning',
        '--benchmark-storage=' + os.path.join(repo, '..', 'b'), '--junitxml=' + junit], repo, env=dict(ENV, PYTHONPATH=repo))
    out = os.path.join(repo, '..', 'res.json')
    sh(['python3', '/opt/vp/results.py', out, 'junit:' + junit], repo)
    return sorted(BASE - set(json.load(open(out))['passed']))

def one(s, nocheck):
    d = os.path.join(V, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed-')
    res = dict(id=s['id'], property=s['property'])
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('VERIF_REPO', '/repo'), repo])
        for path, old, new in s['edits']:
            p = os.path.join(repo, path)
            t = open(p).read()
            if t.count(old) != 1:
                res['error'] = '%s: %d occurrences of %r' % (path, t.count(old), old)
                return res
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo).decode()
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['property'], needs=' '.join(s['needs'].split()), what_it_breaks=' '.join(s['breaks'].split())),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# Run in /repo.  Exit 0: the property holds in this history.\n'
            'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec %stimeout -s KILL 120 %s -W ignore "$(dirname "$0")/demo.py"\n' % ('', PY))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        res['demo_patched'], out = sh([os.path.join(d, 'demo.sh')], repo, 200)
        res['out_patched'] = out[-300:]
        res['tests_failed'] = tests(repo)
        rc, out = sh([PY, '-W', 'ignore', '-c', 'import profiling.__main__, profiling.remote.select, profiling.remote.gevent, profiling.remote.client'], repo, env=dict(ENV, PYTHONPATH=repo))
        res['import'] = rc
        if not nocheck:
            rc, out = sh([os.path.join(V, 'check'), s['property'], 'quick'], V, 1000,
                         env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_OUT=os.path.join(tmp, 'out')))
            res['check'] = rc
            res['check_out'] = out[-500:]
        subprocess.check_call(['git', 'checkout', '-q', '.'], cwd=repo)
        res['demo_clean'], out = sh([os.path.join(d, 'demo.sh')], repo, 200)
        res['out_clean'] = out[-300:]
        res['valid'] = res['demo_clean'] == 0 and res['demo_patched'] != 0 and not res['tests_failed'] and res['import'] == 0
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    args = sys.argv[1:]
    nocheck = '-n' in args
    ids = [a for a in args if a != '-n']
    seeds = load()
    todo = [s for s in seeds.values() if not ids or any(re.match(i + '$', s['id']) or i == s['property'] for i in ids)]
    db = os.path.join(V, 'tools', 'seeds.json')
    results = json.load(open(db)) if os.path.exists(db) else {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', 3))) as ex:
        for r in ex.map(lambda s: one(s, nocheck), todo):
            ok = 'valid' if r.get('valid') else 'INVALID'
            caught = {1: 'caught', 0: 'MISSED', None: '-'}.get(r.get('check'), 'CHECK ERROR')
            print(r['id'], r['property'], ok, caught)
            if not r.get('valid'):
                r.pop('check_out', None)
                print(json.dumps(r, indent=1))
            elif r.get('check') not in (1, None):
                print(r['check_out'][-200:])
            sys.stdout.flush()
            if r.get('check') is None and r['id'] in results:
                r['check'] = results[r['id']].get('check')
            results[r['id']] = {k: r.get(k) for k in ('property', 'valid', 'check')}
    results = {k: v for k, v in results.items() if k in seeds}
    json.dump(results, open(db, 'w'), indent=1, sort_keys=True)
    for d in os.listdir(os.path.join(V, 'seeded')):
        if d not in seeds:
            print('stale seeded/' + d)

main()
