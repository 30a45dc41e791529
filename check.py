#!/usr/bin/env python3
"""Decide one property: python3 check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]

Builds the engine and the harness from the current trees, executes every harness of
the property symbolically, replays each counterexample natively and reports."""
import sys, os, json, subprocess, time, re, tempfile, shutil, threading, queue, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUILD = os.environ.get('MSX_BUILD', os.path.join(HERE, '.build'))
TOOL = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOL, CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None); ENV.pop('CARGO_ENCODED_RUSTFLAGS', None)
T0 = time.time()

def sh(cmd, cwd, tgt, env=None):
    e = dict(ENV, CARGO_TARGET_DIR=tgt, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def build():
    os.makedirs(BUILD, exist_ok=True)
    res = {}
    def eng(): res['engine'] = sh(['cargo', 'build', '--release', '--offline', '-q'], HERE + '/engine', BUILD + '/engine')
    def sym(): res['sym'] = sh(['cargo', 'rustc', '--lib', '--profile', 'sym', '--offline', '-q', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], HERE + '/harness', BUILD + '/sym')
    def rep(): res['replay'] = sh(['cargo', 'build', '--bin', 'replay', '--features', 'native', '--profile', 'rep', '--offline', '-q'], HERE + '/harness', BUILD + '/rep')
    def rel(): res['release'] = sh(['cargo', 'build', '--bin', 'replay', '--features', 'native', '--release', '--offline', '-q'], HERE + '/harness', BUILD + '/rel')
    ts = [threading.Thread(target=f) for f in (eng, sym, rep, rel)]
    for t in ts: t.start()
    for t in ts: t.join()
    bad = {k: v[1] for k, v in res.items() if v[0] != 0}
    for k in bad: print('BUILD FAILED', k, bad[k][-3000:])
    if bad: sys.exit(2)
    d = BUILD + '/sym/sym/deps'
    ll = [os.path.join(d, f) for f in os.listdir(d) if f.startswith('harness') and f.endswith('.ll') and 'rcgu' not in f]
    return dict(msx=BUILD + '/engine/release/msx', ll=max(ll, key=os.path.getmtime), rep=BUILD + '/rep/rep/replay', rel=BUILD + '/rel/release/replay')

def demangle(n):
    if not n.startswith('_R'): return n
    s = re.sub(r's[0-9A-Za-z]*_(?=\d)', '', n[2:])
    out, i = [], 0
    while i < len(s):
        m = re.match(r'(\d+)_?', s[i:])
        if m:
            k = int(m.group(1)); j = i + m.end()
            if 0 < k <= len(s) - j: out.append(s[j:j + k]); i = j + k; continue
            i += len(m.group(1))
        else: i += 1
    return '::'.join(out)

def replay(bins, entry, args, inputs, which='rep', timeout=60):
    d = tempfile.mkdtemp(prefix='msx')
    try:
        with open(d + '/.values', 'w') as f: f.write(','.join(map(str, inputs)))
        try:
            p = subprocess.run([bins[which], entry, ','.join(map(str, args)), d + '/.values'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env={'PATH': '/usr/bin:/bin'})
        except subprocess.TimeoutExpired: return dict(code='timeout', out='', obs=[])
        out = p.stdout.decode(errors='replace')
        return dict(code=p.returncode, out=out[-1500:], err=p.stderr.decode(errors='replace')[-600:], obs=[int(x[4:]) for x in out.splitlines() if x.startswith('OBS ')])
    finally: shutil.rmtree(d, ignore_errors=True)

def reproduces(v, r):
    if v['kind'] == 'check': return r['code'] == 42 and ('CHECK ' + v['msg']) in r['out']
    if v['kind'] == 'panic': return r['code'] in (101, -6, -11, 134, 139)
    return r['code'] == 'timeout'

def main():
    import props
    a = sys.argv[1:]
    if a[0] == '--build': build(); return
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    P = props.PROPS[prop]
    jobs = [dict(j) for j in P['jobs'] if tier in j['tiers'] and (only is None or j['entry'] == only)]
    bins = build()
    tb = time.time() - T0
    tlimit = 700 if tier == 'quick' else 36000
    q = queue.PriorityQueue()
    n = 0
    for j in jobs:
        parts = j.get('split', 1)
        for k in range(parts):
            n += 1
            q.put((-j.get('cost', 1), n, (j, k, parts)))
    known = [k for k in json.load(open(HERE + '/known_findings.json'))['findings'] if k['property'] == prop]
    results, lock, stop = [], threading.Lock(), threading.Event()
    running = set()
    def end_all():
        # a confirmed violation decides the run: what is still going adds nothing
        stop.set()
        with lock:
            for p in running: p.kill()
    grace = []
    def worker():
        while True:
            try: _, _, (j, k, parts) = q.get_nowait()
            except queue.Empty: return
            if stop.is_set(): continue
            left = tlimit - (time.time() - T0)
            limit = min(j.get('time', 450 if tier == 'quick' else 7200), max(left, 1))
            cmd = [bins['msx'], bins['ll'], j['entry']] + [str(x) for x in j['args']] + ['--time', '%.0f' % limit, '--query-ms', str(j.get('query_ms', 120000)), '--samples', str(j.get('samples', 6))]
            if parts > 1: cmd += ['--split', '%d/%d@%d' % (k, parts, j.get('depth', 5))]
            if 'max_instrs' in j: cmd += ['--max-instrs', str(j['max_instrs'])]
            t1 = time.time()
            try:
                p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                with lock: running.add(p)
                try: out, err = p.communicate(timeout=limit + (60 if tier == 'quick' else 600))
                finally:
                    with lock: running.discard(p)
                try: r = json.loads(out.strip().splitlines()[-1])
                except Exception: r = dict(status='stopped' if stop.is_set() else 'error', errors=['engine ended with %s: %s' % (p.returncode, err[-500:])], violations=[])
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); r = dict(status='timeout', errors=[], violations=[])
            r['job'] = j; r['part'] = k; r['secs'] = time.time() - t1
            # confirm violations right away
            for v in r['violations']:
                v['native'] = replay(bins, j['entry'], j['args'], v['inputs'])
                v['ok'] = reproduces(v, v['native'])
                if v['ok']: v['release'] = replay(bins, j['entry'], j['args'], v['inputs'], 'rel', 20)['code']
            if any(v['ok'] for v in r['violations']) and not any(k['entry'] == j['entry'] for k in known):
                with lock:
                    if not grace: grace.append(threading.Timer(25, end_all)); grace[0].daemon = True; grace[0].start()
            with lock: results.append(r)
            if '-v' in a: print('%7.1fs %s %s part %d: %s paths=%s q=%s solver=%.1fs' % (r['secs'], j['entry'], j['args'], k, r['status'], r.get('paths'), r.get('queries'), r.get('solver_s', 0)), flush=True)
    ths = [threading.Thread(target=worker) for _ in range(int(os.environ.get('MSX_JOBS', '8')))]
    for t in ths: t.start()
    for t in ths: t.join()
    # ---- judge
    problems, undecided, vio, found = [], [], [], {}
    reached = {}
    checks = {}
    for r in results:
        j = r['job']
        key = j['entry'] + str(j['args'])
        if r['status'] in ('error', 'timeout'): undecided.append('%s: %s %s' % (key, r['status'], r.get('errors')))
        for m, c in r.get('checks', {}).items():
            t = checks.setdefault(m, [0, 0]); t[0] += c[0]; t[1] += c[1]
        reached[key] = reached.get(key, 0) + sum(r.get('reached', {}).values())
        for v in r['violations']:
            if not v['ok']: problems.append('%s: counterexample does not reproduce natively: %s %s -> %s %s' % (key, v['kind'], v['msg'], v['native']['code'], v['native']['out'][-300:])); continue
            kf = next((k for k in known if k['entry'] == j['entry'] and k['msg'] == v['msg']), None)
            if kf: found[kf['id']] = kf; continue
            vio.append((j, v))
    if not vio:
        # jobs that gave no answer narrow what was explored; too many of them, and nothing was decided
        if len(undecided) * 2 > n: problems += undecided
        for key, k in reached.items():
            if k == 0 and not any(u.startswith(key + ':') for u in undecided): problems.append(key + ': the end of the harness was never reached (vacuous)')
        if len(results) < n: problems.append('not every job ran')
    # ---- validate sampled paths against the native build
    traces = bad = 0
    samples = []
    if tier == 'thorough' or not vio:
        seen = {}
        todo = []
        for r in sorted(results, key=lambda r: (r['job']['entry'], str(r['job']['args']), r['part'])):
            for s in r.get('samples', []):
                key = r['job']['entry'] + str(r['job']['args'])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 3: todo.append((r['job'], s))
        todo = todo[:60]
        outs = [None] * len(todo)
        def val(k):
            j, s = todo[k]
            outs[k] = replay(bins, j['entry'], j['args'], s['inputs'], timeout=60)
        qi = iter(range(len(todo)))
        def vw():
            while True:
                with lock: k = next(qi, None)
                if k is None: return
                val(k)
        ths = [threading.Thread(target=vw) for _ in range(8)]
        for t in ths: t.start()
        for t in ths: t.join()
        for (j, s), o in zip(todo, outs):
            ok = o['code'] == 0 and o['obs'] == s['obs'] if s['end'] in ('ok', 'panic') else False
            if ok: traces += 1
            else: problems.append('%s%s: native run of a sampled path differs: inputs %s symbolic %s native %s %s' % (j['entry'], j['args'], s['inputs'][:80], s['obs'][:20], o['code'], (o['obs'][:20], o['out'][-200:])))
            if len(samples) < 10: samples.append(dict(harness=j['entry'], args=j['args'], inputs=s['inputs'][:120], observed=s['obs'][:40]))
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    lines = []
    for i, (j, v) in enumerate(vio[:20]):
        path = '%s/evidence/replay/%s-%d.json' % (HERE, prop, i)
        json.dump(dict(property=prop, entry=j['entry'], args=j['args'], kind=v['kind'], msg=v['msg'], inputs=v['inputs'], widths=v['widths'], native=v['native'], release_exit=v.get('release'),
                       how='python3 /verif/replay.py ' + path), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s%s %s: %s (native exit %s, release exit %s)' % (j['entry'], j['args'], v['kind'], v['msg'], v['native']['code'], v.get('release')))
    fns = {}
    for r in results:
        for f, c in r.get('functions', {}).items():
            d = demangle(f)
            if 'ms_toollib' in d: fns[d] = fns.get(d, 0) + c
    S = lambda k: sum(r.get(k, 0) for r in results)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(time.time() - T0, 1), violations=len(vio),
              coverage=dict(states=S('paths'), transitions=S('instrs'), traces_validated_against_impl=traces, samples=samples,
                            states_meaning='symbolic end states (a state stands for every input satisfying its path condition)', transitions_meaning='IR instructions executed symbolically',
                            exhaustive=not problems and not undecided, merges=S('merges'), forks=S('forks'), queries=S('queries'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'), solver_seconds=round(S('solver_s'), 1),
                            checks={m: dict(evaluated=c[0], decided_by_solver=c[1]) for m, c in sorted(checks.items())},
                            functions_encoded=dict(sorted(fns.items())), bounds=P['bounds'], harnesses=[dict(harness=j['entry'], args=j['args'], what=j.get('what', '')) for j in jobs],
                            known_findings=sorted(found), inconclusive=problems + undecided, build_s=round(tb, 1)),
              assumptions=props.ASSUME + P.get('assume', []))
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)
    for k in sorted(found): print('KNOWN-FINDING: property=%s %s' % (prop, found[k]['what']))
    for l in lines: print(l)
    for p in problems[:12]: print('PROBLEM', p[:1500])
    for p in undecided[:12]: print('UNDECIDED', p[:800])
    print('%s %s: %d jobs, %d paths, %d queries, solver %.1fs, wall %.1fs, violations %d, problems %d, undecided %d' % (prop, tier, n, S('paths'), S('queries'), S('solver_s'), time.time() - T0, len(vio), len(problems), len(undecided)))
    if vio: sys.exit(1)
    if problems: sys.exit(2)
    sys.exit(0)
main()
