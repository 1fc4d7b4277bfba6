#!/usr/bin/env python3
"""check.py <property>: builds the simulator from /repo's working tree and searches seeded schedules and
faults for a violation of the property. Exit 0: held on everything explored; exit 1 and a VIOLATION line:
broken (with a replay file confirmed in a fresh process); anything else: the check itself failed."""
import json, os, re, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

GRAPH_REAL = ['src/core (all of libvapoursynth except the zimg resizer): instrumented and run as shipped', 'include/']
GRAPH_STUB = ['threads, mutexes, condition variables, clock, CPU count, installed memory, heap: simulator', 'zimg resizer plugin: stub', 'filters, applications: generated workload with executable models']


def known(prop):
    """entries of known_findings.txt for this property: (regex, text)"""
    res = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def symbolise(msg):
    """addresses of the form lib+0x123(?) -> function at file:line"""
    def sub(m):
        f = os.path.join(BUILD, m.group(1))
        if not os.path.exists(f):
            return m.group(0)
        try:
            o = subprocess.run(['addr2line', '-Cfe', f, hex(int(m.group(2), 16) - 1)], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split('\n')
            return f'{o[0].split("(")[0]} at {os.path.relpath(o[1], "/repo") if o[1].startswith("/repo") else o[1]}'
        except Exception:
            return m.group(0)
    return re.sub(r'([\w.]+)\+0x([0-9a-f]+)\([^)]*\)', sub, msg)


def search(prop, tier, seed, budget, extra=(), minimise=20, exe='vssim'):
    """runs the workers; returns (summaries, violations)"""
    out = os.path.join(BUILD, f'out-{prop}-{os.getpid()}')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    for w in range(WORKERS):
        cmd = [os.path.join(BUILD, exe), 'search', '--prop', prop, '--tier', tier, '--first', str(seed * 1000000007 % (1 << 48)), '--worker', f'{w}/{WORKERS}', '--time', str(budget),
               '--minimise', str(minimise), '--out', out, '--cpu', '-1'] + list(extra)
        procs.append(subprocess.Popen(cmd, stdout=open(os.path.join(out, f'log.{w}'), 'w'), stderr=open(os.path.join(out, f'err.{w}'), 'w'), start_new_session=True))
    end = time.time() + budget + minimise * 3 + 120
    viol = []

    def read():
        vs, ss = [], []
        for w in range(WORKERS):
            for l in open(os.path.join(out, f'log.{w}')):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if 'violation' in d:
                    vs.append(d)
                elif 'summary' in d:
                    ss.append(d)
        return vs, ss
    while any(p.poll() is None for p in procs):
        time.sleep(0.3)
        vs, ss = read()
        if any(v['reproduced'] for v in vs) or time.time() > end:
            time.sleep(0.5)
            break
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.wait()
    vs, ss = read()
    errs = ''.join(open(os.path.join(out, f'err.{w}')).read()[-500:] for w in range(WORKERS))
    return out, vs, ss, errs


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import props
    P = props.PROPS[prop]
    import build
    exe = P.get('exe', 'vssim')
    if build.main((exe,) if P.get('python') else (exe, 'libvapoursynthfilters.so')):
        print('the simulator does not build')
        return 2
    if P.get('python'):
        import pycheck
        return pycheck.run(prop, P, tier, seed, t0, known(prop))
    budget = float(os.environ.get('VERIF_TIME', P.get('quick', 40) if tier == 'quick' else P.get('thorough', 600)))
    out, vs, ss, errs = search(prop, tier, seed, budget, P.get('args', ()), exe=exe)
    tot = {}
    for s in ss:
        for k, v in s.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = max(tot.get(k, 0), v) if k in ('max_threads', 'seconds') else tot.get(k, 0) + v
    counters, foreign, incs, nondet, samples = {}, {}, {}, [], []
    for s in ss:
        for k, v in s['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s['foreign'].items():
            f = foreign.setdefault(k, [0, v[1]])
            f[0] += v[0]
        incs.update(s['inconclusive_examples'])
        nondet += s['nondet']
        samples += s['samples']
    inter = set()
    cov = None
    for w in range(WORKERS):
        try:
            b = open(os.path.join(out, f'inter.{w}'), 'rb').read()
            inter.update(struct.unpack(f'<{len(b) // 8}Q', b))
            c = int.from_bytes(open(os.path.join(out, f'cov.{w}'), 'rb').read(), 'little')
            cov = c if cov is None else cov | c
        except OSError:
            pass
    # gate: a violation counts only when a fresh process reproduces it exactly, twice
    rc = 0
    confirmed, unconfirmed, knownhits = [], 0, {}
    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    for v in vs:
        ok = v['reproduced']
        hashes = set()
        for _ in range(2):
            r = subprocess.run([os.path.join(BUILD, exe), 'replay', v['replay']], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            try:
                d = json.loads(r.stdout)
                ok = ok and d['same']
                hashes.add(d['hash'])
            except ValueError:
                ok = False
        if not ok or len(hashes) != 1:
            unconfirmed += 1
            print(f'unconfirmed: seed {v["seed"]}: {v["violation"]}: {v["msg"][:300]}')
            continue
        v['msg'] = symbolise(v['msg'])
        k = next((t for rx, t in known(prop) if rx.search(v['violation'] + ': ' + v['msg'])), None)
        if k:
            knownhits[k] = v
            continue
        dst = os.path.join(ROOT, 'evidence', 'replays', os.path.basename(v['replay']))
        rep = json.load(open(v['replay']))
        rep['violation_symbolised'] = v['msg']
        with open(v['replay']) as f:
            text = f.read()
        with open(dst, 'w') as f:
            f.write(text.replace('{"property"', '{"explanation": %s,\n "property"' % json.dumps(v['msg']), 1))
        v['replay'] = dst
        confirmed.append(v)
    for v in confirmed:
        print(f'seed {v["seed"]}: {v["violation"]}: {v["msg"]}')
        print(f'minimised to {v["lines"]} scenario lines and {v["decisions"]} scheduling decisions (from {v["orig_decisions"]}); replay with: build/{exe} replay {v["replay"]} -vv')
        print(f'VIOLATION property={prop} replay={v["replay"]}')
        rc = 1
    for rx, t in known(prop):
        print(f'KNOWN-FINDING: property={prop} {t}')
    wall = time.time() - t0
    runs = int(tot.get('runs', 0))
    secs = tot.get('seconds', 0) or 1
    faults = {k: v for k, v in counters.items() if k.startswith('fault_') or k in ('spurious_wakeups', 'clock_jumps', 'thread_stalls', 'memory_over_limit', 'preempt_mem')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(confirmed),
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(inter),
            'rule': P.get('rule', 'one evaluation is one simulated execution of a scenario generated from its seed; distinct: different sequence of (synchronisation operation, thread) as hashed during the run; non-trivial: at least 8 context switches between the threads of the run, or a single-threaded run by design'),
            'samples': samples[:3] or [{'note': 'the search ended before a run was kept as a sample'}],
            'runs_per_hour': int(runs / secs * 3600), 'seeds_per_hour': int(runs / secs * 3600),
            'simulated_seconds': round(tot.get('sim_seconds', 0), 3), 'scheduling_points': int(tot.get('scheduling_points', 0)), 'context_switches': int(tot.get('switches', 0)),
            'preemptions': int(tot.get('preemptions', 0)), 'instrumented_steps': int(tot.get('steps', 0)), 'distinct_switch_site_pairs': bin(cov).count('1') if cov else 0,
            'most_threads_in_one_run': int(tot.get('max_threads', 0)), 'faults_injected': faults, 'events': {k: v for k, v in counters.items() if k not in faults},
            'determinism_checks': int(tot.get('determinism_checked', 0)), 'determinism_failures': int(tot.get('determinism_failed', 0)), 'nondeterministic_seeds': nondet,
            'inconclusive_runs': int(tot.get('inconclusive', 0)), 'inconclusive_examples': incs, 'unconfirmed_violations': unconfirmed,
            'observations_of_other_properties': foreign, 'known_findings_hit': {k: v['seed'] for k, v in knownhits.items()},
            'real_components': P.get('real', GRAPH_REAL), 'simulated_or_stubbed_components': P.get('stub', GRAPH_STUB),
        },
        'assumptions': P.get('assumptions', []) + ['sequentially consistent memory: reorderings by weak memory models are covered only by the happens-before race detector', 'schedules and faults are sampled, not enumerated'],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    if rc == 0:
        if not ss or runs == 0:
            print('no simulated run completed:', errs[-1500:])
            return 2
        if unconfirmed:
            print(f'{unconfirmed} violations could not be reproduced')
            return 2
        print(f'{prop}: held on {runs} runs ({len(inter)} distinct interleavings, {tot.get("sim_seconds", 0):.0f} simulated seconds, {int(tot.get("inconclusive", 0))} inconclusive) in {wall:.0f} s')
    return rc


if __name__ == '__main__':
    sys.exit(main())
