"""Search over simulated installation commands (sim/fs/fssim.py): builds the shim, runs the workers, confirms and
reports violations, writes the evidence. Used by check.py for the properties marked 'python'."""
import json, os, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SIM = os.path.join(ROOT, 'sim', 'fs', 'fssim.py')


def env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(LD_PRELOAD=os.path.join(BUILD, 'fsshim.so'), FSSIM_SCRATCH=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
    return e


def run(prop, P, tier, seed, t0, known):
    budget = float(os.environ.get('VERIF_TIME', P.get('quick', 40) if tier == 'quick' else P.get('thorough', 600)))
    out = os.path.join(BUILD, f'out-{prop}-{os.getpid()}')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shm = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    scratch = f'{shm}/fssim-{os.getpid()}'
    os.makedirs(scratch)
    viol, summ, nondet, errs = [], [], [], ''
    try:
        procs = []
        for w in range(WORKERS):
            cmd = [sys.executable, SIM, 'search', '--prop', prop, '--first', str(seed * 1000000007 % (1 << 48)), '--worker', f'{w}/{WORKERS}', '--time', str(budget), '--minimise', '20', '--out', out, '--scratch', f'{scratch}/w{w}']
            procs.append(subprocess.Popen(cmd, env=env(scratch), stdout=open(f'{out}/log.{w}', 'w'), stderr=open(f'{out}/err.{w}', 'w'), start_new_session=True))
        end = time.time() + budget + 120

        def read():
            for w in range(WORKERS):
                for l in open(f'{out}/log.{w}'):
                    try:
                        yield json.loads(l)
                    except ValueError:
                        pass
        while any(p.poll() is None for p in procs) and time.time() < end:
            time.sleep(0.3)
            if any('violation' in d for d in read()):
                time.sleep(0.5)
                break
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        for d in read():
            if 'violation' in d:
                viol.append(d)
            elif 'summary' in d:
                summ.append(d['summary'])
            elif 'nondet' in d:
                nondet.append(d['nondet'])
        errs = ''.join(open(f'{out}/err.{w}').read()[-800:] for w in range(WORKERS))
        confirmed, unconfirmed, hits = [], 0, {}
        os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
        for v in viol:
            ok, hashes = True, set()
            for i in range(2):
                r = subprocess.run([sys.executable, SIM, 'replay', v['replay']], env=env(f'{scratch}/rep{i}'), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
                try:
                    d = json.loads(r.stdout.strip().split('\n')[-1])
                    ok = ok and d['same']
                    hashes.add(d['hash'])
                except (ValueError, IndexError):
                    ok = False
            if not ok or len(hashes) != 1:
                unconfirmed += 1
                print(f'unconfirmed: seed {v["seed"]}: {v["violation"]}: {v["msg"][:300]}')
                continue
            k = next((t for rx, t in known if rx.search(v['violation'] + ': ' + v['msg'])), None)
            if k:
                hits[k] = v['seed']
                continue
            dst = os.path.join(ROOT, 'evidence', 'replays', os.path.basename(v['replay']))
            shutil.copy(v['replay'], dst)
            v['replay'] = dst
            confirmed.append(v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v in confirmed:
        print(f'seed {v["seed"]}: {v["violation"]}: {v["msg"]}')
        print(f'minimised to {v["decisions"]} scheduling and fault decisions (from {v["orig_decisions"]}); replay with: LD_PRELOAD={BUILD}/fsshim.so python3 {SIM} replay {v["replay"]} -v')
        print(f'VIOLATION property={prop} replay={v["replay"]}')
    for rx, t in known:
        print(f'KNOWN-FINDING: property={prop} {t}')
    tot, faults, inter = {}, {}, set()
    for s in summ:
        for k, x in s.items():
            if isinstance(x, (int, float)):
                tot[k] = max(tot.get(k, 0), x) if k == 'seconds' else tot.get(k, 0) + x
        for k, x in s['faults'].items():
            faults[k] = faults.get(k, 0) + x
        inter.update(s['inter'])
    runs, secs, wall = int(tot.get('runs', 0)), tot.get('seconds', 0) or 1, time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(confirmed),
          'coverage': {'evaluations': runs, 'distinct_nontrivial': len(inter),
                       'rule': 'one evaluation is one simulated history (several rounds of one or more concurrent installation commands, with crashes and restarts) generated from its seed; distinct: different sequence of (client, file operation, outcome imposed) as hashed during the run; non-trivial: at least one injected fault or one switch between concurrent clients',
                       'samples': [x for s in summ for x in s['samples']][:3] or [{'note': 'the search ended before a run was kept as a sample'}],
                       'runs_per_hour': int(runs / secs * 3600), 'seeds_per_hour': int(runs / secs * 3600), 'simulated_seconds': round(tot.get('sim_seconds', 0), 1),
                       'file_operations_scheduled': int(tot.get('ops', 0)), 'client_switches': int(tot.get('switches', 0)), 'rounds': int(tot.get('rounds', 0)), 'commands_run': int(tot.get('clients', 0)),
                       'commands_that_reported_success': int(tot.get('successes', 0)), 'commands_that_did_not': int(tot.get('failures', 0)),
                       'power_failure_images_judged': int(tot.get('images', 0)), 'faults_injected': dict(sorted(faults.items())),
                       'determinism_checks': int(tot.get('determinism_checked', 0)), 'determinism_failures': int(tot.get('determinism_failed', 0)), 'nondeterministic_seeds': nondet,
                       'unconfirmed_violations': unconfirmed, 'known_findings_hit': hits, 'real_components': P['real'], 'simulated_or_stubbed_components': P['stub']},
          'assumptions': P.get('assumptions', [])}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    if confirmed:
        return 1
    if runs == 0 or unconfirmed:
        print('no simulated run completed:' if runs == 0 else f'{unconfirmed} violations could not be reproduced', errs[-1500:])
        return 2
    print(f'{prop}: held on {runs} runs ({len(inter)} distinct fault and schedule sequences, {int(tot["ops"])} file operations, {int(tot["images"])} power failure images) in {wall:.0f} s')
    return 0
