"""Search driver: seeded cases, fault sweeps, minimisation, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import resource
import select as _select
import shutil
import signal
import sys
import time as _time
import traceback

from . import core, proc, fs as simfs, simlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHM = '/dev/shm' if os.path.isdir('/dev/shm') and os.access(
    '/dev/shm', os.W_OK) else '/tmp'
KNOWN = os.path.join(VERIF, 'known_findings.json')
T = _time.time


class Outcome(object):
    def __init__(self):
        self.violation = None
        self.decisions = {}
        self.digest = ''
        self.steps = 0
        self.elapsed = 0.0
        self.faults = {}
        self.states = set()
        self.labels = {}
        self.nontrivial = False
        self.switches = 0
        self.tail = []
        self.points = []
        self.info = {}

    def brief(self):
        v = self.violation
        return None if v is None else {'kind': v.kind, 'message': v.message,
                                       'facts': v.facts}


def _on_cpu(*a):
    raise core.CpuLimit()


_run_n = [0]


def scratch_root():
    # Same length for every process and run: paths end up in files
    return '{}/nxtsim-{:07d}'.format(SHM, simfs.R['getpid']() % 10 ** 7)


def execute(prop, scenario, seed, decisions=None, cpu=20.0):
    """One simulated run. Returns its Outcome."""
    out = Outcome()
    root = scratch_root()
    if os.path.isdir(root):
        wipe(root)
    for d in ('', '/user', '/tmp', '/home', '/work'):
        os.mkdir(root + d)
    w = core.World(seed, root, decisions,
                   core.Policy(scenario.get('rates') or {},
                               scenario.get('rate', 0.0)),
                   max_steps=scenario.get('max_steps', 30000))
    w.fs = simfs.Disk(w)
    w.net = simlib.Net(w)
    random.seed('nxt:{}'.format(seed))
    w.activate()
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu, 1.0)
    viol = None
    try:
        info = prop.run(w, scenario)
        out.info = info or {}
        if w.fs.escapes:
            out.info['escapes'] = [str(e) for e in w.fs.escapes[:5]]
    except core.Violation as v:
        viol = v
    except core.StepLimit as e:
        viol = prop.on_steplimit(w, scenario, e) \
            if hasattr(prop, 'on_steplimit') else \
            core.Violation('no-progress',
                           'the run did not finish within {} simulated '
                           'operations ({})'.format(w.max_steps, e))
    except core.CpuLimit:
        viol = core.Violation('no-progress', 'the run span for {} CPU seconds '
                              'without reaching its end'.format(cpu))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        try:
            w.close()
        finally:
            core.CUR = None
            w.fs.end_of_world()
        try:
            simfs.R['chdir']('/')
        except OSError:
            pass
    out.violation = viol
    out.decisions = dict(w.decisions)
    out.digest = w.digest()
    out.steps = w.steps
    out.elapsed = w.elapsed
    out.faults = dict(w.fault_counts)
    out.states = set(w.states)
    out.labels = dict(w.label_counts)
    out.switches = w.switches
    out.points = list(w.fs.points)
    out.tail = [e for e in w.events[-60:]]
    wipe(root)
    return out


def wipe(root):
    assert root.startswith(SHM + '/nxtsim-')
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(base, d)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
    shutil.rmtree(root, ignore_errors=True)


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def case_seed(seed, pid, i):
    h = hashlib.sha256('{}/{}/{}'.format(seed, pid, i).encode()).hexdigest()
    return int(h[:15], 16)


def known_findings(pid):
    try:
        with open(KNOWN) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return []
    return [f for f in data.get('findings', [])
            if f.get('property') == pid and f.get('status') == 'known']


def matches(finding, violation):
    m = finding.get('match', {})
    if m.get('kind') != violation['kind']:
        return False
    for k, v in m.get('facts', {}).items():
        if violation['facts'].get(k) != v:
            return False
    return True


class Agg(object):
    def __init__(self):
        self.runs = 0
        self.cases = 0
        self.steps = 0
        self.sim_s = 0.0
        self.faults = {}
        self.digests = set()
        self.nontrivial = set()
        self.states = set()
        self.switches = 0
        self.samples = []
        self.known = {}
        self.info = {}

    def add(self, out, prop, scenario, seed):
        self.runs += 1
        self.steps += out.steps
        self.sim_s += out.elapsed
        self.switches += out.switches
        for k, v in out.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.digests.add(out.digest[:16])
        if out.decisions or out.faults or out.info.get('nontrivial'):
            self.nontrivial.add(out.digest[:16])
        self.states |= out.states
        for k, v in out.info.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.info[k] = self.info.get(k, 0) + v
        if len(self.samples) < 1 or (len(self.samples) < 2 and out.faults):
            self.samples.append({'seed': seed, 'scenario': scenario,
                                 'decisions': out.decisions,
                                 'steps': out.steps,
                                 'last_events': out.tail[-8:]})

    def dump(self):
        d = dict(self.__dict__)
        for k in ('digests', 'nontrivial', 'states'):
            d[k] = sorted(d[k])
        return d

    def merge(self, d):
        for k in ('runs', 'cases', 'steps', 'sim_s', 'switches'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('faults', 'info', 'known'):
            mine = getattr(self, k)
            for n, v in d[k].items():
                mine[n] = mine.get(n, 0) + v
        for k in ('digests', 'nontrivial', 'states'):
            getattr(self, k).update(d[k])
        if len(self.samples) < 3:
            self.samples += d['samples'][:3 - len(self.samples)]


def case_runs(prop, scenario, seed, rng, tier):
    """All executions of one case: the plain run, then the fault sweep."""
    base = execute(prop, scenario, seed)
    yield base, None
    if base.violation is not None:
        return
    sweep = getattr(prop, 'sweep', None)
    if sweep is None:
        return
    for extra in sweep(scenario, base, rng, tier):
        dec = dict(base.decisions)
        dec.update(extra)
        yield execute(prop, scenario, seed, dec), dec


def worker(pid, tier, seed, indices, deadline, wfd):
    prop = load_prop(pid)
    agg = Agg()
    known = known_findings(pid)
    result = {'violation': None}
    try:
        for i in indices:
            if T() > deadline:
                break
            cs = case_seed(seed, pid, i)
            rng = random.Random(cs)
            scenario = prop.generate(rng, tier)
            agg.cases += 1
            for out, dec in case_runs(prop, scenario, cs, rng, tier):
                agg.add(out, prop, scenario, cs)
                v = out.brief()
                if v is None:
                    if T() > deadline:
                        break
                    continue
                hit = [f for f in known if matches(f, v)]
                if hit:
                    agg.known[hit[0]['id']] = agg.known.get(
                        hit[0]['id'], 0) + 1
                    continue
                result['violation'] = {
                    'case': i, 'seed': cs, 'scenario': scenario,
                    'decisions': out.decisions, 'violation': v,
                    'digest': out.digest}
                break
            if result['violation']:
                break
    except BaseException:
        result['error'] = traceback.format_exc()
    result['agg'] = agg.dump()
    data = json.dumps(result, default=str).encode()
    fd = wfd
    while data:
        n = simfs.R['write'](fd, data)
        data = data[n:]
    simfs.R['close'](fd)
    root = scratch_root()
    if os.path.isdir(root):
        wipe(root)
    simfs.R['_exit'](0)


def run_pool(pid, tier, seed, total, budget, nworkers, chunk):
    """Fork short-lived workers over the case indices."""
    start = T()
    deadline = start + budget
    agg = Agg()
    violations, errors = [], []
    nxt_i = 0
    live = {}
    stop = False
    while True:
        while not stop and len(live) < nworkers and nxt_i < total \
                and T() < deadline:
            idx = list(range(nxt_i, min(total, nxt_i + chunk)))
            nxt_i += len(idx)
            r, w = os.pipe()
            child = simfs.R['fork']()
            if child == 0:
                simfs.R['close'](r)
                for fd in live:
                    try:
                        simfs.R['close'](fd)
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker(pid, tier, seed, idx, deadline, w)
            simfs.R['close'](w)
            live[r] = [child, b'']
        if not live:
            break
        ready, _, _ = simlib.real('select').select(list(live), [], [], 1.0)
        for r in ready:
            data = simfs.R['read'](r, 1 << 20)
            if data:
                live[r][1] += data
                continue
            child, buf = live.pop(r)
            simfs.R['close'](r)
            os.waitpid(child, 0)
            leftover = '{}/nxtsim-{:07d}'.format(SHM, child % 10 ** 7)
            if os.path.isdir(leftover):
                wipe(leftover)
            try:
                res = json.loads(buf.decode())
            except ValueError:
                errors.append('worker {} died without a result'.format(child))
                stop = True
                continue
            agg.merge(res['agg'])
            if res.get('error'):
                errors.append(res['error'])
                stop = True
            if res['violation']:
                violations.append(res['violation'])
                stop = True
    return agg, violations, errors, T() - start


# -------------------------------------------------------------- minimise --
def minimise(prop, case, budget=60.0, verbose=False):
    """Fewer faults and schedule choices, then a smaller scenario."""
    end = T() + budget
    want = case['violation']['kind']
    best = dict(case)

    def try_(scenario, decisions):
        out = execute(prop, scenario, case['seed'], decisions)
        v = out.brief()
        if v is not None and v['kind'] == want:
            return {'seed': case['seed'], 'scenario': scenario,
                    'decisions': out.decisions, 'violation': v,
                    'digest': out.digest, 'case': case.get('case'),
                    'trace': out.tail}
        return None

    again = try_(best['scenario'], best['decisions'])
    if again is None:
        return None
    best = again
    changed = True
    while changed and T() < end:
        changed = False
        # ddmin over the recorded decisions
        keys = list(best['decisions'])
        size = max(1, len(keys) // 2)
        while size >= 1 and T() < end:
            i = 0
            while i < len(keys) and T() < end:
                drop = set(keys[i:i + size])
                got = try_(best['scenario'],
                           {k: v for k, v in best['decisions'].items()
                            if k not in drop})
                if got and len(got['decisions']) < len(best['decisions']):
                    best = got
                    keys = list(best['decisions'])
                    changed = True
                else:
                    i += size
            size //= 2
        if hasattr(prop, 'shrink'):
            progress = True
            while progress and T() < end:
                progress = False
                for smaller in prop.shrink(best['scenario']):
                    if T() > end:
                        break
                    got = try_(smaller, best['decisions'])
                    if got:
                        best = got
                        progress = changed = True
                        break
    return best


def write_replay(pid, best, original):
    d = os.path.join(VERIF, 'replays')
    if not os.path.isdir(d):
        os.makedirs(d)
    name = '{}-{}-{:x}.json'.format(pid, best['violation']['kind'],
                                    best['seed'])
    path = os.path.join(d, name)
    with open(path, 'w') as fp:
        json.dump({'property': pid, 'seed': best['seed'],
                   'case': best.get('case'),
                   'scenario': best['scenario'],
                   'decisions': best['decisions'],
                   'violation': best['violation'],
                   'event_digest': best['digest'],
                   'last_events': best.get('trace', [])[-40:],
                   'unminimised': {'scenario': original['scenario'],
                                   'decisions': original['decisions']},
                   'how': 'bash /verif/check.sh {} --replay {}'.format(
                       pid, path)},
                  fp, indent=1, default=str)
    return path


def replay_file(pid, path):
    with open(path) as fp:
        data = json.load(fp)
    prop = load_prop(pid)
    out = execute(prop, data['scenario'], data['seed'], data['decisions'])
    v = out.brief()
    same = v is not None and v['kind'] == data['violation']['kind'] \
        and out.digest == data['event_digest']
    return v, out, same


# ------------------------------------------------------------------ main --
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--workers', type=int, default=int(
        os.environ.get('VERIF_WORKERS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('--one', type=int, help='run one case index, verbosely')
    ap.add_argument('--digests', action='store_true')
    args = ap.parse_args(argv)
    proc.install()
    pid = args.property
    prop = load_prop(pid)
    if args.replay:
        v, out, same = replay_file(pid, args.replay)
        if v is None:
            print('replay: no violation')
            return 0
        print('replay: {} -- {}'.format(v['kind'], v['message']))
        print(json.dumps(v['facts'], indent=1, default=str))
        print('replay is {}'.format('exact' if same else 'NOT identical'))
        print('VIOLATION property={} replay={}'.format(pid, args.replay))
        return 1
    if args.one is not None:
        cs = case_seed(args.seed, pid, args.one)
        rng = random.Random(cs)
        scenario = prop.generate(rng, args.tier)
        print(json.dumps(scenario, indent=1))
        for out, dec in case_runs(prop, scenario, cs, rng, args.tier):
            print(out.steps, out.digest, out.faults, out.info, out.brief(),
                  dec)
            if out.violation is not None:
                print('\n'.join(out.tail))
                break
        return 0
    if args.digests:
        for i in range(args.cases or 20):
            cs = case_seed(args.seed, pid, i)
            rng = random.Random(cs)
            scenario = prop.generate(rng, args.tier)
            for n, (out, dec) in enumerate(case_runs(prop, scenario, cs, rng,
                                                     args.tier)):
                print(i, n, out.digest, out.steps,
                      out.violation.kind if out.violation else '-')
        return 0
    quick = args.tier != 'thorough'
    conf = prop.QUICK if quick else prop.THOROUGH
    total = args.cases or conf['cases']
    budget = args.budget or conf.get('budget', 60 if quick else 3600)
    # Warm the memo of compiled modules before forking
    t0 = T()
    try:
        warm = random.Random(0)
        execute(prop, prop.generate(warm, 'quick'), 0)
    except Exception:
        traceback.print_exc()
        print('harness error while warming up')
        return 2
    reproduced = {}
    for f in known_findings(pid):
        out = execute(prop, f['scenario'], f['seed'], f['decisions'])
        v = out.brief()
        if v is not None and matches(f, v):
            print('KNOWN-FINDING: property={} {}'.format(pid, f['what']))
            reproduced[f['id']] = True
        else:
            reproduced[f['id']] = False
    agg, violations, errors, wall = run_pool(
        pid, args.tier, args.seed, total, budget, args.workers,
        conf.get('chunk', 20))
    fresh = []
    for v in sorted(violations, key=lambda c: c['case']):
        best = minimise(prop, v, budget=20 if quick else 120)
        if best is None:
            errors.append('case {} ({}) did not reproduce in another '
                          'process'.format(v['case'], v['violation']))
            continue
        path = write_replay(pid, best, v)
        fresh.append((best, path))
        break
    write_evidence(pid, prop, args, agg, fresh, wall, T() - t0, total,
                   reproduced, errors)
    print('{}: {} runs of {} cases, {:.1f}s, {} distinct executions, faults '
          '{}'.format(pid, agg.runs, agg.cases, wall, len(agg.digests),
                      dict(sorted(agg.faults.items()))))
    for best, path in fresh:
        v = best['violation']
        print('{}: {}'.format(v['kind'], v['message']))
        print('VIOLATION property={} replay={}'.format(pid, path))
    if fresh:
        return 1
    if errors:
        print('\n'.join(errors[:3]))
        print('harness error: no verdict')
        return 2
    return 0


def write_evidence(pid, prop, args, agg, fresh, wall, total_wall, total,
                   reproduced, errors):
    d = os.path.join(VERIF, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    hours = max(wall, 1e-6) / 3600.0
    cov = {
        'evaluations': agg.runs,
        'distinct_nontrivial': len(agg.nontrivial),
        'rule': getattr(prop, 'RULE', '') + ' An evaluation is one simulated '
                'run; it is non-trivial when at least one fault, schedule '
                'choice or clock event departs from the benign default (or '
                'the workload itself marks it), and distinct by the SHA-1 of '
                'its complete event log.',
        'samples': agg.samples,
        'cases_requested': total,
        'cases_run': agg.cases,
        'runs_per_hour': int(agg.runs / hours),
        'seeds_per_hour': int(agg.cases / hours),
        'simulated_seconds': round(agg.sim_s, 3),
        'simulated_operations': agg.steps,
        'faults_injected': dict(sorted(agg.faults.items())),
        'context_switches_chosen': agg.switches,
        'distinct_executions': len(agg.digests),
        'distinct_states': len(agg.states),
        'workload': {k: agg.info[k] for k in sorted(agg.info)},
        'real_code': getattr(prop, 'REAL', ''),
        'stubbed': getattr(prop, 'STUB', ''),
        'known_findings_reproduced': reproduced,
        'known_findings_met_in_search': agg.known,
    }
    data = {'property': pid, 'tier': 'thorough' if args.tier == 'thorough'
            else 'quick', 'seed': args.seed, 'level': prop.LEVEL,
            'coverage': cov, 'assumptions': getattr(prop, 'ASSUMES', []),
            'wall_s': round(total_wall, 2), 'violations': len(fresh)}
    if errors:
        data['coverage']['harness_errors'] = errors[:3]
    with open(os.path.join(d, pid + '.json'), 'w') as fp:
        json.dump(data, fp, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
