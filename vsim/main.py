"""Command line: check <id> [--tier T] | replay <file> | determinism <id> | unit <id> <n>."""
import argparse
import collections
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('VSIM_PYTHON', '/opt/venv/bin/python')


def env_for(scratch, hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE, METAPACK_CACHE=scratch,
             METATAB_CACHE=scratch, APPURL_CACHE=scratch, ROWGENERATOR_CACHE=scratch, PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8', TZ='UTC')
    e.pop('PYTHONWARNINGS', None)
    return e


def scenario(prop):
    import importlib
    m = importlib.import_module('vsim.sc.' + prop.lower())
    return m.SC


# -- worker ---------------------------------------------------------------------------------------

def worker(a):
    from . import core
    sc = scenario(a.prop)
    core.warm()
    if hasattr(sc, 'setup'):
        sc.setup()
    out = sys.stdout
    t0 = time.monotonic()
    agg = {'runs': 0, 'units': 0, 'faulty': 0, 'stats': collections.Counter(), 'probes': collections.Counter(),
           'sim': 0.0, 'hashes': set(), 'cases': set(), 'log': 0, 'samples': [], 'classes': collections.Counter(),
           'violation': None, 'error': None, 'stopped': False}
    best_file = os.path.join(a.scratch, 'best')

    def best():
        try:
            with open(best_file) as f:
                return int(f.read() or '999999999')
        except (OSError, ValueError):
            return 999999999

    for unit in range(a.worker, a.units, a.workers):
        if time.monotonic() - t0 > a.budget:
            agg['stopped'] = True
            break
        if best() < unit:
            break

        def sink(r, case, plan, variant):
            agg['runs'] += 1
            if r['status'] == 'error':
                agg['error'] = {'unit': unit, 'variant': variant, 'msg': r['msg'], 'trace': r.get('trace', '')}
                return True
            agg['stats'].update(r['stats'])
            agg['probes'].update(r['probes'])
            agg['sim'] += r['now']
            agg['log'] += r.get('nlog', 0)
            if variant == 0:
                agg['cases'].add(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
            if r['nfault'] or r.get('switches') or r['stats']:
                agg['faulty'] += 1
                agg['hashes'].add(r['hash'][:16])
                if len(agg['samples']) < 2:
                    agg['samples'].append({'unit': unit, 'variant': variant, 'faults': plan.get('faults'),
                                           'schedule_switches': len(r.get('switches', [])), 'fired': r['fired'],
                                           'events': r.get('nlog'), 'event_log_sha1': r['hash'],
                                           'case': sc.describe(case) if hasattr(sc, 'describe') else None})
            if r['status'] == 'violation':
                agg['violation'] = {'unit': unit, 'variant': variant, 'case': case, 'plan': plan, 'res': r}
                return True
            return False

        core.run_unit(sc, a.seed, a.tier, unit, sink)
        agg['units'] += 1
        if agg['violation'] or agg['error']:
            if agg['violation']:
                tmp = best_file + '.%d' % a.worker
                if unit < best():
                    with open(tmp, 'w') as f:
                        f.write(str(unit))
                    os.replace(tmp, best_file)
            break
    agg['hashes'] = sorted(agg['hashes'])
    agg['cases'] = sorted(agg['cases'])
    with open(os.path.join(a.scratch, 'result.%d' % a.worker), 'w') as f:
        json.dump(agg, f)


def minimise_main(a):
    from . import core
    sc = scenario(a.prop)
    core.warm()
    if hasattr(sc, 'setup'):
        sc.setup()
    with open(os.path.join(a.scratch, 'violation')) as f:
        v = json.load(f)
    case, plan, res = core.minimise(sc, v['case'], v['plan'], v['res'])
    final = core.run_forked(sc, case, plan, keep_log=True)
    if not core.same(final, res['cls']):
        case, plan = v['case'], v['plan']
        final = core.run_forked(sc, case, plan, keep_log=True)
    out = {'property': a.prop, 'seed': a.seed, 'unit': v['unit'], 'variant': v['variant'],
           'violation': {'class': final.get('cls', v['res']['cls']), 'message': final.get('msg', v['res']['msg']),
                         'trace': final.get('trace')},
           'event_log_sha1': final.get('hash'), 'faults_fired': final.get('fired'), 'case': case, 'plan': plan,
           'event_log': final.get('log', [])[-400:]}
    with open(a.out, 'w') as f:
        json.dump(out, f, indent=1)


def replay_main(a):
    from . import core
    with open(a.file) as f:
        rp = json.load(f)
    sc = scenario(rp['property'])
    core.warm()
    if hasattr(sc, 'setup'):
        sc.setup()
    r = core.run_forked(sc, rp['case'], rp['plan'], keep_log=True)
    if a.verbose:
        for l in r.get('log', []):
            print('   ', l)
    if r['status'] == 'violation':
        print('%s: %s' % (r['cls'], r['msg']))
        print('event log %s (%s)' % (r['hash'], 'as recorded' if r['hash'] == rp['event_log_sha1'] else
                                     'recorded was %s' % rp['event_log_sha1']))
        print('VIOLATION property=%s replay=%s' % (rp['property'], a.file))
        return 1
    if r['status'] == 'error':
        print('ERROR', r['msg'], r.get('trace', ''))
        return 2
    print('the run of this file does not violate %s on this tree' % rp['property'])
    return 0


# -- master ---------------------------------------------------------------------------------------

def spawn(args, scratch, hashseed='0', **kw):
    return subprocess.Popen([PY, '-W', 'ignore', '-m', 'vsim.main'] + args, env=env_for(scratch, hashseed), cwd=HERE, **kw)


def check(a):
    t0 = time.monotonic()
    prop, tier, seed = a.prop, a.tier, a.seed
    scratch = tempfile.mkdtemp(prefix='vsim-%s-' % prop)
    try:
        return check_in(a, t0, prop, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(a, t0, prop, tier, seed, scratch):
    meta = META(prop)
    units = a.units or meta['units'][tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    budget = a.budget or {'quick': 420, 'thorough': 3600}[tier]
    procs = [spawn(['worker', prop, '--tier', tier, '--seed', str(seed), '--worker', str(i), '--workers', str(workers),
                    '--units', str(units), '--scratch', scratch, '--budget', str(budget)], scratch)
             for i in range(workers)]
    for p in procs:
        p.wait()
    agg = None
    for i, p in enumerate(procs):
        f = os.path.join(scratch, 'result.%d' % i)
        if p.returncode != 0 or not os.path.exists(f):
            print('ERROR property=%s: worker %d ended with status %s' % (prop, i, p.returncode))
            return 2
        with open(f) as fh:
            r = json.load(fh)
        if agg is None:
            agg = {'violations': [], 'errors': [], 'samples': []}
            for k in ('runs', 'units', 'faulty', 'sim', 'log'):
                agg[k] = 0
            agg['stats'], agg['probes'], agg['hashes'], agg['cases'] = collections.Counter(), collections.Counter(), set(), set()
            agg['stopped'] = False
        for k in ('runs', 'units', 'faulty', 'sim', 'log'):
            agg[k] += r[k]
        agg['stats'].update(r['stats'])
        agg['probes'].update(r['probes'])
        agg['hashes'].update(r['hashes'])
        agg['cases'].update(r['cases'])
        agg['samples'] += r['samples'][:1]
        agg['stopped'] |= r['stopped']
        if r['violation']:
            agg['violations'].append(r['violation'])
        if r['error']:
            agg['errors'].append(r['error'])
    rc = 0
    replay = None
    if agg['violations']:
        v = min(agg['violations'], key=lambda x: (x['unit'], x['variant']))
        with open(os.path.join(scratch, 'violation'), 'w') as f:
            json.dump(v, f)
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        replay = os.path.join(HERE, 'replays', '%s-s%d-u%d-v%d.json' % (prop, seed, v['unit'], v['variant']))
        p = spawn(['minimise', prop, '--seed', str(seed), '--scratch', scratch, '--out', replay], scratch)
        try:
            p.wait(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if not os.path.exists(replay):
            with open(replay, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'unit': v['unit'], 'variant': v['variant'],
                           'violation': {'class': v['res']['cls'], 'message': v['res']['msg']},
                           'event_log_sha1': v['res']['hash'], 'case': v['case'], 'plan': v['plan']}, f, indent=1)
        with open(replay) as f:
            rp = json.load(f)
        print('%s: %s' % (rp['violation']['class'], rp['violation']['message']))
        print('faults: %s' % json.dumps(rp['plan'].get('faults')))
        if rp['plan'].get('sched'):
            print('schedule: %s' % json.dumps(rp['plan']['sched'])[:500])
        rc = 1
    elif agg['errors']:
        e = min(agg['errors'], key=lambda x: x['unit'])
        print('ERROR property=%s unit=%d variant=%d: %s\n%s' % (prop, e['unit'], e['variant'], e['msg'], e['trace']))
        rc = 2
    wall = time.monotonic() - t0
    known = known_findings(prop)
    write_evidence(prop, tier, seed, meta, agg, wall, workers, rc)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('property=%s tier=%s seed=%d: %d runs of %d cases, %d distinct faulty executions, %.0f simulated s, %.1f s' %
          (prop, tier, seed, agg['runs'], agg['units'], len(agg['hashes']), agg['sim'], wall))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif rc == 0 and agg['stopped'] and agg['units'] < min(units, 8):
        print('ERROR property=%s: only %d of %d cases done in %d s' % (prop, agg['units'], units, budget))
        rc = 2
    return rc


def META(prop):
    sc = scenario(prop)
    return {'units': sc.units, 'rule': sc.rule, 'real': sc.real, 'stub': sc.stub, 'assumptions': sc.assumptions,
            'level': getattr(sc, 'level', 'exploration'), 'expect_probes': getattr(sc, 'expect_probes', [])}


def known_findings(prop):
    f = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        with open(f) as fh:
            for l in fh:
                l = l.strip()
                if l.startswith('known: property=%s ' % prop):
                    out.append(l.split(' ', 2)[2])
    return out


def write_evidence(prop, tier, seed, meta, agg, wall, workers, rc):
    stats = agg['stats']
    kinds, at = collections.Counter(), collections.Counter()
    for k, n in stats.items():
        if '@' in k:
            kinds[k.split('@')[0]] += n
            at[k] += n
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['hashes']),
        'rule': meta['rule'] + ' An execution counts as non-trivial if a fault actually fired in it or the scheduler '
                'switched tasks in it; two are distinct if the SHA-1 of their complete event logs (every I/O operation, '
                'fault, task switch and outcome, in order) differ.',
        'samples': agg['samples'][:4],
        'cases': agg['units'], 'distinct_cases': len(agg['cases']),
        'runs_with_fault_or_switch': agg['faulty'],
        'runs_per_hour': int(agg['runs'] / max(wall, .001) * 3600),
        'seeds_per_hour': int(agg['units'] / max(wall, .001) * 3600),
        'simulated_seconds': round(agg['sim'], 3),
        'events_logged': agg['log'],
        'faults_injected': dict(sorted(kinds.items())),
        'faults_by_operation': dict(sorted(at.items())),
        'task_switches': stats.get('switch', 0),
        'power_losses_that_dropped_state': stats.get('power_loss_dropped_state', 0),
        'probes': dict(sorted(agg['probes'].items())),
        'probes_never_hit': [p for p in meta['expect_probes'] if not agg['probes'].get(p)],
        'components_real': meta['real'], 'components_stubbed': meta['stub'],
        'workers': workers, 'stopped_by_time': agg['stopped'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': meta['assumptions'], 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, '%s.json' % prop))


# -- determinism --------------------------------------------------------------------------------

def hashes_main(a):
    """Print the event-log hashes of every run of some units."""
    from . import core
    sc = scenario(a.prop)
    core.warm()
    if hasattr(sc, 'setup'):
        sc.setup()
    for unit in range(a.worker, a.units, a.workers):
        def sink(r, case, plan, variant):
            print(unit, variant, r['status'], r.get('hash'), hashlib.sha1(json.dumps([case, plan], sort_keys=True).encode()).hexdigest())
            return False
        core.run_unit(sc, a.seed, a.tier, unit, sink)


def determinism(a):
    scratch = tempfile.mkdtemp(prefix='vsim-det-')
    try:
        ref = None
        for workers, hs in ((1, '0'), (3, '0'), (8, '0'), (4, '0'), (2, '77'), (5, '12345')):
            ps = [spawn(['hashes', a.prop, '--seed', str(a.seed), '--tier', a.tier, '--units', str(a.units or 16),
                         '--worker', str(i), '--workers', str(workers)], scratch, hs, stdout=subprocess.PIPE, text=True)
                  for i in range(workers)]
            lines = []
            for p in ps:
                lines += p.communicate()[0].splitlines()
            lines.sort()
            if ref is None:
                ref = lines
            elif ref != lines:
                diff = sorted(set(ref) ^ set(lines))[:6]
                print('NOT DETERMINISTIC: workers=%d hashseed=%s\n%s' % (workers, hs, '\n'.join(diff)))
                return 1
        print('%s deterministic: %d runs, same event logs in 6 configurations' % (a.prop, len(ref)))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def unit_main(a):
    from . import core
    sc = scenario(a.prop)
    core.warm()
    if hasattr(sc, 'setup'):
        sc.setup()
    bad = [0]

    def sink(r, case, plan, variant):
        print(variant, r['status'], r.get('cls', ''), r.get('msg', '')[:600], r.get('fired'), json.dumps(plan)[:300])
        if r.get('trace'):
            print(r['trace'])
        if r['status'] != 'ok':
            bad[0] = 1
            if a.verbose:
                r = core.run_forked(sc, case, plan, keep_log=True)
                print('\n'.join(r.get('log', [])[-80:]))
                print(json.dumps(case)[:3000])
        return False
    core.run_unit(sc, a.seed, a.tier, int(a.unit), sink)
    return bad[0]


def main():
    p = argparse.ArgumentParser(prog='vsim')
    p.add_argument('cmd')
    p.add_argument('prop', nargs='?')
    p.add_argument('unit', nargs='?')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    p.add_argument('--worker', type=int, default=0)
    p.add_argument('--workers', type=int, default=0)
    p.add_argument('--units', type=int, default=0)
    p.add_argument('--budget', type=float, default=0)
    p.add_argument('--scratch')
    p.add_argument('--out')
    p.add_argument('-v', '--verbose', action='store_true')
    a = p.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.cmd == 'replay':
        a.file = a.prop
        inner = os.environ.get('VSIM_INNER')
        if not inner:
            scratch = tempfile.mkdtemp(prefix='vsim-replay-')
            try:
                e = env_for(scratch)
                e['VSIM_INNER'] = '1'
                return subprocess.call([PY, '-W', 'ignore', '-m', 'vsim.main'] + sys.argv[1:], env=e, cwd=HERE)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return replay_main(a)
    if a.cmd == 'unit' and not os.environ.get('VSIM_INNER'):
        scratch = tempfile.mkdtemp(prefix='vsim-unit-')
        try:
            e = env_for(scratch)
            e['VSIM_INNER'] = '1'
            return subprocess.call([PY, '-W', 'ignore', '-m', 'vsim.main'] + sys.argv[1:], env=e, cwd=HERE)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return {'check': check, 'worker': worker, 'minimise': minimise_main, 'determinism': determinism,
            'hashes': hashes_main, 'unit': unit_main}[a.cmd](a)


if __name__ == '__main__':
    sys.exit(main() or 0)
