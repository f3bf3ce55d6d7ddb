#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's working tree.
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check failed."""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import session

# programs per family: quick (all systematic forms, then random), thorough batches
PLAN = {
    'C01': 230, 'C03': 110, 'C04': 120, 'C05': 110, 'C06': 130, 'C07': 90, 'C08': 120, 'C09': 110, 'C10': 110, 'C11': 170,
    'C12': 280, 'C14': 200, 'C15': 120, 'C16': 110, 'C17': 120, 'C18': 90, 'C19': 90, 'C20': 100, 'C21': 70,
}

# families whose programs are also executed by the operational model (Machine) in the quick tier
DESIGN_QUICK = ('C05', 'C07')
DENSITIES = ('C10', 'C15', 'C16', 'C17', 'C18')     # leaf algorithms Machine does not model
SMALL = ('C05',)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=BUILD)
    shutil.rmtree(os.path.join(OUT, pid), ignore_errors=True)
    code = 2
    try:
        ev = run(pid, tier, seed, work)
        bad = ev.pop('_bad')
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = len(bad)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        for b in bad[:20]:
            print('VIOLATION property=%s replay=%s' % (pid, b[4]))
            print('  %s run %s %s: %s' % b[:4])
        print('%s %s: %s in %.1f s' % (pid, tier, 'VIOLATED (%d)' % len(bad) if bad else 'held', time.time() - t0))
        print(json.dumps({k: v for k, v in ev['coverage'].items() if k != 'samples'}))
        code = 1 if bad else 0
    except Broken as e:
        print('CHECK FAILED: %s' % e)
    except Exception:
        traceback.print_exc()
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def run(pid, tier, seed, work):
    if pid == 'C02':
        import forward; return forward.run(pid, tier, seed, work)
    if pid == 'C13':
        import varlife; return varlife.run(pid, tier, seed, work)
    return run_session(pid, tier, seed, work)

def run_session(pid, tier, seed, work):
    o = session.Outcome()
    gen_states = gen_trans = nprog = 0
    samples = []
    runs_d = small = 0
    n = PLAN[pid]
    if '--n' in sys.argv: n = int(sys.argv[sys.argv.index('--n') + 1])
    if tier == 'quick':
        batches = [(1, n, seed, 'quick', '-O0', False)]
    else:
        batches = [(1, n, seed, 'quick', '-O2', False), (1, n, seed + 100, 'quick', '-O1', True)]
        batches += [(n + 1 + 200 * k, 200, seed + 200 + k, 'thorough', '-O0', False) for k in range(6)]
    for k, (first, cnt, sd, gt, opt, san) in enumerate(batches):
        w = os.path.join(work, 'b%d' % k)
        os.makedirs(w)
        b = session.Builder(w, 'rt.hpp', 'rt.cpp', opt, san and pid != 'C21', threads=pid == 'C21')
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(b.prepare)
            f2 = ex.submit(session.generate, pid, first, cnt, sd, gt, os.path.join(w, 'gen'), os.path.join(w, 'mdg'))
            f1.result()
            progs, g, d = f2.result()
        gen_trans += g; gen_states += d; nprog += len(progs)
        session.conform(pid, progs, b, w, o, commit_replay, '' if k == 0 else '_b%d' % k)
        if (pid in DESIGN_QUICK or tier == 'thorough') and pid not in DENSITIES and not o.bad:
            a, g, d = session.design(progs, w)
            runs_d += a; gen_trans += g; gen_states += d
        if not samples:
            samples = [dict(program=p['id'], expressions=exprs_of(p), actions=[c['op'] for c in p['runs'][0]]) for p in (progs[0], progs[-1])]
        if '--keep' not in sys.argv: shutil.rmtree(w, ignore_errors=True)
        if o.bad: break
    if pid in SMALL and not o.bad:
        for a in [(2, 3, 0, 1)] if tier == 'quick' else [(2, 4, 0, 1), (3, 3, seed % 20, 20)]:
            g, d = session.design_small(*a, work)
            gen_trans += g; gen_states += d; small += d
    if pid == 'C21' and not o.bad:
        g, d = session.design_par(1, seed % 20, 20, work) if tier == 'quick' else session.design_par(1, 0, 1, work)
        gen_trans += g; gen_states += d; small += d
    return dict(property=pid, tier=tier, seed=seed, level='model_checking',
                coverage=dict(states=gen_states + o.distinct, transitions=gen_trans + o.states,
                              traces_validated_against_impl=o.accept, runs_left_preconditions=o.skip,
                              design_runs_refining_session=runs_d, design_states_of_small_programs=small,
                              programs=nprog, implementation_events=o.events, samples=samples),
                assumptions=['doubles; TLC evaluates floating-point operators by java/Flt.java',
                             'results compared up to a running error bound; what must not change is compared exactly',
                             'preconditions of spec/Session.tla (DESIGN.md)'],
                _bad=o.bad)

def exprs_of(p):
    e = session.emit.Emitter(p['prog'])
    return [e.need(x) for x in p['prog']['ex']]

main()
