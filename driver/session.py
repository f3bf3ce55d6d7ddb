"""Conformance of the reverse-mode library to spec/Session.tla:
   Gen.tla (TLC) -> programs and behaviours -> C++ -> recorded traces -> Trace.tla (TLC)."""
import glob, json, os, re, time
import emit
from common import *

PER_TU = 4

def generate(fam, first, n, seed, tier, outdir, meta):
    os.makedirs(outdir, exist_ok=True)
    rc, out, gen, dist = tlc('Gen.tla', 'Gen.cfg', dict(GEN_FAMILY=fam, GEN_N=str(n), GEN_FIRST=str(first), GEN_SEED=str(seed),
                                                        GEN_TIER=tier, GEN_OUT=outdir), meta)
    fs = glob.glob(outdir + '/*.json')
    if not tlc_ok(out) or len(fs) != n:
        raise Broken('generation failed (%d of %d programs): %s' % (len(fs), n, out[-3000:]))
    ps = [json.load(open(f)) for f in fs]
    ps.sort(key=lambda p: int(p['id'].split('_')[-1]))
    return ps, gen, dist

def design(progs, work):
    """the same behaviours executed by spec/Machine.tla instead of the library: (runs accepted, states)"""
    d = os.path.join(work, 'design'); os.makedirs(d)
    for k, p in enumerate(progs, 1):
        json.dump(dict(id=p['id'], prog=p['prog'], runs=p['runs']), open(os.path.join(d, '%d.json' % k), 'w'))
    rc, out, gen, dist = tlc('MachineTrace.tla', 'MachineTrace.cfg', dict(TRACE_DIR=d, TRACE_N=str(len(progs))), os.path.join(work, 'mdd'))
    rej = re.findall(r'<<\s*"REJECT"[^@]{0,1000}', out)
    if not tlc_ok(out) or rej:
        raise Broken('spec/Machine.tla and spec/Session.tla disagree: %s' % (rej[0] if rej else out[-3000:]))
    shutil.rmtree(d)
    return len(re.findall(r'<<"ACCEPT"', out)), gen, dist

def design_small(stmts, depth, part, parts, work):
    """every small statement sequence under every short history (spec/MachineMC.tla)"""
    rc, out, gen, dist = tlc('MachineMC.tla', 'MachineMC.cfg', dict(MC_STMTS=str(stmts), MC_DEPTH=str(depth), MC_PART=str(part), MC_PARTS=str(parts)),
                             os.path.join(work, 'mds'), timeout=3000, heap='12g', props=['-Dtlc2.tool.queue.IStateQueue=MemStateQueue'])
    if not tlc_ok(out): raise Broken('spec/MachineMC.tla: %s' % out[-3000:])
    return gen, dist

def design_par(stmts, part, parts, work):
    """two evaluations at once, every interleaving of their memory accesses (spec/ParMC.tla)"""
    rc, out, gen, dist = tlc('ParMC.tla', 'ParMC.cfg', dict(MC_STMTS=str(stmts), MC_PART=str(part), MC_PARTS=str(parts), MC_SHARE='none'),
                             os.path.join(work, 'mdp'), timeout=3000, heap='12g', props=['-Dtlc2.tool.queue.IStateQueue=MemStateQueue'])
    if not tlc_ok(out): raise Broken('spec/ParMC.tla: %s' % out[-3000:])
    return gen, dist

class Outcome:
    def __init__(self):
        self.bad = []          # (program id, run, kind, text)
        self.accept = self.skip = self.events = self.states = self.distinct = 0

def build_all(b, progs, work):
    """compile in groups; returns exe per program id and the programs that do not compile"""
    groups = [progs[i:i + PER_TU] for i in range(0, len(progs), PER_TU)]
    def one(g):
        base = os.path.join(work, 'g_' + g[0]['id'])
        open(base + '.cpp', 'w').write(emit.source([(p['id'], p['prog']) for p in g]))
        open(base + '.scr', 'w').write(''.join(emit.script(p['id'], p['runs']) for p in g))
        rc, out = b.compile(base + '.cpp', base + '.bin')
        if rc == 0: return [(base, g)], []
        if len(g) == 1: return [], [(g[0], out)]
        oks, bads = [], []
        for p in g:
            bs = os.path.join(work, 's_' + p['id'])
            open(bs + '.cpp', 'w').write(emit.source([(p['id'], p['prog'])]))
            open(bs + '.scr', 'w').write(emit.script(p['id'], p['runs']))
            rc, out = b.compile(bs + '.cpp', bs + '.bin')
            if rc == 0: oks.append((bs, [p]))
            else: bads.append((p, out))
        return oks, bads
    oks, bads = [], []
    for o, f in pmap(one, groups):
        oks += o; bads += f
    return oks, bads

def run_all(exes, logdir):
    os.makedirs(logdir, exist_ok=True)
    env = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0',
               TSAN_OPTIONS='halt_on_error=1:exitcode=98:report_thread_leaks=0:history_size=4')
    def one(e):
        rc, out = sh([e[0] + '.bin', e[0] + '.scr', logdir], timeout=700, env=env)
        if rc: raise Broken('%s: rc %s %s' % (e[0], rc, out[-500:]))
    pmap(one, exes)

def assemble(p, logdir):
    """recorded runs of program p as a list of event lists"""
    runs = []
    for u, cmds in enumerate(p['runs'], 1):
        base = '%s/%s.%d' % (logdir, p['id'], u)
        rc = int(open(base + '.rc').read())
        evs = []
        for line in open(base + '.log', errors='replace'):
            try: evs.append(json.loads(line))
            except ValueError: break
        if rc:
            err = next((open(f, errors='replace').read() for f in (base + '.err', '%s/%s.1.err' % (logdir, p['id'])) if os.path.exists(f)), '')
            m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: \S+.*|WARNING: ThreadSanitizer: [^(]*|Assertion.*|.*double free.*|terminate called.*)', err)
            note = ('the program ended abnormally (%d) %s' % (rc, m.group(1) if m else '')).replace('"', "'").replace('\\', '/')[:300]
            if len(evs) < len(cmds): ev = dict(cmds[len(evs)])
            else: ev = dict(cmds[-1], op='end')
            ev.update(ret=[], val=[], adj=[], ok=False, note=note)
            evs.append(ev)
        runs.append(evs)
    return runs

def validate(traces, work, tag, workers=CORES):
    """traces: list of dicts [id, prog, runs].  TLC decides."""
    d = os.path.join(work, 'tr_' + tag)
    os.makedirs(d, exist_ok=True)
    for k, t in enumerate(traces, 1): json.dump(t, open('%s/%d.json' % (d, k), 'w'))
    rc, out, gen, dist = tlc('Trace.tla', 'Trace.cfg', dict(TRACE_DIR=d, TRACE_N=str(len(traces))), os.path.join(work, 'md_' + tag), workers)
    if not tlc_ok(out): raise Broken('trace validation failed: ' + out[-3000:])
    flat = re.sub(r'\s+', ' ', out)
    acc = re.findall(r'<<\s?"ACCEPT", "([^"]+)", (\d+), (\d+)', flat)
    skp = re.findall(r'<<\s?"SKIP", "([^"]+)", (\d+), (\d+)', flat)
    rej = re.findall(r'<<\s?"REJECT", "([^"]+)", (\d+), (\d+), "(\w+)", (\d+),(?=(.{0,1500}))', flat)
    n = sum(len(t['runs']) for t in traces)
    if len(acc) + len(skp) + len(rej) != n:
        if workers > 1: return validate(traces, work, tag, 1)        # lines of several workers mixed up
        raise Broken('trace validation judged %d of %d runs: %s' % (len(acc) + len(skp) + len(rej), n, out[-2000:]))
    return acc, skp, rej, gen, dist

def describe(p, u, l, evs):
    e = emit.Emitter(p['prog'])
    txt = ['expressions:']
    for x in p['prog']['ex']:
        try: txt.append('  ' + e.need(x))
        except Exception as ex: txt.append('  ? %s' % ex)
    txt.append('run %d: actions' % u)
    for k, c in enumerate(p['runs'][u - 1][:l], 1):
        txt.append('  %d %s e=%d q=%d q2=%d leaf=%d x=%s' % (k, c['op'], c['e'], c['q'], c['q2'], c['i'], [emit.dbl(z) for z in c['x']]))
    if evs:
        ev = evs[min(l, len(evs)) - 1]
        txt.append('observed after event %d: ok=%s %s ret=%s' % (l, ev['ok'], ev['note'], [emit.dbl(z) for z in ev['ret']]))
        for i in range(len(ev['val'])):
            txt.append('  leaf %d val=%s adj=%s' % (i + 1, [emit.dbl(z) for z in ev['val'][i]], [emit.dbl(z) for z in ev['adj'][i]]))
    return '\n'.join(txt)

def conform(pid, progs, b, work, outcome, replay, tag=''):
    """compile, run, validate the programs; replay(pid, tag, files, text) keeps violations"""
    exes, bad = build_all(b, progs, work)
    for p, out in bad:
        err = '\n'.join([l for l in out.splitlines() if 'error' in l][:5]) or out[-500:]
        if 'error' not in out: raise Broken('compiler failed on %s: %s' % (p['id'], out[-1000:]))
        d = replay(pid, p['id'] + tag, {'program.cpp': emit.source([(p['id'], p['prog'])]), 'program.json': json.dumps(p['prog']), 'errors.txt': out[-20000:]},
                   'A valid expression of this property no longer compiles:\n%s\n\n%s\n' % (err, describe(p, 1, 0, None)))
        outcome.bad.append((p['id'], 0, 'compile', err[:400], d))
    ps = [p for e in exes for p in e[1]]
    if not ps: return
    logdir = os.path.join(work, 'log' + tag)
    run_all(exes, logdir)
    traces = [dict(id=p['id'], prog=p['prog'], runs=assemble(p, logdir)) for p in ps]
    outcome.events += sum(len(r) for t in traces for r in t['runs'])
    acc, skp, rej, gen, dist = validate(traces, work, 'a' + tag)
    outcome.accept += len(acc); outcome.skip += len(skp); outcome.states += gen; outcome.distinct += dist
    if not rej: return
    # a rejection counts only if it repeats on a second execution
    ids = {r[0] for r in rej}
    byid = {p['id']: p for p in ps}
    exes2 = [e for e in exes if any(p['id'] in ids for p in e[1])]
    logdir2 = os.path.join(work, 'log2' + tag)
    run_all(exes2, logdir2)
    tr2 = [dict(id=i, prog=byid[i]['prog'], runs=assemble(byid[i], logdir2)) for i in sorted(ids)]
    _, _, rej2, _, _ = validate(tr2, work, 'b' + tag)
    again = {(r[0], r[1]) for r in rej2}
    runs2 = {t['id']: t['runs'] for t in tr2}
    for i, u, l, op, e, msg in rej:
        if (i, u) not in again: continue
        p = byid[i]
        d = replay(pid, '%s.%s%s' % (i, u, tag),
                   {'program.cpp': emit.source([(i, p['prog'])]), 'script.txt': emit.script(i, p['runs']), 'program.json': json.dumps(p),
                    'trace.json': json.dumps(dict(id=i, prog=p['prog'], runs=[runs2[i][int(u) - 1]]))},
                   'Run %s of program %s is not a behaviour of spec/Session.tla: event %s (%s of expression %s).\n%s\n\n%s\n' %
                   (u, i, l, op, e, msg[:1200], describe(p, int(u), int(l), runs2[i][int(u) - 1])))
        outcome.bad.append((i, int(u), op, msg[:300], d))
