"""C13: variables and views.  VarHeap (design, exhaustive) refines VarLife; histories of VarLife
(VarGen) are executed by cpp/vl.cpp on the real classes and validated by VarTrace."""
import glob, json, os, re
from common import *

def script(i, cmds):
    out = ['P %s' % i]
    for c in cmds:
        out.append('C %s %d %d %d %d %d %d %d %s %d %s' % (c['op'], c['q'], c['q2'], c['q3'], c['how'], c['n'], c['r'], c['c'], c['sh'],
                                                       len(c['x']), ' '.join(map(str, c['x']))))
    return '\n'.join(out + ['E']) + '\n'

def compile_(work, val, san, opt):
    exe = os.path.join(work, 'vl_' + val)
    cmd = ['g++', '-std=c++17', opt, '-w', '-DVAL=' + val, '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3',
           os.path.join(VERIF, 'cpp', 'vl.cpp'), '-o', exe]
    if san: cmd[1:1] = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    return exe, sh(cmd, timeout=400)

def execute(exe, hists, work, tag):
    d = os.path.join(work, 'log_' + tag)
    os.makedirs(d, exist_ok=True)
    ids = sorted(hists)
    parts = [ids[k::CORES] for k in range(CORES)]
    def one(k):
        if not parts[k]: return
        f = os.path.join(d, 'script%d' % k)
        open(f, 'w').write(''.join(script(i, hists[i]) for i in parts[k]))
        rc, out = sh([exe, f, d], timeout=700, env=dict(ASAN_OPTIONS='detect_leaks=0:exitcode=99'))
        if rc: raise Broken('%s: %s' % (exe, out[-500:]))
    pmap(one, range(CORES))
    res = {}
    for i in ids:
        evs = []
        for line in open('%s/%s.log' % (d, i), errors='replace'):
            try: evs.append(json.loads(line))
            except ValueError: break
        rc = int(open('%s/%s.rc' % (d, i)).read())
        if rc:
            err = open('%s/%s.err' % (d, i), errors='replace').read()
            m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: \S+|Assertion.*)', err)
            cmd = hists[i][len(evs)] if len(evs) < len(hists[i]) else hists[i][-1]
            evs.append(dict(cmd=cmd, ret=[], sl=[], ext=[], ok=False, note=('ended abnormally %d %s' % (rc, m.group(1) if m else '')).replace('"', "'").replace('\\', '/')))
        res[i] = evs
    return res

def validate(res, work, tag, workers=CORES):
    d = os.path.join(work, 'tr_' + tag)
    os.makedirs(d, exist_ok=True)
    for k, i in enumerate(sorted(res), 1): json.dump(dict(id=str(i), events=res[i]), open('%s/%d.json' % (d, k), 'w'))
    rc, out, gen, dist = tlc('VarTrace.tla', 'VarTrace.cfg', dict(TRACE_DIR=d, TRACE_N=str(len(res))), os.path.join(work, 'mdv' + tag), workers)
    if not tlc_ok(out): raise Broken('trace validation: ' + out[-3000:])
    flat = re.sub(r'\s+', ' ', out)
    acc = re.findall(r'<<\s?"ACCEPT", "(\d+)", (\d+)', flat)
    skp = re.findall(r'<<\s?"SKIP", "(\d+)"', flat)
    rej = re.findall(r'<<\s?"REJECT", "(\d+)", (\d+), "(\w+)",(?=(.{0,1200}))', flat)
    if len(acc) + len(skp) + len(rej) != len(res) and workers > 1: return validate(res, work, tag, 1)   # interleaved output
    if len(acc) + len(skp) + len(rej) != len(res): raise Broken('judged %d of %d: %s' % (len(acc) + len(skp) + len(rej), len(res), out[-1500:]))
    return acc, skp, rej, gen, dist

def run(pid, tier, seed, work):
    thorough = tier == 'thorough'
    cfg = open(os.path.join(SPEC, 'VarHeap.cfg')).read()
    depth = 7 if thorough else 5
    mycfg = os.path.join(work, 'VarHeap.cfg')
    open(mycfg, 'w').write(re.sub(r'Depth = \d+', 'Depth = %d' % depth, cfg))
    n, steps = (3000, 120) if thorough else (400, 60)
    gd = os.path.join(work, 'gen')
    os.makedirs(gd)
    with ThreadPoolExecutor(4) as ex:
        fb = [ex.submit(compile_, work, v, s, o) for v, s, o in (('double', True, '-O0'), ('float', False, '-O1'))]
        fg = ex.submit(tlc, 'VarGen.tla', 'VarGen.cfg', dict(GEN_SEED=str(seed), GEN_N=str(n), GEN_FIRST='1', GEN_STEPS=str(steps), GEN_OUT=gd), os.path.join(work, 'mdg'), 4)
        fd = ex.submit(tlc, 'VarHeap.tla', mycfg, {}, os.path.join(work, 'mdh'), 4)
        rc, out, g1, d1 = fd.result()
        if not tlc_ok(out): raise Broken('VarHeap: ' + out[-3000:])
        rc, out, g2, d2 = fg.result()
        fs = glob.glob(gd + '/*.json')
        if not tlc_ok(out) or len(fs) != n: raise Broken('VarGen: ' + out[-3000:])
        exes = [f.result() for f in fb]
    hists = {int(os.path.basename(f)[:-5]): json.load(open(f)) for f in fs}
    bad, accepted, skipped, events = [], 0, 0, 0
    states, trans = d1 + d2, g1 + g2
    for k, (exe, (rc, out)) in enumerate(exes):
        if rc:
            if 'error' not in out: raise Broken('compiler: ' + out[-2000:])
            d = commit_replay(pid, 'compile%d' % k, {'errors.txt': out}, 'cpp/vl.cpp (public API of Var/VarView) does not compile\n')
            bad.append(('vl', 0, 'compile', out[:300], d))
            continue
        res = execute(exe, hists, work, str(k))
        events += sum(len(e) for e in res.values())
        acc, skp, rej, g, dd = validate(res, work, str(k))
        accepted += len(acc); skipped += len(skp); states += dd; trans += g
        if rej:
            sub = {int(r[0]): hists[int(r[0])] for r in rej}
            res2 = execute(exe, sub, work, 'again%d' % k)
            again = {r[0] for r in validate(res2, work, 'again%d' % k)[2]}
            for i, l, op, msg in rej:
                if i not in again: continue
                d = commit_replay(pid, 'h%s_%d' % (i, k), {'script.txt': script(int(i), hists[int(i)]), 'events.json': json.dumps(res[int(i)])},
                                  'History %s (value type %s) is not a behaviour of spec/VarLife.tla: command %s (%s)\n%s\n' % (i, ['double', 'float'][k], l, op, msg))
                bad.append((i, 0, op, msg[:300], d))
    return dict(property=pid, tier=tier, seed=seed, level='model_checking',
                coverage=dict(states=states, transitions=trans, traces_validated_against_impl=accepted, histories=n, skipped=skipped,
                              implementation_events=events, design_states=d1, design_depth=depth,
                              samples=[[dict(op=c['op'], q=c['q'], q2=c['q2']) for c in hists[1][:12]]]),
                assumptions=['moved-from variables are only assigned to or destroyed; views of a variable are not used after it was moved or destroyed',
                             'integer-valued cells; value types double and float'],
                _bad=bad)
