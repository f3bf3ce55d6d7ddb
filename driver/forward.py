"""C02: forward mode.  Histories of Forward (ForwardGen) are executed by cpp/fwd.cpp on real
ForwardVar objects and validated by ForwardTrace; DualCheck checks the derivative rules themselves."""
import glob, json, os, re
from common import *

def tree(n):
    if n['k'] == 'r': return 'r %d' % n['j']
    if n['k'] == 'c': return 'c %d %d' % tuple(n['x'])
    return ' '.join([n['k'], n['f']] + [tree(a) for a in n['a']])

def script(i, cmds):
    out = ['P %s' % i]
    for c in cmds:
        out.append('C %s %s %d %d %d %d %s %s' % (c['op'], c['f'] or '-', c['t'], c['a'], c['b'], c['how'],
                   ' '.join('%d %d' % tuple(x) for x in c['x']), tree(c['tree']) if c['op'] in ('expr', 'incx') else ''))
    return '\n'.join(out + ['E']) + '\n'

def compile_(work, val, san, opt):
    exe = os.path.join(work, 'fwd_' + val)
    cmd = ['g++', '-std=c++17', opt, '-w', '-DVAL=' + val, '-I' + os.path.join(REPO, 'include'), '-I/usr/include/eigen3',
           os.path.join(VERIF, 'cpp', 'fwd.cpp'), '-o', exe]
    if san: cmd[1:1] = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    return exe, sh(cmd, timeout=400)

def execute(exe, hists, work, tag):
    d = os.path.join(work, 'log_' + tag)
    os.makedirs(d, exist_ok=True)
    ids = sorted(hists)
    rcs = {}
    def one(i):
        f = os.path.join(d, 'script%d' % i)
        open(f, 'w').write(script(i, hists[i]))
        rcs[i] = sh([exe, f, d], timeout=100, env=dict(ASAN_OPTIONS='detect_leaks=0:exitcode=99'))
    pmap(one, ids)
    res = {}
    for i in ids:
        evs = []
        p = '%s/%d.log' % (d, i)
        for line in open(p, errors='replace') if os.path.exists(p) else []:
            try: evs.append(dict(json.loads(line), cmd=hists[i][len(evs)]))
            except ValueError: break
        rc, out = rcs[i]
        if rc or len(evs) != len(hists[i]):
            m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: \S+|Assertion.*)', out)
            cmd = hists[i][min(len(evs), len(hists[i]) - 1)]
            evs.append(dict(cmd=cmd, regs=[], ok=False, note=('ended abnormally %d %s' % (rc, m.group(1) if m else '')).replace('"', "'").replace('\\', '/')))
        res[i] = evs
    return res

def validate(res, work, tag, scale, workers=CORES):
    d = os.path.join(work, 'tr_' + tag)
    os.makedirs(d, exist_ok=True)
    for k, i in enumerate(sorted(res), 1): json.dump(dict(id=str(i), events=res[i]), open('%s/%d.json' % (d, k), 'w'))
    rc, out, gen, dist = tlc('ForwardTrace.tla', 'ForwardTrace.cfg', dict(TRACE_DIR=d, TRACE_N=str(len(res)), ROUND=scale), os.path.join(work, 'mdv' + tag), workers)
    if not tlc_ok(out): raise Broken('trace validation: ' + out[-3000:])
    flat = re.sub(r'\s+', ' ', out)
    acc = re.findall(r'<<\s?"ACCEPT", "(\d+)", (\d+)', flat)
    rej = re.findall(r'<<\s?"REJECT", "(\d+)", (\d+), "(\w+)",(?=(.{0,1200}))', flat)
    if len(acc) + len(rej) != len(res) and workers > 1: return validate(res, work, tag, scale, 1)   # interleaved output
    if len(acc) + len(rej) != len(res): raise Broken('judged %d of %d: %s' % (len(acc) + len(rej), len(res), out[-1500:]))
    return acc, rej, gen, dist

def run(pid, tier, seed, work):
    thorough = tier == 'thorough'
    n, steps = (6000, 150) if thorough else (600, 80)
    gd = os.path.join(work, 'gen')
    os.makedirs(gd)
    kinds = [('double', True, '-O0', 'double'), ('double', False, '-O2', 'double'), ('float', False, '-O1', 'float')]
    with ThreadPoolExecutor(5) as ex:
        fb = []
        for k, (v, s, o, sc) in enumerate(kinds):
            w = os.path.join(work, 'k%d' % k); os.makedirs(w)
            fb.append(ex.submit(compile_, w, v, s, o))
        fg = ex.submit(tlc, 'ForwardGen.tla', 'ForwardGen.cfg', dict(GEN_SEED=str(seed), GEN_N=str(n), GEN_FIRST='1', GEN_STEPS=str(steps), GEN_OUT=gd), os.path.join(work, 'mdg'), 4)
        fd = ex.submit(tlc, 'DualCheck.tla', 'DualCheck.cfg', {}, os.path.join(work, 'mdh'), 4)
        rc, out, g1, d1 = fd.result()
        if not tlc_ok(out): raise Broken('DualCheck: ' + out[-3000:])
        rc, out, g2, d2 = fg.result()
        fs = glob.glob(gd + '/*.json')
        if not tlc_ok(out) or len(fs) != n: raise Broken('ForwardGen: ' + out[-3000:])
        exes = [f.result() for f in fb]
    hists = {int(os.path.basename(f)[:-5]): json.load(open(f)) for f in fs}
    bad, accepted, events, states, trans = [], 0, 0, d1 + d2, g1 + g2
    for k, (exe, (rc, out)) in enumerate(exes):
        if rc:
            if 'error' not in out: raise Broken('compiler: ' + out[-2000:])
            d = commit_replay(pid, 'compile%d' % k, {'errors.txt': out}, 'cpp/fwd.cpp (public API of ForwardVar) does not compile\n')
            bad.append(('fwd', 0, 'compile', out[:300], d))
            continue
        scale = kinds[k][3]
        res = execute(exe, hists, work, str(k))
        events += sum(len(e) for e in res.values())
        acc, rej, g, dd = validate(res, work, str(k), scale)
        accepted += len(acc); states += dd; trans += g
        if rej:
            res2 = execute(exe, {int(r[0]): hists[int(r[0])] for r in rej}, work, 'again%d' % k)
            again = {r[0] for r in validate(res2, work, 'again%d' % k, scale)[1]}
            for i, l, op, msg in rej:
                if i not in again: continue
                d = commit_replay(pid, 'h%s_%d' % (i, k), {'script.txt': script(int(i), hists[int(i)]), 'events.json': json.dumps(res[int(i)])},
                                  'History %s (value type %s) is not a behaviour of spec/Forward.tla: command %s (%s)\n%s\n' % (i, kinds[k][0], l, op, msg))
                bad.append((i, 0, op, msg[:300], d))
    ops = {}
    for h in hists.values():
        for c in h: ops[c['op'] + (':' + c['f'] if c['f'] else '')] = ops.get(c['op'] + (':' + c['f'] if c['f'] else ''), 0) + 1
    return dict(property=pid, tier=tier, seed=seed, level='model_checking',
                coverage=dict(states=states, transitions=trans, traces_validated_against_impl=accepted, histories=n, skipped=0,
                              implementation_events=events, rule_points=d1, commands=ops,
                              samples=[[dict(op=c['op'], f=c['f'], t=c['t'], a=c['a'], b=c['b']) for c in hists[1][:12]]]),
                assumptions=['derivatives outside a function\'s domain or at infinite values are unspecified',
                             'results compared up to a running error bound; value types double and float'],
                _bad=bad)
