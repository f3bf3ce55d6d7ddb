#!/usr/bin/env python3
"""mutants.py : faults in the *design* (spec/Machine.tla), one at a time, must be rejected by
MachineMC (all small programs) or MachineTrace (generated behaviours).  Not a registered check;
it shows that the refinement checks are not vacuous (DESIGN.md, section 3)."""
import os, shutil, sys, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, session
M = [
 ('eq: right-hand side keeps its own cells', '[x[1] EXCEPT !.va = pl, !.aa = pl]', 'x[1]'),
 ('eq: seed not added to what has accumulated', 'IN Bwd(b.x[1], GetA(m2, b.w[1]), m2)', 'IN Bwd(b.x[1], s, m2)'),
 ('eq: cells of the root not given back', 'a |-> q.pos.a - x[1].sa]]', 'a |-> q.pos.a]]'),
 ('op: old value not restored', 'm3 == PutV(m2, b.w[1], GetV(m2, b.o[1]))', 'm3 == m2'),
 ('op: incoming adjoint not cleared', 'PutA(PutA(m3, b.o[2], GetA(m3, b.w[1])), b.w[1], Fill(<<R0>>, b.n))', 'PutA(m3, b.o[2], GetA(m3, b.w[1]))'),
 ('glue: every statement gets the seed', "BwdSeq(b.x, Len(b.x) - 1, <<R0>>, Bwd(b.x[Len(b.x)], s, m))", "BwdSeq(b.x, Len(b.x) - 1, s, Bwd(b.x[Len(b.x)], s, m))"),
 ('glue: statements backwards from first to last', 'ELSE BwdSeq(xs, k - 1, s, Bwd(xs[k], Reduce(s, xs[k].n), m))', 'ELSE Bwd(xs[k], Reduce(s, xs[k].n), BwdSeq(xs, k - 1, s, m))'),
 ('binary: seed of a broadcast operand not summed', 'Reduce(x, n) == IF n = 1 /\\ Len(x) > 1 THEN <<RSum(x)>> ELSE x', 'Reduce(x, n) == IF n = 1 /\\ Len(x) > 1 THEN <<x[1]>> ELSE x'),
 ('if_else: both branches evaluated forward', 'm2 == Fwd(y, m1)', 'm2 == Fwd(b.x[3], Fwd(y, m1))'),
 ('if_else: backward always into the first branch', 'Bwd(b.x[IF REq(xv(1)[1], R0) THEN 3 ELSE 2], s, m)', 'Bwd(b.x[2], s, m)'),
 ('variable: adjoint overwritten', 'AddTo(m, a, s) == PutA(m, a, Map2(RAdd, GetA(m, a), Fill(s, a.n)))', 'AddTo(m, a, s) == PutA(m, a, Fill(s, a.n))'),
 ('sum over a range: accumulator not reset', 'Acc(b, RAdd, 1, PutV(m, b.va, Fill(<<R0>>, b.n)), 0)', 'Acc(b, RAdd, 1, IF RIsNaN(GetV(m, b.va)[1]) THEN PutV(m, b.va, Fill(<<R0>>, b.n)) ELSE m, 0)'),
 ('prod over a range: product not restored after a zero', 'PutV(m1, b.va, Map2(RMul, o, x))', 'm1'),
 ('prod: zero factor gets a quotient', 'IF REq(x[z], R0) THEN others(z) ELSE RDiv(v[1], x[z])', 'RDiv(v[1], x[z])'),
 ('two operands share a cell', "LET one == Bind(P, Head(ns), s, pos)\n           rest == BindAll(P, Tail(ns), s, one.pos)", "LET one == Bind(P, Head(ns), s, pos)\n           rest == BindAll(P, Tail(ns), s, IF one.pos.v > pos.v THEN [one.pos EXCEPT !.v = @ - 1] ELSE one.pos)"),
 ('dot: left factor not transposed', 'MMul(MTrans(xv(1), b.x[1].r, b.x[1].c), s,', 'MMul(xv(1), s,'),
 ('transpose: seed not transposed', 'b.k = "tr" -> Bwd(b.x[1], MTrans(s, b.r, b.c), m1)', 'b.k = "tr" -> Bwd(b.x[1], s, m1)'),
]
FAMS = [('C08', 60), ('C09', 40), ('C07', 50), ('C11', 60), ('C01', 60)]
work = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
try:
    sets = []
    for f, n in FAMS:
        ps, _, _ = session.generate(f, 1, n, 1, 'quick', os.path.join(work, 'g' + f), os.path.join(work, 'md'))
        sets.append((f, ps))
    src = open(os.path.join(common.SPEC, 'Machine.tla')).read()
    real = common.SPEC
    bad = 0
    pick = sys.argv[1:]
    for k, (name, old, new) in enumerate([('(unchanged)', '', '')] + M):
        if pick and not any(x in name for x in pick): continue
        d = os.path.join(work, 'spec%d' % k); shutil.copytree(real, d)
        assert src.count(old) >= 1 or not old, name
        open(os.path.join(d, 'Machine.tla'), 'w').write(src.replace(old, new, 1) if old else src)
        common.SPEC = d
        caught = []
        w = os.path.join(work, 'w%d' % k); os.makedirs(w)
        try: session.design_small(2, 3, 0, 1, w)
        except common.Broken: caught.append('MachineMC')
        for f, ps in sets:
            w = os.path.join(work, 'w%d%s' % (k, f)); os.makedirs(w)
            try: session.design(ps, w)
            except common.Broken: caught.append('MachineTrace/' + f)
        common.SPEC = real
        shutil.rmtree(d)
        ok = bool(caught) == bool(old)
        bad += not ok
        print('%-55s %s' % (name, ', '.join(caught) or 'accepted'), flush=True)
    print('%d of %d as expected' % (len(M) + 1 - bad, len(M) + 1))
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
