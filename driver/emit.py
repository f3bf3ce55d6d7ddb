"""Abstract syntax (spec/Denote.tla) -> C++ against FastAD's public API.
Pure syntax: nothing here knows what an expression means."""
import struct

SH = {'s': 'ad::scl', 'v': 'ad::vec', 'm': 'ad::mat'}

def dbl(p):
    return struct.unpack('>d', struct.pack('>iI', p[0], p[1] & 0xffffffff))[0]

def hexd(p):
    return '%08x%08x' % (p[0] & 0xffffffff, p[1] & 0xffffffff)

def lit(x):
    if x != x: return 'std::numeric_limits<double>::quiet_NaN()'
    if x in (float('inf'), float('-inf')):
        return ('-' if x < 0 else '') + 'std::numeric_limits<double>::infinity()'
    s = repr(x)
    return '(%s)' % s if s.startswith('-') else s

class Emitter:
    def __init__(self, prog):
        self.P = prog
        self.leaves = prog['leaves']
        self.pre = []      # declarations before the expressions
        self.nk = 0        # constants
        self.nt = 0        # iteration lists
        self.levels = []   # enclosing iterations: code of their variables
        self.nums = []     # and of those that are plain numbers

    # ---- leaves
    def leaf_decls(self):
        out = []
        for i, l in enumerate(self.leaves, 1):
            sh, r, c, n = l['sh'], l['r'], l['c'], l['r'] * l['c']
            args = {'s': '', 'v': '(%d)' % r, 'm': '(%d, %d)' % (r, c)}[sh]
            if l['k'] == 'var':
                out.append('ad::Var<double, %s> L%d%s;' % (SH[sh], i, args))
                out.append('S.leaves.emplace_back(new rt::VLeaf<decltype(L%d)>(L%d));' % (i, i))
            elif l['k'] == 'view':
                out.append('rt::Guarded gv%d, ga%d; gv%d.make(%d, 0, 0); ga%d.make(%d, 0, 1);' % (i, i, i, n, i, n))
                out.append('ad::VarView<double, %s> L%d(gv%d.data(), ga%d.data(), %d, %d);' % (SH[sh], i, i, i, r, c))
                out.append('S.leaves.emplace_back(new rt::VLeaf<decltype(L%d)>(L%d, &gv%d, &ga%d));' % (i, i, i, i))
            else:
                out.append('rt::Guarded gv%d; gv%d.make(%d, 0, 0);' % (i, i, n))
                out.append('S.leaves.emplace_back(new rt::CLeaf(gv%d));' % i)
        return out

    def is_var(self, i):
        return self.leaves[i - 1]['k'] != 'cview'

    def view(self, i):
        l = self.leaves[i - 1]
        if l['k'] == 'view': return 'L%d' % i
        return 'ad::VarView<double, %s>(L%d)' % (SH[l['sh']], i)

    # ---- constants
    def eigen_const(self, n):
        self.nk += 1
        k = 'K%d' % self.nk
        bits = ', '.join('0x%sull' % hexd(p) for p in n['d'])
        if n['sh'] == 'v':
            self.pre.append('const rt::VecXd %s = rt::vecd({%s}); S.wconst(%s);' % (k, bits, k))
        else:
            self.pre.append('const rt::MatXd %s = rt::matd(%d, %d, {%s}); S.wconst(%s);' % (k, n['r'], n['c'], bits, k))
        return k

    def con(self, n, ad, var):
        """ad: must be an AD type; var: the partner is not constant"""
        if n['k'] == 'chole':
            x = self.nums[n['lv'] - 1][n['j'] - 1]
            return 'ad::constant(%s)' % x if ad or n['how'] == 0 else x
        if n['sh'] == 's':
            x = dbl(n['d'][0])
            if ad: return 'ad::constant(%s)' % lit(x)
            how = n['how']
            if how == 0: return 'ad::constant(%s)' % lit(x)
            if how in (1, 2) and var and x == int(x) and abs(x) < 1e6: return '(%d)' % int(x)
            return lit(x)
        k = self.eigen_const(n)
        if ad or n['how'] in (0, 3): return 'ad::constant(%s)' % k
        return k

    # ---- expressions
    def constish(self, n):
        if n['k'] in ('con', 'chole'): return True
        if n['k'] in ('v', 'sub'): return not self.is_var(n['i'])
        if n['k'] in ('hole', 'eq', 'op'): return False
        return all(self.constish(x) for x in n['a'])

    def args(self, xs, ints=True):
        """operands of an operation that needs at least one AD operand"""
        lits = [x['k'] in ('con', 'chole') for x in xs]
        cons = [self.constish(x) for x in xs]
        out = []
        for j, x in enumerate(xs):
            if x['k'] in ('con', 'chole'):
                others_ad = any(not lits[q] for q in range(len(xs)) if q != j)
                others_var = any(not cons[q] for q in range(len(xs)) if q != j)
                out.append(self.con(x, not others_ad, others_var and ints))
            else:
                out.append(self.ex(x))
        return out

    def need(self, x):
        return self.ex(x)

    def ex(self, n):
        k = n['k']
        if k in ('con', 'chole'): return self.con(n, True, False)
        if k == 'v':
            i = n['i']
            l = self.leaves[i - 1]
            if l['k'] == 'cview':
                if l['sh'] == 's': return 'ad::constant_view<ad::scl>(gv%d.data(), 1, 1)' % i
                if l['sh'] == 'v': return 'ad::constant_view(gv%d.data(), %d)' % (i, l['r'])
                return 'ad::constant_view(gv%d.data(), %d, %d)' % (i, l['r'], l['c'])
            return 'L%d' % i
        if k == 'sub':
            b = 'L%d' % n['i']
            return {'idx': '%s[%d]' % (b, n['n']), 'call': '%s(%d)' % (b, n['n']),
                    'head': '%s.head(%d)' % (b, n['n']), 'tail': '%s.tail(%d)' % (b, n['n']),
                    'headtail': '%s.head(%d).tail(%d)' % (b, n['m'], n['n'])}[n['how']]
        if k == 'hole':
            return self.levels[n['lv'] - 1][n['j'] - 1]
        a = n.get('a', [])
        if k == 'u':
            x = self.need(a[0])
            if n['f'] == 'neg': return '(-(%s))' % x
            return 'ad::%s(%s)' % (n['f'], x)
        if k == 'b':
            x, y = self.args(a)
            return '(%s %s %s)' % (x, n['f'], y)
        if k == 'pow': return 'ad::pow<%d>(%s)' % (n['n'], self.need(a[0]))
        if k == 'ife': return 'ad::if_else(%s)' % ', '.join(self.args(a, False))
        if k == 'glue': return '(%s)' % ', '.join(self.need(x) for x in a)
        if k == 'sum' or k == 'prod' or k == 'norm': return 'ad::%s(%s)' % (k, self.need(a[0]))
        if k == 'tr': return 'ad::transpose(%s)' % self.need(a[0])
        if k == 'dot': return 'ad::dot(%s)' % ', '.join(self.args(a))
        if k == 'det':
            return 'ad::det<ad::%s>(%s)' % ({'lu': 'DetFullPivLU', 'ldlt': 'DetLDLT', 'llt': 'DetLLT'}[n['pol']], self.need(a[0]))
        if k == 'logdet':
            return 'ad::log_det<ad::%s>(%s)' % ({'lu': 'LogDetFullPivLU', 'ldlt': 'LogDetLDLT', 'llt': 'LogDetLLT'}[n['pol']], self.need(a[0]))
        if k == 'stat': return 'ad::%s_adj_log_pdf(%s)' % (n['f'], ', '.join(self.args(a, n['f'] != 'bernoulli')))
        if k == 'eq':
            rhs = self.con(a[0], False, False) if a[0]['k'] in ('con', 'chole') else self.ex(a[0])
            return '(%s = %s)' % (self.ex(n['w']), rhs)
        if k == 'op':
            rhs = self.con(a[0], False, False) if a[0]['k'] in ('con', 'chole') else self.ex(a[0])
            return '(%s %s= %s)' % (self.ex(n['w']), n['f'], rhs)
        if k == 'it': return self.it(n)
        raise Exception('kind ' + k)

    def assigns_hole(self, n, lv):
        r = n['k'] in ('eq', 'op') and n['w']['k'] == 'hole' and n['w']['lv'] == lv
        return r or any(self.assigns_hole(x, lv) for x in n.get('a', []))

    def it(self, n):
        f = {'sum': 'ad::sum', 'prod': 'ad::prod', 'each': 'ad::for_each'}[n['f']]
        self.nt += 1
        t = self.nt
        lv = len(self.levels) + 1
        names = []
        for j, ls in enumerate(n['ls'], 1):
            sh = self.leaves[ls[0] - 1]['sh'] if ls else 's'
            self.pre.append('std::vector<ad::VarView<double, %s>> T%d_%d{%s};' % (SH[sh], t, j, ', '.join(self.view(i) for i in ls)))
            names.append('T%d_%d' % (t, j))
        for j, ds in enumerate(n['cs'], 1):
            self.pre.append('std::vector<double> D%d_%d{%s};' % (t, j, ', '.join(lit(dbl(x)) for x in ds)))
        cn = ['D%d_%d' % (t, j) for j in range(1, len(n['cs']) + 1)]
        if len(names) + len(cn) == 1 and not self.assigns_hole(n['a'][0], lv):
            self.levels.append(['z%d' % lv] if names else [])
            self.nums.append(['z%d' % lv] if cn else [])
            body = self.need(n['a'][0])
            nm = (names + cn)[0]
            rng, arg = '%s.begin(), %s.end()' % (nm, nm), ('const auto& z%d' if names else 'double z%d') % lv
        else:
            self.pre.append('std::vector<size_t> I%d{%s};' % (t, ', '.join(str(q) for q in range(len((n['ls'] + n['cs'])[0])))))
            self.levels.append(['%s[i%d]' % (nm, lv) for nm in names])
            self.nums.append(['%s[i%d]' % (nm, lv) for nm in cn])
            body = self.need(n['a'][0])
            rng, arg = 'I%d.begin(), I%d.end()' % (t, t), 'size_t i%d' % lv
        self.nums.pop()
        self.levels.pop()
        return '%s(%s, [&](%s) { return %s; })' % (f, rng, arg, body)

    def function(self, name):
        lv = self.leaf_decls()
        exprs = []
        for x, how in zip(self.P['ex'], self.P['how']):
            if x['k'] == 'v' and self.is_var(x['i']): code = self.view(x['i'])
            else: code = self.need(x)
            exprs.append('S.exprs.emplace_back(rt::%s([&] { return %s; }));' % (how, code))
        lines = ['static void %s(const rt::Run& r, FILE* f)' % name, '{', '    rt::Session S;']
        lines += ['    ' + x for x in lv + self.pre + exprs]
        lines += ['    S.go(r, f);', '}']
        return '\n'.join(lines)

def source(entries):
    """entries: list of (id, prog)"""
    out = ['#include "pre.hpp"', 'using namespace ad;', '']
    for pid, prog in entries:
        out.append(Emitter(prog).function('run_' + pid))
    out.append('int main(int c, char** v)\n{\n    return rt::main_(c, v, {%s});\n}' %
               ', '.join('{"%s", run_%s}' % (pid, pid) for pid, _ in entries))
    return '\n'.join(out) + '\n'

def script(pid, runs):
    out = []
    for u, cmds in enumerate(runs, 1):
        out.append('P %s %d' % (pid, u))
        for c in cmds:
            x = c['x']
            w = c.get('w', [])
            out.append('C %s %d %d %d %d %d %d %d %d %s %s' % (c['op'], c['e'], c['q'], c['q2'], c['i'], c['rv'], 1 if c['tmp'] else 0,
                       c.get('par', 0), len(w), ' '.join(map(str, w)), ' '.join([str(len(x))] + [hexd(p) for p in x])))
        out.append('E')
    return '\n'.join(out) + '\n'
