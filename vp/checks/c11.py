"""C11 Covariance matrices are symmetric and non-negative by construction."""
import ast, re
from .common import *
from ..nf import Interp, pools_of, compare
from ..loader import Func
from .c10 import MODES, ME, with_mode, zero

COV = re.compile(r'(^|_)covs?(_|$|(?=[A-Z]))')
NOTCOV = re.compile(r'^(delta|d|unit|diff|inc|mult)_|_(corrected|flag|code|len|shape|fn|func)$')


# ---------------------------------------------------------------- one matrix against the cone of covariances
def cone_range(ranges=None, flip=0):
    """covariances given to a routine are sampled as such: dominant diagonal, symmetric, of different size at neighbouring stations"""
    def f(t):
        x = t
        while isinstance(x, T) and x.op in ('el', 'elat', 'idx'):
            x = x.a[0]
        if isinstance(x, T) and x.op == 'comp_of' and len(x.a) == 3:
            k = x.a[0].a[1] if x.a[0].op == 'idx' else None
            s = 12. if k is not None and is_const(k) and isinstance(cval(k), int) and (cval(k) + flip) % 2 else 1.
            return (2.2 * s, 4. * s) if x.a[1] == x.a[2] else (-s, s)
        return ranges(t) if ranges else None
    return f


def symmetric_input(s):
    return A(('n', 3, 3), {(0, i, j): mk('el', mk('comp_of', s, min(i, j), max(i, j)), 0) for i in range(3) for j in range(3)})


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def matrices(a):
    """the 3x3 matrices of a lowered array"""
    out = {}
    for ix, v in a.d.items():
        out.setdefault(ix[:-2], {})[ix[-2:]] = v
    return out


def cone(chk, rule, construct, ev, code, spec, L, ranges=None, special=(), loc=''):
    """the matrix equals a specified element of the cone, or is at least one"""
    if code is None:
        chk.unknown(rule, construct, 'value not found', loc)
        return
    rg = cone_range(ranges)
    if spec is not None:
        sub = type(chk)(chk.pid, chk.tier)
        sub._prog = chk.prog
        if decide(sub, rule, construct, code, spec, L, rg, special, loc):
            chk.ok(rule, construct, 'equals an outer product, rotation, sum or interpolation of covariances', loc)
            return
    try:
        a = code if isinstance(code, A) else L(code)
    except Unsup as e:
        chk.unknown(rule, construct, f'not expressible: {e}', loc)
        return
    if len(a.shape) < 2 or a.shape[-2:] != (3, 3):
        chk.unknown(rule, construct, f'shape {a.shape}', loc)
        return
    for ix, m in matrices(a).items():
        every = list(m.values())
        for x in every:
            why = foreign(x, mk('tuple'))
            if why:
                chk.unknown(rule, construct, why, loc)
                return
        for i in range(3):
            for j in range(i):
                if compare(m[i, j], m[j, i], ranges=rg)[0] == 'differ':
                    chk.bad(rule, construct, f'not symmetric: component {i},{j} is {show(m[i, j], 6)[:200]}, component {j},{i} is {show(m[j, i], 6)[:200]}', loc)
                    return
        for p in range(24 if chk.tier == 'quick' else 96):
            I = Interp(p + 1, cone_range(ranges, p % 2), {}, None)
            try:
                v = [[I(m[i, j]) for j in range(3)] for i in range(3)]
            except (RecursionError, ZeroDivisionError, OverflowError):
                break
            s = max(abs(x) for r in v for x in r)
            if s != s or s > 1e30:
                continue
            e = 1e-7 * s
            low = [v[i][i] for i in range(3) if v[i][i] < -e]
            if not low:
                low = [v[i][i] * v[j][j] - v[i][j] * v[j][i] for i in range(3) for j in range(i) if v[i][i] * v[j][j] - v[i][j] * v[j][i] < -e * s]
            if not low and det3(v) < -e * s * s:
                low = [det3(v)]
            if low:
                chk.bad(rule, construct, f'not a covariance: {[[round(x, 4) for x in r] for r in v]} has a negative variance in some direction', loc)
                return
    chk.unknown(rule, construct, 'symmetric, and without a negative variance where sampled, but not of a known construction', loc)


def routines(chk):
    R = 'construction of a covariance'
    abc = S(a=n, b=n, c=n)
    sv = S(survey=('n', 3))
    sv[sym('NEV')] = symmetric_input(sym('NEV'))
    sv[sym('HLA')] = symmetric_input(sym('HLA'))
    rg = ranges(survey=(0.2, 2.9), arr=(-2., 2.), a=(-2., 2.), b=(-2., 2.), c=(-2., 2.))
    for qual, spec, p, sh, tag in (
            ('utils.cov_from_vec', 'core.cov_from_vec', {}, S(arr=('n', 3)), ''),
            ('utils.make_cov', 'core.make_cov', {'long': FALSE}, abc, ''),
            ('utils.make_cov', 'core.make_cov_long', {'long': TRUE}, abc, ' long'),
            ('utils.NEV_to_HLA', 'core.nev_to_hla_cov', {'cov': TRUE}, sv, ''),
            ('utils.HLA_to_NEV', 'core.hla_to_nev_cov', {'cov': TRUE, 'trans': NONE}, sv, '')):
        fn = chk.need(qual)
        ev, r = evaluate(chk, qual, p)
        cone(chk, R, qual + tag, ev, ev.deref(r) if ev else None, spec_term(chk, spec, p), Lower(sh), rg, loc=fn.loc)
    # six components given: symmetric at least
    fn = chk.need('utils.make_long_cov')
    ev, r = evaluate(chk, fn.qual)
    a = None
    try:
        a = Lower(S(arr=('n', 6)))(ev.deref(r)) if ev else None
    except Unsup:
        pass
    if a is None or a.shape[-2:] != (3, 3):
        chk.unknown(R, fn.qual, 'not expressible', fn.loc)
    else:
        bad = [(i, j) for m in matrices(a).values() for i in range(3) for j in range(i) if compare(m[i, j], m[j, i])[0] == 'differ']
        (chk.bad if bad else chk.ok)(R, fn.qual, f'components {bad} are not symmetric' if bad else '', fn.loc)


def terms(chk):
    """one error term, per propagation mode"""
    R = 'covariance of one error term'
    sh = {sym(x): A(('n', 3), {(0, i): mkite(mk('ieq', 0), const(0.0), mk('el', mk('comp_of', sym(x), i), 0)) for i in range(3)}) for x in ('e_NEV', 'e_NEV_star')}
    sh[sym('e_DIA')] = ('n', 3)
    qual = 'error.ErrorModel._generate_error'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown(R, qual, 'this internal function is gone')
        return
    rg = ranges(e_NEV=(-1., 1.), e_NEV_star=(-1., 1.), e_DIA=(-1., 1.))
    for mode in MODES:
        ev, r = evaluate(chk, qual, {'propagation': const(mode), 'NEV': TRUE}, given=[sym('e_NEV')], inline=lambda f: f.name not in ('_e_NEV', '_e_NEV_star'))
        for a, spec in (('cov_NEV', 'errors.cov_random' if mode == 'random' else 'errors.cov_systematic'), ('cov_DIA', None)):
            v = ev.heap.get((r, a)) if ev else None
            st = spec_term(chk, spec) if spec else spec_term(chk, 'core.cov_from_vec', {'arr': sym('e_DIA')})
            if v is not None:
                v = ev.deref(v)
                L = Lower(sh)
                lo = v
                cone(chk, R, f'{mode} {a}', ev, lo, st, L, rg, loc=fn.loc)
            else:
                chk.unknown(R, f'{mode} {a}', 'not set', fn.loc)


def steps(t, sign=1):
    """signed addends"""
    if t.op == 'bin' and t.a[0] in '+-':
        return steps(t.a[1], sign) + steps(t.a[2], sign if t.a[0] == '+' else -sign)
    if t.op == 'call' and t.a[0] in ('numpy.add', 'numpy.subtract') and len(t.a[1].a) >= 2:
        return steps(t.a[1].a[0], sign) + steps(t.a[1].a[1], sign if t.a[0].endswith('add') else -sign)
    if t.op == 'neg' or t.op == 'un' and t.a[0] == '-':
        return steps(t.a[-1], -sign)
    if t.op == 'bin' and t.a[0] == '*':
        for k, o in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_const(k) and isinstance(cval(k), (int, float)):
                return steps(o, sign if cval(k) >= 0 else -sign)
    return [(sign, t)]


def totals(chk):
    """the totals are sums of covariances, none subtracted"""
    R = 'sum of covariances'
    qual = 'errors.tool_errors.ToolError.__init__'
    fn = chk.need(qual)
    opaque = ('_call_interpreter', 'call_func', '_initiate_func_dict', '_resolve_json_model', '_json_to_em_adapter')
    ev, r = evaluate(chk, qual, {}, inline=lambda f: f.name not in opaque)
    if ev is None:
        chk.unknown(R, qual, r, fn.loc)
        return
    for a in ('cov_NEVs', 'cov_NEVs_random', 'cov_NEVs_systematic', 'cov_NEVs_global', 'cov_NEVs_within_pad'):
        v = ev.heap.get((ME, a))
        if v is None:
            chk.unknown(R, a, 'not set', fn.loc)
            continue
        v = ev.deref(v)
        for m in MODES:
            xs = []
            if v.op == 'loopout':
                xs = steps(with_mode(v.a[2], m))
            else:
                for s, x in steps(v):
                    xs += [(s * t, y) for t, y in steps(with_mode(x.a[0], m))] if x.op == 'sumover' else [(s, x)]
            out = None
            for s, x in xs:
                if x.op == 'phi' or zero(x):
                    continue
                if x.op == 'attr' and x.a[0].op in ('elemval', 'elem'):
                    if s < 0:
                        out = f'{m} terms: {x.a[1]} is subtracted'
                    elif not x.a[1].startswith('cov'):
                        out = f'{m} terms: adds {x.a[1]}, which is not a covariance' if x.a[1] in ('e_NEV', 'e_NEV_star', 'e_DIA', 'sigma_e_NEV') else '?'
                elif x.op != 'attr':
                    out = out or '?'
            if out and out != '?':
                chk.bad(R, f'{a} of {m} terms', out, fn.loc)
            elif out:
                chk.unknown(R, f'{a} of {m} terms', show(v, 4)[:120], fn.loc)
            else:
                chk.ok(R, f'{a} of {m} terms', '', fn.loc)


def between(chk):
    """covariances between stations are interpolated between the two neighbours"""
    R = 'interpolated covariance'

    def rg(t):
        x = t
        if isinstance(x, T) and x.op == 'idx' and x.a[0].op == 'attr' and x.a[0].a[1] == 'md' and is_const(x.a[1]):
            k = cval(x.a[1])
            return (50. * k * k, 50. * k * k + 1.)
        if isinstance(x, T) and x.op == 'sym' and x.a[0] == 'x':
            return (200., 348.)
        if isinstance(x, T) and x.op == 'sym' and x.a[0] == 'mult':
            return (0.02, 0.98)
        return SURVEY_RANGES(t)
    from .c01 import new_survey
    fn = chk.prog.find('survey._interpolate_survey')
    if fn is None:
        chk.unknown(R, 'survey._interpolate_survey', 'this internal function is gone')
    else:
        K = const(3)
        nd = mk('ext', 'numpy.ndarray')
        ev, r = evaluate(chk, fn.qual, params={'index': K}, assume=[(mkcall('isinstance', [sym('x'), nd]), False)], given=[mk('attr', sym('survey'), 'cov_nev')], opaque_init=('survey.Survey',))
        e = new_survey(ev) if ev else None
        v = e.d['bound'].get('cov_nev') if e is not None else None
        if v is None:
            chk.unknown(R, fn.qual, 'no covariance handed over', fn.loc)
        else:
            L = Lower({}, atoms=SurveyModel(), facts=lambda c: False if c.op == 'cmp' and c.a[0] in ('is', '==') and NONE in c.a[1:] else None)
            cone(chk, R, fn.qual, ev, deep(ev, ev.deref(v)), spec_term(chk, 'survey.interp_cov', {'index': K}), L, rg, loc=fn.loc)
    fn = chk.prog.find('clearance.IscwsaClearance._interpolate_covs')
    if fn is None:
        chk.unknown(R, 'clearance.IscwsaClearance._interpolate_covs', 'this internal function is gone')
        return
    # which of the two sources is used does not matter here
    for corrected in (False, True):
        g = mk('attr', ME, '_off_cov_nev_corrected')
        off = mk('attr', ME, 'offset')
        srcs = {k: (mk('attr', ME, f'_off_{k}_corrected') if corrected else mk('attr', off, k)) for k in ('cov_hla', 'cov_nev')}

        def before(ev):
            ev.guards.append((mk('cmp', 'is', g, NONE), not corrected))
        ev, r = evaluate(chk, fn.qual, {'i': const(4)}, before=before)
        r = ev.deref(r) if ev else None
        if r is None or r.op != 'tuple' or len(r.a) != 2:
            chk.unknown(R, fn.qual, 'pair of covariances not recognised', fn.loc)
            continue

        def atoms(t):
            if t.op == 'idx' and t.a[0] in srcs.values() and t.a[1].op not in ('slice', 'tuple', 'ellipsis'):
                return A((3, 3), {(i, j): mk('comp_of', t, min(i, j), max(i, j)) for i in range(3) for j in range(3)})
            return None
        for i, k in enumerate(('cov_hla', 'cov_nev')):
            s = srcs[k]
            lo, hi = mk('idx', s, const(3)), mk('idx', s, const(4))
            want = mk('bin', '+', lo, mk('bin', '*', sym('mult'), mk('bin', '-', hi, lo)))
            cone(chk, R, f'{fn.qual} {k}' + (' corrected' if corrected else ''), ev, ev.deref(r.a[i]), want, Lower({}, atoms=atoms), rg, loc=fn.loc)


def below_kop(chk):
    """the section below a kick-off point: correlated terms by outer products, random ones by what accumulated since the kick-off"""
    from .c13 import below_kop as parts
    sub = type(chk)(chk.pid, chk.tier)
    sub._prog = chk.prog

    def judge(tag, v, spec, sh, rg, loc):
        sh = S(**sh)
        for k in list(sh):
            if k.a[0].startswith('cov') and sh[k] == ('n', 3, 3):
                sh[k] = symmetric_input(k)
        cone(chk, 'covariance below kick-off', tag, None, v, spec, Lower(sh), ranges(**{k: (-2., 2.) if k.startswith('sigma') else r for k, r in rg.items()}), loc=loc)
    parts(sub, judge)
    if not any(o[1] == 'covariance below kick-off' for o in chk.obs):
        chk.unknown('covariance below kick-off', 'clearance.Clearance._get_ref_cov_below_kop', 'not recognised')


# ---------------------------------------------------------------- every expression stored as a covariance
KEEP = {'array', 'asarray', 'copy', 'stack', 'vstack', 'hstack', 'concatenate', 'append', 'insert', 'reshape', 'delete', 'squeeze', 'expand_dims', 'atleast_3d', 'vstack', 'deepcopy', 'ascontiguousarray', 'zeros', 'zeros_like', 'flatten', 'ravel', 'astype', 'repeat', 'tile', 'broadcast_to'}
ROOT = {'sqrt': 'the elementwise root of a covariance', 'abs': 'the elementwise modulus of a covariance', 'absolute': 'the elementwise modulus of a covariance', 'triu': 'one triangle of a covariance', 'tril': 'one triangle of a covariance',
        'log': 'the elementwise logarithm of a covariance', 'negative': 'minus a covariance', 'inv': None}


class Expr:
    """abstract value of an expression over covariances: ('C', text) a covariance, ('D', x, y) covariance x minus y,
    ('X', why) outside the cone, None unknown"""

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.text = {}

    def src(self, e):
        class Sub(ast.NodeTransformer):
            def visit_Name(s, x):
                t = self.text.get(x.id)
                return ast.parse(t, mode='eval').body if t else x
        import copy
        return ast.unparse(Sub().visit(copy.deepcopy(e)))

    def named(self, name):
        return COV.search(name) and not NOTCOV.search(name)

    def val(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return ('C', self.src(e)) if self.named(e.id) else None
        if isinstance(e, ast.Attribute):
            if e.attr == 'T':
                v = self.val(e.value)
                return v if v and v[0] == 'C' else None
            return ('C', self.src(e)) if self.named(e.attr) else None
        if isinstance(e, ast.Subscript):
            v = self.val(e.value)
            if v and v[0] == 'C':
                if isinstance(e.slice, ast.Tuple) and len([x for x in e.slice.elts if not (isinstance(x, ast.Constant) and x.value is None)]) > 1:
                    return None     # a component
                return ('C', self.src(e))
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.val(e.operand)
            return ('X', 'minus a covariance') if v and v[0] == 'C' else ('D', v[2], v[1]) if v and v[0] == 'D' else None
        if isinstance(e, ast.IfExp):
            a, b = self.val(e.body), self.val(e.orelse)
            for v in (a, b):
                if v and v[0] == 'X':
                    return v
            return a if isinstance(e.orelse, ast.Constant) else b if isinstance(e.body, ast.Constant) else (a if a == b else None)
        if isinstance(e, ast.BinOp):
            return self.binop(e)
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if nm in ROOT and e.args:
                v = self.val(e.args[0])
                return ('X', ROOT[nm]) if v and v[0] == 'C' and ROOT[nm] else None
            if nm in KEEP:
                root = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in self.fn.module.imports
                x = e.args[0] if root and e.args else f.value if isinstance(f, ast.Attribute) and not root else e.args[0] if e.args else None
                if x is None or nm in ('zeros', 'zeros_like'):
                    return ('C', self.src(e))
                xs = x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]
                vs = [self.val(y) for y in xs]
                for v in vs:
                    if v and v[0] == 'X':
                        return v
                if all(v and v[0] == 'C' for v in vs):
                    return ('C', vs[0][1] if len(vs) == 1 else self.src(e))
                if len(vs) == 1:
                    return vs[0]
            if nm in ('einsum', 'outer', 'multiply') and len(e.args) >= 2:
                ab = e.args[1:3] if nm == 'einsum' else e.args[:2]
                if nm == 'einsum':
                    f = e.args[0].value.replace(' ', '') if isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) else ''
                    if not re.fullmatch(r'(\w?|\.\.\.)(\w),\1(\w)->\1(\2\3|\3\2)', f) or len(e.args) != 3:
                        return None
                if nm != 'multiply':
                    return self.outer(*ab)
                return self.broadcast(*ab)
            if nm in ('cov_from_vec', 'make_cov', 'NEV_to_HLA', 'HLA_to_NEV'):
                return ('C', self.src(e))
            return None
        return None

    def outer(self, a, b):
        """outer product of two vectors"""
        x, y = self.src(a), self.src(b)
        if x == y:
            return ('C', f'outer product of {x}')
        if base(x) != base(y) and re.fullmatch(r'[\w.]+', x) and re.fullmatch(r'[\w.]+', y):
            return ('X', f'the outer product of different vectors, {x} and {y}')
        return None

    def broadcast(self, a, b):
        """v[:, :, None] * v[:, None, :]"""
        def part(e):
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Tuple):
                k = [isinstance(x, ast.Constant) and x.value is None or isinstance(x, ast.Attribute) and x.attr == 'newaxis' for x in e.slice.elts]
                if k.count(True) == 1 and all(z or isinstance(x, ast.Slice) and x.lower is x.upper is x.step is None for x, z in zip(e.slice.elts, k)):
                    return e.value, k.index(True)
            return None
        p, q = part(a), part(b)
        if p and q and p[1] != q[1]:
            return self.outer(p[0], q[0])
        return None

    def number(self, e):
        """constant value of a factor, or None"""
        try:
            return float(ast.literal_eval(e))
        except (ValueError, TypeError, SyntaxError):
            return None

    def binop(self, e):
        a, b = self.val(e.left), self.val(e.right)
        op = e.op
        if isinstance(op, ast.Mult):
            v = self.broadcast(e.left, e.right)
            if v:
                return v
        if isinstance(op, (ast.Mult, ast.Div)):
            v, k = (a, e.right) if a else (b, e.left)
            if a and b or v is None or isinstance(op, ast.Div) and b:
                return None
            if v[0] == 'X':
                return v
            c = self.number(k)
            if v[0] == 'D':
                if c is not None and c < 0:
                    return ('D', v[2], v[1])
                if isinstance(k, ast.BinOp) and isinstance(k.op, ast.Sub):
                    # a distance from the station the difference is taken at, or towards it
                    at = lambda t: re.findall(r'\[([^\[\]]*)\]$', t)
                    i = at(v[2])
                    if i and i == at(self.src(k.left)) and i != at(self.src(k.right)):
                        return ('D', v[2], v[1])
                return v
            if c is not None:
                return ('C', self.src(e)) if c >= 0 else ('X', f'{c:g} times a covariance')
            if isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.USub):
                return None
            return None
        if isinstance(op, (ast.Add, ast.Sub)):
            for v in (a, b):
                if v and v[0] == 'X':
                    return v
            if a and b:
                if a[0] == b[0] == 'C':
                    return ('C', self.src(e)) if isinstance(op, ast.Add) else ('D', a[1], b[1])
                if isinstance(op, ast.Add) and {a[0], b[0]} == {'C', 'D'}:
                    c, d = (a, b) if a[0] == 'C' else (b, a)
                    if d[2] == c[1]:
                        return ('C', self.src(e))
                    if d[1] == c[1]:
                        return ('X', f'{c[1]} is extrapolated away from {d[2]}')
                if isinstance(op, ast.Sub) and a[0] == 'C' and b[0] == 'D':
                    if b[1] == a[1]:
                        return ('C', self.src(e))
                    if b[2] == a[1]:
                        return ('X', f'{a[1]} is extrapolated away from {b[1]}')
            return None
        if isinstance(op, ast.Pow):
            c = self.number(e.right)
            if a and a[0] == 'C' and c is not None and c != int(c):
                return ('X', 'the elementwise root of a covariance')
        return None


def base(t):
    return t.split('[')[0].split('.reshape')[0]


def outside(v):
    """why a value is no covariance"""
    if v is None:
        return None
    if v[0] == 'X':
        return v[1]
    if v[0] == 'D' and base(v[1]) != base(v[2]):
        return f'{v[1]} minus {v[2]}'
    if v[0] == 'D' and v[1] == base(v[1]) + v[1][len(base(v[1])):] and re.search(r'\[[^:\]]*\]$', v[1]) and re.search(r'\[[^:\]]*\]$', v[2]):
        return f'the difference of two stations\' covariances, {v[1]} minus {v[2]}'
    return None


def stores(chk):
    R = 'stored as a covariance'
    seen = 0
    for fn in chk.prog.all_functions():
        if not isinstance(fn, Func) or not COV.search(ast.unparse(fn.node)):
            continue
        x = Expr(fn)
        plain = re.compile(r'[\w.]+(\[[^\[\]()]*\])*')      # the text of a copy is that of its source
        many = [y.id for y in ast.walk(fn.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)]
        many = {y for y in many if many.count(y) > 1}

        def tell(target, v, node):
            nonlocal seen
            why = outside(v)
            if v is not None and v[0] == 'D' and why and many & set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', base(v[1]) + ' ' + base(v[2]))):
                why = None      # a name assigned more than once: what it stands for here is not known
            seen += 1
            c = f'{fn.qual}: {target}'
            if why:
                chk.bad(R, c, why, f'{fn.module.rel}:{node.lineno}')
            elif v is None or v[0] != 'C':
                chk.unknown(R, c, 'of unknown construction', f'{fn.module.rel}:{node.lineno}')
            else:
                chk.ok(R, c, v[1][:80], f'{fn.module.rel}:{node.lineno}')

        def name_of(t):
            while isinstance(t, ast.Subscript):
                t = t.value
            return t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ''

        def walk(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                for e in ast.iter_child_nodes(s):
                    if isinstance(e, ast.expr):
                        for c in ast.walk(e):
                            if isinstance(c, ast.Call):
                                if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, (ast.Name, ast.Attribute)) and x.named(name_of(c.func.value)) and len(c.args) == 1:
                                    v = x.val(c.args[0])
                                    if v is not None:
                                        tell(f'{name_of(c.func.value)} appended', v, c)
                                for k in c.keywords:
                                    if k.arg and x.named(k.arg) and k.arg not in ('cov',):
                                        v = x.val(k.value)
                                        if v is not None:
                                            tell(f'{k.arg}= of {ast.unparse(c.func)[:40]}', v, c)
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    t = s.targets[0]
                    if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        pairs = list(zip(t.elts, s.value.elts))
                    else:
                        pairs = [(t, s.value)]
                    vals = [(a, b, x.val(b)) for a, b in pairs]
                    for a, b, v in vals:
                        nm = name_of(a)
                        if nm and x.named(nm) and v is not None:
                            tell(nm, v, s)
                        if isinstance(a, ast.Name):
                            x.env[a.id] = v if v is not None else (('C', a.id) if x.named(a.id) else None)
                            if v is not None and v[0] == 'C' and (isinstance(b, (ast.Name, ast.Attribute, ast.Subscript)) or isinstance(b, ast.Call) and plain.fullmatch(v[1])):
                                x.text[a.id] = v[1]
                            else:
                                x.text.pop(a.id, None)
                                if v is not None and v[0] == 'C':
                                    x.env[a.id] = ('C', a.id)
                elif isinstance(s, ast.AugAssign):
                    nm = name_of(s.target)
                    if nm and x.named(nm):
                        v = x.val(s.value)
                        if isinstance(s.op, ast.Sub) and v and v[0] == 'C':
                            v = ('X', f'{v[1]} is subtracted')
                        elif isinstance(s.op, (ast.Mult, ast.Div)):
                            k = x.number(s.value)
                            v = ('X', f'multiplied by {k:g}') if k is not None and k < 0 else None
                        if v is not None:
                            tell(nm, v, s)
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(s, f, None), list):
                        walk(getattr(s, f))
                for h in getattr(s, 'handlers', []):
                    walk(h.body)
        walk(fn.node.body)
    chk.count('covariance stores', seen)


def run(chk):
    chk.explanation = ('covariances are elements of a cone: outer products, rotations R C R\', sums, non-negative multiples and interpolations. Constructions are value-numbered and matched with a member of the cone; '
                       'a matrix that matches none is reported if its normal form is asymmetric or a symmetric sample of its components has a negative variance; every expression stored under a covariance name is classified over the cone')
    for g in (routines, terms, totals, between, below_kop, stores):
        chk.group(g)


MINIMUM = 6
