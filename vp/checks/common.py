"""Shared pieces of the formula checks."""
from ..terms import *
from ..formula import *

n = ('n',)


def S(**kw):
    return {sym(k): v for k, v in kw.items()}


def ranges(**kw):
    """sampling ranges by the name of the underlying symbol"""
    def f(t):
        x = t
        while isinstance(x, T) and x.op in ('el', 'elat', 'comp_of', 'idx', 'attr'):
            if x.op == 'attr' and x.a[1] in kw:
                return kw[x.a[1]]
            x = x.a[0]
        if isinstance(x, T) and x.op == 'sym':
            return kw.get(x.a[0])
        return None
    return f


def coincide(*names):
    """a sample where the listed symbols (or attributes of one object) take the same value at every station"""
    def f(t):
        x = t
        while isinstance(x, T) and x.op in ('el', 'elat', 'idx'):
            x = x.a[0]
        if isinstance(x, T) and x.op == 'attr':
            x = sym(x.a[1])
        if isinstance(x, T) and x.op == 'sym':
            for k, g in enumerate(names):
                if x.a[0] in g:
                    return 0.7 + 0.31 * k
        return None
    return f


H = sym('header')


def hattr(n):
    return mk('attr', H, n)


SURVEY_SHAPES = S(md=n, inc=n, azi=n, start_xyz=(3,), start_nev=(3,))


def survey_init(chk, ref='grid', deg=FALSE, unit=None, params=None, skip=('_get_errors',), shapes=None):
    """evaluate Survey.__init__ for stations given by md, inc, azi under a header with the given azimuth reference"""
    p = {k: NONE for k in ('n', 'e', 'tvd', 'x', 'y', 'z', 'vec', 'radius', 'cov_nev', 'cov_hla', 'error_model', 'start_cov_nev')}
    p['header'] = H
    p['nev'] = TRUE
    p['deg'] = deg
    if unit:
        p['unit'] = const(unit)
    p.update(params or {})
    hdr = chk.need('survey.SurveyHeader')

    def before(ev):
        ev.hints[H] = hdr
        ev.heap[(H, 'azi_reference')] = const(ref)
        for a in ('convergence', 'declination'):
            ev.heap[(H, a)] = hattr(a)
    ev, r = evaluate(chk, 'survey.Survey.__init__', p, before=before, given=[H], opaque_init=('error.ErrorModel',), inline=lambda f: f.name not in skip)
    return ev, r


# ---------------------------------------------------------------- a survey object
def prevkey(k):
    if is_const(k) and isinstance(cval(k), int) and cval(k) > 0:
        return const(cval(k) - 1)
    if k.op == 'bin' and k.a[0] == '+' and is_const(k.a[2]):
        j = cval(k.a[2])
        return k.a[1] if j == 1 else mk('bin', '+', k.a[1], const(j - 1))
    return mk('bin', '-', k, const(1))


def deep(ev, t):
    """resolve references to arrays and lists inside a value; loop-carried values stay as they are"""
    memo, on = {}, set()

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('phi', 'hk') or x in on:
            return x
        on.add(x)
        if x.op == 'obj':
            y = ev.deref(x)
            r = go(y) if y is not x else x
        else:
            ch = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(ch, x.a)) else mk(x.op, *ch)
        on.discard(x)
        memo[x] = r
        return r
    return go(t)


class SurveyModel:
    """Lower() atoms for the attributes of a survey: directions, doglegs and intervals are expressed
    by the stations' md, inc_rad, azi_grid_rad, so that they are consistent with one another"""

    def __init__(self, s=None, extra=None):
        self.s = s or sym('survey')
        self.extra = extra

    def st(self, a, k):
        """scalar of station k"""
        t = mk('attr', self.s, a)
        if is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
            return mk('elat', t, cval(k))
        return mk('idx', t, k)

    def __call__(self, t):
        if self.extra is not None:
            r = self.extra(t)
            if r is not None:
                return r
        if t.op == 'attr' and t.a[0] is self.s:
            return self.whole(t.a[1])
        if t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[0] is self.s:
            a, k = t.a[0].a[1], t.a[1]
            if k.op == 'tuple' and len(k.a) >= 1 and k.a[0].op not in ('slice', 'ellipsis') and k.a[0] is not NONE:
                rest = k.a[1:]
                v = self.row(a, k.a[0])
                if v is None or not all(is_const(x) and isinstance(cval(x), int) for x in rest):
                    return None
                return A((), {(): v.d[tuple(cval(x) % v.shape[i] for i, x in enumerate(rest))]})
            if k.op in ('slice', 'tuple', 'ellipsis') or k is NONE:
                return None
            return self.row(a, k)
        return None

    def direction(self, k):
        i, z = self.st('inc_rad', k), self.st('azi_grid_rad', k)
        s, c = (lambda x: mkcall('numpy.sin', [x])), (lambda x: mkcall('numpy.cos', [x]))
        m = lambda x, y: mk('bin', '*', x, y)
        return m(s(i), c(z)), m(s(i), s(z)), c(i)

    def row(self, a, k):
        sc = lambda v: A((), {(): v})
        if a in ('md', 'inc_rad', 'azi_grid_rad', 'n', 'e', 'tvd', 'x', 'y', 'z', 'radius'):
            return sc(self.st(a, k))
        if a in ('inc_deg', 'azi_grid_deg'):
            return sc(mkcall('numpy.degrees', [self.st(a.replace('deg', 'rad'), k)]))
        if a in ('vec_nev', 'vec_xyz'):
            nn, e, v = self.direction(k)
            d = (nn, e, v) if a == 'vec_nev' else (e, nn, v)
            return A((3,), {(i,): x for i, x in enumerate(d)})
        if a == 'survey_rad':
            return A((3,), {(i,): self.st(x, k) for i, x in enumerate(('md', 'inc_rad', 'azi_grid_rad'))})
        if a == 'survey_deg':
            return A((3,), {(0,): self.st('md', k), (1,): mkcall('numpy.degrees', [self.st('inc_rad', k)]), (2,): mkcall('numpy.degrees', [self.st('azi_grid_rad', k)])})
        if a == 'pos_nev':
            return A((3,), {(i,): self.st(x, k) for i, x in enumerate(('n', 'e', 'tvd'))})
        if a == 'pos_xyz':
            return A((3,), {(i,): self.st(x, k) for i, x in enumerate(('x', 'y', 'z'))})
        if a == 'delta_md':
            return sc(mk('bin', '-', self.st('md', k), self.st('md', prevkey(k))))
        if a == 'dogleg':
            p = prevkey(k)
            i1, z1, i2, z2 = self.st('inc_rad', p), self.st('azi_grid_rad', p), self.st('inc_rad', k), self.st('azi_grid_rad', k)
            h = lambda x, y: mk('bin', '**', mkcall('numpy.sin', [mk('bin', '/', mk('bin', '-', x, y), const(2))]), const(2))
            s = lambda x: mkcall('numpy.sin', [x])
            q = mk('bin', '+', h(i2, i1), mk('bin', '*', mk('bin', '*', s(i1), s(i2)), h(z2, z1)))
            return sc(mk('bin', '*', const(2.0), mkcall('numpy.arcsin', [mkcall('numpy.sqrt', [q])])))
        if a in ('cov_nev', 'cov_hla'):
            return A((3, 3), {(i, j): mk('comp_of', self.st(a, k), min(i, j), max(i, j)) for i in range(3) for j in range(3)})
        return None

    def whole(self, a):
        v = lambda x: mk('el', mk('attr', self.s, x), 0)
        if a in ('md', 'inc_rad', 'azi_grid_rad', 'n', 'e', 'tvd', 'x', 'y', 'z', 'radius'):
            return A(('n',), {(0,): v(a)})
        if a in ('inc_deg', 'azi_grid_deg'):
            return A(('n',), {(0,): mkcall('numpy.degrees', [v(a.replace('deg', 'rad'))])})
        if a == 'survey_rad':
            return A(('n', 3), {(0, i): v(x) for i, x in enumerate(('md', 'inc_rad', 'azi_grid_rad'))})
        if a == 'survey_deg':
            return A(('n', 3), {(0, 0): v('md'), (0, 1): mkcall('numpy.degrees', [v('inc_rad')]), (0, 2): mkcall('numpy.degrees', [v('azi_grid_rad')])})
        if a == 'pos_nev':
            return A(('n', 3), {(0, i): v(x) for i, x in enumerate(('n', 'e', 'tvd'))})
        if a == 'pos_xyz':
            return A(('n', 3), {(0, i): v(x) for i, x in enumerate(('x', 'y', 'z'))})
        if a in ('vec_nev', 'vec_xyz'):
            i, z = v('inc_rad'), v('azi_grid_rad')
            s, c = (lambda x: mkcall('numpy.sin', [x])), (lambda x: mkcall('numpy.cos', [x]))
            m = lambda x, y: mk('bin', '*', x, y)
            nn, e, w = m(s(i), c(z)), m(s(i), s(z)), c(i)
            d = (nn, e, w) if a == 'vec_nev' else (e, nn, w)
            return A(('n', 3), {(0, i): x for i, x in enumerate(d)})
        if a in ('start_nev', 'start_xyz'):
            return A((3,), {(i,): mk('elat', mk('attr', self.s, a), i) for i in range(3)})
        if a in ('cov_nev', 'cov_hla'):
            return A(('n', 3, 3), {(0, i, j): mk('el', mk('comp_of', mk('attr', self.s, a), min(i, j), max(i, j)), 0) for i in range(3) for j in range(3)})
        return None


SURVEY_RANGES = ranges(md=(100., 900.), inc_rad=(0.15, 2.9), azi_grid_rad=(0.1, 6.1), inc=(0.15, 2.9), azi=(0.1, 6.1))
