"""Lowers value-number terms to scalar terms with known shapes.

An abstract array is a shape (ints, and at most one station dimension 'n') with one scalar term per
component; along 'n' the scalar term is that of the generic station i (el(x, off) is x[i+off])."""
import itertools
from .terms import T, mk, const, NONE, TRUE, FALSE, UNDEF, PI, is_const, cval, sym, show, rebuild, subterms
from .aeval import mkite, mkcmp, mkand, mkor, negate, mkcall


class Unsup(Exception):
    pass


class A:
    __slots__ = ('shape', 'd', 'mask')

    def __init__(self, shape, d, mask=None):
        self.shape, self.d, self.mask = tuple(shape), d, mask

    def __repr__(self):
        return f'A{self.shape}{ {k: show(v) for k, v in self.d.items()} }'


def rng(d):
    return range(1) if d == 'n' else range(d)


def indices(shape):
    return itertools.product(*[rng(s) for s in shape])


def scal(s):
    return A((), {(): s})


ELEM1 = {'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.arcsin', 'numpy.arccos', 'numpy.arctan', 'numpy.sqrt', 'numpy.absolute', 'numpy.radians', 'numpy.degrees',
         'numpy.exp', 'numpy.log', 'numpy.log10', 'numpy.sign', 'numpy.floor', 'numpy.ceil', 'numpy.isnan', 'numpy.isfinite', 'numpy.nan_to_num', 'numpy.sinc', 'numpy.cbrt'}
ELEM2 = {'numpy.arctan2', 'numpy.hypot', 'numpy.maximum', 'numpy.minimum', 'numpy.copysign', 'numpy.fmod', 'numpy.fmax', 'numpy.fmin'}
IDENT = {'numpy.array', 'numpy.asarray', 'float', 'numpy.ascontiguousarray', 'numpy.float64', 'copy.copy', 'copy.deepcopy', 'list', 'tuple', 'numpy.real'}


def sbin(op, a, b):
    return mk('bin', op, a, b)


def integer(t):
    """value of a constant integer expression"""
    def go(x):
        if is_const(x) and isinstance(cval(x), (int, float)):
            return cval(x)
        if x.op == 'bin' and x.a[0] in ('+', '-', '*', '/', '//'):
            a, b = go(x.a[1]), go(x.a[2])
            if a is None or b is None or x.a[0] in '//' and b == 0:
                return None
            return {'+': a + b, '-': a - b, '*': a * b}[x.a[0]] if x.a[0] in '+-*' else a / b if x.a[0] == '/' else a // b
        if x.op == 'call' and x.a[0] == 'int' and len(x.a[1].a) == 1:
            a = go(x.a[1].a[0])
            return None if a is None else int(a)
        return None
    v = go(t)
    return int(v) if v is not None and v == int(v) else None


def shift(s, k, memo=None):
    if k == 0:
        return s

    def f(x):
        if x.op == 'el':
            return mk('el', x.a[0], x.a[1] + k)
        if x.op == 'ieq':
            j = x.a[0] - k
            return FALSE if j < 0 else mk('ieq', j)
        if x.op == 'ilast':
            return mk('ilast', x.a[0] + k)
        if x.op == 'ite':
            return mkite(*x.a)
        if x.op == 'not':
            return negate(x.a[0])
        if x.op == 'cumsum':
            raise Unsup('shifted cumulative sum') if False else None
        return None
    if any(y.op == 'cumsum' for y in subterms(s)):
        # a shifted cumulative sum keeps its offset explicitly
        def g(x):
            if x.op == 'cumsum':
                return mk('cumsum', x.a[0], x.a[1] + k)
            return f(x)
        return _rebuild_top(s, g)
    return rebuild(s, f)


def _rebuild_top(t, f, memo=None):
    """like rebuild, but does not descend into cumsum"""
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'cumsum':
            z = f(x)
        else:
            ch = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            y = x if all(p is q for p, q in zip(ch, x.a)) else mk(x.op, *ch)
            z = f(y)
            z = y if z is None else z
        memo[x] = z
        return z
    return go(t)


def at(s, k):
    def f(x):
        if x.op == 'el':
            return mk('elat', x.a[0], x.a[1] + k)
        if x.op == 'ieq':
            return const(x.a[0] == k) if k >= 0 else FALSE
        if x.op == 'ilast':
            if x.a[0] == 0 and k == -1:
                return TRUE
            if x.a[0] == 0 and k >= 0:
                return mk('ilast', ('at', k))
            raise Unsup('position from the end')
        if x.op == 'ite':
            return mkite(*x.a)
        return None
    if any(y.op == 'cumsum' for y in subterms(s)):
        raise Unsup('indexed cumulative sum')
    return rebuild(s, f)


class Lower:
    def __init__(self, shapes=None, facts=None, interp=None, atoms=None):
        self.shapes = shapes or {}       # term -> shape
        self.facts = facts or (lambda c: None)
        self.interp = interp or {}       # call name -> fn(lower, args, kws) -> A
        self.atoms = atoms or (lambda t: None)
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self.low(t)
            except Unsup as e:
                r = e
            except (ValueError, IndexError, KeyError, TypeError, AttributeError) as e:
                r = Unsup(f'{t.op}: {type(e).__name__} {e}')
            self.memo[t] = r
        if isinstance(r, Exception):
            raise r
        return r

    # ---- broadcasting
    def bshape(self, *ss):
        n = max(len(s) for s in ss)
        out = []
        for i in range(n):
            ds = [s[len(s) - n + i] for s in ss if len(s) - n + i >= 0]
            big = [d for d in ds if d != 1]
            if not big:
                out.append(1)
            elif all(d == big[0] for d in big):
                out.append(big[0])
            else:
                raise Unsup(f'shapes {ss}')
        return tuple(out)

    def get(self, a, shape, ix):
        off = len(shape) - len(a.shape)
        return a.d[tuple(0 if a.shape[j] in (1, 'n') else ix[off + j] for j in range(len(a.shape)))]

    def mapn(self, f, *as_):
        sh = self.bshape(*[a.shape for a in as_])
        m = next((a.mask for a in as_ if a.mask is not None), None)
        return A(sh, {ix: f(*[self.get(a, sh, ix) for a in as_]) for ix in indices(sh)}, m)

    def declared(self, t):
        s = self.shapes.get(t)
        if s is None:
            return None
        if callable(s):
            return s(self)
        if isinstance(s, A):
            return s
        d = {}
        for ix in indices(s):
            base = t if all(x == 'n' for x in s) else mk('comp_of', t, *[i for i, x in zip(ix, s) if x != 'n'])
            d[ix] = mk('el', base, 0) if 'n' in s else base
        return A(s, d)

    def low(self, t):
        r = self.declared(t)
        if r is not None:
            return r
        r = self.atoms(t)
        if r is not None:
            return r if isinstance(r, A) else scal(r)
        op, a = t.op, t.a
        if op == 'const':
            if isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
                return scal(t)
            return scal(t)
        if op == 'pi':
            return scal(t)
        if op == 'ext' and a[0] in ('numpy.inf', 'numpy.nan'):
            return scal(t)
        if op == 'sym':
            return scal(t)
        if op == 'bin':
            if a[0] == '@':
                return self.matmul(self(a[1]), self(a[2]))
            x, y = self(a[1]), self(a[2])
            if a[0] in ('&', '|'):
                return self.mapn(lambda p, q: mkand([p, q]) if a[0] == '&' else mkor([p, q]), x, y)
            return self.mapn(lambda p, q: sbin(a[0], p, q), x, y)
        if op == 'un':
            if a[0] == '~':
                return self.mapn(negate, self(a[1]))
            if a[0] == '+':
                return self(a[1])
            return self.mapn(lambda p: mk('un', '-', p), self(a[1]))
        if op == 'cmp':
            f = self.facts(t)
            if f is not None:
                return scal(const(f))
            if a[0] == 'is' and a[2] is NONE:
                if a[1] in self.shapes:
                    return scal(FALSE)
                return scal(t)
            if a[0] == 'in':
                return scal(t)
            if is_const(a[2]) and isinstance(cval(a[2]), (str, bool)):
                return scal(t)
            x, y = self(a[1]), self(a[2])
            return self.mapn(lambda p, q: mkcmp(a[0], p, q) if a[0] != '==' else self.eq(p, q), x, y)
        if op == 'not':
            return self.mapn(negate, self(a[0]))
        if op in ('and', 'or'):
            xs = [self(x) for x in a]
            return self.mapn(lambda *p: mkand(p) if op == 'and' else mkor(p), *xs)
        if op == 'ite':
            f = self.facts(a[0])
            if f is not None:
                return self(a[1] if f else a[2])
            c = self(a[0])
            cs = set(c.d.values())
            if cs == {TRUE}:
                return self(a[1])
            if cs == {FALSE}:
                return self(a[2])
            if a[1] in (UNDEF, NONE):
                return self(a[2])
            if a[2] in (UNDEF, NONE):
                return self(a[1])
            return self.mapn(mkite, c, self(a[1]), self(a[2]))
        if op in ('tuple', 'list'):
            return self.stackseq([self(x) for x in a])
        if op == 'idx':
            return self.index(a[0], a[1])
        if op == 'attr':
            if a[1] == 'T':
                x = self(a[0])
                return A(x.shape[::-1], {ix[::-1]: v for ix, v in x.d.items()})
            if a[1] == 'ndim':
                return scal(const(len(self(a[0]).shape)))
            if a[1] == 'shape':
                x = self(a[0])
                return A((len(x.shape),), {(i,): (mk('len_n') if d == 'n' else const(d)) for i, d in enumerate(x.shape)})
            if a[1] == 'size':
                x = self(a[0])
                k = 1
                for d in x.shape:
                    if d == 'n':
                        return scal(mk('len_n'))
                    k *= d
                return scal(const(k))
            return scal(t)
        if op == 'store':
            return self.store(*a)
        if op == 'call':
            return self.call(t)
        if op == 'mcall':
            return self.mcall(t)
        if op in ('elem', 'rcall', 'phi', 'loopout', 'comp', 'sumover', 'mapstore', 'unknown', 'mut', 'append', 'opaque', 'attrdyn', 'noreturn', 'kwget', 'excval', 'undef', 'obj', 'defobj', 'fstr', 'dict', 'star', 'new'):
            raise Unsup(op)
        raise Unsup(op)

    def eq(self, p, q):
        return mkcmp('==', p, q)

    def stackseq(self, xs):
        if not xs:
            raise Unsup('empty')
        sh = self.bshape(*[x.shape for x in xs])
        if any(len(x.shape) != len(sh) for x in xs) and any(x.shape != () for x in xs) and len({len(x.shape) for x in xs}) > 1:
            raise Unsup('ragged')
        d = {}
        for i, x in enumerate(xs):
            for ix in indices(sh):
                d[(i,) + ix] = self.get(x, sh, ix)
        return A((len(xs),) + sh, d)

    def stack(self, xs, axis):
        sh = self.bshape(*[x.shape for x in xs])
        n = len(sh) + 1
        axis %= n
        out = sh[:axis] + (len(xs),) + sh[axis:]
        d = {}
        for i, x in enumerate(xs):
            for ix in indices(sh):
                d[ix[:axis] + (i,) + ix[axis:]] = self.get(x, sh, ix)
        return A(out, d)

    def concat(self, xs, axis):
        n = len(xs[0].shape)
        axis %= n
        if any(len(x.shape) != n for x in xs):
            raise Unsup('concat rank')
        ax = [x.shape[axis] for x in xs]
        if 'n' in ax:
            if len(xs) == 2 and ax[1] == 'n' and ax[0] == 1:
                sh = tuple('n' if j == axis else (xs[1].shape[j]) for j in range(n))
                d = {}
                for ix in indices(sh):
                    p = self.get(xs[0], xs[0].shape, ix) if len(xs[0].shape) == n else None
                    q = shift(self.get(xs[1], sh, ix), -1)
                    d[ix] = mkite(mk('ieq', 0), p, q)
                return A(sh, d)
            if len(xs) == 2 and ax[0] == 'n' and ax[1] == 1:
                sh = tuple('n' if j == axis else (xs[0].shape[j]) for j in range(n))
                return A(sh, {ix: mkite(mk('ilast', 0), self.get(xs[1], xs[1].shape, ix), self.get(xs[0], sh, ix)) for ix in indices(sh)})
            if len(xs) == 3 and ax == [1, 'n', 1]:
                # a row before and a row after: the middle has two rows less than the result
                sh = tuple('n' if j == axis else (xs[1].shape[j]) for j in range(n))
                return A(sh, {ix: mkite(mk('ieq', 0), self.get(xs[0], xs[0].shape, ix), mkite(mk('ilast', 0), self.get(xs[2], xs[2].shape, ix), shift(self.get(xs[1], sh, ix), -1))) for ix in indices(sh)})
            raise Unsup('concat n')
        oth = self.bshape(*[tuple(1 if j == axis else x.shape[j] for j in range(n)) for x in xs])
        d, off = {}, 0
        for x in xs:
            k = x.shape[axis]
            sh = tuple(k if j == axis else oth[j] for j in range(n))
            for ix in indices(sh):
                d[ix[:axis] + (ix[axis] + off,) + ix[axis + 1:]] = self.get(x, sh, ix)
            off += k
        return A(tuple(off if j == axis else oth[j] for j in range(n)), d)

    def dims(self, t):
        """shape argument -> tuple of ints / 'n' / -1"""
        els = t.a if t.op in ('tuple', 'list') else (t,)
        out = []
        for e in els:
            if is_const(e) and isinstance(cval(e), int):
                out.append(cval(e))
            elif e.op == 'un' and is_const(e.a[1]):
                out.append(-cval(e.a[1]))
            else:
                try:
                    s = self(e)
                    v = s.d.get(())
                    if s.shape == () and is_const(v) and isinstance(cval(v), int):
                        out.append(cval(v))
                        continue
                    if len(s.shape) == 1 and all(is_const(x) or x.op == 'len_n' for x in s.d.values()):
                        out.extend(cval(x) if is_const(x) else 'n' for x in (s.d[(i,)] for i in range(s.shape[0])))
                        continue
                except Unsup:
                    pass
                out.append('n')
        return tuple(out)

    def reshape(self, x, dims):
        hasn = 'n' in x.shape
        core = [d for d in x.shape if d != 1]
        if hasn and core[0] != 'n':
            raise Unsup('reshape')
        K = 1
        for d in core:
            if d != 'n':
                K *= d
        known = 1
        for d in dims:
            if d not in (-1, 'n'):
                known *= d
        free = [i for i, d in enumerate(dims) if d in (-1, 'n')]
        if hasn:
            if len(free) > 1:
                # e.g. (n, -1, 3): the first is the station dimension
                rest = [i for i in free[1:]]
                if len(rest) != 1 or dims[rest[0]] != -1 or K % known:
                    raise Unsup('reshape')
                dims = tuple('n' if i == free[0] else (K // known if i == rest[0] else d) for i, d in enumerate(dims))
            elif len(free) == 1 and known == K:
                dims = tuple('n' if i == free[0] else d for i, d in enumerate(dims))
            elif len(free) == 1 and known == 1 and K > 1:
                raise Unsup('reshape')
            else:
                raise Unsup('reshape')
            if any(d != 1 for d in dims[:dims.index('n')]):
                raise Unsup('reshape')
        else:
            if len(free) > 1:
                if known == K:
                    dims = tuple(1 if i in free else d for i, d in enumerate(dims))
                else:
                    raise Unsup('reshape')
            elif len(free) == 1:
                if K % known:
                    raise Unsup('reshape')
                dims = tuple(K // known if i == free[0] else d for i, d in enumerate(dims))
            elif known != K:
                raise Unsup('reshape')
        src = list(indices(x.shape))
        dst = list(indices(dims))
        if len(src) != len(dst):
            raise Unsup('reshape')
        return A(dims, {j: x.d[i] for i, j in zip(src, dst)})

    # ---- indexing
    def index(self, base, key):
        if base.op == 'sym' and base not in self.shapes:
            return scal(mk('idx', base, key))
        if base.op == 'attr' and base.a[1] not in ('T', 'shape') and base not in self.shapes and (self.atoms is None or self.atoms(base) is None):
            return scal(mk('idx', base, key))
        b = self(base)
        if b.shape == () and not (key.op == 'tuple' and all(k in (NONE,) or k.op == 'ellipsis' for k in key.a)) and key is not NONE:
            v = b.d[()]
            if v.op in ('sym', 'attr', 'idx'):
                return scal(mk('idx', v, key))
            if key.op == 'cmp' or key.op in ('and', 'or', 'not'):
                return A((), b.d, mask=self(key).d.get(()))
            raise Unsup('index of scalar')
        keys = list(key.a) if key.op == 'tuple' else [key]
        return self.getidx(b, keys)

    def expandkeys(self, b, keys):
        nreal = sum(1 for k in keys if k is not NONE and k.op != 'ellipsis')
        out = []
        seen = False
        for k in keys:
            if k.op == 'ellipsis' and not seen:
                out += [mk('slice', NONE, NONE, NONE)] * (len(b.shape) - nreal)
                seen = True
            else:
                out.append(k)
        while sum(1 for k in out if k is not NONE) < len(b.shape):
            out.append(mk('slice', NONE, NONE, NONE))
        if sum(1 for k in out if k is not NONE) > len(b.shape):
            raise Unsup('too many indices')
        return out

    def getidx(self, b, keys):
        keys = self.expandkeys(b, keys)
        shape, sel = [], []
        dim = 0
        post = []      # operations on 'n'
        mask = b.mask
        for k in keys:
            if k is NONE:
                shape.append(1)
                sel.append(None)
                continue
            d = b.shape[dim]
            dim += 1
            if k.op == 'slice':
                lo, hi, st = k.a
                if d == 'n':
                    if st is not NONE:
                        raise Unsup('strided')
                    l = 0 if lo is NONE else (cval(lo) if is_const(lo) else None)
                    if l is None or not isinstance(l, int):
                        raise Unsup('slice')
                    if not (hi is NONE or (is_const(hi) and isinstance(cval(hi), int) and cval(hi) < 0)):
                        raise Unsup('slice')
                    if l < 0:
                        raise Unsup('slice')
                    post.append(('shift', l))
                    shape.append('n')
                    sel.append([0])
                else:
                    if not all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in (lo, hi, st)):
                        raise Unsup('slice')
                    r = list(range(d))[slice(*[None if x is NONE else cval(x) for x in (lo, hi, st)])]
                    shape.append(len(r))
                    sel.append(r)
            elif is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                if d == 'n':
                    post.append(('at', cval(k)))
                    sel.append(0)
                else:
                    i = cval(k)
                    if not -d <= i < d:
                        raise Unsup('index out of range')
                    sel.append(i % d)
            elif k.op == 'list' or (k.op == 'call' and k.a[0] == 'numpy.array'):
                lst = k.a if k.op == 'list' else k.a[1].a[0].a
                if d == 'n' or not all(is_const(x) and isinstance(cval(x), int) for x in lst):
                    raise Unsup('fancy index')
                r = [cval(x) % d for x in lst]
                shape.append(len(r))
                sel.append(r)
            else:
                kk = self(k) if self.unwhere(k) is None else self(self.unwhere(k))
                v = kk.d.get((0,)) if kk.shape == ('n',) else kk.d.get(()) if kk.shape == () else None
                if d == 'n' and kk.shape == ('n',) and v.op in ('cmp', 'not', 'and', 'or', 'call', 'ieq', 'ilast'):
                    mask = v
                    shape.append('n')
                    sel.append([0])
                else:
                    raise Unsup('index')
        data = {}

        def rec(j, dim, src, dst):
            if j == len(keys):
                v = b.d[tuple(src)]
                for o, x in post:
                    v = shift(v, x) if o == 'shift' else at(v, x)
                data[tuple(dst)] = v
                return
            s = sel[j]
            if s is None:
                rec(j + 1, dim, src, dst + [0])
            elif isinstance(s, int):
                rec(j + 1, dim + 1, src + [s], dst)
            else:
                for p, x in enumerate(s):
                    rec(j + 1, dim + 1, src + [x], dst + [p])
        rec(0, 0, [], [])
        return A(shape, data, mask)

    def unwhere(self, k):
        """index arrays of numpy.where(condition) select like the condition itself"""
        if k.op == 'idx' and k.a[1] is const(0):
            k = k.a[0]
        if k.op == 'call' and k.a[0] in ('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero') and len(k.a[1].a) == 1 and not k.a[2].a:
            return k.a[1].a[0]
        return None

    def full(self, t):
        """the array has one row per station (no row cut off)"""
        return self.rows(t) == 0

    def rows(self, t):
        """number of rows of an array less the number of stations; None when unknown"""
        while t.op == 'store':
            t = t.a[0]
        if t in self.shapes:
            return 0
        if t.op == 'attr' and self.atoms is not None:
            return 0 if self.atoms(t) is not None else None
        if t.op == 'ite':
            r = self.rows(t.a[1])
            return r if r == self.rows(t.a[2]) else None
        if t.op == 'un':
            return self.rows(t.a[1])
        if t.op == 'bin' and t.a[0] in ('+', '-', '*', '/', '**'):
            rs = [r for r in (self.rows(x) for x in t.a[1:]) if r is not None]
            return rs[0] if rs and all(r == rs[0] for r in rs) else None
        if t.op == 'idx':
            k = t.a[1].a[0] if t.a[1].op == 'tuple' and t.a[1].a else t.a[1]
            if k.op != 'slice':
                return None
            lo, hi, st = (None if x is NONE else cval(x) if is_const(x) and isinstance(cval(x), int) else '?' for x in k.a)
            r = self.rows(t.a[0])
            if r is None or st is not None or lo == '?' or hi == '?' or (lo is not None and lo < 0) or (hi is not None and hi >= 0):
                return None
            return r - (lo or 0) + (hi or 0)
        if t.op == 'call' and isinstance(t.a[0], str) and t.a[1].a:
            n, a = t.a[0], t.a[1].a[0]
            if n in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'):
                d = a.a[0] if a.op in ('tuple', 'list') else a
                return self.rows(d.a[1].a[0]) if d.op == 'call' and d.a[0] == 'len' else None
            if n in ELEM1 or n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like', 'numpy.copy', 'numpy.asarray') or n in ('numpy.array', 'numpy.cumsum') and a.op not in ('tuple', 'list'):
                return self.rows(a)
            if n in ELEM2:
                rs = [r for r in (self.rows(x) for x in t.a[1].a) if r is not None]
                return rs[0] if rs and all(r == rs[0] for r in rs) else None
            if n == 'numpy.diff' and len(t.a[1].a) == 1:
                r = self.rows(a)
                return None if r is None else r - 1 + sum(1 for k in t.a[2].a if k.a[0] in ('prepend', 'append'))
            if n in ('numpy.column_stack', 'numpy.stack', 'numpy.array') and a.op in ('tuple', 'list') and a.a:
                rs = [self.rows(x) for x in a.a]
                return rs[0] if all(r == rs[0] for r in rs) else None
            if n in ('numpy.vstack', 'numpy.concatenate', 'numpy.hstack') and a.op in ('tuple', 'list'):
                tot, many = 0, 0
                for q in a.a:
                    r = self.rows(q)
                    if r is not None:
                        tot, many = tot + r, many + 1
                        continue
                    q = self(q)
                    if n == 'numpy.vstack' and len(q.shape) == 1 and 'n' not in q.shape:
                        tot += 1
                    elif q.shape and q.shape[0] != 'n':
                        tot += q.shape[0]
                    elif q.shape[:1] == ('n',) and q.mask is None:
                        return 0 if len(a.a) == 3 and tot == 1 else None
                    else:
                        return None
                return tot if many == 1 else None
        return None

    def store(self, base, key, val):
        b, v = self(base), self(val)
        keys = list(key.a) if key.op == 'tuple' else [key]
        if len(keys) == 1 and self.unwhere(keys[0]) is not None:
            keys = [self.unwhere(keys[0])]
        # boolean mask
        if len(keys) == 1 and keys[0].op in ('cmp', 'not', 'and', 'or', 'bin', 'call', 'un'):
            m = self(keys[0])
            if m.shape == b.shape or m.shape == b.shape[:1] or m.shape == ():
                if v.mask is not None and v.mask not in m.d.values():
                    raise Unsup('mask mismatch')
                if m.shape != b.shape and len(b.shape) > 1:
                    m = A(m.shape + (1,) * (len(b.shape) - len(m.shape)), {ix + (0,) * (len(b.shape) - len(m.shape)): x for ix, x in m.d.items()})
                vv = A(v.shape, v.d)
                return self.mapn(mkite, m, vv, A(b.shape, b.d))
            raise Unsup('mask')
        keys = self.expandkeys(b, keys)
        if any(k is NONE for k in keys):
            raise Unsup('store None')
        sel, cond, sh, shp = [], [], 0, []
        for k, d in zip(keys, b.shape):
            if k.op == 'slice':
                lo, hi, st = k.a
                if d == 'n':
                    if st is not NONE or not (lo is NONE or (is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0)):
                        raise Unsup('store slice')
                    l = 0 if lo is NONE else cval(lo)
                    if l > 0:
                        cond = cond + [mk('ieq', j) for j in range(l)]
                        sh = l
                    if hi is not NONE:
                        if not (is_const(hi) and isinstance(cval(hi), int) and cval(hi) < 0 and self.full(base)):
                            raise Unsup('store slice')
                        cond = cond + [mk('ilast', j) for j in range(-cval(hi))]
                    sel.append([0])
                    shp.append('n')
                else:
                    if not all(x is NONE or (is_const(x) and isinstance(cval(x), int)) for x in (lo, hi, st)):
                        raise Unsup('slice')
                    r = list(range(d))[slice(*[None if x is NONE else cval(x) for x in (lo, hi, st)])]
                    sel.append(r)
                    shp.append(len(r))
            elif is_const(k) and isinstance(cval(k), int):
                if d == 'n':
                    if cval(k) < 0:
                        if not self.full(base):
                            raise Unsup('store at end')
                        cond = cond + [negate(mk('ilast', -1 - cval(k)))]
                    else:
                        cond = cond + [negate(mk('ieq', cval(k)))]
                    sel.append(0)
                else:
                    sel.append(cval(k) % d)
            else:
                raise Unsup('store key')
        data = dict(b.d)

        def rec(j, src, dst):
            if j == len(keys):
                p = tuple(src)
                x = self.get(v, tuple(shp), tuple(dst))
                x = shift(x, -sh) if sh else x
                data[p] = mkite(mkor(cond), data[p], x) if cond else x
                return
            s = sel[j]
            if isinstance(s, int):
                rec(j + 1, src + [s], dst)
            else:
                for q, x in enumerate(s):
                    rec(j + 1, src + [x], dst + [q])
        if len(v.shape) > len(shp):
            if all(d == 1 for d in v.shape[:len(v.shape) - len(shp)]):
                v = A(v.shape[len(v.shape) - len(shp):], {ix[len(ix) - len(shp):]: x for ix, x in v.d.items()})
            else:
                raise Unsup('store shape')
        rec(0, [], [])
        return A(b.shape, data)

    # ---- linear algebra
    def add(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = sbin('+', r, x)
        return r

    def matmul(self, x, y):
        if len(x.shape) == 1 and len(y.shape) == 1:
            return scal(self.add([sbin('*', x.d[(i,)], y.d[(i,)]) for i in rng(x.shape[0])]))
        if len(x.shape) == 1:
            r = self.matmul(A((1,) + x.shape, {(0,) + k: v for k, v in x.d.items()}), y)
            return A(r.shape[:-2] + r.shape[-1:], {k[:-2] + k[-1:]: v for k, v in r.d.items()})
        if len(y.shape) == 1:
            r = self.matmul(x, A(y.shape + (1,), {k + (0,): v for k, v in y.d.items()}))
            return A(r.shape[:-1], {k[:-1]: v for k, v in r.d.items()})
        i, k1 = x.shape[-2:]
        k2, j = y.shape[-2:]
        if k1 != k2 or k1 == 'n':
            raise Unsup('matmul shape')
        bs = self.bshape(x.shape[:-2], y.shape[:-2])
        out = bs + (i, j)
        d = {}
        for ix in indices(out):
            bi, p, q = ix[:-2], ix[-2], ix[-1]
            d[ix] = self.add([sbin('*', self.get(x, bs + (i, k1), bi + (p, k)), self.get(y, bs + (k2, j), bi + (k, q))) for k in range(k1)])
        return A(out, d)

    def einsum(self, spec, ops):
        if '->' in spec:
            ins, out = spec.replace(' ', '').split('->')
        else:
            ins = spec.replace(' ', '')
            out = None
        ins = ins.split(',')
        if len(ins) != len(ops):
            raise Unsup('einsum')
        ell = 0
        for s, o in zip(ins, ops):
            if '...' in s:
                ell = max(ell, len(o.shape) - len(s.replace('...', '')))
        E = 'ABCDEFG'[:ell]
        full = []
        for s, o in zip(ins, ops):
            if '...' in s:
                k = len(o.shape) - len(s.replace('...', ''))
                s = s.replace('...', E[ell - k:])
            if len(s) != len(o.shape):
                raise Unsup('einsum rank')
            full.append(s)
        if out is None:
            letters = ''.join(full)
            out = E + ''.join(sorted(c for c in set(letters) if letters.count(c) == 1 and c not in E))
        else:
            out = out.replace('...', E)
        size = {}
        for s, o in zip(full, ops):
            for c, d in zip(s, o.shape):
                if size.get(c, 1) == 1:
                    size[c] = d
                elif d not in (1, size[c]):
                    raise Unsup('einsum dims')
        summed = [c for c in size if c not in out]
        if any(size[c] == 'n' for c in summed):
            raise Unsup('einsum over stations')
        osh = tuple(size[c] for c in out)
        d = {}
        for ix in indices(osh):
            e = dict(zip(out, ix))
            terms = []
            for sx in indices(tuple(size[c] for c in summed)):
                e.update(zip(summed, sx))
                p = None
                for s, o in zip(full, ops):
                    v = o.d[tuple(0 if o.shape[j] in (1, 'n') else e[c] for j, c in enumerate(s))]
                    p = v if p is None else sbin('*', p, v)
                terms.append(p)
            d[ix] = self.add(terms)
        return A(osh, d)

    def reduce(self, x, axis, f, keep=False):
        if axis is None:
            if 'n' in x.shape:
                raise Unsup('reduce n')
            return scal(f([x.d[ix] for ix in indices(x.shape)]))
        axis %= len(x.shape)
        if x.shape[axis] == 'n':
            raise Unsup('reduce n')
        sh = x.shape[:axis] + x.shape[axis + 1:]
        d = {}
        for ix in indices(sh):
            v = f([x.d[ix[:axis] + (i,) + ix[axis:]] for i in range(x.shape[axis])])
            d[ix[:axis] + ((0,) if keep else ()) + ix[axis:]] = v
        return A(x.shape[:axis] + ((1,) if keep else ()) + x.shape[axis + 1:], d)

    def axisarg(self, args, kws, pos=1, default=None):
        t = kws.get('axis', args[pos] if len(args) > pos else None)
        if t is None or t is NONE:
            return default
        if is_const(t) and isinstance(cval(t), int):
            return cval(t)
        raise Unsup('axis')

    def call(self, t):
        name, args, kws = t.a[0], t.a[1].a, {k.a[0]: k.a[1] for k in t.a[2].a}
        if not isinstance(name, str):
            raise Unsup('call')
        if name in self.interp:
            r = self.interp[name](self, args, kws)
            if r is not None:
                return r
        if name in IDENT and args:
            return self(args[0])
        if name in ELEM1 and args:
            x = self(args[0])
            if name == 'numpy.nan_to_num':
                return x
            return self.mapn(lambda p: mkcall(name, [p]), x)
        if name in ELEM2 and len(args) >= 2:
            return self.mapn(lambda p, q: mkcall(name, [p, q]), self(args[0]), self(args[1]))
        if name == 'numpy.arctan2' and len(args) == 1 and args[0].op == 'star':
            x = self(args[0].a[0])
            return self.mapn(lambda p, q: mkcall(name, [p, q]), self.getidx(x, [const(0)]), self.getidx(x, [const(1)]))
        if name == 'numpy.where' and len(args) == 3:
            c = self(args[0])
            cs = set(c.d.values())
            a, b = self(args[1]), self(args[2])
            # masks of undefined values (nan) leave the defined branch
            if len(cs) == 1:
                c0 = next(iter(cs))
                if c0.op == 'call' and c0.a[0] == 'numpy.isnan':
                    return b
                if c0.op == 'call' and c0.a[0] == 'numpy.isfinite':
                    return a
            return self.mapn(mkite, c, a, b)
        if name == 'numpy.clip' and len(args) == 3:
            r = self(args[0])
            for x, n2 in ((args[1], 'numpy.maximum'), (args[2], 'numpy.minimum')):
                if x is not NONE:
                    r = self.mapn(lambda p, q: mkcall(n2, [p, q]), r, self(x))
            return r
        if name in ('max', 'min') and len(args) >= 2:
            xs = [self(x) for x in args]
            n2 = 'numpy.maximum' if name == 'max' else 'numpy.minimum'
            r = xs[0]
            for x in xs[1:]:
                r = self.mapn(lambda p, q: mkcall(n2, [p, q]), r, x)
            return r
        if name in ('numpy.stack',):
            xs = self.seqof(args[0])
            return self.stack(xs, self.axisarg(args, kws, 1, 0))
        if name == 'numpy.column_stack':
            xs = [A(x.shape + (1,), {k + (0,): v for k, v in x.d.items()}) if len(x.shape) <= 1 else x for x in self.seqof(args[0])]
            xs = [A((1, 1), {(0, 0): x.d[(0,)]}) if len(x.shape) == 1 else x for x in xs]
            return self.concat_n(xs, 1)
        if name == 'numpy.vstack':
            if args[0].op not in ('tuple', 'list'):
                x = self(args[0])
                if len(x.shape) == 2:
                    return x
            xs = self.seqof(args[0])
            xs = [A((1,) + x.shape, {(0,) + k: v for k, v in x.d.items()}) if len(x.shape) <= 1 else x for x in xs]
            if all(len(x.shape) == 2 for x in xs):
                return self.concat_n(xs, 0)
            raise Unsup('vstack')
        if name == 'numpy.hstack':
            xs = self.seqof(args[0])
            xs = [A((1,), {(0,): x.d[()]}) if x.shape == () else x for x in xs]
            return self.concat_n(xs, 0 if len(xs[0].shape) == 1 else 1)
        if name == 'numpy.concatenate':
            return self.concat_n(self.seqof(args[0]), self.axisarg(args, kws, 1, 0))
        if name == 'numpy.append' and len(args) == 2:
            raise Unsup('append')
        if name == 'numpy.insert' and len(args) >= 3 and is_const(args[1]) and cval(args[1]) == 0:
            x, v = self(args[0]), self(args[2])
            if x.shape == ('n',):
                v = A((1,), {(0,): v.d[()] if v.shape == () else v.d[(0,)]})
                return self.concat([v, x], 0)
            raise Unsup('insert')
        if name == 'numpy.reshape':
            return self.reshape(self(args[0]), self.dims(args[1]))
        if name == 'numpy.ravel':
            x = self(args[0])
            return self.reshape(x, (-1,))
        if name == 'numpy.squeeze':
            x = self(args[0])
            keep = [i for i, d in enumerate(x.shape) if d != 1]
            return A(tuple(x.shape[i] for i in keep), {tuple(ix[i] for i in keep): v for ix, v in x.d.items()})
        if name == 'numpy.atleast_2d' and len(args) == 1:
            x = self(args[0])
            while len(x.shape) < 2:
                x = A((1,) + x.shape, {(0,) + k: v for k, v in x.d.items()})
            return x
        if name == 'numpy.atleast_1d' and len(args) == 1:
            x = self(args[0])
            return x if x.shape else A((1,), {(0,): x.d[()]})
        if name == 'numpy.expand_dims':
            x = self(args[0])
            ax = self.axisarg(args, kws, 1)
            ax %= len(x.shape) + 1
            return A(x.shape[:ax] + (1,) + x.shape[ax:], {k[:ax] + (0,) + k[ax:]: v for k, v in x.d.items()})
        if name == 'numpy.swapaxes':
            x = self(args[0])
            i, j = [cval(a) % len(x.shape) for a in args[1:3]]
            perm = list(range(len(x.shape)))
            perm[i], perm[j] = perm[j], perm[i]
            return A(tuple(x.shape[p] for p in perm), {tuple(k[p] for p in perm): v for k, v in x.d.items()})
        if name == 'numpy.transpose' and len(args) == 2 and args[1].op in ('tuple', 'list'):
            x = self(args[0])
            perm = [cval(p) % len(x.shape) for p in args[1].a]
            return A(tuple(x.shape[p] for p in perm), {tuple(k[p] for p in perm): v for k, v in x.d.items()})
        if name == 'numpy.flip':
            x = self(args[0])
            ax = self.axisarg(args, kws, 1)
            if ax is None:
                if len(x.shape) != 1:
                    raise Unsup('flip')
                ax = 0
            ax %= len(x.shape)
            if x.shape[ax] == 'n':
                raise Unsup('flip')
            m = x.shape[ax]
            return A(x.shape, {k[:ax] + (m - 1 - k[ax],) + k[ax + 1:]: v for k, v in x.d.items()})
        if name in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty'):
            sh = self.dims(args[0] if args else kws['shape'])
            fv = scal(const(0.0)) if name in ('numpy.zeros', 'numpy.empty') else scal(const(1.0)) if name == 'numpy.ones' else self(args[1] if len(args) > 1 else kws['fill_value'])
            if sum(1 for d in sh if d == 'n') > 1:
                raise Unsup('zeros')
            return A(sh, {ix: self.get(fv, sh, ix) for ix in indices(sh)})
        if name in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.full_like', 'numpy.empty_like'):
            x = self(args[0])
            fv = scal(const(1.0)) if 'ones' in name else self(args[1]) if 'full' in name else scal(const(0.0))
            return A(x.shape, {ix: self.get(fv, x.shape, ix) for ix in indices(x.shape)})
        if name == 'numpy.broadcast_to':
            x = self(args[0])
            sh = self.dims(args[1])
            sh = self.bshape(x.shape, sh)
            return A(sh, {ix: self.get(x, sh, ix) for ix in indices(sh)})
        if name == 'numpy.linspace' and (len(args) >= 3 or 'num' in kws) and set(kws) <= {'endpoint', 'num'} and 2 <= (integer(args[2] if len(args) > 2 else kws['num']) or 0) <= 64:
            m = integer(args[2] if len(args) > 2 else kws['num'])
            a, b = self(args[0]), self(args[1])
            if a.shape == () and b.shape == ():
                a, b = a.d[()], b.d[()]
                k = m if kws.get('endpoint') is FALSE else m - 1
                return A((m,), {(i,): sbin('+', a, sbin('*', const(i), sbin('/', sbin('-', b, a), const(k)))) for i in range(m)})
        if name == 'numpy.tile':
            x = self(args[0])
            sh = self.dims(args[1])
            if len(sh) == 2 and sh[1] == 1 and len(x.shape) == 1 and sh[0] == 'n':
                return A(('n',) + x.shape, {(0,) + k: v for k, v in x.d.items()})
            raise Unsup('tile')
        if name == 'numpy.eye' or name == 'numpy.identity':
            n = cval(args[0])
            return A((n, n), {(i, j): const(1.0 if i == j else 0.0) for i in range(n) for j in range(n)})
        if name == 'numpy.linalg.norm':
            x = self(args[0])
            ax = self.axisarg(args, kws, 2)
            return self.reduce(x, ax, lambda vs: mkcall('numpy.sqrt', [self.add([sbin('**', v, const(2)) for v in vs])]), kws.get('keepdims') is TRUE)
        if name in ('numpy.sum', 'sum') and args:
            if args[0].op == 'comp':
                raise Unsup('sum comp')
            return self.reduce(self(args[0]), self.axisarg(args, kws, 1), self.add, kws.get('keepdims') is TRUE)
        if name == 'numpy.mean' or name == 'numpy.average' and 'weights' not in kws and len(args) < 3:
            x = self(args[0])
            return self.reduce(x, self.axisarg(args, kws, 1), lambda vs: sbin('/', self.add(vs), const(len(vs))))
        if name == 'numpy.prod':
            def pr(vs):
                r = vs[0]
                for v in vs[1:]:
                    r = sbin('*', r, v)
                return r
            return self.reduce(self(args[0]), self.axisarg(args, kws, 1), pr)
        if name in ('numpy.amax', 'numpy.amin') and args:
            n2 = 'numpy.maximum' if name == 'numpy.amax' else 'numpy.minimum'

            def mm(vs):
                r = vs[0]
                for v in vs[1:]:
                    r = mkcall(n2, [r, v])
                return r
            return self.reduce(self(args[0]), self.axisarg(args, kws, 1), mm)
        if name in ('numpy.dot', 'numpy.inner', 'numpy.vdot'):
            x, y = self(args[0]), self(args[1])
            if x.shape == () or y.shape == ():
                return self.mapn(lambda p, q: sbin('*', p, q), x, y)
            if name == 'numpy.inner' and len(y.shape) > 1:
                raise Unsup('inner')
            if len(x.shape) > 2 or len(y.shape) > 2:
                raise Unsup('dot')
            return self.matmul(x, y)
        if name == 'numpy.outer':
            x, y = self(args[0]), self(args[1])
            return A(x.shape + y.shape, {i + j: sbin('*', p, q) for i, p in x.d.items() for j, q in y.d.items()})
        if name == 'numpy.cross':
            x, y = self(args[0]), self(args[1])
            if x.shape[-1] != 3 or y.shape[-1] != 3:
                raise Unsup('cross')
            bs = self.bshape(x.shape[:-1], y.shape[:-1])
            d = {}
            for ix in indices(bs):
                p = [self.get(x, bs + (3,), ix + (i,)) for i in range(3)]
                q = [self.get(y, bs + (3,), ix + (i,)) for i in range(3)]
                for i in range(3):
                    j, k = (i + 1) % 3, (i + 2) % 3
                    d[ix + (i,)] = sbin('-', sbin('*', p[j], q[k]), sbin('*', p[k], q[j]))
            return A(bs + (3,), d)
        if name == 'numpy.einsum' and is_const(args[0]):
            return self.einsum(cval(args[0]), [self(x) for x in args[1:]])
        if name == 'numpy.diff':
            x = self(args[0])
            ax = self.axisarg(args, kws, 2, len(x.shape) - 1)
            ax %= len(x.shape)
            if x.shape[ax] != 'n':
                if x.shape[ax] == 2 and 'prepend' not in kws:
                    return self.reduce(x, ax, lambda v: sbin('-', v[1], v[0]), True)
                raise Unsup('diff')
            if 'prepend' in kws:
                p = self(kws['prepend'])
                d = {}
                for ix, v in x.d.items():
                    d[ix] = mkite(mk('ieq', 0), sbin('-', v, self.get(p, x.shape, ix)), sbin('-', v, shift(v, -1)))
                return A(x.shape, d)
            return A(x.shape, {ix: sbin('-', shift(v, 1), v) for ix, v in x.d.items()})
        if name == 'numpy.cumsum':
            x = self(args[0])
            ax = self.axisarg(args, kws, 1, 0 if len(x.shape) == 1 else None)
            if ax is None or x.shape[ax % len(x.shape)] != 'n':
                raise Unsup('cumsum')
            return A(x.shape, {ix: mk('cumsum', v, 0) for ix, v in x.d.items()})
        if name == 'len' and args:
            x = self(args[0])
            if x.shape == ():
                return scal(t)
            return scal(mk('len_n') if x.shape[0] == 'n' else const(x.shape[0]))
        if name in ('isinstance', 'hasattr', 'callable', 'bool', 'type', 'numpy.isscalar'):
            if name == 'isinstance' and args[1].op == 'ext' and args[1].a[0] == 'numpy.ndarray':
                try:
                    x = self(args[0])
                    if args[0] in self.shapes:
                        return scal(const(x.shape != ()))
                except Unsup:
                    pass
            return scal(t)
        if name in ('numpy.astype', 'numpy.nan_to_num'):
            return self(args[0])
        if name in ('int', 'round', 'numpy.around') and args:
            return self.mapn(lambda p: mkcall(name, [p] + list(args[1:])), self(args[0]))
        if name in ('numpy.all', 'numpy.any'):
            x = self(args[0])
            f = (lambda vs: mkand(vs)) if name == 'numpy.all' else (lambda vs: mkor(vs))
            return self.reduce(x, self.axisarg(args, kws, 1), f)
        raise Unsup(f'call {name}')

    def rotation(self, t):
        """scipy Rotation term -> (n?,3,3) matrix"""
        if t.op == 'ite':
            raise Unsup('rotation')
        if t.op == 'mcall' and t.a[1] in ('inv',) and not t.a[2].a:
            m = self.rotation(t.a[0])
            return self.getidx_T(m)
        if t.op != 'call' or not isinstance(t.a[0], str):
            raise Unsup('rotation')
        name, args, kws = t.a[0], t.a[1].a, {k.a[0]: k.a[1] for k in t.a[2].a}
        if not name.endswith('Rotation.from_euler'):
            raise Unsup('rotation')
        seq = args[0] if args else kws['seq']
        ang = self(args[1] if len(args) > 1 else kws['angles'])
        deg = args[2] if len(args) > 2 else kws.get('degrees', FALSE)
        if not is_const(seq) or deg not in (TRUE, FALSE):
            raise Unsup('rotation')
        seq = cval(seq)
        if deg is TRUE:
            ang = self.mapn(lambda p: mkcall('numpy.radians', [p]), ang)
        if len(seq) == 1 and ang.shape == ():
            ang = A((1,), {(0,): ang.d[()]})
        if ang.shape[-1] != len(seq) or len(ang.shape) > 2:
            raise Unsup('rotation')
        lead = ang.shape[:-1]
        m = None
        for j, ax in enumerate(seq):
            th = A(lead, {ix: ang.d[ix + (j,)] for ix in indices(lead)})
            r = self.axisrot(ax.lower(), th)
            # lower case: extrinsic, the next rotation is applied from the left
            m = r if m is None else (self.matmul(r, m) if ax.islower() else self.matmul(m, r))
        return m

    def axisrot(self, ax, th):
        i = 'xyz'.index(ax)
        j, k = (i + 1) % 3, (i + 2) % 3
        d = {}
        for ix in indices(th.shape):
            a = th.d[ix]
            c, s = mkcall('numpy.cos', [a]), mkcall('numpy.sin', [a])
            for p in range(3):
                for q in range(3):
                    d[ix + (p, q)] = const(0.0)
            d[ix + (i, i)] = const(1.0)
            d[ix + (j, j)] = c
            d[ix + (k, k)] = c
            d[ix + (j, k)] = mk('un', '-', s)
            d[ix + (k, j)] = s
        return A(th.shape + (3, 3), d)

    def getidx_T(self, m):
        return A(m.shape, {k[:-2] + (k[-1], k[-2]): v for k, v in m.d.items()})

    def mcall(self, t):
        recv, name, args, kws = t.a
        if name in ('tolist', 'item') and not args.a:
            return self(recv)
        if name in ('as_matrix',):
            return self.rotation(recv)
        if name == 'apply':
            m = self.rotation(recv)
            v = self(args.a[0])
            inv = {k.a[0]: k.a[1] for k in kws.a}.get('inverse', FALSE)
            if inv is TRUE:
                m = self.getidx_T(m)
            elif inv is not FALSE:
                raise Unsup('inverse')
            lead = self.bshape(m.shape[:-2], v.shape[:-1])
            d = {}
            for ix in indices(lead):
                for i in range(3):
                    d[ix + (i,)] = self.add([sbin('*', self.get(m, lead + (3, 3), ix + (i, k)), self.get(v, lead + (3,), ix + (k,))) for k in range(3)])
            return A(lead + (3,), d)
        raise Unsup(f'method {name}')

    def concat_n(self, xs, axis):
        return self.concat(xs, axis) if len(xs) > 1 else xs[0]

    def seqof(self, t):
        if t.op in ('tuple', 'list'):
            return [self(x) for x in t.a]
        x = self(t)
        if not x.shape or x.shape[0] == 'n':
            raise Unsup('sequence')
        return [self.getidx(x, [const(i)]) for i in range(x.shape[0])]
