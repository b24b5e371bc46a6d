"""Algebraic normal form of scalar terms and the equality decision.

Rational functions over atoms; sines and cosines are expanded to a common unit angle, cos^2 is
eliminated, square roots and fractional powers are atoms with their power reduced.  Conditions are
lifted: two terms are compared under every assignment of the conditions they mention.  A difference
of normal forms is reported only if random interpretation (Gulwani & Necula) of the two value
numbers separates them, so that an incomplete rewrite can never be taken for a difference."""
import math, random, zlib, re
from fractions import Fraction as Fr
from .terms import T, mk, const, NONE, TRUE, FALSE, PI, is_const, cval, show, subterms, rebuild
from .aeval import mkite, mkcall, mkand, mkor, negate, mkcmp


class TooBig(Exception):
    pass


LIMIT = 4000


class Poly:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return Poly({(): Fr(c)}) if c else Poly()

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fr(1)})

    def add(self, o, k=1):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + k * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.d.items()}) if k else Poly()

    def iszero(self):
        return not self.d

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cvalue(self):
        return self.d.get((), Fr(0))

    def key(self):
        return tuple(sorted(self.d.items(), key=lambda x: (len(x[0]), repr(x[0]))))


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items(), key=lambda x: repr(x[0]) if False else x[0]))


class NF:
    """One comparison context: atoms are small ints shared by both sides."""

    def __init__(self):
        self.atoms = {}      # key -> id
        self.info = {}       # id -> key
        self.unit = {}       # angle atom monomial -> Fraction unit
        self.memo = {}
        self.polys, self.modarg, self.inv, self.at2 = {}, {}, {}, {}
        self.reps = []

    def aid(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.atoms) + 1
            self.atoms[key] = i
            self.info[i] = key
        return i

    # ---- reduction of monomials: cos^2 -> 1 - sin^2, sqrt(x)^2 -> x, |x|^2 -> x^2
    def mul(self, p, q):
        if len(p.d) * len(q.d) > LIMIT * 4:
            raise TooBig()
        out = Poly()
        acc = {}
        for m1, c1 in p.d.items():
            for m2, c2 in q.d.items():
                m = mmul(m1, m2)
                acc[m] = acc.get(m, 0) + c1 * c2
        return self.reduce(Poly({m: c for m, c in acc.items() if c}))

    def reduce(self, p):
        for _ in range(200):
            todo = None
            for m in p.d:
                for a, e in m:
                    if e >= 2 and self.info[a][0] in ('cos', 'sqrt', 'abs'):
                        todo = (m, a, e)
                        break
                if todo:
                    break
            if not todo:
                return p
            m, a, e = todo
            d = dict(p.d)
            # rewrite every monomial with a^k, k>=2
            res = {}
            for mm, c in d.items():
                ee = dict(mm).get(a, 0)
                if ee < 2:
                    res[mm] = res.get(mm, 0) + c
                    continue
                rest = tuple((x, y) for x, y in mm if x != a)
                h, r = divmod(ee, 2)
                kind = self.info[a][0]
                if kind == 'cos':
                    s = self.aid(('sin',) + self.info[a][1:])
                    base = Poly({(): Fr(1), ((s, 2),): Fr(-1)})
                elif kind == 'abs':
                    base = self.mulraw(self.info_poly(a), self.info_poly(a))
                else:
                    base = self.info_poly(a)
                q = Poly({rest + (((a, 1),) if r else ()): c})
                q = Poly({tuple(sorted(k)): v for k, v in q.d.items()})
                for _i in range(h):
                    q = self.mulraw(q, base)
                for k, v in q.d.items():
                    res[k] = res.get(k, 0) + v
            p = Poly({k: v for k, v in res.items() if v})
            if len(p.d) > LIMIT:
                raise TooBig()
        raise TooBig()

    def mulraw(self, p, q):
        acc = {}
        for m1, c1 in p.d.items():
            for m2, c2 in q.d.items():
                m = mmul(m1, m2)
                acc[m] = acc.get(m, 0) + c1 * c2
        return Poly({m: c for m, c in acc.items() if c})

    def info_poly(self, a):
        return self.polys[a]

    # ---- rational functions (num, den)
    def rf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rf(t)
            if len(r[0].d) > LIMIT or len(r[1].d) > LIMIT:
                raise TooBig()
            self.memo[t] = r
        return r

    ONE = Poly({(): Fr(1)})

    def radd(self, a, b, k=1):
        if a[1].key() == b[1].key():
            return self.norm(a[0].add(b[0], k), a[1])
        if a[1].isconst() and b[1].isconst():
            return self.norm(a[0].scale(1 / a[1].cvalue()).add(b[0].scale(1 / b[1].cvalue()), k), self.ONE)
        return self.norm(self.mul(a[0], b[1]).add(self.mul(b[0], a[1]), k), self.mul(a[1], b[1]))

    def rmul(self, a, b):
        return self.norm(self.mul(a[0], b[0]), self.mul(a[1], b[1]))

    def rdiv(self, a, b):
        if b[0].iszero():
            if len(a[0].d) == 1 and len(a[1].d) == 1:
                (m, c), = a[0].d.items()
                (m1, c1), = a[1].d.items()
                if {x for x, e in m + m1} <= {self.atoms.get(('pi',)), self.atoms.get(('inf',))}:
                    i = self.fatom(('inf',))
                    return i if c * c1 > 0 else (i[0].scale(-1), self.ONE)
            return (Poly.atom(self.aid(('div0', self.key(a)))), self.ONE)
        return self.norm(self.mul(a[0], b[1]), self.mul(a[1], b[0]))

    def norm(self, n, d):
        inf = self.atoms.get(('inf',))
        if inf is not None and len(n.d) == 1 and len(d.d) == 1:
            (mn, cn), = n.d.items()
            (md, cd), = d.d.items()
            pi = self.atoms.get(('pi',))
            if dict(mn).get(inf) and {a for a, e in mn + md} <= {inf, pi} and not dict(md).get(inf):
                return (Poly({((inf, 1),): Fr(1 if cn * cd > 0 else -1)}), self.ONE)
            if dict(md).get(inf) and {a for a, e in mn + md} <= {inf, pi} and not dict(mn).get(inf):
                return (Poly(), self.ONE)
        """cheap cancellation: common monomial factors and scalar content of the denominator"""
        if n.iszero():
            return (Poly(), self.ONE)
        if d.isconst():
            c = d.cvalue()
            return (n.scale(1 / c), self.ONE) if c != 1 else (n, self.ONE)
        # common monomial
        def common(p):
            it = iter(p.d)
            m = dict(next(it))
            for x in it:
                x = dict(x)
                for k in list(m):
                    e = min(m[k], x.get(k, 0))
                    if e:
                        m[k] = e
                    else:
                        del m[k]
                if not m:
                    break
            return m
        cn, cd = common(n), common(d)
        g = {k: min(e, cd[k]) for k, e in cn.items() if k in cd}
        if g:
            def div(p):
                out = {}
                for m, c in p.d.items():
                    x = dict(m)
                    for k, e in g.items():
                        x[k] -= e
                        if not x[k]:
                            del x[k]
                    out[tuple(sorted(x.items()))] = c
                return Poly(out)
            n, d = div(n), div(d)
        if d.isconst():
            c = d.cvalue()
            return (n.scale(1 / c), self.ONE)
        # proportional numerator and denominator
        if len(n.d) == len(d.d) and set(n.d) == set(d.d):
            m0 = next(iter(d.d))
            q = n.d[m0] / d.d[m0]
            if all(n.d[m] == q * d.d[m] for m in d.d):
                return (Poly.const(q), self.ONE)
        lead = d.d[min(d.d, key=lambda m: (len(m), m))]
        if lead != 1:
            n, d = n.scale(1 / lead), d.scale(1 / lead)
        return (n, d)

    def key(self, r):
        return (r[0].key(), r[1].key())

    def rep(self, r):
        """an earlier rational function equal to r (there is no gcd, so equal ones may look different)"""
        if r[1].isconst():
            return r
        rs = self.reps
        for q in rs:
            if self.equal(q, r):
                return q
        if len(rs) < 64:
            rs.append(r)
        return r

    def akey(self, r):
        return self.key(self.rep(r))

    def equal(self, a, b):
        if self.key(a) == self.key(b):
            return True
        return self.mul(a[0], b[1]).add(self.mul(b[0], a[1]), -1).iszero()

    def fatom(self, key, poly=None):
        i = self.aid(key)
        if poly is not None:
            self.polys[i] = poly
        return (Poly.atom(i), self.ONE)

    def _rf(self, t):
        op, a = t.op, t.a
        if op == 'const':
            v = a[0]
            if isinstance(v, bool):
                return (Poly.const(int(v)), self.ONE)
            if isinstance(v, int):
                return (Poly.const(v), self.ONE)
            if isinstance(v, float):
                if v == float('inf'):
                    return self.fatom(('inf',))
                if v != v or v == float('-inf'):
                    return self.fatom(('x', repr(v)))
                return (Poly.const(Fr(repr(v))), self.ONE)
            return self.fatom(('x', repr(v)))
        if op == 'pi':
            return self.fatom(('pi',))
        if op == 'ext' and a[0] in ('numpy.inf', 'math.inf'):
            return self.fatom(('inf',))
        if op == 'bin':
            o = a[0]
            x = self.rf(a[1])
            if o == '**':
                y = self.rf(a[2])
                if y[0].isconst() and y[1].isconst():
                    return self.power(x, y[0].cvalue() / y[1].cvalue())
                return self.fatom(('pow', self.akey(x), self.akey(y)))
            y = self.rf(a[2])
            if o == '+':
                return self.radd(x, y)
            if o == '-':
                return self.radd(x, y, -1)
            if o == '*':
                return self.rmul(x, y)
            if o == '/':
                return self.rdiv(x, y)
            if o == '%':
                return self.mod(x, y)
            return self.fatom(('bin', o, self.key(x), self.key(y)))
        if op == 'un':
            x = self.rf(a[1])
            return (x[0].scale(-1), x[1])
        if op == 'call':
            return self.call(t)
        if op == 'cumsum':
            cs = conds_of(a[0])
            if not cs:
                return self.linear(self.rf(a[0]), ('cumsum', a[1]))
            groups = {}
            for c in cs:
                groups.setdefault(self.condkey(c), []).append(c)
            keys = sorted(groups, key=repr)
            if len(keys) > 4:
                raise TooBig()
            parts = []
            for bits in range(1 << len(keys)):
                env = {c: bool(bits >> i & 1) for i, k in enumerate(keys) for c in groups[k]}
                parts.append(self.key(self.rf(assign(a[0], env))))
            return self.fatom(('cumsum', a[1], tuple(keys), tuple(parts)))
        if op in ('ite', 'cmp', 'and', 'or', 'not'):
            return self.fatom(('c', self.condkey(t)))
        return self.fatom(('x', t.id))

    def linear(self, r, tag):
        """a linear operator: distributes over sums, constants factor out"""
        if r[1].isconst():
            out = Poly()
            for m, c in r[0].scale(1 / r[1].cvalue()).d.items():
                pure = tuple(x for x in m if self.info[x[0]][0] == 'pi')
                rest = tuple(x for x in m if self.info[x[0]][0] != 'pi')
                at = self.aid(tag + (rest,))
                out = out.add(Poly({tuple(sorted(pure + ((at, 1),))): c}))
            return (out, self.ONE)
        return self.fatom(tag + (self.key(r),))

    def power(self, x, e):
        if e.denominator == 1:
            n = int(e)
            if n == 0:
                return (self.ONE, self.ONE)
            b = x if n > 0 else self.rdiv((self.ONE, self.ONE), x)
            r = b
            for _ in range(abs(n) - 1):
                r = self.rmul(r, b)
            return r
        if e.denominator == 2:
            s = self.sqrt(x)
            return self.power(s, Fr(e.numerator))
        return self.fatom(('powc', self.key(x), e))

    def sqrt(self, x):
        n, d = x
        if n.iszero():
            return (Poly(), self.ONE)
        def one(p):
            # perfect rational squares and even monomials come out
            if len(p.d) == 1:
                (m, c), = p.d.items()
                out = []
                inn = []
                for a, e in m:
                    h, r = divmod(e, 2)
                    if r:
                        inn.append((a, 1))
                    if h:
                        out.append((a, h))
                cs = isqrt(c)
                if cs is None:
                    k, inner_c = Fr(1), c
                else:
                    k, inner_c = cs, Fr(1)
                outp = (Poly({(): k}), self.ONE)
                for a, h in out:
                    # sqrt(x^2) = |x|, unless x is itself non-negative by construction
                    if self.info[a][0] in ('sqrt', 'abs', 'pi'):
                        ab = (Poly.atom(a), self.ONE)
                    else:
                        ab = self.absr((Poly.atom(a), self.ONE))
                    for _ in range(h):
                        outp = self.rmul(outp, ab)
                inner = Poly({tuple(inn): inner_c})
                if inner.isconst() and inner.cvalue() == 1:
                    return outp
                return self.rmul(outp, self.sqatom(inner))
            # even powers common to every term
            ms = [dict(m) for m in p.d]
            ev = {k: min(m.get(k, 0) for m in ms) // 2 * 2 for k in ms[0]}
            ev = {k: e for k, e in ev.items() if e}
            if ev:
                q = Poly({tuple(sorted((k, e - ev.get(k, 0)) for k, e in m if e - ev.get(k, 0))): c for m, c in p.d.items()})
                r = one(q)
                for a, e in ev.items():
                    ab = (Poly.atom(a), self.ONE) if self.info[a][0] in ('sqrt', 'abs', 'pi') else self.absr((Poly.atom(a), self.ONE))
                    for _ in range(e // 2):
                        r = self.rmul(r, ab)
                return r
            # scalar content
            g = abs(next(iter(sorted(p.d.items(), key=lambda x: (len(x[0]), x[0]))))[1])
            cs = isqrt(g)
            if cs is not None and cs != 1:
                return self.rmul((Poly.const(cs), self.ONE), self.sqatom(p.scale(1 / g)))
            return self.sqatom(p)
        if d.isconst():
            return one(n.scale(1 / d.cvalue()))
        # sqrt(n/d) = sqrt(n*d)/|d|
        return self.rdiv(one(n), one(d))

    def sqatom(self, p):
        # x^2 detection: p == q^2 for a linear two-term q is left to random interpretation
        return self.fatom(('sqrt', p.key()), p)

    def absr(self, x):
        n, d = x = self.rep(x)
        if not d.isconst():
            for q in self.reps:
                if self.equal((q[0].scale(-1), q[1]), x):
                    n, d = q
                    break
        def one(p):
            if p.isconst():
                return (Poly.const(abs(p.cvalue())), self.ONE)
            if len(p.d) == 1:
                (m, c), = p.d.items()
                r = (Poly.const(abs(c)), self.ONE)
                for a, e in m:
                    if e % 2 == 0 or self.info[a][0] in ('sqrt', 'abs', 'pi'):
                        r = self.rmul(r, (Poly({((a, e),): Fr(1)}), self.ONE))
                    else:
                        at = self.fatom(('abs', Poly.atom(a).key()), Poly.atom(a))
                        if e > 1:
                            r = self.rmul(r, (Poly({((a, e - 1),): Fr(1)}), self.ONE))
                        r = self.rmul(r, at)
                return r
            lead = p.d[min(p.d, key=lambda m: (len(m), m))]
            q = p.scale(1 / lead)
            return self.rmul((Poly.const(abs(lead)), self.ONE), self.fatom(('abs', q.key()), q))
        if d.isconst():
            return one(n.scale(1 / d.cvalue()))
        return self.rdiv(one(n), one(d))

    def mod(self, x, y):
        # additive multiples of the modulus drop out
        n = x[0]
        if x[1].isconst() and y[1].isconst() and len(y[0].d) == 1:
            n = n.scale(1 / x[1].cvalue())
            (m, c), = y[0].scale(1 / y[1].cvalue()).d.items()
            k = n.d.get(m)
            if k is not None:
                q = k / c
                fl = q.numerator // q.denominator
                d = dict(n.d)
                r = (q - fl) * c
                if r:
                    d[m] = r
                else:
                    d.pop(m)
                n = Poly(d)
            x = (n, self.ONE)
            if len(n.d) == 1:
                (mm, cc), = n.d.items()
                if cc == 1 and len(mm) == 1 and mm[0][1] == 1:
                    k0 = self.info[mm[0][0]]
                    if k0[0] == 'mod' and k0[2] == self.key(y):
                        return (n, self.ONE)
            # a nested mod of the same modulus
            new = Poly()
            ch = False
            for mm, cc in n.d.items():
                if cc.denominator == 1 and len(mm) == 1 and mm[0][1] == 1 and self.info[mm[0][0]][0] == 'mod' and self.info[mm[0][0]][2] == self.key(y):
                    inner = self.modarg[mm[0][0]]
                    if inner[1].isconst():
                        new = new.add(inner[0].scale(cc / inner[1].cvalue()))
                        ch = True
                        continue
                new = new.add(Poly({mm: cc}))
            if ch:
                return self.mod((new, self.ONE), y)
        r = self.fatom(('mod', self.key(x), self.key(y)))
        (m, c), = r[0].d.items()
        self.modarg[m[0][0]] = x
        return r

    def call(self, t):
        name, args, kws = t.a[0], t.a[1].a, t.a[2].a
        if not isinstance(name, str):
            return self.fatom(('x', t.id))
        if name == 'numpy.absolute':
            return self.absr(self.rf(args[0]))
        if name == 'numpy.sqrt':
            return self.sqrt(self.rf(args[0]))
        if name == 'numpy.radians':
            return self.rmul(self.rf(args[0]), (Poly({((self.aid(('pi',)), 1),): Fr(1, 180)}), self.ONE))
        if name == 'numpy.degrees':
            return self.rdiv(self.rf(args[0]), (Poly({((self.aid(('pi',)), 1),): Fr(1, 180)}), self.ONE))
        if name in ('numpy.sin', 'numpy.cos', 'numpy.tan'):
            s, c = self.sincos(self.rf(args[0]))
            return s if name == 'numpy.sin' else c if name == 'numpy.cos' else self.rdiv(s, c)
        if name == 'numpy.hypot':
            x, y = self.rf(args[0]), self.rf(args[1])
            return self.sqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
        if name in ('numpy.maximum', 'numpy.minimum'):
            ks = sorted([self.key(self.rf(x)) for x in args], key=repr)
            if ks[0] == ks[1]:
                return self.rf(args[0])
            return self.fatom((name, tuple(ks)))
        if name == 'numpy.arctan2':
            return self.arctan2(self.rf(args[0]), self.rf(args[1]))
        if name in ('numpy.arcsin', 'numpy.arccos'):
            x = self.rf(args[0])
            r = self.fatom(('f', name, (self.akey(x),)))
            (m, c), = r[0].d.items()
            self.inv[m[0][0]] = x
            return r
        ks = tuple(self.akey(self.rf(x)) for x in args) + tuple((k.a[0], self.akey(self.rf(k.a[1]))) for k in kws)
        return self.fatom(('f', name, ks))

    def nonneg(self, p):
        if len(p.d) != 1:
            return False
        (m, c), = p.d.items()
        return c > 0 and all(e % 2 == 0 or self.info[a][0] in ('sqrt', 'abs', 'pi') for a, e in m)

    def arctan2(self, x, y):
        # a common positive factor of both arguments drops out
        n1, d1, n2, d2 = x[0], x[1], y[0], y[1]
        if d1.key() != d2.key() and self.nonneg(d1) and self.nonneg(d2):
            n1, n2, d1 = self.mul(n1, d2), self.mul(n2, d1), self.ONE
        elif d1.key() == d2.key() and self.nonneg(d1):
            d1 = self.ONE
        else:
            n1 = None
        if n1 is not None:
            ms = list(n1.d) + list(n2.d)
            g = dict(ms[0]) if ms else {}
            for m in ms:
                m = dict(m)
                g = {k: min(e, m[k]) for k, e in g.items() if k in m}
            g = {k: (e if self.info[k][0] in ('sqrt', 'abs', 'pi') else e - e % 2) for k, e in g.items()}
            g = {k: e for k, e in g.items() if e}
            if g:
                def div(p):
                    return Poly({tuple(sorted((k, e - g.get(k, 0)) for k, e in m if e - g.get(k, 0))): c for m, c in p.d.items()})
                n1, n2 = div(n1), div(n2)
            p = n1 if n1.d else n2
            if p.d:
                k = abs(p.d[min(p.d, key=lambda m: (len(m), m))])
                n1, n2 = n1.scale(1 / k), n2.scale(1 / k)
            x, y = (n1, self.ONE), (n2, self.ONE)
        r = self.fatom(('arctan2', self.key(x), self.key(y)))
        (m, c), = r[0].d.items()
        self.at2[m[0][0]] = (x, y)
        return r

    def sincos(self, r):
        one = (self.ONE, self.ONE)
        if not r[1].isconst():
            k = self.akey(r)
            return self.fatom(('sin', k)), self.fatom(('cos', k))
        p = r[0].scale(1 / r[1].cvalue())
        s, c = (Poly(), self.ONE), one
        pi = self.aid(('pi',))
        for m, co in sorted(p.d.items(), key=lambda x: repr(x[0])):
            if m == ((pi, 1),) and (co * 2).denominator == 1:
                q = int(co * 2) % 4
                s1, c1 = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
                s1, c1 = (Poly.const(s1), self.ONE), (Poly.const(c1), self.ONE)
            elif len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == 'mod' and co.denominator == 1 and self._is2pi(self.info[m[0][0]][2]):
                s1, c1 = self.multi(self.sincos(self.modarg[m[0][0]]), int(co))
            elif len(m) == 2 and self._turns(m, co) is not None:
                x = self.modarg[self._turns(m, co)]
                s1, c1 = self.sincos(self.rmul((Poly({((pi, 1),): co}), self.ONE), x))
            elif len(m) == 1 and m[0][1] == 1 and co in (1, -1) and self.info[m[0][0]][0] == 'f' and self.info[m[0][0]][1] in ('numpy.arcsin', 'numpy.arccos') and m[0][0] in self.inv:
                x = self.inv[m[0][0]]
                o = self.sqrt(self.radd(one, self.rmul(x, x), -1))
                s1, c1 = (x, o) if self.info[m[0][0]][1] == 'numpy.arcsin' else (o, x)
                if co == -1:
                    s1 = (s1[0].scale(-1), s1[1])
            elif len(m) == 1 and m[0][1] == 1 and co.denominator == 1 and m[0][0] in self.at2:
                x, y = self.at2[m[0][0]]
                h = self.sqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
                s1, c1 = self.multi((self.rdiv(x, h), self.rdiv(y, h)), int(co))
            else:
                u = self.unit.get(m, Fr(1))
                q = co / u
                if q.denominator != 1:
                    self.unit[m] = u / q.denominator
                    raise Restart()
                k = int(q)
                sa, ca = self.fatom(('sin', m)), self.fatom(('cos', m))
                s1, c1 = self.multi((sa, ca), k)
            s, c = (self.radd(self.rmul(s, c1), self.rmul(c, s1)), self.radd(self.rmul(c, c1), self.rmul(s, s1), -1))
        return s, c

    def _turns(self, m, co):
        """pi * co * (x mod M) with co * M a whole number of turns -> the mod atom"""
        pi = self.aid(('pi',))
        if (pi, 1) not in m:
            return None
        (a, e), = [f for f in m if f[0] != pi] or [(None, 0)]
        if e != 1 or self.info[a][0] != 'mod':
            return None
        n, d = self.info[a][2]
        if d != self.ONE.key() or len(n) != 1 or a not in self.modarg:
            return None
        (mm, c), = n
        return a if mm == () and (co * c / 2).denominator == 1 else None

    def _is2pi(self, key):
        pi = self.aid(('pi',))
        return key == (Poly({((pi, 1),): Fr(2)}).key(), self.ONE.key())

    def multi(self, sc, k):
        neg = k < 0
        k = abs(k)
        if k > 12:
            raise TooBig()
        s, c = (Poly(), self.ONE), (self.ONE, self.ONE)
        for _ in range(k):
            s, c = (self.radd(self.rmul(s, sc[1]), self.rmul(c, sc[0])), self.radd(self.rmul(c, sc[1]), self.rmul(s, sc[0]), -1))
        if neg:
            s = (s[0].scale(-1), s[1])
        return s, c

    # ---- conditions
    def condkey(self, c):
        if c.op == 'not':
            return ('not', self.condkey(c.a[0]))
        if c.op in ('and', 'or'):
            return (c.op, tuple(sorted((self.condkey(x) for x in c.a), key=repr)))
        if c.op == 'cmp' and c.a[0] in ('==', '<') and not (is_const(c.a[2]) and isinstance(cval(c.a[2]), (str, bool, type(None)))):
            x = self.radd(self.rf(c.a[1]), self.rf(c.a[2]), -1)
            if x[1].isconst():
                n = x[0].scale(1 / x[1].cvalue())
                if n.isconst():
                    v = n.cvalue()
                    return ('k', (v == 0) if c.a[0] == '==' else (v < 0))
                lead = n.d[min((m for m in n.d if m != ()), key=lambda m: (len(m), m))]
                if c.a[0] == '==':
                    return ('eq', n.scale(1 / lead).key())
                return ('lt', n.scale(1 / abs(lead)).key())
            return (c.a[0], self.key(x))
        if c.op == 'ite':
            return ('ite', self.condkey(c.a[0]), self.key(self.rf(c.a[1])) if c.a[1].op not in ('cmp',) else self.condkey(c.a[1]), self.key(self.rf(c.a[2])) if c.a[2].op not in ('cmp',) else self.condkey(c.a[2]))
        if c.op == 'const':
            return ('k', bool(c.a[0]))
        return ('t', c.id)


class Restart(Exception):
    pass


def isqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fr(n, d)
    return None


# ---------------------------------------------------------------- conditions of a term
def top_subterms(t):
    """subterms outside running sums (a condition inside a running sum is not a condition of the term)"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op != 'cumsum':
            stack.extend(y for y in x.a if isinstance(y, T))
    return seen


def conds_of(t):
    out = []
    for x in sorted(top_subterms(t), key=lambda x: x.id):
        if x.op == 'ite':
            for c in leaves(x.a[0]):
                if c not in out:
                    out.append(c)
    return out


def leaves(c):
    if c.op == 'not':
        return leaves(c.a[0])
    if c.op in ('and', 'or'):
        return [y for x in c.a for y in leaves(x)]
    if c.op == 'ite':
        return [y for x in c.a for y in leaves(x)]
    if is_const(c):
        return []
    return [c]


def assign(t, env):
    """replace condition leaves by constants and simplify"""
    def f(x):
        if x in env:
            return const(env[x])
        if x.op == 'ite':
            return mkite(*x.a)
        if x.op == 'not':
            return negate(x.a[0])
        if x.op == 'and':
            return mkand(list(x.a))
        if x.op == 'or':
            return mkor(list(x.a))
        return None
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'cumsum':
            z = x
        else:
            ch = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            y = x if all(p is q for p, q in zip(ch, x.a)) else mk(x.op, *ch)
            z = f(y)
            z = y if z is None else z
        memo[x] = z
        return z
    return go(t)


def is_choice(c):
    """a test of one value against one of several exclusive constants"""
    if c.op != 'cmp' or not is_const(c.a[2]):
        return False
    v = cval(c.a[2])
    return c.a[0] == 'is' or (c.a[0] == '==' and (v is None or isinstance(v, (str, bool))))


def pools_of(*ts):
    out = {}
    for t in ts:
        for x in sorted(subterms(t), key=lambda x: x.id):
            if is_choice(x) and x.a[2] not in out.setdefault(x.a[1], []):
                out[x.a[1]].append(x.a[2])
    return out


# ---------------------------------------------------------------- random interpretation of value numbers
MODELLED = {'numpy.' + x for x in ('sin cos tan arcsin arccos arctan arctan2 sqrt absolute radians degrees hypot maximum minimum fmax fmin clip exp log log10 sign copysign isnan floor ceil '
                                   'nan_to_num').split()} | {'isinstance', 'len', 'hasattr', 'bool', 'all', 'any', 'numpy.all', 'numpy.any', 'numpy.array_equal'}


class Interp:
    def __init__(self, seed, ranges=None, pools=None, row=None, blend=None, scale=None):
        self.scale = scale  # factor on quantities without a stated range
        self.blend = blend  # values of one kind (inc1 and inc2, a station and its neighbour) differ by this fraction only
        self.row = row      # which station the value is taken at: None for an inner one
        self.rnd = random.Random(seed)
        self.seed = seed
        self.ranges = ranges or (lambda t: None)
        self.vals = {}
        self.memo = {}
        self.special = None
        self.pools = pools or {}

    def atom(self, t):
        if self.special is not None:
            v = self.special(t)
            if v is not None:
                return v
        if t not in self.vals:
            r = self.ranges(t) or (0.15, 2.9)
            h = zlib.crc32(f'{self.seed}:{show(t, 40)}'.encode()) / 2**32
            v = r(h) if callable(r) else r[0] + h * (r[1] - r[0])
            if self.scale and self.ranges(t) is None:
                v *= self.scale
            if self.blend is not None:
                g = zlib.crc32(f'{self.seed}:{kind(t)}'.encode()) / 2**32
                q = r(g) if callable(r) else r[0] + g * (r[1] - r[0])
                if callable(r) and t.op in ('el', 'elat'):
                    return self.vals.setdefault(t, v)
                v = q + self.blend * (v - q)
            self.vals[t] = v
        return self.vals[t]

    def hashf(self, *k):
        return 0.2 + 2.5 * (zlib.crc32(f'{self.seed}:{k!r}'.encode()) / 2**32)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.ev(t)
            self.memo[t] = r
        return r

    def ev(self, t):
        op, a = t.op, t.a
        if op == 'const':
            return float(a[0]) if isinstance(a[0], (int, float)) else self.hashf(a[0])
        if op == 'pi':
            return math.pi
        if op == 'ext':
            if a[0] in ('numpy.inf', 'math.inf'):
                return float('inf')
            if a[0] in ('numpy.nan', 'math.nan'):
                return float('nan')
        if op == 'bin':
            x, y = self(a[1]), self(a[2])
            try:
                if a[0] == '+':
                    return x + y
                if a[0] == '-':
                    return x - y
                if a[0] == '*':
                    return x * y
                if a[0] == '/':
                    return x / y
                if a[0] == '**':
                    r = x ** y
                    return r if not isinstance(r, complex) else float('nan')
                if a[0] == '%':
                    return x % y
                if a[0] == '//':
                    return float(x // y)
            except (ZeroDivisionError, OverflowError, ValueError):
                return float('nan')
            return self.hashf(a[0], rd(x), rd(y))
        if op == 'un':
            return -self(a[1])
        if op == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        if op == 'not':
            return not self(a[0])
        if op == 'and':
            return all(self(x) for x in a)
        if op == 'or':
            return any(self(x) for x in a)
        if op in ('ieq', 'ilast'):
            j = a[0] if isinstance(a[0], int) else None
            return j is not None and self.row is not None and self.row == (j if op == 'ieq' else -1 - j)
        if op == 'el' and self.row is not None and isinstance(a[1], int) and (self.row >= 0) == (self.row + a[1] >= 0):
            return self(mk('elat', a[0], self.row + a[1]))
        if op == 'cmp':
            if is_choice(t):
                pool = self.pools.get(a[1], [a[2]])
                k = zlib.crc32(f'{self.seed}:{show(a[1], 40)}'.encode()) % (len(pool) + 1)
                return k < len(pool) and pool[k] is a[2]
            if a[0] in ('==', '<'):
                x, y = self(a[1]), self(a[2])
                return x == y if a[0] == '==' else x < y
            return zlib.crc32(f'{self.seed}:{show(t, 40)}'.encode()) % 2 == 0
        if op == 'cumsum':
            # a linear operator: sum of the argument over a few shifted stations
            return self.hash_linear(a[0], a[1])
        if op == 'call' and isinstance(a[0], str):
            n = a[0]
            xs = [self(x) for x in a[1].a]
            try:
                if n == 'numpy.sin':
                    return math.sin(xs[0])
                if n == 'numpy.cos':
                    return math.cos(xs[0])
                if n == 'numpy.tan':
                    return math.tan(xs[0])
                if n == 'numpy.arcsin':
                    return math.asin(max(-1, min(1, xs[0]))) if abs(xs[0]) < 1 + 1e-9 else self.hashf(n, rd(xs[0]))
                if n == 'numpy.arccos':
                    return math.acos(max(-1, min(1, xs[0]))) if abs(xs[0]) < 1 + 1e-9 else self.hashf(n, rd(xs[0]))
                if n == 'numpy.arctan':
                    return math.atan(xs[0])
                if n == 'numpy.arctan2':
                    return math.atan2(xs[0], xs[1])
                if n == 'numpy.sqrt':
                    return math.sqrt(xs[0]) if xs[0] >= 0 else float('nan')
                if n == 'numpy.absolute':
                    return abs(xs[0])
                if n == 'numpy.radians':
                    return math.radians(xs[0])
                if n == 'numpy.degrees':
                    return math.degrees(xs[0])
                if n == 'numpy.hypot':
                    return math.hypot(*xs)
                if n in ('numpy.maximum', 'numpy.fmax'):
                    return max(xs)
                if n in ('numpy.minimum', 'numpy.fmin'):
                    return min(xs)
                if n == 'numpy.clip':
                    return min(max(xs[0], xs[1]), xs[2])
                if n == 'numpy.exp':
                    return math.exp(min(xs[0], 50))
                if n == 'numpy.log10':
                    return math.log10(xs[0]) if xs[0] > 0 else float('nan') if xs[0] < 0 else float('-inf')
                if n == 'numpy.log':
                    return math.log(xs[0])
                if n == 'numpy.sign':
                    return (xs[0] > 0) - (xs[0] < 0)
                if n == 'numpy.copysign':
                    return math.copysign(xs[0], xs[1])
                if n in ('numpy.isnan',):
                    return xs[0] != xs[0]
                if n == 'numpy.floor':
                    return math.floor(xs[0])
                if n == 'numpy.ceil':
                    return math.ceil(xs[0])
            except (ValueError, OverflowError):
                return float('nan')
            if n in ('numpy.nan_to_num',) and len(xs) == 1:
                return 0.0 if xs[0] != xs[0] else xs[0]
            return self.hashf(n, *[rd(x) if isinstance(x, float) else x for x in xs], *[(k.a[0], rd(self(k.a[1]))) for k in a[2].a])
        return self.atom(t)

    def hash_linear(self, t, off):
        s = 0.0
        for j in range(3):
            u = _shift_atoms(t, off, j)
            s += (j + 1) * self(u)
        return s


def _shift_atoms(t, off, j):
    return rebuild(t, lambda x: mk('el', x.a[0], x.a[1] + 100 * (off + 1) + j) if x.op == 'el' else (const(x.a[0] == off + j) if x.op == 'ieq' else (mkite(*x.a) if x.op == 'ite' else None)))


def kind(t):
    """name of a quantity without its station: inc1 and inc2, el(inc, 0) and el(inc, -1) are of one kind"""
    return re.sub(r'-?\d+', '', show(t, 40))


def rd(x):
    if isinstance(x, bool) or x != x or x in (float('inf'), float('-inf')):
        return str(x)
    return f'{x:.7e}'


def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if x != x and y != y:
        return True
    if x != x or y != y:
        return None
    if x == y:
        return True
    return abs(x - y) <= 1e-7 * max(1e-6, abs(x), abs(y))


def undefined_tests(t):
    """isnan of a choice is the choice of isnan; x/|x| is undefined exactly where x is 0"""
    def nan(x):
        if x.op == 'ite':
            return mkite(x.a[0], nan(x.a[1]), nan(x.a[2]))
        if is_const(x):
            return const(cval(x) != cval(x))
        if x.op == 'bin' and x.a[0] == '/' and x.a[2] is mkcall('numpy.absolute', [x.a[1]]):
            return mk('cmp', '==', x.a[1], const(0))
        return mkcall('numpy.isnan', [x])
    if not any(x.op == 'call' and x.a[0] == 'numpy.isnan' and x.a[1].a[0].op in ('ite', 'bin', 'const') for x in subterms(t)):
        return t
    return rebuild(t, lambda x: nan(x.a[1].a[0]) if x.op == 'call' and x.a[0] == 'numpy.isnan' else None)


def choose_extreme(t):
    """the smaller or larger of two values, written as a choice"""
    def f(x):
        if x.op == 'ite' and x.a[0].op == 'cmp' and x.a[0].a[0] == '<':
            a, b = x.a[0].a[1:]
            if a is not b and (x.a[1], x.a[2]) == (a, b):
                return mkcall('numpy.minimum', [a, b])
            if a is not b and (x.a[1], x.a[2]) == (b, a):
                return mkcall('numpy.maximum', [a, b])
        return None
    return rebuild(t, f) if any(x.op == 'ite' and x.a[0].op == 'cmp' for x in subterms(t)) else t


def compare(s, t, ranges=None, maxconds=9, points=24, special=()):
    """code term s against specification term t -> ('equal', None) | ('differ', info) | ('unknown', reason)

    special: extra interpretations, each a function(atom) -> value or None; points of the intended domain at
    which the specification is defined, so a code value that is undefined there differs."""
    if s is t:
        return 'equal', None
    s, t = choose_extreme(undefined_tests(s)), choose_extreme(undefined_tests(t))
    cs, ct = conds_of(s), conds_of(t)
    nf = None
    for _ in range(12):
        try:
            if nf is None:
                nf = NF()
            else:
                u = nf.unit
                nf = NF()
                nf.unit = u
            nf.polys, nf.modarg, nf.inv = {}, {}, {}
            return _compare(nf, s, t, cs, ct, ranges, maxconds, points, special)
        except Restart:
            # angle units changed: sin/cos atoms stand for m*unit
            continue
        except TooBig:
            return _by_points(s, t, ranges, points, special, 'normal form too large')
        except RecursionError:
            return 'unknown', 'depth'
    return _by_points(s, t, ranges, points, special, 'angle units')


def _separate(s, t, ranges, tries, special):
    pools = pools_of(s, t)
    rows = [None] + sorted({x.a[0] if x.op == 'ieq' else -1 - x.a[0] for y in (s, t) for x in subterms(y) if x.op in ('ieq', 'ilast') and isinstance(x.a[0], int)})
    for p in range(tries):
        I = Interp(p + 1, ranges, pools, rows[p % len(rows)])
        x, y = I(s), I(t)
        if close(x, y) is False:
            return x, y
    for k, f in enumerate(special):
        for p in range(3):
            I = Interp(1000 + 10 * k + p, ranges, pools)
            I.special = f
            y, x = I(t), I(s)
            if y != y or y in (float('inf'), float('-inf')):
                continue
            c = close(x, y)
            if c is False or c is None:
                return x, y
    return None


def _degenerate(s, t, ranges, points, diff):
    """a point near coinciding stations, in a case whose normal forms differ, that separates the two sides"""
    pools = pools_of(s, t)
    for eps in (0.1, 0.03, 0.01, 0.003, 0.001):
        for p in range(points):
            I = Interp(p + 1, ranges, pools, None, *((eps, None) if p % 2 else (None, eps)))
            try:
                x, y = I(s), I(t)
            except RecursionError:
                return None
            if x != x or y != y or close(x, y) is not False or abs(x - y) <= 1e-6 * max(1e-6, abs(x), abs(y)):
                continue
            for env, kenv, a, b in diff:
                if all(I(c) == v for c, v in env.items()):
                    return [('' if v else 'not ') + show(c) for c, v in env.items()], a, b, (x, y)
    return None


def _near(s, t, ranges, points):
    """a point beside a positive limit that only the code compares a quantity with, where the two sides are well apart"""
    pools = pools_of(s, t)
    ours = set(subterms(t))
    for c in sorted((x for x in set(subterms(s)) if x.op == 'cmp' and x not in ours), key=lambda x: x.id)[:8]:
        if c.a[0] not in ('<', '==') or not any(is_const(x) and isinstance(cval(x), (int, float)) and cval(x) >= 1e-3 for x in c.a[1:3]):
            continue
        u, k = (c.a[1], c.a[2]) if is_const(c.a[2]) else (c.a[2], c.a[1])
        k = float(cval(k))
        if u.op not in ('sym', 'el', 'elat', 'attr', 'idx', 'comp_of'):
            continue
        r = (ranges or (lambda t: None))(u)
        for v in (0.9 * k, 0.5 * k, 1.1 * k):
            if r is not None and not callable(r) and v > r[1]:
                continue
            for p in range(points):
                I = Interp(p + 1, ranges, pools)
                I.special = lambda x: v if x is u or x.op in ('el', 'elat') and u.op == x.op and x.a[0] is u.a[0] else None
                try:
                    x, y = I(s), I(t)
                except RecursionError:
                    return None
                if x == x and y == y and abs(x) < 1e30 and abs(y) < 1e30 and abs(x - y) > 1e-4 * max(1e-3, abs(x), abs(y)):
                    return [f'{show(u)} = {v:.4g}'], s, t, (x, y)
    return None


def _by_points(s, t, ranges, points, special, why):
    r = _separate(s, t, ranges, points, special)
    if r:
        return 'differ', ([], s, t, r)
    return 'unknown', why


def _interval(key):
    """('eq'|'lt', polykey) -> (form, kind, threshold): form == / < / > threshold"""
    d = dict(key[1])
    c = d.pop((), 0)
    if not d:
        return None
    lead = min(d, key=lambda m: (len(m), m))
    k = d[lead]
    form = tuple(sorted((m, v / k) for m, v in d.items()))
    thr = -c / k
    if key[0] == 'eq':
        return form, '==', thr
    return form, '<' if k > 0 else '>', thr


def consistent(env):
    """env: condkey -> bool; False when two comparisons of one quantity contradict each other"""
    lo, hi, eq, ne = {}, {}, {}, {}
    for key, b in env.items():
        if key[0] not in ('eq', 'lt'):
            continue
        r = _interval(key)
        if r is None:
            continue
        form, op, thr = r
        if op == '==':
            if b:
                if eq.setdefault(form, thr) != thr:
                    return False
            else:
                ne.setdefault(form, set()).add(thr)
            continue
        if not b:
            op = '>=' if op == '<' else '<='
        if op in ('<', '<='):
            v = (thr, op == '<')
            if form not in hi or (v[0], not v[1]) < (hi[form][0], not hi[form][1]):
                hi[form] = v
        else:
            v = (thr, op == '>')
            if form not in lo or (v[0], v[1]) > (lo[form][0], lo[form][1]):
                lo[form] = v
    for form in set(lo) | set(hi) | set(eq):
        l, h = lo.get(form), hi.get(form)
        if form in eq:
            e = eq[form]
            if e in ne.get(form, ()):
                return False
            if l and (e < l[0] or (e == l[0] and l[1])):
                return False
            if h and (e > h[0] or (e == h[0] and h[1])):
                return False
        if l and h:
            if l[0] > h[0] or (l[0] == h[0] and (l[1] or h[1])):
                return False
            if l[0] == h[0] and l[0] in ne.get(form, ()):
                return False
    return True


LEAF = ('sym', 'el', 'elat', 'attr', 'idx', 'comp_of')


def solve(t, rhs):
    """a leaf of t and its value where t == rhs"""
    if t.op in LEAF:
        return None if any(x is t for x in subterms(rhs)) else (t, rhs)
    if t.op == 'bin' and t.a[0] in '+-':
        x, y = t.a[1], t.a[2]
        return solve(x, mk('bin', '-' if t.a[0] == '+' else '+', rhs, y)) or solve(y, mk('bin', '-', rhs, x) if t.a[0] == '+' else mk('bin', '-', x, rhs))
    if t.op == 'bin' and t.a[0] == '*':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_const(y) and cval(y):
                return solve(x, mk('bin', '/', rhs, y))
    if t.op == 'call' and t.a[0] == 'numpy.radians':
        return solve(t.a[1].a[0], mkcall('numpy.degrees', [rhs]))
    if t.op == 'call' and t.a[0] == 'numpy.degrees':
        return solve(t.a[1].a[0], mkcall('numpy.radians', [rhs]))
    return None


def _equal_where(nf, env, a, b):
    """equal once the equalities assumed in this case are used to eliminate a leaf"""
    subs = {}
    for c, v in env.items():
        if v and c.op == 'cmp' and c.a[0] == '==' and not is_choice(c):
            r = solve(c.a[1], c.a[2]) or solve(c.a[2], c.a[1])
            if r and r[0] not in subs and not any(x in subs for x in subterms(r[1])) and not any(r[0] in set(subterms(y)) for y in subs.values()):
                subs[r[0]] = r[1]
    if not subs:
        return False
    f = lambda x: subs.get(x)
    try:
        return nf.equal(nf.rf(rebuild(a, f)), nf.rf(rebuild(b, f)))
    except ZeroDivisionError:
        return False


def at_row(t, env):
    """in the first or last rows, station-relative reads name the same quantity as reads at a fixed position"""
    row = next((c.a[0] for c, b in env.items() if b and c.op == 'ieq'), None)
    if row is None:
        row = next((-1 - c.a[0] for c, b in env.items() if b and c.op == 'ilast' and isinstance(c.a[0], int)), None)
    if row is None:
        return t

    def f(x):
        if x.op == 'el' and isinstance(x.a[1], int):
            j = row + x.a[1]
            if (row >= 0) == (j >= 0):
                return mk('elat', x.a[0], j)
        return None
    return rebuild(t, f)


def _compare(nf, s, t, cs, ct, ranges, maxconds, points, special):
    groups = {}
    for c in cs + ct:
        groups.setdefault(nf.condkey(c), []).append(c)
    keys = list(groups)
    if len(keys) > maxconds:
        r = _separate(s, t, ranges, points * 8, special)
        if r:
            return 'differ', ([], s, t, r)
        return 'unknown', f'{len(keys)} conditions'
    ks, kt = {nf.condkey(c) for c in cs}, {nf.condkey(c) for c in ct}
    same = ks == kt
    diff = []
    n = 0
    for bits in range(1 << len(keys)):
        env, ok = {}, True
        kenv = {}
        for i, k in enumerate(keys):
            b = bool(bits >> i & 1)
            kenv[k] = b
            if k[0] == 'k' and k[1] != b:
                ok = False
            for c in groups[k]:
                env[c] = b
        if sum(1 for c, b in env.items() if b and c.op == 'ieq') > 1 or sum(1 for c, b in env.items() if b and c.op == 'ilast' and isinstance(c.a[0], int)) > 1:
            continue
        # string/option equalities: x == 'a' and x == 'b' exclude each other
        seen = {}
        for c, b in env.items():
            if b and is_choice(c):
                if seen.setdefault(c.a[1], c.a[2]) is not c.a[2]:
                    ok = False
        if not ok or not consistent(kenv):
            continue
        n += 1
        a, b = assign(s, env), assign(t, env)
        if a is not b:
            a, b = at_row(a, env), at_row(b, env)
        if a is b:
            continue
        if not nf.equal(nf.rf(a), nf.rf(b)) and not _equal_where(nf, env, a, b):
            diff.append((env, kenv, a, b))
    if not diff:
        return 'equal', n
    r = _separate(s, t, ranges, points * (1 if same else 12), special)
    if r:
        return 'differ', ([], s, t, r)
    if same:
        for env, kenv, a, b in diff:
            fix = {}
            if any(k[0] == 'eq' and v for k, v in kenv.items()):
                # only where the equality pins an atom, or both sides are constants
                free = False
                for c, v in env.items():
                    if v and c.op == 'cmp' and c.a[0] == '==' and nf.condkey(c)[0] == 'eq':
                        if c.a[1].op in ('sym', 'el', 'elat', 'attr', 'idx', 'comp_of') and is_const(c.a[2]):
                            fix[c.a[1]] = float(cval(c.a[2]))
                        else:
                            free = True
                if free and not (nf.rf(a)[0].isconst() and nf.rf(b)[0].isconst()):
                    continue
            # points where the case's inequalities hold, when any are found
            ineq = [(c, v) for c, v in env.items() if c.op == 'cmp' and c.a[0] == '<']
            sep, tot, first = 0, 0, None
            hits = []
            for p in range(points):
                I = Interp(p + 1, ranges, pools_of(a, b))
                I.special = fix.get
                x, y = I(a), I(b)
                c = close(x, y)
                if c is None:
                    continue
                hits.append((all(bool(I(q)) == v for q, v in ineq), c, (x, y)))
            if any(h[0] for h in hits):
                hits = [h for h in hits if h[0]]
            for _, c, xy in hits:
                tot += 1
                if not c:
                    sep += 1
                    first = first or xy
            if sep and sep * 2 > tot:
                on = [('' if v else 'not ') + show(c) for c, v in env.items()]
                return 'differ', (on, a, b, first)
        r = _near(s, t, ranges, points)
        if r:
            return 'differ', r
        return 'unknown', 'normal forms differ but no point separates them'
    r = _degenerate(s, t, ranges, points, diff) or _near(s, t, ranges, points)
    if r:
        return 'differ', r
    return 'unknown', 'conditions differ but no point separates them'
