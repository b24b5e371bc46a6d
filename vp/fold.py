"""Constant folding: the value a value-numbered expression takes when its leaves are constants.

Nothing of the analysed program is run: the term was obtained by value numbering and is reduced with Python's own
arithmetic, regular-expression and formatting rules for a closed list of operations.  Anything else raises Cannot."""
import itertools
import math
import re

from .terms import T, const, mk, subterms


class Cannot(Exception):
    pass


class Raises(Exception):
    """the operation fails for these constants"""


class Vec(tuple):
    """a row of numbers with element-wise arithmetic"""
    def _two(self, o, f):
        return Vec(f(x, y) for x, y in zip(self, o)) if isinstance(o, (tuple, list)) else Vec(f(x, o) for x in self)

    def __add__(self, o):
        return self._two(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._two(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._two(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._two(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._two(o, lambda x, y: x / y)

    def __pow__(self, o):
        return self._two(o, lambda x, y: x ** y)

    def __neg__(self):
        return Vec(-x for x in self)


class Rec:
    """an object whose attributes are given constants"""
    def __init__(self, **fields):
        self.fields = fields


def norm(v, axis=None):
    if not isinstance(v, (tuple, list)) or not all(isinstance(x, (int, float)) for x in v):
        raise Cannot('norm of something else than a row of numbers')
    return math.sqrt(sum(x * x for x in v))


FUN = {'int': int, 'float': float, 'abs': abs, 'round': round, 'divmod': divmod, 'len': len, 'str': str, 'bool': bool, 'min': min, 'max': max, 'sum': sum,
       'numpy.absolute': abs, 'numpy.abs': abs, 'numpy.fabs': abs, 'numpy.copysign': math.copysign, 'math.copysign': math.copysign, 'math.floor': math.floor, 'numpy.floor': lambda x: float(math.floor(x)),
       'math.fabs': abs, 'math.trunc': math.trunc, 'numpy.trunc': lambda x: math.copysign(math.trunc(x), x), 'math.modf': math.modf, 'math.fmod': math.fmod, 'numpy.fmod': math.fmod,
       'numpy.divmod': divmod, 'numpy.sign': lambda x: float((x > 0) - (x < 0)), 'numpy.round': round, 'numpy.around': round, 'numpy.signbit': lambda x: math.copysign(1, x) < 0,
       'tuple': tuple, 'list': list, 'operator.neg': lambda x: -x, 'numpy.array': lambda x: x, 'numpy.asarray': lambda x: x, 'numpy.mod': lambda a, b: a % b, 'numpy.floor_divide': lambda a, b: a // b,
       'numpy.linalg.norm': norm, 'numpy.arctan2': math.atan2, 'math.atan2': math.atan2, 'numpy.degrees': math.degrees, 'math.degrees': math.degrees, 'numpy.rad2deg': math.degrees,
       'numpy.radians': math.radians, 'math.radians': math.radians, 'numpy.sqrt': math.sqrt, 'math.sqrt': math.sqrt, 'numpy.hypot': math.hypot, 'math.hypot': math.hypot, 'numpy.sum': sum,
       'numpy.square': lambda x: x * x, 'math.dist': math.dist, 'numpy.subtract': lambda a, b: a - b, 'numpy.dot': lambda a, b: sum(x * y for x, y in zip(a, b)), 'numpy.remainder': lambda a, b: a % b,
       'numpy.isclose': lambda a, b: abs(a - b) <= 1e-8 + 1e-5 * abs(b), 'math.isclose': math.isclose}
EXT = {'numpy.inf': math.inf, 'math.inf': math.inf, 'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.nan': math.nan}
BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b, '**': lambda a, b: a ** b}
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       'is': lambda a, b: a is b or a is None and b is None, 'is not': lambda a, b: not (a is b), 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}
TEXT = {'strip', 'lstrip', 'rstrip', 'split', 'upper', 'lower', 'replace', 'startswith', 'endswith', 'isdigit', 'format', 'join', 'title'}
MATCH = {'group', 'groups', 'groupdict'}
ATTR = {'IGNORECASE': re.I, 'I': re.I, 'VERBOSE': re.X, 'X': re.X, 'MULTILINE': re.M, 'M': re.M}


def fold(t, env, exc=None):
    memo = {}

    def go(x):
        if x not in memo:
            memo[x] = one(x)
        return memo[x]

    def call(f, *a, **k):
        try:
            return f(*a, **k)
        except (ValueError, TypeError, ZeroDivisionError, IndexError, KeyError, AttributeError, OverflowError) as e:
            raise Raises(str(e))

    def one(x):
        if x in env:
            return env[x]
        op, a = x.op, x.a
        if op == 'const':
            return a[0]
        if op == 'undef':
            raise Raises('undefined')
        if op == 'pi':
            return math.pi
        if op in ('tuple', 'list'):
            return tuple(go(y) for y in a) if op == 'tuple' else [go(y) for y in a]
        if op == 'ite':
            return go(a[1]) if go(a[0]) else go(a[2])
        if op == 'exc' and exc is not None:
            return exc.get(x, False)
        if op == 'bin' and a[0] in BIN:
            return call(BIN[a[0]], go(a[1]), go(a[2]))
        if op == 'cmp' and a[0] in CMP:
            return call(CMP[a[0]], go(a[1]), go(a[2]))
        if op == 'not':
            return not go(a[0])
        if op == 'un' and a[0] in '+-':
            return call((lambda v: -v) if a[0] == '-' else (lambda v: +v), go(a[1]))
        if op in ('and', 'or'):
            v = None
            for y in a:
                v = go(y)
                if bool(v) == (op == 'or'):
                    return v
            return v
        if op == 'ext' and a[0].startswith('re.') and a[0][3:] in ATTR:
            return ATTR[a[0][3:]]
        if op == 'ext' and a[0] in EXT:
            return EXT[a[0]]
        if op == 'attr':
            o = go(a[0])
            if isinstance(o, Rec) and a[1] in o.fields:
                return o.fields[a[1]]
            if a[1] == 'T' and isinstance(o, (list, tuple)) and o and all(isinstance(y, (list, tuple)) for y in o):
                return [Vec(y) for y in zip(*o)]
            raise Cannot(f'attribute {a[1]}')
        if op == 'slice':
            return slice(*[go(y) for y in a])
        if op == 'idx':
            return call(lambda o, i: o[i], go(a[0]), go(a[1]))
        if op == 'fstr':
            return ''.join(y if isinstance(y, str) else go(y) for y in a)
        if op == 'fmt':
            return call(format, go(a[0]), a[1] if isinstance(a[1], str) else go(a[1]))
        if op == 'call' and a[0] in ('isinstance',):
            names = {y.a[0] for y in subterms(a[1].a[1]) if y.op == 'ext'}
            kinds = {'numpy.ndarray': (), 'float': (float,), 'int': (int,), 'str': (str,), 'tuple': (tuple,), 'list': (list,), 'bool': (bool,), 'numbers.Number': (int, float), 'numbers.Real': (int, float)}
            if not names or names - set(kinds):
                raise Cannot('isinstance')
            return isinstance(go(a[1].a[0]), tuple(k for n in names for k in kinds[n]))
        if op == 'call' and isinstance(a[0], str):
            ar = [go(y) for y in a[1].a]
            if a[0].startswith('re.') and a[0][3:] in ('compile', 'findall', 'search', 'match', 'fullmatch', 'split', 'sub') and not a[2].a:
                return call(getattr(re, a[0][3:]), *ar)
            if a[0] in FUN and all(k.a[0] in ('dtype',) or k.a[0] == 'axis' and a[0] == 'numpy.linalg.norm' for k in a[2].a):
                return call(FUN[a[0]], *ar)
        if op == 'mcall' and not a[3].a:
            o, ar = go(a[0]), [go(y) for y in a[2].a]
            if isinstance(o, re.Pattern) and a[1] in ('findall', 'search', 'match', 'fullmatch', 'split', 'sub') or isinstance(o, re.Match) and a[1] in MATCH or isinstance(o, str) and a[1] in TEXT:
                return call(getattr(o, a[1]), *ar)
        raise Cannot(op if op not in ('call', 'mcall', 'bin') else f'{op} {a[1] if op == "mcall" else a[0]}')
    return go(t)


def folds(t, env):
    """the values the term takes over the ways its exception tests may go; undefined names make a way impossible"""
    tests = sorted({x for x in subterms(t) if x.op == 'exc'})
    if len(tests) > 5:
        raise Cannot('too many exception tests')
    out, why = [], None
    for way in itertools.product((False, True), repeat=len(tests)):
        try:
            out.append(fold(t, env, dict(zip(tests, way))))
        except Raises as e:
            out.append(e)
        except Cannot as e:
            why = e
            out.append(e)
    if all(isinstance(x, Cannot) for x in out):
        raise why or Cannot('nothing')
    return out
