"""Hash-consed value-number terms."""
_tab = {}


class T:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id * 0x9E3779B1 & 0x7FFFFFFF

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    key = (op,) + tuple((x if isinstance(x, T) else (type(x).__name__, x)) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab) + 1
        _tab[key] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')
PI = mk('pi')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.a[0]


def sym(name, *extra):
    return mk('sym', name, *extra)


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return '…'
    d = depth - 1
    op, a = t.op, t.a
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if op == 'idx':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if op == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if op == 'bin':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if op == 'un':
        return f'({a[0]}{show(a[1], d)})'
    if op == 'cmp':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if op == 'not':
        return f'not {show(a[0], d)}'
    if op == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if op in ('tuple', 'list'):
        return ('(' if op == 'tuple' else '[') + ', '.join(show(x, d) for x in a) + (')' if op == 'tuple' else ']')
    if op == 'call':
        f, args, kws = a
        s = [show(x, d) for x in args.a] + [f'{k.a[0]}={show(k.a[1], d)}' for k in kws.a]
        return f'{f if isinstance(f, str) else show(f, d)}({", ".join(s)})'
    return f'{op}(' + ', '.join(show(x, d) for x in a) + ')'


def subterms(t, seen=None):
    """All distinct subterms (including t)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)
    return seen


def rebuild(t, f, memo=None):
    """Bottom-up rewrite; f(term with rewritten children) -> term or None."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        ch = tuple(go(y) if isinstance(y, T) else y for y in x.a)
        y = x if all(p is q for p, q in zip(ch, x.a)) else mk(x.op, *ch)
        z = f(y)
        z = y if z is None else z
        memo[x] = z
        return z
    return go(t)
