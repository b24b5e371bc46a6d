"""Layout of the text a program writes: every string is a sequence of literal
characters and formatted fields (value, width, alignment, decimals), and the
string operations of a reader (slices, split, strip, float) are applied to that
layout.  Assumed, and declared by the checks that use it: every value fits its
column (with a blank to spare where columns touch), names hold no colon and no
leading, trailing or double blanks."""
import re
from .terms import *

SPEC = re.compile(r'^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$')


class Field:
    __slots__ = ('term', 'width', 'align', 'prec', 'type', 'fill')

    def __init__(self, term, width=None, align='', prec=None, type='', fill=' '):
        self.term, self.width, self.align, self.prec, self.type, self.fill = term, width, align, prec, type, fill

    @property
    def numeric(self):
        return self.type in ('f', 'F', 'e', 'E', 'g', 'G', 'd', 'n')

    def bare(self):
        return Field(self.term, None, '', self.prec, self.type, self.fill)

    def spec(self):
        return (('' if self.fill == ' ' else self.fill) + self.align + ('' if self.width is None else str(self.width)) + ('' if self.prec is None else f'.{self.prec}') + self.type)

    def t(self):
        return mk('fmt', self.term, self.spec())

    def leftaligned(self):
        return self.align == '<' or (not self.align and not self.numeric)


def field(term, spec):
    m = SPEC.match(spec) if spec != '?' else None
    if m is None:
        return None
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    if grp or alt or (typ or '') in ('%', 'c', 'b', 'o', 'x', 'X'):
        return None
    return Field(term, int(width) if width else None, align or '', int(prec) if prec else None, (typ or '').replace('s', ''), '0' if zero else (fill or ' '))


def pieces(t):
    """literal strings and Fields and opaque terms ('cut'/'words'), or None"""
    if is_const(t):
        return [cval(t)] if isinstance(cval(t), str) else None
    if t.op == 'fmt':
        f = field(t.a[0], t.a[1])
        return None if f is None else [f]
    if t.op in ('cut', 'words'):
        return [t]
    if t.op == 'fstr':
        out = []
        for x in t.a:
            p = pieces(x)
            if p is None:
                return None
            out += p
        return out
    if t.op == 'bin' and t.a[0] == '+':
        a, b = pieces(t.a[1]), pieces(t.a[2])
        return None if a is None or b is None else a + b
    return None


def build(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and is_const(out[-1]):
                out[-1] = const(cval(out[-1]) + p)
            else:
                out.append(const(p))
        else:
            out.append(p.t() if isinstance(p, Field) else p)
    if not out:
        return const('')
    if len(out) == 1 and is_const(out[0]):
        return out[0]
    return mk('fstr', *out)


def single(t):
    """the value when the text is exactly one unpadded field of free text"""
    p = pieces(t)
    if p is not None and len(p) == 1 and isinstance(p[0], Field) and not p[0].numeric and p[0].width is None and p[0].prec is None:
        return p[0].term
    return t


def cells(ps):
    """(list of cells, complete?) up to the first part of unknown length"""
    out = []
    for p in ps:
        if isinstance(p, str):
            out += [('c', x) for x in p]
        elif isinstance(p, Field) and p.width is not None:
            out += [('f', p, i) for i in range(p.width)]
        else:
            return out, False
    return out, True


def uncells(cs):
    out = []
    i = 0
    while i < len(cs):
        if cs[i][0] == 'c':
            out.append(cs[i][1])
            i += 1
            continue
        p, a = cs[i][1], cs[i][2]
        j = i
        while j + 1 < len(cs) and cs[j + 1][0] == 'f' and cs[j + 1][1] is p and cs[j + 1][2] == cs[j][2] + 1:
            j += 1
        b = cs[j][2] + 1
        out.append(p if (a, b) == (0, p.width) else mk('cut', p.t(), a, b))
        i = j + 1
    return out


def index(t, k):
    ps = pieces(t)
    if ps is None:
        return None
    cs, full = cells(ps)
    if is_const(k) and isinstance(cval(k), int):
        i = cval(k)
        if i < 0 and not full:
            return None
        if i >= len(cs):
            return UNDEF if full else None
        if not -len(cs) <= i:
            return UNDEF
        return build(uncells([cs[i]]))
    if k.op == 'slice':
        v = [None if x is NONE else cval(x) if is_const(x) and isinstance(cval(x), int) else 'no' for x in k.a]
        if 'no' in v:
            return None
        a, b, s = (v + [None, None, None])[:3]
        if s not in (None, 1):
            return None
        if full:
            return build(uncells(cs[slice(a, b)]))
        if (a or 0) < 0 or (b is not None and b < 0):
            return None
        a = a or 0
        if b is not None and b <= len(cs):
            return build(uncells(cs[a:b]))
        if a > len(cs):
            return None
        # up to and beyond a part of unknown length
        n, rest = 0, []
        for i, p in enumerate(ps):
            w = len(p) if isinstance(p, str) else p.width if isinstance(p, Field) else None
            if w is None:
                rest = ps[i:]
                break
        if b is not None:
            # a stop beyond the known part is taken to lie behind the text only when the text ends with one open field
            if len(rest) != 1:
                return None
        return build(uncells(cs[a:]) + rest)
    return None


def strip(ps, left=True, right=True):
    ps = list(ps)
    for side, on in ((0, left), (-1, right)):
        while on and ps:
            p = ps[side]
            if isinstance(p, str):
                q = p.lstrip() if side == 0 else p.rstrip()
                if q:
                    ps[side] = q
                    break
                ps.pop(side)
                continue
            if isinstance(p, Field) and p.width is not None and p.fill == ' ':
                pad_left = not p.leftaligned()
                if len(ps) == 1 or (side == 0) == pad_left:
                    ps[side] = p.bare() if (left and right) or (side == 0) == pad_left else p
            break
    return ps


def split_ws(ev, ps):
    """terms of the whitespace separated words; an open text gives star(words(..))"""
    toks, cur = [], []

    def end():
        if cur:
            toks.append(list(cur))
            cur.clear()
    for p in ps:
        if isinstance(p, str):
            for w in re.findall(r'\s+|\S+', p):
                if w.isspace():
                    end()
                else:
                    cur.append(w)
        elif isinstance(p, Field):
            open_ = not p.numeric and p.term not in ev.words and not is_const(p.term)
            if p.width is not None and not p.leftaligned():
                end()
            cur.append(('open', p.bare()) if open_ else p.bare())
            if p.width is not None and p.leftaligned():
                end()
        else:
            cur.append(('open', p))
    end()
    out = []
    for t in toks:
        if any(isinstance(x, tuple) for x in t):
            i = next(i for i, x in enumerate(t) if isinstance(x, tuple))
            plain = [x[1] if isinstance(x, tuple) else x for x in t]
            if i:
                # at least one word, which begins with the plain part
                out.append(mk('firstword', build(plain)))
                out.append(mk('star', mk('words', mk('rest', build(plain)))))
            else:
                out.append(mk('star', mk('words', single(build(plain)))))
        else:
            ps2 = t
            if len(ps2) == 1 and isinstance(ps2[0], Field) and is_const(ps2[0].term) and isinstance(cval(ps2[0].term), str):
                w = cval(ps2[0].term).split()
                out += [const(x) for x in w]
                continue
            out.append(single(build(ps2)))
    return out


def split_sep(ps, sep, limit=-1):
    out, cur = [], []
    n = 0
    for p in ps:
        if isinstance(p, str):
            parts = p.split(sep) if limit < 0 else p.split(sep, limit - n)
            cur.append(parts[0])
            for x in parts[1:]:
                n += 1
                out.append(single(build(cur)))
                cur = [x]
        else:
            cur.append(p)
    out.append(single(build(cur)))
    return out


def method(ev, c, name, da, kws):
    """the result of a string method on a text, or None"""
    if kws:
        return None
    if name == 'join' and len(da) == 1 and is_const(c):
        k = da[0]
        if k.op not in ('list', 'tuple'):
            return None
        if len(k.a) == 1 and k.a[0].op == 'star' and k.a[0].a[0].op == 'words' and cval(c) == ' ':
            return k.a[0].a[0].a[0]
        out = []
        for i, x in enumerate(k.a):
            p = pieces(x) or ([Field(x)] if x in ev.words or x in ev.texts else None)
            if p is None:
                return None
            out += ([cval(c)] if i else []) + p
        return single(build(out))
    if c.op in ('word', 'firstword') and name == 'strip':
        return c
    ps = pieces(c)
    if ps is None and (c in ev.words or c in ev.texts):
        ps = [Field(c)]
    if ps is None:
        return None
    if name in ('strip', 'lstrip', 'rstrip') and not da:
        return single(build(strip(ps, name != 'rstrip', name != 'lstrip')))
    if name == 'split' and not da:
        return ev.newobj('list', mk('list', *split_ws(ev, ps)))
    if name == 'split' and is_const(da[0]) and isinstance(cval(da[0]), str) and all(is_const(x) for x in da):
        return ev.newobj('list', mk('list', *split_sep(ps, cval(da[0]), cval(da[1]) if len(da) > 1 else -1)))
    if name == 'partition' and len(da) == 1 and is_const(da[0]):
        o = split_sep(ps, cval(da[0]), 1)
        return mk('tuple', o[0], da[0], o[1]) if len(o) == 2 else mk('tuple', o[0], const(''), const(''))
    if name in ('rjust', 'ljust') and len(da) == 1 and is_const(da[0]) and len(ps) == 1 and isinstance(ps[0], Field) and ps[0].width is None:
        f = ps[0]
        return build([Field(f.term, cval(da[0]), '>' if name == 'rjust' else '<', f.prec, f.type)])
    if name == 'startswith' and len(da) == 1 and is_const(da[0]) and isinstance(cval(da[0]), str):
        s = cval(da[0])
        if isinstance(ps[0], str):
            if ps[0][:len(s)] == s:
                return TRUE
            if not s.startswith(ps[0]):
                return FALSE
        return None
    return None


def number(t, kind):
    """float(text) / int(text)"""
    ps = pieces(t)
    if ps is None:
        return None
    ps = strip(ps)
    if len(ps) == 1 and isinstance(ps[0], Field):
        f = ps[0]
        if f.prec is not None:
            return mk('quant', f.term, f.prec)
        if f.width is None or f.fill in (' ', '0'):
            return f.term
    if len(ps) == 1 and isinstance(ps[0], str):
        try:
            return const(float(ps[0]) if kind == 'float' else int(ps[0]))
        except ValueError:
            return UNDEF
    return None


def length(ev, t):
    ps = pieces(t)
    if ps is None:
        return None
    cs, full = cells(ps)
    if full:
        return const(len(cs))
    return None


def nonempty(ev, t):
    """True when the text has at least one character"""
    if t in ev.words or t in ev.texts or t.op in ('word', 'firstword'):
        return True
    ps = pieces(t)
    if ps is None:
        return None
    if any((isinstance(p, str) and p) or (isinstance(p, Field) and (p.width or p.numeric or p.term in ev.words or p.term in ev.texts)) for p in ps):
        return True
    return False if not ps else None


def equal(ev, t, s):
    """False when the text cannot be the string s, None when undecided"""
    ps = pieces(t)
    if ps is None:
        if t.op == 'firstword':
            ps = pieces(t.a[0])
        if ps is None:
            return None
    if ps and isinstance(ps[0], str):
        n = min(len(ps[0]), len(s))
        if ps[0][:n] != s[:n]:
            return False
        if len(s) < len(ps[0]):
            return False
    cs, full = cells(ps)
    if full and len(cs) != len(s):
        return False
    if len(ps) == 1 and isinstance(ps[0], Field) and ps[0].numeric and re.search('[A-Za-z:!]', s):
        return False
    return None
