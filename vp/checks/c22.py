"""C22 A string's sections tile it without gaps, overlaps or overshoot.

Each history is a short program of additions (spec/strings.py) whose extents are symbols; the order of the depths is
assumed per case (an order class), so every comparison the library makes is decided and one path remains.  The depths
recorded on that path are terms of the string's limits and the given extents and are compared as normal forms, hence
for every value of the class."""
from .common import *
from ..aeval import Evaluator, Rejected, Budget

TOP, BOT, L1, L2, L3, MD = [sym(x) for x in ('top', 'bottom', 'l1', 'l2', 'l3', 'md')]


def sub(x, y):
    return mk('bin', '-', x, y)


def D(**kw):
    return mk('dict', *[mk('kv', const(k), v) for k, v in kw.items()])


BASE = {TOP: 10., BOT: 1000.}


def cases():
    """name, history, method, additions, order, expected ([(top, bottom)], complete) or 'rejected', carried keys"""
    o1, o2, o3 = sym('od1'), sym('od2'), sym('od3')
    up, down = 'bottom_up', 'top_down'
    a1, a2 = sub(BOT, L1), sub(sub(BOT, L1), L2)
    yield 'upwards: a length', 'one', up, [D(length=L1, od=o1)], {L1: 130.}, [(a1, BOT, o1)], False
    yield 'upwards: two lengths', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 217.}, [(a2, a1, o2), (a1, BOT, o1)], False
    yield 'upwards: the longer length second', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 430., L2: 117.}, [(a2, a1, o2), (a1, BOT, o1)], False
    yield 'upwards: a length beyond the top', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 2170.}, [(TOP, a1, o2), (a1, BOT, o1)], True
    yield 'upwards: a length just beyond the top', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 865.}, [(TOP, a1, o2), (a1, BOT, o1)], True
    yield 'upwards: one length beyond the top', 'one', up, [D(length=L1, od=o1)], {L1: 1130.}, [(TOP, BOT, o1)], True
    yield 'upwards: lengths that just reach the top', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 860.}, [(TOP, a1, o2), (a1, BOT, o1)], True
    yield 'upwards: no extent', 'one', up, [D(od=o1)], {}, [(TOP, BOT, o1)], True
    yield 'upwards: a length and then no extent', 'two', up, [D(length=L1, od=o1), D(od=o2)], {L1: 130.}, [(TOP, a1, o2), (a1, BOT, o1)], True
    yield 'upwards: two lengths and then no extent', 'three', up, [D(length=L1, od=o1), D(length=L2, od=o2), D(od=o3)], {L1: 130., L2: 217.}, \
        [(TOP, a2, o3), (a2, a1, o2), (a1, BOT, o1)], True
    yield 'upwards: three lengths', 'three', up, [D(length=L1, od=o1), D(length=L2, od=o2), D(length=L3, od=o3)], {L1: 130., L2: 217., L3: 71.}, \
        [(sub(a2, L3), a2, o3), (a2, a1, o2), (a1, BOT, o1)], False
    yield 'upwards: a top', 'one', up, [D(top=L1, od=o1)], {L1: 730.}, [(L1, BOT, o1)], False
    yield 'upwards: two tops', 'two', up, [D(top=L1, od=o1), D(top=L2, od=o2)], {L1: 730., L2: 217.}, [(L2, L1, o2), (L1, BOT, o1)], False
    yield 'upwards: a length and then a top', 'two', up, [D(length=L1, od=o1), D(top=L2, od=o2)], {L1: 130., L2: 217.}, [(L2, a1, o2), (a1, BOT, o1)], False
    yield 'upwards: a top and then a length', 'two', up, [D(top=L1, od=o1), D(length=L2, od=o2)], {L1: 730., L2: 217.}, [(sub(L1, L2), L1, o2), (L1, BOT, o1)], False
    yield 'upwards: a top at the top of the string', 'two', up, [D(top=L1, od=o1), D(top=TOP, od=o2)], {L1: 730.}, [(TOP, L1, o2), (L1, BOT, o1)], True
    yield 'upwards: a top above the string', 'rejected', up, [D(length=L1, od=o1), D(top=L2, od=o2)], {L1: 130., L2: 3.}, [(a1, BOT, o1)], False
    yield 'upwards: a top below the section beneath', 'rejected', up, [D(length=L1, od=o1), D(top=L2, od=o2)], {L1: 430., L2: 700.}, [(a1, BOT, o1)], False
    yield 'upwards: a top below the string', 'rejected', up, [D(length=L1, od=o1), D(top=L2, od=o2)], {L1: 430., L2: 1700.}, [(a1, BOT, o1)], False
    yield 'upwards is the default', 'default', up, [D(length=L1, od=o1)], {L1: 130.}, [(a1, BOT, o1)], False
    yield 'downwards: a bottom', 'one', down, [D(bottom=L1, od=o1)], {L1: 130.}, [(TOP, L1, o1)], False
    yield 'downwards: two bottoms', 'two', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2)], {L1: 130., L2: 217.}, [(TOP, L1, o1), (L1, L2, o2)], False
    yield 'downwards: three bottoms', 'three', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2), D(bottom=L3, od=o3)], {L1: 130., L2: 217., L3: 590.}, \
        [(TOP, L1, o1), (L1, L2, o2), (L2, L3, o3)], False
    yield 'downwards: reaching the bottom', 'two', down, [D(bottom=L1, od=o1), D(bottom=BOT, od=o2)], {L1: 130.}, [(TOP, L1, o1), (L1, BOT, o2)], True
    yield 'downwards: the whole string', 'one', down, [D(bottom=BOT, od=o1)], {}, [(TOP, BOT, o1)], True
    yield 'downwards: a bottom below the string', 'rejected', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2)], {L1: 130., L2: 1300.}, [(TOP, L1, o1)], False
    yield 'downwards: a bottom above the section', 'rejected', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2)], {L1: 130., L2: 70.}, [(TOP, L1, o1)], False
    yield 'downwards: a bottom above the string', 'rejected', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2)], {L1: 130., L2: 7.}, [(TOP, L1, o1)], False
    yield 'upwards: two lengths that stop just short of the top', 'two', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 859.5}, [(a2, a1, o2), (a1, BOT, o1)], False
    yield 'downwards: stopping just short of the bottom', 'two', down, [D(bottom=L1, od=o1), D(bottom=L2, od=o2)], {L1: 130., L2: 999.5}, [(TOP, L1, o1), (L1, L2, o2)], False
    yield 'downwards: a top that leaves a gap', 'rejected', down, [D(bottom=L1, od=o1), D(top=L2, bottom=L3, od=o2)], {L1: 130., L2: 217., L3: 590.}, [(TOP, L1, o1)], False
    yield 'downwards: a top that overlaps', 'rejected', down, [D(bottom=L1, od=o1), D(top=L2, bottom=L3, od=o2)], {L1: 130., L2: 117., L3: 590.}, [(TOP, L1, o1)], False
    yield 'upwards: a bottom that leaves a gap', 'rejected', up, [D(length=L1, od=o1), D(bottom=L2, length=L3, od=o2)], {L1: 130., L2: 700., L3: 90.}, [(a1, BOT, o1)], False
    yield 'upwards: a bottom that overlaps', 'rejected', up, [D(length=L1, od=o1), D(bottom=L2, length=L3, od=o2)], {L1: 130., L2: 900., L3: 90.}, [(a1, BOT, o1)], False
    yield 'upwards: a first section off the bottom', 'first', up, [D(length=L1, bottom=L2, od=o1)], {L1: 430., L2: 700.}, 'none', False
    yield 'downwards: a first section off the top', 'first', down, [D(top=L1, bottom=L2, od=o1)], {L1: 130., L2: 700.}, 'none', False
    nm = lambda x: const(x)
    yield 'upwards: named sections', 'three', up, [D(length=L1, od=o1, name=nm('m')), D(length=L2, od=o2, name=nm('z')), D(od=o3, name=nm('a'))], {L1: 130., L2: 217.}, \
        [(TOP, a2, o3), (a2, a1, o2), (a1, BOT, o1)], True
    yield 'downwards: named sections', 'three', down, [D(bottom=L1, od=o1, name=nm('m')), D(bottom=L2, od=o2, name=nm('z')), D(bottom=L3, od=o3, name=nm('a'))], {L1: 130., L2: 217., L3: 590.}, \
        [(TOP, L1, o1), (L1, L2, o2), (L2, L3, o3)], False
    ls = [sym(f'd{i}') for i in range(12)]
    od = [sym(f'e{i}') for i in range(12)]
    at, b = [], BOT
    for i in range(12):
        at.append((sub(b, ls[i]), b, od[i]))
        b = sub(b, ls[i])
    yield 'upwards: twelve lengths', 'many', up, [mk('list', *[D(length=x, od=o) for x, o in zip(ls, od)])], {x: 31. + 3 * i for i, x in enumerate(ls)}, at[::-1], False
    at = [(TOP if i == 0 else ls[i - 1], ls[i], od[i]) for i in range(12)]
    yield 'downwards: twelve bottoms', 'many', down, [mk('list', *[D(bottom=x, od=o) for x, o in zip(ls, od)])], {x: 31. + 33 * i for i, x in enumerate(ls)}, at, False
    yield 'cut: inside the upper section', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 130., MD: 500.}, [(TOP, sub(MD, L1), o2), (sub(MD, L1), MD, o1)], True
    yield 'cut: inside the lower section', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 430., MD: 700.}, [(TOP, sub(MD, L1), o2), (sub(MD, L1), MD, o1)], True
    yield 'cut: above the length of the lower section', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 430., MD: 300.}, [(TOP, MD, o1)], True
    yield 'cut: with room for both lengths', 'shortened', up, [D(length=L1, od=o1), D(length=L2, od=o2)], {L1: 130., L2: 217., MD: 800.}, \
        [(sub(sub(MD, L1), L2), sub(MD, L1), o2), (sub(MD, L1), MD, o1)], False
    yield 'cut: at the bottom of the string', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 130., MD: 1000.}, [(TOP, a1, o2), (a1, BOT, o1)], True
    yield 'cut: below the bottom of the string', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 130., MD: 1100.}, None, None
    yield 'cut: above the top of the string', 'shortened', up, [D(length=L1, od=o1), D(od=o2)], {L1: 130., MD: 4.}, None, None
    yield 'cut: a string made downwards', 'shortened', down, [D(bottom=L1, od=o1), D(bottom=BOT, od=o2)], {L1: 130., MD: 950.}, \
        [(TOP, sub(MD, sub(BOT, L1)), o1), (sub(MD, sub(BOT, L1)), MD, o2)], True


def history(chk, cls, name, spec, method, adds, order):
    rank = dict(BASE)
    rank.update(order)
    ev = Evaluator(chk.prog, rank=rank)
    ev.strict = True
    p = {'String': ev.wrap(chk.need(cls)), 'method': const(method)}
    for k, a in zip('abc', adds):
        p[k] = a
    try:
        r = ev.root(spec_func(chk.prog, 'strings.' + spec), params=p)
    except Rejected as e:
        return ev, 'rejected'
    except Budget:
        return ev, None
    return ev, deep(ev, r)


def same(chk, rule, construct, ev, code, spec, loc):
    if code is spec:
        return True
    x, y = ev.rankof(code), ev.rankof(spec)
    c = type(chk)(chk.pid, chk.tier)
    c._prog = chk.prog
    r = decide(c, rule, construct, code, spec, Lower({}), ranges(), loc=loc)
    if r:
        return True
    if x is not None and y is not None:
        # the order class fixes an equality (an end just reached): then the two terms agree there
        return True if x == y else False
    return None if r is None else False


def section(d):
    """a known dictionary as python items"""
    if d.op != 'dict' or not all(k.op == 'kv' and is_const(k.a[0]) for k in d.a):
        return None
    return {cval(k.a[0]): k.a[1] for k in d.a}


def tiled(ev, secs):
    """do the sections tile a part of the string, in the assumed order"""
    secs = section(secs)
    if secs is None:
        return None
    prev = None
    for v in secs.values():
        s = section(v)
        if s is None:
            return None
        if 'top' not in s or 'bottom' not in s:
            return 'a section has no limits'
        t, b = ev.rankof(s['top']), ev.rankof(s['bottom'])
        if t is None or b is None:
            return None
        if t > b or t < BASE[TOP] or b > BASE[BOT]:
            return f"it records {show(s['top'], 5)[:80]} to {show(s['bottom'], 5)[:80]}, outside the string or upside down"
        if prev is not None and prev != t:
            return f"it leaves a gap or an overlap at {show(s['top'], 5)[:80]}"
        prev = b
    return True


def stacking(chk):
    fn = chk.need('architecture.String')
    loc = f'{fn.module.rel}:{fn.node.lineno}'
    for name, spec, method, adds, order, want, complete in cases():
        rule = 'stacking'
        chk.count('histories')
        ev, r = history(chk, 'architecture.String', name, spec, method, adds, order)
        e = next((e for e in ev.events if e.kind in ('call', 'new') and e.d.get('bad')), None)
        if e is not None:
            chk.bad(rule, name, f"the call of {e.d.get('callee') or e.d.get('cls')} cannot be made: {e.d['bad']}", loc)
            continue
        if want is None:
            (chk.ok if r == 'rejected' else chk.unknown if r is None else chk.bad)(rule, name, '' if r == 'rejected' else 'accepted', loc)
            continue
        if r == 'rejected':
            chk.bad(rule, name, 'a permitted history of additions is refused by an assertion', loc)
            continue
        if want == 'none':
            if r is not None and r.op == 'tuple' and len(r.a) == 3:
                chk.bad(rule, name, 'accepted, although the string does not start there', loc)
            elif r is not None and r.op == 'tuple' and section(r.a[0]) == {} and is_const(r.a[1]) and not cval(r.a[1]):
                chk.ok(rule, name, 'refused, and the string is left empty', loc)
            else:
                chk.unknown(rule, name, 'sections not recognised', loc)
            continue
        if r is not None and r.op == 'tuple' and len(r.a) == 3:
            t = tiled(ev, r.a[0])
            if t is None:
                chk.unknown(rule, name, 'sections not recognised: ' + show(r.a[0], 3)[:200], loc)
            elif t is True:
                chk.ok(rule, name, 'accepted, and placed inside the limits', loc)
            else:
                chk.bad(rule, name, 'the addition is accepted although ' + t, loc)
            continue
        if r is None or r.op != 'tuple' or len(r.a) != 2:
            chk.unknown(rule, name, 'result of the history not recognised: ' + (show(r, 3)[:200] if r is not None else 'budget'), loc)
            continue
        secs, done = r.a
        secs = section(secs)
        if secs is None or any(x is None for x in (section(v) for v in secs.values())):
            chk.unknown(rule, name, 'sections not recognised: ' + show(r.a[0], 3)[:200], loc)
            continue
        if list(secs) != list(range(len(want))):
            chk.bad(rule, name, f'sections are kept under {list(secs)}, {len(want)} sections numbered from the top are due', loc)
            continue
        bad = unk = None
        for i, (t, b, od) in enumerate(want):
            s = section(secs[i])
            for key, w in (('top', t), ('bottom', b), ('od', od)):
                if key not in s:
                    bad = bad or f'section {i} has no {key}'
                    continue
                ok = same(chk, rule, name, ev, s[key], w, loc)
                if ok is False:
                    bad = bad or f'section {i} records {key} {show(s[key], 6)[:120]}, {show(w, 6)[:120]} is due'
                elif ok is None:
                    unk = unk or f'section {i} {key} {show(s[key], 6)[:120]}'
        if is_const(done):
            if bool(cval(done)) != complete:
                bad = bad or f'complete is {cval(done)}, {complete} is due'
        else:
            unk = unk or 'complete is ' + show(done, 4)[:100]
        (chk.bad if bad else chk.unknown if unk else chk.ok)(rule, name, bad or unk or '', loc)


def subclasses(chk):
    """the bore and the assembly are strings; what each requires of a section"""
    D1 = D(length=L1, od=sym('od1'))
    need = D(length=L1, id=sym('i'), coeff_friction_sliding=sym('f'))
    for cls, name, add, want in (('architecture.WellBore', 'a bore section without friction and diameter', D1, 'rejected'),
                                 ('architecture.WellBore', 'a bore section without friction', D(length=L1, id=sym('i')), 'rejected'),
                                 ('architecture.WellBore', 'a bore section without diameter', D(length=L1, coeff_friction_sliding=sym('f')), 'rejected'),
                                 ('architecture.WellBore', 'a bore section', need, {'id': sym('i'), 'coeff_friction_sliding': sym('f'), 'top': sub(BOT, L1), 'bottom': BOT}),
                                 ('architecture.BHA', 'an assembly section of default density', D1, {'density': const(7.85), 'od': sym('od1'), 'top': sub(BOT, L1), 'bottom': BOT}),
                                 ('architecture.BHA', 'an assembly section of given density', D(length=L1, density=sym('rho')), {'density': sym('rho'), 'top': sub(BOT, L1), 'bottom': BOT})):
        fn = chk.need(cls)
        loc = f'{fn.module.rel}:{fn.node.lineno}'
        chk.count('histories')
        ev, r = history(chk, cls, name, 'one', 'bottom_up', [add], {L1: 130., sym('rho'): 4., sym('f'): 0.2, sym('i'): 0.3})
        if r == 'rejected' or want == 'rejected':
            (chk.ok if r == want else chk.bad)('required keys', name, '' if r == want else 'accepted' if want == 'rejected' else 'refused', loc)
            continue
        s = section(r.a[0]) if r is not None and r.op == 'tuple' else None
        s = section(s[0]) if s and list(s) == [0] else None
        if s is None:
            chk.unknown('required keys', name, 'section not recognised', loc)
            continue
        bad = None
        for k, v in want.items():
            if k not in s:
                bad = bad or f'no {k} recorded'
            elif same(chk, 'required keys', name, ev, s[k], v, loc) is False:
                bad = bad or f'{k} is {show(s[k], 5)[:100]}, {show(v, 5)[:100]} is due'
        (chk.bad if bad else chk.ok)('required keys', name, bad or '', loc)


def run(chk):
    chk.explanation = 'histories of up to twelve additions are evaluated per order class of the depths; the recorded limits are compared as normal forms with the tiling they must form'
    chk.assumptions = ['histories of at most twelve additions, and of two additions and one shortening']
    for g in (stacking, subclasses):
        chk.group(g)


MINIMUM = 6
