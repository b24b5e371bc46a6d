"""C21 Torque and drag follow the soft-string equations for each load case."""
from .common import *
from ..aeval import mkbin

ME = sym('self')
SURV = mk('attr', ME, 'survey')
R = ranges(inc_average=(0.2, 2.6), inc_delta=(-0.3, 0.3), azi_delta=(-0.3, 0.3), weight_buoyed=(50., 900.), coeff_friction_sliding=(0.1, 0.5), radius=(0.05, 0.3), force=(2000., 9000.), force_tension=(2000., 9000.), force_normal=(200., 900.), other1=(-9000., -2000.), other2=(900., 1900.),
           torque=(100., 900.), inc_rad=(0.2, 2.6), azi_grid_rad=(0.1, 6.1), fluid_density=(1., 1.9), string_density=(5., 9.), density=(5., 9.), unit_weight=(200., 900.), delta_md=(10., 40.), buoyancy_factor=(0.7, 0.9),
           tooljoint=(0.1, 0.3), od=(0.1, 0.3), wob=(1000., 9000.), tob=(100., 900.), overpull=(1000., 9000.))
SERIES = ('inc_average', 'inc_delta', 'azi_delta', 'weight_buoyed', 'coeff_friction_sliding', 'radius')
HELPERS = ('add_survey_points_from_strings', 'get_buoyancy_factors', 'get_inc_average', 'get_inc_delta', 'get_azi_delta', 'get_weight_buoyed_and_radius', 'get_coeff_friction_sliding')
# published load cases: the sign of the friction term
SIGN = {'pickup': 1, 'overpull': 1, 'slackoff': -1, 'sliding': -1, 'rotating': 0, 'drilling': 0}


def equations(chk):
    three = S(force_tension=(3,), force_normal=(3,))
    formula(chk, 'element equations', 'torque_drag.force_normal', 'drag.normal', ranges=R, shapes=three)
    for i, (q, k) in enumerate((('pickup', 1), ('slack-off', -1), ('rotating', 0))):
        fn = chk.need('torque_drag.force_tension_delta')
        ev, r = evaluate(chk, fn.qual, {})
        r = ev.deref(r)
        if r.op not in ('tuple', 'list') or len(r.a) != 3:
            r = mk('list', *[mk('idx', r, const(j)) for j in range(3)])
        s = spec_term(chk, 'drag.tension_delta')
        L = Lower(S(force_normal=(3,)))
        try:
            want = mk('bin', '+', mk('bin', '*', sym('weight_buoyed'), mkcall('numpy.cos', [sym('inc_average')])),
                      mk('bin', '*', mk('bin', '*', const(k), sym('coeff_friction_sliding')), mk('idx', sym('force_normal'), const(i))))
            decide(chk, 'element equations', f'torque_drag.force_tension_delta {q}', ev.deref(r.a[i]), want, L, R, loc=fn.loc)
        except Unsup as e:
            chk.unknown('element equations', f'torque_drag.force_tension_delta {q}', str(e), fn.loc)
    formula(chk, 'element equations', 'torque_drag.torsion_delta', 'drag.torsion_delta', ranges=R)
    formula(chk, 'element equations', 'torque_drag.buoyancy_factor', 'drag.buoyancy', ranges=R)
    for a in ('inc_average', 'inc_delta', 'azi_delta'):
        formula(chk, 'element geometry', 'torque_drag.TorqueDrag.get_' + a, 'drag.' + a, out=attr(a), params={}, specparams={'survey': SURV}, shapes={mk('attr', SURV, x): n for x in ('inc_rad', 'azi_grid_rad', 'md')}, ranges=R)


# ------------------------------------------------------------------ the march from bit to surface
def last(t):
    return t.op == 'idx' and is_const(t.a[1]) and cval(t.a[1]) == -1


def simplify(t):
    """the last element of a list just appended to is what was appended"""
    def f(x):
        if last(x):
            y = x.a[0]
            if y.op == 'append':
                return simplify(y.a[1])
        return None
    while True:
        r = rebuild(t, f)
        if r is t:
            return r
        t = r


def sl(k):
    """slice term -> (start, stop, step)"""
    return tuple(k.a) if k.op == 'slice' else None


def series(t, index=None):
    """-> (attribute, reversed, limited to the string) of a sequence handed to the loop"""
    rev, lim, cut = False, False, 0
    chain = []
    while t.op == 'idx' and sl(t.a[1]):
        chain.append(sl(t.a[1]))
        t = t.a[0]
    if t.op == 'call' and t.a[0] in ('reversed', 'list') and len(t.a[1].a) == 1:
        u = series(t.a[1].a[0], index)
        if u and not chain:
            return (u[0], not u[1] if t.a[0] == 'reversed' else u[1], u[2])
        return None
    if not (t.op == 'attr' and t.a[0] is ME):
        return None
    for a, b, c in reversed(chain):
        if a is NONE and b is NONE and c is const(-1):
            rev = not rev
        elif a is NONE and b is not NONE and c in (NONE, const(1)) and not rev and lim is False:
            lim = index if b is mk('attr', ME, 'index') and index is not None else b
        else:
            return None
    return (t.a[1], rev, lim)


def sequence(t):
    """published series -> (list term, transformations as (reversed, dropped at the bit, dropped at the surface), column)"""
    col, ops = None, []
    while True:
        if t.op == 'idx':
            k = t.a[1]
            if k.op == 'tuple' and len(k.a) == 2 and sl(k.a[0]) and is_const(k.a[1]) and isinstance(cval(k.a[1]), int):
                if col is not None:
                    return None
                col = cval(k.a[1])
                ops.append(sl(k.a[0]))
            elif sl(k):
                ops.append(sl(k))
            else:
                return None
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'numpy.vstack', 'numpy.stack', 'list') and len(t.a[1].a) == 1:
            t = t.a[1].a[0]
        elif t.op == 'call' and t.a[0] in ('reversed', 'numpy.flipud') and len(t.a[1].a) == 1:
            ops.append((NONE, NONE, const(-1)))
            t = t.a[1].a[0]
        else:
            break
    rev, bit, top = False, 0, 0
    for a, b, c in reversed(ops):
        if c is const(-1) and a is NONE and b is NONE:
            rev = not rev
            continue
        if c not in (NONE, const(1)):
            return None
        lo = 0 if a is NONE else cval(a) if is_const(a) else None
        hi = 0 if b is NONE else cval(b) if is_const(b) else None
        if lo is None or hi is None or lo < 0 or hi > 0:
            return None
        if rev:
            top, bit = top + lo, bit - hi
        else:
            bit, top = bit + lo, top - hi
    return t, (rev, bit, top), col


def recurrence(t):
    """loopout of a list that one value is appended to per pass -> (initial list, appended value, phi)"""
    if t.op != 'loopout':
        return None
    body, init = t.a[-2], t.a[-1]
    if body.op != 'append' or body.a[0].op != 'phi' or body.a[0].a[0] != t.a[0]:
        return None
    return init, body.a[1], body.a[0]


CASES = {
    'plain': (),
    'drilling': ('wob', 'tob'),
    'overpull': ('overpull',),
    'drilling and overpull': ('wob', 'tob', 'overpull'),
}
BASE = ({'pickup', 'slackoff', 'rotating'}, {'rotating'})
EXTRA = {
    'plain': (set(), set()),
    'drilling': ({'pickup', 'sliding', 'drilling'}, {'drilling'}),
    'overpull': ({'overpull', 'slackoff', 'rotating'}, {'rotating'}),
    'drilling and overpull': ({'overpull', 'sliding', 'drilling'}, {'drilling'}),
}
# what acts at the bit in each published case
BIT = {'overpull': lambda p: p['overpull'], 'sliding': lambda p: mkbin('*', const(-1), p['wob']), 'drilling': lambda p: mkbin('*', const(-1), p['wob'])}


def entries(ev, a):
    d = ev.heap.get((ME, a))
    d = ev.deref(d) if d is not None else None
    if d is None or d.op != 'dict' or not all(x.op == 'kv' and is_const(x.a[0]) for x in d.a):
        return None
    return {cval(x.a[0]): ev.deref(x.a[1]) for x in d.a}


FIRST = mk('list', *[sym(f'first{j}') for j in range(3)])


def elements(chk, t, where, loc, index=None):
    """replace the loop's per-element values by symbols"""
    seen = {}
    miss = []

    def f(x):
        if x.op == 'elem':
            s = series(x.a[0], index)
            if s is None:
                miss.append(show(x.a[0], 4)[:100])
                return None
            seen[s[0]] = s
            return sym(s[0])
        return None
    return rebuild(t, f), seen, miss


def aligned(chk, seen, where, loc):
    rule = 'marched from bit to surface'
    rev = {s[1] for s in seen.values()}
    if rev == {True}:
        chk.ok(rule, where + ': order')
    elif len(rev) == 2:
        chk.bad(rule, where + ': order', 'some series run from the bit and others from the surface: ' + ', '.join(f'{a} {"up" if s[1] else "down"}' for a, s in sorted(seen.items())), loc)
    else:
        chk.unknown(rule, where + ': order', 'all series run from the surface', loc)
    # survey-long series must stop at the bit
    w = mkcall('numpy.where', [mk('cmp', '==', mk('attr', SURV, 'md'), mk('attr', sym('string'), 'bottom'))])
    bit = mk('idx', mk('idx', w, const(0)), const(0))
    want = mk('bin', '+', bit, const(1))
    c = where + ': stops at the bit'
    own = lambda x: x.a[1].a[0] if x.op == 'call' and x.a[0] in ('copy.deepcopy', 'copy.copy') and len(x.a[1].a) == 1 else x
    for a, s in sorted(seen.items()):
        s = s[:2] + (rebuild(s[2], own) if isinstance(s[2], T) else s[2],) + tuple(s[3:])
        if a not in ('inc_average', 'inc_delta', 'azi_delta', 'coeff_friction_sliding') or rev != {True}:
            continue
        if s[2] is want:
            chk.ok(rule, c)
        elif s[2] is False:
            chk.bad(rule, c, f'{a} is not limited to the stations down to the bit', loc)
        elif s[2] is bit or s[2].op == 'bin' and s[2].a[0] in '+-' and s[2].a[1] is bit and is_const(s[2].a[2]):
            chk.bad(rule, c, f'{a} is taken up to {show(s[2])}, where the station at the bit is the last', loc)
        else:
            chk.unknown(rule, c, f'{a} is taken up to {show(s[2], 5)}', loc)


def cases(chk):
    fn = chk.need('torque_drag.TorqueDrag.__init__')
    for case, on in CASES.items():
        p = {x: sym(x) if x in on else NONE for x in ('wob', 'tob', 'overpull')}

        def before(ev):
            for v in p.values():
                if v is not NONE:
                    ev.guards.append((v, True))
        ev, r = evaluate(chk, fn.qual, p, before=before, inline=lambda f: f.name not in HELPERS)
        if ev is None:
            chk.unknown('load case', case, r, fn.loc)
            continue
        index = ev.heap.get((ME, 'index'))
        index = deep(ev, index) if index is not None else None
        tens, torq = entries(ev, 'tension'), entries(ev, 'torque')
        if tens is None or torq is None:
            chk.unknown('load case', case, 'published results not recognised', fn.loc)
            continue
        for what, got, want in (('tension', tens, BASE[0] | EXTRA[case][0]), ('torque', torq, BASE[1] | EXTRA[case][1])):
            if set(got) == want:
                chk.ok('load case', f'{case}: {what} cases')
            else:
                chk.bad('load case', f'{case}: {what} cases', f'publishes {sorted(map(str, got))}, specified {sorted(want)}', fn.loc)
        col = {}
        for key, v in tens.items():
            if key in SIGN:
                q = sequence(deep(ev, v))
                if q and q[2] is not None:
                    col[key] = q[2]
        role = {}          # column -> sign
        for key, v in sorted(tens.items()):
            if key not in SIGN:
                continue
            name = f'{case}: tension[{key}]'
            q = sequence(deep(ev, v))
            rec = recurrence(q[0]) if q else None
            if not rec or q[2] is None:
                chk.unknown('load case', name, 'not a series built by one append per element: ' + show(ev.deref(v), 4)[:120], fn.loc)
                continue
            seqops(chk, name, q[1], fn.loc)
            c = q[2]
            init, step, phi = rec
            step = simplify(step)
            # this column's running tension is `force`, the others are unrelated quantities
            vec = mk('list', *[sym('force') if j == c else sym(f'other{1 + (j - (j > c))}') for j in range(3)])
            code, seen, miss = elements(chk, rebuild(step, lambda x: mkcall('numpy.array', [vec]) if last(x) and x.a[0] is phi else mkcall('numpy.array', [FIRST]) if x.op == 'idx' and x.a[0] is phi and x.a[1] is const(0) else None), name, fn.loc, index)
            if miss:
                chk.unknown('load case', name, 'loop values not recognised: ' + miss[0], fn.loc)
                continue
            aligned(chk, seen, f'{case}: tension', fn.loc)
            decide(chk, 'load case', name, mk('idx', code, const(c)), spec_term(chk, 'drag.step', {'sign': const(SIGN[key])}), Lower({}), R, loc=fn.loc)
            start = BIT[key](p) if key in BIT else const(0.0)
            i0 = init.a[0] if init.op == 'list' and len(init.a) == 1 else None
            if i0 is None:
                chk.unknown('load case', name + ' at the bit', show(init, 3), fn.loc)
            else:
                decide(chk, 'load case', name + ' at the bit', mk('idx', ev.deref(i0), const(c)), start, Lower({}), R, loc=fn.loc)
        for key, v in torq.items():
            rot = col.get(key)
            name = f'{case}: torque[{key}]'
            q = sequence(deep(ev, v))
            rec = recurrence(q[0]) if q else None
            if not rec or rot is None:
                chk.unknown('load case', name, 'not a series built by one append per element', fn.loc)
                continue
            seqops(chk, name, q[1], fn.loc)
            init, step, phi = rec
            step = simplify(step)
            vec = mk('list', *[sym('force') if j == rot else sym(f'other{1 + (j - (j > rot))}') for j in range(3)])

            def f(x):
                if last(x) and x.a[0] is phi:
                    return sym('torque')
                if last(x) and x.a[0].op == 'phi':
                    return mkcall('numpy.array', [vec])
                if x.op == 'idx' and x.a[0].op == 'phi' and x.a[1] is const(0):
                    return sym('first') if x.a[0] is phi else mkcall('numpy.array', [FIRST])
                return None
            code, seen, miss = elements(chk, rebuild(step, f), name, fn.loc, index)
            if miss:
                chk.unknown('load case', name, 'loop values not recognised: ' + miss[0], fn.loc)
                continue
            aligned(chk, seen, f'{case}: torque', fn.loc)
            decide(chk, 'load case', name, code, spec_term(chk, 'drag.torque_step'), Lower({}), R, loc=fn.loc)
            i0 = init.a[0] if init.op == 'list' and len(init.a) == 1 else None
            if i0 is not None:
                decide(chk, 'load case', name + ' at the bit', ev.deref(i0), p['tob'] if key == 'drilling' else const(0), Lower({}), R, loc=fn.loc)


def seqops(chk, name, ops, loc):
    rule = 'one value per station from the surface down'
    if ops == (True, 0, 1):
        chk.ok(rule, name)
    else:
        rev, bit, top = ops
        chk.bad(rule, name, f'{"reversed" if rev else "not reversed"}, {bit} dropped at the bit, {top} dropped above the first station (specified: reversed, 0, 1)', loc)


# ------------------------------------------------------------------ per element string and hole properties
def where_section(t):
    """elem(clip(searchsorted(bottoms, mds, side), 0, len - 1)) -> (bottoms, mds, side)"""
    if t.op == 'call' and t.a[0] == 'numpy.clip':
        t = t.a[1].a[0]
    if t.op == 'call' and t.a[0] == 'numpy.minimum' and len(t.a[1].a) == 2:
        t = next((x for x in t.a[1].a if x.op == 'call' and x.a[0] == 'numpy.searchsorted'), t)
    if t.op == 'call' and t.a[0] == 'numpy.searchsorted' and len(t.a[1].a) >= 2:
        side = next((k.a[1] for k in t.a[2].a if k.a[0] == 'side'), t.a[1].a[2] if len(t.a[1].a) > 2 else const('left'))
        return t.a[1].a[0], t.a[1].a[1], side
    return None


def lookup(chk, ev, t, owner, rule, name, loc):
    """rewrite per-station values looked up in the sections of `owner` into symbols; decides the look-up itself"""
    sec = mk('attr', mk('attr', ME, owner), 'sections')
    bad = []
    srcs = set()

    def f(x):
        if x.op == 'comp' and x.a[0] == 'list' and x.a[3] is TRUE:
            body, src = x.a[1], x.a[2]
            mine = [y for y in subterms(body) if y.op == 'elem' and y.a[0] is src]

            def g(y):
                if y.op == 'idx' and y.a[0].op == 'idx' and y.a[0].a[0] is sec and y.a[0].a[1] in mine and is_const(y.a[1]):
                    srcs.add(src)
                    return sym(str(cval(y.a[1])))
                if y.op == 'mcall' and y.a[0].op == 'idx' and y.a[0].a[0] is sec and y.a[0].a[1] in mine and y.a[1] == 'get' and y.a[2].a and is_const(y.a[2].a[0]):
                    srcs.add(src)
                    return sym(str(cval(y.a[2].a[0])))
                return None
            z = rebuild(body, g)
            return z if z is not body else None
        return None
    t = rebuild(t, f)
    t = rebuild(t, lambda x: x.a[1].a[0] if x.op == 'call' and x.a[0] == 'numpy.array' and len(x.a[1].a) == 1 and x.a[1].a[0].op in ('sym', 'ite') else None)
    if not srcs:
        chk.unknown(rule, name, 'section look-up not recognised', loc)
        return None
    mask = None
    for src in srcs:
        w = where_section(src)
        if w is None:
            chk.unknown(rule, name + ': section of each element', show(src, 4)[:120], loc)
            continue
        b, m, side = w
        if b.op == 'call' and b.a[0] == 'numpy.array':
            b = b.a[1].a[0]
        okb = b.op in ('comp', 'elem') and b.a[1].op == 'idx' and b.a[1].a[0].op == 'elem' and is_const(b.a[1].a[1])
        if not okb:
            chk.unknown(rule, name + ': sections by their bottoms', show(b, 4)[:120], loc)
        elif cval(b.a[1].a[1]) == 'bottom' and any(y is sec for y in subterms(b)):
            chk.ok(rule, name + ': sections by their bottoms')
        elif cval(b.a[1].a[1]) == 'bottom':
            chk.bad(rule, name + ': sections by their bottoms', f'searches the bottoms of {show(b.a[2], 4)}', loc)
        else:
            chk.bad(rule, name + ': sections by their bottoms', f'searches by {cval(b.a[1].a[1])!r}', loc)
        if side is const('left'):
            chk.ok(rule, name + ': a station at a section bottom belongs to that section')
        elif side is const('right'):
            chk.bad(rule, name + ': a station at a section bottom belongs to that section', "side='right' gives it to the section below", loc)
        mask = m
        md, end = mk('attr', SURV, 'md'), mk('attr', mk('attr', ME, owner), 'bottom')
        for c in [x.a[1] for x in subterms(m) if x.op == 'idx' and x.a[1].op in ('cmp', 'not', 'and', 'or')]:
            base = next(iter([x.a[0] for x in subterms(m) if x.op == 'idx' and x.a[1] is c]))
            nm = name + ': stations down to the bottom'
            if c is mk('not', mk('cmp', '<', end, base)) or c is mk('cmp', '<=', base, end):
                chk.ok(rule, nm)
            elif c is mk('cmp', '<', base, end) or c is mk('cmp', '<', end, base):
                chk.bad(rule, nm, f'{show(c, 5)} leaves out the station at the bottom', loc)
            else:
                chk.unknown(rule, nm, show(c, 4)[:100], loc)
    return t, mask


def properties(chk):
    rule = 'element properties'
    fn = chk.need('torque_drag.TorqueDrag.get_weight_buoyed_and_radius')
    ev, r = evaluate(chk, fn.qual, {})
    W, D = (ev.deref(ev.heap[(ME, a)]) if (ME, a) in ev.heap else None for a in ('weight_buoyed', 'radius'))
    dmd = mk('attr', SURV, 'delta_md')

    def tail(t):
        """concatenate([[first], rest]) -> rest, through a common factor"""
        if t.op == 'bin' and t.a[0] in ('/', '*'):
            u = tail(t.a[1])
            return mk('bin', t.a[0], u, t.a[2]) if u is not None else None
        if t.op == 'call' and t.a[0] in ('numpy.concatenate', 'numpy.hstack') and t.a[1].a[0].op in ('list', 'tuple') and len(t.a[1].a[0].a) == 2:
            return t.a[1].a[0].a[1]
        return None

    def follow(name, t, owner, spec, params, extra=None):
        t = tail(deep(ev, t)) if t is not None else None
        if t is None:
            chk.unknown(rule, name, 'not set as first value and the rest', fn.loc)
            return
        q = lookup(chk, ev, t, owner, rule, name, fn.loc)
        if q is None:
            return
        t, mds = q
        # intervals are taken at the same stations as the look-up
        same = rebuild(mds, lambda x: dmd if x is mk('attr', SURV, 'md') else None) if mds is not None else None
        # the mask is a condition on measured depth
        masks = [x.a[1] for x in subterms(mds) if x.op == 'idx' and x.a[1].op in ('cmp', 'not', 'and', 'or')] if mds is not None else []
        for m in masks:
            same = rebuild(same, lambda x: m if x is rebuild(m, lambda y: dmd if y is mk('attr', SURV, 'md') else None) else None)
        t = rebuild(t, lambda x: sym('delta_md') if x is same and same is not None else None)
        decide(chk, rule, name, t, spec_term(chk, spec, params), Lower({}), R, loc=fn.loc)
    follow('buoyed weight', W, 'string', 'drag.weight', {})
    follow('radius', D, 'string', 'drag.radius', {'tooljoint': sym('tooljoint_od'), 'od': sym('od')})
    fn = chk.need('torque_drag.TorqueDrag.get_coeff_friction_sliding')
    ev, r = evaluate(chk, fn.qual, {})
    F = ev.deref(ev.heap[(ME, 'coeff_friction_sliding')]) if (ME, 'coeff_friction_sliding') in ev.heap else None
    t = tail(deep(ev, F)) if F is not None else None
    q = lookup(chk, ev, t, 'wellbore', rule, 'friction', fn.loc) if t is not None else None
    if q:
        decide(chk, rule, 'friction', q[0], sym('coeff_friction_sliding'), Lower({}), R, loc=fn.loc)
    else:
        chk.unknown(rule, 'friction', 'not recognised', fn.loc)
    # the buoyancy factor of each section
    fn = chk.need('torque_drag.TorqueDrag.get_buoyancy_factors')
    ev, r = evaluate(chk, fn.qual, {})
    es = [e for e in ev.events if e.kind == 'setitem' and e.d['key'] is const('buoyancy_factor')]
    if len(es) == 1:
        v = rebuild(ev.deref(es[0].d['value']), lambda x: sym('density') if x.op == 'idx' and x.a[1] is const('density') else None)
        decide(chk, rule, 'buoyancy factor', v, spec_term(chk, 'drag.buoyancy', {'fluid_density': mk('attr', ME, 'fluid_density'), 'string_density': sym('density')}), Lower({}), R, loc=fn.loc)
    else:
        chk.unknown(rule, 'buoyancy factor', f'{len(es)} stores', fn.loc)


# ------------------------------------------------------------------ the constructor and the hook load plot
def delegation(chk):
    rule = 'load cases requested'
    fn = chk.need('torque_drag.TorqueDrag.__init__')
    p = {x: sym(x) for x in ('wob', 'tob', 'overpull')}
    ev, r = evaluate(chk, fn.qual, p, inline=lambda f: f.name not in HELPERS + ('get_forces_and_torsion',))
    es = [e for e in ev.events if e.kind == 'call' and e.d['callee'].endswith('get_forces_and_torsion')]
    args = [{k: ev.deref(v) for k, v in e.d['bound'].items() if k != 'self' and k in e.d['given']} for e in es]
    if any(not a or all(is_const(v) and not cval(v) for v in a.values()) for a in args):
        chk.ok(rule, 'the case without bit forces is always computed')
    else:
        chk.unknown(rule, 'the case without bit forces is always computed', str(args)[:100], fn.loc)
    for a in args:
        for k in p:
            if any(v in p.values() for v in a.values()):
                if a.get(k) is p[k]:
                    chk.ok(rule, f'{k} handed on')
                elif a.get(k) in [x for x in p.values()] or k not in a:
                    chk.bad(rule, f'{k} handed on', f'{k} receives {show(a[k]) if k in a else "its default"}', fn.loc)
                else:
                    chk.unknown(rule, f'{k} handed on', show(a[k], 3)[:80], fn.loc)


def hookload(chk):
    rule = 'hook load'
    fn = chk.need('torque_drag.HookLoad.get_data')
    ev, r = evaluate(chk, fn.qual, {}, inline=lambda f: f.cls is None or f.cls.name == 'HookLoad')
    at = lambda a: mk('attr', ME, a)
    news = [e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'name', '') == 'TorqueDrag']
    if len(news) != 1:
        chk.unknown(rule, 'model of each depth', f'{len(news)} constructions', fn.loc)
    else:
        b = {k: (ev.deref(v) if v.op == 'obj' and ev.info[v].kind != 'inst' else v) for k, v in news[0].d['bound'].items()}
        for k, want in (('survey', at('survey')), ('fluid_density', at('fluid_density'))):
            v = b.get(k)
            if v is want:
                chk.ok(rule, f'{k} handed on')
            elif v is not None and (v.op == 'attr' and v.a[0] is ME or is_const(v)):
                chk.bad(rule, f'{k} handed on', f'receives {show(v)}', fn.loc)
            else:
                chk.unknown(rule, f'{k} handed on', show(v, 3)[:80] if v is not None else 'absent', fn.loc)
        s = b.get('string')
        c = 'string run to each depth'
        at_ = s.a[2].a[0] if s is not None and s.op == 'mcall' and s.a[0] is at('string') and s.a[1] == 'depth' and len(s.a[2].a) == 1 else None
        if s is at('string'):
            chk.bad(rule, c, 'the whole string is modelled at every depth', fn.loc)
        elif at_ is None:
            chk.unknown(rule, c, show(s, 4)[:100] if s is not None else '', fn.loc)
        elif at_.op == 'elem':
            chk.ok(rule, c)
            depths(chk, deep(ev, at_.a[0]), at('string'), fn.loc)
        elif not any(x.op in ('elem', 'elemval', 'phi') for x in subterms(at_)):
            chk.bad(rule, c, f'every depth runs the string to {show(at_, 4)}', fn.loc)
        else:
            chk.unknown(rule, c, show(s, 4)[:100], fn.loc)
        w = b.get('wellbore')
        c = 'bore with the friction factor of the curve'
        st = [e for e in ev.events if e.kind == 'setitem' and e.d['key'] is const('coeff_friction_sliding')]
        if w is at('wellbore') and not any(at('wellbore') in set(subterms(e.d['obj'])) and not any(x.op == 'call' and x.a[0] in ('copy.deepcopy', 'copy.copy') for x in subterms(e.d['obj'])) for e in st):
            chk.bad(rule, c, 'the bore as given is modelled, whatever the friction factor', fn.loc)
        elif w is not None and any(deep(ev, w) in set(subterms(deep(ev, e.d['obj']))) for e in st):
            chk.ok(rule, c)
        else:
            chk.unknown(rule, c, show(w, 4)[:100] if w is not None else '', fn.loc)
    st = [e for e in ev.events if e.kind == 'setitem' and e.d['key'] is const('coeff_friction_sliding')]
    if len(st) == 1:
        v = ev.deref(st[0].d['value'])
        if v.op == 'elem' and v.a[0] is at('ff_range'):
            chk.ok(rule, 'friction factor of each curve')
        else:
            chk.unknown(rule, 'friction factor of each curve', show(v, 3)[:80], fn.loc)
    pub = [e for e in ev.events if e.kind == 'setitem' and e.d['value'].op in ('comp', 'obj') and ev.deref(e.d['value']).op == 'comp']
    for e in pub:
        v = ev.deref(e.d['value'])
        k = ev.deref(e.d['key'])
        body = v.a[1]
        if body.op == 'idx' and body.a[0].op == 'idx' and body.a[0].a[0].op == 'attr' and body.a[0].a[0].a[1] in ('tension', 'torque') and is_const(body.a[1]):
            c = 'surface tension of each load case'
            if body.a[0].a[0].a[1] != 'tension' or cval(body.a[1]) != 0 or (is_const(body.a[0].a[1]) and body.a[0].a[1] is not k):
                chk.bad(rule, c, f'publishes {show(body, 5)} under {show(k, 3)}', fn.loc)
            elif body.a[0].a[1] is k:
                chk.ok(rule, c)
            else:
                chk.unknown(rule, c, show(body, 5), fn.loc)
    # the friction factors run from the first to the second, both included
    fn = chk.need('torque_drag.HookLoad.get_ff_range')
    ev, r = evaluate(chk, fn.qual, {})
    t = ev.heap.get((ME, 'ff_range'))
    t = ev.heap.get((t, '$c'), t) if t is not None else None
    q = stepped(deep(ev, t)) if t is not None else None
    c, F = 'friction factors', sym('ff_range')
    if q is None:
        chk.unknown(rule, c, show(deep(ev, t), 5)[:120] if t is not None else '', fn.loc)
        return
    args, end = q
    full = tuple(mk('idx', F, const(i)) for i in range(3))
    if args not in (full, (mk('star', F),)):
        chk.unknown(rule, c, show(mk('tuple', *args), 4)[:100], fn.loc)
    elif end is full[1]:
        chk.ok(rule, c)
    elif end is None or end in full:
        chk.bad(rule, c, f'ends with {show(end, 4) if end is not None else "the last step"}, where the second given factor is due', fn.loc)
    else:
        chk.unknown(rule, c, show(end, 4)[:100], fn.loc)


def stepped(t):
    """arange(...) with a last value appended -> (arguments of arange, last value)"""
    end = None
    if t.op == 'append':
        t, end = t.a
    f = flat(t)
    if end is None and len(f) == 2 and f[1].op in ('list', 'tuple') and len(f[1].a) == 1:
        t, end = f[0], f[1].a[0]
    f = flat(t)
    if end is None and len(f) == 2:
        t, end = f
    else:
        t = f[0]
    if t.op == 'call' and t.a[0] == 'numpy.append' and end is None:
        t, end = t.a[1].a
    if t.op == 'call' and t.a[0] == 'numpy.arange' and not t.a[2].a:
        return tuple(t.a[1].a), end
    return None


def depths(chk, t, string, loc):
    """the string is run step by step from below its top, and to its bottom"""
    rule, c = 'hook load', 'depths the string is run to'
    top, bottom, step = mk('attr', string, 'top'), mk('attr', string, 'bottom'), mk('attr', ME, 'step')
    q = stepped(t)
    if t.op == 'attr' or q is None or len(q[0]) != 3:
        chk.unknown(rule, c, show(t, 4)[:120], loc)
        return
    (a, b, s), end = q
    if a is top:
        chk.bad(rule, c, 'starts at the top of the string, where no string is in the hole', loc)
    elif b is not bottom or s is not step or a is not mk('bin', '+', top, step) and a is not mk('bin', '+', step, top):
        chk.unknown(rule, c, show(mk('tuple', *q[0]), 4)[:120], loc)
    elif end is bottom:
        chk.ok(rule, c)
    elif end is None:
        chk.bad(rule, c, 'the bottom of the string is left out', loc)
    elif end.op == 'attr':
        chk.bad(rule, c, f'ends with {show(end, 4)}, where the bottom of the string is due', loc)
    else:
        chk.unknown(rule, c, show(end, 4)[:100], loc)


# ------------------------------------------------------------------ the stations of the model
ORIG = mk('attr', ME, 'survey_original')


def flat(t):
    """a sequence's own values, whatever container they are in"""
    while True:
        if t.op == 'mcall' and t.a[1] in ('tolist', 'copy', 'ravel', 'flatten'):
            t = t.a[0]
        elif t.op == 'call' and t.a[0] in ('list', 'tuple', 'numpy.array', 'numpy.asarray') and len(t.a[1].a) == 1:
            t = t.a[1].a[0]
        elif t.op == 'extend' and len(t.a) == 2:
            return [*flat(t.a[0]), *flat(t.a[1])]
        else:
            break
    if t.op == 'bin' and t.a[0] == '+':
        return [*flat(t.a[1]), *flat(t.a[2])]
    if t.op == 'call' and t.a[0] in ('numpy.concatenate', 'numpy.hstack') and t.a[1].a and t.a[1].a[0].op in ('list', 'tuple'):
        return [y for x in t.a[1].a[0].a for y in flat(x)]
    if t.op == 'call' and t.a[0] == 'numpy.append' and len(t.a[1].a) == 2:
        return [*flat(t.a[1].a[0]), *flat(t.a[1].a[1])]
    return [t]


def merged(t, i):
    """the i-th of sequences merged and ordered by the first -> (its values in the order given, the sequence they are ordered by)"""
    t = flat(t)[0] if len(flat(t)) == 1 else t
    if t.op == 'idx' and is_const(t.a[1]):
        z = t.a[0]
        z = z.a[1].a[0] if z.op == 'call' and z.a[0] in ('list', 'tuple') and len(z.a[1].a) == 1 else z
        if z.op == 'call' and z.a[0] == 'zip' and len(z.a[1].a) == 1 and z.a[1].a[0].op == 'star':
            z = z.a[1].a[0].a[0]
            if z.op == 'call' and z.a[0] == 'sorted' and not z.a[2].a and z.a[1].a[0].op == 'call' and z.a[1].a[0].a[0] == 'zip':
                rows = z.a[1].a[0].a[1].a
                if 0 <= cval(t.a[1]) < len(rows):
                    return rows[cval(t.a[1])], rows[0]
    if t.op == 'idx' and t.a[1].op == 'call' and t.a[1].a[0] == 'numpy.argsort':
        return t.a[0], t.a[1].a[1].a[0]
    return None


def bare(t):
    """collection behind a view of it"""
    while t.op == 'mcall' and t.a[1] in ('keys', 'values', 'items', 'copy') or t.op == 'call' and t.a[0] in ('list', 'tuple') and len(t.a[1].a) == 1:
        t = t.a[0] if t.op == 'mcall' else t.a[1].a[0]
    return t


def stations(chk):
    rule = 'stations of the model'
    fn = chk.need('torque_drag.TorqueDrag.add_survey_points_from_strings')
    ev, r = evaluate(chk, fn.qual, {}, inline=lambda f: f.cls is not None and f.cls.name == 'TorqueDrag')
    news = [e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'name', '') == 'Survey']
    calls = [e for e in ev.events if e.kind == 'call' and e.d['callee'] == 'survey.interpolate_md']
    # each section bottom is interpolated unless the survey has it
    found = set()
    for e in calls:
        m = deep(ev, e.d['bound'].get('md', NONE))
        owner = next((o for o in ('wellbore', 'string') if mk('attr', mk('attr', ME, o), 'sections') in set(subterms(m))), None)
        sv = deep(ev, e.d['bound'].get('survey', NONE))
        if m is ORIG and sv.op == 'idx' and is_const(sv.a[1]):
            chk.bad(rule, 'depths added', f'interpolates {show(sv, 4)[:80]} at the survey', e.loc)
            continue
        if m.op != 'idx' or not is_const(m.a[1]) or owner is None:
            chk.unknown(rule, 'depths added', show(m, 5)[:120], e.loc)
            continue
        c = f'bottoms of the {owner} sections'
        found.add(owner)
        if cval(m.a[1]) != 'bottom':
            chk.bad(rule, c, f'adds the stations at {cval(m.a[1])!r}', e.loc)
            continue
        wrong = None
        for g, pol in e.guards:
            for x in subterms(g):
                if x.op == 'cmp' and x.a[0] == 'in' and x.a[2] is mk('attr', ORIG, 'md') and x.a[1].op == 'idx' and x.a[1].a[0] is m.a[0] and x.a[1] is not m:
                    wrong = f'skipped or kept by whether the survey has {show(x.a[1], 4)[:80]}'
        (chk.bad if wrong else chk.ok)(rule, c, wrong or '', e.loc)
        sv = ev.deref(e.d['bound'].get('survey', NONE))
        if sv is ORIG:
            chk.ok(rule, c + ': interpolated on the survey given')
    for o in ('wellbore', 'string'):
        if o not in found:
            chk.unknown(rule, f'bottoms of the {o} sections', 'not recognised', fn.loc)
    if len(news) != 1:
        chk.unknown(rule, 'rows', f'{len(news)} surveys built', fn.loc)
        return
    b = {k: deep(ev, v) for k, v in news[0].d['bound'].items() if k in ('md', 'inc', 'azi', 'deg')}
    deg = b.get('deg')
    if deg not in (TRUE, FALSE):
        chk.unknown(rule, 'rows', 'unit of the angles not constant', fn.loc)
        return
    u = 'deg' if deg is TRUE else 'rad'
    due = {'md': 'md', 'inc': 'inc_' + u, 'azi': 'azi_grid_' + u}
    order, sources = {}, {}
    for i, (col, attr_) in enumerate(due.items()):
        q = merged(b[col], i)
        if q is None:
            chk.unknown(rule, col + ' of each station', show(b[col], 4)[:150], fn.loc)
            continue
        parts = flat(q[0])
        order[col] = q[1]
        bad = unk = None
        if len(parts) != 2:
            chk.unknown(rule, col + ' of each station', f'{len(parts)} parts', fn.loc)
            continue
        x, y = parts
        if not (x.op == 'attr' and x.a[0] is ORIG):
            unk = 'the given stations: ' + show(x, 4)[:100]
        elif x.a[1] != attr_:
            bad = f'the given stations take {x.a[1]}, where {attr_} is due'
        if y.op == 'comp' and y.a[1].op == 'idx' and y.a[1].a[0].op == 'attr' and y.a[1].a[0].a[0].op in ('elem', 'elemval') and is_const(y.a[1].a[1]) and y.a[3] is TRUE:
            k, at = y.a[1].a[0].a[1], cval(y.a[1].a[1])
            if k != attr_:
                bad = bad or f'the added stations take {k}, where {attr_} is due'
            elif at == 0:
                bad = bad or f'the added stations take {k}[0], the station above'
            elif at != -1 and at != 1:
                unk = unk or f'element {at}'
            sources[col] = y.a[2]
        elif y.op == 'mcall' and y.a[1] == 'keys' and col == 'md':
            sources[col] = y
        else:
            unk = unk or 'the added stations: ' + show(y, 4)[:100]
        (chk.bad if bad else chk.unknown if unk else chk.ok)(rule, col + ' of each station', bad or unk or '', fn.loc)
    rev = {}
    for c, t in sources.items():
        n_ = False
        while True:
            if t.op == 'idx' and sl(t.a[1]) == (NONE, NONE, const(-1)) or t.op == 'call' and t.a[0] == 'reversed':
                n_ = not n_
                t = t.a[0] if t.op == 'idx' else t.a[1].a[0]
            elif t is not bare(t):
                t = bare(t)
            else:
                break
        rev[c] = (t, n_)
    c = 'the columns list the added stations in one order'
    if len(rev) == 3 and len(set(rev.values())) == 1:
        chk.ok(rule, c)
    elif len({t for t, _ in rev.values()}) == 1 and len({x for _, x in rev.values()}) > 1:
        chk.bad(rule, c, 'one column lists them backwards', fn.loc)
    else:
        chk.unknown(rule, c, '', fn.loc)
    first = {flat(x)[0] for x in order.values()}
    if len(order) == 3 and first == {mk('attr', ORIG, 'md')}:
        chk.ok(rule, 'ordered by measured depth')
    elif any(x.op == 'attr' and x.a[0] is ORIG and x.a[1] != 'md' for x in first):
        chk.bad(rule, 'ordered by measured depth', 'ordered by ' + ', '.join(show(x, 3)[:100] for x in first), fn.loc)
    else:
        chk.unknown(rule, 'ordered by measured depth', '', fn.loc)
    # a depth that ends a bore section and a string section is one station
    c = 'no station twice'
    if 'md' in rev and len(found) == 2:
        t = rev['md'][0]
        plain_ = lambda z: z.op == 'comp' and z.a[1].op == 'rcall' and not [x for x in subterms(z.a[3]) if x.op == 'cmp' and x.a[0] == 'in' and x.a[2] is not mk('attr', ORIG, 'md')]
        parts = flat(t)
        uniq = [x for x in subterms(b['md']) if x.op == 'call' and x.a[0] in ('numpy.unique', 'set', 'dict', 'numpy.union1d', 'frozenset') or x.op == 'comp' and x.a[0] in ('set', 'dict')]
        if len(parts) > 1 and all(plain_(z) for z in parts) and not uniq:
            chk.bad(rule, c, 'a depth at which both a bore section and a string section end is added twice', fn.loc)
        elif any(x.op in ('loopout', 'store') for x in subterms(t)) or uniq:
            chk.ok(rule, c)
        else:
            chk.unknown(rule, c, show(t, 3)[:100], fn.loc)
    else:
        chk.unknown(rule, c, '', fn.loc)


def run(chk):
    chk.explanation = 'the element equations, the recurrence from bit to surface for each load case, the per-element properties and the published cases are numbered and compared with the soft-string equations'
    for g in (equations, cases, properties, stations, delegation, hookload):
        chk.group(g)


MINIMUM = 5
