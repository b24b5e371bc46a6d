"""C29 Derived surveys carry each station's own data."""
from .common import *
from ..formula import foreign

RULE = 'station data'
COLS = {'survey_rad': ('md', 'inc_rad', 'azi_grid_rad'), 'survey_deg': ('md', 'inc_deg', 'azi_grid_deg'), 'pos_nev': ('n', 'e', 'tvd'), 'pos_xyz': ('x', 'y', 'z')}
HOLD = ('survey.Survey', 'node.Node', 'survey.SurveyHeader', 'connector.Connector')


def sl(lo, hi):
    return mk('slice', lo, hi, NONE)


def stacked(t):
    """(columns) of an array whose rows are stations"""
    if t.op == 'attr' and t.a[1] in COLS:
        return [mk('attr', t.a[0], c) for c in COLS[t.a[1]]]
    if t.op == 'attr' and t.a[1] == 'T' and t.a[0].op == 'list':
        return list(t.a[0].a)
    if t.op == 'call' and t.a[0] in ('numpy.column_stack', 'numpy.transpose') and len(t.a[1].a) == 1 and t.a[1].a[0].op in ('list', 'tuple'):
        return list(t.a[1].a[0].a)
    if t.op == 'call' and t.a[0] == 'numpy.stack' and t.a[1].a[0].op in ('list', 'tuple') and any(x is const(-1) or x is const(1) for x in subterms(t.a[2]) if len(t.a) > 2):
        return list(t.a[1].a[0].a)
    return None


def plain(ev, t):
    """reads of station data in one form: idx(attr(survey, name), rows)"""
    def f(x):
        if x.op == 'tuple':
            return mk('list', *x.a)
        if x.op == 'call' and x.a[0] in ('numpy.array', 'numpy.asarray', 'copy.copy', 'copy.deepcopy') and len(x.a[1].a) >= 1 and x.a[1].a[0].op in ('list', 'attr', 'idx', 'sym'):
            return x.a[1].a[0]
        if x.op == 'mcall' and x.a[1] in ('tolist', 'copy'):
            return x.a[0]
        if x.op == 'ite':
            c = x.a[0]
            if c.op == 'cmp' and c.a[0] == 'is' and NONE in c.a[1:]:
                if x.a[1] is NONE:
                    return x.a[2]
                if x.a[2] is NONE:
                    return x.a[1]
            return mkite(*x.a)
        if x.op == 'rcall' and x.a[0] == 'survey._ensure_int_or_float':
            return next((k.a[1] for k in x.a[1].a if k.a[0] == 'val'), x)
        if x.op == 'idx':
            b, k = x.a
            if b.op == 'attr' and b.a[1] == 'T':
                c = stacked(b.a[0])             # array.T[j]
                if c and is_const(k) and isinstance(cval(k), int) and -len(c) <= cval(k) < len(c):
                    return c[cval(k)]
                if b.a[0].op == 'idx':          # array[rows].T[j]
                    c = stacked(b.a[0].a[0])
                    if c and is_const(k) and isinstance(cval(k), int) and -len(c) <= cval(k) < len(c):
                        return f(mk('idx', c[cval(k)], b.a[0].a[1]))
            c = stacked(b)
            if c and k.op == 'list' and len(k.a) == 2 and is_const(k.a[1]) and isinstance(cval(k.a[1]), int) and -len(c) <= cval(k.a[1]) < len(c):
                return f(mk('idx', c[cval(k.a[1])], k.a[0]))
            if b.op == 'idx' and b.a[1].op == 'slice' and k.op == 'list' and len(k.a) == 2 and is_const(k.a[1]) and isinstance(cval(k.a[1]), int):
                c2 = stacked(b.a[0])            # array[rows][:, j]
                if c2 and -len(c2) <= cval(k.a[1]) < len(c2):
                    y = f(mk('idx', c2[cval(k.a[1])], b.a[1]))
                    return y if k.a[0] is mk('slice', NONE, NONE, NONE) else f(mk('idx', y, k.a[0]))
            if c and k.op not in ('slice', 'list'):
                return mk('list', *[f(mk('idx', z, k)) for z in c])
            if b.op == 'list' and is_const(k) and isinstance(cval(k), int) and -len(b.a) <= cval(k) < len(b.a):
                return b.a[cval(k)]
            if k.op == 'list' and len(k.a) == 1:
                return f(mk('idx', b, k.a[0]))
            if b.op == 'idx' and b.a[1].op == 'slice' and k is const(0) and b.a[1].a[0] is not NONE and b.a[1].a[2] is NONE:
                return mk('idx', b.a[0], b.a[1].a[0])
        return x
    return rebuild(ev.deref(t), f)


def readable(t):
    return all(x.op in ('attr', 'idx', 'list', 'slice', 'const', 'sym', 'bin', 'kw', 'args', 'kws') or x is NONE or x.op == 'rcall' and x.a[0].endswith('._get_azi') for x in subterms(t))


def same(chk, c, got, want, loc, ev, also=()):
    chk.count('station data items')
    if got is None:
        chk.unknown(RULE, c, 'not found', loc)
        return
    g = plain(ev, got)
    ws = [plain(ev, w) for w in (want,) + tuple(also)]
    if g in ws:
        chk.ok(RULE, c, show(ws[0], 4)[:100], loc)
    elif any(x.op == 'attr' and x.a[1].startswith('azi_') for x in subterms(g)) and show(g, 9).replace('azi_true', 'azi_grid').replace('azi_mag', 'azi_grid') == show(ws[0], 9):
        chk.unknown(RULE, c, f'{show(g, 4)[:100]}: the reference is for C03 to judge', loc)
    elif readable(g):
        chk.bad(RULE, c, f'carries {show(g, 6)[:160]}, specified {show(ws[0], 6)[:160]}', loc)
    else:
        chk.unknown(RULE, c, show(g, 6)[:200], loc)


def only(ev, kind, name):
    es = [e for e in ev.events if e.kind == kind and (e.d['cls'].qual == name if kind == 'new' else e.d['callee'] == name)] if ev else []
    return es[0] if len(es) == 1 else None


def run_of(chk, q, cls=None, inline=None):
    return evaluate(chk, q, {}, inline=inline or (lambda f: f.qual == q), opaque_init=HOLD, defaults=False)


S_, A_ = sym('survey'), (lambda a, of=None: mk('attr', of or sym('survey'), a))


def kwarg(e, name, ev):
    """a keyword passed through **kwargs"""
    if name in e.d['bound']:
        return e.d['bound'][name]
    k = ev.deref(e.d['bound'].get('kwargs', UNDEF))
    if k.op == 'dict':
        for x in k.a:
            if x.op == 'kv' and x.a[0] is const(name) or x.op == 'kv' and x.a[0] == name:
                return x.a[1]
    return None


def nodes(chk):
    q = 'survey.get_node'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    e = only(ev, 'new', 'node.Node')
    i = sym(fn.params()[1])
    at = lambda a: mk('idx', A_(a), i)
    b = e.d['bound'] if e else {}
    loc = f'{e.rel}:{e.line}' if e else fn.loc
    same(chk, f'{q} position', b.get('pos'), mk('list', at('n'), at('e'), at('tvd')), loc, ev)
    same(chk, f'{q} direction', b.get('vec'), at('vec_nev'), loc, ev)
    same(chk, f'{q} depth', b.get('md'), at('md'), loc, ev)
    same(chk, f'{q} covariance', b.get('cov_nev'), at('cov_nev'), loc, ev)
    same(chk, f'{q} unit', b.get('unit'), A_('unit'), loc, ev)
    same(chk, f'{q} frame', b.get('nev'), TRUE, loc, ev)
    same(chk, f'{q} interpolated', kwarg(e, 'interpolated', ev) if e else None, sym(fn.params()[2]), loc, ev)


def slices(chk):
    q = 'survey.slice_survey'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    e = only(ev, 'new', 'survey.Survey')
    b = e.d['bound'] if e else {}
    loc = f'{e.rel}:{e.line}' if e else fn.loc
    lo, hi = [sym(p) for p in fn.params()[1:3]]
    at = lambda a: mk('idx', A_(a), sl(lo, hi))
    deg = ev.deref(b.get('deg', TRUE)) if e else None
    if deg not in (TRUE, FALSE):
        chk.unknown(RULE, f'{q} angles', 'unit of the angles not recognised', loc)
    angles = (('inc', 'inc_rad'), ('azi', 'azi_grid_rad')) if deg is FALSE else (('inc', 'inc_deg'), ('azi', 'azi_grid_deg')) if deg is TRUE else ()
    for p, a in (('md', 'md'),) + angles + ( ('n', 'n'), ('e', 'e'), ('tvd', 'tvd'), ('radius', 'radius'), ('cov_hla', 'cov_hla'), ('cov_nev', 'cov_nev')):
        same(chk, f'{q} {p}', b.get(p), at(a), loc, ev)
    for p, names in (('start_nev', COLS['pos_nev']), ('start_xyz', COLS['pos_xyz'])):
        same(chk, f'{q} {p}', b.get(p), mk('list', *[mk('idx', A_(a), lo) for a in names]), loc, ev)
    if ev is not None and r is not None:
        given = ev.heap.get((r, 'error_model')) or (ev.deref(b['error_model']) if b.get('error_model') else None)
        same(chk, f'{q} error model', given, A_('error_model'), fn.loc, ev)


def whole(chk):
    """splicing: every array of the following surveys from their second station on"""
    per = {'md': 'md', 'inc': 'inc_rad', 'azi': None, 'cov_nev': 'cov_nev', 'cov_hla': 'cov_hla', 'radius': 'radius'}
    q = 'survey.SurveyData.__init__'
    fn = chk.need(q)
    me = sym('self')
    ev, r = run_of(chk, q)
    azi = None
    for a, src in dict(per, header='header', start_nev='start_nev', start_xyz='start_xyz').items():
        got = ev.heap.get((me, a)) if ev else None
        if src:
            same(chk, f'SurveyData.{a}', got, A_(src), fn.loc, ev)
        else:
            azi = got
    q = 'survey.SurveyData.append_survey'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    for a, src in per.items():
        c = f'SurveyData.append_survey {a}'
        got = ev.heap.get((me, a)) if ev else None
        t = ev.deref(got) if got is not None else None
        flat = lambda x: x.a[1].a[0] if x.op == 'call' and x.a[0] in ('numpy.reshape', 'numpy.ravel') else flat(x.a[0]) if x.op == 'mcall' and x.a[1] in ('reshape', 'ravel', 'flatten') else x
        t = flat(t) if t is not None else None
        if t is None or t.op != 'call' or t.a[0] not in ('numpy.hstack', 'numpy.concatenate', 'numpy.vstack') or t.a[1].a[0].op not in ('list', 'tuple') or len(t.a[1].a[0].a) != 2:
            chk.unknown(RULE, c, 'joining not recognised', fn.loc)
            continue
        x, y = [flat(z) for z in t.a[1].a[0].a]
        same(chk, f'{c} so far', x, mk('attr', me, a), fn.loc, ev)
        rows = sl(const(1), NONE)
        if src:
            same(chk, c, y, mk('idx', A_(src), rows), fn.loc, ev)
        elif y.op == 'idx' and y.a[1].op == 'slice':
            (chk.ok if y.a[1] is rows else chk.bad)(RULE, c, 'from the second station' if y.a[1] is rows else f'rows {show(y.a[1], 3)}, the first station is already there', fn.loc)
        else:
            chk.unknown(RULE, c, show(y, 4)[:100], fn.loc)
    q = 'survey.SurveyData.get_survey'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    e = only(ev, 'new', 'survey.Survey')
    for p in tuple(per) + ('header', 'start_nev', 'start_xyz'):
        same(chk, f'SurveyData.get_survey {p}', e.d['bound'].get(p) if e else None, mk('attr', me, p), fn.loc, ev)


def projected(chk):
    q = 'survey.project_to_target'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    last = lambda a: mk('idx', A_(a), const(-1))
    e = only(ev, 'call', 'survey.from_connections')
    b = e.d['bound'] if e else {}
    loc = f'{e.rel}:{e.line}' if e else fn.loc
    for p, w in (('start_xyz', last('pos_xyz')), ('start_cov_nev', last('cov_nev')), ('radius', last('radius')), ('error_model', A_('error_model'))):
        same(chk, f'{q} {p}', b.get(p), w, loc, ev)
    es = [x for x in ev.events if x.kind == 'new' and x.d['cls'].qual == 'node.Node'] if ev else []
    if len(es) == 1:
        for p, a in (('pos', 'pos_nev'), ('vec', 'vec_nev'), ('md', 'md')):
            same(chk, f'{q} start {p}', es[0].d['bound'].get(p), last(a), f'{es[0].rel}:{es[0].line}', ev)
    e = only(ev, 'call', 'survey.project_ahead')
    b = e.d['bound'] if e else {}
    for p, a in (('pos', 'pos_nev'), ('vec', 'vec_nev'), ('md', 'md')):
        same(chk, f'{q} bit {p}', b.get(p), last(a), fn.loc, ev)
    for p in ('dls', 'toolface'):
        t = ev.deref(b[p]) if p in b else None
        if t is not None and t.op == 'ite' and t.a[0].op == 'cmp' and t.a[0].a[0] == 'is' and NONE in t.a[0].a[1:] and sym(p) in t.a[0].a[1:]:
            same(chk, f'{q} bit {p} by default', t.a[1], last(p), fn.loc, ev)
            same(chk, f'{q} bit {p} as asked', t.a[2], sym(p), fn.loc, ev)
        else:
            same(chk, f'{q} bit {p}', t, sym(p), fn.loc, ev)


def boolean(t):
    """comp('list', E, ...): the element; conversions removed"""
    while t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list', 'tuple') and t.a[1].a:
        t = t.a[1].a[0]
    return t.a[1] if t.op == 'comp' else None


def added(chk, c, t, ev, known, what, loc):
    """flags: true exactly for stations that are not among `known`"""
    chk.count('interpolation flags')
    e = boolean(ev.deref(t)) if t is not None else None
    if e is None:
        chk.unknown(RULE, c, 'flags not recognised', loc)
        return
    neg = False
    while e.op == 'not':
        neg, e = not neg, e.a[0]
    if e.op == 'ite' and e.a[1] in (TRUE, FALSE) and e.a[2] in (TRUE, FALSE):
        neg, e = neg ^ (e.a[1] is FALSE), e.a[0]
        while e.op == 'not':
            neg, e = not neg, e.a[0]
    if e.op != 'cmp' or e.a[0] not in ('in', 'not in') or not known(e.a[2]):
        chk.unknown(RULE, c, show(e, 4)[:160], loc)
        return
    if e.a[0] == 'not in':
        neg = not neg
    (chk.ok if neg else chk.bad)(RULE, c, f'true for stations that are not {what}' if neg else f'true for {what}', loc)


def flags(chk):
    q = 'survey.interpolate_survey'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    sets = {}
    for e in (ev.events if ev else ()):
        if e.kind == 'setattr':
            sets[e.d.get('attr') or e.d.get('name')] = e
    e = sets.get('interpolated')
    added(chk, f'{q} interpolated', e.d['value'] if e else None, ev, lambda k: plain(ev, k) is A_('md'), "the source's own stations", f'{e.rel}:{e.line}' if e else fn.loc)
    # radius: the last original station at or above
    rec = {}
    for e in (ev.events if ev else ()):
        if e.kind == 'mutcall' and e.d['method'] == 'append' and e.d['args']:
            t = ev.deref(e.d['args'][0])
            if t.op == 'idx' and t.a[0] is A_('radius'):
                rec['radius'] = (t.a[1], e)
            elif any(x is A_('cov_nev') for x in subterms(t)):
                rec['cov_nev'] = (t, e)
    k = None
    if 'radius' in rec:
        k, e = rec['radius']
        loc = f'{e.rel}:{e.line}'
        c = f'{q} radius'
        step = None
        if k.op == 'ite' and all(x.op in ('phi', 'bin') for x in k.a[1:]):
            flag, p, m = k.a
            while flag.op == 'not' or flag.op == 'cmp' and flag.a[0] in ('is', '==', 'is not', '!=') and (flag.a[1] in (TRUE, FALSE) or flag.a[2] in (TRUE, FALSE)):
                if flag.op == 'not':
                    flag, p, m = flag.a[0], m, p
                    continue
                o, v = (flag.a[1], flag.a[2]) if flag.a[2] in (TRUE, FALSE) else (flag.a[2], flag.a[1])
                if (v is FALSE) ^ (flag.a[0] in ('is not', '!=')):
                    p, m = m, p
                flag = o
            inc = lambda x: 0 if x.op == 'phi' else cval(x.a[2]) if x.a[0] == '+' and x.a[1].op == 'phi' and is_const(x.a[2]) else None
            init = next((x.a[2] for x in (p, m) if x.op == 'phi'), None)
            step = (inc(p), inc(m), cval(init) if init is not None and is_const(init) else None)
        if step is None or None in step or flag.op not in ('elem', 'idx'):
            chk.unknown(RULE, c, show(k, 4)[:160], loc)
        elif step == (0, 1, -1):
            chk.ok(RULE, c, 'of the last original station at or above', loc)
        else:
            chk.bad(RULE, c, f'station counter starts at {step[2]}, moves by {step[0]} at added and by {step[1]} at original stations (-1, 0 and 1 are meant)', loc)
    else:
        chk.unknown(RULE, f'{q} radius', 'not recognised', fn.loc)
    if 'cov_nev' in rec and k is not None:
        t, e = rec['cov_nev']
        loc = f'{e.rel}:{e.line}'
        if A_('cov_hla') in set(subterms(t)) and not any(y.op == 'rcall' for y in subterms(t)):
            chk.bad(RULE, f'{q} covariance', 'takes covariances of the other frame: ' + show(t, 6)[:140], loc)
        if t.op == 'bin' and t.a[0] == '+':
            base = next((x for x in t.a[1:] if x.op == 'idx' and x.a[0] is A_('cov_nev')), None)
            off = [x for x in subterms(t) if x.op == 'bin' and x.a[0] == '-' and x.a[2].op == 'idx' and x.a[2].a[0] is A_('md') and x.a[1].op == 'elem']
            if base is not None and len(off) == 1:
                good = base.a[1] is k and off[0].a[2].a[1] is k
                (chk.ok if good else chk.bad)(RULE, f'{q} covariance', 'grows from the last original station at or above' if good else 'base covariance, distance and radius are of different stations', loc)
            else:
                chk.unknown(RULE, f'{q} covariance', show(t, 4)[:160], loc)
    q = 'survey.from_connections'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    e = only(ev, 'new', 'survey.Survey')
    t = kwarg(e, 'interpolated', ev) if e else None
    added(chk, f'{q} interpolated', t, ev, lambda k: True, "the sections' own ends", fn.loc)
    ends = [x for x in ev.events if x.kind == 'mutcall' and x.d['method'] in ('extend', 'append')] if ev else []
    got = set()
    for x in ends:
        for y in x.d['args']:
            for z in subterms(ev.deref(y)):
                if z.op == 'attr' and z.a[1].startswith('md'):
                    got.add(z.a[1])
    if got:
        (chk.ok if got == {'md1', 'md_target'} else chk.bad if got < {'md1', 'md_target', 'md2'} else chk.unknown)(RULE, f'{q} section ends', ', '.join(sorted(got)), fn.loc)
    # between two stations: neither end counts as interpolated
    q = 'survey._interpolate_survey'
    fn = chk.prog.find(q)
    if fn is not None:
        ev, r = run_of(chk, q)
        t = next((ev.deref(e.d['value']) for e in ev.events if e.kind == 'setattr' and (e.d.get('attr') or e.d.get('name')) == 'interpolated'), None) if ev else None
        c = f'{q} interpolated'
        if t is None or t.op not in ('list', 'tuple') or len(t.a) != 2:
            chk.unknown(RULE, c, 'flags not recognised', fn.loc)
        else:
            if t.a[0] in (TRUE, FALSE):
                (chk.ok if t.a[0] is FALSE else chk.bad)(RULE, f'{c} first', 'an original station', fn.loc)
            x, i = [sym(p) for p in fn.params()[1:3]]
            u = plain(ev, t.a[1])
            i1 = mk('bin', '+', i, const(1))
            ends = {const(0): 'the first station', mk('bin', '-', mk('idx', A_('md'), i1), mk('idx', A_('md'), i)): 'the second station', mk('idx', A_('delta_md'), i1): 'the second station'}
            seen, odd = {}, []
            for y in subterms(u):
                if y.op == 'cmp' and x in y.a[1:]:
                    other = [z for z in y.a[1:] if z is not x]
                    w = ends.get(other[0]) if y.a[0] == '==' and other else None
                    if w:
                        seen[y] = w
                    else:
                        odd.append(y)
            if odd:
                hard = all(readable(z) for y in odd for z in y.a[1:]) and all(y.a[0] == '==' for y in odd)
                (chk.bad if hard else chk.unknown)(RULE, c, f'tells the ends of the interval by {show(odd[0], 5)[:160]}', fn.loc)
            else:
                for w in ('the first station', 'the second station'):
                    v = rebuild(u, lambda y: TRUE if seen.get(y) == w else FALSE if y in seen else mkite(*y.a) if y.op == 'ite' else y)
                    v = truth(v)
                    if w not in seen.values():
                        chk.bad(RULE, c, f'{w} counts as interpolated', fn.loc)
                    else:
                        (chk.ok if v is False else chk.bad if v is True else chk.unknown)(RULE, f'{c} at {w}', 'not interpolated' if v is False else 'flag', fn.loc)
                v = truth(rebuild(u, lambda y: FALSE if y in seen else mkite(*y.a) if y.op == 'ite' else y))
                (chk.ok if v is True else chk.bad if v is False else chk.unknown)(RULE, f'{c} in between', 'interpolated' if v else 'flag', fn.loc)
    # the maximum-curvature survey alternates original and added stations
    q = 'survey.Survey.maximum_curvature'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    c = f'{q} interpolated'
    es = [e for e in ev.events if e.kind == 'setitem' and plain(ev, e.d['value']) is mk('attr', sym('self'), 'interpolated')] if ev else []
    if len(es) == 1 and es[0].d['key'].op == 'slice':
        lo, hi, st = es[0].d['key'].a
        good = (lo is NONE or lo is const(0)) and st is const(2)
        (chk.ok if good else chk.bad)(RULE, c, 'original stations are the even ones' if good else f'original flags go to rows {show(es[0].d["key"], 3)}, the original stations are the even rows', f'{es[0].rel}:{es[0].line}')
    else:
        chk.unknown(RULE, c, 'not recognised', fn.loc)
    # nodes taken from an interpolation say whether they are interpolated
    for q, spec in (('survey.Survey.interpolate_md', 'flag'), ('survey.interpolate_tvd', 'x')):
        fn = chk.need(q)
        ev, r = run_of(chk, q, inline=lambda f: f.qual == q or f.parent is not None)
        e = only(ev, 'call', 'survey.get_node')
        c = f'{q} interpolated'
        t = ev.deref(e.d['bound'].get('interpolated', UNDEF)) if e else None
        if t is None:
            chk.unknown(RULE, c, 'node not recognised', fn.loc)
        elif t in (TRUE, FALSE):
            chk.bad(RULE, c, f'always {cval(t)}', fn.loc)
        elif spec == 'flag' and t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[1] == 'interpolated' and is_const(t.a[1]):
            good = cval(t.a[1]) in (-1, 1)
            (chk.ok if good else chk.bad)(RULE, c, "the interpolated station's flag" if good else f'flag of station {cval(t.a[1])}', fn.loc)
        else:
            u = t
            neg = False
            while u.op == 'not':
                neg, u = not neg, u.a[0]
            if u.op == 'cmp' and u.a[0] in ('<', '>') and const(0) in u.a[1:]:
                pos = (u.a[0] == '<' and u.a[1] is const(0)) or (u.a[0] == '>' and u.a[2] is const(0))
                (chk.ok if pos and not neg else chk.bad)(RULE, c, 'past the station' if pos and not neg else 'true at or before the station', fn.loc)
            else:
                chk.unknown(RULE, c, show(t, 3)[:100], fn.loc)


def column(ev, t):
    """attr of the element that a column of an array of per-node rows holds"""
    t = ev.deref(t) if t is not None else None
    while t is not None and t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list'):
        t = t.a[1].a[0]
    if t is None:
        return None
    if t.op == 'comp':
        e = t.a[1]
        return e
    k = None
    if t.op == 'idx' and is_const(t.a[1]) and t.a[0].op == 'attr' and t.a[0].a[1] == 'T':
        k, t = cval(t.a[1]), t.a[0].a[0]
    elif t.op == 'idx' and t.a[1].op in ('list', 'tuple') and len(t.a[1].a) == 2 and is_const(t.a[1].a[1]) and t.a[1].a[0].op == 'slice':
        k, t = cval(t.a[1].a[1]), t.a[0]
    while t.op == 'call' and t.a[0] in ('numpy.array', 'numpy.asarray', 'list'):
        t = t.a[1].a[0]
    if isinstance(k, int) and t.op == 'comp' and t.a[1].op in ('list', 'tuple') and -len(t.a[1].a) <= k < len(t.a[1].a):
        return t.a[1].a[k]
    return None


def columns(chk):
    """the nodes of a TVD interpolation become the stations of the survey"""
    q = 'survey.interpolate_survey_tvd'
    fn = chk.need(q)
    ev, r = run_of(chk, q)
    e = only(ev, 'new', 'survey.Survey')
    loc = f'{e.rel}:{e.line}' if e else fn.loc
    b = e.d['bound'] if e else {}
    of = set()
    deg = ev.deref(b.get('deg', TRUE)) if e else None
    suffix = {FALSE: 'rad', TRUE: 'deg'}.get(deg)
    for p, a in (('md', 'md'), ('inc', f'inc_{suffix}'), ('azi', f'azi_{suffix}'), ('interpolated', 'interpolated')):
        c = f'{q} {p}'
        chk.count('station data items')
        x = column(ev, kwarg(e, p, ev)) if e else None
        if suffix is None or x is None:
            chk.unknown(RULE, c, 'column not recognised', loc)
        elif is_const(x) or x.op == 'attr' and x.a[1] != a and not x.a[1].startswith('_') and x.a[0].op in ('elem', 'bv', 'sym', 'loopvar'):
            chk.bad(RULE, c, f'each station carries {show(x, 3)[:80]}, specified its node\'s {a}', loc)
        elif x.op == 'attr' and x.a[1] == a:
            of.add(x.a[0])
            chk.ok(RULE, c, f"the node's {a}", loc)
        else:
            chk.unknown(RULE, c, show(x, 4)[:120], loc)
    e = only(ev, 'call', 'survey.get_node')
    if e:
        c, loc = f'{q} first node', f'{e.rel}:{e.line}'
        i, first = ev.deref(e.d['bound']['idx']), ev.deref(e.d['bound']['interpolated'])
        zero = i is const(0) or any(pol and g.op == 'cmp' and g.a[0] == '==' and i in g.a[1:] and const(0) in g.a[1:] for g, pol in e.guards)
        if zero or is_const(i):
            (chk.ok if zero else chk.bad)(RULE, c, 'of the first station' if zero else f'of station {cval(i)}', loc)
        if first in (TRUE, FALSE):
            (chk.ok if first is FALSE else chk.bad)(RULE, f'{c} flag', str(cval(first)), loc)
    # a node placed between stations is an interpolated one, a station reached is not
    for e in (ev.events if ev else ()):
        if e.kind == 'setattr' and (e.d.get('attr') or e.d.get('name')) == 'interpolated':
            o, v = e.d['obj'], ev.deref(e.d['value'])
            new = o.op == 'rcall' and o.a[0] == 'survey.get_node_tvd'
            old = any(pol and g.op in ('call', 'rcall') and 'isclose' in str(g.a[0]) for g, pol in e.guards)
            c = f'{q} flag of ' + ('an added node' if new else 'a station reached' if old else show(o, 2)[:60])
            if v not in (TRUE, FALSE) or not (new or old):
                chk.unknown(RULE, c, show(v, 3)[:80], f'{e.rel}:{e.line}')
            else:
                (chk.ok if (v is TRUE) == new else chk.bad)(RULE, c, str(cval(v)), f'{e.rel}:{e.line}')


def truth(v):
    if v in (TRUE, FALSE):
        return v is TRUE
    if v.op == 'not':
        r = truth(v.a[0])
        return None if r is None else not r
    if v.op in ('and', 'or'):
        rs = [truth(x) for x in v.a]
        if v.op == 'or':
            return True if True in rs else None if None in rs else False
        return False if False in rs else None if None in rs else True
    if v.op == 'ite':
        c = truth(v.a[0])
        return None if c is None else truth(v.a[1] if c else v.a[2])
    if v.op == 'call' and v.a[0] in ('any', 'all', 'bool') and v.a[1].a and v.a[1].a[0].op in ('list', 'tuple'):
        return truth(mk('or' if v.a[0] == 'any' else 'and', *v.a[1].a[0].a))
    return None


def run(chk):
    chk.explanation = ('value numbering of each routine that builds a survey or a node from an existing survey; every per-station item handed on is reduced to a read '
                       'of the source (attribute and rows) and compared with the specified read; interpolation flags are decided as Boolean functions of the station tests')
    for f in (nodes, slices, whole, projected, flags, columns):
        chk.group(f)
