"""C09 Weight functions equal the published weighting formulas."""
from .common import *
from ..formula import spec_module, spec_func

E_ = sym('error')
SV = mk('attr', E_, 'survey')
HD = mk('attr', SV, 'header')
SH = {mk('attr', E_, 'drdp'): ('n', 18)}
for _a in ('inc_rad', 'inc_deg', 'azi_mag_rad', 'azi_true_rad', 'azi_grid_rad', 'md', 'tvd'):
    SH[mk('attr', SV, _a)] = ('n',)
for _o, _z in ((E_, 'azi_true_rad'), (SV, 'azi_grid_rad')):
    SH[mk('attr', _o, 'survey_rad')] = A(('n', 3), {(0, i): mk('el', mk('attr', SV, x), 0) for i, x in enumerate(('md', 'inc_rad', _z))})
LIMIT = mk('attr', HD, 'vertical_inc_limit')
INC = mk('el', mk('attr', SV, 'inc_rad'), 0)
SINGULAR = mkcmp('<', INC, LIMIT)
R = ranges(inc_rad=(0.1, 3.0), azi_mag_rad=(0.1, 6.1), azi_true_rad=(0.1, 6.1), azi_grid_rad=(0.1, 6.1), md=(100., 900.), tvd=(100., 900.), dip=(0.4, 1.4), G=(9.7, 9.9), b_total=(2e4, 6e4), tortuosity=(0.0005, 0.002), mag=(0.001, 0.1), vertical_inc_limit=(0.00005, 0.0002))
RS = ranges(inc_rad=(0., 0.00004), azi_mag_rad=(0.1, 6.1), azi_true_rad=(0.1, 6.1), azi_grid_rad=(0.1, 6.1), md=(100., 900.), tvd=(100., 900.), dip=(0.4, 1.4), G=(9.7, 9.9), b_total=(2e4, 6e4), mag=(0.001, 0.1), vertical_inc_limit=(0.00005, 0.0002))
FORCED = {'XYM2': 'systematic', 'XYM4L': 'random'}   # documented exceptions to the propagation given
# the sensitivity to azimuth carries the published sign opposite throughout: only the term's covariance is used
SINGULAR_TERMS = ('ABXY_TI2', 'ABIXY_TI2', 'CNA', 'XYM3', 'XYM4', 'XYM3E', 'XYM4E', 'XYM3L', 'XYM4L')
EXTENDED = ('XCLA', 'XCLH')


def atoms(t):
    el = lambda x, k: mk('el', x, k)
    md, az = mk('attr', SV, 'md'), mk('attr', SV, 'azi_true_rad')
    if t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[1] == 'drdp_sing' and is_const(t.a[1]):
        v = {'double_delta_md': mk('bin', '-', el(md, 2), el(md, 0)), 'delta_md': mk('bin', '-', el(md, 1), el(md, 0)), 'azi2': el(az, 1)}.get(cval(t.a[1]))
        return None if v is None else A(('n',), {(0,): v})
    return None


def has_len(c):
    return any(x.op == 'call' and x.a[0] in ('len', 'builtins.len') or x.op == 'attr' and x.a[1] in ('size', 'shape') or x.op == 'call' and x.a[0] in ('numpy.any', 'numpy.size', 'numpy.count_nonzero') for x in subterms(c))


def regime(t, first=None, last=None, singular=None, memo=None):
    """the value at the stations of one kind (first / last / below the vertical limit)"""
    m = {mk('ieq', 0): first, mk('ilast', 0): last, SINGULAR: singular, mk('ilast', ('at', 1)): False}

    def f(x):
        v = m.get(x)
        if v is not None:
            return TRUE if v else FALSE
        if x.op == 'ite':
            return mkite(*x.a)
        if x.op == 'or':
            if any(y is TRUE for y in x.a):
                return TRUE
            ys = [y for y in x.a if y is not FALSE]
            return FALSE if not ys else ys[0] if len(ys) == 1 else mk('or', *ys)
        if x.op == 'and':
            if any(y is FALSE for y in x.a):
                return FALSE
            ys = [y for y in x.a if y is not TRUE]
            return TRUE if not ys else ys[0] if len(ys) == 1 else mk('and', *ys)
        if x.op == 'not' and x.a[0] in (TRUE, FALSE):
            return FALSE if x.a[0] is TRUE else TRUE
        return None
    return rebuild(t, f, memo)


def restrict(a, **kw):
    memo = {}
    return A(a.shape, {k: regime(v, memo=memo, **kw) for k, v in a.d.items()})


def scaled(a, k):
    return A(a.shape, {ix: mk('bin', '*', v, k) for ix, v in a.d.items()})


def limit_used(chk, what, a, limit, inc, loc):
    """a station is near vertical when its own inclination, in radians, is below the limit"""
    for x in {y for v in a.d.values() for y in subterms(v) if y.op == 'cmp' and any(z is limit for w in y.a[1:] for z in subterms(w))}:
        c = f'{what}: near vertical'
        l, r = x.a[1:]
        if x.a[0] == '<' and r is limit and l.op == 'el' and l.a[0] is inc:
            chk.ok('vertical limit', c)
        elif l is limit and r.op == 'el' and r.a[0] is inc or l.op == 'el' and l.a[0] is inc:
            u = r if l.op == 'el' else l
            if u is limit:
                chk.unknown('vertical limit', c, show(x, 5), loc)
            else:
                chk.bad('vertical limit', c, f'{show(x, 5)}: the limit is an angle in radians', loc)
        elif any(z.op == 'el' and z.a[0].op == 'attr' and z.a[0].a[1] in ('inc_deg', 'azi_grid_rad', 'azi_grid_deg', 'azi_true_rad', 'azi_mag_rad', 'md', 'tvd') for z in subterms(l if r is limit else r)):
            chk.bad('vertical limit', c, f'{show(x, 5)}: specified the inclination in radians', loc)
        else:
            chk.unknown('vertical limit', c, show(x, 5), loc)


def generated(chk, name):
    """the `_generate_error` calls of one weight function: [(bound arguments, result)]"""
    fn = chk.need('errors.tool_errors.' + name)

    def before(ev):
        ev.hints[E_] = chk.need('error.ErrorModel')
    ev, r = evaluate(chk, fn.qual, {'error': E_, 'NEV': TRUE, 'code': const(name) if name in EXTENDED else sym('code')}, before=before, inline=lambda f: f.name != '_generate_error')
    if ev is None:
        return None, []
    others = {'errors.tool_errors.' + x for x in registered(chk).values()} - {fn.qual}
    out = [x for x in ev.events if x.kind == 'call' and str(x.d['callee']).endswith('._generate_error') and not others & set(x.stack)]
    return ev, out


def spec_args():
    s = lambda a: mk('attr', SV, a)
    h = lambda a: mk('attr', HD, a)
    return {'error': E_, 'inc': s('inc_rad'), 'azm': s('azi_mag_rad'), 'azt': s('azi_true_rad'), 'md': s('md'), 'tvd': s('tvd'), 'dip': h('dip'), 'G': h('G'), 'B': h('b_total'),
            'limit': LIMIT, 'drdp': mk('attr', E_, 'drdp')}


def lower(revision4):
    def facts(c):
        if has_len(c):
            # some station is below the limit; the survey has more than two stations
            r = c
            while r.op == 'not':
                r = r.a[0]
            if r.op == 'cmp' and r.a[0] in ('<', '==', '<=') and any(is_const(x) for x in r.a[1:]):
                return False if is_const(r.a[2]) else True
            if r.op == 'cmp' and r.a[0] in ('>', '>=', '!='):
                return True if is_const(r.a[2]) else False
            return None
        if any(x.op == 'attr' and x.a[1] == 'error_model' for x in subterms(c)) and c.op == 'cmp':
            if c.a[0] == '==':
                return revision4
            if c.a[0] == '!=':
                return not revision4
        return None
    return Lower(SH, atoms=atoms, facts=facts)


def sign_alt(chk, name, sp):
    return [scaled(sp, const(-1))]


def weights(chk, name):
    if spec_module(chk.prog, 'weights').funcs.get(name) is None:
        chk.unknown('published weight', name, 'no published formula on file for this weight function')
        return
    fn = chk.need('errors.tool_errors.' + name)
    ev, calls = generated(chk, name)
    if not calls:
        chk.unknown('published weight', name, 'no error generated', fn.loc)
        return
    L = lower(False)
    mag = sym('mag')
    if name in EXTENDED:
        for e in calls:
            b = e.d['bound']
            sp = L(spec_term(chk, 'weights.' + name, dict(spec_args(), tortuosity=tort(ev, b))))
            for f in ('e_DIA', 'e_NEV', 'e_NEV_star'):
                decide(chk, 'published error vector', f'{name} {f}', L(ev.deref(b[f])), scaled(sp, mag), L, R, loc=fn.loc, maxconds=12)
            propagation(chk, name, ev, b, fn)
        return
    sp = scaled(L(spec_term(chk, 'weights.' + name, spec_args())), mag)
    alts = sign_alt(chk, name, sp)
    for var in ('_clamped', '_plain'):
        if name + var in spec_module(chk.prog, 'weights').funcs:
            q = scaled(L(spec_term(chk, 'weights.' + name + var, spec_args())), mag)
            alts += [q, scaled(q, const(-1))]
    rg = lambda a: restrict(a, first=False, singular=False)
    for k, e in enumerate(calls):
        b = e.d['bound']
        d = ev.deref(b['e_DIA'])
        try:
            code = L(d)
        except Unsup as x:
            chk.unknown('published weight', name, f'not expressible: {x}', fn.loc)
            continue
        decide(chk, 'published weight', name, rg(code), rg(sp), L, R, loc=fn.loc, alt=[rg(x) for x in alts], maxconds=12)
        propagation(chk, name, ev, b, fn)


def tort(ev, b):
    for t in subterms(ev.deref(b['e_DIA'])):
        if t.op == 'kwget' or t.op == 'idx' and t.a[1] is const('tortuosity'):
            return t
    return sym('tortuosity')


def propagation(chk, name, ev, b, fn):
    want = const(FORCED[name]) if name in FORCED else sym('propagation')
    t = ev.deref(b['propagation'])
    if t is want:
        chk.ok('propagation passed on', name)
    elif is_const(t) or t.op == 'sym':
        chk.bad('propagation passed on', name, f'the term is accumulated as {show(t)} instead of {show(want)}', fn.loc)
    else:
        chk.unknown('propagation passed on', name, show(t), fn.loc)


def near_vertical(chk, name, rev4=False):
    sname = f'sing_{name}' + ('_rev4' if rev4 else '')
    fn = chk.need('errors.tool_errors.' + name)
    tag = name + ('[rev4]' if rev4 else '')
    ev, calls = generated(chk, name)
    L = lower(rev4)
    mag = sym('mag')
    n = 0
    for e in calls:
        b = e.d['bound']
        v = {f: ev.deref(b.get(f, NONE)) for f in ('e_NEV', 'e_NEV_star')}
        if any(x is NONE for x in v.values()):
            continue
        n += 1
        for f, half, reg in (('e_NEV', 'both', 'regular_both'), ('e_NEV_star', 'above', 'regular_above')):
            if name == 'XYM4E':
                v[f] = through(ev, chk, v[f])
            sa = spec_args()
            part = lambda first: spec_term(chk, 'weights.' + half, dict(sa, first=const(first)))
            sing = scaled(L(spec_term(chk, 'weights.' + sname, dict(sa, h=part(False), hf=part(True)))), mag)
            try:
                code = L(v[f])
            except Unsup as x:
                chk.unknown('near-vertical error', f'{tag} {f}', f'not expressible: {x}', fn.loc)
                continue
            limit_used(chk, f'{tag} {f}', code, LIMIT, mk('attr', SV, 'inc_rad'), fn.loc)
            where = dict(first=False, singular=True)
            if f == 'e_NEV':
                where['last'] = False        # nothing follows the last station
            decide(chk, 'near-vertical error', f'{tag} {f}', restrict(code, **where), restrict(sing, **where), L, RS, loc=fn.loc, maxconds=12)
            regular = L(spec_term(chk, 'weights.' + reg, dict(sa, e=ev.deref(b['e_DIA']))))
            where = dict(singular=False)
            if f == 'e_NEV':
                where['last'] = False
            decide(chk, 'regular error unchanged', f'{tag} {f}', restrict(code, **where), restrict(regular, **where), L, R, loc=fn.loc, maxconds=12)
    if not n:
        chk.unknown('near-vertical error', tag, 'no separate near-vertical error vectors', fn.loc)


def through(ev, chk, t):
    """error vectors read from the error object that another weight function made are the ones it was made with"""
    made = {x.d['result']: x.d['bound'] for x in ev.events if x.kind == 'call' and str(x.d['callee']).endswith('._generate_error')}

    def f(x):
        if x.op == 'attr' and x.a[1] in ('e_NEV', 'e_NEV_star', 'e_DIA'):
            o = x.a[0]
            while o.op == 'ite':
                o = next((y for y in o.a[1:] if y in made and made[y].get(x.a[1], NONE) is not NONE), NONE)
            if o in made:
                return ev.deref(made[o][x.a[1]])
        return None
    return rebuild(t, f)


def run(chk):
    chk.explanation = 'each weight function is numbered station-wise and compared with the published sensitivities'
    names = registered(chk)
    for nm in names:
        if nm != 'XCL':
            chk.group(weights, nm)
    for nm in SINGULAR_TERMS:
        if nm in names:
            chk.group(near_vertical, nm)
            if nm == 'ABXY_TI2':
                chk.group(near_vertical, nm, True)
    chk.group(shipped)
    chk.group(interpreter)
    chk.group(functions)


# ---------------------------------------------------------------- shipped formula texts and their interpreter
AXES = ('depth_formula', 'inclination_formula', 'azimuth_formula', 'north_singularity', 'east_singularity', 'vertical_singularity')
VBFUNCS = {'sin': 'numpy.sin', 'cos': 'numpy.cos', 'tan': 'numpy.tan', 'asin': 'numpy.arcsin', 'acos': 'numpy.arccos', 'atan': 'numpy.arctan', 'abs': 'numpy.abs', 'sqr': 'numpy.sqrt', 'sqrt': 'numpy.sqrt',
           'exp': 'numpy.exp', 'log': 'numpy.log', 'max': 'numpy.maximum', 'min': 'numpy.minimum'}
FR = ranges(inc=(0.2, 1.4), azm=(0.1, 6.1), azt=(0.1, 6.1), az=(0.1, 6.1), md=(100., 900.), tvd=(100., 900.), dip=(0.4, 1.4), gfield=(9.7, 9.9), bfield=(2e4, 6e4), latitude=(0.1, 1.2), earthrate=(0.25, 0.27),
            incprev=(0.2, 1.4), azprev=(0.1, 6.1), mdprev=(10., 90.))


def parse_formula(text):
    """term of a formula in the definition language (spreadsheet notation)"""
    import ast
    text = str(text).replace(' ', '').replace('^', '**') or '0'

    def go(nd):
        if isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)):
            return const(float(nd.value))
        if isinstance(nd, ast.Name):
            v = nd.id.lower()
            return mk('pi') if v == 'pi' else mk('bin', '/', mk('pi'), const(180.0)) if v == 'rad' else sym(v)
        if isinstance(nd, ast.BinOp):
            return mk('bin', {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**'}[type(nd.op)], go(nd.left), go(nd.right))
        if isinstance(nd, ast.UnaryOp):
            return go(nd.operand) if isinstance(nd.op, ast.UAdd) else mk('bin', '-', const(0.0), go(nd.operand))
        if isinstance(nd, ast.Call):
            return mkcall(VBFUNCS[nd.func.id.lower()], [go(x) for x in nd.args])
        raise ValueError(type(nd).__name__)
    return go(ast.parse(text, mode='eval').body)


def shipped(chk):
    import glob, json, os
    from ..formula import SPEC
    with open(os.path.join(SPEC, 'formulas.json')) as f:
        published = json.load(f)
    root = os.path.join(chk.prog.root, 'welleng', 'errors', 'iscwsa_json')
    verdict, cache = {}, {}

    def term(x):
        if x not in cache:
            cache[x] = parse_formula(x)
        return cache[x]
    for path in sorted(glob.glob(os.path.join(root, '**', '*.json'), recursive=True)):
        rel = os.path.relpath(path, chk.prog.root)
        with open(path) as f:
            model = json.load(f)
        for t in model.get('terms', ()):
            wf = t.get('x_owsg_weight_function')
            chk.count('shipped terms')
            texts = tuple('' if t.get(a) is None else str(t[a]).replace(' ', '') for a in AXES)
            if wf not in published:
                chk.unknown('shipped formula', f'{rel} {t.get("name")}', f'no published formula on file for {wf}')
                continue
            if (wf, texts) not in verdict:
                verdict[wf, texts] = same(chk, texts, published[wf], term)
            v = verdict[wf, texts]
            if v is None:
                chk.ok('shipped formula', f'{wf} as in {len(published[wf])} published form(s)')
            elif v[0] == 'differ':
                chk.bad('shipped formula', f'{rel} {t.get("name")}', f'{wf} {v[1]}', rel)
            else:
                chk.unknown('shipped formula', f'{rel} {t.get("name")}', v[1], rel)


def same(chk, texts, published, term):
    from ..nf import compare
    best = None
    for p in published:
        bad = None
        for a, x, y in zip(AXES, texts, p):
            if x == y:
                continue
            if (x == '') != (y == ''):
                bad = ('differ', f'{a} is {x!r}, published {y!r}')
                break
            try:
                st, info = compare(term(x), term(y), ranges=FR)
            except (ValueError, SyntaxError, KeyError) as e:
                bad = ('unknown', f'{a}: {x!r} not readable: {e}')
                break
            if st != 'equal':
                bad = (st, f'{a} is {x!r}, published {y!r}')
                break
        if bad is None:
            return None
        best = best or bad
    return best


BOUND = {'md': 'md', 'inc': 'inc', 'azt': 'azt', 'azm': 'azm', 'az': 'azg', 'tvd': 'tvd', 'gfield': 'G', 'dip': 'dip', 'bfield': 'B', 'earthrate': 'rate', 'latitude': 'lat', 'rad': 'rad'}


def interpreter(chk):
    qual = 'errors.tool_errors.ToolError._call_interpreter'
    me = sym('self')
    e = mk('attr', me, 'e')
    sv = mk('attr', e, 'survey')
    hd = mk('attr', sv, 'header')

    def before(ev):
        ev.hints[e] = chk.need('error.ErrorModel')
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('variables of the formulas', qual, 'this internal function is gone')
        return
    ev, r = evaluate(chk, qual, {}, before=before, inline=lambda f: f.name not in ('_generate_error', 'evaluate_formula'))
    if ev is None:
        chk.unknown('variables of the formulas', qual, r)
        return
    s = lambda a: mk('attr', sv, a)
    want = {'md': s('md'), 'inc': s('inc_rad'), 'azt': s('azi_true_rad'), 'azm': s('azi_mag_rad'), 'azg': s('azi_grid_rad'), 'tvd': s('tvd'), 'G': mk('attr', hd, 'G'), 'dip': mk('attr', hd, 'dip'),
            'B': mk('attr', hd, 'b_total'), 'rate': const(0.262516), 'lat': mkcall('numpy.radians', [mk('attr', hd, 'latitude')]), 'rad': mk('bin', '/', mk('pi'), const(180.0))}
    sh = {s(a): ('n',) for a in ('md', 'inc_rad', 'inc_deg', 'azi_true_rad', 'azi_mag_rad', 'azi_grid_rad', 'tvd')}
    sh[mk('attr', e, 'survey_rad')] = A(('n', 3), {(0, i): mk('el', s(x), 0) for i, x in enumerate(('md', 'inc_rad', 'azi_true_rad'))})
    sh[mk('attr', e, 'drdp')] = ('n', 18)
    rg = ranges(inc_rad=(0.1, 3.0), azi_mag_rad=(0.1, 6.1), azi_true_rad=(0.1, 6.1), azi_grid_rad=(0.1, 6.1), md=(100., 900.), tvd=(100., 900.), dip=(0.4, 1.4), G=(9.7, 9.9), b_total=(2e4, 6e4), latitude=(1., 80.), mag=(0.001, 0.1), vertical_inc_limit=(0.00005, 0.0002))

    def facts(c):
        if c.op == 'attr' and c.a[1] in ('b_total', 'latitude'):
            return True
        if c.op == 'call' and c.a[0] in ('numpy.any',):
            return True
        return True if has_len(c) else None
    L = Lower(sh, facts=facts)
    texts = {}
    for x in ev.events:
        if x.kind == 'call' and str(x.d['callee']).endswith('.evaluate_formula'):
            f, bd = ev.deref(x.d['bound'].get('formula', NONE)), ev.deref(x.d['bound'].get('bindings', NONE))
            key = next((cval(y) for y in subterms(f) if is_const(y) and cval(y) in AXES), None)
            texts[x.d['result']] = key
            sing = key is not None and 'singularity' in key
            if bd.op != 'dict':
                chk.unknown('variables of the formulas', f'{key}', show(bd)[:200], fn.loc)
                continue
            names = {}
            for kv in bd.a:
                if kv.op == 'kv' and is_const(kv.a[0]):
                    names[cval(kv.a[0])] = kv.a[1]
            for k, v in names.items():
                w = BOUND.get(k.lower())
                if w is None:
                    chk.unknown('variables of the formulas', k, 'not a published variable', fn.loc)
                    continue
                # below the vertical limit the direction expressions use the azimuth of the propagation (true)
                t = want['azt'] if sing and w == 'azg' else want[w]
                decide(chk, 'variables of the formulas', k + (' near vertical' if sing else ''), v, t, L, rg, loc=fn.loc)
    made = [x for x in ev.events if x.kind == 'call' and str(x.d['callee']).endswith('._generate_error')]
    if not made or not texts:
        chk.unknown('formula error vector', qual, 'no error generated', fn.loc)
        return
    def present(x):
        return sym('present ' + next((cval(y) for y in subterms(x) if is_const(y) and cval(y) in AXES), '')) if x.op == 'mcall' else x.op == 'sym' and str(x.a[0]).startswith('present ')

    def simplify(t):
        def f(x):
            if x.op == 'exc':
                return FALSE
            if x in texts and texts[x]:
                return sym(texts[x])
            if x.op == 'rcall' and str(x.a[0]).endswith('evaluate_formula'):
                key = next((y.a[0][8:] for y in subterms(x) if y.op == 'sym' and present(y)), None)
                return sym(key) if key else None
            if x.op == 'mcall' and x.a[1] == 'get' and x.a[0] == sym('term'):
                return present(x)
            if x.op == 'mcall' and x.a[1] == 'get' or x.op == 'idx' and x.a[0].op == 'dict':
                return sym('scale')
            if x.op == 'cmp' and x.a[0] in ('is', '==') and NONE in x.a[1:] and any(present(y) for y in x.a[1:] if y.op == 'sym'):
                return FALSE
            if x.op in ('ite',):
                return mkite(*x.a)
            if x.op == 'not' and x.a[0] in (TRUE, FALSE):
                return FALSE if x.a[0] is TRUE else TRUE
            if x.op == 'or' and any(y is TRUE for y in x.a):
                return TRUE
            if x.op == 'and' and any(y is FALSE for y in x.a):
                return FALSE
            if x.op == 'call' and x.a[0] == 'numpy.any' or x.op == 'and' and all(y is TRUE for y in x.a):
                return TRUE
            return None
        return rebuild(t, f)
    for k in AXES:
        sh[sym(k)] = ('n',)
    limit = mk('attr', hd, 'vertical_inc_limit')
    singular = mkcmp('<', mk('el', s('inc_rad'), 0), limit)
    k = mk('bin', '*', sym('mag'), sym('scale'))
    el = lambda x: mk('el', sym(x), 0)
    three = lambda names: A(('n', 3), {(0, i): mk('bin', '*', el(x), k) for i, x in enumerate(names)})
    lim = lambda a, **kw: restrict(A(a.shape, {ix: rebuild(v, lambda x: SINGULAR if x is singular else None) for ix, v in a.d.items()}), **kw)
    for x in made:
        b = x.d['bound']
        dia = L(simplify(ev.deref(b['e_DIA'])))
        near = ev.deref(b.get('e_NEV', NONE)) is not NONE
        tag = ' (model with near-vertical expressions)' if near else ''
        decide(chk, 'formula error vector', 'depth, inclination, azimuth' + tag, lim(dia, singular=False), three(AXES[:3]), L, rg, loc=fn.loc)
        t = ev.deref(b['propagation'])
        (chk.ok if t is sym('propagation') else chk.unknown)('propagation passed on', 'formula terms' + tag, show(t)[:100], fn.loc)
        if not near:
            continue
        for f, half, reg in (('e_NEV', 'both', 'regular_both'), ('e_NEV_star', 'above', 'regular_above')):
            v = L(simplify(ev.deref(b[f])))
            limit_used(chk, f'formula terms {f}', v, limit, s('inc_rad'), fn.loc)
            part = spec_term(chk, 'weights.' + half, {'md': s('md'), 'first': FALSE})
            hl = L(part)
            hs = hl.d[next(iter(hl.d))]
            sp = A(('n', 3), {(0, i): mk('bin', '*', mk('bin', '*', el(a), hs), k) for i, a in enumerate(AXES[3:])})
            where = dict(first=False, singular=True)
            if f == 'e_NEV':
                where['last'] = False
            decide(chk, 'formula near-vertical error', f, lim(v, **where), lim(sp, **where), L, rg, loc=fn.loc)
            where['singular'] = False
            regular = L(spec_term(chk, 'weights.' + reg, {'drdp': mk('attr', e, 'drdp'), 'e': simplify(ev.deref(b['e_DIA']))}))
            decide(chk, 'regular error unchanged', f'formula terms {f}', lim(v, **where), lim(regular, **where), L, rg, loc=fn.loc)


def functions(chk):
    """spreadsheet function name -> rewritten name -> numerical function"""
    import ast
    m = chk.prog.mod('errors.interpreter')
    ev, r = evaluate(chk, 'errors.interpreter.evaluate_formula', {'formula': sym('formula')})
    if ev is None:
        return
    table, ns = {}, {}
    for nd in m.tree.body:
        if isinstance(nd, (ast.Assign, ast.AnnAssign)) and isinstance(nd.value, ast.Dict):
            for k, v in zip(nd.value.keys, nd.value.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Constant) and isinstance(k.value, str) and k.value.lower() in VBFUNCS:
                    table[k.value] = v.value
    for t in subterms(ev.deref(r)):
        if t.op == 'kv' and is_const(t.a[0]) and t.a[1].op in ('ext', 'extfn', 'fn', 'pi', 'const', 'func'):
            ns[cval(t.a[0])] = t.a[1]
    if not table or not ns:
        chk.unknown('functions of the formulas', 'errors.interpreter', 'function tables not found')
        return
    for k, py in sorted(table.items()):
        v = ns.get(py)
        got = v.a[0] if v is not None and isinstance(v.a[0], str) else None
        canon = lambda x: {'numpy.absolute': 'numpy.abs', 'numpy.fmax': 'numpy.maximum', 'numpy.asin': 'numpy.arcsin'}.get(x, x)
        if got is None:
            chk.unknown('functions of the formulas', k, f'{py} -> {show(v) if v is not None else None}')
        elif canon(got) == VBFUNCS[k.lower()]:
            chk.ok('functions of the formulas', k)
        elif canon(got) in VBFUNCS.values():
            chk.bad('functions of the formulas', k, f'evaluated as {got}', m.rel)
        else:
            chk.unknown('functions of the formulas', k, f'evaluated as {got}')


def registered(chk):
    import ast
    f = chk.need('errors.tool_errors.ToolError._initiate_func_dict')
    out = {}
    for nd in ast.walk(f.node):
        if isinstance(nd, ast.Dict):
            for k, v in zip(nd.keys, nd.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Name):
                    out[k.value] = v.id
    return out
