"""C17 Batched and fast variants compute what the plain versions compute."""
from .common import *
from .c10 import rev4, R as R10, SV

ME = sym('self')
RULE = 'batched curve and hold'
KEYS = ('tangent_length', 'dogleg', 'dist_curve', 'vec_target', 'pos2', 'md')
# geometry around a curve that does reach the target, and one that turns back
AHEAD = ranges(pos1=(-5., 5.), inc=(0.5, 1.1), azi=(0.4, 1.1), pos_target=(40., 90.), radius=(5., 15.), dist=(50., 60.))
SHAPES = {'scalar': S(pos1=(3,), inc=(), azi=(), pos_target=(3,), radius=()), 'batch': S(pos1=('n', 3), inc=n, azi=n, pos_target=('n', 3), radius=n),
          'batch, one radius': S(pos1=('n', 3), inc=n, azi=n, pos_target=('n', 3), radius=())}


AHEAD_ATTR = ranges(pos1=(-5., 5.), inc=(0.5, 1.1), azi=(0.4, 1.1), pos_target=(40., 90.), radius_design=(5., 15.), md1=(0., 50.))


def behind(t):
    """a target behind a start that points south-west and down"""
    v = {'pos1': (1., 2., 3.), 'inc': 0.876, 'azi': 4.037, 'pos_target': (41., 30., -36.), 'radius': 9., 'radius_design': 9., 'md1': 20.}
    i = None
    while isinstance(t, T) and t.op in ('el', 'elat', 'comp_of', 'attr'):
        if t.op == 'comp_of':
            i = t.a[1]
        if t.op == 'attr' and t.a[1] in v:
            x = v[t.a[1]]
            return x if i is None else x[i] if isinstance(x, tuple) else None
        t = t.a[0]
    x = v.get(t.a[0]) if isinstance(t, T) and t.op == 'sym' else None
    return None if x is None or isinstance(x, tuple) != (i is not None) else x if i is None else x[i]


def entry(ev, r, k):
    r = ev.deref(r)
    if r.op != 'dict':
        return None
    v = next((x.a[1] for x in r.a if x.op == 'kv' and x.a[0] is const(k)), None)
    return None if v is None else ev.deref(v)


def batch(chk):
    qual = 'connector.solve_curve_hold_batch'
    fn = chk.need(qual)
    u = spec_term(chk, 'core.direction', {})
    ev, r = evaluate(chk, qual, {'vec1': u})
    if ev is None:
        chk.unknown(RULE, qual, r, fn.loc)
        return
    spec = spec_term(chk, 'batched.curve_hold', {'vec1': u})
    for tag, sh in SHAPES.items():
        L = Lower(sh)
        for k in KEYS:
            v = entry(ev, r, k)
            w = entry(ev, spec, k)
            c = f'solve_curve_hold_batch {k} [{tag}]'
            if v is None:
                chk.unknown(RULE, c, 'entry not found', fn.loc)
                continue
            decide(chk, RULE, c, deep(ev, v), w, L, AHEAD, [behind], loc=fn.loc, maxconds=10)


def scalar(chk):
    """the connector's own steps give the same solution as the batch"""
    q = 'connector.Connector._get_distances'
    fn = chk.prog.find(q)
    u = spec_term(chk, 'core.direction', {})
    pars = {'pos1': sym('pos1'), 'vec1': u, 'pos_target': sym('pos_target')}
    sh = SHAPES['scalar']
    if fn is None:
        chk.unknown(RULE, q, 'this internal function is gone')
    else:
        for i, k in enumerate(('distance', 'along', 'normal')):
            def out(ev, r, i=i):
                # targets on top of the start are handled apart
                def pick(t):
                    t = ev.deref(t)
                    if t.op == 'ite' and any(x.op == 'call' and x.a[0] == 'numpy.allclose' for x in subterms(t.a[0])):
                        return pick(t.a[2] if t.a[0].op != 'not' else t.a[1])
                    return t
                r = pick(r)
                return r.a[i] if r.op in ('tuple', 'list') and i < len(r.a) else None
            formula(chk, RULE, q, 'batched.distances_exact', params=pars, shapes=sh, out=out, specout=lambda t, i=i: t.a[i], ranges=AHEAD, special=[behind], construct=f'Connector._get_distances {k}')
    q = 'connector.Connector._min_dist_to_target'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(RULE, q, 'this internal function is gone')
        return
    a = {'pos1': mk('attr', ME, 'pos1'), 'vec1': u, 'pos_target': mk('attr', ME, 'pos_target')}
    r = mk('attr', ME, 'radius_design')
    dist = spec_term(chk, 'batched.distances', a)
    spec = spec_term(chk, 'batched.curve_hold_of', {**a, 'radius': r, 'dist': dist})

    def before(ev):
        ev.heap[(ME, 'distances')] = dist
        ev.heap[(ME, 'vec1')] = u
    ev, _ = evaluate(chk, q, {}, before=before, inline=lambda f: f.name not in ('_get_angles_target',))
    if ev is None:
        chk.unknown(RULE, q, _, fn.loc)
        return
    sh = {a['pos1']: (3,), a['pos_target']: (3,), sym('inc'): (), sym('azi'): (), r: (), mk('attr', ME, 'md1'): ()}
    for k, x in (('tangent_length', 'tangent_length'), ('dogleg', 'dogleg'), ('dist_curve', 'dist_curve'), ('vec_target', 'vec_target'), ('pos2', 'pos2'), ('vec2', 'vec_target')):
        v = ev.heap.get((ME, k))
        c = f'Connector._min_dist_to_target {k}'
        if v is None:
            chk.unknown(RULE, c, 'not set', fn.loc)
            continue
        decide(chk, RULE, c, deep(ev, v), entry(ev, spec, x), Lower(sh), AHEAD_ATTR, [behind], loc=fn.loc, maxconds=10)
    for k, x in (('md_target', 'tangent_length'), ('md2', None)):
        v = ev.heap.get((ME, k))
        c = f'Connector._min_dist_to_target {k}'
        if v is None:
            chk.unknown(RULE, c, 'not set', fn.loc)
            continue
        w = mk('bin', '+', mk('attr', ME, 'md1'), mkcall('numpy.absolute', [entry(ev, spec, 'dist_curve')]))
        if x:
            w = mk('bin', '+', w, entry(ev, spec, x))
        decide(chk, RULE, c, deep(ev, v), w, Lower(sh), AHEAD_ATTR, [behind], loc=fn.loc, maxconds=10)


def helpers(chk):
    """the routines the batch and the connector share, on vectors and on rows of vectors"""
    v = dict(pos1=(3,), pos_target=(3,), inc=(), azi=())
    u = spec_term(chk, 'core.direction', {})
    for tag, lead in (('scalar', ()), ('batch', n)):
        sh = S(**{k: lead + x for k, x in v.items()}, tangent_length=lead, dist_curve=lead, func_dogleg=lead, dogleg=lead, radius=lead)
        formula(chk, RULE, 'connector.get_vec_target', 'batched.end_vector_of', params={'vec1': u}, shapes=sh, ranges=AHEAD, special=[behind], construct=f'get_vec_target [{tag}]')
        formula(chk, RULE, 'connector.check_dogleg', 'batched.wrapped', shapes=sh, ranges=ranges(dogleg=(-3., 3.)), construct=f'check_dogleg [{tag}]')


def toolface(chk):
    RT = ranges(pos1=(-5., 5.), pos2=(20., 60.), inc=(0.2, 2.8), azi=(0.1, 6.1))
    one = S(pos1=(3,), pos2=(3,), inc=(), azi=())
    # unit direction, as both routines are documented to take
    u = spec_term(chk, 'core.direction', {})
    for q in ('get_toolface_fast', 'get_toolface'):
        formula(chk, 'toolface', 'utils.' + q, 'batched.toolface_of', params={'vec1': u}, specparams={'inc': sym('inc'), 'azi': sym('azi')}, shapes=one, ranges=RT, angle='rad', construct=q, known=((sym('inc'), sym('azi')), (const(1.0), mkcall('numpy.sin', [sym('inc')]))))


def kernels(chk):
    """the one-pass table of sensitivities holds the six separate ones side by side"""
    fn = chk.prog.find('error.ErrorModel._drdp')
    names = ('drk_dDepth', 'drk_dInc', 'drk_dAz', 'drkplus1_dDepth', 'drkplus1_dInc', 'drkplus1_dAz')
    if fn is None:
        chk.unknown('stacked kernels', '_drdp', 'this internal function is gone')
        return
    for flag in (False, True):
        tag = ' [rev 4]' if flag else ''
        L = Lower({SV: ('n', 3)}, facts=rev4(flag))
        ev, r = evaluate(chk, fn.qual, {'survey': SV})
        for k, nm in enumerate(names):
            f = chk.prog.find('error.ErrorModel.' + nm)
            if f is None:
                continue
            e2, r2 = evaluate(chk, f.qual, {'survey': SV})
            if ev is None or e2 is None:
                chk.unknown('stacked kernels', nm + tag, 'not evaluated', f.loc)
                continue
            cols = mk('idx', deep(ev, r), mk('tuple', mk('slice', NONE, NONE, NONE), mk('slice', const(3 * k), const(3 * k + 3), NONE)))
            decide(chk, 'stacked kernels', nm + tag, cols, deep(e2, r2), L, R10, loc=fn.loc, maxconds=12)


def run(chk):
    chk.explanation = 'the batched solver, the fast toolface and the stacked kernels are numbered next to the plain routines, and both are compared with one reference'
    for g in (batch, scalar, helpers, toolface, kernels):
        chk.group(g)


MINIMUM = 5
