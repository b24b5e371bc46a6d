"""C26 Dogleg severity, build and turn rates use the survey's own length unit."""
import ast
from .common import *
from .c05 import owners, unit_rule, Out
from ..loader import Func
from ..scan import scan

RULE = 'severity formula'
UNITS = ('meters', 'feet')
mono = ranges(inc=(0.2, 1.4), azi=(0.2, 2.9), md=(100., 900.))


def incurve(chk):
    st = S(md=n, inc=n, azi=n, start_xyz=(3,))
    for u in UNITS:
        formula(chk, RULE, 'utils.MinCurve.__init__', 'core.station_dls', params={'unit': const(u)}, out=attr('dls'), shapes=st, construct=f'MinCurve.dls[{u}]')


def survey(chk):
    fn = chk.need('survey.Survey.__init__')
    for u in UNITS:
        ev, r = survey_init(chk, unit=u, skip=('_get_errors', '_get_vertical_section'))
        if ev is None:
            chk.unknown(RULE, f'Survey[{u}]', str(r))
            continue
        for a, spec in (('dls', 'core.station_dls'), ('curve_radius', 'survey.curve_radius'), ('build_rate', 'survey.build_rate'), ('turn_rate', 'survey.turn_rate')):
            t = ev.heap.get((sym('self'), a))
            if t is None:
                chk.unknown(RULE, f'Survey.{a}[{u}]', 'not set')
                continue
            decide(chk, RULE, f'Survey.{a}[{u}]', ev.deref(t), spec_term(chk, spec, {'unit': const(u)}), Lower(SURVEY_SHAPES), mono, loc=fn.loc)


def accepted(chk):
    """no routine that takes a length unit refuses one of the two"""
    R = 'both units are accepted'
    for fn in chk.prog.all_functions():
        ps = [p for p in getattr(fn, 'all_params', list)() if p in ('unit', 'depth_unit')] if isinstance(fn, Func) and fn.parent is None else ()
        if not any(isinstance(x, (ast.Assert, ast.Raise)) for x in ast.walk(fn.node)):
            continue
        for p in ps:
            for u in UNITS:
                ev, r = evaluate(chk, fn.qual, {p: const(u)}, inline=lambda f: f.qual == fn.qual, defaults=False)
                if ev is None:
                    chk.unknown(R, f'{fn.qual}({p}={u!r})', 'not evaluated', fn.loc)
                    continue
                stop = [e for e in ev.events if not e.guards and (e.kind == 'raise' or e.kind == 'assert' and e.d['cond'] is FALSE)]
                if stop:
                    chk.bad(R, f'{fn.qual}({p}={u!r})', f'always refused by the {"assertion" if stop[0].kind == "assert" else "raise"} there', f'{stop[0].rel}:{stop[0].line}')
                else:
                    chk.ok(R, f'{fn.qual}({p}={u!r})', '', fn.loc)


def conversions(chk):
    for q in ('dls_from_radius', 'radius_from_dls'):
        p = chk.need('utils.' + q).params()[0]
        nd = mk('ext', 'numpy.ndarray')
        for arr in (True, False):
            formula(chk, 'conversion', 'utils.' + q, 'core.' + q, shapes=S(**{p: n}) if arr else {}, assume=[(mkcall('isinstance', [sym(p), nd]), arr)],
                    special=[lambda t: 0.0], construct=f'utils.{q}[{"array" if arr else "scalar"}]', specparams={q.split('_')[2]: sym(p)})


def projection(chk):
    fn = chk.need('survey.project_ahead')
    for u in UNITS:
        ev, r = evaluate(chk, 'survey.project_ahead', {'unit': const(u)}, opaque_init=('node.Node',), assume=[(mkcmp('>', sym('dls'), const(0)), True), (mkcmp('==', sym('dls'), const(0)), False), (mkcall('isinstance', [sym('dls'), mk('ext', 'numpy.ndarray')]), False)])
        e = [x for x in ev.events if x.kind == 'new' and x.d['cls'].qual == 'node.Node'] if ev else []
        if not e:
            chk.unknown(RULE, f'survey.project_ahead[{u}]', 'no node built')
            continue
        for a in ('pos', 'vec'):
            decide(chk, RULE, f'survey.project_ahead[{u}].{a}', ev.deref(e[-1].d['bound'][a]), spec_term(chk, f'survey.projected_{a}', {'unit': const(u)}), Lower(S(pos=(3,), vec=(3,))),
                   ranges(vec=(-1., 1.), delta_md=(1., 50.), dls=(0.5, 8.)), loc=fn.loc)


def connector(chk):
    fn = chk.need('connector.Connector.__init__')
    for u in UNITS:
        for deg in (TRUE, FALSE):
            p = {k: NONE for k in ('node1', 'node2', 'vec2', 'md2', 'inc1', 'azi1')}
            p.update(unit=const(u), degrees=deg)
            ev, r = evaluate(chk, 'connector.Connector.__init__', p, given=[sym('dls_design'), sym('dls_design2'), sym('vec1'), sym('pos2'), sym('inc2'), sym('azi2')],
                             assume=[(sym('dls_design2'), True)], inline=lambda f: f.name not in ('_use_method', '_get_method', '_get_nodes', '_get_initial_methods', 'convert_target_input_to_booleans'))
            for a, d in (('radius_design', 'dls_design'), ('radius_design2', 'dls_design2')):
                t = ev.heap.get((sym('self'), a)) if ev else None
                c = f'Connector.{a}[{u}, degrees={cval(deg)}]'
                if t is None:
                    chk.unknown(RULE, c, 'not set')
                    continue
                decide(chk, RULE, c, ev.deref(t), spec_term(chk, 'survey.design_radius', {'unit': const(u), 'degrees': deg, 'dls_design': sym(d)}), Lower({}), ranges(dls_design=(0.5, 6.), dls_design2=(0.5, 6.)), loc=fn.loc)
    me = sym('self')
    for m in ('_min_dist_to_target', '_min_curve_to_target'):
        fn = chk.prog.find('connector.Connector.' + m)
        if fn is None:
            chk.unknown(RULE, f'Connector.{m}', 'gone')
            continue
        ev, r = evaluate(chk, 'connector.Connector.' + m, {}, inline=lambda f: f.qual == 'connector.Connector.' + m)
        g = lambda a: ev.deref(ev.heap.get((me, a), UNDEF)) if ev else UNDEF
        t = g('dls')
        if t is UNDEF:
            chk.unknown(RULE, f'Connector.{m}.dls', 'not set')
            continue
        decide(chk, RULE, f'Connector.{m}.dls', t, spec_term(chk, 'survey.section_dls', {'dogleg': g('dogleg'), 'dist_curve': g('dist_curve'), 'denom': mk('attr', me, 'denom')}), Lower({}, atoms=opaque),
               lambda t: (0.5, 3.), loc=fn.loc, alt=[spec_term(chk, 'survey.section_dls_signed', {'dogleg': g('dogleg'), 'dist_curve': g('dist_curve'), 'denom': mk('attr', me, 'denom')})])


def nonzero_arm(t):
    while t.op == 'ite' and any(is_const(x) and cval(x) == 0 for x in t.a[1:]):
        t = next((x for x in t.a[1:] if not (is_const(x) and cval(x) == 0)), t.a[1])
    return t


def section_terms(chk, unit, fields):
    """the per-section values of get_sections in terms of two stations s (section end) and lb (previous section end)"""
    sv = sym('survey')
    ev, r = evaluate(chk, 'survey.get_sections', {'dls_cont': FALSE, 'rtol': const(.1), 'atol': const(.1)}, before=lambda ev: ev.heap.__setitem__((sv, 'unit'), const(unit)))
    e = [x for x in ev.events if x.kind == 'new' and x.d['cls'].qual == 'survey.TurnPoint'] if ev else []
    if not e:
        return None
    b = e[-1].d['bound']
    at = ev.deref(b['md'])
    if not (at.op == 'idx' and at.a[0] is mk('attr', sv, 'md')):
        return None
    s = at.a[1]
    out = {}
    for f in fields:
        v = nonzero_arm(ev.deref(b[f]))
        keys = [k for k in station_keys(v, sv) if k is not s]
        if len(keys) > 1:
            continue
        ren = {s: sym('s')}
        if keys:
            ren[keys[0]] = sym('lb')
        # the turn point appended last is the one of the previous section end
        for x in subterms(v):
            if x.op == 'attr' and x.a[1] == 'azi' and x.a[0].op == 'idx' and x.a[0].a[0].op in ('phi', 'loopout') and x.a[0].a[1] is const(-1):
                ren[x] = mk('idx', mk('attr', sv, 'azi_grid_deg'), sym('lb'))
        out[f] = top_replace(v, ren)
    return out


def station_keys(t, sv):
    """station indices at which attributes of sv are read, outermost only"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'idx' and x.a[0].op == 'attr' and x.a[0].a[0] is sv:
            if x.a[1] not in out:
                out.append(x.a[1])
            continue
        todo.extend(y for y in x.a if isinstance(y, T))
    return out


def top_replace(t, ren):
    memo = {}

    def go(x):
        if x in ren:
            return ren[x]
        if x not in memo:
            ch = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            memo[x] = x if all(p is q for p, q in zip(ch, x.a)) else mk(x.op, *ch)
        return memo[x]
    return go(t)


def sections(chk):
    fn = chk.need('survey.get_sections')
    for u in UNITS:
        out = section_terms(chk, u, ('build_rate', 'turn_rate', 'dls'))
        for f, spec in (('build_rate', 'section_build'), ('turn_rate', 'section_turn'), ('dls', 'section_severity')):
            if not out or f not in out:
                chk.unknown(RULE, f'get_sections {f}[{u}]', 'section values not recognised', fn.loc)
                continue
            decide(chk, RULE, f'get_sections {f}[{u}]', out[f], spec_term(chk, 'survey.' + spec, {'unit': const(u)}), Lower({}, atoms=scalars), ranges(azi_grid_deg=(1., 359.)), loc=fn.loc)


def scalars(t):
    if t.op == 'idx' and t.a[0].op == 'attr' and t.a[0].a[0] is sym('survey'):
        return A((), {(): t})


def noise(chk):
    """arcs of the maximum-curvature survey"""
    fn = chk.need('survey.Survey.maximum_curvature')
    me = sym('self')
    total = mk('bin', '+', mk('attr', me, 'dls'), sym('dls_noise'))
    for u in UNITS:
        ev, r = evaluate(chk, 'survey.Survey.maximum_curvature', {}, inline=lambda f: f.name in ('radius_from_dls',), opaque_init=('survey.Survey',),
                         before=lambda ev: ev.heap.__setitem__((me, 'unit'), const(u)),
                         assume=[(mkcall('isinstance', [mk('bin', '+', mk('attr', me, 'dls'), sym('dls_noise')), mk('ext', 'numpy.ndarray')]), True)])
        e = [x for x in ev.events if x.kind == 'call' and x.d['callee'] == 'utils.get_arc'] if ev else []
        for f in ('radius', 'dogleg'):
            c = f'Survey.maximum_curvature {f}[{u}]'
            t = ev.deref(e[0].d['bound'][f]) if e else UNDEF
            if t.op == 'elem' and t.a[0].op == 'idx' and t.a[0].a[1].op == 'slice':
                t = t.a[0].a[0]
            else:
                chk.unknown(RULE, c, 'arc not recognised', fn.loc)
                continue
            decide(chk, RULE, c, t, spec_term(chk, 'survey.noisy_' + f, {'unit': const(u)}), Lower({mk('attr', me, 'dls'): n, mk('attr', me, 'delta_md'): n}, facts=lambda c: False if c is mkcmp('==', total, const(0)) else None), ranges(dls=(0.1, 5.), dls_noise=(0.2, 2.), delta_md=(5., 60.)), loc=fn.loc)


def told(chk):
    """a step or a trajectory computed from a survey's stations is told the survey's unit"""
    out = Out(chk)
    for x in scan(chk.prog).sites:
        if x['kind'] != 'told' or set(x['env']) >= {'pos', 'nev', 'cov_nev'}:
            continue        # a node only carries the unit
        f, e, line = x['func'], x['env'], x['node'].lineno
        src = set().union(*[owners(v) for k, v in e.items() if k != 'unit'])
        if not src:
            continue
        chk.count('steps from a survey')

        def put(st, rule, text):
            out.put(st, rule, f'{f.qual}: {ast.unparse(x["node"].func)}', text, f'{f.module.rel}:{line}', line)
        unit_rule(put, e.get('unit'), 'unit' in x['given'], src, None)
    out.flush()


def opaque(t):
    return A((), {(): t}) if t.op in ('rcall', 'idx') else None


def run(chk):
    chk.explanation = 'severity, rate and radius formulas, numbered for metric and imperial surveys separately, against the definitions per 30 m / per 100 ft'
    for g in (incurve, accepted, survey, conversions, projection, connector, sections, noise, told):
        chk.group(g)


MINIMUM = 3
