"""C06 Coordinate frames: NEV, XYZ and HLA conversions are consistent and inverse."""
import ast, re
from .common import *
from ..bound import own
from .c01 import same
from ..frames import Frames
from ..types import Types

RULE = 'frame formula'


def convert(chk):
    p3 = S(pos=('n', 3), start_xyz=(3,), start_nev=(3,))
    formula(chk, RULE, 'utils.get_nev', 'core.get_nev', shapes=p3)
    formula(chk, RULE, 'utils.get_xyz', 'core.get_xyz', shapes=p3)
    ia = S(inc=n, azi=n)
    for nev in (TRUE, FALSE):
        for deg in (TRUE, FALSE):
            formula(chk, RULE, 'utils.get_vec', 'core.vec', params={'nev': nev, 'deg': deg, 'r': const(1)}, shapes=ia,
                    construct=f'utils.get_vec[nev={cval(nev)}, deg={cval(deg)}]', ranges=ranges(inc=(3., 170.), azi=(1., 350.)) if deg is TRUE else None)
        formula(chk, RULE, 'utils.get_angles', 'core.angles', params={'nev': nev}, shapes=S(vec=('n', 3)), construct=f'utils.get_angles[nev={cval(nev)}]',
                ranges=ranges(vec=(-1., 1.)), comps=[(0, 0)])
        formula(chk, RULE, 'utils.get_angles', 'core.angles', params={'nev': nev}, shapes=S(vec=('n', 3)), construct=f'utils.get_angles azimuth[nev={cval(nev)}]',
                ranges=ranges(vec=(-1., 1.)), comps=[(0, 1)], angle='rad')


def defaults(chk):
    """the datum defaults of both conversions are the origin"""
    for q in ('utils.get_nev', 'utils.get_xyz'):
        fn = chk.need(q)
        ev, r = evaluate(chk, q, params={}, defaults=True)
        L = Lower(S(pos=('n', 3)))
        z = mk('tuple', const(0.), const(0.), const(0.))
        decide(chk, 'datum defaults to the origin', q, ev.deref(r), spec_term(chk, 'core.' + q.split('.')[1], {'start_xyz': z, 'start_nev': z}), L, loc=fn.loc)


def rotation(chk):
    formula(chk, RULE, 'utils.get_transform', 'core.survey_transform', shapes=S(survey=('n', 3)))
    sh = S(survey=('n', 3))
    for cov, d in ((TRUE, ('n', 3, 3)), (FALSE, ('n', 3))):
        t = 'cov' if cov is TRUE else 'vec'
        formula(chk, RULE, 'utils.NEV_to_HLA', f'core.nev_to_hla_{t}', params={'cov': cov}, shapes={**sh, sym('NEV'): d}, construct=f'utils.NEV_to_HLA[{t}]')
        formula(chk, RULE, 'utils.HLA_to_NEV', f'core.hla_to_nev_{t}', params={'cov': cov, 'trans': NONE}, shapes={**sh, sym('HLA'): d}, construct=f'utils.HLA_to_NEV[{t}]')
        formula(chk, RULE, 'utils.HLA_to_NEV', f'core.hla_to_nev_{t}_trans', params={'cov': cov, 'trans': sym('trans')}, given=[sym('trans')],
                shapes={**sh, sym('HLA'): d, sym('trans'): ('n', 3, 3)}, construct=f'utils.HLA_to_NEV[{t}, transform given]')


def covs(chk):
    sh = S(cov=('n', 3, 3))
    for k, nm in enumerate(('hh', 'll', 'aa')):
        formula(chk, 'component order', 'utils.get_sigmas', f'core.sigma_{k}', params={'long': FALSE}, out=part(k), shapes=sh, construct=f'utils.get_sigmas[{k}]', ranges=lambda t: (0.5, 4.))
    for k in range(6):
        formula(chk, 'component order', 'utils.get_sigmas', f'core.sigma_long_{k}', params={'long': TRUE}, out=part(k), shapes=sh, construct=f'utils.get_sigmas long[{k}]')
    formula(chk, 'component order', 'utils.make_long_cov', 'core.long_cov', shapes=S(arr=('n', 6)))
    abc = S(a=n, b=n, c=n)
    formula(chk, 'component order', 'utils.make_cov', 'core.make_cov', params={'long': FALSE}, shapes=abc, construct='utils.make_cov')
    formula(chk, 'component order', 'utils.make_cov', 'core.make_cov_long', params={'long': TRUE}, shapes=abc, construct='utils.make_cov long')
    formula(chk, 'component order', 'utils.cov_from_vec', 'core.cov_from_vec', shapes=S(arr=('n', 3)))


def node(chk):
    z = S(pos=(3,), vec=(3,))
    for nev in (TRUE, FALSE):
        k = f'[nev={cval(nev)}]'
        for a in ('pos_nev', 'pos_xyz'):
            formula(chk, RULE, 'node.Node.get_pos', f'core.node_{a}', params={'nev': nev}, given=[sym('pos')], out=attr(a), shapes=z, construct=f'Node.{a}{k}')
        for a in ('vec_nev', 'vec_xyz'):
            formula(chk, RULE, 'node.Node.check_angle_inputs', f'core.node_{a}', params={'nev': nev, 'degrees': TRUE, 'inc': NONE, 'azi': NONE}, given=[sym('vec')], out=attr(a), shapes=z, construct=f'Node.{a}{k} from vec')
        for a in ('inc_rad', 'azi_rad', 'inc_deg', 'azi_deg'):
            formula(chk, RULE, 'node.Node.check_angle_inputs', f'core.node_{a}', params={'nev': nev, 'degrees': TRUE, 'inc': NONE, 'azi': NONE}, given=[sym('vec')], out=attr(a), shapes=z,
                    construct=f'Node.{a}{k} from vec', ranges=ranges(vec=(-1., 1.)), angle='deg' if a == 'azi_deg' else 'rad' if a == 'azi_rad' else None)
    for deg in (TRUE, FALSE):
        k = f'[degrees={cval(deg)}]'
        for a, nev in (('vec_nev', TRUE), ('vec_xyz', FALSE)):
            formula(chk, RULE, 'node.Node.check_angle_inputs', 'core.node_vec_from_angles', params={'nev': TRUE, 'degrees': deg, 'vec': NONE}, given=[sym('inc'), sym('azi')], out=attr(a),
                    specparams={'frame_nev': nev, 'deg': deg}, construct=f'Node.{a}{k} from angles', ranges=ranges(inc=(3., 170.), azi=(1., 350.)) if deg is TRUE else None)


def survey_frames(chk):
    ev, r = survey_init(chk, skip=('_get_errors', '_get_vertical_section', '_get_toolface_and_rates'))
    fn = chk.need('survey.Survey.__init__')
    L = Lower(SURVEY_SHAPES)
    g = lambda a: ev.deref(ev.heap.get((sym('self'), a))) if (sym('self'), a) in ev.heap else None
    for a, nev in (('vec_nev', TRUE), ('vec_xyz', FALSE)):
        if g(a) is not None:
            decide(chk, RULE, f'Survey.{a}', g(a), spec_term(chk, 'core.vec', {'nev': nev, 'r': const(1), 'deg': FALSE}), L, loc=fn.loc)
    for a in ('pos_nev', 'pos_xyz'):
        if g(a) is not None:
            decide(chk, RULE, f'Survey.{a}', g(a), spec_term(chk, 'survey.surv_' + a, {'scale': hattr('grid_scale_factor')}), L, ranges=scaled, special=[same], loc=fn.loc)


def scaled(t):
    return (0.4, 2.5) if t is hattr('grid_scale_factor') else None


def survey_given(chk):
    """a survey built from vectors, or from positions"""
    fn = chk.need('survey.Survey.__init__')
    skip = ('_get_errors', '_get_vertical_section', '_get_toolface_and_rates')
    v3 = S(vec=('n', 3))
    for nev in (TRUE, FALSE):
        ev, r = survey_init(chk, params={'vec': sym('vec'), 'nev': nev}, skip=skip)
        for a in ('vec_nev', 'vec_xyz'):
            t = ev.heap.get((sym('self'), a))
            if t is None:
                continue
            decide(chk, RULE, f'Survey.{a}[given, nev={cval(nev)}]', ev.deref(t), spec_term(chk, 'survey.same_vec' if (a == 'vec_nev') == cval(nev) else 'survey.swap_axes'), Lower({**SURVEY_SHAPES, **v3}), loc=fn.loc)
    sh = {**SURVEY_SHAPES, **S(n=n, e=n, tvd=n, x=n, y=n, z=n)}
    ev, r = survey_init(chk, params={a: sym(a) for a in ('n', 'e', 'tvd')}, skip=skip)
    t = ev.heap.get((sym('self'), 'start_nev'))
    if t is not None:
        decide(chk, 'component order', 'Survey.start_nev[positions given]', deep(ev, t), spec_term(chk, 'survey.given_start_nev'), Lower(sh), loc=fn.loc)
    ev, r = survey_init(chk, params={a: sym(a) for a in ('x', 'y', 'z')}, skip=skip)
    for a in ('n', 'e', 'tvd'):
        t = ev.heap.get((sym('self'), a))
        if t is not None:
            decide(chk, RULE, f'Survey.{a}[x, y, z given]', ev.deref(t), spec_term(chk, f'survey.given_{a}'), Lower(sh), loc=fn.loc)


def axes(chk):
    """which axis each component of a triple is, followed from where it is named to where it is used"""
    F = Frames(Types(chk.prog))
    F.run()
    for (f, what), (text, loc) in sorted(F.reports.items()):
        chk.bad('axis order', f'{f}: {what}', text, loc)
    for (f, what), loc in sorted(F.sinks.items()):
        if (f, what) not in F.reports:
            chk.ok('axis order', f'{f}: {what}', 'each component is the axis its place states', loc)


ROTATE = {'utils.NEV_to_HLA': ('nev', 'hla'), 'utils.HLA_to_NEV': ('hla', 'nev')}


def rotations(chk):
    """each use of the rotation starts from the frame it starts from and is published as the frame it ends in"""
    T = Types(chk.prog)
    for f in chk.prog.all_functions():
        if f.parent is not None and isinstance(f.parent, type(f)):
            continue
        up, local = {}, {}
        for x in own(f.node):
            for y in ast.iter_child_nodes(x):
                up[y] = x
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                local.setdefault(x.targets[0].id, []).append(x.value)

        def word(e, deep=3):
            """the name of the quantity an expression is"""
            while isinstance(e, ast.Subscript) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('reshape', 'copy', 'astype'):
                e = e.value if isinstance(e, ast.Subscript) else e.func.value
            if isinstance(e, ast.IfExp):
                return word(e.body, deep) if isinstance(e.orelse, ast.Constant) else ''
            if isinstance(e, ast.Attribute):
                return e.attr.lower()
            if isinstance(e, ast.Name):
                w = e.id.lower()
                if not re.search('nev|hla|cov', w) and deep and len(local.get(e.id, ())) == 1:
                    return word(local[e.id][0], deep - 1)
                return w
            return ''
        for x in own(f.node):
            if not isinstance(x, ast.Call):
                continue
            g = T.callee(x, f)
            if getattr(g, 'qual', None) not in ROTATE:
                continue
            src, dst = ROTATE[g.qual]
            loc = f'{f.module.rel}:{x.lineno}'
            a = dict(zip(g.params(), x.args))
            a.update({k.arg: k.value for k in x.keywords if k.arg})
            given = a.get('NEV' if src == 'nev' else 'HLA')
            w = word(given) if given is not None else ''
            c = f'{f.qual}: {g.name} of {w or "a value"}'
            bad = ''
            if dst in w and src not in w:
                bad = f'{w} is already in the frame {dst.upper()}'
            flag = a.get('cov')
            flag = True if flag is None else flag.value if isinstance(flag, ast.Constant) else None
            if flag is False and 'cov' in w:
                bad = f'{w} is turned as a vector'
            if flag is True and re.search('delta|vert|vec', w) and 'cov' not in w:
                bad = f'{w} is turned as a covariance'
            s = word(a['survey']) if 'survey' in a else ''
            if re.search('_deg$', s):
                bad = f'the directions are given as {s}, specified in radians'
            # where the result goes
            y = x
            while isinstance(up.get(y), (ast.IfExp, ast.BinOp)):
                y = up[y]
            p = up.get(y)
            t = ''
            if isinstance(p, ast.keyword):
                t = p.arg or ''
            elif isinstance(p, ast.Assign) and len(p.targets) == 1:
                t = word(p.targets[0], 0)
            t = t.lower()
            if src in t and dst not in t:
                bad = f'the result, in the frame {dst.upper()}, becomes {t}'
            if bad:
                chk.bad('use of the rotation', c, bad, loc)
            else:
                chk.ok('use of the rotation', c)


def between_nodes(chk):
    """a path between nodes starts and ends at their positions and directions in the frame it is calculated in"""
    q = 'connector.Connector.__init__'
    fn = chk.need(q)
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.module.rel.endswith('node.py') and f.cls is None)
    for a, n, due in (('pos1', 'node1', 'pos_nev'), ('vec1', 'node1', 'vec_nev'), ('pos_target', 'node2', 'pos_nev'), ('vec_target', 'node2', 'vec_nev')):
        c = f'Connector {a} of a node'
        v = ev.heap.get((sym('self'), a)) if ev else None
        subs = set(subterms(ev.deref(v))) if v is not None else set()
        used = {y.a[1] for y in subs if y.op == 'attr' and y.a[0] is sym(n)}
        turned = any(y.op == 'rcall' and str(y.a[0]).split('.')[-1] in ('get_nev', 'get_xyz') for y in subs)
        other = due.replace('nev', 'xyz')
        if other in used and not turned:
            chk.bad('frame of a path between nodes', c, f'is the {other} of the node, specified {due}', fn.loc)
        elif due in used and other not in used:
            chk.ok('frame of a path between nodes', c, f'is the {due} of the node', fn.loc)
        else:
            chk.unknown('frame of a path between nodes', c, 'reads ' + ', '.join(sorted(used)), fn.loc)


def run(chk):
    chk.explanation = ('each frame conversion is value-numbered for every setting of its flags and compared component by component with the reference conversions (x=east, y=north; '
                       'rows of the rotation: high side, lateral, along hole; inverse = transpose); the axis of every component of a triple is followed from its name to its use')
    for g in (convert, defaults, rotation, covs, node, survey_frames, survey_given, axes, rotations, between_nodes):
        chk.group(g)


MINIMUM = 6
