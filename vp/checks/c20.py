"""C20 The uncertainty mesh radius includes every contribution."""
from .common import *
from ..lower import Unsup

ME, SV = sym('self'), sym('survey')
RULE = 'mesh ring'
NV = 8
SCAL = ('inc_rad', 'azi_grid_rad', 'n', 'e', 'tvd', 'radius')
RG = ranges(inc_rad=(0.2, 2.8), azi_grid_rad=(0.1, 6.1), n=(-50., 50.), e=(-50., 50.), tvd=(-50., 50.), radius=(0.1, 0.9), sigma=(1., 3.), Sm=(0.1, 0.7), sigma_pa=(0.2, 0.9), cov_hla=(2., 9.))


class Model(SurveyModel):
    """a survey, and the principal values and directions of its covariance blocks"""

    def __call__(self, t):
        if t.op == 'idx' and t.a[0].op == 'call' and t.a[0].a[0] in ('numpy.linalg.eigh',) and is_const(t.a[1]) or \
                t.op == 'attr' and t.a[0].op == 'call' and t.a[0].a[0] == 'numpy.linalg.eigh':
            k = cval(t.a[1]) if t.op == 'idx' else {'eigenvalues': 0, 'eigenvectors': 1}.get(t.a[1])
            c = self.L(t.a[0].a[1].a[0])
            if k not in (0, 1) or len(c.shape) != 3 or c.shape[1] != c.shape[2]:
                return None
            m = c.shape[1]
            key = mk('principal', *[c.d[(0, i, j)] for i in range(m) for j in range(m)])
            if k == 0:
                return A(('n', m), {(0, i): mk('comp_of', key, 'value', i) for i in range(m)})
            return A(('n', m, m), {(0, i, j): mk('comp_of', key, 'vector', i, j) for i in range(m) for j in range(m)})
        return super().__call__(t)


def lowering():
    M = Model()
    L = Lower({}, atoms=M)
    M.L = L
    return L


def rings(chk):
    fn = chk.need('mesh.WellMesh.__init__')
    at = {a: mk('attr', SV, a) for a in SCAL}
    cov = mk('attr', SV, 'cov_hla')
    block = mk('idx', cov, mk('tuple', *[mk('slice', NONE, NONE, NONE)] + [mk('slice', NONE, const(2), NONE)] * 2))
    eig = mkcall('numpy.linalg.eigh', [block])
    base = dict(inc=at['inc_rad'], azi=at['azi_grid_rad'], n=at['n'], e=at['e'], tvd=at['tvd'], radius=at['radius'], cov_hla=cov,
                values=mk('idx', eig, const(0)), vectors=mk('idx', eig, const(1)), sigma=sym('sigma'), Sm=sym('Sm'), sigma_pa=sym('sigma_pa'))
    full = mkcall('numpy.linspace', [const(0), mk('bin', '*', const(2), PI), const(NV)], {'endpoint': FALSE})
    half = mkcall('numpy.arccos', [mkcall('numpy.linspace', [const(1.), const(-1.), const(NV // 2)], {'endpoint': FALSE})])
    pedal = mkcall('numpy.concatenate', [mk('tuple', half, mk('bin', '+', half, PI))])
    for method, lam in (('circle', full), ('ellipse', full), ('pedal_curve', pedal)):
        ev, r = evaluate(chk, fn.qual, {'survey': SV, 'n_verts': const(NV), 'method': const(method)}, before=lambda ev: ev.hints.update({SV: chk.need('survey.Survey')}),
                         inline=lambda f: f.name not in ('_align_verts', '_get_faces', '_make_trimesh'))
        if ev is None:
            chk.unknown(RULE, method, r, fn.loc)
            continue
        v = ev.heap.get((ME, 'vertices'))
        if v is None:
            chk.unknown(RULE, method, 'vertices not set', fn.loc)
            continue
        decide(chk, RULE, f'WellMesh[{method}]', deep(ev, v), spec_term(chk, 'mesh.' + method, {**base, 'lam': lam}), lowering(), RG, loc=fn.loc)


def own_settings(chk):
    """mesh clearance builds its meshes with its own settings, the margin on the offset well only"""
    rule = 'mesh settings'
    fn = chk.prog.find('clearance.MeshClearance._get_mesh')
    if fn is None:
        chk.unknown(rule, 'MeshClearance._get_mesh', 'this internal function is gone')
        return
    want = {'n_verts': mk('attr', ME, 'n_verts'), 'sigma': mk('attr', ME, 'sigma'), 'sigma_pa': mk('attr', ME, 'sigma_pa')}
    for off in (True, False):
        ev, r = evaluate(chk, fn.qual, {'offset': const(off)}, inline=lambda f: f is fn, opaque_init=('mesh.WellMesh',))
        made = [e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'qual', str(e.d['cls'])).endswith('WellMesh')] if ev else []
        tag = 'offset' if off else 'reference'
        if len(made) != 1:
            chk.unknown(rule, tag, 'no single mesh is built', fn.loc)
            continue
        b = made[0].d['bound']
        for k, w in {**want, 'survey': sym('survey'), 'Sm': mk('attr', ME, 'Sm') if off else const(0.0)}.items():
            if k not in b:
                chk.unknown(rule, f'{tag} {k}', 'argument not found', fn.loc)
                continue
            decide(chk, rule, f'{tag} {k}', ev.deref(b[k]), w, Lower({}), ranges(Sm=(0.2, 0.9), sigma=(1., 3.)), loc=fn.loc)


def sites(chk):
    """which well each mesh is of"""
    rule = 'margin on the offset well only'
    cl = chk.need('clearance.MeshClearance.__init__')
    pw = chk.prog.find('clearance.MeshClearance._process_well')
    for f in (cl, pw):
        if f is None:
            chk.unknown(rule, '_process_well', 'this internal function is gone')
            continue
        ev, r = evaluate(chk, f.qual, {}, inline=lambda g: g is f, opaque_init=('clearance.Clearance',))
        if ev is None:
            chk.unknown(rule, f.name, r, f.loc)
            continue
        for e in ev.events:
            if e.kind != 'call' or not str(e.d['callee']).endswith('._get_mesh'):
                continue
            s, o = ev.deref(e.d['bound'].get('survey', NONE)), e.d['bound'].get('offset', FALSE)
            names = {x.a[1] for x in subterms(s) if x.op == 'attr' and x.a[0] is ME}
            whose = 'offset' if 'offset' in names and 'ref' not in names else 'ref' if 'ref' in names and 'offset' not in names else None
            if whose is None or not is_const(o):
                chk.unknown(rule, f'{f.name}: {show(s)[:60]}', 'well not recognised', e.loc)
            elif bool(cval(o)) == (whose == 'offset'):
                chk.ok(rule, f'{f.name}: mesh of the {whose} well', '', e.loc)
            else:
                chk.bad(rule, f'{f.name}: mesh of the {whose} well', f'built with offset={cval(o)}', e.loc)


def ratios(chk):
    """what the mesh added to the uncertainty is taken off again to report the pedal curve radii"""
    rule = 'pedal curve radius'
    q = 'clearance.MeshClearance._process_well'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(rule, q, 'this internal function is gone')
        return
    ev, r = evaluate(chk, q, {}, inline=lambda g: g is fn)
    if ev is None:
        chk.unknown(rule, q, r, fn.loc)
        return
    for k, spec, rad, well in (('ref_pcr', 'reference_pcr', 'Rr', 'ref'), ('off_pcr', 'offset_pcr', 'Ro', 'offset')):
        vals = [e for e in ev.events if e.kind == 'mutcall' and e.d['method'] == 'append' and e.d['obj'] is mk('attr', ME, k)]
        if len(vals) != 1:
            chk.unknown(rule, k, 'the recorded value was not found', fn.loc)
            continue
        v = ev.deref(vals[0].d['args'][0])
        top = {x for x in outer(v) if x.op == 'attr' and x.a[1] == 'fun'}
        radius = {x for x in outer(v) if x.op == 'idx' and (x.a[0] is mk('attr', ME, 'Rr') or x.a[0] is mk('attr', ME, 'Ro') or x.a[0].op == 'attr' and x.a[0].a[1] == 'radius')}
        if len(top) != 1 or len(radius) != 1:
            chk.unknown(rule, k, 'distance or radius not recognised', vals[0].loc)
            continue
        f, rr = top.pop(), radius.pop()
        own = rr.a[0] in (mk('attr', ME, rad), mk('attr', mk('attr', ME, well), 'radius'))
        if not own:
            chk.bad(rule, f'{k} radius', f'uses {show(rr.a[0])}', vals[0].loc)
            continue
        sub = {f: sym('fun'), rr: sym('radius')}
        v = rebuild(v, lambda x: sub.get(x))
        w = spec_term(chk, 'mesh.' + spec, {x: mk('attr', ME, x) for x in ('sigma', 'sigma_pa', 'Sm')})
        decide(chk, rule, k, v, w, Lower({}), ranges(sigma=(1., 3.), Sm=(0.2, 0.9), sigma_pa=(0.2, 0.9)), loc=vals[0].loc)


def outer(t):
    """arithmetic operands of a value"""
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op in ('bin', 'un', 'neg') or x.op == 'call' and x.a[0] in ('round', 'float', 'numpy.absolute'):
            for y in x.a:
                if isinstance(y, T):
                    todo.extend(y.a if y.op in ('args', 'kws') else [y])
        else:
            yield x


def sections(chk):
    """a mesh of part of a survey is built with the settings asked for"""
    rule = 'mesh settings'
    fn = chk.need('mesh.sliced_mesh')
    ev, r = evaluate(chk, fn.qual, {}, inline=lambda f: f is fn, opaque_init=('mesh.WellMesh',))
    made = [e for e in ev.events if e.kind == 'new' and getattr(e.d['cls'], 'qual', '').endswith('WellMesh')] if ev else []
    if not made:
        chk.unknown(rule, 'sliced_mesh', 'no mesh is built', fn.loc)
    for e in made:
        for k in ('n_verts', 'sigma', 'sigma_pa', 'Sm', 'method'):
            v = ev.deref(e.d['bound'].get(k, NONE))
            decide(chk, rule, f'sliced_mesh {k}', v, sym(k), Lower({}), loc=e.loc)


def sigmas(chk):
    for i, k in enumerate('HLA'):
        formula(chk, 'standard deviations', 'utils.get_sigmas', 'mesh.sigma', params={'long': FALSE}, specparams={'i': const(i)}, shapes={sym('cov'): ('n', 3, 3)}, out=part(i), construct=f'get_sigmas {k}',
                ranges=ranges(cov=(1., 4.)))


def alignment(chk):
    """lining rings up only re-orders their vertices"""
    rule = 'rings keep their vertices'
    q = 'mesh.WellMesh._align_verts'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(rule, q, 'this internal function is gone')
        return
    ev, r = evaluate(chk, q, {}, inline=lambda f: f is fn)
    if ev is None:
        chk.unknown(rule, q, r, fn.loc)
        return
    own = mk('attr', ME, 'vertices')
    n = 0
    for e in ev.events:
        if e.kind != 'mutcall' or e.d['method'] != 'append':
            continue
        v = deep(ev, e.d['args'][0])
        n += 1
        c = f'ring appended ({n})'
        ok = permuted(v, own)
        if ok is None:
            chk.unknown(rule, c, show(v, 6)[:200], e.loc)
        elif ok:
            chk.ok(rule, c, '', e.loc)
        else:
            chk.bad(rule, c, f'vertices are lost or repeated: {show(v, 8)[:300]}', e.loc)


def permuted(t, own):
    """True: all vertices of one ring in some order; False: a part is missing or doubled; None: not recognised"""
    if t.op in ('list', 'tuple') and len(t.a) == 1:
        return permuted(t.a[0], own)
    if t.op == 'ite':
        a, b = permuted(t.a[1], own), permuted(t.a[2], own)
        return False if a is False or b is False else None if a is None or b is None else True
    if t.op == 'elem' or t.op == 'idx' and t.a[0] is own and not (t.a[1].op in ('slice', 'tuple')):
        return True
    if t.op == 'idx' and t.a[1].op == 'slice':
        lo, hi, st = t.a[1].a
        if lo is NONE and hi is NONE and is_const(st) and cval(st) in (-1, 1, None):
            return permuted(t.a[0], own)
        if lo is NONE and hi is NONE and is_const(st):
            return False if permuted(t.a[0], own) else None
        return None
    if t.op == 'call' and t.a[0] in ('numpy.vstack', 'numpy.concatenate') and len(t.a[1].a) >= 1 and t.a[1].a[0].op in ('tuple', 'list'):
        ps = t.a[1].a[0].a
        if len(ps) == 2 and all(p.op == 'idx' and p.a[1].op == 'slice' and p.a[1].a[2] is NONE for p in ps) and ps[0].a[0] is ps[1].a[0] and permuted(ps[0].a[0], own):
            (l0, h0, _), (l1, h1, _) = ps[0].a[1].a, ps[1].a[1].a
            z = lambda x: x is NONE or is_const(x) and cval(x) == 0
            if h0 is NONE and z(l1):
                lo, hi = l0, h1
            elif h1 is NONE and z(l0):
                lo, hi = l1, h0
            else:
                return None
            if lo is hi:
                return True
            st, _ = compare(lo, hi)
            return True if st == 'equal' else False if st == 'differ' else None
    if t.op == 'call' and t.a[0] in ('numpy.roll',):
        return permuted(t.a[1].a[0], own)
    return None


def run(chk):
    chk.explanation = 'the vertices of each method are numbered from the mesh constructor (rotation and placement inlined) and compared with rings of the stated semi-axes; settings are compared at each place a mesh is built'
    for g in (rings, own_settings, sites, ratios, sections, sigmas, alignment):
        chk.group(g)


MINIMUM = 3
