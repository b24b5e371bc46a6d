"""C33 Mesh clearance reports the geometry of its own closest points: every quantity published per section is that of the points found for that section."""
import math

from ..fold import Cannot, Raises, Rec, Vec, fold
from .common import *

RULE = 'mesh clearance'
MINIMUM = 2
CLS = 'clearance.MeshClearance'
ME = sym('self')
KEEP = ('_get_closest_nev', '_get_mesh', '_fun')
MD = {'ref': Vec((100., 130., 175., 220.)), 'offset': Vec((0., 40., 90., 150., 230.))}
RAD = {'ref': Vec((.2, .23, .29, .31)), 'offset': Vec((.11, .13, .17, .19, .37))}
SIGMA, SPA, SM = 2.5, 0.6, 0.45


def inside(chk):
    cls = chk.prog.find(CLS)
    return lambda f: f.cls is not None and f.cls is cls and f.name not in KEEP and f.name != '__init__'


def kws(t):
    return {k.a[0]: k.a[1] for y in t.a if isinstance(y, T) and y.op == 'kws' for k in y.a if k.op == 'kw'}


def unconst(k):
    return k.a[0] if isinstance(k, T) and k.op == 'const' else k


def args_of(t):
    """the arguments of a call left unexpanded, by name"""
    return {unconst(k): v for k, v in kws(t).items()}


class Case:
    """one section and one outcome of the mesh comparison"""
    def __init__(self, i, k, hit, mesh, near, close, apart=True):
        self.i, self.k, self.hit, self.mesh, self.near, self.close = i, k, hit, mesh, near, close
        self.pref, self.poff = Vec((10., 20., 30.)), Vec((13., 24., 30.5)) if close else Vec((10., 20., 30.))
        r = Vec((11., 21., 31.))
        self.ref = (r, Rec(x=(7.25,), fun=4.5))
        self.off1 = (Vec((16., 18., 35.)) if apart else r, Rec(x=(3.5,), fun=2. if near else 6.))
        self.off0 = (Vec((2., 27., 33.)) if apart else r, Rec(x=(21.5,), fun=3.))
        self.dist = (mesh, 'offset', Rec())
        self.coll = (hit, {'offset'}, [])

    def __repr__(self):
        return f'section {self.i}, nearest offset station {self.k}, {"in" if self.hit else "no"} collision'

    def env(self, ts):
        e = {ME: Rec(ref=Rec(md=MD['ref'], radius=RAD['ref']), offset=Rec(md=MD['offset'], radius=RAD['offset']), Rr=RAD['ref'], Ro=RAD['offset'], sigma=SIGMA, sigma_pa=SPA, Sm=SM,
                     return_data=True, return_meshes=True, offset_nevs='tree', off_mesh='mesh')}
        todo = sorted({y for t in ts for y in subterms(t) if y.op in ('elem', 'rcall', 'mcall', 'call', 'inloop')}, key=lambda y: y.id)
        # a leaf that something else stands in must be known first: repeat until nothing more becomes known
        for _ in range(6):
            for y in todo:
                if y in e:
                    continue
                try:
                    e[y] = self.leaf(y, e)
                except (Cannot, Raises):
                    pass
        return e

    def leaf(self, y, e):
        f = lambda t: fold(t, e)
        if y.op == 'inloop':
            return True
        if y.op == 'elem':
            if y.a[0].op == 'call' and y.a[0].a[0] == 'range':
                ar = [f(z) for z in y.a[0].a[1].a]
                if ar not in ([len(MD['ref']) - 1], [0, len(MD['ref']) - 1]):
                    raise Cannot('loop over something else')
                return self.i
            raise Cannot('loop')
        if y.op == 'call' and str(y.a[0]).endswith('KDTree'):
            if f(y.a[1].a[0]) != 'tree':
                raise Cannot('tree')
            return 'KD'
        if y.op == 'mcall':
            if y.a[1] == 'query' and f(y.a[0]) == 'KD':
                p = f(y.a[2].a[0])
                if p == self.poff:
                    return (0.1, self.k)
                if p == self.pref:
                    return (0.1, (self.k + 2) % len(MD['offset']))
                raise Cannot('query point')
            if y.a[1] == 'in_collision_single':
                return self.coll
            if y.a[1] == 'min_distance_single':
                flags = dict(zip(('return_name', 'return_data'), y.a[2].a[2:]))
                flags.update(args_of(y))
                got = [bool(f(flags[k])) if k in flags else False for k in ('return_name', 'return_data')]
                return self.dist if all(got) else self.dist[:2] if got[0] else self.dist[::2] if got[1] else self.dist[0]
            if y.a[1] == 'point':
                n = f(y.a[2].a[0])
                if f(y.a[0]) is self.dist[2] and n in ('__external', 'offset'):
                    return self.pref if n == '__external' else self.poff
            raise Cannot('call')
        if y.op == 'rcall':
            q, b = y.a[0], args_of(y)
            if q == 'survey.slice_survey':
                s = [w for w in ('ref', 'offset') if b.get('survey') is mk('attr', ME, w)]
                if not s:
                    raise Cannot('slice')
                return ('slice', s[0], f(b['start']), f(b['stop']) if 'stop' in b else None)
            if q == CLS + '._get_closest_nev':
                s, p = f(b['survey']), f(b['pos'])
                if not (isinstance(s, tuple) and s and s[0] == 'slice'):
                    raise Cannot('survey of the closest point')
                what = {('ref', self.i, self.pref): self.ref, ('offset', self.k, self.poff): self.off1, ('offset', self.k - 1, self.poff): self.off0}
                return what.get((s[1], s[2], p), (Vec((-50., 77., 12.)), Rec(x=(11.5,), fun=8.25)))
        raise Cannot(y.op)

    def expected(self):
        last = len(MD['offset']) - 1
        if self.k < last and self.k > 0:
            first = self.off0[1].fields['fun'] < self.off1[1].fields['fun']
        else:
            first = self.k > 0
        off, md = (self.off0, MD['offset'][self.k - 1]) if first else (self.off1, MD['offset'][self.k])
        v = off[0] - self.ref[0]
        cc = math.sqrt(sum(x * x for x in v))
        d = math.sqrt(sum(x * x for x in self.poff - self.pref))
        if self.hit:
            sf = cc / (cc + d) if cc and d else 0
        else:
            sf = cc / (cc - self.mesh) if cc - self.mesh else math.inf
        return {'distance_cc': cc, 'sf': round(sf, 2), 'hoz_bearing_deg': math.degrees(math.atan2(v[1], v[0])) % 360, 'ref_md': MD['ref'][self.i] + self.ref[1].fields['x'][0], 'off_md': md + off[1].fields['x'][0],
                'ref_pcr': (self.ref[1].fields['fun'] - SPA / 2 - RAD['ref'][self.i]) / SIGMA, 'off_pcr': (off[1].fields['fun'] - SPA / 2 - RAD['offset'][self.k] - SM) / SIGMA,
                'calc_hole': RAD['ref'][self.i] + RAD['offset'][self.k], 'off_index': self.k, 'distance': self.dist, 'nev': (self.ref, off), 'collision': self.coll}


def cases(deep_):
    for i in range(len(MD['ref']) - 1):
        for k in range(len(MD['offset'])):
            for hit in (True, False):
                for near in (True, False):
                    yield Case(i, k, hit, 3.25, near, True)
        yield Case(i, 2, True, 3.25, True, False)                                    # the meshes just touch
        yield Case(i, 2, True, 3.25, True, True, apart=False)                        # the well paths meet
        yield Case(i, 2, False, math.sqrt(25 + 9 + 16), True, True)                  # the mesh distance is all of the distance


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or abs(a - b) < 1e-9 * max(1, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b


def sections(chk):
    q = CLS + '._process_well'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(RULE, CLS, 'internal function gone')
        return
    ev, r = evaluate(chk, q, {}, inline=inside(chk), defaults=False)
    if ev is None:
        chk.unknown(RULE, q, 'not expressible', fn.loc)
        return
    put = {}
    for e in ev.events:
        if e.kind == 'mutcall' and e.d['obj'].op == 'attr' and e.d['obj'].a[0] is ME:
            put.setdefault(e.d['obj'].a[1], []).append(e)
    names = sorted(Case(0, 0, True, 1., True, True).expected())
    for n in names:
        c = f'{CLS}.{n}'
        es = put.get(n)
        if not es or any(e.d['method'] != 'append' or len(e.d['args']) != 1 for e in es):
            chk.unknown(RULE, c, 'not collected by appending', fn.loc)
            continue
        k, bad, why = 0, None, None
        for case in cases(chk.tier):
            try:
                vs = []
                for e in es:
                    v = ev.deref(e.d['args'][0])
                    g = [(ev.deref(t), p) for t, p in e.guards]
                    env = case.env([v] + [t for t, p in g])
                    if all(bool(fold(t, env)) == p for t, p in g):
                        vs.append(fold(v, env))
                want = case.expected()[n]
            except Raises as x:
                # an operation that cannot be carried out in this case
                bad = bad or f'{case!r}: fails ({x})'
                continue
            except Cannot as x:
                why = why or str(x)
                continue
            k += 1
            if len(vs) != 1:
                bad = bad or f'{case!r}: {len(vs)} entries instead of one'
            elif not same(vs[0], want):
                bad = bad or f'{case!r}: {vs[0]!r} instead of {want!r}'
        chk.count('sections and outcomes folded', k)
        if bad and k:
            chk.bad(RULE, c, bad[:220], es[0].loc)
        elif why or not k:
            chk.unknown(RULE, c, f'not expressible: {why}', es[0].loc)
        else:
            chk.ok(RULE, c, f'{k} sections and outcomes', es[0].loc)
    # what is compared is the section's own mesh
    for m in ('in_collision_single', 'min_distance_single'):
        for e in ev.events:
            if e.kind == 'extmcall' and e.d['callee'] == m:
                c = f'{q}: {m}'
                case = Case(1, 2, True, 3.25, True, True)
                t = ev.deref(e.d['args'][0]) if e.d['args'] else None
                sl = [y for y in subterms(t) if y.op == 'rcall' and y.a[0] == 'survey.slice_survey'] if t is not None else []
                mesh = [y for y in subterms(t) if y.op == 'rcall' and y.a[0] == CLS + '._get_mesh'] if t is not None else []
                try:
                    s = fold(sl[0], case.env([t])) if len(sl) == 1 else None
                    o = fold(args_of(mesh[0]).get('offset', FALSE), {}) if len(mesh) == 1 else None
                except (Cannot, Raises):
                    s = None
                if s is None or o is None:
                    chk.unknown(RULE, c, 'mesh not recognised', e.loc)
                elif s != ('slice', 'ref', 1, 3) or o:
                    chk.bad(RULE, c, f'section 1 is compared as {s[1:]}' + (' with the margin of the offset well' if o else '') + ' instead of the reference stations 1 to 3 (exclusive)', e.loc)
                else:
                    chk.ok(RULE, c, 'the section between two stations of the reference', e.loc)


def closest(chk):
    """the closest point is sought between the first two stations, and the point returned is the one found"""
    q = CLS + '._get_closest_nev'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(RULE, q, 'internal function gone')
        return
    ps = fn.params()
    sv, pos = sym(ps[1]), sym(ps[2])
    ev, r = evaluate(chk, q, {}, inline=inside(chk), defaults=False)
    es = [e for e in ev.events if e.kind == 'extcall' and e.d['callee'] in ('scipy.optimize.minimize', 'scipy.optimize.minimize_scalar')] if ev else []
    if len(es) != 1 or r is None:
        chk.unknown(RULE, q, 'the search is not recognised', fn.loc)
        return
    e, res = es[0], es[0].d['result']
    sol = Rec(x=(6.5,), fun=1.5) if e.d['callee'].endswith('minimize') else Rec(x=6.5, fun=1.5)

    def env(x):
        return points(x, sv, {sv: Rec(md=Vec((100., 130., 190.))), pos: Vec((1., 2., 3.)), res: sol, ME: Rec(sigma=SIGMA)})

    def tell(c, t, want, what):
        try:
            v = fold(t, env(t))
        except (Cannot, Raises) as x:
            chk.unknown(RULE, c, f'not expressible: {x}', e.loc)
            return
        v = v.fields if isinstance(v, Rec) else v
        if flat(v) == flat(want.fields if isinstance(want, Rec) else want) or isinstance(v, dict) and want is sol:
            chk.ok(RULE, c, what, e.loc)
        else:
            chk.bad(RULE, c, f'{what}: {v!r} instead of {want!r} for a survey at 100, 130, 190', e.loc)
    r = ev.deref(r)
    if r.op == 'tuple' and len(r.a) == 2:
        tell(f'{q}: point', ev.deref(r.a[0]), (11.5, 13.5, 15.5), 'the point at the depth that was found')
        tell(f'{q}: result', ev.deref(r.a[1]), sol, 'the outcome of the search')
    else:
        chk.unknown(RULE, f'{q}: point', 'not a pair', fn.loc)
    b = e.d['kws'].get('bounds')
    if b is None:
        chk.unknown(RULE, f'{q}: bounds', 'none given', e.loc)
    else:
        tell(f'{q}: bounds', ev.deref(b), (0, 30.), 'sought between the first station and the second')
    ar = e.d['kws'].get('args')
    f = e.d['args'][0] if e.d['args'] else None
    g = chk.prog.find(CLS + '._fun')
    if ar is None or g is None or f is None or '_fun' not in show(f, 3):
        chk.unknown(RULE, f'{q}: objective', 'not recognised', e.loc)
        return
    ar = ev.deref(ar)
    if ar.op not in ('tuple', 'list') or len(ar.a) != 2:
        chk.unknown(RULE, f'{q}: objective', 'not recognised', e.loc)
        return
    gp = g.params()
    x = sym('x')
    ev2, r2 = evaluate(chk, g.qual, {gp[1]: mk('tuple', x), gp[2]: ar.a[0], gp[3]: ar.a[1]}, inline=inside(chk), defaults=False)
    if r2 is None:
        chk.unknown(RULE, f'{q}: objective', 'not expressible', g.loc)
        return
    t = ev2.deref(r2)
    for v in (0., 4.5, 30.):
        try:
            got = fold(t, points(t, sv, {sv: Rec(md=Vec((100., 130., 190.))), pos: Vec((1., 2., 3.)), x: v}))
        except (Cannot, Raises) as y:
            chk.unknown(RULE, f'{q}: objective', f'not expressible: {y}', g.loc)
            return
        want = math.sqrt((5 + v - 1) ** 2 + (7 + v - 2) ** 2 + (9 + v - 3) ** 2)
        if not same(got, want):
            chk.bad(RULE, f'{q}: objective', f'the distance minimised is {got!r} at {v} m along, the distance from the point of the path to the given point is {want!r}', g.loc)
            return
    chk.ok(RULE, f'{q}: objective', 'the distance from the point of the path at that depth to the given point', g.loc)


def points(t, sv, d):
    """what is known, and for every point of the path taken in t where it lies"""
    for y in subterms(t):
        if y.op == 'rcall' and y.a[0] == 'survey._interpolate_survey':
            b = args_of(y)
            try:
                at, k = fold(b['x'], d), fold(b.get('index', const(0)), d)
            except (Cannot, Raises, KeyError):
                continue
            if b.get('survey') is sv and isinstance(k, int):
                k *= 100
                d[y] = Rec(n=Vec((4. + k, 5. + k + at)), e=Vec((6., 7. + at)), tvd=Vec((8., 9. + at)), md=Vec((100. + k, 100. + k + at)), pos_nev=[Vec((4. + k, 6., 8.)), Vec((5. + k + at, 7. + at, 9. + at))])
    return d


def flat(v):
    if isinstance(v, dict):
        v = tuple(v.values())
    if isinstance(v, (tuple, list)):
        return [float(y) for x in v for y in flat(x)]
    return [v]


def setup(chk):
    """the offset well enters the comparison once, with its own mesh, before the sections are gone through"""
    q = CLS + '.__init__'
    fn = chk.need(q)
    ev, r = evaluate(chk, q, {}, inline=lambda f: f is fn, defaults=False)
    if ev is None:
        chk.unknown(RULE, q, 'not expressible', fn.loc)
        return
    add = [e for e in ev.events if e.kind in ('extmcall', 'mutcall') and e.d.get('callee', e.d.get('method')) == 'add_object']
    go = [e for e in ev.events if e.kind == 'call' and e.d['callee'] == CLS + '._process_well']
    if len(add) != 1 or len(go) != 1 or len(add[0].d['args']) < 2:
        chk.unknown(RULE, f'{q}: offset mesh', 'not recognised', fn.loc)
        return
    t = ev.deref(add[0].d['args'][1])
    mesh = [y for y in subterms(t) if y.op == 'rcall' and y.a[0] == CLS + '._get_mesh']
    b = args_of(mesh[0]) if len(mesh) == 1 else {}
    s, o = b.get('survey'), b.get('offset', FALSE)
    if s is None or s.op != 'attr' or o not in (TRUE, FALSE):
        chk.unknown(RULE, f'{q}: offset mesh', 'mesh not recognised', add[0].loc)
    elif s.a[1] != 'offset' or o is not TRUE:
        chk.bad(RULE, f'{q}: offset mesh', f'the sections are compared with the mesh of {s.a[1]}' + ('' if o is TRUE else ' built without the surface margin'), add[0].loc)
    elif add[0].order > go[0].order:
        chk.bad(RULE, f'{q}: offset mesh', 'added after the sections were compared', add[0].loc)
    else:
        chk.ok(RULE, f'{q}: offset mesh', 'added once, before the sections are compared', add[0].loc)
    for a, w in (('Rr', 'ref'), ('Ro', 'offset')):
        v = ev.heap.get((ME, a))
        if v is None:
            chk.unknown(RULE, f'{q}: {a}', 'not set', fn.loc)
            continue
        v = ev.deref(v)
        if v is mk('attr', mk('attr', ME, w), 'radius'):
            chk.ok(RULE, f'{q}: {a}', f'the radii of {w}', fn.loc)
        elif v.op == 'attr' and v.a[0].op == 'attr' and v.a[0].a[0] is ME:
            chk.bad(RULE, f'{q}: {a}', f'holds {show(v, 4)} instead of the radii of {w}', fn.loc)
        else:
            chk.unknown(RULE, f'{q}: {a}', show(v, 4)[:80], fn.loc)


def run(chk):
    chk.explanation = ('value numbering of the loop over the reference sections, its results then folded for every section, nearest station, outcome of the mesh comparison and side on which '
                       'the offset path is nearer, and compared with the definition; the search for the closest point by its bounds, objective and returned point')
    chk.group(setup)
    chk.group(sections)
    chk.group(closest)
