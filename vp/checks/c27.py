"""C27 Fluid composition and density model are self-consistent."""
from .common import *

ME = sym('self')
R = ranges(fluid_density=(9., 14.), density_fluid_reference=(9., 14.), reference_temp=(60., 150.), temp_reference=(60., 150.), reference_pressure=(1., 900.), base_fluid_water_ratio=(0.1, 0.9), weighting=(20., 40.),
           density_average=(8., 15.), density_top=(8., 15.), temperature_top=(60., 150.), pressure_applied=(1., 900.), fluid_thermal_gradient=(0.005, 0.03), depth=(500., 9000.),
           A0=(6., 8.), A1=(-0.004, -0.002), A2=(2e-5, 3e-5), B0=(8., 9.), B1=(-0.004, -0.002), B2=(2e-5, 3e-5),
           volume_water_relative=(0.05, 0.4), volume_oil_relative=(0.1, 0.5), volume_water_reference_relative=(0.05, 0.4), volume_oil_reference_relative=(0.1, 0.5),
           alpha_1=(6., 7.), alpha_2=(1e-5, 1e-4), beta_1=(7., 8.), beta_2=(1e-5, 1e-4), x=(8., 15.), gradient=(0.005, 0.03), temperature=(150., 300.))


def composition(chk):
    qual = 'fluid.Fluid.__init__'
    fn = chk.need(qual)
    ev, r = evaluate(chk, qual, {})
    if ev is None:
        chk.unknown('composition', qual, r, fn.loc)
        return
    get = lambda a: ev.heap.get((ME, a))
    w = get('density_weighting_material')
    w = ev.deref(w) if w is not None else None
    val = {}
    for a, spec in (('volume_water_reference_relative', 'water_volume'), ('volume_oil_reference_relative', 'oil_volume'), ('volume_weighting_material_relative', 'weighting_volume'),
                    ('density_oil_reference', 'oil_density'), ('density_water_reference', 'water_density')):
        t = get(a)
        if t is None:
            chk.unknown('composition', a, 'not set', fn.loc)
            continue
        t = rebuild(ev.deref(t), lambda y: sym('weighting') if y is w else None)
        val[a] = t
        decide(chk, 'composition', a, t, spec_term(chk, 'fluid.' + spec), Lower({}), R, loc=fn.loc)
    parts = [val.get(a) for a in ('volume_water_reference_relative', 'volume_oil_reference_relative', 'volume_weighting_material_relative')]
    if all(p is not None for p in parts):
        s = mk('bin', '+', mk('bin', '+', parts[0], parts[1]), parts[2])
        decide(chk, 'composition', 'the relative volumes sum to one', s, const(1.0), Lower({}), R, loc=fn.loc)
        if 'density_water_reference' in val and 'density_oil_reference' in val:
            m = lambda x, y: mk('bin', '*', x, y)
            mix = mk('bin', '+', mk('bin', '+', m(parts[0], val['density_water_reference']), m(parts[1], val['density_oil_reference'])), m(parts[2], sym('weighting')))
            decide(chk, 'composition', 'the mixture has the given density', mix, sym('fluid_density'), Lower({}), R, loc=fn.loc)


def model(chk):
    for q, spec in (('_get_coefficients', 'coefficients'), ('_func', 'average')):
        formula(chk, 'density equations', 'fluid.Fluid.' + q, 'fluid.' + spec, ranges=R)
    formula(chk, 'density equations', 'fluid.Fluid._get_density', 'fluid.residual', ranges=R, params={'density_average': mk('list', sym('density_average'))}, specparams={'density_average': sym('density_average')})


def profile(chk):
    qual = 'fluid.Fluid.get_density_profile'
    fn = chk.need(qual)
    ev, r = evaluate(chk, qual, {})
    es = [e for e in ev.events if e.kind == 'extcall' and e.d['callee'] in ('scipy.optimize.minimize', 'scipy.optimize.minimize_scalar')] if ev else []
    if len(es) != 1:
        chk.unknown('profile', qual, f'{len(es)} minimisations', fn.loc)
        return
    e = es[0]
    a, k = list(e.d['args']), dict(e.d['kws'])
    f = k.get('fun', a[0] if a else None)
    x0 = k.get('x0', a[1] if len(a) > 1 else None)
    rest = ev.deref(k.get('args', a[2] if len(a) > 2 else mk('tuple')))
    if f is None or rest.op not in ('tuple', 'list'):
        chk.unknown('profile', qual, 'objective not recognised', fn.loc)
        return
    depth = gradient = None
    for y in sorted({z for q in rest.a for z in subterms(ev.deref(q))}, key=lambda z: z.id):
        if y.op == 'elem':
            src = ev.deref(y.a[0])
            names = {z.a[0] for z in subterms(src) if z.op == 'sym'}
            if 'temperature' in names:
                gradient = y
            elif 'depth' in names:
                depth = y
    try:
        v = ev.deref(ev.apply(f, [mk('list', sym('x'))] + [ev.deref(q) for q in rest.a], {}, e.node, None))
    except Exception as ex:
        chk.unknown('profile', qual, f'objective not evaluated: {ex}', fn.loc)
        return

    def name(y):
        return sym('depth') if y is depth else sym('gradient') if y is gradient else None
    at = lambda a: mk('attr', ME, a)
    p = {'fluid_density': at('density_fluid_reference'), 'reference_temp': at('temp_reference'), 'water': at('volume_water_reference_relative'), 'oil': at('volume_oil_reference_relative')}
    decide(chk, 'profile', 'objective', rebuild(v, name), spec_term(chk, 'fluid.profile', p), Lower({}), R, loc=fn.loc)
    if gradient is not None:
        g = ev.deref(gradient.a[0])
        decide(chk, 'profile', 'thermal gradient', g, spec_term(chk, 'fluid.gradient', {'reference_temp': at('temp_reference')}), Lower(S(depth=n, temperature=n)), R, loc=fn.loc)
    else:
        chk.unknown('profile', 'thermal gradient', 'not found', fn.loc)
    if x0 is not None:
        chk.ok('profile', 'starting value')


def run(chk):
    chk.explanation = 'the reference volumes, phase equations and profile objective are numbered and compared with the volume balance and the SPE 11118 equations'
    for g in (composition, model, profile):
        chk.group(g)


MINIMUM = 1
