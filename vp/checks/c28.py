"""C28 Published survey scalars are the defined functions of the trajectory."""
from .common import *
from .c26 import section_terms, scalars, mono, UNITS

RULE = 'scalar definition'


def dogleg(chk):
    formula(chk, RULE, 'utils.get_dogleg', 'core.dogleg', ranges=ranges(inc1=(0.2, 2.8), inc2=(0.2, 2.8), azi1=(0.2, 6.1), azi2=(0.2, 6.1)), special=[coincide(('inc1', 'inc2'), ('azi1', 'azi2'))])
    ev, r = survey_init(chk, skip=('_get_errors', '_get_vertical_section'))
    fn = chk.need('survey.Survey.__init__')
    for a, spec in (('dogleg', 'core.station_dogleg'), ('rf', 'core.station_rf'), ('toolface', 'survey.interval_toolface'), ('normals', 'survey.interval_normal')):
        t = ev.heap.get((sym('self'), a))
        if t is None:
            chk.unknown(RULE, f'Survey.{a}', 'not set', fn.loc)
            continue
        decide(chk, RULE, f'Survey.{a}', ev.deref(t), spec_term(chk, spec), Lower(SURVEY_SHAPES), mono, loc=fn.loc, angle='rad' if a == 'toolface' else None)


def rates(chk):
    fn = chk.need('survey.Survey.__init__')
    for u in UNITS:
        ev, r = survey_init(chk, unit=u, skip=('_get_errors', '_get_vertical_section'))
        if ev is None:
            chk.unknown(RULE, f'Survey[{u}]', str(r))
            continue
        for a in ('build_rate', 'turn_rate'):
            t = ev.heap.get((sym('self'), a))
            if t is None:
                chk.unknown(RULE, f'Survey.{a}[{u}]', 'not set')
                continue
            decide(chk, RULE, f'Survey.{a}[{u}]', ev.deref(t), spec_term(chk, 'survey.' + a, {'unit': const(u)}), Lower(SURVEY_SHAPES), mono, loc=fn.loc)


def vertical_section(chk):
    me = sym('self')
    ini, _ = survey_init(chk, skip=('_get_errors', '_get_vertical_section', '_get_toolface_and_rates', '_min_curve'))
    lookup = ini.heap.get((me, 'azi_ref_lookup')) if ini else None
    sh = {mk('attr', me, x): n for x in ('n', 'e', 'tvd', 'inc_rad', 'azi_grid_rad', 'azi_true_rad', 'azi_mag_rad', 'hypot')}
    hdr = mk('attr', me, 'header')
    rg = ranges(inc_rad=(0.2, 2.8), azi_grid_rad=(0.1, 6.2), azi_true_rad=(0.1, 6.2), azi_mag_rad=(0.1, 6.2), n=(-900., 900.), e=(-900., 900.))
    for ref, short in (('grid', 'grid'), ('true', 'true'), ('magnetic', 'mag')):
        def before(ev, ref=ref):
            ev.heap[(hdr, 'azi_reference')] = const(ref)
            if lookup is not None:
                ev.heap[(me, 'azi_ref_lookup')] = lookup
                ev.heap.update({k: v for k, v in ini.heap.items() if k[0] is lookup})
                ev.heap[(me, 'hypot')] = spec_term(chk, 'survey.interval_hypot', {'self': me})
        for deg in (TRUE, FALSE):
            formula(chk, RULE, 'survey.Survey.get_vertical_section', 'survey.vertical_section', params={'deg': deg}, before=before, shapes=sh, ranges=rg,
                    specparams={'self': me, 'azi': mk('attr', me, f'azi_{short}_rad')}, construct=f'Survey.get_vertical_section[{ref}, deg={cval(deg)}]')
    fn = chk.need('survey.Survey.set_vertical_section')
    for deg in (TRUE, FALSE):
        ev, r = evaluate(chk, 'survey.Survey.set_vertical_section', {'deg': deg}, inline=lambda f: f.qual == 'survey.Survey.set_vertical_section')
        hd = ev.heap.get((me, 'header'), hdr)
        for x, t in (('header', ev.heap.get((hd, 'vertical_section_azimuth'), ev.heap.get((hdr, 'vertical_section_azimuth')))), ('result', ev.heap.get((me, 'vertical_section')))):
            c = f'Survey.set_vertical_section {x}[deg={cval(deg)}]'
            if t is None:
                chk.unknown(RULE, c, 'not set', fn.loc)
                continue
            t = ev.deref(t)
            if x == 'header':
                decide(chk, RULE, c, t, spec_term(chk, 'survey.header_rad', {'deg': deg, 'value': sym('vertical_section_azimuth')}), Lower({}), loc=fn.loc)
            else:
                e = [y for y in ev.events if y.kind == 'call' and y.d['callee'].endswith('get_vertical_section')]
                if not e:
                    chk.unknown(RULE, c, 'not delegated', fn.loc)
                    continue
                b = e[-1].d['bound']
                d = b.get('deg')
                if d in (TRUE, FALSE):
                    decide(chk, RULE, c, mkcall('numpy.radians', [ev.deref(b['vertical_section_azimuth'])]) if d is TRUE else ev.deref(b['vertical_section_azimuth']),
                           spec_term(chk, 'survey.header_rad', {'deg': deg, 'value': sym('vertical_section_azimuth')}), Lower({}), loc=fn.loc)
                else:
                    chk.unknown(RULE, c, 'flag not constant', fn.loc)
    # the azimuth in the header is in radians: used as such
    fn = chk.prog.find('survey.Survey._get_vertical_section')
    if fn is None:
        chk.unknown(RULE, 'Survey.vertical_section', 'internal function gone')
        return
    ev, r = evaluate(chk, fn.qual, {}, inline=lambda f: f is fn, before=lambda ev: ev.guards.append((mk('cmp', 'is', mk('attr', hdr, 'vertical_section_azimuth'), NONE), False)))
    e = [y for y in ev.events if y.kind == 'call' and y.d['callee'].endswith('get_vertical_section')]
    if e:
        b = e[-1].d['bound']
        d = b.get('deg')
        if d in (TRUE, FALSE):
            v = ev.deref(b['vertical_section_azimuth'])
            decide(chk, RULE, 'Survey.vertical_section', mkcall('numpy.radians', [v]) if d is TRUE else v, mk('attr', hdr, 'vertical_section_azimuth'), Lower({}), loc=fn.loc)
    t = ev.heap.get((me, 'hypot'))
    if t is not None:
        decide(chk, RULE, 'Survey.hypot', ev.deref(t), spec_term(chk, 'survey.interval_hypot', {'self': me}), Lower(sh), rg, loc=fn.loc)


def sections(chk):
    fn = chk.need('survey.get_sections')
    out = section_terms(chk, 'meters', ('turn_rate', 'location', 'toolface'))
    for f, spec in (('turn_rate', 'section_turn'), ('location', 'section_location'), ('toolface', 'section_toolface')):
        if not out or f not in out:
            chk.unknown(RULE, f'get_sections {f}', 'section values not recognised', fn.loc)
            continue
        decide(chk, RULE, f'get_sections {f}', out[f], spec_term(chk, 'survey.' + spec, {'unit': const('meters')}), Lower({}, atoms=scalars), ranges(azi_grid_deg=(1., 359.)), loc=fn.loc)


def run(chk):
    chk.explanation = 'each published scalar is numbered from the survey constructor (helpers inlined) and compared with its definition'
    for g in (dogleg, rates, vertical_section, sections):
        chk.group(g)


MINIMUM = 2
