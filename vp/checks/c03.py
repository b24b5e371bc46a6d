"""C03 True, magnetic and grid azimuths stay tied by convergence and declination."""
from .common import *

CONV, DECL = hattr('convergence'), hattr('declination')


def run(chk):
    chk.explanation = ('the survey constructor is value-numbered for each azimuth reference and angle unit; each published azimuth is compared, as an angle, '
                       'with the relation true = grid + convergence, magnetic = true - declination')
    fn = chk.need('survey.Survey.__init__')
    for ref in ('grid', 'true', 'magnetic'):
        for deg in (TRUE, FALSE):
            ev, r = survey_init(chk, ref, deg, skip=('_get_toolface_and_rates', '_get_vertical_section', '_get_errors'))
            tag = f'[{ref}, {"degrees" if deg is TRUE else "radians"}]'
            if ev is None:
                chk.unknown('azimuth relation', tag, r, fn.loc)
                continue
            L = Lower(SURVEY_SHAPES)

            def want(name, w, u):
                return spec_term(chk, f'survey.azi_{u}', {'deg': deg, 'ref': const(ref), 'want': const(w), 'convergence': CONV, 'declination': DECL})

            for w in ('grid', 'true', 'magnetic'):
                for u in ('rad', 'deg'):
                    name = f'azi_{"mag" if w == "magnetic" else w}_{u}'
                    t = ev.heap.get((sym('self'), name))
                    c = f'Survey.{name}{tag}'
                    if t is None:
                        chk.bad('azimuth relation', c, 'never set on this path', fn.loc)
                        continue
                    decide(chk, 'azimuth relation', c, ev.deref(t), want(name, w, u), L, loc=fn.loc, angle=u)
            # the trajectory and the published listings use the grid azimuth
            for name, u in (('survey_rad', 'rad'), ('survey_deg', 'deg')):
                t = ev.heap.get((sym('self'), name))
                if t is not None:
                    decide(chk, 'grid azimuth used', f'Survey.{name} column 2{tag}', mk('idx', ev.deref(t), mk('tuple', mk('slice', NONE, NONE, NONE), const(2))), want(name, 'grid', u), L, loc=fn.loc, angle=u)
            for name, nev in (('vec_nev', TRUE), ('vec_xyz', FALSE)):
                t = ev.heap.get((sym('self'), name))
                if t is not None:
                    s = spec_term(chk, 'core.vec', {'inc': spec_term(chk, 'survey.inc_rad', {'deg': deg}), 'azi': want(name, 'grid', 'rad'), 'nev': nev, 'r': const(1), 'deg': FALSE})
                    decide(chk, 'grid azimuth used', f'Survey.{name}{tag}', ev.deref(t), s, L, loc=fn.loc)
            t = ev.heap.get((sym('self'), 'dogleg'))
            if t is not None:
                s = spec_term(chk, 'core.station_dogleg', {'inc': spec_term(chk, 'survey.inc_rad', {'deg': deg}), 'azi': want('', 'grid', 'rad')})
                decide(chk, 'grid azimuth used', f'Survey.dogleg{tag}', ev.deref(t), s, L, loc=fn.loc)
            for name in ('n', 'e', 'tvd', 'x', 'y', 'z'):
                t = ev.heap.get((sym('self'), name))
                if t is not None:
                    s = spec_term(chk, f'survey.surv_{name}', {'inc': spec_term(chk, 'survey.inc_rad', {'deg': deg}), 'azi': want('', 'grid', 'rad')})
                    decide(chk, 'grid azimuth used', f'Survey.{name}{tag}', ev.deref(t), s, L, special=[coincide(('inc',), ('azi',))], loc=fn.loc)
