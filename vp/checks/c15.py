"""C15 The connector handles every combination of target inputs.

Disjunctive dataflow through the connector's construction for every combination of given and missing inputs: which
inputs are None decides the method table and the branches, everything else stays open. Every way the construction can
end is either a stated rejection or a solution whose method has an interpolator, and the interpolation is then followed
on the attributes the construction left: none may be missing or None where it is used."""
import itertools
from .common import *
from ..states import States, State, NN, NONE, ME, ANY, k, TooMany

REJ = 'contradictory inputs are rejected with an explanation'
SOL = 'permitted inputs lead to a solution by the method they call for'
SET = 'a solution sets all that interpolation and the end nodes read'
BITS = ('md2', 'inc2', 'azi2', 'pos2', 'vec2')


def expected(md, inc, azi, pos, vec, force):
    """(contradictory, methods that may result, methods of which one must be able to result)"""
    angles = inc or azi
    if not (md or inc or azi or pos or vec) or vec and angles or md and pos:
        return True, set(), set()
    if force:
        return False, {'min_curve', 'hold'}, {'min_curve'}
    if pos:
        if vec or inc and azi:
            return False, {'curve_hold_curve', 'hold'}, {'curve_hold_curve'}
        return False, {'min_dist_to_target', 'min_curve_to_target', 'hold'}, {'min_dist_to_target', 'min_curve_to_target'}
    if vec or angles:
        return False, {'min_curve', 'hold'}, {'min_curve'}
    return False, {'hold'}, {'hold'}


def start_forms():
    yield 'vec1', dict(vec1=NN, inc1=NONE, azi1=NONE), True
    yield 'inc1, azi1', dict(vec1=NONE, inc1=NN, azi1=NN), True


BAD_STARTS = [('no start direction', dict(vec1=NONE, inc1=NONE, azi1=NONE)), ('inc1 without azi1', dict(vec1=NONE, inc1=NN, azi1=NONE)),
              ('azi1 without inc1', dict(vec1=NONE, inc1=NONE, azi1=NN)), ('vec1 and angles', dict(vec1=NN, inc1=NN, azi1=NN)), ('vec1 and inc1', dict(vec1=NN, inc1=NN, azi1=NONE))]


class Run:
    def __init__(self, chk, cls, init, interp):
        self.chk, self.cls, self.init, self.interp = chk, cls, init, interp

        self.memo, self.rels = {}, {}

    def states(self, issues):
        st = States(self.chk.prog, on_issue=lambda kind, node, f, text: issues.append((kind, f.qual, getattr(node, 'lineno', 0), text)), limit=3000)
        st.mycls = self.cls
        st.memo, st.rels = self.memo, self.rels
        st.anyparts = {'node.get_node_params': 3}
        return st

    def construct(self, given):
        issues = []
        st = self.states(issues)
        env, bad = st.bind(self.init, [ME], given)
        if bad:
            return None, None, issues
        outs = st.run(self.init, env, {})
        self.chk.count('abstract statements executed', st.steps)
        return st, outs, issues

    def follow(self, st, attrs, issues):
        env, bad = st.bind(self.interp, [ME], {})
        if 'step' in env:
            env['step'] = NN
        return st.run(self.interp, env, attrs)


def combos(thorough):
    for bits in itertools.product((False, True), repeat=5):
        for force in (False, True):
            for dls, dls2 in ((NN, NONE), (NONE, NONE), (NN, NN)):
                for closest in (False, True) if not force else (False,):
                    yield bits, force, dls, dls2, closest


def name(bits, form, force, dls, dls2, closest):
    given = [b for b, x in zip(BITS, bits) if x]
    opts = [o for o, x in (('force_min_curve', force), ('no dls_design', dls == NONE), ('dls_design2', dls2 != NONE), ('closest_approach', closest)) if x]
    return f'{form} to {", ".join(given) or "nothing"}' + (f' [{", ".join(opts)}]' if opts else '')


def one(chk, run, bits, form, start, force, dls, dls2, closest):
    given = dict(start, dls_design=dls, dls_design2=dls2, force_min_curve=k(force), closest_approach=k(closest), pos1=NN, md1=NN, degrees=NN, unit=NN, min_error=NN, delta_dls=NN,
                 min_tangent=NN, max_iterations=NN)
    for b, x in zip(BITS, bits):
        given[b] = NN if x else NONE
    ps = run.init.all_params()
    missing = [p for p in BITS + ('force_min_curve', 'dls_design') if p not in ps]
    given = {p: v for p, v in given.items() if p in ps}
    nm = name(bits, form, force, dls, dls2, closest)
    if missing:
        chk.unknown(SOL, nm, f'the constructor takes no {", ".join(missing)}')
        return
    contra, may, must = expected(*bits, force)
    try:
        st, outs, issues = run.construct(given)
    except TooMany as e:
        chk.unknown(SOL, nm, str(e))
        return
    loc = run.init.loc
    done = [(s, o) for s, o in outs if o[0] == 'return']
    failed = [o for s, o in outs if o[0] == 'raise' and o[1] not in ('stated', 'bare')]
    if contra:
        if done:
            m = done[0][0].attrs.get('method')
            chk.bad(REJ, nm, f'the construction ends with method {m and m[0]!r} instead of a rejection', loc)
        elif any(o[1] == 'bare' for s, o in outs):
            chk.bad(REJ, nm, 'is rejected without an explanation', loc)
        elif failed:
            chk.bad(REJ, nm, f'fails without an explanation: {failed[0][2]}', loc)
        else:
            chk.ok(REJ, nm, '', loc)
        return
    if failed:
        chk.bad(SET, nm, f'a way through the construction fails: {failed[0][-1]} (in {issues[0][1] if issues else "?"})', loc)
    if not done:
        chk.bad(SOL, nm, 'is always rejected', loc)
        return
    got = {}
    for s, o in done:
        m = s.attrs.get('method')
        got.setdefault(m[0] if m else None, []).append(s)
    names = {m[1] if m and m[0] == 'k' else None for m in got}
    if None in names:
        chk.unknown(SOL, nm, 'the method is not evident')
        return
    if names - may:
        chk.bad(SOL, nm, f'is solved by {", ".join(sorted(names - may))}, which does not honour these inputs', loc)
    elif not names & must:
        chk.bad(SOL, nm, f'is never solved by {" or ".join(sorted(must))}', loc)
    else:
        chk.ok(SOL, nm, ', '.join(sorted(names)), loc)
    chk.count('ways through the construction', len(outs))
    problems = []
    for m, ss in got.items():
        for s in ss:
            chk.count('solutions followed into interpolation')
            inner = []
            st2 = run.states(inner)
            try:
                outs2 = run.follow(st2, dict(s.attrs), inner)
            except TooMany as e:
                chk.unknown(SET, nm, str(e))
                return
            bad = [o for s2, o in outs2 if o[0] == 'raise' and o[1] not in ('stated', 'bare')]
            if bad:
                problems.append(f'{m[1]}: {bad[0][-1]} (in {inner[0][1] if inner else bad[0][-1]})')
            elif not outs2:
                problems.append(f'{m[1]}: interpolation has no way to end')
    if problems:
        chk.bad(SET, nm, problems[0], loc)
    elif not failed:
        chk.ok(SET, nm, '', loc)


def combinations(chk):
    cls = chk.need('connector.Connector')
    kk = cls.lookup('__init__')
    init, interp = kk[1], cls.lookup('interpolate')
    if interp is None:
        raise AnalysisBroken('Connector.interpolate')
    run = Run(chk, cls, init, interp[1])
    for form, start, _ in start_forms():
        for bits, force, dls, dls2, closest in combos(chk.tier == 'thorough'):
            if chk.tier != 'thorough' and form != 'vec1' and (force or closest or dls2 != NONE):
                continue
            chk.count('combinations')
            one(chk, run, bits, form, start, force, dls, dls2, closest)
    for nm, start in BAD_STARTS:
        given = dict(start, pos2=NN)
        st, outs, issues = run.construct(given)
        if any(o[0] == 'return' for s, o in outs):
            chk.bad(REJ, nm, 'is accepted', init.loc)
        elif any(o[0] == 'raise' and o[1] != 'stated' for s, o in outs):
            chk.bad(REJ, nm, 'fails without an explanation', init.loc)
        else:
            chk.ok(REJ, nm, '', init.loc)
    # nodes in place of positions and directions: whatever parts they have
    given = dict(node1=NN, node2=NN, pos1=NONE, vec1=NONE, inc1=NONE, azi1=NONE, md2=NONE, inc2=NONE, azi2=NONE, pos2=NONE, vec2=NONE)
    try:
        st, outs, issues = run.construct({p: v for p, v in given.items() if p in init.all_params()})
    except TooMany as e:
        chk.unknown(SOL, 'nodes', str(e))
        return
    done = [s for s, o in outs if o[0] == 'return']
    names = {s.attrs['method'][0][1] for s in done if 'method' in s.attrs and s.attrs['method'][0][0] == 'k'}
    want = {'hold', 'min_curve', 'curve_hold_curve', 'min_dist_to_target', 'min_curve_to_target'}
    failed = [o for s, o in outs if o[0] == 'raise' and o[1] not in ('stated', 'bare')]
    if failed:
        chk.bad(SET, 'node1 to node2', f'a way through the construction fails: {failed[0][-1]}', init.loc)
    elif want - names:
        chk.bad(SOL, 'node1 to node2', f'no nodes lead to {", ".join(sorted(want - names))}', init.loc)
    else:
        chk.ok(SOL, 'node1 to node2', ', '.join(sorted(names)), init.loc)


def run(chk):
    chk.explanation = 'disjunctive dataflow (None-ness, constants, set attributes) through Connector construction and interpolation for every combination of given and missing inputs'
    chk.group(combinations)


MINIMUM = 60
