"""C10 Errors accumulate along the well according to their propagation mode."""
from .common import *

ME = sym('self')
SV = sym('survey')
MODES = ('random', 'systematic', 'global', 'within_pad')
R = ranges(survey=(0.2, 2.9), e_NEV=(-1., 1.), e_NEV_star=(-1., 1.), e_DIA=(-1., 1.), drdp=(-1., 1.))


def rev4(flag):
    def facts(c):
        if c.op == 'cmp' and any(x.op == 'attr' and x.a[1] == 'error_model' for x in subterms(c)):
            if c.a[0] == '==':
                return flag
            if c.a[0] == '!=':
                return not flag
        return None
    return facts


def jacobian(chk):
    sh = {SV: ('n', 3)}
    for flag in (False, True):
        t = ' [rev 4]' if flag else ''
        fl = const(flag)
        formula(chk, 'propagation Jacobian', 'error.ErrorModel._drdp', 'errors.drdp', shapes=sh, specparams={'rev4': fl}, facts=rev4(flag), construct='_drdp' + t, ranges=R, maxconds=12)
        formula(chk, 'propagation Jacobian', 'error.ErrorModel.drk_dInc', 'errors.drk_dInc', shapes=sh, specparams={'rev4': fl}, facts=rev4(flag), construct='drk_dInc' + t, ranges=R)
    for q in ('drk_dDepth', 'drk_dAz', 'drkplus1_dDepth', 'drkplus1_dInc', 'drkplus1_dAz'):
        formula(chk, 'propagation Jacobian', 'error.ErrorModel.' + q, 'errors.' + q, shapes=sh, construct=q, ranges=R)
    for k, s in (('double_delta_md', 'sing_double'), ('delta_md', 'sing_delta'), ('azi2', 'sing_azi')):
        def out(ev, r, k=k):
            r = ev.deref(r)
            return next((x.a[1] for x in r.a if x.op == 'kv' and x.a[0] is const(k)), None) if r.op == 'dict' else None
        formula(chk, 'propagation Jacobian', 'error.ErrorModel._drdp_sing', 'errors.' + s, shapes=sh, construct='_drdp_sing ' + k, out=out, ranges=R)


def stations(chk):
    """the error model is evaluated at the survey's own depths, inclinations and true azimuths"""
    fn = chk.need('error.ErrorModel.__init__')
    ev, r = evaluate(chk, 'error.ErrorModel.__init__', {}, inline=lambda f: not f.name.startswith('_drdp') and f.name != '__init__', opaque_init=('errors.tool_errors.ToolError',))
    if ev is None:
        chk.unknown('error model stations', fn.qual, r)
        return
    want = mkcall('numpy.stack', [mk('tuple', *(mk('attr', SV, a) for a in ('md', 'inc_rad', 'azi_true_rad')))], {'axis': const(-1)})
    sh = {mk('attr', SV, a): n for a in ('md', 'inc_rad', 'azi_true_rad', 'azi_grid_rad', 'azi_mag_rad')}
    L = Lower(sh)
    v = ev.heap.get((ME, 'survey_rad'))
    if v is None:
        chk.unknown('error model stations', fn.qual, 'survey_rad not set', fn.loc)
    else:
        decide(chk, 'error model stations', 'ErrorModel.survey_rad', ev.deref(v), want, L, SURVEY_RANGES, loc=fn.loc)
    for a, q in (('drdp', '_drdp'), ('drdp_sing', '_drdp_sing')):
        c = [e for e in ev.events if e.kind == 'call' and str(e.d['callee']).endswith('.' + q)]
        if not c:
            chk.unknown('error model stations', a, 'not computed in the constructor', fn.loc)
        for e in c:
            b = ev.deref(e.d['bound'].get('survey', NONE))
            decide(chk, 'error model stations', f'ErrorModel.{a}', b, want, L, SURVEY_RANGES, loc=fn.loc)


def vectors(chk):
    sh = {sym('e_DIA'): ('n', 3), mk('attr', ME, 'drdp'): ('n', 18)}
    for q, s in (('_e_NEV', 'regular_both'), ('_e_NEV_star', 'regular_above')):
        formula(chk, 'error vector', 'error.ErrorModel.' + q, 'weights.' + s, shapes=sh, specparams={'drdp': mk('attr', ME, 'drdp'), 'e': sym('e_DIA')}, construct=q, ranges=R)


def accumulation(chk):
    # every error vector is zero at the first station
    sh = {sym(x): A(('n', 3), {(0, i): mkite(mk('ieq', 0), const(0.0), mk('el', mk('comp_of', sym(x), i), 0)) for i in range(3)}) for x in ('e_NEV', 'e_NEV_star')}
    sh[sym('e_DIA')] = ('n', 3)
    qual = 'error.ErrorModel._generate_error'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('accumulation by mode', qual, 'this internal function is gone')
        return
    for mode in MODES:
        for given in (True, False):
            p = {'propagation': const(mode), 'NEV': TRUE}
            if not given:
                p.update(e_NEV=NONE, e_NEV_star=NONE)
            ev, r = evaluate(chk, qual, p, given=[sym('e_NEV')] if given else [], inline=lambda f: f.name not in ('_e_NEV', '_e_NEV_star'))
            tag = mode + ('' if given else ' (vectors derived)')
            if ev is None:
                chk.unknown('accumulation by mode', tag, r, fn.loc)
                continue
            o = ev.deref(r)
            made = {a: ev.heap.get((r, a)) for a in ('code', 'propagation', 'e_DIA', 'e_NEV', 'e_NEV_star', 'cov_NEV', 'cov_DIA', 'sigma_e_NEV')}
            if made['cov_NEV'] is None:
                if r is NONE or o is NONE:
                    chk.bad('accumulation by mode', tag, 'no error is produced for this propagation mode', fn.loc)
                else:
                    chk.unknown('accumulation by mode', tag, f'the produced error is not a known object: {show(o)[:100]}', fn.loc)
                continue

            def own(t):
                # the vectors derived inside are the model's own
                def f(x):
                    if x.op == 'rcall' and str(x.a[0]).endswith('._e_NEV'):
                        return sym('e_NEV')
                    if x.op == 'rcall' and str(x.a[0]).endswith('._e_NEV_star'):
                        return sym('e_NEV_star')
                    return None
                return rebuild(t, f)
            L = Lower(sh)
            spec = 'errors.cov_random' if mode == 'random' else 'errors.cov_systematic'
            decide(chk, 'accumulation by mode', tag, own(ev.deref(made['cov_NEV'])), spec_term(chk, spec), L, R, loc=fn.loc)
            decide(chk, 'error vectors kept', tag + ' e_NEV', own(ev.deref(made['e_NEV'])), sym('e_NEV'), L, R, loc=fn.loc)
            decide(chk, 'error vectors kept', tag + ' e_NEV_star', own(ev.deref(made['e_NEV_star'])), sym('e_NEV_star'), L, R, loc=fn.loc)
            decide(chk, 'error vectors kept', tag + ' e_DIA', ev.deref(made['e_DIA']), sym('e_DIA'), L, R, loc=fn.loc)
            for a, w in (('code', sym('code')), ('propagation', const(mode))):
                v = ev.deref(made[a])
                if v is w:
                    chk.ok('error labelled', f'{tag} {a}')
                elif is_const(v) or v.op == 'sym':
                    chk.bad('error labelled', f'{tag} {a}', f'is {show(v)} instead of {show(w)}', fn.loc)
                else:
                    chk.unknown('error labelled', f'{tag} {a}', show(v)[:100], fn.loc)


# ---------------------------------------------------------------- the sum over all terms
def with_mode(t, mode):
    def f(x):
        if x.op == 'attr' and x.a[1] == 'propagation' and x.a[0].op in ('elemval', 'elem'):
            return const(mode)
        if x.op == 'cmp':
            return mkcmp(*x.a)
        if x.op == 'ite':
            return mkite(*x.a)
        if x.op == 'not' and x.a[0] in (TRUE, FALSE):
            return FALSE if x.a[0] is TRUE else TRUE
        if x.op == 'and':
            if any(y is FALSE for y in x.a):
                return FALSE
            if all(y is TRUE for y in x.a):
                return TRUE
        if x.op == 'or':
            if any(y is TRUE for y in x.a):
                return TRUE
            if all(y is FALSE for y in x.a):
                return FALSE
        return None
    return rebuild(t, f)


def addends(t):
    if t.op == 'bin' and t.a[0] == '+':
        return addends(t.a[1]) + addends(t.a[2])
    if t.op == 'call' and t.a[0] == 'numpy.add':
        return addends(t.a[1].a[0]) + addends(t.a[1].a[1])
    return [t]


def increments(t, mode):
    """terms added per error term of the given mode: list of terms, or None if not of that form"""
    if t.op == 'loopout':
        upd = with_mode(t.a[2], mode)
        xs = addends(upd)
        ph = [x for x in xs if x.op == 'phi']
        if len(ph) != 1:
            return None
        init = ph[0].a[2] if len(ph[0].a) > 2 else None
        if init is None or not zero(init):
            return None
        return [x for x in xs if x.op != 'phi']
    if any(x.op == 'sumover' for x in addends(t)):
        out = []
        for x in addends(t):
            if x.op == 'sumover':
                out += addends(with_mode(x.a[0], mode))
            elif not zero(x):
                return None
        return out
    if zero(t):
        return []
    return None


def zero(t):
    return t.op == 'call' and t.a[0] in ('numpy.zeros', 'numpy.zeros_like') or is_const(t) and cval(t) == 0


def totals(chk):
    qual = 'errors.tool_errors.ToolError.__init__'
    fn = chk.need(qual)
    opaque = ('_call_interpreter', 'call_func', '_initiate_func_dict', '_resolve_json_model', '_json_to_em_adapter')
    ev, r = evaluate(chk, qual, {}, inline=lambda f: f.name not in opaque)
    if ev is None:
        chk.unknown('sum over terms', qual, r, fn.loc)
        return
    for a, want in (('cov_NEVs', MODES), ('cov_NEVs_random', ('random',)), ('cov_NEVs_systematic', ('systematic',)), ('cov_NEVs_global', ('global',)), ('cov_NEVs_within_pad', ('within_pad',))):
        v = ev.heap.get((ME, a))
        if v is None:
            chk.unknown('sum over terms', a, 'not set', fn.loc)
            continue
        v = ev.deref(v)
        for m in MODES:
            inc = increments(v, m)
            if inc is None or any(not (x.op == 'attr' and x.a[0].op in ('elemval', 'elem')) for x in inc):
                chk.unknown('sum over terms', f'{a} of {m} terms', show(v, 5)[:200] if inc is None else show(inc[0], 4)[:200], fn.loc)
                continue
            names = [x.a[1] for x in inc]
            exp = ['cov_NEV'] if m in want else []
            if names == exp:
                chk.ok('sum over terms', f'{a} of {m} terms')
            else:
                chk.bad('sum over terms', f'{a} of {m} terms', f'each {m} term adds {names or "nothing"}, specified {exp or "nothing"}', fn.loc)
    # the high-side matrices are those of the total
    v = ev.heap.get((ME, 'cov_HLAs'))
    if v is not None:
        tot = ev.deref(ev.heap.get((ME, 'cov_NEVs')))
        sub = lambda t: rebuild(t, lambda x: sym('total') if x is tot else mk('attr', sym('error'), 'survey_rad') if x.op == 'attr' and x.a[1] == 'survey_rad' else None)
        parts = [ev.deref(ev.heap[(ME, a)]) for a in ('cov_NEVs_random', 'cov_NEVs_systematic', 'cov_NEVs_global', 'cov_NEVs_within_pad') if (ME, a) in ev.heap]
        v = ev.deref(v)
        have = [a for a, p in zip(MODES, parts) if p in set(subterms(v))]
        sr = mk('attr', sym('error'), 'survey_rad')
        L = Lower({sr: ('n', 3), sym('total'): ('n', 3, 3)})
        if tot not in set(subterms(v)) and have:
            chk.bad('high-side covariance of the total', 'ToolError.cov_HLAs', f'rotates the {have[0]} part only', fn.loc)
        else:
            decide(chk, 'high-side covariance of the total', 'ToolError.cov_HLAs', sub(v), spec_term(chk, 'core.nev_to_hla_cov', {'survey': sr, 'NEV': sym('total')}), L, ranges(survey_rad=(0.2, 2.9), total=(-1., 1.)), loc=fn.loc)
    # every term of the model goes to its weight function with its own magnitude and propagation
    KEYS = {'func': 'function', 'mag': 'magnitude', 'propagation': 'propagation', 'term': '_iscwsa_term'}
    for q in ('call_func', '_call_interpreter'):
        c = [e for e in ev.events if e.kind == 'call' and str(e.d['callee']).endswith('.' + q)]
        if not c:
            chk.unknown('term handed over', q, 'not called from the constructor', fn.loc)
        for e in c:
            for k, t in (e.d['bound'] or {}).items():
                t = ev.deref(t)
                if k in KEYS:
                    if t.op == 'idx' and is_const(t.a[1]):
                        if cval(t.a[1]) == KEYS[k] and any(x.op == 'elem' for x in subterms(t)):
                            chk.ok('term handed over', f'{q} {k}')
                        elif cval(t.a[1]) in KEYS.values():
                            chk.bad('term handed over', f'{q} {k}', f'is the term\'s {cval(t.a[1])}', fn.loc)
                        else:
                            chk.unknown('term handed over', f'{q} {k}', show(t, 4)[:120], fn.loc)
                    elif is_const(t):
                        chk.bad('term handed over', f'{q} {k}', f'is {show(t)} for every term', fn.loc)
                    else:
                        chk.unknown('term handed over', f'{q} {k}', show(t, 4)[:120], fn.loc)
                elif k == 'code':
                    (chk.ok if t.op in ('elem', 'elemkey') else chk.unknown)('term handed over', f'{q} code', show(t, 4)[:120], fn.loc)
    # stored under its own name
    v = ev.deref(ev.heap.get((ME, 'errors'), NONE))
    if v.op == 'loopout':
        def arms(t):
            return arms(t.a[1]) + arms(t.a[2]) if t.op == 'ite' else [t]
        for x in arms(v.a[2]):
            if x.op == 'store' and x.a[0].op == 'phi' and x.a[1].op in ('elem', 'elemkey'):
                chk.ok('every term kept', show(x.a[2], 2)[:40])
            elif x.op == 'phi':
                chk.bad('every term kept', qual, 'a term of the model is skipped', fn.loc)
            else:
                chk.unknown('every term kept', qual, show(x, 3)[:120], fn.loc)
    else:
        chk.unknown('every term kept', qual, show(v, 3)[:120], fn.loc)


# ---------------------------------------------------------------- what the survey publishes
PUBLISHED = {'cov_nev': 'cov_NEVs', 'cov_hla': 'cov_HLAs', 'cov_nev_random': 'cov_NEVs_random', 'cov_nev_systematic': 'cov_NEVs_systematic', 'cov_nev_global': 'cov_NEVs_global', 'cov_nev_within_pad': 'cov_NEVs_within_pad'}


def published(chk):
    qual = 'survey.Survey._get_errors'
    fn = chk.prog.find(qual)
    if fn is None:
        chk.unknown('published covariance', qual, 'this internal function is gone')
        return
    sr = mk('attr', ME, 'survey_rad')
    for start in (False, True):
        def before(ev):
            ev.hints[ME] = chk.need('survey.Survey')
            if not start:
                ev.heap[(ME, 'start_cov_nev')] = NONE
        ev, r = evaluate(chk, qual, {}, before=before, opaque_init=('error.ErrorModel',), assume=[(mk('attr', ME, 'error_model'), True)], given=[mk('attr', ME, 'start_cov_nev')] if start else [])
        if ev is None:
            chk.unknown('published covariance', qual, r, fn.loc)
            continue
        err = ev.heap.get((ME, 'err'))
        tag = ' with a start covariance' if start else ''
        if err is None:
            chk.unknown('published covariance', qual + tag, 'no error model attached', fn.loc)
            continue
        src = mk('attr', err, 'errors')
        new = next((e for e in ev.events if e.kind == 'call' and 'ErrorModel' in str(e.d['callee'])), None)
        em = ev.deref(new.d['bound'].get('error_model', NONE)) if new is not None else None
        if em is not None:
            (chk.ok if em is mk('attr', ME, 'error_model') else chk.bad if is_const(em) else chk.unknown)('error model requested', 'Survey.error_model', show(em)[:100], fn.loc)
        g = lambda a: mk('attr', src, a)
        sh = {g(a): ('n', 3, 3) for a in PUBLISHED.values()}
        sh[mk('attr', ME, 'start_cov_nev')] = (3, 3)
        sh[sr] = ('n', 3)
        L = Lower(sh, facts=lambda c: False if c.op == 'cmp' and c.a[0] in ('is', '==') and NONE in c.a[1:] else None)
        for a, s in PUBLISHED.items():
            v = ev.heap.get((ME, a))
            if v is None:
                chk.unknown('published covariance', a + tag, 'not set', fn.loc)
                continue
            want = g(s)
            if start and a in ('cov_nev', 'cov_hla'):
                want = mk('bin', '+', g('cov_NEVs'), mk('attr', ME, 'start_cov_nev'))
                if a == 'cov_hla':
                    want = spec_term(chk, 'core.nev_to_hla_cov', {'survey': sr, 'NEV': want})
            decide(chk, 'published covariance', a + tag, ev.deref(v), want, L, ranges(survey_rad=(0.2, 2.9), **{x: (0.5, 4.) for x in list(PUBLISHED.values()) + ['start_cov_nev']}), loc=fn.loc)
    formula(chk, 'covariance listing', 'error.get_errors', 'errors.components', shapes=S(error=(3, 3)))


def run(chk):
    chk.explanation = 'the Jacobian, the error vectors, their accumulation per propagation mode, the sum over terms and what the survey publishes are value-numbered and compared with the reference accumulation'
    for g in (jacobian, stations, vectors, accumulation, totals, published):
        chk.group(g)


MINIMUM = 6
