"""C31 Tables, exported files and figures show the quantity their labels name."""
import math
import re
from .common import *
from .c29 import plain, HOLD

RULE = 'label'
# what a label promises; the first pattern that matches decides
LABELS = [
    (r'azi.*(gn|grid)', {'azi_grid_deg'}), (r'azi.*(tn|true)', {'azi_true_deg'}), (r'azi.*mag', {'azi_mag_deg'}), (r'azi', {'azi_grid_deg', 'azi_ref_deg'}),
    (r'md\b|measured depth', {'md', 'md_range'}), (r'inc\b|inclination', {'inc_deg'}), (r'outstep|vertical section', {'vertical_section'}),
    (r'n\b|north', {'n'}), (r'e\b|(west-)?east', {'e'}), (r'tvdss\b', {'tvd', '-tvd'}), (r'tvd\b|vertical depth', {'tvd'}),
    (r'x\b', {'x'}), (r'y\b', {'y'}), (r'z\b', {'z'}), (r'dls\b', {'dls'}), (r'toolface', {'toolface_deg'}), (r'build rate', {'build_rate'}), (r'turn rate', {'turn_rate'}),
]
NAMES = set().union(*[x for _, x in LABELS]) | {'inc_rad', 'azi_grid_rad', 'azi_true_rad', 'azi_mag_rad', 'toolface', 'dogleg', 'radius', 'delta_md', 'curve_radius', 'vertical_section_azimuth', 'tension', 'torque'}
NAMES |= {'-' + x for x in NAMES if x[0] != '-'}
STRIP = {'numpy.nan_to_num', 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.round', 'numpy.around', 'round', 'float', 'list', 'tuple'}
TURN = (360, 2 * math.pi)


def promised(label):
    s = label.strip().lower()
    for p, names in LABELS:
        if re.match(p, s):
            return names
    return None


def whole_turn(x):
    if x.op == 'bin' and x.a[0] == '*':
        k = [cval(y) for y in x.a[1:] if is_const(y)]
        return k in ([2], [-2]) and any(y.op == 'pi' for y in x.a[1:])
    return is_const(x) and isinstance(cval(x), (int, float)) and any(abs(abs(cval(x)) - u) < 1e-12 for u in TURN)


def quantity(t):
    """name of the survey attribute that a term is, with its angle unit"""
    while True:
        if t.op == 'call' and t.a[0] in STRIP and t.a[1].a:
            t = t.a[1].a[0]
        elif t.op == 'mcall' and t.a[1] in ('tolist', 'copy', 'to_numpy', 'round', 'flatten', 'ravel'):
            t = t.a[0]
        elif t.op == 'elem':
            t = t.a[0]
        elif t.op == 'idx' and t.a[0].op == 'attr':
            t = t.a[0]
        elif t.op == 'bin' and t.a[0] in ('%', '+', '-') and whole_turn(t.a[2]):
            t = t.a[1]
        elif t.op == 'bin' and t.a[0] == '+' and whole_turn(t.a[1]):
            t = t.a[2]
        else:
            break
    if t.op in ('neg', 'un') and len(t.a) >= 1:
        q = quantity(t.a[-1])
        return None if q is None or t.op == 'un' and t.a[0] != '-' else q[1:] if q[0] == '-' else '-' + q
    if t.op == 'bin' and t.a[0] == '*' and const(-1) in t.a[1:]:
        q = quantity(t.a[2] if t.a[1] is const(-1) else t.a[1])
        return None if q is None else q[1:] if q[0] == '-' else '-' + q
    if t.op == 'bin' and t.a[0] == '-' and t.a[1] is const(0):
        q = quantity(t.a[2])
        return None if q is None else q[1:] if q[0] == '-' else '-' + q
    if t.op == 'call' and t.a[0] in ('numpy.degrees', 'numpy.rad2deg', 'math.degrees', 'numpy.radians', 'numpy.deg2rad', 'math.radians') and t.a[1].a:
        q = quantity(t.a[1].a[0])
        to = 'deg' if t.a[0].endswith(('degrees', 'rad2deg')) else 'rad'
        if q is None:
            return None
        if q.endswith(('_deg', '_rad')):
            return q[:-4] + '_' + to if not q.endswith(to) else None
        return q + '_' + to if to == 'deg' else None
    if t.op == 'attr' and isinstance(t.a[1], str):
        return t.a[1]
    return None


def fits(chk, c, label, t, loc):
    want = promised(label)
    if want is None:
        return
    chk.count('labelled quantities')
    q = quantity(t) if t is not None else None
    if q in want:
        chk.ok(RULE, c, q, loc)
    elif q in NAMES:
        chk.bad(RULE, c, f'shows {q} under the label {label.strip()!r}', loc)
    else:
        chk.unknown(RULE, c, show(t, 4)[:160] if t is not None else 'not found', loc)


def columns(ev, t):
    """reads of columns of arrays built row by row, in terms of one row's elements"""
    def f(x):
        if x.op == 'idx' and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and x.a[0].op == 'attr' and x.a[0].a[1] == 'T':
            y = x.a[0].a[0]
            while y.op == 'call' and y.a[0] in ('numpy.array', 'numpy.asarray', 'list') and y.a[1].a:
                y = y.a[1].a[0]
            if y.op == 'comp' and y.a[1].op in ('list', 'tuple') and -len(y.a[1].a) <= cval(x.a[1]) < len(y.a[1].a):
                return y.a[1].a[cval(x.a[1])]
        if x.op == 'elem' and x.a[0].op == 'elem':
            return x.a[0]
        return x
    return rebuild(plain(ev, t), f)


def module_run(chk, q):
    """the function with the helpers of its own module"""
    fn = chk.need(q)
    return fn, evaluate(chk, q, {}, inline=lambda f: f.qual == q or f.module is fn.module and f.cls is None and f.name.startswith('_'), opaque_init=HOLD, defaults=False)


def pairs(ev, t):
    """(label, value) pairs of a dictionary"""
    t = ev.deref(t)
    return [(cval(k.a[0]) if hasattr(k.a[0], 'op') else k.a[0], k.a[1]) for k in t.a if k.op == 'kv' and (not hasattr(k.a[0], 'op') or is_const(k.a[0]))] if t.op == 'dict' else []


def table(chk):
    q = 'survey.survey_to_df'
    fn, (ev, r) = module_run(chk, q)
    es = [e for e in ev.events if e.kind == 'extcall' and e.d['callee'] == 'pandas.DataFrame' and (e.d['args'] or e.d['kws'])] if ev else []
    if len(es) != 1:
        chk.unknown(RULE, q, 'table not recognised', fn.loc)
        return
    t = ev.deref((list(es[0].d['args']) + list(es[0].d['kws'].values()))[0])
    ps = pairs(ev, t)
    if not ps:
        chk.unknown(RULE, q, show(t, 3)[:120], fn.loc)
    for k, v in ps:
        fits(chk, f'{q} {k}', k, columns(ev, v), fn.loc)


def export(chk):
    q = 'survey.get_data'
    fn, (ev, r) = module_run(chk, q)
    t = ev.deref(r) if ev and r is not None else UNDEF
    rows = [x for x in subterms(t) if x.op == 'comp' and x.a[1].op in ('list', 'tuple')]
    if len(rows) != 1:
        chk.unknown(RULE, q, 'rows not recognised', fn.loc)
        return
    cols = list(rows[0].a[1].a)
    g = chk.need('survey.get_sections')
    ev2, _ = evaluate(chk, 'survey.get_sections', {}, inline=lambda f: f.qual == g.qual, opaque_init=HOLD + ('survey.TurnPoint',), defaults=False)
    tps = [e for e in ev2.events if e.kind == 'new' and e.d['cls'].qual == 'survey.TurnPoint'] if ev2 else []
    init = chk.prog.find('survey.TurnPoint.__init__')
    evi, _ = evaluate(chk, 'survey.TurnPoint.__init__', {}, defaults=False) if init else (None, None)

    def field(a):
        """the argument of the control point that its attribute holds"""
        v = evi.heap.get((sym('self'), a)) if evi else None
        v = evi.deref(v) if v is not None else None
        return v.a[0] if v is not None and v.op == 'sym' else None

    def value(x):
        """what a column holds, as a term over the survey"""
        k, sign = None, False
        if x.op in ('neg', 'un'):
            sign, x = True, x.a[-1]
        if x.op == 'idx' and is_const(x.a[1]):
            k, x = cval(x.a[1]), x.a[0]
        if x.op != 'attr' or len(tps) != 1:
            return None
        p = field(x.a[1])
        v = ev2.deref(tps[0].d['bound'].get(p, UNDEF)) if p else None
        if v is None:
            return None
        if k is not None:
            v = ev2.deref(v.a[k]) if v.op in ('list', 'tuple') and isinstance(k, int) and -len(v.a) <= k < len(v.a) else None
        if v is not None and v.op == 'ite':
            arms = [y for y in v.a[1:] if not is_const(y)]
            v = arms[0] if len(arms) == 1 else v
        return mk('neg', v) if sign and v is not None else v
    e = chk.need('survey.export_csv')
    ev3, _ = evaluate(chk, 'survey.export_csv', {}, inline=lambda f: f.qual == e.qual, opaque_init=HOLD, defaults=False)
    heads = {}
    for x in (ev3.events if ev3 else ()):
        if x.kind == 'extcall' and x.d['callee'] == 'numpy.savetxt' and 'header' in x.d['kws']:
            h = ev3.deref(x.d['kws']['header'])
            if is_const(h) and isinstance(cval(h), str):
                heads['file'] = (cval(h).split(','), x)
        if x.kind == 'extcall' and x.d['callee'] == 'pandas.DataFrame' and 'columns' in x.d['kws']:
            h = ev3.deref(x.d['kws']['columns'])
            if h.op in ('list', 'tuple') and all(is_const(y) for y in h.a):
                heads['table'] = ([cval(y) for y in h.a], x)
    for where in ('file', 'table'):
        if where not in heads:
            chk.unknown(RULE, f'survey.export_csv {where}', 'headings not recognised', e.loc)
            continue
        hs, x = heads[where]
        loc = f'{x.rel}:{x.line}'
        if len(hs) != len(cols):
            chk.bad(RULE, f'survey.export_csv {where}', f'{len(hs)} headings for {len(cols)} columns', loc)
            continue
        for h, cterm in zip(hs, cols):
            c = f'survey.export_csv {where} {h}'
            a = cterm.a[-1] if cterm.op in ('neg', 'un') else cterm
            a = a.a[0] if a.op == 'idx' else a
            name = a.a[1] if a.op == 'attr' else None
            want = promised(h)
            if name in ('md', 'inc', 'azi', 'dls', 'toolface', 'build_rate', 'turn_rate', 'location') and want:
                base = {'inc_deg': 'inc', 'azi_grid_deg': 'azi', 'toolface_deg': 'toolface', 'n': 'location', 'e': 'location', 'tvd': 'location'}
                if name not in {base.get(w, w) for w in want}:
                    chk.bad(RULE, c, f'the column holds the control point\'s {name}', loc)
                    continue
            v = value(cterm)
            if name in ('dls', 'toolface', 'build_rate', 'turn_rate'):
                # computed for the control point: which quantity it is made of (its value is C26's and C28's)
                v = rebuild(v, lambda y: y.a[0] if y.op == 'idx' and y.a[0].op == 'attr' else mk('ite', TRUE, *y.a[1:]) if y.op == 'ite' else y) if v is not None else None
                src = {y.a[1] for y in subterms(v) if y.op == 'attr' and y.a[0] is sym('survey')} if v is not None else set()
                need, other = {'dls': (('dls', 'dogleg'), ('toolface',)), 'toolface': (('toolface',), ('dls',)), 'build_rate': (('inc_',), ('azi_', 'toolface', 'dls')), 'turn_rate': (('azi_',), ('inc_', 'toolface', 'dls'))}[name]
                has = lambda ps: any(s.startswith(p) for s in src for p in ps)
                (chk.ok if has(need) else chk.bad if has(other) else chk.unknown)(RULE, c, f'control point {name}' + ('' if has(need) else f' made of {", ".join(sorted(src))}'), loc)
                continue
            fits(chk, c, h, columns(ev2, v) if v is not None else None, loc)


def title_of(ev, t):
    """title of an axis description"""
    for k, v in pairs(ev, t):
        if k == 'title':
            v = ev.deref(v)
            if v.op == 'dict':
                v = next((ev.deref(y) for x, y in pairs(ev, v) if x == 'text'), v)
            return v
    return None


def text_of(v):
    """constant beginning of a text"""
    if v is None:
        return None
    if is_const(v) and isinstance(cval(v), str):
        return cval(v)
    if v.op == 'fstr' and v.a and not hasattr(v.a[0], 'op') and isinstance(v.a[0], str):
        return v.a[0]
    if v.op == 'fstr' and v.a and hasattr(v.a[0], 'op') and is_const(v.a[0]):
        return str(cval(v.a[0]))
    return None


def pieces(t):
    """(text before, value, text after) of every value shown in a text"""
    out, before = [], ''
    parts = []

    def flat(x):
        if not hasattr(x, 'op'):
            parts.append(str(x))
        elif is_const(x) and isinstance(cval(x), str):
            parts.append(cval(x))
        elif x.op == 'fstr':
            for y in x.a:
                flat(y)
        elif x.op == 'bin' and x.a[0] == '+':
            flat(x.a[1])
            flat(x.a[2])
        else:
            parts.append(x)
    flat(t)
    for i, x in enumerate(parts):
        if isinstance(x, str):
            continue
        v = x.a[0] if x.op == 'fmt' else x
        before = parts[i - 1] if i and isinstance(parts[i - 1], str) else ''
        after = parts[i + 1] if i + 1 < len(parts) else ''
        out.append((before, v, after))
    return out


def shown(chk, q, ev, t, loc):
    """labels inside a text: `label: value`, `value deg`"""
    for before, v, after in pieces(t):
        m = re.search(r'([A-Za-z][A-Za-z ]*):\s*$', re.split(r'<br>|\n|\t', before)[-1])
        v = columns(ev, v)
        deg = isinstance(after, str) and re.match(r'\s*(deg|°|\xb0)', after)
        if m and promised(m.group(1)) and not (deg and 'vertical_section' in promised(m.group(1))):
            fits(chk, f'{q} text {m.group(1).strip()}', m.group(1), v, loc)
        if deg:
            k = quantity(v)
            rad = k in NAMES and (k.endswith('_rad') or k in ('toolface', 'dogleg', 'vertical_section_azimuth'))
            if k and (rad or k.endswith('_deg')):
                (chk.bad if rad else chk.ok)(RULE, f'{q} text {before.strip()[-24:]} degrees', f'{k} is shown as degrees' if rad else k, loc)


def axes_of(ev):
    """axis name -> title term"""
    out = {}
    for e in ev.events:
        if e.kind == 'extmcall' and e.d['callee'] in ('update_layout', 'update_scenes'):
            for k, v in e.d['kws'].items():
                if re.match(r'[xyz]axis\d*$', k):
                    t = title_of(ev, v)
                    if t is not None:
                        out[k] = t
    return out


def figures(chk):
    for q in ('visual._panel', 'visual._scatter3d', 'visual._mesh3d'):
        if chk.prog.find(q) is None:
            chk.unknown(RULE, q, 'this internal function is gone')
            continue
        fn, (ev, r) = module_run(chk, q)
        if ev is None:
            chk.unknown(RULE, q, 'no result', fn.loc)
            continue
        axes = axes_of(ev)
        ncols = next((cval(ev.deref(e.d['kws']['cols'])) for e in ev.events if e.kind == 'extcall' and e.d['callee'].endswith('make_subplots') and 'cols' in e.d['kws'] and is_const(ev.deref(e.d['kws']['cols']))), 1)
        for e in ev.events:
            if e.kind == 'extcall' and e.d['callee'].endswith('make_subplots'):
                for x in subterms(ev.deref(e.d['kws'].get('subplot_titles', NONE))):
                    if x.op == 'fstr':
                        shown(chk, q, ev, x, fn.loc)
            if e.kind != 'extmcall' or e.d['callee'] != 'add_trace' or not e.d['args']:
                continue
            tr = ev.deref(e.d['args'][0])
            if tr.op != 'call' or not tr.a[0].startswith('plotly.graph_objects.'):
                continue
            loc = f'{e.rel}:{e.line}'
            at = {k: cval(ev.deref(e.d['kws'][k])) for k in ('row', 'col') if k in e.d['kws'] and is_const(ev.deref(e.d['kws'][k]))}
            no = (at['row'] - 1) * ncols + at['col'] if len(at) == 2 else 1
            kw = {k.a[0]: k.a[1] for y in tr.a[1:] for k in getattr(y, 'a', ()) if getattr(k, 'op', None) == 'kw'}
            name = cval(kw['name']) if 'name' in kw and is_const(kw['name']) else tr.a[0].split('.')[-1]
            for ax in 'xyz':
                if ax not in kw:
                    continue
                key = f'{ax}axis' + (str(no) if no > 1 else '')
                label = text_of(axes.get(key))
                c = f'{q} {name} {key}'
                if label is None:
                    chk.unknown(RULE, c, 'title not recognised', loc)
                    continue
                v = columns(ev, kw[ax])
                if q.endswith('_mesh3d'):
                    i = column_of(v)
                    want = {'e': 1, 'n': 0, 'tvd': 2}
                    w = {want[x] for x in promised(label) or () if x in want}
                    chk.count('labelled quantities')
                    if i is None or not w:
                        chk.unknown(RULE, c, show(v, 4)[:120], loc)
                    else:
                        (chk.ok if i in w else chk.bad)(RULE, c, f'component {i} of the vertices (north, east, vertical)' + ('' if i in w else f' under the label {label!r}'), loc)
                    continue
                fits(chk, c, label, v, loc)
            if q.endswith('_mesh3d') and all(k in kw for k in 'ijk'):
                idx = [column_of(columns(ev, kw[k])) for k in 'ijk']
                if None in idx:
                    chk.unknown(RULE, f'{q} faces', 'not recognised', loc)
                else:
                    good = sorted(idx) == [0, 1, 2]
                    (chk.ok if good else chk.bad)(RULE, f'{q} faces', f'corners {idx}', loc)
            if 'text' in kw:
                t = ev.deref(kw['text'])
                for x in subterms(t):
                    if x.op == 'comp':
                        shown(chk, f'{q} {name}', ev, x.a[1], loc)
            # a trace of added stations shows those, a trace of surveyed stations the others
            flag = 'interp' in str(name) if any(w in str(name) for w in ('interp', 'survey_point')) else None
            conds = {x.a[3] for k in 'xyz' if k in kw for x in subterms(ev.deref(kw[k])) if x.op == 'comp' and len(x.a) > 3 and x.a[3] is not TRUE}
            if flag is not None and len(conds) == 1:
                got = selects(conds.pop())
                c = f'{q} {name} stations'
                (chk.unknown if got is None else chk.ok if got == flag else chk.bad)(RULE, c, 'interpolated ones' if got else 'surveyed ones' if got is False else 'selection not recognised', loc)


def column_of(v):
    """k of rows.T[k] / rows[:, k]"""
    if v.op == 'idx' and is_const(v.a[1]) and v.a[0].op == 'attr' and v.a[0].a[1] == 'T':
        return cval(v.a[1])
    if v.op == 'idx' and v.a[1].op in ('list', 'tuple') and len(v.a[1].a) == 2 and is_const(v.a[1].a[1]) and v.a[1].a[0].op == 'slice':
        return cval(v.a[1].a[1])
    return None


def selects(c):
    """True if a condition picks the flagged stations"""
    if c.op == 'not':
        r = selects(c.a[0])
        return None if r is None else not r
    if c.op == 'call' and c.a[0] == 'bool' and c.a[1].a:
        return selects(c.a[1].a[0])
    if c.op == 'elem':
        return True
    if c.op == 'cmp' and c.a[0] in ('is', '==', 'is not', '!='):
        for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if b in (TRUE, FALSE):
                r = selects(a)
                return None if r is None else r ^ (b is FALSE) ^ (c.a[0] in ('is not', '!='))
    return None


KIND = {'slackoff': r's(lack)?[- ]?off', 'pickup': r'pu|pick', 'rotating': r'ro'}


def loads(chk):
    """tension, torque and hook-load figures"""
    for q in ('torque_drag.figure_string_tension_and_torque', 'torque_drag.figure_hookload'):
        fn, (ev, r) = module_run(chk, q)
        if ev is None:
            chk.unknown(RULE, q, 'no result', fn.loc)
            continue
        axes = axes_of(ev)
        for e in ev.events:
            if e.kind != 'extmcall' or e.d['callee'] != 'add_trace' or not e.d['args']:
                continue
            tr = ev.deref(e.d['args'][0])
            if tr.op != 'call' or not tr.a[0].startswith('plotly.graph_objects.'):
                continue
            loc = f'{e.rel}:{e.line}'
            kw = {k.a[0]: k.a[1] for y in tr.a[1:] for k in getattr(y, 'a', ()) if getattr(k, 'op', None) == 'kw'}
            col = cval(ev.deref(e.d['kws']['col'])) if 'col' in e.d['kws'] and is_const(ev.deref(e.d['kws']['col'])) else 1
            name = kw.get('name')
            nm = text_of(name) or '?'
            for ax in 'xy':
                if ax not in kw:
                    continue
                key = f'{ax}axis' + (str(col) if col > 1 else '')
                title = axes.get(key)
                c = f'{q} {nm.strip(": ")} {key}'
                conv = converted(kw[ax])
                if title is None or conv is None:
                    chk.unknown(RULE, c, 'title or conversion not recognised', loc)
                    continue
                v, unit, to = conv
                chk.count('labelled quantities')
                named = [x.a[1] for x in subterms(title) if x.op == 'idx' and x.a[0] is sym('units')]
                if named and to is not None:
                    good = named == [to.a[1] if to.op == 'idx' and to.a[0] is sym('units') else to]
                    (chk.ok if good else chk.bad)(RULE, f'{c} unit', f'values in {show(to, 2)}, title says units[{", ".join(show(x, 2) for x in named)}]', loc)
                label = (text_of(title) or '').lower()
                src = {x.a[1] for x in subterms(v) if x.op == 'attr'}
                for word, attrs, units in (('tension', {'tension'}, {'N', 'newton'}), ('torque', {'torque'}, {'Nm', 'N*m', 'N m', 'newton_meter'}), ('hook', {'data'}, {'N', 'newton'}), ('md', {'md', 'md_range'}, {'meters', 'meter', 'm'})):
                    if not label.startswith(word):
                        continue
                    known = {'tension', 'torque', 'data', 'md', 'md_range', 'tvd', 'n', 'e'}
                    if src & attrs:
                        chk.ok(RULE, c, ', '.join(sorted(src & attrs)), loc)
                    elif src & known:
                        chk.bad(RULE, c, f'shows {", ".join(sorted(src & known))} under the label {label!r}', loc)
                    else:
                        chk.unknown(RULE, c, show(v, 3)[:100], loc)
                    if unit in units:
                        chk.ok(RULE, f'{c} source unit', unit, loc)
                    elif unit in ('N', 'Nm', 'meters', 'kN', 'lbf', 'feet', 'ft', 'kNm', 'N*m'):
                        chk.bad(RULE, f'{c} source unit', f'{label.split(" ")[0]} is taken to be in {unit}', loc)
            # the case a trace is named after
            v = (converted(kw['x']) or (None,))[0] if 'x' in kw else None
            cases = [cval(x.a[1]) for x in subterms(v) if x.op == 'idx' and is_const(x.a[1]) and cval(x.a[1]) in KIND] if v is not None else []
            if len(set(cases)) == 1:
                said = [k for k, p in KIND.items() if re.match(p, nm.strip().lower())]
                c = f'{q} trace {nm.strip(": ")}'
                if said:
                    (chk.ok if said == cases[:1] else chk.bad)(RULE, c, f'shows the {cases[0]} case', loc)
                else:
                    chk.unknown(RULE, c, f'{nm!r} shows {cases[0]}', loc)
            ks = {(x.a[0], x.a[-1]) for x in subterms(name)if x.op == 'elemkey'} if name is not None else set()
            vs = {(x.a[0], x.a[-1]) for x in subterms(v) if x.op == 'elemval'} if v is not None else set()
            if ks and vs:
                c = f'{q} key {nm.strip(": ")}'
                same = {k[0] for k in ks} == {x[0] for x in vs}
                (chk.ok if same else chk.unknown)(RULE, c, 'named after its own key' if same else 'other key', loc)


def converted(t):
    """(values, unit name, target unit) of (values * unit).to(target).m"""
    if t.op == 'idx' and not is_const(t.a[1]):
        return None
    if t.op != 'attr' or t.a[1] not in ('m', 'magnitude') or t.a[0].op != 'mcall' or t.a[0].a[1] != 'to' or not t.a[0].a[2].a:
        return None
    b, to = t.a[0].a[0], t.a[0].a[2].a[0]
    if b.op != 'bin' or b.a[0] != '*':
        return None
    for v, u in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
        s = show(u, 6)
        if 'ureg' in s or 'UnitRegistry' in s or u.op == 'attr' and u.a[1] in ('meters', 'meter', 'm'):
            if u.op == 'attr':
                return v, u.a[1], to
            cs = [cval(x) for x in subterms(u) if is_const(x) and isinstance(cval(x), str)]
            if len(cs) == 1:
                return v, cs[0], to
    return None


def pointer(chk):
    q = 'visual.Plotter._pointer_callback'
    if chk.prog.find(q) is None:
        chk.unknown(RULE, q, 'this internal function is gone')
        return
    fn = chk.need(q)
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.qual == q, opaque_init=HOLD, defaults=False)
    n = 0
    for e in (ev.events if ev else ()):
        if e.kind == 'extmcall' and e.d['callee'] == 'text' and e.d['args']:
            t = ev.deref(e.d['args'][0])
            if t.op in ('fstr', 'bin'):
                n += 1
                shown(chk, q, ev, t, f'{e.rel}:{e.line}')
    if not n:
        chk.unknown(RULE, q, 'text not recognised', fn.loc)
    q = 'visual.Plotter._get_closest_well'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown(RULE, q, 'this internal function is gone')
        return
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.qual == q, opaque_init=HOLD, defaults=False)
    found = {}
    for x in (subterms(ev.deref(r)) if ev and r is not None else ()):
        if x.op == 'dict':
            found = dict(pairs(ev, x)) or found
    bare = lambda x: bare(x.a[1].a[0]) if x.op == 'call' and x.a[0] == 'int' and x.a[1].a else x
    c = f'{q} station of a vertex'
    t = bare(ev.deref(found['idx_survey'])) if 'idx_survey' in found else None
    if t is not None and t.op == 'bin' and t.a[0] in ('//', '%', '/', '*') and 'idx_vertices' in found and 'n_verts' in found:
        good = t.a[0] == '//' and bare(t.a[1]) is bare(ev.deref(found['idx_vertices'])) and bare(t.a[2]) is bare(ev.deref(found['n_verts']))
        (chk.ok if good else chk.bad)(RULE, c, 'vertex number // vertices per station' if good else show(t, 4)[:120], fn.loc)
    else:
        chk.unknown(RULE, c, show(t, 4)[:120] if t is not None else 'not recognised', fn.loc)


def run(chk):
    chk.explanation = ('value numbering of every routine that makes a table, a file or a figure; each labelled column, axis, hover text or trace name is paired with the term shown under it, '
                       'reduced to a survey attribute with its angle unit (through the rows and control points it is passed by) and compared with what the label promises')
    for f in (table, export, figures, loads, pointer):
        chk.group(f)
