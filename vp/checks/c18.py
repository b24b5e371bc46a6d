"""C18 A well plan written to a .wbp file reads back field for field.

The document the exporter makes is derived as a layout (literal characters and formatted fields: value, column, width,
decimals) and the importer's string operations are applied to that layout, so each attribute read back is traced to the
attribute it was written from.  Codes are taken through the tables of wbp.yaml one by one."""
import yaml
from .common import *
from ..aeval import Evaluator, Rejected, Budget
from ..formula import spec_func
from .. import text

MOD = 'exchange.wbp'
TP = ('md', 'inc', 'azi', 'build_rate', 'turn_rate', 'dls', 'toolface', 'method', 'target')
SP = ('md', 'inc', 'azi', 'cov_xx', 'cov_xy', 'cov_xz', 'cov_yy', 'cov_yz', 'cov_zz', 'x_bias', 'y_bias', 'z_bias', 'tool')
DEC = {'md': 2, 'x_bias': 2, 'y_bias': 2, 'z_bias': 2, 'x': 2, 'y': 2, 'z': 2, 'dls header': 2, 'extension': 5}
DEC.update({k: 1 for k in SP if k.startswith('cov')})
DEC.update({k: 3 for k in ('inc', 'azi', 'build_rate', 'turn_rate', 'dls')})
DEC['toolface'] = 2
ROOM = {'x': 12, 'y': 12, 'z': 10, 'plan_name': 60, 'parent_name': 60, 'sidetrack_id': 7, 'dls': 6, 'extension': 7}    # columns a value needs where only its column ends it


def table(chk):
    import os
    from ..loader import REPO
    with open(os.path.join(REPO, 'welleng', 'exchange', 'wbp.yaml')) as f:
        return yaml.safe_load(f)


def term(v):
    if isinstance(v, dict):
        return mk('dict', *[mk('kv', const(k), term(x)) for k, x in v.items()])
    if isinstance(v, list):
        return mk('list', *[term(x) for x in v])
    return const(v)


class Trip:
    """one export and one import, with every value a symbol"""

    def __init__(self, chk, d, **opt):
        self.chk, self.opt = chk, opt
        self.ev = ev = Evaluator(chk.prog, unroll=200)
        ev.text = True
        ev.extmodel['yaml.load'] = ev.extmodel['yaml.safe_load'] = lambda e, args, kws, node: term(d)
        for c in opt.get('assume', ()):
            ev.guards.append(c)
        self.plans, self.failed, self.got, self.doc = [], None, [], None
        cls = chk.need(MOD + '.WellPlan')
        plans = [self.plan(ev, cls, d, i) for i in range(opt.get('plans', 1))]
        try:
            doc = ev.root(spec_func(chk.prog, 'plans.written'), params={'export': ev.wrap(chk.need(MOD + '.export')), 'plans': ev.newobj('list', mk('list', *plans))})
            k = ev.known_elems(ev.deref(doc))
            if k is None:
                self.failed = 'the lines written could not be derived'
                return
            self.doc = k
            doc = ev.newobj('list', mk('list', *k))
            w = ev.wrap(cls)
            prev = None
            for i in range(len(plans)):
                p = {'WellPlan': w, 'doc': doc}
                if prev is not None:
                    p['first'] = prev
                prev = ev.root(spec_func(chk.prog, 'plans.read' if i == 0 else 'plans.read_next'), params=p)
                self.got.append(prev)
        except Rejected as e:
            self.failed = 'rejected: ' + str(e)
        except Budget:
            self.failed = 'evaluation budget exhausted'

    def num(self, ev, name):
        s = sym(name)
        ev.given.add(s)
        return s

    def word(self, ev, name):
        s = sym(name)
        ev.words.add(s)
        return s

    def txt(self, ev, name):
        s = sym(name)
        ev.texts.add(s)
        return s

    def obj(self, ev, cls, attrs):
        o = ev.newobj('inst', cls=cls, node=None)
        for k, v in attrs.items():
            ev.heap[(o, k)] = v
        return o

    def loc(self, ev, pre):
        return mk('list', *[self.num(ev, f'{pre}.{a}') for a in 'xyz'])

    def step(self, ev, kind, pre):
        opt = self.opt
        if kind == 'S':
            a = {k: self.num(ev, f'{pre}.{k}') for k in SP}
            a['tool'] = self.txt(ev, f'{pre}.tool')
            a['location'] = self.loc(ev, pre)
            return a, self.chk.need(MOD + '.SurveyPoint')
        a = {k: self.num(ev, f'{pre}.{k}') for k in TP}
        a['method'] = self.word(ev, f'{pre}.method')
        a['target'] = self.txt(ev, f'{pre}.target') if kind == 'T' else NONE
        a['tie_on'] = TRUE if kind == 'tie' else FALSE
        a['location'] = self.loc(ev, pre)
        return a, self.chk.need('survey.TurnPoint')

    def plan(self, ev, cls, d, i):
        opt = self.opt
        pre = f'plan{i}'
        steps = []
        for j, k in enumerate(opt.get('steps', ('tie', 'P', 'T', 'S', 'P'))):
            a, c = self.step(ev, k, f'{pre}.step{j}')
            steps.append((k, a, self.obj(ev, c, a)))
        targets = []
        for j in range(opt.get('targets', 2)):
            colour = self.num(ev, f'{pre}.target{j}.color') if j % 2 == 0 else NONE
            g = mk('dict', *[mk('kv', const(k), ev.newobj('dict', mk('dict', mk('kv', const('color'), colour))) if k == 'color' else NONE) for k in ('type', 'locked', 'offset', 'orientation', 'color')])
            a = {'name': self.txt(ev, f'{pre}.target{j}.name'), 'location': self.loc(ev, f'{pre}.target{j}'), 'geometry': ev.newobj('dict', g)}
            targets.append((colour, a, self.obj(ev, chk_need(self.chk, MOD + '.Target'), a)))
        unit = opt.get('unit', ('meters', 'meters'))
        a = {'wbp_dict': term(d), 'parent_data': NONE, 'depth_unit': const(unit[0]), 'surface_unit': const(unit[1]),
             'location_type': const(opt.get('location_type', 'surface')), 'plan_method': const(opt.get('plan_method', 'curve_hold')), 'dirty_flag': const(opt.get('dirty_flag', 'locked_plan')),
             'plan_name': self.txt(ev, f'{pre}.plan_name'), 'parent_name': self.txt(ev, f'{pre}.parent_name') if opt.get('parent', True) else NONE,
             'sidetrack_id': self.word(ev, f'{pre}.sidetrack_id') if opt.get('sidetrack', True) else NONE,
             'dls': self.num(ev, f'{pre}.dls'), 'extension': self.num(ev, f'{pre}.extension'),
             'steps': ev.newobj('list', mk('list', *[s[2] for s in steps])), 'targets': ev.newobj('list', mk('list', *[t[2] for t in targets]))}
        self.plans.append((a, steps, targets))
        return self.obj(ev, cls, a)


def chk_need(chk, q):
    return chk.need(q)


UNDERSTOOD = {'quant', 'sym', 'const', 'word', 'words', 'cut', 'fmt', 'fstr', 'firstword', 'rest', 'list', 'star', 'tuple'}


def compare(chk, rule, construct, code, want, decimals, loc, ev=None):
    code = ev.deref(code) if code is not None and ev else code
    if code is None:
        chk.bad(rule, construct, 'it is not read back', loc)
        return
    base, prec = code, None
    if code.op == 'quant':
        base, prec = code.a
    if base is want:
        if prec is not None and decimals is not None and prec < decimals:
            chk.bad(rule, construct, f'it is written with {prec} decimals, {decimals} are needed', loc)
        else:
            chk.ok(rule, construct)
        return
    if base is UNDEF:
        chk.bad(rule, construct, 'reading it back fails', loc)
        return
    ops = {x.op for x in subterms(code)}
    if code.op in ('fmt', 'fstr') or ops <= UNDERSTOOD or ops & {'cut', 'word', 'firstword', 'rest'} and all(x.op in UNDERSTOOD | {'ite', 'cmp', 'args', 'kws', 'not', 'slice'} or x.op == 'mcall' and x.a[1] == 'strip' or x.op == 'call' and x.a[0] in ('len', 'float', 'int') for x in subterms(code)):
        chk.bad(rule, construct, f'it reads back as {show(code, 6)[:160]} instead of {show(want)}', loc)
    else:
        chk.unknown(rule, construct, f'read back as {show(code, 4)[:160]}', loc)


def names(t):
    return {x.a[0] for x in subterms(t) if x.op == 'sym'}


def same_steps(chk, rule, tag, trip, n, fields, loc):
    ev = trip.ev
    a, steps, targets = trip.plans[n]
    g = trip.got[n]
    got = ev.heap.get((g, 'steps'))
    k = ev.known_elems(ev.content(got)) if got is not None else None
    if k is None:
        chk.unknown(rule, f'{tag}: steps', 'the steps read back could not be derived', loc)
        return
    if len(k) != len(steps):
        chk.bad(rule, f'{tag}: steps', f'{len(steps)} steps are written and {len(k)} are read back', loc)
        return
    chk.ok(rule, f'{tag}: steps')
    for j, ((kind, at, src), o) in enumerate(zip(steps, k)):
        nm = {'tie': 'tie-on point', 'P': 'turn point', 'T': 'turn point with a target', 'S': 'survey point'}[kind]
        c = f'{tag}: step {j} ({nm})'
        i = ev.info.get(o)
        want = 'SurveyPoint' if kind == 'S' else 'TurnPoint'
        if i is None or i.cls is None:
            chk.unknown(rule, c, 'the step read back is not an object', loc)
            continue
        if i.cls.name != want:
            chk.bad(rule, c, f'it reads back as {i.cls.name}', loc)
            continue
        for f in SP if kind == 'S' else TP:
            if kind == 'tie' and f in ('method', 'target'):
                continue
            compare(chk, rule, f'{c}: {f}', ev.heap.get((o, f)), at[f], DEC.get(f), loc, ev)
        if kind != 'S':
            t = ev.heap.get((o, 'tie_on'))
            t = ev.deref(t) if t is not None else None
            if t in (TRUE, FALSE):
                (chk.ok if (t is TRUE) == (kind == 'tie') else lambda r, c: chk.bad(r, c, 'the tie-on flag is not the one written', loc))(rule, f'{c}: tie_on')
            else:
                chk.unknown(rule, f'{c}: tie_on', '', loc)
        location(chk, rule, c, ev, ev.heap.get((o, 'location')), at['location'], loc)


def location(chk, rule, c, ev, got, want, loc):
    k = ev.known_elems(ev.deref(got)) if got is not None else None
    if k is None or len(k) != 3:
        (chk.unknown if got is not None and k is None else chk.bad)(rule, f'{c}: location', 'the location read back is not three coordinates', loc)
        return
    for a, x, y in zip('xyz', k, want.a):
        compare(chk, rule, f'{c}: location {a}', x, y, 2, loc, ev)


def codes(chk, rule, tag, trip, n, fields, loc):
    ev = trip.ev
    a = trip.plans[n][0]
    g = trip.got[n]
    for f in fields:
        compare(chk, rule, f'{tag}: {f}', ev.heap.get((g, f)), a[f], {'dls': 2, 'extension': 5}.get(f), loc, ev)


def whole(chk, d):
    fn = chk.need(MOD + '.WellPlan')
    loc = f'{fn.module.rel}:{fn.node.lineno}'
    header = ('plan_name', 'parent_name', 'sidetrack_id', 'dls', 'extension', 'location_type', 'plan_method', 'dirty_flag', 'depth_unit', 'surface_unit')

    shapes = [('turn points', dict(steps=('tie', 'P', 'T', 'P'))),
              ('survey points', dict(steps=('S', 'S', 'S'), targets=0)),
              ('mixed steps', dict(steps=('tie', 'S', 'T', 'S', 'P'))),
              ('no parent and no sidetrack', dict(steps=('tie', 'P'), parent=False, sidetrack=False, targets=1)),
              ('two plans', dict(steps=('tie', 'T', 'S'), plans=2))]
    trips = []
    for tag, opt in shapes:
        t = Trip(chk, d, **opt)
        # where the text depends on a comparison of the values, both outcomes are taken
        conds = {}
        for ln in t.doc or ():
            for x in subterms(t.ev.deref(ln)):
                if x.op == 'ite':
                    conds[x.a[0]] = 1
        if conds:
            for pol in (False, True):
                trips.append((tag if not pol else tag + ', conditions met', opt, Trip(chk, d, assume=[(c, pol) for c in conds], **opt)))
        else:
            trips.append((tag, opt, t))
    for tag, opt, t in trips:
        chk.count('round trips')
        if t.failed or len(t.got) != len(t.plans):
            bad = next((e for e in t.ev.events if e.kind in ('call', 'new') and e.d.get('bad')), None)
            if bad is not None:
                chk.bad('round trip', tag, f"the call of {bad.d.get('callee') or bad.d.get('cls')} cannot be made: {bad.d['bad']}", bad.loc)
            else:
                chk.unknown('round trip', tag, t.failed or 'not derived', loc)
            continue
        chk.count('lines derived', len(t.doc))
        room(chk, tag, t, loc)
        heads = [i for i, ln in enumerate(t.doc) if (lambda ps: ps and isinstance(ps[0], str) and ps[0].startswith('W:'))(text.pieces(t.ev.deref(ln)))]
        for n, g in enumerate(t.got):
            at = t.ev.heap.get((g, 'lines'))
            at = t.ev.deref(at) if at is not None else None
            want = (heads + [len(t.doc)])[n + 1] if len(heads) == len(t.plans) else None
            c = f'{tag}: end of plan {n + 1}'
            if at is None or not is_const(at) or want is None:
                chk.unknown('reading on', c, 'not derived', loc)
            elif cval(at) != want:
                chk.bad('reading on', c, f'the reader stops at line {cval(at)}, the plan ends at line {want} of the {len(t.doc)} written', loc)
            else:
                chk.ok('reading on', c)
        for n in range(len(t.plans)):
            nm = tag if len(t.plans) == 1 else f'{tag}, number {n + 1}'
            same_steps(chk, 'steps', nm, t, n, None, loc)
            hs = [h for h in header if not (n and h.endswith('_unit'))]
            if not opt.get('sidetrack', True):
                hs.remove('sidetrack_id')
                v = t.ev.heap.get((t.got[n], 'sidetrack_id'))
                v = t.ev.deref(v) if v is not None else None
                if v is NONE or v is const(''):
                    chk.ok('header', f'{nm}: sidetrack_id')
                else:
                    (chk.unknown if v is not None and not {x.op for x in subterms(v)} <= UNDERSTOOD else chk.bad)('header', f'{nm}: sidetrack_id', f'an absent id reads back as {show(v, 4)[:120] if v is not None else None}', loc)
            codes(chk, 'header', nm, t, n, hs, loc)
        got = t.ev.heap.get((t.got[0], 'targets'))
        k = t.ev.known_elems(t.ev.content(got)) if got is not None else None
        tg = t.plans[0][2]
        if k is None:
            chk.unknown('targets', tag, 'not derived', loc)
        elif len(k) != len(tg):
            chk.bad('targets', tag, f'{len(tg)} targets are written and {len(k)} are read back', loc)
        else:
            for j, ((colour, at, src), o) in enumerate(zip(tg, k)):
                c = f'{tag}: target {j}'
                compare(chk, 'targets', f'{c}: name', t.ev.heap.get((o, 'name')), at['name'], None, loc, t.ev)
                location(chk, 'targets', c, t.ev, t.ev.heap.get((o, 'location')), at['location'], loc)
                g = t.ev.heap.get((o, 'geometry'))
                g = t.ev.content(g) if g is not None else None
                if g is not None and g.op == 'obj':
                    g = t.ev.content(g)
                col = None
                if g is not None and g.op == 'dict':
                    for kv in g.a:
                        if kv.op == 'kv' and kv.a[0] is const('color'):
                            x = t.ev.deref(kv.a[1])
                            for y in (x.a if x.op == 'dict' else ()):
                                if y.op == 'kv' and y.a[0] is const('color'):
                                    col = y.a[1]
                if col is None:
                    chk.unknown('targets', f'{c}: color', 'not derived', loc)
                else:
                    compare(chk, 'targets', f'{c}: color', col, colour, None, loc, t.ev)


def room(chk, tag, trip, loc):
    """a value that no blank separates from its neighbour needs a column wide enough for it"""
    for ln in trip.doc:
        ps = text.pieces(trip.ev.deref(ln))
        if ps is None:
            continue
        head = ps[0] if isinstance(ps[0], str) else ''
        for i, p in enumerate(ps):
            if not isinstance(p, text.Field) or p.term.op != 'sym':
                continue
            name = p.term.a[0].rsplit('.', 1)[-1]
            if name not in ROOM:
                continue
            left = ps[i - 1] if i else ''
            right = ps[i + 1] if i + 1 < len(ps) else ' '
            free = isinstance(left, str) and left[-1:] in (' ', ':') and isinstance(right, str) and right[:1] == ' '
            if head.startswith('L') and isinstance(left, str) and left[-1:] in (' ', ':') or head[:1] not in ('L', 'W') and free:
                continue
            n = p.width or 0
            c = f'{tag}: {p.term.a[0]}'
            if n < ROOM[name]:
                chk.bad('columns', c, f'its column of {n} characters is too narrow (a value needs {ROOM[name]})', loc)
            else:
                chk.ok('columns', c)


def tables(chk, d):
    fn = chk.need(MOD + '.WellPlan')
    loc = f'{fn.module.rel}:{fn.node.lineno}'
    opts = [('location_type', x, dict(location_type=x)) for x in d['LOCATION']['type'].values()]
    opts += [('plan_method', x, dict(plan_method=x)) for x in d['LOCATION']['plan_method'].values()]
    opts += [('dirty_flag', x, dict(dirty_flag=x)) for x in d['LOCATION']['dirty_flag'].values()]
    opts += [('unit', f"{x['depth']} and {x['surface']}", dict(unit=(x['depth'], x['surface']))) for x in d['DEPTH'].values()]
    for f, x, o in opts:
        t = Trip(chk, d, steps=('S',), targets=0, **o)
        chk.count('codes')
        if t.failed or not t.got:
            chk.unknown('codes', f'{f} {x}', t.failed or 'not derived', loc)
            continue
        codes(chk, 'codes', f'{f} {x}', t, 0, ('depth_unit', 'surface_unit') if f == 'unit' else (f,), loc)
    for tab, where in ((d['LOCATION']['type'], 'type'), (d['LOCATION']['plan_method'], 'plan_method'), (d['LOCATION']['dirty_flag'], 'dirty_flag')):
        if len(set(tab.values())) != len(tab):
            chk.bad('codes', f'table {where}', 'two codes have the same meaning', 'welleng/exchange/wbp.yaml')
        elif any(not isinstance(k, str) or len(k) != 1 for k in tab):
            chk.bad('codes', f'table {where}', 'a code is not one character', 'welleng/exchange/wbp.yaml')
        else:
            chk.ok('codes', f'table {where}')


def run(chk):
    chk.explanation = ('The lines the .wbp exporter writes are derived from the source as layouts (literal characters and formatted fields, each with its value, columns and decimals) for plans of turn points, survey points, targets and headers with symbolic values; the importer is then evaluated over those layouts, '
                       'its slices, splits and conversions included, and every attribute it sets is required to be the value it was written from. Every code of the tables in wbp.yaml is taken through the same trip.')
    chk.assumptions += ['every number fits its column and names are free of colons, of leading, trailing and repeated blanks and fit their columns; a method code is one word']
    d = table(chk)
    chk.group(whole, d)
    chk.group(tables, d)


MINIMUM = 15
