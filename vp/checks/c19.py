"""C19 EDM queries return exactly the matching records.

The queries compare record values only for equality (and depths for order), so a history is evaluated with symbolic
values under each pattern of equalities; the selection that results then holds for all values of that pattern."""
from .common import *
from ..aeval import Evaluator, Rejected, Undecided, Budget
from ..formula import spec_func
import itertools

MOD = 'exchange.edm'


class World:
    def __init__(self, chk, ranks=()):
        self.chk = chk
        self.rank = {sym(k): float(v) for k, v in dict(ranks).items()}
        self.ev = Evaluator(chk.prog, rank=self.rank or {sym('unused'): 0.}, unroll=200, recursion=8)
        self.ev.strict = True
        self.label, self.rejected, self.why = {}, None, ''

    def v(self, name, rank=None):
        s = sym(name)
        self.rank[s] = float(len(self.rank) + 100) if rank is None else float(rank)
        self.ev.rank[s] = self.rank[s]
        self.ev.extclass[s] = ('str',)
        return s

    def depth(self, name, z):
        """a depth in a record is text: ordered as a number only once converted"""
        s = self.v(name, -z)
        self.rank[mkcall('float', [s])] = self.ev.rank[mkcall('float', [s])] = float(z)
        return s

    def dict(self, d, label=None):
        if label is not None:
            d = {**d, 'record': self.v('record ' + label)}
        o = self.ev.newobj('dict', mk('dict', *[mk('kv', const(k), x) for k, x in d.items()]))
        if label is not None:
            self.label[self.ev.content(o)] = label
        return o

    def list(self, xs):
        return self.ev.newobj('list', mk('list', *xs))

    def child(self, tag, d, label):
        o = self.ev.newobj('inst', cls=None, node=None)
        self.ev.heap[(o, 'tag')] = const(tag)
        self.ev.heap[(o, 'attrib')] = self.dict(d, label)
        return o

    def edm(self, children):
        o = self.ev.newobj('inst', cls=self.chk.need(MOD + '.EDM'), node=None)
        self.ev.heap[(o, 'root')] = self.list(children)
        return o

    def well(self, data):
        o = self.ev.newobj('inst', cls=self.chk.need(MOD + '.Well'), node=None)
        self.ev.heap[(o, 'well_data')] = self.dict({k: self.list(v) for k, v in data.items()})
        return o

    def run(self, spec, **params):
        self.chk.count('histories')
        try:
            return self.ev.root(spec_func(self.chk.prog, 'edm.' + spec), params=params)
        except Rejected as e:
            self.rejected = str(e)
            return None
        except (Budget, Undecided) as e:
            self.rejected, self.why = None, str(e)
            return None

    # -------- results as python values (record labels, names), None when not derived
    def plain(self, t, depth=0):
        ev = self.ev
        if t is None or depth > 12:
            raise Unread()
        if ev.content(t) in self.label:
            return self.label[ev.content(t)]
        if t.op == 'obj' and ev.info[t].kind != 'inst':
            return self.plain(ev.content(t), depth + 1)
        if t.op == 'ite':
            s = ev.simp(t)
            if s.op == 'ite':
                raise Unread()
            return self.plain(s, depth + 1)
        if t.op in ('list', 'tuple', 'set'):
            return [self.plain(x, depth + 1) for x in t.a]
        if t.op == 'dict':
            return {self.plain(x.a[0], depth + 1): self.plain(x.a[1], depth + 1) for x in t.a}
        if is_const(t):
            return cval(t)
        if t.op == 'sym':
            return '$' + t.a[0]
        if t.op == 'call' and t.a[0] == 'float':
            return self.plain(t.a[1].a[0], depth + 1)
        if t.op == 'call' and t.a[0] in ('numpy.vstack', 'numpy.array', 'numpy.asarray', 'numpy.reshape', 'numpy.stack', 'list', 'tuple'):
            return self.plain(t.a[1].a[0], depth + 1)
        raise Unread(show(t, 3))


REJECTED = object()


class Unread(Exception):
    pass


def check(chk, rule, construct, w, t, want, loc, order=True):
    if t is None:
        e = next((e for e in w.ev.events if e.kind in ('call', 'new') and e.d.get('bad')), None)
        if e is not None:
            chk.bad(rule, construct, f"a call cannot be made: {e.d['bad']}", e.loc)
        elif w.rejected is not None and want is not REJECTED:
            chk.bad(rule, construct, f'the query fails ({w.rejected})', loc)
        else:
            chk.unknown(rule, construct, f'not derived: {w.why}', loc)
        return
    try:
        got = w.plain(t)
    except Unread as e:
        chk.unknown(rule, construct, f'not derived: {e}', loc)
        return

    def norm(x):
        if isinstance(x, dict):
            return {k: norm(v) for k, v in x.items()}
        if isinstance(x, list):
            return [norm(y) for y in x] if order else sorted((norm(y) for y in x), key=str)
        return x
    if norm(got) == norm(want):
        chk.ok(rule, construct)
    else:
        chk.bad(rule, construct, f'it gives {str(got)[:160]}, expected {str(want)[:160]}', loc)


def loc_of(chk, q):
    f = chk.need(q)
    return f'{f.module.rel}:{f.node.lineno}'


def queries(chk):
    loc = loc_of(chk, MOD + '.EDM.get_attributes')
    STATES = ('match', 'differ', 'missing')

    def world(n, listed=False):
        w = World(chk)
        keys = ['a', 'b', 'c'][:n]
        wanted = {k: w.v(f'want_{k}') for k in keys}
        second = {k: w.v(f'also_{k}') for k in keys} if listed else {}
        kids, recs = [], []
        states = STATES + (('second',) if listed else ())
        for i, st in enumerate(itertools.product(states, repeat=n)):
            d = {'id': w.v(f'id{i}')}
            for k, s in zip(keys, st):
                if s == 'match':
                    d[k] = w.v(f'{k}{i}', w.rank[wanted[k]])
                elif s == 'second':
                    d[k] = w.v(f'{k}{i}', w.rank[second[k]])
                elif s == 'differ':
                    d[k] = w.v(f'{k}{i}')
            kids.append(w.child('T', d, f'T:{"/".join(st)}'))
            recs.append(('T', st))
            if i < 2:
                d = {**d, 'id': w.v(f'uid{i}')}
                kids.append(w.child('U', d, f'U:{"/".join(st)}'))
                recs.append(('U', st))
        attrs = w.dict({k: w.list([wanted[k], second[k]]) if listed else wanted[k] for k in keys})
        return w, kids, recs, attrs

    def expect(recs, tags, logic):
        out = {}
        for t, st in recs:
            hit = [s in ('match', 'second') for s in st]
            if t in tags and (not st or (all(hit) if logic == 'AND' else any(hit))):
                out.setdefault(t, []).append(f'{t}:{"/".join(st)}')
        return out
    for n, listed in ((0, False), (1, False), (2, False), (3, False), (1, True), (2, True)):
        for logic in ('AND', 'OR', None):
            for tagname, tags in (('one tag', 'T'), ('a list of tags', ['T', 'U']), ('all tags', None)):
                w, kids, recs, attrs = world(n, listed)
                kw = {'attributes': attrs} if n else {}
                if logic:
                    kw['logic'] = const(logic)
                if tags is not None:
                    kw['tags'] = const(tags) if isinstance(tags, str) else w.list([const(x) for x in tags])
                t = w.run('query', edm=w.edm(kids), kw=w.dict(kw))
                want = expect(recs, tags if isinstance(tags, list) else ['T', 'U'] if tags is None else [tags], logic or 'AND')
                check(chk, 'records selected', f'{n} attributes{", lists of values" if listed else ""}, {logic or "default logic"}, {tagname}', w, t, want, loc)
    w, kids, recs, attrs = world(2)
    t = w.run('query_twice', edm=w.edm(kids), kw=w.dict({'tags': const('T'), 'attributes': attrs, 'logic': const('OR')}), kw2=w.dict({'tags': const('T'), 'attributes': attrs}))
    check(chk, 'records selected', 'after an earlier query', w, t, expect(recs, ['T'], 'AND'), loc)


def family(chk, **kw):
    """wellbores w0 <- w1 <- w2 of well one, w3 without parent of well two, with records of their own"""
    w = World(chk)
    ids = [w.v(f'w{i}') for i in range(4)]
    well = [w.v('well_one'), w.v('well_two')]
    of = [0, 0, 0, 1]
    parent = {1: 0, 2: 1}
    kids = []
    for i in range(4):
        d = {'wellbore_id': ids[i], 'well_id': well[of[i]], 'wellbore_name': w.v(f'name{i}') if i not in (0, 3) else w.v('shared name', 7)}
        if i in parent:
            d['parent_wellbore_id'] = ids[parent[i]]
        kids.append(w.child('CD_WELLBORE', d, f'bore{i}'))
        kids.append(w.child('CD_SURVEY_HEADER', {'wellbore_id': ids[i], 'well_id': well[of[i]], 'survey_header_id': w.v(f'sh{i}')}, f'header{i}'))
        kids.append(w.child('CD_SURVEY_STATION', {'wellbore_id': ids[i], 'well_id': well[of[i]], 'survey_header_id': w.v(f'sh{i}')}, f'station{i}'))
        kids.append(w.child('CD_CASE', {'wellbore_id': ids[i], 'case_id': w.v(f'case{i}'), 'case_name': w.v(f'casename{i}')}, f'case{i}'))
    for j in (0, 1):
        kids.append(w.child('CD_WELL', {'well_id': well[j]}, f'well{j}'))
        kids.append(w.child('CD_DATUM', {'well_id': well[j], 'datum_id': w.v(f'datum{j}')}, f'datum{j}'))
    return w, ids, kids


def bores(chk):
    loc = loc_of(chk, MOD + '.EDM.get_parents')
    up = {0: [], 1: [0], 2: [1, 0], 3: []}
    for seq in ((2,), (1,), (0,), (3,), (2, 3), (2, 2), (1, 2, 0), (3, 2, 1, 0)):
        w, ids, kids = family(chk)
        t = w.run('parents', edm=w.edm(kids), ids=w.list([ids[i] for i in seq]))
        check(chk, 'ancestors', 'of wellbores ' + ', '.join(map(str, seq)), w, t, [[f'$w{j}' for j in up[i]] for i in seq], loc)
    loc = loc_of(chk, MOD + '.EDM.get_wellbore_data')
    for seq in ((0,), (1,), (2,), (3,), (2, 3), (3, 3)):
        w, ids, kids = family(chk)
        t = w.run('data', edm=w.edm(kids), ids=w.list([ids[i] for i in seq]))
        want = []
        for i in seq:
            chain = [i] + sorted(up[i])
            want.append({'CD_WELLBORE': [f'bore{i}'], 'CD_CASE': [f'case{i}'], 'CD_WELL': [f'well{i // 3}'], 'CD_DATUM': [f'datum{i // 3}'],
                         'CD_SURVEY_HEADER': [f'header{j}' for j in chain], 'CD_SURVEY_STATION': [f'station{j}' for j in chain]})
        check(chk, 'records of a wellbore', 'wellbores ' + ', '.join(map(str, seq)), w, t, want, loc, order=False)
    for i in (1, 2):
        for how, spec, key in (('its identifier', 'bore', ids[i]), ('its name', 'bore_of_name', None)):
            w, ids, kids = family(chk)
            t = w.run(spec, edm=w.edm(kids), i=ids[i] if key is not None else w.v(f'name{i}'))
            chain = [i] + sorted(up[i])
            check(chk, 'wellbore asked for', f'wellbore {i} by {how}', w, t, [f'$w{i}', f'$name{i}', {
                'CD_WELLBORE': [f'bore{i}'], 'CD_CASE': [f'case{i}'], 'CD_WELL': [f'well{i // 3}'], 'CD_DATUM': [f'datum{i // 3}'],
                'CD_SURVEY_HEADER': [f'header{j}' for j in chain], 'CD_SURVEY_STATION': [f'station{j}' for j in chain]}], loc_of(chk, MOD + '.EDM.get_wellbore'))
    w, ids, kids = family(chk)
    check(chk, 'lookups', 'names by wellbore id', w, w.run('names', edm=w.edm(kids), ids=w.list([])), {'$w0': '$shared name', '$w1': '$name1', '$w2': '$name2', '$w3': '$shared name'}, loc_of(chk, MOD + '.EDM'), order=False)
    w, ids, kids = family(chk)
    check(chk, 'lookups', 'wells by wellbore id', w, w.run('wells', edm=w.edm(kids)), {'$w0': '$well_one', '$w1': '$well_one', '$w2': '$well_one', '$w3': '$well_two'}, loc_of(chk, MOD + '.EDM'))
    for i in range(4):
        w, ids, kids = family(chk)
        check(chk, 'lookups', f'case name {i}', w, w.run('case_name', edm=w.edm(kids), i=sym(f'case{i}')), f'$casename{i}', loc_of(chk, MOD + '.EDM'))


def surveys(chk):
    loc = loc_of(chk, MOD + '.Well.get_parent_surveys')

    def world():
        w = World(chk)
        sh = [w.v(f's{i}') for i in range(4)]
        d = [None, w.depth('d1', 500), w.depth('d2', 900), None]
        m = [w.depth(f'm{i}', z) for i, z in enumerate((1000, 1500, 2000, 800))]
        heads = []
        for i in range(4):
            x = {'survey_header_id': sh[i], 'md_max': m[i], 'wellbore_id': w.v(f'bore{i}')}
            if d[i] is not None:
                x['tie_survey_header_id'] = sh[i - 1]
                x['tie_on_depth'] = d[i]
            heads.append(w.dict(x, f'header{i}'))
        stations, at = [], []
        for i, depths in enumerate(((0, 300, 600, 1000), (500, 700, 900, 1200, 1500), (950, 2000, 1400), (0, 400, 800))):
            for z in depths:
                stations.append(w.dict({'survey_header_id': sh[i], 'md': w.depth(f'md{i}_{z}', z)}, f'st{i}_{z}'))
                at.append((i, z))
        return w, sh, d, m, heads, stations, at
    for seq in ((2,), (1,), (2, 3), (3,), (2, 1), (1, 2)):
        w, sh, d, m, heads, stations, at = world()
        up = {0: {}, 1: {'$s1': '$d1'}, 2: {'$s2': '$d2', '$s1': '$d1'}, 3: {}}
        t = w.run('tied', well=w.well({'CD_SURVEY_HEADER': heads, 'CD_SURVEY_STATION': stations}), ids=w.list([sh[i] for i in seq]))
        check(chk, 'ancestor surveys', 'of surveys ' + ', '.join(map(str, seq)), w, t, [up[i] for i in seq], loc)
    loc = loc_of(chk, MOD + '.Well')
    for own in ((2,), (1,), (1, 2)):
        w, sh, d, m, heads, stations, at = world()
        case = w.ev.newobj('inst', cls=None, node=None)
        w.ev.heap[(case, 'survey_header')] = w.list([heads[i] for i in own])
        t = w.run('surveys', well=w.well({'CD_SURVEY_HEADER': heads, 'CD_SURVEY_STATION': stations}), case=case)
        full = {}
        for i in own:
            lim = [(i, {1: 500, 2: 900}[i], {1: 1500, 2: 2000}[i])] + ([(1, 500, 900)] if i == 2 else [])
            sel = sorted([(z, f'st{k}_{z}') for k, z in at for (j, lo, hi) in lim if k == j and lo <= z <= hi])
            full[f'$s{i}'] = [x for _, x in sel]
        own_st = {f'$s{i}': [f'st{k}_{z}' for k, z in at if k == i] for i in own}
        check(chk, 'stations of a case', 'surveys ' + ', '.join(map(str, own)), w, t, [full, own_st], loc)


def rows(chk):
    loc = loc_of(chk, MOD + '.Well')

    def world():
        w = World(chk)
        f = [w.v('f0'), w.v('f1')]
        g = [w.v('g0'), w.v('g1')]
        data = {'CD_FLUID': [w.dict({'fluid_id': f[i % 2], 'mixed_with': f[1 - i % 2]}, f'fluid{i}') for i in range(4)],
                'CD_ASSEMBLY_COMP': [w.dict({'assembly_id': f[i % 2], 'n': w.v(f'c{i}')}, f'comp{i}') for i in range(3)],
                'CD_HOLE_SECT': [w.dict({'hole_sect_group_id': g[i], 'size': w.v(f'size{i}')}) for i in range(2)],
                'CD_OTHER': [w.dict({'hole_sect_group_id': g[1], 'x': w.v('x')}), w.dict({'y': w.v('y')})]}
        return w, f, g, data
    for kw, want in (({}, ['fluid0', 'fluid2']),):
        w, f, g, data = world()
        check(chk, 'rows of a table', 'by id', w, w.run('rows', well=w.well(data), i=f[0], label=const('fluid'), kw=w.dict(kw)), want, loc)
        w, f, g, data = world()
        check(chk, 'rows of a table', 'of another table', w, w.run('rows', well=w.well(data), i=f[1], label=const('assembly'), kw=w.dict({'tag_label': const('assembly_comp')})), ['comp1'], loc)
        w, f, g, data = world()
        check(chk, 'rows of a table', 'by group id', w, w.run('rows', well=w.well({**data, 'CD_HOLE_SECT': [w.dict({'hole_sect_group_id': g[i], 'n': w.v(f'h{j}')}, f'sect{j}') for j, i in enumerate((0, 1, 0))]}), i=g[0], label=const('hole_sect'), kw=w.dict({'suffix': const('group_id')})), ['sect0', 'sect2'], loc)
        w, f, g, data = world()
        check(chk, 'rows of a table', 'no such id', w, w.run('rows', well=w.well(data), i=w.v('nobody'), label=const('fluid'), kw=w.dict({})), None, loc)
    w, f, g, data = world()
    t = w.run('section_data', well=w.well(data), hs=w.list([g[1]]))
    check(chk, 'hole sections', 'data of one section', w, t, {'$g1': {'CD_HOLE_SECT': {'hole_sect_group_id': '$g1', 'size': '$size1'}, 'CD_OTHER': {'hole_sect_group_id': '$g1', 'x': '$x'}}}, loc)


def pressures(chk):
    loc = loc_of(chk, MOD + '.Well.get_ppfpt_data')
    tables = (('CD_PORE_PRESSURE', 'pore_pressure_group_id', 'pore_pressure', 'pore_pressure'), ('CD_FRAC_GRADIENT', 'frac_gradient_group_id', 'frac_gradient_pressure', 'fracture_pressure'),
              ('CD_TEMP_GRADIENT', 'temp_gradient_group_id', 'temperature', 'temperature'))
    for absent in (None, 0, 1, 2):
        w = World(chk)
        data, want = {}, {}
        for j, (tab, key, val, out) in enumerate(tables):
            if j == absent:
                want[out] = None
                continue
            g = [w.v(f'{out}_g{i}') for i in range(2)]
            rows, exp = [], {f'${out}_g{i}': [] for i in range(2)}
            for i, z in enumerate((900, 100, 1000, 500, 200)):
                rows.append(w.dict({key: g[i % 2], 'tvd': w.depth(f'{out}_tvd{z}', z), val: w.v(f'{out}_value{z}')}))
                exp[f'${out}_g{i % 2}'].append((z, [f'${out}_tvd{z}', f'${out}_value{z}']))
            data[tab] = rows
            want[out] = {k: [x for _, x in sorted(v)] for k, v in exp.items()}
        t = w.run('pressures', well=w.well(data))
        check(chk, 'pressure and temperature', 'all tables' if absent is None else f'without {tables[absent][0]}', w, t, want, loc)


def run(chk):
    chk.explanation = ('Histories of queries are evaluated on record trees whose values are symbols, for each pattern of equal, different and missing attribute values (the queries compare values only for equality, depths only for order): '
                       'selection by attributes for both logics, ancestors and wellbore data for sequences of queries, survey tie-on chains and station ranges, table lookups. The records each query returns are compared with the records that match.')
    chk.group(queries)
    chk.group(bores)
    chk.group(surveys)
    chk.group(rows)
    chk.group(pressures)


MINIMUM = 6
