"""C08 Every advertised error model is complete and understood.

The shipped definitions (YAML, JSON) are read as data; the tables that interpret them are read from the source by value
numbering: the registered weight functions, the propagation mapping, the magnitude scale per unit, the variables bound."""
import ast, json, os, re, glob
import yaml
from .common import *
from ..aeval import Evaluator, Rejected
from .c12 import Tree, run_tree, EXCEL, FUNCTIONS, table, functions

# inputs that the schema's formulas name and that a survey alone cannot provide (documented in errors/conformance.py)
GAPS = {'MDPrev', 'IncPrev', 'AzPrev', 'XCLTortuosity', 'NoiseReductionFactor', 'XY_Gyro_Drift', 'Z_Gyro_Drift', 'GXYRunningSpeed', 'GZRunningSpeed', 'XY_Gyro_Random_Walk',
        'Z_Gyro_Random_Walk'}
MODES = {'Random': 'random', 'Systematic': 'systematic', 'Global': 'global', 'Well': 'within_pad'}
SCALE = {'m': 1., '1/m': 1., 'nT': 1., 'm/s2': 1., 'rad': 1., '-': 1., '': 1., 'deg': 1, 'deg/hr': 1, 'deg/nT': 1, 'deg.nT': 1, 'deg/sqr(hr)': 1}
RAD = 3.141592653589793 / 180.
for _k in SCALE:
    SCALE[_k] = RAD if _k.startswith('deg') else 1.
AXES = ('depth_formula', 'inclination_formula', 'azimuth_formula')
SING = ('north_singularity', 'east_singularity', 'vertical_singularity')


def root(chk):
    return os.path.join(chk.prog.root, 'welleng') if os.path.isdir(os.path.join(chk.prog.root, 'welleng')) else chk.prog.root


class Data:
    def __init__(self, chk):
        d = os.path.join(root(chk), 'errors')
        self.dir = d
        self.problems = []
        self.index = self.load(os.path.join(d, 'tool_index.yaml')) or {}
        self.yaml, self.json = {}, {}
        for p in sorted(glob.glob(os.path.join(d, 'tool_codes', '*.yaml'))):
            m = self.load(p)
            b = os.path.basename(p)[:-5]
            if isinstance(m, dict) and 'codes' in m and 'header' in m:
                self.yaml[b] = m
            elif b in self.index:
                self.problems.append((b, 'has no header and codes'))
        for p in sorted(glob.glob(os.path.join(d, 'iscwsa_json', '*', '*.json'))):
            m = self.load(p)
            if m is not None:
                self.json[os.path.basename(p)[:-5]] = m

    def load(self, p):
        try:
            with open(p) as f:
                return json.load(f) if p.endswith('.json') else yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))
        except (OSError, ValueError, yaml.YAMLError) as e:
            self.problems.append((os.path.relpath(p, self.dir), f'does not load: {type(e).__name__}'))
            return None

    def resolve(self, key, order=None):
        """definition used for a registered model"""
        if key in self.yaml:
            return 'yaml', key
        for name in order or (self.index[key].get('Short Name'), key):
            if name in self.json:
                return 'json', name
            for b, m in self.json.items():
                md = m.get('metadata', {})
                if md.get('model_id') == name or md.get('short_name') == name:
                    return 'json', b
        return None


def registry(chk, d):
    rel = 'welleng/errors/tool_index.yaml'
    for what, why in d.problems:
        chk.bad('definitions load', str(what), why)
    seen = {}
    for k, v in d.index.items():
        chk.count('registry entries')
        s = v.get('Short Name') if isinstance(v, dict) else None
        if not s:
            chk.bad('registered names', str(k), 'no Short Name', rel)
            continue
        if s in seen:
            chk.bad('registered names', str(k), f'{s} is also the name of {seen[s]}: this model cannot be chosen', rel)
        else:
            chk.ok('registered names', str(k), '', rel)
        seen[s] = k
        r = d.resolve(k)
        (chk.ok if r else chk.bad)('definition exists', str(k), '' if r else f'{s} has no definition file', rel)
    # names the source offers: aliases, defaults
    for q, t in aliases(chk):
        if t in seen:
            chk.ok('names in the source', q, '')
        else:
            chk.bad('names in the source', q, f'{t!r} is not a registered model')


def aliases(chk):
    m = chk.prog.modules.get('welleng.error')
    for node in m.tree.body if m else ():
        if isinstance(node, ast.Assign) and isinstance(node.value, ast.Dict) and any('ALIAS' in getattr(t, 'id', '').upper() for t in node.targets):
            try:
                for k, v in ast.literal_eval(node.value).items():
                    yield f'alias {k}', v
            except ValueError:
                pass
    for m in chk.prog.modules.values():
        for f in functions(m):
            a = f.node.args
            pos = a.posonlyargs + a.args
            for p, dft in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if p.arg == 'error_model' and isinstance(dft, ast.Constant) and isinstance(dft.value, str):
                    yield f'default of {f.qual}', dft.value


def weight_functions(chk):
    q = 'errors.tool_errors.ToolError._initiate_func_dict'
    ev, r = evaluate(chk, q, {})
    t = ev.heap.get((sym('self'), 'func_dict'))
    return table(ev.deref(t)) if t is not None else None


def modes_known(chk, modes):
    """propagation modes for which an error is produced"""
    out = {}
    for m in modes:
        ev, r = evaluate(chk, 'error.ErrorModel._generate_error', {'propagation': const(m), 'NEV': TRUE})
        r = ev.deref(r)
        out[m] = False if r is NONE else True if r.op in ('obj', 'rnew', 'new') else None
    return out


def yaml_terms(chk, d):
    fd = weight_functions(chk)
    loc = chk.need('errors.tool_errors.ToolError._initiate_func_dict').loc if chk.prog.find('errors.tool_errors.ToolError._initiate_func_dict') else ''
    if fd is None:
        chk.unknown('weight functions', 'table', 'not readable', loc)
        return
    used = {d.resolve(k) for k in d.index}
    modes = {}
    for name in sorted(b for k, b in {x for x in used if x} if k == 'yaml'):
        m = d.yaml[name]
        for code, t in (m['codes'] or {}).items():
            chk.count('terms')
            c = f'{name} {code}'
            if not isinstance(t, dict) or not {'function', 'magnitude', 'propagation'} <= set(t):
                chk.bad('term is complete', c, 'function, magnitude or propagation missing')
                continue
            bad = None
            if t['function'] not in fd:
                bad = f"weight function {t['function']} is not implemented"
            elif isinstance(t['magnitude'], bool) or not isinstance(t['magnitude'], (int, float)):
                bad = f"magnitude {t['magnitude']!r} is not a number"
            modes.setdefault(t['propagation'], []).append(c)
            (chk.bad if bad else chk.ok)('term is understood', c, bad or '')
        header(chk, name, m.get('header') or {})
    for k, v in fd.items():
        if v.op in ('func', 'fn') or v.op == 'bound':
            chk.ok('weight functions', str(k), '', loc)
        else:
            chk.unknown('weight functions', str(k), show(v, 3)[:100], loc)
    propagation(chk, modes)


def header(chk, name, h):
    c = f'{name} header'
    v = h.get('Inclination Range Max')
    if v is None:
        return
    try:
        float(str(v).split(' ')[0])
        chk.ok('inclination limit', c)
    except ValueError:
        chk.bad('inclination limit', c, f'{v!r} does not begin with a number')
    if 'Default Tortusity (rad/m)' in h:
        x = h['Default Tortusity (rad/m)']
        (chk.ok if isinstance(x, (int, float)) else chk.bad)('tortuosity', c, '' if isinstance(x, (int, float)) else f'{x!r} is not a number')


def propagation(chk, modes):
    fn = chk.need('error.ErrorModel._generate_error')
    for m, known in modes_known(chk, sorted(modes, key=str)).items():
        c = f'mode {m}'
        if known is None:
            chk.unknown('propagation mode', c, 'not readable', fn.loc)
        elif known:
            chk.ok('propagation mode', c, '', fn.loc)
        else:
            chk.bad('propagation mode', c, f'no error is produced for it ({len(modes[m])} terms, e.g. {modes[m][0]})', fn.loc)


def adapter(chk, mode):
    """propagation that the JSON adapter gives a term of this mode, and the entry's magnitude"""
    q = 'errors.tool_errors._json_to_em_adapter'
    if chk.prog.find(q) is None:
        return None
    kv = lambda k, v: mk('kv', const(k), v)
    term = mk('dict', kv('name', const('T')), kv('value', sym('value')), kv('propagation_mode', const(mode)), kv('units', sym('units')))
    model = mk('dict', kv('metadata', mk('dict')), kv('parameters', mk('dict')), kv('terms', mk('list', term)))
    ev, r = evaluate(chk, q, {'model': model})
    if ev is None:
        return None
    t = table(deep(ev, r))
    codes = table(t['codes']) if t and 'codes' in t else None
    e = table(codes['T']) if codes and 'T' in codes else None
    return e


def json_terms(chk, d):
    names = sorted(d.json)
    modes, units, formulas = {}, {}, {}
    for name in names:
        seen = set()
        m = d.json[name]
        for t in m.get('terms', []):
            chk.count('terms')
            c = f"{name} {t.get('name')}"
            miss = [k for k in ('name', 'value', 'propagation_mode') + AXES if k not in t]
            if miss:
                chk.bad('term is complete', c, f'{miss} missing')
                continue
            if t['name'] in seen:
                chk.bad('term is complete', c, 'two terms have this name: one of them is dropped')
            else:
                chk.ok('term is complete', c)
            seen.add(t['name'])
            try:
                float(t['value'])
            except (TypeError, ValueError):
                chk.bad('term is understood', c, f"magnitude {t['value']!r} is not a number")
            modes.setdefault(t['propagation_mode'], []).append(c)
            units.setdefault(t.get('units') or t.get('unit') or '-', []).append(c)
            for a in AXES + SING:
                if isinstance(t.get(a), str):
                    formulas.setdefault((t[a], a in SING), []).append(c)
                elif a in AXES and not isinstance(t[a], (int, float)):
                    chk.bad('term is understood', c, f'{a} is {t[a]!r}')
    mapped = {}
    q = chk.prog.find('errors.tool_errors._json_to_em_adapter')
    loc = q.loc if q else ''
    for m, cs in sorted(modes.items()):
        e = adapter(chk, m)
        p = e.get('propagation') if e else None
        c = f'mode {m}'
        if m not in MODES:
            chk.bad('propagation mode', c, f'not a mode of the schema (e.g. {cs[0]})', loc)
        elif p is None or not is_const(p):
            chk.unknown('propagation mode', c, 'mapping not readable' if p is None else show(p, 4)[:120], loc)
        elif cval(p) != MODES[m]:
            chk.bad('propagation mode', c, f'{m} terms are propagated as {cval(p)}, {MODES[m]} is due ({len(cs)} terms, e.g. {cs[0]})', loc)
        else:
            chk.ok('propagation mode', c, '', loc)
            mapped.setdefault(cval(p), []).extend(cs)
    propagation(chk, mapped)
    scales(chk, units)
    texts(chk, formulas)


def scales(chk, units):
    q = 'errors.tool_errors.ToolError._call_interpreter'
    fn = chk.prog.find(q)
    if fn is None:
        chk.unknown('units', q, 'this internal function is gone')
        return
    kv = lambda k, v: mk('kv', const(k), v)
    for u, cs in sorted(units.items()):
        c = f'unit {u}'
        if u not in SCALE:
            chk.bad('units', c, f'not a unit the library knows ({len(cs)} terms, e.g. {cs[0]})', fn.loc)
            continue
        term = mk('dict', kv('name', const('T')), kv('units', const(u)), *[kv(a, const(0.0)) for a in AXES])
        e = mk('attr', sym('self'), 'e')
        ev, r = evaluate(chk, q, {'term': term, 'mag': sym('mag')}, inline=lambda f: f.name not in ('_generate_error', 'evaluate_formula'), before=lambda ev: ev.hints.__setitem__(e, chk.need('error.ErrorModel')))
        made = [x for x in ev.events if x.kind == 'call' and str(x.d['callee']).endswith('._generate_error')] if ev else []
        factors = []
        for x in made:
            t = ev.deref(x.d['bound'].get('e_DIA', NONE))
            factors.append(factor(t, sym('mag')))
        if not factors or any(f is None for f in factors):
            chk.unknown('units', c, 'scale not readable', fn.loc)
            continue
        want = const(1.0) if SCALE[u] == 1. else mk('bin', '/', PI, const(180.0))
        r = [decide(chk, 'units', c, f, want, Lower({}), ranges(), loc=fn.loc) for f in factors]


def factor(t, mag):
    """what multiplies the magnitude, in a product that contains it"""
    while True:
        if t.op == 'bin' and t.a[0] == '*':
            l, r = t.a[1], t.a[2]
            hl, hr = mag in set(subterms(l)), mag in set(subterms(r))
            if hl and hr:
                return None
            s = l if hl else r
            if s is mag:
                o = r if hl else l
                return o if not [x for x in subterms(o) if x.op in ('rcall', 'obj')] else const(1.0)
            # the scale belongs to the innermost product that holds the magnitude
            if s.op == 'bin' and s.a[0] in ('*', '/'):
                o = r if hl else l
                inner = factor(s, mag)
                if inner is None:
                    return None
                if not [x for x in subterms(o) if x.op in ('rcall', 'obj', 'call')]:
                    return mk('bin', '*', inner, o)
                return inner
            t = s
        elif t.op == 'bin' and t.a[0] == '/' and t.a[1] is mag:
            return mk('bin', '/', const(1.0), t.a[2])
        elif t.op == 'store':
            t = t.a[0]
        elif t.op == 'ite':
            return None
        else:
            return None


def excel(text):
    for k, v in EXCEL.items():
        text = re.sub(rf'\b{k}\s*\(', v + '(', text)
    return text.replace('^', '**')


def spec_of(node):
    f = {}
    for k, v in ast.iter_fields(node):
        if isinstance(v, ast.AST):
            f[k] = spec_of(v)
        elif isinstance(v, list):
            f[k] = [spec_of(x) for x in v if isinstance(x, ast.AST)]
        else:
            f[k] = v
    return (type(node).__name__, f)


def texts(chk, formulas):
    """every formula parses, is accepted, and names only what is bound or a documented gap"""
    q = 'errors.tool_errors.ToolError._call_interpreter'
    fn = chk.prog.find(q)
    names = warned = None
    if fn is not None:
        ev, r = evaluate(chk, q, {}, inline=lambda f: f.name not in ('_generate_error', 'evaluate_formula'))
        for x in ev.events if ev else ():
            if x.kind == 'call' and str(x.d['callee']).endswith('.evaluate_formula'):
                b = table(ev.deref(x.d['bound'].get('bindings', NONE)))
                if b is not None:
                    names = set(b) if names is None else names & set(b)
        w = [x for x in ev.events if x.kind == 'extcall' and x.d['callee'] == 'warnings.warn'] if ev else []
        warned = any(sym('code') in {y for a in x.d['args'] for y in subterms(ev.deref(a))} for x in w)
    loc = fn.loc if fn else ''
    if names is None:
        chk.unknown('formula variables', q, 'bindings not readable', loc)
    shapes = {}
    gaps = {}
    for (text, sing), cs in sorted(formulas.items()):
        chk.count('formulas')
        c = text[:80]
        try:
            tree = ast.parse(excel(text), mode='eval')
        except SyntaxError as e:
            chk.bad('formula is readable', c, f'does not parse ({cs[0]})')
            continue
        used = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}
        called = {x.func.id for x in ast.walk(tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
        miss = called - set(FUNCTIONS)
        if miss:
            chk.bad('formula is readable', c, f'{sorted(miss)} are not functions of the schema ({cs[0]})')
            continue
        chk.ok('formula is readable', c)
        if names is not None:
            free = used - called - names - {'pi'}
            new = free - GAPS
            for x in free & GAPS:
                gaps.setdefault(x, cs[0])
            (chk.bad if new else chk.ok)('formula variables', c, f'{sorted(new)} not bound: the term is dropped ({len(cs)} terms, e.g. {cs[0]})' if new else '', loc)
        sig = tuple(sorted({type(x).__name__ for x in ast.walk(tree)})) + tuple(sorted(called))
        if sig not in shapes:
            shapes[sig] = (c, tree)
    for x, ex in sorted(gaps.items()):
        if warned:
            chk.ok('left out with a warning', x, '', loc)
        elif warned is None:
            chk.unknown('left out with a warning', x, '', loc)
        else:
            chk.bad('left out with a warning', x, f'terms that need {x} (e.g. {ex}) are dropped without a warning naming the term', loc)
    for c, tree in shapes.values():
        ev, out, _ = run_tree(chk, spec_of(tree.body))
        if out == 'refused':
            chk.bad('formula is accepted', c, 'refused by the formula evaluator')
        elif out == 'evaluated':
            chk.ok('formula is accepted', c)
        else:
            chk.unknown('formula is accepted', c, 'validation not readable')


def both(chk, d):
    """a model shipped in both formats says the same in both"""
    for key, v in d.index.items():
        if key not in d.yaml:
            continue
        j = None
        for name in (v.get('Short Name'), key):
            j = j or next((m for b, m in d.json.items() if b == name or m.get('metadata', {}).get('short_name') == name), None)
        if j is None:
            continue
        js = {t.get('name'): t for t in j.get('terms', [])}
        ys = d.yaml[key]['codes']
        for code in sorted(set(js) | set(ys), key=str):
            c = f'{key} {code}'
            chk.count('terms compared')
            if code not in js or code not in ys:
                chk.unknown('formats agree', c, 'only in ' + ('YAML' if code in ys else 'JSON'))
                continue
            t, y = js[code], ys[code]
            try:
                mag = float(t['value']) * SCALE[t.get('units') or '-']
                ok = abs(mag - float(y['magnitude'])) <= 1e-6 * max(abs(mag), 1e-12)
            except (KeyError, TypeError, ValueError):
                continue
            bad = None
            if not ok:
                bad = f"magnitude {y['magnitude']} in YAML, {mag} in JSON"
            elif MODES.get(t['propagation_mode']) != y['propagation']:
                bad = f"propagation {y['propagation']} in YAML, {t['propagation_mode']} in JSON"
            elif t.get('x_owsg_weight_function') and t['x_owsg_weight_function'].replace('-', '_') != str(y['function']).replace('-', '_'):
                bad = f"weight function {y['function']} in YAML, {t['x_owsg_weight_function']} in JSON"
            (chk.bad if bad else chk.ok)('formats agree', c, bad or '')


LETTERS = {'R': 'Random', 'S': 'Systematic', 'G': 'Global', 'W': 'Well'}


def tables(chk):
    """literal tables that say the same thing in different modules"""
    for m in chk.prog.modules.values():
        if not m.name.startswith('welleng'):
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Dict) or not node.keys or not all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in node.keys):
                continue
            ks = {k.value: v for k, v in zip(node.keys, node.values)}
            where = f'{m.short}'
            if {'Random', 'Systematic'} <= set(ks) or {'R', 'S', 'W'} <= set(ks):
                for k, v in ks.items():
                    if not isinstance(v, ast.Constant) or not isinstance(v.value, str):
                        continue
                    full = LETTERS.get(k, k)
                    if full not in MODES:
                        continue
                    good = {full, MODES[full]}
                    c = f'{where}: {k}'
                    if v.value in good:
                        chk.ok('mode tables agree', c, '', f'{m.rel}:{node.lineno}')
                    elif v.value in set(MODES) | set(MODES.values()):
                        chk.bad('mode tables agree', c, f'{k} is {v.value}', f'{m.rel}:{node.lineno}')
                    else:
                        chk.unknown('mode tables agree', c, v.value, f'{m.rel}:{node.lineno}')
            if {'deg', 'nT', 'm'} <= set(ks):
                for k, v in ks.items():
                    x = number(v)
                    c = f'{where}: {k}'
                    if k not in SCALE:
                        continue
                    if x is None:
                        chk.unknown('unit tables agree', c, ast.unparse(v)[:60], f'{m.rel}:{node.lineno}')
                    elif abs(x - SCALE[k]) < 1e-12:
                        chk.ok('unit tables agree', c, '', f'{m.rel}:{node.lineno}')
                    else:
                        chk.bad('unit tables agree', c, f'{k} is {x}, {SCALE[k]} is due', f'{m.rel}:{node.lineno}')


def number(v):
    if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
        return float(v.value)
    if isinstance(v, ast.BinOp):
        x, y = number(v.left), number(v.right)
        if x is None or y is None:
            return None
        if isinstance(v.op, ast.Div):
            return x / y if y else None
        if isinstance(v.op, ast.Mult):
            return x * y
        return None
    if isinstance(v, ast.Attribute) and v.attr == 'pi' or isinstance(v, ast.Name) and v.id == 'pi':
        return 3.141592653589793
    if isinstance(v, ast.Call) and isinstance(v.func, (ast.Attribute, ast.Name)) and (getattr(v.func, 'attr', None) or v.func.id) in ('radians', 'deg2rad') and len(v.args) == 1:
        x = number(v.args[0])
        return None if x is None else x * RAD
    return None


def paths(chk):
    """the files are looked for where they are shipped"""
    q = 'errors.tool_errors.ToolError.__init__'
    fn = chk.need(q)
    strings = {x.value for m in ('welleng.errors.tool_errors',) for x in ast.walk(chk.prog.modules[m].tree) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    for d in ('tool_codes', 'iscwsa_json'):
        if not any(d in s for s in strings):
            chk.unknown('paths', d, 'folder not named in the module', fn.loc)
        else:
            chk.ok('paths', d, '', fn.loc)


def chosen(chk, d):
    """a name selects its own model: aliases are replaced, the index is searched for the very name, and the definition found is that model's"""
    q = 'error.ErrorModel.__init__'
    fn = chk.need(q)
    for name, to in [(k[6:], v) for k, v in aliases(chk) if k.startswith('alias ')]:
        ev, r = evaluate(chk, q, {'error_model': const(name)}, opaque_init=('errors.tool_errors.ToolError',), inline=lambda f: f.name not in ('_drdp', '_drdp_sing'))
        t = ev.heap.get((sym('self'), 'error_model')) if ev else None
        t = ev.deref(t) if t is not None else None
        if t is const(to):
            chk.ok('alias replaced', name)
        elif t is not None and is_const(t):
            chk.bad('alias replaced', name, f'{name!r} selects {cval(t)!r}, specified {to!r}', fn.loc)
        else:
            chk.unknown('alias replaced', name, show(t, 4) if t is not None else 'not set', fn.loc)
    # the comparison that selects the entry
    names = [v.get('Short Name') for v in d.index.values() if isinstance(v, dict)]
    clash = next(((a, b) for a in names for b in names if a and b and a != b and a in b), None)
    for x in ast.walk(fn.node):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if not any(isinstance(y, ast.Constant) and y.value == 'Short Name' for y in ast.walk(x)) or 'error_model' not in ast.unparse(x):
                continue
            loc = f'{fn.module.rel}:{x.lineno}'
            c = 'entry found by its name'
            if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
                sides = [ast.unparse(y) for y in (x.left, x.comparators[0])]
                (chk.unknown if any('(' in y and '.get(' not in y for y in sides) else chk.ok)('model selected', c, ast.unparse(x), loc)
            elif clash and (isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and not isinstance(x.comparators[0], (ast.Tuple, ast.List, ast.Set)) or isinstance(x, ast.Call) and x.func.attr in ('startswith', 'endswith', 'find', 'count')):
                chk.bad('model selected', c, f'{ast.unparse(x)}: {clash[0]!r} is part of {clash[1]!r}, another model', loc)
    # the definition
    q = 'errors.tool_errors.ToolError.__init__'
    fn = chk.need(q)
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.name not in ('_resolve_json_model', '_call_interpreter', 'call_func', 'NEV_to_HLA'))
    order = []
    for e in (ev.events if ev else ()):
        if e.kind == 'call' and str(e.d['callee']).endswith('._resolve_json_model') and e.d['bound']:
            t = next(iter(e.d['bound'].values()))
            order.append('key' if t is sym('model') else 'name' if t.op == 'attr' and t.a[1] == 'error_model' else None)
    if not order or None in order:
        chk.unknown('definition selected', 'search order', str(order), fn.loc)
    else:
        for k, v in d.index.items():
            s = v.get('Short Name') if isinstance(v, dict) else None
            if not s or k in d.yaml:
                continue
            r = d.resolve(k, [s if o == 'name' else k for o in order])
            if r is None and d.resolve(k) is None:
                continue        # reported as not defined
            if r is None:
                chk.bad('definition selected', str(k), f'no definition of {s} is found', fn.loc)
                continue
            md = d.json[r[1]].get('metadata', {})
            if md.get('short_name') == s or r[1] == s or not any(m.get('metadata', {}).get('short_name') == s for m in d.json.values()):
                chk.ok('definition selected', str(k))
            else:
                chk.bad('definition selected', str(k), f'{s} is computed with the definition of {md.get("short_name")}', fn.loc)
    # what is left out is named
    q = 'errors.tool_errors.ToolError._call_interpreter'
    fn = chk.prog.find(q)
    if fn is None:
        return
    ev, r = evaluate(chk, q, {}, inline=lambda f: f.name not in ('_generate_error', 'evaluate_formula'))
    warned = [e for e in (ev.events if ev else ()) if e.kind == 'extcall' and e.d['callee'] in ('warnings.warn', 'logging.warning')]
    handlers = [h for x in ast.walk(fn.node) if isinstance(x, ast.Try) for h in x.handlers if any(isinstance(y, ast.Call) and getattr(y.func, 'id', getattr(y.func, 'attr', '')) == 'evaluate_formula' for z in x.body for y in ast.walk(z))]
    c = 'a term that cannot be computed'
    for e in warned:
        g = [x for x, v in e.guards if x.op != 'exc']
        text = [y for a in e.d['args'][:1] for y in subterms(ev.deref(a))]
        if g and all(x.op == 'cmp' and not any(y.op in ('exc', 'excval') for y in subterms(x)) for x in g):
            chk.bad('omission is announced', c, f'only when {show(g[0], 4)}', f'{e.rel}:{e.line}')
        elif g:
            chk.unknown('omission is announced', c, show(g[0], 4), f'{e.rel}:{e.line}')
        elif not any(y is sym('code') for y in text):
            (chk.unknown if any(y.op in ('sym', 'rcall') for y in text) else chk.bad)('omission is announced', c, 'the warning does not name the term', f'{e.rel}:{e.line}')
        else:
            chk.ok('omission is announced', c)
    if not warned and handlers and not any(isinstance(y, ast.Raise) for h in handlers for y in ast.walk(h)):
        calls = [y for h in handlers for z in h.body for y in ast.walk(z) if isinstance(y, ast.Call)]
        quiet = all(isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id in ('np', 'numpy') for y in calls)
        (chk.bad if quiet else chk.unknown)('omission is announced', c, 'contributes zero without a warning', fn.loc)


def run(chk):
    chk.explanation = 'every shipped definition is read as data and held against the tables of the source, which are read by value numbering'
    d = Data(chk)
    for g in (registry, yaml_terms, json_terms, both, chosen):
        chk.group(g, d)
    for g in (tables, paths):
        chk.group(g)


MINIMUM = 50
