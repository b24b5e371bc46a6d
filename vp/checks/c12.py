"""C12 Error-model formulas can only do arithmetic.

The evaluator of formula texts is interpreted over trees whose node classes are assumed (a class lattice taken from
Python's own ast module): for every class that is not arithmetic, at several places in a tree, the path must be refused
before anything is evaluated.  What is finally evaluated must be the very tree that was inspected, in a namespace
without builtins that holds only the named functions and the bindings."""
import ast
from .common import *
from ..aeval import Evaluator, Rejected, Budget

FN = 'errors.interpreter.evaluate_formula'
EVALS = {'eval', 'exec', 'numexpr.evaluate', 'pandas.eval', 'builtins.eval', 'builtins.exec', 'sympy.sympify', 'sympy.parse_expr'}

FORBIDDEN = ['Attribute', 'Subscript', 'Starred', 'Lambda', 'ListComp', 'SetComp', 'DictComp', 'GeneratorExp', 'comprehension', 'NamedExpr', 'Await', 'Yield', 'YieldFrom',
             'JoinedStr', 'FormattedValue', 'Slice', 'List', 'Tuple', 'Dict', 'Set', 'keyword']
FOREIGN_NAMES = ['eval', 'exec', '__import__', 'open', 'getattr', 'compile', 'type', 'globals', 'input', 'vars', 'Inc', 'print', 'sum', 'Sin', 'sinh']
FUNCTIONS = {'sin': 'numpy.sin', 'cos': 'numpy.cos', 'tan': 'numpy.tan', 'asin': 'numpy.arcsin', 'acos': 'numpy.arccos', 'atan': 'numpy.arctan', 'abs': 'numpy.abs', 'sqrt': 'numpy.sqrt',
             'exp': 'numpy.exp', 'log': 'numpy.log', 'maximum': 'numpy.maximum', 'minimum': 'numpy.minimum'}
SAFE = {'numpy.' + x for x in ('sin cos tan arcsin arccos arctan arctan2 abs absolute sqrt exp log log10 log2 maximum minimum sinh cosh tanh sign hypot power mod floor ceil fabs '
                               'deg2rad rad2deg radians degrees square where clip round multiply add subtract divide float64 pi e').split()}
EXCEL = {'Sin': 'sin', 'Cos': 'cos', 'Tan': 'tan', 'Asin': 'asin', 'Acos': 'acos', 'Atan': 'atan', 'Abs': 'abs', 'Sqr': 'sqrt', 'Sqrt': 'sqrt', 'Exp': 'exp', 'Log': 'log', 'Max': 'maximum',
         'Min': 'minimum'}


def bases(name):
    c = getattr(ast, name)
    return tuple('ast.' + b.__name__ for b in c.__mro__ if b is not object)


class Tree:
    """a tree of assumed classes: (class, {field: node or constant or list of nodes})"""

    def __init__(self, spec):
        self.k = 0
        self.nodes = {}          # term -> (class, children)
        self.fields = {}
        self.top = self.build(spec)

    def build(self, spec):
        cls, fields = spec[0], spec[1] if len(spec) > 1 else {}
        t = sym(f'node{self.k}_{cls}')
        self.k += 1
        kids = []
        self.nodes[t] = (cls, kids)
        for f, v in fields.items():
            if isinstance(v, tuple):
                x = self.build(v)
                kids.append(x)
            elif isinstance(v, list):
                xs = [self.build(y) for y in v]
                kids.extend(xs)
                x = mk('list', *xs)
            else:
                x = const(v)
            self.fields[(t, f)] = x
        return t

    def walk(self, t):
        out = [t]
        for x in out:
            out.extend(self.nodes[x][1] if x in self.nodes else [])
        return out


LOAD = ('Load',)


def name(x):
    return ('Name', {'id': x, 'ctx': LOAD})


def call(f, *args, keywords=()):
    return ('Call', {'func': f, 'args': list(args), 'keywords': list(keywords)})


def num(v):
    return ('Constant', {'value': v})


def binop(x, y, op='Add'):
    return ('BinOp', {'left': x, 'op': (op,), 'right': y})


def run_tree(chk, spec):
    """-> (evaluator, outcome, tree): 'refused', 'evaluated', 'unread'"""
    fn = chk.need(FN)
    tree = Tree(spec)
    ev = Evaluator(chk.prog, rank={sym('~'): 1.0}, recursion=8)
    fm, b = sym('formula'), sym('value of Inc')
    ev.extclass[fm] = ('str', 'object')
    ev.read = []
    for t, (c, _) in tree.nodes.items():
        ev.extclass[t] = bases(c)
    for k, v in tree.fields.items():
        ev.heap[k] = v

    def parse(e, args, kws, node):
        r = mk('call', 'ast.parse', mk('args', *[e.deref(a) for a in args]), mk('kws', *[mk('kw', const(k), e.deref(v)) for k, v in sorted(kws.items())]))
        e.extclass[r] = bases('Expression')
        e.heap[(r, 'body')] = tree.top
        tree.nodes[r] = ('Expression', [tree.top])
        e.ev('extcall', node, None, callee='ast.parse', args=args, kws=kws, result=r)
        return r

    def walk(e, args, kws, node):
        if len(args) == 1 and args[0] in tree.nodes:
            e.read.append(args[0])
            return mk('list', *tree.walk(args[0]))

    def kids(e, args, kws, node):
        if len(args) == 1 and args[0] in tree.nodes:
            e.read.append(args[0])
            return mk('list', *tree.nodes[args[0]][1])

    def compiled(e, args, kws, node):
        r = mk('call', 'compile', mk('args', *[e.deref(a) for a in args]), mk('kws'))
        e.ev('extcall', node, None, callee='compile', args=args, kws=kws, result=r)
        return r

    def same(e, args, kws, node):
        return args[0] if len(args) == 1 else None
    ev.extmodel = {'ast.parse': parse, 'ast.walk': walk, 'ast.iter_child_nodes': kids, 'compile': compiled, 'ast.fix_missing_locations': same}
    p = {'formula': fm, 'bindings': mk('dict', mk('kv', const('Inc'), b))}
    out = 'unread'
    try:
        ev.root(fn, params={k: v for k, v in p.items() if k in fn.all_params()})
    except Rejected:
        out = 'refused'
    except Budget:
        return ev, 'unread', tree
    hits = [e for e in ev.events if e.kind == 'extcall' and e.d['callee'] in EVALS]
    if not hits and any(e.kind == 'raise' for e in ev.events):
        out = 'refused'
    if hits and (out == 'refused' or not hits[0].guards):
        out = 'evaluated'
    return ev, out, tree


def refused(chk):
    fn = chk.need(FN)
    bad = [(f'{c} node', (c,)) for c in FORBIDDEN]
    bad += [(f'call of {x}', call(name(x), num(1.0))) for x in FOREIGN_NAMES]
    bad += [('call of an attribute', call(('Attribute', {'value': num(1.0), 'attr': 'sin', 'ctx': LOAD}))), ('call of a call', call(call(name('sin'), num(1.0)))),
            ('call of a subscript', call(('Subscript', {'value': name('Inc'), 'slice': num(0), 'ctx': LOAD}))), ('call of a lambda', call(('Lambda',))),
            ('keyword argument', call(name('sin'), num(1.0), keywords=[('keyword', {'arg': 'out', 'value': name('Inc')})])), ('starred argument', call(name('sin'), ('Starred', {'value': name('Inc')})))]
    places = [('alone', lambda x: x), ('as right operand', lambda x: binop(num(1.0), x)), ('as left operand', lambda x: binop(x, name('Inc'))), ('negated', lambda x: ('UnaryOp', {'op': ('USub',), 'operand': x})),
              ('as an argument', lambda x: call(name('sin'), x)), ('as a second argument', lambda x: call(name('maximum'), num(0.0), x)),
              ('deep inside', lambda x: binop(binop(call(name('cos'), name('Inc')), num(2.0), 'Mult'), ('UnaryOp', {'op': ('USub',), 'operand': call(name('abs'), binop(num(1.0), x, 'Div'))})))]
    for what, spec in bad:
        for where, wrap in places:
            if spec[0] in ('comprehension', 'keyword', 'Slice', 'Starred') and where in ('negated', 'as left operand', 'as right operand', 'alone'):
                continue
            chk.count('trees')
            ev, out, tree = run_tree(chk, wrap(spec))
            c = f'{what} {where}'
            if out == 'refused':
                chk.ok('refused before evaluation', c, '', fn.loc)
            elif out == 'unread':
                chk.unknown('refused before evaluation', c, 'the validation is not readable', fn.loc)
            else:
                hit = next(e for e in ev.events if e.kind == 'extcall' and e.d['callee'] in EVALS)
                touched = [e for e in ev.events if e.kind in ('extcall', 'extmcall') and e.order < hit.order and e.d.get('callee') not in ('ast.parse', 'compile', 'ast.dump')
                           and any(isinstance(a, T) and a in tree.nodes for a in list(e.d.get('args', ())) + [e.d.get('obj')])]
                def about(x):
                    return x in tree.nodes or x.op == 'ext' and x.a[0].startswith('ast.') or x.op in ('unknown', 'match', 'opaque')
                touched += [e for e in ev.events if e.kind in ('raise', 'assert') and e.order < hit.order and e.guards
                            and any(about(x) for g, _ in e.guards for x in subterms(g))]
                insp = [e for e in ev.events if e.kind in ('call', 'new') and e.d.get('opaque') or e.kind == 'unread']
                if touched or insp:
                    chk.unknown('refused before evaluation', c, 'the tree is inspected by a construct the analysis cannot read', fn.loc)
                else:
                    chk.bad('refused before evaluation', c, f'reaches {hit.d["callee"]} at line {hit.line}', fn.loc)


def evaluation(chk):
    fn = chk.need(FN)
    for label, spec in (('a sum', binop(num(1.0), name('Inc'))), ('a function call', call(name('sin'), name('Inc'))), ('a power', binop(name('Inc'), num(2), 'Pow')), ('a quotient', binop(num(1.0), name('Inc'), 'Div')),
                        ('a product', binop(num(1.0), name('Inc'), 'Mult')), ('a difference', binop(num(1.0), name('Inc'), 'Sub')), ('a negation', ('UnaryOp', {'op': ('USub',), 'operand': name('Inc')}))):
        ev, out, tree = run_tree(chk, spec)
        hits = [e for e in ev.events if e.kind == 'extcall' and e.d['callee'] in EVALS]
        if out == 'refused':
            chk.bad('arithmetic is accepted', label, 'refused', fn.loc)
            continue
        if len(hits) != 1:
            chk.unknown('arithmetic is accepted', label, f'{len(hits)} evaluations', fn.loc)
            continue
        chk.ok('arithmetic is accepted', label, '', fn.loc)
        h = hits[0]
        a = [ev.deref(x) for x in h.d['args']]
        kw = {k: ev.deref(v) for k, v in h.d['kws'].items()}
        what = a[0] if a else None
        while what is not None and what.op == 'call' and what.a[0] == 'compile' and what.a[1].a:
            what = what.a[1].a[0]
        insp = [t for t in ev.read]
        texts = [t.a[1].a[0] for t in insp if t.op == 'call' and t.a[0] == 'ast.parse' and t.a[1].a]
        if what is None or not insp:
            chk.unknown('what was inspected is evaluated', label, 'not found', h.loc)
        elif what in insp or what in texts or tree.top in insp and tree.nodes.get(what, ('',))[0] == 'Expression':
            chk.ok('what was inspected is evaluated', label, '', h.loc)
        elif what.op in ('sym', 'call') and (what.op == 'sym' or what.a[0] == 'ast.parse'):
            chk.bad('what was inspected is evaluated', label, f'{show(what, 6)[:200]} is evaluated, {show(insp[0], 6)[:200]} was inspected', h.loc)
        else:
            chk.unknown('what was inspected is evaluated', label, show(what, 6)[:200], h.loc)
        g = a[1] if len(a) > 1 else kw.get('globals')
        l = a[2] if len(a) > 2 else kw.get('locals')
        namespace(chk, label, ev, g, l, h)


def table(t):
    if t is None or t is NONE:
        return {}
    if t.op != 'dict' or not all(k.op == 'kv' and is_const(k.a[0]) for k in t.a):
        return None
    return {cval(k.a[0]): k.a[1] for k in t.a}


def namespace(chk, label, ev, g, l, h):
    if g is None:
        chk.bad('no builtins', label, 'evaluated in the namespace of the calling function', h.loc)
        return
    G, Lo = table(g), table(l)
    if G is None:
        chk.unknown('no builtins', label, 'globals ' + show(g, 3)[:150], h.loc)
        return
    b = G.pop('__builtins__', None)
    if b is None:
        chk.bad('no builtins', label, 'the globals do not replace the builtins', h.loc)
    else:
        b = ev.deref(b)
        if b.op == 'dict' and not b.a or b is NONE:
            chk.ok('no builtins', label, '', h.loc)
        elif b.op in ('dict', 'ext', 'module', 'const'):
            chk.bad('no builtins', label, 'builtins are ' + show(b, 3)[:150], h.loc)
        else:
            chk.unknown('no builtins', label, 'builtins are ' + show(b, 3)[:150], h.loc)
    if Lo is None:
        chk.unknown('names', label, 'locals ' + show(l, 3)[:150], h.loc)
        return
    names = dict(G)
    names.update(Lo)
    for k, v in sorted(names.items(), key=lambda p: str(p[0])):
        v = ev.deref(v)
        c = f'name {k}'
        if v.op == 'ext':
            w = FUNCTIONS.get(k)
            nm = {'numpy.absolute': 'numpy.abs', 'abs': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.fmax': 'numpy.maximum', 'numpy.fmin': 'numpy.minimum'}.get(v.a[0], v.a[0])
            if w == nm:
                chk.ok('names', c, '', h.loc)
            elif w is not None and nm in SAFE:
                chk.bad('names', c, f'{k} is {v.a[0]}, {w} is due', h.loc)
            elif nm in SAFE:
                chk.ok('names', c, '', h.loc)
            elif nm.split('.')[0] in ('os', 'sys', 'builtins', 'subprocess', 'importlib', 'io', 'pathlib', 'shutil') or '.' not in nm or nm in ('numpy.load', 'numpy.fromfile', 'numpy.loadtxt', 'numpy.save'):
                chk.bad('names', c, f'formulas can reach {v.a[0]}', h.loc)
            else:
                chk.unknown('names', c, f'{v.a[0]}', h.loc)
        elif v.op in ('module', 'class', 'func', 'bound', 'fn'):
            chk.bad('names', c, f'formulas can reach {show(v, 3)[:120]}', h.loc)
        elif v is sym('value of Inc') or is_const(v) or v is PI:
            chk.ok('names', c, '', h.loc)
        else:
            chk.unknown('names', c, show(v, 3)[:120], h.loc)
    for k in FUNCTIONS:
        if k not in names:
            chk.bad('names', f'name {k}', 'the function is accepted in formulas but not provided', h.loc)
    if 'pi' in names:
        v = ev.deref(names['pi'])
        if is_const(v) or v is PI:
            if v is PI or abs(float(cval(v)) - 3.141592653589793) < 1e-12:
                chk.ok('names', 'value of pi', '', h.loc)
            else:
                chk.bad('names', 'value of pi', show(v), h.loc)


def sites(chk):
    """no other place in the package turns text into code"""
    ev, out, tree = run_tree(chk, binop(num(1.0), name('Inc')))
    inside = set(ev.visited_funcs)
    inside = {getattr(x, 'qual', x) for x in inside} | {FN}
    for m in chk.prog.modules.values():
        if not m.name.startswith('welleng'):
            continue
        chk.count('modules scanned')
        bound = set(m.funcs) | set(m.classes) | set(m.imports)
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('eval', 'exec') and node.func.id not in bound:
                q = enclosing(m, node)
                c = f'{node.func.id} in {q}'
                if q in inside:
                    chk.ok('evaluation sites', c, '', f'{m.rel}:{node.lineno}')
                else:
                    chk.bad('evaluation sites', c, 'text is turned into code outside the checked evaluator', f'{m.rel}:{node.lineno}')


def enclosing(m, node):
    best = None
    for f in m.all_funcs() if hasattr(m, 'all_funcs') else functions(m):
        if f.node.lineno <= node.lineno <= f.node.end_lineno and (best is None or f.node.lineno > best.node.lineno):
            best = f
    return best.qual if best else m.short


def functions(m):
    out = list(m.funcs.values())
    for c in m.classes.values():
        out.extend(f for f in c.methods.values())
    return out


def bindings(chk):
    """what the library lets formulas see"""
    for m in chk.prog.modules.values():
        if 'evaluate_formula' not in m.imports:
            continue
        for f in functions(m):
            # functions that mention bindings or the evaluator; helpers are inlined into them
            if not any(isinstance(x, ast.Name) and x.id in ('evaluate_formula', 'bindings') for x in ast.walk(f.node)):
                continue
            ev, r = evaluate(chk, f.qual, {}, inline=lambda g: g.qual != FN and g.module is m)
            if ev is None:
                chk.unknown('bindings', f.qual, r, f.loc)
                continue
            for e in ev.events:
                if e.kind == 'call' and e.d['callee'] == FN:
                    b = e.d['bound'].get('bindings')
                    tb = table(ev.deref(b)) if b is not None else None
                    if tb is None and b is not None and ev.deref(b).op == 'sym':
                        continue      # handed on from the caller, which is analysed itself
                    if tb is None:
                        chk.unknown('bindings', f.qual, 'bindings ' + (show(ev.deref(b), 3)[:150] if b is not None else 'missing'), e.loc)
                        continue
                    for k, v in tb.items():
                        v = ev.deref(v)
                        c = f'{k} in {f.qual}'
                        if v.op in ('module', 'ext', 'class', 'func', 'bound', 'fn') and not v is PI:
                            chk.bad('bindings', c, f'formulas can reach {show(v, 3)[:120]}', e.loc)
                        elif v.op == 'obj' and ev.info[v].kind == 'inst' or v is sym('self'):
                            chk.bad('bindings', c, f'formulas are handed the object {show(v, 3)[:120]}', e.loc)
                        else:
                            chk.ok('bindings', c, '', e.loc)


def rewriting(chk):
    """the schema's function names are turned into the functions they name"""
    m = chk.prog.modules.get('welleng.errors.interpreter')
    if m is None:
        chk.unknown('schema functions', 'table', 'module gone')
        return
    tables = []
    for node in m.tree.body:
        v = getattr(node, 'value', None)
        if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(v, ast.Dict):
            try:
                d = ast.literal_eval(v)
            except ValueError:
                continue
            if 'Sin' in d:
                tables.append((d, node))
    if len(tables) != 1:
        chk.unknown('schema functions', 'table', f'{len(tables)} tables of function names')
        return
    d, node = tables[0]
    loc = f'{m.rel}:{node.lineno}'
    for k, w in EXCEL.items():
        if k not in d:
            chk.unknown('schema functions', k, 'not in the table', loc)
        elif d[k] == w:
            chk.ok('schema functions', k, '', loc)
        elif d[k] in FUNCTIONS:
            chk.bad('schema functions', k, f'{k} is evaluated as {d[k]}, {w} is due', loc)
        else:
            chk.unknown('schema functions', k, f'{d[k]}', loc)


def run(chk):
    chk.explanation = 'trees of assumed node classes are sent through the formula evaluator; each non-arithmetic class must be refused on the only path before anything is evaluated'
    for g in (refused, evaluation, sites, bindings, rewriting):
        chk.group(g)


MINIMUM = 5
