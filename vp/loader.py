"""Parses /repo's package and resolves names to functions, classes, imports and module constants."""
import ast, os

REPO = os.environ.get('VP_REPO', '/repo')
PKG = 'welleng'


class AnalysisBroken(Exception):
    pass


class Func:
    def __init__(self, name, node, module, cls=None, parent=None):
        self.name, self.node, self.module, self.cls, self.parent = name, node, module, cls, parent
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            x = d.func if isinstance(d, ast.Call) else d
            while isinstance(x, ast.Attribute):
                self.decorators.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                self.decorators.append(x.id)
        self.is_property = bool({'property', 'cached_property'} & set(self.decorators))
        self.is_setter = 'setter' in self.decorators
        self.is_static = 'staticmethod' in self.decorators
        self.is_classm = 'classmethod' in self.decorators

    @property
    def qual(self):
        if self.parent is not None:
            return f'{self.parent.qual}.<locals>.{self.name}'
        c = f'{self.cls.name}.' if self.cls else ''
        return f'{self.module.short}.{c}{self.name}'

    @property
    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.qual}>'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        return self.params() + [x.arg for x in a.kwonlyargs]


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods, self.props, self.setters, self.consts, self.inner = {}, {}, {}, {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(s.name, s, module, cls=self)
                if f.is_setter:
                    self.setters[s.name] = f
                elif f.is_property:
                    self.props[s.name] = f
                else:
                    self.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.inner[s.name] = Cls(name + '.' + s.name, s, module)

    @property
    def qual(self):
        return f'{self.module.short}.{self.name}'

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo = c.bases() + todo
        return out

    def lookup(self, name):
        """-> ('method'|'prop'|'const', object) or None"""
        for c in self.mro():
            if name in c.methods:
                return 'method', c.methods[name]
            if name in c.inner:
                return 'class', c.inner[name]
            if name in c.props:
                return 'prop', c.props[name]
            if name in c.consts:
                return 'const', (c, c.consts[name])
        return None

    def all_functions(self):
        return list(self.methods.values()) + list(self.props.values()) + list(self.setters.values())

    @property
    def is_dataclass(self):
        for d in self.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if (isinstance(x, ast.Name) and x.id == 'dataclass') or (isinstance(x, ast.Attribute) and x.attr == 'dataclass'):
                return True
        return False

    def is_namedtuple(self):
        return any((isinstance(b, ast.Name) and b.id == 'NamedTuple') or (isinstance(b, ast.Attribute) and b.attr == 'NamedTuple') for b in self.node.bases)

    def __repr__(self):
        return f'<Cls {self.qual}>'


class Ext:
    """An external module or object, by canonical dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<Ext {self.name}>'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class GlobalVar:
    def __init__(self, name, module, values):
        self.name, self.module, self.values = name, module, values


class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.rel = os.path.relpath(path, REPO)
        self.short = name[len(PKG) + 1:] if name.startswith(PKG + '.') else name
        self.is_pkg = os.path.basename(path) == '__init__.py'
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self._scan(self.tree.body, False)

    def _scan(self, body, cond):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s.name, s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(s.name, s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = '.'.join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append((s.value, cond))
                    elif isinstance(t, ast.Tuple):
                        for e in ast.walk(t):
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append((None, True))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append((s.value, cond))
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append((None, True))
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__':
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    self._scan(getattr(s, f, []) or [], True)
                for h in getattr(s, 'handlers', []):
                    self._scan(h.body, True)
                if isinstance(s, ast.For):
                    for e in ast.walk(s.target):
                        if isinstance(e, ast.Name):
                            self.assigns.setdefault(e.id, []).append((None, True))

    def resolve(self, name):
        """A module-level name -> Func | Cls | Module | Ext | GlobalVar | None."""
        if name in self.funcs:
            return self.funcs[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.assigns:
            return GlobalVar(name, self, self.assigns[name])
        if name in self.imports:
            i = self.imports[name]
            if i[0] == 'mod':
                return self.prog.module_or_ext(i[1])
            base, n = i[1], i[2]
            m = self.prog.modules.get(base)
            if m is not None:
                sub = self.prog.modules.get(base + '.' + n)
                r = m.resolve(n) if m is not self else None
                if r is not None:
                    return r
                if sub is not None:
                    return sub
                return None
            return Ext(canon(base + '.' + n))
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.resolve(e.attr) or self.prog.modules.get(b.name + '.' + e.attr)
            if isinstance(b, Ext):
                return Ext(canon(b.name + '.' + e.attr))
            if isinstance(b, Cls):
                r = b.lookup(e.attr)
                return r[1] if r and r[0] == 'method' else None
        return None

    def all_functions(self):
        out = []

        def rec(f):
            out.append(f)
            for s in ast.walk(f.node):
                if s is not f.node and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if _owner(f.node, s):
                        rec(Func(s.name, s, self, cls=f.cls, parent=f))
        for f in self.funcs.values():
            rec(f)
        for c in self.classes.values():
            for f in c.all_functions():
                rec(f)
        return out


def _owner(outer, inner):
    """inner is nested in outer with no function in between"""
    stack = list(outer.body)
    while stack:
        s = stack.pop()
        if s is inner:
            return True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(s))
    return False


_CANON = {'np': 'numpy', 'math.pi': 'numpy.pi'}
_MATH = {'sin', 'cos', 'tan', 'sqrt', 'radians', 'degrees', 'pi', 'exp', 'log', 'log10', 'floor', 'ceil', 'hypot', 'isnan', 'isfinite', 'inf', 'nan', 'isinf', 'copysign', 'isclose', 'fabs'}
_MATH2 = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power', 'fabs': 'absolute'}
_ALIAS = {'numpy.abs': 'numpy.absolute', 'numpy.deg2rad': 'numpy.radians', 'numpy.rad2deg': 'numpy.degrees',
          'numpy.round': 'numpy.around', 'numpy.round_': 'numpy.around', 'numpy.max': 'numpy.amax', 'numpy.min': 'numpy.amin', 'numpy.fabs': 'numpy.absolute',
          'numpy.acos': 'numpy.arccos', 'numpy.asin': 'numpy.arcsin', 'numpy.atan': 'numpy.arctan', 'numpy.atan2': 'numpy.arctan2', 'numpy.pow': 'numpy.power',
          'numpy.concat': 'numpy.concatenate', 'numpy.true_divide': 'numpy.divide', 'numpy.row_stack': 'numpy.vstack',
          'numpy.asanyarray': 'numpy.asarray', 'numpy.bool_': 'numpy.bool', 'numpy.asarray_chkfinite': 'numpy.asarray', 'numpy.permute_dims': 'numpy.transpose'}


def canon(n):
    if n.startswith('math.'):
        r = n[5:]
        if r in _MATH2:
            n = 'numpy.' + _MATH2[r]
        elif r in _MATH:
            n = 'numpy.' + r
    return _ALIAS.get(n, n)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'{base} not found')
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        self.modules[rel] = Module(self, rel, p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f'{p}: {e}')

    def module_or_ext(self, name):
        if name in self.modules:
            return self.modules[name]
        return Ext(canon(name))

    def mod(self, short):
        m = self.modules.get(f'{PKG}.{short}')
        if m is None:
            raise AnalysisBroken(f'module {short} vanished')
        return m

    def find(self, qual):
        """'survey.Survey.__init__' / 'utils.get_rf' / 'survey.Survey' or None."""
        parts = qual.split('.')
        for k in range(len(parts), 0, -1):
            m = self.modules.get(PKG + '.' + '.'.join(parts[:k]))
            if m is not None:
                rest = parts[k:]
                break
        else:
            return None
        if not rest:
            return m
        r = m.resolve(rest[0])
        for n in rest[1:]:
            if isinstance(r, Cls):
                x = r.lookup(n)
                r = x[1] if x else None
            else:
                return None
        return r

    def need(self, qual):
        r = self.find(qual)
        if r is None:
            raise AnalysisBroken(f'anchor {qual} vanished')
        return r

    def all_functions(self):
        return [f for m in self.modules.values() for f in m.all_functions()]

    def all_classes(self):
        return [c for m in self.modules.values() for c in m.classes.values()]
