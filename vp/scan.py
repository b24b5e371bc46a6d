"""One pass of the kinds analysis over every function, for each assumed azimuth reference and each setting of the angle flag."""
import ast
from .kinds import Kinds, State, Stop, SURVEYS, HEADERS, HEADER_ANGLES, ang, c, q, join, unit_of, Q
from .loader import Func

FLAGS = ('deg', 'degrees')
ANGLES = ('dip', 'declination', 'convergence', 'vertical_section_azimuth', 'vertical_inc_limit')


class Scan:
    def __init__(self, prog):
        self.prog = prog
        self.reports = {}       # (rule, function, text) -> line
        self.sites = []
        self.by = {}
        self.funcs = set()
        self.headers = []
        self.stopped = set()
        # private steps of a constructor are judged where it takes them
        self.inner = set()
        for k in prog.all_classes():
            g = k.methods.get('__init__')
            todo = [g] if g is not None else []
            while todo:
                h = todo.pop()
                for n in ast.walk(h.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                        x = k.lookup(n.func.attr)
                        if x is not None and isinstance(x[1], Func) and x[1].qual not in self.inner:
                            self.inner.add(x[1].qual)
                            todo.append(x[1])
        for ref in ('grid', 'true', 'magnetic'):
            self.pass_(ref)

    def report(self, rule, f, n, text):
        self.reports.setdefault((rule, f.qual, text), (f, getattr(n, 'lineno', 0)))

    def pass_(self, ref):
        classes = {k.qual: k for k in self.prog.all_classes()}
        init = {}
        for k in classes.values():
            g = k.methods.get('__init__')
            if g is not None:
                init[k.qual] = self.function(g, ref, {}, k)
        for f in self.prog.all_functions():
            if f.name == '__init__' and f.cls is not None:
                continue
            attrs = {}
            if f.name.startswith('_') and f.qual in self.inner:
                continue
            if f.cls is not None:
                for k in f.cls.mro():
                    if k.qual in init:
                        attrs = init[k.qual]
                        break
            self.function(f, ref, attrs, f.cls)

    def function(self, f, ref, attrs, cls):
        """attributes known after it"""
        ps = f.all_params()
        fl = [p for p in ps if p in FLAGS]
        out = None
        hs = [p for p in ps if p in HEADERS and any(x in f.module.short for x in ('survey', 'clearance', 'torque_drag'))]
        for d, given in [(d, h) for d in ((True, False) if fl else (None,)) for h in ((True, False) if hs else (True,))]:
            def site(kind, g, n, env, given, st):
                self.sites.append(dict(kind=kind, func=g, node=n, env=env, given=given, ref=ref, root=f))
            K = Kinds(self.prog, self.report, watch={'survey.Survey', 'connector.Connector'}, site=site, ref=ref)
            env = {}
            for p in ps:
                env[p] = q(p)
                if p in SURVEYS:
                    env[p] = ('sv', p)
                if p in hs:
                    env[p] = ('hdr', p, ref) if given else c(None)
                if p in FLAGS:
                    env[p] = c(d)
                elif fl and (p.startswith(('inc', 'azi')) or p in ANGLES) and p != 'azi_reference':
                    env[p] = ang('deg' if d else 'rad')
            if f.cls is not None and not f.is_static and ps:
                reader = any(k.name == 'Survey' for k in f.cls.mro()) and not stores(f)
                env[ps[0]] = ('sv', 'self') if reader else ('me',)
            try:
                v, a = K.run(f, env, dict(attrs))
            except Stop:
                self.stopped.add(f.qual)
                continue
            finally:
                for k, n in K.by.items():
                    self.by[k] = max(self.by.get(k, 0), n)
                self.funcs |= K.seenfuncs
            if cls is not None and f.name == '__init__' and a:
                if any(k.name == 'SurveyHeader' for k in cls.mro()):
                    self.headers.append((f, d, {x: a.get(x, Q) for x in HEADER_ANGLES}))
                keep = {x: v for x, v in a.items() if v[0] in ('ang', 'sv', 'hdr', 'vec', 'col', 'pos', 'tab', 'unit')}
                out = keep if out is None else {x: join(v, out[x]) for x, v in keep.items() if x in out}
        return {x: v for x, v in (out or {}).items() if v != Q}


def stores(f):
    """does a method bind attributes of its own object"""
    ps = f.params()
    me = ps[0] if ps else None
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me for n in ast.walk(f.node))


def scan(prog):
    if getattr(prog, '_kinds', None) is None:
        prog._kinds = Scan(prog)
    return prog._kinds


def reads(site):
    """attributes read of what is built at a site, where it is bound to a local name that does not escape; None: any"""
    f, call = site['func'], site['node']
    names = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and n.value is call:
            for t in n.targets:
                if not isinstance(t, ast.Name):
                    return None
                names.add(t.id)
        elif isinstance(n, ast.Attribute) and n.value is call:
            return {n.attr}
    if len(names) != 1:
        return None
    nm = names.pop()
    parents = {}
    for n in ast.walk(f.node):
        for k in ast.iter_child_nodes(n):
            parents[k] = n
    if sum(1 for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store)) != 1:
        return None
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Load):
            p = parents.get(n)
            if isinstance(p, ast.Attribute) and isinstance(p.ctx, ast.Load):
                out.add(p.attr)
            else:
                return None
    return out
