"""Name resolution: which reads of names can find a binding when they run.

A structured forward dataflow over the statements of every scope that is live under the configuration: the set of
names that may be bound and the set that must be bound at each point.  Conditions that are constant under the
configuration are followed on one side only, so code that is dead there is not judged."""
import ast
import builtins
from model import Class, Func, Prop, Alias, Module, ModRef

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', 'WindowsError'}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)


class St:
    __slots__ = ('may', 'must')

    def __init__(self, may=(), must=()):
        self.may, self.must = frozenset(may), frozenset(must)

    def bind(self, *names):
        return St(self.may.union(names), self.must.union(names))

    def drop(self, *names):
        return St(self.may.difference(names), self.must.difference(names))


def join(*sts):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    return St(frozenset().union(*[s.may for s in sts]), frozenset.intersection(*[s.must for s in sts]))


def bound_names(node):
    """names a function, lambda or class scope binds itself"""
    out, decl, nonl = set(), set(), set()

    def args(a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
            out.add(x.arg)

    def walk(n, top=False):
        if isinstance(n, FUNC) and not top:
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef) and not top:
            out.add(n.name)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                walk(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            walk(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Global):
            decl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name or isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, FUNC + (ast.Lambda,)):
        args(node.args)
        for s in (node.body if isinstance(node.body, list) else [node.body]):
            walk(s)
    else:
        for s in node.body:
            walk(s)
    return out - decl - nonl, decl


class Scope:
    def __init__(self, an, node, module, kind, outer, qual):
        self.an, self.node, self.module, self.kind, self.outer, self.qual = an, node, module, kind, outer, qual
        self.names, self.globals = bound_names(node) if kind != 'module' else (set(), set())
        self.ever = set()       # names bound by live code of this scope
        self.nested = []
        self.free = []          # (name, node, scope): reads to resolve outside
        self.breaks = []
        self.trys = []


class Names:
    """issues: [(kind, module, qual, node, name)], reads: number of reads decided"""

    def __init__(self, prog):
        self.prog = prog
        self.issues = []
        self.reads = 0
        self.scopes = 0
        self.maybe = []
        self.live_nodes = []     # (stmt, Scope) of every live statement
        self.running, self.begun = {}, []
        for m in sorted(prog.modules.values(), key=lambda m: (m.name.count('.'), m.name)):
            self.module(m)
        for s in self.begun:
            self.later(s)

    # -- scopes
    def module(self, m):
        """the body of a module, run at its first import"""
        if m.name in self.running:
            return
        self.scopes += 1
        s = self.running[m.name] = Scope(self, m.tree, m, 'module', None, m.name)
        s.globs = {n for f in ast.walk(m.tree) if isinstance(f, ast.Global) for n in f.names}
        s.star = False
        self.block(s, m.tree.body, St())
        self.begun.append(s)

    def has(self, modname, attr):
        """can a module of the package have this attribute, once it has been imported"""
        s = self.running.get(modname)
        return (f'{modname}.{attr}' in self.prog.modules or attr in ('__name__', '__file__', '__doc__', '__path__', '__dict__')
                or s is not None and (s.star or attr in s.ever or attr in s.globs))

    def do_import(self, s, x):
        """names an import statement reads from modules of the package; those have to be there already"""
        def load(name):
            parts = name.split('.')
            for i in range(1, len(parts) + 1):
                m = self.prog.modules.get('.'.join(parts[:i]))
                if m is not None:
                    self.module(m)
        if isinstance(x, ast.Import):
            for a in x.names:
                load(a.name)
                if a.name.split('.')[0] == self.prog.PKG and a.name not in self.prog.modules:
                    self.issues.append(('import', s, x, a.name))
            return
        base = x.module or ''
        if x.level:
            parts = s.module.name.split('.')
            if not s.module.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (x.level - 1)]
            base = '.'.join(parts + ([x.module] if x.module else []))
        load(base)
        if base not in self.prog.modules:
            if base.split('.')[0] == self.prog.PKG:
                self.issues.append(('import', s, x, base))
            elif any(a.name == '*' for a in x.names):
                o = s
                while o.kind != 'module':
                    o = o.outer
                o.star = True
            return
        src = self.running[base]
        for a in x.names:
            self.reads += 1
            if f'{base}.{a.name}' in self.prog.modules:
                load(f'{base}.{a.name}')
            elif a.name not in src.ever and a.name not in src.globs and not src.star:
                self.issues.append(('import', s, x, f'{base}.{a.name}'))

    def later(self, s):
        """nested scopes run after their defining scope is complete"""
        for n in s.nested:
            self.function(n)

    def function(self, s):
        self.scopes += 1
        node = s.node
        params = []
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
            params.append(x.arg)
        s.ever.update(params)
        if isinstance(node, ast.Lambda):
            self.expr(s, node.body, St(params, params))
        else:
            self.block(s, node.body, St(params, params))
        self.later(s)

    def cls(self, s):
        self.scopes += 1
        self.block(s, s.node.body, St())
        # functions of a class body run later as well, they do not see its names
        s.outer.nested.extend(s.nested)
        s.nested = []

    # -- reads
    def read(self, s, name, node, st):
        self.reads += 1
        if s.kind == 'module':
            if name in st.must or name in BUILTINS or s.star:
                return
            if name in st.may:
                self.maybe.append((s, name, node))
                return
            self.issues.append(('name', s, node, name))
            return
        if name in s.names:
            if name in st.must:
                return
            if name in st.may:
                if s.kind == 'class':
                    return
                self.maybe.append((s, name, node))
                return
            if s.kind == 'class' and self.outer_has(s, name):
                return
            self.issues.append(('name', s, node, name))
            return
        if not self.outer_has(s, name):
            self.issues.append(('name', s, node, name))

    def outer_has(self, s, name):
        if name in s.globals:
            o = s
            while o.kind != 'module':
                o = o.outer
            return name in self.mod_bound(o) or o.star
        o = s.outer
        while o is not None:
            if o.kind == 'module':
                return name in self.mod_bound(o) or name in BUILTINS or o.star
            if o.kind != 'class' and name in o.names:
                return name in o.ever
            if o.kind == 'class' and name == '__class__':
                return True
            o = o.outer
        return name in BUILTINS

    def mod_bound(self, o):
        return o.ever | o.globs

    # -- expressions
    def expr(self, s, e, st):
        """-> state after"""
        if e is None or st is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(s, e.id, e, st)
            return st
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [k for k in e.args.kw_defaults if k]:
                st = self.expr(s, d, st)
            s.nested.append(Scope(self, e, s.module, 'func', s, s.qual + '.<lambda>'))
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            st = self.expr(s, e.generators[0].iter, st)
            self.comp(s, e, st)
            for x in ast.walk(e):
                if isinstance(x, ast.NamedExpr):
                    s.ever.add(x.target.id)
                    st = st.bind(x.target.id)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.expr(s, e.value, st)
            s.ever.add(e.target.id)
            return st.bind(e.target.id)
        if isinstance(e, ast.BoolOp):
            out = []
            for v in e.values:
                st = self.expr(s, v, st)
                out.append(st)
                t = self.test(s, v)
                if isinstance(e.op, ast.And) and t is False or isinstance(e.op, ast.Or) and t is True:
                    break
            return join(*out)
        if isinstance(e, ast.IfExp):
            st = self.expr(s, e.test, st)
            t = self.test(s, e.test)
            return join(self.expr(s, e.body, st) if t is not False else None, self.expr(s, e.orelse, st) if t is not True else None)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.Slice, ast.FormattedValue)):
                st = self.expr(s, c, st)
        return st

    def comp(self, s, e, st):
        """comprehension: its targets shadow, everything else is read from the enclosing scope where it stands"""
        names = set()
        for i, g in enumerate(e.generators):
            if i:
                self.comp_expr(s, g.iter, st, names)
            names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            for c in g.ifs:
                self.comp_expr(s, c, st, names)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
            self.comp_expr(s, x, st, names)

    def comp_expr(self, s, e, st, names):
        sub = Scope(self, ast.parse('0'), s.module, 'module', s, s.qual)
        sub.kind, sub.names = 'comp', set(names)
        sub.ever = set(names)
        sub.nested = s.nested
        # reads: own targets are bound, everything else as if read in s
        def walk(n):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id not in names:
                    if s.kind == 'class':
                        # only the first iterable of a comprehension sees the names of the class body
                        if not self.outer_has(s, n.id) and n.id not in BUILTINS:
                            self.issues.append(('name', s, n, n.id))
                        else:
                            self.reads += 1
                    else:
                        self.read(s, n.id, n, st)
                return
            if isinstance(n, ast.Lambda):
                sc = Scope(self, n, s.module, 'func', sub, s.qual + '.<lambda>')
                s.nested.append(sc)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                walk(n.generators[0].iter)
                inner = set(names)
                for i, g in enumerate(n.generators):
                    if i:
                        self.comp_expr(s, g.iter, st, inner)
                    inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for c in g.ifs:
                        self.comp_expr(s, c, st, inner)
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    self.comp_expr(s, x, st, inner)
                return
            for c in ast.iter_child_nodes(n):
                walk(c)
        walk(e)

    def test(self, s, e):
        return self.prog.static_test(e, s.module)

    # -- statements
    def bind_target(self, s, t, st):
        if isinstance(t, ast.Name):
            s.ever.add(t.id)
            return st.bind(t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.bind_target(s, x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.bind_target(s, t.value, st)
        return self.expr(s, t, st)

    def block(self, s, body, st):
        for x in body:
            if st is None:
                return None
            st = self.stmt(s, x, st)
            for seen in s.trys:
                if st is not None:
                    seen.append(st)
        return st

    def stmt(self, s, x, st):
        self.live_nodes.append((x, s))
        E = lambda e: self.expr(s, e, st)
        if isinstance(x, ast.Expr):
            return E(x.value)
        if isinstance(x, ast.Assign):
            st = self.expr(s, x.value, st)
            for t in x.targets:
                st = self.bind_target(s, t, st)
            return st
        if isinstance(x, ast.AugAssign):
            if isinstance(x.target, ast.Name):
                self.read(s, x.target.id, x.target, st)
            st = self.expr(s, x.value, st)
            return self.bind_target(s, x.target, st)
        if isinstance(x, ast.AnnAssign):
            if x.value is not None:
                st = self.expr(s, x.value, st)
                st = self.bind_target(s, x.target, st)
            if s.kind != 'func':
                st = self.expr(s, x.annotation, st)
            return st
        if isinstance(x, FUNC):
            for d in x.decorator_list + x.args.defaults + [k for k in x.args.kw_defaults if k]:
                st = self.expr(s, d, st)
            a = x.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]:
                if p.annotation is not None:
                    st = self.expr(s, p.annotation, st)
            if x.returns is not None:
                st = self.expr(s, x.returns, st)
            q = s.qual + '.' + x.name
            s.nested.append(Scope(self, x, s.module, 'func', s, q))
            s.ever.add(x.name)
            return st.bind(x.name)
        if isinstance(x, ast.ClassDef):
            for d in x.decorator_list + x.bases + [k.value for k in x.keywords]:
                st = self.expr(s, d, st)
            c = Scope(self, x, s.module, 'class', s, s.qual + '.' + x.name)
            self.cls(c)
            s.ever.add(x.name)
            return st.bind(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            self.do_import(s, x)
            names = [(a.asname or a.name).split('.')[0] for a in x.names]
            s.ever.update(names)
            return st.bind(*names)
        if isinstance(x, ast.If):
            st = E(x.test)
            t = self.test(s, x.test)
            return join(self.block(s, x.body, st) if t is not False else None,
                        self.block(s, x.orelse, st) if t is not True else None)
        if isinstance(x, (ast.For, ast.AsyncFor)):
            st = E(x.iter)
            st0 = st
            s.breaks.append([])
            b = self.bind_target(s, x.target, st)
            b = self.block(s, x.body, b)
            conts = [v for k, v in s.breaks[-1] if k == 'continue']
            brk = [v for k, v in s.breaks.pop() if k == 'break']
            end = join(b, *conts)
            if end is None and not brk:
                return self.block(s, x.orelse, st0)
            # a loop over nothing is taken to run once: see the interpreter for those
            after = self.block(s, x.orelse, end if end is not None else St(st0.may, st0.must))
            r = join(after, *brk)
            return r and St(r.may | st0.may, r.must)
        if isinstance(x, ast.While):
            t = self.test(s, x.test)
            st = E(x.test)
            s.breaks.append([])
            b = self.block(s, x.body, st) if t is not False else None
            conts = [v for k, v in s.breaks[-1] if k == 'continue']
            brk = [v for k, v in s.breaks.pop() if k == 'break']
            end = join(b, *conts) or st
            if t is True:
                return join(*brk)
            return join(self.block(s, x.orelse, end), *brk)
        if isinstance(x, (ast.With, ast.AsyncWith)):
            sup = False
            for i in x.items:
                st = self.expr(s, i.context_expr, st)
                c = i.context_expr
                f = c.func if isinstance(c, ast.Call) else c
                sup = sup or (f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')) == 'suppress'
                if i.optional_vars is not None:
                    st = self.bind_target(s, i.optional_vars, st)
            out = self.block(s, x.body, st)
            return join(out, St(out.may if out else st.may, st.must)) if sup else out
        if isinstance(x, ast.Try) or x.__class__.__name__ == 'TryStar':
            seen = []
            s.trys.append(seen)
            b = self.block(s, x.body, st)
            s.trys.pop()
            for up in s.trys:
                up.extend(seen)
            h0 = join(St(st.may, st.must), *seen)
            h0 = St(h0.may, frozenset.intersection(st.must, *[v.must for v in seen]) if seen else st.must)
            b = self.block(s, x.orelse, b) if b is not None else None
            outs = [b]
            for h in x.handlers:
                hs = self.expr(s, h.type, h0)
                if h.name:
                    s.ever.add(h.name)
                    hs = hs.bind(h.name)
                o = self.block(s, h.body, hs)
                if o is not None and h.name:
                    o = o.drop(h.name)
                outs.append(o)
            out = join(*outs)
            if x.finalbody:
                allst = join(h0, out)
                f = self.block(s, x.finalbody, out if out is not None else h0)
                return f if out is not None else None
            return out
        if isinstance(x, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(x):
                self.expr(s, c, st)
            return None
        if isinstance(x, (ast.Break, ast.Continue)):
            if s.breaks:
                s.breaks[-1].append(('break' if isinstance(x, ast.Break) else 'continue', st))
            return None
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    self.read(s, t.id, t, st)
                    st = st.drop(t.id)
                else:
                    st = self.expr(s, t, st)
            return st
        if isinstance(x, ast.Assert):
            return E(x.test)
        if isinstance(x, ast.Match):
            st = E(x.subject)
            outs = [st]
            for c in x.cases:
                cs = st
                for p in ast.walk(c.pattern):
                    n = getattr(p, 'name', None) if isinstance(p, (ast.MatchAs, ast.MatchStar)) else getattr(p, 'rest', None) if isinstance(p, ast.MatchMapping) else None
                    if n:
                        s.ever.add(n)
                        cs = cs.bind(n)
                cs = self.expr(s, c.guard, cs)
                outs.append(self.block(s, c.body, cs))
            return join(*outs)
        return st


def own_exprs(x):
    """expressions of a statement itself, not of the statements inside it"""
    for f, v in ast.iter_fields(x):
        for c in v if isinstance(v, list) else [v]:
            if isinstance(c, ast.expr):
                yield c
            elif isinstance(c, (ast.withitem, ast.keyword, ast.arguments)):
                yield from (y for y in ast.iter_child_nodes(c) if isinstance(y, ast.expr))
            elif isinstance(c, ast.ExceptHandler) and c.type is not None:
                yield c.type


def pruned(e, test):
    """sub-expressions, without the side of a conditional that the configuration rules out"""
    yield e
    if isinstance(e, ast.IfExp):
        t = test(e.test)
        yield from pruned(e.test, test)
        if t is not False:
            yield from pruned(e.body, test)
        if t is not True:
            yield from pruned(e.orelse, test)
        return
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from pruned(v, test)
            t = test(v)
            if isinstance(e.op, ast.And) and t is False or isinstance(e.op, ast.Or) and t is True:
                return
        return
    for c in ast.iter_child_nodes(e):
        yield from pruned(c, test)


class Attrs:
    """attributes read from modules of the package, from self, cls and super(), and properties that are assigned to"""

    def __init__(self, names):
        self.n, self.prog = names, names.prog
        self.issues, self.reads = [], 0
        self.families = {}
        self.stored = set()      # attribute names a statement of the package stores on other objects, or tests for
        self.self_stored = {}    # class -> attribute names its methods store on their first parameter
        mine = {}
        for f in self.prog.funcs.values():
            if f.cls is not None and f.node.args.args:
                me = f.node.args.args[0].arg
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        mine[x] = 1
                        self.self_stored.setdefault(f.cls.qual, set()).add(x.attr)
        for m in self.prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    if x not in mine:
                        self.stored.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr', 'setattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    if x.func.id != 'getattr' or len(x.args) > 2:
                        self.stored.add(x.args[1].value)
        self.subs = {}
        for c in self.prog.classes.values():
            for k in c.mro():
                self.subs.setdefault(getattr(k, 'qual', k), []).append(c)
        self.opaque = {}
        for st, s in names.live_nodes:
            test = lambda e, s=s: self.prog.static_test(e, s.module)
            for top in own_exprs(st):
                for e in pruned(top, test):
                    if isinstance(e, ast.Attribute):
                        self.attr(s, e, st)

    def method(self, s):
        """(Func, name of its first parameter) of the method this scope is, or is nested in"""
        while s is not None and s.kind != 'module':
            f = self.prog.func_by_node.get(s.node)
            if f is not None and f.cls is not None and f.kind in ('method', 'class') and f.node.args.args:
                return f, f.node.args.args[0].arg
            s = s.outer
        return None, None

    def family(self, cls):
        """every class whose instances can run the methods of cls"""
        return self.subs.get(cls.qual, []) + ([] if cls in self.subs.get(cls.qual, []) else [cls])

    def ext_known(self, k):
        import importlib
        if k in ('object', 'Exception', 'BaseException') or '.' not in k:
            return getattr(builtins, k, None)
        mod, _, n = k.rpartition('.')
        try:
            if mod.split('.')[0] not in ('pathlib', 'zipfile', 'datetime', 'collections', 'json', 'io', 'ctypes', 'enum'):
                return None
            return getattr(importlib.import_module(mod), n, None)
        except Exception:
            return None

    def has(self, cls, name):
        """True / False / None: attribute of instances of cls"""
        for k in cls.mro():
            if isinstance(k, Class):
                if name in k.attrs or '__getattr__' in k.attrs or '__getattribute__' in k.attrs or name in self.self_stored.get(k.qual, ()):
                    return True
            else:
                x = self.ext_known(k)
                if x is None:
                    return None
                if hasattr(x, name):
                    return True
        return hasattr(object, name) or name in ('__dict__', '__name__', '__qualname__', '__mro__', 'mro', '__module__', '__bases__', '__subclasses__')

    def attr(self, s, e, st):
        b = e.value
        if isinstance(b, ast.Name):
            f, me = self.method(s)
            if f is not None and b.id == me and not self.shadowed(s, b.id, f):
                return self.own(s, f, e, st)
            if b.id in s.names and s.kind != 'module':
                return
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
            return self.sup(s, e)
        if isinstance(b, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(b, s.module)
            if isinstance(b, ast.Name) and self.local(s, b.id):
                return
            if isinstance(r, Module):
                self.reads += 1
                if isinstance(e.ctx, ast.Load) and not self.n.has(r.name, e.attr):
                    self.issues.append(('module attribute', s, e, f'{r.name}.{e.attr}'))
            elif isinstance(r, ModRef):
                self.reads += 1
                x = self.std(r.name)
                if x is False:
                    self.issues.append(('module attribute', s, e, r.name))
                elif x is not None and not hasattr(x, e.attr) and f'{r.name}.{e.attr}' not in self.assigned(s):
                    self.issues.append(('module attribute', s, e, f'{r.name}.{e.attr}'))
            elif isinstance(r, Class) and isinstance(e.ctx, ast.Load):
                self.reads += 1
                if self.has(r, e.attr) is False and e.attr not in self.stored:
                    self.issues.append(('class attribute', s, e, f'{r.qual}.{e.attr}'))

    def assigned(self, s):
        """attributes the package itself puts into external modules"""
        if not hasattr(self, '_assigned'):
            self._assigned = set()
            for m in self.prog.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        r = self.prog.resolve_expr(x.value, m)
                        if isinstance(r, ModRef):
                            self._assigned.add(f'{r.name}.{x.attr}')
        return self._assigned

    def std(self, name):
        """the object of the standard library; None: not known here, False: there is none"""
        import importlib
        import sys
        c = self.prog.config
        top = name.split('.')[0]
        if c.name != 'linux-py3.12' or sys.version_info[:2] != (3, 12) or top not in sys.stdlib_module_names or top in ('winreg', 'ctypes', 'msvcrt', 'nt'):
            return None
        parts = name.split('.')
        obj = None
        for i, x in enumerate(parts):
            try:
                obj = importlib.import_module('.'.join(parts[:i + 1]))
            except ImportError:
                if obj is None:
                    return None
                if not hasattr(obj, x):
                    return False
                obj = getattr(obj, x)
                if not isinstance(obj, (type, type(sys))):
                    return None if i < len(parts) - 1 else obj
        return obj

    def local(self, s, name):
        while s is not None and s.kind != 'module':
            if s.kind != 'class' and name in s.names:
                return True
            s = s.outer
        return False

    def shadowed(self, s, name, f):
        """between the use and the method, or in the method, the first parameter is bound to something else"""
        while s.node is not f.node:
            if name in s.names:
                return True
            s = s.outer
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(f.node))

    def paths(self, c):
        return any(not isinstance(k, Class) and k.startswith('pathlib.') for k in c.mro())

    def mixed(self, c):
        """mixed with other classes when the classes for a platform are made: helpers, and what a helper completes"""
        return c.name.endswith('Helper') or any(isinstance(k, Class) and k.name.endswith('Helper') for k in c.mro())

    def loose(self):
        if not hasattr(self, '_loose'):
            self._loose = [c for c in self.prog.classes.values() if c.name.endswith('Helper')] + [c for c in self.prog.classes.values() if c.name == 'AugmentedPath']
        return self._loose

    def runs_on(self, f):
        """classes whose instances run this very function"""
        out = []
        for d in self.family(f.cls):
            for n, v in f.cls.attrs.items():
                if v is f or isinstance(v, Prop) and f in (v.getter, v.setter, v.deleter):
                    _, w = d.lookup(n)
                    if w is v or isinstance(w, (Alias, Prop)):
                        out.append(d)
                        break
            else:
                out.append(d)
        return out

    def own(self, s, f, e, st):
        self.reads += 1
        fam = self.family(f.cls)
        if isinstance(e.ctx, ast.Load):
            if e.attr in self.stored:
                return
            got = [self.has(d, e.attr) for d in fam]
            if not any(x is not False for x in got) and self.mixed(f.cls):
                got = [self.has(d, e.attr) for d in self.loose()]
            if not any(x is not False for x in got):
                self.issues.append(('own attribute', s, e, f'{f.cls.qual}: {e.attr}'))
        elif isinstance(e.ctx, ast.Store) and f.kind == 'method':
            for d in self.runs_on(f):
                o, v = d.lookup(e.attr)
                if isinstance(v, Prop) and v.setter is None and '__setattr__' not in d.attrs:
                    self.issues.append(('property without setter', s, e, f'{d.qual}.{e.attr}'))
                    return

    def sup(self, s, e):
        while s is not None and s.kind != 'module':
            f = self.prog.func_by_node.get(s.node)
            if f is not None and f.cls is not None:
                break
            s = s.outer
        else:
            return
        self.reads += 1
        if e.attr in self.stored:
            return
        got = []
        for d in self.family(f.cls):
            m = d.mro()
            rest = m[m.index(f.cls) + 1:] if f.cls in m else m[1:]
            for k in rest:
                x = k if isinstance(k, Class) else self.ext_known(k)
                if isinstance(k, Class) and (e.attr in k.attrs or '__getattr__' in k.attrs) or x is None or not isinstance(k, Class) and hasattr(x, e.attr):
                    got.append(True)
                    break
            else:
                got.append(hasattr(object, e.attr))
        if not any(got):
            self.issues.append(('attribute of super()', s, e, f'{f.cls.qual}: {e.attr}'))
