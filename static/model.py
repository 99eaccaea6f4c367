"""Program model of the analysed package: modules, classes, functions, resolved
for one configuration (platform, python version).  Nothing is imported or run."""
import ast
import builtins
import errno as _errno
import pathlib
from desugar import desugar


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unsupported construct)."""


class Config:
    def __init__(self, name, os_name='posix', platform='linux', version=(3, 12, 3)):
        self.name, self.os_name, self.platform, self.version = name, os_name, platform, version

    def ext_value(self, name):
        """value of an external constant, or KeyError"""
        if name == 'sys.version_info':
            return self.version
        if name == 'os.name':
            return self.os_name
        if name == 'sys.platform':
            return self.platform
        if name in ('os.R_OK', 'os.W_OK', 'os.X_OK', 'os.F_OK'):
            return {'os.R_OK': 4, 'os.W_OK': 2, 'os.X_OK': 1, 'os.F_OK': 0}[name]
        if name.startswith('errno.'):
            e = name[6:]
            if e == 'ENOATTR':
                if self.platform == 'darwin':
                    return 93
                raise KeyError(name)
            return getattr(_errno, e)
        if name.startswith('os.O_'):
            import os
            return getattr(os, name[3:])
        raise KeyError(name)


LINUX = Config('linux-py3.12')
CONFIGS = {
    'linux-py3.12': LINUX,
    'linux-py3.11': Config('linux-py3.11', version=(3, 11, 4)),
    'linux-py3.9': Config('linux-py3.9', version=(3, 9, 18)),
    'darwin-py3.12': Config('darwin-py3.12', platform='darwin'),
    'nt-py3.12': Config('nt-py3.12', os_name='nt', platform='win32'),
    'nt-py3.11': Config('nt-py3.11', os_name='nt', platform='win32', version=(3, 11, 4)),
}

# external class hierarchy (name -> direct bases), only what matters
EXT_BASES = {
    'pathlib.PosixPath': ['pathlib.Path', 'pathlib.PurePosixPath'],
    'pathlib.WindowsPath': ['pathlib.Path', 'pathlib.PureWindowsPath'],
    'pathlib.Path': ['pathlib.PurePath'],
    'pathlib.PurePosixPath': ['pathlib.PurePath'],
    'pathlib.PureWindowsPath': ['pathlib.PurePath'],
    'pathlib.PurePath': ['object'],
}


class Func:
    def __init__(self, qual, node, module, cls=None, kind='func', outer=None):
        self.qual, self.node, self.module, self.cls, self.kind = qual, node, module, cls, kind
        self.outer = outer
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]
        self.is_gen = is_generator(node)
        self.is_ctxmgr = any(d.split('.')[-1] == 'contextmanager' for d in self.decorators)

    def __repr__(self):
        return f'<Func {self.qual}>'

    @property
    def where(self):
        return f'{self.module.path}:{self.node.lineno}'


class Prop:
    def __init__(self, getter=None, setter=None, deleter=None):
        self.getter, self.setter, self.deleter = getter, setter, deleter

    def __repr__(self):
        return f'<Prop {self.getter} {self.setter}>'


class Alias:
    """class attribute or global whose value is an expression"""
    def __init__(self, expr, module, cls=None):
        self.expr, self.module, self.cls = expr, module, cls


class Class:
    def __init__(self, qual, name, module, node=None, bases=()):
        self.qual, self.name, self.module, self.node, self.bases = qual, name, module, node, list(bases)
        self.attrs = {}
        self._mro = None

    def __repr__(self):
        return f'<Class {self.qual}>'

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def lookup(self, name, after=None):
        """-> (owner, value) ; owner may be an external class name (value None)"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, Class):
                if name in c.attrs:
                    return c, c.attrs[name]
            elif c != 'object' and ext_has(c, name):
                return c, None
        return None, None

    def isa(self, other):
        """other: Class or external name"""
        return other in self.mro()


def ext_has(cname, name):
    import importlib
    mod, _, c = cname.rpartition('.')
    try:
        cls = getattr(importlib.import_module(mod), c)
    except Exception:
        return False
    return name in vars(cls)


def _ext_mro(name):
    out, todo = [], [name]
    while todo:
        n = todo.pop(0)
        if n not in out:
            out.append(n)
            todo += EXT_BASES.get(n, ['object'] if n != 'object' else [])
    return out


def c3(c):
    if isinstance(c, str):
        b = getattr(builtins, c, None)
        if isinstance(b, type):
            return [k.__name__ for k in b.__mro__]
        m = _ext_mro(c)
        if 'object' in m:
            m.remove('object')
            m.append('object')
        return m
    bases = c.bases or ['object']
    seqs = [list(c3(b)) for b in bases] + [list(bases)]
    out = [c]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise AnalysisError(f'no consistent mro for {c}')
        out.append(cand)
        for s in seqs:
            if s and s[0] == cand:
                del s[0]
    return out


def is_generator(node):
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.ns = {}
        self.global_writes = set()  # names declared global in functions

    def __repr__(self):
        return f'<Module {self.name}>'


class ModRef:
    """reference to an external (or internal) module or external object"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<Ref {self.name}>'

    def __eq__(self, o):
        return isinstance(o, ModRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Program:
    PKG = 'augpathlib'

    def __init__(self, root, config=LINUX):
        self.root = pathlib.Path(root)
        self.config = config
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.func_by_node = {}
        self.live = {}       # id(stmt) -> reachable under the config, module/class level
        pkg = self.root / self.PKG
        if not pkg.is_dir():
            raise AnalysisError(f'package directory {pkg} is missing')
        for p in sorted(pkg.rglob('*.py')):
            rel = p.relative_to(self.root).with_suffix('')
            name = '.'.join(rel.parts)
            if name.endswith('.__init__'):
                name = name[:-9]
            src = p.read_text(encoding='utf-8')
            try:
                tree = desugar(ast.parse(src, str(p)))
            except SyntaxError as e:
                raise AnalysisError(f'{p}: {e}')
            self.modules[name] = Module(name, str(p.relative_to(self.root)), tree, src)
        self._class_nodes = {}
        for m in self.modules.values():
            self._walk_module(m)
        for m in self.modules.values():
            self._post_module(m)
        for c in self.classes.values():
            self._resolve_bases(c)
        self.subclasses = {}

    # -- namespaces ------------------------------------------------------
    def _walk_module(self, m):
        self._block(m, m.tree.body, None)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.global_writes.update(n.names)

    def _block(self, m, body, cls):
        ns = m.ns if cls is None else cls.attrs
        for st in body:
            if isinstance(st, ast.If):
                v = self.static_test(st.test, m)
                if v is not False:
                    self._block(m, st.body, cls)
                if v is not True:
                    self._block(m, st.orelse, cls)
            elif isinstance(st, ast.Try):
                self._block(m, st.body, cls)
                self._block(m, st.orelse, cls)
                for h in st.handlers:
                    saved = dict(ns)
                    self._block(m, h.body, cls)
                    for k in list(ns):   # handlers only add names
                        if k in saved:
                            ns[k] = saved[k]
                self._block(m, st.finalbody, cls)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                if isinstance(st, ast.For):
                    for t in ast.walk(st.target):
                        if isinstance(t, ast.Name):
                            ns[t.id] = Alias(None, m, cls)
                self._block(m, st.body, cls)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._def(m, st, cls, ns)
            elif isinstance(st, ast.ClassDef):
                qual = (cls.qual if cls else m.name) + '.' + st.name
                c = Class(qual, st.name, m, st)
                ns[st.name] = c
                self.classes.setdefault(qual, c)
                self.classes[qual] = c
                self._block(m, st.body, c)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        ns[a.asname] = ModRef(a.name)
                    else:
                        ns[a.name.split('.')[0]] = ModRef(a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    ns[a.asname or a.name] = ModRef(base + '.' + a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._assign(m, cls, ns, t, st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self._assign(m, cls, ns, st.target, st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                old = ns.get(st.target.id)
                if isinstance(old, Alias) and old.expr is not None:
                    e = ast.BinOp(left=old.expr, op=st.op, right=st.value)
                    ast.copy_location(e, st)
                    ns[st.target.id] = Alias(e, m, cls)

    def _assign(self, m, cls, ns, t, value):
        if isinstance(t, ast.Name):
            ns[t.id] = Alias(value, m, cls)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for tt, vv in zip(t.elts, vals):
                self._assign(m, cls, ns, tt, vv)

    def _def(self, m, st, cls, ns):
        qual = (cls.qual if cls else m.name) + '.' + st.name
        decs = [ast.unparse(d) for d in st.decorator_list]
        kind = 'func'
        if cls is not None:
            kind = 'method'
            if 'staticmethod' in decs:
                kind = 'static'
            elif 'classmethod' in decs:
                kind = 'class'
            elif st.name in ('__new__', '__init_subclass__', '__class_getitem__'):
                kind = 'static' if st.name == '__new__' else 'class'
        f = Func(qual, st, m, cls, kind)
        self.func_by_node[st] = f
        for d in decs:
            if d in ('property', 'functools.cached_property', 'cached_property'):
                ns[st.name] = Prop(getter=f)
                self.funcs[qual] = f
                return
            if d.endswith('.setter'):
                p = ns.get(d[:-7])
                if isinstance(p, Prop):
                    f.qual = qual + '.setter'
                    ns[st.name] = Prop(p.getter, f, p.deleter)
                    self.funcs[f.qual] = f
                    return
            if d.endswith('.deleter'):
                p = ns.get(d[:-8])
                if isinstance(p, Prop):
                    f.qual = qual + '.deleter'
                    ns[st.name] = Prop(p.getter, p.setter, f)
                    self.funcs[f.qual] = f
                    return
        ns[st.name] = f
        self.funcs[qual] = f

    def _post_module(self, m):
        """module level stores on classes: ``X.attr = value``"""
        def walk(body):
            for st in body:
                if isinstance(st, ast.If):
                    v = self.static_test(st.test, m)
                    if v is not False:
                        walk(st.body)
                    if v is not True:
                        walk(st.orelse)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Attribute):
                            c = self.resolve_expr(t.value, m)
                            if isinstance(c, Class):
                                c.attrs[t.attr] = Alias(st.value, m, None)
        walk(m.tree.body)

    def _resolve_bases(self, c):
        if c.node is None:
            return
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(b, c.module, c)
            if isinstance(r, Class):
                out.append(r)
            elif isinstance(r, ModRef):
                out.append(r.name)
            elif isinstance(b, ast.Name) and hasattr(builtins, b.id):
                out.append(b.id)
            else:
                out.append('?' + ast.unparse(b))
        c.bases = out

    # -- static resolution --------------------------------------------------
    def get_module(self, name):
        return self.modules.get(name)

    def resolve_ref(self, ref, depth=0):
        """follow a ModRef into the package; returns Module/Class/Func/Alias/ModRef"""
        if depth > 8:
            return ref
        name = ref.name
        if name in self.modules:
            return self.modules[name]
        mod, _, attr = name.rpartition('.')
        if mod in self.modules:
            b = self.modules[mod].ns.get(attr)
            if b is None:
                return ref
            if isinstance(b, ModRef):
                return self.resolve_ref(b, depth + 1)
            return b
        return ref

    def resolve_name(self, name, m):
        b = m.ns.get(name)
        if isinstance(b, ModRef):
            return self.resolve_ref(b)
        return b

    def _class_scope(self, cls, e):
        """a class body name, visible only below its definition"""
        b = cls.attrs.get(e.id) if cls is not None else None
        if b is None:
            return None
        n = (b.expr if isinstance(b, Alias) else b.node if isinstance(b, (Func, Class)) else
             b.getter.node if isinstance(b, Prop) and b.getter else None)
        if n is not None and getattr(e, 'lineno', 1 << 30) <= n.lineno and n is not e:
            return None
        return b

    def resolve_expr(self, e, m, cls=None, depth=0):
        """-> Class/Func/Prop/Module/ModRef/Alias or None"""
        if depth > 10:
            return None
        if isinstance(e, ast.Name):
            b = self._class_scope(cls, e)
            if b is None:
                b = self.resolve_name(e.id, m)
        elif isinstance(e, ast.Attribute):
            base = self.resolve_expr(e.value, m, cls, depth + 1)
            if isinstance(base, Module):
                b = base.ns.get(e.attr)
                if b is None and base.name + '.' + e.attr in self.modules:
                    b = self.modules[base.name + '.' + e.attr]
            elif isinstance(base, ModRef):
                b = ModRef(base.name + '.' + e.attr)
            elif isinstance(base, Class):
                _, b = base.lookup(e.attr) if base.bases or base.node is None else (None, base.attrs.get(e.attr))
            else:
                return None
            if isinstance(b, ModRef):
                b = self.resolve_ref(b)
        elif isinstance(e, ast.IfExp):
            v = self.static_test(e.test, m)
            if v is None:
                return None
            return self.resolve_expr(e.body if v else e.orelse, m, cls, depth + 1)
        else:
            return None
        if isinstance(b, Alias) and b.expr is not None and isinstance(b.expr, (ast.Name, ast.Attribute, ast.IfExp)):
            r = self.resolve_expr(b.expr, b.module, b.cls, depth + 1)
            return r if r is not None else b
        return b

    def const(self, e, m, cls=None, depth=0):
        """constant-fold an expression; raises KeyError when not constant"""
        if depth > 12:
            raise KeyError
        rec = lambda x: self.const(x, m, cls, depth + 1)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.extend(rec(x.value))
                else:
                    out.append(rec(x))
            return tuple(out)
        if isinstance(e, ast.Set):
            return frozenset(rec(x) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            v = rec(e.operand)
            return {ast.Not: lambda: not v, ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(e.op)]()
        if isinstance(e, ast.BoolOp):
            vals = []
            for x in e.values:
                v = rec(x)
                if isinstance(e.op, ast.And) and not v or isinstance(e.op, ast.Or) and v:
                    return v
                vals.append(v)
            return vals[-1]
        if isinstance(e, ast.BinOp):
            l, r = rec(e.left), rec(e.right)
            try:
                return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r,
                        ast.LShift: lambda: l << r, ast.BitOr: lambda: l | r, ast.Mod: lambda: l % r,
                        ast.Pow: lambda: l ** r, ast.Div: lambda: l / r, ast.FloorDiv: lambda: l // r}[type(e.op)]()
            except (TypeError, ValueError, ZeroDivisionError):
                raise KeyError
        if isinstance(e, ast.Compare):
            l = rec(e.left)
            for op, c in zip(e.ops, e.comparators):
                r = rec(c)
                try:
                    ok = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r,
                          ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r,
                          ast.In: lambda: l in r, ast.NotIn: lambda: l not in r,
                          ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r}[type(op)]()
                except TypeError:
                    raise KeyError
                if not ok:
                    return False
                l = r
            return True
        if isinstance(e, ast.IfExp):
            return rec(e.body) if rec(e.test) else rec(e.orelse)
        if isinstance(e, ast.Subscript):
            v, i = rec(e.value), rec(e.slice) if not isinstance(e.slice, ast.Slice) else slice(
                *[None if x is None else rec(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            try:
                return v[i]
            except (TypeError, IndexError):
                raise KeyError
        if isinstance(e, ast.JoinedStr):
            raise KeyError
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = None
            if isinstance(e, ast.Name):
                r = self._class_scope(cls, e)
            if r is None:
                r = self.resolve_expr(e, m, cls)
            if isinstance(r, ModRef):
                return self.config.ext_value(r.name)
            if isinstance(r, Alias) and r.expr is not None:
                if isinstance(r.expr, (ast.Dict, ast.ListComp)):
                    raise KeyError
                return self.const(r.expr, r.module, r.cls, depth + 1)
            raise KeyError
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func)
            if f in ('tuple', 'list', 'frozenset', 'set') and len(e.args) == 1 and not e.keywords:
                v = rec(e.args[0])
                return frozenset(v) if 'set' in f else tuple(v)
            if f in ('tuple', 'frozenset', 'set') and not e.args:
                return frozenset() if 'set' in f else ()
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'encode' and not e.args:
                return rec(e.func.value).encode()
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('startswith', 'endswith') and len(e.args) == 1:
                v = rec(e.func.value)
                if isinstance(v, str):
                    return getattr(v, e.func.attr)(rec(e.args[0]))
        raise KeyError

    def static_test(self, e, m, cls=None):
        """-> True / False / None (unknown)"""
        try:
            return bool(self.const(e, m, cls))
        except (KeyError, AttributeError):
            return None
        except RecursionError:
            return None

    def func(self, qual):
        """Func by short qualname 'core.AugmentedPath.rmtree'; raises when gone"""
        full = self.PKG + '.' + qual
        f = self.funcs.get(full)
        if f is None:
            c, _, n = full.rpartition('.')
            k = self.classes.get(c)
            if k is not None and n in k.attrs:
                v = k.attrs[n]
                if isinstance(v, Alias) and v.expr is not None:
                    v = self.resolve_expr(v.expr, v.module, v.cls or k)
                if isinstance(v, Func):
                    return v
                if isinstance(v, Prop):
                    return v.getter
        if f is None:
            raise AnalysisError(f'anchor {qual} is missing')
        return f

    def cls(self, qual):
        c = self.classes.get(self.PKG + '.' + qual)
        if c is None:
            raise AnalysisError(f'anchor class {qual} is missing')
        return c

    def synth(self, name, bases):
        c = Class('synthetic.' + name, name, None, None, bases)
        return c
