"""Rules about the package as a whole: names, debuggers, handlers, descriptors, exceptions, signatures."""
import ast
import json
import pathlib
from ctx import *
from scopes import Names, Attrs, own_exprs, pruned, FUNC
from model import Module, ModRef

HERE = pathlib.Path(__file__).resolve().parent
EVERY = ('linux-py3.12', 'linux-py3.11', 'linux-py3.9', 'darwin-py3.12', 'nt-py3.12', 'nt-py3.11')
# what only exists for one kind of platform
ONLY = {'core.ADSHelper': 'nt', 'pyads': 'nt', 'utils.machine_guid': 'nt', 'core.XattrHelper': 'posix', 'utils.sysidpath': 'posix',
        'remotes.SshRemote': 'posix', 'caches.SshCache': 'posix', 'core.XopenWindowsHelper': 'nt', 'core.XopenPosixHelper': 'posix'}


def scope_name(s):
    q = s.qual
    return q[len('augpathlib.'):] if q.startswith('augpathlib.') else q


def private(n):
    return n.startswith('_') and not n.endswith('__')


def referenced(names, os_name='posix'):
    """names the live statements mention as a variable or an attribute; a private function that nothing mentions mentions nothing"""
    by = {}
    for st, s in names.live_nodes:
        out = by.setdefault(s.qual if s.kind == 'func' else '', (s, set()))[1] if s.kind == 'func' else by.setdefault('', (None, set()))[1]
        for top in own_exprs(st):
            for e in ast.walk(top):
                if isinstance(e, ast.Name):
                    out.add(e.id)
                elif isinstance(e, ast.Attribute):
                    out.add(e.attr)
                elif isinstance(e, ast.Constant) and isinstance(e.value, str):
                    out.add(e.value)
    used, todo = set(), True
    while todo:
        todo = False
        for k, (s, ns) in list(by.items()):
            x, dead = s, s is not None and foreign(scope_name(s), os_name)
            while x is not None and x.kind != 'module':
                n = getattr(x.node, 'name', '')
                dead = dead or x.kind == 'func' and private(n) and n not in used
                x = x.outer
            if not dead:
                used |= ns
                del by[k]
                todo = True
    return used


def foreign(q, os_name):
    return any((q == k or q.startswith(k + '.')) and v != os_name for k, v in ONLY.items())


def elsewhere(ctx, s, used):
    """is this scope code for another platform, or never called under this configuration"""
    q = scope_name(s)
    if foreign(q, ctx.config.os_name):
        return True
    x = s
    while x is not None and x.kind != 'module':
        n = getattr(x.node, 'name', '')
        if x.kind == 'func' and private(n) and n not in used:
            return True
        x = x.outer
    return False


_cache = {}


def resolved(ctx):
    if _cache.get('prog') is not ctx.prog:
        n = Names(ctx.prog)
        _cache.update(prog=ctx.prog, got=(n, Attrs(n)))
    return _cache['got']


def anywhere(ctx, name, module):
    """some configuration binds the module level name"""
    from model import CONFIGS, Program
    for c in CONFIGS.values():
        if c is not ctx.config and name in Program(ctx.prog.root, c).modules[module].ns:
            return True
    return False


@rule('P39', configs=EVERY)
def p39(ctx):
    """Structured forward dataflow of bound names over every live scope of the package, with the import order simulated, under six configurations; attributes of
    modules, of self, of super() and assignments to properties are resolved over the class hierarchy.  Where a local is bound on some ways only, the paths of
    the function are interpreted to see whether an unbound one exists."""
    names, attrs = resolved(ctx)
    used = referenced(names, ctx.config.os_name)
    ctx.obl['names are bound'] += names.reads
    ctx.obl['attributes exist'] += attrs.reads
    for m in ctx.prog.modules.values():
        ctx.modules.add(m.path)
    ctx.functions |= {s.qual for _, s in names.live_nodes if s.kind == 'func'}
    for kind, s, node, name in names.issues:
        if elsewhere(ctx, s, used):
            continue
        if kind == 'name' and s.kind == 'func' and s.qual not in ctx.inventory and ctx.config.name != 'linux-py3.12' and anywhere(ctx, name, s.module.name):
            continue    # a new helper of something that is only for one platform
        if kind == 'name' and s.kind == 'func' and s.qual not in ctx.inventory and anywhere(ctx, name, s.module.name):
            by = [o for o in callers(names, s.node.name) if o.qual != s.qual]
            by = [o for o in by if o.module is s.module] or by
            if by and all(elsewhere(ctx, o, used) for o in by):
                continue
        where = f'{s.module.path}:{node.lineno}'
        if kind == 'import':
            ctx.violate('imports find their names', f'{scope_name(s)}: {name}', f'{name} does not exist when it is imported', where)
        else:
            ctx.violate('names are bound', f'{scope_name(s)}: {name}', f'nothing binds {name}', where)
    for kind, s, node, name in attrs.issues:
        if elsewhere(ctx, s, used):
            continue
        if ctx.config.version < (3, 12) and name.rpartition('.')[2].rpartition(' ')[2].startswith('_'):
            continue    # private parts of an older pathlib than the one at hand
        ctx.violate('properties that are assigned to have a setter' if kind == 'property without setter' else 'attributes exist', f'{scope_name(s)}: {name}',
                    {'property without setter': f'{name} is a property without a setter'}.get(kind, f'{kind} {name} does not exist'), f'{s.module.path}:{node.lineno}')
    # __all__
    for m in ctx.prog.modules.values():
        al = m.ns.get('__all__')
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in x.targets):
                for c in ast.walk(x.value):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        ctx.check(names.has(m.name, c.value), '__all__ is published', f'{m.name}: {c.value}', f'{c.value} is in __all__ but not in {m.name}', f'{m.path}:{c.lineno}')
    # handlers and raises name exception classes
    for st, s in names.live_nodes:
        if elsewhere(ctx, s, used):
            continue
        for e in ([h.type for h in st.handlers if h.type is not None] if isinstance(st, ast.Try) else [st.exc] if isinstance(st, ast.Raise) and st.exc is not None else []):
            for t in (e.elts if isinstance(e, ast.Tuple) else [e]):
                t = t.func if isinstance(t, ast.Call) else t
                if isinstance(t, (ast.Name, ast.Attribute)) and not (isinstance(t, ast.Name) and s.kind != 'module' and attrs.local(s, t.id)):
                    r = ctx.prog.resolve_expr(t, s.module)
                    if isinstance(r, Class):
                        ctx.check(is_exception(r), 'exceptions are exceptions', f'{scope_name(s)}: {r.name}', f'{r.qual} is not an exception class', f'{s.module.path}:{t.lineno}')
    if ctx.config.name != 'linux-py3.12':
        return
    # locals bound on some ways only
    todo = {}
    for s, name, node in names.maybe:
        f = ctx.prog.func_by_node.get(s.node)
        if f is None or elsewhere(ctx, s, used):
            continue
        todo.setdefault(f.qual, (f, set()))[1].add(name)
    for f, ns in todo.values():
        ctx.obl['locals are bound on every path'] += len(ns)
        try:
            ps = ctx.run(f, recv=f.cls and ctx.short(f.cls.qual) if f.cls else None, raises='try')
        except AnalysisError:
            continue
        for p in ps:
            if any(x[2] == 'zero' for x in p.loops()):
                continue
            for v in [p.val] * p.rai + [h[2] for h in p.handled()]:
                if isinstance(v, tuple) and v[:1] == ('newexc',) and 'UnboundLocalError' in v[1]:
                    ctx.violate('locals are bound on every path', f'{ctx.short(f)}: {v[2][0][2]}', f'{v[2][0][2]} may be unbound', f.where, p)


def is_exception(c):
    for k in c.mro():
        n = getattr(k, 'name', k)
        if not isinstance(n, str):
            continue
        n = n.rpartition('.')[2]
        if n in ('Exception', 'BaseException') or n.endswith(('Error', 'Exception', 'Warning')) and not isinstance(k, Class):
            return True
    return any(not isinstance(k, Class) and k.startswith('?') for k in c.mro())


DEBUGGERS = {'pdb', 'ipdb', 'pudb', 'bdb', 'wdb', 'rpdb', 'IPython', 'code', 'codeop', 'trepan', 'pdbpp', 'bpython', 'getpass', 'ptpython', 'remote_pdb', 'debugpy', 'pydevd'}
CALLS = {'breakpoint', 'input'}
PARTS = {'set_trace', 'post_mortem', 'breakpointhook', 'stdin', 'interact', 'embed', 'settrace', 'runcall', 'runeval', '__stdin__'}


def interactive(prog, module, e):
    """the construct of an expression or statement that leads to a debugger or to the terminal"""
    if isinstance(e, (ast.Import, ast.ImportFrom)):
        for a in e.names:
            n = a.name if isinstance(e, ast.Import) else f'{e.module or ""}.{a.name}'
            if not getattr(e, 'level', 0) and n.split('.')[0] in DEBUGGERS or n in ('sys.stdin', 'sys.settrace', 'sys.breakpointhook', 'builtins.input', 'builtins.breakpoint'):
                return f'import of {n}'
    elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in CALLS and prog.resolve_name(e.id, module) is None:
        return e.id
    elif isinstance(e, ast.Attribute):
        r = prog.resolve_expr(e.value, module)
        n = r.name if isinstance(r, ModRef) else None
        if n in ('sys', 'builtins') and e.attr in PARTS | CALLS or n and n.split('.')[0] in DEBUGGERS:
            return f'{n}.{e.attr}'
        if e.attr in ('set_trace', 'post_mortem', 'interact', 'breakpointhook'):
            return e.attr
    elif isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value in DEBUGGERS - {'code'}:
        return f'the name of {e.value}'
    return None


EXAMPLE = '''
import sys
def a(x):
    try:
        x()
    except Exception:
        breakpoint()
def b():
    import pdb
    pdb.set_trace()
def c():
    return sys.stdin.readline()
'''


@rule('P40', configs=('linux-py3.12', 'darwin-py3.12', 'nt-py3.12'))
def p40(ctx):
    """Every live statement of the package, error branches included, is searched for a reference to breakpoint, input, a debugger module or the terminal's input;
    the query is tried on an example with three of them on every run."""
    names, attrs = resolved(ctx)
    tree = ast.parse(EXAMPLE)
    m = Module('augpathlib.example', 'example.py', tree, EXAMPLE)
    m.ns['sys'] = ModRef('sys')
    hits = [h for h in (interactive(ctx.prog, m, e) for e in ast.walk(tree)) if h]
    ctx.need('no debugger', len(hits), 4, 'constructs of the built in example')
    for st, s in names.live_nodes:
        ctx.obl['no debugger'] += 1
        ctx.modules.add(s.module.path)
        if s.kind == 'func':
            ctx.functions.add(s.qual)
        test = lambda e, s=s: ctx.prog.static_test(e, s.module)
        for e in [st] + [y for top in own_exprs(st) for y in pruned(top, test)]:
            h = interactive(ctx.prog, s.module, e)
            if h and not (isinstance(e, ast.Name) and attrs.local(s, e.id)):
                ctx.violate('no debugger', f'{scope_name(s)}: {h}', f'{h} in {scope_name(s)}', f'{s.module.path}:{e.lineno}')


def walk_here(n):
    """sub-nodes, not those of functions and classes defined inside"""
    yield n
    if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_here(c)


# -- P41 ------------------------------------------------------------------------------------------------------
class Handlers:
    """handlers (and the other constructs that end an exception) that may complete without raising"""

    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.raising = {}
        self.total = 0
        self.defined = {f.node.name for f in ctx.prog.funcs.values() if getattr(f.node, 'name', None)} if isinstance(ctx.prog.funcs, dict) else {f.node.name for f in ctx.prog.funcs}

    def exc_names(self, e, s, depth=0):
        """canonical names of the classes a handler catches"""
        if e is None:
            return ['BaseException']
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return [n for x in e.elts for n in self.exc_names(x, s, depth)]
        if isinstance(e, ast.Starred):
            return self.exc_names(e.value, s, depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.exc_names(e.left, s, depth) + self.exc_names(e.right, s, depth)
        if isinstance(e, ast.Name) and s.kind != 'module' and depth < 5:
            for x in ast.walk(s.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets):
                    return self.exc_names(x.value, s, depth + 1)
        cls = None
        x = s
        while x is not None:
            f = self.prog.func_by_node.get(x.node)
            cls = cls or (f.cls if f is not None else None)
            x = x.outer
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and cls is not None:
            _, r = cls.lookup(e.attr)
        else:
            r = self.prog.resolve_expr(e, s.module)
        from model import Alias
        if isinstance(r, Alias) and r.expr is not None and depth < 5:
            import types
            o = types.SimpleNamespace(kind='module', module=r.module, node=None, outer=None)
            return self.exc_names(r.expr, o, depth + 1)
        if isinstance(r, Class):
            return [r.qual]
        if isinstance(r, ModRef):
            return [canonical(r.name)]
        if isinstance(e, ast.Name):
            return [canonical(e.id)]
        return ['?' + (e.attr if isinstance(e, ast.Attribute) else ast.unparse(e))]

    def supers(self, n):
        """the class and its superclasses"""
        if n in self.prog.classes:
            return {canonical(getattr(k, 'qual', k)) for k in self.prog.classes[n].mro()} | {'Exception', 'BaseException'}
        import builtins
        b = getattr(builtins, n, None)
        if isinstance(b, type):
            return {k.__name__ for k in b.__mro__}
        return {n, 'Exception', 'BaseException'}

    def always_raises(self, body, s, depth=0):
        """no way through these statements completes normally"""
        return self.ends(body, s, depth) == {'raise'}

    def ends(self, body, s, depth=0):
        """how a block can end: raise, return, break, continue, normal"""
        out = set()
        for x in body:
            r = self.end(x, s, depth)
            out |= r - {'normal'}
            if 'normal' not in r:
                return out
        return out | {'normal'}

    def end(self, x, s, depth):
        if isinstance(x, ast.Raise):
            return {'raise'}
        if isinstance(x, ast.Return):
            return {'return'} if x.value is None or not self.call_raises(x.value, s, depth) else {'raise'}
        if isinstance(x, ast.Break):
            return {'break'}
        if isinstance(x, ast.Continue):
            return {'continue'}
        if isinstance(x, ast.If):
            t = self.prog.static_test(x.test, s.module)
            return (self.ends(x.body, s, depth) if t is not False else set()) | (self.ends(x.orelse, s, depth) if t is not True else set())
        if isinstance(x, (ast.For, ast.While, ast.AsyncFor)):
            b = self.ends(x.body, s, depth)
            forever = isinstance(x, ast.While) and self.prog.static_test(x.test, s.module) is True
            out = b & {'raise', 'return'}
            if not forever or 'break' in b:
                out.add('normal')
            return out
        if isinstance(x, (ast.With, ast.AsyncWith)):
            return self.ends(x.body, s, depth)
        if isinstance(x, ast.Try):
            if x.finalbody:
                f = self.ends(x.finalbody, s, depth)
                if 'normal' not in f:
                    return f
            out = self.ends(x.body, s, depth)
            if 'normal' in out and x.orelse:
                out = out - {'normal'} | self.ends(x.orelse, s, depth)
            if x.handlers and out == {'raise'} and all(isinstance(y, ast.Raise) for y in x.body[-1:]):
                out = out if not any('BaseException' in self.exc_names(h.type, s) or 'Exception' in self.exc_names(h.type, s) for h in x.handlers) else set()
            for h in x.handlers:
                out |= self.ends(h.body, s, depth)
            return out or {'normal'}
        if isinstance(x, ast.Match):
            return set().union({'normal'}, *[self.ends(c.body, s, depth) for c in x.cases])
        if isinstance(x, (ast.Expr, ast.Assign)) and self.call_raises(x.value, s, depth):
            return {'raise'}
        return {'normal'}

    def call_raises(self, e, s, depth):
        """a call of a function of the package that always raises"""
        if not isinstance(e, ast.Call) or depth > 4:
            return False
        f = self.callee(e, s)
        if f is None or f.node.decorator_list and any('property' in ast.unparse(d) or 'contextmanager' in ast.unparse(d) for d in f.node.decorator_list):
            return False
        from model import is_generator
        if is_generator(f.node):
            return False
        if f.qual not in self.raising:
            self.raising[f.qual] = False
            import types
            o = types.SimpleNamespace(kind='func', module=f.module, node=f.node, outer=None)
            self.raising[f.qual] = self.always_raises(f.node.body, o, depth + 1)
        return self.raising[f.qual]

    def may_raise(self, body, s, depth=0):
        """these statements raise, themselves or in a helper they call"""
        import types
        for b in body:
            for x in walk_here(b):
                if isinstance(x, ast.Raise):
                    return True
                if isinstance(x, ast.Call) and depth < 3:
                    f = self.callee(x, s)
                    if f is not None and f.qual not in self.ctx.inventory:
                        o = types.SimpleNamespace(kind='func', module=f.module, node=f.node, outer=None)
                        if self.may_raise(f.node.body, o, depth + 1):
                            return True
        return False

    def callee(self, e, s):
        if isinstance(e.func, ast.Name):
            x = s
            while x is not None:
                for n in getattr(x.node, 'body', None) if isinstance(getattr(x.node, 'body', None), list) else []:
                    if isinstance(n, FUNC) and n.name == e.func.id:
                        return Func(f'{getattr(x, "qual", "")}.{n.name}', n, s.module)
                x = x.outer
            r = self.prog.resolve_name(e.func.id, s.module)
            return r if isinstance(r, Func) else None
        if isinstance(e.func, ast.Attribute):
            r = self.prog.resolve_expr(e.func, s.module)
            if isinstance(r, Func):
                return r
            f = None
            x = s
            while x is not None and f is None:
                f = self.prog.func_by_node.get(x.node)
                x = x.outer
            if f is not None and f.cls is not None and isinstance(e.func.value, ast.Name) and f.node.args.args and e.func.value.id == f.node.args.args[0].arg:
                subs = [c for c in self.prog.classes.values() if f.cls in c.mro()]
                got = {id(v): v for v in (c.lookup(e.func.attr)[1] for c in subs)}
                if len(got) == 1:
                    v = list(got.values())[0]
                    return v if isinstance(v, Func) else None
            if f is not None and f.qual not in self.ctx.inventory and isinstance(e.func.value, ast.Name):
                # a new helper that was handed the object: the only method of that name
                got = [g for g in self.prog.funcs.values() if g.cls is not None and g.node.__dict__.get('name') == e.func.attr]
                if len(got) == 1:
                    return got[0]
        return None

    def kept(self, h, s):
        """the exception is kept in a variable that is raised later on, or handed on as an argument of a call"""
        if not h.name:
            return False
        names = {h.name}
        for x in ast.walk(h):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in names:
                names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        later = names - {h.name}
        if later and any(isinstance(x, ast.Raise) and isinstance(x.exc, ast.Name) and x.exc.id in later for x in ast.walk(s.node)):
            return True
        return False

    def asks_first(self, st, h, s):
        """the try block only looks up a stored attribute or an entry: what the handler ends is that there is none"""
        if len(st.body) != 1 or not isinstance(st.body[0], (ast.Return, ast.Assign, ast.Expr)) or st.orelse:
            return False
        x = st.body[0].value
        if isinstance(st.body[0], ast.Assign) and not all(isinstance(t, ast.Name) for t in st.body[0].targets):
            return False

        def stored(e):
            return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.attr not in self.defined
        classes = set(self.exc_names(h.type, s))
        if isinstance(x, ast.Attribute):
            return classes == {'AttributeError'} and x.attr.startswith('_') and stored(x)
        if isinstance(x, ast.Subscript):
            return classes <= {'KeyError', 'IndexError', 'LookupError'} and stored(x.value) and isinstance(x.slice, (ast.Name, ast.Constant))
        return False

    def found(self, names):
        """[(scope, class name, conditional, node, what)]"""
        out = []
        for st, s in names.live_nodes:
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    self.total += 1
                    r = self.ends(h.body, s)
                    if self.asks_first(st, h, s):
                        continue
                    if r != {'raise'} and not self.kept(h, s):
                        cond = 'raise' in r or self.may_raise(h.body, s)
                        for n in self.exc_names(h.type, s):
                            out.append((s, n, cond, h, 'handler'))
                if st.finalbody:
                    self.total += 1
                    r = self.ends(st.finalbody, s)
                    if r & {'return', 'break', 'continue'}:
                        out.append((s, 'BaseException', False, st.finalbody[0], 'finally block that leaves'))
            if isinstance(st, (ast.With, ast.AsyncWith)):
                for i in st.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call):
                        f = c.func
                        r = self.prog.resolve_expr(f, s.module)
                        if isinstance(r, ModRef) and r.name == 'contextlib.suppress' or r is None and getattr(f, 'attr', getattr(f, 'id', '')) == 'suppress':
                            for a in c.args:
                                for n in self.exc_names(a, s):
                                    out.append((s, n, False, c, 'suppress'))
            if isinstance(st, ast.Return) and st.value is not None and s.kind == 'func' and getattr(s.node, 'name', '') in ('__exit__', '__aexit__'):
                self.total += 1
                if not (isinstance(st.value, ast.Constant) and not st.value.value):
                    out.append((s, 'BaseException', True, st, '__exit__ that may answer true'))
        return out


def canonical(n):
    n = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'WindowsError': 'OSError', 'select.error': 'OSError', 'socket.error': 'OSError'}.get(n, n)
    return n[9:] if n.startswith('builtins.') else n


def owner(s):
    """the function or module of the package a scope belongs to"""
    while s.outer is not None and s.outer.kind in ('func', 'comp') or s.kind in ('comp',):
        s = s.outer
    return s


def callers(names, name):
    """scopes that mention a function by name"""
    out = {}
    for st, s in names.live_nodes:
        for top in own_exprs(st):
            for e in ast.walk(top):
                if isinstance(e, ast.Name) and e.id == name or isinstance(e, ast.Attribute) and e.attr == name:
                    o = owner(s)
                    out[o.qual] = o
    return list(out.values())


def allowed(ctx, names, o, seen=()):
    """the documented fallbacks of a function; a new helper has those of the functions that use it"""
    table = HANDLERS.get(o.qual)
    if table is not None or o.kind != 'func' or o.qual in ctx.inventory or o.qual in seen or len(seen) > 3:
        return table or {}
    out = {}
    for c in callers(names, o.node.name):
        if c.qual != o.qual:
            out.update(allowed(ctx, names, c, seen + (o.qual,)))
    return out


HANDLERS = json.loads((HERE / 'handlers.json').read_text())


@rule('P41', configs=('linux-py3.12', 'linux-py3.9', 'darwin-py3.12', 'nt-py3.12'))
def p41(ctx):
    """For every live handler, finally block, suppress context and __exit__ of the package: can it complete without raising (interprocedurally: a call of a function that
    always raises does not complete).  Those that can are compared with the committed list of documented fallbacks (static/handlers.json: function,
    exception class, unconditional or conditional); a handler may catch less than its entry, never more."""
    names, attrs = resolved(ctx)
    H = Handlers(ctx)
    used = referenced(names, ctx.config.os_name)
    for s, n, cond, node, what in H.found(names):
        o = owner(s)
        if o.kind == 'func' and o.qual not in ctx.inventory and elsewhere(ctx, s, used):
            continue    # a helper of something that is never reached
        ctx.modules.add(s.module.path)
        ctx.functions.add(o.qual)
        table = allowed(ctx, names, o)
        sup = H.supers(n)
        fit = [v for k, v in table.items() if k in sup]
        q = scope_name(o)
        ctx.check(bool(fit) and ('total' in fit or cond), 'documented fallbacks only', f'{q}: {n}',
                  f'{what} for {n} may end the exception silently' if not fit else f'{what} for {n} ends the exception without a condition', f'{s.module.path}:{node.lineno}')
    ctx.obl['handlers that end an exception are documented'] += H.total
    ctx.need('documented fallbacks only', H.total, 1, 'handlers')


# -- P42 ------------------------------------------------------------------------------------------------------
OPENERS = {'open', 'open-w', 'open-a', 'io.open', 'os.open', 'os.fdopen', 'os.dup', 'os.pipe', 'os.scandir', 'subprocess.Popen', 'zipfile.ZipFile', 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile',
           'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile', 'socket.socket', 'sqlite3.connect', 'tarfile.open', 'gzip.open', 'bz2.open', 'lzma.open', 'codecs.open', 'os.popen', 'mmap.mmap'}
OPEN_WORDS = {x.rpartition('.')[2] for x in OPENERS}
CLOSERS = {'close', 'communicate', 'os.close', '__exit__', 'os.fdopen', 'os.closerange', 'closing', 'contextlib.closing'}


def holds_ref(t, r):
    """a value that is the resource, or a container of it"""
    if t == r:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('tup', 'list', 'set', 'new', 'dict', 'kw', 'star', 'phi', 'genobj', 'entered', 'item'):
        return any(holds_ref(x, r) for x in t[1:] if isinstance(x, tuple)) or any(
            holds_ref(y, r) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)
    return False


def leaks(p):
    """resources opened on this path that nothing closes and nobody else gets"""
    out = []
    items = p.items
    for i, e in enumerate(items):
        if not isinstance(e, Event) or e.kind not in ('call', 'effect') or e.name not in OPENERS or e.result is None:
            continue
        if e.name == 'subprocess.Popen' and not any(v == ('ext', 'subprocess.PIPE') or v == C(-1) for v in e.kw.values()):
            continue    # no pipe, nothing to close
        r = e.result
        done = p.ret and p.val is not None and holds_ref(p.val, r)
        for x in items[i + 1:]:
            if done:
                break
            if isinstance(x, tuple) and x[0] == 'raises':
                x = x[1]        # a close that failed is an attempt
                if not isinstance(x, Event):
                    continue
                if x.target is not None and any(y[0] == 'dynclass' and contains(y, r) for y in subterms(x.target)):
                    done = True     # belongs to a class made for it
                    break
                if x.name not in CLOSERS:
                    continue
            if not isinstance(x, Event):
                continue
            if x.kind == 'with-exit' and x.target is not None and contains(x.target, r):
                done = True
            elif x.target is not None and any(y[0] == 'dynclass' and contains(y, r) for y in subterms(x.target)):
                done = True     # belongs to a class made for it
            elif x.kind in ('call', 'effect') and x.name in CLOSERS and (x.target is not None and contains(x.target, r) or any(contains(a, r) for a in x.args)):
                done = True
            elif x.kind in ('store', 'setitem', 'yield', 'new') and any(holds_ref(a, r) for a in list(x.args) + list(x.kw.values())):
                done = True
            elif x.kind == 'call' and x.name in ('type', 'append', 'add', 'register', 'atexit.register', 'enter_context', 'push', 'callback') and any(contains(a, r) for a in list(x.args) + list(x.kw.values())):
                done = True
        if not done:
            out.append(e)
    return out


@rule('P42', configs=('linux-py3.12', 'nt-py3.12'))
def p42(ctx):
    """Typestate of every file, descriptor, pipe or archive opened: on every path of every function that contains an open-like call, with every operation able to
    fail and every suspended generator able to be closed, the resource ends closed, or belongs to the caller (returned, yielded or stored)."""
    names, attrs = resolved(ctx)
    todo = {}
    for st, s in names.live_nodes:
        o = s
        f = None
        while o is not None and f is None:
            f = ctx.prog.func_by_node.get(o.node)
            o = o.outer
        if f is None or elsewhere(ctx, s, set()) and False:
            continue
        q = scope_name(s)
        if any((q == k or q.startswith(k + '.')) and v != ctx.config.os_name for k, v in ONLY.items()):
            continue
        for top in own_exprs(st):
            for e in ast.walk(top):
                if isinstance(e, ast.Call):
                    n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
                    if n in OPEN_WORDS:
                        todo[f.qual] = f
    sites = 0
    for f in todo.values():
        try:
            ps = ctx.run(f, recv=ctx.short(f.cls.qual) if f.cls is not None else None, raises='all', yield_raises=True, max_paths=6000)
        except AnalysisError as x:
            if 'no path' in str(x):
                continue
            raise
        q = ctx.short(f)
        for p in ps:
            sites += len([1 for e in p.evs() if e.name in OPENERS and e.kind in ('call', 'effect')])
            ctx.obl['opened is closed'] += 1
            for e in leaks(p):
                ctx.violate('opened is closed', f'{q}: {e.name}', f'{e.name} at {e.where} is not closed when the function ends', e.where, p)
    ctx.need('opened is closed', sites, 1, 'resources opened')


# -- P43 ------------------------------------------------------------------------------------------------------
EXCEPTIONS = '''AugPathlibError UnhandledTypeError PathExistsError RemotePathExistsError DirectoryNotEmptyError TargetPathExistsError PathNotEmptyError
WillNotRemovePathError MetadataIdMismatchError MetadataCorruptionError CircularSymlinkNameError NoStreamError NoFileIdError NoCachedMetadataError ChecksumError SizeError
CommandTooLongError NoRemoteMappingError NotInProjectError BootstrappingError NoSourcePathError CacheIgnoreError LocalChangesError NoMetadataRetrievedError
NoRemoteFileWithThatIdError CacheNotFoundError WhyDidntThisGetMovedBeforeError RepoExistsError NotInRepoError NoCommitsForFile InvalidRefError RemoteAlreadyAnchoredError
CacheExistsError FileHasNotChangedError NotACacheClassError'''.split()
SPECIAL = {('TargetPathExistsError', 'PathExistsError')}


@rule('P43')
def p43(ctx):
    """Class hierarchy of the exceptions, resolved over the whole package: every published name is still a class, derives from AugPathlibError and from no builtin exception but
    Exception, and is a subclass of another published one exactly where documented."""
    m = ctx.prog.modules['augpathlib.exceptions']
    ctx.modules.add(m.path)
    found = {}
    for n in EXCEPTIONS:
        r = ctx.prog.resolve_expr(ast.Name(id=n, ctx=ast.Load(), lineno=1 << 29), m)
        ok = isinstance(r, Class)
        ctx.check(ok, 'published exceptions exist', f'exceptions.{n}', f'{n} is gone', m.path)
        if ok:
            found[n] = r
    base = found.get('AugPathlibError')
    if base is None:
        return
    where = lambda c: f'{c.module.path}:{c.node.lineno}'
    for c in list(ctx.prog.classes.values()):
        if c.node is None or any(not isinstance(k, Class) and k.startswith('?') for k in c.mro()) or not is_exception(c):
            continue
        ctx.functions.add(c.qual)
        ctx.check(base in c.mro(), 'exceptions derive from AugPathlibError', c.name, f'{c.qual} does not derive from AugPathlibError', where(c))
        ext = [k for k in c.mro() if not isinstance(k, Class) and k not in ('object', 'Exception', 'BaseException')]
        ctx.check(not ext, 'no builtin error is reused', c.name, f'{c.qual} is also a {", ".join(ext)}', where(c))
    for a, ca in found.items():
        for b, cb in found.items():
            if a != b and b != 'AugPathlibError' and ca is not cb:
                got = cb in ca.mro()
                ctx.check(got == ((a, b) in SPECIAL), 'only the documented relations', f'{a} < {b}', f'{a} is {"" if got else "no longer "}a {b}', where(ca))
            elif a != b and ca is cb:
                ctx.check(False, 'only the documented relations', f'{a} < {b}', f'{a} and {b} are the same class', where(ca))
