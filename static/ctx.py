"""Shared machinery of the rules: entry points, paths, obligations, reports."""
import json
import pathlib
import ast
from collections import Counter
from model import Program, Func, Prop, Alias, Class, AnalysisError, CONFIGS, LINUX
from interp import (Interp, Event, Raise, State, C, NONE, TRUE, FALSE, pid, show, subterms, contains,
                    is_const, const_of, FS_MUT)

HERE = pathlib.Path(__file__).parent
P = lambda n: ('param', n)
SELF = P('self')
A = lambda b, *ns: A(('attr', b, ns[0]), *ns[1:]) if ns else b


PREDICATES = {'exists', 'is_dir', 'is_file', 'is_symlink', 'is_broken_symlink', 'exists_not_symlink', 'is_absolute', 'startswith', 'endswith', 'is_relative_to', 'samefile', 'isdigit'}


class Path:
    """one abstract path through an entry point"""

    def __init__(self, interp, k, st, v, entry):
        self.interp, self.kind, self.st, self.entry = interp, k, st, entry
        self.val = v.exc if isinstance(v, Raise) else v
        self.node = v.node if isinstance(v, Raise) else None
        self._items = None
        if self.kind == 'return' and isinstance(self.val, tuple):
            v = self.known(self.val)
            if v is not None:
                self.val = TRUE if v else FALSE

    def known(self, t):
        """the truth of an answer that is either true or false, where this path has already tested it"""
        if t and t[0] == 'not':
            v = self.known(t[1])
            return None if v is None else not v
        if t and t[0] == 'b':
            return self.holds(t[1])
        if t and t[0] == 'call' and isinstance(t[1], tuple) and t[1][:1] == ('m',) and t[1][-1] in PREDICATES:
            return self.holds(truthy(t))
        return None

    @property
    def items(self):
        if self._items is None:
            self._items = self.st.items()
            for i, x in enumerate(self._items):
                if isinstance(x, Event):
                    x.idx = i
        return self._items

    def evs(self, kind=None, name=None):
        names = (name,) if isinstance(name, str) else name
        return [e for e in self.items if isinstance(e, Event) and (kind is None or e.kind == kind)
                and (names is None or e.name in names)]

    def effects(self, *names):
        return self.evs('effect', names or None)

    def muts(self):
        """events that change the file system"""
        return [e for e in self.evs('effect') if e.name in FS_MUT]

    def calls(self, *names):
        return self.evs('call', names or None)

    @property
    def ret(self):
        return self.kind == 'return'

    @property
    def rai(self):
        return self.kind == 'raise'

    @property
    def exc(self):
        """short name of a raised exception that the repository constructs, else None"""
        if self.kind == 'raise' and self.val[0] == 'newexc':
            return self.val[1].rpartition('.')[2]
        return None

    def exc_isa(self, *names):
        if self.kind != 'raise':
            return False
        if self.val[0] != 'newexc':
            return False
        m = {x.rpartition('.')[2] for x in self.interp.exc_mro(self.val[1])}
        return bool(m & set(names))

    @property
    def propagated(self):
        """an exception of something that was called leaves"""
        return self.kind == 'raise' and self.val[0] != 'newexc'

    def holds(self, atom):
        return self.st.holds(atom)

    def can(self, *pairs):
        """is the path consistent with all of the (atom, value) pairs"""
        s = self.st
        for a, v in pairs:
            s = s.assume(a, v)
            if s is None:
                return False
        return True

    def handled(self):
        return [x for x in self.items if isinstance(x, tuple) and x[0] == 'handled']

    def facts(self):
        return [(x[1], x[2]) for x in self.items if isinstance(x, tuple) and x[0] == 'fact']

    def loops(self, tag=None):
        return [x for x in self.items if isinstance(x, tuple) and x[0] == 'loop' and (tag is None or x[2] == tag)]

    def failed(self, ev):
        """did this event raise on this path"""
        return any(isinstance(x, tuple) and x[0] == 'raises' and x[1] is ev for x in self.items)

    def attempts(self, *names):
        """events by name, those that raised included, in order"""
        out = []
        for x in self.items:
            if isinstance(x, tuple) and x[0] == 'raises':
                x = x[1]
            if isinstance(x, Event) and x.name in names:
                out.append(x)
        return out

    @property
    def failures(self):
        return [x for x in self.items if isinstance(x, tuple) and x[0] == 'raises']

    def describe(self):
        out = []
        for x in self.items:
            if isinstance(x, Event):
                if x.name in ('debug', 'info', 'warning', 'error', 'critical', 'exception'):
                    continue
                out.append(f'{x.where}: {x.kind} {x.name} {show(x.target) if x.target else ""} ({", ".join(show(a) for a in x.args)})')
            elif x[0] == 'fact':
                out.append(f'  given {show(x[1])} is {x[2]}')
            elif x[0] == 'raises':
                w = getattr(x[2], 'lineno', 0)
                out.append(f'  line {w}: {getattr(x[1], "name", x[1])} raises')
            elif x[0] == 'handled':
                out.append(f'  handler at line {getattr(x[1], "lineno", 0)}')
            elif x[0] == 'loop':
                out.append(f'  loop line {getattr(x[1], "lineno", 0)}: {x[2]}')
        out.append(f'{self.kind} {show(self.val) if isinstance(self.val, tuple) else self.val}')
        return out[-60:]


class Ctx:
    def __init__(self, prop, prog, inventory, tier='quick'):
        self.prop, self.prog, self.inventory, self.tier = prop, prog, inventory, tier
        self.config = prog.config
        self.viol = {}
        self.obl = Counter()
        self.entries = Counter()
        self.functions = set()
        self.callsites = 0
        self.npaths = 0
        self.modules = set()
        self._synth = {}
        self.lately = None  # the function analysed last

    # -- reports
    def violate(self, rule, construct, msg, where='', path=None):
        key = f'{rule}|{construct}'
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, construct=construct, message=msg, where=where, config=self.config.name,
                                  path=path.describe() if path is not None else [])

    def check(self, ok, rule, construct, msg, where='', path=None):
        self.obl[rule] += 1
        if not ok:
            self.violate(rule, construct, msg, where, path)
        return ok

    def need(self, rule, n, floor, what):
        """the rule must have matched something: nothing at all means that what the property requires is on no path of what
        was analysed, anything less than the floor that the analysis lost its anchor"""
        if n == 0 and floor:
            f = self.lately
            self.violate(rule, f'{self.short(f) if f is not None else "package"}: {what}',
                         f'no path has any of what this requires here: {what}', f'{f.module.name}:{f.node.lineno}' if f is not None else '')
        elif n < floor:
            raise AnalysisError(f'{rule}: {what}: {n} instances, expected at least {floor}')

    # -- entry points
    def recv(self, name):
        """receiver class: a class of the package, with the platform helper mixed in when it needs one"""
        if name in self._synth:
            return self._synth[name]
        c = self.prog.cls(name)
        mro = {getattr(x, 'qual', x) for x in c.mro()}
        if name != 'core.EatPath' and 'augpathlib.core.EatPath' in mro or name == 'core.EatPath':
            helper = self.prog.cls('core.ADSHelper' if self.config.os_name == 'nt' else 'core.XattrHelper')
            c = self.prog.synth(c.name + '+' + helper.name, [c, helper])
        self._synth[name] = c
        return c

    def func(self, cls, name, part='getter'):
        """the function that implements an attribute of a class, through its mro"""
        c = self.recv(cls) if isinstance(cls, str) else cls
        owner, v = c.lookup(name)
        if isinstance(v, Prop):
            v = getattr(v, part)
        if isinstance(v, Alias):
            r = self.prog.resolve_expr(v.expr, v.module, v.cls)
            v = r if isinstance(r, (Func, Prop)) else v
            if isinstance(v, Prop):
                v = getattr(v, part)
        if not isinstance(v, Func):
            raise AnalysisError(f'{c.name}.{name} is not a function of the package any more')
        return v

    def func_of(self, name):
        f = self.prog.func(name)
        if not isinstance(f, Func):
            raise AnalysisError(f'{name} is not a function of the package any more')
        return f

    # -- functions that were added to the package are judged where they are used
    def spread(self, f):
        """f with the new functions it refers to"""
        idx = self.__dict__.get('_byname')
        if idx is None:
            idx = self._byname = {}
            for q, g in self.prog.funcs.items():
                if q not in self.inventory:
                    idx.setdefault(g.node.__dict__.get('name'), []).append(g)
        out, todo = {}, [f]
        while todo:
            g = todo.pop()
            if g.qual in out:
                continue
            out[g.qual] = g
            for x in ast.walk(g.node):
                n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                todo += idx.get(n, ()) if n else ()
        return list(out.values())

    def functions_of(self, *modules):
        """functions to start from: all but the new ones that another function of the package refers to"""
        known = [f for f in self.prog.funcs.values() if f.qual in self.inventory]
        covered = {g.qual for f in known for g in self.spread(f) if g is not f}
        fresh = [f for f in self.prog.funcs.values() if f.qual not in self.inventory and f.qual not in covered]
        for f in list(fresh):
            covered |= {g.qual for g in self.spread(f) if g is not f}
        out = known + [f for f in fresh if f.qual not in covered]
        return sorted((f for f in out if not modules or f.module.name.rpartition('.')[2] in modules), key=lambda f: f.qual)

    def interp(self, **kw):
        kw.setdefault('inventory', self.inventory)
        return Interp(self.prog, **kw)

    def run(self, entry, recv=None, args=None, types=None, init=None, part='getter', exc_root=None, **kw):
        """entry: Func, 'module.func' or (class name, attribute)"""
        if isinstance(entry, tuple):
            recv = recv or entry[0]
            f = self.func(entry[0], entry[1], part)
        elif isinstance(entry, str):
            f = self.prog.func(entry)
        else:
            f = entry
        if isinstance(recv, str):
            recv = self.recv(recv)
        types = {k: self.prog.cls(v) if isinstance(v, str) else v for k, v in (types or {}).items()}
        self.lately = f
        I = self.interp(**kw)
        if exc_root:
            I.exc_root = exc_root
        rs = I.run(f, recv=recv, args=args, types=types, init=init)
        out = [Path(I, k, s, v, f) for k, s, v in rs]
        self.account(I, f, len(out))
        self.last = I
        if not out:
            raise AnalysisError(f'{f.qual}: no path')
        return out

    def account(self, I, f, n):
        self.npaths += n
        self.callsites += I.stats['calls']
        self.functions |= I.stats['functions']
        self.entries[f.qual] += n
        for q in I.stats['functions']:
            g = self.prog.funcs.get(q)
            if g is not None:
                self.modules.add(g.module.path)

    def short(self, f):
        q = f.qual if isinstance(f, Func) else f
        return q[len('augpathlib.'):] if q.startswith('augpathlib.') else q


RULES = {}


def rule(pid, title=None, configs=('linux-py3.12',), thorough=()):
    def deco(fn):
        RULES.setdefault(pid, []).append((fn, tuple(configs), tuple(thorough)))
        return fn
    return deco


def before(path, a, b):
    return path.items.index(a) < path.items.index(b)


def isinst_evt(x):
    return isinstance(x, Event)


# -- judging conditions by what they imply, not by how they are written --------
def excluded(st, *pairs):
    """the state contradicts the conjunction of the (atom, value) pairs"""
    s = st
    for a, v in pairs:
        s = s.assume(a, v)
        if s is None:
            return True
    # order matters for derived facts: try the reverse as well
    s = st
    for a, v in reversed(pairs):
        s = s.assume(a, v)
        if s is None:
            return True
    return False


def truth_under(st, v, pairs=()):
    """truth value of a term in a state extended by pairs: True, False or None"""
    s = st
    for a, x in pairs:
        s = s.assume(a, x)
        if s is None:
            return 'contradiction'
    return _truth(s, v)


def _truth(s, v):
    if v[0] == 'b':
        return _truth(s, v[1])
    if v[0] == 'not':
        t = _truth(s, v[1])
        return None if t is None else not t
    if v[0] in ('and', 'or'):
        ts = [_truth(s, x) for x in v[1]]
        if v[0] == 'and':
            return False if False in ts else None if None in ts else True
        return True if True in ts else None if None in ts else False
    if v[0] in ('fs', 'eq', 'isc', 'is', 'lt', 'in', 'hasattr', 'isinst', 'excis', 'truthy'):
        return s.holds(v)
    return s.holds(('truthy', v))


def combos(atoms):
    import itertools
    for vals in itertools.product((True, False), repeat=len(atoms)):
        yield tuple(zip(atoms, vals))


def fsat(pred, x, ep=0):
    return ('fs', pred, pid(x), ep)


def eqat(a, b):
    if is_const(a) or is_const(b):
        return ('eq', a, b)
    return ('eq',) + tuple(sorted((a, b), key=repr))


def truthy(t):
    return ('truthy', t)


def same(a, b):
    return pid(a) == pid(b)


def mentions(t, sub):
    return t is not None and contains(t, sub)


def intval(t, env):
    """value of an integer term under an assignment of the parameters"""
    import operator as o
    if t in env:
        return env[t]
    if t[0] == 'c' and isinstance(t[2], (int, float, bool)):
        return t[2]
    if t[0] == 'bin':
        ops = dict(Add=o.add, Sub=o.sub, Mult=o.mul, FloorDiv=o.floordiv, Mod=o.mod)
        return ops[t[1]](intval(t[2], env), intval(t[3], env))
    if t[0] == 'un':
        v = intval(t[2], env)
        return {'USub': -v, 'UAdd': v, 'Invert': ~int(v)}[t[1]]
    if t[0] == 'call' and t[1] in ('abs', 'int', 'max', 'min') and t[2]:
        return {'abs': abs, 'int': int, 'max': max, 'min': min}[t[1]](*[intval(x, env) for x in t[2]])
    raise KeyError(t)


def table(ctx, rule, construct, paths, atoms, want, where=''):
    """the value returned on every path, for every assignment of the atoms, is what want() says"""
    n = 0
    for pairs in combos(atoms):
        w = want(*[v for _, v in pairs])
        for p in paths:
            if p.rai:
                if excluded(p.st, *pairs):
                    continue
                ctx.check(w == 'raise', rule, construct, f'raises for {[(show(a), v) for a, v in pairs]}', where, p)
                n += 1
                continue
            t = truth_under(p.st, p.val, pairs)
            if t == 'contradiction' or excluded(p.st, *pairs):
                continue
            n += 1
            if w is None:
                continue
            ctx.check(t is w, rule, construct, f'answers {t} instead of {w} for {[(show(a), v) for a, v in pairs]}', where, p)
    ctx.need(rule, n, 1, construct)
    return n


def kwarg(t, name):
    """keyword argument of a call or constructor term"""
    for a in t[2]:
        if a[0] == 'kw' and a[1] == C(name):
            return a[2]
    return None


def kwnames(t):
    return {a[1][2] for a in t[2] if a[0] == 'kw'}
