"""Values of class level tables: an evaluator for the constant part of a class body."""
import ast
from model import Class, AnalysisError


class _Unknown(Exception):
    pass


def _ev(e, env, prog, m, cls):
    rec = lambda x: _ev(x, env, prog, m, cls)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
    elif isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        out = []
        for x in e.elts:
            out += list(rec(x.value)) if isinstance(x, ast.Starred) else [rec(x)]
        return tuple(out) if isinstance(e, ast.Tuple) else out if isinstance(e, ast.List) else set(out)
    elif isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(rec(v))
            else:
                out[rec(k)] = rec(v)
        return out
    elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.BitOr, ast.Mult, ast.Mod)):
        a, b = rec(e.left), rec(e.right)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.BitOr: lambda: a | b, ast.Mult: lambda: a * b,
                ast.Mod: lambda: a % b}[type(e.op)]()
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -rec(e.operand)
    elif isinstance(e, ast.Subscript):
        return rec(e.value)[rec(e.slice)]
    elif isinstance(e, ast.Slice):
        return slice(*[None if x is None else rec(x) for x in (e.lower, e.upper, e.step)])
    elif isinstance(e, ast.JoinedStr):
        return ''.join(str(x.value) if isinstance(x, ast.Constant) else format(rec(x.value)) for x in e.values)
    elif isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and len(e.generators) == 1:
        g = e.generators[0]
        out = []
        for x in rec(g.iter):
            sub = dict(env)
            _bind(g.target, x, sub)
            r2 = lambda y: _ev(y, sub, prog, m, cls)
            if all(r2(c) for c in g.ifs):
                out.append((r2(e.key), r2(e.value)) if isinstance(e, ast.DictComp) else r2(e.elt))
        return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
    elif isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = rec(e.left), rec(e.comparators[0])
        ops = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
               ast.Lt: lambda: a < b, ast.Gt: lambda: a > b}
        if type(e.ops[0]) in ops:
            return ops[type(e.ops[0])]()
    elif isinstance(e, ast.Call):
        f = e.func
        args = [rec(x) for x in e.args if not isinstance(x, ast.Starred)]
        if any(isinstance(x, ast.Starred) for x in e.args):
            raise _Unknown
        kw = {k.arg: rec(k.value) for k in e.keywords if k.arg}
        safe = dict(tuple=tuple, list=list, dict=dict, set=set, sorted=sorted, zip=zip, range=range, len=len, str=str, int=int,
                    enumerate=enumerate, reversed=reversed, max=max, min=min)
        if isinstance(f, ast.Name) and f.id in safe and f.id not in env:
            return safe[f.id](*args, **kw)
        if isinstance(f, ast.Attribute):
            o = rec(f.value)
            if isinstance(o, (dict, list, str, tuple, set)) and f.attr in (
                    'items', 'keys', 'values', 'get', 'copy', 'index', 'split', 'join', 'format', 'strip', 'append', 'extend',
                    'insert', 'update', 'setdefault', 'pop', 'remove', 'add', 'union'):
                return getattr(o, f.attr)(*args, **kw)
    try:
        return prog.const(e, m, cls)
    except (KeyError, AttributeError, TypeError):
        raise _Unknown


def _bind(t, v, env):
    if isinstance(t, ast.Name):
        env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        for a, b in zip(t.elts, v):
            _bind(a, b, env)
    else:
        raise _Unknown


def _exec(body, env, prog, m, cls):
    for n in body:
        try:
            if isinstance(n, ast.Assign):
                v = _ev(n.value, env, prog, m, cls)
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        _ev(t.value, env, prog, m, cls)[_ev(t.slice, env, prog, m, cls)] = v
                    else:
                        _bind(t, v, env)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                _bind(n.target, _ev(n.value, env, prog, m, cls), env)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                env[n.target.id] = _ev(ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), env, prog, m, cls)
            elif isinstance(n, ast.Expr):
                _ev(n.value, env, prog, m, cls)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        del _ev(t.value, env, prog, m, cls)[_ev(t.slice, env, prog, m, cls)]
                    elif isinstance(t, ast.Name):
                        env.pop(t.id, None)
            elif isinstance(n, ast.For):
                for x in _ev(n.iter, env, prog, m, cls):
                    _bind(n.target, x, env)
                    _exec(n.body, env, prog, m, cls)
            elif isinstance(n, ast.If):
                _exec(n.body if _ev(n.test, env, prog, m, cls) else n.orelse, env, prog, m, cls)
        except (_Unknown, KeyError, IndexError, TypeError, ValueError, AttributeError):
            for t in ast.walk(n):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    env.pop(t.id, None)


def class_values(prog, cls):
    """{name: value} of the constants a class body, and those of its bases, leave behind"""
    env = {}
    for c in reversed(cls.mro()):
        if isinstance(c, Class) and c.qual in prog.classes:
            e = dict(env) if c is cls else {}
            _exec(c.node.body, e, prog, c.module, c)
            env.update(e)
    return env


def term(v, uid=0):
    """value -> term of the interpreter"""
    from interp import C
    if isinstance(v, tuple):
        return ('tup', tuple(term(x, uid) for x in v))
    if isinstance(v, list):
        return ('list', tuple(term(x, uid) for x in v), -1)
    if isinstance(v, dict):
        return ('dict', tuple((term(k, uid), term(x, uid)) for k, x in v.items()), -1)
    return C(v)
