"""One form for what can be written in several ways: rewriting of the syntax tree before anything is analysed.

Only rewritings that keep the meaning are here; each one answers None or False where it does not fit."""
import ast
import string

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def blocks(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def names(node):
    return [x.id for x in ast.walk(node) if isinstance(x, ast.Name)]


def own(node):
    """what belongs to a loop body itself: inner loops and scopes left out"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.For, ast.While, ast.AsyncFor, *SCOPES)):
            todo += list(ast.iter_child_nodes(x))


def moved(new, old):
    ast.copy_location(new, old)
    for x in ast.walk(new):
        if not hasattr(x, 'lineno') and 'lineno' in getattr(x, '_attributes', ()):
            ast.copy_location(x, old)
    return new


def is_call(e, name, n):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and len(e.args) == n and not e.keywords


def true(e):
    return isinstance(e, ast.Constant) and e.value in (True, 1)


def iterated(a, w, fn):
    """it = iter(x); while True: try: v = next(it) except StopIteration: break; ...    ->    for v in x: ..."""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and is_call(a.value, 'iter', 1)):
        return None
    if not (isinstance(w, ast.While) and true(w.test) and w.body and isinstance(w.body[0], ast.Try)):
        return None
    t, it = w.body[0], a.targets[0].id
    if len(t.body) != 1 or not isinstance(t.body[0], ast.Assign) or len(t.body[0].targets) != 1 or t.finalbody or len(t.handlers) != 1:
        return None
    s, h = t.body[0], t.handlers[0]
    if not (is_call(s.value, 'next', 1) and isinstance(s.value.args[0], ast.Name) and s.value.args[0].id == it):
        return None
    if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration'):
        return None
    if names(fn).count(it) != 2 or h.name and h.name in names(w):
        return None
    left = []
    if len(h.body) == 1 and isinstance(h.body[0], ast.Break):
        pass
    elif isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Break)) and not w.orelse:
        left = h.body[:-1] if isinstance(h.body[-1], ast.Break) else h.body
        if any(isinstance(x, (ast.Break, ast.Continue)) for y in left for x in [y, *own(y)]):
            return None
    else:
        return None
    body = [*t.orelse, *w.body[1:]]
    # the break of the handler ends the loop without its else clause, and so do the other ones
    if w.orelse:
        return None
    brk = any(isinstance(x, ast.Break) for y in body for x in [y, *own(y)])
    if left and brk:
        return [moved(ast.For(s.targets[0], a.value.args[0], body or [ast.Pass()], left), w)]
    return [moved(ast.For(s.targets[0], a.value.args[0], body or [ast.Pass()], []), w), *left]


def counted(a, w, fn):
    """i = 0; while i < len(xs): x = xs[i]; ...; i += 1    ->    for x in xs: ..."""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Constant) and a.value.value == 0 and a.value.value is not False):
        return None
    i = a.targets[0].id
    if not (isinstance(w, ast.While) and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], (ast.Lt, ast.NotEq)) and not w.orelse):
        return None
    if not (isinstance(w.test.left, ast.Name) and w.test.left.id == i and is_call(w.test.comparators[0], 'len', 1) and isinstance(w.test.comparators[0].args[0], ast.Name)):
        return None
    xs = w.test.comparators[0].args[0].id
    if len(w.body) < 2:
        return None
    first, last = w.body[0], w.body[-1]
    inc = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1
    if not inc and len(w.body) > 2 and isinstance(w.body[1], ast.AugAssign):      # counted up right after the element was taken
        last = w.body[1]
        inc = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1
        body = w.body[2:]
        cont = False
    else:
        body = w.body[1:-1]
        cont = any(isinstance(x, ast.Continue) for y in body for x in [y, *own(y)])
    if not inc or cont:
        return None
    if not indexed(first, xs, i):
        return None
    if names(fn).count(i) != 4 or changed(w.body, xs):
        return None
    return [moved(ast.For(first.targets[0], moved(ast.Name(xs, ast.Load()), w), body or [ast.Pass()], []), w)]


def indexed(s, xs, i):
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name) and s.value.value.id == xs and \
        isinstance(s.value.slice, ast.Name) and s.value.slice.id == i and xs not in names(s.targets[0])


def changed(body, xs):
    """may the list change while it is gone through: any use but reading an element or the length"""
    fine = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Load):
                fine.add(id(x.value))
            elif is_call(x, 'len', 1):
                fine.add(id(x.args[0]))
    return any(isinstance(x, ast.Name) and x.id == xs and id(x) not in fine for s in body for x in ast.walk(s))


def ranged(w, fn):
    """for i in range(len(xs)): x = xs[i]; ...    and    for i, x in enumerate(xs)  without a use of i"""
    if not isinstance(w, ast.For):
        return
    if is_call(w.iter, 'enumerate', 1) and isinstance(w.target, ast.Tuple) and len(w.target.elts) == 2 and isinstance(w.target.elts[0], ast.Name) and names(fn).count(w.target.elts[0].id) == 1:
        w.target, w.iter = w.target.elts[1], w.iter.args[0]
        return
    if is_call(w.iter, 'range', 1) and is_call(w.iter.args[0], 'len', 1) and isinstance(w.iter.args[0].args[0], ast.Name) and isinstance(w.target, ast.Name):
        xs, i = w.iter.args[0].args[0].id, w.target.id
        if indexed(w.body[0], xs, i) and names(fn).count(i) == 2 and not changed(w.body, xs):
            w.target, w.iter = w.body[0].targets[0], w.iter.args[0].args[0]
            w.body = w.body[1:] or [moved(ast.Pass(), w)]


def collected(a, f, fn):
    """xs = []; for v in it: (if c:) xs.append(e)    ->    xs = [e for v in it if c]"""
    if not (isinstance(a, (ast.Assign, ast.AnnAssign)) and isinstance(f, ast.For) and not f.orelse):
        return None
    if isinstance(a, ast.Assign) and len(a.targets) != 1 or a.value is None:
        return None
    t = a.targets[0] if isinstance(a, ast.Assign) else a.target
    if not isinstance(t, ast.Name):
        return None
    v = a.value
    kind = 'list' if isinstance(v, ast.List) and not v.elts or is_call(v, 'list', 0) else 'set' if is_call(v, 'set', 0) else \
        'dict' if isinstance(v, ast.Dict) and not v.keys or is_call(v, 'dict', 0) else None
    if kind is None:
        return None
    conds, body = [], f.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conds.append(body[0].test)
        body = body[0].body
    if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
        conds.append(moved(ast.UnaryOp(ast.Not(), body[0].test), body[0]))
        body = body[1:]
    if len(body) != 1:
        return None
    s = body[0]
    if kind == 'dict':
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == t.id):
            return None
        parts = [s.targets[0].slice, s.value]
    else:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)
                and s.value.func.value.id == t.id and s.value.func.attr == ('append' if kind == 'list' else 'add') and len(s.value.args) == 1 and not s.value.keywords
                and not isinstance(s.value.args[0], ast.Starred)):
            return None
        parts = [s.value.args[0]]
    vs = set(names(f.target))
    if any(isinstance(x, ast.Name) and x.id == t.id for y in [f.iter, *conds, *parts] for x in ast.walk(y)):
        return None
    if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for y in [f.iter, *conds, *parts] for x in ast.walk(y)):
        return None
    if not all(isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Starred)) or isinstance(x, (ast.Store, ast.Load)) for x in ast.walk(f.target)):
        return None
    # nothing else is put into it later on
    inner = {id(x) for x in ast.walk(f)}
    for x in ast.walk(fn):
        if id(x) in inner:
            continue
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == t.id and x.attr not in ('items', 'keys', 'values', 'get', 'index', 'count', 'copy', 'union', 'intersection', 'difference'):
            return None
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t.id and not isinstance(x.ctx, ast.Load):
            return None
    # the variables of the loop are not used by anything else
    inside = [x for x in ast.walk(f) if isinstance(x, ast.Name) and x.id in vs]
    if len([x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in vs]) != len(inside):
        return None
    g = [ast.comprehension(f.target, f.iter, conds, 0)]
    new = ast.ListComp(parts[0], g) if kind == 'list' else ast.SetComp(parts[0], g) if kind == 'set' else ast.DictComp(*parts, g)
    a.value = moved(new, f)
    return [a]


METHODS = {k.__name__: {m for m in vars(k) if not m.startswith('_') and type(vars(k)[m]).__name__ == 'method_descriptor'} for k in (str, bytes, dict, list, tuple, set)}


class Exprs(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        """x == 'a' or x == 'b'    ->    x in ('a', 'b')"""
        self.generic_visit(n)
        want, to = (ast.Eq, ast.In) if isinstance(n.op, ast.Or) else (ast.NotEq, ast.NotIn)
        out = []
        for v in n.values:
            fits = isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], want) and isinstance(v.left, ast.Name) and isinstance(v.comparators[0], ast.Constant) and isinstance(v.comparators[0].value, str)
            last = out[-1] if out else None
            if fits and last is not None and last[0] == v.left.id:
                last[1].append(v)
            else:
                out.append((v.left.id if fits else None, [v]))
        vals = [vs[0] if len(vs) == 1 else moved(ast.Compare(vs[0].left, [to()], [ast.Tuple([v.comparators[0] for v in vs], ast.Load())]), vs[0]) for k, vs in out]
        if len(vals) == len(n.values):
            return n
        return vals[0] if len(vals) == 1 else moved(ast.BoolOp(n.op, vals), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            op = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.operand.ops[0]))
            if op is not None:
                return moved(ast.Compare(n.operand.left, [op()], n.operand.comparators), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'vars' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return moved(ast.Attribute(n.args[0], '__dict__', ast.Load()), n)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and n.args and not isinstance(n.args[0], ast.Starred) and f.attr in METHODS.get(f.value.id, ()):
            # str.lower(x)    ->    x.lower()
            return moved(ast.Call(ast.Attribute(n.args[0], f.attr, ast.Load()), n.args[1:], n.keywords), n)
        if not (isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
            return n
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return n
        try:
            parts = list(string.Formatter().parse(f.value.value))
        except ValueError:
            return n
        out, used, auto = [], [], 0
        kw = {k.arg: k.value for k in n.keywords}
        for text, field, spec, conv in parts:
            if text:
                out.append(ast.Constant(text))
            if field is None:
                continue
            if spec and '{' in spec:
                return n
            if field == '':
                field, auto = str(auto), auto + 1
            e = n.args[int(field)] if field.isdigit() and int(field) < len(n.args) else kw.get(field)
            if e is None:
                return n
            used.append(id(e))
            out.append(ast.FormattedValue(e, ord(conv) if conv else -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
        # every argument once and in order: nothing is evaluated more or less often, or elsewhere
        if used != [id(x) for x in n.args] + [id(k.value) for k in n.keywords]:
            return n
        return moved(ast.JoinedStr(out), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple)):
            return n
        if any(isinstance(x, ast.Starred) for x in n.right.elts):
            return n
        out, rest, args = [], n.left.value, list(n.right.elts)
        while rest:
            i = rest.find('%')
            if i < 0:
                out.append(ast.Constant(rest))
                break
            if i:
                out.append(ast.Constant(rest[:i]))
            c = rest[i + 1:i + 2]
            rest = rest[i + 2:]
            if c == '%':
                out.append(ast.Constant('%'))
            elif c in ('s', 'r') and args:
                out.append(ast.FormattedValue(args.pop(0), ord('r') if c == 'r' else -1, None))
            else:
                return n
        if args:
            return n
        return moved(ast.JoinedStr(out), n)


def again(a, w):
    """x = e; while c(x): ...; x = e    ->    while True: x = e; if not c(x): break; ..."""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Call)):
        return None
    if not (isinstance(w, ast.While) and not w.orelse and len(w.body) > 1 and isinstance(w.body[-1], ast.Assign) and ast.dump(w.body[-1]) == ast.dump(a)):
        return None
    if a.targets[0].id not in names(w.test) or a.targets[0].id in names(a.value):
        return None
    if any(isinstance(x, ast.Continue) for y in w.body[:-1] for x in [y, *own(y)]):
        return None
    stop = moved(ast.If(moved(ast.UnaryOp(ast.Not(), w.test), w), [moved(ast.Break(), w)], []), w)
    return [moved(ast.While(moved(ast.Constant(True), w), [a, stop, *w.body[:-1]], []), w)]


def until(s, fn):
    """for x in iter(lambda: e, end): ...    ->    while True: x = e; if x == end: break; ..."""
    whole = isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom)
    if whole:
        it, x, body = s.value.value, ast.Name('_asked', ast.Store()), [moved(ast.Expr(moved(ast.Yield(ast.Name('_asked', ast.Load())), s)), s)]
    elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
        it, x, body = s.iter, s.target, s.body
    else:
        return None
    if not (is_call(it, 'iter', 2) and isinstance(it.args[1], ast.Constant)):
        return None
    a, end = it.args
    if isinstance(a, ast.Lambda) and not a.args.args and not a.args.vararg and not a.args.kwonlyargs and not a.args.kwarg:
        e = a.body
    elif isinstance(a, ast.Call) and ast.unparse(a.func) in ('partial', 'functools.partial') and a.args and not a.keywords and \
            all(isinstance(y, (ast.Name, ast.Constant, ast.Attribute)) for y in a.args):
        e = moved(ast.Call(a.args[0], a.args[1:], []), a)
    elif isinstance(a, ast.Attribute):
        e = moved(ast.Call(a, [], []), a)
    else:
        return None
    var = moved(ast.Name(x.id, ast.Load()), s)
    test = moved(ast.UnaryOp(ast.Not(), var), s) if end.value in (b'', '') else \
        moved(ast.Compare(var, [ast.Is() if end.value is None else ast.Eq()], [end]), s)
    return [moved(ast.While(moved(ast.Constant(True), s), [moved(ast.Assign([x], e), s), moved(ast.If(test, [moved(ast.Break(), s)], []), s), *body], []), s)]


def spread(e):
    """yield from (e for v in it if c)    ->    for v in it: if c: yield e"""
    g = e.value.value.generators[0]
    body = [moved(ast.Expr(ast.Yield(e.value.value.elt)), e)]
    for c in reversed(g.ifs):
        body = [moved(ast.If(c, body, []), e)]
    return moved(ast.For(g.target, g.iter, body, []), e)


def quantified(a, f, fn):
    """found = False; for v in it: if c: found = True; break    ->    found = any(c for v in it)"""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Constant) and isinstance(a.value.value, bool)):
        return None
    if not (isinstance(f, ast.For) and not f.orelse and len(f.body) == 1):
        return None
    t, conds, body = a.targets[0].id, [], f.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conds.append(body[0].test)
        body = body[0].body
    if not conds or not 1 <= len(body) <= 2 or len(body) == 2 and not isinstance(body[1], ast.Break):
        return None
    s = body[0]
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == t and isinstance(s.value, ast.Constant) and s.value.value is (not a.value.value)):
        return None
    if len(body) == 1:      # without a break the condition is evaluated for the rest, too: the same if it has no effect, which only names and comparisons surely have not
        if any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for c in conds for x in ast.walk(c)):
            return None
    return quantifier(a, conds, f, t, a.value.value, fn)


def quantifier(a, conds, f, t, otherwise, fn):
    if any(isinstance(x, ast.Name) and x.id == t for y in [f.iter, *conds] for x in ast.walk(y)) or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for y in [f.iter, *conds] for x in ast.walk(y)):
        return None
    vs = set(names(f.target))
    if len([n for n in names(fn) if n in vs]) != len([n for n in names(f) if n in vs]):
        return None
    c = conds[-1] if not otherwise else moved(ast.UnaryOp(ast.Not(), conds[-1]), f)
    if isinstance(c, ast.UnaryOp) and isinstance(c.operand, ast.UnaryOp) and isinstance(c.operand.op, ast.Not) and otherwise:
        c = c.operand.operand
    g = ast.GeneratorExp(c, [ast.comprehension(f.target, f.iter, conds[:-1], 0)])
    a.value = moved(ast.Call(ast.Name('all' if otherwise else 'any', ast.Load()), [g], []), f)
    return [a]


def answered(f, r, fn):
    """for v in it: if c: return True / return False    ->    return any(c for v in it)"""
    if not (isinstance(f, ast.For) and not f.orelse and len(f.body) == 1 and isinstance(r, ast.Return) and isinstance(r.value, ast.Constant) and isinstance(r.value.value, bool)):
        return None
    conds, body = [], f.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conds.append(body[0].test)
        body = body[0].body
    if not conds or len(body) != 1 or not isinstance(body[0], ast.Return) or not isinstance(body[0].value, ast.Constant) or body[0].value.value is not (not r.value.value):
        return None
    return quantifier(r, conds, f, None, r.value.value, fn)


def asks_text(call):
    f = call.func
    return isinstance(f, ast.Name) and f.id in ('ord', 'len', 'str', 'repr') or isinstance(f, ast.Attribute) and f.attr in ('isprintable', 'isspace', 'isalnum', 'isalpha', 'isdigit')


def refused(f, fn):
    """for v in it: if c: raise e    ->    if any(c for v in it): raise e"""
    if not (isinstance(f, ast.For) and not f.orelse and len(f.body) == 1):
        return None
    conds, body = [], f.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
        conds.append(body[0].test)
        body = body[0].body
    vs = set(names(f.target))
    if not conds or len(body) != 1 or not isinstance(body[0], ast.Raise) or vs & set(names(body[0])):
        return None
    if any(isinstance(x, ast.Call) and not asks_text(x) for c in conds for x in ast.walk(c)):      # what is asked of each is told apart
        return None
    holder = moved(ast.If(ast.Constant(True), body, []), f)
    r = moved(ast.Return(ast.Constant(False)), f)
    if quantifier(r, conds, f, None, False, fn) is None:
        return None
    holder.test = r.value
    return [holder]


def keyed(fn):
    """f(k, d[k]) for k in d    ->    f(k, v) for k, v in d.items()    where d is made as a dict"""
    made = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            v = x.value
            if isinstance(v, (ast.Dict, ast.DictComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
                made[x.targets[0].id] = made.get(x.targets[0].id, 0) + 1
    if fn.args.kwarg is not None:
        made.setdefault(fn.args.kwarg.arg, 0)
    stores = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)]
    dicts = {d for d, n in made.items() if stores.count(d) == n and n <= 1}
    for x in ast.walk(fn):
        if isinstance(x, ast.For):
            holder, inside = x, x.body
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and len(x.generators) == 1:
            holder = x.generators[0]
            inside = holder.ifs + ([x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt])
        else:
            continue
        it = holder.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'keys' and not it.args and not it.keywords:
            it = it.func.value
        if not (isinstance(holder.target, ast.Name) and isinstance(it, ast.Name) and it.id in dicts):
            continue
        k, d = holder.target.id, it.id
        uses = [y for z in inside for y in ast.walk(z) if isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == d
                and isinstance(y.slice, ast.Name) and y.slice.id == k and isinstance(y.ctx, ast.Load)]
        if not uses or sum(names(z).count(d) for z in inside) != len(uses) or any(isinstance(y, ast.Name) and y.id == k and not isinstance(y.ctx, ast.Load) for z in inside for y in ast.walk(z)):
            continue
        v = f'{d}[{k}]'
        for y in uses:
            new = moved(ast.Name(v, ast.Load()), y)
            y.__class__ = ast.Name
            y.__dict__.clear()
            y.__dict__.update(new.__dict__)
        holder.target = moved(ast.Tuple([ast.Name(k, ast.Store()), ast.Name(v, ast.Store())], ast.Store()), holder.target)
        holder.iter = moved(ast.Call(ast.Attribute(ast.Name(d, ast.Load()), 'items', ast.Load()), [], []), holder.iter)


def constants(tree):
    """names of the module that are bound once, to a text or a number, are replaced by it inside of functions"""
    once, values = {}, {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            once[x.id] = once.get(x.id, 0) + 1
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            once[x.name] = once.get(x.name, 0) + 1
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for y in x.names:
                n = (y.asname or y.name).split('.')[0]
                once[n] = once.get(n, 0) + 1
        elif isinstance(x, ast.arg):
            once[x.arg] = once.get(x.arg, 0) + 1
        elif isinstance(x, ast.ExceptHandler) and x.name:
            once[x.name] = once.get(x.name, 0) + 1
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and \
                isinstance(s.value.value, (str, bytes, int)) and not isinstance(s.value.value, bool) and once.get(s.targets[0].id) == 1:
            values[s.targets[0].id] = s.value.value
    if not values:
        return

    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in values:
                return moved(ast.Constant(values[n.id]), n)
            return n
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            T().visit(fn)


def desugar(tree):
    constants(tree)
    Exprs().visit(tree)
    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        keyed(fn)
        for n, b in list(blocks(fn)) + [(h, h.body) for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler)]:
            i = 0
            while i < len(b):
                ranged(b[i], fn)
                if isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.YieldFrom) and isinstance(b[i].value.value, ast.GeneratorExp) and len(b[i].value.value.generators) == 1:
                    vs = set(names(b[i].value.value.generators[0].target))
                    if len([n for n in names(fn) if n in vs]) == len([n for n in names(b[i]) if n in vs]) and not any(isinstance(x, ast.Yield) for x in ast.walk(b[i].value.value)):
                        b[i] = spread(b[i])
                x = b[i]
                if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and len(x.body) == 1 and not x.orelse and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Yield) \
                        and isinstance(x.body[0].value.value, ast.Name) and x.body[0].value.value.id == x.target.id and not isinstance(x.iter, ast.GeneratorExp) \
                        and names(fn).count(x.target.id) == names(x).count(x.target.id):
                    b[i] = moved(ast.Expr(ast.YieldFrom(x.iter)), x)
                new = refused(b[i], fn) or until(b[i], fn)
                if new is not None:
                    b[i:i + 1] = new
                if i + 1 < len(b) and isinstance(b[i + 1], ast.While):
                    new = again(b[i], b[i + 1])
                    if new is not None:
                        b[i:i + 2] = new
                if i + 1 < len(b):
                    for way in (iterated, counted):
                        new = way(b[i], b[i + 1], fn)
                        if new is not None:
                            b[i:i + 2] = new
                            ranged(b[i], fn)
                            break
                    else:
                        new = collected(b[i], b[i + 1], fn) or quantified(b[i], b[i + 1], fn) or answered(b[i], b[i + 1], fn)
                        if new is not None:
                            b[i:i + 2] = new
                            continue
                    if i and isinstance(b[i], ast.For):
                        new = collected(b[i - 1], b[i], fn)
                        if new is not None:
                            b[i - 1:i + 1] = new
                            continue
                i += 1
    ast.fix_missing_locations(tree)
    return tree
