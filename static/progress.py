"""Does a while loop end: what a pass over its body changes, and what it does once its input is used up.

Everything here works on the syntax of one function: the passes over a body are enumerated, the variables are
substituted by what they were at the start of the pass, nothing is run."""
import ast
import copy

PURE = {'set', 'list', 'sorted', 'tuple', 'len', 'str', 'dict', 'frozenset', 'reversed', 'min', 'max', 'sum', 'any', 'all', 'map',
        'filter', 'zip', 'enumerate', 'isinstance', 'bool', 'int', 'repr', 'type', 'hash', 'bytes', 'float', 'abs', 'getattr', 'hasattr',
        'as_posix', 'startswith', 'endswith', 'strip', 'split', 'copy', 'keys', 'values', 'items', 'union', 'difference',
        'relative_to', 'with_name', 'is_relative_to', 'join', 'format', 'intersection', 'absolute', 'as_path'}
READS = {'read', 'read1', 'readline', 'readinto', 'recv', 'FindNextStreamW', 'FindNextFileW', 'readlines'}
POPS = {'next', 'pop', 'popleft', 'popitem', 'get_nowait', '__next__'}
CHANGES = {'pop', 'remove', 'append', 'clear', 'discard', 'add', 'extend', 'popleft', 'popitem', 'update', 'difference_update',
           'intersection_update', 'insert', 'appendleft'}
FRESH = '__fresh__'
LIMIT = 4000


class TooMany(Exception):
    pass


def call_name(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and f'{b}.{e.attr}'
    return None


def loads(e):
    """names and dotted names that are read, the longest ones"""
    out = set()

    def go(x):
        d = dotted(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
        if d:
            out.add(d)
            while '.' in d:
                d = d.rpartition('.')[0]
                out.add(d)
            return
        for c in ast.iter_child_nodes(x):
            go(c)
    go(e)
    return out


def own_names(e):
    """names bound inside the expression"""
    return {n.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}


class Sub(ast.NodeTransformer):
    def __init__(self, env, skip):
        self.env, self.skip = env, skip

    def visit_Attribute(self, n):
        d = dotted(n)
        if d and d in self.env:
            return copy.deepcopy(self.env[d])
        return ast.Attribute(self.visit(n.value), n.attr, ast.Load())

    def visit_Name(self, n):
        if n.id in self.env and n.id not in self.skip:
            return copy.deepcopy(self.env[n.id])
        return n

    def visit_Call(self, n):
        n = ast.Call(self.visit(n.func), [self.visit(a) for a in n.args], [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords])
        name = call_name(n)
        if name not in PURE:
            return ast.Name(FRESH, ast.Load())
        return n

    def visit_NamedExpr(self, n):
        return self.visit(n.value)

    def visit_Lambda(self, n):
        return n


def subst(e, env):
    try:
        return Sub(env, own_names(e)).visit(copy.deepcopy(e))
    except RecursionError:
        return ast.Name(FRESH, ast.Load())


def fresh(e):
    return any(isinstance(n, ast.Name) and n.id == FRESH for n in ast.walk(e))


def size(e):
    return sum(1 for _ in ast.walk(e))


class Passes:
    """the passes over a loop body: (how it ends, {name: value in terms of the start of the pass}, conditions)"""

    def __init__(self, related):
        self.related = related      # the names whose emptiness the test rules out
        self.n = 0

    def assign(self, env, target, val):
        env = dict(env)
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = val.elts if isinstance(val, (ast.Tuple, ast.List)) and len(val.elts) == len(target.elts) and \
                not any(isinstance(x, ast.Starred) for x in target.elts + val.elts) else [ast.Name(FRESH, ast.Load()) if fresh(val) else val] * len(target.elts)
            for t, v in zip(target.elts, vals):
                env = self.assign(env, t.value if isinstance(t, ast.Starred) else t, v)
            return env
        if isinstance(target, ast.Subscript):
            target = target.value
            val = ast.Name(FRESH, ast.Load())
        d = dotted(target)
        if d:
            if size(val) > 400:
                val = ast.Name(FRESH, ast.Load())
            env[d] = val
            for k in [k for k in env if k.startswith(d + '.')]:
                del env[k]
        return env

    def effects(self, e, env):
        """what evaluating an expression changes"""
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                env = self.assign(env, n.target, subst(n.value, env))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                d = dotted(n.func.value)
                if d:
                    env = self.assign(env, n.func.value, ast.Name(FRESH, ast.Load()))
        return env

    def block(self, stmts, env, conds):
        states = [('next', env, conds)]
        for s in stmts:
            out = []
            for k, e, c in states:
                if k != 'next':
                    out.append((k, e, c))
                else:
                    out += self.stmt(s, e, c)
            states = out
            self.n += len(states)
            if self.n > LIMIT:
                raise TooMany
        return states

    def stmt(self, s, env, conds):
        if isinstance(s, ast.Assign):
            env = self.effects(s.value, env)
            v = subst(s.value, env)
            for t in s.targets:
                env = self.assign(env, t, v)
            return [('next', env, conds)]
        if isinstance(s, ast.AnnAssign):
            return [('next', self.assign(env, s.target, subst(s.value, env)) if s.value else env, conds)]
        if isinstance(s, ast.AugAssign):
            v = ast.BinOp(subst(ast.parse(ast.unparse(s.target), mode='eval').body, env), s.op, subst(s.value, env))
            return [('next', self.assign(env, s.target, v), conds)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                env = self.assign(env, t, ast.Name(FRESH, ast.Load()))
            return [('next', env, conds)]
        if isinstance(s, ast.Expr):
            return [('next', self.effects(s.value, env), conds)]
        if isinstance(s, (ast.Return, ast.Raise)):
            return [('leave', env, conds)]
        if isinstance(s, ast.Break):
            return [('break', env, conds)]
        if isinstance(s, ast.Continue):
            return [('continue', env, conds)]
        if isinstance(s, ast.If):
            env = self.effects(s.test, env)
            t = subst(s.test, env)
            if isinstance(t, ast.Constant):
                return self.block(s.body if t.value else s.orelse, env, conds)
            return self.block(s.body, env, conds + ((t, True),)) + self.block(s.orelse, env, conds + ((t, False),))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = subst(s.iter, env)
            some = bool((loads(it) & self.related)) and not any(isinstance(n, ast.comprehension) and n.ifs for n in ast.walk(it))
            inner = self.assign(self.effects(s.iter, env), s.target, ast.Name(FRESH, ast.Load()))
            out = [] if some else self.block(s.orelse, env, conds)
            for k, e, c in self.block(s.body, inner, conds):
                if k == 'leave':
                    out.append((k, e, c))
                elif k == 'break':
                    out.append(('next', e, c))
                else:
                    out += self.block(s.orelse, e, c)
            return out
        if isinstance(s, ast.While):
            t = subst(s.test, env)
            out = [] if isinstance(t, ast.Constant) and t.value else [('next', env, conds + ((t, False),))]
            for k, e, c in self.block(s.body, env, conds + ((t, True),)):
                out.append((k if k == 'leave' else 'next', e, c))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                env = self.effects(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.assign(env, i.optional_vars, ast.Name(FRESH, ast.Load()))
            return self.block(s.body, env, conds)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            out = []
            for k, e, c in self.block(s.body, env, conds):
                out += self.block(s.orelse, e, c) if k == 'next' else [(k, e, c)]
            for h in s.handlers:        # the first statement fails
                out += self.block(h.body, env, conds)
            res = []
            for k, e, c in out:
                for k2, e2, c2 in self.block(s.finalbody, e, c):
                    res.append((k if k2 == 'next' else k2, e2, c2))
            return res
        if isinstance(s, ast.Match):
            out = []
            for case in s.cases:
                e = env
                for n in ast.walk(case.pattern):
                    nm = getattr(n, 'name', None)
                    if isinstance(nm, str):
                        e = self.assign(e, ast.Name(nm, ast.Store()), ast.Name(FRESH, ast.Load()))
                out += self.block(case.body, e, conds)
            return out + [('next', env, conds)]
        return [('next', env, conds)]


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                d = dotted(n)
                if d:
                    out.add(d)
    return out


def value_ends(test, name, const):
    """does the test fail when the name is this constant; None: not known"""
    if isinstance(test, ast.Name) or isinstance(test, ast.Attribute):
        return not const if dotted(test) == name else None
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = value_ends(test.operand, name, const)
        return None if v is None else not v
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and dotted(test.left) == name and isinstance(test.comparators[0], ast.Constant):
        o, c = test.ops[0], test.comparators[0].value
        if isinstance(o, (ast.Is, ast.Eq)):
            return const != c
        if isinstance(o, (ast.IsNot, ast.NotEq)):
            return const == c
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        vs = [value_ends(x, name, const) for x in test.values]
        return True if True in vs else None
    return None


def is_parent_of(e, name):
    return isinstance(e, ast.Attribute) and e.attr == 'parent' and dotted(e.value) == name


def differs(conds, a, b):
    """do the conditions say that the two differ"""
    a, b = ast.dump(a), ast.dump(b)
    for t, v in conds:
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, v = t.operand, not v
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            x, y = ast.dump(t.left), ast.dump(t.comparators[0])
            if {x, y} == {a, b} and (isinstance(t.ops[0], (ast.NotEq, ast.IsNot)) and v or isinstance(t.ops[0], (ast.Eq, ast.Is)) and not v):
                return True
    return False


def progresses(test, name, val, conds, carried):
    """does this new value bring the end of the loop closer"""
    if dotted(val) == name:
        return False
    if isinstance(val, ast.Constant):
        return value_ends(test, name, val.value) is not False
    here = ast.parse(name, mode='eval').body
    if is_parent_of(val, name):
        return differs(conds, val, here) or any(isinstance(x, ast.Attribute) and x.attr in ('parent', 'parents', 'anchor', 'root') for x in ast.walk(test))
    if fresh(val):
        return True
    if isinstance(val, ast.BinOp) and isinstance(val.op, (ast.Sub, ast.BitAnd, ast.BitOr)) and not isinstance(val.right, ast.Constant):
        inner = [x for x in (val.left, val.right) if dotted(x) != name]
        return any(progresses(test, name, x, conds, carried) for x in inner if not isinstance(x, ast.Constant))
    if isinstance(val, ast.Call) and call_name(val) in ('set', 'list', 'tuple', 'sorted', 'frozenset', 'filter') and val.args:
        return progresses(test, name, val.args[-1], conds, carried)
    if isinstance(val, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
        # the same filter once more leaves nothing out
        return not all(dotted(g.iter) == name for g in val.generators) and any(progresses(test, name, g.iter, conds, carried) for g in val.generators)
    own = own_names(val)
    used = {u for u in loads(val) if u not in own}
    return name in used or bool(used & carried)


def stuck(loop):
    """passes over the body of a loop with a test, or with exits, after which the test sees what it saw before"""
    test = loop.test
    P = Passes(set())
    if isinstance(test, ast.Constant) and test.value:
        ends = P.block(loop.body, {}, ())
        leave = [c for k, e, c in ends if k in ('leave', 'break')]
        return [] if leave or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(loop)) else [('nothing in the loop leaves it', ())]
    if any(isinstance(n, ast.Call) and call_name(n) not in PURE for n in ast.walk(test)):
        return []          # the test itself takes the next thing
    names = loads(test) - PURE
    carried = assigned(loop.body)
    P = Passes(set(names))
    out = []
    for k, env, conds in P.block(loop.body, {}, ()):
        if k in ('leave', 'break'):
            continue
        vals = {n: env[n] for n in names if n in env}
        conds = conds + ((test, True),)
        moving = set()
        while True:
            new = {o for o in carried if o in env and o not in moving and progresses(test, o, env[o], conds, moving)}
            if not new:
                break
            moving |= new
        if moving & set(vals):
            continue
        out.append((f'{", ".join(sorted(names))} {"is" if len(names) == 1 else "are"} what it was before' if not vals else
                    '; '.join(f'{n} = {ast.unparse(v)}' for n, v in sorted(vals.items())) + ' brings the end no closer', conds))
    return out


# -- what a loop does once the input is used up ------------------------------------------------------------

E, U = 'empty', '?'


class Drained:
    """simulate passes where every read gives nothing"""

    def __init__(self):
        self.n = 0

    def val(self, e, env):
        if isinstance(e, ast.Await):
            return self.val(e.value, env)
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value, env)
        if isinstance(e, ast.Constant):
            return E if e.value in (b'', '') else ('const', e.value)
        d = dotted(e)
        if d:
            return env.get(d, U)
        if isinstance(e, ast.Call):
            n = call_name(e)
            if n in READS:
                return E
            if n == 'len' and e.args and self.val(e.args[0], env) == E:
                return ('const', 0)
            if n in ('bytes', 'str', 'bytearray', 'memoryview') and e.args and self.val(e.args[0], env) == E:
                return E
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return E if self.val(e.left, env) == E == self.val(e.right, env) else U
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('tuple', tuple(self.val(x, env) for x in e.elts))
        if isinstance(e, ast.Subscript) and self.val(e.value, env) == E and isinstance(e.slice, ast.Slice):
            return E
        if isinstance(e, (ast.UnaryOp, ast.BoolOp, ast.Compare)):
            t = self.truth(e, env)
            return U if t is None else ('const', t)
        return U

    def truth(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand, env)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x, env) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b, o = self.val(e.left, env), self.val(e.comparators[0], env), e.ops[0]
            if isinstance(o, (ast.Is, ast.IsNot)):
                if E in (a, b) and ('const', None) in (a, b):
                    return isinstance(o, ast.IsNot)
                return None
            if isinstance(o, (ast.Eq, ast.NotEq)):
                r = True if a == b == E else None
                if r is None and a[0] == b[0] == 'const':
                    r = a[1] == b[1]
                if r is None and E in (a, b) and ('const' in (a[0], b[0])):
                    r = False
                return None if r is None else r == isinstance(o, ast.Eq)
            zero = ('const', 0)
            if a[0] == b[0] == 'const':
                try:
                    return {ast.Lt: a[1] < b[1], ast.LtE: a[1] <= b[1], ast.Gt: a[1] > b[1], ast.GtE: a[1] >= b[1]}.get(type(o))
                except TypeError:
                    return None
            if a == zero:      # sizes are positive
                return {ast.Lt: True, ast.LtE: True, ast.Gt: False, ast.GtE: False}.get(type(o))
            if b == zero:
                return {ast.Lt: False, ast.LtE: False, ast.Gt: True, ast.GtE: True}.get(type(o))
            return None
        v = self.val(e, env)
        if v == E:
            return False
        if v[0] == 'const':
            return bool(v[1])
        return None

    def assign(self, env, t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == 'tuple' and len(v[1]) == len(t.elts) else [U] * len(t.elts)
            for x, y in zip(t.elts, vs):
                env = self.assign(env, x, y)
            return env
        d = dotted(t)
        if not d:
            return env
        env = {k: x for k, x in env.items() if k != d and not k.startswith(d + '.')}
        if v != U:
            env[d] = v
        return env

    def effects(self, e, env):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                env = self.assign(env, n.target, self.val(n.value, env))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES:
                env = self.assign(env, n.func.value, U)
        return env

    def raises(self, s):
        return any(isinstance(n, ast.Call) and call_name(n) in ('next', '__next__', 'get_nowait') and len(n.args) < 2 for n in ast.walk(s))

    def block(self, stmts, env):
        states = [('next', env)]
        for s in stmts:
            out = []
            for k, e in states:
                for r in ([(k, e)] if k != 'next' else self.stmt(s, e)):
                    if r not in out:
                        out.append(r)
            states = out
            self.n += len(states)
            if self.n > LIMIT:
                raise TooMany
        return states

    def stmt(self, s, env):
        if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign, ast.AnnAssign, ast.Return)) and self.raises(s):
            return [('raise', env)]
        if isinstance(s, ast.Assign):
            env = self.effects(s.value, env)
            v = self.val(s.value, env)
            for t in s.targets:
                env = self.assign(env, t, v)
            return [('next', env)]
        if isinstance(s, ast.AnnAssign):
            return [('next', self.assign(env, s.target, self.val(s.value, env)) if s.value else env)]
        if isinstance(s, ast.AugAssign):
            d = dotted(s.target)
            v = env.get(d, U) if d else U
            return [('next', self.assign(env, s.target, E if v == E == self.val(s.value, env) else U))]
        if isinstance(s, ast.Expr):
            return [('next', self.effects(s.value, env))]
        if isinstance(s, ast.Return):
            return [('leave', env)]
        if isinstance(s, ast.Raise):
            return [('raise', env)]
        if isinstance(s, ast.Break):
            return [('break', env)]
        if isinstance(s, ast.Continue):
            return [('continue', env)]
        if isinstance(s, ast.If):
            env = self.effects(s.test, env)
            t = self.truth(s.test, env)
            out = []
            if t is not False:
                out += self.block(s.body, env)
            if t is not True:
                out += self.block(s.orelse, env)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            out = self.block(s.orelse, env)
            if self.val(s.iter, env) == E:
                return out
            for k, e in self.block(s.body, self.assign(env, s.target, U)):
                out += [(k, e)] if k in ('leave', 'raise') else [('next', e)]
            return out
        if isinstance(s, ast.While):
            t = self.truth(s.test, env)
            out = [] if t is True else [('next', env)]
            if t is not False:
                for k, e in self.block(s.body, env):
                    out += [(k, e)] if k in ('leave', 'raise') else [('next', e)]
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                if i.optional_vars is not None:
                    env = self.assign(env, i.optional_vars, U)
            return self.block(s.body, env)
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            out = []
            for k, e in self.block(s.body, env):
                if k == 'next':
                    out += self.block(s.orelse, e)
                elif k == 'raise':
                    for h in s.handlers:
                        out += self.block(h.body, e)
                    out.append((k, e))
                else:
                    out.append((k, e))
            res = []
            for k, e in out:
                for k2, e2 in self.block(s.finalbody, e):
                    res.append((k if k2 == 'next' else k2, e2))
            return res
        if isinstance(s, ast.Match):
            out = [('next', env)]
            for case in s.cases:
                out += self.block(case.body, env)
            return out
        return [('next', env)]


def reads(loop):
    return [n for n in ast.walk(loop) if isinstance(n, ast.Call) and call_name(n) in READS | {'next', '__next__', 'get_nowait'}
            and not (call_name(n) == 'next' and len(n.args) > 1)]


def goes_on(loop):
    """does the loop go on although every read gives nothing"""
    D = Drained()
    states = [{}]
    for _ in range(4):
        back = []
        for env in states:
            env = D.effects(loop.test, env)
            if D.truth(loop.test, env) is False:
                continue
            for k, e in D.block(loop.body, env):
                if k in ('next', 'continue') and e not in back:
                    back.append(e)
        states = back
        if not states:
            return False
    return True


def dead(fn):
    """loops in statements that are never reached"""
    out = set()

    def go(stmts):
        over = False
        for s in stmts:
            if over:
                for n in ast.walk(s):
                    out.add(n)
                continue
            for part in ('body', 'orelse', 'finalbody'):
                go(getattr(s, part, []) if isinstance(getattr(s, part, []), list) else [])
            for h in getattr(s, 'handlers', []):
                go(h.body)
            for c in getattr(s, 'cases', []):
                go(c.body)
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                over = True
    go(fn.body)
    return out


def climbs(fn, helpers={}):
    """[(node, guarded)] of references of the function to itself on the parent of something"""
    out = []
    parents = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    ups = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == 'parent':
            for t in n.targets:
                if isinstance(t, ast.Name):
                    ups[t.id] = n.value
    once = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            once.setdefault(n.targets[0].id, []).append(n.value)

    def spelled(t, depth=3):
        """a test, with the conditions that were put into a variable before"""
        out = [t]
        for y in ast.walk(t):
            if depth and isinstance(y, ast.Name) and len(once.get(y.id, ())) == 1:
                out += spelled(once[y.id][0], depth - 1)
        return out
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Attribute) and n.attr == fn.name):
            continue
        b = n.value
        if isinstance(b, ast.Name) and b.id in ups:
            b = ups[b.id]
        if not (isinstance(b, ast.Attribute) and b.attr == 'parent'):
            continue
        tests = []
        x = n
        while x is not fn:
            up = parents[x]
            if isinstance(up, (ast.If, ast.While, ast.IfExp)) and x is not up.test:
                tests.append(up.test)
            if isinstance(up, ast.BoolOp) and x is not up.values[0]:
                tests += up.values[:up.values.index(x)]
            for part in ('body', 'orelse', 'finalbody'):
                blk = getattr(up, part, None)
                if isinstance(blk, list) and x in blk:
                    for s in blk[:blk.index(x)]:
                        if isinstance(s, ast.If) and any(isinstance(y, (ast.Return, ast.Raise)) for y in ast.walk(s)):
                            tests.append(s.test)
                        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and call_name(s.value) in helpers:
                            tests += [y.test for y in ast.walk(helpers[call_name(s.value)]) if isinstance(y, ast.If) and any(isinstance(z, ast.Raise) for z in ast.walk(y))]
            x = up
        tests = [y for t in tests for y in spelled(t)]
        txt = [ast.unparse(t) for t in tests]
        ok = any(w in t for t in txt for w in ('anchor', 'parent', 'root', 'is_broken_symlink', 'is_symlink')) or \
            any('len(' in t and 'parts' in t for t in txt) or \
            any(isinstance(c, ast.Call) and call_name(c) not in PURE | {'is_dir', 'exists', 'is_file', 'glob', 'is_absolute'} for t in tests for c in ast.walk(t))
        out.append((n, ok))
    return out
