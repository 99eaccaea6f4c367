"""Path-sensitive abstract interpreter over the syntax tree.

Trace-partitioning dataflow: the abstract state maps variables to value names
(hash-consed terms), and carries branch facts (a conjunction of atoms closed
under a few axioms), so correlated branches stay correlated.  Loops are summarised by
zero, first and "some later" iterations, the last started from a state in which
everything the loop assigns is forgotten.  No code runs and no solver is used."""
import ast
import builtins
from model import (Program, Func, Prop, Alias, Class, Module, ModRef, AnalysisError, is_generator)

NONE = ('c', 'NoneType', None)
NONETYPE = ('bi', 'NoneType')
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)


def C(v):
    if isinstance(v, tuple):
        return ('tup', tuple(C(x) for x in v))
    if isinstance(v, frozenset):
        return ('set', tuple(C(x) for x in sorted(v, key=repr)))
    return ('c', type(v).__name__, v)


def is_const(t):
    return t[0] == 'c'


def const_of(t):
    """python value of a constant term, or KeyError"""
    if t[0] == 'c':
        return t[2]
    if t[0] == 'strof':
        return const_of(t[1])
    if t[0] in ('tup', 'list'):
        return tuple(const_of(x) for x in t[1])
    if t[0] == 'set':
        return frozenset(const_of(x) for x in t[1])
    raise KeyError(t)


PATH_WRAP = {'as_posix', '__fspath__', '__str__', 'absolute', 'expanduser'}


def pid(t):
    """file system identity of a path term: strips wrappers that keep the path"""
    while True:
        if t[0] == 'strof':
            t = t[1]
        elif t[0] == 'abs':
            t = t[1]
        elif t[0] == 'new' and t[3:] and t[1] in ('path',) and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == 'local':
            t = t[1]
        elif t[0] == 'div':
            return ('div', pid(t[1]), pid(t[2]))
        elif t[0] == 'attr' and t[2] == 'parent':
            return ('attr', pid(t[1]), 'parent')
        else:
            return t


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        return any(contains(x, sub) for x in t if isinstance(x, tuple))
    return False


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subterms(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from subterms(y)


class Src:
    """what a forgotten variable may hold; opaque to searches through terms"""
    __slots__ = ('old', 'new')

    def __init__(self, old, new):
        self.old, self.new = old, new

    def __eq__(self, o):
        return isinstance(o, Src) and (self.old, self.new) == (o.old, o.new)

    def __hash__(self):
        return hash((self.old, self.new))

    def __repr__(self):
        return 'Src'


def sources(t):
    """the terms a variable that a loop changes may stand for"""
    if t is None:
        return []
    if t[0] == 'havoc' and len(t) > 3:
        return sources(t[3].old) + sources(t[3].new)
    return [t]


class Ctl:
    pass


class Raise(Ctl):
    __slots__ = ('exc', 'node')

    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node


class Abort(Ctl):
    """consumer of an inlined generator left it early"""
    __slots__ = ('kind', 'val', 'token')

    def __init__(self, kind, val, token):
        self.kind, self.val, self.token = kind, val, token


class Event:
    __slots__ = ('kind', 'name', 'target', 'args', 'kw', 'node', 'func', 'st', 'result', 'idx')

    def __init__(self, kind, name, target, args, kw, node, func, st, result=None):
        self.kind, self.name, self.target, self.args, self.kw = kind, name, target, tuple(args), dict(kw)
        self.node, self.func, self.st, self.result = node, func, st, result

    @property
    def where(self):
        return f'{self.func.module.path}:{getattr(self.node, "lineno", 0)}'

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return self.kw.get(name, default)

    def __repr__(self):
        return f'<{self.kind} {self.name} {show(self.target) if self.target else ""} {[show(a) for a in self.args]} @{self.where}>'


def not_none(t):
    """a type, or types, that None is no instance of"""
    if t[0] == 'tup':
        return all(not_none(x) for x in t[1])
    return t[0] == 'class' or t[0] == 'bi' and t[1] not in ('object', 'NoneType')


def show(t, depth=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 8:
        return '...'
    s = lambda x: show(x, depth + 1)
    k = t[0]
    try:
        if k == 'c':
            return repr(t[2])
        if k == 'param':
            return t[1]
        if k == 'attr':
            return f'{s(t[1])}.{t[2]}'
        if k == 'div':
            return f'{s(t[1])} / {s(t[2])}'
        if k in ('strof', 'abs', 'local'):
            return s(t[1])
        if k == 'elem':
            return f'each({s(t[1])})'
        if k in ('tup', 'list', 'set'):
            return '(' + ', '.join(s(x) for x in t[1]) + ')'
        if k == 'call':
            return f'{t[1] if isinstance(t[1], str) else s(t[1])}({", ".join(s(x) for x in t[2])})'
        if k == 'b':
            return s(t[1])
        if k == 'not':
            return f'not {s(t[1])}'
        if k == 'fs':
            return f'{s(t[2])}.{t[1]}()'
        if k in ('eq', 'lt', 'in', 'is'):
            return f'{s(t[1])} {dict(eq="==", lt="<", is_="is").get(k, k)} {s(t[2])}'
        if k == 'truthy':
            return f'bool({s(t[1])})'
        if k == 'excis':
            return f'exception is {t[2]}'
        if k == 'ownattr':
            return f'{t[2]!r} in {s(t[1])}.__dict__'
        if k == 'hasattr':
            return f'hasattr({s(t[1])}, {t[2]!r})'
        if k == 'exc':
            return f'<{t[1]}>'
        if k in ('ext', 'func', 'class', 'bi'):
            return t[1]
        if k == 'bound':
            return f'{s(t[2])}.{t[1].rpartition(".")[2]}'
        if k == 'havoc':
            return f'?{t[1]}'
        if k == 'fstr':
            return 'f"' + ''.join(x[2] if x[0] == 'c' and isinstance(x[2], str) else '{' + s(x) + '}' for x in t[1]) + '"'
        return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'
    except Exception:
        return repr(t)


def whole(t):
    """(what a slice up to the end is of, where it starts)"""
    if t[0] == 'slice' and len(t) == 4 and t[3] == NONE and is_const(t[2]) and isinstance(t[2][2], int) and t[2][2] > 0:
        return t[1], t[2][2]
    return t, 0


def text_type(x):
    """'str' or 'bytes' for terms that can only be that"""
    if x[0] in ('strof', 'fstr') or x[0] == 'call' and x[1] in ('str', 'repr', 'chr', 'hex', 'format', 'ascii'):
        return 'str'
    if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'm':
        tgt, m = x[1][1], x[1][2]
        k = None
        if m == 'join' and is_const(tgt):
            k = type(tgt[2]).__name__
        elif m in ('replace_str', 'strip', 'lstrip', 'rstrip') and x[2] and is_const(x[2][0]):
            k = type(x[2][0][2]).__name__
        elif m in ('hex', 'isoformat', 'as_posix') or m == 'decode' and all(is_const(y) for y in x[2]):
            k = 'str'
        return k if k in ('str', 'bytes') else None
    if x[0] == 'bin' and x[1] == 'Add':
        return text_type(x[2]) or text_type(x[3])
    return None


class State:
    __slots__ = ('frames', 'heap', 'facts', 'dom', 'bounds', 'trace', 'epoch', 'n')

    def __init__(self):
        self.frames, self.heap, self.facts, self.dom, self.bounds = {}, {}, {}, {}, {}
        self.trace = None
        self.epoch = 0
        self.n = 0

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap, s.facts, s.dom, s.bounds = self.frames, self.heap, self.facts, self.dom, self.bounds
        s.trace, s.epoch, s.n = self.trace, self.epoch, self.n
        return s

    # functional updates
    def set_var(self, fid, name, val):
        s = self.copy()
        f = dict(s.frames[fid])
        f[name] = val
        s.frames = {**s.frames, fid: f}
        return s

    def del_var(self, fid, name):
        s = self.copy()
        f = dict(s.frames[fid])
        f.pop(name, None)
        s.frames = {**s.frames, fid: f}
        return s

    def log(self, item):
        s = self.copy()
        s.trace = (self.trace, item)
        return s

    def fresh(self):
        s = self.copy()
        s.n += 1
        return s, s.n

    def items(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def events(self, kind=None, name=None):
        out = [i for i in self.items() if isinstance(i, Event)]
        if kind:
            out = [e for e in out if e.kind == kind]
        if name:
            names = (name,) if isinstance(name, str) else name
            out = [e for e in out if e.name in names]
        return out

    # -- facts -----------------------------------------------------------
    def holds(self, atom):
        """entailment: True / False / None"""
        k = atom[0]
        if k == 'not':
            v = self.holds(atom[1])
            return None if v is None else not v
        if atom in self.facts:
            return self.facts[atom]
        if k == 'ownattr':
            return False if self.facts.get(('hasattr',) + atom[1:]) is False else None
        if k == 'hasattr':
            return True if self.facts.get(('ownattr',) + atom[1:]) is True else None
        if k == 'truthy':
            t = atom[1]
            if t[0] == 'c':
                return bool(t[2])
            if t[0] in ('tup', 'list', 'set'):
                if not any(x[0] == 'star' for x in t[1]):
                    return bool(t[1])
                return True if any(x[0] != 'star' for x in t[1]) else None
            if t[0] == 'b':
                return self.holds(t[1])
            if t[0] in ('bound', 'func', 'class', 'clo', 'ext', 'newexc', 'exc', 'genobj', 'path', 'lambda'):
                return True
            if t[0] == 'strof':
                return self.holds(('truthy', t[1])) or None
            d = self.dom.get(t)
            if d is not None and d[0] == 'in':
                vals = {bool(c[2]) for c in d[1]}
                if len(vals) == 1:
                    return vals.pop()
            return None
        if k == 'isinst' and not_none(atom[2]):
            return False if self.dom.get(atom[1]) == ('in', frozenset([NONE])) else None
        if k == 'eq':
            return self._eq(atom[1], atom[2])
        if k == 'isc':          # identity with None/True/False or an enum-like constant
            return self._eq(atom[1], atom[2])
        if k == 'is':
            if atom[1] == atom[2]:
                return True
            a, c = atom[1], atom[2]
            if a[0] == 'c' and c[0] == 'c':
                return a == c
            if self.holds(('truthy', a)) is False and c == TRUE:
                return False
            if self.holds(('truthy', a)) is True and c == FALSE:
                return False
            return None
        if k == 'lt':
            return self._lt(atom[1], atom[2])
        if k == 'in':
            if is_const(atom[1]) and is_const(atom[2]):
                try:
                    return atom[1][2] in atom[2][2]
                except TypeError:
                    return None
            try:
                vals = atom[2][1] if atom[2][0] in ('tup', 'list', 'set') else None
            except IndexError:
                vals = None
            if vals is not None:
                rs = [self._eq(atom[1], v) for v in vals]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                d = self.dom.get(atom[1])
                if d is not None and d[0] == 'in' and d[1] <= set(vals):
                    return True
            return None
        if k == 'fs':
            _, p, x, ep = atom
            f = lambda q: self.facts.get(('fs', q, x, ep))
            if p == 'exists':
                if f('is_dir') or f('is_file'):
                    return True
            elif p in ('is_dir', 'is_file'):
                if f('exists') is False:
                    return False
                if f('is_file' if p == 'is_dir' else 'is_dir'):
                    return False
            return None
        if k == 'excis':
            return None
        return None

    def _eq(self, a, b):
        if a == b:
            return True
        if is_const(a) and is_const(b):
            return a[2] == b[2]
        if is_const(a):
            a, b = b, a
        if is_const(b):
            if a[0] == 'b':
                v = self.holds(a[1])
                if b in (TRUE, FALSE) and v is not None:
                    return v == b[2]
                if b == NONE:
                    return False
            if a[0] in ('tup', 'list', 'set', 'bound', 'func', 'class', 'clo', 'new', 'newexc', 'fstr', 'strof', 'dict', 'exc', 'lambda', 'file', 'genobj', 'div', 'abs', 'classof', 'comp', 'mapping') and b == NONE:
                return False
            if a[0] == 'call' and a[1] == 'object' and not a[2]:
                return False
            d = self.dom.get(a)
            if d is not None:
                if d[0] == 'in':
                    if b not in d[1]:
                        return False
                    if len(d[1]) == 1:
                        return True
                elif b in d[1]:
                    return False
            tr = self.facts.get(('truthy', a))
            if tr is True and not b[2]:
                return False
            if tr is False and b[2] and not isinstance(b[2], tuple):
                return False
            lo, ls, hi, hs = self.bounds.get(a, (None, False, None, False))
            if isinstance(b[2], (int, float)) and not isinstance(b[2], bool):
                if lo is not None and (b[2] < lo or (ls and b[2] == lo)):
                    return False
                if hi is not None and (b[2] > hi or (hs and b[2] == hi)):
                    return False
            return None
        if a[0] in ('tup', 'list') and b[0] == a[0] and not any(x[0] == 'star' for x in a[1] + b[1]):
            if len(a[1]) != len(b[1]):
                return False
            rs = [self._eq(x, y) for x, y in zip(a[1], b[1])]
            if any(r is False for r in rs):
                return False
            if all(rs):
                return True
        if a[0] == 'bi' and b[0] == 'classof' or b[0] == 'bi' and a[0] == 'classof':
            c, x = (b, a) if a[0] == 'classof' else (a, b)
            c, x = (c, x) if c[0] == 'bi' else (x, c)
            k = text_type(x[1])
            if k is not None:
                return c[1] == k
        k = ('eq',) + tuple(sorted((a, b), key=repr))
        if k in self.facts:
            return self.facts[k]
        if self.facts.get(('lt', a, b)) or self.facts.get(('lt', b, a)):
            return False
        if self.facts.get(('lt', a, b)) is False and self.facts.get(('lt', b, a)) is False:
            return True
        return None

    def _lt(self, a, b):
        if a == b:
            return False
        if is_const(a) and is_const(b):
            try:
                return a[2] < b[2]
            except TypeError:
                return None
        if is_const(b) and isinstance(b[2], (int, float)):
            lo, ls, hi, hs = self.bounds.get(a, (None, False, None, False))
            if hi is not None and (hi < b[2] or hs and hi == b[2]):
                return True
            if lo is not None and lo >= b[2]:
                return False
            return None
        if is_const(a) and isinstance(a[2], (int, float)):
            lo, ls, hi, hs = self.bounds.get(b, (None, False, None, False))
            if lo is not None and (lo > a[2] or ls and lo == a[2]):
                return True
            if hi is not None and hi <= a[2]:
                return False
            return None
        f = self.facts.get(('lt', a, b))
        if f is not None:
            return f
        if self.facts.get(('lt', b, a)):
            return False
        if self.facts.get(('eq',) + tuple(sorted((a, b), key=repr))):
            return False
        if self.facts.get(('lt', b, a)) is False and self.facts.get(('eq',) + tuple(sorted((a, b), key=repr))) is False:
            return True
        return None

    def assume(self, atom, val):
        """state with the atom's value added, None when contradictory"""
        k = atom[0]
        if k == 'not':
            return self.assume(atom[1], not val)
        cur = self.holds(atom)
        if cur is not None:
            return self if cur == val else None
        s = self.copy()
        if k in ('eq', 'isc'):
            a, b = atom[1], atom[2]
            if is_const(a):
                a, b = b, a
            if is_const(b):
                if a[0] == 'b' and b in (TRUE, FALSE):
                    return self.assume(a[1], val == b[2])
                d = self.dom.get(a)
                if val:
                    nd = ('in', frozenset([b]))
                elif d is None:
                    nd = ('notin', frozenset([b]))
                elif d[0] == 'in':
                    nd = ('in', d[1] - {b})
                    if not nd[1]:
                        return None
                else:
                    nd = ('notin', d[1] | {b})
                s.dom = {**s.dom, a: nd}
                if val and ('truthy', a) in s.facts and s.facts[('truthy', a)] != bool(b[2]):
                    return None
            else:
                s.facts = {**s.facts, ('eq',) + tuple(sorted((a, b), key=repr)): val}
            s.trace = (s.trace, ('fact', atom, val))
            return s
        if k == 'in' and atom[2][0] in ('tup', 'list', 'set') and all(is_const(v) for v in atom[2][1]):
            a, vals = atom[1], frozenset(atom[2][1])
            d = self.dom.get(a)
            if val:
                nd = vals if d is None else (d[1] & vals if d[0] == 'in' else vals - d[1])
                if not nd:
                    return None
                s.dom = {**s.dom, a: ('in', frozenset(nd))}
            else:
                if d is None:
                    s.dom = {**s.dom, a: ('notin', vals)}
                elif d[0] == 'in':
                    nd = d[1] - vals
                    if not nd:
                        return None
                    s.dom = {**s.dom, a: ('in', nd)}
                else:
                    s.dom = {**s.dom, a: ('notin', d[1] | vals)}
            s.trace = (s.trace, ('fact', atom, val))
            return s
        if k == 'lt':
            a, b = atom[1], atom[2]
            x, c, less = (a, b, val) if is_const(b) else (b, a, None)
            if is_const(b) and isinstance(b[2], (int, float)) or is_const(a) and isinstance(a[2], (int, float)):
                lo, ls, hi, hs = self.bounds.get(x, (None, False, None, False))
                if is_const(b):
                    v = b[2]
                    if val:        # x < v
                        hi, hs = v, True
                    else:          # x >= v
                        lo, ls = v, False
                else:
                    v = a[2]
                    if val:        # v < x
                        lo, ls = v, True
                    else:          # x <= v
                        hi, hs = v, False
                if x[0] == 'len' or x[0] == 'int':
                    if hs and hi == int(hi):
                        hi, hs = hi - 1, False
                    if ls and lo == int(lo):
                        lo, ls = lo + 1, False
                if lo is not None and hi is not None and (lo > hi or lo == hi and (ls or hs)):
                    return None
                s.bounds = {**s.bounds, x: (lo, ls, hi, hs)}
                s.trace = (s.trace, ('fact', atom, val))
                return s
            s.facts = {**s.facts, atom: val}
            s.trace = (s.trace, ('fact', atom, val))
            return s
        if k == 'isinst' and val and not_none(atom[2]):
            t, d = atom[1], self.dom.get(atom[1])
            nd = d[1] - {NONE} if d is not None and d[0] == 'in' else (d[1] if d is not None else frozenset()) | {NONE}
            if not nd:
                return None
            s.dom = {**s.dom, t: ('in' if d is not None and d[0] == 'in' else 'notin', nd)}
        s.facts = {**s.facts, atom: val}
        if k == 'truthy' and self.dom.get(atom[1], ('', ()))[0] == 'in':
            t = atom[1]
            nd = frozenset(c for c in self.dom[t][1] if bool(c[2]) == val)
            if not nd:
                return None
            s.dom = {**s.dom, t: ('in', nd)}
        if k == 'is' and atom[2] == TRUE and val:
            s.facts[('truthy', atom[1])] = True
        if k == 'fs' and val:
            _, p, x, ep = atom
            if p in ('is_dir', 'is_file'):
                if s.facts.get(('fs', 'exists', x, ep)) is False:
                    return None
        if k == 'fs' and not val and atom[1] == 'exists':
            for q in ('is_dir', 'is_file'):
                if s.facts.get(('fs', q, atom[2], atom[3])):
                    return None
        s.trace = (s.trace, ('fact', atom, val))
        return s

    def fs(self, pred, path):
        """current truth of a file system predicate of a path term"""
        return self.holds(('fs', pred, pid(path), self.epoch))


# ---------------------------------------------------------------------------
PRED = {'exists', 'is_file', 'is_dir', 'is_symlink'}
EXT_PRED = {'os.path.exists': 'exists', 'os.path.isfile': 'is_file', 'os.path.isdir': 'is_dir',
            'os.path.islink': 'is_symlink'}
# method name -> canonical effect
METH_EFFECT = {'unlink': 'unlink', 'rmdir': 'rmdir', 'rename': 'rename', 'replace': 'replace', 'mkdir': 'mkdir',
               'touch': 'touch', 'symlink_to': 'symlink', 'hardlink_to': 'link', 'link_to': 'link',
               'write_bytes': 'write', 'write_text': 'write', 'chmod': 'chmod', 'chdir': 'chdir'}
# external function -> (effect, index of the affected path)
EXT_EFFECT = {'os.unlink': 'unlink', 'os.remove': 'unlink', 'os.rmdir': 'rmdir', 'os.removedirs': 'rmdir',
              'os.rename': 'rename', 'os.renames': 'rename', 'os.replace': 'replace', 'os.mkdir': 'mkdir',
              'os.makedirs': 'mkdir', 'os.symlink': 'symlink', 'os.link': 'link', 'os.chdir': 'chdir',
              'os.fchdir': 'chdir', 'os.truncate': 'truncate', 'os.chmod': 'chmod',
              'shutil.rmtree': 'rmtree', 'shutil.move': 'move', 'shutil.copy': 'copy', 'shutil.copy2': 'copy',
              'shutil.copyfile': 'copy', 'shutil.copytree': 'copy', 'shutil.copymode': 'chmod'}
FS_MUT = {'unlink', 'rmdir', 'rename', 'replace', 'mkdir', 'touch', 'symlink', 'link', 'write', 'rmtree', 'move',
          'copy', 'truncate', 'open-w'}
SAME_TYPE_METH = {'resolve', 'with_name', 'with_suffix', 'with_stem', 'relative_to', 'joinpath', 'cwd', 'commonpath'}
ITER_TYPE = {'iterdir', 'children', 'rchildren', 'glob', 'rglob', 'parents'}
TRANSPARENT = {'list', 'tuple', 'iter', 'sorted', 'reversed', 'set', 'frozenset'}
PURE_BUILTINS = {'len', 'isinstance', 'issubclass', 'type', 'repr', 'str', 'id', 'print', 'hasattr', 'callable',
                 'bool', 'sorted', 'reversed', 'list', 'tuple', 'set', 'dict', 'frozenset', 'range', 'enumerate', 'zip', 'min', 'max',
                 'super', 'object', 'oct', 'hex', 'abs', 'iter', 'map', 'filter', 'vars', 'globals', 'locals', 'sum', 'hash', 'property', 'staticmethod', 'classmethod'}
NORAISE_METH = {'sys.exc_info', 'time.time', 'debug', 'info', 'warning', 'error', 'critical', 'exception', 'format', 'join', 'append', 'add',
                'startswith', 'endswith', 'replace_str', 'items', 'keys', 'values', 'get', 'as_posix', 'getChild',
                'hex', 'strip', 'split', 'lower', 'upper', 'absolute', 'difference_update', 'update', 'copy', 'setLevel', 'is_absolute'}


def class_like(t):
    """a term that denotes a class: what it has itself and what it inherits differ"""
    return t[0] in ('class', 'classof') or t[0] == 'call' and t[1][0] == 'm' and t[1][2] == '_abstract_class' if isinstance(t[1], tuple) else t[0] in ('class', 'classof')


class Limit(AnalysisError):
    pass


class Interp:
    def __init__(self, prog, *, inline=(), opaque=(), types=None, attr_types=None, raises='try',
                 inventory=None, atomic_preds=True, inline_new=True, max_paths=40000, yields=True, prop_raises=True,
                 effect_methods=True, depth=12, keep_callee=(), fork_all=False, raising=None, fold=(), folds=None, unroll=6, dicts=False, models=None, yield_raises=False, attr_fails=()):
        self.prog = prog
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.types = dict(types or {})
        self.attr_types = dict(attr_types or {})
        self.raises = raises
        self.inventory = inventory
        self.atomic_preds = atomic_preds
        self.inline_new = inline_new
        self.max_paths = max_paths
        self.prop_raises = prop_raises
        self.effect_methods = effect_methods
        self.maxdepth = depth
        self.raising = raising
        self.fold_class_consts = tuple(fold)
        self.folds = folds or {}
        self.unroll = unroll
        self.dicts = dicts           # follow the contents of displays of constant keys exactly
        self.models = models or {}   # {'mod.Class.meth': fn(target, args) -> term}
        self.attr_fails = set(attr_fails)  # attributes of foreign values whose reading may fail
        self.yield_raises = yield_raises   # a suspended generator may be closed or thrown into
        self.nframe = 0
        self.stack = []           # Func being interpreted
        self.in_try = 0
        self.closures = {}
        self.gens = {}
        self.yield_handlers = []
        self.steps = 0
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0}

    # -- entry ------------------------------------------------------------
    def run(self, func, recv=None, args=None, types=None, init=None):
        """all outcomes [(kind, state, value)] of calling func with symbolic arguments"""
        if isinstance(func, str):
            func = self.prog.func(func)
        st = init or State()
        a = func.node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        for p in params + [x.arg for x in a.kwonlyargs]:
            env[p] = ('param', p)
        if a.vararg:
            env[a.vararg.arg] = ('param', a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('param', a.kwarg.arg)
        if args:
            env.update(args)
        if recv is not None and params:
            if func.kind == 'class':
                env[params[0]] = ('class', recv.qual) if recv.qual in self.prog.classes else ('param', params[0])
            if func.kind != 'static':
                self.types[('param', params[0])] = recv
        for k, v in (types or {}).items():
            self.types[('param', k)] = v
        fid, st = self.new_frame(st, env, func, None)
        self.stack.append(func)
        self.stats['functions'].add(func.qual)
        try:
            outs = self.body(func.node.body, st, fid)
        finally:
            self.stack.pop()
        res = []
        for k, s, v in outs:
            if k == 'next':
                k, v = 'return', NONE
            res.append((k, s, v))
        self.stats['paths'] += len(res)
        return res

    def new_frame(self, st, env, func, parent):
        self.nframe += 1
        fid = self.nframe
        s = st.copy()
        s.frames = {**st.frames, fid: env}
        if not hasattr(self, 'frame_info'):
            self.frame_info = {}
        self.frame_info[fid] = (func, parent)
        return fid, s

    # -- statements --------------------------------------------------------
    def body(self, stmts, st, fid):
        cur, out = [st], []
        for stmt in stmts:
            nxt = []
            for s in cur:
                for o in self.stmt(stmt, s, fid):
                    (nxt if o[0] == 'next' else out).append(o)
            cur = [o[1] for o in nxt]
            if len(cur) + len(out) > self.max_paths:
                raise Limit(f'more than {self.max_paths} abstract paths in {self.stack[-1].qual}')
            if not cur:
                break
            if len(cur) > 1:
                cur = self.dedupe(cur)
        return out + [('next', s, None) for s in cur]

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = (id(s.trace), id(s.facts), id(s.dom), id(s.frames), id(s.heap))
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def ctl(self, s, v):
        """control value -> statement outcome"""
        if isinstance(v, Raise):
            return ('raise', s, v)
        return ('abort', s, v)

    def stmt(self, n, st, fid):
        self.steps += 1
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError(f'{self.stack[-1].where}: unsupported statement {type(n).__name__}')
        return m(n, st, fid)

    def s_Pass(self, n, st, fid):
        return [('next', st, None)]

    def s_Expr(self, n, st, fid):
        return [('next', s, None) if not isinstance(v, Ctl) else self.ctl(s, v) for s, v in self.eval(n.value, st, fid)]

    def s_Return(self, n, st, fid):
        if n.value is None:
            return [('return', st, NONE)]
        return [('return', s, v) if not isinstance(v, Ctl) else self.ctl(s, v) for s, v in self.eval(n.value, st, fid)]

    def s_Import(self, n, st, fid):
        for a in n.names:
            st = st.set_var(fid, a.asname or a.name.split('.')[0],
                            self.ref_term(ModRef(a.name if a.asname else a.name.split('.')[0])))
        return [('next', st, None)]

    def s_ImportFrom(self, n, st, fid):
        m = self.frame_info[fid][0].module
        base = n.module or ''
        if n.level:
            parts = m.name.split('.')
            if not m.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        glob = self.globals_of(fid)
        for a in n.names:
            st = st.set_var(fid, a.asname or a.name, self.ref_term(ModRef(base + '.' + a.name)))
        return [('next', st, None)]

    def s_Global(self, n, st, fid):
        st = st.set_var(fid, '__globals__', ('names', tuple(n.names)))
        return [('next', st, None)]

    def s_Nonlocal(self, n, st, fid):
        st = st.set_var(fid, '__nonlocals__', ('names', tuple(n.names)))
        return [('next', st, None)]

    def globals_of(self, fid):
        return self.frame_info[fid][0].module

    def s_FunctionDef(self, n, st, fid):
        func = self.frame_info[fid][0]
        cid = (id(n), fid)
        f = Func(func.qual + '.<locals>.' + n.name, n, func.module, func.cls, 'func', func)
        self.closures[cid] = (f, fid)
        st = self.keep_defaults(n, st, fid)
        t = ('clo', cid)
        decs = [d.split('.')[-1] for d in f.decorators]
        return [('next', st.set_var(fid, n.name, t), None)]

    def s_ClassDef(self, n, st, fid):
        func = self.frame_info[fid][0]
        qual = func.qual + '.<locals>.' + n.name
        if qual not in self.prog.classes:
            c = Class(qual, n.name, func.module, n)
            self.prog._block(func.module, n.body, c)
            self.prog._resolve_bases(c)
            self.prog.classes[qual] = c
        return [('next', st.set_var(fid, n.name, ('class', qual)), None)]

    def s_Assign(self, n, st, fid):
        out = []
        for s, v in self.eval(n.value, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
                continue
            rs = [('next', s, None)]
            for t in n.targets:
                nr = []
                for k, s2, x in rs:
                    if k == 'next':
                        nr += self.assign(t, v, s2, fid, n)
                    else:
                        nr.append((k, s2, x))
                rs = nr
            out += rs
        return out

    def s_AnnAssign(self, n, st, fid):
        if n.value is None:
            return [('next', st, None)]
        out = []
        for s, v in self.eval(n.value, st, fid):
            out += [self.ctl(s, v)] if isinstance(v, Ctl) else self.assign(n.target, v, s, fid, n)
        return out

    def s_AugAssign(self, n, st, fid):
        load = ast.copy_location(type(n.target)(**{k: getattr(n.target, k) for k in n.target._fields}), n.target)
        load.ctx = ast.Load()
        e = ast.copy_location(ast.BinOp(left=load, op=n.op, right=n.value), n)
        out = []
        for s, v in self.eval(e, st, fid):
            out += [self.ctl(s, v)] if isinstance(v, Ctl) else self.assign(n.target, v, s, fid, n)
        return out

    def assign(self, t, v, st, fid, node):
        if isinstance(t, ast.Name):
            return [('next', self.store_name(t.id, v, st, fid, node), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fid, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid, node)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.eval(t.value, st, fid):
                if isinstance(b, Ctl):
                    out.append(self.ctl(s, b))
                else:
                    for s2, r in self.set_attr(b, t.attr, v, s, fid, node):
                        out.append(('next', s2, None) if not isinstance(r, Ctl) else self.ctl(s2, r))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evals([t.value, t.slice], st, fid):
                if isinstance(vs, Ctl):
                    out.append(self.ctl(s, vs))
                    continue
                b, i = vs
                s = self.emit(s, 'setitem', None, b, [i, v], {}, node)[0]
                if self.exact(b) and is_const(i):
                    out.append(('next', self.rebind(s, b, self.dict_set(b, i, v), node, None, None), None))
                    continue
                s = s.copy()
                s.heap = {**s.heap, (b, ('item', i)): v}
                out.append(('next', s, None))
            return out
        raise AnalysisError(f'unsupported assignment target {ast.dump(t)}')

    def store_name(self, name, v, st, fid, node):
        f = st.frames[fid]
        g = f.get('__globals__')
        if g and name in g[1]:
            st = self.emit(st, 'gstore', name, None, [v], {}, node)[0]
            s = st.copy()
            s.heap = {**s.heap, ('global', self.globals_of(fid).name, name): v}
            return s
        nl = f.get('__nonlocals__')
        if nl and name in nl[1]:
            p = self.frame_info[fid][1]
            while p is not None:
                if name in st.frames.get(p, {}):
                    return st.set_var(p, name, v)
                p = self.frame_info[p][1]
        if self.frame_info[fid][0].node.__class__ is ast.Module:
            pass
        return st.set_var(fid, name, v)

    def unpack(self, t, v, st, fid, node):
        elts = t.elts
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = None
        if v[0] in ('tup', 'list') and not any(x[0] == 'star' for x in v[1]):
            items = list(v[1])
        vals = []
        if items is not None and (len(items) == len(elts) and not star or star and len(items) >= len(elts) - 1):
            if star:
                k = star[0]
                rest = len(elts) - k - 1
                vals = items[:k] + [('list', tuple(items[k:len(items) - rest]), None)] + (items[len(items) - rest:] if rest else [])
            else:
                vals = items
        else:
            for i, e in enumerate(elts):
                if star and i == star[0]:
                    b, k = whole(v)
                    vals.append(('slice', b, C(k + i), C(i - len(elts) + 1)))
                elif star and i > star[0]:
                    vals.append(self.index(v, C(i - len(elts)), st))
                else:
                    vals.append(self.index(v, C(i), st))
        rs = [('next', st, None)]
        for e, x in zip(elts, vals):
            nr = []
            for k, s, y in rs:
                nr += self.assign(e, x, s, fid, node) if k == 'next' else [(k, s, y)]
            rs = nr
        return rs

    def s_Delete(self, n, st, fid):
        outs = [('next', st, None)]
        for t in n.targets:
            nr = []
            for k, s, x in outs:
                if k != 'next':
                    nr.append((k, s, x))
                elif isinstance(t, ast.Name):
                    nr.append(('next', s.del_var(fid, t.id), None))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.eval(t.value, s, fid):
                        if isinstance(b, Ctl):
                            nr.append(self.ctl(s2, b))
                        else:
                            nr.append(('next', self.del_attr(b, t.attr, s2, n), None))
                elif isinstance(t, ast.Subscript):
                    for s2, vs in self.evals([t.value, t.slice], s, fid):
                        if isinstance(vs, Ctl):
                            nr.append(self.ctl(s2, vs))
                        else:
                            s3 = self.emit(s2, 'delitem', None, vs[0], [vs[1]], {}, n)[0]
                            if self.exact(vs[0]) and is_const(vs[1]):
                                if not any(k == vs[1] for k, _ in vs[0][1]):
                                    nr.append(('raise', s3, Raise(('newexc', 'KeyError', (vs[1],), None), n)))
                                    continue
                                s3 = self.rebind(s3, vs[0], self.dict_del(vs[0], vs[1]), n, None, None)
                            nr.append(('next', s3, None))
            outs = nr
        return outs

    def s_Assert(self, n, st, fid):
        out = []
        for s, v in self.eval(n.test, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
                continue
            for s2, b in self.truth(v, s):
                if b:
                    out.append(('next', s2, None))
                else:
                    out.append(('raise', s2, Raise(('newexc', 'AssertionError', (), None), n)))
        return out

    def s_If(self, n, st, fid):
        out = []
        for s, v in self.eval_cond(n.test, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
            elif v:
                out += self.body(n.body, s, fid)
            else:
                out += self.body(n.orelse, s, fid) if n.orelse else [('next', s, None)]
        return out

    def eval_cond(self, e, st, fid):
        out = []
        for s, v in self.eval(e, st, fid):
            if isinstance(v, Ctl):
                out.append((s, v))
            else:
                out += self.truth(v, s)
        return out

    def truth(self, v, st):
        """[(state, bool)]"""
        if v[0] == 'not':
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if v[0] == 'call' and v[1] in ('any', 'all') and len(v[2]) == 1 and v[2][0][0] in ('tup', 'list') and len(v[2][0][1]) <= 8 \
                and not any(x[0] == 'star' for x in v[2][0][1]):
            cur, out = [st], []
            for x in v[2][0][1]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(x, s):
                        if b is (v[1] == 'any'):
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, v[1] == 'all') for s in cur]
        atom = v[1] if v[0] == 'b' else ('truthy', v)
        if atom[0] == 'truthy' and atom[1][0] == 'len':
            atom = ('truthy', atom[1][1])
        h = st.holds(atom)
        if h is not None:
            return [(st, h)]
        out = []
        for b in (True, False):
            s = st.assume(atom, b)
            if s is not None:
                out.append((s, b))
        return out

    def s_Break(self, n, st, fid):
        return [('break', st, None)]

    def s_Continue(self, n, st, fid):
        return [('continue', st, None)]

    def s_Raise(self, n, st, fid):
        if n.exc is None:
            cur = self.lookup_raw('__exc__', st, fid)
            return [('raise', st, Raise(cur if cur is not None else ('newexc', 'RuntimeError', (), None), n))]
        out = []
        for s, v in self.eval(n.exc, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
                continue
            if v[0] == 'class':
                v = ('newexc', v[1], (), None)
            elif v[0] == 'bi':
                v = ('newexc', v[1], (), None)
            out.append(('raise', s, Raise(v, n)))
        return out

    def s_With(self, n, st, fid):
        return self._with(n.items, n.body, st, fid, n)

    s_AsyncWith = s_With

    def _with(self, items, body, st, fid, n):
        if not items:
            return self.body(body, st, fid)
        it, rest = items[0], items[1:]
        out = []
        for s, v in self.eval(it.context_expr, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
                continue
            # contextlib.suppress
            if v[0] == 'suppress':
                self.in_try += 1
                try:
                    inner = self._with(rest, body, s, fid, n)
                finally:
                    self.in_try -= 1
                for k, s2, x in inner:
                    if k == 'raise':
                        for s3, mt in self.match_exc(x.exc, list(v[1]), s2):
                            if mt:
                                s3 = s3.log(('handled', n, x.exc, tuple(v[1]), True))
                            out.append(('next', s3, None) if mt else ('raise', s3, x))
                    else:
                        out.append((k, s2, x))
                continue
            # in-repo context manager generator
            if v[0] == 'genobj' and self.gens[v[1]][0].is_ctxmgr:
                out += self._with_gen(v, it, rest, body, s, fid, n)
                continue
            exitf = None
            s, _ = self.emit(s, 'with-enter', None, v, [], {}, it.context_expr)
            val = v if v[0] in ('file', 'path', 'param') else ('entered', v)
            if v[0] == 'call' and v[1] in ('contextlib.closing',):
                val = v[2][0] if v[2] else v
            elif self.typeof(v) is not None:
                val = v
            outs = [('next', s, None)]
            if it.optional_vars is not None:
                outs = self.assign(it.optional_vars, val, s, fid, n)
            for k, s2, x in outs:
                if k != 'next':
                    out.append((k, s2, x))
                    continue
                for k3, s3, x3 in self._with(rest, body, s2, fid, n):
                    s3 = self.emit(s3, 'with-exit', k3, v, [], {}, it.context_expr)[0]
                    out.append((k3, s3, x3))
        return out

    def _with_gen(self, gen, it, rest, body, st, fid, n):
        token = object()

        def on_yield(val, s):
            outs = [('next', s, None)]
            if it.optional_vars is not None:
                outs = self.assign(it.optional_vars, val, s, fid, n)
            res = []
            for k, s2, x in outs:
                if k != 'next':
                    res.append((s2, x))
                    continue
                for k3, s3, x3 in self._with(rest, body, s2, fid, n):
                    if k3 == 'next':
                        res.append((s3, NONE))
                    elif k3 == 'raise':
                        res.append((s3, x3))
                    elif k3 == 'abort':
                        res.append((s3, x3))
                    else:
                        # leaves through the manager: code after the yield still runs
                        res.append((s3, ('pending', (k3, x3))))
            return res
        # run the manager; outcomes after yield with a pending jump resume it
        return self._run_gen(gen, st, on_yield, pending_ok=True)

    def _run_gen(self, gen, st, on_yield, pending_ok=False):
        f, env, parent, depth = self.gens[gen[1]]
        if len(self.stack) > self.maxdepth + 6:
            return [('next', st, None)]
        fid, s = self.new_frame(st, dict(env), f, parent)
        self.yield_handlers.append((fid, on_yield))
        self.stack.append(f)
        self.stats['functions'].add(f.qual)
        try:
            outs = self.body(f.node.body, s, fid)
        finally:
            self.stack.pop()
            self.yield_handlers.pop()
        res = []
        for k, s2, x in outs:
            pend = self.lookup_raw('__pending__', s2, fid) if pending_ok else None
            if k in ('next', 'return'):
                if pend is not None:
                    res.append((pend[1][0], s2, pend[1][1]))
                else:
                    res.append(('next', s2, x if k == 'return' else None))
            elif k == 'abort' and x.token is gen:
                res.append((x.kind, s2, x.val))
            else:
                res.append((k, s2, x))
        return res

    # exceptions -------------------------------------------------------------
    def s_Try(self, n, st, fid):
        self.in_try += 1 if n.handlers else 0
        try:
            outs = self.body(n.body, st, fid)
        finally:
            self.in_try -= 1 if n.handlers else 0
        res = []
        for k, s, v in outs:
            if k == 'next':
                res += self.body(n.orelse, s, fid) if n.orelse else [(k, s, v)]
            elif k == 'raise' and n.handlers:
                res += self.handle(n.handlers, s, v, fid)
            else:
                res.append((k, s, v))
        if n.finalbody:
            out = []
            for k, s, v in res:
                s = s.log(('finally', n, k))
                for k2, s2, v2 in self.body(n.finalbody, s, fid):
                    out.append((k, s2, v) if k2 == 'next' else (k2, s2, v2))
            res = out
        return res

    s_TryStar = s_Try

    def handle(self, handlers, st, r, fid):
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                types = self.handler_types(h.type, s, fid)
                for s2, mt in self.match_exc(r.exc, types, s):
                    if not mt:
                        nxt.append(s2)
                        continue
                    s2 = s2.log(('handled', h, r.exc, tuple(types), False))
                    prev = s2.frames[fid].get('__exc__')
                    s2 = s2.set_var(fid, '__exc__', r.exc)
                    if h.name:
                        s2 = s2.set_var(fid, h.name, r.exc)
                    for k, s3, v in self.body(h.body, s2, fid):
                        if h.name:
                            s3 = s3.del_var(fid, h.name)
                        s3 = s3.set_var(fid, '__exc__', prev) if prev is not None else s3.del_var(fid, '__exc__')
                        s3 = s3.log(('endhandler', h, k, v))
                        out.append((k, s3, v))
            cur = nxt
        return out + [('raise', s, r) for s in cur]

    def handler_types(self, e, st, fid):
        if e is None:
            return ['BaseException']
        rs = self.eval(e, st, fid)
        v = rs[0][1]
        return self.exc_names(v, e)

    def exc_names(self, v, e=None):
        if v[0] in ('tup', 'list'):
            out = []
            for x in v[1]:
                out += self.exc_names(x)
            return out
        if v[0] in ('class', 'bi'):
            return [v[1]]
        if v[0] == 'ext':
            return [v[1]]
        return ['?' + show(v)]

    def exc_mro(self, name):
        c = self.prog.classes.get(name)
        if c is not None:
            return [x.qual if isinstance(x, Class) else x for x in c.mro()]
        b = getattr(builtins, name, None)
        if isinstance(b, type):
            return [k.__name__ for k in b.__mro__]
        if name in ('OSError', 'IOError', 'EnvironmentError'):
            return self.exc_mro('OSError')
        import importlib
        mod, _, k = name.rpartition('.')
        if mod and not name.startswith('?') and mod.split('.')[0] in ('shutil', 'subprocess', 'struct', 'json', 'zipfile'):
            try:
                return [name] + [x.__name__ for x in getattr(importlib.import_module(mod), k).__mro__[1:]]
            except Exception:
                pass
        return [name, 'Exception', 'BaseException', 'object']

    def exc_base(self, exc):
        """(name, exact)"""
        if exc[0] == 'newexc':
            return exc[1], True
        if exc[0] == 'exc':
            return exc[1], False
        t = self.typeof(exc)
        if t is not None:
            return t.qual, False
        return 'BaseException', False

    def exc_is(self, exc, name, st):
        if name in ('IOError', 'EnvironmentError'):
            name = 'OSError'
        base, exact = self.exc_base(exc)
        m = self.exc_mro(base)
        if name in m or name == 'BaseException':
            return True
        if exact:
            return False
        if base not in self.exc_mro(name):
            return False              # unrelated classes
        for a, v in st.facts.items():
            if a[0] == 'excis' and a[1] == exc:
                if v and name in self.exc_mro(a[2]):
                    return True
                if v and a[2] not in self.exc_mro(name):
                    return False      # known to be something unrelated
                if not v and a[2] in self.exc_mro(name):
                    return False
        return None

    def match_exc(self, exc, names, st):
        """[(state, matched)]"""
        out, cur = [], st
        for nme in names:
            r = self.exc_is(exc, nme, cur)
            if r is True:
                return out + [(cur, True)]
            if r is False:
                continue
            s = cur.assume(('excis', exc, nme), True)
            if s is not None:
                out.append((s, True))
            cur = cur.assume(('excis', exc, nme), False)
            if cur is None:
                return out
        return out + [(cur, False)]

    # loops -------------------------------------------------------------------
    def havoc_changed(self, before, after, fid):
        """after with everything that differs from before (in any frame before knew) forgotten"""
        s = after
        changed = False
        newframes = None
        for f, env in before.frames.items():
            env2 = after.frames.get(f)
            if env2 is env or env2 is None:
                continue
            for k, v in env2.items():
                if k.startswith('__'):
                    continue
                if env.get(k) != v:
                    changed = True
                    if newframes is None:
                        newframes = dict(after.frames)
                    s, u = s.fresh()
                    d = dict(newframes[f])
                    old = env.get(k)
                    if old is not None and old[0] in ('list', 'set') and v[0] == old[0]:
                        d[k] = (v[0], (('star', ('havoc', k, u)),), v[2] if len(v) > 2 else None)
                    else:
                        d[k] = ('havoc', k, u, Src(old, v))
                    newframes[f] = d
        if newframes is not None:
            s = s.copy()
            s.frames = newframes
        if after.heap is not before.heap:
            h = {k: v for k, v in after.heap.items() if before.heap.get(k) == v}
            if h != after.heap:
                s = s.copy()
                s.heap = h
                changed = True
        if after.epoch != before.epoch:
            changed = True
        return s, changed

    def s_For(self, n, st, fid):
        out = []
        for s, it in self.eval(n.iter, st, fid):
            if isinstance(it, Ctl):
                out.append(self.ctl(s, it))
                continue
            out += self.for_loop(it, s, fid, n,
                                 lambda el, s2: self._for_body(n, el, s2, fid))
        return out

    s_AsyncFor = s_For

    def _for_body(self, n, el, s, fid):
        res = []
        for k, s2, x in self.assign(n.target, el, s, fid, n):
            res += self.body(n.body, s2, fid) if k == 'next' else [(k, s2, x)]
        return res

    def strip_iter(self, it):
        while it[0] == 'call' and it[1] in TRANSPARENT and it[2] and not (it[1] == 'iter' and len(it[2]) == 2):
            it = it[2][0]
        return it

    def element(self, it, tag):
        it = self.strip_iter(it)
        if it[0] == 'call' and it[1] == 'enumerate':
            return ('tup', (('int', 'index', tag), self.element(it[2][0], tag)))
        if it[0] == 'call' and it[1] == 'zip':
            return ('tup', tuple(self.element(x, tag) for x in it[2]))
        if it[0] == 'comp' and it[1] in ('list', 'gen', 'set'):
            return ('elem', it, tag)
        return ('elem', it, tag)

    def parts_of(self, t):
        """what an iterable made of others goes through, one after the other"""
        if t[0] == 'call' and t[1] == 'itertools.chain' and t[2] and not any(x[0] in ('star', 'kw') for x in t[2]):
            if any(x[0] == 'attr' and x[2] == 'parents' for x in t[2]):
                return None           # a path and those above it stay one way up
            return list(t[2])
        if t[0] in ('tup', 'list') and any(x[0] == 'star' and x[1][0] == 'attr' and x[1][2] == 'parents' for x in t[1]):
            return None
        if t[0] in ('tup', 'list') and any(x[0] == 'star' for x in t[1]):
            out, run = [], []
            for x in t[1]:
                if x[0] == 'star':
                    out += [('tup', tuple(run))] if run else []
                    out.append(x[1])
                    run = []
                else:
                    run.append(x)
            return out + ([('tup', tuple(run))] if run else [])
        return None

    def for_loop(self, it, st, fid, n, bodyf):
        out = []
        orelse = getattr(n, 'orelse', None) or []
        core = self.strip_iter(it)
        core = self.modelled(core, '__iter__') or core
        if self.dicts and is_const(core) and isinstance(core[2], str) and len(core[2]) <= self.unroll:
            core = ('tup', tuple(C(x) for x in core[2]))
        finish = lambda s: self.body(orelse, s, fid) if orelse else [('next', s, None)]

        if core[0] == 'genobj':
            def on_yield(val, s):
                res = []
                for k, s2, x in bodyf(val, s):
                    if k in ('next', 'continue'):
                        res.append((s2, NONE))
                    elif k == 'raise' or k == 'abort':
                        res.append((s2, x if k == 'abort' else Abort('raise', x, core)))
                    else:
                        res.append((s2, Abort(k, x, core)))
                return res
            for k, s, x in self._run_gen(core, st, on_yield):
                if k == 'next':
                    out += finish(s)
                elif k == 'break':
                    out.append(('next', s, None))
                else:
                    out.append((k, s, x))
            return out

        if self.exact(core):
            core = ('tup', tuple(k for k, _ in core[1]))
        if core[0] in ('tup', 'list') and not any(x[0] == 'star' for x in core[1]) and len(core[1]) <= max(8, self.unroll) \
                and not (it[0] == 'call' and it[1] in ('set', 'frozenset')):
            items = list(core[1])
            if it[0] == 'call' and it[1] == 'reversed':
                items.reverse()
            cur = [st]
            for x in items:
                nxt = []
                for s in cur:
                    for k, s2, v in bodyf(x, s):
                        if k in ('next', 'continue'):
                            nxt.append(s2)
                        elif k == 'break':
                            out.append(('next', s2, None))
                        else:
                            out.append((k, s2, v))
                cur = nxt
            for s in cur:
                out += finish(s)
            return out

        parts = self.parts_of(core) if it[0] != 'call' or it[1] not in ('reversed', 'set', 'frozenset', 'sorted', 'enumerate') else None
        if parts is not None:
            class Part:
                orelse, lineno, col_offset = [], getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)
            cur = [st]
            for x in parts:
                nxt = []
                for s in cur:
                    left = []

                    def noted(el, s0):
                        for k, s2, v in bodyf(el, s0):
                            if k == 'break':
                                left.append(s2)
                            else:
                                yield k, s2, v
                    for k, s2, v in self.for_loop(x, s, fid, Part, noted):
                        if k == 'next':
                            nxt.append(s2)
                        else:
                            out.append((k, s2, v))
                    out += [('next', s2.log(('loop', Part, 'break', core)), None) for s2 in left]
                cur = nxt
            for s in cur:
                out += finish(s)
            return out

        known = st.holds(('truthy', core)) if core[0] not in ('call', 'genobj') else None
        if known is not True:
            s0 = st.log(('loop', n, 'zero', core))
            out += finish(s0)
        if known is False:
            return out
        ctls, ends = [], []
        s1 = st.log(('loop', n, 'first', core))
        for k, s, v in bodyf(self.element(it, 0), s1):
            if k in ('next', 'continue'):
                ends.append(s.log(('loop', n, 'end', core)))
            elif k == 'break':
                ctls.append(('next', s.log(('loop', n, 'break', core)), None))
            else:
                ctls.append((k, s, v))
        out += ctls
        for s in ends:
            out += finish(s)
        second = []
        for s in ends:
            h, ch = self.havoc_changed(st, s, fid)
            if ch:
                second.append(h)
        for s in second:
            s = s.log(('loop', n, 'later', core))
            for k, s2, v in bodyf(self.element(it, 1), s):
                if k in ('next', 'continue'):
                    h, _ = self.havoc_changed(st, s2, fid)
                    out += finish(h.log(('loop', n, 'end', core)))
                elif k == 'break':
                    out.append(('next', s2.log(('loop', n, 'break', core)), None))
                else:
                    out.append((k, s2, v))
        if len(out) > self.max_paths:
            raise Limit('too many paths in a loop')
        return out

    def s_While(self, n, st, fid):
        out = []
        finish = lambda s: self.body(n.orelse, s, fid) if n.orelse else [('next', s, None)]

        def once(s0, tag):
            ends = []
            for s, v in self.eval_cond(n.test, s0, fid):
                if isinstance(v, Ctl):
                    out.append(self.ctl(s, v))
                elif not v:
                    out.extend(finish(s.log(('loop', n, 'exit', None))))
                else:
                    s = s.log(('loop', n, tag, None))
                    for k, s2, x in self.body(n.body, s, fid):
                        if k in ('next', 'continue'):
                            ends.append(s2.log(('loop', n, 'end', None)))
                        elif k == 'break':
                            out.append(('next', s2.log(('loop', n, 'break', None)), None))
                        else:
                            out.append((k, s2, x))
            return ends
        ends = once(st, 'first')
        ends2 = []
        for s in ends:
            h, _ = self.havoc_changed(st, s, fid)
            ends2 += once(h, 'later')
        endless = True
        for s in ends2:       # leave through a false test
            h, _ = self.havoc_changed(st, s, fid)
            for s2, v in self.eval_cond(n.test, h, fid):
                if v is False:
                    endless = False
                    out += finish(s2.log(('loop', n, 'exit', None)))
        if endless:           # leave from inside the body, after a whole later iteration
            for s in ends2:
                h, _ = self.havoc_changed(st, s, fid)
                once(h, 'later')
        if len(out) > self.max_paths:
            raise Limit('too many paths in a loop')
        return out

    def s_Match(self, n, st, fid):
        out = []
        for s, v in self.eval(n.subject, st, fid):
            if isinstance(v, Ctl):
                out.append(self.ctl(s, v))
                continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s1 in cur:
                    for s2, mt in self.match_pat(case.pattern, v, s1, fid):
                        if mt and case.guard is not None:
                            for s3, g in self.eval_cond(case.guard, s2, fid):
                                if isinstance(g, Ctl):
                                    out.append(self.ctl(s3, g))
                                elif g:
                                    out += self.body(case.body, s3, fid)
                                else:
                                    nxt.append(s3)
                        elif mt:
                            out += self.body(case.body, s2, fid)
                        else:
                            nxt.append(s2)
                cur = nxt
            out += [('next', s1, None) for s1 in cur]
        return out

    def match_pat(self, p, v, st, fid):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, c in self.eval(p.value, st, fid):
                out += self.truth(('b', self.eq_atom(v, c)), s)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.truth(('b', self.eq_atom(v, C(p.value))), st)
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, mt in self.match_pat(q, v, s, fid):
                        if mt:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = self.store_name(p.name, v, st, fid, p)
                return [(st, True)]
            out = []
            for s, mt in self.match_pat(p.pattern, v, st, fid):
                if mt and p.name:
                    s = self.store_name(p.name, v, s, fid, p)
                out.append((s, mt))
            return out
        # structural patterns: unknown
        atom = ('match', v, ast.unparse(p))
        s1 = st
        for x in ast.walk(p):
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                s1, u = s1.fresh()
                s1 = self.store_name(x.name, ('havoc', x.name, u), s1, fid, p)
        return [(s1, True), (st, False)]

    # ======================================================================
    # expressions: eval -> [(state, term | Ctl)]
    # ======================================================================
    def evals(self, exprs, st, fid):
        """[(state, [terms] | Ctl)], left to right"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Ctl):
                    nxt.append((s, vs))
                    continue
                if e is None:
                    nxt.append((s, vs + [NONE]))
                    continue
                for s2, v in self.eval(e, s, fid):
                    nxt.append((s2, v if isinstance(v, Ctl) else vs + [v]))
            cur = nxt
        return cur

    def eval(self, e, st, fid):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f'{self.stack[-1].where}: unsupported expression {type(e).__name__}')
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return [(st, C(e.value))]

    # -- names --------------------------------------------------------------
    def lookup_raw(self, name, st, fid):
        while fid is not None:
            v = st.frames.get(fid, {}).get(name)
            if v is not None:
                return v
            fid = self.frame_info[fid][1]
        return None

    def local_names(self, func):
        c = self.__dict__.setdefault('_locals', {})
        k = id(func.node)
        if k not in c:
            names, skip = set(), set()
            n = func.node
            a = n.args if not isinstance(n, ast.Module) else None
            todo = list(n.body) if isinstance(n.body, list) else [n.body]
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.NamedExpr):
                            names.add(y.target.id)
                    continue
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    skip.update(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    for al in x.names:
                        names.add(al.asname or al.name.split('.')[0])
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    names.add(x.name)
                todo += list(ast.iter_child_nodes(x))
            c[k] = names - skip
        return c[k]

    def e_Name(self, e, st, fid):
        v = self.lookup_raw(e.id, st, fid)
        if v is not None:
            return [(st, v)]
        f = fid
        while f is not None:
            func = self.frame_info[f][0]
            if isinstance(func.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and e.id in self.local_names(func):
                return [(st, Raise(('newexc', 'UnboundLocalError', (C(e.id),), None), e))]
            f = self.frame_info[f][1]
        return [(st, self.global_name(e.id, self.globals_of(fid), st))]

    def global_name(self, name, m, st=None):
        if st is not None:
            v = st.heap.get(('global', m.name, name))
            if v is not None:
                return v
        b = m.ns.get(name)
        if b is not None:
            if name in m.global_writes:
                return ('gval', m.name + '.' + name)
            return self.bind_term(b, m.name + '.' + name)
        if hasattr(builtins, name):
            return ('bi', name)
        return ('undef', m.name, name)

    def ref_term(self, ref):
        r = self.prog.resolve_ref(ref)
        if isinstance(r, ModRef):
            try:
                return C(self.prog.config.ext_value(r.name))
            except (KeyError, AttributeError):
                return ('ext', self.canon_ext(r.name))
        return self.bind_term(r, ref.name)

    def canon_ext(self, n):
        if n in ('pathlib.PosixPath', 'pathlib.WindowsPath'):
            return 'pathlib.Path'
        if n in ('posixpath.join',):
            return 'os.path.join'
        return n

    def bind_term(self, b, qual):
        if isinstance(b, ModRef):
            return self.ref_term(b)
        if isinstance(b, Module):
            return ('mod', b.name)
        if isinstance(b, Class):
            return ('class', b.qual)
        if isinstance(b, Func):
            return ('func', b.qual)
        if isinstance(b, Alias):
            return self.alias_term(b, qual)
        return ('gval', qual)

    def alias_term(self, b, qual):
        if b.expr is None:
            return ('gval', qual)
        cache = self.__dict__.setdefault('_alias', {})
        k = id(b.expr)
        if k in cache:
            return cache[k]
        cache[k] = ('gval', qual)
        t = None
        try:
            v = self.prog.const(b.expr, b.module, b.cls)
            t = C(v)
        except (KeyError, AttributeError, TypeError):
            r = self.prog.resolve_expr(b.expr, b.module, b.cls)
            if r is not None and r is not b:
                t = self.bind_term(r, qual)
                if t[0] == 'gval':
                    t = ('gval', qual)
            elif isinstance(b.expr, ast.Lambda):
                f = Func(qual, b.expr, b.module, None, 'func')
                f.is_gen = f.is_ctxmgr = False
                self.closures[(id(b.expr), None)] = (f, None)
                t = ('clo', (id(b.expr), None))
            elif isinstance(b.expr, (ast.Tuple, ast.List, ast.Set, ast.Dict)):
                mf = Func(b.module.name, ast.Module(body=[], type_ignores=[]), b.module)
                fid, s = self.new_frame(State(), {}, mf, None)
                self.stack.append(mf)
                try:
                    rs = self.eval(b.expr, s, fid)
                    if len(rs) == 1 and not isinstance(rs[0][1], Ctl):
                        t = rs[0][1]
                except (AnalysisError, AttributeError):
                    t = None
                finally:
                    self.stack.pop()
        t = t or ('gval', qual)
        cache[k] = t
        return t

    # -- types ------------------------------------------------------------
    def cls_of_term(self, t):
        """Class object of a class term"""
        if t is None:
            return None
        if t[0] == 'class':
            return self.prog.classes.get(t[1])
        if t[0] == 'classof':
            return self.typeof(t[1])
        return None

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        k = t[0]
        if k == 'new':
            if t[1] == 'path':
                return self.cls_of_term(t[3])
            return self.prog.classes.get(t[1])
        if k == 'local':
            return self.types.get('local') or self.prog.classes.get('augpathlib.core.LocalPath')
        if k == 'cwd':
            return self.prog.classes.get('augpathlib.core.AugmentedPath')
        if k == 'attr':
            if t[2] == 'parent':
                b = self.typeof(t[1])
                if b is not None and self.is_path_class(b):
                    return b
            return self.attr_types.get(t[2])
        if k in ('div', 'abs'):
            return self.typeof(t[1])
        if k == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in SAME_TYPE_METH:
            return self.typeof(t[1][1])
        if k == 'elem':
            c = self.strip_iter(t[1])
            if c[0] == 'call' and isinstance(c[1], tuple) and c[1][0] == 'm' and c[1][2] in ITER_TYPE:
                return self.typeof(c[1][1])
            if c[0] == 'attr' and c[2] in ITER_TYPE:
                return self.typeof(c[1])
        if k == 'entered':
            return self.typeof(t[1])
        if k == 'newexc':
            return self.prog.classes.get(t[1])
        if k == 'gval':
            return self.instance_of(t[1])
        return None

    def instance_of(self, qual):
        """class of a module level name that is bound once, to a new instance"""
        cache = self.__dict__.setdefault('_inst', {})
        if qual not in cache:
            cache[qual] = None
            mod, _, name = qual.rpartition('.')
            m = self.prog.modules.get(mod)
            b = m.ns.get(name) if m is not None else None
            if isinstance(b, Alias) and isinstance(b.expr, ast.Call):
                r = self.prog.resolve_expr(b.expr.func, b.module, b.cls)
                if isinstance(r, Class):
                    cache[qual] = r
        return cache[qual]

    def is_path_class(self, c):
        return c is not None and 'pathlib.PurePath' in c.mro()

    def is_exc_class(self, c):
        return c is not None and 'BaseException' in c.mro()

    # -- attributes ---------------------------------------------------------
    def e_Attribute(self, e, st, fid):
        out = []
        for s, b in self.eval(e.value, st, fid):
            out += [(s, b)] if isinstance(b, Ctl) else self.eval_attr(b, e.attr, s, e, fid)
        return out

    def eval_attr(self, b, name, st, node=None, fid=None):
        h = st.heap.get((b, name))
        if h is not None:
            if h == ('deleted',):
                return [(st, Raise(('newexc', 'AttributeError', (), None), node))]
            return [(st, h)]
        k = b[0]
        if name == '__class__':
            return [(st, self.class_term(b))]
        if name == '__dict__':
            return [(st, ('attr', b, name))]
        if k == 'mod':
            m = self.prog.modules[b[1]]
            if name in m.ns:
                return [(st, self.global_name(name, m, st))]
            if b[1] + '.' + name in self.prog.modules:
                return [(st, ('mod', b[1] + '.' + name))]
            return [(st, ('undef', b[1], name))]
        if k == 'ext':
            return [(st, self.ref_term(ModRef(b[1] + '.' + name)))]
        if k in ('class', 'classof'):
            c = self.cls_of_term(b)
            if name == '__name__' or c is None:
                return [(st, ('attr', b, name))]
            owner, v = c.lookup(self.mangle(name, fid))
            if v is None:
                return [(st, ('attr', b, name))]
            if isinstance(v, Func):
                if v.kind == 'class':
                    return [(st, ('bound', v.qual, b))]
                return [(st, ('func', v.qual))]
            if isinstance(v, Class):
                return [(st, ('class', v.qual))]
            if isinstance(v, Alias):
                t = self.alias_term(v, owner.qual + '.' + name)
                if t[0] in ('func', 'class', 'clo', 'ext', 'bi'):
                    return [(st, t)]
                return [(st, ('attr', b, name))]
            return [(st, ('attr', b, name))]
        if k == 'super':
            c = self.typeof(b[2]) or self.cls_of_term(b[2])
            cur = self.prog.classes.get(b[1])
            if c is None or (cur is not None and cur not in c.mro()):
                c = cur
            if c is not None and cur is not None:
                owner, v = c.lookup(name, after=cur)
                return self.bind_member(b[2], owner, v, name, st, node, fid, sup=b)
            return [(st, ('attr', b, name))]
        if k == 'bound' or k == 'func':
            return [(st, ('attr', b, name))]
        c = self.typeof(b)
        if c is not None:
            owner, v = c.lookup(self.mangle(name, fid))
            if owner is not None:
                return self.bind_member(b, owner, v, name, st, node, fid)
        if name in ('stem', 'name', 'suffix', 'parts', 'parent', 'parents', 'anchor', 'args', 'errno'):
            return [(st, ('attr', b, name))]
        if b == NONE:
            return [(st, Raise(('newexc', 'AttributeError', (C('NoneType.' + name),), None), node))]
        # attribute of an untyped value: a property helper that is new to the package
        f = self.unique_new(name, want_prop=True)
        if f is not None and self.should_inline(f):
            return self.call_func(f, [b], {}, st, node)
        if name in self.attr_fails and self.may_raise_now(('prop', name)):
            s2, u = st.fresh()
            return [(st, ('attr', b, name)), (s2.log(('raises', name, node)), Raise(('exc', self.exc_root, ('prop', name, u)), node))]
        return [(st, ('attr', b, name))]

    def mangle(self, name, fid):
        return name

    def bind_member(self, b, owner, v, name, st, node, fid, sup=None):
        if v is None:            # external (pathlib) member
            if sup is not None:
                return [(st, ('attr', sup, name))]
            return [(st, ('attr', b, name))]
        if isinstance(v, Func):
            if v.kind == 'static':
                return [(st, ('func', v.qual))]
            if v.kind == 'class':
                return [(st, ('bound', v.qual, self.class_term(b) if b[0] not in ('class', 'classof') else b))]
            return [(st, ('bound', v.qual, b))]
        if isinstance(v, Prop):
            if v.getter is not None and self.should_inline(v.getter):
                return self.call_func(v.getter, [b], {}, st, node)
            t = ('attr', sup or b, name)
            if self.prop_raises and self.may_raise_now(('prop', v.getter.qual if v.getter else name)):
                s2, u = st.fresh()
                s2 = s2.log(('raises', name, node))
                return [(st, t), (s2, Raise(('exc', self.exc_root, ('prop', name, u)), node))]
            return [(st, t)]
        if isinstance(v, Alias):
            if v.expr is not None:
                r = self.prog.resolve_expr(v.expr, v.module, v.cls or owner)
                if isinstance(r, Func):
                    if r.cls is None or r.kind == 'method':
                        if isinstance(v.expr, ast.Call):
                            return [(st, ('func', r.qual))]
                        return [(st, ('bound', r.qual, b))]
                    return [(st, ('func', r.qual))]
                if isinstance(r, Class):
                    return [(st, ('class', r.qual))]
                if isinstance(v.expr, ast.Call) and isinstance(v.expr.func, ast.Name) \
                        and v.expr.func.id in ('staticmethod', 'classmethod') and v.expr.args:
                    r = self.prog.resolve_expr(v.expr.args[0], v.module, v.cls or owner)
                    if isinstance(r, Func):
                        if v.expr.func.id == 'staticmethod':
                            return [(st, ('func', r.qual))]
                        return [(st, ('bound', r.qual, self.class_term(b) if b[0] not in ('class', 'classof') else b))]
                if isinstance(v.expr, ast.Lambda):
                    return [(st, ('cbound', self.alias_term(v, owner.qual + '.' + name), b))]
            if name in self.folds:
                return [(st, self.folds[name])]
            if self.fold_class_consts and name in self.fold_class_consts:
                t = self.alias_term(v, owner.qual + '.' + name)
                if t[0] != 'gval':
                    return [(st, t)]
            return [(st, ('attr', b, name))]
        if isinstance(v, Class):
            return [(st, ('class', v.qual))]
        return [(st, ('attr', b, name))]

    fold_class_consts = ()
    exc_root = 'Exception'

    def class_term(self, b):
        if b[0] in ('new',) and b[1] == 'path':
            return b[3]
        if b[0] == 'c':
            return ('bi', b[1])
        return ('classof', b)

    def set_attr(self, b, name, v, st, fid, node):
        c = self.typeof(b)
        prop = None
        if c is not None:
            owner, m = c.lookup(name)
            if isinstance(m, Prop):
                prop = m
        st, ev = self.emit(st, 'store', name, b, [v], {}, node)
        if prop is not None:
            if prop.setter is None:
                return [(st, Raise(('newexc', 'AttributeError', (C('no setter for ' + name),), None), node))]
            if self.should_inline(prop.setter):
                return [(s, r) for s, r in self.call_func(prop.setter, [b, v], {}, st, node)]
            return self.may_fork(st, NONE, ev, node)
        s = st.copy()
        s.heap = {**s.heap, (b, name): v}
        return [(s, NONE)]

    def del_attr(self, b, name, st, node):
        st, ev = self.emit(st, 'delattr', name, b, [], {}, node)
        s = st.copy()
        s.heap = {**s.heap, (b, name): ('deleted',)}
        return s

    # -- simple expressions ---------------------------------------------------
    def e_Tuple(self, e, st, fid):
        return self._display(e, st, fid, 'tup')

    def e_List(self, e, st, fid):
        return self._display(e, st, fid, 'list')

    def e_Set(self, e, st, fid):
        return self._display(e, st, fid, 'set')

    def _display(self, e, st, fid, kind):
        out = []
        for s, vs in self.evals(e.elts, st, fid):
            if isinstance(vs, Ctl):
                out.append((s, vs))
                continue
            items = self.splat(vs)
            if kind == 'tup':
                out.append((s, ('tup', tuple(items))))
            else:
                s, u = s.fresh()
                out.append((s, (kind, tuple(items), u)))
        return out

    def splat(self, vs):
        items = []
        for v in vs:
            if v[0] == 'star' and v[1][0] in ('tup', 'list') and not any(x[0] == 'star' for x in v[1][1]):
                items += list(v[1][1])
            else:
                items.append(v)
        return items

    def e_Starred(self, e, st, fid):
        return [(s, v if isinstance(v, Ctl) else ('star', v)) for s, v in self.eval(e.value, st, fid)]

    def e_Dict(self, e, st, fid):
        out = []
        for s, vs in self.evals([x for p in zip(e.keys, e.values) for x in p], st, fid):
            if isinstance(vs, Ctl):
                out.append((s, vs))
                continue
            items = []
            for i, k in enumerate(e.keys):
                kt, vt = vs[2 * i], vs[2 * i + 1]
                if k is None:
                    if vt[0] == 'dict':
                        items += list(vt[1])
                    else:
                        items.append((('kwstar',), vt))
                else:
                    items.append((kt, vt))
            s, u = s.fresh()
            out.append((s, ('dict', tuple(items), u)))
        return out

    def e_JoinedStr(self, e, st, fid):
        exprs = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for s, vs in self.evals(exprs, st, fid):
            if isinstance(vs, Ctl):
                out.append((s, vs))
                continue
            parts = []
            for x, v in zip(e.values, vs):
                if isinstance(x, ast.FormattedValue):
                    if x.conversion == 114:
                        v = ('call', 'repr', (v,))
                    if x.format_spec is not None:
                        v = ('call', 'format', (v, C(ast.unparse(x.format_spec))))
                    if v[0] == 'strof' and v[1][0] != 'c':
                        v = v[1]
                    if v[0] == 'fstr':
                        parts += list(v[1])
                        continue
                    if v[0] == 'c' and v[1] in ('int', 'bool', 'NoneType') and x.format_spec is None:
                        v = C(str(v[2]))
                parts.append(v)
            merged = []
            for p in parts:
                if p[0] == 'c' and p[1] == 'str' and merged and merged[-1][0] == 'c' and merged[-1][1] == 'str':
                    merged[-1] = C(merged[-1][2] + p[2])
                else:
                    merged.append(p)
            if len(merged) == 1 and merged[0][0] == 'c' and merged[0][1] == 'str':
                out.append((s, merged[0]))
            else:
                out.append((s, ('fstr', tuple(merged))))
        return out

    def e_FormattedValue(self, e, st, fid):
        return self.eval(e.value, st, fid)

    def e_Lambda(self, e, st, fid):
        func = self.frame_info[fid][0]
        f = Func(func.qual + '.<lambda>', e, func.module, func.cls, 'func', func)
        self.closures[(id(e), fid)] = (f, fid)
        return [(self.keep_defaults(e, st, fid), ('clo', (id(e), fid)))]

    def keep_defaults(self, n, st, fid):
        """the values of the defaults of a nested function that name local variables, as they are where it is defined"""
        ds = [d for d in n.args.defaults + n.args.kw_defaults if isinstance(d, ast.Name)]
        got = {id(d): self.lookup_raw(d.id, st, fid) for d in ds}
        got = tuple((k, v) for k, v in got.items() if v is not None)
        return st.set_var(fid, f'__defaults__{id(n)}', ('names', got)) if got else st

    def e_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.eval(e.value, st, fid):
            if isinstance(v, Ctl):
                out.append((s, v))
                continue
            f = fid
            while self.frame_info[f][0].__dict__.get('is_comp') and self.frame_info[f][1] is not None:
                f = self.frame_info[f][1]
            out.append((self.store_name(e.target.id, v, s, f, e), v))
        return out

    def e_IfExp(self, e, st, fid):
        out = []
        for s, v in self.eval_cond(e.test, st, fid):
            out += [(s, v)] if isinstance(v, Ctl) else self.eval(e.body if v else e.orelse, s, fid)
        return out

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        cur, out = [(st)], []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.eval(x, s, fid):
                    if isinstance(v, Ctl) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, self.known(v, b)))
            cur = nxt
        return out

    def known(self, v, b):
        """value whose truth is known: boolean terms become constants"""
        if v[0] in ('b', 'not'):
            return TRUE if b else FALSE
        return v

    def e_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.eval(e.operand, st, fid):
            if isinstance(v, Ctl):
                out.append((s, v))
                continue
            if isinstance(e.op, ast.Not):
                if v[0] == 'not':
                    h = v[1] if v[1][0] in ('b', 'not') else None
                    out.append((s, h if h is not None else ('not', v)))
                else:
                    h = s.holds(v[1] if v[0] == 'b' else ('truthy', v))
                    out.append((s, ('not', v) if h is None else C(not h)))
                continue
            if is_const(v):
                try:
                    r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v[2])
                    out.append((s, C(r)))
                    continue
                except TypeError:
                    pass
            out.append((s, ('un', type(e.op).__name__, v)))
        return out

    def e_BinOp(self, e, st, fid):
        out = []
        for s, vs in self.evals([e.left, e.right], st, fid):
            out.append((s, vs) if isinstance(vs, Ctl) else (s, self.binop(type(e.op).__name__, vs[0], vs[1])))
        return out

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y,
                     'Mod': lambda x, y: x % y, 'FloorDiv': lambda x, y: x // y, 'Pow': lambda x, y: x ** y,
                     'Div': lambda x, y: x / y, 'BitOr': lambda x, y: x | y, 'BitAnd': lambda x, y: x & y,
                     'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y, 'BitXor': lambda x, y: x ^ y}[op]
                return C(f(a[2], b[2]))
            except (KeyError, TypeError, ValueError, ZeroDivisionError):
                pass
        if op == 'Div' and not (is_const(b) and isinstance(b[2], (int, float))):
            return ('div', a, b)
        if op == 'Add' and a[0] in ('tup', 'list') and b[0] == a[0]:
            return (a[0], a[1] + b[1]) + a[2:]
        if op == 'Mult':
            if b[0] == 'tup' and a[0] == 'c':
                a, b = b, a
            if a[0] == 'tup' and b[0] == 'c' and type(b[2]) is int and b[2] < 100:
                return ('tup', a[1] * max(b[2], 0))
        if op == 'Add' and a[0] in ('fstr', 'c', 'strof') and b[0] in ('fstr', 'c', 'strof', 'attr', 'call') and \
                (a[0] != 'c' or a[1] == 'str') and (b[0] != 'c' or b[1] == 'str') and not (a[0] == 'strof' and b[0] in ('attr', 'call')):
            pa = a[1] if a[0] == 'fstr' else (a,)
            pb = b[1] if b[0] == 'fstr' else (b,)
            return ('fstr', tuple(pa) + tuple(pb))
        return ('bin', op, a, b)

    def eq_atom(self, a, b):
        if is_const(a) and not is_const(b) or (repr(a) > repr(b) and not is_const(b)):
            a, b = b, a
        return ('eq', a, b)

    def e_Compare(self, e, st, fid):
        if len(e.ops) > 1:
            vals, left = [], e.left
            for op, c in zip(e.ops, e.comparators):
                vals.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[c]), e))
                left = c
            return self.e_BoolOp(ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), e), st, fid)
        out = []
        for s, vs in self.evals([e.left, e.comparators[0]], st, fid):
            out.append((s, vs) if isinstance(vs, Ctl) else (s, self.compare(e.ops[0], vs[0], vs[1], s)))
        return out

    def compare(self, op, a, b, st):
        o = type(op).__name__
        neg = False
        if o in ('Is', 'IsNot'):
            neg = o == 'IsNot'
            if a in (TRUE, FALSE) and b not in (TRUE, FALSE):
                a, b = b, a
            if b in (TRUE, FALSE):
                atom = ('is', a, b)
                if a[0] in ('b', 'not'):
                    t = a if b == TRUE else ('not', a)
                    return t if not neg else ('not', t)
            elif a == NONE or b == NONE or a[0] == 'class' or b[0] == 'class':
                atom = self.eq_atom(a, b)
            else:
                if repr(a) > repr(b):
                    a, b = b, a
                atom = ('is', a, b)
                if is_const(a) or is_const(b):
                    atom = self.eq_atom(a, b)
        elif o in ('Eq', 'NotEq'):
            neg = o == 'NotEq'
            if a[0] == 'len' and b == C(0) or b[0] == 'len' and a == C(0):
                atom = ('truthy', (a if a[0] == 'len' else b)[1])
                neg = not neg
            else:
                atom = self.eq_atom(a, b)
        elif o in ('In', 'NotIn'):
            neg = o == 'NotIn'
            if b[0] == 'call' and b[1] in ('set', 'list', 'tuple', 'frozenset') and len(b[2]) == 1:
                b = b[2][0]
            if b[0] == 'call' and b[1] == 'vars' and len(b[2]) == 1:
                b = ('attr', b[2][0], '__dict__')
            if b[0] == 'call' and isinstance(b[1], tuple) and b[1][0] == 'm' and b[1][2] == 'keys':
                b = b[1][1]
            if b[0] == 'dict' and not any(k == ('kwstar',) for k, _ in b[1]):
                b = ('tup', tuple(k for k, _ in b[1]))
            if b[0] in ('list', 'set'):
                b = ('tup', b[1])
            atom = ('in', a, b)
            if b[0] == 'tup' and len(b[1]) == 1 and b[1][0][0] != 'star':
                atom = self.eq_atom(a, b[1][0])
            elif b[0] == 'attr' and b[2] == '__dict__' and is_const(a):
                atom = ('ownattr' if class_like(b[1]) else 'hasattr', b[1], a[2])
                hv = st.heap.get((b[1], a[2]))
                if hv is not None:
                    v = hv != ('deleted',)
                    return C(v != neg)
        else:
            if o == 'Gt':
                atom = ('lt', b, a)
            elif o == 'Lt':
                atom = ('lt', a, b)
            elif o == 'GtE':
                atom, neg = ('lt', a, b), True
            else:
                atom, neg = ('lt', b, a), True
        h = st.holds(atom)
        if h is not None:
            return C(h != neg)
        return ('not', ('b', atom)) if neg else ('b', atom)

    def e_Slice(self, e, st, fid):
        out = []
        for s, vs in self.evals([e.lower, e.upper, e.step], st, fid):
            out.append((s, vs if isinstance(vs, Ctl) else ('sliceobj',) + tuple(vs)))
        return out

    def e_Subscript(self, e, st, fid):
        out = []
        for s, vs in self.evals([e.value, e.slice], st, fid):
            if isinstance(vs, Ctl):
                out.append((s, vs))
                continue
            b, i = vs
            m = self.modelled(b, '__getitem__', [i])
            if m is not None:
                out.append((s, m))
                continue
            t = self.index(b, i, s)
            if t[0] == 'item' and self.may_raise_now(('item', None)):
                s2, u = s.fresh()
                out.append((s2.log(('raises', 'subscript', e)), Raise(('exc', 'LookupError', ('item', u)), e)))
            out.append((s, t))
        return out

    def index(self, b, i, st):
        h = st.heap.get((b, ('item', i)))
        if h is not None and h != ('deleted',):
            return h
        if i[0] == 'sliceobj':
            lo, hi, step = i[1:]
            if b[0] in ('tup', 'list') and not any(x[0] == 'star' for x in b[1]) and all(is_const(x) for x in i[1:]):
                return (b[0], b[1][slice(lo[2], hi[2], step[2])]) + b[2:]
            if is_const(b) and all(is_const(x) for x in i[1:]):
                return C(b[2][slice(lo[2], hi[2], step[2])])
            if lo in (NONE, C(0)) and hi == NONE and step == NONE and text_type(b) is not None:
                return b
            b, k = whole(b)
            if k and step == NONE and hi == NONE and (lo == NONE or is_const(lo) and isinstance(lo[2], int) and lo[2] >= 0):
                return ('slice', b, C(k + (lo[2] or 0)), NONE)
            if k:
                b = ('slice', b, C(k), NONE)
            return ('slice', b, lo, hi) + ((step,) if step != NONE else ())
        if is_const(i) and isinstance(i[2], int) and i[2] >= 0 and whole(b)[1]:
            b, k = whole(b)
            return self.index(b, C(k + i[2]), st)
        if is_const(i):
            if b[0] in ('tup', 'list') and isinstance(i[2], int) and not any(x[0] == 'star' for x in b[1]):
                try:
                    return b[1][i[2]]
                except IndexError:
                    return ('item', b, i)
            if b[0] in ('tup', 'list') and isinstance(i[2], int) and 0 <= i[2] < len(b[1]) and not any(x[0] == 'star' for x in b[1][:i[2] + 1]):
                return b[1][i[2]]
            if b[0] == 'dict':
                for k, v in reversed(b[1]):
                    if k == i:
                        return v
            if is_const(b) and isinstance(b[2], (str, bytes)) and isinstance(i[2], int):
                try:
                    return C(b[2][i[2]])
                except IndexError:
                    pass
        return ('item', b, i)

    def e_Await(self, e, st, fid):
        return self.eval(e.value, st, fid)

    # -- comprehensions -----------------------------------------------------
    def e_ListComp(self, e, st, fid):
        return self._comp('list', e, st, fid)

    def e_SetComp(self, e, st, fid):
        return self._comp('set', e, st, fid)

    def e_GeneratorExp(self, e, st, fid):
        return self._comp('gen', e, st, fid)

    def e_DictComp(self, e, st, fid):
        return self._comp('dict', e, st, fid)

    def _comp(self, kind, e, st, fid):
        func = self.frame_info[fid][0]
        cf = Func(func.qual, e, func.module, func.cls, 'func', func)
        cf.is_comp = True
        sub, s = self.new_frame(st, {}, cf, fid)
        out = []
        iters, conds = [], []
        cur = [s]
        g0 = e.generators[0]
        first = True
        states = [(s, [], [])]
        before = {}              # id of a state -> (that state, the one in which the first iterable is known)

        def bound(s, g, it, s2, its, cs):
            got = self._comp_bind(g, it, s2, sub, its, cs, out)
            b = s2 if first else before[id(s)][1]
            for x in got:
                before[id(x[0])] = x[0], b
            return got
        for g in e.generators:
            nxt = []
            for s, its, cs in states:
                for s2, it in self.eval(g.iter, s, fid if first else sub):
                    if isinstance(it, Ctl):
                        out.append((s2, it))
                        continue
                    if it[0] == 'genobj':
                        for s3, r in self.exhaust(it, s2):
                            if isinstance(r, Ctl):
                                out.append((s3, r))
                            else:
                                nxt += bound(s, g, it, s3, its, cs)
                        continue
                    nxt += bound(s, g, it, s2, its, cs)
            if not nxt and not out:
                nxt = [(s0, i0 + [('tup', ())], c0) for s0, i0, c0 in states[:1]]
            states, first = nxt, False
        res = []
        for s, its, cs in states:
            exprs = [e.key, e.value] if kind == 'dict' else [e.elt]
            if (self.dicts or kind == 'dict' and self.unroll > 6) and len(e.generators) == 1 and len(its) == 1:
                r = self._comp_exact(kind, e, exprs, its[0], s, sub)
                if r is not None:
                    res += r
                    continue
            if len(its) == 1 and its[0][0] in ('tup', 'list') and not cs and kind in ('list', 'gen', 'set') \
                    and len(its[0][1]) <= self.unroll and not any(x[0] == 'star' and x[1][0] == 'attr' for x in its[0][1]):
                cur, gone = [(s, ())], []
                for x in its[0][1]:
                    if x[0] == 'star':
                        # one element stands for those of the part
                        rest = self.strip_iter(x[1])
                        el = self.element(rest, 'c')
                        if rest[0] == 'comp' and rest[1] in ('gen', 'list') and not rest[4] and rest[3][0] != 'nest':
                            el, rest = rest[2], rest[3]
                        more = []
                        for s4, got in cur:
                            a = self.assign(e.generators[0].target, el, s4, sub, e)
                            for s5, vs in self.evals(exprs, a[0][1], sub):
                                if isinstance(vs, Ctl):
                                    gone.append((s5, vs))
                                else:
                                    more.append((s5, got + (('star', ('comp', 'gen', vs[0], rest, ())),)))
                        cur = more
                        if len(cur) != 1:
                            break
                        continue
                    nxt = []
                    for s4, got in cur:
                        a = self.assign(e.generators[0].target, x, s4, sub, e)
                        for s5, vs in self.evals(exprs, a[0][1], sub):
                            if isinstance(vs, Ctl):
                                gone.append((s5, vs))
                            else:
                                nxt.append((s5, got + (vs[0],)))
                    cur = nxt
                    if len(cur) != 1:
                        break
                if len(cur) == 1 and len(cur[0][1]) == len(its[0][1]):
                    out += gone
                    s4, items = cur[0]
                    if kind == 'gen':
                        res.append((s4, ('tup', items)))
                    else:
                        s4, u = s4.fresh()
                        res.append((s4, (kind, items, u)))
                    continue
            if kind == 'gen' and isinstance(e.elt, (ast.BoolOp, ast.UnaryOp)):
                rs = [(s, [self.cond_term(e.elt, s, sub)])]
            else:
                rs = self.evals(exprs, s, sub)
            good = [(s2, vs) for s2, vs in rs if not isinstance(vs, Ctl)]
            out += [(s2, vs) for s2, vs in rs if isinstance(vs, Ctl)]
            alts = []
            for s2, vs in good:
                v = vs[0] if len(vs) == 1 else ('kv', vs[0], vs[1])
                if v not in alts:
                    alts.append(v)
            if not good:
                continue
            elt = alts[0] if len(alts) == 1 else ('phi', tuple(alts))
            it = its[0] if len(its) == 1 else ('nest', tuple(its))
            # facts learned while evaluating one element do not hold for the others
            s2 = good[0][0] if len(good) == 1 else good[0][0]
            s3 = s2.copy()
            b = before[id(s)][1] if id(s) in before else st
            s3.facts, s3.dom, s3.bounds = b.facts, b.dom, b.bounds
            res.append((s3, ('comp', kind, elt, it, tuple(cs))))
        return out + res

    def _comp_exact(self, kind, e, exprs, it, s, sub):
        """a comprehension over a display, item by item"""
        it = self.strip_iter(it)
        it = self.modelled(it, '__iter__') or it
        if is_const(it) and isinstance(it[2], str) and len(it[2]) <= self.unroll:
            it = ('tup', tuple(C(x) for x in it[2]))
        if self.exact(it):
            it = ('tup', tuple(k for k, _ in it[1]))
        if it[0] not in ('tup', 'list') or any(x[0] == 'star' for x in it[1]) or len(it[1]) > self.unroll:
            return None
        g = e.generators[0]
        cur, out = [(s, ())], []
        for x in it[1]:
            nxt = []
            for s1, got in cur:
                for k, s2, _ in self.assign(g.target, x, s1, sub, g):
                    states = [(s2, True)]
                    for c in g.ifs:
                        more = []
                        for s3, ok in states:
                            more += [(s4, v) for s4, v in self.eval_cond(c, s3, sub)] if ok is True else [(s3, ok)]
                        states = more
                    for s3, ok in states:
                        if isinstance(ok, Ctl):
                            out.append((s3, ok))
                        elif not ok:
                            nxt.append((s3, got))
                        else:
                            for s4, vs in self.evals(exprs, s3, sub):
                                if isinstance(vs, Ctl):
                                    out.append((s4, vs))
                                else:
                                    nxt.append((s4, got + (tuple(vs),)))
            cur = nxt
        for s1, got in cur:
            if kind == 'dict':
                s1, u = s1.fresh()
                d = ('dict', (), u)
                for k, v in got:
                    d = self.dict_set(d, k, v)
                out.append((s1, d))
            elif kind == 'gen':
                out.append((s1, ('tup', tuple(x[0] for x in got))))
            else:
                s1, u = s1.fresh()
                out.append((s1, (kind, tuple(x[0] for x in got), u)))
        return out

    def _comp_bind(self, g, it, s, sub, its, cs, out):
        res = []
        one = it[0] in ('tup', 'list') and len(it[1]) == 1 and it[1][0][0] != 'star' and its
        for k, s2, x in self.assign(g.target, it[1][0] if one else self.element(it, 'c'), s, sub, g):
            if k != 'next':
                out.append((s2, x))
                continue
            cur = [(s2, list(cs))]
            for c in g.ifs:
                nxt = []
                for s3, c3 in cur:
                    save = (s3.facts, s3.dom, s3.bounds)
                    t = self.cond_term(c, s3, sub)
                    # element satisfies the filter
                    keep = [s4 for s4, v in self.eval_cond(c, s3, sub) if v is True]
                    if keep or t != FALSE:
                        nxt.append((keep[0] if len(keep) == 1 else s3, c3 + [t]))
                cur = nxt
            for s3, c3 in cur:
                res.append((s3, its if one else its + [it], c3))
        return res

    def cond_term(self, c, st, fid):
        """a condition as a term, without forking"""
        if isinstance(c, ast.BoolOp):
            return ('and' if isinstance(c.op, ast.And) else 'or', tuple(self.cond_term(x, st, fid) for x in c.values))
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            return ('not', self.cond_term(c.operand, st, fid))
        rs = [v for _, v in self.eval(c, st, fid) if not isinstance(v, Ctl)]
        return rs[0] if len(rs) == 1 else ('phi', tuple(rs))

    def exhaust(self, gen, st):
        """run a repository generator to its end, dropping what it yields"""
        out = []
        for k, s, x in self._run_gen(gen, st, lambda v, s: [(s, NONE)]):
            if k == 'next':
                out.append((s, NONE))
            else:
                out.append((s, x))
        return out

    # -- generators -----------------------------------------------------------

    def e_Yield(self, e, st, fid):
        out = []
        for s, v in (self.eval(e.value, st, fid) if e.value is not None else [(st, NONE)]):
            if isinstance(v, Ctl):
                out.append((s, v))
                continue
            out += self.do_yield(v, s, fid, e)
        return out

    def do_yield(self, v, s, fid, node):
        for hf, on_yield in reversed(self.yield_handlers):
            if hf == fid:
                out = []
                for s2, r in on_yield(v, s):
                    if isinstance(r, Ctl):
                        out.append((s2, r))
                    elif isinstance(r, tuple) and r and r[0] == 'pending':
                        out.append((s2.set_var(fid, '__pending__', r), NONE))
                    else:
                        out.append((s2, r))
                return out
        s, ev = self.emit(s, 'yield', 'yield', None, [v], {}, node)
        out = [(s, NONE)]
        if self.yield_raises:
            s2, u = s.fresh()
            out.append((s2.log(('raises', 'yield', node)), Raise(('exc', 'BaseException', ('yield', u)), node)))
        return out

    def e_YieldFrom(self, e, st, fid):
        out = []
        for s, v in self.eval(e.value, st, fid):
            if isinstance(v, Ctl):
                out.append((s, v))
            elif v[0] == 'genobj':
                for k, s2, x in self._run_gen(v, s, lambda y, s3: self.do_yield(y, s3, fid, e)):
                    out.append((s2, (x or NONE) if k == 'next' else x))
            else:
                s, ev = self.emit(s, 'yield', 'yieldfrom', None, [v], {}, e)
                out += self.may_fork(s, NONE, ev, e)
        return out

    # -- events and exceptions -------------------------------------------------
    def emit(self, st, kind, name, target, args, kw, node):
        ev = Event(kind, name, target, args, kw, node, self.stack[-1], st)
        s = st.log(ev)
        if kind == 'effect' and name in FS_MUT:
            s = self.bump(s, ev)
        return s, ev

    def bump(self, s, ev):
        touched = {pid(x) for x in (ev.target,) + ev.args if x is not None}
        build = ev.name in ('mkdir', 'touch', 'symlink', 'write', 'open-w', 'copy', 'link')
        old, s = s.epoch, s.copy()
        s.epoch = old + 1
        add = {}
        for a, v in s.facts.items():
            if a[0] == 'fs' and a[3] == old:
                x = a[2]
                hit = False
                for t in touched:
                    if x == t:
                        hit = True
                    elif build:
                        if contains(t, x) and v is False:
                            hit = True
                    elif contains(t, x) or contains(x, t):
                        hit = True
                if not hit:
                    add[('fs', a[1], x, s.epoch)] = v
        if add:
            s.facts = {**s.facts, **add}
        return s

    def may_raise_now(self, what):
        if self.raising is not None:
            r = self.raising(what)
            if r is not None:
                return r
        if self.raises == 'none':
            return False
        return self.raises == 'all' or self.in_try > 0

    def may_fork(self, st, val, ev, node, base=None):
        """outcome of an opaque event: a value, and where it matters an exception"""
        if ev.name in NORAISE_METH or ev.name in ('pop', 'setdefault') and len(ev.args) > 1 or not self.may_raise_now(ev):
            return [(st, val)]
        pre, u = ev.st.fresh()
        pre = pre.copy()
        pre.n = max(pre.n, st.n) + 1
        pre = pre.log(('raises', ev, node))
        return [(st, val), (pre, Raise(('exc', base or self.exc_root, (ev.name, u, pre.n)), node))]

    # -- calls ------------------------------------------------------------------
    def e_Call(self, e, st, fid):
        self.stats['calls'] += 1
        out = []
        # locals()/globals and zero argument super
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup_raw('super', st, fid) is None:
            return self._super(e, st, fid)
        for s, f in self.eval_callee(e.func, st, fid):
            if isinstance(f, Ctl):
                out.append((s, f))
                continue
            exprs = list(e.args) + [k.value for k in e.keywords]
            for s2, vs in self.evals(exprs, s, fid):
                if isinstance(vs, Ctl):
                    out.append((s2, vs))
                    continue
                args = self.splat(vs[:len(e.args)])
                kw = {}
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if v[0] == 'dict' and all(is_const(kk) for kk, _ in v[1]):
                            for kk, vv in v[1]:
                                kw[kk[2]] = self.index(v, kk, s2)
                        else:
                            kw['**'] = v
                    else:
                        kw[k.arg] = v
                out += self.call(f, args, kw, s2, e, fid)
        return out

    def _super(self, e, st, fid):
        out = []
        for s, vs in self.evals(e.args, st, fid):
            if isinstance(vs, Ctl):
                out.append((s, vs))
                continue
            f = self.frame_info[fid][0]
            p = fid
            while f.cls is None and f.outer is not None and self.frame_info[p][1] is not None:
                p = self.frame_info[p][1]
                f = self.frame_info[p][0]
            if vs:
                out.append((s, ('super', vs[0][1] if vs[0][0] == 'class' else '?', vs[1] if len(vs) > 1 else NONE)))
                continue
            while getattr(f, 'is_comp', False) and self.frame_info[p][1] is not None:
                p = self.frame_info[p][1]
                f = self.frame_info[p][0]
            a = getattr(f.node, 'args', None)
            ps = [x.arg for x in a.posonlyargs + a.args] if a else []
            me = st.frames[p].get(ps[0]) if ps else None
            out.append((s, ('super', f.cls.qual if f.cls else '?', me or NONE)))
        return out

    def eval_callee(self, e, st, fid):
        if isinstance(e, ast.Attribute):
            out = []
            for s, b in self.eval(e.value, st, fid):
                if isinstance(b, Ctl):
                    out.append((s, b))
                    continue
                out += self.method_of(b, e.attr, s, e, fid)
            return out
        return self.eval(e, st, fid)

    def method_of(self, b, name, st, node, fid):
        if name == '__class__':
            return [(st, self.class_term(b))]
        h = st.heap.get((b, name))
        if h is not None and h != ('deleted',):
            return [(st, h)]
        k = b[0]
        if k in ('mod', 'ext', 'class', 'classof', 'super'):
            rs = self.eval_attr(b, name, st, node, fid)
            return [(s, ('meth', v[1], v[2]) if not isinstance(v, Ctl) and v[0] == 'attr' else v) for s, v in rs]
        c = self.typeof(b)
        if c is not None:
            owner, v = c.lookup(name)
            if isinstance(v, (Func, Alias, Class)):
                rs = self.bind_member(b, owner, v, name, st, node, fid)
                return [(s, ('meth', v[1], v[2]) if not isinstance(v, Ctl) and v[0] == 'attr' else v) for s, v in rs]
            if isinstance(v, Prop):
                return self.eval_attr(b, name, st, node, fid)
        if name in ('is_broken_symlink', 'exists_not_symlink'):
            f = self.prog.funcs.get('augpathlib.core.AugmentedPath.' + name)
            if f is not None:
                return [(st, ('bound', f.qual, b))]
        f = self.unique_new(name)
        if f is not None:
            return [(st, ('bound', f.qual, b) if f.kind != 'static' else ('func', f.qual))]
        if b == NONE:
            return [(st, Raise(('newexc', 'AttributeError', (C('NoneType.' + name),), None), node))]
        return [(st, ('meth', b, name))]

    def unique_new(self, name, want_prop=False):
        """function outside the inventory that is the only one of its name"""
        if self.inventory is None:
            return None
        idx = self.__dict__.get('_newidx')
        if idx is None:
            idx = {}
            for q, f in self.prog.funcs.items():
                if q not in self.inventory and f.cls is not None:
                    idx.setdefault(f.node.name, []).append(f)
            self._newidx = idx
        fs = idx.get(name, [])
        if len(fs) == 1:
            isprop = any('property' in d for d in fs[0].decorators)
            if isprop == want_prop:
                return fs[0]
        return None

    def should_inline(self, f):
        if f in self.stack:
            return False
        if len(self.stack) > self.maxdepth:
            return False
        q = f.qual[len('augpathlib.'):] if f.qual.startswith('augpathlib.') else f.qual
        if q in self.opaque or f.node.__dict__.get('name') in self.opaque:
            return False
        if q in self.inline:
            return True
        if f.node.__dict__.get('name') in ('is_broken_symlink', 'exists_not_symlink', '_abstract_class_') and f.cls is not None \
                and f.cls.name == 'AugmentedPath':
            return True
        if '*' in self.inline:
            return True
        n = f.cls.name + '.*' if f.cls is not None else f.module.name.rpartition('.')[2] + '.*'
        if n in self.inline:
            return True
        if self.inline_new and self.inventory is not None and f.qual not in self.inventory:
            return True
        return False

    # bind arguments; None when the call shape is not statically known
    def bind(self, f, args, kw, st, parent=None):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if any(x[0] == 'star' for x in args) or '**' in kw:
            if not (a.vararg and a.kwarg):
                # forward unknown extras: bind what is known
                if '**' in kw and not any(x[0] == 'star' for x in args):
                    kw = dict(kw)
                    rest = kw.pop('**')
                    env2 = self.bind(f, args, {**{p: ('item', rest, C(p)) for p in
                                                  [x.arg for x in a.args + a.kwonlyargs] if p not in kw and
                                                  p not in params[:len(args)]}, **kw}, st, parent)
                    return env2
                return None
        pos = list(args)
        for p in params:
            if pos:
                if pos[0][0] == 'star':
                    break
                env[p] = pos.pop(0)
        if pos:
            if a.vararg is None:
                return None
            if len(pos) == 1 and pos[0][0] == 'star':
                env[a.vararg.arg] = pos[0][1]
            else:
                env[a.vararg.arg] = ('tup', tuple(pos))
        elif a.vararg is not None:
            env[a.vararg.arg] = ('tup', ())
        names = set(params) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names and k not in env:
                env[k] = v
            elif k != '**' and k in env:
                return None
            else:
                extra[k] = v
        if a.kwarg is not None:
            if set(extra) == {'**'}:
                env[a.kwarg.arg] = extra['**']
            else:
                env[a.kwarg.arg] = ('dict', tuple((C(k) if k != '**' else ('kwstar',), v) for k, v in extra.items()), None)
        elif extra:
            return None
        defs = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        kept = dict((st.frames.get(parent) or {}).get(f'__defaults__{id(f.node)}', (None, ()))[1]) if parent is not None else {}
        for p in names:
            if p not in env:
                if p not in defs:
                    return None
                env[p] = kept[id(defs[p])] if id(defs[p]) in kept else self.default_term(defs[p], f)
        return env

    def default_term(self, e, f):
        mf = Func(f.module.name, ast.Module(body=[], type_ignores=[]), f.module)
        fid, s = self.new_frame(State(), {}, mf, None)
        self.stack.append(mf)
        saved, self.in_try, r0 = self.in_try, 0, self.raises
        self.raises = 'none'
        try:
            v = self.eval(e, s, fid)[0][1]
        finally:
            self.stack.pop()
            self.in_try, self.raises = saved, r0
        return v if not isinstance(v, Ctl) else ('default', ast.unparse(e))

    def call_func(self, f, args, kw, st, node, parent=None, env=None):
        """inline a repository function"""
        if env is None:
            env = self.bind(f, args, kw, st, parent)
        if env is None:
            st, ev = self.emit(st, 'call', f.node.__dict__.get('name', '<lambda>'), None, args, kw, node)
            return self.opaque_result(st, ev, node)
        if f.is_gen:
            self.gens[len(self.gens) + 1] = (f, env, parent, len(self.stack))
            return [(st, ('genobj', len(self.gens)))]
        fid, s = self.new_frame(st, env, f, parent)
        self.stack.append(f)
        self.stats['functions'].add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [('return', s2, v) if not isinstance(v, Ctl) else self.ctl(s2, v)
                        for s2, v in self.eval(f.node.body, s, fid)]
            else:
                outs = self.body(f.node.body, s, fid)
        finally:
            self.stack.pop()
        res = []
        for k, s2, v in outs:
            if k == 'return':
                res.append((s2, v))
            elif k == 'next':
                res.append((s2, NONE))
            else:
                res.append((s2, v))
        if len(res) > self.max_paths:
            raise Limit(f'too many paths in {f.qual}')
        return res

    def opaque_result(self, st, ev, node, val=None):
        if val is None:
            st, u = st.fresh()
            nm = ev.name if ev.target is None else ('m', ev.target, ev.name)
            kwt = tuple(('kw', C(k), v) for k, v in sorted(ev.kw.items()))
            val = ('call', nm, ev.args + kwt, u)
        ev.result = val
        return self.may_fork(st, val, ev, node)

    PURE_METH = {'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'encode', 'decode', 'split', 'rsplit',
                 'join', 'items', 'keys', 'values', 'get', 'as_posix', 'relative_to', 'with_name', 'with_suffix', 'is_absolute',
                 'replace_str', 'format', 'stat', 'lstat', 'cwd', 'iterdir', 'walk', 'glob', 'rglob', 'readlink', 'resolve',
                 'commonpath', 'expanduser', 'hex', 'digest', 'total_seconds', 'isoformat', 'count', 'index', 'find', 'partition', 'rpartition', 'mro',
                 'as_path', 'parts_relative_to', 'isatty', 'fileno', 'tell', 'difference', 'union', 'intersection', 'as_uri', 'casefold', 'title', 'zfill'}

    def call(self, f, args, kw, st, node, fid):
        k = f[0]
        if k in ('bound', 'func'):
            func = self.prog.funcs.get(f[1])
            pre = [f[2]] if k == 'bound' else []
            if func is None:
                return self.meth_call(f[2] if k == 'bound' else None, f[1], args, kw, st, node)
            return self.repo_call(func, pre, args, kw, st, node)
        if k == 'clo':
            func, parent = self.closures[f[1]]
            if func in self.stack and len(self.stack) > 3 and self.stack.count(func) > 1 or len(self.stack) > self.maxdepth + 4:
                st, ev = self.emit(st, 'call', func.node.__dict__.get('name', '<lambda>'), None, args, kw, node)
                return self.opaque_result(st, ev, node)
            return self.call_func(func, args, kw, st, node, parent)
        if k == 'cbound':
            return self.call(f[1], [f[2]] + args, kw, st, node, fid)
        c = self.typeof(f) if k in ('gval', 'new') else None
        if c is not None:
            owner, m = c.lookup('__call__')
            if isinstance(m, Func):
                return self.repo_call(m, [f], args, kw, st, node)
        if k == 'partial':
            return self.call(f[1], list(f[2]) + args, {**dict(f[3]), **kw}, st, node, fid)
        if k == 'meth':
            return self.meth_call(f[1], f[2], args, kw, st, node)
        if k == 'class' or k == 'classof':
            return self.construct(f, args, kw, st, node)
        if k == 'bi':
            return self.builtin(f[1], args, kw, st, node, fid)
        if k == 'ext':
            return self.ext_call(f[1], args, kw, st, node, fid)
        if k == 'attr':
            # a stored callable or class: self._cache_class(...)
            return self.meth_call(f[1], f[2], args, kw, st, node)
        st, ev = self.emit(st, 'call', 'value', f, args, kw, node)
        return self.opaque_result(st, ev, node)

    def repo_call(self, func, pre, args, kw, st, node):
        name = func.node.__dict__.get('name', '<lambda>')
        short = func.qual[len('augpathlib.'):] if func.qual.startswith('augpathlib.') else func.qual
        tgt = pre[0] if pre else None
        allargs = pre + args
        if func.kind == 'method' and not pre and args:
            tgt, args = args[0], args[1:]      # Class.method(obj, ...)
        if self.atomic_preds and name in PRED and tgt is not None and short not in self.inline:
            return [(st, self.pred_term(name, tgt, st))]
        if short in self.models:
            r = self.models[short](tgt, args)
            if r is not None:
                return [(st, r)]
        if self.should_inline(func):
            return self.call_func(func, allargs, kw, st, node)
        if name in METH_EFFECT and func.cls is not None and self.effect_methods:
            if short in ('core.AugmentedPath.rename', 'core.AugmentedPath.chdir') and func not in self.stack:
                return self.call_func(func, allargs, kw, st, node)
            return self.effect(METH_EFFECT[name], tgt, args, kw, st, node)
        if func.kind == 'static' or func.cls is None:
            st, ev = self.emit(st, 'call', name, None, args, kw, node)
        else:
            st, ev = self.emit(st, 'call', name, tgt, args, kw, node)
        ev.kw['__func__'] = ('func', func.qual)
        ev.kw = {k: v for k, v in ev.kw.items()}
        r = self.known_result(name, tgt, args, kw, st)
        res = self.opaque_result_nokw(st, ev, node, r)
        return res

    def opaque_result_nokw(self, st, ev, node, val):
        fn = ev.kw.pop('__func__', None)
        res = self.opaque_result(st, ev, node, val)
        ev.kw['__func__'] = fn
        return res

    def known_result(self, name, tgt, args, kw, st):
        if name == 'resolve' and tgt is not None:
            return ('call', ('m', tgt, 'resolve'), ())
        if name == 'commonpath' and tgt is not None:
            return ('call', ('m', tgt, 'commonpath'), tuple(args))
        if name == 'readlink' and tgt is not None:
            return ('call', ('m', tgt, 'readlink'), tuple(args))
        return None

    def pred_term(self, name, tgt, st):
        if pid(tgt)[0] == 'call' and False:
            pass
        atom = ('fs', name, pid(tgt), st.epoch)
        h = st.holds(atom)
        return C(h) if h is not None else ('b', atom)

    def effect(self, name, target, args, kw, st, node):
        st, ev = self.emit(st, 'effect', name, target, args, kw, node)
        st, u = st.fresh()
        val = ('call', ('m', target or NONE, name), tuple(args), u)
        if name in ('rename', 'replace') and args:
            val = args[0]
        ev.result = val
        if name == 'chdir':
            st = st.copy()
            st.heap = {**st.heap, ('cwdn',): st.heap.get(('cwdn',), 0) + 1}
        return self.may_fork(st, val, ev, node, 'OSError' if self.exc_root == 'Exception' else None)

    def construct(self, cterm, args, kw, st, node):
        c = self.cls_of_term(cterm)
        q = cterm[1] if cterm[0] == 'class' else (c.qual if c is not None else None)
        if self.is_exc_class(c):
            st, u = st.fresh()
            return [(st, ('newexc', q, tuple(args), u))]
        if self.is_path_class(c) or c is None:
            is_cache = c is not None and any(isinstance(x, Class) and x.name == '_CachePath' for x in c.mro())
            if c is None and not (len(args) == 1 and not kw):
                st, ev = self.emit(st, 'new', show(cterm), cterm, args, kw, node)
                return self.opaque_result(st, ev, node)
            if len(args) == 1 and args[0][0] != 'star':
                val = ('new', 'path', tuple(args), cterm)
            elif args and not any(x[0] == 'star' for x in args):
                v = args[0]
                for x in args[1:]:
                    v = ('div', v, x)
                val = ('new', 'path', (v,), cterm)
            else:
                st, u = st.fresh()
                val = ('new', 'path', tuple(args) + (C(u),), cterm)
            st, ev = self.emit(st, 'new', q, cterm, args, kw, node)
            ev.result = val
            if is_cache or kw:
                return self.may_fork(st, val, ev, node)
            return [(st, val)]
        if c is not None:
            owner, init = c.lookup('__init__')
            st, u = st.fresh()
            kwt = tuple(('kw', C(k), v) for k, v in sorted(kw.items()))
            val = ('new', q, tuple(args) + kwt, u)
            st, ev = self.emit(st, 'new', q, cterm, args, kw, node)
            ev.result = val
            if isinstance(init, Func) and self.should_inline(init):
                return [(s, r if isinstance(r, Ctl) else val) for s, r in self.call_func(init, [val] + args, kw, st, node)]
            return self.may_fork(st, val, ev, node)
        raise AnalysisError('unreachable')

    # receiver.method(...) that does not resolve to a repository function
    def meth_call(self, b, name, args, kw, st, node):
        if b is None:
            st, ev = self.emit(st, 'call', name, None, args, kw, node)
            return self.opaque_result(st, ev, node)
        tgt = b[2] if b[0] == 'super' else b
        if name in PRED and not args and self.atomic_preds:
            return [(st, self.pred_term(name, tgt, st))]
        if name in METH_EFFECT and self.effect_methods and not (name == 'replace' and len(args) != 1):
            return self.effect(METH_EFFECT[name], tgt, args, kw, st, node)
        if name == 'absolute' and not args:
            return [(st, ('abs', tgt))]
        if name in ('as_posix', '__str__', '__fspath__') and not args:
            return [(st, ('strof', tgt) if tgt[0] != 'strof' else tgt)]
        if name == 'joinpath':
            for x in args:
                tgt = ('div', tgt, x)
            return [(st, tgt)]
        if name == 'cwd' and not args:
            return [(st, ('cwd', st.heap.get(('cwdn',), 0)))]
        if name == 'lexists':
            return self.lexists(tgt, st)
        if name == 'open' and (self.is_path_class(self.typeof(tgt)) or tgt[0] in ('div', 'new', 'attr', 'param', 'local')):
            return self.open_call(tgt, args, kw, st, node)
        if self.exact(tgt):
            r = self.dict_method(st, tgt, name, args, kw, node)
            if r is not None:
                return r
        if name in ('append', 'add') and len(args) == 1 and tgt[0] in ('list', 'set') and len(tgt) > 2:
            return [(self.rebind(st, tgt, (tgt[0], tgt[1] + (args[0],), tgt[2]), node, name, args), NONE)]
        if name == 'extend' and len(args) == 1 and tgt[0] == 'list' and len(tgt) > 2:
            x = args[0]
            items = x[1] if x[0] in ('list', 'tup') else (('star', x),)
            return [(self.rebind(st, tgt, ('list', tgt[1] + tuple(items), tgt[2]), node, name, args), NONE)]
        if name == 'update' and tgt[0] == 'dict' and not kw and len(args) == 1 and args[0][0] == 'dict':
            return [(self.rebind(st, tgt, ('dict', tgt[1] + args[0][1], tgt[2]), node, name, args), NONE)]
        if is_const(tgt) and isinstance(tgt[2], (str, bytes)) and name in self.PURE_METH and not kw:
            try:
                r = getattr(tgt[2], name)(*[const_of(a) for a in args])
                if isinstance(r, (str, bytes, bool, int, tuple)):
                    return [(st, C(r))]
                if isinstance(r, list):
                    st, u = st.fresh()
                    return [(st, ('list', tuple(C(x) for x in r), u))]
            except Exception:
                pass
        if name in ('index', 'count') and tgt[0] in ('tup', 'list') and len(args) == 1 and not kw and is_const(args[0]) and all(is_const(x) for x in tgt[1]):
            if name == 'count' or args[0] in tgt[1]:
                return [(st, C(getattr(list(tgt[1]), name)(args[0])))]
        if name in self.PURE_METH or (name == 'replace' and len(args) == 2) or name == 'values':
            nm = 'replace_str' if name == 'replace' else name
            kwt = tuple(('kw', C(k), v) for k, v in sorted(kw.items()))
            val = ('call', ('m', tgt, nm), tuple(args) + kwt)
            st, ev = self.emit(st, 'call', nm, tgt, args, kw, node)
            ev.result = val
            if nm in ('decode', 'encode', 'relative_to', 'stat', 'lstat', 'iterdir', 'walk', 'readlink', 'resolve', 'commonpath', 'index', 'as_path'):
                return self.may_fork(st, val, ev, node)
            return [(st, val)]
        if name in ('pop', 'remove', 'clear', 'insert', 'discard', 'difference_update', 'update', 'setdefault', 'popitem', 'sort', 'reverse') \
                and tgt[0] in ('list', 'set', 'dict') and len(tgt) > 2:
            st, ev = self.emit(st, 'call', name, tgt, args, kw, node)
            new = (tgt[0], (('star', ('havoc', name, st.n)),), tgt[2]) if tgt[0] != 'dict' else ('dict', ((('kwstar',), ('havoc', name, st.n)),), tgt[2])
            if name == 'sort':
                new = tgt
            elif name == 'reverse':
                back = [x if x[0] != 'star' else ('star', ('call', 'reversed', (x[1],))) for x in reversed(tgt[1])]
                new = (tgt[0], tuple(back), tgt[2])
            elif name == 'insert' and len(args) == 2 and args[0] == C(0):
                new = (tgt[0], (args[1],) + tgt[1], tgt[2])
            st = self.rebind(st, tgt, new, node, None, args)
            return self.opaque_result(st, ev, node)
        st, ev = self.emit(st, 'call', name, b if b[0] == 'super' else tgt, args, kw, node)
        if name in NORAISE_METH:
            st, u = st.fresh()
            ev.result = ('call', ('m', tgt, name), tuple(args), u)
            return [(st, ev.result)]
        return self.opaque_result(st, ev, node)

    def modelled(self, b, name, args=()):
        if not self.models:
            return None
        c = self.typeof(b)
        owner, v = c.lookup(name) if c is not None else (None, None)
        f = self.models.get(v.qual[len('augpathlib.'):]) if isinstance(v, Func) else None
        return f(b, list(args)) if f is not None else None

    def exact(self, t):
        return self.dicts and t[0] == 'dict' and all(is_const(k) for k, _ in t[1])

    @staticmethod
    def dict_set(d, k, v):
        if any(x == k for x, _ in d[1]):
            return ('dict', tuple((x, v if x == k else y) for x, y in d[1])) + d[2:]
        return ('dict', d[1] + ((k, v),)) + d[2:]

    @staticmethod
    def dict_del(d, k):
        return ('dict', tuple((x, y) for x, y in d[1] if x != k)) + d[2:]

    def dict_method(self, st, tgt, name, args, kw, node):
        """method of a dict of known contents, None when not followed"""
        items = tgt[1]
        has = args and is_const(args[0]) and any(k == args[0] for k, _ in items)
        if name in ('items', 'keys', 'values') and not args:
            return [(st, ('tup', tuple(('tup', x) if name == 'items' else x[name == 'values'] for x in items)))]
        if name == 'copy' and not args:
            st, u = st.fresh()
            return [(st, ('dict', items, u))]
        if name in ('get', 'pop', 'setdefault') and args and is_const(args[0]):
            dflt = args[1] if len(args) > 1 else NONE
            v = self.index(tgt, args[0], st) if has else dflt
            if name == 'pop':
                if not has and len(args) < 2:
                    return [(st, Raise(('newexc', 'KeyError', (args[0],), None), node))]
                st = self.rebind(st, tgt, self.dict_del(tgt, args[0]), node, name, args)
            if name == 'setdefault' and not has:
                st = self.rebind(st, tgt, self.dict_set(tgt, args[0], dflt), node, name, args)
            return [(st, v)]
        if name == 'update' and len(args) == 1 and not kw and args[0][0] in ('tup', 'list') and \
                all(x[0] == 'tup' and len(x[1]) == 2 and is_const(x[1][0]) for x in args[0][1]):
            d = tgt
            for x in args[0][1]:
                d = self.dict_set(d, *x[1])
            return [(self.rebind(st, tgt, d, node, name, args), NONE)]
        if name == 'update' and (not args or len(args) == 1 and self.exact(args[0])) and '**' not in kw:
            d = tgt
            for k, v in (args[0][1] if args else ()) + tuple((C(k), v) for k, v in kw.items()):
                d = self.dict_set(d, k, v)
            return [(self.rebind(st, tgt, d, node, name, args), NONE)]
        return None

    def rebind(self, st, old, new, node, name, args):
        """a display object mutated in place: every variable holding it sees the new contents"""
        s = st.copy()
        frames = {}
        for f, env in st.frames.items():
            if any(v is old or v == old for v in env.values()):
                env = {k: (new if v == old else v) for k, v in env.items()}
            frames[f] = env
        s.frames = frames
        if any(v == old for v in st.heap.values()):
            s.heap = {k: (new if v == old else v) for k, v in st.heap.items()}
        if name:
            s = self.emit(s, 'call', name, old, args, {}, node)[0]
        return s

    def lexists(self, p, st):
        out = []
        a = ('fs', 'exists', pid(p), st.epoch)
        b = ('fs', 'is_symlink', pid(p), st.epoch)
        s1 = st.assume(a, True)
        if s1 is not None:
            out.append((s1, TRUE))
        s0 = st.assume(a, False)
        if s0 is not None:
            for v in (True, False):
                s2 = s0.assume(b, v)
                if s2 is not None:
                    out.append((s2, C(v)))
        return out

    def open_call(self, path, args, kw, st, node):
        mode = args[0] if args else kw.get('mode', C('r'))
        w = not (is_const(mode) and isinstance(mode[2], str) and not set(mode[2]) & set('wax+'))
        st, u = st.fresh()
        val = ('file', path, mode, u)
        st, ev = self.emit(st, 'effect', 'open-w' if w else 'open', path, [mode], kw, node)
        ev.result = val
        return self.may_fork(st, val, ev, node, 'OSError')

    # -- builtins -----------------------------------------------------------------
    def builtin(self, name, args, kw, st, node, fid):
        a0 = args[0] if args else None
        B = lambda t: [(st, t)]
        if name == 'isinstance' and len(args) == 2 and NONETYPE in (args[1][1] if args[1][0] == 'tup' else (args[1],)):
            rest = ('tup', tuple(x for x in args[1][1] if x != NONETYPE)) if args[1][0] == 'tup' else ('tup', ())
            return [(s, TRUE if b else self.isinst(a0, rest, s, name) if rest[1] else FALSE) for s, b in self.truth(('b', ('isc', a0, NONE)), st)]
        if name in ('isinstance', 'issubclass') and len(args) == 2:
            return B(self.isinst(a0, args[1], st, name))
        if name == 'hasattr' and len(args) == 2 and not is_const(args[1]):
            atom = ('hasattr', a0, args[1])
            h = st.holds(atom)
            return B(C(h) if h is not None else ('b', atom))
        if name == 'hasattr' and len(args) == 2 and is_const(args[1]):
            n = args[1][2]
            if a0 == ('ext', 'errno'):
                try:
                    self.prog.config.ext_value(f'errno.{n}')
                    return B(TRUE)
                except (KeyError, AttributeError):
                    return B(FALSE)
            h = st.heap.get((a0, n))
            if h is not None:
                return B(C(h != ('deleted',)))
            c = self.typeof(a0) or self.cls_of_term(a0)
            if c is not None:
                owner, v = c.lookup(n)
                if owner is not None and not isinstance(v, Prop):
                    return B(TRUE)
                if isinstance(v, Prop) and not n.startswith('_'):
                    return B(TRUE)
            atom = ('hasattr', a0, n)
            h = st.holds(atom)
            return B(C(h) if h is not None else ('b', atom))
        if name == 'getattr' and len(args) >= 2:
            if not is_const(args[1]):
                st, ev = self.emit(st, 'call', 'getattr', None, args, kw, node)
                ev.result = ('getattr', a0, args[1])
                h = st.holds(('hasattr', a0, args[1]))
                if len(args) == 2 and h is False:
                    return [(st, Raise(('exc', 'AttributeError', ('getattr', st.n)), node))]
                if len(args) == 2 and h is not True:
                    return self.may_fork(st, ev.result, ev, node, base='AttributeError')
                return B(ev.result)
            n = args[1][2]
            if a0 == ('ext', 'errno'):
                try:
                    return B(C(self.prog.config.ext_value(f'errno.{n}')))
                except (KeyError, AttributeError):
                    if len(args) == 3:
                        return B(args[2])
            c = self.typeof(a0)
            if (a0, n) in st.heap or c is not None and c.lookup(n)[1] is not None:
                return self.eval_attr(a0, n, st, node, fid)
            if len(args) == 3:
                h = st.heap.get((a0, n))
                c = self.typeof(a0)
                found = c is not None and c.lookup(n)[0] is not None
                if h is None and not found:
                    out = []
                    for s, b in self.truth(('b', ('hasattr', a0, n)), st):
                        out += self.eval_attr(a0, n, s, node, fid) if b else [(s, args[2])]
                    return out
                if h == ('deleted',):
                    return B(args[2])
            return self.eval_attr(a0, n, st, node, fid)
        if name == 'setattr' and len(args) == 3 and is_const(args[1]):
            return self.set_attr(a0, args[1][2], args[2], st, fid, node)
        if name == 'delattr' and len(args) == 2 and is_const(args[1]):
            return B(NONE) if False else [(self.del_attr(a0, args[1][2], st, node), NONE)]
        if name == 'len' and len(args) == 1:
            if a0[0] in ('tup', 'list') and not any(x[0] == 'star' for x in a0[1]):
                return B(C(len(a0[1])))
            if is_const(a0) and isinstance(a0[2], (str, bytes)):
                return B(C(len(a0[2])))
            return B(('len', a0))
        if name == 'str' and len(args) == 1:
            if is_const(a0):
                return B(C(str(a0[2])))
            return B(a0 if a0[0] in ('strof', 'fstr') else ('strof', a0))
        if name == 'type' and len(args) == 1:
            return B(self.class_term(a0))
        if name == 'type' and len(args) == 3:
            st, u = st.fresh()
            return [(st, ('dynclass', tuple(args), u))]
        if name == 'open' and args:
            return self.open_call(a0, args[1:], kw, st, node)
        if name == 'bool' and len(args) == 1:
            if a0[0] in ('b', 'not'):
                return B(a0)
            h = st.holds(('truthy', a0))
            return B(C(h) if h is not None else ('b', ('truthy', a0)))
        if name == 'next' and args:
            if a0[0] in ('call',) and a0[1] == 'iter' and a0[2]:
                a0 = a0[2][0]
            st, ev = self.emit(st, 'call', 'next', None, args, kw, node)
            s, u = st.fresh()
            ev.result = ('next', a0, u)
            out = [(s, ev.result)]
            if len(args) > 1:
                s2, u = st.fresh()
                out.append((s2.log(('fact', ('exhausted', a0), True)), args[1]))
            elif self.may_raise_now(ev):
                s2, u = st.fresh()
                out.append((s2.log(('raises', ev, node)), Raise(('exc', 'StopIteration', ('next', u)), node)))
                s2, u = s2.fresh()
                out.append((s2, Raise(('exc', self.exc_root, ('next', u)), node)))
            return out
        if name in ('list', 'tuple', 'set', 'frozenset') and len(args) == 1 and a0[0] == 'genobj':
            out = []
            for s, r in self.exhaust(a0, st):
                out.append((s, r) if isinstance(r, Ctl) else (s, ('call', name, (a0,))))
            return out
        if name in ('list', 'tuple') and not args:
            if name == 'tuple':
                return B(('tup', ()))
            st, u = st.fresh()
            return [(st, ('list', (), u))]
        if name in ('set', 'frozenset') and not args:
            st, u = st.fresh()
            return [(st, ('set', (), u))]
        if name == 'dict' and not args and '**' not in kw:
            st, u = st.fresh()
            return [(st, ('dict', tuple((C(k), v) for k, v in kw.items()), u))]
        if name == 'dict' and self.dicts and len(args) == 1 and '**' not in kw:
            if a0[0] not in ('tup', 'list', 'dict'):
                ks = self.modelled(a0, 'keys')
                if ks is not None:
                    a0 = ('tup', tuple(('tup', (k, self.modelled(a0, '__getitem__', [k]))) for k in ks[1]))
            if a0[0] in ('tup', 'list') and all(x[0] == 'tup' and len(x[1]) == 2 and is_const(x[1][0]) for x in a0[1]):
                st, u = st.fresh()
                d = ('dict', (), u)
                for x in a0[1]:
                    d = self.dict_set(d, *x[1])
                for k, v in kw.items():
                    d = self.dict_set(d, C(k), v)
                return [(st, d)]
        if name == 'dict' and args and a0[0] == 'dict' and '**' not in kw:
            st, u = st.fresh()
            return [(st, ('dict', a0[1] + tuple((C(k), v) for k, v in kw.items()), u))]
        if name in ('list', 'tuple') and len(args) == 1 and a0[0] in ('tup', 'list'):
            if name == 'tuple':
                return B(('tup', a0[1]))
            st, u = st.fresh()
            return [(st, ('list', a0[1], u))]
        if name in ('list', 'dict', 'set') and len(args) == 1 and a0[0] == 'comp' and a0[1] in ('gen', 'list', 'set', 'dict'):
            k = name
            if name == 'dict' and a0[1] == 'gen' and a0[2][0] == 'tup' and len(a0[2][1]) == 2:
                return B(('comp', 'dict', ('kv',) + a0[2][1]) + a0[3:])
            return B(('comp', k) + a0[2:])
        if name == 'tuple' and len(args) == 1 and a0[0] == 'comp':
            return B(('comp', 'list') + a0[2:])
        if name == 'frozenset' and len(args) == 1 and a0[0] == 'comp':
            return B(('comp', 'set') + a0[2:])
        if name in ('set', 'frozenset') and len(args) == 1 and a0[0] in ('tup', 'list', 'set'):
            st, u = st.fresh()
            return [(st, ('set', a0[1], u))]
        if name in ('int', 'float') and len(args) == 1 and is_const(a0):
            try:
                return B(C({'int': int, 'float': float}[name](a0[2])))
            except (TypeError, ValueError):
                pass
        if name == 'print' or name == 'breakpoint' or name == 'exec' or name == 'eval' or name == 'input':
            st, ev = self.emit(st, 'call', name, None, args, kw, node)
            return [(st, NONE)]
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            st, u = st.fresh()
            return [(st, ('newexc', 'OSError' if c is OSError else name, tuple(args), u))]
        if name in ('any', 'all', 'min', 'max', 'sum', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'list', 'tuple',
                    'set', 'frozenset', 'dict', 'map', 'filter', 'range', 'abs', 'repr', 'format', 'ord', 'chr', 'hex', 'oct', 'id', 'hash',
                    'callable', 'vars', 'int', 'float', 'bytes', 'divmod', 'round', 'object', 'slice', 'bytearray', 'bin', 'dir', 'ascii', 'property', 'pow', 'globals', 'locals', 'staticmethod', 'classmethod', 'memoryview', 'complex'):
            if name in ('sorted', 'min', 'max') and kw.get('key', NONE)[0] in ('clo', 'func') and len(args) == 1:
                # what the key of an element is, when it is one thing
                x = self.element(a0, 'c')
                outs = self.call(kw['key'], [x], {}, st, node, fid)
                if len(outs) == 1 and outs[0][0].facts == st.facts:
                    kw = {**kw, 'key': ('fn', x, outs[0][1])}
            kwt = tuple(('kw', C(k), v) for k, v in sorted(kw.items()))
            val = ('call', name, tuple(args) + kwt)
            if name in ('map', 'filter', 'int', 'float', 'bytes', 'list', 'tuple', 'set', 'dict', 'sorted', 'any', 'all', 'sum', 'min', 'max'):
                st, ev = self.emit(st, 'call', name, None, args, kw, node)
                ev.result = val
                return self.may_fork(st, val, ev, node)
            return B(val)
        st, ev = self.emit(st, 'call', name, None, args, kw, node)
        return self.opaque_result(st, ev, node)

    def isinst(self, x, t, st, name):
        if t[0] == 'tup':
            rs = [self.isinst(x, y, st, name) for y in t[1]]
            if any(r == TRUE for r in rs):
                return TRUE
            if all(r == FALSE for r in rs):
                return FALSE
            rs = [r for r in rs if r != FALSE]
            if len(rs) == 1:
                return rs[0]
            atom = ('isinst', x, ('tup', tuple(sorted(t[1], key=repr))))
        else:
            c = self.typeof(x)
            target = self.prog.classes.get(t[1]) if t[0] == 'class' else t[1]
            if c is not None and target in c.mro():
                return TRUE
            if is_const(x) and t[0] == 'bi':
                b = getattr(builtins, t[1], None)
                if isinstance(b, type):
                    return C(isinstance(x[2], b))
            if x[0] in ('list', 'tup', 'dict', 'set') and t[0] == 'bi':
                return C(t[1] == {'tup': 'tuple'}.get(x[0], x[0]) or t[1] == 'object')
            if x[0] == 'newexc' and t[0] in ('bi', 'class'):
                return C(t[1] in self.exc_mro(x[1]))
            if t[0] == 'bi' and t[1] in ('str', 'bytes', 'int', 'tuple', 'list', 'dict', 'float', 'bool'):
                k = text_type(x)
                if k is not None:
                    return C(t[1] == k)
            if x[0] == 'exc':
                atom = ('excis', x, t[1]) if t[0] in ('bi', 'class', 'ext') else ('isinst', x, t)
                if atom[0] == 'excis':
                    r = self.exc_is(x, t[1], st)
                    if r is not None:
                        return C(r)
                return ('b', atom)
            atom = ('isinst', x, t)
        h = st.holds(atom)
        return C(h) if h is not None else ('b', atom)

    # -- external functions ---------------------------------------------------------
    EXT_PURE = {'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.abspath', 'os.path.normpath', 'os.path.splitext',
                'os.path.commonpath', 'os.path.relpath', 'shlex.quote', 'hashlib.', 'base64.', 'itertools.', 'functools.', 'collections.',
                'datetime.', 're.', 'struct.calcsize', 'operator.', 'math.', 'stat.', 'textwrap.', 'logging.'}

    def ext_call(self, n, args, kw, st, node, fid):
        B = lambda t: [(st, t)]
        a0 = args[0] if args else None
        if n in ('pathlib.Path', 'pathlib.PurePath', 'pathlib.PurePosixPath', 'pathlib.PureWindowsPath'):
            if args and not any(x[0] == 'star' for x in args):
                v = args[0]
                for x in args[1:]:
                    v = ('div', v, x)
                return B(('new', 'path', (v,), ('ext', n)))
            st, u = st.fresh()
            return [(st, ('new', 'path', tuple(args) + (C(u),), ('ext', n)))]
        if n in ('pathlib.Path.cwd', 'os.getcwd', 'os.getcwdb'):
            return B(('cwd', st.heap.get(('cwdn',), 0)))
        if n.startswith('pathlib.') and n.count('.') == 2 and args:
            return self.meth_call(a0, n.rpartition('.')[2], args[1:], kw, st, node)
        if n in EXT_PRED and len(args) == 1:
            return B(self.pred_term(EXT_PRED[n], a0, st))
        if n == 'os.path.lexists':
            return self.lexists(a0, st)
        if n == 'os.path.join':
            v = a0
            for x in args[1:]:
                v = ('div', v, x)
            return B(v)
        if n == 'os.path.isabs':
            return B(('call', ('m', pid(a0), 'is_absolute'), ()))
        if n == 'os.path.dirname':
            return B(('attr', a0, 'parent'))
        if n == 'os.path.basename':
            return B(('attr', a0, 'name'))
        if n in ('os.fspath', 'os.fsencode', 'os.fsdecode'):
            return B(('strof', a0))
        if n == 'os.path.abspath':
            return B(('abs', a0))
        if n == 'contextlib.suppress':
            return B(('suppress', tuple(self.exc_names(('tup', tuple(args))))))
        if n == 'functools.partial' and args:
            return B(('partial', a0, tuple(args[1:]), tuple(sorted(kw.items()))))
        if n in ('io.open', 'codecs.open') and args:
            return self.open_call(a0, args[1:], kw, st, node)
        if n in EXT_EFFECT:
            eff = EXT_EFFECT[n]
            rest = args[1:]
            if eff in ('symlink', 'link') and len(args) > 1:
                # os.symlink(src, dst): dst is what comes into being
                a0, rest = args[1], [args[0]]
            elif eff == 'copy' and len(args) > 1:
                a0, rest = args[1], [args[0]]
            return self.effect(eff, a0, rest, {**kw, '__ext__': ('ext', n)}, st, node)
        if n.startswith('copy.') and n in ('copy.copy', 'copy.deepcopy') and a0:
            return B(('call', n, tuple(args)))
        kwt = tuple(('kw', C(k), v) for k, v in sorted(kw.items()))
        st, ev = self.emit(st, 'call', n, None, args, kw, node)
        if any(n == p or p.endswith('.') and n.startswith(p) for p in self.EXT_PURE):
            ev.result = ('call', n, tuple(args) + kwt)
            return [(st, ev.result)]
        return self.opaque_result(st, ev, node)
