"""Constant propagation through the terms of a path: what an expression is worth at one point of a finite domain of inputs.

The leaves (attributes, parameters, results of opaque calls) are given by look(term) -> (value,) or None.  Values are plain python
values and pure posix paths.  Open is raised where the leaves do not decide the value, Fails where the operation itself raises."""
import fnmatch
import re
from pathlib import PurePosixPath


class Open(Exception):
    pass


class Fails(Exception):
    pass


class Version(tuple):
    """a version of numbers only"""

    @classmethod
    def parse(cls, s):
        if not isinstance(s, str) or not re.fullmatch(r'\d+(\.\d+)*', s):
            raise Open(f'version {s!r}')
        return cls(int(x) for x in s.split('.'))


BIN = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
       'Mult': lambda a, b: a * b, 'RShift': lambda a, b: a >> b, 'LShift': lambda a, b: a << b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b,
       'Div': lambda a, b: a / b, 'Pow': lambda a, b: a ** b}
FUNCS = {x.__name__: x for x in (len, str, int, float, sorted, min, max, any, all, tuple, list, set, frozenset, sum, bool, abs, round, divmod, ord, chr, repr, dict)}
FUNCS.update(reversed=lambda x: tuple(reversed(x)), enumerate=lambda *a: tuple(enumerate(*a)), zip=lambda *a: tuple(zip(*a)), range=lambda *a: tuple(range(*a)), iter=tuple)
FUNCS.update({'os.fspath': str, 're.match': re.match, 're.fullmatch': re.fullmatch, 're.search': re.search, 're.split': re.split, 're.sub': re.sub, 're.findall': re.findall, 're.compile': re.compile, 're.escape': re.escape,
              'fnmatch.fnmatch': fnmatch.fnmatchcase, 'fnmatch.fnmatchcase': fnmatch.fnmatchcase, 'packaging.version.parse': Version.parse, 'packaging.version.Version': Version.parse,
              'pathlib.PurePosixPath': PurePosixPath, 'pathlib.PurePath': PurePosixPath})
METHODS = {str: 'startswith endswith removeprefix removesuffix strip lstrip rstrip split rsplit partition rpartition replace join lower upper find rfind index rindex count isdigit isdecimal isnumeric isalpha isalnum splitlines format casefold title zfill ljust rjust encode'.split(),
           tuple: 'index count'.split(), list: 'index count'.split(), dict: 'get keys values items'.split(), bytes: 'decode startswith endswith split strip'.split(),
           PurePosixPath: 'as_posix joinpath with_suffix with_name with_stem relative_to is_absolute match is_relative_to __str__ __fspath__'.split(),
           re.Pattern: 'match fullmatch search split sub findall'.split(), re.Match: 'group groups start end span groupdict'.split()}
FIELDS = {PurePosixPath: 'name stem suffix suffixes parent parents parts anchor root drive'.split()}


def value(t, look):
    """value of a term, or Open or Fails"""
    v = look(t)
    if v is not None:
        return v[0]
    if not isinstance(t, tuple) or not t:
        raise Open(repr(t))
    ev = lambda x: value(x, look)
    k = t[0]
    try:
        if k == 'c':
            return t[2]
        if k in ('tup', 'list', 'set'):
            out = []
            for x in t[1]:
                if x[0] == 'star':
                    out += ev(x[1])
                else:
                    out.append(ev(x))
            return tuple(out) if k != 'set' else frozenset(out)
        if k == 'fstr':
            return ''.join(str(ev(x)) for x in t[1])
        if k == 'strof':
            return str(ev(t[1]))
        if k in ('b', 'abs'):
            return ev(t[1])
        if k == 'truthy':
            return bool(ev(t[1]))
        if k == 'not':
            return not ev(t[1])
        if k == 'eq':
            return ev(t[1]) == ev(t[2])
        if k in ('isc', 'is'):
            a, b = ev(t[1]), ev(t[2])
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                return a is b
            raise Open(k)
        if k == 'in':
            return ev(t[1]) in ev(t[2])
        if k == 'lt':
            return ev(t[1]) < ev(t[2])
        if k == 'and':
            for x in t[1]:
                v = ev(x)
                if not v:
                    return v
            return v
        if k == 'or':
            for x in t[1]:
                v = ev(x)
                if v:
                    return v
            return v
        if k == 'len':
            return len(ev(t[1]))
        if k == 'bin':
            return BIN[t[1]](ev(t[2]), ev(t[3]))
        if k == 'div':
            a = ev(t[1])
            return (a if isinstance(a, PurePosixPath) else PurePosixPath(a)) / ev(t[2])
        if k == 'dict' and all(len(x) == 2 and x[0] != ('kwstar',) for x in t[1]):
            return {ev(a): ev(b) for a, b in t[1]}
        if k == 'item':
            return ev(t[1])[ev(t[2])]
        if k == 'slice':
            a, lo, hi = ev(t[1]), ev(t[2]), ev(t[3])
            # the rest of an unpacking ends as many elements before the end
            hi = None if hi == 0 and t[3][0] == 'c' and lo != 0 else hi
            step = ev(t[4]) if len(t) > 4 else None
            return a[lo:hi:step]
        if k == 'new' and t[1] == 'path':
            return PurePosixPath(*[ev(x) for x in t[2]])
        if k == 'attr':
            a = ev(t[1])
            for ty, names in FIELDS.items():
                if isinstance(a, ty) and t[2] in names:
                    return getattr(a, t[2])
        if k == 'comp' and t[1] != 'dict':
            out = []
            mine = loose((t[2],) + tuple(t[4])) - loose(t[3])
            mine = {x for x in mine if look(x) is None}
            if len(mine) > 1:
                raise Open('elements of several')
            for x in ev(t[3]):
                env = {m: x for m in mine}
                inner = lambda u: (env[u],) if u in env else look(u)
                if all(truth(c, inner) for c in t[4]):
                    out.append(value(t[2], inner))
            return frozenset(out) if t[1] == 'set' else tuple(out)
        if k == 'next' and not (isinstance(t[1], tuple) and t[1][0] in ('attr', 'param')):
            it = ev(t[1])
            return next(iter(it))
        if k == 'call':
            args = [ev(x) for x in t[2] if x[0] not in ('kw', 'star')]
            fns = {x[1][2]: x[2] for x in t[2] if x[0] == 'kw' and x[2][0] == 'fn'}
            if any(x[0] == 'star' for x in t[2]):
                raise Open('*')
            kw = {x[1][2]: ev(x[2]) for x in t[2] if x[0] == 'kw' and x[2][0] != 'fn'}
            for x, (_, of, body) in fns.items():
                kw[x] = lambda y, of=of, body=body: value(body, lambda u: (y,) if u == of else look(u))
            name = t[1]
            if isinstance(name, tuple) and name[0] == 'bi':
                name = name[1]
            if isinstance(name, str):
                if name == 'next':
                    return next(iter(args[0]), *args[1:])
                if name in FUNCS and not (set(kw) - {'key', 'reverse', 'default', 'flags', 'count', 'maxsplit', 'start'}):
                    return FUNCS[name](*args, **kw)
            elif name[0] == 'm':
                m = 'replace' if name[2] == 'replace_str' else name[2]
                base = ev(name[1])
                for ty, names in METHODS.items():
                    if isinstance(base, ty) and m in names:
                        return getattr(base, m)(*args, **kw)
    except (Open, Fails):
        raise
    except StopIteration:
        raise Open('none left has a path of its own')
    except RecursionError:
        raise Open('too deep')
    except Exception as e:
        raise Fails(f'{type(e).__name__}: {e}')
    raise Open(repr(t)[:200])


def loose(t):
    """elements that a comprehension around the term goes through"""
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] == 'elem' and len(t) == 3 and t[2] == 'c':
        return {t}
    if t[0] == 'fn':
        return loose(t[2]) - {t[1]}
    if t[0] == 'comp':
        return loose(t[3]) | (loose((t[2],) + tuple(t[4])) - {x for x in loose((t[2],) + tuple(t[4])) if len(loose((t[2],) + tuple(t[4])) - loose(t[3])) == 1 and x not in loose(t[3])})
    out = set()
    for x in t:
        out |= loose(x)
    return out


def truth(t, look):
    return bool(value(t, look))


def possible(facts, look, ignore=lambda a: False):
    """do the facts of a path allow this point: True, False, or None when some of them are not decided"""
    ok = True
    for a, v in facts:
        if ignore(a):
            continue
        try:
            if truth(a, look) != v:
                return False
        except Fails:
            return False      # the failing operation has a path of its own
        except Open:
            ok = None
    return ok
