"""Rules about loops, remote predicates, repository uris and releases."""
import ast
from ctx import *
import progress
from rules_caches import own, at, logged
from rules_pkg import resolved, referenced, private
from rules_remotes import spec_of


def elements_of(x):
    """What a starred or plain argument gives one by one: the element a comprehension makes, the items of a list."""
    x = x[1] if x[0] == 'star' else x
    if x[0] == 'comp':
        return [x[2]]
    if x[0] in ('list', 'tup'):
        return [z for y in x[1] for z in (elements_of(y) if y[0] == 'star' else [y])]
    return [x]


@rule('P51', configs=('linux-py3.12', 'nt-py3.12'))
def p51(ctx):
    """Passes over the body of every live while loop, with what they leave of the variables of the test (substitution along each pass); emptiness propagation through passes where every read gives nothing; guards of references to itself on a parent."""
    n = Counter()
    used = referenced(resolved(ctx)[0], ctx.config.os_name)
    for q, f in sorted(ctx.prog.funcs.items()):
        if q not in ctx.inventory and private(f.node.__dict__.get('name', '')) and f.node.name not in used:
            continue    # a helper of something that is never reached
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        unreachable = progress.dead(f.node)
        mine = [x for x in walk_own(f.node) if x not in unreachable]
        for w in mine:
            if not isinstance(w, ast.While):
                continue
            n['loops'] += 1
            s = ctx.short(f)
            where = f'{f.module.path}:{w.lineno}'
            ctx.modules.add(f.module.path)
            ctx.functions.add(q)
            try:
                bad = progress.stuck(w)
                ctx.check(not bad, 'every pass changes what the test looks at', s,
                          bad and f'{bad[0][0]} after a pass with ' + (', '.join(f'{ast.unparse(t)} is {v}' for t, v in bad[0][1]) or 'no condition'), where)
                if progress.reads(w):
                    n['reads'] += 1
                    ctx.check(not progress.goes_on(w), 'the loop ends when its input does', s, 'goes on although every read gives nothing', where)
            except progress.TooMany:
                n['too many'] += 1
        for x, ok in progress.climbs(f.node, {g.node.name: g.node for g in ctx.spread(f) if g is not f and hasattr(g.node, 'name')}):
            n['climbs'] += 1
            ctx.check(ok, 'walking up stops at the root', ctx.short(f), f'{ast.unparse(x)} is not guarded by a test for the root, which is its own parent', f'{f.module.path}:{x.lineno}')
    ctx.need('P51', len(ctx.prog.funcs), 300, 'functions')
    # the loops of these shapes have to be told apart: built-in examples
    good = ast.parse("def f(p):\n    while True:\n        d = p.read(1)\n        if not d:\n            break\n        yield d\n").body[0].body[0]
    bad = ast.parse("def f(p):\n    while True:\n        d = p.read(1)\n        if d is None:\n            break\n        yield d\n").body[0].body[0]
    skip = ast.parse("def f(s):\n    while s:\n        for x in sorted(s):\n            if x.y is None:\n                continue\n            s = s - {x}\n").body[0].body[0]
    ok = not progress.goes_on(good) and progress.goes_on(bad) and progress.stuck(skip)
    ctx.need('P51', int(bool(ok)), 1, 'examples told apart')


def walk_own(fn):
    """nodes of a function, not of the functions in it"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(x)


# -- finite domains ------------------------------------------------------------------------------------------

class Unknown(Exception):
    pass


BIN = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b,
       'Mult': lambda a, b: a * b, 'RShift': lambda a, b: a >> b, 'LShift': lambda a, b: a << b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b}


def fold(t, look):
    """value of a term where look() gives the values of the leaves (a point of a finite domain), or Unknown"""
    v = look(t)
    if v is not None:
        return v[0]
    k = t[0]
    if k == 'c':
        return t[2]
    if k == 'bin' and t[1] in BIN:
        return BIN[t[1]](fold(t[2], look), fold(t[3], look))
    if k == 'b':
        return fold(t[1], look)
    if k == 'not':
        return not fold(t[1], look)
    if k == 'truthy':
        return bool(fold(t[1], look))
    if k in ('eq', 'isc', 'is'):
        return fold(t[1], look) == fold(t[2], look)
    if k == 'lt':
        return fold(t[1], look) < fold(t[2], look)
    if k == 'in':
        return fold(t[1], look) in fold(t[2], look)
    if k in ('tup', 'list', 'set'):
        return tuple(fold(x, look) for x in t[1])
    if k in ('and', 'or'):
        vs = [fold(x, look) for x in t[1]]
        return all(vs) if k == 'and' else any(vs)
    if k == 'dict':
        return {fold(a, look): fold(b, look) for a, b in t[1]}
    if k == 'item':
        base, i = fold(t[1], look), fold(t[2], look)
        try:
            return base[i]
        except (KeyError, IndexError, TypeError):
            raise Unknown(show(t))
    if k == 'call':
        if t[1] in ('bool', 'int', 'abs', 'len', 'str') and len(t[2]) == 1:
            return {'bool': bool, 'int': int, 'abs': abs, 'len': len, 'str': str}[t[1]](fold(t[2][0], look))
        if isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'get':
            base = fold(t[1][1], look)
            if isinstance(base, dict):
                return base.get(*[fold(x, look) for x in t[2][:2]])
        if isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in ('lower', 'strip', 'startswith', 'endswith', 'casefold', 'decode'):
            base = fold(t[1][1], look)
            if isinstance(base, (str, bytes)):
                return getattr(base, t[1][2])(*[fold(x, look) for x in t[2]])
    if k == 'unop' or k == 'un':
        v = fold(t[2], look)
        return {'Invert': lambda: ~v, 'USub': lambda: -v, 'Not': lambda: not v}.get(t[1], lambda: (_ for _ in ()).throw(Unknown(show(t))))()
    raise Unknown(show(t))


def on_path(p, look):
    """does the path apply at this point: True, False, or None when a fact about something else decides"""
    ok = True
    for a, v in p.facts():
        try:
            if bool(fold(a, look)) != v:
                return False
        except Unknown:
            ok = None
        except TypeError:
            ok = None
    return ok


SSHR = 'remotes.SshRemote'
KINDS = (b'directory', b'regular file', b'regular empty file', b'symbolic link', b'fifo', b'socket', b'block special file', b'character special file', b'')


@rule('P52')
def p52(ctx):
    """Finite domain propagation: every kind of file stat knows through is_dir and is_file; every permission (all mode bits), class of user and mode asked for through access."""
    n = Counter()
    for name, want in (('is_dir', {b'directory'}), ('is_file', {b'regular file', b'regular empty file'})):
        f = ctx.func(SSHR, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=SSHR, raises='none'):
            outs = [e for e in p.calls('_ssh')]
            cmds = [e for e in p.calls('_stat_cmd')]
            fmt = [(e.kw.get('stat_format') or (e.args[0] if e.args else None)) for e in cmds]
            if not outs or not fmt:
                ctx.check(not p.ret, 'asks for the kind of the file', q, 'returns without asking', f.where, p)
                continue
            ctx.check(fmt[-1] in (C('%F'), C("'%F'"), C('"%F"')) and not (cmds[-1].kw.get('path') or cmds[-1].args[1:]) and mentions(outs[-1].args[0], cmds[-1].result), 'asks for the kind of the file', q, f'asks for {show(fmt[-1]) if fmt[-1] else "everything"}', f.where, p)
            out = outs[-1].result
            for kind in KINDS:
                look = lambda t: (kind,) if t == out else None
                if on_path(p, look) is False:
                    continue
                n[name] += 1
                try:
                    got = bool(fold(p.val, look)) if p.ret else None
                except Unknown as e:
                    ctx.violate('the kind of the file decides', q, f'{e} is not decided by the kind of the file', f.where, p)
                    continue
                ctx.check(got is (kind in want), 'the kind of the file decides', f'{q}: {kind.decode()}', f'{p.kind} {got} for {kind.decode() or "no answer"}', f.where, p)
    f = ctx.func(SSHR, 'access')
    q = ctx.short(f)
    MODE = P('mode')
    paths = ctx.run(f, recv=SSHR, raises='all')
    live = []
    for p in paths:
        failed = [x for x in p.items if not isinstance(x, Event) and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'stat']
        if failed:
            n['failed'] += 1
            known = [a[2].rpartition('.')[2] for a, v in p.facts() if a[0] == 'excis' and v]
            if any(x in ('PermissionError', 'FileNotFoundError') for x in known):
                n['refused'] += 1
                try:
                    no = p.ret and not fold(p.val, lambda t: None)
                except Unknown:
                    no = False
                ctx.check(no, 'no access where stat is refused', q, f'{p.kind} {show(p.val)} although there is nothing to access', f.where, p)
            else:
                ctx.check(not p.ret or p.val in (FALSE, NONE), 'no access where stat is refused', q, f'{p.kind} {show(p.val)} although stat failed', f.where, p)
                other = {a[2].rpartition('.')[2] for a, v in p.facts() if a[0] == 'excis' and not v}
                for x in ('PermissionError', 'FileNotFoundError'):
                    n['refused'] += 1
                    ctx.check(p.ret or x in other or bool(other & {'OSError', 'Exception', 'BaseException'}), 'no access where stat is refused', q, f'{x} leaves', f.where, p)
        elif p.ret or p.exc:
            live.append(p)
    R, W, X_ = ('read', 4), ('write', 2), ('execute', 1)
    full = ctx.tier == 'thorough'
    tops = (0o100000, 0o040000, 0o107000, 0o010000, 0o140000) if full else (0o107000, 0o040000)
    bits = [top | b for top in tops for b in range(512)]
    for p in live:
        sts = [e.result for e in p.calls('stat') if e.target in (SELF, None)]
        if len(sts) != 1:
            ctx.check(False, 'permissions of the one class', q, f'asks stat {len(sts)} times', f.where, p)
            continue
        st = sts[0]
        for words, bit in ((R, 4), (W, 2), (X_, 1)):
            for word in words:
                for owner in (True, False):
                    for ingroup in (True, False):
                        cls = bit << (6 if owner else 3 if ingroup else 0)
                        values = {MODE: word, A(st, 'st_uid'): 1000 if owner else 1001, A(st, 'st_gid'): 100 if ingroup else 101,
                                  A(SELF, '_uid'): 1000, A(SELF, '_gids'): (50, 100)}

                        def look(t, values=values):
                            if t in values:
                                return (values[t],)
                            if t[0] == 'attr' and t[1] != SELF and t[2] in ('_uid', '_gids'):
                                return (values[A(SELF, t[2])],)
                            return None
                        if on_path(p, look) is False:
                            continue
                        for m in bits:
                            values[A(st, 'st_mode')] = m
                            if on_path(p, look) is False:
                                continue
                            n['point'] += 1
                            try:
                                got = bool(fold(p.val, look)) if p.ret else p.exc
                            except Unknown as e:
                                ctx.violate('permissions of the one class', q, f'{e} is not a function of the mode bits, ids and mode', f.where, p)
                                break
                            if not ctx.check(got is bool(m & cls), 'permissions of the one class', f'{q}: {words[0]}', f'{got} for {word!r} of mode {m & 0o7777:04o}, {"owner" if owner else "in group" if ingroup else "other"}', f.where, p):
                                break
    for x, k in (('is_dir', 9), ('is_file', 9), ('refused', 2), ('point', 6 * 4 * 512)):
        ctx.need('P52', n[x], k, x)


# -- repositories: change detection, content, uris --------------------------------------------------------------

REPO = 'repo.RepoHelper'
GIT = A(SELF, 'repo')
INDEX, HEAD, TREE = 'the index', 'HEAD', 'the working tree'


def side(t):
    """which state of the repository a term is"""
    if t is None:
        return INDEX                       # what git compares to when nothing is given
    if t == NONE:
        return TREE
    if t == A(GIT, 'index') or t[0] in ('attr', 'ext', 'gval', 'item') and str(t[-1]).rpartition('.')[2] in ('INDEX', 'Index'):
        return INDEX
    if t in (A(GIT, 'head', 'commit'), A(GIT, 'head'), C('HEAD'), A(GIT, 'head', 'object')):
        return HEAD
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][1] == GIT and t[1][2] in ('commit', 'rev_parse', 'tree'):
        return side(t[2][0]) if t[2] and is_const(t[2][0]) else ('ref', t[2][0]) if t[2] else HEAD
    if t[0] == 'param':
        return ('ref', t)
    return ('?', t)


def own_entry(t, p=None):
    """is this how git knows the path itself: relative to the working directory, or absolute without following the path"""
    while t[0] in ('strof', 'abs') or t[0] == 'call' and t[1] in ('str', 'os.fspath') and len(t[2]) == 1 or \
            t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] in ('as_posix', '__str__', '__fspath__', 'expanduser', 'absolute'):
        if t[0] == 'strof':
            t = t[1]
        elif t[0] == 'abs':
            return own_entry(t[1]) or t[1] == SELF
        elif t[1] in ('str', 'os.fspath'):
            t = t[2][0]
        elif t[1][2] in ('expanduser', 'absolute'):
            return t[1][1] == SELF or own_entry(t[1][1])
        else:
            t = t[1][1]
    if t in (A(SELF, 'repo_relative_path'), A(SELF, 'path_relative_repo')):
        return True
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == '_no_dotdot' and t[1][1] == SELF:
        return True
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == 'resolve' and p is not None:
        # only a path that ends in .. is followed
        return any(a[0] == 'eq' and C('..') in a[1:] and v and ('attr', t[1][1], 'name') in a[1:] for a, v in p.facts())
    if t == SELF and p is not None:
        return any(a[0] == 'truthy' and 'is_absolute' in repr(a[1]) and v for a, v in p.facts())
    if t[0] == 'div' and t[2] in (A(SELF, 'name'),) or t[0] == 'div' and t[2][0] == 'attr' and t[2][2] == 'name' and own_entry(t[2][1]):
        return 'resolve' in repr(t[1]) and "'parent'" in repr(t[1])
    return False


def only_spec(t, p):
    if t is not None and t[0] in ('list', 'tup', 'set'):
        return len(t[1]) == 1 and only_spec(t[1][0], p)
    x = spec_of(t, p.st) if t is not None else None
    return x is not None and own_entry(x, p)


def only_own(t, p=None):
    if t is not None and t[0] in ('list', 'tup', 'set'):
        return len(t[1]) == 1 and own_entry(t[1][0], p)
    return t is not None and own_entry(t, p)


def impossible(p, isindex=True):
    """paths on which a tree of the repository is None, or something else than what it is"""
    for a, v in p.facts():
        if a[0] == 'isc' and a[2] == NONE and v and side(a[1]) not in (TREE,) and side(a[1])[0] != 'ref' and (a[1][0] == 'call' or a[1] == A(GIT, 'index')):
            return True
        if a[0] == 'isc' and a[2] == NONE and v and a[1][0] == 'call' and isinstance(a[1][1], tuple) and a[1][1][2] == 'commit':
            return True
        if a[0] == 'eq' and NONE in a[1:] and v and any(x[0] == 'call' or x == A(GIT, 'index') for x in a[1:]):
            return True
        if a[0] == 'isinst' and 'IndexFile' in repr(a[2]) and v != (side(a[1]) == INDEX):
            return True
    return False


def diffs(p):
    """[(from, to, event)] of the comparisons git makes"""
    out = []
    for e in p.calls('diff'):
        if e.target is None or e.target == SELF or e.target == A(GIT, 'git'):
            continue
        other = e.kw.get('other', e.args[0] if e.args else None)
        out.append((side(e.target), 'an IndexFile, which is not something to compare to' if other == A(GIT, 'index') else side(other), e))
    return out


@rule('P55')
def p55(ctx):
    """Operands, order and path of every comparison on every path of the change predicates and of the history of a path."""
    n = Counter()
    inl = ('repo.RepoHelper._do_diff',)
    want = {'modified': (INDEX, TREE), 'indexed': (HEAD, INDEX), 'has_uncommitted_changes': (HEAD, TREE)}

    def one(p, f, q, expect, patch=None):
        exists = [(a, v) for a, v in p.facts() if a[0] == 'fs' and a[1] in ('exists', 'lexists')]
        if any(v is False for a, v in exists) or p.exc:
            n['missing'] += 1
            ctx.check(p.exc == 'FileNotFoundError' and any(v is False for a, v in exists), 'a path that does not exist is an error', q, f'{p.kind} {show(p.val)}', f.where, p)
            return
        ds = diffs(p)
        if expect is None:
            n['same'] += 1
            ctx.check(p.ret and (p.val == NONE or not ds or all(d[0] == d[1] for d in ds)), 'the right trees are compared', q, f'{p.kind} {show(p.val)}', f.where, p)
            return
        ctx.check(bool(exists), 'a path that does not exist is an error', q, 'does not look whether the path exists', f.where, p)
        ok = len(ds) == 1 and (ds[0][:2] == expect if TREE not in expect or isinstance(expect, tuple) else set(ds[0][:2]) == expect)
        ctx.check(ok, 'the right trees are compared', q, f'compares {", ".join(f"{a} to {b}" for a, b, e in ds) or "nothing"}, not {expect}', f.where, p)
        if not ok:
            return
        e = ds[0][2]
        n['diff'] += 1
        paths = e.kw.get('paths', e.args[1] if len(e.args) > 1 else None)
        ctx.check(only_spec(paths, p), 'only the path itself', q, f'compares {show(paths) if paths else "everything"}', e.where, p)
        cp = e.kw.get('create_patch', e.args[2] if len(e.args) > 2 else FALSE)
        ctx.check(cp == (patch or FALSE), 'only the path itself', q, f'a patch is made: {show(cp)}', e.where, p)
        if p.ret and p.val == NONE:
            n['unchanged'] += 1
            ctx.check(p.holds(truthy(e.result)) is False or bool(p.loops('zero')) or bool({'lt', 'exhausted'} & {a[0] for a, v in p.facts() if contains(a, e.result)}), 'a difference is given', q, 'gives nothing although there may be a difference', f.where, p)
        elif p.ret:
            n['changed'] += 1
            ok = p.val == ('item', e.result, C(0)) or p.val[0] in ('next', 'elem', 'call') and contains(p.val, e.result)
            ctx.check(ok, 'a difference is given', q, f'gives {show(p.val)}', f.where, p)

    for name, expect in sorted(want.items()):
        f = ctx.func(REPO, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=REPO, raises='none', inline=inl, dicts=True):
            if impossible(p):
                continue
            n[name] += 1
            one(p, f, q, expect)
    f = ctx.func(REPO, 'diff')
    q = ctx.short(f)
    REF, ORIG = P('ref'), P('ref_orig')
    for p in ctx.run(f, recv=REPO, raises='none', inline=inl, dicts=True):
        if impossible(p):
            continue

        def which(x):
            none, empty = p.holds(('isc', x, NONE)), p.holds(eqat(x, C('')))
            if none or p.holds(eqat(x, NONE)):
                return TREE
            return INDEX if empty else ('ref', x)
        a, b = which(ORIG), which(REF)
        n['pairs'] += 1
        if a == b and a in (TREE, INDEX):
            one(p, f, q, None)
        elif TREE in (a, b):
            one(p, f, q, (b, a) if a == TREE else (a, b), P('create_patch'))
        else:
            one(p, f, q, (a, b), P('create_patch'))
    # the history of the path itself
    for name in ('latest_commit', 'commits'):
        f = ctx.func(REPO, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=REPO, raises='try' if name == 'latest_commit' else 'none'):
            es = [e for e in p.calls('iter_commits')]
            if name == 'latest_commit':
                mine = [e for e in p.calls('commits') if e.target == SELF]
                n[name] += len(mine)
                for e in mine:
                    ctx.check(e.kw.get('rev') == P('rev'), 'of the revision asked for', q, f'the commits of {show(e.kw.get("rev", NONE))}', e.where, p)
                es = es or mine
            for e in es:
                if e.name == 'commits':
                    continue
                n[name] += 1
                paths = e.kw.get('paths', e.args[1] if len(e.args) > 1 else None)
                rev = e.kw.get('rev', e.args[0] if e.args else NONE)
                ctx.check(only_spec(paths, p), 'only the path itself', q, f'the commits of {show(paths) if paths else "everything"}', e.where, p)
                ctx.check(rev == P('rev'), 'of the revision asked for', q, f'the commits of {show(rev)}', e.where, p)
                if name == 'commits':
                    ctx.check(e.kw.get('max_count') == P('max_count'), 'of the revision asked for', q, f'at most {show(e.kw.get("max_count", NONE))} commits', e.where, p)
                    outs = [y for y in p.evs('yield') if contains(y.args[0], e.result)]
                    ctx.check(bool(outs) or p.ret and contains(p.val, e.result) or p.rai or bool(p.loops('zero')), 'of the revision asked for', q, 'does not give the commits', f.where, p)
            if name == 'commits':
                continue
            if p.ret:
                n['latest'] += 1
                ok = p.val[0] == 'next' and es and p.val[1] in (es[-1].result, ('call', 'iter', (es[-1].result,)))  or \
                    es and p.val[0] in ('elem', 'item') and contains(p.val, es[-1].result) and (p.val[0] != 'item' or p.val[2] == C(0))
                ctx.check(bool(ok), 'the first commit is the latest', q, f'gives {show(p.val)}', f.where, p)
            empty = [x for x in p.items if not isinstance(x, Event) and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'next']
            if empty and any(x[0] == 'handled' and 'StopIteration' in repr(x[2]) for x in p.items if isinstance(x, tuple)):
                n['none'] += 1
                ctx.check(p.exc == 'NoCommitsForFile', 'no commits is an error of its own', q, f'{p.kind} {show(p.val)}', f.where, p)
            elif empty and p.rai and p.propagated:
                stop = any(a[0] == 'excis' and a[2].endswith('StopIteration') and not v for a, v in p.facts())
                ctx.check(stop, 'no commits is an error of its own', q, 'StopIteration leaves', f.where, p)
    # whatever else is given to git as a path
    for mod in ('repo', 'package', 'repo_patch'):
        for f in ctx.functions_of(mod):
            if f.cls is None or not any(isinstance(x, ast.Constant) and x.value == '--' for g in ctx.spread(f) for x in ast.walk(g.node)):
                continue
            for p in ctx.run(f, recv=f.cls.qual.partition('.')[2], raises='none'):
                for e in p.evs('call'):
                    if e.target is None or e.target[0] != 'attr' or e.target[2] != 'git' or C('--') not in e.args:
                        continue
                    for x in e.args[list(e.args).index(C('--')) + 1:]:
                        for y in elements_of(x):
                            n['spec'] += 1
                            ctx.check(spec_of(y, e.st) is not None, 'paths are not patterns', ctx.short(f), f'{show(y)} is a pattern to git', e.where, p)
    # adding and committing
    f = ctx.func(REPO, 'add_index')
    q = ctx.short(f)
    for p in ctx.run(f, recv=REPO, raises='none'):
        es = [e for e in p.calls('add') if e.target is not None and e.target != SELF]
        n['add'] += len(es)
        ctx.check(len(es) == 1 and es[0].args and only_own(es[0].args[0], p), 'only the path itself', q, f'adds {[show(e.args[0]) for e in es if e.args]}', f.where, p)
    f = ctx.func(REPO, 'commit_from_working_tree')
    q = ctx.short(f)
    for p in ctx.run(f, recv=REPO, raises='none'):
        st = [e.name for e in p.items if isinstance(e, Event) and e.kind == 'call' and e.name in ('add_index', 'commit', 'add')]
        cs = p.calls('commit')
        n['from tree'] += 1
        ctx.check(st[:1] in (['add_index'], ['add']) and len(cs) == 1 and cs[0].args[:1] == [P('message')] or st[:1] in (['add_index'], ['add']) and len(cs) == 1 and tuple(cs[0].args[:1]) == (P('message'),), 'added, then committed', q, f'does {st}', f.where, p)
        for e in cs:
            ctx.check(e.kw.get('date') == P('date'), 'added, then committed', q, f'dated {show(e.kw.get("date", NONE))}', e.where, p)
    for x, k in (('modified', 2), ('indexed', 2), ('has_uncommitted_changes', 2), ('missing', 4), ('diff', 8), ('pairs', 9), ('changed', 4), ('unchanged', 4),
                 ('latest_commit', 1), ('commits', 1), ('latest', 1), ('add', 1), ('from tree', 1), ('spec', 2)):
        ctx.need('P55', n[x], k, x)


def words_of(t):
    """[part] of a text put together with + or an f-string"""
    if t[0] == 'bin' and t[1] == 'Add':
        return words_of(t[2]) + words_of(t[3])
    if t[0] == 'fstr':
        return [y for x in t[1] for y in words_of(x)]
    if t[0] == 'strof' or t[0] == 'call' and t[1] == 'str' and len(t[2]) == 1:
        return words_of(t[1] if t[0] == 'strof' else t[2][0])
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == 'as_posix':
        return words_of(t[1][1])
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == 'join' and is_const(t[1][1]) and t[2] and t[2][0][0] in ('list', 'tup'):
        out = []
        for i, x in enumerate(t[2][0][1]):
            out += ([t[1][1]] if i else []) + words_of(x)
        return out
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == 'format' and is_const(t[1][1]):
        out, args = [], list(t[2])
        parts = t[1][1][2].split('{}')
        for i, x in enumerate(parts):
            out += ([args[i - 1]] if 0 < i <= len(args) else []) + ([C(x)] if x else [])
        return out
    return [t]


@rule('P54')
def p54(ctx):
    """Where the bytes that are returned come from on every path, and every step they pass through."""
    n = Counter()
    f = ctx.func(REPO, 'show')
    q = ctx.short(f)
    REF = P('ref')
    for p in ctx.run(f, recv=REPO, raises='none'):
        none = p.holds(('isc', REF, NONE))
        if none is None:
            none = p.holds(eqat(REF, NONE))
        if not p.ret:
            ctx.check(False, 'the content is given', q, f'{p.kind} {show(p.val)}', f.where, p)
            continue
        v = p.val
        if none:
            n['tree'] += 1
            file = v[0] == 'call' and isinstance(v[1], tuple) and v[1][2] == 'read' and not v[2] and v[1][1][0] == 'file'
            whole = v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'm' and v[1][2] == 'read_bytes'
            ok = file and pid(v[1][1][1]) == pid(SELF) and v[1][1][2] == C('rb') or whole and (v[1][1] == SELF or v[1][1][:3] == ('new', 'path', (SELF,)))
            ctx.check(ok, 'the whole file in the working tree', q, f'gives {show(v)}', f.where, p)
            continue
        ctx.check(none is False, 'the working tree is asked for with None', q, 'does not tell the working tree from a revision', f.where, p)
        shows = [e for e in p.calls('show', 'cat_file') if e.target == A(GIT, 'git')]
        if not shows:
            blob = [x for x in subterms(v) if x[0] == 'attr' and x[2] == 'data_stream']
            n['show'] += 1
            ctx.check(bool(blob) and v[0] == 'call' and isinstance(v[1], tuple) and v[1][2] == 'read' and not v[2] and mentions(v, REF), 'the bytes git has', q, f'gives {show(v)}', f.where, p)
            continue
        e = shows[-1]
        n['show'] += 1
        spec = words_of(e.args[-1]) if e.args else []
        ok = len(spec) == 3 and spec[0] == REF and spec[1] == C(':') and own_entry(spec[2])
        ctx.check(ok, 'the path itself in the revision', q, f'asks for {show(e.args[-1]) if e.args else "nothing"}', e.where, p)
        out = e.kw.get('output_stream')
        if out is not None and out != NONE:
            good = v[0] == 'call' and isinstance(v[1], tuple) and v[1][1] == out and v[1][2] in ('getvalue', 'read') and not v[2]
            if good and v[1][2] == 'read':
                i = [x for x in p.calls('seek') if x.target == out and x.args[:1] in ([C(0)], (C(0),))]
                good = bool(i) and i[-1].idx > e.idx
            fed = [x for x in p.calls('write', 'truncate') if x.target == out]
            good = good and not fed and 'BytesIO' in show(out) and not (out[0] == 'call' and out[2])
        else:
            good = v == e.result and e.kw.get('strip_newline_in_stdout') == FALSE and e.kw.get('stdout_as_string') == FALSE
        ctx.check(good, 'the bytes git has', q, f'gives {show(v)}', f.where, p)
    for x in ('tree', 'show'):
        ctx.need('P54', n[x], 1, x)


from pieces import Text, PathText, Name, Unknown as Open  # noqa: E402

TEXT_METHODS = {'startswith', 'endswith', 'removesuffix', 'removeprefix', 'rstrip', 'lstrip', 'strip', 'split', 'rsplit', 'partition', 'rpartition', 'replace', 'lower'}


class Url:
    def __init__(self, t):
        self.text = t
        bits = t.split('://', 1) if any(isinstance(x, str) and '://' in x for x in t.parts) else (Text(), t)
        self.scheme, rest = bits if len(bits) == 2 else (Text(), bits[0])
        if self.scheme or t.startswith('//'):
            n = rest.split('/', 1)
            self.netloc, self.path = n[0], Text('/', n[1]) if len(n) == 2 else Text()
        else:
            self.netloc, self.path = Text(), rest
        for x in ('netloc', 'path', 'scheme'):
            setattr(self, x, Text(getattr(self, x)))

    @property
    def hostname(self):
        return self.netloc.rsplit('@', 1)[-1].split(':', 1)[0]

    @property
    def username(self):
        b = self.netloc.rsplit('@', 1)
        return b[0] if len(b) == 2 else None


def text_value(t, look):
    """value of a term where the leaves are texts with open names in them; raises Open when that does not decide it"""
    v = look(t)
    if v is not None:
        return v[0]
    ev = lambda x: text_value(x, look)
    k = t[0]
    if k == 'c':
        return Text(t[2]) if isinstance(t[2], str) else t[2]
    if k == 'tup' or k == 'list':
        return tuple(ev(x) for x in t[1])
    if k == 'fstr':
        return Text(*[as_text(ev(x)) for x in t[1]])
    if k == 'strof':
        return as_text(ev(t[1]))
    if k == 'abs':
        return ev(t[1])
    if k == 'b':
        return ev(t[1])
    if k == 'not':
        return not truth_of(ev(t[1]))
    if k == 'truthy':
        return truth_of(ev(t[1]))
    if k in ('eq', 'isc', 'is'):
        a, b = ev(t[1]), ev(t[2])
        if isinstance(a, Text) and isinstance(b, Text):
            return a.same(b)
        if a is None or b is None or isinstance(a, bool) or isinstance(a, int):
            return a is b if k != 'eq' else a == b
        raise Open(show(t))
    if k == 'in':
        a, b = ev(t[1]), ev(t[2])
        if isinstance(b, Text):
            return b.contains(a)
        if isinstance(b, tuple):
            return any(a.same(x) if isinstance(a, Text) and isinstance(x, Text) else a == x for x in b)
        raise Open(show(t))
    if k == 'lt':
        a, b = ev(t[1]), ev(t[2])
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        raise Open(show(t))
    if k == 'len' or k == 'call' and t[1] == 'len':
        v = ev(t[1] if k == 'len' else t[2][0])
        if isinstance(v, Text):
            return len(v.text) if v.known else (_ for _ in ()).throw(Open(show(t)))
        return len(v)
    if k == 'bin':
        a, b = ev(t[2]), ev(t[3])
        if t[1] == 'Add' and isinstance(a, Text) and isinstance(b, Text):
            return Text(a, b)
        if t[1] in BIN and isinstance(a, int) and isinstance(b, int):
            return BIN[t[1]](a, b)
        raise Open(show(t))
    if k == 'item':
        a, i = ev(t[1]), ev(t[2])
        if isinstance(a, tuple) and isinstance(i, int):
            try:
                return a[i]
            except IndexError:
                raise Fails(show(t))
        raise Open(show(t))
    if k == 'slice':
        a = ev(t[1])
        lo, hi = ev(t[2]), ev(t[3])
        if isinstance(a, tuple):
            return a[lo:hi]
        if isinstance(a, Text):
            if isinstance(hi, int) and hi < 0:
                a = a.cut(-hi, True)
            elif isinstance(hi, int) and (a.known or not isinstance(lo, int) or lo >= 0):
                a = a.first(hi)
            elif hi is not None:
                raise Open(show(t))
            if isinstance(lo, int) and lo < 0 and hi is None:
                a = a.last(-lo)
            elif isinstance(lo, int) and lo >= 0:
                a = a.cut(lo, False)
            elif lo is not None:
                raise Open(show(t))
            return a
    if k == 'new' and t[1] == 'path':
        out = None
        for x in t[2]:
            v = as_text(ev(x))
            out = PathText(v) if out is None else out.join(PathText(v))
        return out
    if k == 'div':
        a, b = ev(t[1]), as_text(ev(t[2]))
        if isinstance(a, Text):
            return PathText(a).join(PathText(b))
    if k == 'attr':
        a = ev(t[1])
        if isinstance(a, Url) and t[2] in ('netloc', 'path', 'scheme', 'hostname', 'username'):
            return getattr(a, t[2])
        if isinstance(a, PathText):
            if t[2] == 'name':
                return a.final
            if t[2] == 'stem':
                return a.stem()
            if t[2] == 'parent':
                return a.parent
            if t[2] == 'parts':
                return (('/',) if a.startswith('/') else ()) + tuple(a.pieces)
            if t[2] == 'suffix':
                f = a.final
                if f.tail.count('.'):
                    return Text('.', f.tail.rpartition('.')[2])
                return Text(Name(f'suffix of {f}'))
    if k == 'call':
        if t[1] in ('urllib.parse.urlparse', 'urllib.parse.urlsplit'):
            return Url(as_text(ev(t[2][0])))
        if t[1] in ('str', 'os.fspath') and len(t[2]) == 1:
            return as_text(ev(t[2][0]))
        if t[1] == 'bool':
            return truth_of(ev(t[2][0]))
        if t[1] == 'next' and t[2]:
            raise Open(show(t))
        if isinstance(t[1], tuple) and t[1][0] == 'm':
            m = t[1][2].replace('_str', '') if t[1][2] == 'replace_str' else t[1][2]
            if m in ('as_posix', '__str__', '__fspath__'):
                return as_text(ev(t[1][1]))
            base = ev(t[1][1])
            args = [ev(x) for x in t[2] if x[0] != 'kw']
            kw = {x[1][2]: ev(x[2]) for x in t[2] if x[0] == 'kw'}
            if isinstance(base, PathText) and m == 'with_suffix':
                return base.with_suffix(args[0])
            if isinstance(base, PathText) and m == 'with_name':
                return base.parent.join(PathText(args[0]))
            if isinstance(base, PathText) and m == 'joinpath':
                for a in args:
                    base = base.join(PathText(as_text(a)))
                return base
            if isinstance(base, Text) and m in TEXT_METHODS:
                return getattr(base, m)(*args, **kw)
            if isinstance(base, Text) and m == 'join' and args and isinstance(args[0], tuple):
                out = []
                for i, x in enumerate(args[0]):
                    out += ([base] if i else []) + [as_text(x)]
                return Text(*out)
            if isinstance(base, Text) and m == 'format' and base.known and not kw:
                bits = base.text.split('{}')
                out = []
                for i, x in enumerate(bits):
                    out += ([as_text(args[i - 1])] if i else []) + [x]
                return Text(*out)
    if k in ('and', 'or'):
        vs = [truth_of(ev(x)) for x in t[1]]
        return all(vs) if k == 'and' else any(vs)
    raise Open(show(t))


class Fails(Open):
    """the operation itself fails here"""


def truth_of(v):
    if isinstance(v, Text):
        return bool(v.parts)
    if isinstance(v, (bool, int, tuple, type(None), str)):
        return bool(v)
    raise Open(repr(v))


def as_text(v):
    if isinstance(v, Text):
        return Text(*v.parts)
    if isinstance(v, str):
        return Text(v)
    raise Open(repr(v))


def applies(p, look, url):
    """does a path apply to this kind of url: False also when that depends on more of it"""
    ok = True
    for a, v in p.facts():
        seen = []

        def watch(t):
            r = look(t)
            if r is not None:
                seen.append(t)
            return r
        try:
            if truth_of(text_value(a, watch)) != v:
                return False
        except Fails:
            raise
        except Open:
            if any((look(x) or (None,))[0] is url for x in subterms(a)):
                return False
            ok = None
    return ok


G, N_ = Name('group'), Name('name')
REMOTES = {'scp': ('git@github.com:', G, '/', N_), 'ssh': ('ssh://git@github.com/', G, '/', N_), 'https': ('https://github.com/', G, '/', N_)}
ENDS = ('', '.git', '/', '.git/')


@rule('P53')
def p53(ctx):
    """Propagation of remotes of every form (scp-like, ssh, https; with and without .git and a final slash), made of known pieces and of group, repository, branch and path names that are left open, to every uri and clone folder."""
    n = Counter()
    f = ctx.func(REPO, 'clone_path')
    q = ctx.short(f)
    for p in ctx.run(f, recv=REPO, raises='none'):
        for form, parts in sorted({**REMOTES, 'path': ('/', Name('folder', True), '/', N_), 'relative': (Name('folder', True), '/', N_), 'other': ('https://', Name('host'), '/', G, '/', N_)}.items()):
            for end in ENDS:
                url = Text(*parts, end)

                def look(t):
                    if t == P('remote') or t == ('strof', P('remote')):
                        return (url,)
                    if t == SELF:
                        return (PathText('/', Name('here', True)),)
                try:
                    if applies(p, look, url) is False:
                        continue
                    n['clone'] += 1
                    got = text_value(p.val, look) if p.ret else None
                except Fails as e:
                    got = f'nothing, {e} fails'
                except Open:
                    n['open'] += 1
                    continue
                ctx.check(got == PathText('/', Name('here', True), '/', N_), 'the name of the repository', f'{q}: {form}', f'{url} would be cloned to {got}', f.where, p)
    inl = ('repo.RepoHelper._remote_uri', 'repo.RepoHelper._remote_helper')
    REF, BRANCH, REL = Name('ref', never=('HEAD', '')), Name('branch'), Name('path', True)
    for name, base, middle in (('remote_uri_human', 'https://github.com/', ('blob',)), ('remote_uri_machine', 'https://raw.githubusercontent.com/', ()), ('remote_uri_api', 'https://api.github.com/repos/', None)):
        f = ctx.func(REPO, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=REPO, raises='none', inline=inl):
            urls = [e for e in p.items if isinstance(e, Event) and e.kind == 'call' and e.name == 'next' and 'urls' in repr(e.args[:1])]
            for form, parts in sorted(REMOTES.items()):
                for end in ENDS:
                    for ref in (REF, None, 'HEAD') if middle is not None else (REF,):
                        url = Text(*parts, end)

                        def look(t):
                            if t[0] in ('next', 'elem') and 'urls' in repr(t) and 'remote' in repr(t) or t[0] == 'attr' and t[2] == 'url' and 'remote' in repr(t):
                                return (url,)
                            if t[0] == 'item' and t[2] == C(0):
                                x = t[1][2][0] if t[1][0] == 'call' and t[1][1] in ('list', 'tuple') and t[1][2] else t[1]
                                if x[0] == 'attr' and x[2] == 'urls':
                                    return (url,)
                            if t in (P('ref'), ('strof', P('ref'))):
                                return (Text(ref) if ref else None,)
                            if t == P('endpoint'):
                                return (Text(Name('endpoint', True)),)
                            if t[0] == 'isinst' and t[1] == P('ref'):
                                return (False,) if ref in (None, 'HEAD') else None
                            if t[0] == 'attr' and t[2] == 'name' and t[1][0] == 'attr' and t[1][2] == 'active_branch':
                                return (Text(BRANCH),)
                            if t == A(SELF, 'repo_relative_path') or t == A(SELF, 'path_relative_repo'):
                                return (PathText(REL),)
                            if t == SELF:
                                return (PathText('/', Name('here', True)),)
                            return None
                        try:
                            if applies(p, look, url) is False:
                                continue
                        except Fails as e:
                            ctx.check(False, 'uris of every form of remote', f'{q}: {form}', f'{url}: {e} fails', f.where, p)
                            continue
                        n[name] += 1
                        if middle is None:
                            want = Text(base, G, '/', N_, Name('endpoint', True))
                        else:
                            want = Text(base, G, '/', N_, *[x for m in middle for x in ('/', m)], '/', REF if ref is REF else BRANCH, '/', REL)
                        try:
                            got = text_value(p.val, look) if p.ret else p.kind + ' ' + show(p.val)
                        except Fails as e:
                            got = f'nothing, {e} fails'
                        except Open as e:
                            n['open'] += 1
                            continue
                        ctx.check(got == want, 'uris of every form of remote', f'{q}: {form}', f'{url} with ref {ref} gives {got}, not {want}', f.where, p)
    # every operation that can fail on the way was walked above, so a failing index is a path of its own
    ctx.need('P53', n['clone'], 6, 'clone folders')
    for x, k in (('remote_uri_human', 9), ('remote_uri_machine', 9), ('remote_uri_api', 3)):
        ctx.need('P53', n[x], k, x)
    n['decided'] = n['clone'] + sum(n[x] for x in ('remote_uri_human', 'remote_uri_machine', 'remote_uri_api')) - n['open']
    ctx.obl['left open'] += n['open']
