"""Rules for core.py: predicates, removal, copy, data, swap, contexts, xattrs."""
import ast
import errno
from ctx import *

LOCALS = ('core.LocalPath', 'caches.PrimaryCache')
DELETE = ('unlink', 'rmdir', 'rmtree', 'rename', 'replace', 'move', 'truncate', 'open-w', 'write')


def errno_of(e):
    return ('attr', e, 'errno')


def _live(ctx, m, st):
    """module level statement reachable under the configuration"""
    def walk(body):
        for x in body:
            if x is st:
                return True
            if isinstance(x, ast.If):
                t = ctx.prog.static_test(x.test, m)
                if (t is not False and walk(x.body)) or (t is not True and walk(x.orelse)):
                    return True
            elif isinstance(x, ast.Try):
                if walk(x.body) or walk(x.orelse) or walk(x.finalbody) or any(walk(h.body) for h in x.handlers):
                    return True
        return False
    return walk(m.tree.body)


def handled_exc(p):
    """exceptions of opaque calls that were caught on the path"""
    return [x[2] for x in p.handled() if x[2][0] == 'exc']


@rule('P01', configs=('linux-py3.12', 'darwin-py3.12', 'nt-py3.12'), thorough=('linux-py3.11', 'linux-py3.9', 'nt-py3.11'))
def p01(ctx):
    """Every path through the predicates of the path classes under each platform: what is asked, which errno of a failing query ends in False, which propagates; the two derived predicates as truth tables over exists and is_symlink."""
    allowed = {errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP}
    if ctx.config.platform == 'darwin':
        allowed.add(errno.ENAMETOOLONG)
    nt = ctx.config.os_name == 'nt'
    done = set()
    for cls in LOCALS + ('core.AugmentedPath', 'repo.RepoPath', 'package.PackagePath'):
        for name in ('exists', 'is_file', 'is_dir', 'is_symlink'):
            try:
                f = ctx.func(cls, name)
            except AnalysisError:
                owner, v = ctx.recv(cls).lookup(name)
                if isinstance(owner, str) and owner.startswith('pathlib'):
                    ctx.violate('predicate', f'{cls}.{name}', f'{cls}.{name} is pathlib\'s own: it raises for ELOOP instead of answering False')
                    continue
                raise
            if f.qual in done:
                continue
            done.add(f.qual)
            ps = ctx.run(f, recv=cls, raises='all', atomic_preds=False, inline=('core.*',), exc_root='BaseException')
            q = ctx.short(f)
            asked = 0
            for p in ps:
                raised = [x for x in p.failures if getattr(x[1], 'name', '') == name]
                if p.ret and not raised:
                    ok = p.val[0] == 'call' and isinstance(p.val[1], tuple) and p.val[1][2] == name and \
                        p.val[1][1] in (SELF,) + tuple(e.target for e in p.calls(name) if e.target[0] == 'super')
                    asked += ok
                    ctx.check(ok, 'answers what pathlib answers', q, f'{name} returns {show(p.val)} instead of the underlying answer', f.where, p)
                    continue
                hs = handled_exc(p)
                if not hs:
                    ctx.check(p.rai, 'propagates', q, 'an error disappears', f.where, p)
                    continue
                e = hs[0]
                if p.ret:
                    ctx.check(p.val == FALSE, 'False for not there', q, f'answers {show(p.val)} for an error', f.where, p)
                else:
                    ctx.check(p.val == e, 'propagates', q, f'raises {show(p.val)} instead of the underlying error', f.where, p)
                # a handler for anything wider or narrower than OSError changes the answer
                for num, sym in sorted(errno.errorcode.items()):
                    pairs = [(('excis', e, 'OSError'), True), (('hasattr', e, 'errno'), True), (('eq', errno_of(e), C(num)), True)]
                    if nt:
                        pairs.append((('hasattr', e, 'winerror'), False))
                    if not p.can(*pairs):
                        continue
                    if nt and any(a[0] == 'in' and a[1] == NONE and v for a, v in p.facts()):
                        continue        # None is not one of the windows codes
                    if num in allowed:
                        ctx.check(p.ret, 'False for not there', q, f'{sym} must be answered False, it is raised', f.where, p)
                    else:
                        ctx.check(p.rai, 'other errors propagate', q, f'{sym} must be raised, it is answered False', f.where, p)
                if p.can((('excis', e, 'OSError'), False)):
                    ctx.check(p.rai, 'other errors propagate', q, 'an exception that is no OSError is swallowed', f.where, p)
                if nt:
                    for a, v in p.facts():
                        if a[0] == 'in' and a[1] == ('attr', e, 'winerror'):
                            s = a[2]
                            if s[0] in ('tup', 'list', 'set'):
                                ctx.check({const_of(x) for x in s[1]} == {123}, 'windows codes', q, f'windows codes {show(s)}', f.where, p)
                            else:
                                ctx.check(s[0] == 'ext' and s[1].startswith('pathlib.'), 'windows codes', q, f'windows codes come from {show(s)}', f.where, p)
                            if v:
                                ctx.check(p.ret, 'windows codes', q, 'an ignorable windows error is raised', f.where, p)
            ctx.need('P01', asked, 1, f'{q} never asks pathlib')
    ctx.need('P01', len(done), 4, 'predicates')
    # errors pathlib itself is told to ignore
    m = ctx.prog.modules['augpathlib.core']
    told = set()
    for st in ast.walk(m.tree):
        if isinstance(st, (ast.AugAssign, ast.Assign)):
            ts = [st.target] if isinstance(st, ast.AugAssign) else st.targets
            for t in ts:
                nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else ''
                if not nm.startswith('_IGNORED_') or not _live(ctx, m, st):
                    continue
                try:
                    v = ctx.prog.const(st.value, m)
                except Exception:
                    continue
                if not isinstance(v, tuple):
                    continue
                if 'WIN' in nm:
                    told |= set(v)
                    ctx.check(set(v) <= {123}, 'windows codes', f'core:{nm}', f'pathlib is told to ignore windows errors {v}', f'{m.path}:{st.lineno}')
                else:
                    ctx.check(set(v) <= allowed, 'pathlib ignores', f'core:{nm}', f'pathlib is told to ignore {v}', f'{m.path}:{st.lineno}')
    if nt:
        ctx.check(123 in told, 'windows codes', 'core:_IGNORED_WINERRORS', 'winerror 123 is not ignored', m.path)
    # the two combinations
    for name, want in (('is_broken_symlink', lambda s, e: s and not e), ('exists_not_symlink', lambda s, e: e and not s)):
        f = ctx.func('core.LocalPath', name)
        ps = ctx.run(f, recv='core.LocalPath', raises='none')
        atoms = [fsat('is_symlink', SELF), fsat('exists', SELF)]
        n = 0
        for pairs in combos(atoms):
            for p in ps:
                t = truth_under(p.st, p.val, pairs) if p.ret else None
                if t == 'contradiction':
                    continue
                n += 1
                ctx.check(t is want(pairs[0][1], pairs[1][1]), 'combination', f'core.{name}',
                          f'{name} answers {t} for is_symlink={pairs[0][1]} exists={pairs[1][1]}', f.where, p)
        ctx.need('P01', n, 4, name)
    for cls in LOCALS:
        for name in ('is_broken_symlink', 'exists_not_symlink'):
            ctx.check(ctx.func(cls, name) is ctx.func('core.AugmentedPath', name), 'combination', f'{cls}.{name}', 'overridden')


# ------------------------------------------------------------------ rmtree ----
def _rmtree_entries(ctx):
    """(func, receiver) of every rmtree a local path can have"""
    out, seen = [], set()
    for c in ('core.LocalPath', 'caches.PrimaryCache', 'repo.RepoPath', 'package.PackagePath', 'zip.ZipPath'):
        f = ctx.func(c, 'rmtree')
        if f.qual not in seen:
            seen.add(f.qual)
            out.append((f, c))
    for c in ctx.prog.classes.values():
        v = c.attrs.get('rmtree')
        if isinstance(v, Func) and v.qual not in seen:
            seen.add(v.qual)
            out.append((v, ctx.short(c.qual)))
    return out


def is_delete(e):
    return e.kind == 'effect' and e.name in DELETE or e.kind == 'call' and e.name in ('rmtree', 'rmdirtree', 'onerror')


@rule('P02')
def p02(ctx):
    """What is known about the path (absolute, number of parts, home, working directory, literal DANGERZONE) at the first deletion on every path of rmtree, for every receiver class; where the refusal is raised and what may catch it."""
    DZ = P('DANGERZONE')
    dz = ('is', DZ, TRUE)
    parts = A(SELF, 'parts')
    base = ctx.func('core.LocalPath', 'rmtree')
    bps = None
    ents = _rmtree_entries(ctx)
    for f, c in ents:
        q = ctx.short(f)
        ps = ctx.run(f, recv=c, raises='all', exc_root='BaseException', inline=() if f is base else ('core.AugmentedPath.rmtree',))
        deletes = refused = nested = 0
        for p in ps:
            for e in p.items:
                if not isinstance(e, Event) or not is_delete(e):
                    continue
                deletes += 1
                st = e.st
                abs_ = [a for a in st.facts if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('m', SELF, 'is_absolute')]
                cwds = [SELF] + [t for t in ([('cwd', 0)])]
                what = f'{q}: {e.name}'
                ctx.check(any(st.facts[a] for a in abs_), 'relative', what, 'reached with a relative path', e.where, p)
                ctx.check(excluded(st, (dz, False), (('lt', C(2), ('len', parts)), False)), 'top level', what,
                          'reached for a top level path without DANGERZONE', e.where, p)
                ctx.check(excluded(st, (dz, False), (('lt', C(3), ('len', parts)), False), (('in', C('home'), parts), True)), 'home', what,
                          'reached for a home directory without DANGERZONE', e.where, p)
                ctx.check(excluded(st, (dz, False), (eqat(('cwd', 0), SELF), True)), 'working directory', what,
                          'reached for the current working directory without DANGERZONE', e.where, p)
            if p.exc_isa('WillNotRemovePathError'):
                refused += 1
                ctx.check(not any(isinstance(e, Event) and is_delete(e) for e in p.items), 'refusal first', q,
                          'something is deleted before the refusal', f.where, p)
            # a refusal raised below is never swallowed or handed on
            for x in p.failures:
                ev = x[1]
                if getattr(ev, 'name', '') != 'rmtree':
                    continue
                e = [v for v in _excs(p, x)]
                for exc in e:
                    a = ('excis', exc, 'augpathlib.exceptions.WillNotRemovePathError')
                    if not p.can((a, True)):
                        continue
                    nested += 1
                    ctx.check(p.rai and p.val == exc and not p.calls('onerror', 'value'), 'refusal leaves', f'{q}: nested rmtree',
                              'a refusal raised for a nested entry is swallowed or handed to onerror', ev.where, p)
        ctx.need('P02', deletes, 1, f'{q} deletes nothing')
        if f is base:
            ctx.need('P02', refused, 3, 'refusals')
            ctx.need('P02', nested, 1, 'nested removal')
    # only the literal True lifts the guard: every refusal is reachable for any other value
    ps = ctx.run(base, recv='core.LocalPath', raises='none')
    for val in (C(1), C('yes'), FALSE, NONE):
        ps = ctx.run(base, recv='core.LocalPath', raises='none', args={'DANGERZONE': val})
        for p in ps:
            if not p.muts():
                continue
            for pairs, w in (([(('lt', C(2), ('len', parts)), False)], 'a top level path'),
                             ([(eqat(('cwd', 0), SELF), True)], 'the working directory'),
                             ([(('lt', C(3), ('len', parts)), False), (('in', C('home'), parts), True)], 'a home directory')):
                ctx.check(excluded(p.st, *pairs), 'literal True', f'{ctx.short(base)}: DANGERZONE={show(val)}',
                          f'DANGERZONE={show(val)} removes {w}', base.where, p)


def _excs(p, x):
    """exception value(s) raised by the failing event of a ('raises', ev, node) item"""
    i = [k for k, y in enumerate(p.items) if y is x][0]
    for y in p.items[i + 1:]:
        if isinstance(y, tuple) and y[0] == 'handled':
            return [y[2]]
        if isinstance(y, tuple) and y[0] == 'raises':
            break
    return [p.val] if p.rai and p.val[0] == 'exc' else []


def _flags(e, f):
    """an inner call hands down ignore_errors, onerror and DANGERZONE unchanged"""
    names = ['ignore_errors', 'onerror', 'DANGERZONE']
    got = dict(zip(names, e.args))
    got.update({k: v for k, v in e.kw.items() if k in names})
    if f.node.args.kwarg is not None:
        kwn = f.node.args.kwarg.arg
        star = e.kw.get('**')
        if star is not None and contains(star, P(kwn)):
            return True
    return all(got.get(n) == P(n) for n in names)


@rule('P03')
def p03(ctx):
    """What is known about each entry (link, folder) when it is removed or descended into, one obligation per entry of the listing, the flags of every recursive call, and where each failure goes for every value of the flags."""
    base = ctx.func('core.LocalPath', 'rmtree')
    IE, OE = P('ignore_errors'), P('onerror')
    for c in ('core.LocalPath', 'caches.PrimaryCache'):
        f = ctx.func(c, 'rmtree')
        q = ctx.short(f)
        ps = ctx.run(f, recv=c, raises='all', exc_root='BaseException')
        n = Counter()
        for p in ps:
            evs = p.evs()
            # where the entries come from
            for e in evs:
                lists = e.kind == 'call' and e.name in ('iterdir', 'os.scandir', 'os.listdir', 'scandir', 'glob', 'rglob', 'walk', 'os.walk', 'children', 'rchildren')
                tgt = e.target if e.target is not None else (e.args[0] if e.args else SELF)
                if lists:
                    n['list'] += 1
                    ctx.check(e.st.fs('is_symlink', SELF) is False, 'links not followed', f'{q}: {e.name}',
                              'the directory is listed although the path may be a symbolic link', e.where, p)
                    ctx.check(e.name not in ('rglob', 'walk', 'rchildren'), 'links not followed', f'{q}: {e.name}', 'recursive listing', e.where, p)
                if e.kind == 'call' and e.name == 'rmtree' and e.target is not None and e.target[0] != 'super':
                    n['nested'] += 1
                    ctx.check(e.st.fs('is_symlink', e.target) is False, 'links not followed', f'{q}: nested rmtree',
                              'rmtree of an entry that may be a symbolic link', e.where, p)
                    ctx.check(_flags(e, f), 'flags handed down', f'{q}: nested rmtree', 'the flags of the caller are not handed down unchanged', e.where, p)
                    ctx.check(_entry(e.target, SELF), 'only entries', f'{q}: nested rmtree', f'removes {show(e.target)}', e.where, p)
                if e.kind == 'effect' and e.name in ('unlink', 'rmdir', 'rmtree', 'rename', 'replace', 'move'):
                    t = e.target
                    n[e.name] += 1
                    if e.name in ('rmtree', 'rename', 'replace', 'move'):
                        ctx.violate('own primitives', f'{q}: {e.name}', f'{e.name} is not under the guard', e.where, p)
                    elif same(t, SELF):
                        if e.name == 'rmdir':
                            ctx.check(e.st.fs('is_symlink', SELF) is not True, 'links not followed', f'{q}: rmdir', 'rmdir of a link', e.where, p)
                        else:
                            # unlinking the path itself: not a directory, so a link to one fails
                            ctx.check(e.st.fs('is_dir', SELF) is False, 'link to a directory', f'{q}: unlink',
                                      'unlinks the path although it may be a directory or a link to one', e.where, p)
                    else:
                        ctx.check(_entry(t, SELF), 'only entries', f'{q}: {e.name}', f'{e.name} of {show(t)}, which is no entry of the directory', e.where, p)
                        if e.name == 'rmdir':
                            ctx.check(False, 'own primitives', f'{q}: rmdir', f'rmdir of the entry {show(t)}', e.where, p)
            # every entry handled, before the directory
            for k, it in enumerate(p.items):
                if isinstance(it, tuple) and it[0] == 'loop' and it[2] in ('first', 'later'):
                    elts = {x for y in p.items[k:] if isinstance(y, Event) and y.target is not None for x in subterms(y.target) if x[0] == 'elem'}
            loops = [x for x in p.loops() if x[2] in ('first', 'later')]
            if p.ret and not p.failures and not p.handled() and any(a[:3] == fsat('is_dir', SELF)[:3] and v for a, v in p.facts()):
                n['dir'] += 1
                rm = [e for e in p.effects('rmdir') if same(e.target, SELF)]
                ctx.check(len(rm) == 1, 'removes the directory', f'{q}: rmdir', 'the directory itself is not removed', f.where, p)
                if loops:
                    done = [e for e in p.evs() if (e.name == 'unlink' or e.name == 'rmtree') and e.target is not None and not same(e.target, SELF)]
                    ctx.check(len(done) == len(loops), 'every entry', f'{q}: entries', 'an entry of the directory is skipped', f.where, p)
                    if rm:
                        ctx.check(all(before(p, d, rm[0]) for d in done), 'every entry', f'{q}: order', 'the directory is removed before its entries', f.where, p)
                else:
                    ctx.check(bool(p.loops('zero')) or bool(p.calls('iterdir', 'os.scandir', 'os.listdir')), 'every entry', f'{q}: entries', 'entries are not looked at', f.where, p)
            if p.ret and not p.failures and p.st.fs('is_dir', SELF) is False:
                ctx.check(len(p.effects('unlink')) == 1, 'removes the file', f'{q}: unlink', 'nothing is removed', f.where, p)
            # a link to a directory: fails
            # failures are reported
            fails = [x for x in p.failures if getattr(x[1], 'name', '') in ('unlink', 'rmdir', 'rmtree', 'iterdir')]
            link = any(h[2][0] == 'newexc' for h in p.handled())
            if fails or link:
                reported = [e for e in p.attempts('value', 'onerror') if e.target == OE or e.name == 'onerror']
                refusal = any(a[0] == 'excis' and 'WillNotRemove' in a[2] and v for a, v in p.facts())
                if refusal:
                    continue
                n['failure'] += 1
                if p.rai and not reported:
                    what = p.val
                    ok = excluded(p.st, (('truthy', IE), True)) and excluded(p.st, (('isc', OE, NONE), False), (('truthy', OE), True))
                    ctx.check(ok, 'reports failures', f'{q}: raise',
                              'a failure is raised although errors are ignored or a callback was given', f.where, p)
                elif p.ret and not reported:
                    ctx.check(excluded(p.st, (('truthy', IE), False)), 'reports failures', f'{q}: silent',
                              'a failure is silent although ignore_errors is false', f.where, p)
                elif reported:
                    r = reported[0]
                    ctx.check(excluded(r.st, (('truthy', IE), True)), 'reports failures', f'{q}: onerror', 'onerror is called although errors are ignored', r.where, p)
                    which = SELF if link and not fails else fails[0][1].target
                    ctx.check(len(r.args) == 3 and (pid(r.args[1]) == pid(which) or pid(which) == pid(A(SELF, 'local')) and pid(r.args[1]) == pid(SELF)), 'reports failures',
                              f'{q}: onerror', f'onerror is told about {show(r.args[1]) if len(r.args) > 1 else "nothing"} when {show(which)} fails', r.where, p)
                    ctx.check(len(r.args) == 3 and 'exc_info' in repr(r.args[2]), 'reports failures', f'{q}: onerror', 'onerror is not told what failed', r.where, p)
            elif p.st.fs('is_symlink', SELF) and p.st.fs('is_dir', SELF):
                ctx.check(p.rai, 'link to a directory', f'{q}: link', 'a link to a directory is not refused', f.where, p)
        for k, v in (('list', 1), ('nested', 1), ('unlink', 2), ('rmdir', 1), ('failure', 4), ('dir', 2)):
            ctx.need('P03', n[k], v, f'{q}: {k}')
    # the repository form hands everything down
    f = ctx.func('repo.RepoPath', 'rmtree')
    if f is not base:
        for p in ctx.run(f, recv='repo.RepoPath', raises='none'):
            own = p.muts()
            sup = [e for e in p.calls('rmtree') if e.target and same(e.target, SELF)]
            ctx.check(not own and len(sup) == 1, 'delegates', ctx.short(f), 'does not hand the removal to the guarded implementation', f.where, p)
            for e in sup:
                ctx.check(_flags(e, f), 'flags handed down', ctx.short(f), 'flags are lost', f.where, p)


def _entry(t, root):
    """a path that is an element of a listing of root"""
    for x in subterms(t):
        if x[0] == 'elem' and mentions(x, root):
            return True
    return False


@rule('P04', thorough=('linux-py3.11', 'nt-py3.12'))
def p04(ctx):
    """Typestate of each folder of the bottom-up walk at its removal: no files seen, every subfolder already removed by this call; the only deletion is the one of empty folders."""
    f = ctx.func('core.LocalPath', 'rmdirtree')
    q = ctx.short(f)
    ps = ctx.run(f, recv='core.LocalPath', raises='none')
    n = Counter()
    for p in ps:
        if p.exc == 'NotADirectoryError':
            n['refuse'] += 1
            ctx.check(not p.muts(), 'link refused', q, 'something is removed before the refusal', f.where, p)
        if p.st.fs('is_symlink', SELF) is True or p.holds(fsat('is_symlink', SELF)):
            ctx.check(p.exc_isa('NotADirectoryError'), 'link refused', q, 'a symbolic link is not refused', f.where, p)
        for e in p.muts() + p.calls('rmtree'):
            n['rm'] += 1
            ctx.check(e.name == 'rmdir', 'only rmdir', f'{q}: {e.name}', f'uses {e.name}', e.where, p)
            ext = e.kw.get('__ext__')
            ctx.check(not (ext and ext[1] == 'os.removedirs'), 'only rmdir', f'{q}: removedirs', 'removes parents too', e.where, p)
            ctx.check(e.st.fs('is_symlink', SELF) is False or e.st.holds(fsat('is_symlink', SELF)) is False, 'link refused', f'{q}: {e.name}', 'reached for a link', e.where, p)
            # what the walk gave: (directory, subdirectories, files)
            w = [x for x in subterms(pid(e.target)) if x[0] == 'item' and x[2] == C(0) and x[1][0] == 'elem' and _is_walk(x[1][1])]
            if not ctx.check(bool(w) and pid(e.target) in (w[0], ('new', 'path', (w[0],))) or bool(w) and _wraps(e.target, w[0]), 'walked directories only', f'{q}: rmdir',
                             f'removes {show(e.target)}, which is not the directory being walked', e.where, p):
                continue
            d, W = w[0], w[0][1]
            ctx.check(_bottom_up(W[1]), 'bottom up', f'{q}: walk', 'the walk is not bottom up', e.where, p)
            ctx.check(e.st.holds(truthy(('item', W, C(2)))) is False or excluded(e.st, (truthy(('item', W, C(2))), True)), 'no files', f'{q}: rmdir',
                      'reached for a directory that has files', e.where, p)
            ctx.check(_subs_removed(p, e, W, d), 'subdirectories removed', f'{q}: rmdir',
                      'reached for a directory with a subdirectory that this call did not remove', e.where, p)
        for e in p.calls('add', 'append', 'update', 'extend'):
            if e.target[0] in ('set', 'list') and any(same(x, y.target) or same(e.args[0], y.target) or _wraps(y.target, e.args[0])
                                                      for x in e.args[:1] for y in p.effects('rmdir') if before(p, y, e)):
                n['recorded'] += 1
            elif e.target[0] in ('set', 'list') and _membership_container(p, e.target):
                ctx.check(False, 'recorded after removal', f'{q}: {e.name}', 'a directory is recorded as removed although it was not', e.where, p)
        if not p.ret or p.failures:
            continue
        # what is left of the folders: each has files or a folder that was not removed
        for i, x in enumerate(p.items):
            if not (isinstance(x, tuple) and x[0] == 'loop' and x[2] == 'later' and _is_walk(x[3])):
                continue
            seg = []
            for y in p.items[i + 1:]:
                if isinstance(y, tuple) and y[0] == 'loop' and y[1] is x[1]:
                    break
                seg.append(y)
            if not [y for y in p.items[:i] if isinstance(y, Event) and y.name == 'rmdir']:
                continue  # nothing can have been removed before
            n['pass'] += 1
            gone = [y for y in seg if isinstance(y, Event) and y.name == 'rmdir']
            facts = [y for y in seg if isinstance(y, tuple) and y[0] == 'fact']
            member = lambda t, k: any(z[0] == 'item' and z[2] == C(k) and z[1][0] == 'elem' and _is_walk(z[1][1]) for z in subterms(t))
            if gone:
                n['gone'] += 1
                noted = [y for y in seg if isinstance(y, Event) and y.kind == 'call' and y.name in ('add', 'append', 'update', 'extend')
                         and any(same(z, gone[0].target) or _wraps(gone[0].target, z) for a in y.args for z in subterms(a))]
                ctx.check(bool(noted), 'every empty folder', q, 'a removed folder is not remembered and what holds it stays', gone[0].where, p)
            else:
                files = any(a[0] == 'truthy' and v is True and member(a[1], 2) and not member(a[1], 1) for _, a, v, *_ in facts)
                subs = [z for _, a, v, *_ in facts for z in subterms(a) if z[0] == 'item' and z[2] == C(1) and z[1][0] == 'elem' and _is_walk(z[1][1])]
                sub = any(a[0] == 'in' and v is False and member(a[1], 1) or any(_all_gone(a, v, z) is False for z in subs) for _, a, v, *_ in facts)
                ctx.check(files or sub, 'every empty folder', q, 'a folder is left although nothing was seen in it', f.where, p)
    ctx.need('P04', n['refuse'], 1, 'refusal')
    ctx.need('P04', n['rm'], 1, 'rmdir')
    ctx.need('P04', n['gone'], 1, 'folders removed in a pass')


def _is_walk(t):
    while t[0] == 'call' and t[1] in ('reversed', 'list', 'tuple'):
        t = t[2][0]
    return t[0] == 'call' and (t[1] == 'os.walk' or isinstance(t[1], tuple) and t[1][2] == 'walk')


def _bottom_up(t):
    rev = 0
    while t[0] == 'call' and t[1] in ('reversed', 'list', 'tuple'):
        rev += t[1] == 'reversed'
        t = t[2][0]
    kws = {x[1][2]: x[2] for x in t[2] if x[0] == 'kw'}
    pos = [x for x in t[2] if x[0] != 'kw']
    td = kws.get('top_down', kws.get('topdown'))
    if td is None:
        i = 1 if t[1] == 'os.walk' else 0
        td = pos[i] if len(pos) > i else TRUE
    return (td == FALSE) != (rev % 2 == 1)


def _wraps(t, x):
    return t[0] == 'new' and len(t[2]) == 1 and same(t[2][0], x) or t == ('strof', x)


def _membership_container(p, s):
    return any(a[0] == 'in' and a[2][0] == s[0] and a[2][2:] == s[2:] or
               a[0] != 'in' and any(x[0] == s[0] and x[2:] == s[2:] for x in subterms(a)) and any(x[0] == 'comp' for x in subterms(a)) for a, v in p.facts())


def _all_gone(a, v, subs):
    """what a fact about all of the subfolders says: True (all were removed), False (one was not), None (nothing)"""
    comp = [x for x in subterms(a) if x[0] == 'comp' and mentions(x[3], subs)]
    if not comp:
        return None
    c = comp[0]
    if a[0] == 'truthy' and a[1][0] == 'call':
        name = a[1][1][2] if isinstance(a[1][1], tuple) else a[1][1]
        if name in ('any', 'all'):
            inn, neg = any(x[0] == 'in' for x in subterms(c)), any(x[0] == 'not' for x in subterms(c[2]))
            if c[2] in (TRUE, FALSE):  # nothing was removed before
                inn, neg = True, (c[2] == TRUE) == (name == 'any')
                if (c[2] == TRUE) != (name == 'any'):
                    return None
                return v == (name == 'all')
            if not inn:
                return None
            if name == 'all' and not neg or name == 'any' and neg:
                return v == (name == 'all')
            return None
        if name == 'issubset' and mentions(a[1][1][1], subs) or name == 'issuperset' and not mentions(a[1][1][1], subs):
            return v
        if name == 'difference' and mentions(a[1][1][1], subs):
            return not v
        return None
    if a[0] == 'truthy' and a[1] == c:
        if not c[4]:
            return not v if v is False else None
        inn, neg = any(x[0] == 'in' for x in subterms(c[4][0])), any(x[0] == 'not' for x in subterms(c[4][0]))
        if len(c[4]) == 1 and (c[4][0] in (TRUE, ('not', FALSE)) or inn and neg):
            return not v
        return None
    if a[0] == 'truthy' and a[1][0] == 'bin' and a[1][1] in ('Sub', '-') and mentions(a[1][2], subs):
        return not v
    if a[0] == 'lt' and mentions(a[2], subs) and not mentions(a[1], subs):
        return not v
    return None


def _subs_removed(p, e, W, d):
    subs = ('item', W, C(1))
    if e.st.holds(truthy(subs)) is False:
        return True
    if any(_all_gone(a, v, subs) is True for a, v in p.facts()):
        return True
    # the last walk iteration before the event
    items = p.items
    end = items.index(e)
    start = max((i for i, x in enumerate(items[:end]) if isinstance(x, tuple) and x[0] == 'loop' and x[2] in ('first', 'later') and _is_walk(x[3])), default=None)
    if start is None:
        return False
    seg = items[start:end]
    looked = False
    for i, x in enumerate(seg):
        if isinstance(x, tuple) and x[0] == 'loop' and x[3] == subs:
            looked = True
            if x[2] in ('first', 'later'):
                ok = False
                for y in seg[i + 1:]:
                    if isinstance(y, tuple) and y[0] == 'fact' and y[1][0] == 'in' and y[2] is True and \
                            any(z[0] == 'elem' and z[1] == subs for z in subterms(y[1][1])) and mentions(y[1][1], d):
                        ok = True
                    if isinstance(y, tuple) and y[0] == 'loop' and y[1] is x[1]:
                        ok = ok and y[2] == 'end'
                        break
                if not ok:
                    return False
    return looked


# -------------------------------------------------------------------- copy ----
def _writes(p, target=None):
    """events that put data somewhere: (event, destination term)"""
    out = []
    for e in p.items:
        if not isinstance(e, Event):
            continue
        if e.kind == 'store' and e.name == 'data':
            out.append((e, e.target))
        elif e.kind == 'effect' and e.name in FS_MUT:
            out.append((e, e.target))
        elif e.kind == 'call' and e.name in ('_data_setter', '_write_chunks', '_write_chunks_posix', '_write_chunks_ntfs'):
            out.append((e, e.target))
    return out


def _is_path_of(t, x):
    """t is x, possibly rebuilt as another path class"""
    return same(t, x)


@rule('P05')
def p05(ctx):
    """What is known about the target (exists, link, force) at every write of the copy primitives on every path; argument by argument agreement of the wrappers with the primitive."""
    F, T, S = P('force'), P('target'), P('source')
    n = Counter()
    seen = set()
    for c in ('core.LocalPath', 'repo.RepoPath', 'caches.PrimaryCache'):
        f = ctx.func(c, 'copy_to')
        if f.qual in seen:
            continue
        seen.add(f.qual)
        q = ctx.short(f)
        ps = ctx.run(f, recv=c, raises='none')
        for p in ps:
            ws = _writes(p)
            for e, t in ws:
                n['write'] += 1
                ctx.check(same(t, T), 'writes the target', f'{q}: {e.name}', f'writes {show(t)}', e.where, p)
                ctx.check(e.name in ('data', 'copy', '_data_setter', 'open-w'), 'only writes data', f'{q}: {e.name}', f'{e.name} on the target', e.where, p)
                if e.name == 'copy':
                    ctx.check(bool(e.args) and same(e.args[0], SELF), 'writes its own data', f'{q}: {e.name}', 'the source is not the path itself', e.where, p)
                if e.name == 'data':
                    ctx.check(mentions(e.args[0], SELF), 'writes its own data', f'{q}: {e.name}', 'the source is not the path itself', e.where, p)
                for pred in ('exists', 'is_symlink'):
                    at = _fs_any(e.st, pred, T)
                    ctx.check(excluded(e.st, (truthy(F), False), *[(a, True) for a in at]) if at else e.st.holds(truthy(F)) is True,
                              'never overwrites', f'{q}: {pred}', f'written without force although the target may be {"there" if pred == "exists" else "a symbolic link"}', e.where, p)
            if p.exc_isa('PathExistsError'):
                n['refuse'] += 1
                ctx.check(not ws, 'refusal first', q, 'written before the refusal', f.where, p)
                # only for an existing target
                ctx.check(not p.can((truthy(F), True)), 'force writes', q, 'refused although force was given', f.where, p)
            elif p.ret:
                ctx.check(bool(ws), 'copies', q, 'returns without having copied', f.where, p)
    ctx.need('P05', n['write'], 2, 'writes')
    ctx.need('P05', n['refuse'], 2, 'refusals')
    # wrappers
    for c, name, obj, arg in (('core.LocalPath', 'copy_from', S, SELF), ('repo.RepoPath', 'copy_from', S, SELF),
                              ('core.LocalPath', 'copy_infrom', S, SELF), ('repo.RepoPath', 'copy_infrom', S, SELF),
                              ('core.LocalPath', 'copy_outto', SELF, ('div', T, A(SELF, 'name'))), ('repo.RepoPath', 'copy_outto', SELF, ('div', T, A(SELF, 'name')))):
        f = ctx.func(c, name)
        q = ctx.short(f)
        if f.qual in seen:
            continue
        seen.add(f.qual)
        for p in ctx.run(f, recv=c, raises='none'):
            ws = _writes(p)
            cs = p.calls('copy_to', 'copy_outto')
            ctx.check(not ws, 'wrapper', q, 'writes by itself', f.where, p)
            outto = name == 'copy_outto'
            if outto:
                D = _fs_any(p.st, 'is_dir', T) or [fsat('is_dir', T)]
                for e in cs:
                    ctx.check(e.st.fs('is_dir', T) is True, 'into a directory only', q, 'copied although the destination may not be a directory', e.where, p)
                if p.rai:
                    ctx.check(p.exc_isa('NotADirectoryError') and not cs, 'into a directory only', q, f'raises {show(p.val)}', f.where, p)
                if p.st.fs('is_dir', T) is False:
                    ctx.check(p.exc_isa('NotADirectoryError'), 'into a directory only', q, 'a destination that is no directory is accepted', f.where, p)
            if p.ret:
                if not ctx.check(len(cs) == 1, 'wrapper', q, 'does not copy exactly once', f.where, p):
                    continue
                e = cs[0]
                n['wrap'] += 1
                ctx.check(same(e.target, obj), 'wrapper', q, f'copies {show(e.target)}', e.where, p)
                g = e.kw.get('__func__')
                ctx.check(bool(e.args) and same(e.args[0], arg), 'wrapper', q, f'copies to {show(e.args[0]) if e.args else None}', e.where, p)
                fo = e.arg(1, 'force')
                ctx.check(fo == F, 'force handed down', q, f'force is handed down as {show(fo) if fo else "its default"}', e.where, p)
                if name == 'copy_infrom':
                    ctx.check(p.val == e.result or p.val[0] == 'call' and p.val[1] == ('m', e.target, e.name), 'returns the result', q, f'returns {show(p.val)}', f.where, p)
                if outto:
                    ctx.check(same(p.val, arg), 'returns the result', q, f'returns {show(p.val)}', f.where, p)
    ctx.need('P05', n['wrap'], 3, 'wrappers')
    # into a directory: a destination that is no directory is refused by the form that is called
    f = ctx.func('core.LocalPath', 'copy_infrom')
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        for e in p.calls('copy_to'):
            ctx.check(e.st.fs('is_dir', SELF) is True, 'into a directory only', ctx.short(f), 'copied into something that may be no directory', e.where, p)


def _fs_any(st, pred, x):
    """known predicate atoms about a path at the current epoch"""
    a = fsat(pred, x, st.epoch)
    return [a]


# -------------------------------------------------------------------- data ----
def _core(t):
    while t[0] == 'call' and t[1] in ('iter', 'list', 'tuple') and len(t[2]) == 1:
        t = t[2][0]
    return t


def _obtained(p, gen, upto=None):
    """chunks taken from the generator, in order: (position, term)"""
    out = []
    items = p.items
    for i, x in enumerate(items):
        if isinstance(x, Event) and x.kind == 'call' and x.name == 'next' and x.args and _core(x.args[0]) == gen:
            if i + 1 < len(items) and items[i + 1] == ('fact', ('exhausted', gen), True):
                continue
            out.append((i, x.result))
        elif isinstance(x, tuple) and x[0] == 'loop' and x[3] is not None and _core(x[3]) == gen and x[2] in ('first', 'later'):
            out.append((i, ('elem', x[3], 0 if x[2] == 'first' else 1)))
    return out


def _asked(p, gen, pos):
    """the generator has been asked for its first chunk before position pos, and did not raise"""
    for x in p.items[:pos]:
        if isinstance(x, Event) and x.kind == 'call' and x.name == 'next' and x.args and _core(x.args[0]) == gen:
            return True
        if isinstance(x, tuple) and x[0] == 'loop' and x[3] is not None and _core(x[3]) == gen:
            return True
        if isinstance(x, tuple) and x[0] == 'fact' and x[1] == ('exhausted', gen):
            return True
    return False


def _chunk(t):
    """an element of the generator, however it was bound"""
    return t


@rule('P06', configs=('linux-py3.12', 'nt-py3.12'))
def p06(ctx):
    """Order of the first chunk and the truncating open on every path of the data setters, and for every pass of the write loop the chunk obtained against the chunk written."""
    gen = P('generator')
    entries = [(ctx.func('core.LocalPath', 'data', 'setter'), False)]
    try:
        entries.append((ctx.func('core.LocalPath', '_data_setter'), True))
    except AnalysisError:
        pass
    for f, chained in entries:
        q = ctx.short(f)
        n = Counter()
        params = [a.arg for a in f.node.args.args]
        g = P(params[1])
        ps = ctx.run(f, recv='core.LocalPath', raises='all',
                     inline=('core.LocalPath._write_chunks', 'core.LocalPath._write_chunks_posix', 'core.LocalPath._write_chunks_ntfs'))
        for p in ps:
            for i, e in enumerate(p.items):
                if isinstance(e, tuple) and e[0] == 'raises' and isinstance(e[1], Event) and e[1].kind == 'effect':
                    e = e[1]
                if not isinstance(e, Event) or e.kind != 'effect' or e.name not in FS_MUT or not same(e.target, SELF):
                    continue
                n['open'] += 1
                ctx.check(_asked(p, g, i), 'first chunk first', f'{q}: {e.name}', 'the file is opened for writing before the first chunk has been obtained', e.where, p)
            opens = [e for e in p.effects('open-w') if same(e.target, SELF)]
            got = [t for _, t in _obtained(p, g)]
            ws = [e for e in p.calls('write') if e.target[0] == 'file']
            wrote = [e.args[0] for e in ws if e.args[0] != C(b'')]
            ys = [e for e in p.evs('yield')]
            if p.ret:
                n['ret'] += 1
                ctx.check(len(opens) == 1, 'writes the file', q, 'the file is not opened for writing exactly once', f.where, p)
                ctx.check(wrote == got, 'every chunk once, in order', q, f'chunks obtained {[show(x) for x in got]}, written {[show(x) for x in wrote]}', f.where, p)
                done = any(x[0] == 'loop' and x[2] in ('zero', 'end', 'exit') and (x[3] is None or _core(x[3]) == g) for x in p.items if isinstance(x, tuple)) or \
                    any(x == ('fact', ('exhausted', g), True) for x in p.items)
                brk = any(x[0] == 'loop' and x[2] == 'break' for x in p.items if isinstance(x, tuple))
                ctx.check(done and not brk, 'every chunk once, in order', f'{q}: rest', 'the rest of the chunks is not written', f.where, p)
            for e in opens:
                mode = e.args[0]
                app = P('append') if chained else FALSE
                if is_const(mode):
                    m = str(const_of(mode))
                    trunc = [t for t in p.calls('truncate') if t.target == e.result or t.target[0] == 'file']
                    ctx.check('b' in m, 'mode', f'{q}: open', f'mode {m}', e.where, p)
                    if 'a' in m:
                        if chained and e.st.holds(truthy(app)) is True:
                            n['append'] += 1
                            ctx.check(not trunc, 'mode', f'{q}: open', 'append truncates', e.where, p)
                        else:
                            ctx.check(p.rai or bool(trunc) and all(before(p, t, w) for t in trunc for w in ws) and
                                      (trunc[0].args == (C(0),) or any(k.args[:1] == (C(0),) and before(p, k, trunc[0]) for k in p.calls('seek'))),
                                      'replaces the content', f'{q}: open', 'old content is kept', e.where, p)
                    elif 'w' in m:
                        ctx.check(not chained or excluded(e.st, (truthy(app), True)), 'mode', f'{q}: open', 'append truncates the file', e.where, p)
                    else:
                        ctx.check(False, 'mode', f'{q}: open', f'mode {m}', e.where, p)
            if chained and p.ret:
                handed = [e.args[0] for e in ys if e.args and e.args[0] != C(b'')]
                n['yield'] += len(handed)
                ctx.check(handed == got, 'hands on what it wrote', q, f'chunks obtained {[show(x) for x in got]}, handed on {[show(x) for x in handed]}', f.where, p)
        ctx.need('P06', n['open'], 2, f'{q}: open')
        ctx.need('P06', n['ret'], 1, f'{q}: return')
        if chained:
            ctx.need('P06', n['yield'], 1, 'chained')


def _reads(p):
    return [e for e in p.calls('read') if e.target[0] == 'file' or e.target[0] == 'entered']


@rule('P07')
def p07(ctx):
    """Every chunk a read hands on, per pass of its loop and per requested range (sizes and offsets as linear terms), and what every digest is fed, in which order, before it is asked for."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'data')
    q = ctx.short(f)
    for p in ctx.run(f, recv='core.LocalPath', raises='none', inline=('core.LocalPath._data',)):
        _stream(ctx, p, q, f, n, bounded=False)
    try:
        f = ctx.func('core.LocalPath', '_data')
    except AnalysisError:
        f = None
    if f is not None:
        q = ctx.short(f)
        R = P('ranges')
        for p in ctx.run(f, recv='core.LocalPath', raises='none', max_paths=200000):
            _stream(ctx, p, q, f, n, bounded=True)
            _ranges(ctx, p, q, f, n, R)
        ctx.need('P07', n['range'], 4, 'ranges')
        ctx.need('P07', n['seek'], 2, 'seeks')
    ctx.need('P07', n['yield'], 4, 'yields')
    # digests
    for name, args in (('checksum', {}), ('etag', {})):
        f = ctx.func('core.LocalPath', name)
        q = ctx.short(f)
        m = Counter()
        for p in ctx.run(f, recv='core.LocalPath', raises='none', max_paths=100000):
            _digest(ctx, p, q, f, m)
        ctx.need('P07', m['fed'], 1, f'{q}: fed')
        ctx.need('P07', m['digest'], 1, f'{q}: digest')
        if name == 'checksum':
            ctx.need('P07', m['extra'], 1, f'{q}: extra cyphers')
    for c in LOCALS + ('repo.RepoPath',):
        g = ctx.func(c, 'checksum')


def _stream(ctx, p, q, f, n, bounded):
    """each chunk read is handed on once, before the next is read; reading stops at end of file only"""
    opens = [e for e in p.effects('open', 'open-w')]
    for e in opens:
        ctx.check(e.name == 'open' and same(e.target, SELF) and (is_const(e.args[0]) and e.args[0][2] == 'rb'), 'reads the file', f'{q}: open',
                  f'opens {show(e.target)} {show(e.args[0])}', e.where, p)
    pend = None
    count = 0
    for x in p.items:
        if isinstance(x, Event) and x.kind == 'call' and x.name == 'read' and x.target[0] == 'file':
            if pend is not None and count == 0:
                _drop(ctx, p, q, pend, n)
            pend, count = x, 0
        elif isinstance(x, Event) and x.kind == 'yield':
            n['yield'] += 1
            v = x.args[0] if x.args else None
            if pend is None and v is not None and v[0] == 'elem' and v[1][0] == 'call' and v[1][1] == 'iter':
                ctx.check(v[1][2][1] == C(b''), 'until end of file', f'{q}: iter', 'stops at something else than end of file', x.where, p)
                continue
            ctx.check(pend is not None and v == pend.result, 'chunks once, in order', f'{q}: yield', f'hands on {show(v) if v else None}, which is not the chunk just read', x.where, p)
            count += 1
            ctx.check(count == 1, 'chunks once, in order', f'{q}: yield', 'hands a chunk on twice', x.where, p)
        elif isinstance(x, Event) and x.kind == 'call' and x.name == 'seek' and x.target[0] == 'file' and pend is not None:
            if count == 0:
                _drop(ctx, p, q, pend, n)
            pend, count = None, 0
    if pend is not None and count == 0:
        _drop(ctx, p, q, pend, n)
    if p.ret and not bounded:
        reads = [e for e in p.calls('read') if e.target[0] == 'file']
        if reads:
            last = reads[-1].result
            n['eof'] += 1
            ctx.check(p.holds(truthy(last)) is False or excluded(p.st, (truthy(last), True)), 'until end of file', f'{q}: loop', 'stops reading before the end of the file', f.where, p)
        else:
            its = [x for x in p.loops() if x[3] is not None and x[3][0] == 'call' and x[3][1] == 'iter']
            ctx.check(bool(its), 'until end of file', f'{q}: read', 'reads nothing', f.where, p)


def _drop(ctx, p, q, r, n):
    ctx.check(excluded(p.st, (truthy(r.result), True)) or p.holds(truthy(r.result)) is False, 'chunks once, in order', f'{q}: read',
              'a chunk that was read is not handed on', r.where, p)


def _ranges(ctx, p, q, f, n, R):
    """what is read for each requested range"""
    items = p.items
    rl = [i for i, x in enumerate(items) if isinstance(x, tuple) and x[0] == 'loop' and x[3] is not None and _core(x[3]) == R and x[2] in ('first', 'later')]
    segs = []
    for k, i in enumerate(rl):
        end = next((j for j in range(i + 1, len(items)) if isinstance(items[j], tuple) and items[j][0] == 'loop' and items[j][1] is items[i][1]), len(items))
        segs.append((items[i], items[i + 1:end]))
        if end < len(items):
            ctx.check(items[end][2] == 'end', 'every range', f'{q}: ranges', 'ranges after the first are skipped', f.where, p)
    whole = not rl
    if whole:
        if p.ret and p.holds(truthy(R)) is not False and not any(x[2] == 'zero' and _core(x[3]) == R for x in p.loops() if x[3] is not None):
            ctx.check(p.holds(truthy(R)) is False, 'every range', f'{q}: ranges', 'the ranges are not looked at', f.where, p)
        segs = [(None, items)]
    for mark, seg in segs:
        evs = [x for x in seg if isinstance(x, Event)]
        reads = [e for e in evs if e.name == 'read' and e.target[0] == 'file']
        seeks = [e for e in evs if e.name == 'seek' and e.target[0] == 'file']
        if not reads:
            if p.ret and (mark is not None or p.holds(truthy(R)) is False):
                ctx.check(False, 'every range', f'{q}: read', 'reads nothing' if mark is None else 'reads nothing for a range', f.where, p)
            continue
        if mark is not None:
            el = ('elem', mark[3], 0 if mark[2] == 'first' else 1)
            s, t = ('item', el, C(0)), ('item', el, C(1))
        else:
            s, t = C(0), NONE
        st = p.st
        n['range'] += 1
        sk = [e for e in seeks if seg.index(e) < seg.index(reads[0])]
        if whole and not sk:
            pass
        else:
            ctx.check(bool(sk) and sk[-1].args and sk[-1].args[0] == s, 'starts at the start', f'{q}: seek', 'does not go to the start of the range before reading', reads[0].where, p)
            ctx.check(not [e for e in seeks if e not in sk], 'starts at the start', f'{q}: seek', 'jumps while reading', reads[0].where, p)
            for e in sk[-1:]:
                n['seek'] += 1
                wh = e.args[1] if len(e.args) > 1 else e.kw.get('whence', C(0))
                wh = {('ext', 'os.SEEK_SET'): C(0), ('ext', 'os.SEEK_CUR'): C(1), ('ext', 'os.SEEK_END'): C(2)}.get(wh, wh)
                neg = e.st.holds(('lt', s, C(0)))
                if wh == C(2):
                    ctx.check(neg is True, 'starts at the start', f'{q}: whence', 'a start that is not negative is taken from the end', e.where, p)
                elif wh == C(0):
                    ctx.check(neg is not True and (neg is False or excluded(e.st, (('lt', s, C(0)), True))), 'starts at the start', f'{q}: whence', 'a negative start is not taken from the end', e.where, p)
                elif is_const(wh):
                    ctx.check(False, 'starts at the start', f'{q}: whence', f'seeks with whence {show(wh)}', e.where, p)
        open_end = st.holds(('isc', t, NONE)) if t != NONE else True
        if open_end is None:
            open_end = st.holds(('eq', t, NONE))
        last = reads[-1]
        if open_end:
            if p.ret:
                ctx.check(st.holds(truthy(last.result)) is False, 'open range to end of file', f'{q}: open range', 'stops before the end of the file', last.where, p)
            continue
        total = ('bin', 'Sub', t, s)
        ctx.check(_adds_up(seg, reads, total, st), 'bounded range', f'{q}: bounded range',
                  'the sizes read do not add up to end - start', last.where, p)


def _adds_up(seg, reads, total, st):
    """N * S + R == total for the shapes: one read, quotient loop and remainder, counted down with min()"""
    if any(x[0] == 'call' and x[1] == 'min' for r in reads for a in r.args for x in subterms(a)):
        return True
    inloop, out = [], []
    depth = []
    N = None
    for x in seg:
        if isinstance(x, tuple) and x[0] == 'loop':
            if x[2] in ('first', 'later'):
                depth.append(x)
                N = x[3]
            elif x[2] in ('end', 'break') and depth:
                depth.pop()
            elif x[2] == 'zero':
                N = x[3]
        elif isinstance(x, Event) and x.name == 'read' and x.target[0] == 'file':
            (inloop if depth else out).append(x)
    rs = {r.args[0] if r.args else None for r in out}
    if len(out) != 1 or None in rs:
        return False
    r = out[0].args[0]
    if N is None:
        return r == total
    if not (N[0] == 'call' and N[1] == 'range' and len(N[2]) == 1):
        return True                   # another way of counting: not judged
    cnt = N[2][0]
    if any(len(x.args) != 1 for x in inloop):
        return False
    sizes = {x.args[0] for x in inloop}
    passed = any(isinstance(x, tuple) and x[0] == 'loop' and x[2] in ('first', 'later') for x in seg)
    if len(sizes) > 1 or passed and not sizes:
        return False
    if is_const(cnt) and cnt != C(0):
        return False
    if cnt == C(0):
        return r == total
    if cnt[0] == 'item' and cnt[1][0] == 'call' and cnt[1][1] == 'divmod':
        d = cnt[1]
        return cnt[2] == C(0) and r == ('item', d, C(1)) and d[2][0] == total and (not sizes or sizes == {d[2][1]})
    if cnt[0] == 'bin' and cnt[1] == 'FloorDiv':
        S = cnt[3]
        return cnt[2] == total and (not sizes or sizes == {S}) and r in (('bin', 'Mod', total, S), ('bin', 'Sub', total, ('bin', 'Mult', cnt, S)), ('bin', 'Sub', total, ('bin', 'Mult', S, cnt)))
    return True


def _digest(ctx, p, q, f, m):
    data = A(SELF, 'data')
    items = p.items
    if p.rai:
        return
    digs = p.calls('digest', 'hexdigest')
    isf = p.st.fs('is_file', SELF)
    if not digs:
        ctx.check(p.val == NONE and isf is not True, 'digest', q, f'returns {show(p.val)} without a digest', f.where, p)
        return
    loops = [(i, x) for i, x in enumerate(items) if isinstance(x, tuple) and x[0] == 'loop' and x[3] is not None and mentions(x[3], data) and x[3] == data]
    ctx.check(bool(loops), 'every chunk', q, 'a digest is taken without reading the data', f.where, p)
    if not loops:
        return
    lastloop = max(i for i, x in loops)
    ctx.check(items[lastloop][2] in ('end', 'zero'), 'every chunk', q, 'stops before the last chunk', f.where, p)
    for d in digs:
        m['digest'] += 1
        ctx.check(items.index(d) > lastloop, 'digest last', q, 'a digest is taken before the last chunk', d.where, p)
    # main object: the target of the digest, or the first of the displayed ones
    M, X = None, None
    ex = P('extra_cyphers')
    v = p.val
    plain = [d.target for d in digs if not mentions(d.target, ex)]
    if v[0] == 'call' and v[1][0] == 'm':
        M = v[1][1]
    disp = [x for x in subterms(v) if x[0] in ('tup', 'list') and len(x) > 1 and isinstance(x[1], tuple) and len(x[1]) >= 2 and any(y[0] == 'star' for y in x[1])]
    if disp:
        first, rest = disp[0][1][0], disp[0][1][1:]
        M = first[1][1] if first[0] == 'call' and isinstance(first[1], tuple) and first[1][2] == 'digest' else first
        X = rest
        m['extra'] += 1
        ctx.check(not mentions(M, ex) and all(mentions(y, ex) for y in rest), 'main then extras', q, f'digests come back as {show(disp[0])}', f.where, p)
        ctx.check(p.holds(truthy(ex)) is not False, 'main then extras', q, 'a tuple without extra cyphers', f.where, p)
    elif mentions(v, ex) and M is None:
        return
    elif P('extra_cyphers') in [P(a.arg) for a in f.node.args.args + f.node.args.kwonlyargs] and p.holds(truthy(ex)) is not False:
        ctx.check(False, 'main then extras', q, 'the digests of the extra cyphers are not returned', f.where, p)
    if M is None:
        ctx.check(False, 'digest', q, f'returns {show(v)}', f.where, p)
        return
    ctx.check(M[0] in ('call', 'new') and not mentions(M, data), 'digest', q, f'the digest object is {show(M)}', f.where, p)
    for k, (i, x) in enumerate(loops):
        if x[2] not in ('first', 'later'):
            continue
        el = ('elem', data, 0 if x[2] == 'first' else 1)
        end = next((j for j, y in loops if j > i), len(items))
        seg = items[i:end]
        ups = [e for e in seg if isinstance(e, Event) and e.name == 'update']
        main = [e for e in ups if e.target == M]
        m['fed'] += 1
        ctx.check(len(main) == 1 and main[0].args[0] == el, 'every chunk', f'{q}: update', f'a chunk is fed {len(main)} times to the digest', f.where, p)
        if ex in [P(a.arg) for a in f.node.args.args + f.node.args.kwonlyargs]:
            inner = [y for y in seg if isinstance(y, tuple) and y[0] == 'loop' and y[3] is not None and mentions(y[3], ex)]
            iters = [y for y in inner if y[2] in ('first', 'later')]
            exu = [e for e in ups if mentions(e.target, ex)]
            if not inner:
                ctx.check(p.holds(truthy(ex)) is False or bool(exu), 'every chunk', f'{q}: extra', 'extra cyphers are not fed', f.where, p)
            else:
                ctx.check(len(exu) + len([e for e in ups if e.target == M and False]) >= len([y for y in iters]) - _main_in(iters, M), 'every chunk', f'{q}: extra', 'an extra cypher is not fed', f.where, p)
            for e in exu:
                ctx.check(e.args[0] == el, 'every chunk', f'{q}: extra', 'an extra cypher is fed something else', e.where, p)


def _main_in(iters, M):
    return sum(1 for y in iters if mentions(y[3], M))


# -------------------------------------------------------------------- swap ----
@rule('P08', configs=('linux-py3.12', 'darwin-py3.12'), thorough=('linux-py3.9', 'nt-py3.12'))
def p08(ctx):
    """Facts about both paths (exist, device) at the system call under each platform, the names and flag it is given, descriptors and the result of the call on every path."""
    T = P('target')
    f = ctx.func('core.LocalPath', 'swap')
    q = ctx.short(f)
    linux = ctx.config.platform == 'linux'
    n = Counter()
    for mode in ('none', 'all'):
        ps = ctx.run(f, recv='core.LocalPath', raises=mode, inline=('swap.*',))
        for p in ps:
            sysc = [e for e in p.attempts('value', 'syscall') if e.kind == 'call' and any(is_const(a) and a[2] == 316 for a in e.args[:1])]
            ctx.check(not p.muts(), 'one system call', q, 'changes the file system in another way', f.where, p)
            fds = [e for e in p.calls() if e.name == 'os.open']
            closed = [e.args[0] for e in p.attempts('os.close')]
            for e in fds:
                ctx.check(e.result in closed, 'no descriptor left', q, 'a descriptor is not closed', e.where, p)
            for e in sysc:
                n['call'] += 1
                st = e.st
                for who, x in (('self', SELF), ('target', T)):
                    ctx.check(st.fs('exists', x) is True, 'both exist', f'{q}: {who}', f'called although {who} may not exist', e.where, p)
                ctx.check(_same_dev(st, T), 'same device', q, 'called although the devices may differ', e.where, p)
                a = e.args
                if not ctx.check(len(a) == 6, 'system call', q, f'{len(a)} arguments', e.where, p):
                    continue
                ctx.check(a[5] == C(2), 'exchange flag', q, f'flags {show(a[5])}', e.where, p)
                for fd, nm, x, who in ((a[1], a[2], SELF, 'self'), (a[3], a[4], T, 'target')):
                    ctx.check(fd == C(-100) or mentions(nm, ('abs', x)), 'names resolved like the caller\'s', f'{q}: {who}',
                              f'{show(nm)} is resolved relative to descriptor {show(fd)}', e.where, p)
                    ctx.check(_name_of(nm) in (pid(x),), 'names resolved like the caller\'s', f'{q}: {who}', f'names {show(nm)}', e.where, p)
            ctx.check(len(sysc) <= 1, 'one system call', q, 'more than one call', f.where, p)
            if not linux:
                ctx.check(p.rai and not sysc, 'other systems', q, 'returns without having swapped', f.where, p)
                if p.st.fs('exists', SELF) and p.st.fs('exists', T) and _same_dev(p.st, T) and not p.failures:
                    n['ni'] += 1
                    ctx.check(p.exc_isa('NotImplementedError'), 'other systems', q, f'raises {show(p.val)}', f.where, p)
                continue
            if p.ret:
                n['ret'] += 1
                ok = sysc and (sysc[0].result is not None) and excluded(p.st, (('eq', sysc[0].result, C(0)), False))
                ctx.check(bool(ok), 'failure raises', q, 'returns although the call may have failed or was not made', f.where, p)
            elif sysc and not p.failures:
                n['fail'] += 1
                ctx.check(p.exc_isa('OSError') and not p.exc_isa('FileNotFoundError') or p.exc_isa('OSError'), 'failure raises', q, f'raises {show(p.val)}', f.where, p)
                ctx.check(excluded(p.st, (('eq', sysc[0].result, C(0)), True)), 'success returns', q, 'raises although the call succeeded', f.where, p)
            if not p.failures and not sysc:
                if p.st.fs('exists', SELF) is False or p.st.fs('exists', T) is False:
                    n['missing'] += 1
                    ctx.check(p.exc_isa('FileNotFoundError'), 'both exist', q, f'a missing path gives {show(p.val)}', f.where, p)
                elif p.rai:
                    n['dev'] += 1
                    ctx.check(p.exc_isa('ValueError'), 'same device', q, f'different devices give {show(p.val)}', f.where, p)
    if linux:
        for k in ('call', 'ret', 'fail', 'missing', 'dev'):
            ctx.need('P08', n[k], 1, k)
        _syscall_function(ctx)
    else:
        ctx.need('P08', n['ni'], 1, 'NotImplementedError')


def _syscall_function(ctx):
    """errno must be readable after the call, and the result compared must be the call's"""
    m = ctx.prog.modules['augpathlib.swap']
    for node in ast.walk(m.tree):
        if isinstance(node, ast.Call) and ast.unparse(node.func).endswith('CDLL'):
            kw = {k.arg: k.value for k in node.keywords}
            uses = any(isinstance(x, ast.Call) and ast.unparse(x.func).endswith('get_errno') for x in ast.walk(m.tree))
            ue = kw.get('use_errno')
            ctx.check(not uses or isinstance(ue, ast.Constant) and ue.value is True, 'failure raises', 'swap: libc', 'errno is read but not kept (use_errno)', f'{m.path}:{node.lineno}')


def _same_dev(st, T):
    for a, v in st.facts.items():
        if a[0] == 'eq' and v is True:
            s = {pid(x[1][1][1]) for x in a[1:] if x[0] == 'attr' and x[2] == 'st_dev' and x[1][0] == 'call' and isinstance(x[1][1], tuple) and x[1][1][2] in ('stat', 'lstat')}
            t = {pid(x[1][2][0]) for x in a[1:] if x[0] == 'attr' and x[2] == 'st_dev' and x[1][0] == 'call' and x[1][1] in ('os.stat', 'os.lstat') and x[1][2]}
            if s | t == {SELF, T}:
                return True
        if a[0] == 'call' and 'samefile' in str(a):
            pass
    return False


def _name_of(t):
    """the path a C string names: bytes(str(path)) stripped"""
    while True:
        if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] in ('encode', 'as_posix', '__bytes__', '__fspath__'):
            t = t[1][1]
        elif t[0] == 'call' and t[1] in ('bytes', 'os.fsencode', 'ctypes.c_char_p') and t[2]:
            t = t[2][0]
        else:
            return pid(t)


@rule('P09')
def p09(ctx):
    """Typestate of the two files over every failing step: which rename has happened, where each file is, what is removed and when."""
    T = P('target')
    f = ctx.func('core.LocalPath', 'swap_carefree')
    q = ctx.short(f)
    n = Counter()
    for p in ctx.run(f, recv='core.LocalPath', raises='all', exc_root='Exception'):
        acts = p.attempts('swap', 'rename', 'replace', 'rmdir', 'unlink', 'tempfile.mkdtemp', 'rmtree', 'move', 'copy', 'mkdir', 'symlink', 'link', 'write', 'open-w', 'touch',
                          'tempfile.TemporaryDirectory', 'tempfile.mktemp', 'tempfile.gettempdir', 'mkdtemp')
        if not ctx.check(bool(acts) and acts[0].name == 'swap' and same(acts[0].target, SELF) and acts[0].args[:1] == (T,), 'atomic first', q, 'the atomic swap is not tried first', f.where, p):
            continue
        n['swap'] += 1
        failed = p.failed(acts[0])
        if not failed:
            ctx.check(len(acts) == 1 and p.ret, 'fallback only on failure', q, 'goes on after a successful swap', f.where, p)
            continue
        dirs = [e for e in p.calls('tempfile.mkdtemp', 'tempfile.TemporaryDirectory')]
        rest = acts[1:]
        for e in rest:
            if e.name.startswith('tempfile.'):
                d = e.kw.get('dir') or (e.args[2] if len(e.args) > 2 else None)
                ctx.check(e.name in ('tempfile.mkdtemp', 'tempfile.TemporaryDirectory'), 'private directory', q, f'{e.name} is not a fresh private directory', e.where, p)
                ctx.check(d is not None and pid(d) in (('attr', T, 'parent'),), 'same file system', q, 'the temporary directory may be on another file system', e.where, p)
            elif e.name in ('rename', 'replace'):
                n['rename'] += 1
            elif e.name == 'rmdir':
                ctx.check(bool(dirs) and any(mentions(e.target, d.result) for d in dirs) and not same(e.target, SELF) and not same(e.target, T), 'removes only its directory', q, f'rmdir of {show(e.target)}', e.where, p)
            else:
                ctx.check(False, 'only renames', f'{q}: {e.name}', f'{e.name} of {show(e.target) if e.target else ""}', e.where, p)
        ren = [e for e in rest if e.name in ('rename', 'replace')]
        good = [e for e in ren if not p.failed(e)]
        tmp = lambda t: any(t is not None and mentions(t, d.result) for d in dirs)
        if p.ret:
            n['ok'] += 1
            shape = [(pid(e.target), pid(e.args[0])) for e in good]
            ok = len(shape) == 3 and shape[0][0] == T and tmp(shape[0][1]) and shape[1] == (SELF, T) and shape[2][0] == shape[0][1] and shape[2][1] == SELF
            ctx.check(ok and len(good) == len(ren), 'three renames', q, f'renames {[(show(a), show(b)) for a, b in shape]}', f.where, p)
            rm = [e for e in rest if e.name == 'rmdir']
            ctx.check(len(rm) == 1 and (not good or p.items.index(rm[0]) > p.items.index(good[-1])) or any(d.name != 'tempfile.mkdtemp' for d in dirs), 'directory removed', q, 'the temporary directory is not removed', f.where, p)
        fails = [e for e in ren if p.failed(e)]
        if fails:
            n['failing'] += 1
            ctx.check(p.rai, 'failure reported', q, 'a failing rename is not reported', f.where, p)
            e = fails[0]
            if pid(e.target) == SELF and pid(e.args[0]) == T:
                back = [x for x in ren if tmp(x.target) and pid(x.args[0]) == T]
                ctx.check(bool(back), 'loses neither', q, 'target is left in the temporary directory when self can not be renamed', e.where, p)
            inside = sum(tmp(x.args[0]) for x in good) - sum(tmp(x.target) for x in good)
            if dirs and not inside and dirs[0].name == 'tempfile.mkdtemp':
                n['empty'] += 1
                ctx.check(any(x.name == 'rmdir' for x in rest), 'directory removed', q, 'an empty temporary directory is left', e.where, p)
        elif p.failures[1:] if failed else p.failures:
            ctx.check(p.rai, 'failure reported', q, 'a failing step is not reported', f.where, p)
    for k in ('swap', 'ok', 'failing'):
        ctx.need('P09', n[k], 1, k)


# --------------------------------------------------------- working directory --
def _rec_value(v):
    """records of the working directory inside a stored value, and whether it is the last of a list"""
    return [x for x in subterms(v) if x[0] == 'cwd']


@rule('P10')
def p10(ctx):
    """Every exit of entering, leaving, pushd and popd, with the directory changed to traced back to where it was read; index terms of the directory stack."""
    n = Counter()
    seen = {}
    for c in ('core.LocalPath', 'repo.RepoPath', 'caches.PrimaryCache', 'caches.SshCache', 'zip.ZipPath'):
        f = ctx.func(c, '__enter__')
        g = ctx.func(c, '__exit__')
        if (f.qual, g.qual) in seen:
            continue
        seen[f.qual, g.qual] = c
        q = ctx.short(f)
        names = set()
        for p in ctx.run(f, recv=c, raises='all', inline=('core.AugmentedPath.__enter__',)):
            ch = p.effects('chdir')
            if p.ret and ch:
                n['enter'] += 1
                ctx.check(len(ch) == 1 and same(ch[0].target, SELF), 'enters itself', q, f'changes into {show(ch[0].target)}', ch[0].where, p)
                recs = []
                for e in p.evs():
                    if e.kind == 'store' and same(e.target, SELF) and _rec_value(e.args[0]):
                        recs.append((e.name, e.args[0], e))
                    elif e.kind == 'call' and e.name == 'append' and e.args and _rec_value(e.args[0]):
                        t = e.target
                        nm = t[2] if t[0] == 'attr' else next((x.name for x in p.evs('store') if same(x.target, SELF) and x.args[0] == t), None)
                        recs.append((nm, ('list', (('star', t), e.args[0])), e))
                if not ctx.check(bool(recs), 'records where it was', q, 'the directory current on entry is not recorded', f.where, p):
                    continue
                for nm, v, e in recs:
                    names.add(nm)
                    ctx.check(_rec_value(v) == [('cwd', 0)], 'records where it was', q, 'what is recorded is not the directory current on entry', e.where, p)
                    stacked = v[0] in ('list', 'tup') and v[1][-1:] == (('cwd', 0),) and (len(v[1]) > 1 or p.st.holds(('hasattr', SELF, nm)) is False or
                                                                                           p.st.holds(truthy(A(SELF, nm))) is False)
                    if v[0] in ('list', 'tup') and v[1] == (('cwd', 0),) and not stacked:
                        stacked = False
                    if v[0] == 'bin' and v[1] == 'Add' and v[3][0] in ('list', 'tup') and v[3][1][-1:] == (('cwd', 0),):
                        stacked = True
                    ctx.check(stacked, 'nested entries', q, 'entering again forgets where the outer context was entered from', e.where, p)
                ctx.check(same(p.val, SELF), 'returns itself', q, f'returns {show(p.val)}', f.where, p)
            elif p.ret:
                ctx.check(p.st.fs('is_dir', SELF) is False, 'enters itself', q, 'a directory is not entered', f.where, p)
            else:
                ctx.check(not [e for e in p.evs('store') if _rec_value(e.args[0])] or bool(ch), 'records where it was', q, 'recorded although the directory was not entered', f.where, p)
        q = ctx.short(g)
        ctx.need('P10', len(names), 1, f'{c}: the record of the directory')
        ctx.check(len(names) == 1, 'one record', q, f'recorded as {names}')
        nm = sorted(names, key=str)[0]
        rec = A(SELF, nm)
        for p in ctx.run(g, recv=c, raises='all', inline=('core.AugmentedPath.__exit__',)):
            ch = p.attempts('chdir')
            if ch:
                n['exit'] += 1
                t = ch[0].target
                ok = t[0] == 'call' and t[1] == ('m', rec, 'pop') and t[2] in ((), (C(-1),)) or t == ('item', rec, C(-1))
                if t[0] == 'item':
                    ok = ok and any(e.name in ('pop', 'delitem') for e in p.evs()) or ok and any(e.kind in ('del', 'delitem', 'setitem', 'store') for e in p.evs())
                ctx.check(ok and len(ch) == 1, 'goes back', q, f'changes back to {show(t)}', ch[0].where, p)
                if p.ret:
                    ctx.check(p.val in (NONE, FALSE), 'never swallows', q, f'returns {show(p.val)}', g.where, p)
            elif p.ret:
                gone = p.holds(('hasattr', SELF, nm)) is False or excluded(p.st, (truthy(rec), True)) or p.holds(truthy(rec)) is False
                ctx.check(gone, 'goes back', q, 'leaves without going back', g.where, p)
                ctx.check(p.val in (NONE, FALSE) or p.val[0] == 'call' and p.val[1][2] == '__exit__', 'never swallows', q, f'returns {show(p.val)}', g.where, p)
    ctx.need('P10', n['enter'], 2, 'enter')
    ctx.need('P10', n['exit'], 1, 'exit')
    # pushd and popd
    f = ctx.func('core.LocalPath', 'pushd')
    q = ctx.short(f)
    stack = None
    for p in ctx.run(f, recv='core.LocalPath', raises='all'):
        ch = p.attempts('chdir')
        ap = [e for e in p.calls('append', 'insert', 'extend') if any(_rec_value(a) for a in e.args)]
        if ch:
            n['pushd'] += 1
            ctx.check(len(ap) == 1 and ap[0].name == 'append' and ap[0].args == (('cwd', 0),), 'records first', q, 'the current directory is not recorded before changing', f.where, p)
            if ap:
                stack = ap[0].target
            ctx.check(len(ch) == 1 and same(ch[0].target, SELF) and ch[0].st.fs('is_dir', SELF) is True, 'directories only', q, 'changes into something else', f.where, p)
        else:
            ctx.check(p.rai and not ap, 'directories only', q, 'something that is no directory is recorded or ignored', f.where, p)
            if not p.failures:
                ctx.check(p.exc_isa('NotADirectoryError'), 'directories only', q, f'raises {show(p.val)}', f.where, p)
    ctx.need('P10', n['pushd'], 1, 'pushd')
    f = ctx.func('core.LocalPath', 'popd')
    q = ctx.short(f)
    pn = P(f.node.args.args[0].arg)
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        pops = [e for e in p.calls('pop')]
        ch = p.effects('chdir')
        if pops:
            n['popd'] += 1
            e = pops[0]
            ctx.check(stack is None or e.target == stack, 'same stack', q, f'pops {show(e.target)}', e.where, p)
            ctx.check(e.st.holds(truthy(e.target)) is True or excluded(e.st, (truthy(e.target), False)), 'empty stack', q, 'an empty stack is popped', e.where, p)
            try:
                vals = [intval(e.args[0], {pn: k}) if e.args else -1 for k in range(4)]
                fine = vals == [-1, -2, -3, -4]
                if not fine:
                    ln = ('len', e.target)
                    fine = all(intval(e.args[0], {pn: k, ln: 9}) == 8 - k for k in range(4))
            except KeyError:
                try:
                    ln = ('len', e.target)
                    fine = all(intval(e.args[0], {pn: k, ln: 9}) == 8 - k for k in range(4))
                except KeyError:
                    fine = False
            ctx.check(fine, 'N-th from the top', q, f'removes entry {show(e.args[0]) if e.args else "-1"}', e.where, p)
            ctx.check(len(pops) == 1 and len(ch) == 1 and ch[0].target == e.result, 'changes to that entry', q, f'changes to {show(ch[0].target) if ch else None}', e.where, p)
            ctx.check(p.ret and p.val == e.result, 'returns it', q, f'returns {show(p.val)}', f.where, p)
        else:
            ctx.check(not ch and p.ret, 'empty stack', q, 'an empty stack changes something', f.where, p)
    ctx.need('P10', n['popd'], 1, 'popd')
