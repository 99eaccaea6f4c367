"""Rules about remotes as values, recursive bootstrap, children, access, links, roots and arguments of other programs."""
import ast
from ctx import *
from interp import sources, State
from model import Class, Func
from consts import value, possible, Open, Fails
from rules_caches import own, at, is_absolute
from rules_remotes import RP, SSHR, CP, commands, pieces


def elem_of(t):
    """the iterable an element is taken from"""
    return t[1] if t[0] == 'elem' else None


def passes(p):
    """[(loop node, iterable, [what happens in one pass])] of every pass over a loop"""
    out, stack = [], []
    for x in p.items:
        if isinstance(x, tuple) and x and x[0] == 'loop':
            if x[2] in ('first', 'later'):
                stack.append((x[1], x[3] if len(x) > 3 else None, []))
                continue
            if x[2] in ('end', 'break', 'exit') and stack and stack[-1][0] is x[1]:
                out.append(stack.pop())
                continue
        for s in stack:
            s[2].append(x)
    return out + stack[::-1]


def yields(items):
    return [x for x in items if isinstance(x, Event) and x.kind == 'yield']


# -- remotes as values ---------------------------------------------------------------------------
@rule('P67')
def p67(ctx):
    """Truth of the comparison for equal and different ids on every path, the attributes the hash reads, and the method resolution order of every
    class of remotes (a class that only defines __eq__ is not hashable)."""
    n = Counter()
    base = ctx.prog.cls(RP)
    for c in sorted((c for c in ctx.prog.classes.values() if c.isa(base)), key=lambda c: c.qual):
        n['class'] += 1
        for k in c.mro():
            if not isinstance(k, Class):
                continue
            if '__hash__' in k.attrs:
                break
            if '__eq__' in k.attrs:
                ctx.check(False, 'remotes can be members of sets', f'{c.qual.partition(".")[2]}', f'{k.name} defines __eq__ and no __hash__', f'{k.qual}')
                break
        n['hash'] += 1
    O = P('other')
    for recv in (RP, SSHR):
        eq = ctx.func(recv, '__eq__')
        mine, theirs = A(SELF, 'id'), A(O, 'id')
        for name in ('__eq__', '__ne__'):
            owner, v = ctx.recv(recv).lookup(name)
            if not isinstance(v, Func):
                continue                     # object answers the opposite of __eq__
            f = ctx.func(recv, name)
            q = ctx.short(f)
            for p in ctx.run(f, recv=recv, raises='none', types={'other': RP}, opaque=('remotes.RemotePath.id', 'remotes.SshRemote.id'), inline=(ctx.short(eq),)):
                if p.rai or p.kind not in ('return', 'ret') and not p.ret:
                    ctx.check(False, 'equal if and only if the ids are', q, f'{p.kind} {show(p.val)}', f.where, p)
                    continue
                nothing = p.holds(truthy(O)) is False or p.holds(('isc', O, NONE)) is True
                same_ = p.holds(('is', SELF, O)) is True or p.holds(('isc', SELF, O)) is True
                foreign_ = any(a[0] == 'isinst' and v_ is False for a, v_ in p.facts())
                for v_ in (True, False):
                    if same_ and not v_:
                        continue
                    pairs = (eqat(mine, theirs), v_), (eqat(SELF, O), v_)
                    t = truth_under(p.st, p.val, pairs)
                    if t == 'contradiction' or excluded(p.st, *pairs):
                        continue
                    n['answer'] += 1
                    want = (False if nothing or foreign_ else v_) if name == '__eq__' else (True if nothing or foreign_ else not v_)
                    if foreign_ and 'NotImplemented' in repr(p.val):
                        continue
                    ctx.check(t is want, 'equal if and only if the ids are', q, f'{"ids are the same" if v_ else "ids differ"}{" (nothing to compare to)" if nothing else ""}: gives {show(p.val)}', f.where, p)
        owner, h = ctx.recv(recv).lookup('__hash__')
        if isinstance(h, Func):
            f = ctx.func(recv, '__hash__')
            q = ctx.short(f)
            for p in ctx.run(f, recv=recv, raises='none', opaque=('remotes.RemotePath.id', 'remotes.SshRemote.id')):
                if not p.ret:
                    continue
                n['hashed'] += 1
                reads = {x[2] for x in subterms(p.val) if x[0] == 'attr' and x[1] == SELF}
                ctx.check(reads <= {'id'} and SELF not in [y for x in subterms(p.val) if x[0] == 'call' for y in x[2]], 'the hash is that of the id', q, f'gives {show(p.val)}', f.where, p)
    for k in ('class', 'hash', 'answer', 'hashed'):
        ctx.need('P67', n[k], 2, k)


def unlisted(x):
    """what is left of folders when those that the remote lists are taken away"""
    if x[0] == 'bin' and x[1] == 'Sub':
        return 'as_path' in repr(x[3])
    return x[0] == 'call' and isinstance(x[1], tuple) and x[1][2] == 'difference' and 'as_path' in repr(x[2])


# -- recursive bootstrap ----------------------------------------------------------------------------
@rule('P68')
def p68(ctx):
    """What one pass over the children of the remote gives away, on every path; which children the selection leaves out at every combination of
    what they may be; how often the listing (which can be read once) is read; which local folders are asked for again."""
    n = Counter()
    f = ctx.func(CP, '_bootstrap_recursive')
    q = ctx.short(f)
    SP = P('sparse')

    def listing(t):
        return t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in ('_rchildren', 'rchildren')

    def peel(t):
        """-> (the listing, conditions of the selections on the way, is anything read more than once possible)"""
        conds = []
        while True:
            if t[0] == 'comp' and t[2][0] == 'elem':
                conds += [(c, t[2]) for c in t[4]]
                t = t[3]
            elif t[0] == 'call' and t[1] in ('list', 'sorted', 'tuple', 'iter', 'reversed') and t[2]:
                t = t[2][0]
            elif t[0] == 'call' and t[1] == 'filter' and len(t[2]) == 2:
                return t, None
            else:
                return t, conds

    def included(c, st, sparse):
        """[(facts about the child, is it to be bootstrapped)]"""
        d, i = fsat('is_dir', c), fsat('is_file', c)
        for dv in (True, False):
            for iv in (True, False):
                if dv and iv:
                    continue
                for sv in (True, False):
                    yield d, dv, i, iv, sv, dv or iv and sv

    def sees(st, cond, c, dv, iv, sv):
        """truth of a condition about a child"""
        if cond[0] in ('b', 'truthy'):
            return sees(st, cond[1], c, dv, iv, sv)
        if cond[0] == 'not':
            v = sees(st, cond[1], c, dv, iv, sv)
            return None if v is None else not v
        if cond[0] in ('and', 'or'):
            vs = [sees(st, x, c, dv, iv, sv) for x in cond[1]]
            if cond[0] == 'and':
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if cond[0] == 'fs' and cond[2] == pid(c):
            return {'is_dir': dv, 'is_file': iv}.get(cond[1])
        if cond[0] == 'call' and isinstance(cond[1], tuple) and cond[1][1] == c:
            return {'_sparse_include': sv, 'is_dir': dv, 'is_file': iv}.get(cond[1][2])
        if cond == SP or cond == truthy(SP):
            return st.holds(truthy(SP))
        return st.holds(cond) if cond[0] in ('eq', 'isc', 'is', 'lt', 'in', 'hasattr') else None

    def told(p, child, got):
        facts = p.facts()
        file = [(a, v) for a, v in facts if a[0] == 'fs' and a[1] == 'is_file' and a[2] == pid(child)]
        return file

    LR = A(SELF, 'local', 'rchildren')

    def local(t):
        """-> conditions on the local paths, or None"""
        if t[0] == 'comp' and t[2][0] != 'elem':
            els = [x for x in subterms(t[2]) if x[0] == 'elem' and local(x[1]) is not None]
            return [(c, els[0]) for c in t[4]] + local(t[3]) if els and local(t[3]) is not None else None
        t, conds = peel(t)
        return conds if conds is not None and LR in (t, pid(t)) else None

    def what(conds, isdir, isfile, link):
        """is a local path (folder, file, link to nothing) selected: True, False, None"""
        def val(c, el):
            if c[0] in ('b', 'truthy'):
                return val(c[1], el)
            if c[0] == 'not':
                v = val(c[1], el)
                return None if v is None else not v
            if c[0] in ('and', 'or'):
                vs = [val(x, el) for x in c[1]]
                if c[0] == 'and':
                    return False if False in vs else None if None in vs else True
                return True if True in vs else None if None in vs else False
            k = c[1] if c[0] == 'fs' and c[2] in (el, pid(el)) else c[1][2] if c[0] == 'call' and isinstance(c[1], tuple) and c[1][1] == el else None
            return {'is_dir': isdir, 'is_file': isfile, 'exists': isdir or isfile, 'is_broken_symlink': link, 'is_symlink': None if isdir or isfile else link}.get(k)
        vs = [val(c, el) for c, el in conds]
        return False if False in vs else None if None in vs else True

    def kept_index(x, y, p):
        if x[0] != 'comp' or x[1] != 'dict' or x[2][0] != 'kv':
            return
        el = x[2][2]
        if el[0] != 'elem':
            return
        conds = local(el)
        conds = None if conds is None else conds
        if conds is None:
            conds = local(('comp', 'list', el, el[1], x[4]))
        if conds is None:
            return
        n['index'] += 1
        ctx.check(x[2][1] in (A(el, 'cache_id'), A(el, 'cache', 'id'), A(el, 'cache', 'meta', 'id')), 'kept only when the id is the same', q, f'local files are looked up by {show(x[2][1])}', y.where, p)
        for name, at_ in (('file', (False, True, False)), ('metadata link', (False, False, True))):
            ctx.check(what(conds, *at_) is not False, 'a local file with the same id is kept', q, f'a {name} is not looked at', y.where, p)
        ctx.check(what(conds, True, False, False) is not True, 'a local file with the same id is kept', q, 'folders are looked at', y.where, p)

    for p in ctx.run(f, recv=CP, raises='none', max_paths=200000, opaque=('core.AugmentedPath.is_broken_symlink',)):
        n['path'] += 1
        lists = [e for e in p.evs('call') if e.name in ('_rchildren', 'rchildren')]
        for e in lists:
            if e.target != A(SELF, 'remote'):
                continue
            n['listing'] += 1
            ctx.check(e.kw.get('create_cache', e.args[0] if e.args else TRUE) == FALSE, 'nothing is made while listing', q, 'the remote is not told to leave caches alone', e.where, p)
            ctx.check(e.kw.get('sparse', e.args[1] if len(e.args) > 1 else FALSE) == SP, 'the remote lists what is asked for', q, f'sparse={show(e.kw.get("sparse", FALSE))}', e.where, p)
        sparse = p.holds(truthy(SP))
        # the listing is read once
        raw = {e.result for e in lists}
        reads = set()
        for x in p.items:
            ts = list(x.args) + [x.target] if isinstance(x, Event) else [y for y in x if isinstance(y, tuple)]
            for t in ts:
                for y in subterms(t) if t is not None else ():
                    if y[0] == 'comp' and y[3] in raw:
                        reads.add(y)
                    if y[0] == 'call' and y[1] in ('list', 'sorted', 'set', 'tuple') and y[2] and y[2][0] in raw:
                        reads.add(('call', y[1], y[2][:1]))
        for x in p.loops():
            if x[3] in raw and not any(y[0] == 'call' for y in reads):
                reads.add(('loop', x[1].lineno))
        ctx.check(len(reads) <= 1, 'the listing is read once', q, f'the listing of the remote is read {len(reads)} times and gives nothing but the first time', f.where, p)
        for node, it, items in passes(p):
            if it is None:
                continue
            src, conds = peel(it)
            if src not in raw:
                continue
            n['pass'] += 1
            ys = yields(items)
            if any(isinstance(x, Event) and x.kind == 'call' and x.name in ('extend', 'append', 'add') for x in items) and not ys:
                continue
            elems = [t for x in items for t in ((list(x.args) + [x.target]) if isinstance(x, Event) else [x[1]] if x[0] == 'fact' else []) if t is not None
                     for t in subterms(t) if t[0] == 'elem' and (t[1] == it or t[1] == src)]
            if not elems:
                ctx.check(False, 'every child is accounted for once', q, 'nothing is done with a child of the remote', f.where, p)
                continue
            child = elems[0]
            if conds is not None and sparse is not None:
                for c, el in conds:
                    for d, dv, i, iv, sv, inc in included(el, p.st, sparse):
                        v = sees(p.st, c, el, dv, iv, sv)
                        n['selection'] += 1
                        ctx.check(v is not False or sparse and not inc, 'only what is not sparse is left out', q,
                                  f'leaves out a {"folder" if dv else "file" if iv else "child"}{" that is included" if sv else ""}', f.where, p)
            here = [x for x in items if isinstance(x, tuple) and x[0] == 'fact']
            if sparse and ys:
                ask = [x for x in here if x[1][0] == 'truthy' and '_sparse_include' in repr(x[1][1][1])]
                for d, dv, i, iv, sv, inc in included(child, p.st, True):
                    if inc or any(x[1][0] == 'fs' and x[1][2] == pid(child) and {'is_dir': dv, 'is_file': iv}.get(x[1][1], x[2]) is not x[2] for x in here) or any(x[2] is not sv for x in ask):
                        continue
                    n['left out'] += 1
                    ctx.check(conds is None or any(sees(p.st, c, el, dv, iv, sv) is not True for c, el in conds), 'what is not sparse is left out', q, 'gives a file that is not included in a sparse bootstrap', f.where, p)

            def holds(a):
                for x in here:
                    if x[1] == a:
                        return x[2]
                return p.holds(a)
            dirv = next((x[2] for x in here if x[1][0] == 'fs' and x[1][1] == 'is_dir' and x[1][2] == pid(child)), None)
            filv = next((x[2] for x in here if x[1][0] == 'fs' and x[1][1] == 'is_file' and x[1][2] == pid(child)), None)
            incv = next((x[2] for x in here if x[1][0] == 'truthy' and '_sparse_include' in repr(x[1][1][1])), None)
            if not ys:
                out = sparse and dirv is False and (filv is False or incv is False)
                ctx.check(bool(out), 'every child is accounted for once', q, 'a child of the remote is passed over', f.where, p)
                continue
            ctx.check(len(ys) == 1, 'every child is accounted for once', q, f'{len(ys)} caches for one child', f.where, p)
            for y in ys:
                v = y.args[0] if y.args else NONE
                n['given'] += 1
                cache = A(child, 'cache')
                none = holds(('isc', cache, NONE))
                if v == cache:
                    n['has'] += 1
                    ctx.check(none is False or holds(truthy(cache)) is True, 'a child has a cache afterwards', q, 'gives what may be no cache', y.where, p)
                elif v[0] == 'call' and isinstance(v[1], tuple) and v[1][2] == 'cache_init' and v[1][1] == child:
                    n['new'] += 1
                    ctx.check(none is True or holds(truthy(cache)) is False, 'only what has no cache gets one', q, 'a cache is made for a child that may have one', y.where, p)
                elif contains(v, A(SELF, 'local')) or 'file_index' in repr(v):
                    n['kept'] += 1
                    ctx.check(contains(v, A(child, 'id')), 'kept only when the id is the same', q, f'gives {show(v)}', y.where, p)
                    index = {x[1] for x in subterms(v) if x[0] == 'item' and x[2] == A(child, 'id')}
                    for x in index:
                        ctx.check(any(a[0] == 'in' and a[1] == A(child, 'id') and a[2] == x and v_ for a, v_ in p.facts()), 'kept only when the id is the same', q, 'looks up an id that may not be there', y.where, p)
                        kept_index(x, y, p)
                    ctx.check(filv is True, 'kept only when it is a file', q, 'kept although the child may not be a file', y.where, p)
                    same_ = [x for x in here if x[1][0] == 'truthy' and '_update_meta' in repr(x[1]) and x[2] is False]
                    ctx.check(bool(same_), 'kept only when nothing changed', q, 'kept although the remote may have other contents', y.where, p)
                    ms = [e for e in items if isinstance(e, Event) and e.name == '_update_meta']
                    ctx.check(any(tuple(e.args[:2]) == (A(v, 'meta'), A(child, 'meta')) for e in ms), 'kept only when nothing changed', q, 'the metadata compared is not that of the two', y.where, p)
                    ctx.check(none is True or holds(truthy(cache)) is False, 'kept only when nothing changed', q, 'the old cache is given although there is one for the child', y.where, p)
                else:
                    ctx.check(False, 'the cache of the child', q, f'gives {show(v)[:200]}', y.where, p)
        for e in p.evs('call', 'refresh'):
            n['refresh'] += 1
            t = e.target
            known = p.holds(('isc', t, NONE)) is False or p.holds(truthy(t)) is True or any(a[0] in ('isc', 'eq') and a[1] == t and a[2] == NONE and v is False for a, v in p.facts())
            ctx.check(bool(known), 'only folders the remote knew are asked for', q, 'asks for a folder without metadata', e.where, p)
            outer = max((x for x in subterms(t) if x[0] == 'elem'), key=lambda x: len(repr(x)), default=None)
            its = sources(outer[1]) if outer is not None else []
            ok = bool(its) and all(any(unlisted(y) for y in subterms(s)) for s in its)
            for s in {y for z in [t, *its] for y in subterms(z) if y[0] == 'comp'}:
                conds = local(s)
                if conds is not None:
                    n['folders'] += 1
                    ctx.check(what(conds, False, True, False) is not True, 'only folders are asked for', q, 'files are taken for folders', e.where, p)
            notin = any(a[0] == 'in' and v is False and 'as_path' in repr(a[2]) for a, v in p.facts())
            ctx.check(ok or notin, 'only folders the remote does not list are asked for', q, f'asks for {show(t)[:150]}', e.where, p)
    for k in ('path', 'listing', 'pass', 'given', 'has', 'new', 'kept', 'refresh'):
        ctx.need('P68', n[k], 1, k)


# -- access ------------------------------------------------------------------------------------------
@rule('P70', configs=('linux-py3.12', 'nt-py3.12'))
def p70(ctx):
    """Constant propagation of every mode, and of things that are none, through the conditions and into the call of access(2)."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'access')
    q = ctx.short(f)
    MODES = {'read': 4, 'write': 2, 'execute': 1, 4: 4, 2: 2, 1: 1}
    paths = ctx.run(f, recv='core.LocalPath', raises='none')
    for mode in (*MODES, 'x', '', 'rw', 'Read', 8, 7, None):
        def look(t, mode=mode):
            if t == P('mode'):
                return (mode,)
            if t[0] == 'ext' and t[1] in ('os.R_OK', 'os.W_OK', 'os.X_OK'):
                return ({'R': 4, 'W': 2, 'X': 1}[t[1][3]],)
        live = [p for p in paths if possible(p.facts(), look) is not False]
        ctx.check(bool(live), 'every mode is answered', q, f'nothing happens for {mode!r}', f.where)
        for p in live:
            n['mode'] += 1
            es = [e for e in p.evs('call') + p.effects() if (e.name or '').rpartition('.')[2] == 'access' and e.target != SELF]
            if mode not in MODES:
                ctx.check(p.rai and not es and (mode is None or p.exc_isa('TypeError') or p.exc_isa('ValueError')), 'other modes are errors', q, f'{mode!r} is taken for a mode', f.where, p)
                continue
            if not ctx.check(len(es) == 1 and p.ret and p.val == es[0].result or p.ret and p.val[0] == 'call' and p.val[1] == 'os.access', 'every mode is answered', q, f'{p.kind} {show(p.val)} for {mode!r}', f.where, p):
                continue
            e = es[0]
            try:
                got = value(e.args[1] if len(e.args) > 1 else e.kw['mode'], look)
            except (Open, Fails, KeyError):
                got = None
            n['asked'] += 1
            ctx.check(got == MODES[mode], 'the access asked for', q, f'asks for {got} instead of {mode!r}', e.where, p)
            ctx.check(e.kw.get('follow_symlinks') == P('follow_symlinks'), 'links are followed when asked', q, f'follow_symlinks={show(e.kw.get("follow_symlinks", TRUE))}', e.where, p)
            ctx.check(bool(e.args) and pid(e.args[0]) == pid(SELF), 'of the path itself', q, f'asks about {show(e.args[0]) if e.args else "nothing"}', e.where, p)
            ctx.check(not e.kw.get('effective_ids') or e.kw['effective_ids'] == FALSE, 'the access asked for', q, 'asks for another user', e.where, p)
    ctx.need('P70', n['asked'], 6, 'modes')


# -- links and the name they were made for --------------------------------------------------------------
@rule('P71')
def p71(ctx):
    """Guards of every metadata taken from a link: read from the link itself, without the recorded name, and only when that name is the one of the link."""
    n = Counter()
    f = ctx.func('meta._PathMetaAsSymlink', 'from_symlink')
    q = ctx.short(f)
    X, M = P('symlink_path'), P('match_name')
    for p in ctx.run(f, recv='meta._PathMetaAsSymlink', raises='none'):
        n['path'] += 1
        for e in p.evs('call', 'readlink') + [x for x in p.evs('call') if x.name == 'os.readlink']:
            n['read'] += 1
            whose = e.args[0] if e.name == 'os.readlink' else e.target
            ctx.check(pid(whose) == pid(X), 'the link itself is read', q, f'reads {show(whose)}', e.where, p)
            if e.name == 'readlink' and whose == X:
                ctx.check(e.kw.get('raw', e.args[0] if e.args else FALSE) == TRUE, 'the link itself is read', q, 'what the link says is interpreted as a path of its kind', e.where, p)
        for bad in ('resolve', 'stat', 'open'):
            for e in p.evs('call', bad):
                if e.target is not None and contains(e.target, X):
                    ctx.check(False, 'the link itself is read', q, f'{bad} follows the link', e.where, p)
        named = [(a, v) for a, v in p.facts() if a[0] == 'eq' and A(X, 'name') in a[1:]]
        parts_ = [(a, v) for a, v in p.facts() if a[0] in ('eq', 'lt') and any(y[0] == 'len' for y in subterms(a))]
        wants = p.holds(truthy(M))
        if p.ret:
            n['taken'] += 1
            old = any(a[0] == 'eq' and v for a, v in parts_) or any(a[0] == 'lt' for a, v in parts_) and not named
            ok = wants is False or any(v for a, v in named) or old and not named
            ctx.check(ok, 'only the metadata of this name', q, 'a link made for another name is taken', f.where, p)
            es = p.calls('from_parts')
            if es and es[-1].args:
                arg = es[-1].args[0]
                whole = arg[0] == 'tup' or not any(x[0] == 'slice' for x in subterms(arg))
                ctx.check(whole == bool(old), 'without the recorded name', q, f'reads {show(arg)[:120]}', es[-1].where, p)
            ctx.check(bool(es) and p.val == es[-1].result or 'from_parts' in repr(p.val) or 'pathmetaclass' in repr(p.val), 'the metadata of the link', q, f'gives {show(p.val)[:120]}', f.where, p)
        elif p.rai and any(v is False for a, v in named):
            n['refused'] += 1
            ctx.check(p.exc in ('CircularSymlinkNameError', 'FileNotFoundError'), 'another name is refused', q, f'{p.kind} {p.exc}', f.where, p)
            ctx.check(wants is True, 'another name is refused only when asked', q, 'refused although the name does not have to match', f.where, p)
            if p.exc == 'FileNotFoundError':
                n['case'] += 1
                there = [a for a, v in p.facts() if a[0] == 'fs' and a[1] in ('exists', 'lexists', 'is_dir') and v]
                cases = {'upper' if "'upper'" in repr(a[2]) else 'lower' if "'lower'" in repr(a[2]) else 'swap' if "'swapcase'" in repr(a[2]) else '-' for a in there}
                ctx.check(len(cases) >= 2 or 'swap' in cases, 'missing only where case does not matter', q, 'a link with another name is taken for missing', f.where, p)
    for k, m in (('path', 3), ('read', 1), ('taken', 2), ('refused', 1)):
        ctx.need('P71', n[k], m, k)


# -- the root of a cache -----------------------------------------------------------------------------------
@rule('P72')
def p72(ctx):
    """Facts known of whatever is given as the root on every path: it had a cache, is not the root of the file system, was met on the way up
    from an absolute path, and the way up was gone to its end or to an error."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'find_cache_root')
    q = ctx.short(f)
    FAIL = P('fail')

    def starts(t):
        """the paths from which an iterable of parents goes up"""
        if t[0] == 'call' and str(t[1]).rpartition('.')[2] == 'chain':
            return [y for x in t[2] for y in starts(x)]
        if t[0] in ('tup', 'list'):
            return [x[1] if x[0] == 'star' else x for x in t[1] if x[0] != 'star'] + [y for x in t[1] if x[0] == 'star' for y in starts(x[1])]
        if t[0] == 'attr' and t[2] == 'parents':
            return [t[1]]
        if t[0] == 'bin' and t[1] == 'Add':
            return starts(t[2]) + starts(t[3])
        if t[0] == 'call' and t[1] in ('list', 'tuple', 'iter') and t[2]:
            return starts(t[2][0])
        return [t]

    def absolute(t):
        if t[0] == 'elem':
            src = t[1]
            if src[0] in ('tup', 'list', 'set'):
                return all(absolute(x) for x in src[1])
            if src[0] == 'call' and src[1] in ('set', 'list', 'sorted', 'tuple', 'dict.fromkeys') and src[2]:
                return absolute(('elem', src[2][0], t[2]))
        return is_absolute(t)

    for p in ctx.run(f, recv='core.LocalPath', raises='all', max_paths=200000):
        n['path'] += 1
        for x in p.loops('first'):
            if x[3] is None:
                continue
            for s in starts(x[3]):
                if any(y == SELF for y in subterms(s)) and ('parents' in repr(x[3]) or s == SELF):
                    n['start'] += 1
                    ctx.check(absolute(s), 'the way up starts at an absolute path', q, f'the parents of {show(s)} end at . when it is relative', f.where, p)
        if p.rai:
            n['raised'] += 1
            ok = p.holds(truthy(FAIL)) is True or p.propagated and not any('NoCachedMetadataError' in repr(a) and v for a, v in p.facts() if a[0] == 'excis')
            ctx.check(bool(ok), 'not finding one is no error', q, f'raises {p.exc}', f.where, p)
            continue
        deleg = [e for e in p.evs('call', 'find_cache_root')]
        if deleg and p.val == deleg[-1].result:
            n['from link'] += 1
            e = deleg[-1]
            ctx.check(e.target == A(SELF, 'parent') and e.kw.get('fail', e.args[0] if e.args else FALSE) == FAIL, 'a link that is not fetched has the root of its folder', q, f'asks {show(e.target)}', e.where, p)
            continue
        if p.val == NONE:
            n['none'] += 1
            continue
        n['found'] += 1
        for v in [s for s in sources(p.val) if s != NONE]:
            n['root'] += 1
            if v[0] == 'elem':
                cache = A(v, 'cache')
                had = p.holds(truthy(cache)) is True or p.holds(('isc', cache, NONE)) is False
                ctx.check(had or p.val[0] == 'havoc', 'the root has a cache', q, f'gives {show(v)[:100]} which may have none', f.where, p)
        slash = [a for a, t in p.facts() if a[0] in ('eq', 'is') and p.val in a[1:] and t is False and "'/'" in repr(a)] + \
                [a for a, t in p.facts() if a[0] in ('eq', 'is') and p.val in a[1:] and t is False and "'anchor'" in repr(a)]
        ctx.check(bool(slash), 'the root of the file system is never one', q, 'may give the root of the file system', f.where, p)
        ended = bool(p.handled()) or bool([x for x in p.items if isinstance(x, tuple) and x[0] == 'handled'])
        last = [x for x in p.loops() if x[2] in ('first', 'later', 'end', 'exit', 'zero', 'break')]
        if not ended:
            n['ended'] += 1
            inside = passes_open(p)
            ctx.check(not [x for x in inside if x[1] is not None and 'parents' in repr(x[1])], 'the highest one is the root', q, 'gives the first one found', f.where, p)
    for k in ('path', 'start', 'from link', 'none', 'found', 'root'):
        ctx.need('P72', n[k], 1, k)


def passes_open(p):
    """loops that are left from inside a pass"""
    stack = []
    for x in p.items:
        if isinstance(x, tuple) and x and x[0] == 'loop':
            if x[2] in ('first', 'later'):
                stack.append((x[1], x[3] if len(x) > 3 else None))
            elif x[2] in ('end', 'break') and stack and stack[-1][0] is x[1]:
                stack.pop()
    return stack


# -- arguments of other programs ------------------------------------------------------------------------------
SPAWN = ('Popen', 'run', 'call', 'check_call', 'check_output')
GLOBS = set('*?[')


def simple_commands(text):
    """words of the simple commands of a command text"""
    out = []
    for part in text.replace('||', ';').replace('&&', ';').replace('|', ';').replace('\n', ';').split(';'):
        ws = part.split()
        if ws:
            out.append(ws)
    return out


@rule('P73')
def p73(ctx):
    """Argument vectors of every program that is started and words of every command text: what is not constant is absolute, an option's value, or comes after --; wildcards come after --; nothing goes through a shell here."""
    n = Counter()
    for f in ctx.functions_of():
        names = {x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', None) for g in ctx.spread(f) for x in ast.walk(g.node) if isinstance(x, (ast.Attribute, ast.Name))}
        if not names & set(SPAWN + ('_ssh',)):
            continue
        recv = f.cls.qual.partition('.')[2] if f.cls is not None else None
        q = ctx.short(f)
        kw = {'recv': recv} if recv else {}
        for p in ctx.run(f, raises='none', inline=('remotes.SshRemote._stat_cmd', 'remotes.SshRemote.cypher_command'), **kw):
            for e in p.evs('call'):
                nm = (e.name or '')
                if not nm.startswith('subprocess.') or nm.rpartition('.')[2] not in SPAWN:
                    continue
                n['program'] += 1
                ctx.check(e.kw.get('shell', FALSE) == FALSE, 'no shell in between', q, 'a shell interprets the arguments', e.where, p)
                a = e.args[0] if e.args else e.kw.get('args', NONE)
                if a[0] == 'bin' and a[1] == 'Add' and a[2][0] in ('list', 'tup') and a[3][0] in ('list', 'tup'):
                    a = ('list', tuple(a[2][1]) + tuple(a[3][1]))
                if not ctx.check(a[0] in ('list', 'tup'), 'arguments are a list', q, f'starts {show(a)}', e.where, p):
                    continue
                words = list(a[1])
                ended = False
                for i, w in enumerate(words):
                    if w == C('--'):
                        ended = True
                    if i == 0 or is_const(w) or ended:
                        continue
                    n['word'] += 1
                    texts = pieces(w, e.st)
                    first = next((x for x in texts if x[0] != 'text' or x[1]), None)
                    starts = first is not None and first[0] == 'text' and not first[1].startswith('-')
                    value_of = is_const(words[i - 1]) and str(words[i - 1][2]).startswith('-') and not paths_in(w)
                    configured = w == A(SELF, 'host') or not paths_in(w)
                    ctx.check(starts or is_absolute(w) or value_of or configured, 'names are never options', q, f'{show(w)} is an option when the name begins with a dash', e.where, p)
            for ws, e in commands(p):
                for t in ws:
                    text = ''.join(x[1] if x[0] == 'text' else 'Q' for x in pieces(t, e.st))
                    for cmd in simple_commands(text):
                        n['command'] += 1
                        for i, w in enumerate(cmd):
                            if set(w) & GLOBS and i and not w.startswith(("'", '"')) and "'" not in ' '.join(cmd[:i]):
                                n['glob'] += 1
                                ctx.check('--' in cmd[:i] or w.startswith(('/', './')), 'names are never options', q, f'what {w} matches is an option when a name begins with a dash: {" ".join(cmd)}', e.where, p)
    for k in ('program', 'word', 'command', 'glob'):
        ctx.need('P73', n[k], 1, k)


def paths_in(t):
    """does a term stand for a path or its text"""
    return any(x == SELF or x[0] == 'call' and isinstance(x[1], tuple) and x[1][2] in ('as_posix', '__fspath__') for x in subterms(t)
               if not (x[0] == 'attr')) and not (t[0] == 'attr' and t[1] == SELF and t[2] in ('host', '_command'))


# -- children ------------------------------------------------------------------------------------------------
def taken(p, whole):
    """[(iterable, element or None, yields, facts)] of every source of what a generator gives: passes of loops, and whole iterables"""
    out, depth = [], []
    for node, it, items in passes(p):
        out.append((it, items, yields(items)))
    inside = {id(y) for _, items, ys in out for y in ys}
    rest = [y for y in p.evs('yield') if id(y) not in inside]
    return out, rest


def subject(items, it):
    """the element one pass is about"""
    for x in items:
        for t in (list(x.args) + [x.target] if isinstance(x, Event) else [x[1]] if x[0] == 'fact' else []):
            if t is not None:
                for y in subterms(t):
                    if y[0] == 'elem' and y[1] == it:
                        return y


@rule('P69')
def p69(ctx):
    """What is given in one pass over the members of a folder, a zip file or a remote, and what is known of a member that is left out, on every path of the generators."""
    n = Counter()
    LP, ZI = 'core.LocalPath', 'zip.ZipInternalPath'
    CACHE = A(SELF, 'cache')
    IGN = {A(SELF, '_cache_class', 'cache_ignore'), A(SELF, 'cache', 'cache_ignore')}

    def at_anchor(p):
        """is the path the anchor of its cache: True, False or None"""
        no = p.holds(('isc', CACHE, NONE)) is True or p.holds(truthy(CACHE)) is False or p.holds(truthy(A(CACHE, 'anchor'))) is False or p.holds(('isc', A(CACHE, 'anchor'), NONE)) is True
        e = p.holds(eqat(SELF, A(CACHE, 'anchor', 'local')))
        return False if no else e

    def ignored(facts, el):
        for a, v in facts:
            if a[0] == 'in' and a[1] == A(el, 'name') and a[2] in IGN:
                return v
    f = ctx.func(LP, 'children')
    q = ctx.short(f)
    for p in ctx.run(f, recv=LP, raises='none'):
        n['children'] += 1
        loops, rest = taken(p, None)
        anchor = at_anchor(p)
        isdir = p.holds(fsat('is_dir', SELF))
        if isdir is False:
            n['file'] += 1
            ctx.check(not p.evs('yield') and not p.rai, 'only folders have children', q, 'gives children of what is no folder', f.where, p)
            continue
        for it, items, ys in loops:
            if it is None or it[0] != 'call' or 'iterdir' not in repr(it):
                continue
            el = subject(items, it)
            facts = [(x[1], x[2]) for x in items if isinstance(x, tuple) and x[0] == 'fact']
            ig = ignored(facts, el) if el is not None else None
            n['member'] += 1
            if ys:
                ctx.check(len(ys) == 1 and ys[0].args[:1] == (el,) and ys[0].name == 'yield', 'every member once', q, f'gives {[show(y.args[0]) for y in ys]}', f.where, p)
                ctx.check(anchor is False or ig is False, 'ignored names are left out at the anchor', q, 'gives what the cache ignores', f.where, p)
            else:
                ctx.check(anchor is True and ig is True, 'only ignored names are left out', q, 'a member is left out that is not ignored by its name', f.where, p)
        for y in rest:
            n['whole'] += 1
            v = y.args[0]
            if v[0] == 'comp':
                el = v[2]
                conds = [c for c in v[4]]
                only = len(conds) == 1 and conds[0] in [('not', ('b', ('in', A(el, 'name'), g))) for g in IGN] + [('b', ('in', A(el, 'name'), g)) for g in ()]
                ctx.check(el[0] == 'elem' and (not conds and anchor is False or only and anchor is True), 'only ignored names are left out', q, f'gives {show(v)[:120]}', y.where, p)
                continue
            ok = v[0] == 'call' and isinstance(v[1], tuple) and v[1][1] == SELF and v[1][2] == 'iterdir'
            ctx.check(ok and anchor is False, 'ignored names are left out at the anchor' if ok else 'every member once', q, f'gives all of {show(v)[:100]}', y.where, p)
        if not loops and not rest and isdir is not False and not p.loops('zero'):
            ctx.check(p.rai, 'every member once', q, 'gives nothing for a folder', f.where, p)
    f = ctx.func(LP, 'rchildren')
    q = ctx.short(f)
    for p in ctx.run(f, recv=LP, raises='none'):
        n['rchildren'] += 1
        loops, rest = taken(p, None)
        anchor = at_anchor(p) if p.holds(fsat('is_dir', SELF)) is not False else False
        for it, items, ys in loops:
            if it == A(SELF, 'children'):
                el = subject(items, it)
                n['descend'] += 1
                one = [y for y in ys if y.name == 'yield']
                sub = [y for y in ys if y.name == 'yieldfrom']
                ctx.check(len(one) == 1 and one[0].args[:1] == (el,) and len(sub) == 1 and sub[0].args[0] == A(el, 'rchildren'), 'every descendant once', q,
                          f'gives {[(y.name, show(y.args[0])[:60]) for y in ys]} for a child', f.where, p)
            else:
                good = 'rglob' in repr(it) and anchor is False
                ctx.check(good and len(ys) == 1 or not ys and 'rglob' not in repr(it), 'every descendant once', q, f'takes {show(it)[:80]}', f.where, p)
        for y in rest:
            v = y.args[0]
            n['below'] += 1
            ok = v[0] == 'call' and isinstance(v[1], tuple) and v[1][1] == SELF and v[1][2] in ('rglob', 'glob') and v[2][:1] == (C('*' if v[1][2] == 'rglob' else '**/*'),)
            ctx.check(ok, 'every descendant once', q, f'gives {show(v)[:100]}', y.where, p)
            ctx.check(anchor is False, 'ignored names are left out at the anchor', q, 'gives what the cache ignores', y.where, p)
        if not loops and not rest and not p.loops('zero'):
            ctx.check(p.rai, 'every descendant once', q, 'gives nothing', f.where, p)
    # members of zip files
    for name in ('children', 'rchildren'):
        f = ctx.func(ZI, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=ZI, raises='none'):
            loops, rest = taken(p, None)
            n['zip'] += 1
            for it, items, ys in loops:
                if it is None or 'paths' not in repr(it):
                    continue
                el = subject(items, it)
                if el is None:
                    ctx.check(False, 'members of the folder', q, 'nothing is asked about a member', f.where, p)
                    continue
                facts = {x[1]: x[2] for x in items if isinstance(x, tuple) and x[0] == 'fact'}
                isself = facts.get(eqat(el, SELF))
                direct = facts.get(eqat(A(el, 'parent'), SELF))
                below = facts.get(('in', SELF, A(el, 'parents')))
                n['zip member'] += 1
                if ys:
                    ctx.check(len(ys) == 1 and ys[0].args[:1] == (el,), 'every member once', q, f'gives {[show(y.args[0])[:60] for y in ys]}', f.where, p)
                    ctx.check(direct is True and isself is False if name == 'children' else below is True, 'members of the folder', q,
                              'gives the folder itself' if direct is True else 'gives what is not in the folder', f.where, p)
                else:
                    ctx.check(isself is True or direct is False if name == 'children' else below is False or isself is True, 'members of the folder', q, 'a member is left out', f.where, p)
            for y in rest:
                ctx.check(y.args[0][0] == 'comp', 'members of the folder', q, f'gives {show(y.args[0])[:80]}', y.where, p)
    # members of remotes
    for name in ('children', 'rchildren'):
        f = ctx.func('caches.PrimaryCache', name)
        q = ctx.short(f)
        for p in ctx.run(f, recv='caches.PrimaryCache', raises='none'):
            loops, rest = taken(p, None)
            for it, items, ys in loops:
                if it != A(SELF, 'remote', name):
                    continue
                el = subject(items, it)
                n['remote member'] += 1
                ctx.check(len(ys) == 1 and el is not None and contains(ys[0].args[0], el), 'every member once', q, f'gives {[show(y.args[0])[:60] for y in ys]} for a member of the remote', f.where, p)
                for y in ys:
                    v = y.args[0]
                    ctx.check(v == ('div', SELF, el) or 'child' in repr(v), 'below the path itself', q, f'gives {show(v)[:80]}', y.where, p)
                    for e in items:
                        if isinstance(e, Event) and e.name == '_parts_relative_to' and e.args:
                            ctx.check(e.args[0] == A(SELF, 'remote'), 'below the path itself', q, f'parts are relative to {show(e.args[0])}', e.where, p)
            for y in rest:
                ctx.check(y.args[0][0] == 'comp', 'every member once', q, f'gives {show(y.args[0])[:80]}', y.where, p)
    for k, m in (('children', 3), ('file', 1), ('member', 1), ('rchildren', 3), ('descend', 1), ('below', 1), ('zip', 4), ('zip member', 4), ('remote member', 2)):
        ctx.need('P69', n[k], m, k)


# -- bumping --------------------------------------------------------------------------------------------------
@rule('P74')
def p74(ctx):
    """Order and guards of every step of a bump on every path, and constant propagation of the uris of repositories through the pieces taken from them."""
    n = Counter()
    PKG = 'package.PackagePath'
    f = ctx.func(PKG, 'bump')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='none'):
        nv = [e for e in p.calls('version_next')]
        n['bump'] += 1
        for e in nv:
            for i, k in enumerate(('next_phase', 'rel_comp')):
                v = e.kw.get(k, e.args[i] if len(e.args) > i else None)
                ctx.check(v == P(k), 'the version asked for', q, f'{k} is {show(v) if v else "not given"}', e.where, p)
        if not nv:
            ctx.check(p.rai, 'the version asked for', q, 'no version is computed', f.where, p)
            continue
        new = nv[-1].result
        for what in ('version_latest_released', 'version_repo'):
            v = p.holds(eqat(A(SELF, what), new))
            if v is True:
                n['refused'] += 1
                ctx.check(p.rai and p.exc == 'ValueError', 'a version that is there is refused', q, f'goes on although the version is {what}', f.where, p)
            elif p.ret:
                n['new'] += 1
                ctx.check(v is False, 'a version that is there is refused', q, f'does not ask whether the version is {what}', f.where, p)
        early = [e for e in p.evs('call') + p.effects() if e.name in ('print', 'write', 'write_text', 'open', 'commit', 'commit_from_working_tree')]
        if p.rai:
            ctx.check(not early, 'refused before anything is done', q, f'{[e.name for e in early]} before it is refused', f.where, p)
        if p.holds(truthy(P('pretend'))) is True:
            ctx.check(not p.effects() and not [e for e in p.evs('call') if e.name in ('write', 'commit', 'commit_from_working_tree', 'add_index', 'write_text')], 'pretending does nothing', q, 'changes something', f.where, p)
    for name, want in (('arg_org', 'org'), ('arg_repo', 'repo')):
        f = ctx.func(PKG, name)
        q = ctx.short(f)
        for uri in ('https://github.com/org/repo/blob/master/sub', 'https://github.com/org/repo/blob/a/b'):
            def look(t, uri=uri):
                from urllib.parse import urlparse
                if t[0] == 'call' and isinstance(t[1], tuple) and t[1][2] == 'remote_uri_human':
                    return (uri,)
                if t[0] == 'attr' and t[2] == 'path' and t[1][0] == 'call' and str(t[1][1]).rpartition('.')[2] in ('urlparse', 'urlsplit') and t[1][2]:
                    return (urlparse(value(t[1][2][0], look)).path,)
            for p in ctx.run(f, recv=PKG, raises='none'):
                if possible(p.facts(), look) is False:
                    continue
                try:
                    got = value(p.val, look) if p.ret else None
                except (Open, Fails):
                    continue
                n[name] += 1
                ctx.check(got == want, 'organisation and repository come from the uri', q, f'gives {got!r} for {uri}', f.where, p)
    for k, m in (('bump', 3), ('refused', 2), ('new', 2), ('arg_org', 1), ('arg_repo', 1)):
        ctx.need('P74', n[k], m, k)
