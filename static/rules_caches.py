"""Rules about caches (caches.py)."""
import itertools
from ctx import *
from rules_meta import typed, meth, where, image, KIND

CP, EAT, SYMC, PC, SSHC = 'caches._CachePath', 'caches.EatCache', 'caches.SymlinkCache', 'caches.PrimaryCache', 'caches.SshCache'
MUST_DIFFER = ('created', 'updated', 'size', 'checksum', 'file_id')
OLD, NEW = P('old'), P('new')
PMETA = P('pathmeta')


def assume_all(st, *pairs):
    for a, v in pairs:
        if st is not None:
            st = st.assume(a, v)
    return st


def own(t, of=SELF):
    """the path of the cache itself, however it is reached"""
    while t is not None and t[0] == 'attr' and t[2] in ('local', 'cache', '_cache_parent'):
        t = t[1]
    return t is not None and same(t, of)


def value_state(st, t, kind, case):
    """the field t is missing, present, or present and empty"""
    if case == 'none':
        return assume_all(st, (('isc', t, NONE), True))
    st = typed(kind, t, st)
    if case in ('empty', 'zero'):
        st = st.copy()
        st.facts = {k: x for k, x in st.facts.items() if k != truthy(t)}
        st = assume_all(st, (truthy(t), False))
    return st


@rule('P17')
def p17(ctx):
    """The merge is evaluated over the abstract cases of one field at a time (missing, empty, present and equal, present and different),
    together with the ids and with one field that does or does not make the file different; the merged object is compared field by field."""
    f = ctx.func(PC, '_update_meta')
    q = ctx.short(f)
    w = f.where
    types = {'old': 'meta.PathMeta', 'new': 'meta.PathMeta'}
    opaque = ('meta.PathMeta.__bool__',)
    n = Counter()
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    args = dict(zip(names[-2:], (OLD, NEW)))

    for p in ctx.run(f, raises='none', args=args, types=types, opaque=opaque + ('meta.PathMeta.items', 'meta.PathMeta.keys'), max_paths=200000):
        for a, b, what in ((OLD, NEW, 'old'), (NEW, OLD, 'new')):
            if p.can((truthy(a), False), (truthy(b), True)):
                n['side'] += 1
                ok = p.ret and p.val == ('tup', (FALSE, b))
                ctx.check(ok, 'one side empty', f'{q}: {what} empty', f'answers {show(p.val)}', w, p)
    ctx.need('P17', n['side'], 2, 'paths with an empty side')

    def run(fields, st):
        F = tuple(fields)
        keys = ('tup', tuple(C(x) for x in F))
        models = {'meta.PathMeta.items': lambda t, a: ('tup', tuple(('tup', (C(x), A(t, x))) for x in F)),
                  'meta.PathMeta.keys': lambda t, a: keys, 'meta.PathMeta.__iter__': lambda t, a: keys,
                  'meta.PathMeta.__getitem__': lambda t, a: A(t, a[0][2]) if is_const(a[0]) else None}
        return ctx.run(f, raises='none', args=args, types=types, opaque=opaque, dicts=True, models=models, unroll=len(F) + 1, init=st)

    def field_cases(kind):
        news = {'int': ('none', 'zero', 'present'), 'date': ('none', 'present')}.get(kind, ('none', 'empty', 'present'))
        for nc in news:
            for oc in ('none', 'same', 'other') if nc != 'none' else ('none', 'other'):
                yield nc, oc

    def pair_state(st, x, nc, oc):
        kind = KIND.get(x, ('str',))[-1]
        o, v = A(OLD, x), A(NEW, x)
        st = value_state(st, v, kind, nc)
        st = value_state(st, o, kind, 'none' if oc == 'none' else nc if oc == 'same' else 'present')
        if st is not None and (nc != 'none' or oc != 'none'):
            st = assume_all(st, (eqat(o, v), oc == 'same'))
        return st

    base = assume_all(State(), (truthy(OLD), True), (truthy(NEW), True), (('isc', OLD, NONE), False), (('isc', NEW, NONE), False))
    for x in sorted(KIND):
        if x in ('id', 'old_id'):
            continue
        drv = 'size' if x != 'size' else 'checksum'
        kind = KIND[x][-1]
        for (nc, oc), drives, samid, newold in itertools.product(list(field_cases(kind)), (False, True), (True, False), (False, True)):
            if not drives and not samid and newold:
                continue
            st = pair_state(base, x, nc, oc)
            st = pair_state(st, drv, 'present', 'other' if drives else 'same')
            st = pair_state(st, 'id', 'present', 'same' if samid else 'other')
            st = value_state(st, A(NEW, 'old_id'), 'str', 'present' if newold else 'none')
            st = value_state(st, A(OLD, 'old_id'), 'str', 'none')
            if st is None:
                continue
            given = nc in ('zero', 'present')
            differs = drives or x in MUST_DIFFER and given and oc == 'other'
            for fields in ((x, drv, 'id', 'old_id'), (drv, 'old_id', 'id', x)):
                for p in run(fields, st):
                    n['case'] += 1
                    cname = f'{x}: old {oc}, new {nc}, file {"different" if differs else "same"}, id {"same" if samid else "changed"}'
                    if not ctx.check(p.ret and p.val[0] == 'tup' and len(p.val[1]) == 2 and p.val[1][1][0] == 'new', 'merge', f'{q}: {x}', f'answers {show(p.val)} for {cname}', w, p):
                        continue
                    flag, m = p.val[1]
                    t = flag[2] if is_const(flag) else truth_under(p.st, flag)
                    ctx.check(t is differs, 'different exactly when known content changes', f'{q}: {x}', f'reports {show(flag)} for {cname}', w, p)
                    get = lambda k: kwarg(m, k) if kwarg(m, k) is not None else NONE
                    o, v, got = A(OLD, x), A(NEW, x), get(x)
                    if oc == 'none' and got == o:
                        got = NONE
                    if given:
                        ok = got == v or oc == 'same' and got == o
                    elif differs:
                        ok = got == NONE if nc == 'none' else got in (NONE, o)
                    else:
                        ok = got == o or oc == 'none' and got == NONE
                    ctx.check(ok, 'field rule', f'{q}: {x}', f'becomes {show(got)} for {cname}', w, p)
                    ctx.check(get(drv) == A(NEW, drv) or not drives and get(drv) == A(OLD, drv), 'field rule', f'{q}: {drv}', f'becomes {show(get(drv))} for {cname}', w, p)
                    ctx.check(get('id') == A(NEW, 'id') or samid and get('id') == A(OLD, 'id'), 'field rule', f'{q}: id', f'becomes {show(get("id"))} for {cname}', w, p)
                    oid = get('old_id')
                    if samid:
                        ok = oid == A(NEW, 'old_id') if newold else oid in (NONE, A(OLD, 'old_id'), A(NEW, 'old_id'))
                    else:
                        ok = oid == A(OLD, 'id') or newold and oid == A(NEW, 'old_id')
                    ctx.check(ok, 'old id is recorded', f'{q}: old_id', f'becomes {show(oid)} for {cname}', w, p)
    # an old id that is already there survives
    for drives, present in itertools.product((False, True), (False, True)):
        st = pair_state(base, 'size', 'present', 'other' if drives else 'same')
        st = pair_state(st, 'id', 'present', 'same')
        st = value_state(st, A(OLD, 'old_id'), 'str', 'present')
        st = value_state(st, A(NEW, 'old_id'), 'str', 'present' if present else 'none')
        for p in run(('size', 'id', 'old_id'), st):
            n['case'] += 1
            if p.ret and p.val[0] == 'tup' and p.val[1][1][0] == 'new':
                got = kwarg(p.val[1][1], 'old_id')
                ctx.check(got == (A(NEW, 'old_id') if present else A(OLD, 'old_id')), 'old id is recorded', f'{q}: old_id', f'a recorded old id becomes {show(got) if got else None}', w, p)
    ctx.need('P17', n['case'], 400, 'merged cases')


# -- symlink caches -------------------------------------------------------------
@rule('P18')
def p18(ctx):
    """Typestate of the setter of symlink metadata: every path that changes the link contradicts each reason to leave it alone, every path
    that leaves it alone implies one of them, and the old link is out of the way before the new one is made; the reader's exception by state of the path."""
    ex, ln = fsat('exists', SELF), fsat('is_symlink', SELF)
    n = Counter()
    f = ctx.func(SYMC, 'meta', 'setter')
    q = ctx.short(f)
    w = f.where
    M, N = A(SELF, 'meta'), PMETA
    par = [x.arg for x in f.node.args.args][1]
    eq = eqat(M, N)
    ideq = eqat(A(M, 'id'), A(N, 'id'))
    T = lambda k: (('lt', A(M, k), A(N, k)), ('lt', A(N, k), A(M, k)))   # (new is newer, old is newer)
    upd, cre = T('updated'), T('created')
    oldsize, newsize = ('isc', A(M, 'size'), NONE), ('isc', A(N, 'size'), NONE)
    linked = ((ex, False), (ln, True))
    writes = tuple(FS_MUT)
    # reasons to leave the link alone
    other = linked + ((eq, False), (ideq, False))
    leave = {'equal metadata': linked + ((eq, True),),
             'another id, not updated later': other + ((upd[0], False), (upd[1], True)),
             'another id, updated at the same time and not created later': other + ((upd[0], False), (upd[1], False), (cre[0], False)),
             'the known size would be lost': linked + ((eq, False), (oldsize, False), (newsize, True))}
    # and the cases in which it is replaced
    size_ok = (((oldsize, True),), ((oldsize, False), (newsize, False)))
    known = tuple((('isc', A(x, k), NONE), False) for x in (M, N) for k in ('updated', 'created'))
    newer = (((ideq, True),), ((ideq, False), (upd[0], True), (upd[1], False)) + known,
             ((ideq, False), (upd[0], False), (upd[1], False), (cre[0], True), (cre[1], False)) + known)
    replace = [linked + ((eq, False),) + a + b for a in newer for b in size_ok]

    for p in ctx.run(f, raises='all', args={par: N}, types={par: 'meta.PathMeta'}, opaque=('caches.SymlinkCache.meta', 'meta.PathMeta.__eq__'), recv=SYMC):
        att = p.attempts(*writes, 'crumple')
        failed = bool(p.failures)
        if p.can((ex, True)):
            n['clobber'] += 1
            ctx.check(p.exc == 'PathExistsError' and not att or failed and not att, 'never over a file', q, f'{"changes the path" if att else "does not raise PathExistsError"} although something is there', w, p)
            if p.holds(ex) is True:
                continue
        if att:
            for what, pairs in leave.items():
                n['leave'] += 1
                ctx.check(excluded(p.st, *pairs), 'left alone', f'{q}: {what}', 'the link is changed', w, p)
        elif not failed and not p.can((ex, True)):
            for pairs in replace:
                ctx.check(excluded(p.st, *pairs), 'replaced otherwise', q, 'newer metadata is not written', w, p)
            if p.can((ex, False), (ln, False)) and p.ret:
                ctx.check(False, 'written when nothing is there', q, 'returns without having written', w, p)
        links = [e for e in att if e.name == 'symlink']
        for i, e in enumerate(links):
            n['write'] += 1
            ok = own(e.target)
            ctx.check(ok, 'the link of this cache', q, f'writes {show(e.target)}', w, p)
            m = meth(e.args[0], 'as_symlink') if e.args else None
            ctx.check(m is not None and m[0] == N, 'the new metadata is written', q, f'links to {show(e.args[0]) if e.args else None}', w, p)
            if m is not None:
                ln_ = kwarg(e.args[0], 'local_name') or next((x for x in m[2] if x[0] != 'kw'), None)
                ctx.check(ln_ in (A(SELF, 'name'), A(SELF, 'local', 'name')), 'the link carries the name of its file', q, f'the name in the link is {show(ln_) if ln_ else "left out"}', e.where, p)
            if p.can((ex, False), (ln, True)):
                moved = [x for x in att[:att.index(e)] if x.name in ('crumple', 'rename', 'replace') and not p.failed(x)]
                if not moved:
                    # the name in the trash is taken by this very file
                    ctx.check(_taken(p) and any(x.name == 'unlink' for x in att), 'the old link is moved to the trash', q, 'the old link is not kept', w, p)
                for x in moved:
                    ctx.check(own(x.target), 'the old link is moved to the trash', q, f'moves {show(x.target)}', w, p)
        for e in att:
            if e.name in ('unlink', 'rmdir') and not _taken(p):
                ctx.check(False, 'the old link is moved to the trash', q, f'{e.name} of {show(e.target)}', w, p)
    ctx.need('P18', n['leave'], 1, 'paths that replace a link')
    ctx.need('P18', n['clobber'], 1, 'paths over a file')
    ctx.need('P18', n['write'], 1, 'links written')

    f = ctx.func(SYMC, 'meta')
    q = ctx.short(f)
    mem = ('hasattr', SELF, '_meta')
    for p in ctx.run(f, raises='none', recv=SYMC, inline=('caches.SymlinkCache._meta_impl',)):
        if p.can((mem, False), (ex, True), (ln, True)):
            n['read'] += 1
            ctx.check(p.exc == 'PathExistsError', 'reading', f'{q}: link to something', f'{p.kind} {show(p.val)}', f.where, p)
        if p.can((mem, False), (ln, False)):
            n['read'] += 1
            ctx.check(p.exc == 'NoCachedMetadataError', 'reading', f'{q}: no link', f'{p.kind} {show(p.val)}', f.where, p)
        if p.can((mem, False), (ln, True), (ex, False)):
            n['read'] += 1
            m = meth(p.val, 'from_symlink') if p.ret else None
            ctx.check(m is not None and m[2] and same(m[2][0], SELF), 'reading', f'{q}: cache link', f'{p.kind} {show(p.val)}', f.where, p)
    ctx.need('P18', n['read'], 1, 'paths of the reader')


def _only(types, name):
    return len(types) == 1 and name in str(types[0])


def _taken(p):
    return any('FileExistsError' in str(x[3]) for x in p.handled())


# -- where metadata is stored -------------------------------------------------------
def at(pred, x, e):
    return fsat(pred, x, e.st.epoch)


def gone(p, attr, start=0):
    """the attribute of self is known to be absent at the end of the path: replayed from its tests, stores and deletions"""
    v = None
    for x in p.items:
        if isinstance(x, Event):
            if x.kind == 'store' and x.name == attr and x.target == SELF:
                v = True
            elif x.kind == 'delattr' and x.name == attr and x.target == SELF:
                v = False
            elif x.name == 'pop' and x.target == A(SELF, '__dict__') and x.args and x.args[0] == C(attr):
                v = False
        elif x[0] == 'fact' and x[1] == ('hasattr', SELF, attr):
            v = x[2]
    return v is False


def attr_writes(p):
    return p.attempts('setxattrs', 'setxattr')


@rule('P19')
def p19(ctx):
    """Typestate of the three metadata setters: what is known about the path at every attribute write, link write and in-memory store."""
    n = Counter()
    mem = truthy(P('memory_only'))
    names = ('caches.EatCache._meta_setter', 'caches._CachePath._meta_setter', 'caches._CachePath._bootstrap_prepare_filesystem')

    def checks(p, q, w):
        for e in attr_writes(p):
            n['attr'] += 1
            ctx.check(own(e.target), 'attributes of the path itself', q, f'written to {show(e.target)}', e.where, p)
            ctx.check(excluded(e.st, (at('exists', SELF, e), False)), 'only where something exists', q, 'attributes are written although nothing is there', e.where, p)
            ctx.check(excluded(e.st, (at('is_symlink', SELF, e), True)), 'never on links', q, 'attributes are written on a symlink', e.where, p)
            if e.name == 'setxattrs':
                m = meth(e.args[0], 'as_xattrs') if e.args else None
                ctx.check(m is not None and m[0] == PMETA and m[2][:1] == (A(SELF, 'xattr_prefix'),), 'the metadata given', q, f'writes {show(e.args[0]) if e.args else None}', e.where, p)
        for e in p.evs('store', '_meta'):
            n['mem'] += 1
            ctx.check(excluded(e.st, (mem, False)), 'in memory only on request', q, 'metadata is kept in memory without memory_only', e.where, p)
            has = truthy(A(SELF, 'meta'))
            ids = [eqat(A(SELF, 'id'), A(PMETA, 'id')), eqat(A(SELF, 'meta', 'id'), A(PMETA, 'id'))]
            ctx.check(any(excluded(e.st, (has, True), (i, False)) for i in ids), 'never over another id', q, 'metadata of another id is replaced in memory', e.where, p)
            ctx.check(e.args[0] == PMETA, 'the metadata given', q, f'keeps {show(e.args[0])}', e.where, p)

    # the base class, and the class that keeps attributes
    for cls in (CP, EAT):
        f = ctx.func(cls, '_meta_setter')
        q = ctx.short(f)
        for p in ctx.run(f, recv=cls, raises='none', types={'pathmeta': 'meta.PathMeta'}, inline=names):
            checks(p, q, f.where)
            wrote = bool(attr_writes(p)) or bool(p.evs('store', '_meta'))
            if not wrote and p.ret:
                ctx.check(False, 'stored or refused', q, 'returns without having stored anything', f.where, p)
            there = p.can((fsat('exists', SELF), True)) if cls == EAT else False
            if not there and p.can((mem, False)):
                ctx.check(p.exc == 'TypeError', 'in memory only on request', q, f'{p.kind} without memory_only', f.where, p)
            if attr_writes(p) and p.ret:
                ctx.check(gone(p, '_meta'), 'later reads come from disk', q, 'the metadata in memory is not dropped', f.where, p)
            n[cls] += 1
            if p.rai and not p.failures:
                if cls == EAT:
                    ctx.check(excluded(p.st, (fsat('exists', SELF), True), (fsat('is_symlink', SELF), False)), 'stored or refused', q, f'{p.exc} for something that exists and is no link', f.where, p)
                if p.exc == 'MetadataIdMismatchError':
                    ids = [eqat(A(SELF, 'id'), A(PMETA, 'id')), eqat(A(SELF, 'meta', 'id'), A(PMETA, 'id'))]
                    ctx.check(excluded(p.st, (truthy(A(SELF, 'meta')), False)) and any(excluded(p.st, (i, True)) for i in ids), 'only another id is refused', q, 'metadata is refused though the id may be the same or none is known', f.where, p)
    # a primary cache with a backup: the backup follows, and the place is prepared without data
    f = ctx.func(PC, '_meta_setter')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PC, raises='none', types={'pathmeta': 'meta.PathMeta'}, opaque=('meta.PathMeta.__bool__',)):
        if not p.ret:
            continue
        back = p.calls('_backup_cache')
        if p.holds(truthy(PMETA)) is not True:
            continue
        n['backup'] += 1
        ctx.check(any(e.args[:1] in ((SELF,), [SELF]) and e.kw.get('meta') == PMETA for e in back) or excluded(p.st, (truthy(A(SELF, '_backup_cache')), True)),
                  'the backup follows', q, 'the backup is not told', f.where, p)
        for e in p.calls('_bootstrap_prepare_filesystem'):
            n['prepare'] += 1
            ctx.check(e.arg(1, 'fetch_data') == FALSE and e.arg(3, 'sparse') in (None, FALSE), 'the place is prepared without data', q, f'fetch_data={show(e.arg(1, "fetch_data") or NONE)}', e.where, p)
            ids = [x for x in p.evs('store', '_bootstrapping_id') if p.items.index(x) < p.items.index(e)]
            known = p.holds(('hasattr', SELF, '_remote')) is True and p.holds(('isc', A(SELF, '_remote'), NONE)) is False
            ctx.check(known or bool(ids) and ids[-1].args[0] == A(PMETA, 'id'), 'the remote is known by the id of the metadata', q, 'the place is prepared without an id', e.where, p)
    # primary caches
    f = ctx.func(SSHC, '_meta_setter')
    q = ctx.short(f)
    nex = ctx.recv(SSHC).lookup('_not_exists_cache')[1]
    for p in ctx.run(f, recv=SSHC, raises='none', types={'pathmeta': 'meta.PathMeta'}, inline=names):
        checks(p, q, f.where)
        links = [e for e in p.evs('new') if e.name.endswith('.SymlinkCache') and e.kw.get('meta') is not None]
        if p.can((truthy(PMETA), False)):
            n['empty'] += 1
            ctx.check(p.ret and not p.muts() and not links and not p.evs('store') and not attr_writes(p) and not p.evs('new'), 'empty metadata is ignored', q, 'something is written', f.where, p)
            continue
        for e in links:
            n['link'] += 1
            ctx.check(excluded(e.st, (at('exists', SELF, e), True)), 'the link only where nothing exists', q, 'a link is written although something is there', e.where, p)
            ctx.check(e.args and same(e.args[0], SELF) and e.kw['meta'] == PMETA, 'the metadata given', q, f'link of {show(e.args[0]) if e.args else None}', e.where, p)
        if p.ret:
            n['set'] += 1
            ctx.check(len(links) + len(attr_writes(p)) == 1, 'stored in one place', q, f'{len(links)} links and {len(attr_writes(p))} attributes are written', f.where, p)
            for a in ('_meta', '_id'):
                ctx.check(gone(p, a), 'later reads come from disk', f'{q}: {a}', 'the copy in memory is not dropped', f.where, p)
    for k in ('attr', 'mem', 'link', 'set', 'empty', 'backup', 'prepare'):
        ctx.need('P19', n[k], 1, f'instances of {k}')


# -- updates -------------------------------------------------------------------------
@rule('P20')
def p20(ctx):
    """Typestate of the update over every exit of every step: local changes end it before anything is changed, the trash comes before the writes,
    and a failure after it reaches the restore and leaves the function unchanged."""
    f = ctx.func(SSHC, '_meta_updater')
    q = ctx.short(f)
    w = f.where
    n = Counter()
    fetch = truthy(P('fetch'))
    ex, isf = fsat('exists', SELF), fsat('is_file', SELF)
    L = A(SELF, 'local')
    for p in ctx.run(f, recv=SSHC, raises='all', exc_root='BaseException', types={'pathmeta': 'meta.PathMeta'}):
        merges = p.attempts('_update_meta')
        trash = p.attempts('crumple')
        sets = p.attempts('_meta_setter')
        gets = p.attempts('fetch')
        n['path'] += 1
        for e in merges:
            ctx.check(e.args == (A(SELF, 'meta'), PMETA) or list(e.args) == [A(SELF, 'meta'), PMETA], 'old merged with new', q, f'merges {[show(a) for a in e.args]}', e.where, p)
        if len(merges) != 1 or p.failed(merges[0]):
            ctx.check(not (trash or sets or gets or p.muts()) and p.rai, 'nothing before the merge', q, 'something is changed without a merge', w, p)
            continue
        flag, new = ('item', merges[0].result, C(0)), ('item', merges[0].result, C(1))
        need = ((truthy(flag), True), (ex, True), (isf, True), (fetch, True))
        for e in sets:
            n['set'] += 1
            ctx.check(own(e.target) and e.args and e.args[0] == new, 'the merged metadata is written', q, f'writes {show(e.args[0]) if e.args else None}', e.where, p)
        for e in gets:
            n['get'] += 1
            ctx.check(own(e.target), 'the file itself is fetched', q, f'fetches {show(e.target)}', e.where, p)
            lim = e.arg(0, 'size_limit_mb')
            ctx.check(lim == NONE, 'fetched whatever its size', q, f'limit {show(lim) if lim else "by default"}', e.where, p)
        for e in trash:
            n['trash'] += 1
            ctx.check(own(e.target), 'the old file goes to the trash', q, f'trashes {show(e.target)}', e.where, p)
            for a, v in need:
                ctx.check(excluded(e.st, (a, not v)), 'nothing is trashed without need', f'{q}: {show(a)[:40]}', 'the file is trashed', e.where, p)
            absent = any(_only(x[3], 'NoRemoteFileWithThatIdError') for x in p.handled())
            for cs in [] if absent else [x.result for x in p.items if isinstance(x, Event) and x.name == 'content_different']:
                ctx.check(excluded(e.st, (truthy(cs), True), (eqat(A(L, 'meta', 'checksum'), A(PMETA, 'checksum')), False)), 'local changes are kept', q, 'a file with local changes is trashed', e.where, p)
            asked = any(x.name == 'content_different' and own(x.target) for x in p.attempts('content_different'))
            ctx.check(asked or absent, 'local changes are kept', q, 'the file is trashed without having been compared', e.where, p)
        if not p.failures and p.can(*need):
            if p.ret:
                n['must'] += 1
                seq = [e.name for e in p.attempts('crumple', '_meta_setter', 'fetch')]
                ctx.check(seq == ['crumple', '_meta_setter', 'fetch'], 'trash, metadata, data', q, f'does {seq}', w, p)
            else:
                n['refuse'] += 1
                ctx.check(p.exc == 'LocalChangesError' and not (trash or sets or gets or p.muts()), 'local changes are kept', q, f'raises {show(p.val)}', w, p)
        if p.exc == 'LocalChangesError':
            ctx.check(not (trash or sets or gets or p.muts()), 'nothing is changed before the refusal', q, 'something is changed', w, p)
        if p.ret:
            ctx.check(p.val == flag, 'the flag is returned', q, f'returns {show(p.val)}', w, p)
            ctx.check(len(sets) == 1 and not p.failed(sets[0]), 'the merged metadata is written', q, 'returns without it', w, p)
        done = [e for e in trash if not p.failed(e)]
        late = [x[1] for x in p.failures if isinstance(x[1], Event) and x[1].name in ('_meta_setter', 'fetch')]
        for e in late:
            n['late'] += 1
            back = [x for x in p.attempts('rename', 'replace') if done and x.target == done[0].result and x.args and own(x.args[0])]
            if done:
                ctx.check(bool(back), 'the old file is put back', f'{q}: {e.name}', 'a failure leaves it in the trash', e.where, p)
            else:
                ctx.check(not p.muts(), 'nothing to put back', f'{q}: {e.name}', 'something is moved', e.where, p)
            ok = p.rai and (any(p.failed(x) for x in back) or p.val[0] == 'exc')
            ctx.check(ok, 'the failure is re-raised', f'{q}: {e.name}', f'{p.kind} {show(p.val)}', e.where, p)
            if ok and not any(p.failed(x) for x in back):
                ctx.check(e.name in str(p.val), 'the failure is re-raised', f'{q}: {e.name}', f'raises {show(p.val)}', e.where, p)
    for k in ('path', 'set', 'get', 'trash', 'must', 'refuse', 'late'):
        ctx.need('P20', n[k], 1, f'instances of {k}')


# -- the trash ---------------------------------------------------------------------------
SPECIAL = ' \n\t*|:\\/<>\'"?'


@rule('P21')
def p21(ctx):
    """Effects of trashing on every path: the path is renamed and nothing else happens to it, where to, what is created first, what is returned,
    and which error takes the fallback; the image of every special character under the replacement."""
    import errno as _errno
    f = ctx.func(PC, 'crumple')
    q = ctx.short(f)
    w = f.where
    n = Counter()
    T = A(SELF, 'trash')

    def in_trash(t):
        if t[0] == 'new' and t[1] == 'path':
            t = t[2][0]
        if t[0] == 'div':
            m = t[2]
            if m[0] == 'call' and (m[1] == 'augpathlib.utils.fs_safe_id' or m[1] == 'fs_safe_id' or isinstance(m[1], tuple) and m[1][-1] == 'fs_safe_id'):
                return t[1] == T and tuple(m[2][:1]) in ((A(SELF, 'id'),), (A(SELF, 'meta', 'id'),)) and 'long'
            return t[1] == T and m == A(SELF, 'name') and 'short'
        return False

    for p in ctx.run(f, recv=PC, raises='try', inline=('caches._CachePath._trashed_path', 'caches._CachePath._trashed_path_short')):
        moves = p.attempts('rename', 'replace')
        ok = [e for e in moves if not p.failed(e)]
        n['path'] += 1
        for e in p.attempts(*FS_MUT):
            if e.name in ('rename', 'replace'):
                n['move'] += 1
                ctx.check(own(e.target), 'the path is moved', q, f'moves {show(e.target)}', e.where, p)
                kind = in_trash(e.args[0]) if e.args else False
                ctx.check(bool(kind), 'inside the trash', q, f'moves to {show(e.args[0]) if e.args else None}', e.where, p)
                if kind == 'long':
                    # the folder is there, or has been made
                    made = [x for x in p.attempts('mkdir') if not p.failed(x)]
                    par = A(e.args[0], 'parent')
                    there = excluded(e.st, (at('exists', par, e), False)) or excluded(e.st, (at('exists', T, e), False)) or \
                        any(fact[1] and fact[0][0] == 'fs' and fact[0][1] in ('exists', 'is_dir') and fact[0][2] in (pid(par), pid(T)) for fact in p.facts())
                    ctx.check(bool(made) or there, 'missing folders are created', q, 'moved into a folder that may be missing', e.where, p)
                if kind == 'short':
                    n['short'] += 1
                    fails = [x for x in moves if p.failed(x)]
                    ctx.check(bool(fails) and in_trash(fails[0].args[0]) == 'long', 'fallback only when the name is too long', q, 'moves to the short location at once', e.where, p)
                    es = [x[2] for x in p.handled()]
                    num = [eqat(C(_errno.ENAMETOOLONG), A(x, 'errno')) for x in es] + [eqat(A(x, 'errno'), C(_errno.ENAMETOOLONG)) for x in es]
                    ctx.check(any(excluded(e.st, (a, False)) for a in num), 'fallback only when the name is too long', q, 'another error takes the fallback', e.where, p)
            else:
                ctx.check(e.name == 'mkdir' and not own(e.target), 'never deleted', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
                if e.name == 'mkdir':
                    ctx.check(e.kw.get('parents') == TRUE, 'missing folders are created', f'{q}: mkdir', 'parents are not made', e.where, p)
        if p.ret:
            n['ret'] += 1
            ctx.check(len(ok) == 1 and ok[-1] is moves[-1] and p.val == ok[-1].args[0], 'the location returned', q,
                      f'returns {show(p.val)}, moved to {[show(e.args[0]) for e in ok]}', w, p)
        else:
            ctx.check(not ok, 'the location returned', q, 'raises after the move', w, p)
            if p.handled() and p.exc:
                ctx.check(False, 'other errors propagate', q, f'raises {show(p.val)}', w, p)
    for k in ('path', 'move', 'ret', 'short'):
        ctx.need('P21', n[k], 1, f'instances of {k}')

    f = ctx.func_of('utils.fs_safe_id')
    par = [x.arg for x in f.node.args.posonlyargs + f.node.args.args][0]
    for c in SPECIAL:
        for p in ctx.run(f, raises='none', args={par: C(f'a{c}b')}, unroll=64, dicts=True):
            n['char'] += 1
            v = p.val
            bad = p.rai or is_const(v) and (not isinstance(v[2], str) or any(x in v[2] for x in SPECIAL))
            if not bad and not is_const(v):
                img = image(v, C(f'a{c}b'), SPECIAL)
                bad = img is None and not _replaces(v, c) or img is not None and img.get(c, c) in SPECIAL
            ctx.check(not bad, 'special characters are replaced', f'{ctx.short(f)}: {c!r}', f'becomes {show(v)}', f.where, p)
    ctx.need('P21', n['char'], len(SPECIAL), 'special characters')


def _replaces(v, c):
    """a pattern or table that names the character"""
    return any(is_const(x) and isinstance(x[2], str) and c in x[2] for x in subterms(v)) and v[0] == 'call' and 'sub' in str(v[1])


def is_absolute(t):
    name = '' if t[0] != 'call' else t[1][2] if isinstance(t[1], tuple) and t[1][0] == 'm' else str(t[1]).rpartition('.')[2]
    return any(x[0] == 'abs' for x in subterms(t)) or name in ('resolve', 'absolute', 'realpath', 'abspath')


# -- moving ---------------------------------------------------------------------------------
@rule('P22')
def p22(ctx):
    """Typestate of the target over every path and failing step: what is known about the id of what is there when metadata is written to it
    or the file is renamed onto it; the link set aside, put back and removed; and the refusals."""
    f = ctx.func(PC, 'move')
    q = ctx.short(f)
    w = f.where
    n = Counter()
    R, T0, M0 = P('remote'), P('target'), P('meta')
    selfid = (A(SELF, 'id'), A(SELF, 'meta', 'id'))

    def strip(t):
        return pid(t)

    for p in ctx.run(f, recv=PC, raises='all', exc_root='BaseException', max_paths=200000):
        n['path'] += 1
        none = lambda x: p.can((('isc', x, NONE), True))
        # the target: the one given, or the place of the remote under the anchor
        tgt = T0 if p.holds(('isc', T0, NONE)) is False else ('div', A(SELF, 'anchor'), R)
        tp = strip(tgt)
        muts = [e for e in p.attempts(*FS_MUT)]
        news = [e for e in p.evs('new') if e.args and strip(e.args[0]) == tp and e.kw.get('meta') not in (None, NONE)]
        metas = [e for e in p.attempts('_meta_updater', '_meta_setter') if e.target is not None and strip(e.target) == tp] + news
        if p.can((('isc', R, NONE), True), (('isc', T0, NONE), True)) or p.can((('isc', R, NONE), True), (('isc', M0, NONE), True)):
            n['args'] += 1
            ctx.check(p.exc == 'TypeError' and not muts and not metas, 'arguments', q, f'{p.kind} {show(p.val)}', w, p)
            continue

        ids = [x for a, v in p.facts() if a[0] == 'eq' for x, y in ((a[1], a[2]), (a[2], a[1]))
               if y in selfid and x[0] == 'attr' and x[2] == 'id' and (strip(x[1]) == tp or x[1][0] == 'attr' and x[1][2] == 'meta' and strip(x[1][1]) == tp)]
        nometa = any('NoCachedMetadataError' in str(x[3]) for x in p.handled())

        def known(st):
            """nothing is there, nothing there has an id, or it has the id of this object"""
            if any(st.holds(eqat(x, y)) is True for x in ids for y in selfid) or nometa:
                return True
            return excluded(st, (fsat('exists', tgt), True)) and (excluded(st, (fsat('is_symlink', tgt), True)) or excluded(st, (fsat('is_symlink', tgt), True), (fsat('exists', tgt), False)))

        for e in metas:
            n['meta'] += 1
            ctx.check(known(e.st), 'metadata of another object', f'{q}: {e.name.rpartition(".")[2]}', 'metadata is written to a target that may hold another id', e.where, p)
        same = [a for a, v in p.facts() if a[0] == 'eq' and len(a) == 3 and {strip(a[1]), strip(a[2])} == {tp, strip(SELF)}]
        absolute = [a for a in same if all(is_absolute(x) for x in a[1:])]
        if muts:
            n['notself'] += 1
            ctx.check(any(p.holds(a) is False for a in absolute) or any(v is False and 'samefile' in repr(a) for a, v in p.facts()),
                      'onto itself', q, 'not excluded before something is changed', w, p)
        aside = None
        for e in muts:
            src, dst = e.target, e.args[0] if e.args else None
            if e.name in ('rename', 'replace'):
                n['rename'] += 1
                if own(src) and dst is not None and strip(dst) == tp:
                    ctx.check(known(e.st), 'never onto another object', q, 'renamed onto a target that may hold another id', e.where, p)
                    if excluded(e.st, (at('exists', SELF, e), False)):
                        n['onto'] += 1
                elif strip(src) == tp and dst is not None:
                    aside = aside or (None if p.failed(e) else e)
                    ctx.check(known(e.st), 'never onto another object', q, 'a link that may hold another id is set aside', e.where, p)
                    ctx.check(strip(dst) not in (tp, strip(SELF)) and excluded(e.st, (at('exists', src, e), True)), 'only links are set aside', q, f'{show(src)} is renamed to {show(dst)}', e.where, p)
                elif strip(dst) == tp and (aside is not None and src == aside.args[0] or strip(src) != strip(SELF) and any(
                        v and a == ('fs', 'is_symlink', pid(src), e.st.epoch) for a, v in p.facts())):
                    # the link that was set aside (by this call, or what is found under the name for it)
                    n['back'] += 1
                else:
                    ctx.check(False, 'moves of the source and of the link only', q, f'{show(src)} is renamed to {show(dst)}', e.where, p)
            elif e.name == 'unlink':
                n['unlink'] += 1
                if own(src):
                    ctx.check(excluded(e.st, (at('exists', SELF, e), True)) and excluded(e.st, (at('is_symlink', SELF, e), False)), 'only a link is removed', q, 'the source is removed', e.where, p)
                    ctx.check(known(e.st), 'never onto another object', q, 'the source is removed although the target may hold another id', e.where, p)
                else:
                    links = {x.args[0] for x in p.attempts('rename') if strip(x.target) == tp}
                    safe = aside is not None and src == aside.args[0] or src in links or any(
                        x[1] and x[0] == ('fs', 'is_symlink', pid(src), e.st.epoch) for x in p.facts()) and strip(src) not in (tp,)
                    ctx.check(safe, 'removed only once set aside', q, f'{show(src)} is removed', e.where, p)
                    # a leftover that is not the link this call set aside is nobody's but this call's name
            elif e.name == 'mkdir':
                ctx.check(strip(src) not in (tp, strip(SELF)), 'moves of the source and of the link only', f'{q}: mkdir', f'{show(src)} is made', e.where, p)
            else:
                ctx.check(False, 'moves of the source and of the link only', f'{q}: {e.name}', f'{e.name} of {show(src)}', e.where, p)
        # the link is put back when the rename fails
        moved = [e for e in muts if e.name in ('rename', 'replace') and own(e.target)]
        if aside is not None and moved and all(p.failed(e) for e in moved):
            n['failed'] += 1
            s = aside.args[0]
            back = [i for i, e in enumerate(muts) if e.name in ('rename', 'replace') and e.target == s]
            cut = [i for i, e in enumerate(muts) if e.name == 'unlink' and e.target == s]
            looked = any(a[0] == 'fs' and a[2] == pid(s) and (a[1] == 'is_symlink' and v is False or a[1] == 'exists' and v is True) for a, v in p.facts())
            ctx.check(bool(back) or looked, 'the link is put back', q, 'the rename fails and the link stays aside', w, p)
            ctx.check(not cut or back and back[0] < cut[0], 'the link is put back', q, 'the rename fails and the link is removed', w, p)
        if aside is not None and any(not p.failed(e) for e in moved):
            pass
        # refusals
        other = [x for x in ids if p.holds(eqat(x, selfid[0])) is False or p.holds(eqat(x, selfid[1])) is False]
        # that this was asked is known from the checks above
        something = p.holds(fsat('exists', tgt)) is True or p.holds(fsat('is_symlink', tgt)) is True and p.holds(fsat('exists', tgt)) is False
        if other and something and not p.failures and not metas:
            n['other'] += 1
            want = 'PathExistsError' if p.holds(fsat('exists', tgt)) is True else 'WhyDidntThisGetMovedBeforeError'
            ctx.check(p.exc == want, 'another object is refused', f'{q}: {want}', f'{p.kind} {show(p.val)}', w, p)
            ctx.check(not muts, 'another object is refused', f'{q}: {want}', 'something is changed', w, p)
        itself = next((p.holds(a) for a in same), None)
        if itself is True and not p.failures and p.exc not in ('TypeError', 'AssertionError'):
            n['self'] += 1
            ctx.check(p.ret and not muts and not metas and strip(p.val) == tp, 'onto itself', q, f'{p.kind} {show(p.val)}', w, p)
        if p.ret and not p.failures and itself is not True and any(v and a[:3] == ('fs', 'exists', pid(SELF)) for a, v in p.facts()):
            n['done'] += 1
            ctx.check(any(not p.failed(e) and own(e.target) for e in moved), 'the file is moved', q, 'returns without having moved it', w, p)
            parents = {strip(A(tgt, 'parent')), strip(A(tgt, 'local', 'parent'))}
            made = [e for e in p.evs('call') + p.attempts('mkdir', 'makedirs') if e.name.startswith('mkdir') and e.target is not None and strip(e.target) in parents]
            there = any(v and a[0] == 'fs' and a[1] in ('exists', 'is_dir') and a[2] in parents for a, v in p.facts())
            ctx.check(bool(made) or there, 'the folder is there', q, 'moved to a folder that may not be there', w, p)
        if p.ret and itself is not True:
            ctx.check(strip(p.val) == tp, 'the target is returned', q, f'returns {show(p.val)}', w, p)
        islink = any(v and a[:3] == ('fs', 'is_symlink', pid(SELF)) for a, v in p.facts()) and any(not v and a[:3] == ('fs', 'exists', pid(SELF)) for a, v in p.facts())
        if p.ret and not p.failures and itself is not True and islink:
            n['link'] += 1
            cut = [e for e in muts if e.name == 'unlink' and own(e.target)]
            ctx.check(bool(cut), 'the link is moved', q, 'the link stays at its old place', w, p)
            if any(p.holds(eqat(x, y)) is True for x in ids for y in selfid):
                merged = [e for e in metas if e.name == '_meta_updater' and e.args[:1] == (A(SELF, 'meta'),)]
                ctx.check(bool(merged) and (not cut or p.items.index(merged[0]) < p.items.index(cut[0])), 'metadata of the link is merged', q,
                          'the link is removed and its metadata is in no other place', w, p)
        if p.exc in ('PathExistsError', 'WhyDidntThisGetMovedBeforeError') and not p.failures:
            ctx.check(bool(other), 'only another object is refused', q, f'{p.exc} although the target may have the same id', w, p)
    for k in ('link', 'path', 'args', 'meta', 'rename', 'onto', 'back', 'unlink', 'failed', 'other', 'self', 'done'):
        ctx.need('P22', n[k], 1, f'instances of {k}')


# -- verification of data -----------------------------------------------------------------------
M = A(SELF, 'meta')
LOC = A(SELF, 'local')
CYPHERS = ('gval', 'augpathlib.utils.cypher_lookup')
FIELDS = ('size', 'checksum', 'id', 'errors')
META_MODELS = {'meta.PathMeta.items': lambda t, a: ('tup', tuple(('tup', (C(x), A(t, x))) for x in FIELDS)),
               'meta.PathMeta.keys': lambda t, a: ('tup', tuple(C(x) for x in FIELDS)),
               'meta.PathMeta.__iter__': lambda t, a: ('tup', tuple(C(x) for x in FIELDS)),
               'meta.PathMeta.__getitem__': lambda t, a: A(t, a[0][2]) if is_const(a[0]) else None}


def check_record(ctx, p, q, e):
    """the setter call writes the same metadata with checksum-mismatch added to its errors"""
    t = e.args[0] if e.args else NONE
    err = kwarg(t, 'errors') if t[0] == 'new' else None
    good = err is not None and _added(err, A(M, 'errors'))
    ctx.check(good, 'the mismatch is recorded', q, f'the errors become {show(err) if err else None}', e.where, p)
    for x in FIELDS:
        if x != 'errors' and t[0] == 'new':
            ctx.check(kwarg(t, x) == A(M, x), 'the mismatch is recorded', f'{q}: {x}', f'{x} becomes {show(kwarg(t, x)) if kwarg(t, x) else None}', e.where, p)


def _added(err, old):
    mark = C('checksum-mismatch')
    if err[0] == 'bin' and err[1] == 'Add':
        parts = [err[2], err[3]]
    elif err[0] in ('tup', 'list'):
        parts = [x[1] if x[0] == 'star' else ('tup', (x,)) for x in err[1]]
    else:
        return False
    parts = [x[2][0] if x[0] == 'call' and x[1] in ('tuple', 'list') and x[2] else x for x in parts]
    return old in parts and any(x[0] in ('tup', 'list') and mark in x[1] for x in parts)


def check_cypher(ctx, p, q, e):
    """a digest is computed with the cypher the metadata names, or the one of the class"""
    c = e.arg(0, 'cypher')
    name = A(M, 'checksum_cypher')
    isnone = ('isc', name, NONE)
    if excluded(e.st, (isnone, False)) or excluded(e.st, (truthy(name), True)):
        ok = c == A(SELF, 'cypher')
    else:
        ok = c is not None and (c == ('item', CYPHERS, name) or meth(c, 'get') is not None and meth(c)[0] == CYPHERS and meth(c)[2][:1] == (name,))
        ctx.check(excluded(e.st, (isnone, False), (('in', name, CYPHERS), False)) or excluded(e.st, (('in', name, CYPHERS), False)) or excluded(e.st, (('isc', c or NONE, NONE), True)),
                  'unknown cyphers are refused', q, 'a digest is computed without knowing that the cypher exists', e.where, p)
    ctx.check(ok, 'cypher of the metadata', q, f'uses {show(c) if c else "the default"}', e.where, p)


def logged(p, *names):
    return [e for e in p.items if isinstance(e, Event) and e.name in (names or ('warning', 'error', 'critical', 'exception'))]


def sized(x):
    """whether a value can be the size of the cached file"""
    if x[0] == 'attr':
        at = x[1][1] if x[1][0] == 'attr' and x[1][2] == 'meta' else x[1]
        if x[2] == 'size':
            return own(at)
        return x[2] == 'st_size' and any(own(y) for y in subterms(at))
    return x[0] not in ('bound', 'b') and ('size' in repr(x) or 'len' in repr(x) or x[0] in ('havoc', 'phi', 'bin'))


@rule('P23')
def p23(ctx):
    """Dataflow and typestate of a fetch: what is known about the size when data is written, what is compared afterwards and in which order,
    what a mismatch does, and which refusals come before anything happens."""
    f = ctx.func(SSHC, 'fetch')
    q = ctx.short(f)
    w = f.where
    n = Counter()
    LIM = P('size_limit_mb')
    limnone, sizenone, over = ('isc', LIM, NONE), ('isc', A(M, 'size'), NONE), ('lt', LIM, A(M, 'size', 'mb'))
    isdir, nometa, noid = fsat('is_dir', SELF), ('isc', M, NONE), ('isc', A(M, 'file_id'), NONE)
    recorded = ((truthy(A(M, 'errors')), True), (('in', C('checksum-mismatch'), A(M, 'errors')), True))
    for p in ctx.run(f, recv=SSHC, raises='none', dicts=True, models=META_MODELS, attr_types={'meta': ctx.prog.cls('meta.PathMeta')},
                     inline=('caches._CachePath._instance_cypher', 'core.LocalPath.size')):
        puts = [e for e in p.evs('store', 'data')] + p.calls('write_bytes', '_data_setter')
        acts = puts + p.attempts('_meta_setter', 'refresh') + p.muts()
        if p.can((isdir, True)):
            n['dir'] += 1
            ctx.check(p.exc == 'NotImplementedError' and not acts, 'directories are refused', q, f'{p.kind} {show(p.val)}', w, p)
            continue
        if p.can((nometa, True)):
            n['nometa'] += 1
            ctx.check(p.exc == 'NoCachedMetadataError' and not acts, 'missing metadata is refused', q, f'{p.kind} {show(p.val)}', w, p)
            continue
        if p.can((noid, True)):
            es = p.calls('refresh')
            ctx.check(p.ret and not puts and bool(es), 'metadata without a file id is refreshed', q, f'{p.kind} {show(p.val)}', w, p)
            for e in es:
                for i, k in enumerate(('update_data', 'size_limit_mb', 'force')):
                    if k != 'size_limit_mb' and e.target == SELF:
                        ctx.check(e.arg(i, k) == TRUE, 'metadata without a file id is refreshed', q, f'{k} is {show(e.arg(i, k)) if e.arg(i, k) else "left out"}, so that no data arrives', e.where, p)
            continue
        for e in puts:
            n['put'] += 1
            ctx.check(own(e.target) and e.args and e.args[0] == A(SELF, 'data'), 'the data of this object', q, f'{show(e.args[0]) if e.args else None} is written to {show(e.target)}', e.where, p)
            ctx.check(excluded(e.st, (limnone, False), (sizenone, True)), 'unknown sizes are not downloaded under a limit', q, 'data is downloaded', e.where, p)
            ctx.check(excluded(e.st, (limnone, False), (sizenone, False), (over, True)), 'files over the limit are not downloaded', q, 'data is downloaded', e.where, p)
        if puts and p.holds(fsat('is_symlink', SELF)) is True and p.holds(fsat('exists', SELF)) is False:
            n['link'] += 1
            i = p.items.index(puts[0])
            before = [e.name for e in p.items[:i] if isinstance(e, Event) and e.target is not None and own(e.target) and (
                e.name in ('unlink', 'touch') or e.name == '_meta_setter' and e.args[:1] in ((M,), [M]))]
            ctx.check(before == ['unlink', 'touch', '_meta_setter'], 'a metadata link becomes a file with the same metadata', q, f'before the data is written: {before}', w, p)
        elif puts:
            ctx.check(excluded(p.st, (fsat('is_symlink', SELF), True), (fsat('exists', SELF), False)), 'a metadata link becomes a file with the same metadata', q, 'data is written through a metadata link', w, p)
        for e in p.muts() + p.attempts('_meta_setter'):
            if not puts:
                ctx.check(False, 'nothing without a download', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        if p.ret and not puts:
            n['skip'] += 1
            ctx.check(excluded(p.st, (limnone, True)), 'downloaded without a limit', q, 'nothing is downloaded', w, p)
            ctx.check(excluded(p.st, (limnone, False), (sizenone, False), (over, False)), 'downloaded within the limit', q, 'nothing is downloaded', w, p)
            if p.can((limnone, False), (sizenone, False), (over, True)):
                n['over'] += 1
                ctx.check(bool(logged(p)), 'files over the limit are logged', q, 'nothing is logged', w, p)
        if not puts:
            continue
        put = p.items.index(puts[-1])
        # sizes
        sizes = []
        for a, v in p.facts():
            if a[0] == 'eq' and A(M, 'size') in a[1:3]:
                x = a[1] if a[2] == A(M, 'size') else a[2]
                if (mentions(x, LOC) or mentions(x, SELF)) and sized(x):
                    sizes.append((a, v, x))
        def late(x):
            """read after the data was written"""
            evs = [i for i, e in enumerate(p.items) if isinstance(e, Event) and e.result is not None and contains(x, e.result)]
            return all(i > put for i in evs)
        good = [s for s in sizes if late(s[2])]
        n['size'] += 1
        ctx.check(bool(good), 'the size is compared afterwards', q, 'the size of the data is not compared', w, p)
        if any(v is False for _, v, _ in good):
            n['sizediff'] += 1
            ctx.check(p.exc == 'ValueError', 'the size is compared afterwards', q, f'a different size does not raise ValueError: {p.kind}', w, p)
            continue
        if p.rai and p.exc != 'NotImplementedError':
            ctx.check(False, 'the size is compared afterwards', q, f'{p.kind} {show(p.val)}', w, p)
        # checksums
        sums = [e for e in p.calls('checksum') if own(e.target)]
        sets = [e for e in p.attempts('_meta_setter') if p.items.index(e) > put]
        for e in sums:
            n['sum'] += 1
            check_cypher(ctx, p, q, e)
            ctx.check(p.items.index(e) > put, 'the checksum is that of the new data', q, 'computed before the data is written', e.where, p)
        if p.rai:
            continue
        csnone = ('isc', A(M, 'checksum'), NONE)
        cs = [eqat(e.result, A(M, 'checksum')) for e in sums]
        if p.can(*recorded) and not sums:
            n['recorded'] += 1
            ctx.check(excluded(p.st, (recorded[0][0], False)) and excluded(p.st, (recorded[0][0], True), (recorded[1][0], False)) or excluded(p.st, (csnone, False)),
                      'checksums are compared', q, 'the checksum is not compared', w, p)
        elif not sums:
            ctx.check(excluded(p.st, (csnone, False)), 'checksums are compared', q, 'the checksum is not compared', w, p)
        if sums:
            if not sets:
                n['equal'] += 1
                ctx.check(any(excluded(p.st, (csnone, False), (a, False)) for a in cs), 'checksums are compared', q, 'a mismatch is not recorded', w, p)
            for e in sets:
                n['mismatch'] += 1
                ctx.check(any(excluded(e.st, (a, True)) for a in cs), 'checksums are compared', q, 'recorded although the checksums are equal', e.where, p)
                ctx.check(excluded(e.st, (csnone, True)), 'checksums are compared', q, 'recorded although there may be no checksum to compare with', e.where, p)
                check_record(ctx, p, q, e)
    for k in ('dir', 'nometa', 'put', 'link', 'skip', 'over', 'size', 'sizediff', 'sum', 'equal', 'mismatch', 'recorded'):
        ctx.need('P23', n[k], 1, f'instances of {k}')


@rule('P24')
def p24(ctx):
    """Which digest of the data is compared with which field of the metadata on every path of the validation, and what each result does."""
    f = ctx.func(SSHC, 'validate_file')
    q = ctx.short(f)
    w = f.where
    n = Counter()
    et, cs, sz = A(M, 'etag'), A(M, 'checksum'), A(M, 'size')
    szs = (A(LOC, 'meta', 'size'), A(LOC, 'size'))
    for p in ctx.run(f, recv=SSHC, raises='none', dicts=True, models=META_MODELS, attr_types={'meta': ctx.prog.cls('meta.PathMeta')},
                     inline=('caches._CachePath._instance_cypher',)):
        etags = [e for e in p.calls('etag') if own(e.target)]
        sums = [e for e in p.calls('checksum') if own(e.target)]
        sets = p.attempts('_meta_setter')
        log = logged(p)
        for e in p.muts() + p.evs('store'):
            ctx.check(False, 'only the metadata is changed', q, f'{e.name} of {show(e.target)}', e.where, p)
        if p.can((truthy(et), True)):
            n['etag'] += 1
            if not ctx.check(len(etags) == 1 and etags[0].args[:1] in ([A(M, 'chunksize')], (A(M, 'chunksize'),)), 'the etag is compared', q, 'the etag of the data is not computed with the chunksize of the metadata', w, p):
                continue
            r = etags[0].result
            whole = eqat(r, et)
            parts = [eqat(('item', r, C(i)), ('item', et, C(i))) for i in (0, 1)]
            pair = lambda t: next((x for x in (r, et) if t == ('tup', (('item', x, C(0)), ('item', x, C(1))))), t)

            def peeled(t):
                """a whole etag, also as a tuple or a list"""
                while t[0] == 'call' and t[1] in ('tuple', 'list') and len(t[2]) == 1 or t[0] in ('tup', 'list') and len(t[1]) == 1 and t[1][0][0] == 'star':
                    t = t[2][0] if t[0] == 'call' else t[1][0][1]
                return pair(t)
            wholes = [whole] + [a for a in p.st.facts if a[0] == 'eq' and {peeled(x) for x in a[1:]} == {r, et}]
            eq = any(excluded(p.st, (a, False)) for a in wholes) or all(excluded(p.st, (a, False)) for a in parts)
            ne = any(p.holds(a) is False for a in wholes + parts)
            ctx.check(eq or ne, 'the etag is compared', q, 'both parts of the etag are not compared', w, p)
            if ne:
                n['etagdiff'] += 1
                ctx.check(bool(log) or p.rai, 'mismatches are reported', f'{q}: etag', 'nothing is logged', w, p)
            elif eq:
                ctx.check(p.ret and not logged(p, 'error', 'critical', 'exception'), 'mismatches are reported', f'{q}: etag', 'an equal etag is reported', w, p)
            ctx.check(not sets, 'only the metadata is changed', f'{q}: etag', 'metadata is written', w, p)
            continue
        if p.can((truthy(cs), True)):
            n['checksum'] += 1
            if p.rai:
                ok = p.exc == 'NotImplementedError' and p.can((('in', A(M, 'checksum_cypher'), CYPHERS), False)) and not p.can((('isc', A(M, 'checksum_cypher'), NONE), True))
                ctx.check(ok and not sets, 'unknown cyphers are refused', q, f'raises {show(p.val)}', w, p)
                n['unknown'] += 1
                continue
            if not ctx.check(len(sums) == 1, 'the checksum is compared', q, 'the checksum of the data is not computed', w, p):
                continue
            check_cypher(ctx, p, q, sums[0])
            a = eqat(sums[0].result, cs)
            if sets:
                n['mismatch'] += 1
                ctx.check(excluded(p.st, (a, True)), 'the checksum is compared', q, 'recorded although the checksums are equal', w, p)
                ctx.check(bool(log), 'mismatches are reported', f'{q}: checksum', 'nothing is logged', w, p)
                check_record(ctx, p, q, sets[0])
            else:
                n['equal'] += 1
                ctx.check(excluded(p.st, (a, False)), 'the checksum is compared', q, 'a mismatch is not recorded', w, p)
            continue
        ctx.check(not sets and not sums and not etags, 'only what the metadata has', q, 'something else is computed', w, p)
        if p.can((('isc', sz, NONE), False)):
            n['size'] += 1
            atoms = [eqat(s, sz) for s in szs]
            if p.exc == 'SizeError':
                n['sizediff'] += 1
                ctx.check(any(excluded(p.st, (a, True)) for a in atoms), 'the size is compared', q, 'SizeError although the sizes are equal', w, p)
            else:
                ctx.check(p.ret and any(excluded(p.st, (a, False)) for a in atoms), 'the size is compared', q, f'a different size does not raise SizeError: {p.kind}', w, p)
    for k in ('etag', 'etagdiff', 'checksum', 'unknown', 'mismatch', 'equal', 'size', 'sizediff'):
        ctx.need('P24', n[k], 1, f'instances of {k}')


# -- bootstrapping --------------------------------------------------------------------------------
def cleared(p, attr, touching):
    """the attribute is known to be absent at the end: what was learned before a step that may set it does not count"""
    v = None
    for x in p.items:
        if isinstance(x, Event):
            if x.kind == 'store' and x.name == attr and x.target == SELF:
                v = True
            elif x.kind == 'delattr' and x.name == attr and x.target == SELF or x.name == 'pop' and x.target == A(SELF, '__dict__') and x.args and x.args[0] == C(attr):
                v = False
            elif x.name in touching:
                v = None
        elif x[0] == 'fact' and x[1] == ('hasattr', SELF, attr):
            v = x[2]
        elif x[0] == 'raises' and getattr(x[1], 'name', x[1]) in touching:
            v = None
    return v is False


@rule('P25')
def p25(ctx):
    """Typestate of the object being bootstrapped over every exit of every step (failures included): the refusals and selections come before
    the first step that creates anything, and the bootstrap state is cleared on every way out."""
    f = ctx.func(CP, 'bootstrap')
    inner = ctx.func(CP, '_bootstrap')
    q = ctx.short(inner)
    n = Counter()
    PM = P('meta')
    STEPS = ('_meta_updater', '_meta_setter', '_bootstrap_prepare_filesystem', '_bootstrap_data', '_bootstrap_recursive', 'refresh', 'cache_init', 'mkdir_cache')
    mid = A(PM, 'id')
    skip, only, rec = P('skip'), P('only'), P('recursive')
    for p in ctx.run(f, recv=SSHC, raises='all', exc_root='BaseException', inline=('caches._CachePath._bootstrap',), types={'meta': 'meta.PathMeta'},
                     opaque=('meta.PathMeta.__bool__',), max_paths=200000):
        n['path'] += 1
        acts = p.muts() + p.attempts(*STEPS) + [e for e in p.evs('store') if e.name != '_in_bootstrap' and not e.name.startswith('_is_')]
        marks = p.attempts('_mark_sparse')
        acts = [e for e in acts if e not in marks]
        # whatever happens
        if p.evs('store', '_in_bootstrap') or p.attempts(*STEPS):
            n['exit'] += 1
            for a in ('_in_bootstrap', '_meta'):
                ctx.check(cleared(p, a, STEPS), 'no bootstrap state is left', f'{ctx.short(f)}: {a}', f'{a} may be left behind', f.where, p)
            stored = p.evs('store', '_is_sparse_root')
            pending = stored or any(a == ('hasattr', SELF, '_is_sparse_root') and v for a, v in p.facts())
            if pending:
                n['pending'] += 1
                after = [e for e in marks if not stored or p.failed(e) or p.items.index(e) > p.items.index(stored[-1])]
                if ctx.check(bool(after), 'a pending sparse mark is written', ctx.short(f), 'the mark is not written', f.where, p) and not any(p.failed(e) for e in marks):
                    ctx.check(cleared(p, '_is_sparse_root', ()), 'no bootstrap state is left', f'{ctx.short(f)}: _is_sparse_root', 'the mark stays pending', f.where, p)
            else:
                ctx.check(any(a == ('hasattr', SELF, '_is_sparse_root') and not v for a, v in p.facts()), 'a pending sparse mark is written', ctx.short(f), 'not asked whether a mark is pending', f.where, p)
        if p.failures:
            continue
        # metadata without an id
        if p.can((truthy(PM), False)) or p.can((('isc', mid, NONE), True)):
            n['noid'] += 1
            ctx.check(p.exc == 'BootstrappingError' and not acts, 'metadata without an id is refused', q, f'{p.kind} {show(p.val)} after {[e.name for e in acts]}', inner.where, p)
            continue
        roots = [e.result for e in p.calls('_meta_is_root')]
        root = any(p.holds(truthy(r)) is True for r in roots)
        skipped = (truthy(skip), True), (('in', mid, skip), True)
        outside = (truthy(only), True), (('in', mid, only), False)
        if not root:
            for what, pairs in (('skip', skipped), ('only', outside)):
                if p.can(*pairs):
                    n[what] += 1
                    ctx.check(not acts and not p.evs('store', '_is_sparse_root'), 'the selection creates nothing else', f'{q}: {what}', f'{[e.name for e in acts]}', inner.where, p)
        elif p.can(*skipped) and p.can(*outside):
            ctx.check(bool(acts) or p.exc == 'BootstrappingError', 'the root is never skipped', q, 'nothing is done for the root', inner.where, p)
        has = (('isc', A(SELF, 'meta'), NONE), False), (truthy(rec), False)
        if p.can(*has):
            n['has'] += 1
            quiet = p.ret and not acts and not root
            ctx.check((p.exc == 'BootstrappingError' or quiet) and not acts, 'existing metadata is refused', q, f'{p.kind} {show(p.val)} after {[e.name for e in acts]}', inner.where, p)
        if p.ret and not acts:
            sel = excluded(p.st, (skipped[1][0], False))
            cut = excluded(p.st, (truthy(only), False)) and excluded(p.st, *outside[:1], (outside[1][0], True))
            notroot = any(p.holds(truthy(r)) is False for r in roots)
            ctx.check(notroot, 'the root is never skipped', q, 'nothing is created, for the root as well', inner.where, p)
            ctx.check(sel or cut, 'what is selected is bootstrapped', q, 'nothing is created', inner.where, p)
        if p.ret and acts:
            n['done'] += 1
            made = p.attempts('_bootstrap_prepare_filesystem')
            if made:
                ids = [e for e in p.evs('store', '_bootstrapping_id') if p.items.index(e) < p.items.index(made[0])]
                ctx.check(bool(ids) and ids[-1].args[0] == mid, 'bootstrapped with the id of the metadata', q, 'the id is not set before the file system is prepared', inner.where, p)
            ctx.check(bool(made) or bool(p.attempts('_meta_updater')), 'what is selected is bootstrapped', q, 'neither updated nor created', inner.where, p)
    for k in ('path', 'exit', 'pending', 'noid', 'skip', 'only', 'has', 'done'):
        ctx.need('P25', n[k], 1, f'instances of {k}')


# -- creating caches --------------------------------------------------------------------------------
@rule('P28')
def p28(ctx):
    """Guards of the two constructors: what is known about the path when the first thing is written, and which metadata is handed on."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'cache_init')
    q, w = ctx.short(f), f.where
    IM = P('id_or_meta')
    own_cache = (A(SELF, 'cache'), A(SELF, '_cache'))
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        acts = p.calls('_cache_class', '_meta_setter', '_meta_updater', 'anchorClassHere', 'touch', 'mkdir') + p.muts() + [e for e in p.evs('new') if 'ache' in e.name]
        cond = (truthy(own_cache[0]), True), (truthy(A(own_cache[0], 'meta')), True)
        alt = (('isc', own_cache[0], NONE), False), (('isc', A(own_cache[0], 'meta'), NONE), False)
        if p.can(*cond):
            n['has'] += 1
            ctx.check(p.exc == 'CacheExistsError' and not acts, 'existing caches are refused', q, f'{p.kind} {show(p.val)}', w, p)
            continue
        if p.can((fsat('exists', SELF), False)):
            n['missing'] += 1
            ctx.check(p.exc == 'ValueError' and not acts, 'missing paths are refused', q, f'{p.kind} {show(p.val)}', w, p)
            continue
        for e in acts:
            n['act'] += 1
            ctx.check(excluded(e.st, *cond), 'existing caches are refused', f'{q}: {e.name}', 'the path may have cached metadata', e.where, p)
            ctx.check(excluded(e.st, (at('exists', SELF, e), False)), 'missing paths are refused', f'{q}: {e.name}', 'nothing may be there', e.where, p)
        if not ctx.check(p.ret, 'a cache is made', q, f'{p.kind} {show(p.val)}', w, p):
            continue
        made = [e for e in p.calls('_cache_class') if e.result == p.val]
        if not ctx.check(len(made) == 1 and made[0].args[:1] in ((SELF,), [SELF]), 'a cache is made', q, f'returns {show(p.val)}', w, p):
            continue
        m = made[0].kw.get('meta')
        meta = [v for a, v in p.facts() if a[0] == 'isinst' and a[1] == IM and 'PathMeta' in str(a[2])]
        if meta and meta[0]:
            n['meta'] += 1
            ctx.check(m == IM, 'the metadata given', q, f'made with {show(m)}', w, p)
        elif meta:
            n['id'] += 1
            ok = m is not None and m[0] == 'new' and m[1].endswith('PathMeta') and kwarg(m, 'id') == IM
            ctx.check(ok, 'a bare id becomes metadata', q, f'made with {show(m)}', w, p)
        else:
            ctx.check(False, 'a bare id becomes metadata', q, 'not asked whether it is metadata', w, p)
        anch = p.calls('anchorClassHere')
        if p.can((truthy(P('anchor')), False)):
            ctx.check(not anch, 'anchors on request', q, 'the class is anchored', w, p)
    # the constructor of primary caches
    f = ctx.func('caches.CachePath', '__init__')
    q, w = ctx.short(f), f.where
    for p in ctx.run(f, recv=PC, raises='none'):
        sets = p.calls('_meta_setter', '_meta_updater')
        rem, meta = p.holds(truthy(P('remote'))), p.holds(truthy(P('meta')))
        for e in p.muts():
            ctx.check(False, 'only metadata is written', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        for e in sets:
            ctx.check(own(e.target), 'its own metadata', q, f'written to {show(e.target)}', e.where, p)
        if p.can((truthy(P('remote')), True)):
            n['remote'] += 1
            ctx.check(p.ret and [(e.name.rpartition('.')[2], tuple(e.args[:1])) for e in sets] == [('_meta_setter', (A(P('remote'), 'meta'),))], 'the metadata of the remote', q, f'{p.kind}, writes {[(e.name, [show(a) for a in e.args]) for e in sets]}', w, p)
            ctx.check(any(e.args[0] == P('remote') for e in p.evs('store', '_remote')), 'the remote is kept', q, 'not kept', w, p)
        elif p.can((truthy(P('meta')), True)):
            n['given'] += 1
            ctx.check(p.ret and [(e.name.rpartition('.')[2], tuple(e.args[:1])) for e in sets] == [('_meta_updater', (P('meta'),))], 'the metadata given is merged', q, f'{p.kind}, writes {[(e.name, [show(a) for a in e.args]) for e in sets]}', w, p)
        else:
            ctx.check(not sets, 'nothing is written without being given', q, f'{[e.name for e in sets]}', w, p)
            if p.can((('isc', M, NONE), True)):
                n['none'] += 1
                ctx.check(p.exc == 'NoCachedMetadataError', 'no metadata at all is refused', q, f'{p.kind} {show(p.val)}', w, p)
            else:
                n['stored'] += 1
                ctx.check(p.ret, 'no metadata at all is refused', q, f'{p.kind} {show(p.val)} although metadata is stored', w, p)
    for k in ('has', 'missing', 'act', 'meta', 'id', 'remote', 'given', 'none', 'stored'):
        ctx.need('P28', n[k], 1, f'instances of {k}')


# -- the object store ---------------------------------------------------------------------------------
@rule('P46')
def p46(ctx):
    """Typestate of the object store at every change of it, over every exit of every step."""
    f = ctx.func(CP, 'local_data_dir_init')
    q, w = ctx.short(f), f.where
    n = Counter()
    LOD, TO = A(SELF, 'local_objects_dir'), P('symlink_objects_to')

    def lod(t):
        return t is not None and same(t, LOD)

    for p in ctx.run(f, recv=PC, raises='all'):
        def resolved(t, x):
            return t[0] == 'call' and any(r in repr(t[1]) for r in ("'resolve'", 'realpath')) and mentions(t, x) or t[0] in ('new', 'abs', 'strof') and any(
                isinstance(y, tuple) and y and isinstance(y[0], str) and resolved(y, x) for z in t[1:] for y in (z if isinstance(z, tuple) and z and isinstance(z[0], tuple) else (z,)))
        res = [a for a, v in p.facts() if a[0] == 'eq' and len(a) == 3 and any(resolved(x, LOD) and resolved(y, TO) for x, y in (a[1:], a[:0:-1]))]
        res += [a for a, v in p.facts() if 'samefile' in repr(a) and mentions(a, LOD) and mentions(a, TO)]
        for e in p.attempts(*FS_MUT):
            n['mut'] += 1
            if e.name in ('mkdir',):
                continue
            if e.name == 'rmdir' and lod(e.target):
                n['rmdir'] += 1
                ctx.check(excluded(e.st, (at('is_symlink', LOD, e), True)), 'links are left alone', q, 'a link is removed', e.where, p)
            elif e.name in ('symlink', 'symlink_to') and lod(e.target):
                n['link'] += 1
                ctx.check(e.args and same(e.args[0], TO), 'linked to the folder given', q, f'linked to {show(e.args[0]) if e.args else None}', e.where, p)
                removed = any(x.name == 'rmdir' and lod(x.target) and not p.failed(x) for x in p.attempts('rmdir'))
                ctx.check(excluded(e.st, (('isc', TO, NONE), True)), 'linked on request', q, 'linked although no folder is given', e.where, p)
                ctx.check(removed or excluded(e.st, (at('exists', LOD, e), True)) and excluded(e.st, (at('is_symlink', LOD, e), True)), 'never over what exists', q, 'linked where something may be', e.where, p)
            else:
                ctx.check(False, 'nothing else is removed', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        bad = p.calls('rmtree') + [e for e in p.evs('call') if e.name and e.name.rpartition('.')[2] in ('rmtree', 'rmdirtree', 'unlink', 'crumple')]
        for e in bad:
            ctx.check(False, 'nothing is recursively removed', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        if any(lod(e.target) and p.failed(e) for e in p.attempts('rmdir')):
            n['full'] += 1
            ctx.check(p.rai, 'a non-empty folder is refused', q, 'the failure to remove it is swallowed', w, p)
        if p.failures:
            continue
        if p.can((('isc', TO, NONE), False), (fsat('is_symlink', LOD), True)) and any(a[0] == 'fs' and a[1] == 'is_symlink' and v for a, v in p.facts()):
            elsewhere = not res or any(p.holds(a) is False for a in res)
            if elsewhere:
                n['elsewhere'] += 1
                ctx.check(p.rai, 'a link elsewhere is refused', q, f'{p.kind} {show(p.val)}', w, p)
            else:
                n['there'] += 1
                ctx.check(p.ret, 'a link to the same place is left alone', q, f'{p.kind} {show(p.val)}', w, p)
    for k in ('mut', 'rmdir', 'link', 'full', 'elsewhere', 'there'):
        ctx.need('P46', n[k], 1, f'instances of {k}')


# -- deduplication ------------------------------------------------------------------------------------
@rule('P48')
def p48(ctx):
    """The result of every path against the comparisons of the update times it passed, and no change to the file system."""
    f = ctx.func(CP, 'dedupe')
    q, w = ctx.short(f), f.where
    n = Counter()
    O = P('other')
    ids = [eqat(A(SELF, 'id'), A(O, 'id')), eqat(A(SELF, 'meta', 'id'), A(O, 'meta', 'id'))]
    U = lambda x: A(x, 'meta', 'updated')
    L = lambda x: A(x, 'local', 'meta', 'updated')
    for p in ctx.run(f, recv=PC, raises='none'):
        n['path'] += 1
        for e in p.muts() + p.evs('store') + p.calls('_meta_setter', '_meta_updater'):
            ctx.check(False, 'nothing is changed', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        if any(p.holds(i) is False for i in ids):
            n['ids'] += 1
            ctx.check(p.exc == 'ValueError', 'different ids are refused', q, f'{p.kind} {show(p.val)}', w, p)
            continue
        if p.rai:
            ctx.check(p.val[0] != 'newexc', 'one of the two is returned', q, f'{p.exc} for the same id', w, p)
            continue
        ctx.check(any(excluded(p.st, (i, False)) for i in ids), 'different ids are refused', q, 'the ids are not compared', w, p)
        if not ctx.check(p.val in (SELF, O), 'one of the two is returned', q, f'returns {show(p.val)}', w, p):
            continue
        loser = O if p.val == SELF else SELF
        n['winner'] += 1
        # the winner is not older, and on a tie it is not older locally
        ctx.check(excluded(p.st, (('lt', U(p.val), U(loser)), True)), 'the newer one is kept', q, f'returns {show(p.val)}, which may have been updated earlier', w, p)
        tie = (('lt', U(p.val), U(loser)), False), (('lt', U(loser), U(p.val)), False)
        known = (('isc', L(p.val), NONE), False), (('isc', L(loser), NONE), False)
        if p.can(*tie):
            n['tie'] += 1
            ctx.check(excluded(p.st, *tie, *known, (('lt', L(p.val), L(loser)), True)), 'the one newer locally is kept on a tie', q, f'returns {show(p.val)}, which may have been updated earlier', w, p)
            ctx.check(excluded(p.st, *tie, (('isc', L(p.val), NONE), True), (('isc', L(loser), NONE), False)), 'the one newer locally is kept on a tie', q, f'returns {show(p.val)}, which has no local update time', w, p)
            S = lambda x: A(x, 'meta', 'size')
            same_local = (*tie, *known, (('lt', L(p.val), L(loser)), False), (('lt', L(loser), L(p.val)), False))
            if p.can(*same_local):
                n['size'] += 1
                ctx.check(excluded(p.st, *same_local, (('isc', S(p.val), NONE), True), (('isc', S(loser), NONE), False)), 'the one of known size is kept when all times are the same', q,
                          f'returns {show(p.val)}, whose size is unknown', w, p)
    for k in ('path', 'ids', 'winner', 'tie', 'size'):
        ctx.need('P48', n[k], 1, f'instances of {k}')
