"""Rules about attributes, sparse markers and local metadata (core.py)."""
import errno
from ctx import *

KEY, VALUE, NS, FAIL = P('key'), P('value'), P('namespace'), P('fail')
ENOATTR = {'darwin': 93}


def _errs(ctx):
    """errno values a call may report, and those of a missing key"""
    nums = dict(errno.errorcode)
    miss = {errno.ENODATA}
    if ctx.config.platform == 'darwin':
        nums = {k: v for k, v in nums.items() if k != errno.ENODATA}
        nums[93] = 'ENOATTR'
        miss = {93}
    return nums, miss


def _excs(p):
    """exceptions of opaque calls that were caught or left on the path"""
    es = [x[2] for x in p.handled() if x[2][0] == 'exc']
    if p.rai and p.val[0] == 'exc' and p.val not in es:
        es.append(p.val)
    return es


def _plainkey(t):
    """the key as given, or decoded"""
    return t == KEY or t[0] == 'call' and isinstance(t[1], tuple) and t[1][1] == KEY and t[1][2] in ('decode', 'encode')


@rule('P11', configs=('linux-py3.12', 'darwin-py3.12', 'nt-py3.12'), thorough=('linux-py3.11', 'linux-py3.9', 'nt-py3.11'))
def p11(ctx):
    """Typestate of the attribute operations of both helpers: the value is known to be bytes before it is written, the key and namespace
    of the caller reach the store, and the errno decides which errors are replaced, dropped or passed on."""
    nt = ctx.config.os_name == 'nt'
    n = Counter()
    C_ = 'core.LocalPath'
    nums, miss = _errs(ctx)
    bytes_ = ('isinst', VALUE, ('bi', 'bytes'))

    def store(p, *names):
        """accesses to the store: (event, key argument, value or None)"""
        out = []
        if not nt:
            for e in p.attempts(*names):
                out.append((e, e))
        return out

    def site(f, e, p, args):
        """an access goes to the path itself with the key and namespace of the caller"""
        q = ctx.short(f)
        n[q] += 1
        ctx.check(bool(e.args) and same(e.args[0], SELF), 'on the path itself', f'{q}: {e.name}', f'goes to {show(e.args[0]) if e.args else None}', e.where, p)
        ns = e.kw.get('namespace')
        ctx.check(ns == NS, 'namespace of the caller', f'{q}: {e.name}', f'uses namespace {show(ns) if ns else "of the library"}', e.where, p)
        for i, want in args:
            got = e.args[i] if len(e.args) > i else None
            ctx.check(got == want, 'dumb store', f'{q}: {e.name}', f'argument {i} is {show(got) if got else None}', e.where, p)

    def stream(f, p, t, e):
        """a stream opened or removed is the one of this key and namespace on this path"""
        q = ctx.short(f)
        n[q] += 1
        ok = t is not None and t[0] == 'call' and isinstance(t[1], tuple) and same(t[1][1], SELF) and t[1][2] == '_stream'
        if ok:
            k = t[2][0] if t[2] else NONE
            ok = k[0] == 'call' and (k[1] == 'augpathlib.core.ADSHelper._key_convention' or 'key_convention' in str(k[1])) and \
                len(k[2]) == 2 and _plainkey(k[2][0]) and k[2][1] == NS
        ctx.check(ok, 'namespace of the caller', f'{q}: {e.name}', f'uses the stream {show(t) if t else None}', e.where, p)

    # ---- set
    f = ctx.func(C_, 'setxattr')
    q = ctx.short(f)
    for p in ctx.run(f, recv=C_, raises='all'):
        sets = p.attempts('xattr.set') if not nt else [e for e in p.attempts('open-w')]
        for e in sets:
            ctx.check(excluded(e.st, (bytes_, False)), 'bytes only', f'{q}: {e.name}', 'reached with a value that is not bytes', e.where, p)
            if nt:
                stream(f, p, e.target, e)
                ctx.check(e.args[0] == C('wb'), 'dumb store', f'{q}: {e.name}', f'opened as {show(e.args[0])}', e.where, p)
            else:
                site(f, e, p, ((1, KEY), (2, VALUE)))
        if not p.can((bytes_, True)):
            ctx.check(p.exc == 'TypeError' and not sets, 'bytes only', q, 'a value that is not bytes is not rejected', f.where, p)
        if p.ret:
            if nt:
                ws = [e for e in p.calls('write') if e.target[0] == 'file']
                ctx.check(len(ws) == 1 and ws[0].args[0] == VALUE, 'dumb store', q, 'the value is not what is written', f.where, p)
            else:
                ctx.check(len(sets) == 1, 'dumb store', q, 'returns without having written', f.where, p)
        for e in _excs(p):
            if p.can((('excis', e, 'OSError'), True)):
                ctx.check(p.rai and p.val == e, 'errors propagate', q, 'an error of the write is replaced or dropped', f.where, p)
    ctx.need('P11', n[q], 1, q)

    # ---- get
    f = ctx.func(C_, 'getxattr')
    q = ctx.short(f)
    for p in ctx.run(f, recv=C_, raises='all'):
        gets = p.attempts('xattr.get') if not nt else p.attempts('open')
        for e in gets:
            if nt:
                stream(f, p, e.target, e)
            else:
                site(f, e, p, ((1, KEY),))
        if p.ret:
            es = _excs(p)
            ctx.check(not es, 'errors propagate', q, 'an error becomes a value', f.where, p)
            if nt:
                v = p.val
                ctx.check(v[0] == 'call' and isinstance(v[1], tuple) and v[1][2] == 'read' and not v[2] and v[1][1][0] == 'file', 'dumb store', q, f'returns {show(p.val)}', f.where, p)
            else:
                ctx.check(bool(gets) and p.val == gets[-1].result, 'dumb store', q, f'returns {show(p.val)}', f.where, p)
        else:
            _missing(ctx, p, f, nt, nums, miss, n, lambda: p.exc == 'NoStreamError', 'reading a missing key does not raise NoStreamError')
    ctx.need('P11', n[q], 1, q)

    # ---- delete
    f = ctx.func(C_, 'delxattr')
    q = ctx.short(f)
    for p in ctx.run(f, recv=C_, raises='all'):
        dels = p.attempts('xattr.remove') if not nt else p.attempts('unlink')
        for e in dels:
            if nt:
                stream(f, p, e.target, e)
            else:
                site(f, e, p, ((1, KEY),))
        if p.ret and not _excs(p):
            ctx.check(len(dels) == 1, 'dumb store', q, 'returns without having deleted', f.where, p)
        if _excs(p):
            if p.can((truthy(FAIL), False)):
                _missing(ctx, p, f, nt, nums, miss, n, lambda: p.ret or p.holds(truthy(FAIL)) is True, 'deleting a missing key is not silent')
            if p.can((truthy(FAIL), True)) and p.ret:
                ctx.check(False, 'fail is heeded', q, 'an error is dropped although fail was given', f.where, p)
    ctx.need('P11', n[q], 1, q)

    # ---- set many
    f = ctx.func(C_, 'setxattrs')
    q = ctx.short(f)
    D = P('xattr_dict')
    for p in ctx.run(f, recv=C_, raises='none'):
        es = p.calls('setxattr')
        for e in es:
            n['many'] += 1
            k, v = e.arg(0, 'key'), e.arg(1, 'value')
            ns = e.arg(2, 'namespace')
            ctx.check(same(e.target, SELF), 'on the path itself', f'{q}: setxattr', f'goes to {show(e.target)}', e.where, p)
            ctx.check(ns == NS, 'namespace of the caller', f'{q}: setxattr', f'uses namespace {show(ns) if ns else "the default"}', e.where, p)
            ctx.check(_pair(k, v, D), 'every pair', f'{q}: setxattr', f'writes {show(k)} = {show(v)}', e.where, p)
        its = [x for x in p.loops() if x[2] in ('first', 'later')]
        ctx.check(len(es) == len(its) and not p.loops('break') and p.ret, 'every pair', q, 'not every pair is written', f.where, p)
    ctx.need('P11', n['many'], 1, q)

    # ---- read all
    f = ctx.func(C_, 'xattrs')
    q = ctx.short(f)
    for p in ctx.run(f, recv=C_, raises='all'):
        if not nt:
            for e in p.attempts('xattr.get_all'):
                site(f, e, p, ())
            if p.ret:
                v = p.val
                ok = v[0] == 'comp' and v[1] == 'dict' and not v[4] or v[0] == 'call' and v[1] == 'dict'
                ctx.check(ok and any(x[0] == 'call' and x[1] == 'xattr.get_all' for x in subterms(v)), 'dumb store', q, f'returns {show(v)}', f.where, p)
        else:
            if p.ret:
                n[q] += 1
                for e in p.calls('startswith'):
                    a = e.args[0]
                    ctx.check(a != NS and mentions(a, NS), 'namespace of the caller', f'{q}: startswith', 'names of longer namespaces are taken for this one', e.where, p)
        if p.rai and not (p.exc_isa('FileNotFoundError') or p.val[0] == 'exc'):
            ctx.check(False, 'errors propagate', q, f'raises {show(p.val)}', f.where, p)
        for e in _excs(p):
            ctx.check(p.rai, 'errors propagate', q, 'an error is dropped', f.where, p)
            if p.can((('excis', e, 'OSError'), True), (('excis', e, 'FileNotFoundError'), False)):
                ctx.check(p.val == e, 'errors propagate', q, 'an error is replaced', f.where, p)
    ctx.need('P11', n[q], 1, q)

    if nt:
        f = ctx.func(C_, '_stream')
        q = ctx.short(f)
        last = ('item', A(SELF, 'parts'), C(-1))
        for p in ctx.run(f, recv=C_, raises='none'):
            if p.ret:
                n['stream'] += 1
                ctx.check(mentions(p.val, P('name')) and (mentions(p.val, last) or mentions(p.val, A(SELF, 'name'))) and mentions(p.val, C(':')), 'on the path itself', q, f'the stream is {show(p.val)}', f.where, p)
        ctx.need('P11', n['stream'], 1, q)
        f = ctx.func(C_, '_key_convention')
        q = ctx.short(f)
        for p in ctx.run(f, recv=C_, raises='none'):
            ctx.check(p.ret and mentions(p.val, KEY) and mentions(p.val, NS), 'namespace of the caller', q, f'the name is {show(p.val)}', f.where, p)


def _pair(k, v, D):
    """(k, v) is one item of the mapping"""
    if k is None or v is None:
        return False
    if k[0] == 'item' and v[0] == 'item' and k[1] == v[1] and k[2] == C(0) and v[2] == C(1) and k[1][0] == 'elem':
        it = k[1][1]
        return it[0] == 'call' and it[1] == ('m', D, 'items')
    if k[0] == 'elem':
        return v in (('item', D, k), ('call', ('m', D, 'get'), (k,))) and k[1] in (D, ('call', ('m', D, 'keys'), ()))
    return False


def _missing(ctx, p, f, nt, nums, miss, n, good, msg):
    """which errors mean a missing key"""
    q = ctx.short(f)
    for e in _excs(p):
        if not nt and e[2] and 'xattr' not in str(e[2][0]):
            continue
        if nt:
            if not p.can((('excis', e, 'FileNotFoundError'), False)) or p.holds(('excis', e, 'FileNotFoundError')) is True:
                n['miss'] += 1
                ctx.check(good(), 'missing key', q, msg, f.where, p)
            elif p.holds(('excis', e, 'FileNotFoundError')) is None and p.rai and p.val == e:
                continue        # outside of the attempt
            else:
                ctx.check(p.rai and p.val == e, 'other errors propagate', q, 'an error that is no missing stream is replaced or dropped', f.where, p)
            continue
        for num, sym in sorted(nums.items()):
            if not p.can((('excis', e, 'OSError'), True), (('eq', ('attr', e, 'errno'), C(num)), True)):
                continue
            if num in miss:
                n['miss'] += 1
                ctx.check(good(), 'missing key', q, msg, f.where, p)
            else:
                ctx.check(p.rai and p.val == e, 'other errors propagate', q, f'{sym} is replaced or dropped', f.where, p)
        if p.can((('excis', e, 'OSError'), False)):
            ctx.check(p.rai and p.val == e, 'other errors propagate', q, 'an exception that is no OSError is replaced or dropped', f.where, p)


# ------------------------------------------------------------------ sparse ----
@rule('P12', configs=('linux-py3.12', 'nt-py3.12'), thorough=('darwin-py3.12', 'linux-py3.11'))
def p12(ctx):
    """Agreement of the three sibling operations on the marker: the key written, deleted and read is one term, the answer of the path
    itself comes first, then its ancestors, and the search ends where a path is its own parent."""
    n = Counter()
    for c in ('core.LocalPath', 'caches.CachePath', 'caches.PrimaryCache', 'caches.EatCache', 'caches.SymlinkCache'):
        keys = {}
        for name in ('_mark_sparse', '_clear_sparse', '_sparse_root'):
            f = ctx.func(c, name)
            q = ctx.short(f)
            ks = set()
            for p in ctx.run(f, recv=c, raises='try'):
                for e in p.attempts('setxattr', 'delxattr', 'getxattr'):
                    n['attr'] += 1
                    k = e.arg(0, 'key')
                    ks.add(('attr', k, e.arg(2, 'namespace') if name != '_sparse_root' else e.arg(1, 'namespace')))
                    ctx.check(e.name == {'_mark_sparse': 'setxattr', '_clear_sparse': 'delxattr', '_sparse_root': 'getxattr'}[name], 'one marker', f'{c}: {name}', f'{e.name}', e.where, p)
                    ctx.check(same(e.target, SELF) or same(e.target, A(SELF, 'local')), 'one marker', f'{c}: {name}', f'on {show(e.target)}', e.where, p)
                for e in p.attempts('touch', 'unlink', 'open-w'):
                    n['file'] += 1
                    ks.add(('file', e.target))
                    ctx.check(e.name == 'unlink' if name == '_clear_sparse' else name == '_mark_sparse' and e.name != 'unlink', 'one marker', f'{c}: {name}', f'{e.name}', e.where, p)
                if name == '_sparse_root':
                    for a, v in p.facts():
                        if a[0] == 'fs' and a[1] in ('exists', 'is_file'):
                            ks.add(('file', a[2]))
                    _search(ctx, c, q, f, p, n)
                elif p.ret:
                    ctx.check(bool(p.attempts('setxattr', 'delxattr', 'touch', 'unlink', 'open-w')), 'one marker', f'{c}: {name}', 'does nothing', f.where, p)
            keys[name] = {(k[0], pid(k[1])) if k[0] == 'file' else k for k in ks}
        ctx.check(len(set(map(frozenset, keys.values()))) == 1 and len(keys['_mark_sparse']) == 1, 'one marker', c,
                  f'marks {sorted(map(str, keys["_mark_sparse"]))}, clears {sorted(map(str, keys["_clear_sparse"]))}, asks {sorted(map(str, keys["_sparse_root"]))}',
                  ctx.func(c, '_sparse_root').where)
        # the value that is written is the value that is looked for
        f = ctx.func(c, '_mark_sparse')
        vals = {e.arg(1, 'value') for p in ctx.run(f, recv=c, raises='none') for e in p.calls('setxattr')}
        f2 = ctx.func(c, '_sparse_root')
        for p in ctx.run(f2, recv=c, raises='none'):
            g = p.calls('getxattr')
            if g and vals and p.ret:
                w = next(iter(vals))
                t = truth_under(p.st, p.val, ((('eq', g[-1].result, w), True),))
                ctx.check(len(vals) == 1 and (t is True or p.val == g[-1].result), 'one marker', f'{c}: value', f'the value {show(w)} that is written is not the one looked for', f2.where, p)
        # asking
        f = ctx.func(c, 'is_sparse')
        for p in ctx.run(f, recv=c, raises='none'):
            r = p.calls('_sparse_root')
            if not r:
                ctx.check(False, 'asks', ctx.short(f), 'does not look for the marker', f.where, p)
                continue
            n['ask'] += 1
            r = r[-1].result
            t = truth_under(p.st, p.val, ((('isc', r, TRUE), True), (truthy(r), True), (('eq', r, NONE), False)))
            u = truth_under(p.st, p.val, ((('eq', r, NONE), True), (truthy(r), False)))
            ctx.check(t in (True, 'contradiction') and u in (False, 'contradiction'), 'asks', ctx.short(f), f'answers {t} when marked and {u} when not', f.where, p)
    ctx.need('P12', n['attr'], 6, 'attribute markers')
    ctx.need('P12', n['file'], 2, 'marker files')
    ctx.need('P12', n['up'], 2, 'searches upward')
    ctx.need('P12', n['root'], 2, 'ends of the search')
    ctx.need('P12', n['ask'], 4, 'is_sparse')


def _search(ctx, c, q, f, p, n):
    ups = [e for e in p.calls('_sparse_root')]
    loc = A(SELF, 'local')
    par = (A(SELF, 'parent'), A(loc, 'parent'))
    roots = [eqat(SELF, A(SELF, 'parent')), eqat(loc, A(loc, 'parent'))]
    at_root = any(p.holds(a) is True for a in roots)
    looked = bool(p.attempts('getxattr')) or any(a[0] == 'fs' and a[1] in ('exists', 'is_file') and mentions(a[2], A(SELF, '_sparse_marker')) or
                                                  a[0] == 'fs' and a[1] in ('exists', 'is_file') and a[2][0] == 'div' for a, v in p.facts())
    for e in ups:
        n['up'] += 1
        ctx.check(e.target in par, 'ancestors', f'{q}: up', f'continues at {show(e.target)}', e.where, p)
        ctx.check(any(excluded(e.st, (a, True)) for a in roots), 'stops at the root', f'{q}: up', 'the search continues at the root', e.where, p)
        ctx.check(looked, 'the path first', f'{q}: up', 'the path itself is not looked at', e.where, p)
        if p.ret:
            ctx.check(p.val == e.result, 'ancestors', f'{q}: up', f'the answer of the ancestors becomes {show(p.val)}', f.where, p)
        for a, v in p.facts():
            if a[0] == 'fs' and a[1] in ('exists', 'is_file'):
                ctx.check(v is False, 'the path first', f'{q}: up', 'goes up although the path is marked', f.where, p)
        for g in p.attempts('getxattr'):
            ctx.check(p.failed(g), 'the path first', f'{q}: up', 'goes up although the path is marked', f.where, p)
    if p.ret and not ups:
        if at_root:
            n['root'] += 1
            ctx.check(p.val in (NONE, FALSE), 'stops at the root', f'{q}: root', f'answers {show(p.val)} at the root', f.where, p)
        else:
            ctx.check(looked, 'the path first', f'{q}: own', 'answers without having looked', f.where, p)
            ctx.check(not any(p.failed(g) for g in p.attempts('getxattr')), 'ancestors', f'{q}: up', 'a path without marker does not ask its ancestors', f.where, p)
            marked = [a for a, v in p.facts() if a[0] == 'fs' and a[1] in ('exists', 'is_file') and v]
            if not p.attempts('getxattr'):
                ctx.check(bool(marked) and p.val == TRUE, 'the path first', f'{q}: own', f'answers {show(p.val)} without having asked the ancestors', f.where, p)


# -------------------------------------------------------------- local meta ----
FIELDS = dict(size='st_size', created='st_mtime', updated='st_ctime', file_id='st_ino', user_id='st_uid', gid='st_gid', mode='st_mode')


def _stat_source(t, field):
    for x in subterms(t):
        if x[0] == 'attr' and x[2] == field:
            return x[1]
    return None


@rule('P44', thorough=('linux-py3.11', 'darwin-py3.12'))
def p44(ctx):
    """Provenance of every field of the constructed metadata, and the guard of the stored answer, on every path of meta and meta_no_checksum."""
    c = 'core.LocalPath'
    n = Counter()
    EX = fsat('exists', SELF)
    for name, cs in (('meta', True), ('meta_no_checksum', False)):
        f = ctx.func(c, name)
        q = ctx.short(f)
        ps = ctx.run(f, recv=c, raises='all', inline=('core.LocalPath._meta_maker',), exc_root='Exception')
        stored = {}
        for p in ps:
            for e in p.evs('store'):
                if same(e.target, SELF):
                    stored.setdefault(e.name, set()).add(e.args[0])
        for p in ps:
            evs = {e.name: e for e in p.evs('store') if same(e.target, SELF)}
            news = [e for e in p.evs('new') if e.name.endswith('.PathMeta')]
            # a remembered time without remembered metadata of that time
            for a in evs:
                if a == '_meta':
                    continue
                if any(x[0] == 'attr' and x[2] in ('st_ctime', 'st_mtime') for x in subterms(evs[a].args[0])):
                    n['time'] += 1
                    ctx.check('_meta' in evs, 'reuse only when unchanged', f'{q}: {a}', 'the times are remembered although the metadata is not replaced', evs[a].where, p)
            if not p.ret:
                continue
            v = p.val
            if p.holds(EX) is False:
                n['missing'] += 1
                ok = v[0] == 'new' and v[1].endswith('.PathMeta') and {k for k in kwnames(v) if kwarg(v, k) != NONE} == {'id', 'name'}
                ctx.check(ok, 'missing path', q, f'gives {show(v)}', f.where, p)
                if ok:
                    ctx.check(kwarg(v, 'name') == A(SELF, 'name') and mentions(kwarg(v, 'id'), SELF), 'missing path', q, f'gives {show(v)}', f.where, p)
                continue
            ctx.check(excluded(p.st, (EX, False)), 'missing path', q, 'a missing path is treated as a file', f.where, p)
            if v == A(SELF, '_meta') and not news:
                n['reuse'] += 1
                known = [a for a, b in p.facts() if b and a[0] in ('eq', 'is') and any(_own(x) for x in a[1:3] if isinstance(x, tuple))]
                fields, ok = set(), True
                for a in known:
                    own = next((x for x in a[1:3] if isinstance(x, tuple) and _own(x)), None)
                    other = a[2] if a[1] == own else a[1]
                    got = [x[2] for x in subterms(other) if x[0] == 'attr' and x[2].startswith('st_')]
                    if not got:
                        continue
                    base, path_ = _ownname(own)
                    if path_ is None and stored.get(base) is not None and any(_norm(other) == _norm(s) for s in stored[base]):
                        fields |= set(got)
                    elif path_ is not None and any(s[0] in ('tup', 'list') and len(s[1]) > path_ and _norm(s[1][path_]) == _norm(other) for s in stored.get(base, ())):
                        fields |= set(got)
                    else:
                        ok = False
                ctx.check(ok and {'st_ctime', 'st_mtime'} <= fields, 'reuse only when unchanged', f'{q}: stored answer', f'reused after comparing only {sorted(fields)}', f.where, p)
                if cs:
                    isf = fsat('is_file', SELF)
                    has = A(SELF, '_meta', 'checksum')
                    ctx.check(excluded(p.st, (('eq', has, NONE), True), (isf, True)) or excluded(p.st, (truthy(has), False), (isf, True)),
                              'reuse only with a checksum', f'{q}: stored answer', 'an answer without checksum is reused', f.where, p)
                continue
            if not ctx.check(v[0] == 'new' and v[1].endswith('.PathMeta'), 'fields', q, f'returns {show(v)}', f.where, p):
                continue
            n['made'] += 1
            src = set()
            for k, fld in FIELDS.items():
                t = kwarg(v, k)
                s = _stat_source(t, fld) if t is not None else None
                other = [x[2] for x in subterms(t) if x[0] == 'attr' and str(x[2]).startswith('st_') and x[2] != fld] if t is not None else []
                ctx.check(s is not None and not other, 'fields from the stat', f'{q}: {k}', f'{k} is {show(t) if t else "not set"}', f.where, p)
                if s is not None:
                    src.add(s)
            ctx.check(len(src) == 1 and all(_is_stat(s) for s in src), 'fields from the stat', q, f'fields come from {[show(s) for s in src]}', f.where, p)
            for k, w in (('name', A(SELF, 'name')), ('id', A(SELF, 'id')), ('parent_id', A(SELF, 'parent_id'))):
                ctx.check(kwarg(v, k) == w, 'fields', f'{q}: {k}', f'{k} is {show(kwarg(v, k)) if kwarg(v, k) else "not set"}', f.where, p)
            sums = [e for e in p.calls('checksum') if same(e.target, SELF)]
            got = kwarg(v, 'checksum')
            cy = kwarg(v, 'checksum_cypher')
            if cs:
                ok = len(sums) == 1 and got == sums[0].result
                if ctx.check(ok, 'checksum when asked for', q, f'checksum is {show(got) if got else "not set"}', f.where, p):
                    a = sums[0].arg(0, 'cypher')
                    named = cy is not None and cy[0] == 'item' and cy[2] == a
                    ctx.check(named or cy in (None, NONE) and p.holds(truthy(got)) is False, 'checksum names its cypher', q, f'the cypher is given as {show(cy) if cy else None}, it was {show(a) if a else None}', f.where, p)
                    n['cypher'] += named
            else:
                ctx.check(not sums and got in (None, NONE), 'checksum when asked for', q, 'a checksum is computed though it was not asked for', f.where, p)
            ctx.check('_meta' not in evs or evs['_meta'].args[0] == v, 'stored answer', q, 'something else is stored', f.where, p)
        ctx.need('P44', n['missing'], 1, f'{q}: missing')
        ctx.need('P44', n['made'], 1, f'{q}: made')
        if cs:
            ctx.need('P44', n['cypher'], 1, 'cypher')
    f = ctx.func(c, 'meta', 'setter')
    for p in ctx.run(f, recv=c, raises='none'):
        ctx.check(p.rai and not p.evs('store') and not p.muts(), 'cannot be set', ctx.short(f), 'metadata of a local path can be set', f.where, p)
    for name in ('created', 'size'):
        f = ctx.func(c, name)
        for p in ctx.run(f, recv=c, raises='none'):
            ctx.check(p.ret and p.val != NONE, 'fields', ctx.short(f), 'returns nothing', f.where, p)


def _own(x):
    return _ownname(x)[0] is not None


def _ownname(x):
    if x[0] == 'item' and is_const(x[2]):
        b, k = _ownname(x[1])
        return b, x[2][2]
    if x[0] == 'attr' and x[1] == SELF:
        return x[2], None
    return None, None


def _norm(t):
    """a stat term without the function that made it: a field of the stat of the path"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'attr' and str(t[2]).startswith('st_'):
            return ('st', t[2])
        return tuple(_norm(x) for x in t[:2]) if t[0] in ('tup', 'list') else tuple(_norm(x) for x in t)
    return t


def _is_stat(s):
    return s[0] == 'call' and (isinstance(s[1], tuple) and s[1][1] == SELF and s[1][2] in ('stat', '_stat') or s[1] in ('os.stat',) and s[2] and same(s[2][0], SELF))


# ------------------------------------------------------ content_different ----
@rule('P45')
def p45(ctx):
    """Truth table of both content_different over the presence and equality of checksums, sizes and update times."""
    O = P('other')
    f = ctx.func('meta.PathMeta', 'content_different')
    ps = ctx.run(f, recv='meta.PathMeta', raises='none')
    a = [truthy(A(SELF, 'checksum')), truthy(A(O, 'checksum')), eqat(A(SELF, 'checksum'), A(O, 'checksum')),
         eqat(A(SELF, 'size'), A(O, 'size')), ('lt', A(SELF, 'updated'), A(O, 'updated'))]

    def want(sc, oc, ceq, seq, newer):
        if sc and oc:
            return not ceq
        if ceq and sc != oc:
            return None         # impossible
        return (not seq) or newer
    table(ctx, 'compares', ctx.short(f), ps, a, want, f.where)
    f = ctx.func('core.LocalPath', 'content_different')
    q = ctx.short(f)
    cm = A(SELF, 'cache', 'meta')
    n = Counter()
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        if not ctx.check(p.ret, 'local', q, 'raises', f.where, p):
            continue
        has = p.holds(truthy(A(cm, 'checksum')))
        if has is None:
            nn = p.holds(('eq', A(cm, 'checksum'), NONE))
            has = None if nn is None else not nn
        v = p.val
        if has:
            n['has'] += 1
            e = p.calls('content_different')
            ok = bool(e) and v == e[-1].result and {e[-1].target, e[-1].args[0]} == {A(SELF, 'meta'), cm} and e[-1].target == A(SELF, 'meta')
            ok = ok or v[0] == 'not' and v[1][0] == 'b' and v[1][1] in (eqat(A(SELF, 'meta', 'checksum'), A(cm, 'checksum')),)
            for s in p.calls('checksum'):
                if same(s.target, SELF) and v == ('not', ('b', eqat(s.result, A(cm, 'checksum')))):
                    ok = True
            ctx.check(ok, 'local against the stored checksum', q, f'answers {show(v)}', f.where, p)
        else:
            n['not'] += 1
            mine = [s.result for s in p.calls('checksum') if same(s.target, SELF)]
            theirs = [s.result for s in p.calls('checksum') if same(s.target, A(SELF, 'cache'))]
            ok = bool(mine) and bool(theirs) and v == ('not', ('b', eqat(mine[-1], theirs[-1])))
            ctx.check(ok, 'asks the cache for a checksum', q, f'answers {show(v)}', f.where, p)
    ctx.need('P45', n['has'], 1, 'stored checksum')
    ctx.need('P45', n['not'], 1, 'no stored checksum')
