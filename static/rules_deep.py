"""Which cypher a digest is made with, and what happens when arguments are left out."""
import ast
from ctx import *
from model import Class, Func
from rules_caches import own
from rules_remotes import CP, RP
from rules_extra import passes, yields
from consts import possible, Open


# -- cyphers -------------------------------------------------------------------------------------
@rule('P75')
def p75(ctx):
    """Where the hasher of every digest that is returned comes from, against what the path knows of the cypher that was asked for, that of the class of the cache and that of the path."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'checksum')
    q = ctx.short(f)
    CY, EX = P('cypher'), P('extra_cyphers')
    CLS, OWN = A(SELF, '_cache_class', 'cypher'), A(SELF, 'cypher')

    def origin(t):
        """where a hasher that is not an extra one comes from"""
        if t[0] != 'call' or mentions(t, EX):
            return None
        if isinstance(t[1], tuple) and t[1][0] == 'm':
            if t[1][2] == 'value':
                return 'asked' if t[1][1] == CY else 'class' if t[1][1] == CLS else 'self' if t[1][1] == OWN else 'other' if t[1][1][0] in ('gval', 'ext') else None
            if t[1][2] == 'cypher':
                return {A(SELF, '_cache_class'): 'class', SELF: 'self'}.get(t[1][1], 'other')
            return None
        return 'default' if isinstance(t[1], str) and (t[1].endswith('default_cypher') or t[1] == 'hashlib.blake2b') else 'other' if isinstance(t[1], str) and t[1].startswith('hashlib.') else None

    def has(p, t):
        """does the path know that there is a cypher: True, False, None"""
        v = p.holds(('hasattr', t[1], 'cypher'))
        if v is None and p.holds(('isc', t, NONE)) is not None:
            v = not p.holds(('isc', t, NONE))
        return v

    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        n['path'] += 1
        isfile = p.holds(fsat('is_file', SELF))
        if not p.ret or p.val in (NONE, None):
            ctx.check(isfile is False or p.rai, 'every file has a checksum', q, f'{p.kind} nothing for a file', f.where, p)
            continue
        got = {o for t in subterms(p.val) for o in [origin(t)] if o}
        n['digest'] += 1
        if not ctx.check(len(got) == 1, 'one cypher', q, f'made with {sorted(got)}', f.where, p):
            continue
        got = got.pop()
        n[got] += 1
        given = p.holds(('isc', CY, NONE)) is not True
        if given:
            ctx.check(got == 'asked', 'the cypher asked for', q, f'a cypher may be asked for and that of the {got} is used', f.where, p)
        else:
            equal = lambda t: any(a[0] == 'eq' and t in a[1:] and v is True for a, v in p.facts())
            other = lambda t: has(p, t) is True and not equal(t)
            ctx.check(got in ('class', 'self', 'default'), 'the cypher of the class', q, f'uses {got}', f.where, p)
            if got == 'class':
                ctx.check(has(p, CLS) is not False, 'the cypher of the class', q, 'there is none', f.where, p)
            else:
                ctx.check(not other(CLS) and any(mentions(a, A(SELF, '_cache_class')) for a, v in p.facts()), 'the cypher of the class', q, f'that of the {got} is used instead', f.where, p)
                ctx.check(got == 'self' or not other(OWN), 'the cypher of the class', q, f'that of the {got} is used instead', f.where, p)
        ex = p.holds(truthy(EX))
        single = p.val[0] == 'call' and isinstance(p.val[1], tuple) and p.val[1][2] == 'digest'
        ctx.check(ex is not None and single is not ex, 'a digest for each cypher', q, f'gives {show(p.val)[:80]} {"with" if ex else "without"} extra cyphers', f.where, p)
    f = ctx.func('core.LocalPath', '_meta_maker')
    q = ctx.short(f)
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        for e in p.calls('checksum'):
            if not same(e.target, SELF):
                continue
            a = e.arg(0, 'cypher')
            if a == CLS:
                ctx.check(p.holds(truthy(CLS)) is not False, 'the cypher of the class', q, 'there is none', e.where, p)
                n['meta'] += 1
            elif a in (None, NONE):
                n['meta'] += 1
            else:
                known = p.holds(truthy(CLS)) is False or p.holds(('isc', CLS, NONE)) is True or p.holds(truthy(A(SELF, '_cache_class'))) is False or \
                    p.holds(('isc', A(SELF, '_cache_class'), NONE)) is True or p.holds(('hasattr', A(SELF, '_cache_class'), 'cypher')) is False
                ctx.check(known, 'the cypher of the class', q, f'{show(a)} is used instead', e.where, p)
    for k in ('asked', 'class', 'default', 'meta'):
        ctx.need('P75', n[k], 1, f'digests made with the cypher {k}')


@rule('P44')
def p44_etag(ctx):
    """The instants, the cypher and the etag of local metadata on every path, and what is known of a stored answer when an etag is asked for."""
    n = Counter()
    f = ctx.func('core.LocalPath', '_meta_maker')
    q = ctx.short(f)
    CH = P('chunksize')
    M = A(SELF, '_meta')
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        if not p.ret:
            continue
        v = p.val
        asked = p.holds(truthy(CH))
        if asked is None and p.holds(('isc', CH, NONE)) is not None:
            asked = not p.holds(('isc', CH, NONE))
        if v == M:
            n['reuse'] += 1
            eq = any(b is True and a[0] == 'eq' and A(M, 'chunksize') in a[1:] and CH in a[1:] for a, b in p.facts())
            no = p.st.fs('is_file', SELF) is False or any(b is False and a[:3] == ('fs', 'is_file', pid(SELF)) for a, b in p.facts())
            ctx.check(asked is False or eq or no, 'the etag asked for', f'{q}: stored answer', 'an answer without the etag is reused', f.where, p)
            continue
        if v[0] != 'new' or not v[1].endswith('.PathMeta') or kwarg(v, 'size') in (None, NONE):
            continue
        n['made'] += 1
        for k in ('created', 'updated'):
            t = kwarg(v, k)
            calls = [x for x in subterms(t) if x[0] == 'call' and 'fromtimestamp' in repr(x[1])] if t else []
            ctx.check(bool(calls) and all('utc' in repr(x[1]) and 'utcfrom' not in repr(x[1]) or 'timezone' in repr(x[2]) or 'utc' in repr(x[2]) for x in calls) or t is not None and not calls,
                      'instants, not local times', f'{q}: {k}', f'{k} is {show(t) if t else "not set"}', f.where, p)
        et, ch = kwarg(v, 'etag'), kwarg(v, 'chunksize')
        es = [e for e in p.calls('etag') if same(e.target, SELF)]
        if asked is True:
            n['etag'] += 1
            ctx.check(len(es) == 1 and et == es[0].result and es[0].args[:1] in ((CH,), [CH]) and ch == CH, 'the etag asked for', q, f'the etag is {show(et) if et else "not set"} of chunks of {show(ch) if ch else None}', f.where, p)
        elif asked is False:
            ctx.check(et in (None, NONE) and not es, 'the etag asked for', q, 'an etag is computed though it was not asked for', f.where, p)
    for k in ('reuse', 'made', 'etag'):
        ctx.need('P44', n[k], 1, k)


# -- only what is dangerous is refused -------------------------------------------------------------
@rule('P02')
def p02_only(ctx):
    """Constant propagation of paths of every length, with and without a home in them, through the guards: which of them a refusal can be about."""
    n = Counter()
    f = ctx.func('core.LocalPath', 'rmtree')
    q = ctx.short(f)
    DZ, PARTS = P('DANGERZONE'), A(SELF, 'parts')
    points = []
    for parts in (('/',), ('/', 'a'), ('/', 'home'), ('/', 'a', 'b'), ('/', 'home', 'a'), ('/', 'a', 'home'), ('/', 'home', 'a', 'b'), ('/', 'a', 'b', 'c'), ('/', 'a', 'b', 'c', 'd')):
        for danger in (True, False, None, 1):
            for absolute in (True, False):
                for here in (True, False):
                    points.append((parts, danger, absolute, here))
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        if p.exc != 'WillNotRemovePathError' or p.calls('iterdir') or p.evs('effect'):
            continue
        n['refusal'] += 1
        for parts, danger, absolute, here in points:
            must = not absolute or danger is not True and (len(parts) <= 2 or len(parts) <= 3 and 'home' in parts or here)
            if must:
                continue

            def look(t):
                if t == PARTS:
                    return (parts,)
                if t == DZ:
                    return (danger,)
                if t[0] == 'call' and isinstance(t[1], tuple) and t[1][1:] == (SELF, 'is_absolute'):
                    return (absolute,)

            def place(a):
                return a[0] == 'eq' and len(a) == 3 and SELF in map(pid, a[1:]) and ('cwd' in repr(a) or 'getcwd' in repr(a))
            n['point'] += 1
            if any(place(a) and v is not here for a, v in p.facts()):
                continue
            try:
                ok = possible(p.facts(), look, ignore=place)
            except Open:
                ok = None
            ctx.check(ok is False, 'only dangerous paths are refused', q, f'{"/".join(parts)} (DANGERZONE={danger}, {"absolute" if absolute else "relative"}) is refused', f.where, p)
    ctx.need('P02', n['refusal'], 4, 'refusals')


# -- what is left out ----------------------------------------------------------------------------
DEFAULTS = {
    'P02': [('rmtree', 'DANGERZONE', (False, None))],
    'P03': [('rmtree', 'ignore_errors', (False, None)), ('rmtree', 'onerror', (None,))],
    'P05': [(x, y, (False, None)) for x in ('copy_to', 'copy_from', 'copy_outto', 'copy_infrom') for y in ('force', 'copy_cache_meta')],
    'P06': [('_data_setter', 'append', (False,))],
    'P10': [('popd', 'N', (0,))],
    'P11': [('delxattr', 'fail', (False, None))],
    'P14': [('_meta_impl', 'match_name', (False,))],
    'P19': [('_meta_setter', 'memory_only', (False, None))],
    'P20': [('_meta_updater', 'fetch', (True,))],
    'P23': [('fetch', 'size_limit_mb', int), ('refresh', 'size_limit_mb', int), ('bootstrap', 'size_limit_mb', int)],
    'P25': [('bootstrap', x, (False, None)) for x in ('parents', 'recursive', 'fetch_data')] + [('bootstrap', x, ((), None)) for x in ('only', 'skip', 'sparse')] + [('_bootstrap', x, (False, None)) for x in ('parents', 'recursive', 'fetch_data')] +
           [(y, x, ((), None, False)) for x in ('only', 'skip', 'sparse') for y in ('_bootstrap', '_bootstrap_recursive')],
    'P26': [('anchorClassHere', 'remote_init', (True,)), ('anchorToCache', 'init', (True,))],
    'P31': [('_cache_setter', 'update_meta', (True,))],
    'P32': [('update_cache', 'fetch', (True,))],
    'P44': [('_meta_maker', 'checksum', (True,))],
    'P46': [('local_data_dir_init', 'exist_ok', (True,)), ('local_data_dir_init', 'symlink_objects_to', (None,))],
    'P48': [('dedupe', 'pretend', (False,))],
    'P54': [('show', 'ref', ('', None, 'HEAD'))],
    'P58': [('mkdir_remote', 'parents', (False,))],
    'P66': [('refresh', 'update_data', (False,)), ('refresh', 'force', (False,))],
    'P70': [('access', 'mode', ('read', 4)), ('access', 'follow_symlinks', (True,))],
    'P71': [('from_symlink', 'match_name', (True,))],
    'P72': [('find_cache_root', 'fail', (False, None))],
    'P74': [('bump', 'pretend', (False,)), ('bump', 'next_phase', ('current',)), ('bump', 'rel_comp', ('release',))],
}


def _defaults(pid, table):
    def check(ctx):
        """Defaults of the parameters the property names, in every class that defines the function."""
        n = 0
        for attr, name, allowed in table:
            for f in sorted((f for f in ctx.prog.funcs.values() if f.qual.rpartition('.')[2] == attr and isinstance(f.node, ast.FunctionDef)), key=lambda f: f.qual):
                a = f.node.args
                ps = a.posonlyargs + a.args
                d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
                d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                if name not in d:
                    continue
                v = d[name]
                if isinstance(v, ast.Constant):
                    v = v.value
                elif isinstance(v, (ast.Tuple, ast.List)) and not v.elts or isinstance(v, ast.Call) and not v.args and getattr(v.func, 'id', '') in ('tuple', 'list', 'frozenset', 'set'):
                    v = ()
                else:
                    continue
                n += 1
                ok = isinstance(v, (int, float)) and not isinstance(v, bool) if allowed is int else any(v is x or type(v) is type(x) and v == x for x in allowed)
                ctx.check(ok, 'what is left out', f'{ctx.short(f)}: {name}', f'is {v!r} when it is not given', f.where)
        ctx.need(pid, n, 1, 'defaults')
    check.__name__ = f'{pid.lower()}_defaults'
    return check


for _pid, _table in DEFAULTS.items():
    rule(_pid)(_defaults(_pid, _table))


# -- what a bootstrap makes ------------------------------------------------------------------------
@rule('P76')
def p76(ctx):
    """Effects of preparing a place against what the path knows of the remote, the options and the file system; options handed from step to step; what is given back and in which order."""
    n = Counter()
    # preparing
    f = ctx.func(CP, '_bootstrap_prepare_filesystem')
    q = ctx.short(f)
    RM, LOC = A(SELF, 'remote'), A(SELF, 'local')
    SP, FD, PAR, LIM = P('sparse'), P('fetch_data'), P('parents'), P('size_limit_mb')
    LP = A(LOC, 'parent')

    def fact(p, pred, *xs):
        for x in xs:
            for a, v in p.facts():
                if a[:2] == ('fs', pred) and a[2] in (x, pid(x)):
                    return v

    for p in ctx.run(f, recv=CP, raises='none'):
        n['prepare'] += 1
        acts = p.effects()
        isdir, isfile = fact(p, 'is_dir', RM), fact(p, 'is_file', RM)
        if p.rai:
            ctx.check(isdir is False and isfile is False and not acts, 'what the remote has is made', q, f'raises {show(p.val)[:80]} for what is a file or folder', f.where, p)
            continue
        if not ctx.check(isdir is True or isfile is True, 'what the remote has is made', q, 'returns though the remote may be neither file nor folder', f.where, p):
            continue
        sparse = p.holds(truthy(SP))
        mk = [e for e in acts if e.name in ('mkdir', 'mkdirs', 'makedirs')]
        rest = [e for e in acts if e not in mk and e.name != 'touch']
        touch = [e for e in acts if e.name == 'touch']
        ctx.check(not rest, 'nothing else is made', q, f'{[e.name for e in rest]}', f.where, p)
        if isdir:
            n['folder'] += 1
            there = fact(p, 'exists', SELF, LOC)
            ctx.check(not touch, 'nothing else is made', q, 'a file is made for a folder', f.where, p)
            if mk:
                ok = e_ok(mk, (SELF, LOC))
                ctx.check(ok and sparse is False and (there is False or mk[0].kw.get('exist_ok') == TRUE), 'a folder is made when none exists and all of it is wanted', q,
                          f'{mk[0].describe() if hasattr(mk[0], "describe") else show(mk[0].target)}', mk[0].where, p)
                ctx.check(mk[0].kw.get('parents', mk[0].args[1] if len(mk[0].args) > 1 else FALSE) == PAR, 'parents are made on request', q, f'parents={show(mk[0].kw.get("parents", FALSE))}', mk[0].where, p)
            else:
                ctx.check(sparse is True or there is True, 'a folder is made when none exists and all of it is wanted', q, 'no folder is made', f.where, p)
            continue
        n['file'] += 1
        incl = [e for e in p.calls('_sparse_include')]
        out = sparse is True and any(p.holds(truthy(e.result)) is False for e in incl)
        if out:
            n['left'] += 1
            ctx.check(not acts, 'nothing is made for what is not included', q, f'{[e.name for e in acts]}', f.where, p)
            continue
        ctx.check(sparse is False or any(p.holds(truthy(e.result)) is True for e in incl), 'nothing is made for what is not included', q, 'not asked whether the file is included', f.where, p)
        there = fact(p, 'exists', LP, A(SELF, 'parent'))
        if mk:
            ctx.check(e_ok(mk, (LP, A(SELF, 'parent'))) and (there is False or mk[0].kw.get('exist_ok') == TRUE), 'a missing folder of a file is made', q, f'{show(mk[0].target)}', mk[0].where, p)
            ctx.check(mk[0].kw.get('parents', mk[0].args[1] if len(mk[0].args) > 1 else FALSE) == PAR, 'parents are made on request', q, f'parents={show(mk[0].kw.get("parents", FALSE))}', mk[0].where, p)
        else:
            ctx.check(there is True, 'a missing folder of a file is made', q, 'the folder of the file may be missing', f.where, p)
        size = A(SELF, 'meta', 'size')
        small = ('lt', A(size, 'mb'), LIM)
        want = p.holds(truthy(FD)) is True and p.holds(('isc', size, NONE)) is False and p.holds(small) is True
        if touch:
            n['touch'] += 1
            ctx.check(want, 'a file is only made for data that is wanted and small enough', q, 'an empty file is made', touch[0].where, p)
        else:
            ctx.check(excluded(p.st, (truthy(FD), True), (('isc', size, NONE), False), (small, True)), 'a file is only made for data that is wanted and small enough', q, 'no file is made for data that is wanted', f.where, p)
    # options
    f = ctx.func(CP, 'bootstrap')
    q = ctx.short(f)
    names = ('parents', 'recursive', 'fetch_data', 'size_limit_mb', 'only', 'skip', 'sparse')
    for p in ctx.run(f, recv=CP, raises='none'):
        es = p.calls('_bootstrap')
        if not p.ret:
            continue
        if not ctx.check(len(es) == 1 and es[0].target == SELF, 'options are handed on', q, f'bootstraps {len(es)} times', f.where, p):
            continue
        n['options'] += 1
        e = es[0]
        ctx.check(e.arg(0, 'meta') == P('meta'), 'options are handed on', f'{q}: meta', f'is {show(e.arg(0, "meta"))}', e.where, p)
        for x in names:
            ctx.check(e.kw.get(x) == P(x), 'options are handed on', f'{q}: {x}', f'is {show(e.kw[x]) if x in e.kw else "left out"}', e.where, p)
        ctx.check(contains(p.val, e.result), 'all caches are given', q, f'gives {show(p.val)[:100]}', f.where, p)
    f = ctx.func('remotes.RemotePath', 'bootstrap')
    q = ctx.short(f)
    for p in ctx.run(f, recv='remotes.RemotePath', raises='none'):
        if not p.ret:
            continue
        es = p.calls('bootstrap')
        if not ctx.check(len(es) == 1 and es[0].target == A(SELF, 'cache') and p.val == es[0].result, 'options are handed on', q, f'gives {show(p.val)[:100]}', f.where, p):
            continue
        n['remote'] += 1
        ctx.check(es[0].arg(0, 'meta') == A(SELF, 'meta'), 'options are handed on', f'{q}: meta', f'is {show(es[0].arg(0, "meta"))}', es[0].where, p)
        for x in ('recursive', 'only', 'skip', 'sparse'):
            ctx.check(es[0].kw.get(x) == P(x), 'options are handed on', f'{q}: {x}', f'is {show(es[0].kw[x]) if x in es[0].kw else "left out"}', es[0].where, p)
    # steps
    f = ctx.func(CP, '_bootstrap')
    q = ctx.short(f)
    PM, ONLY, SKIP, REC = P('meta'), P('only'), P('skip'), P('recursive')
    mid = A(PM, 'id')
    prep = ctx.func(CP, '_bootstrap_prepare_filesystem')
    rec = ctx.func(CP, '_bootstrap_recursive')

    def handed(e, fn, name):
        ps = [a.arg for a in fn.node.args.args][1:]
        return e.kw.get(name, e.args[ps.index(name)] if name in ps and ps.index(name) < len(e.args) else None)

    for p in ctx.run(f, recv=CP, raises='none', types={'meta': 'meta.PathMeta'}, opaque=('meta.PathMeta.__bool__',)):
        ys = p.evs('yield')
        made, upd, down = p.calls('_bootstrap_prepare_filesystem'), p.calls('_meta_updater'), p.calls('_bootstrap_recursive')
        if not p.ret or not (made or upd or down or ys):
            continue
        n['step'] += 1
        have = [(fsat('exists', SELF), True), (truthy(A(SELF, 'meta')), True), (eqat(A(SELF, 'meta', 'id'), mid), True)]
        if upd:
            n['update'] += 1
            known = any(a[0] == 'fs' and a[1] == 'exists' and v for a, v in p.facts()) and p.holds(have[2][0]) is True
            ctx.check(known and not made and upd[0].target == SELF and upd[0].arg(0, 'pathmeta') == PM, 'what has the same id is updated', q, 'updates what may have another id', upd[0].where, p)
        else:
            n['make'] += 1
            ctx.check(len(made) == 1 and made[0].target == SELF, 'what has no metadata yet is made', q, f'{len(made)} places are prepared', f.where, p)
            ex = [v for a, v in p.facts() if a[0] == 'fs' and a[1] == 'exists' and pid(SELF) in a]
            ctx.check(False in ex or excluded(p.st, *have[1:]), 'what has the same id is updated', q, 'made again though it may have the same id', f.where, p)
        roots = [e.result for e in p.calls('_meta_is_root')]
        root = any(p.holds(truthy(r)) is True for r in roots)
        member = [(truthy(SP), True), (('in', mid, SP), True)]
        other = [(('in', mid, SP), False)]
        marks = [e for e in p.evs('store', '_is_sparse_root')]
        for e, fn in [(e, prep) for e in made] + [(e, rec) for e in down]:
            v = handed(e, fn, 'sparse')
            v = FALSE if v is None else v
            w = f'{q}: {e.name}'
            if root:
                ctx.check(v == SP or fn is prep and False, 'the root hands on what is sparse', w, f'sparse is {show(v)}', e.where, p)
            else:
                for pairs, expect in ((member, True), (other, False)):
                    if excluded(p.st, *pairs):
                        continue
                    n['sparse'] += 1
                    got = truth_under(p.st, v, pairs)
                    if got != 'contradiction':
                        ctx.check(got is expect, 'sparse exactly when listed', w, f'{"listed" if expect else "not listed"} as sparse and sparse is {show(v)}', e.where, p)
            for name in ('parents', 'fetch_data', 'size_limit_mb') if fn is prep else ('skip',):
                v = handed(e, fn, name)
                ctx.check(v == P(name), 'options are handed on', f'{w}: {name}', f'is {show(v) if v else "left out"}', e.where, p)
        if not root:
            if not excluded(p.st, *member):
                ctx.check(bool(marks) and all(e.args[0] == TRUE for e in marks), 'what is sparse is marked', q, 'no mark', f.where, p)
                n['mark'] += 1
            elif marks:
                ctx.check(False, 'what is sparse is marked', q, 'marked though not listed', f.where, p)
        elif marks:
            ctx.check(False, 'what is sparse is marked', q, 'the root is marked', f.where, p)
        r = p.holds(truthy(REC))
        ctx.check(r is not None and bool(down) is r, 'children are bootstrapped on request', q, f'{len(down)} recursions', f.where, p)
        for e in down:
            n['down'] += 1
            v = handed(e, rec, 'only')
            v = ('tup', ()) if v is None else v
            if root:
                ctx.check(v == ONLY, 'children of the root are selected, those of a selected folder are not', q, f'only={show(v)}', e.where, p)
            else:
                ctx.check(v in (('tup', ()), ('list', ()), NONE) or v[0] == 'call' and v[1] in ('tuple', 'list', 'set', 'frozenset') and not v[2] or truth_under(p.st, v, ()) is False,
                          'children of the root are selected, those of a selected folder are not', q, f'only={show(v)}', e.where, p)
            each = [(it, items) for _, it, items in passes(p) if it == e.result]
            ok = any(y.name == 'yieldfrom' and contains(y.args[0], e.result) for y in ys if y.args) or \
                any(x[3] == e.result and x[2] == 'zero' for x in p.loops() if len(x) > 3) or \
                each and all(len(yields(items)) == 1 and yields(items)[0].args[0][:2] == ('elem', it) for it, items in each)
            ctx.check(bool(ok), 'all caches are given', q, 'those of the children are not given', e.where, p)
        mine = [y for y in ys if y.args and y.args[0] == SELF and y.name == 'yield']
        ctx.check(len(mine) == 1 and ys[-1] is mine[0], 'all caches are given', q, 'its own is not given last', f.where, p)
    for k in ('prepare', 'folder', 'file', 'left', 'touch', 'options', 'remote', 'step', 'update', 'make', 'sparse', 'mark', 'down'):
        ctx.need('P76', n[k], 1, k)


def e_ok(es, targets):
    return len(es) == 1 and es[0].target in targets


# -- anchors -------------------------------------------------------------------------------------
def is_called(t, name, *args):
    """a call of the method with exactly these arguments by position"""
    return isinstance(t, tuple) and t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == name and t[2] == tuple(args)


def absent(p, t):
    """the path knows that there is no such thing: True, False, None"""
    v = p.holds(truthy(t))
    return p.holds(('isc', t, NONE)) if v is None else not v


@rule('P27')
def p27_ways(ctx):
    """Each way of anchoring against what the path knows of its argument: which anchor is bound, made or refused, and that it is returned."""
    n = Counter()
    k = ('class', ctx.prog.cls(RP).qual)
    root = A(k, 'root')
    f = ctx.func(RP, '_get_local_root_path')
    q, PP = ctx.short(f), P('parent_path')
    for p in ctx.run(f, recv=RP, raises='none'):
        v = p.val
        if not ctx.check(p.ret and v[0] in ('tup', 'list') and len(v[1]) == 2, 'a root and its folder', q, f'{p.kind} {show(v)[:80]}', f.where, p):
            continue
        r, l = v[1]
        n['pair'] += 1
        isroot = r == root or r[0] == 'new' and r[2][:1] == (root,)
        ctx.check(isroot, 'a root and its folder', q, f'the root is {show(r)[:80]}', f.where, p)
        named = l[0] == 'div' and l[2] in (A(r, 'name'), A(root, 'name'))
        ctx.check(named, 'a root and its folder', f'{q}: name', f'the folder is {show(l)[:80]}', f.where, p)
        if not named:
            continue
        base = l[1]
        while base[0] == 'abs' or base[0] == 'call' and base[1] == ('m', k, '_local_class') or base[0] == 'new' and base[1] == 'path':
            base = base[1] if base[0] == 'abs' else base[2][0] if base[2] else None
        given = absent(p, PP) is not True
        ctx.check(mentions(l[1], PP) if given else base[0] == 'cwd' or is_called(base, 'cwd'), 'a root and its folder', f'{q}: parent',
                  f'the folder is in {show(l[1])[:80]}' + ('' if given else ' without a parent'), f.where, p)
    f = ctx.func(RP, 'dropAnchor')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RP, raises='none'):
        for e in p.calls('_get_local_root_path'):
            ctx.check(e.arg(0, 'parent_path') == P('parent_path'), 'anchored where it was asked', q, f'in {e.args}', e.where, p)
        ini = p.calls('cache_init')
        if p.ret:
            n['dropped'] += 1
            up = [e for e in p.evs('store') if e.name == '_cache_anchor']
            if ctx.check(len(ini) == 1 and len(up) == 1, 'the anchor is that of the root', q, 'returns without an anchor', f.where, p):
                e = ini[0]
                i = e.arg(0, 'id')
                src = e.target
                ctx.check(i is not None and i[0] == 'attr' and i[2] == 'id', 'the anchor is that of the root', f'{q}: id', f'made from {show(i)[:80] if i else "nothing"}', e.where, p)
                if src[0] == 'item' and i is not None:
                    ctx.check(i[1] == ('item', src[1], C(0)) and src[2] == C(1), 'the anchor is that of the root', f'{q}: pair', f'{show(src)[:60]} from {show(i)[:60]}', e.where, p)
                ctx.check(e.arg(2, 'anchor') == TRUE, 'the anchor is that of the root', f'{q}: anchor', 'initialised without being an anchor', e.where, p)
                ctx.check(up[0].args[0] == e.result, 'the anchor is that of the root', f'{q}: bound', f'bound to {show(up[0].args[0])[:80]}', up[0].where, p)
                ctx.check(p.val in (e.result, A(k, '_cache_anchor')), 'an anchor is returned', q, f'returns {show(p.val)[:80]}', f.where, p)
        elif p.exc == 'NotImplementedError':
            n['refused'] += 1
            made = [v for a, v in p.facts() if a[0] == 'fs' and a[1] == 'is_dir' and v and mentions(a[2], C(0))]
            ctx.check(not made, 'folders are anchored', q, 'a folder is refused', f.where, p)
    # a path: its own anchor, that of its cache, or a new one
    f = ctx.func(RP, 'anchorTo')
    q, PA, CR = ctx.short(f), P('path'), P('create')
    cache, name = A(PA, 'cache'), A(PA, 'name')
    cp, lp = (('class', ctx.prog.cls(x).qual) for x in ('caches.CachePath', 'core.LocalPath'))
    for p in ctx.run(f, recv=RP, raises='none'):
        iscache = p.holds(('isinst', PA, cp))
        islocal = p.holds(('isinst', PA, lp))
        got = p.val if p.ret else None
        n['way'] += 1
        if iscache:
            ctx.check(is_called(got, 'anchorToCache', PA), 'its own anchor', q, f'{p.kind} {show(p.val)[:80]} for a cache', f.where, p)
            continue
        ctx.check(iscache is False or not p.can((('isinst', PA, cp), True)), 'its own anchor', f'{q}: asked', 'a cache may not be its own anchor', f.where, p)
        if not islocal:
            ctx.check(p.exc == 'TypeError', 'only paths are anchored to', q, f'{p.kind} {show(p.val)[:80]} for what is no path', f.where, p)
            continue
        none = absent(p, cache)
        if none is False:
            ctx.check(is_called(got, 'anchorToCache', cache), 'that of its cache', q, f'{p.kind} {show(p.val)[:80]} for a path with a cache', f.where, p)
            continue
        ctx.check(none is True, 'that of its cache', f'{q}: asked', 'there may be a cache', f.where, p)
        eqs = [v for a, v in p.facts() if a[0] == 'eq' and name in a[1:] and any(x != name and mentions(x, root) for x in a[1:])]
        if False in eqs:
            n['name'] += 1
            ctx.check(p.exc == 'ValueError', 'another name is refused', q, f'{p.kind} {show(p.val)[:80]}', f.where, p)
        elif p.holds(truthy(CR)) is False:
            n['kept'] += 1
            ctx.check(p.exc == 'ValueError', 'nothing is made unasked', q, f'{p.kind} {show(p.val)[:80]}', f.where, p)
        else:
            n['made'] += 1
            ctx.check(is_called(got, 'dropAnchor', A(PA, 'parent')) or got is not None and got[0] == 'call' and mentions(got, A(PA, 'parent')) and got[1][2] == 'dropAnchor',
                      'a new one', q, f'{p.kind} {show(p.val)[:80]}', f.where, p)
        root_is = p.holds(('isinst', root, k))
        for t in {x for a, v in p.facts() if a[0] == 'eq' and name in a[1:] for x in a[1:] if x != name}:
            ctx.check(t[0] == 'attr' and t[2] == 'name', 'another name is refused', f'{q}: compared', f'with {show(t)[:60]}', f.where, p)
            ctx.check(t[0] != 'attr' or t[1] != root or root_is is True, 'another name is refused', f'{q}: root', 'the root may be no remote', f.where, p)
    # a cache: its api first
    CA, IN = P('cache_anchor'), P('init')
    for cls in (RP, 'remotes.SshRemote'):
        f = ctx.func(cls, 'anchorToCache')
        q, kk = ctx.short(f), ('class', ctx.prog.cls(cls).qual)
        for p in ctx.run(f, recv=cls, raises='none', inline=('remotes.RemotePath.anchorToCache',)):
            if p.rai:
                continue
            n['cache'] += 1
            ctx.check(p.val == CA or p.val == A(kk, '_cache_anchor'), 'an anchor is returned', q, f'returns {show(p.val)[:80]}', f.where, p)
            inits = p.calls('init')
            for e in inits:
                n['init'] += 1
                ctx.check(e.arg(0, 'identifier') == A(CA, 'id') and len(e.args) < 2, 'an api of the anchor', q, f'init of {[show(x) for x in e.args]}', e.where, p)
                ctx.check(excluded(e.st, (truthy(IN), False)), 'an api when asked', q, 'bound although it may not be asked for', e.where, p)
                ctx.check(e.st.holds(('hasattr', kk, '_api')) is False, 'an api when asked', f'{q}: twice', 'bound although there may be one', e.where, p)
            if not inits:
                ctx.check(not p.can((truthy(IN), True), (('hasattr', kk, '_api'), False)), 'an api when asked', f'{q}: none', 'anchored without an api', f.where, p)
            if cls != RP:
                sid = A(kk, 'sysid')
                b = p.calls('_bind_sysid')
                n['sysid'] += len(b)
                known = [v for a, v in p.facts() if a[0] in ('isc', 'truthy') and sid in a[1:]]
                ctx.check(bool(b) == (p.holds(('isc', sid, NONE)) is not False), 'the system is bound', q, f'{len(b)} times', f.where, p)
    for x in ('pair', 'dropped', 'refused', 'way', 'name', 'kept', 'made', 'cache', 'init', 'sysid'):
        ctx.need('P27', n[x], 1, f'anchors: {x}')
