"""What else holds for local paths: metadata that survives writing and copying, sizes, and stat records that cannot be had."""
from ctx import *
from rules_remotes import stores

LP = 'core.LocalPath'


@rule('P05')
def p05_metadata(ctx):
    """Where the metadata of a copy comes from on every path and what is known of the wish for it; what the other direction hands on."""
    n = Counter()
    f = ctx.func(LP, 'copy_to')
    q = ctx.short(f)
    W = P('copy_cache_meta')
    for p in ctx.run(f, recv=LP, raises='none'):
        data = [e for e in stores(p, 'data')]
        inits = [e for e in p.calls() if e.name in ('cache_init', '_cache_setter', '_meta_setter')]
        wish = p.holds(truthy(W))
        if not p.ret:
            continue
        if wish is True:
            n['wanted'] += 1
            ok = len(inits) == 1 and data and inits[0].target == data[-1].target
            ctx.check(ok, 'a copy has the metadata when it is asked for', q, f'is given it {len(inits)} times', f.where, p)
            if ok:
                v = inits[0].arg(0, 'id_or_meta')
                ctx.check(v == A(SELF, 'cache', 'meta'), 'a copy has the metadata when it is asked for', q, f'has {v and show(v)[:80]}', inits[0].where, p)
                ctx.check(p.items.index(data[-1]) < p.items.index(inits[0]), 'a copy has the metadata when it is asked for', q, 'the metadata comes before the data', inits[0].where, p)
        else:
            n['unwanted'] += 1
            ctx.check(wish is False and not inits, 'a copy has the metadata when it is asked for', q, 'is not asked whether it is wanted', f.where, p)
    f = ctx.func(LP, 'copy_from')
    q = ctx.short(f)
    for p in ctx.run(f, recv=LP, raises='none'):
        for e in p.calls('copy_to'):
            n['handed'] += 1
            ctx.check(e.arg(2, 'copy_cache_meta') == W, 'a copy has the metadata when it is asked for', q, 'the wish is not handed on', e.where, p)
    for k in ('wanted', 'unwanted', 'handed'):
        ctx.need('P05', n[k], 1, k)


@rule('P06')
def p06_metadata(ctx):
    """What is known of the metadata of the cache after the data is written, on every path, and that it was read before."""
    n = Counter()
    f = ctx.func(LP, 'data', 'setter')
    q = ctx.short(f)
    CACHE = A(SELF, 'cache')
    META = A(CACHE, 'meta')

    def writes(p):
        return [e for e in p.calls() if e.name.startswith('_write_chunks')]

    for p in ctx.run(f, recv=LP, part='setter', raises='none'):
        if not writes(p):
            ctx.check(p.rai, 'the data is written', q, 'nothing is written', f.where, p)
            continue
        gone = p.holds(truthy(META))
        back = p.calls('_meta_setter') + stores(p, 'meta')
        w = p.items.index(writes(p)[0])
        without = p.holds(('isc', CACHE, NONE)) is True or p.holds(truthy(CACHE)) is False
        if without:
            n['without cache'] += 1
            ctx.check(not back, 'metadata that was lost is written again', q, 'of no cache', f.where, p)
        elif gone is True:
            n['kept'] += 1
        elif gone is False:
            n['lost'] += 1
            ok = len(back) == 1 and back[0].target == CACHE and back[0].args[:1] == (META,) and p.items.index(back[0]) > w
            ctx.check(ok, 'metadata that was lost is written again', q, f'{len(back)} times', f.where, p)
        else:
            ctx.check(bool(back) and back[-1].target == CACHE and back[-1].args[:1] == (META,) and p.items.index(back[-1]) > w, 'metadata that was lost is written again', q, 'is not looked for', f.where, p)
            n['lost'] += 1
    for p in ctx.run(f, recv=LP, part='setter', raises='all', attr_fails=('meta',)):
        failed = [x for x in p.items if isinstance(x, tuple) and x and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'meta']
        n['read before'] += bool(failed) and not writes(p)
    for k in ('without cache', 'lost', 'read before'):
        ctx.need('P06', n[k], 1, k)


@rule('P49')
def p49_none(ctx):
    """What is known of the output of stat where a record is made or refused, on every path, and where sizes come from."""
    n = Counter()
    f = ctx.func(LP, '_stat')
    q = ctx.short(f)
    for p in ctx.run(f, recv=LP, raises='none'):
        empty = [v for a, v in p.facts() if a[0] == 'truthy' and 'communicate' in repr(a[1])]
        if p.rai:
            n['refused'] += 1
            ctx.check(p.exc_isa('OSError'), 'a record that cannot be had is an OSError', q, f'{p.exc}', f.where, p)
            ctx.check(False in empty or any('returncode' in repr(a) for a, v in p.facts()), 'a record that cannot be had is an OSError', q, 'refused without need', f.where, p)
        else:
            n['made'] += 1
            ctx.check(empty[:2] != [False, True] and bool(empty) or any('returncode' in repr(a) for a, v in p.facts()), 'a record that cannot be had is an OSError', q, 'not known to be there', f.where, p)
            ctx.check('communicate' in repr(p.val) and 'StatResult' in repr(p.val)[:200], 'the record is that of stat', q, f'is {show(p.val)[:60]}', f.where, p)
    f = ctx.func(LP, 'size')
    q = ctx.short(f)
    for p in ctx.run(f, recv=LP, raises='try'):
        if p.ret:
            n['size'] += 1
            v = p.val
            ok = v[0] == 'attr' and v[2] == 'st_size' and v[1][0] == 'call' and v[1][1] in (('m', SELF, 'stat'), ('m', SELF, '_stat')) and not v[1][2]
            ctx.check(ok or 'FileSize' in repr(v) and 'st_size' in repr(v), 'the size is that of the record', q, f'is {show(v)[:60]}', f.where, p)
    for k in ('refused', 'made', 'size'):
        ctx.need('P49', n[k], 1, k)
