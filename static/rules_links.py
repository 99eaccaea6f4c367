"""Local path, cache and remote of one thing, and the ways between them."""
from ctx import *
from rules_caches import own
from rules_folders import known
from rules_remotes import stores

LP = 'core.LocalPath'
CP = 'caches.CachePath'
REMOTE = ('class', 'augpathlib.remotes.RemotePath')
CACHE = ('class', 'augpathlib.caches.CachePath')


def has(p, t, name):
    """whether the attribute is known to be there"""
    for a, v in p.facts():
        if a[0] in ('hasattr', 'ownattr') and a[1] == t and a[2] in (name, C(name)):
            return v
    return None


def none(p, t):
    """whether the value is known to be None"""
    for a, v in p.facts():
        if a[0] in ('isc', 'eq') and a[1:] == (t, NONE):
            return v
    v = p.holds(truthy(t))
    return False if v is True else None


def helps(p):
    """whether the cache is known to be the helper of another"""
    v = has(p, SELF, '_cache_parent')
    return v if v is not None else p.holds(truthy(A(SELF, 'is_helper_cache')))


def kind(p, t, k):
    for a, v in p.facts():
        if a[0] == 'isinst' and a[1] == t:
            ks = a[2][1] if a[2][0] == 'tup' else (a[2],)
            if k in ks and (v is False or len(ks) == 1):
                return v
    return None


def called(e, of, name):
    return e.kind == 'call' and e.name == name and e.target == of


def absent(v):
    return v is None or v == NONE


@rule('P79')
def p79_ways(ctx):
    """The value returned, and what is stored on what, on every path of the attributes that lead between local path, cache and remote, against what is known of the attributes kept."""
    n = Counter()
    PARENT = A(SELF, '_cache_parent')
    f = ctx.func(CP, 'is_helper_cache')
    for p in ctx.run(f, recv=CP, raises='none'):
        if p.ret:
            n['helper'] += 1
            v = has(p, SELF, '_cache_parent')
            ctx.check(p.val == C(v) if v is not None else p.val[0] in ('b', 'truth') and 'hasattr' in repr(p.val) and '_cache_parent' in repr(p.val), 'a helper has a cache it helps', ctx.short(f), f'is {show(p.val)[:60]}', f.where, p)
    # cache -> local
    f = ctx.func(CP, 'local')
    q = ctx.short(f)
    for p in ctx.run(f, recv=CP, raises='none'):
        if not p.ret:
            continue
        helper = helps(p)
        made = [e for e in p.calls() if e.name in ('local_class', '_local_class') and e.args[:1] == (SELF,)]
        if not ctx.check(len(made) >= 1 and p.val == made[-1].result, 'the local path of the same path', q, f'returns {show(p.val)[:80]}', f.where, p):
            continue
        st = [e for e in stores(p, '_cache') if e.target == p.val]
        if not ctx.check(bool(st) and helper is not None, 'the local path knows its cache', q, 'is told of no cache' if not st else 'not known whether the cache is a helper', f.where, p):
            continue
        n['local of helper' if helper else 'local'] += 1
        ctx.check(st[-1].args[0] == (PARENT if helper else SELF), 'the local path knows its cache', q, f'knows {show(st[-1].args[0])[:60]}', st[-1].where, p)
    f = ctx.func(CP, 'local_class')
    q = ctx.short(f)
    for p in ctx.run(f, recv=CP, raises='none'):
        if p.ret:
            helper = helps(p)
            n['class'] += 1
            ctx.check(p.val in ((A(PARENT, 'local_class'), A(PARENT, '_local_class')) if helper else (A(SELF, '_local_class'),)), 'the class of local paths', q, f'is {show(p.val)[:80]}', f.where, p)
    # local -> cache
    f = ctx.func(LP, 'cache')
    q = ctx.short(f)
    CLS = A(SELF, '_cache_class')
    for p in ctx.run(f, recv=LP, raises='try'):
        kept = has(p, SELF, '_cache')
        made = [e for e in p.calls('_cache_class')]
        if p.ret and kept is True:
            n['kept cache'] += 1
            ctx.check(p.val == A(SELF, '_cache') and not made, 'the cache is kept', q, f'returns {show(p.val)[:60]}', f.where, p)
        elif p.ret and not absent(p.val):
            n['new cache'] += 1
            ok = len(made) == 1 and p.val == made[0].result and made[0].args[:1] == (SELF,)
            ctx.check(ok, 'the cache of the same path', q, f'returns {show(p.val)[:80]}', f.where, p)
            st = [e for e in stores(p, '_cache') if e.target == SELF]
            ctx.check(ok and bool(st) and st[-1].args[0] == made[0].result, 'the cache is kept', q, 'another cache is made each time', f.where, p)
        elif p.ret:
            n['no cache'] += 1
            unknown = any(a[0] == 'excis' and a[2].endswith('NoCachedMetadataError') and v for a, v in p.facts() if isinstance(a[2], str)) or \
                any('NoCachedMetadataError' in repr(a) and v for a, v in p.facts() if a[0] == 'excis')
            ctx.check(unknown or none(p, CLS) is True, 'None exactly without cached metadata', q, 'another failure is hidden', f.where, p)
        else:
            n['failing cache'] += 1
            unknown = any('NoCachedMetadataError' in repr(a) and v for a, v in p.facts() if a[0] == 'excis')
            ctx.check(not unknown and none(p, CLS) is not True, 'None exactly without cached metadata', q, 'fails where nothing is known', f.where, p)
    f = ctx.func(LP, 'remote')
    for p in ctx.run(f, recv=LP, raises='none'):
        if p.ret and not absent(p.val):
            n['local remote'] += 1
            ctx.check(p.val == A(SELF, 'cache', 'remote'), 'the remote is that of the cache', ctx.short(f), f'is {show(p.val)[:60]}', f.where, p)
        elif p.ret:
            ctx.check(none(p, A(SELF, 'cache')) is True or p.holds(truthy(A(SELF, 'cache'))) is False, 'the remote is that of the cache', ctx.short(f), 'is None', f.where, p)
    # identity of a cache
    f = ctx.func(CP, 'id')
    q = ctx.short(f)
    META, BOOT = A(SELF, 'meta'), A(SELF, '_bootstrapping_id')
    for p in ctx.run(f, recv=CP, raises='none'):
        if not p.ret:
            continue
        mine, boot = has(p, SELF, '_id'), has(p, SELF, '_bootstrapping_id')
        some = p.holds(truthy(META))
        some = some if some is not None else (None if none(p, META) is None else not none(p, META))
        gone = [e for e in p.items if isinstance(e, Event) and e.kind == 'delattr' and e.name == '_bootstrapping_id']
        kept = [e for e in stores(p, '_id') if e.target == SELF]
        if mine is True:
            n['id kept'] += 1
            ctx.check(p.val == A(SELF, '_id'), 'the id is kept', q, f'is {show(p.val)[:60]}', f.where, p)
            continue
        if some is True:
            n['id of metadata'] += 1
            ctx.check(p.val == A(META, 'id') and not gone, 'the id of the metadata', q, f'is {show(p.val)[:60]}', f.where, p)
        elif some is False and boot is True:
            n['id once'] += 1
            ctx.check(p.val == BOOT and len(gone) == 1 and not kept, 'the id of a bootstrap is used once', q, f'is {show(p.val)[:60]}, removed {len(gone)} times', f.where, p)
        else:
            n['no id'] += 1
            ctx.check(absent(p.val) and some is False and boot is False, 'the id of the metadata', q, f'is {show(p.val)[:60]}', f.where, p)
            ctx.check(not kept, 'no id is kept when there is none', q, 'keeps an id', f.where, p)
        ctx.check(all(e.args[0] == A(META, 'id') for e in kept), 'the id of the metadata', q, f'keeps {[show(e.args[0])[:40] for e in kept]}', f.where, p)
    # cache -> remote
    f = ctx.func(CP, 'remote')
    q = ctx.short(f)
    ID, ANCHOR, RC, FACTORY = A(SELF, 'id'), A(SELF, 'anchor'), A(SELF, '_remote_class'), A(SELF, '_remote_class_factory')
    for p in ctx.run(f, recv=CP, raises='none', max_paths=20000):
        if not p.ret:
            continue
        kept, helper = has(p, SELF, '_remote'), helps(p)
        made = p.calls('_remote_class') + p.calls('value')
        kinds = p.calls('_remote_class_factory')
        tied = p.calls('anchorToCache')
        if kept is True:
            n['kept'] += 1
            ctx.check(p.val == A(SELF, '_remote') and not made, 'the remote is kept', q, f'returns {show(p.val)[:60]}', f.where, p)
            continue
        if helper is True:
            n['of parent'] += 1
            ctx.check(p.val == A(PARENT, 'remote') and not made, 'a helper has the remote of its cache', q, f'returns {show(p.val)[:60]}', f.where, p)
            continue
        if kept is None or helper is None:
            ctx.check(False, 'the remote is kept', q, 'not known whether there is one', f.where, p)
            continue
        without, first = none(p, ID), none(p, ANCHOR)
        if without is True:
            n['without id'] += 1
            ctx.check(absent(p.val) and not made, 'no remote without an id', q, f'returns {show(p.val)[:60]}', f.where, p)
            continue
        full = next((v for a, v in p.facts() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('m', SELF, 'is_absolute')), None)
        if first is True and full is False:
            n['relative'] += 1
            ctx.check(p.val[0] == 'attr' and p.val[2] == 'remote' and is_full(p.val[1]) and not made, 'a relative path has the remote of the same absolute one', q, f'returns {show(p.val)[:60]}', f.where, p)
            continue
        anchor = SELF if first is True else ANCHOR
        if absent(p.val):
            n['without class'] += 1
            ok = none(p, FACTORY) is True and (has(p, SELF, '_remote_class') is False or none(p, RC) is True)
            ctx.check(ok and not made, 'None only without id or class', q, 'returns None', f.where, p)
            continue
        if not ctx.check(len(made) == 1 and p.val in (made[0].result, A(SELF, '_remote')), 'the remote of the id', q, f'returns {show(p.val)[:80]}', f.where, p):
            continue
        n['made'] += 1
        m = made[0]
        ctx.check(without is False, 'no remote without an id', q, 'not known to have an id', m.where, p)
        if first is True:
            again = [e for e in stores(p, '_bootstrapping_id') if e.target == SELF]
            ctx.check(bool(again) and again[-1].args[0] == ID, 'the id of a bootstrap survives for the first remote', q, 'is not kept', f.where, p)
        ctx.check(m.arg(0, 'thing_with_id') == ID or m.args[:1] == (ID,), 'the remote of the id', q, f'of {show(m.args[0])[:60] if m.args else "nothing"}', m.where, p)
        ctx.check(m.kw.get('cache') == SELF, 'remote and cache know each other', q, f'knows {m.kw.get("cache") and show(m.kw["cache"])[:60]}', m.where, p)
        st = [e for e in stores(p, '_remote') if e.target == SELF]
        ctx.check(bool(st) and st[-1].args[0] == m.result, 'the remote is kept', q, 'another remote is made each time', m.where, p)
        if has(p, SELF, '_remote_class') is False or kinds:
            n['class made'] += 1
            ok = len(kinds) == 1 and (kinds[0].arg(0, 'anchor') == anchor or kinds[0].args[:1] == (anchor,)) and len(kinds[0].args) == 2 and kinds[0].args[1] in (A(SELF, 'local_class'), A(SELF, '_local_class'))
            ctx.check(ok and has(p, SELF, '_remote_class') is False, 'the class of remotes of the anchor', q, f'{[show(a)[:40] for e in kinds for a in e.args]}', f.where, p)
            sc = [e for e in stores(p, '_remote_class') if kinds and e.args[0] == kinds[0].result]
            ctx.check(bool(sc), 'the class of remotes of the anchor', q, 'is not kept', f.where, p)
        cls = [e.args[0] for e in stores(p, '_remote_class')][-1:] or [RC]
        api, ready = has(p, cls[0], '_api_class'), has(p, cls[0], '_api')
        if api is None:
            api, ready = has(p, RC, '_api_class'), has(p, RC, '_api')
        if tied:
            n['tied'] += 1
            ctx.check(len(tied) == 1 and tied[0].args[:1] == (anchor,) and tied[0].target in (cls[0], RC), 'the class is tied to the anchor', q, f'to {[show(a)[:60] for e in tied for a in e.args]}', tied[0].where, p)
            ctx.check(api is True and ready is False and p.items.index(tied[0]) < p.items.index(m), 'the class is tied to the anchor', q, 'when it needs not be, or too late', tied[0].where, p)
        else:
            ctx.check(api is False or ready is True, 'the class is tied to the anchor', q, 'is not', f.where, p)
    for x in ('helper', 'local of helper', 'local', 'class', 'kept cache', 'new cache', 'no cache', 'failing cache', 'local remote', 'id kept', 'id of metadata', 'id once', 'no id', 'kept', 'of parent', 'without id', 'relative', 'without class', 'made',
              'class made', 'tied'):
        ctx.need('P79', n[x], 1, f'instances of {x}')


def is_full(t):
    return t == ('abs', SELF) or t == SELF or t[0] == 'call' and t[1] == ('m', SELF, 'absolute')


@rule('P79')
def p79_below(ctx):
    """What is made of a cache and a remote, or of a cache and a name, on every path, and what is known of the second operand."""
    n = Counter()
    f = ctx.func(CP, '__truediv__')
    q = ctx.short(f)
    K = P(f.node.args.args[1].arg)
    for p in ctx.run(f, recv=CP, raises='try', max_paths=20000):
        remote, text = kind(p, K, REMOTE), kind(p, K, ('bi', 'str'))
        made = p.calls('_make_child')
        if p.ret:
            if made:
                n['child'] += 1
                m = made[0]
                ctx.check(len(made) == 1 and m.target == SELF and p.val == m.result and remote is True, 'a child for a remote', q, f'returns {show(p.val)[:60]}', m.where, p)
                ctx.check(m.arg(1, 'remote') == K, 'a child for a remote', q, f'of {show(m.arg(1, "remote") or NONE)[:60]}', m.where, p)
                parts = m.arg(0, 'args') or NONE
                ok = parts[0] == 'call' and parts[1] == ('m', K, '_parts_relative_to') and parts[2][:1] == (A(SELF, 'remote'),)
                ctx.check(ok, 'a child is at the path of the remote below this one', q, f'at {show(parts)[:80]}', m.where, p)
                ctx.check(m.arg(2, 'update_meta') == P('update_meta'), 'metadata is updated when that is asked for', q, 'not as asked', m.where, p)
            else:
                n['name'] += 1
                local = ('div', A(SELF, 'local'), K)
                ctx.check(text is True and p.val == A(local, 'cache'), 'the cache of the file of that name', q, f'returns {show(p.val)[:60]}', f.where, p)
                there = any(a[0] == 'fs' and a[1] in ('exists', 'is_symlink', 'is_broken_symlink') and same(a[2], local) and v for a, v in p.facts()) or \
                    any(a[0] == 'truthy' and 'is_broken_symlink' in repr(a[1]) and v for a, v in p.facts())
                ctx.check(there, 'no cache of a name that is not there', q, 'not known to be there', f.where, p)
        elif p.exc == 'FileNotFoundError' and not p.failures:
            n['no name'] += 1
            ctx.check(text is True, 'no cache of a name that is not there', q, 'refused', f.where, p)
            ctx.check(not any(a[0] == 'fs' and a[1] in ('exists', 'is_broken_symlink') and v for a, v in p.facts()), 'no cache of a name that is not there', q, 'refused although it is there', f.where, p)
            link = any(a[0] == 'fs' and a[1] in ('is_symlink', 'is_broken_symlink') and not v for a, v in p.facts()) or any(a[0] == 'truthy' and 'is_broken_symlink' in repr(a[1]) and not v for a, v in p.facts())
            gone_ = any(a[0] == 'fs' and a[1] in ('exists', 'lexists') and not v for a, v in p.facts())
            ctx.check(link and gone_, 'what is not fetched yet is found', q, 'a link to no file is not looked for', f.where, p)
        elif not p.failures or p.exc == 'TypeError' and not p.propagated:
            n['refused'] += 1
            ctx.check(remote is not True and text is not True or p.exc == 'AugPathlibError', 'refused only for what has no id and no name', q, f'{p.exc}', f.where, p)
    f = ctx.func(CP, '_make_child')
    q = ctx.short(f)
    R, ARGS = P('remote'), P('args')
    for p in ctx.run(f, recv=CP, raises='none', max_paths=20000):
        remote = kind(p, R, REMOTE)
        bound = p.calls('_cache_setter')
        if p.ret:
            n['bound'] += 1
            ok = remote is True and len(bound) == 1 and bound[0].target == R and bound[0].args[:1] == (p.val,)
            ctx.check(ok, 'a child has the metadata of its remote', q, f'{len(bound)} times', f.where, p)
            ctx.check(bool(bound) and bound[0].arg(1, 'update_meta') == P('update_meta'), 'metadata is updated when that is asked for', q, 'not as asked', f.where, p)
            for e in p.calls('_from_parsed_parts'):
                if e.result != p.val or len(e.args) != 3:
                    continue
                drv, root, parts = e.args
                if drv == A(SELF, '_drv') and root == A(SELF, '_root'):
                    n['below'] += 1
                    tail = A(SELF, '_tail')
                    ok = parts[0] == 'bin' and parts[1] == 'Add' and parts[2] == tail and mentions(parts[3], ARGS) and not mentions(parts[3], tail)
                    ctx.check(ok, 'a child is below its parent', q, f'its parts are {show(parts)[:100]}', e.where, p)
                else:
                    ctx.check(mentions(root, ARGS) or mentions(drv, ARGS), 'a child is below its parent', q, f'at {show(drv)[:40]} {show(root)[:40]}', e.where, p)
        else:
            n['unbound'] += 1
            ctx.check(remote is False and p.exc == 'ValueError' and not bound, 'a child has the metadata of its remote', q, f'{p.kind} {p.exc}', f.where, p)
    f = ctx.func(CP, '__new__')
    q = ctx.short(f)
    FIRST = ('item', P('args'), C(0))
    for p in ctx.run(f, recv=CP, raises='none', max_paths=20000):
        cache, remote = kind(p, FIRST, CACHE), kind(p, FIRST, REMOTE)
        st = stores(p, '_cache_parent')
        if p.rai:
            n['of remote'] += 1
            ctx.check(p.exc == 'TypeError' and remote is True, 'no cache of a remote alone', q, f'{p.exc}', f.where, p)
            continue
        ctx.check(remote is not True, 'no cache of a remote alone', q, 'is made', f.where, p)
        given = p.holds(truthy(P('args')))
        if cache is True:
            n['of cache'] += 1
            ctx.check(len(st) == 1 and st[0].target == p.val and st[0].args[0] == FIRST, 'a cache of a cache is its helper', q, f'{[show(e.args[0])[:40] for e in st]}', f.where, p)
            boot = [v for a, v in p.facts() if a[0] in ('hasattr', 'ownattr') and a[2] in ('_in_bootstrap', C('_in_bootstrap'))]
            sb = stores(p, '_in_bootstrap')
            ctx.check(boot[:1] == [bool(sb)] and all(e.target == p.val and e.args[0][0] == 'attr' and e.args[0][2] == '_in_bootstrap' for e in sb), 'a helper is in a bootstrap when its cache is', q, f'{boot} {len(sb)}', f.where, p)
        else:
            n['alone'] += 1
            ctx.check(not st and (given is False or cache is False), 'a cache of a cache is its helper', q, 'not known whether it is made of one' if not st else 'a helper of no cache', f.where, p)
    f = ctx.prog.cls('caches.CachePath') and ctx.func(CP, 'with_segments')
    q = ctx.short(f)
    for p in ctx.run(f, recv=CP, raises='none'):
        if p.ret:
            n['segments'] += 1
            all_ = ('star', P(f.node.args.vararg.arg))
            new = [e for e in p.calls('__new__') if e.result == p.val]
            ctx.check(len(new) == 1 and new[0].args[-1] == all_, 'of all the parts given', q, f'{[show(a)[:40] for e in new for a in e.args]}', f.where, p)
            init = p.calls('__init__')
            ctx.check(any(e.args[-1:] == (all_,) and (e.target == p.val or e.args[0] == p.val) for e in init), 'of all the parts given', q, 'the parts are not kept', f.where, p)
    for x in ('child', 'name', 'no name', 'refused', 'bound', 'below', 'unbound', 'of remote', 'of cache', 'alone', 'segments'):
        ctx.need('P79', n[x], 1, f'instances of {x}')


@rule('P72')
def p72_fail(ctx):
    """What follows when the cache of a folder on the way up cannot be told, against what is known of the wish to fail; the order of the way up; and what a link is known to be when its folder is asked."""
    n = Counter()
    f = ctx.func(LP, 'find_cache_root')
    q = ctx.short(f)
    FAIL = P('fail')

    def lost(p):
        """a folder on the way up has no cache that can be told"""
        return [x for x in p.items if isinstance(x, tuple) and x and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'cache']

    def unknown(p):
        i = max(i for i, x in enumerate(p.items) if x is lost(p)[-1])
        return [v for a, v in known(p.items[i:]) if a[0] == 'excis' and v and ('NoCachedMetadataError' in repr(a) or 'NotInProjectError' in repr(a))]

    for p in ctx.run(f, recv=LP, raises='try', attr_fails=('cache',), max_paths=200000):
        deleg = p.calls('find_cache_root')
        if deleg:
            n['link'] += 1
            facts = [(a, v) for a, v in p.facts() if a[0] == 'fs' and a[2] == SELF]
            dangling = any(a[1] == 'is_broken_symlink' and v for a, v in facts) or any(a[1] in ('is_symlink',) and v for a, v in facts) and any(a[1] in ('exists', 'is_file') and not v for a, v in facts)
            ctx.check(dangling, 'a link that is not fetched has the root of its folder', q, 'asks the folder of what may be a folder itself', deleg[0].where, p)
        if lost(p) and unknown(p):
            wish = p.holds(truthy(FAIL))
            if p.rai:
                n['failed'] += 1
                ctx.check(wish is True, 'not finding one is an error only when asked for', q, f'raises {p.exc}', f.where, p)
            else:
                n['not failed'] += 1
                ctx.check(wish is False, 'not finding one is an error only when asked for', q, 'goes on although failing was asked for', f.where, p)
        if p.ret and p.val[0] == 'havoc':
            for x in p.loops('later'):
                t = x[3]
                if t and t[0] == 'call' and str(t[1]).rpartition('.')[2] == 'chain' and len(t[2]) > 1:
                    n['order'] += 1
                    ctx.check('parents' in repr(t[2][-1]) and not any('parents' in repr(y) for y in t[2][:-1]), 'the highest one is the root', q, 'the folder itself comes after those above it', f.where, p)
    for k in ('link', 'failed', 'not failed'):
        ctx.need('P72', n[k], 1, k)


@rule('P46')
def p46_made(ctx):
    """The folders made on every path of setting up the local data of a cache, in their order, and whether they may be there already."""
    n = Counter()
    f = ctx.func(CP, 'local_data_dir_init')
    q = ctx.short(f)
    DATA, OBJ, TRASH, TO, OK = A(SELF, 'local_data_dir'), A(SELF, 'local_objects_dir'), A(SELF, 'trash'), P('symlink_objects_to'), P('exist_ok')
    for p in ctx.run(f, recv='caches.PrimaryCache', raises='none'):
        if not p.ret:
            continue
        made = [e for e in p.effects() if e.name in ('mkdir', 'makedirs')]
        linked = [e for e in p.effects() if e.name in ('symlink', 'symlink_to')]
        there = {k: [e for e in made if same(e.target, t)] for k, t in (('data', DATA), ('objects', OBJ), ('trash', TRASH))}
        for e in made:
            ctx.check(e.kw.get('exist_ok') in (OK, TRUE), 'what is there already is no error', q, f'{show(e.target)[:60]} may not be there', e.where, p)
        ctx.check(len(there['data']) == 1 and p.effects()[:1] == there['data'], 'the folders of a cache are made', q, 'the data folder is not made first', f.where, p)
        plain = p.holds(('isc', TO, NONE))
        plain = plain if plain is not None else {True: False, False: True}.get(p.holds(truthy(TO)))
        if plain is not False:
            n['plain'] += 1
            ctx.check(len(there['objects']) == 1, 'the folders of a cache are made', q, 'no folder for objects', f.where, p)
        already = plain is False and not linked
        if not already:
            n['trash'] += 1
            ctx.check(len(there['trash']) == 1, 'the folders of a cache are made', q, 'no trash', f.where, p)
    for k in ('plain', 'trash'):
        ctx.need('P46', n[k], 1, k)


@rule('P26')
def p26_here(ctx):
    """What anchoring a class where a cache is makes and hands on, on every path on which it succeeds."""
    n = Counter()
    f = ctx.func(CP, 'anchorClassHere')
    q = ctx.short(f)
    for p in ctx.run(f, recv=CP, raises='none'):
        if not p.ret:
            continue
        n['anchored'] += 1
        tied, folders = p.calls('anchorToCache'), p.calls('local_data_dir_init')
        ctx.check(bool(folders) and folders[0].target == SELF, 'an anchor has its folders', q, 'they are not made', f.where, p)
        ok = len(tied) == 1 and (tied[0].args[:1] == (SELF,)) and tied[0].arg(1, 'init') == P('remote_init')
        ctx.check(ok, 'the class of remotes is tied to the anchor', q, f'{[show(a)[:40] for e in tied for a in e.args]}', f.where, p)
    ctx.need('P26', n['anchored'], 1, 'anchored')


@rule('P22')
def p22_rest(ctx):
    """Which cache the remote knows when a move is refused, what the folders of the target are made from, what a target that is no cache becomes, and what is left of a link that was set aside, on every path on which no step fails."""
    n = Counter()
    f = ctx.func('caches.PrimaryCache', 'move')
    q = ctx.short(f)
    R, T0, M0 = P('remote'), P('target'), P('meta')
    for p in ctx.run(f, recv='caches.PrimaryCache', raises='none', max_paths=200000):
        given = none(p, R)
        made = [e for e in p.calls('_remote_class') if e.args]
        for e in p.calls('mkdir_cache'):
            n['folders'] += 1
            r = e.arg(0, 'remote')
            if given is False:
                ctx.check(r == R, 'the folders are those of the remote', q, f'of {r and show(r)[:60]}', e.where, p)
            else:
                ctx.check(r in [x.result for x in made if x.args[0] == M0], 'the folders are those of the remote', q, f'of {r and show(r)[:60]} without a remote', e.where, p)
        if p.exc == 'WhyDidntThisGetMovedBeforeError':
            st = [e for e in stores(p, '_cache') if e.target == R]
            if given is False:
                n['link in the way'] += 1
                ctx.check(bool(st) and st[-1].args[0] == SELF, 'a remote keeps the cache that is not moved', q, 'knows the cache of the target', f.where, p)
            ctx.check(given is not None or bool(st), 'a remote keeps the cache that is not moved', q, 'not known whether there is one', f.where, p)
        for a, v in p.facts():
            if a[0] == 'isinst' and a[1] in (T0, ('div', A(SELF, 'anchor'), R)) and v is False and p.ret and mentions(a[2], SELF):
                itself = any(x[0] == 'eq' and w is True and len(x) == 3 and all(y == SELF or y == ('abs', SELF) or mentions(y, a[1]) for y in x[1:]) for x, w in p.facts())
                if itself:
                    continue
                n['cast'] += 1
                ok = p.val[0] == 'new' and mentions(p.val, a[1]) or p.val[0] == 'call' and mentions(p.val, a[1])
                ctx.check(ok, 'the target is a cache', q, f'returns {show(p.val)[:60]}', f.where, p)
                news = [e for e in p.evs('new') if e.result == p.val and e.kw.get('meta') == M0]
                ctx.check(bool(news), 'the target is a cache with the metadata given', q, 'has none', f.where, p)
        renames = [e for e in p.effects() if e.name in ('rename', 'replace') and e.target is not None and e.args]
        aside, moved = [e for e in renames if not own(e.target)], [e for e in renames if own(e.target)]
        if p.ret and aside and moved:
            s = aside[0].args[0]
            i = p.items.index(moved[-1])
            cut = [e for e in p.items[i:] if isinstance(e, Event) and e.name == 'unlink' and e.target is not None and same(e.target, s)]
            gone = any(a[0] == 'fs' and same(a[2], s) and (a[1] == 'is_symlink' and not v or a[1] == 'exists' and v) for a, v in known(p.items[i:]))
            n['aside'] += 1
            ctx.check(bool(cut) or gone, 'no link that was set aside is left', q, 'is left', f.where, p)
    for k in ('folders', 'link in the way', 'cast', 'aside'):
        ctx.need('P22', n[k], 1, k)
