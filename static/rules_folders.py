"""What is made for remotes: remotes, folders and their caches."""
from ctx import *
from rules_extra import passes, subject
from rules_remotes import RP, stores

LP = 'core.LocalPath'
CC = A(SELF, '_cache_class')


def there(facts, t):
    """what is known of whether something exists at t"""
    for a, v in facts:
        if a[0] == 'fs' and a[1] in ('exists', 'is_dir') and same(a[2], t):
            return v
    return None


def known(items):
    return [(x[1], x[2]) for x in items if isinstance(x, tuple) and x and x[0] == 'fact']


def given(e, i, name):
    return e.kw.get(name) or (e.args[i] if len(e.args) > i else None)


@rule('P78')
def p78(ctx):
    """Order, targets and arguments of every folder, cache and remote that is made on every path, and what is known of the remote and of the parent where nothing is made."""
    n = Counter()
    f = ctx.func(LP, 'mkdir_cache')
    q = ctx.short(f)
    R = P('remote')
    for p in ctx.run(f, recv=LP, raises='none'):
        if not p.ret:
            continue
        took = [(it, items) for _, it, items in passes(p) if it is not None]
        outside = [e for e in p.evs('effect') if e.name == 'mkdir' and not any(e in items for _, items in took)]
        for e in outside:
            ctx.check(mentions(e.target, R), 'only folders of the parents', q, f'makes {show(e.target)}', e.where, p)
        for it, items in took:
            if not mentions(it, A(R, 'parents')):
                continue
            n['parents'] += 1
            el = subject(items, it)
            if el is None:
                continue
            facts = known(items)
            evs = [x for x in items if isinstance(x, Event)]
            dirs = [e for e in evs if e.kind == 'effect' and e.name == 'mkdir']
            tests = [(a[2], v) for a, v in facts if a[0] == 'fs' and a[1] in ('exists', 'is_dir')]
            place = [x for x, v in tests] + [e.target for e in dirs]
            for x in place:
                ok = x[0] == 'div' and x[1][-2:] == ('anchor', 'local') or x[0] == 'div' and x[1] == A(CC, 'anchor', 'local')
                ok = ok and x[2][0] == 'call' and x[2][1] == ('m', el, 'as_path')
                ctx.check(ok, 'below the anchor where the remote is', q, f'looks at {show(x)[:100]}', f.where, p)
            caches = [e for e in evs if (e.name or '').endswith('_cache_class') and e.kind == 'call']
            tied = [e for e in evs if (e.name or '').endswith('_remote_class') and e.kind == 'call']
            if dirs:
                n['made'] += 1
                ctx.check(not tests or tests[0][1] is False, 'only what is missing', q, 'makes what exists', dirs[0].where, p)
                ctx.check(bool(tests) or dirs[0].kw.get('exist_ok') == TRUE, 'only what is missing', q, 'not known to be missing', dirs[0].where, p)
                if ctx.check(len(dirs) == 1 and len(caches) == 1, 'a folder has the cache of its remote', q, f'{len(dirs)} folders, {len(caches)} caches', dirs[0].where, p):
                    c = caches[0]
                    ctx.check(evs.index(dirs[0]) < evs.index(c), 'a folder has the cache of its remote', q, 'the cache comes before the folder', c.where, p)
                    ctx.check(c.args[:1] == (dirs[0].target,) or c.args and same(c.args[0], dirs[0].target), 'a folder has the cache of its remote', q, f'of {show(c.args[0])[:80]}' if c.args else 'of nothing', c.where, p)
                    ctx.check(c.kw.get('meta') == A(el, 'meta'), 'a folder has the metadata of its remote', q, f'of {c.kw.get("meta") and show(c.kw["meta"])[:80]}', c.where, p)
                    own = c.kw.get('remote')
                    ctx.check(own in (None, NONE, el), 'a folder has the cache of its remote', q, f'of {own and show(own)[:80]}', c.where, p)
                    ctx.check(own == el or any(t.args[:1] == (el,) for t in tied), 'remote and cache know each other', q, 'the cache is not told of its remote', c.where, p)
                    for t in tied:
                        ctx.check(t.args[:1] == (el,) and t.kw.get('cache') == c.result, 'remote and cache know each other', q, f'{show(t.args[0]) if t.args else "nothing"} with {t.kw.get("cache") and show(t.kw["cache"])[:60]}', t.where, p)
                    ctx.check(bool(tied) or any(e.kind == 'store' and e.name in ('_cache', 'cache') and e.target == el for e in evs), 'remote and cache know each other', q, 'the remote is not told of its cache', c.where, p)
            else:
                n['kept'] += 1
                ctx.check(bool(tests) and tests[0][1] is True, 'every missing folder is made', q, 'a missing folder of the remote is not made', f.where, p)
                ctx.check(not caches and not tied, 'what exists is left alone', q, 'metadata of what exists is replaced', f.where, p)
    # parents come before their children
    import ast
    srcs = [g for g in ctx.spread(f)]
    backwards = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('reversed', 'sorted') or isinstance(x, ast.Attribute) and x.attr == 'reverse'
                    or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(x.operand, ast.Constant) and x.operand.value == 1
                    or isinstance(x, ast.Attribute) and x.attr in ('pop', 'insert', 'appendleft') or isinstance(x, ast.keyword) and x.arg == 'parents' for g in srcs for x in ast.walk(g.node))
    ctx.check(backwards, 'parents first', q, 'the nearest folder comes first', f.where)
    # a remote folder
    f = ctx.func(LP, 'mkdir_remote')
    q = ctx.short(f)
    CACHE, REM, PAR = A(SELF, 'cache'), A(SELF, 'remote'), P('parents')
    PC = A(SELF, 'parent', 'cache')
    for p in ctx.run(f, recv=LP, raises='none', max_paths=20000):
        bound = p.holds(truthy(CACHE)) is True and p.holds(truthy(REM)) is True
        there_ = None
        for a, v in p.facts():
            if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('m', REM, 'exists') or a[0] == 'fs' and a[1] == 'exists' and a[2] == REM:
                there_ = v
        made = p.calls('_mkdir_child')
        dirs = [e for e in p.evs('effect') if e.name == 'mkdir']
        inits = p.calls('cache_init')
        if p.exc == 'RemotePathExistsError':
            n['exists'] += 1
            ctx.check(bound and there_ is True and not made and not dirs, 'what exists is not made again', q, 'refused although the remote does not exist' if not there_ else 'refused after something is made', f.where, p)
            continue
        ctx.check(not (bound and there_ is True), 'what exists is not made again', q, 'the remote exists', f.where, p)
        if made or dirs:
            ctx.check(p.holds(truthy(CACHE)) is False or p.holds(('isc', CACHE, NONE)) is True or p.holds(truthy(REM)) is False or there_ is False, 'what exists is not made again', q, 'not known whether the remote exists', f.where, p)
        if p.exc == 'UnboundLocalError' and p.loops('zero'):
            continue  # the parts of a path below a parent of it are never empty
        parent = p.holds(truthy(PC))
        parent = parent if parent is not None else {True: False, False: True}.get(p.holds(('isc', PC, NONE)))
        if parent is True:
            n['child'] += 1
            if not ctx.check(len(made) == 1 and p.ret, 'the remote folder is made once', q, f'{len(made)} times, {p.kind}', f.where, p):
                continue
            m = made[0]
            ctx.check(m.target in (A(SELF, 'parent', 'remote'), A(PC, 'remote')) and m.args[:1] == (A(SELF, 'name'),), 'under the remote of the parent', q, f'{show(m.args[0])} under {show(m.target)}', m.where, p)
            ctx.check(p.val == m.result, 'the new remote is returned', q, f'returns {show(p.val)[:80]}', f.where, p)
            ctx.check(len(dirs) == 1 and dirs[0].target == SELF, 'the folder is made', q, f'makes {[show(e.target)[:40] for e in dirs]}', f.where, p)
            ctx.check(all(e.kw.get('exist_ok') == TRUE or there(p.facts(), SELF) is False for e in dirs), 'the folder may exist', q, 'fails when it exists', f.where, p)
            has = p.holds(('isc', A(m.result, 'cache'), NONE))
            has = has if has is not None else {True: False, False: True}.get(p.holds(truthy(A(m.result, 'cache'))))
            if has is True or has is None:
                n['bound'] += 1
                st = [e for e in p.evs('store') if e.name in ('_cache', 'cache') and e.target == m.result]
                ok = len(inits) == 1 and inits[0].target == SELF and inits[0].arg(0, 'id_or_meta') == A(m.result, 'meta')
                ctx.check(ok, 'the folder has the metadata of the remote', q, f'{[show(e.arg(0, "id_or_meta"))[:60] for e in inits]}', f.where, p)
                ctx.check(bool(st) and bool(inits) and st[-1].args[0] in (CACHE, inits[0].result), 'remote and cache know each other', q, 'the remote is not told of its cache', f.where, p)
                order = [p.items.index(x) for x in (m, *dirs[:1], *inits[:1], *st[:1])]
                ctx.check(order == sorted(order), 'the folder has the metadata of the remote', q, 'in another order', f.where, p)
            else:
                ctx.check(not inits, 'the cache a remote has is left alone', q, 'a second cache is made', f.where, p)
        elif parent is False:
            asked = p.holds(truthy(PAR))
            if asked is False:
                n['orphan'] += 1
                ctx.check(p.exc == 'FileNotFoundError' and not made and not dirs, 'no folder without a parent', q, f'{p.kind} {show(p.val)[:60]}', f.where, p)
                continue
            if asked is not True:
                ctx.check(not made, 'parents are only made when that is asked for', q, 'not known whether it is asked for', f.where, p)
                continue
            for m in made:
                n['parents of remote'] += 1
                ctx.check(m is made[0] or m.target != made[made.index(m) - 1].target, 'every missing parent is made', q, 'all under the same parent', m.where, p)
                i = p.items.index(m)
                after = p.items[i + 1:]
                nxt = next((j for j, x in enumerate(after) if isinstance(x, Event) and x.name == '_mkdir_child'), len(after))
                step = [x for x in after[:nxt] if isinstance(x, Event)]
                d = [x for x in step if x.kind == 'effect' and x.name == 'mkdir']
                c = [x for x in step if x.name == 'cache_init']
                name = m.args[0]
                ok = len(d) == 1 and d[0].target[0] == 'div' and d[0].target[2] == name and contains(m.target, d[0].target[1])
                ctx.check(ok and d[0].kw.get('exist_ok') == TRUE, 'the folder is made', q, f'{[show(x.target)[:60] for x in d]} for {show(name)[:60]} under {show(m.target)[:60]}', m.where, p)
                ok = len(c) == 1 and d and same(c[0].target, d[0].target) and c[0].arg(0, 'id_or_meta') == A(m.result, 'meta') and step.index(d[0]) < step.index(c[0])
                ctx.check(ok, 'the folder has the metadata of the remote', q, f'{[show(x.target)[:60] for x in c]}', m.where, p)
                ctx.check(name[0] == 'elem' and 'parts' in repr(name[1]) and mentions(name[1], SELF), 'every missing parent is made', q, f'makes {show(name)[:60]}', m.where, p)
            if p.ret and made:
                n['last'] += 1
                last = p.val
                st = [e for e in p.evs('store') if e.name in ('_cache', 'cache')]
                ctx.check(bool(st) and st[-1].target == last and 'cache' in repr(st[-1].args[0]), 'remote and cache know each other', q, 'the remote is not told of its cache', f.where, p)
                ctx.check(last in [m.result for m in made] or last[0] == 'havoc', 'the new remote is returned', q, f'returns {show(last)[:80]}', f.where, p)
            for it, items in [(it, items) for _, it, items in passes(p) if it == A(SELF, 'parents')]:
                el = subject(items, it)
                if el is None:
                    continue
                n['nearest'] += 1
                facts = known(items)
                has = next((v for a, v in facts if a == truthy(A(el, 'cache'))), None)
                has = has if has is not None else next((not v for a, v in facts if a[0] in ('isc', 'eq') and a[1:] == (A(el, 'cache'), NONE)), None)
                here = any(isinstance(x, Event) and x.name == '_mkdir_child' for x in items)
                ctx.check(has is not None and (not here or has), 'from the nearest parent with a cache', q, 'below a folder without a cache', f.where, p)
        else:
            ctx.check(not made and not dirs, 'no folder without a parent', q, 'not known whether the parent has a cache', f.where, p)
    for x in ('parents', 'made', 'kept', 'exists', 'child', 'bound', 'orphan', 'parents of remote', 'last', 'nearest'):
        ctx.need('P78', n[x], 1, f'instances of {x}')


@rule('P67')
def p67_made(ctx):
    """Where the id of a new remote comes from on every path, against what is known of the thing it is made from, and what remote and cache are told of each other."""
    n = Counter()
    f = ctx.func(RP, '__init__')
    q = ctx.short(f)
    T, C_ = P(f.node.args.args[1].arg), P('cache')
    KINDS = {'str': ('bi', 'str'), 'metadata': ('class', 'augpathlib.meta.PathMeta'), 'remote': ('class', 'augpathlib.remotes.RemotePath')}
    for p in ctx.run(f, recv=RP, raises='none'):
        known_ = {}
        for k, c in KINDS.items():
            for a, v in p.facts():
                if a[0] == 'isinst' and a[1] == T:
                    ks = a[2][1] if a[2][0] == 'tup' else (a[2],)
                    if c in ks:
                        known_[k] = v if v is False or len(ks) == 1 else None
        ids = stores(p, '_id')
        if p.rai:
            n['refused'] += 1
            ctx.check(p.exc == 'TypeError', 'made from an id', q, f'{p.kind} {show(p.val)[:80]}', f.where, p)
            ctx.check(all(known_.get(k) is False for k in KINDS) or p.holds(truthy(P('args'))) is True, 'made from an id', q, 'refused without need', f.where, p)
            continue
        if not ctx.check(len(ids) == 1 and ids[0].target == SELF, 'made from an id', q, 'has no id', f.where, p):
            continue
        v = ids[0].args[0]
        if v == T:
            n['str'] += 1
            ctx.check(known_.get('str') is True or any(a[0] == 'isinst' and a[1] == T and a[2] == ('bi', 'str') and w for a, w in p.facts()), 'made from an id', q, 'what is no text is the id', ids[0].where, p)
        else:
            n['other'] += 1
            ctx.check(v == A(T, 'id') and known_.get('str') is not True, 'made from an id', q, f'the id is {show(v)[:80]}', ids[0].where, p)
            ctx.check(any(known_.get(k) is True or k in known_ and known_[k] is None for k in ('metadata', 'remote')), 'made from an id', q, 'what has no id to give is accepted', ids[0].where, p)
        none = p.holds(('isc', C_, NONE))
        mine = [e for e in stores(p, '_cache') if e.target == SELF]
        theirs = [e for e in stores(p, '_remote')]
        if none is True or p.holds(truthy(C_)) is False:
            ctx.check(not theirs, 'remote and cache know each other', q, 'told of a cache that was not given', f.where, p)
        else:
            n['cache'] += 1
            ctx.check(bool(mine) and mine[0].args[0] == C_, 'remote and cache know each other', q, 'the remote is not told of its cache', f.where, p)
            ctx.check(bool(theirs) and theirs[0].target in (C_, A(SELF, 'cache'), A(SELF, '_cache')) and theirs[0].args[0] == SELF, 'remote and cache know each other', q, 'the cache is not told of its remote', f.where, p)
    f = ctx.func(RP, 'id')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RP, raises='none'):
        if p.ret:
            ctx.check(p.val == A(SELF, '_id'), 'the id is kept', q, f'is {show(p.val)}', f.where, p)
    for k in ('refused', 'str', 'other', 'cache'):
        ctx.need('P67', n[k], 1, f'constructions: {k}')
