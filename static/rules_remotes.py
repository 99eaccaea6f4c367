"""Rules about remotes (remotes.py)."""
import ast
import re
from ctx import *
from interp import class_like, sources
from rules_caches import own, at, logged, PC, SSHC, CP

RP, SSHR = 'remotes.RemotePath', 'remotes.SshRemote'
ANC = '_cache_anchor'


def klass(ctx, name):
    return ('class', ctx.recv(name).qual)


def stores(p, *names):
    return [e for e in p.evs('store') if e.name in names]


def anchored(k, name=ANC):
    return ('hasattr', k, name)


@rule('P26')
def p26(ctx):
    """Typestate of the class attributes that hold an api or an anchor: what is known about them at every store and deletion, over every exit
    of every step, and what is left when a check refuses."""
    n = Counter()
    # init: one api
    for cls, attr in ((RP, '_api'), (SSHR, '_anchor')):
        f = ctx.func(cls, 'init')
        q, k = ctx.short(f), klass(ctx, cls)
        for p in ctx.run(f, recv=cls, raises='none'):
            has = anchored(k, attr)
            if p.can((has, True)):
                n['again'] += 1
                ctx.check(p.exc == 'ValueError' and not p.evs('store'), 'an api is bound once', q, f'{p.kind} {show(p.val)}', f.where, p)
            elif p.ret:
                n['bound'] += 1
                ctx.check(bool(stores(p, attr)), 'an api is bound once', q, f'returns without {attr}', f.where, p)
        # a failure leaves nothing behind, so that it can be tried again
        for p in ctx.run(f, recv=cls, raises='all', attr_fails=('root',)):
            if p.rai and p.holds(anchored(k, attr)) is False:
                n['failed'] += 1
                last = [e.kind for e in p.items if isinstance(e, Event) and e.kind in ('store', 'delattr') if e.name == attr or e.kind == 'delattr' and attr in map(str, [x[2] for x in e.args if is_const(x)])]
                ctx.check(not last or last[-1] == 'delattr', 'bound or not at all', q, f'stays bound to {attr} although it failed', f.where, p)
    # anchorToCache: one anchor, of the root id
    for cls in (RP, SSHR):
        f = ctx.func(cls, 'anchorToCache')
        q, k = ctx.short(f), klass(ctx, cls)
        CA = P('cache_anchor')
        cid = A(CA, 'id')
        for p in ctx.run(f, recv=cls, raises='none', inline=('remotes.RemotePath.anchorToCache',)):
            ups = stores(p, ANC)
            # init may bind the root: what was asked before it does not count
            inits = [p.items.index(e) for e in p.calls('init')]
            root, rroot = A(k, 'root'), A(k, '_remote_root')
            for e in ups:
                n['anchor'] += 1
                ctx.check(excluded(e.st, (anchored(k), True)), 'anchored once', q, 'an anchor is replaced', e.where, p)
                same_root = lambda a, v: excluded(e.st, (anchored(k, 'root'), True), (eqat(root, cid), False), (a, v), *([(eqat(rroot, cid), False)] if v else []))
                ctx.check(same_root(anchored(k, '_remote_root'), True) and same_root(anchored(k, '_remote_root'), False), 'only the anchor of the root', q, 'anchored although neither root id is that of the anchor', e.where, p)
                ctx.check(e.args[0] == CA, 'only the anchor of the root', q, f'anchored to {show(e.args[0])}', e.where, p)
                asked = [i for i, x in enumerate(p.items) if not isinstance(x, Event) and x[0] == 'fact' and x[1][0] == 'eq' and mentions(x[1], root)]
                ctx.check(not inits or not asked or max(asked) > max(inits), 'only the anchor of the root', q, 'the root is compared before it is bound', e.where, p)
            if p.rai:
                n['refused'] += 1
                ctx.check(p.exc == 'ValueError' and not ups, 'unanchored when refused', q, f'{p.kind} {show(p.val)} after anchoring' if ups else f'{p.kind} {show(p.val)}', f.where, p)
                differs = p.holds(eqat(root, cid)) is False and p.holds(eqat(rroot, cid)) is not True
                ctx.check(differs or p.holds(anchored(k)) is True, 'refused for a reason', q, 'refused although not anchored and not of another root', f.where, p)
            else:
                n['done'] += 1
                ctx.check(len(ups) == 1 and p.val in (CA, A(k, ANC)), 'anchored once', q, f'returns {show(p.val)} after {len(ups)} stores', f.where, p)
                if cls == SSHR and p.calls('_bind_sysid'):
                    ctx.check(any(excluded(e.st, (('isc', A(k, 'sysid'), NONE), False)) for e in p.calls('_bind_sysid')), 'anchored again after weighing', q, 'the sysid is bound again', f.where, p)
    # dropAnchor
    f = ctx.func(RP, 'dropAnchor')
    q, k = ctx.short(f), klass(ctx, RP)
    for p in ctx.run(f, recv=RP, raises='none'):
        ups = stores(p, ANC)
        for e in ups:
            ctx.check(excluded(e.st, (anchored(k), True)), 'anchored once', q, 'an anchor is replaced', e.where, p)
        if p.can((anchored(k), True)):
            n['drop'] += 1
            ctx.check(p.exc == 'RemoteAlreadyAnchoredError' and not ups and not p.muts() and not p.calls('cache_init'), 'anchored once', q, f'{p.kind} {show(p.val)}', f.where, p)
        elif p.ret:
            ctx.check(bool(ups) or bool(p.calls('anchorToCache')), 'anchored once', q, 'returns without an anchor', f.where, p)
    # smartAnchor binds through the checks
    f = ctx.func(RP, 'smartAnchor')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RP, raises='try', inline=('remotes.RemotePath.anchorToCache',)):
        root, rroot = A(k, 'root'), A(k, '_remote_root')
        for e in stores(p, ANC):
            n['smart'] += 1
            cid = A(e.args[0], 'id')
            same_root = lambda a, v: excluded(e.st, (anchored(k, 'root'), True), (eqat(root, cid), False), (a, v), *([(eqat(rroot, cid), False)] if v else []))
            ctx.check(same_root(anchored(k, '_remote_root'), True) and same_root(anchored(k, '_remote_root'), False), 'only the anchor of the root', q, 'anchored although neither root id is that of the anchor', e.where, p)
    # weighing anchor
    for cls, attr in ((RP, ANC), (PC, '_anchor')):
        f = ctx.func(cls, 'weighAnchor')
        q = ctx.short(f)
        for p in ctx.run(f, recv=cls, raises='none'):
            n['weigh'] += 1
            ctx.check(p.ret, 'weighing does not fail', q, f'{p.kind} {show(p.val)}', f.where, p)
            for e in p.evs('delattr') + p.evs('store'):
                n['weighed'] += 1
                ctx.check(e.name == attr and class_like(e.target), 'its own anchor only', q, f'{e.kind} {e.name} of {show(e.target)}', e.where, p)
                if e.kind == 'delattr':
                    ctx.check(excluded(e.st, (('ownattr', e.target, attr), False)), 'its own anchor only', q, 'the anchor may be inherited', e.where, p)
            if not p.evs('delattr'):
                ctx.check(any(a[0] in ('ownattr', 'hasattr') and a[2] == attr and not v for a, v in p.facts()), 'its own anchor goes', q, 'an anchor of its own may stay', f.where, p)
            for e in p.muts():
                ctx.check(False, 'its own anchor only', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
    # caches
    f = ctx.func(PC, 'anchorClassHere')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PC, raises='all', exc_root='BaseException'):
        ups = stores(p, '_anchor')
        for e in ups:
            n['cache'] += 1
            ctx.check(e.args[0] == SELF and excluded(e.st, (('ownattr', e.target, '_anchor'), True)), 'anchored once', q, 'an anchor is replaced', e.where, p)
        if p.ret:
            ctx.check(len(ups) == 1 and any(x.args[:1] in ((SELF,), [SELF]) for x in p.calls('anchorToCache')), 'the remote is anchored with it', q, 'the remote is not anchored', f.where, p)
        elif ups:
            n['unwound'] += 1
            i = p.items.index(ups[-1])
            rest = [x if isinstance(x, Event) else x[1] for x in p.items[i + 1:] if isinstance(x, Event) or x[0] == 'raises']
            gone_ = any(getattr(e, 'name', None) == 'weighAnchor' or getattr(e, 'kind', None) == 'delattr' and e.name == '_anchor' for e in rest)
            ctx.check(gone_, 'unanchored when refused', q, 'the cache class stays anchored', f.where, p)
        elif any(a[0] == 'ownattr' and v for a, v in p.facts()):
            n['cagain'] += 1
            ctx.check(p.exc == 'ValueError', 'anchored once', q, f'{p.kind} {show(p.val)}', f.where, p)
    # new classes
    f = ctx.func(RP, '_new')
    q = ctx.short(f)
    LC, CC = P('local_class'), P('cache_class')
    for p in ctx.run(f, recv=RP, raises='none'):
        n['new'] += 1
        v = p.val
        if not ctx.check(p.ret and v[0] == 'call' or v[0] in ('dynclass', 'new'), 'a class of its own', q, f'returns {show(v)}', f.where, p):
            continue
        last = {}
        for e in p.evs('store'):
            last[(e.target, e.name)] = e.args[0]
        inner = {a: x for y in subterms(v) if isinstance(y, tuple) and y and y[0] == 'dict' for z in [y[1]] for a, x in ((kk[2], xx) for kk, xx in z if kk and kk[0] == 'c')}
        for t, a, want in ((LC, '_remote_class', v), (LC, '_cache_class', CC), (CC, '_remote_class', v), (CC, '_local_class', LC)):
            n['tie'] += 1
            ctx.check(last.get((t, a)) == want, 'the three classes are tied', f'{q}: {show(t)}.{a}', f'is {show(last[(t, a)]) if (t, a) in last else "not set"}', f.where, p)
        for a, want in (('_local_class', LC), ('_cache_class', CC)):
            ctx.check(inner.get(a, last.get((v, a))) == want, 'the three classes are tied', f'{q}: remote.{a}', f'is {show(inner[a]) if a in inner else "not set"}', f.where, p)
        for t in (v, CC):
            ctx.check(any(e.target == t for e in p.calls('weighAnchor')), 'no anchor of its own', f'{q}: {"remote" if t == v else "cache"}', 'does not weigh anchor', f.where, p)
    for x in ('again', 'bound', 'failed', 'anchor', 'refused', 'done', 'drop', 'smart', 'weigh', 'weighed', 'cache', 'unwound', 'cagain', 'new', 'tie'):
        ctx.need('P26', n[x], 1, f'instances of {x}')


def listing(t, L):
    """all entries of the folder and nothing else"""
    if t == A(L, 'children'):
        return True
    if t[0] == 'call' and t[1] in ('list', 'tuple', 'set', 'sorted', 'iter', 'any', 'len', 'os.listdir', 'os.scandir') and t[2]:
        return listing(t[2][0], L) or t[1].startswith('os.') and same(t[2][0], L)
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'iterdir':
        return t[1][1] == L
    if t[0] == 'comp':
        return not t[4] and listing(t[3], L)
    if t[0] in ('next', 'len'):
        return listing(t[1], L)
    return False


def seen_empty(p, L):
    """the path has seen that the folder has no entries"""
    for a, v in p.facts():
        if a[0] == 'truthy' and v is False or a[0] == 'exhausted' and v:
            if listing(a[1], L):
                return True
    return any(not isinstance(x, Event) and x[0] == 'loop' and x[2] == 'zero' and x[3] is not None and listing(x[3], L) for x in p.items)


@rule('P27')
def p27(ctx):
    """What is known about the local folder at every step that creates something, and which failure each fallback of the smart form needs."""
    n = Counter()
    f = ctx.func(RP, 'dropAnchor')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RP, raises='none', inline=('remotes.RemotePath._get_local_root_path',)):
        n['path'] += 1
        acts = p.muts() + p.calls('cache_init', '_cache_class', '_meta_setter', '_meta_updater')
        if not acts:
            ctx.check(p.rai, 'anchored or refused', q, f'{p.kind} {show(p.val)}', f.where, p)
        locs = {e.target for e in acts if e.target is not None}
        ctx.check(len(locs) <= 1, 'the local root only', q, f'creates {[show(x) for x in locs]}', f.where, p)
        exists = {a[2] for a, v in p.facts() if a[0] == 'fs' and a[1] in ('exists', 'is_dir', 'is_symlink', 'is_file')}
        for e in acts:
            n['act'] += 1
            L = e.target
            ctx.check(e.name == 'mkdir' or e.name == 'cache_init', 'the local root only', f'{q}: {e.name}', f'{e.name} of {show(L)}', e.where, p)
            kids = seen_empty(p, L)
            fresh = e.name == 'mkdir' and not e.kw.get('exist_ok') or any(x.name == 'mkdir' and x.target == L and not x.kw.get('exist_ok') for x in p.muts())
            gone_ = excluded(e.st, (fsat('exists', L), True))
            if e.name == 'mkdir':
                n['mkdir'] += 1
                ctx.check(gone_ or fresh, 'only where nothing is', q, 'made although something may be there', e.where, p)
                rdir = [a for a, v in p.facts() if a[0] == 'fs' and a[1] == 'is_dir' and v and a[2] != L]
                ctx.check(bool(rdir), 'only for directories', q, 'made although the remote root may not be a directory', e.where, p)
            else:
                ctx.check(fresh or gone_ or kids, 'only where nothing is', q, 'initialised although the folder may have content', e.where, p)
                ctx.check(fresh or gone_ or excluded(e.st, (fsat('is_dir', L), False)), 'only where nothing is', f'{q}: files', 'initialised although it may be a file', e.where, p)
        full = p.rai and any((a[0] == 'truthy' and v or a[0] == 'exhausted' and not v) and listing(a[1], x) for a, v in p.facts() for x in exists)
        if full or p.exc == 'DirectoryNotEmptyError':
            n['full'] += 1
            ctx.check(p.exc == 'DirectoryNotEmptyError' and not acts, 'folders with content are refused', q, f'{p.kind} {show(p.val)}', f.where, p)
    # the smart form
    f = ctx.func(RP, 'smartAnchor')
    q, k = ctx.short(f), klass(ctx, RP)
    for p in ctx.run(f, recv=RP, raises='try'):
        fails = [e for e in p.attempts('dropAnchor') if p.failed(e)]
        if not fails:
            if p.ret:
                ctx.check(bool(p.calls('dropAnchor')), 'drops anchor', q, 'no anchor is dropped', f.where, p)
            continue
        types = [a[2].rpartition('.')[2] for a, v in p.facts() if a[0] == 'excis' and v]
        n['fail'] += 1
        for e in p.muts():
            ctx.check(False, 'only falls back', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        if p.rai:
            n['reraised'] += 1
            continue
        n['fallback'] += 1
        bound = [e.args[0] for e in stores(p, ANC) + p.calls('anchorToCache') if e.args]
        kind = types[-1] if types else None
        if kind == 'RemoteAlreadyAnchoredError':
            ok = p.val == A(k, ANC) and not bound and any(a[0] == 'eq' and v and A(k, ANC) in a[1:] and any(x[0] == 'attr' and x[2] == 'cache' for x in a[1:]) for a, v in p.facts())
            ctx.check(ok, 'the current anchor only', q, f'returns {show(p.val)} although it may be another anchor', f.where, p)
        elif kind == 'CacheExistsError':
            ctx.check(len(bound) == 1 and bound[0][0] == 'attr' and bound[0][2] == 'cache', 'an existing cache only', q, f'binds {[show(b) for b in bound]}', f.where, p)
        elif kind == 'DirectoryNotEmptyError':
            ok = len(bound) == 1 and bound[0][0] == 'attr' and bound[0][2] == 'cache' and (excluded(p.st, (truthy(bound[0]), False)) or excluded(p.st, (('isc', bound[0], NONE), True)))
            ctx.check(ok, 'an existing cache only', q, f'binds {[show(b) for b in bound]} although the folder may have no cache', f.where, p)
        else:
            ctx.check(False, 'other failures are re-raised', q, f'{p.kind} {show(p.val)} after {kind}', f.where, p)
    # anchoring by path
    f = ctx.func(RP, 'anchorTo')
    q = ctx.short(f)
    PA = P('path')
    for p in ctx.run(f, recv=RP, raises='none'):
        for e in p.muts():
            ctx.check(False, 'creates nothing itself', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        for e in p.calls('dropAnchor'):
            n['to'] += 1
            ctx.check(excluded(e.st, (truthy(P('create')), False)), 'created on request', q, 'dropped although creation was not asked for', e.where, p)
            ctx.check(excluded(e.st, (truthy(A(PA, 'cache')), True)) or excluded(e.st, (('isc', A(PA, 'cache'), NONE), False)), 'existing caches are used', q, 'dropped although there is a cache', e.where, p)
            names = [a for a, v in p.facts() if a[0] == 'eq' and v and A(PA, 'name') in a[1:]]
            ctx.check(bool(names), 'the name of the root', q, 'dropped although the names may differ', e.where, p)
            ctx.check(e.args[:1] in ((A(PA, 'parent'),), [A(PA, 'parent')]), 'the name of the root', q, f'dropped in {[show(a) for a in e.args]}', e.where, p)
    for x in ('path', 'act', 'mkdir', 'full', 'fail', 'reraised', 'fallback', 'to'):
        ctx.need('P27', n[x], 1, f'instances of {x}')


# -- commands -----------------------------------------------------------------------------------
QUOTES = ('shlex.quote', 'pipes.quote')


def pieces(t, st):
    """the parts a command string is put together from: constant text, quoted words, everything else"""
    k = t[0]
    if is_const(t):
        return [('text', str(t[2]))]
    if st.holds(eqat(t, C(''))) is True:
        return [('text', '')]
    if k == 'fstr':
        return [y for x in t[1] for y in pieces(x, st)]
    if k == 'bin' and t[1] == 'Add':
        return pieces(t[2], st) + pieces(t[3], st)
    if k == 'call' and t[1] in QUOTES:
        return [('quoted', t)]
    if k == 'call' and t[1] == 'shlex.join':
        return [('quoted', t)]
    if k == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'join' and is_const(t[1][1]) and t[2] and t[2][0][0] in ('list', 'tup'):
        out = []
        for i, x in enumerate(t[2][0][1]):
            out += ([('text', t[1][1][2])] if i else []) + pieces(x, st)
        return out
    if k == 'strof':
        return pieces(t[1], st)
    fmt = t[1][1] if k == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'format' else t[2] if k == 'bin' and t[1] == 'Mod' else None
    if fmt is not None and is_const(fmt) and isinstance(fmt[2], str):
        mark, args = ('{}', t[2]) if k == 'call' else ('%s', t[3][1] if t[3][0] == 'tup' else (t[3],))
        texts = fmt[2].split(mark)
        rest = ''.join(texts)
        if len(texts) == len(args) + 1 and not (set('{}') & set(rest) if k == 'call' else '%' in rest):
            return [('text', texts[0])] + [y for a, x in zip(args, texts[1:]) for y in pieces(a, st) + [('text', x)]]
    return [('other', t)]


def spec_of(t, st):
    """the path of a git pathspec that means this path only, None for one in which git would look for wildcards"""
    ps = [x for x in pieces(t, st) if x != ('text', '')]
    if len(ps) == 2 and ps[0][0] == 'text' and ps[1][0] == 'other':
        words = re.fullmatch(r':\(([a-z,]*)\)', ps[0][1])
        if words and 'literal' in words[1].split(',') and set(words[1].split(',')) <= {'literal', 'top'}:
            return ps[1][1]
    return None


def shell_state(text, state):
    """quoting state of a shell after the text"""
    i = 0
    while i < len(text):
        c = text[i]
        if state == "'":
            if c == "'":
                state = ''
        elif c == '\\':
            i += 1
        elif state == '"':
            if c == '"':
                state = ''
        elif c in '\'"':
            state = c
        elif c == '#' and (i == 0 or text[i - 1] in ' \t;|&'):
            return '#'
        i += 1
    return state


def harmless(ctx, t, recv):
    """no path: constants of a class and the cypher command, which comes from a table of constants"""
    if t[0] == 'attr' and t[1][0] == 'class':
        return t[2] in ('stat_format', '_stat_format_darwin')
    if t[0] == 'attr' and t[1] == SELF and t[2] == 'cypher_command':
        return True
    if t[0] == 'item' and t[1] == ('gval', 'augpathlib.utils.cypher_command_lookup'):
        return True
    if t[0] == 'item' and t[1][0] == 'dict':  # an entry of a table of constants
        return all(v[0] == 'c' for _, v in t[1][1])
    return t[0] == 'call' and mentions(t, ('gval', 'augpathlib.utils.cypher_command_lookup'))


def commands(p):
    """(command terms that a shell interprets, event)"""
    out = []
    for e in p.evs('call'):
        nm = (e.name or '').rpartition('.')[2]
        args = list(e.args)
        if nm in ('_ssh', 'sendline', 'send', 'system', 'getoutput', 'getstatusoutput') and args:
            if nm == 'send' and 'session' not in repr(e.target):
                continue
            out.append(([args[0]], e))
        elif nm in ('Popen', 'run', 'call', 'check_call', 'check_output', 'spawn') and args and (e.name or '').startswith(('subprocess', 'pexpect')):
            a = args[0]
            if a[0] in ('list', 'tup'):
                words = list(a[1])
                first = words[0] if words else NONE
                if is_const(first) and str(first[2]).rpartition('/')[2] in ('ssh', 'sh', 'bash', 'zsh', 'dash'):
                    out.append((words[1:], e))
                elif e.kw.get('shell') not in (None, FALSE):
                    out.append((words[:1], e))
            else:
                out.append(([a], e))
    return out


@rule('P29')
def p29(ctx):
    """Dataflow into every command of every function of the remotes: each part of the command text is constant or quoted, the quoted words
    stand where the shell is not already inside quotes, and no character reaches the line editor of the session."""
    n = Counter()
    mod = ctx.prog.modules['augpathlib.remotes'] if 'augpathlib.remotes' in ctx.prog.modules else None
    for f in ctx.functions_of('remotes'):
        if f.cls is None:
            continue
        names = {x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', None) for g in ctx.spread(f) for x in ast.walk(g.node) if isinstance(x, (ast.Attribute, ast.Name))}
        if not names & {'_ssh', 'sendline', 'send', 'Popen', 'run', 'call', 'check_call', 'check_output', 'system', 'getoutput', 'spawn'}:
            continue
        q = ctx.short(f)
        sink = f.node.name == '_ssh'
        for p in ctx.run(f, recv=f.cls.qual.partition('.')[2], raises='none', inline=('remotes.SshRemote._stat_cmd', 'remotes.SshRemote.cypher_command')):
            for words, e in commands(p):
                n['command'] += 1
                ssh = (e.name or '').rpartition('.')[2] == 'Popen'
                for i, t in enumerate(words):
                    state = ''
                    for kind, x in pieces(t, e.st):
                        n['piece'] += 1
                        if kind == 'text':
                            state = shell_state(x, state)
                        elif kind == 'quoted':
                            n['quoted'] += 1
                            ctx.check(state == '', 'quoted where nothing else quotes', q, f'{show(x)} stands inside {state or "a comment"}', e.where, p)
                        elif sink and x == P('remote_cmd'):
                            pass
                        elif ssh and i == 0 and x == A(SELF, 'host'):
                            pass
                        else:
                            ctx.check(harmless(ctx, x, f), 'paths are quoted', q, f'{show(x)} is part of {show(t)} and is not quoted', e.where, p)
                if e.name.rpartition('.')[2] in ('sendline', 'send'):
                    n['sent'] += 1
                    c = words[0]
                    edits = [a for a, v in p.facts() if a[0] == 'truthy' and mentions(a[1], c) and (
                        v is False and ("'lt'" in repr(a[1]) or 'category' in repr(a[1]) or "'search'" in repr(a[1])) or v is True and any(y in repr(a[1]) for y in ("'isprintable'",)))]
                    edits += [a for a, v in p.facts() if a[0] in ('in', 'isc') and mentions(a, c) and ("'search'" in repr(a) or 'ntersection' in repr(a))]
                    ctx.check(bool(edits), 'no control characters', q, 'a command may contain characters that the line editor interprets', e.where, p)
                    ctx.check(sink, 'sent by one function', q, 'commands are sent past the checks of _ssh', e.where, p)
    for x in ('command', 'piece', 'quoted', 'sent'):
        ctx.need('P29', n[x], 1, f'instances of {x}')


PROMPT = 14  # columns of the prompt of a session and of the cursor


def linear(t, k, held=None):
    """a width as (constant, times the columns of the class, times the length of the prompt), None when it is something else"""
    if t is None:
        return None
    if is_const(t):
        return (t[2], 0, 0) if isinstance(t[2], int) else None
    if t == A(k, '_cols'):
        return linear(held, k) if held is not None else (0, 1, 0)
    if t[0] == 'len' and any(x[0] == 'attr' and x[2] in ('PROMPT', 'UNIQUE_PROMPT', 'PROMPT_SET_SH') for x in subterms(t)):
        return (0, 0, 1)
    if t[0] == 'bin' and t[1] in ('Add', 'Sub'):
        a, b = linear(t[2], k, held), linear(t[3], k, held)
        if a is None or b is None:
            return None
        return tuple(x + y if t[1] == 'Add' else x - y for x, y in zip(a, b))
    return None


def answer(ctx, p, f, q, sent):
    """the answer is what came before the prompt without the echo of the command"""
    raw = A(sent[0].target, 'before')
    v = p.val
    ctx.check(mentions(v, raw), 'the answer is returned', q, f'returns {show(v)[:100]}', f.where, p)
    cuts = [t for t in subterms(v) if t[0] == 'slice' and t[1] == raw]
    for t in cuts:
        lo, hi = t[2], t[3]
        # the terminal echoes the bytes that were sent, with one more for the carriage return it adds to the newline
        # the rest of the echo is white space
        free = any(x[0] == 'call' and x[1] in (('m', t, 'strip'), ('m', t, 'lstrip')) for x in subterms(v))
        ok = free and (lo == sent[0].result or lo == ('bin', 'Sub', sent[0].result, C(1)))
        ok = ok or lo[0] == 'bin' and lo[1] == 'Add' and hi in (None, NONE) and (
            {lo[2], lo[3]} == {sent[0].result, C(1)} or C(2) in lo[2:] and any(x[0] == 'len' and mentions(x, sent[0].args[0]) for x in lo[2:]))
        ctx.check(ok, 'the answer is returned', f'{q}: echo', f'returns {show(t)[:120]}', f.where, p)
    lines = [t for t in subterms(v) if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][1] == raw and t[1][2] in ('split', 'partition') and t[2] and t[2][0][2] in (b'\n', b'\r\n')]
    ctx.check(len(cuts) + len(lines) == 1, 'the answer is returned', f'{q}: echo', f'returns {show(v)[:120]}', f.where, p)


@rule('P30')
def p30(ctx):
    """The guard of every send, the mapping from remote answers to exceptions on every path of the stat, and the exit status of the transfer."""
    n = Counter()
    k = klass(ctx, SSHR)
    f = ctx.func(SSHR, '_ssh')
    q = ctx.short(f)
    CMD = P('remote_cmd')
    limits = set()
    for p in ctx.run(f, recv=SSHR, raises='none'):
        sent = p.calls('sendline', 'send')
        wide = [t for a, v in p.facts() if a[0] == 'lt' for t in a[1:] if t[0] == 'len' and mentions(t, CMD)]
        for t in wide:
            # as many columns as bytes at most: some characters are two columns wide
            enc = t[1][0] == 'call' and (t[1][1] == ('m', CMD, 'encode') or t[1][1] == 'bytes' and t[1][2][:1] == (CMD,))
            ctx.check(enc, 'the width of the command', q, f'measures {show(t)}', f.where, p)
        fits = None  # what the path knows: does it fit
        for a, v in p.facts():
            if a[0] == 'lt' and any(x in wide for x in a[1:]):
                at = 1 if a[1] in wide else 2
                limit = linear(a[3 - at], k)
                ctx.check(limit is not None, 'the width of the terminal', q, f'compared with {show(a[3 - at])}', f.where, p)
                if limit is not None:
                    # len < limit, or limit < len
                    limits.add(limit if at == 2 else (limit[0] - 1, limit[1], limit[2]))
                fits = v if at == 1 else not v
        for e in sent:
            n['sent'] += 1
            ctx.check(fits is True, 'never longer than the terminal', q, 'a command that is too long is sent', e.where, p)
            ctx.check(e.args[0] == CMD, 'sent whole', q, f'sends {show(e.args[0])}', e.where, p)
        if fits is False:
            n['long'] += 1
            ctx.check(p.exc == 'CommandTooLongError' and not sent, 'too long is refused', q, f'{p.kind} {show(p.val)}', f.where, p)
        else:
            ctx.check(p.exc != 'CommandTooLongError', 'too long is refused', q, 'refused although it fits', f.where, p)
            if p.ret:
                ctx.check(len(sent) == 1, 'sent whole', q, f'sent {len(sent)} times', f.where, p)
                waits = p.calls('prompt')
                ctx.check(bool(waits) and p.items.index(waits[0]) > p.items.index(sent[0]), 'the answer is awaited', q, 'does not wait for the answer', f.where, p)
                answer(ctx, p, f, q, sent)
    # the width that is compared is the width of the terminal without what the prompt takes of it
    f = ctx.func(SSHR, 'init')
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if not p.ret:
            continue
        cols = stores(p, '_cols')
        wins = p.calls('setwinsize')
        n['cols'] += 1
        held = cols[-1].args[0] if cols else None
        wide = linear(wins[-1].arg(1, 'cols'), k, held) if wins else None
        ok = wide is not None and held is not None and bool(limits)
        for c, m, pr in limits:
            base = linear(held, k, held) if ok else None
            room = (wide[0] - c - m * base[0], wide[1] - m * base[1], wide[2] - pr - m * base[2]) if base else None
            ok = ok and room is not None and room[1] == 0 and (room[2] >= 1 and room[0] >= 0 or room[2] == 0 and room[0] >= PROMPT)
        ctx.check(bool(ok), 'the width of the terminal', ctx.short(f), 'a command that is not refused may not fit behind the prompt', f.where, p)
        sends = [e for e in p.calls('_ssh')]
        ctx.check(all(p.items.index(e) > p.items.index(wins[-1]) for e in sends) if wins else False, 'the width of the terminal', ctx.short(f), 'a command is sent before the width is set', f.where, p)
    # stat
    f = ctx.func(SSHR, 'stat')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='try'):
        bad = [x for x in p.items if not isinstance(x, Event) and x[0] == 'raises' and 'StatResult' in str(getattr(x[1], 'name', x[1]))]
        outs = [e for e in p.calls('_ssh')]
        ends = {e.args[0][2]: p.holds(truthy(e.result)) for e in p.calls('endswith') if e.args and is_const(e.args[0])}
        if p.ret:
            n['stat'] += 1
            ctx.check(p.val[0] == 'new' and p.val[1].endswith('StatResult'), 'the answer is parsed', q, f'returns {show(p.val)}', f.where, p)
            continue
        if not bad or not any(a[0] == 'excis' and 'ValueError' in a[2] and v for a, v in p.facts()):
            ctx.check(p.propagated or not bad, 'failures keep their meaning', q, f'{p.kind} {show(p.val)}', f.where, p)
            continue
        denied = any(v and b'ermission denied' in (kk if isinstance(kk, bytes) else str(kk).encode()) for kk, v in ends.items())
        missing = any(v and b'o such file' in (kk if isinstance(kk, bytes) else str(kk).encode()) for kk, v in ends.items())
        want = 'PermissionError' if denied else 'FileNotFoundError' if missing else 'ValueError'
        n[want] += 1
        ctx.check(p.exc == want, 'failures keep their meaning', f'{q}: {want}', f'{p.kind} {show(p.val)}', f.where, p)
        ctx.check(denied or missing or len(ends) >= 2, 'failures keep their meaning', q, 'not asked for the two answers', f.where, p)
    # exists and access
    f = ctx.func(SSHR, 'exists')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='all'):
        failed = [x for x in p.items if not isinstance(x, Event) and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'stat']
        if failed:
            missing = any(a[0] == 'excis' and a[2].endswith('FileNotFoundError') and v for a, v in p.facts())
            n['exists'] += 1
            if missing:
                ctx.check(p.ret and (p.val in (NONE, FALSE) or p.holds(truthy(p.val)) is False), 'missing does not exist', q, f'{p.kind} {show(p.val)}', f.where, p)
            else:
                ctx.check(p.rai and p.propagated, 'only missing does not exist', q, f'{p.kind} {show(p.val)} after another failure', f.where, p)
        elif p.ret:
            ctx.check(bool(p.calls('stat')) and p.val not in (NONE, FALSE), 'what can be described exists', q, f'returns {show(p.val)}', f.where, p)
    f = ctx.func(SSHR, 'access')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='try'):
        failed = [x for x in p.items if not isinstance(x, Event) and x[0] == 'raises' and getattr(x[1], 'name', x[1]) == 'stat']
        if not failed:
            continue
        kinds = {a[2].rpartition('.')[2]: v for a, v in p.facts() if a[0] == 'excis'}
        n['access'] += 1
        known = [kk for kk in ('PermissionError', 'FileNotFoundError') if kinds.get(kk)] or any(kk[0] == 'handled' and all(t.rpartition('.')[2] in ('PermissionError', 'FileNotFoundError') for t in map(str, kk[3])) for kk in p.items if not isinstance(kk, Event))
        if known:
            ctx.check(p.ret and p.val in (NONE, FALSE), 'access is denied', q, f'{p.kind} {show(p.val)}', f.where, p)
            n['denied'] += 1
        else:
            ctx.check(p.rai and p.propagated, 'other failures are not a denial', q, f'{p.kind} {show(p.val)}', f.where, p)
    seen = set()
    for p in ctx.run(f, recv=SSHR, raises='try'):
        if p.ret and p.val in (NONE, FALSE):
            seen |= {a[2].rpartition('.')[2] for a, v in p.facts() if a[0] == 'excis' and v} | {str(t).rpartition('.')[2] for x in p.items if not isinstance(x, Event) and x[0] == 'handled' for t in x[3]}
    for t in ('PermissionError', 'FileNotFoundError'):
        ctx.check(bool(seen & {t, 'OSError', 'Exception', 'BaseException'}), 'access is denied', f'{q}: {t}', f'{t} is not a denial', f.where)
    # transfer
    f = ctx.func(SSHR, 'data')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='none'):
        procs = p.calls('Popen')
        procs = procs or [e for e in p.evs('call') if (e.name or '').endswith('Popen')]
        if not procs:
            ctx.check(any((e.name or '').endswith(('check_output', 'check_call')) or e.kw.get('check') == TRUE for e in p.evs('call')) or p.rai, 'failed transfers raise', q, 'the exit status is not looked at', f.where, p)
            continue
        pr = procs[0].result
        def status(t):
            return t[0] == 'attr' and t[2] == 'returncode' and mentions(t[1], pr) or t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in ('wait',) and mentions(t[1][1], pr)
        if p.ret:
            n['transfer'] += 1
            idx = [(i, x[1]) for i, x in enumerate(p.items) if not isinstance(x, Event) and x[0] == 'fact' and (
                x[1][0] == 'truthy' and x[2] is False and status(x[1][1]) or x[1][0] == 'eq' and x[2] is True and any(status(y) for y in x[1][1:]) and C(0) in x[1][1:])]
            if ctx.check(bool(idx), 'failed transfers raise', q, 'ends although the command may have failed', f.where, p):
                waited = [i for i, x in enumerate(p.items) if isinstance(x, Event) and (x.kind == 'with-exit' and x.target is not None and mentions(x.target, pr) or x.name in ('wait', 'communicate') and x.target is not None and mentions(x.target, pr))]
                byself = any(y[0] == 'call' for _, a in idx for y in (a[1:] if a[0] == 'eq' else (a[1],)) if isinstance(y, tuple) and status(y))
                ctx.check(byself or waited and min(waited) < idx[-1][0], 'failed transfers raise', q, 'the exit status is read before the command has ended', f.where, p)
            reads = [e for e in p.calls('read')]
            rr = {e.result for e in reads}
            ended = any(p.holds(truthy(e.result)) is False or p.holds(eqat(e.result, ('c', 'bytes', b''))) is True for e in reads) or any(
                a[0] == 'truthy' and not v and a[1][0] == 'havoc' and sources(a[1]) and set(sources(a[1])) <= rr for a, v in p.facts()) or any(a[0] == 'exhausted' and v for a, v in p.facts())
            ctx.check(ended or not reads, 'sent to the end', q, 'stops before the end of the data', f.where, p)
            for e in p.evs('yield'):
                ctx.check(not reads or any(contains(x, r.result) for x in sources(e.args[0]) for r in reads), 'sent to the end', q, f'yields {show(e.args[0])}', e.where, p)
            for r in reads:
                if p.holds(truthy(r.result)) is True:
                    ctx.check(any(contains(e.args[0], r.result) for e in p.evs('yield')), 'sent to the end', q, 'data that was read is dropped', r.where, p)
        elif p.rai:
            n['failed'] += 1
    for x in ('sent', 'long', 'cols', 'stat', 'PermissionError', 'FileNotFoundError', 'ValueError', 'exists', 'access', 'denied', 'transfer', 'failed'):
        ctx.need('P30', n[x], 1, f'instances of {x}')


# -- binding ------------------------------------------------------------------------------------
def are_caches(ctx, t):
    """a class, or classes, of which every object is a cache"""
    if isinstance(t, tuple) and t and t[0] in ('tup', 'list', 'set'):
        return bool(t[1]) and all(are_caches(ctx, x) for x in t[1])
    if isinstance(t, tuple) and t and not isinstance(t[0], str):
        return all(are_caches(ctx, x) for x in t)
    q = t[1] if isinstance(t, tuple) else t
    c = ctx.prog.classes.get(q)
    return c is not None and any(getattr(x, 'qual', x) == 'augpathlib.caches.CachePath' for x in c.mro())


@rule('P31')
def p31(ctx):
    """What is known about an object when it is stored as the cache of a remote, and whether the store is taken back on every failing exit."""
    n = Counter()
    CA = P('cache')
    inl = ('remotes.RemotePath._cache', 'remotes.RemotePath._impl__cache_setter', 'remotes.RemotePath._impl__cache')
    targets = [(RP, '_cache', 'setter'), (RP, '_cache_setter', 'getter'), (RP, '__init__', 'getter')]
    for cls, name, part in targets:
        f = ctx.func(cls, name, part)
        q = ctx.short(f)
        for p in ctx.run(f, recv=cls, raises='all', exc_root='BaseException', inline=inl):
            sets = [e for e in stores(p, '_c_cache') if e.args[0] != NONE]
            known = [a for a, v in p.facts() if a[0] == 'isinst' and are_caches(ctx, a[2])]
            for e in stores(p, '_cache') if name == '_cache_setter' else ():  # through the setter, which is decided above
                n['through'] += 1
                sets.append(e)
                ctx.check(e.target == SELF and e.args[0] == CA, 'only caches are bound', q, f'{show(e.args[0])} is bound to {show(e.target)}', e.where, p)
            for e in sets:
                if e.name == '_cache':
                    continue
                n['set'] += 1
                ctx.check(any(e.st.holds(a) is True and a[1] == e.args[0] for a in known), 'only caches are bound', q, f'{show(e.args[0])} may not be a cache', e.where, p)
                ctx.check(e.target == SELF and e.args[0] == CA, 'only caches are bound', q, f'{show(e.args[0])} is bound to {show(e.target)}', e.where, p)
            for a in known:
                if p.holds(a) is False:
                    n['refused'] += 1
                    ctx.check(p.exc == 'NotACacheClassError' and not sets, 'other objects are refused', q, f'{p.kind} {show(p.val)}', f.where, p)
            if name == '_cache_setter':
                ups = p.attempts('_meta_updater')
                if p.ret:
                    n['bound'] += 1
                    ctx.check(bool(sets), 'the cache is bound', q, 'returns without having bound the cache', f.where, p)
                    if p.can((truthy(P('update_meta')), True)):
                        n['updated'] += 1
                        ok = len(ups) == 1 and not p.failures and ups[0].target == CA and list(ups[0].args[:1]) == [A(SELF, 'meta')]
                        ctx.check(ok, 'the metadata is updated', q, 'returns although the metadata was not updated', f.where, p)
                elif sets:
                    n['failed'] += 1
                    state = True
                    i = max(p.items.index(e) for e in sets)
                    for x in p.items[i + 1:]:
                        if isinstance(x, Event) and x.target == SELF and x.name in ('_c_cache', '_cache'):
                            state = x.kind == 'store' and x.args[0] != NONE
                    ctx.check(not state, 'forgotten when the update fails', q, 'the remote keeps a cache that could not be updated', f.where, p)
                    ctx.check(p.propagated, 'the failure is re-raised', q, f'{p.kind} {show(p.val)}', f.where, p)
    for x in ('set', 'refused', 'bound', 'updated', 'failed'):
        ctx.need('P31', n[x], 1, f'instances of {x}')


@rule('P32')
def p32(ctx):
    """Order and guards of the two steps of an update on every path: which cache is touched, when, and what a conflict does."""
    n = Counter()
    f = ctx.func(RP, 'update_cache')
    q = ctx.short(f)
    CA, SC = P('cache'), A(SELF, 'cache')
    for p in ctx.run(f, recv=RP, raises='try'):
        n['path'] += 1
        foreign = p.holds(('isc', SC, NONE)) is True
        given = p.holds(('isc', CA, NONE)) is False
        ups, moves = p.attempts('_meta_updater'), p.attempts('move')
        if p.can((('isc', CA, NONE), False), (('isc', SC, NONE), False)):
            n['both'] += 1
            ctx.check(p.exc == 'TypeError' and not ups and not moves, 'one cache only', q, f'{p.kind} {show(p.val)}', f.where, p)
            continue
        for e in p.muts() + p.evs('store'):
            ctx.check(False, 'changes go through the cache', f'{q}: {e.name}', f'{e.name} of {show(e.target)}', e.where, p)
        c = CA if given else SC
        name = eqat(A(c, 'name'), A(SELF, 'name'))
        changed = [e.result for e in p.calls('_parent_changed') if list(e.args) == [c]]
        moved = lambda st: any(st.holds(truthy(r)) is True for r in changed)
        stays = lambda st: any(st.holds(truthy(r)) is False for r in changed)
        for e in ups:
            n['update'] += 1
            ctx.check(e.target == c, 'the cache of this object', q, f'{show(e.target)} is updated', e.where, p)
            ctx.check(list(e.args[:1]) == [A(SELF, 'meta')], 'the metadata of this object', q, f'updated with {[show(a) for a in e.args]}', e.where, p)
            ctx.check(e.kw.get('fetch', e.args[1] if len(e.args) > 1 else None) == P('fetch'), 'fetched on request', q, 'fetch is not handed on', e.where, p)
            if not excluded(e.st, (('isc', SC, NONE), True)):
                n['foreign'] += 1
                ctx.check(excluded(e.st, (name, False)), 'foreign caches of another name are refused', q, 'updated although the name may differ', e.where, p)
                ctx.check(stays(e.st), 'foreign caches of another parent are refused', q, 'updated although the parent may differ', e.where, p)
        if foreign and given and p.exc == 'ValueError':
            n['refused'] += 1
            ctx.check(not ups and not moves, 'refused before anything is touched', q, 'touched before it is refused', f.where, p)
        for e in moves:
            n['move'] += 1
            ctx.check(e.target == c and e.kw.get('remote') == SELF, 'moved to where this object is', q, f'{show(e.target)} is moved with {sorted(e.kw)}', e.where, p)
            done = [u for u in ups if not p.failed(u)]
            ctx.check(len(done) == 1 and p.items.index(done[0]) < (p.items.index(e) if e in p.items else len(p.items)), 'updated before it is moved', q, 'moved before its metadata is updated', e.where, p)
            ctx.check(excluded(e.st, (name, True)) or moved(e.st), 'moved only when something changed', q, 'moved although neither name nor parent changed', e.where, p)
        if p.ret and not moves:
            n['stays'] += 1
            ctx.check(excluded(p.st, (name, False)) and stays(p.st), 'moved when something changed', q, 'not moved although the name or the parent may have changed', f.where, p)
        if p.ret:
            ctx.check(len(ups) == 1, 'updated once', q, f'updated {len(ups)} times', f.where, p)
            ctx.check(bool(ups) and p.val == ups[0].result, 'reports whether the file differs', q, f'returns {show(p.val)}', f.where, p)
        for e in moves:
            if not p.failed(e):
                continue
            conflict = any(a[0] == 'excis' and 'WhyDidntThisGetMovedBeforeError' in a[2] and v for a, v in p.facts())
            hooks = p.attempts('_on_cache_move_error')
            if conflict:
                n['conflict'] += 1
                ctx.check(len(hooks) == 1 and len(hooks[0].args) > 1 and hooks[0].args[1] == c, 'conflicts reach the hook', q, 'the conflict is dropped', e.where, p)
            else:
                ctx.check(p.rai and p.propagated or bool(hooks), 'other failures are re-raised', q, f'{p.kind} {show(p.val)}', e.where, p)
    f = ctx.func(RP, '_on_cache_move_error')
    for p in ctx.run(f, recv=RP, raises='none'):
        n['hook'] += 1
        ctx.check(p.rai and p.val == P('error'), 'the default hook raises the conflict', ctx.short(f), f'{p.kind} {show(p.val)}', f.where, p)
    for x in ('path', 'both', 'update', 'foreign', 'refused', 'move', 'stays', 'conflict', 'hook'):
        ctx.need('P32', n[x], 1, f'instances of {x}')
