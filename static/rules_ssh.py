"""An ssh remote and the host it is on: what is asked, of whom, and whose answer is returned."""
import ast
from ctx import *
from rules_remotes import SSHR, klass, stores, pieces, commands
from rules_extra import yields

RPATH = A(SELF, 'rpath')
TOOLS = {'hashlib.sha256': 'sha256sum', 'hashlib.blake2b': 'b2sum', 'hashlib.sha512': 'sha512sum', 'hashlib.sha1': 'sha1sum',
         'hashlib.md5': 'md5sum', 'hashlib.sha224': 'sha224sum', 'hashlib.sha384': 'sha384sum'}


def words_of(t, st):
    """the pieces of a command with neighbouring texts joined and empty ones left out"""
    out = []
    for kind, x in pieces(t, st):
        if kind == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + x)
        elif (kind, x) != ('text', ''):
            out.append((kind, x))
    return out


def asked(p):
    """(command, event) of every command sent through the session"""
    return [(e.args[0], e) for e in p.calls('_ssh') if e.args]


def tool(ctx, p, f, q, x, n):
    """the program that makes the digest is the one of the cypher that was asked for"""
    CY = P('cypher')
    given = p.holds(('isc', CY, NONE))
    CLS = A(SELF, '_cache_class', 'cypher')
    key = None
    if x == A(SELF, 'cypher_command'):
        key = CLS
    elif x[0] == 'item':
        key = x[2]
    elif x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][2] in ('get', '__getitem__') and x[2]:
        key = x[2][0]
    if key == CY:
        ctx.check(given is not True, 'the cypher asked for', q, 'looks for the program of a cypher when none was named', f.where, p)
        n['asked'] += 1
    else:
        ctx.check(key == CLS and given is True, 'the cypher asked for', q, f'made by {show(x)[:80]} although {"none" if given else "a cypher"} was named', f.where, p)
        n['class'] += 1


def table_of(ctx, t, q, where, n):
    """the table of programs names the program of each cypher"""
    for s in subterms(t):
        if s[0] == 'dict':
            for k, v in s[1]:
                n['program'] += 1
                want = TOOLS.get(k[1]) if k[0] == 'ext' else None
                ctx.check(want is None or v == C(want), 'the program of the cypher', f'{q}: {show(k)}', f'is {show(v)}', where)


@rule('P75')
def p75_remote(ctx):
    """The program, the file and the answer of every checksum of a remote file on every path."""
    n = Counter()
    f = ctx.func(SSHR, 'checksum')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if not p.ret:
            continue
        cmds = asked(p)
        if not ctx.check(len(cmds) == 1, 'one answer', q, f'{len(cmds)} commands for one checksum', f.where, p):
            continue
        c, e = cmds[0]
        ctx.check(mentions(p.val, e.result), 'the answer is returned', q, f'returns {show(p.val)[:100]}', f.where, p)
        ws = words_of(c, e.st)
        at = [i for i, w in enumerate(ws) if w[0] == 'quoted']
        if not ctx.check(len(at) == 1 and same(ws[at[0]][1][2][0], RPATH), 'its own file', q, f'reads {[show(ws[i][1]) for i in at]}', e.where, p):
            continue
        before = ws[at[0] - 1]
        # a name on the command line is printed, after a backslash when it has one
        ctx.check(before[0] == 'text' and before[1].rstrip().endswith('<') or ws[0][0] == 'text' and ws[0][1].startswith('cat '), 'whatever it is called', q,
                  'the name is an argument of a program that prints it', e.where, p)
        progs = [w[1] for w in ws if w[0] == 'other']
        if ctx.check(len(progs) == 1, 'the cypher asked for', q, f'made by {[show(x)[:60] for x in progs]}', e.where, p):
            tool(ctx, p, f, q, progs[0], n)
            table_of(ctx, progs[0], q, e.where, n)
        for w in ws:
            if w[0] == 'text' and 'print' in w[1]:
                ctx.check('print $1' in w[1], 'the answer is returned', q, f'takes {w[1].strip()}', e.where, p)
    f = ctx.func(SSHR, 'cypher_command')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if p.ret:
            n['command'] += 1
            ctx.check(mentions(p.val, A(SELF, '_cache_class', 'cypher')), 'the cypher of the class', q, f'returns {show(p.val)[:100]}', f.where, p)
            table_of(ctx, p.val, q, f.where, n)
    for x in ('asked', 'class', 'program', 'command'):
        ctx.need('P75', n[x], 1, f'remote checksums: {x}')


@rule('P77')
def p77(ctx):
    """The text of every command of an ssh remote on every path: which file it names, on which host, and whether its answer is the value; the arguments,
    stores and order of what a session is made of."""
    n = Counter()
    k = klass(ctx, SSHR)
    # what is asked about
    f = ctx.func(SSHR, '_stat_cmd')
    q = ctx.short(f)
    PATH, FMT = P('path'), P('stat_format')
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if not p.ret:
            continue
        ws = words_of(p.val, p.st)
        if not ctx.check(bool(ws) and ws[0][0] == 'text', 'the program', q, f'runs {show(p.val)[:80]}', f.where, p):
            continue
        first = ws[0][1].split()[0]
        darwin = [v for a, v in p.facts() if contains(a, C('darwin'))]
        if ctx.check(bool(darwin), 'the program', q, 'the kind of the host is not looked at', f.where, p):
            ctx.check(all(w.lstrip('-') in ('c', 'format', 'format=') for w in ws[0][1].split()[1:]), 'the program', q, f'runs {ws[0][1]}', f.where, p)
            ctx.check(first == ('gstat' if any(darwin) else 'stat'), 'the program', q, f'{first} {"on" if any(darwin) else "not on"} darwin', f.where, p)
            n[first] += 1
        fm = [i for i, w in enumerate(ws) if w[0] != 'text' and mentions(w[1], FMT)]
        if ctx.check(len(fm) == 1, 'the format', q, 'the format is not handed on', f.where, p):
            opt = ws[fm[0] - 1]
            ctx.check(opt[0] == 'text' and opt[1].split()[-1:] in (['-c'], ['--format='], ['--format']), 'the format', q, f'given as {opt[1]}', f.where, p)
        none = p.holds(('isc', PATH, NONE))
        named = [w[1] for w in ws if w[0] == 'quoted' and not mentions(w[1], FMT)]
        if none is True:
            if p.holds(eqat(RPATH, C(''))) is not True and p.holds(truthy(RPATH)) is not False:
                n['own'] += 1
                ctx.check(len(named) == 1 and same(named[0][2][0], RPATH), 'its own file', q, f'asks about {[show(x) for x in named] or "nothing"}', f.where, p)
        elif p.holds(eqat(PATH, C(''))) is not True and p.holds(truthy(PATH)) is not False:
            n['given'] += 1
            ctx.check(len(named) == 1 and same(named[0][2][0], PATH), 'the file that was given', q, f'asks about {[show(x) for x in named] or "nothing"}', f.where, p)
    for attr in ('stat', 'is_dir', 'is_file'):
        f = ctx.func(SSHR, attr)
        q = ctx.short(f)
        for p in ctx.run(f, recv=SSHR, raises='none'):
            if not p.ret:
                continue
            made = p.calls('_stat_cmd')
            cmds = asked(p)
            if attr != 'stat' and p.calls('stat'):  # decided by its own stat
                n[attr] += 1
                ctx.check(all(same(e.target, SELF) for e in p.calls('stat')) and any(mentions(p.val, e.result) for e in p.calls('stat')), 'the answer is returned', q,
                          f'returns {show(p.val)[:100]}', f.where, p)
                continue
            if not ctx.check(len(cmds) >= 1 and len(made) >= 1, 'the host is asked', q, 'answers without asking', f.where, p):
                continue
            n[attr] += 1
            for e in made:
                ctx.check(same(e.target, SELF) and e.arg(1, 'path') in (None, NONE, RPATH), 'its own file', q, f'asks about {show(e.target)} {e.arg(1, "path") and show(e.arg(1, "path"))}', e.where, p)
            ctx.check(all(any(mentions(c, e.result) for e in made) for c, _ in cmds), 'the host is asked', q, f'sends {[show(c)[:60] for c, _ in cmds]}', f.where, p)
            v = p.val
            took = any(mentions(v, e.result) or any(mentions(a, e.result) for a, _ in p.facts()) for _, e in cmds)
            ctx.check(took, 'the answer is returned', q, f'returns {show(v)[:100]}', f.where, p)
    # data
    f = ctx.func(SSHR, 'data')
    q = ctx.short(f)
    HOST = A(SELF, 'host')
    for p in ctx.run(f, recv=SSHR, raises='none'):
        for words, e in commands(p):
            if (e.name or '').rpartition('.')[2] == '_ssh':
                continue
            n['data'] += 1
            plain = [w for w in words if not (is_const(w) and str(w[2]).startswith('-'))]
            if not ctx.check(len(plain) == 2, 'the host is asked', q, f'runs {[show(w)[:40] for w in words]}', e.where, p):
                continue
            ctx.check(same(plain[0], HOST) or plain[0] == A(('classof', SELF), 'host'), 'its own host', q, f'asks {show(plain[0])}', e.where, p)
            ws = words_of(plain[1], e.st)
            ok = len(ws) == 2 and ws[0][0] == 'text' and ws[0][1].split() in (['cat'], ['cat', '--'], ['cat', '<'], ['exec', 'cat'], ['exec', 'cat', '--']) and ws[1][0] == 'quoted' and same(ws[1][1][2][0], RPATH)
            ctx.check(ok, 'its own file', q, f'runs {show(plain[1])[:80]}', e.where, p)
            if (e.name or '').endswith('Popen'):
                ctx.check(e.arg(99, 'stdout') is not None and 'PIPE' in repr(e.arg(99, 'stdout')), 'the data is read', q, f'stdout is {e.arg(99, "stdout")}', e.where, p)
                ctx.check('PIPE' not in repr(e.arg(99, 'stderr')), 'the data is read', q, 'nobody reads what fails', e.where, p)
                for r in p.calls('read', 'read1'):
                    ctx.check(mentions(r.target, e.result) and 'stdout' in repr(r.target), 'the data is read', q, f'reads {show(r.target)[-60:]}', r.where, p)
    # the id
    f = ctx.func(SSHR, 'id')
    q = ctx.short(f)
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if p.ret:
            n['id'] += 1
            ws = words_of(p.val, p.st)
            ctx.check(len(ws) == 3 and ws[0] == ('other', HOST) and ws[1] == ('text', ':') and ws[2][0] == 'other' and same(ws[2][1], RPATH), 'host and path', q, f'is {show(p.val)}', f.where, p)
    # the session
    f = ctx.func(SSHR, '_ssh')
    q = ctx.short(f)
    SESSION = A(k, 'session')
    for p in ctx.run(f, recv=SSHR, raises='none'):
        for e in p.calls('sendline', 'send', 'prompt'):
            n['sent'] += 1
            ctx.check(same(e.target, SESSION), 'its own host', q, f'{e.name} of {show(e.target)}', e.where, p)
    # every class of ssh remotes has its own session
    for g in ctx.functions_of('remotes'):
        for x in ast.walk(g.node):
            if isinstance(x, ast.Attribute) and x.attr in ('session', 'host', '_uid', '_gids', '_anchor', '_cols') and isinstance(x.value, ast.Name):
                n['state'] += 1
                ctx.check(x.value.id not in ('SshRemote', 'RemotePath'), 'its own host', ctx.short(g), f'uses {x.value.id}.{x.attr}, which is not that of the class at hand', f'{g.module.rel if hasattr(g.module, "rel") else f.where.partition(":")[0]}:{x.lineno}')
    f = ctx.func(SSHR, 'init')
    q = ctx.short(f)
    ID = P('host_path')

    def part(t):
        """0 for the host in the id, 1 for the path, None for anything else"""
        if t is None:
            return None
        if t[0] == 'item' and t[1][0] == 'call' and isinstance(t[1][1], tuple) and t[1][1][1] == ID and t[1][1][2] in ('split', 'partition', 'rsplit', 'rpartition') and is_const(t[2]):
            c, i = t[1], t[2][2]
            if c[2][:1] != (C(':'),) or c[1][2].startswith('r'):
                return None
            if c[1][2] == 'partition':
                return {0: 0, 2: 1, -1: 1}.get(i)
            if i == 0:
                return 0
            return 1 if i in (1, -1) and (c[2][1:] == (C(1),) or kwarg(c, 'maxsplit') == C(1)) else None
        return None

    for p in ctx.run(f, recv=SSHR, raises='none'):
        if not p.ret:
            continue
        n['init'] += 1
        where = f.where
        ins = p.calls('login')
        if not ctx.check(len(ins) == 1, 'one session', q, f'{len(ins)} logins', where, p):
            continue
        sess = ins[0].target
        ctx.check(part(ins[0].arg(0, 'server')) == 0, 'the host of the id', q, f'logs in to {show(ins[0].arg(0, "server"))}', ins[0].where, p)
        cfg = ins[0].arg(99, 'ssh_config')
        ctx.check(cfg is not None and '.ssh/config' in repr(cfg), 'the configuration of the user', q, 'logs in without it', ins[0].where, p)
        for attr, ok, what in (('host', lambda v: part(v) == 0, 'the host of the id'), ('session', lambda v: same(v, sess), 'one session'), ('root', lambda v: same(v, ID), 'the root is the id')):
            es = stores(p, attr)
            if ctx.check(bool(es), what, f'{q}: {attr}', 'is not set', where, p):
                ctx.check(ok(es[-1].args[0]), what, f'{q}: {attr}', f'is {show(es[-1].args[0])[:100]}', es[-1].where, p)
        es = stores(p, '_anchor')
        if ctx.check(bool(es), 'the path of the id', f'{q}: _anchor', 'is not set', where, p):
            ok = any(part(s) == 1 for s in subterms(es[-1].args[0]))
            ctx.check(ok and not any(part(s) == 0 for s in subterms(es[-1].args[0])), 'the path of the id', f'{q}: _anchor', f'is {show(es[-1].args[0])[:100]}', es[-1].where, p)
        # who the user is
        cmds = asked(p)
        who = [(c, e) for c, e in cmds if is_const(c) and 'id -u' in c[2]]
        grp = [(c, e) for c, e in cmds if is_const(c) and 'id -G' in c[2]]
        us, gs = stores(p, '_uid'), stores(p, '_gids')
        if ctx.check(bool(who) and bool(grp) and bool(us) and bool(gs), 'users of the host', q, 'the host is not asked who the user is', where, p):
            u, g = us[-1].args[0], gs[-1].args[0]
            ctx.check(mentions(u, who[0][1].result), 'users of the host', f'{q}: _uid', f'is {show(u)[:100]}', us[-1].where, p)
            ctx.check(mentions(g, grp[0][1].result), 'users of the host', f'{q}: _gids', f'are {show(g)[:100]}', gs[-1].where, p)
            if who[0][1] is grp[0][1]:
                c = who[0][0][2]
                lead = c.index('id -u') < c.index('id -G')
                ctx.check(lead, 'users of the host', q, 'the groups come before the user', who[0][1].where, p)
                ctx.check(u[0] == 'item' and u[2] == C(0) or not (u[0] in ('item', 'slice')), 'users of the host', f'{q}: _uid', f'is {show(u)[:100]}', us[-1].where, p)
                if g[0] == 'slice':
                    ctx.check(g[2] == C(1), 'users of the host', f'{q}: _gids', 'are not all that follow', gs[-1].where, p)
            i = p.items.index
            ctx.check(all(i(e) > i(stores(p, 'session')[0]) for _, e in cmds) if stores(p, 'session') else False, 'one session', q, 'asks before there is a session', where, p)
        # and it ends with the program
        regs = p.calls('register')
        ctx.check(any('atexit' in (e.name or '') for e in p.evs('call') if (e.name or '').endswith('register')) or bool(regs), 'the session is closed', q, 'stays open', where, p)
    # a remote made from an id of this host is that of the path in the id
    f = ctx.func(SSHR, '__new__')
    q = ctx.short(f)
    ARG = ('item', P('args'), C(0))
    for p in ctx.run(f, recv=SSHR, raises='none'):
        if not p.ret:
            continue
        pre = [(e, p.holds(truthy(e.result))) for e in p.calls('startswith') if same(e.target, ARG)]
        made = [e for e in p.calls('__new__')]
        if not made:
            continue
        n['new'] += 1
        plat = stores(p, 'remote_platform')
        ctx.check(bool(plat) and any(s[0] == 'attr' and s[2] == '_remote_platform' for s in subterms(plat[-1].args[0])), 'the kind of the host', q, 'is not asked', f.where, p)
        for s in {s for e in made for a in e.args for s in subterms(a)}:
            if s[0] == 'call' and isinstance(s[1], tuple) and s[1][0] == 'm' and s[1][1] == ARG and s[1][2] in ('split', 'rsplit', 'rpartition'):
                ctx.check(s[1][2] == 'split' and (s[2][1:] == (C(1),) or kwarg(s, 'maxsplit') == C(1)), 'the path of the id', q, f'cut as {show(s)}', f.where, p)
        cut = any(s[0] == 'call' and isinstance(s[1], tuple) and s[1][0] == 'm' and s[1][1] == ARG and s[1][2] in ('split', 'rsplit', 'partition', 'rpartition', 'removeprefix') or s[0] == 'slice' and s[1] == ARG
                  for e in made for a in e.args for s in subterms(a))
        own = any(v is True for _, v in pre)
        for e, _ in pre:
            w = words_of(e.args[0], e.st)
            host = [x for kind, x in w if kind == 'other']
            ctx.check(len(host) == 1 and host[0][0] == 'attr' and host[0][2] == 'host' and w[-1] == ('text', ':'), 'the path of the id', q, f'cut from {show(e.args[0])}', e.where, p)
        text = p.holds(('isinst', ARG, ('bi', 'str')))
        if text is not False:
            ctx.check(bool(pre), 'the path of the id', q, 'not looked at whether the id has the host', f.where, p)
        ctx.check(cut is own, 'the path of the id', q, 'an id with its host is not cut' if own else 'cut although there is no host', f.where, p)
    for x in ('gstat', 'stat', 'own', 'given', 'is_dir', 'is_file', 'data', 'id', 'sent', 'state', 'init', 'new'):
        ctx.need('P77', n[x], 1, f'instances of {x}')
