"""What else objects keep: the dates and ids of metadata, its pickled forms, the parts of a remote, and what is bound to a remote."""
import ast
from ctx import *
from interp import State
from model import Func
from rules_meta import PM, fields_of_object
from rules_remotes import stores

RP = 'remotes.RemotePath'


def named(t):
    """Names given to a call by unpacking a mapping, as the comprehension that made it."""
    return [x for x in subterms(t) if x[0] == 'comp' and x[1] == 'dict']


@rule('P16')
def p16_dates(ctx):
    """What the getters of the dates answer for every state the constructor leaves an object in (constructor paths grouped by what they store, getters run on each)."""
    n = Counter()
    f = ctx.func(PM, '__init__')
    ps = [p for p in ctx.run(f, recv=PM, raises='none')]
    names = {e.name for p in ps for e in p.evs('store')}
    FID, ID = P('file_id'), P('id')
    bad = ((truthy(FID), False), (('isc', FID, NONE), False), (eqat(FID, C(0)), False))
    q = ctx.short(f)
    for p in ps:
        if p.ret:
            n['made'] += 1
            ctx.check(not p.can(*bad), 'an empty file id is refused', q, 'may be empty without being nothing or zero', f.where, p)
        elif all(p.holds(a) is v for a, v in bad):
            n['refused'] += 1
            ctx.check(p.exc == 'TypeError', 'an empty file id is refused', q, f'{p.kind} {show(p.val)}', f.where, p)
        else:
            ok = any(a[0] == 'isinst' and a[1] == ID and v is False for a, v in p.facts()) and p.holds(('isc', ID, NONE)) is not True
            n['refused'] += 1
            ctx.check(ok and p.exc == 'TypeError', 'only ids that are not texts are refused', q, f'{p.kind} {show(p.val)}', f.where, p)
    for d in ('created', 'updated'):
        given = P(d)
        seen = {}
        for p in ps:
            if not p.ret:
                continue
            kept = tuple((e.name, e.args[0]) for e in p.evs('store') if e.target == SELF and (d in e.name or mentions(e.args[0], given)))
            kinds = {a[2]: v for a, v in p.facts() if a[0] == 'isinst' and a[1] == given}
            kinds = {y: v for x, v in kinds.items() for y in (x[1] if x[0] == 'tup' else (x,))}
            none = p.holds(('isc', given, NONE))
            if none is True or True in kinds.values():
                text = False
            elif none is False and len([k for k, v in kinds.items() if v is False and k[1] in ('int', 'datetime.datetime', 'datetime')]) >= 2:
                text = True
            elif none is False and any(k == ('bi', 'str') and v is True for k, v in kinds.items()):
                text = True
            else:
                text = None
            seen.setdefault((kept, text), p)
        g = ctx.func(PM, d)
        for (kept, text), p in seen.items():
            st = State()
            st.heap = {(SELF, k): v for k, v in kept}
            have = {k for k, v in kept}
            st.heap.update({(SELF, x): ('deleted',) for x in names - have if d in x})
            ctx.check(text is not None, 'a date is what was given', f'{q}: {d}', 'is kept without a look at what it is', f.where, p)
            for g_p in ctx.run(g, recv=PM, raises='none', init=st):
                n[d] += 1
                v = g_p.val
                if text:
                    ok = g_p.ret and v[0] == 'call' and (v[1] if isinstance(v[1], str) else v[1][-1]).split('.')[-1] in ('parse', 'isoparse', 'fromisoformat') and v[2] == (given,)
                    ctx.check(ok, 'a date given as text is parsed when it is asked for', ctx.short(g), f'{g_p.kind}s {show(v)[:80]}', g.where, g_p)
                    n['text'] += 1
                else:
                    ctx.check(g_p.ret and v == given, 'a date is what was given', ctx.short(g), f'{g_p.kind}s {show(v)[:80]}', g.where, g_p)
                    n['kept'] += 1
    for k in ('made', 'refused', 'created', 'updated', 'text', 'kept'):
        ctx.need('P16', n[k], 1, k)


@rule('P16')
def p16_pickled(ctx):
    """What an object is reduced to and what its blob is made from and read as: a callable, a tuple of arguments by position, and the fields by name."""
    n = Counter()
    F = fields_of_object(ctx)
    c = ctx.prog.cls(PM)
    if '__reduce__' in c.attrs or '__reduce_ex__' in c.attrs:
        f = ctx.func(PM, '__reduce__' if '__reduce__' in c.attrs else '__reduce_ex__')
        q = ctx.short(f)
        for p in ctx.run(f, recv=PM, raises='none'):
            if not p.ret:
                ctx.check(False, 'metadata can be pickled', q, f'raises {show(p.val)[:80]}', f.where, p)
                continue
            n['reduced'] += 1
            v = p.val
            args = v[1][1] if v[0] == 'tup' and len(v[1]) >= 2 else None
            empty = args is not None and (args == ('tup', ()) or args[0] == 'call' and args[1] == 'tuple' and not args[2])
            fields = args is not None and args[0] in ('tup', 'call', 'list') and not empty
            ctx.check(args is not None and args[0] == 'tup' or empty or args is not None and args[0] == 'call' and args[1] == 'tuple', 'metadata can be pickled',
                      q, f'the arguments are {show(args)[:80] if args else show(v)[:80]}', f.where, p)
            if args is None:
                continue
            made = v[1][0]
            whole = list(v[1][2:]) + [made]
            if empty:
                direct = [x for x in subterms(('tup', tuple(whole))) if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][1] == SELF and x[1][2] == 'items']
                state = A(SELF, '__dict__') in whole[:-1] or any(x[0] == 'call' and mentions(x, A(SELF, '__dict__')) for x in whole[:-1])
                ctx.check(bool(direct) or state, 'metadata comes back equal', q, f'its fields are not in {show(made)[:80]}', f.where, p)
                for x in named(made):
                    conds = x[4]
                    for k in conds:
                        a = k[1] if k[0] == 'not' else k
                        a = a[1] if a[0] == 'b' else a
                        ok = k[0] == 'not' and a[0] in ('isc', 'eq', 'is') and NONE in a[1:3] and any(y[0] == 'item' and y[2] == C(1) for y in a[1:3])
                        ctx.check(ok, 'metadata comes back equal', q, f'fields are left out when {show(k)[:80]}', f.where, p)
                    kv = x[2]
                    el = ('elem', x[3], 'c')
                    ctx.check(kv == ('kv', ('item', el, C(0)), ('item', el, C(1))), 'metadata comes back equal', q, f'fields are {show(kv)[:80]}', f.where, p)
            elif fields and args[0] == 'tup':
                # by position or as one mapping for a function of this package
                own = made == ('classof', SELF) or made[0] == 'class'
                ok = not own or [x for x in args[1]] == [A(SELF, x) for x in F][:len(args[1])]
                ctx.check(ok, 'metadata comes back equal', q, f'is made from {show(args)[:80]} by position', f.where, p)
    else:
        n['reduced'] += 1
    PRE = P('prefix')
    f = ctx.func(PM, 'as_metastore')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PM, raises='none'):
        if not p.ret:
            continue
        n['stored'] += 1
        v = p.val
        got = v[0] == 'call' and 'dumps' in show(v) and v[2] and v[2][0]
        ok = got and got[0] == 'call' and got[1] == ('m', SELF, 'as_xattrs') and (got[2] == (PRE,) or kwarg(got, 'prefix') == PRE)
        ctx.check(ok, 'a blob holds the fields with the prefix', q, f'is {show(v)[:80]}', f.where, p)
    f = ctx.func(PM, 'from_metastore')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PM, raises='none'):
        if not p.ret:
            continue
        n['loaded'] += 1
        v = p.val
        ok = v[0] == 'call' and isinstance(v[1], tuple) and v[1][2:] == ('from_xattrs',) and v[1][1][0] == 'class'
        src = v[2][0] if ok and v[2] else None
        ok = ok and src[0] == 'call' and 'loads' in show(src) and src[2][:1] == (P('blob'),)
        ok = ok and (v[2][1:2] == (PRE,) or kwarg(v, 'prefix') == PRE)
        ctx.check(ok, 'a blob is read with the prefix', q, f'is {show(v)[:80]}', f.where, p)
    for k in ('reduced', 'stored', 'loaded'):
        ctx.need('P16', n[k], 1, k)


@rule('P31')
def p31_both(ctx):
    """Which of the two directions are stored on every way out of the binding, and that the update happens exactly when it is wished for."""
    n = Counter()
    f = ctx.func(RP, '_cache_setter')
    q = ctx.short(f)
    CA, W = P('cache'), P('update_meta')
    for p in ctx.run(f, recv=RP, raises='none'):
        if not p.ret:
            continue
        back = [e for e in stores(p, '_remote')]
        ctx.check(len(back) >= 1 and back[-1].target == CA and back[-1].args[0] == SELF, 'the cache knows its remote', q,
                  f'stores {[show(e.args[0])[:40] for e in back]}', f.where, p)
        n['bound'] += 1
        wish = p.holds(truthy(W))
        ups = p.calls('_meta_updater')
        if wish is False:
            n['without'] += 1
            ctx.check(not ups, 'only updated when it is asked for', q, 'is updated although it was asked not to', f.where, p)
        elif wish is True:
            n['with'] += 1
            if ups:
                there = [e for e in p.evs('store') if e.name in ('_cache', '_c_cache')]
                order = there and p.items.index(there[0]) < p.items.index(ups[0]) and back and p.items.index(back[0]) < p.items.index(ups[0])
                ctx.check(bool(order), 'bound before the update', q, 'the update sees a cache that is not bound', ups[0].where, p)
        else:
            ctx.check(not ups, 'only updated when it is asked for', q, 'is updated without a look at the wish', f.where, p)
    for k in ('bound', 'with', 'without'):
        ctx.need('P31', n[k], 1, k)


@rule('P58')
def p58_kept(ctx):
    """What the property answers on every path and where it comes from."""
    n = Counter()
    f = ctx.func(RP, 'parts')
    q = ctx.short(f)
    ROOT = A(SELF, 'anchor')
    for p in ctx.run(f, recv=RP, raises='none'):
        if not p.ret:
            ctx.check(False, 'a remote has parts', q, f'raises {show(p.val)[:80]}', f.where, p)
            continue
        v = p.val
        looked = p.calls('_parts_relative_to')
        kept = stores(p, '_parts')
        if v == A(SELF, '_parts'):
            n['kept'] += 1
            continue
        if looked:
            n['looked'] += 1
            got = looked[-1].result
            ctx.check(v == got or v[0] == 'call' and v[1] == 'tuple' and v[2] == (got,), 'the parts are the names found', q, f'answers {show(v)[:80]}', f.where, p)
            for e in kept:
                ctx.check(e.target == SELF and e.args[0] == v and v[0] == 'call' and v[1] == 'tuple', 'the parts are the names found', q, f'keeps {show(e.args[0])[:80]}', e.where, p)
            above = looked[-1].arg(1, 'cache_parent')
            CA = A(SELF, 'cache')
            with_cache = p.holds(truthy(CA)) is True or p.holds(('isc', CA, NONE)) is False
            ok = above in (None, NONE) or above == A(CA, 'parent') and with_cache
            ctx.check(ok, 'the folder of the cache is handed on only when there is one', q, f'hands on {above and show(above)[:80]}', f.where, p)
        else:
            n['root'] += 1
            root = next((x for a, x in p.facts() if a[0] == 'eq' and (set(a[1:3]) == {SELF, ROOT} or set(a[1:3]) == {A(SELF, 'id'), A(ROOT, 'id')})), None)
            ctx.check(root is True, 'only the anchor has no parts', q, f'answers {show(v)[:80]} for another remote', f.where, p)
    for k in ('kept', 'looked', 'root'):
        ctx.need('P58', n[k], 1, k)


TEXTUAL = {'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'removeprefix', 'removesuffix', 'replace', 'replace_str', 'join', 'find', 'index', 'count'}
V = P('value')


def form(t, src):
    """'bytes', 'text' or None for what is not known, of a term made from bytes that were stored"""
    if t == src:
        return 'bytes'
    if t[0] == 'c':
        return {'bytes': 'bytes', 'str': 'text'}.get(t[1])
    if t[0] == 'fstr':
        return 'text'
    if t[0] == 'strof' or t[0] == 'call' and t[1] in ('str', 'repr'):
        return 'text'
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm':
        if t[1][2] == 'decode':
            return 'text'
        if t[1][2] == 'encode':
            return 'bytes'
        if t[1][2] == 'hex':
            return 'text'
        if t[1][2] == 'fromhex':
            return 'bytes'
        if t[1][2] in TEXTUAL - {'startswith', 'endswith', 'find', 'index', 'count'}:
            return form(t[1][1], src)
        return None
    if t[0] in ('slice',) or t[0] == 'item' and form(t[1], src) and t[1][0] == 'call':
        return form(t[1], src)
    if t[0] == 'elem':
        return form(t[1], src)
    return None


@rule('P13')
def p13_bytes(ctx):
    """Flow of bytes and text through the reader of extended attributes: each operation gets the kind it works on, and every answer is a value."""
    from rules_meta import XAT, values, folds
    n = Counter()
    vals = values(ctx, XAT)
    f = ctx.func(XAT, 'decode')
    q = ctx.short(f)
    for field in tuple(fields_of_object(ctx)) + ('other',):
        for p in ctx.run((XAT, 'decode'), args={'field': C(field)}, raises='try', folds=folds(vals)):
            calls = {e.result: e for e in p.calls()}
            for e in p.calls():
                t = e.result
                if not (t and t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm'):
                    continue
                kind, name = form(t[1][1], V), t[1][2]
                if name == 'decode' and t[1][1] != SELF:
                    n['decoded'] += 1
                    ctx.check(kind != 'text', 'bytes are decoded once', f'{q}: {field}', f'text {show(t[1][1])[:60]} is decoded', e.where, p)
                elif name in TEXTUAL and kind:
                    n['operations'] += 1
                    for a in t[2]:
                        k = form(a, V)
                        ctx.check(k in (None, kind), 'bytes are decoded before they are read as text', f'{q}: {field}', f'{name} of {kind} {show(t[1][1])[:60]} at {show(a)[:40]}', e.where, p)
                elif name == 'fromhex':
                    n['operations'] += 1
                    for a in t[2]:
                        ctx.check(form(a, V) != 'bytes', 'bytes are decoded before they are read as text', f'{q}: {field}', f'fromhex of bytes {show(a)[:60]}', e.where, p)
            if not p.ret:
                continue
            n['answers'] += 1
            ctx.check(p.val != NONE, 'a value is never read as none', f'{q}: {field}', 'answers nothing for a value', f.where, p)
            for x in subterms(p.val):
                if x[0] == 'call' and isinstance(x[1], str) and x[1].endswith('unpack'):
                    n['legacy'] += 1
                    v = p.val
                    ok = v[0] == 'call' and show(v).find('fromtimestamp') >= 0 and v[2][:1] == (('item', x, C(0)),)
                    ctx.check(ok, 'times stored as numbers', f'{q}: {field}', f'answers {show(v)[:80]}', f.where, p)
            if field == 'other':
                n['unknown'] += 1
                ctx.check(p.val == V, 'fields that are not known are left as they are', q, f'answers {show(p.val)[:60]}', f.where, p)
    for k in ('decoded', 'operations', 'answers', 'unknown'):
        ctx.need('P13', n[k], 1, k)


@rule('P13')
def p13_own(ctx):
    """Where the value of each field comes from when the path decodes some of its fields itself, and what is known of its answer when the usual way is taken."""
    from rules_meta import XAT
    n = Counter()
    f = ctx.func(XAT, 'from_xattrs')
    q = ctx.short(f)
    PO = P('path_object')
    own = A(PO, 'decode_value')
    for p in ctx.run(f, recv=XAT, raises='none', opaque=('meta._PathMetaAsXattrs.decode', 'meta._PathMetaAsXattrs.deprefix')):
        if not p.ret:
            continue
        theirs = [e for e in p.calls() if e.result and e.result[0] == 'call' and e.result[1] == ('m', PO, 'decode_value')]
        kept = ('tup', (p.val,) + tuple(y for e in p.evs('setitem') for y in e.args))
        ours = [x for x in subterms(kept) if x[0] == 'call' and x[1] == ('m', SELF, 'decode')]
        usable = p.holds(('isc', own, NONE)) is False and p.holds(truthy(PO)) is not False
        none = p.holds(('isc', own, NONE)) is True or p.holds(truthy(PO)) is False or p.holds(('isc', PO, NONE)) is True or p.holds(('hasattr', PO, 'decode_value')) is False
        if theirs:
            n['own'] += 1
            told_not = all(p.holds(('isc', e.result, NONE)) is True for e in theirs)
            got = [x for x in subterms(kept) if x in {e.result for e in theirs}]
            ctx.check(bool(got) or told_not, 'a path may decode its own fields', q, 'what the path decodes is not used', f.where, p)
            # asked in turn: answered by the path, or nothing to decode
            told = all(p.holds(('isc', e.result, NONE)) is False or any(p.holds(('isc', x, NONE)) is True for x in e.args[1:]) for e in theirs)
            ctx.check(bool(ours) or told, 'what the path does not decode is decoded as usual', q, 'fields it does not decode are lost', f.where, p)
            ctx.check(not none, 'a path may decode its own fields', q, 'there is nothing to decode with', f.where, p)
            ctx.check(all(any(x[2] == tuple(e.args) for e in theirs) for x in ours), 'what the path does not decode is decoded as usual', q, f'with {[show(y)[:40] for x in ours for y in x[2]]}', f.where, p)
        elif ours or none:
            n['usual'] += 1
            ctx.check(none or not usable, 'a path may decode its own fields', q, 'is not asked', f.where, p)
    for k in ('own', 'usual'):
        ctx.need('P13', n[k], 1, k)
    nested = [Func(f'{g.qual}.{x.name}', x, g.module, outer=g) for g in ctx.spread(f) for x in ast.walk(g.node)
              if isinstance(x, ast.FunctionDef) and x is not g.node and 'value' in [a.arg for a in x.args.args]]
    for g in nested:
        for p in ctx.run(g, raises='none'):
            if not p.ret:
                continue
            usual = [e for e in p.calls('decode')]
            other = [e for e in p.calls() if e not in usual]
            if not other:
                continue
            r = other[0].result
            n['nested'] += 1
            if p.val == r:
                missing = p.holds(('isc', r, NONE)) is True or p.holds(('isc', r, NONE)) is None
                ctx.check(not missing or p.holds(('isc', V, NONE)) is True, 'what the path does not decode is decoded as usual', ctx.short(g), 'may answer nothing', f.where, p)
            else:
                ctx.check(p.holds(('isc', r, NONE)) is True, 'a path may decode its own fields', ctx.short(g), f'what it decodes is replaced by {show(p.val)[:60]}', f.where, p)
