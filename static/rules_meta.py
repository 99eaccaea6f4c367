"""Rules about metadata objects and their storage formats (meta.py)."""
from ctx import *
import classbody

SYM, XAT, PM = 'meta._PathMetaAsSymlink', 'meta._PathMetaAsXattrs', 'meta.PathMeta'
V = P('value')
KIND = {'name': ('str',), 'checksum_cypher': ('str',), 'parent_id': ('str',), 'id': ('str',), 'old_id': ('str',), 'mode': ('str',),
        'user_id': ('int', 'str'), 'size': ('int',), 'chunksize': ('int',), 'multi': ('int',), 'file_id': ('int',), 'gid': ('int',),
        'checksum': ('bytes',), 'created': ('date',), 'updated': ('date',), 'etag': ('etag',), 'errors': ('errors',)}
ENCODERS = ('_EncodeByField.*', '_EncodeByFieldBytes.*', 'meta.isoformat')
CHARS = ('|', '!', '/', '.')


def values(ctx, name):
    return classbody.class_values(ctx.prog, ctx.prog.cls(name))


def folds(vals):
    return {k: classbody.term(v) for k, v in vals.items()}


def typed(kind, v=V, st=None):
    """state in which the value is a present one of the kind"""
    st = st or State()
    is_ = {'str': 'str', 'int': 'int', 'bytes': 'bytes', 'etag': 'tuple', 'errors': 'tuple'}.get(kind)
    facts = [(('isinst', v, ('bi', b)), b == is_) for b in ('str', 'int', 'bytes', 'tuple', 'list', 'float', 'bool')]
    facts += [(eqat(('bi', b), ('classof', v)), b == is_) for b in ('str', 'int', 'bytes', 'tuple', 'list')]
    facts += [(('is',) + tuple(sorted((('bi', b), ('classof', v)), key=repr)), b == is_) for b in ('str', 'int', 'bytes', 'tuple')]
    facts += [(('isinst', v, ('ext', 'datetime.datetime')), kind == 'date'), (('hasattr', v, '__iter__'), kind not in ('int', 'date')),
              (('isc', v, NONE), False), (truthy(v), True)]
    facts += [(('isinst', v, ('tup', tuple(sorted((('bi', 'bytes'), ('bi', 'str')), key=repr)))), kind in ('bytes', 'str')),
              (('isinst', v, ('tup', tuple(sorted((('bi', 'list'), ('bi', 'tuple')), key=repr)))), kind in ('etag', 'errors'))]
    for a, x in facts:
        s = st.assume(a, x)
        st = s if s is not None else st
    return st


def maybe_falsy(st):
    """the same without knowing that the value is true"""
    st = st.copy()
    st.facts = {k: x for k, x in st.facts.items() if k != truthy(V)}
    return st


def meth(t, *names):
    """(target, name, args) of a method call term"""
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and (not names or t[1][2] in names):
        return t[1][1], t[1][2], t[2]
    return None


# -- what happens to single characters of a string -------------------------------
def step(t):
    """(base, {character: replacement}) of a replacing operation, None otherwise"""
    m = meth(t, 'replace_str')
    if m and len(m[2]) == 2 and all(is_const(x) for x in m[2]):
        return m[0], {m[2][0][2]: m[2][1][2]}
    m = meth(t, 'join')
    if m and is_const(m[0]) and len(m[2]) == 1:
        s = meth(m[2][0], 'split')
        if s and len(s[2]) == 1 and is_const(s[2][0]):
            return s[0], {s[2][0][2]: m[0][2]}
    m = meth(t, 'translate')
    if m and len(m[2]) == 1:
        d = m[2][0]
        k = meth(d, 'maketrans')
        if k and len(k[2]) == 2 and all(is_const(x) for x in k[2]):
            return m[0], dict(zip(k[2][0][2], k[2][1][2]))
        if k and len(k[2]) == 1:
            d = k[2][0]
        if d[0] == 'dict' and all(is_const(a) and is_const(b) for a, b in d[1]):
            return m[0], {chr(a[2]) if isinstance(a[2], int) else a[2]: b[2] for a, b in d[1]}
    return None


def image(t, base, chars=CHARS):
    """{character: what it becomes} from base to t; None when t is not made of base by replacing characters"""
    chain = []
    while t != base:
        s = step(t)
        if s is None:
            return None
        chain.append(s[1])
        t = s[0]
    out = {c: c for c in chars}
    for d in reversed(chain):
        out = {c: ''.join(d.get(x, x) for x in y) for c, y in out.items()}
    return out


def absent(p, base):
    """characters known not to be in base on the path"""
    out = set()
    for a, v in p.facts():
        if a[0] == 'in' and v is False and is_const(a[1]) and isinstance(a[1][2], str):
            im = image(a[2], base)
            if im is not None:
                out |= {c for c in CHARS if im[c] == a[1][2]}
    return out


def unbytes(t):
    """the text of an encoded or decoded value"""
    while True:
        m = meth(t, 'encode', 'decode')
        if m:
            t = m[0]
        elif t[0] == 'call' and t[1] in ('bytes', 'str') and t[2] and len(t[2]) == 2 and t[2][1][0] == 'c':
            t = t[2][0]
        else:
            return t


def deescape(t):
    while step(t):
        t = step(t)[0]
    return t


# -- how a value is written, how it is read -----------------------------------
def written(t, text=False):
    """the way a value is written: the name of the format of the text or bytes"""
    t = deescape(unbytes(t))
    if t == V:
        return 'raw'
    if t[0] == 'call' and t[1] in ('str', 'repr') and t[2] == (V,) or t[0] == 'strof' and t[1] == V or t[0] == 'fstr' and t[1] == (V,) \
            or meth(t, '__str__') and meth(t)[0] == V:
        return 'decimal'
    m = meth(t, 'hex')
    if m and m[0] == V and not m[2]:
        return 'hex'
    m = meth(t, 'join')
    if m and m[0] == C(';') and m[2] == (V,):
        return 'list'
    parts = flat(t)
    if len(parts) == 3 and parts[1] == C('-'):
        m = meth(parts[0], 'hex')
        n = parts[2]
        if n[0] == 'call' and n[1] == 'str':
            n = n[2][0]
        if m and m[0] == ('item', V, C(0)) and n == ('item', V, C(1)):
            return 'hex-count'
    m = meth(t, 'isoformat')
    if m and m[0] == V:
        return 'iso'
    return None


READ = {'str': ('raw',), 'int': ('decimal',), 'date': ('iso',), 'etag': ('hex-count',), 'errors': ('list',), 'bytes': ('hex', 'raw')}


def isint(t, src):
    return t[0] == 'call' and t[1] == 'int' and len(t[2]) >= 1 and unbytes(t[2][0]) == src


def split_of(p, t):
    """the split whose non empty pieces a list is made of: (string, 'split', arguments)"""
    x = t
    while x[0] == 'call' and x[1] in ('tuple', 'list') and len(x[2]) == 1:
        x = x[2][0]
    late = x[0] == 'comp' and unbytes(x[2]) == ('elem', x[3], 'c') != x[2]       # bytes are split, the pieces decoded
    if x[0] == 'comp' and unbytes(x[2]) == ('elem', x[3], 'c'):
        if all(c in (('elem', x[3], 'c'), ('truthy', ('elem', x[3], 'c')), ('b', ('truthy', ('elem', x[3], 'c')))) for c in x[4]):
            x = x[3]
    elif x[0] == 'call' and x[1] == 'filter' and len(x[2]) == 2 and x[2][0] in (NONE, ('bi', 'bool')):
        x = x[2][1]
    elif x[0] in ('list', 'tup'):
        src = {y[1] for y in x[1] if y[0] == 'elem'}
        if any(y[0] not in ('elem', 'star') for y in x[1]):
            return None
        if not src:
            src = {l[3] for l in p.loops() if l[3] is not None}
        if len(src) == 1:
            x = src.pop()
            for l in p.loops('first'):
                if l[3] == x and not any(y[0] == 'elem' for y in x[1]) and not excluded(p.st, (truthy(('elem', x, 0)), True)) and not t[1]:
                    return None
    m = meth(x, 'split')
    if m and late and m[2] and m[2][0][0] == 'c' and m[2][0][1] == 'bytes':
        return m[0], m[1], (C(m[2][0][2].decode()),) + tuple(m[2][1:])
    return m


def read(t, p):
    """the format of text or bytes that a reader's answer undoes"""
    src = V
    if isint(t, src):
        return 'decimal'
    t0 = deescape(unbytes(t))
    if t0 == src:
        return 'raw'
    m = meth(t, 'fromhex')
    if m and len(m[2]) == 1 and deescape(unbytes(m[2][0])) == src:
        return 'hex'
    m = split_of(p, t)
    if m and m[2] == (C(';'),) and deescape(unbytes(m[0])) == src:
        return 'list'
    if t[0] in ('tup', 'list') and len(t[1]) == 2:
        a, b = t[1]
        m = meth(a, 'fromhex')
        if m and b[0] == 'call' and b[1] == 'int':
            def half(y):
                if y[0] == 'item' and is_const(y[2]):
                    s = meth(y[1], 'rsplit', 'split', 'partition', 'rpartition')
                    if s and unbytes(s[0]) == src and s[2] and s[2][0] == C('-'):
                        return y[2][2] if s[1] != 'split' or len(s[2]) < 2 or True else None
                return None
            i, j = half(m[2][0]), half(b[2][0])
            if i == 0 and j in (1, 2, -1):
                return 'hex-count'
    return None


def flat(t):
    """a string as the sequence of what it is made of"""
    def go(t):
        if t[0] == 'bin' and t[1] == 'Add':
            return go(t[2]) + go(t[3])
        if t[0] == 'fstr':
            return [y for x in t[1] for y in go(x)]
        m = meth(t, 'join')
        if m and len(m[2]) == 1 and m[2][0][0] in ('tup', 'list') and is_const(m[0]):
            out = []
            for i, x in enumerate(m[2][0][1]):
                out += ([m[0]] if i else []) + go(x)
            return out
        if t[0] == 'div':
            return go(t[1]) + [C('/')] + go(t[2])
        if t[0] == 'new' and t[1] == 'path' and t[2] and not any(x[0] == 'star' for x in t[2]):
            out = []
            for i, x in enumerate(y for y in t[2] if y[0] != 'kw'):
                out += ([C('/')] if i else []) + go(x)
            return out
        if t[0] == 'strof':
            return go(t[1])
        return [t]
    out = []
    for x in go(t):
        if is_const(x) and isinstance(x[2], str):
            if not x[2]:
                continue
            if out and is_const(out[-1]) and isinstance(out[-1][2], str):
                out[-1] = C(out[-1][2] + x[2])
                continue
        out.append(x)
    return out


def fields_of_object(ctx):
    f = ctx.func(PM, '__init__')
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def where(ctx, cls, name):
    f = ctx.func(cls, name)
    return f'{f.module.path}:{f.node.lineno}'


@rule('P13')
def p13(ctx):
    """Table agreement between the parameters of PathMeta, the fields of each writer and the encoder of every field, then a conversion
    analysis: for every field and every type it may hold, the form in which each writer leaves it is the form its reader undoes."""
    sym, xat = values(ctx, SYM), values(ctx, XAT)
    F = fields_of_object(ctx)
    ctx.need('fields', len(F), 17, 'fields of the metadata object')
    obj = set(F)
    pm = P('pathmeta')

    # ---- the object keeps what it is given
    f = ctx.func(PM, '__init__')
    kept = Counter()
    for p in ctx.run(f, recv=PM, raises='none'):
        if not p.ret:
            continue
        for x in F:
            st = [e for e in p.evs('store') if same(e.target, SELF) and mentions(e.args[0], P(x))]
            empty = excluded(p.st, (truthy(P(x)), True)) or excluded(p.st, (('isc', P(x), NONE), False))
            names = {e.name.lstrip('_').replace('_ok', '') for e in st}
            ctx.check(x in names or empty and any(e.name == x for e in p.evs('store')), 'the object keeps the field', f'PathMeta.{x}',
                      'is not stored', where(ctx, PM, '__init__'), p)
            wrong = [e for e in st if e.name.lstrip('_').replace('_ok', '') not in (x,) and e.name.lstrip('_').replace('_ok', '') in obj]
            ctx.check(not wrong, 'the object keeps the field', f'PathMeta.{x}', f'is stored as {wrong[0].name if wrong else ""}',
                      where(ctx, PM, '__init__'), p)
            kept[x] += bool(st)
    for x in F:
        ctx.need('the object keeps the field', kept[x], 1, x)

    # ---- symlink writer
    st = State()
    st.heap = {(pm, x): ('attr', pm, x) for x in F}
    st.heap[(('attr', pm, 'size'), 'hr')] = ('attr', ('attr', pm, 'size'), 'hr')
    n = 0
    wv = sym.get('write_version')
    layout = sym.get('versions', {}).get(wv, ())
    ctx.check(set(layout) | {'id'} == obj, 'every field is written', 'symlink layout',
              f'{wv} lacks {sorted(obj - set(layout) - {"id"})} and has unknown {sorted(set(layout) - obj)}', where(ctx, SYM, 'as_symlink'))
    ctx.check(len(set(layout)) == len(layout), 'every field is written', 'symlink layout', f'{wv} repeats a field', where(ctx, SYM, 'as_symlink'))
    w = where(ctx, SYM, 'as_symlink')
    for p in ctx.run((SYM, 'as_symlink'), init=st, raises='none', unroll=64, folds=folds(sym), types={'pathmeta': ctx.prog.cls(PM)},
                     inline=('_PathMetaAsSymlink.*',), opaque=('meta._PathMetaAsSymlink.encode',)):
        if not p.ret:
            continue
        n += 1
        fl = flat(p.val)
        if excluded(p.st, (('isc', P('local_name'), NONE), True)):
            ctx.check(len(fl) > 2 and fl[0] == P('local_name') and is_const(fl[1]) and fl[1][2].startswith('/'), 'link layout', 'as_symlink',
                      'the name given does not come first', w, p)
            fl = fl[1:]
            if fl and is_const(fl[0]):
                fl = ([C(fl[0][2][1:])] if fl[0][2][1:] else []) + fl[1:]
        seen = []
        for x in fl:
            m = meth(x, 'encode')
            if m and m[0] == SELF and len(m[2]) == 2 and is_const(m[2][0]):
                field, val = m[2][0][2], m[2][1]
                want = ('attr', pm, field)
                ctx.check('.' in field or val == want, 'every field is written', f'as_symlink: {field}', f'is written from {show(val)}', w, p)
                seen.append(field)
            elif not is_const(x):
                ctx.check(False, 'link layout', 'as_symlink', f'{show(x)} is not an encoded field', w, p)
        ctx.check(seen[:1] == ['id'] and tuple(seen[1:1 + len(layout)]) == tuple(layout), 'link layout', 'as_symlink',
                  f'writes {seen[:1 + len(layout)]}, the layout of {wv} is id, {", ".join(layout)}', w, p)
        seps = [x[2] for x in fl if is_const(x)]
        ctx.check(seps[:1] == [f'/.{wv}.'] and all(s == '.' for s in seps[1:]), 'link layout', 'as_symlink', f'is put together with {seps}', w, p)
    ctx.need('link layout', n, 2, 'paths of as_symlink')

    # ---- xattr writer
    w = where(ctx, XAT, 'as_xattrs')
    n = 0
    for kind in ('value', 'iterable', 'zero', 'none', 'empty'):
        st = State()
        st.heap = {(pm, x): ('attr', pm, x) for x in F}
        for x in F:
            t = ('attr', pm, x)
            for a, v in ((('isc', t, NONE), kind == 'none'), (('hasattr', t, '__iter__'), kind in ('iterable', 'empty')),
                         (truthy(t), kind in ('value', 'iterable'))):
                s2 = st.assume(a, v)
                st = s2 if s2 is not None else st
        for p in ctx.run((XAT, 'as_xattrs'), init=st, raises='none', unroll=64, folds=folds(xat), inline=('_PathMetaAsXattrs.*',),
                         opaque=('meta._PathMetaAsXattrs.encode',), types={'pathmeta': ctx.prog.cls(PM)}):
            if not p.ret:
                continue
            n += 1
            got = {}
            items = [(e.args[0], e.args[1], e.where) for e in p.items if isinstance(e, Event) and e.kind == 'setitem']
            if not items and p.val[0] == 'dict':
                items = [(k, v, w) for k, v in p.val[1]]
            pref = not excluded(p.st, (truthy(P('prefix')), True))
            for k, v, wh in items:
                m = meth(v, 'encode')
                ok = m and m[0] == SELF and len(m[2]) == 2 and is_const(m[2][0])
                ctx.check(ok, 'every field is written', 'as_xattrs', f'writes {show(v)}', wh, p)
                if ok:
                    field = m[2][0][2]
                    got[field] = m[2][1]
                    ctx.check(m[2][1] == ('attr', pm, field), 'every field is written', f'as_xattrs: {field}', f'is written from {show(m[2][1])}', wh, p)
                    if is_const(k) and isinstance(k[2], bytes):
                        k = C(k[2].decode())
                    key = flat(unbytes(k))
                    want = [P('prefix'), C('.' + field)] if pref else [C(field)]
                    ctx.check(key == want, 'key of the field', f'as_xattrs: {field}', f'is written under {[show(x) for x in key]}', wh, p)
            if kind in ('value', 'iterable', 'zero'):
                ctx.check(set(got) == obj, 'every field is written', 'as_xattrs',
                          f'drops {sorted(obj - set(got))} adds {sorted(set(got) - obj)} when every field is {dict(value="set", zero="zero").get(kind, "a non empty iterable")}', w, p)
            else:
                ctx.check(not got, 'unset fields are not written', 'as_xattrs', f'writes {sorted(got)} when nothing is set', w, p)
    ctx.need('every field is written', n, 6, 'paths of as_xattrs')

    # ---- conversions
    n = 0
    for cls, vals, fs in ((SYM, sym, list(layout) + ['id']), (XAT, xat, xat.get('fields', ()))):
        q = 'symlink' if cls == SYM else 'xattrs'
        for field in fs:
            if field not in KIND:
                ctx.check(field not in obj, 'fields known to the rule', f'{q}: {field}', 'is a field whose type this rule does not know')
                continue
            we, wd = where(ctx, cls, 'encode'), where(ctx, cls, 'decode')
            forms = {}
            for kind in KIND[field]:
                forms[kind] = set()
                for p in ctx.run((cls, 'encode'), args={'field': C(field)}, init=typed(kind), raises='none', folds=folds(vals), inline=ENCODERS):
                    if p.rai:
                        ctx.check(kind in ('str', 'errors') and cls == SYM, 'every field has an encoding', f'{q}: {field}',
                                  f'{p.exc} for a {kind} value', we, p)
                        continue
                    n += 1
                    if p.val == C('#'):
                        continue      # P15
                    fm = written(p.val)
                    ctx.check(fm is not None, 'every field has an encoding', f'{q}: {field}', f'a {kind} value becomes {show(p.val)}', we, p)
                    if kind == 'date' and fm == 'iso':
                        bad = date_text(p.val, cls == SYM)
                        ctx.check(bad is None, 'every field has an encoding', f'{q}: {field}', bad, we, p)
                    ctx.check(fm is None or fm in READ[kind], 'every field has an encoding', f'{q}: {field}', f'a {kind} value is written as {fm}', we, p)
                    if cls == XAT and kind != 'bytes':
                        ctx.check(meth(p.val, 'encode') is not None or p.val[0] == 'call' and p.val[1] == 'bytes', 'every field has an encoding',
                                  f'{q}: {field}', 'is not written as bytes', we, p)
                    forms[kind].add(fm)
            kw = {'version': C(6)} if cls == SYM else {}
            st = State()
            ps = ctx.run((cls, 'decode'), args={'field': C(field), **kw}, init=st, raises='all', folds=folds(vals))
            got = set()
            for p in ps:
                if p.ret and p.val != NONE:
                    r = read(p.val, p)
                    if field in ('created', 'updated') and r == 'raw':
                        r = 'iso'
                    if field in ('created', 'updated') and mentions(p.val, ('ext', 'struct.unpack')) or 'unpack' in repr(p.val):
                        continue      # legacy times
                    n += 1
                    ctx.check(r is not None, 'readers undo the writer', f'{q}: {field}', f'is read as {show(p.val)}', wd, p)
                    got.add(r)
                    if r == 'raw' and cls == XAT and KIND[field] != ('bytes',):
                        ctx.check(meth(p.val, 'decode') is not None or p.val[0] == 'call', 'readers undo the writer', f'{q}: {field}', 'stays bytes', wd, p)
                    if field == 'user_id' and r == 'raw':
                        ctx.check(any('ValueError' in str(h[1]) or 'ValueError' in repr(h) for h in p.handled()) or any(a[0] == 'excis' and v for a, v in p.facts()),
                                  'readers undo the writer', f'{q}: {field}', 'is read as text without trying a number first', wd, p)
            want = set().union(*forms.values()) - {None}
            if want and None not in got:
                ctx.check(got == want, 'readers undo the writer', f'{q}: {field}', f'is written as {sorted(want)} and read as {sorted(map(str, got))}', wd)
    ctx.need('readers undo the writer', n, 60, 'conversions')

    # ---- readers give the values to the object under their names
    w = where(ctx, XAT, 'from_xattrs')
    n = 0
    xs = P('xattrs')
    for p in ctx.run((XAT, 'from_xattrs'), args={'path_object': NONE}, raises='none', inline=('meta._PathMetaAsXattrs.deprefix',)):
        pref = not excluded(p.st, (truthy(P('prefix')), True))
        for e in [e for e in p.calls('decode') if same(e.target, SELF)]:
            n += 1
            k, v = e.args[:2]
            item = v[1] if v[0] == 'item' else None
            ctx.check(item is not None and v[2] == C(1) and mentions(item, xs), 'key of the field', 'from_xattrs', f'reads the value {show(v)}', e.where, p)
            raw = ('item', item, C(0))
            key = strip_prefix(k, pref)
            ctx.check(key is not None and unbytes(key) == raw, 'key of the field', 'from_xattrs', f'reads the field {show(k)} with {"a" if pref else "no"} prefix', e.where, p)
        if p.ret:
            ctx.check(p.val[0] == 'new' and p.val[1] == 'augpathlib.meta.PathMeta', 'readers give the values to the object', 'from_xattrs', f'answers {show(p.val)}', w, p)
    ctx.need('key of the field', n, 2, 'decoded items')


def strip_prefix(k, pref):
    """the raw key of a field name that was taken from it"""
    if not pref:
        return k
    want = [P('prefix'), C('.')]
    m = meth(k, 'removeprefix')
    if m and flat(m[2][0]) == want:
        return m[0]
    if k[0] == 'slice' and k[3] == NONE and k[2][0] == 'len' and flat(k[2][1]) == want:
        return k[1]
    if k[0] == 'phi':
        ks = [strip_prefix(x, pref) for x in k[1] if x != NONE]
        return ks[0] if len(set(ks)) == 1 else None
    return None


def date_text(t, link):
    """a date in a link must not contain the field separator, and names its time zone the usual way"""
    t = unbytes(t)
    chain = []
    while step(t):
        chain.append(step(t)[1])
        t = step(t)[0]
    d = {}
    for c in chain:
        d.update(c)
    if link and '.' not in d:
        return 'the fraction of a second keeps the field separator'
    if d.get('.') not in (None, ','):
        return f'the fraction of a second is written with {d["."]!r}'
    if set(d) - {'.', '+00:00', '!'}:
        return f'{sorted(set(d))} of a date are replaced'
    if d.get('+00:00', 'Z') != 'Z':
        return f'UTC is written as {d["+00:00"]!r}'
    return None


PUBLISHED = {
    'meta': 'file_id size created updated checksum old_id gid user_id mode errors',
    'mdv1': 'file_id size created updated checksum chunksize old_id gid user_id mode errors',
    'mdv2': 'file_id size created updated checksum etag chunksize old_id gid user_id mode errors',
    'mdv3': 'file_id size created updated checksum etag chunksize parent_id old_id gid user_id mode name errors',
    'mdv4': 'file_id size created updated checksum checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors',
    'mdv5': 'file_id size created updated checksum checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors',
    'mdv6': 'file_id size created updated checksum checksum_cypher etag chunksize multi parent_id old_id gid user_id mode name errors',
}


@rule('P14')
def p14(ctx):
    """The evaluated layout table is compared with the published layouts; dataflow in from_parts: the layout and the decoding rules come
    from the version recorded in the link. What each version's strings decode to is compared with what that version wrote."""
    vals = values(ctx, SYM)
    w = f'{ctx.prog.cls(SYM).module.path}:{ctx.prog.cls(SYM).node.lineno}'
    vs = vals.get('versions')
    if not isinstance(vs, dict):
        raise AnalysisError('versions is not a table any more')
    for v, fs in PUBLISHED.items():
        got = vs.get(v)
        ctx.check(got is not None and tuple(got) == tuple(fs.split()), 'published layouts', f'versions[{v!r}]',
                  f'is {got}, was published as {tuple(fs.split())}', w)
    nums = {}
    for v in vs:
        if v != 'meta':
            ok = v.startswith('mdv') and v[3:].isdigit()
            ctx.check(ok, 'published layouts', f'versions[{v!r}]', 'has no version number', w)
            if ok:
                nums[v] = int(v[3:])
    newest = max(nums, key=nums.get) if nums else None
    ctx.check(vals.get('write_version') == newest, 'the newest version is written', 'write_version', f'is {vals.get("write_version")}, the newest is {newest}', w)

    # ---- the version of the link decides
    f = ctx.func(SYM, 'from_parts')
    q = ctx.short(f)
    n = 0
    parts = P('parts')
    data = ('item', parts, C(-1))
    for p in ctx.run(f, recv=SYM, raises='none', folds={k: classbody.term(v) for k, v in vals.items() if isinstance(v, str)},
                     inline=('_PathMetaAsSymlink.*',), opaque=('meta._PathMetaAsSymlink.decode', 'meta._PathMetaAsSymlink.encode')):
        for e in p.calls('decode'):
            if not same(e.target, SELF) or len(e.args) < 3 and 'version' not in e.kw:
                if same(e.target, SELF):
                    ctx.check(False, 'version of the link', f'{q}: decode', 'gets no version', e.where, p)
                continue
            n += 1
            ver = e.args[2] if len(e.args) > 2 else e.kw['version']
            fld, val = e.args[:2]
            names = version_terms(data)
            known = [x for x in names if mentions(ver, x)]
            if is_const(ver):
                ctx.check(ver == C(0) and any(p.holds(eqat(x, C('meta'))) for x in names), 'version of the link', f'{q}: decode', f'decodes as version {show(ver)}', e.where, p)
            else:
                ok = ver[0] == 'call' and ver[1] == 'int' and len(ver[2]) == 1 and (number_of(ver[2][0], names))
                ctx.check(ok, 'version of the link', f'{q}: decode', f'decodes as version {show(ver)}', e.where, p)
                ctx.check(any(excluded(p.st, (eqat(x, C('meta')), True)) for x in names), 'version of the link', f'{q}: decode',
                          'the first version has no number', e.where, p)
            if fld == C('id'):
                ctx.check(mentions(val, parts), 'version of the link', f'{q}: id', f'is read from {show(val)}', e.where, p)
                continue
            order = fld[1] if fld[0] == 'elem' else None
            ok = order is not None and (order[0] == 'item' and order[1] == ('attr', SELF, 'versions') and order[2] in names or
                                        meth(order, 'get') and meth(order)[0] == ('attr', SELF, 'versions') and meth(order)[2][0] in names)
            ctx.check(ok, 'version of the link', f'{q}: layout', f'the fields come from {show(order) if order else show(fld)}', e.where, p)
            ok = val[0] == 'elem' and suffixes(val[1], data)
            ctx.check(ok, 'version of the link', f'{q}: values', f'the values come from {show(val)}', e.where, p)
    ctx.need('version of the link', n, 3, 'decoded fields')

    # ---- what the strings of each version mean
    wd = where(ctx, SYM, 'decode')
    n = 0
    for ver in range(7):
        for field in ('id', 'mode', 'old_id', 'parent_id', 'name', 'checksum_cypher', 'user_id', 'errors'):
            if ver < 4 and field == 'checksum_cypher' or ver < 3 and field in ('name', 'parent_id'):
                continue
            for p in ctx.run((SYM, 'decode'), args={'field': C(field), 'version': C(ver)}, raises='all', folds=folds(vals), init=notempty(vals)):
                if p.rai or isint(p.val, V):
                    continue
                n += 1
                t = p.val
                m = split_of(p, t)
                x = m[0] if m and field == 'errors' else t
                im = image(x, V)
                ctx.check(im is not None, 'meaning of strings', f'decode: {field}', f'version {ver} answers {show(t)}', wd, p)
                if im is None:
                    continue
                gone = absent(p, V)
                want = {'|': '/', '!': '.'} if ver >= 5 else {'|': '/', '!': '!'}
                if ver < 5 and field == 'name':
                    want = {'|': '.', '!': '!'}
                if ver < 5 and field in ('user_id', 'errors'):
                    want = {'|': '|', '!': '!'}
                for c, i in want.items():
                    if c in gone or ver < 5 and field == 'checksum_cypher' and c == '|':
                        continue
                    ctx.check(im[c] == i, 'meaning of strings', f'decode: {field}', f'version {ver} reads {c!r} as {im[c]!r} instead of {i!r}', wd, p)
                for c in ('/', '.'):
                    ctx.check(c in gone or im[c] == c, 'meaning of strings', f'decode: {field}', f'version {ver} reads {c!r} as {im[c]!r}', wd, p)
    ctx.need('meaning of strings', n, 40, 'decoded strings')


def notempty(vals):
    st = State()
    return st.assume(eqat(V, C(vals.get('empty', '#'))), False)


def version_terms(data):
    """the terms for the version recorded in a link"""
    out = []
    for s in (('call', ('m', data, 'split'), (C('.'),)),):
        out.append(('item', s, C(1)))
    return out


def number_of(t, names):
    for v in names:
        if t == ('slice', v, C(3), NONE) or meth(t, 'removeprefix') and meth(t)[0] == v and meth(t)[2] == (C('mdv'),) \
                or step(t) == (v, {'mdv': ''}):
            return True
    return False


def suffixes(t, data):
    s = ('call', ('m', data, 'split'), (C('.'),))
    return t[0] == 'slice' and t[1] == s and t[2] == C(2) and (t[3] == NONE or t[3] in (C(0), C(None)))


@rule('P15')
def p15(ctx):
    """Per character analysis of encode and decode: for every field, which characters of the value can reach the link and what they become,
    under the conditions of each path; decode is the inverse of what encode does."""
    vals = values(ctx, SYM)
    wv = vals.get('write_version')
    layout = list(vals['versions'][wv]) + ['id']
    seps = {k: vals.get(k) for k in ('empty', 'fieldsep', 'pathsep', 'fieldsep_esc', 'subfieldsep')}
    w = where(ctx, SYM, 'encode')
    ctx.check(seps == {'empty': '#', 'fieldsep': '.', 'pathsep': '|', 'fieldsep_esc': '!', 'subfieldsep': ';'}, 'characters of the format', 'separators',
              f'are {seps}', w)
    n = Counter()
    for field in layout:
        kinds = KIND.get(field, ('str', 'int'))
        # missing values
        st = State().assume(('isc', V, NONE), True)
        for p in ctx.run((SYM, 'encode'), args={'field': C(field), 'value': NONE}, raises='none', folds=folds(vals), inline=ENCODERS):
            ctx.check(p.ret and p.val == C('#'), 'missing values', f'encode: {field}', f'{p.kind}s {show(p.val)} for a missing value', w, p)
            n['none'] += 1
        if field == 'file_id':
            st = typed('int')
            st.facts = {k: x for k, x in st.facts.items() if k != truthy(V)}
            st = st.assume(truthy(V), False)
            for p in ctx.run((SYM, 'encode'), args={'field': C(field)}, init=st, raises='none', folds=folds(vals), inline=ENCODERS):
                ctx.check(p.ret and p.val == C('#'), 'missing values', f'encode: {field}', f'{p.kind}s {show(p.val)} for an empty file id', w, p)
                n['none'] += 1
        for kind in kinds:
            st0 = maybe_falsy(typed(kind)) if field != 'file_id' else typed(kind)
            for p in ctx.run((SYM, 'encode'), args={'field': C(field)}, init=st0, raises='none', folds=folds(vals), inline=ENCODERS):
                if p.rai:
                    if kind in ('str', 'errors'):
                        ctx.check(p.exc_isa('ValueError'), 'rejected strings', f'encode: {field}', f'raises {p.exc}', w, p)
                    continue
                t = p.val
                ctx.check(t != C('#'), 'missing values', f'encode: {field}', f'a {kind} value is written as a missing one', w, p)
                if kind not in ('str', 'errors') or t == C('#'):
                    continue
                base = V if kind == 'str' else None
                if kind == 'errors':
                    base = next((x for x in subterms(t) if meth(x, 'join') and meth(x)[2] == (V,)), None)
                n[kind] += 1
                if base is None or image(t, base) is None:
                    ctx.check(False, 'characters of the link', f'encode: {field}', f'writes {show(t)}', w, p)
                    continue
                im, gone = image(t, base), absent(p, base)
                for c in ('|', '!'):
                    ctx.check(c in gone, 'rejected strings', f'encode: {field}', f'a string that contains {c!r} is written', w, p)
                ctx.check(excluded(p.st, (eqat(base, C('#')), True)), 'rejected strings', f'encode: {field}',
                          'a string equal to the mark of a missing value is written', w, p)
                if field == 'name':
                    ctx.check('/' in gone, 'names are not rewritten', 'encode: name', 'a name with a path separator is written', w, p)
                for c, i in (('/', '|'), ('.', '!')):
                    if c not in gone:
                        ctx.check(im[c] == i, 'characters of the link', f'encode: {field}', f'{c!r} is written as {im[c]!r}', w, p)
    ctx.need('missing values', n['none'], 17, 'missing values')
    ctx.need('characters of the link', n['str'], 4, 'string encodings')
    ctx.need('characters of the link', n['errors'], 1, 'error encodings')

    # ---- decoding
    w = where(ctx, SYM, 'decode')
    n = Counter()
    num = int(wv[3:])
    for field in layout:
        kinds = KIND.get(field, ('str', 'int'))
        for p in ctx.run((SYM, 'decode'), args={'field': C(field), 'version': C(num), 'value': C('#')}, raises='all', folds=folds(vals)):
            ctx.check(p.ret and p.val == NONE, 'missing values', f'decode: {field}', f'{p.kind}s {show(p.val)} for a missing value', w, p)
            n['none'] += 1
        for p in ctx.run((SYM, 'decode'), args={'field': C(field), 'version': C(num)}, raises='all', folds=folds(vals), init=notempty(vals)):
            if p.ret:
                ctx.check(p.val != NONE, 'missing values', f'decode: {field}', 'a value that is there is read as missing', w, p)
            if 'str' not in kinds and 'errors' not in kinds:
                continue
            gone = absent(p, V)
            if p.rai:
                if p.exc is not None:
                    bad = field == 'name' and '|' not in gone
                    ctx.check(bad, 'strings read back', f'decode: {field}', f'raises {p.exc}', w, p)
                continue
            if isint(p.val, V):
                continue
            t = p.val
            x = t
            m = split_of(p, t)
            if m and 'errors' in kinds:
                ctx.check(m[2] == (C(';'),), 'strings read back', f'decode: {field}', f'is split at {[show(a) for a in m[2]]}', w, p)
                x = m[0]
            im = image(x, V)
            n['str'] += 1
            ctx.check(im is not None, 'strings read back', f'decode: {field}', f'answers {show(t)}', w, p)
            if im is None:
                continue
            for c, i in (('|', '/'), ('!', '.')):
                ctx.check(c in gone or im[c] == i, 'strings read back', f'decode: {field}', f'{c!r} is read as {im[c]!r} instead of {i!r}', w, p)
    ctx.need('missing values', n['none'], 17, 'missing values')
    ctx.need('strings read back', n['str'], 8, 'decoded strings')


def subst(t, a, b):
    """t with a replaced by b"""
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def all_fields(src, F):
    """does iterating over this give every field of self, with its public value where it gives values"""
    if src[0] == 'call' and src[1] in ('list', 'tuple', 'sorted', 'iter', 'dict', 'set') and len(src[2]) == 1:
        return all_fields(src[2][0], F)
    m = meth(src, 'items')
    if m and m[0] == SELF:
        return 'items'
    if src[0] in ('tup', 'list', 'set') and {x[2] for x in src[1] if is_const(x)} >= set(F):
        return 'names'
    return None


@rule('P16')
def p16(ctx):
    """Comparison, indexing and truth of metadata objects: the facts about the abstract field of each loop on the paths to each answer,
    judged as truth tables; the lazily parsed dates are compared through their public names only."""
    F = fields_of_object(ctx)
    other = P('other')
    cls = ctx.prog.cls(PM)
    n = Counter()

    # ---- the list of fields that comparison goes through
    f = ctx.func(PM, 'items')
    w = where(ctx, PM, 'items')
    for p in ctx.run(f, recv=PM, raises='none'):
        t = p.val
        vals = [x for x in subterms(t) if x[0] == 'comp']
        for d in ('created', 'updated'):
            ctx.check(mentions(t, ('tup', (C(d), ('attr', SELF, d)))) or mentions(t, C(d)) and mentions(t, ('attr', SELF, d)), 'fields of an object',
                      f'items: {d}', 'is missing', w, p)
        ok = any(c[2] == ('tup', (('item', ('elem', c[3], 'c'), C(0)), ('item', ('elem', c[3], 'c'), C(1)))) and
                 meth(c[3], 'items') and meth(c[3])[0] == ('attr', SELF, '__dict__') and all(private_test(x, c[3]) for x in c[4]) for c in vals) or \
            any(e.name in ('append', 'setitem') for e in p.evs()) or mentions(t, ('elem', ('call', ('m', ('attr', SELF, '__dict__'), 'items'), ()), 0)) or \
            any(l[2] == 'zero' for l in p.loops())
        # or what every pass saw is private
        ok = ok or any(a[0] == 'truthy' and v and (meth(a[1], 'startswith') or (0, 0, ()))[2][:1] == (C('_'),) or a[0] == 'eq' and v and C('_') in a[1:3] for a, v in p.facts())
        ctx.check(ok, 'fields of an object', 'items', f'answers {show(t)}', w, p)
        n['items'] += 1

    # ---- equality
    f = ctx.func(PM, '__eq__')
    q, w = ctx.short(f), where(ctx, PM, '__eq__')
    isit = ('isinst', other, ('class', cls.qual))
    for p in ctx.run(f, recv=PM, raises='none'):
        n['eq'] += 1
        if excluded(p.st, (isit, True)) or p.st.holds(isit) is None and not p.rai and p.val in (NONE, FALSE):
            ctx.check(p.ret and (p.val in (NONE, FALSE) or p.val == ('bi', 'NotImplemented')), 'other things are not equal', q,
                      f'{p.kind}s {show(p.val)} for something that is not metadata', w, p)
            continue
        ctx.check(p.st.holds(isit) is True, 'other things are not equal', q, 'looks into something that is not metadata', w, p)
        if not p.ret:
            continue
        v = p.val
        loops = [l for l in p.loops() if l[3] is not None]
        if v in (TRUE, FALSE) and loops:
            src = loops[0][3]
            kind = all_fields(src, F)
            ctx.check(kind is not None, 'equal when the fields are equal', q, f'compares {show(src)}', w, p)
            facts = [(a, x) for a, x in p.facts() if a[0] == 'eq' and (mentions(a, other))]
            for a, x in facts:
                ctx.check(pairing(a, src, kind, other), 'equal when the fields are equal', q, f'compares {show(a)}', w, p)
            tags = {l[2] for l in loops}
            elems = {x for a, _ in facts for x in subterms(a) if x[0] == 'elem'}
            if v == TRUE:
                ctx.check(all(x for _, x in facts), 'equal when the fields are equal', q, 'answers True after a difference', w, p)
                if 'zero' not in tags:
                    want = sum(l[2] in ('first', 'later') for l in loops)
                    ctx.check(len(facts) >= want, 'equal when the fields are equal', q, 'answers True without comparing a field', w, p)
                    ctx.check('exit' in tags or 'end' in tags, 'equal when the fields are equal', q, 'answers True before the last field', w, p)
            else:
                ctx.check(any(not x for _, x in facts), 'equal when the fields are equal', q, 'answers False without a difference', w, p)
            continue
        if v in (TRUE, FALSE):
            facts = [(a, x) for a, x in p.facts() if a[0] == 'eq' and mentions(a, other)]
            ctx.check(bool(facts) and (all(x for _, x in facts) if v == TRUE else any(not x for _, x in facts)) and all(whole(a, other, F) for a, _ in facts),
                      'equal when the fields are equal', q, f'answers {show(v)} from {[show(a) for a, _ in facts]}', w, p)
            continue
        ok = False
        b = v[1] if v[0] == 'b' else v
        if b[0] == 'truthy':
            b = b[1]
        if b[0] == 'eq':
            ok = whole(b, other, F)
        if b[0] == 'call' and b[1] == 'all' and b[2] and b[2][0][0] == 'comp':
            c = b[2][0]
            kind = all_fields(c[3], F)
            e = c[2][1] if c[2][0] == 'b' else c[2]
            ok = kind is not None and not c[4] and e[0] == 'eq' and pairing(e, c[3], kind, other)
        ctx.check(ok, 'equal when the fields are equal', q, f'answers {show(v)}', w, p)
    ctx.need('equal when the fields are equal', n['eq'], 2, 'paths of __eq__')

    # ---- indexing
    f = ctx.func(PM, '__getitem__')
    q, w = ctx.short(f), where(ctx, PM, '__getitem__')
    key = P(f.node.args.args[1].arg)
    for p in ctx.run(f, recv=PM, raises='all'):
        n['get'] += 1
        if p.ret:
            ctx.check(p.val == ('getattr', SELF, key), 'indexing', q, f'answers {show(p.val)}', w, p)
            missing = any(h[2] == 'AttributeError' or 'AttributeError' in repr(h[2]) for h in p.handled())
            ctx.check(not missing, 'indexing', q, 'answers after the field was not found', w, p)
        else:
            ctx.check(p.exc_isa('KeyError') or p.propagated and not (p.val[0] == 'exc' and p.val[1] == 'AttributeError'), 'indexing', q,
                      f'a missing field raises {p.exc or show(p.val)}', w, p)
            if p.exc_isa('KeyError'):
                ok = any(h for h in p.handled()) or excluded(p.st, (('hasattr', SELF, key), True)) or any(not v for a, v in p.facts())
                ctx.check(ok, 'indexing', q, 'raises KeyError for a field that is there', w, p)
    ctx.need('indexing', n['get'], 2, 'paths of __getitem__')

    # ---- truth
    f = ctx.func(PM, '__bool__')
    q, w = ctx.short(f), where(ctx, PM, '__bool__')
    for p in ctx.run(f, recv=PM, raises='none'):
        n['bool'] += 1
        if not p.ret:
            ctx.check(False, 'truth', q, f'raises {p.exc}', w, p)
            continue
        v = p.val
        srcs = {l[3] for l in p.loops() if l[3] is not None}
        for s in srcs:
            ctx.check(dict_source(s), 'truth', q, f'looks at {show(s)}', w, p)
        if v in (TRUE, FALSE):
            ctx.check(bool(srcs), 'truth', q, f'always answers {show(v)}', w, p)
            for s in srcs:
                tags = [l[2] for l in p.loops() if l[3] == s]
                seen = [i for i, t in enumerate(('first', 'later')) if t in tags]
                k = lambda i: ('item', ('elem', s, i), C(0))
                x = lambda i: ('item', ('elem', s, i), C(1))
                if v == FALSE:
                    for i in seen:
                        for pairs in ((('isc', x(i), NONE, False), ('eq', k(i), C('errors'), False)),
                                      (('isc', x(i), NONE, False), ('eq', k(i), C('errors'), True), ('truthy', x(i), True))):
                            ctx.check(excluded(p.st, *[(y[:-1], y[-1]) for y in pairs]), 'truth', q, 'answers False with a field that is set', w, p)
                    ctx.check('break' not in tags and not any(l[2] == 'break' for l in p.loops()), 'truth', q, 'answers False before the last field', w, p)
                else:
                    ok = any(excluded(p.st, (('isc', x(i), NONE), True)) and
                             (excluded(p.st, (eqat(k(i), C('errors')), True)) or excluded(p.st, (truthy(x(i)), False))) for i in seen)
                    ctx.check(ok, 'truth', q, 'answers True without a field that is set', w, p)
            continue
        b = v[1] if v[0] == 'b' else v
        neg = False
        if b[0] == 'not':
            b, neg = b[1], True
        if b[0] == 'b':
            b = b[1]
        if b[0] == 'truthy':
            b = b[1]
        ok = b[0] == 'call' and b[1] in ('any', 'all') and neg == (b[1] == 'all') and b[2][0][0] == 'comp' and dict_source(b[2][0][3])
        ctx.check(ok, 'truth', q, f'answers {show(v)}', w, p)
        if ok:
            c = b[2][0]
            k, x = ('item', ('elem', c[3], 'c'), C(0)), ('item', ('elem', c[3], 'c'), C(1))
            for pairs in combos((('isc', x, NONE), eqat(k, C('errors')), truthy(x))):
                none, err, tr = [y for _, y in pairs]
                if none and tr:
                    continue
                vals = [truth_under(State(), y, pairs) for y in (c[2],) + tuple(c[4])]
                if 'contradiction' in vals:
                    continue
                got = (all(vals) if None not in vals else None) if b[1] == 'any' else (not (vals[0] or not all(vals[1:])) if None not in vals else None)
                want = not none and not (err and not tr)
                ctx.check(got is want, 'truth', q, f'counts a field as {got} for {[(show(a), y) for a, y in pairs]}', w, p)
    ctx.need('truth', n['bool'], 1, 'paths of __bool__')

    # ---- construction
    f = ctx.func(PM, '__init__')
    q, w = ctx.short(f), where(ctx, PM, '__init__')
    i, fi = P('id'), P('file_id')
    isstr = ('isinst', i, ('bi', 'str'))
    for p in ctx.run(f, recv=PM, raises='none'):
        n['init'] += 1
        if p.ret:
            ctx.check(excluded(p.st, (('isc', i, NONE), False), (isstr, False)), 'ids are strings', q, 'accepts an id that is not a string', w, p)
            for d in ('created', 'updated'):
                raw = [e for e in p.evs('store', '_' + d) if same(e.target, SELF)]
                done = [e for e in p.evs('store', f'_{d}_ok') if same(e.target, SELF)]
                ok = (not done and raw and raw[-1].args[0] == P(d)) or (done and done[-1].args[0] == P(d)) or \
                    any(e.name == d and e.args[0] == P(d) for e in p.evs('store'))
                ctx.check(ok, 'dates', f'{q}: {d}', 'is not kept', w, p)
        elif p.rai:
            bad = excluded(p.st, (('isc', i, NONE), True)) and excluded(p.st, (isstr, True))
            odd = excluded(p.st, (truthy(fi), True)) and excluded(p.st, (('isc', fi, NONE), True))
            ctx.check(bad and p.exc_isa('TypeError') or odd, 'ids are strings', q, f'raises {p.exc} for an id that is a string or missing', w, p)
    ctx.need('ids are strings', n['init'], 2, 'paths of __init__')
    for d in ('created', 'updated'):
        owner, v = cls.lookup(d)
        if not isinstance(v, Prop):
            continue
        f = v.getter
        q, w = ctx.short(f), f'{f.module.path}:{f.node.lineno}'
        parsed = lambda t: t[0] == 'call' and 'pars' in str(t[1]) and ('attr', SELF, '_' + d) in t[2]
        for p in ctx.run(f, recv=PM, raises='none'):
            n['dates'] += 1
            have = ('hasattr', SELF, f'_{d}_ok')
            if not p.ret:
                ctx.check(False, 'dates', q, f'raises {p.exc}', w, p)
            elif excluded(p.st, (have, True)):
                ctx.check(parsed(p.val), 'dates', q, f'a date that was not parsed is {show(p.val)}', w, p)
            else:
                ctx.check(p.val == ('attr', SELF, f'_{d}_ok') or parsed(p.val) and not p.evs('store'), 'dates', q, f'a parsed date is {show(p.val)}', w, p)
            for e in p.evs('store'):
                ctx.check(parsed(e.args[0]) if e.name == f'_{d}_ok' else e.name not in F and e.name.lstrip('_') not in F, 'dates', q,
                          f'reading it changes {e.name}', e.where, p)
    ctx.need('dates', n['dates'], 2, 'paths of the dates')


def private_test(c, src):
    """a filter that drops only the names that start with an underscore"""
    k = ('item', ('elem', src, 'c'), C(0))
    for t in (('eq', ('item', k, C(0)), C('_')),):
        if c in (('not', ('b', t)), ('b', ('not', t))):
            return True
    m = c
    if m[0] == 'not':
        m = m[1]
        if m[0] == 'b':
            m = m[1]
        if m[0] == 'truthy':
            m = m[1]
        mm = meth(m, 'startswith')
        return bool(mm) and mm[0] == k and mm[2] == (C('_'),)
    return False


def pairing(a, src, kind, other):
    """the atom compares the same field of self and other"""
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if x[0] == 'getattr' and x[1] == other:
            k = x[2]
        elif x[0] == 'item' and x[1] == other:
            k = x[2]
        elif x[0] == 'attr' and x[1] == other:
            k = C(x[2])
        else:
            continue
        if kind == 'items' and k[0] == 'item' and k[1][0] == 'elem' and k[1][1] == src and k[2] == C(0) and \
                y in (('item', k[1], C(1)), ('getattr', SELF, k), ('item', SELF, k)):
            return True
        if kind == 'names' and y == subst(x, other, SELF):
            return True
        if kind is None and y == subst(x, other, SELF):
            return True
    return False


def whole(a, other, F):
    """the atom compares all fields of both at once, through their public values"""
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        if subst(x, SELF, other) == y or strip_u(subst(x, SELF, other)) == strip_u(y):
            t = x
            while t[0] == 'call' and t[1] in ('dict', 'list', 'tuple', 'sorted', 'set', 'frozenset') and len(t[2]) == 1:
                t = t[2][0]
            if all_fields(t, F) == 'items':
                return True
            if t[0] in ('tup', 'list') and {z[2] for z in t[1] if z[0] == 'attr' and z[1] == SELF} >= set(F):
                return True
            if t[0] == 'comp' and all_fields(t[3], F) and not t[4]:
                return True
    return False


def strip_u(t):
    return tuple(strip_u(x) if isinstance(x, tuple) else x for x in t if not (isinstance(x, int) and not isinstance(x, bool)) or t[0] == 'c') \
        if isinstance(t, tuple) else t


def dict_source(s):
    while s[0] == 'call' and s[1] in ('list', 'tuple', 'iter') and len(s[2]) == 1:
        s = s[2][0]
    m = meth(s, 'items')
    return bool(m) and m[0] in (SELF, ('attr', SELF, '__dict__'), ('call', 'vars', (SELF,)))
