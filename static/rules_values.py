"""Rules decided by constant propagation: releases and refs, at every point of finite domains of tags and names."""
import fnmatch
from ctx import *
from consts import value, possible, loose, Open, Fails
from rules_caches import own, at

PKG = 'package.PackagePath'
NAME = 'foo'
TAGS = {True: {'own': ('foo-1.0', 'foo-10.2.3', 'foo-0.0.1.dev0', 'foo-3', 'foo-9.1-1'),
               'other': ('foo-extras-1.0', 'foobar-1.0', 'foobar-2', '1.0', 'bar-foo-1.0', 'xfoo-1.0', 'foo1.0', 'foo-extras-foo-1.0', '2.foo-1.0')},
        False: {'own': ('1.0', '10.2.3', '0.0.1.dev0', '3', '9.1-1'),
                'other': ('foo-1.0', 'bar-1.0', 'release', 'foobar-1.0', 'x1.0')}}


def package(prefix, **more):
    """values of what a package knows about itself"""
    d = {'tag_prefix': prefix, 'arg_packagename': NAME, **more}

    def look(t):
        if t[0] == 'attr' and t[1] == SELF and t[2] in d:
            return (d[t[2]],)
    return look


def options(args):
    """--name=value arguments and keyword arguments of a git command, and the other ones in order"""
    opts, rest = {}, []
    args = list(args)
    while args:
        x = args.pop(0)
        if isinstance(x, tuple):
            opts[x[0].replace('_', '-')] = x[1]
        elif isinstance(x, str) and x.startswith('--') and len(x) > 2:
            n, eq, v = x[2:].partition('=')
            if not eq and n in ('match', 'abbrev') and args:
                v = args.pop(0)
            opts[n] = v if eq or v else True
        else:
            rest.append(x)
    return opts, rest


def given(ev, look):
    out = []
    for x in ev.args:
        if x[0] == 'star':
            try:
                out += value(x[1], look)
            except Open:
                out.append(x)
        else:
            try:
                out.append(value(x, look))
            except Open:
                out.append(('?', x))
    for k, v in ev.kw.items():
        if not k.startswith('__'):
            out.append((k, value(v, look)))
    return out


@rule('P56')
def p56(ctx):
    """Constant propagation of tags of this package, of packages whose names start or end with its name, and of the repository, with and without a prefix, through the patterns and conditions that select releases; where versions and logs start."""
    n = Counter()
    f = ctx.func(PKG, 'tag')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='none'):
        for prefix in (True, False):
            look = package(prefix)
            if possible(p.facts(), look) is False:
                continue
            for e in p.evs('call', 'describe'):
                try:
                    opts, rest = options(given(e, look))
                except (Open, Fails):
                    continue
                pat = opts.get('match')
                if not isinstance(pat, str):
                    ctx.check('match' in opts, 'own tags only', q, 'any tag of the repository would do', f.where, p)
                    continue
                n['pattern'] += 1
                pat = pat.replace('[^', '[!')
                for kind, tags in TAGS[prefix].items():
                    for tag in tags:
                        ctx.check(fnmatch.fnmatchcase(tag, pat) == (kind == 'own'), 'own tags only', q,
                                  f'{tag!r} is {"not " if kind == "own" else ""}taken for a tag of the {"package " + NAME if prefix else "repository"} ({pat!r})', f.where, p)
                ctx.check(opts.get('abbrev') in ('0', 0), 'the tag itself', q, 'the tag comes with how far away it is', f.where, p)
                ctx.check(bool(opts.get('tags')), 'tags of every kind', q, 'only annotated tags are found', f.where, p)
                ctx.check(not rest or rest == ['HEAD'], 'tags of the current commit', q, f'tags of {rest}', f.where, p)
    f = ctx.func(PKG, 'tag_latest_github')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='none', inline=('package.PackagePath.tag',)):
        loop = p.loops()
        if any(x[2] == 'later' for x in loop):
            continue
        for prefix in (True, False):
            T = TAGS[prefix]
            # newest first; a loop is looked at with one release at most
            lists = [None, ()] + [(x,) for k in T for x in T[k]]
            if not loop:
                lists += [(a, b) for a in T['own'] for b in T['other']] + [(b, a) for a in T['own'] for b in T['other']] + [(a, b) for a in T['own'] for b in T['own']]
            for tags in lists:
                rel = None if tags is None else tuple({'tag_name': x, 'draft': False, 'prerelease': False} for x in tags)
                base = package(prefix, github_json=rel)
                J = A(SELF, 'github_json')

                def look(t):
                    if loop and rel and t[0] == 'elem' and t[1] == J and t[2] != 'c':
                        return (rel[0],)
                    return base(t)
                if loop and (any(x[2] == 'first' for x in loop) != bool(rel)):
                    continue
                if possible(p.facts(), look, loose) is not True:
                    continue
                want = next((x for x in tags or () if x in T['own']), None)
                try:
                    got = value(p.val, look) if p.ret else p.kind
                except Fails as e:
                    got = str(e)
                except Open:
                    n['open'] += 1
                    continue
                n['release'] += 1
                ctx.check(got == want, 'own releases only', q, f'of {tags} it is {got!r} that is the latest release of the {"package " + NAME if prefix else "repository"}', f.where, p)
    for name, attr in (('version_latest_github', 'tag_latest_github'), ('version_tag', 'tag')):
        f = ctx.func(PKG, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=PKG, raises='none'):
            for prefix in (True, False):
                for tag in (None,) + TAGS[prefix]['own']:
                    look = package(prefix, **{attr: tag})
                    if possible(p.facts(), look) is False:
                        continue
                    want = tag and tag[len(NAME) + 1 if prefix else 0:]

                    def parse(t):
                        if t[0] == 'call' and isinstance(t[1], str) and t[1].startswith('packaging.version.') and len(t[2]) == 1:
                            return (value(t[2][0], look),)
                        return look(t)
                    try:
                        got = value(p.val, parse) if p.ret else p.kind
                    except Fails as e:
                        got = str(e)
                    except Open:
                        n['open'] += 1
                        continue
                    n['version'] += 1
                    ctx.check(got == want, 'the version of a tag', q, f'the version of {tag!r} is read from {got!r}', f.where, p)
    f = ctx.func(PKG, 'version_latest_released')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='none'):
        for names in (None, ('0.9', '0.10', '0.2'), ('1.0', '0.1'), ('2.0',), ('0.0.9', '0.0.10'), ('9', '10')):
            look = package(True, pypi_json=names and {'releases': {x: [] for x in names}, 'info': {'version': names[0]}})
            if possible(p.facts(), look) is False:
                continue
            try:
                got = value(p.val, look) if p.ret else p.kind
            except Fails as e:
                got = str(e)
            except Open:
                n['open'] += 1
                continue
            n['latest'] += 1
            want = names and max(tuple(int(y) for y in x.split('.')) for x in names)
            ctx.check(got == want, 'the latest release is the highest version', q, f'of {names} it is {got}', f.where, p)
    f = ctx.func(PKG, 'commits_since_last_release')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='try'):
        if not p.ret:
            continue
        for tag in (None, 'foo-1.0', '3'):
            look = package(True, tag=tag)
            if possible(p.facts(), look) is False:
                continue
            logs = p.evs('call', 'log') + [e for e in p.evs('call', 'iter_commits')]
            logs = [e for e in logs if e.target and 'git' in repr(e.target) or e.name == 'iter_commits']
            for e in logs[:1]:
                got = given(e, look)
                if any(isinstance(x, tuple) and x and x[0] == '?' and 'tag' in repr(x) for x in got):
                    n['open'] += 1
                    continue
                files = got[got.index('--') + 1:] if '--' in got else None
                _, revs = options(got[:got.index('--')] if '--' in got else got)
                n['log'] += 1
                ok = set(revs) <= {'HEAD', '@'} if not tag else revs in ([f'{tag}..HEAD'], [f'{tag}..'], [f'{tag}..@']) or sorted(revs) in (['HEAD', f'^{tag}'], ['HEAD', '--not', tag])
                ctx.check(ok, 'the log starts at the last release', q, f'with the tag {tag!r} it is the log of {revs}', f.where, p)
                if files is not None:
                    if "'havoc'" in repr(files):  # what the passes of a loop collected
                        files = [e.args for e in p.evs('call', 'append') + p.evs('call', 'extend')]
                    ctx.check(not files and bool(p.loops('zero')) or any('release_files' in repr(x) or "'folder'" in repr(x) for x in files), 'the log of what is released', q, 'not the log of the files that are released', f.where, p)
    f = ctx.func(PKG, 'tag_prefix')
    q = ctx.short(f)
    from pathlib import PurePosixPath as PP
    for p in ctx.run(f, recv=PKG, raises='none'):
        for folder, want in (('/r', False), ('/r/sub', True), ('/r/a/b', True)):
            look = package(None, setup_file=PP(folder, 'setup.py'), folder=PP(folder), working_dir=PP('/r'))
            look2 = lambda t: None if t == A(SELF, 'tag_prefix') else look(t)
            if possible(p.facts(), look2) is False:
                continue
            try:
                got = value(p.val, look2)
            except (Open, Fails):
                n['open'] += 1
                continue
            n['prefix'] += 1
            ctx.check(bool(got) == want, 'only packages at the root of the repository have bare tags', q, f'a package in {folder} of /r has {"a" if got else "no"} prefix', f.where, p)
    ctx.need('P56', sum(n.values()) - n['open'], 20, 'tags')
    ctx.obl['left open'] += n['open']


@rule('P57')
def p57(ctx):
    """Constant propagation of every form in which git names a commit (branches, tags, annotated tags, other branches, commits before them, none) through the name of the current ref."""
    f = ctx.func('repo_patch._Repo', 'currentRefName')
    q = ctx.short(f)
    n = Counter()
    h = 'f00' * 13 + '1'
    forms = {'tags/v1': ('v1', 'tags/v1', 'refs/tags/v1'), 'tags/v1^0': ('v1', 'tags/v1', 'refs/tags/v1'), 'tags/a/b': ('a/b', 'tags/a/b', 'refs/tags/a/b'),
             'tags/a/b^0': ('a/b', 'tags/a/b', 'refs/tags/a/b'), 'remotes/origin/dev': ('remotes/origin/dev', 'origin/dev', 'refs/remotes/origin/dev'),
             'master': (None, 'master'), 'x/y': (None, 'x/y'), 'undefined': (None,)}
    for x in list(forms):
        if x != 'undefined':
            b = x.removesuffix('^0')
            forms.update({b + e: (None,) for e in ('~1', '~12', '^2', '~3^2', '^2~4')})
    forms.update({'tags/v1^0~2': (None,), 'tags/v1^0^2': (None,)})
    for p in ctx.run(f, recv='repo_patch._Repo', raises='none'):
        for detached in (True, False):
            for form, want in sorted(forms.items()) if detached else ((None, ('the branch',)),):
                def look(t):
                    if t[0] == 'attr' and t[2] == 'is_detached':
                        return (detached,)
                    if t[0] == 'attr' and t[2] == 'name_rev':
                        return (f'{h} {form}',)
                    if t[0] == 'attr' and t[2] == 'name' and t[1] in (A(SELF, 'active_branch'), A(A(SELF, 'head'), 'ref'), A(A(SELF, 'head'), 'reference')):
                        return ('the branch',)
                    if t[0] == 'attr' and t[2] == 'hexsha':
                        return (h,)
                if possible(p.facts(), look) is False:
                    continue
                try:
                    got = value(p.val, look) if p.ret else p.kind
                except Fails as e:
                    got = str(e)
                except Open:
                    n['open'] += 1
                    continue
                n['names'] += 1
                ctx.check(got in want, 'the name is one of a ref at the current commit', q, f'{form or "the branch"} gives {got!r}', f.where, p)
    ctx.need('P57', n['names'], 10, 'names of commits')


# -- where remotes are -------------------------------------------------------------------------------------------

def flat(t):
    """items of a sequence put together of known pieces, or None"""
    if t[0] in ('tup', 'list'):
        out = []
        for x in t[1]:
            if x[0] == 'star':
                y = flat(x[1])
                if y is None:
                    return None
                out += y
            else:
                out.append(x)
        return out
    if t[0] == 'call' and t[1] in ('reversed', 'tuple', 'list') and len(t[2]) == 1:
        y = flat(t[2][0])
        return y if y is None or t[1] != 'reversed' else y[::-1]
    if t[0] == 'bin' and t[1] == 'Add':
        a, b = flat(t[2]), flat(t[3])
        return None if a is None or b is None else a + b
    if t[0] == 'slice' and t[2:] == (C(None), C(None), C(-1)):
        y = flat(t[1])
        return y and y[::-1]
    return None


@rule('P58')
def p58(ctx):
    """Every pass over the ancestors of a remote (its own and those of its cache) through the names collected for its parts; where folders are made for the ancestors of a remote and for new remote folders, with the metadata they get."""
    n = Counter()
    R = 'remotes.RemotePath'
    f = ctx.func(R, '_parts_relative_to')
    q = ctx.short(f)
    ROOT = P(f.params()[1]) if hasattr(f, 'params') else P('remote')
    parent = A(SELF, 'parent')
    for p in ctx.run(f, recv=R, raises='none'):
        if not p.ret:
            continue
        got = flat(p.val)
        at_root = [v for a, v in p.facts() if a[0] == 'eq' and {a[1], a[2]} in ({parent, ROOT}, {A(parent, 'id'), A(ROOT, 'id')})]
        stages = [x for x in p.loops() if x[2] in ('first', 'later')]
        elems = {x for a, v in p.facts() for x in subterms(a) if x[0] == 'elem'}
        stopped = any(x[2] == 'break' for x in p.loops())
        stops = set()
        for e in elems:
            stop = [v for a, v in p.facts() if a[0] == 'eq' and {a[1], a[2]} in ({e, ROOT}, {A(e, 'id'), A(ROOT, 'id')}, {A(e, 'id'), ROOT}, {e, A(ROOT, 'id')})]
            stops.update(stop)
            if got is not None and A(e, 'name') in got:
                n['names'] += 1
                ctx.check(False in stop, 'names of the ancestors below the remote', q, f'{show(e)} may be the remote the parts are relative to', f.where, p)
            if any(x[2] == 'later' for x in p.loops()) or got is None:
                continue
            none = any(a in (('isc', e, C(None)), ('eq', e, C(None)), ('is', e, C(None))) and v for a, v in p.facts()) or any(a == truthy(e) and not v for a, v in p.facts())
            want = [A(parent, 'name'), A(SELF, 'name')]
            if not stopped and not none:
                want = [A(e, 'name')] + want
            n['parts'] += 1
            ctx.check(got == want, 'names of the ancestors below the remote', q, f'the parts are {", ".join(map(show, got))}, not {", ".join(map(show, want))}', f.where, p)
        if stopped:
            n['stops'] += 1
            ctx.check(True in stops, 'only the remote itself ends the parts', q, 'the parts end at an ancestor that need not be the remote they are relative to, names are not unique', f.where, p)
        if not elems and got is not None and not stages and at_root:
            n['parts'] += 1
            if at_root[0]:
                ctx.check(got in ([A(SELF, 'name')], [C('')]), 'names of the ancestors below the remote', q, f'the parts of a child are {", ".join(map(show, got))}', f.where, p)
                ctx.check(got != [C('')] or p.holds(eqat(parent, SELF)) is True or p.holds(eqat(SELF, parent)) is True, 'names of the ancestors below the remote', q, 'no parts although it is not its own parent', f.where, p)
            else:
                ctx.check(got == [A(parent, 'name'), A(SELF, 'name')], 'names of the ancestors below the remote', q, f'the parts of a grandchild are {", ".join(map(show, got))}', f.where, p)
    ctx.need('P58', n['parts'], 2, 'parts of remotes')
    f = ctx.func(R, 'parts')
    q = ctx.short(f)
    for p in ctx.run(f, recv=R, raises='none'):
        root = p.holds(eqat(SELF, A(SELF, 'anchor')))
        root = p.holds(eqat(A(SELF, 'anchor'), SELF)) if root is None else root
        ids = {A(SELF, 'id'), A(A(SELF, 'anchor'), 'id')}
        root = next((v for a, v in p.facts() if a[0] == 'eq' and set(a[1:3]) == ids), None) if root is None else root
        if p.ret and root is None:
            for e in p.evs('call', '_parts_relative_to'):
                ctx.check(False, 'the anchor has no parts', q, 'the parts of what may be the anchor are looked for above it', f.where, p)
        if not p.ret or root is None:
            continue
        n['property'] += 1
        if root:
            ctx.check(flat(p.val) == [] or p.val[0] == 'call' and p.val[1] == 'tuple' and not p.val[2], 'the anchor has no parts', q, f'the parts of the anchor are {show(p.val)}', f.where, p)
        else:
            for e in p.evs('call', '_parts_relative_to'):
                ctx.check(e.args[:1] == (A(SELF, 'anchor'),), 'parts are relative to the anchor', q, f'parts are relative to {show(e.args[0]) if e.args else "nothing"}', f.where, p)
    # folders for the ancestors of a remote
    f = ctx.func('core.LocalPath', 'mkdir_cache')
    q = ctx.short(f)
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        for e in p.effects('mkdir'):
            i = p.items.index(e)
            owner = {x for x in subterms(e.target) if x[0] == 'elem'}
            n['ancestors'] += 1
            ctx.check(p.holds(fsat('exists', e.target, e.epoch if hasattr(e, 'epoch') else 0)) is False or any(a[0] == 'fs' and a[2] == e.target and v is False for a, v in p.facts()), 'only missing folders are made', q, f'{show(e.target)} may exist', f.where, p)
            made = [x for x in p.items[i:] if isinstance(x, Event) and x.kind == 'call' and x.args and x.args[0] == e.target]
            ok = [x for x in made if any(v in owner or v[0] == 'attr' and v[1] in owner for k, v in x.kw.items() if not k.startswith('__')) or any(y in owner or y[0] == 'attr' and y[1] in owner for y in x.args[1:])]
            meta = [x for x in made if x.kw.get('meta', NONE)[0] == 'attr' and x.kw['meta'][1] in owner] or [x for x in p.items[i:] if isinstance(x, Event) and x.name == 'cache_init' and x.target == e.target and x.args and x.args[0][0] == 'attr' and x.args[0][1] in owner]
            ctx.check(bool(meta), 'folders get the metadata of the ancestor they stand for', q, f'{show(e.target)} is made without the metadata of {", ".join(map(show, owner))}', f.where, p)
    f = ctx.func('core.LocalPath', 'mkdir_remote')
    q = ctx.short(f)
    for p in ctx.run(f, recv='core.LocalPath', raises='none'):
        for e in p.effects('mkdir'):
            i = p.items.index(e)
            before_ = [x for x in p.items[:i] if isinstance(x, Event) and x.kind == 'call' and x.name == '_mkdir_child']
            n['new'] += 1
            ctx.check(bool(before_), 'the remote folder comes first', q, f'{show(e.target)} is made before the remote has it', f.where, p)
            name = A(e.target, 'name')
            if before_:
                last = before_[-1].args[:1]
                ctx.check(last in ((name,), (A(SELF, 'name'),)) and e.target == SELF or e.target != SELF and e.target[0] in ('div', 'new') and last and last[0] in subterms(e.target), 'the remote folder has the same name', q,
                          f'{show(e.target)} stands for a remote folder called {", ".join(map(show, last))}', f.where, p)
        for x in p.evs('call', 'cache_init'):
            ok = [y for y in p.items[:p.items.index(x)] if isinstance(y, Event) and y.kind == 'call' and y.name == '_mkdir_child']
            ctx.check(bool(ok) and bool(x.args) and x.args[0][0] == 'attr' and x.args[0][2] == 'meta' and '_mkdir_child' in repr(x.args[0]), 'new folders get the metadata of their remote', q,
                      f'{show(x.target)} gets {", ".join(map(show, x.args))}', f.where, p)
        if p.ret and p.val == NONE:
            continue
        if p.ret:
            gone = [v for a, v in p.facts() if a[0] == 'fs' and a[1] == 'exists' and a[2] == A(SELF, 'remote')]
            ctx.check(True not in gone, 'existing remote folders are refused', q, 'goes on although the remote exists', f.where, p)
    ctx.obl['passes'] += sum(n.values())


@rule('P59')
def p59(ctx):
    """Guards of every resolve() in the functions that look at the type of a path, on paths where it is a link to something that is not there."""
    n = 0
    for name in ('mimetype', 'encoding'):
        f = ctx.func('core.AugmentedPath', name)
        q = ctx.short(f)
        for p in ctx.run(f, recv='core.AugmentedPath', raises='none'):
            for e in p.evs('call'):
                if e.name in ('resolve', 'samefile') and e.target == SELF and not e.kw.get('strict'):
                    n += 1
                    a, b = fsat('is_symlink', SELF), fsat('exists', SELF)
                    ctx.check(p.holds(a) is False or p.holds(b) is True, 'links that are not fetched are not resolved', q, 'resolves a link that may be one that is not fetched, which loops', f.where, p)
                if e.name == 'as_uri':
                    n += 1
                    x = e.target
                    while x[0] == 'abs':
                        x = x[1]
                    ok = x != SELF or e.target[0] == 'abs' or any(v for b, v in p.facts() if 'is_absolute' in repr(b)) or any(y.name == 'absolute' for y in p.evs('call')) or any(v is True for b, v in p.facts() if b[0] == 'fs' and b[1] == 'is_symlink')
                    ctx.check(ok, 'uris are made of absolute paths', q, 'the uri of a relative path', f.where, p)
    f = ctx.func('core.AugmentedPath', 'mimetype')
    for p in ctx.run(f, recv='core.AugmentedPath', raises='none'):
        if p.holds(fsat('is_dir', SELF)) is True:
            n += 1
            ctx.check(p.ret and p.val == C('inode/directory'), 'folders are folders', ctx.short(f), f'a folder is {show(p.val)}', f.where, p)
        elif p.ret and p.val == C('inode/directory'):
            ctx.check(False, 'folders are folders', ctx.short(f), 'something else is taken for a folder', f.where, p)
    ctx.need('P59', n, 4, 'uses of a path')


@rule('P61')
def p61(ctx):
    """Constant propagation of pairs of paths (every depth up to three below every common prefix up to two) through the relative path between them; names are opaque, so paths of one shape are one case."""
    import os.path
    from pathlib import PurePosixPath as PP
    n = Counter()
    CLS = 'core.AugmentedPath'
    inline = (CLS + '.commonpath', CLS + '.to_relative', CLS + '.relative_path_from', CLS + '.relative_path_to')

    def lib(look):
        def inner(t):
            v = look(t)
            if v is not None:
                return v
            if t[0] == 'call' and t[1] == 'os.path.commonpath' and len(t[2]) == 1:
                return (os.path.commonpath([str(x) for x in value(t[2][0], inner)]),)
            if t[0] == 'call' and t[1] == 'os.path.relpath' and len(t[2]) == 2:
                return (os.path.relpath(*[str(value(x, inner)) for x in t[2]]),)
            if t[0] == 'new' and t[1] == 'path':
                out = []
                for x in t[2]:
                    if x[0] == 'star':
                        out += value(x[1], inner)
                    elif x[0] != 'c' or isinstance(x[2], str):
                        out.append(value(x, inner))
                return (PP(*out),)
            return None
        return inner
    prefixes = ('/', '/a', '/a/b')
    tails = ('', 'x', 'x/y', 'x/y/z')
    for name, me, you in (('relative_path_from', SELF, P('other')), ('relative_path_to', P('other'), SELF)):
        f = ctx.func(CLS, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=CLS, raises='none', inline=inline, types={'other': CLS}):
            for pre in prefixes:
                for t1 in tails:
                    for t2 in tails:
                        to, start = PP(pre, t1), PP(pre, *('o' + x for x in PP(t2).parts))
                        look = lib(lambda t: (to,) if t == me else (start,) if t == you else None)
                        if possible(p.facts(), look) is False:
                            continue
                        # from a file, as for links, or from a folder that holds it
                        base = start if to == start or start in to.parents else start.parent
                        want = PP(os.path.normpath(to))
                        try:
                            got = value(p.val, look) if p.ret else None
                        except Fails as e:
                            got = None
                            n['fails'] += 1
                        except Open:
                            n['open'] += 1
                            continue
                        n['pairs'] += 1
                        end = None if got is None else PP(os.path.normpath(base / got))
                        ctx.check(got is not None and not got.is_absolute() and end == want, 'the relative path leads there', q, f'from {start} to {to} it is {got}, which leads to {end}', f.where, p)
    ctx.need('P61', n['pairs'], 20, 'pairs of paths')
    ctx.obl['left open'] += n['open']


@rule('P66')
def p66(ctx):
    """Guards of every trashing in a refresh and of every source of metadata of a cache, with the order in which they are asked, on all paths with raised errors."""
    n = Counter()
    CP = 'caches.CachePath'
    f = ctx.func(CP, 'refresh')
    q = ctx.short(f)
    META = A(SELF, 'meta')
    for p in ctx.run(f, recv=CP, raises='try'):
        asked = p.evs('call', 'refresh')
        if any(a[0] in ('isc', 'eq') and a[1] == META and a[2] == NONE and v for a, v in p.facts()):
            n['no metadata'] += 1
            ctx.check(p.rai and p.exc_isa('NoCachedMetadataError') and not asked and not p.evs('call', 'crumple'), 'nothing is refreshed without metadata', q, 'goes on without metadata', f.where, p)
            continue
        if asked:
            knows = excluded(p.st, (META, NONE)) or p.holds(truthy(META)) is True or any(a[0] in ('isc', 'eq', 'is') and a[1] == META and a[2] == NONE and v is False for a, v in p.facts())
            ctx.check(knows, 'nothing is refreshed without metadata', q, 'the remote is asked although there may be no metadata', f.where, p)
        for e in p.evs('call', 'crumple') + [x for x in p.effects() if x.name in ('unlink', 'rename', 'rmtree', 'rmdir')]:
            n['trash'] += 1
            said = [a for a, v in p.facts() if v and a[0] in ('isc', 'is', 'eq') and a[2] == NONE and a[1][0] == 'call' and isinstance(a[1][1], tuple) and a[1][1][2] == 'refresh']
            ctx.check(bool(said), 'only what the remote no longer has is trashed', q, f'{e.name} although the remote did not say that it is gone', f.where, p)
        if p.ret and asked:
            gone = any(v and a[0] in ('isc', 'is', 'eq') and a[2] == NONE and 'refresh' in repr(a[1])[:200] for a, v in p.facts())
            n['told'] += 1
            if gone:
                ctx.check(bool(p.evs('call', 'crumple')), 'what the remote no longer has is trashed', q, 'is left although the remote no longer has it', f.where, p)
            for e in asked:
                for k in ('update_data', 'force', 'size_limit_mb'):
                    v = e.kw.get(k)
                    ctx.check(v == P(k) or k == 'size_limit_mb' and v is not None and contains(v, P(k)), 'the remote is asked for what the caller wants', q, f'{k} is {show(v) if v else "not given"}', f.where, p)
                ctx.check(e.kw.get('update_cache') == TRUE, 'the remote is asked for what the caller wants', q, 'the cache is not updated', f.where, p)
                v = e.kw.get('update_data_on_cache', FALSE)
                for ex, fi in ((True, False), (False, True), (False, False), (True, True)):
                    pairs = (fsat('exists', SELF), ex), (fsat('is_file', SELF), fi)
                    t = truth_under(p.st, v, pairs)
                    if t != 'contradiction' and not excluded(p.st, *pairs):
                        n['on cache'] += 1
                        ctx.check(t is (ex and fi), 'data that is there is kept up to date', q, f'update_data_on_cache is {show(v)}', f.where, p)
                if not gone:
                    ctx.check(p.val == e.result, 'what the remote gives is returned', q, f'returns {show(p.val)}', f.where, p)
    ctx.need('P66', n['trash'] + n['told'], 2, 'refreshes')
    f = ctx.func('caches.PrimaryCache', 'meta')
    q = ctx.short(f)
    for p in ctx.run(f, recv='caches.PrimaryCache', raises='all'):
        ex = p.holds(fsat('exists', SELF))
        ctx.check(not p.rai or not p.exc_isa('NoCachedMetadataError'), 'no metadata is no error', q, 'raises NoCachedMetadataError', f.where, p)
        if p.rai and p.failures and getattr(p.failures[-1][1], 'name', p.failures[-1][1]) in ('_backup_cache', '_not_exists_cache'):
            other = any(a[0] == 'excis' and 'NoCachedMetadataError' in repr(a) and v is False for a, v in p.facts())
            ctx.check(other, 'no metadata is no error', q, 'a source without metadata makes reading fail', f.where, p)
        if not p.ret:
            continue
        # every source is asked as long as there is nothing
        back, link = truthy(A(SELF, '_backup_cache')), truthy(A(SELF, '_not_exists_cache'))
        src = repr(p.val)
        had = p.val != NONE and 'super' in src
        own_no = any(a[0] == 'truthy' and 'super' in repr(a) and v is False for a, v in p.facts()) or any(a[0] in ('isc', 'eq') and 'super' in repr(a[1]) and a[2] == NONE and v for a, v in p.facts())
        if not had and not p.failures:
            n['nothing'] += 1
            if not excluded(p.st, (fsat('exists', SELF), True)):
                ctx.check(own_no, 'metadata is read from where it is kept', q, f'gives {show(p.val)} without looking at the attributes of what exists', f.where, p)
            linked = not excluded(p.st, (fsat('exists', SELF), False), (fsat('is_symlink', SELF), True), (link, True))
            if linked:
                ctx.check('_not_exists_cache' in src, 'metadata is read from where it is kept', q, f'gives {show(p.val)} without looking at the link', f.where, p)
            elif '_backup_cache' not in src:
                asked = [e for e in p.evs('call', '_backup_cache')]
                ctx.check(excluded(p.st, (back, True)) or any(p.holds(truthy(A(e.result, 'meta'))) is False or p.holds(('isc', A(e.result, 'meta'), NONE)) is True for e in asked),
                          'the backup is asked when there is nothing else', q, f'gives {show(p.val)} without asking the backup', f.where, p)
        if p.val == NONE:
            continue
        n['sources'] += 1
        if p.val[0] in ('attr', 'call', 'new', 'param'):
            ctx.check(p.val[2] == 'meta', 'metadata comes from where it is kept', q, f'gives {show(p.val)}', f.where, p)
        if 'super' in src:
            ctx.check(ex is True, 'metadata comes from where it is kept', q, 'reads attributes of something that may not exist', f.where, p)
            some = p.holds(truthy(p.val)) is True or any(a[0] in ('isc', 'eq', 'is') and a[1] == p.val and a[2] == NONE and v is False for a, v in p.facts())
            ctx.check(some, 'the backup is asked when there is nothing else', q, 'gives what may be nothing without looking at the backup', f.where, p)
        elif '_not_exists_cache' in src:
            ctx.check(ex is False and p.holds(fsat('is_symlink', SELF)) is True, 'metadata comes from where it is kept', q, 'reads a link of something that may not be one', f.where, p)
        elif '_backup_cache' in src:
            own_ = [a for a, v in p.facts() if v and a[0] == 'truthy' and 'super' in repr(a)]
            link = [e for e in p.evs('call', '_not_exists_cache')]
            ctx.check(not own_ and not (ex is False and p.holds(fsat('is_symlink', SELF)) is True and p.holds(truthy(A(SELF, '_not_exists_cache'))) is True and not p.handled()), 'the backup comes last', q, 'the backup is asked although there is metadata', f.where, p)
            n['restored'] += 1
            ctx.check(any(e.args[:1] == (p.val,) for e in p.evs('call', '_meta_setter')), 'what is read from the backup is restored', q, 'the metadata of the backup is not put back', f.where, p)
        for e in p.effects():
            ctx.check(False, 'reading metadata changes nothing else', q, f'{e.name} while reading', f.where, p)
    for p in ctx.run(f, recv='caches.PrimaryCache', raises='all'):
        for e in p.evs('call', '_meta_setter'):
            n['writes'] += 1
            ctx.check('_backup_cache' in repr(e.args[:1]), 'only the backup is written back', q, f'writes {", ".join(map(show, e.args))}', f.where, p)
            ctx.check(p.holds(truthy(e.args[0])) is True if e.args else False, 'only metadata is written back', q, 'writes nothing over what is there', f.where, p)
    ctx.need('P66', n['sources'], 2, 'sources of metadata')
