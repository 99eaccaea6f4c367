"""Rules about repositories, packages, zip files and about the package as a whole."""
import ast
import re
from ctx import *
from interp import sources, State
from rules_caches import own, at, logged
from rules_remotes import spec_of

REF, REPO, RPATH, PKG = 'repo_patch._Reference', 'repo.RepoHelper', 'repo.RepoPath', 'package.PackagePath'
NOTHING = C('No local changes to save')


def steps(p, *names):
    """[(index, event, failed)] in order, failing steps included"""
    out = []
    for i, x in enumerate(p.items):
        bad = not isinstance(x, Event) and x[0] == 'raises'
        e = x[1] if bad else x
        if isinstance(e, Event) and e.kind in ('call', 'effect') and e.name in names:
            out.append((i, e, bad))
    return out


def stash_kind(e):
    first = e.args[0] if e.args else e.kw.get('all') and C('--all')
    if not first or not is_const(first):
        return 'push' if not first else '?'
    w = first[2]
    if w in ('pop', 'apply', 'drop', 'clear', 'branch', 'list', 'show', 'store', 'create'):
        return w
    return 'push'


def stash_is_all(e):
    return any(is_const(a) and a[2] in ('--all', '-a') for a in e.args) or e.kw.get('all') == TRUE or e.kw.get('a') == TRUE


def stash_top(e):
    """which entry a pop is for"""
    rest = [a for a in e.args[1:] if not (is_const(a) and str(a[2]).startswith('-'))]
    if not rest:
        return 0
    if is_const(rest[0]):
        t = str(rest[0][2])
        t = t[7:-1] if t.startswith('stash@{') and t.endswith('}') else t
        return int(t) if t.isdigit() else None
    return None


def nothing(st, r):
    """True: the stash command had nothing to do, False: it made an entry, None: not known"""
    return st.holds(eqat(r, NOTHING))


@rule('P33')
def p33(ctx):
    """Order and condition of every git command on every path into and out of the context, with every command able to fail."""
    n = Counter()
    f = ctx.func(REF, '__enter__')
    q = ctx.short(f)
    orig = A(A(SELF, 'repo'), 'active_branch')
    mine = ('stash', 'checkout', 'reset', 'clean', 'switch', 'restore', 'update_index')
    last = lambda p, name: next((e.args[0] for e in reversed(p.evs('store')) if e.name == name and e.target == SELF), None)
    names = set()
    for p in ctx.run(f, recv=REF, raises='all', exc_root='BaseException'):
        n['enter'] += 1
        valid = [e.result for e in p.calls('is_valid') if e.target == SELF]
        ss = steps(p, *mine)
        for i, e, bad in ss:
            ctx.check(any(e.st.holds(truthy(r)) is True for r in valid) or any(p.holds(truthy(r)) is True for r in valid), 'invalid refs are refused first', q, f'{e.name} although the ref may be invalid', e.where, p)
            ctx.check(e.name in ('stash', 'checkout'), 'stash and checkout only', f'{q}: {e.name}', f'runs {e.name}', e.where, p)
        if any(p.holds(truthy(r)) is False for r in valid):
            n['invalid'] += 1
            ctx.check(p.exc == 'InvalidRefError' and not ss, 'invalid refs are refused first', q, f'{p.kind} {show(p.val)}', f.where, p)
            continue
        push = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'push' and not bad]
        pops = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'pop']
        outs = [(i, e, bad) for i, e, bad in ss if e.name == 'checkout']
        others = [e for i, e, bad in ss if e.name == 'stash' and stash_kind(e) not in ('push', 'pop')]
        for e in others:
            ctx.check(False, 'stash and checkout only', f'{q}: stash {stash_kind(e)}', f'stash {stash_kind(e)}', e.where, p)
        for i, e in push:
            n['push'] += 1
            ctx.check(stash_is_all(e), 'everything is stashed', q, f'stashes with {[show(a) for a in e.args]}', e.where, p)
        ctx.check(len(push) <= 1, 'everything is stashed', q, 'stashes more than once', f.where, p)
        res = push[0][1].result if push else None
        eq = eqat(SELF, orig)
        for i, e, bad in outs:
            n['checkout'] += 1
            ctx.check(bool(push) and push[0][0] < i, 'stashed before it switches', q, 'switches before the changes are stashed', e.where, p)
            ctx.check(excluded(p.st, (eq, True)), 'switches only when needed', q, 'switches although the ref may be checked out', e.where, p)
            ctx.check(e.target == SELF or SELF in e.args, 'switches to the ref', q, f'switches to {show(e.target)}', e.where, p)
        for e in p.evs('store'):
            if e.target == SELF and e.args[0] == orig:
                names.add(e.name)
                n['orig'] += 1
        if p.ret:
            n['entered'] += 1
            ctx.check(p.val == SELF, 'enters the ref', q, f'returns {show(p.val)}', f.where, p)
            ctx.check(len(push) == 1 and not pops, 'everything is stashed', q, 'returns without having stashed the changes', f.where, p)
            if push:
                ctx.check(p.holds(eq) is True or len(outs) == 1 and not outs[0][2], 'switches when needed', q, 'the ref may not be checked out', f.where, p)
                kept = [e for e in p.evs('store') if e.target == SELF and e.args[0] in (res, NONE) and e.name not in names]
                last_ = kept[-1].args[0] if kept else None
                none = nothing(p.st, res)
                ctx.check(none is not None and last_ == (NONE if none else res), 'remembers its stash', q, f'keeps {show(last_) if last_ else "nothing"}', f.where, p)
        elif push:
            n['failed'] += 1
            none = nothing(p.st, res)
            repo_gone = any(not isinstance(x, Event) and x[0] == 'raises' and not isinstance(x[1], Event) and i > push[0][0] for i, x in enumerate(p.items))
            if none is True:
                ctx.check(not pops, 'never another stash', q, 'pops although nothing was stashed', f.where, p)
            elif outs or not repo_gone:
                must = p.holds(('isc', res, NONE)) is not True and p.holds(('eq', res, NONE)) is not True
                ctx.check(not must or len(pops) == 1 or repo_gone and not pops, 'restored when it fails', q, 'the changes stay in the stash', f.where, p)
            for i, e in pops:
                n['restored'] += 1
                ctx.check(stash_top(e) == 0, 'never another stash', q, f'pops {[show(a) for a in e.args[1:]]}', e.where, p)
            ctx.check(p.propagated or not p.exc, 'the failure is re-raised', q, f'{p.kind} {show(p.val)}', f.where, p)
    ctx.check(len(names) == 1, 'remembers the branch', q, f'the original branch is kept as {sorted(names)}', f.where)
    # leaving
    f = ctx.func(REF, '__exit__')
    q = ctx.short(f)
    OB = A(SELF, next(iter(names), '__original_branch'))
    for p in ctx.run(f, recv=REF, raises='none'):
        n['exit'] += 1
        ctx.check(p.ret and (p.val in (NONE, FALSE)), 'failures in the context propagate', q, f'{p.kind} {show(p.val)}', f.where, p)
        ss = steps(p, *mine)
        push = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'push']
        pops = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'pop']
        outs = [(i, e) for i, e, bad in ss if e.name == 'checkout']
        for i, e, bad in ss:
            ctx.check(e.name == 'checkout' or e.name == 'stash' and stash_kind(e) in ('push', 'pop'), 'stash and checkout only', f'{q}: {e.name}', f'runs {e.name} {[show(a) for a in e.args[:1]]}', e.where, p)
        if not ctx.check(len(push) == 1 and stash_is_all(push[0][1]), 'stashed before it switches back', q, f'{len(push)} stashes', f.where, p):
            continue
        eq = eqat(SELF, OB)
        kept = [a for a, v in p.facts() if a[0] in ('isc', 'eq') and NONE in a[1:] and a[1][0] == 'attr' and a[1][1] == SELF] + [a for a, v in p.facts() if a[0] == 'truthy' and a[1][0] == 'attr' and a[1][1] == SELF]
        if not ctx.check(bool(kept), 'pops its own stash', q, 'does not ask whether there is a stash', f.where, p):
            continue
        a = kept[-1]
        had = (p.holds(a) is True) == (a[0] == 'truthy')
        none = nothing(p.st, push[0][1].result)
        if had:
            n['had'] += 1
            want = 0 if none is True else 1 if none is False else None
            ctx.check(len(pops) == 1 and stash_top(pops[0][1]) == want and want is not None, 'pops its own stash', q, f'pops {[stash_top(e) for _, e in pops]} where it is {want}', f.where, p)
        else:
            n['none'] += 1
            ctx.check(not pops, 'never another stash', q, 'pops although nothing was stashed on entry', f.where, p)
        if p.holds(eq) is not True:
            n['back'] += 1
            ctx.check(len(outs) == 1 and (outs[0][1].target == OB or OB in outs[0][1].args), 'back on the branch', q, 'does not switch back', f.where, p)
        for i, e in outs:
            ctx.check(push[0][0] < i and all(i < j for j, _ in pops), 'restored on its branch', q, 'the stash is popped before it switches back', e.where, p)
    for x in ('enter', 'invalid', 'push', 'checkout', 'orig', 'entered', 'failed', 'restored', 'exit', 'had', 'none', 'back'):
        ctx.need('P33', n[x], 1, f'instances of {x}')


@rule('P34')
def p34(ctx):
    """Stash entries as a resource: acquired by a push that says it made one, released by exactly one pop on every exit."""
    n = Counter()
    f = ctx.func(REPO, 'commit')
    q = ctx.short(f)
    valid = None
    for p in ctx.run(f, recv=RPATH, raises='all', exc_root='BaseException'):
        n['path'] += 1
        ss = steps(p, 'stash', 'checkout', 'reset', 'clean', 'restore')
        push = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'push' and not bad]
        pops = [(i, e) for i, e, bad in ss if e.name == 'stash' and stash_kind(e) == 'pop']
        takes = [(i, e) for i, e, bad in ss if e.name == 'checkout']
        for i, e, bad in ss:
            ctx.check(e.name == 'checkout' or e.name == 'stash' and stash_kind(e) in ('push', 'pop'), 'no other stash command', f'{q}: {e.name}', f'runs {e.name} {[show(a) for a in e.args[:1]]}', e.where, p)
        commits = [(i, e, bad) for i, e, bad in steps(p, 'commit')]
        entry = bool(push) and nothing(p.st, push[0][1].result) is not True
        known = bool(push) and nothing(p.st, push[0][1].result) is not None
        if push and (commits or takes or pops):
            ctx.check(known, 'asks whether an entry was made', q, 'does not ask whether the stash made an entry', f.where, p)
        # reads of the repo may fail by themselves
        cut = [i for i, x in enumerate(p.items) if not isinstance(x, Event) and x[0] == 'raises' and not isinstance(x[1], Event)]
        if entry and known:
            n['entry'] += 1
            gone_ = any(i > push[0][0] for i in cut)
            ctx.check(len(pops) == 1 or gone_ and not pops, 'one pop for one entry', q, f'{len(pops)} pops', f.where, p)
            for i, e in pops:
                n['pop'] += 1
                ctx.check(stash_top(e) == 0 and i > push[0][0], 'the entry it made', q, f'pops {[show(a) for a in e.args[1:]]}', e.where, p)
                ctx.check(all(j < i for j, _, _ in commits), 'popped after the commit', q, 'the entry is popped before the commit', e.where, p)
        else:
            n['none'] += 1
            ctx.check(not pops and not any('stash@' in repr(e.args) for _, e in takes), 'no entry no stash', q, 'reads or pops a stash it did not make', f.where, p)
        for i, e in takes:
            n['take'] += 1
            ctx.check(e.args[:1] == ('stash@{0}',) or is_const(e.args[0]) and e.args[0][2] in ('stash@{0}', 'stash'), 'the entry it made', q, f'takes {show(e.args[0])}', e.where, p)
            x = spec_of(e.args[-1], e.st)
            if not ctx.check(x is not None, 'the committed path', q, f'{show(e.args[-1])} is a pattern to git', e.where, p):
                continue
            path = x[1][1] if x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][2] == 'as_posix' else x[1] if x[0] == 'strof' else x
            okay = path in (A(SELF, 'repo_relative_path'), A(SELF, 'path_relative_repo')) or path[0] == 'abs' or path[0] == 'call' and path[1] in (('m', SELF, 'absolute'), ('m', SELF, 'resolve'))
            ctx.check(okay and (C('--') in e.args), 'the committed path', q, f'takes {show(x)}, which git looks up in the working directory', e.where, p)
            ctx.check(bool(push) and push[0][0] < i and all(i < j for j, _, _ in commits), 'taken before the commit', q, 'taken after the commit', e.where, p)
        if p.ret:
            n['commit'] += 1
            good = [e for _, e, bad in commits if not bad]
            ctx.check(len(good) == 1 and p.val == good[0].result, 'one commit', q, f'{len(good)} commits, returns {show(p.val)}', f.where, p)
            for e in good:
                ctx.check(e.kw.get('message', e.args[0] if e.args else None) == P('message') and e.kw.get('author_date') == P('date'), 'with message and date', q, f'committed with {sorted(e.kw)}', e.where, p)
            if entry and known:
                ctx.check(bool(takes) or any(i for i in cut), 'the committed path', q, 'commits without the changes of the path', f.where, p)
        elif p.rai:
            n['failed'] += 1
            ctx.check(p.propagated or p.exc == 'ValueError', 'failures propagate', q, f'{p.kind} {show(p.val)}', f.where, p)
        failed = [e for _, e, bad in commits if bad]
        if failed:
            n['commitfail'] += 1
            ctx.check(p.rai, 'failures propagate', q, 'a failing commit is not reported', f.where, p)
    f = ctx.func(REPO, 'commit_from_working_tree')
    for p in ctx.run(f, recv=RPATH, raises='none'):
        n['tree'] += 1
        adds, cs = steps(p, 'add_index'), steps(p, 'commit')
        if ctx.check(len(adds) == 1 and len(cs) == 1 and adds[0][0] < cs[0][0] and p.val == cs[0][1].result, 'added before the commit', ctx.short(f), 'not added to the index before it is committed', f.where, p):
            e = cs[0][1]
            ctx.check(e.kw.get('message', e.args[0] if e.args else None) == P('message') and e.kw.get('date', e.args[1] if len(e.args) > 1 else None) == P('date'), 'with message and date', ctx.short(f), 'message or date are not handed on', e.where, p)
    for x in ('path', 'entry', 'pop', 'none', 'take', 'commit', 'failed', 'commitfail', 'tree'):
        ctx.need('P34', n[x], 1, f'instances of {x}')


@rule('P35')
def p35(ctx):
    """What is known about the enclosing repository at every git command that creates one, what is registered under which key, and which
    parent each step of the search for the working directory looks at."""
    n = Counter()
    RC = A(SELF, '_repo_class')
    REPOS = A(SELF, '_repos')
    f = ctx.func(REPO, 'init')
    q = ctx.short(f)
    RR, WD = A(SELF, 'repo'), A(SELF, 'working_dir')
    for p in ctx.run(f, recv=RPATH, raises='try'):
        n['init'] += 1
        makes = [(i, e) for i, e, bad in steps(p, 'init', 'clone_from', 'clone') if e.target is not None and mentions(e.target, RC)]
        pops = [e for e in p.calls('pop') if e.target == REPOS] + p.evs('delitem')
        notin = any(a[0] == 'excis' and a[2].endswith('NotInRepoError') and v for a, v in p.facts())
        outside = lambda st: notin or st.holds(('isc', RR, NONE)) is True or st.holds(('isc', WD, NONE)) is True
        gone_ = lambda st: any(a[0] == 'fs' and a[1] == 'exists' and a[2] == SELF and not v for a, v in p.facts()) and any(
            a[0] == 'eq' and v and (SELF in a[1:] or ('strof', SELF) in a[1:]) and any(mentions(x, 'working_dir') or x[0] == 'attr' and x[2] == 'working_dir' for x in a[1:]) for a, v in p.facts())
        for e in pops:
            n['stale'] += 1
            ctx.check(gone_(e.st), 'only stale registrations are dropped', q, 'a registration is dropped although the repository may exist', e.where, p)
        for i, e in makes:
            n['make'] += 1
            ctx.check(outside(e.st) or gone_(e.st), 'never inside a repository', q, f'{e.name} although there may be a repository', e.where, p)
            ctx.check(SELF in e.args or SELF in e.kw.values() or any(mentions(a, SELF) for a in e.args), 'at this path', q, f'{e.name} of {[show(a) for a in e.args]}', e.where, p)
            ctx.check((e.name == 'init') == (p.holds(('isc', P('remote'), NONE)) is True), 'cloned when there is a remote', q, f'{e.name} although {"there is" if e.name == "init" else "there may be no"} remote', e.where, p)
        if p.ret:
            n['made'] += 1
            sets = [e for e in p.evs('setitem') if e.target == REPOS]
            if ctx.check(len(makes) == 1 and p.val == makes[0][1].result, 'returns the new repository', q, f'returns {show(p.val)}', f.where, p):
                r = makes[0][1].result
                ok = any(e.args[1] == r and (e.args[0] == A(SELF, 'working_dir') or e.args[0][0] == 'new' and e.args[0][2][:1] == (A(r, 'working_dir'),)) for e in sets)
                ctx.check(ok, 'registered under the working directory', q, f'registered under {[show(e.args[0]) for e in sets]}', f.where, p)
        elif not outside(p.st) and not makes and not p.propagated:
            n['refused'] += 1
            ctx.check(p.exc == 'RepoExistsError', 'never inside a repository', q, f'{p.kind} {show(p.val)}', f.where, p)
    # repo
    f = ctx.func(REPO, 'repo')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RPATH, raises='none'):
        n['repo'] += 1
        sets = [e for e in p.evs('setitem') if e.target == REPOS]
        made = p.calls('_repo_class')
        none = p.holds(('isc', WD, NONE))
        if none is True:
            n['outside'] += 1
            ctx.check(p.exc == 'NotInRepoError', 'outside there is none', q, f'{p.kind} {show(p.val)}', f.where, p)
            continue
        ctx.check(p.ret, 'inside there is one', q, f'{p.kind} {show(p.val)}', f.where, p)
        if made:
            n['opened'] += 1
            e = made[0]
            arg = e.args[0][1] if e.args and e.args[0][0] == 'strof' else e.args[0] if e.args else None
            ctx.check(arg is not None and mentions(arg, WD), 'opened at the working directory', q, f'opened at {show(arg)}', e.where, p)
            ctx.check(any(x.args[0] == WD and x.args[1] == e.result for x in sets), 'registered under the working directory', q, 'an opened repository is not registered', e.where, p)
            ctx.check(p.val == e.result, 'inside there is one', q, f'returns {show(p.val)}', f.where, p)
            ctx.check(excluded(e.st, (('in', WD, REPOS), True)) or any(a[0] == 'isc' and v and 'get' in repr(a) for a, v in p.facts()), 'opened once', q, 'opened although it is registered', e.where, p)
        else:
            n['found'] += 1
            ctx.check(mentions(p.val, REPOS) and mentions(p.val, WD), 'inside there is one', q, f'returns {show(p.val)}', f.where, p)
    # working_dir
    f = ctx.func(REPO, 'working_dir')
    q = ctx.short(f)
    dots = ('in', C('..'), A(SELF, 'parts'))
    git = fsat('exists', ('div', SELF, C('.git')))
    for p in ctx.run(f, recv=RPATH, raises='none', inline=('repo.RepoHelper._no_dotdot',)):
        n['wd'] += 1
        v = p.val
        if not ctx.check(p.ret, 'found or none', q, f'{p.kind} {show(v)}', f.where, p):
            continue
        clean = p.holds(dots) is False
        if v == NONE:
            n['top'] += 1
            # or every parent was looked at in a loop
            cores = {x[3] for x in p.items if not isinstance(x, Event) and x[0] == 'loop' and x[2] in ('end', 'exit')} - {x[3] for x in p.items if not isinstance(x, Event) and x[0] == 'loop' and x[2] == 'break'}
            looked = [a[2] for a, v_ in p.facts() if a[0] == 'fs' and a[1] == 'exists' and not v_ and a[2][0] == 'div' and a[2][2] == C('.git')]
            walked = any('parents' in repr(c) and any(x[1][0] == 'elem' and x[1][1] == c for x in looked) and (
                c[0] in ('tup', 'list') or ('div', c[1], C('.git')) in looked or c[0] == 'attr' and ('div', c[1], C('.git')) in looked) for c in cores)
            if walked and clean:
                continue
            ctx.check(clean and p.holds(eqat(A(SELF, 'anchor'), SELF)) is True or p.holds(eqat(A(SELF, 'anchor'), ('strof', SELF))) is True or p.holds(eqat(SELF, A(SELF, 'parent'))) is True, 'searched to the top', q, 'gives up before the top', f.where, p)
        elif v[0] == 'attr' and v[2] == 'working_dir':
            n['up'] += 1
            b = v[1]
            safe = clean or 'resolve' in repr(b)
            ctx.check(safe, 'the parent of the path', q, f'looks at {show(b)}, which may not be the folder it is in', f.where, p)
            if clean:
                ctx.check(p.can((git, False)), 'the nearest', q, 'goes up although there is a repository', f.where, p)
                base = b
                while base[0] in ('abs', 'call') and base != SELF:
                    base = base[1] if base[0] == 'abs' else base[1][1] if isinstance(base[1], tuple) and base[1][0] == 'm' else SELF
                up = b[0] == 'attr' and b[2] == 'parent' or not excluded(p.st, (truthy(('call', ('m', SELF, 'is_absolute'), ())), False))
                ctx.check(up, 'goes up', q, f'looks at {show(b)} again', f.where, p)
                if b[0] == 'attr' and b[2] == 'parent':
                    ctx.check(p.holds(git) is False, 'the nearest', q, 'goes up although there may be a repository', f.where, p)
        else:
            n['here'] += 1
            ctx.check(clean and (p.holds(git) is True or p.holds(fsat('exists', ('div', v, C('.git')))) is True), 'the folder of the repository', q, f'returns {show(v)} although there may be no repository', f.where, p)
            absolute = any(a[0] == 'truthy' and v2 and mentions(a[1], 'is_absolute') or 'is_absolute' in repr(a) and v2 for a, v2 in p.facts())
            if v[0] == 'elem':
                c = v[1]
                first = c[1][0] if c[0] in ('tup', 'list') and len(c[1]) == 2 else None
                near = c[0] == 'attr' and c[2] == 'parents' or first and c[1][1] == ('star', A(first, 'parents'))
                ctx.check(near, 'the nearest', q, f'looks at {show(c)}', f.where, p)
            ctx.check(v != SELF or absolute, 'absolute', q, 'returns a path that may be relative', f.where, p)
    # removal
    f = ctx.func(RPATH, 'rmtree')
    q = ctx.short(f)
    for p in ctx.run(f, recv=RPATH, raises='none'):
        n['rm'] += 1
        rms = steps(p, 'rmtree')
        pops = [i for i, e, bad in steps(p, 'pop') if e.target == REPOS]
        closes = [i for i, e, bad in steps(p, 'close')]
        ctx.check(len(rms) == 1, 'removed', q, f'{len(rms)} removals', f.where, p)
        absent = p.holds(('in', SELF, REPOS)) is False or any(a[0] == 'isc' and v and mentions(a[1], REPOS) for a, v in p.facts())
        if not absent:
            n['registered'] += 1
            ctx.check(len(pops) == 1 and len(closes) == 1, 'dropped and closed', q, f'{len(pops)} dropped, {len(closes)} closed', f.where, p)
            ctx.check(not rms or all(i < rms[0][0] for i in pops + closes), 'dropped before it is removed', q, 'removed before the registration is dropped', f.where, p)
        for i, e, bad in rms:
            for i_, name in enumerate(('ignore_errors', 'onerror', 'DANGERZONE')):
                ctx.check(e.kw.get(name, e.args[i_] if len(e.args) > i_ else None) == P(name), 'the guards of rmtree stay', f'{q}: {name}', f'{name} is not handed on', e.where, p)
    for x in ('init', 'stale', 'make', 'made', 'refused', 'repo', 'outside', 'opened', 'found', 'wd', 'top', 'up', 'here', 'rm', 'registered'):
        ctx.need('P35', n[x], 1, f'instances of {x}')


@rule('P36')
def p36(ctx):
    """Every path through the reading of a setup file, with every step able to fail: what is restored after it, from a value taken before it; and the
    same for the replaced setuptools entry point."""
    n = Counter()
    f = ctx.func(PKG, 'setupfu')
    q = ctx.short(f)
    for p in ctx.run(f, recv=PKG, raises='all', exc_root='BaseException'):
        n['paths'] += 1
        runs, inside, level, dirs = [], 0, [], []
        for i, x in enumerate(p.items):
            bad = not isinstance(x, Event) and x[0] == 'raises'
            e = x[1] if bad else x
            if not isinstance(e, Event):
                continue
            if e.kind == 'with-enter':
                inside += 1
            elif e.kind == 'with-exit':
                inside -= 1
            elif e.kind == 'call' and e.name not in ('log', 'debug', 'setLevel') and any(mentions(a, A(SELF, 'setup_file')) for a in [*e.args, *e.kw.values()]) and (
                    e.target is None or e.target[0] in ('gval', 'clo', 'func', 'call')):
                runs.append((i, e, inside))
            elif e.name == 'setLevel':
                level.append((i, e))
            elif e.kind == 'effect' and e.name == 'chdir':
                dirs.append((i, e))
        for i, e, depth in runs:
            n['run'] += 1
            back = [(j, d) for j, d in level if j > i]
            if ctx.check(bool(back), 'level restored', q, 'ends without the level of the root logger being restored', e.where, p):
                d = back[-1][1]
                v = d.args[0] if d.args else NONE
                root = d.target is not None and d.target[0] == 'call' and not d.target[2]
                now = any(isinstance(z, ast.Attribute) and z.attr in ('level', 'getEffectiveLevel') for z in ast.walk(d.node)) and not any(
                    isinstance(z, ast.Attribute) and z.attr in ('level',) and isinstance(z.value, ast.Name) and z.value.id == 'self' for z in ast.walk(d.node))
                took = v[0] == 'attr' and v[2] == 'level' or v[0] == 'call' and 'getEffectiveLevel' in repr(v[1])
                ctx.check(root and took and not now, 'level restored', f'{q}: {show(v)}', 'the level set is not the one the root logger had', d.where, p)
            if dirs:
                ctx.check(dirs[-1][0] > i and any(a[0] == 'cwd' for a in [*dirs[-1][1].args, dirs[-1][1].target] if a), 'working directory restored', q, 'ends in another directory', e.where, p)
            else:
                ctx.check(depth > 0, 'working directory restored', q, 'runs outside a folder context', e.where, p)
            n['ok'] += p.ret
        if runs and any(not isinstance(p.items[i], Event) for i, e, d in runs):
            n['failing'] += 1
            ctx.check(p.rai and p.propagated, 'failures propagate', q, 'a failing setup file is not reported', f.where, p)
    # the entry point of setuptools
    from model import Func
    for g in sorted((g for q_, g in ctx.prog.funcs.items() if g.module is f.module), key=lambda g: g.qual):
        inner = [x for x in ast.walk(g.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for x in inner:
            own_ = [y for y in ast.walk(x) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'setup' and isinstance(t.value, ast.Name) and t.value.id == 'setuptools' for t in y.targets)]
            deeper = {id(y) for z in ast.walk(x) if z is not x and isinstance(z, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for y in ast.walk(z)}
            own_ = [y for y in own_ if id(y) not in deeper]
            if not own_:
                continue
            fn = g if x is g.node else Func(f'{g.qual}.{x.name}', x, g.module, outer=g)
            saved = {t.id for y in ast.walk(g.node) if isinstance(y, ast.Assign) and ast.unparse(y.value) == 'setuptools.setup' for t in y.targets if isinstance(t, ast.Name)}
            for p in ctx.run(fn, raises='all', exc_root='BaseException'):
                sets = [e for e in p.evs('store') if e.name == 'setup' and 'setuptools' in repr(e.target)]
                if not sets:
                    continue
                n['patched'] += 1
                v = sets[-1].args[0]
                good = v[0] == 'undef' and v[-1] in saved or v[0] in ('attr', 'ext', 'param') and 'setup' in repr(v) or v[0] == 'ext'
                ctx.check(good and v[0] not in ('clo', 'func', 'lambda'), 'entry point restored', ctx.short(fn), f'setuptools.setup is left as {show(v)}', sets[-1].where, p)
    for x in ('paths', 'run', 'ok', 'failing'):
        ctx.need('P36', n[x], 1, f'instances of {x}')


PHASES = ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local')
UNKNOWN = ('?', '', 'alpha', 'final', 'A', 'rc1', 'patch', 'none')
COMP = {'release': -1, 'major': 0, 'minor': 1, 'micro': 2}
VER = P('ver')


def ver_state(local, post, pre, dev, size):
    st = State()
    heap = dict(st.heap)
    words = [f'r{i}' for i in range(size)] + ['npre', 'npost', 'ndev', 'nlocal']
    for w in words:
        kind = 'str' if w == 'nlocal' else 'int'
        for a, v in ((eqat(P(w), NONE), False), (('isc', P(w), NONE), False), *((('isinst', P(w), ('bi', k)), k == kind) for k in ('tuple', 'str', 'int', 'list'))):
            st = st.assume(a, v) or st
    heap.update({(VER, 'local'): P('nlocal') if local else NONE, (VER, 'post'): P('npost') if post else NONE, (VER, 'dev'): P('ndev') if dev else NONE,
                 (VER, 'pre'): ('tup', (C(pre), P('npre'))) if pre else NONE, (VER, 'release'): ('tup', tuple(P(f'r{i}') for i in range(size)))})
    st.heap = heap
    return st


def number(t):
    """(name or None, offset) of a counter"""
    if is_const(t) and t[1] == 'int':
        return None, t[2]
    if t[0] == 'param':
        return t[1], 0
    if t[0] == 'bin' and t[1] == 'Add' and t[2][0] == 'param' and is_const(t[3]):
        return t[2][1], t[3][2]
    if t[0] == 'bin' and t[1] == 'Add' and t[3][0] == 'param' and is_const(t[2]):
        return t[3][1], t[2][2]
    return None


def cmp_number(a, b):
    """a < b: 1, equal: 0, more: -1, not known: None"""
    a, b = number(a), number(b)
    if a is None or b is None or a[0] != b[0]:
        return None
    return (b[1] > a[1]) - (b[1] < a[1])


def cmp_version(old, new):
    """how the new (release, pre, post, dev, local) compares to the old one"""
    for a, b in zip(old[0], new[0]):
        c = cmp_number(a, b)
        if c != 0:
            return c
    if len(old[0]) != len(new[0]):
        return None

    def key(v):
        rel, pre, post, dev, local = v
        k = []
        if pre is None:
            k.append(('inf', -1 if post is None and dev is not None else 1))
        else:
            k.append(('pre', ('a', 'b', 'rc').index(pre[0]), pre[1]))
        k.append(('inf', -1) if post is None else ('n', post))
        k.append(('inf', 1) if dev is None else ('n', dev))
        k.append(('inf', -1) if local is None else ('n', local))
        return k
    for x, y in zip(key(old), key(new)):
        rx, ry = x[1] if x[0] == 'inf' else 0, y[1] if y[0] == 'inf' else 0
        if rx != ry:
            return 1 if ry > rx else -1
        if x[0] == 'inf':
            continue
        if x[0] == 'pre' and x[1] != y[1]:
            return 1 if y[1] > x[1] else -1
        c = cmp_number(x[-1], y[-1])
        if c != 0:
            return c
    return 0


@rule('P37')
def p37(ctx):
    """Constant propagation of every kind of version (which of local, post, pre, dev it has; 1 to 4 release components, all numbers left open) and every phase
    through the version functions: the set of refused transitions, the fields of the resulting version and how they compare to the old ones."""
    n = Counter()
    f = ctx.func_of('package.next_version')
    q = ctx.short(f)
    sizes = (1, 3) if ctx.tier == 'quick' else (1, 2, 3, 4, 5)

    def run(phase, rel, kind, size):
        return ctx.run(f, raises='none', args={'ver': VER, 'next_phase': C(phase), 'rel_comp': C(rel)}, init=ver_state(*kind, size), dicts=True, unroll=8, inline=('package.*', 'augpathlib.package.*'))

    for kind in ((l, po, pr, d) for l in (0, 1) for po in (0, 1) for pr in (None, 'a', 'b', 'rc') for d in (0, 1)):
        local, post, pre, dev = kind
        state = 'local' if local else 'post' if post else pre if pre else 'dev' if dev else 'release'
        for phase in PHASES + UNKNOWN:
            base = state in ('release', 'post', 'local')
            bumps = phase in ('dev', 'pre') and base or phase in ('a', 'b', 'rc') and state != 'dev'
            for rel in COMP if bumps else ('release',):
                for size in sizes:
                    at_ = COMP[rel] if bumps else COMP.get(phase, -1)
                    if size <= at_:
                        continue
                    n['pairs'] += 1
                    name = f'{q}: {phase} from {state}'
                    refuse = phase in UNKNOWN or phase == 'dev' and state in ('a', 'b', 'rc') or (state, phase) in (('b', 'a'), ('rc', 'a'), ('rc', 'b')) or phase == 'post' and state != 'release'
                    for p in run(phase, rel, kind, size):
                        if refuse:
                            n['refused'] += 1
                            ctx.check(p.exc == 'ValueError', 'refused', name, f'{p.kind} {show(p.val)}', f.where, p)
                            continue
                        if state == 'local' and phase in ('current', 'local'):
                            n['local'] += 1
                            ctx.check(p.rai, 'a local label is not incremented', name, f'{p.kind} {show(p.val)}', f.where, p)
                            continue
                        if not ctx.check(p.ret, 'allowed', name, f'raises {p.exc}', f.where, p):
                            continue
                        made = [e for e in p.calls('_replace')]
                        if not made:
                            continue
                        e = made[-1]
                        n['made'] += 1
                        ends = [s.target for s in p.evs('store') if s.name == '_version' and s.args[0] == e.result]
                        ctx.check(e.target == A(VER, '_version') and any(('strof', t) == p.val[2][0] if p.val[0] == 'new' and len(p.val[2]) == 1 else False for t in ends), 'returns the version made', name, f'returns {show(p.val)}', f.where, p)
                        if phase == 'local':
                            ups = [x for x in p.calls('_asdict') if x.target == A(VER, '_version')]
                            sets = [x for x in p.evs('setitem') if x.args[0] == C('local')]
                            ctx.check(bool(ups) and bool(sets) and sets[-1].args[1] == ('tup', (C(0),)) or e.kw.get('local') == ('tup', (C(0),)), 'local keeps the version', name, 'the version is not kept', f.where, p)
                            continue
                        kw = e.kw
                        try:
                            rel_, pre_, post_, dev_, local_ = kw['release'], kw['pre'], kw['post'], kw['dev'], kw['local']
                            new = (rel_[1], None if pre_ == NONE else (pre_[1][0][2], pre_[1][1]), None if post_ == NONE else post_[1][1], None if dev_ == NONE else dev_[1][1], None if local_ == NONE else local_)
                            tags = post_ == NONE or post_[1][0] == C('post'), dev_ == NONE or dev_[1][0] == C('dev'), pre_ == NONE or pre_[1][0][2] in ('a', 'b', 'rc')
                        except (KeyError, IndexError, TypeError):
                            ctx.check(False, 'well formed', name, f'made of {sorted((k, show(v)) for k, v in kw.items())}', e.where, p)
                            continue
                        old = (tuple(P(f'r{i}') for i in range(size)), (pre, P('npre')) if pre else None, P('npost') if post else None, P('ndev') if dev else None, P('nlocal') if local else None)
                        ctx.check(all(tags) and kw.get('epoch') == A(VER, 'epoch') and len(new[0]) == size, 'well formed', name, f'made of {sorted((k, show(v)) for k, v in kw.items())}', e.where, p)
                        ctx.check(cmp_version(old, new) == 1, 'a greater version', name, f'{sorted((k, show(v)) for k, v in kw.items())} may not be greater', e.where, p)
                        want = {'current': state, 'pre': {'dev': 'a', 'a': 'b', 'b': 'rc', 'rc': 'rc'}.get(state, 'a'), 'major': 'release', 'minor': 'release', 'micro': 'release'}.get(phase, phase)
                        got = 'local' if new[4] else 'post' if new[2] else new[1][0] if new[1] else 'dev' if new[3] else 'release'
                        ctx.check(got == want, 'the phase asked for', name, f'gives {got} where it is {want}', e.where, p)
                        step = at_ if bumps or phase in COMP and not (phase == 'release' and state in ('dev', 'a', 'b', 'rc')) or phase == 'current' and state == 'release' else None
                        i = None if step is None else range(size)[step]
                        for j, (a, b) in enumerate(zip(old[0], new[0])):
                            exp = (a[1], 0) if i is None or j < i else (a[1], 1) if j == i else (None, 0)
                            ctx.check(number(b) == exp, 'the component asked for', name, f'component {j} becomes {show(b)}', e.where, p)
                        for o, b in ((pre and P('npre'), new[1] and new[1][1]), (post and P('npost'), new[2]), (dev and P('ndev'), new[3])):
                            if b:
                                ctx.check(number(b) == ((o[1], 1) if o else (None, 0)), 'counters go up by one', name, f'a counter becomes {show(b)}', e.where, p)
    # a phase that is none of the known ones: every way out is an error
    for p in ctx.run(f, raises='none', args={'ver': VER}, inline=('package.*', 'augpathlib.package.*')):
        if p.ret:
            n['open'] += 1
            PH = P('next_phase')
            ok = any(v and (a[0] == 'eq' and PH in a[1:] or a[0] == 'in' and a[1] == PH) for a, v in p.facts())
            ctx.check(ok, 'unknown phases are refused', q, 'a phase that is none of the known ones is accepted', f.where, p)
    for x in ('pairs', 'refused', 'local'):
        ctx.need('P37', n[x], 1, f'instances of {x}')

ZIP, ZINT = 'zip.ZipPath', 'zip.ZipInternalPath'


@rule('P38')
def p38(ctx):
    """What every path of the questions and reads inside a zip file answers, from which listing, and what happens to every error of the archive."""
    n = Counter()
    ZP, REL = A(SELF, 'zip_path'), (A(SELF, 'zip_relative_path'), A(SELF, 'path_relative_zip'), ('call', ('m', SELF, 'asInternal'), ()))
    isrel = lambda t: t is not None and (t in REL or t[0] == 'call' and t[1] == ('m', SELF, 'asInternal'))
    outside = lambda st: st.holds(('isc', ZP, NONE)) is True or st.holds(eqat(ZP, NONE)) is True or st.holds(truthy(ZP)) is False or any(st.holds(truthy(r)) is False for r in REL[:2]) or any(st.holds(('isc', r, NONE)) is True or st.holds(eqat(r, NONE)) is True for r in REL[:2])
    inside = lambda st: st.holds(('isc', ZP, NONE)) is False or st.holds(eqat(ZP, NONE)) is False or st.holds(truthy(ZP)) is True or any(st.holds(truthy(r)) is True for r in REL[:2]) or any(st.holds(('isc', r, NONE)) is False or st.holds(eqat(r, NONE)) is False for r in REL[:2])
    f = ctx.func(ZIP, 'exists')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZIP, raises='none'):
        n['exists'] += 1
        if not ctx.check(p.ret, 'answers', q, f'{p.kind} {show(p.val)}', f.where, p):
            continue
        v = p.val
        if v in (TRUE, FALSE):
            v = next((('b', a) for a, x in reversed(p.facts()) if a[0] == 'fs' and a[1] == 'exists' and x == (v == TRUE)), v)
        own_ = v[0] == 'b' and v[1][0] == 'fs' and v[1][1] == 'exists'
        if own_ and v[1][2] == SELF:
            n['real'] += 1
            ctx.check(outside(p.st), 'the file system outside', q, 'asks the file system about a path that may be inside a zip file', f.where, p)
        else:
            n['inner'] += 1
            ok = own_ and isrel(v[1][2]) or v[0] == 'b' and v[1][0] == 'in' and isrel(v[1][1])
            ctx.check(ok and inside(p.st), 'the listing inside', q, f'answers {show(v)}', f.where, p)
    # which archive
    f = ctx.func(ZIP, 'zip_path')
    q = ctx.short(f)
    KEPT = [s for s in ('_c_zip_path',)]
    up = A(A(SELF, 'parent'), 'zip_path')
    for p in ctx.run(f, recv=ZIP, raises='all'):
        n['zip_path'] += 1
        looked = [(i, x) for i, x in enumerate(p.items) if isinstance(x, Event) and x.kind == 'call' and x.name.endswith('is_zipfile')]
        isz = [x.result for i, x in looked]
        opened = [(i, x) for i, x in enumerate(p.items) if not isinstance(x, Event) and x[0] == 'raises' and looked and i > looked[-1][0]]
        for a, v in p.facts():
            if a[0] == 'excis' and a[2].endswith('BadZipFile') and v:
                n['bad'] += 1
                ctx.check(p.ret and p.val == up, 'a file that only looks like one', q, f'{p.kind} {show(p.val)} for a file that is no archive', f.where, p)
        if p.rai and opened:
            safe = any(a[0] == 'excis' and a[2].endswith('BadZipFile') and not v for a, v in p.facts())
            ctx.check(safe, 'a file that only looks like one', q, 'the error of a file that is no archive is not handled', f.where, p)
        if not p.ret:
            if looked or opened or not p.propagated:
                ctx.check(p.propagated, 'answers', q, f'raises {p.exc}', f.where, p)
            continue
        last = [e.args[0] for e in p.evs('store') if e.target == SELF and e.name not in ('_',)]
        if p.val == SELF:
            n['self'] += 1
            ctx.check(any(p.holds(truthy(r)) is True for r in isz), 'only archives', q, 'a file that is no archive', f.where, p)
        elif p.val == up:
            n['up'] += 1
            ctx.check(any(p.holds(truthy(r)) is False for r in isz) or any(a[0] == 'excis' and a[2].endswith('BadZipFile') and v for a, v in p.facts()), 'archives are found', q, 'an archive is passed over', f.where, p)
        elif p.val == NONE:
            n['top'] += 1
            ctx.check(p.holds(eqat(A(SELF, 'parent'), SELF)) is True or p.holds(('isc', up, NONE)) is True or p.holds(eqat(up, NONE)) is True, 'archives are found', q, 'gives up before the top', f.where, p)
        else:
            n['kept'] += 1
            ctx.check(p.val[0] == 'attr' and p.val[1] == SELF and not last and excluded(p.st, (('hasattr', SELF, p.val[2]), False)), 'answers', q, f'returns {show(p.val)}', f.where, p)
        if last:
            ctx.check(last[-1] == p.val, 'remembers its answer', q, f'remembers {show(last[-1])} and returns {show(p.val)}', f.where, p)
    ctx.check(n['bad'] > 0, 'a file that only looks like one', q, 'the error of a file that is no archive is not handled', f.where)
    # the inner path
    f = ctx.func(ZIP, 'zip_relative_path')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZIP, raises='none'):
        n['rel'] += 1
        if p.ret and p.val == NONE:
            ctx.check(outside(p.st), 'the path in the archive', q, 'there is none although the path may be in an archive', f.where, p)
        elif p.ret and p.val[0] == 'call':
            n['relmade'] += 1
            arg = p.val[2][0] if p.val[2] else NONE
            ok = arg[0] == 'call' and arg[1] == ('m', SELF, 'relative_to') and arg[2] == (ZP,) and mentions(p.val[1], SELF)
            ctx.check(ok, 'the path in the archive', q, f'is {show(p.val)}', f.where, p)
        else:
            ctx.check(p.ret and p.val[0] == 'attr' and p.val[1] == SELF, 'the path in the archive', q, f'{p.kind} {show(p.val)}', f.where, p)
    f = ctx.func(ZIP, 'open')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZIP, raises='none'):
        n['zopen'] += 1
        es = [e for e in p.items if isinstance(e, Event) and e.name in ('open', 'open-w', 'open-r')]
        for e in es:
            star = any(a[0] == 'star' for a in e.args) and '**' in e.kw
            ctx.check(isrel(e.target) and inside(p.st) or e.target is not None and e.target[0] != 'attr' and outside(p.st), 'opened where it is', q, f'opens {show(e.target)}', e.where, p)
            ctx.check(star, 'opened as asked', q, 'the mode is not handed on', e.where, p)
        ctx.check(p.ret and len(es) == 1, 'opened where it is', q, f'{p.kind}, {len(es)} opened', f.where, p)
    f = ctx.func(ZIP, 'rchildren')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZIP, raises='none'):
        n['rchildren'] += 1
        for e in p.evs('yield'):
            v = e.args[0] if e.args else NONE
            if mentions(v, ZP) or any(mentions(v, r) for r in REL[:2]):
                n['inner child'] += 1
                want = lambda t: t[0] == 'div' and t[1] == ZP and t[2][0] == 'elem' and t[2][1][0] == 'attr' and isrel(t[2][1][1])
                genx = v[0] == 'comp' and v[2][0] == 'div' and v[2][1] == ZP
                ctx.check((want(v) or genx) and inside(e.st), 'children inside', q, f'yields {show(v)}', e.where, p)
            else:
                ctx.check(outside(e.st), 'children inside', q, f'yields {show(v)} inside a zip file', e.where, p)
        for x in p.items:
            if not isinstance(x, Event) and x[0] == 'loop' and x[2] == 'break':
                ctx.check(False, 'children inside', q, 'some children are skipped', f.where, p)
    # inside
    f = ctx.func(ZINT, 'exists')
    q = ctx.short(f)
    member = ('in', SELF, A(SELF, '_paths'))
    for p in ctx.run(f, recv=ZINT, raises='none'):
        n['iexists'] += 1
        v = p.val
        ok = v == ('b', member) or v in (TRUE, FALSE) and p.holds(member) is (v == TRUE)
        ctx.check(p.ret and ok, 'the listing inside', q, f'{p.kind} {show(v)}', f.where, p)
    f = ctx.func(ZINT, 'is_dir')
    q = ctx.short(f)
    known = lambda st: True if st.holds(fsat('exists', SELF)) is True or st.holds(member) is True else False if st.holds(fsat('exists', SELF)) is False or st.holds(member) is False else None
    ZI = A(SELF, '_zi')
    for p in ctx.run(f, recv=ZINT, raises='none'):
        n['idir'] += 1
        v, there = p.val, known(p.st)
        zi = p.holds(('hasattr', SELF, '_zi'))
        if p.holds(('isc', ZI, NONE)) is True or p.holds(eqat(ZI, NONE)) is True:
            zi = False
        if v == FALSE:
            ok = there is False or p.holds(fsat('is_dir', ZI)) is False
        elif v == TRUE:
            ok = there is True and (zi is False or p.holds(fsat('is_dir', ZI)) is True)
        elif v[0] == 'b' and v[1][0] == 'fs' and v[1][1] == 'exists':
            ok = zi is False
        elif v == ('b', member):
            ok = zi is False
        else:
            ok = v == ('b', fsat('is_dir', ZI)) and there is True and zi is not False
        ctx.check(p.ret and ok, 'folders inside', q, f'{p.kind} {show(v)}', f.where, p)
    f = ctx.func(ZINT, 'open')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZINT, raises='none', inline=('zip.ZipInternalPath.exists',)):
        n['iopen'] += 1
        there = known(p.st)
        folder = p.holds(fsat('is_dir', SELF))
        es = [e for e in p.items if isinstance(e, Event) and e.name in ('open', 'open-w', 'open-r')]
        if there is False:
            n['missing'] += 1
            ctx.check(p.exc == 'FileNotFoundError' and not es, 'missing members are refused', q, f'{p.kind} {show(p.val)}', f.where, p)
        elif folder is True:
            n['folder'] += 1
            ctx.check(p.exc == 'IsADirectoryError' and not es, 'folders are refused', q, f'{p.kind} {show(p.val)}', f.where, p)
        else:
            n['opened'] += 1
            ctx.check(there is True and folder is False, 'only members are opened', q, 'opens what may be missing or a folder', f.where, p)
            ok = len(es) == 1 and es[0].target == A(SELF, 'zip_file') and es[0].args[:1] == (ZI,)
            ctx.check(p.ret and ok and p.val[0] == 'file' and p.val[1:3] == (A(SELF, 'zip_file'), ZI), 'opens the member', q, f'{p.kind} {show(p.val)}', f.where, p)
    f = ctx.func(ZINT, 'data')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZINT, raises='all'):
        n['data'] += 1
        ent = [e for e in p.evs('with-enter')]
        ext = [e for e in p.evs('with-exit')]
        opens = [e for e in p.calls('open') if e.target == SELF]
        closes = steps(p, 'close')
        if p.rai and not opens:
            continue
        ctx.check(len(opens) == 1 and (len(ent) == len(ext) == 1 and ent[0].target == opens[0].result or len(closes) == 1), 'closed on every way out', q, 'the member may stay open', f.where, p)
        pend, given = None, 0
        it = None
        for x in p.items:
            if isinstance(x, Event) and x.kind == 'call' and x.name == 'read':
                ctx.check(pend is None or given == 1, 'chunks once, in order', q, 'a chunk is not handed on', x.where, p)
                ctx.check(opens and mentions(x.target, opens[0].result), 'reads the member', q, f'reads {show(x.target)}', x.where, p)
                pend, given = x, 0
            elif isinstance(x, Event) and x.kind == 'yield':
                n['chunk'] += 1
                v = x.args[0] if x.args else NONE
                its = v[1] if v[0] == 'elem' else v if x.name == 'yieldfrom' else None
                if its is not None and its[0] == 'call' and its[1] == 'iter' and len(its[2]) == 2:
                    it = its
                    ctx.check(its[2][1] == C(b''), 'until end of file', q, f'stops at {show(its[2][1])}', x.where, p)
                    continue
                given += 1
                ctx.check(pend is not None and (v == pend.result or v[0] == 'havoc' and pend.result in sources(v)) and given == 1, 'chunks once, in order', q, f'hands on {show(v)}', x.where, p)
        if p.ret:
            n['whole'] += 1
            end = pend is not None and any(a[0] == 'truthy' and not v and (a[1] == pend.result or a[1][0] == 'havoc' and pend.result in sources(a[1])) for a, v in p.facts())
            its = it is not None or any(x[3] is not None and x[3][0] == 'call' and x[3][1] == 'iter' for x in p.loops())
            ctx.check(end or its, 'until end of file', q, 'stops before the end of the file', f.where, p)
    # the listing
    f = ctx.func(ZINT, '_new')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ZINT, raises='none'):
        n['new'] += 1
        text = repr([(e.name, e.args, e.kw) if isinstance(e, Event) else e for e in p.items]) + repr(p.val)
        ctx.check(any(w in text for w in ("'filelist'", 'infolist', 'namelist')), 'the whole listing', q, 'the members are not listed', f.where, p)
        n['parents'] += "'parents'" in text
        ctx.check("('c', 'str', '.')" in text, 'the whole listing', q, 'the archive itself is not listed', f.where, p)
    ctx.check(n['parents'] > 0, 'the whole listing', q, 'the folders of the members are not listed', f.where)
    for x in ('exists', 'real', 'inner', 'zip_path', 'self', 'up', 'top', 'rel', 'relmade', 'zopen', 'rchildren', 'inner child', 'iexists', 'idir', 'iopen', 'missing', 'folder', 'opened', 'data', 'chunk', 'whole', 'new'):
        ctx.need('P38', n[x], 1, f'instances of {x}')


# -- P47 ------------------------------------------------------------------------------------------------------
def option_facts(p, x):
    """what a path knows about one machine id file: {'exists'|'access'|'size': good or not}"""
    out = {}
    for a, v in p.facts():
        if not contains(a, x) and not contains(a, pid(x)):
            continue
        if a[0] == 'fs':
            if a[1] in ('exists', 'is_file'):
                out['exists'] = v
            continue
        if any(t[0] == 'attr' and t[2] == 'st_size' or t[0] == 'call' and (t[1] == 'os.path.getsize' or isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'size') for t in subterms(a)):
            if a[0] == 'lt' and a[1] == C(0) or a[0] == 'lt' and a[2] == C(1):
                out['size'] = v if a[1] == C(0) else not v
            elif a[0] == 'eq':
                out['size'] = not v
            elif a[0] == 'truthy':
                out['size'] = v
        elif any(t[0] == 'call' and (t[1] == 'os.access' or isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'access') and any(contains(y, C(4)) for y in t[2]) for t in subterms(a)):
            out['access'] = v if a[0] == 'truthy' else v
    return out


@rule('P47', configs=('linux-py3.12', 'darwin-py3.12'))
def p47(ctx):
    """Paths of the binding (stores on the class) and of the search for the machine id file (facts established about each candidate, writes)."""
    n = Counter()
    f = ctx.func_of('utils._bind_sysid_')
    q = ctx.short(f)
    k = P(f.node.args.args[0].arg)
    unset = ('is', A(k, 'sysid'), NONE)
    for p in ctx.run(f, raises='none', opaque=('utils._raw_id',)):
        st = [e for e in p.evs('store')]
        bound = next((v for a, v in p.facts() if a[0] in ('is', 'isc', 'eq') and contains(a, A(k, 'sysid')) and NONE in a), None)
        if bound is None:
            bound = next((not v for a, v in p.facts() if a == truthy(A(k, 'sysid'))), None)
        ctx.check(bound is not None, 'bound once', q, 'the present sysid is not looked at', f.where, p)
        if bound is None:
            continue
        if bound is False:
            n['again'] += 1
            ctx.check(p.exc == 'ValueError' and not st, 'bound once', q, f'a second binding {p.kind}s {show(p.val)}, stores {[e.name for e in st]}', f.where, p)
        else:
            n['first'] += 1
            ok = p.ret and [e.name for e in st] == ['sysid'] and st[0].target == k and any(
                t[0] == 'call' and (t[1] == 'augpathlib.utils._raw_id' or str(t[1]).endswith('_raw_id') or isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'checksum') for t in subterms(st[0].args[0]))
            ctx.check(ok, 'the machine id is bound', q, f'{p.kind}, stores {[(e.name, show(e.args[0])) for e in st]}', f.where, p)
    ctx.need('bound once', n['again'], 1, 'second bindings')
    ctx.need('bound once', n['first'], 1, 'first bindings')

    f = ctx.func_of('utils.sysidpath')
    q = ctx.short(f)
    for p in ctx.run(f, raises='none', unroll=4):
        wr = [e for e in p.muts() if e.name not in ('mkdir',)]
        cands = {}
        for t in [x for a, v in p.facts() for x in subterms(a)] + [y for e in p.evs() for y in (e.target, *e.args) if y is not None for y in subterms(y)] + (list(subterms(p.val)) if p.ret else []):
            for name in ('/etc/machine-id', '/var/tmp/machine-id'):
                if t[0] in ('call', 'new') and len(t) > 2 and t[2] == (C(name),):
                    cands[name] = t
        usable = {x: option_facts(p, t) for x, t in cands.items()}
        good = lambda x: usable.get(x) == {'exists': True, 'access': True, 'size': True}
        ignored = p.holds(truthy(P(f.node.args.args[0].arg)))
        if p.ret:
            where = next((x for x, t in cands.items() if same(p.val, t)), None)
            ctx.check(where is not None, 'a machine id file is answered', q, f'answers {show(p.val)}', f.where, p)
            if where is None:
                continue
            n['answers'] += 1
            written = any(e.target is not None and same(e.target, cands[where]) for e in wr)
            ctx.check(good(where) or written, 'only a usable file is answered', q, f'answers {where} knowing only {usable.get(where)}', f.where, p)
        for e in wr:
            n['writes'] += 1
            x = next((x for x, t in cands.items() if e.target is not None and same(e.target, t)), None)
            ctx.check(x == '/var/tmp/machine-id', 'only the fallback is written', q, f'writes {show(e.target)}', e.where, p)
            ctx.check(ignored is True or all(False in usable.get(y, {}).values() for y in ('/etc/machine-id', '/var/tmp/machine-id')), 'a usable file is not overwritten', q,
                      f'writes although {usable}', e.where, p)
    ctx.need('only a usable file is answered', n['answers'], 1, 'answers')
    ctx.need('a usable file is not overwritten', n['writes'], 1, 'writes')


# -- P49 ------------------------------------------------------------------------------------------------------
STAT_FIELDS = {  # attribute: (directive that carries it, directive that may refine it, kind)
    'name': ('n', None, str), 'st_ino': ('i', None, int), 'st_blksize': ('o', None, int), 'st_size': ('s', None, int),
    'st_atime': ('X', 'x', float), 'st_mtime': ('Y', 'y', float), 'st_ctime': ('Z', 'z', float), 'st_birthtime': ('W', 'w', float),
    'st_gid': ('g', None, int), 'st_uid': ('u', None, int), 'st_mode': ('f', None, 'hex')}
SPLITS = ('split', 'rsplit')


def sref(t):
    """('split'|'rsplit', base, separator, maxsplit) of a call term"""
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in SPLITS:
        args = [x for x in t[2] if not (isinstance(x, tuple) and x and x[0] == 'kw')]
        kw = {x[1][2] if isinstance(x[1], tuple) else x[1]: x[2] for x in t[2] if isinstance(x, tuple) and x and x[0] == 'kw'}
        sep = args[0] if args else kw.get('sep', NONE)
        mx = args[1] if len(args) > 1 else kw.get('maxsplit')
        if is_const(sep) and (mx is None or is_const(mx)):
            return t[1][2], t[1][1], sep[2], None if mx is None or mx[2] < 0 else mx[2]


def whole_record(t, rec):
    """t is the record itself, decoded or stripped of its line end"""
    while t != rec:
        if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in ('decode', 'strip', 'rstrip'):
            t = t[1][1]
        else:
            return False
    return True


def field_at(t, rec, sep, n):
    """the number of the field of the record t is (counted from the left), 'bad' if that depends on the file name, None if t is no field"""
    def cut(b):
        """(number of the first field, number of the last) of a list of fields; None when it depends on the name"""
        s = sref(b)
        if s and whole_record(s[1], rec):
            if s[2] == sep and s[0] == 'rsplit' and s[3] == n - 1:
                return 0, True
            if s[2] == sep and (s[3] is None or s[0] == 'rsplit' and s[3] > n - 1):
                return None, True
            return None, False
        if b[0] == 'slice' and len(b) >= 4:
            r = cut(b[1])
            if r is None or not r[1]:
                return r
            lo, hi = b[2], b[3]
            if hi not in (None, NONE):
                return None, False
            if is_const(lo) and isinstance(lo[2], int) and lo[2] < 0:
                return n + lo[2], True
            if is_const(lo) and isinstance(lo[2], int) and r[0] is not None:
                return r[0] + lo[2], True
            return None, False
        return None
    if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] in ('strip', 'rstrip', 'lstrip') and t[1][1][0] == 'item':
        t = t[1][1]
    if t[0] != 'item' or not is_const(t[2]) or not isinstance(t[2][2], int):
        return None
    if t[1][0] == 'bin' and t[1][1] == 'Add' and t[1][2][0] in ('list', 'tup') and t[2][2] >= len(t[1][2][1]) and not any(x[0] == 'star' for x in t[1][2][1]):
        t = ('item', t[1][3], C(t[2][2] - len(t[1][2][1])))
    c = cut(t[1])
    if c is None:
        return None
    first, right = c
    i = t[2][2]
    if i < 0 and right:
        return n + i
    return 'bad' if first is None else first + i


@rule('P49')
def p49(ctx):
    """The directives of the format string, in order, against the field every stored attribute is made from (followed through the paths of the constructor)."""
    n = Counter()
    cls = ctx.prog.cls('utils.StatResult')
    f = ctx.func('utils.StatResult', '__init__')
    q = ctx.short(f)
    fmt = const_text(cls, 'stat_format')
    where = f.where
    ctx.check(fmt is not None, 'the format is known', q, 'the format string is not a constant', where)
    if fmt is None:
        return
    fmt = fmt.strip('"\'\\n')
    dirs = list(re.finditer(r'%[-+ #0\']*\d*(\.\d*)?([A-Za-z])', fmt))
    seps = {fmt[a.end():b.start()] for a, b in zip(dirs, dirs[1:])}
    ctx.check(len(seps) == 1 and dirs and dirs[0].start() == 0 and dirs[-1].end() == len(fmt), 'one separator', q, f'the fields are separated by {sorted(seps)}', where)
    order = [d.group(2) for d in dirs]
    exact = {d.group(2) for d in dirs if d.group(1)}
    if len(seps) != 1:
        return
    sep = seps.pop()
    ctx.check(order and order[0] == 'n' and len(set(order)) == len(order), 'the name comes first', q, f'fields {order}', where)
    rec = P(f.node.args.args[1].arg)
    for p in ctx.run(f, recv='utils.StatResult', raises='none'):
        n['path'] += 1
        held = {}
        for e in p.evs('store'):
            if e.target == SELF:
                held[e.name] = e
        for name, (need, extra, kind) in STAT_FIELDS.items():
            if name not in held:
                ok = name == 'st_birthtime'
                if ok:
                    n['unknown'] += 1
                    ok = birth_unknown(p, rec, sep, order) is not False
                ctx.check(ok, 'every field is held', q, f'{name} is not set' if name != 'st_birthtime' else 'a known birth time is not held', where, p)
                continue
            e = held[name]
            v = e.args[0]
            n[name] += 1
            if name == 'name':
                ok = field_at(v, rec, sep, len(order)) == 0 or joined_name(v, rec, sep, len(order))
                ctx.check(ok, 'the name is what is left of the other fields', q, f'{name} is {show(v)[:160]}', e.where, p)
                continue
            got = [field_at(t, rec, sep, len(order)) for t in subterms(v)]
            got = [x for x in got if x is not None]
            ctx.check('bad' not in got, 'fields are counted from the right', q, f'{name} depends on the name of the file: {show(v)[:160]}', e.where, p)
            got = {order[x] for x in got if x != 'bad' and 0 <= x < len(order)}
            ctx.check(need in got and got <= {need, extra}, 'every attribute holds its own field', q,
                      f'{name} is made from {sorted("%" + x for x in got)} and not from %{need}', e.where, p)
            if extra and extra in order and need not in exact:
                ctx.check(extra in got, 'fractions are kept', q, f'{name} drops the fraction of a second', e.where, p)
            if extra and extra in got:
                joined = [t for t in subterms(v) if t[0] == 'bin' and t[1] == 'Add' and not (numeric(t[2]) and numeric(t[3])) or t[0] in ('fstr', 'join')]
                ctx.check(not any(len({order[x] for y in subterms(t) for x in [field_at(y, rec, sep, len(order))] if x not in (None, 'bad')}) > 1 for t in joined),
                          'fractions count up', q, f'{name} is read from its text with the fraction behind it, which is later than it before 1970', e.where, p)
                less = [t for t in subterms(v) if t[0] == 'bin' and t[1] == 'Sub' and any(field_at(y, rec, sep, len(order)) == order.index(extra) for y in subterms(t[3]))]
                ctx.check(not less, 'fractions count up', f'{q}: less', f'the fraction is taken from {name}', e.where, p)
            ctx.check(number_kind(v, kind), 'numbers of the right kind', q, f'{name} is {show(v)[:160]}', e.where, p)
            if name == 'st_birthtime':
                ctx.check(birth_unknown(p, rec, sep, order) is False, 'an unknown birth time is not held', q, 'a birth time is set that is not known', e.where, p)
    for x in ('path', 'unknown', 'st_birthtime', 'name', 'st_mode'):
        ctx.need('every field is held', n[x], 1, f'instances of {x}')


def const_text(cls, name):
    """the constant string a class attribute is bound to"""
    for node in cls.node.body:
        tg = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, ast.AnnAssign) and node.value else []
        if any(isinstance(t, ast.Name) and t.id == name for t in tg):
            return text_of(node.value, cls)


def text_of(v, cls):
    if isinstance(v, ast.Constant) and isinstance(v.value, str):
        return v.value
    if isinstance(v, ast.JoinedStr):
        parts = [text_of(x.value if isinstance(x, ast.FormattedValue) else x, cls) for x in v.values]
        return None if None in parts else ''.join(parts)
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        a, b = text_of(v.left, cls), text_of(v.right, cls)
        return None if a is None or b is None else a + b
    if isinstance(v, ast.Name):
        return const_text(cls, v.id)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'join' and len(v.args) == 1 and isinstance(v.args[0], (ast.Tuple, ast.List)):
        s, parts = text_of(v.func.value, cls), [text_of(x, cls) for x in v.args[0].elts]
        return None if s is None or None in parts else s.join(parts)


def joined_name(v, rec, sep, n):
    """sep.join(record.split(sep)[:-(n - 1)])"""
    if v[0] == 'item' and v[2] == C(0) and v[1][0] == 'bin' and v[1][1] == 'Add' and v[1][2][0] in ('list', 'tup') and v[1][2][1]:
        v = v[1][2][1][0]
    if v[0] == 'call' and v[1] == ('m', C(sep), 'join') and len(v[2]) == 1:
        x = v[2][0]
        if x[0] == 'slice' and x[2] in (None, NONE, C(0)) and x[3] == C(1 - n):
            s = sref(x[1])
            return bool(s and whole_record(s[1], rec) and s[2] == sep and s[3] is None)
    return False


def numeric(t):
    """a number for certain"""
    if is_const(t):
        return isinstance(t[2], (int, float))
    return (t[0] == 'len' or t[0] == 'div' and numeric(t[1]) or t[0] == 'call' and t[1] in ('int', 'float', 'abs', 'round')
            or t[0] == 'bin' and (t[1] in ('Sub', 'Div', 'FloorDiv', 'Pow') or numeric(t[2]) and numeric(t[3])))


def number_kind(v, kind):
    if kind is int:
        return v[0] == 'call' and v[1] == 'int' and (len(v[2]) == 1 or v[2][1] == C(10))
    if kind is float:
        return any(t[0] == 'call' and t[1] == 'float' or t[0] == 'div' and numeric(t[1]) for t in subterms(v)) and not any(t[0] == 'call' and t[1] == 'int' and v == t for t in subterms(v))
    if v[0] == 'call' and v[1] == 'int' and len(v[2]) == 2:
        return v[2][1] == C(16)
    return v[0] == 'call' and v[1] == ('m', ('bi', 'int'), 'from_bytes') and contains(v, C('big')) and any(
        t[0] == 'call' and t[1] == ('m', ('bi', 'bytes'), 'fromhex') for t in subterms(v))


def birth_unknown(p, rec, sep, order):
    """True: the path knows the birth time is unknown, False: that it is known, None: it did not look"""
    seen = {}
    for a, v in p.facts():
        if a[0] == 'eq':
            for x, c in ((a[1], a[2]), (a[2], a[1])):
                at_ = field_at(x, rec, sep, len(order))
                if at_ not in (None, 'bad') and is_const(c) and 0 <= at_ < len(order):
                    if order[at_] == 'w' and c[2] == '-' or order[at_] == 'W' and c[2] in ('0', '-'):
                        seen[order[at_]] = seen.get(order[at_]) or v
                elif is_const(c) and c[2] in (0, '0', '-') and any(field_at(t, rec, sep, len(order)) not in (None, 'bad') for t in subterms(x)):
                    k = {order[field_at(t, rec, sep, len(order))] for t in subterms(x) if field_at(t, rec, sep, len(order)) not in (None, 'bad')}
                    for w in k & {'w', 'W'}:
                        seen[w] = seen.get(w) or v
    if True in seen.values():
        return True
    return False if seen else None


# -- P50 ------------------------------------------------------------------------------------------------------
ETAG = 'utils.etag'
INPLACE = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'write', 'popleft', 'appendleft')


def filled(p, x):
    """what a path knows about x not being empty"""
    for a, v in p.facts():
        if a == truthy(x) or a == truthy(('len', x)):
            return v
        if a[0] == 'eq' and x in (a[1], a[2]) and (C(b'') in (a[1], a[2])):
            return not v
        if a[0] == 'eq' and ('len', x) in (a[1], a[2]) and C(0) in (a[1], a[2]):
            return not v
        if a[0] == 'lt' and a[2] == ('len', x) and a[1] == C(0):
            return v
        if a[0] == 'lt' and a[1] == ('len', x) and a[2] == C(1):
            return not v
    return None


def is_cypher(t):
    return t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'cypher' or t[0] == 'call' and t[1] in ('hashlib.md5', 'hashlib.new')


def digest_of(t):
    return t[1][1] if t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'digest' else None


def fed(p, m, upto):
    """what a fresh cypher was given before item upto"""
    out = [x for x in m[2] if isinstance(x, tuple) and x[0] != 'kw'] if m[0] == 'call' else []
    for x in p.items[:upto]:
        if isinstance(x, Event) and x.kind == 'call' and x.name == 'update' and x.target == m:
            out += list(x.args)
    return out


def members(p, t, upto=None):
    """the members of a list of digests: 'parts' stands for those the etag holds"""
    upto = len(p.items) if upto is None else upto
    if t[0] == 'attr' and t[1] == SELF:
        base = [t[2]]
    elif t[0] == 'call' and t[1] in ('list', 'tuple') and len(t[2]) >= 1:
        base = members(p, t[2][0], upto)
    elif t[0] == 'call' and isinstance(t[1], tuple) and t[1][0] == 'm' and t[1][2] == 'copy':
        base = members(p, t[1][1], upto)
    elif t[0] == 'slice' and t[2] in (None, NONE) and t[3] in (None, NONE):
        base = members(p, t[1], upto)
    elif t[0] == 'bin' and t[1] == 'Add':
        a, b = members(p, t[2], upto), members(p, t[3], upto)
        return None if a is None or b is None else a + b
    elif t[0] in ('tup', 'list'):
        base = []
        for x in t[1]:
            m = members(p, x[1], upto) if x[0] == 'star' else [x]
            if m is None:
                return None
            base += m
        return base
    else:
        return None
    if base is None:
        return None
    for x in p.items[:upto]:
        if isinstance(x, Event) and x.kind == 'call' and x.target == t and t[0] != 'attr':
            if x.name == 'append':
                base = base + [x.args[0]]
            elif x.name in INPLACE:
                return None
    return base


@rule('P50')
def p50(ctx):
    """Effects of asking for a digest; typestate of every piece of data in update (read or held -> hashed into a part, or kept) per loop iteration; fresh cypher per part."""
    n = Counter()
    REM, PARTS = A(SELF, '_remainder'), A(SELF, '_parts')
    # asking changes nothing
    for name in ('digest', 'hexdigest'):
        f = ctx.func(ETAG, name)
        q = ctx.short(f)
        for p in ctx.run(f, recv=ETAG, raises='none'):
            n[name] += 1
            for e in p.evs():
                if e.kind in ('store', 'setitem', 'delitem', 'delattr'):
                    ctx.check(not contains(e.target, SELF) or e.target[0] == 'call', 'asking changes nothing', q, f'sets {e.name} of {show(e.target)}', e.where, p)
                elif e.kind == 'call' and e.target is not None and e.name in INPLACE and e.target[0] == 'attr' and e.target[1] == SELF:
                    ctx.check(False, 'asking changes nothing', q, f'{show(e.target)}.{e.name}() changes the etag', e.where, p)
                elif e.kind == 'call' and e.target == SELF and e.name == 'update':
                    ctx.check(False, 'asking changes nothing', q, 'updates the etag', e.where, p)
            if name != 'digest':
                ctx.check(p.ret and contains_call(p.val, 'digest'), 'the hex digest is the digest', q, f'{p.kind} {show(p.val)}', f.where, p)
                t = [x for x in subterms(p.val) if x[0] == 'item' and contains_call(x[1], 'digest')]
                ctx.check({x[2] for x in t if is_const(x[2])} >= {C(0), C(1)}, 'the hex digest is the digest', q, f'digest and count are not both given: {show(p.val)}', f.where, p)
                continue
            ok = p.ret and p.val[0] in ('tup', 'list') and len(p.val[1]) == 2
            ctx.check(ok, 'digest and count', q, f'{p.kind}s {show(p.val)}', f.where, p)
            if not ok:
                continue
            dig, cnt = p.val[1]
            m = digest_of(dig)
            end = len(p.items)
            got = fed(p, m, end) if m is not None else []
            ctx.check(m is not None and is_cypher(m) and len(got) == 1 and got[0][0] == 'call' and got[0][1] == ('m', C(b''), 'join'), 'the digest of the digests of the chunks', q, f'answers {show(dig)}', f.where, p)
            if len(got) != 1 or not got[0][0] == 'call':
                continue
            lst = got[0][2][0]
            mem = members(p, lst)
            ctx.check(mem is not None and mem[:1] == ['_parts'], 'the digest of the digests of the chunks', q, f'digests {show(lst)}', f.where, p)
            if mem is None:
                continue
            some = filled(p, REM)
            ctx.check(some is not None, 'a short last chunk counts', q, 'the remainder is not looked at', f.where, p)
            if some:
                n['short'] += 1
                last = mem[1:]
                lm = digest_of(last[0]) if len(last) == 1 and isinstance(last[0], tuple) else None
                ok = lm is not None and is_cypher(lm) and fed(p, lm, end) == [REM] and lm != m
                ctx.check(ok, 'a short last chunk counts', q, f'the last chunk is given as {[show(x) for x in last if isinstance(x, tuple)]}', f.where, p)
            elif some is False:
                n['whole'] += 1
                ctx.check(len(mem) == 1, 'a short last chunk counts', q, 'an empty last chunk is counted', f.where, p)
            c = cnt[1] if cnt[0] == 'len' else cnt[2][0] if cnt[0] == 'call' and cnt[1] == 'len' else None
            ok = c is not None and members(p, c) == mem
            if not ok and cnt[0] == 'bin' and cnt[1] == 'Add' and some:
                ok = {cnt[2], cnt[3]} == {('len', PARTS), C(1)}
            ok = ok or some is False and cnt == ('len', PARTS)
            ctx.check(ok, 'the chunks are counted', q, f'counts {show(cnt)}', f.where, p)

    # a new etag
    f = ctx.func(ETAG, '__init__')
    q = ctx.short(f)
    for p in ctx.run(f, recv=ETAG, raises='none'):
        n['init'] += 1
        st = {e.name: e.args[0] for e in p.evs('store') if e.target == SELF}
        ctx.check(st.get('chunksize') == P(f.node.args.args[1].arg), 'its own chunk size', q, f'chunk size {show(st.get("chunksize", NONE))}', f.where, p)
        ctx.check(st.get('_remainder') == C(b'') and st.get('_parts', NONE)[0] in ('list', 'call') and not (st['_parts'][1] if st['_parts'][0] == 'list' else st['_parts'][2]), 'starts empty', q, f'starts with {[(k, show(v)) for k, v in st.items()]}', f.where, p)

    # every byte once
    f = ctx.func(ETAG, 'update')
    q = ctx.short(f)
    data = P(f.node.args.args[1].arg)
    for p in ctx.run(f, recv=ETAG, raises='none'):
        n['update'] += 1
        etag_update(ctx, p, f, q, data, n)
    for x in ('digest', 'hexdigest', 'short', 'whole', 'init', 'update', 'part', 'kept'):
        ctx.need('P50', n[x], 1, f'instances of {x}')


def contains_call(t, name):
    return any(x[0] == 'call' and isinstance(x[1], tuple) and x[1][0] == 'm' and x[1][2] == name for x in subterms(t))


def etag_update(ctx, p, f, q, data, n):
    REM, SIZE = A(SELF, '_remainder'), A(SELF, 'chunksize')
    pool = [t for e in p.evs('call') for t in subterms(e.result or NONE) if t[0] == 'call' and t[1] in ('io.BytesIO', 'BytesIO')]
    whole = ('bin', 'Add', REM, data)
    joined = any(contains(t, whole) for e in p.evs() for y in (e.target, *e.args, e.result) if isinstance(y, tuple) for t in subterms(y))
    ctx.check(joined, 'new data continues what was kept', q, 'what was kept is not put before the new data', f.where, p)
    # segments of the path: before the loop, every iteration, after it
    held, dirty, taken = REM, [], {}     # what _remainder holds (None: what went into the joined data)
    start, reads, outs = [], [], []
    back = any(not isinstance(x, Event) and x[0] == 'loop' and x[2] == 'later' for x in p.items)
    carried = [t for e in p.evs() for y in (e.target, *e.args) if isinstance(y, tuple) for t in subterms(y) if t[0] == 'havoc'] + [
        t for a, v in p.facts() for t in subterms(a) if t[0] == 'havoc']

    def settle(final):
        """one iteration: what was held at its start and what was read in it, in order, is what was hashed and what is held at its end"""
        mine = [x for x in outs + [held] if x is not None and x[0] == 'havoc' and any(contains_call(y, 'read') for y in sources(x))]
        there = lambda xs: [x for i, x in enumerate(xs) if x is not None and filled(p, x) is not False and x != C(b'') and x not in xs[:i]]
        src = there(mine + start + reads)
        dst = there(outs + [held])
        ok = src == dst or not final and src[:-1] == dst and src and any(src[-1] in sources(h) for h in carried)
        ok = ok or not final and not dst and len(src) == 1 and not back
        if len(set(map(pid, outs))) != len(outs):
            ok = False
        ctx.check(ok, 'every byte once, in order', q, f'has {[show(x)[:60] for x in src]}, hashes {[show(x)[:60] for x in outs]} and keeps {show(held)[:60] if held is not None else "nothing"}', f.where, p)
        ctx.check(not dirty, 'a fresh cypher per chunk', q, f'the cypher that saw {[show(x)[:60] for x in dirty]} is used on', f.where, p)

    stored, seen_parts = [], []
    marks = {k: [i for i, x in enumerate(p.items) if not isinstance(x, Event) and x[0] == 'loop' and x[2] == k] for k in ('first', 'end')}
    inside = [x for x in p.items[marks['first'][0]:marks['end'][-1]] if isinstance(x, Event) and x.kind == 'store'] if marks['first'] and marks['end'] else []
    for i, x in enumerate(p.items):
        if not isinstance(x, Event):
            if not pool:
                continue
            if x[0] == 'loop' and x[2] == 'first':
                start, reads, outs = ([held] if held is not None else []) + reads, [], []
            elif x[0] == 'loop' and x[2] == 'later':
                held = REM if any(e.name == '_remainder' for e in inside) else None
                start, reads, outs, dirty = [held] if held is not None else [], [], [], []
            elif x[0] == 'loop' and x[2] == 'end':
                settle(False)
                start, reads, outs = [held] if held is not None else [], [], []
            continue
        if x.kind == 'call' and x.result in pool and held == REM:
            held = None
        if x.kind == 'call' and x.name == 'read' and pool and x.target in pool:
            ctx.check(x.args == (SIZE,) or list(x.args) == [SIZE], 'chunks of the chunk size', q, f'reads {[show(a) for a in x.args]}', x.where, p)
            reads.append(x.result)
        elif x.kind == 'store' and x.target == SELF and x.name == '_remainder':
            held = x.args[0]
            stored.append(held)
            n['kept'] += 1
        elif x.kind == 'store' and x.target == SELF and x.name == '_m':
            ctx.check(is_cypher(x.args[0]) and not [a for a in x.args[0][2] if a[0] != 'kw'], 'a fresh cypher per chunk', q, f'continues with {show(x.args[0])}', x.where, p)
            dirty = []
        elif x.kind == 'call' and x.name == 'update' and x.target == A(SELF, '_m'):
            dirty = dirty + list(x.args)
        elif x.kind == 'call' and x.name == 'digest' and x.target == A(SELF, '_m'):
            taken[x.result] = dirty
        elif x.kind == 'store' and x.target == SELF and x.name == '_parts' or x.kind == 'call' and x.name in ('append', 'extend') and x.target == A(SELF, '_parts'):
            new = x.args[0]
            if x.kind == 'store':
                m = members(p, new, i)
                ctx.check(m is not None and m[:1] == ['_parts'], 'parts are kept', q, f'the parts become {show(new)}', x.where, p)
                m = (m or [None])[1:]
            else:
                m = [new] if x.name == 'append' else members(p, new, i) or []
            for d in m:
                n['part'] += 1
                src = digest_of(d) if isinstance(d, tuple) else None
                given = taken.get(d) if src == A(SELF, '_m') else fed(p, src, i) if src is not None and is_cypher(src) else None
                ok = given is not None and len(given) == 1
                ctx.check(ok, 'a fresh cypher per chunk', q, f'a part is the digest of {[show(y)[:60] for y in given] if given is not None else show(d)}', x.where, p)
                if not ok:
                    continue
                piece = given[0]
                outs.append(piece)
                seen_parts.append(piece)
                full = any(a == ('lt', ('len', piece), SIZE) and not v or a[0] == 'eq' and v and {a[1], a[2]} == {('len', piece), SIZE} for a, v in p.facts()) or any(filled(p, r) and reads and reads[-1] == r and piece != r for r in reads)
                full = full or piece[0] == 'slice' and any(a == ('lt', ('len', piece[1]), SIZE) and not v or a == ('lt', SIZE, ('len', piece[1])) and v for a, v in p.facts())
                full = full or piece[0] == 'slice' and any(y[3] is not None for y in p.loops())
                ctx.check(full, 'only whole chunks are parts', q, f'{show(piece)[:80]} may be short', x.where, p)
                if piece[0] == 'slice' and piece[2] in (None, NONE, C(0)):
                    ctx.check(piece[3] == SIZE, 'chunks of the chunk size', q, f'cuts off {show(piece[3] or NONE)}', x.where, p)
    if pool:
        settle(True)
        return
    # cut from the joined data: what is kept is what follows the last cut
    for v in stored:
        for y in (sources(v) if v[0] == 'havoc' else [v]):
            if y[0] == 'slice' and is_const(y[3] if y[3] is not None else NONE) and y[3] in (None, NONE) and y[2] == SIZE:
                ctx.check(any(z[0] == 'slice' and z[1] == y[1] or z[0] == 'slice' for z in seen_parts) or not seen_parts, 'every byte once, in order', q, f'drops the start of {show(y)}', f.where, p)
