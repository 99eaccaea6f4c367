"""Texts put together of known pieces and of names that are left open, and what string and path operations do to them.

A Text is a tuple of literal strings and Names.  A Name stands for any text with no '/', ':' or '@' in it (one with slashes may have '/' inside),
that is not empty and does not end in '.git'; it may have dots.  Operations that would depend on more raise Unknown."""


class Unknown(Exception):
    pass


class Name:
    def __init__(self, name, slashes=False, never=()):
        self.name, self.slashes, self.never = name, slashes, never

    def __eq__(self, other):
        return isinstance(other, Name) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'<{self.name}>'


class Text:
    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                for x in p.parts:
                    self._add(out, x)
            else:
                self._add(out, p)
        self.parts = tuple(out)

    @staticmethod
    def _add(out, x):
        if isinstance(x, str):
            if not x:
                return
            if out and isinstance(out[-1], str):
                out[-1] += x
                return
        out.append(x)

    def __eq__(self, other):
        return type(other) is type(self) and self.parts == other.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return ''.join(x if isinstance(x, str) else repr(x) for x in self.parts)

    def __bool__(self):
        return bool(self.parts)

    @property
    def known(self):
        return all(isinstance(x, str) for x in self.parts)

    @property
    def text(self):
        return ''.join(self.parts)

    def same(self, other):
        """True, False or Unknown"""
        if self == other:
            return True
        a, b = self, other
        if a.known and b.known:
            return a.text == b.text
        for x, y in ((a, b), (b, a)):
            if len(x.parts) == 1 and isinstance(x.parts[0], Name) and y.known and y.text in x.parts[0].never:
                return False
        # a difference in the known ends decides
        for x, y in ((a.head, b.head), (a.tail[::-1], b.tail[::-1])):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
        if a.known and not a.text or b.known and not b.text:
            return False
        # a character that no name has
        for c in ':/@':
            if a.can(c) is not None and b.can(c) is not None and a.can(c) != b.can(c):
                return False
        raise Unknown(f'{self} == {other}')

    def can(self, c):
        """how often a character is there, None when open"""
        if c not in ':/@' or c == '/' and any(isinstance(x, Name) and x.slashes for x in self.parts):
            return None
        return sum(x.count(c) for x in self.parts if isinstance(x, str))

    @property
    def head(self):
        return self.parts[0] if self.parts and isinstance(self.parts[0], str) else ''

    @property
    def tail(self):
        return self.parts[-1] if self.parts and isinstance(self.parts[-1], str) else ''

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return any(self.startswith(x) for x in pre)
        pre = literal(pre)
        if self.known:
            return self.text.startswith(pre)
        h = self.head
        if len(h) >= len(pre):
            return h.startswith(pre)
        if not pre.startswith(h):
            return False
        rest = pre[len(h):]
        if any(c in rest for c in ':@') or '/' in rest:
            # the name would have to have a character no name has, or end before it
            nm = self.parts[1] if h else self.parts[0]
            if not nm.slashes and rest[0] in ':/@' or rest[0] == '/':
                return False
        raise Unknown(f'{self} starts with {pre!r}')

    def endswith(self, suf):
        if isinstance(suf, tuple):
            return any(self.endswith(x) for x in suf)
        suf = literal(suf)
        if self.known:
            return self.text.endswith(suf)
        t = self.tail
        if len(t) >= len(suf):
            return t.endswith(suf)
        if not suf.endswith(t):
            return False
        if suf == '.git' and not t:
            return False
        if suf[-1] in ':/@' and not t:
            return False
        raise Unknown(f'{self} ends with {suf!r}')

    def cut(self, n, end):
        """without n characters at an end"""
        if n == 0:
            return self
        x = self.tail if end else self.head
        if len(x) < n:
            raise Unknown(f'{n} characters of {self}')
        return Text(*self.parts[:-1], x[:-n]) if end else Text(x[n:], *self.parts[1:])

    def first(self, n):
        """the first n characters"""
        if self.known or len(self.head) >= n:
            return Text(self.head[:n])
        return Text(self.head, Name(f'the first {n} characters of {self}'))

    def last(self, n):
        if self.known or len(self.tail) >= n:
            return Text(self.tail[-n:])
        return Text(Name(f'the last {n} characters of {self}'), self.tail)

    def removesuffix(self, s):
        return self.cut(len(literal(s)), True) if self.endswith(s) else self

    def removeprefix(self, s):
        return self.cut(len(literal(s)), False) if self.startswith(s) else self

    def _strip(self, chars, left, right):
        if chars is None:
            chars = ' \n\r\t'
        chars = literal(chars)
        parts = list(self.parts)
        if any(c not in ':/@ \n\r\t' for c in chars):
            if not self.known:
                return Text(Name(f'{self} without {chars!r} at its ends'))
        if right:
            while parts and isinstance(parts[-1], str):
                parts[-1] = parts[-1].rstrip(chars)
                if parts[-1]:
                    break
                parts.pop()
        if left:
            while parts and isinstance(parts[0], str):
                parts[0] = parts[0].lstrip(chars)
                if parts[0]:
                    break
                parts.pop(0)
        return Text(*parts)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def split(self, sep=None, maxsplit=-1):
        sep = literal(sep)
        if self.can(sep[0]) is None and not self.known:
            if maxsplit == 1 and sep in self.head:
                a, _, b = self.head.partition(sep)
                return Text(a), Text(b, *self.parts[1:])
            # names that have it are split too, but what comes after the last of them is known
            last = max((i for i, x in enumerate(self.parts) if isinstance(x, Name) and x.slashes), default=None)
            if sep == '/' and maxsplit < 0 and last is not None:
                after = Text(*self.parts[last + 1:])
                if after.startswith('/') if after.parts else False:
                    return (Text(Name(f'{self} up to a part of {self.parts[last]}')), Text(Name(f'last part of {self.parts[last].name}'))) + after.split('/')[1:]
            return Text(Name(f'{self} up to its first {sep!r}')), Text(Name(f'{self} after a {sep!r}'))
        out, cur = [], []
        for x in self.parts:
            if isinstance(x, str):
                bits = x.split(sep)
                for i, b in enumerate(bits):
                    if i:
                        out.append(cur)
                        cur = []
                    cur.append(b)
            else:
                cur.append(x)
        out.append(cur)
        out = [Text(*x) for x in out]
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            rest = out[maxsplit:]
            joined = [rest[0]]
            for r in rest[1:]:
                joined += [sep, r]
            out = out[:maxsplit] + [Text(*joined)]
        return tuple(out)

    def rsplit(self, sep=None, maxsplit=-1):
        s = literal(sep)
        if self.can(s[0]) is None and not self.known and maxsplit == 1 and s in self.tail:
            a, _, b = self.tail.rpartition(s)
            return Text(*self.parts[:-1], a), Text(b)
        out = list(self.split(sep))
        if maxsplit >= 0 and len(out) > maxsplit + 1:
            rest = out[:len(out) - maxsplit]
            joined = [rest[0]]
            for r in rest[1:]:
                joined += [literal(sep), r]
            out = [Text(*joined)] + out[len(out) - maxsplit:]
        return tuple(out)

    def partition(self, sep):
        s = literal(sep)
        if self.can(s[0]) is None and not self.known and s not in self.head:
            raise Unknown(f'split {self} at {sep!r}')
        b = self.split(sep, 1)
        return (b[0], Text(literal(sep)), b[1]) if len(b) == 2 else (self, Text(), Text())

    def rpartition(self, sep):
        s = literal(sep)
        if self.can(s[0]) is None and not self.known and s not in self.tail:
            raise Unknown(f'split {self} at {sep!r}')
        b = self.rsplit(sep, 1)
        return (b[0], Text(literal(sep)), b[1]) if len(b) == 2 else (Text(), Text(), self)

    def replace(self, old, new, count=-1):
        old, new = literal(old), Text(new) if isinstance(new, str) else new
        if self.known and new.known:
            return Text(self.text.replace(old, new.text, *([count] if count >= 0 else [])))
        if old and old[0] in ':@' or '/' in old and self.can('/') is not None and old[0] in ':/@':
            n = count if count >= 0 else -1
            bits = self.split(old, n)
            out = [bits[0]]
            for b in bits[1:]:
                out += [new, b]
            return Text(*out)
        return Text(Name(f'{self} with {old!r} replaced'))

    def contains(self, x):
        x = literal(x)
        if self.known:
            return x in self.text
        if any(isinstance(p, str) and x in p for p in self.parts):
            return True
        if x and x[0] in ':/@' and not any(isinstance(p, Name) and p.slashes for p in self.parts):
            for i, p in enumerate(self.parts):
                for j in range(len(p)) if isinstance(p, str) else ():
                    rest = p[j:]
                    if x.startswith(rest) and x[len(rest):][:1] not in (':', '/', '@') and i + 1 < len(self.parts):
                        raise Unknown(f'{x!r} in {self}')
            return False
        raise Unknown(f'{x!r} in {self}')

    def lower(self):
        return self if self.known and self.text == self.text.lower() else Text(Name(f'{self} in lower case'))


def literal(x):
    if isinstance(x, Text):
        if x.known:
            return x.text
        raise Unknown(repr(x))
    if isinstance(x, str):
        return x
    raise Unknown(repr(x))


class PathText(Text):
    """a pure posix path: no '/' at the end, none doubled, no '.'"""

    def __init__(self, *parts):
        super().__init__(*parts)
        out = []
        for x in self.parts:
            if isinstance(x, str):
                while '//' in x:
                    x = x.replace('//', '/')
            out.append(x)
        if out and isinstance(out[-1], str) and (len(out) > 1 or out[-1] != '/') and out[-1].endswith('/'):
            out[-1] = out[-1][:-1]
        self.parts = tuple(x for x in out if x)

    def join(self, other):
        if other.startswith('/') if other else False:
            return PathText(other)
        if not other:
            return self
        return PathText(self, '/', other) if self.parts else PathText(other)

    @property
    def pieces(self):
        return [x for x in Text(*self.parts).split('/') if x]

    @property
    def final(self):
        p = self.parts[-1] if self.parts else ''
        if isinstance(p, str) and '/' in p:
            return Text(p.rpartition('/')[2])
        ps = list(self.parts)
        out = []
        while ps:
            x = ps.pop()
            if isinstance(x, str) and '/' in x:
                out.append(x.rpartition('/')[2])
                break
            if isinstance(x, Name) and x.slashes:
                if out:
                    raise Unknown(f'name of {self}')
                return Text(Name(f'last part of {x.name}'))
            out.append(x)
        return Text(*reversed(out))

    @property
    def parent(self):
        f = self.final
        keep = list(self.parts)
        n = len(f.parts)
        rest = Text(*keep)
        for x in reversed(f.parts):
            if isinstance(x, Name):
                rest = Text(*rest.parts[:-1])
            else:
                rest = rest.cut(len(x), True)
        return PathText(rest)

    def stem(self):
        f = self.final
        if f.known:
            n = f.text
            return Text(n[:n.rindex('.')] if '.' in n[1:] and not n.endswith('.') else n)
        if f.tail.count('.') and not f.tail.endswith('.'):
            return f.cut(len(f.tail) - f.tail.rindex('.'), True)
        # dots of the name itself
        return Text(Name(f'{f} up to its last dot'))

    def with_suffix(self, s):
        return self.parent.join(Text(self.stem(), s))
