"""A small Rust lexer and item finder: enough to lift functions and types out of
/repo's sources mechanically, token for token."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)")
 |(?P<str>b?c?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[^\W\d]\w*)
 |(?P<num>\d[\d_]*(?:\.\d[\d_]*)?\w*)
 |(?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=)
 |(?P<p>.)
''', re.X | re.S)


class T(object):
    __slots__ = ('k', 't', 'a', 'b')

    def __init__(self, k, t, a, b):
        self.k, self.t, self.a, self.b = k, t, a, b

    def __repr__(self):
        return '%s:%r' % (self.k, self.t)


def lex(src):
    """All tokens, whitespace and comments included."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == 'h':
            k = 'rstr'
        j = m.end()
        if m.group('bc') is not None:
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith('/*', j):
                    depth += 1; j += 2
                elif src.startswith('*/', j):
                    depth -= 1; j += 2
                else:
                    j += 1
            k = 'bc'
        elif m.group('rstr') is not None:
            j = src.index('"' + m.group('h'), j) + 1 + len(m.group('h'))
            k = 'str'
        out.append(T(k, src[i:j], i, j))
        i = j
    return out


def code(toks):
    return [t for t in toks if t.k not in ('ws', 'lc', 'bc')]


OPEN = {'(': ')', '[': ']', '{': '}'}


def close(ts, i):
    """Index of the token closing the bracket at ts[i]."""
    depth = 0
    for j in range(i, len(ts)):
        if ts[j].k == 'p':
            if ts[j].t in '([{':
                depth += 1
            elif ts[j].t in ')]}':
                depth -= 1
                if depth == 0:
                    return j
    raise ValueError('unbalanced')


def skip_attrs(ts, i):
    while i < len(ts) and ts[i].t == '#':
        j = i + 1
        if ts[j].t == '!':
            j += 1
        if ts[j].t != '[':
            break
        i = close(ts, j) + 1
    return i


class Item(object):
    """kind: fn/struct/enum/const/static/impl/trait/mod/type/use/macro; ts: its tokens (attributes left out)."""

    def __init__(self, kind, name, ts, attrs, body):
        self.kind, self.name, self.ts, self.attrs, self.body = kind, name, ts, attrs, body

    def header(self):
        return ' '.join(t.t for t in self.ts[:self.body]) if self.body is not None else ''


def items(ts):
    """Top-level items among tokens (comments already dropped)."""
    out, i, n = [], 0, len(ts)
    while i < n:
        a0 = i
        i = skip_attrs(ts, i)
        attrs = ' '.join(t.t for t in ts[a0:i])
        if i >= n:
            break
        st = i
        while i < n and (ts[i].t in ('pub', 'unsafe', 'async', 'extern', 'default') or (ts[i].t == 'const' and i + 1 < n and ts[i + 1].t in ('fn', 'unsafe')) or (ts[i].k == 'str')):
            if ts[i].t == 'pub' and ts[i + 1].t == '(':
                i = close(ts, i + 1) + 1
            else:
                i += 1
        if i >= n:
            break
        kw = ts[i].t
        name = ts[i + 1].t if i + 1 < n else ''
        body = None
        j = i
        if kw in ('fn', 'impl', 'trait', 'struct', 'enum', 'mod', 'union') or (kw == 'macro_rules'):
            while ts[j].t not in ('{', ';'):
                if ts[j].t in ('(', '['):
                    j = close(ts, j)
                j += 1
            if ts[j].t == '{':
                body = j - st
                j = close(ts, j)
        else:
            while ts[j].t != ';':
                if ts[j].t in OPEN:
                    j = close(ts, j)
                    if kw not in ('const', 'static', 'type', 'use') and ts[j].t == '}' :
                        break
                j += 1
        out.append(Item(kw, name if kw != 'impl' else '', ts[st:j + 1], attrs, body))
        i = j + 1
    return out


def squash(s):
    return re.sub(r'\s+', '', s)


class File(object):
    def __init__(self, path):
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.ts = code(lex(self.src))
        self.items = [i for i in items(self.ts)]

    def find(self, kind, name, within=None):
        """within: text that the enclosing impl/trait/fn header must start with, spaces ignored."""
        pools = [self.items]
        if within is not None:
            pools = []
            exact = any(it.kind == 'impl' and it.body is not None and squash(it.header()) == squash(within) for it in self.all_items(self.items))
            for it in self.all_items(self.items):
                if it.kind in ('impl', 'trait', 'mod') and it.body is not None and (squash(it.header()) == squash(within) if exact else squash(it.header()).startswith(squash(within))):
                    pools.append(items(it.ts[it.body + 1:-1]))
                elif it.kind == 'fn' and it.body is not None and 'fn' + it.name == squash(within):
                    pools.append(self.inner(it))
        got = [it for p in pools for it in p if it.kind == kind and it.name == name and 'cfg(test)' not in squash(it.attrs) and 'cfg(not(debug_assertions))' not in squash(it.attrs)]
        if len(got) != 1:
            raise LookupError('%s: %s %s%s: %d found' % (self.path, kind, name, ' in ' + within if within else '', len(got)))
        return got[0]

    def inner(self, it):
        """Items declared at the start of a function's body."""
        ts, out, i = it.ts[it.body + 1:-1], [], 0
        while i < len(ts):
            if ts[i].t in ('const', 'static', 'fn', 'struct', 'enum') and (i == 0 or ts[i - 1].t in (';', '}', '{')):
                j = i
                while ts[j].t not in (';', '{') or (ts[i].t in ('const', 'static') and ts[j].t == '{'):
                    if ts[j].t in OPEN:
                        j = close(ts, j)
                    j += 1
                if ts[j].t == '{':
                    j = close(ts, j)
                try:
                    out += items(ts[i:j + 1])
                except Exception:
                    pass
                i = j
            i += 1
        return out

    def all_items(self, its):
        for it in its:
            yield it
            if it.kind in ('mod', 'impl') and it.body is not None and 'cfg(test)' not in squash(it.attrs):
                for x in self.all_items(items(it.ts[it.body + 1:-1])):
                    yield x
