"""A pest grammar as Verus specifications: every expression of the grammar becomes a
function from the text ahead to the length it matches, by the rules of parsing
expression grammars, together with a lemma about how much it can match."""
import re

BUILTIN = {
    'ANY': ('(if s.len() > 0 { Some(1nat) } else { None })', 1),
    'NEWLINE': ("(if s.len() > 0 && s[0] == '\\n' { Some(1nat) } else if s.len() > 1 && s[0] == '\\r' && s[1] == '\\n' { Some(2nat) } else if s.len() > 0 && s[0] == '\\r' { Some(1nat) } else { None })", 1),
    'ASCII_DIGIT': ("(if s.len() > 0 && '0' <= s[0] && s[0] <= '9' { Some(1nat) } else { None })", 1),
    'ASCII_ALPHANUMERIC': ("(if s.len() > 0 && (('0' <= s[0] && s[0] <= '9') || ('a' <= s[0] && s[0] <= 'z') || ('A' <= s[0] && s[0] <= 'Z')) { Some(1nat) } else { None })", 1),
    'ASCII_ALPHA': ("(if s.len() > 0 && (('a' <= s[0] && s[0] <= 'z') || ('A' <= s[0] && s[0] <= 'Z')) { Some(1nat) } else { None })", 1),
}


SETS = {
    'NEWLINE': "c == '\\n' || c == '\\r'",
    'ASCII_DIGIT': "'0' <= c && c <= '9'",
    'ASCII_ALPHANUMERIC': "('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')",
    'ASCII_ALPHA': "('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')",
}


class Bad(Exception):
    pass


def tokens(src):
    out, i = [], 0
    rx = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|[A-Za-z_]\w*|\d+|\.\.|[=@_$!{}()~|*+?,&^-]', re.S)
    while i < len(src):
        m = rx.match(src, i)
        if not m: raise Bad('cannot read the grammar at %r' % src[i:i + 20])
        t = m.group(0)
        if not (t[0].isspace() or t.startswith('//') or t.startswith('/*')): out.append(t)
        i = m.end()
    return out


def chars(lit):
    s, out, i = lit[1:-1], [], 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'u':
                j = s.index('}', i)
                out.append(chr(int(s[i + 3:j], 16))); i = j + 1
                continue
            if c == 'x': out.append(chr(int(s[i + 2:i + 4], 16))); i += 4; continue
            out.append({'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(c, c)); i += 2
        else:
            out.append(s[i]); i += 1
    return out


def rust_char(c):
    return {'\n': "'\\n'", '\r': "'\\r'", '\t': "'\\t'", '\\': "'\\\\'", "'": "'\\''", '\0': "'\\0'"}.get(c, "'%s'" % c if 32 <= ord(c) < 127 else "'\\u{%x}'" % ord(c))


class P(object):
    def __init__(self, ts): self.ts, self.i = ts, 0
    def peek(self): return self.ts[self.i] if self.i < len(self.ts) else ''
    def eat(self, t=None):
        x = self.peek()
        if t is not None and x != t: raise Bad('expected %s, found %r' % (t, x))
        self.i += 1
        return x

    def rules(self):
        out = {}
        while self.i < len(self.ts):
            name = self.eat(); self.eat('=')
            mod = ''
            if self.peek() in ('_', '@', '$', '!'): mod = self.eat()
            self.eat('{')
            out[name] = (mod, self.choice())
            self.eat('}')
        return out

    def choice(self):
        if self.peek() == '|': self.eat()
        xs = [self.seq()]
        while self.peek() == '|': self.eat(); xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('choice', xs)

    def seq(self):
        xs = [self.unary()]
        while self.peek() == '~': self.eat(); xs.append(self.unary())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def unary(self):
        if self.peek() == '!': self.eat(); return ('not', self.unary())
        if self.peek() == '&': self.eat(); return ('and', self.unary())
        return self.postfix()

    def postfix(self):
        e = self.atom()
        while True:
            t = self.peek()
            if t == '*': self.eat(); e = ('star', e)
            elif t == '+': self.eat(); e = ('seq', [e, ('star', e)])
            elif t == '?': self.eat(); e = ('opt', e)
            elif t == '{':
                self.eat()
                lo = hi = None
                if self.peek().isdigit(): lo = int(self.eat())
                if self.peek() == ',':
                    self.eat()
                    if self.peek().isdigit(): hi = int(self.eat())
                else: hi = lo
                self.eat('}')
                xs = [e] * (lo or 0)
                if hi is None: xs = xs + [('star', e)]
                else:
                    tail = None
                    for _ in range(hi - (lo or 0)): tail = ('opt', e if tail is None else ('seq', [e, tail]))
                    if tail is not None: xs = xs + [tail]
                e = xs[0] if len(xs) == 1 else ('seq', xs)
            else: return e

    def atom(self):
        t = self.eat()
        if t == '(':
            e = self.choice(); self.eat(')')
            return e
        if t.startswith('"'): return ('lit', ''.join(chars(t)))
        if t == '^': raise Bad('case-insensitive literals are not modelled')
        if re.match(r'[A-Za-z_]\w*$', t): return ('ref', t)
        raise Bad('cannot read %r' % t)


class Gen(object):
    def __init__(self, rules):
        self.rules, self.memo, self.out, self.n, self.mins = rules, {}, [], 0, {}
        self.busy = set()
        self.charred = set()

    def least(self, e):
        k = e[0]
        if k == 'lit': return len(e[1])
        if k == 'ref':
            if e[1] in BUILTIN: return BUILTIN[e[1]][1]
            if e[1] not in self.rules: raise Bad('no rule %s' % e[1])
            if e[1] in self.busy: raise Bad('recursive rule %s' % e[1])
            self.busy.add(e[1])
            r = self.least(self.rules[e[1]][1])
            self.busy.discard(e[1])
            return r
        if k == 'seq': return sum(self.least(x) for x in e[1])
        if k == 'choice': return min(self.least(x) for x in e[1])
        return 0

    def fn(self, e):
        """Name of the function of an expression; emits it with its lemma."""
        key = repr(e)
        if key in self.memo: return self.memo[key]
        k = e[0]
        if k == 'ref' and e[1] in self.rules:
            name = 'pg_' + e[1]
            self.memo[key] = name
            inner = self.fn(self.rules[e[1]][1])
            self.emit(name, '%s(s)' % inner, 'bound_%s(s);' % inner, self.least(e))
            return name
        self.n += 1
        name = 'px_%d' % self.n
        least = self.least(e)
        if k == 'ref':
            body, proof = BUILTIN[e[1]][0], ''
        elif k == 'lit':
            cs = e[1]
            body = 'if s.len() >= %d%s { Some(%dnat) } else { None }' % (len(cs), ''.join(' && s[%d] == %s' % (i, rust_char(c)) for i, c in enumerate(cs)), len(cs))
            proof = ''
        elif k == 'seq':
            head, rest = e[1][0], e[1][1:]
            a = self.fn(head)
            b = self.fn(rest[0] if len(rest) == 1 else ('seq', rest))
            body = 'match %s(s) { Some(n) => if n <= s.len() { match %s(s.skip(n as int)) { Some(m) => Some(n + m), None => None } } else { None }, None => None }' % (a, b)
            proof = 'bound_%s(s); if let Some(n) = %s(s) { bound_%s(s.skip(n as int)); }' % (a, a, b)
        elif k == 'choice':
            head, rest = e[1][0], e[1][1:]
            a = self.fn(head)
            b = self.fn(rest[0] if len(rest) == 1 else ('choice', rest))
            body = 'match %s(s) { Some(n) => Some(n), None => %s(s) }' % (a, b)
            proof = 'bound_%s(s); bound_%s(s);' % (a, b)
        elif k == 'star':
            a = self.fn(e[1])
            self.memo[key] = name
            self.out.append('pub open spec fn %s(s: Seq<char>) -> Option<nat>\n    decreases s.len(),\n{ match %s(s) { Some(n) => if 0 < n <= s.len() { match %s(s.skip(n as int)) { Some(m) => Some(n + m), None => None } } else { Some(0nat) }, None => Some(0nat) } }' % (name, a, name))
            self.out.append('pub proof fn bound_%s(s: Seq<char>)\n    ensures %s(s).is_some(), %s(s)->Some_0 <= s.len(),\n    decreases s.len(),\n{ if let Some(n) = %s(s) { if 0 < n <= s.len() { bound_%s(s.skip(n as int)); } } }' % (name, name, name, a, name))
            return name
        elif k == 'opt':
            a = self.fn(e[1])
            body, proof = 'match %s(s) { Some(n) => Some(n), None => Some(0nat) }' % a, 'bound_%s(s);' % a
        elif k == 'not':
            a = self.fn(e[1])
            body, proof = 'match %s(s) { Some(n) => None, None => Some(0nat) }' % a, ''
        elif k == 'and':
            a = self.fn(e[1])
            body, proof = 'match %s(s) { Some(n) => Some(0nat), None => None }' % a, ''
        else:
            raise Bad(k)
        self.memo[key] = name
        self.emit(name, body, proof, least)
        return name

    def has(self, e, what):
        if e[0] == what or e == what: return True
        if e[0] == 'ref': return e[1] in self.rules and self.has(self.rules[e[1]][1], what)
        if e[0] in ('seq', 'choice'): return any(self.has(x, what) for x in e[1])
        if e[0] == 'lit': return False
        return self.has(e[1], what)

    def chars(self, e):
        """Which characters an expression can match: a predicate, with a lemma."""
        name = self.fn(e)
        if name in self.charred: return name
        self.charred.add(name)
        k = e[0]
        if k == 'ref' and e[1] in self.rules:
            a = self.chars(self.rules[e[1]][1])
            pred, proof = 'set_%s(c)' % a, 'chars_%s(s);' % a
        elif k == 'ref': pred, proof = SETS[e[1]], ''
        elif k == 'lit': pred, proof = ' || '.join('c == %s' % rust_char(c) for c in sorted(set(e[1]))), ''
        elif k in ('seq', 'choice'):
            head, rest = e[1][0], e[1][1:]
            a = self.chars(head)
            b = self.chars(rest[0] if len(rest) == 1 else (k, rest))
            pred = 'set_%s(c) || set_%s(c)' % (a, b)
            if k == 'choice': proof = 'chars_%s(s); chars_%s(s);' % (a, b)
            else: proof = '''bound_%s(s); chars_%s(s);
    if let Some(n) = %s(s) {
        if n <= s.len() {
            chars_%s(s.skip(n as int));
            if let Some(m) = %s(s.skip(n as int)) { assert forall|i: int| 0 <= i < n + m && i < s.len() implies set_%s(#[trigger] s[i]) by { if i >= n { assert(s.skip(n as int)[i - n] == s[i]); } } }
        }
    }''' % (a, a, a, b, b, name)
        elif k == 'star':
            a = self.chars(e[1])
            self.out.append('pub open spec fn set_%s(c: char) -> bool { set_%s(c) }' % (name, a))
            self.out.append('''pub proof fn chars_%s(s: Seq<char>)
    ensures match %s(s) { Some(n) => forall|i: int| 0 <= i < n && i < s.len() ==> set_%s(#[trigger] s[i]), None => true },
    decreases s.len(),
{
    chars_%s(s);
    if let Some(n) = %s(s) {
        if 0 < n <= s.len() {
            chars_%s(s.skip(n as int));
            if let Some(m) = %s(s.skip(n as int)) { assert forall|i: int| 0 <= i < n + m && i < s.len() implies set_%s(#[trigger] s[i]) by { if i >= n { assert(s.skip(n as int)[i - n] == s[i]); } } }
        }
    }
}''' % (name, name, name, a, a, name, name, name))
            return name
        elif k == 'opt':
            a = self.chars(e[1])
            pred, proof = 'set_%s(c)' % a, 'chars_%s(s);' % a
        else: pred, proof = 'false', ''
        self.out.append('pub open spec fn set_%s(c: char) -> bool { %s }' % (name, pred))
        self.out.append('pub proof fn chars_%s(s: Seq<char>)\n    ensures match %s(s) { Some(n) => forall|i: int| 0 <= i < n && i < s.len() ==> set_%s(#[trigger] s[i]), None => true },\n{ %s }' % (name, name, name, proof))
        return name

    def emit(self, name, body, proof, least):
        self.out.append('pub open spec fn %s(s: Seq<char>) -> Option<nat> { %s }' % (name, body))
        self.out.append('pub proof fn bound_%s(s: Seq<char>)\n    ensures match %s(s) { Some(n) => %d <= n <= s.len(), None => true },\n{ %s }' % (name, name, least, proof))


def generate(src):
    rules = P(tokens(src)).rules()
    for implicit in ('WHITESPACE', 'COMMENT'):
        if implicit in rules: raise Bad('implicit %s would be skipped between tokens' % implicit)
    if rules.get('document') != ('_', ('seq', [('ref', 'SOI'), ('star', ('ref', 'token')), ('ref', 'EOI')])): raise Bad('document is not `_{ SOI ~ token* ~ EOI }`')
    mod, body = rules.get('token', ('', None))
    if mod != '_' or body is None or body[0] != 'choice': raise Bad('token is not a silent choice')
    g = Gen(rules)
    alts = []
    for a in body[1]:
        parts = a[1] if a[0] == 'seq' else [a]
        for p in parts:
            if p[0] != 'ref' or p[1] not in rules or rules[p[1]][0] != '@': raise Bad('a token alternative is not made of atomic rules: %r' % (a,))
        alts.append((g.fn(a), [p[1] for p in parts]))
    out = ['#[derive(Copy, Clone, PartialEq, Eq, Structural)]\npub enum LexRule { EOI, %s }' % ', '.join(rules)]
    seen = [n for n in rules if rules[n][0] != '_']
    for n in rules:
        if rules[n][0] != '_': g.fn(('ref', n))
    runs = [n for n in seen if g.has(('ref', n), 'star') and not g.has(('ref', n), ('ref', 'ANY'))]
    for n in runs: g.chars(('ref', n))
    out += g.out
    out.append('// What a rule matches of the text ahead\npub open spec fn rule_of(r: LexRule, s: Seq<char>) -> Option<nat> {\n    match r { %s, _ => None }\n}' % ', '.join('LexRule::%s => pg_%s(s)' % (n, n) for n in seen))
    out.append('''// Which characters that can be, for the rules that repeat something
pub open spec fn set_of(r: LexRule, c: char) -> bool { match r { %s, _ => true } }
pub open spec fn least_of(r: LexRule) -> nat { match r { %s, _ => 0 } }
pub proof fn rule_facts(r: LexRule, s: Seq<char>)
    ensures match rule_of(r, s) { Some(n) => least_of(r) <= n <= s.len() && forall|i: int| 0 <= i < n ==> set_of(r, #[trigger] s[i]), None => true },
{ match r { %s, _ => {} } }''' % (', '.join('LexRule::%s => set_pg_%s(c)' % (n, n) for n in runs), ', '.join('LexRule::%s => %d' % (n, g.least(('ref', n))) for n in seen),
        ', '.join('LexRule::%s => { bound_pg_%s(s); %s}' % (n, n, 'chars_pg_%s(s); ' % n if n in runs else '') for n in seen)))
    silent = [n for n in rules if rules[n][0] == '_']
    out.append('// Rules that are seen in a token list\npub open spec fn shown_rule(r: LexRule) -> bool { !(r is EOI%s) }' % ''.join(' || r is %s' % n for n in silent))
    # there is always something to take, and it is never empty
    out.append('''pub open spec fn lex_fine(s: Seq<char>, o: Option<Seq<(LexRule, nat)>>) -> bool {
    match o {
        Some(e) => s.len() > 0 && 1 <= e.len() <= 2 && 0 < e[0].1 && shown_rule(e[0].0) && rule_of(e[0].0, s) == Some(e[0].1) && (e.len() == 1 ==> e[0].1 <= s.len())
            && (e.len() == 2 ==> 0 < e[1].1 && e[0].1 + e[1].1 <= s.len() && shown_rule(e[1].0) && rule_of(e[1].0, s.skip(e[0].1 as int)) == Some(e[1].1)),
        None => s.len() == 0,
    }
}''')
    # what is produced for the first token(s) of the text ahead: the first alternative that matches
    for i, (f, names) in enumerate(alts):
        rest = 'lex_alt_%d(s)' % (i + 1) if i + 1 < len(alts) else 'None'
        more = 'lex_alt_fine_%d(s);' % (i + 1) if i + 1 < len(alts) else ''
        if len(names) == 1: e, p = 'seq![(LexRule::%s, n)]' % names[0], ''
        elif len(names) == 2:
            e = '{ let k = pg_%s(s)->Some_0; seq![(LexRule::%s, k), (LexRule::%s, (n - k) as nat)] }' % (names[0], names[0], names[1])
            p = ' bound_pg_%s(s); if let Some(k) = pg_%s(s) { if k <= s.len() { bound_pg_%s(s.skip(k as int)); } }' % (names[0], names[0], names[1])
        else: raise Bad('three rules in one alternative')
        out.append('#[verifier::opaque]\npub open spec fn lex_alt_%d(s: Seq<char>) -> Option<Seq<(LexRule, nat)>> { match %s(s) { Some(n) => Some(%s), None => %s } }' % (i, f, e, rest))
        out.append('pub proof fn lex_alt_fine_%d(s: Seq<char>)\n    ensures lex_fine(s, lex_alt_%d(s)),\n{ reveal(lex_alt_%d); bound_%s(s);%s %s }' % (i, i, i, f, p, more))
    out.append('pub open spec fn lex_one(s: Seq<char>) -> Option<Seq<(LexRule, nat)>> { lex_alt_0(s) }\npub proof fn lex_one_fine(s: Seq<char>)\n    ensures lex_fine(s, lex_one(s)),\n{ lex_alt_fine_0(s); }')
    return '\n'.join(out) + '\n'


if __name__ == '__main__':
    import sys
    print(generate(open(sys.argv[1]).read()))
