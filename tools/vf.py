"""Contract units: lift functions and types out of /repo's current sources, add the
contracts written in /verif/contracts, and have Verus discharge the obligations.

A unit (contracts/NAME.vrs) is a Verus file in which `//@` lines ask for code:

  //@use strx                      include contracts/lib/strx.rs
  //@import url                    include contracts/url.vrs, its functions by their
                                   contracts only (they are proved in that unit)
  //@fn FILE [@ OWNER] NAME [r]    a function; OWNER is the start of the header of
                                   its impl/trait/fn; r names the return value
    //@sig <text>                  signature to use instead (the original one is pinned)
    //@spec                        contract clauses, put before the body
    //@loop K [it]                 invariants of loop K (source order, from 0)
    //@pre | //@in K | //@tail K | //@after K | //@post | //@at N `tokens`
                                   ghost code at function start, loop start, loop
                                   end, after the loop, function end, before a spot
    //@sub `tokens` => `tokens`    mechanical rewriting; $x matches a balanced run
    //@methods a b c               rename .a( to .x_a( (std wrappers with contracts)
    //@slices s t                  `&s[a..b]` becomes vf_slice(s, a, b), and so on
    //@fmt                         write!/str_write!/format! with plain {} become
                                   calls that append literal and shown text
    //@html                        HTML builder chains written out (tools/htmlpass.py)
    //@rename NEW
  //@end
  //@type FILE [@ OWNER] NAME      a struct/enum/const; //@keep f g (fields or
                                   variants kept), //@attr text, //@sub
  //@end
  //@pest FILE                     the lexer's grammar as specifications (tools/pest.py)
  //@pin FILE `tokens`             code that a contract relies on without lifting it;
                                   nothing is decided when it is not there any more

Always dropped by the extraction: comments, attributes, visibility, log macros
(trace!, debug!, ...). panic!/unreachable!/assert! become calls that must be proved
unreachable or true.
"""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import rustlex
from rustlex import close, OPEN, squash

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LOCK = os.path.join(VERIF, 'contracts', 'shapes.json')
LOGS = {'trace', 'debug', 'info', 'warn', 'error', 'println', 'eprintln'}
KEYWORDS = {'if', 'match', 'while', 'for', 'loop', 'return', 'in', 'let', 'else', 'fn', 'move', 'as', 'Some', 'Ok', 'Err', 'None'}
_files = {}


class Lost(Exception):
    """The code a contract is anchored to is not there (any more)."""


def rfile(path):
    p = os.path.join(REPO, path)
    if p not in _files:
        if not os.path.exists(p):
            raise Lost(path + ': no such file')
        _files[p] = rustlex.File(p)
    return _files[p]


def lift(path, owner, name, kinds):
    for kind in kinds:
        try:
            it = rfile(path).find(kind, name, owner)
            return it
        except LookupError as e:
            err = e
        except (ValueError, IndexError) as e:
            err = e
    raise Lost(str(err))


class W(object):
    """A working token: text plus the gap in front of it."""
    __slots__ = ('g', 't', 'k')

    def __init__(self, g, t, k):
        self.g, self.t, self.k = g, t, k


def work(src, ts):
    out, prev = [], None
    for t in ts:
        gap = '' if prev is None else src[prev:t.a]
        g = '\n' if '\n' in gap else (' ' if gap else '')
        out.append(W(g, t.t, t.k)); prev = t.b
    return out


def text(ws):
    return ''.join(w.g + w.t for w in ws)


def toks(s):
    return [W(' ', t.t, t.k) for t in rustlex.code(rustlex.lex(s))]


def wclose(ws, i):
    return close(ws, i)


def strip_common(ws):
    out, i = [], 0
    while i < len(ws):
        t = ws[i].t
        if t == '#' and i + 1 < len(ws) and ws[i + 1].t == '[':
            i = wclose(ws, i + 1) + 1
            continue
        if t == '#' and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t == '[':
            i = wclose(ws, i + 2) + 1
            continue
        if t == 'pub' and ws[i].k == 'id':
            i += 1
            if ws[i].t == '(':
                i = wclose(ws, i) + 1
            continue
        if ws[i].k == 'id' and t in LOGS and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t == '(':
            j = wclose(ws, i + 2) + 1
            if j < len(ws) and ws[j].t == ';':
                j += 1
            i = j
            continue
        if ws[i].k == 'id' and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t == '(' and t in ('panic', 'unreachable', 'todo', 'unimplemented'):
            j = wclose(ws, i + 2) + 1
            out += [W(ws[i].g, 'vf_unreachable', 'id'), W('', '(', 'p'), W('', ')', 'p')]
            i = j
            continue
        if ws[i].k == 'id' and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t == '(' and t in ('assert', 'debug_assert', 'assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
            j = wclose(ws, i + 2)
            args, depth, cur = [], 0, []
            for w in ws[i + 3:j]:
                if w.t in ('(', '[', '{'): depth += 1
                if w.t in (')', ']', '}'): depth -= 1
                if w.t == ',' and depth == 0:
                    args.append(cur); cur = []
                else:
                    cur.append(w)
            if cur: args.append(cur)
            if t.endswith('_eq') or t.endswith('_ne'):
                cond = args[0] + [W(' ', '==' if t.endswith('_eq') else '!=', 'op')] + args[1]
            else:
                cond = args[0]
            out += [W(ws[i].g, 'vf_check', 'id'), W('', '(', 'p')] + strip_common(cond) + [W('', ')', 'p')]
            i = j + 1
            continue
        out.append(ws[i]); i += 1
    return out


def match_at(ws, i, pat):
    """Index after the match and the bindings, or None."""
    b, p = {}, 0
    while p < len(pat):
        if pat[p].t == '$':
            name, nxt = pat[p + 1].t, (pat[p + 2].t if p + 2 < len(pat) else None)
            st = i
            anyt = name[0].isupper()      # $BODY also runs over semicolons
            while i < len(ws) and ws[i].t != nxt:
                if ws[i].t in OPEN and ws[i].k == 'p':
                    try: i = wclose(ws, i)
                    except ValueError: return None
                elif ws[i].t in (')', ']', '}') or (ws[i].t == ';' and not anyt):
                    return None
                i += 1
            if i >= len(ws):
                return None
            b[name] = ws[st:i]
            p += 2
            continue
        if i >= len(ws) or ws[i].t != pat[p].t:
            return None
        i += 1; p += 1
    return i, b


def substitute(ws, pat, rep):
    pat, out, i, n = toks(pat), [], 0, 0
    reptoks = toks(rep)
    while i < len(ws):
        m = match_at(ws, i, pat)
        if m is None:
            out.append(ws[i]); i += 1
            continue
        j, b = m
        r, k, first = [], 0, True
        while k < len(reptoks):
            if reptoks[k].t == '$' and k + 1 < len(reptoks) and reptoks[k + 1].t in b:
                r += b[reptoks[k + 1].t]; k += 2
            else:
                r.append(reptoks[k]); k += 1
        if r:
            r[0] = W(ws[i].g or ' ', r[0].t, r[0].k)
        out += r; i = j; n += 1
    return out, n


def slices(ws, names):
    """String slices by range, as calls with a contract."""
    out, i = [], 0
    while i < len(ws):
        w = ws[i]
        if w.k == 'id' and w.t in names and i + 1 < len(ws) and ws[i + 1].t == '[' and (not out or out[-1].t not in ('.', '::')):
            e = wclose(ws, i + 1)
            d, dots = 0, None
            for k in range(i + 2, e):
                if ws[k].t in OPEN and ws[k].k == 'p': d += 1
                if ws[k].t in (')', ']', '}'): d -= 1
                if ws[k].t == '..' and d == 0: dots = k
            if dots is not None:
                a, b = slices(ws[i + 2:dots], names), slices(ws[dots + 1:e], names)
                g = w.g
                if out and out[-1].t == '&': g = out.pop().g
                f = 'vf_slice' if a and b else 'vf_slice_from' if a else 'vf_slice_to'
                out += [W(g, f, 'id'), W('', '(', 'p'), W('', w.t, 'id')]
                for part in (a, b):
                    if part: out += [W('', ',', 'p')] + part
                out.append(W('', ')', 'p'))
                i = e + 1
                continue
        out.append(w); i += 1
    return out


def formats(ws):
    """Formatting macros, piece by piece."""
    out, i = [], 0
    while i < len(ws):
        w = ws[i]
        if w.k == 'id' and w.t in ('write', 'str_write', 'format') and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t == '(':
            e = wclose(ws, i + 2)
            args, d, cur = [], 0, []
            for x in ws[i + 3:e]:
                if x.t in ('(', '[', '{'): d += 1
                if x.t in (')', ']', '}'): d -= 1
                if x.t == ',' and d == 0: args.append(cur); cur = []
                else: cur.append(x)
            if cur: args.append(cur)
            dest = [] if w.t == 'format' else args.pop(0)
            lit = args.pop(0)
            m = len(lit) == 1 and re.match(r'"((?:[^"\\]|\\.)*)"$', lit[0].t, re.S)
            pieces = re.split(r'(\{\{|\}\}|\{\w*\})', m.group(1)) if m else None
            if pieces is not None and not any(('{' in x or '}' in x) and not re.match(r'\{\w*\}$|\{\{$|\}\}$', x) for x in pieces):
                calls, text_, ok = [], '', True
                name = 'vf_s' if w.t == 'format' else None
                def flush():
                    if text_: calls.append(('lit', '"%s"' % text_))
                for x in pieces:
                    if x in ('{{', '}}'): text_ += x[0]
                    elif re.match(r'\{\w*\}$', x):
                        flush(); text_ = ''
                        n = x[1:-1]
                        if n == '':
                            if not args: ok = False; break
                            calls.append(('show', formats(args.pop(0))))
                        elif n.isdigit(): ok = False; break
                        else: calls.append(('show', toks(n)))
                    else: text_ += x
                flush()
                if ok and not args:
                    d = toks('vf_s') if w.t == 'format' else dest
                    r = toks('{' + (' let mut vf_s = vf_new();' if w.t == 'format' else ''))
                    for k, v in calls:
                        if k == 'lit': r += d + toks('.x_lit(%s);' % v)
                        else: r += d + toks('.x_show(&(') + v + toks('));')
                    r += toks('vf_s }') if w.t == 'format' else (d + toks('.x_ok() }')) if w.t == 'write' else toks('}')
                    r[0] = W(w.g or ' ', r[0].t, r[0].k)
                    out += r
                    i = e + 1
                    continue
        out.append(w); i += 1
    return out


def split_args(ws, sep=','):
    out, d, cur = [], 0, []
    for x in ws:
        if x.t in ('(', '[', '{'): d += 1
        if x.t in (')', ']', '}'): d -= 1
        if x.t == sep and d == 0: out.append(cur); cur = []
        else: cur.append(x)
    if cur: out.append(cur)
    return out


def macros(ws):
    """Macros declared in the body (of one arm, taking expressions), and ok!, cow!, text!."""
    known = {}
    out, i = [], 0
    while i < len(ws):
        w = ws[i]
        if w.k == 'id' and w.t == 'macro_rules' and ws[i + 1].t == '!' and ws[i + 3].t == '{':
            e = wclose(ws, i + 3)
            p = i + 4
            pe = wclose(ws, p)
            if ws[pe + 1].t not in ('=>', '=') : raise Lost('macro %s' % ws[i + 2].t)
            b = pe + (2 if ws[pe + 1].t == '=>' else 3)
            be = wclose(ws, b)
            rest = [x.t for x in ws[be + 1:e]]
            params = [''.join(x.t for x in a) for a in split_args(ws[p + 1:pe])]
            if rest not in ([], [';']) or any(not re.match(r'\$\w+:expr$', a) for a in params): raise Lost('macro %s' % ws[i + 2].t)
            known[ws[i + 2].t] = ([a[1:-5] for a in params], ws[b + 1:be])
            i = e + 1
            continue
        if w.k == 'id' and i + 2 < len(ws) and ws[i + 1].t == '!' and ws[i + 2].t in ('(', '['):
            e = wclose(ws, i + 2)
            inner = macros_with(ws[i + 3:e], known)
            r = None
            if w.t in known:
                params, body = known[w.t]
                args = split_args(inner)
                if len(args) != len(params): raise Lost('macro %s' % w.t)
                r, k = [], 0
                while k < len(body):
                    if body[k].t == '$' and body[k + 1].t in params: r += args[params.index(body[k + 1].t)]; k += 2
                    else: r.append(body[k]); k += 1
                r = macros_with(r, known)
            elif w.t == 'cow': r = toks('Cow::Borrowed(') + split_args(inner)[0] + toks(')')
            elif w.t == 'text': r = toks('Element::Text(Cow::Borrowed(') + split_args(inner)[0] + toks('))')
            elif w.t == 'str': r = toks('vf_string(') + split_args(inner)[0] + toks(')')
            elif w.t == 'ok':
                parts = split_args(inner, ';')
                args = split_args(parts[-1])
                errors = args[1] if len(args) > 1 else toks('Vec::new()')
                if len(parts) == 2: r = toks('Ok(ParseSuccess::new(vf_to(') + args[0] + toks('),') + errors + toks(',') + parts[0] + toks('))')
                elif [x.t for x in args[0]] == ['Elements', '::', 'None'] and len(args) == 1: r = toks('vf_none()')
                else: r = toks('vf_ok(') + args[0] + toks(',') + errors + toks(')')
            if r is not None:
                if r: r[0] = W(w.g or ' ', r[0].t, r[0].k)
                out += r
                i = e + 1
                continue
        out.append(w); i += 1
    return out


def macros_with(ws, known):
    out, i = [], 0
    pre = []
    for n, (params, body) in known.items():
        pre += toks('macro_rules! %s { (' % n) + toks(','.join('$%s:expr' % a for a in params)) + toks(') => {') + body + toks('} }')
    return macros(pre + ws)


def find_loops(ws):
    """(keyword index, body brace index) of each loop, in source order."""
    out = []
    for i, w in enumerate(ws):
        if w.k == 'id' and w.t in ('for', 'while', 'loop') and not (w.t == 'for' and i + 1 < len(ws) and ws[i + 1].t == '<'):
            j = i + 1
            while ws[j].t != '{':
                if ws[j].t in ('(', '['):
                    j = wclose(ws, j)
                j += 1
            if w.t == 'while' and ws[i + 1].t == 'let':
                pass
            out.append((i, j))
    return out


def calls(ws):
    out = set()
    for i in range(len(ws) - 1):
        if ws[i].k == 'id' and ws[i].t not in KEYWORDS:
            if ws[i + 1].t == '(' or (ws[i + 1].t == '::' and i + 2 < len(ws) and ws[i + 2].t == '<'):
                out.add(ws[i].t)
            elif ws[i + 1].t == '!':
                out.add(ws[i].t + '!')
    return sorted(out)


class Fn(object):
    def __init__(self, path, owner, name, ret):
        self.path, self.owner, self.name, self.ret = path, owner, name, ret
        self.spec, self.loops, self.ghost, self.ops, self.sig, self.new = [], {}, [], [], None, None
        self.missing = []
        self.imported = None

    def key(self):
        return '%s%s::%s' % (self.path, '@' + squash(self.owner) if self.owner else '', self.name)

    def expand(self, probe):
        it = lift(self.path, self.owner, self.name, ['fn'])
        if it.body is None:
            raise Lost('%s has no body' % self.name)
        ws = strip_common(work(rfile(self.path).src, it.ts))
        b = next(i for i, w in enumerate(ws) if w.t == '{') if it.body is None else None
        # body brace: the bracket whose closing one is the last token
        b = next(i for i, w in enumerate(ws) if w.t == '{' and wclose(ws, i) == len(ws) - 1)
        self.shape = {'sig': text(ws[:b]).replace('\n', ' ').strip(), 'loops': len(find_loops(ws[b:])), 'calls': calls(ws[b:])}
        self.shape['sig'] = squash(self.shape['sig'])
        self.size = len(ws) - b
        head, body = ws[:b], ws[b:]
        # all it does is panic: what is proved of it is that it is never called
        self.refuses = [w.t for w in body[1:]] == ['vf_unreachable', '(', ')', '}']
        for op in self.ops:
            if op[0] == 'sub':
                body, n = substitute(body, op[1], op[2])
                h2, n2 = substitute(head, op[1], op[2])
                head = h2
                if n + n2 == 0 and not op[3]:
                    self.missing.append('no `%s` left to rewrite' % op[1])
            elif op[0] == 'methods':
                for i in range(len(body) - 2):
                    if body[i].t == '.' and body[i + 1].t in op[1] and body[i + 2].t in ('(', '::'):
                        body[i + 1] = W(body[i + 1].g, 'x_' + body[i + 1].t, 'id')
            elif op[0] == 'slices':
                body = slices(body, op[1])
            elif op[0] == 'fmt':
                body = formats(body)
            elif op[0] == 'macros':
                body = macros(body)
            elif op[0] == 'html':
                import htmlpass
                body = htmlpass.Pass(W, toks, Lost).run(body)
        # `mut self`  ->  `self`, then `let mut vf_self = self;`
        for i in range(len(head) - 1):
            if head[i].t == 'mut' and head[i + 1].t == 'self' and head[i - 1].t == '(':
                head = head[:i] + head[i + 1:]
                head[i] = W('', 'self', 'id')
                body = [body[0]] + toks('let mut vf_self = self;') + [W(w.g, 'vf_self', 'id') if w.t == 'self' else w for w in body[1:]]
                break
        # `for &PAT in E {`  ->  `for vf_e in E { let PAT = *vf_e;`
        lp = find_loops(body)
        for n, (i, j) in reversed(list(enumerate(lp))):
            if body[i].t == 'for' and body[i + 1].t == '&':
                k = next(k for k in range(i, j) if body[k].t == 'in')
                pat = body[i + 2:k]
                body = body[:i + 1] + toks('vf_e') + body[k:j + 1] + toks('let') + pat + toks('= *vf_e;') + body[j + 1:]
        lp = find_loops(body)
        ins = {}

        def put(i, s, first=False):
            ins.setdefault(i, [])
            if first: ins[i].insert(0, s)
            else: ins[i].append(s)
        for k, (it_name, clauses) in self.loops.items():
            if k >= len(lp):
                self.missing.append('loop %d' % k)
                continue
            i, j = lp[k]
            if clauses:
                put(j, '\n' + '\n'.join(clauses) + '\n')
            if it_name:
                if body[i].t != 'for':
                    self.missing.append('loop %d is no for loop' % k)
                else:
                    x = next(x for x in range(i, j) if body[x].t == 'in')
                    put(x + 1, ' %s:' % it_name)
        hides = []
        for where, arg, lines in self.ghost:
            s = '\n' + '\n'.join(lines) + '\n'
            if where == 'pre':
                # hide() has to come first
                n = next((k for k, ln in enumerate(lines) if not ln.strip().startswith('hide(')), len(lines))
                hides += lines[:n]
                put(1, '\n' + '\n'.join(lines[n:]) + '\n')
            elif where == 'post': put(len(body) - 1, s)
            elif where in ('in', 'tail', 'after', 'outside'):
                if arg >= len(lp):
                    self.missing.append('loop %d' % arg)
                    continue
                i, j = lp[arg]
                e = wclose(body, j)
                put({'in': j + 1, 'tail': e, 'after': e + 1, 'outside': i}[where], s)
            elif where in ('at', 'past'):
                n, pat = arg
                hits = [i for i in range(len(body)) if match_at(body, i, toks(pat))]
                if len(hits) <= n:
                    self.missing.append('no `%s`' % pat)
                    continue
                put(hits[n] if where == 'at' else match_at(body, hits[n], toks(pat))[0], s)
        if probe:
            put(1, '\nproof { assert(false); }\n', True)
        if hides:
            put(1, '\n' + '\n'.join(hides) + '\n', True)
        out = []
        for i, w in enumerate(body):
            for s in ins.get(i, []):
                out.append(s)
            out.append(w.g + w.t)
        if self.sig is not None:
            h = '\n'.join(self.sig)
        else:
            if self.new:
                k = next(i for i, w in enumerate(head) if w.t == 'fn')
                head[k + 1] = W(' ', self.new, 'id')
            if self.ret:
                k = None
                d = 0
                for i, w in enumerate(head):
                    if w.t in ('(', '['): d += 1
                    elif w.t in (')', ']'): d -= 1
                    elif w.t == '->' and d == 0:
                        k = i
                        break
                if k is None:
                    h = text(head)
                else:
                    e = next((i for i in range(k, len(head)) if head[i].t == 'where'), len(head))
                    h = text(head[:k + 1]) + ' (%s:%s)' % (self.ret, text(head[k + 1:e])) + text(head[e:])
            else:
                h = text(head)
        if self.imported:
            self.missing = []
            return '#[verifier::external_body]\n' + h + '\n' + '\n'.join(self.spec) + '\n{ unimplemented!() }\n'
        res = h + '\n' + '\n'.join(self.spec) + '\n' + ''.join(out) + '\n'
        return res


class Ty(object):
    def __init__(self, path, owner, name):
        self.path, self.owner, self.name = path, owner, name
        self.keep, self.attr, self.ops = None, [], []
        self.missing = []

    def key(self):
        return '%s::%s' % (self.path, self.name)

    def expand(self, probe):
        it = lift(self.path, self.owner, self.name, ['struct', 'enum', 'const', 'static', 'trait', 'type'])
        ws = strip_common(work(rfile(self.path).src, it.ts))
        self.size = len(ws)
        if self.keep is not None:
            b = next(i for i, w in enumerate(ws) if w.t == '{')
            parts, cur, i = [], [], b + 1
            while i < len(ws) - 1:
                if ws[i].t in OPEN and ws[i].k == 'p':
                    j = wclose(ws, i); cur += ws[i:j + 1]; i = j + 1
                    continue
                if ws[i].t == ',' and text(cur).count('<') == text(cur).count('>'):
                    parts.append(cur); cur = []
                else:
                    cur.append(ws[i])
                i += 1
            if cur: parts.append(cur)
            kept = [p for p in parts if p[0].t in self.keep]
            gone = [k for k in self.keep if k not in [p[0].t for p in parts]]
            if gone:
                raise Lost('%s has no %s' % (self.name, ', '.join(gone)))
            out = ws[:b + 1]
            for p in kept: out += p + [W('', ',', 'p')]
            ws = out + [ws[-1]]
            self.dropped = [p[0].t for p in parts if p[0].t not in self.keep]
        for op in self.ops:
            if op[0] == 'sub':
                ws, n = substitute(ws, op[1], op[2])
                if n == 0 and not op[3]: self.missing.append('no `%s` left to rewrite' % op[1])
        self.shape = {'sig': squash(text(ws)) if it.kind in ('struct', 'enum') else '', 'loops': 0, 'calls': []}
        # Verus wants fields to be visible where specifications mention them
        if it.kind in ('struct', 'enum') :
            return '\n'.join(self.attr) + '\n' + pubfields(it.kind, ws) + '\n'
        return '\n'.join(self.attr) + '\npub ' + text(ws) + '\n'


class Grammar(Ty):
    """The lexer's grammar, as specifications."""
    def expand(self, probe):
        import pest
        self.shape = {'sig': '', 'loops': 0, 'calls': []}
        p = os.path.join(REPO, self.path)
        if not os.path.exists(p): raise Lost(self.path + ': no such file')
        with open(p) as f: src = f.read()
        try: return pest.generate(src)
        except pest.Bad as e: raise Lost('%s: %s' % (self.path, e))


def pubfields(kind, ws):
    if kind == 'enum':
        return 'pub ' + text(ws)
    b = next((i for i, w in enumerate(ws) if w.t in ('{', '(') ), None)
    if b is None or (ws[b].t == '(' and ws[-1].t != ';'):
        return 'pub ' + text(ws)
    if ws[b].t == '(':
        out, d = [], 0
        start = True
        for w in ws[b + 1:]:
            if start and w.t != ')':
                out.append(W('', 'pub ', 'id')); start = False
            if w.t in ('(', '<', '['): d += 1
            if w.t in (')', '>', ']'): d -= 1
            if w.t == ',' and d == 0: start = True
            out.append(w)
        return 'pub ' + text(ws[:b + 1]) + text(out)
    out, d, start = [], 0, True
    e = wclose(ws, b)
    for w in ws[b + 1:e]:
        if start:
            out.append(W(w.g, 'pub ', 'id')); start = False
        if w.t in ('(', '<', '[', '{'): d += 1
        if w.t in (')', '>', ']', '}'): d -= 1
        out.append(w)
        if w.t == ',' and d == 0: start = True
    return 'pub ' + text(ws[:b + 1]) + text(out) + text(ws[e:])


SUB = re.compile(r'//@sub\??\s*`(.*)`\s*=>\s*`(.*)`')


class Unit(object):
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(VERIF, 'contracts', name + '.vrs')
        with open(self.path) as f:
            self.lines = f.read().split('\n')
        self.parts, self.uses, self.assume, self.pins = [], [], [], []
        self.parse(self.lines)

    def parse(self, lines, imported=None):
        cur, sink = None, None
        for n, ln in enumerate(lines):
            s = ln.strip()
            if not s.startswith('//@'):
                if cur is None: self.parts.append(ln)
                elif sink is not None: sink.append(ln)
                elif s: raise SyntaxError('%s:%d: stray line in a block' % (self.path, n + 1))
                continue
            w = s[3:].split()
            if w[0] == 'use':
                for x in w[1:]:
                    if x in self.uses: continue
                    self.uses.append(x)
                    with open(os.path.join(VERIF, 'contracts', 'lib', x + '.rs')) as f:
                        sub = f.read().split('\n')
                    self.parse(sub, imported)
            elif w[0] == 'import':
                for x in w[1:]:
                    if '=' + x in self.uses: continue
                    self.uses.append('=' + x)
                    with open(os.path.join(VERIF, 'contracts', x + '.vrs')) as f:
                        self.parse(f.read().split('\n'), x)
            elif w[0] == 'fn' or w[0] == 'type':
                m = re.match(r'//@(?:fn|type)\s+(\S+)\s+(?:@\s*`([^`]*)`\s+)?(\S+)(?:\s+(\w+))?$', s)
                if not m: raise SyntaxError('%s:%d' % (self.path, n + 1))
                cur = Fn(m.group(1), m.group(2), m.group(3), m.group(4)) if w[0] == 'fn' else Ty(m.group(1), m.group(2), m.group(3))
                if isinstance(cur, Fn): cur.imported = imported
                sink = None
                self.parts.append(cur)
            elif w[0] == 'pest':
                g = Grammar(w[1], None, 'grammar')
                g.imported = imported
                self.parts.append(g)
            elif w[0] == 'end': cur, sink = None, None
            elif w[0] == 'spec': sink = cur.spec
            elif w[0] == 'sig': cur.sig = sink = []
            elif w[0] == 'loop':
                sink = []
                cur.loops[int(w[1])] = (w[2] if len(w) > 2 else None, sink)
            elif w[0] in ('pre', 'post'):
                sink = []
                cur.ghost.append((w[0], None, sink))
            elif w[0] in ('in', 'tail', 'after', 'outside'):
                sink = []
                cur.ghost.append((w[0], int(w[1]), sink))
            elif w[0] in ('at', 'past'):
                sink = []
                m = re.match(r'//@(?:at|past)\s+(\d+)\s+`(.*)`$', s)
                cur.ghost.append((w[0], (int(m.group(1)), m.group(2)), sink))
            elif w[0] in ('sub', 'sub?'):
                m = SUB.match(s)
                if not m: raise SyntaxError('%s:%d' % (self.path, n + 1))
                cur.ops.append(('sub', m.group(1), m.group(2), w[0] == 'sub?')); sink = None
            elif w[0] == 'methods': cur.ops.append(('methods', set(w[1:]))); sink = None
            elif w[0] == 'slices': cur.ops.append(('slices', set(w[1:]))); sink = None
            elif w[0] == 'macros': cur.ops.append(('macros',)); sink = None
            elif w[0] == 'fmt': cur.ops.append(('fmt',)); sink = None
            elif w[0] == 'html': cur.ops.append(('html',)); sink = None
            elif w[0] == 'rename': cur.new = w[1]; sink = None
            elif w[0] == 'keep': cur.keep = w[1:]; sink = None
            elif w[0] == 'attr': cur.attr.append(s[len('//@attr'):].strip()); sink = None
            elif w[0] == 'assume': self.assume.append(' '.join(w[1:]))
            elif w[0] == 'pin':
                m = re.match(r'//@pin\s+(\S+)\s+`(.*)`$', s)
                self.pins.append((m.group(1), m.group(2)))
            else: raise SyntaxError('%s:%d: %s' % (self.path, n + 1, w[0]))

    def blocks(self):
        return [p for p in self.parts if not isinstance(p, str) and not getattr(p, 'imported', None)]

    def source(self, probe=False):
        """(text, map from line to block)."""
        out, where, line = ['#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_assignments)]', 'use vstd::prelude::*;', 'verus! {', HEAD], [], 0
        line = sum(s.count('\n') + 1 for s in out)
        seen = set()
        for p in self.parts:
            if isinstance(p, str) and p.startswith(('use ', 'broadcast use ')):
                if p.strip() in seen: continue
                seen.add(p.strip())
            s = p if isinstance(p, str) else p.expand(probe)
            if not isinstance(p, str):
                where.append((line + 1, line + s.count('\n') + 1, p))
            out.append(s); line += s.count('\n') + 1
        out.append('} // verus!\nfn main() {}\n')
        return '\n'.join(out), where


HEAD = '''
#[verifier::external_body]
pub fn vf_unreachable() -> !
    requires false,
{ unreachable!() }
pub fn vf_check(b: bool)
    requires b,
{ }
'''

OBLIGATION = re.compile(r'(postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|unable to prove|recommendation not met|possible (under|over)flow|might not|could not (prove|show)|index out of bounds|value may be out of range|constructed value may fail|possible bit shift|loop must have a decreases|requires not satisfied|assert_by_compute)')
GIVE_UP = re.compile(r'(rlimit|resource limit|timed? ?out|unexpected output from|Solver|solver)', re.I)


def verus(path, extra=()):
    env = dict(os.environ)
    env['RUSTUP_TOOLCHAIN'] = '1.98.1'
    env.pop('RUSTFLAGS', None)
    cmd = ['verus', path, '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--multiple-errors', '4', '--rlimit', '40'] + list(extra) + ['--', '--error-format=json', '-Awarnings']
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=400, cwd=os.path.dirname(path))
        out, err, rc = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired:
        return {'rc': None, 'diags': [], 'summary': {}, 'wall': time.time() - t, 'raw': 'timed out after 400 s', 'smt_ms': 0, 'functions': []}
    diags = []
    for ln in err.split('\n'):
        k = ln.find('{"$message_type"')
        if k >= 0:
            try: d = json.JSONDecoder().raw_decode(ln[k:])[0]
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                diags.append(d)
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    fns = []
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            fns.append((f.get('function'), f.get('success')))
    return {'rc': rc, 'diags': diags, 'summary': j.get('verification-results', {}), 'smt_ms': j.get('times-ms', {}).get('smt', {}).get('total', 0), 'functions': fns, 'wall': time.time() - t, 'raw': (err[-4000:] if not diags else ''), 'version': j.get('verus', {}).get('version')}


def lock():
    try:
        with open(LOCK) as f: return json.load(f)
    except (OSError, ValueError):
        return {}


def check_unit(name, outdir, probe=True):
    """Verify one unit. status: proved | failed (obligations refused) | undecided."""
    u = Unit(name)
    res = {'unit': name, 'functions': [], 'types': [], 'failed': [], 'reasons': [], 'assumptions': list(u.assume), 'obligations': 0, 'discharged': 0, 'smt_ms': 0, 'wall_s': 0, 'rewrites': []}
    try:
        src, where = u.source()
    except Lost as e:
        res['status'] = 'undecided'; res['reasons'].append('lost anchor: %s' % e)
        return res
    except Exception as e:
        res['status'] = 'undecided'; res['reasons'].append('extraction failed: %r' % e)
        return res
    base = lock().get(name, {})
    changed = []
    known = set()
    for s in base.values(): known |= set(s['calls'])
    for b in u.blocks():
        (res['functions'] if isinstance(b, Fn) else res['types']).append(b.key())
        for op in b.ops:
            if op[0] == 'sub': res['rewrites'].append('%s: `%s` => `%s`' % (b.key(), op[1], op[2]))
        if getattr(b, 'dropped', None): res['rewrites'].append('%s: fields/variants left out: %s' % (b.key(), ', '.join(b.dropped)))
        if getattr(b, 'sig', None): res['rewrites'].append('%s: signature given as `%s`' % (b.key(), ' '.join(' '.join(b.sig).split())))
        was = base.get(b.key())
        if b.missing: changed.append('%s: %s' % (b.key(), '; '.join(b.missing)))
        if was:
            if was['sig'] != b.shape['sig']: changed.append('%s: declaration changed' % b.key())
            if was['loops'] != b.shape['loops']: changed.append('%s: loops changed' % b.key())
            new = set(b.shape['calls']) - known
            if new: changed.append('%s: calls %s' % (b.key(), ', '.join(sorted(new))))
    for path, pat in u.pins:
        try: src_ = work(rfile(path).src, rustlex.code(rustlex.lex(rfile(path).src)))
        except Lost: src_ = []
        src_, want = [w.t for w in src_], [w.t for w in toks(pat)]
        if not any(src_[i:i + len(want)] == want for i in range(len(src_))):
            res['status'] = 'undecided'; res['reasons'].append('code relied on is not there any more: %s: `%s`' % (path, pat))
    if res.get('status'): return res
    res['shape_changes'] = changed
    f = os.path.join(outdir, name + '.rs')
    with open(f, 'w') as h: h.write(src)
    jobs = [lambda: verus(f)]
    if probe:
        psrc, pwhere = Unit(name).source(True)
        pf = os.path.join(outdir, name + '_probe.rs')
        with open(pf, 'w') as h: h.write(psrc)
        jobs.append(lambda: verus(pf))
    with ThreadPoolExecutor(2) as ex:
        rs = list(ex.map(lambda j: j(), jobs))
    r = rs[0]
    s = r['summary']
    res['wall_s'] = round(sum(x['wall'] for x in rs), 2)
    res['smt_ms'] = r['smt_ms']
    res['discharged'] = s.get('verified', 0) or 0
    res['obligations'] = res['discharged'] + (s.get('errors', 0) or 0)
    mine = set(p.name for p in u.parts if isinstance(p, Fn) and p.imported)
    res['assumptions'] += [a for a in assumptions(src) if a.split(':')[0].replace('fn ', '') not in mine]
    res['relies_on'] = sorted(set('%s (proved in unit %s)' % (p.key(), p.imported) for p in u.parts if isinstance(p, Fn) and p.imported))

    def block_of(d, table):
        for sp in sorted(d.get('spans', []), key=lambda x: not x.get('is_primary')):
            for a, b, p in table:
                if a <= sp['line_start'] <= b: return p
        # an obligation inside a block may point elsewhere first
        return None
    if r['rc'] == 0 and s.get('success') and res['discharged'] > 0:
        res['status'] = 'proved'
    else:
        hard = [d for d in r['diags'] if not OBLIGATION.search(d['message'])]
        fails = [d for d in r['diags'] if OBLIGATION.search(d['message'])]
        for d in fails:
            blk = None
            for sp in d.get('spans', []):
                for a, b, p in where:
                    if a <= sp['line_start'] <= b and isinstance(p, Fn): blk = p
            res['failed'].append({'function': blk.key() if blk else None, 'obligation': d['message'], 'verifier': d.get('rendered', '')[:3000]})
        if hard or not fails or s.get('encountered-vir-error'):
            res['status'] = 'undecided'
            res['reasons'] += ['verifier gave no answer: ' + d['message'][:300] for d in hard] or [r['raw'][-600:] or 'no result']
        elif changed:
            res['status'] = 'undecided'
            res['reasons'] += ['code changed shape, contracts no longer fit: ' + c for c in changed]
        else:
            res['status'] = 'failed'
    if probe and res['status'] == 'proved':
        p = rs[1]
        hit = set()
        for d in p['diags']:
            for sp in d.get('spans', []):
                for a, b, q in pwhere:
                    if a <= sp['line_start'] <= b: hit.add(q.key())
        want = set(b.key() for b in u.blocks() if isinstance(b, Fn) and not b.refuses)
        vac = sorted(want - hit)
        res['probed'] = len(want)
        if vac:
            res['status'] = 'undecided'
            res['reasons'].append('vacuous: assert(false) was accepted in ' + ', '.join(vac))
    return res


def assumptions(src):
    """Mechanical scan for what Verus was told to believe."""
    out = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:axiom\s+)?(?:const\s+)?(?:proof\s+)?(fn|struct|enum)\s+(\w+)', src):
        if m.group(2) not in ('vf_unreachable',):
            out.append('%s %s: body trusted, contract assumed' % (m.group(1), m.group(2)))
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]', src):
        out.append('assumed contract of %s' % ' '.join(m.group(1).split()))
    for m in re.finditer(r'(?:axiom\s+fn|uninterp\s+spec\s+fn)\s+(\w+)', src):
        out.append('%s: %s' % ('axiom' if 'axiom' in m.group(0) else 'uninterpreted', m.group(1)))
    for m in re.finditer(r'\b(assume|admit)\s*\(', src):
        out.append('%s() in the generated file' % m.group(1))
    return sorted(set(out))


def main():
    a = sys.argv[1:]
    if a and a[0] == 'lock':
        d = {}
        for f in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
            if f.endswith('.vrs'):
                u = Unit(f[:-4]); u.source()
                d[u.name] = {b.key(): b.shape for b in u.blocks()}
        with open(LOCK, 'w') as h: json.dump(d, h, indent=1, sort_keys=True); h.write('\n')
        return
    out = os.environ.get('VF_OUT', '/tmp/vf')
    os.makedirs(out, exist_ok=True)
    if a and a[0] == 'gen':
        print(Unit(a[1]).source()[0]); return
    noprobe = '-n' in a
    for n in [x for x in a if x != '-n']:
        r = check_unit(n, out, probe=not noprobe)
        print(n, r['status'], '%d/%d' % (r['discharged'], r['obligations']), 'smt %d ms wall %.1f s' % (r['smt_ms'], r['wall_s']))
        for x in r['reasons'] + r.get('shape_changes', []): print('   ', x)
        for x in r['failed']: print('   FAILED', x['function'], '\n', x['verifier'])
        if r['status'] == 'undecided' and not r['failed']:
            pass


if __name__ == '__main__':
    main()
