"""The HTML builder, without its borrowed context.

The renderer writes a tag as a chain of calls on a value which holds the context and
closes the tag when it is dropped. Verus checks no drops and no closures over `&mut`
state, so the chain is written out, call by call, in the order in which it runs:

  ctx.html().span().attr(attr!(K => V)).inner(|ctx| { BODY }).contents(E);

becomes

  { let mut vf_t = vf_tag(ctx, "span"); vf_t.attr(ctx, AddedAttributes { .. });
    vf_t.content_start(ctx); { BODY } vf_t.contents(ctx, E); vf_t.finish(ctx); }

The methods are those of /repo's builder.rs with `ctx` as a parameter instead of a
field, and `finish` is the body of its `Drop`. `inner(f)` is `content_start(); f(ctx)`
(pinned), and the attr! macro is expanded as attributes.rs says (pinned too).
A tag bound with `let mut x = ctx.html()...;` is finished at the end of its block.
Ghost code says which literal tag and attribute names occur.
"""
from rustlex import close


class Odd(Exception):
    pass


class Pass(object):
    def __init__(self, W, toks, Lost):
        self.W, self.toks, self.Lost = W, toks, Lost

    def odd(self, why):
        raise self.Lost('HTML builder used in an unknown way: ' + why)

    def run(self, ws):
        """ws: a body with its braces"""
        self.closures = {}
        out = self.block(ws[1:-1], set(), True)
        return [ws[0]] + out + [ws[-1]]

    # -- pieces
    def is_(self, ws, i, *pat):
        return i + len(pat) <= len(ws) and all(ws[i + k].t == p for k, p in enumerate(pat))

    def args_end(self, ws, i):
        return close(ws, i)

    def chain(self, ws, i):
        """Method calls from ws[i] == '.', as (name, args)."""
        calls = []
        while i + 2 < len(ws) and ws[i].t == '.' and ws[i + 2].t == '(':
            e = close(ws, i + 2)
            calls.append((ws[i + 1].t, ws[i + 3:e]))
            i = e + 1
        return i, calls

    def expr(self, ws, i):
        """End of one expression of a run of them (no binary operators)."""
        while ws[i].t in ('&', '!', '*'): i += 1
        if ws[i].t == 'match':
            while ws[i].t != '{': i += 1
            i = close(ws, i) + 1
        elif ws[i].t in ('(', '['): i = close(ws, i) + 1
        else: i += 1
        while i < len(ws):
            if ws[i].t in ('.', '::') : i += 2
            elif ws[i].t in ('(', '['): i = close(ws, i) + 1
            else: break
        return i

    def lit(self, ws):
        return len(ws) == 1 and ws[0].t.startswith('"')

    def attr(self, ws, bound):
        """attr!(...) tokens -> (ghost text, struct tokens)"""
        if not (self.is_(ws, 0, 'attr', '!', '(') and close(ws, 2) in (len(ws) - 1, len(ws) - 2)):
            self.odd('attr() of something else')
        ws = ws[3:close(ws, 2)]
        T, n, p, entries, amap, ghost = self.toks, len(ws), 0, [], None, ''
        while p < n:
            if self.is_(ws, p, ';', ';'):
                m = ws[p + 2:]
                if m and m[-1].t == ',': m = m[:-1]
                amap = m
                break
            e = self.expr(ws, p)
            key, p = ws[p:e], e
            if not self.lit(key): self.odd('attribute name is no literal')
            ghost += ' reveal_strlit(%s); assert(key_ok(%s@));' % (key[0].t, key[0].t)
            if key[0].t not in ('"href"', '"src"'): ghost += ' assert(!url_key(%s@));' % key[0].t
            else: ghost += ' broadcast use cat_first;'
            vals, cond = [], T('true')
            if p < n and ws[p].t == '=>':
                p += 1
                while p < n and ws[p].t not in (',', ';'):
                    e = self.expr(ws, p)
                    vals.append(ws[p:e]); p = e
                if key[0].t in ('"href"', '"src"') and vals and self.lit(vals[0]): ghost += ' reveal_strlit(%s);' % vals[0][0].t
            if p + 1 < n and ws[p].t == ';' and ws[p + 1].t == 'if':
                e = p + 2
                while e < n and ws[e].t not in (',', ';'):
                    e = close(ws, e) + 1 if ws[e].t in ('(', '[', '{') else e + 1
                cond, p = ws[p + 2:e], e
            if p < n and ws[p].t == ',': p += 1
            elif p < n and not self.is_(ws, p, ';', ';'): self.odd('attr! entry')
            entries.append((key, vals, cond))
        out = T('AddedAttributes { entries: &[')
        for key, vals, cond in entries:
            out += T('((') + key + T(', &[')
            for v in vals: out += T('(') + v + T(').x_str(),')
            out += T(']), (') + cond + T(')),')
        out += T('], map:') + (T('Some((') + amap + T(').x_map())') if amap else T('None')) + T('}')
        return ghost, out

    def open_tag(self, name, args):
        """Tokens of the call that opens a tag, and ghost code about its name."""
        if name == 'table_cell':
            return ' reveal_strlit("th"); reveal_strlit("td");', self.toks('vf_table_cell(ctx,') + args + self.toks(')')
        if name in ('tag', 'element'):
            g = ' reveal_strlit(%s);' % args[0].t if self.lit(args) else ''
            if name == 'element':
                g += ' reveal_strlit("wj-");'
                if self.lit(args): g += ' is_wj(%s@);' % args[0].t
            return g, self.toks('vf_%s(ctx,' % name) + args + self.toks(')')
        if args: self.odd('tag method with arguments')
        return ' reveal_strlit("%s");' % name, self.toks('vf_tag(ctx, "%s")' % name)

    def rest(self, var, calls, bound):
        out = []
        for name, args in calls:
            if name == 'attr':
                ghost, a = self.attr(args, bound)
                out += self.toks('proof { %s }' % ghost) if ghost else []
                out += self.toks('%s.attr(ctx,' % var) + a + self.toks(');')
            elif name == 'contents':
                out += self.toks('%s.contents(ctx,' % var) + args + self.toks(');')
            elif name == 'inner':
                out += self.toks('%s.content_start(ctx); {' % var) + self.closure(args, bound) + self.toks('}')
            else: self.odd('.%s()' % name)
        return out

    def closure(self, a, bound):
        if a and a[-1].t == ',': a = a[:-1]
        if len(a) == 1 and a[0].t in self.closures: return self.block(self.closures[a[0].t], bound, True)
        if not self.is_(a, 0, '|', 'ctx', '|'): self.odd('inner() of something else')
        a = a[3:]
        if a and a[0].t == '{' and close(a, 0) == len(a) - 1: out = self.block(a[1:-1], bound, True)
        else: out = self.block(a, bound, True) + self.toks(';')
        if any(w.t in ('return', '?') for w in out): self.odd('return from a closure')
        return out

    def stmt_end(self, ws, i):
        while i < len(ws) and ws[i].t not in (';', ','):
            i = close(ws, i) + 1 if ws[i].t in ('(', '[', '{') else i + 1
        return i

    def block(self, ws, bound, top=False, outer=None):
        """The inside of a block (or a closure)."""
        T, out, i, mine = self.toks, [], 0, []
        bound = set(bound)
        while i < len(ws):
            t = ws[i].t
            if t == 'let' and self.is_(ws, i + 2, '=', '|', 'ctx', ':') :
                e = self.stmt_end(ws, i)
                k = i + 6
                while ws[k].t != '|': k += 1
                b = ws[k + 1:e]
                if not (b and b[0].t == '{'): self.odd('closure')
                self.closures[ws[i + 1].t] = b[1:-1]
                i = e + 1
                continue
            if ws[i].t in self.closures and self.is_(ws, i + 1, '(', 'ctx', ')'):
                out += T('{') + self.block(self.closures[ws[i].t], bound, True) + T('}')
                i += 4
                continue
            if t == 'let' and self.is_(ws, i + 1, 'mut') and self.is_(ws, i + 3, '=', 'ctx', '.', 'html', '(', ')'):
                name = ws[i + 2].t
                j, calls = self.chain(ws, i + 9)
                if not self.is_(ws, j, ';'): self.odd('bound tag')
                g, op = self.open_tag(*calls[0])
                if g: out += T('proof { %s }' % g)
                out += T('let mut %s =' % name) + op + T(';') + self.rest(name, calls[1:], bound)
                bound.add(name); mine.append(name)
                if any(w.t in ('return', '?', 'break', 'continue') for w in ws[j:]): self.odd('jump past the end of a tag')
                i = j + 1
                continue
            if self.is_(ws, i, 'ctx', '.', 'html', '(', ')'):
                j, calls = self.chain(ws, i + 5)
                if j < len(ws) and ws[j].t not in (';', ',', '}'): self.odd('chain goes on')
                if not calls: self.odd('html()')
                if calls[0][0] == 'sprite':
                    if len(calls) != 1: self.odd('sprite')
                    out += (T('proof { reveal_strlit(%s); }' % calls[0][1][0].t) if False else []) + T('vf_sprite(ctx,') + calls[0][1] + T(')')
                else:
                    g, op = self.open_tag(*calls[0])
                    out += T('{') + (T('proof { %s }' % g) if g else []) + T('let mut vf_t =') + op + T(';') + self.rest('vf_t', calls[1:], bound) + T('vf_t.finish(ctx); }')
                i = j
                continue
            if ws[i].k == 'id' and t in bound and self.is_(ws, i + 1, '.') and ws[i + 2].t in ('attr', 'inner', 'contents') and (i == 0 or ws[i - 1].t not in ('.', '::')):
                j, calls = self.chain(ws, i + 1)
                out += T('{') + self.rest(t, calls, bound) + T('}')
                i = j
                continue
            if top and t == 'if' and outer is None:
                k = i + 1
                while k < len(ws) and ws[k].t != '{':
                    k = close(ws, k) + 1 if ws[k].t in ('(', '[') else k + 1
                if self.is_(ws, k, '{', 'return', ';', '}') and not self.is_(ws, k + 4, 'else'):
                    if mine: self.odd('jump past the end of a tag')
                    out += T('if !(') + ws[i + 1:k] + T(') {') + self.block(ws[k + 4:], bound, True) + T('}')
                    i = len(ws)
                    continue
            if t == '{':
                e = close(ws, i)
                out += [ws[i]] + self.block(ws[i + 1:e], bound) + [ws[e]]
                i = e + 1
                continue
            if t in ('(', '['):
                e = close(ws, i)
                out += [ws[i]] + self.block(ws[i + 1:e], bound) + [ws[e]]
                i = e + 1
                continue
            out.append(ws[i]); i += 1
        for name in reversed(mine):
            out += T('; %s.finish(ctx);' % name)
        return out
