"""Mechanical extraction of Rust functions from /repo into Verus input.

The text of every extracted item is the text in /repo, byte for byte, except for the
edits that this module makes and records (see `Edits.log`): contract clauses, loop
invariants and proof blocks are inserted; attributes, doc comments, logging macros and
items local to a body are dropped; a small number of named rewrites are applied.
Anything that does not match raises `Structural`: the caller then reports the property
as not re-proved and falls back on the bounded stand-in.
"""
import re


class Structural(Exception):
    """The code no longer has the shape the annotations are anchored to."""


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'\n])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
 |(?P<p>=>|->|::|&&|\|\||\.\.=|\.\.|<=|>=|==|!=|.)
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 's', 'a', 'b', 'm')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, None

    def __repr__(self):
        return f'{self.s!r}@{self.a}'


def tokenize(src, partial=False):
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if m.group('bc'):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if m.group('rstr'):
            end = '"' + (m.group('h') or '')
            j = src.find(end, m.end())
            if j < 0: raise Structural('unterminated raw string')
            out.append(Tok('str', src[i:j + len(end)], i, j + len(end)))
            i = j + len(end)
            continue
        if k in ('ws', 'lc'):
            i = m.end()
            continue
        s = m.group(k)
        out.append(Tok({'life': 'life', 'id': 'id', 'num': 'num', 'str': 'str', 'char': 'char'}.get(k, 'p'), s, i, m.end()))
        i = m.end()
    st = []
    for x, t in enumerate(out):
        if t.k == 'p' and t.s in '([{':
            st.append(x)
        elif t.k == 'p' and t.s in ')]}':
            if not st:
                if partial: continue
                raise Structural('unbalanced brackets')
            o = st.pop()
            out[o].m, t.m = x, o
    if st and not partial: raise Structural('unbalanced brackets')
    return out


class Item:
    """kind: fn/struct/enum/trait/impl/other; token indexes into file.toks."""

    def __init__(self, file, kind, name, attr0, t0, t1, **kw):
        self.file, self.kind, self.name = file, kind, name
        self.attr0, self.t0, self.t1 = attr0, t0, t1  # t1 exclusive
        self.__dict__.update(kw)

    def text(self):
        return self.file.src[self.file.toks[self.t0].a:self.file.toks[self.t1 - 1].b]

    def norm(self):
        return norm(self.file.toks[self.t0:self.t1])


def norm(toks):
    return ' '.join(t.s for t in toks)


def skip_generics(T, i):
    """T[i] is '<'; returns the index after the matching '>'."""
    d = 0
    while True:
        s = T[i].s
        if s == '<': d += 1
        elif s == '>': d -= 1
        elif s in '([{' and T[i].m is not None and T[i].k == 'p': i = T[i].m
        i += 1
        if d == 0: return i


class RustFile:
    def __init__(self, path, src=None):
        self.path = path
        self.src = open(path).read() if src is None else src
        self.toks = tokenize(self.src)
        self.items = self.parse(0, len(self.toks))

    def parse(self, i, end):
        T, items = self.toks, []
        while i < end:
            attr0 = i
            attrs = []
            while i < end and T[i].s == '#':
                j = i + 1
                if T[j].s == '!': j += 1
                attrs.append(norm(T[i:T[j].m + 1]))
                i = T[j].m + 1
            if i >= end: break
            t0 = i
            # visibility and qualifiers
            while T[i].s in ('pub', 'unsafe', 'const', 'async', 'default', 'extern'):
                if T[i].s == 'const' and T[i + 1].k == 'id' and T[i + 1].s not in ('fn', 'unsafe', 'extern', 'async'): break
                if T[i].s == 'pub' and T[i + 1].s == '(': i = T[i + 1].m + 1
                elif T[i].s == 'extern' and T[i + 1].k == 'str': i += 2
                else: i += 1
            k = T[i].s
            if k == 'fn':
                name = T[i + 1].s
                j = i + 2
                gen = None
                if T[j].s == '<':
                    e = skip_generics(T, j); gen = (j, e); j = e
                params = (j, T[j].m + 1)
                j = T[j].m + 1
                ret = where = body = None
                if T[j].s == '->':
                    r0 = j + 1
                    while not (T[j].s in ('where', ';', '{')):
                        j = T[j].m + 1 if (T[j].k == 'p' and T[j].s in '([') else j + 1
                    ret = (r0, j)
                if T[j].s == 'where':
                    w0 = j
                    while T[j].s not in (';', '{'):
                        j = T[j].m + 1 if (T[j].k == 'p' and T[j].s in '([') else j + 1
                    where = (w0, j)
                if T[j].s == '{':
                    body = (j, T[j].m); j = T[j].m + 1
                else:
                    j += 1
                items.append(Item(self, 'fn', name, attr0, t0, j, attrs=attrs, fn=i, gen=gen, params=params, ret=ret, where=where, body=body))
                i = j
            elif k in ('impl', 'trait', 'mod') or (k == 'macro_rules'):
                j = i
                while T[j].s not in ('{', ';'):
                    j = T[j].m + 1 if (T[j].k == 'p' and T[j].s in '([') else j + 1
                if T[j].s == ';':
                    items.append(Item(self, 'other', None, attr0, t0, j + 1, attrs=attrs))
                    i = j + 1
                    continue
                b = (j, T[j].m)
                name = T[i + 1].s if k != 'impl' else norm(T[i:j])
                inner = self.parse(j + 1, T[j].m) if k in ('impl', 'trait', 'mod') else []
                items.append(Item(self, k if k != 'macro_rules' else 'other', name, attr0, t0, T[j].m + 1, attrs=attrs, head=(t0, j), body=b, items=inner))
                i = T[j].m + 1
            elif k in ('struct', 'enum', 'union'):
                j = i
                while T[j].s not in ('{', ';'):
                    j = T[j].m + 1 if (T[j].k == 'p' and T[j].s in '([') else j + 1
                e = T[j].m + 1 if T[j].s == '{' else j + 1
                items.append(Item(self, k, T[i + 1].s, attr0, t0, e, attrs=attrs))
                i = e
            else:
                # use, const, static, type, macro call
                j = i
                while j < end and T[j].s != ';':
                    if T[j].k == 'p' and T[j].s in '([{':
                        closed = T[j].s == '{' and k not in ('use', 'const', 'static', 'type')
                        j = T[j].m + 1
                        if closed: j -= 1; break
                    else: j += 1
                name = T[i + 1].s if k in ('const', 'static', 'type') else None
                items.append(Item(self, k if k in ('const', 'static', 'type', 'use') else 'other', name, attr0, t0, min(j + 1, end), attrs=attrs))
                i = j + 1
        return items

    def walk(self, items=None):
        for it in (self.items if items is None else items):
            yield it
            if getattr(it, 'items', None) and it.kind == 'mod':
                yield from self.walk(it.items)

    def live(self, it):
        return not any('cfg ( test' in a for a in it.attrs)

    def find(self, kind, name):
        c = [x for x in self.walk() if x.kind == kind and x.name == name and self.live(x)]
        if len(c) != 1: raise Structural(f'{self.path}: {len(c)} items `{kind} {name}`')
        return c[0]

    def impls(self, header):
        """All impl blocks whose header (tokens before `where`) equals `header`."""
        want = norm(tokenize(header))
        r = []
        for x in self.walk():
            if x.kind == 'impl':
                h = norm(self.toks[x.head[0]:x.head[1]])
                h0 = h.split(' where ')[0]
                if h == want or h0 == want: r.append(x)
        if not r: raise Structural(f'{self.path}: no `{header}`')
        return r


# ---------------------------------------------------------------- edits inside one item
class Edits:
    def __init__(self, file):
        self.f, self.e, self.log = file, [], []
        self.seq = 0

    def insert(self, off, text, prio=0):
        self.seq += 1
        self.e.append((off, off, prio, self.seq, text))

    def replace(self, a, b, text):
        self.seq += 1
        self.e.append((a, b, 0, self.seq, text))

    def apply(self, a, b):
        src, out, pos = self.f.src, [], a
        for x, y, _, _, t in sorted(self.e, key=lambda q: (q[0], q[1] != q[0], q[2], q[3])):
            if x < a or y > b: raise Structural('edit outside item')
            if x < pos: raise Structural('overlapping edits')
            out.append(src[pos:x]); out.append(t); pos = y
        out.append(src[pos:b])
        return ''.join(out)


def comments_to_space(s):
    return s


LOG_MACROS = ('trace', 'debug', 'info', 'println', 'print', 'eprintln')


def drop_logging(f, ed, i, j):
    """Statements `trace!(..);` and local items are dropped (logging has no effect on results)."""
    T = f.toks
    k = i
    while k < j:
        t = T[k]
        if t.k == 'id' and t.s in LOG_MACROS and T[k + 1].s == '!' and T[k + 2].s in '([{':
            e = T[k + 2].m + 1
            if T[e].s == ';': e += 1
            ed.replace(t.a, T[e - 1].b, '')
            ed.log.append(f'dropped `{t.s}!` statement')
            k = e
            continue
        if t.s == '#' and T[k + 1].s == '[':
            # attribute on a local item or statement
            ed.replace(t.a, T[T[k + 1].m].b, '')
            ed.log.append('dropped attribute in body')
            k = T[k + 1].m + 1
            continue
        if t.k == 'id' and t.s == 'struct' and T[k + 1].k == 'id' and T[k + 2].s == '{':
            ed.replace(t.a, T[T[k + 2].m].b, '')
            ed.log.append(f'dropped local struct {T[k+1].s}')
            k = T[k + 2].m + 1
            continue
        if t.k == 'id' and t.s == 'if' and T[k + 1].s == 'cfg' and T[k + 2].s == '!' and norm(T[k + 3:T[k + 3].m + 1]) == '( feature = "log" )':
            o = T[k + 3].m + 1
            if T[o].s == '{' and T[T[o].m + 1].s != 'else':
                ed.replace(t.a, T[T[o].m].b, '')
                ed.log.append('dropped `if cfg!(feature = "log")` block')
                k = T[o].m + 1
                continue
        if t.k == 'id' and t.s in ('panic', 'unreachable') and T[k + 1].s == '!' and T[k + 2].s == '(' and any(x.s == ',' for x in T[k + 3:T[k + 2].m]):
            ed.replace(T[k + 3].a, T[T[k + 2].m - 1].b, '')
            ed.log.append(f'message of `{t.s}!` dropped')
            k = T[k + 2].m + 1
            continue
        if t.k == 'id' and t.s in ('debug_assert', 'debug_assert_eq', 'debug_assert_ne', 'assert_eq', 'assert_ne') and T[k + 1].s == '!':
            o, c = k + 2, T[k + 2].m
            args = split_commas(T, o + 1, c)
            if t.s == 'debug_assert':
                ed.replace(t.a, T[k + 1].b, 'assert!')
            else:
                if len(args) < 2: raise Structural('assert macro')
                op = '==' if t.s.endswith('_eq') else '!='
                ed.replace(t.a, T[o].b, 'assert!((')
                ed.insert(T[args[0][1] - 1].b, f') {op} (')
                ed.replace(T[args[0][1]].a, T[args[0][1]].b, '')
                end = args[1][1]
                ed.replace(T[end - 1].b, T[c].b, '))')
            ed.log.append(f'`{t.s}!` taken as `assert!`')
            k = o + 1
            continue
        k += 1
    drop_for_logging(f, ed, i, j)


QUIET = ('iter', 'copied', 'cloned', 'enumerate', 'take', 'zip', 'names', 'sym_source', 'generate_fresh', 'num_syms')


def drop_for_logging(f, ed, i, j):
    """What is left over by the logging: a `for` whose whole body was dropped and whose iterator is a chain of QUIET
    calls, and a `let name = |..| ..;` whose name stands only in what was dropped."""
    T = f.toks
    gone = lambda: [(a, b) for a, b, _, _, t in ed.e if a != b and t == '']
    def drop(a, b, what):
        ed.e = [e for e in ed.e if not (a <= e[0] and e[1] <= b)]
        ed.replace(a, b, ''); ed.log.append(what)
    g = gone(); inside = lambda off: any(a <= off < b for a, b in g)
    k = i
    while k < j:
        if T[k].k == 'id' and T[k].s == 'for' and T[k + 1].s != '<' and T[k - 1].s in ('{', '}', ';') and not inside(T[k].a):
            q = k + 1
            while T[q].s != 'in': q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([{') else q + 1
            h = q + 1
            while T[h].s != '{': h = T[h].m + 1 if (T[h].k == 'p' and T[h].s in '([') else h + 1
            e = T[h].m; calls = [T[x - 1].s for x in range(q + 2, h) if T[x].s == '(' and T[x - 1].k == 'id']
            if e > h + 1 and all(inside(T[x].a) for x in range(h + 1, e)) and all(c in QUIET for c in calls) and not any(T[x].s in ('!', '|', '=', '{', '?') for x in range(q + 1, h)):
                drop(T[k].a, T[e].b, f'dropped `for` that only logs, over `{norm(T[q + 1:h])}`'); g = gone(); k = e
        k += 1
    again = True
    while again:
        again = False
        for (c, pe, b, e, blk, ret) in find_closures(f, i, j):
            if inside(T[c].a) or T[c - 1].s != '=' or T[c - 2].k != 'id' or T[c - 3].s != 'let' or T[e].s != ';': continue
            n = T[c - 2].s
            if any(T[x].s == n and x != c - 2 and not inside(T[x].a) for x in range(i, j)): continue
            drop(T[c - 3].a, T[e].b, f'dropped closure `{n}`, used in logging only'); g = gone(); again = True; break


def split_commas(T, i, j):
    parts, s, k = [], i, i
    while k < j:
        if T[k].s == ',' and T[k].k == 'p':
            parts.append((s, k)); s = k + 1; k += 1
        elif T[k].k == 'p' and T[k].s in '([{': k = T[k].m + 1
        else: k += 1
    if s < j: parts.append((s, j))
    return parts


def find_loops(f, i, j):
    """(keyword token, body open brace) for every loop in T[i:j], in order."""
    T, r, k = f.toks, [], i
    while k < j:
        t = T[k]
        if t.k == 'id' and t.s in ('while', 'loop', 'for') and not (T[k - 1].s in ('.', '::')) and not (t.s == 'for' and T[k + 1].s == '<'):
            q = k + 1
            while T[q].s != '{':
                q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([') else q + 1
                if q >= j: raise Structural('loop header')
            r.append((k, q))
        k += 1
    return r


def find_closures(f, i, j):
    """(bar token, params end, body start, body end exclusive, has block, ret range) in order."""
    T, r, k = f.toks, [], i
    while k < j:
        t = T[k]
        if t.s in ('|', '||') and (T[k - 1].s in ('(', ',', '=', '{', ';', '=>', 'move', 'return', '&')):
            if t.s == '||': pe = k + 1
            else:
                q = k + 1
                while T[q].s != '|':
                    q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([') else q + 1
                pe = q + 1
            ret = None
            b = pe
            if T[b].s == '->':
                q = b
                while T[q].s != '{': q += 1
                ret = (b, q); b = q
            if T[b].s == '{' : e = T[b].m + 1; blk = True
            else:
                q = b
                while not (T[q].s in (',', ')', ';', ']', '}')):
                    q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([{') else q + 1
                e = q; blk = False
            r.append((k, pe, b, e, blk, ret))
            k = pe
            continue
        k += 1
    return r


def tail_offset(f, body):
    """Offset at which a block can be put before the tail expression (or the end) of a body."""
    T = f.toks
    o, c = body
    k, start = o + 1, o + 1
    BLOCKS = ('if', 'while', 'for', 'loop', 'match', 'unsafe')
    while k < c:
        if T[k].s == ';': k += 1; start = k; continue
        if T[k].k == 'id' and T[k].s in BLOCKS and k == start or (T[k].s == '{' and k == start):
            # a block-like statement
            q = k
            while True:
                while T[q].s != '{': q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([') else q + 1
                q = T[q].m + 1
                if T[q].s == 'else': q += 1; continue
                break
            if q >= c: return T[start].a      # it is the tail
            if T[q].s in ('.', '?'): k = q; continue
            k = q; start = q
            continue
        k = T[k].m + 1 if (T[k].k == 'p' and T[k].s in '([{') else k + 1
    return T[start].a if start < c else T[c].a
