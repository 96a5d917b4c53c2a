"""Weaves an overlay (proofs/*.vrs: contracts, invariants, ghost code) with the functions of
/repo's current source into one Verus file.

Directives (each on a line of its own, starting with `//@`):
  //@ file ALIAS path/in/repo
  //@ struct ALIAS Name [derive=Copy,Clone] | //@ enum ALIAS Name ... | //@ const ALIAS Name
  //@ impl ALIAS `header as in the source` [as `header to emit`] [strict]    ... //@ endimpl
  //@ consts (inside an impl)  its associated constants
  //@ trait ALIAS Name [as `header`]                                          ... //@ endtrait
  //@ fn [name] [extern] [props=P01,P02] [closures=n] [free ALIAS] [as newname]
        contract text (requires/ensures) follows on the next lines, then any of
     //@ entry                ghost code at the start of the body
     //@ exit                 ghost code before the tail expression (or at the end)
     //@ loop k kw [label]    invariant/decreases of the k-th loop
     //@ loop_start k / loop_end k / before_loop k / after_loop k
     //@ closure k            return binder and contract of the k-th closure
     //@ rewrite `tokens` => `tokens`   named rewrite (recorded)
     //@ after `tokens` [n]   ghost code after the statement ending with these tokens
     //@ before `tokens` [n]
     //@ desugar_seq k v       `for` over a SeqIter as its defining loop
     //@ desugar_zip_mut k    `for P in A` or `for (P, Q) in A.zip(B)` over slices as an index loop
     //@ desugar_collect k v  a tail `X.map(|p| B).collect()` as the loop it stands for
     //@ sig `tokens` => `tokens`       rewrite in the signature
  //@ endfn
Everything else is copied as it stands.
"""
import os, re
from rustx import *


class Section:
    def __init__(self, name, args): self.name, self.args, self.text = name, args, []
    def body(self): return '\n'.join(self.text)


class Woven:
    def __init__(self):
        self.out, self.fns, self.log, self.assumed, self.marks = [], [], [], [], []
    def emit(self, s): self.out.append(s)
    def line(self): return ''.join(x + '\n' for x in self.out).count('\n') + 1


def ticks(s): return re.findall(r'`([^`]*)`', s)


def tail_start(T, i, j):
    """first token of the statement or tail expression that token j belongs to"""
    st = i; k = i
    while k < j:
        if T[k].k == 'p' and T[k].s in '([{':
            k = T[k].m
            if T[k].s == '}' and T[k + 1].s not in ('.', '?'): st = k + 1
        elif T[k].s == ';': st = k + 1
        k += 1
    return st


def tok_find(T, i, j, pat):
    P = [t.s for t in tokenize(pat, True)]
    r = []
    for k in range(i, j - len(P) + 1):
        if all(T[k + x].s == P[x] for x in range(len(P))): r.append((k, k + len(P)))
    return r


def weave(overlay, repo, vac=False, verif=None):
    src = open(overlay).read().split('\n')
    # includes
    lines = []
    for l in src:
        m = re.match(r'\s*//@ include (\S+)', l)
        if m:
            x = open(os.path.join(os.path.dirname(overlay), m.group(1))).read().split('\n')
            # `include F extern`: the contracts of F's functions are used, their bodies are verified by another overlay
            if re.search(r'\bextern\b', l): x = [re.sub(r'^(\s*//@ fn \S+)(?! extern)', r'\1 extern elsewhere', y) for y in x]
            lines += x
        else: lines.append(l)
    files, W, i = {}, Woven(), 0
    vacn = [0]
    ctx = None      # (alias, list of impl items, strict, seen)

    def getfile(a):
        if a not in files: raise Structural(f'unknown alias {a}')
        f = files[a]
        if isinstance(f, str):
            p = os.path.join(repo, f)
            if not os.path.exists(p): raise Structural(f'{f} does not exist')
            files[a] = f = RustFile(p); f.rel = os.path.relpath(p, repo)
        return f

    while i < len(lines):
        l = lines[i]; i += 1
        m = re.match(r'\s*//@\s*(.*)$', l)
        if not m:
            W.emit(l); continue
        d = m.group(1).strip(); w = d.split()
        if w[0] == 'file': files[w[1]] = w[2]
        elif w[0] in ('struct', 'enum'):
            f = getfile(w[1]); it = f.find(w[0], w[2])
            ed = Edits(f); T = f.toks
            # attributes inside (field attributes) are dropped
            k = it.t0
            while k < it.t1:
                if T[k].s == '#' and T[k + 1].s == '[':
                    ed.replace(T[k].a, T[T[k + 1].m].b, ''); k = T[k + 1].m + 1
                else: k += 1
            for x in ticks(d):
                pass
            mm = re.search(r'derive=(\S+)', d)
            if mm:
                for q in mm.group(1).split(','):
                    if not any(re.search(r'derive \(.*\b%s\b' % q, a) for a in it.attrs): raise Structural(f'{w[2]} no longer derives {q}')
                W.emit(f'#[derive({mm.group(1)})]')
            mm = re.search(r'pre=`([^`]*)`', d)
            if mm: W.emit(mm.group(1))
            txt = ed.apply(T[it.t0].a, T[it.t1 - 1].b)
            if 'public' in w:
                txt = re.sub(r'pub\s*\((crate|super)\)', 'pub', txt)
                head, _, body = txt.partition('{')
                body = '\n'.join(re.sub(r'^(\s+)(?!pub\b)([a-z_][A-Za-z0-9_]*\s*:)', r'\1pub \2', x) for x in body.split('\n'))
                txt = head + '{' + body
                if not txt.startswith('pub'): txt = 'pub ' + txt
                W.log.append(f'{w[2]}: fields taken as public')
            if 'nodefaults' in w:
                head, _, body = txt.partition('{')
                txt = re.sub(r'\s*=\s*\w+(?=\s*[,>])', '', head) + '{' + body
                W.log.append(f'{w[2]}: defaults of type parameters dropped')
            W.emit(strip_comments(txt))
        elif w[0] == 'const':
            f = getfile(w[1]); it = f.find('const', w[2]); T = f.toks
            W.emit(('' if T[it.t0].s == 'pub' else 'pub ') + f.src[T[it.t0].a:T[it.t1 - 1].b])
        elif w[0] in ('impl', 'trait'):
            f = getfile(w[1]); tk = ticks(d)
            if w[0] == 'impl':
                its = f.impls(tk[0]); emit = tk[1] if len(tk) > 1 else None
            else:
                its = [f.find('trait', w[2])]; emit = tk[0] if tk else None
            if emit is None:
                x = its[0]; emit = f.src[f.toks[x.head[0]].a:f.toks[x.head[1] - 1].b]
            ctx = (f, its, 'strict' in w, set())
            W.emit(emit + ' {')
        elif w[0] in ('endimpl', 'endtrait'):
            f, its, strict, seen = ctx
            if strict:
                for x in its:
                    for y in x.items:
                        if y.kind == 'fn' and y.name not in seen: raise Structural(f'{f.rel}: new function `{y.name}` in `{x.name}`')
            W.emit('}'); ctx = None
        elif w[0] == 'consts':      # the associated constants of the impl, as they stand
            for x in ctx[1]:
                T = x.file.toks
                for y in x.items:
                    if T[y.t0].s == 'const' and y.kind != 'fn': W.emit(x.file.src[T[y.t0].a:T[y.t1 - 1].b])
        elif w[0] == 'fn':
            secs = [Section('contract', [])]
            while True:
                if i >= len(lines): raise SystemExit(f'{overlay}: no endfn for {w[1]}')
                l2 = lines[i]; i += 1
                m2 = re.match(r'\s*//@\s*(.*)$', l2)
                if m2:
                    w2 = m2.group(1).split()
                    if w2[0] == 'endfn': break
                    s = Section(w2[0], w2[1:]); s.raw = m2.group(1); secs.append(s)
                else: secs[-1].text.append(l2)
            weave_fn(W, ctx, getfile, w, d, secs, vac, vacn)
        else: raise SystemExit(f'{overlay}: unknown directive {d}')
    return W


def strip_comments(s):
    T = tokenize(s)
    out, pos = [], 0
    for t in T:
        gap = s[pos:t.a]
        if '//' in gap or '/*' in gap:
            gap = '\n' * gap.count('\n') or ' '
        out.append(gap); out.append(s[t.a:t.b]); pos = t.b
    return ''.join(out)


def weave_fn(W, ctx, getfile, w, d, secs, vac, vacn):
    name = w[1]
    if 'free' in w:
        f = getfile(w[w.index('free') + 1])
        c = [x for x in f.walk() if x.kind == 'fn' and x.name == name and f.live(x)]
    else:
        f = ctx[0]; ctx[3].add(name)
        c = [y for x in ctx[1] for y in x.items if y.kind == 'fn' and y.name == name]
    if len(c) != 1: raise Structural(f'{f.rel}: {len(c)} functions `{name}`')
    it = c[0]; T = f.toks; ed = Edits(f)
    ext = 'extern' in w
    props = []
    mm = re.search(r'props=(\S+)', d)
    if mm: props = mm.group(1).split(',')
    contract = [s for s in secs if s.name == 'contract'][0].body().rstrip()
    # visibility: everything public for the verifier
    if T[it.fn - 1].s != 'pub' and it.t0 == it.fn and 'novis' not in w and 'nopub' not in w:
        vis = 'pub ' if not (ctx and (' for ' in ' ' + norm(T[ctx[1][0].head[0]:ctx[1][0].head[1]]) + ' ' or ctx[1][0].kind == 'trait')) else ''
    else: vis = ''
    if T[it.t0].s == 'pub' and T[it.t0 + 1].s == '(':
        ed.replace(T[it.t0 + 1].a, T[T[it.t0 + 1].m].b, '')
    if 'mode' in d:
        pass
    for s in secs:
        if s.name == 'sig':
            a, b = ticks(s.raw)
            end = it.body[0] if it.body else it.t1
            for x, y in tok_find(T, it.t0, end, a):
                ed.replace(T[x].a, T[y - 1].b, b); ed.log.append(f'signature: `{a}` -> `{b}`')
    if it.ret and contract and 'noret' not in w:
        a, b = it.ret
        # the type ends before where / { / ;
        ed.insert(T[a].a, '(r: '); ed.insert(T[b - 1].b, ')')
    if it.body is None:
        if contract: ed.insert(T[it.t1 - 1].a, '\n' + contract + '\n')
    else:
        o, cb = it.body
        if contract: ed.insert(T[o].a, '\n' + contract + '\n', 5)
        if ext:
            ed.replace(T[o].a, T[cb].b, '{ unimplemented!() }')
        else:
            body_edits(W, f, it, ed, secs, d, vac, vacn, props)
    start = W.line()
    attrs = ''
    if ext: attrs = '#[verifier::external_body]\n'
    mm = re.search(r'attr=`([^`]*)`', d)
    if mm: attrs += mm.group(1) + '\n'
    txt = ed.apply(T[it.t0].a, T[it.t1 - 1].b)
    mm = re.search(r'\bas (\w+)', d)
    if mm: txt = re.sub(r'\bfn\s+%s\b' % re.escape(name), 'fn ' + mm.group(1), txt, count=1)
    W.emit(attrs + vis + strip_comments_keep(txt))
    end = W.line() - 1
    q = (norm(T[ctx[1][0].head[0]:ctx[1][0].head[1]]) + ' :: ' if ctx and 'free' not in w else '') + name
    W.fns.append(dict(name=q, file=f.rel, line=f.src[:T[it.t0].a].count('\n') + 1, start=start, end=end, props=props, extern=ext, declared=it.body is None))
    for x in ed.log: W.log.append(f'{q}: {x}')
    if ext and 'elsewhere' not in w: W.assumed.append(f'contract of {f.rel} :: {q} (body not verified)')


def strip_comments_keep(s): return strip_comments(s)


def body_edits(W, f, it, ed, secs, d, vac, vacn, props):
    T = f.toks; o, cb = it.body
    drop_logging(f, ed, o + 1, cb)
    dropped = [(a, b) for a, b, _, _, t in ed.e if a != b and t == '']
    inside = lambda off: any(a <= off < b for a, b in dropped)
    loops = [x for x in find_loops(f, o + 1, cb) if not inside(T[x[0]].a)]
    closures = [x for x in find_closures(f, o + 1, cb) if not inside(T[x[0]].a)]
    nl = [s for s in secs if s.name in ('loop', 'desugar_zip_mut', 'desugar_for', 'desugar_seq')]
    if len(loops) != len({int(s.args[0]) for s in nl}):
        raise Structural(f'{f.rel} {it.name}: {len(loops)} loops, {len(nl)} annotated')
    nc = [s for s in secs if s.name == 'closure']
    mm = re.search(r'closures=(\d+)', d)
    want = int(mm.group(1)) if mm else len(nc) + sum(s.name == 'desugar_collect' for s in secs)
    if len(closures) != want: raise Structural(f'{f.rel} {it.name}: {len(closures)} closures, {want} expected')
    # array patterns of plain names (not accepted by Verus): element by element
    for k in range(o + 1, cb):
        if T[k].s == 'let' and T[k + 1].s == '[' and not inside(T[k].a):
            e = T[k + 1].m; ns = [x.s for x in T[k + 2:e]]
            if T[e + 1].s != '=' or not all((x == ',') == bool(q % 2) and (x == ',' or x.isidentifier()) for q, x in enumerate(ns)): continue
            ids = ns[::2]; v = 'arr_' + '_'.join(ids); q = e + 2
            while T[q].s != ';': q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([{') else q + 1
            ed.replace(T[k].a, T[e].b, f'let {v}')
            ed.insert(T[q].b, ''.join(f' let {y} = {v}[{z}];' for z, y in enumerate(ids)), -2)
            ed.log.append(f'array pattern [{", ".join(ids)}] bound element by element')
    # `&name` inside the pattern of `if let` / `while let` (not accepted by Verus): bound by reference, then copied
    for k in range(o + 1, cb):
        if T[k].s in ('if', 'while') and T[k + 1].s == 'let' and not inside(T[k].a):
            q = k + 2
            while T[q].s != '=': q += 1
            refs = [x for x in range(k + 2, q) if T[x].s == '&' and T[x + 1].k == 'id' and T[x + 2].s in (',', ')')]
            if not refs: continue
            b = q
            while T[b].s != '{': b = T[b].m + 1 if (T[b].k == 'p' and T[b].s in '([') else b + 1
            for x in refs:
                ed.replace(T[x].a, T[x + 1].b, T[x + 1].s + '_r_'); ed.insert(T[b].b, f' let {T[x + 1].s} = *{T[x + 1].s}_r_; ', 2)
                ed.log.append(f'pattern `&{T[x + 1].s}` bound by reference, then copied')
    # `&Path { a, b, .. } => {` as a match arm (not accepted by Verus): fields bound by reference, then copied
    for k in range(o + 1, cb):
        if T[k].s == '&' and T[k + 1].k == 'id' and T[k + 2].s == '::' and T[k + 3].k == 'id' and T[k + 4].s == '{' and T[k - 1].s in ('{', '}', ',') and not inside(T[k].a):
            e = T[k + 4].m
            if T[e + 1].s != '=>' or T[e + 2].s != '{': continue
            ns = [x.s for x in T[k + 5:e] if x.s not in (',', '..')]
            if not all(x.isidentifier() for x in ns): continue
            ed.replace(T[k].a, T[k].b, ''); ed.insert(T[e + 2].b, ''.join(f' let {x} = *{x};' for x in ns) + ' ', 2)
            ed.log.append(f'pattern `&{T[k + 1].s}::{T[k + 3].s} {{..}}` bound by reference, then copied')
    desug = {}
    # a function under `requires false` is shown to be called nowhere: nothing to reach
    dead = any(re.search(r'^\s*requires false\s*$', s.body(), re.M) for s in secs)
    def vacmark(where):
        if not vac or dead: return ''
        vacn[0] += 1
        W.marks.append((vacn[0], f'{it.name}: {where}'))
        return f' proof {{ if vac_any() == {vacn[0]} {{ assert(false); }} }} '
    entry = [s for s in secs if s.name == 'entry']
    body = ''.join('\n' + s.body() + '\n' for s in entry)
    heads = re.match(r'(?:\s*(?:hide\([\w:]+\);|//[^\n]*\n))*', body).end()  # `hide` must come first
    ed.insert(T[o].b, body[:heads] + vacmark('entry') + body[heads:], 1)
    for s in secs:
        n = s.name
        if n == 'loop':
            k, kw = int(s.args[0]), s.args[1]
            t, b = loops[k]
            if T[t].s != kw: raise Structural(f'{f.rel} {it.name}: loop {k} is `{T[t].s}`')
            if len(s.args) > 2:
                q = t
                while T[q].s != 'in': q += 1
                ed.insert(T[q].b, f' {s.args[2]}:')
            ed.insert(T[b].a, '\n' + s.body() + '\n', 5)
            ed.insert(T[b].b, vacmark(f'loop {k}'), 0)
        elif n == 'desugar_for':
            # `for P in E { B }`  ->  `let mut it = IntoIterator::into_iter(E); loop { let P = match it.next() {..}; B }`
            k, v = int(s.args[0]), s.args[1]; t, b = loops[k]
            if T[t].s != 'for': raise Structural(f'{it.name}: loop {k} is `{T[t].s}`')
            q = t + 1
            while T[q].s != 'in': q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([{') else q + 1
            P = f.src[T[t + 1].a:T[q - 1].b]; E = f.src[T[q + 1].a:T[b - 1].b]
            g = f'let ghost {v}seq = {v}.remaining();'
            ed.replace(T[t].a, T[q].b, f'let mut {v} = std::iter::IntoIterator::into_iter(')
            ed.insert(T[b].a, f'); {g} loop\n' + s.body() + '\n', 5)
            ed.insert(T[b].b, vacmark(f'loop {k}') + f' let {P} = match {v}.next() {{ Some(x_) => x_, None => break }}; ', 0)
            ed.log.append(f'`for {P} in {E}` taken as its defining `loop` over `next()` (body verbatim)')
        elif n == 'desugar_seq':
            # `for P in E { B }` over an iterator of known sequence: `v` the iterator, `v_all` its whole sequence, `v_n` how many were taken
            k, v = int(s.args[0]), s.args[1]; t, b = loops[k]
            if T[t].s != 'for': raise Structural(f'{it.name}: loop {k} is `{T[t].s}`')
            q = t + 1
            while T[q].s != 'in': q = T[q].m + 1 if (T[q].k == 'p' and T[q].s in '([{') else q + 1
            P = f.src[T[t + 1].a:T[q - 1].b]; E = f.src[T[q + 1].a:T[b - 1].b]
            ed.replace(T[t].a, T[q].b, f'let mut {v} = (')
            pre, _, inv = s.body().rpartition('\n---\n')
            ed.insert(T[b].a, f').into_seq_(); let ghost {v}all = {v}@; let ghost mut {v}n: int = 0;\n{pre}\n loop\n    invariant 0 <= {v}n <= {v}all.len(), {v}@ == {v}all.skip({v}n),\n' + inv + f'\n    ensures {v}n == {v}all.len(),\n    decreases {v}all.len() - {v}n\n', 5)
            ed.insert(T[b].b, vacmark(f'loop {k}') + (f' let {P[1:].strip()} = *match {v}.next() {{ Some(x_) => x_, None => break }}' if re.fullmatch(r'&\s*\w+', P) else f' let {P} = match {v}.next() {{ Some(x_) => x_, None => break }}') + f'; proof {{ assert({v}@ =~= {v}all.skip({v}n + 1)); {v}n = {v}n + 1; }} ', 0)
            ed.log.append(f'`for {P} in {E}` taken as its defining `loop` over `next()` (body verbatim)')
        elif n == 'desugar_zip_mut':
            # `for P in A` / `for (P, Q) in A.zip(B)` over slices/vectors (mutably or not) as an index loop
            k = int(s.args[0]); t, b = loops[k]
            bad = lambda why: Structural(f'{f.rel} {it.name}: loop {k}: {why}')
            if T[t].s != 'for': raise bad('not a for loop')
            q = t + 1
            while T[q].s != 'in': q = T[q].m + 1 if T[q].s in '([{' and T[q].k == 'p' else q + 1
            pt = T[t + 1:q]; ex = T[q + 1:b]
            def coll(ts):
                """iterable tokens -> (collection text, element is `&mut`/`&`)"""
                S = [x.s for x in ts]; src = f.src
                if S[:4] == ['(', '&', 'mut', '*'] and S[5] == ')':  # a reborrow of a name (its type derefs to the matrix)
                    c, m = coll(ts[6:]) if S[6] == '.' else coll(ts[4:5] + ts[6:])
                    return (ts[4].s + c[c.index('['):] if S[6] == '[' else ts[4].s + c), m
                for suf, c, m in ((['.', 'iter_mut', '(', ')'], '', 'mut'), (['.', 'iter_blocks_mut', '(', ')'], '.blocks', 'mut'), (['.', 'iter', '(', ')'], '', 'ref'), (['.', 'iter_blocks', '(', ')'], '.blocks', 'ref'), (['.', 'blocks', '(', ')'], '.blocks()', 'val')):
                    if S[-len(suf):] == suf and len(S) > len(suf): return src[ts[0].a:ts[-len(suf) - 1].b] + c, m
                if S[:2] == ['&', 'mut']: return src[ts[2].a:ts[-1].b], 'mut'
                if S[:1] == ['&']: return src[ts[1].a:ts[-1].b], 'ref'
                raise bad('iterable `' + norm(ts) + '` not understood')
            z = [x for x in range(len(ex) - 2) if [y.s for y in ex[x:x + 3]] == ['.', 'zip', '(']]
            if z:
                z = z[-1]
                if ex[-1].s != ')' or ex[z + 2].m != b - 1 or pt[0].s != '(' or pt[0].m != q - 1: raise bad('zip not understood')
                cs = [coll(ex[:z]), coll(ex[z + 3:-1])]
                inner = pt[1:-1]; cm = [x for x in range(len(inner)) if inner[x].s == ',']
                if len(cm) != 1: raise bad('pattern')
                ps = [inner[:cm[0]], inner[cm[0] + 1:]]
            else: cs, ps = [coll(ex)], [pt]
            lets = ''
            for (c, m), p_ in zip(cs, ps):
                S = [x.s for x in p_]
                if len(S) == 1: lets += f'let {S[0]} = {dict(mut="&mut ", ref="&", val="")[m]}{c}[zip_i_]; '
                elif len(S) == 2 and S[0] == '&' and m == 'ref': lets += f'let {S[1]} = {c}[zip_i_]; '
                elif S[:2] == ['&', '['] and S[-1] == ']' and m == 'ref' and all((y == ',') == bool(e % 2) for e, y in enumerate(S[2:-1])):
                    lets += ''.join(f'let {y} = {c}[zip_i_][{e}]; ' for e, y in enumerate(S[2:-1:2]) if y != '_')
                else: raise bad('pattern')
            if any(x.k == 'id' and x.s == 'continue' for x in T[b:T[b].m]): raise bad('continue')
            cond = ' && '.join(f'zip_i_ < {c}.len()' for c, _ in cs)
            ed.replace(T[t].a, T[b - 1].b, f'let mut zip_i_: usize = 0; while {cond} ')
            ed.insert(T[b].a, '\n' + s.body() + '\n', 5)
            ed.insert(T[b].b, vacmark(f'loop {k}') + f' {lets}zip_i_ = zip_i_ + 1; ', 0)
            ed.log.append(f'`for {norm(pt)} in {norm(ex)}` taken as an index loop (body verbatim)')
        elif n in ('loop_start', 'loop_end', 'before_loop', 'after_loop'):
            t, b = loops[int(s.args[0])]
            txt = '\n' + s.body() + '\n'
            if n == 'loop_start': ed.insert(T[b].b, txt, 3)
            elif n == 'loop_end': ed.insert(T[T[b].m].a, txt)
            elif n == 'before_loop': ed.insert(T[t].a, txt, -1)
            else: ed.insert(T[T[b].m].b, txt)
        elif n == 'closure':
            k = int(s.args[0])
            bar, pe, b, e, blk, ret = closures[k]
            if ret: raise Structural(f'{it.name}: closure {k} has a return type')
            for x in s.args[1:]:
                if x == 'typed': pass
            ty = re.search(r'params=`([^`]*)`', s.raw)
            if ty:
                ed.replace(T[bar].a, T[pe - 1].b, '|' + ty.group(1) + '|')
                ed.log.append(f'closure {k}: parameter types written out `{ty.group(1)}`')
            ds = re.search(r'destruct=`([^`]*)`', s.raw); bind = ''
            if ds:
                P_ = T[bar + 1:pe - 1]; S = [x.s for x in P_]; v = f'arg{k}_'
                if S[:2] == ['&', '['] and P_[1].m == pe - 2:
                    names = [x for x in S[2:-1] if x != ',']
                    bind = ' '.join(f'let {x} = {v}[{i}];' for i, x in enumerate(names) if x != '_')
                elif S[:2] == ['&', '('] and P_[1].m == pe - 2: bind = f'let {f.src[P_[1].a:P_[-1].b]} = *{v};'
                elif S[:1] == ['('] and P_[0].m == pe - 2: bind = f'let {f.src[P_[0].a:P_[-1].b]} = {v};'
                elif len(S) == 1: v = S[0]
                elif len(S) == 2 and S[0] == '&': bind = f'let {S[1]} = *{v};'
                else: raise Structural(f'{it.name}: closure {k} parameter `{norm(P_)}`')
                ed.replace(T[bar].a, T[pe - 1].b, f'|{v}: {ds.group(1)}|')
                ed.log.append(f'closure {k}: parameter pattern `{norm(P_)}` taken as `{v}: {ds.group(1)}`, `{bind}`')
            text = re.sub(r'\barg_\b', f'arg{k}_', s.body())
            ed.insert(T[b].a, ' ' + text + (' ' if blk else ' { ' + bind + ' '), 4)
            if blk and bind: ed.insert(T[b].b, ' ' + bind + ' ', 1)
            if not blk: ed.insert(T[e - 1].b, ' }', -4)
        elif n == 'desugar_collect':
            # the tail expression `X.map(|P| B).collect()` (closure k): the loop that it stands for, `v` the iterator
            k, v = int(s.args[0]), s.args[1]
            bar, pe, b, e, blk, ret = closures[k]
            if [x.s for x in T[bar - 3:bar]] != ['.', 'map', '('] or [x.s for x in T[e:e + 5]] != [')', '.', 'collect', '(', ')'] or e + 5 != cb: raise Structural(f'{it.name}: closure {k} is not a tail `.map(..).collect()`')
            t = tail_start(T, o + 1, bar - 3)
            P = f.src[T[bar + 1].a:T[pe - 2].b]
            pre, _, inv = s.body().rpartition('\n---\n')
            ed.insert(T[t].a, f'let mut {v} = ', -3)
            ed.replace(T[bar - 3].a, T[pe - 1].b, f'; let mut {v}out = Vec::new(); let ghost {v}all = {v}@; let ghost mut {v}n: int = 0;\n{pre}\n loop\n    invariant 0 <= {v}n <= {v}all.len(), {v}@ == {v}all.skip({v}n), {v}out@.len() == {v}n,\n' + inv + f'\n    ensures {v}n == {v}all.len(),\n    decreases {v}all.len() - {v}n\n {{ let {P} = match {v}.next() {{ Some(x_) => x_, None => break }}; proof {{ assert({v}@ =~= {v}all.skip({v}n + 1)); {v}n = {v}n + 1; }} {vacmark("collect")} {v}out.push(')
            ed.replace(T[e].a, T[e + 4].b, f'); }} {v}out')
            ed.log.append(f'the final `.map(|{P}| ..).collect()` taken as the loop it stands for (closure body verbatim)')
        elif n == 'rewrite':
            a, b = ticks(s.raw)
            for x, y in tok_find(T, o + 1, cb, a):
                if inside(T[x].a): continue
                ed.replace(T[x].a, T[y - 1].b, b); ed.log.append(f'`{a}` taken as `{b}`')
        elif n in ('after', 'before'):
            a = ticks(s.raw)[0]
            mm = re.search(r'`\s+(\d+)\s*$', s.raw)
            h = [x for x in tok_find(T, o + 1, cb, a) if not inside(T[x[0]].a)]
            q = int(mm.group(1)) if mm else 0
            if len(h) <= q: raise Structural(f'{f.rel} {it.name}: no `{a}`')
            x, y = h[q]
            if n == 'after': ed.insert(T[y - 1].b, '\n' + s.body() + '\n')
            else: ed.insert(T[x].a, '\n' + s.body() + '\n', -1)
        elif n == 'exit':
            off = tail_offset(f, it.body) if it.ret or norm(T[cb - 1:cb]) not in ('}', ';') else T[cb].a
            ed.insert(off, '\n' + s.body() + '\n', -2)


if __name__ == '__main__':
    import sys
    w = weave(sys.argv[1], os.environ.get('WEAVE_REPO','/repo'), vac=len(sys.argv) > 3)
    open(sys.argv[2], 'w').write('\n'.join(w.out))
    for x in w.log: print(x)
