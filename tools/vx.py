#!/usr/bin/env python3
"""Mechanical extraction of functions from /repo into a Verus crate.

A template (verus/*.rs) is Verus text with directives; every `//@fn` block is replaced by the text of
the named function of /repo's current working tree, into which the block's specifications, loop
invariants and proof hints are spliced.  Executable text is never written by hand except where a
block declares a substitution (`//@sub`), which is reported in the evidence.

directives
  //@file PATH                     following blocks come from this file (relative to the repo)
  //@item KIND NAME [| attrs [| PAT ==> REP]]      copy a struct/enum/const/type item (attributes and comments dropped)
  //@fn NAME [in HEADER] [as NEW]  start of a function block; HEADER: the enclosing impl/trait header
  //@ret NAME                      name the returned value
  //@spec                          requires/ensures text, spliced before the body
  //@loop N KIND [iter=NAME]       loop annotations (invariant/decreases), spliced before its body
  //@loopstart N / //@loopend N    text at the start / end of the loop's body
  //@afterloop N / //@beforeloop N text after / before the whole loop
  //@start / //@end_of_body        text at the start / end of the function's body
  //@before PATTERN / //@after PATTERN   text before / after the (unique) token pattern
  //@wrap PATTERN                  text before the expression, both in a block
  //@sub PATTERN ==> REPLACEMENT   declared substitution of token patterns (__1, __2 match balanced runs)
  //@attr TEXT                     attribute lines to put on the function
  //@end
"""
import re, os, sys, hashlib

class Lost(Exception):
    """An anchor cannot be found in the current source: nothing is claimed about this function."""

MULTI = ['..=', '...', '->', '=>', '::', '==', '!=', '<=', '>=', '&&', '||', '..', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=']

def lex(s):
    out = []; i = 0; n = len(s)
    def add(k, j):
        nonlocal i
        out.append((k, s[i:j], i, j)); i = j
    while i < n:
        c = s[i]
        if c.isspace():
            j = i
            while j < n and s[j].isspace(): j += 1
            add('ws', j)
        elif s.startswith('//', i):
            j = s.find('\n', i); add('com', n if j < 0 else j)
        elif s.startswith('/*', i):
            d = 1; j = i + 2
            while d and j < n:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            add('com', j)
        elif re.match(r'(b|c|br|cr|r)?#*"', s[i:i+12]) and re.match(r'(?:b|c)?"|(?:b|c)?r#*"', s[i:]):
            m = re.match(r'(?:b|c)?r(#*)"', s[i:])
            if m:
                end = '"' + m.group(1); j = s.index(end, i + m.end()) + len(end); add('str', j)
            else:
                j = s.index('"', i) + 1
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                add('str', j + 1)
        elif c == "'" or s.startswith("b'", i):
            b = i + (1 if c == 'b' else 0)
            m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", s[b:])
            if m: add('chr', b + m.end())
            else:
                m = re.match(r"'[A-Za-z_]\w*", s[i:]); add('life', i + m.end())
        elif c.isalpha() or c == '_':
            m = re.match(r'(?:r#)?\w+', s[i:]); add('id', i + m.end())
        elif c.isdigit():
            m = re.match(r'0[xob][0-9a-fA-F_]+\w*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?\w*', s[i:]); add('num', i + m.end())
        else:
            for p in MULTI:
                if s.startswith(p, i): add('p', i + len(p)); break
            else: add('p', i + 1)
    return out

def sig(toks): return [t for t in toks if t[0] not in ('ws', 'com')]
OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(OPEN.values())

def match_close(t, i):
    """index of the token closing the bracket at t[i]"""
    d = 0
    for j in range(i, len(t)):
        x = t[j][1]
        if t[j][0] == 'p':
            if x in OPEN: d += 1
            elif x in CLOSE:
                d -= 1
                if d == 0: return j
    raise Lost('unbalanced source')

def norm(s): return ' '.join(t[1] for t in sig(lex(s)))
def squash(s): return ''.join(t[1] for t in sig(lex(s)))

def attr_span(t, i):
    """if t[i] starts an attribute, index after it"""
    if t[i][1] == '#' and t[i+1][1] in ('[', '!'):
        k = i + 1 if t[i+1][1] == '[' else i + 2
        return match_close(t, k) + 1
    return None

class Src:
    def __init__(self, path):
        self.path = path
        self.text = open(path, encoding='utf-8').read()
        self.t = sig(lex(self.text))
        self.items = []       # (kind, name, header, start_tok, sig_tok, body_open or None, end_tok)
        self.scan(0, len(self.t), '')

    def scan(self, i, end, header):
        t = self.t
        while i < end:
            start = i
            cfg_test = False
            while i < end:
                k = attr_span(t, i)
                if k is None: break
                a = ''.join(x[1] for x in t[i:k])
                if 'cfg(test)' in a: cfg_test = True
                i = k
            if i >= end: break
            first = i
            # visibility and qualifiers
            while i < end and t[i][1] in ('pub', 'async', 'unsafe', 'const', 'extern', 'default') :
                if t[i][1] == 'const' and t[i+1][1] not in ('fn', 'unsafe', 'async', 'extern'): break
                if t[i][1] == 'pub' and t[i+1][1] == '(':
                    i = match_close(t, i+1) + 1
                else:
                    i += 1
                    if t[i][0] == 'str': i += 1
            kw = t[i][1] if i < end else ''
            if kw == 'fn':
                name = t[i+1][1]
                j = i + 2
                d = 0
                while True:
                    x = t[j][1]
                    if t[j][0] == 'p':
                        if x in '([': d += 1
                        elif x in ')]': d -= 1
                        elif d == 0 and x == ';': b = None; e = j + 1; break
                        elif d == 0 and x == '{': b = j; e = match_close(t, j) + 1; break
                    j += 1
                if not cfg_test: self.items.append(('fn', name, header, start, first, b, e))
                i = e
            elif kw in ('impl', 'trait', 'mod'):
                j = i; d = 0
                while True:
                    x = t[j][1]
                    if t[j][0] == 'p':
                        if x in '([': d += 1
                        elif x in ')]': d -= 1
                        elif d == 0 and x in '{;': break
                    j += 1
                h = ''.join(x[1] if x[0] != 'id' or x[1] not in ('impl','trait','mod','for','dyn','where') else ' ' + x[1] + ' ' for x in t[i:j])
                if t[j][1] == ';': i = j + 1; continue
                e = match_close(t, j)
                if not cfg_test:
                    if kw != 'mod':
                        self.items.append((kw, t[i+1][1], h, start, first, j, e + 1))
                    self.scan(j + 1, e, header if kw == 'mod' else h)
                i = e + 1
            elif kw in ('struct', 'enum', 'union', 'const', 'static', 'type', 'use', 'macro_rules', 'extern'):
                j = i; d = 0
                while True:
                    x = t[j][1]
                    if t[j][0] == 'p':
                        if x == '{':
                            j = match_close(t, j)
                            if kw in ('struct', 'enum', 'union', 'macro_rules', 'extern'):
                                j += 1; break
                        elif x in '([': j = match_close(t, j)
                        elif x == ';': j += 1; break
                    j += 1
                if not cfg_test: self.items.append((kw, t[i+1][1], header, start, first, None, j))
                i = j
            else:
                # macro invocation or something else at item level: skip a balanced group
                j = i
                while j < end:
                    x = t[j][1]
                    if x in OPEN:
                        j = match_close(t, j) + 1
                        if j < end and t[j][1] == ';': j += 1
                        break
                    if x == ';': j += 1; break
                    j += 1
                i = max(j, i + 1)

    def span(self, a, b): return self.text[self.t[a][2]:self.t[b-1][3]]

    def find(self, kind, name, header=None):
        c = [x for x in self.items if x[0] == kind and x[1] == name]
        if header is not None:
            h = squash(header)
            c = [x for x in c if h in x[2].replace(' ', '')]
        elif kind == 'fn':
            c = [x for x in c if x[2] == '']
        if len(c) != 1:
            raise Lost(f'{kind} {name}{" in " + header if header else ""}: {len(c)} candidates in {os.path.basename(self.path)}')
        return c[0]

LOGMAC = {'debugln', 'traceln', 'info', 'debug', 'trace', 'warn', 'error', 'println', 'eprintln', 'print', 'eprint'}

def match_pat(pt, t, i):
    """match token pattern pt at t[i:]; returns (end, caps) or None. __N matches a balanced run (shortest)."""
    def go(pi, i, caps):
        while pi < len(pt):
            p = pt[pi][1]
            m = re.fullmatch(r'__(\d)', p)
            if m:
                j = i
                while True:
                    r = go(pi + 1, j, dict(caps, **{m.group(1): (i, j)}))
                    if r: return r
                    if j >= len(t): return None
                    x = t[j]
                    if x[0] == 'p' and x[1] in OPEN:
                        j = match_close(t, j) + 1
                    elif x[0] == 'p' and x[1] in CLOSE: return None
                    else: j += 1
            if i >= len(t) or t[i][1] != p: return None
            pi += 1; i += 1
        return (i, caps)
    return go(0, i, {})

class Edit:
    """A function text plus insertions, kept as a token list; insertions are opaque tokens."""
    def __init__(self, text):
        self.t = sig(lex(text))
        self.src = text
        # keep original spacing: whitespace/comments before each token
        self.pre = []
        pos = 0
        for x in self.t:
            ws = text[pos:x[2]]
            self.pre.append(ws)
            pos = x[3]
    def render(self):
        return ''.join(p + x[1] for p, x in zip(self.pre, self.t))
    def replace(self, a, b, text, kind='ins'):
        self.t[a:b] = [(kind, text, 0, 0)] if text is not None else []
        self.pre[a:b] = [self.pre[a]] if text is not None and b > a else (['\n'] if text is not None else [])
    def insert(self, a, text):
        self.t[a:a] = [('ins', text, 0, 0)]; self.pre[a:a] = ['\n']
    def relex(self):
        """lex substituted text as source again (insertions kept opaque)"""
        t = []; pre = []
        for p, x in zip(self.pre, self.t):
            if x[0] == 'sub':
                sub = Edit(x[1])
                if sub.t: sub.pre[0] = p + sub.pre[0]
                t += sub.t; pre += sub.pre
            else: t.append(x); pre.append(p)
        self.t = t; self.pre = pre

def split_args(t, a, b):
    """split tokens t[a:b] at top-level commas -> list of (start,end)"""
    out = []; s = a; i = a
    while i < b:
        if t[i][0] == 'p' and t[i][1] in OPEN: i = match_close(t, i)
        elif t[i][1] == ',': out.append((s, i)); s = i + 1
        i += 1
    if s < b: out.append((s, b))
    return out

def generic(e, dropped):
    """Rewrites applied to every function: what the extraction drops."""
    def txt(a, b): return ' '.join(x[1] for x in e.t[a:b])
    i = 0
    while i < len(e.t):
        x = e.t[i][1]
        nx = e.t[i+1][1] if i + 1 < len(e.t) else ''
        if e.t[i][0] == 'ins': i += 1; continue
        k = attr_span(e.t, i) if x == '#' and nx in ('[', '!') else None
        if k is not None:
            dropped.append('attribute ' + txt(i, k)[:60]); e.replace(i, k, None); continue
        if x == 'async' : e.replace(i, i+1, None); dropped.append('async'); continue
        if x == '.' and nx == 'await': e.replace(i, i+2, None); dropped.append('.await'); continue
        if e.t[i][0] == 'id' and nx == '!' and i + 2 < len(e.t) and e.t[i+2][1] in OPEN:
            c = match_close(e.t, i + 2)
            if x in LOGMAC:
                semi = c + 1 < len(e.t) and e.t[c+1][1] == ';'
                dropped.append('output ' + x + '!')
                if semi: e.replace(i, c + 2, None)
                else: e.replace(i, c + 1, '()', 'p')
                continue
            args = split_args(e.t, i + 3, c)
            if x in ('assert', 'debug_assert'):
                a = txt(*args[0]); e.replace(i, c + 1, f'vx_assert({a})', 'sub'); e.relex(); continue
            if x in ('assert_eq', 'debug_assert_eq'):
                a, b = txt(*args[0]), txt(*args[1])
                e.replace(i, c + 1, f'vx_assert({a} == {b})', 'sub'); e.relex(); continue
            if x in ('unreachable', 'panic', 'unimplemented', 'todo'):
                e.replace(i, c + 1, 'vx_unreachable()', 'sub'); e.relex(); continue
        if x == '|' and nx == '_' and e.t[i+2][1] == '|':
            e.replace(i + 1, i + 2, '_vx_p', 'id')
        if x == 'map_err' and nx == '(' and i and e.t[i-1][1] == '.':
            c = match_close(e.t, i + 1)
            if all(y[0] == 'id' or y[1] == '::' for y in e.t[i+2:c]) and e.t[c-1][1][:1].isupper():
                p = ''.join(y[1] for y in e.t[i+2:c])
                ty = p.rsplit('::', 1)[0] + '<_>'
                e.replace(i + 2, c, f'|vx_e| -> (vx_m: {ty}) ensures equal(vx_m, {p}(vx_e)) {{ {p}(vx_e) }}', 'sub'); e.relex()
                dropped.append('eta expansion of ' + p)
        if x == 'if' and nx == 'log_enabled':
            j = i
            while e.t[j][1] != '{': j += 1
            c = match_close(e.t, j)
            dropped.append('logging block'); e.replace(i, c + 1, None); continue
        i += 1
    mut_self(e, dropped)
    tail_break(e, dropped)

def mut_self(e, dropped):
    """`mut self` parameter: a local copy `vx_self` that the body uses instead."""
    bo = next((i for i in range(len(e.t)) if e.t[i][1] == '{' and e.t[i][0] == 'p' and depth0(e.t, i)), None)
    if bo is None: return
    k = next((i for i in range(bo - 1) if e.t[i][1] == 'mut' and e.t[i+1][1] == 'self' and e.t[i-1][1] == '('), None)
    if k is None: return
    for i in range(bo, len(e.t)):
        if e.t[i][0] == 'id' and e.t[i][1] == 'self': e.t[i] = ('id', 'vx_self', 0, 0)
    if e.t[bo+1][1] != '}': e.insert(bo + 1, 'let mut vx_self = self;')
    e.replace(k, k + 1, None)
    dropped.append('mut self as a local copy')

def tail_break(e, dropped):
    """`loop` as the tail expression of the body: `break VALUE` in it is `return VALUE`."""
    if not e.t or e.t[-1][1] != '}': return
    bo = next((i for i in range(len(e.t)) if e.t[i][1] == '{' and e.t[i][0] == 'p' and depth0(e.t, i)), None)
    if bo is None: return
    i = bo + 1
    while i < len(e.t) - 1:
        x = e.t[i]
        if x[0] == 'id' and x[1] == 'loop' and e.t[i+1][1] == '{' and match_close(e.t, i + 1) == len(e.t) - 2 and e.t[i-1][1] in ('{', ';', '}'):
            inner = [(l[2], match_close(e.t, l[2])) for l in loops(e.t) if l[1] > i]
            for j in range(i + 2, len(e.t) - 2):
                if e.t[j][0] == 'id' and e.t[j][1] == 'break' and e.t[j+1][1] not in (';', '}', ',') and e.t[j+1][0] != 'life' and not any(a < j < z for a, z in inner):
                    e.t[j] = ('id', 'return', 0, 0)
                    dropped.append('break of the tail loop as return')
            return
        if x[0] == 'p' and x[1] in OPEN: i = match_close(e.t, i)
        i += 1

def loops(t):
    out = []
    for i, x in enumerate(t):
        if x[0] == 'id' and x[1] in ('while', 'for', 'loop'):
            if x[1] == 'for' and t[i+1][1] == '<': continue
            j = i + 1
            while True:
                if t[j][0] == 'p' and t[j][1] in '([': j = match_close(t, j)
                elif t[j][0] == 'p' and t[j][1] == '{': break
                j += 1
            out.append((x[1], i, j))
    return out

def find_pat(e, pat):
    nth = 0
    m = re.match(r'(.*)\s+#(\d+)$', pat)
    if m: pat, nth = m.group(1), int(m.group(2))
    pt = sig(lex(pat))
    hits = []
    for i in range(len(e.t)):
        r = match_pat(pt, e.t, i)
        if r: hits.append((i, r[0]))
    if not hits or (not m and len(hits) > 1) or nth >= len(hits):
        raise Lost(f'pattern `{pat}`: {len(hits)} matches')
    return hits[nth]

class Block:
    def __init__(self, head, lines, file, tpl, ln):
        self.head = head; self.file = file; self.secs = []; self.tpl = tpl; self.ln = ln
        m = re.match(r'(\w+)(?:\s+in\s+(.*?))?(?:\s+as\s+(\w+))?$', head)
        self.name, self.header, self.newname = m.group(1), m.group(2), m.group(3)
        cur = None
        for l in lines:
            m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
            if m:
                cur = [m.group(1), m.group(2).strip(), []]; self.secs.append(cur)
            elif cur is not None: cur[2].append(l)
    def key(self):
        return f'{self.file}:{(self.header + "::") if self.header else ""}{self.name}'

def build_fn(b, src):
    """-> (text, info)"""
    it = src.find('fn', b.name, b.header)
    kind, name, header, start, first, body, end = it
    text = src.span(first, end)
    info = dict(key=b.key(), sha=hashlib.sha256(text.encode()).hexdigest()[:16], subs=[], dropped=[], lines=src.text[:src.t[first][2]].count('\n') + 1)
    e = Edit(text)
    e.pre[0] = ''
    widen(e, header)
    for k, arg, _ in b.secs:
        if k == 'sub0':   # before generic rewrites
            do_sub(e, arg, info)
    generic(e, info['dropped'])
    for k, arg, _ in b.secs:
        if k in ('sub', 'sub?'): do_sub(e, arg, info)
    ls = loops(e.t)
    want = [s for s in b.secs if s[0] == 'loop']
    nloops = None
    for s in b.secs:
        if s[0] == 'noloops': nloops = 0
    if want or nloops == 0:
        if len(ls) != len(want): raise Lost(f'{len(ls)} loops in the source, {len(want)} annotated')
    elif ls: raise Lost(f'{len(ls)} loops in the source, none annotated')
    ins = []  # (token index, order, text)
    o = 0
    # body braces
    if body is not None:
        bo = next(i for i in range(len(e.t)) if e.t[i][1] == '{' and e.t[i][0] == 'p' and depth0(e.t, i))
        bc = match_close(e.t, bo)
    else:
        bo = next(i for i in range(len(e.t)-1, -1, -1) if e.t[i][1] == ';'); bc = None
    for k, arg, lines in b.secs:
        txt = '\n'.join(lines)
        o += 1
        if k == 'spec': ins.append((bo, o, '\n' + txt + '\n'))
        elif k == 'ret':
            a = arrow(e.t, bo)
            if a is None:
                raise Lost('no return type')
            w = next((i for i in range(a, bo) if e.t[i][1] == 'where'), bo)
            ins.append((a + 1, o, f'({arg}: ')); ins.append((w, -1000, ')'))
        elif k == 'loop':
            p = arg.split(); n = int(p[0])
            if n >= len(ls) or ls[n][0] != p[1]: raise Lost(f'loop {n} is not a `{p[1]}` loop')
            ins.append((ls[n][2], o, '\n' + txt + '\n'))
            for q in p[2:]:
                if q.startswith('iter='):
                    j = next(i for i in range(ls[n][1], ls[n][2]) if e.t[i][1] == 'in')
                    ins.append((j + 1, o, f'{q[5:]}: '))
                if q.startswith('attr='):
                    ins.append((ls[n][1], o, q[5:] + ' '))
        elif k == 'loopstart': ins.append((ls[int(arg)][2] + 1, o, '\n' + txt + '\n'))
        elif k == 'loopend': ins.append((match_close(e.t, ls[int(arg)][2]), o, '\n' + txt + '\n'))
        elif k == 'afterloop': ins.append((match_close(e.t, ls[int(arg)][2]) + 1, o, '\n' + txt + '\n'))
        elif k == 'beforeloop': ins.append((ls[int(arg)][1], o, '\n' + txt + '\n'))
        elif k == 'start': ins.append((bo + 1, o, '\n' + txt + '\n'))
        elif k == 'end_of_body': ins.append((bc, o, '\n' + txt + '\n'))
        elif k == 'before': ins.append((find_pat(e, arg)[0], o, '\n' + txt + '\n'))
        elif k == 'after': ins.append((find_pat(e, arg)[1], o, '\n' + txt + '\n'))
        elif k == 'wrap':
            a, z = find_pat(e, arg); ins.append((a, o, '{\n' + txt + '\n')); ins.append((z, o, '}'))
        elif k in ('sub', 'sub0', 'attr', 'noloops'): pass
        else: raise SystemExit(f'{b.tpl}:{b.ln}: unknown section {k}')
    for i, _, txt in sorted(ins, key=lambda z: (z[0], z[1]), reverse=True):
        e.insert(i, txt)
    if b.newname:
        j = next(i for i in range(len(e.t)) if e.t[i][1] == 'fn')
        e.t[j+1] = ('id', b.newname, 0, 0)
    attrs = ''.join(a + '\n' for k, a, _ in b.secs if k == 'attr')
    return attrs + e.render(), info

def depth0(t, i):
    d = 0
    for j in range(i):
        if t[j][0] == 'p':
            if t[j][1] in OPEN: d += 1
            elif t[j][1] in CLOSE: d -= 1
    return d == 0

def arrow(t, bo):
    d = 0
    for j in range(bo):
        if t[j][0] == 'p':
            if t[j][1] in OPEN: d += 1
            elif t[j][1] in CLOSE: d -= 1
            elif t[j][1] == '->' and d == 0: return j
    return None

def do_sub(e, arg, info):
    opt = arg.startswith('?')
    if opt: arg = arg[1:]
    pat, rep = [x.strip() for x in arg.split('==>', 1)]
    pt = sig(lex(pat)); n = 0; i = 0
    while i < len(e.t):
        r = match_pat(pt, e.t, i) if e.t[i][0] != 'ins' else None
        if r and r[0] > i:
            out = rep
            for c, (a, z) in r[1].items():
                out = out.replace('__' + c, ' '.join(x[1] for x in e.t[a:z]))
            e.replace(i, r[0], out, 'sub'); e.relex()
            n += 1
            i += len(sig(lex(out))) or 0
        else: i += 1
    if n == 0 and not opt: raise Lost(f'substitution pattern `{pat}` not found')
    if n: info['subs'].append(f'{pat} ==> {rep} (x{n})')

def build_item(arg, src):
    arg, _, attrs = arg.partition('|')
    attrs, _, sub = attrs.partition('|')
    kind, name = arg.split()[:2]
    it = src.find(kind, name, '') if False else src.find(kind, name)
    e = Edit(src.span(it[4], it[6])); e.pre[0] = ''
    d = []
    i = 0
    while i < len(e.t):
        k = attr_span(e.t, i) if e.t[i][1] == '#' and i + 1 < len(e.t) and e.t[i+1][1] == '[' else None
        if k: e.replace(i, k, None)
        elif e.t[i][1] == '*' and e.t[i+1][1].startswith('b"') and '\\' not in e.t[i+1][1]:
            # a dereferenced byte string is the array of its bytes
            e.replace(i, i + 2, '[' + ', '.join(f'0x{b:02x}u8' for b in e.t[i+1][1][2:-1].encode()) + ']', 'sub'); e.relex()
        else: i += 1
    # widen visibility (specifications mention fields)
    if e.t[0][1] != 'pub': e.insert(0, 'pub ')
    elif e.t[1][1] == '(': e.replace(1, match_close(e.t, 1) + 1, None)
    if kind == 'struct':
        j = next((i for i in range(len(e.t)) if e.t[i][0] == 'p' and e.t[i][1] in '{('), None)
        if j is not None and e.t[j][1] == '{':
            for a, b in reversed(split_fields(e.t, j + 1, match_close(e.t, j))):
                if e.t[a][1] == 'pub':
                    if e.t[a+1][1] == '(': e.replace(a + 1, match_close(e.t, a + 1) + 1, None)
                else: e.insert(a, 'pub ')
    text = e.render()
    if sub.strip():
        pat, rep = (x.strip() for x in sub.split(' ==> '))
        text, n = re.subn(r'\s*'.join(re.escape(x) for x in re.findall(r'\w+|\S', pat)), lambda m: rep, text)
        if n == 0: raise Lost(f'substitution pattern `{pat}` not found')
    return (attrs.strip() + '\n' if attrs.strip() else '') + text

def split_fields(t, a, b):
    out = []; s = a; i = a; ang = 0
    while i < b:
        x = t[i][1]
        if t[i][0] == 'p' and x in OPEN: i = match_close(t, i)
        elif x == '<': ang += 1
        elif x == '>': ang -= 1
        elif x == ',' and ang == 0: out.append((s, i)); s = i + 1
        i += 1
    if s < b: out.append((s, b))
    return out

def widen(e, header):
    """make a free or inherent function `pub`"""
    if ' for ' in header or header.strip().startswith('trait') or ' trait ' in header:
        return
    if e.t[0][1] == 'pub':
        if e.t[1][1] == '(': e.replace(1, match_close(e.t, 1) + 1, None)
    else:
        e.t[0:0] = [('id', 'pub', 0, 0)]; e.pre[0:0] = ['']; e.pre[1] = ' '

def generate(repo, tpl_path, out_path, force_external=()):
    """Expands one template. Returns dict(fns=[...], lost=[...]) with generated line ranges."""
    srcs = {}
    def S(f):
        if f not in srcs: srcs[f] = Src(os.path.join(repo, f))
        return srcs[f]
    lines = open(tpl_path).read().split('\n')
    out = []; fns = []; lost = []; file = None; i = 0; errors = []; items = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@(file|item|fn|deps)\s+(.*)$', l)
        if not m: out.append(l); i += 1; continue
        if m.group(1) == 'deps': out.append(''); i += 1; continue
        if m.group(1) == 'file': file = m.group(2).strip(); i += 1; continue
        if m.group(1) == 'item':
            try:
                t = build_item(m.group(2), S(file)); items.append(file + ':' + m.group(2).split('|')[0].strip())
                out += t.split('\n')
            except (Lost, FileNotFoundError) as x:
                errors.append(f'{file}: {x}')
            i += 1; continue
        ln = i + 1; i += 1; blk = []
        while not re.match(r'\s*//@end\s*$', lines[i]): blk.append(lines[i]); i += 1
        i += 1
        b = Block(m.group(2).strip(), blk, file, tpl_path, ln)
        try:
            if b.key() in force_external:
                raise Lost(force_external[b.key()])
            t, info = build_fn(b, S(file))
        except (Lost, FileNotFoundError, StopIteration) as x:
            # keep the contract, assume the body
            lost.append(dict(key=b.key(), why=str(x)))
            try: t, info = build_external(b, S(file))
            except (Lost, FileNotFoundError, StopIteration) as y:
                errors.append(f'{b.key()}: {y}'); continue
            info['external'] = True
        tl = t.split('\n')
        info['gen'] = (len(out) + 1, len(out) + len(tl)); info['tpl'] = ln
        out += tl; fns.append(info)
    if out_path: open(out_path, 'w').write('\n'.join(out))
    return dict(fns=fns, lost=lost, errors=errors, items=items, out=out_path, text=out)

def build_external(b, src):
    """The function's signature with its contract and no body: a caller may rely on the contract, but it is not proved here."""
    it = src.find('fn', b.name, b.header)
    kind, name, header, start, first, body, end = it
    if body is None: raise Lost('no body')
    text = src.span(first, body) + ' {}'
    e = Edit(text); e.pre[0] = ''
    widen(e, header)
    info = dict(key=b.key(), sha='', subs=[], dropped=[], lines=src.text[:src.t[first][2]].count('\n') + 1)
    generic(e, info['dropped'])
    for k, arg, _ in b.secs:
        if k in ('sub', 'sub0'):
            try: do_sub(e, arg, info)
            except Lost: pass
    bo = next(i for i in range(len(e.t)) if e.t[i][1] == '{' and e.t[i][0] == 'p' and depth0(e.t, i))
    ins = []
    for k, arg, lines in b.secs:
        if k == 'spec': ins.append((bo, 1, '\n' + '\n'.join(lines) + '\n'))
        elif k == 'ret':
            a = arrow(e.t, bo)
            w = next((i for i in range(a, bo) if e.t[i][1] == 'where'), bo)
            ins.append((a + 1, 0, f'({arg}: ')); ins.append((w, -1, ')'))
    ins.append((bo + 1, 5, ' unimplemented!() '))
    for i, _, txt in sorted(ins, key=lambda z: (z[0], z[1]), reverse=True): e.insert(i, txt)
    if b.newname:
        j = next(i for i in range(len(e.t)) if e.t[i][1] == 'fn')
        e.t[j+1] = ('id', b.newname, 0, 0)
    attrs = ''.join(a + '\n' for k, a, _ in b.secs if k == 'attr' and 'external' not in a)
    return '#[verifier::external_body]\n' + attrs + e.render(), info

if __name__ == '__main__':
    r = generate(sys.argv[1], sys.argv[2], sys.argv[3])
    for x in r['lost']: print('LOST', x)
    for x in r['errors']: print('ERROR', x)
