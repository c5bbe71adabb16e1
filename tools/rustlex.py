"""A small Rust lexer and item indexer used by the mechanical extractor.

It never interprets the code: it finds items (functions, structs, enums,
constants, traits) by their path and returns their source text verbatim."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<rawstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
|(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
|(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9_]*(?:[eE][+-]?[0-9]+)?)?(?:f32|f64)?)
|(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
|(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|[{}()\[\];,.:<>=+\-*/%&|^!?@\#$~])
''', re.X)


class Tok:
    __slots__ = ('k', 's', 'a', 'b')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return '%s:%r' % (self.k, self.s)


def lex(src, keep_ws=False):
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise ValueError('lex error at %d: %r' % (i, src[i:i + 40]))
        k = m.lastgroup if m.lastgroup != 'h' else 'rawstr'
        if m.group('rawstr'):
            k = 'rawstr'
        if k == 'bc':
            d, j = 1, m.end()
            while d and j < n:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            if keep_ws:
                out.append(Tok('bc', src[i:j], i, j))
            i = j
            continue
        # r"..." / r#"..."# must win over identifier r
        if k == 'id' and m.group() in ('r', 'br') and src[m.end():m.end() + 1] in ('"', '#'):
            m2 = re.compile(r'b?r(#*)"(?:.|\n)*?"\1').match(src, i)
            if m2:
                out.append(Tok('str', m2.group(), i, m2.end()))
                i = m2.end()
                continue
        if k in ('ws', 'lc'):
            if keep_ws:
                out.append(Tok(k, m.group(), i, m.end()))
        else:
            out.append(Tok('str' if k == 'rawstr' else k, m.group(), i, m.end()))
        i = m.end()
    return out


OPEN = {'{': '}', '(': ')', '[': ']'}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]."""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k != 'p':
            continue
        if s in OPEN:
            d += 1
        elif s in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise ValueError('unbalanced')


def skip_generics(toks, i):
    """toks[i] is '<': index just past the matching '>'."""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if s == '<':
            d += 1
        elif s == '>':
            d -= 1
            if d == 0:
                return i + 1
        elif s in OPEN and toks[i].k == 'p':
            i = match_close(toks, i)
        i += 1
    raise ValueError('generics')


class Item:
    def __init__(self, kind, name, path, start, end, toks, src, extra=None):
        self.kind, self.name, self.path = kind, name, path
        self.start, self.end = start, end  # token indices [start, end)
        self.toks, self.src = toks, src
        self.extra = extra or {}

    @property
    def text(self):
        return self.src[self.toks[self.start].a:self.toks[self.end - 1].b]


KW = {'pub', 'async', 'unsafe', 'const', 'extern', 'default'}


def index_items(src, with_tests=False):
    toks = lex(src)
    items = []
    scan(toks, 0, len(toks), '', items, src, with_tests, {})
    return items


def scan(toks, i, end, prefix, items, src, with_tests, ctx):
    while i < end:
        attrs_start = i
        is_test = False
        while i < end and toks[i].s == '#' and i + 1 < end and toks[i + 1].s in ('[', '!'):
            j = i + 1
            if toks[j].s == '!':
                j += 1
            k = match_close(toks, j)
            txt = ''.join(t.s for t in toks[j:k + 1])
            if re.search(r'\bcfg\b', txt) and re.search(r'\btest\b', txt) and 'not(test' not in txt:
                is_test = True
            if txt in ('[test]', '[gtest]'):
                is_test = True
            i = k + 1
        start = i
        if i >= end:
            break
        t = toks[i]
        # visibility
        if t.s == 'pub':
            i += 1
            if i < end and toks[i].s == '(':
                i = match_close(toks, i) + 1
        while i < end and toks[i].s in ('async', 'unsafe', 'default') or (
                i < end and toks[i].s == 'const' and toks[i + 1].s in ('fn', 'unsafe', 'async')) or (
                i < end and toks[i].s == 'extern' and toks[i + 1].k == 'str' and toks[i + 2].s == 'fn'):
            i += 2 if toks[i].s == 'extern' else 1
        if i >= end:
            break
        s = toks[i].s
        skip = is_test and not with_tests
        if s == 'fn':
            name = toks[i + 1].s
            j = i + 2
            if toks[j].s == '<':
                j = skip_generics(toks, j)
            pstart = j
            pend = match_close(toks, j)
            j = pend + 1
            while toks[j].s not in ('{', ';'):
                if toks[j].s == '<':
                    j = skip_generics(toks, j)
                elif toks[j].s in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
            if toks[j].s == '{':
                e = match_close(toks, j) + 1
                body = (j, e)
            else:
                e = j + 1
                body = None
            if not skip:
                items.append(Item('fn', name, prefix + name, start, e, toks, src, dict(
                    ctx, fn_tok=i, params=(pstart, pend), body=body)))
            i = e
        elif s in ('struct', 'enum', 'union', 'trait'):
            name = toks[i + 1].s
            j = i + 2
            if j < end and toks[j].s == '<':
                j = skip_generics(toks, j)
            while toks[j].s not in ('{', ';'):
                if toks[j].s == '(':
                    j = match_close(toks, j) + 1
                elif toks[j].s == '<':
                    j = skip_generics(toks, j)
                else:
                    j += 1
            e = match_close(toks, j) + 1 if toks[j].s == '{' else j + 1
            if not skip:
                items.append(Item(s, name, prefix + name, start, e, toks, src,
                                  dict(attrs=''.join(t.s + ' ' for t in toks[attrs_start:start]))))
                if s == 'trait' and toks[j].s == '{':
                    scan(toks, j + 1, e - 1, prefix + name + '::', items, src, with_tests,
                         {'trait_decl': name})
            i = e
        elif s == 'impl':
            j = i + 1
            gen = ''
            if toks[j].s == '<':
                k = skip_generics(toks, j)
                gen = src[toks[j].a:toks[k - 1].b]
                j = k
            h = j
            while toks[j].s != '{':
                if toks[j].s == '<':
                    j = skip_generics(toks, j)
                elif toks[j].s in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
            head = toks[h:j]
            # split on top-level 'for' and 'where'
            fpos = wpos = None
            d = 0
            for q, tt in enumerate(head):
                if tt.s == '<':
                    d += 1
                elif tt.s == '>':
                    d -= 1
                elif d == 0 and tt.s == 'for' and fpos is None and q > 0:
                    fpos = q
                elif d == 0 and tt.s == 'where':
                    wpos = q
                    break
            tyt = head[(fpos + 1 if fpos is not None else 0):(wpos if wpos is not None else len(head))]
            trt = head[:fpos] if fpos is not None else []
            selfty = src[tyt[0].a:tyt[-1].b] if tyt else ''
            where = src[head[wpos].a:head[-1].b] if wpos is not None else ''
            base = base_name(tyt)
            trait = base_name(trt) if trt else None
            e = match_close(toks, j) + 1
            if not skip:
                items.append(Item('impl', base, prefix + base, start, e, toks, src,
                                  dict(trait=trait, generics=gen, selfty=selfty, where=where)))
                scan(toks, j + 1, e - 1, prefix + base + '::', items, src, with_tests,
                     dict(impl_trait=trait, generics=gen, selfty=selfty, where=where,
                          trait_full=src[trt[0].a:trt[-1].b] if trt else None))
            i = e
        elif s == 'mod':
            name = toks[i + 1].s
            if toks[i + 2].s == '{':
                e = match_close(toks, i + 2) + 1
                if not skip:
                    scan(toks, i + 3, e - 1, prefix + name + '::', items, src, with_tests, {})
                i = e
            else:
                i = i + 3
        elif s in ('const', 'static', 'type', 'use'):
            name = toks[i + 1].s
            if name == 'mut':
                name = toks[i + 2].s
            j = i
            while toks[j].s != ';':
                if toks[j].s in OPEN:
                    j = match_close(toks, j)
                j += 1
            if not skip and s != 'use':
                items.append(Item(s, name, prefix + name, start, j + 1, toks, src))
            i = j + 1
        elif s == 'extern':
            j = i
            while toks[j].s not in (';', '{'):
                j += 1
            i = match_close(toks, j) + 1 if toks[j].s == '{' else j + 1
        elif s == 'macro_rules':
            j = i
            while toks[j].s not in ('{', '('):
                j += 1
            i = match_close(toks, j) + 1
        else:
            # macro invocation or something else at item level
            j = i
            while j < end and toks[j].s not in (';', '{', '('):
                j += 1
            if j < end and toks[j].s in ('{', '('):
                j = match_close(toks, j)
                if j + 1 < end and toks[j + 1].s == ';':
                    j += 1
            i = j + 1


def base_name(tt):
    """last path segment before generics of a type token list."""
    name = ''
    for t in tt:
        if t.s == '<':
            break
        if t.k == 'id' and t.s not in ('dyn', 'mut'):
            name = t.s
    return name
