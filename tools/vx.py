"""Mechanical extractor: builds one Verus file from a unit template (contracts)
and the current source of the code under verification.

The unit holds contracts, invariants, ghost code and trusted shims; every
executable function body comes, on every run, from the source tree."""
import hashlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
import rustlex  # noqa: E402
from rustlex import OPEN, CLOSE  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lost(Exception):
    """an anchor (function, type) named by a contract is not in the source."""


class T:
    __slots__ = ('k', 's', 'ws')

    def __init__(self, k, s, ws):
        self.k, self.s, self.ws = k, s, ws


def toks_of(text):
    out, ws = [], ''
    for t in rustlex.lex(text, keep_ws=True):
        if t.k == 'ws':
            ws += t.s
        elif t.k in ('lc', 'bc'):
            ws += '\n' if t.k == 'lc' else ' '
        else:
            w = ''
            if '\n' in ws:
                w = '\n' + ws.rsplit('\n', 1)[1]
            elif ws:
                w = ' '
            out.append(T(t.k, t.s, w))
            ws = ''
    return out


def render(toks):
    r = []
    for i, t in enumerate(toks):
        ws = t.ws
        if not ws and i and _glue(toks[i - 1], t):
            ws = ' '
        r.append(ws + t.s)
    return ''.join(r)


def _glue(a, b):
    wordy = ('id', 'num', 'life', 'char', 'str')
    return a.k in wordy and b.k in wordy


def mclose(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].s in OPEN:
                d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise ValueError('unbalanced')


# ---------------------------------------------------------------- rewriting

def parse_pat(s):
    s = s.replace('$$', '\x00')
    out = []
    for part in re.split(r'(\$[a-zA-Z_]\w*[+*]?)', s):
        if part.startswith('$') and len(part) > 1:
            star = part.endswith('*')
            out.append(('$', part[1:].rstrip('+*'), star))
        else:
            for t in toks_of(part):
                out.append(('t', t.s, t))
    return out


def match_at(toks, i, pat, pi, binds):
    """matches pat[pi:] at toks[i]; returns end index or None."""
    while pi < len(pat):
        kind, val, ex = pat[pi]
        if kind == 't':
            if i >= len(toks) or toks[i].s != val:
                return None
            i += 1
            pi += 1
            continue
        # wildcard: token trees, non greedy, within the bracket level, no ';'
        start = i
        j = i
        first = True
        while True:
            if not (first and not ex):
                b2 = dict(binds)
                b2[val] = toks[start:j]
                e = match_at(toks, j, pat, pi + 1, b2)
                if e is not None:
                    binds.clear()
                    binds.update(b2)
                    return e
            first = False
            if j >= len(toks):
                return None
            s = toks[j].s
            if toks[j].k == 'p' and s in CLOSE:
                return None
            if s == ';' and toks[j].k == 'p':
                return None
            if s == '{' and val.startswith('p_'):
                return None     # $p_x does not span a block
            if toks[j].k == 'p' and s in OPEN:
                j = mclose(toks, j) + 1
            else:
                j += 1
    return i


def subst(toks, pat, rep, limit=None):
    p = parse_pat(pat)
    rp = parse_pat(rep)
    out, i, n = [], 0, 0
    while i < len(toks):
        if limit is None or n < limit:
            b = {}
            e = match_at(toks, i, p, 0, b)
            if e is not None and e > i:
                n += 1
                new = []
                for kind, val, ex in rp:
                    if kind == 't':
                        new.append(T(ex.k, ex.s, ex.ws))
                    else:
                        bt = b.get(val, [])
                        # rewrite inside the bound part as well
                        bt2, n2 = subst(bt, pat, rep)
                        n += n2
                        cp = [T(t.k, t.s, t.ws) for t in bt2]
                        if cp and not cp[0].ws:
                            cp[0].ws = ' '
                        new.extend(cp)
                if new:
                    new[0].ws = toks[i].ws or ' '
                out.extend(new)
                i = e
                continue
        out.append(toks[i])
        i += 1
    return out, n


LOG_MACROS = {'trace', 'debug', 'info', 'warn', 'error', 'crit', 'println', 'eprintln'}


def drop_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.s == '#' and i + 1 < len(toks) and (toks[i + 1].s == '[' or (
                toks[i + 1].s == '!' and i + 2 < len(toks) and toks[i + 2].s == '[')):
            j = i + (1 if toks[i + 1].s == '[' else 2)
            i = mclose(toks, j) + 1
            continue
        out.append(t)
        i += 1
    return out


def std_rewrites(toks, log):
    """the fixed, documented rewrites applied to every extracted item."""
    toks = drop_attrs(toks)
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.s[:1].isupper() and i + 4 < len(toks) and toks[i + 1].s == '::' and toks[i + 2].s[:1].isupper() \
                and toks[i + 3].s == 'as' and toks[i + 4].s == 'i32':
            out.extend(toks[i:i + 3])
            out.extend(toks_of('.vx_i32()'))
            log['enum cast to i32 written as a call'] = log.get('enum cast to i32 written as a call', 0) + 1
            i += 5
            continue
        if t.k == 'str' and i + 4 < len(toks) and toks[i + 1].s == '.' and toks[i + 2].s in ('into', 'to_string', 'to_owned') \
                and toks[i + 3].s == '(' and toks[i + 4].s == ')':
            out.extend(toks_of('vx_format()'))
            out[-3].ws = t.ws
            log['string literals replaced by an arbitrary string'] = log.get('string literals replaced by an arbitrary string', 0) + 1
            i += 5
            continue
        if t.s == '(' and t.k == 'p' and out and out[-1].s in (';', '{', '}'):
            # destructuring assignment -> let + assignments
            e = mclose(toks, i)
            if e + 1 < len(toks) and toks[e + 1].s == '=':
                targets = _args(toks[i + 1:e])
                j = e + 2
                while toks[j].s != ';':
                    j = mclose(toks, j) + 1 if toks[j].k == 'p' and toks[j].s in OPEN else j + 1
                rhs = std_rewrites(toks[e + 2:j], log)
                names = ['vx_d%d' % q for q in range(len(targets))]
                txt = 'let (%s) = ' % ', '.join(names)
                new = toks_of(txt)
                new[0].ws = t.ws
                out.extend(new)
                out.extend(rhs)
                out.append(T('p', ';', ''))
                for tg, nm in zip(targets, names):
                    tg[0].ws = ' '
                    out.extend(tg)
                    out.extend(toks_of(' = %s;' % nm))
                log['destructuring assignment written as let and assignments'] = log.get('destructuring assignment written as let and assignments', 0) + 1
                i = j + 1
                continue
        if t.k == 'id' and i + 2 < len(toks) and toks[i + 1].s == '!' and toks[i + 2].s in OPEN and (
                not out or out[-1].s not in ('.', '::') or (len(out) > 1 and out[-1].s == '::' and out[-2].s == 'slog')):
            e = mclose(toks, i + 2)
            inner = toks[i + 3:e]
            nm = t.s
            if nm in LOG_MACROS:
                if out and out[-1].s == '::':
                    out.pop()
                    out.pop()
                log['logging statements dropped'] = log.get('logging statements dropped', 0) + 1
                if e + 1 < len(toks) and toks[e + 1].s == ';':
                    i = e + 2
                else:
                    out.extend([T('p', '(', t.ws), T('p', ')', '')])
                    i = e + 1
                continue
            if nm in ('panic', 'todo', 'unimplemented', 'unreachable'):
                out.append(T('id', 'vx_' + nm, t.ws))
                out.append(T('p', '(', ''))
                out.append(T('p', ')', ''))
                i = e + 1
                continue
            if nm in ('assert', 'debug_assert'):
                arg = _first_arg(inner)
                out.append(T('id', 'vx_assert', t.ws))
                out.append(T('p', '(', ''))
                out.extend(std_rewrites(arg, log))
                out.append(T('p', ')', ''))
                i = e + 1
                continue
            if nm in ('assert_eq', 'assert_ne', 'debug_assert_eq'):
                a = _args(inner)
                out.append(T('id', 'vx_assert', t.ws))
                out.append(T('p', '(', ''))
                out.extend(std_rewrites(a[0], log))
                out.append(T('p', '!=' if nm == 'assert_ne' else '==', ' '))
                out.extend(std_rewrites(a[1], log))
                out.append(T('p', ')', ''))
                i = e + 1
                continue
            if nm == 'format':
                out.append(T('id', 'vx_format', t.ws))
                out.append(T('p', '(', ''))
                out.append(T('p', ')', ''))
                log['format! replaced by an arbitrary string'] = log.get('format! replaced by an arbitrary string', 0) + 1
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out


def _if_parts(toks, i):
    """toks[i] is `if`: (end of the condition = index of the block, end of the whole if/else chain)"""
    j = i + 1
    while toks[j].s != '{':
        if toks[j].s == 'match':
            while toks[j].s != '{':
                j = mclose(toks, j) + 1 if toks[j].k == 'p' and toks[j].s in OPEN else j + 1
        j = mclose(toks, j) + 1 if toks[j].k == 'p' and toks[j].s in OPEN else j + 1
    e = mclose(toks, j) + 1
    if e < len(toks) and toks[e].s == 'else':
        if toks[e + 1].s == 'if':
            return j, e, _if_parts(toks, e + 1)[2]
        return j, e, mclose(toks, e + 1) + 1
    return j, e, e


def split_chains(toks, log):
    """`if let P = e && c { A } else { B }` -> nested ifs, the else part repeated"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.s == 'if' and i + 1 < len(toks):
            b, e, end = _if_parts(toks, i)
            parts, cur, j, depth = [], [], i + 1, 0
            while j < b:
                if toks[j].s == '&&' and cur:
                    parts.append(cur)
                    cur = []
                    j += 1
                    continue
                if toks[j].k == 'p' and toks[j].s in OPEN:
                    k = mclose(toks, j) + 1
                    cur.extend(toks[j:k])
                    j = k
                else:
                    cur.append(toks[j])
                    j += 1
            parts.append(cur)
            if len(parts) > 1 and any(x[0].s == 'let' for x in parts):
                log['let chains written as nested ifs'] = log.get('let chains written as nested ifs', 0) + 1
                groups = []
                for x in parts:
                    if groups and x[0].s != 'let' and groups[-1][0].s != 'let':
                        groups[-1] = groups[-1] + [T('p', '&&', ' ')] + x
                    else:
                        groups.append(x)
                body = split_chains(toks[b:e], log)
                els = []
                if end > e:
                    els = toks[e + 1:end]
                    if els[0].s == 'if':
                        els = [T('p', '{', ' ')] + els + [T('p', '}', ' ')]
                    els = [T('id', 'else', ' ')] + split_chains(els, log)
                new = body
                for n, g in enumerate(reversed(groups)):
                    g[0].ws = g[0].ws or ' '
                    new = [T('id', 'if', ' ')] + g + new + [T(x.k, x.s, x.ws) for x in els]
                    if n < len(groups) - 1:
                        new = [T('p', '{', ' ')] + new + [T('p', '}', ' ')]
                new[0].ws = t.ws
                out.extend(new)
                i = end
                continue
        out.append(t)
        i += 1
    return out


def idioms(toks, log):
    """two spellings of one thing brought to one: `.map(path)` as a closure, `in &v` as `in v.iter()`"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.s == 'map' and i and toks[i - 1].s == '.' and i + 2 < len(toks) and toks[i + 1].s == '(' and toks[i + 2].k == 'id':
            e = mclose(toks, i + 1)
            inner = toks[i + 2:e]
            if all(x.s == '::' or (x.k == 'id' and x.s != 'move') for x in inner):
                out.extend([t, toks[i + 1]])
                out.extend(toks_of('|vx_a| %s(vx_a)' % render(inner)))
                out.append(toks[e])
                log['path given to map written as a closure'] = log.get('path given to map written as a closure', 0) + 1
                i = e + 1
                continue
        if t.s == 'in' and t.k == 'id' and i + 2 < len(toks) and toks[i + 1].s == '&' and toks[i + 2].k == 'id' and toks[i + 2].s != 'mut':
            j = i + 2
            while j < len(toks) and (toks[j].k == 'id' or toks[j].s == '.'):
                j += 1
            if j < len(toks) and toks[j].s == '{':
                out.append(t)
                toks[i + 2].ws = ' '
                out.extend(toks[i + 2:j])
                out.extend(toks_of('.iter()'))
                log['for over &v written as over v.iter()'] = log.get('for over &v written as over v.iter()', 0) + 1
                i = j
                continue
        out.append(t)
        i += 1
    return out


EXTENDS = [('$p_v.extend($p_x.iter().copied());', 'for vx_x in $p_x.iter() { $p_v.push(*vx_x); }'),
           ('$p_v.extend($p_x.iter().cloned());', 'for vx_x in $p_x.iter() { $p_v.push(vx_x.clone()); }'),
           ('$p_v.extend_from_slice(&$p_x);', 'for vx_x in $p_x.iter() { $p_v.push(vx_x.clone()); }'),
           ('$p_v.extend($p_x.into_iter());', '{ let mut vx_e = $p_x; $p_v.append(&mut vx_e); }'),
           ('$p_v.extend($p_x.drain(..));', '$p_v.append(&mut $p_x);')]


def map_collect(toks, log):
    """`v.iter().map(|p| e).collect()` as a loop; as the whole of a let, the loop pushes onto the variable"""
    if not any(t.s == 'collect' for t in toks):
        return toks
    for pat, rep in ((parse_pat('let $p_n = $v.iter().map(|$p_p| $b).collect();'), 'let mut $p_n = Vec::new(); for $p_p in $v.iter() { $p_n.push($b); }'),
                     (parse_pat('let $p_n: $p_t = $v.iter().map(|$p_p| $b).collect();'), 'let mut $p_n: $p_t = Vec::new(); for $p_p in $v.iter() { $p_n.push($b); }')):
        i = 0
        while i < len(toks):
            b = {}
            e = match_at(toks, i, pat, 0, b) if toks[i].s == 'let' else None
            if e is not None and all(t.k == 'id' for t in b['p_n']) and not any(t.s in ('return', '?') for t in b['b']) \
                    and not any(t.s in ('=', '{') for t in b['v']) and (('p_t' not in b) or b['p_t'][0].s == 'Vec'):
                new = []
                for kind, val, ex in parse_pat(rep):
                    if kind == 't':
                        new.append(T(ex.k, ex.s, ex.ws))
                    else:
                        c = [T(t.k, t.s, t.ws) for t in b[val]]
                        c[0].ws = ' '
                        new.extend(c)
                new[0].ws = toks[i].ws or ' '
                toks = toks[:i] + new + toks[e:]
                log['map/collect written as a loop'] = log.get('map/collect written as a loop', 0) + 1
            i += 1
    return toks


def _args(toks):
    res, cur, i = [], [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'p' and t.s in OPEN:
            e = mclose(toks, i)
            cur.extend(toks[i:e + 1])
            i = e + 1
            continue
        if t.s == ',':
            res.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        res.append(cur)
    return res


def _first_arg(toks):
    return _args(toks)[0]


# ------------------------------------------------------------------- loops

def find_loops(toks):
    """[(kw index, index of 'in' or None, index of body '{')] in text order."""
    res = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s in ('for', 'while', 'loop'):
            if t.s == 'for' and i + 1 < len(toks) and toks[i + 1].s == '<':
                continue
            if i and toks[i - 1].s in ('.', '::'):
                continue
            j, inn, d = i + 1, None, 0
            ok = True
            while j < len(toks):
                s = toks[j].s
                if toks[j].k == 'p' and s in ('(', '['):
                    j = mclose(toks, j) + 1
                    continue
                if s == '{' and toks[j].k == 'p':
                    if inn is None and t.s == 'for':
                        # struct pattern
                        j = mclose(toks, j) + 1
                        continue
                    break
                if s == 'in' and toks[j].k == 'id' and inn is None and t.s == 'for':
                    inn = j
                if s == ';':
                    ok = False
                    break
                j += 1
            if ok and j < len(toks):
                res.append((i, inn, j))
    return res


# ----------------------------------------------------------------- inlining

def simple_place(toks):
    return all(t.k in ('id', 'num') or t.s in ('.', '&', 'mut', '*') for t in toks)


class Extractor:
    def __init__(self, unit_path, repo, mode='verify'):
        self.repo = repo
        self.mode = mode  # verify | vac_fn | vac_loop
        self.unit = unit_path
        self.files = {}
        self.items = {}
        self.alias = {}
        self.gsub = []
        self.out = []
        self.funcs = []   # (name, startline, endline, kind)
        self.log = {}
        self.notes = []
        self.contracted = set()
        self.shas = {}
        self.applied = {}
        self.noinline = set()
        self.stub = set()   # functions whose body is left out (they do not fit the verifier), the contract kept

    # ---- source access
    def load(self, alias):
        if alias not in self.items:
            rel = self.alias[alias]
            p = os.path.join(self.repo, rel)
            if not os.path.exists(p):
                raise Lost('source file %s' % rel)
            src = open(p).read()
            self.files[alias] = src
            self.items[alias] = rustlex.index_items(src)
        return self.items[alias]

    def find(self, alias, kind, path, trait=None):
        c = [it for it in self.load(alias) if it.path == path and (
            it.kind in kind) and not it.extra.get('trait_decl')]
        if trait:
            c = [it for it in c if it.extra.get('impl_trait') == trait]
        if not c:
            raise Lost('%s %s in %s' % ('/'.join(kind), path, self.alias[alias]))
        return c[0]

    # ---- emission
    def line(self):
        return sum(s.count('\n') for s in self.out) + 1

    def emit(self, s):
        self.out.append(s if s.endswith('\n') else s + '\n')

    def rewrite(self, toks, extra=()):
        toks = idioms(split_chains(std_rewrites(toks, self.log), self.log), self.log)
        for pat, rep in list(extra) + self.gsub:
            toks, n = subst(toks, pat, rep)
            if n:
                self.applied[(pat, rep)] = self.applied.get((pat, rep), 0) + n
        toks = map_collect(toks, self.log)
        for pat, rep in EXTENDS:
            toks, n = subst(toks, pat, rep)
            if n:
                self.log['extend of a vector written out'] = self.log.get('extend of a vector written out', 0) + n
        return toks

    def run(self):
        text = self.read_unit(self.unit)
        lines = text.split('\n')
        # first pass: collect contracted fns (so calls to others may be inlined)
        for ln in lines:
            m = re.match(r'\s*//@fn\s+(\w+)\s+(\S+)', ln)
            if m:
                self.contracted.add(m.group(2))
            m = re.match(r'\s*//@noinline\s+(.*)', ln)
            if m:
                self.noinline.update(m.group(1).split())
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'\s*//@(\w+)\s*(.*)', ln)
            if not m:
                self.emit(ln)
                i += 1
                continue
            d, arg = m.group(1), m.group(2).strip()
            if d == 'src':
                a, rel = [x.strip() for x in arg.split('=')]
                self.alias[a] = rel
            elif d == 'gsubst':
                self.gsub.append(self.parse_subst(arg))
            elif d == 'noinline':
                pass
            elif d in ('struct', 'enum', 'const', 'type', 'item'):
                block = []
                parts = arg.split()
                opts = parts[2:]
                if 'opts' in opts:
                    i += 1
                    while not re.match(r'\s*//@end', lines[i]):
                        block.append(lines[i])
                        i += 1
                self.emit_type(d, parts[0], parts[1], block, opts)
            elif d == 'proto':
                self.emit_proto(arg)
            elif d == 'fn':
                block = []
                i += 1
                while not re.match(r'\s*//@end', lines[i]):
                    block.append(lines[i])
                    i += 1
                self.emit_fn(arg, block)
            else:
                raise ValueError('unknown directive ' + ln)
            i += 1
        return ''.join(self.out)

    def read_unit(self, path, depth=0):
        out = []
        for ln in open(path).read().split('\n'):
            m = re.match(r'\s*//@include\s+(\S+)', ln)
            if m:
                out.append(self.read_unit(os.path.join(VERIF, 'units', m.group(1)), depth + 1))
            else:
                out.append(ln)
        return '\n'.join(out)

    def parse_subst(self, arg):
        m = re.match(r'`(.*?)`\s*=>\s*`(.*?)`', arg)
        if not m:
            raise ValueError('bad subst ' + arg)
        return (m.group(1), m.group(2))

    def emit_type(self, d, alias, name, block, opts):
        kinds = {'struct': ('struct',), 'enum': ('enum',), 'const': ('const',), 'type': ('type',),
                 'item': ('struct', 'enum', 'const', 'type', 'trait')}[d]
        it = self.find(alias, kinds, name)
        self.shas['%s#%s' % (self.alias[alias], name)] = hashlib.sha256(it.text.encode()).hexdigest()[:16]
        extra = []
        for b in block:
            m = re.match(r'\s*//@subst\s+(.*)', b)
            if m:
                extra.append(self.parse_subst(m.group(1)))
            elif b.strip():
                self.emit(b)
        toks = drop_attrs(toks_of(it.text))
        toks = self.rewrite(toks, extra)
        # make everything pub
        derives = set()
        for m in re.finditer(r'#\s*\[\s*derive\s*\(([^)]*)\)', it.extra.get('attrs', '')):
            derives.update(x.strip() for x in m.group(1).split(','))
        toks = self.pubify(toks, d)
        self.emit(render(toks))
        generic = any(t.s == '<' for t in toks[:4])
        if d in ('struct', 'enum') and not generic and 'nospec' not in opts:
            if 'Clone' in derives:
                self.emit('impl Clone for %s {\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n}' % name)
            if 'Copy' in derives:
                self.emit('impl Copy for %s {}' % name)
            if 'PartialEq' in derives:
                self.emit('impl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n'
                          'impl PartialEq for %s {\n#[verifier::external_body]\nfn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }\n}' % (name, name))

    def pubify(self, toks, d):
        out = []
        # strip existing visibility
        i = 0
        while i < len(toks):
            if toks[i].s == 'pub':
                i += 1
                if i < len(toks) and toks[i].s == '(' and toks[i + 1].s in ('crate', 'super', 'self', 'in'):
                    i = mclose(toks, i) + 1
                continue
            out.append(toks[i])
            i += 1
        toks = out
        toks[0].ws = ''
        res = [T('id', 'pub', '')]
        toks[0].ws = ' '
        if d == 'struct' or toks[0].s == 'struct':
            j = 0
            while j < len(toks) and toks[j].s not in ('{', '(', ';'):
                if toks[j].s == '<':
                    d2 = 0
                    while True:
                        if toks[j].s == '<':
                            d2 += 1
                        if toks[j].s == '>':
                            d2 -= 1
                        j += 1
                        if d2 == 0:
                            break
                else:
                    j += 1
            res.extend(toks[:j])
            if toks[j].s == ';':
                res.extend(toks[j:])
                return res
            e = mclose(toks, j)
            res.append(toks[j])
            # split fields on top-level commas ('<' aware)
            k = j + 1
            newf = True
            ang = 0
            while k < e:
                if newf:
                    res.append(T('id', 'pub', toks[k].ws))
                    toks[k].ws = ' '
                    newf = False
                s = toks[k].s
                if toks[k].k == 'p' and s in OPEN:
                    q = mclose(toks, k)
                    res.extend(toks[k:q + 1])
                    k = q + 1
                    continue
                if s == '<':
                    ang += 1
                elif s == '>':
                    ang -= 1
                res.append(toks[k])
                if s == ',' and ang == 0:
                    newf = True
                k += 1
            res.extend(toks[e:])
            return res
        res.extend(toks)
        return res

    # ------------------------------------------------------------ functions
    def emit_fn(self, arg, block):
        parts = arg.split()
        alias, path = parts[0], parts[1]
        trait = None
        opts = {}
        for p in parts[2:]:
            if p.startswith('trait='):
                trait = p[6:]
            elif '=' in p:
                k, v = p.split('=', 1)
                opts[k] = v
            else:
                opts[p] = True
        it = self.find(alias, ('fn',), path, trait)
        self.shas['%s#%s' % (self.alias[alias], path)] = hashlib.sha256(it.text.encode()).hexdigest()[:16]
        secs = []  # (kind, arg, text)
        cur = None
        for b in block:
            m = re.match(r'\s*//@(\w+)\s*(.*)', b)
            if m:
                cur = [m.group(1), m.group(2).strip(), []]
                secs.append(cur)
            elif cur is not None:
                cur[2].append(b)
        extra = [self.parse_subst(s[1]) for s in secs if s[0] == 'subst']
        src_toks = toks_of(it.text)
        # recompute structure on the ws-carrying tokens
        sig, body = self.split_fn(drop_attrs(src_toks))
        # inline helpers that have no contract of their own
        body = self.inline(alias, it, body, set())
        ren = self.local_renames(alias, path, body, sig)

        def R(txt):
            return rename(txt, ren)
        extra = [(R(a), R(b)) for a, b in extra]
        sig = self.rewrite(sig, extra)
        body = self.rewrite(body, extra)
        if extra or self.gsub:
            ren = self.local_renames(alias, path, body, sig, '!')
        ret = [s for s in secs if s[0] == 'ret']
        rname = ret[0][1] if ret else None
        spec = R('\n'.join(x for s in secs if s[0] == 'spec' for x in s[2]))
        attrs = '\n'.join(s[1] for s in secs if s[0] == 'attr')
        sig_txt = self.sig_text(sig, rname)
        # loops
        loops = find_loops(body)
        ins_before = {}   # token index -> list of text, emitted before the token

        def add(idx, txt):
            ins_before.setdefault(idx, []).append(txt)
        for s in secs:
            txt = R('\n'.join(s[2]))
            if s[0] == 'loop':
                a = s[1].split()
                n = int(a[0])
                if n > len(loops):
                    self.notes.append('%s: loop %d not found' % (path, n))
                    continue
                kw, inn, br = loops[n - 1]
                if len(a) > 1 and inn is not None:
                    add(inn + 1, ' %s: ' % a[1])
                add(br, '\n' + txt + '\n')
            elif s[0] == 'at':
                a = s[1].split(None, 1)
                if a[0] == 'start':
                    add(1, '\n' + txt + '\n')
                elif a[0] == 'end':
                    add(len(body) - 1, '\n' + txt + '\n')
                elif a[0] == 'loop':
                    n, where = a[1].split()
                    if int(n) > len(loops):
                        self.notes.append('%s: loop %s not found' % (path, n))
                        continue
                    kw, inn, br = loops[int(n) - 1]
                    e = mclose(body, br)
                    st = kw
                    while st and body[st - 1].s == ':' and body[st - 2].k == 'life':
                        st -= 2
                    add({'start': br + 1, 'end': e, 'before': st, 'after': e + 1}[where], '\n' + txt + '\n')
                elif a[0] in ('before', 'after'):
                    m = re.match(r'`(.*)`(?:\s+(\d+))?$', a[1])
                    pat = parse_pat(R(m.group(1)))
                    nth = int(m.group(2) or 1)
                    hit = None
                    for q in range(len(body)):
                        e = match_at(body, q, pat, 0, {})
                        if e is not None:
                            nth -= 1
                            if nth == 0:
                                hit = (q, e)
                                break
                    if hit is None:
                        self.notes.append('%s: hint anchor %s not found' % (path, a[1]))
                        continue
                    if a[0] == 'before' and body[hit[0] - 1].s == '=>':
                        # a match arm without a block gets one
                        e = hit[0]
                        while body[e].s != ',' and not (body[e].k == 'p' and body[e].s in CLOSE):
                            e = mclose(body, e) + 1 if body[e].k == 'p' and body[e].s in OPEN else e + 1
                        add(hit[0], ' {\n' + txt + '\n')
                        add(e, ' }')
                        continue
                    add(hit[0] if a[0] == 'before' else hit[1], '\n' + txt + '\n')
        if self.mode == 'vac_fn':
            add(1, '\nproof { assert(false); }\n')
        if self.mode == 'vac_loop':
            for kw, inn, br in loops:
                add(br + 1, '\nproof { assert(false); }\n')
        btxt = []
        for i, t in enumerate(body):
            for x in ins_before.get(i, []):
                btxt.append(x)
            ws = t.ws
            if not ws and i and _glue(body[i - 1], t):
                ws = ' '
            btxt.append(ws + t.s)
        for x in ins_before.get(len(body), []):
            btxt.append(x)
        start = self.line()
        cx = it.extra
        base = '#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n' if loops else \
            '#[verifier::exec_allows_no_decreases_clause]\n'
        body_txt = ''.join(btxt).strip()
        if (trait + '/' if trait else '') + path in self.stub:
            base, body_txt = '#[verifier::external_body]\n', '{ unimplemented!() }'
        fn = base + (attrs + '\n' if attrs else '') + sig_txt + '\n' + spec + '\n' + body_txt + '\n'
        if cx.get('selfty'):
            g = opts.get('generics', cx.get('generics', ''))
            st = self.rewrite(toks_of(cx['selfty']), extra)
            gt = render(self.rewrite(toks_of(cx.get('generics', '') or ''), extra))
            wt = render(self.rewrite(toks_of(cx.get('where', '') or ''), extra))
            self.emit('impl%s %s %s {\n%s}\n' % (gt, render(st), wt, fn))
        else:
            self.emit(fn)
        self.funcs.append(dict(name=path, key=(trait + '/' if trait else '') + path, file=self.alias[alias], start=start, end=self.line() - 1,
                               loops=len(loops), contract=bool(spec.strip())))

    def split_fn(self, toks):
        i = 0
        while toks[i].s != 'fn':
            i += 1
        j = i + 2
        if toks[j].s == '<':
            d = 0
            while True:
                if toks[j].s == '<':
                    d += 1
                elif toks[j].s == '>':
                    d -= 1
                j += 1
                if d == 0:
                    break
        j = mclose(toks, j) + 1
        while toks[j].s != '{':
            j += 1
        return toks[i:j], toks[j:]

    def sig_text(self, sig, rname):
        # sig starts at 'fn'
        j = 2
        if sig[j].s == '<':
            d = 0
            while True:
                if sig[j].s == '<':
                    d += 1
                elif sig[j].s == '>':
                    d -= 1
                j += 1
                if d == 0:
                    break
        pe = mclose(sig, j)
        head, rest = sig[:pe + 1], sig[pe + 1:]
        head[0].ws = ''
        txt = 'pub ' + render(head)
        if rest and rest[0].s == '->':
            w = [q for q, t in enumerate(rest) if t.s == 'where' and t.k == 'id']
            ty = rest[1:(w[0] if w else len(rest))]
            wh = rest[w[0]:] if w else []
            ty[0].ws = ''
            txt += ' -> (%s: %s)' % (rname or 'vx_ret', render(ty))
            if wh:
                txt += '\n' + render(wh)
        elif rest:
            txt += ' ' + render(rest)
        return txt

    # ---- helper inlining: calls to same-file functions without a contract
    def inline(self, alias, it, body, seen, depth=0):
        if depth > 3:
            return body
        byname = {}
        for f in self.load(alias):
            if f.kind == 'fn' and f.extra.get('body') and not f.extra.get('trait_decl'):
                byname[f.path] = f
        selfty = it.path.rsplit('::', 1)[0] if '::' in it.path else None
        out, i = [], 0
        while i < len(body):
            t = body[i]
            if t.k == 'id' and i + 1 < len(body) and body[i + 1].s == '(':
                callee = recv = None
                cut = 0
                if i >= 2 and body[i - 1].s == '::':
                    q = body[i - 2].s
                    ty = selfty if q == 'Self' else q
                    if ty and '%s::%s' % (ty, t.s) in byname and (i < 3 or body[i - 3].s != '::'):
                        callee = byname['%s::%s' % (ty, t.s)]
                        cut = 2
                elif i >= 2 and body[i - 1].s == '.' and body[i - 2].s == 'self' and (
                        i < 3 or body[i - 3].s != '.'):
                    p = '%s::%s' % (selfty, t.s)
                    if p in byname:
                        callee, recv, cut = byname[p], 'self', 2
                elif i == 0 or body[i - 1].s not in ('.', '::', 'fn'):
                    if t.s in byname:
                        callee, cut = byname[t.s], 0
                if callee is not None and callee.path not in self.contracted and callee.path != it.path \
                        and callee.path not in seen and t.s not in self.noinline \
                        and callee.path not in self.noinline:
                    e = mclose(body, i + 1)
                    exp = self.expand(alias, callee, body[i + 2:e], recv, seen, depth)
                    if exp is not None:
                        ws = body[i - cut].ws
                        del out[len(out) - cut:]
                        exp[0].ws = ws or ' '
                        out.extend(exp)
                        self.notes.append('%s: inlined %s' % (it.path, callee.path))
                        i = e + 1
                        continue
            out.append(t)
            i += 1
        return out

    def expand(self, alias, callee, args, recv, seen, depth):
        toks = drop_attrs(toks_of(callee.text))
        sig, body = self.split_fn(toks)
        for q, t in enumerate(body):
            if t.s == 'return' or t.s == '?':
                return None
        if sig[2].s == '<':
            return None
        pe = mclose(sig, 2)
        params = _args(sig[3:pe])
        body = self.inline(alias, callee, body, seen | {callee.path}, depth + 1)
        args = _args(self.inline(alias, callee, list(args), seen, depth))
        has_self = params and any(t.s == 'self' for t in params[0]) and ':' not in [t.s for t in params[0]]
        if has_self:
            params = params[1:]
            if recv is None:
                # UFCS Self::f(self, ..)
                return None
        elif recv is not None:
            return None
        if len(params) != len(args):
            return None
        out = [T('p', '{', ' ')]
        for p, a in zip(params, args):
            out.append(T('id', 'let', ' '))
            p = [T(t.k, t.s, t.ws) for t in p]
            p[0].ws = ' '
            out.extend(p)
            out.append(T('p', '=', ' '))
            a = [T(t.k, t.s, t.ws) for t in a]
            a[0].ws = ' '
            out.extend(a)
            out.append(T('p', ';', ''))
        out.extend(body[1:])
        return out

    # ---- local renames
    def local_renames(self, alias, path, body, sig, tag=''):
        names = bound_names(sig, body)
        key = '%s#%s%s' % (self.alias[alias], path, tag)
        rec = LOCALS.get(os.path.basename(self.unit), {})
        SEEN.setdefault(os.path.basename(self.unit), {})[key] = names
        old = rec.get(key)
        if not old or old == names:
            return {}
        import difflib
        sm = difflib.SequenceMatcher(a=old, b=names, autojunk=False)
        ren = {}
        for tag, a0, a1, b0, b1 in sm.get_opcodes():
            if tag == 'replace' and a1 - a0 == b1 - b0:
                for x, y in zip(old[a0:a1], names[b0:b1]):
                    if x not in names and y not in old:
                        ren[x] = y
        if ren:
            self.notes.append('%s: locals renamed %s' % (path, ren))
        return ren

    def emit_proto(self, arg):
        import protogen
        parts = arg.split()
        self.emit(protogen.generate(os.path.join(self.repo, parts[0]), parts[1:]))


def rename(txt, ren):
    if not ren:
        return txt
    return re.sub(r'(?<![\w.])(%s)(?!\w)' % '|'.join(re.escape(a) for a in ren), lambda m: ren[m.group(1)], txt)


def bound_names(sig, body):
    """names bound by parameters and let/for/match patterns, in text order."""
    res = []
    j = 2
    while sig[j].s != '(':
        j += 1
    pe = mclose(sig, j)
    for a in _args(sig[j + 1:pe]):
        for t in a:
            if t.s == ':':
                break
            if t.k == 'id' and t.s not in ('mut', 'self', 'ref'):
                res.append(t.s)
    i = 0
    while i < len(body):
        t = body[i]
        if t.s == 'let' or (t.s == 'for' and t.k == 'id'):
            j = i + 1
            while j < len(body) and body[j].s not in ('=', 'in', ':', ';'):
                _bind(body, j, res)
                j += 1
            i = j
        elif t.s == '|' and t.k == 'p' and i and (body[i - 1].s in ('(', ',', '=', 'move')):
            j = i + 1
            while j < len(body) and body[j].s != '|':
                if body[j].s == ':':
                    while j < len(body) and body[j].s not in ('|', ','):
                        j += 1
                    continue
                _bind(body, j, res)
                j += 1
            i = j + 1
        elif t.s == '=>':
            # the pattern before the arrow, up to the previous arm
            j, d = i - 1, 0
            pat = []
            while j >= 0:
                if body[j].s in (')', ']') or (body[j].s == '}' and d):
                    d += 1
                elif body[j].s in ('(', '['):
                    d -= 1
                elif body[j].s == '}' and not (j + 1 <= i - 1 and body[j + 1].s in ('=>', 'if', '|')) and j + 1 != i:
                    break
                elif body[j].s == '}':
                    d += 1
                elif body[j].s == '{':
                    if d == 0:
                        break
                    d -= 1
                elif body[j].s == ',' and d == 0:
                    break
                pat.append(j)
                j -= 1
            for q in reversed(pat):
                if body[q].s == 'if' and body[q].k == 'id':
                    break
                if body[q + 1].s != ':':
                    _bind(body, q, res)
            i += 1
        else:
            i += 1
    return res


def _bind(body, j, res):
    u = body[j]
    nxt = body[j + 1].s if j + 1 < len(body) else ''
    if u.k == 'id' and re.match(r'[a-z_]', u.s) and u.s not in ('mut', 'ref', 'true', 'false', 'self') and nxt not in ('::', '(', '{', '!'):
        res.append(u.s)


LOCALS = {}
SEEN = {}
_lp = os.path.join(VERIF, 'units', 'locals.json')
if os.path.exists(_lp):
    LOCALS = json.load(open(_lp))


if __name__ == '__main__':
    # vx.py --lock : record the local names every annotation was written for
    import glob
    LOCALS = {}
    for u in sorted(glob.glob(os.path.join(VERIF, 'units', '*.vu'))):
        Extractor(u, sys.argv[2] if len(sys.argv) > 2 else '/repo').run()
    json.dump(SEEN, open(_lp, 'w'), indent=0, sort_keys=True)
