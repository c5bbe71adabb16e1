"""Generates plain Rust structs from a .proto file, with the names and shapes
prost-build gives them. Clone / Default / From carry their structural contract
(prost derives them), which is an assumption listed in the evidence."""
import re

SC = {'uint32': 'u32', 'uint64': 'u64', 'int32': 'i32', 'int64': 'i64', 'bool': 'bool',
      'string': 'String', 'bytes': 'Bytes', 'fixed64': 'u64', 'fixed32': 'u32', 'double': 'f64'}


def snake(s):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', s).lower()


def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))


def strip(src):
    src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', src)


def close(src, i):
    d = 0
    while True:
        if src[i] == '{':
            d += 1
        elif src[i] == '}':
            d -= 1
            if d == 0:
                return i
        i += 1


def parse(src):
    """returns [('message', name, body-list) | ('enum', name, [(n,v)]) | ('field',...) | ('oneof',...)]"""
    out, i = [], 0
    while i < len(src):
        m = re.compile(r'\s*(message|enum|oneof|service|extend)\s+(\w+)\s*\{').match(src, i)
        if m:
            b = m.end() - 1
            e = close(src, b)
            body = src[b + 1:e]
            k = m.group(1)
            if k == 'enum':
                out.append(('enum', m.group(2), [(a, int(v)) for a, v in re.findall(r'(\w+)\s*=\s*(-?\d+)', body)]))
            elif k in ('message', 'oneof'):
                out.append((k, m.group(2), parse(body)))
            i = e + 1
            continue
        m = re.compile(r'\s*(repeated\s+|optional\s+)?(map\s*<\s*\w+\s*,\s*[\w.]+\s*>|[\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;').match(src, i)
        if m and not re.match(r'\s*(syntax|package|option|import|reserved)\b', src[i:]):
            out.append(('field', (m.group(1) or '').strip(), m.group(2), m.group(3)))
            i = m.end()
            continue
        m = re.compile(r'[^;{}]*[;]|\s+|.', re.S).match(src, i)
        i = m.end()
    return out


def enum_variant(enum, v):
    pre = re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', enum).upper() + '_'
    if v.startswith(pre):
        v = v[len(pre):]
    return ''.join(p.capitalize() for p in v.split('_'))


class Gen:
    def __init__(self, tree, bytes_as):
        self.tree = tree
        self.enums, self.msgs = set(), set()
        self.scan(tree, '')

    def scan(self, tree, pre):
        for d in tree:
            if d[0] == 'enum':
                self.enums.add(pre + d[1])
            elif d[0] == 'message':
                self.msgs.add(pre + d[1])
                self.scan(d[2], pre + d[1] + '.')

    def ty(self, t, scope):
        if t in SC:
            return SC[t], 's'
        m = re.match(r'map\s*<\s*(\w+)\s*,\s*([\w.]+)\s*>', t)
        if m:
            return 'BTreeMap<%s, %s>' % (self.ty(m.group(1), scope)[0], self.ty(m.group(2), scope)[0]), 'map'
        last = t.split('.')
        # resolve in scope
        sc = scope.split('.') if scope else []
        for k in range(len(sc), -1, -1):
            full = '.'.join(sc[:k] + last)
            if full in self.enums:
                return 'i32', 'enum'
            if full in self.msgs:
                ps = full.split('.')
                path = '::'.join([snake(p) for p in ps[:-1]] + [ps[-1]])
                return path, 'm'
        return last[-1], 'm'

    def gen(self, tree, scope, only):
        o = []
        for d in tree:
            if d[0] == 'enum':
                if only and scope == '' and d[1] not in only:
                    continue
                vs = [(enum_variant(d[1], a), v) for a, v in d[2]]
                o.append('#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum %s { %s }' % (d[1], ', '.join(a for a, _ in vs)))
                o.append('impl %s {' % d[1])
                o.append('pub open spec fn num(self) -> i32 { match self { %s } }' % ', '.join('%s::%s => %di32' % (d[1], a, v) for a, v in vs))
                o.append('pub fn vx_i32(self) -> (r: i32) ensures r == self.num() { match self { %s } }' % ', '.join('%s::%s => %d' % (d[1], a, v) for a, v in vs))
                o.append('pub fn from_i32(v: i32) -> (r: Option<%s>) ensures match r { Some(e) => e.num() == v, None => %s } { match v { %s, _ => None } }' % (
                    d[1], ' && '.join('v != %d' % v for _, v in vs), ', '.join('%d => Some(%s::%s)' % (v, d[1], a) for a, v in vs)))
                o.append('pub fn into(self) -> (r: i32) ensures r == self.num() { self.vx_i32() }')
                o.append('}')
            elif d[0] == 'message':
                if only and scope == '' and d[1] not in only:
                    continue
                o.append(self.msg(d, scope))
        return '\n'.join(o)

    def msg(self, d, scope):
        name = d[1]
        full = (scope + '.' if scope else '') + name
        fields, defs, mods, getters = [], [], [], []
        boxed = False
        for f in d[2]:
            if f[0] == 'field':
                t, k = self.ty(f[2], full)
                if k == 'm' and '::' in t or (k == 'm' and scope):
                    pass
                if f[1] == 'repeated':
                    rt, dv = 'Vec<%s>' % t, '.%s@.len() == 0'
                elif k == 'map':
                    rt, dv = t, '.%s@ == Map::empty()'
                elif k == 'm' or f[1] == 'optional':
                    rt, dv = 'Option<%s>' % t, '.%s.is_none()'
                elif t == 'String':
                    rt, dv = t, '.%s.is_empty_spec()'
                elif t == 'Bytes':
                    rt, dv = t, '.%s@.len() == 0'
                elif t == 'bool':
                    rt, dv = t, '.%s == false'
                elif t == 'f64':
                    rt, dv = t, None
                else:
                    rt, dv = t, '.%s == 0'
                n = f[3] if f[3] not in ('type', 'match', 'ref', 'move') else 'r#' + f[3]
                fields.append('pub %s: %s' % (n, rt))
                if dv:
                    defs.append('r' + dv % n)
                if k == 'enum' and f[1] == '':
                    en = f[2].split('.')[-1]
                    getters.append((n, en))
            elif f[0] == 'oneof':
                mod = snake(name)
                en = camel(f[1])
                vs = []
                for g in f[2]:
                    t, k = self.ty(g[2], full)
                    q = 'super::' if (k == 'm' or t in ('String', 'Bytes')) else ''
                    vs.append('%s(%s%s)' % (camel(g[3]), q, t))
                mods.append('pub enum %s { %s }\nimpl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }' % (en, ', '.join(vs), en))
                fields.append('pub %s: Option<%s::%s>' % (f[1], mod, en))
                defs.append('r.%s.is_none()' % f[1])
        sub = self.gen([x for x in d[2] if x[0] in ('message', 'enum')], full, None)
        o = ['pub struct %s { %s }' % (name, ', '.join(fields))]
        o.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }' % name)
        o.append('impl Default for %s { #[verifier::external_body] fn default() -> (r: Self) %s { unimplemented!() } }' % (
            name, ('ensures ' + ', '.join(defs)) if defs else ''))
        if mods or sub.strip():
            o.append('pub mod %s { use super::*;\n%s\n%s\n}' % (snake(name), '\n'.join(mods), sub))
        return '\n'.join(o)


def generate(path, only):
    src = strip(open(path).read())
    tree = parse(src)
    g = Gen(tree, None)
    return '// generated from %s\n' % path + g.gen(tree, '', set(only)) + '\n'
