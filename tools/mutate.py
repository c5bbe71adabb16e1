#!/usr/bin/env python3
"""Development tool: systematic small changes of a source file, each tried against
the concrete checks (and, with --proof, the verifier).  Runs in private copies in
mount namespaces; /repo and /verif stay as they are.
mutate.py <file in repo> <area> <props,comma> [--every N] [--only LO-HI lines] [--workers N] [--secs S] [--proof]"""
import sys, os, subprocess, re, concurrent.futures as cf, threading, argparse, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import rustlex
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('area'); ap.add_argument('props')
ap.add_argument('--every', type=int, default=1); ap.add_argument('--off', type=int, default=0)
ap.add_argument('--lines'); ap.add_argument('--workers', type=int, default=4)
ap.add_argument('--secs', default='4'); ap.add_argument('--proof', action='store_true')
ap.add_argument('--ids'); ap.add_argument('--list', action='store_true'); ap.add_argument('--build', action='store_true')
A = ap.parse_args()
src = open('/repo/' + A.file).read()
cut = re.search(r'#\[cfg\((all\()?test', src)
end = cut.start() if cut else len(src)
toks = [t for t in rustlex.lex(src) if t.a < end]
toks = [t for t in toks if t.k not in ('lc', 'bc', 'ws')]
OPEN = {'(': ')', '[': ']', '{': '}'}
def close(i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p' and toks[j].s in '([{': d += 1
        elif toks[j].k == 'p' and toks[j].s in ')]}':
            d -= 1
            if d == 0: return j
    return len(toks) - 1
muts = []
def mut(a, b, new, what):
    muts.append((a, b, new, what))
# bodies of functions only
inb = [False] * len(toks)
i = 0
while i < len(toks):
    if toks[i].s == 'fn' and toks[i].k == 'id':
        j = i
        while toks[j].s not in ('{', ';'): j = close(j) + 1 if toks[j].s in '([' else j + 1
        if toks[j].s == '{':
            e = close(j)
            for q in range(j + 1, e): inb[q] = True
            i = e
    i += 1
SW = {'==': '!=', '!=': '==', '<=': '<', '>=': '>', '&&': '||', '||': '&&', '+=': '-=', 'is_some': 'is_none', 'is_none': 'is_some',
      'true': 'false', 'false': 'true', 'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'first': 'last', 'last': 'first', 'is_ok': 'is_err', 'is_err': 'is_ok', 'continue': 'break', 'break': 'continue',
      'Succeeded': 'Failed', 'Failed': 'Succeeded'}
for i, t in enumerate(toks):
    if not inb[i]: continue
    if t.s == '||' and toks[i-1].s in ('(', ',', '=', 'move'): continue
    if t.s in SW and not (t.s in ('first', 'last', 'min', 'max', 'any', 'all') and toks[i-1].s != '.'):
        mut(t.a, t.b, SW[t.s], t.s + ' -> ' + SW[t.s])
    if t.s in ('<', '>') and src[t.a-1] == ' ' and src[t.b] == ' ':
        mut(t.a, t.b, t.s + '=', t.s + ' -> ' + t.s + '=')
    if t.s in ('+', '-') and src[t.a-1] == ' ' and src[t.b] == ' ':
        mut(t.a, t.b, '-' if t.s == '+' else '+', 'arith')
    if t.k == 'num' and t.s in ('0', '1'):
        mut(t.a, t.b, '1' if t.s == '0' else '0', 'const')
    if t.s == '!' and t.k == 'p' and toks[i+1].s not in ('(', '[', '{'):
        mut(t.a, t.b, '', 'drop !')
    if t.s == 'is_empty' and toks[i-1].s == '.':
        mut(toks[i+2].b, toks[i+2].b, ' == false', 'is_empty negated')
    if t.s == 'if' and toks[i+1].s != 'let':
        j = i + 1
        while toks[j].s != '{': j = close(j) + 1 if toks[j].s in '([' else j + 1
        for v in ('true', 'false'):
            mut(toks[i+1].a, toks[j].a, '(%s || %s) ' % (src[toks[i+1].a:toks[j].a], 'true') if v == 'true' else '(%s) && false ' % src[toks[i+1].a:toks[j].a], 'if ' + v)
    if t.s == 'take' and toks[i-1].s == '::':
        e = close(i + 1)
        mut(toks[i-2].a, toks[e].b, '(%s).clone()' % src[toks[i+1].b:toks[e].a].replace('&mut ', ''), 'take -> clone')
    if t.s == 'remove' and toks[i-1].s == '.':
        e = close(i + 1)
        mut(t.a, toks[e].b, 'get(%s).cloned()' % src[toks[i+1].b:toks[e].a], 'remove -> get')
    # statements
    if toks[i-1].s in (';', '{', '}') and t.k == 'id' and t.s not in ('let', 'if', 'for', 'while', 'match', 'return', 'loop', 'fn', 'use', 'else', 'assert', 'info', 'warn', 'debug', 'trace', 'error', 'continue', 'break'):
        j = i
        while j < len(toks) and toks[j].s not in (';', '}', '{'):
            j = close(j) + 1 if toks[j].s in '([' else j + 1
        if j < len(toks) and toks[j].s == ';':
            mut(t.a, toks[j].b, '', 'drop: ' + re.sub(r'\s+', ' ', src[t.a:toks[j].b])[:70])
    if t.s == '=>' and toks[i+1].s == '{':
        e = close(i + 1)
        mut(toks[i+1].b, toks[e].a, ' ', 'empty arm')
    if t.s == 'return' and toks[i+1].s == ';':
        mut(t.a, toks[i+1].b, '', 'drop return')
muts = [(k,) + m for k, m in enumerate(muts)]
def line(a): return src.count('\n', 0, a) + 1
if A.lines:
    lo, hi = map(int, A.lines.split('-'))
    muts = [m for m in muts if lo <= line(m[1]) <= hi]
if A.ids:
    s = set(map(int, A.ids.split(','))); muts = [m for m in muts if m[0] in s]
else:
    muts = muts[A.off::A.every]
if A.list:
    for m in muts: print(m[0], line(m[1]), m[4])
    sys.exit()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
N = A.workers
P = '/tmp/mut'
ENV = 'export CARGO_TARGET_DIR=/verif/build/target RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu PROTOC=/usr/bin/protoc CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1'
for i in range(N):
    d = '%s/%d' % (P, i); os.makedirs(d + '/verif', exist_ok=True); os.makedirs(d + '/repo', exist_ok=True)
    sh('rsync -a --delete /repo/ %s/repo/; rsync -a --delete --exclude seeded --exclude .git /verif/ %s/verif/' % (d, d))
    if A.build and not os.path.exists(d + '/vp'): sh('cp -a /opt/vp %s/vp' % d)
free = list(range(N)); lock = threading.Lock()
props = A.props.split(',')
def ns(d, script, t=600):
    f = d + '/run.sh'; open(f, 'w').write(script)
    extra = ' && mount --bind %s/vp /opt/vp' % d if A.build else ''
    try: return sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif%s && bash %s'" % (d, d, extra, f), timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode = 99; stdout = 'TIMEOUT'; stderr = ''
        return R
def run(m):
    k, a, b, new, what = m
    with lock: i = free.pop()
    d = '%s/%d' % (P, i)
    try:
        open('%s/repo/%s' % (d, A.file), 'w').write(src[:a] + new + src[b:])
        r = ns(d, ENV + '\ncd /verif/replay/%s && cargo build --offline --locked -q --features %s 2>&1 | grep -c "^error"\nexit 0' % (A.area, ','.join(props)))
        if r.stdout.strip() != '0': return m, 'nobuild', ''
        if A.build:
            r = ns(d, 'bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/mut/%d.json >/dev/null 2>&1' % i)
            if r.returncode: return m, 'tests', ''
        hit = []
        r = ns(d, '\n'.join('(timeout 100 /verif/build/target/debug/vx_%s %s 1 %s 2>&1 | grep ^VXRESULT > /verif/o_%s) &' % (A.area, p, A.secs, p) for p in props) + '\nwait')
        for p in props:
            o = open('%s/verif/o_%s' % (d, p)).read()
            if not o.startswith('VXRESULT'): hit.append(p + ':crash'); continue
            v = json.loads(o[8:])['violations']
            if v: hit.append(p + ':' + ','.join(sorted(set(x['key'] for x in v)))[:90])
        if hit: return m, 'killed', ' '.join(hit)
        if A.proof:
            for p in props:
                r = ns(d, 'cd /verif && python3 check.py %s' % p)
                hit.append('%s rc=%d %s' % (p, r.returncode, '|'.join(l[:120] for l in r.stdout.splitlines() if 'obligation' in l)[:300]))
        return m, 'SURVIVED', ' ; '.join(hit)
    except Exception as e:
        return m, 'ERR', repr(e)
    finally:
        sh('cp /repo/%s %s/repo/%s' % (A.file, d, A.file))
        with lock: free.append(i)
cnt = {}
with cf.ThreadPoolExecutor(N) as ex:
    for m, st, info in ex.map(run, muts):
        cnt[st] = cnt.get(st, 0) + 1
        print('%d L%d %s [%s] %s' % (m[0], line(m[1]), st, m[4], info), flush=True)
print(cnt)
