#!/usr/bin/env python3
"""mkseed.py <spec.py>: builds /verif/seeded/<id> from a spec and confirms it.
A spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], MAIN (text of main.rs after head.rs)
or FILES {name: text} with its own demo.sh, or AREA and FEATURE: the random histories of a
replay area with its model are the demonstration.  Flags: --nocheck skips running the property's check."""
import json, os, shutil, subprocess, sys
V = '/verif'
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, 'seeded', spec['ID'])
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
T = os.path.join(V, 'tools', 'seed_template')
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
if 'MAIN' in spec:
    for f in ('demo.sh', 'Cargo.toml', 'Cargo.lock', 'build.rs', 'scaffold.rs'):
        shutil.copy(os.path.join(T, f), d)
    open(os.path.join(d, 'main.rs'), 'w').write(open(os.path.join(T, 'head.rs')).read() + spec['MAIN'])
if 'AREA' in spec:
    A = os.path.join(V, 'replay', spec['AREA'])
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        if os.path.exists(os.path.join(A, n)):
            shutil.copy(os.path.join(A, n), d)
    if os.path.exists(A + '/deps'):
        shutil.copytree(A + '/deps', d + '/deps', dirs_exist_ok=True)
    if os.path.exists(A + '/protos'):
        shutil.copytree(A + '/protos', d + '/protos', dirs_exist_ok=True)
        shutil.copytree(V + '/replay/raft_stub', d + '/raft_stub', dirs_exist_ok=True, ignore=shutil.ignore_patterns('target'))
        t = open(d + '/Cargo.toml').read()
        open(d + '/Cargo.toml', 'w').write(t.replace('../raft_stub', 'raft_stub'))
        t = open(d + '/raft_stub/Cargo.toml').read()
        open(d + '/raft_stub/Cargo.toml', 'w').write(t.replace('[workspace]', ''))
    os.makedirs(d + '/src', exist_ok=True)
    links = ''
    for n in os.listdir(A + '/src'):
        q = os.path.join(A, 'src', n)
        if os.path.islink(q):
            links += 'ln -s %s "$tmp/src/%s"\n' % (os.readlink(q), n)
        elif os.path.isfile(q):
            shutil.copy(q, d + '/src')
    t = open(d + '/src/main.rs').read()
    open(d + '/src/main.rs', 'w').write(t.replace('../../common/vxh.rs', 'vxh.rs'))
    t = open(V + '/replay/common/vxh.rs').read()
    # stop at the first deviation
    open(d + '/src/vxh.rs', 'w').write(t.replace('{ self.start.elapsed() < self.budget }', '{ self.violations.is_empty() && self.start.elapsed() < self.budget }'))
    t = open(os.path.join(T, 'area.sh')).read()
    open(d + '/demo.sh', 'w').write(t.replace('@LINKS@\n', links).replace('@AREA@', spec['AREA']).replace('@FEATURE@', spec['FEATURE']).replace('@SECS@', str(spec.get('SECS', 40))))
for n, t in spec.get('FILES', {}).items():
    open(os.path.join(d, n), 'w').write(t)
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
ok = True
r = sh('bash %s/demo.sh' % d, cwd='/repo')
print('demo clean:', r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else '')
ok &= r.returncode == 0
try:
    for f, old, new in spec['EDITS']:
        p = os.path.join('/repo', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    r = sh('bash /opt/vp/build.sh')
    print('build:', r.returncode, r.stderr[-1500:] if r.returncode else '')
    ok &= r.returncode == 0
    r = sh('bash /opt/vp/test.sh /tmp/vt.json')
    print('test:', r.returncode)
    ok &= r.returncode == 0
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('demo patched:', r.returncode, (r.stdout + r.stderr)[-300:])
    ok &= r.returncode not in (0, 3)
    if '--nocheck' not in sys.argv:
        r = sh('python3 %s/check.py %s' % (V, spec['PROPERTY']))
        print('check:', r.returncode, r.stdout[-900:], r.stderr[-300:])
finally:
    sh('git -C /repo checkout -- .')
print('VALID' if ok else 'INVALID')
