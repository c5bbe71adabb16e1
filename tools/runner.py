"""Runs one property's check: extraction + Verus over the working tree, the
vacuity check, and the concrete checks on the compiled code."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import vx  # noqa: E402

VERUS_FLAGS = ['--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '4']


def verus_bin():
    for c in (shutil.which('verus'), '/opt/veriftools/bin/verus', '/opt/veriftools/verus/verus'):
        if c and os.path.exists(c):
            return c
    return 'verus'


class UnitResult:
    def __init__(self):
        self.broken = None      # why the unit as a whole could not be verified
        self.funcs = []
        self.fails = []         # dict(func, message, where, text)
        self.obligations = 0
        self.discharged = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.slow = []
        self.notes = []
        self.rewrites = []
        self.shas = {}
        self.vacuous = []
        self.cmd = ''
        self.raw = ''


def run_verus(path, extra=(), timeout=420):
    cmd = [verus_bin(), os.path.basename(path)] + VERUS_FLAGS + list(extra) + ['--error-format=json']
    t = time.time()
    env = dict(os.environ)
    env.pop('RUSTUP_TOOLCHAIN', None)
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout, p.stderr, time.time() - t, cmd
    except subprocess.TimeoutExpired as e:
        return -1, '', 'verus did not finish in %d s' % timeout, time.time() - t, cmd


def parse_diags(err):
    out = []
    other = []
    for ln in err.split('\n'):
        ln = ln.strip()
        if not ln:
            continue
        try:
            d = json.loads(ln)
        except ValueError:
            other.append(ln)
            continue
        if d.get('level') == 'error':
            out.append(d)
    return out, other


def attribute(d, funcs):
    """the function under contract whose text holds the primary location; for a
    failed precondition the caller, for a postcondition the function itself."""
    spans = d.get('spans', [])
    cand = []
    for s in spans:
        for f in funcs:
            if f['start'] <= s['line_start'] <= f['end']:
                cand.append((f['name'], s))
    if 'precondition' in d['message']:
        for n, s in cand:
            if not (s.get('label') or '').startswith('failed precondition'):
                return n, s
    if cand:
        prim = [c for c in cand if c[1].get('is_primary')]
        return (prim or cand)[0]
    return None, (spans[0] if spans else None)


def run_unit(name, extra=(), vac=True):
    r = UnitResult()
    t0 = time.time()
    d = os.path.join(BUILD, 'units', '%s-%d' % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    unit = os.path.join(VERIF, 'units', name + '.vu')
    try:
        ex = vx.Extractor(unit, REPO)
        txt = ex.run()
    except vx.Lost as e:
        r.broken = 'extraction: %s is not in the source tree any more' % e
        r.wall = time.time() - t0
        return r
    except Exception as e:  # malformed source text
        r.broken = 'extraction failed: %s: %s' % (type(e).__name__, e)
        r.wall = time.time() - t0
        return r
    stub = {}
    while True:
        path = os.path.join(d, name + '.rs')
        open(path, 'w').write(txt)
        vres = {}
        th = None
        if vac and not stub:
            def dovac():
                try:
                    e2 = vx.Extractor(unit, REPO, 'vac_fn')
                    t2 = e2.run()
                    p2 = os.path.join(d, name + '_vac.rs')
                    open(p2, 'w').write(t2)
                    rc, so, se, w, _ = run_verus(p2)
                    vres.update(funcs=e2.funcs, diags=parse_diags(se)[0], out=so, wall=w)
                except Exception as e:
                    vres['error'] = str(e)
            th = threading.Thread(target=dovac)
            th.start()
        rc, so, se, wall, cmd = run_verus(path, extra)
        r.cmd = ' '.join(cmd)
        if th:
            th.join()
        r.funcs = ex.funcs
        r.notes = list(ex.notes)
        r.shas = dict(ex.shas)
        r.rewrites = ['%s  =>  %s (%d)' % (a, b, n) for (a, b), n in ex.applied.items()] + \
                     ['%s (%s)' % (k, v) for k, v in ex.log.items()]
        diags, other = parse_diags(se)
        diags = [x for x in diags if not x['message'].startswith('aborting due to')]
        r.raw += '\n'.join(x.get('rendered') or x['message'] for x in diags)[:20000] + '\n' + '\n'.join(other)[:2000]
        try:
            j = json.loads(so)
        except ValueError:
            j = None
        # errors that are not failed obligations: the text of a function does not
        # fit the verifier or its annotations; that function is reported, the
        # others are verified against its contract
        vr = (j or {}).get('verification-results', {})
        misfit = bool(diags) and (j is None or vr.get('encountered-vir-error') or 'verified' not in vr or not (
            j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times')))
        if not misfit or len(stub) >= 6 or time.time() - t0 > 300:
            break
        new = {}
        for x in diags:
            f, sp = attribute(x, ex.funcs)
            if f and sp:
                for q in ex.funcs:
                    if q['start'] <= sp['line_start'] <= q['end'] and q['key'] not in stub:
                        new[q['key']] = (q['name'], x)
        if not new:
            break
        stub.update(new)
        try:
            ex = vx.Extractor(unit, REPO)
            ex.stub = set(stub)
            txt = ex.run()
        except Exception as e:
            break
    r.wall = time.time() - t0
    for k, (f, x) in stub.items():
        r.fails.append(dict(func=f, message='the source does not fit its contract: ' + x['message'], text=x.get('rendered') or ''))
    if j is None:
        r.broken = 'verus gave no answer: ' + (se[-600:] if not diags else diags[0]['message'])
        return r
    if misfit:
        m = [x for x in diags if x.get('spans')] or diags
        r.broken = 'the source does not fit its contracts: ' + (m[0]['message'] if m else se[-400:])
        if m and m[0].get('spans'):
            f, s = attribute(m[0], ex.funcs)
            r.broken += ' (in %s)' % f
        return r
    if 'verified' not in vr:
        r.broken = 'verus gave no result: ' + se[-400:]
        return r
    fb = []
    for m in j['times-ms']['smt'].get('smt-run-module-times', []):
        if m['module'].startswith('vstd'):
            continue
        fb += m.get('function-breakdown', [])
    r.obligations = len(fb)
    r.discharged = sum(1 for x in fb if x['success'])
    r.smt_ms = j['times-ms']['smt'].get('smt-run', 0)
    r.slow = sorted(((x['time-micros'] // 1000, x['function']) for x in fb), reverse=True)[:5]
    if not fb:
        r.broken = 'verus checked no obligation: ' + se[-400:]
    for x in diags:
        f, s = attribute(x, ex.funcs)
        r.fails.append(dict(func=f, message=x['message'], text=x.get('rendered', '')))
    if vr.get('success') is not True and not r.fails:
        r.broken = 'verus did not accept the unit: ' + se[-600:]
    if vac and not r.fails and not r.broken:
        if 'funcs' not in vres:
            r.notes.append('vacuity run failed: %s' % vres.get('error'))
        else:
            bad = set()
            for x in vres['diags']:
                for s in x.get('spans', []):
                    for f in vres['funcs']:
                        if f['start'] <= s['line_start'] <= f['end']:
                            bad.add(f['start'])
            # assert(false) at the start of a function under contract must fail
            if vres['diags']:
                r.vacuous = [f['name'] for f in vres['funcs'] if f['start'] not in bad]
            else:
                r.notes.append('vacuity run reported nothing')
    shutil.rmtree(d, ignore_errors=True)
    return r


# ---------------------------------------------------------------- replay
def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTC_WRAPPER='', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), PROTOC='/usr/bin/protoc',
               CARGO_INCREMENTAL='1')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    return env


class ReplayResult:
    def __init__(self):
        self.built = False
        self.build_error = ''
        self.build_s = 0.0
        self.data = None
        self.hang = False
        self.crash = None


def run_replay(area, prop, seed, secs, runs=1):
    r = ReplayResult()
    t = time.time()
    d = os.path.join(VERIF, 'replay', area)
    gen = os.path.join(d, 'gen.py')
    exe = os.path.join(BUILD, 'replay', 'vx_%s_%s' % (area, prop))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    # Checks that run at the same time share the build folder: the executable is taken
    # away under a lock, as the next property builds another one of the same name.
    lock = open(os.path.join(BUILD, 'replay', 'lock_' + area), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(gen):
            p = subprocess.run([sys.executable, gen], capture_output=True, text=True, timeout=60)
            if p.returncode != 0:
                r.build_error = 'gen: ' + p.stderr[-2000:]
                return r
        p = subprocess.run(['cargo', 'build', '--offline', '--locked', '--features', prop], cwd=d, env=cargo_env(), capture_output=True, text=True, timeout=500)
    except subprocess.TimeoutExpired:
        r.build_error = 'build timed out'
        return r
    finally:
        if r.build_error:
            lock.close()
    r.build_s = time.time() - t
    if p.returncode != 0:
        lock.close()
        errs = re.findall(r'^error.*(?:\n(?!error|warning).*){0,8}', p.stderr, re.M)
        r.build_error = ('\n'.join(errs) or p.stderr)[:6000]
        return r
    r.built = True
    tmp = exe + '.%d' % os.getpid()
    shutil.copy2(os.path.join(BUILD, 'target', 'debug', 'vx_' + area), tmp)
    os.replace(tmp, exe)
    lock.close()
    for k in range(runs):
        try:
            p = subprocess.run([exe, prop, str(seed + k * 1000003), str(secs)], cwd='/', capture_output=True, text=True, timeout=secs * 2 + 200, env=cargo_env())
        except subprocess.TimeoutExpired:
            r.hang = True
            return r
        m = re.search(r'^VXRESULT (.*)$', p.stdout, re.M)
        if not m:
            r.crash = 'exit status %s\n%s' % (p.returncode, (p.stdout + p.stderr)[-3000:])
            return r
        data = json.loads(m.group(1))
        if r.data is None:
            r.data = data
        else:
            r.data['cases'] += data['cases']
            r.data['distinct'] += data['distinct']
            r.data['wall'] += data['wall']
            for f, n in data['families'].items():
                r.data['families'][f] = r.data['families'].get(f, 0) + n
            have = set(v['key'] for v in r.data['violations'])
            r.data['violations'] += [v for v in data['violations'] if v['key'] not in have]
    return r


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<clause> <text>' and 'fixed: property=<id> <commit> <text>'."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', ln)
            if m:
                res.append((m.group(1), m.group(2), m.group(3).strip()))
    return res
