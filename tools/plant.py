#!/usr/bin/env python3
"""plant.py BATCH.py [ID...]: turns the descriptions of planted bugs in BATCH.py into seeded/<id>/, confirming each.

BATCH.py defines BUGS: dicts with id, property, edits [(file, old, new)], needs, breaks, and main (Rust) or py (Python).
Works in /repo (which must be clean) and leaves it as it was. Results go to /tmp/plant.log."""
import json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BASE = '/repo', 'cb88fcd'
KIT = ROOT + '/tools/demokit'
def sh(cmd, cwd=REPO, timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')
def log(*a):
    s = ' '.join(str(x) for x in a); print(s, flush=True); open('/tmp/plant.log', 'a').write(s + '\n')
def clean(): sh('git checkout -- .')
def original(diff):
    """Whether the patch changes lines of the original repository."""
    ours = 0
    f = None; n = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-') and not l.startswith('---'):
            h = sh(f'git blame -s -L{n},{n} HEAD -- {f}')[1].lstrip('^')
            if not h.startswith(BASE): ours += 1
            n += 1
        elif not l.startswith('+'): n += 1
    return ours
def main():
    g = {}; exec(open(sys.argv[1]).read(), g)
    for b in g['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
        d = f"{ROOT}/seeded/{b['id']}"
        if os.path.exists(d + '/patch.diff') and len(sys.argv) <= 2: continue
        assert not sh('git status --porcelain')[1].strip(), 'repository not clean'
        try:
            for f, o, nw in b['edits']:
                p = f'{REPO}/{f}'; s = open(p).read()
                c = s.count(o)
                if c != 1: raise Exception(f'{f}: {c} matches for {o[:60]!r}')
                open(p, 'w').write(s.replace(o, nw))
            diff = sh('git diff')[1]
            ours = original(diff)
            rc, out = sh('bash /opt/vp/build.sh')
            if rc: raise Exception('does not build: ' + out[-1500:])
            rc, out = sh('bash /opt/vp/test.sh /tmp/plant-tests.json')
            rc, out2 = sh('python3 /tmp/cmp_tests.py /tmp/plant-tests.json')
            if rc: raise Exception('fails tests: ' + out2)
            t = f"/tmp/plant-demo/{b['id']}"
            shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            if 'main' in b:
                for f in ('kit.rs', 'demo.sh', 'Cargo.toml'): shutil.copy(f'{KIT}/{f}', t)
                if 'toml' not in b: shutil.copy(ROOT + '/sim/Cargo.lock', t)
                m = b['main']
                if 'mod kit' not in m: m = 'mod kit;\nuse kit::*;\n' + m
                open(t + '/main.rs', 'w').write(m)
                if 'toml' in b:
                    x = open(t + '/Cargo.toml').read(); open(t + '/Cargo.toml', 'w').write(x.replace('[profile.dev]', b['toml'] + '[profile.dev]'))
            elif 'js' in b:
                for f in ('kit.mjs', 'dnssec_prover_wasm.js'): shutil.copy(f'{KIT}/{f}', t)
                shutil.copy(f'{KIT}/jsdemo.sh', t + '/demo.sh')
                open(t + '/demo.mjs', 'w').write('import { check, load } from "./kit.mjs";\n' + b['js'])
            else:
                for f in ('httpkit.py', 'pydemo.sh'): shutil.copy(f'{KIT}/{f}', t)
                os.rename(t + '/pydemo.sh', t + '/demo.sh')
                open(t + '/demo.py', 'w').write(b['py'])
            t0 = time.time()
            rp, op = sh(f'bash {t}/demo.sh')
            tp = time.time() - t0
            if rp in (0, 98, 99): raise Exception(f'demo with the patch: {rp} {op[-1500:]}')
            t0 = time.time()
            rk, ok = sh(f"{ROOT}/check.sh {b['property']}", cwd=ROOT)
            tk = time.time() - t0
        except Exception as e:
            log(b['id'], 'REJECTED', e); clean(); continue
        clean()
        r0, o0 = sh(f'bash {t}/demo.sh')
        if r0: log(b['id'], 'REJECTED demo on the unchanged tree:', r0, o0[-1500:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(t, d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        v = [l for l in ok.splitlines() if l.startswith('VIOLATION')]
        log(b['id'], b['property'], 'CAUGHT' if rk == 1 and v else f'MISSED rc={rk}', f'{tk:.0f}s', f'demo {tp:.0f}s rc={rp}', f'(own lines: {ours})' if ours else '', (v or ok.splitlines()[-1:] or [''])[0][:150])
main()
