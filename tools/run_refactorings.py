"""run_refactorings.py [names]: what the verifier says about edits that keep the behaviour (no VIOLATION may come from them)"""
import sys, os, subprocess, shutil, time, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
from refactorings import R
from concurrent.futures import ThreadPoolExecutor
import check
from vf import verify
def one(x):
    name, edits = x
    wt = f'/tmp/refact_{name}'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', wt)
    out = []
    for f, old, new in edits:
        p = os.path.join(wt, 'src', f)
        s = open(p).read()
        if s.count(old) < 1: return f'{name}: text not found in {f}'
        open(p, 'w').write(s.replace(old, new, 1))
    if '--build' in sys.argv:
        b = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=wt, env=dict(os.environ, CARGO_TARGET_DIR=f'/tmp/refact_target_{name}', RUSTFLAGS='-Awarnings'), capture_output=True, text=True)
        shutil.rmtree(f'/tmp/refact_target_{name}', ignore_errors=True)
        if b.returncode: return f'{name}: does not build: {b.stderr[:1500]}'
    res = verify.run(wt, wt, threads=2)
    hard = [f for f in res.failures if f['labels'] and check.hard(f, res)]
    soft = [f for f in res.failures if f['labels'] and not check.hard(f, res)]
    s = f'{name:26} {"ALARM" if hard else "quiet"}' + (' fatal ' + str(res.fatal) if res.fatal else '')
    if res.inlined: s += ' put back: ' + ', '.join(k.split('::')[-1] for k in res.inlined)
    for k, v in res.loose.items(): s += f'\n      left out: {k}: {v}'[:250]
    for k, v in res.degraded.items(): s += f'\n      bounded: {k}: {v[:150]}'
    for f in hard: s += f'\n      HARD {f["fn"]} {f["kind"]} {f["message"][:80]} {f["clause"]} {f.get("at","")}'
    for f in soft: s += f'\n      soft {f["fn"]} {f["kind"]} {f["message"][:80]} {f["clause"]}'
    if '--keep' not in sys.argv: shutil.rmtree(wt, ignore_errors=True)
    return s
names = [a for a in sys.argv[1:] if not a.startswith('--')]
with ThreadPoolExecutor(4) as ex:
    for s in ex.map(one, [x for x in R if not names or x[0] in names]): print(s, flush=True)
