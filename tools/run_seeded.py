"""run_seeded.py [ids]: runs the check of each planted bug on a scratch copy of /repo with the bug applied"""
import sys, os, subprocess, json, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
wt = '/tmp/seeded_copy'
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
    shutil.copy('/repo/Cargo.lock', wt) if os.path.exists('/repo/Cargo.lock') else None
    subprocess.run(['git', '-C', wt, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    p = subprocess.run([sys.executable, 'check.py', meta['property']], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, MYSQL_CDC_REPO=wt, SEARCH_TARGET='/tmp/seeded_target'))
    last = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    how = 'MISSED' if not last else 'obligation only' if 'no-failing' in last[0] else 'input'
    obl = 'proof fails' if 'failed obligation' in p.stdout else 'proof quiet'
    print(f'{i:34} rc={p.returncode} {how:16} {obl:12} {time.time()-t:.0f}s', flush=True)
    if how == 'MISSED': print('   ', p.stdout.strip()[-400:], p.stderr[-300:])
shutil.rmtree(wt, ignore_errors=True)
