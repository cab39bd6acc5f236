"""Runs the verifier on the crate's current source and attributes what it reports to functions and clauses."""
import os, re, json, subprocess, time, difflib
from vf.index import Crate, is_test
from vf.lexer import Tok, roles
from vf.gen import Gen
from vf.lexer import lex
from vf import contracts, inline

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = [l.strip() for l in open(os.path.join(HERE, 'contracts', 'SPECS')) if l.strip()]
VERUS = os.environ.get('VERUS', 'verus')

def tokens(fn):
    t = fn.f.t
    return [x.s for x in t[fn.start:fn.end]]

def fn_tokens(crate):
    return {k: (tokens(fn), fn) for k, mp, im, fn in crate.fns()}

def file_tokens(crate):
    out = {}
    for m in crate.mods:
        skip = set()
        def walk(items):
            for it in items:
                if is_test(it.attrs): skip.update(range(it.full, it.end))
                elif it.kind in ('impl', 'mod') and it.items: walk(it.items)
        walk(m.items)
        out['::'.join(m.modpath) or 'lib'] = [x.s for i, x in enumerate(m.f.t) if i not in skip]
    return out

def make_baseline(repo):
    c = Crate(repo)
    return {'fns': {k: v[0] for k, v in fn_tokens(c).items()}, 'files': file_tokens(c)}

def load_baseline():
    return json.load(open(os.path.join(HERE, 'baseline.json')))

KEYWORDS = set('''as break const continue else enum fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true false type unsafe use where while
u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char str String Vec Option Result Some None Ok Err'''.split())

def with_roles(toks):
    """the tokens with their roles; Foo { x } is read as Foo { x: x }"""
    out = []
    t = [Tok('op' if not re.match(r'[\w"\']', x) else 'id', x, 0, 0) for x in toks]
    for x, r in zip(t, roles(t)):
        if r == 'S': out += [('F', x.s), (None, ':'), ('', x.s)]
        else: out.append((r, x.s))
    return out

def renaming(old, new, new_ids):
    """values (x) and fields (.x) of the old text that the new text calls differently (consistently, one to one)"""
    old, new = with_roles(old), with_roles(new)
    m, bad = {}, set()
    ro, rn = set(old), set(new)
    for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if op != 'replace' or b - a != d - c: continue
        for x, y in zip(old[a:b], new[c:d]):
            if x == y or x[0] != y[0] or x[0] not in ('', 'F'): continue
            if x[1] in KEYWORDS or y[1] in KEYWORDS: continue
            if x in rn or y in ro: continue      # still in use, or not a new name
            if m.get(x, y) != y: bad.add(x)
            m[x] = y
    m = {x: y for x, y in m.items() if x not in bad}
    if len(set(m.values())) != len(m): return {}
    return {('.' if r else '') + x: y for (r, x), (_, y) in m.items()}

def changed(old, new):
    """number of tokens that differ"""
    n = 0
    for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if op != 'equal': n += max(b - a, d - c)
    return n

class Result: pass

def props_of(label):
    return re.findall(r'C\d\d', label or '')

def fn_props(c):
    out = set()
    for lab, _ in c.ensures + c.requires: out.update(props_of(lab))
    return out

def attach(crate, cs, base):
    """contracts matched to the functions of the crate: moved ones (renamed functions) follow their text"""
    fns = fn_tokens(crate)
    renames, moved, missing = {}, {}, []
    free = [k for k in fns if k not in cs and k not in base['fns']]
    for k in list(cs):
        if k in fns: continue
        old = base['fns'].get(k)
        best, score = None, 0.0
        for n in free:
            if n.split('::')[:-1] != k.split('::')[:-1] and n.split('::')[-1] != k.split('::')[-1]: continue
            if old is None: continue
            r = difflib.SequenceMatcher(None, old[2:], fns[n][0][2:], autojunk=False).ratio()
            if r > score: best, score = n, r
        if best and score > 0.6:
            moved[k] = best
            free.remove(best)
        else: missing.append(k)
    for k, n in moved.items():
        c = cs.pop(k)
        c.key = n
        cs[n] = c
        if k in base['fns']: base['fns'][n] = base['fns'][k]
    for k in missing: cs.pop(k)
    for k in fns:
        if k in cs and k in base['fns'] and base['fns'][k] != fns[k][0]:
            m = renaming(base['fns'][k], fns[k][0], None)
            m = {x: y for x, y in m.items() if x != k.split('::')[-1]}
            if m: renames[k] = m
    # renamed functions are also called by name in hints
    names = {k.split('::')[-1] + '()': n.split('::')[-1] for k, n in moved.items() if k.split('::')[-1] != n.split('::')[-1]}
    if names:
        for k in cs: renames[k] = {**names, **renames.get(k, {})}
    return fns, renames, moved, missing

def run(repo, work, threads=8, canary=None, timeout=400, extra=()):
    """verifies the whole crate; functions whose annotations no longer fit are left to the bounded check"""
    res = Result()
    t0 = time.time()
    crate = Crate(repo)
    base = load_baseline()
    cs = contracts.load(os.path.join(HERE, 'contracts', 'fn'))
    res.total_contracts = len(cs)
    fns, renames, moved, missing = attach(crate, cs, base)
    res.inlined = {}
    if any(k not in cs and k not in base['fns'] for k in fns):
        # helpers split off from known functions are put back
        crate, res.inlined = inline.inline(repo, set(base['fns']) - set(moved), set(cs))
        cs = contracts.load(os.path.join(HERE, 'contracts', 'fn'))
        base = load_baseline()
        fns, renames, moved, missing = attach(crate, cs, base)
    res.fns, res.cs, res.base, res.moved = fns, cs, base, moved
    specs = [(n, open(os.path.join(HERE, 'contracts', n), encoding='utf-8').read()) for n in SPECS]
    uncontracted = {k for k in fns if k not in cs}
    degraded = {}
    for k in missing: degraded[k] = 'the function is gone'
    dropped = set()
    skipped = {}      # (function, annotation) -> why it is left out
    res.nodec = set()
    res.rounds = 0
    res.fatal = None
    while True:
        res.rounds += 1
        g = Gen(crate, cs, specs, nodec=res.nodec, degraded=set(degraded) | uncontracted, dropped=dropped, canary=canary, renames=renames, skipped=skipped)
        text, info, tags = g.generate()
        for k, why in g.lost.items(): degraded.setdefault(k, 'annotation lost: ' + why)
        src = os.path.join(work, 'crate_under_test.rs')
        open(src, 'w', encoding='utf-8').write(text)
        cmd = [VERUS, src, '--output-json', '--time-expanded', '--error-format=json', '--multiple-errors', '6', '--num-threads', str(threads), *extra]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=work)
        except subprocess.TimeoutExpired:
            res.fatal = f'the verifier did not end within {timeout} s'
            break
        res.cmd = ' '.join(cmd)
        diags = diagnostics(p.stderr)
        res.stderr = p.stderr
        try: out = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError: out = {}
        vr = out.get('verification-results', {})
        res.out = out
        lines = sorted((a, b, k) for k, a, b in g.fnlines)
        def fn_at(line):
            last = None
            for a, b, k in lines:      # neighbours can share a line: the later one starts there
                if a <= line <= b: last = k
            return last
        bad = vr.get('encountered-vir-error', True) or 'verified' not in vr or any(d.get('code') for d in diags)
        if not bad:
            res.failures = [failure(d, fn_at, tags, info, cs) for d in diags]
            if res.failures and not canary: retry(res, cmd, work, crate, fn_at, tags, info, cs)
            break
        # not accepted by the front end: the functions concerned leave the verified part
        hit = False
        before = set(degraded)
        # failed obligations may come along; they are judged once the front end is content
        front = [d for d in diags if d.get('code') or not FAILED.search(d['message'])] or diags
        for d in front:
            for sp in d['spans']:
                ln = sp['line_start']
                k = fn_at(ln)
                if k is None: continue
                msg = d['message'].split('\n')[0][:200]
                tag = tags[ln] if ln < len(tags) else None
                if 'must have a decreases clause' in msg and k not in res.nodec:
                    res.nodec.add(k)      # a new loop or recursion: verified without showing that it ends
                    hit = True
                elif tag and tag[0] == 'hint' and not tag[2].startswith('closure'):
                    skipped.setdefault((tag[1], tag[2]), msg)
                    hit = True
                elif k not in degraded:
                    degraded[k] = 'not accepted by the verifier: ' + msg
                    hit = True
                elif k in before and k not in dropped and (not tag or tag[0] in ('clause',)):
                    dropped.add(k)
                    degraded[k] = 'contract no longer fits: ' + msg
                    hit = True
                if sp['is_primary']: break
        if not hit or res.rounds > 16:
            res.fatal = 'the verifier rejects the extracted crate: ' + '; '.join(d['message'].split('\n')[0][:160] for d in diags[:3])
            break
    if res.fatal: res.failures = []
    res.text, res.tags, res.gen = text, tags, g
    res.degraded = degraded
    res.loose = {k: dict(v) for k, v in g.loose.items() if k not in degraded}
    for (k, a), why in skipped.items():
        if k not in degraded: res.loose.setdefault(k, {})[a] = why
    res.dropped = dropped
    res.uncontracted = sorted(k for k in uncontracted)
    res.wall = time.time() - t0
    return res

FAILED = re.compile(r'not satisfied|assertion failed|possible (arithmetic|division|bit ?shift)|Resource limit|assertion might|not proved|cannot prove')

def diagnostics(stderr):
    out = []
    for ln in stderr.split('\n'):
        if ln.startswith('{'):
            try: d = json.loads(ln)
            except ValueError: continue
            if d.get('level') == 'error' and d.get('spans'): out.append(d)
    return out

def retry(res, cmd, work, crate, fn_at, tags, info, cs):
    """the solver is not deterministic across irrelevant changes: what failed is tried again with other seeds and a larger limit;
    a function counts as discharged when the solver accepts all its obligations in one try"""
    mods = {k: '::'.join(mp) for k, mp, im, fn in crate.fns()}
    res.retried = 0
    for seed in (7, 23):
        fs = {f['fn'] for f in res.failures}
        if not fs: return
        args = []
        if all(k in mods for k in fs):
            for m in sorted({mods[k] for k in fs}): args += ['--verify-module', m] if m else ['--verify-root']
        try: p = subprocess.run(cmd + ['--rlimit', '30', '--smt-option', f'smt.random_seed={seed}'] + args, capture_output=True, text=True, timeout=120, cwd=work)
        except subprocess.TimeoutExpired: return
        try: vr = json.loads(p.stdout[p.stdout.index('{'):])['verification-results']
        except (ValueError, KeyError): return
        if 'verified' not in vr or vr.get('encountered-vir-error'): return
        news = [failure(d, fn_at, tags, info, cs) for d in diagnostics(p.stderr)]
        again = {f['fn'] for f in news}
        gone = fs - again
        res.retried += 1
        # where the first try only ran out of resources, this one may say what is wrong
        vague = {f['fn'] for f in res.failures if f['kind'] == 'limit'} & {f['fn'] for f in news if f['kind'] != 'limit'}
        res.failures = [f for f in res.failures if f['fn'] not in vague] + [f for f in news if f['fn'] in vague and f['kind'] != 'limit']
        res.failures = [f for f in res.failures if f['fn'] not in gone]
        v = res.out['verification-results']
        v['verified'] += len(gone)
        v['errors'] -= len(gone)

def failure(d, fn_at, tags, info, cs):
    f = {'message': d['message'].split('\n')[0], 'rendered': d.get('rendered', ''), 'fn': None, 'labels': set(), 'kind': 'hint', 'clause': ''}
    prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
    for s in prim + d['spans']:
        k = fn_at(s['line_start'])
        if k: f['fn'] = k; break
    for s in prim:
        ln = s['line_start']
        if ln < len(info) and info[ln]: f['at'] = f'{info[ln][0]}:{info[ln][1]}'; break
    m = f['message']
    for s in d['spans']:
        t = tags[s['line_start']] if s['line_start'] < len(tags) else None
        if t and t[0] == 'clause' and (t[2] == 'ensures' and 'postcondition' in m or t[2] == 'requires' and 'precondition' in m):
            f['clause'] = f'{t[1]} {t[2]} [{t[3]}]'
            f['labels'] |= set(props_of(t[3]))
            f['text'] = ' '.join(x['text'].strip() for x in s.get('text', []))[:300]
            if t[2] == 'ensures': f['fn'] = t[1]
    tag = next((tags[s['line_start']] for s in prim if s['line_start'] < len(tags) and tags[s['line_start']]), None)
    if 'postcondition' in m: f['kind'] = 'ensures'
    elif 'precondition' in m: f['kind'] = 'requires'
    elif 'overflow' in m or 'underflow' in m or 'division' in m or 'shift' in m: f['kind'] = 'safety'
    elif 'Resource limit' in m or 'rlimit' in m: f['kind'] = 'limit'
    if tag and tag[0] == 'hint' and f['kind'] in ('requires', 'safety'): f['kind'] = 'hint'
    if tag and tag[0] == 'spec' : f['spec'] = tag[1]
    if not f['labels'] or f['kind'] in ('safety', 'hint', 'limit') or f['kind'] == 'requires':
        c = cs.get(f['fn'])
        if c is not None: f['labels'] |= fn_props(c)
        if f['kind'] in ('safety', 'requires') and not any(x in ('C23',) for x in f['labels'] if f['clause']): f['labels'].add('C25')
    return f
