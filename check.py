#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current source.

1. extracts the crate with its contracts into one file and has Verus discharge every obligation (all inputs, no bound);
2. at the same time searches for inputs on which the real code differs from an independent oracle, so that a failed
   obligation comes with a failing input where one is found. Functions that the verifier can't take any more (their
   annotations don't fit the changed text) are left to this bounded search and labelled so in the evidence.
"""
import os, sys, json, re, difflib, subprocess, tempfile, shutil, threading, time, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import verify
from vf.index import Crate
from vf.lexer import lex

REPO = os.environ.get('MYSQL_CDC_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
# seconds of search: source as committed / changed source / after a failed obligation without an input
TIMES = {'quick': (12, 40, 45), 'thorough': (300, 300, 120)}[TIER if TIER == 'thorough' else 'quick']
SMALL_EDIT = 12      # tokens
PLAIN_EDIT = 40      # the same in a function without hints
HINT_EDIT = 8        # the same where only a loop invariant or an intermediate assertion fails

def literals(files):
    ints, texts = set(), set()
    for toks in files.values():
        for s in toks:
            m = re.match(r'(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?$', s)
            if m:
                v = int(m.group(1).replace('_', ''), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1))
                if v < 1 << 64: ints.add(v)
            elif s.startswith('"') and len(s) > 2:
                try: x = json.loads(s.replace('\n', '\\n'))
                except ValueError: continue
                if '{' not in x and '\0' not in x and len(x) < 60: texts.add(x)
            elif re.match(r"b'.'$", s): ints.add(ord(s[2]))
            elif re.match(r"'.'$", s): texts.add(s[1]); ints.add(ord(s[1]) if ord(s[1]) < 256 else 0)
    return ints, texts

class Search:
    """the bounded search for failing inputs"""
    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.bin, self.note = None, ''
        self.evaluations = self.distinct = 0
        self.suites, self.samples = {}, []
        self.hit = None
        self.seconds = 0
        self.procs = 0
        self.round = 0

    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        target = os.environ.get('SEARCH_TARGET', os.path.join(HERE, 'search', 'target'))
        env['CARGO_TARGET_DIR'] = target
        src = os.path.join(HERE, 'search')
        if REPO != '/repo':
            src = os.path.join(self.work, 'search')
            shutil.copytree(os.path.join(HERE, 'search'), src, ignore=shutil.ignore_patterns('target'))
            p = os.path.join(src, 'Cargo.toml')
            s = open(p).read().replace('path = "/repo"', f'path = "{REPO}"')
            open(p, 'w').write(s)
        # first with the guarded access to private parts; without it if those have changed
        for flags, args in (('--cfg mysql_cdc_verif -Awarnings', []), ('-Awarnings', ['--no-default-features'])):
            env['RUSTFLAGS'] = flags
            p = subprocess.run(['cargo', 'build', '--offline', '--locked', *args], cwd=src, env=env, capture_output=True, text=True)
            if p.returncode == 0:
                self.bin = os.path.join(self.work, 'search.bin')
                shutil.copy(os.path.join(target, 'debug', 'search'), self.bin)
                if args: self.note = 'private parts can no longer be reached: requests and answers are searched through whole sessions only'
                return
            self.note = 'the search does not build: ' + '; '.join(l for l in p.stderr.split('\n') if l.startswith('error'))[:600]

    def run(self, secs, procs, dictionary):
        if self.bin is None or self.hit: return
        self.round += 1
        ps = []
        for i in range(procs):
            out = os.path.join(self.work, f'hit{self.round}_{i}.json')
            log = open(os.path.join(self.work, f'log{self.round}_{i}'), 'w+')
            seed = SEED * 1000 + self.round * 100 + i
            ps.append((subprocess.Popen([self.bin, 'run', self.prop, str(seed), str(secs), out, dictionary], stdout=log, stderr=subprocess.STDOUT,
                                        env=dict(os.environ, TMPDIR=self.work), cwd=self.work), out, log))
        end = time.time() + secs + 40
        live = list(ps)
        while live and time.time() < end:
            time.sleep(0.1)
            for x in list(live):
                if x[0].poll() is not None:
                    live.remove(x)
                    if x[0].returncode == 1 and os.path.exists(x[1]) and self.confirm(x[1]): self.hit = x[1]
            if self.hit: break
        for x in live:
            x[0].kill()
            x[0].wait()
        for p, out, log in ps:
            log.seek(0)
            s = log.read()
            m = re.search(r'^\{.*\}$', s, re.M)
            if m:
                try: d = json.loads(m.group())
                except ValueError: continue
                self.evaluations += d['evaluations']
                self.distinct += d['distinct']
                for k, v in d['suites'].items(): self.suites[k] = self.suites.get(k, 0) + v
                if len(self.samples) < 3: self.samples += d['samples'][:1]
            elif p.returncode not in (0, 1, -9) and 'panics' in s: self.note += ' a search process ended: ' + s.strip()[-200:]
        self.seconds += secs
        self.procs = procs

    def confirm(self, path):
        """the failing input once more, in a process of its own"""
        try: p = subprocess.run([self.bin, 'replay', path], capture_output=True, timeout=60, env=dict(os.environ, TMPDIR=self.work), cwd=self.work)
        except subprocess.TimeoutExpired: return True
        if p.returncode == 1 or p.returncode < 0: return True
        self.note += ' a failure was not reproducible'
        return False

def trusted_base(res):
    out = []
    for n in verify.SPECS:
        s = open(os.path.join(HERE, 'contracts', n), encoding='utf-8').read()
        ax = re.findall(r'axiom fn (\w+)', s)
        asm = re.findall(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', s)
        ext = re.findall(r'external_body\s*\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:exec |proof |broadcast proof )?(?:fn|struct) (\w+)', s)
        adm = len(re.findall(r'\badmit\s*\(|\bassume\s*\(', s))
        if ax: out.append(f'{n}: axioms {", ".join(ax)}')
        if asm: out.append(f'{n}: assumed specifications of {", ".join(" ".join(x.split()) for x in asm)}')
        if ext: out.append(f'{n}: contracts of external functions and types assumed: {", ".join(ext)}')
        if adm: out.append(f'{n}: {adm} assume/admit')
    for k, c in res.cs.items():
        if c.trusted: out.append(f'contract of {k} assumed: {c.trusted}')
    return out

def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif.')
    try: code = decide(prop, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

def decide(prop, work, t0):
    title = {}
    for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
        d = json.loads(l)
        title[d['id']] = d['title']
    base = verify.load_baseline()
    note = ''
    try:
        files = verify.file_tokens(Crate(REPO))
    except Exception as e:
        files, note = {}, f'the source cannot be read: {e!r}'
    same = files == base['files']
    i0, x0 = literals(base['files'])
    i1, x1 = literals(files)
    diff_files = {k: v for k, v in files.items() if base['files'].get(k) != v}
    ih, xh = literals(diff_files)
    dic = os.path.join(work, 'dict')
    with open(dic, 'w') as o:
        for v in sorted(i1): o.write(f'int {v}\n')
        for v in sorted(i1 - i0): o.write(f'hot {v}\n')
        for v in sorted(x1): o.write(f'text {v.encode().hex()}\n')
        for v in sorted(x1 - x0):
            for _ in range(10): o.write(f'text {v.encode().hex()}\n')
    search = Search(prop, work)
    secs = TIMES[0] if same else TIMES[1]
    def side():
        search.build()
        search.run(secs, 7, dic)
    th = threading.Thread(target=side)
    th.start()
    res, crash = None, None
    try: res = verify.run(REPO, work)
    except Exception as e:
        import traceback
        crash = traceback.format_exc()
        note += f' the extraction failed: {e!r}'
    th.join()

    # which of the failed obligations concern this property
    mine, soft = [], []
    bounded = {}
    fns = {}
    if res is not None and not res.fatal:
        fns = {k: c for k, c in res.cs.items() if prop in verify.fn_props(c) or prop == 'C25'}
        for f in res.failures:
            if prop not in f['labels']: continue
            (mine if hard(f, res) else soft).append(f)
        for k, why in res.degraded.items():
            c = res.cs.get(k)
            if c is None or prop in verify.fn_props(c) or prop == 'C25': bounded[k] = why
        if prop == 'C25':
            for k in res.nodec: bounded.setdefault(k, 'a new loop or recursion, not shown to end')
        for f in soft:
            if f['fn']: bounded[f['fn']] = 'annotations no longer carry the proof after the edit: ' + f['message']
    elif res is not None: note += ' ' + res.fatal
    if (mine or soft or bounded or res is None or res.fatal) and not search.hit:
        search.run(TIMES[2], 8, dic)

    violation = None
    if search.hit:
        path = os.path.join(HERE, 'replays', f'{prop}.json')
        shutil.copy(search.hit, path)
        d = json.load(open(path))
        if mine: d['failed_obligations'] = [brief(f) for f in mine]
        d['replay_with'] = f'cargo build in /verif/search (RUSTFLAGS="--cfg mysql_cdc_verif"), then: search replay {path}'
        json.dump(d, open(path, 'w'), indent=1)
        print(f'{prop} ({title.get(prop)}): failing input, suite {d["suite"]}: {d["what"][:600]}')
        for f in mine: print('  failed obligation:', f['fn'], '|', f['message'], '|', f['clause'], '|', f.get('at', ''))
        violation = f'VIOLATION property={prop} replay={path}'
    elif mine:
        path = os.path.join(HERE, 'replays', f'{prop}.json')
        json.dump({'property': prop, 'failed_obligations': [brief(f) for f in mine], 'verifier_output': [f['rendered'] for f in mine], 'checker': res.cmd,
                   'note': 'no failing input was found by the search'}, open(path, 'w'), indent=1)
        for f in mine: print('failed obligation:', f['fn'], '|', f['message'], '|', f['clause'], '|', f.get('at', ''))
        violation = f'VIOLATION property={prop} replay={path} no-failing-input-found'

    ev = {'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'wall_s': 0.0, 'violations': 1 if violation else 0}
    cov = {}
    searched = {'evaluations': search.evaluations, 'distinct_nontrivial': search.distinct,
                'rule': 'cases of the suites named below, made from a seeded generator of binlog events, files, texts and server sessions with a dictionary of the literals in the source; '
                        'each case runs the real code and an independent oracle; non-trivial: more than 4 bytes of input, counted by hash',
                'samples': search.samples or ['none'], 'suites': search.suites, 'search_seconds': search.seconds, 'search_processes': search.procs}
    if search.note: searched['search_note'] = search.note.strip()
    if res is not None and not res.fatal:
        vr = res.out['verification-results']
        contracted = [k for k in res.cs if k not in res.degraded]
        mine_fns = sorted(k for k in fns if k not in res.degraded)
        clauses = sum(1 for k in mine_fns for lab, _ in res.cs[k].ensures + res.cs[k].requires if prop in verify.props_of(lab) or prop == 'C25')
        tm = res.out.get('times-ms', {})
        cov = {'obligations': vr['verified'] + vr['errors'], 'discharged': vr['verified'],
               'obligation_unit': 'one verification task of Verus (a function body with all its contract clauses, calls, loops and safety conditions, or a lemma)',
               'checker_cmd': 'verus crate_under_test.rs --multiple-errors 6 --num-threads 8 (extracted from /repo on this run)',
               'trusted_base': trusted_base(res),
               'back_end': 'Verus with Z3', 'solver_ms': tm.get('total-verify'), 'verifier_wall_s': round(res.wall, 1), 'verifier_rounds': res.rounds,
               'functions_under_contract': len(contracted), 'functions_of_this_property': mine_fns, 'clauses_of_this_property': clauses,
               'functions_without_contract': res.uncontracted, 'left_to_bounded_search': bounded, 'renamed': res.moved,
               'failed_obligations': [brief(f) for f in mine + soft],
               'end_not_shown': sorted(res.nodec), 'annotations_left_out': res.loose,
               'source_as_committed': same}
    cov.update(searched)
    complete = res is not None and not res.fatal and not bounded and fns
    if TIER == 'thorough' and res is not None and not res.fatal and not violation:
        cov['vacuity'] = vacuity(work, res, fns)
    ev['level'] = 'proof' if complete else 'exploration'
    if not complete: cov['explanation'] = 'bounded: ' + (note.strip() or 'the functions named in left_to_bounded_search were only searched')
    ev['coverage'] = cov
    ev['assumptions'] = ASSUMPTIONS
    ev['wall_s'] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1)
    if violation:
        print(violation)
        return 1
    if res is not None and not res.fatal:
        print(f'{prop}: {cov["discharged"]} of {cov["obligations"]} obligations discharged, {len(fns)} functions of this property; {search.evaluations} cases searched; {ev["wall_s"]} s'
              + (f'; bounded only: {", ".join(bounded)}' if bounded else ''))
    else: print(f'{prop}: bounded only, {search.evaluations} cases searched:{note}')
    if search.note: print(search.note.strip())
    return 0

ASSUMPTIONS = [
    'the extraction (vf/gen.py) keeps the meaning of the code: visibility, comments, tests and Debug derives are dropped, std/byteorder/sha/openssl paths go to a shim, formatting macros and a few std methods are lowered to shim functions with assumed contracts',
    'the shim (contracts/shim.rs) describes std, byteorder, sha1, sha2, openssl and TCP correctly',
    'Verus, Z3 and rustc are correct; usize has 64 bits; memory is not exhausted below the limits named in the contracts',
]

def brief(f):
    return {'function': f['fn'], 'message': f['message'], 'clause': f['clause'], 'text': f.get('text', ''), 'at': f.get('at', ''), 'kind': f['kind']}

DOUBTFUL = set('''find split_once splitn rsplit map map_or and_then filter filter_map flat_map collect enumerate rev repeat trim trim_start trim_end replace join concat
zip fold keys values sort sort_unstable sort_by_key dedup get_mut entry extend chunks windows strip_prefix strip_suffix split chars to_ascii_lowercase to_ascii_uppercase
eq_ignore_ascii_case from_utf8_lossy cloned copied position skip take count split_at split_off drain append reverse abs_diff'''.split())

def closures(toks):
    return sum(1 for p, x in zip(toks, toks[1:]) if x in ('|', '||') and p in ('(', ',', '=', 'move', '=>', 'return'))

def loops(toks):
    """the kinds of the loops, in order"""
    out = []
    for i, x in enumerate(toks):
        if x not in ('for', 'while', 'loop'): continue
        k, d = x, 0
        for y in toks[i + 1:] if x != 'loop' else ():
            if y in ('(', '['): d += 1
            elif y in (')', ']'): d -= 1
            elif d == 0 and y == '{': break
            elif d == 0 and y in ('..', '..='): k = 'range'
            elif y == 'let' and x == 'while': k = 'while let'
        out.append(k)
    return out

BITS = ('|', '^', '<<', '>>', '%', '|=', '^=', '<<=', '>>=', '&=', '%=')
def bits(old, new):
    """whether masks, shifts or remainders are rewritten (not only left out): the verifier knows little of how they relate"""
    touched = added = False
    for op, a, b, c, d in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if op == 'equal': continue
        added |= d > c
        for t, i, j in ((old, a, b), (new, c, d)):
            for k in range(i, j):
                if t[k] in BITS: touched = True
                if t[k] == '&' and k and (re.match(r'\w', t[k - 1]) and t[k - 1] not in verify.KEYWORDS or t[k - 1] in ')]'): touched = True
    return touched and added

def hard(f, res):
    """a failed obligation is reported, unless a larger edit of an annotated function may just have moved the ground under its hints"""
    k = f['fn']
    if f['kind'] == 'limit' or f.get('spec') and k is None: return False
    if k in res.loose: return False      # some of its annotations had to be left out
    c = res.cs.get(k)
    if c is None: return True
    old, new = res.base['fns'].get(k), res.fns.get(k, (None,))[0]
    if old is None or new is None: return True
    n = verify.changed(old, new)
    # a loop without an invariant, or a call of a function without a contract, says nothing about the property
    lo, ln = loops(old), loops(new)
    if len(ln) > len(lo) or len(ln) == len(lo) and ln != lo: return False
    # nor does a new closure, and new chains of adapters or text methods may only need a lemma
    if closures(new) > closures(old): return False
    if any(x in DOUBTFUL and new[i - 1] in ('.', '::') for i, x in enumerate(new) if i and x not in old): return False
    fresh = {x.split('::')[-1] for x in res.fns if x not in res.cs and x not in res.base['fns']}
    if any(x in fresh and y == '(' for x, y in zip(new, new[1:])): return False
    if bits(old, new): return False
    if not c.hints(): return n <= PLAIN_EDIT
    return n <= (HINT_EDIT if f['kind'] == 'hint' else SMALL_EDIT)

def vacuity(work, res, fns):
    """every function of the property with `assert(false)` at its start: each must fail, or its precondition is contradictory"""
    keys = [k for k in fns if k not in res.degraded and not res.cs[k].trusted]
    r = verify.run(REPO, work, canary=set(keys))
    if r.fatal: return {'note': r.fatal}
    failed = {f['fn'] for f in r.failures if f['message'].startswith('assertion failed')}
    return {'functions': len(keys), 'contradictory_preconditions': sorted(k for k in keys if k not in failed)}

if __name__ == '__main__': main()
