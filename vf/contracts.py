"""Contract files: /verif/contracts/fn/*.vc

//@fn  module::path::name            (methods: module::Type::name, trait impls: module::Type@Trait::name)
//@ret  r                            name of the result
//@attr #[verifier::...]             attributes for the verifier
//@requires / //@ensures             clauses; a clause may start with [label] and ends at a line ending with ','
//@decreases expr
//@loop k  [it=NAME]                 invariants etc. of the k-th loop of the body (in text order), inserted verbatim
//@closure k                         "|params| -> (r: T) ensures ..." header replacing the k-th closure header
//@at entry | tail | loop k begin | loop k end | loop k before | loop k after
                                     ghost code
//@impl Trait path::Type            items (spec functions) added to that trait impl
//@trusted reason                    the body is outside the verifier's reach; the contract is assumed (listed in evidence)
"""
import os, re, glob

class Contract:
    def __init__(self, key, file):
        self.key, self.file = key, file
        self.ret = None
        self.attrs = []
        self.requires, self.ensures = [], []   # (label, text)
        self.decreases = None
        self.loops = {}      # ordinal -> (iter name, text)
        self.closures = {}
        self.ghost = {}      # anchor -> text
        self.trusted = None
        self.loopkinds = None
    def hints(self):
        """annotations inside the body (those at its start only name parameters)"""
        return bool(self.loops or self.closures or [g for g in self.ghost if g != 'entry'])

def _clauses(lines):
    out, cur = [], []
    depth = 0
    for ln in lines:
        if not cur and not ln.strip(): continue
        cur.append(ln)
        code = ln.split('//')[0]
        depth += sum(code.count(c) for c in '([{') - sum(code.count(c) for c in ')]}')
        if depth == 0 and code.rstrip().endswith(','):
            out.append('\n'.join(cur)); cur = []
    if any(x.strip() for x in cur):
        out.append('\n'.join(cur) + ',')
    res = []
    for i, c in enumerate(out):
        m = re.match(r'\s*\[([\w .:,-]+)\]', c)
        label = None
        if m:
            label = m.group(1)
            c = c[m.end():]
        res.append((label or f'clause {i}', c.strip('\n')))
    return res

class Contracts(dict):
    def __init__(self):
        self.extras = {}     # 'Trait type' -> items added to the impl

def load(d):
    cs = Contracts()
    for p in sorted(glob.glob(os.path.join(d, '*.vc'))):
        cur, sect, buf = None, None, []
        def flush():
            if sect is None: return
            kind, arg = sect
            text = '\n'.join(buf)
            if kind == 'impl':
                cs.extras[' '.join(arg.split())] = text
                return
            if kind == 'requires': cur.requires += _clauses(buf)
            elif kind == 'ensures': cur.ensures += _clauses(buf)
            elif kind == 'decreases': cur.decreases = text.strip() or arg
            elif kind == 'loop':
                a = arg.split()
                it = None
                for x in a[1:]:
                    if x.startswith('it='): it = x[3:]
                cur.loops[int(a[0])] = (it, text)
            elif kind == 'closure': cur.closures[int(arg)] = text.strip()
            elif kind == 'at': cur.ghost[' '.join(arg.split())] = text
        for ln in open(p, encoding='utf-8').read().split('\n') + ['//@end']:
            m = re.match(r'\s*//@(\w+)\s*(.*)', ln)
            if not m:
                if sect: buf.append(ln)
                continue
            flush()
            sect, buf = None, []
            k, a = m.group(1), m.group(2).strip()
            if k == 'fn':
                cur = Contract(a, os.path.basename(p))
                if a in cs: raise ValueError(f'duplicate contract {a}')
                cs[a] = cur
            elif k == 'ret': cur.ret = a
            elif k == 'attr': cur.attrs.append(a)
            elif k == 'trusted': cur.trusted = a or 'unspecified'
            elif k in ('impl', 'requires', 'ensures', 'loop', 'closure', 'at', 'decreases'):
                sect = (k, a)
            elif k == 'end': pass
            else: raise ValueError(f'{p}: unknown directive {k}')
    return cs
