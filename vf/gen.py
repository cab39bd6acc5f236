"""Mechanical extraction of the crate into one Verus file with the contracts spliced in."""
import re
from vf.lexer import lex, match_close, roles, LexError
from vf.index import Crate, is_test, impl_name, split_commas

FOREIGN = ('std', 'core', 'alloc', 'byteorder', 'sha1', 'sha2', 'openssl', 'hex')
# methods of std types without verifier support -> extension methods of the shim with assumed contracts
RENAME = {m: 'v_' + m for m in (
    'to_string', 'replace', 'split', 'trim', 'chars', 'iter', 'join', 'sort', 'sort_by_key', 'parse', 'concat',
    'starts_with', 'contains', 'map', 'collect', 'filter', 'count', 'take', 'skip', 'position_of',
    'trim_start', 'trim_end', 'ends_with', 'strip_prefix', 'strip_suffix', 'repeat', 'to_ascii_lowercase', 'to_ascii_uppercase', 'eq_ignore_ascii_case',
    'for_each', 'unwrap', 'expect', 'copy_from_slice', 'to_vec', 'rev', 'enumerate', 'into_iter', 'values', 'to_owned', 'any', 'all')}
RENAME.update({m: 'v_' + m for m in ('map_or', 'keys', 'split_once', 'into_bytes', 'extend', 'extend_from_slice', 'is_ascii_digit', 'is_ascii_hexdigit', 'into_owned', 'last')})
RENAME.update(to_le_bytes='v_to_le_bytes', to_be_bytes='v_to_be_bytes')
RENAME['len'] = 'v_len'
RENAME.update(sort_unstable='v_sort', sort_unstable_by_key='v_sort_by_key')
MACROS = ('format', 'write', 'vec', 'unimplemented', 'todo', 'unreachable', 'panic', 'println', 'eprintln', 'print',
          'assert', 'assert_eq', 'assert_ne', 'debug_assert', 'debug_assert_eq', 'matches')

# associated functions of std types -> functions of the shim
PATHS = {('String', 'from'): 'crate::shim::string_from', ('String', 'from_utf8'): 'crate::shim::string_from_utf8', ('u64', 'pow'): 'crate::shim::u64_pow',
         ('Vec', 'with_capacity'): 'crate::shim::vec_with_capacity',
         ('String', 'from_utf8_lossy'): 'crate::shim::string_from_utf8_lossy',
         **{(f'u{w}', f'from_{e}_bytes'): f'crate::shim::u{w}_from_{e}' for w in (16, 32, 64) for e in ('le', 'be')}}

class Unsupported(Exception):
    pass

class Out:
    def __init__(self):
        self.parts = []      # (text, src file or None, src offset, tag)
    def gen(self, s, tag=None):
        self.parts.append((s, None, 0, tag))
    def src(self, f, a, b, tag=None):
        if b > a: self.parts.append((f.src[a:b], f, a, tag))
    def render(self):
        """text and, per generated line, (source file, source line, tag)"""
        text = ''.join(p[0] for p in self.parts)
        lines = text.count('\n') + 1
        info = [None] * (lines + 1)
        tags = [None] * (lines + 1)
        ln = 1
        for s, f, off, tag in self.parts:
            if f is not None:
                base = f.src.count('\n', 0, off) + 1
                for k in range(s.count('\n') + 1):
                    if info[ln + k] is None: info[ln + k] = (f.path, base + k)
            n = s.count('\n')
            if tag is not None and s.strip():
                lead = len(s) - len(s.lstrip())
                l0 = ln + s[:lead].count('\n')
                l1 = ln + s.rstrip().count('\n')
                for k in range(l0, l1 + 1):
                    tags[k] = tag if tags[k] is None else tags[k]
            ln += n
        return text, info, tags

def parse_format(lit):
    """pieces of a format string literal token: ('lit', rust literal) | ('arg', index or name or None, spec)"""
    if not lit.startswith('"'):
        raise Unsupported('format string')
    body = lit[1:-1]
    out, cur, i = [], '', 0
    while i < len(body):
        c = body[i]
        if c == '\\':
            if body[i + 1] == '\n':
                i += 2
                while i < len(body) and body[i].isspace(): i += 1
                continue
            cur += body[i:i + 2]
            i += 2
        elif body.startswith('{{', i): cur += '{'; i += 2
        elif body.startswith('}}', i): cur += '}'; i += 2
        elif c == '{':
            e = body.index('}', i)
            if cur: out.append(('lit', cur)); cur = ''
            inner = body[i + 1:e]
            name, _, spec = inner.partition(':')
            out.append(('arg', name.strip(), spec.strip()))
            i = e + 1
        else:
            cur += c
            i += 1
    if cur: out.append(('lit', cur))
    return out

class FnGen:
    """emits one function"""
    def __init__(self, g, key, mp, im, fn, contract):
        self.g, self.key, self.mp, self.im, self.fn, self.c = g, key, mp, im, fn, contract
        self.f, self.t = fn.f, fn.f.t
        self.out = g.out
        self.before, self.after = {}, {}
        self.closure_n = 0
        self.skip = set()

    # ---- anchors
    def loops(self):
        return find_loops(self.t, self.fn.body[0] + 1, self.fn.body[1])

    def hook(self, d, i, text, tag=None):
        d.setdefault(i, []).append((text, tag))

    def lower_continue(self, loops):
        """`if c { ..; continue; } rest` in a for loop becomes `if c { .. } else { rest }` (for loops with continue are not supported)"""
        t = self.t
        for lp in loops:
            if lp['kind'] != 'for': continue
            e = match_close(t, lp['brace'])
            for a, b in statements(t, lp['brace'], e):
                if t[a].s != 'if': continue
                q = a
                while t[q].s != '{' or t[q].k != 'op': q = match_close(t, q) + 1 if t[q].k == 'op' and t[q].s in '([' else q + 1
                z = match_close(t, q)
                w = z - 1
                if t[w].s == ';': w -= 1
                if t[w].s != 'continue' or t[z + 1].s == 'else': continue
                self.skip.update(range(w, z))
                self.hook(self.after, z, ' else {')
                self.before.setdefault(e, []).insert(0, ('} ', None))

    def loosen(self, a, why):
        """an annotation that has lost its place is left out: what still verifies is as good as before"""
        self.g.loose.setdefault(self.key, {})[a] = why

    def setup(self):
        c, t = self.c, self.t
        b0, b1 = self.fn.body
        loops = self.loops()
        self.lower_continue(loops)
        if c is None:
            return
        m = self.g.renames.get(self.key)
        R = (lambda s: rename(s, m)) if m else (lambda s: s)
        self.R = R
        for k, (it, text) in c.loops.items():
            if (self.key, f'loop {k}') in self.g.skipped: continue
            if k >= len(loops):
                self.loosen(f'loop {k}', 'the loop is gone')
                continue
            lp = loops[k]
            kind = re.match(r'\s*kind\s+(\w+)\s*;', text)
            if kind:
                if kind.group(1) != lp['kind']:
                    self.loosen(f'loop {k}', f'no longer a {kind.group(1)} loop')
                    continue
                text = text[kind.end():]
            if lp['kind'] == 'for':
                # a range loop may be verified with the name of its ghost iterator
                text = text
                if it: self.hook(self.before, lp['expr'], f'{it}: ')
            self.hook(self.before, lp['brace'], '\n' + R(text) + '\n', ('hint', self.key, f'loop {k}'))
        for a, text in c.ghost.items():
            if (self.key, a) in self.g.skipped: continue
            text = R(text)
            w = a.split()
            tag = ('hint', self.key, a)
            if a == 'entry':
                self.hook(self.after, b0, '\n' + text + '\n', tag)
            elif a == 'tail':
                self.hook(self.before, tail_start(t, b0, b1), text + '\n', tag)
            elif w[0] == 'loop':
                k = int(w[1])
                if k >= len(loops):
                    self.loosen(a, 'the loop is gone')
                    continue
                lp = loops[k]
                e = match_close(t, lp['brace'])
                if w[2] == 'begin': self.hook(self.after, lp['brace'], '\n' + text + '\n', tag)
                elif w[2] == 'end':
                    if t[e - 1].s not in (';', '{'): self.hook(self.before, e, ';')
                    self.hook(self.before, e, text + '\n', tag)
                elif w[2] == 'before': self.hook(self.before, lp['start'], text + '\n', tag)
                elif w[2] == 'after': self.hook(self.after, e, '\n' + text + '\n', tag)
            elif w[0] == 'after-call' or w[0] == 'before-call':
                # ghost code next to the statement with the n-th call of a function or method
                n = int(w[2]) if len(w) > 2 else 0
                cnt, pos = 0, None
                for q in range(b0 + 1, b1):
                    if t[q].k == 'id' and t[q].s == w[1]:
                        nx = q + 1
                        if t[nx].s == '::' : nx = nx  # turbofish
                        if t[nx].s in ('(', '::', '!'):
                            if cnt == n: pos = q; break
                            cnt += 1
                if pos is None:
                    self.loosen(a, 'the call is gone')
                    continue
                s, e = enclosing_stmt(t, b0, b1, pos)
                if w[0] == 'after-call': self.hook(self.after, e, '\n' + text + '\n', tag)
                else: self.hook(self.before, s, text + '\n', tag)
            else:
                raise ValueError(f'anchor {a}')

    # ---- emission
    def emit(self, i, j):
        t, f, out = self.t, self.f, self.out
        k = i
        first = True
        while k < j:
            if not first:
                ws = f.src[t[k - 1].b:t[k].a]
                # comments are dropped so that nothing in them can be read as an anchor
                out.src(f, t[k - 1].b, t[k].a) if '/' not in ws else out.gen(strip_comments(ws))
            first = False
            if k in self.skip:
                k += 1
                continue
            for s, tag in self.before.get(k, ()): out.gen(s, tag)
            n = self.rule(k, j)
            if n is None:
                out.src(f, t[k].a, t[k].b)
                for s, tag in self.after.get(k, ()): out.gen(s, tag)
                k += 1
            else:
                for s, tag in self.after.get(n - 1, ()): out.gen(s, tag)
                k = n

    def sub(self, i, j):
        self.emit(i, j)

    def rule(self, k, end):
        """applies a lowering rule at token k: index after the lowered tokens, or None"""
        t, out = self.t, self.out
        s = t[k].s
        prev = t[k - 1].s if k else ''
        if t[k].k == 'id':
            if prev in (';', '{', '}', '=>') or k == self.fn.body[0] + 1:
                n = self.str_add(k, end)
                if n is not None: return n
            if s == 'match':
                n = self.text_match(k, end)
                if n is not None: return n
            if k + 2 < end and t[k + 1].s == '!' and t[k + 2].s in ('(', '[', '{') and s in MACROS:
                return self.macro(k)
            if s in FOREIGN and t[k + 1].s == '::' and prev not in ('::', '.'):
                out.gen('crate::shim::' + s)
                return k + 1
            if k + 2 < end and t[k + 1].s == '::' and (s, t[k + 2].s) in PATHS and prev not in ('::', '.'):
                out.gen(PATHS[(s, t[k + 2].s)])
                return k + 3
            # Option::take() and Option::replace(x)
            if prev == '.' and s == 'take' and t[k + 1].s == '(' and t[k + 2].s == ')': return None
            if prev == '.' and s == 'replace' and t[k + 1].s == '(' and not any(t[x].s == ',' and depth0(t, k + 2, x) for x in range(k + 2, match_close(t, k + 1))): return None
            if prev == '.' and s in RENAME and t[k + 1].s in ('(', '::'):
                out.gen(RENAME[s])
                return k + 1
            if s == 'position' and prev == '.' and t[k + 1].s == '(' and t[k + 2].s == '|':
                out.gen('v_position')
                return k + 1
        if s == '&' and t[k + 1].s == 'mut' and t[k + 2].k == 'id':
            q = k + 3
            while t[q].s == '.' and t[q + 1].k == 'id': q += 2
            if t[q].s == '[':
                e = match_close(t, q)
                dots = [x for x in range(q + 1, e) if t[x].s == '..' and depth0(t, q + 1, x)]
                if len(dots) == 1 and (e + 1 >= len(t) or t[e + 1].s not in ('.', '[', '?')):
                    d = dots[0]
                    out.gen('crate::shim::slice_mut(&mut ')
                    self.sub(k + 2, q)
                    out.gen(', ')
                    if d > q + 1: self.sub(q + 1, d)
                    else: out.gen('0')
                    if d + 1 < e:
                        out.gen(', ')
                        self.sub(d + 1, e)
                        out.gen(')')
                    else:
                        raise Unsupported('open mutable range')
                    return e + 1
        if t[k].k == 'op' and s in ('|', '||') and closure_start(t, k):
            return self.closure(k, end)
        return None

    def text_match(self, k, end):
        """`match e { "A" | NAME => .., _ => .. }` on texts: the patterns become guards"""
        t, out = self.t, self.out
        o = k + 1
        while o < end and not (t[o].s == '{' and t[o].k == 'op'):
            o = match_close(t, o) + 1 if t[o].k == 'op' and t[o].s in '([' else o + 1
        if o >= end: return None
        e = match_close(t, o)
        arms, q, hit = [], o + 1, False
        while q < e:
            a = q
            if t[q].s == '|': q += 1
            p = q
            while t[q].s != '=>': q = match_close(t, q) + 1 if t[q].k == 'op' and t[q].s in '([{' else q + 1
            g = next((x for x in range(p, q) if t[x].s == 'if' and t[x].k == 'id'), q)
            alts, x = [], p
            for y in range(p, g + 1):
                if y == g or t[y].s == '|':
                    alts.append((x, y))
                    x = y + 1
            text = all(self.is_text(x, y) for x, y in alts)
            hit = hit or text
            arms.append((p, g, q, alts if text else None))
            # over the arm's expression
            q += 1
            if t[q].s == '{' and t[q].k == 'op':
                q = match_close(t, q) + 1
                if q < e and t[q].s == ',': q += 1
            else:
                while q < e and not (t[q].s == ',' and t[q].k == 'op'): q = match_close(t, q) + 1 if t[q].k == 'op' and t[q].s in '([{' else q + 1
                q += 1
        if not hit: return None
        out.gen('match ')
        self.sub(k + 1, o + 1)
        pos = o + 1
        for p, g, q, alts in arms:
            if alts is None: continue
            self.sub(pos, p)
            out.gen(' s__ if (')
            for n, (x, y) in enumerate(alts):
                out.gen((' || ' if n else '') + 'crate::shim::str_eq(s__, ')
                self.sub(x, y)
                out.gen(')')
            out.gen(')')
            if g < q:
                out.gen(' && (')
                self.sub(g + 1, q)
                out.gen(')')
            pos = q
        self.sub(pos, e + 1)
        return e + 1

    def is_text(self, x, y):
        t = self.t
        if y == x + 1 and t[x].k == 'str' and t[x].s.startswith('"'): return True
        return all(t[z].k == 'id' if (z - x) % 2 == 0 else t[z].s == '::' for z in range(x, y)) and (y - x) % 2 == 1 and t[y - 1].s in self.g.texts()

    def str_add(self, k, end):
        """`s += "text"` and `s += &text` on a String"""
        t, out = self.t, self.out
        q = k + 1
        while q + 1 < end and t[q].s == '.' and t[q + 1].k == 'id': q += 2
        if q + 1 >= end or t[q].s != '+=' or not (t[q + 1].k == 'str' or t[q + 1].s == '&'): return None
        e = q + 1
        while e < end and t[e].s not in (';', '}', ','):
            e = match_close(t, e) + 1 if t[e].k == 'op' and t[e].s in '([{' else e + 1
        out.gen('crate::shim::str_add(&mut ')
        self.sub(k, q)
        out.gen(', ')
        self.sub(q + 1, e)
        out.gen(')')
        return e

    def closure(self, k, end):
        t, out, f = self.t, self.out, self.f
        s = t[k].s
        n = self.closure_n
        self.closure_n += 1
        e = k + 1
        params = []
        if s == '|':
            while t[e].s != '|': e += 1
            params = [p for p in split_args(t, k + 1, e)]
            e += 1
        names, lets = [], []
        for a, b in params:
            if t[a].s == '&' and t[a + 1].k == 'id':
                names.append((t[a + 1].s, True, f.text(a + 2, b)))
            elif t[a].k == 'id' or t[a].s == '_':
                q = a + 1 if t[a].s == 'mut' else a
                names.append((t[q].s, False, f.text(q + 1, b)))
            elif t[a].s == '(':
                z = match_close(t, a)
                names.append((f'p__{len(names)}', False, f.text(z + 1, b)))
                lets.append(f'let {f.text(a, z + 1)} = p__{len(names) - 1}; ')
            else:
                raise Unsupported('closure pattern')
        hdr = self.c.closures.get(n) if self.c is not None else None
        if hdr is None and not lets and not any(x[1] or x[0] == '_' for x in names): return None
        if hdr is not None:
            m = self.g.renames.get(self.key)
            m2 = re.match(r'\s*\|(.*?)\|', hdr, re.S)
            cn = [x.split(':')[0].strip() for x in m2.group(1).split(',') if x.strip()]
            if len(cn) != len(names): raise Unsupported('closure parameters')
            out.gen(rename(hdr, m) if m else hdr, ('hint', self.key, f'closure {n}'))
        else:
            cn = [x[0] + '__r' if x[1] else 'x__' if x[0] == '_' else x[0] for x in names]
            out.gen('|' + ', '.join(c + x[2] for c, x in zip(cn, names)) + '|')
        if hdr is not None and any(x[0].startswith('p__') for x in names): raise Unsupported('closure pattern')
        for c, x in zip(cn, names):
            if x[1]: lets.append(f'let {x[0]} = *{c}; ')
            elif x[0] != c and x[0] != '_': lets.append(f'let {x[0]} = {c}; ')
        # a closure with a specification needs a block body
        b = e
        while b < end:
            if t[b].s in '([{' and t[b].k == 'op': b = match_close(t, b)
            elif t[b].s in (',', ')', ';', '}', ']') and t[b].k == 'op': break
            b += 1
        out.gen(' { ' + ''.join(lets))
        self.sub(e, b)
        out.gen(' }')
        return b

    def macro(self, k):
        t, out, f = self.t, self.out, self.f
        name = t[k].s
        e = match_close(t, k + 2)
        a, b = k + 3, e
        if name in ('unimplemented', 'todo', 'unreachable', 'panic'):
            if name == 'unimplemented' or name == 'todo':
                out.gen('crate::shim::v_unimplemented' + ('::<()>' if t[e + 1].s == ';' else '') + '()')
            else:
                out.gen('crate::shim::v_unreachable' + ('::<()>' if t[e + 1].s == ';' else '') + '()')
            return e + 1
        if name == 'vec':
            semi = [x for x in range(a, b) if t[x].s == ';' and depth0(t, a, x)]
            if semi:
                out.gen('crate::shim::vec_repeat(')
                self.sub(a, semi[0])
                out.gen(', ')
                self.sub(semi[0] + 1, b)
                out.gen(')')
                return e + 1
            return None
        if name in ('format', 'write', 'print', 'println', 'eprintln'):
            args = split_args(t, a, b)
            dest = None
            if name == 'write':
                dest = args[0]
                args = args[1:]
            if name in ('print', 'println', 'eprintln'):
                out.gen('()')
                return e + 1
            lit = t[args[0][0]]
            if lit.k != 'str': raise Unsupported('format string')
            pieces = parse_format(lit.s)
            pos, named = [], {}
            for x, y in args[1:]:
                if t[x].k == 'id' and t[x + 1].s == '=' and x + 1 < y:
                    named[t[x].s] = (x + 2, y)
                else:
                    pos.append((x, y))
            if dest is not None:
                self.sub(*dest)
                out.gen('.v_write(')
            out.gen('crate::shim::fmt_new()')
            nxt = 0
            def arg(nm):
                nonlocal nxt
                if nm == '':
                    r = pos[nxt]; nxt += 1
                    return r
                if nm.isdigit(): return pos[int(nm)]
                return named.get(nm, nm)
            def put(r):
                out.gen('&(')
                if isinstance(r, str): out.gen(r)
                else: self.sub(*r)
                out.gen(')')
            for p in pieces:
                if p[0] == 'lit':
                    out.gen('.lit("' + p[1] + '")')
                    continue
                _, nm, spec = p
                r = arg(nm)
                z = re.fullmatch(r'0(?:(\d+)|(\w+)\$)', spec)
                if spec == '':
                    out.gen('.disp('); put(r); out.gen(')')
                elif z:
                    out.gen('.zpad('); put(r); out.gen(', ')
                    if z.group(1): out.gen(z.group(1))
                    else:
                        w = arg(z.group(2))
                        if isinstance(w, str): out.gen(w)
                        else: self.sub(*w)
                    out.gen(')')
                else:
                    out.gen('.dbg('); put(r); out.gen(')')
            out.gen('.done())' if dest is not None else '.done()')
            return e + 1
        return None

    def signature(self, extra_ens=()):
        fn, t, f, out, c = self.fn, self.t, self.f, self.out, self.c
        g = self.g
        for a in (c.attrs if c else ()): out.gen(a + '\n')
        if self.key in g.nodec: out.gen('#[verifier::exec_allows_no_decreases_clause]\n')
        vis = '' if (self.im is not None and self.im.trait is not None and not g.is_iterator(self.im)) else 'pub '
        out.gen(vis)
        # fn name generics ( params )
        self.emit_sig(fn.fnpos, fn.paren[1] + 1)
        if fn.ret:
            if c is not None and c.ret:
                out.gen(f' -> ({c.ret}: ')
                self.emit_sig(*fn.ret)
                out.gen(')')
            else:
                out.gen(' -> ')
                self.emit_sig(*fn.ret)
        elif c is not None and c.ret:
            out.gen(f' -> ({c.ret}: ())')
        if fn.where:
            out.gen(' ')
            self.emit_sig(*fn.where)
        out.gen('\n')
        if c is not None:
            m = g.renames.get(self.key)
            for nm, cl in (('requires', c.requires), ('ensures', c.ensures)):
                if cl:
                    out.gen(f'    {nm}\n')
                    for lab, text in cl:
                        out.gen((rename(text, m) if m else text) + '\n', ('clause', self.key, nm, lab))
            if c.decreases: out.gen('    decreases ' + c.decreases + '\n')

    def emit_sig(self, i, j):
        if self.g.item_ty is not None:
            # Self::Item of the iterator implementations
            k = i
            while k < j:
                if self.t[k].s == 'Self' and self.t[k + 1].s == '::' and self.t[k + 2].s == 'Item':
                    self.out.gen(' ' + self.g.item_ty + ' ')
                    k += 3
                else:
                    self.emit(k, k + 1)
                    self.out.gen(' ')
                    k += 1
        else:
            self.emit(i, j)

    def run(self, degraded):
        out, fn, t, f = self.out, self.fn, self.t, self.f
        g = self.g
        tag0 = len(out.parts)
        if degraded or (self.c is not None and self.c.trusted):
            out.gen('#[verifier::external_body]\n')
            self.signature()
            out.gen('{ unimplemented!() }\n')
        else:
            if self.key in g.bodies:
                # inlined body (refactored helper put back)
                pass
            self.setup()
            if self.c is not None and self.key in (g.canary or ()):
                self.hook(self.after, fn.body[0], '\nassert(false);\n', ('canary', self.key))
            self.signature()
            self.emit(fn.body[0], fn.body[1] + 1)
            out.gen('\n')
        # remember the generated extent of this function
        g.extents.append((self.key, tag0, len(out.parts)))

def strip_comments(ws):
    return re.sub(r'//[^\n]*|/\*.*?\*/', '', ws, flags=re.S)

def rename(text, m):
    """names of values (x), fields (.x) and functions (x()) in an annotation, as the code has them now"""
    try: t = lex(text)
    except LexError: return text
    out, last = [], 0
    for x, r in zip(t, roles(t)):
        if r is None: continue
        v = f = x.s
        if r in ('', 'S'): v = m.get(x.s, x.s)
        if r in ('F', 'S'): f = m.get('.' + x.s, x.s)
        if r in ('C', 'P') or r == '' and v == x.s: v = f = m.get(x.s + '()', x.s)
        if r == 'C' and v == x.s: v = f = m.get(x.s, x.s) if x.a == 0 or text[x.a - 1] not in '.' else v
        new = f if r == 'F' else v if r != 'S' or v == f == x.s else f'{f}: {v}'
        if new == x.s: continue
        out.append(text[last:x.a] + new)
        last = x.b
    return ''.join(out) + text[last:]

def depth0(t, a, x):
    d = 0
    for q in range(a, x):
        if t[q].k == 'op':
            if t[q].s in '([{': d += 1
            elif t[q].s in ')]}': d -= 1
    return d == 0

def split_args(t, a, b):
    out, s, q = [], a, a
    while q < b:
        if t[q].k == 'op' and t[q].s in '([{': q = match_close(t, q)
        elif t[q].k == 'op' and t[q].s == ',':
            if q > s: out.append((s, q))
            s = q + 1
        q += 1
    if b > s: out.append((s, b))
    return out

def closure_start(t, k):
    p = t[k - 1]
    if p.k == 'op': return p.s in ('(', ',', '=', '=>', '{', ';', '[', '&&', '||', '&', '!')
    return p.s in ('return', 'move', 'else')

def find_loops(t, i, j):
    out = []
    k = i
    while k < j:
        s = t[k].s
        if t[k].k == 'id' and s in ('for', 'while', 'loop') and not (s == 'for' and t[k + 1].s == '<') and t[k - 1].s != '.':
            start = k
            if t[k - 1].s == ':' and t[k - 2].k == 'life': start = k - 2
            q = k + 1
            expr = None
            while t[q].s != '{':
                if t[q].k == 'op' and t[q].s in '([': q = match_close(t, q)
                elif s == 'for' and t[q].s == 'in' and expr is None: expr = q + 1
                q += 1
            out.append(dict(kind=s if not (s == 'while' and t[k + 1].s == 'let') else 'whilelet', start=start, brace=q, expr=expr, kw=k))
        k += 1
    return out

BLOCKY = ('if', 'match', 'for', 'while', 'loop', 'unsafe', '{')

def statements(t, b0, b1):
    """[(first, last)] token ranges of the statements of the block b0..b1 (braces); the tail expression included"""
    out = []
    k = b0 + 1
    while k < b1:
        s = k
        q = k
        blocky = t[k].s in BLOCKY or (t[k].k == 'life' and t[k + 1].s == ':')
        while q < b1:
            x = t[q]
            if x.k == 'op' and x.s in '([{':
                e = match_close(t, q)
                if blocky and x.s == '{':
                    nx = t[e + 1].s if e + 1 < b1 else ''
                    if nx == 'else' or nx in ('.', '?'):
                        q = e + 1
                        if nx in ('.', '?'): blocky = False
                        continue
                    if t[s].s == 'match' or True:
                        q = e
                        break
                q = e + 1
                continue
            if x.s == ';' and x.k == 'op': break
            q += 1
        q = min(q, b1 - 1)
        out.append((s, q))
        k = q + 1
        if k < b1 and t[k].s == ';' and t[q].s == '}':
            out[-1] = (s, k)
            k += 1
    return out

def tail_start(t, b0, b1):
    st = statements(t, b0, b1)
    if not st: return b1
    s, e = st[-1]
    if t[e].s == ';': return b1
    return s

def enclosing_stmt(t, b0, b1, pos):
    """innermost statement around token pos (of the innermost brace block that is not a struct literal / closure body)"""
    for s, e in statements(t, b0, b1):
        if s <= pos <= e:
            # go into nested blocks of control flow
            q = s
            while q < pos:
                if t[q].s == '{' and t[q].k == 'op':
                    c = match_close(t, q)
                    if q < pos < c and is_block(t, q):
                        return enclosing_stmt(t, q, c, pos)
                q += 1
            return s, e
    return b0 + 1, b1 - 1

def is_block(t, q):
    """'{' after ')' / else / loop headers / '=>' is a block; after an identifier (type name) it is a struct literal"""
    p = t[q - 1]
    if p.s in ('=>', 'else', 'loop', ')', 'unsafe', ';', '}', '{', '='): return True
    # header of if/while/for/match: look back for the keyword at depth 0
    k, d = q - 1, 0
    while k > 0:
        s = t[k].s
        if t[k].k == 'op':
            if s in ')]}': d += 1
            elif s in '([{':
                if d == 0: return False
                d -= 1
            elif s == ';' and d == 0: return False
        elif d == 0 and s in ('if', 'while', 'for', 'match') and t[k].k == 'id': return s != 'match'
        elif d == 0 and s in ('let', 'return'): 
            if s == 'return': return False
        k -= 1
    return False

class Gen:
    def __init__(self, crate, contracts, specfiles, degraded=(), dropped=(), canary=None, renames=None, bodies=None, only=None, nodec=(), skipped=()):
        self.crate, self.contracts = crate, contracts
        self.nodec = set(nodec)
        self.degraded, self.dropped = set(degraded), set(dropped)
        self.canary = canary
        self.renames = renames or {}
        self.bodies = bodies or {}
        self.out = Out()
        self.extents = []
        self.skipped, self.loose = set(skipped), {}      # annotations left out
        self.lost = {}        # function key -> reason (anchor lost / unsupported)
        self.notes = []
        self.item_ty = None
        self.specfiles = specfiles
        self.text_names = None
        self.seen = set()
        self.enum_derives = {}

    def texts(self):
        """names of the constants that are texts"""
        if self.text_names is None:
            self.text_names = set()
            def walk(items):
                for it in items or ():
                    if it.kind == 'const' and re.search(r":\s*&\s*('static\s+)?str\b", it.f.text(it.start, it.end)): self.text_names.add(it.name)
                    elif it.kind in ('mod', 'impl'): walk(it.items)
            for m in self.crate.mods: walk(m.items)
        return self.text_names

    def is_iterator(self, im):
        return im.trait is not None and im.trait.strip().split('::')[-1] == 'Iterator'

    def generate(self):
        o = self.out
        o.gen('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_snake_case, unused_assignments, unreachable_code)]\n')
        o.gen('use vstd::prelude::*;\n')
        for name, text in self.specfiles:
            o.gen(text + '\n', ('spec', name))
        root = self.crate.mods[0]
        self.module_body(root, root.items)
        o.gen('\nfn main() {}\n')
        text, info, tags = o.render()
        # lines of the functions
        ln, pos = 1, 0
        starts = []
        for s, f, off, tag in o.parts:
            starts.append(ln)
            ln += s.count('\n')
        starts.append(ln)
        self.fnlines = [(k, starts[a], starts[b]) for k, a, b in self.extents]
        return text, info, tags

    def module_body(self, entry, items):
        o = self.out
        uses, rest = [], []
        for it in items:
            if is_test(it.attrs): continue
            (uses if it.kind in ('use', 'moddecl', 'mod') else rest).append(it)
        o.gen('use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n')
        for it in uses:
            if it.kind == 'use': self.use(it)
        for it in uses:
            if it.kind == 'moddecl':
                ch = [c for c in entry.children if c.modpath[-1] == it.name]
                if not ch: continue
                o.gen(f'pub mod {it.name} {{\n')
                self.module_body(ch[0], ch[0].items)
                o.gen('}\n')
            elif it.kind == 'mod':
                o.gen(f'pub mod {it.name} {{\n')
                from vf.index import Item
                self.module_body(Item(children=[], modpath=entry.modpath + (it.name,), f=entry.f), it.items)
                o.gen('}\n')
        if rest:
            # slices of slices: only where they may occur, the decimals are heavy enough
            more = '' if 'row_events' in entry.modpath else 'crate::shim::part_of_part, '
            o.gen('verus! {\nbroadcast use {%scrate::shim::group_shim, crate::bits::group_bits, vstd::group_vstd_default};\n' % more)
            for it in rest: self.item(entry, it)
            o.gen('} // verus!\n')

    def use(self, it):
        f, t = it.f, it.f.t
        o = self.out
        o.gen('#[allow(unused_imports)] pub ')
        k = it.start
        if t[k].s == 'pub':
            k = it.vis[1]
        o.gen('use ')
        k += 1
        s = ''
        while k < it.end:
            x = t[k]
            if x.s in FOREIGN and t[k + 1].s == '::' and t[k - 1].s in ('use', ',', '{', '::') and (t[k - 1].s == 'use'):
                s += 'crate::shim::' + x.s
            elif x.s == 'as':
                s += ' as '
            else:
                s += x.s
            k += 1
        o.gen(s + '\n')

    def item(self, entry, it):
        o, f, t = self.out, it.f, it.f.t
        if it.kind == 'fn':
            self.fn('::'.join(entry.modpath + (it.name,)), entry.modpath, None, it)
        elif it.kind in ('struct', 'enum'):
            self.type_item(entry, it)
        elif it.kind == 'const' or it.kind == 'static':
            p = it.vis[1] if it.vis else it.start
            body = f.text(p, it.end)
            if re.search(r'=\s*.*\w\(', body, re.S):
                text = lower_paths(t, f, p, it.end)
                m = re.match(r'(.*?)=(.*);\s*$', text, re.S)
                if set(re.findall(r'([\w:]+)\s*\(', m.group(2))) <= {'Duration::from_secs', 'Duration::from_millis'}:
                    # these calls have a meaning in specifications too
                    o.gen('pub exec ' + m.group(1) + f'ensures {it.name} =={m.group(2)} {{' + m.group(2) + '}\n')
                else:
                    o.gen('#[verifier::external_body] pub exec ' + m.group(1) + 'ensures true {' + m.group(2) + '}\n')
            else:
                o.gen('pub ')
                o.gen(re.sub(r'&\s*str\b', "&'static str", lower_paths(t, f, p, it.end), count=1) + '\n')
        elif it.kind == 'type':
            o.gen('pub ' + lower_paths(t, f, it.vis[1] if it.vis else it.start, it.end) + '\n')
        elif it.kind == 'impl':
            self.impl(entry, it)
        elif it.kind == 'trait':
            o.gen('pub ' + lower_paths(t, f, it.vis[1] if it.vis else it.start, it.end) + '\n')
        else:
            self.notes.append(f'item dropped: {it.kind} {it.name} in {"::".join(entry.modpath)}')

    def type_item(self, entry, it):
        o, f, t = self.out, it.f, it.f.t
        derives = []
        for a in it.attrs:
            m = re.match(r'#\s*\[\s*derive\s*\((.*)\)\s*\]', a, re.S)
            if m: derives += [x.strip() for x in m.group(1).split(',') if x.strip()]
        keep = []
        if 'PartialEq' in derives: keep += ['PartialEq', 'Structural']
        if 'Eq' in derives: keep.append('Eq')
        copy = 'Copy' in derives
        if copy: keep += ['Clone', 'Copy']
        if keep: o.gen(f'#[derive({", ".join(keep)})]\n')
        p = it.vis[1] if it.vis else it.start
        o.gen('pub ')
        if it.kind == 'struct' and it.body and t[it.body[0]].s == '{':
            o.gen(lower_paths(t, f, p, it.body[0] + 1) + '\n')
            for a, b in split_commas(t, it.body[0] + 1, it.body[1]):
                while t[a].s == '#': a = match_close(t, a + 1) + 1
                if t[a].s == 'pub':
                    a += 1
                    if t[a].s == '(': a = match_close(t, a) + 1
                o.gen('    pub ' + lower_paths(t, f, a, b) + ',\n')
            o.gen('}\n')
        else:
            o.gen(lower_paths(t, f, p, it.end) + '\n')
        if 'Clone' in derives and not copy:
            name = it.name
            o.gen(f'impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n')

    def impl(self, entry, im):
        o, f, t = self.out, im.f, im.f.t
        trait = im.trait
        gen = lower_paths(t, f, *im.gen) if im.gen[1] > im.gen[0] else ''
        ty = im.selfty.strip()
        self.item_ty = None
        if trait is not None and self.is_iterator(im):
            for x in im.items:
                if x.kind == 'type': 
                    m = re.search(r'=(.*);', f.text(x.start, x.end), re.S)
                    self.item_ty = m.group(1).strip()
            o.gen(f'impl{gen} {ty} {{\n')
        elif trait is not None:
            tr = trait.strip()
            tr = re.sub(r'^(std|core)::', 'crate::shim::std::', tr)
            if tr in ('Clone', 'PartialEq', 'Eq', 'Default', 'Drop', 'Debug', 'fmt::Debug', 'std::fmt::Debug', 'Hash', 'Ord', 'PartialOrd') or tr.endswith('::Debug'):
                if tr.endswith('Debug'):
                    self.notes.append(f'impl dropped: {tr} for {ty}')
                    return
            o.gen(f'impl{gen} {tr} for {ty} {{\n')
            short = tr.split('::')[-1]
            extra = self.contracts.extras.get(short + ' ' + '::'.join(entry.modpath + (ty,)))
            if short == 'Display' and extra is None:
                extra = 'open spec fn disp(&self) -> Seq<char> { arbitrary() }'
                for x in im.items:
                    if x.kind == 'fn': self.degraded.add('::'.join(entry.modpath + (impl_name(im), x.name)))
            if extra: o.gen(extra + '\n')
        else:
            o.gen(f'impl{gen} {ty} {{\n')
        for x in im.items:
            if is_test(x.attrs): continue
            if x.kind == 'fn':
                self.fn('::'.join(entry.modpath + (impl_name(im), x.name)), entry.modpath, im, x)
            elif x.kind == 'type' and self.item_ty is None:
                o.gen(lower_paths(t, f, x.start, x.end) + '\n')
            elif x.kind == 'const':
                o.gen('pub ' + lower_paths(t, f, x.vis[1] if x.vis else x.start, x.end) + '\n')
        o.gen('}\n')
        self.item_ty = None


    def fn(self, key, mp, im, it):
        c = self.contracts.get(key)
        if key in self.dropped: c = None
        self.seen.add(key)
        deg = key in self.degraded
        mark = len(self.out.parts)
        em = len(self.extents)
        fg = FnGen(self, key, mp, im, it, c)
        try:
            fg.run(deg)
        except (Unsupported, LexError, IndexError, ValueError) as e:
            del self.out.parts[mark:]
            del self.extents[em:]
            self.lost[key] = str(e)
            fg = FnGen(self, key, mp, im, it, c)
            fg.run(True)

def lower_paths(t, f, i, j):
    s = ''
    for k in range(i, j):
        if k > i: s += strip_comments(f.src[t[k - 1].b:t[k].a])
        if t[k].k == 'id' and t[k].s in FOREIGN and k + 1 < j and t[k + 1].s == '::' and (k == i or t[k - 1].s not in ('::', '.')):
            s += 'crate::shim::' + t[k].s
        else:
            s += t[k].s
    return s
