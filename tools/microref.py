"""microref.py [kinds]: generic rewritings that keep the behaviour, one site per function and run; none may raise an alarm"""
import sys, os, re, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf import verify
from vf.index import Crate
from vf.lexer import lex, roles, match_close
import check
A = r'(?<![.\])])(?:self\.)?[a-z_]\w*(?:\.[a-z_]\w*(?:\(\))?|\.\d)*(?:\[\w+\])?'
N = r'(?:0x[0-9A-Fa-f]+|\d+)'
X = f'(?:{A}|{N})'
P = r'(?<=[\s(])(?<![-+*/%&|<>=] )'
PC = r'(?:(?<=if )|(?<=\|\| )|(?<=&& )|(?<=while ))'
E_ = r'(?=\s*(?:\{|\)|;|&&|\|\|))'
EX = r'(?=\s*(?:\)|;|\]|,))'
flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
neg = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}
K = {
 'flip': (PC + f'({X}) (==|!=|<=|>=|<|>) ({X})' + E_, lambda m: f'{m[3]} {flip[m[2]]} {m[1]}'),
 'negate': (PC + f'({X}) (==|!=|<=|>=|<|>) ({X})' + E_, lambda m: f'!({m[1]} {neg[m[2]]} {m[3]})'),
 'assign-op': (rf'\b({A}) ([-+*|&^])= ([^;{{}}]+);', lambda m: f'{m[1]} = {m[1]} {m[2]} ({m[3]});'),
 'vec-macro': (r'Vec::new\(\)', lambda m: 'vec![]'),
 'is-empty': (rf'({A})\.is_empty\(\)', lambda m: f'({m[1]}.len() == 0)'),
 'alias': (r'let ([a-z]\w*) = ([^;{}]+);', lambda m: f'let {m[1]}_first = {m[2]}; let {m[1]} = {m[1]}_first;'),
 'noop': (r'^\s*\{', lambda m: m[0] + ' let _nothing = 0u8; '),
 'noop-loop': (r'\b(?:for [^{};]+|while [^{};]+|loop )\{', lambda m: m[0] + ' let _nothing = 0u8; '),
 'question': (r'let (mut )?([a-z]\w*) = ([^;{}]+)\?;', lambda m: f'let {m[1] or ""}{m[2]} = match {m[3]} {{ Ok(value) => value, Err(error) => return Err(error.into()) }};'),
 'question-stmt': (r'(?<=[;{}]\n)(\s+)([a-z][^;{}=]+)\?;', lambda m: f'{m[1]}if let Err(error) = {m[2]} {{ return Err(error.into()); }}'),
 'swap-and': (rf'\b({A}) ([&|+*]) ({N})' + EX, lambda m: f'{m[3]} {m[2]} {m[1]}'),
 'hex': (r'\b0x([0-9A-F]+)\b', lambda m: str(int(m[1], 16))),
 'unhex': (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: hex(int(m[1]))),
 'tail': (r'\n(\s+)Ok\((.*)\)\n(\s*)\}\s*$', lambda m: f'\n{m[1]}return Ok({m[2]});\n{m[3]}}}'),
 'tail-let': (r'\n(\s+)Ok\((.*)\)\n(\s*)\}\s*$', lambda m: f'\n{m[1]}let outcome = {m[2]};\n{m[1]}Ok(outcome)\n{m[3]}}}'),
 'if-let': (r'if let Some\((\w+)\) = ([^{}]+) \{([^{}]*)\}(?!\s*else)', lambda m: f'match {m[2]} {{ Some({m[1]}) => {{{m[3]}}} None => {{}} }}'),
 'shorthand': (r'(?<=[{,])(\s+)([a-z]\w*),(?=\s*(?:[a-z]\w*[,:]|\}))', lambda m: f'{m[1]}{m[2]}: {m[2]},'),
 'else-block': (r'else if ([^{}]+) \{([^{}]*)\}(?!\s*else)', lambda m: f'else {{ if {m[1]} {{{m[2]}}} }}'),
 'as-paren': (rf'\b({A}) as (\w+)', lambda m: f'({m[1]}) as {m[2]}'),
 'from': (rf'\b({A}) as (u16|u32|u64|usize)', lambda m: f'{m[2]}::from({m[1]})'),
 'loop-while': (r'\bloop \{', lambda m: 'while true {'),
 'to-vec': (r'\.to_vec\(\)', lambda m: '[..].to_vec()'),
 'const': (r'^\s*\{((?:.|\n)*?)(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: '{ const LIMIT_HERE: usize = %s;%sLIMIT_HERE' % (m[2], m[1])),
 'return-else': (r'\n(\s+)if ([^{};]+) \{\s*return ([^;{}]+);\s*\}\n((?:[^{}]|\{[^{}]*\})*)\}\s*$', lambda m: f'\n{m[1]}if {m[2]} {{ return {m[3]}; }} else {{\n{m[4]}}} }}'),
 'early-block': (r'let ([a-z]\w*) = ([^;{}]+);', lambda m: f'let {m[1]} = {{ {m[2]} }};'),
 'shift-mul': (r'\b(\w+) \* 8\b', lambda m: f'({m[1]} << 3)'),
 'range-incl': (r'for (\w+) in 0\.\.(\w+) \{', lambda m: f'for {m[1]} in (0..{m[2]}).into_iter() {{'),
 'into-string': (r'\.to_string\(\)', lambda m: '.to_owned()'),
 'string-from': (r'("[^"]*")\.to_string\(\)', lambda m: f'String::from({m[1]})'),
 'borrow-slice': (rf'&({A})\[\.\.\]', lambda m: f'{m[1]}.as_slice()'),
 'comparison-to-zero': (rf'({A}) > 0\b', lambda m: f'{m[1]} != 0'),
 'extend': (rf'({A})\.extend\(', lambda m: f'{m[1]}.extend_from_slice(&'),
 'ok-or': (r'\.ok_or_else\(\|\| ([^()]*(?:\([^()]*(?:\([^()]*\))?[^()]*\))?)\)', lambda m: f'.ok_or({m[1]})'),
 'let-unit': (r';\n(\s+)(let )', lambda m: f';\n{m[1]}();\n{m[1]}{m[2]}'),
}
def blocks(body):
    """(kind, start of the statement, start of head, '{', '}') of for loops and if/else of a function, as offsets"""
    t = lex(body)
    out = []
    for i, x in enumerate(t):
        if x.s not in ('for', 'if', 'while') or x.k == 'str': continue
        j = i + 1
        d = 0
        while t[j].s != '{' or d:
            if t[j].s in '([': d += 1
            elif t[j].s in ')]': d -= 1
            j += 1
        e = match_close(t, j)
        head = body[t[i + 1].a:t[j].a].strip()
        inner = body[t[j].b:t[e].a]
        if x.s == 'for':
            m = re.match(r'(\w+) in ([^.]+(?:\.\w+)*)\.\.([^=].*)$', head)
            if m and not re.search(r'\bcontinue\b', inner):
                n = m[1]
                out.append(('for-while', x.a, t[e].b, f'let mut {n} = {m[2]}; while {n} < {m[3]} {{{inner}\n {n} += 1; }}'))
            out.append(('for-block', x.a, t[e].b, f'for {head} {{ {{{inner}}} }}'))
        elif x.s == 'while' and not head.startswith('let '):
            out.append(('while-loop', x.a, t[e].b, f'loop {{ if !({head}) {{ break; }} {inner} }}'))
        elif not head.startswith('let ') and t[i - 1].s != 'else':
            if t[e + 1].s == 'else' and t[e + 2].s == '{':
                e2 = match_close(t, e + 2)
                other = body[t[e + 2].b:t[e2].a]
                out.append(('invert', x.a, t[e2].b, f'if !({head}) {{{other}}} else {{{inner}}}'))
                out.append(('match-bool', x.a, t[e2].b, f'match {head} {{ true => {{{inner}}} false => {{{other}}} }}'))
                out.append(('condition-let', x.a, t[e2].b, f'{{ let condition = {head}; if condition {{{inner}}} else {{{other}}} }}'))
            elif t[e + 1].s != 'else':
                out.append(('empty-then', x.a, t[e].b, f'if !({head}) {{ }} else {{{inner}}}'))
                out.append(('condition-let', x.a, t[e].b, f'let condition = {head}; if condition {{{inner}}}'))
                m = re.match(r'([^&|]+) && (.*)$', head, re.S)
                if m and m[1].count('(') == m[1].count(')'): out.append(('nested', x.a, t[e].b, f'if {m[1]} {{ if {m[2]} {{{inner}}} }}'))
    return out
BLOCKS = ('for-while', 'for-block', 'while-loop', 'invert', 'match-bool', 'condition-let', 'empty-then', 'nested')
def wrap(body, sig, name):
    """the whole body as a helper"""
    t = lex(sig)
    i = next(k for k, x in enumerate(t) if x.s == 'fn')
    if t[i + 2].s != '(': return None
    e = match_close(t, i + 2)
    args, selfarg, d, start = [], False, 0, i + 3
    parts, cur = [], []
    for x in t[i + 3:e]:
        if x.s in ('(', '[', '<'): d += 1
        elif x.s in (')', ']', '>'): d -= 1
        if x.s == ',' and d == 0:
            parts.append(cur); cur = []
        else: cur.append(x)
    if cur: parts.append(cur)
    for c in parts:
        w = [x.s for x in c if x.s not in ('&', 'mut') and not x.s.startswith("'")]
        if w[0] == 'self': selfarg = True
        else: args.append(w[0])
    inner = sig[t[i].a:].replace(t[i + 1].s, name + '_inner', 1)
    return ('self.' if selfarg else 'SELF') + f'{name}_inner(' + ', '.join(args) + ')', inner + body
def rename_locals(body, sig):
    names = sorted(set(re.findall(r'\blet (?:mut )?([a-z]\w{2,}) ?[:=]', body)))
    return [n for n in names if not re.search(r'\b%s\s*:' % n, sig)]
def sites(kind, body, sig):
    if kind == 'rename':
        return [None] if rename_locals(body, sig) else []
    if kind in BLOCKS: return [x for x in blocks(body) if x[0] == kind]
    rx, _ = K[kind]
    return list(re.finditer(rx, body, re.M if kind not in ('noop', 'tail', 'tail-let', 'const', 'return-else') else 0))
def rename_all(body, names):
    t = lex(body)
    out, last = [], 0
    for x, r in zip(t, roles(t)):
        if x.s not in names or r not in ('', 'S'): continue
        out.append(body[last:x.a] + (x.s + ': ' if r == 'S' else '') + x.s + '_here')
        last = x.b
    return ''.join(out) + body[last:]
def rewrite(kind, body, j, sig):
    if kind == 'rename': return rename_all(body, rename_locals(body, sig))
    m = sites(kind, body, sig)[j]
    if kind in BLOCKS: return body[:m[1]] + m[3] + body[m[2]:]
    return body[:m.start()] + K[kind][1](m) + body[m.end():]
if __name__ == '__main__':
    kinds = [a for a in sys.argv[1:] if not a.startswith('--')] or list(K) + list(BLOCKS) + ['rename', 'wrap']
    per = int(os.environ.get('SITES', '3'))
    wt = '/tmp/microref'
    for kind in kinds:
        for j in range(per):
            shutil.rmtree(wt, ignore_errors=True)
            subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
            edits = {}
            for key, _, im, fn in Crate(wt).fns():
                f = fn.f
                if not fn.body: continue
                b1 = fn.body[1] if f.t[fn.body[1]].s == '}' else fn.body[1] - 1
                a, b = f.t[fn.body[0]].a, f.t[b1].b
                assert f.src[a] == '{' and f.src[b - 1] == '}'
                body, sig = f.src[a:b], f.src[f.t[fn.start].a:a]
                if kind == 'wrap':
                    w = wrap(body, sig, fn.name) if j == 0 and (im is None or im.trait is None) else None
                    if w: edits.setdefault(f.path, []).append((a, b, '{ ' + w[0].replace('SELF', 'Self::' if im is not None else '') + ' }\n' + w[1], key))
                    continue
                if j >= len(sites(kind, body, sig)): continue
                new = rewrite(kind, body, j, sig)
                if new != body: edits.setdefault(f.path, []).append((a, b, new, key))
            n = sum(len(v) for v in edits.values())
            if not n: break
            for p, es in edits.items():
                s = open(p, encoding='utf-8').read()
                for a, b, new, key in sorted(es, reverse=True): s = s[:a] + new + s[b:]
                open(p, 'w', encoding='utf-8').write(s)
            res = verify.run(wt, wt, threads=8)
            print(f'== {kind} {j}: {n} functions', 'fatal ' + res.fatal if res.fatal else '', f'{res.wall:.0f} s', flush=True)
            if res.fatal: continue
            for k, v in res.loose.items(): print('   left out', k, str(v)[:150])
            for k, v in res.degraded.items(): print('   bounded', k, v[:230])
            for x in res.failures:
                if x['labels']: print('   HARD' if check.hard(x, res) else '   soft', x['fn'], x['kind'], x['message'][:60], x['clause'], (x.get('at') or '')[:100], flush=True)
    shutil.rmtree(wt, ignore_errors=True)
