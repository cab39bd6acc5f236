"""Puts functions that the baseline doesn't know (helpers split off from contracted functions) back into their callers,
so that the contract of the caller is checked against the code that runs. What can't be put back stays a call."""
import re
from vf.index import Crate, is_test, split_commas
from vf.lexer import match_close
from vf.gen import statements, split_args, is_block

class No(Exception):
    pass

def inline(root, known, keep, rounds=5):
    """crate with helpers put back; `known`: functions of the baseline, `keep`: new functions that have a contract"""
    crate = Crate(root)
    overlay, done = {}, {}
    n = 0
    for _ in range(rounds):
        fns = list(crate.fns())
        new = {}
        for k, mp, im, fn in fns:
            if k in known or k in keep or fn.body is None: continue
            if im is not None and im.trait is not None: continue
            new[k] = (mp, im, fn)
        if not new: break
        names = {}
        for k, v in new.items(): names.setdefault(v[2].name, []).append(k)
        edits = {}
        for k, mp, im, fn in fns:
            if fn.body is None or k in new: continue
            for a, b, text, h in calls(crate, k, mp, im, fn, new, names, n):
                edits.setdefault(fn.f.path, []).append((a, b, text))
                done.setdefault(h, set()).add(k)
                n += 1
        # helpers that only helpers use are put into these first
        for k, (mp, im, fn) in new.items():
            if edits: break
            for a, b, text, h in calls(crate, k, mp, im, fn, new, names, n):
                if h == k: continue
                edits.setdefault(fn.f.path, []).append((a, b, text))
                n += 1
        if not edits: break
        for path, es in edits.items():
            s = next(m.f.src for m in crate.mods if m.f.path == path)
            last = len(s) + 1
            for a, b, text in sorted(es, reverse=True):
                if b > last: continue        # a call in the arguments of another one: next round
                s = s[:a] + text + s[b:]
                last = a
            overlay[path] = s
        crate = Crate(root, overlay)
    return crate, {k: sorted(v) for k, v in done.items()}

def calls(crate, key, mp, im, fn, new, names, n):
    """[(from, to, text, helper)] of the calls in fn that can be replaced"""
    t, f = fn.f.t, fn.f
    b0, b1 = fn.body
    out = []
    q = b0 + 1
    while q < b1:
        x = t[q]
        if x.k == 'id' and x.s in names and t[q + 1].s == '(' and t[q - 1].s != 'fn':
            for h in names[x.s]:
                try: r = one(key, mp, im, fn, q, h, *new[h], n + len(out))
                except No: continue
                if r:
                    out.append(r + (h,))
                    q = match_close(t, q + 1)
                    break
        q += 1
    return out

def one(key, mp, im, fn, q, h, hmp, him, hf, n):
    t, f = fn.f.t, fn.f
    if h == key or hmp != mp or hf.f is not f: return None
    if hf.gen is not None and re.sub(r"[<>,\s]|'\w+", '', f.text(*hf.gen)): return None
    if hf.where is not None: return None
    T = t[hf.body[0]:hf.body[1] + 1]
    start = q
    method = False
    if t[q - 1].s == '.':
        if t[q - 2].s != 'self' or t[q - 3].s in ('.', '::') or him is None or im is None or him.selfty != im.selfty: return None
        method = True
        start = q - 2
    elif t[q - 1].s == '::':
        start = q - 2
        if t[start].s not in ('Self', 'self') and (him is None or t[start].s != him.selfty.split('<')[0].strip()): return None
        if t[start - 1].s == '::': return None
        if him is not None and (im is None or im.selfty != him.selfty) and any(x.s == 'Self' for x in t[hf.start:hf.end]): return None
    elif him is not None: return None
    end = match_close(t, q + 1)
    args = split_args(t, q + 2, end)
    params = hf.params
    if params and any(x.s == 'self' for x in t[params[0][0]:params[0][1]]) and not any(x.s == ':' for x in t[params[0][0]:params[0][1]]):
        if not method: return None
        if t[params[0][0]].s != '&': return None
        params = params[1:]
    elif method: return None
    if len(params) != len(args): return None
    b0, b1 = hf.body
    ret = f.text(*hf.ret) if hf.ret else '()'
    cret = f.text(*fn.ret) if fn.ret else '()'
    body = early(t, f, b0, b1)
    returns = len(re.findall(r'\breturn\b', strip(body)))
    tries = '?' in [x.s for x in T]
    after = t[end + 1].s
    a, b = t[start].a, t[end].b
    tail = same(ret, cret) and (t[start - 1].s == 'return' or is_tail(t, fn, start, end))
    if (returns or tries) and not tail:
        if after != '?' or not re.match(r'(io\s*::\s*|std\s*::\s*io\s*::\s*)?Result\b', ret): return None
        # what leaves early has to leave the caller too
        if returns != len(re.findall(r'\breturn\s+Err\b', strip(body))): return None
    if (returns or tries) and in_closure(t, fn, start): return None
    lets = ''
    names = [(f.text(pa, next(i for i in range(pa, pb) if t[i].s == ':')), f.text(aa, ab)) for (pa, pb), (aa, ab) in zip(params, args)]
    own = {p for p, a in names if p == a}        # the argument is called like the parameter: nothing to bind
    for k, ((pa, pb), (aa, ab)) in enumerate(zip(params, args)):
        if names[k][0] in own: continue
        c = next(i for i in range(pa, pb) if t[i].s == ':')
        ty = plain(f.text(c + 1, pb))
        if re.search(r'\b(impl|dyn)\b', ty): return None
        lets += f'let a{n}_{k}__: {ty} = {names[k][1]}; '
    for k, (pat, _) in enumerate(names):
        if pat != '_' and pat not in own: lets += f'let {pat} = a{n}_{k}__; '
    if tail and (returns or tries): text = '{ ' + lets + body + ' }'
    elif ret == '()': text = '{ ' + lets + body + ' }'
    elif returns or tries or re.match(r'(\w+\s*::\s*)*(Result|Option|Vec)\b', ret): text = '{ ' + lets + f'let r{n}__: {plain(ret)} = {{ ' + body + f' }}; r{n}__ }}'
    else: text = '{ ' + lets + body + ' }'
    # a block at the start of a statement is a statement
    if t[start - 1].s in (';', '{', '}') and after in ('?', '.') : text = '(' + text + ')'
    elif t[start - 1].s not in (';', '{', '}', '=>', '='): text = '(' + text + ')'
    return a, b, text

def same(a, b): return re.sub(r'\s', '', plain(a)) == re.sub(r'\s', '', plain(b))
def plain(ty): return re.sub(r"'\w+\s*(?![\w'])", '', ty).replace('<>', '') if "<'" not in ty else re.sub(r"(?<=&)\s*'\w+\s*", '', re.sub(r"<\s*'\w+\s*>", "<'_>", ty))
def strip(s): return re.sub(r'"(?:\\.|[^"\\])*"', '""', re.sub(r'//[^\n]*|/\*.*?\*/', '', s, flags=re.S))

def early(t, f, b0, b1):
    """the body; `if c { ..; return v; } rest` becomes `if c { ..; v } else { rest }`"""
    st = statements(t, b0, b1)
    out, close = '', ''
    pos = t[b0].b
    for s, e in st:
        if t[s].s == 'if' and t[e].s == '}' and (s, e) != st[-1]:
            o = s
            while t[o].s != '{' or t[o].k != 'op': o = match_close(t, o) + 1 if t[o].k == 'op' and t[o].s in '([' else o + 1
            if match_close(t, o) == e:
                inner = statements(t, o, e)
                if inner and t[inner[-1][0]].s == 'return':
                    rs, re_ = inner[-1]
                    out += f.src[pos:t[rs].a] + f.src[t[rs].b:t[re_].a if t[re_].s == ';' else t[re_].b] + f.src[t[re_].b:t[e].b] + ' else {'
                    pos = t[e].b
                    close += '}'
    if st and t[st[-1][0]].s == 'return':
        s, e = st[-1]
        out += f.src[pos:t[s].a] + f.src[t[s].b:t[e].a if t[e].s == ';' else t[e].b]
        pos = t[e].b
    return out + f.src[pos:t[b1].a] + close

def opener(t, q):
    d = 0
    while q >= 0:
        if t[q].k == 'op':
            if t[q].s in ')]}': d += 1
            elif t[q].s in '([{':
                d -= 1
                if d == 0: return q
        q -= 1
    return None

def is_tail(t, fn, s, e):
    """the expression s..e is what the function returns"""
    b0, b1 = fn.body
    for _ in range(20):
        if t[s - 1].s not in (';', '{', '}', '=>'): return False
        nx = e + 1
        arm = t[s - 1].s == '=>'
        if t[nx].s == ',' and arm:
            d = 0
            while True:
                if t[nx].k == 'op':
                    if t[nx].s in '([{': nx = match_close(t, nx)
                    elif t[nx].s == '}': break
                nx += 1
        elif arm and t[nx].s != '}' and t[e].s == '}':
            while t[nx].s != '}' or t[nx].k != 'op':
                nx = match_close(t, nx) + 1 if t[nx].k == 'op' and t[nx].s in '([{' else nx + 1
        if t[nx].s != '}': return False
        if nx == b1: return True
        o = opener(t, nx)
        # the expression that the block belongs to
        k = o - 1
        if arm or t[k].s not in ('=>', 'else'):
            d = 0
            while k > b0 and not (d == 0 and (t[k].s in ('if', 'match', 'loop', 'while', 'for', 'unsafe') and t[k].k == 'id' or t[k].k == 'op' and t[k].s in ';{}')):
                if t[k].k == 'op':
                    if t[k].s in ')]': d += 1
                    elif t[k].s in '([': d -= 1
                k -= 1
            if t[k].s not in ('if', 'match'): return False
            head = k
        elif t[k].s == '=>':
            s, e = o, nx
            continue
        else:
            head = k
        # back over else chains
        while t[head - 1].s == 'else' or t[head].s == 'else':
            p = head - 1 if t[head].s == 'else' else head - 2
            if t[p].s != '}': return False
            o2 = opener(t, p)
            k = o2 - 1
            while k > b0 and not (t[k].k == 'id' and t[k].s == 'if'):
                if t[k].k == 'op' and t[k].s in ';{}': return False
                k -= 1
            head = k
        e = nx
        while t[e + 1].s == 'else':
            q = e + 2
            while t[q].s != '{' or t[q].k != 'op': q = match_close(t, q) + 1 if t[q].k == 'op' and t[q].s in '([' else q + 1
            e = match_close(t, q)
        s = head
    return False

def in_closure(t, fn, s):
    from vf.gen import closure_start
    b0, b1 = fn.body
    q = b0 + 1
    while q < s:
        if t[q].k == 'op' and t[q].s in ('|', '||') and closure_start(t, q):
            e = q + 1
            if t[q].s == '|':
                while t[e].s != '|': e += 1
                e += 1
            b = e
            while b < b1:
                if t[b].s in '([{' and t[b].k == 'op': b = match_close(t, b)
                elif t[b].s in (',', ')', ';', '}', ']') and t[b].k == 'op': break
                b += 1
            if e <= s < b: return True
        q += 1
    return False
