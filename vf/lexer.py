"""A small Rust lexer: enough to find items, function bodies, loops, closures and macros exactly."""
import re

class Tok:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return f'{self.k}:{self.s!r}'

class LexError(Exception):
    pass

_ident = re.compile(r"r#[A-Za-z_]\w*|[A-Za-z_]\w*")
_num = re.compile(r"0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?|0o[0-7_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:[iuf](?:8|16|32|64|128|size))?")
_ops = ['<<=', '>>=', '...', '..=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']

def lex(src):
    """Tokens of src without white space and comments (doc comments dropped as well)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError('raw string')
            out.append(Tok('str', src[i:j + len(end)], i, j + len(end)))
            i = j + len(end)
            continue
        m = re.compile(r'(?:b|c)?"').match(src, i)
        if m:
            j = m.end()
            while j < n and src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            out.append(Tok('str', src[i:j + 1], i, j + 1))
            i = j + 1
            continue
        m = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'").match(src, i)
        if m:
            out.append(Tok('char', m.group(), i, m.end()))
            i = m.end()
            continue
        if c == "'":
            m = re.compile(r"'[A-Za-z_]\w*").match(src, i)
            if not m: raise LexError(f'quote at {i}')
            out.append(Tok('life', m.group(), i, m.end()))
            i = m.end()
            continue
        m = _ident.match(src, i)
        if m:
            out.append(Tok('id', m.group(), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = _num.match(src, i)
            s = m.group()
            # "0..n": the number must not swallow a range
            out.append(Tok('num', s, i, i + len(s)))
            i += len(s)
            continue
        for o in _ops:
            if src.startswith(o, i):
                out.append(Tok('op', o, i, i + len(o)))
                i += len(o)
                break
        else:
            out.append(Tok('op', c, i, i + 1))
            i += 1
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(t, i):
    """Index of the token closing the bracket at t[i]."""
    d = 0
    for j in range(i, len(t)):
        if t[j].k == 'op':
            if t[j].s in OPEN: d += 1
            elif t[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError('unbalanced bracket')

def skip_generics(t, i):
    """t[i] is '<': index after the matching '>'."""
    d = 0
    while i < len(t):
        s = t[i].s
        if s == '<': d += 1
        elif s == '>': d -= 1
        elif s == '<<': d += 2
        elif s == '>>': d -= 2
        elif s == '->': pass
        elif s in OPEN and t[i].k == 'op':
            i = match_close(t, i)
        i += 1
        if d <= 0: return i
    raise LexError('unbalanced <')

def roles(t):
    """how each identifier among the tokens is used: '' a value, 'F' a field, 'S' a field and a value of the same name (Foo { x }), 'C' a call, 'P' a path, None otherwise"""
    out, stack = [], []
    n = len(t)
    for i, x in enumerate(t):
        if x.k == 'op' or x.s in ('(', ')', '[', ']', '{', '}'):
            if x.s in ('(', '[', '{'): stack.append(i)
            elif x.s in (')', ']', '}') and stack: stack.pop()
        if not re.match(r'[A-Za-z_]\w*$', x.s):
            out.append(None)
            continue
        pv, nx = t[i - 1].s if i else '', t[i + 1].s if i + 1 < n else ''
        if nx == '::' or pv == '::': out.append('P')
        elif nx in ('(', '!'): out.append('C')
        elif pv in ('.', '->'): out.append('F')
        elif pv in ('{', ',') and nx in (':', ',', '}') and stack and literal_brace(t, stack[-1]): out.append('F' if nx == ':' else 'S')
        else: out.append('')
    return out

def literal_brace(t, i):
    if t[i].s != '{' or i == 0: return False
    w = t[i - 1].s
    if not re.match(r'[A-Z]\w*$', w) or w.isupper(): return False
    j = i - 1
    while j >= 2 and t[j - 1].s == '::': j -= 2
    return j == 0 or t[j - 1].s not in ('->', 'impl', 'for', 'struct', 'enum', 'as')
