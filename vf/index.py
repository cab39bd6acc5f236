"""Item structure of the crate: modules, uses, consts, types, impls, functions (with token ranges)."""
import os
from vf.lexer import lex, match_close, skip_generics, LexError

class Item:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class File:
    def __init__(self, path, modpath, text=None):
        self.path, self.modpath = path, modpath
        self.src = open(path, encoding='utf-8').read() if text is None else text
        self.t = lex(self.src)

    def text(self, i, j):
        """source text of tokens i..j (exclusive), with original spacing and comments"""
        if i >= j: return ''
        return self.src[self.t[i].a:self.t[j - 1].b]

def parse_items(f, i, end):
    """items among tokens i..end"""
    t = f.t
    items = []
    while i < end:
        attrs, start = [], i
        while i < end and t[i].s == '#':
            j = i + 1
            if t[j].s == '!': j += 1
            e = match_close(t, j)
            attrs.append((i, e + 1))
            i = e + 1
        if i >= end: break
        vis = None
        if t[i].s == 'pub':
            v = i
            i += 1
            if t[i].s == '(':
                i = match_close(t, i) + 1
            vis = (v, i)
        kw = t[i].s
        head = i
        at = [f.text(a, b) for a, b in attrs]
        base = dict(f=f, attrs=at, vis=vis, start=head, full=start)
        # function qualifiers
        q = i
        while t[q].s in ('const', 'unsafe', 'async', 'extern') and not (t[q].s == 'const' and t[q + 1].k == 'id' and t[q + 1].s not in ('fn', 'unsafe', 'async', 'extern')):
            q += 1
            if t[q].k == 'str': q += 1
        if t[q].s == 'fn':
            it, i = parse_fn(f, q, base)
            items.append(it)
            continue
        if kw == 'use' or kw == 'static' or kw == 'type' or kw == 'const' or kw == 'extern':
            j = i
            while t[j].s != ';':
                if t[j].k == 'op' and t[j].s in '([{': j = match_close(t, j)
                j += 1
            name = t[i + 1].s if kw != 'use' else None
            items.append(Item(kind=kw, name=name, end=j + 1, **base))
            i = j + 1
            continue
        if kw == 'mod':
            name = t[i + 1].s
            if t[i + 2].s == ';':
                items.append(Item(kind='moddecl', name=name, end=i + 3, **base))
                i += 3
            else:
                e = match_close(t, i + 2)
                items.append(Item(kind='mod', name=name, body=(i + 3, e), end=e + 1,
                                  items=None if is_test(at) else parse_items(f, i + 3, e), **base))
                i = e + 1
            continue
        if kw in ('struct', 'enum', 'union'):
            name = t[i + 1].s
            j = i + 2
            if t[j].s == '<': j = skip_generics(t, j)
            while t[j].s not in (';', '{', '('): j += 1
            body = None
            if t[j].s == '{':
                e = match_close(t, j)
                body = (j, e)
                e += 1
            elif t[j].s == '(':
                e = match_close(t, j)
                body = (j, e)
                while t[e].s != ';': e += 1
                e += 1
            else:
                e = j + 1
            items.append(Item(kind=kw, name=name, body=body, end=e, **base))
            i = e
            continue
        if kw == 'impl' or kw == 'trait' or (kw == 'unsafe' and t[i + 1].s in ('impl', 'trait')):
            j = i
            if kw == 'unsafe': j += 1
            kind = t[j].s
            j += 1
            gen = (j, j)
            if kind == 'impl':
                if t[j].s == '<':
                    e = skip_generics(t, j)
                    gen = (j, e)
                    j = e
                h = j
                forpos = None
                while t[j].s != '{':
                    if t[j].s == 'for': forpos = j
                    if t[j].s in ('(', '['): j = match_close(t, j)
                    j += 1
                trait = f.text(h, forpos) if forpos else None
                selfty = f.text(forpos + 1 if forpos else h, j)
                name = None
            else:
                name = t[j].s
                trait = selfty = None
                while t[j].s != '{': j += 1
            e = match_close(t, j)
            items.append(Item(kind=kind, name=name, trait=trait, selfty=selfty, gen=gen, brace=j, body=(j + 1, e),
                              end=e + 1, items=parse_items(f, j + 1, e), **base))
            i = e + 1
            continue
        if kw == 'macro_rules':
            j = i + 3
            e = match_close(t, j)
            items.append(Item(kind='macro_rules', name=t[i + 2].s, end=e + 1, **base))
            i = e + 1
            if i < end and t[i].s == ';': i += 1
            continue
        # macro invocation item or unknown
        j = i
        while j < end and t[j].s not in (';', '{', '(', '['): j += 1
        if j < end and t[j].s != ';':
            j = match_close(t, j)
            if j + 1 < end and t[j + 1].s == ';': j += 1
        items.append(Item(kind='unknown', name=None, end=j + 1, **base))
        i = j + 1
    return items

def is_test(attrs):
    """not part of the library as it is built for users: tests and code behind the verification guard"""
    def off(a):
        a = a.replace(' ', '')
        return a in ('#[test]', '#[cfg(mysql_cdc_verif)]') or a.startswith('#[cfg(test') or a.startswith('#[cfg(all(test')
    return any(off(a) for a in attrs)

def parse_fn(f, q, base):
    t = f.t
    name = t[q + 1].s
    j = q + 2
    gen = None
    if t[j].s == '<':
        e = skip_generics(t, j)
        gen = (j, e)
        j = e
    assert t[j].s == '('
    pe = match_close(t, j)
    params = split_commas(t, j + 1, pe)
    j2 = pe + 1
    ret = None
    if t[j2].s == '->':
        r = j2 + 1
        while t[j2].s not in ('{', ';', 'where'):
            if t[j2].s in ('(', '['): j2 = match_close(t, j2)
            elif t[j2].s == '<': j2 = skip_generics(t, j2) - 1
            j2 += 1
        ret = (r, j2)
    where = None
    if t[j2].s == 'where':
        w = j2
        while t[j2].s not in ('{', ';'): j2 += 1
        where = (w, j2)
    if t[j2].s == ';':
        return Item(kind='fn', name=name, gen=gen, params=params, paren=(j, pe), ret=ret, where=where, body=None,
                    fnpos=q, end=j2 + 1, **base), j2 + 1
    e = match_close(t, j2)
    return Item(kind='fn', name=name, gen=gen, params=params, paren=(j, pe), ret=ret, where=where, body=(j2, e),
                fnpos=q, end=e + 1, **base), e + 1

def split_commas(t, i, end):
    out, s, j = [], i, i
    while j < end:
        x = t[j]
        if x.k == 'op' and x.s in '([{': j = match_close(t, j)
        elif x.s == '<' and j > s and (t[j - 1].k == 'id' or t[j - 1].s == '::'):
            # generic arguments in types
            try:
                k = skip_generics(t, j)
                if k <= end: j = k - 1
            except LexError:
                pass
        elif x.s == ',' and x.k == 'op':
            if j > s: out.append((s, j))
            s = j + 1
        j += 1
    if end > s: out.append((s, end))
    return out

class Crate:
    """All modules of a crate, in declaration order."""
    def __init__(self, root, overlay=None):
        self.root = root
        self.overlay = overlay or {}
        self.mods = []          # (modpath tuple, File, items, children)
        self.unparsed = []
        self._load(os.path.join(root, 'src', 'lib.rs'), ())

    def _load(self, path, modpath):
        f = File(path, modpath, self.overlay.get(path))
        items = parse_items(f, 0, len(f.t))
        entry = Item(modpath=modpath, f=f, items=items, children=[])
        self.mods.append(entry)
        d = os.path.dirname(path)
        base = os.path.basename(path)
        if base not in ('lib.rs', 'mod.rs', 'main.rs'):
            d = os.path.join(d, base[:-3])
        for it in items:
            if it.kind == 'moddecl' and not is_test(it.attrs):
                p1 = os.path.join(d, it.name + '.rs')
                p2 = os.path.join(d, it.name, 'mod.rs')
                p = p1 if os.path.exists(p1) else p2
                entry.children.append(self._load(p, modpath + (it.name,)))
        return entry

    def fns(self):
        """every function outside tests: (key, modpath, impl item or None, fn item)"""
        for m in self.mods:
            yield from self._fns(m.modpath, m.items)

    def _fns(self, mp, items):
        for it in items:
            if is_test(it.attrs): continue
            if it.kind == 'fn':
                yield '::'.join(mp + (it.name,)), mp, None, it
            elif it.kind == 'impl':
                for x in it.items:
                    if x.kind == 'fn' and not is_test(x.attrs):
                        yield '::'.join(mp + (impl_name(it), x.name)), mp, it, x
            elif it.kind == 'mod' and it.items is not None:
                yield from self._fns(mp + (it.name,), it.items)

def impl_name(im):
    ty = im.selfty.split('<')[0].strip()
    if im.trait is None: return ty
    tr = im.trait.strip().replace(' ', '')
    return f'{ty}@{tr}'

if __name__ == '__main__':
    import sys
    c = Crate(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for k, mp, im, fn in c.fns():
        print(k)
