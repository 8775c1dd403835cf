"""Item-level structure of a Rust file: functions, impl blocks, types, consts."""
from rlex import lex, match_close, norm, OPEN, CLOSE, LexError

class Item:
    def __init__(self, kind, name, attrs, vis, toks):
        self.kind, self.name, self.attrs, self.vis, self.toks = kind, name, attrs, vis, toks
        self.header = None      # impl / inline mod: tokens before `{`
        self.children = None
        self.key = None
        self.sig_end = None     # fn: index (in toks) of the body `{`
    def __repr__(self): return "<%s %s>" % (self.kind, self.key)

def parse(toks, scope=""):
    items, i, n = [], 0, len(toks)
    while i < n:
        if toks[i].k == "ghost":
            it = Item("ghost", None, [], [], [toks[i]]); it.key = scope + "ghost"
            items.append(it); i += 1; continue
        attrs = []
        while i < n and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!": j += 1
            e = match_close(toks, j)
            attrs.append(toks[i:e + 1]); i = e + 1
        if i >= n: break
        if toks[i].k == "ghost": continue
        vis = []
        if toks[i].t == "pub":
            vis.append(toks[i]); i += 1
            if i < n and toks[i].t == "(":
                e = match_close(toks, i); vis += toks[i:e + 1]; i = e + 1
        s = i
        kind = None; name = None
        j = i
        while True:
            t = toks[j].t
            if t in ("unsafe", "async", "extern", "default"): j += 1; continue
            if t == "const" and toks[j + 1].t in ("fn", "unsafe"): j += 1; continue
            break
        t = toks[j].t
        if t in ("fn", "struct", "enum", "const", "static", "type", "use", "mod", "impl", "trait", "macro_rules", "union"):
            kind = t
        elif toks[j].k == "id" and toks[j + 1].t == "!":
            kind = "macro"
        else:
            raise LexError("item at %s:%s: %s" % (toks[j].f, toks[j].l, t))
        if kind in ("fn", "struct", "enum", "const", "static", "type", "mod", "trait"):
            name = toks[j + 1].t
            if name == "mut": name = toks[j + 2].t
        # find end
        k, d = j, 0
        body = None
        while k < n:
            x = toks[k]
            if x.k == "p":
                if x.t in OPEN:
                    if x.t == "{" and d == 0 and body is None and kind in ("fn", "impl", "mod", "trait", "struct", "enum", "macro_rules", "macro"):
                        body = k; k = match_close(toks, k); break
                    d += 1
                elif x.t in CLOSE: d -= 1
                elif x.t == ";" and d == 0: break
            k += 1
        if k >= n: raise LexError("unterminated item at line %s" % toks[s].l)
        it = Item(kind, name, attrs, vis, toks[s:k + 1])
        if kind == "impl":
            it.header = toks[s:body]
            it.name = norm(it.header)
            it.key = scope + it.name
            it.children = parse(toks[body + 1:k], it.key + " :: ")
        elif kind == "mod" and body is not None:
            it.header = toks[s:body]
            it.key = scope + "mod " + name
            it.children = parse(toks[body + 1:k], it.key + " :: ")
        elif kind == "fn":
            it.sig_end = body - s if body is not None else None
            it.key = scope + "fn " + name
        elif kind == "use":
            it.key = scope + norm(it.toks)
        else:
            it.key = scope + kind + " " + str(name)
        items.append(it)
        i = k + 1
    return items

def is_cfg(attrs, word):
    return any(len(a) > 3 and a[2].t == "cfg" and any(x.t.strip('"') == word for x in a) for a in attrs)

def load(path, rel):
    return parse(lex(open(path, encoding="utf-8").read(), rel))
