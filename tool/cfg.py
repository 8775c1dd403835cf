"""Conditional compilation, decided before anything else looks at the text: the crates as their users build them
(no tests, no benchmark feature, this platform), with `debug_assertions` left open."""
from rlex import match_close, OPEN, CLOSE

HOST = {"unix": True, "windows": False, "panic": None, "overflow_checks": None, "debug_assertions": None, "doc": None, "doctest": None, "miri": None, "test": False, "kani": False, "verus_keep_ghost": False}
HOSTKV = {"target_os": "linux", "target_arch": "x86_64", "target_pointer_width": "64", "target_endian": "little", "target_family": "unix", "target_env": "gnu"}
ITEM = ("fn", "impl", "mod", "struct", "enum", "trait", "const", "static", "use", "type", "macro_rules", "pub", "unsafe", "extern")
OPENENDED = ("if", "match", "for", "while", "loop", "unsafe", "{")

def value(t):
    """three-valued: True, False or None (open)"""
    if not t: return None
    if t[0].t in ("all", "any", "not") and len(t) > 1 and t[1].t == "(":
        parts, d, cur = [], 0, []
        for x in t[2:-1]:
            if x.k == "p" and x.t in OPEN: d += 1
            if x.k == "p" and x.t in CLOSE: d -= 1
            if x.t == "," and d == 0: parts.append(cur); cur = []
            else: cur.append(x)
        if cur: parts.append(cur)
        v = [value(p) for p in parts]
        if t[0].t == "not": return None if v[0] is None else not v[0]
        if t[0].t == "all": return False if False in v else None if None in v else True
        return True if True in v else None if None in v else False
    if t[0].t in ("true", "false"): return t[0].t == "true"
    if len(t) == 3 and t[1].t == "=":
        s = t[2].t.strip('"')
        if t[0].t == "feature": return False          # no crate here has default features
        if t[0].t in HOSTKV: return HOSTKV[t[0].t] == s
        return None
    return HOST.get(t[0].t, False) if len(t) == 1 else None

def extent(toks, i):
    """end (exclusive) of the element starting at i: statement, item, field, variant, arm or argument"""
    while i < len(toks) and toks[i].t == "#" and toks[i + 1].t == "[": i = match_close(toks, i + 1) + 1
    first = toks[i].t if i < len(toks) else ""
    item, opened = first in ITEM, first in OPENENDED
    k = i
    while k < len(toks):
        x = toks[k]
        if x.k == "p" and x.t in CLOSE: return k
        if x.k == "p" and x.t in OPEN:
            e = match_close(toks, k)
            if x.t == "{" and (opened or item and first not in ("const", "static", "use", "type") or toks[k - 1].t == "=>"):
                if e + 1 < len(toks) and toks[e + 1].t == "else": k = e + 1; continue
                if e + 1 < len(toks) and toks[e + 1].t in (",", ";"): return e + 2
                return e + 1
            k = e + 1; continue
        if x.k == "p" and (x.t == ";" or x.t == "," and not item): return k + 1
        k += 1
    return k

def resolve(toks):
    """the tokens without what is not compiled; attributes that depend on the profile stay"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "#" and t.k == "p" and i + 3 < len(toks) and toks[i + 1].t == "[" and toks[i + 2].t == "cfg" and toks[i + 3].t == "(":
            e = match_close(toks, i + 1)
            v = value(toks[i + 4:e - 1])
            if v is True: i = e + 1; continue
            if v is False: i = extent(toks, e + 1); continue
        if t.k == "id" and t.t == "cfg" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in OPEN:
            e = match_close(toks, i + 2)
            v = value(toks[i + 3:e])
            new = "crate::shim::any_bool()" if v is None else "true" if v else "false"
            from desugar import mk
            out += mk(new, t, t.ws); i = e + 1; continue
        out.append(t); i += 1
    return out
