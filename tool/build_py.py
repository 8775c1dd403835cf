"""The Python binding: rewrites for the verifier (P1-P6) and the call wrappers PyO3 derives from the attributes."""
import re
from rlex import lex, Tok, match_close, norm
import desugar
from desugar import mk, split_commas, fmt_pieces, sig_params, body_open

def special(ex, it, toks):
    near = it.toks[0]
    res = ex.res.rules
    def hit(r): res[r] = res.get(r, 0) + 1
    # P5: a module handle is exclusively borrowed while the module is filled
    if it.kind == "fn":
        o, c = sig_params(toks)
        i = o
        while i < c:
            if toks[i].t == "&" and toks[i + 1].t == "Bound":
                e = next((j for j in range(i, c) if toks[j].t == "PyModule"), None)
                if e is not None and "," in [t.t for t in toks[i:e]] and all(toks[j].t in ("&", "Bound", "<", ",", "PyModule") or toks[j].t.startswith("'") for j in range(i, e + 1)):
                    toks[i + 1:i + 1] = mk("mut", near); c += 1; hit("P5")
            i += 1
    i = 0
    out = []
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in ("pyo3", "unicode_intervals_core") and toks[i + 1].t == "::":
            r = mk("crate::pyo3" if t.t == "pyo3" else "crate", t, t.ws)
            r[0].ws = t.ws
            out += r; i += 1; hit("P1"); continue
        if t.k == "id" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in "([{":
            e = match_close(toks, i + 2)
            args = toks[i + 3:e]
            if t.t == "format":
                ps = split_commas(args)
                pcs = fmt_pieces(ps[0][0].t, ps[1:]) if ps and len(ps[0]) == 1 and not any("=" in [x.t for x in q] for q in ps[1:]) else None
                if pcs is not None:
                    cur = mk("crate::pyo3::fmt_new()", t)
                    for k, v in pcs:
                        if k == "lit": cur = mk("crate::pyo3::fmt_lit(", t) + cur + mk(', "%s")' % v, t, "")
                        else: cur = mk("crate::pyo3::fmt_disp(", t) + cur + mk(", &", t, "") + mk("(", t, "") + [x.clone() for x in v] + mk("))", t, "")
                    out += cur; i = e + 1; hit("P3"); continue
            if t.t == "wrap_pyfunction":
                ps = split_commas(args)
                f = ps[0][-1].t
                nm = ex.py_names.get(f, f)
                if len(ps) == 1: out += mk('crate::pyo3::wrapped("%s", "%s")' % (nm, f), t)
                else: out += mk('crate::pyo3::wrapped_in("%s", "%s")' % (nm, f), t)
                i = e + 1; hit("P4"); continue
            if t.t == "env":
                out += mk("crate::pyo3::env_text()", t); i = e + 1; hit("P4"); continue
        if t.t == "ToString" and [x.t for x in toks[i - 1:i + 4]] == ["(", "ToString", "::", "to_string", ")"]:
            # P6: the path of a method as a function -> the closure that calls it
            out += mk("|__x|", t) + [Tok("ghost", "-> (r: String) ensures vstd::string::to_string_from_display_ensures(__x, r)", "\n", t.f, t.l)] + mk("{ __x.to_string() }", t)
            i += 3; hit("P6"); continue
        out.append(t); i += 1
    toks = out
    if it.kind == "static" and any(t.k == "ghost" for t in toks):
        # P2: a static of fresh write-once cells; what its cells may hold is chosen where it is declared
        eq = next(n for n, t in enumerate(toks) if t.t == "=" and t.k == "p")
        if norm(toks[eq + 1:]).startswith("[ const { OnceLock :: new ( ) } ;"):
            toks = mk("exec", near, "\n") + toks[:eq] + mk("{ crate::pyo3::cells(Ghost(|i: int, t: Py<PyTuple>| slot_holds(i, t))) }", near)
            hit("P2")
    return toks

def attr_args(attrs, name):
    for a in attrs:
        ts = a[2:-1]
        if ts and ts[0].t == name and len(ts) > 1 and ts[1].t == "(": return split_commas(ts[2:match_close(ts, 1)])
        if ts and ts[0].t == name: return []
    return None

def text(ts): return " ".join("".join(t.ws + t.t for t in ts).split())

def py_name(it, what):
    for w in (what, "pyo3"):
        for q in attr_args(it.attrs, w) or []:
            if len(q) == 3 and q[0].t == "name" and q[1].t == "=": return q[2].t.strip('"')
    return it.name

def signature(it):
    for w in ("pyo3", "pyfunction"):
        for q in attr_args(it.attrs, w) or []:
            if q and q[0].t == "signature" and q[1].t == "=" and q[2].t == "(":
                d = {}
                for p in split_commas(q[3:match_close(q, 2)]):
                    if len(p) == 1 and p[0].t in ("*", "/"): continue
                    d[p[0].t] = text(p[2:]) if len(p) > 2 and p[1].t == "=" else None
                return d
    return None

def names(cur):
    return {it.name: py_name(it, "pyfunction") for it in cur if it.kind == "fn" and attr_args(it.attrs, "pyfunction") is not None}

def bind(cur):
    """bind.rs: what PyO3 makes of the attributes: a call passes given arguments on and puts the declared default for an omitted one"""
    o = ["//! Generated from the attributes of the binding on every run.", "use vstd::prelude::*;", "use crate::py::*;", "use crate::pyo3::*;", "use crate::*;", "verus! {",
         "broadcast use crate::shim::group_shim;"]
    macros = []
    for it in cur:
        if it.kind == "fn" and attr_args(it.attrs, "pyfunction") is not None:
            toks = it.toks
            a, b = sig_params(toks)
            sig = signature(it)
            fields, args = [], []
            for prm in split_commas(toks[a + 1:b]):
                n, ty = prm[0].t, text(prm[2:])
                if ty.startswith("Python"): args.append("py"); continue
                ty = re.sub(r"&\s*('\w+\s*)?", "&'a ", ty)
                fields.append("    pub %s: Option<%s>," % (n, ty))
                d = sig.get(n) if sig is not None else None
                if d is None: dflt = "return Err(exceptions::PyTypeError::new_err(()))"
                elif ty.startswith("Option") and d != "None" and not d.startswith("Some"): dflt = "Some(%s)" % d
                else: dflt = d
                args.append("match a.%s { Some(x) => x, None => %s }" % (n, dflt))
            o.append("/// the arguments of `%s`, by keyword; `None` is an omitted one\npub struct args_%s<'a> {\n%s\n    pub p: core::marker::PhantomData<&'a u32>,\n}" % (it.name, it.name, "\n".join(fields)))
            macros.append("macro_rules! call_%s { ($py:expr, $a:ident) => { crate::py::%s(%s) } }\npub(crate) use call_%s;" % (it.name, it.name, ", ".join(args).replace("match a.", "match $a.").replace("py,", "$py,", 1), it.name))
        if it.kind == "enum":
            q = attr_args(it.attrs, "pyclass")
            if q is None: continue
            nm = next((p[2].t.strip('"') for p in q if len(p) == 3 and p[0].t == "name"), it.name)
            eq = any(len(p) == 1 and p[0].t == "eq" for p in q)
            o.append('impl PyClass for %s { open spec fn class_name() -> Seq<char> { "%s"@ } }' % (it.name, nm))
            # variants and the names they have in Python
            b = next(n for n, t in enumerate(it.toks) if t.t == "{")
            vs = []
            for p in split_commas(it.toks[b + 1:match_close(it.toks, b)]):
                pn = None
                while p and p[0].t == "#":
                    e = match_close(p, 1)
                    s = text(p[1:e + 1])
                    m = re.search(r'name\s*=\s*"(\w+)"', s)
                    if "pyo3" in s and m: pn = m.group(1)
                    p = p[e + 1:]
                if p: vs.append((p[0].t, pn or p[0].t))
            o.append("/// the attribute of the class that is the version object\npub open spec fn py_attr(p: %s) -> Seq<char> {\n    match p {\n%s\n    }\n}" % (it.name, "\n".join('        %s::%s => "%s"@,' % (it.name, v, n) for v, n in vs)))
            o.append("/// `==` in Python\npub fn py_eq(a: &%s, b: &%s) -> (r: bool)\n    ensures %s\n{\n    %s\n}" % (it.name, it.name, "r == (*a == *b)," if eq else "true,", "*a == *b" if eq else "unreached()"))
    o.append("}")
    o += macros
    return "\n".join(o)

def publish(items):
    """everything in the binding's module can be named by the theorems"""
    for it in items:
        if it.kind in ("fn", "enum", "struct", "static", "const", "type") and not it.vis: it.vis = mk("pub", it.toks[0], "\n")
        if it.kind == "impl" and it.children and not any(t.t == "for" for t in it.header): publish(it.children)
