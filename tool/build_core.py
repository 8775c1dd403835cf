"""Generate the Verus crate for the core library from /repo's working tree."""
import os, re, sys
from rlex import lex, Tok, norm, match_close
import extract, desugar, build_py, ritems
from extract import Extractor, render

REPO = os.environ.get("UI_REPO", "/repo")
PYSRC = REPO + "/crates/unicode-intervals-py/src/lib.rs"
SRC = REPO + "/crates/unicode-intervals/src/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ["constants", "error", "intervals", "intervalset", "categories", "query"]

OURS = {"shim", "spec", "bits", "twf", "tspec", "props", "raw_tables", "pyo3", "py", "bind", "pyprops", "canary"}

def extra_mods():
    """modules of the crate the overlay has no file for: (name, path)"""
    out = []
    for it in ritems.parse(lex(open(SRC + "lib.rs", encoding="utf-8").read(), "lib.rs")):
        if it.kind != "mod" or it.children is not None or it.name in MODS or it.name == "tables" or extract.drop_item(it): continue
        for f in (SRC + it.name + ".rs", SRC + it.name + "/mod.rs"):
            if os.path.isfile(f): out.append((it.name, f)); break
    return out

def src_of(m):
    for f in (SRC + m + ".rs", SRC + m + "/mod.rs"):
        if os.path.isfile(f): return f
    return None

def unclash(toks, names):
    """a module of the tree named like one of the generated ones"""
    for n, t in enumerate(toks):
        if t.k == "id" and t.t in names and (n and toks[n - 1].t in ("mod", "::") or n + 1 < len(toks) and toks[n + 1].t == "::"): t.t += "_of_tree"
    return toks

def versions():
    return sorted(re.findall(r"mod (v\w+);", open(SRC + "tables/mod.rs").read()),
                  key=lambda v: [int(x) for x in v[1:].split("_")])

def seq_at(toks, i, s):
    ts = lex(s)
    return all(i + n < len(toks) and toks[i + n].t == t.t for n, t in enumerate(ts)) and len(ts)

def special(ex, mod, it, toks):
    """item-specific rewrites (D5, D6, D8); anything that does not match is left alone"""
    near = it.toks[0]
    if mod == "py": return build_py.special(ex, it, toks)
    if mod == "lib" and it.kind == "mod" and it.name == "tables":
        s = "pub mod tables {"
        for v in versions():
            s += "\n pub mod %s { #[verifier::external_body] pub const BY_NAME: &'static [&'static [(u32,u32)]] = crate::raw_tables::%s::BY_NAME; }" % (v, v)
        return desugar.mk(s + "\n}", near)
    if mod == "lib" and it.kind == "mod":
        return [Tok("ghost", "#[path=\"%s.rs\"]" % it.name, "\n", near.f, near.l)] + toks if False else toks
    if mod == "intervalset":
        # D5: std FlatMap over a fn pointer -> trusted wrapper with an assumed contract
        if it.kind == "type" and it.name == "Expand": return None
        if it.kind == "struct" and it.name == "Codepoints":
            i = next((n for n, t in enumerate(toks) if t.t == "core"), None)
            want = lex("core::iter::FlatMap<core::iter::Copied<core::slice::Iter<'a, Interval>>, core::ops::RangeInclusive<u32>, Expand,>")
            want2 = lex("core::iter::FlatMap<core::iter::Copied<core::slice::Iter<'a, Interval>>, core::ops::RangeInclusive<u32>, Expand>")
            for w in (want, want2):
                # `>>` splitting is the same on both sides since both are lexed alike
                if i is not None and [t.t for t in toks[i:i + len(w)]] == [t.t for t in w]:
                    toks[i:i + len(w)] = desugar.mk("crate::shim::FlatMapPairs<'a>", near, "")
                    ex.res.rules["D5"] = ex.res.rules.get("D5", 0) + 1
                    break
        if it.kind == "fn" and it.name == "iter":
            i = 0
            while i < len(toks):
                n = seq_at(toks, i, "let expand: Expand = expand;")
                if n: toks[i:i + n] = []; continue
                n = seq_at(toks, i, "self.intervals.iter().copied().flat_map(expand)")
                if n: toks[i:i + n] = desugar.mk("crate::shim::flat_map_copied(self.intervals.iter(), expand)", toks[i], "")
                i += 1
    if it.kind == "const" and any(t.k == "ghost" and "ensures" in t.t for t in toks):
        # D6: exec const with a postcondition
        eq = next(n for n, t in enumerate(toks) if t.t == "=" and t.k == "p")
        toks = toks[:0] + [Tok("id", "exec", "\n", near.f, near.l)] + toks[:eq] + desugar.mk("{", near) + toks[eq + 1:-1] + desugar.mk("}", near)
        ex.res.rules["D6"] = ex.res.rules.get("D6", 0) + 1
    return toks

HEAD = "#![feature(allocator_api, sized_hierarchy)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_upper_case_globals, unused_assignments, non_camel_case_types, clippy::all)]\n"

def build(out, isolate=(), drop=(), drop_ghost=(), py=False):
    os.makedirs(out, exist_ok=True)
    extra = extra_mods()
    clash = {m for m, _ in extra} & OURS
    new = lambda m: m + "_of_tree" if m in clash else m
    srcs = [("lib", SRC + "lib.rs", "lib.rs")] + [(m, src_of(m), m + ".rs") for m in MODS] + [(new(m), f, None) for m, f in extra]
    if py: srcs.append(("py", PYSRC, "../py/lib.rs"))
    ex = Extractor(os.path.join(HERE, "overlay/core"), srcs, special=special, isolate=isolate, drop_ghost=drop_ghost, prep=lambda toks: unclash(toks, clash) if clash else toks)
    if py:
        build_py.publish(ex.cur["py"])
        ex.py_names = build_py.names(ex.cur["py"])
    maps = {}
    for mod, _, _ in srcs:
        toks = ex.emit_module(mod)
        lm = {}
        if mod == "lib":
            head = HEAD + "use vstd::prelude::*;\n#[path=\"%stables/mod.rs\"]\npub mod raw_tables;\npub mod shim;\npub mod spec;\npub mod bits;\npub mod twf;\npub mod tspec;\npub mod props;\nuse crate::spec::*;\nuse crate::bits::*;\nuse crate::twf::*;\nuse crate::tspec::*;\nuse crate::categories::*;\nuse crate::query::*;\nuse crate::shim::fmt_out;\nuse vstd::std_specs::iter::IteratorSpec;\nverus! {\nbroadcast use crate::shim::group_shim;\n" % SRC
        else:
            head = "use vstd::prelude::*;\nuse crate::spec::*;\nuse crate::bits::*;\nuse crate::twf::*;\nuse crate::tspec::*;\nuse crate::categories::*;\nuse crate::query::*;\nuse crate::shim::fmt_out;\nuse vstd::std_specs::iter::IteratorSpec;\nverus! {\nbroadcast use crate::shim::group_shim;\n"
        if mod == "py": head = head.replace("use crate::query::*;\n", "use crate::*;\n").replace("broadcast use crate::shim::group_shim;", "broadcast use {crate::shim::group_shim, crate::pyo3::group_pyo3};")
        if mod == "lib" and py: head = head.replace("pub mod props;", "pub mod props;\npub mod pyo3;\npub mod py;\npub mod bind;\npub mod pyprops;")
        head = head.replace("use crate::%s::*;\n" % mod, "")
        body = render(toks, lm, head.count("\n") + 1)
        open(os.path.join(out, mod + ".rs"), "w").write(head + body + "\n}\n")
        maps[mod + ".rs"] = lm
    for f in ("shim", "spec", "bits", "twf", "tspec", "props"):
        open(os.path.join(out, f + ".rs"), "w").write(open(os.path.join(HERE, "overlay/core", f + ".rs")).read())
    if py:
        open(os.path.join(out, "bind.rs"), "w").write(build_py.bind(ex.cur["py"]))
        for f in ("pyo3", "pyprops"):
            open(os.path.join(out, f + ".rs"), "w").write(open(os.path.join(HERE, "overlay/py", f + ".rs")).read())
    for name in drop:
        # a theorem that cannot be stated about this tree is left out (and reported)
        pth = os.path.join(out, thm_file(name))
        src = open(pth).read().split("\n")
        for n, a, b, *_ in props_items(pth)[2]:
            if n == name: src[a - 1:b] = [""] * (b - a + 1)
        open(pth, "w").write("\n".join(src))
    return ex, maps

def thm_file(name):
    return "pyprops.rs" if name[:4] in ("c15_", "c16_") else "props.rs"

def props_items(path):
    """(name, first line, last line, token index range) of the functions of an overlay-only file"""
    src = open(path, encoding="utf-8").read()
    ts = lex(src)
    out, i = [], 0
    while i < len(ts):
        if ts[i].k == "id" and ts[i].t in ("fn",) and ts[i + 1].k == "id":
            st = i
            while st > 0 and ts[st - 1].t in ("pub", "proof", "open", "spec", "broadcast", "exec"): st -= 1
            # the body is the last top-level brace group before the next item
            j, d, op = i, 0, None
            while True:
                t = ts[j]
                if t.k == "p" and t.t in "([{":
                    e = match_close(ts, j)
                    if t.t == "{":
                        nx = ts[e + 1] if e + 1 < len(ts) else None
                        if nx is None or nx.t in ("pub", "proof", "fn", "broadcast", "}", "impl", "#", "spec", "open", "struct", "closed") :
                            op = j; break
                    j = e
                j += 1
            out.append((ts[i + 1].t, ts[st].l, ts[e].l, st, op, e))
            i = e
        i += 1
    return src, ts, out

def theorem_at(path, line):
    for n, a, b, *_ in props_items(path)[2]:
        if a <= line <= b: return n
    return None

def make_canary(gen, prefix):
    file = thm_file(prefix)
    mod = file[:-3]
    src, ts, items = props_items(os.path.join(gen, file))
    names, body = [], []
    for n, a, b, st, op, e in items:
        if not n.startswith(prefix): continue
        head, inner = ts[st:op], ts[op + 1:e]
        kinds = [t.t for t in head]
        if "spec" in kinds: continue
        if any(x.startswith(prefix) and t == "fn" for t, x in zip(kinds, kinds[1:])) and not ("pub" in kinds): continue
        h = "".join(t.ws + t.t for t in head)
        bd = "".join(t.ws + t.t for t in inner)
        if "proof" in kinds:
            body.append(h + "{" + bd + "; assert(false); }\n")
        else:
            o, c = desugar.sig_params(head)
            ty = ""
            if c + 1 < len(head) and head[c + 1].t == "->":
                # (r: T)
                q = c + 2
                z = match_close(head, q)
                ty = "".join(t.ws + t.t for t in head[q + 3:z])
            hd = re.match(r"(\s*hide\([\w:]+\);)*", bd).group(0)
            bd = bd[len(hd):]
            if ty: body.append(h + "{" + hd + " let __r: " + ty + " = {" + bd + "}; assert(false); __r }\n")
            else: body.append(h + "{" + hd + bd + "; assert(false); }\n")
        names.append(n)
    pre = src[:src.index("verus! {")]
    imports = "use crate::props::{full_query, name_less, letter1, letter2};\nuse crate::props::*;\n" if mod == "props" else "use crate::pyprops::*;\n"
    open(os.path.join(gen, "canary.rs"), "w").write(pre + imports + "verus! {\nbroadcast use crate::shim::group_shim;\n" + "\n".join(body) + "\n}\n")
    open(os.path.join(gen, file), "w").write(re.sub(r"(?m)^((?:proof |spec )?fn )", r"pub \1", src))
    l = open(os.path.join(gen, "lib.rs")).read().replace("pub mod props;", "pub mod props;\npub mod canary;", 1)
    open(os.path.join(gen, "lib.rs"), "w").write(l)
    return names

if __name__ == "__main__":
    ex, maps = build(sys.argv[1], py="py" in sys.argv)
    r = ex.res
    print("fns", len(r.fns), "new", r.new_fns, "missing", r.missing, "lost", r.lost, "rules", r.rules, "changed", r.changed)
