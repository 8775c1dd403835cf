"""Verified table checker: generate, verify, compile, run on the tables of /repo's working tree."""
import json, os, re, subprocess
import build_core

HERE = build_core.HERE
CATS = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Ll Sm Lm Sk Mn Lo No Ps Po So Zs Mc Zl Zp Cn Co Cs Lt Lu".split()

def read_snapshot():
    """version -> category -> [(lo, hi)]"""
    out, v = {}, None
    for line in open(os.path.join(HERE, "data/ucd.txt")):
        if line.startswith("#") or not line.strip(): continue
        a, b = line.split(None, 1)
        if a == "V":
            v = b.strip(); out[v] = {}
        else:
            l = []
            for x in b.strip().split(","):
                p = x.split("-")
                l.append((int(p[0], 16), int(p[-1], 16)))
            out[v][a] = l
    return out

def decl_order():
    """declaration order of the categories in the tree (discriminant order)"""
    s = open(build_core.SRC + "categories.rs").read()
    m = re.search(r"pub enum UnicodeCategory \{(.*?)\n\}", s, re.S)
    body = re.sub(r"//[^\n]*", "", m.group(1)) if m else ""
    body = re.sub(r"#\[[^\]]*\]", "", body)
    return re.findall(r"\b([A-Z][a-z])\b(?=\s*(?:=\s*\d+\s*)?,)", body)

def generate(out):
    os.makedirs(out, exist_ok=True)
    snap = read_snapshot()
    mods = build_core.versions()
    order = decl_order()
    if sorted(order) != sorted(CATS): order = CATS
    for f, d in (("spec", "core"), ("twf", "core"), ("check", "tables")):
        open(os.path.join(out, f + ".rs"), "w").write(open(os.path.join(HERE, "overlay", d, f + ".rs")).read())
    s = []
    vers = []
    for v in snap:
        m = "v" + v.replace(".", "_")
        vers.append((v, m, m in mods))
        s.append("pub const %s: &'static [&'static [(u32, u32)]] = &[" % m.upper())
        for c in order:
            s.append("  &[%s]," % ",".join("(%d,%d)" % p for p in snap[v].get(c, [])))
        s.append("];")
    open(os.path.join(out, "snapshot.rs"), "w").write("\n".join(s) + "\n")
    main = ["fn main() {", "  let only: Option<String> = std::env::args().nth(1);"]
    have = [(v, m) for v, m, h in vers if h]
    for v, m, h in vers:
        if not h:
            main.append('  println!("MISSING %s");' % v); continue
        main.append("  { let t: &'static [&'static [(u32, u32)]] = raw_tables::%s::BY_NAME; let u = snapshot::%s;" % (m, m.upper()))
        main.append('    println!("WF %s {}", check::check_table(t)); println!("SNAP %s {}", check::check_table(u)); println!("SAME %s {}", check::check_same(t, u));' % (v, v, v))
        main.append('    println!("ROWS %s {}", t.iter().map(|x| x.len()).sum::<usize>()); diag("%s", t, u); }' % (v, v))
    cn, cs, co, cc = (order.index(x) for x in ("Cn", "Cs", "Co", "Cc"))
    for (v, m), (w, n) in zip(have, have[1:]):
        main.append('  println!("CN %s<={} {}", "%s", wf_within(raw_tables::%s::BY_NAME, raw_tables::%s::BY_NAME, %d));' % (w, v, n, m, cn))
        for nm, ix in (("Cs", cs), ("Co", co), ("Cc", cc)):
            main.append('  println!("FIXED %s %s={} {}", "%s", wf_within(raw_tables::%s::BY_NAME, raw_tables::%s::BY_NAME, %d) && wf_within(raw_tables::%s::BY_NAME, raw_tables::%s::BY_NAME, %d));' % (nm, w, v, n, m, ix, m, n, ix))
    for m in mods:
        if m not in [x[1] for x in vers]: main.append('  println!("EXTRA %s {}", check::check_table(raw_tables::%s::BY_NAME));' % (m, m))
    main.append("}")
    diag = """
// reporting only: the first code point on which the data goes wrong
fn wf_within(t: &'static [&'static [(u32, u32)]], u: &'static [&'static [(u32, u32)]], k: usize) -> bool {
    k < t.len() && k < u.len() && check::check_list(t[k]) && check::check_list(u[k]) && check::check_within(t[k], u[k])
}
fn at(t: &[&[(u32, u32)]], c: u32) -> Vec<usize> {
    (0..t.len()).filter(|k| t[*k].iter().any(|p| p.0 <= c && c <= p.1)).collect()
}
fn diag(v: &str, t: &[&[(u32, u32)]], u: &[&[(u32, u32)]]) {
    if t.len() == u.len() && t == u { return; }
    for k in 0..t.len().max(u.len()) {
        let (a, b): (&[(u32, u32)], &[(u32, u32)]) = (t.get(k).copied().unwrap_or(&[]), u.get(k).copied().unwrap_or(&[]));
        if a != b {
            for i in 0..a.len().max(b.len()) {
                if a.get(i) != b.get(i) {
                    println!("DIFF {} category {} row {}: tree {:?} database {:?}", v, NAMES[k.min(29)], i, a.get(i), b.get(i)); break;
                }
            }
        }
    }
    for c in 0..0x110000u32 {
        let (x, y) = (at(t, c), at(u, c));
        if x != y {
            let nm = |z: &Vec<usize>| z.iter().map(|k| NAMES[(*k).min(29)]).collect::<Vec<_>>().join("+");
            println!("POINT {} U+{:04X} tree [{}] database [{}]", v, c, nm(&x), nm(&y)); return;
        }
    }
}
"""
    names = "const NAMES: [&str; 30] = [%s];\n" % ", ".join('"%s"' % c for c in order)
    lib = ("#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_upper_case_globals)]\nuse vstd::prelude::*;\n#[path=\"%stables/mod.rs\"]\n#[allow(warnings)]\nmod raw_tables;\nmod snapshot;\npub mod spec;\npub mod twf;\npub mod check;\n" % build_core.SRC
           + names + diag + "\n".join(main) + "\n")
    open(os.path.join(out, "main.rs"), "w").write(lib)
    return len(vers)

if __name__ == "__main__":
    import sys
    generate(sys.argv[1])
