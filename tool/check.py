#!/usr/bin/env python3
"""Decide one property: python3 tool/check.py C01 [quick|thorough]"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_core, tables, verus
from rlex import lex
from extract import flatten

HERE = build_core.HERE
CORE_PROPS = ["C%02d" % i for i in range(1, 19) if i not in (15, 16)]
TITLES = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    _d = json.loads(_l); TITLES[_d["id"]] = _d["title"]

PY_PROPS = ("C15", "C16")

# functions a property also rests on, besides what its theorems call
EXTRA = {
    "C06": [("intervalset", "impl IntervalSet :: fn new")],
    "C07": [("intervalset", "impl IntervalSet :: fn new")],
    "C08": [("intervalset", "impl IntervalSet :: fn new")],
}
SYNTAX = re.compile(r"(expected|unexpected|unclosed|mismatched closing|this file contains|cannot parse|unknown start|leading|missing|prefix)\b")
C17_KINDS = ("overflow", "bounds", "termination", "precondition")

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

class Work:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="uiv-")
    def path(self, *a): return os.path.join(self.d, *a)
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def env_for(work):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = work.path("target")
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e["CARGO_INCREMENTAL"] = "0"
    return e

# ---------------------------------------------------------------- refuter (replay on the real code)

NDA = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}

def by_profile(py):
    """does the text ask which build profile it is compiled in?"""
    d = build_core.REPO + "/crates/unicode-intervals" + ("-py" if py else "") + "/src"
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".rs"):
                with open(os.path.join(root, f), encoding="utf-8", errors="replace") as h:
                    if re.search(r"\bdebug_assert|\boverflow_checks\b|\bopt_level\b", h.read()): return True
    return False

def build_refuter(work, nda=False):
    src = work.path("refuter-nda" if nda else "refuter")
    shutil.copytree(os.path.join(HERE, "refuter"), src, ignore=shutil.ignore_patterns("target"))
    data = os.path.join(work.d, "data")
    if not os.path.exists(data): shutil.copytree(os.path.join(HERE, "data"), data)
    if build_core.REPO != "/repo":
        t = open(src + "/Cargo.toml").read().replace('"/repo/', '"%s/' % build_core.REPO)
        open(src + "/Cargo.toml", "w").write(t)
    p = sh(["cargo", "build", "--offline", "-q", "--manifest-path", src + "/Cargo.toml"], env=dict(env_for(work), CARGO_TARGET_DIR=work.path("target-nda"), **NDA) if nda else env_for(work))
    exe = work.path("target-nda" if nda else "target", "debug", "refuter")
    return (exe if p.returncode == 0 and os.path.exists(exe) else None), p.stderr

def build_python(work, nda=False):
    """the compiled Python binding of the tree, in a folder of its own"""
    x = "-nda" if nda else ""
    src, R = work.path("pysrc" + x), build_core.REPO
    os.makedirs(src)
    shutil.copytree(R + "/crates", src + "/crates", ignore=shutil.ignore_patterns("target", "*.so", "__pycache__", ".git"))
    for f in os.listdir(R):
        if f in ("Cargo.toml", "Cargo.lock") or (f.endswith(".md") and os.path.isfile(R + "/" + f)): shutil.copy(R + "/" + f, src)
    e = env_for(work)
    e["CARGO_TARGET_DIR"] = work.path("pytarget" + x)
    if nda: e.update(NDA)
    if os.path.exists("/opt/vp/venv/bin/python"): e["PYO3_PYTHON"] = "/opt/vp/venv/bin/python"
    p = sh(["cargo", "build", "--offline", "-q", "-p", "unicode-intervals-py"], env=e, cwd=src)
    so = work.path("pytarget" + x, "debug", "libunicode_intervals.so")
    if p.returncode != 0 or not os.path.exists(so): return None, p.stderr
    d = work.path("pymod" + x)
    os.makedirs(d + "/unicode_intervals")
    shutil.copy(src + "/crates/unicode-intervals-py/python/unicode_intervals/__init__.py", d + "/unicode_intervals/")
    shutil.copy(so, d + "/unicode_intervals/unicode_intervals.abi3.so")
    return d, ""

def refute(exe, prop, secs, seed, hints, case=None):
    if isinstance(exe, tuple):
        py = "/opt/vp/venv/bin/python" if os.path.exists("/opt/vp/venv/bin/python") else sys.executable
        cmd = [py, "-B", os.path.join(HERE, "tool", "pydrive.py"), "--refuter", exe[0], "--dir", exe[1], "--prop", prop]
    else: cmd = [exe, "--prop", prop]
    last = None
    tmp = None
    if case is not None:
        fd, tmp = tempfile.mkstemp()
        with os.fdopen(fd, "w") as f: f.write(case)
        cmd += ["--case", "@" + tmp]
    else:
        cmd += ["--secs", str(secs), "--seed", str(seed)] + (["--hints", hints] if hints else [])
        if not isinstance(exe, tuple):
            last = os.path.join(os.path.dirname(exe), "last-%s-%s" % (prop, seed))
            cmd += ["--last", last]
    try: p = sh(cmd, timeout=secs * 3 + 120)
    except subprocess.TimeoutExpired: return {"found": None, "what": "", "cases": 0, "distinct": 0, "samples": [], "raw": "timeout"}
    finally:
        if tmp: os.remove(tmp)
    r = {"found": None, "what": "", "cases": 0, "distinct": 0, "samples": [], "raw": p.stdout[-3000:] + p.stderr[-2000:]}
    for l in p.stdout.splitlines():
        if l.startswith("FOUND "): r["found"] = l[6:]
        elif l.startswith("WHAT "): r["what"] = l[5:]
        elif l.startswith("SAMPLE "): r["samples"].append(l[7:])
        elif l.startswith("NONE "):
            for k in l.split():
                if k.startswith("cases="): r["cases"] = int(k[6:])
                if k.startswith("distinct="): r["distinct"] = int(k[9:])
    if p.returncode not in (0, 1) and r["found"] is None:
        # the process died (stack overflow, abort): the case it was on
        r["raw"] += "\nexit status %d" % p.returncode
        if last and os.path.exists(last):
            c = open(last).read()
            try: q = sh([exe, "--prop", prop, "--case", "@" + last], timeout=60)
            except subprocess.TimeoutExpired: q = None
            if q is not None and q.returncode not in (0, 1): r["found"], r["what"] = c, "the process dies (exit status %d): %s" % (q.returncode, q.stderr.strip()[-300:])
            elif q is not None and q.returncode == 1: r["found"], r["what"] = c, q.stdout.strip().split("WHAT ")[-1][:500]
    return r

def parallel(jobs):
    out = [None] * len(jobs)
    def go(i):
        try: out[i] = jobs[i]()
        except Exception as e:     # reported by the caller
            out[i] = e
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ts: t.start()
    for t in ts: t.join()
    return out

# ---------------------------------------------------------------- hints from the changed text

def mine_hints(ex, changed, path):
    s = set()
    cats = set("Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Ll Sm Lm Sk Mn Lo No Ps Po So Zs Mc Zl Zp Cn Co Cs Lt Lu".split())
    byk = {}
    for mod in ex.cur:
        for it in flatten(ex.cur[mod], mod, []): byk[(mod, it.key)] = it
    ovk = {}
    for mod in ex.ov:
        for it in flatten(ex.ov[mod], mod, []):
            if it.kind != "ghost": ovk[(mod, it.key)] = it
    for k in changed:
        it = byk.get(k)
        if it is None: continue
        old = {t.t for t in ovk[k].toks} if k in ovk else set()
        for t in it.toks:
            fresh = t.t not in old
            if t.k == "num":
                try: n = int(re.sub(r"(_|[iu](8|16|32|64|size)$)", "", t.t.split("u")[0].split("i")[0] if not t.t.startswith("0x") else re.sub(r"[iu](8|16|32|64|size)$", "", t.t)).replace("_", ""), 0)
                except ValueError: continue
                if 3 < n <= 0xffffffff: s.add("n %d" % n)
            elif t.k == "str" and fresh:
                body = t.t.strip('rb#"')
                if 0 < len(body) < 40 and "{" not in body and "\\" not in body: s.add("s " + ".".join("%x" % ord(c) for c in body))
                if re.fullmatch(r"\d+\.\d+\.\d+", body): s.add("v " + body)
            elif t.k == "id" and fresh:
                if t.t in cats: s.add("c " + t.t)
                # a narrow integer type: sizes at which it wraps
                w = re.fullmatch(r"[iu](8|16)", t.t)
                if w: s.update(("n %d" % (1 << int(w.group(1))), "n %d" % (1 << int(w.group(1)) - 1)))
                if re.fullmatch(r"V\d+_\d+_\d+", t.t): s.add("v " + t.t[1:].replace("_", "."))
    open(path, "w").write("\n".join(sorted(s)) + "\n")
    return sorted(s)

PY_ASSUME = [
    "PyO3 calls the function under a #[pyfunction] or #[pymethods] attribute with the converted arguments, and with the value declared in `signature` for an omitted one; `None` for an Option parameter is Rust's None",
    "PyO3 derives `==` of a #[pyclass(eq)] from PartialEq, and a class attribute of the variant's name for every variant of a fieldless enum",
    "conversions of integers, strings, tuples and version objects to Python values do not fail and keep the value; tuples, strings, integers and frozen version objects do not change",
    "the module handle is filled by the module function alone while it runs; python/unicode_intervals/__init__.py binds the extension's names to themselves (its syntax tree is compared on every run; Python's import does the rest)",
    "std::sync::OnceLock: a cell holds the value of the first initialisation that completes, which satisfies what the initialisers given to it establish",
]

# ---------------------------------------------------------------- Verus on the whole crate

class Core:
    """the crate of /repo's working tree under contract, and what the verifier says about it"""
    def __init__(self, work, py=False):
        self.py = py
        self.thm = "pyprops" if py else "props"
        self.work, self.iso, self.dropped, self.notes, self.noghost = work, {}, set(), [], set()
        self.gen = work.path("core")
        self.ok = False

    def build(self):
        self.ex, self.maps = build_core.build(self.gen, isolate=self.iso, drop=self.dropped, drop_ghost=self.noghost, py=self.py)

    def front(self):
        """get the text through the verifier's front end, taking functions out of verification where that is needed"""
        for rnd in range(24):
            try: self.build()
            except Exception as e:
                self.notes.append("extraction failed: %s: %s" % (type(e).__name__, e)); return False
            if self.ex.res.open_items:
                self.notes.append("compiled or not depending on the profile: %s" % self.ex.res.open_items); return False
            for m, k, why in self.ex.res.lost:
                if (m, k) not in self.iso: self.notes.append("%s %s not verified: %s" % (m, k, why))
                self.iso.setdefault((m, k), 1)
            r = verus.run(self.gen, ["--no-verify"], timeout=200)
            if r.rc == 0: return True
            mp = verus.Map(self.gen)
            before = (dict(self.iso), set(self.dropped), set(self.noghost))
            # a text that does not parse hides everything else in its module
            syn = [e for e in r.errors if e["code"] is None and SYNTAX.match(e["msg"])]
            self.round = set()
            for e in syn or r.errors: self.blame(e, mp)
            if (self.iso, self.dropped, self.noghost) == before:
                self.notes.append("front end: " + "; ".join(e["msg"].split("\n")[0] for e in r.errors[:3])[:600] + r.err[-400:] * (not r.errors))
                return False
        return False

    def blame(self, e, mp):
        for file, line, label, prim in e["spans"]:
            b = os.path.basename(file)
            if not os.path.exists(os.path.join(self.gen, b)): continue
            k = mp.repo_fn(file, line)
            if k is not None:
                src = self.maps.get(b, {}).get(line)
                if src and str(src[0]).startswith("overlay ") and k not in self.iso:
                    # an annotation that does not fit the current text
                    g = (src[0][8:], src[1])
                    if (k, g) in self.round: return
                    if g not in self.noghost:
                        self.round.add((k, g))
                        self.noghost.add(g)
                        self.notes.append("annotation left out of %s (%s:%d): %s" % (k[1], g[0], g[1], e["msg"].split("\n")[0][:120]))
                        return
                if k in self.round: return
                self.round.add(k)
                if self.iso.get(k, 0) < 2:
                    self.iso[k] = self.iso.get(k, 0) + 1
                    self.notes.append("%s %s not verified: %s" % (k[0], k[1], e["msg"].split("\n")[0][:200]))
                    return
                continue
            if b in ("props.rs", "pyprops.rs"):
                name = build_core.theorem_at(os.path.join(self.gen, b), line)
                if name and name not in self.dropped:
                    self.dropped.add(name)
                    self.notes.append("theorem %s cannot be stated: %s" % (name, e["msg"].split("\n")[0][:200]))
                    return

    def verify(self, thorough):
        for rnd in range(10):
            if not self.front(): return
            self.res = verus.run_with_vir(self.gen, ["--multiple-errors", "6"], timeout=500)
            if not (self.res.frontend or not self.res.breakdown): break
            # what only the verifying run objects to (a loop without a measure, for one)
            mp, before = verus.Map(self.gen), (dict(self.iso), set(self.dropped), set(self.noghost))
            self.round = set()
            for e in self.res.errors: self.blame(e, mp)
            if (self.iso, self.dropped, self.noghost) == before:
                self.notes.append("verifier: " + "; ".join(e["msg"] for e in self.res.errors[:3])[:500]); return
        else: return
        self.fns = verus.read_vir(self.gen)
        self.map = verus.Map(self.gen, self.fns)
        self.key = {}
        for p, f in self.fns.items():
            if p.startswith("lib::") and f.mode == "Exec":
                k = self.map.repo_fn(f.file, f.line)
                if k: self.key[p] = k
        self.bykey = {}
        for p, k in self.key.items(): self.bykey.setdefault(k, set()).add(p)
        # functions with failed obligations
        self.failed = {}
        for e in self.res.errors:
            p = None
            for file, line, label, prim in e["spans"]:
                b = os.path.basename(file)
                if file != b or not os.path.exists(os.path.join(self.gen, b)): continue
                if label and ("failed this" in label or "failed precondition" in label): continue
                k = self.map.repo_fn(file, line)
                q = sorted(self.bykey.get(k, []))[:1] if k else None
                p = q[0] if q else self.map.vir_fn(file, line)
                # an `ensures` of a trait declaration is not where the failure is
                if p and not (self.fns[p].mode == "Spec"): break
            self.failed.setdefault(p or "?", []).append(e)
        # every function the verifier itself counts as failed must be accounted for
        nf = sum(1 for f in self.res.breakdown.values() if not f.get("success", True))
        if nf and not self.failed: self.failed["?"] = self.res.errors
        self.ok = True

    def roots(self, prop):
        if prop == "C17":
            rs = [p for p in self.key] + [p for p in self.fns if p.startswith("lib::props::c17_")]
        else:
            rs = [p for p in self.fns if p.startswith("lib::%s::%s_" % (self.thm, prop.lower()))]
        for k in EXTRA.get(prop, []): rs += list(self.bykey.get(k, []))
        return rs

    def closure(self, prop):
        return verus.closure(self.fns, self.roots(prop))

    def name(self, p):
        if p in self.key:
            m, k = self.key[p]
            f = self.fns[p]
            loc = self.maps.get(os.path.basename(f.file), {}).get(f.line)
            return "%s: %s%s" % ("unicode-intervals-py lib.rs" if m == "py" else m + ".rs", k, " (%s:%s)" % loc if loc and not str(loc[0]).startswith("overlay") else "")
        return p.replace("lib::", "")

    def canary(self, prop):
        """each theorem of the property followed by `assert(false)`: the verifier must refuse every one"""
        gen = self.work.path("canary")
        shutil.copytree(self.gen, gen, ignore=shutil.ignore_patterns("vir"))
        names = build_core.make_canary(gen, prop.lower() + "_")
        if not names: return 0, 0, "no theorem"
        r = verus.run(gen, ["--verify-module", "canary", "--multiple-errors", "0"], timeout=200)
        if r.frontend: return len(names), -1, r.err[-500:]
        bad = set()
        for e in r.errors:
            for file, line, label, prim in e["spans"]:
                if os.path.basename(file) == "canary.rs":
                    n = build_core.theorem_at(os.path.join(gen, "canary.rs"), line)
                    if n: bad.add(n)
        return len(names), len(set(names) - bad), ", ".join(sorted(set(names) - bad))

# ---------------------------------------------------------------- tables

def run_tables(work):
    gen = work.path("tables")
    try:
        tables.generate(gen)
        p = sh(["verus", "main.rs", "--compile", "-o", work.path("tables", "run"), "--triggers-mode", "silent"], cwd=gen, timeout=300)
        m = re.search(r"(\d+) verified, (\d+) errors", p.stdout + p.stderr)
        if not m or m.group(2) != "0" or int(m.group(1)) < 15 or not os.path.exists(gen + "/run"):
            return {"ok": False, "why": "table checker not built: " + (p.stdout + p.stderr)[-600:], "verified": 0, "lines": []}
        q = sh([gen + "/run"], timeout=120)
        return {"ok": q.returncode == 0, "why": q.stderr[-400:], "verified": int(m.group(1)), "lines": q.stdout.splitlines()}
    except Exception as e:
        return {"ok": False, "why": "%s: %s" % (type(e).__name__, e), "verified": 0, "lines": []}

def table_facts(t, prop):
    """(facts checked, failed facts) of the table data that a property rests on"""
    good, bad, diff = [], [], []
    for l in t["lines"]:
        w = l.split()
        if w[0] in ("DIFF", "POINT"): diff.append(l); continue
        if w[0] == "ROWS" or w[0] == "SNAP" and w[-1] == "true": continue
        if w[0] in ("WF", "MISSING") or prop in ("C05",) and w[0] in ("SAME", "CN", "FIXED") or w[0] == "SNAP":
            (good if w[-1] == "true" else bad).append(l)
    return good, bad, diff

# ---------------------------------------------------------------- known findings

def known(prop):
    p, out = os.path.join(HERE, "known_findings.txt"), []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop): out.append(l.strip())
    return out

# ---------------------------------------------------------------- the Python package around the extension

PY_NAMES = {"UnicodeVersion", "as_general_categories", "available_versions", "categories", "query"}

def reexports():
    """None if python/unicode_intervals/__init__.py only re-exports the extension's names under their own names, else why not"""
    import ast
    f = build_core.REPO + "/crates/unicode-intervals-py/python/unicode_intervals/__init__.py"
    try: tree = ast.parse(open(f).read())
    except Exception as e: return "cannot read it: %s" % e
    got = set()
    for n in tree.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Pass): continue
        if isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
            try: v = ast.literal_eval(n.value)
            except Exception: return "__all__ is computed"
            if not PY_NAMES <= set(v): return "__all__ leaves out %s" % sorted(PY_NAMES - set(v))
            continue
        if isinstance(n, ast.ImportFrom) and n.level == 1 and n.module == "unicode_intervals":
            for a in n.names:
                if a.name == "*" or (a.asname not in (None, a.name)): return "line %d imports under another name" % n.lineno
                got.add(a.name)
            continue
        if isinstance(n, ast.ImportFrom) and n.module == "__future__": continue
        return "line %d is not a re-export" % n.lineno
    left = [x for x in os.listdir(os.path.dirname(f)) if x.endswith(".py") and x != "__init__.py"]
    if left: return "the package has other modules: %s" % left
    return None if PY_NAMES <= got else "not re-exported: %s" % sorted(PY_NAMES - got)

# ---------------------------------------------------------------- one property

# std functions whose assumed contract gives the result exactly
EXACT = {"wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub", "checked_add", "checked_sub", "len", "is_empty", "push",
         "pop", "clear", "truncate", "swap", "unwrap", "expect", "clone", "then", "then_some", "insert", "remove", "leading_zeros", "trailing_zeros"}

def small_edit(ex, key):
    """the text of a function differs in a few tokens only: same loops, no new calls to unknown functions"""
    info = ex.res.changed.get(key)
    if info is None: return True
    if "ins" not in info or info.get("dropped") or info.get("closures"): return False
    # a call of something whose contract is not known to say all there is to say
    known = {k.rsplit("fn ", 1)[-1] for m, k, *_ in ex.res.fns} - {k.rsplit("fn ", 1)[-1] for m, k in ex.res.new_fns}
    if any(c not in EXACT and c not in known and not c[0].isupper() for c in info.get("calls", [])): return False
    # bit tricks: the solver knows only the lemmas it is given
    if info.get("bitops"): return False
    return info["ins"] + info["del"] + info["sub"] <= 16

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    work = Work()
    try:
        return decide(prop, tier, seed, thorough, work, t0)
    finally:
        work.close()

def decide(prop, tier, seed, thorough, work, t0):
    py = prop in PY_PROPS
    core = Core(work, py)
    box = {}
    def job_core():
        core.verify(thorough)
        if core.ok: box["canary"] = core.canary(prop)
    def job_tables(): box["tables"] = run_tables(work)
    def job_refuter():
        if py:
            a, b = parallel([lambda: build_refuter(work), lambda: build_python(work)])
            for x in (a, b):
                if isinstance(x, Exception): raise x
            box["exe"] = (a[0], b[0]) if a[0] and b[0] else None
        else: box["exe"], _ = build_refuter(work)
        if box["exe"]: box["smoke"] = refute(box["exe"], prop, 120 if thorough else 8, seed, None)
        # two builds where the text differs between them
        if box["exe"] and by_profile(py):
            if py:
                d, _ = build_python(work, True)
                if d: box["exe2"] = (box["exe"][0], d)
            else: box["exe2"], _ = build_refuter(work, True)
            if box.get("exe2") and not box["smoke"]["found"]:
                r = refute(box["exe2"], prop, 120 if thorough else 8, seed, None)
                if r["found"]: box["smoke"] = dict(r, release=True)
    for e in parallel([job_core, job_tables, job_refuter]):
        if isinstance(e, Exception): raise e
    exe, tb, smoke = box["exe"], box["tables"], box.get("smoke")
    exe2 = box.get("exe2")
    ex = getattr(core, "ex", None)

    # what the property rests on
    clo = core.closure(prop) if core.ok else set()
    mine = sorted(p for p in clo if p.startswith("lib::"))
    uses_tables = "lib::tspec::axiom_tables" in clo or prop in ("C04", "C05")
    tgood, tbad, tdiff = table_facts(tb, prop) if uses_tables else ([], [], [])
    if uses_tables and prop in ("C04", "C05") and not tb["ok"]: core.notes.append(tb["why"])

    obl = [p for p in mine if p in core.fns and core.fns[p].mode in ("Exec", "Proof") and not core.fns[p].external and not core.fns[p].nobody]
    # the binding is decided against the contracts of the core, which C01-C14, C17 and C18 discharge
    relative = sorted(p for p in obl if prop == "C16" and p in core.key and core.key[p][0] != "py")
    obl = [p for p in obl if p not in relative]
    failed, undecided = {}, {}
    lost_thm = sorted(n for n in core.dropped if n.startswith(prop.lower() + "_"))
    if core.ok:
        newfns = {k for k in ex.res.new_fns}
        for p, es in core.failed.items():
            if p != "?" and p not in clo: continue
            key = core.key.get(p)
            und = p == "?" or all(e["kind"] in ("rlimit", "frontend", "rtassert") for e in es)
            if key and (key in newfns or not small_edit(ex, key)): und = True
            # a lemma over the vocabulary alone says nothing about the tree: its failure is the solver's
            if not key and not any(q in core.key for q in verus.closure(core.fns, [p])): und = True
            if py and not (key and key[0] == "py" or p.startswith(("lib::pyprops::", "lib::bind::", "lib::py::"))): und = True
            # the failing text uses something that has no contract
            if any(q in core.key and core.key[q] in newfns for q in core.fns[p].uses) if p in core.fns else False: und = True
            (undecided if und else failed)[p] = es
        for k in core.iso:
            ps = core.bykey.get(k, set())
            if prop == "C17" or (ps & clo) or not ps:
                undecided.setdefault(sorted(ps)[0] if ps else "%s|%s" % k, [])
    if core.ok:
        # a method of a trait written anew (an override of a provided method, or a trait the overlay does not know)
        # changes what callers of that trait see, whatever the contracts of the other methods say
        mine_keys = [core.key[p][1] for p in clo if p in core.key]
        for m, k in ex.res.new_fns:
            r = re.match(r"impl\b.*? for (?:& (?:'\w+ )?(?:mut )?)?(\w+).* :: fn (\w+)$", k)
            # equality of these types has a contract of its own (PartialEqSpecImpl in the overlay)
            if re.search(r"PartialEq for (?:UnicodeVersion|UnicodeCategory|UnicodeCategorySet|PyUnicodeVersion) :: fn eq$", k) and (m, k) not in core.iso: continue
            if r and any(re.search(r"\b%s\b" % r.group(1), q) for q in mine_keys):
                undecided.setdefault("%s|%s" % (m, k), [])
                core.notes.append("%s %s: a trait method without contract" % (m, k))
    if py:
        why = reexports()
        if why:
            undecided.setdefault("py|__init__.py", [])
            core.notes.append("python/unicode_intervals/__init__.py: " + why)
    proved = core.ok and not failed and not undecided and not lost_thm and obl and not tbad and (tb["ok"] or not uses_tables)
    can = box.get("canary")
    vacuous = False
    if proved:
        if can is None or can[0] == 0 or can[1] != 0:
            vacuous = True; proved = False
            core.notes.append("vacuity guard: %s" % (can,))

    # counterexample search on the real code
    found, runs = None, []
    if smoke: runs.append(smoke)
    if smoke and smoke["found"]: found = smoke
    explained = None
    hints = []
    if not proved and not found and exe:
        changed = set(ex.res.changed) | set(ex.res.new_fns) if ex else set()
        hp = work.path("hints")
        hints = mine_hints(ex, changed, hp) if ex else []
        with open(hp, "a") as h:
            for l in tdiff:
                m = re.match(r"POINT (\S+) U\+([0-9A-F]+)", l)
                if m: h.write("n %d\nv %s\n" % (int(m.group(2), 16), m.group(1)))
        secs = 150 if thorough else 60
        def attempt(i):
            other = exe2 and i % 2
            return dict(refute(exe2 if other else exe, prop, secs, seed * 100 + i, hp), release=bool(other))
        for r in parallel([lambda i=i: attempt(i) for i in range(6)]):
            if isinstance(r, Exception): continue
            runs.append(r)
            if r["found"] and not found: found = r
        if not found and failed:
            others = []
            for q in CORE_PROPS:
                if not py and q != prop and (set(failed) & core.closure(q) or q == "C17"): others.append(q)
            for q, r in zip(others, parallel([lambda q=q: refute(exe, q, 12, seed, hp) for q in others])):
                if not isinstance(r, Exception) and r["found"]: explained = (q, r); break

    # verdict
    violation, no_input = False, False
    why = []
    if found: violation = True
    elif prop in ("C04", "C05") and tb["ok"] and tbad:
        violation = True      # decided by the checker run on the data itself; the row is the failing input
        why = tdiff[:10] + tbad
    elif failed and not explained:
        kinds = {e["kind"] for es in failed.values() for e in es}
        functional = kinds - set(("overflow", "bounds", "termination"))
        mineq = (prop == "C17" and kinds & set(C17_KINDS)) or (prop != "C17" and functional)
        if mineq: violation = no_input = True
    known_hits = []
    for k in known(prop):
        m = re.search(r" case=(.*)$", k)
        if m and exe:
            r = refute(exe, prop, 1, seed, None, case=m.group(1))
            if r["found"]: known_hits.append(k)
    if violation and found and any(found["found"].strip() == re.search(r" case=(.*)$", k).group(1).strip() for k in known_hits if " case=" in k):
        violation = False
    for k in known_hits: print("KNOWN-FINDING: property=%s %s" % (prop, k.split(" ", 2)[2]))

    report = render_report(prop, core, failed, undecided, found, tb, tbad, tdiff, explained, no_input, lost_thm)
    rp = None
    if violation:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", prop + ".txt")
        open(rp, "w").write(report)

    write_evidence(prop, tier, seed, t0, core, clo, obl, relative, failed, undecided, proved, found, runs, tb, tgood, tbad, uses_tables, can, violation, lost_thm, explained, vacuous)
    if proved: print("%s: proved: %d functions, %d table facts, %.1f s" % (prop, len(obl), len(tgood), time.time() - t0))
    else:
        print("%s: not proved in this run: %s" % (prop, "; ".join(["failed: " + core.name(p) for p in failed] + ["undecided: " + core.name(p) if p in getattr(core, "fns", {}) else "undecided: " + p for p in undecided] + ["theorem " + n for n in lost_thm] + core.notes[:4])[:1500]))
        if not violation: print("%s: bounded check on the real code instead: %d cases, none fails%s" % (prop, sum(r["cases"] for r in runs), "; the failed obligation is a violation of %s (%s)" % (explained[0], explained[1]["found"][:120]) if explained else ""))
    if violation:
        for l in report.splitlines()[:40]: print("  " + l)
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, " no-failing-input-found" if no_input else ""))
        return 1
    return 0

def render_report(prop, core, failed, undecided, found, tb, tbad, tdiff, explained, no_input, lost_thm):
    o = ["property %s: %s" % (prop, TITLES.get(prop, ""))]
    if found:
        arg = found["found"].replace("'", "'\\''")
        if len(arg) > 1500:
            arg = "@" + os.path.join(HERE, "replay", prop + ".case")
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            open(arg[1:], "w").write(found["found"])
        o += ["failing input: " + found["found"], "observed: " + found["what"], "replay: bash /verif/tool/replay.sh %s '%s'%s" % (prop, arg, " nda   (a build without debug assertions and overflow checks)" if found.get("release") else "")]
    for l in tdiff[:20] + tbad: o.append("table data: " + l)
    for p, es in failed.items():
        o.append("failed obligation in " + core.name(p))
        for e in es[:6]: o += ["  " + l for l in e["rendered"].splitlines()[:30]]
    if no_input: o.append("the verifier gives no counterexample and none was found on the real code")
    for p in undecided: o.append("undecided: " + (core.name(p) if p in getattr(core, "fns", {}) else p))
    for n in lost_thm: o.append("theorem not stated: " + n)
    o += ["note: " + n for n in core.notes]
    return "\n".join(o) + "\n"

def write_evidence(prop, tier, seed, t0, core, clo, obl, relative, failed, undecided, proved, found, runs, tb, tgood, tbad, uses_tables, can, violation, lost_thm, explained, vacuous):
    cov = {}
    trusted, assume = [], []
    if core.ok:
        fns = core.fns
        mine = [fns[p] for p in clo if p in fns]
        for f in sorted(mine, key=lambda f: f.path):
            p = f.path
            if p.startswith("lib::"):
                if p in core.key and f.external: trusted.append("NOT VERIFIED IN THIS RUN, contract assumed: " + core.name(p))
                elif f.external and f.mode == "Proof" and p != "lib::tspec::axiom_tables": trusted.append("axiom " + core.name(p))
                elif f.external and f.mode == "Exec": trusted.append("assumed contract (external body) " + core.name(p))
            elif not p.startswith("vstd::") and f.mode == "Exec" and f.proxied: trusted.append("assumed contract of the standard library: " + p)
        nv = len([f for f in mine if f.path.startswith("vstd::")])
        trusted.append("vstd (the verifier's own library of specifications): %d items used" % nv)
        repo = sorted(core.name(p) for p in clo if p in core.key and not fns[p].external and p not in relative)
        for p in relative: trusted.append("contract discharged by the checks of the core properties, assumed here: " + core.name(p))
        if core.py: assume.extend(PY_ASSUME)
        thms = sorted(p.split("::")[-1] for p in clo if re.match(r"lib::%s::%s_" % (core.thm, prop.lower()), p))
        ok = [p for p in obl if p not in failed and p not in undecided]
        nt = len(tgood) + len(tbad)
        cov.update({
            "obligations": len(obl) + nt, "discharged": len(ok) + len(tgood),
            "checker_cmd": "python3 tool/check.py %s %s  (in the generated crate: %s)" % (prop, tier, " ".join(core.res.cmd)),
            "functions_under_contract": repo, "theorems": thms,
            "lemmas_and_theorems": len([p for p in obl if p not in core.key]),
            "back_end": "Verus 0.2026.09.13 / Z3 (SMT)%s" % ("; table facts: checker verified by Verus (%d functions), compiled and executed on the tables of the tree" % tb["verified"] if uses_tables else ""),
            "solver_ms_whole_crate": core.res.smt_ms, "verus_wall_s": round(core.res.wall, 1), "whole_crate": {"verified": core.res.verified, "errors": core.res.nerr},
            "slowest_function_ms": max((f.get("time", 0) for f in core.res.breakdown.values()), default=0),
            "vacuity_guard": "theorems with a false assertion appended: %d, accepted by the verifier: %d (must be 0)" % (can[0], can[1]) if can else "not run",
            "extraction_rules_applied": core.ex.res.rules, "functions_changed_since_annotation": [list(k)[1] for k in core.ex.res.changed],
            "inlined_helpers": [list(map(str, x)) for x in core.ex.res.inlined],
        })
        if uses_tables: cov["table_facts"] = tgood + tbad
        if failed: cov["failed"] = [core.name(p) for p in failed]
        if undecided: cov["undecided_bounded_instead"] = [core.name(p) if p in fns else p for p in undecided]
    cov["trusted_base"] = trusted + ["Verus, Z3 and rustc", "the extraction step (tool/): what it rewrites is listed in DESIGN.md"] + (["data/ucd.txt is the Unicode Character Database (cross-checked against Python, Node and Perl when it was written)"] if prop == "C05" else [])
    ev = sum(r["cases"] for r in runs)
    cov["replay_cross_check"] = {"role": "bounded, not counted as proof: random cases on the compiled crate against an independent oracle", "evaluations": ev, "distinct": max([r["distinct"] for r in runs] + [0]), "samples": [s for r in runs for s in r["samples"]][:4]}
    level = "proof"
    if not proved:
        level = "exploration" if not violation else "proof"
        cov.update({"evaluations": ev, "distinct_nontrivial": sum(r["distinct"] for r in runs[:1]), "rule": "random and fixed cases for this property on the compiled crate against the oracle; distinct by case text", "samples": [s for r in runs for s in r["samples"]][:4] or ["none"]})
        cov.setdefault("obligations", 0); cov.setdefault("discharged", 0); cov.setdefault("checker_cmd", "python3 tool/check.py %s %s" % (prop, tier))
    if explained: cov["explained_by"] = "%s: %s" % (explained[0], explained[1]["found"])
    assume += ["heap allocation succeeds; collections hold fewer elements than usize::MAX permits" ]
    assume += core.notes
    e = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(e, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
