"""Run Verus on a generated crate; map its answers to functions of /repo."""
import json, os, re, subprocess, time

def run(gen, args=(), timeout=600, vir=False, threads=None):
    cmd = ["verus", "--crate-type", "lib", "lib.rs", "--triggers-mode", "silent", "--error-format=json", "--output-json", "--time-expanded"] + list(args)
    if vir: cmd += ["--log-dir", "vir", "--log", "vir"]
    if threads: cmd += ["--num-threads", str(threads)]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=gen, capture_output=True, text=True, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = "", "timeout", -1
    return Result(gen, cmd, out, err, rc, time.time() - t)

class Fn:
    def __init__(self, path, file, line):
        self.path, self.file, self.line = path, file, line
        self.nobody, self.proxied = False, False
        self.impls = set()
        self.uses, self.dyn, self.mode, self.external, self.method, self.uninterp = set(), set(), "", False, None, False

class Result:
    def __init__(self, gen, cmd, out, err, rc, wall):
        self.gen, self.cmd, self.rc, self.wall, self.err = gen, cmd, rc, wall, err
        try: self.js = json.loads(out)
        except ValueError: self.js = {}
        vr = self.js.get("verification-results", {})
        self.verified, self.nerr = vr.get("verified"), vr.get("errors")
        self.success = bool(vr.get("success"))
        self.diags = []
        for l in err.splitlines():
            if l.startswith("{"):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get("level") == "error" and not d["message"].startswith("aborting due to"): self.diags.append(d)
        self.errors = [self.err_of(d) for d in self.diags]
        # an error that is not a failed obligation: the text did not get through the front end
        self.frontend = self.verified is None or bool(vr.get("encountered-vir-error"))
        self.breakdown = {}
        for m in (self.js.get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []) or []:
            for f in m["function-breakdown"]: self.breakdown[f["function"]] = f
        if not self.breakdown and self.errors: self.frontend = True
        self.smt_ms = sum(f.get("time", 0) for f in self.breakdown.values())

    def err_of(self, d):
        spans = [(s["file_name"], s["line_start"], s.get("label"), s.get("is_primary")) for s in d["spans"]]
        spans.sort(key=lambda s: not s[3])
        # where the macro was used
        for s in d["spans"]:
            x = (s.get("expansion") or {}).get("span")
            if x: spans.append((x["file_name"], x["line_start"], None, False))
        msg = d["message"]
        k = "other"
        for pat, kind in (("Resource limit", "rlimit"), ("rlimit", "rlimit"), ("timed out", "rlimit"), ("arithmetic", "overflow"), ("overflow", "overflow"), ("underflow", "overflow"), ("division by zero", "overflow"),
                          ("bit shift", "overflow"), ("precondition", "precondition"), ("postcondition", "postcondition"), ("invariant", "invariant"),
                          ("decreases", "termination"), ("termination", "termination"), ("assertion", "assertion"), ("assert", "assertion"), ("unwind", "overflow"), ("index", "bounds")):
            if pat in msg: k = kind; break
        if k == "other" and self_is_frontend(msg): k = "frontend"
        # an assertion written in the code itself (exec `assert!`)
        for sp in d["spans"]:
            if k == "precondition" and sp.get("is_primary") and sp.get("text"):
                x = sp["text"][0]
                if re.match(r"(?:\w+\s*::\s*)*assert\s*!", x["text"][x["highlight_start"] - 1:]): k = "rtassert"
        return {"msg": msg, "kind": k, "spans": spans, "rendered": d.get("rendered", ""), "code": (d.get("code") or {}).get("code") if d.get("code") else None}

def self_is_frontend(msg):
    return True

HEAD = re.compile(r'^\(@ "([^"]*?):(\d+):\d+: [^"]*" \(Function\b')

def run_with_vir(gen, args=(), timeout=600):
    """verify and dump the typed representation; where the dump cannot be printed (a string literal with a quote), dump it from a text whose string literals are replaced"""
    r = run(gen, args, timeout, vir=True)
    if "invalid atom" not in r.err: return r
    import shutil
    from rlex import lex
    g2 = gen + ".dump"
    shutil.rmtree(g2, ignore_errors=True)
    shutil.copytree(gen, g2, ignore=shutil.ignore_patterns("vir"))
    for f in os.listdir(g2):
        if not f.endswith(".rs"): continue
        p = os.path.join(g2, f)
        src = open(p, encoding="utf-8").read()
        # only the literals that cannot be printed
        src = re.sub(r'"(?:[^"\\\n]|\\.)*\\["\\](?:[^"\\\n]|\\.)*"', lambda m: '"replaced"', src)
        open(p, "w", encoding="utf-8").write(src)
    d = run(g2, ["--no-verify"], timeout, vir=True)
    r = run(gen, args, timeout)
    if d.rc == 0:
        shutil.rmtree(os.path.join(gen, "vir"), ignore_errors=True)
        shutil.copytree(os.path.join(g2, "vir"), os.path.join(gen, "vir"))
    shutil.rmtree(g2, ignore_errors=True)
    return r

def read_vir(gen):
    """path -> Fn, from the verifier's own typed representation of the crate"""
    fns, cur, buf = {}, None, []
    def flush():
        if cur is None: return
        text = " ".join(buf)
        m = re.search(r":name \(Fun\s+:path\s+([^\s()]+)", text)
        if not m: return
        f = Fn(m.group(1), cur[0], cur[1])
        f.uses = set(re.findall(r"\(Fun\s+:path\s+([^\s()]+)", text)) - {f.path}
        # the impls a generic call is resolved with: their methods may run
        f.impls = set(re.findall(r"TraitImplPath\s+(lib::[^\s()]+)", text))
        f.dyn = set(re.findall(r"\(CallTargetKind\s+Dynamic\)\s+\(Fun\s+:path\s+([^\s()]+)", text))
        m = re.search(r":owning_module\s+\S+\s+:mode\s+(\w+)|:mode\s+(\w+)\s+:typ_params", text)
        f.mode = (m.group(1) or m.group(2)) if m else ""
        f.external = ":is_external_body true" in text
        f.uninterp = "(BodyVisibility Uninterpreted)" in text
        m = re.search(r":kind\s+\(FunctionKind\s+TraitMethodImpl\s+:method\s+\(Fun\s+:path\s+([^\s()]+)", text)
        f.method = m.group(1) if m else None
        f.nobody = bool(re.search(r":is_async (?:false|true)\s*\) :body None", text))
        f.proxied = bool(re.search(r":proxy\s+\(@", text))
        fns[f.path] = f
    with open(os.path.join(gen, "vir", "crate.vir"), encoding="utf-8") as h:
        for line in h:
            if line.startswith("(@") or (line.startswith("(") and not line.startswith("(@@")):
                flush(); cur, buf = None, []
                m = HEAD.match(line)
                if m: cur = (m.group(1), int(m.group(2)))
            if cur is not None: buf.append(line.strip())
    flush()
    groups(gen, fns)
    return fns

def groups(gen, fns):
    """broadcast groups and module-level `broadcast use` are not in the dump; add them from the text"""
    for f in os.listdir(gen):
        if not f.endswith(".rs"): continue
        mod = f[:-3]
        text = open(os.path.join(gen, f), encoding="utf-8").read()
        def full(n):
            n = n.strip()
            if n.startswith("crate::"): return "lib::" + n[7:]
            if n.startswith("vstd::"): return n
            return ("lib::" if mod == "lib" else "lib::%s::" % mod) + n
        for m in re.finditer(r"broadcast group (\w+) \{([^}]*)\}", text):
            g = Fn(full(m.group(1)), f, text.count("\n", 0, m.start()) + 1)
            g.mode = "Group"
            g.uses = {full(x) for x in re.sub(r"//[^\n]*", "", m.group(2)).split(",") if x.strip()}
            fns[g.path] = g
        m = re.search(r"^broadcast use \{?([\w:, \n]+)\}?;", text, re.M)
        if m:
            us = {full(x) for x in m.group(1).split(",") if x.strip()}
            for x in list(fns.values()):
                if x.file == f and x.mode in ("Exec", "Proof"): x.uses |= us

def closure(fns, roots):
    impls, members = {}, {}
    for f in fns.values():
        if "impl&%" in f.path and f.mode == "Exec": members.setdefault(f.path.rsplit("::", 1)[0], set()).add(f.path)
    for f in fns.values():
        if f.method: impls.setdefault(f.method, set()).add(f.path)
    seen, todo = set(), [r for r in roots if r in fns]
    while todo:
        p = todo.pop()
        if p in seen: continue
        seen.add(p)
        f = fns.get(p)
        if f is None: continue
        nxt = set(f.uses)
        for d in f.dyn: nxt |= impls.get(d, set())
        for i in f.impls: nxt |= members.get(i, set())
        todo += [n for n in nxt if n not in seen]
    return seen

class Map:
    """generated lines -> function of /repo or of the overlay"""
    def __init__(self, gen, fns=None):
        self.ranges = {}
        for f in os.listdir(gen):
            if not f.endswith(".rs"): continue
            r, cur = [], None
            for n, l in enumerate(open(os.path.join(gen, f), encoding="utf-8"), 1):
                s = l.strip()
                if s.startswith("// @fn "): cur = (n, s[7:])
                elif s == "// @end" and cur: r.append((cur[0], n, tuple(cur[1].split("|", 1)))); cur = None
            self.ranges[f] = r
        self.starts = {}
        if fns:
            for f in fns.values():
                if f.path.startswith("lib::"): self.starts.setdefault(f.file, []).append((f.line, f.path))
            for v in self.starts.values(): v.sort()
        self.gen = gen

    def repo_fn(self, file, line):
        for a, b, k in self.ranges.get(os.path.basename(file), []):
            if a <= line <= b: return k
        return None

    def vir_fn(self, file, line):
        best = None
        for l, p in self.starts.get(os.path.basename(file), []):
            if l <= line: best = p
            else: break
        return best
