"""Mechanical extraction of /repo's crate into a Verus crate.

The executable text is always the one in /repo at the time of the run; the overlay only supplies
ghost annotations (contracts, invariants, proof blocks), which are woven into the current text."""
import os, re, sys, difflib
from rlex import Tok, lex, norm, text, match_close, LexError
import ritems, desugar, cfg
from weave import weave, split_ghost, Lost

KEEP_DERIVE = {"Debug", "Clone", "Copy", "PartialEq", "Eq", "Hash"}
VIS_DROP = set()

class Result:
    def __init__(self):
        self.open_items = []  # items whose presence depends on the build profile
        self.lost = []        # (module, key, why): functions whose annotations could not be placed
        self.new_fns = []     # functions in /repo without a contract
        self.missing = []     # functions under contract that no longer exist
        self.changed = {}     # (module,key) -> weave info
        self.dropped = []     # items left out of the verified text
        self.rules = {}       # desugaring rule -> count
        self.fns = []         # all functions emitted
        self.inlined = []
        self.forms = []       # functions matched with an alternative form of the overlay
        self.isolated = []    # functions whose body is not verified in this run

def ghost_text(t):
    return t

def flatten(items, module, out):
    for it in items:
        if it.children is not None:
            flatten(it.children, module, out)
        else:
            out.append(it)
    return out

def attach_attrs(items):
    """ghost items consisting only of attributes belong to the next item"""
    out, pend = [], []
    for it in items:
        if it.kind == "ghost":
            s = it.toks[0].t.strip()
            if s.startswith("#[") and s.endswith("]"):
                pend.append(s); continue
            it.gattrs = []
            out.append(it); continue
        it.gattrs = pend; pend = []
        if it.children is not None: it.children = attach_attrs(it.children)
        out.append(it)
    return out

def drop_item(it):
    return ritems.is_cfg(it.attrs, "test") or ritems.is_cfg(it.attrs, "__benchmark_internals") or ritems.is_cfg(it.attrs, "kani")

def filt(items):
    out = []
    for it in items:
        if drop_item(it): continue
        if it.children is not None: it.children = filt(it.children)
        out.append(it)
    return out

class Extractor:
    def __init__(self, overlay_dir, sources, rewrites=None, special=None, isolate=(), drop_ghost=(), prep=lambda t: t):
        """sources: list of (module name, repo path, overlay file)
        isolate: (module, key) of functions whose body is taken as it is, unverified, behind the contract"""
        self.res = Result()
        self.isolate = dict(isolate) if isinstance(isolate, dict) else {k: 1 for k in isolate}
        self.drop_ghost = set(drop_ghost)
        self.sources = sources
        self.cur, self.ov = {}, {}
        self.raw = {}
        for mod, path, ovf in sources:
            rel = os.path.relpath(path, "/repo") if path else mod
            src = open(path, encoding="utf-8").read() if path else ""
            self.raw[mod] = src
            toks = cfg.resolve(prep(lex(src, rel)))
            self.cur[mod] = filt(ritems.parse(toks))
            ovsrc = open(os.path.join(overlay_dir, ovf), encoding="utf-8").read() if ovf else ""
            self.ov[mod] = attach_attrs(filt(ritems.parse(lex(ovsrc, ovf))))
        self.load_forms(overlay_dir)
        self.match_fns()
        ovkeys = {m: self.index(self.ov[m]) for m in self.ov}
        import inline
        inline.run(self.cur, lambda m, k: self.fn_rename.get((m, k), k) in ovkeys[m], self.res, self.fn_rename)
        self.special = special or (lambda ex, mod, it, toks: toks)
        self.renames = self.global_renames()

    def load_forms(self, overlay_dir):
        """annotated alternative forms of bodies: {(module, key): [(number, tokens)]}; contracts come from the main overlay"""
        self.alt = {}
        p = os.path.join(overlay_dir, "forms.rs")
        if not os.path.exists(p): return
        key, st = None, 0
        lines = open(p, encoding="utf-8").read().split("\n")
        marks = [n for n, l in enumerate(lines) if l.startswith("//# ")] + [len(lines)]
        for a, b in zip(marks, marks[1:]):
            mod, key = lines[a][4:].strip().split("|", 1)
            toks = lex("\n" * (a + 1) + "\n".join(lines[a + 1:b]), "forms.rs")
            l = self.alt.setdefault((mod, key), [])
            l.append((len(l) + 1, desugar.strip_attrs(toks)))

    def best_form(self, mod, key, otoks, cur):
        """the annotated form of the body nearest to the current text"""
        key = self.fn_rename.get((mod, key), key)
        forms = self.alt.get((mod, key))
        code, _ = split_ghost(otoks)
        if not forms or [t.t for t in code] == [t.t for t in cur]: return otoks, 0
        def body(ts, ghosts=True):
            n, c = desugar.body_open([t for t in ts if t.k != "ghost"]), 0
            for i, t in enumerate(ts):
                if t.k == "ghost": continue
                if c == n: return i
                c += 1
        from weave import align
        now = cur[body(cur):]
        def score(ts):
            b = split_ghost(ts[body(ts):])[0]
            m = align(b, now)
            pairs = [(b[i].t, now[j].t) for i, j in enumerate(m) if j is not None and (b[i].t == now[j].t or b[i].k == "id" and now[j].k == "id")]
            fwd, back = {}, {}
            for x, y in pairs:
                fwd.setdefault(x, {}).setdefault(y, 0); fwd[x][y] += 1
                back.setdefault(y, {}).setdefault(x, 0); back[y][x] += 1
            top = lambda d: max(d, key=d.get)
            # a renamed identifier counts only where the renaming is consistent
            return sum(1 for x, y in pairs if x == y or top(fwd[x]) == y and top(back[y]) == x) * 2 / (len(b) + len(now))
        best, form = score(otoks), 0
        res = otoks
        for n, ts in forms:
            s = score(ts)
            if s > best: best, form, res = s, n, otoks[:body(otoks)] + ts[body(ts):]
        return res, form

    def index(self, items):
        d = {}
        def go(its):
            for it in its:
                if it.kind == "ghost": continue
                d.setdefault(it.key, it)
                if it.children is not None: go(it.children)
        go(items)
        return d

    def match_fns(self):
        """functions renamed in place: same scope, missing in one / new in the other, similar text"""
        self.fn_rename = {}
        for m in self.ov:
            o, c = self.index(self.ov[m]), self.index(self.cur[m])
            for k, it in o.items():
                if k in c or it.kind != "fn": continue
                scope = k.rsplit("fn ", 1)[0]
                best = None
                for k2, it2 in c.items():
                    if k2 in o or it2.kind != "fn" or k2.rsplit("fn ", 1)[0] != scope: continue
                    a = [t.t for t in split_ghost(it.toks)[0]]; b = [t.t for t in it2.toks]
                    r = difflib.SequenceMatcher(None, a, b, autojunk=False).ratio()
                    if r > 0.7 and (best is None or r > best[0]): best = (r, k2)
                if best:
                    self.fn_rename[(m, best[1])] = k

    def global_renames(self):
        """identifiers (fields, private functions, constants) consistently renamed across the crate"""
        ovids, curids = set(), set()
        def ids(items, s):
            for it in items:
                if it.kind == "ghost": continue
                if it.children is not None: ids(it.children, s)
                for t in it.toks:
                    if t.k == "id": s.add(t.t)
        for m in self.ov:
            ids(self.ov[m], ovids); ids(self.cur[m], curids)
        gone, fresh = ovids - curids, curids - ovids
        votes = {}
        from weave import align
        for m in self.ov:
            o, c = self.index(self.ov[m]), self.index(self.cur[m])
            for k, it in o.items():
                it2 = c.get(k)
                if it2 is None:
                    k2 = next((x for (mm, x), y in self.fn_rename.items() if mm == m and y == k), None)
                    if k2 is None: continue
                    it2 = c[k2]
                if it.children is not None: continue
                a = desugar.strip_attrs(split_ghost(it.toks)[0])
                b = desugar.strip_attrs(it2.toks)
                if [t.t for t in a] == [t.t for t in b]: continue
                al = align(a, b)
                for i, j in enumerate(al):
                    if j is None: continue
                    x, y = a[i], b[j]
                    if x.k == "id" and y.k == "id" and x.t != y.t and x.t in gone and y.t in fresh:
                        votes.setdefault(x.t, {}).setdefault(y.t, 0)
                        votes[x.t][y.t] += 1
        return {x: max(v, key=v.get) for x, v in votes.items() if len(v) == 1}

    # ---- emission
    def emit_module(self, mod):
        return self.emit_items(self.cur[mod], self.ov[mod], mod, "")

    def emit_items(self, cur, ov, mod, indent):
        ovd = {}
        for it in ov:
            if it.kind != "ghost": ovd.setdefault(it.key, []).append(it)
        out = []
        seen = set()
        for it in cur:
            key = self.fn_rename.get((mod, it.key), it.key)
            lst = ovd.get(key, [])
            o = lst.pop(0) if lst else None
            out.append(self.emit_item(it, o, mod, indent))
        for it in ov:
            if it.kind == "ghost":
                s = it.toks[0].t
                if self.renames:
                    s = re.sub(r"(?<!\w)([A-Za-z_]\w*)", lambda m: self.renames.get(m.group(1), m.group(1)), s)
                out.append([Tok("ghost", s, "\n", it.toks[0].f, it.toks[0].l)])
        for k, rest in ovd.items():
            for o in rest:
                self.note_missing(mod, o)
        res = []
        for x in out: res += x
        return res

    def note_missing(self, mod, o):
        if o.children is not None:
            for c in o.children:
                if c.kind != "ghost": self.note_missing(mod, c)
        elif o.kind == "fn":
            self.res.missing.append((mod, o.key))
        else:
            self.res.missing.append((mod, o.key))

    def has_cfg(self, it):
        def at(ts): return any(ts[n].t == "#" and ts[n + 1].t == "[" and ts[n + 2].t == "cfg" for n in range(len(ts) - 2))
        return any(len(a) > 2 and a[2].t == "cfg" for a in it.attrs) or at(it.toks)

    def derive(self, it, gattrs):
        keep = []
        for a in it.attrs:
            if a[2].t == "derive":
                keep += [t.t for t in a[4:-2] if t.t in KEEP_DERIVE]
        return keep

    def emit_item(self, it, o, mod, indent):
        gattrs = list(o.gattrs) if o is not None else []
        near = it.toks[0]
        pre = []
        for g in gattrs: pre.append(Tok("ghost", g, "\n\n", near.f, near.l))
        if any("verifier::external]" in g for g in gattrs):
            self.res.dropped.append((mod, it.key, "not verified (external): " + it.kind))
        if it.children is not None:
            if any(len(a) > 2 and a[2].t == "cfg" for a in it.attrs): self.res.open_items.append((mod, it.key))
            hdr = it.header
            body = self.emit_items(it.children, o.children if o is not None else [], mod, indent + "  ")
            d = pre + [t.clone() for t in hdr]
            d[0 if not pre else len(pre)].ws = "\n\n"
            return d + desugar.mk("{", hdr[-1]) + body + desugar.mk("}", hdr[-1], "\n")
        if it.kind == "fn" and "fn main" == it.key: return []
        opencfg = self.has_cfg(it)
        toks = desugar.strip_attrs([t.clone() for t in it.toks])
        otoks = desugar.strip_attrs(o.toks) if o is not None else None
        log = []
        if it.kind == "fn":
            if opencfg:
                # which body is compiled depends on the profile: unverified
                self.isolate.setdefault((mod, it.key), 1)
                self.res.lost.append((mod, it.key, "conditional compilation"))
            self.res.fns.append((mod, it.key, it.toks[0].f, it.toks[0].l))
            key = (mod, it.key)
            if o is not None:
                if desugar.fn_text(split_ghost(otoks)[0]) != desugar.fn_text(toks):
                    self.res.changed[key] = {"same": False}
                iso = key in self.isolate
                if not iso:
                    try:
                        cur = toks
                        otoks, form = self.best_form(mod, it.key, otoks, cur)
                        if form: self.res.forms.append((mod, it.key, form))
                        toks, info = weave(otoks, cur, self.renames, self.drop_ghost, desugar.body_open(split_ghost(otoks)[0]))
                        if not info["same"]: self.res.changed[key] = info
                    except Lost as e:
                        self.res.lost.append((mod, it.key, str(e)))
                        iso = True
                if iso:
                    return self.emit_isolated(it, o, otoks, toks, mod)
            else:
                self.res.new_fns.append((mod, it.key))
                if key in self.isolate and re.match(r"impl\b.* for .* :: fn ", it.key):
                    return []     # a provided method of a trait, written anew: callers of the trait are undecided (check.py)
                if key in self.isolate:
                    return self.mark(mod, it, [Tok("ghost", "#[verifier::external]", "\n\n", near.f, near.l)] + [t.clone() for t in it.vis] + toks)
            toks = self.special(self, mod, it, toks)
            if it.sig_end is not None:
                toks = desugar.desugar_fn(toks, log)
            else:
                toks = desugar.d_ret(toks)
        else:
            if opencfg: self.res.open_items.append((mod, it.key))
            if o is not None:
                code, gh = split_ghost(otoks)
                if gh:
                    toks, info = weave(otoks, toks, self.renames)
                    if not info["same"]: self.res.changed[(mod, it.key)] = info
                elif [t.t for t in code] != [t.t for t in toks]:
                    self.res.changed[(mod, it.key)] = {"same": False}
            elif it.kind not in ("use",):
                self.res.new_fns.append((mod, it.key))
            toks = self.special(self, mod, it, toks)
        if (mod, it.key) in self.res.changed:
            was = norm(split_ghost(otoks)[0])
            self.res.changed[(mod, it.key)]["closures"] = [l[3:] for l in log if l.startswith("CL:") and l[3:] not in was]
        for l in [l for l in log if not l.startswith("CL:")]: self.res.rules[l] = self.res.rules.get(l, 0) + 1
        if toks is None: return []
        if it.kind in ("struct", "enum"):
            ds = self.derive(it, gattrs)
            if ds:
                pre.append(Tok("ghost", "#[derive(%s)]" % ", ".join(ds), "\n\n", near.f, near.l))
        vis = [t.clone() for t in it.vis]
        if not pre:
            (vis or toks)[0].ws = "\n\n"
        else:
            (vis or toks)[0].ws = "\n"
        if it.kind == "fn":
            # facts established before a loop are kept inside it
            if any(t.k == "id" and t.t in ("for", "while", "loop") for t in toks) and not any("loop_isolation" in g or "external" in g for g in gattrs):
                pre = [Tok("ghost", "#[verifier::loop_isolation(false)]", "\n\n", near.f, near.l), Tok("ghost", "#[verifier::allow_complex_invariants]", "\n", near.f, near.l)] + pre
                (vis or toks)[0].ws = "\n"
            return self.mark(mod, it, pre + vis + toks)
        return pre + vis + toks

    def mark(self, mod, it, toks):
        near = it.toks[0]
        return [Tok("ghost", "// @fn %s|%s" % (mod, it.key), "\n\n", near.f, near.l)] + toks + [Tok("ghost", "// @end", "\n", near.f, near.l)]

    def emit_isolated(self, it, o, otoks, toks, mod):
        """signature and body from the tree, contract from the overlay, body unverified"""
        near = it.toks[0]
        self.res.isolated.append((mod, it.key))
        code, gh = split_ghost(otoks)
        ob = desugar.body_open(code)
        contract = [g for p, g in gh if p <= ob] if ob is not None else []
        cb = desugar.body_open(toks)
        sig, body = toks[:cb], toks[cb:]
        # parameters renamed in the signature
        ren = dict(self.renames)
        a, b = [t.t for t in code[:ob] if t.k == "id"], [t.t for t in sig if t.k == "id"]
        if len(a) == len(b): ren.update({x: y for x, y in zip(a, b) if x != y})
        con = []
        for g in contract:
            t = re.sub(r"(?<![\w.])([A-Za-z_]\w*)", lambda m: ren.get(m.group(1), m.group(1)), g.t.lstrip("<>"))
            con.append(Tok("ghost", t, "\n", g.f, g.l))
        log = []
        if mod == "py":
            self.isolate[(mod, it.key)] = 2
            b = desugar.body_open(toks)
            toks = self.special(self, mod, it, toks[:b] + desugar.mk("{ }", near))
        toks = desugar.d_ret(desugar.d_params(toks, log))
        cb = desugar.body_open(toks)
        sig, body = toks[:cb], toks[cb:]
        attr = [Tok("ghost", g, "\n\n", near.f, near.l) for g in o.gattrs if "external" not in g and "rlimit" not in g and "spinoff" not in g and "loop_isolation" not in g]
        attr.append(Tok("ghost", "#[verifier::external_body]", "\n", near.f, near.l))
        vis = [t.clone() for t in it.vis]
        if (vis or sig): (vis or sig)[0].ws = "\n"
        if self.isolate.get((mod, it.key), 0) >= 2: body = desugar.mk("{ unimplemented!() }", near)
        return self.mark(mod, it, attr + vis + sig + con + body)

def render(toks, linemap=None, start=1):
    """text of a token list; linemap collects generated line -> (file, line) of /repo"""
    out, line = [], start
    for t in toks:
        ws = t.ws
        body, lead = t.t, 0
        if t.k == "ghost":
            if "\n" not in ws: ws = "\n"
            lead = body[:len(body) - len(body.lstrip())].count("\n")
            body = body.strip() + "\n"
        elif not ws and out and (out[-1][-1:].isalnum() or out[-1][-1:] == "_") and (body[:1].isalnum() or body[:1] in "_\"'"):
            ws = " "
        out.append(ws); line += ws.count("\n")
        if linemap is not None and t.f and t.k != "ghost":
            linemap.setdefault(line, (t.f, t.l))
        elif linemap is not None and t.k == "ghost":
            for q in range(body.count("\n") + 1): linemap.setdefault(line + q, ("overlay " + str(t.f), t.l + lead + q))
        out.append(body); line += body.count("\n")
    return "".join(out)
