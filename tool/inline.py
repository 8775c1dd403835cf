"""D15: calls of new private helper functions (no contract in the overlay) are replaced by their bodies."""
from rlex import Tok, lex, match_close, OPEN, CLOSE
from desugar import sig_params, body_open, split_commas, mk

KEYWORDS = {"if", "else", "match", "while", "for", "loop", "return", "let", "in", "mut", "ref", "move", "as", "break", "continue", "self", "Self", "true", "false", "fn", "const", "unsafe", "crate", "super"}

class Helper:
    def __init__(self, it):
        self.it, self.name = it, it.name
        toks = [t for t in it.toks]
        self.ok = False
        if toks[0].t in ("unsafe", "async", "extern"): return
        o, c = sig_params(toks)
        self.generic = toks[o - 1].t == ">"
        self.params, self.selfp, binds = [], None, []
        for n, prm in enumerate(split_commas(toks[o + 1:c])):
            ids = [t.t for t in prm]
            if n == 0 and "self" in ids and ":" not in ids:
                self.selfp = ids; continue
            if ":" not in ids: return
            k = ids.index(":")
            pat, ty = prm[:k], prm[k + 1:]
            if len(pat) == 1 and pat[0].k == "id": self.params.append((pat[0].t, False, ty))
            elif len(pat) == 2 and pat[0].t == "mut" and pat[1].k == "id": self.params.append((pat[1].t, True, ty))
            else:
                # a pattern: bound at the start of the body
                x = "__p%d" % n
                self.params.append((x, False, ty))
                binds += mk("let", toks[c], "\n") + [t.clone() for t in pat] + mk("=", toks[c]) + mk(x, toks[c]) + mk(";", toks[c], "")
        b = body_open(toks)
        if b is None: return
        self.body = toks[b + 1:match_close(toks, b)]
        strip = []
        i = 0
        while i < len(self.body):
            if self.body[i].t == "#" and i + 1 < len(self.body) and self.body[i + 1].t == "[":
                i = match_close(self.body, i + 1) + 1; continue
            strip.append(self.body[i]); i += 1
        if binds: binds[1].ws = " "
        self.body = binds + strip
        self.ret = [t.t for t in toks[c + 1:b]]
        self.rett = toks[c + 2:b] if self.ret[:1] == ["->"] else []
        nr = no_return(self.body)
        if nr is not None: self.body = nr
        self.returns = any(t.k == "id" and t.t == "return" or t.t == "?" for t in self.body)
        # nested items or recursion
        if any(t.k == "id" and t.t == "fn" for t in self.body): return
        if any(t.k == "id" and t.t == self.name and n + 1 < len(self.body) and self.body[n + 1].t == "(" for n, t in enumerate(self.body)): return
        if self.selfp and self.selfp[:1] == ["mut"]: return
        self.ok = True

    def locals(self):
        s = set()
        for n, t in enumerate(self.body):
            if t.k == "id" and t.t == "let":
                j = n + 1
                while self.body[j].t not in ("=", ";", ":") and j < n + 12:
                    if self.body[j].k == "id" and self.body[j].t not in ("mut", "ref") and self.body[j].t[0].islower(): s.add(self.body[j].t)
                    j += 1
            elif t.k == "id" and t.t == "for":
                j = n + 1
                while self.body[j].t != "in":
                    if self.body[j].k == "id" and self.body[j].t not in ("mut", "ref"): s.add(self.body[j].t)
                    j += 1
        # closure parameters and match bindings are scoped tightly; names bound there still must not capture an argument
        for n, t in enumerate(self.body):
            if t.t == "|" and n + 1 < len(self.body) and self.body[n + 1].k == "id": s.add(self.body[n + 1].t)
        return s

def simple_path(ts):
    """x, self.x, a.b.c, 12, CONST"""
    if not ts: return False
    if len(ts) == 1: return ts[0].k in ("id", "num", "char", "str") and ts[0].t not in ("if", "match")
    return all((t.k == "id" if n % 2 == 0 else t.t in (".", "::")) or t.k == "num" for n, t in enumerate(ts)) and len(ts) % 2 == 1

def subst(body, name, arg):
    """replace parameter `name` by the tokens `arg` (None when it cannot be done plainly)"""
    ref = arg[0].t == "&" and not (len(arg) > 1 and arg[1].t == "mut")
    refm = arg[0].t == "&" and len(arg) > 1 and arg[1].t == "mut"
    core = arg[1:] if ref else arg[2:] if refm else arg
    if not simple_path(core): return None
    out, i = [], 0
    while i < len(body):
        t = body[i]
        nxt = body[i + 1].t if i + 1 < len(body) else ""
        prev = body[i - 1].t if i else ""
        if t.k == "id" and t.t == name and prev not in (".", "::") and not (nxt == ":" and prev in ("{", ",")):
            c = [x.clone() for x in core]
            if (ref or refm) and out and out[-1].t == "*" and (len(out) < 2 or out[-2].k == "p" and out[-2].t not in (")", "]") or out[-2].t in KEYWORDS):
                c[0].ws = out[-1].ws; out.pop()
            elif (ref or refm) and nxt not in (".", "["):
                a = [x.clone() for x in arg]; a[0].ws = t.ws
                if len(a) > 2: a[2].ws = " "
                out += a; i += 1; continue
            else: c[0].ws = t.ws
            out += c
        else: out.append(t.clone())
        i += 1
    return out

def split_tail(body):
    """(statements, tail expression) of a block body"""
    i, st, n = 0, 0, len(body)
    last = 0
    while i < n:
        st = i
        blk = body[i].t in ("for", "while", "loop", "if", "match", "unsafe", "{")
        while i < n:
            t = body[i]
            if t.k == "p" and t.t in OPEN:
                m = match_close(body, i)
                if blk and t.t == "{" and m + 1 < n and body[m + 1].t not in (".", "?", "else") and not (body[m + 1].k == "p" and body[m + 1].t in ("+", "-", "==", "&&", "||", "as")):
                    i = m + 1; break
                i = m + 1; continue
            if t.k == "p" and t.t == ";": i += 1; break
            i += 1
        last = st
    if n and body[-1].t == ";": return body, []
    return body[:last], body[last:]

def statements(body):
    """top-level statements of a block body"""
    i, n, out = 0, len(body), []
    while i < n:
        st = i
        blk = body[i].t in ("for", "while", "loop", "if", "match", "unsafe", "{")
        while i < n:
            t = body[i]
            if t.k == "p" and t.t in OPEN:
                m = match_close(body, i)
                if blk and t.t == "{" and m + 1 < n and body[m + 1].t not in (".", "?", "else") and not (body[m + 1].k == "p" and body[m + 1].t in ("+", "-", "==", "&&", "||", "as")):
                    i = m + 1; break
                i = m + 1; continue
            if t.k == "p" and t.t == ";": i += 1; break
            i += 1
        out.append(body[st:i])
    return out

def no_return(body):
    """early returns of a function body turned into `if .. { value } else { rest }`; None when that is not possible"""
    def has(ts): return any(t.k == "id" and t.t == "return" for t in ts)
    if not has(body): return body
    if any(t.t == "?" for t in body): return None
    st = statements(body)
    for n, q in enumerate(st):
        if not has(q): continue
        rest = [t for z in st[n + 1:] for t in z]
        if q[0].t == "return":
            v = [t.clone() for t in q[1:]]
            if v and v[-1].t == ";": v = v[:-1]
            if has(v) or rest: return None
            return [t for z in st[:n] for t in z] + v
        if q[0].t == "if":
            # the branches of the chain; those that end in `return` give the value, the others fall through
            br, i = [], 0
            while True:
                d, b = 0, i
                while not (q[b].t == "{" and q[b].k == "p" and d == 0):
                    if q[b].k == "p" and q[b].t in OPEN: d += 1
                    elif q[b].k == "p" and q[b].t in CLOSE: d -= 1
                    b += 1
                e = match_close(q, b)
                br.append((q[i:b], q[b + 1:e]))
                if has(q[i:b]): return None
                if e + 1 < len(q) and q[e + 1].t == "else":
                    i = e + 1
                    continue
                break
            tail = q[e + 1:]
            if tail and [t.t for t in tail] != [";"]: return None
            els = br[-1][0][0].t == "else" and len(br[-1][0]) == 1
            out, falls = [], 0
            for head, blk in br:
                bs = statements(blk)
                if bs and bs[-1][0].t == "return":
                    v = no_return(blk)
                    if v is None: return None
                elif has(blk):
                    # a nested early return: what follows is appended to the branch
                    v = no_return(blk + [t.clone() for t in rest]); falls += 1
                    if v is None: return None
                elif not rest: v = blk
                else: v = blk + [t.clone() for t in rest]; falls += 1
                out += head + mk("{", q[0]) + v + mk("}", q[0])
            if not els:
                v = no_return(rest) if rest else []
                falls += 1
                if v is None: return None
                out += mk("else {", q[0]) + v + mk("}", q[0])
            if falls > 1 and len(rest) > 60: return None
            if rest and has(rest) and falls != (0 if els else 1): return None
            return [t for z in st[:n] for t in z] + out
        return None
    return body

def find_call(toks, h):
    """(start, open paren, receiver tokens or None) of a call of h"""
    for i, t in enumerate(toks):
        if t.k != "id" or t.t != h.name or i + 1 >= len(toks): continue
        j = i + 1
        if toks[j].t == "::" and toks[j + 1].t == "<":
            d, k = 0, j + 1
            while True:
                if toks[k].t == "<": d += 1
                elif toks[k].t == ">": d -= 1
                elif toks[k].t == ">>": d -= 2
                k += 1
                if d <= 0: break
            j = k
        if toks[j].t != "(": continue
        if i and toks[i - 1].t == "fn": continue
        if i and toks[i - 1].t == ".":
            if not h.selfp: continue
            # receiver: a path only
            b = i - 1
            while b > 0 and (toks[b - 1].k == "id" and toks[b - 1].t not in (KEYWORDS - {"self"}) or toks[b - 1].t == "."): b -= 1
            recv = toks[b:i - 1]
            if not recv or not simple_path(recv): return None
            return b, j, recv
        b = i
        while b >= 2 and toks[b - 1].t == "::" and toks[b - 2].k == "id": b -= 2
        return b, j, None
    return None

def error_type(rett):
    """E of `Result<T, E>` (last path segment), or None"""
    ts = [t.t for t in rett]
    if len(ts) < 5 or ts[0] != "Result" or ts[1] != "<" or ts[-1] != ">": return None
    return ts[-2]

def question_ok(toks, h, s, body_at):
    for n, t in enumerate(h.body):
        if t.k == "id" and t.t == "return" and [x.t for x in h.body[n + 1:n + 3]] != ["Err", "("]: return False
        if t.t in ("|", "||", "move"): return False
    o, c = sig_params(toks)
    if c + 1 >= len(toks) or toks[c + 1].t != "->": return False
    rett = toks[c + 2:body_at]
    w = next((n for n, t in enumerate(rett) if t.t == "where"), len(rett))
    a, b = error_type(h.rett), error_type(rett[:w])
    if a is None or a != b or a == "Err": return False
    # not inside a closure of the caller
    return not any(t.t in ("|", "||") and t.k == "p" for t in toks[body_at:s])

def inline_one(toks, h, body_at):
    f = find_call(toks, h)
    if f is None: return None
    s, o, recv = f
    c = match_close(toks, o)
    args = split_commas(toks[o + 1:c])
    body = [t.clone() for t in h.body]
    if h.selfp and recv is None:
        recv, args = args[0], args[1:]
    if len(args) != len(h.params): return False
    locs = h.locals()
    argids = {t.t for a in args for t in a if t.k == "id"}
    near = toks[s]
    # locals of the helper that also occur in the arguments are renamed apart
    for x in locs & argids:
        body = [t.clone(t.t + "_h") if t.k == "id" and t.t == x and not (n and body[n - 1].t == ".") else t for n, t in enumerate(body)]
    lets = []
    if h.selfp:
        r = [t for t in recv]
        while r and r[0].t in ("&", "mut"): r = r[1:]
        if not simple_path(r): return False
        if [t.t for t in r] != ["self"]:
            nb = []
            for t in body:
                if t.k == "id" and t.t == "self": nb += [x.clone() for x in r]
                else: nb.append(t)
            body = nb
    # simultaneous substitution through fresh names
    for n, ((p, m, ty), a) in enumerate(zip(h.params, args)):
        if not m:
            body = [t.clone("__q%d" % n) if t.k == "id" and t.t == p and not (q and body[q - 1].t in (".", "::")) else t for q, t in enumerate(body)]
    for n, ((p, m, ty), a) in enumerate(zip(h.params, args)):
        if not a: return False
        nb = None
        if not m:
            uses = sum(1 for t in body if t.t == "__q%d" % n)
            nb = subst(body, "__q%d" % n, a)
            if nb is None and uses == 1 and not h.returns and len(split_tail(body)[0]) == 0 and not any(t.t in ("for", "while", "loop", "|", "||", "&&") for t in body):
                # a single use in a plain expression
                k = next(q for q, t in enumerate(body) if t.t == "__q%d" % n)
                nb = body[:k] + mk("(", near, "") + [x.clone() for x in a] + mk(")", near, "") + body[k + 1:]
        if nb is not None: body = nb
        else:
            if any(t.k == "id" and t.t == p for x in args[n + 1:] for t in x):
                # the binding must not capture a name of a later argument
                body = [t.clone(p + "_h") if t.t == ("__q%d" % n if not m else p) and not (q and body[q - 1].t == ".") else t for q, t in enumerate(body)]
                p = p + "_h"
            tyt = [] if h.generic or any(t.t in ("impl", "dyn", "Self") or t.k == "life" for t in ty) else mk(":", near, "") + [t.clone() for t in ty]
            lets += mk("let mut" if m else "let", near, "\n") + mk(p, near) + tyt + mk("=", near) + [x.clone() for x in a] + mk(";", near, "")
            if not m: body = [t.clone(p) if t.t == "__q%d" % n else t for t in body]
    # position of the call
    e = c + 1
    prev = toks[s - 1] if s else None
    nxt = toks[e] if e < len(toks) else None
    depth_close = nxt is not None and nxt.t == "}"
    stmt_start = prev is not None and prev.t in ("{", "}", ";") or s == body_at + 1
    tail = stmt_start and depth_close
    is_fn_tail = tail and e == len(toks) - 1 or prev is not None and prev.t == "return" and nxt.t == ";"
    if nxt is not None and nxt.t == "?" and h.returns and question_ok(toks, h, s, body_at):
        # `h(..)?`: the helper's own `?` and `return Err(..)` leave the caller in the same way
        stmts, texpr = split_tail(body)
        if texpr:
            caller_ids = {t.t for q, t in enumerate(toks) if t.k == "id" and not (s <= q < e)}
            if [t.t for t in texpr[:2]] == ["Ok", "("] and match_close(texpr, 1) == len(texpr) - 1:
                val, q = texpr[2:-1], e + 1
            else: val, q = mk("(", near, "") + texpr + mk(")", near, ""), e
            if not lets and not stmts: return toks[:s] + val + toks[q:]
            return toks[:s] + mk("{", near) + lets + stmts + val + mk("}", near) + toks[q:]
    if h.returns and not is_fn_tail: return False
    stmts, texpr = split_tail(body)
    caller_ids = {t.t for q, t in enumerate(toks) if t.k == "id" and not (s <= q < e)}
    clash = (locs | {p for p, m, ty in h.params if m or any(t.t == p for t in lets)}) & caller_ids
    if stmt_start and nxt is not None and nxt.t == ";":
        new = lets + body + ([] if not texpr or texpr[-1].t == "}" else mk(";", near, ""))
        if clash: new = mk("{", near, "\n") + new + mk("}", near, "\n")
        return toks[:s] + new + toks[e + 1:]
    # the type of the result, where the body alone does not give it
    typed = (any(t.t in ("parse", "into", "collect", "default", "sum", "from_str") for t in texpr) and h.rett and not h.generic
             and not any(t.t in ("impl", "dyn", "Self") or t.k == "life" or t.t == "&" for t in h.rett))
    if typed and not is_fn_tail:
        stmts = stmts + mk("let __ret:", near, "\n") + [t.clone() for t in h.rett] + mk("=", near) + texpr + mk(";", near, "")
        texpr = mk("__ret", near)
        return toks[:s] + mk("{", near) + lets + stmts + texpr + mk("}", near) + toks[e:]
    if is_fn_tail and prev.t != "return":
        if clash: return toks[:s] + mk("{", near) + lets + body + mk("}", near) + toks[e:]
        return toks[:s] + lets + body + toks[e:]
    if not lets and not stmts:
        atom = len(texpr) <= 1 or prev is not None and prev.t in ("=", "(", ",", "return", "=>", "{", ";", "if", "while") and nxt.t in (";", ")", ",", "}", "{")
        new = texpr if atom else mk("(", near) + texpr + mk(")", near, "")
        if new: new = [new[0].clone()] + new[1:]; new[0].ws = toks[s].ws or " "
        return toks[:s] + new + toks[e:]
    # `let x = h(..);` -> statements, then `let x = tail;`
    if nxt is not None and nxt.t == ";" and not clash and texpr:
        q = s - 1
        while q > 0 and toks[q].t not in (";", "{", "}"): q -= 1
        if toks[q + 1].t == "let" and toks[s - 1].t == "=" and s - q < 40:
            return toks[:q + 1] + lets + stmts + toks[q + 1:s] + texpr + toks[e:]
    return toks[:s] + mk("{", near) + lets + body + mk("}", near) + toks[e:]

def flat(items):
    for it in items:
        if it.children is not None: yield from flat(it.children)
        else: yield it

def run(cur, known, res, renamed):
    """cur: module -> items; known(mod, key) -> the overlay has this function"""
    helpers = []
    for mod in cur:
        for it in flat(cur[mod]):
            if it.kind == "fn" and not known(mod, it.key) and " for " not in it.key.rsplit(" :: fn ", 1)[0]:
                h = Helper(it)
                if h.ok: helpers.append((mod, h))
    names = {}
    for mod, h in helpers: names.setdefault(h.name, []).append(h)
    helpers = [(m, h) for m, h in helpers if len(names[h.name]) == 1]
    existing = {it.name for m in cur for it in flat(cur[m]) if it.kind == "fn" and known(m, it.key)}
    helpers = [(m, h) for m, h in helpers if h.name not in existing]
    # a helper passed by name becomes the closure that calls it
    for mod, h in helpers:
        if len(h.params) + (1 if h.selfp else 0) != 1: continue
        for m in cur:
            for it in flat(cur[m]):
                if it.kind != "fn" or it is h.it: continue
                i = 0
                while i < len(it.toks):
                    t = it.toks[i]
                    if t.t == h.name and t.k == "id" and i + 1 < len(it.toks) and it.toks[i + 1].t in (")", ","):
                        b = i
                        while b >= 2 and it.toks[b - 1].t == "::" and it.toks[b - 2].k == "id": b -= 2
                        if it.toks[b - 1].t in ("(", ",") and not any(x.t in ("fn", "wrap_pyfunction") for x in it.toks[max(0, b - 3):b]):
                            it.toks[b:i + 1] = mk("|__x|", t, "") + [x.clone() for x in it.toks[b:i + 1]] + mk("(__x)", t, "")
                            it.sig_end = body_open(it.toks)
                            i += 6
                    i += 1
    done = {}
    for rnd in range(60):
        prog = False
        for mod, h in helpers:
            for m in cur:
                for it in flat(cur[m]):
                    if it.kind not in ("fn", "const", "static") or it is h.it: continue
                    if it.kind == "fn":
                        b = body_open(it.toks)
                        if b is None: continue
                    else: b = -1
                    if len(it.toks) > 20000: continue
                    new = inline_one(it.toks, h, b)
                    if new:
                        it.toks = new
                        it.sig_end = body_open(new) if it.kind == "fn" else None
                        done.setdefault((mod, h.it.key), []).append((m, it.key)); prog = True
                        # other helpers may have changed
                        for mm, hh in helpers:
                            if hh.it is it: hh.__init__(it)
        if not prog: break
    for mod, h in helpers:
        left = any(used(it.toks, h) for m in cur for it in flat(cur[m]) if it is not h.it)
        if (mod, h.it.key) in done and not left:
            remove(cur[mod], h.it)
            res.inlined.append((h.it.key, sorted({k[1] for k in done[(mod, h.it.key)]})))

def used(toks, h):
    """the function h is still named in these tokens (a local or a field of the same name is not it)"""
    at = [n for n, t in enumerate(toks) if t.k == "id" and t.t == h.name]
    if not at: return False
    def tok(n): return toks[n].t if 0 <= n < len(toks) else ""
    if any(tok(n + 1) == "(" and (tok(n - 1) != "." or h.selfp) or tok(n + 1) == "::" or tok(n - 1) == "::" for n in at): return True
    bound = any(tok(n - 1) in ("let", "mut", "ref", "for", "|") or tok(n + 1) in (":", "in") or tok(n - 1) in ("(", ",") and tok(n + 1) in (",", ")") and "let" in [tok(k) for k in range(n - 8, n)] for n in at)
    return not bound and any(tok(n - 1) != "." for n in at)

def remove(items, it):
    for x in list(items):
        if x is it: items.remove(x); return True
        if x.children is not None and remove(x.children, it): return True
    return False
