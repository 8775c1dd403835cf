"""Meaning-preserving rewrites of surface syntax Verus does not accept.  Each rule is listed in
DESIGN.md ("what the extraction changes").  Ghost tokens are opaque to every rule."""
from rlex import Tok, lex, match_close, OPEN, CLOSE, norm

def mk(src, near, ws=" "):
    ts = lex(src)
    for t in ts: t.f, t.l = near.f, near.l
    if ts and not ts[0].ws: ts[0].ws = ws
    return ts

def is_closure_bar(toks, i):
    """is the `|` / `||` at i the start of a closure?"""
    if toks[i].t not in ("|", "||"): return False
    j = i - 1
    while j >= 0 and toks[j].k == "ghost": j -= 1
    if j < 0: return True
    p = toks[j]
    return (p.k == "p" and p.t in ("(", ",", "=", "{", ";", "=>", "[")) or p.t in ("return", "move")

def closure_parts(toks, i):
    """closure whose first bar is at i -> (params_start, params_end, body_start, body_end)"""
    if toks[i].t == "||": pe = i
    else:
        j, d = i + 1, 0
        while True:
            t = toks[j]
            if t.k == "p":
                if t.t in OPEN: d += 1
                elif t.t in CLOSE: d -= 1
                elif t.t == "|" and d == 0: break
            j += 1
        pe = j
    b = pe + 1
    while toks[b].k == "ghost": b += 1
    e, d = b, 0
    while e < len(toks):
        t = toks[e]
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE:
                if d == 0: break
                d -= 1
            elif t.t in (",", ";") and d == 0: break
        e += 1
    return i + 1, pe, b, e

def split_commas(toks, keep_empty=False):
    out, cur, d, a = [], [], 0, 0
    for t in toks:
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
            elif t.t == "<": a += 1
            elif t.t == ">": a = max(0, a - 1)
            elif t.t == ">>": a = max(0, a - 2)
            elif t.t == "," and d == 0 and a == 0:
                out.append(cur); cur = []; continue
        cur.append(t)
    if cur: out.append(cur)
    return out

class Uniq:
    def __init__(self): self.n = 0
    def __call__(self, base):
        self.n += 1
        return "%s%d" % (base, self.n) if self.n > 1 else base

SIMPLE_P = {"<", ">", "<=", ">=", "==", "!=", "&&", "||", "!", "(", ")", ",", ".", "*", "+", "-", "&"}
INTS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"}

def closure_type(body, lets, params):
    """type of a plain expression, None when it is not obvious"""
    b = body
    while b and b[0].t == "(" and match_close(b, 0) == len(b) - 1:
        ps = split_commas(b[1:-1])
        if len(ps) > 1:
            ts = [closure_type(q, lets, params) for q in ps]
            return None if None in ts else "(%s)" % ", ".join(ts)
        b = b[1:-1]
    d = 0
    for t in b:
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
            elif d == 0 and t.t in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"): return "bool"
    if b and b[0].t == "!": return "bool"
    if len(b) >= 3 and b[-2].t == "as" and b[-1].t in INTS: return b[-1].t
    if len(b) == 1 and b[0].t in lets: return lets[b[0].t]
    if len(b) == 1 and b[0].t in ("true", "false"): return "bool"
    return None

def closure_spec(body):
    """(type, expression) of a closure body that means the same as a specification: no calls, no statements but `let`"""
    code = [t for t in body if t.k != "ghost"]
    lets, stm = {}, []
    if code and code[0].t == "{" and match_close(code, 0) == len(code) - 1:
        code = code[1:-1]
        while code and code[0].t == "let":
            e = next((n for n, t in enumerate(code) if t.t == ";"), None)
            if e is None or code[1].k != "id" or code[2].t != "=": return None
            ty = closure_type(code[3:e], lets, None)
            if ty: lets[code[1].t] = ty
            stm += code[:e + 1]; code = code[e + 1:]
    for q in stm + code:
        if q.k == "p" and q.t not in SIMPLE_P and q.t not in ("=", ";"): return None
        if q.k not in ("id", "num", "p"): return None
        if q.k == "id" and q.t in ("if", "match", "return", "mut", "unsafe", "loop"): return None
    for n, t in enumerate(code):
        if t.t == "(" and n and (code[n - 1].k == "id" and code[n - 1].t not in ("as",) or code[n - 1].t in (")",)): return None
        if t.t == "&" and not (n == 0 or code[n - 1].k == "p" and code[n - 1].t != ")"): return None
    for n, t in enumerate(stm):
        if t.t == "(" and n and code and stm[n - 1].k == "id": return None
    ty = closure_type(code, lets, None)
    if any(t.t in ("+", "-") for t in stm + code) and ty != "bool": return None
    return ty, stm, code

def path_call(code):
    """`a::B::f(x, *y, z.0)` -> (path text, argument texts); None for anything else"""
    while code and code[0].t == "(" and match_close(code, 0) == len(code) - 1: code = code[1:-1]
    n = 0
    while n < len(code) and (code[n].k == "id" if n % 2 == 0 else code[n].t == "::"): n += 1
    if n % 2 == 0 or n >= len(code) or code[n].t != "(" or match_close(code, n) != len(code) - 1: return None
    args = split_commas(code[n + 1:-1])
    for a in args:
        if any(not (t.k in ("id", "num") or t.t in (".", "*", "&")) for t in a) or not a or a[0].t == "&" and len(a) > 2: return None
        if any(t.t == "*" for t in a[1:]): return None
    return "".join(t.t for t in code[:n]), ["".join(t.t for t in a) for a in args]

def call_spec(body, ctor_only=False):
    """D17: the contract of a closure that only calls a function is what that call needs and gives"""
    code = [t for t in body if t.k != "ghost"]
    if code and code[0].t == "{" and match_close(code, 0) == len(code) - 1: code = code[1:-1]
    while code and code[0].t == "(" and match_close(code, 0) == len(code) - 1: code = code[1:-1]
    if [t.t for t in code[:4]] == ["PyValueError", "::", "new_err", "("] and match_close(code, 3) == len(code) - 1:
        return "-> (r: crate::pyo3::PyErr) ensures r.value_error()"
    if any(t.k not in ("id", "num", "p") for t in code): return None
    if len(code) == 5 and code[0].k == "id" and [t.t for t in code[1:]] == [".", "to_string", "(", ")"]:
        return "-> (r: String) ensures vstd::string::to_string_from_display_ensures(%s, r)" % code[0].t
    pc = path_call(code)
    if pc is None: return None
    f, args = pc
    last = f.rsplit("::", 1)[-1]
    if last in ("new_err",): return None
    if last[0].isupper():
        ty = {"Some": "Option<_>", "Ok": "Result<_, _>", "Err": "Result<_, _>"}.get(f, f.rsplit("::", 1)[0] if "::" in f else f)
        return "-> (r: %s) ensures r == %s(%s)" % (ty, f, ", ".join(args))
    if "::" not in f and not args: return None
    a = "(%s)" % "".join(x + "," for x in args)
    return "-> (r: _) requires call_requires(%s, %s) ensures call_ensures(%s, %s, r)" % (f, a, f, a)

def d_paths(toks, log):
    """D17: a constructor passed as a function, `.map(Some)`, becomes the closure that calls it; `|x| x.into()` becomes `Into::into`"""
    i = 1
    while i + 2 < len(toks):
        t = toks[i]
        if t.t == "(" and t.k == "p" and toks[i - 1].k == "id" and i >= 2 and toks[i - 2].t == ".":
            e = match_close(toks, i)
            q = toks[i + 1:e]
            if q and len(q) % 2 and all(x.k == "id" if n % 2 == 0 else x.t == "::" for n, x in enumerate(q)) and q[-1].t[0].isupper() and not q[-1].t.isupper():
                toks[i + 1:e] = mk("|__x|", t, "") + q + mk("(__x)", t, "")
                log.append("D17")
            elif len(q) == 8 and q[0].t == "|" and q[1].k == "id" and q[2].t == "|" and q[3].t == q[1].t and [x.t for x in q[4:]] == [".", "into", "(", ")"]:
                toks[i + 1:e] = mk("Into::into", t, "")
                log.append("D17")
        i += 1
    return toks

def d_closures(toks, log):
    """D1: `|&(a, _)| e` -> `|__p| { let (a, _) = *__p; e }`; every closure body gets braces"""
    i = 0
    while i < len(toks):
        if toks[i].k == "p" and is_closure_bar(toks, i):
            ps, pe, bs, be = closure_parts(toks, i)
            bs0, be0 = bs, be
            params = toks[ps:pe]
            body = toks[bs:be]
            has_ghost = any(t.k == "ghost" for t in toks[pe + 1:bs])
            newp, lets = [], []
            for n, prm in enumerate(split_commas(params)):
                if len(prm) == 1 and prm[0].t == "_":
                    if newp: newp += mk(",", toks[i], "")
                    newp += mk("__u%d" % n, toks[i], "")
                    log.append("D1")
                elif prm and prm[0].t in ("&", "(", "&&"):
                    name = "__p" if n == 0 else "__p%d" % n
                    pat = [t for t in prm]
                    ty = []
                    for q, t in enumerate(pat):
                        if t.t == ":" : ty = pat[q:]; pat = pat[:q]; break
                    star = ""
                    while pat and pat[0].t in ("&", "&&"):
                        star += "*" * len(pat[0].t); pat = pat[1:]
                    if newp: newp += mk(",", toks[i], "")
                    newp += mk(name, toks[i], "") + ty
                    lets += mk("let", toks[i]) + [pat[0].clone()] + pat[1:] + mk("= %s%s;" % (star, name), toks[i])
                    log.append("D1")
                else:
                    if newp: newp += mk(",", toks[i], "")
                    newp += prm
            sp = closure_spec(body)
            if sp and sp[0] and not any(t.t == "->" for t in toks[pe + 1:bs] if t.k != "ghost"):
                # D16: the contract of a closure that is a plain expression is that expression
                from extract import render
                txt = render([t.clone() for t in lets + sp[1] + sp[2]])
                near = toks[i]
                toks[pe + 1:bs] = [Tok("ghost", "-> (r: %s) ensures r == ({ %s })" % (sp[0], " ".join(txt.split())), "\n", near.f, near.l)]
                has_ghost = True
                bs = pe + 2
                log.append("D16")
            elif not has_ghost and not lets and not any(t.t == "->" for t in toks[pe + 1:bs]) and (cs := call_spec(body)):
                near = toks[i]
                toks[pe + 1:bs] = [Tok("ghost", cs, "\n", near.f, near.l)]
                has_ghost = True
                bs = pe + 2
                log.append("D17")
            elif not has_ghost: log.append("CL:" + norm(toks[ps:be]))
            if lets or (has_ghost and not (body and body[0].t == "{")):
                body = mk("{", toks[i]) + lets + body + mk("}", toks[i])
            be = bs + (be0 - bs0)
            if toks[i].t == "||": toks[i + 1:be] = toks[i + 1:bs] + body
            else: toks[ps:be] = newp + toks[pe:bs] + body
            i = ps
            continue
        i += 1
    return toks

def stmt_match_arms(toks, lo, hi):
    """arms of the match body toks[lo:hi] -> list of (pat_start, guard_start|None, arrow, body_start, body_end)"""
    arms, i = [], lo
    while i < hi:
        while i < hi and toks[i].k == "ghost": i += 1
        if i >= hi: break
        ps, d, g, j = i, 0, None, i
        while True:
            t = toks[j]
            if t.k == "p":
                if t.t in OPEN: d += 1
                elif t.t in CLOSE: d -= 1
                elif t.t == "=>" and d == 0: break
            elif t.t == "if" and d == 0 and g is None: g = j
            j += 1
        arrow = j
        bs = j + 1
        k = bs
        while k < hi and toks[k].k == "ghost": k += 1
        if toks[k].t == "{":
            e = match_close(toks, k) + 1
            be = e
            if e < hi and toks[e].t == ",": e += 1
        else:
            d, e = 0, k
            while e < hi:
                t = toks[e]
                if t.k == "p":
                    if t.t in OPEN: d += 1
                    elif t.t in CLOSE: d -= 1
                    elif t.t == "," and d == 0: break
                e += 1
            be = e
            if e < hi: e += 1
        arms.append((ps, g, arrow, bs, be, e))
        i = e
    return arms

def find_block(toks, i):
    """first `{` at depth 0 from i (the block of if/while/for/match)"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t == "{" and d == 0: return j
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
    return None

def d_match_refpat(toks, log):
    """D2a: `Some(&PAT) [if G] => B` -> `Some(__r) [if { let PAT = *__r; G }] => { let PAT = *__r; B }`"""
    i = 0
    while i < len(toks):
        if toks[i].t == "match" and toks[i].k == "id":
            b = find_block(toks, i + 1)
            e = match_close(toks, b)
            for (ps, g, ar, bs, be, nx) in reversed(stmt_match_arms(toks, b + 1, e)):
                pat_end = g if g is not None else ar
                pat = toks[ps:pat_end]
                if len(pat) > 3 and pat[0].t == "Some" and pat[1].t == "(" and pat[2].t == "&" and pat[-1].t == ")":
                    inner = pat[3:-1]
                    let = mk("let", pat[0]) + inner + mk("= *__r;", pat[0])
                    body = toks[bs:be]
                    nb = mk("{", pat[0]) + [t.clone() for t in let] + body + mk("}", pat[0])
                    if toks[be].t != "," : nb += mk(",", pat[0]) if False else []
                    ng = (mk("if {", pat[0]) + [t.clone() for t in let] + toks[g + 1:ar] + mk("}", pat[0])) if g is not None else []
                    toks[ps:be] = pat[:2] + mk("__r", pat[0], "") + pat[-1:] + ng + [toks[ar]] + nb
                    log.append("D2a")
        i += 1
    return toks

def d_for_refpat(toks, log):
    """D2b: `for &PAT in X {` -> `for __r in X { let PAT = *__r;`"""
    i = 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and i + 1 < len(toks) and toks[i + 1].t in ("&",):
            j = i + 2
            d = 0
            while not (toks[j].t == "in" and d == 0):
                if toks[j].k == "p":
                    if toks[j].t in OPEN: d += 1
                    elif toks[j].t in CLOSE: d -= 1
                j += 1
            pat = toks[i + 2:j]
            b = find_block(toks, j)
            toks[b + 1:b + 1] = mk("let", pat[0]) + [t.clone() for t in pat] + mk("= *__r;", pat[0])
            toks[i + 1:j] = mk("__r", pat[0])
            log.append("D2b")
        elif toks[i].t == "for" and toks[i].k == "id" and i + 1 < len(toks) and toks[i + 1].t == "(":
            # `for (a, b) in X {` (binding by reference through default binding modes or by value)
            j = match_close(toks, i + 1) + 1
            if toks[j].t == "in":
                pat = toks[i + 1:j]
                b = find_block(toks, j)
                toks[b + 1:b + 1] = mk("let", pat[0]) + [t.clone() for t in pat] + mk("= __r;", pat[0])
                toks[i + 1:j] = mk("__r", pat[0])
                log.append("D2c")
        i += 1
    return toks

def d_ref_mut_binding(toks, log):
    """D9: `match x { Some((_, ref mut a)) if *a + 1 == e => *a = v, ... }`
    -> `match x { Some((_, __a)) if __a + 1 == e => { if let Some(__m) = &mut x { __m.1 = v } }`"""
    for i in range(len(toks) - 8):
        if toks[i].t == "match" and toks[i + 1].k == "id" and toks[i + 2].t == "{":
            x = toks[i + 1].t
            e = match_close(toks, i + 2)
            for (ps, g, ar, bs, be, nx) in stmt_match_arms(toks, i + 3, e):
                if g is None: continue
                pat = norm(toks[ps:g])
                if pat.startswith("Some ( ( _ , ref mut ") and pat.endswith(") )") and len(toks[ps:g]) == 10:
                    a = toks[ps + 7].t
                    guard, body = toks[g + 1:ar], toks[bs:be]
                    code = [t for t in body if t.k != "ghost"]
                    if len(code) < 4 or [t.t for t in code[:3]] != ["*", a, "="]: continue
                    def sub(ts):
                        out, q = [], 0
                        while q < len(ts):
                            if ts[q].t == "*" and q + 1 < len(ts) and ts[q + 1].t == a:
                                out.append(ts[q + 1].clone("__" + a)); out[-1].ws = ts[q].ws; q += 2
                            else: out.append(ts[q]); q += 1
                        return out
                    k = body.index(code[0])
                    near = toks[ps]
                    new = (mk("Some((_, __%s)) if" % a, near, "\n") + sub(guard) + mk("=> {", near)
                           + body[:k] + mk("if let Some(__m) = &mut %s { __m.1 =" % x, near)
                           + sub(body[k + 3:]) + mk("} }", near))
                    toks[ps:be] = new
                    log.append("D9")
                    return d_ref_mut_binding(toks, log)
    return toks

def rename_ident(toks, old, new):
    for n, t in enumerate(toks):
        if t.k == "id" and t.t == old: toks[n] = t.clone(new)
    return toks

def sig_params(toks):
    """(open, close) of the parameter list of a fn item's tokens"""
    j = next(n for n, t in enumerate(toks) if t.t == "fn") + 2
    if toks[j].t == "<":
        d = 0
        while True:
            t = toks[j].t
            if t == "<": d += 1
            elif t == ">": d -= 1
            elif t == ">>": d -= 2
            elif t == "->": pass
            j += 1
            if d == 0: break
    return j, match_close(toks, j)

def fn_text(toks):
    return [t.t for t in toks if t.k != "ghost"]

def body_open(toks):
    """index of the `{` of the body of a fn item"""
    o, c = sig_params(toks)
    return find_block(toks, c + 1)

def d_params(toks, log):
    """D3/D4: `mut self` and pattern parameters"""
    o, c = sig_params(toks)
    body = next((n for n in range(c, len(toks)) if toks[n].t == "{" and toks[n].k == "p"), None)
    if body is None: return toks
    # body `{` at depth 0 after params, skipping types with brackets
    d = 0
    for n in range(c + 1, len(toks)):
        t = toks[n]
        if t.k == "p":
            if t.t == "{" and d == 0: body = n; break
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
    prms = split_commas(toks[o + 1:c])
    pre = []
    out = []
    gens = []
    for n, prm in enumerate(prms):
        code = [t for t in prm if t.k != "ghost"]
        if n and out: out += mk(",", toks[o], "")
        if len(code) == 2 and code[0].t == "mut" and code[1].t == "self":
            out += mk("self", toks[o], "")
            for q in range(body + 1, len(toks)):
                if toks[q].k == "id" and toks[q].t == "self": toks[q] = toks[q].clone("__self")
            pre += mk("let mut __self = self;", toks[body])
            log.append("D3")
        elif code and code[0].t == "(":
            e = match_close(prm, 0)
            name = "__arg%d" % n
            out += mk(name, toks[o]) + prm[e + 1:]
            pre += mk("let", toks[body]) + prm[:e + 1] + mk("= %s;" % name, toks[body])
            log.append("D4")
        elif any(t.t == "impl" for t in code):
            q = next(x for x, t in enumerate(prm) if t.t == "impl")
            ty = "__T%d" % len(gens)
            gens.append((ty, prm[q + 1:]))
            out += prm[:q] + mk(ty, toks[o])
            log.append("D8")
        else:
            out += prm
    toks[body + 1:body + 1] = pre
    toks[o + 1:c] = out
    if gens:
        g = []
        for ty, bound in gens:
            if g: g += mk(",", toks[o], "")
            g += mk(ty + ":", toks[o]) + bound
        if toks[o - 1].t == ">": toks[o - 1:o - 1] = mk(",", toks[o], "") + g
        else: toks[o:o] = mk("<", toks[o], "") + g + mk(">", toks[o], "")
    return toks

def d_ret(toks):
    """name the result: `-> T` becomes `-> (ret: T)` (Verus needs a name for postconditions)"""
    o, c = sig_params(toks)
    if toks[c + 1].t != "->": return toks
    d, e = 0, c + 2
    while e < len(toks):
        t = toks[e]
        if t.k == "ghost" or t.t in (";",) and d == 0: break
        if t.k == "p":
            if t.t == "{" and d == 0: break
            if t.t in OPEN: d += 1
            elif t.t in CLOSE: d -= 1
        if t.t == "where" and d == 0: break
        e += 1
    ty = toks[c + 2:e]
    toks[c + 2:e] = mk("(ret:", toks[c]) + ty + mk(")", toks[c], "")
    return toks

def d_enumerate(toks, log):
    """D10: `for (n, x) in E.enumerate() {B}` -> `let mut __n: usize = 0; for x in E { let n = __n; __n += 1; B}`"""
    i = 0
    while i < len(toks):
        if toks[i].t == "for" and toks[i].k == "id" and i + 1 < len(toks) and toks[i + 1].t == "(":
            pe = match_close(toks, i + 1)
            if toks[pe + 1].t == "in":
                b = find_block(toks, pe + 1)
                q = b - 1
                while toks[q].k == "ghost": q -= 1
                parts = split_commas(toks[i + 2:pe])
                if [t.t for t in toks[q - 3:q + 1]] == [".", "enumerate", "(", ")"] and len(parts) == 2:
                    near = toks[i]
                    toks[b + 1:b + 1] = mk("let", near) + [t.clone() for t in parts[0]] + mk("= __n; __n += 1;", near)
                    del toks[q - 3:q + 1]
                    toks[i + 1:pe + 1] = [t.clone() for t in parts[1]]
                    toks[i:i] = mk("let mut __n: usize = 0;", near, "\n")
                    i += 6
                    log.append("D10")
        i += 1
    return toks

def fmt_pieces(lit, args):
    """literal and argument pieces of a format string; None when it uses anything beyond `{}`/`{name}`"""
    if not (lit.startswith('"') and lit.endswith('"')): return None
    body, out, cur, i, nxt = lit[1:-1], [], "", 0, 0
    while i < len(body):
        ch = body[i]
        if ch == "\\":
            if body[i + 1] == "\n": return None
            cur += body[i:i + 2]; i += 2; continue
        if ch in "{}":
            if body[i:i + 2] in ("{{", "}}"): cur += ch; i += 2; continue
            if ch == "}": return None
            e = body.index("}", i)
            name = body[i + 1:e].strip()
            if cur: out.append(("lit", cur)); cur = ""
            if name == "":
                if nxt >= len(args): return None
                out.append(("arg", args[nxt])); nxt += 1
            elif name.isidentifier(): out.append(("arg", lex(name)))
            elif name.isdigit() and int(name) < len(args): out.append(("arg", args[int(name)]))
            else: return None
            i = e + 1; continue
        cur += ch; i += 1
    if cur: out.append(("lit", cur))
    return out

def d_write_fmt(toks, log):
    """D11: `f.write_fmt(format_args!("a{x}b"))` / `write!(f, "a{x}b")` -> the pieces written one by one"""
    i = 0
    while i < len(toks):
        f = start = end = inner = None
        if [t.t for t in toks[i:i + 6]][1:] == [".", "write_fmt", "(", "format_args", "!"] and toks[i].k == "id":
            f, start = toks[i].t, i
            o = i + 6
            c = match_close(toks, o)
            end = match_close(toks, i + 3)
            if end == c + 1 or (end == c + 2 and toks[c + 1].t == ","): inner = toks[o + 1:c]
        elif toks[i].t == "write" and [t.t for t in toks[i + 1:i + 3]] == ["!", "("]:
            c = match_close(toks, i + 2)
            ps = split_commas(toks[i + 3:c])
            if len(ps[0]) == 1 and toks[i + 4].t == ",":
                f, start, end, inner = ps[0][0].t, i, c, toks[i + 5:c]
        if inner is not None:
            ps = split_commas(inner)
            pcs = fmt_pieces(ps[0][0].t, ps[1:]) if ps and len(ps[0]) == 1 and not any("=" in [t.t for t in q] for q in ps[1:]) else None
            if pcs is not None:
                near = toks[i]
                out = mk("{", near)
                for n, (k, v) in enumerate(pcs):
                    q = "" if n == len(pcs) - 1 else "?;"
                    if k == "lit": out += mk('%s.write_str("%s")%s' % (f, v, q), near, "\n")
                    else: out += mk("crate::shim::fmt_arg(&", near, "\n") + [t.clone() for t in v] + mk(", %s)%s" % (f, q), near, "")
                if not pcs: out += mk("Ok(())", near)
                out += mk("}", near)
                toks[start:end + 1] = out
                log.append("D11")
                i = start + len(out); continue
        i += 1
    return toks

def d_asserts(toks, log):
    """D18: `assert_eq!(a, b, ..)` / `assert_ne!` and their debug_ forms -> `assert!` of the comparison (the message is dropped)"""
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in ("assert_eq", "assert_ne", "debug_assert_eq", "debug_assert_ne") and [x.t for x in toks[i + 1:i + 3]] == ["!", "("]:
            c = match_close(toks, i + 2)
            ps = split_commas(toks[i + 3:c])
            if len(ps) >= 2:
                op = "==" if t.t.endswith("eq") else "!="
                out = mk("assert!((", t, t.ws) + ps[0] + mk(") %s (" % op, t) + ps[1] + mk("))", t)
                # a debug assertion runs in one of the two builds only
                if t.t.startswith("debug_"): out = mk("if crate::shim::any_bool() {", t, t.ws) + out + mk(";}", t)
                toks[i:c + 1] = out
                log.append("D18")
                i += len(out); continue
        elif t.k == "id" and t.t == "debug_assert" and [x.t for x in toks[i + 1:i + 3]] == ["!", "("]:
            c = match_close(toks, i + 2)
            ps = split_commas(toks[i + 3:c])
            if ps:
                out = mk("if crate::shim::any_bool() { assert!(", t, t.ws) + ps[0] + mk(");}", t)
                toks[i:c + 1] = out
                log.append("D18")
                i += len(out); continue
        i += 1
    return toks

def recv_start(toks, i):
    """start of the postfix expression that ends before the `.` at i (paths, calls, parentheses)"""
    b = i - 1
    while b > 0:
        t = toks[b]
        if t.k == "p" and t.t in CLOSE:
            d = 0
            while True:
                if toks[b].k == "p" and toks[b].t in CLOSE: d += 1
                elif toks[b].k == "p" and toks[b].t in OPEN: d -= 1
                if d == 0: break
                b -= 1
        elif not (t.k in ("id", "num") and t.t not in ("return", "in", "if", "match", "while", "else", "let", "mut") or t.t in (".", "::")): return b + 1
        b -= 1
    return b

def d_then(toks, log):
    """D20: `C.then(|| E)` -> `if C { Some(E) } else { None }`, `C.then_some(E)` -> the same with E evaluated first"""
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.t == "." and t.k == "p" and i + 2 < len(toks) and toks[i + 1].t in ("then", "then_some") and toks[i + 2].t == "(" and not any(x.k == "ghost" for x in toks[i:i + 3]):
            c = match_close(toks, i + 2)
            arg = toks[i + 3:c]
            if toks[i + 1].t == "then":
                if [x.t for x in arg[:2]] == ["|", "|"]: arg = arg[2:]
                elif arg and arg[0].t == "||": arg = arg[1:]
                else: i += 1; continue
            if any(x.t in ("return", "?", "break", "continue") and x.k in ("id", "p") for x in arg): i += 1; continue
            b = recv_start(toks, i)
            recv = toks[b:i]
            if not recv or any(x.k == "ghost" for x in recv): i += 1; continue
            n = toks[b]
            if toks[i + 1].t == "then": out = mk("(if", n) + recv + mk("{ Some(", n) + arg + mk(") } else { None })", n)
            else: out = mk("{ let __c =", n) + recv + mk("; let __v =", n) + arg + mk("; if __c { Some(__v) } else { None } }", n)
            if toks[i + 1].t == "then" and (toks[b - 1].t in ("=", "return", "=>", "{", ";") or toks[b - 1].k == "ghost") and toks[c + 1].t in (";", "}", ","): out = out[1:-1]
            toks[b:c + 1] = out
            log.append("D20")
        i += 1
    return toks

def d_continue(toks, log):
    """D21: in the body of a `for`: `if C { A continue; } B` -> `if C { A } else { B }`"""
    i = 0
    while i < len(toks):
        if not (toks[i].k == "id" and toks[i].t == "for" and (i == 0 or toks[i - 1].t != "impl") and i + 1 < len(toks) and toks[i + 1].t != "<"): i += 1; continue
        b = find_block(toks, i)
        if b is None: i += 1; continue
        e = match_close(toks, b)
        # statements of the body
        k = b + 1
        while k < e:
            while k < e and toks[k].k == "ghost": k += 1
            if k < e and toks[k].k == "id" and toks[k].t == "if":
                o = find_block(toks, k)
                c = match_close(toks, o)
                q = c - 1
                while toks[q].k == "ghost": q -= 1
                if [x.t for x in toks[q - 1:q + 1]] == ["continue", ";"] and toks[q - 1].k == "id" and toks[c + 1].t != "else" and not any(x.k == "id" and x.t == "continue" for x in toks[o:q - 1]):
                    rest = toks[c + 1:e]
                    new = toks[k:q - 1] + toks[q + 1:c + 1] + mk("else {", toks[c]) + rest + mk("}", toks[c])
                    toks[k:e] = new
                    log.append("D21")
                    k = k + (c - k) - 2 + 3   # continue inside the else block
                    e = k + len(rest)
                    continue
            # to the end of the statement
            if k >= e: break
            blk = toks[k].t in ("for", "while", "loop", "if", "match", "unsafe", "{")
            while k < e:
                t = toks[k]
                if t.k == "p" and t.t in OPEN:
                    m = match_close(toks, k)
                    if blk and t.t == "{" and toks[m + 1].t not in (".", "?", "else"): k = m + 1; break
                    k = m + 1; continue
                k += 1
                if t.k == "p" and t.t == ";": break
        i += 1
    return toks

def d_for_array(toks, log):
    """D12: `for P in X.normalized_categories() {` and `for P in T::ALL {` (arrays by value) -> `for P in array_items(..) {`"""
    i = 0
    while i < len(toks):
        if toks[i].k == "id" and toks[i].t == "in":
            j = i + 1
            while j < len(toks) and toks[j].k == "ghost": j += 1
            k = j
            while k < len(toks) and toks[k].k != "ghost" and toks[k].t not in ("{", ";"): k += 1
            ts = [t.t for t in toks[j:k]]
            if len(ts) > 4 and ts[-4:] == [".", "normalized_categories", "(", ")"] and ts[0] not in ("&", "*") or len(ts) == 3 and ts[1:] == ["::", "ALL"]:
                toks[j:k] = mk("crate::shim::array_items(", toks[j]) + toks[j:k] + mk(")", toks[k - 1], "")
                log.append("D12")
        i += 1

def d_std(toks, log):
    """D12: std calls replaced by wrappers with a trusted contract (identical behaviour):
    `X.normalized_categories().into_iter()` -> `array_items(X.normalized_categories())`,
    `intervals_for_set(..).into_owned()` -> `cow_into_owned(intervals_for_set(..))`,
    `E.map(closure).sum()` -> `sum_map(E, closure)`, `E.filter(closure).collect()` -> `filter_collect(E, closure)`"""
    d_for_array(toks, log)
    i = 0
    while i < len(toks):
        ts = [t.t for t in toks[i:i + 8]]
        if ts == [".", "normalized_categories", "(", ")", ".", "into_iter", "(", ")"] and toks[i - 1].k == "id" and toks[i - 2].t != ".":
            toks[i - 1:i + 8] = mk("crate::shim::array_items(", toks[i - 1]) + toks[i - 1:i + 4] + mk(")", toks[i], "")
            log.append("D12")
        elif ts[:1] == ["intervals_for_set"] and toks[i + 1].t == "(":
            c = match_close(toks, i + 1)
            if [t.t for t in toks[c + 1:c + 5]] == [".", "into_owned", "(", ")"]:
                b = i
                while toks[b - 1].t == "::" : b -= 2
                toks[b:c + 5] = mk("crate::shim::cow_into_owned(", toks[b]) + toks[b:c + 1] + mk(")", toks[i], "")
                i = c
                log.append("D12")
        elif ts[:3] in ([".", "map", "("], [".", "filter", "("]):
            c = match_close(toks, i + 2)
            end = {"map": "sum", "filter": "collect"}[ts[1]]
            if [t.t for t in toks[c + 1:c + 5]] == [".", end, "(", ")"]:
                # receiver: back to the start of the expression statement
                b = i - 1
                while b > 0:
                    t = toks[b]
                    if t.k == "p" and t.t in CLOSE:
                        d = 0
                        while True:
                            if toks[b].k == "p" and toks[b].t in CLOSE: d += 1
                            elif toks[b].k == "p" and toks[b].t in OPEN: d -= 1
                            if d == 0: break
                            b -= 1
                    elif not (t.k == "id" or t.t in (".", "::")): b += 1; break
                    b -= 1
                recv = toks[b:i]
                toks[b:c + 5] = mk("crate::shim::%s(" % {"map": "sum_map", "filter": "filter_collect"}[ts[1]], toks[b]) + recv + mk(",", toks[i], "") + toks[i + 3:c] + mk(")", toks[i], "")
                log.append("D12")
        i += 1
    return toks

def d_tail(toks, log):
    """D14: a function body ending in `EXPR <ghost>` -> `let __tail = EXPR; <ghost> __tail`"""
    o, c = sig_params(toks)
    b = find_block(toks, c + 1)
    if b is None: return toks
    e = match_close(toks, b)
    q = e - 1
    while toks[q].k == "ghost": q -= 1
    if q == e - 1 or toks[q].t in (";", "{") or not any("__tail" in t.t for t in toks[q + 1:e]): return toks
    # start of the last statement
    i = st = b + 1
    while i <= q:
        while i <= q and toks[i].k == "ghost": i += 1
        st = i
        blk = toks[i].t in ("for", "while", "loop", "if", "match", "unsafe", "{")
        while i <= q:
            t = toks[i]
            if t.k == "p" and t.t in OPEN:
                m = match_close(toks, i)
                if blk and t.t == "{" and toks[m + 1].t not in (".", "?", "else") and m < q:
                    i = m + 1; break
                i = m + 1; continue
            if t.k == "p" and t.t == ";": i += 1; break
            i += 1
    expr, gh = toks[st:q + 1], toks[q + 1:e]
    ty = []
    for n in range(c, b):
        if toks[n].t == "(" and toks[n + 1].t == "ret" and toks[n + 2].t == ":":
            ty = mk(":", toks[st]) + [t.clone() for t in toks[n + 3:match_close(toks, n)]]
            break
    toks[st:e] = mk("let __tail", toks[st], "\n") + ty + mk("=", toks[st]) + expr + mk(";", toks[q], "") + gh + mk("__tail", toks[q], "\n")
    log.append("D14")
    return toks

def d_for_generic(toks, log):
    """D13: `for x in P {..}` over a parameter P whose type is a type parameter -> `let __iter = crate::shim::into_iter(P); for x in __iter {..}`"""
    o, c = sig_params(toks)
    if toks[o - 1].t != ">": return toks
    q = next(n for n, t in enumerate(toks) if t.t == "fn") + 2
    gens = {t.t for n, t in enumerate(toks[q:o]) if t.k == "id" and toks[q + n - 1].t in ("<", ",")}
    prm = {}
    for x in split_commas(toks[o + 1:c]):
        x = [t for t in x if t.k != "ghost"]
        if len(x) == 3 and x[1].t == ":" and x[2].t in gens: prm[x[0].t] = x[2].t
    i = c
    while i < len(toks):
        if toks[i].k == "id" and toks[i].t == "in":
            j = i + 1
            while toks[j].k == "ghost": j += 1
            k = j + 1
            while k < len(toks) and toks[k].k == "ghost": k += 1
            if toks[j].t in prm and k < len(toks) and toks[k].t == "{":
                f = max(n for n in range(i) if toks[n].t == "for" and toks[n].k == "id")
                pre = mk("let __iter = crate::shim::into_iter(", toks[j], "\n") + [toks[j]] + mk(");", toks[j], "") + mk("let ghost __iter0 = __iter;", toks[j])
                toks[j] = toks[j].clone("__iter")
                toks[f:f] = pre
                i += len(pre)
                log.append("D13")
        i += 1
    return toks

def strip_attrs(toks):
    """drop statement/field attributes (lint levels, doc)"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[" and toks[i].k == "p":
            i = match_close(toks, i + 1) + 1; continue
        out.append(toks[i]); i += 1
    return out

def desugar_fn(toks, log):
    toks = list(toks)
    # nested functions first
    i = next(n for n, t in enumerate(toks) if t.t == "fn") + 2
    while i < len(toks):
        if toks[i].k == "id" and toks[i].t == "fn" and i + 1 < len(toks) and toks[i + 1].k == "id":
            b = find_block(toks, i)
            e = match_close(toks, b)
            sub = d_ret(d_params(toks[i:e + 1], log))
            toks[i:e + 1] = sub
            i += len(sub); continue
        i += 1
    toks = d_asserts(toks, log)
    toks = d_then(toks, log)
    toks = d_continue(toks, log)
    toks = d_params(toks, log)
    toks = d_ret(toks)
    toks = d_ref_mut_binding(toks, log)
    toks = d_write_fmt(toks, log)
    toks = d_enumerate(toks, log)
    toks = d_std(toks, log)
    toks = d_for_generic(toks, log)
    toks = d_tail(toks, log)
    toks = d_match_refpat(toks, log)
    toks = d_for_refpat(toks, log)
    toks = d_paths(toks, log)
    toks = d_closures(toks, log)
    return toks
