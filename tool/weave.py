"""Carry the ghost annotations of an overlay item over to the current text of the same item."""
import difflib, re
from rlex import Tok

class Lost(Exception):
    pass

def split_ghost(toks):
    """-> (code tokens, [(position in code, ghost token)])"""
    code, gh = [], []
    for t in toks:
        if t.k == "ghost": gh.append((len(code), t))
        else: code.append(t)
    return code, gh

def align(a, b):
    """token alignment: list `m` with m[i] = index in b matched to a[i], or None.
    First whole lines are aligned (stable against inserted/moved statements), then tokens in between."""
    A, B = [t.t for t in a], [t.t for t in b]
    if A == B: return list(range(len(A)))
    m = [None] * len(A)
    def lines(ts):
        out, cur = [], []
        for i, t in enumerate(ts):
            if cur and "\n" in t.ws:
                out.append(cur); cur = []
            cur.append(i)
        if cur: out.append(cur)
        return out
    # segment by statement ends rather than physical lines so that reformatting does not matter
    def stmts(ts):
        out, cur = [], []
        for i, t in enumerate(ts):
            cur.append(i)
            if t.k == "p" and t.t in (";", "{", "}"):
                out.append(cur); cur = []
        if cur: out.append(cur)
        return out
    LA, LB = stmts(a), stmts(b)
    ka = [" ".join(A[i] for i in l) for l in LA]
    kb = [" ".join(B[i] for i in l) for l in LB]
    sm = difflib.SequenceMatcher(None, ka, kb, autojunk=False)
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op == "equal":
            for x in range(i2 - i1):
                for p, q in zip(LA[i1 + x], LB[j1 + x]): m[p] = q
        elif op == "replace":
            ia = [p for l in LA[i1:i2] for p in l]
            ib = [p for l in LB[j1:j2] for p in l]
            if len(ia) == len(ib) and sum(A[p] == B[q] for p, q in zip(ia, ib)) * 2 >= len(ia):
                for p, q in zip(ia, ib): m[p] = q
                continue
            s2 = difflib.SequenceMatcher(None, [A[p] for p in ia], [B[q] for q in ib], autojunk=False)
            for o2, a1, a2, b1, b2 in s2.get_opcodes():
                if o2 == "equal" or (o2 == "replace" and a2 - a1 == b2 - b1):
                    for x in range(a2 - a1): m[ia[a1 + x]] = ib[b1 + x]
    return m

def clauses(body):
    """a loop/function header annotation -> list of (line offset of start, text) of its comma-separated clauses; None when it is something else"""
    m = re.match(r"\s*(invariant_except_break|invariant|decreases|ensures|requires)\b", body)
    if not m: return None
    out, d, st, q = [], 0, 0, 0
    i = 0
    while i < len(body):
        c = body[i]
        if body.startswith("//", i):
            i = body.find("\n", i)
            if i < 0: break
            continue
        if c in "([{": d += 1
        elif c in ")]}": d -= 1
        elif c == "|" and d == 0: q ^= 1 if body[i - 1] != "|" and body[i + 1] != "|" else 0
        elif c == "," and d == 0 and not q: out.append((body.count("\n", 0, st), body[st:i + 1])); st = i + 1
        i += 1
    if body[st:].strip(): out.append((body.count("\n", 0, st), body[st:]))
    return out

KW = r"\s*(invariant_except_break|invariant|decreases|ensures|requires)\b"

def without(g, lines):
    """ghost token text with the parts on the given overlay lines left out; None: the whole annotation goes"""
    cl = clauses(g.t.lstrip("<>"))
    lead = g.t[:1] if g.t[:1] in "<>" else ""
    if cl is None: return None
    res, pend, hit = "", "", False
    for off, text in cl:
        n0 = g.l + off
        n1 = n0 + text.count("\n")
        body_first = n0 + (len(text) - len(text.lstrip())and text[:len(text) - len(text.lstrip())].count("\n"))
        m = re.match(KW, text)
        if any(body_first <= l <= n1 for l in lines):
            hit = True
            if m: pend = text[:m.end()].lstrip() + " "      # the keyword stays for the next clause
            res += "\n" * text.count("\n")
            continue
        if m: pend = ""
        lead_ws = text[:len(text) - len(text.lstrip())]
        res += lead_ws + pend + text.lstrip()
        pend = ""
    if not hit or not res.strip() or not re.match(KW, res): return None
    return lead + res

STMT = re.compile(r"\s*(proof\b|let\b|assert\b|broadcast\b|hide\b|reveal\b|use_type)")
LOOPH = re.compile(r"\s*(invariant|invariant_except_break|decreases)\b")

def place(cur, inserts, dropped, body):
    """annotations whose neighbourhood changed: statements go back to the nearest statement boundary, others that do not fit are left out"""
    new = {}
    def boundary(j):
        if j == 0: return False
        p, n = cur[j - 1], cur[j] if j < len(cur) else None
        if p.k != "p": return False
        if p.t in (";", "{"):
            if p.t == "{" and n is not None and n.k == "id" and j + 1 < len(cur) and cur[j + 1].t in (":", ",", "}") : return False   # struct literal
            # a match body is no place for statements
            if p.t == "{":
                d = 0
                for q in range(j - 2, -1, -1):
                    t = cur[q]
                    if t.k == "p" and t.t in (")", "]", "}"): d += 1
                    elif t.k == "p" and t.t in ("(", "[", "{"):
                        d -= 1
                        if d < 0: break
                    elif d == 0 and t.k == "p" and t.t in (";", "=>"): break
                    elif d == 0 and t.k == "id" and t.t == "match": return False
            return True
        if p.t == "}":
            if n is None or n.t in ("else", ".", "?", ")", ",", "]", ";") or n.k == "p" and n.t not in ("}", "(", "*", "&", "{"): return False
            # arm of a match: `=> { .. }`
            from rlex import OPEN, CLOSE
            d, q = 0, j - 1
            while q >= 0:
                if cur[q].k == "p" and cur[q].t in CLOSE: d += 1
                elif cur[q].k == "p" and cur[q].t in OPEN:
                    d -= 1
                    if d == 0: break
                q -= 1
            if q > 0 and cur[q - 1].t == "=>": return False
            return True
        return False
    for at in sorted(inserts):
        for g in inserts[at]:
            t = g.t.lstrip("<>")
            j = at
            if body is not None and at <= body: pass
            elif STMT.match(t):
                while j > 0 and not boundary(j): j -= 1
                if j == 0 or body is not None and j <= body: dropped.append(t.strip()[:60]); continue
            elif LOOPH.match(t):
                if not (j < len(cur) and cur[j].t == "{"): dropped.append(t.strip()[:60]); continue
            elif re.match(r"\s*\w+:\s*$", t):
                if not (cur[j - 1].k == "id" and cur[j - 1].t == "in"): dropped.append(t.strip()[:60]); continue
            elif re.match(r"\s*->", t):
                if not (cur[j - 1].t in ("|", "||")): dropped.append(t.strip()[:60]); continue
            new.setdefault(j, []).append(g)
    return new

def weave(ov, cur, renames, drop=(), contract_end=None):
    """returns (tokens with ghosts, info) ; raises Lost.  `drop`: (overlay file, line) whose annotations are left out (never those of the contract)"""
    code, gh = split_ghost(ov)
    dropped = []
    if contract_end is None: contract_end = -1
    if drop:
        ng = []
        for pos, g in gh:
            n = g.t.count("\n")
            ls = [l for f, l in drop if f == g.f and g.l <= l <= g.l + n]
            if ls and pos > contract_end:
                dropped.append(g.t.strip()[:60])
                t = without(g, ls)
                if t is None: continue
                g = g.clone(t)
            ng.append((pos, g))
        gh = ng
    m = align(code, cur)
    # local renames: identifiers consistently substituted
    loc = {}
    bad = set()
    curset = {t.t for t in cur if t.k == "id"}
    ovset = {t.t for t in code if t.k == "id"}
    for i, j in enumerate(m):
        if j is None: continue
        x, y = code[i], cur[j]
        if x.k == "id" and y.k == "id" and x.t != y.t:
            if x.t in loc and loc[x.t] != y.t: bad.add(x.t)
            loc[x.t] = y.t
    # onto a name in use elsewhere: only inside the body, and not where an annotation mentions both
    shadow = {x: y for x, y in loc.items() if x not in bad and x not in curset and y in ovset}
    loc = {x: y for x, y in loc.items() if x not in bad and x not in curset and y not in ovset}
    base = dict(renames); base.update(loc)
    inserts = {}
    lost = 0
    for pos, g in gh:
        nxt = m[pos] if pos < len(code) else (len(cur) if (pos and m[pos - 1] == len(cur) - 1) else None)
        prv = m[pos - 1] + 1 if pos > 0 and m[pos - 1] is not None else None
        hint = g.t[:1] if g.t[:1] in "<>" else ""
        body = g.t[1:] if hint else g.t
        if hint == "<": at = prv if prv is not None else nxt
        else: at = nxt if nxt is not None else prv
        if at is None:
            if pos <= contract_end: raise Lost("annotation %r has no anchor left" % body.strip()[:60])
            dropped.append(g.t.strip()[:60]); continue
        ren = base
        if shadow and pos > contract_end:
            ids = set(re.findall(r"(?<![\w.])[A-Za-z_]\w*", body))
            ren = {**base, **{x: y for x, y in shadow.items() if y not in ids}}
        if ren:
            body = re.sub(r"(?<![\w.])([A-Za-z_]\w*)", lambda mm: ren.get(mm.group(1), mm.group(1)), body)
            body = re.sub(r"(?<=\.)([A-Za-z_]\w*)", lambda mm: renames.get(mm.group(1), mm.group(1)), body)
        inserts.setdefault(at, []).append(Tok("ghost", body, "\n", g.f, g.l))
    if m != list(range(len(code))) or len(code) != len(cur):
        inserts = place(cur, inserts, dropped, m[contract_end] if 0 <= contract_end < len(code) else None)
    out = []
    for j, t in enumerate(cur):
        out += inserts.get(j, [])
        out.append(t)
    out += inserts.get(len(cur), [])
    same = [t.t for t in code] == [t.t for t in cur]
    ins = len(cur) - sum(1 for j in m if j is not None)
    dele = sum(1 for j in m if j is None)
    sub = sum(1 for i, j in enumerate(m) if j is not None and code[i].t != cur[j].t)
    return out, {"same": same, "ins": ins, "del": dele, "sub": sub, "loc": loc, "dropped": dropped, "calls": sorted(calls(cur) - calls(code)),
                 "bitops": sorted(bitops(cur) - bitops(code))}

def bitops(toks):
    s = set()
    for n, t in enumerate(toks):
        if t.k != "p": continue
        if t.t in (">>", "<<", "^", "|", ">>=", "<<=", "^=", "|=", "&="): s.add(t.t.rstrip("=") if t.t not in ("|",) else "|")
        elif t.t == "&" and n and (toks[n - 1].k in ("num",) or toks[n - 1].t in (")", "]") or toks[n - 1].k == "id" and toks[n - 1].t not in ("in", "return", "mut", "match", "if", "while", "as", "else")): s.add("&")
    return s

def calls(toks):
    """names of the functions and methods that are called or named by path"""
    s = set()
    for n, t in enumerate(toks):
        if t.k != "id": continue
        nx = toks[n + 1].t if n + 1 < len(toks) else ""
        if nx == "(" and not (n and toks[n - 1].t == "fn") and t.t not in ("if", "match", "while", "in", "for", "return", "else"): s.add(t.t)
        elif n and toks[n - 1].t == "::" and t.t[0].islower() and nx not in ("::",): s.add(t.t)
    return s
