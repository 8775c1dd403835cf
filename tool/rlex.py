"""Small Rust lexer used by the extraction step.

A token keeps the text of the white space before it and the file/line it came from, so the
generated Verus text stays line-traceable to /repo.  Comments are dropped, except ghost
annotations written as  /*@ ... @*/  (only overlay files contain those)."""
import re

class Tok:
    __slots__ = ("k", "t", "ws", "f", "l")
    def __init__(self, k, t, ws="", f=None, l=0):
        self.k, self.t, self.ws, self.f, self.l = k, t, ws, f, l
    def __repr__(self):
        return "%s:%r" % (self.k, self.t)
    def clone(self, t=None):
        return Tok(self.k, self.t if t is None else t, self.ws, self.f, self.l)

class LexError(Exception):
    pass

P3 = ("<<=", ">>=", "...", "..=")
P2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=",
      "&=", "|=", "<<", ">>", "..")
ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0x[0-9a-fA-F_]+[a-z0-9]*|0b[01_]+[a-z0-9]*|0o[0-7_]+[a-z0-9]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[a-z0-9_]*")
RAW = re.compile(r'(?:b|c)?r(#*)"')
CHAR = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S)
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")

def lex(src, fname=None):
    out, i, n, line, ws = [], 0, len(src), 1, ""
    def push(k, text):
        nonlocal ws, line
        out.append(Tok(k, text, ws, fname, line))
        line += text.count("\n")
        ws = ""
    while i < n:
        c = src[i]
        if c.isspace():
            j = i
            while j < n and src[j].isspace():
                j += 1
            ws += src[i:j]; line += src.count("\n", i, j); i = j; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j; ws += " "; continue
        if src.startswith("/*@", i):
            j = src.find("@*/", i)
            if j < 0: raise LexError("unterminated ghost")
            text = src[i:j + 3]
            out.append(Tok("ghost", text[3:-3], ws, fname, line)); ws = ""
            line += text.count("\n"); i = j + 3; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += src.count("\n", i, j); i = j; ws += " "; continue
        m = RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0: raise LexError("raw string")
            push("str", src[i:j + len(end)]); i = j + len(end); continue
        if c == '"' or (c in "bc" and src.startswith('"', i + 1)):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            if j >= n: raise LexError("string")
            push("str", src[i:j + 1]); i = j + 1; continue
        if c == "'" or (c == "b" and src.startswith("'", i + 1)):
            m = CHAR.match(src, i)
            if m: push("char", m.group(0)); i = m.end(); continue
            m = LIFE.match(src, i)
            if m: push("life", m.group(0)); i = m.end(); continue
            raise LexError("quote at line %d" % line)
        m = ID.match(src, i)
        if m: push("id", m.group(0)); i = m.end(); continue
        if c.isdigit():
            m = NUM.match(src, i)
            t = m.group(0)
            # tuple field access such as x.0.1 must not lex 0.1 as a float
            if out and out[-1].t == "." and "." in t: t = t.split(".")[0]
            push("num", t); i += len(t); continue
        for p in P3 + P2:
            if src.startswith(p, i):
                push("p", p); i += len(p); break
        else:
            push("p", c); i += 1
    return out

OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")": "(", "]": "[", "}": "{"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN: d += 1
            elif t.t in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError("unbalanced bracket (line %s)" % toks[i].l)

def text(toks):
    return "".join((t.ws if t.ws else "") + t.t for t in toks)
def norm(toks):
    return " ".join(t.t for t in toks if t.k != "ghost")
