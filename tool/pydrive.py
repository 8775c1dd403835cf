"""Calls the compiled Python binding and compares with what the compiled core library returns.
Bounded: it gives a failed obligation a concrete failing input, and stands in where the verifier could not reach.
pydrive.py --refuter EXE --dir DIR --prop C15|C16 (--secs N --seed S [--hints F] | --case JSON)"""
import argparse, json, os, random, subprocess, sys, tempfile, time

ap = argparse.ArgumentParser()
for o in ("refuter", "dir", "prop", "case", "hints"): ap.add_argument("--" + o)
ap.add_argument("--secs", type=float, default=5)
ap.add_argument("--seed", type=int, default=1)
A = ap.parse_args()
sys.path.insert(0, A.dir)
sys.dont_write_bytecode = True

SRV = subprocess.Popen([A.refuter, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
def ask(*fields):
    SRV.stdin.write("\t".join(fields) + "\n"); SRV.stdin.flush()
    return SRV.stdout.readline().rstrip("\n")

def hx(s): return ".".join("%x" % ord(c) for c in s)
def w_list(l): return "-" if l is None else "=" + ",".join("s" + hx(x) for x in l)
def w_text(s): return "-" if s is None else "=" + hx(s)
def w_num(n): return "-" if n is None else "=%d" % n
_v = ask("v").split()
NAMES, LATEST = _v[1].split(","), _v[2]
def w_ver(v): return "-" if v is None else "=%d" % NAMES.index(v)

def attr(n): return "V" + n.replace(".", "_")

try: import unicode_intervals as M
except BaseException as e:
    print("FOUND %s\nWHAT the module cannot be imported: %s: %s" % (json.dumps({"f": "import"}), type(e).__name__, e)); sys.exit(1)

def run(f):
    try: return ("ok", f())
    except ValueError as e: return ("ValueError",)
    except BaseException as e: return ("exception", type(e).__name__, str(e)[:200])

def show(x):
    s = repr(x)
    return s if len(s) < 300 else s[:140] + " ... " + s[-140:]

def obj(v): return None if v is None else getattr(M.UnicodeVersion, attr(v))

def kwargs(k):
    k = dict(k)
    if "version" in k: k["version"] = obj(k["version"])
    return k

def compare(got, exp):
    """None, or what is wrong"""
    if got != exp: return "Python: %s; core: %s" % (show(got), show(exp))

def core_out(line, conv):
    if line.startswith("ok"):
        body = line[3:]
        return ("ok", tuple(conv(x) for x in body.split(",")) if body else ())
    if line in ("err", "name"): return ("ValueError",)
    return ("exception", line)

def one(c):
    """what is wrong with one call, or None"""
    f = c["f"]
    if f == "query":
        k = c["k"]
        exp = core_out(ask("q", w_ver(k.get("version")), w_list(k.get("categories")), w_list(k.get("exclude_categories")), w_num(k.get("min_codepoint")), w_num(k.get("max_codepoint")),
                           w_text(k.get("include_characters")), w_text(k.get("exclude_characters"))), lambda x: tuple(int(n) for n in x.split("-")))
        return compare(run(lambda: M.query(**kwargs(k))), exp)
    if f == "categories":
        exp = core_out(ask("c", w_ver(c["k"].get("version"))), str)
        return compare(run(lambda: M.categories(**kwargs(c["k"]))), exp)
    if f == "expand":
        exp = core_out(ask("g", w_ver(c["k"].get("version")), w_list(c["l"])), str)
        return compare(run(lambda: M.as_general_categories(list(c["l"]), **kwargs(c["k"]))), exp)
    if f == "hist":
        for n, x in enumerate(c["calls"]):
            w = one(x)
            if w: return "call %d, %s: %s" % (n + 1, json.dumps(x), w)
        return None
    if f == "names":
        for n in ("UnicodeVersion", "query", "categories", "as_general_categories", "available_versions"):
            if not hasattr(M, n): return "the module has no %s" % n
        return None
    # C15
    if f == "new":
        s = c["s"]
        got = run(lambda: M.UnicodeVersion(s))
        if s in NAMES:
            if got[0] != "ok": return "UnicodeVersion(%r): %s, the name is bundled" % (s, show(got))
            return denotes(got[1], s)
        return None if got == ("ValueError",) else "UnicodeVersion(%r): %s, expected ValueError" % (s, show(got))
    if f == "attr": return denotes(obj(c["v"]), c["v"])
    if f == "latest": return denotes(M.UnicodeVersion.latest(), LATEST)
    if f == "available":
        l = M.available_versions
        if not isinstance(l, tuple) or len(l) != len(NAMES): return "available_versions: %s" % show(l)
        for o, n in zip(l, NAMES):
            w = denotes(o, n)
            if w: return "available_versions: " + w
        return None
    if f == "eq":
        a, b = obj(c["a"]), obj(c["b"])
        pairs = [(a, b), (M.UnicodeVersion(c["a"]), b), (M.available_versions[NAMES.index(c["a"])], M.UnicodeVersion(c["b"]))]
        for x, y in pairs:
            if (x == y) is not (c["a"] == c["b"]) or (x != y) is not (c["a"] != c["b"]): return "%r == %r is %r" % (x, y, x == y)
        return None
    if f == "import": return None
    raise KeyError(f)

def denotes(o, name):
    if not isinstance(o, M.UnicodeVersion): return "%r is not a version object" % (o,)
    if str(o) != name: return "str() of the object for %s is %r" % (name, str(o))
    if repr(o) != 'UnicodeVersion("%s")' % name: return "repr() of the object for %s is %r" % (name, repr(o))
    if not (o == obj(name)): return "the object for %s is not equal to UnicodeVersion.%s" % (name, attr(name))
    for q in NAMES:
        if q != name and o == obj(q): return "the object for %s is equal to UnicodeVersion.%s" % (name, attr(q))
    back = run(lambda: M.UnicodeVersion(str(o)))
    if back[0] != "ok" or not (back[1] == o): return "UnicodeVersion(str(x)) is %s for %s" % (show(back), name)
    exp = core_out(ask("q", w_ver(name), w_list(["Cn"]), "-", "-", "-", "-", "-"), lambda x: tuple(int(n) for n in x.split("-")))
    w = compare(run(lambda: M.query(categories=["Cn"], version=o)), exp)
    return w and "the object for %s does not denote it: %s" % (name, w)

def safe(c):
    try: return one(c)
    except BaseException as e: return "%s: %s" % (type(e).__name__, str(e)[:300])

if A.case is not None:
    if A.case.startswith("@"): A.case = open(A.case[1:]).read()
    c = json.loads(A.case)
    w = safe(c)
    print("FOUND %s\nWHAT %s" % (A.case, w) if w else "HOLDS " + A.case)
    sys.exit(1 if w else 0)

# ---- search

R = random.Random(A.seed)
CATS = ask("c", "-").split()[1].split(",")
h_num, h_str, h_cat, h_ver = [], [], [], []
if A.hints and os.path.exists(A.hints):
    for l in open(A.hints):
        k, _, x = l.rstrip("\n").partition(" ")
        if k == "n" and x.isdigit(): h_num.append(int(x))
        elif k == "s": h_str.append("".join(chr(int(h, 16)) for h in x.split(".") if h and not 0xd800 <= int(h, 16) <= 0xdfff))
        elif k == "c" and x in CATS: h_cat.append(x)
        elif k == "v" and x in NAMES: h_ver.append(x)

def num():
    p = R.random()
    if h_num and p < .15: return max(0, min(2**32 - 1, R.choice(h_num) + R.choice((-1, 0, 0, 1))))
    if p < .35: return R.choice((0, 1, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff))
    if p < .43: return R.choice((0x110000, 0x110001, 2**31, 2**32 - 1))
    if p < .7: return R.randrange(0, 0x3000)
    return R.randrange(0, 0x110000)

def char():
    while True:
        n = R.choice((R.randrange(0, 0x80), R.randrange(0x80, 0x3000), R.randrange(0, 0x110000), num() % 0x110000))
        if not 0xd800 <= n <= 0xdfff: return chr(n)

def length():
    near = [n for n in h_num if 8 < n <= 20000]
    n = R.choice(near) if near and R.random() < .5 else R.choice((R.randrange(300), 1 << R.randrange(4, 13), R.randrange(6000)))
    return max(0, n + R.choice((-1, 0, 0, 1)))

def text(): return "".join(char() for _ in range(length() if R.random() < .04 else R.choice((0, 0, 1, 1, 2, 3, 5))))

def name():
    p = R.random()
    if h_cat and p < .2: return R.choice(h_cat)
    if p < .97: return R.choice(CATS)
    return odd(R.choice(CATS))

def odd(n):
    return R.choice((n.lower(), n.upper(), n + " ", " " + n, n + n, n[:1], "", n[:1] + "x", n + "\0", "L", "C", "Xx", "LC", "Any", n.swapcase(), text()) + tuple(h_str))

def names(lo=0):
    n = min(length(), 3000) if R.random() < .03 else R.choice((0, 1, 1, 2, 3, 5, 12, 30, 40))
    if n > 12 and R.random() < .6:
        pool = R.sample(CATS, R.choice((1, 2, 3, 8)))
        return [R.choice(pool) for _ in range(n)] + ([name()] if R.random() < .2 else [])
    l = [name() for _ in range(max(n, lo))]
    if R.random() < .1: l = list(CATS); R.shuffle(l)
    if l and R.random() < .15: l.append(R.choice(l))
    return l

def ver(): return R.choice(h_ver) if h_ver and R.random() < .3 else R.choice(NAMES)

def maybe(k, n, f, none=True):
    p = R.random()
    if p < .45: k[n] = f()
    elif p < .55 and none: k[n] = None

def query():
    k = {}
    maybe(k, "categories", names); maybe(k, "exclude_categories", names)
    maybe(k, "min_codepoint", num); maybe(k, "max_codepoint", num)
    if R.random() < .8 and k.get("min_codepoint") is not None and k.get("max_codepoint") is not None: k["min_codepoint"], k["max_codepoint"] = sorted((k["min_codepoint"], k["max_codepoint"]))
    maybe(k, "include_characters", text, False); maybe(k, "exclude_characters", text, False)
    maybe(k, "version", ver)
    return {"f": "query", "k": k}

def expand():
    k = {}
    maybe(k, "version", ver)
    l = [R.choice(("L", "M", "N", "P", "S", "Z", "C")) if R.random() < .4 else name() for _ in range(min(length(), 3000) if R.random() < .03 else R.choice((0, 1, 1, 2, 3, 6, 20)))]
    return {"f": "expand", "l": l, "k": k}

def cats():
    k = {}
    maybe(k, "version", ver)
    return {"f": "categories", "k": k}

def version_text():
    n = R.choice(NAMES)
    p = R.random()
    if p < .06:
        pad = R.choice((" ", "0", "x", ".0", "\t", n, "é", "\0")) * max(1, length())
        return R.choice((n + pad, pad + n, pad, pad + n + pad))
    if h_str and p < .2: return R.choice(h_str)
    if p < .5:
        return R.choice((n + " ", " " + n, n + "\n", "\t" + n, "V" + n, attr(n), n + ".0", n[:-2], n[:-1], n[1:], n.replace(".", "_"), n.replace(".", ""), "0" + n, n + "\0", n + "0", n.replace("0", "1"),
                         n.replace(".0", ".1", 1), n[::-1], n.split(".")[0], "".join(chr(ord(c) + 0xff10 - 0x30) if c.isdigit() else c for c in n), "+" + n, "v" + n, n + "-", "UnicodeVersion(\"%s\")" % n, n.upper(), "latest", ""))
    if p < .75:
        l = list(n)
        i = R.randrange(len(l)); l[i] = R.choice("0123456789._ -")
        if R.random() < .3: del l[R.randrange(len(l))]
        return "".join(l)
    if p < .9: return "%d.%d.%d" % (R.randrange(0, 25), R.choice((0, 0, 0, 1, 2, 5)), R.choice((0, 0, 0, 1, 2)))
    return text()

def fixed():
    if A.prop == "C15":
        yield {"f": "available"}; yield {"f": "latest"}
        for n in NAMES: yield {"f": "attr", "v": n}; yield {"f": "new", "s": n}
        for a in NAMES:
            for b in NAMES: yield {"f": "eq", "a": a, "b": b}
        for s in ("", "latest", "17", "9.0", "V9_0_0", "9.0.0 ", " 9.0.0", "18.0.0", "8.0.0", "12.2.0"): yield {"f": "new", "s": s}
    else:
        yield {"f": "names"}
        yield {"f": "query", "k": {}}; yield {"f": "categories", "k": {}}; yield {"f": "categories", "k": {"version": None}}
        yield {"f": "query", "k": {"categories": []}}; yield {"f": "query", "k": {"categories": [], "include_characters": "b"}}; yield {"f": "query", "k": {"exclude_categories": []}}
        for n in NAMES:
            yield {"f": "query", "k": {"version": n, "categories": ["Cn"]}}; yield {"f": "categories", "k": {"version": n}}; yield {"f": "expand", "l": ["L", "N", "Cn"], "k": {"version": n}}
        for c in CATS: yield {"f": "query", "k": {"categories": [c]}}; yield {"f": "query", "k": {"exclude_categories": [c]}}; yield {"f": "expand", "l": [c], "k": {}}

def histories():
    """orders in which the versions are first asked for, each in a fresh process"""
    n = len(NAMES)
    yield [{"f": "categories", "k": {"version": v}} for v in NAMES * 2]
    yield [{"f": "categories", "k": {"version": v}} for v in NAMES[::-1] * 2]
    while True:
        o = [R.choice(NAMES + [None]) for _ in range(R.choice((3, 6, 25)))]
        calls = []
        for v in o:
            calls.append({"f": "categories", "k": {} if v is None and R.random() < .5 else {"version": v}})
            if R.random() < .2: calls.append(R.choice((query, expand))())
        yield calls

def fresh(c):
    fd, f = tempfile.mkstemp()
    with os.fdopen(fd, "w") as o: o.write(json.dumps(c))
    try: p = subprocess.run([sys.executable, "-B", __file__, "--refuter", A.refuter, "--dir", A.dir, "--prop", A.prop, "--case", "@" + f], capture_output=True, text=True, timeout=100)
    finally: os.remove(f)
    if p.returncode == 0: return None
    w = [l[5:] for l in p.stdout.splitlines() if l.startswith("WHAT ")]
    return w[0] if w else "the process ended with status %d: %s" % (p.returncode, p.stderr[-300:])

def shrink(c, bad):
    """drop arguments and list items while it still fails"""
    def less(v):
        """halves first, then one item less"""
        n = len(v)
        if n > 3: yield v[:n // 2]; yield v[n // 2:]
        if n > 16:
            for i in range(0, n, n // 8): yield v[:i] + v[i + n // 8:]
        if n <= 64:
            for i in range(n): yield v[:i] + v[i + 1:]
    go, t = True, time.time()
    while go:
        go = False
        alts = []
        if c["f"] == "hist":
            alts += [{"f": "hist", "calls": w} for w in less(c["calls"])]
        if "k" in c:
            for a in c["k"]:
                alts.append(dict(c, k={x: y for x, y in c["k"].items() if x != a}))
                v = c["k"][a]
                if isinstance(v, list) or isinstance(v, str) and a != "version": alts += [dict(c, k=dict(c["k"], **{a: w})) for w in less(v)]
        if "l" in c: alts += [dict(c, l=w) for w in less(c["l"])]
        for x in alts:
            if time.time() - t > 25: return c
            if bad(x): c, go = x, True; break
    return c

def report(c, w):
    print("FOUND %s\nWHAT %s" % (json.dumps(c), w)); sys.exit(1)

t0, n, seen, sample, past = time.time(), 0, set(), [], []
fx, hs = fixed(), histories()
nh = 0
while True:
    c = next(fx, None)
    if c is None:
        if n > 400 and time.time() - t0 > A.secs: break
        if A.prop == "C15": c = {"f": "new", "s": version_text()} if R.random() < .95 else {"f": "eq", "a": ver(), "b": ver()}
        else:
            p = R.random()
            if nh < max(8, A.secs * 2) and p < .05:
                h = {"f": "hist", "calls": next(hs)}
                nh += 1; n += 1; seen.add(hash(json.dumps(h)))
                if fresh(h): h = shrink(h, fresh); report(h, fresh(h))
                continue
            c = query() if p < .7 else expand() if p < .9 else cats()
    n += 1
    t = json.dumps(c)
    if n < 3 or n == 250: sample.append(t[:200])
    seen.add(hash(t))
    past.append(c)
    if len(past) > 3000: del past[:500]
    if safe(c):
        if not fresh(c):
            # it took the calls before it
            h = {"f": "hist", "calls": past}
            if not fresh(h): past.pop(); continue
            h = shrink(h, fresh)
            report(h, fresh(h))
        c = shrink(c, safe)
        report(c, safe(c))
print("NONE cases=%d distinct=%d" % (n, len(seen)))
for s in sample: print("SAMPLE " + s)
