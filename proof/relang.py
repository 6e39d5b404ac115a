"""Facts about the regular expressions of the source, decided on the literals themselves.

A literal (regex 0.1 syntax) becomes a syntax tree, then a finite automaton over classes of code points. Every fact is
a statement about the matches of all texts; it is emitted only when it is decided to be true."""
import sys, json

MAXC = 0x10FFFF
class Bad(Exception): pass

# ---------------------------------------------------------------- syntax: ("eps",) ("set", ranges) ("cat", [..]) ("alt", [..]) ("rep", x, lo, hi, lazy) ("group", x) ("bol",)
def norm(rs):
    rs = sorted(rs); out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)
def negate(rs):
    out = []; p = 0
    for a, b in norm(rs):
        if a > p: out.append((p, a - 1))
        p = b + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
ESC = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "a": 7}
CLASS = {"d": ((48, 57),)}

class P:
    def __init__(s, t): s.t = t; s.i = 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else ""
    def eat(s): c = s.peek(); s.i += 1; return c
    def alt(s):
        xs = [s.cat()]
        while s.peek() == "|": s.eat(); xs.append(s.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)
    def cat(s):
        xs = []
        while s.peek() not in ("", "|", ")"): xs.append(s.rep())
        if not xs: return ("eps",)
        return xs[0] if len(xs) == 1 else ("cat", xs)
    def rep(s):
        x = s.atom()
        while True:
            c = s.peek()
            if c in ("*", "+", "?"): s.eat(); lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            elif c == "{":
                j = s.t.index("}", s.i); b = s.t[s.i + 1:j]; s.i = j + 1
                if "," in b: l, h = b.split(","); lo, hi = int(l), (int(h) if h else None)
                else: lo = hi = int(b)
            else: return x
            lazy = False
            if s.peek() == "?": s.eat(); lazy = True
            x = ("rep", x, lo, hi, lazy)
    def escape(s, incl):
        c = s.eat()
        if c == "x":
            if s.peek() == "{": j = s.t.index("}", s.i); v = int(s.t[s.i + 1:j], 16); s.i = j + 1; return v
            v = int(s.t[s.i:s.i + 2], 16); s.i += 2; return v
        if c in ESC: return ESC[c]
        if c in CLASS: return CLASS[c]
        if c.isalnum() or c == "": raise Bad("escape \\" + c)
        return ord(c)
    def atom(s):
        c = s.eat()
        if c == "(":
            cap = True
            if s.peek() == "?":
                if s.t[s.i:s.i + 2] == "?:": s.i += 2; cap = False
                else: raise Bad("group")
            x = s.alt()
            if s.eat() != ")": raise Bad("parenthesis")
            return ("group", x) if cap else x
        if c == "[":
            neg = False; rs = []
            if s.peek() == "^": s.eat(); neg = True
            first = True
            while s.peek() != "]" or first:
                first = False
                c = s.eat()
                if c == "": raise Bad("class")
                if c == "[" : raise Bad("class")
                v = s.escape(True) if c == "\\" else ord(c)
                if isinstance(v, tuple): rs += list(v); continue
                if s.peek() == "-" and s.t[s.i + 1:s.i + 2] not in ("]", ""):
                    s.eat(); c = s.eat(); w = s.escape(True) if c == "\\" else ord(c)
                    if isinstance(w, tuple) or w < v: raise Bad("range")
                    rs.append((v, w))
                else: rs.append((v, v))
            s.eat()
            return ("set", negate(rs) if neg else norm(rs))
        if c == "^": return ("bol",)
        if c == "$": return ("eol",)
        if c == ".": return ("set", negate([(10, 10)]))
        if c == "\\":
            v = s.escape(False)
            return ("set", v if isinstance(v, tuple) else ((v, v),))
        if c in "*+?{}": raise Bad("operator")
        return ("set", ((ord(c), ord(c)),))

def parse(t):
    p = P(t); x = p.alt()
    if p.i != len(t): raise Bad("syntax")
    return x
def has(x, kind):
    if x[0] == kind: return True
    if x[0] in ("cat", "alt"): return any(has(y, kind) for y in x[1])
    if x[0] in ("rep", "group"): return has(x[1], kind)
    return False
def anchored(x):
    """(^ at the beginning and nowhere else, no $): the expression without the ^, or None"""
    if x[0] == "bol": return ("eps",)
    if x[0] == "cat" and x[1][0][0] == "bol":
        r = ("cat", x[1][1:]) if len(x[1]) > 2 else x[1][1] if len(x[1]) == 2 else ("eps",)
        if not has(r, "bol") and not has(r, "eol"): return r
    return None

# ---------------------------------------------------------------- automata
class NFA:
    def __init__(s): s.eps = []; s.tr = []
    def st(s): s.eps.append([]); s.tr.append([]); return len(s.eps) - 1
    def build(s, x):
        k = x[0]
        if k == "eps": a = s.st(); return a, a
        if k == "set":
            a, b = s.st(), s.st(); s.tr[a].append((x[1], b)); return a, b
        if k == "cat":
            a, b = s.build(x[1][0])
            for y in x[1][1:]:
                c, d = s.build(y); s.eps[b].append(c); b = d
            return a, b
        if k == "alt":
            a, b = s.st(), s.st()
            for y in x[1]:
                c, d = s.build(y); s.eps[a].append(c); s.eps[d].append(b)
            return a, b
        if k == "group": return s.build(x[1])
        if k == "rep":
            _, y, lo, hi, _l = x
            a = s.st(); b = a
            for _ in range(lo): c, d = s.build(y); s.eps[b].append(c); b = d
            if hi is None:
                c, d = s.build(y); e = s.st(); s.eps[b].append(c); s.eps[d].append(c); s.eps[b].append(e); s.eps[d].append(e); return a, e
            e = s.st()
            for _ in range(hi - lo): s.eps[b].append(e); c, d = s.build(y); s.eps[b].append(c); b = d
            s.eps[b].append(e); return a, e
        raise Bad(k)
def classes(*xs):
    cut = {0}
    def go(x):
        if x[0] == "set":
            for a, b in x[1]: cut.add(a); cut.add(b + 1)
        elif x[0] in ("cat", "alt"): [go(y) for y in x[1]]
        elif x[0] in ("rep", "group"): go(x[1])
    for x in xs: go(x)
    return sorted(c for c in cut if c <= MAXC)
class DFA:
    """complete, deterministic; letters are the beginnings of the code point classes"""
    def __init__(s, x, letters):
        n = NFA(); a, b = n.build(x); s.letters = letters
        def close(q):
            q = set(q); w = list(q)
            while w:
                for e in n.eps[w.pop()]:
                    if e not in q: q.add(e); w.append(e)
            return frozenset(q)
        s.start = 0; ids = {close([a]): 0}; order = [close([a])]; s.next = []; s.acc = []
        i = 0
        while i < len(order):
            q = order[i]; row = []
            s.acc.append(b in q)
            for c in letters:
                t = close([d for p in q for (rs, d) in n.tr[p] if any(u <= c <= v for u, v in rs)])
                if t not in ids: ids[t] = len(order); order.append(t)
                row.append(ids[t])
            s.next.append(row); i += 1
def witness(a, b, bad):
    """a shortest text on which the two automata end in a pair of states that `bad` accepts, or None"""
    seen = {(a.start, b.start): None}; w = [(a.start, b.start)]; i = 0
    while i < len(w):
        p, q = w[i]
        if bad(a.acc[p], b.acc[q]):
            out = []; k = (p, q)
            while seen[k] is not None: c, k = seen[k]; out.append(c)
            return "".join(chr(c) if not 0xD800 <= c <= 0xDFFF else "?" for c in reversed(out))
        for j, c in enumerate(a.letters):
            t = (a.next[p][j], b.next[q][j])
            if t not in seen: seen[t] = (c, (p, q)); w.append(t)
        i += 1
    return None
def subset(x, y):
    L = classes(x, y); return witness(DFA(x, L), DFA(y, L), lambda p, q: p and not q)
def same(x, y):
    L = classes(x, y); return witness(DFA(x, L), DFA(y, L), lambda p, q: p != q)
ANY = ("rep", ("set", ((0, MAXC),)), 0, None, False)
def text(t): return ("cat", [("set", ((ord(c), ord(c)),)) for c in t]) if len(t) != 1 else ("set", ((ord(t), ord(t)),))

# ---------------------------------------------------------------- leftmost-first matching, exactly
class Order:
    """complete and deterministic: states are the lists of threads in order of preference; a state accepts when the
    preferred match of what was read so far is all of it"""
    def __init__(s, x, letters):
        s.letters = letters; P = []   # the program: ("set", ranges), ("split", [targets in order]), ("match",)
        def emit(i): P.append(i); return len(P) - 1
        def comp(x, k):
            """code for x that goes on at k; returns its beginning"""
            t = x[0]
            if t == "eps": return k
            if t == "set": return emit(("set", x[1], k))
            if t == "group": return comp(x[1], k)
            if t == "cat":
                for y in reversed(x[1]): k = comp(y, k)
                return k
            if t == "alt": return emit(("split", [comp(y, k) for y in x[1]]))
            if t == "rep":
                _, y, lo, hi, lazy = x
                if hi is None:
                    l = emit(("split", [])); b = comp(y, l); P[l] = ("split", [k, b] if lazy else [b, k]); e = l
                else:
                    e = k
                    for _ in range(hi - lo): b = comp(y, e); e = emit(("split", [k, b] if lazy else [b, k]))
                for _ in range(lo): e = comp(y, e)
                return e
            raise Bad(t)
        m = emit(("match",)); start = comp(x, m)
        def close(ts):
            out = []; seen = set()
            def go(t):
                st = [t]
                while st:
                    t = st.pop()
                    if t in seen: continue
                    seen.add(t)
                    if P[t][0] == "split": st += reversed(P[t][1])
                    else:
                        out.append(t)
                        if t == m: return True
                return False
            for t in ts:
                if go(t): break
            return tuple(out)
        s.start = 0; first = close([start]); ids = {first: 0}; order = [first]; s.next = []; s.acc = []; i = 0
        while i < len(order):
            q = order[i]; row = []
            s.acc.append(m in q)
            for c in letters:
                t = close([P[t][2] for t in q if P[t][0] == "set" and any(u <= c <= v for u, v in P[t][1])])
                if t not in ids: ids[t] = len(order); order.append(t)
                row.append(ids[t])
            s.next.append(row); i += 1
            if i > 5000: raise Bad("too many states")
    def inside(s, d):
        """the texts t for which the preferred match of d t d is all of it"""
        def step(q, t):
            for c in t:
                j = max(k for k, l in enumerate(s.letters) if l <= ord(c)); q = s.next[q][j]
            return q
        o = object.__new__(Order); o.letters = s.letters; o.next = s.next; o.start = step(s.start, d); o.acc = [s.acc[step(q, d)] for q in range(len(s.next))]
        return o
def differ(o, y):
    """a text on which the ordered automaton and the expression y disagree, or None"""
    return witness(o, DFA(y, o.letters), lambda p, q: p != q)

# ---------------------------------------------------------------- the languages of TOML 0.4 (written from its grammar)
HEX = "[0-9A-Fa-f]"
ESCAPE = r'\\(["\\/bfnrt]|u' + HEX + "{4}|U" + HEX + "{8})"
DEC = r"(0|[1-9](_?[0-9])*|[0-9])"
FRAC = r"\.[0-9](_?[0-9])*"
EXP = r"[eE][+\-]?" + DEC
ML_PIECE = r"([\t\n -!#-\[\]-\x{10FFFF}]|\r\n|" + ESCAPE + r"|\\(\n|\r\n))"
MLL_PIECE = r"([\n -&(-\x{10FFFF}]|\r\n)"
REFERENCE = {
    "INT": (1, r"[+\-]?" + DEC),
    "FLOAT": (2, r"[+\-]?" + DEC + "(" + FRAC + "(" + EXP + ")?|" + EXP + ")"),
    "BASIC": (3, r"([ !#-\[\]-\x{10FFFF}]|" + ESCAPE + ")*"),
    # quotes never three in a row, and none at the end
    "ML_BASIC": (4, "((\"|\"\")?" + ML_PIECE + ")*"),
    "LITERAL": (5, r"[ -&(-\x{10FFFF}]*"),
    "ML_LITERAL": (6, "(('|'')?" + MLL_PIECE + ")*"),
    "QUOTED_KEY": (7, r'"([ !#-\[\]-\x{10FFFF}]|' + ESCAPE + ')+"'),
}

# ---------------------------------------------------------------- the facts
def rust(t): return "seq![" + ", ".join(f"{b}u8" for b in t.encode()) + "]"
QUOTED = {3: '"', 4: '"""', 5: "'", 6: "'''"}
REF = {k: parse(l) for k, l in REFERENCE.values()}
def facts(lit):
    out = []
    try: x = parse(lit)
    except Bad: return out
    r = anchored(x)
    if r is None or has(r, "bol") or has(r, "eol"): return out
    out.append("re_anchored(r.id@)")
    if subset(("eps",), r) is None: out.append("re_total(r.id@)")
    if subset(r, ("cat", [("set", negate([(91, 91), (123, 123)])), ANY])) is None: out.append("re_value(r.id@)")
    if subset(r, ("alt", [("eps",), ("cat", [("set", ((9, 10), (13, 13), (32, 32))), ANY])])) is None: out.append("re_wsp(r.id@)")
    for d in ('"', "'", '"""', "'''"):
        if subset(r, ("cat", [text(d), ANY, text(d)])) is None: out.append(f"re_quoted(r.id@, {rust(d)})")
    if r[0] == "cat" and len(r[1]) == 2 and r[1][0][0] == "set" and len(r[1][0][1]) == 1 and r[1][0][1][0][0] == r[1][0][1][0][1] and r[1][1][0] == "group" and not has(r[1][1][1], "group"):
        out.append(f"re_after(r.id@, {rust(chr(r[1][0][1][0][0]))})")
    try:
        b = ("rep", ("set", ((9, 9), (32, 32))), 0, None, False)
        if same(r, b) is None and differ(Order(r, classes(r, b)), b) is None: out.append("re_blank(r.id@)")
    except Bad: pass
    try: out += languages(r)
    except Bad: pass
    return out
def languages(r):
    """the texts that the expression matches as a whole"""
    out = []
    for k, y in REF.items():
        L = classes(r, y, text('"'), text("'")); o = Order(r, L)
        if differ(o, y) is None: out.append(f"re_lang(r.id@, {k})")
        elif k in QUOTED and witness(DFA(y, L), o, lambda p, q: p and not q) is None: out.append(f"re_covers(r.id@, {k})")
        if k in QUOTED and differ(o.inside(QUOTED[k]), y) is None: out.append(f"re_lang_in(r.id@, {rust(QUOTED[k])}, {k})")
    for d in ('"""', "'''"):
        if subset(r, ("cat", [text(d[0]), ANY])) is not None: continue
        L = classes(r, text(d)); o = Order(r, L)
        if witness(o, DFA(("cat", [text(d), ANY]), L), lambda p, q: p and q) is None: out.append(f"re_not_over(r.id@, {rust(d)})")
    return out
def check_axioms():
    """lang_plain in proof/val.vx: decimal numbers without leading zeros are integers;
    quoted_keys in proof/set.vx: they begin with a quotation mark, have two bytes, and none continues another"""
    x = parse(r"-?(0|[1-9][0-9]*|[0-9])")
    if subset(x, REF[1]) is not None: raise Bad("the axiom lang_plain is wrong")
    q = REF[7]; one = ("set", ((0, 0x10ffff),))
    if subset(q, ("cat", [text('"'), one, ANY])) is not None: raise Bad("the axiom quoted_keys is wrong")
    more = ("cat", [q, one, ANY]); L = classes(q, more)
    if witness(DFA(q, L), DFA(more, L), lambda a, b: a and b) is not None: raise Bad("the axiom quoted_keys is wrong")
def add_facts(rs, mp):
    """states the facts of every literal on the function that stands for it"""
    check_axioms()
    t = open(rs).read(); used = {}
    for k, lit in mp["regexes"].items():
        f = facts(lit); used[lit] = f
        t = t.replace(f"/*F{k}*/", "".join(", " + x for x in f))
    open(rs, "w").write(t)
    return used
if __name__ == "__main__":
    for l, f in add_facts(sys.argv[1], json.load(open(sys.argv[2]))).items(): print(repr(l)[:100], f)
