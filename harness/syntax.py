"""Texts of signatures, interactions and multi-traces: well-formed ones, and ones with mistakes (inputs only)."""
NAMES = ["a", "b", "c", "lf1", "m", "n", "o", "oa", "o1", "seq", "alt", "loopS", "loop", "S", "coreg", "strict", "sync", "synch",
         "asynch", "any", "all", "m_1", "A9_", "Zoe", "par", "and", "x", "message", "\u00e9t\u00e9", "\u03bb", "\u0436x", "\u4e00", "ab", "aB"]

def codes(s): return [ord(c) for c in s]

def csig(s): return {k: [codes(x) for x in s[k]] for k in ("lf", "ms", "gt")}
NOSIG = dict(lf=[], ms=[], gt=[])

class Judge:
    """cases of Conf_Syntax"""
    def __init__(self, ctx): self.ctx = ctx; self.cases = []; self.info = {}
    def case(self, kind, text, sig, inf=None, **kw):
        i = len(self.cases)
        self.cases.append(dict(id=i, kind=kind, cs=codes(text), sig=csig(sig), **kw)); self.info[i] = dict(text=text, signature=sig, **(inf or kw))
    def run(self, what):
        ctx = self.ctx
        r = ctx.tlc("Conf_Syntax", self.cases)
        for b in r.tagged.get("BAD", []): ctx.bad(f"{what}: {b[1]}", self.info[b[0]])
        ctx.valid(len(self.cases))
        for i in range(0, len(self.cases), max(1, len(self.cases) // 4)): ctx.sample(self.info[i])
        self.cases = []; self.info = {}

def read_texts(ctx, items):
    """items: (kind, text, signature), read by the implementation and judged by the specification"""
    J = Judge(ctx); op = dict(i="read_hif", h="read_htf", s="read_hsf")
    for (k, text, sig), a in zip(items, ctx.impl.drive([dict(op=op[k], text=text, **sig) for k, text, sig in items])):
        if "ok" not in a: ctx.bad("reading a file fails: " + str(a), dict(text=text, signature=sig)); continue
        ctx.count("accepted" if a["ok"] else "refused")
        got = {} if not a["ok"] else dict(t=a["t"]) if k == "i" else dict(mt=a["mt"]) if k == "h" else {x: [codes(n) for n in a[x]] for x in ("lf", "ms", "gt")}
        J.case(k, text, sig, ok=a["ok"], **got)
    J.run("reading a file")

def run_tool(ctx, items):
    """the same on the command line: the tool works on what is well-formed and refuses the rest, without failing"""
    import core
    def one(m):
        kind, text, sig = m
        hsf = text if kind == "s" else "".join(k + "{" + ";".join(v) + "}" for k, v in (("@message", sig["ms"]), ("@lifeline", sig["lf"]), ("@gate", sig["gt"])) if v)
        with core.Dir(ctx) as d:
            d.write("s.hsf", hsf); d.write("i.hif", text if kind == "i" else "o"); d.write("t.htf", text if kind == "h" else "{}")
            d.write("c.hcf", "@analyze_option{filters=[max_node_number=2]} @explore_option{filters=[max_depth=1,max_node_number=2]}")
            return ctx.impl.cli(["analyze", "s.hsf", "i.hif", "t.htf", "c.hcf"] if kind == "h" else ["explore", "s.hsf", "i.hif", "c.hcf"], d.p)
    J = Judge(ctx)
    for (k, text, sig), x in zip(items, ctx.impl.pmap(one, items)):
        if x["hang"] or core.sut.panicked(x): ctx.bad("the tool fails on a file", dict(text=text, signature=sig, err=x["err"][-400:])); continue
        done = ("verdict" if k == "h" else "node count") in x["out"]
        J.case(k.upper(), text, sig, dict(ran=done, out=x["out"][-300:]), ok=int(done))
        ctx.count("command_line")
    J.run("running the tool on a file")

def signature(r, maxn=3):
    pool = r.sample(NAMES, 9)
    lf = pool[:r.randrange(1, maxn + 1)]; ms = pool[3:3 + r.randrange(1, maxn + 1)]; gt = pool[6:6 + r.randrange(0, 3)]
    if r.random() < 0.25: ms = [r.choice(lf)] + ms[1:]            # one name for a message and a lifeline
    if gt and r.random() < 0.1: gt = [r.choice(lf)] + gt[1:]      # and for a gate and a lifeline
    ms = list(dict.fromkeys(ms)); gt = list(dict.fromkeys(gt))
    return dict(lf=lf, ms=ms, gt=gt)

class Pieces:
    def __init__(self, r, sig, slip=0.02): self.r = r; self.s = sig; self.slip = slip
    def lf(self): return self.r.choice(NAMES) if self.r.random() < self.slip else self.r.choice(self.s["lf"])
    def ms(self): return self.r.choice(NAMES) if self.r.random() < self.slip else self.r.choice(self.s["ms"])
    def gt(self): return self.r.choice(self.s["gt"]) if self.s["gt"] else self.lf()
    def sub(self, pool, n):
        if self.r.random() < self.slip: return [self.r.choice(pool) for _ in range(n)]
        return self.r.sample(pool, min(n, len(pool)))
    def some(self, what, n):
        l = self.sub(what, n)
        return [self.r.choice(NAMES) if self.r.random() < self.slip / 2 else x for x in l]
    def sep(self, groups, s=","):
        out = []
        for i, g in enumerate(groups): out += ([s] if i else []) + g
        return out
    def targets(self, pool, env):
        r = self.r; n = r.choice([0, 1, 1, 1, 2, 3]) if env else r.choice([1, 1, 1, 2, 3])
        if r.random() < self.slip: n = 0
        t = self.some(pool, n)
        if not t: return ["->", "|"]
        if len(t) == 1 and r.random() < 0.8: return ["->", t[0]]
        return ["->", "("] + self.sep([[x] for x in t]) + [")"]
    def synch(self): return self.r.choice([[], [], [], ["<", "synch", ">"], ["<", "asynch", ">"]])
    def comm(self):
        r = self.r; k = r.random()
        if k < 0.65: return [self.lf(), "--"] + self.synch() + [self.ms()] + self.targets(self.s["lf"] + [x for x in self.s["gt"] if x not in self.s["lf"]], True)
        if k < 0.8: return [self.gt(), "--"] + self.synch() + [self.ms()] + self.targets(self.s["lf"], False)
        return self.synch() + [self.ms()] + self.targets(self.s["lf"], False)
    def action(self): return [self.lf(), self.r.choice("!?"), self.ms()]
    def args(self, sz, n=None):
        r = self.r; n = n or r.choice([2, 2, 2, 3, 4])
        if r.random() < self.slip: n = r.choice([1, 2])
        return ["("] + self.sep([self.inter(max(1, sz // n)) for _ in range(n)]) + [")"]
    def inter(self, sz):
        r = self.r
        if sz <= 1: return [r.choice(["o", "\u2205"])] if r.random() < 0.15 else self.comm()
        k = r.choices(["n", "cr", "lp", "sy"], [5, 1.5, 2, 1])[0]
        if k == "n": return [r.choice(["strict", "seq", "alt", "par"])] + self.args(sz)
        if k == "cr": return ["coreg", "("] + self.sep([[x] for x in self.some(self.s["lf"], r.randrange(1, 4))]) + [")"] + self.args(sz)
        if k == "lp":
            kind = r.choice("SHWP") if r.random() > self.slip else r.choice("AsX1")
            return (["loop" + kind] if r.random() < 0.9 else ["loop", kind]) + self.args(sz, 1)
        n = r.choice([1, 1, 2, 3])
        a = self.sep([self.action() for _ in range(n)])
        return ["sync"] + (["("] + a + [")"] if n == 1 else ["{"] + a + ["}"]) + self.args(sz)
    def element(self, lfs):
        r = self.r
        act = lambda: [r.choice(NAMES) if r.random() < self.slip else r.choice(lfs), r.choice("!?"), self.ms()]
        n = r.choice([1, 1, 1, 2, 3])
        a = self.sep([act() for _ in range(n)])
        return a if n == 1 else ["{"] + a + ["}"]
    def trace(self, lfs): return self.sep([self.element(lfs) for _ in range(self.r.choice([0, 1, 1, 2, 3]))], ".") if lfs else []
    def multi(self):
        r = self.r; lfs = list(self.s["lf"])
        if r.random() < 0.2: return self.trace(lfs)
        r.shuffle(lfs)
        out = []; rest = lfs
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            n = r.randrange(0, len(rest) + 1) if rest else 0
            if n == 0 and r.random() < 0.7: n = min(1, len(rest))
            own, rest = rest[:n], rest[n:]
            k = r.random()
            if r.random() < self.slip * 3 and own: rest = rest + [r.choice(own)]          # overlap
            if k < 0.25: out.append(["[", "#any", "]"] + self.trace(own))
            elif k < 0.4: out.append(["[", "#all", "]"] + self.trace(own + rest)); rest = []
            elif own: out.append(["["] + self.sep([[x] for x in own]) + ["]"] + self.trace(own if r.random() > self.slip * 2 else lfs))
        return ["{"] + self.sep(out, ";") + ([";"] if r.random() < 0.2 else []) + ["}"]
    def sections(self):
        r = self.r; out = []
        for k, l in sorted([("@message", self.s["ms"]), ("@lifeline", self.s["lf"]), ("@gate", self.s["gt"])], key=lambda _: r.random()):
            if not l and r.random() > self.slip: continue
            l = list(l) + ([r.choice(l)] if l and r.random() < 0.1 else [])                # declared twice
            out += [k, "{"] + self.sep([[x] for x in l], ";") + ([";"] if r.random() < 0.4 else []) + ["}"]
        if r.random() < max(self.slip, 0.1): out += ["@" + r.choice(["message", "lifeline", "gate"]), "{", "zz", "}"]
        return out

JUNK = ["(", ")", ",", ";", ".", "--", "->", "|", "!", "?", "{", "}", "[", "]", "<", ">", "o", "a", "m", "seq", "#any", "#all", "sync", "9", "_", "-", "/*", "*/", "$"]
def doubled(r, ps):
    """one name of a list of names occurs in it again somewhere else"""
    name = lambda x: x[0].isalpha()
    lists = []; i = 0
    while i < len(ps):
        if ps[i] in ("(", "[", "{"):
            j = i + 1
            while j < len(ps) and (name(ps[j]) if (j - i) % 2 else ps[j] in (",", ";")): j += 1
            if j < len(ps) and j > i + 1 and ps[j] in (")", "]", "}"): lists.append((i, j))
        i += 1
    if not lists: return ps
    i, j = max(r.sample(lists, min(2, len(lists))), key=lambda l: l[1] - l[0])
    x = r.choice(ps[i + 1:j:2]); at = r.randrange(i + 1, j + 1, 2); sep = ps[i + 2] if j > i + 2 else ","
    return ps[:at] + [x, sep] + ps[at:] if at < j else ps[:j] + [sep, x] + ps[j:]

def mistakes(r, ps, rate):
    """pieces with some of them dropped, doubled, exchanged or replaced"""
    ps = list(ps)
    if r.random() >= rate: return ps
    if r.random() < 0.15: return doubled(r, ps)
    for _ in range(r.choice([1, 1, 2])):
        if not ps: return [r.choice(JUNK)]
        i = r.randrange(len(ps)); k = r.randrange(5)
        if k == 0: del ps[i]
        elif k == 1: ps.insert(i, ps[i])
        elif k == 2: j = r.randrange(len(ps)); ps[i], ps[j] = ps[j], ps[i]
        elif k == 3: ps[i] = r.choice(JUNK)
        else: ps.insert(i, r.choice(JUNK))
    return ps

COMMENTS = ["/**/", "/* o */", "/* ( , */", "/*** ** /*/", "/*\n*/"]
def text(r, ps):
    """the pieces glued with as little, or as much, white space and comments as one likes"""
    style = r.random(); out = ""
    word = lambda x: x[0].isalnum() or x[0] == "_"
    for i, p in enumerate(ps):
        if i and (out[-1].isalnum() or out[-1] == "_") and word(p): out += r.choice([" ", "\n", "\t", "/**/"])
        elif style > 0.4 and r.random() < style: out += r.choice([" ", " ", "\n", "\t", "\r\n"] + (COMMENTS if style > 0.7 else []))
        out += p
    if style > 0.6 and r.random() < 0.4: out += r.choice(["\n", " ", "/* end */"])
    if style > 0.8 and r.random() < 0.3: out = r.choice(["\n", "\t", "/* start */"]) + out
    return out
