"""Generation of interaction terms, traces and file texts (inputs only: nothing here judges results)."""
import random

LF = ["a", "b", "c", "d", "e"]
MS = ["m", "n", "k", "q"]
GT = ["g", "h"]
BIN = ["strict", "seq", "alt", "par"]

def size(t):
    k = t[0]
    if k in ("o", "em", "rc"): return 1
    if k in BIN: return 1 + size(t[1]) + size(t[2])
    if k == "lp": return 1 + size(t[2])
    return 1 + size(t[2]) + size(t[3])

def children(t):
    k = t[0]
    if k in ("o", "em", "rc"): return []
    if k in BIN: return [t[1], t[2]]
    if k == "lp": return [t[2]]
    return [t[2], t[3]]

def ops(t):
    s = {t[0]} if t[0] != "lp" else {"lp", "lp" + t[1]}
    for c in children(t): s |= ops(c)
    return s

def atoms(t):
    k = t[0]
    if k == "o": return set()
    if k == "em": return {(t[1], "!", t[2])} | {(x, "?", t[2]) for x in t[4] if x >= 0}
    if k == "rc": return {(x, "?", t[2]) for x in t[4]}
    s = set()
    for c in children(t): s |= atoms(c)
    return s

def nodes(t):
    yield t
    for c in children(t): yield from nodes(c)

def lifelines(t): return {a[0] for a in atoms(t)}

class Gen:
    def __init__(self, rnd, nl=3, nm=2, ngates=0, sync=0.12, multi=0.15, empty=0.06, comm=0.4,
                 weights=None, loops="SHWP", selfcom=0.05):
        self.r = rnd; self.nl = nl; self.nm = nm; self.ng = ngates
        self.sync = sync; self.multi = multi; self.empty = empty; self.comm = comm; self.selfcom = selfcom
        self.w = weights or dict(strict=2, seq=4, alt=3, par=2, cr=1.5, lp=3, sy=0.7)
        self.loops = loops
        self.any = sync > 0 and all(self.w.get(k, 0) for k in (*BIN, "cr", "lp"))

    def targets(self, n, avoid=None):
        pool = [l for l in range(self.nl) if l != avoid]
        self.r.shuffle(pool)
        return pool[:n]

    def leaf(self):
        r = self.r
        if r.random() < self.empty: return ["o"]
        ms = r.randrange(self.nm)
        sy = 1 if r.random() < self.sync else 0
        x = r.random()
        if x < self.comm:
            lf = r.randrange(self.nl)
            n = 1
            if r.random() < self.multi and self.nl > 2: n = 2
            ts = self.targets(n, lf)
            if r.random() < self.selfcom: ts = [lf]
            if self.ng and r.random() < 0.15: ts.insert(r.randrange(len(ts) + 1), -(1 + r.randrange(self.ng)))
            if not ts: sy = 0
            return ["em", lf, ms, sy, ts]
        if x < self.comm + (1 - self.comm) * 0.5:
            ts = []
            if self.ng and r.random() < 0.3: ts = [-(1 + r.randrange(self.ng))]
            return ["em", r.randrange(self.nl), ms, 0, ts]
        n = 2 if (r.random() < self.multi and self.nl > 1) else 1
        rs = self.targets(n)
        g = 0
        if self.ng and r.random() < 0.3: g = -(1 + r.randrange(self.ng))
        return ["rc", g, ms, sy if n > 1 else 0, rs]

    def term(self, sz):
        """random term with about sz symbols"""
        r = self.r
        if sz <= 1: return self.leaf()
        if sz in (5, 6, 7) and self.any and r.random() < 0.04: return self.overtaken()
        ks = list(self.w); k = r.choices(ks, [self.w[x] for x in ks])[0]
        if k == "lp" or sz == 2: return ["lp", r.choice(self.loops), self.term(sz - 1)]
        ls = r.randrange(1, sz - 1); a = self.term(ls)
        if k == "alt" and r.random() < 0.3: return [k, *self.shuffled(a, self.related(a, sz - 1 - ls))]
        if k == "sy" and self.sync and self.nl > 1 and r.random() < 0.3: return self.joint(a, sz - 1 - ls)
        b = self.term(sz - 1 - ls)
        if k in BIN:
            return [k, a, b]
        if k == "cr":
            n = r.randrange(1, self.nl + 1)
            cr = sorted(r.sample(range(self.nl), n))
            if size(a) > 2 and r.random() < 0.3:      # nested co-regions on related lifelines
                x = r.choice([cr, r.sample(range(self.nl), r.randrange(1, self.nl + 1)), r.sample(cr, r.randrange(1, n + 1))])
                if a[0] in BIN + ["cr"]: a = ["cr", sorted(x), *a[-2:]]
                if r.random() < 0.5: a, b = b, a
            return ["cr", cr, a, b]
        pool = sorted(atoms(a) | atoms(b))
        if not pool: return ["par", a, b]
        both = sorted(atoms(a) & atoms(b))
        if both and r.random() < 0.7: pool = both
        n = 1 if r.random() < 0.7 else min(2, len(pool))
        return ["sy", [list(x) for x in sorted(r.sample(pool, n))], a, b]

    def shuffled(self, *l):
        l = list(l); self.r.shuffle(l); return l

    def related(self, t, sz):
        """a term that begins like t"""
        r = self.r; f = first(t); k = r.randrange(5)
        if k == 0: return f
        if k == 4: return [r.choice(["strict", "seq"]), r.choice([t, f]), [r.choice(["strict", "seq", "par"]), *self.shuffled(self.leaf(), ["lp", r.choice(self.loops), self.leaf()])]]
        if k == 1: return [r.choice(["strict", "seq"]), f, self.term(sz)]
        if k == 2: return [r.choice(["strict", "seq", "par"]), t, self.term(min(2, sz))]
        return [r.choice(["strict", "seq"]), f, ["lp", r.choice(self.loops), self.term(max(1, sz - 2))]]

    def overtaken(self):
        """a joint action that may come before what stands before it, provided that is rid of some alternatives"""
        r = self.r; lfs = list(range(self.nl)); r.shuffle(lfs)
        one = lambda: ["em", r.choice(lfs[:3]), r.randrange(self.nm), 0, []] if r.random() < 0.8 else self.leaf()
        j = ["em", lfs[0], r.randrange(self.nm), r.choice([1, 1, 1, 0]), lfs[1:1 + r.choice([1, 1, 2])]]
        if len(j[4]) > 1 and r.random() < 0.5: j = ["rc", 0, j[2], 1, j[4]]
        if not j[4]: j[3] = 0
        act = r.choice([j, [r.choice(["seq", "strict"]), j, one()], ["seq", one(), j], ["alt", j, one()]])
        left = ["alt", *self.shuffled(one(), r.choice([one(), ["seq", one(), one()], ["lp", r.choice(self.loops), one()], ["alt", one(), one()], ["par", one(), one()]]))]
        k = r.randrange(6); cr = lambda: sorted(r.sample(lfs, r.randrange(1, self.nl + 1)))
        if k < 2: return ["lp", r.choice(self.loops + "WW"), ["alt", *self.shuffled(act, r.choice([one(), left]))]]
        if k == 2: return ["seq", r.choice([left, ["lp", r.choice(self.loops), left]]), act]
        if k == 3: return ["cr", cr(), r.choice([left, ["lp", r.choice(self.loops), left]]), act]
        if k == 4: return ["cr", cr(), ["cr", cr(), left, one()], act]
        return ["seq", ["cr", cr(), left, one()], act]

    def joint(self, a, sz):
        """a product synchronised on several actions that one operand does together, the other one perhaps only in part"""
        r = self.r; lf = r.randrange(self.nl); ms = r.randrange(self.nm)
        ts = self.targets(r.randrange(1, min(3, self.nl)), lf)
        whole = ["em", lf, ms, 1, ts]; acts = sorted(atoms(whole))
        part = r.choice([whole, whole, ["em", lf, ms, 0, []], ["rc", 0, ms, 0, [ts[0]]], ["em", lf, ms, 1, ts[:1]], ["em", lf, ms, 0, ts]])
        if len(ts) > 1 and r.random() < 0.3: part = ["rc", 0, ms, 1, ts]
        b = self.term(sz - 1) if sz > 2 else ["o"]
        mix = lambda x, y: [r.choice(["seq", "strict", "alt", "par"]), *self.shuffled(x, y)] if y != ["o"] else x
        s = acts if r.random() < 0.6 else r.sample(acts, r.randrange(1, len(acts) + 1))
        return ["sy", [list(x) for x in sorted(s)], *self.shuffled(mix(whole, a if size(a) > 1 else ["o"]), mix(part, b))]

def first(t):
    """its leftmost action"""
    while t[0] not in ("o", "em", "rc"): t = children(t)[0]
    return t

def leaves_small():
    return [["o"], ["em", 0, 0, 0, [1]], ["em", 0, 0, 0, []], ["rc", 0, 0, 0, [1]], ["em", 1, 0, 0, [0]],
            ["em", 0, 0, 1, [1]], ["rc", 0, 0, 0, [0, 1]], ["em", 1, 0, 0, []]]

def small_terms(leaves, depth=1, loops="SHWP", crs=([0],), sys=([[0, "!", 0]],)):
    """all terms of the given operator depth over the leaves"""
    cur = list(leaves)
    for _ in range(depth):
        nxt = list(cur)
        for x in cur:
            for k in loops: nxt.append(["lp", k, x])
            for y in cur:
                for k in BIN: nxt.append([k, x, y])
                for c in crs: nxt.append(["cr", list(c), x, y])
                for s in sys: nxt.append(["sy", [list(q) for q in s], x, y])
        cur = nxt
    return cur

# ------------------------------------------------------------------ texts
def act_text(t):
    sy = "<synch>" if t[3] == 1 else ""
    if t[0] == "em":
        tg = [LF[x] if x >= 0 else GT[-x - 1] for x in t[4]]
        if not tg: return f"{LF[t[1]]} -- {sy}{MS[t[2]]} ->|"
        if len(tg) == 1: return f"{LF[t[1]]} -- {sy}{MS[t[2]]} -> {tg[0]}"
        return f"{LF[t[1]]} -- {sy}{MS[t[2]]} -> ({','.join(tg)})"
    rs = [LF[x] for x in t[4]]
    rt = rs[0] if len(rs) == 1 else "(" + ",".join(rs) + ")"
    g = "" if t[1] == 0 else GT[-t[1] - 1] + " -- "
    if g: return f"{g}{sy}{MS[t[2]]} -> {rt}"
    return f"{sy}{MS[t[2]]} -> {rt}"

def hif_text(t):
    k = t[0]
    if k == "o": return "o"
    if k in ("em", "rc"): return act_text(t)
    if k in BIN: return f"{k}({hif_text(t[1])},{hif_text(t[2])})"
    if k == "lp": return f"loop{t[1]}({hif_text(t[2])})"
    if k == "cr": return f"coreg({','.join(LF[x] for x in t[1])})({hif_text(t[2])},{hif_text(t[3])})"
    acts = ",".join(LF[l] + kk + MS[m] for l, kk, m in t[1])
    br = "({})" if len(t[1]) == 1 else "{{{}}}"
    return f"sync{br.format(acts)}({hif_text(t[2])},{hif_text(t[3])})"

def hsf_text(nl=3, nm=2, ng=0):
    s = "@message{" + ";".join(MS[:nm]) + "}\n@lifeline{" + ";".join(LF[:nl]) + "}\n"
    if ng: s += "@gate{" + ";".join(GT[:ng]) + "}\n"
    return s

def trace_text(tr):
    out = []
    for ma in tr:
        ma = [LF[l] + k + MS[m] for l, k, m in ma]
        out.append(ma[0] if len(ma) == 1 else "{" + ",".join(ma) + "}")
    return ".".join(out)

def htf_text(colocs, mu):
    cs = []
    for c, tr in zip(colocs, mu):
        cs.append(f"  [{','.join(LF[x] for x in c)}] {trace_text(tr)}".rstrip())
    return "{\n" + ";\n".join(cs) + "\n}\n"
