"""C12: every rewriting the canonization process offers, and its results, against the behaviours of the specification."""
import gen, core, common
AREAS = ("canon",)
PROCS = ["five", "five", "five", "basic", "toseq", "unfold"]

def hif(t):
    try: return gen.hif_text(t)
    except Exception: return str(t)

LEAVES = [["em", 0, 0, 0, []], ["em", 1, 0, 0, []], ["em", 0, 0, 0, [1]], ["em", 0, 1, 0, []], ["rc", 0, 0, 0, [1]], ["em", 2, 1, 0, []], ["em", 0, 0, 1, [1]], ["em", 0, 0, 0, [2, 1]], ["rc", 0, 0, 0, [2, 0]], ["o"]]

def targeted(r):
    """shapes the rewriting rules look for, with related operands"""
    L = lambda: r.choice(LEAVES) if r.random() < 0.75 else gen.Gen(r, nm=2).term(r.randrange(2, 5))
    a, b, c, d = L(), L(), L(), L()
    op = r.choice(["strict", "seq", "par"])
    k = r.choice([7, 14, *range(15)])
    if k == 13:
        x, y = r.sample([0, 1, 2], 2)
        body = ["alt", ["strict", ["em", x, 1, 0, []], ["em", y, 0, 0, []]], r.choice([["em", y, 1, 0, []], ["em", x, 0, 0, [y]], a])]
        return ["lp", r.choice("HHSWP"), ["lp", r.choice("HSWP"), body]]
    if k == 0: return ["alt", [op, a, b], [op, a, c]]
    if k == 1: return ["alt", [op, b, a], [op, c, a]]
    if k == 2: return ["alt", [op, a, b], ["alt", [op, a, c], d]]
    if k == 3: return [op, a, ["alt", b, c]]
    if k == 4: return [op, ["alt", b, c], a]
    if k == 5: return ["cr", sorted(r.sample(range(3), r.randrange(1, 3))), r.choice([["alt", a, b], a]), ["alt", c, d]]
    if k == 6: return ["lp", r.choice("SHWP"), ["lp", r.choice("SHWP"), [r.choice(["alt", "seq", "strict"]), a, b]]]
    if k == 7:
        sub = lambda: sorted(r.sample(range(3), r.choice([1, 1, 2])))
        cr = sub(); inner = ["cr", r.choice([cr, sub(), sub(), sub()]), a, b]
        return ["cr", cr, inner, c] if r.random() < 0.7 else ["cr", cr, c, inner]
    if k == 14:      # co-regions in one another, with alternatives and empty operands to rewrite inside
        x = lambda: r.choice([["cr", sorted(r.sample(range(3), r.choice([1, 1, 2, 3]))), *r.sample([a, b, c, ["o"], ["alt", a, b], ["cr", sorted(r.sample(range(3), 1)), a, c]], 2)], r.choice([a, d])])
        return ["cr", sorted(r.sample(range(3), r.choice([2, 2, 3, 1]))), x(), x()]
    if k == 8: return ["strict", a, b] if r.random() < 0.5 else ["seq", ["strict", a, b], c]
    if k == 9: return ["par", a, b] if r.random() < 0.5 else ["strict", ["par", a, b], c]
    if k == 10: return ["alt", a, ["alt", [op, b, c], ["alt", a, [op, b, d]]]]
    if k == 11: return ["sy", [[0, "!", 0]], ["seq", a, ["o"]], ["par", b, a]]
    return ["lp", r.choice("SHWP"), [op, r.choice([["o"], a]), r.choice([["o"], b])]]

def terms(ctx, n):
    r = ctx.rnd; g = gen.Gen(r, sync=0.1, empty=0.12); g2 = gen.Gen(r, nl=3, nm=1, empty=0.1, multi=0.3, sync=0.15, weights=dict(strict=3, seq=4, alt=5, par=3, cr=1.5, lp=2.5, sy=0.5))
    out = []
    for i in range(n):
        x = i % 5
        out.append(targeted(r) if x < 3 else (g if x == 3 else g2).term(r.randrange(2, 9)))
    return out

def run(ctx):
    r = ctx.rnd
    common.model_theorems(ctx, ctx.n(80, 1000), 4)
    if not ctx.impl.driver_ok:
        ctx.notes.append("not decided: the driver is needed"); return
    ts = terms(ctx, ctx.n(900, 9000))
    reqs = [dict(op="canon", t=t, proc=PROCS[i % len(PROCS)], all=bool(r.random() < 0.6), max=40, lf=gen.LF[:3], ms=gen.MS[:2]) for i, t in enumerate(ts)]
    ans = ctx.impl.drive(reqs)
    pairs = {}
    for t, q, a in zip(ts, reqs, ans):
        if "nodes" not in a: ctx.bad("canonization failed: " + str(a), dict(interaction=hif(t), process=q["proc"], all=q["all"])); continue
        nodes = a["nodes"] + a["open"]
        ctx.count("canonizations"); ctx.count("search_nodes", len(a["nodes"]))
        for n in a["nodes"]:
            for kind, k in n["s"]:
                if kind: ctx.count("rule " + kind); pairs.setdefault((str(n["t"]), str(nodes[k]["t"])), (kind, n["t"], nodes[k]["t"], q["proc"]))
        ends = [n for n in a["nodes"] if not n["s"]]
        for n in ends[:2]: pairs.setdefault((str(t), str(n["t"])), ("whole process", t, n["t"], q["proc"]))
    ps = [p for k, p in pairs.items() if k[0] != k[1]]
    byrule = {}
    for p in ps: byrule.setdefault(p[0], []).append(p)
    cap = ctx.n(260, 2500); sel = []
    for k, l in sorted(byrule.items()):
        sel += l if len(l) <= cap else r.sample(l, cap)
    cases = [dict(id=i, kind="t", t=p[1], t2=p[2], d=5 if gen.size(p[1]) <= 7 else 4, sub=0, nosync=0) for i, p in enumerate(sel)]
    tr = ctx.tlc("Conf_Equiv", cases)
    ctx.valid(len(cases))
    for p in sel[:3]: ctx.sample(dict(rule=p[0], before=hif(p[1]), after=hif(p[2])))
    for b in tr.tagged["BAD"]:
        p = sel[b[0]]
        ctx.bad(b[1], dict(rule=p[0], process=p[3], before=hif(p[1]), after=hif(p[2]), trace=gen.trace_text(b[2])), key="toseq" if False else None)
