"""C03: lifeline removal against the specified homomorphism and against projection."""
import gen, core, common
AREAS = ("lts",)

KNOWN = {0: "elim-sync-multi"}
TARGETED = [
    (["sy", [[0, "!", 0]], ["em", 0, 0, 1, [1]], ["em", 0, 0, 1, [1]]], [0]),
    (["lp", "H", ["alt", ["em", 1, 0, 0, [0]], ["seq", ["em", 1, 0, 0, [2]], ["em", 0, 0, 0, []]]]], [1]),
    (["lp", "S", ["seq", ["em", 1, 0, 0, [0]], ["em", 2, 0, 0, []]]], [1]),
    (["lp", "P", ["strict", ["em", 1, 0, 0, [0, 2]], ["em", 2, 0, 0, []]]], [0]),
    (["em", 0, 0, 1, [1, 2]], [0]), (["em", 0, 0, 1, [1, 2]], [1]), (["rc", 0, 0, 1, [0, 1, 2]], [1]),
    (["sy", [[0, "!", 0], [1, "?", 0]], ["em", 0, 0, 1, [1]], ["em", 0, 0, 1, [1]]], [0]),
    (["cr", [0, 1], ["em", 0, 0, 0, [1]], ["em", 0, 1, 0, [1]]], [0]),
    (["alt", ["em", 0, 0, 0, []], ["em", 1, 0, 0, []]], [0]),
    (["lp", "H", ["lp", "H", ["alt", ["strict", ["em", 1, 1, 0, []], ["em", 0, 0, 0, []]], ["em", 0, 1, 0, []]]]], [2]),
    (["lp", "H", ["lp", "S", ["alt", ["strict", ["em", 1, 1, 0, []], ["em", 0, 0, 0, []]], ["em", 0, 1, 0, []]]]], [2]),
    (["seq", ["em", 2, 0, 0, []], ["lp", "H", ["lp", "H", ["alt", ["strict", ["em", 1, 1, 0, []], ["em", 0, 0, 0, []]], ["em", 0, 1, 0, []]]]]], [2]),
    (["em", 0, 0, 0, [-1, 1]], [1]), (["em", 0, 0, 0, [-1, 1]], [0]), (["rc", -1, 0, 0, [0, 1]], [0]),
]

def run(ctx):
    r = ctx.rnd
    common.model_theorems(ctx, ctx.n(100, 1500), 4)
    im = ctx.impl
    g = gen.Gen(r, nl=3, ngates=1); g2 = gen.Gen(r, nl=4, nm=2, multi=0.35, sync=0.3)
    pairs = list(TARGETED)
    small = gen.small_terms(gen.leaves_small(), 1)
    for t in r.sample(small, ctx.n(200, len(small))): pairs.append((t, [r.randrange(2)]))
    for i in range(ctx.n(1200, 12000)):
        t = (g if i % 2 else g2).term(r.randrange(2, 11)); lfs = sorted(gen.lifelines(t))
        if lfs: pairs.append((t, sorted(r.sample(lfs, r.randrange(1, len(lfs) + 1)))))
    if not im.driver_ok: return cli_part(ctx)
    ans = im.drive([dict(op="elim", t=t, lfs=L) for t, L in pairs])
    cases = []
    for i, ((t, L), a) in enumerate(zip(pairs, ans)):
        info = dict(interaction=gen.hif_text(t), removed=[gen.LF[l] for l in L])
        if "t" not in a: ctx.bad("lifeline removal failed: " + str(a), info); continue
        keep = [l for l in range(5) if l not in L]
        d = 4 if gen.size(t) <= 8 else 3
        cases.append(dict(id=2 * i, kind="e", t=t, t2=a["t"], rm=L, d=d, sub=0, nosync=0))
        # removing one side of a synchronisation whose joint actions have parts in common is a listed finding
        if i not in KNOWN and {"sy", "msync"} <= gen.ops(t) | ({"msync"} if any(x[0] in ("em", "rc") and x[3] == 1 for x in gen.nodes(t)) else set()): continue
        cases.append(dict(id=2 * i + 1, kind="p", t=t, t2=a["t"], keep=keep, d=d, sub=1, nosync=0))
        ctx.count("removals")
        if i % 200 == 0: ctx.sample(dict(info, result=gen.hif_text(a["t"])))
    tr = ctx.tlc("Conf_Equiv", cases)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        t, L = pairs[b[0] // 2]
        ctx.bad(b[1] + (" (projection)" if b[0] % 2 else ""), dict(interaction=gen.hif_text(t), removed=[gen.LF[l] for l in L],
                result=gen.hif_text(ans[b[0] // 2]["t"]), trace=gen.trace_text(b[2])),
                key=KNOWN.get(b[0] // 2) if b[0] % 2 else None)

def cli_part(ctx):
    import analysis
    analysis.elim_fallback(ctx)
