"""C02: the step functions of the implementation (frontier, execution, pruning, empty test) against the specified rules."""
import gen, core, common
AREAS = ("lts",)

TARGETED = [
    # both sides of a synchronised product act: each side only loses what its own action forbids
    ["sy", [[0, "!", 0]], ["seq", ["alt", ["em", 1, 1, 0, []], ["em", 2, 1, 0, []]], ["em", 0, 0, 0, []]], ["em", 0, 0, 1, [1]]],
    ["sy", [[0, "!", 0]], ["seq", ["lp", "W", ["em", 1, 1, 0, []]], ["em", 0, 0, 0, []]], ["em", 0, 0, 1, [1]]],
    ["seq", ["sy", [[0, "!", 0]], ["lp", "S", ["em", 0, 0, 0, []]], ["lp", "W", ["em", 0, 0, 0, []]]], ["em", 0, 1, 0, [1]]],
    ["seq", ["cr", [0], ["alt", ["em", 0, 0, 0, []], ["em", 1, 0, 0, []]], ["em", 0, 1, 0, []]], ["em", 0, 1, 0, []]],
    ["cr", [0], ["alt", ["em", 0, 0, 0, []], ["em", 1, 0, 0, []]], ["em", 0, 1, 1, [1]]],
    ["lp", "W", ["alt", ["em", 0, 0, 0, [1]], ["em", 1, 1, 0, [2]]]],
    ["lp", "H", ["alt", ["em", 0, 0, 0, [1]], ["seq", ["em", 1, 1, 0, [2]], ["em", 0, 1, 0, []]]]],
    ["seq", ["lp", "P", ["strict", ["em", 0, 0, 0, [1]], ["em", 2, 0, 0, []]]], ["rc", 0, 1, 0, [2]]],
    ["alt", ["strict", ["o"], ["em", 0, 0, 0, []]], ["em", 0, 0, 0, [1]]],
]

def run(ctx):
    r = ctx.rnd
    common.model_theorems(ctx, ctx.n(100, 1500), 4)
    im = ctx.impl
    g = gen.Gen(r); g2 = gen.Gen(r, nl=4, nm=2, multi=0.35, sync=0.25, weights=dict(strict=2, seq=4, alt=4, par=2, cr=2.5, lp=4, sy=2))
    terms = list(TARGETED)
    small = gen.small_terms(gen.leaves_small(), 1)
    terms += r.sample(small, ctx.n(250, len(small)))
    for i in range(ctx.n(900, 9000)): terms.append((g if i % 2 else g2).term(r.randrange(3, 11)))
    for i in range(ctx.n(400, 4000)): terms.append((g if i % 3 else g2).overtaken())
    if not im.driver_ok:
        cli_part(ctx, terms[:ctx.n(500, 3000)]); return
    deep = lambda t: (5 if ctx.quick else 6) if gen.size(t) <= 7 else 4
    reqs = [dict(op="lts", t=t, aff=bool(i % 2), delayed=(i % 3 != 0), max=250, depth=deep(t), terms=True) for i, t in enumerate(terms)]
    ans = im.drive(reqs)
    cases = []; aff = []; affinfo = []
    for i, (t, q, a) in enumerate(zip(terms, reqs, ans)):
        if "nodes" not in a:
            ctx.bad("step functions failed: " + str(a), dict(interaction=gen.hif_text(t), affected=q["aff"], delayed=q["delayed"])); continue
        cases.append(common.lts_case(i, t, a, deep(t)))
        ctx.count("terms"); ctx.count("steps_executed", sum(len(n["s"]) for n in a["nodes"]))
        if i % 200 == 0: ctx.sample(dict(interaction=gen.hif_text(t), nodes=len(a["nodes"])))
        if q["aff"]:
            lfs = sorted(gen.lifelines(t))
            for k, n in enumerate(a["nodes"]):
                for e in n["s"]:
                    unaff = [l for l in lfs if l not in e[4]]
                    if not unaff: continue
                    affinfo.append((i, k, e))
                    aff.append(dict(id=len(aff), kind="e", t=a["terms"][k], t2=a["terms"][e[1] - 1],
                                    rm=[l for l in lfs if l in e[4]], d=3, sub=0, nosync=0))
    if len(aff) > ctx.n(1500, 15000):
        pick = sorted(r.sample(range(len(aff)), ctx.n(1500, 15000))); aff = [aff[p] for p in pick]
    tr = ctx.tlc("Conf_Equiv", cases, share=0.7)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        ctx.bad(b[1], dict(interaction=gen.hif_text(terms[b[0]]), request={k: v for k, v in reqs[b[0]].items() if k != "t"}, after=gen.trace_text(b[2])))
    # lifelines not reported as affected keep their behaviours
    tr = ctx.tlc("Conf_Equiv", aff)
    ctx.valid(len(aff)); ctx.count("affected_lifeline_steps", len(aff))
    for b in tr.tagged["BAD"]:
        i, k, e = affinfo[b[0]]
        ctx.bad("unreported affected lifeline: " + b[1], dict(interaction=gen.hif_text(ans[i]["terms"][k]), after=gen.hif_text(ans[i]["terms"][e[1] - 1]), action=gen.trace_text([e[0]]), reported=e[4], trace=gen.trace_text(b[2])))

def cli_part(ctx, terms):
    def one(t):
        return common.explore_files(ctx, t, "loggers=[tracegen[generation=accepted,partition=trivial,folder=tg,avoid_duplicates=false]];memoize=false;filters=[max_depth=4]", 4, 2)
    res = ctx.impl.pmap(one, terms)
    cases = []
    for i, (t, (rr, files)) in enumerate(zip(terms, res)):
        if rr["hang"]: continue
        if core.sut.panicked(rr): ctx.bad("crash", dict(interaction=gen.hif_text(t), err=rr["err"][-300:])); continue
        cases.append(dict(id=i, t=t, d=4, lmax=1000, full=1, gen=["accepted"], nodes=common.trie([core.ids(f[0][1]) for f in files])))
    tr = ctx.tlc("Conf_Explore", cases)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        ctx.bad(b[1], dict(interaction=gen.hif_text(terms[b[0]]), trace=gen.trace_text(b[2])))
