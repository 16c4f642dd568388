"""C01: `explore` with trace generation writes exactly the behaviours the specification explores."""
import gen, core, common
AREAS = ()

CORPUS = [  # (term, loop limit)
    ["lp", "W", ["seq", ["em", 0, 0, 0, [1]], ["em", 1, 1, 0, []]]],
    ["lp", "H", ["seq", ["em", 0, 0, 0, [1]], ["rc", 0, 1, 0, [2]]]],
    ["cr", [1], ["em", 0, 0, 0, [1]], ["em", 2, 0, 0, [1]]],
    ["strict", ["em", 0, 0, 0, [1]], ["em", 2, 1, 0, [0]]],
    ["sy", [[0, "!", 0]], ["em", 0, 0, 0, [1]], ["strict", ["em", 0, 1, 0, []], ["em", 0, 0, 0, []]]],
]

def run(ctx):
    r = ctx.rnd
    common.model_theorems(ctx, ctx.n(150, 2500), 4)
    N = ctx.n(500, 6000)
    terms = [(t, 3, 2) for t in CORPUS]
    g = gen.Gen(r); g2 = gen.Gen(r, nl=4, nm=3, multi=0.3, sync=0.2)
    for i in range(N):
        terms.append((g.term(r.randrange(3, 10)), 3, 2) if i % 4 else (g2.term(r.randrange(3, 9)), 4, 3))
    for i in range(ctx.n(150, 1500)): terms.append((g.overtaken(), 3, 2) if i % 3 else (g2.overtaken(), 4, 3))
    leaves = gen.leaves_small()
    small = gen.small_terms(leaves, 1)
    for t in (r.sample(small, ctx.n(150, len(small)))): terms.append((t, 2, 1))
    jobs = []
    for t, nl, nm in terms:
        d = r.choice([3, 4, 4]); lmax = r.choice([1000, 1000, 1, 2]); full = 1
        fl = [f"max_depth={d}"]
        if lmax < 1000: fl.append(f"max_loop_depth={lmax}")
        if r.random() < 0.1: fl.append(f"max_node_number={r.randrange(2, 30)}"); full = 0
        if len(fl) > 1: r.shuffle(fl)
        gn, gt = ["accepted"], "accepted"
        x = r.random()
        if x < 0.15: k = r.randrange(1, d + 1); gn, gt = ["exact", k], f"exact depth {k}"
        elif x < 0.25: k = r.randrange(1, 4); gn, gt = ["modulo", k], f"modulo depth {k}"
        o = (f"loggers=[tracegen[generation={gt},partition=trivial,folder=tg,avoid_duplicates=false]];"
             f"memoize=false;{common.strat_opts(r)};filters=[{','.join(fl)}]")
        jobs.append((t, nl, nm, d, lmax, full, gn, o))
    def one(j):
        t, nl, nm, d, lmax, full, gn, o = j
        return common.explore_files(ctx, t, o, nl, nm)
    res = ctx.impl.pmap(one, jobs)
    cases = []
    for i, (j, (rr, files)) in enumerate(zip(jobs, res)):
        t, nl, nm, d, lmax, full, gn, o = j
        info = dict(interaction=gen.hif_text(t), options=o)
        if rr["hang"]: ctx.count("too-long"); continue
        if core.sut.panicked(rr) or rr["rc"] != 0:
            ctx.bad("explore crashed", dict(info, err=rr["err"][-300:], out=rr["out"][-200:])); continue
        lf = gen.LF[:nl]; trs = []
        ok = True
        for f in files:
            if len(f) != 1 or sorted(f[0][0]) != sorted(lf): ok = False; break
            trs.append(core.ids(f[0][1]))
        if not ok: ctx.bad("trace file does not cover all the lifelines in one component", dict(info, file=f)); continue
        cases.append(dict(id=i, t=t, d=d, lmax=lmax, full=full, gen=gn, nodes=common.trie(trs)))
        ctx.count("trace_files", len(trs)); ctx.count("explorations")
        if trs: ctx.sample(dict(interaction=info["interaction"], files=len(trs), first=gen.trace_text(trs[0])))
    tr = ctx.tlc("Conf_Explore", cases)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        t, nl, nm, d, lmax, full, gn, o = jobs[b[0]]
        ctx.bad(b[1], dict(interaction=gen.hif_text(t), options=o, trace=gen.trace_text(b[2])))
