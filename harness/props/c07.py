"""C07: simulation analyses (all criteria, after and before) against the specification."""
import analysis, gen
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r)
    analysis.model_theorems(ctx, ctx.n(500, 8000))
    ps = []
    few = [(gen.Gen(r, nl=nl, nm=nm, comm=0.2 if nl > 1 else 0, selfcom=0, sync=0, empty=0, weights=dict(strict=5, seq=5, alt=1, par=1, cr=0, lp=1, sy=0)), nl, nm) for nl, nm in ((1, 1), (1, 2), (2, 1), (2, 2))]
    for i in range(ctx.n(500, 4000)):    # gaps in observations of few different actions
        p = analysis.random_problem(r, i, "simulate", few, size=(5, 10), maxlen=8, p=(0.85, 1)) if i % 2 else analysis.gaps(r, i)
        for tr in p["mu"]:
            if p.get("gapped"): break
            twin = [k for k in range(1, len(tr) - 1) if tr[k] == tr[k + 1]]
            if len(tr) > 2: del tr[r.choice(twin) if twin and r.random() < 0.8 else r.randrange(1, len(tr) - 1)]
        analysis.random_sim(r, p); p["sim"].update(act=["fixed", r.randrange(1, 6)], before=int(r.random() < 0.7))
        if r.random() < 0.35: p["sim"]["act"] = ["none", 0]
        if p.get("want_loops"): p["sim"]["loop"] = ["fixed", r.randrange(1, 4)]
        if "lp" not in gen.ops(p["t"]) and r.random() < 0.5: p["sim"]["loop"] = ["none", 0]
        if "lp" in gen.ops(p["t"]) and p["sim"]["act"][0] == p["sim"]["loop"][0] == "none": p["sim"]["loop"] = ["fixed", 1]   # (otherwise endless)
        analysis.vary_search(r, p); ps.append(p)
    for i in range(len(ps), len(ps) + ctx.n(800, 7000)):
        p = analysis.random_problem(r, i, "simulate", gs, size=r.choice([(2, 7), (3, 10)]), maxlen=r.choice([3, 5]), p=(0.1, 0.75))
        if r.random() < 0.6: p["mu"] = analysis.slice_each(r, p)
        analysis.random_sim(r, p); analysis.vary_search(r, p); ps.append(p)
    ps += analysis.confluents(r, len(ps), ["simulate"], ctx.n(400, 4000))
    analysis.judge(ctx, ps + analysis.targeted("simulate", len(ps)))
