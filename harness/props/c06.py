"""C06: elimination analyses against the specification."""
import analysis
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r)
    analysis.model_theorems(ctx, ctx.n(500, 8000))
    ps = []
    for i in range(ctx.n(2500, 16000)):
        p = analysis.random_problem(r, i, "eliminate", gs, size=r.choice([(2, 7), (4, 12), (8, 16)]), maxlen=r.choice([3, 6, 8]), singles=0.75, p=(0.15, 0.7))
        if r.random() < 0.5: p["mu"] = analysis.cut_each(r, p)
        analysis.vary_search(r, p); ps.append(p)
    ps += analysis.confluents(r, len(ps), ["eliminate"], ctx.n(400, 4000))
    analysis.judge(ctx, ps + analysis.targeted("eliminate", len(ps)))
