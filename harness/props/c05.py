"""C05: prefix analyses against the specification, the default configuration included."""
import analysis
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r)
    analysis.model_theorems(ctx, ctx.n(500, 8000))
    ps = []
    for i in range(ctx.n(2500, 16000)):
        p = analysis.random_problem(r, i, "prefix", gs, size=r.choice([(2, 7), (4, 12), (8, 18)]), maxlen=r.choice([3, 6, 9]), p=(0.25, 0.75))
        analysis.vary_search(r, p)
        if i % 5 == 0: p.update(noconf=True, goal="WeakPass", memo=1, locana=1)      # no configuration file at all
        ps.append(p)
    ps += analysis.confluents(r, len(ps), ["prefix"], ctx.n(400, 4000))
    analysis.judge(ctx, ps + analysis.targeted("prefix", len(ps)))
