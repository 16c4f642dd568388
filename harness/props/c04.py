"""C04: accept analyses of real multi-traces against the specification (whose meaning MC_Analysis checks)."""
import analysis, gen
AREAS = ()

def run(ctx):
    r = ctx.rnd; gs = analysis.gens(r)
    analysis.model_theorems(ctx, ctx.n(500, 8000))
    gs.append((gen.Gen(r, nl=2, nm=2, comm=0.2, weights=dict(strict=2, seq=3, alt=6, par=1.5, cr=1, lp=3, sy=0.5)), 2, 2))
    ps = []
    for i in range(ctx.n(2500, 16000)):
        p = analysis.random_problem(r, i, "accept", gs, size=r.choice([(2, 7), (4, 12), (8, 18)]), maxlen=r.choice([3, 6, 9]))
        analysis.vary_search(r, p); ps.append(p)
    ps += analysis.confluents(r, len(ps), ["accept"], ctx.n(400, 4000))
    analysis.judge(ctx, ps + analysis.targeted("accept", len(ps)))
