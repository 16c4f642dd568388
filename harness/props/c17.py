"""C17: slicing writes the slices asked for: all of them once, or some at random."""
import core, mutation
from mutation import Model
AREAS = ()
KINDS = ["prefix", "suffix", "slice"]

def size(mu, kind):
    n = 1
    for k in mu: x = len(k["t"]); n *= x * (x + 1) // 2 + 1 if kind == "slice" else x + 1
    return n

def run(ctx):
    r = ctx.rnd
    ctx.tlc_model("MC_Mutation")
    def history(seed):
        import random
        r = random.Random(seed); M = Model(r.choice([1, 2, 3, 3, 4]), r.choice([1, 2, 3]))
        if r.random() < 0.04: M = Model(*r.choice([(0, 0), (0, 1), (2, 0)]))
        mu = mutation.random_mu(r, M, r.choice([1, 2, 3, 5, 7, 9])); start = mu; steps = []
        with core.Dir(ctx) as d:
            R = mutation.Runner(ctx, d, M)
            for _ in range(r.choice([1, 2, 3])):
                kind = r.choice(KINDS); num = None; wide = False
                if size(mu, kind) > 150 or r.random() < 0.5: num = r.choice([0, 1, 1, 2, 3, 5, 10, 30]); wide = r.random() < 0.6
                fs = R.slice(r, mu, kind, num, wide, named=r.random() < 0.8)
                if fs is None: break
                pick = r.randrange(len(fs)) + 1 if fs else 1
                steps.append(dict(op="slice", kind=kind, num=-1 if num is None else num, wide=int(wide), files=fs, pick=pick))
                mu = fs[pick - 1] if fs else mu
        return M, start, steps, R.problems
    def seen(seed):
        """many random slices of something small: nothing is left out"""
        import random
        r = random.Random(seed); M = Model(2, 2); kind = KINDS[seed % 3]; wide = r.random() < 0.5
        while True:
            mu = mutation.random_mu(r, M, 3 if kind == "slice" else 4)
            if all(len(k["t"]) <= 3 for k in mu) and size(mu, kind) <= 12: break
        with core.Dir(ctx) as d:
            R = mutation.Runner(ctx, d, M)
            return M, mu, kind, wide, R.slice(r, mu, kind, 600, wide), R.problems
    J = mutation.Judge(ctx)
    seeds = [r.randrange(1 << 40) for _ in range(ctx.n(900, 12000))]
    for M, start, steps, problems in ctx.impl.pmap(history, seeds):
        for w, i in problems: ctx.bad(w, i)
        ctx.count("histories"); ctx.count("slicing_commands", len(steps)); ctx.count("slices_written", sum(len(s["files"]) for s in steps))
        if steps: J.case("h", M, start, {}, steps=steps)
    for M, mu, kind, wide, fs, problems in ctx.impl.pmap(seen, [r.randrange(1 << 40) for _ in range(ctx.n(120, 1000))]):
        for w, i in problems: ctx.bad(w, i)
        if fs is not None: J.case("c", M, mu, dict(kind=kind, wide=wide), step=dict(op="slice", kind=kind, wide=int(wide)), outs=fs)
    J.run("slicing")
