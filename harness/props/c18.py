"""C18: histories of mutations, each changing what it advertises, within its budget."""
import random
import core, mutation
from mutation import Model
AREAS = ()

def run(ctx):
    r = ctx.rnd
    ctx.tlc_model("MC_Mutation")
    OPS = ["remove", "swap", "noise", "exchange"]
    def other(r, M, mu):
        """a multi-trace over the same components"""
        out = []
        for k in mu:
            t = k["t"]
            if k["l"] and M.ms and r.random() < 0.8: t = [[[r.choice(k["l"]), r.choice("!?"), r.randrange(len(M.ms))]] for _ in range(r.randrange(4))]
            out.append(dict(l=k["l"], t=t))
        return out
    def history(seed):
        r = random.Random(seed); M = Model(r.choice([1, 2, 3, 4]), r.choice([1, 2, 3]))
        if r.random() < 0.06: M = Model(*r.choice([(0, 0), (0, 1), (2, 0)]))
        mu = mutation.random_mu(r, M, r.choice([1, 2, 3, 5, 8]), distinct=r.random() < 0.6); start = mu; steps = []
        with core.Dir(ctx) as d:
            R = mutation.Runner(ctx, d, M)
            for _ in range(r.choice([1, 2, 3, 4])):
                op = r.choice(OPS); mx = r.choice([0, 1, 1, 1, 2, 2, 3, 5, 14]); one = op == "noise" and r.random() < 0.5; end = op == "noise" and r.random() < 0.4
                w = other(r, M, mu) if op == "exchange" else None
                out = R.mutate(r, mu, op, mx, one, end, w)
                if out is None: break
                steps.append(dict(op=op, max=mx, one=int(one), end=int(end), out=out, **{"with": w or []}))
                mu = out
        return M, start, steps, R.problems
    def seen(seed):
        r = random.Random(seed); M = Model(2, r.choice([1, 2])); op = r.choice(OPS); end = op == "noise" and r.random() < 0.3
        while True:
            mu = mutation.random_mu(r, M, 4 if op in ("remove", "swap") else 2, distinct=True, comps=1 if op == "swap" else None); w = other(r, M, mu)
            n = dict(remove=sum(len(k["t"]) for k in mu), swap=sum(len(k["t"]) for k in mu) ** 2 // 2,
                     noise=max([len(mu) * (1 if end else len(k["t"]) + 1) * 2 * len(M.ms) * len(k["l"]) for k in mu] or [0]), exchange=len(mu))[op]
            if n <= 8 and all(len(k["t"]) <= 4 for k in mu): break
        outs = []
        with core.Dir(ctx) as d:
            R = mutation.Runner(ctx, d, M)
            for _ in range(240):
                out = R.mutate(r, mu, op, 1, False, end, w)
                if out is None: break
                outs.append(out)
        return M, mu, op, end, w, outs, R.problems
    def refused(seed):
        """components are only exchanged between multi-traces over the same co-localizations"""
        r = random.Random(seed); M = Model(r.choice([2, 3, 4]), 2)
        a = mutation.random_mu(r, M); b = mutation.random_mu(r, M)
        with core.Dir(ctx) as d:
            R = mutation.Runner(ctx, d, M); n = R.start(a); m = R.start(b)
            x = R._run(["mutate_swap_components", "s.hsf", n + ".htf", m + ".htf", "-n", "res"], a)
            return M, a, b, x, "res.htf" in d.ls(), R.problems
    J = mutation.Judge(ctx)
    for M, start, steps, problems in ctx.impl.pmap(history, [r.randrange(1 << 40) for _ in range(ctx.n(2500, 30000))]):
        for w, i in problems: ctx.bad(w, i)
        ctx.count("histories")
        for s in steps: ctx.count("mutations_" + s["op"])
        if steps: J.case("h", M, start, {}, steps=steps)
    for M, mu, op, end, w, outs, problems in ctx.impl.pmap(seen, [r.randrange(1 << 40) for _ in range(ctx.n(40, 400))]):
        for x, i in problems: ctx.bad(x, i)
        if not problems: J.case("c", M, mu, dict(op=op, end=end, other=mutation.text(M, w)), step={"op": op, "end": int(end), "with": w}, outs=outs)
    J.run("mutating")
    for M, a, b, x, written, problems in ctx.impl.pmap(refused, [r.randrange(1 << 40) for _ in range(ctx.n(200, 2000))]):
        for w, i in problems: ctx.bad(w, i)
        same = [k["l"] for k in a] == [k["l"] for k in b]
        if x and written != same: ctx.bad("components exchanged between different co-localizations" if written else "components over the same co-localizations are not exchanged", dict(one=mutation.text(M, a), other=mutation.text(M, b), out=x["out"][-300:]))
        ctx.count("exchanges_refused" if not written else "exchanges_made")
