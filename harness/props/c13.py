"""C13: canonization ends, in a normal form, over a lawful order, whatever the order of the branches."""
import gen, core
from props import c12
AREAS = ("canon",)
PROCS = ["five", "basic", "toseq", "unfold"]
LAST = dict(five=7, basic=1, toseq=1, unfold=1)   # the node after the last phase

def permuted(r, t):
    """the same interaction with its alternative and parallel branches in another order and association"""
    k = t[0]
    if k in ("alt", "par"):
        fl = lambda x: fl(x[1]) + fl(x[2]) if x[0] == k else [permuted(r, x)]
        xs = fl(t); r.shuffle(xs)
        def build(xs):
            if len(xs) == 1: return xs[0]
            i = r.randrange(1, len(xs)); return [k, build(xs[:i]), build(xs[i:])]
        return build(xs)
    if k in ("seq", "strict"): return [k, permuted(r, t[1]), permuted(r, t[2])]
    if k == "lp": return [k, t[1], permuted(r, t[2])]
    if k in ("cr", "sy"): return [k, t[1], permuted(r, t[2]), permuted(r, t[3])]
    return t

def variants(t):
    """t and terms that differ from it in one small thing, for the order laws"""
    out = [t]
    k = t[0]
    if k == "em": out += [["em", (t[1] + 1) % 3, *t[2:]], ["em", t[1], 1 - t[2], *t[3:]], [*t[:4], t[4] + [-1]], [*t[:4], t[4][::-1]]] + ([[*t[:3], 1 - t[3], t[4]]] if t[4] else [])
    elif k == "rc": out += [["rc", -1, *t[2:]], ["rc", -2, *t[2:]], ["rc", t[1], 1 - t[2], *t[3:]], [*t[:4], t[4] + [(t[4][-1] + 1) % 3]], [*t[:3], 1 - t[3], t[4]]]
    elif k in ("strict", "seq", "alt", "par"): out += [[k, t[2], t[1]]] + [[o, t[1], t[2]] for o in ("strict", "seq", "alt", "par") if o != k] + [[k, v, t[2]] for v in variants(t[1])[:3]] + [[k, t[1], v] for v in variants(t[2])[:3]]
    elif k == "lp": out += [["lp", x, t[2]] for x in "SHWP"] + [["lp", t[1], v] for v in variants(t[2])[:3]]
    elif k == "cr": out += [["cr", x, t[2], t[3]] for x in ([0], [1], [0, 1], [0, 2], [0, 1, 2])] + [["cr", t[1], t[3], t[2]]]
    elif k == "sy": out += [["sy", x, t[2], t[3]] for x in ([[0, "!", 0]], [[0, "!", 1]], [[0, "?", 0]], [[0, "!", 0], [1, "?", 0]])] + [["sy", t[1], t[3], t[2]]]
    return out

def uniq(l):
    seen = set(); out = []
    for x in l:
        if str(x) not in seen: seen.add(str(x)); out.append(x)
    return out

def run(ctx):
    r = ctx.rnd
    if not ctx.impl.driver_ok:
        ctx.notes.append("driver unavailable: only that canonization ends is decided")
    base = dict(lf=gen.LF[:3], ms=gen.MS[:2], gt=gen.GT[:2]) if hasattr(gen, "GT") else dict(lf=gen.LF[:3], ms=gen.MS[:2])
    cases = []; info = {}
    def case(kind, what, **kw):
        i = len(cases); cases.append(dict(id=i, kind=kind, **kw)); info[i] = what
    if ctx.impl.driver_ok:
        # rewriting graphs
        ts = c12.terms(ctx, ctx.n(1200, 12000))
        reqs = [dict(op="canon", t=t, proc=PROCS[i % 4], all=bool(r.random() < 0.7), max=60, **base) for i, t in enumerate(ts)]
        for t, q, a in zip(ts, reqs, ctx.impl.drive(reqs)):
            if "nodes" not in a: ctx.bad("canonization failed: " + str(a), dict(interaction=c12.hif(t), process=q["proc"])); continue
            nodes = [dict(p=n["p"], t=n["t"], x=True, s=sorted({k + 1 for _, k in n["s"]})) for n in a["nodes"]] + [dict(p=n["p"], t=n["t"], x=False, s=[]) for n in a["open"]]
            ctx.count("graphs"); ctx.count("graph_nodes", len(nodes)); ctx.count("complete_graphs", int(not a["open"]))
            case("g", dict(interaction=c12.hif(t), process=q["proc"], all=q["all"]), nodes=nodes, proc=q["proc"], last=LAST[q["proc"]], all=int(q["all"]))
        # results of the whole process
        g = gen.Gen(r, sync=0.1, empty=0.1); g2 = gen.Gen(r, nl=3, nm=1, empty=0.1, multi=0.2, sync=0.1, weights=dict(strict=3, seq=3, alt=6, par=6, cr=1.5, lp=2.5, sy=0.5))
        ts = [c12.targeted(r) if i % 3 == 0 else (g if i % 3 == 1 else g2).term(r.randrange(3, 13)) for i in range(ctx.n(4000, 40000))]
        reqs = []
        for i, t in enumerate(ts):
            pr = PROCS[i % 4]
            reqs += [dict(op="canonize", t=t, proc=pr, **base), dict(op="canonize", t=permuted(r, t), proc=pr, **base)]
        ans = ctx.impl.drive(reqs, timeout=90)
        re2 = []
        for i, t in enumerate(ts):
            q, a, b = reqs[2 * i], ans[2 * i], ans[2 * i + 1]
            for qq, x in ((q, a), (reqs[2 * i + 1], b)):
                if "t" not in x: ctx.bad("canonization does not end properly: " + str(x), dict(interaction=c12.hif(qq["t"]), process=q["proc"]))
            if "t" not in a or "t" not in b: continue
            case("n", dict(interaction=c12.hif(t), process=q["proc"], result=c12.hif(a["t"])), t=a["t"], adj=a["adj"], proc=q["proc"])
            if q["proc"] in ("basic", "unfold"):
                case("s", dict(process=q["proc"], interaction=c12.hif(t), permuted=c12.hif(reqs[2 * i + 1]["t"]), form=c12.hif(a["t"]), permuted_form=c12.hif(b["t"])), r1=a["t"], r2=b["t"])
                re2.append((q["proc"], a["t"]))
            else: re2.append(("basic", a["t"]))
        for (pr, t), a in zip(re2, ctx.impl.drive([dict(op="canonize", t=t, proc=pr, **base) for pr, t in re2], timeout=90)):
            if "t" not in a: ctx.bad("canonizing a normal form fails: " + str(a), dict(interaction=c12.hif(t))); continue
            case("s", dict(process=pr, normal_form=c12.hif(t), canonized_again=c12.hif(a["t"])), r1=t, r2=a["t"])
        ctx.count("whole_runs", len(reqs) + len(re2))
        # the order
        for _ in range(ctx.n(30, 250)):
            pool = []
            for _ in range(6): pool += r.sample(v := variants(r.choice([g, g2]).term(r.randrange(1, 5))), min(len(v), 7))
            pool += r.sample(c12.LEAVES, 5)
            pool = uniq(pool)[:42]; r.shuffle(pool)
            a = ctx.impl.drive([dict(op="cmp", ts=pool)])[0]
            if "m" not in a: ctx.bad("comparing terms fails: " + str(a), dict(terms=[c12.hif(x) for x in pool])); continue
            ctx.count("order_pools")
            for k in ("m", "pm"): case("o", dict(order=k, terms=[c12.hif(x) for x in pool]), ts=pool, m=a[k], eq=a["eq"])
    # the command itself
    n = ctx.n(24, 200); g = gen.Gen(r, sync=0.1, empty=0.1)
    def cli(t):
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(3, 2, 0)); d.write("i.hif", gen.hif_text(t))
            return t, ctx.impl.cli(["canonize", "s.hsf", "i.hif"], d.p, 30)
    for t, x in ctx.impl.pmap(cli, [g.term(r.randrange(1, 8)) for _ in range(n)]):
        ctx.count("canonize_commands")
        if x["hang"] or core.sut.panicked(x): ctx.bad("the canonize command does not end properly", dict(interaction=c12.hif(t), err=x["err"][-300:]))
    tr = ctx.tlc("Conf_Canon", cases)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]: ctx.bad(b[1], dict(**info[b[0]], node=b[2]))
    for i in (0, len(cases) // 2): ctx.sample(info.get(i))
