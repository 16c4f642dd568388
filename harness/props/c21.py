"""C21: metrics of interactions and of their automata."""
import re
import gen, core
from props import c16, c12
AREAS = ("canon", "metrics", "nfa")

def num(out, label):
    m = re.search(label + r"\s*:\s*(\d+)", out)
    return int(m.group(1)) if m else None

INT = [("depth", r"\bdepth"), ("loop depth", r"loop depth"), ("lifelines", r"number of lifelines"), ("Action", r"number of actions")]

def run(ctx):
    r = ctx.rnd
    if not ctx.impl.driver_ok: ctx.notes.append("driver unavailable: only interactions that canonization leaves as they are can be judged; none are")
    gs = c16.gens(r) + [gen.Gen(r, nl=4, nm=3, sync=0.2, multi=0.4, empty=0.25, selfcom=0.2)]
    base = dict(lf=gen.LF[:4], ms=gen.MS[:3], gt=gen.GT)
    met = []
    def metric(t, m, how): met.append((dict(id=len(met), t=t, m=m), how))
    if ctx.impl.driver_ok:
        # symbols by kind, whatever the interaction
        ts = [r.choice(gs).term(r.randrange(1, 20)) for _ in range(ctx.n(3000, 40000))]
        for t, a in zip(ts, ctx.impl.drive([dict(op="metrics", t=t) for t in ts])):
            if not isinstance(a, list): ctx.bad("metrics cannot be computed: " + str(a), dict(interaction=gen.hif_text(t))); continue
            metric(t, a, "extracted"); ctx.count("interactions")
        # what the command reports, which is about the canonical form
        jobs = []
        src = [r.choice(gs[:4]).term(r.randrange(1, 9)) for _ in range(ctx.n(700, 7000))]
        for t, a in zip(src, ctx.impl.drive([dict(op="canonize", t=t, proc="unfold", **base) for t in src], timeout=90)):
            if "t" in a: jobs.append(dict(t=t, form=a["t"]))
        def one(j):
            with core.Dir(ctx) as d:
                d.write("s.hsf", gen.hsf_text(3, 2)); d.write("i.hif", gen.hif_text(j["t"]))
                return [ctx.impl.cli(["get_metrics", "s.hsf", "i.hif", k], d.p, 8) for k in ("INT", "operatNFA", "minDFA")]
        todo = []
        for j, rs in zip(jobs, ctx.impl.pmap(one, jobs)):
            info = dict(interaction=gen.hif_text(j["t"]))
            if any(x["hang"] for x in rs): ctx.count("too-long"); continue
            if any(core.sut.panicked(x) for x in rs): ctx.bad("get_metrics crashed", dict(info, err=[x["err"][-200:] for x in rs])); continue
            i, o, m = (x["out"] for x in rs)
            got = [(n, num(re.sub("loop depth.*", "", i) if n == "depth" else i, l)) for n, l in INT]
            s = [num(o, "number of states"), num(o, "number of edges"), num(m, "number of states"), num(m, "number of edges")]
            if None in s or any(v is None for _, v in got): ctx.bad("metrics are missing", dict(info, out=i + o + m)); continue
            metric(j["form"], [list(x) for x in got], "reported")
            if s[0] <= 25: todo.append(dict(t=j["form"], sizes=s)); ctx.count("automata")
            if s[0] > 3: ctx.sample(dict(info, metrics=dict(got), automaton=s[:2], minimal=s[2:]))
        for j, a in zip(todo, ctx.impl.drive([dict(op="nfa", t=j["t"], compo=False, kw=0, lf=gen.LF[:3], ms=gen.MS[:2]) for j in todo], timeout=60)):
            if "op" not in a: j["sizes"] = []; continue
            j["letters"] = a["letters"]; j["auts"] = [dict(init=a["op"]["init"], fin=a["op"]["fin"], tr=a["op"]["tr"], live=1, exact=0)]; j["names"] = ["op"]
        c16.judge(ctx, todo, share=0.7)
    tr = ctx.tlc("Conf_Metrics", [c for c, _ in met])
    ctx.valid(len(met))
    for b in tr.tagged["BAD"]:
        c, how = met[b[0]]
        ctx.bad("wrong metric", dict(interaction=gen.hif_text(c["t"]), metric=b[1][0], reported=b[1][1], expected=b[1][2], how=how))
