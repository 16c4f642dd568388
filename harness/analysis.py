"""Running `analyze` on generated problems and judging the verdicts with Conf_Analyze."""
import gen, core, walk, common
from core import Dir

VMAP = {"Inconc LackObs": "Inconc LackObs", "Inconc UsingLifelineRemovalWithCoLocalizations": "Inconc LR", "Inconc FilteredNodes": "Inconc Filtered"}

def hcf(p):
    k = p["kind"]
    if k == "simulate":
        s = p["sim"]
        crit = {"none": "none", "num": "max_num", "depth": "max_depth"}
        a = crit.get(s["act"][0], f"num={s['act'][1]}"); l = crit.get(s["loop"][0], f"num={s['loop'][1]}")
        b = lambda x: "true" if x else "false"
        k = f"simulate[{p['cfg'].get('bname','slice')}={b(s['before'])},multiply={b(s['mult'])},reset={b(s['reset'])},act {a},loop {l}]"
    c = p["cfg"]; o = [f"analysis_kind={k}"]
    o.append("strategy=" + c.get("strategy", "BFS"))
    if c.get("prio"): o.append("priorities=[" + c["prio"] + "]")
    o.append("goal=" + p["goal"])
    o.append("memoize=" + ("true" if p["memo"] else "false"))
    o.append("local_analysis=" + c.get("locana", "none"))
    if c.get("por"): o.append("partial_order_reduction=true")
    fl = []
    if p["dmax"] < 1000 or c.get("dmax") is not None: fl.append(f"max_depth={c.get('dmax', p['dmax'])}")
    if p["lmax"] < 1000 or c.get("lmax") is not None: fl.append(f"max_loop_depth={c.get('lmax', p['lmax'])}")
    if p["nmax"] < 1000: fl.append(f"max_node_number={p['nmax']}")
    if fl: o.append("filters=[" + ",".join(fl) + "]")
    if c.get("shuffle"): c["shuffle"].shuffle(o)
    return "@analyze_option{" + ";".join(o) + "}"

def problem(i, t, colocs, mu, kind, nl, nm, **kw):
    p = dict(id=i, t=t, colocs=colocs, mu=mu, kind=kind, nl=nl, nm=nm, ng=0, goal="none", memo=0, locana=0, loose=0,
             dmax=1000, lmax=1000, nmax=1000, cfg={}, sim=dict(before=0, reset=0, mult=0, act=["none", 0], loop=["none", 0]))
    p.update(kw)
    return p

def describe(p):
    return dict(interaction=gen.hif_text(p["t"]), multitrace=gen.htf_text(p["colocs"], p["mu"]).replace("\n", " "), options=hcf(p))

def run_problem(ctx, p, timeout=8, noconf=False):
    with Dir(ctx) as d:
        d.write("s.hsf", gen.hsf_text(p["nl"], p["nm"], p["ng"])); d.write("i.hif", gen.hif_text(p["t"]))
        d.write("t.htf", gen.htf_text(p["colocs"], p["mu"])); a = ["analyze", "s.hsf", "i.hif", "t.htf"]
        if not noconf: d.write("o.hcf", hcf(p)); a.append("o.hcf")
        r = ctx.impl.cli(a, d.p, timeout)
    v = core.verdict_of(r)
    r["verdict"] = VMAP.get(v, v)
    return r

def judge(ctx, problems, timeout=800, keyof=None):
    """run all the problems, compare with the specification"""
    res = ctx.impl.pmap(lambda p: run_problem(ctx, p, noconf=p.get("noconf", False)), problems)
    cases = []; byid = {}
    slow = [i for i, (p, r) in enumerate(zip(problems, res)) if r["hang"] and p["memo"] and p["nmax"] == 1000 and p["kind"] != "simulate" and not p["locana"]][:8]
    again = dict(zip(slow, ctx.impl.pmap(lambda i: run_problem(ctx, problems[i], timeout=40, noconf=problems[i].get("noconf", False)), slow)))
    for i, (p, r) in enumerate(zip(problems, res)):
        if i in again:
            r = again[i]
            if r["hang"]: r = dict(r, hang=False, rc=0, verdict="no answer", err="")
        if r["hang"]: ctx.count("too-long"); continue
        if p["kind"] == "simulate" and p["dmax"] == p["nmax"] == 1000 and "overflowed its stack" in r["err"]: ctx.count("too-long"); continue   # an endless simulation may well grow until then
        if core.sut.panicked(r): ctx.bad("analysis crashed", dict(describe(p), err=r["err"][-300:]), key=keyof(p) if keyof else None); continue
        if r["verdict"] is None: ctx.bad("analysis gave no verdict", dict(describe(p), out=r["out"][-400:]), key=keyof(p) if keyof else None); continue
        ctx.count("verdict " + r["verdict"].replace(" ", "_"))
        p["v"] = r["verdict"]; byid[p["id"]] = p
        cases.append({k: p[k] for k in ("id", "t", "colocs", "mu", "kind", "sim", "goal", "memo", "locana", "loose", "dmax", "lmax", "nmax", "v")})
        ctx.sample(dict(describe(p), verdict=p["v"]))
    tr = ctx.tlc("Conf_Analyze", cases, timeout=timeout)
    ctx.valid(len(cases) - len(tr.tagged["SKIP"])); ctx.count("skipped-too-big", len(tr.tagged["SKIP"]))
    if tr.violated: raise core.tlc.TlcError("specification invariant " + tr.violated.group(1) + " fails\n" + tr.out[-2500:])
    for b in tr.tagged["BAD"]:
        p = byid[b[0]]
        if b[1] == "no answer" and b[3] > 300: ctx.count("too-long"); continue    # a large search
        ctx.bad(f"verdict {b[1]}, specified {'/'.join(sorted(b[2]))}", describe(p), key=keyof(p) if keyof else None)
    ctx.count("analyses", len(cases))
    return cases

def gens(r):
    return [(gen.Gen(r, nl=3, nm=2), 3, 2), (gen.Gen(r, nl=2, nm=2, sync=0.2), 2, 2), (gen.Gen(r, nl=4, nm=3, sync=0.15, multi=0.25), 4, 3)]

def random_problem(r, i, kind, gs, size=(2, 9), maxlen=6, singles=0.5, p=(0.4, 0.8), nosy=False, filt=None):
    while True:
        g, nl, nm = r.choice(gs)
        t = g.term(r.randrange(*size))
        if filt and not filt(t): continue
        break
    colocs = walk.partition(r, nl, singles)
    return problem(i, t, colocs, walk.multitrace(r, t, colocs, nm, maxlen, p), kind, nl, nm)

def vary_search(r, p, goals=True):
    """any search configuration that must not change the verdict"""
    p["memo"] = r.randrange(2)
    c = p["cfg"]; c["strategy"] = r.choice(["BFS", "DFS", "HCS"])
    if r.random() < 0.5:
        ps = [f"{k}={r.choice([-2, -1, 1, 2])}" for k in r.sample(["emission", "reception", "loop", "multi_rdv", "elim", "simu"], r.randrange(1, 4))]
        if r.random() < 0.3: ps.append("randomize=true")
        c["prio"] = ",".join(ps)
    if goals: p["goal"] = r.choice(["none", "WeakPass", "Pass"])

def model_theorems(ctx, n):
    """MC_Analysis: what the verdicts of the specification mean, on n fresh problems"""
    r = ctx.rnd; cs = []
    free = gen.Gen(r, nl=3, nm=2, weights=dict(strict=2, seq=4, alt=3, par=2, cr=1, lp=0, sy=0.5)); anyg = gen.Gen(r, nl=3, nm=2)
    for i in range(n):
        f = r.random() < 0.7
        while True:
            t = (free if f else anyg).term(r.randrange(2, 8))
            if not f or "lp" not in gen.ops(t): break
        if not f and not "lp" in gen.ops(t): f = True
        if f and len([1 for x in gen.nodes(t) if x[0] in ("em", "rc")]) > 3: t = t[1] if t[0] in gen.BIN else t
        colocs = walk.partition(r, 3, 0.6)
        cs.append(dict(id=i, t=t, colocs=colocs, mu=walk.multitrace(r, t, colocs, 2, 4), free=int(f)))
    tr = ctx.tlc("MC_Analysis", cs, share=0.3)
    if tr.tagged.get("BAD") or (not tr.ok and not tr.timeout): raise core.tlc.TlcError("the specification's own theorems fail: " + str([(cs[b[0]], b[1:]) for b in tr.tagged["BAD"]])[:1500] + tr.out[-800:])

def cut_each(r, p): return [tr[:r.randrange(len(tr) + 1)] for tr in p["mu"]]
def slice_each(r, p):
    out = []
    for tr in p["mu"]:
        a = r.randrange(len(tr) + 1); out.append(tr[a:] if r.random() < 0.5 else tr[:a])
    return out

def random_sim(r, p, before=None):
    act = r.choice([["none", 0], ["num", 0], ["fixed", r.randrange(4)]]); loop = r.choice([["num", 0], ["depth", 0], ["fixed", r.randrange(3)], ["none", 0]])
    if act[0] == "none" and loop[0] == "none" and "lp" in gen.ops(p["t"]): loop = ["fixed", 1]
    p["sim"] = dict(before=r.randrange(2) if before is None else before, reset=r.randrange(2), mult=r.randrange(2), act=act, loop=loop)
    p["cfg"]["bname"] = r.choice(["slice", "before", "preamble"])

# problems that random generation rarely reaches: (term, colocs, multi-trace)
A = lambda l, k, m: [[l, k, m]]
TARGETED = [
    # joint actions over several co-localizations
    (["em", 0, 0, 1, [1]], [[0], [1], [2]], [[A(0, "!", 0)], [A(1, "?", 0)], []]),
    (["em", 0, 0, 1, [1]], [[0], [1], [2]], [[A(0, "!", 0)], [], []]),
    (["em", 0, 0, 1, [1, 2]], [[0, 1], [2]], [[[[0, "!", 0], [1, "?", 0]]], [A(2, "?", 0)]]),
    (["em", 0, 0, 1, [1, 2]], [[0, 1], [2]], [[A(0, "!", 0)], [A(2, "?", 0)]]),
    (["em", 0, 0, 1, [1, 2]], [[0, 1, 2]], [[[[0, "!", 0], [1, "?", 0], [2, "?", 0]]]]),
    (["seq", ["rc", 0, 0, 1, [0, 1]], ["rc", 0, 1, 1, [1, 2]]], [[0], [1], [2]], [[A(0, "?", 0)], [A(1, "?", 0), A(1, "?", 1)], [A(2, "?", 1)]]),
    (["sy", [[0, "!", 0]], ["em", 0, 0, 1, [1]], ["em", 0, 0, 1, [2]]], [[0], [1], [2]], [[A(0, "!", 0)], [A(1, "?", 0)], [A(2, "?", 0)]]),
    # a behaviour whose local order differs from the global one
    (["seq", ["em", 0, 0, 0, [1]], ["em", 2, 1, 0, [1]]], [[0], [1], [2]], [[A(0, "!", 0)], [A(1, "?", 0), A(1, "?", 1)], [A(2, "!", 1)]]),
    (["seq", ["em", 0, 0, 0, [1]], ["em", 2, 1, 0, [1]]], [[0], [1], [2]], [[A(0, "!", 0)], [A(1, "?", 1), A(1, "?", 0)], [A(2, "!", 1)]]),
    (["cr", [1], ["em", 0, 0, 0, [1]], ["em", 2, 1, 0, [1]]], [[0], [1], [2]], [[A(0, "!", 0)], [A(1, "?", 1), A(1, "?", 0)], [A(2, "!", 1)]]),
    (["lp", "W", ["em", 0, 0, 0, [1]]], [[0], [1], [2]], [[A(0, "!", 0)] * 3, [A(1, "?", 0)] * 2, []]),
    (["lp", "H", ["seq", ["em", 0, 0, 0, [1]], ["em", 1, 1, 0, [0]]]], [[0, 1], [2]], [[A(0, "!", 0), A(1, "?", 0), A(1, "!", 1), A(0, "?", 1), A(0, "!", 0)], []]),
    (["alt", ["o"], ["em", 0, 0, 0, [1]]], [[0], [1], [2]], [[], [], []]),
    (["o"], [[0], [1], [2]], [[], [], []]), (["o"], [[0, 1, 2]], [[A(0, "!", 0)]]),
]

def targeted(kind, i0):
    out = []
    for t, cs, mu in TARGETED:
        for memo in (0, 1):
            p = problem(i0 + len(out), t, cs, mu, kind, 3, 2, memo=memo)
            if kind == "simulate": p["sim"] = dict(before=memo, reset=0, mult=0, act=["num", 0], loop=["fixed", 1])
            out.append(p)
    return out

def confluent(r, i, kind):
    """alternatives that meet again after having read different parts of the multi-trace"""
    nl = 3 if kind == "simulate" else r.choice([2, 2, 3]); nm = r.choice([1, 2]); E = lambda: ["em", r.randrange(nl), r.randrange(nm), 0, []]
    chain = lambda l: l[0] if len(l) == 1 else [r.choice(["strict", "strict", "seq"]), l[0], chain(l[1:])]
    rest = [E() for _ in range(r.randrange(0, 3))]
    first = [E() for _ in range(r.randrange(0, 3))]; bs = [first]
    for _ in range(r.choice([1, 1, 2])):
        b = r.choice(bs)[:]
        k = r.randrange(4)
        if k == 0 or not b: b.insert(r.randrange(len(b) + 1), E())
        elif k == 1: del b[r.randrange(len(b))]
        elif k == 2: b[r.randrange(len(b))] = E()
        else: r.shuffle(b); b.insert(r.randrange(len(b) + 1), E())
        bs.append(b)
    r.shuffle(bs); run = r.choice(bs) + rest
    if r.random() < 0.5 and rest:      # the common part written once
        t = chain([x for x in [None] + rest][1:]); alt = None
        for b in bs: x = chain(b) if b else ["o"]; alt = x if alt is None else ["alt", x, alt]
        t = [r.choice(["strict", "seq"]), alt, t]
    else:
        t = None
        for b in bs: x = chain(b + rest) if b + rest else ["o"]; t = x if t is None else ["alt", x, t]
    if r.random() < 0.15: t = ["lp", r.choice("SWP"), t]; run += r.choice(bs) + rest
    colocs = walk.partition(r, nl, 0.85)
    mu = [[A(x[1], "!", x[2])[0:1] for x in run if x[1] in c] for c in colocs]
    if r.random() < (0.1 if kind == "simulate" else 0.35) and any(mu): x = r.choice([y for y in mu if y]); del x[r.randrange(len(x))]
    if kind == "eliminate" and r.random() < 0.6 or kind == "prefix" and r.random() < 0.3: mu = [x[:r.randrange(len(x) + 1)] for x in mu]
    p = problem(i, t, colocs, mu, kind, nl, nm)
    if kind == "simulate": random_sim(r, p); p["mu"] = slice_each(r, p) if r.random() < 0.3 else p["mu"]
    vary_search(r, p); p["memo"] = int(r.random() < 0.8)
    return p

def gaps(r, i):
    """a few actions one after the other, some of them repeated or joint, to be simulated in part"""
    nl = r.choice([1, 1, 2, 2]); ls = [["em", l, m, 0, []] for l in range(nl) for m in range(2)]; lb = r.random()
    if nl == 2 and r.random() < 0.6: ls = ls[:3] + [["em", l, m, 1, [1 - l]] for l in range(2) for m in range(2)]; nl = r.choice([2, 3]) 
    if nl == 3: ls += [["em", 0, 0, 1, [1, 2]], ["rc", 0, 1, 1, [0, 2]]]
    chain = lambda l: l[0] if len(l) == 1 else [r.choice(["strict", "strict", "seq"]), l[0], chain(l[1:])]
    ts = [r.choice(ls) for _ in range(r.randrange(3, 7))]; run = list(ts)
    if lb < 0.45:
        k = r.randrange(len(ts)); n = r.choice([1, 2, 2, 3]); body = ts[k:k + n]
        run = ts[:k] + body * r.randrange(3) + ts[k + n:]; ts[k:k + n] = [["lp", r.choice("SWH"), chain(body)]]
    acts = lambda x: ([[x[1], "!", x[2]]] if x[0] == "em" else []) + [[l, "?", x[2]] for l in x[4]]
    joint = [k for k, x in enumerate(run) if x[3] and x in run[k + 1:]]; gone = r.choice(joint) if joint and r.random() < 0.5 else -1    # a joint action that nobody observed, and the same later
    mu = [[ma for k, x in enumerate(run) if k != gone for ma in [[y for y in acts(x) if y[0] == l]] if ma] for l in range(nl)]
    p = problem(i, chain(ts), [[l] for l in range(nl)], mu, "simulate", nl, 2)
    if lb < 0.45 and r.random() < 0.7: p["want_loops"] = 1
    if gone >= 0: p["gapped"] = 1
    return p

def confluents(r, i0, kinds, n): return [confluent(r, i0 + k, kinds[k % len(kinds)]) for k in range(n)]

def memo_cases(i0):
    """analyses that reach the same interaction having read different parts of the multi-trace"""
    E = lambda l, m: ["em", l, m, 0, []]
    t = ["strict", ["alt", ["o"], E(1, 0)], ["strict", E(0, 2), ["strict", E(1, 0), E(1, 1)]]]
    u = ["seq", ["alt", ["o"], E(0, 0)], ["seq", E(1, 1), ["alt", E(0, 0), E(0, 1)]]]
    out = []
    for tt, mu in ((t, [[A(0, "!", 2)], [A(1, "!", 0), A(1, "!", 1)]]), (u, [[A(0, "!", 0), A(0, "!", 1)], [A(1, "!", 1)]]),
                   (["lp", "S", t], [[A(0, "!", 2)] * 2, [A(1, "!", 0), A(1, "!", 1), A(1, "!", 0), A(1, "!", 0), A(1, "!", 1)]])):
        for kind in ("accept", "prefix", "eliminate"):
            for st in ("BFS", "DFS", "HCS"):
                for memo in (0, 1):
                    p = problem(i0 + len(out), tt, [[0], [1]], mu, kind, 2, 3, memo=memo); p["cfg"]["strategy"] = st; out.append(p)
    return out
