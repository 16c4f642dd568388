"""C16: the automata of an interaction accept its behaviours; analysis of global traces with them; C21 shares the generator."""
import gen, core, walk
AREAS = ("nfa",)
LIM = 40

def composable(t):
    """operators the compositional construction knows, with weak sequencing only in terms it explores as a whole"""
    k = t[0]
    pure = lambda x: x[0] in ("o", "em", "rc") or (x[0] in ("strict", "seq") and pure(x[1]) and pure(x[2]))
    if pure(t): return True
    if k in ("alt", "par", "strict"): return composable(t[1]) and composable(t[2])
    if k == "seq": return len(gen.lifelines(t)) <= 1 and composable(t[1]) and composable(t[2])   # where it is strict sequencing
    return k == "lp" and t[1] == "S" and composable(t[2])

WEAKSEQ = ["seq", ["alt", ["em", 0, 0, 0, []], ["em", 0, 1, 0, []]], ["em", 1, 0, 0, []]]

def gens(r):
    return [gen.Gen(r, sync=0.25), gen.Gen(r, nl=2, nm=2, sync=0.3, multi=0.1),
            gen.Gen(r, nl=3, nm=2, sync=0.2, multi=0.3, loops="S", weights=dict(strict=3, seq=0, alt=3, par=2, cr=0, lp=3, sy=0)),
            gen.Gen(r, nl=2, nm=2, sync=0.3, weights=dict(strict=3, seq=2, alt=3, par=1, cr=1, lp=4, sy=1.5), loops="SSHW"),
            gen.Gen(r, nl=3, nm=1, sync=0.6, multi=0.6, comm=0.7), gen.Gen(r, nl=1, nm=2, weights=dict(strict=1, seq=4, alt=4, par=2, cr=0, lp=3, sy=0), loops="S")]

def sig(g): return dict(lf=gen.LF[:g.nl], ms=gen.MS[:g.nm])

def run(ctx):
    r = ctx.rnd
    gs = gens(r)
    jobs = []
    for i in range(ctx.n(1000, 12000)):
        g = gs[i % len(gs)]
        t = g.term(r.randrange(1, 9 if i % 7 else 12))
        jobs.append(dict(t=t, g=g, co=composable(t)))
    jobs.append(dict(t=WEAKSEQ, g=gs[0], co=True, key="compositional-weak-seq"))
    if ctx.impl.driver_ok:
        ans = ctx.impl.drive([dict(op="nfa", t=j["t"], compo=j["co"], kw=9, **sig(j["g"])) for j in jobs], timeout=20)
        for j, a in zip(jobs, ans):
            if "hang" in a: ctx.count("too-long"); j["skip"] = 1; continue
            if "op" not in a: ctx.bad("the automata cannot be built: " + str(a)[:200], dict(interaction=gen.hif_text(j["t"])), key=j.get("key")); continue
            if len(a["op"]["tr"]) > LIM: ctx.count("too-large"); j["skip"] = 1; continue
            j["letters"] = a["letters"]; j["auts"] = []; j["names"] = []
            for n in ("op", "dfa", "min", "kw", "co", "comin", "cokw"):
                if n not in a or len(a[n]["tr"]) > 3 * LIM: continue
                au = a[n]
                used = {l for s in au["tr"] for l, _ in s}
                if not used <= set(au["alpha"]): ctx.bad("an automaton has transitions by letters that are not in its alphabet", dict(interaction=gen.hif_text(j["t"]), automaton=n)); continue
                j["auts"].append(dict(init=au["init"], fin=au["fin"], tr=au["tr"], live=int(n in ("op", "dfa")), exact=int(n in ("co", "comin", "cokw")))); j["names"].append(n)
                ctx.count("automata"); ctx.count("automata_" + n); ctx.count("automata_states", len(au["tr"]))
    # the verdicts of the command line
    cl = []
    for i, j in enumerate(jobs):
        if (i % 4 and "key" not in j) or "skip" in j: continue
        for _ in range(3): cl.append(dict(j=j, w=walk_word(r, j["t"], j["g"]), kind="ana"))
        if j["co"]: cl.append(dict(j=j, kind="exp"))
    def one(x):
        j = x["j"]; g = j["g"]
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(g.nl, g.nm)); d.write("i.hif", gen.hif_text(j["t"]))
            if x["kind"] == "exp": return ctx.impl.cli(["nfa_experiment", "s.hsf", "i.hif", "-n", "1", "-k", "1"], d.p, 8)
            d.write("t.htf", gen.htf_text([list(range(g.nl))], [x["w"]]))
            return ctx.impl.cli(["nfa_analyze", "s.hsf", "i.hif", "t.htf"], d.p, 8)
    for x, a in zip(cl, ctx.impl.pmap(one, cl)):
        j = x["j"]
        if a["hang"]: ctx.count("too-long"); continue
        info = dict(interaction=gen.hif_text(j["t"]))
        if core.sut.panicked(a): ctx.bad(("nfa_analyze" if x["kind"] == "ana" else "nfa_experiment") + " crashed", dict(info, err=a["err"][-300:]), key=j.get("key")); continue
        if x["kind"] == "ana":
            v = core.verdict_of(a) or ""
            u = 1 if v.startswith("re-enacted") else 0 if v.startswith("failed") else None
            tr = gen.htf_text([list(range(j["g"].nl))], [x["w"]]).replace("\n", " ")
            if u is None: ctx.bad("no verdict", dict(info, trace=tr, out=a["out"][-300:])); continue
            j.setdefault("words", []).append(dict(w=x["w"], v=u, tr=tr)); ctx.count("traces_analysed"); ctx.count("verdict_%d" % u)
            if len(x["w"]) > 2: ctx.sample(dict(info, trace=tr, verdict=v))
        else:
            same = 0 if "is not a correct" in a["out"] else 1 if "is a correct translation" in a["out"] else None
            if same is None: ctx.bad("no result of the experiment", dict(info, out=a["out"][-300:])); continue
            if "co" in j.get("names", []): j["same"] = [dict(a=1, b=1 + j["names"].index("co"), v=same)]; ctx.count("translations_compared")
    judge(ctx, jobs)

def judge(ctx, jobs, share=1.0):
    """jobs: t, letters, auts with names, words, sizes, same"""
    cases = []; src = []
    for j in jobs:
        if not any(j.get(k) for k in ("auts", "words", "sizes", "same")): continue
        cases.append(dict(id=len(cases), t=j["t"], letters=j.get("letters", []), auts=j.get("auts", []), d=9 if gen.ops(j["t"]) & {"lpH", "lpP", "lpW"} else 40, words=[dict(w=x["w"], v=x["v"]) for x in j.get("words", [])],
                          sizes=j.get("sizes", []), same=j.get("same", []), hid=j.get("hid", []))); src.append(j)
    tr = ctx.tlc("Conf_Nfa", cases, share=share)
    ctx.valid(len(cases))
    for b in tr.tagged["BAD"]:
        j = src[b[0]]
        for wh, k in b[1]:
            info = dict(interaction=gen.hif_text(j["t"]))
            if wh in ("deviation-not-seen", "run-refused"): info.update(trace=j["words"][k - 1]["tr"], reenacted=j["words"][k - 1]["v"])
            elif wh.startswith("number"): info.update(expected=k, reported=j["sizes"])
            elif wh.endswith("lifeline"): info.update(automaton=j["hidnames"][k - 1])
            elif wh.startswith("wrong"): info.update(said=j["same"])
            elif k: info.update(automaton=j["names"][k - 1], word=b[2])
            ctx.bad(wh, info, key=j.get("key") if wh.startswith("behaviour") and info["automaton"].startswith("co") else None)

def walk_word(r, t, g):
    """a run of the interaction, or nearly one"""
    w = [[list(a) for a in ma] for ma in walk.run(r, t, r.randrange(1, 8), r.random() < 0.6)]
    x = r.random()
    if x < 0.45: return w
    if x < 0.6 and len(w) > 1:   # steps that become simultaneous
        i = r.randrange(len(w) - 1); u = sorted({tuple(a) for a in w[i] + w[i + 1]})
        return w[:i] + [[list(a) for a in u]] + w[i + 2:]
    big = [i for i, ma in enumerate(w) if len(ma) > 1]
    if x < 0.75 and big:         # simultaneous actions taken apart, or one changed
        i = r.choice(big)
        y = r.random()
        if y < 0.35: return w[:i] + [[a] for a in w[i]] + w[i + 1:]
        if y < 0.7: return w[:i] + [r.sample(w[i], r.randrange(1, len(w[i])))] + w[i + 1:]     # a part of it
        ma = [list(a) for a in w[i]]; a = r.choice(ma); a[2] = (a[2] + 1) % g.nm
        return w[:i] + [ma] + w[i + 1:]
    if x < 0.85 and len(w) > 1:
        i = r.randrange(len(w) - 1); return w[:i] + [w[i + 1], w[i]] + w[i + 2:]
    return walk.perturb(r, [w], [list(range(g.nl))], g.nm)[0]
