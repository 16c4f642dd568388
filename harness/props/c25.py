"""C25: the automata drawn by glosem: of the interaction, minimal, and with each lifeline hidden."""
import re
import gen, core
from props import c16
AREAS = ()
LIM = 25

def ma_of(label):
    """the multi-action a letter is written as"""
    try: tr = core.ids(core.parse_trace(label))
    except ValueError: return None
    return tr[0] if len(tr) == 1 else None

def dot(text):
    """the automaton of a dot file: (initial, final, [(from, label or None, to)]); None when it is not one"""
    ini, fin, st, ed = [], [], [], []
    for l in text.split("\n"):
        l = l.strip().rstrip(";")
        m = re.match(r"^S(\d+) \[(.*)\]$", l)
        if m:
            st.append(int(m[1]))
            if "doublecircle" in m[2]: fin.append(int(m[1]))
            continue
        m = re.match(r"^I\d+->S(\d+)", l)
        if m: ini.append(int(m[1])); continue
        m = re.match(r"^S(\d+)->S(\d+) \[(.*)\]$", l)
        if m:
            lab = re.search(r'label="([^"]*)"', m[3])
            for x in (lab[1] if lab else "").split("\\n"):
                ed.append((int(m[1]), None if "3B5" in x or "ε" in x else x, int(m[2])))
    if sorted(st) != list(range(len(st))) or not st: return None
    return ini, fin, len(st), ed

def run(ctx):
    r = ctx.rnd
    gs = c16.gens(r)
    for g in gs: g.selfcom = 0                # the drawings made along the way do not support messages to oneself
    js = []
    for i in range(ctx.n(320, 4000)):
        g = gs[i % len(gs)]; js.append(dict(t=g.term(r.randrange(1, 8)), g=g))
    def one(j):
        with core.Dir(ctx) as d:
            d.write("s.hsf", gen.hsf_text(j["g"].nl, j["g"].nm)); d.write("i.hif", gen.hif_text(j["t"]))
            a = ctx.impl.cli(["glosem", "s.hsf", "i.hif"], d.p, 20, env={"PATH": d.path("nodot")})
            return a, {f: d.read(f) for f in d.ls() if f.endswith(".dot")}
    for j, (a, fs) in zip(js, ctx.impl.pmap(one, js)):
        info = dict(interaction=gen.hif_text(j["t"]))
        if a["hang"]: ctx.count("too-long"); continue
        if core.sut.panicked(a): ctx.bad("glosem crashed", dict(info, err=a["err"][-300:])); continue
        names = ["i_orig_nfa", "i_mini_dfa"] + [f"i_hid_{l}_{k}" for l in range(j["g"].nl) for k in ("nfa", "closed_nfa")]
        ds = {n: dot(fs[n + ".dot"]) if n + ".dot" in fs else None for n in names}
        if None in ds.values(): ctx.bad("an automaton is missing or cannot be read", dict(info, missing=[n for n in names if ds[n] is None])); continue
        if ds["i_orig_nfa"][2] > LIM: ctx.count("too-large"); continue
        labels = sorted({l for x in ds.values() for _, l, _ in x[3] if l is not None})
        mas = [ma_of(l) for l in labels]
        if None in mas: ctx.bad("a letter cannot be read", dict(info, letters=labels)); continue
        num = lambda n: re.search(n + r".*num states (\d+)", a["out"])
        said = [int(num(k)[1]) if num(k) else None for k in ("orig NFA", "min DFA")]
        if said != [ds["i_orig_nfa"][2], ds["i_mini_dfa"][2]]: ctx.bad("the number of states is not that of the automaton", dict(info, said=said)); continue
        def aut(x):
            tr = [[] for _ in range(x[2])]
            for f, l, t in x[3]: tr[f].append([0 if l is None else labels.index(l) + 1, t + 1])
            return dict(init=[s + 1 for s in x[0]], fin=[s + 1 for s in x[1]], tr=tr, live=0, exact=0)
        j["letters"] = mas; j["names"] = names[:2]
        j["auts"] = [dict(aut(ds["i_orig_nfa"]), live=1), aut(ds["i_mini_dfa"])]
        j["sizes"] = [k for n in names[:2] for k in (ds[n][2], len(set(ds[n][3])))]
        if any(e[1] is None for n in names[:2] + [x for x in names if "closed" in x] for e in ds[n][3]): ctx.bad("a silent move where there should be none", info); continue
        j["hid"] = []; j["hidnames"] = names[2:]
        for n in names[2:]: j["hid"].append(dict(a=1, lf=int(n.split("_")[2]), x=aut(ds[n])))
        ctx.count("interactions"); ctx.count("automata", len(names)); ctx.count("states", ds["i_orig_nfa"][2])
        if ds["i_orig_nfa"][2] > 3: ctx.sample(dict(info, hidden=names[2], dot=fs[names[2] + ".dot"][:600]))
    c16.judge(ctx, [j for j in js if "auts" in j])
