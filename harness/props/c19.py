"""C19: what is ill-formed is refused with an error, what is well-formed is accepted and read as it says."""
import syntax, options, core
AREAS = ("io", "opts")

def mistaken(r):
    """texts of models and traces, most of them with a mistake"""
    k = r.choice("iihhs"); sig = syntax.signature(r); P = syntax.Pieces(r, sig, r.choice([0, 0.02, 0.1, 0.3]))
    ps = P.inter(r.randrange(1, 9)) if k == "i" else P.multi() if k == "h" else P.sections()
    return k, syntax.text(r, syntax.mistakes(r, ps, 0.6)), sig if k != "s" else syntax.NOSIG

GOOD = dict(hsf="@message{m;n} @lifeline{a;b}", hif="seq(a -- m -> b, alt(o, b -- n -> a))", htf="{[#all] a!m.b?m}", hcf="@analyze_option{memoize=true} @explore_option{memoize=true}")
WANTS = dict(analyze=["hsf", "hif", "htf", "hcf"], explore=["hsf", "hif", "hcf"], canonize=["hsf", "hif", "hcf"], nfa_analyze=["hsf", "hif", "htf"])
DONE = dict(analyze="verdict", explore="node count", canonize="node count", nfa_analyze="verdict")
def names(r, kind):
    """a file name: mostly of the right kind"""
    other = r.choice(["hsf", "hif", "htf", "hcf", "txt", "HSF", "hsfx", "h", ""])
    stem = r.choice(["x", "x.y", "x.hsf", "x.hif", "hsf", ".x", "a b", "\u00e9"])
    return stem + "." + kind if r.random() < 0.75 else r.choice([stem, stem + "." + other, "." + kind, kind, stem + "." + kind + "~", "x" + kind])

def extensions(ctx, n):
    """files of the wrong kind"""
    r = ctx.rnd; J = options.Judge(ctx)
    def one(m):
        cmd, ns = m
        with core.Dir(ctx) as d:
            args = []
            for i, (k, x) in enumerate(zip(WANTS[cmd], ns)):
                core.os.mkdir(d.path(str(i))); d.write(f"{i}/{x}", GOOD[k]); args.append(f"{i}/{x}")
            return ctx.impl.cli([cmd] + args, d.p)
    items = []
    for _ in range(n): cmd = r.choice(list(WANTS)); items.append((cmd, [names(r, k) for k in WANTS[cmd]]))
    for (cmd, ns), x in zip(items, ctx.impl.pmap(one, items)):
        if x["hang"] or core.sut.panicked(x): ctx.bad("the tool fails on file names", dict(command=cmd, files=ns, err=x["err"][-400:])); continue
        J.case("files", "", syntax.NOSIG, dict(run=cmd, files=ns, out=x["out"][-300:]), ok=int(DONE[cmd] in x["out"]),
               names=[syntax.codes(a) for a in ns], kinds=[syntax.codes(a) for a in WANTS[cmd]])
    J.run("running the tool on files of other kinds")

NUMBERS = ["0", "1", "3", "+2", "007", "+0", "x", "1x", "1.5", "4294967296", "99999999999", "0x10", "1e3", "1_0", "\u0663", "++1", "+", " 2 ", " ", "2 2", "42949672950", "True", "\u00e9", "1\n"]
LARGE = ["4294967295", "+4294967295", "0004294967295", "4294967294"]
def numbers(ctx, n):
    """numeric arguments on the command line"""
    r = ctx.rnd; J = options.Judge(ctx)
    def one(m):
        cmd, x = m
        with core.Dir(ctx) as d:
            for k, t in GOOD.items(): d.write("x." + k, t)
            if cmd.startswith("nfa_experiment"):
                q = ctx.impl.cli(["nfa_experiment", "x.hsf", "x.hif", *(["-n"] if cmd.endswith("n") else ["-n", "1", "-k"]), x], d.p)
                return q, "NFA via operational method" in q["out"]
            a = dict(slice=["x.htf", "-p", "out", "-r"], mutate_remove_actions=["x.htf", "-p", "out", "-m"], mutate_insert_noise=["x.htf", "-p", "out", "-m"], mutate_swap_actions=["x.htf", "-p", "out", "-m"],
                     mutate_swap_components=["x.htf", "x.htf", "-p", "out", "-m"])[cmd]
            q = ctx.impl.cli([cmd, "x.hsf"] + a + [x], d.p)
            return q, "out" in d.ls()
    items = []
    for _ in range(n):
        cmd = r.choice(["slice", "mutate_remove_actions", "mutate_insert_noise", "mutate_swap_actions", "mutate_swap_components", "nfa_experiment -n", "nfa_experiment -k"])
        items.append((cmd, r.choice(NUMBERS + (LARGE if cmd in ("mutate_swap_actions", "mutate_swap_components", "nfa_experiment -k") else []))))
    items = [(c, x) for c, x in items if not (c.startswith("nfa") and x == "2 2") and not (c == "nfa_experiment -k" and x in ("4294967296", "99999999999", "42949672950"))]   # blanks inside are ignored by some commands only; -k may be larger
    for (cmd, x), (q, done) in zip(items, ctx.impl.pmap(one, items)):
        if q["hang"] or core.sut.panicked(q): ctx.bad("the tool fails on a numeric argument", dict(command=cmd, argument=x, err=q["err"][-400:])); continue
        J.case("number", x, syntax.NOSIG, dict(run=cmd, argument=x, out=q["out"][-300:]), ok=int(done), positive=int(cmd == "nfa_experiment -n"))
    J.run("numeric arguments")

def run(ctx):
    r = ctx.rnd
    texts = [mistaken(r) for _ in range(ctx.n(2500, 25000))]
    confs = [options.case(r) for _ in range(ctx.n(3000, 40000))]
    k = 12 if ctx.impl.driver_ok else 2
    syntax.run_tool(ctx, texts[::k])
    options.run_commands(ctx, confs[::k // 2])
    extensions(ctx, ctx.n(150, 1500))
    numbers(ctx, ctx.n(200, 1000))
    if not ctx.impl.driver_ok: ctx.notes.append("driver unavailable: only acceptance was judged"); return
    syntax.read_texts(ctx, texts)
    options.read_options(ctx, confs)
