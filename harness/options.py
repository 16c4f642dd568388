"""Texts of configuration files: well-formed ones, and ones with mistakes (inputs only)."""
import syntax, core

TRUE = ["\u22a4", "true", "True", "TRUE"]; FALSE = ["\u22a5", "false", "False", "FALSE"]; NONE = ["none", "None", "NONE"]
NUMS = ["0", "1", "2", "3", "10", "4294967295", "2147483647"]
ODDNUMS = ["4294967296", "99999999999999999999", "2147483648", "2147483649", "01", "00", "1 2", "1.5", "x"]
PRIOS = ["emission", "reception", "loop", "multi_rdv"]
ALLPRIOS = PRIOS + ["elim", "simu", "simpl", "flush", "invert", "deduplicate", "factorize", "defactorize"]

class Hcf:
    def __init__(self, r, sig, slip): self.r = r; self.s = sig; self.slip = slip
    def bool(self): return [self.r.choice(self.r.choice([TRUE, FALSE]))]
    def num(self):
        r = self.r
        if r.random() < self.slip: return [r.choice(ODDNUMS)]
        return [r.choice(NUMS[:5]) if r.random() < 0.9 else r.choice(NUMS)]
    def pick(self, *alts): return self.r.choice(alts)()
    def bracket(self, item, n=3):
        r = self.r; out = ["["]
        for i in range(r.randrange(1, n + 1)): out += ([","] if i else []) + item()
        return out + ([","] if r.random() < 0.15 else []) + ["]"]
    def name(self): return [self.r.choice(["f", "Out", "a_b", "x1", "tracegen"])]
    def graphic(self):
        r = self.r
        return self.pick(lambda: r.choice([[], ["format", "="]]) + [r.choice(["png", "svg"])],
                         lambda: r.choice([[], ["layout", "="]]) + [r.choice(["horizontal", "vertical"])],
                         lambda: [r.choice(["draw_sd", "draw_tt", "draw_sub_processes", "draw_legend"]), "="] + self.bool(),
                         lambda: [r.choice(["parent", "parent_folder", "folder"]), "="] + self.name(),
                         lambda: [r.choice(["output", "name"]), "="] + self.name())
    def blocks(self):
        r = self.r; lfs = r.sample(self.s["lf"], r.randrange(1, len(self.s["lf"]) + 1)); out = []; bs = []
        for l in lfs:
            if bs and r.random() < 0.5: bs[-1].append(l)
            else: bs.append([l])
            if r.random() < self.slip: bs[-1].append(r.choice(syntax.NAMES + lfs))
        for b in bs: out += ([","] if out else []) + ["("] + [y for i, x in enumerate(b) for y in ([","] if i else []) + [x]] + [")"]
        return ["{"] + out + ["}"]
    def tracegen(self):
        r = self.r
        return self.pick(lambda: ["generation", "="] + self.pick(lambda: ["accepted"], lambda: ["exact depth"] + self.num(),
                                  lambda: ["modulo depth"] + ([r.choice("123")] if r.random() < 0.8 else self.num())),
                         lambda: ["partition", "="] + self.pick(lambda: ["discrete"], lambda: ["trivial"], self.blocks, self.blocks),
                         lambda: [r.choice(["parent", "parent_folder", "folder"]), "="] + self.name(),
                         lambda: [r.choice(["name_prefix", "trace_prefix", "prefix"]), "="] + self.name(),
                         lambda: [r.choice(["avoid_duplicates", "prevent_duplicates", "no_duplicates"]), "="] + self.bool())
    def logger(self, cmd):
        r = self.r; k = r.choice(["graphic", "tracegen", "nfa"])
        if cmd == "canonize" and r.random() > self.slip: k = "graphic"
        if cmd == "analyze" and k == "nfa" and r.random() > self.slip: k = "tracegen"
        if k == "nfa": return [r.choice(["nfa", "nfait"])]
        return [k] + (self.bracket(getattr(self, k)) if r.random() < 0.7 else [])
    def filter(self):
        return self.r.choice([["max_depth"], ["max", "depth"], ["max_loop_depth"], ["max", "loop", "depth"], ["max_node_number"], ["max", "node", "number"]]) + ["="] + self.num()
    def prio(self, cmd):
        r = self.r
        if r.random() < 0.2: return ["randomize", "="] + self.bool()
        mine = PRIOS + (["elim", "simu"] if cmd == "analyze" else [])
        return [r.choice(ALLPRIOS if r.random() < self.slip else mine), "="] + (["-"] if r.random() < 0.3 else []) + self.num()
    def crit(self, depth):
        r = self.r
        return r.choice([["num", "="] + self.num(), ["max_num"], ["max", "num"], [r.choice(NONE)]] + ([["max_depth"], ["max", "depth"]] if depth or r.random() < self.slip else []))
    def simulate(self):
        r = self.r
        return self.pick(lambda: ["loop"] + self.crit(True), lambda: ["act"] + self.crit(False),
                         lambda: [r.choice(["slice", "before", "preamble"]), "="] + self.bool(),
                         lambda: [r.choice(["multiply", "resized", "dependent"]), "="] + self.bool(),
                         lambda: [r.choice(["reset", "reinitialize"]), "="] + self.bool())
    def local(self):
        r = self.r
        return self.pick(lambda: r.choice([["max_look_ahead_depth"], ["max", "depth"], ["lookahead"], ["lookup"]]) + ["="] + (self.num() if r.random() < 0.7 else [r.choice(NONE)]),
                         lambda: [r.choice(["modulo", "modulo_each_X_steps"]), "="] + self.num(),
                         lambda: ["select", "=", r.choice(["all", "All", "ALL", "dirty", "Dirty", "DIRTY"])])
    def decl(self, cmd):
        r = self.r
        loggers = lambda: ["loggers", "="] + self.bracket(lambda: self.logger(cmd), 2)
        general = [loggers,
                   lambda: ["strategy", "=", r.choice(["BreadthFS", "Breadth First Search", "BFS", "DepthFS", "Depth First Search", "DFS", "HighCoverageS", "High Coverage Search", "HCS"])],
                   lambda: ["filters", "="] + self.bracket(self.filter),
                   lambda: ["priorities", "="] + self.bracket(lambda: self.prio(cmd)),
                   lambda: ["memoize", "="] + self.bool()]
        ana = [lambda: ["analysis_kind", "=", r.choice(["accept", "prefix", "eliminate"])],
               lambda: ["analysis_kind", "=", "simulate"] + (self.bracket(self.simulate, 4) if r.random() < 0.8 else []),
               lambda: ["goal", "=", r.choice(["Pass", "WeakPass"] + NONE)],
               lambda: ["local_analysis", "="] + ([r.choice(NONE)] if r.random() < 0.3 else self.bracket(self.local)),
               lambda: [r.choice(["partial_order_reduction", "por", "POR"]), "="] + self.bool()]
        can = [loggers, lambda: ["search_all"] + (["="] + self.bool() if r.random() < 0.8 else [])]
        own = dict(explore=general, analyze=general + ana, canonize=can)[cmd]
        if r.random() < self.slip: own = general + ana + can
        return r.choice(own)()
    def section(self, cmd):
        r = self.r; out = ["@" + cmd + "_option", "{"]
        for i in range(r.choice([1, 1, 2, 3, 4])): out += ([";"] if i else []) + self.decl(cmd)
        return out + ([";"] if r.random() < 0.3 else []) + ["}"]
    def file(self, cmd):
        r = self.r; cmds = ["explore", "analyze", "canonize"]
        ss = [cmd] if r.random() < 0.9 else []
        ss += [x for x in cmds if x != cmd and r.random() < 0.15]
        if r.random() < self.slip: ss.append(r.choice(cmds))
        r.shuffle(ss)
        return [p for x in ss for p in self.section(x)]

def case(r):
    sig = syntax.signature(r); slip = r.choice([0, 0, 0.03, 0.1, 0.3]); cmd = r.choice(["explore", "analyze", "analyze", "canonize"])
    return cmd, syntax.text(r, syntax.mistakes(r, Hcf(r, sig, slip).file(cmd), r.choice([0, 0, 0.4]))), sig

class Judge:
    def __init__(self, ctx): self.ctx = ctx; self.cases = []; self.info = {}
    def case(self, cmd, text, sig, inf, **kw):
        i = len(self.cases)
        self.cases.append(dict(id=i, cmd=cmd, cs=syntax.codes(text), sig=syntax.csig(sig), **kw)); self.info[i] = dict(command=cmd, text=text, signature=sig, **inf)
    def run(self, what):
        r = self.ctx.tlc("Conf_Options", self.cases)
        for b in r.tagged.get("BAD", []): self.ctx.bad(f"{what}: {b[1]}", self.info[b[0]])
        self.ctx.valid(len(self.cases))
        for i in range(0, len(self.cases), max(1, len(self.cases) // 4)): self.ctx.sample(self.info[i])

def read_options(ctx, items):
    J = Judge(ctx)
    for (cmd, text, sig), a in zip(items, ctx.impl.drive([dict(op="read_hcf", cmd=cmd, text=text, **sig) for cmd, text, sig in items])):
        if "ok" not in a: ctx.bad("reading a configuration fails: " + str(a), dict(command=cmd, text=text, signature=sig)); continue
        ctx.count("configurations_accepted" if a["ok"] else "configurations_refused")
        J.case(cmd, text, sig, dict(read=a), ok=a["ok"], **(dict(opts=a["opts"]) if a["ok"] else {}))
    J.run("reading a configuration")

def run_commands(ctx, items):
    """the same through the command line, on a small model; configurations that draw graphs are left out"""
    items = [x for x in items if "graphic" not in x[1] and "nfa" not in x[1]]
    def one(m):
        cmd, text, sig = m
        hsf = "".join(k + "{" + ";".join(v) + "}" for k, v in (("@message", sig["ms"]), ("@lifeline", sig["lf"])) if v)
        with core.Dir(ctx) as d:
            l, e = sig["lf"][0], sig["ms"][0]
            d.write("s.hsf", hsf); d.write("i.hif", f"seq({l} -- {e} -> |, alt({l} -- {e} -> |, o))")
            d.write("t.htf", "{[" + l + "] " + f"{l}!{e}.{l}!{e}.{l}!{e}" + "}"); d.write("c.hcf", text)
            return ctx.impl.cli([cmd, "s.hsf", "i.hif"] + (["t.htf"] if cmd == "analyze" else []) + ["c.hcf"], d.p)
    J = Judge(ctx)
    for (cmd, text, sig), x in zip(items, ctx.impl.pmap(one, items)):
        if x["hang"] or core.sut.panicked(x): ctx.bad("the tool fails on a configuration", dict(command=cmd, text=text, signature=sig, err=x["err"][-400:])); continue
        J.case(cmd, text, sig, dict(out=x["out"][-300:]), ok=int("node count" in x["out"] or "verdict" in x["out"]))
        ctx.count("configurations_run")
    J.run("running the tool with a configuration")
