"""Running the slicing and mutating commands; the files they write become histories for Conf_Mutation."""
import os, core

LF = ["a", "b", "c", "d1"]; MS = ["m", "n", "msg"]

class Model:
    """a signature of nl lifelines and nm messages"""
    def __init__(self, nl, nm): self.lf = LF[:nl]; self.ms = MS[:nm]
    def hsf(self): return ("@message{" + ";".join(self.ms) + "}\n" if self.ms else "") + ("@lifeline{" + ";".join(self.lf) + "}\n" if self.lf else "")

def random_mu(r, M, longest=4, distinct=False, multi=0.15, comps=None):
    """components with their lifelines (all of them, once) and traces; perhaps one without lifelines"""
    idx = list(range(len(M.lf))); r.shuffle(idx)
    if not idx: return []
    n = comps or r.choice([1, 2, 2, 3, 3]); parts = [[] for _ in range(min(n, len(idx)))]
    for i, x in enumerate(idx): (parts[i] if i < len(parts) else r.choice(parts)).append(x)
    out = []
    for p in parts:
        tr = []
        for _ in range(r.choice(range(longest + 1)) if M.ms else 0):
            ma = sorted({(r.choice(p), r.choice("!?"), r.randrange(len(M.ms))) for _ in range(r.choice([2, 3]) if r.random() < multi else 1)})
            ma = [list(x) for x in ma]
            if not (distinct and ma in tr): tr.append(ma)
        out.append(dict(l=sorted(p), t=tr))
    if r.random() < 0.08: out.append(dict(l=[], t=[]))
    return out

def act(M, a): return f"{M.lf[a[0]]}{a[1]}{M.ms[a[2]]}"
def text(M, mu):
    ma = lambda x: act(M, x[0]) if len(x) == 1 else "{" + ",".join(act(M, a) for a in x) + "}"
    return "{" + ";\n".join("[" + (",".join(M.lf[i] for i in k["l"]) or "#any") + "] " + ".".join(ma(x) for x in k["t"]) for k in mu) + "}"
def parse(M, txt):
    return [dict(l=sorted(M.lf.index(x) for x in ls if x != "#any"), t=[sorted([M.lf.index(a), k, M.ms.index(m)] for a, k, m in ma) for ma in tr]) for ls, tr in core.parse_htf(txt)]

class Runner:
    """the commands, in one scratch directory; every failure is reported to the check"""
    def __init__(self, ctx, d, M): self.ctx = ctx; self.d = d; self.M = M; self.k = 0; d.write("s.hsf", M.hsf()); self.problems = []
    def trouble(self, what, args, x, mu): self.problems.append((what, dict(signature=self.M.hsf(), command=args, multitrace=text(self.M, mu), out=x["out"][-300:], err=x["err"][-300:])))
    def _run(self, args, mu):
        x = self.ctx.impl.cli(args, self.d.p)
        if x["hang"] or core.sut.panicked(x): self.trouble("the command fails", args, x, mu); return None
        return x
    def start(self, mu, name=None):
        self.k += 1; n = name or f"t{self.k}"
        self.d.write(n + ".htf", text(self.M, mu)); return n
    def slice(self, r, mu, kind, num, wide, named=True, order=None):
        """-> list of multi-traces written (None after a failure)"""
        n = self.start(mu); f = f"out{self.k}"; pre = r.choice(["", "p_", "w"]) if named else ""
        args = ["slice", "s.hsf", n + ".htf"]
        if kind != "slice" or r.random() < 0.5: args += ["-k", kind]
        if num is not None: args += ["-r", str(num)] + (["-w"] if wide else [])
        if named: args += ["-p", f] + (["-n", pre] if pre else [])
        else: f = f"{n}_slices"
        before = set(self.d.ls())
        if self._run(args, mu) is None: return None
        files = self.d.ls(f)
        extra = set(self.d.ls()) - before - {f}
        if extra or any(not (x.startswith(pre + "s") and x.endswith(".htf")) for x in files):
            self.problems.append(("unexpected files", dict(command=args, files=files[:20], others=sorted(extra)))); return None
        return self.read([os.path.join(f, x) for x in files], args, mu)
    def read(self, files, args, mu):
        out = []
        for x in files:
            t = self.d.read(x)
            try: out.append(parse(self.M, t))
            except (ValueError, AttributeError) as e:
                self.problems.append(("what was written is not a multi-trace over the signature: " + str(e), dict(command=args, multitrace=text(self.M, mu), written=t))); return None
        return out
    def mutate(self, r, mu, op, mx, one=False, end=False, with_=None, named=None):
        cmd = dict(remove="mutate_remove_actions", noise="mutate_insert_noise", swap="mutate_swap_actions", exchange="mutate_swap_components")[op]
        tail = dict(remove="_remove_actions_mutant", noise="_insert_noise_mutant", swap="_swap_act_mutant", exchange="_swap_comp_mutant")[op]
        n = self.start(mu); args = [cmd, "s.hsf", n + ".htf"]; src = [n]
        if op == "exchange": src.append(self.start(with_)); args.append(src[1] + ".htf")
        named = r.random() < 0.6 if named is None else named
        name = n + tail
        if named: name = f"mu{self.k}"; args += ["-n", name]
        folder = f"out{self.k}" if r.random() < 0.5 else None
        if folder: args += ["-p", folder]
        if mx != 1 or r.random() < 0.5: args += ["-m", str(mx)]
        if one: args.append("-u")
        if end: args.append("-e")
        before = {x: self.d.read(x + ".htf") for x in src}; names = set(self.d.ls())
        x = self._run(args, mu)
        if x is None: return None
        if any(self.d.read(y + ".htf") != t for y, t in before.items()): self.trouble("the mutated file itself is changed", args, x, mu); return None
        want = os.path.join(folder, name + ".htf") if folder else name + ".htf"
        got = [os.path.join(folder, y) for y in self.d.ls(folder)] if folder else [y for y in self.d.ls() if y not in names]
        if got != [want]: self.trouble(f"written {got}, expected {want}", args, x, mu); return None
        res = self.read([want], args, mu)
        return res and res[0] if res is not None else None

class Judge:
    def __init__(self, ctx): self.ctx = ctx; self.cases = []; self.info = {}
    def case(self, kind, M, start, inf, **kw):
        i = len(self.cases); self.cases.append(dict(id=i, kind=kind, nms=len(M.ms), start=start, **kw)); self.info[i] = dict(signature=M.hsf(), multitrace=text(M, start), **inf)
    def run(self, what):
        r = self.ctx.tlc("Conf_Mutation", self.cases)
        for b in r.tagged.get("BAD", []):
            i = dict(self.info[b[0]]); st = self.cases[b[0]].get("steps")
            if st: i["failing_step"] = st[b[2] - 1]; i["steps_before"] = st[:b[2] - 1]
            self.ctx.bad(f"{what}: {b[1]}", i)
        self.ctx.valid(len(self.cases))
        for i in range(0, len(self.cases), max(1, len(self.cases) // 4)): self.ctx.sample(self.info[i])
        self.cases = []; self.info = {}
