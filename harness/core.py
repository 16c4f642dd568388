"""Common part of the checks: bookkeeping of what was explored, violations, known findings, evidence."""
import json, os, random, re, shutil, sys, tempfile, time, traceback
import gen, sut, tlc

VERIF = sut.VERIF
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")

def load_findings(prop):
    """'finding: property=C09 key=<key> <text>' lines of the committed file"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

class Ctx:
    def __init__(self, prop, tier, seed, areas):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.rnd = random.Random(f"{prop}/{seed}/{tier}")
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.validated = 0
        self.samples = []; self.counts = {}; self.notes = []
        self.violations = []; self.known = []
        self.findings = load_findings(prop)
        self.impl = sut.Impl(areas)
        if areas and not self.impl.driver_ok:
            self.notes.append("the cfg(hibou_verif) driver does not compile against this tree; command line binding only")
            print("NOTE driver unavailable:", (self.impl.driver_error or "")[-400:].replace("\n", " | "))

    @property
    def quick(self): return self.tier == "quick"
    def n(self, quick, thorough): return quick if self.quick else thorough
    def elapsed(self): return time.time() - self.t0
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def sample(self, x, most=6):
        if len(self.samples) < most: self.samples.append(x)
    def tlc(self, module, cases, share=1.0, **kw):
        """run TLC on the cases; when the time budget of the check runs out, what was explored until then counts
        (share: the part of the remaining budget this run may use)"""
        if not cases: return tlc.Result()
        kw.pop("timeout", None)
        left = self.n(760, 7200) - self.elapsed()
        r = tlc.run(module, cases, timeout=max(20, int(left * share)), soft=True, **kw)
        if r.timeout:
            self.count("tlc_runs_cut_short")
            n = f"TLC on {module} was stopped after {r.timeout}s with {r.states} states of {len(cases)} cases explored"
            self.notes.append(n); print("NOTE", n)
        self.states += r.states; self.transitions += r.transitions
        self.count("tlc_cases_" + module, len(cases))
        return r
    def tlc_model(self, module, share=0.3):
        """check the specification's own theorems in a module that needs no cases"""
        r = tlc.run(module, timeout=max(30, int((self.n(760, 7200) - self.elapsed()) * share)), soft=True)
        if not r.ok and not r.timeout: raise tlc.TlcError(f"the theorems of {module} fail: " + r.out[-3000:])
        self.states += r.states; self.transitions += r.transitions; self.count("model_" + module, r.states)
        return r
    def valid(self, n=1): self.validated += n

    def bad(self, what, detail, key=None):
        """a violation; key names a listed known finding (a specific input) it may correspond to"""
        if key is not None and key in self.findings:
            if key not in [k for k, _ in self.known]:
                self.known.append((key, self.findings[key]))
                print(f"KNOWN-FINDING: property={self.prop} {self.findings[key]}")
            return
        self.violations.append((what, detail))

    def finish(self):
        self.impl.close()
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, samples=self.samples or ["none"],
                                counts=self.counts),
                  assumptions=["bounds and generators as described in DESIGN.md"] + self.notes,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not self.violations:
            print(f"OK property={self.prop} tier={self.tier} states={self.states} validated={self.validated} wall={ev['wall_s']}s {self.counts}")
            return 0
        rd = os.path.join(EVID, "replays"); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{self.prop}-{self.seed}-{self.tier}.json")
        with open(p, "w") as f: json.dump([dict(what=w, detail=d) for w, d in self.violations[:50]], f, indent=1, default=str)
        for w, d in self.violations[:5]: print("  ", w, json.dumps(d, default=str)[:600])
        print(f"{len(self.violations)} violation(s)")
        print(f"VIOLATION property={self.prop} replay={p}")
        return 1

class Dir:
    """scratch directory of one command line run"""
    def __init__(self, ctx): self.p = tempfile.mkdtemp(prefix="c_", dir=ctx.impl.work)
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.p, ignore_errors=True)
    def write(self, name, txt):
        with open(os.path.join(self.p, name), "w") as f: f.write(txt)
        return name
    def path(self, *a): return os.path.join(self.p, *a)
    def read(self, *a): return open(self.path(*a), encoding="utf-8", errors="replace").read()
    def ls(self, *a):
        d = self.path(*a)
        return sorted(os.listdir(d)) if os.path.isdir(d) else []

def parse_action(s):
    m = re.fullmatch(r"([A-Za-z0-9_]+)([!?])([A-Za-z0-9_]+)", s.strip())
    if not m: raise ValueError("action " + repr(s))
    return (m.group(1), m.group(2), m.group(3))

def parse_trace(s):
    """'a!m.{b?m,c?m}' -> list of lists of (lf,kind,ms) names"""
    s = s.strip()
    if s in ("", "ε"): return []
    out = []
    for part in re.findall(r"\{[^}]*\}|[^.{}]+", s):
        part = part.strip()
        if not part: continue
        if part[0] == "{": out.append([parse_action(x) for x in part[1:-1].split(",") if x.strip()])
        else: out.append([parse_action(part)])
    return out

def parse_htf(text):
    """our own reader of multi-trace files: list of (lifeline names, trace)"""
    body = re.sub(r"//[^\n]*", "", text).strip()
    if not body.startswith("{"): raise ValueError("not a multi-trace")
    inner = body[body.index("{") + 1: body.rindex("}")]
    comps = []
    for c in re.split(r";", inner):
        c = c.strip()
        if not c: continue
        m = re.match(r"\[([^\]]*)\](.*)", c, re.S)
        comps.append(([x.strip() for x in m.group(1).split(",") if x.strip()], parse_trace(m.group(2))))
    return comps

def ids(tr, lf=gen.LF, ms=gen.MS):
    return [[[lf.index(a), k, ms.index(m)] for a, k, m in ma] for ma in tr]

def verdict_of(r):
    m = re.search(r"verdict\s*:\s*'([^']*)'", r["out"])
    return m.group(1) if m else None
