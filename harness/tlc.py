"""Running TLC on the specification modules of /verif/spec."""
import json, os, re, subprocess, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

ENOUGH_S, ENOUGH = 120, 40   # a run that reported this many violations is not carried on after this many seconds

class TlcError(Exception): pass

class Result:
    def __init__(self): self.states = 0; self.transitions = 0; self.tagged = {}; self.out = ""; self.ok = False; self.trace = None; self.timeout = None

def parse_value(s):
    """parse a printed TLA+ value made of tuples, sets, strings, integers and booleans"""
    pos = 0
    def ws():
        nonlocal pos
        while pos < len(s) and s[pos].isspace(): pos += 1
    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2; out = []
            ws()
            while not s.startswith(">>", pos):
                out.append(val()); ws()
                if s.startswith(",", pos): pos += 1
                ws()
            pos += 2
            return out
        if s[pos] == "{":
            pos += 1; out = []
            ws()
            while s[pos] != "}":
                out.append(val()); ws()
                if s[pos] == ",": pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == '"':
            e = pos + 1; buf = ""
            while s[e] != '"':
                if s[e] == "\\": e += 1
                buf += s[e]; e += 1
            pos = e + 1
            return buf
        m = re.compile(r"-?\d+|TRUE|FALSE|[A-Za-z_]\w*").match(s, pos)
        pos = m.end()
        g = m.group()
        return g == "TRUE" if g in ("TRUE", "FALSE") else (int(g) if re.fullmatch(r"-?\d+", g) else g)
    return val()

def extract_tagged(out, tag):
    """every printed tuple <<"TAG", ...>> (possibly spread over several lines)"""
    res = []
    start = 0
    needle = re.compile(r'<<\s*"' + tag + '"')
    while True:
        m = needle.search(out, start)
        if not m: return res
        i = m.start(); depth = 0; j = i; instr = False
        while j < len(out):
            if out[j] == '"': instr = not instr
            elif not instr:
                if out.startswith("<<", j): depth += 1; j += 2; continue
                if out.startswith(">>", j):
                    depth -= 1; j += 2
                    if depth == 0: break
                    continue
            j += 1
        try: res.append(parse_value(out[i:j])[1:])
        except Exception: pass
        start = j

def run(module, cases=None, cfg=None, env=None, timeout=600, workers=8, tags=("BAD", "SKIP"), heap="6g", extra=(), keep_out=False, stack="64m", soft=False):
    """Run TLC on spec/<module>.tla.  cases: list of dicts written as ndjson to $CASES."""
    wd = tempfile.mkdtemp(prefix="hibou_tlc_")
    try:
        e = dict(os.environ)
        if cases is not None and os.environ.get("HIBOU_DUMP"):
            with open(os.path.join(os.environ["HIBOU_DUMP"], f"{module}-{len(os.listdir(os.environ['HIBOU_DUMP']))}.ndjson"), "w") as f:
                for c in cases: f.write(json.dumps(c) + "\n")
        if cases is not None:
            cf = os.path.join(wd, "cases.ndjson")
            with open(cf, "w") as f:
                for c in cases: f.write(json.dumps(c) + "\n")
            e["CASES"] = cf
        if env: e.update(env)
        cfgp = os.path.join(SPEC, (cfg or module) + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE", "-config", cfgp, *extra,
               os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        outp = os.path.join(wd, "out")
        def text(): return open(outp, "rb").read().decode("utf-8", "replace")
        with open(outp, "wb") as of:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=of, stderr=subprocess.STDOUT)
            cut = None
            while True:
                try: p.wait(timeout=min(5, max(0.1, timeout - (time.time() - t0)))); break
                except subprocess.TimeoutExpired: pass
                el = time.time() - t0
                # enough has been reported already, or the time is over
                if el >= timeout or (el > ENOUGH_S and len(re.findall(r'<<\s*"BAD"', text())) >= ENOUGH):
                    cut = int(el); p.kill(); p.wait(); break
        if cut is not None:
            # what was reported before the time ran out still counts
            r = Result(); r.out = text(); r.violated = None
            for t in tags: r.tagged[t] = extract_tagged(r.out, t)
            m = re.findall(r"Progress\(\d+\)[^:]*: ([\d,]+) states generated[^,]*, ([\d,]+) distinct states", r.out)
            if m: r.transitions, r.states = (int(x.replace(",", "")) for x in m[-1])
            r.timeout = cut
            if r.tagged.get("BAD") or soft: return r
            raise TlcError(f"TLC on {module} exceeded {timeout}s")
        out = text()
        r = Result(); r.out = out; r.wall = time.time() - t0; r.rc = p.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m: r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        for t in tags: r.tagged[t] = extract_tagged(out, t)
        r.ok = p.returncode == 0 and "No error has been found" in out
        r.violated = re.search(r"Invariant (\w+) is violated", out)
        if not r.ok and not r.violated:
            raise TlcError(f"TLC on {module} failed (rc={p.returncode}):\n" + out[-6000:])
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)
