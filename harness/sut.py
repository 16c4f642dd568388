"""Building /repo's working tree and talking to it: the command line tool and the cfg(hibou_verif) driver."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HIBOU_REPO", "/repo")
BUILD = os.environ.get("HIBOU_BUILD", os.path.join(VERIF, ".build"))
DRIVER = os.path.join(VERIF, "driver")

ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
           CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUST_BACKTRACE="0")

class BuildError(Exception): pass

def _seed_target():
    """reuse the compiled dependencies of /repo/target when they are there"""
    tgt = ENV["CARGO_TARGET_DIR"]
    if os.path.isdir(os.path.join(tgt, "debug", "deps")): return
    src = os.path.join(REPO, "target", "debug")
    os.makedirs(os.path.join(tgt, "debug"), exist_ok=True)
    for d in ("deps", "build", ".fingerprint"):
        if os.path.isdir(os.path.join(src, d)):
            subprocess.run(["cp", "-a", os.path.join(src, d), os.path.join(tgt, "debug", d)], check=False)

def _cargo(args, env, timeout=800):
    # cargo compares time stamps; the final crate is always rebuilt so that nothing stale is checked
    fp = os.path.join(ENV["CARGO_TARGET_DIR"], "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("hibou_label-"): shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
    p = subprocess.run(["cargo", *args], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")

class Impl:
    def __init__(self, areas=()):
        """build the tool; with areas, the driver parts driver/<area>.rs are compiled in"""
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="hibou_run_")
        self.driver_ok = False
        self.driver_error = None
        self.areas = list(areas)
        _seed_target()
        out = os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "hibou_label")
        self.bin = os.path.join(self.work, "hibou_label")
        t0 = time.time()
        with open(os.path.join(BUILD, "lock"), "w") as lk:   # one build at a time
            fcntl.flock(lk, fcntl.LOCK_EX)
            self._build(areas, out)
        self.build_s = time.time() - t0

    def _build(self, areas, out):
        if areas:
            src = os.path.join(self.work, "driver.rs")
            ops = []
            with open(src, "w") as f:
                for a in ["base", *areas]:
                    txt = open(os.path.join(DRIVER, a + ".rs")).read().replace("#![allow(warnings)]", "")
                    ops += re.findall(r"pub fn op_(\w+)\(", txt)
                    f.write(txt + "\n")
                f.write("fn dispatch(op: &str, q: &J) -> J { match op {\n")
                for x in ops: f.write(f'  "{x}" => op_{x}(q),\n')
                f.write('  _ => panic!("driver: unknown op") } }\n')
            rc, log = _cargo(["rustc", "--bin", "hibou_label", "--offline", "--", "--cfg", "hibou_verif", "-Awarnings"],
                             dict(ENV, HIBOU_VERIF_DRIVER=src))
            if rc == 0: self.driver_ok = True; shutil.copy2(out, self.bin)
            else: self.driver_error = log[-4000:]
        if not self.driver_ok:
            rc, log = _cargo(["build", "--bin", "hibou_label", "--offline"], ENV)
            if rc != 0: raise BuildError(log[-6000:])
            shutil.copy2(out, self.bin)

    def close(self): shutil.rmtree(self.work, ignore_errors=True)

    # -------------------------------------------------------------- driver
    def drive(self, reqs, timeout=120, jobs=8):
        """one answer per request; {"panic":..} when it panicked, {"crash":..} when the process died,
        {"hang":..} when it did not answer in time"""
        n = len(reqs)
        k = max(1, min(jobs, (n + 19) // 20))
        chunks = [list(range(i, n, k)) for i in range(k)]
        res = [None] * n
        def work(ci):
            idx = chunks[ci]
            ip = os.path.join(self.work, f"in{ci}_{id(reqs)}.ndjson"); op = ip + ".out"
            with open(ip, "w") as f:
                for i in idx: f.write(json.dumps(reqs[i]) + "\n")
            if os.path.exists(op): os.unlink(op)
            done = 0; answers = []
            while done < len(idx):
                env = dict(ENV, HIBOU_VERIF_IN=ip, HIBOU_VERIF_OUT=op, HIBOU_VERIF_SKIP=str(done))
                hang = False
                try: subprocess.run([self.bin], env=env, cwd=self.work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
                except subprocess.TimeoutExpired: hang = True
                answers = []
                if os.path.exists(op):
                    for l in open(op):
                        if l.endswith("\n"): answers.append(json.loads(l))
                if len(answers) < len(idx):
                    answers.append({"hang": True} if hang else {"crash": True})
                    with open(op, "w") as f:
                        for a in answers: f.write(json.dumps(a) + "\n")
                done = len(answers)
            for i, a in zip(idx, answers): res[i] = a
            os.unlink(ip); os.unlink(op)
        with ThreadPoolExecutor(k) as ex: list(ex.map(work, range(k)))
        return res

    # -------------------------------------------------------------- command line
    def cli(self, args, cwd, timeout=20, inp=None, env={}):
        try:
            p = subprocess.run([self.bin, *args], cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp)
        except subprocess.TimeoutExpired:
            return {"hang": True, "rc": None, "out": "", "err": ""}
        return {"hang": False, "rc": p.returncode, "out": p.stdout.decode("utf-8", "replace"), "err": p.stderr.decode("utf-8", "replace")}

    def pmap(self, fn, items, jobs=8):
        with ThreadPoolExecutor(jobs) as ex: return list(ex.map(fn, items))

def panicked(r):
    return r["rc"] not in (0, 1) or "panicked at" in r["err"] or "panicked at" in r["out"]
