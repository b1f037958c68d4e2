"""Building blocks of the checks: compile /repo, run drivers, run TLC, report."""
import os, sys, subprocess, glob, json, struct, random, hashlib, shutil, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VP_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CXX = ["g++", "-std=c++17", "-O1", "-w", "-I", f"{REPO}/include", "-I", "/usr/include/eigen3", "-I", f"{ROOT}/harness"]

class CheckError(Exception):
    """The check itself could not be carried out (never a verdict)."""

def hx(d):
    u = struct.unpack(">Q", struct.pack(">d", d))[0]
    return "." if u == 0 else "%016x" % u
def num(d): return "~:" + hx(float(d))
def vec(v): return "~%dx1:" % len(v) + "".join(hx(float(x)) for x in v)
def fx(d): return float(d).hex()
def unhex(s):
    """Matrix literal back to nested lists (for reports)."""
    k = s.index(":"); r = c = 1
    if k > 1: r, c = map(int, s[1:k].split("x"))
    out, p = [], k + 1
    for _ in range(r * c):
        if s[p] == ".": out.append(0.0); p += 1
        else: out.append(struct.unpack(">d", bytes.fromhex(s[p:p + 16]))[0]); p += 16
    return [out[i * c:(i + 1) * c] for i in range(r)]

class Work:
    """Scratch directory of one check run; removed at exit unless kept for a replay."""
    def __init__(self, pid):
        self.pid = pid
        base = os.path.join(ROOT, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = os.path.join(base, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
    def path(self, *a): return os.path.join(self.dir, *a)
    def write(self, name, text):
        p = self.path(name); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text); return p

def lib_sources(kin=True):
    src = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    if kin != "all":   # generated kinematics: only what the kinematics class can use
        src = [s for s in src if not re.search(r"/robots/mini_cheetah/(?!p_|Jp_)", s)]
        if kin is False: src = [s for s in src if "/kinematics/" not in s]
    return src

def compile_all(work, sources, extra=(), tag="o", jobs=8, opt=None):
    """Compile every source in parallel; returns the object list. A compile error is a check error."""
    od = work.path(tag); os.makedirs(od, exist_ok=True)
    cache = os.environ.get("VP_OBJCACHE")
    def one(s):
        o = os.path.join(od, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, "/")) + ".o")
        cmd = CXX + list(extra) + (["-O0"] if opt == 0 else []) + ["-c", s, "-o", o]
        if cache:
            pre = subprocess.run(CXX + list(extra) + ["-E", s], capture_output=True)
            key = hashlib.sha1(pre.stdout + " ".join(map(str, cmd[:-3])).encode()).hexdigest()
            co = os.path.join(cache, key + ".o")
            if os.path.exists(co): shutil.copy(co, o); return o, 0, ""
        r = subprocess.run(cmd, capture_output=True, text=True)
        if cache and r.returncode == 0: os.makedirs(cache, exist_ok=True); shutil.copy(o, co)
        return o, r.returncode, r.stderr
    def weight(s): return 0 if "robots" in s else -os.path.getsize(s)
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, sorted(sources, key=weight)))
    bad = [(o, e) for o, rc, e in res if rc]
    if bad: raise CheckError("compilation failed: " + bad[0][0] + "\n" + bad[0][1][-3000:])
    return [o for o, _, _ in res]

def link(work, objs, out, libs=("-lyaml-cpp", "-lpthread")):
    exe = work.path(out)
    r = subprocess.run(["g++", "-o", exe] + objs + list(libs), capture_output=True, text=True)
    if r.returncode: raise CheckError("link failed\n" + r.stderr[-3000:])
    return exe

def build_driver(work, driver, kin=True, extra_src=(), extra=(), libs=("-lyaml-cpp", "-lpthread"), only=None):
    src = lib_sources(kin) if only is None else [s for s in lib_sources("all") if re.search(only, s)]
    objs = compile_all(work, src + [os.path.join(ROOT, "harness", driver)] + list(extra_src), extra)
    return link(work, objs, driver.replace(".cpp", ""), libs)

_jc = None
def java_classes(work):
    global _jc
    if _jc is None:
        d = work.path("jc"); os.makedirs(d, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", d] + glob.glob(f"{ROOT}/java/vp/*.java"), capture_output=True, text=True)
        if r.returncode: raise CheckError("javac failed\n" + r.stderr[-2000:])
        _jc = d
    return _jc

def run_driver(exe, script, trace, timeout=120, env=None, args=()):
    """Runs a driver over a script file. Abnormal ends become a final 'crash' event of the trace."""
    e = dict(os.environ); e.update(env or {}); e.setdefault("MALLOC_PERTURB_", "171")
    with open(trace, "wb") as f:
        p = subprocess.Popen([exe, script] + list(args), stdout=f, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=e, cwd=os.path.dirname(trace))
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "timeout"
    data = open(trace, "rb").read()
    if data and not data.endswith(b"\n"): data = data[:data.rfind(b"\n") + 1]
    ended = data.rstrip().endswith(b'{"e":"end"}')
    if rc == 0 and ended:
        data = data[:data.rstrip().rfind(b"\n") + 1]
        open(trace, "wb").write(data); return None
    if rc in (3, 4): raise CheckError(f"driver rejected its script (rc {rc})")
    why = "timeout" if rc == "timeout" else f"exit {rc}"
    with open(trace, "wb") as f:
        f.write(data + json.dumps({"e": "crash", "why": why}).encode() + b"\n")
    return why

class TLCResult: pass

def tlc(work, module, cfg, consts=None, timeout=600, workers=8, extra=(), modules=None, name=None, heap="6g"):
    """Runs TLC on spec/<module>.tla with the given cfg text. Returns (ok, output, info)."""
    name = name or module
    d = work.path("tlc_" + name); os.makedirs(d, exist_ok=True)
    for f in glob.glob(f"{ROOT}/spec/*.tla"): shutil.copy(f, d)
    for m, text in (modules or {}).items(): open(os.path.join(d, m + ".tla"), "w").write(text)
    c = os.path.join(d, name + ".cfg"); open(c, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dtlc2.overrides.TLCOverrides=vp.Ov:tlc2.overrides.TLCOverrides",
           "-cp", java_classes(work) + ":" + CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-config", c] + list(extra) + [os.path.join(d, module + ".tla")]
    t0 = time.time()
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired: raise CheckError(f"TLC timed out on {name}")
    res = TLCResult(); res.out = r.stdout + r.stderr; res.rc = r.returncode; res.wall = time.time() - t0
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.out)
    res.states = int(m.group(2).replace(",", "")) if m else 0
    res.transitions = int(m.group(1).replace(",", "")) if m else 0
    res.ok = r.returncode == 0
    res.violated = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Property (\w+) is violated|Temporal property (\w+) was violated|Deadlock reached", res.out)
    if not res.ok and not res.violated:
        raise CheckError(f"TLC failed on {name} (rc {r.returncode}):\n" + res.out[-6000:])
    return res
