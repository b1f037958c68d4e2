"""One run of one check: phases of model checking and conformance, verdict, evidence, replay."""
import os, sys, json, time, re, shutil, random
from concurrent.futures import ThreadPoolExecutor
import vplib
from vplib import CheckError, ROOT

class Violation(Exception):
    def __init__(self, info): self.info = info

def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(P\d+) clause=\"([^\"]+)\" (.*)", l.strip())
            if m: out.append(m.groups())
    return out

class Ctx:
    def __init__(self, pid, thorough, seed, budget):
        self.pid, self.thorough, self.seed, self.budget = pid, thorough, seed, budget
        self.work = vplib.Work(pid); self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.exes, self.parts, self.cover = [], {}, {}, {}
        self.mccache = {}
    def elapsed(self): return time.time() - self.t0
    def rng(self, salt): return random.Random(f"{self.seed}/{self.pid}/{salt}")
    def driver(self, name, **kw):
        if name not in self.exes: self.exes[name] = vplib.build_driver(self.work, name, **kw)
        return self.exes[name]
    # -- exhaustive model -----------------------------------------------------------------
    def model(self, name, module, cfg, modules=None, emit=False, timeout=600, extra=()):
        """Exhaustive check of an abstract model; its violation is a defect of the specification, not of the code."""
        r = vplib.tlc(self.work, module, cfg, modules=modules, name=name, timeout=timeout, extra=extra, workers=1 if emit else 8)
        if not r.ok: raise CheckError(f"model {name} violates its own invariants:\n" + r.out[-3000:])
        self.states += r.states; self.transitions += r.transitions
        self.parts["model " + name] = dict(states=r.states, transitions=r.transitions)
        if emit: return [l for l in r.out.splitlines() if l.startswith('"B ')]
    # -- conformance ----------------------------------------------------------------------
    def conform(self, exe, scripts, module="EstTrace", label="traces", timeout=120, env=None, consts="", args=(), runner=None):
        """scripts: list of (name, lines). Runs each through the driver and has TLC check all recorded traces."""
        self._seq = getattr(self, "_seq", 0) + 1
        d = f"run{self._seq}"
        def one(k):
            nm, lines = scripts[k]
            p = self.work.write(f"{d}/{k}.txt", "\n".join(lines) + "\n")
            (runner or vplib.run_driver)(exe, p, self.work.path(d, f"{k}.ndjson"), timeout, env, args)
            return open(self.work.path(d, f"{k}.ndjson"), "rb").read()
        with ThreadPoolExecutor(8) as ex: datas = list(ex.map(one, range(len(scripts))))
        allf = self.work.path(d, "all.ndjson")
        with open(allf, "wb") as f:
            for x in datas: f.write(x)
        nt = sum(x.count(b'{"e":"begin"') for x in datas); ne = sum(x.count(b"\n") for x in datas)
        if nt == 0: raise CheckError("no trace recorded")
        self.traces += nt; self.events += ne
        if len(self.samples) < 3:
            nm, lines = scripts[0]; self.samples.append(dict(family=label, script=[l[:160] for l in lines[:12]], trace_event=datas[0].decode().splitlines()[-1][:300]))
        bad = self.judge(allf, module, consts, label)
        pp = self.parts.setdefault(label, dict(traces=0, events=0)); pp["traces"] += nt; pp["events"] += ne
        if bad:
            # confirm on a second execution of everything
            with ThreadPoolExecutor(8) as ex: datas2 = list(ex.map(one, range(len(scripts))))
            with open(allf, "wb") as f:
                for x in datas2: f.write(x)
            bad2 = self.judge(allf, module, consts, label)
            if not bad2 and "timeout" in json.dumps(bad): raise CheckError("a run timed out once and not again")
            b = bad2 or bad
            b["reproduced"] = bool(bad2); b["family"] = label; b["module"] = module; b["consts"] = consts
            b["driver"] = os.path.basename(exe); b["args"] = list(args)
            for nm, lines in scripts:     # the script part of the failing trace
                seg = self.segment(lines, b.get("trace", ""))
                if seg: b["script"] = seg; break
            b["files"] = {x: open(x).read() for l in b.get("script", []) for x in l.split() if x.startswith(self.work.dir) and os.path.isfile(x)}
            evs = self.tevents(b"".join(datas2 if bad2 else datas), b.get("trace", ""))
            k = b.get("event", 0); b["events"] = [e[:4000] for e in evs[max(0, k - 2):k + 1]]
            if "conflicting" in b["bad"]:     # name the places
                pcs = re.findall(r"\d{6,}", b["bad"]); r = vplib.subprocess.run(["addr2line", "-fsCe", exe] + [hex(int(x) - 1) for x in pcs], capture_output=True, text=True)
                b["places"] = r.stdout.split("\n")
            raise Violation(b)
    def repeat(self, exe, scripts, label, clause, timeout=120):
        """Runs every script twice, in processes whose uninitialised memory differs; TLC compares the recordings."""
        self._seq = getattr(self, "_seq", 0) + 1; d = f"rep{self._seq}"
        def one(kj):
            k, j = kj
            p = self.work.write(f"{d}/{k}.{j}.txt", "\n".join(scripts[k][1]) + "\n")
            vplib.run_driver(exe, p, self.work.path(d, f"{k}.{j}.nd"), timeout, {"MALLOC_PERTURB_": "171" if j == 0 else "85"})
            return open(self.work.path(d, f"{k}.{j}.nd"), "rb").read()
        n = len(scripts)
        with ThreadPoolExecutor(8) as ex: data = list(ex.map(one, [(k, j) for j in (0, 1) for k in range(n)]))
        fs = []
        for j in (0, 1):
            fs.append(self.work.path(d, f"all{j}.ndjson"))
            with open(fs[j], "wb") as f: f.write(b"".join(data[j * n:(j + 1) * n]))
        x = b"".join(data[:n]); nt = x.count(b'{"e":"begin"'); self.traces += nt; self.events += x.count(b"\n")
        self.parts[label] = dict(traces=nt, events=x.count(b"\n"))
        b = self.judge(fs[0], "SameTrace", f' File2 = "{fs[1]}"\n Clause = "{clause}"', label)
        if b:
            b.update(family=label, module="SameTrace", driver=os.path.basename(exe), reproduced=True)
            for nm, lines in scripts:
                seg = self.segment(lines, b.get("trace", ""))
                if seg: b["script"] = seg; break
            raise Violation(b)
    def isolate(self, exe, pairs, label, clause, timeout=120):
        """pairs: (other lines, lines of one trace). Each trace alone in a process, then all of them in one process, each after its other; TLC compares."""
        self._seq = getattr(self, "_seq", 0) + 1; d = f"iso{self._seq}"
        def go(nm, lines):
            p = self.work.write(f"{d}/{nm}.txt", "\n".join(lines) + "\n"); t = self.work.path(d, nm + ".nd")
            vplib.run_driver(exe, p, t, timeout); return open(t, "rb").read()
        with ThreadPoolExecutor(8) as ex:
            alone = list(ex.map(lambda k: go(f"a{k}", pairs[k][1]), range(len(pairs))))
            both = list(ex.map(lambda j: go(f"b{j}", [l for k in range(j, len(pairs), 8) for part in pairs[k] for l in part]), range(min(8, len(pairs)))))
        names = [next(l for l in p[1] if l.startswith("trace ")).split(" ", 1)[1] for p in pairs]; fs = []
        for j, data in enumerate((b"".join(alone), b"".join("\n".join(self.tevents(both[k % 8], names[k])).encode() + b"\n" for k in range(len(pairs))))):
            fs.append(self.work.path(d, f"all{j}.ndjson")); open(fs[j], "wb").write(data)
            if j == 0: self.traces += len(pairs); self.events += data.count(b"\n"); self.parts[label] = dict(traces=len(pairs), events=data.count(b"\n"))
        b = self.judge(fs[0], "SameTrace", f' File2 = "{fs[1]}"\n Clause = "{clause}"', label)
        if b:
            b.update(family=label, module="SameTrace", driver=os.path.basename(exe), reproduced=True, script=[l for p in pairs if any(l == "trace " + b.get("trace", "") for l in p[1]) for l in p[0] + p[1]])
            raise Violation(b)
    def screen(self, exe, scripts, module="EstTrace", timeout=120, limit=60, consts=""):
        """Names of the traces that do not conform, or None when there are too many to tell them apart."""
        self._seq = getattr(self, "_seq", 0) + 1; d = f"scr{self._seq}"
        def one(k):
            p = self.work.write(f"{d}/{k}.txt", "\n".join(scripts[k][1]) + "\n")
            vplib.run_driver(exe, p, self.work.path(d, f"{k}.ndjson"), timeout)
            return open(self.work.path(d, f"{k}.ndjson"), "rb").read()
        with ThreadPoolExecutor(8) as ex: data = b"".join(ex.map(one, range(len(scripts))))
        allf = self.work.path(d, "all.ndjson"); out = set()
        while len(out) <= limit:
            with open(allf, "wb") as f:
                on = True
                for l in data.splitlines(True):
                    if l.startswith(b'{"e":"begin"'): on = json.loads(l)["name"] not in out
                    if on: f.write(l)
            if os.path.getsize(allf) == 0: return out
            b = self.judge(allf, module, consts, "screen")
            if not b: return out
            out.add(b["trace"])
        return None
    def judge(self, allf, module, consts, label):
        cfg = f'SPECIFICATION Spec\nCONSTANTS File = "{allf}"\n Props = {{"{self.pid}"}}\n{consts}\nINVARIANT Conforms\nVIEW View\nCHECK_DEADLOCK FALSE\n'
        r = vplib.tlc(self.work, module, cfg, name=module, timeout=800, extra=["-checkpoint", "0"])
        self.states += r.states; self.transitions += r.transitions
        m = re.search(r'NONCONFORMING@@(.*?)@@(\d+)@@(.*?)@@(.*?)@@', r.out, re.S)
        if not m:
            if r.ok: return None
            raise CheckError("no verdict from TLC:\n" + r.out[-3000:])
        b = dict(trace=m.group(1), event=int(m.group(2)) - 1, op=m.group(3), bad=" ".join(m.group(4).replace(chr(92) + chr(34), chr(34)).split()))
        for p, clause, text in known_findings():
            if p == self.pid and b["bad"] == '{<<"%s", "%s">>}' % (p, clause): raise CheckError("known finding was not separated: " + clause)
        return b
    @staticmethod
    def segment(lines, name):
        out, on = [], False
        for l in lines:
            if l.startswith("trace "): on = l.split(" ", 1)[1] == name
            if on: out.append(l)
        return out
    @staticmethod
    def tevents(data, name):
        out, on = [], False
        for l in data.decode(errors="replace").splitlines():
            if l.startswith('{"e":"begin"'): on = f'"{name}"' in l
            if on: out.append(l)
        return out

def main(pid, thorough, checks):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Ctx(pid, thorough, seed, 600 if thorough else 45)
    spec = checks[pid]; rc = 0; viol = 0
    try:
        rnd = 0
        while True:
            c.round = rnd
            spec["run"](c); rnd += 1
            if not thorough or c.elapsed() > c.budget * rnd / (rnd + 1) and c.elapsed() * (rnd + 1) / rnd > c.budget: break
    except Violation as v:
        os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
        rp = os.path.join(ROOT, "evidence", "replays", f"{pid}.json")
        v.info.update(property=pid, seed=seed, tier="thorough" if thorough else "quick", round=rnd)
        json.dump(v.info, open(rp, "w"), indent=1)
        print(f"{pid}: {v.info.get('family')} trace {v.info.get('trace')} event {v.info.get('event')} ({v.info.get('op')}): {v.info.get('bad')}")
        print(f"VIOLATION property={pid} replay={rp}"); rc = 1; viol = 1
    except CheckError as e:
        print("CHECK ERROR:", e); rc = 2
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    for p, clause, text in known_findings():
        if p == pid and clause in c.cover.get("known", {clause}): print(f"KNOWN-FINDING: property={p} {text}")
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=spec["level"],
              coverage=dict(states=c.states, transitions=c.transitions, traces_validated_against_impl=c.traces, trace_events=c.events,
                            parts=c.parts, samples=c.samples or ["none"], **{k: v for k, v in c.cover.items() if k != "known"}),
              assumptions=spec.get("assumptions", []) + ["recorded executions are those of the classes compiled from /repo with g++ -O1", "double-double matrix primitives of java/vp are correct to 1e-25"],
              wall_s=round(c.elapsed(), 1), violations=viol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    shutil.rmtree(c.work.dir, ignore_errors=True)
    if rc == 0: print(f"{pid}: held on {c.traces} traces ({c.events} events), {c.states} states, {c.elapsed():.0f} s")
    return rc
