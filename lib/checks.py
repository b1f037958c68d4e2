"""The checks: for every property, the phases that decide it."""
import gen_est, gen_filter, gen_pure, json, os, re, subprocess
from gen_est import Script
import vplib
from concurrent.futures import ThreadPoolExecutor

NOT_APPLICABLE = {}
CHECKS = {}
def check(pid, technique, note, level="model_checking", assumptions=()):
    def deco(f):
        CHECKS[pid] = dict(run=f, technique=technique, note=note, level=level, assumptions=list(assumptions)); return f
    return deco

# ---- estimator ---------------------------------------------------------------------------------
MCCFG = '''SPECIFICATION Spec
CONSTANTS MaxOps = {ops}
 MaxQ = {q}
 Kinds <- VKinds
 ImuSteps <- VImu
 VelOffs <- VVel
 LegOffs <- VLeg
 NBias = {nb}
 Rich = {rich}
 Emit = {emit}
INVARIANT Inv
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE
'''
MCMOD = '''---- MODULE EstimatorMCx ----
EXTENDS EstimatorMC
VKinds == <<{kinds}>>
VImu == {imu}
VVel == {vel}
VLeg == {leg}
====
'''
def parse_ops(line):
    s = line[3:-1] if line.endswith('"') else line[3:]
    s = s.replace('\\"', '"').replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(s)

def est_model(c, kinds, ops, q=2, nb=0, rich=False, imu="{0, 1, 3}", vel="{-5, -3, -2, -1, 0, 1}", leg="{-4, -2, -1, 0, 1, 3}", want=400, last=None, salt=""):
    """Model-check the control layer exhaustively and replay its behaviours on the real estimator."""
    name = f"EstimatorMC_{'_'.join(kinds) or 'none'}_{ops}_{nb}" + ("_rich" if rich else "")
    key = name + imu + vel + leg
    if key not in c.mccache:
        mod = MCMOD.format(kinds=", ".join('"%s"' % k for k in kinds), imu=imu, vel=vel, leg=leg)
        b = c.model(name, "EstimatorMCx", MCCFG.format(ops=ops, q=q, nb=nb, rich="TRUE" if rich else "FALSE", emit="TRUE"), modules={"EstimatorMCx": mod}, emit=True, extra=["-checkpoint", "0"])
        seqs = sorted({json.dumps(parse_ops(x)) for x in b})
        c.mccache[key] = [json.loads(x) for x in seqs]
    seqs = c.mccache[key]
    # a behaviour that is a prefix of another needs no replay of its own; calls matter more than arrivals at the end
    pre = {json.dumps(x[:-1]) for x in seqs}
    maxi = [x for x in seqs if json.dumps(x) not in pre and x[-1][0] in (last or ("run", "clear", "init", "bias"))]
    r = c.rng(name + salt + str(c.round)); n = want if not c.thorough else max(want * 10, 5000)
    pick = maxi if len(maxi) <= n else r.sample(maxi, n)
    c.cover.setdefault("behaviours_emitted", 0); c.cover.setdefault("behaviours_replayed", 0)
    c.cover["behaviours_emitted"] += len(maxi); c.cover["behaviours_replayed"] += len(pick)
    scripts = []
    for k in range(8):
        s = Script(c.work, r.getrandbits(60), f"m{len(c.parts)}_{k}_"); part = pick[k::8]
        for ops_ in part: gen_est.scen_replay(s, ops_, kinds, nb)
        if part: scripts.append(("mc", s.lines))
    return scripts

def fam(c, fn, count, tag, S=Script, **kw):
    """n seeded scenarios of one family, spread over eight scripts."""
    r = c.rng(tag + str(c.round)); out = []
    n = count * 6 if c.thorough else count
    for k in range(8):
        s = S(c.work, r.getrandbits(60), f"{tag}{k}_")
        for j in range(k, n, 8):
            a = {x: (y(s) if callable(y) else y) for x, y in kw.items()}; fn(s, **a)
        if s.lines: out.append((tag, s.lines))
    return out
def scale(c, fn, count, tag, S=Script, n=None, **kw):
    """Long backlogs and histories: more waiting than a small bound on a buffer would hold (1100 to 2200; up to 4500 when thorough)."""
    r = c.rng(tag + "z" + str(c.round)); out = []
    for k in range(count):
        m = n or (r.randint(1100, 1500) if k or not c.round else 4500 if c.round == 1 else 2200) if c.thorough else (n or (r.randint(1050, 1300) if k else 2200))
        s = S(c.work, r.getrandbits(60), f"{tag}z{k}_"); a = {x: (y(s) if callable(y) else y) for x, y in kw.items()}
        s.turn = k; fn(s, n=m, **a); out.append((tag, s.lines))
    return out
def escale(c, count, *parts): return ("long backlogs", [x for p in parts for x in scale(c, gen_est.scen_scale, count, "L" + p.replace(",", ""), parts=p.split(","))])
def probe(c, exe):
    cnt = [0]
    def go(lines):
        cnt[0] += 1; p = c.work.write(f"probe/{cnt[0]}.txt", "\n".join(lines) + "\n"); t = c.work.path("probe", f"{cnt[0]}.nd")
        vplib.run_driver(exe, p, t); return [json.loads(l) for l in open(t)]
    return go
def est(c, *fams):
    exe = c.driver("drv_est.cpp")
    for label, scripts in fams: c.conform(exe, scripts, label=label)
    
CH = lambda p: (lambda s: s.chance(p))
EST_NOTE = "TLC checks the control model exhaustively within small bounds; its behaviours and seeded random histories run on the real classes, and TLC checks every recorded event against the specification."
T_EST = "TLA+ specification (TLC): exhaustive control model, behaviours replayed on the code, recorded traces checked event by event"

@check("P01", T_EST, EST_NOTE)
def p01(c):
    est(c, ("mc: calibrate, initialise, clear", est_model(c, ["vel"], 7 if not c.thorough else 8, nb=2, imu="{1}", vel="{-1}", want=400)),
           ("random histories", fam(c, gen_est.scen_control, 60, "c", n_ops=lambda s: s.rng.randint(10, 60), calib=CH(.4), ori=CH(.3), views=CH(.1))),
           ("initialisations", fam(c, gen_est.scen_init, 60, "i")),
           escale(c, 2, "calib", "init,vel,leg", "clear,imu,vel", "imu,vel"))
@check("P02", T_EST, EST_NOTE)
def p02(c):
    est(c, ("mc: propagation", est_model(c, ["vel"], 8 if not c.thorough else 9, vel="{-1, 1}", imu="{0, 1, 3}", want=400)),
           ("random histories", fam(c, gen_est.scen_control, 80, "c", n_ops=lambda s: s.rng.randint(20, 80), calib=CH(.2))),
           ("single propagations", fam(c, gen_est.scen_prop, 16, "p", n=20)),
           escale(c, 3, "imu", "imu,vel,leg,stale", "imu,clear"))
@check("P03", T_EST, EST_NOTE)
def p03(c):
    est(c, ("mc: velocity gate", est_model(c, ["vel"], 8 if not c.thorough else 9, imu="{1, 3}", want=600)),
           ("corrections alone", fam(c, gen_est.scen_gate, 64, "a", kind="vel")),
           ("random histories", fam(c, gen_est.scen_control, 80, "c", n_ops=lambda s: s.rng.randint(20, 80), vels=lambda s: s.pick(1, 1, 2), legs=lambda s: s.pick(0, 0, 1))),
           escale(c, 3, "vel", "imu,vel", "imu,vel,stale"))
@check("P04", T_EST, EST_NOTE)
def p04(c):
    est(c, ("mc: leg gate", est_model(c, ["leg"], 8 if not c.thorough else 9, imu="{1, 3}", want=600)),
           ("corrections alone", fam(c, gen_est.scen_gate, 64, "a", kind="leg")),
           ("random histories", fam(c, gen_est.scen_control, 80, "c", n_ops=lambda s: s.rng.randint(20, 80), legs=lambda s: s.pick(1, 1, 2), vels=lambda s: s.pick(0, 0, 1))),
           escale(c, 3, "leg", "imu,leg", "imu,leg,stale"))
@check("P05", T_EST, EST_NOTE)
def p05(c):
    est(c, ("mc: contact sets", est_model(c, ["leg"], 8 if not c.thorough else 9, rich=True, imu="{1}", leg="{0}", q=2, want=500)),
           ("contact changes", fam(c, gen_est.scen_leg, 64, "l", n=lambda s: s.rng.randint(10, 40))),
           ("random histories", fam(c, gen_est.scen_control, 48, "c", n_ops=lambda s: s.rng.randint(20, 80), legs=lambda s: s.pick(1, 2))),
           escale(c, 4, "imu,leg", "leg"))
@check("P06", T_EST, EST_NOTE)
def p06(c):
    est(c, ("mc: publication", est_model(c, ["vel", "leg"], 6, imu="{1}", vel="{-3, -1, 1}", leg="{-2, 0, 2}", want=400)),
           ("random histories", fam(c, gen_est.scen_control, 80, "c", n_ops=lambda s: s.rng.randint(20, 80), calib=CH(.3))),
           escale(c, 3, "imu", "vel", "leg"))
@check("P07", T_EST, EST_NOTE)
def p07(c):
    est(c, ("mc: clear", est_model(c, ["vel"], 8, nb=1, imu="{1}", vel="{-1}", want=300)),
           ("clear and fresh twins", fam(c, gen_est.scen_clear_twin, 80, "t")),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=lambda s: s.rng.randint(30, 80), calib=CH(.3))),
           escale(c, 4, "clear,vel,leg", "clear,imu,vel"))
@check("P08", T_EST, EST_NOTE)
def p08(c):
    est(c, ("single propagations", fam(c, gen_est.scen_prop, 160, "p", n=40)),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=40)))
@check("P09", T_EST, EST_NOTE)
def p09(c):
    est(c, ("single propagations", fam(c, gen_est.scen_prop, 160, "p", n=40)),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=40)))
@check("P10", T_EST, EST_NOTE)
def p10(c):
    est(c, ("velocity corrections", fam(c, gen_est.scen_vel, 160, "v", n=40)),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=40, vels=1)))
@check("P11", T_EST, EST_NOTE)
def p11(c):
    est(c, ("leg corrections", fam(c, gen_est.scen_leg, 160, "l", n=30)),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=40, legs=1)))
@check("P30", T_EST, "Generic observations with random Jacobians and noises on random states; TLC checks the mean and covariance after every update against the specification.")
def p30(c):
    exe = c.driver("drv_est.cpp", extra=["-DVP_UPD"])
    c.conform(exe, fam(c, gen_est.scen_upd, 160, "u", n=40), label="generic updates")
@check("P12", T_EST, EST_NOTE)
def p12(c):
    est(c, ("long runs", fam(c, gen_est.scen_long, 24, "g", n=400, legs=CH(.8))),
           ("random histories", fam(c, gen_est.scen_control, 40, "c", n_ops=lambda s: s.rng.randint(20, 80), views=True)))
@check("P13", T_EST, EST_NOTE)
def p13(c):
    est(c, ("mc: calibration", est_model(c, [], 7, nb=3, imu="{0, 1}", q=3, want=200)),
           ("calibrations", fam(c, gen_est.scen_bias, 240, "b")),
           ("estimator calibrations", fam(c, gen_est.scen_init, 60, "i")),
           ("random histories", fam(c, gen_est.scen_control, 32, "c", n_ops=15, calib=True, ori=CH(.4))),
           escale(c, 6, "calib"))
@check("P14", T_EST, EST_NOTE)
def p14(c):
    est(c, ("mc: initialisation", est_model(c, ["vel"], 6, q=3, nb=0, imu="{1}", vel="{-1, 0, 1}", want=300, last=("init",))),
           ("initialisations", fam(c, gen_est.scen_init, 240, "i")),
           ("initialisers alone", fam(c, gen_est.scen_cinit, 120, "ci")),
           ("random histories", fam(c, gen_est.scen_control, 40, "c", n_ops=15, calib=CH(.3), ori=CH(.5))),
           escale(c, 4, "init,vel,leg", "init,calib,vel"))

def cfg_check(c, exe, group, module, n, tag, consts="", S=Script):
    """Groups of traces that differ in one configuration key from a base trace that conforms."""
    r = c.rng(tag + str(c.round)); gs = []
    for g in range(n * (6 if c.thorough else 1)): gs.append(group(S(c.work, r.getrandbits(60), f"{tag}{c.round}_"), g))
    off = c.screen(exe, [("base", b.lines) for b, v in gs], module, consts=consts)
    keep = [] if off is None else [v for b, v in gs if not (set(b.names) & off)]
    c.cover["groups_skipped_base_deviates"] = c.cover.get("groups_skipped_base_deviates", 0) + len(gs) - len(keep)
    if keep: c.conform(exe, [("one key differs", v.lines) for v in keep], module=module, label=tag, consts=consts)
    return len(keep)
@check("P15", T_EST, EST_NOTE)
def p15(c):
    exe = c.driver("drv_est.cpp"); pr = probe(c, exe)
    tw = fam(c, gen_est.scen_idle_twin, 80, "t", work_probe=lambda s: pr)
    est(c, ("polled differently, beside another estimator", tw))
    fx = c.driver("drv_filter.cpp", kin=False)
    c.conform(fx, fam(c, gen_filter.scen_ftwin, 60, "ft", S=gen_filter.Script, work_probe=lambda s: probe(c, fx)), module="ImuFilterTrace", label="IMU filter polled differently, beside another one")
    c.repeat(fx, fam(c, gen_filter.scen_filter, 48, "fr", S=gen_filter.Script), "repeated runs of the IMU filter", "a repeated run differs")
    def pairs(fn, S, n, tag, **kw):
        """(another scenario, a scenario): the other one's configuration and data differ."""
        r = c.rng(tag + str(c.round)); out = []
        for j in range(n * (6 if c.thorough else 1)):
            o, a = S(c.work, r.getrandbits(60), f"{tag}{j}o_"), S(c.work, r.getrandbits(60), f"{tag}{j}a_")
            for x in (o, a): fn(x, **{k: (v(x) if callable(v) else v) for k, v in kw.items()})
            out.append((o.lines, a.lines))
        return out
    c.isolate(exe, pairs(gen_est.scen_control, Script, 48, "xs", n_ops=lambda s: s.rng.randint(15, 40), calib=CH(.3)), "after other estimators, and alone", "what an estimator publishes depends on other estimators of the process")
    c.isolate(fx, pairs(gen_filter.scen_filter, gen_filter.Script, 48, "xf"), "IMU filters after others, and alone", "what a filter emits depends on other filters of the process")
    c.repeat(exe, fam(c, gen_est.scen_control, 64, "r", n_ops=lambda s: s.rng.randint(20, 60), calib=CH(.3), ori=CH(.3)), "repeated runs", "a repeated run differs")
@check("P25", T_EST, "A base configuration whose recorded behaviour conforms to the specification, and variants that differ in one key (absent or changed): the variants must conform too.")
def p25(c):
    exe = c.driver("drv_est.cpp")
    cfg_check(c, exe, gen_est.cfg_group, "EstTrace", 9, "estimator keys")
    cfg_check(c, c.driver("drv_filter.cpp", kin=False), gen_filter.fcfg_group, "ImuFilterTrace", 24, "IMU filter keys", S=gen_filter.Script)

# ---- IMU filter ----------------------------------------------------------------------------------
FCFG = """SPECIFICATION Spec
CONSTANTS MaxOps = {ops}
 MaxQ = 2
 Gyro = {gyro}
 NImu = {nimu}
 NAng = {nang}
 Five = "{five}"
 Static = {static}
 NCal = {ncal}
 Emit = TRUE
 Offs <- VOffs
 Clears = {clears}
INVARIANT Inv
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE
"""
FMOD = """---- MODULE ImuFilterMCx ----
EXTENDS ImuFilterMC
VOffs == {-3, -2, 0, 1}
====
"""
ALLF = [(g, ni, na, five) for g in (True, False) for ni, na, five in ((1, 0, ""), (1, 1, ""), (2, 0, ""), (0, 1, ""), (1, 1, "SPA"), (1, 1, "SINGLE"), (1, 1, "ANG"))]
def filter_model(c, shapes, ops, ncal=-1, clears=False, want=300):
    """Model-check the filter's control exhaustively and replay its behaviours on the real filter."""
    tf = lambda b: "TRUE" if b else "FALSE"
    def one(sh):
        g, ni, na, five = sh; name = f"ImuFilterMC_{'g' if g else ''}{ni}{na}{five}_{ops}_{ncal}_{tf(clears)[0]}"
        if name not in c.mccache:
            b = c.model(name, "ImuFilterMCx", FCFG.format(ops=ops, gyro=tf(g), nimu=ni, nang=na, five=five, static=tf(ncal >= 0), ncal=max(ncal, 0), clears=tf(clears)), modules={"ImuFilterMCx": FMOD}, emit=True, extra=["-checkpoint", "0"])
            c.mccache[name] = [json.loads(x) for x in sorted({json.dumps(parse_ops(x)) for x in b})]
        return c.mccache[name]
    vplib.java_classes(c.work)
    with ThreadPoolExecutor(4) as ex: res = list(ex.map(one, shapes))
    out = []
    for sh, seqs in zip(shapes, res):
        pre = {json.dumps(x[:-1]) for x in seqs}
        maxi = [x for x in seqs if json.dumps(x) not in pre and x[-1][0] != "push"]
        r = c.rng(f"{sh}{ops}{c.round}"); n = (want if not c.thorough else want * 8) // len(shapes)
        pick = maxi if len(maxi) <= n else r.sample(maxi, n)
        for k, v in (("behaviours_emitted", len(maxi)), ("behaviours_replayed", len(pick))): c.cover[k] = c.cover.get(k, 0) + v
        s = gen_filter.Script(c.work, r.getrandbits(60), f"m{len(out)}_"); g, ni, na, five = sh
        for o in pick: gen_filter.scen_freplay(s, o, g, ni, na, five, ncal >= 0, max(ncal, 0))
        if pick: out.append(("mc", s.lines))
    return out
def fil(c, *fams):
    exe = c.driver("drv_filter.cpp", kin=False)
    for label, scripts in fams: c.conform(exe, scripts, module="ImuFilterTrace", label=label)
FS = gen_filter.Script
T_FIL = "TLA+ specification (TLC): exhaustive filter model, behaviours replayed on the code, recorded traces checked event by event"
FIL_NOTE = "TLC checks the filter's control model for every choice of sources within small bounds; its behaviours and seeded random histories run on the real filter, and TLC checks every recorded event against the specification."
@check("P16", T_FIL, FIL_NOTE)
def p16(c):
    fil(c, ("mc: gates and modes", filter_model(c, ALLF, 6 if not c.thorough else 7, want=1000)),
           ("random histories", fam(c, gen_filter.scen_filter, 160, "f", S=FS, static=False, n_ops=lambda s: s.rng.randint(20, 80))),
           ("long backlogs", scale(c, gen_filter.scen_fscale, 8, "z", S=FS)))
@check("P17", T_FIL, FIL_NOTE)
def p17(c):
    fil(c, ("random histories", fam(c, gen_filter.scen_filter, 320, "f", S=FS, n_ops=lambda s: s.rng.randint(20, 120), static=CH(.2))),
           ("long backlogs", scale(c, gen_filter.scen_fscale, 6, "z", S=FS)))
@check("P18", T_FIL, FIL_NOTE)
def p18(c):
    fil(c, ("mc: start-up", filter_model(c, ALLF, 6 if not c.thorough else 7, ncal=2, clears=True, want=500)),
           ("start-ups", fam(c, gen_filter.scen_startup, 240, "u", S=FS)),
           ("clears", fam(c, gen_filter.scen_filter, 60, "f", S=FS, static=CH(.5))),
           ("in its own thread", fam(c, gen_filter.scen_filter, 80, "h", S=FS, thread=True, static=CH(.3))),
           ("long backlogs", scale(c, gen_filter.scen_fscale, 8, "z", S=FS, calib=CH(.7), clear=CH(.6))))

# ---- classes without threads -----------------------------------------------------------------------
T_PUR = "TLA+ specification (TLC): seeded calls of the real classes, every recorded call checked against the specification"
PUR_NOTE = "Seeded inputs from exact zeros to extremes run on the real code; TLC checks every recorded call against the specification's definitions in double-double arithmetic."
PS = gen_pure.Script
PURE = r"src/(math|state|measurement)/|src/kinematics/[^/]*\.cpp|/mini_cheetah/(p_|Jp_)"
def pure(c, module, *fams):
    exe = c.driver("drv_pure.cpp", only=PURE)
    for label, scripts in fams: c.conform(exe, scripts, module=module, label=label)
@check("P24", T_PUR, PUR_NOTE)
def p24(c):
    pure(c, "LieTrace", ("functions", fam(c, gen_pure.scen_lie, 400, "l", S=PS)), ("group objects", fam(c, gen_pure.scen_grp, 80, "g", S=PS)))
@check("P22", T_PUR, PUR_NOTE)
def p22(c):
    inc = c.work.path("inc"); os.makedirs(inc, exist_ok=True)
    subprocess.run(["python3", os.path.join(vplib.ROOT, "harness", "mk_kininc.py"), os.path.join(inc, "vp_kin.inc")], check=True)
    exe = c.driver("drv_pure.cpp", only=r"src/(math|state|measurement|kinematics)/", extra=["-DVP_KIN", "-I", inc])
    for label, scripts in (("kinematics objects", fam(c, gen_pure.scen_kin, 240, "k", S=PS)), ("generated functions", fam(c, gen_pure.scen_kinraw, 64, "r", S=PS))):
        c.conform(exe, scripts, module="KinTrace", label=label)
CCFG = """SPECIFICATION Spec
CONSTANTS MaxOps = {ops}
 MaxCols = 4
INVARIANT Inv
ACTION_CONSTRAINT EmitT
VIEW View
CHECK_DEADLOCK FALSE
"""
@check("P23", T_PUR, "TLC checks the column bookkeeping exhaustively within small bounds; its behaviours and seeded random call sequences run on the real container, and TLC checks every getter after every call against the specification.")
def p23(c):
    ops = 6 if not c.thorough else 7
    if "cmc" not in c.mccache:
        b = c.model("ContainerMC", "ContainerMC", CCFG.format(ops=ops), emit=True, extra=["-checkpoint", "0"])
        seqs = [parse_ops(x) for x in b]; c.mccache["cmc"] = [x for x in seqs if len(x) == ops and x[-1][0] != "add"]
    r = c.rng(f"cmc{c.round}"); seqs = c.mccache["cmc"]; n = 300 if not c.thorough else 3000
    pick = seqs if len(seqs) <= n else r.sample(seqs, n); scripts = []
    c.cover["behaviours_emitted"] = len(seqs); c.cover["behaviours_replayed"] = c.cover.get("behaviours_replayed", 0) + len(pick)
    for k in range(8):
        s = PS(c.work, r.getrandbits(60), f"m{k}_")
        for o in pick[k::8]: gen_pure.scen_cmc(s, o)
        scripts.append(("mc", s.lines))
    pure(c, "ContainerTrace", ("mc: augmented columns", scripts), ("random calls", fam(c, gen_pure.scen_container, 160, "r", S=PS, n=lambda s: s.rng.randint(10, 60))))
@check("P26", T_PUR, PUR_NOTE)
def p26(c):
    pure(c, "MeasureTrace", ("random calls", fam(c, gen_pure.scen_measure, 400, "m", S=PS)))

# ---- threads -----------------------------------------------------------------------------------------
import gen_sched
SS = gen_sched.Script
T_SCH = "TLA+ specification (TLC): executions of the real threads under a recording scheduler, every synchronisation, shared access and buffer change checked against the happens-before and log specifications"
SCH_NOTE = "The real classes run with their own threads under a scheduler that owns every scheduling decision (seeded, four strategies); TLC checks the recorded execution event by event."
def sched_driver(c, wheel=False, ros=False):
    name = "sched_w" if wheel else "sched_r" if ros else "sched"
    if name in c.exes: return c.exes[name]
    H = os.path.join(vplib.ROOT, "harness"); w = c.work
    if "post" not in c.exes:
        r = subprocess.run(["g++", "-std=c++17", "-O2", "-w", os.path.join(H, "vp_conc_post.cpp"), "-o", w.path("post")], capture_output=True, text=True)
        if r.returncode: raise vplib.CheckError("post tool\n" + r.stderr[-2000:])
        c.exes["post"] = w.path("post")
    src = [s for s in vplib.lib_sources() if True] + [os.path.join(H, "drv_sched.cpp")]
    extra = ["-g1", "-fsanitize=thread", "-fno-pie", "-include", os.path.join(H, "vp_shim.hpp")]
    if wheel:
        extra += ["-DVP_WHEEL", "-I", f"{vplib.REPO}/baselines/include"]
        src += [s for s in __import__("glob").glob(f"{vplib.REPO}/baselines/src/**/*.cpp", recursive=True)]
    if ros:
        extra += ["-DVP_ROS", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-I", os.path.join(H, "ros"), "-I", f"{vplib.REPO}/ROS/drift/include"]
        src += __import__("glob").glob(f"{vplib.REPO}/ROS/drift/src/communication/*.cpp")
    objs = vplib.compile_all(w, src, extra, tag="o_" + name) + vplib.compile_all(w, [os.path.join(H, "vp_sched.cpp")], ["-fno-pie"], tag="os")
    c.exes[name] = vplib.link(w, objs, name, ["-no-pie", "-lyaml-cpp", "-lpthread", "-ldl"])
    return c.exes[name]
def sched_runner(c):
    def run(exe, script, trace, timeout, env, args):
        raw = trace + ".raw"
        if os.path.exists(raw): os.remove(raw)
        cwd = os.path.abspath(trace) + ".d"; os.makedirs(cwd, exist_ok=True)
        p = subprocess.Popen([exe, os.path.abspath(script), os.path.abspath(raw)], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); rc = "timeout"
        if rc in (3, 4, 5): raise vplib.CheckError(f"driver could not run its script (rc {rc})")
        data = b""
        if os.path.exists(raw):
            data = subprocess.run([c.exes["post"], raw], capture_output=True, check=True).stdout; os.remove(raw)
        last = data[data.rstrip().rfind(b"\n") + 1:]
        if rc != 0 or not last.startswith((b'{"e":"done"', b'{"e":"deadlock"', b'{"e":"stuck"', b'{"e":"crash"')):
            if not data:
                nm = next(l for l in open(script) if l.startswith("trace ")).split(" ", 1)[1].strip(); data = json.dumps(dict(e="begin", name=nm, t=0), separators=(",", ":")).encode() + b"\n"
            data += json.dumps(dict(e="crash", why=str(rc), t=0), separators=(",", ":")).encode() + b"\n"
        open(trace, "wb").write(data)
    return run
def sched(c, *fams, wheel=False, ros=False, module="ConcTrace"):
    exe = sched_driver(c, wheel, ros)
    for label, scripts in fams: c.conform(exe, scripts, module=module, label=label, timeout=200, runner=sched_runner(c))
THMOD = """---- MODULE ThreadsX ----
EXTENDS Threads
MProg == <<{prog}>>
====
"""
THCFG = """SPECIFICATION Spec
CONSTANTS Prog <- MProg
 Runs = {runs}
 Clears = {clears}
 Takes = {takes}
 Period = {period}
 Th = 1
 Emit = {emit}
 Bug = "{bug}"
{view}
INVARIANTS ExactlyOnce Locks Contiguous LogOk NoDeadlock
CHECK_DEADLOCK FALSE
{prop}
"""
def threads_model(c, n):
    """The model of the threads: explored exhaustively (also for liveness, and its wrong variants, which must fail); n of the
    schedules it prints, one for every distinct outcome, are replayed on the real code."""
    r = c.rng(f"threads{c.round}"); out = []; vplib.java_classes(c.work)
    for k in range(1 if not c.thorough else 3):
        vs = r.choice(((0, 2), (0, 3), (0, 0), (0, 1, 2))); prog = [("v", 0), ("i", 0)]; ti, rest = 0, [("v", t) for t in vs[1:]]
        for _ in range(3 if not c.thorough else 4):
            ti += r.choice((1, 1, 2)); prog.append(("i", ti))
            if rest and r.random() < .5: prog.append(rest.pop(0))
        prog += rest; mod = THMOD.format(prog=", ".join(f'<<"{q}", {t}>>' for q, t in prog)); shape = dict(runs=4, clears=r.choice((0, 1, 1)), takes=1, period=r.choice((1, 2)))
        b = c.model(f"Threads {c.round}.{k}", "ThreadsX", THCFG.format(emit="TRUE", bug="", view="VIEW View", prop="", **shape), modules={"ThreadsX": mod}, emit=True, extra=["-checkpoint", "0"])
        out += [(prog, shape["takes"], *x.strip('"').split(" ")[1:3]) for x in b]
    small = dict(runs=2, clears=1, takes=0, period=1); mod = THMOD.format(prog='<<"v", 0>>, <<"i", 0>>, <<"i", 1>>')
    if c.round == 0:
        c.model("Threads: everything ends", "ThreadsX", THCFG.format(emit="FALSE", bug="", view="", prop="PROPERTY Ends", **small), modules={"ThreadsX": mod}, extra=["-checkpoint", "0"])
        mod = THMOD.format(prog='<<"v", 0>>, <<"i", 0>>, <<"i", 1>>, <<"i", 2>>, <<"v", 1>>')
        for bug in ("files first", "no hand over", "crossed locks", "no drain"):
            x = vplib.tlc(c.work, "ThreadsX", THCFG.format(emit="FALSE", bug=bug, view="", prop="", **dict(small, runs=3)), modules={"ThreadsX": mod}, name="Threads wrong " + bug[:5], timeout=300, workers=4, extra=["-checkpoint", "0"])
            if "is violated" not in x.out: raise vplib.CheckError(f"the model Threads does not tell its wrong variant '{bug}':\n" + x.out[-1500:])
    c.cover["behaviours_emitted"] = c.cover.get("behaviours_emitted", 0) + len(out)
    # the longest behaviours say most; each is replayed once
    m = min(n * 6 if c.thorough else n, len(out)); picked = sorted(out, key=lambda x: -(len(x[2]) + len(x[3])) * r.random() ** .5)[:m]; r.shuffle(picked)
    c.cover["behaviours_replayed"] = c.cover.get("behaviours_replayed", 0) + m; m = m // 6 if c.thorough else m
    return fam(c, gen_sched.scen_script, m, "t", S=SS, behaviours=lambda s: picked)
FTMOD = """---- MODULE FilterThreadsX ----
EXTENDS FilterThreads
MProg == <<{prog}>>
====
"""
FTCFG = """SPECIFICATION {spec}
CONSTANTS Prog <- MProg
 Takes = {takes}
 Clears = {clears}
 Emit = {emit}
 Bug = "{bug}"
{view}
INVARIANTS ExactlyOnce OnlyTaken Sound NoDeadlock
CHECK_DEADLOCK FALSE
{prop}
"""
def filter_threads_model(c, n):
    """The same for the model of the threads around the IMU filter."""
    r = c.rng(f"fthreads{c.round}"); out = []; vplib.java_classes(c.work); nock = ["-checkpoint", "0"]
    def cfg(bug="", emit="FALSE", spec="Spec", view="", prop="", takes=1, clears=1): return FTCFG.format(**locals())
    def mod(prog): return {"FilterThreadsX": FTMOD.format(prog=", ".join(f'<<"{q}", {t}>>' for q, t in prog))}
    for k in range(2 if not c.thorough else 4):
        prog, t = [], {"i": 0, "w": 0}
        for _ in range(5 if not c.thorough else 6): q = r.choice("iiw" if not prog else "iw"); t[q] += r.choice((0, 1, 1, 2)); prog.append((q, t[q]))
        shape = dict(takes=r.choice((1, 2)), clears=r.choice((0, 1, 1)))
        b = c.model(f"FilterThreads {c.round}.{k}", "FilterThreadsX", cfg(emit="TRUE", view="VIEW View", **shape), modules=mod(prog), emit=True, extra=nock)
        out += [(prog, shape["takes"], shape["clears"], x.strip('"').split(" ")[1]) for x in b]
    if c.round == 0:
        small = mod([("i", 0), ("w", 0), ("i", 2), ("w", 1)])
        c.model("FilterThreads: everything ends", "FilterThreadsX", cfg(prop="PROPERTY Ends"), modules=small, extra=nock)
        c.model("FilterThreads: what waits is taken", "FilterThreadsX", cfg(spec="Unstopped", prop="PROPERTY Drains"), modules=small, extra=nock)
        for bug in ("blind take", "imu first", "no stop"):
            x = vplib.tlc(c.work, "FilterThreadsX", cfg(bug=bug, prop="PROPERTY Ends"), modules=small, name="FilterThreads wrong " + bug[:5], timeout=300, workers=4, extra=nock)
            if "violated" not in x.out: raise vplib.CheckError(f"the model FilterThreads does not tell its wrong variant '{bug}':\n" + x.out[-1500:])
    c.cover["behaviours_emitted"] = c.cover.get("behaviours_emitted", 0) + len(out)
    m = min(n * 6 if c.thorough else n, len(out)); picked = sorted(out, key=lambda x: -len(x[3]) * r.random() ** .5)[:m]; r.shuffle(picked)
    c.cover["behaviours_replayed"] = c.cover.get("behaviours_replayed", 0) + m; m = m // 6 if c.thorough else m
    return fam(c, gen_sched.scen_fscript, m, "k", S=SS, behaviours=lambda s: picked)
import gen_ros
RS = gen_ros.Script
def ros(c, *fams): sched(c, *fams, ros=True, module="RosTrace")
@check("P19", T_SCH, SCH_NOTE)
def p19(c):
    sched(c, ("behaviours of the model Threads", threads_model(c, 48)), ("behaviours of the model FilterThreads", filter_threads_model(c, 48)),
             ("long backlogs", scale(c, gen_sched.scen_logscale, 2, "z", S=SS)),
             ("estimator, producers, consumers, logger", fam(c, gen_sched.scen_est, 24, "e", S=SS, clears=CH(.4), legs=CH(.3), ekf=lambda s: s.pick(None, None, "SPA", "SINGLE"))),
             ("stale and missing data", fam(c, gen_sched.scen_stale, 40, "o", S=SS)),
             ("filter thread", fam(c, gen_sched.scen_fil, 32, "f", S=SS, clears=CH(.4))))
    sched(c, ("wheel odometry", fam(c, gen_sched.scen_wheel, 8, "w", S=SS)), wheel=True)
    ros(c, ("subscribers", fam(c, gen_ros.scen_sub, 24, "s", S=RS)), ("publisher", fam(c, gen_ros.scen_pub, 24, "p", S=RS)), ("whole robots", fam(c, gen_ros.scen_ros, 16, "r", S=RS)))
@check("P20", T_SCH, SCH_NOTE)
def p20(c):
    sched(c, ("behaviours of the model Threads", threads_model(c, 120)), ("behaviours of the model FilterThreads", filter_threads_model(c, 96)),
             ("shutdown with a backlog", fam(c, gen_sched.scen_logrun, 48, "l", S=SS)),
             ("clears soon after steps", fam(c, gen_sched.scen_logrun, 400, "s", S=SS, short=True)),
             ("stale and missing data", fam(c, gen_sched.scen_stale, 80, "o", S=SS)),
             ("estimator, producers, consumers, logger", fam(c, gen_sched.scen_est, 40, "e", S=SS, clears=CH(.5), legs=CH(.4), ekf=lambda s: s.pick(None, None, "SPA", "SINGLE"))),
             ("filter thread", fam(c, gen_sched.scen_fil, 32, "f", S=SS, clears=CH(.5))),
             ("long backlog of the log", scale(c, gen_sched.scen_logscale, 4, "z", S=SS)))
    sched(c, ("wheel odometry", fam(c, gen_sched.scen_wheel, 8, "w", S=SS)), wheel=True)
    ros(c, ("subscribers", fam(c, gen_ros.scen_sub, 24, "s", S=RS)), ("publisher", fam(c, gen_ros.scen_pub, 24, "p", S=RS)), ("whole robots", fam(c, gen_ros.scen_ros, 16, "r", S=RS)))
@check("P21", T_SCH, SCH_NOTE)
def p21(c):
    sched(c, ("behaviours of the model Threads", threads_model(c, 120)),
             ("one stepping thread and the logger", fam(c, gen_sched.scen_logrun, 96, "l", S=SS)),
             ("clears soon after steps", fam(c, gen_sched.scen_logrun, 400, "s", S=SS, short=True)),
             ("beside producers and consumers", fam(c, gen_sched.scen_est, 40, "e", S=SS, clears=CH(.6), legs=CH(.3), ekf=lambda s: s.pick(None, None, "SPA"))),
             ("long backlogs", scale(c, gen_sched.scen_logscale, 6, "z", S=SS)))

# ---- ROS wrappers ---------------------------------------------------------------------------------------
T_ROS = "TLA+ specification (TLC): the wrappers run against recording stand-ins for ROS under a recording scheduler, every message, measurement and publication checked against the specification"
ROS_NOTE = "The real wrappers are compiled against stand-ins for the ROS headers that deliver scripted messages and record what is published; TLC checks the recorded execution event by event."
@check("P27", T_ROS, ROS_NOTE)
def p27(c):
    ros(c, ("subscriptions", fam(c, gen_ros.scen_sub, 240, "s", S=RS)), ("whole robots", fam(c, gen_ros.scen_ros, 24, "r", S=RS)), ("long backlogs", scale(c, gen_ros.scen_subscale, 10, "z", S=RS)))
@check("P28", T_ROS, ROS_NOTE)
def p28(c):
    ros(c, ("publisher", fam(c, gen_ros.scen_pub, 96, "p", S=RS)), ("default settings", fam(c, gen_ros.scen_pub, 16, "d", S=RS, default=True)), ("whole robots", fam(c, gen_ros.scen_ros, 24, "r", S=RS)), ("long backlogs", scale(c, gen_ros.scen_pubscale, 6, "z", S=RS)))

# ---- wheel odometry ------------------------------------------------------------------------------------
import gen_wheel, glob
@check("P29", T_PUR, "Seeded histories run on the real class; TLC checks what it takes from its buffers after every step and every pose of its log against the specification. It also runs with concurrent producers under the recording scheduler (P19).")
def p29(c):
    if "wheel" not in c.exes:
        objs = vplib.compile_all(c.work, [s for s in vplib.lib_sources(False)] + glob.glob(f"{vplib.REPO}/baselines/src/wheel_odometry/*.cpp") + [os.path.join(vplib.ROOT, "harness", "drv_wheel.cpp")], ["-I", f"{vplib.REPO}/baselines/include"])
        c.exes["wheel"] = vplib.link(c.work, objs, "drv_wheel")
    exe = c.exes["wheel"]; WS = gen_wheel.Script
    c.conform(exe, fam(c, gen_wheel.scen_wheel, 240, "w", S=WS, n=lambda s: s.rng.randint(5, 80), two=CH(.2)), module="WheelTrace", label="histories")
    c.conform(exe, scale(c, gen_wheel.scen_wscale, 8, "z", S=WS), module="WheelTrace", label="long backlogs")
