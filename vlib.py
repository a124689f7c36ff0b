"""Check driver: compiles /repo sources to LLVM bitcode, runs the symbolic
executor on the harness entries, replays models natively, writes evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LSYM = os.path.join(VERIF, "build", "lsym")
CFG = {
    # 64-bit limbs / 128-bit products, as the default builds
    "64": [],
    # 32-bit field words, no inline assembly, as the portable build
    "32": ["-DTORSION_NO_INT128", "-DTORSION_NO_ASM"],
}
INC = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/harness" % VERIF]
CLANG = ["clang-18", "-O1", "-g1", "-w", "-fno-vectorize", "-fno-slp-vectorize",
         "-fno-unroll-loops", "-fno-builtin-printf", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]
# no inlining and no reassociation: terms stay close to the source
OPT = "function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,early-cse,dce)"
GCC = ["gcc", "-O1", "-w", "-c"]
SAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-sanitize=alignment,shift,signed-integer-overflow"]

STUB = ["-O0", "-fno-pie", "-fcf-protection=none", "-fpatchable-function-entry=16"]


def build_engine():
    src = os.path.join(VERIF, "engine")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(LSYM) and os.path.getmtime(LSYM) >= newest:
        return
    os.makedirs(os.path.dirname(LSYM), exist_ok=True)
    subprocess.check_call(["bash", os.path.join(src, "build.sh"), LSYM])


class Ob:
    def __init__(self, name, entry, harness, srcs, cfg, params, t, tier, bounds, defs, sat, wit, post):
        self.__dict__.update(locals())
        self.out = None
        self.status = None
        self.wall = 0.0


class Prop:
    def __init__(self, pid, assumptions=(), level="model_checking"):
        self.pid = pid
        self.obs = []
        self.assumptions = list(assumptions)
        self.level = level
        self._h = None

    def use(self, harness, srcs, cfg="64", defs=()):
        self._h = (harness, list(srcs), cfg, list(defs))

    def ob(self, name, entry, params=None, t=120, tier="quick", bounds="", sat=120, wit=3, post=None, cfg=None, defs=None):
        h, s, c, d = self._h
        self.obs.append(Ob(name, entry, h, s, cfg or c, params or {}, t, tier, bounds, d if defs is None else list(defs), sat, wit, post))


class Builder:
    """Builds artefacts once, on demand, thread safe."""
    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        self.fut = {}

    def once(self, key, fn):
        with self.lock:
            f = self.fut.get(key)
            mine = f is None
            if mine:
                f = self.fut[key] = cf.Future()
        if mine:
            try:
                f.set_result(fn())
            except BaseException as e:
                f.set_exception(e)
        return f.result()

    def path(self, *k):
        return os.path.join(self.tmp, re.sub(r"[^A-Za-z0-9_.-]", "_", "-".join(k)))

    def run(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-2000:]))

    def src_path(self, s):
        if s.startswith("@"):
            return os.path.join(VERIF, "harness", s[1:])
        return os.path.join(REPO, "src", s)

    def obj(self, s, cfg, defs, kind):
        """kind: bc, nat, san"""
        def go():
            out = self.path(s, cfg, "_".join(defs), kind)
            base = {"bc": CLANG, "nat": GCC, "san": GCC + SAN, "stub": GCC + STUB}[kind]
            self.run(base + CFG[cfg] + list(defs) + INC + [self.src_path(s), "-o", out])
            return out
        return self.once((s, cfg, tuple(defs), kind), go)

    def objs(self, ob, kind):
        lst = [("@" + ob.harness, tuple(ob.defs))] + [(s, ()) for s in ob.srcs]
        return [self.obj(s, ob.cfg, d, kind) for s, d in lst]

    def bc(self, ob):
        key = ("link", ob.harness, tuple(ob.srcs), ob.cfg, tuple(ob.defs))
        def go():
            out = self.path("link", ob.harness, ob.cfg, "_".join(ob.defs), "%x" % (hash(key) & 0xffffffff)) + ".bc"
            self.run(["llvm-link-18", "-o", out] + self.objs(ob, "bc"))
            self.run(["opt-18", "-passes=" + OPT, out, "-o", out])
            return out
        return self.once(key, go)

    def exe(self, ob, kind):
        key = ("exe", ob.harness, ob.entry, tuple(ob.srcs), ob.cfg, tuple(ob.defs), kind)
        def go():
            out = self.path("exe", ob.harness, ob.entry, ob.cfg, "_".join(ob.defs), kind, "%x" % (hash(key) & 0xffffffff))
            rt = os.path.join(VERIF, "harness", "sym_rt.c")
            fl = SAN if kind == "san" else STUB + ["-no-pie", "-DSYM_STUB"] if kind == "stub" else []
            self.run(["gcc", "-O1", "-w"] + fl + INC + ["-DSYM_ENTRY=" + ob.entry, rt] + self.objs(ob, kind) + ["-lpthread", "-o", out])
            return out
        return self.once(key, go)


def stub_only(ob):
    """the harness states that its assertions only make sense with its replacements in place"""
    return "STUBS REQUIRED" in open(os.path.join(VERIF, "harness", ob.harness)).read()


def replay(exe, inputs, params, path, timeout=60):
    with open(path, "w") as f:
        for name, hx in inputs:
            f.write("%s %s\n" % (name.replace(" ", "_"), hx))
    env = dict(os.environ, SYM_INPUT=path, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    for k, v in params.items():
        env["SYM_P_" + k] = str(v)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return 124, "replay timeout"


def solve(ob, B, seed):
    t0 = time.time()
    try:
        bc = B.bc(ob)
    except Exception as e:
        ob.status = "notbuilt"
        ob.err = str(e)[-1500:]
        ob.wall = time.time() - t0
        return ob
    out = B.path("out", ob.name) + ".json"
    cmd = [LSYM, bc, "-e", ob.entry, "-o", out, "-t", str(int(ob.t)), "--sat-timeout", str(int(ob.sat)),
           "--seed", str(seed), "--tmp", B.tmp, "--witnesses", str(ob.wit)]
    if ob.params.get("satfirst"):
        cmd += ["--sat-first"]
    for k, v in ob.params.items():
        cmd += ["-p", "%s=%d" % (k, v)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=ob.t + ob.sat + 60)
        ob.out = json.load(open(out))
    except subprocess.TimeoutExpired:
        ob.status = "timeout"
        ob.err = "engine exceeded its budget"
        ob.wall = time.time() - t0
        return ob
    except Exception as e:
        ob.status = "error"
        ob.err = "engine failed: %s %s" % (e, r.stdout[-500:])
        ob.wall = time.time() - t0
        return ob
    o = ob.out
    ob.err = o["error"]
    unk = sum(a[4] for a in o["asserts"].values())
    if o["violations"]:
        ob.status = "violation"
    elif o["error"]:
        ob.status = "error"
    elif o["timeout"]:
        ob.status = "timeout"
    elif unk:
        ob.status = "undecided"
    elif o["paths"] == 0 or not o["asserts"]:
        ob.status = "vacuous"
    else:
        ob.status = "held"
    if ob.post and ob.status == "held":
        ob.post(ob, B)
    ob.validated = 0
    ob.mismatch = []
    ob.confirmed = []
    ob.unconfirmed = []
    rp = os.path.join(VERIF, "evidence", "replay")
    try:
        if ob.status != "violation" and o["witnesses"]:
            exe = B.exe(ob, "stub" if stub_only(ob) else "nat")
            for i, w in enumerate(o["witnesses"]):
                rc, txt = replay(exe, w, ob.params, B.path("wit", ob.name, str(i)))
                if rc == 0:
                    ob.validated += 1
                elif rc in (77, 78, 124):
                    ob.mismatch.append("witness replay rc=%d %s" % (rc, txt.strip()[-200:]))
                else:
                    p = os.path.join(rp, "%s-%s-w%d.txt" % (ob.pid, re.sub(r"\W", "_", ob.name), i))
                    os.makedirs(rp, exist_ok=True)
                    replay(exe, w, ob.params, p)
                    ob.confirmed.append((p, "native run of a symbolic witness fails: rc=%d %s" % (rc, txt.strip()[-300:]), w))
                    ob.status = "violation"
        for i, v in enumerate(o["violations"]):
            os.makedirs(rp, exist_ok=True)
            p = os.path.join(rp, "%s-%s-%d.txt" % (ob.pid, re.sub(r"\W", "_", ob.name), i))
            rc, txt = 0, ""
            for kind in ("stub",) if stub_only(ob) else ("san", "nat", "stub"):
                if kind == "stub" and not any(re.search(r"OVERRIDE\(|abstract_", open(os.path.join(VERIF, "harness", h)).read()) for h in [ob.harness]):
                    break
                exe = B.exe(ob, kind)
                rc, txt = replay(exe, v["inputs"], ob.params, p, 20 if v["kind"] == "hang" else 60)
                if rc not in (0, 77, 78, 124):
                    break
            d = "%s %s at %s: native rc=%d %s" % (v["kind"], v["id"], v["where"], rc, txt.strip()[-400:])
            if rc not in (0, 77, 78, 124) or (rc == 124 and v["kind"] == "hang"):
                ob.confirmed.append((p, d, v["inputs"]))
            else:
                ob.unconfirmed.append(d)
    except Exception as e:
        ob.status = "replay" if ob.status == "held" else ob.status
        ob.err = (ob.err + " replay build: " + str(e))[-1500:]
    ob.wall = time.time() - t0
    return ob


STOP = threading.Event()
BUDGET = 760  # seconds for the quick tier, below the limit of a check run


def guarded(ob, B, seed, t0, tier):
    """solve unless a confirmed violation already settles the run or time is up"""
    left = (BUDGET if tier == "quick" else 7000) - (time.time() - t0)
    kf = any(k["property"] == ob.pid for k in known_findings())
    if (STOP.is_set() and not kf) or left < 15:
        ob.status, ob.err = "skipped", "not run: %s" % ("violation found" if STOP.is_set() else "time budget")
        return ob
    ob.t = max(5, min(ob.t, left - 10))
    ob.sat = min(ob.sat, ob.t)
    solve(ob, B, seed)
    if getattr(ob, "confirmed", None):
        STOP.set()
    return ob


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(P, tier=None, only=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build_engine()
    tmp = tempfile.mkdtemp(prefix="lsym-%s-" % P.pid)
    try:
        B = Builder(tmp)
        obs = [o for o in P.obs if o.tier == "quick" or tier == "thorough"]
        if only:
            obs = [o for o in obs if re.search(only, o.name)]
        for o in obs:
            o.pid = P.pid
        with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
            list(ex.map(lambda o: guarded(o, B, seed, t0, tier), obs))
        return finish(P, obs, tier, seed, t0, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def finish(P, obs, tier, seed, t0, only):
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
               paths=0, state_merges=0, queries=dict(closed_by_rewriting=0, z3=0, sat=0, undecided=0, branch_feasibility=0),
               solver_seconds=dict(z3=0.0, sat=0.0), assertions=0, functions_encoded=[], obligations_detail=[], bounds={})
    funcs = set()
    viol = 0
    known = 0
    bad = []
    rc = 0
    decided = 0
    kf = [k for k in known_findings() if k["property"] == P.pid]
    for o in obs:
        d = dict(name=o.name, status=o.status, config=o.cfg, entry=o.entry, wall_s=round(o.wall, 2))
        if o.bounds:
            cov["bounds"][o.name] = o.bounds
        if getattr(o, "err", ""):
            d["error"] = o.err[-600:]
        if o.out:
            j = o.out
            s = j["solver"]
            cov["states"] += j["forks"] + j["paths"]
            cov["transitions"] += j["instructions"]
            cov["paths"] += j["paths"]
            cov["state_merges"] += j["merges"]
            q = cov["queries"]
            q["branch_feasibility"] += s["feas"]
            for k, a in j["asserts"].items():
                cov["assertions"] += a[0]
                q["closed_by_rewriting"] += a[1]
                q["z3"] += a[2]
                q["sat"] += a[3]
                q["undecided"] += a[4]
            cov["solver_seconds"]["z3"] += s["t_z3"]
            cov["solver_seconds"]["sat"] += s["t_sat"]
            cov["traces_validated_against_impl"] += o.validated
            for f in j["functions"]:
                if "/repo/" in f[1] or REPO in f[1]:
                    funcs.add(os.path.basename(f[1]) + ":" + f[0])
            if j["witnesses"] and len(cov["samples"]) < 6:
                cov["samples"].append(dict(obligation=o.name, inputs=[[a, b[:160]] for a, b in j["witnesses"][-1]]))
            d.update(paths=j["paths"], instructions=j["instructions"], asserts={k: a for k, a in j["asserts"].items()})
            if j["notes"]:
                d["notes"] = j["notes"][:6]
            if o.mismatch:
                d["mismatch"] = o.mismatch[:4]
        if getattr(o, "extra", None):
            d["extra"] = o.extra
            for k in ("z3", "sat", "lia"):
                if k in o.extra:
                    cov["queries"][k] = cov["queries"].get(k, 0) + o.extra[k]
        if o.status in ("held",):
            decided += 1
        if o.status == "violation":
            for p, why, inp in o.confirmed:
                hit = None
                for k in kf:
                    if k["obligation"] == o.name and k["match"] in why:
                        hit = k
                if hit:
                    known += 1
                    print("KNOWN-FINDING: property=%s %s" % (P.pid, hit["what"]))
                else:
                    viol += 1
                    rc = 1
                    print("VIOLATION property=%s replay=%s" % (P.pid, p))
                    print("  obligation %s: %s" % (o.name, why))
                    d.setdefault("violations", []).append(why)
            if o.unconfirmed and not o.confirmed:
                bad.append(o)
                print("UNCONFIRMED %s: %s" % (o.name, o.unconfirmed[0]))
        elif o.status not in ("held",):
            print("INCONCLUSIVE %s: %s %s" % (o.name, o.status, (getattr(o, "err", "") or "")[-700:]))
            if o.status == "vacuous":
                bad.append(o)
        for m in getattr(o, "mismatch", [])[:1]:
            print("WITNESS-MISMATCH %s: %s" % (o.name, m))
        cov["obligations_detail"].append(d)
    cov["functions_encoded"] = sorted(funcs)
    cov["obligations_total"] = len(obs)
    cov["obligations_held"] = decided
    for k in cov["solver_seconds"]:
        cov["solver_seconds"][k] = round(cov["solver_seconds"][k], 3)
    ev = dict(property=P.pid, tier=tier, seed=seed, level=P.level, coverage=cov,
              assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=viol)
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", P.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d/%d obligations held, %d violation(s), %d paths, %d instructions, %d assertions, %d witness runs, %.1fs"
          % (P.pid, tier, decided, len(obs), viol, cov["paths"], cov["transitions"], cov["assertions"], cov["traces_validated_against_impl"], time.time() - t0))
    if rc == 0 and (bad or 2 * decided < len(obs)):
        rc = 2
    return rc
