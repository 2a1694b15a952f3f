#!/usr/bin/env python3
"""Driver of the contract verifier: rebuilds the code under contract from /repo's working tree,
generates and discharges the obligations of one property, replays counterexamples natively and
writes evidence/<id>.json.

  run.py check C01 [--tier quick|thorough] [--only PROOF] [-v]
  run.py setup
Exit: 0 held, 1 violation (VIOLATION line), 2 no answer (tool error, timeout, code not reachable).
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JCV_REPO", "/repo")
BUILD = os.environ.get("JCV_BUILD", os.path.join(VERIF, "build"))
ENGINE = os.path.join(VERIF, "engine")
LLVMBIN = "/usr/lib/llvm-18/bin"
NPROC = os.cpu_count() or 8
DEFS = ["-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-D__STDC_LIMIT_MACROS", "-DJLM_ENABLE_ASSERTS"]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def pmatch(name, pat):
    """A pattern is a glob, or a regular expression if it starts with ~."""
    return bool(re.fullmatch(pat[1:], name)) if pat[0] == "~" else fnmatch.fnmatchcase(name, pat)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def engine():
    src = read(ENGINE + "/jcv.cpp") + read(ENGINE + "/build.sh")
    out = f"{BUILD}/jcv-{sha(src)}"
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}"
        r = sh(["bash", ENGINE + "/build.sh", tmp])
        if r.returncode:
            die("cannot build the verifier:\n" + r.stdout[-3000:])
        os.replace(tmp, out)
    return out


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(REPO + "/jlm")):
            for f in sorted(fs):
                if f.endswith((".hpp", ".h")):
                    h.update(os.path.relpath(d + "/" + f, REPO).encode() + b"\0")
                    h.update(read(d + "/" + f) + b"\0")
        h.update(read(ENGINE + "/prelude.h"))
        _hdr = h.hexdigest()
    return _hdr


def gen_headers():
    d = BUILD + "/gen/jlm/tooling"
    os.makedirs(d, exist_ok=True)
    p = d + "/CommandPaths.hpp"
    text = ('#ifndef JLM_TOOLING_COMMANDPATHS_HPP\n#define JLM_TOOLING_COMMANDPATHS_HPP\n'
            '#include <jlm/util/file.hpp>\nnamespace jlm::tooling {\n'
            'static inline jlm::util::FilePath clangpath("/usr/lib/llvm-18/bin/clang");\n'
            'static inline jlm::util::FilePath llcpath("/usr/lib/llvm-18/bin/llc");\n}\n#endif\n')
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)


def bc_cmd(src, out, harness):
    c = ["clang++-18", "--std=c++17", "-O2", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c",
         "-gline-tables-only", "-include", ENGINE + "/prelude.h", "-I.", "-I" + BUILD + "/gen",
         "-isystem", "/usr/lib/llvm-18/include"] + DEFS
    if harness:
        c += ["-I" + ENGINE, "-I" + VERIF + "/harness", "-fno-access-control", "-w"]
    else:
        c += ["-w"]
    return c + [src, "-o", out]


def compile_bc(src, harness=False):
    """src relative to REPO, or absolute. Returns (bc path, error)."""
    p = src if os.path.isabs(src) else REPO + "/" + src
    extra = b""
    if harness:
        extra = read(ENGINE + "/vf.h")
        for f in sorted(glob.glob(VERIF + "/harness/*.[hi]*")):
            extra += read(f)
        for f in re.findall(rb'#include <(jlm/[^>]*\.cpp)>', read(p)):
            extra += read(REPO + "/" + f.decode())
    key = sha(read(p), headers_hash(), src, extra, "h" if harness else "r", "v3")
    out = f"{BUILD}/bc/{key}.bc"
    if os.path.exists(out):
        return out, None
    os.makedirs(BUILD + "/bc", exist_ok=True)
    tmp = f"{out}.{os.getpid()}.tmp"
    r = sh(bc_cmd(src, tmp, harness), cwd=REPO)
    if r.returncode:
        return None, f"{src}:\n{r.stdout[-4000:]}"
    os.replace(tmp, out)
    return out, None


def sources(groups):
    out = []
    for g in groups:
        if g.endswith(".cpp"):
            fs = sorted(glob.glob(f"{REPO}/jlm/{g}"))
        else:
            fs = sorted(glob.glob(f"{REPO}/jlm/{g}/**/*.cpp", recursive=True))
        for f in fs:
            f = os.path.relpath(f, REPO)
            if f.endswith("Tests.cpp") or "/mlir/" in f or "firrtl" in f:
                continue
            if f not in out:
                out.append(f)
    return out


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.props, self.groups, self.merge, self.keep, self.proofs = [], [], [], [], {}
        self.defaults, self.trusted = {}, []
        for line in open(path):
            m = re.match(r"//\s*@(\w+)\s*(.*)", line)
            if not m:
                continue
            k, v = m.groups()
            if k == "property":
                self.props += v.split()
            elif k == "sources":
                self.groups += v.split()
            elif k == "merge":
                self.merge.append(v.strip())
            elif k == "keep":
                self.keep.append(v.strip())
            elif k == "trusted":
                self.trusted.append(v.strip())
            elif k in ("proof", "default"):
                w = v.split(None, 1) if k == "proof" else ["", v]
                opts = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', w[1] if len(w) > 1 else ""))
                opts = {a: b.strip('"') for a, b in opts.items()}
                if k == "default":
                    self.defaults.update(opts)
                else:
                    self.proofs[w[0]] = opts

    def options(self, proof):
        o = dict(self.defaults)
        for pat, v in self.proofs.items():
            if pmatch(proof, pat):
                o.update(v)
        return o


def harnesses(prop):
    hs = [Harness(p) for p in sorted(glob.glob(VERIF + "/harness/*.cpp"))]
    return [h for h in hs if prop in h.props]


def compile_all(jobs):
    """jobs: list of (src, harness). Returns dict src -> bc; dies on error."""
    res = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (src, h), (bc, err) in zip(jobs, ex.map(lambda j: compile_bc(*j), jobs)):
            if err:
                die("does not compile: " + err)
            res[src] = bc
    return res


def native_replay(h, bcs, libs, failure, proof, path):
    """Compiles the same bitcode natively and runs the counterexample. Returns (verdict, log)."""
    d = f"{BUILD}/native"
    os.makedirs(d, exist_ok=True)

    def obj(bc):
        o = f"{d}/{os.path.basename(bc)[:-3]}.o"
        if not os.path.exists(o):
            r = sh([LLVMBIN + "/clang++", "-O1", "-g1", "-fPIC", "-w", "-c", bc, "-o", o + ".tmp"])
            if r.returncode:
                return None
            os.replace(o + ".tmp", o)
        return o
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(obj, [bcs] + libs))
    if not objs[0]:
        return "not-built", "native compilation of the harness failed"
    key = sha(*[str(o) for o in objs])
    exe = f"{d}/replay-{key}"
    if not os.path.exists(exe):
        ar = f"{exe}.a"
        if os.path.exists(ar):
            os.unlink(ar)
        sh(["ar", "rcs", ar] + [o for o in objs[1:] if o])
        r = sh(["clang++-18", "-std=c++17", "-O1", "-g1", "-I" + ENGINE, "-rdynamic",
                ENGINE + "/native.cpp", objs[0], ar, "/usr/lib/llvm-18/lib/libLLVM-18.so", "-ldl",
                "-o", exe + ".tmp"])
        if r.returncode:
            return "not-built", "native link failed:\n" + r.stdout[-2000:]
        os.replace(exe + ".tmp", exe)
    vals = path + ".values"
    with open(vals, "w") as f:
        for i in failure["inputs"]:
            f.write(f"{i['name']} {i['value']}\n")
    cmd = [exe, proof, vals]
    if failure["obligation"] == "memory-safety":
        cmd = ["valgrind", "-q", "--error-exitcode=1"] + cmd
    try:
        r = sh(cmd, timeout=120)
    except subprocess.TimeoutExpired:
        return "confirmed", "the native run does not terminate within 120 s"
    log = " ".join(cmd) + f"\nexit {r.returncode}\n" + r.stdout[-4000:]
    if r.returncode == 1 or r.returncode < 0:
        return "confirmed", log
    return ("holds" if r.returncode == 0 else "diverged"), log


def load_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) proof=(\S+) obligation=(\S+)(?: where=\"([^\"]*)\")?(?: inputs=(\{.*?\}))? :: (.*)", line)
            if m:
                out.append(dict(property=m[1], proof=m[2], obligation=m[3], where=m[4],
                                inputs=json.loads(m[5]) if m[5] else None, text=m[6].strip()))
    return out


def matches(f, prop, proof, fl):
    if f["property"] != prop or not pmatch(proof, f["proof"]):
        return False
    if f["obligation"] != fl["obligation"]:
        return False
    if f["where"] and f["where"] not in fl["where"]:
        return False
    if f["inputs"]:
        got = {}
        for i in fl["inputs"]:
            got.setdefault(i["name"], i["value"])
        for k, v in f["inputs"].items():
            if str(got.get(k)) != str(v):
                return False
    return True


def check(args):
    t0 = time.time()
    prop, tier = args.property, args.tier
    hs = harnesses(prop)
    if args.harness:
        hs = [h for h in hs if h.name == args.harness]
    if not hs:
        die("no harness for " + prop)
    gen_headers()
    jobs = [(ENGINE + "/rt.cpp", False)]
    for h in hs:
        jobs.append((h.path, True))
        for s in sources(h.groups):
            if (s, False) not in jobs:
                jobs.append((s, False))
    # the longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0] if os.path.isabs(j[0]) else REPO + "/" + j[0]))
    with cf.ThreadPoolExecutor(1) as ex:
        fe = ex.submit(engine)
        bcs = compile_all(jobs)
        jcv = fe.result()
    t_build = time.time() - t0

    work = tempfile.mkdtemp(prefix="jcv-")
    tasks = []

    def prep(h):
        out = f"{work}/{h.name}.bc"
        libs = [bcs[s] for s in sources(h.groups)]
        cmd = [jcv, bcs[h.path], bcs[ENGINE + "/rt.cpp"]]
        for l in libs:
            cmd += ["--lib", l]
        for m in h.merge:
            cmd += ["--merge", m]
        for k in h.keep:
            cmd += ["--keep-text", k]
        r = sh(cmd + ["--prep", out])
        if r.returncode:
            return h, None, r.stdout, []
        l = sh([jcv, out, "--prepared", "--list"])
        return h, out, "", l.stdout.split()
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            preps = list(ex.map(prep, hs))
        for h, out, err, proofs in preps:
            if not out:
                die(f"cannot link {h.name}: {err[-2000:]}")
            if not proofs:
                die(f"{h.name} has no proof functions")
            for p in proofs:
                o = h.options(p)
                if "props" in o and prop not in o["props"].split(","):
                    continue
                if o.get("tier", "quick") == "thorough" and tier != "thorough":
                    continue
                if args.only and not pmatch(p, args.only):
                    continue
                tasks.append((h, out, p, o))
        tasks.sort(key=lambda t: -float(t[3].get("cost", 1)))

        deadline = t0 + float(os.environ.get("JCV_BUDGET", 780 if tier == "quick" else 6 * 3600))

        def prove(t):
            h, bc, p, o = t
            limit = float(o.get("time", 300))
            if tier == "thorough":
                limit = max(limit, float(o.get("thorough_time", 4 * limit)))
            limit = min(limit, max(1, deadline - time.time()))
            res = f"{work}/{h.name}.{p}.json"
            cmd = [jcv, bc, "--prepared", "--proof", p, "--out", res, "--time", str(limit),
                   "--query-timeout", o.get("query", "60000")]
            for m in h.merge + ([x for x in o["merge"].split(",")] if "merge" in o else []):
                cmd += ["--merge", m]
            if args.verbose:
                cmd.append("-v")
            if tier == "thorough" or args.dump:
                d = f"{work}/{h.name}.{p}.smt"
                os.makedirs(d)
                cmd += ["--dump-smt", d]
            try:
                r = sh(cmd, timeout=limit + 200)
                text = r.stdout
            except subprocess.TimeoutExpired as e:
                text = "time limit: killed"
            if args.verbose:
                print(text, flush=True)
            try:
                j = json.load(open(res))
            except Exception:
                j = dict(proof=p, status="error", why="the verifier ended without a result: " + text[-500:],
                         obligations={}, failures=[], functions=[], covers={}, paths=0, queries=0,
                         solver_s=0, wall_s=0, queries_external=0, solver_max_s=0)
            j["harness"] = h.name
            j["opts"] = o
            if args.progress:
                print(f"  {j['status']:9} {j['wall_s']:7.1f}s paths={j['paths']} q={j['queries']} {p} {j['why'][:300]}", flush=True)
            return j
        with cf.ThreadPoolExecutor(args.jobs or NPROC) as ex:
            results = list(ex.map(prove, tasks))
        recheck = None
        if tier == "thorough":
            recheck = second_opinion(work, deadline)
        return report(args, hs, bcs, results, t0, t_build, recheck)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def second_opinion(work, deadline):
    """Discharges a sample of the solver obligations again with cvc5 and Z3 4.8."""
    files = sorted(glob.glob(work + "/*.smt/*.smt2"))
    step = max(1, len(files) // 3000)
    files = files[::step]
    cnt = {"files": len(files), "cvc5_unsat": 0, "z3_4_8_unsat": 0, "unknown": 0, "disagree": []}

    def one(f):
        if time.time() > deadline - 60:
            return f, "skipped", "skipped"
        r = []
        for c in (["cvc5", "--lang", "smt2", "--tlimit=20000", f], ["/usr/bin/z3", "-T:20", f]):
            try:
                o = sh(c, timeout=40).stdout.strip().split("\n")[0]
            except Exception:
                o = "unknown"
            r.append(o)
        return f, r[0], r[1]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f, a, b in ex.map(one, files):
            cnt["cvc5_unsat"] += a == "unsat"
            cnt["z3_4_8_unsat"] += b == "unsat"
            cnt["unknown"] += a not in ("sat", "unsat") and b not in ("sat", "unsat")
            if a == "sat" or b == "sat":
                cnt["disagree"].append(open(f).readline().strip())
    return cnt


def report(args, hs, bcs, results, t0, t_build, recheck):
    prop, tier = args.property, args.tier
    findings = load_findings()
    man = {}
    try:
        for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]:
            man[c["property"]] = c
    except Exception:
        pass
    level = man.get(prop, {}).get("level", "other")
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    violations, known, noanswer, deferred = [], [], [], []
    nob = ndis = ninst = nconst = nsolver = 0
    funcs = set()
    table = []
    for r in results:
        o = r["opts"]
        bad = 0
        for n, v in r["obligations"].items():
            nob += 1
            good = v["failed"] == 0 and v["unknown"] == 0 and r["status"] == "proved"
            ndis += good
            ninst += v["instances"]
            nconst += v["constant"]
            nsolver += v["solver"]
        funcs.update(r["functions"])
        table.append(dict(contract=r["proof"], harness=r["harness"], status=r["status"],
                          why=r["why"], obligations=len(r["obligations"]), names=sorted(r["obligations"]),
                          instances=sum(v["instances"] for v in r["obligations"].values()),
                          paths=r["paths"], queries=r["queries"], solver_s=round(r["solver_s"], 3),
                          solver_max_s=round(r["solver_max_s"], 3), covers=r["covers"],
                          scope=o.get("scope", "proof"), bound=o.get("bound", "")))
        if r["status"] == "violated":
            h = next(x for x in hs if x.name == r["harness"])
            for k, fl in enumerate(r["failures"]):
                kf = [f for f in findings if matches(f, prop, r["proof"], fl)]
                if kf:
                    known.append((kf[0], r["proof"]))
                    continue
                path = f"{VERIF}/evidence/replay/{prop}-{r['proof']}-{k}.txt"
                verdict, log = "not-run", ""
                if len(violations) < 4:
                    verdict, log = native_replay(h, bcs[h.path], [bcs[s] for s in sources(h.groups)],
                                                 fl, r["proof"], path)
                with open(path, "w") as f:
                    f.write(f"property:   {prop}\ncontract:   {r['proof']} ({r['harness']}.cpp)\n"
                            f"obligation: {fl['obligation']}\ndetail:     {fl['detail']}\n"
                            f"where:      {fl['where']}\nverdict of the native replay: {verdict}\n"
                            f"counterexample (inputs in order):\n")
                    for i in fl["inputs"]:
                        f.write(f"  {i['name']} = {i['value']} ({i['width']} bits)\n")
                    f.write("native run:\n" + log + "\n")
                    f.write("verifier output:\n" + json.dumps({x: r[x] for x in r if x != "functions"}, indent=1))
                violations.append((path, verdict, r["proof"], fl["obligation"]))
        elif r["status"] != "proved":
            (deferred if o.get("optional") else noanswer).append(r)
    for f, p in {(json.dumps(f, sort_keys=True), p): (f, p) for f, p in known}.values():
        print(f"KNOWN-FINDING: property={prop} {f['text']}")
    trusted = sorted({t for h in hs for t in h.trusted})
    cov = dict(
        obligations=nob, discharged=ndis, obligation_instances=ninst,
        instances_constant=nconst, instances_solver=nsolver,
        contracts=len(results), contracts_proved=sum(r["status"] == "proved" for r in results),
        contracts_bounded=sum(r["opts"].get("scope", "proof") != "proof" for r in results),
        paths=sum(r["paths"] for r in results), queries=sum(r["queries"] for r in results),
        backend="Z3 5.3 (QF_BV, in process), cvc5 1.1.2 when Z3 gives no answer",
        external_queries=sum(r["queries_external"] for r in results),
        solver_s=round(sum(r["solver_s"] for r in results), 2),
        checker_cmd=f"python3 run.py check {prop} --tier {tier}",
        trusted_base=[
            "engine/jcv.cpp (obligation generator) and the LLVM 18 front end and O2 pipeline",
            "Z3 / cvc5 answers", "engine/rt.cpp: libstdc++ parts outside the headers",
            "the oracles written in harness/*.cpp"] + trusted,
        functions_under_contract=sorted(funcs), n_functions=len(funcs), table=table,
        undecided=[dict(contract=r["proof"], status=r["status"], why=r["why"]) for r in noanswer + deferred],
        build_s=round(t_build, 1),
        explanation=man.get(prop, {}).get("level_note", "deductive verification; see table"))
    if recheck:
        cov["second_opinion"] = recheck
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=[
                  "allocation succeeds below 256 MiB, heap addresses are modelled as one increasing sequence",
                  "uninitialised memory reads as a fixed pattern; LLVM poison from shifts is an arbitrary value",
                  "text-only functions (debug_string, strfmt) return the empty string",
                  "single thread", "time stamps and file I/O are outside the contracts"] + trusted)
    if not args.only and not args.harness:
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)} contracts, {nob} obligations ({ninst} instances), "
          f"{ndis} discharged, {len(funcs)} functions, {cov['paths']} paths, {cov['queries']} queries, "
          f"solver {cov['solver_s']} s, wall {ev['wall_s']} s (build {t_build:.0f} s)")
    for r in deferred:
        print(f"  not decided (deepening only): {r['proof']}: {r['status']} {r['why'][:200]}")
    if violations:
        for path, verdict, proof, ob in violations:
            print(f"  failed obligation {ob} of contract {proof}; native replay: {verdict}")
        # report a replayed counterexample when there is one
        violations.sort(key=lambda v: v[1] != "confirmed")
        path, verdict = violations[0][:2]
        print(f"VIOLATION property={prop} replay={path}"
              + ("" if verdict == "confirmed" else " no-failing-input-found"))
        return 1
    if recheck and recheck["disagree"]:
        print("solvers disagree: " + "; ".join(recheck["disagree"][:5]))
        return 2
    if noanswer:
        for r in noanswer:
            print(f"  no answer: {r['proof']}: {r['status']} {r['why'][:600]}")
        return 2
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "setup"])
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--harness")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--dump", action="store_true")
    ap.add_argument("-v", "--verbose", action="store_true")
    ap.add_argument("-p", "--progress", action="store_true")
    args = ap.parse_args()
    if args.cmd == "setup":
        gen_headers()
        engine()
        jobs = [(ENGINE + "/rt.cpp", False)]
        for p in sorted(glob.glob(VERIF + "/harness/*.cpp")):
            for s in sources(Harness(p).groups):
                if (s, False) not in jobs:
                    jobs.append((s, False))
        compile_all(jobs)
        return 0
    return check(args)


if __name__ == "__main__":
    sys.exit(main())
