#!/usr/bin/env python3
"""Contract checking driver.

  driver.py <property-id>

Extracts /repo's current sources to C (extract.py), compiles them with goto-cc, attaches the contracts of
/verif/props/<id>/, discharges every generated obligation with cbmc, and reports.

Outcome of a check:
  every obligation discharged                         -> exit 0
  an obligation fails, a failing input is found on the
      real g++-compiled code                          -> exit 1, VIOLATION property=.. replay=..
  an obligation fails, and still fails in the bounded
      re-check without loop invariants/frames, no
      failing input found on the real code            -> exit 1, VIOLATION ... no-failing-input-found
  contracts cannot be attached / verifier gives up / only
      invariant or frame obligations fail             -> bounded stand-in decides (labelled bounded)
"""
import sys, os, json, re, subprocess, tempfile, time, shutil, importlib.util, threading, resource
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VT_REPO", "/repo")
SRC = os.path.join(REPO, "CMakePasm", "source")
sys.path.insert(0, HERE)
import extract, assumptions

CFLAGS = ["-std=c11", "-D_GNU_SOURCE", "-D__NO_CTYPE", "-DNDEBUG", "-include", os.path.join(HERE, "prelude.h")]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
NCPU = os.cpu_count() or 4

def limits(mem_gb):
    def f():
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    return f

def sh(cmd, timeout=600, mem=8, cwd=None, env=None, inp=None):
    t0 = time.time()
    # the solvers a verifier starts are ended with it: each command has a process group of its own
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         preexec_fn=limits(mem) if mem else None)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return -999, "", "timeout", time.time() - t0

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.scratch = tempfile.mkdtemp(prefix=f"vt_{pid}_")
        self.cdir = os.path.join(self.scratch, "c")
        self.ex = None
        self.lock = threading.Lock()
        self.gb = {}
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", pid)
        self.unit_err = {}
        self.native_ok = None

    def log(self, *a):
        print(*a, flush=True)

    # ---------------------------------------------------------------- extraction
    def extract(self):
        self.ex = extract.Extraction(SRC, self.cdir)
        for h in sorted(os.listdir(SRC)):
            if h.endswith(".h"):
                try:
                    self.ex.header(h)
                except Exception as e:
                    self.unit_err[h] = f"{type(e).__name__}: {e}"
        for c in sorted(os.listdir(SRC)):
            if c.endswith(".cc"):
                try:
                    self.ex.load(c)
                    self.ex.emit(c)
                except Exception as e:
                    self.unit_err[c] = f"{type(e).__name__}: {e}"
        try:
            text, self.lex_rules = extract.lexer_source(os.path.join(SRC, "pasm.l"))
            lp = os.path.join(self.cdir, "lexer.cc")
            with open(lp, "w") as f: f.write(text)
            with open(os.path.join(self.cdir, "lex_rules.h"), "w") as f: f.write(extract.lexer_header(self.lex_rules))
            self.ex.load("lexer.cc", lp)
            self.ex.emit("lexer.cc")
        except Exception as e:
            self.unit_err["lexer.cc"] = f"{type(e).__name__}: {e}"
        rc, o, e, _ = sh(["bison", "-rall", "-o", os.path.join(self.cdir, "pasm.tab.cc"),
                          "--defines=" + os.path.join(self.cdir, "pasm.tab.h"), os.path.join(SRC, "pasm.y")], 60)
        if rc != 0:
            self.unit_err["pasm.y"] = e[-500:]

    def compile_unit(self, unit, loop_contracts=None, drop=(), defines=(), ghost=None):
        """goto-cc -c of an extracted unit; returns path or raises
        ghost: header with the declarations of ghost variables the loop contracts mention"""
        key = (unit, json.dumps(loop_contracts, sort_keys=True, default=str), tuple(drop), tuple(defines), ghost)
        with self.lock:
            ent = self.gb.setdefault(key, {"lock": threading.Lock(), "path": None, "err": None})
            ix = list(self.gb).index(key)
        with ent["lock"]:
            if ent["path"] is None and ent["err"] is None:
                try:
                    if unit + ".cc" in self.unit_err:
                        raise extract.ExtractError(self.unit_err[unit + ".cc"])
                    cfile = unit + ".c"
                    if loop_contracts or drop:
                        cfile = f"{unit}__{ix}.c"
                        self.ex.emit(unit + ".cc", cfile, loop_contracts, drop)
                    out = os.path.join(self.scratch, f"{unit}__{ix}.gb")
                    rc, o, e, _ = sh(["goto-cc", "-c"] + CFLAGS + (["-include", ghost] if ghost else []) + ["-D" + d for d in defines] +
                                     ["-I" + self.cdir, os.path.join(self.cdir, cfile), "-o", out], 120)
                    if rc != 0:
                        raise extract.ExtractError("goto-cc: " + "\n".join(
                            l for l in (o + e).splitlines() if "rror" in l)[:500])
                    ent["path"] = out
                except extract.ExtractError as e:
                    ent["err"] = str(e)
                except Exception as e:
                    ent["err"] = f"{type(e).__name__}: {e}"
        if ent["err"]:
            raise extract.ExtractError(f"{unit}: {ent['err']}")
        return ent["path"]

    # ---------------------------------------------------------------- native build
    def native(self, san=False):
        """compile the real sources with g++ (as the repository's build does: -O2 -DNDEBUG); returns dir
        san: with the address sanitizer (objects for native programs only)"""
        with self.lock:
            if not san and self.native_ok is not None:
                return self.native_ok
            if san and getattr(self, "san_ok", None) is not None:
                return self.san_ok
            d = os.path.join(self.scratch, "native_san" if san else "native")
            os.makedirs(d, exist_ok=True)
            self.native_err = ""
            r1 = sh(["bison", "-o", f"{d}/pasm.tab.cc", f"--defines={d}/pasm.tab.h", f"{SRC}/pasm.y"], 60)
            r2 = sh(["flex", "-o", f"{d}/pasm.flex.cc", f"{SRC}/pasm.l"], 60)
            files = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".cc")]
            files += [f"{d}/pasm.tab.cc", f"{d}/pasm.flex.cc"]
            def cc(f):
                o = os.path.join(d, os.path.basename(f)[:-3] + ".o")
                rc, so, se, _ = sh(["g++", "-std=c++17", "-O1", "-w", "-DNDEBUG", f"-I{SRC}", f"-I{d}", "-c", f, "-o", o] + SAN * san, 300, None)
                return rc, se
            with ThreadPoolExecutor(NCPU) as p:
                rs = list(p.map(cc, files))
            bad = [e for rc, e in rs if rc != 0]
            if r1[0] or r2[0] or bad:
                self.native_err = "native build failed: " + (bad[0][-1500:] if bad else r1[2] + r2[2])
                if san: self.san_ok = False
                else: self.native_ok = False
                return False
            objs = [os.path.join(d, os.path.basename(f)[:-3] + ".o") for f in files]
            if san:
                self.san_objs = [o for o in objs if not o.endswith("/main.o")]
                self.san_ok = d
                return d
            rc, so, se, _ = sh(["g++", "-o", f"{d}/pasm"] + objs, 120, None)
            if rc != 0:
                self.native_err = se[-1500:]
                self.native_ok = False
                return False
            self.native_objs = [o for o in objs if not o.endswith("/main.o")]
            self.native_ok = d
            return d

    def native_program(self, srcfile, name, extra=(), san=False):
        """build a C++ test program against the real objects; returns path or None"""
        d = self.native(san)
        if not d:
            return None
        out = os.path.join(d, name)
        rc, so, se, _ = sh(["g++", "-std=c++17", "-O1", "-w", "-fpermissive", "-DNDEBUG", f"-I{SRC}", f"-I{d}", f"-I{HERE}", f"-I{os.path.dirname(srcfile)}",
                            srcfile] + list(extra) + SAN * san + (self.san_objs if san else self.native_objs) + ["-o", out], 300, None)
        if rc != 0:
            self.native_err = se[-2000:]
            self.log("native program does not build:", se[-800:])
            return None
        return out

    def undefined(self, gb, stop):
        """functions without a body reachable from the harness; does not look below the functions in stop"""
        rc, o, e, _ = sh(["goto-instrument", "--reachable-call-graph", gb], 120)
        if rc != 0: return set()
        g = {}
        for l in o.splitlines():
            m = re.match(r'^(\S+) -> (\S+)$', l)
            if m: g.setdefault(m.group(1), set()).add(m.group(2))
        rc, o, e, _ = sh(["goto-instrument", "--list-undefined-functions", gb], 120)
        und = {l.strip() for l in o.splitlines() if re.match(r'^\s*[A-Za-z_]\w*\s*$', l)}
        seen, todo = set(), ["harness"]
        while todo:
            f = todo.pop()
            if f in seen: continue
            seen.add(f)
            if f not in stop: todo += g.get(f, ())
        return (seen & und) - stop

    # ---------------------------------------------------------------- one proof job
    def run_job(self, job, override=None, trace=False):
        j = dict(job)
        if override:
            j.update(override)
        name = j["name"]
        tag = re.sub(r'\W', '_', name) + ("_fb" if override else "") + ("_tr" if trace else "")
        res = dict(name=name, status="ok", obligations=0, discharged=0, failed=[], detail="", time=0.0,
                   bounded=j.get("bounded"), functions=j.get("functions", []), backend=j.get("backend", "SAT (cadical/minisat, cbmc default)"))
        t0 = time.time()
        try:
            gbs = []
            for u in j.get("units", []):
                lc = (j.get("loops") or {}).get(u)
                drop = (j.get("drop") or {}).get(u, ())
                gbs.append(self.compile_unit(u, lc, drop, defines=(j.get("unit_defines") or {}).get(u, ()), ghost=j.get("ghost") if lc or j.get("ghost_always") else None))
            for fn in j.get("functions", []):
                for u in j.get("units", []):
                    un = self.ex.units.get(u + ".cc")
                    if un and fn in un.errors:
                        raise extract.ExtractError(un.errors[fn])
            # only pass replace for functions which still exist
            a = os.path.join(self.scratch, tag + ".a.gb"); b = os.path.join(self.scratch, tag + ".b.gb")
            hfile = os.path.join(VERIF, "props", self.pid, j["harness"]) if not j["harness"].startswith("/") else j["harness"]
            rc, o, e, _ = sh(["goto-cc", "--function", "harness"] + CFLAGS + ["-I" + self.cdir, "-I" + HERE, "-I" + os.path.dirname(hfile)] +
                             ["-D" + d for d in j.get("defines", [])] + [hfile] + gbs + ["-o", a], 120)
            if rc != 0:
                raise extract.ExtractError("goto-cc link: " + "\n".join(l for l in (o + e).splitlines() if "rror" in l or "conflict" in l)[:800])
            cur = a
            # a callee that lives in /repo but is neither linked, stubbed nor contracted in this job would be
            # treated as returning anything: the job then says nothing about the code
            und = []
            for f in sorted(self.undefined(a, set(j.get("havoc", [])) | set(j.get("replace", [])) | set(j.get("drop_bodies", [])))):
                if any(un.endswith(".cc") and any(kind in ("func", "decl") and nm == f and bd is not None for kind, nm, tk, bd in u.items)
                       for un, u in self.ex.units.items()):
                    und.append(f)
            if und:
                g = os.path.join(self.scratch, tag + ".g.gb")
                rc, o, e, _ = sh(["goto-instrument", "--generate-function-body", "|".join(und), "--generate-function-body-options",
                                  "assert-false-assume-false", cur, g], 120)
                if rc != 0: raise extract.ExtractError("goto-instrument: " + (o + e)[-400:])
                cur = g
            if j.get("drop_bodies"):
                c2 = os.path.join(self.scratch, tag + ".r.gb")
                cmd = ["goto-instrument"]
                for f in j["drop_bodies"]:
                    cmd += ["--remove-function-body", f]
                rc, o, e, _ = sh(cmd + [cur, c2], 120)
                if rc != 0: raise extract.ExtractError("goto-instrument: " + (o + e)[-400:])
                cur = c2
            if j.get("pre_unwind"):
                c2 = os.path.join(self.scratch, tag + ".u.gb")
                rc, o, e, _ = sh(["goto-instrument", "--unwindset", ",".join(j["pre_unwind"]), "--unwinding-assertions", cur, c2], 120)
                if rc != 0: raise extract.ExtractError("goto-instrument: " + (o + e)[-400:])
                cur = c2
            if j.get("enforce") or j.get("replace") or j.get("loops"):
                cmd = ["goto-instrument", "--dfcc", "harness"] if not j.get("plain_loops") else ["goto-instrument"]
                if j.get("enforce"):
                    cmd += ["--enforce-contract", j["enforce"]]
                for r in j.get("replace", []):
                    cmd += ["--replace-call-with-contract", r]
                if j.get("loops"):
                    cmd += ["--apply-loop-contracts"]
                for v in j.get("keep_static", []):
                    cmd += ["--nondet-static-exclude", v]
                rc, o, e, _ = sh(cmd + [cur, b], 300)
                if rc != 0:
                    raise extract.ExtractError("goto-instrument --dfcc: " + (o + e)[-600:])
                cur = b
            cmd = ["cbmc", cur, "--json-ui", "--drop-unused-functions", "--slice-formula", "--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check"] if not j.get("all_checks") else ["cbmc", cur, "--json-ui", "--drop-unused-functions", "--slice-formula"]
            if j.get("object_bits"):
                cmd += ["--object-bits", str(j["object_bits"])]
            if j.get("unwind"):
                cmd += ["--unwind", str(j["unwind"])]
                if not j.get("no_unwinding_assertions"):
                    cmd += ["--unwinding-assertions"]
                else:
                    cmd += ["--no-unwinding-assertions"]
            if j.get("unwindset"):
                cmd += ["--unwindset", ",".join(j["unwindset"])]
            cmd += j.get("flags", [])
            if trace:
                cmd += ["--trace"]
            if override is None and not trace:
                res["cmd"] = " ".join(cmd)
            env = dict(os.environ, PATH=os.path.join(HERE, "bin") + ":" + os.environ.get("PATH", "")) if "--z3" in cmd else None   # bin/z3: the newer z3
            rc, o, e, dt = sh(cmd, j.get("timeout", 300), j.get("mem", 8), env=env)
            res["time"] = time.time() - t0
            res["solver_time"] = dt
            if rc == -999:
                res.update(status="timeout", detail=f"verifier timed out after {dt:.0f}s"); return res
            try:
                msgs = json.loads(o)
            except Exception:
                res.update(status="tool", detail="cbmc output not understood: " + (o[-300:] + e[-300:])); return res
            results = None
            for m in msgs:
                if "result" in m: results = m["result"]
            if results is None:
                errs = [m.get("messageText", "") for m in msgs if m.get("messageType") == "ERROR"]
                res.update(status="tool", detail="cbmc: " + "; ".join(errs)[:600]); return res
            reach = [r for r in results if "vt_reach" in r.get("description", "")]
            real = [r for r in results if "vt_reach" not in r.get("description", "")]
            ign = j.get("ignore")
            if ign:
                real = [r for r in real if not re.search(ign, r["property"])]
            undecided = [r for r in real if r["status"] not in ("SUCCESS", "FAILURE")]
            if undecided and not any(r["status"] == "FAILURE" for r in real):
                res.update(status="tool", obligations=len(real), discharged=len(real) - len(undecided),
                           detail=f"undecided: {undecided[0]['status']} for {len(undecided)} obligations; " + "; ".join(m.get("messageText", "") for m in msgs if m.get("messageType") == "ERROR")[:300]); return res
            fails = [r for r in real if r["status"] == "FAILURE"]
            und_hit = [r["property"].split(".")[0] for r in fails if "undefined function should be unreachable" in r.get("description", "")]
            # a call of a function that is not linked here (a helper that could not be extracted, say): no answer
            und_hit += [r["property"].split(".")[-1] for r in fails if ".no-body." in r["property"]]
            # a callee's stub is called in a way the stub does not model: no answer
            und_hit += [f'{r["property"].split(".")[0]} ({r["description"][7:]})' for r in fails if r.get("description", "").startswith("model: ")]
            if und_hit:
                res.update(status="extract", outside=True, detail=f"{', '.join(und_hit)} is called but is not part of this job, or not in the way its stub models"); return res
            res["obligations"] = len(real); res["discharged"] = len(real) - len(fails)
            res["properties"] = [f'{r["property"]}: {r["description"]}' for r in real if re.search(r'assertion|postcondition|precondition|loop_invariant|loop_decreases|loop_step', r["property"])]
            if not reach and j.get("reach") and not override:
                rr = self.run_job({k: v for k, v in j.items() if k != "reach"} | dict(j["reach"], name=name + "_reach"), None)
                if rr["status"] in ("ok", "fail"): reach = [dict(description="vt_reach", status="FAILURE")]
                else:
                    res.update(status=rr["status"], detail="reachability: " + rr["detail"]); return res
            if not reach:
                res.update(status="tool", detail="no reachability witness in harness"); return res
            unre = [r for r in reach if r["status"] == "SUCCESS"]
            if unre:
                res.update(status="vacuous", detail="reachability check failed: " + ", ".join(r["description"] for r in unre)); return res
            if not real:
                res.update(status="tool", detail="zero obligations"); return res
            if fails:
                res["status"] = "fail"
                res["failed"] = [dict(property=r["property"], description=r["description"],
                                      line=r.get("sourceLocation", {}).get("line"), function=r.get("sourceLocation", {}).get("function")) for r in fails]
                if trace:
                    cex = {}
                    for r in fails:
                        if "trace" not in r: continue
                        c = {}
                        for s in r["trace"]:
                            if s.get("stepType") == "assignment":
                                lhs = s.get("lhs", "")
                                v = s.get("value", {})
                                if re.match(r'in_\w+(\[\d+l?\])?$', lhs) and ("data" in v):
                                    c[re.sub(r'l\]', ']', lhs)] = v.get("data")
                        cex[r["property"]] = c
                    res["cex"] = cex
            return res
        except extract.ExtractError as e:
            res.update(status="extract", detail=str(e)); res["time"] = time.time() - t0
            return res
        except Exception as e:
            import traceback
            res.update(status="tool", detail=traceback.format_exc()[-800:]); res["time"] = time.time() - t0
            return res

SOFT = re.compile(r'\.(assigns|loop_assigns|loop_invariant_base|loop_invariant_step|loop_decreases|loop_step_unwinding|unwind|no_alloc_dealloc\w*|no_recursive_call|single_top_level_call|precondition|pointer_dereference|pointer_arithmetic|pointer_primitives|array_bounds|overflow|division-by-zero|memory-leak|undefined-shift|enum-range-check|recursion)\.')

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(pid)
    code = 0
    try:
        code = run(ctx, pid, t0)
    finally:
        if not os.environ.get("VT_KEEP"):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        else:
            print("scratch", ctx.scratch)
    sys.exit(code)

def run(ctx, pid, t0):
    spec = importlib.util.spec_from_file_location("jobs_" + pid, os.path.join(VERIF, "props", pid, "jobs.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    shutil.rmtree(ctx.replay_dir, ignore_errors=True)
    os.makedirs(ctx.replay_dir, exist_ok=True)
    ctx.extract()
    jobs = mod.jobs(ctx) if callable(mod.jobs) else mod.jobs
    only = os.environ.get("VT_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    jobs = [j for j in jobs if ctx.tier == "thorough" or not j.get("thorough_only")]
    par = max(1, min(NCPU, getattr(mod, "PARALLEL", NCPU)))
    with ThreadPoolExecutor(par) as pool:
        results = list(pool.map(ctx.run_job, jobs))
    by = {j["name"]: j for j in jobs}
    for r in results:
        ctx.log(f'[{r["status"]:8}] {r["name"]:44} obligations {r["discharged"]}/{r["obligations"]}  {r["time"]:.1f}s' +
                (f'  (bounded: {r["bounded"]})' if r.get("bounded") else "") + (f'  {r["detail"]}' if r["detail"] else ""))
        for f in r["failed"][:int(os.environ.get('VT_FAILS', '12'))]:
            ctx.log("      FAILED", f["property"], "|", f["description"])
    bad = [r for r in results if r["status"] != "ok"]
    downgraded = []
    violations = []   # (result, replay_text, has_input)
    replayed = {}
    known = load_known(pid)

    # second look at everything that is not ok: bounded re-check without loop invariants and frames
    def second(r):
        job = by[r["name"]]
        fb = job.get("fallback")
        if fb is None and r["status"] == "fail":
            fb = {}
        if fb is None or r.get("outside"):      # the bounded form has the same stubs
            return None
        fb = dict(fb)
        fb.setdefault("loops", None)
        if fb.get("ignore") is None:
            fb["ignore"] = r'\.(assigns|loop_assigns|no_alloc_dealloc\w*|no_recursive_call|single_top_level_call|frees|unwind|recursion)\.'
        if not (fb.get("loops") is None and job.get("loops")):
            pass
        if job.get("loops") and "unwind" not in fb:
            fb["unwind"] = 6
        if fb.get("unwind"):
            fb["no_unwinding_assertions"] = True
        fb.setdefault("timeout", 120)
        return ctx.run_job(job, fb, trace=True)
    if bad:
        with ThreadPoolExecutor(par) as pool:
            seconds = list(pool.map(second, bad))
    else:
        seconds = []
    hard = []
    for r, s in zip(bad, seconds):
        if s is not None:
            ctx.log(f'  bounded re-check of {r["name"]}: {s["status"]} {s["detail"]}')
            for f in s["failed"][:12]:
                ctx.log("      FAILED", f["property"], "|", f["description"])
        if s is not None and s["status"] == "fail":
            hard.append((r, s))
        else:
            downgraded.append((r, s))

    # concrete search on the real code: to replay what failed, and as the bounded stand-in
    nat = None
    always = getattr(mod, "STANDIN_ALWAYS", False)
    natinfo = {}
    if hasattr(mod, "replay") and (bad or always or ctx.tier == "thorough"):
        cexs = []
        for r, s in hard:
            for p, c in (s.get("cex") or {}).items():
                if c: cexs.append(c)
        def listed(r):
            return r["status"] == "fail" and r["failed"] and all(any(k.get("match_obligation") and re.search(k["match_obligation"], r["name"] + " " + x["property"] + " " + x["description"]) for k in known) for x in r["failed"])
        ctx.unproved = any(not listed(r) for r in bad)
        try:
            nat = mod.replay(ctx, cexs, natinfo)
        except Exception as e:
            import traceback
            ctx.log("replay error:", traceback.format_exc()[-1500:])
            natinfo["error"] = str(e)
    known_hit = []
    out = 0
    if nat:
        fails = nat if isinstance(nat, list) else [nat]
        newf = []
        for f in fails:
            k = next((k for k in known if k.get("match") and re.search(k["match"], f["what"])), None)
            if k: known_hit.append(k)
            else: newf.append(f)
        if newf:
            f = newf[0]
            path = os.path.join(ctx.replay_dir, "replay.txt")
            with open(path, "w") as fh:
                fh.write(f"property {pid}\nfailing input on the real code (g++ build of /repo):\n{f['what']}\n\n")
                fh.write((f.get("detail") or "") + "\n")
                for r, s in hard:
                    fh.write(f"\nfailed obligations of {r['name']} (functions {', '.join(r['functions'])}):\n")
                    for x in (r["failed"] or s["failed"]):
                        fh.write(f"  {x['property']}: {x['description']}\n")
            ctx.log("failing input: " + f["what"][:600])
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            violations.append(f["what"])
            out = 1
    if out == 0 and hard:
        # failed obligations listed as known findings
        rest = []
        for r, s in hard:
            un = [x for x in s["failed"] if not any(k.get("match_obligation") and re.search(k["match_obligation"], r["name"] + " " + x["property"] + " " + x["description"]) for k in known)]
            for k in known:
                if k.get("match_obligation") and any(re.search(k["match_obligation"], r["name"] + " " + x["property"] + " " + x["description"]) for x in s["failed"]):
                    known_hit.append(k)
            if un: rest.append((r, s, un))
        if rest:
            path = os.path.join(ctx.replay_dir, "obligations.txt")
            with open(path, "w") as fh:
                fh.write(f"property {pid}: obligations that no longer verify; no failing input found on the real code\n")
                for r, s, un in rest:
                    fh.write(f"\n{r['name']} (functions {', '.join(r['functions'])}):\n")
                    for x in un:
                        fh.write(f"  {x['property']}: {x['description']} (line {x['line']} of {x['function']})\n")
                    fh.write("  verifier counterexamples: " + json.dumps(s.get("cex"), indent=1) + "\n")
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found", flush=True)
            violations.append("obligations: " + "; ".join(x["property"] for r, s, un in rest for x in un)[:300])
            out = 1
    seen = set()
    for k in known_hit:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    for k in known:
        if k.get("always") and k["id"] not in seen:
            print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)

    # ---------------------------------------------------------------- evidence
    level = getattr(mod, "LEVEL", "proof")
    proved = [r for r in results if r["status"] == "ok" and not r.get("bounded")]
    boundedr = [r for r in results if r["status"] == "ok" and r.get("bounded")]
    funcs = sorted({f for r in proved for f in r["functions"]})
    cov = dict(
        obligations=sum(r["obligations"] for r in results if not r.get("bounded")),
        discharged=sum(r["discharged"] for r in results if not r.get("bounded")),
        checker_cmd="goto-cc (C extraction of /repo) ; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract/--apply-loop-contracts ; cbmc --json-ui",
        trusted_base=list(getattr(mod, "TRUSTED", [])) + ["cbmc/goto-cc/goto-instrument 6.11.0 and its SAT back end (cvc5 1.1.2 where named)",
                      "vt/extract.py: the C++ to C token rewrite (rewrites listed under extraction.rewrites)"],
        functions_under_contract=funcs,
        jobs=[dict(name=r["name"], status=r["status"], functions=r["functions"], obligations=r["obligations"], discharged=r["discharged"],
                   bounded=r.get("bounded"), seconds=round(r["time"], 2), back_end=r["backend"], detail=r["detail"] or None) for r in results],
        solver_seconds=round(sum(r.get("solver_time", 0) for r in results), 2),
        named_obligations=sum(len(r.get("properties", [])) for r in proved),
        samples=[p for r in proved for p in r.get("properties", [])][:25],
        bounded_jobs=[dict(name=r["name"], bound=r["bounded"], obligations=r["obligations"], discharged=r["discharged"]) for r in boundedr],
        downgraded=[dict(name=r["name"], why=r["status"] + ": " + (r["detail"] or "; ".join(x["property"] for x in r["failed"][:6])),
                         standin=(s["status"] if s else "concrete stand-in only")) for r, s in downgraded],
        extraction=dict(rewrites=extract.REWRITES, dropped=ctx.ex.dropped, failed=ctx.unit_err or None),
    )
    if natinfo:
        cov["bounded_standin"] = natinfo
        for k in ("evaluations", "distinct_nontrivial", "rule"):
            if k in natinfo: cov[k] = natinfo[k]
    if level != "proof":
        cov.setdefault("explanation", getattr(mod, "EXPLANATION", ""))
    ev = dict(property=pid, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick", seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions.COMMON + assumptions.EXTRA.get(pid, []) + list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.log(f"{pid}: {len(proved)} proof jobs, {cov['discharged']}/{cov['obligations']} obligations, {len(boundedr)} bounded jobs, "
            f"{len(downgraded)} downgraded, {time.time()-t0:.1f}s, exit {out}")
    return out

if __name__ == "__main__":
    main()
