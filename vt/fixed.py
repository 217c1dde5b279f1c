"""Fixed programs at boundaries which random programs seldom reach (part of the bounded stand-in).
A case is (property, name, source, expected) with expected = bytes of the output, or an error (None), or a
function of (exit status, output bytes, listing text, symbol text) that returns what is wrong."""
import os, sys, subprocess, tempfile, shutil
CASES = []
def case(props, name, src, want, args=(), files=None, names=("p.asm",)):
    CASES.append(dict(props=props.split(), name=name, src=src, want=want, args=list(args), files=files or {}, names=list(names)))

def run_case(pasm, c, d):
    os.makedirs(d)
    try:
        for f, t in list(c["files"].items()) + ([("p.asm", c["src"])] if c["src"] is not None else []):
            p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh: fh.write(t if isinstance(t, bytes) else t.encode("latin1"))
        cmd = [pasm] + ([] if "-o" in c["args"] else ["-o", "out.bin"]) + ["-l", "out.lst", "-s", "out.sym"] + c["args"] + c["names"]
        if c.get("raw"): cmd = [pasm] + c["args"]
        try:
            p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        except subprocess.TimeoutExpired:
            return "does not finish"
        def rd(n, b=False):
            q = os.path.join(d, n)
            if not os.path.exists(q): return b"" if b else ""
            with open(q, "rb") as fh: t = fh.read()
            return t if b else t.decode("latin1")
        out = rd("out.bin", True)
        say = "\n" + p.stdout.decode("latin1")[-600:]
        if p.returncode < 0: return f"crashed with signal {-p.returncode}" + say
        w = c["want"]
        if w is None: return None if p.returncode != 0 else "exit status 0 where an error has to be reported" + say
        if callable(w):
            r = w(p.returncode, out, rd("out.lst"), rd("out.sym"))
            return r and r + say
        if p.returncode != 0: return f"exit status {p.returncode}" + say
        if out != bytes(w):
            k = next((i for i in range(min(len(out), len(w))) if out[i] != w[i]), min(len(out), len(w)))
            return f"output of {len(out)} bytes, expected {len(w)}; first difference at {k}: {out[k:k+8].hex(' ')}, expected {bytes(w)[k:k+8].hex(' ')}" + say
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def cases(pid):
    import fixedcases
    def replay(ctx, cexs, info):
        d = ctx.native()
        if not d: raise RuntimeError(ctx.native_err)
        out = []
        mine = [c for c in CASES if pid in c["props"]]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as pool:
            rs = list(pool.map(lambda ic: run_case(os.path.join(d, "pasm"), ic[1], os.path.join(ctx.scratch, f"fx{ic[0]}")), enumerate(mine)))
        for c, r in zip(mine, rs):
            if r:
                src = c["src"] or ""
                out.append(dict(what=f"{c['name']}: {r.splitlines()[0]}", detail=f"{r}\narguments: {c['args']}\n" + (src if len(src) < 4000 else src[:4000] + "\n...") + "".join(f"\n--- {n}\n{str(t)[:1500]}" for n, t in c["files"].items())))
        info["fixed_programs"] = len(mine)
        info["evaluations"] = info.get("evaluations", 0) + len(mine)
        ctx.log(f"  fixed programs: {len(mine)}, {len(out)} failures")
        return out or None
    return replay
