"""Bounded stand-in and replay shared by the checks: random programs, assembled by the real pasm and by the
reference assembler of e2e.py.  Used (a) to look for a failing input on the real code when an obligation fails,
(b) as the labelled bounded stand-in for the parts no contract covers (lexer, grammar, composition)."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import e2e

def programs(feats, want=("bytes",), n=2500, thorough=40000, extra=None, errors=0):
    def replay(ctx, cexs, info):
        k = thorough if ctx.tier == "thorough" else n
        ex = extra(ctx) if callable(extra) else (extra or [])
        e = errors * (10 if ctx.tier == "thorough" else 1)
        if getattr(ctx, "unproved", False) and ctx.tier != "thorough":
            k, e = k * 5, e * 5     # an obligation does not verify any more: look harder for a failing input
        return e2e.campaign(ctx, info, feats, k, want, ex, e)
    return replay

def native(src, args=(), n=1, thorough=20, extra=(), timeout=200, sanitize=False):
    """a C++ program over the real objects; prints FAIL <what> lines and a last line COUNT <cases>.
    It gets the seed, an effort factor, and the integers of the verifier's counterexamples (name=value)."""
    def replay(ctx, cexs, info):
        import driver
        exe = ctx.native_program(src, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src).split(".")[0], list(extra), sanitize)
        if exe is None:
            info["native_error"] = ctx.native_err
            return None
        av = [exe, str(ctx.seed), str(thorough if ctx.tier == "thorough" else min(thorough, n * 4) if getattr(ctx, "unproved", False) else n)] + list(args)
        for c in cexs[:20]:
            av.append(",".join(f"{k}={v}" for k, v in c.items() if isinstance(v, (str, int))))
        d = os.path.join(ctx.scratch, "nat_run"); os.makedirs(d, exist_ok=True)
        rc, o, e, dt = driver.sh(av, timeout * (10 if ctx.tier == "thorough" else 1), None, cwd=d)
        fails = [l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
        cnt = [int(l.split()[1]) for l in o.splitlines() if l.startswith("COUNT ")]
        info["evaluations"] = info.get("evaluations", 0) + sum(cnt)
        info.setdefault("native", []).append(dict(program=os.path.relpath(src, os.path.dirname(HERE)), cases=sum(cnt), seconds=round(dt, 2)))
        ctx.log(f"  native {os.path.basename(src)}: {sum(cnt)} cases, {len(fails)} failures, rc {rc}, {dt:.1f}s")
        if fails:
            return [dict(what=fails[0], detail="\n".join(fails[:20]) + "\ncommand: " + " ".join(av[1:]))]
        if rc == -999:
            return [dict(what="the program does not finish: " + os.path.basename(src), detail=o[-1500:])]
        if rc != 0:
            return [dict(what=f"the program exercising the real code crashed (exit {rc}): " + (o.splitlines() or [""])[-1][:200], detail=o[-1500:] + e[-3000:])]
        if not cnt:
            return [dict(what="the program exercising the real code ended early", detail=o[-1500:] + e[-1500:])]
        return None
    return replay

HERE = os.path.dirname(os.path.abspath(__file__))

def both(*rs):
    def replay(ctx, cexs, info):
        out = []
        for r in rs:
            out += (r(ctx, cexs, info) or [])
        return out or None
    return replay
