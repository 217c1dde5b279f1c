#!/usr/bin/env python3
"""Bounded end-to-end stand-in: random assembly programs, an independent reference assembler, the real pasm.

The reference assembler below works on the generator's own syntax tree (it never parses text) and computes the
emitted (address, bytes) records, the output image, the symbol values and whether assembly must fail.  The real
program gets the rendered text.  Bounded: it only speaks for the programs generated.
"""
import os, random, re, multiprocessing, subprocess, tempfile, shutil, sys, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import opcode_oracle as oo

def nest(t):
    out = {}
    for (n, m), c in t.items(): out.setdefault(n, {})[m] = c
    return out
NMOS, UND, CMOS = nest(oo.nmos()), nest(oo.nmos_undocumented()), nest(oo.cmos())
BRANCHES = ["bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq"]
REV = dict(bpl="bmi", bmi="bpl", bvc="bvs", bvs="bvc", bcc="bcs", bcs="bcc", bne="beq", beq="bne")

class RefError(Exception):
    pass
class Skip(Exception):
    pass

def i32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v

# ------------------------------------------------------------------------------------------------ expressions
# ('n', v, text) ('s', name) ('p', k) macro parameter  ('*',) ('u', op, e) ('b', op, l, r) ('+-', text)
LEVEL = {"<<": 1, ">>": 1, "||": 2, "&&": 2, ">=": 2, "<=": 2, "==": 2, "!=": 2, "<>": 2, ">": 2, "<": 2,
         "|": 3, "&": 3, "^": 3, "+": 4, "-": 4, "*": 5, "/": 5}

def ev_un(op, v):
    if op == "-": return i32(-v)
    if op == "~": return (~v) & (0xFFFF if v & ~0xFF else 0xFF)
    if op == "<": return v & 0xFF
    if op == ">": return (v >> 8) & 0xFF
    if op == "not": return 0 if v else 1
    raise Skip(op)

def ev_bin(op, a, b):
    if op == "+": return i32(a + b)
    if op == "-": return i32(a - b)
    if op == "*": return i32(a * b)
    if op == "/":
        if b == 0: raise RefError("division by zero")
        q = abs(a) // abs(b)
        return i32(q if (a < 0) == (b < 0) else -q)
    if op == "|": return a | b
    if op == "&": return a & b
    if op == "^": return a ^ b
    if op == "<<":
        if not 0 <= b <= 15 or a < 0: raise Skip("shift")
        return i32(a << b)
    if op == ">>":
        if not 0 <= b <= 15: raise Skip("shift")
        return a >> b
    return int({"||": bool(a) or bool(b), "&&": bool(a) and bool(b), "==": a == b, "!=": a != b, "<>": a != b,
                "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])

def estr(e, top=True):
    k = e[0]
    if k == "n": return e[2]
    if k == "s": return e[1]
    if k == "p": return "\\%d" % e[1]
    if k == "*": return "*"
    if k == "+-": return e[1]
    if k == "raw": return e[1]
    if k == "u":
        op, x = e[1], e[2]
        if op == "-":
            return "-" + x[2] if x[0] == "n" and x[1] >= 0 and x[2][0] in "0123456789$%" else "-(" + estr(x) + ")"
        s = "(" + estr(x) + ")"
        if x[0] in ("n", "s", "p"): s = estr(x)
        return {"~": "~", "<": "<", ">": ">", "not": "not "}[op] + s
    if k == "b":
        def side(x):
            s = estr(x, False)
            return s if x[0] in ("n", "s", "p") else "(" + s + ")"
        return side(e[2]) + " " + e[1] + " " + side(e[3])
    if k == "flat":       # printed without parentheses
        return e[1]
    raise AssertionError(e)

def opstr(e):
    s = estr(e)
    return ("0 + " + s) if s[0] in "(*" else s

# ------------------------------------------------------------------------------------------------ reference
class Ref:
    def __init__(self, prog):
        self.prog = prog
        self.opt = prog["opt"]
        self.syms = {}           # lower fullname -> value | None
        for n, v in self.opt.get("defs", []):
            self.syms[n.lower()] = v
        self.macros = {}
        self.pm = {"+": {}, "-": {}}
        self.used = {}

    def code(self, mn, mode):
        t = CMOS if self.cpu == "65c02" else NMOS
        k = mn if mn in t else None
        if k is not None and mode in t[k]:
            return t[k][mode]
        if self.ill and mn in UND and mode in UND[mn]:
            return UND[mn][mode]
        return None

    def find(self, name):
        """full name of the symbol a reference means, or None"""
        n = name.lower()
        if self.scope:
            f = self.scope.lower() + "." + n
            if f in self.syms: return f
        return n if n in self.syms else None

    def ev(self, e):
        """-> (value, unresolved)"""
        k = e[0]
        if k == "n": return e[1], False
        if k == "*": return self.pc, False
        if k == "p":
            return self.params[-1][e[1]], False
        if k == "s":
            name = e[1]
            if name[0] == "@":
                f = (self.last + "/" + name).lower()
                if self.scope: f = self.scope + "#" + f
                if f not in self.syms:
                    self.unres += 1
                    self.syms.setdefault(f, None)
                    return 0, False
                v = self.syms[f]
                if v is None:
                    self.unres += 1
                    return 0, False
                return v, False
            f = self.find(name)
            if f is None:
                f = (self.scope + "." if self.scope and "." not in name else "") + name
                self.syms[f.lower()] = None
                f = f.lower()
            self.used[f] = self.used.get(f, 0) + 1
            v = self.syms[f]
            if v is None:
                self.unres += 1
                return 0, True
            return v, False
        if k == "+-":
            t = self.pm[e[1][0]]
            lines = sorted(t)
            if e[1][0] == "-":
                c = [l for l in lines if l <= self.line]
                c = c[len(c) - len(e[1]):len(c) - len(e[1]) + 1] if len(c) >= len(e[1]) else []
            else:
                c = [l for l in lines if l > self.line][len(e[1]) - 1:len(e[1])]
            if not c:
                self.unres += 1
                return 0, True
            return t[c[0]], False
        if k == "u":
            v, u = self.ev(e[2])
            return ev_un(e[1], v), u
        if k == "flat":
            return self.ev(e[2])
        if k == "b":
            a, u = self.ev(e[2])
            # || and && do not evaluate what cannot matter
            if e[1] == "||" and a: return 1, u
            if e[1] == "&&" and not a: return 0, u
            b, w = self.ev(e[3])
            return ev_bin(e[1], a, b), u or w
        raise AssertionError(e)

    def emit(self, bs):
        if not self.have_origin:
            self.origin = self.pc - self.written
            self.have_origin = True
        if not self.image_started:
            self.image_started = True
            self.image_org = self.origin
        while self.pc - self.origin > self.written:
            self.out.append(0); self.written += 1
        self.rec.append((self.pc & 0xFFFF, bytes(bs)))
        self.out += bs
        self.written += len(bs)

    def setsym(self, f, v):
        f = f.lower()
        if not 0 <= v <= 0xFFFF and f not in self.vars:
            raise RefError("value out of range")
        if self.syms.get(f) != v:
            if f not in self.vars: self.changed += 1
            self.syms[f] = v

    def ins(self, mn, mode, e):
        pc0 = self.pc
        if self.assigned and not self.have_origin:
            self.origin = self.pc - self.written; self.have_origin = True
        if mode == "i" or mode == "A":
            c = self.code(mn, "i")
            if c is None: c = self.code(mn, "A")
            if c is None: raise RefError(f"{mn} implied")
            self.emit_ins([c]); self.pc = pc0 + 1
            return
        v, un = self.ev(e)
        if self.code(mn, "r") is not None:
            local = e[0] == "s" and e[1][0] == "@" or e[0] == "+-"
            if un or (local and v == 0):
                v = self.pc; un = True
            d = v - (pc0 + 2)
            if un or -128 <= d <= 127:
                self.emit_ins([self.code(mn, "r"), d & 0xFF])
                self.pc = pc0 + 2
            elif mn == "bra":
                self.emit_ins([0x4C, v & 0xFF, (v >> 8) & 0xFF])
                self.pc = pc0 + 3
            else:
                if mn not in REV: raise Skip("far " + mn)
                self.emit_ins([self.code(REV[mn], "r"), 3])
                self.pc = pc0 + 2
                self.emit_ins([0x4C, v & 0xFF, (v >> 8) & 0xFF])
                self.pc = pc0 + 5
                self.far += 1
            return
        if mode == "I":
            c = self.code(mn, "I")
            if c is None: raise RefError(f"{mn} #")
            if not un and (v > 255 or v < -255): raise RefError("immediate out of range")
            self.emit_ins([c, v & 0xFF]); self.pc = pc0 + 2
            return
        zform = {"a": "zp", "ax": "zpx", "ay": "zpy", "ind": "zpi", "aix": "izx", "izy": "izy"}[mode]
        big, small = (self.code(mn, mode) if mode != "izy" else None), self.code(mn, zform)
        if big is None and small is None: raise RefError(f"{mn} {mode}")
        if (small is not None and not un and 0 <= v <= 0xFF) or big is None:
            if not un and not 0 <= v <= 0xFF: raise RefError("operand out of range")
            self.emit_ins([small, v & 0xFF]); self.pc = pc0 + 2
        else:
            if not un and not 0 <= v <= 0xFFFF: raise Skip("operand")
            self.emit_ins([big, v & 0xFF, (v >> 8) & 0xFF]); self.pc = pc0 + 3

    def emit_ins(self, bs):
        if not self.have_origin:
            self.noorg_ins += 1
        self.emit(bs)

    def label(self, name):
        if name[0] == "@":
            f = (self.last + "/" + name).lower()
            if self.scope: f = self.scope + "#" + f
        else:
            f = (self.scope + "." if self.scope else "") + name
            self.last = name
        self.setsym(f, self.pc)
        self.labels.add(f.lower())

    def block(self, stmts):
        for s in stmts:
            if self.end: return
            self.stmt(s)
            self.steps += 1
            if self.steps > 60000: raise Skip("too many steps")
            if self.pc > 0x1FFFF: raise RefError("runaway")
            if len(self.rec) > 200000: raise Skip("too long")

    def stmt(self, s):
        self.line = getattr(s, "line", self.line) if not isinstance(s, list) else self.line
        k = s["k"]
        if not self.frozen: self.line = s["line"]
        if k == "label":
            self.label(s["name"])
        elif k == "pm":
            if self.pm[s["c"]].get(self.line) != self.pc:
                self.changed += 1
                self.pm[s["c"]][self.line] = self.pc
        elif k == "ins":
            self.ins(s["mn"], s["mode"], s.get("e"))
        elif k in ("byte", "word", "str"):
            if not self.have_origin:
                self.origin = self.pc - self.written; self.have_origin = True
            for it in s["items"]:
                if it[0] == "S":
                    bs = list(it[1])
                    if k == "word" and len(bs) % 2: bs.append(0)
                    if bs: self.emit(bs)
                    self.pc += len(bs)
                    continue
                v, un = self.ev(it)
                if k == "byte":
                    if not un and not -254 <= v <= 255: self.late("byte range")
                    self.emit([v & 0xFF]); self.pc += 1
                elif k == "word":
                    if not un and not -65534 <= v <= 65535: self.late("word range")
                    self.emit([v & 0xFF, (v >> 8) & 0xFF]); self.pc += 2
                else:
                    if un: v = 0
                    elif not -65534 <= v <= 65535: self.late("str range")
                    if 0 <= v <= 255:
                        self.emit([v]); self.pc += 1
                    else:
                        self.emit([v & 0xFF, (v >> 8) & 0xFF]); self.pc += 2
        elif k == "fill":
            v, _ = self.ev(s["v"]); n, _ = self.ev(s["n"])
            if not 0 <= v <= 255 or n < 0: raise RefError("fill")
            while n > 0:
                self.emit([v] * min(2, n)); self.pc += min(2, n); n -= 2
        elif k == "load":
            d = self.prog["files"][s["f"]]
            for ix in range(0, len(d), 2):
                if not self.have_origin:
                    self.origin = self.pc - self.written; self.have_origin = True
                self.emit(list(d[ix:ix + 2])); self.pc += len(d[ix:ix + 2])
        elif k == "ds":
            n, _ = self.ev(s["n"])
            if n < 0: raise RefError("ds")
            self.pc += n
        elif k == "org":
            if self.org_seen: raise RefError("org twice")
            v, _ = self.ev(s["e"])
            self.org_seen = True; self.assigned = True; self.have_origin = True
            self.pc = v; self.origin = v - self.written
        elif k == "pc":
            v, _ = self.ev(s["e"])
            self.assigned = True; self.have_origin = True
            self.pc = v; self.origin = v - self.written
        elif k == "equ":
            v, _ = self.ev(s["e"])
            f = s["name"]
            if self.scope and "." not in f and s["name"].lower() not in self.vars:
                f = self.scope + "." + f
            self.setsym(f, v)
        elif k == "set":
            v, _ = self.ev(s["e"])
            f = self.find(s["name"])
            if f not in self.vars: raise Skip("variable")
            self.setsym(f, v)
        elif k == "var":
            for n, e in s["vs"]:
                f = ((self.scope + "." if self.scope else "") + n).lower()
                self.vars.add(f)
                self.syms[f] = 0
                if e is not None: self.syms[f] = self.ev(e)[0]
        elif k == "sec":
            self.scope = (self.scope + "." if self.scope else "") + s["name"]
            self.block(s["body"])
            self.scope = self.scope.rsplit(".", 1)[0] if "." in self.scope else ""
        elif k == "if":
            v, _ = self.ev(s["c"])
            self.block(s["t"] if v else (s["f"] or []))
        elif k == "for":
            st = self.ev(s["step"])[0] if s["step"] is not None else 1
            f = self.find(s["var"])
            if f not in self.vars: raise Skip("loop variable")
            self.setsym(f, self.ev(s["a"])[0])
            end = self.ev(s["b"])[0]
            while not (st > 0 and self.syms[f] > end or st < 0 and self.syms[f] < end):
                self.block(s["body"])
                self.steps += 1
                if self.steps > 60000: raise Skip("too many steps")
                if self.pc > 0xFFFF: raise RefError("infinite loop")
                if st == 0: raise Skip("step 0")
                self.setsym(f, self.syms[f] + st)
        elif k == "while":
            n = 0
            while self.ev(s["c"])[0]:
                self.block(s["body"]); n += 1; self.steps += 1
                if self.pc > 0xFFFF: raise RefError("infinite loop")
                if n > 20000 or self.steps > 60000: raise Skip("loop")
        elif k in ("repeat", "do"):
            while True:
                self.block(s["body"])
                self.steps += 1
                if self.steps > 60000: raise Skip("too many steps")
                if self.pc > 0xFFFF: raise RefError("infinite loop")
                v = self.ev(s["c"])[0]
                if (k == "repeat") == bool(v): break
        elif k == "macro":
            self.macros[s["name"].lower()] = s
        elif k == "call":
            m = self.macros[s["name"].lower()]
            args = [None] + [self.ev(a)[0] for a in s["args"]]
            if any(a is not None and not 0 <= a <= 65535 for a in args): raise Skip("macro argument")
            self.params.append(args)
            sl, sf = self.last, self.frozen
            self.mcount += 1
            self.last = "m%d:%s" % (self.mcount, s["name"])
            self.frozen = True
            self.block(m["body"])
            self.last, self.frozen = sl, sf
            self.params.pop()
        elif k == "ifdef":
            d = self.find(s["name"]) is not None
            self.block(s["t"] if d != s["neg"] else (s["f"] or []))
        elif k == "reg":
            a, b = self.ev(s["a"])[0], self.ev(s["b"])[0]
            if not 0 <= a <= 255 or not 0 <= b <= 255: raise RefError("register loop range")
            up = s["dir"] > 0
            if (up and a > b) or (not up and a < b): return
            r = s["r"]
            if self.inreg.get(r): raise RefError("nested register loop")
            self.inreg[r] = 1
            N = lambda v: ("n", v, str(v))
            self.ins("ld" + r, "I", N(a))
            top = self.pc
            self.block(s["body"])
            self.inreg[r] = 0
            if a == b: return
            self.ins(("in" if up else "de") + r, "i", None)
            if up:
                if b != 255: self.ins("cp" + r, "I", N(b + 1))
                self.ins("bcc" if b != 255 else "bne", "a", N(top))
            else:
                if b == 0: raise Skip("downto 0")
                self.ins("cp" + r, "I", N(b))
                self.ins("bcs", "a", N(top))
        elif k == "inc":
            sl, sf = self.line, self.frozen
            self.frozen = True
            self.block(s["body"])
            self.frozen = sf
        elif k == "cpu": self.cpu = s["v"]
        elif k == "ill": self.ill = s["v"]
        elif k == "c64": self.c64 = True
        elif k == "end": self.end = True
        elif k == "nop": pass
        else:
            raise AssertionError(k)

    def late(self, why):
        self.lateerr = why

    def one(self):
        self.pc = 0x1000
        self.out, self.rec, self.written = [], [], 0
        self.have_origin = self.org_seen = self.assigned = self.image_started = False
        self.origin = self.image_org = 0
        self.scope = ""
        self.last = ""
        self.params = []
        self.mcount = 0
        self.changed = self.unres = self.far = self.noorg_ins = 0
        self.line = 0; self.frozen = False
        self.inreg = {}
        self.end = False
        self.lateerr = None
        self.used = {}
        self.labels = set()
        self.block(self.prog["stmts"])

    def run(self):
        self.vars = set()
        self.cpu = "65c02" if "-65c02" in self.opt["args"] else "6502"
        self.ill = "-i" in self.opt["args"]
        self.c64 = "-c64" in self.opt["args"]
        self.steps = 0
        for p in range(15):
            self.one()
            if not self.changed and not self.unres: break
        else:
            if self.unres: raise RefError("unresolved symbol")
            raise Skip("no convergence")
        if self.noorg_ins: raise Skip("instructions before any origin")
        if self.lateerr: raise RefError(self.lateerr)
        image = bytes(self.out)
        if self.c64 and self.image_started:
            image = bytes([self.image_org & 0xFF, (self.image_org >> 8) & 0xFF]) + image
        return image, self.rec

# ------------------------------------------------------------------------------------------------ rendering
def qstr(bs):
    out = ""
    esc = {10: "\\n", 9: "\\t", 13: "\\r", 7: "\\a", 8: "\\b", 12: "\\f", 11: "\\v", 92: "\\\\", 34: '\\"'}
    i = 0
    for b in bs:
        if b in esc: out += esc[b]
        elif 32 <= b < 127: out += chr(b)
        else: out += "\\x%02x" % b
    return '"' + out + '"'

def strbytes_ok(bs):
    """\\xNN swallows following hex digits: keep those strings out"""
    for i, b in enumerate(bs):
        if not (32 <= b < 127) and b not in (10, 9, 13, 7, 8, 12, 11) and i + 1 < len(bs) and chr(bs[i + 1]) in "0123456789abcdefABCDEF\\": return False
    return True

def render(prog):
    lines = []
    rnd = random.Random(prog["seed"])
    style = prog.get("style", True)
    def kw(t):
        return t if not style or rnd.random() < .8 else (t.upper() if rnd.random() < .7 else t.capitalize())
    def emit(text, out, s=None):
        if s is not None: s["line"] = len(out)
        if style and rnd.random() < .06: text += "   ; comment lda #1"
        out.append(text)
    def block(stmts, out):
        for s in stmts:
            st(s, out)
            if style and rnd.random() < .04: out.append(rnd.choice(["", "; a comment", "// x = 5", "   ", "/* lda #1 */"]))
    def st(s, out):
        k = s["k"]
        if k == "label":
            emit(s["name"] + (":" if s.get("colon") else ""), out, s)
        elif k == "pm": emit(s["c"] + (" " + kw("nop") if False else ""), out, s)
        elif k == "ins":
            mn, m = kw(s["mn"]), s["mode"]
            e = s.get("e")
            o = {"i": lambda: "", "A": lambda: " a", "I": lambda: " #" + estr(e), "a": lambda: " " + opstr(e),
                 "ax": lambda: " " + opstr(e) + rnd.choice([",x", ", X"]), "ay": lambda: " " + opstr(e) + rnd.choice([",y", ",Y"]),
                 "ind": lambda: " (" + estr(e) + ")", "aix": lambda: " (" + estr(e) + ",x)", "izy": lambda: " (" + estr(e) + "),y"}[m]()
            emit(" " + mn + o, out, s)
        elif k in ("byte", "word", "str"):
            d = {"byte": [".byte", ".db"], "word": [".word", ".dw", ".dcw"], "str": [".str", ".text", ".string"]}[k]
            emit(" " + kw(rnd.choice(d)) + " " + ", ".join(qstr(i[1]) if i[0] == "S" else estr(i) for i in s["items"]), out, s)
        elif k == "fill": emit(" .fill " + estr(s["v"]) + ", " + estr(s["n"]), out, s)
        elif k == "load": emit(' .load "' + s["f"] + '"', out, s)
        elif k == "ds": emit(" .ds " + estr(s["n"]), out, s)
        elif k == "org": emit(" " + kw(".org") + " " + estr(s["e"]), out, s)
        elif k == "pc": emit(rnd.choice(["* = ", "*= ", "* .equ ", "*="]) + estr(s["e"]), out, s)
        elif k == "equ": emit(s["name"] + rnd.choice([" = ", "=", " .equ "]) + estr(s["e"]), out, s)
        elif k == "set": emit(" " + s["name"] + " = " + estr(s["e"]), out, s)
        elif k == "var": emit(" .var " + ", ".join(n + (" = " + estr(e) if e is not None else "") for n, e in s["vs"]), out, s)
        elif k == "sec":
            emit(" .section " + s["name"], out, s); block(s["body"], out); emit(rnd.choice([" .ends", " .endsection"]), out)
        elif k == "if":
            emit(" .if " + estr(s["c"]), out, s); block(s["t"], out)
            if s["f"] is not None: emit(" .else", out); block(s["f"], out)
            emit(" .endif", out)
        elif k == "for":
            emit(" .for " + s["var"] + " = " + estr(s["a"]) + " .to " + estr(s["b"]) + (" .step " + estr(s["step"]) if s["step"] is not None else ""), out, s)
            block(s["body"], out); emit(" .next " + s["var"], out)
        elif k == "while":
            emit(" .while " + estr(s["c"]), out, s); block(s["body"], out); emit(" .wend", out)
        elif k == "repeat":
            emit(" .repeat", out, s); block(s["body"], out); emit(" .until " + estr(s["c"]), out)
        elif k == "do":
            emit(" .do", out, s); block(s["body"], out); emit(" .while " + estr(s["c"]), out)
        elif k == "macro":
            emit(rnd.choice([" .macro ", " .mac "]) + s["name"], out, s); block(s["body"], out); emit(rnd.choice([" .endm", " .endmacro"]), out)
        elif k == "call":
            emit(" " + s["name"] + (" " + ", ".join(opstr(a) for a in s["args"]) if s["args"] else ""), out, s)
        elif k == "ifdef":
            emit((" .ifndef " if s["neg"] else " .ifdef ") + s["name"], out, s); block(s["t"], out)
            if s["f"] is not None: emit(" .else", out); block(s["f"], out)
            emit(" .endif", out)
        elif k == "reg":
            emit(" .for .reg" + s["r"] + " = " + estr(s["a"]) + (" .to " if s["dir"] > 0 else " .downto ") + estr(s["b"]), out, s)
            block(s["body"], out); emit(" .next " + s["r"], out)
        elif k == "inc":
            emit(' .inc "' + s["f"] + '"', out, s)
            o2 = []
            block(s["body"], o2)
            prog["files"][s["f"]] = ("\n".join(o2) + "\n").encode("latin-1")
        elif k == "cpu": emit(" .%s on" % s["v"], out, s)
        elif k == "ill": emit(" .illegal " + ("on" if s["v"] else "off"), out, s)
        elif k == "c64": emit(" .c64", out, s)
        elif k == "end": emit(" .end", out, s)
        elif k == "raw": emit(s["text"], out, s)
        elif k == "nop": emit(s.get("text", ""), out, s)
        else: raise AssertionError(k)
    block(prog["stmts"], lines)
    return "\n".join(lines) + "\n"

# ------------------------------------------------------------------------------------------------ generation
class Gen:
    def __init__(self, seed, feats):
        self.r = random.Random(seed)
        self.f = feats
        self.n = 0
        self.globs = []         # names usable from anywhere after their definition: (name, kind)
        self.fwd = []           # labels which will be defined later
        self.files = {}
        self.secn = 0

    def nm(self, p):
        self.n += 1
        r = self.r
        base = p + r.choice(["", "_", "q", "Foo", "z9", "lab"]) + str(self.n)
        return base

    def case(self, n):
        r = self.r.random()
        return n if r < .8 else n.upper() if r < .9 else n.swapcase()

    def num(self, v):
        r = self.r
        c = r.random()
        if v < 0: return ("u", "-", self.num(-v))
        if c < .4: return ("n", v, str(v))
        if c < .85: return ("n", v, "$%x" % v if r.random() < .5 else "$%04X" % v)
        if c < .93 and v < 65536: return ("n", v, "%" + bin(v)[2:])
        if 97 <= v <= 122: return ("n", v, "'%c'" % v)
        return ("n", v, str(v))

    def interesting(self, lo=0, hi=65535):
        r = self.r
        c = [0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535]
        c = [x for x in c if lo <= x <= hi]
        if c and r.random() < .5: return r.choice(c)
        return r.randint(lo, hi)

    def leaf(self, ctx, lo=0, hi=65535):
        r = self.r
        c = r.random()
        pool = ctx.get("names", [])
        if ctx.get("np") and c < .35: return ("p", r.randint(1, ctx["np"]))
        if pool and c < .5:
            return ("s", self.case(r.choice(pool)))
        if ctx.get("vars") and c < .65: return ("s", self.case(r.choice(ctx["vars"])))
        return self.num(self.interesting(lo, hi))

    def expr(self, ctx, depth=2):
        r = self.r
        if depth == 0 or r.random() < .25: return self.leaf(ctx)
        c = r.random()
        if c < .18:
            return ("u", r.choice(["-", "~", "<", ">", "not"]), self.expr(ctx, depth - 1))
        if c < .22 and not ctx.get("nopc"):
            return ("b", r.choice("+-"), ("*",), self.leaf(ctx, 0, 300))
        op = r.choice(["+", "-", "+", "-", "|", "&", "^", "&&", "||", "<", ">", "<=", ">=", "==", "!=", "<>", "*", "/", "<<", ">>"])
        if op == "*":
            return ("b", op, ("b", "&", self.expr(ctx, depth - 1), self.num(1023)), self.num(r.randint(0, 63)))
        if op == "/":
            return ("b", op, self.expr(ctx, depth - 1), self.num(r.choice([1, 2, 3, 7, 10, 255, 256, 1000])))
        if op == "<<":
            return ("b", op, ("b", "&", self.expr(ctx, depth - 1), self.num(65535)), self.num(r.randint(0, 8)))
        if op == ">>":
            return ("b", op, self.expr(ctx, depth - 1), self.num(r.randint(0, 10)))
        return ("b", op, self.expr(ctx, depth - 1), self.expr(ctx, depth - 1))

    def flat(self, ctx):
        """an expression printed without parentheses, parsed here by the documented precedence"""
        r = self.r
        n = r.randint(2, 6)
        toks = []
        for k in range(n):
            if k:
                toks.append(r.choice(list(LEVEL)))
            v = r.randint(0, 15) if toks and toks[-1] in ("<<", ">>") else r.randint(0, 300)
            if toks and toks[-1] == "/": v = r.randint(1, 20)
            toks.append(("n", v, str(v)))
        pos = 0
        def parse(level):
            nonlocal pos
            if level == 6:
                t = toks[pos]; pos += 1
                return t
            l = parse(level + 1)
            while pos < len(toks) and LEVEL[toks[pos]] == level:
                op = toks[pos]; pos += 1
                rr = parse(level + 1)
                l = ("b", op, l, rr)
            return l
        t = parse(1)
        pre = r.choice(["", "", "", "~", "not ", "<", ">"])
        txt = " ".join(x if isinstance(x, str) else x[2] for x in toks)
        if pre: t = ("u", pre.strip(), t); txt = pre + txt
        return ("flat", txt, t)

    def mask(self, e, m):
        return ("b", "&", e, self.num(m))

    def byteval(self, ctx):
        r = self.r
        c = r.random()
        if c < .4: return self.num(self.interesting(0, 255))
        if c < .5: return self.num(-r.randint(1, 128))
        if c < .65: return ("u", r.choice("<>"), self.expr(ctx, 1))
        return self.mask(self.expr(ctx), 255)

    def wordval(self, ctx):
        r = self.r
        c = r.random()
        if c < .3: return self.leaf(ctx)
        if c < .35: return self.num(-r.randint(1, 32768))
        return self.mask(self.expr(ctx, 3), 65535)

    def string(self):
        r = self.r
        while True:
            n = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
            bs = []
            for _ in range(n):
                c = r.random()
                if c < .8: bs.append(r.choice([x for x in range(32, 127)]))
                elif c < .93: bs.append(r.choice([10, 9, 13, 7, 8, 12, 11, 92, 34]))
                else: bs.append(r.randint(0, 255))
            if strbytes_ok(bs): return ("S", bytes(bs))

    def data(self, ctx):
        r = self.r
        k = r.choice(["byte", "byte", "word", "word", "str"])
        items = []
        for _ in range(r.randint(1, 4)):
            if r.random() < .25: items.append(self.string())
            elif k == "byte": items.append(self.byteval(ctx))
            elif k == "word": items.append(self.wordval(ctx))
            else: items.append(self.num(self.interesting(0, 65535)) if r.random() < .5 else self.wordval(ctx))
        return dict(k=k, items=items)

    def cpu_tables(self, ctx):
        t = CMOS if ctx.get("cpu") == "65c02" else NMOS
        return t

    def ins(self, ctx):
        r = self.r
        t = self.cpu_tables(ctx)
        while True:
            ill = ctx.get("ill") and r.random() < .3 and ctx.get("cpu") != "65c02"
            tt = UND if ill else t
            mn = r.choice(sorted(tt))
            if mn[:3] in ("bbr", "bbs", "rmb", "smb"): continue
            modes = tt[mn]
            if "r" in modes:
                if not self.f.get("branch", 1): continue
                if mn == "bra" and r.random() < .5: continue
                c = r.random()
                near = [n for n in ctx.get("labels", [])]
                if c < .3 or not near:
                    d = r.choice([-128, -127, -126, -2, 0, 1, 125, 126, 127]) if r.random() < .6 else r.randint(-126, 127)
                    return dict(k="ins", mn=mn, mode="a", e=("b", "+", ("*",), self.num(d + 2)) if d + 2 >= 0 else ("b", "-", ("*",), self.num(-d - 2)))
                if c < .4: return dict(k="ins", mn=mn, mode="a", e=("b", "+", ("s", self.case(r.choice(near))), self.num(r.randint(0, 3))))
                return dict(k="ins", mn=mn, mode="a", e=("s", self.case(r.choice(near))))
            m = r.choice(sorted(modes))
            if m in ("i", "A"):
                return dict(k="ins", mn=mn, mode=m if m == "i" else r.choice("iA"))
            if m == "I":
                return dict(k="ins", mn=mn, mode="I", e=self.byteval(ctx))
            src = {"zp": "a", "a": "a", "zpx": "ax", "ax": "ax", "zpy": "ay", "ay": "ay", "ind": "ind", "aix": "aix", "izx": "aix", "izy": "izy"}.get(m)
            if m == "zpi": continue           # known finding of P01
            small = m in ("zp", "zpx", "zpy", "izx", "izy")
            c = r.random()
            if small: e = self.num(self.interesting(0, 255)) if c < .6 else self.mask(self.expr(ctx, 1), 255)
            elif src == "aix" : e = self.leaf(ctx)
            else:
                e = self.leaf(ctx) if c < .7 else self.mask(self.expr(ctx, 2), 65535)
                if ctx.get("fwd") and r.random() < .3: e = ("s", self.case(r.choice(ctx["fwd"])))
            if m in ("a", "ax", "ay") and not {"a": "zp", "ax": "zpx", "ay": "zpy"}[m] in modes:
                pass
            elif m in ("zp", "zpx", "zpy", "izx", "izy") and not {"zp": "a", "zpx": "ax", "zpy": "ay", "izx": "aix", "izy": "?"}[m] in modes:
                e = self.num(self.interesting(0, 255)) if r.random() < .6 else self.mask(self.leaf(ctx), 255)
            return dict(k="ins", mn=mn, mode=src, e=e)

    def simple(self, ctx):
        r = self.r
        c = r.random() * 10
        f = self.f
        if c < f.get("w_ins", 4): return self.ins(ctx)
        if c < 8.5: return self.data(ctx)
        big = r.random() < .06
        if c < 9.2: return dict(k="fill", v=self.num(r.randint(0, 255)), n=self.num(self.interesting(10, 700) if big else r.randint(0, 9)))
        if c < 9.6: return dict(k="ds", n=self.num(self.interesting(10, 700) if big else r.randint(0, 12)))
        return self.ins(ctx)

    def cond(self, ctx):
        c2 = dict(ctx); c2["names"] = ctx.get("eqs", []); c2["nopc"] = True
        return self.expr(c2, 2)

    def body(self, ctx, n, depth):
        """statements without labels (inside blocks)"""
        out = []
        r = self.r
        for _ in range(n):
            c = r.random()
            if depth and c < .35 * self.f.get("ctl", 1): out.append(self.control(ctx, depth - 1))
            elif ctx.get("macros") and c < .45: out.append(self.call(ctx))
            else: out.append(self.simple(ctx))
        return out

    def call(self, ctx):
        r = self.r
        nm, n = r.choice(ctx["macros"])
        args = []
        for _ in range(n):
            c2 = dict(ctx)
            args.append(self.mask(self.expr(c2, 1), 65535) if r.random() < .5 else self.leaf(c2))
        return dict(k="call", name=self.case(nm), args=args)

    def control(self, ctx, depth):
        r = self.r
        k = r.choice(["if", "if", "for", "for", "while", "repeat", "do"])
        if k == "while" and ctx.get("indo"): k = "repeat"     # .while always closes an open .do
        if k == "if":
            return dict(k="if", c=self.cond(ctx), t=self.body(ctx, r.randint(1, 3), depth), f=self.body(ctx, r.randint(1, 3), depth) if r.random() < .6 else None)
        free = [v for v in ctx.get("vars", []) if v not in ctx.get("busy", ())]
        if not free:
            return self.simple(ctx)
        v = r.choice(free)
        c2 = dict(ctx); c2["busy"] = tuple(ctx.get("busy", ())) + (v,)
        if k == "do": c2["indo"] = True
        body = self.body(c2, r.randint(1, 3), depth)
        if k == "for":
            a = r.randint(-3, 6)
            n = r.randint(-1, 4)
            step = r.choice([None, None, 1, 2, 3, -1, -2, 5])
            st = step if step is not None else 1
            b = a + n * st + r.choice([0, 0, 0, 1 if st > 0 else -1])
            if st in (1, -1): b = a + n * st
            return dict(k="for", var=v, a=self.num(a), b=self.num(b), step=self.num(step) if step is not None else None, body=body)
        lim = r.randint(0, 4)
        inc = dict(k="set", name=v, e=("b", "+", ("s", v), self.num(1)))
        body = body + [inc] if r.random() < .6 else [inc] + body
        # the caller initialises v
        init = dict(k="set", name=v, e=self.num(r.randint(0, 2)))
        def truth(e):   # every value but 0 is true
            c = r.random()
            return ("b", "*", e, self.num(r.choice([2, 3, 255, 256, 65535]))) if c < .2 else ("b", "-", self.num(0), e) if c < .3 else e
        if k == "while": lp = dict(k="while", c=truth(("b", "<", ("s", v), self.num(lim))), body=body)
        elif k == "repeat": lp = dict(k="repeat", body=body, c=truth(("b", ">=", ("s", v), self.num(lim))))
        else: lp = dict(k="do", body=body, c=truth(("b", "<", ("s", v), self.num(lim))))
        return dict(k="if", c=self.num(1), t=[init, lp], f=None)

    def program(self, size=14):
        r, f = self.r, self.f
        ctx = dict(names=[], labels=[], eqs=[], vars=[], macros=[], fwd=[], cpu="6502")
        args = []
        defs = []
        stmts = []
        if r.random() < f.get("p_65c02", .3):
            ctx["cpu"] = "65c02"
            if r.random() < .5: args.append("-65c02")
            else: stmts.append(dict(k="cpu", v="65c02"))
        elif r.random() < .3:
            ctx["ill"] = True
            if r.random() < .5: args.append("-i")
            else: stmts.append(dict(k="ill", v=True))
        c64 = r.random() < f.get("p_c64", .25)
        if c64:
            if r.random() < .5: args.append("-c64")
            else: stmts.append(dict(k="c64"))
        for _ in range(r.randint(0, 2) if r.random() < f.get("p_defs", .25) else 0):
            n, v = self.nm("d"), self.interesting()
            defs.append((n, v, r.choice([str(v), "$%x" % v, "0x%x" % v, "%" + bin(v)[2:], "0b" + bin(v)[2:]])))
            ctx["names"].append(n); ctx["eqs"].append(n)
        for _ in range(r.randint(1, 3)):
            n = self.nm("e")
            c2 = dict(ctx); c2["nopc"] = True
            stmts.append(dict(k="equ", name=n, e=self.num(self.interesting()) if r.random() < .6 else self.mask(self.expr(c2), 65535)))
            ctx["names"].append(n); ctx["eqs"].append(n)
        if f.get("vars", 1):
            vs = []
            for _ in range(r.randint(1, 3)):
                n = self.nm("v")
                init = self.num(r.randint(0, 5)) if r.random() < .6 else None
                if r.random() < .15: init = ("s", self.case(r.choice(ctx["eqs"] + ctx["vars"])))
                vs.append((n, init))
                ctx["vars"].append(n)
            stmts.append(dict(k="var", vs=vs))
        start = r.choice([0x1000, 0x0801, 0x2000, 0xC000, 0x0080, 0x00F0, 0x0010, 0x8000])
        how = r.random()
        if how < .6: stmts.append(dict(k="org", e=self.num(start)))
        elif how < .95: stmts.append(dict(k="pc", e=self.num(start)))
        else: stmts.append(dict(k="byte", items=[self.num(1)]))
        if f.get("macros", 1):
            for _ in range(r.randint(0, 2 if f.get("macros", 1) < 2 else 3)):
                n = self.nm("mac"); np_ = r.randint(0, 3)
                c2 = dict(ctx); c2["np"] = np_; c2["nopc"] = False
                body = self.body(c2, r.randint(1, 4), 1)
                if r.random() < .4:
                    body = [dict(k="label", name="@ml")] + body + [dict(k="ins", mn="bne", mode="a", e=("s", "@ml"))]
                if r.random() < .3:
                    body = [dict(k="ins", mn="jmp", mode="a", e=("s", "@mf"))] + body + [dict(k="label", name="@mf")]
                stmts.append(dict(k="macro", name=n, body=body))
                ctx["macros"] = ctx["macros"] + [(n, np_)]
        later = [self.nm("L") for _ in range(r.randint(1, 4))]
        ctx["fwd"] = list(later)
        ctx["labels"] = list(later)
        ctx["names"] = ctx["names"]
        place = sorted(r.sample(range(size), min(len(later), size)))
        nextl = list(later)
        loc = 0
        for i in range(size):
            if place and place[0] == i:
                place.pop(0)
                n = nextl.pop(0)
                stmts.append(dict(k="label", name=n, colon=r.random() < .5))
                ctx["names"] = ctx["names"] + [n]
                ctx["fwd"] = [x for x in ctx["fwd"] if x != n]
                loc = 0
            c = r.random()
            if c < f.get("p_ctl", .15): stmts.append(self.control(ctx, 1))
            elif c < f.get("p_ctl", .15) + f.get("p_call", .12) and ctx["macros"]: stmts.append(self.call(ctx))
            elif c < .36 and f.get("sections", 1) and ctx["names"]: stmts.append(self.section(ctx, 1))
            elif c < .42 and f.get("local", 1):
                stmts += self.locals(ctx)
            elif c < .49 and f.get("pm", 1): stmts += self.plusminus(ctx)
            elif c < .54 and f.get("ifdef", 1):
                nm_ = r.choice(ctx["eqs"]) if r.random() < .5 else "undefd%d" % r.randint(0, 9)
                stmts.append(dict(k="ifdef", name=self.case(nm_), neg=r.random() < .5, t=self.body(ctx, r.randint(1, 2), 1), f=self.body(ctx, 1, 0) if r.random() < .5 else None))
                if r.random() < .5:
                    o = stmts[-1]
                    inner = dict(k="ifdef", name=self.case(r.choice(ctx["eqs"])), neg=r.random() < .5, t=self.body(ctx, 1, 0), f=self.body(ctx, 1, 0) if r.random() < .5 else None)
                    (o["t"] if r.random() < .6 or o["f"] is None else o["f"]).insert(r.randint(0, 1), inner)
            elif c < .58 and f.get("reg", 1):
                stmts.append(self.regloop(ctx))
            elif c < .61 and f.get("files", 1):
                n = "inc%d.inc" % len(self.files); self.files[n] = None
                stmts.append(dict(k="inc", f=n, body=self.body(ctx, 3, 0)))
            elif c < .64 and f.get("files", 1):
                n = "dat%d.bin" % len(self.files)
                self.files[n] = bytes(r.randint(0, 255) for _ in range(r.randint(10, 700) if r.random() < .1 else r.randint(0, 9)))
                stmts.append(dict(k="load", f=n))
            elif c < .66 and f.get("equmid", 1):
                n = self.nm("q")
                stmts.append(dict(k="equ", name=n, e=self.mask(self.expr(ctx), 65535)))
                ctx["names"] = ctx["names"] + [n]
            elif c < .68 and f.get("repc", 1): stmts.append(dict(k="pc", e=self.num(r.choice([0x0080, 0x1200, 0x3456, 0x00F8]))))
            elif c < .72 and f.get("far", 1):
                stmts += self.far(ctx)
            else: stmts.append(self.simple(ctx))
        for n in nextl:
            stmts.append(dict(k="label", name=n))
        stmts.append(dict(k="ins", mn="rts", mode="i"))
        if r.random() < .05:
            stmts.append(dict(k="end")); stmts.append(dict(k="byte", items=[self.num(1)]))
        return stmts, args, defs

    def regloop(self, ctx):
        r = self.r
        up = r.random() < .6
        a, b = r.choice([0, 1, 2, 10, 100, 254, 255]), r.choice([1, 2, 3, 10, 127, 128, 200, 254, 255])
        if r.random() < .8 and ((up and a > b) or (not up and a < b)): a, b = b, a
        if not up and b == 0: b = 1
        c2 = dict(ctx); c2["macros"] = []
        body = [self.ins(c2) for _ in range(r.randint(1, 3))]
        if r.random() < .1: body += [dict(k="fill", v=self.num(0xEA), n=self.num(r.randint(118, 135)))]
        return dict(k="reg", r=r.choice("xy"), a=self.num(a), b=self.num(b), dir=1 if up else -1, body=body)

    def far(self, ctx):
        """branches around the displacement limits"""
        r = self.r
        n = self.nm("F")
        mn = r.choice(BRANCHES + (["bra"] if ctx["cpu"] == "65c02" else []))
        gap = r.choice([120, 124, 125, 126, 127, 128, 129, 130, 131, 200])
        fill = r.choice([lambda g: [dict(k="fill", v=self.num(0xEA), n=self.num(g))], lambda g: [dict(k="ds", n=self.num(g))]])
        br = dict(k="ins", mn=mn, mode="a", e=("s", n))
        if r.random() < .5:
            return [br] + fill(gap) + [dict(k="label", name=n)]
        return [dict(k="label", name=n)] + fill(gap - 2) + [br]

    def locals(self, ctx):
        r = self.r
        out = [dict(k="label", name=self.nm("g"), colon=r.random() < .5)]
        a = r.choice(["@l", "@loop", "@x1"])
        if r.random() < .5:
            out += [dict(k="label", name=a), self.simple(dict(ctx, labels=[])), dict(k="ins", mn=r.choice(BRANCHES), mode="a", e=("s", a))]
        else:
            out += [dict(k="ins", mn=r.choice(BRANCHES), mode="a", e=("s", a)), self.simple(dict(ctx, labels=[])), dict(k="label", name=a)]
        if self.f.get("pm", 1) and r.random() < .3:  # an anonymous label does not end the range of the local labels
            out.insert(r.randint(1, len(out)), dict(k="pm", c=r.choice("+-")))
        if r.random() < .3: out.append(dict(k="ins", mn="jmp", mode="a", e=("s", a)))
        ctx["names"] = ctx["names"] + [out[0]["name"]]
        return out

    def plusminus(self, ctx):
        r = self.r
        out = []
        s = lambda: self.simple(dict(ctx, labels=[]))
        j = lambda t: dict(k="ins", mn=r.choice(BRANCHES + ["jmp"]), mode="a", e=("+-", t))
        n = r.randint(1, 3)
        if r.random() < .5:
            for _ in range(n): out += [dict(k="pm", c="-"), s()]
            out.append(j("-" * r.randint(1, n)))
        else:
            out.append(j("+" * r.randint(1, n)))
            if r.random() < .3: out.append(j("+" * r.randint(1, n)))
            for _ in range(n): out += [s(), dict(k="pm", c="+")]
        return out

    def section(self, ctx, depth):
        r = self.r
        n = self.nm("sec")
        own = [self.nm("s") for _ in range(r.randint(1, 2))]
        shadow = None
        c2 = dict(ctx)
        c2["labels"] = list(own); c2["fwd"] = list(own)
        c2["macros"] = []
        body = []
        if r.random() < .3 and ctx["eqs"] and depth == 1 and len(ctx["eqs"]) > 0:
            shadow = r.choice(ctx["eqs"])
            body.append(dict(k="equ", name=shadow, e=self.num(self.interesting()) if r.random() < .6 else ("s", shadow)))
            ctx["names"] = ctx["names"] + [n + "." + shadow]
        elif depth == 1 and self.f.get("secmac", 1) and r.random() < .3:
            # macros of this section, and calls of global ones
            c2["macros"] = list(ctx["macros"])
            for _ in range(r.randint(0, 2)):
                m, np_ = self.nm("mac"), r.randint(0, 3)
                cm = dict(ctx); cm["np"] = np_; cm["nopc"] = False; cm["fwd"] = []; cm["macros"] = []; cm["labels"] = []
                body.append(dict(k="macro", name=m, body=self.body(cm, r.randint(1, 3), 0)))
                c2["macros"].append((m, np_))
            for _ in range(r.randint(1, 3)):
                if c2["macros"]: body.append(self.call(c2))
        elif r.random() < .15 and [v for v in ctx.get("vars", []) if v not in ctx.get("busy", ())]:
            v = r.choice([v for v in ctx["vars"] if v not in ctx.get("busy", ())])
            body.append(dict(k="set", name=v, e=("b", "+", ("s", v), self.num(1))))
            body.append(dict(k="byte", items=[("u", "<", ("s", v))]))
        for o in own:
            for _ in range(r.randint(0, 2)): body.append(self.simple(c2))
            body.append(dict(k="label", name=o, colon=r.random() < .5))
            c2["names"] = c2["names"] + [o]
            c2["fwd"] = [x for x in c2["fwd"] if x != o]
        body.append(self.simple(c2))
        if depth and r.random() < .3:
            # names of an outer section are not visible in the inner one
            c3 = dict(c2); c3["names"] = list(ctx["names"]); c3["labels"] = []; c3["fwd"] = []
            body.append(self.section(dict(c3, eqs=[]), 0))
        ctx["names"] = ctx["names"] + [n + "." + o for o in own]
        return dict(k="sec", name=n, body=body)

def make(seed, feats):
    g = Gen(seed, feats)
    stmts, args, defs = g.program(feats.get("size", 14))
    if feats.get("flat"):
        stmts.insert(len(stmts) - 1, dict(k="word", items=[g.flat({}) for _ in range(3)]))
    return dict(seed=seed, stmts=stmts, files={k: v for k, v in g.files.items() if v is not None},
                opt=dict(args=args, defs=[(n, v) for n, v, t in defs], deftext=defs))

# ------------------------------------------------------------------------------------------------ running
ROW = re.compile(r'^\$([0-9A-F]{4}): ((?:\$[0-9A-F]{2} ?)+)')

def run_real(pasm, text, files, args, d, listing=True, name="prog.asm", timeout=10):
    for fn in os.listdir(d):
        os.unlink(os.path.join(d, fn))
    for fn, b in files.items():
        with open(os.path.join(d, fn), "wb") as f: f.write(b)
    with open(os.path.join(d, name), "w", encoding="latin-1") as f: f.write(text)
    cmd = [pasm, "-o", "out.bin"] + (["-l", "out.lst", "-s", "out.sym"] if listing else []) + args + [name]
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return dict(rc="timeout", out=None, err="timeout")
    o = None
    pth = os.path.join(d, "out.bin")
    if os.path.exists(pth): o = open(pth, "rb").read()
    lst = sym = None
    if listing and os.path.exists(os.path.join(d, "out.lst")):
        lst = open(os.path.join(d, "out.lst"), encoding="latin-1").read()
    if listing and os.path.exists(os.path.join(d, "out.sym")):
        sym = open(os.path.join(d, "out.sym"), encoding="latin-1").read()
    return dict(rc=rc, out=o, err=(se[-400:] + so[-200:]).decode("latin-1"), lst=lst, sym=sym, full=se.decode("latin-1"), stdout=so.decode("latin-1"))

def lst_rows(lst):
    out = []
    for l in lst.splitlines():
        m = ROW.match(l[:26])
        if m:
            out.append((int(m.group(1), 16), bytes(int(x, 16) for x in re.findall(r'\$([0-9A-F]{2})', m.group(2)))))
    return out

def compare(prog, pasm, d, want=("bytes",), listing=True):
    """-> None | (what, detail); raises Skip"""
    text = render(prog)
    args = list(prog["opt"]["args"])
    for n, v, t in prog["opt"].get("deftext", []):
        args += ["-d", n, t]
    exp_err = None
    image = rec = None
    ref = Ref(prog)
    if prog.get("expect_error"):
        exp_err = prog["expect_error"]
    else:
        try:
            image, rec = ref.run()
        except RefError as e:
            if prog.get("valid_only", True): raise Skip("error program: " + str(e))
            exp_err = str(e)
    r = run_real(pasm, text, prog["files"], args, d, listing)
    files = "".join(f"\n--- {k}\n{v!r}" for k, v in prog["files"].items())
    det = f"pasm {' '.join(args)} prog.asm\n--- prog.asm\n{text}{files}\n--- exit {r['rc']} {r['err']}\n"
    if "AddressSanitizer" in r.get("full", ""):
        i = r["full"].index("AddressSanitizer")
        return ("memory error: " + r["full"][i:i + 120].splitlines()[0], det + r["full"][i:i + 3000])
    if exp_err is not None:
        if r["rc"] == 0:
            return (f"assembly must fail ({exp_err}) but pasm exits 0", det)
        if r["rc"] == "timeout" or (isinstance(r["rc"], int) and r["rc"] < 0):
            return (f"assembly must fail ({exp_err}) with a nonzero status, pasm: {r['rc']}", det)
        return None
    if r["rc"] != 0:
        return (f"valid program rejected: exit {r['rc']}: {r['err'].strip()[:120]}", det + f"expected bytes: {image.hex(' ')}\n")
    got = r["out"] if r["out"] is not None else b""
    if got != image:
        i = next((i for i in range(min(len(got), len(image))) if got[i] != image[i]), min(len(got), len(image)))
        return (f"output differs at offset {i}: expected {image[i:i+4].hex(' ') or 'end'} got {got[i:i+4].hex(' ') or 'end'}",
                det + f"expected bytes: {image.hex(' ')}\nactual bytes:   {got.hex(' ')}\n")
    if "listing" in want and r["lst"] is not None:
        rows = lst_rows(r["lst"])
        flat = [(a + i & 0xFFFF, b) for a, bs in rows for i, b in enumerate(bs)]
        exp = [(a + i & 0xFFFF, b) for a, bs in rec for i, b in enumerate(bs)]
        if flat != exp:
            i = next((i for i in range(min(len(flat), len(exp))) if flat[i] != exp[i]), min(len(flat), len(exp)))
            return (f"listing differs from emitted bytes at byte {i}: listing {flat[i:i+2]} emitted {exp[i:i+2]}", det + r["lst"])
        bad = check_rows_text(r["lst"])
        if bad: return ("listing row does not describe its bytes: " + bad, det + r["lst"])
        m = re.search(r'(\d+) bytes written', r["stdout"])
        if not m or int(m.group(1)) != len(image):
            return ("reported byte count is not the size of the output file", det)
    if "symbols" in want and r["sym"] is not None:
        seen = {}
        for nme, v in re.findall(r'(\S+) \$([0-9A-F]{4,})\b', r["sym"]):
            seen[nme.lower()] = int(v, 16)
        for nme, v in seen.items():
            if ref.syms.get(nme) != v:
                return (f"symbol file says {nme} = ${v:04X}, its value is {ref.syms.get(nme)}", det + r["sym"])
        vals = [int(v, 16) for _, v in re.findall(r'(\S+) \$([0-9A-F]{4,})\b', r["sym"])]
        if vals != sorted(vals):
            return ("symbol file is not sorted by value", det + r["sym"])
        for f, n in ref.used.items():
            if n >= 2 and f in ref.labels and "#" not in f and "/" not in f and f not in seen:
                return (f"symbol file lacks {f}", det + r["sym"])
    return None

DIS = re.compile(r'^\$([0-9A-F]{4}): ((?:\$[0-9A-F]{2} ?)+) +([a-z]{3}\d?)(?: (\S+))?')
NAMES = {}
for _t in (UND, NMOS, CMOS):
    for _m, _d in _t.items():
        for _mode, _c in _d.items():
            NAMES.setdefault(_c, set()).add((_m, _mode))

FORM = {"A": "", "i": "", "I": "#$%02X", "zp": "$%02X", "zpi": "($%02X)", "zpx": "$%02X,x", "zpy": "$%02X,y", "izx": "($%02X,x)", "izy": "($%02X),y",
        "r": "$%04X", "a": "$%04X", "ax": "$%04X,x", "ay": "$%04X,y", "ind": "($%04X)", "aix": "($%04X,x)"}

def check_rows_text(lst):
    for l in lst.splitlines():
        m = ROW.match(l[:26])
        if not m: continue
        bs = [int(x, 16) for x in re.findall(r'\$([0-9A-F]{2})', m.group(2))]
        t = l[25:45].strip()
        if t.startswith(".db"): continue
        w = t.split()
        cands = NAMES.get(bs[0], set())
        if not any(n == w[0].lower() for n, _ in cands): return l
        ok = False
        for n, md in cands:
            if n != w[0].lower(): continue
            size = 1 if md in ("A", "i") else 3 if md in ("a", "ax", "ay", "ind", "aix") else 2
            if size != len(bs): continue
            v = 0 if size == 1 else bs[1] if size == 2 else bs[1] | bs[2] << 8
            if md == "r": v = (int(m.group(1), 16) + 2 + (v - 256 if v > 127 else v)) & 0xFFFF
            if (FORM[md] % v if "%" in FORM[md] else FORM[md]).lower() == "".join(w[1:]).lower(): ok = True
        if not ok: return l
    return None

def all_stmts(stmts):
    for s in stmts:
        yield s
        for k in ("body", "t", "f"):
            if isinstance(s.get(k), list): yield from all_stmts(s[k])

def shrink(prog, pasm, d, want, key):
    """greedy removal of statements while the same kind of failure stays"""
    import copy
    best = prog
    kind = key.split(":")[0][:22]
    budget = 250
    def fails(p):
        try:
            r = compare(p, pasm, d, want)
        except (Skip, KeyError, IndexError, TypeError, AssertionError, AttributeError, ValueError, RecursionError):
            return None
        return r if r and r[0].split(":")[0][:22] == kind else None
    last = None
    changed = True
    while changed and budget > 0:
        changed = False
        lists = [best["stmts"]] + [s[k] for s in all_stmts(best["stmts"]) for k in ("body", "t", "f", "items", "args") if isinstance(s.get(k), list)]
        for li in range(len(lists)):
            i = 0
            while budget > 0:
                cand = copy.deepcopy(best)
                cl = [cand["stmts"]] + [s[k] for s in all_stmts(cand["stmts"]) for k in ("body", "t", "f", "items", "args") if isinstance(s.get(k), list)]
                if li >= len(cl) or i >= len(cl[li]): break
                if isinstance(cl[li][i], dict) and cl[li][i].get('k') in ('org', 'pc'): i += 1; continue
                del cl[li][i]
                cand["style"] = False
                budget -= 1
                r = fails(cand)
                if r:
                    best, last, changed = cand, r, True
                else:
                    i += 1
    return best, last

def campaign(ctx, info, feats, n, want=("bytes",), extra=None, errors=0):
    """run n random programs of the profile `feats`; returns the list of failures (at most 3, shrunk)"""
    d = ctx.native()
    if not d:
        raise RuntimeError(ctx.native_err)
    pasm = os.path.join(d, "pasm")
    jobs = []
    for i in range(n):
        jobs.append(("gen", ctx.seed * 1000003 + i))
    for i, p in enumerate(extra or []):
        jobs.append(("prog", p))
    for i in range(errors):
        jobs.append(("err", ctx.seed * 7000003 + i))
    NW = min(8, os.cpu_count() or 4)
    tmp = [tempfile.mkdtemp(prefix="e2e_", dir=ctx.scratch) for _ in range(NW)]
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    qu = mp.Queue()
    def worker(w):
        run = skipped = 0
        fl = []
        try:
            for j in range(w, len(jobs), NW):
                if stop.is_set(): break
                kind, x = jobs[j]
                try:
                    if kind == "gen": prog = make(x, feats)
                    elif kind == "err":
                        prog = make_error(x, feats)
                    else: prog = x
                    r = compare(prog, pasm, tmp[w], want)
                    run += 1
                    if r:
                        fl.append((j, r))
                        if len(fl) >= 2: stop.set()
                except Skip:
                    skipped += 1
            qu.put((run, skipped, fl, None))
        except Exception:
            import traceback
            stop.set()
            qu.put((run, skipped, fl, traceback.format_exc()[-1500:]))
    ps = [mp.Process(target=worker, args=(w,), daemon=True) for w in range(NW)]
    for p in ps: p.start()
    stats = dict(run=0, skipped=0)
    fails = []
    for p in ps:
        try:
            run, skipped, fl, err = qu.get(timeout=800)
        except Exception:
            raise RuntimeError("end-to-end worker died")
        if err: raise RuntimeError(err)
        stats["run"] += run; stats["skipped"] += skipped
        fails += fl
    for p in ps: p.join(5)
    fails.sort(key=lambda t: t[0])
    info["programs_run"] = info.get("programs_run", 0) + stats["run"]
    info["programs_skipped"] = info.get("programs_skipped", 0) + stats["skipped"]
    info["evaluations"] = info.get("evaluations", 0) + stats["run"]
    info["distinct_nontrivial"] = info.get("distinct_nontrivial", 0) + stats["run"]
    info["rule"] = ("bounded stand-in: random assembly programs (seeded), each assembled by the real pasm and by an independent "
                    "reference assembler; counted when the reference accepts the program (distinct by seed), compared on " + ", ".join(want))
    out = []
    for j, r in fails[:1]:
        kind, x = jobs[j]
        prog = make(x, feats) if kind == "gen" else make_error(x, feats) if kind == "err" else x
        b, l = shrink(prog, pasm, tmp[0], want, r[0]) if not prog.get("noshrink") else (prog, None)
        out.append(dict(what=(l or r)[0], detail=(l or r)[1]))
    for t in tmp: shutil.rmtree(t, ignore_errors=True)
    return out

ERRORS = [
    ("undefined symbol", lambda g: [dict(k="raw", text=" lda nosuch%d" % g.r.randint(0, 99))]),
    ("undefined symbol in data", lambda g: [dict(k="raw", text=" .word nosuch%d + 1" % g.r.randint(0, 99))]),
    ("instruction without this mode", lambda g: [dict(k="raw", text=g.r.choice([" sta #5", " ldx $1234,x", " stx $1234,y", " inx $1234", " jmp $1234,x", " sty $1234,x", " asl $1234,y", " jsr ($1234)", " lda", " rts #1"]))]),
    ("immediate out of range", lambda g: [dict(k="raw", text=" lda #%d" % g.r.choice([256, 257, 1000, 4096, 65535]))]),
    ("byte out of range", lambda g: [dict(k="raw", text=" .byte %d" % g.r.choice([256, 257, 1000, 65535, 65536, -300, -1000]))]),
    ("word out of range", lambda g: [dict(k="raw", text=" .word %d" % g.r.choice([65536, 65537, 100000, -70000]))]),
    ("symbol value out of range", lambda g: [dict(k="raw", text="bigsym = %d" % g.r.choice([65536, 70000, -1, -5]))]),
    ("syntax error", lambda g: [dict(k="raw", text=g.r.choice([" lda #", " lda ,x", " .byte", " .word ,", " ) lda", " .for i = 1", " .if", " .endif", " .next i", " .wend", " .until 1", " .endm", " lda #5 6", " .org", " .fill 1", " sta $12,,x", " jmp ($1234", " .macro"]))]),
    ("division by zero", lambda g: [dict(k="raw", text=" .byte 5 / 0")]),
    ("end of section without section", lambda g: [dict(k="raw", text=" .ends")]),
    ("fill value out of range", lambda g: [dict(k="raw", text=" .fill %d, 3" % g.r.choice([256, 1000]))]),
    ("negative reservation", lambda g: [dict(k="raw", text=" .ds -1")]),
    ("negative fill", lambda g: [dict(k="raw", text=" .fill 1, -1")]),
    ("register loop range", lambda g: [dict(k="raw", text=" .for .regx = %s" % g.r.choice(["0 .to 256", "300 .to 400", "1 .to 1000"])), dict(k="raw", text=" nop"), dict(k="raw", text=" .next x")]),
    ("nested register loop", lambda g: [dict(k="raw", text=" .for .regx = 1 .to 3"), dict(k="raw", text=" .for .regx = 1 .to 3"), dict(k="raw", text=" nop"), dict(k="raw", text=" .next x"), dict(k="raw", text=" .next x")]),
    ("next of another variable", lambda g: [dict(k="raw", text=" .var vi, vj"), dict(k="raw", text=" .for vi = 1 .to 3"), dict(k="raw", text=" nop"), dict(k="raw", text=" .next vj")]),
    ("endless loop", lambda g: [dict(k="raw", text=" .while 1"), dict(k="raw", text=" .fill 1, 1000"), dict(k="raw", text=" .wend")]),
    ("endless loop", lambda g: [dict(k="raw", text=" .repeat"), dict(k="raw", text=" .fill 1, 1000"), dict(k="raw", text=" .until 0")]),
    ("endless loop", lambda g: [dict(k="raw", text=" .do"), dict(k="raw", text=" .fill 1, 1000"), dict(k="raw", text=" .while 1")]),
    ("endless loop", lambda g: [dict(k="raw", text=" .var vi"), dict(k="raw", text=" .for vi = 1 .to 2 .step 0"), dict(k="raw", text=" .fill 1, 1000"), dict(k="raw", text=" .next vi")]),
    ("missing include file", lambda g: [dict(k="raw", text=' .inc "nosuchfile.inc"')]),
    ("missing load file", lambda g: [dict(k="raw", text=' .load "nosuchfile.bin"')]),
    ("zero page operand too large", lambda g: [dict(k="raw", text=g.r.choice([" lda ($1234),y", " sta ($100,x)", " ldx $80,x", " cmp ($ffff),y"]))]),
    ("second .org", lambda g: [dict(k="raw", text=" .org $3000"), dict(k="raw", text=" .org $4000")]),
    ("string escape", lambda g: [dict(k="raw", text=' .byte "a\\?bc"')]),
]

def make_error(seed, feats):
    f = dict(feats)
    f.update(dict(sections=0, p_c64=.2, p_65c02=0))
    p = make(seed, f)
    g = Gen(seed, f)
    why, fn = g.r.choice(ERRORS)
    p["opt"]["args"] = [a for a in p["opt"]["args"] if a != "-i"]
    p["stmts"] = [s for s in p["stmts"] if s["k"] not in ("ill",)]
    # drop undocumented instructions
    def clean(l):
        out = []
        for s in l:
            if s["k"] == "ins" and s["mn"] in UND and s["mn"] not in NMOS: continue
            for k in ("body", "t", "f"):
                if isinstance(s.get(k), list):
                    s[k] = clean(s[k]) or [dict(k="ins", mn="nop", mode="i")]
            out.append(s)
        return out
    p["stmts"] = clean(p["stmts"])
    try:                  # only programs which are valid without the error
        render(p)
        Ref(p).run()
    except RefError as e:
        raise Skip(str(e))
    pos = g.r.randint(0, len(p["stmts"]))
    ends = next((i for i, s in enumerate(p["stmts"]) if s["k"] == "end"), None)
    if ends is not None: pos = min(pos, ends)
    org = next((i for i, s in enumerate(p["stmts"]) if s["k"] in ("org", "pc", "byte")), 0)
    pos = max(pos, org + 1)
    p["stmts"][pos:pos] = fn(g)
    p["expect_error"] = why
    p["noshrink"] = True
    return p

ALL = dict()
if __name__ == "__main__":
    class C: pass
    c = C(); c.seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    c.scratch = tempfile.mkdtemp(prefix="e2em_")
    nat = sys.argv[3] if len(sys.argv) > 3 else "/repo/_build/pasm/bin"
    c.native = lambda: nat
    info = {}
    n = int(sys.argv[1])
    fs = campaign(c, info, ALL if len(sys.argv) < 5 else json.loads(sys.argv[4]), n, ("bytes", "listing", "symbols"), errors=n // 5)
    print(info)
    for f in fs: print(f["what"]); print(f["detail"])
    shutil.rmtree(c.scratch)
