#!/usr/bin/env python3
"""Independent 6502 / 65C02 opcode oracle (written from the MOS 6502 and WDC 65C02 data sheets, not from the
repository's tables).  Mode names: i implied, I immediate, zp, zpi (zp), zpx, zpy, izx (zp,x), izy (zp),y,
a abs, aix (abs,x), ax, ay, ind (abs), r relative, A accumulator."""

def grp(name, base, **kw):
    return {(name, m): base + o for m, o in kw.items()}

def nmos():
    t = {}
    # group one: aaabbb01
    for n, aaa in zip("ora and eor adc sta lda cmp sbc".split(), range(8)):
        for m, bbb in dict(izx=0, zp=1, I=2, a=3, izy=4, zpx=5, ay=6, ax=7).items():
            if n == "sta" and m == "I": continue
            t[n, m] = aaa << 5 | bbb << 2 | 1
    # group two: aaabbb10
    for n, aaa in zip("asl rol lsr ror".split(), range(4)):
        for m, bbb in dict(zp=1, A=2, a=3, zpx=5, ax=7).items():
            t[n, m] = aaa << 5 | bbb << 2 | 2
    for n, aaa in (("dec", 6), ("inc", 7)):
        for m, bbb in dict(zp=1, a=3, zpx=5, ax=7).items():
            t[n, m] = aaa << 5 | bbb << 2 | 2
    t.update({("stx", "zp"): 0x86, ("stx", "zpy"): 0x96, ("stx", "a"): 0x8E,
              ("ldx", "I"): 0xA2, ("ldx", "zp"): 0xA6, ("ldx", "zpy"): 0xB6, ("ldx", "a"): 0xAE, ("ldx", "ay"): 0xBE,
              ("ldy", "I"): 0xA0, ("ldy", "zp"): 0xA4, ("ldy", "zpx"): 0xB4, ("ldy", "a"): 0xAC, ("ldy", "ax"): 0xBC,
              ("sty", "zp"): 0x84, ("sty", "zpx"): 0x94, ("sty", "a"): 0x8C,
              ("cpx", "I"): 0xE0, ("cpx", "zp"): 0xE4, ("cpx", "a"): 0xEC,
              ("cpy", "I"): 0xC0, ("cpy", "zp"): 0xC4, ("cpy", "a"): 0xCC,
              ("bit", "zp"): 0x24, ("bit", "a"): 0x2C, ("jmp", "a"): 0x4C, ("jmp", "ind"): 0x6C, ("jsr", "a"): 0x20})
    for n, c in dict(bpl=0x10, bmi=0x30, bvc=0x50, bvs=0x70, bcc=0x90, bcs=0xB0, bne=0xD0, beq=0xF0).items():
        t[n, "r"] = c
    for n, c in dict(brk=0x00, rti=0x40, rts=0x60, php=0x08, plp=0x28, pha=0x48, pla=0x68, dey=0x88, tay=0xA8,
                     iny=0xC8, inx=0xE8, clc=0x18, sec=0x38, cli=0x58, sei=0x78, tya=0x98, clv=0xB8, cld=0xD8,
                     sed=0xF8, txa=0x8A, txs=0x9A, tax=0xAA, tsx=0xBA, dex=0xCA, nop=0xEA).items():
        t[n, "i"] = c
    return t

def nmos_undocumented():
    t = {}
    # group three (aaabbb11): combined read-modify-write
    for n, aaa in dict(slo=0, rla=1, sre=2, rra=3, dcp=6, isc=7).items():
        for m, bbb in dict(izx=0, zp=1, a=3, izy=4, zpx=5, ay=6, ax=7).items():
            t[n, m] = aaa << 5 | bbb << 2 | 3
    t.update({("sax", "izx"): 0x83, ("sax", "zp"): 0x87, ("sax", "a"): 0x8F, ("sax", "zpy"): 0x97,
              ("lax", "izx"): 0xA3, ("lax", "zp"): 0xA7, ("lax", "a"): 0xAF, ("lax", "izy"): 0xB3,
              ("lax", "zpy"): 0xB7, ("lax", "ay"): 0xBF, ("lax", "I"): 0xAB,
              ("anc", "I"): 0x0B, ("anc2", "I"): 0x2B, ("alr", "I"): 0x4B, ("arr", "I"): 0x6B, ("xaa", "I"): 0x8B,
              ("axs", "I"): 0xCB, ("usbc", "I"): 0xEB, ("ahx", "izy"): 0x93, ("ahx", "ay"): 0x9F,
              ("shy", "ax"): 0x9C, ("shx", "ay"): 0x9E, ("tas", "ay"): 0x9B, ("las", "ay"): 0xBB})
    return t

def cmos():
    t = nmos()
    for n, c in dict(ora=0x12, **{"and": 0x32}, eor=0x52, adc=0x72, sta=0x92, lda=0xB2, cmp=0xD2, sbc=0xF2).items():
        t[n, "zpi"] = c
    t.update({("bit", "I"): 0x89, ("bit", "zpx"): 0x34, ("bit", "ax"): 0x3C, ("dec", "A"): 0x3A, ("inc", "A"): 0x1A,
              ("jmp", "aix"): 0x7C, ("bra", "r"): 0x80,
              ("phx", "i"): 0xDA, ("phy", "i"): 0x5A, ("plx", "i"): 0xFA, ("ply", "i"): 0x7A,
              ("stz", "zp"): 0x64, ("stz", "zpx"): 0x74, ("stz", "a"): 0x9C, ("stz", "ax"): 0x9E,
              ("trb", "zp"): 0x14, ("trb", "a"): 0x1C, ("tsb", "zp"): 0x04, ("tsb", "a"): 0x0C,
              ("stp", "i"): 0xDB, ("wai", "i"): 0xCB})
    for b in range(8):
        t[f"rmb{b}", "zp"] = b << 4 | 7
        t[f"smb{b}", "zp"] = (b + 8) << 4 | 7
        t[f"bbr{b}", "r"] = b << 4 | 15
        t[f"bbs{b}", "r"] = (b + 8) << 4 | 15
    return t

ZPIND = "ora and eor adc sta lda cmp sbc".split()
UNDOC = sorted({n for n, _ in nmos_undocumented()})
MODES = "i I zp zpi zpx zpy izx izy a aix ax ay ind r A".split()
OPBYTES = dict(i=0, A=0, I=1, r=1, zp=1, zpi=1, zpx=1, zpy=1, izx=1, izy=1, a=2, ax=2, ay=2, aix=2, ind=2)
CMOS_ONLY = sorted({n for n, _ in cmos()} - {n for n, _ in nmos()})

def alias(t):
    """`asl` on its own is the accumulator form"""
    t = dict(t)
    for (n, m), c in list(t.items()):
        if m == "A": t[n, "i"] = c
    return t

def header():
    o = ["/* generated by opcode_oracle.py */"]
    for nm, t in (("orc_nmos", alias(nmos())), ("orc_undoc", nmos_undocumented()), ("orc_cmos", alias(cmos()))):
        o.append(f"/* opcode byte + 1, 0 = instruction has no such addressing mode */")
        o.append(f"static const short {nm}[_maxOpcode][max_addressing_mode] = {{")
        by = {}
        for (n, m), c in sorted(t.items()):
            by.setdefault(n, []).append(f"[{m}] = 0x{c:02X} + 1")
        for n, l in by.items():
            o.append(f"    [_{n}] = {{ {', '.join(l)} }},")
        o.append("};")
    o.append("static const char* const orc_name[_maxOpcode] = {")
    names = sorted({n for n, _ in list(cmos()) + list(nmos_undocumented())})
    for n in names:
        o.append(f'    [_{n}] = "{n}",')
    o.append("};")
    o.append("static bool orc_is_undoc(int op) { return " + " || ".join(f"op == _{n}" for n in UNDOC) + "; }")
    o.append("static bool orc_is_zpind(int op) { return " + " || ".join(f"op == _{n}" for n in ZPIND) + "; }")
    o.append("static int orc_bytes(int mode) { switch (mode) {")
    for m, b in OPBYTES.items():
        o.append(f"    case {m}: return {b};")
    o.append("    default: return -1; } }")
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    import os, sys
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "opcode_oracle.h"), "w").write(header())
