import fixed
from fixed import case
NOP = 0xEA
def org(b=""): return " .org $1000\n" + b
# ---------------------------------------------------------------- branches
for br, op, rev in ((" beq", 0xF0, 0xD0), (" bne", 0xD0, 0xF0), (" bcc", 0x90, 0xB0), (" bcs", 0xB0, 0x90), (" bmi", 0x30, 0x10), (" bpl", 0x10, 0x30), (" bvc", 0x50, 0x70), (" bvs", 0x70, 0x50)):
    case("P03 P02", f"forward branch of 127{br}", org(f"{br} l\n .ds 127\nl: nop\n"), [op, 127] + [0] * 127 + [NOP])
    case("P03", f"forward branch of 128{br}", org(f"{br} l\n .ds 128\nl: nop\n"), [rev, 3, 0x4C, 0x85, 0x10] + [0] * 128 + [NOP])
    case("P03 P02", f"backward branch of -128{br}", org(f"l: .ds 126\n{br} l\n"), [0] * 126 + [op, 0x80])
    case("P03", f"backward branch of -129{br}", org(f"l: .ds 127\n{br} l\n"), [0] * 127 + [rev, 3, 0x4C, 0, 0x10])
case("P03", "far branch in a loop, three times", org("l: .ds 200\n .var i\n .for i = 1 .to 3\n bne l\n .next i\n"), [0] * 200 + [0xF0, 3, 0x4C, 0, 0x10] * 3)
case("P03", "near and far in one loop", org(" .var i\nl: nop\n .for i = 1 .to 70\n bne l\n .next i\n"),
     [NOP] + sum(([0xD0, (-(1 + 2 * k) - 2) & 255] for k in range(63)), []) + sum(([0xF0, 3, 0x4C, 0, 0x10] for k in range(7)), []))
case("P03", "far branch to a local label at address 0", "  *=0\nmain:\n@l:\n" + "  nop\n" * 200 + "  bne @l\n  rts\n", [NOP] * 200 + [0xF0, 3, 0x4C, 0, 0, 0x60])
case("P03", "far branch to a minus label at address 0", "  *=0\n-\n" + "  nop\n" * 200 + "  bne -\n  rts\n", [NOP] * 200 + [0xF0, 3, 0x4C, 0, 0, 0x60])
case("P03", "far bra", org(" bra l\n .ds 200\nl: nop\n"), [0x4C, 0xCB, 0x10] + [0] * 200 + [NOP], ["-65c02"])
case("P03", "far bbr", org(" bbr3 l\n .ds 200\nl: nop\n"), [0xBF, 3, 0x4C, 0xCD, 0x10] + [0] * 200 + [NOP], ["-65c02"])
case("P03", "far bbs", org(" bbs7 l\n .ds 200\nl: nop\n"), [0x7F, 3, 0x4C, 0xCD, 0x10] + [0] * 200 + [NOP], ["-65c02"])
# a label moves out of range only because another branch grows
case("P03 P04", "branches that push each other out of range", org(" beq la\n .ds 124\n bne lb\nla: nop\n .ds 130\nlb: nop\n"),
     [0xD0, 3, 0x4C, 0x86, 0x10] + [0] * 124 + [0xF0, 3, 0x4C, 0x09, 0x11] + [NOP] + [0] * 130 + [NOP])
# ---------------------------------------------------------------- symbols, tables
def many(n):
    return org("".join(f"s{k}: nop\n" for k in range(n)) + "".join(f" jmp s{k}\n" for k in (0, n // 2, n - 1))), \
        [NOP] * n + sum(([0x4C, (0x1000 + k) & 255, (0x1000 + k) >> 8] for k in (0, n // 2, n - 1)), [])
for n in (920, 921, 922, 1850, 4000):
    case("P13 P15 P04", f"{n} labels", *many(n))
case("P14", "600 plus labels and references", org(" bne +\n nop\n+\n" * 600), [0xD0, 1, NOP] * 600)
case("P14", "5000 minus labels", org("-\n nop\n" * 5000 + " jmp -\n jmp ---\n"), [NOP] * 5000 + [0x4C, 0x87, 0x23, 0x4C, 0x85, 0x23])
case("P14", "too few minus labels", org("-\n nop\n jmp --\n"), None)
case("P14", "too few plus labels", org(" jmp ++\n nop\n+\n nop\n"), None)
case("P14", "references on the line of a label", org("+ jmp +\n nop\n- jmp -\n nop\n+ jmp -\n- beq +\n jmp -\n+ nop\n"),
     [0x4C, 8, 0x10, NOP, 0x4C, 4, 0x10, NOP, 0x4C, 4, 0x10, 0xF0, 3, 0x4C, 11, 0x10, NOP])
case("P13 P14", "local labels around anonymous labels", org("m: nop\n@l: nop\n+\n jmp @l\n-\n jmp @l\n jmp +\n jmp @f\n+\n nop\n@f: nop\nn: nop\n-\n@l: jmp @l\n"),
     [NOP, NOP, 0x4C, 1, 0x10, 0x4C, 1, 0x10, 0x4C, 14, 0x10, 0x4C, 15, 0x10, NOP, NOP, NOP, 0x4C, 17, 0x10])
case("P14", "minus label of another file", None, None, files={"a.asm": org("-\n nop\n"), "b.asm": " jmp -\n"}, names=("a.asm", "b.asm"))
case("P14", "plus label of another file", None, None, files={"a.asm": org(" jmp +\n nop\n"), "b.asm": "+\n nop\n"}, names=("a.asm", "b.asm"))
case("P14 P22", "own labels of an include", org("-\n nop\n .inc \"b.inc\"\n jmp -\n jmp +\n+\n nop\n"),
     [NOP, NOP, 0x4C, 1, 0x10, 0x4C, 8, 0x10, NOP, 0x4C, 0, 0x10, 0x4C, 0x0F, 0x10, NOP], files={"b.inc": "-\n nop\n jmp -\n jmp +\n+\n nop\n"})
# ---------------------------------------------------------------- files
for n in (1, 24, 25, 26, 40):
    f = {f"f{k}.inc": f" .byte {k}\n .inc \"f{k+1}.inc\"\n .byte {100+k}\n" for k in range(1, n)}
    f[f"f{n}.inc"] = f" .byte {n}\n"
    case("P22 P16", f"includes nested {n} deep", org(" .inc \"f1.inc\"\n nop\n"), list(range(1, n + 1)) + list(range(100 + n - 1, 100, -1)) + [NOP], files=f)
case("P22", "search order of -dir", org(' .inc "i.inc"\n .inc "j.inc"\n .inc "k.inc"\n .load "l.bin"\n'), [1, 2, 3, 4],
     ["-dir", "d1;d2"], files={"i.inc": " .byte 1\n", "d1/i.inc": " .byte 9\n", "d1/j.inc": " .byte 2\n", "d2/j.inc": " .byte 9\n", "d2/k.inc": " .byte 3\n", "d2/l.bin": b"\x04"})
case("P22", "missing include", org(' .inc "nosuch.inc"\n'), None)
case("P22 P08", "missing load", org(' .load "nosuch.bin"\n'), None)
case("P22", "missing source file", None, None)
case("P22 P18", "error in an include", org(' .inc "b.inc"\n nop\n'), None, files={"b.inc": " lda nosuch\n"})
def errline(line, name):
    def w(rc, out, lst, sym): return None if rc != 0 else "exit status 0"
    return w
# ---------------------------------------------------------------- data
case("P07", "long byte list", org(" .byte " + ",".join(str(k % 256) for k in range(300)) + "\n"), [k % 256 for k in range(300)])
case("P07", "long word list", org(" .word " + ",".join(str(k * 37) for k in range(300)) + "\n"), sum(([(k * 37) & 255, (k * 37) >> 8] for k in range(300)), []))
case("P07", "str list", org(" .str 1,255,256,$1234,\"ab\",0\n"), [1, 255, 0, 1, 0x34, 0x12, 0x61, 0x62, 0])
case("P07", "odd strings in words", org(" .word \"abc\",\"\",\"d\",1\n"), [0x61, 0x62, 0x63, 0, 0x64, 0, 1, 0])
case("P07 P17", "escapes", org(' .byte "\\a\\b\\f\\v\\r\\n\\t\\\'\\"\\\\\\x00\\xff\\x0a1"\n'), [7, 8, 12, 11, 13, 10, 9, 0x27, 0x22, 0x5C, 0, 255, 10, 0x31])
case("P07 P17", "zero bytes in a str", org(' .str "\\x00\\x00a"\n nop\n'), [0, 0, 0x61, NOP])
for v in ("256", "-255", "65536"): case("P07", f"byte {v} is an error", org(f" .byte {v}\n"), None)
for v in ("65536", "-65535", "100000"): case("P07", f"word {v} is an error", org(f" .word {v}\n"), None)
case("P07", "error in the middle of a list", org(" .byte 1,2,256,3\n"), None)
case("P07", "forward references in lists", org(" .word l,m\n .byte <l,>l,<m,>m\nl: nop\nm: nop\n"), [8, 16, 9, 16, 8, 16, 9, 16, NOP, NOP])
# ---------------------------------------------------------------- fill, ds, load
for n in (0, 1, 2, 3, 255, 256, 257, 1001):
    case("P08 P04", f"fill of {n}", org(f" .fill $5a,{n}\nl: jmp l\n"), [0x5A] * n + [0x4C, n & 255, 16 + (n >> 8)])
    case("P08 P04 P09", f"ds of {n}", org(f" nop\n .ds {n}\nl: jmp l\n"), [NOP] + [0] * n + [0x4C, (n + 1) & 255, 16 + ((n + 1) >> 8)])
for n in (255, 256, 257, 700, 1001):
    for v in (0, 1, 127, 128, 255): case("P08 P04", f"fill of {n} bytes {v}", org(f" .fill {v},{n}\nl: jmp l\n"), [v] * n + [0x4C, n & 255, 16 + (n >> 8)])
case("P08", "fill up to the last address", " .org $ff00\n .fill $a5,$ff\n nop\n", [0xA5] * 255 + [NOP])
case("P08", "fill of most of the memory", " .org $100\n .fill $c3,$fe00\n nop\n", [0xC3] * 0xFE00 + [NOP])
for n in (0, 1, 2, 3, 255, 256, 4097):
    b = bytes((k * 31 + (k >> 8)) & 255 for k in range(n))
    case("P08 P04", f"load of {n}", org(" .load \"f.bin\"\nl: jmp l\n"), list(b) + [0x4C, n & 255, 16 + (n >> 8)], files={"f.bin": b})
case("P08", "load of ff, 0a, 0d, 1a", org(" .load \"f.bin\"\n"), [255, 10, 13, 26, 0, 255, 255], files={"f.bin": bytes([255, 10, 13, 26, 0, 255, 255])})
for s in (" .fill 256,1\n", " .fill -1,1\n", " .fill 1,-1\n", " .ds -1\n"): case("P08", "error:" + s.strip(), org(s), None)
case("P08 P09", "trailing ds", org(" nop\n .ds 5\n"), [NOP])
# ---------------------------------------------------------------- truth values
for m in ("2", "255", "256", "$8000", "65535"):
    case("P10", f"an until condition of value {m}", org(f" .var i\ni = 0\n .repeat\n .byte i\ni = i + 1\n .until (i == 3) * {m}\n"), [0, 1, 2])
    case("P10", f"a while condition of value {m}", org(f" .var i\ni = 0\n .while (i < 3) * {m}\n .byte i\ni = i + 1\n .wend\n"), [0, 1, 2])
    case("P10", f"a do condition of value {m}", org(f" .var i\ni = 0\n .do\n .byte i\ni = i + 1\n .while (i < 3) * {m}\n"), [0, 1, 2])
    case("P10", f"an if condition of value {m}", org(f" .if {m}\n .byte 1\n .else\n .byte 2\n .endif\n .if 0 - {m}\n .byte 3\n .else\n .byte 4\n .endif\n"), [1, 3])
# ---------------------------------------------------------------- output image
case("P09", "c64 header", " .org $c000\n nop\n", [0, 0xC0, NOP], ["-c64"])
case("P09", "c64 header, label at the start", " .org $0801\nl: .word l\n", [1, 8, 1, 8], ["-c64"])
case("P09", "no header", " .org $c000\n nop\n", [NOP])
case("P09", "origin after data", " .org $1000\n nop\n *=$1010\n nop\n", lambda rc, o, l, s: None if rc == 0 and o[:1] == b"\xea" and o[-1:] == b"\xea" else "bytes missing")
case("P09", "star as address", org("l: .word *\n .word *\n jmp *+0\n"), [0, 16, 2, 16, 0x4C, 4, 16])
# ---------------------------------------------------------------- control flow
case("P10", "for up, down, steps", org(" .var i\n .for i = 1 .to 3\n .byte i\n .next i\n .for i = 3 .to 1 .step -1\n .byte i\n .next i\n .for i = 0 .to 10 .step 5\n .byte i\n .next i\n .for i = 5 .to 4\n .byte i\n .next i\n"), [1, 2, 3, 3, 2, 1, 0, 5, 10])
case("P10", "for of one value, end not on a step", org(" .var i\n .for i = 7 .to 7\n .byte i\n .next i\n .for i = 0 .to 7 .step 3\n .byte i\n .next i\n"), [7, 0, 3, 6])
case("P10", "while, repeat, do", org(" .var i = 0\n .while i < 3\n .byte i\ni = i + 1\n .wend\n .repeat\n .byte i\ni = i + 1\n .until i > 4\n .do\n .byte i\ni = i + 1\n .while i < 7\n .while 0\n nop\n .wend\n"), [0, 1, 2, 3, 4, 5, 6])
case("P10", "if and else", org(" .if 1\n .byte 1\n .else\n .byte 2\n .endif\n .if 0\n .byte 3\n .else\n .byte 4\n .endif\n .if 2 == 2\n .byte 5\n .endif\n .if 256\n .byte 6\n .endif\n .if -1\n .byte 7\n .endif\n"), [1, 4, 5, 6, 7])
case("P10", "nested loops", org(" .var i,j,k\n .for i = 1 .to 2\n .for j = 1 .to 2\n .for k = i .to j\n .byte i*16+j,k\n .next k\n .next j\n .next i\n"), [0x11, 1, 0x12, 1, 0x12, 2, 0x22, 2])
case("P10", "a loop fills the address space", " .org $ff00\n .while 1\n .fill 1,300\n .wend\n", None)
# ---------------------------------------------------------------- register loops
case("P11", "regx up", org(" .for .regx = 1 .to 3\n nop\n .next x\n"), [0xA2, 1, NOP, 0xE8, 0xE0, 4, 0x90, 0xFA])
case("P11", "regy up", org(" .for .regy = 1 .to 3\n nop\n .next y\n"), [0xA0, 1, NOP, 0xC8, 0xC0, 4, 0x90, 0xFA])
# ---------------------------------------------------------------- conditional assembly
case("P24", "both branches", org("A1 = 1\n .ifdef A1\n .byte 1\n .else\n .byte 2\n .endif\n .ifndef A1\n .byte 3\n .else\n .byte 4\n .endif\n .ifdef B1\n .byte 5\n .endif\n .ifndef B1\n .byte 6\n .endif\n .byte 7\n"), [1, 4, 6, 7])
for n in (1, 2, 20, 60):
    case("P24", f"skipped conditionals nested {n} deep", org("A1 = 1\n .ifndef A1\n" + " .ifdef A1\n .byte 1\n .else\n .byte 2\n" * n + " .endif\n" * n + " .byte 3\n .else\n .byte 4\n .endif\n .byte 5\n"), [4, 5])
    case("P24", f"assembled conditionals nested {n} deep", org("A1 = 1\n" + "".join(f" .ifdef A1\n .byte {k}\n" for k in range(n)) + "".join(f" .else\n .byte {k}\n .endif\n .byte {100+k}\n" for k in range(n)) + " .byte 5\n"), list(range(n)) + [100 + k for k in range(n)] + [5])
case("P24", "skipped text", org("A1 = 1\n .ifndef A1\n ; .endif\n // .else\n .byte \".endif\",'\\''\n garbage ( ) !! ` $ #\nx.endif nop\n .if 0\n .else\n nop\n .endif\n .macro m1\n nop\n .endm\n .inc \"nosuch\"\n .org 5\n .ifdef A1\n nop\n .endif\n .endif\n nop\n"), [NOP])
case("P24", "an .if in an .ifdef in an .if", org("A1 = 1\n .if 1\n .ifdef A1\n .if 0\n .byte 1\n .else\n .byte 2\n .endif\n .else\n .byte 3\n .endif\n .else\n .byte 4\n .endif\n .byte 5\n"), [2, 5])
case("P24", "an .ifdef in each branch of an .if", org("A1 = 1\n .if 0\n .ifdef A1\n .byte 1\n .else\n .byte 2\n .endif\n .else\n .ifndef A1\n .byte 3\n .else\n .byte 4\n .endif\n .endif\n .byte 5\n"), [4, 5])
case("P24", "a conditional around an .else", org("A1 = 1\n .ifdef A1\n .ifdef N1\n .byte 1\n .else\n .byte 2\n .endif\n .else\n .ifdef A1\n .byte 3\n .else\n .byte 4\n .endif\n .endif\n"), [2])
case("P24", "definition in a skipped branch", org(" .ifdef N1\nM1 = 1\n .endif\n .ifdef M1\n .byte 1\n .else\n .byte 2\n .endif\n"), [2])
for s in (" .else\n", " .endif\n", " .ifdef A1\n .endif\n .endif\n", " .ifdef A1\n .endif\n .else\n", " .if 1\n .endif\n .endif\n"):
    case("P24", "error: " + s.replace("\n", ";").strip(), org("A1 = 1\n" + s + " nop\n"), None)
case("P24 P22", "a conditional around an include", org("A1 = 1\n .ifndef A1\n .inc \"no.inc\"\n .else\n .inc \"i.inc\"\n .endif\n .byte 3\n"), [1, 2, 3], files={"i.inc": " .ifdef A1\n .byte 1\n .else\n .byte 9\n .endif\n .ifdef N1\n .byte 9\n .endif\n .byte 2\n"})
case("P24", "defined on the command line", org(" .ifdef A1\n .byte A1\n .else\n .byte 0\n .endif\n"), [7], ["-d", "A1", "7"])
# ---------------------------------------------------------------- escapes
case("P17 P07", "pairs of hex digits", org(' .byte "\\x41424344\\x4a4B\\x0001ffz"\n'), [0x41, 0x42, 0x43, 0x44, 0x4A, 0x4B, 0, 1, 255, 0x7A])
case("P17 P07", "an odd hex digit is kept", org(' .byte "\\x414","\\x4g"\n'), [0x41, 0x34, 0x34, 0x67])
case("P17", "a hex escape of 200 pairs", org(' .byte "a\\x' + "".join("%02x" % (k & 255) for k in range(200)) + 'b"\n'), lambda rc, o, l, s: None if rc == 0 and o[:1] == b"a" and o[1:201] == bytes(range(200)) else "wrong bytes: " + o[:210].hex(" "))
case("P17", "a string of 1500 escapes", org(' .byte "' + "\\n\\t\\\\" * 250 + '"\n'), [10, 9, 92] * 250)
# ---------------------------------------------------------------- errors and the exit status
def ok_run(rc, o, l, s): return None if rc == 0 else f"exit status {rc}"
for n in (1, 10, 4096, 5000, 20000):
    case("P18", f"an output of {n} bytes to a full device", org(f" .fill 1,{n}\n"), None, ["-o", "/dev/full"])
case("P18", "output in a directory that does not exist", org(" nop\n"), None, ["-o", "nosuch/out.bin"])
case("P18", "the address of a label decides about the bytes before it", org(" .if y == $1000\n nop\n .endif\ny: nop\n"), None)
for n in (2, 5, 10, 15, 17, 18, 19, 25):
    def chain(rc, o, l, s, n=n):
        return None if rc != 0 or o == bytes([0, 0x20]) else "wrong value: " + o.hex(" ")
    case("P18 P21", f"a chain of {n} constants defined backwards", org(" .word c0\n" + "".join(f"c{k} = c{k+1}\n" for k in range(n)) + f"c{n} = $2000\n"), chain)
case("P18", "an error in the first of two files", None, None, files={"a.asm": org(" lda nosuch\n nop\n"), "b.asm": " nop\n"}, names=("a.asm", "b.asm"))
case("P18", "an error in the last of two files", None, None, files={"a.asm": org(" nop\n"), "b.asm": " .byte 256\n"}, names=("a.asm", "b.asm"))
case("P18 P22", "three files", None, [1, 2, 3], files={"a.asm": org(" .byte 1\n"), "b.asm": " .byte 2\n", "c.asm": " .byte 3\n"}, names=("a.asm", "b.asm", "c.asm"))
case("P18", "no error", org(" nop\n"), [NOP])
for t in (" .byte 256\n", " .word 65536\n", " lda #256\n", " .org\n", " lda (\n", " .next\n", " .wend\n", " .endm\n", "l = 70000\n", " .byte \"\\q\"\n", " .byte 1/0\n", " .word 1 % 0\n", " inx 5\n", " .load \"nosuch\"\n", " .inc \"nosuch\"\n", " m9 1\n", " .if\n", " .for\n", " ,\n", " jmp -\n", " jmp +\n", " .fill 256,1\n", " .ds -1\n"):
    for where in ("first", "last"):
        case("P18", f"error ({where}): {t.strip()}", org(t + " nop\n" * 30) if where == "first" else org(" nop\n" * 30 + t), None)
    case("P18", f"error in a loop: {t.strip()}", org(" .var i\n .for i = 1 .to 3\n" + t + " .next i\n"), None)
# ---------------------------------------------------------------- options
D = org(" .word A1\n")
for t, v in (("12", 12), ("$12", 0x12), ("0x1f", 0x1F), ("0xFFFF", 0xFFFF), ("65535", 65535), ("%1011", 11), ("0b11", 3), ("0", 0), ("$abCD", 0xABCD)):
    case("P19", f"-d A1 {t}", D, [v & 255, v >> 8], ["-d", "A1", t])
for t in ("65536", "-1", "x", "1x", "", "4294967297", "$10000"): case("P19", f"-d A1 '{t}'", D, None, ["-d", "A1", t])
case("P19", "two symbols", org(" .byte A1,B1\n"), [3, 4], ["-d", "a1", "3", "-D", "B1", "$4"])
for a in (["-c64", "-c64"], ["-v", "-v"], ["-i", "-i"], ["-nowarn", "-nowarn"], ["-6502", "-6502"], ["-6502", "-65c02"], ["-65c02", "-6502"], ["-l", "x"], ["-s", "x"], ["-log", "x", "-log", "y"], ["-dir", "x", "-dir", "y"], ["-zz"], ["-d", "A1"], ["-d"]):
    case("P19", "error: " + " ".join(a), org(" nop\n"), None, a, names=("p.asm",) if a[-1:] != ["A1"] and a != ["-d"] else ())
for a in (["p.asm", "-o"], ["p.asm", "-s"], ["p.asm", "-l"], ["p.asm", "-log"], ["p.asm", "-dir"], ["p.asm", "-d"], ["p.asm", "-d", "x"], [], ["-c64"], ["-o", "q.bin"]):
    case("P19", "error: pasm " + " ".join(a), org(" nop\n"), None, a); fixed.CASES[-1]["raw"] = True
for o in ("-?", "/?", "-h", "-H"):
    case("P19", o, org(" nop\n"), ok_run, [o]); fixed.CASES[-1]["raw"] = True
case("P19 P01", "65c02 only with the option", org(" bra l\nl: nop\n"), [0x80, 0, NOP], ["/65C02"])
case("P19 P01", "65c02 without the option", org(" bra l\nl: nop\n"), None)
# ---------------------------------------------------------------- macros
for n in (10, 300, 2047, 2050, 7000):
    nm = "m" * n
    case("P12", f"a macro name of {n} characters", org(f" .macro {nm}\n@l\n .byte \\1\n jmp @l\n .endm\n {nm} 1\n {nm} 2\n"), [1, 0x4C, 0, 16, 2, 0x4C, 4, 16])
case("P12", "twelve parameters", org(" .macro m1\n .byte \\12,\\11,\\10,\\9,\\1\n .endm\n m1 1,2,3,4,5,6,7,8,9,10,11,12\n"), [12, 11, 10, 9, 1])
case("P12", "only the second parameter is used", org(" .macro m1\n .byte \\2\n .endm\n m1 1,2\n m1 3,4\n"), [2, 4])
case("P12", "arguments are evaluated by the caller", org(" .macro m1\n .byte \\1,\\2\n .endm\n .macro m2\n m1 \\2,\\1\n .byte \\1,\\2\n m1 \\1+\\2,\\2*2\n .byte \\1,\\2\n .endm\n m2 1,2\n m2 3,4\n"),
     [2, 1, 1, 2, 3, 4, 1, 2, 4, 3, 3, 4, 7, 8, 3, 4])
for n in (1, 2, 5, 20):
    case("P12 P16", f"macros nested {n} deep", org("".join(f" .macro m{k}\n .byte \\1\n" + (f" m{k+1} \\1+1\n" if k < n else "") + " .byte \\1\n .endm\n" for k in range(n, 0, -1)) + " m1 1\n m1 50\n"),
         [*range(1, n + 1), *range(n, 0, -1), *range(50, 50 + n), *range(49 + n, 49, -1)])
case("P12", "the caller has fewer parameters", org(" .macro m1\n .byte \\1,\\2,\\3\n .endm\n .macro m2\n m1 7,8,9\n .byte \\1\n .endm\n m2 1\n"), [7, 8, 9, 1])
case("P12", "local labels of each call", org(" .macro m1\n@a\n nop\n jmp @a\n jmp @b\n@b\n .endm\n m1\n m1\n"), [NOP, 0x4C, 0, 16, 0x4C, 7, 16, NOP, 0x4C, 7, 16, 0x4C, 14, 16])
case("P12", "local labels of the caller and the macro", org(" .macro m1\n@a\n .word @a\n .endm\nmain\n@a\n m1\n m1\n"), [0, 16, 2, 16])
case("P12", "a call in a loop", org(" .var i\n .macro m1\n@a\n .byte \\1\n .word @a\n .endm\n .for i = 1 .to 3\n m1 i*2\n .next i\n"), [2, 0, 16, 4, 3, 16, 6, 6, 16])
case("P12", "a macro defined and called in a section", org(" .section s1\nA1 = 5\n .macro m1\n .byte \\1,A1\n .endm\n m1 1\n m1 2\n .ends\n"), [1, 5, 2, 5])
case("P12", "a macro called in sections", org(" .macro m1\n .byte \\1,\\2\n .endm\n .section s1\nA1 = 5\n m1 A1,2\n .ends\n .section s2\nA1 = 6\n m1 A1,s1.A1\n .ends\n m1 s1.A1,s2.A1\n"), [5, 2, 6, 5, 5, 6])
case("P12", "strings of the program and arguments that are labels", org(" .macro m1\n .word \\1,\\1-\\2\n .endm\nl1: nop\nl2: nop\n m1 l2,l1\n m1 l3,l2\nl3: nop\n"), [NOP, NOP, 1, 16, 1, 0, 10, 16, 9, 0, NOP])
case("P12", "letter case of the name", org(" .macro Mac\n .byte \\1\n .endm\n mac 1\n MAC 2\n"), [1, 2])
for t in (" m1 1\n", " m1 1\n .macro m1\n nop\n .endm\n"):
    case("P12", "error: " + t.replace("\n", ";"), org(t), None)
# ---------------------------------------------------------------- names and sections
case("P13", "letter case", org("Abc = 5\naBD: .byte ABC,abc\n jmp Abd\n"), [5, 5, 0x4C, 0, 16])
case("P13", "a section's own symbol", org("A1 = 1\n .section s1\nA1 = 2\n .byte A1,s1.A1\n .ends\n .byte A1,s1.A1\n .section s2\n .byte A1\nA1 = 3\n .byte A1\n .ends\n .byte S2.a1\n"), [2, 2, 1, 2, 3, 3, 3])
case("P13", "a section's symbol of the same value", org("A1 = 1\n .section s1\nA1 = 1\n .byte A1\n .ends\n .byte A1\n"), [1, 1])
case("P13", "a global seen from sections", org("A1 = 1\n .section s1\n .byte A1\n .ends\n .section s2\nB1 = 4\n .byte A1,B1\n .ends\n .byte s2.B1\n"), [1, 1, 4, 4])
case("P13", "labels of sections", org(" .section s1\nl: nop\n jmp l\n .ends\n .section s2\nl: nop\n jmp l\n .ends\nl: nop\n jmp l\n jmp s1.l\n jmp s2.l\n"), [NOP, 0x4C, 0, 16, NOP, 0x4C, 4, 16, NOP, 0x4C, 8, 16, 0x4C, 0, 16, 0x4C, 4, 16])
case("P13", "local labels belong to the label before", org("l1\n@a\n nop\n jmp @a\nl2\n@a\n nop\n jmp @a\n jmp @b\n@b\n nop\nl3\n@b\n nop\n jmp @b\n"), [NOP, 0x4C, 0, 16, NOP, 0x4C, 4, 16, 0x4C, 11, 16, NOP, NOP, 0x4C, 12, 16])
case("P13", "a variable with the value of another", org(" .var a1 = 5,b1 = a1\n .byte a1,b1\na1 = 6\n .byte a1,b1\n"), [5, 5, 6, 5])
case("P13", "a variable set in a section", org(" .var v1 = 1\n .section s1\nv1 = 2\n .ends\n .byte v1\n"), [2])
case("P13", "extreme values", org("A1 = 0\nA2 = 65535\n .word A1,A2\n"), [0, 0, 255, 255])
for t in ("A1 = 65536\n", "A1 = -1\n", "A1 = 1\nA1 = 2\n", "l1: nop\nl1: nop\n", "A1 = 1\nA1: nop\n", " .section s1\nA1 = 1\n .ends\n .byte A1\n", "l1\n@a\n nop\nl2\n jmp @a\n", "l1\n@a\n nop\n@a\n nop\n"):
    case("P13", "error: " + t.replace("\n", ";"), org(t), None)
for n in (1, 60, 250, 1000):
    nm = "n" * n
    case("P13", f"names of {n} characters", org(f"{nm} = 3\n .section s{nm}\n{nm}x = 4\n .byte {nm},{nm}x\n .ends\n .byte s{nm}.{nm}x\n"), [3, 4, 4])
# ---------------------------------------------------------------- listing
import re
def rows(lst, image, base=0x1000):
    """the address and byte columns are the image"""
    got = []
    for l in lst.splitlines():
        m = re.match(r'^\$([0-9A-F]{4}): ((?:\$[0-9A-F]{2} ?)+)', l[:26])
        if m: got += [(int(m.group(1), 16) + k, int(x, 16)) for k, x in enumerate(re.findall(r'\$([0-9A-F]{2})', m.group(2)))]
    exp = [(base + k, b) for k, b in enumerate(image)]
    return None if got == exp else f"listing shows {len(got)} bytes, {len(exp)} are written; first difference at {next((k for k, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))}"
def listed(prog, name, image=None, extra=None, files=None, base=0x1000):
    def w(rc, o, lst, s):
        if rc: return f"exit status {rc}"
        bad = rows(lst or "", o, base)
        if bad: return bad
        if image is not None and list(o) != image: return "wrong bytes " + o[:40].hex(" ")
        return extra(lst) if extra else None
    case("P20", name, prog, w, files=files or {})
def has(*ts): return lambda lst: next((f"no row with {t}" for t in ts if t not in lst), None)
for n in (1, 100, 2030, 2040, 2046, 2047, 2048, 2050, 4096, 9000):
    listed(org(" nop ;" + "x" * n + "\n lda #1\n .byte \"" + "a" * n + "\"\n .byte 7\n"), f"source lines of {n} characters", [NOP, 0xA9, 1] + [0x61] * n + [7])
for n in range(0, 12):
    listed(org(f" .byte \"{'abcdefghijkl'[:n]}\",1\n .word \"{'abcdefghijkl'[:n]}\"\n .str \"{'abcdefghijkl'[:n]}\"\n nop\n"), f"strings of {n} characters")
listed(org(' .byte "ab\\n","abcd\\n","\\x00\\x01\\xff","a\\r"\n .word "\\n"\n'), "control characters", extra=lambda l: "a broken row" if "'\r" in l or "'\n" in l else None)
listed(org(" lda #-1\n lda -2,x\n ldx 5,y\n lda (5,x)\n lda (5),y\n jmp ($1234)\n lda $12\n lda $1234,y\n asl\n bne *-5\n inx\n jmp $ffff\n .byte -1,-128\n .word -1\n"), "operand forms",
       extra=has("lda #$FF ", "lda $FFFE,x ", "ldx $05,y ", "lda ($05,x) ", "lda ($05),y ", "jmp ($1234) ", "lda $12 ", "lda $1234,y ", "asl ", "inx ", "jmp $FFFF "))
def l65(rc, o, lst, s): return f"exit status {rc}" if rc else rows(lst, o) or has("jmp ($1234,x) ", "bra $1003 ", "stz $05 ", "phx ")(lst)
case("P20", "operand forms of the 65C02", org(" jmp ($1234,x)\nl: bra l\n stz 5\n phx\n"), l65, ["-65c02"])
listed(org(" .macro m1\n .byte \\1\n nop\n .endm\n .var i\n m1 1\n .for i = 1 .to 5\n m1 i\n .next i\n .fill 3,7\n .fill $12,2\n .ds 3\n nop\n .if 0\n inx\n .else\n iny\n .endif\n").replace(" .ds 3\n", ""), "macros, loops and fills")
listed(org("l: .ds 130\n bne l\n nop\n").replace(" .ds 130", " .fill 0,130"), "a far branch", [0] * 130 + [0xF0, 3, 0x4C, 0, 16, NOP])
listed(org(" nop\n .inc \"i.inc\"\n inx\n .inc \"i.inc\"\n .inc \"j.inc\"\n iny\n"), "included files", [NOP, 1, 2, 0xE8, 1, 2, 3, 1, 2, 4, 0xC8], files={"i.inc": " .byte 1\n .byte 2\n", "j.inc": " .byte 3\n .inc \"i.inc\"\n .byte 4\n"})
listed(org(" .load \"f.bin\"\n nop\n"), "a loaded file", files={"f.bin": bytes(range(70))})
def off(rc, o, lst, s):
    want = [(0x1000, "$EA"), (0x1003, "$03"), (0x1004, "$A9"), (0x100A, "$61")]
    got = [(int(a, 16), b) for a, b in re.findall(r'^\$([0-9A-F]{4}): (\$[0-9A-F]{2})', lst, re.M)]
    return None if got == want else f"rows {got}"
case("P20", "print off and on", org(" nop\n .print off\n lda #1\n .print on\n .byte 3\n lda #4\n .print off\n lda #5\n .print on\n .print off\n lda #6\n .print on\n .print on\n .byte \"abc\"\n"), off)
# ---------------------------------------------------------------- symbol files
for t in (" .byte nope\n", " .word nope\n", " .ds nope\n", " .fill 1,nope\n", " .if nope\n nop\n .endif\n", " bne nope\n", " jmp nope\n", " lda #<nope\n", " lda nope,x\n", "A1 = nope\n .byte A1\n", " .org nope\n", " .var i = nope\n", "l1\n jmp @nope\n", " .section s1\n jmp nope\n .ends\n", " jmp s1.nope\n", " .macro m1\n jmp nope\n .endm\n m1\n", " .var i\n .for i = 1 .to nope\n nop\n .next i\n", " .while nope\n nop\n .wend\n", " .repeat\n nop\n .until nope\n", " .byte 1,2,nope+1\n"):
    case("P21 P18", "undefined: " + t.strip().replace("\n", ";"), org(t), None)
def symrows(exp):
    def w(rc, o, lst, s):
        if rc: return f"exit status {rc}"
        got = re.findall(r'(\S+) \$([0-9A-F]{4,})\b', s or "")
        vals = [int(v, 16) for _, v in got]
        if vals != sorted(vals): return f"rows not in order of value: {got}"
        d = {}
        for n, v in got:
            if n.lower() in d: return f"two rows for {n}"
            d[n.lower()] = int(v, 16)
        for n, v in exp.items():
            if d.get(n) != v: return f"{n} is {d.get(n)} in the symbol file, not {v}"
        for n in d:
            if n not in exp: return f"a row for {n}"
        return None
    return w
for n in (1, 2, 5, 100, 2000):
    e = {f"a{k}": (k * 7919) % 65536 for k in range(n)}
    case("P21", f"{n} constants", org("".join(f"{a} = {v}\n" for a, v in e.items()) + "".join(f" .word {a},{a}\n" for a in e)), symrows(e))
case("P21", "values far apart", org("a1 = 65535\na2 = 0\na3 = 32768\na4 = 32767\na5 = 40000\na6 = 1\n" + " .word a1,a2,a3,a4,a5,a6\n" * 3), symrows(dict(a1=65535, a2=0, a3=32768, a4=32767, a5=40000, a6=1)))
case("P21", "labels", org("l2: nop\nl1: nop\n jmp l1\n jmp l2\n jmp l3\n jmp l1\n jmp l2\n jmp l3\nl3: nop\n"), symrows(dict(l2=0x1000, l1=0x1001, l3=0x1014)))
# ---------------------------------------------------------------- precedence: every pair of operators, without parentheses
def precedence():
    import e2e, random
    r = random.Random(5)
    def ok(op, a, b):
        if op in ("<<", ">>") and not (0 <= b <= 10 and a >= 0): return False
        return not (op == "/" and b <= 0)
    progs = []
    ops = list(e2e.LEVEL)
    for o1 in ops:
        lines, vals = [], []
        for o2 in ops:
            found = None
            for _ in range(4000):
                a, b, c = r.randint(0, 40), r.randint(0, 12), r.randint(0, 12)
                if not (ok(o1, a, b) and ok(o2, b, c)): continue
                ab, bc = e2e.ev_bin(o1, a, b), e2e.ev_bin(o2, b, c)
                if not (ok(o2, ab, c) and ok(o1, a, bc)): continue
                left, right = e2e.ev_bin(o2, ab, c), e2e.ev_bin(o1, a, bc)
                v = left if e2e.LEVEL[o1] >= e2e.LEVEL[o2] else right
                if not 0 <= v <= 65535: continue
                found = (a, b, c, v)
                if left != right: break
            a, b, c, v = found
            lines.append(f" .word {a} {o1} {b} {o2} {c}\n"); vals += [v & 255, v >> 8]
        progs.append((o1, "".join(lines), vals))
    for u, f in (("~", "~"), ("not ", "not"), ("<", "<"), (">", ">")):
        lines, vals = [], []
        for o in ops:
            for a, b in ((700, 9), (0, 3), (513, 1), (260, 4), (5, 5)):
                v = e2e.ev_un(f, e2e.ev_bin(o, a, b))
                if 0 <= v <= 65535: lines.append(f" .word {u}{a} {o} {b}\n"); vals += [v & 255, v >> 8]
        progs.append((u.strip(), "".join(lines), vals))
    return progs
for _o, _l, _v in precedence():
    case("P06", f"{_o} before every operator", org(_l), _v)
case("P06", "parentheses around each side", org(" .word 2 * (3 + 4), (2 + 3) * 4, 100 - (10 - (5 - 2)), (1 << 2) << 3, 64 >> (4 >> 1), (6 ^ 2) + 1, 6 ^ (2 + 1)\n"),
     sum(([v & 255, v >> 8] for v in (14, 20, 93, 32, 16, 5, 5)), []))
# ---------------------------------------------------------------- ends of sections, three deep
case("P13", "a section at the third level ends", "v = 9\n" + org(" .section a\n .section b\nv = 1\n .section c\n nop\n .ends\n .byte v\n .ends\n .ends\n .byte v\n"), [NOP, 1, 9])
case("P13", "four levels with their own names", "v = 9\n" + org(" .section a\nv = 1\n .section b\nv = 2\n .section c\nv = 3\n .section d\nv = 4\n .byte v\n .ends\n .byte v\n .ends\n .byte v\n .ends\n .byte v\n .ends\n .byte v\n"), [4, 3, 2, 1, 9])
# ---------------------------------------------------------------- every instruction in every mode it has
def instructions():
    import opcode_oracle as oo
    txt = dict(i="", A=" a", I=" #$12", zp=" $12", zpx=" $12,x", zpy=" $12,Y", izx=" ($12,X)", izy=" ($12),y", zpi=" ($12)", a=" $1234", ax=" $1234,X", ay=" $1234,y",
               aix=" ($1234,x)", ind=" ($1234)", r=" *+2")
    for cpu, table, args in (("6502", oo.nmos(), []), ("6502 with undocumented instructions", {**oo.nmos(), **oo.nmos_undocumented()}, ["-i"]), ("65C02", oo.cmos(), ["-65c02"])):
        for style in (str.lower, str.upper, str.title, lambda n: n[0] + n[1:].upper()):
            src, out = "", []
            for (n, m), c in sorted(table.items()):
                if n[:3] in ("bbr", "bbs") or (m == "zpi" and n in oo.ZPIND): continue       # known findings
                src += f" {style(n)}{txt[m]}\n"; out += [c] + [0x12] * (oo.OPBYTES[m] == 1 and m != "r") + [0] * (m == "r") + [0x34, 0x12] * (oo.OPBYTES[m] == 2)
            yield cpu, args, src, out
for _c, _a, _s, _o in instructions():
    case("P01 P02", f"every instruction of the {_c}", org(_s), _o, _a)
# ---------------------------------------------------------------- many macro parameters
for n in (9, 10, 11, 25, 99, 100, 101, 120):
    case("P12", f"a macro with {n} parameters", " .macro mm\n" + "".join(f" .byte \\{k}\n" for k in range(n, 0, -1)) + " .endm\n" + org(" mm " + ",".join(str(k) for k in range(1, n + 1)) + "\n mm " + ",".join(str(k + 100) for k in range(1, n + 1)) + "\n"),
         list(range(n, 0, -1)) + list(range(n + 100, 100, -1)))
case("P12", "text after a parameter number", " .macro mm\n .word \\1+\\10,\\1*\\2,\\12-\\1\n .endm\n" + org(" mm 1,2,3,4,5,6,7,8,9,10,11,12\n"), [11, 0, 2, 0, 11, 0])
# ---------------------------------------------------------------- blanks and letter case of directives
for _w in (" ", "\t", "  ", " \t", "\t ", " \t \t", "\t\t\t", " " * 40, "\t" * 9 + " "):
    for _d in (".ifdef", ".IFDEF", ".IfDef"):
        case("P24", f"{_d} and {_w!r}", "k = 1\n" + org(f" {_d}{_w}k\n .byte 1\n .else\n .byte 2\n .endif\n {_d}{_w}nosuch\n .byte 3\n .else\n .byte 4\n .endif\n rts\n"), [1, 4, 0x60])
        _n = _d.replace("def", "ndef").replace("DEF", "NDEF").replace("Def", "nDef")
        case("P24", f"{_n} and {_w!r}", "k = 1\n" + org(f" {_n}{_w}k\n .byte 1\n .else\n .byte 2\n .endif\n {_n}{_w}nosuch\n .byte 3\n .else\n .byte 4\n .endif\n rts\n"), [2, 3, 0x60])
