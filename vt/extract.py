#!/usr/bin/env python3
"""Mechanical extraction of /repo's C-like C++ sources to C that goto-cc accepts.

Run on every check, from the current working tree.  It is a token-level rewrite: the body of every
function under contract is the text of /repo with only the rewrites listed in REWRITES applied.  What is
dropped is returned in `dropped` and copied into each evidence file.
"""
import re, os, sys

class ExtractError(Exception):
    pass

REWRITES = [
    "static_cast<T>(e)/const_cast/reinterpret_cast -> ((T)(e))",
    "nullptr -> ((void*)0)",
    "auto -> __auto_type",
    "constexpr -> const; [[attr]] and noexcept removed; std:: prefix of C library names removed; "
    "std::min/max/abs -> macros",
    "references (local T& x = e, and T& parameters within one file) -> pointers, dereferenced at each use; range-for over an array -> a pointer "
    "walking over it",
    "static of file-scope functions and variables removed, so that contracts can name them",
    "struct X / enum X used as type names get a typedef",
    "C++ library headers (<fstream> ...) not included; std::ofstream log_file, `log_file << ...;` and "
    "open_file_stream(log_file, ...) removed, log_file.is_open() -> log_file_is_open (a ghost bool)",
    "pasm.l: one C function per rule, whose body is the text of the rule's action (`return VT_CONTINUE` added at its end); BEGIN sets a variable, "
    "REJECT and yyterminate() return; the patterns and the generated matcher are dropped",
    "functions whose signature mentions std::ostream/std::ofstream (print_node, print_indent, "
    "open_file_stream: debug printing / log file) dropped",
]

TOK = re.compile(r'''
   (?P<ws>[ \t\r]+|\\\n)
 | (?P<nl>\n)
 | (?P<com>//[^\n]*|/\*.*?\*/)
 | (?P<raw>R"\((?:.|\n)*?\)")
 | (?P<str>(?:u8|L)?"(?:[^"\\\n]|\\.|\\\n)*")
 | (?P<chr>'(?:[^'\\\n]|\\.)+')
 | (?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.'])*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op><<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||::|[-+*/%&|^]=|\#\#|.)
''', re.X | re.S)

class T:
    __slots__ = ("k", "s", "line")
    def __init__(self, k, s, line): self.k, self.s, self.line = k, s, line
    def __repr__(self): return f"{self.s!r}"

def lex(text):
    out, line, pos = [], 1, 0
    bol = True
    while pos < len(text):
        # preprocessor line
        if bol:
            m = re.compile(r'[ \t]*#').match(text, pos)
            if m:
                end = pos
                while True:
                    e = text.find("\n", end)
                    if e < 0: e = len(text)
                    seg = text[end:e].rstrip("\r")
                    if seg.endswith("\\"):
                        end = e + 1
                        continue
                    break
                s = text[pos:e]
                # cut // and /* */ comments
                s2 = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', ' ', s, flags=re.S))
                out.append(T("pp", s2.strip(), line))
                line += s.count("\n")
                pos = e
                bol = False
                continue
        m = TOK.match(text, pos)
        k = m.lastgroup
        s = m.group()
        if k == "nl":
            out.append(T("nl", "\n", line)); line += 1; bol = True
        elif k == "ws":
            out.append(T("ws", " ", line)); line += s.count("\n")
        elif k == "com":
            out.append(T("ws", " ", line)); line += s.count("\n")
        else:
            out.append(T(k, s, line)); line += s.count("\n"); bol = False
        pos = m.end()
    return out

def text(toks):
    return "".join(t.s for t in toks)

def nxt(toks, i):
    """index of next significant token at or after i"""
    while i < len(toks) and toks[i].k in ("ws", "nl"):
        i += 1
    return i

def prv(toks, i):
    while i >= 0 and toks[i].k in ("ws", "nl"):
        i -= 1
    return i

OPEN = {"(": ")", "[": "]", "{": "}"}
def match(toks, i):
    """index of the closing bracket for the opening bracket at i"""
    st = []
    while i < len(toks):
        t = toks[i]
        if t.k == "op" and t.s in OPEN:
            st.append(OPEN[t.s])
        elif t.k == "op" and t.s in (")", "]", "}"):
            if not st or st[-1] != t.s:
                raise ExtractError(f"unbalanced bracket near line {t.line}")
            st.pop()
            if not st:
                return i
        i += 1
    raise ExtractError("unbalanced bracket")

CXX_HDR = re.compile(r'#\s*include\s*<(fstream|iostream|iomanip|string|sstream|vector|map|set|algorithm|'
                     r'cstdio|cstdlib|cstring|cctype|cstdint|cstddef|climits|filesystem|memory|utility|array|'
                     r'unordered_map|functional|string_view|type_traits|cassert|limits|iterator|list|deque|'
                     r'initializer_list|optional|tuple|numeric|new|exception|stdexcept)>')
C_OF = {"cstdio": "stdio.h", "cstdlib": "stdlib.h", "cstring": "string.h", "cctype": "ctype.h",
        "cstdint": "stdint.h", "cstddef": "stddef.h", "climits": "limits.h", "cassert": "assert.h"}

C_NAMES = set("""strlen strcmp strcpy strcat strncpy memcpy memset memcmp memmove strchr strstr strtol strdup
 size_t int8_t uint8_t int16_t uint16_t int32_t uint32_t int64_t uint64_t ptrdiff_t tolower toupper isdigit
 isxdigit isalpha isalnum isspace isprint fopen fclose fputc fputs fgetc fgets fprintf printf sprintf snprintf
 fwrite fread fseek ftell feof malloc calloc realloc free exit abort qsort va_list FILE uintptr_t intptr_t
 strncmp strrchr strtoul atoi""".split())

def rewrite(toks, dropped, fname):
    """token-level C++ -> C rewriting; returns new token list"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if t.k == "pp":
            m = CXX_HDR.match(t.s)
            if m:
                c = C_OF.get(m.group(1))
                out.append(T("pp", f"#include <{c}>" if c else "", t.line))
                i += 1
                continue
            if re.match(r'#\s*include\s*<flex.h>', t.s):
                out.append(T("pp", '#include "flex.h"', t.line)); i += 1; continue
            if re.match(r'#\s*define', t.s):
                s = t.s
                s = re.sub(r'\bnullptr\b', '((void*)0)', s)
                s = re.sub(r'\b(?:static|const|reinterpret)_cast\s*<([^<>]*)>\s*\(', r'(\1)(', s)
                out.append(T("pp", s, t.line)); i += 1; continue
            out.append(t); i += 1; continue
        if t.k == "id":
            if t.s == "nullptr":
                out.append(T("id", "((void*)0)", t.line)); i += 1; continue
            if t.s in ("static_cast", "const_cast", "reinterpret_cast"):
                j = nxt(toks, i + 1)
                if toks[j].s != "<":
                    raise ExtractError(f"{fname}:{t.line}: cast")
                depth, k = 0, j
                while True:
                    if toks[k].s == "<": depth += 1
                    elif toks[k].s == ">": depth -= 1
                    elif toks[k].s == ">>": depth -= 2
                    if depth <= 0: break
                    k += 1
                ty = toks[j + 1:k]
                p = nxt(toks, k + 1)
                if toks[p].s != "(":
                    raise ExtractError(f"{fname}:{t.line}: cast")
                q = match(toks, p)
                inner = rewrite(toks[p + 1:q], dropped, fname)
                out.append(T("op", "((", t.line)); out += rewrite(ty, dropped, fname)
                out.append(T("op", ")(", t.line)); out += inner; out.append(T("op", "))", t.line))
                i = q + 1; continue
            if t.s == "auto":
                out.append(T("id", "__auto_type", t.line))
                i += 1
                j = nxt(toks, i)
                if j < n and toks[j].s == "*":
                    i = j + 1
                    out.append(T("ws", " ", t.line))
                elif j < n and toks[j].s == "&":
                    raise ExtractError(f"{fname}:{t.line}: auto&")
                continue
            if t.s in ("constexpr",):
                out.append(T("id", "const", t.line)); i += 1; continue
            if t.s in ("noexcept", "override", "final"):
                i += 1; continue
            if t.s == "std":
                j = nxt(toks, i + 1)
                if j < n and toks[j].s == "::":
                    k = nxt(toks, j + 1)
                    nm = toks[k].s
                    if nm in C_NAMES:
                        i = k; continue
                    if nm in ("min", "max", "abs"):
                        out.append(T("id", {"min": "VT_MIN", "max": "VT_MAX", "abs": "abs"}[nm], t.line))
                        i = k + 1
                        j = nxt(toks, i)
                        if toks[j].s == "<":
                            while toks[j].s != ">": j += 1
                            i = j + 1
                        continue
                    raise ExtractError(f"{fname}:{t.line}: std::{nm}")
        if t.k == "op" and t.s == "[" and i + 1 < n and toks[i + 1].s == "[":
            q = match(toks, i)
            i = q + 1
            continue
        if t.k == "op" and t.s == "{":
            p = prv(out, len(out) - 1)
            j = nxt(toks, i + 1)
            if j < n and toks[j].s == "}" and p >= 0 and out[p].s == "=":
                out.append(T("op", "{0}", t.line)); i = j + 1; continue
        out.append(t); i += 1
    return out

class Unit:
    """one extracted file: list of top-level items (kind, name, tokens)"""
    def __init__(self, fname):
        self.fname = fname
        self.items = []
        self.errors = {}     # function name -> reason it could not be extracted

def split_top(toks):
    """split token list in top-level items; yields (kind, start, end[, name, body_start])"""
    items = []
    i, n = 0, len(toks)
    while i < n:
        t = toks[i]
        if t.k in ("ws", "nl"):
            i += 1; continue
        if t.k == "pp":
            items.append(("pp", [t], None, None)); i += 1; continue
        # extern "C" {
        if t.k == "id" and t.s == "extern":
            j = nxt(toks, i + 1)
            if j < n and toks[j].k == "str":
                k = nxt(toks, j + 1)
                if toks[k].s == "{":
                    q = match(toks, k)
                    items += split_top(toks[k + 1:q])
                    i = q + 1; continue
                # extern "C" decl;
                del toks[j]; n -= 1
        start = i
        paren_close = None
        seen_eq = False
        name = None
        while i < n:
            t = toks[i]
            if t.k == "pp":
                # conditional directives inside a declaration: keep as part of item
                i += 1; continue
            if t.k == "op":
                if t.s == "(":
                    if name is None and not seen_eq:
                        p = prv(toks, i - 1)
                        if toks[p].k == "id":
                            name = toks[p].s
                    i = match(toks, i) + 1; continue
                if t.s == "[":
                    i = match(toks, i) + 1; continue
                if t.s == "=":
                    seen_eq = True
                if t.s == ";":
                    i += 1
                    items.append(("decl", toks[start:i], name, None)); break
                if t.s == "{":
                    q = match(toks, i)
                    p = prv(toks, i - 1)
                    if not seen_eq and toks[p].s in (")", "const") :
                        items.append(("func", toks[start:q + 1], name, i - start)); i = q + 1
                        j = nxt(toks, i)
                        if j < n and toks[j].s == ";": i = j + 1
                        break
                    if not seen_eq and name is not None and toks[p].s == "noexcept":
                        items.append(("func", toks[start:q + 1], name, i - start)); i = q + 1; break
                    i = q + 1; continue
            i += 1
        else:
            rest = toks[start:n]
            if text(rest).strip():
                items.append(("decl", rest, name, None))
    return items

_serial = [0]
def subst(toks, name, repl):
    """name -> repl, except as a member"""
    out = []
    for ix, t in enumerate(toks):
        if t.k == "id" and t.s == name:
            p = prv(toks, ix - 1)
            if not (p >= 0 and toks[p].s in (".", "->", "::")):
                out.append(T("id", repl, t.line)); continue
        out.append(t)
    return out

def range_for(toks):
    """for (T x : array) and local references as C: a pointer walks over the array; a reference is a pointer"""
    toks = list(toks)
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.s == "for":
            o = nxt(toks, i + 1)
            if o < len(toks) and toks[o].s == "(":
                c = match(toks, o)
                d, colon, plain = 0, None, False
                for k in range(o + 1, c):
                    if toks[k].s in "([{" and toks[k].k == "op": d += 1
                    elif toks[k].s in ")]}" and toks[k].k == "op": d -= 1
                    elif d == 0 and toks[k].s in (";", "?"): plain = True; break
                    elif d == 0 and toks[k].s == ":" and colon is None: colon = k
                if colon is not None and not plain:
                    decl, arr = toks[o + 1:colon], text(toks[colon + 1:c]).strip()
                    ids = [x.s for x in decl if x.k == "id"]
                    if any(x.s in ("[", "std", "&&") for x in decl): raise ExtractError(f"line {t.line}: range for")
                    var = ids[-1]
                    b = nxt(toks, c + 1)
                    if toks[b].s == "{": e = match(toks, b)
                    else:
                        if toks[b].s in ("for", "while", "do", "if", "switch"): raise ExtractError(f"line {t.line}: range for")
                        e = b
                        while toks[e].s != ";": e = match(toks, e) + 1 if toks[e].s in ("(", "[", "{") else e + 1
                    _serial[0] += 1
                    it = f"vt_it{_serial[0]}"
                    head = lex(f"for (__typeof__(&({arr})[0]) {it} = ({arr}); {it} != ({arr}) + sizeof({arr}) / sizeof(({arr})[0]); {it}++) {{ ")
                    body = toks[b:e + 1]
                    if any(x.s == "&" for x in decl): body = subst(body, var, f"(*{it})")
                    else: head += lex(f"__typeof__(({arr})[0]) {var} = *{it}; ")
                    for x in head: x.line = t.line
                    toks[i:e + 1] = head + body + [T("op", "}", t.line)]
                    i = i + 1; continue
        if t.k == "op" and t.s == "&":
            p, q = prv(toks, i - 1), nxt(toks, i + 1)
            if p >= 0 and toks[p].k == "id" and q < len(toks) and toks[q].k == "id":
                eq = nxt(toks, q + 1); st = p
                while toks[prv(toks, st - 1)].k == "id": st = prv(toks, st - 1)
                if eq < len(toks) and toks[eq].s == "=" and toks[prv(toks, st - 1)].s in (";", "{", "}"):
                    e = eq
                    while toks[e].s != ";": e = match(toks, e) + 1 if toks[e].s in ("(", "[", "{") else e + 1
                    d, k = 0, e
                    while k < len(toks):
                        if toks[k].k == "op" and toks[k].s == "{": d += 1
                        elif toks[k].k == "op" and toks[k].s == "}":
                            d -= 1
                            if d < 0: break
                        k += 1
                    var = toks[q].s
                    rest = subst(toks[e + 1:k], var, f"(*vt_ref_{var})")
                    new = lex(f"__auto_type vt_ref_{var} = &(") + toks[eq + 1:e] + lex(");")
                    for x in new: x.line = t.line
                    toks[st:k] = new + rest
                    i = st + 1; continue
        i += 1
    return toks

def ref_params(tk, end):
    """positions and names of the reference parameters of the function whose signature is tk[:end]"""
    o = next((k for k in range(end) if tk[k].s == "("), None)
    if o is None: return None, {}
    c = match(tk, o)
    out, d, n, start = {}, 0, 0, o + 1
    for k in range(o + 1, c + 1):
        x = tk[k]
        if k == c or (x.s == "," and d == 0):
            part = [y for y in tk[start:k] if y.k not in ("ws", "nl")]
            if "&" in [y.s for y in part] and part[-1].k == "id" and "std" not in [y.s for y in part]: out[n] = part[-1].s
            n += 1; start = k + 1
        elif x.s in ("(", "[", "{"): d += 1
        elif x.s in (")", "]", "}"): d -= 1
    return (o, c), out

def ref_calls(toks, refs):
    """f(a) -> f(&(a)) where f takes a reference"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        o = nxt(toks, i + 1)
        if t.k == "id" and t.s in refs and o < len(toks) and toks[o].s == "(":
            c = match(toks, o)
            out.append(t); out.append(toks[o])
            d, n, start = 0, 0, o + 1
            for k in range(o + 1, c + 1):
                x = toks[k]
                if k == c or (x.s == "," and d == 0):
                    part = ref_calls(toks[start:k], refs)
                    if n in refs[t.s]: part = [T("op", "&(", t.line)] + part + [T("op", ")", t.line)]
                    out += part; out.append(x); n += 1; start = k + 1
                elif x.s in ("(", "[", "{"): d += 1
                elif x.s in (")", "]", "}"): d -= 1
            i = c + 1; continue
        out.append(t); i += 1
    return out

def process(path, fname, dropped):
    toks = lex(open(path, encoding="utf-8", errors="replace").read())
    u = Unit(fname)
    tops = split_top(toks)
    refs = {}
    for kind, tk, name, body in tops:
        if name and kind in ("func", "decl") and not re.search(r'std\s*::\s*(basic_)?(o|i)?(f|s)?stream', text(tk[:body] if kind == "func" else tk)):
            if kind == "decl" and "=" in [x.s for x in tk]: continue
            r = ref_params(tk, body if kind == "func" else len(tk))[1]
            if r: refs[name] = r
    for kind, tk, name, body in tops:
        if name in refs and kind in ("func", "decl"):
            (o, c), r = ref_params(tk, body if kind == "func" else len(tk))
            if r:
                sig = tk[:o + 1] + [T("op", "*", x.line) if x.s == "&" else x for x in tk[o + 1:c]]
                rest = tk[c:]
                for v in r.values(): rest = subst(rest, v, f"(*{v})")
                if kind == "func": body = len(sig) + (body - c)
                tk = sig + rest
        if refs and kind == "func":
            b2 = ref_calls(tk[body:], refs); tk = tk[:body] + b2
        if kind == "pp":
            u.items.append((kind, name, rewrite(tk, dropped, fname), None)); continue
        s = text(tk)
        sig = text(tk[:body]) if kind == "func" else s
        if re.search(r'std\s*::\s*(basic_)?(o|i)?(f|s)?stream', sig):
            dropped.append(f"{fname}: {name or s.strip()[:40]} (stream)")
            continue
        if kind == "decl" and re.match(r'\s*using\s', s):
            dropped.append(f"{fname}: {s.strip()[:60]}"); continue
        if kind == "decl" and re.match(r'\s*(?:extern\s+)?bool\s+\w+\s*=', s) is None and 'operator' in s:
            pass
        # log_file statements
        tk, body = drop_log(tk, body, dropped, fname)
        try:
            if kind == "func" and re.search(r'(?<![&])&(?![&])\s*\w*\s*[,)]', text(tk[:body])):
                raise ExtractError(f"{fname}: reference parameter in {name}")
            fs = nxt(tk, 0)
            if fs < len(tk) and tk[fs].s == "static" and kind in ("func", "decl"):
                tk = tk[:fs] + tk[fs + 1:]
                if kind == "func": body -= 1
            if kind == "func":
                tk = range_for(tk)
                body = next(ix for ix, t in enumerate(tk) if t.k == "op" and t.s == "{")
            new = rewrite(tk, dropped, fname)
        except ExtractError as e:
            u.errors[name or "?"] = str(e)
            if kind == "func":
                # keep a prototype
                try:
                    new = rewrite(tk[:body], dropped, fname) + [T("op", ";\n", 0)]
                    if '&' in text(new): continue
                    u.items.append(("decl", name, new, None))
                except ExtractError:
                    pass
            continue
        if kind == "decl":
            m = re.match(r'\s*(struct|enum)\s+(\w+)\s*(:\s*\w+\s*)?\{', text(new))
            m2 = re.match(r'\s*typedef\s+struct\s+(\w+)\s*\{', text(new))
            if m2 and not re.search(r'\}[^{}]*\b%s\b[^{}]*;\s*$' % m2.group(1), text(new)):
                new = [T("id", f"typedef struct {m2.group(1)} {m2.group(1)};\n", 0)] + new
            if m:
                if m.group(1) == "struct":
                    new = [T("id", f"typedef struct {m.group(2)} {m.group(2)};\n", 0)] + new
                else:
                    new = new + [T("id", f"\ntypedef enum {m.group(2)} {m.group(2)};\n", 0)]
        bi = None
        if kind == "func":
            # recompute body index in new
            for ix, t in enumerate(new):
                if t.s == "{" and t.k == "op":
                    bi = ix; break
        u.items.append((kind, name, new, bi))
    return u

def drop_log(tk, body, dropped, fname):
    """remove `log_file << ... ;`, open_file_stream(log_file..., rewrite log_file.is_open()"""
    if not any(t.s == "log_file" for t in tk):
        return tk, body
    out = []
    i = 0
    while i < len(tk):
        t = tk[i]
        if t.s == "open_file_stream":
            q = i
            while tk[q].s != ";": q += 1
            dropped.append(f"{fname}:{t.line}: open_file_stream(log_file, ...)")
            out.append(T("op", "((void)0)", t.line)); i = q; continue
        if t.s == "log_file" and t.k == "id":
            j = nxt(tk, i + 1)
            if j < len(tk) and tk[j].s == "<<":
                q = i
                while tk[q].s != ";": q += 1
                dropped.append(f"{fname}:{t.line}: log_file << ...")
                out.append(T("op", "((void)0)", t.line)); i = q; continue
            if j < len(tk) and tk[j].s == ".":
                k = nxt(tk, j + 1)
                if tk[k].s == "is_open":
                    p = nxt(tk, k + 1); q = match(tk, p)
                    out.append(T("id", "log_file_is_open", t.line)); i = q + 1; continue
                if tk[k].s in ("close", "flush"):
                    p = nxt(tk, k + 1); q = match(tk, p)
                    out.append(T("op", "((void)0)", t.line)); i = q + 1; continue
        out.append(t); i += 1
    nb = None
    if body is not None:
        for ix, t in enumerate(out):
            if t.s == "{" and t.k == "op":
                nb = ix; break
    return out, nb

LOOPKW = ("for", "while", "do")

def find_loops(tk, body):
    """positions (index where loop contract text must be inserted) of loops of a function in source order,
    with their header text."""
    loops = []
    i = body
    do_whiles = set()
    def scan(lo, hi):
        i = lo
        while i < hi:
            t = tk[i]
            if t.k == "id" and t.s in ("for", "while") and i not in do_whiles:
                p = nxt(tk, i + 1); q = match(tk, p)
                loops.append((i, q + 1, t.s, text(tk[p + 1:q])))
                i = q + 1; continue
            if t.k == "id" and t.s == "do":
                b = nxt(tk, i + 1)
                if tk[b].s != "{":
                    raise ExtractError("do without block")
                e = match(tk, b)
                w = nxt(tk, e + 1)
                if tk[w].s != "while":
                    raise ExtractError("do without while")
                do_whiles.add(w)
                p = nxt(tk, w + 1); q = match(tk, p)
                loops.append((i, b, "do", text(tk[p + 1:q])))
                # do loops: the contract goes after do
                i = b + 1; continue
            i += 1
    scan(body, len(tk))
    return loops

class Extraction:
    def __init__(self, src, outdir):
        self.src, self.out = src, outdir
        self.dropped = []
        self.units = {}
        os.makedirs(outdir, exist_ok=True)

    def header(self, name):
        u = process(os.path.join(self.src, name), name, self.dropped)
        self.units[name] = u
        with open(os.path.join(self.out, name), "w") as f:
            f.write("".join(text(it[2]) + "\n" for it in u.items))

    def load(self, name, path=None):
        u = process(path or os.path.join(self.src, name), name, self.dropped)
        self.units[name] = u
        return u

    def emit(self, name, outname=None, loop_contracts=None, drop=(), only=None, keep_bodies=True):
        """write the C text of unit `name`.
        loop_contracts: {func: {loop_index: (header_regex, text)}}"""
        u = self.units[name]
        parts = []
        missing = []
        lc = loop_contracts or {}
        for kind, nm, tk, body in u.items:
            if kind == "func" and nm in drop:
                parts.append(text(tk[:body]).strip() + ";"); continue
            if kind == "func" and nm in lc:
                loops = find_loops(tk, body)
                ins = {}
                for ix, (rx, txt) in lc[nm].items():
                    if ix >= len(loops):
                        raise ExtractError(f"{name}:{nm}: loop {ix} not found")
                    _, pos, kw, hdr = loops[ix]
                    if rx and not re.search(rx, hdr):
                        raise ExtractError(f"{name}:{nm}: loop {ix} header changed: {hdr.strip()}")
                    if txt: ins[pos] = txt
                if len(loops) != len(lc[nm]):
                    raise ExtractError(f"{name}:{nm}: {len(loops)} loops, {len(lc[nm])} loop contracts")
                t2 = []
                for ix, t in enumerate(tk):
                    if ix in ins:
                        t2.append(T("id", "\n" + ins[ix] + "\n", 0))
                    t2.append(t)
                tk = t2
            parts.append(text(tk))
        with open(os.path.join(self.out, outname or name.replace(".cc", ".c")), "w") as f:
            f.write("\n".join(parts) + "\n")
        return u

    def functions(self, name):
        return [nm for kind, nm, tk, b in self.units[name].items if kind == "func"]

# ---------------------------------------------------------------- the actions of the scanner (pasm.l)
LEXPRE = """
enum { INITIAL = 0, %s };
int vt_start_state;              /* the start state of the scanner */
char* yytext; int yyleng;
enum { VT_CONTINUE = -1, VT_REJECT = -2, VT_NO_BUFFER = 0 };
"""
LEXMAC = """
#define BEGIN(s) (vt_start_state = (s))
#define REJECT return VT_REJECT
#define yyterminate() return VT_NO_BUFFER
extern int vt_buffers; extern void yypop_buffer_state(void); extern void vt_unput(int c);
#define YY_CURRENT_BUFFER (vt_buffers > 0)
#define unput(c) vt_unput(c)
"""
def lexer_source(path):
    """the text of a C++ file with one function per rule of pasm.l: `int act_<state>_<name>(void) { <the action>; return VT_CONTINUE; }`
    where name is the pattern with everything but letters, digits and _ removed; also returns the list of (function, states, pattern)"""
    t = open(path, encoding="utf-8", errors="replace").read()
    m = re.match(r'(.*?)^%%[ \t]*\n(.*?)^%%', t, re.S | re.M)
    if not m: raise ExtractError("pasm.l: no rules section")
    defs, rules = m.group(1), m.group(2)
    d = re.search(r'^%\{\n(.*?)^%\}', defs, re.S | re.M)
    if not d: raise ExtractError("pasm.l: no declarations")
    states = sum((l.split()[1:] for l in defs.splitlines() if re.match(r'%x{1,2}\s|%s\s', l)), [])
    lexer_source.states = states
    funcs, out, pos = [], [], 0
    while pos < len(rules):
        mm = re.compile(r'[ \t]*\n').match(rules, pos)
        if mm: pos = mm.end(); continue
        # pattern: up to unquoted white space
        i, q, br = pos, False, False
        while i < len(rules):
            c = rules[i]
            if c == "\\": i += 2; continue
            if c == '"' and not br: q = not q
            elif c == "[" and not q: br = True
            elif c == "]" and not q: br = False
            elif c in " \t\n" and not q and not br: break
            i += 1
        pat = rules[pos:i]
        j = i
        while rules[j] in " \t": j += 1
        if rules[j] != "{": raise ExtractError(f"pasm.l: action of {pat} is not a block")
        k, depth = j, 0
        for mt in TOK.finditer(rules, j):
            if mt.group() == "{": depth += 1
            elif mt.group() == "}":
                depth -= 1
                if depth == 0: k = mt.end(); break
        else: raise ExtractError("pasm.l: unbalanced action")
        st = re.match(r'<([\w, ]+)>', pat)
        rest = pat[st.end():] if st and not pat.startswith("<<") else pat
        nm = "act_" + (st.group(1) if st and not pat.startswith("<<") else "INITIAL") + "_" + re.sub(r'\W', '', re.sub(r'\[[^\]]*\][+*]?', '', rest))
        while nm in [f[0] for f in funcs]: nm += "_"
        line = t[:m.start(2) + pos].count("\n") + 1
        funcs.append((nm, pat, line))
        out.append(f"int {nm}(void)\n{{\n{rules[j:k]}\nreturn VT_CONTINUE;\n}}\n")
        pos = k
        mm = re.compile(r'[^\n]*\n').match(rules, pos)
        pos = mm.end() if mm else len(rules)
    return d.group(1) + LEXPRE % ", ".join(states or ["VT_NOSTATE"]) + LEXMAC + "\n".join(out), funcs

def lexer_header(rules):
    """prototypes of the rule functions, and per start state X-macros over them and their numbers"""
    out = ["enum { " + ", ".join(["INITIAL = 0"] + lexer_source.states) + " };"] + [f"int {nm}(void);" for nm, _, _ in rules]
    by = {}
    for i, (nm, pat, line) in enumerate(rules):
        m = re.match(r'<(\w+)>', pat)
        by.setdefault(m.group(1) if m else "INITIAL", []).append((i, nm))
    for s, l in by.items():
        out.append(f"#define VT_RULES_{s}(X) " + " ".join(f"X({nm}, {i})" for i, nm in l))
    out.append(f"enum {{ VT_RULE_COUNT = {len(rules)} }};")
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    src, out = sys.argv[1:3]
    ex = Extraction(src, out)
    for h in sorted(os.listdir(src)):
        if h.endswith(".h"):
            ex.header(h)
    for c in sorted(os.listdir(src)):
        if c.endswith(".cc"):
            ex.load(c); ex.emit(c)
            print(c, len(ex.functions(c)), ex.units[c].errors)
    for d in ex.dropped: print("dropped", d)
