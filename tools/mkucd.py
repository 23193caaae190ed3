#!/usr/bin/env python3
"""Derive the compact Unicode 15.0.0 truth tables used by the reference models.

Run ONCE at authoring time against the pristine UCD files; the output
(sim/ucd_tables.h) is committed, so that no check derives its truth from the
/repo working tree it is judging.  Nothing in here is taken from gen/*.c.

usage: mkucd.py DATADIR > ucd_tables.h
"""
import sys, re
D = sys.argv[1]
N = 0x110000

def rows(f):
    for line in open(f"{D}/{f}", encoding="utf-8"):
        com = ""
        if "#" in line:
            line, com = line.split("#", 1)
        line = line.strip()
        if not line:
            continue
        fs = [x.strip() for x in line.split(";")]
        a = fs[0].split("..")
        lo = int(a[0], 16); hi = int(a[-1], 16)
        yield lo, hi, fs, com.strip()

def missing(f):
    for line in open(f"{D}/{f}", encoding="utf-8"):
        m = re.match(r"# @missing: ([0-9A-F]+)\.\.([0-9A-F]+); (\S+)", line)
        if m:
            yield int(m[1], 16), int(m[2], 16), m[3]

# general category
gc = ["Cn"] * N
ud = {}
first = None
for line in open(f"{D}/UnicodeData.txt", encoding="utf-8"):
    f = line.rstrip("\n").split(";")
    cp = int(f[0], 16)
    if f[1].endswith(", First>"):
        first = cp
    elif f[1].endswith(", Last>"):
        for c in range(first, cp + 1):
            gc[c] = f[2]
    else:
        gc[cp] = f[2]
        ud[cp] = f

extpict = [False] * N
for lo, hi, fs, _ in rows("emoji-data.txt"):
    if fs[1] == "Extended_Pictographic":
        for c in range(lo, hi + 1):
            extpict[c] = True

def prop(file, default):
    v = [default] * N
    for lo, hi, fs, _ in rows(file):
        for c in range(lo, hi + 1):
            v[c] = fs[1]
    return v

out = []
def emit_enum(pfx, names):
    out.append("enum { " + ", ".join(f"{pfx}_{n}" for n in names) + f", {pfx}_COUNT }};")
    out.append(f"static const char *const {pfx}_names[] = {{ " + ", ".join(f'"{n}"' for n in names) + " };")

def emit_ranges(name, vals, default, conv):
    out.append(f"static const ucd_range {name}[] = {{")
    row = []
    c = 0
    while c < N:
        if vals[c] == default:
            c += 1; continue
        s = c; v = vals[c]
        while c < N and vals[c] == v:
            c += 1
        row.append(f"{{0x{s:X},0x{c-1:X},{conv(v)}}}")
    for i in range(0, len(row), 6):
        out.append(" " + ",".join(row[i:i+6]) + ",")
    out.append("};")

out.append("/* Generated by tools/mkucd.py from the Unicode Character Database 15.0.0. */")
out.append("/* Committed: truth for the reference models, independent of /repo. */")
out.append("#pragma once\n#include <stdint.h>\nstruct ucd_range { uint32_t lo, hi; uint16_t v; };")

# --- grapheme cluster break
g = prop("GraphemeBreakProperty.txt", "Other")
names = ["Other","CR","LF","Control","Extend","ZWJ","Regional_Indicator","Prepend","SpacingMark","L","V","T","LV","LVT","ExtPict"]
for c in range(N):
    if extpict[c]:
        assert g[c] == "Other", hex(c)
        g[c] = "ExtPict"
assert set(g) <= set(names)
emit_enum("GCB", names); emit_ranges("gcb_ranges", g, "Other", lambda v: names.index(v))

# --- word break (bit 6: Extended_Pictographic)
w = prop("WordBreakProperty.txt", "Other")
wn = ["Other","CR","LF","Newline","Extend","ZWJ","Format","Katakana","Hebrew_Letter","ALetter","MidLetter","MidNum","MidNumLet","Numeric","ExtendNumLet","Regional_Indicator","Single_Quote","Double_Quote","WSegSpace"]
assert set(w) <= set(wn)
wv = [wn.index(w[c]) | (64 if extpict[c] else 0) for c in range(N)]
emit_enum("WB", wn); emit_ranges("wb_ranges", wv, 0, lambda v: v)

# --- sentence break
s = prop("SentenceBreakProperty.txt", "Other")
sn = ["Other","CR","LF","Sep","Extend","Format","Sp","Lower","Upper","OLetter","Numeric","ATerm","SContinue","STerm","Close"]
assert set(s) <= set(sn), set(s) - set(sn)
emit_enum("SB", sn); emit_ranges("sb_ranges", s, "Other", lambda v: sn.index(v))

# --- line break, resolved by LB1; bit 6: East Asian F/W/H, bit 7: ExtPict & Cn
l = prop("LineBreak.txt", "XX")
eaw = prop("EastAsianWidth.txt", "N")
def lb1(c):
    v = l[c]
    if v in ("AI", "SG", "XX"): return "AL"
    if v == "SA": return "CM" if gc[c] in ("Mn", "Mc") else "AL"
    if v == "CJ": return "NS"
    return v
lr = [lb1(c) for c in range(N)]
ln = ["AL","BK","CM","CR","GL","LF","NL","SP","WJ","ZW","ZWJ","B2","BA","BB","CB","CL","CP","EB","EM","EX","H2","H3","HL","HY","ID","IN","IS","JL","JT","JV","NS","NU","OP","PO","PR","QU","RI","SY"]
assert set(lr) <= set(ln), set(lr) - set(ln)
lv = [ln.index(lr[c]) | (64 if eaw[c] in "FWH" and lr[c] in ("OP","CP") else 0) | (128 if extpict[c] and gc[c] == "Cn" else 0) for c in range(N)]
emit_enum("LB", ln); emit_ranges("lb_ranges", lv, 0, lambda v: v)

# --- bidi class
bl = {"Left_To_Right":"L","Right_To_Left":"R","Arabic_Letter":"AL","European_Terminator":"ET","Boundary_Neutral":"BN"}
b = ["L"] * N
for lo, hi, v in missing("DerivedBidiClass.txt"):
    for c in range(lo, hi + 1): b[c] = bl[v]
for lo, hi, fs, _ in rows("DerivedBidiClass.txt"):
    for c in range(lo, hi + 1): b[c] = fs[1]
bn = ["L","R","EN","ES","ET","AN","CS","B","S","WS","ON","BN","NSM","AL","LRO","RLO","LRE","RLE","PDF","LRI","RLI","FSI","PDI"]
assert set(b) <= set(bn)
emit_enum("BC", bn); emit_ranges("bc_ranges", b, "L", lambda v: bn.index(v))
# brackets: cp, canonical-opening identity, type
canon = {}
for lo, hi, fs, _ in rows("BidiBrackets.txt"):
    f = ud[lo]
    canon[lo] = int(f[5], 16) if f[5] and not f[5].startswith("<") else lo
out.append("struct ucd_bracket { uint32_t cp, id; char type; };")
out.append("static const ucd_bracket bidi_brackets[] = {")
for lo, hi, fs, _ in rows("BidiBrackets.txt"):
    pair = int(fs[1], 16)
    ident = canon[lo] if fs[2] == "o" else canon[pair]
    out.append(f" {{0x{lo:X},0x{ident:X},'{fs[2]}'}},")
out.append("};")
out.append("struct ucd_pair { uint32_t a, b; };")
out.append("static const ucd_pair bidi_mirrors[] = {")
for lo, hi, fs, _ in rows("BidiMirroring.txt"):
    out.append(f" {{0x{lo:X},0x{int(fs[1],16):X}}},")
out.append("};")

# --- case
for nm, idx in (("upper", 12), ("lower", 13), ("title", 14)):
    out.append(f"static const ucd_pair simple_{nm}[] = {{")
    row = []
    for cp, f in sorted(ud.items()):
        v = f[idx]
        if nm == "title" and not v: v = f[12]
        if v and int(v, 16) != cp:
            row.append(f"{{0x{cp:X},0x{int(v,16):X}}}")
    for i in range(0, len(row), 8): out.append(" " + ",".join(row[i:i+8]) + ",")
    out.append("};")
out.append("struct ucd_special { uint32_t cp; uint32_t lower[4], title[4], upper[4]; };")
out.append("static const ucd_special special_casing[] = {")
for lo, hi, fs, _ in rows("SpecialCasing.txt"):
    if len(fs) > 4 and fs[4]: continue     # conditional: only Final_Sigma is locale independent
    def a(x):
        v = [f"0x{int(t,16):X}" for t in x.split()]
        return "{" + ",".join(v + ["0"] * (4 - len(v))) + "}"
    out.append(f" {{0x{lo:X},{a(fs[1])},{a(fs[2])},{a(fs[3])}}},")
out.append("};")
cased = [0] * N
for lo, hi, fs, _ in rows("DerivedCoreProperties.txt"):
    if fs[1] == "Cased":
        for c in range(lo, hi + 1): cased[c] |= 1
    if fs[1] == "Case_Ignorable":
        for c in range(lo, hi + 1): cased[c] |= 2
out.append("/* bit 0: Cased, bit 1: Case_Ignorable */")
emit_ranges("cased_ranges", cased, 0, lambda v: v)
print("\n".join(out))
