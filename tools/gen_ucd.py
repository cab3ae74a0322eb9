#!/usr/bin/env python3
"""Writes harness/ucd.inc from Python's unicodedata (Unicode 15.0) and the PropList White_Space/Hyphen lists."""
import unicodedata, sys, pathlib
assert unicodedata.unidata_version == "15.0.0", unicodedata.unidata_version
def ranges(pred):
    out, start = [], None
    for c in range(0x110001):
        v = c < 0x110000 and pred(c)
        if v and start is None: start = c
        if not v and start is not None:
            out.append((start, c - 1)); start = None
    return out
cat = lambda c: unicodedata.category(chr(c))
sets = {
    "letter": lambda c: cat(c) in ("Ll", "Lm", "Lo", "Lt", "Lu"),
    "number": lambda c: cat(c) in ("Nd", "Nl"),
    "combining_mark": lambda c: cat(c) in ("Mn", "Mc"),
    "lowercase": lambda c: chr(c).islower(),
    "uppercase": lambda c: chr(c).isupper(),
    "whitespace": lambda c: 9 <= c <= 13 or 0x2000 <= c <= 0x200A or c in (0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000),
    "hyphen": lambda c: c in (0x2D, 0xAD, 0x58A, 0x1806, 0x2010, 0x2011, 0x2E17, 0x30FB, 0xFE63, 0xFF0D, 0xFF65),
}
o = ["// generated by tools/gen_ucd.py (Unicode 15.0); first,last pairs"]
for n, p in sets.items():
    r = ranges(p)
    o.append("static constexpr char32_t ucd_%s[][2] = {" % n)
    line = ""
    for a, b in r:
        line += "{0x%X,0x%X}," % (a, b)
        if len(line) > 110: o.append(line); line = ""
    if line: o.append(line)
    o.append("};")
(pathlib.Path(__file__).parent.parent / "harness" / "ucd.inc").write_text("\n".join(o) + "\n")
