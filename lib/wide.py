"""Cases of the operation wide.  (What they mean is up to Width.tla.)"""
import os
import random

SEQ = {"vec": "ustlpo", "bset": "ul", "hset": "us"}
MAP = {"bmap": ["uu", "su", "ul", "ut", "sp", "ss", "sl"], "hmap": ["uu", "su", "ut", "ss", "sp", "sl"]}
RECS = {"u": 2, "o": 2, "t": 2, "s": 2, "l": 4, "p": 6}      # told to a sink
EVS = {"u": 1, "o": 1, "t": 3, "s": 1, "l": 3, "p": 4}       # logged by a serialization
SMALL = [0, 1, 2, 3, 255, 256, 257, 4097, 65535, 65536, 65537, 70000]
LARGE = [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000,
        16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 100001, 131071, 131072, 131073, 200000]
SIZES = LARGE if os.environ.get("VERIF_TIER") == "thorough" else SMALL


def case(mode, ct, ek, n, **kw):
    ismap = ct in MAP or ct in ("known", "open")
    k = ek[-1]
    if mode in ("ser", "serpath"):
        p, head = EVS[k] + ismap, 3 if ct == "open" else 1
    elif mode in ("derec", "parserec", "depath"):
        p, head = RECS[k] + 2 * ismap, 5 if ct in ("known", "open") else 1
    elif mode in ("write", "debug", "pretty"):
        p, head = 4 if ismap else 2, 3 if ct == "open" else 1
    else:
        p, head = 1, 1 if ct == "open" else 3 if ct == "known" else 0
    c = {"op": "wide", "mode": mode, "ct": ct, "ek": ek, "n": n, "len": 0, "stop": -1, "bad": -1, "ws": [], "segs": [], "form": "",
         "sections": [[head, 1], [p * n, p]], "sort": int(ct in ("hmap", "hset"))}
    c.update(kw)
    return c


def pairs(what):
    """containers and elements for a mode"""
    out = [("vec", e) for e in "ustlpo"] + [("bset", e) for e in "ul"] + [("hset", e) for e in "us"]
    out += [(m, e) for m in MAP for e in MAP[m]] + [("open", e) for e in "ulpst"]
    if what == "ser": return out + [("slice", e) for e in "ustlpo"]
    if what == "counted": return [x for x in out if x[1][-1] == "t"]
    if what == "hooks": return [x for x in out if x[1][-1] == "t" and x[0] != "hmap"] + [("slice", "t")]
    if what == "struct": return [("open", e) for e in "ulpst"] + [("known", e) for e in "ulps"]
    if what == "open": return [("open", e) for e in "ulpst"]
    if what == "vec": return [("vec", e) for e in "ustlpo"]
    if what == "path": return [x for x in out if x[0] not in ("hset", "hmap")] + [("slice", "u"), ("slice", "p")]
    if what == "de": return out + [("known", e) for e in "ulps"]
    if what == "rec": return [("vec", e) for e in "uslp"] + [("bmap", e) for e in ("uu", "su", "sp", "ul")] + [("known", "u"), ("open", "l")]
    if what == "json": return [x for x in out if x[0] not in ("bmap", "hmap") or x[1][0] == "s"]
    if what == "write": return [x for x in out if x[0] in ("vec", "bset", "open") or x[0] == "bmap" and x[1][0] == "s"] + [("slice", "s")]
    if what == "pretty": return [("vec", e) for e in "usot"] + [("bset", "u"), ("bmap", "uu"), ("bmap", "su"), ("bmap", "ut"), ("slice", "s")]
    if what == "debug": return [x for x in out if x[0] not in ("hset", "hmap")] + [("slice", "u")]
    raise KeyError(what)


def runs(mode, what, sizes, rng=None, most=None, **kw):
    return [case(mode, ct, ek, n, **kw) for ct, ek in pairs(what) for n in sizes if not (n == 0 and mode in ("write", "debug", "pretty"))]


def arrays(modes, sizes):
    out = []
    for ek, ns in (("u", (3, 300, 65537)), ("t", (300, 65537))):
        for l in ns:
            for m in modes:
                if m in ("ser", "serpath", "write", "debug", "replay", "text"):
                    out.append(case(m, "arr", ek, l, len=l))
                else:
                    out += [case(m, "arr", ek, n, len=l) for n in (0, l - 1, l, l + 1, 2 * l, l + 256, l + 65536, 65536 - l if l < 65536 else 1) if n <= 140000]
    return out


def abandoned(mode, what, sizes, rng):
    """left in the middle"""
    out = []
    for ct, ek in pairs(what):
        if ek[-1] != "t": continue
        for n in sizes:
            if n: out += [case(mode, ct, ek, n, stop=rng.randrange(n)), case(mode, ct, ek, n, stop=n)]
    return out


def broken(mode, what, sizes, rng):
    """one element is wrong"""
    return [case(mode, ct, ek, n, bad=rng.choice((n - 1, rng.randrange(n)))) for ct, ek in pairs(what) for n in sizes if n and ct not in ("slice",)]


def atoms(ct, modes, sizes):
    out = []
    def add(m, segs):
        total = sum(x[1] for x in segs)
        head = 0 if m not in ("write", "debug") else 1 if ct == "text" else 2
        out.append(case(m, ct, "u", total, segs=segs, sections=[[head, 1], [total, 1]]))
    for m in modes:
        plain = m in ("write", "debug")
        for n in sizes:
            if n == 0: continue
            add(m, [[97, n]])
            add(m, [[97, n - 1], [98, 1]] if n > 1 else [[98, 1]])
            if ct == "text":
                add(m, [[0xe4, n]])
                add(m, [[97, n], [0x20ac, 1], [98, 3]])
                if not plain:
                    add(m, [[97, n], [0x1f600, 2], [10, 1], [98, 3]])
                    add(m, [[10, n], [97, 1]])
                    add(m, [[34, 1], [97, n], [92, 2]])
                    add(m, [[0x1f600, n]])
            elif not plain:
                add(m, [[0, n], [255, 1]])
                add(m, [[200, n]])
    return out


def numbers(sizes):
    D = str
    out = []
    for m in sizes:
        if m < 1: continue
        forms = {"shifted": [["1", 1], ["0", m], ["e-", 1], [D(m), 1]], "small": [["0.", 1], ["0", m], ["1E", 1], [D(m + 1), 1]],
                 "negative": [["-0.", 1], ["0", m], ["25e+", 1], [D(m + 2), 1]], "zero": [["0.", 1], ["0", m]], "fraction": [["5.", 1], ["0", m]],
                 "exponent": [["3e", 1], ["0", m], ["2", 1]], "noexponent": [["7e-", 1], ["0", m]]}
        if m > 400:
            forms["nothing"] = [["0.", 1], ["0", m], ["1", 1]]
            forms["huge"] = [["1", 1], ["0", m]]
        if m > 4:
            forms["hugeexponent"] = [["0.0e", 1], ["9", m]]
            forms["tinyexponent"] = [["12e-", 1], ["9", m]]
        for f, s in forms.items():
            out.append(case("parse", "number", "u", m, form=f, segs=s, sections=[]))
    return out
