"""Random and boundary inputs over a registry.  Only inputs: what they mean is
decided by the specification."""
from reg import *

STRS = ["", "a", "b", "ab", "foo", "x y", "A", "\u00e4", "\u20ac", "\U0001f600", "\"", "\\", "\n", "\t", "\x00", "\x1f", "\x7f", "null", "0", "\ufeff", "\ufeffa", "a\ufeff", " a", "a ", "\u2028", "e\u0301", "\u00a0", "\u200d"]
CHARS = ["a", "b", "\"", "\\", "\n", "\x00", "\u00e4", "\u20ac", "\U0001f600", "\ufffd", "\U0010ffff", "\ud7ff", "\ue000", "\ufeff", " ", "\u0301", "\u00a0", "\x80"]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.5, 3.141592653589793, 1e22, 1e23, -2.5e-8, 5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, -1.7976931348623157e308, 123456789.125, 4294967296.0, 9007199254740993.0, 1e15, 1e16, 1e17, 1e300, 1e-300,
          3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45]
NONFIN = [float("inf"), float("-inf"), float("nan")]


def boundary_ints():
    s = {0, 1, 2, 9, 10, 42, 99, 100}
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-2, -1, 0, 1, 2):
            s.add(2**b + d)
            s.add(-(2**b) + d)
    s |= {2**53 + d for d in (-1, 0, 1)} | {10**k for k in range(0, 20)} | {-10**k for k in range(0, 19)}
    return sorted(s)


BINTS = boundary_ints()
# sizes around which an implementation could change its mind
BIG = [5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]


def camel(name, first):
    out, cap = "", first
    for ch in name:
        if ch == "_":
            cap = True
        elif cap:
            out += ch.upper() if ch.isascii() else ch
            cap = False
        else:
            out += ch
    return out


def aup(s): return "".join(c.upper() if c.isascii() else c for c in s)
def alow(s): return "".join(c.lower() if c.isascii() else c for c in s)


def field_name(r, f):
    if f["hasrn"]:
        return "".join(map(chr, f["rn"]))
    n = "".join(map(chr, f["id"]))
    return {"": n, "lowercase": n, "snake_case": n, "UPPERCASE": aup(n), "SCREAMING_SNAKE_CASE": aup(n),
            "PascalCase": camel(n, True), "camelCase": camel(n, False), "kebab-case": n.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": aup(n.replace("_", "-"))}[r["ra"]]


def variant_name(r, v):
    if v["hasrn"]:
        return "".join(map(chr, v["rn"]))
    n = "".join(map(chr, v["id"]))
    ra = r["ra"]
    if ra in ("", "PascalCase"): return n
    if ra == "lowercase": return alow(n)
    if ra == "UPPERCASE": return aup(n)
    if ra == "camelCase": return alow(n[:1]) + n[1:]
    sep = "_" if "_" in ra.lower() else "-"
    s = "".join((sep if i and c.isupper() else "") + c for i, c in enumerate(n))
    return aup(s) if ra.startswith("SCREAMING") else alow(s)


class Gen:
    def __init__(self, reg, seed):
        self.reg = reg
        self.rng = random.Random(seed)
        self.bigs = 0

    def many(self, n, most=257):
        """the number of elements of a container: now and then a large one, at most one per input"""
        if self.bigs > 0 and self.rng.random() < .5:
            self.bigs -= 1
            return self.rng.choice([b for b in BIG if b <= most])
        return n

    def large(self, p=.03):
        self.bigs = 1 if self.rng.random() < p else 0

    def atom(self):
        r = self.rng
        k = r.randrange(9)
        if k == 0: return ["null"]
        if k == 1: return ["bool", r.randrange(2)]
        if k == 2: return vstr(r.choice(STRS))
        if k == 3: return ["bytes", [r.randrange(256) for _ in range(self.many(r.randrange(4)))]]
        if k == 4: return ["char", ord(r.choice(CHARS))]
        if k == 5: return ev_u(self.uint())
        if k == 6: return ev_i(self.sint())
        if k == 7: return vf(r.choice(FLOATS))
        return ev_u(r.randrange(5))

    def uint(self):
        r = self.rng
        if r.random() < .5:
            return r.choice([x for x in BINTS if 0 <= x < 2**64])
        return r.getrandbits(r.randrange(1, 65))

    def sint(self):
        r = self.rng
        if r.random() < .5:
            return r.choice([x for x in BINTS if -2**63 <= x < 2**63])
        b = r.randrange(1, 64)
        return r.getrandbits(b) * r.choice((1, -1))

    def int_in(self, k):
        lo, hi = INTS[k]
        r = self.rng
        if r.random() < .5:
            return r.choice([x for x in BINTS if lo <= x <= hi])
        return max(lo, min(hi, r.getrandbits(r.randrange(1, 65)) * (r.choice((1, -1)) if lo < 0 else 1)))

    def string(self):
        r = self.rng
        if self.bigs > 0 and r.random() < .5:
            n = self.many(20)
            return "".join(r.choice(STRS + ["z"]) if r.random() < .2 else r.choice("abcdefghij") for _ in range(n))
        if r.random() < .7:
            return r.choice(STRS)
        return "".join(r.choice(STRS + ["z", "9", "\x08", "\x0c", "\r", "/"]) for _ in range(r.randrange(6)))

    def fl(self, f32=False, finite=False):
        import struct
        r = self.rng
        while True:
            x = r.random()
            if x < .5: v = r.choice(FLOATS)
            elif x < .6: v = r.choice(NONFIN)
            elif x < .8: v = float(r.randrange(-1000, 1000)) / r.choice((1, 2, 3, 7, 10))
            else: v = struct.unpack(">d", struct.pack(">Q", r.getrandbits(64)))[0]
            if f32:
                try: v = struct.unpack(">f", struct.pack(">f", v))[0]
                except OverflowError: continue
            if finite and (v != v or v in (float("inf"), float("-inf"))):
                continue
            return v

    # -- values ---------------------------------------------------------
    def value(self, i, depth=3, finite=False, size=3):
        r, t = self.rng, self.reg[i]
        k = t["k"]
        sub = lambda x: self.value(x, depth - 1, finite, size)
        n = r.randrange(size + 1) if depth > 0 else 0
        if k in ("vec", "sl", "bset", "hset", "bmap", "hmap"): n = self.many(n, 65 if depth >= 2 else 257)
        if k in INTS: return vint(self.int_in(k))
        if k == "f64": return vf(self.fl(finite=finite))
        if k == "f32": return vf(self.fl(True, finite))
        if k == "unit": return ["null"]
        if k == "bool": return ["bool", r.randrange(2)]
        if k in ("str", "strref", "cow"): return vstr(self.string())
        if k == "char": return ["char", ord(r.choice(CHARS))]
        if k == "opt":
            return ["none"] if depth <= 0 or r.random() < .35 else ["some", sub(t["a"][0])]
        if k in ("box", "nt", "ref", "mutref", "probe"): return self.value(t["a"][0], depth, finite, size)
        if k in ("vec", "sl"): return ["seq", [sub(t["a"][0]) for _ in range(n)]]
        if k in ("bset", "hset"): return ["set", [sub(t["a"][0]) for _ in range(n)]]
        if k in ("bmap", "hmap"): return ["map", [[sub(t["a"][0]), sub(t["a"][1])] for _ in range(n)]]
        if k == "bag":
            return ["map", [[vstr(x), sub(t["a"][1])] for x in r.sample(self.bag_keys(t, True), min(n, 4))]]
        if k == "arr": return ["seq", [sub(t["a"][0]) for _ in range(t["n"])]]
        if k == "tup": return ["seq", [sub(x) for x in t["a"]]]
        if k == "st": return ["st", [sub(f["ty"]) for f in t["f"]]]
        if k == "en": return ["en", r.randrange(len(t["v"])) + 1]
        raise Exception(k)

    def bag_keys(self, t, fit):
        ks = ["x-", "x-a", "x-b", "x-x-", "x-foo_bar", "x-\u00e4"]
        return ks + (["", "x", "X-a", "a", "b", "zz", "foo_bar", "id"] if not t["pre"] or not fit else [])

    # -- event streams ----------------------------------------------------
    def leafs(self, i):
        """(names, type) of every field reachable through flattening"""
        t = self.reg[i]
        while t["k"] in ("box", "nt"):
            t = self.reg[t["a"][0]]
        out = []
        if t["k"] == "bag":
            return [([x], {"ty": t["a"][1]}) for x in self.rng.sample(self.bag_keys(t, self.rng.random() < .8), self.rng.randrange(4))]
        for j, f in enumerate(t["f"]):
            if f["flat"]:
                out += self.leafs(f["ty"])
            else:
                out.append(([field_name(t, f)] + ["".join(map(chr, x)) for x in f["al"]], f))
        return out

    def any_events(self, depth=2):
        r = self.rng
        k = r.random()
        if depth <= 0 or k < .5:
            return [self.atom()]
        n = r.randrange(3)
        if k < .75:
            return [["S"]] + [e for _ in range(n) for e in self.any_events(depth - 1)] + [["s"]]
        return [["M"]] + [e for _ in range(n) for e in self.any_events(depth - 2) + self.any_events(depth - 1)] + [["m"]]

    def events(self, i, depth=4, wild=0.06):
        """a stream that usually fits type i"""
        r, t = self.rng, self.reg[i]
        k = t["k"]
        if r.random() < wild:
            return self.any_events()
        sub = lambda x: self.events(x, depth - 1, wild)
        n = r.choice((0, 1, 1, 2, 2, 3, 4)) if depth > 0 else 0
        if k in ("vec", "bset", "hset", "bmap", "hmap"): n = self.many(n, 65)
        if k in INTS:
            v = self.int_in(k)
            if r.random() < .1: v = r.choice(BINTS)
            if v < 0 or (v < 2**63 and r.random() < .4):
                return [ev_i(max(v, -2**63))]
            return [ev_u(min(v, 2**64 - 1))]
        if k in ("f32", "f64"):
            x = r.random()
            return [ev_u(self.uint()) if x < .15 else ev_i(self.sint()) if x < .3 else vf(self.fl())]
        if k == "unit": return [["null"]]
        if k == "bool": return [["bool", r.randrange(2)]]
        if k in ("str", "strref", "cow"): return [vstr(self.string())]
        if k == "char":
            return [["char", ord(r.choice(CHARS))]] if r.random() < .5 else [vstr(r.choice(CHARS + ["", "ab", "\u00e4\u00e4"]))]
        if k == "opt":
            return [["null"]] if depth <= 0 or r.random() < .25 else self.events(t["a"][0], depth, wild)
        if k in ("box", "nt", "probe"): return self.events(t["a"][0], depth, wild)
        if k in ("vec", "bset", "hset", "arr"):
            if k == "arr":
                n = t["n"] if r.random() < .9 else r.randrange(t["n"] + 3)
            if self.reg[t["a"][0]]["k"] == "u8" and r.random() < .4:
                return [["bytes", [r.randrange(256) for _ in range(n)]]]
            return [["S"]] + [e for _ in range(n) for e in sub(t["a"][0])] + [["s"]]
        if k in ("bmap", "hmap"):
            out = []
            keys = []
            for _ in range(n):
                ke = r.choice(keys) if keys and r.random() < .3 else sub(t["a"][0])
                keys.append(ke)
                out += ke + sub(t["a"][1])
            return [["M"]] + out + [["m"]]
        if k == "tup":
            out = [e for x in t["a"] for e in sub(x)]
            if r.random() < .04: out += sub(t["a"][-1])
            if r.random() < .04: out = [e for x in t["a"][:-1] for e in sub(x)]
            return [["S"]] + out + [["s"]]
        if k in ("st", "bag"):
            ent = []
            pmiss = r.choice((0, 0, .1, .3, .6))
            for names, f in self.leafs(i):
                if r.random() >= pmiss and not (depth <= 0 and self.reg[f["ty"]]["k"] == "opt"):
                    ent.append([vstr(r.choice(names))] + sub(f["ty"]))
                    if r.random() < .08:
                        ent.append([vstr(r.choice(names))] + sub(f["ty"]))
            if r.random() < .3:
                ent.append([vstr(r.choice(["zz", "unknown", "", "A", "Name", "_"]))] + self.any_events())
            if r.random() < .5: r.shuffle(ent)
            return [["M"]] + [e for x in ent for e in x] + [["m"]]
        if k == "en":
            v = r.choice(t["v"])
            return [vstr(r.choice([variant_name(t, v)] + ["".join(map(chr, x)) for x in v["al"]]))] if r.random() < .9 \
                else [vstr(r.choice([chr(0x41), "".join(map(chr, v["id"])), alow("".join(map(chr, v["id"]))), aup("".join(map(chr, v["id"])))]))]
        raise Exception(k)

    def mutate(self, ev):
        """damage a stream, keeping it a possible prefix of a bracketed one"""
        r = self.rng
        ev = list(ev)
        x = r.random()
        at = [i for i, e in enumerate(ev) if e[0] not in "MmSs"]
        if x < .45 and at:
            ev[r.choice(at)] = self.atom()
        elif x < .6 and at:
            del ev[r.choice(at)]
        elif x < .75 and at:
            ev[r.choice(at):][:0] = []
            ev.insert(r.choice(at), self.atom())
        elif x < .85 and at:
            j = r.choice(at)
            ev[j:j + 1] = self.any_events()
        elif x < .95:
            ev = ev[:r.randrange(len(ev) + 1)]
        else:
            ends = [i for i, e in enumerate(ev) if e[0] in "ms"]
            if ends:
                j = r.choice(ends)
                ev[j] = ["s"] if ev[j][0] == "m" else ["m"]
        return well(ev)


def well(ev):
    """cut a stream where it would do something that is not specified: a map
    that ends (or is re-entered) between key and value, or more after the end"""
    st = []
    out = []
    for e in ev:
        if not st and out:
            break
        k = e[0]
        if k in ("m", "s"):
            if not st:
                break
            if st[-1][0] == "M" and st[-1][1] % 2 and k == "m":
                break
            out.append(e)
            if (k == "m") != (st[-1][0] == "M"):
                break     # panics
            st.pop()
        else:
            if st:
                st[-1][1] += 1
            out.append(e)
            if k in ("M", "S"):
                st.append([k, 0])
    return out
