"""The type registries of the checks: curated shapes plus random ones."""
import random
from reg import *

KEYABLE = ["unit", "bool", "str", "char", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]


def curated(r, ser=False):
    """built-in types in all interesting combinations; returns the roots"""
    P = {k: r.prim(k) for k in PRIM}
    R = list(P.values())
    o, b, v = r.opt, r.box, r.vec
    R += [o(P[k]) for k in PRIM]
    R += [v(P[k]) for k in PRIM]
    R += [b(P["u32"]), b(P["str"]), b(b(P["bool"])), o(b(P["u8"])), b(o(P["u8"])), o(o(P["unit"])), o(o(P["u32"])),
          o(v(P["u8"])), o(v(P["str"])), v(o(P["u64"])), v(v(P["u8"])), v(v(P["str"])), v(v(v(P["bool"]))), b(v(P["u8"])), v(b(P["u8"])),
          o(b(v(P["u16"]))), b(o(v(P["unit"])))]
    R += [r.arr(P["u8"], n) for n in (0, 1, 3)] + [r.arr(P["str"], n) for n in (0, 1, 2)]
    R += [r.arr(o(P["u8"]), 2), r.arr(r.arr(P["u16"], 2), 2), r.arr(v(P["u8"]), 2), o(r.arr(P["u32"], 2)), r.arr(P["f64"], 2), r.arr(r.arr(P["u8"], 2), 3), v(r.arr(P["u8"], 1))]
    t = r.tup
    R += [t(P["u8"]), t(P["u8"], P["str"]), t(P["bool"], P["unit"], P["char"]), t(t(P["u8"]), t(P["u8"], P["i8"])), t(v(P["u8"]), o(P["u8"])),
          o(t(P["u8"], P["u8"])), v(t(P["str"], P["u64"])),
          t(*([P["u8"]] * 4)), t(P["u8"], P["u16"], P["u32"], P["u64"], P["i8"]), t(*([P["str"]] * 6)), t(*([P["bool"]] * 7)), t(*([P["u8"]] * 8)),
          t(*([P["i64"]] * 9)), t(*([P["u8"]] * 10)), t(*([P["char"]] * 11)), t(P["u8"], P["u16"], P["u32"], P["u64"], P["i8"], P["i16"], P["i32"], P["i64"], P["bool"], P["char"], P["str"], P["unit"])]
    for m in (r.bmap, r.hmap):
        R += [m(P["str"], P["u32"]), m(P["str"], P["str"]), m(P["u64"], v(P["u8"])), m(P["i32"], o(P["str"])), m(P["char"], P["bool"]), m(P["bool"], P["f64"]),
              m(P["unit"], P["u8"]), m(o(P["u8"]), P["u8"]), m(t(P["u8"], P["u8"]), P["u8"]), m(v(P["u8"]), P["str"]), m(v(P["str"]), v(P["str"])),
              m(P["str"], m(P["str"], P["u8"])), m(b(P["str"]), b(P["u8"])), o(m(P["str"], P["u8"])), v(m(P["str"], P["u8"])), m(P["str"], o(m(P["u8"], P["u8"]))),
              m(r.arr(P["u8"], 2), t(P["str"], P["u8"])), b(m(P["str"], b(m(P["str"], P["unit"]))))]
    for m in (r.bset, r.hset):
        R += [m(P["str"]), m(P["u64"]), m(P["i16"]), m(o(P["u8"])), m(t(P["u8"], P["str"])), m(v(P["u8"])), o(m(P["u8"])), v(m(P["char"])), m(b(P["bool"])), m(P["unit"])]
    # other hashers
    R += [r.hmapw(P["str"], P["u32"]), r.hmapw(P["i32"], v(P["str"])), r.hmapw(o(P["u8"]), P["bool"]), r.hmapw(t(P["u8"], P["str"]), r.hmapw(P["char"], P["u8"])), v(r.hmapw(P["u64"], P["unit"])),
          o(r.hmapw(b(P["str"]), o(P["f64"])))]
    # large arrays
    R += [r.arr(P["u8"], 33), r.arr(P["str"], 17), r.arr(b(P["u16"]), 64), o(r.arr(P["u8"], 100))]
    if ser:
        R += serial_only(r, P)
    return R


def serial_only(r, P):
    o, b, v = r.opt, r.box, r.vec
    R = [r.strref(), r.cow(), o(r.strref()), v(r.cow()), v(r.strref())]
    R += [r.sl(P[k]) for k in ("u8", "u16", "str", "bool", "unit", "f64")]
    R += [r.sl(v(P["u8"])), r.sl(r.sl(P["u8"])), r.sl(o(P["str"])), r.sl(r.tup(P["u8"], P["str"])), v(r.sl(P["u8"]))]
    R += [r.ref(x) for x in (P["u8"], P["str"], v(P["u8"]), v(P["str"]), o(P["u8"]), o(v(P["u16"])), r.bmap(P["str"], P["u8"]), r.arr(P["u8"], 2), r.tup(P["u8"], P["u8"]), P["unit"])]
    R += [r.mutref(x) for x in (P["u8"], v(P["str"]), o(P["u8"]), o(r.tup(P["u8"], P["u8"])), r.bset(P["str"]))]
    R += [o(r.ref(P["u8"])), b(r.ref(o(P["u8"]))), v(r.ref(P["str"])), r.ref(r.ref(v(P["u8"]))), r.mutref(r.mutref(P["str"])), r.bmap(r.strref(), r.ref(P["u8"])), r.hmap(r.cow(), r.sl(P["u8"])),
          r.bset(r.strref()), r.hset(r.ref(P["u64"])), r.tup(r.strref(), r.cow(), r.sl(P["u16"])), r.arr(r.strref(), 2)]
    return R


def random_type(r, rng, depth, keyable=False, leafs=PRIM, ser=False):
    """a random built-in type"""
    if depth <= 0 or rng.random() < .15:
        return r.prim(rng.choice([k for k in leafs if not keyable or k in KEYABLE]))
    sub = lambda key=False: random_type(r, rng, depth - 1, key or keyable, leafs, ser)
    ks = ["opt", "box", "vec", "arr", "tup"] + ([] if keyable else ["bmap", "hmap", "bset", "hset", "bmap", "opt"])
    if ser:
        ks += ["ref", "sl", "mutref"] if not keyable else ["ref"]
    k = rng.choice(ks)
    if k == "arr": return r.arr(sub(), rng.randrange(4))
    if k == "tup": return r.tup(*[sub() for _ in range(rng.randrange(1, 5))])
    if k in ("bmap", "hmap"): return getattr(r, k)(random_type(r, rng, min(depth - 1, 2), True, leafs, ser), sub())
    if k in ("bset", "hset"): return getattr(r, k)(random_type(r, rng, min(depth - 1, 2), True, leafs, ser))
    return getattr(r, k)(sub())


# -- declarations -------------------------------------------------------------
IDENTS = ["a", "b", "c", "foo", "bar", "foo_bar", "x1", "a_b_c", "type_", "value_2x", "long_field_name", "is_ok", "http2_url", "n", "id", "some_other__thing", "fooBar", "z_", "type", "match", "_hidden", "_foo_bar", "__x", "gr\u00f6\u00dfe", "\u00e4_\u00f6"]
CASES = ["", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
VARIANTS = ["A", "B", "Foo", "FooBar", "HTTPServer", "X1", "Fo", "ZedZZ", "FooBarBaz", "V2Beta", "Snake_Case", "loop", "Gr\u00f6\u00dfe", "_Under", "\u00c4pfel", "\u00e9t\u00e9"]
RENAMES = ["", "x", "Foo", "$type", "a b", "\u00e4", "0", "fooBar", "FOO", "foo-bar", "\"q\"", "back\\slash", "\U0001f600"]


def names_of(r, i):
    """the names a struct takes itself (input generation only)"""
    from gen import field_name
    out = set()
    for f in r[i]["f"]:
        if not f["flat"]:
            out.add(field_name(r[i], f))
            out |= {"".join(map(chr, x)) for x in f["al"]}
    return out


class Decl:
    """random struct, newtype and enum declarations"""
    def __init__(self, r, seed, ser=True, de=True, probe=None):
        from gen import Gen
        self.r, self.rng, self.g = r, random.Random(seed), Gen(r, seed + 1)
        self.structs, self.enums, self.nts = [], [], []
        self.ser, self.de = ser, de
        self.wrap = probe or (lambda x: x)

    def enum(self, ra=None):
        rng = self.rng
        while True:
            vs = rng.sample(VARIANTS, rng.randrange(1, 6))
            ra = rng.choice(CASES) if ra is None else ra
            from gen import variant_name
            seen, out = set(), []
            ok = True
            for v in vs:
                rn = rng.choice(RENAMES) if rng.random() < .2 else None
                al = [rng.choice(RENAMES + ["al1", "al2", v.lower(), v.upper()]) for _ in range(rng.choice((0, 0, 0, 1, 2)))]
                n = variant_name({"ra": ra}, {"hasrn": int(rn is not None), "rn": cps(rn or ""), "id": cps(v)})
                al = [x for k, x in enumerate(al) if x not in seen and x != n and x not in al[:k]]
                ok = ok and n not in seen
                seen |= {n} | set(al)
                out.append((v, rn, al))
            if ok:
                i = self.r.en(out, ra=ra, hint=rng.choice((None, None, "Kind")))
                self.enums.append(i)
                return i

    def ftype(self, depth=2):
        r, rng = self.r, self.rng
        x = rng.random()
        w = self.wrap
        p = lambda: w(r.prim(rng.choice(("u8", "u32", "str", "bool", "i64", "char", "f64", "unit", "u32", "str"))))
        if x < .3: return p()
        if x < .5: return w(r.opt(self.ftype(0) if rng.random() < .5 else p()))
        if x < .6: return w(r.vec(p()))
        if x < .65: return w(r.box(p()))
        if x < .7: return w(r.bmap(r.prim("str"), p()))
        if x < .75: return w(r.tup(p(), p()))
        if x < .8 and self.enums: return w(rng.choice(self.enums))
        if x < .85 and self.nts: return w(rng.choice(self.nts))
        if x < .97 and self.structs and depth > 0:
            s = rng.choice(self.structs)
            return w(rng.choice((s, s, r.opt(s), r.vec(s), r.box(s), r.bmap(r.prim("str"), s))))
        return w(r.prim(rng.choice(("u8", "u32", "str"))))

    def newtype(self, inner=None, rename=None):
        i = self.r.nt(inner or self.ftype(), rename)
        self.nts.append(i)
        return i

    def unwrapped(self, i):
        while self.r[i]["k"] in ("box", "nt", "probe"):
            i = self.r[i]["a"][0]
        return i

    def struct(self, n=None, ra=None, dflt=None, so=None, flat=False, skips=True, overlap=False, lossless=False):
        """flat: with flattened structs; lossless: skips are undone by defaults"""
        r, rng = self.r, self.rng
        from gen import field_name
        n = rng.randrange(0, 6) if n is None else n
        ra = rng.choice(CASES) if ra is None else ra
        so = rng.random() < .25 if so is None else so
        dflt = rng.choice((0, 0, 0, 1, 2)) if dflt is None else dflt
        ids = rng.sample(IDENTS, min(n, len(IDENTS)))
        seen, fs = set(), []
        flats = []
        if flat:
            for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
                c = [s for s in self.structs if self.all_names(s) is not None]
                if not overlap:
                    used = set().union(*[self.all_names(self.unwrapped(x)) for x in flats]) if flats else set()
                    c = [s for s in c if not (self.all_names(s) & used)]
                if dflt:
                    c = [s for s in c if all(f["df"] for f in r[s]["f"]) or r[s]["dflt"]]
                    c = [s for s in c if not any(f["flat"] for f in r[s]["f"])]
                if not c:
                    continue
                s = rng.choice(c)
                y = rng.random()
                if y < .2: s = r.box(s)
                elif y < .35: s = r.nt(s)
                elif y < .4: s = r.box(r.nt(s))
                flats.append(self.wrap(s) if rng.random() < .5 else s)
            used = set().union(*[self.all_names(self.unwrapped(x)) for x in flats]) if flats else set()
            if not overlap:
                seen |= used
        for idn in ids:
            f = {"id": idn, "ty": self.ftype()}
            t = r[self.unwrapped(f["ty"])]
            if rng.random() < .2: f["rn"] = rng.choice(RENAMES)
            if self.de and rng.random() < .25:
                f["al"] = [rng.choice(RENAMES + ["al1", "al2", "old_name", idn.upper(), idn]) for _ in range(rng.choice((1, 1, 2)))]
            if self.de and rng.random() < .3:
                f["df"] = rng.choice((1, 2))
                if f["df"] == 2:
                    f["dv"] = self.g.value(f["ty"], 2, finite=True)
            if self.ser and skips and rng.random() < .3:
                c = ["always", "never"]
                direct = r[f["ty"]]["k"]
                if direct == "opt": c += ["none"] * 3
                if direct in ("vec", "str", "bmap"): c += ["empty"] * 3
                if direct == "u32": c += ["zero"] * 3
                f["sk"] = rng.choice(c)
                if lossless:
                    if f["sk"] == "always": f["sk"] = "never"
                    if f["sk"] in ("none", "empty", "zero"):
                        f["df"] = 1
                        f.pop("dv", None)
            name = field_name({"ra": ra}, {"hasrn": int("rn" in f), "rn": cps(f.get("rn", "")), "id": cps(idn)})
            if name in seen:
                continue
            seen.add(name)
            al = []
            for x in f.get("al", []):
                if x not in seen:
                    al.append(x)
                    seen.add(x)
            if al: f["al"] = al
            else: f.pop("al", None)
            fs.append(f)
        fl = []
        for k, s in enumerate(flats):
            f = {"id": "flat%d" % k, "ty": s, "flat": 1}
            if self.ser and skips and rng.random() < .12 and not lossless:
                f["sk"] = rng.choice(("always", "never"))
            fl.append(f)
        allf = fs + fl
        rng.shuffle(allf)
        cv = [self.g.value(f["ty"], 2, finite=True) for f in allf] if dflt else None
        hint = rng.choice((None, None, None, "Renamed", "with space"))
        i = r.st(allf, ra=ra, dflt=dflt, so=so, hint=hint, cv=cv)
        self.structs.append(i)
        return i

    def all_names(self, i, seen=()):
        """every name a struct takes, also through flattening"""
        i = self.unwrapped(i)
        if self.r[i]["k"] == "bag":
            return set()
        if self.r[i]["k"] != "st":
            return None
        out = set(names_of(self.r, i))
        for f in self.r[i]["f"]:
            if f["flat"]:
                out |= self.all_names(f["ty"])
        return out


def node(r, probe=None):
    """a recursive declaration"""
    w = probe or (lambda x: x)
    s = r.declare()
    r.st([{"id": "v", "ty": w(r.prim("u8"))}, {"id": "next", "ty": w(r.opt(r.box(s)))}, {"id": "kids", "ty": w(r.vec(s)), "df": 1}], at=s)
    return s


def case_matrix(d):
    """every case rule on names that tell the rules apart"""
    out = []
    for ra in CASES:
        u = d.wrap(d.r.prim("u8"))
        out.append(d.r.st([{"id": x, "ty": u} for x in ("a", "foo_bar", "x1", "a_b_c", "type_", "value_2x", "mixedCase", "some_other__thing", "fn", "_bar_foo", "__x", "gr\u00f6\u00dfe", "stra\u00dfe_\u00e4")], ra=ra))
        out.append(d.r.st([{"id": "foo_bar", "ty": u, "rn": "Custom_Name"}, {"id": "other_x", "ty": u, "al": ["foo_bar", "otherX"] if ra not in ("camelCase", "", "lowercase", "snake_case") else ["oo"]}], ra=ra, hint="hint_" + str(len(out))))
        out.append(d.r.en([(v, None, []) for v in ("A", "Foo", "FooBar", "HTTPServer", "X1", "Snake_Case", "Gr\u00f6\u00dfe", "_Under", "\u00c4pfel", "\u00e9t\u00e9")], ra=ra))
        out.append(d.r.en([("FooBar", "Other", []), ("BarBaz", None, ["alias_one", "Bar Two"])], ra=ra))
    # many fields and many variants, some of them only by an alias or optional
    u, o = d.wrap(d.r.prim("u8")), d.r.opt(d.wrap(d.r.prim("str")))
    for n in (17, 40):
        out.append(d.r.st([{"id": "field_%d" % k, "ty": o if k % 3 else u, "al": ["alias%d" % k, "f%d" % k] if k % 4 == 1 else [], "df": int(k % 5 == 4)} for k in range(n)], ra=CASES[n % 9]))
        out.append(d.r.en([("Variant%d" % k, None, ["alias%d" % k] if k % 4 == 1 else []) for k in range(n)], ra=CASES[(n + 3) % 9]))
    big = out[-2]
    # more fields than fit a byte
    n = 300
    d.huge = d.r.st([{"id": "h%d" % k, "ty": u if k % 3 else o, "df": int(k % 3 == 1)} for k in range(n)], ra="UPPERCASE")
    out.append(d.huge)
    out.append(d.r.st([{"id": "before", "ty": u}, {"id": "all", "ty": big, "flat": 1}, {"id": "after", "ty": u}]))
    return out


def overlapping(d):
    """structs that flatten structs which know the same keys"""
    r = d.r
    u, s = d.wrap(r.prim("u8")), d.wrap(r.prim("str"))
    F = lambda n, ty, **k: dict({"id": n, "ty": ty, "df": 1}, **k)
    fl = lambda n, ty: {"id": n, "ty": ty, "flat": 1}
    i1 = r.st([F("a", u), F("b", u)])
    i2 = r.st([F("b", s), F("c", s, al=["a"])])
    i3 = r.st([fl("f", i1), F("a", u), F("d", u)])
    d.structs += [i1, i2, i3]
    for k, (x, y) in enumerate(((i1, i2), (i2, i1), (i3, i1), (i1, i3), (i3, i2), (r.box(i2), r.nt(i1)))):
        own = F("a", u, df=0) if k % 2 else F("a", s)
        for fs in ([fl("x", x), own, fl("y", y)], [own, fl("x", x), fl("y", y), F("c", u)], [fl("x", x), fl("y", y)], [F("p", u, al=["b", "c"]), fl("y", y), fl("x", x)]):
            d.structs.append(r.st(fs))


def bags(d):
    """hand-written structs with open ended keys, flattened in front of, between and behind others"""
    r, w = d.r, d.wrap
    u, s, o = w(r.prim("u8")), w(r.prim("str")), r.opt(w(r.prim("u16")))
    F = lambda n, ty, **k: dict({"id": n, "ty": ty}, **k)
    fl = lambda n, ty: {"id": n, "ty": ty, "flat": 1}
    i1 = r.st([F("a", u, df=1), F("b", s, df=1)])
    every, some, opts, deep = r.bag(u), r.bag(s, True), r.bag(o, True), r.bag(r.vec(s))
    out = [every, some, opts, deep, r.opt(some), r.vec(every), r.box(opts), r.bag(some), r.bag(r.bag(o, True), True)]
    for fs in ([fl("rest", every)], [F("a", s), fl("rest", every), F("z_", u, df=1)], [fl("rest", some), F("id", u)], [fl("x", some), fl("rest", deep)], [fl("rest", deep), fl("x", some), F("b", u)],
               [fl("x", i1), fl("rest", every)], [fl("rest", every), fl("x", i1), F("foo_bar", o)], [fl("o", opts), F("id", o), fl("x", i1)], [fl("x", r.box(some)), F("n", u)], [fl("o", opts), fl("o2", some)]):
        out.append(r.st(fs))
    out.append(r.st([fl("o", opts), F("id", o), F("a", u)], so=1))
    out.append(r.st([fl("n", out[-1]), F("b", u, al=["x-b"])]))
    out.append(r.st([fl("n", out[-4]), fl("rest", deep)], ra="UPPERCASE", so=1))
    out.append(r.st([F("a", s), fl("x", r.nt(some))], hint="with bag", dflt=2, cv=[d.g.value(s, 2), ["map", []]]))
    out += [r.opt(out[-3]), r.vec(out[-2]), r.nt(out[-2])]
    for x in out:
        (d.structs if r[x]["k"] == "st" else d.nts).append(x)
    return out


def generics(r, d):
    P = r.prim
    out = []
    s0 = d.struct(n=3, flat=False)
    for a in (P("u8"), P("str"), s0):
        out.append(r.st([{"id": "a", "ty": a}, {"id": "b", "ty": r.opt(a)}, {"id": "c", "ty": r.vec(a)}], generic={a: "T"}))
        out.append(r.nt_generic(r.vec(a), {a: "T"}))
        out.append(r.nt_generic(a, {a: "T"}))
        out.append(r.st([{"id": "some_field", "ty": r.bmap(P("u64"), a), "df": 1}, {"id": "x", "ty": a, "rn": "y"}], generic={a: "T"}, ra="camelCase"))
        out.append(r.st([{"id": "a", "ty": a}, {"id": "n", "ty": r.opt(a)}], dflt=1, generic={a: "T"}, cv=[r.default_value(a), ["none"]]))
    u, s = P("u32"), P("str")
    out.append(r.st([{"id": "k", "ty": u}, {"id": "v", "ty": s}, {"id": "both", "ty": r.tup(u, s)}], generic={u: "A", s: "B"}))
    return out


def probed(r, i, memo=None):
    """the same built-in type with a probe around every part"""
    t = r[i]
    k = t["k"]
    P = r.probe
    a = [probed(r, x) for x in t.get("a", [])]
    if k in ("opt", "box", "vec", "bset", "hset", "ref", "mutref", "sl"): return P(getattr(r, k)(a[0]))
    if k == "arr": return P(r.arr(a[0], t["n"]))
    if k in ("bmap", "hmap"): return P(getattr(r, k)(*a))
    if k == "tup": return P(r.tup(*a))
    return P(i)


def probed_types(r, rng, n):
    """random built-in types with probes around most parts"""
    src = [x for x in curated(r, ser=True)]
    out = [probed(r, x) for x in rng.sample(src, min(n, len(src)))]
    for _ in range(n // 2):
        t = random_type(r, rng, rng.choice((2, 3, 4)), ser=True)
        out.append(probed(r, t))
    return out
