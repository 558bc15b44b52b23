"""One function per property."""
import random
from vlib import *
from reg import *
from registry import *
from gen import *
import scripted as longer
import wide
from concurrent.futures import ThreadPoolExecutor


def q(quick, thorough):
    return thorough if THOROUGH else quick


def prepare(ctx, reg, ops, roots=None, bin="typed", features=(), name="gen", derive_mode=None):
    """writes the registry for the harness and the specification and builds"""
    d = ctx.path(name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "gen.rs"), "w") as f:
        f.write(reg.rust(ops, roots, derive_mode))
    with open(os.path.join(d, "types.json"), "w") as f:
        f.write(reg.json())
    exe = build(ctx, bin, ("gen",) + tuple(features), gen=d)
    return exe, {"VH_TYPES": os.path.join(d, "types.json")}


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i + 1
        if c["op"] in ("drive", "pull"):
            # scripted cases rotate through all kinds of atoms
            c["rot"] = i % 8
    return cases


def de_cases(reg, roots, g, per_type, mutated=0.35, op="de"):
    out = []
    for i in roots:
        for j in range(per_type):
            g.large()
            ev = well(g.events(i, depth=g.rng.choice((1, 2, 3, 4)), wild=g.rng.choice((0, 0, .03, .1))))
            if g.rng.random() < mutated:
                for _ in range(g.rng.choice((1, 1, 2))):
                    ev = g.mutate(ev)
            out.append({"op": op, "ty": i, "ev": ev})
    return out


def C01(ctx):
    reg = Reg()
    rng = random.Random(SEED)
    roots = curated(reg)
    roots += [random_type(reg, rng, rng.choice((2, 3, 4))) for _ in range(q(40, 150))]
    P = {k: reg.prim(k) for k in PRIM}
    roots += [reg.hsetw(P["str"]), reg.hsetw(P["u64"]), reg.hsetw(reg.tup(P["u8"], P["i8"])), reg.opt(reg.hsetw(P["char"])), reg.vec(reg.hsetw(reg.opt(P["u8"]))), reg.bmap(P["str"], reg.hsetw(reg.box(P["i16"])))]
    roots = sorted(set(roots))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["de"], "d": ["de"]}, roots)
    g = Gen(reg, SEED)
    cases = number(de_cases(reg, roots, g, q(120, 600)))
    log("%d types, %d streams" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "de")
    validate(ctx, "TraceDe", tr, env, what="stream", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("de", "de", S) + wide.arrays(["de"], S) + wide.runs("parse", "vec", S) + wide.atoms("text", ["de"], S) + wide.atoms("bytes", ["de", "dearr"], S))


def value_cases(reg, roots, g, per_type, op, depth=(1, 2, 3), cap=0, **kw):
    out = []
    for i in roots:
        for j in range(per_type):
            g.large()
            v = g.value(i, g.rng.choice(depth), size=g.rng.choice((1, 2, 3, 5)))
            if cap and len(str(v)) > cap:  # the machines are checked event by event
                v = g.value(i, 1, size=2)
            out.append(dict({"op": op, "ty": i, "v": v}, **kw))
    return out


def C05(ctx):
    reg = Reg()
    rng = random.Random(SEED + 5)
    roots = curated(reg, ser=True)
    roots += [random_type(reg, rng, rng.choice((2, 3, 4)), ser=True) for _ in range(q(40, 150))]
    roots = sorted(set(roots))
    exe, env = prepare(ctx, reg, {"s": ["ser"], "b": ["ser"]}, roots)
    g = Gen(reg, SEED + 5)
    cases = number(value_cases(reg, roots, g, q(30, 200), "ser"))
    for c in cases:
        if rng.random() < .15:
            c["stop"] = rng.randrange(8)
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "ser")
    validate(ctx, "TraceSer", tr, env, what="serialization", cases=cases)
    # every shape of scripted values, read to every point
    cases = number(enumerate_cases(ctx, "MCPull", {"Depth": 2, "MaxSize": q(6, 7), "Kinds": "<-KindsFew", "Wraps": ["none", "path"], "Faults": [],
                                                   "Lazy": False, "Out": "1"}, "shapes") + longer.pulls(SEED + 5, q(1500, 20000), PULL_WRAPS))
    scripted(ctx, cases, "TraceSerProtocol", "shapes")
    S = wide.SIZES
    wide_data(ctx, wide.runs("ser", "ser", S) + wide.arrays(["ser"], S) + wide.atoms("text", ["ser"], S) + wide.atoms("bytes", ["ser", "serslice"], S))


def scripted(ctx, cases, module, name):
    exe = build(ctx, "proto")
    log("%d histories" % len(cases))
    tr = run_cases(ctx, exe, cases, name)
    validate(ctx, module, tr, {}, what=name + " history", cases=cases, chunk=120000)


def wide_data(ctx, cases, name="wide", features=()):
    """containers of many elements, long strings, bytes and numbers"""
    exe = build(ctx, "proto", features)
    random.Random(SEED).shuffle(cases)
    number(cases)
    log("%d cases of wide data" % len(cases))
    parts = [cases[k::8] for k in range(8) if cases[k::8]]
    with ThreadPoolExecutor(8) as pool:
        traces = list(pool.map(lambda k: run_cases(ctx, exe, parts[k], "%s%d" % (name, k), timeout=q(600, 3000)), range(len(parts))))
    done = ctx.path(name + ".traces")
    with open(done, "w") as f:
        for t in traces: f.write(open(t).read())
    validate(ctx, "TraceWide", done, {}, what="wide data", cases=[c for p in parts for c in p], chunk=0)


def C12(ctx):
    reg = Reg()
    rng = random.Random(SEED + 12)
    roots = curated(reg)
    roots += [random_type(reg, rng, rng.choice((2, 3, 4))) for _ in range(q(40, 150))]
    roots = sorted(set(roots))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["rt"]}, roots)
    g = Gen(reg, SEED + 12)
    cases = number(value_cases(reg, roots, g, q(60, 300), "rt", cap=15000))
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "rt")
    validate(ctx, "TraceRt", tr, env, what="round trip", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("replay", "json", S) + wide.arrays(["replay"], S) + wide.atoms("text", ["static"], S) + wide.atoms("bytes", ["static"], S))


def only(*modes):
    def f(reg, i, d):
        return [x for x in d if x not in ("Serialize", "Deserialize") or x in modes]
    return f


def C09(ctx):
    total = 0
    # declarations, then generic declarations on their own
    reg = Reg()
    d = Decl(reg, SEED + 9, ser=False)
    roots = case_matrix(d) + [node(reg)]
    for j in range(q(4, 12)):
        d.enum()
        d.newtype()
        d.newtype(rename="Other")
        for _ in range(q(6, 12)):
            d.struct(skips=False)
        for _ in range(2):
            d.struct(skips=False, flat=True)
    # defaults of every kind on optional and other fields
    for dflt in (0, 1, 2):
        for df in (0, 1, 2):
            fs = []
            for k, ty in enumerate((reg.prim("u8"), reg.opt(reg.prim("u8")), reg.vec(reg.prim("str")), reg.opt(reg.opt(reg.prim("bool"))), reg.box(reg.prim("i8")), reg.prim("unit"), reg.opt(reg.prim("unit")))):
                f = {"id": "f%d" % k, "ty": ty, "df": df}
                if df == 2: f["dv"] = d.g.value(ty, 2)
                fs.append(f)
            d.structs.append(reg.st(fs, dflt=dflt, cv=[d.g.value(f["ty"], 2) for f in fs]))
            d.structs.append(reg.st(fs[:1] + [dict(f, df=0) for f in fs[1:]], dflt=dflt, cv=[d.g.value(f["ty"], 2) for f in fs]))
    overlapping(d)
    bags(d)
    for _ in range(q(4, 12)):
        d.struct(skips=False, flat=True, overlap=True)
    roots += d.structs + d.enums + d.nts
    roots += [reg.vec(d.structs[0]), reg.bmap(reg.prim("str"), d.structs[1]), reg.opt(d.structs[2]), reg.vec(d.enums[0]), reg.hmap(d.enums[0], reg.prim("u8"))]
    roots = sorted(set(roots))
    greg = Reg()
    groots = generics(greg, Decl(greg, SEED + 90, ser=False))
    for name, rg, rs, n in (("decl", reg, roots, q(120, 600)), ("generic", greg, sorted(set(groots)), q(100, 500))):
        exe, env = prepare(ctx, rg, {"s": [], "b": ["de"]}, rs, name=name, derive_mode=only("Deserialize"))
        g = Gen(rg, SEED + 9)
        cases = number(de_cases(rg, rs, g, n))
        log("%d types, %d streams" % (len(rs), len(cases)))
        tr = run_cases(ctx, exe, cases, name)
        validate(ctx, "TraceDe", tr, env, what="stream into a declaration", cases=cases)
    wide_data(ctx, wide.runs("de", "struct", wide.SIZES) + wide.runs("parse", "struct", wide.SIZES))


def C10(ctx):
    reg = Reg()
    d = Decl(reg, SEED + 10, de=False)
    roots = case_matrix(d) + [node(reg)]
    for j in range(q(4, 12)):
        d.enum()
        d.newtype()
        for _ in range(q(8, 16)):
            d.struct()
        d.struct(flat=True)
    bags(d)
    # skipping of everything that can be absent, behind every wrapper
    P = reg.prim
    o = reg.opt(P("u8"))
    tys = [o, reg.box(o), reg.ref(o), reg.mutref(o), reg.nt(o), P("unit"), reg.box(P("unit")), reg.nt(P("unit")), reg.vec(o), P("str"), reg.vec(P("u8")), reg.opt(reg.vec(P("u8"))), reg.opt(o), reg.nt(reg.box(o)), reg.bmap(P("str"), o), reg.tup(o)]
    fs = [{"id": "f%d" % k, "ty": ty} for k, ty in enumerate(tys)]
    for so in (0, 1):
        d.structs.append(reg.st(fs, so=so))
        d.structs.append(reg.st([dict(fs[0], sk="none"), dict(fs[9], sk="empty"), dict(fs[8], sk="empty"), dict(fs[1], sk="never"), dict(fs[2], sk="always"), dict(fs[5], sk="never")], so=so))
    for k in range(len(fs)):
        d.structs.append(reg.st([fs[k]], so=1))
    roots += d.structs + d.enums + d.nts + generics(reg, d)
    roots += [reg.vec(d.structs[0]), reg.bmap(P("str"), d.structs[1]), reg.opt(d.structs[2]), reg.sl(d.enums[0]), reg.ref(d.structs[3]), reg.bmap(d.enums[0], P("u8"))]
    roots = sorted(set(roots))
    exe, env = prepare(ctx, reg, {"s": ["ser"], "b": ["ser"]}, roots, derive_mode=only("Serialize"))
    g = Gen(reg, SEED + 10)
    cases = number(value_cases(reg, roots, g, q(60, 300), "ser"))
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "ser")
    validate(ctx, "TraceSer", tr, env, what="serialization of a declaration", cases=cases)
    wide_data(ctx, [c for c in wide.runs("ser", "ser", wide.SIZES) if c["ct"] == "open" or c["ek"][-1] in "op"])


def C11(ctx):
    reg = Reg()
    d = Decl(reg, SEED + 11)
    for j in range(q(5, 12)):
        d.enum()
        for _ in range(4):
            d.struct(n=d.rng.randrange(0, 4), lossless=True, so=d.rng.random() < .2, dflt=0)
        for _ in range(q(6, 10)):
            d.struct(flat=True, lossless=True, n=d.rng.randrange(0, 4), overlap=False)
        for _ in range(3):
            d.struct(flat=True, n=d.rng.randrange(0, 4), overlap=d.rng.random() < .5)
    overlapping(d)
    bags(d)
    roots = [s for s in d.structs if any(f["flat"] for f in reg[s]["f"])]
    roots += [reg.vec(roots[0]), reg.opt(roots[1]), reg.bmap(reg.prim("str"), roots[2])]
    roots = sorted(set(roots))
    exe, env = prepare(ctx, reg, {"s": ["ser"], "b": ["ser", "de", "rt"]}, roots)
    g = Gen(reg, SEED + 11)
    for op, module, cases in (("ser", "TraceSer", value_cases(reg, roots, g, q(60, 300), "ser", cap=15000)),
                              ("de", "TraceDe", de_cases(reg, roots, g, q(120, 600))),
                              ("rt", "TraceRt", value_cases(reg, roots, g, q(60, 300), "rt", cap=15000))):
        number(cases)
        log("%d types, %d cases" % (len(roots), len(cases)))
        tr = run_cases(ctx, exe, cases, op)
        validate(ctx, module, tr, env, what="flattened " + op, cases=cases)
    S = wide.SIZES
    wide_data(ctx, [c for m in ("ser", "serpath", "de", "depathtyped", "replay", "text", "write", "debug") for c in wide.runs(m, "open", S)])


def C02(ctx):
    reg = Reg()
    ints = [k for k in PRIM if k in INTS]
    P = {k: reg.prim(k) for k in PRIM}
    nums = ints + ["f32", "f64"]
    single = [P[k] for k in PRIM]
    wrapped = [(w(P[k]), f) for k in nums for w, f in (
        (reg.opt, lambda e: [e]), (reg.vec, lambda e: [["S"], e, ["s"]]), (reg.box, lambda e: [e]),
        (lambda x: reg.arr(x, 1), lambda e: [["S"], e, ["s"]]), (lambda x: reg.tup(reg.prim("bool"), x), lambda e: [["S"], ["bool", 1], e, ["s"]]),
        (lambda x: reg.bmap(reg.prim("str"), x), lambda e: [["M"], vstr("k"), e, ["m"]]))]
    wrapped += [(w(P[k]), f) for k in ints for w, f in (
        (lambda x: reg.bmap(x, reg.prim("bool")), lambda e: [["M"], e, ["bool", 0], ["m"]]), (lambda x: reg.hmap(x, reg.prim("bool")), lambda e: [["M"], e, ["bool", 0], ["m"]]),
        (reg.bset, lambda e: [["S"], e, ["s"]]), (reg.hset, lambda e: [["S"], e, ["s"]]))]
    roots = sorted(set(single + [t for t, _ in wrapped]))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["de"]}, roots)
    g = Gen(reg, SEED + 2)
    rng = g.rng
    numbers = [ev_u(n) for n in BINTS if 0 <= n < 2**64] + [ev_i(n) for n in BINTS if -2**63 <= n < 2**63]
    floats = [vf(x) for x in FLOATS + NONFIN]
    # halfway and neighbouring cases of both float formats
    ties = [2**p + d for p in (24, 25, 26, 31, 53, 54, 55, 62, 63) for d in (-3, -2, -1, 0, 1, 2, 3)]
    ties += [(2**24 + a) * 2**s + d for a in (0, 1, 2, 3) for s in (1, 2, 20, 38) for d in (-1, 0, 1)] + [(2**24 + a) * 2**s + 2**(s - 1) + d for a in (0, 1, 2, 3) for s in (1, 5, 20, 38) for d in (-1, 0, 1)]
    ties += [(2**53 + a) * 2**s + 2**(s - 1) + d for a in (0, 1, 2, 3) for s in (1, 2, 9) for d in (-1, 0, 1)]
    other = [["null"], ["bool", 0], ["bool", 1], ["bytes", [1]], ["bytes", []]] + [["char", ord(c)] for c in CHARS] + [vstr(s) for s in STRS + CHARS + ["1", "-1", "ab", "\u00e4b", "e\u0301"]]
    cases = []
    def add(ty, ev): cases.append({"op": "de", "ty": ty, "ev": ev})
    # a character, and one with something that hardly shows
    odd = list(" \t\n\r\x00\x0b\x0c\x7f\u0085\u00a0\u00ad\u0300\u0301\u0308\u034f\u1680\u180e\u2000\u2003\u200b\u200c\u200d\u200e\u2028\u2029\u202f\u205f\u2060\u20dd\u3000\u3099\ufe0e\ufe0f\ufeff\ufffd\U0001f3fb\U000e0001\U000e0100")
    for c in CHARS + odd:
        for x in odd:
            add(P["char"], [vstr(c + x)])
            add(P["char"], [vstr(x + c)])
        add(P["char"], [vstr(c)])
        add(P["char"], [vstr(c + rng.choice(odd) + rng.choice(odd))])
    for ty in single:
        for e in numbers + floats + other:
            add(ty, [e])
    for k in ("f32", "f64"):
        for n in ties:
            if n < 2**64: add(P[k], [ev_u(n)])
            if n < 2**63: add(P[k], [ev_i(n)]); add(P[k], [ev_i(-n)])
        for _ in range(q(1500, 20000)):
            x = rng.random()
            add(P[k], [ev_u(g.uint()) if x < .3 else ev_i(g.sint()) if x < .6 else vf(g.fl())])
        # near the borders of f32
        import struct
        for _ in range(q(600, 6000)):
            b = rng.getrandbits(32)
            x = struct.unpack(">f", struct.pack(">I", b))[0]
            if x == x and abs(x) != float("inf"):
                bits = struct.unpack(">Q", struct.pack(">d", x))[0] + rng.choice((0, 1, -1, 2**28, 2**28 + 1, 2**28 - 1, 3 * 2**28)) * rng.choice((1, 1, -1))
                if 0 <= bits < 2**64:
                    add(P[k], [["f", 1, 0, [0], 0, "%016x" % bits]])
    for k in ints:
        for _ in range(q(150, 5000)):
            add(P[k], [ev_u(g.uint()) if rng.random() < .5 else ev_i(g.sint())])
    for ty, f in wrapped:
        for e in rng.sample(numbers, q(40, len(numbers))) + rng.sample(floats, q(3, len(floats))):
            add(ty, f(e))
    number(cases)
    log("%d types, %d streams" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "num")
    validate(ctx, "TraceDe", tr, env, what="number", cases=cases)


def probe_registry(seed, n):
    """built-in types and declarations full of probes"""
    reg = Reg()
    rng = random.Random(seed)
    roots = probed_types(reg, rng, n)
    # wrappers around probes, in the combinations finish has to get through
    P = reg.probe
    for x in (P(reg.prim("u8")), P(reg.vec(P(reg.prim("str")))), P(reg.bmap(P(reg.prim("str")), P(reg.prim("u8")))), P(reg.tup(P(reg.prim("bool"))))):
        o, b = reg.opt, reg.box
        roots += [x, o(x), b(x), o(b(x)), b(o(x)), o(o(x)), reg.ref(x), reg.mutref(x), reg.ref(o(x)), o(reg.ref(x)), b(reg.mutref(o(x))), reg.nt(x), reg.nt(o(b(x))), o(reg.nt(b(x))), P(o(P(x))), P(P(x)),
                  reg.vec(o(b(x))), reg.tup(o(x), b(x), reg.ref(x))]
    d = Decl(reg, seed + 1, de=False, probe=P)
    for _ in range(3):
        d.enum()
        d.newtype()
        d.newtype()
        for _ in range(5): d.struct()
        for _ in range(3): d.struct(flat=True, n=rng.randrange(0, 4))
    bags(d)
    roots += d.structs + d.nts + [P(x) for x in d.structs[-6:]] + [reg.opt(d.structs[-1]), P(reg.vec(P(d.structs[-2]))), reg.bmap(P(reg.prim("u64")), P(d.structs[-3])), P(node(reg, P))]
    return reg, sorted(set(roots)), rng


def C06(ctx):
    reg, roots, rng = probe_registry(SEED + 6, q(40, 110))
    exe, env = prepare(ctx, reg, {"s": ["ser"], "b": ["ser"]}, roots, derive_mode=only("Serialize"))
    g = Gen(reg, SEED + 6)
    cases = number(value_cases(reg, roots, g, q(10, 80), "ser"))
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "hooks")
    validate(ctx, "TraceSer", tr, env, what="serialization with hooks", cases=cases)
    # once more, with a fault in every single hook
    faults = []
    per_type = {}
    for c, line in zip(cases, open(tr)):
        t = json.loads(line)
        hooks = sum(1 for x in t["log"] if x[0] in ("B", "F"))
        if per_type.get(c["ty"], 0) >= q(2, 10) or hooks > 60:
            continue
        per_type[c["ty"]] = per_type.get(c["ty"], 0) + 1
        faults += [dict(c, fail=k) for k in range(hooks + 1)]
    number(faults)
    log("%d faults" % len(faults))
    tr = run_cases(ctx, exe, faults, "faults")
    validate(ctx, "TraceSer", tr, env, what="serialization with a failing hook", cases=faults)
    # scripted values and emitters of every shape, with a fault at every callback
    cases = pull_cases(ctx)
    for c in cases: c["more"] = c["id"] % 4
    scripted(ctx, cases, "TraceSerProtocol", "scripted")
    # the same below the JSON serializer and the debug formatter
    scripted(ctx, output_cases(cases, q(15000, 200000)), "TraceOutput", "output")
    S = wide.SIZES
    wide_data(ctx, wide.runs("ser", "hooks", S) + wide.runs("serpath", "hooks", S) + wide.abandoned("ser", "ser", S, random.Random(SEED + 6)))


def C13(ctx):
    reg, roots, rng = probe_registry(SEED + 13, q(40, 110))
    # keys of every kind
    P = reg.probe
    leaf = P(reg.prim("u8"))
    for k in KEYABLE:
        kt = reg.prim(k)
        roots += [reg.bmap(kt, P(reg.vec(leaf))), reg.hmap(P(kt), leaf), P(reg.bmap(reg.opt(kt), reg.bmap(kt, leaf)))]
    for kt in (reg.tup(reg.prim("u8"), reg.prim("str")), reg.vec(reg.prim("str")), reg.vec(reg.prim("u8")), reg.strref(), reg.cow(), reg.box(reg.prim("str")), reg.arr(reg.prim("u64"), 2), reg.nt(reg.prim("u32"))):
        roots += [reg.bmap(kt, P(reg.vec(leaf))), reg.vec(P(reg.bmap(P(kt), P(reg.bmap(reg.prim("str"), leaf)))))]
    roots = sorted(set(roots + curated(reg, ser=True)))
    exe, env = prepare(ctx, reg, {"s": ["ser"], "b": ["ser"]}, roots, derive_mode=only("Serialize"))
    g = Gen(reg, SEED + 13)
    cases = number(value_cases(reg, roots, g, q(30, 120), "ser", path=1))
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "path")
    validate(ctx, "TraceSer", tr, env, what="serialization with path", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("serpath", "path", S) + wide.arrays(["serpath"], S) + wide.atoms("text", ["keypath"], S))


def C14(ctx):
    exe = build(ctx, "proto")
    rng = random.Random(SEED + 14)
    g = Gen(Reg(), SEED + 14)
    def keyatom():
        return rng.choice((vstr(rng.choice(STRS)), ev_u(g.uint()), ev_i(g.sint()), ev_i(rng.randrange(5)), ["bool", 1], ["null"], ["char", 97], ["bytes", [1, 2]], vf(1.5), vstr("k%d" % rng.randrange(4))))
    def tree(d):
        x = rng.random()
        if d <= 0 or x < .25: return [g.atom()]
        n = rng.choice((0, 1, 1, 2, 3, 12)) if d < 3 else rng.choice((1, 2, 3))
        if x < .6: return [["S"]] + [e for _ in range(n) for e in tree(d - 1)] + [["s"]]
        out = []
        for _ in range(n):
            out += (tree(2) if rng.random() < .12 else [keyatom()]) + tree(d - 1)
        return [["M"]] + out + [["m"]]
    cases = []
    for k in range(q(8000, 80000)):
        ev = tree(rng.choice((1, 2, 3, 4, 5)))
        if len(ev) > 120: ev = ev[:120] if k % 100 > 1 else [g.atom()]
        if k % 100 == 0:
            # long sequences and many levels
            n = rng.choice((13, 40, 99, 100, 101, 255, 256, 257))
            ev = [["S"]] + [rng.choice((ev_u(j), ["null"], vstr("k"))) for j in range(n)] + ev + [["s"]]
        if k % 100 == 1:
            n = rng.choice((13, 20, 40, 63, 64, 65))
            lv = [rng.choice("SMT") for _ in range(n)]
            ev = [e for x in lv for e in ([["S"]] if x == "S" else [["M"], keyatom()] if x == "M" else [["S"], g.atom(), g.atom()])] + ev + [["m" if x == "M" else "s"] for x in reversed(lv)]
        if rng.random() < .15: ev = ev[:rng.randrange(len(ev) + 1)]
        cases.append({"op": "path", "ev": ev, "borrow": rng.randrange(2)})
    number(cases)
    tr = run_cases(ctx, exe, cases, "path")
    validate(ctx, "TracePathDe", tr, {}, what="path tracked stream", cases=cases)
    # tracking changes nothing else: same machine, same values and errors
    reg = Reg()
    roots = curated(reg)
    d = Decl(reg, SEED + 14, ser=False)
    for _ in range(2):
        d.enum()
        for _ in range(5): d.struct(skips=False)
        for _ in range(2): d.struct(skips=False, flat=True)
    bags(d)
    roots = sorted(set(roots + d.structs + d.nts))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["pathde"]}, roots, derive_mode=only("Deserialize"))
    g = Gen(reg, SEED + 14)
    cases = number(de_cases(reg, roots, g, q(40, 200), op="pathde"))
    log("%d types, %d streams" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "pathde")
    validate(ctx, "TraceDe", tr, dict(env, **SAID), what="path tracked typed stream", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("depath", "rec", S) + wide.runs("depathtyped", "de", S) + wide.arrays(["depathtyped"], S))


def C07(ctx):
    from jsongen import texts
    exe = build(ctx, "proto")
    cases = number([{"op": "parse", "b": list(t)} for t in texts(SEED + 7, THOROUGH)])
    log("%d texts" % len(cases))
    tr = run_cases(ctx, exe, cases, "parse")
    validate(ctx, "TraceJson", tr, {}, what="JSON text", cases=cases, chunk=120000)
    # into types, fitting or not, valid or not
    from jsongen import JGen, as_text
    reg, roots = json_registry(SEED + 70, ser=False)
    exe, env = prepare(ctx, reg, {"s": [], "b": ["jsonde"]}, roots, derive_mode=only("Deserialize"))
    g, j = Gen(reg, SEED + 7), JGen(SEED + 71)
    cases = de_cases(reg, roots, g, q(60, 400), mutated=.25, op="jsonde")
    for c in cases:
        t = as_text(j, c.pop("ev"))
        x = j.rng.random()
        if x < .12: t = j.mutate(t)
        elif x < .16: t = t[:j.rng.randrange(len(t) + 1)]
        elif x < .18: t = t + j.rng.choice((b"x", b"1", b",", b"]", b"}", b"null", b'"', b"\x00"))
        c["b"] = list(t)
    number(cases)
    log("%d types, %d texts" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "jsonde")
    validate(ctx, "TraceJsonDe", tr, env, what="typed JSON text", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("parserec", "rec", S) + wide.runs("parse", "json", S) + wide.numbers(S) + wide.atoms("text", ["parse", "parseu"], S)
              + [c for n in S for c in wide.runs("parse", "json", [n % 4], ws=[[[" ", "\n", "\t", "\r", "\r\n "][n % 5], n]])] + wide.broken("parse", "json", S, random.Random(SEED + 7)))


def json_registry(seed, ser=True):
    reg = Reg()
    rng = random.Random(seed)
    P = reg.prim
    roots = curated(reg, ser=ser)
    for m in (reg.bmap, reg.hmap):
        for k in (P("str"), P("char"), reg.opt(P("str")), reg.box(P("char")), reg.nt(P("str")), reg.nt(reg.box(P("str")))):
            for v in (P("str"), P("u64"), P("i64"), P("f64"), reg.opt(P("f32")), reg.vec(P("str")), m(P("str"), reg.vec(P("i32")))):
                roots.append(m(k, v))
    if ser:
        roots += [reg.bmap(reg.strref(), P("u8")), reg.hmap(reg.cow(), reg.vec(reg.strref())), reg.vec(reg.bmap(reg.ref(P("str")), P("bool")))]
    roots += [reg.vec(reg.vec(reg.vec(reg.opt(P("f64"))))), reg.tup(reg.bmap(P("str"), P("unit")), reg.vec(P("unit")), reg.opt(P("char")))]
    def jtype(d):
        if d <= 0 or rng.random() < .2: return P(rng.choice(("str", "u64", "i64", "f64", "f32", "bool", "unit", "char", "u8", "i16", "usize")))
        k = rng.choice(("opt", "vec", "vec", "map", "map", "tup", "arr", "box"))
        if k == "map": return rng.choice((reg.bmap, reg.hmap))(P(rng.choice(("str", "str", "char"))), jtype(d - 1))
        if k == "tup": return reg.tup(*[jtype(d - 1) for _ in range(rng.randrange(1, 4))])
        if k == "arr": return reg.arr(jtype(d - 1), rng.randrange(3))
        return getattr(reg, k)(jtype(d - 1))
    roots += [jtype(rng.choice((2, 3, 4))) for _ in range(q(60, 150))]
    d = Decl(reg, seed + 1)
    for _ in range(3):
        d.enum()
        d.newtype()
        for _ in range(6): d.struct(dflt=0)
        for _ in range(2): d.struct(flat=True, lossless=True, overlap=False)
    bags(d)
    roots += d.structs + d.enums + d.nts + [reg.vec(d.structs[0]), reg.bmap(d.enums[0], P("str")), reg.opt(d.structs[-1])]
    return reg, sorted(set(roots))


def C08(ctx):
    reg, roots = json_registry(SEED + 8)
    P = reg.prim
    extra = [P("str"), P("char"), reg.vec(P("str")), reg.bmap(P("str"), P("str")), P("f64"), P("f32"), P("u64"), P("i64")]
    roots = sorted(set(roots + extra))
    g = Gen(reg, SEED + 8)
    rng = g.rng
    cases = value_cases(reg, roots, g, q(16, 150), "json")
    def add(ty, v): cases.append({"op": "json", "ty": ty, "v": v})
    # code points: alone, between others, as key; all in long strings
    scalar = lambda c: not 0xd800 <= c < 0xe000
    some = [c for c in list(range(0x140)) + list(range(0x7f0, 0x810)) + list(range(0xffe0, 0x10020)) + [0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x1f600, 0x10ffff] if scalar(c)]
    for c in some:
        add(P("char"), ["char", c])
        add(P("str"), ["str", [c]])
        add(P("str"), ["str", [97, c, c, 98, c]])
        add(reg.bmap(P("str"), P("str")), ["map", [[["str", [c, 34]], ["str", [c]]]]])
    for a in range(0, 0x24):
        for b in list(range(0, 0x30, 3)) + [0x22, 0x5c, 0x7f, 0x80, 0xe9]:
            add(P("str"), ["str", [a, b]])
    allc = [c for c in (range(0x110000) if THOROUGH else list(range(0x3000)) + list(range(0xd000, 0x10800)) + list(range(0x10f000, 0x110000)) + list(range(0x3000, 0x110000, 97))) if scalar(c)]
    for k in range(0, len(allc), 200):
        add(P("str"), ["str", allc[k:k + 200]])
    # long strings with a single kind of character to escape, anywhere
    for n in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096):
        for c in (0x5c, 0x22, 0x0a, 0x01, 0x1f, 0x7f, 0x2f, 0xe9, 0x2028, 0x1f600):
            for at in {0, n // 2, n - 1}:
                t = [97] * n
                t[at] = c
                add(P("str"), ["str", t])
    near = [0x20, 0x21, 0x23, 0x2f, 0x30, 0x5b, 0x5d, 0x61, 0x7e, 0x7f, 0x80, 0xe9]
    for c in list(range(0x20)) + [0x22, 0x5c, 0x7f, 0x80, 0x800, 0x10000]:
        for at in range(q(33, 70)):
            add(P("str"), ["str", [97] * at + [c] + [rng.choice(near) for _ in range(rng.choice((0, 7, 8, 9, 16, 31)))]])
    # numbers
    for n in BINTS:
        if 0 <= n < 2**64: add(P("u64"), vint(n))
        if -2**63 <= n < 2**63: add(P("i64"), vint(n))
    for _ in range(q(1500, 20000)):
        add(P("u64"), vint(g.uint()))
        add(P("i64"), vint(g.sint()))
        add(P("f64"), vf(g.fl()))
        add(P("f32"), vf(g.fl(True)))
    for x in FLOATS + NONFIN:
        add(P("f64"), vf(x))
    import struct
    for e in range(0, 2047, q(9, 1)):
        for m in (0, 1, rng.getrandbits(52), 2**52 - 1):
            add(P("f64"), vf(struct.unpack(">d", struct.pack(">Q", rng.getrandbits(1) << 63 | e << 52 | m))[0]))
    for e in range(0, 255, q(4, 1)):
        for m in (0, 1, rng.getrandbits(23), 2**23 - 1):
            add(P("f32"), vf(struct.unpack(">f", struct.pack(">I", rng.getrandbits(1) << 31 | e << 23 | m))[0]))
    for k in range(-30, 40):
        add(P("f64"), vf(10.0 ** k))
        add(P("f64"), vf(123456789.0 * 10.0 ** k))
    number(cases)
    for features in ((), ("speedups",)):
        exe, env = prepare(ctx, reg, {"s": ["json"], "b": ["json"]}, roots, features=features, name="gen" + "-".join(features))
        log("%d types, %d values" % (len(roots), len(cases)))
        tr = run_cases(ctx, exe, cases, "json" + "-".join(features))
        validate(ctx, "TraceJsonRt", tr, env, what="JSON round trip" + (" with speedups" if features else ""), cases=cases)
    S = wide.SIZES
    for features in ((), ("speedups",)):
        wide_data(ctx, wide.runs("write", "write", S) + wide.runs("text", "json", S) + wide.arrays(["write", "text"], S) + wide.atoms("text", ["write", "keys"], S), features=features, name="wide" + "-".join(features))


ALL_WRAPS = ["own", "none", "opt", "box", "optbox", "nt", "boxnt", "bor", "path", "pathbor", "owned", "left"]


def drive_cases(ctx):
    """all histories of the driver with scripted sinks, and long ones"""
    cases = enumerate_cases(ctx, "MCDrive", {"N": q(5, 6), "Kinds": "<-KindsAll", "Wraps": ["own"], "Faults": range(0, 12),
                                             "Lazy": False, "Out": "1"}, "drive")
    cases += enumerate_cases(ctx, "MCDrive", {"N": q(5, 6), "Kinds": "<-KindsAll", "Wraps": ALL_WRAPS[1:], "Faults": range(0, q(6, 12)),
                                              "Lazy": False, "Out": "1"}, "drivewrap")
    cases += longer.drives(SEED + 3, q(2500, 40000), ALL_WRAPS)
    return number(cases)


ENTRY_WRAPS = ["none", "opt", "box", "nt", "bytes", "owned", "path"]
OUTPUT_WRAPS = ["none", "opt", "box", "bytes", "path", "debug"]


def entry_cases(cases, n):
    """histories that are a JSON text, for entry points that emit the events"""
    rng = random.Random(SEED + 31)
    def is_text(ev):
        st = []
        for k, e in enumerate(ev):
            if e in "ms":
                if not st or st[-1] is not (None if e == "s" else 0): return False
                st.pop()
                if not st: return k == len(ev) - 1
                continue
            if st and st[-1] is not None:
                if st[-1] == 0 and e != "a": return False
                st[-1] ^= 1
            if e in "MS": st.append(0 if e == "M" else None)
            elif not st: return len(ev) == 1
        return False
    out = {}
    for c in cases:
        if is_text(c["ev"]):
            c = {"op": "entry", "ev": c["ev"], "kinds": c["kinds"], "fail": c["fail"], "panic": c["panic"]}
            out[json.dumps(c)] = c
    out = [dict(c, wrap=w) for c in out.values() for w in ENTRY_WRAPS]
    return number(rng.sample(out, min(n, len(out))))


def output_cases(cases, n):
    """the same for values; the keys of their maps are atoms"""
    rng = random.Random(SEED + 32)
    def fits(sh):
        return all(fits(x) for x in sh[1:]) and (sh[0] != "M" or all(x == ["a"] for x in sh[1::2]))
    out = {}
    for c in cases:
        if fits(c["shape"]):
            c = {"op": "output", "shape": c["shape"], "kinds": c["kinds"], "fail": c["fail"], "panic": c["panic"]}
            out[json.dumps(c)] = c
    out = [dict(c, wrap=w) for c in out.values() for w in OUTPUT_WRAPS if w != "debug" or c["fail"] < 0]
    return number(rng.sample(out, min(n, len(out))))


def C03(ctx):
    model(ctx, "MCDrive", {"N": q(5, 6), "Kinds": "<-KindsAll", "Wraps": ["own"], "Faults": range(0, 12), "Lazy": True, "Out": ""})
    cases = drive_cases(ctx)
    exe = build(ctx, "proto")
    log("%d histories" % len(cases))
    tr = run_cases(ctx, exe, cases, "drive")
    validate(ctx, "TraceProtocol", tr, {}, what="history", cases=cases, chunk=120000)
    # the same sinks below the JSON deserializer
    cases = entry_cases(cases, q(12000, 200000))
    log("%d texts" % len(cases))
    tr = run_cases(ctx, exe, cases, "entry")
    validate(ctx, "TraceEntry", tr, {}, what="history of a text", cases=cases, chunk=120000)
    # the sinks of the library: depth and topmost descriptor of typed runs
    reg = Reg()
    roots = curated(reg)
    d = Decl(reg, SEED + 3, ser=False)
    for _ in range(2):
        d.enum()
        d.newtype()
        for _ in range(4): d.struct(skips=False)
        for _ in range(2): d.struct(skips=False, flat=True)
    bags(d)
    roots = sorted(set(roots + d.structs + d.enums + d.nts))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["de"]}, roots, derive_mode=only("Deserialize"))
    cases = number(de_cases(reg, roots, Gen(reg, SEED + 3), q(15, 150)))
    tr = run_cases(ctx, exe, cases, "de")
    validate(ctx, "TraceDe", tr, dict(env, VH_DESCRIPTORS="1"), what="typed history", cases=cases)
    wide_data(ctx, wide.runs("derec", "rec", wide.SIZES))


PULL_WRAPS = ["none", "path", "opt", "box"]


def pull_cases(ctx):
    """all histories of serializations of scripted values, and long ones"""
    cases = enumerate_cases(ctx, "MCPull", {"Depth": 2, "MaxSize": q(4, 5), "Kinds": "<-KindsFew", "Wraps": PULL_WRAPS, "Faults": range(0, q(20, 32)),
                                            "Lazy": False, "Out": "1"}, "pull")
    cases += longer.pulls(SEED + 6, q(2500, 40000), PULL_WRAPS)
    return number(cases)


def C04(ctx):
    import collect
    # the model alone: whatever is dropped whenever that is allowed, nothing needed is gone and everything can go
    model(ctx, "MCDrive", {"N": q(4, 5), "Kinds": "<-KindsMore", "Wraps": ["own"], "Faults": range(0, 8), "Lazy": True, "Out": ""})
    model(ctx, "MCPull", {"Depth": 2, "MaxSize": q(4, 5), "Kinds": "<-KindsAll", "Wraps": ["none"], "Faults": range(0, 12), "Lazy": True, "Out": ""})
    exe = build(ctx, "proto")
    drive, pull = drive_cases(ctx), pull_cases(ctx)
    # some callers go on after an error
    for c in drive + pull:
        if c["id"] % 3: c["more"] = c["id"] % 5
    for name, cases, module in (("drive", drive, "TraceOwn"), ("pull", pull, "TraceOwn"),
                                ("entry", entry_cases(drive, q(6000, 100000)), "TraceOwn"), ("output", output_cases(pull, q(6000, 100000)), "TraceOwn"),
                                ("collect", number(collect.cases(SEED + 4, True, THOROUGH)), "TraceCollect")):
        log("%d histories" % len(cases))
        tr = run_cases(ctx, exe, cases, name)
        validate(ctx, module, tr, {}, what=name + " history", cases=cases, chunk=120000)
    # many elements, complete, abandoned or broken
    S, rng = wide.SIZES, random.Random(SEED + 4)
    wide_data(ctx, wide.abandoned("ser", "ser", S, rng) + wide.abandoned("de", "de", S, rng) + wide.broken("de", "counted", S, rng) + wide.broken("parse", "counted", S, rng)
              + wide.runs("de", "counted", S) + wide.runs("replay", "counted", S) + wide.arrays(["de", "replay"], S))


SAID = {"VH_MESSAGES": "1", "VH_DESCRIPTORS": "1"}


def C18(ctx):
    import itertools
    from jsongen import JGen, as_text, texts
    # built-in types and declarations, mostly with streams that do not fit
    reg = Reg()
    rng = random.Random(SEED + 18)
    roots = curated(reg)
    roots += [random_type(reg, rng, rng.choice((2, 3, 4))) for _ in range(q(30, 100))]
    d = Decl(reg, SEED + 18, ser=False)
    roots += case_matrix(d) + [node(reg)]
    for _ in range(q(4, 10)):
        d.enum()
        d.newtype()
        for _ in range(6): d.struct(skips=False, dflt=rng.choice((0, 0, 0, 1)))
        for _ in range(2): d.struct(skips=False, flat=True, dflt=0)
    bags(d)
    roots = sorted(set(roots + d.structs + d.enums + d.nts + [reg.vec(d.structs[0]), reg.opt(d.enums[0]), reg.bmap(d.enums[0], d.structs[1])]))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["de", "jsonde"]}, roots, derive_mode=only("Deserialize"))
    env = dict(env, **SAID)
    g, j = Gen(reg, SEED + 18), JGen(SEED + 181)
    cases = de_cases(reg, roots, g, q(60, 400), mutated=.8)
    # every type with every kind of atom and container
    for i in roots:
        for e in (["null"], ["bool", 1], vstr("\u00e4\u00e4"), ["bytes", [1]], ["char", 97], ev_u(2**64 - 1), ev_i(-2**63), vf(1.5)):
            cases.append({"op": "de", "ty": i, "ev": [e]})
        for ev in ([["S"]], [["M"]], [["M"], ["m"]], [["S"], ["s"]], [["S"], ["M"]], [["S"], ["S"]], [["M"], ["M"]], [["M"], ["S"]], [["M"], ["null"]], [["M"], ev_u(0)]):
            cases.append({"op": "de", "ty": i, "ev": ev})
    number(cases)
    log("%d types, %d streams" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "de")
    validate(ctx, "TraceDe", tr, env, what="rejected stream", cases=cases)
    # the same through JSON
    cases = de_cases(reg, roots, g, q(25, 200), mutated=.7, op="jsonde")
    for c in cases:
        t = as_text(j, c.pop("ev"))
        x = j.rng.random()
        if x < .1: t = j.mutate(t)
        elif x < .2: t = t[:j.rng.randrange(len(t) + 1)]
        c["b"] = list(t)
    number(cases)
    tr = run_cases(ctx, exe, cases, "jsonde")
    validate(ctx, "TraceJsonDe", tr, env, what="rejected JSON text", cases=cases)
    # texts that are not JSON, in particular every truncation
    exe = build(ctx, "proto")
    ts = texts(SEED + 18, False)
    cases = [t for t in j.rng.sample(ts, q(20000, len(ts))) if len(t) < 200]
    for t in [j.text() for _ in range(q(300, 3000))]:
        if len(t) < 60: cases += [t[:k] for k in range(len(t))]
    cases = number([{"op": "parse", "b": list(t)} for t in dict.fromkeys(cases)])
    tr = run_cases(ctx, exe, cases, "parse")
    validate(ctx, "TraceJson", tr, SAID, what="rejected text", cases=cases, chunk=120000)
    # errors of sinks and values below JSON come back as they are
    faulty = lambda cs: [c for c in cs if c["fail"] >= 0]
    scripted(ctx, entry_cases(faulty(drive_cases(ctx)), q(8000, 100000)), "TraceEntry", "entry")
    scripted(ctx, output_cases(faulty(pull_cases(ctx)), q(8000, 100000)), "TraceOutput", "output")
    # errors as values
    cases = number([{"op": "err", "k": k, "msg": m, "own": o, "srcs": list(s)} for k in ("UnsupportedType", "Unexpected", "MissingField", "OutOfRange", "WrongLength", "EndOfFile")
                    for m in range(7) for o in (0, 1) for n in range(4) for s in itertools.product((0, 1, 2), repeat=n)])
    tr = run_cases(ctx, exe, cases, "err")
    validate(ctx, "TraceErr", tr, {}, what="error", cases=cases, chunk=0)
    # what JSON cannot express
    reg, roots = json_registry(SEED + 182)
    roots = [i for i in roots if reg.any(i, lambda r: r["k"] in ("bmap", "hmap", "vec", "arr", "sl"))]
    exe, env = prepare(ctx, reg, {"s": ["json"], "b": ["json"]}, roots, name="json")
    cases = number(value_cases(reg, roots, Gen(reg, SEED + 18), q(8, 60), "json"))
    tr = run_cases(ctx, exe, cases, "json")
    validate(ctx, "TraceJsonRt", tr, dict(env, **SAID), what="serialization to JSON", cases=cases)
    S, r = wide.SIZES, random.Random(SEED + 18)
    wide_data(ctx, wide.broken("de", "de", S, r) + wide.broken("depathtyped", "de", S, r) + wide.broken("parse", "json", S, r) + wide.arrays(["de", "parse"], S) + wide.atoms("bytes", ["dearr"], S))


def C16(ctx):
    exe = build(ctx, "proto")
    small = {"Drivers": [1, 2], "KindsX": ["ser", "de"], "TypesU": [1, 10], "Ops": ["get", "set"], "Wheres": ["caller", "cb0"], "Out": "1"}
    cases = enumerate_cases(ctx, "MCExt", dict(small, N=q(5, 6)), "ext")
    cases += enumerate_cases(ctx, "MCExt", dict(small, N=4, KindsX=["serp", "dep"], TypesU=[3, 4, 10], Ops=["get", "set", "nest"], Wheres=["caller", "cb1"]), "ext2")
    # many types, drivers and places
    rng = random.Random(SEED + 16)
    for _ in range(q(6000, 60000)):
        steps, live, n = [], [], 0
        types = rng.sample(range(1, rng.choice((12, 23, 87))), rng.choice((2, 3, 5, 11)))
        if len(cases) % 40 == 7:    # very many types
            types = rng.sample(range(1, 87), rng.choice((20, 40, 70)))
        for _ in range(rng.choice((8, 16, 40)) if len(types) < 20 else 150):
            x = rng.random()
            if not live or (x < .1 and len(live) < 5):
                n += 1
                live.append(n)
                steps.append(["open", n, rng.choice(("ser", "serp", "serf", "sera", "de", "dep", "def", "dea", "ded", "den"))])
            elif x < .15:
                d = rng.choice(live)
                live.remove(d)
                steps.append(["close", d])
            elif x < .19:
                steps.append(["fault", rng.choice(live), rng.choice("ep"), rng.randrange(3)])
            else:
                steps.append(["acc", rng.choice(live), [[rng.choice(("get", "two", "peek", "set", "set", "get", "set", "nest")), rng.choice(types)] for _ in range(rng.choice((1, 1, 2, 4)))],
                              rng.choice(("caller", "ret", "cb0", "cb1", "cb2"))])
        cases.append({"op": "ext", "steps": steps})
    number(cases)
    log("%d histories" % len(cases))
    tr = run_cases(ctx, exe, cases, "ext")
    validate(ctx, "TraceExt", tr, {}, what="history of accesses", cases=cases, chunk=120000)


def C15(ctx):
    exe = build(ctx, "proto")
    cases = []
    def add(mode, ty, pat, n, leaf, full, stop=-1, bad=0):
        cases.append({"op": "nest", "mode": mode, "type": ty, "pat": pat, "p": list(pat), "n": n, "leaf": leaf, "full": full, "stop": stop, "bad": bad})
    deep = [(m, "deep", p, 1) for m in ("ser", "serpath", "write", "de", "debor", "depath", "parse") for p in ("S", "M", "SM", "MMS", "SSSM")]
    deep += [(m, ty, p, l) for ty, p, l in (("list", "M", 1), ("tree", "MS", 0), ("maps", "MM", 0)) for m in ("ser", "serpath", "write", "de", "depath", "parse")]
    deep += [(m, "ignored", p, l) for m in ("de", "parse") for p in ("M", "S", "SM", "MS") for l in (0, 1) if m == "de" or p[0] == "M"]
    deep += [("defield", "ignored", p, l) for p in ("M", "MS", "MMS") for l in (0, 1)]
    for mode, ty, pat, leaf in deep:
        # trees need whole pairs of levels, and typed leafs are null
        fix = lambda n: n - n % 2
        sizes = [(fix(q(4000, 20000)), 1), (fix(q(100000, 1000000)), 0)]
        for n in (2, 4, 16):
            add(mode, ty, pat, n, leaf, 1)
        for n, full in sizes:
            add(mode, ty, pat, n, leaf, full)
            if mode == "write" or (mode == "parse" and ty == "ignored"): continue
            # abandoned on the way down, at the bottom and on the way up; failing at the bottom
            for f in (.3, .5, .6, .9):
                add(mode, ty, pat, n, leaf, full, stop=int(2 * n * f))
            if ty == "deep": add(mode, ty, pat, n, leaf, full, bad=1)
    number(cases)
    log("%d runs" % len(cases))
    tr = run_cases(ctx, exe, cases, "nest", timeout=q(200, 600))
    validate(ctx, "TraceNest", tr, {}, what="nested run", cases=cases, chunk=0)


def C17(ctx):
    reg = Reg()
    rng = random.Random(SEED + 17)
    roots = curated(reg, ser=True)
    roots += [random_type(reg, rng, rng.choice((2, 3, 4)), ser=True) for _ in range(q(30, 120))]
    d = Decl(reg, SEED + 17, de=False)
    for _ in range(3):
        d.enum()
        d.newtype()
        for _ in range(5): d.struct()
        d.struct(flat=True)
    bags(d)
    roots = sorted(set(roots + d.structs + d.enums + d.nts + [reg.vec(d.structs[0]), reg.bmap(d.enums[0], reg.opt(d.structs[1])), reg.hmap(reg.tup(reg.prim("u8"), reg.prim("bool")), reg.sl(d.structs[2]))]))
    exe, env = prepare(ctx, reg, {"s": ["debug"], "b": ["debug"]}, roots, derive_mode=only("Serialize"))
    g = Gen(reg, SEED + 17)
    cases = number([dict(c, fails=rng.choice((0, 0, 0, 400)), alts=[rng.randrange(18) for _ in range(rng.choice((0, 1, 2)))]) for c in value_cases(reg, roots, g, q(10, 100), "debug")])
    log("%d types, %d values" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "debug")
    validate(ctx, "TraceDebug", tr, env, what="debug text", cases=cases)
    # scripted values: any names, any atoms, any nesting
    names = [None, None, "Vec", "slice", "Foo", "VecDeque", "slices", "MyVec", "a b", "", "vec", "tuple", "BTreeMap", "\u00e4", "Slice", "{", "\""]
    r = g.rng
    def shape(d):
        if d <= 0 or r.random() < .3:
            x = r.random()
            if x < .3: return ["a", ["bytes", [r.choice((0, 9, 10, 13, 31, 32, 34, 39, 92, 126, 127, 128, 255, r.randrange(256))) for _ in range(r.randrange(6))]]]
            if x < .4: return ["a", ["char", ord(r.choice(CHARS + ["'", "\r", "\t"]))]]
            return ["a", vstr(g.string()) if x < .6 else vf(g.fl()) if x < .7 else g.atom()]
        k = r.choice("SMT")
        n = r.choice((0, 1, 1, 2, 3, 5))
        out = [k, r.choice(names)]
        for _ in range(n): out += [shape(d - 1)] + ([shape(r.choice((0, 0, d - 1)))] if k == "M" else [])
        return out
    cases = [{"op": "debugx", "shape": shape(r.choice((1, 2, 3, 4))), "fails": r.choice((0, 0, 400)), "alts": [r.randrange(18), r.randrange(18)]} for _ in range(q(1500, 20000))]
    for b in range(256):
        cases.append({"op": "debugx", "shape": ["a", ["bytes", [b, 97, b]]], "fails": 0})
    # every small nesting, every byte at which the writer fails
    def shapes(d):
        if d == 0: return [["a", ["u", [1]]]]
        s = shapes(d - 1)
        out = [["a", ["u", [1]]]] + [[k, n] for k in "SMT" for n in (None, "Vec", "N")]
        out += [[k, n, x] for k in "ST" for n in (None, "N") for x in s] + [[k, n, x, y] for k in "SM" for n in (None, "N") for x in s for y in s]
        return out
    two = shapes(2)
    for s in shapes(1) + (two if THOROUGH else r.sample(two, 250)):
        cases.append({"op": "debugx", "shape": s, "fails": 10000})
    number(cases)
    exe = build(ctx, "proto")
    log("%d scripted values" % len(cases))
    tr = run_cases(ctx, exe, cases, "debugx")
    validate(ctx, "TraceDebug", tr, env, what="debug text of a scripted value", cases=cases)
    S = wide.SIZES
    wide_data(ctx, wide.runs("debug", "debug", S) + wide.runs("pretty", "pretty", S) + wide.arrays(["debug"], S) + wide.atoms("text", ["debug"], S) + wide.atoms("bytes", ["debug"], S))


def C19(ctx):
    import compiled
    ds = []
    for fam, n, bad in (("attr", q(2, 3), 1), ("name", q(3, 4), 0), ("form", 0, 0), ("near", 0, 0)):
        ds += enumerate_cases(ctx, "MCDecl", {"Family": fam, "MaxItems": n, "MaxBad": bad, "Out": "y"}, "decl-" + fam)
    number(ds)
    res = compiled.verdicts(ctx, ds, compiled.decl)
    tr = ctx.path("decl.traces")
    cases = []
    with open(tr, "w") as f:
        for d, (r, m, src) in zip(ds, res):
            d.pop("op")
            f.write(json.dumps({"d": d, "res": r}) + "\n")
            cases.append({"source": src, "message": m})
    log("%d declarations, %d accepted" % (len(ds), sum(r[0] == "accept" for r in res)))
    validate(ctx, "TraceDecl", tr, {}, what="declaration", cases=cases)


def C20(ctx):
    import compiled
    ps = []
    for part, n in (("facts", 1), ("json", 4), ("ser", q(4, 5)), ("de", 4)):
        ps += enumerate_cases(ctx, "MCBorrow", {"Part": part, "N": n, "Lates": "<-LateAll" if part != "facts" else "<-LateNo", "Out": "y"}, "prg-" + part)
    number(ps)
    res = compiled.verdicts(ctx, ps, compiled.program, head=compiled.PRG_HEAD, name="programs")
    tr = ctx.path("prg.traces")
    cases = []
    with open(tr, "w") as f:
        for d, (r, m, src) in zip(ps, res):
            f.write(json.dumps({"safe": d["safe"], "res": r}) + "\n")
            cases.append({"source": src, "message": m})
    log("%d programs, %d safe" % (len(ps), sum(d["safe"] == "accept" for d in ps)))
    validate(ctx, "TraceBorrow", tr, {}, what="program", cases=cases)


def C21(ctx):
    """every way in: conversions, sinks, handles, entry points"""
    reg = Reg()
    rng = random.Random(SEED + 21)
    roots = curated(reg) + [random_type(reg, rng, rng.choice((2, 3, 4))) for _ in range(q(20, 80))]
    d = Decl(reg, SEED + 21)
    for _ in range(q(3, 8)):
        d.enum()
        d.newtype()
        for _ in range(3): d.struct(lossless=True, dflt=rng.choice((0, 0, 1)))
        for _ in range(2): d.struct(flat=True, lossless=True, n=rng.randrange(0, 4))
    bags(d)
    roots = sorted(set(roots + d.structs + d.enums + d.nts))
    exe, env = prepare(ctx, reg, {"s": [], "b": ["ser", "de", "json"]}, roots)
    g = Gen(reg, SEED + 21)
    # values
    cases = de_cases(reg, roots, g, q(44, 300))
    for c in cases:
        c["way"], c["conv"] = rng.randrange(11), rng.randrange(8)
    number(cases)
    log("%d types, %d streams" % (len(roots), len(cases)))
    tr = run_cases(ctx, exe, cases, "de")
    validate(ctx, "TraceDe", tr, dict(env, **SAID), what="stream", cases=cases)
    cases = value_cases(reg, roots, g, q(24, 150), "ser", cap=15000)
    for c in cases: c["way"] = rng.randrange(9)
    number(cases)
    tr = run_cases(ctx, exe, cases, "ser")
    validate(ctx, "TraceSer", tr, env, what="serialization", cases=cases)
    cases = value_cases(reg, roots, g, q(8, 60), "json", cap=4000)
    for c in cases: c["way"] = rng.randrange(3)
    number(cases)
    tr = run_cases(ctx, exe, cases, "json")
    validate(ctx, "TraceJsonRt", tr, env, what="JSON", cases=cases)
    # texts
    from jsongen import texts
    exe = build(ctx, "proto")
    ts = texts(SEED + 21, False)
    cases = [t for t in rng.sample(ts, q(12000, len(ts))) if len(t) < 200]
    odd = [b"", b" ", b"\n", b"\t", b"\x0b", b"\x0c", b"\x1f", b"\x00"] + [c.encode() for c in "\u0085\u00a0\u1680\u2003\u2028\u2029\u202f\u205f\u3000\ufeff\u200b"]
    cases += [a + t + b for a in odd for b in odd for t in (b"1", b"[]", b'"x"', b"null", b"")]
    cases = number([{"op": "parse", "b": list(t)} for t in dict.fromkeys(cases)])
    tr = run_cases(ctx, exe, cases, "parse")
    validate(ctx, "TraceJson", tr, {}, what="text", cases=cases, chunk=120000)
    # conversions
    atoms = [["null"], ["bool", 0], ["bool", 1]] + [["char", c] for c in (0, 9, 0x7f, 0x80, 0xe9, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff)]
    atoms += [ev_u(n) for n in BINTS if 0 <= n < 2**64] + [ev_i(n) for n in BINTS if -2**63 <= n < 2**63] + [vf(x) for x in FLOATS + NONFIN]
    atoms += [vstr(s) for s in STRS + CHARS] + [["bytes", b] for b in ([], [0], [255], [128, 0, 255], list(range(256)), [0xc3, 0x28], list(b"text"))]
    atoms += [a for _ in range(q(2000, 30000)) for a in (ev_u(g.uint()), ev_i(g.sint()), vf(g.fl()), vstr(g.string()))]
    cases = number([{"op": "conv", "v": a} for a in atoms])
    tr = run_cases(ctx, exe, cases, "conv")
    validate(ctx, "TraceConv", tr, {}, what="conversion", cases=cases)
