"""Type registry: one description of a set of Rust types, used to generate the
Rust harness, as constant input of the TLA+ specifications, and to generate
inputs.  (Inputs only: no expected result is computed in Python.)"""
import json, random

PRIM = ["unit", "bool", "str", "char", "u8", "u16", "u32", "u64", "usize",
        "i8", "i16", "i32", "i64", "isize", "f32", "f64"]
RS = {"unit": "()", "str": "String"}
INTS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1),
        "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1),
        "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "isize": (-2**63, 2**63 - 1)}


RAW = {"type", "fn", "match", "async", "struct", "loop", "where"}


def rid(s):
    """an identifier in Rust"""
    return "r#" + s if s in RAW else s


def cps(s):
    return [ord(c) for c in s]


def digs(n):
    return [int(c) for c in str(abs(n))]


def vint(n):
    return ["int", int(n < 0), digs(n)]


def vstr(s):
    return ["str", cps(s)]


def fbits(x):
    import struct
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def vf(x):
    """canonical float (the harness normalises it, only bits matter as input)"""
    if x != x:
        return ["f", 3, 0, [0], 0, "nan"]
    return ["f", 1, 0, [0], 0, fbits(x)]


def ev_u(n):
    return ["u", digs(n)]


def ev_i(n):
    return ["i", int(n < 0), digs(n)]


def lists(items, key):
    """attributes in one list, in one each, or in two"""
    k = sum(map(ord, key)) % 5
    if not items: return ""
    if k in (0, 1) or len(items) == 1: groups = [items]
    elif k == 2: groups = [[x] for x in items]
    elif k == 3: groups = [items[:2], items[2:]]
    else: groups = [items[:1], items[1:]]
    return " ".join("#[deser(%s)]" % ", ".join(g) for g in groups if g)


class Reg:
    def __init__(self):
        self.t = []      # records, index i is type i + 1
        self.memo = {}
        self.items = []  # extra rust items
        self.n = 0

    def __getitem__(self, i):
        return self.t[i - 1]

    def __len__(self):
        return len(self.t)

    def add(self, rec, key=None):
        if key is not None and key in self.memo:
            return self.memo[key]
        self.t.append(rec)
        i = len(self.t)
        if key is not None:
            self.memo[key] = i
        return i

    # -- constructors ------------------------------------------------
    def prim(self, k):
        assert k in PRIM, k
        return self.add({"k": k, "rs": RS.get(k, k)}, k)

    def un(self, k, a, rs):
        return self.add({"k": k, "a": [a], "rs": rs}, (k, a))

    def opt(self, a): return self.un("opt", a, "Option<%s>" % self[a]["rs"])
    def box(self, a): return self.un("box", a, "Box<%s>" % self[a]["rs"])
    def vec(self, a): return self.un("vec", a, "Vec<%s>" % self[a]["rs"])
    def bset(self, a): return self.un("bset", a, "::std::collections::BTreeSet<%s>" % self[a]["rs"])
    def hset(self, a): return self.un("hset", a, "::std::collections::HashSet<%s>" % self[a]["rs"])
    def ref(self, a): return self.un("ref", a, "&'static %s" % self[a]["rs"])
    def mutref(self, a): return self.un("mutref", a, "&'static mut %s" % self[a]["rs"])
    def sl(self, a): return self.un("sl", a, "&'static [%s]" % self[a]["rs"])
    def probe(self, a): return self.un("probe", a, "::vh::probe::Probe<%s>" % self[a]["rs"])

    def strref(self): return self.add({"k": "strref", "rs": "&'static str"}, "strref")
    def cow(self): return self.add({"k": "cow", "rs": "::std::borrow::Cow<'static, str>"}, "cow")

    def arr(self, a, n):
        return self.add({"k": "arr", "a": [a], "n": n, "rs": "[%s; %d]" % (self[a]["rs"], n)}, ("arr", a, n))

    def bmap(self, a, b):
        return self.add({"k": "bmap", "a": [a, b], "rs": "::std::collections::BTreeMap<%s, %s>" % (self[a]["rs"], self[b]["rs"])}, ("bmap", a, b))

    def hmap(self, a, b):
        return self.add({"k": "hmap", "a": [a, b], "rs": "::std::collections::HashMap<%s, %s>" % (self[a]["rs"], self[b]["rs"])}, ("hmap", a, b))

    # the same with a hasher of the user, for which keys collide
    def hmapw(self, a, b):
        return self.add({"k": "hmap", "a": [a, b], "rs": "::std::collections::HashMap<%s, %s, ::vh::canon::Weak>" % (self[a]["rs"], self[b]["rs"])}, ("hmapw", a, b))

    def hsetw(self, a):
        return self.add({"k": "hset", "a": [a], "deonly": 1, "rs": "::std::collections::HashSet<%s, ::vh::canon::Weak>" % self[a]["rs"]}, ("hsetw", a))

    def bag(self, b, x=False):
        """a hand-written type with any keys, or only those with a prefix"""
        return self.add({"k": "bag", "a": [self.prim("str"), b], "pre": cps("x-" if x else ""), "noord": 1,
                         "rs": "::vh::bag::Bag<%s, %s>" % (self[b]["rs"], "true" if x else "false")}, ("bag", b, x))

    def tup(self, *a):
        return self.add({"k": "tup", "a": list(a), "rs": "(%s,)" % ", ".join(self[x]["rs"] for x in a)}, ("tup",) + a)

    # -- declarations --------------------------------------------------
    def nt(self, a, rename=None):
        self.n += 1
        name = "N%d" % self.n
        i = self.add({"k": "nt", "a": [a], "rs": name, "hint": rename or name})
        attr = '#[deser(rename = %s)]\n' % rstr(rename) if rename else ""
        self.items.append((i, "%%D%%\n%spub struct %s(pub %s);\n" % (attr, name, self[a]["rs"])))
        return i

    def en(self, variants, ra="", hint=None):
        """variants: [(ident, rename|None, [alias])]"""
        self.n += 1
        name = "E%d" % self.n
        rec = {"k": "en", "rs": name, "hint": hint or name, "ra": ra,
               "v": [{"id": cps(i), "hasrn": int(r is not None), "rn": cps(r or ""), "al": [cps(x) for x in al]}
                     for i, r, al in variants]}
        i = self.add(rec)
        c = []
        if ra: c.append("rename_all = %s" % rstr(ra))
        if hint: c.append("rename = %s" % rstr(hint))
        s = "%D%\n" + lists(c, name) + "\npub enum %s {\n" % name
        for ident, r, al in variants:
            f = []
            if r is not None: f.append("rename = %s" % rstr(r))
            f += ["alias = %s" % rstr(x) for x in al]
            s += "    %s %s,\n" % (lists(f, ident), rid(ident))
        s += "}\n"
        s += "impl Canon for %s {\n fn canon(&self) -> J { tag(\"en\", vec![J::Int(match *self { %s })]) }\n" % (
            name, ", ".join("%s::%s => %d" % (name, rid(v[0]), j + 1) for j, v in enumerate(variants)))
        s += " fn from_canon(v: &J) -> Self { match v.arr()[1].int() { %s, _ => panic!(\"case format: variant\") } }\n}\n" % (
            ", ".join("%d => %s::%s" % (j + 1, name, rid(v[0])) for j, v in enumerate(variants)))
        s += "impl Default for %s { fn default() -> Self { %s::%s } }\n" % (name, name, rid(variants[0][0]))
        self.items.append((i, s))
        return i

    def declare(self):
        """forward declaration of a struct (for recursive types)"""
        self.n += 1
        name = "S%d" % self.n
        return self.add({"k": "st", "rs": name, "hint": name, "ra": "", "dflt": 0, "so": 0, "f": []})

    def st(self, fields, ra="", dflt=0, so=0, hint=None, cv=None, at=None, generic=None):
        """fields: dicts with id, ty and optional rn, al, flat, df (0/1/2), dv, sk.
        dflt: 0 none, 1 Default, 2 function; cv: values of the default.
        generic: maps type index -> parameter name (declared generic over them)"""
        i = at or self.declare()
        rec = self[i]
        name = rec["rs"]
        fs = []
        for j, f in enumerate(fields):
            ty = f["ty"]
            fs.append({"id": cps(f["id"]), "hasrn": int("rn" in f), "rn": cps(f.get("rn", "")),
                       "al": [cps(x) for x in f.get("al", [])], "ty": ty, "flat": int(f.get("flat", 0)),
                       "df": f.get("df", 0), "dv": f.get("dv") if f.get("df") == 2 else ["null"],
                       "sk": f.get("sk", "")})
        # lg: the default of the type says when it is called
        rec.update({"hint": hint or name, "ra": ra, "dflt": dflt, "so": int(so), "f": fs, "lg": int(not generic)})
        rec["cv"] = cv if cv is not None else [self.default_value(f["ty"]) for f in fields]
        c = []
        if ra: c.append("rename_all = %s" % rstr(ra))
        if hint: c.append("rename = %s" % rstr(hint))
        if dflt == 1: c.append("default")
        if dflt == 2: c.append('default = "dflt_%s"' % name)
        if so: c.append("skip_serializing_optionals")
        s = "%D%\n" + lists(c, name) + "\n"
        gen = generic or {}
        if gen:
            gname = "G" + name
            rec["hint"] = hint or gname
            s += "pub struct %s<%s> {\n" % (gname, ", ".join(sorted(set(gen.values()))))
        else:
            gname = name
            s += "pub struct %s {\n" % name
        for f in fields:
            a = []
            if "rn" in f: a.append("rename = %s" % rstr(f["rn"]))
            a += ["alias = %s" % rstr(x) for x in f.get("al", [])]
            if f.get("flat"): a.append("flatten")
            if f.get("df") == 1: a.append("default")
            if f.get("df") == 2: a.append('default = "dflt_%s_%s"' % (name, f["id"]))
            if f.get("sk"):
                p = {"none": "Option::is_none", "empty": "VEmpty::v_empty"}.get(f["sk"], "sk_" + f["sk"])
                a.append("skip_serializing_if = %s" % rstr(p))
            s += "    %s pub %s: %s,\n" % (lists(a, f["id"]), rid(f["id"]), self.rs_generic(f["ty"], gen))
        s += "}\n"
        if gen:
            inv = {v: k for k, v in gen.items()}
            s += "pub type %s = %s<%s>;\n" % (name, gname, ", ".join(self[inv[p]]["rs"] for p in sorted(inv)))
        s += "impl Canon for %s {\n fn canon(&self) -> J { tag(\"st\", vec![J::Arr(vec![%s])]) }\n" % (
            name, ", ".join("self.%s.canon()" % rid(f["id"]) for f in fields))
        s += " fn from_canon(v: &J) -> Self { let f = v.arr()[1].arr(); let _ = f; %s { %s } }\n}\n" % (
            gname, ", ".join("%s: Canon::from_canon(&f[%d])" % (rid(f["id"]), j) for j, f in enumerate(fields)))
        if dflt in (0, 1):
            lit = rstr(json.dumps(["st", rec["cv"]]))
            if gen:
                # a container default on a generic struct needs Default of its parameters
                if dflt == 1:
                    ps = sorted(set(gen.values()))
                    s += "impl<%s> Default for %s<%s> { fn default() -> Self { %s { %s } } }\n" % (
                        ", ".join(p + ": Default" for p in ps), gname, ", ".join(ps), gname,
                        ", ".join("%s: Default::default()" % rid(f["id"]) for f in fields))
            else:
                s += "impl Default for %s { fn default() -> Self { ::vh::ops::called(%d, 0); Canon::from_canon(&J::parse(%s)) } }\n" % (name, i, lit)
        if dflt == 2:
            lit = rstr(json.dumps(["st", rec["cv"]]))
            s += "pub fn dflt_%s() -> %s { ::vh::ops::called(%d, 0); Canon::from_canon(&J::parse(%s)) }\n" % (name, name, i, lit)
            s += "impl Default for %s { fn default() -> Self { ::vh::ops::called(%d, 0); Canon::from_canon(&J::parse(%s)) } }\n" % (name, i, lit)
        for j, f in enumerate(fields):
            if f.get("df") == 2:
                s += "pub fn dflt_%s_%s() -> %s { ::vh::ops::called(%d, %d); Canon::from_canon(&J::parse(%s)) }\n" % (
                    name, f["id"], self[f["ty"]]["rs"], i, j + 1, rstr(json.dumps(f["dv"])))
        self.items.append((i, s))
        return i

    def rs_generic(self, ty, gen):
        if ty in gen:
            return gen[ty]
        r = self[ty]
        k = r["k"]
        g = lambda x: self.rs_generic(x, gen)
        if not gen or "a" not in r or k == "nt":
            return r["rs"]
        a = r["a"]
        return {"opt": lambda: "Option<%s>" % g(a[0]), "box": lambda: "Box<%s>" % g(a[0]),
                "vec": lambda: "Vec<%s>" % g(a[0]),
                "arr": lambda: "[%s; %d]" % (g(a[0]), r["n"]),
                "bmap": lambda: "::std::collections::BTreeMap<%s, %s>" % (g(a[0]), g(a[1])),
                "hmap": lambda: "::std::collections::HashMap<%s, %s>" % (g(a[0]), g(a[1])),
                "tup": lambda: "(%s,)" % ", ".join(g(x) for x in a)}.get(k, lambda: r["rs"])()

    def nt_generic(self, inner, params):
        """newtype over a generic content; params maps type -> name"""
        self.n += 1
        name = "N%d" % self.n
        i = self.add({"k": "nt", "a": [inner], "rs": name, "hint": name})
        ps = sorted(set(params.values()))
        inv = {v: k for k, v in params.items()}
        s = "%%D%%\npub struct GN%s<%s>(pub %s);\n" % (name, ", ".join(ps), self.rs_generic(inner, params))
        s += "pub type %s = GN%s<%s>;\n" % (name, name, ", ".join(self[inv[p]]["rs"] for p in ps))
        self.items.append((i, s + "%%NT%% GN%s\n" % name))
        return i

    # -- facts about types ---------------------------------------------
    def kids(self, i):
        r = self[i]
        if r["k"] == "st":
            return [f["ty"] for f in r["f"]]
        return r.get("a", [])

    def any(self, i, pred, seen=None):
        seen = seen if seen is not None else set()
        if i in seen:
            return False
        seen.add(i)
        return pred(self[i]) or any(self.any(x, pred, seen) for x in self.kids(i))

    def dir(self, i):
        if self.any(i, lambda r: r["k"] in ("ref", "mutref", "sl", "strref", "cow", "probe")):
            return "s"
        if self.any(i, lambda r: r.get("deonly")):
            return "d"
        return "b"

    def ordable(self, i):
        return not self.any(i, lambda r: r["k"] in ("f32", "f64", "hmap", "hset", "bmap", "bset") or r.get("noord"))

    def default_value(self, i):
        r = self[i]
        k = r["k"]
        if k in INTS: return vint(0)
        if k in ("f32", "f64"): return vf(0.0)
        if k == "unit": return ["null"]
        if k == "bool": return ["bool", 0]
        if k in ("str", "strref", "cow"): return ["str", []]
        if k == "char": return ["char", 0]
        if k == "opt": return ["none"]
        if k in ("vec", "sl"): return ["seq", []]
        if k in ("bset", "hset"): return ["set", []]
        if k in ("bmap", "hmap", "bag"): return ["map", []]
        if k in ("box", "nt", "ref", "mutref", "probe"): return self.default_value(r["a"][0])
        if k == "arr": return ["seq", [self.default_value(r["a"][0])] * r["n"]]
        if k == "tup": return ["seq", [self.default_value(x) for x in r["a"]]]
        if k == "st": return ["st", r["cv"]]
        if k == "en": return ["en", 1]
        raise Exception(k)

    # -- output ----------------------------------------------------------
    def json(self):
        out = []
        for r in self.t:
            r = dict(r)
            r.pop("rs")
            r.pop("noord", None)
            r.pop("deonly", None)
            r.setdefault("a", [])
            out.append(r)
        return json.dumps(out)

    def rust(self, ops, roots=None, derive_mode=None):
        """ops: per direction list of operations to instantiate"""
        o = ["use vh::canon::{tag, Canon}; use vh::json::J; use deser::{Serialize, Deserialize};\n",
             "pub trait VEmpty { fn v_empty(&self) -> bool; }\n",
             "impl<T> VEmpty for Vec<T> { fn v_empty(&self) -> bool { self.is_empty() } }\n",
             "impl VEmpty for String { fn v_empty(&self) -> bool { self.is_empty() } }\n",
             "impl<K, V> VEmpty for ::std::collections::BTreeMap<K, V> { fn v_empty(&self) -> bool { self.is_empty() } }\n",
             "pub fn sk_zero(v: &u32) -> bool { *v == 0 }\npub fn sk_always<T>(_: &T) -> bool { true }\npub fn sk_never<T>(_: &T) -> bool { false }\n"]
        for i, s in self.items:
            d = ["Serialize"] if self.dir(i) == "s" else ["Serialize", "Deserialize"]
            if self.ordable(i) and self.any(i, lambda r: False) is False:
                d += ["PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
            if derive_mode:
                d = derive_mode(self, i, d)
            r = self[i]
            s = s.replace("%D%", "#[derive(%s)]" % ", ".join(d))
            if r["k"] == "nt":
                ctor = r["rs"]
                if "%NT%" in s:
                    s, ctor = s.split("%NT%")
                    ctor = ctor.strip()
                s += "impl Canon for %s { fn canon(&self) -> J { self.0.canon() } fn from_canon(v: &J) -> Self { %s(Canon::from_canon(v)) } }\n" % (r["rs"], ctor)
                s += "impl Default for %s { fn default() -> Self { Canon::from_canon(&J::parse(%s)) } }\n" % (
                    r["rs"], rstr(json.dumps(self.default_value(i))))
            o.append(s)
        roots = roots if roots is not None else range(1, len(self.t) + 1)
        o.append("pub fn dispatch(op: &str, ty: i64, case: &J) -> J {\n    match ty {\n")
        for i in roots:
            avail = ops.get(self.dir(i), ())
            if not avail:
                continue
            arms = " ".join('"%s" => vh::ops::op_%s::<%s>(case),' % (
                op, "json_ser" if op == "json" and self.dir(i) == "s" else op, self[i]["rs"]) for op in avail)
            o.append('        %d => match op { %s _ => panic!("case format: op") },\n' % (i, arms))
        o.append('        _ => panic!("case format: type"),\n    }\n}\n')
        return "".join(o)


def rstr(s):
    return json.dumps(s, ensure_ascii=False)
