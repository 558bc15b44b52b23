"""Declarations and programs as Rust source, and what the compiler says about
each of them.  (No verdict is judged here, see TraceDecl and TraceBorrow.)"""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

HEAD = """#![allow(warnings)]
pub fn mk<T: Default>() -> T { Default::default() }
pub fn sk<T>(_: &T) -> bool { false }
pub mod shadow {
    pub struct String; pub struct Box; pub struct Vec; pub struct Option; pub struct Result; pub struct Some; pub struct None; pub struct Ok; pub struct Err;
    pub struct Cow; pub struct Error; pub struct Sink; pub struct SinkHandle; pub struct Event; pub struct Atom; pub struct Chunk;
    pub trait Default {} pub trait Clone {} pub trait Into {} pub trait From {} pub trait ToString {} pub trait Iterator {} pub trait Drop {} pub trait ToOwned {} pub trait Descriptor {}
    pub mod deser {} pub mod std {} pub mod core {}
}
"""


def chars(c):
    return "".join(map(chr, c))


RAW = {"field": ["r#type", "r#fn", "r#match"], "unit": ["r#Type", "r#Fn", "r#Match"]}
LIKE = {"field": ["slot", "key", "__state"], "unit": ["Some", "None", "Ok"]}
O = "::std::option::Option"


def attrs(items, style):
    own = [x["t"] for x in items if x["t"].startswith("#")]
    inl = [x["t"] for x in items if not x["t"].startswith("#")]
    if own:
        return " ".join(x["t"] if x["t"].startswith("#") else "#[deser(%s)]" % x["t"] for x in items)
    k = style % 4
    groups = [inl] if k == 0 else [[x] for x in inl] if k == 1 else [inl[:2], inl[2:]] if k == 2 else [inl[:1], inl[1:]]
    return " ".join("#[deser(%s)]" % ", ".join(g) for g in groups if g)


def decl(d, n):
    """the module of one declaration (on one line)"""
    kind, sc, gen = d["kind"], d["scope"], d["gen"]
    name = {"raw": "r#Type" if n % 2 else "r#struct", "names": ["Some", "Option", "__Sink", "Result", "Sink", "Box", "String"][n % 7]}.get(sc, "Decl%d" % n)
    if name == "__Sink":
        name = "Sink"
    vis = "" if sc in ("private", "function") else "pub "
    g, w, ty = "", "", O + "<u8>"
    if gen == "T": g, ty = "<T>", "T"
    if gen == "lt": g, ty = "<'x>", "&'x str"
    if gen == "const": g, ty = "<const N: usize>", "[u8; N]"
    if gen == "where": g, w, ty = "<T>", " where T: ::std::clone::Clone", "T"
    if gen == "bound": g, ty = "<T: ::std::clone::Clone + 'static>", "T"
    if gen == "dflt": g, ty = "<T = u8>", "T"
    if gen == "two": g, ty = "<T, U>", "(U, T)"
    if gen == "mixed": g, w, ty = "<const N: usize, T: ::std::clone::Clone, U = u8>", " where U: ::std::fmt::Debug", "([U; N], T)"
    if gen == "later": g, w, ty = "<T, U>", " where U: ::std::marker::Copy, T: ::std::convert::From<U>", "(U, T)"
    if gen == "lttwo": g, ty = "<'x, 'y, T: 'x, U>", "(&'x T, &'y str, U)"
    fixed = ["%s", O + "<%s>", "::std::boxed::Box<%s>"]

    def fty(k):
        if sc == "generated" and k == 0:
            return "$t"
        return fixed[k % 3] % ty

    def ident(k, p, what):
        if sc == "raw": return RAW[what][k]
        if sc == "names": return LIKE[what][k]
        return chars(p["id"])
    ps = d["parts"]
    pre = '/** documented */ #[allow(dead_code)] #[cfg(all())] ' if sc == "attrs" else ""
    pre_kind = {"struct": "#[repr(C)] ", "enum": "#[repr(u8)] #[derive(Clone, Copy)] "}.get(kind, "") if sc == "attrs" and ps else ""
    at = [attrs(p["a"], n) + " " for p in ps]
    fv = "" if sc == "private" else "pub "
    if kind == "struct":
        fs = ["%s%s%s%s: %s" % (pre, at[k], fv, ident(k, p, "field"), fty(k)) for k, p in enumerate(ps)]
        if sc == "attrs": fs.append("#[cfg(any())] nothing: u128")
        body = "struct %s%s%s { %s }" % (name, g, w, ", ".join(fs))
    elif kind in ("newtype", "tuple", "tuple0"):
        body = "struct %s%s(%s)%s;" % (name, g, ", ".join("%s%s%s%s" % (pre, at[k], fv, fty(k)) for k, p in enumerate(ps)), w)
    elif kind == "unit":
        body = "struct %s;" % name
    elif kind == "union":
        body = "union %s { %s%s: u8 }" % (name, fv, ident(0, ps[0], "field"))
    else:
        vs = []
        for k, p in enumerate(ps):
            sh = {"unit": " = %d" % (7 * k + 1) if sc == "attrs" and all(x["shape"] == "unit" for x in ps) else "", "tuple": "(u8)", "named": " { x: u8 }"}[p["shape"]]
            vs.append("%s%s%s%s" % (pre, at[k], ident(k, p, "unit"), sh))
        body = "enum %s%s%s { %s }" % (name, g, w, ", ".join(vs))
    path = "deser::"
    if sc == "shadowed" or sc == "names" or n % 3 == 0:
        path = "::deser::"
    elif n % 3 == 1:
        path = ""
    derive = ["%s%s" % (path, d["der"])]
    if any(x["m"].startswith("default") for x in d["con"]) and kind in ("struct", "newtype"):
        derive.append("Default")
    con = attrs(d["con"], n).replace('"mk"', '"mk_all"')
    src = "%s#[derive(%s)] %s%s %s%s" % (pre, ", ".join(derive), pre_kind, con, vis, body)
    if "mk_all" in con and kind != "union":
        src += " fn mk_all() -> %s { todo!() }" % name
    use = "use deser::{Serialize, Deserialize};" if path == "" else ""
    if sc == "generated":
        src = "macro_rules! declare { ($t:ty) => { %s } } declare!(%s);" % (src, fixed[0] % ty) if "$t" in src else "macro_rules! declare { () => { %s } } declare!();" % src
        if gen:
            src = src.replace("$t:ty", "$t:tt").replace("declare!(T)", "declare!(T)") if ty == "T" else src.replace("$t", ty).replace("(%s:ty)" % ty, "()").replace("declare!(%s)" % ty, "declare!()")
    if sc == "function":
        return "pub mod d%d { pub fn inside() { use super::*; %s %s } }" % (n, use, src)
    if sc == "shadowed":
        return "pub mod d%d { use super::shadow::*; use super::{mk, sk}; %s }" % (n, src)
    if sc == "names":
        return "pub mod d%d { use super::{mk, sk}; %s }" % (n, src)
    return "pub mod d%d { use super::*; %s %s }" % (n, use, src)


def library(ctx):
    """builds the libraries and finds them"""
    target = os.path.join(BUILD, "target")
    touch_repo_guard(target)
    h = os.path.join(VERIF, "harness")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--lib", "--message-format=json", "--manifest-path", os.path.join(h, "Cargo.toml")],
                       env=cargo_env({"CARGO_TARGET_DIR": target, "VH_GEN": ctx.dir}), cwd=h, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ToolError("the libraries do not build:\n" + r.stderr[-3000:])
    out = {}
    for x in r.stdout.splitlines():
        m = json.loads(x)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    out[m["target"]["name"].replace("-", "_")] = f
    return out, os.path.join(target, "debug", "deps")


def errors(ctx, libs, deps, src, name):
    """the lines (numbers from 0) of a source file that have errors, with the first message"""
    f = ctx.path(name + ".rs")
    open(f, "w").write(src)
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "-Awarnings", "--cap-lints", "allow",
           "-o", ctx.path(name + ".rmeta"), "-L", "dependency=" + deps, f]
    for k in ("deser", "deser_path", "deser_json", "deser_debug"):
        cmd += ["--extern", "%s=%s" % (k, libs[k])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    bad, lost = {}, []
    for x in r.stderr.splitlines():
        if not x.startswith("{"):
            lost.append(x)
            continue
        m = json.loads(x)
        if m.get("level") != "error":
            continue
        ls = set()
        for s in m["spans"]:
            if not s["is_primary"] and any(t["is_primary"] for t in m["spans"]):
                continue
            while s is not None:
                if s["file_name"] == f:
                    ls.add(s["line_start"] - 1)
                s = s["expansion"]["span"] if s.get("expansion") else None
        if not ls and m["spans"]:
            lost.append(m["message"])
        if not m["spans"] and not m["message"].startswith(("aborting", "could not compile", "Some errors", "For more")):
            lost.append(m["message"])
        for l in ls:
            bad.setdefault(l, m["message"])
    if r.returncode not in (0, 1) or (r.returncode == 1 and not bad):
        raise ToolError("rustc: %d %s" % (r.returncode, (lost or [r.stderr])[0][-1000:]))
    return bad


def verdicts(ctx, items, render, head=HEAD, chunk=500, name="decls"):
    """accept or reject for every item, from as many rounds as errors of one
    phase of the compiler hide those of the next"""
    libs, deps = library(ctx)
    t = time.time()

    def one(c):
        base = c * chunk
        mine = items[base:base + chunk]
        lines = [render(x, base + k) for k, x in enumerate(mine)]
        for l in lines:
            assert "\n" not in l
        res, left = {}, list(range(len(mine)))
        while True:
            off = head.count("\n")
            bad = errors(ctx, libs, deps, head + "".join(lines[k] + "\n" for k in left), "%s-%d" % (name, c))
            hit = {}
            for l, m in bad.items():
                if l < off:
                    raise ToolError("rustc: " + m)
                hit[left[l - off]] = m
            if not hit:
                break
            res.update(hit)
            left = [k for k in left if k not in hit]
        return [("reject", res[k], lines[k]) if k in res else ("accept", "", lines[k]) for k in range(len(mine))]

    n = (len(items) + chunk - 1) // chunk
    with ThreadPoolExecutor(8) as ex:
        out = [x for part in ex.map(one, range(n)) for x in part]
    log("compiled %d %s in %.1fs" % (len(items), name, time.time() - t))
    return out


PRG_HEAD = """#![allow(warnings)]
pub use std::borrow::Cow;
pub use deser::{Atom, Event, Descriptor, Serialize, Deserialize};
pub use deser::ser::{SerializeDriver, SerializeHandle, Chunk, SerializerState as SState};
pub use deser::de::{DeserializeDriver, SinkHandle, Sink, OwnedSink, DeserializerState as DState};
pub use deser_path::{PathSink, PathSerializable};
pub use deser_debug::ToDebug;
pub type Res = Result<(), deser::Error>;
pub fn us<T: ?Sized>(_: &T) {}
#[derive(Default)] pub struct Sk { pub n: u8 }
impl Sink for Sk { fn atom(&mut self, _: Atom, _: &DState) -> Res { self.n += 1; Ok(()) } }
pub struct Fwd<'x>(pub &'x mut Sk);
impl<'x> Sink for Fwd<'x> { fn atom(&mut self, a: Atom, s: &DState) -> Res { self.0.atom(a, s) } }
deser::make_slot_wrapper!(Slot);
impl Sink for Slot<Vec<String>> { fn atom(&mut self, _: Atom, _: &DState) -> Res { **self = Some(vec![]); Ok(()) } }
pub type DRef<'x> = &'x DState<'x>;
pub type SRef<'x> = &'x SState<'x>;
pub struct Named(pub String);
impl Descriptor for Named { fn name(&self) -> Option<&str> { Some(&self.0) } }
"""
BASE = {"ser": "let mut v = vec![String::new()];", "de": "let mut out = None::<Vec<String>>; let mut sk = Sk::default(); let mut txt = String::new();",
        "json": "let mut by = b\"[\\\"a\\\"]\".to_vec();"}


def program(d, n):
    s = d["s"]
    if d["part"] == "facts":
        return "pub mod p%d { use super::*; %s }" % (n, s[0]["t"])
    decl, body = [], []
    for x in s:
        if x["x"]:
            ty, e = x["t"].split(" = ", 1) if x["f"] else ("", x["t"])
            if d["late"]:
                decl.append("let mut %s%s;" % (x["x"], ": " + ty if ty else ""))
                body.append("%s = %s;" % (x["x"], e))
            else:
                body.append("let mut %s%s = %s;" % (x["x"], ": " + ty if ty else "", e))
        else:
            body.append("us(&{ %s });" % x["t"])
    return "pub fn p%d() { %s %s %s }" % (n, " ".join(decl), BASE[d["part"]], " ".join(body))
