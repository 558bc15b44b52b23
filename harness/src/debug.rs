//! Debug formatting of values: events, texts and failing writers.
use crate::canon::{cps, event_j, tag};
use crate::guarded;
use crate::json::{obj, J};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Descriptor, Error, Event, Serialize};
use deser_debug::ToDebug;
use std::borrow::Cow;
use std::fmt::{self, Write};

/// a writer that fails when more than `room` bytes are written
struct Limited {
    text: String,
    room: usize,
    once: bool,
    failed: bool,
    writes: usize,
}

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if self.writes > 1_000_000 {
            panic!("endless");
        }
        if self.failed && !self.once {
            return Err(fmt::Error);
        }
        if !self.failed && self.text.len() + s.len() > self.room {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// the notations: (is it the pretty form, of the value, of an atom)
macro_rules! notations {
    ($($pretty:literal $f:literal),*) => {
        const PRETTY: &[bool] = &[$($pretty),*];
        fn notation(d: &ToDebug, n: usize) -> String {
            let mut k = 0;
            $(if k == n { return format!($f, d); } k += 1;)*
            panic!("case format: notation {}", k)
        }
        fn atom_text(a: &Atom, n: usize) -> String {
            let mut k = 0;
            $(if k == n {
                return match a {
                    Atom::Null => format!($f, ()),
                    Atom::Bool(v) => format!($f, v),
                    Atom::Str(v) => format!($f, &v[..]),
                    Atom::Char(v) => format!($f, v),
                    Atom::U64(v) => format!($f, v),
                    Atom::I64(v) => format!($f, v),
                    Atom::F64(v) => format!($f, v),
                    // bytes are up to the specification
                    _ => String::new(),
                };
            } k += 1;)*
            panic!("case format: notation {}", k)
        }
    };
}
notations!(
    false "{:?}", true "{:#?}", false "{:x?}", false "{:X?}", true "{:#x?}", true "{:#X?}", false "{:5?}", false "{:<12?}", false "{:*^9?}",
    true "{:#7?}", false "{:+?}", false "{:.2?}", false "{:08.1?}", true "{:+#.3?}", false "{:020?}", true "{:#014x?}", false "{:.0?}", false "{:e<3?}"
);

/// event, name of the descriptor, debug notation of the atom
fn events(value: &dyn Serialize) -> Vec<J> {
    let mut out = vec![];
    let mut driver = SerializeDriver::new(value);
    while let Some((event, desc, _)) = driver.next().unwrap() {
        let text = match event {
            Event::Atom(ref a) => atom_text(a, 0),
            _ => String::new(),
        };
        let name = match desc.name() {
            Some(n) => tag("n", vec![J::s(n), cps(n)]),
            None => tag("-", vec![]),
        };
        out.push(J::Arr(vec![event_j(&event), name, cps(&text)]));
    }
    out
}

fn text(d: &ToDebug, form: usize) -> Result<String, String> {
    guarded(|| match form {
        0 => format!("{:?}", d),
        1 => format!("{}", d),
        2 => format!("{:#?}", d),
        _ => format!("{:#}", d),
    })
}

pub fn debug_trace(value: &dyn Serialize, case: &J) -> Vec<(&'static str, J)> {
    let evs = events(value);
    let fails = case.opt("fails").map_or(0, |x| x.int()) as usize;
    let d = match guarded(|| ToDebug::new(value)) {
        Ok(d) => d,
        Err(m) => return vec![("ev", J::Arr(evs)), ("texts", J::Arr(vec![])), ("alts", J::Arr(vec![])), ("fails", J::Arr(vec![])), ("crash", J::Str(m))],
    };
    let mut texts = vec![];
    // all forms, twice: the second time has to look the same
    for form in [0, 1, 2, 3, 0, 2] {
        texts.push(match text(&d, form) {
            Ok(t) => tag(if form < 2 { "c" } else { "p" }, vec![cps(&t)]),
            Err(m) => tag("panic", vec![J::Str(m)]),
        });
    }
    // with flags: the notation of every atom, and that of the value
    let mut alts = vec![];
    for n in case.opt("alts").map_or(vec![], |x| x.arr().iter().map(|y| y.int()).collect()) {
        let n = n as usize % PRETTY.len();
        let atoms = {
            let mut out = vec![];
            let mut driver = SerializeDriver::new(value);
            while let Some((event, _, _)) = driver.next().unwrap() {
                out.push(cps(&match event {
                    Event::Atom(ref a) => atom_text(a, n),
                    _ => String::new(),
                }));
            }
            out
        };
        let t = match guarded(|| notation(&d, n)) {
            Ok(t) => cps(&t),
            Err(m) => J::Arr(vec![J::Str(m)]),
        };
        alts.push(J::Arr(vec![J::s(if PRETTY[n] { "p" } else { "c" }), J::Arr(atoms), t]));
    }
    let mut res = vec![];
    for form in [0, 2] {
        let full = text(&d, form).unwrap_or_default();
        let step = if fails == 0 { usize::MAX } else { (full.len() / fails).max(1) };
        let mut n = 0;
        while n <= full.len() && fails > 0 {
            for once in [false, true] {
                let mut w = Limited { text: String::new(), room: n, once, failed: false, writes: 0 };
                let r = match guarded(|| if form == 0 { write!(w, "{:?}", d) } else { write!(w, "{:#?}", d) }) {
                    Ok(Ok(())) => "ok",
                    Ok(Err(_)) => "err",
                    Err(_) => "panic",
                };
                res.push(J::Arr(vec![
                    J::s(if form == 0 { "c" } else { "p" }),
                    J::Int(n as i64),
                    J::Int(full.len() as i64),
                    J::s(r),
                    J::Int(w.text.len() as i64),
                    J::Int(full.starts_with(&w.text) as i64),
                    J::Int(once as i64),
                ]));
            }
            n = if n < full.len() && n.saturating_add(step) > full.len() { full.len() } else { n.saturating_add(step) };
        }
    }
    vec![("ev", J::Arr(evs)), ("texts", J::Arr(texts)), ("alts", J::Arr(alts)), ("fails", J::Arr(res))]
}

// ---------------------------------------------------------------------------
// values made of a script: ["a", atom], ["S"|"M"|"T", name or null, children...]

struct Name(Option<String>);

impl Descriptor for Name {
    fn name(&self) -> Option<&str> {
        self.0.as_deref()
    }
}

struct Scripted {
    shape: J,
    name: Name,
}

fn scripted(shape: &J) -> Scripted {
    let a = shape.arr();
    let name = match &a[1] {
        J::Str(s) if a[0].str() != "a" => Some(s.clone()),
        _ => None,
    };
    Scripted { shape: shape.clone(), name: Name(name) }
}

struct Em<'a>(&'a [J], usize);

impl<'a> Em<'a> {
    fn child(&mut self) -> Option<Scripted> {
        self.1 += 1;
        self.0.get(self.1 + 1).map(scripted)
    }
}

impl Serialize for Scripted {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.name
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        let a = self.shape.arr();
        Ok(match a[0].str() {
            "a" => match crate::canon::event_of(&a[1]) {
                Event::Atom(x) => Chunk::Atom(x),
                _ => panic!("case format: atom"),
            },
            "S" => Chunk::Seq(Box::new(Em(a, 0))),
            "M" => Chunk::Map(Box::new(Em(a, 0))),
            _ => Chunk::Struct(Box::new(Em(a, 0))),
        })
    }
}

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.child().map(SerializeHandle::boxed))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.child().map(SerializeHandle::boxed))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(SerializeHandle::boxed(self.child().expect("case format: value")))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        let key = format!("k{}", self.1);
        Ok(self.child().map(|c| (Cow::Owned(key), SerializeHandle::boxed(c))))
    }
}

pub fn op_debugx(case: &J) -> J {
    let v = scripted(case.get("shape"));
    let mut o = vec![("id", case.get("id").clone()), ("ty", J::Int(0)), ("v", J::Arr(vec![]))];
    o.extend(debug_trace(&v, case));
    obj(o)
}
