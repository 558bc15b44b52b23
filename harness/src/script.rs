//! Instrumented components that only log what is done with them: sinks,
//! serializables, emitters and values, with faults on demand.
use crate::canon::tag;
use crate::guarded;
use crate::json::{obj, J};
use crate::ops::kind;
use crate::side;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Atom, Descriptor, Error, ErrorKind, Event, Serialize};
use deser_path::{PathSerializable, PathSink};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};

thread_local! {
    static LOG: RefCell<Vec<J>> = RefCell::new(vec![]);
    static IDS: Cell<i64> = Cell::new(0);
    static CALLS: Cell<i64> = Cell::new(0);
    static FAIL: Cell<(i64, bool)> = Cell::new((-1, false));
    static KINDS: RefCell<Vec<J>> = RefCell::new(vec![]);
    static MADE: Cell<usize> = Cell::new(0);
    /// how often a caller goes on after an error
    static MORE: Cell<i64> = Cell::new(0);
}

/// one more try after something failed
fn again() -> bool {
    MORE.with(|m| m.replace(m.get() - 1) > 0)
}

fn log(j: J) {
    LOG.with(|l| l.borrow_mut().push(j));
}

fn start(case: &J) {
    LOG.with(|l| l.borrow_mut().clear());
    IDS.with(|x| x.set(0));
    CALLS.with(|x| x.set(0));
    MADE.with(|x| x.set(0));
    MORE.with(|x| x.set(case.opt("more").map_or(0, |x| x.int())));
    ROT.with(|x| x.set(case.opt("rot").map_or(0, |x| x.int())));
    FAIL.with(|x| {
        x.set((
            case.opt("fail").map_or(-1, |x| x.int()),
            case.opt("panic").map_or(false, |x| x.int() == 1),
        ))
    });
    KINDS.with(|k| *k.borrow_mut() = case.opt("kinds").map_or(vec![J::s("o")], |x| x.arr().to_vec()));
}

fn take(case: &J) -> J {
    let mut o = match case {
        J::Obj(o) => o.clone(),
        _ => vec![],
    };
    o.push(("log".into(), J::Arr(LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))));
    obj(o.iter().map(|(k, v)| (k.as_str(), v.clone())).collect())
}

fn fresh() -> i64 {
    IDS.with(|x| {
        x.set(x.get() + 1);
        x.get()
    })
}

thread_local! {
    /// only what JSON can express
    static PLAIN: Cell<bool> = Cell::new(false);
    static ROT: Cell<i64> = Cell::new(0);
}

/// The atom number n: every kind of atom occurs.
fn atom_for(n: i64) -> Atom<'static> {
    match (n + ROT.with(|r| r.get())).rem_euclid(8) {
        0 => Atom::U64(n as u64),
        1 => Atom::Null,
        2 => Atom::Str(Cow::Owned(format!("v{}", n))),
        3 => Atom::I64(-n),
        4 => Atom::Bool(n & 1 == 1),
        5 => Atom::Bytes(Cow::Owned(n.to_string().into_bytes())),
        6 => Atom::Char(char::from_u32(0x4e00 + n as u32).unwrap_or('?')),
        _ => Atom::F64(n as f64 + 0.5),
    }
}

fn atom_text(a: &Atom) -> String {
    match a {
        Atom::Null => "null".into(),
        Atom::Bool(v) => format!("bool {}", v),
        Atom::Str(v) => format!("str {}", v),
        Atom::Bytes(v) => format!("bytes {:?}", v),
        Atom::Char(v) => format!("char {:x}", *v as u32),
        Atom::U64(v) => format!("u {}", v),
        Atom::I64(v) => format!("i {}", v),
        Atom::F64(v) => format!("f {}", v),
        _ => "other".into(),
    }
}

/// how the next child is handed out
fn next_kind() -> String {
    let n = MADE.with(|m| m.replace(m.get() + 1));
    KINDS.with(|k| {
        let k = k.borrow();
        k[n % k.len()].str().to_string()
    })
}

#[derive(PartialEq, Clone, Copy)]
enum Fault {
    No,
    Err,
    Panic,
}

impl Fault {
    fn name(self) -> &'static str {
        match self {
            Fault::No => "ok",
            Fault::Err => "err",
            Fault::Panic => "panic",
        }
    }
    fn act(self) -> Result<(), Error> {
        match self {
            Fault::No => Ok(()),
            Fault::Err => Err(Error::new(ErrorKind::EndOfFile, "injected: fault").with_source(Cause)),
            Fault::Panic => panic!("injected panic"),
        }
    }
}

/// the reason of an injected error
#[derive(Debug)]
struct Cause;

impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("cause")
    }
}

impl std::error::Error for Cause {}

/// an error is ours, with everything it came with, or described
fn what(e: &Error) -> String {
    let caused = std::error::Error::source(e).map_or(false, |s| s.is::<Cause>());
    if matches!(e.kind(), ErrorKind::EndOfFile) && e.to_string() == "EndOfFile: injected: fault" && caused {
        "injected".into()
    } else {
        format!("{} {}", kind(e), e)
    }
}

fn fault() -> Fault {
    side::within();
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    let (at, p) = FAIL.with(|f| f.get());
    if n != at {
        Fault::No
    } else if p {
        Fault::Panic
    } else {
        Fault::Err
    }
}

struct IdDesc(i64);

impl Descriptor for IdDesc {
    fn name(&self) -> Option<&str> {
        Some("node")
    }
    fn precision(&self) -> Option<usize> {
        Some(self.0 as usize)
    }
}

/// A descriptor that was dropped is recognized.
impl Drop for IdDesc {
    fn drop(&mut self) {
        unsafe { std::ptr::write_volatile(&mut self.0, -3) };
    }
}

/// the component a descriptor belongs to: 0 none, -1 the null sink, -3 it was dropped
fn who(d: Option<&dyn Descriptor>) -> J {
    J::Int(match d {
        None => 0,
        Some(d) => match (d.name(), d.precision()) {
            (Some("node"), Some(p)) => p as i64,
            (None, None) => -1,
            _ => -2,
        },
    })
}

// ---------------------------------------------------------------------------
// sinks

/// what a scripted sink produces: the sink which made it
pub struct Rec(i64);

struct Node<'a> {
    id: i64,
    owned: bool,
    desc: Box<IdDesc>,
    out: Option<&'a mut Option<Rec>>,
    slot: Option<Box<Node<'static>>>,
}

fn node<'a>(par: i64, kind: &str, out: Option<&'a mut Option<Rec>>) -> Node<'a> {
    let id = fresh();
    log(tag("new", vec![J::Int(id), J::Int(par), J::s(kind)]));
    Node {
        id,
        owned: kind == "o",
        desc: Box::new(IdDesc(id)),
        out,
        slot: None,
    }
}

impl<'a> Drop for Node<'a> {
    fn drop(&mut self) {
        // a sink borrows its slot until the end
        let full = self.out.as_ref().map_or(-1, |out| out.is_some() as i64);
        if self.owned {
            log(tag("drop", vec![J::Int(self.id), J::Int(full)]));
        }
    }
}

impl<'a> Node<'a> {
    fn called(&mut self, name: &str, arg: J, state: &DeserializerState) -> Result<(), Error> {
        let f = fault();
        // whatever changes a sink may change its descriptor as well
        self.desc = Box::new(IdDesc(self.id));
        log(tag(
            "cb",
            vec![
                J::s(name),
                J::Int(self.id),
                J::Int(state.depth() as i64),
                who(state.top_descriptor()),
                arg,
                J::s(f.name()),
            ],
        ));
        f.act()
    }

    fn child(&mut self) -> SinkHandle<'_> {
        let kind = next_kind();
        match kind.as_str() {
            "n" => {
                log(tag("new", vec![J::Int(0), J::Int(self.id), J::s("n")]));
                SinkHandle::null()
            }
            "b" => {
                self.slot = Some(Box::new(node(self.id, "b", None)));
                SinkHandle::to(&mut **self.slot.as_mut().unwrap())
            }
            _ => SinkHandle::boxed(node(self.id, "o", None)),
        }
    }
}

impl<'a> Sink for Node<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.called("atom", J::Str(atom_text(&atom)), state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.called("map", J::s(""), state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.called("seq", J::s(""), state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.called("key", J::s(""), state)?;
        Ok(self.child())
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.called("value", J::s(""), state)?;
        Ok(self.child())
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.called("finish", J::s(""), state)?;
        if let Some(out) = self.out.as_mut() {
            **out = Some(Rec(self.id));
            log(tag("put", vec![J::Int(self.id)]));
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &*self.desc
    }
}

impl Deserialize for Rec {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(node(0, "o", Some(out)))
    }
}

#[derive(deser::Deserialize)]
struct Nt(#[allow(dead_code)] Rec);

fn feed(driver: &mut DeserializeDriver, evs: &[J]) {
    for (n, e) in evs.iter().enumerate() {
        let ev: Event = match e.str() {
            "a" => Event::Atom(atom_for(n as i64)),
            "M" => Event::MapStart,
            "m" => Event::MapEnd,
            "S" => Event::SeqStart,
            "s" => Event::SeqEnd,
            x => panic!("case format: event {}", x),
        };
        let text = match ev {
            Event::Atom(ref a) => atom_text(a),
            _ => String::new(),
        };
        log(tag("emit", vec![e.clone(), J::Str(text)]));
        let (r, k) = match guarded(|| driver.emit(ev)) {
            Ok(Ok(())) => ("ok", String::new()),
            Ok(Err(e)) => ("err", what(&e)),
            Err(m) => ("panic", if m == "injected panic" { "injected".into() } else { "own".into() }),
        };
        log(tag(
            "ret",
            vec![
                J::s(r),
                J::Str(k),
                J::Int(driver.state().depth() as i64),
                who(driver.state().top_descriptor()),
            ],
        ));
        if r != "ok" && !again() {
            break;
        }
    }
    log(tag("leave", vec![]));
}

fn drive_into<T: Deserialize>(evs: &[J]) {
    let mut out = None::<T>;
    {
        let mut driver = DeserializeDriver::new(&mut out);
        feed(&mut driver, evs);
    }
    log(tag("gone", vec![J::Int(out.is_some() as i64)]));
}

fn drive_sink(sink: SinkHandle, evs: &[J]) {
    {
        let mut driver = DeserializeDriver::from_sink(sink);
        feed(&mut driver, evs);
    }
    log(tag("gone", vec![J::Int(0)]));
}

/// The events of a case as a JSON text.
fn as_json(evs: &[J]) -> (String, Vec<J>) {
    let (mut text, mut seen) = (String::new(), vec![]);
    let mut open: Vec<(bool, usize)> = vec![];
    for (n, e) in evs.iter().enumerate() {
        let e = e.str();
        let gap = ["", " ", "\n\t", "\r"][n % 4];
        text.push_str(gap);
        let mut key = false;
        if e == "m" || e == "s" {
            open.pop();
        } else if let Some((map, done)) = open.last_mut() {
            key = *map && *done % 2 == 0;
            match (*map && *done % 2 == 1, *done) {
                (true, _) => text.push(':'),
                (false, 0) => {}
                _ => text.push(','),
            }
            text.push_str(gap);
            *done += 1;
        }
        let mut what = String::new();
        match e {
            "M" => text.push('{'),
            "m" => text.push('}'),
            "S" => text.push('['),
            "s" => text.push(']'),
            _ => {
                let a = match atom_for(n as i64) {
                    _ if key => Atom::Str(Cow::Owned(format!("v{}", n))),
                    Atom::Bytes(_) | Atom::Char(_) => Atom::Str(Cow::Owned(format!("v\u{e4}{}", n))),
                    Atom::I64(0) => Atom::U64(0),
                    a => a,
                };
                match a {
                    Atom::Null => text.push_str("null"),
                    Atom::Bool(b) => text.push_str(if b { "true" } else { "false" }),
                    Atom::Str(ref s) => {
                        // every other one with an escape
                        let first = if n % 2 == 0 { "\"v" } else { "\"\\u0076" };
                        text.push_str(first);
                        text.push_str(&s[1..]);
                        text.push('"');
                    }
                    Atom::U64(n) => text.push_str(&n.to_string()),
                    Atom::I64(n) => text.push_str(&n.to_string()),
                    Atom::F64(n) => text.push_str(&format!("{:?}", n)),
                    _ => unreachable!(),
                }
                what = atom_text(&a);
            }
        }
        if e == "M" || e == "S" {
            open.push((e == "M", 0));
        }
        seen.push(J::Arr(vec![J::s(e), J::Str(what)]));
    }
    text.push_str(["", " ", "\n"][evs.len() % 3]);
    (text, seen)
}

/// The events of a case, emitted by the JSON deserializer itself.
pub fn op_entry(case: &J) -> J {
    start(case);
    let (text, seen) = as_json(case.get("ev").arr());
    let bytes = text.as_bytes();
    let r = guarded(|| match case.get("wrap").str() {
        "none" => deser_json::from_str::<Rec>(&text).map(drop),
        "opt" => deser_json::from_str::<Option<Rec>>(&text).map(drop),
        "box" => deser_json::from_str::<Box<Rec>>(&text).map(drop),
        "nt" => deser_json::from_str::<Nt>(&text).map(drop),
        "bytes" => deser_json::Deserializer::new(bytes).deserialize::<Rec>().map(drop),
        "path" => deser_json::from_str::<Tracked>(&text).map(drop),
        "owned" => deser_json::from_str::<Via>(&text).map(drop),
        x => panic!("case format: wrap {}", x),
    });
    finished(r);
    let mut t = take(case);
    if let J::Obj(ref mut o) = t {
        o.push(("evs".into(), J::Arr(seen)));
    }
    t
}

/// a type that goes through an owned sink
struct Via;

struct ViaSink<'a, T> {
    out: &'a mut Option<T>,
    make: fn() -> T,
    sink: OwnedSink<Rec>,
}

impl<'a, T> Sink for ViaSink<'a, T> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.sink.borrow_mut().next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.sink.borrow_mut().next_value(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().finish(state)?;
        if taken(&mut self.sink) {
            *self.out = Some((self.make)());
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.sink.borrow().descriptor()
    }
}

impl Deserialize for Via {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(ViaSink {
            out,
            make: || Via,
            sink: OwnedSink::deserialize(),
        })
    }
}

/// takes the value out
fn taken(sink: &mut OwnedSink<Rec>) -> bool {
    match sink.take() {
        Some(rec) => {
            log(tag("take", vec![J::Int(rec.0)]));
            true
        }
        None => false,
    }
}

/// a type whose path is tracked
struct Tracked;

impl Deserialize for Tracked {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(ViaSink {
            out,
            make: || Tracked,
            sink: OwnedSink::deserialize(),
        })))
    }
}

fn finished(r: Result<Result<(), Error>, String>) {
    let (r, k) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", what(&e)),
        Err(m) => ("panic", if m == "injected panic" { "injected".into() } else { m }),
    };
    log(tag("done", vec![J::s(r), J::Str(k)]));
    log(tag("gone", vec![J::Int(0)]));
}

pub fn op_drive(case: &J) -> J {
    start(case);
    let evs = case.get("ev").arr();
    match case.get("wrap").str() {
        "none" => drive_into::<Rec>(evs),
        "opt" => drive_into::<Option<Rec>>(evs),
        "box" => drive_into::<Box<Rec>>(evs),
        "optbox" => drive_into::<Option<Box<Option<Rec>>>>(evs),
        "nt" => drive_into::<Nt>(evs),
        "boxnt" => drive_into::<Box<Nt>>(evs),
        "own" => drive_sink(SinkHandle::boxed(node(0, "o", None)), evs),
        "bor" => {
            let mut n = node(0, "b", None);
            drive_sink(SinkHandle::to(&mut n), evs);
        }
        "path" => {
            let sink = PathSink::wrap_ref(SinkHandle::boxed(node(0, "o", None)));
            drive_sink(SinkHandle::boxed(sink), evs);
        }
        "pathbor" => {
            let mut n = node(0, "b", None);
            let mut sink = PathSink::wrap(&mut n);
            drive_sink(SinkHandle::to(&mut sink), evs);
        }
        "owned" => {
            let mut sink = OwnedSink::<Rec>::deserialize();
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(sink.borrow_mut()));
                feed(&mut driver, evs);
            }
            let some = taken(&mut sink);
            drop(sink);
            log(tag("gone", vec![J::Int(some as i64)]));
        }
        // the value is left in there
        "left" => {
            let mut sink = OwnedSink::<Rec>::deserialize();
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(sink.borrow_mut()));
                feed(&mut driver, evs);
            }
            drop(sink);
            log(tag("gone", vec![J::Int(0)]));
        }
        x => panic!("case format: wrap {}", x),
    }
    take(case)
}

// ---------------------------------------------------------------------------
// serializables: the shape is part of the case
//   ["a"]                       an atom
//   ["S"|"M"|"T", children...]  a sequence, map or struct (key, value, ...)

struct Val {
    id: i64,
    owned: bool,
    key: bool,
    shape: J,
    desc: IdDesc,
}

fn val(par: i64, kind: &str, shape: &J) -> Val {
    let id = fresh();
    log(tag("new", vec![J::Int(id), J::Int(par), J::s(kind)]));
    Val {
        id,
        owned: kind == "o",
        key: false,
        shape: shape.clone(),
        desc: IdDesc(id),
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        if self.owned {
            log(tag("drop", vec![J::Int(self.id)]));
        }
    }
}

fn ser_called(name: &str, id: i64, state: &SerializerState) -> Result<(), Error> {
    let f = fault();
    log(tag(
        "cb",
        vec![
            J::s(name),
            J::Int(id),
            J::Int(state.depth() as i64),
            who(state.top_descriptor()),
            J::Int(0),
            J::s(f.name()),
        ],
    ));
    f.act()
}

impl Serialize for Val {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        ser_called("ser", self.id, state)?;
        let s = self.shape.arr();
        Ok(match s[0].str() {
            "a" if PLAIN.with(|p| p.get()) => Chunk::Atom(match atom_for(self.id) {
                Atom::Char(c) => Atom::Char(c),
                _ if self.key => Atom::Str(Cow::Owned(format!("v{}", self.id))),
                Atom::Bytes(_) => Atom::Str(Cow::Owned(format!("v\u{e4}{}", self.id))),
                a => a,
            }),
            "a" => Chunk::Atom(atom_for(self.id)),
            "S" => Chunk::Seq(Box::new(Em::new(self))),
            "M" => Chunk::Map(Box::new(Em::new(self))),
            "T" => Chunk::Struct(Box::new(Em::new(self))),
            x => panic!("case format: shape {}", x),
        })
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        ser_called("finish", self.id, state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
}

struct Em<'a> {
    id: i64,
    of: &'a Val,
    next: usize,
    slot: Option<Box<Val>>,
}

impl<'a> Em<'a> {
    fn new(of: &'a Val) -> Em<'a> {
        let id = fresh();
        log(tag("new", vec![J::Int(id), J::Int(of.id), J::s("e")]));
        Em {
            id,
            of,
            next: 1,
            slot: None,
        }
    }
    fn child(&mut self) -> Option<SerializeHandle<'_>> {
        let shape = self.of.shape.arr().get(self.next)?.clone();
        let key = self.next % 2 == 1 && self.of.shape.arr()[0].str() == "M";
        self.next += 1;
        let made = |kind| {
            let mut v = val(self.id, kind, &shape);
            v.key = key;
            v
        };
        Some(match next_kind().as_str() {
            "b" => {
                self.slot = Some(Box::new(made("b")));
                SerializeHandle::to(&**self.slot.as_ref().unwrap())
            }
            _ => SerializeHandle::boxed(made("o")),
        })
    }
}

impl<'a> Drop for Em<'a> {
    fn drop(&mut self) {
        log(tag("drop", vec![J::Int(self.id)]));
    }
}

impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        ser_called("next", self.id, state)?;
        Ok(self.child())
    }
}

impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        ser_called("key", self.id, state)?;
        Ok(self.child())
    }
    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle, Error> {
        ser_called("value", self.id, state)?;
        Ok(self.child().expect("case format: value of a map"))
    }
}

impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        ser_called("next", self.id, state)?;
        let key = format!("k{}", self.next + 1);
        Ok(self.child().map(|c| (Cow::Owned(key), c)))
    }
}

/// A scripted value, serialized by one of the entry points.
pub fn op_output(case: &J) -> J {
    use std::fmt::Write;
    start(case);
    PLAIN.with(|p| p.set(true));
    let r = {
        let root = val(0, "b", case.get("shape"));
        guarded(|| match case.get("wrap").str() {
            "none" => deser_json::to_string(&root).map(drop),
            "opt" => deser_json::to_string(&Some(&root)).map(drop),
            "box" => deser_json::to_string(&Box::new(&root)).map(drop),
            "bytes" => deser_json::Serializer::new().serialize(&root).map(drop),
            "path" => deser_json::to_string(&PathSerializable::wrap(&root)).map(drop),
            "debug" => {
                let d = deser_debug::ToDebug::new(&root);
                let mut text = String::new();
                write!(text, "{:?} {:#?} {}", d, d, d).map_err(|_| Error::new(ErrorKind::Unexpected, "not formatted"))
            }
            x => panic!("case format: wrap {}", x),
        })
    };
    PLAIN.with(|p| p.set(false));
    finished(r);
    take(case)
}

pub fn op_pull(case: &J) -> J {
    start(case);
    let root = val(0, "b", case.get("shape"));
    let stop = case.opt("stop").map_or(i64::MAX, |x| x.int());
    let wrapped;
    let boxed;
    let opt;
    let root: &dyn Serialize = match case.get("wrap").str() {
        "none" => &root,
        "path" => {
            wrapped = PathSerializable::wrap(&root);
            &wrapped
        }
        "opt" => {
            opt = Some(&root);
            &opt
        }
        "box" => {
            boxed = Box::new(&root);
            &boxed
        }
        x => panic!("case format: wrap {}", x),
    };
    {
        let mut driver = SerializeDriver::new(root);
        let mut n = 0;
        loop {
            if n >= stop {
                break;
            }
            n += 1;
            log(tag("next", vec![]));
            let (r, k) = match guarded(|| match driver.next() {
                Ok(Some((event, desc, state))) => {
                    let e = match event {
                        // names of fields have no descriptor of ours
                        Event::Atom(Atom::Str(ref s)) if s.starts_with('k') => {
                            tag("k", vec![J::Int(s[1..].parse().unwrap_or(-1))])
                        }
                        // whose atom it is: that of the value which describes it, if at all
                        Event::Atom(a) => {
                            let text = atom_text(&a);
                            let by_desc = match who(Some(desc)) {
                                J::Int(id) if id > 0 && text == atom_text(&atom_for(id)) => Some(id),
                                _ => None,
                            };
                            let id = by_desc.or_else(|| (1..=IDS.with(|x| x.get())).find(|&i| text == atom_text(&atom_for(i))));
                            tag("a", vec![J::Int(id.unwrap_or(-1))])
                        }
                        Event::MapStart => tag("M", vec![]),
                        Event::MapEnd => tag("m", vec![]),
                        Event::SeqStart => tag("S", vec![]),
                        Event::SeqEnd => tag("s", vec![]),
                        _ => tag("?", vec![]),
                    };
                    log(tag(
                        "ev",
                        vec![e, who(Some(desc)), J::Int(state.depth() as i64), who(state.top_descriptor())],
                    ));
                    Ok(true)
                }
                Ok(None) => Ok(false),
                Err(e) => Err(what(&e)),
            }) {
                Ok(Ok(true)) => ("ok", String::new()),
                Ok(Ok(false)) => ("end", String::new()),
                Ok(Err(e)) => ("err", e),
                Err(m) => ("panic", if m == "injected panic" { "injected".into() } else { m }),
            };
            if r != "ok" {
                log(tag("ret", vec![J::s(r), J::Str(k), J::Int(driver.state().depth() as i64), J::Int(0)]));
                if !again() {
                    break;
                }
            }
        }
        log(tag("leave", vec![]));
    }
    log(tag("gone", vec![J::Int(0)]));
    take(case)
}

// ---------------------------------------------------------------------------
// values that are collected

pub struct Tr {
    id: i64,
    n: u64,
}

fn tr(n: u64) -> Tr {
    let id = fresh();
    log(tag("new", vec![J::Int(id)]));
    Tr { id, n }
}

impl Drop for Tr {
    fn drop(&mut self) {
        log(tag("drop", vec![J::Int(self.id)]));
    }
}
impl Default for Tr {
    fn default() -> Tr {
        tr(1000)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.n == o.n
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        // comparing is a callback that can only panic
        if fault() == Fault::Panic {
            panic!("injected panic");
        }
        self.n.cmp(&o.n)
    }
}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if fault() == Fault::Panic {
            panic!("injected panic");
        }
        self.n.hash(h)
    }
}

struct TrSink<'a>(&'a mut Option<Tr>);

impl<'a> Sink for TrSink<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::U64(v) => {
                fault().act()?;
                *self.0 = Some(tr(v));
                Ok(())
            }
            other => self.unexpected_atom(other, state),
        }
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        fault().act()
    }
}

impl Deserialize for Tr {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(TrSink(out))
    }
}

/// all tracked values in a value
pub trait Ids {
    fn ids(&self, out: &mut Vec<J>);
}
impl Ids for Tr {
    fn ids(&self, out: &mut Vec<J>) {
        out.push(J::Int(self.id));
    }
}
impl<T: Ids> Ids for Option<T> {
    fn ids(&self, out: &mut Vec<J>) {
        if let Some(x) = self {
            x.ids(out)
        }
    }
}
impl<T: Ids> Ids for Box<T> {
    fn ids(&self, out: &mut Vec<J>) {
        (**self).ids(out)
    }
}
macro_rules! iter_ids {
    ($(($($g:tt)*) $t:ty),*) => {$(
        impl<$($g)*> Ids for $t {
            fn ids(&self, out: &mut Vec<J>) {
                for x in self.iter() {
                    x.ids(out)
                }
            }
        }
    )*};
}
iter_ids!(
    (T: Ids) Vec<T>,
    (T: Ids, const N: usize) [T; N],
    (T: Ids) std::collections::BTreeSet<T>,
    (T: Ids) std::collections::HashSet<T>
);
macro_rules! map_ids {
    ($($t:ident),*) => {$(
        impl<K: Ids, V: Ids> Ids for std::collections::$t<K, V> {
            fn ids(&self, out: &mut Vec<J>) {
                for (k, v) in self {
                    k.ids(out);
                    v.ids(out);
                }
            }
        }
    )*};
}
map_ids!(BTreeMap, HashMap);
macro_rules! tuple_ids {
    ($(($($n:ident),*)),*) => {$(
        impl<$($n: Ids),*> Ids for ($($n,)*) {
            #[allow(non_snake_case)]
            fn ids(&self, out: &mut Vec<J>) {
                let ($($n,)*) = self;
                $($n.ids(out);)*
            }
        }
    )*};
}
tuple_ids!((A), (A, B), (A, B, C));

#[derive(deser::Deserialize)]
pub struct Plain {
    a: Tr,
    b: Option<Tr>,
    #[deser(default)]
    c: Vec<Tr>,
}
impl Ids for Plain {
    fn ids(&self, out: &mut Vec<J>) {
        self.a.ids(out);
        self.b.ids(out);
        self.c.ids(out);
    }
}
#[derive(deser::Deserialize)]
pub struct Defaults {
    #[deser(default)]
    a: Tr,
    b: Box<Tr>,
    #[deser(default = "dflt")]
    c: [Tr; 2],
}
fn dflt() -> [Tr; 2] {
    [tr(1), tr(2)]
}
impl Ids for Defaults {
    fn ids(&self, out: &mut Vec<J>) {
        self.a.ids(out);
        self.b.ids(out);
        self.c.ids(out);
    }
}
#[derive(deser::Deserialize)]
#[deser(default)]
pub struct AllDefaults {
    a: Tr,
    b: Option<Tr>,
    c: (Tr, Tr),
}
impl Default for AllDefaults {
    fn default() -> AllDefaults {
        AllDefaults {
            a: tr(1),
            b: Some(tr(2)),
            c: (tr(3), tr(4)),
        }
    }
}
impl Ids for AllDefaults {
    fn ids(&self, out: &mut Vec<J>) {
        self.a.ids(out);
        self.b.ids(out);
        self.c.ids(out);
    }
}
#[derive(deser::Deserialize)]
pub struct Flat {
    c: Tr,
    #[deser(flatten)]
    p: Inner,
    #[deser(flatten)]
    q: Box<Inner2>,
}
#[derive(deser::Deserialize)]
pub struct Inner {
    a: Tr,
}
#[derive(deser::Deserialize)]
pub struct Inner2 {
    b: Vec<Tr>,
}
impl Ids for Flat {
    fn ids(&self, out: &mut Vec<J>) {
        self.c.ids(out);
        self.p.a.ids(out);
        self.q.b.ids(out);
    }
}
#[derive(deser::Deserialize)]
pub struct New(Box<Option<Tr>>);
impl Ids for New {
    fn ids(&self, out: &mut Vec<J>) {
        self.0.ids(out);
    }
}

fn collect<T: Deserialize + Ids>(case: &J) {
    let evs = case.get("ev").arr();
    let mut out = None::<T>;
    let mut owned;
    let emit = |driver: &mut DeserializeDriver| {
        for e in evs {
            let ev = crate::canon::event_of(e);
            let r = match guarded(|| driver.emit(ev)) {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(m) if m == "injected panic" => "injected",
                Err(_) => "panic",
            };
            log(tag("ret", vec![J::s(r)]));
            if r != "ok" {
                break;
            }
        }
        log(tag("leave", vec![]));
    };
    match case.get("wrap").str() {
        "none" => {
            let mut driver = DeserializeDriver::new(&mut out);
            emit(&mut driver);
        }
        "path" => {
            let mut driver = DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))));
            emit(&mut driver);
        }
        // the value is taken out
        "owned" => {
            owned = OwnedSink::<T>::deserialize();
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(owned.borrow_mut()));
                emit(&mut driver);
            }
            out = owned.take();
            drop(owned);
        }
        // the value stays inside
        "left" => {
            owned = OwnedSink::<T>::deserialize();
            {
                let mut driver = DeserializeDriver::from_sink(SinkHandle::to(owned.borrow_mut()));
                emit(&mut driver);
            }
            drop(owned);
        }
        x => panic!("case format: wrap {}", x),
    }
    let mut ids = vec![];
    out.ids(&mut ids);
    log(tag("out", vec![J::Int(out.is_some() as i64), J::Arr(ids)]));
    drop(out);
    log(tag("gone", vec![]));
}

pub fn op_collect(case: &J) -> J {
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
    start(case);
    match case.get("type").str() {
        "v" => collect::<Tr>(case),
        "opt" => collect::<Option<Tr>>(case),
        "box" => collect::<Box<Tr>>(case),
        "vec" => collect::<Vec<Tr>>(case),
        "arr0" => collect::<[Tr; 0]>(case),
        "arr1" => collect::<[Tr; 1]>(case),
        "arr3" => collect::<[Tr; 3]>(case),
        "tup2" => collect::<(Tr, Tr)>(case),
        "tup3" => collect::<(Tr, Option<Tr>, Box<Tr>)>(case),
        "bmap" => collect::<BTreeMap<Tr, Tr>>(case),
        "hmap" => collect::<HashMap<Tr, Tr>>(case),
        "bset" => collect::<BTreeSet<Tr>>(case),
        "hset" => collect::<HashSet<Tr>>(case),
        "vecvec" => collect::<Vec<Vec<Tr>>>(case),
        "arrvec" => collect::<[Vec<Tr>; 2]>(case),
        "vecarr" => collect::<Vec<[Tr; 2]>>(case),
        "arrarr" => collect::<[[Tr; 2]; 2]>(case),
        "tuparr" => collect::<([Tr; 2], (Tr, Tr))>(case),
        "mapvec" => collect::<BTreeMap<Tr, Vec<Tr>>>(case),
        "maparr" => collect::<HashMap<Tr, [Tr; 2]>>(case),
        "setset" => collect::<BTreeSet<BTreeSet<Tr>>>(case),
        "optarr" => collect::<Option<Box<[Tr; 2]>>>(case),
        "vecopt" => collect::<Vec<Option<Tr>>>(case),
        "arropt" => collect::<[Option<Tr>; 2]>(case),
        "arrbox" => collect::<[Box<Tr>; 2]>(case),
        "plain" => collect::<Plain>(case),
        "defaults" => collect::<Defaults>(case),
        "alldefaults" => collect::<AllDefaults>(case),
        "flat" => collect::<Flat>(case),
        "new" => collect::<New>(case),
        "vecplain" => collect::<Vec<Plain>>(case),
        x => panic!("case format: type {}", x),
    }
    take(case)
}
