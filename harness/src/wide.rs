//! Long sequences, maps and texts.  What is observed is a list of records (a
//! tag and some integers); the log holds it in groups of equal steps.
use crate::bag::Bag;
use crate::guarded;
use crate::json::{obj, J};
use crate::ops::kind;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, SerializeDriver, SerializerState};
use deser::{Atom, Descriptor, Error, Event, Serialize};
use deser_path::{Path, PathSegment, PathSerializable, PathSink};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::convert::TryInto;

type Rec = (String, Vec<i64>);

thread_local! {
    static RECS: RefCell<Vec<Rec>> = RefCell::new(vec![]);
    static LIVE: Cell<i64> = Cell::new(0);
    static MADE: Cell<i64> = Cell::new(0);
    static PATHS: Cell<bool> = Cell::new(false);
}

fn push(tag: &str, ints: Vec<i64>) {
    RECS.with(|r| r.borrow_mut().push((tag.into(), ints)));
}
fn take() -> Vec<Rec> {
    RECS.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

/// a number in its shortest notation
fn number(s: &str) -> Option<i64> {
    let ok = !s.is_empty() && s.len() < 10 && s.bytes().all(|b| b.is_ascii_digit()) && (s.len() == 1 || !s.starts_with('0'));
    if ok {
        s.parse().ok()
    } else {
        None
    }
}

fn atom_rec(a: &Atom) -> Rec {
    match a {
        Atom::U64(v) => ("u".into(), vec![(*v).try_into().unwrap_or(-1)]),
        Atom::I64(v) => ("i".into(), vec![*v]),
        Atom::Bool(v) => ("bool".into(), vec![*v as i64]),
        Atom::Null => ("null".into(), vec![]),
        Atom::Str(s) => match number(s) {
            Some(n) => ("str".into(), vec![n]),
            None => (format!("str={}", s), vec![]),
        },
        other => (format!("{:?}", other), vec![]),
    }
}

fn path_to(rec: &mut Rec, p: &Path) {
    rec.0.push('/');
    for s in p.segments() {
        match s {
            PathSegment::Unknown => rec.0.push('U'),
            PathSegment::Index(i) => {
                rec.0.push('I');
                rec.1.push(*i as i64);
            }
            PathSegment::Key(k) => {
                rec.0.push('K');
                match number(k) {
                    Some(n) => rec.1.push(n),
                    None => rec.0.push_str(k),
                }
            }
        }
    }
}

// -- elements -----------------------------------------------------------------
trait Elem: Serialize + Deserialize + 'static {
    fn mk(k: i64) -> Self;
    fn feed(k: i64, out: &mut Vec<Event<'static>>);
    fn rec(&self) -> Rec;
    fn json(k: i64) -> String;
}

impl Elem for u32 {
    fn mk(k: i64) -> u32 {
        k as u32
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        out.push(Event::Atom(Atom::U64(k as u64)));
    }
    fn rec(&self) -> Rec {
        ("u".into(), vec![*self as i64])
    }
    fn json(k: i64) -> String {
        k.to_string()
    }
}
impl Elem for String {
    fn mk(k: i64) -> String {
        k.to_string()
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        out.push(Event::Atom(Atom::Str(Cow::Owned(k.to_string()))));
    }
    fn rec(&self) -> Rec {
        atom_rec(&Atom::Str(Cow::Borrowed(self)))
    }
    fn json(k: i64) -> String {
        format!("\"{}\"", k)
    }
}
impl Elem for Option<u32> {
    fn mk(k: i64) -> Option<u32> {
        Some(k as u32)
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        u32::feed(k, out)
    }
    fn rec(&self) -> Rec {
        self.as_ref().map_or(("none".into(), vec![]), |x| x.rec())
    }
    fn json(k: i64) -> String {
        k.to_string()
    }
}
impl Elem for Vec<u32> {
    fn mk(k: i64) -> Vec<u32> {
        vec![k as u32]
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        out.push(Event::SeqStart);
        u32::feed(k, out);
        out.push(Event::SeqEnd);
    }
    fn rec(&self) -> Rec {
        ("l".into(), self.iter().map(|x| *x as i64).collect())
    }
    fn json(k: i64) -> String {
        format!("[{}]", k)
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Point {
    x: u32,
}
impl Elem for Point {
    fn mk(k: i64) -> Point {
        Point { x: k as u32 }
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        out.push(Event::MapStart);
        out.push(Event::Atom(Atom::Str("x".into())));
        u32::feed(k, out);
        out.push(Event::MapEnd);
    }
    fn rec(&self) -> Rec {
        ("p".into(), vec![self.x as i64])
    }
    fn json(k: i64) -> String {
        format!("{{\"x\":{}}}", k)
    }
}

/// counted, with logged hooks
struct Counted(u32);
fn counted(n: u32) -> Counted {
    LIVE.with(|l| l.set(l.get() + 1));
    MADE.with(|l| l.set(l.get() + 1));
    Counted(n)
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
struct CountedDescriptor;
impl Descriptor for CountedDescriptor {
    fn name(&self) -> Option<&str> {
        Some("Counted")
    }
}
impl Serialize for Counted {
    fn descriptor(&self) -> &dyn Descriptor {
        &CountedDescriptor
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        push("B", vec![self.0 as i64]);
        Ok(Chunk::Atom(Atom::U64(self.0 as u64)))
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        push("F", vec![self.0 as i64]);
        Ok(())
    }
}
struct CountedSink<'a>(&'a mut Option<Counted>, Option<u32>);
impl Deserialize for Counted {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(CountedSink(out, None))
    }
}
impl Sink for CountedSink<'_> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::U64(n) => {
                self.1 = Some(n as u32);
                Ok(())
            }
            other => self.unexpected_atom(other, state),
        }
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        *self.0 = self.1.take().map(counted);
        Ok(())
    }
}
impl Elem for Counted {
    fn mk(k: i64) -> Counted {
        counted(k as u32)
    }
    fn feed(k: i64, out: &mut Vec<Event<'static>>) {
        u32::feed(k, out)
    }
    fn rec(&self) -> Rec {
        ("u".into(), vec![self.0 as i64])
    }
    fn json(k: i64) -> String {
        k.to_string()
    }
}

// -- containers -----------------------------------------------------------------
const KEY: i64 = 1_000_000;

trait Wide: Serialize + Deserialize {
    fn make(n: i64) -> Self;
    fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>);
    fn recs(&self) -> Vec<Rec>;
    fn json(n: i64, bad: i64, ws: &str) -> String;
}

fn seq_feed<E: Elem>(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
    out.push(Event::SeqStart);
    for k in 0..n {
        if k == bad {
            out.push(Event::Atom(Atom::Bool(true)));
        } else {
            E::feed(k, out);
        }
    }
    out.push(Event::SeqEnd);
}
fn seq_json<E: Elem>(n: i64, bad: i64, ws: &str) -> String {
    let mut s = format!("{}[{}", ws, ws);
    for k in 0..n {
        if k > 0 {
            s.push(',');
            s.push_str(ws);
        }
        s.push_str(&if k == bad { "true".into() } else { E::json(k) });
        s.push_str(ws);
    }
    s + "]" + ws
}
fn map_feed<K: Elem, E: Elem>(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
    out.push(Event::MapStart);
    entries_feed::<K, E>(n, bad, out);
    out.push(Event::MapEnd);
}
fn entries_feed<K: Elem, E: Elem>(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
    for k in 0..n {
        K::feed(KEY + k, out);
        if k == bad {
            out.push(Event::Atom(Atom::Bool(true)));
        } else {
            E::feed(k, out);
        }
    }
}
fn entries_json<E: Elem>(n: i64, bad: i64, ws: &str) -> String {
    let mut s = String::new();
    for k in 0..n {
        if k > 0 {
            s.push(',');
            s.push_str(ws);
        }
        s.push_str(&format!("\"{}\"{}:{}", KEY + k, ws, ws));
        s.push_str(&if k == bad { "true".into() } else { E::json(k) });
        s.push_str(ws);
    }
    s
}
fn map_json<E: Elem>(n: i64, bad: i64, ws: &str) -> String {
    format!("{}{{{}{}}}{}", ws, ws, entries_json::<E>(n, bad, ws), ws)
}
fn entry<K: Elem, E: Elem>(k: &K, e: &E) -> Rec {
    let (mut a, b) = (k.rec(), e.rec());
    a.0 = format!("{}:{}", a.0, b.0);
    a.1.extend(b.1);
    a
}

macro_rules! seqs {
    ($ty:ty, $($b:tt)*) => {
        impl<E: Elem $($b)*> Wide for $ty {
            fn make(n: i64) -> Self {
                (0..n).map(E::mk).collect()
            }
            fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
                seq_feed::<E>(n, bad, out)
            }
            fn recs(&self) -> Vec<Rec> {
                self.iter().map(|x| x.rec()).collect()
            }
            fn json(n: i64, bad: i64, ws: &str) -> String {
                seq_json::<E>(n, bad, ws)
            }
        }
    };
}
seqs!(Vec<E>,);
seqs!(BTreeSet<E>, + Ord);
seqs!(HashSet<E>, + Eq + std::hash::Hash);

impl<E: Elem, const N: usize> Wide for [E; N] {
    fn make(_: i64) -> Self {
        let v: Vec<E> = (0..N as i64).map(E::mk).collect();
        v.try_into().ok().expect("length")
    }
    fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
        seq_feed::<E>(n, bad, out)
    }
    fn recs(&self) -> Vec<Rec> {
        self.iter().map(|x| x.rec()).collect()
    }
    fn json(n: i64, bad: i64, ws: &str) -> String {
        seq_json::<E>(n, bad, ws)
    }
}
macro_rules! maps {
    ($ty:ty, $($b:tt)*) => {
        impl<K: Elem $($b)*, E: Elem> Wide for $ty {
            fn make(n: i64) -> Self {
                (0..n).map(|k| (K::mk(KEY + k), E::mk(k))).collect()
            }
            fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
                map_feed::<K, E>(n, bad, out)
            }
            fn recs(&self) -> Vec<Rec> {
                self.iter().map(|(k, v)| entry(k, v)).collect()
            }
            fn json(n: i64, bad: i64, ws: &str) -> String {
                map_json::<E>(n, bad, ws)
            }
        }
    };
}
maps!(BTreeMap<K, E>, + Ord);
maps!(HashMap<K, E>, + Eq + std::hash::Hash);

/// everything but two fields is ignored
#[derive(deser::Serialize, deser::Deserialize)]
struct Known<E: Elem> {
    a: u32,
    z: u32,
    #[deser(default)]
    never: Vec<E>,
}
impl<E: Elem> Wide for Known<E> {
    fn make(_: i64) -> Self {
        Known { a: 1, z: 2, never: vec![] }
    }
    fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
        out.push(Event::MapStart);
        String::feed(0, out);
        *out.last_mut().unwrap() = Event::Atom(Atom::Str("a".into()));
        u32::feed(1, out);
        entries_feed::<String, E>(n, bad, out);
        out.push(Event::Atom(Atom::Str("z".into())));
        u32::feed(2, out);
        out.push(Event::MapEnd);
    }
    fn recs(&self) -> Vec<Rec> {
        vec![("a".into(), vec![self.a as i64]), ("z".into(), vec![self.z as i64]), ("n".into(), vec![self.never.len() as i64])]
    }
    fn json(n: i64, bad: i64, ws: &str) -> String {
        format!("{{\"a\":1,{}{}\"z\":2}}", entries_json::<E>(n, bad, ws), if n > 0 { "," } else { "" })
    }
}

/// two fields, everything else is in the bag
#[derive(deser::Serialize, deser::Deserialize)]
struct Open<E: Elem> {
    a: u32,
    #[deser(flatten)]
    rest: Bag<E, false>,
    z: u32,
}
impl<E: Elem> Wide for Open<E> {
    fn make(n: i64) -> Self {
        Open { a: 1, rest: Bag((0..n).map(|k| (String::mk(KEY + k), E::mk(k))).collect()), z: 2 }
    }
    fn feed(n: i64, bad: i64, out: &mut Vec<Event<'static>>) {
        Known::<E>::feed(n, bad, out)
    }
    fn recs(&self) -> Vec<Rec> {
        let mut v = vec![("a".into(), vec![self.a as i64])];
        v.extend(self.rest.0.iter().map(|(k, v)| entry(k, v)));
        v.push(("z".into(), vec![self.z as i64]));
        v
    }
    fn json(n: i64, bad: i64, ws: &str) -> String {
        Known::<E>::json(n, bad, ws)
    }
}

// -- a sink that takes anything --------------------------------------------------
struct Any;
/// (a key's path is open)
struct AnySink<'a>(Option<&'a mut Option<Any>>, bool);

impl Deserialize for Any {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(AnySink(Some(out), false))
    }
}
impl Sink for AnySink<'_> {
    fn atom(&mut self, atom: Atom, st: &DeserializerState) -> Result<(), Error> {
        let mut r = atom_rec(&atom);
        r.1.push(st.depth() as i64);
        if PATHS.with(|p| p.get()) && !self.1 {
            path_to(&mut r, &st.get::<Path>());
        }
        RECS.with(|x| x.borrow_mut().push(r));
        Ok(())
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        push("M", vec![st.depth() as i64]);
        Ok(())
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        push("S", vec![st.depth() as i64]);
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(SinkHandle::boxed(AnySink(None, true)))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(SinkHandle::boxed(AnySink(None, false)))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        push("F", vec![]);
        if let Some(ref mut out) = self.0 {
            **out = Some(Any);
        }
        Ok(())
    }
}

// -- the runs -----------------------------------------------------------------------
fn drive(value: &dyn Serialize, path: bool, stop: i64) -> String {
    let wrapped;
    let root: &dyn Serialize = if path {
        wrapped = PathSerializable::wrap(value);
        &wrapped
    } else {
        value
    };
    let mut driver = SerializeDriver::new(root);
    let mut n = 0;
    // keys: their path is open
    let mut stack: Vec<Option<bool>> = vec![];
    loop {
        if n == stop {
            return "left".into();
        }
        n += 1;
        match driver.next() {
            Ok(Some((event, desc, st))) => {
                let mut rec = match event {
                    Event::Atom(ref a) => atom_rec(a),
                    Event::MapStart => ("M".into(), vec![]),
                    Event::MapEnd => ("m".into(), vec![]),
                    Event::SeqStart => ("S".into(), vec![]),
                    Event::SeqEnd => ("s".into(), vec![]),
                };
                rec.0.push(':');
                rec.0.push_str(desc.name().unwrap_or(""));
                rec.1.push(st.depth() as i64);
                if matches!(event, Event::MapEnd | Event::SeqEnd) {
                    stack.pop();
                }
                let key = stack.last() == Some(&Some(true));
                if path && !key {
                    path_to(&mut rec, &st.get::<Path>());
                }
                match event {
                    Event::MapStart => stack.push(Some(true)),
                    Event::SeqStart => stack.push(None),
                    // a key or a value is complete
                    _ => {
                        if let Some(Some(k)) = stack.last_mut() {
                            *k = !*k;
                        }
                    }
                }
                RECS.with(|r| r.borrow_mut().push(rec));
            }
            Ok(None) => return if driver.state().depth() == 0 { "ok".into() } else { "depth left".into() },
            Err(e) => return kind(&e),
        }
    }
}

fn feed(driver: &mut DeserializeDriver, evs: Vec<Event<'static>>, stop: i64) -> String {
    for (k, e) in evs.into_iter().enumerate() {
        if k as i64 == stop {
            return "left".into();
        }
        if let Err(e) = driver.emit(e) {
            return kind(&e);
        }
    }
    if driver.state().depth() == 0 {
        "ok".into()
    } else {
        "depth left".into()
    }
}

/// numbers, and what is between them
fn pieces(s: &str) -> Vec<Rec> {
    let mut out: Vec<Rec> = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let d = b[i].is_ascii_digit();
        let mut j = i;
        while j < b.len() && b[j].is_ascii_digit() == d {
            j += 1;
        }
        let t = String::from_utf8_lossy(&b[i..j]).to_string();
        out.push(match number(&t) {
            Some(n) => ("#".into(), vec![n]),
            None => (t, vec![]),
        });
        i = j;
    }
    out
}

struct Given<'a> {
    mode: &'a str,
    n: i64,
    stop: i64,
    bad: i64,
    ws: String,
}

fn from_text<T: Deserialize>(t: &str) -> Result<T, Error> {
    if t.len() % 2 == 0 {
        deser_json::from_str(t)
    } else {
        deser_json::Deserializer::new(t.as_bytes()).deserialize()
    }
}

fn any<'a>(case: &Given, evs: Option<Vec<Event<'static>>>, text: Option<&str>) -> String {
    let mut out = None::<Any>;
    PATHS.with(|p| p.set(case.mode == "depath"));
    let r = match (evs, text) {
        (_, Some(t)) => match from_text::<Any>(t) {
            Ok(_) => return "ok".into(),
            Err(e) => return kind(&e),
        },
        (Some(evs), _) => {
            let h = Any::deserialize_into(&mut out);
            let mut driver = DeserializeDriver::from_sink(if case.mode == "depath" { SinkHandle::boxed(PathSink::wrap_ref(h)) } else { h });
            feed(&mut driver, evs, case.stop)
        }
        _ => panic!("case format: nothing"),
    };
    if r == "ok" && out.is_none() {
        return "no value".into();
    }
    r
}

fn text_of(value: &dyn Serialize, form: &str) -> Result<String, Error> {
    match form {
        "write" => deser_json::to_string(value),
        "debug" => Ok(format!("{:?}", deser_debug::ToDebug::new(value))),
        _ => Ok(format!("{:#?}", deser_debug::ToDebug::new(value))),
    }
}

fn out_only(value: &dyn Serialize, c: &Given) -> (String, Vec<Rec>) {
    match c.mode {
        "ser" | "serpath" => {
            let r = drive(value, c.mode == "serpath", c.stop);
            (r, take())
        }
        _ => match text_of(value, c.mode) {
            Ok(s) => ("ok".into(), pieces(&s)),
            Err(e) => (kind(&e), vec![]),
        },
    }
}

fn typed<T: Wide>(c: &Given) -> (String, Vec<Rec>) {
    let done = |r: String, v: &Option<T>| {
        let recs = v.as_ref().map_or(vec![], |x| x.recs());
        take();
        if r == "ok" && v.is_none() {
            ("no value".into(), recs)
        } else {
            (r, recs)
        }
    };
    let events = || {
        let mut evs = vec![];
        T::feed(c.n, c.bad, &mut evs);
        evs
    };
    match c.mode {
        "de" | "depathtyped" => {
            let mut out = None::<T>;
            let r = {
                let mut d = if c.mode == "de" {
                    DeserializeDriver::new(&mut out)
                } else {
                    DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))))
                };
                feed(&mut d, events(), c.stop)
            };
            done(r, &out)
        }
        "derec" | "depath" => {
            let r = any(c, Some(events()), None);
            (r, take())
        }
        // copied events of a value that is gone
        "replay" => {
            let v = T::make(c.n);
            let (evs, r) = crate::ops::static_events(&v);
            drop(v);
            if r != "end" && r != "ok" {
                return (r, vec![]);
            }
            let mut out = None::<T>;
            let r = {
                let mut d = DeserializeDriver::new(&mut out);
                feed(&mut d, evs, c.stop)
            };
            done(r, &out)
        }
        "parse" => match from_text::<T>(&T::json(c.n, c.bad, &c.ws)) {
            Ok(v) => done("ok".into(), &Some(v)),
            Err(e) => (kind(&e), vec![]),
        },
        "parserec" => {
            let r = any(c, None, Some(&T::json(c.n, c.bad, &c.ws)));
            (r, take())
        }
        // what was written is read again
        "text" => match deser_json::to_string(&T::make(c.n)).and_then(|t| from_text::<T>(&t)) {
            Ok(v) => done("ok".into(), &Some(v)),
            Err(e) => (kind(&e), vec![]),
        },
        _ => out_only(&T::make(c.n), c),
    }
}

// -- long atoms -------------------------------------------------------------------------
fn segs(case: &J) -> Vec<(u32, usize)> {
    case.get("segs").arr().iter().map(|x| (x.arr()[0].int() as u32, x.arr()[1].int() as usize)).collect()
}
fn chars(s: &str) -> Vec<Rec> {
    s.chars().map(|c| ("c".into(), vec![c as i64])).collect()
}
fn bytes(b: &[u8]) -> Vec<Rec> {
    b.iter().map(|c| ("b".into(), vec![*c as i64])).collect()
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Name {
    #[deser(rename = "k")]
    k: BTreeMap<String, u32>,
}

fn long_text(case: &J, c: &Given) -> (String, Vec<Rec>) {
    let s: String = segs(case).iter().map(|(c, n)| std::iter::repeat(char::from_u32(*c).expect("case format: char")).take(*n).collect::<String>()).collect();
    let answer = |r: Result<String, Error>| match r {
        Ok(s) => ("ok".to_string(), chars(&s)),
        Err(e) => (kind(&e), vec![]),
    };
    let quoted = |style: &str| {
        let mut t = String::from("\"");
        for ch in s.chars() {
            let mut b = [0u16; 2];
            match ch {
                '"' | '\\' if style == "raw" => {
                    t.push('\\');
                    t.push(ch);
                }
                c if style == "raw" && c >= ' ' => t.push(c),
                c => c.encode_utf16(&mut b).iter().for_each(|u| t.push_str(&format!("\\u{:04x}", u))),
            }
        }
        t + "\""
    };
    match c.mode {
        "ser" => {
            let mut driver = SerializeDriver::new(&s);
            let x = match driver.next() {
                Ok(Some((Event::Atom(Atom::Str(x)), _, _))) => answer(Ok(x.to_string())),
                Ok(_) => ("not a string".into(), vec![]),
                Err(e) => answer(Err(e)),
            };
            x
        }
        "de" => {
            let mut out = None::<String>;
            let r = {
                let mut d = DeserializeDriver::new(&mut out);
                d.emit(Event::Atom(Atom::Str(Cow::Borrowed(&s))))
            };
            answer(r.map(|_| out.unwrap_or_default()))
        }
        "static" => answer(Ok(match Event::Atom(Atom::Str(Cow::Borrowed(&s))).to_static() {
            Event::Atom(Atom::Str(x)) => x.to_string(),
            _ => "?".into(),
        })),
        "write" => answer(deser_json::to_string(&s)),
        "debug" => answer(Ok(format!("{:?}", deser_debug::ToDebug::new(&s)))),
        "parse" => answer(from_text::<String>(&quoted("raw"))),
        "parseu" => answer(from_text::<String>(&quoted("u"))),
        // as a key
        "keys" => {
            let n = Name { k: std::iter::once((s.clone(), 7)).collect() };
            answer(deser_json::to_string(&n).and_then(|t| from_text::<Name>(&t)).map(|x| x.k.into_keys().collect()))
        }
        "keypath" => {
            let m: BTreeMap<String, u32> = std::iter::once((s.clone(), 7)).collect();
            let w = PathSerializable::wrap(&m);
            let mut driver = SerializeDriver::new(&w);
            let mut found = String::new();
            while let Ok(Some((e, _, st))) = driver.next() {
                if e == Event::Atom(Atom::U64(7)) {
                    if let [PathSegment::Key(k)] = st.get::<Path>().segments() {
                        found = k.to_string();
                    }
                }
            }
            answer(Ok(found))
        }
        x => panic!("case format: mode {}", x),
    }
}

fn long_bytes(case: &J, c: &Given) -> (String, Vec<Rec>) {
    let b: Vec<u8> = segs(case).iter().flat_map(|(c, n)| std::iter::repeat(*c as u8).take(*n)).collect();
    let answer = |r: Result<Vec<u8>, Error>| match r {
        Ok(s) => ("ok".to_string(), bytes(&s)),
        Err(e) => (kind(&e), vec![]),
    };
    fn read<T: Deserialize>(e: Event) -> Result<Option<T>, Error> {
        let mut out = None::<T>;
        {
            let mut d = DeserializeDriver::new(&mut out);
            d.emit(e)?;
        }
        Ok(out)
    }
    let event = Event::Atom(Atom::Bytes(Cow::Borrowed(&b)));
    match c.mode {
        "ser" | "serslice" => {
            let sl = &b[..];
            let v: &dyn Serialize = if c.mode == "ser" { &b } else { &sl };
            let mut driver = SerializeDriver::new(v);
            let x = match driver.next() {
                Ok(Some((Event::Atom(Atom::Bytes(x)), _, _))) => answer(Ok(x.to_vec())),
                Ok(_) => ("not bytes".into(), vec![]),
                Err(e) => answer(Err(e)),
            };
            x
        }
        "de" => answer(read::<Vec<u8>>(event).map(|x| x.unwrap_or_default())),
        "dearr" => answer(read::<[u8; 65537]>(event).map(|x| x.map_or(vec![], |y| y.to_vec()))),
        "static" => answer(Ok(match event.to_static() {
            Event::Atom(Atom::Bytes(x)) => x.to_vec(),
            _ => vec![],
        })),
        "debug" => answer(Ok(format!("{:?}", deser_debug::ToDebug::new(&b)).into_bytes())),
        x => panic!("case format: mode {}", x),
    }
}

/// numbers with many digits
fn long_number(case: &J) -> (String, Vec<Rec>) {
    let t: String = case.get("segs").arr().iter().map(|x| x.arr()[0].str().repeat(x.arr()[1].int() as usize)).collect();
    match from_text::<f64>(&t) {
        // whole numbers only
        Ok(x) if x == x.trunc() && x.abs() < 1e9 => ("ok".into(), vec![("f".into(), vec![x as i64])]),
        Ok(x) => ("ok".into(), vec![(format!("{:e}", x), vec![])]),
        Err(e) => (kind(&e), vec![]),
    }
}

fn run(case: &J) -> (String, Vec<Rec>) {
    let c = Given {
        mode: case.get("mode").str(),
        n: case.get("n").int(),
        stop: case.get("stop").int(),
        bad: case.get("bad").int(),
        ws: case.get("ws").arr().iter().map(|x| x.arr()[0].str().repeat(x.arr()[1].int() as usize)).collect(),
    };
    macro_rules! elems {
        ($c:ident, $ek:expr, $($n:literal $t:ty),*) => {
            match $ek {
                $($n => typed::<$c<$t>>(&c),)*
                x => panic!("case format: element {}", x),
            }
        };
    }
    macro_rules! pairs {
        ($c:ident, $ek:expr, $($n:literal $k:ty, $t:ty);*) => {
            match $ek {
                $($n => typed::<$c<$k, $t>>(&c),)*
                x => panic!("case format: element {}", x),
            }
        };
    }
    let ek = case.get("ek").str();
    match case.get("ct").str() {
        "vec" => elems!(Vec, ek, "u" u32, "s" String, "l" Vec<u32>, "t" Counted, "p" Point, "o" Option<u32>),
        "bset" => elems!(BTreeSet, ek, "u" u32, "s" String, "l" Vec<u32>),
        "hset" => elems!(HashSet, ek, "u" u32, "s" String),
        "known" => elems!(Known, ek, "u" u32, "l" Vec<u32>, "p" Point, "s" String),
        "open" => elems!(Open, ek, "u" u32, "l" Vec<u32>, "p" Point, "s" String, "t" Counted),
        "bmap" => pairs!(BTreeMap, ek, "uu" u32, u32; "su" String, u32; "ul" u32, Vec<u32>; "ut" u32, Counted; "sp" String, Point; "ss" String, String; "sl" String, Vec<u32>),
        "hmap" => pairs!(HashMap, ek, "uu" u32, u32; "su" String, u32; "ut" u32, Counted; "ss" String, String; "sp" String, Point; "sl" String, Vec<u32>),
        "slice" => {
            macro_rules! slices {
                ($($n:literal $t:ty),*) => {
                    match ek {
                        $($n => {
                            let v = Vec::<$t>::make(c.n);
                            out_only(&&v[..], &c)
                        })*
                        x => panic!("case format: element {}", x),
                    }
                };
            }
            slices!("u" u32, "s" String, "l" Vec<u32>, "t" Counted, "p" Point, "o" Option<u32>)
        }
        "arr" => match (ek, case.get("len").int()) {
            ("u", 3) => typed::<[u32; 3]>(&c),
            ("u", 300) => typed::<[u32; 300]>(&c),
            ("u", 65537) => typed::<[u32; 65537]>(&c),
            ("t", 300) => typed::<[Counted; 300]>(&c),
            ("t", 65537) => typed::<[Counted; 65537]>(&c),
            x => panic!("case format: array {:?}", x),
        },
        "text" => long_text(case, &c),
        "bytes" => long_bytes(case, &c),
        "number" => long_number(case),
        x => panic!("case format: container {}", x),
    }
}

/// sections of groups of a number of records; equal steps are one line
fn grouped(recs: Vec<Rec>, sections: &[(usize, usize)], sort: bool) -> J {
    let mut out: Vec<J> = vec![];
    let mut rest = &recs[..];
    for (count, period) in sections.iter().chain(std::iter::once(&(usize::MAX, 1))) {
        let take = rest.len().min(*count) / period * period;
        let mut groups: Vec<(Vec<&str>, Vec<i64>)> =
            rest[..take].chunks(*period).map(|g| (g.iter().map(|r| &r.0[..]).collect(), g.iter().flat_map(|r| r.1.clone()).collect())).collect();
        rest = &rest[take..];
        if sort {
            groups.sort_by(|a, b| a.1.cmp(&b.1));
        }
        let mut i = 0;
        while i < groups.len() {
            let (tags, start) = groups[i].clone();
            let mut step = vec![0; start.len()];
            let mut j = i + 1;
            while j < groups.len() && groups[j].0 == tags && groups[j].1.len() == start.len() {
                let d: Vec<i64> = groups[j].1.iter().zip(&groups[j - 1].1).map(|(a, b)| a - b).collect();
                if j == i + 1 {
                    step = d;
                } else if d != step {
                    break;
                }
                j += 1;
            }
            let ints = |v: &[i64]| J::Arr(v.iter().map(|x| J::Int(*x)).collect());
            out.push(J::Arr(vec![J::Arr(tags.iter().map(|t| J::s(t)).collect()), ints(&start), ints(&step), J::Int((j - i) as i64)]));
            if out.len() > 200 {
                // certainly not what was expected
                return J::Arr(out);
            }
            i = j;
        }
    }
    J::Arr(out)
}

pub fn op_wide(case: &J) -> J {
    take();
    LIVE.with(|l| l.set(0));
    MADE.with(|l| l.set(0));
    let (res, recs) = match guarded(|| run(case)) {
        Ok(x) => x,
        Err(m) => return obj(vec![("id", case.get("id").clone()), ("crash", J::Str(m))]),
    };
    let sections: Vec<(usize, usize)> = case.get("sections").arr().iter().map(|x| (x.arr()[0].int() as usize, x.arr()[1].int() as usize)).collect();
    let sort = case.get("sort").int() == 1;
    let mut o = match case {
        J::Obj(o) => o.clone(),
        _ => vec![],
    };
    o.push(("res".into(), J::Str(res)));
    o.push(("total".into(), J::Int(recs.len() as i64)));
    o.push(("runs".into(), grouped(recs, &sections, sort)));
    o.push(("live".into(), J::Int(LIVE.with(|l| l.get()))));
    o.push(("made".into(), J::Int(MADE.with(|l| l.get()))));
    obj(o.iter().map(|(k, v)| (k.as_str(), v.clone())).collect())
}
