//! Deeply nested data on a small stack.
use crate::guarded;
use crate::json::{obj, J};
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState};
use deser::{Atom, Error, ErrorKind, Event, Serialize};
use deser_path::{PathSerializable, PathSink};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

const STACK: usize = 256 * 1024;

thread_local! {
    static BASE: Cell<usize> = Cell::new(0);
    static EARLY: Cell<usize> = Cell::new(0);
    static LATE: Cell<usize> = Cell::new(0);
    static FULL: Cell<bool> = Cell::new(true);
    static EV: RefCell<Vec<J>> = RefCell::new(vec![]);
    static DP: RefCell<Vec<J>> = RefCell::new(vec![]);
    static COUNT: Cell<i64> = Cell::new(0);
    static PAT: RefCell<Vec<u8>> = RefCell::new(vec![]);
    static DEPTH: Cell<usize> = Cell::new(0);
    static FAIL_LEAF: Cell<bool> = Cell::new(false);
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

/// a callback at a depth
fn mark(depth: usize) {
    let used = BASE.with(|b| b.get()).abs_diff(here());
    if depth <= 16 {
        EARLY.with(|e| e.set(e.get().max(used)));
    }
    LATE.with(|e| e.set(e.get().max(used)));
}

fn log(code: i64, depth: i64) {
    COUNT.with(|c| c.set(c.get() + 1));
    if FULL.with(|f| f.get()) {
        EV.with(|e| e.borrow_mut().push(J::Int(code)));
        DP.with(|e| e.borrow_mut().push(J::Int(depth)));
    }
}

/// is the container of that level (from 0) a map
fn is_map(level: usize) -> bool {
    PAT.with(|p| {
        let p = p.borrow();
        p[level % p.len()] == b'M'
    })
}

// -- serialization --------------------------------------------------------
/// the container of a level, or the leaf
struct Deep(usize);
struct DeepEm(usize, bool);

impl Serialize for Deep {
    fn serialize(&self, st: &SerializerState) -> Result<Chunk, Error> {
        mark(st.depth());
        if self.0 >= DEPTH.with(|d| d.get()) {
            if FAIL_LEAF.with(|f| f.get()) {
                return Err(Error::new(ErrorKind::EndOfFile, "leaf"));
            }
            return Ok(Chunk::Atom(Atom::U64(1)));
        }
        Ok(if is_map(self.0) {
            Chunk::Map(Box::new(DeepEm(self.0, false)))
        } else {
            Chunk::Seq(Box::new(DeepEm(self.0, false)))
        })
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        mark(st.depth());
        Ok(())
    }
}
impl SeqEmitter for DeepEm {
    fn next(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        mark(st.depth());
        if std::mem::replace(&mut self.1, true) {
            return Ok(None);
        }
        Ok(Some(SerializeHandle::boxed(Deep(self.0 + 1))))
    }
}
impl MapEmitter for DeepEm {
    fn next_key(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        mark(st.depth());
        if std::mem::replace(&mut self.1, true) {
            return Ok(None);
        }
        Ok(Some(SerializeHandle::to(&"k")))
    }
    fn next_value(&mut self, st: &SerializerState) -> Result<SerializeHandle, Error> {
        mark(st.depth());
        Ok(SerializeHandle::boxed(Deep(self.0 + 1)))
    }
}

fn code(e: &Event) -> i64 {
    match e {
        Event::SeqStart => 1,
        Event::SeqEnd => 2,
        Event::MapStart => 3,
        Event::MapEnd => 4,
        Event::Atom(Atom::Str(s)) if s == "k" => 5,
        Event::Atom(Atom::U64(1)) | Event::Atom(Atom::Null) => 6,
        _ => 0,
    }
}

fn run_ser(v: &dyn Serialize, stop: i64) -> String {
    BASE.with(|b| b.set(here()));
    let mut driver = SerializeDriver::new(v);
    loop {
        if COUNT.with(|c| c.get()) == stop {
            return "left".into();
        }
        match driver.next() {
            Ok(Some((e, _, st))) => {
                let c = code(&e);
                let d = st.depth();
                log(c, d as i64)
            }
            Ok(None) => return "ok".into(),
            Err(e) => return crate::ops::kind(&e),
        }
    }
}

// -- deserialization ------------------------------------------------------
/// a sink of no own content
struct Pit {
    level: usize,
    map: bool,
    iskey: bool,
    slot: Option<Box<Pit>>,
}

fn pit(level: usize, iskey: bool) -> Pit {
    Pit { level, map: false, iskey, slot: None }
}

impl Pit {
    fn child(&mut self, iskey: bool) -> SinkHandle<'_> {
        if self.level % 3 == 1 {
            self.slot = Some(Box::new(pit(self.level + 1, iskey)));
            SinkHandle::to(&mut **self.slot.as_mut().unwrap())
        } else {
            SinkHandle::boxed(pit(self.level + 1, iskey))
        }
    }
}

impl Sink for Pit {
    fn atom(&mut self, a: Atom, st: &DeserializerState) -> Result<(), Error> {
        mark(st.depth());
        if !self.iskey && FAIL_LEAF.with(|f| f.get()) {
            return Err(Error::new(ErrorKind::EndOfFile, "leaf"));
        }
        let ok = match a {
            Atom::Str(ref s) => self.iskey && s == "k",
            Atom::U64(1) => !self.iskey,
            _ => false,
        };
        log(if !ok { 0 } else if self.iskey { 5 } else { 6 }, st.depth() as i64);
        Ok(())
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        mark(st.depth());
        self.map = true;
        log(3, st.depth() as i64);
        Ok(())
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        mark(st.depth());
        log(1, st.depth() as i64);
        Ok(())
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        mark(st.depth());
        Ok(self.child(true))
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        mark(st.depth());
        Ok(self.child(false))
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        mark(st.depth());
        let n = DEPTH.with(|d| d.get());
        if !self.iskey && self.level < n {
            log(if self.map { 4 } else { 2 }, -1);
        }
        Ok(())
    }
}

struct Bottomless;
impl Deserialize for Bottomless {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        *out = Some(Bottomless);
        SinkHandle::boxed(pit(0, false))
    }
}

/// the events of the pattern, up to the stop
fn feed(driver: &mut DeserializeDriver, leaf: bool, null: bool, stop: i64) -> String {
    let n = DEPTH.with(|d| d.get());
    let mut k = 0;
    let mut emit = |e: Event| -> Result<bool, Error> {
        if k == stop {
            return Ok(false);
        }
        k += 1;
        driver.emit(e)?;
        Ok(true)
    };
    let mut all = || -> Result<bool, Error> {
        for l in 0..n {
            if is_map(l) {
                if !emit(Event::MapStart)? {
                    return Ok(false);
                }
                // the innermost map is empty without a leaf
                if (leaf || l + 1 < n) && !emit(Event::Atom(Atom::Str("k".into())))? {
                    return Ok(false);
                }
            } else if !emit(Event::SeqStart)? {
                return Ok(false);
            }
        }
        if leaf && !emit(Event::Atom(if null { Atom::Null } else { Atom::U64(1) }))? {
            return Ok(false);
        }
        for l in (0..n).rev() {
            if !emit(if is_map(l) { Event::MapEnd } else { Event::SeqEnd })? {
                return Ok(false);
            }
        }
        Ok(true)
    };
    let r = match all() {
        Ok(true) => "ok".into(),
        Ok(false) => "left".into(),
        Err(e) => crate::ops::kind(&e),
    };
    if r == "ok" && driver.state().depth() != 0 {
        return "depth left".into();
    }
    r
}

fn run_de(sink: SinkHandle, leaf: bool, null: bool, stop: i64) -> String {
    BASE.with(|b| b.set(here()));
    let mut driver = DeserializeDriver::from_sink(sink);
    feed(&mut driver, leaf, null, stop)
}

fn json_text(leaf: bool, stop: i64) -> String {
    let n = DEPTH.with(|d| d.get());
    let mut s = String::new();
    for l in 0..n {
        s.push_str(if !is_map(l) {
            "["
        } else if leaf || l + 1 < n {
            "{\"k\":"
        } else {
            "{"
        });
    }
    if leaf {
        s.push('1');
    }
    for l in (0..n).rev() {
        s.push(if is_map(l) { '}' } else { ']' });
    }
    if (stop as usize) < s.len() {
        s.truncate(stop as usize);
    }
    s
}

// -- typed values, dropped without recursion --------------------------------
/// pattern M: a list
#[derive(deser::Serialize, deser::Deserialize, Default)]
struct List {
    k: Option<Box<List>>,
}
impl Drop for List {
    fn drop(&mut self) {
        let mut cur = self.k.take();
        while let Some(mut x) = cur {
            cur = x.k.take();
        }
    }
}
/// pattern MS: a tree
#[derive(deser::Serialize, deser::Deserialize, Default)]
struct Tree {
    k: Vec<Tree>,
}
impl Drop for Tree {
    fn drop(&mut self) {
        let mut todo = std::mem::take(&mut self.k);
        while let Some(mut x) = todo.pop() {
            todo.append(&mut x.k);
        }
    }
}
/// pattern MM: a tree of maps, flattening and newtypes on the way
#[derive(deser::Serialize, deser::Deserialize, Default)]
struct Maps {
    #[deser(flatten)]
    inner: MapsIn,
}
#[derive(deser::Serialize, deser::Deserialize, Default)]
struct MapsIn {
    k: Kids,
}
#[derive(deser::Serialize, deser::Deserialize, Default)]
struct Kids(BTreeMap<String, Maps>);
impl Drop for Maps {
    fn drop(&mut self) {
        let mut todo: Vec<Maps> = std::mem::take(&mut self.inner.k.0).into_iter().map(|x| x.1).collect();
        while let Some(mut x) = todo.pop() {
            todo.extend(std::mem::take(&mut x.inner.k.0).into_iter().map(|x| x.1));
        }
    }
}
/// ignores everything in it
#[derive(deser::Deserialize)]
struct Nothing {
    #[allow(dead_code)]
    #[deser(default)]
    other: u8,
}

trait Typed: Serialize + Deserialize {
    fn build(levels: usize) -> Self;
    /// number of levels
    fn count(&self) -> usize;
}
impl Typed for List {
    fn build(levels: usize) -> List {
        (1..levels).fold(List { k: None }, |a, _| List { k: Some(Box::new(a)) })
    }
    fn count(&self) -> usize {
        let mut n = 1;
        let mut x = self;
        while let Some(ref y) = x.k {
            n += 1;
            x = y;
        }
        n
    }
}
impl Typed for Tree {
    fn build(levels: usize) -> Tree {
        (1..levels / 2).fold(Tree { k: vec![] }, |a, _| Tree { k: vec![a] })
    }
    fn count(&self) -> usize {
        let mut n = 2;
        let mut x = self;
        while let Some(y) = x.k.first() {
            n += 2;
            x = y;
        }
        n
    }
}
impl Typed for Maps {
    fn build(levels: usize) -> Maps {
        (1..levels / 2).fold(Maps::default(), |a, _| {
            let mut m = BTreeMap::new();
            m.insert("k".into(), a);
            Maps { inner: MapsIn { k: Kids(m) } }
        })
    }
    fn count(&self) -> usize {
        let mut n = 2;
        let mut x = self;
        while let Some((_, y)) = x.inner.k.0.iter().next() {
            n += 2;
            x = y;
        }
        n
    }
}

fn typed<T: Typed>(mode: &str, n: usize, leaf: bool, stop: i64) -> (String, i64, Vec<u8>) {
    match mode {
        "ser" => (run_ser(&T::build(n), stop), -1, vec![]),
        "serpath" => {
            let v = T::build(n);
            let w = PathSerializable::wrap(&v);
            let r = run_ser(&w, stop);
            (r, -1, vec![])
        }
        "write" => {
            let v = T::build(n);
            BASE.with(|b| b.set(here()));
            match deser_json::to_string(&v) {
                Ok(s) => ("ok".into(), -1, s.into_bytes()),
                Err(e) => (crate::ops::kind(&e), -1, vec![]),
            }
        }
        "de" | "depath" => {
            let mut out = None::<T>;
            let r = if mode == "de" {
                run_de(T::deserialize_into(&mut out), leaf, true, stop)
            } else {
                run_de(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))), leaf, true, stop)
            };
            let c = out.as_ref().map_or(-1, |x| x.count() as i64);
            (r, c, vec![])
        }
        "parse" => {
            let t = json_text(leaf, stop).replace('1', "null");
            match deser_json::from_str::<T>(&t) {
                Ok(v) => ("ok".into(), v.count() as i64, vec![]),
                Err(e) => (crate::ops::kind(&e), -1, vec![]),
            }
        }
        x => panic!("case format: mode {}", x),
    }
}

fn run(case: &J) -> J {
    let mode = case.get("mode").str();
    let ty = case.get("type").str();
    let n = case.get("n").int() as usize;
    let leaf = case.get("leaf").int() == 1;
    let stop = case.get("stop").int();
    let stop = if stop < 0 { i64::MAX } else { stop };
    PAT.with(|p| *p.borrow_mut() = case.get("pat").str().bytes().collect());
    DEPTH.with(|d| d.set(n));
    FULL.with(|f| f.set(case.get("full").int() == 1));
    FAIL_LEAF.with(|f| f.set(case.get("bad").int() == 1));
    COUNT.with(|c| c.set(0));
    EARLY.with(|c| c.set(0));
    LATE.with(|c| c.set(0));
    let (res, count, text) = match ty {
        "list" => typed::<List>(mode, n, leaf, stop),
        "tree" => typed::<Tree>(mode, n, leaf, stop),
        "maps" => typed::<Maps>(mode, n, leaf, stop),
        "ignored" => {
            let mut out = None::<Nothing>;
            match mode {
                "de" => (run_de(SinkHandle::null(), leaf, false, stop), -1, vec![]),
                "defield" => (run_de(Nothing::deserialize_into(&mut out), leaf, false, stop), -1, vec![]),
                "parse" => match deser_json::from_str::<Nothing>(&json_text(leaf, stop)) {
                    Ok(_) => ("ok".into(), -1, vec![]),
                    Err(e) => (crate::ops::kind(&e), -1, vec![]),
                },
                x => panic!("case format: mode {}", x),
            }
        }
        _ => match mode {
            "ser" => (run_ser(&Deep(0), stop), -1, vec![]),
            "serpath" => (run_ser(&PathSerializable::wrap(&Deep(0)), stop), -1, vec![]),
            "write" => {
                BASE.with(|b| b.set(here()));
                match deser_json::to_string(&Deep(0)) {
                    Ok(s) => ("ok".into(), -1, s.into_bytes()),
                    Err(e) => (crate::ops::kind(&e), -1, vec![]),
                }
            }
            "de" => (run_de(SinkHandle::boxed(pit(0, false)), leaf, false, stop), -1, vec![]),
            "debor" => {
                let mut p = pit(0, false);
                (run_de(SinkHandle::to(&mut p), leaf, false, stop), -1, vec![])
            }
            "depath" => (
                run_de(SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(pit(0, false)))), leaf, false, stop),
                -1,
                vec![],
            ),
            "parse" => {
                let t = json_text(leaf, stop);
                BASE.with(|b| b.set(here()));
                match deser_json::from_str::<Bottomless>(&t) {
                    // nothing is made of it
                    Ok(_) => ("ok".into(), -1, vec![]),
                    Err(e) => (crate::ops::kind(&e), -1, vec![]),
                }
            }
            x => panic!("case format: mode {}", x),
        },
    };
    let full = case.get("full").int() == 1;
    let mut o = match case {
        J::Obj(o) => o.clone(),
        _ => vec![],
    };
    let mut add = |k: &str, v: J| o.push((k.into(), v));
    add("res", J::Str(res));
    add("value", J::Int(count));
    add("count", J::Int(if mode == "write" { text.len() as i64 } else { COUNT.with(|c| c.get()) }));
    add(
        "ev",
        if mode == "write" && full {
            crate::canon::bytes_j(&text)
        } else {
            J::Arr(EV.with(|e| std::mem::take(&mut *e.borrow_mut())))
        },
    );
    add("dp", J::Arr(DP.with(|e| std::mem::take(&mut *e.borrow_mut()))));
    add("early", J::Int(EARLY.with(|c| c.get()) as i64));
    add("late", J::Int(LATE.with(|c| c.get()) as i64));
    obj(o.iter().map(|(k, v)| (k.as_str(), v.clone())).collect())
}

pub fn op_nest(case: &J) -> J {
    // a stack that is far too small for one frame per level
    let text = case.text();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let case = J::parse(&text);
            match guarded(|| run(&case)) {
                Ok(r) => r.text(),
                Err(m) => obj(vec![("id", case.get("id").clone()), ("crash", J::Str(m))]).text(),
            }
        })
        .expect("thread")
        .join()
        .map(|x| J::parse(&x))
        .unwrap_or(J::Null)
}
