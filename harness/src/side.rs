//! Other users of the library on the same thread.  In some cases they are
//! active in the middle of what is observed: whole runs inside of callbacks,
//! and two drivers that advance a step at a time.  Whatever they do has to come
//! out as it did when nothing else was going on, and leaves no trace in what is
//! observed.
use crate::canon::event_j;
use crate::ops::desc_j;
use crate::record::path_j;
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser::ser::SerializeDriver;
use deser::{Atom, Event, Serialize};
use deser_path::{Path, PathSerializable, PathSink};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

#[derive(deser::Serialize, deser::Deserialize, Debug, Clone)]
#[deser(rename_all = "camelCase")]
struct Extra {
    low_value: i8,
    #[deser(default)]
    notes: Vec<String>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, Clone)]
#[deser(rename = "Side", skip_serializing_optionals)]
struct Stuff {
    name: String,
    list: Vec<Option<f64>>,
    #[deser(flatten)]
    extra: Extra,
    #[deser(alias = "tbl")]
    table: BTreeMap<String, Vec<u16>>,
    none: Option<bool>,
    pair: (char, [i64; 2]),
}

fn stuff() -> Stuff {
    Stuff {
        name: "s\u{e4}\n\"\u{1f600}\u{1}".into(),
        list: vec![Some(0.1), None, Some(-2.5e-7)],
        extra: Extra { low_value: -7, notes: vec!["".into(), "x\\y".into()] },
        table: vec![("k\t".to_string(), vec![1, 65535]), ("".to_string(), vec![])].into_iter().collect(),
        none: None,
        pair: ('\u{fe}', [i64::MIN, 3]),
    }
}

/// number of events it is worth looking at
fn events() -> Vec<Event<'static>> {
    let v = stuff();
    let mut d = SerializeDriver::new(&v);
    let mut out = vec![];
    while let Ok(Some((e, _, _))) = d.next() {
        out.push(e.to_static());
    }
    out
}

/// one look at a serialization
fn look(d: &mut SerializeDriver) -> Option<String> {
    match d.next() {
        Ok(Some((e, desc, st))) => Some(format!("{} {} {} {}", event_j(&e).text(), desc_j(desc).text(), st.depth(), path_j(&st.get::<Path>()).text())),
        Ok(None) => None,
        Err(e) => Some(e.to_string()),
    }
}
fn tell(d: &mut DeserializeDriver, e: Event) -> String {
    let r = d.emit(e);
    let st = d.state();
    format!("{:?} {} {:?} {}", r.map_err(|e| e.to_string()), st.depth(), st.top_descriptor().map(|x| desc_j(x).text()), path_j(&st.get::<Path>()).text())
}

/// whole runs, failures and runs that are given up
fn runs() -> Vec<String> {
    let v = stuff();
    let mut out = vec![];
    let text = deser_json::to_string(&v).unwrap_or_else(|e| e.to_string());
    for t in [&text[..], &text.replace("lowValue", "low\\u0056alue"), "[1,\"a\\u00", "{\"name\":\"\\n\",\"name\":true}", &text.replace("-7", "700"), "\"\\ud83d\\ude00\""] {
        out.push(match deser_json::from_str::<Stuff>(t) {
            Ok(x) => format!("{:?}", x),
            Err(e) => e.to_string(),
        });
    }
    out.push(text);
    out.push(match deser_json::to_string(&vec![vec!["a"], vec!["b\u{7}"]]) {
        Ok(x) => x,
        Err(e) => e.to_string(),
    });
    out.push(match deser_json::to_string(&vec![(1u8, vec![1u8])]) {
        Ok(x) => x,
        Err(e) => e.to_string(),
    });
    out.push(format!("{:?} {:#?}", deser_debug::ToDebug::new(&v), deser_debug::ToDebug::new(&v.extra)));
    // left in the middle
    let w = PathSerializable::wrap(&v);
    let mut d = SerializeDriver::new(&w);
    for _ in 0..9 {
        out.extend(look(&mut d));
    }
    let mut slot = None::<Stuff>;
    let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(Stuff::deserialize_into(&mut slot))));
    for e in events().into_iter().take(14) {
        out.push(tell(&mut d, e));
    }
    out.push(tell(&mut d, Event::Atom(Atom::Bool(false))));
    out
}

impl Drop for Standing {
    fn drop(&mut self) {
        self.ser = None;
        self.de = None;
        if !self.slot.is_null() {
            drop(unsafe { Box::from_raw(self.slot) });
        }
    }
}

/// two drivers that never come to an end
struct Standing {
    ser: Option<SerializeDriver<'static>>,
    told: usize,
    de: Option<DeserializeDriver<'static>>,
    slot: *mut Option<Stuff>,
    at: usize,
}

thread_local! {
    static ON: Cell<bool> = Cell::new(false);
    static BUSY: Cell<bool> = Cell::new(false);
    static LEFT: Cell<u32> = Cell::new(0);
    static ALONE: RefCell<Vec<String>> = RefCell::new(vec![]);
    static SERS: RefCell<Vec<String>> = RefCell::new(vec![]);
    static DES: RefCell<Vec<String>> = RefCell::new(vec![]);
    static FEED: RefCell<Vec<Event<'static>>> = RefCell::new(vec![]);
    static VALUE: Cell<Option<&'static dyn Serialize>> = Cell::new(None);
    static STANDING: RefCell<Option<Standing>> = RefCell::new(None);
}

fn value() -> &'static dyn Serialize {
    VALUE.with(|x| {
        if x.get().is_none() {
            let v: &'static Stuff = Box::leak(Box::new(stuff()));
            x.set(Some(Box::leak(Box::new(PathSerializable::wrap(v)))));
        }
        x.get().unwrap()
    })
}

/// how things are when nothing else goes on
pub fn alone() {
    ALONE.with(|a| *a.borrow_mut() = runs());
    FEED.with(|f| *f.borrow_mut() = events());
    let v = value();
    let mut d = SerializeDriver::new(v);
    SERS.with(|s| {
        while let Some(x) = look(&mut d) {
            s.borrow_mut().push(x);
        }
    });
    let slot = Box::leak(Box::new(None::<Stuff>));
    {
        let mut d = DeserializeDriver::new(slot);
        DES.with(|s| FEED.with(|f| s.borrow_mut().extend(f.borrow().iter().map(|e| tell(&mut d, e.clone())))));
    }
    DES.with(|s| s.borrow_mut().push(format!("{:?}", slot)));
}

/// for the case that begins
pub fn choose(on: bool) {
    ON.with(|x| x.set(on));
    LEFT.with(|x| x.set(40));
    // what was left of the case before
    BUSY.with(|x| x.set(false));
    drop(STANDING.with(|s| s.borrow_mut().take()));
}

fn wrong(what: &str, is: &str, was: &str) -> ! {
    panic!("interference: {} {} instead of {}", what, is, was)
}

/// a step of the standing drivers
pub fn tick() {
    if !ON.with(|x| x.get()) || BUSY.with(|b| b.replace(true)) {
        return;
    }
    let mut st = STANDING.with(|s| s.borrow_mut().take()).unwrap_or_else(|| Standing { ser: None, told: 0, de: None, slot: std::ptr::null_mut(), at: 0 });
    {
        let d = st.ser.get_or_insert_with(|| SerializeDriver::new(value()));
        match look(d) {
            Some(x) => {
                SERS.with(|s| match s.borrow().get(st.told) {
                    Some(y) if *y == x => {}
                    y => wrong("serialization", &x, &format!("{:?}", y)),
                });
                st.told += 1;
            }
            None => {
                if st.told != SERS.with(|s| s.borrow().len()) {
                    wrong("serialization", "the end", "more");
                }
                st.ser = None;
                st.told = 0;
            }
        }
    }
    let feed = FEED.with(|f| f.borrow().get(st.at).cloned());
    match feed {
        Some(e) => {
            if st.de.is_none() {
                st.slot = Box::into_raw(Box::new(None));
                st.de = Some(DeserializeDriver::new(unsafe { &mut *st.slot }));
            }
            let x = tell(st.de.as_mut().unwrap(), e);
            DES.with(|s| {
                if s.borrow()[st.at] != x {
                    wrong("deserialization", &x, &s.borrow()[st.at]);
                }
            });
            st.at += 1;
        }
        None => {
            st.de = None;
            let slot = unsafe { Box::from_raw(std::mem::replace(&mut st.slot, std::ptr::null_mut())) };
            let x = format!("{:?}", slot);
            DES.with(|s| {
                if s.borrow()[st.at] != x {
                    wrong("value", &x, &s.borrow()[st.at]);
                }
            });
            st.at = 0;
        }
    }
    STANDING.with(|s| *s.borrow_mut() = Some(st));
    BUSY.with(|b| b.set(false));
}

/// in the middle of a callback
pub fn within() {
    if !ON.with(|x| x.get()) || LEFT.with(|l| l.get()) == 0 || BUSY.with(|b| b.get()) {
        return;
    }
    LEFT.with(|l| l.set(l.get() - 1));
    tick();
    BUSY.with(|b| b.set(true));
    let now = runs();
    BUSY.with(|b| b.set(false));
    ALONE.with(|a| {
        for (x, y) in now.iter().zip(a.borrow().iter()) {
            if x != y {
                wrong("a run", x, y);
            }
        }
        if now.len() != a.borrow().len() {
            wrong("runs", &now.len().to_string(), &a.borrow().len().to_string());
        }
    });
}
