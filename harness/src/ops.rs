//! Operations on typed values, shared by all generated registries.
use crate::canon::{event_j, event_of, tag, Canon};
use crate::guarded;
use crate::json::{obj, J};
use crate::{probe, record, ways};
use deser::de::{Deserialize, DeserializeDriver};
use deser::ser::{SerializeDriver, SerializerState};
use deser::{Descriptor, Error, Event, Serialize};

thread_local! {
    static CALLS: std::cell::RefCell<Vec<J>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// a default was called: of type ty (field 0) or of one of its fields
pub fn called(ty: i64, field: i64) {
    CALLS.with(|c| c.borrow_mut().push(J::Arr(vec![J::Int(ty), J::Int(field)])));
}

fn calls() -> J {
    CALLS.with(|c| J::Arr(std::mem::take(&mut *c.borrow_mut())))
}

pub fn kind(e: &Error) -> String {
    format!("{:?}", e.kind())
}

/// the events as they were emitted
fn normal(evs: &[J]) -> J {
    J::Arr(evs.iter().map(|e| event_j(&event_of(e))).collect())
}

/// what a run of the deserializer showed
#[derive(Default)]
struct Seen {
    r: Vec<J>,
    d: Vec<J>,
    t: Vec<J>,
    c: Vec<J>,
    m: String,
    ok: bool,
}

/// the names in quotes in an error message
fn quoted(m: &str) -> J {
    J::Arr(m.split('\'').skip(1).step_by(2).map(crate::canon::cps).collect())
}

fn drive(driver: &mut DeserializeDriver, evs: impl Iterator<Item = Event<'static>>) -> Seen {
    drive_with(driver, evs, |d, e| d.emit(e))
}

fn drive_with<E>(driver: &mut DeserializeDriver, evs: impl Iterator<Item = E>, emit: impl Fn(&mut DeserializeDriver, E) -> Result<(), Error>) -> Seen {
    let mut s = Seen::default();
    calls();
    for ev in evs {
        crate::side::tick();
        let x = match guarded(|| emit(driver, ev)) {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(e)) => {
                s.m = e.to_string();
                kind(&e)
            }
            Err(_) => "panic".into(),
        };
        let ok = x == "ok";
        s.r.push(J::Str(x));
        s.c.push(calls());
        s.d.push(J::Int(driver.state().depth() as i64));
        s.t.push(match driver.state().top_descriptor() {
            Some(d) if ok => desc_j(d),
            _ => J::Arr(vec![]),
        });
        if !ok {
            return s;
        }
    }
    s.ok = true;
    s
}

fn de_trace<T: Canon>(case: &J, evs: &[J], s: Seen, out: &Option<T>) -> J {
    let o = match (out, s.ok) {
        (Some(v), true) => tag("v", vec![v.canon()]),
        _ => tag("no", vec![]),
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("ev", normal(evs)),
        ("r", J::Arr(s.r)),
        ("d", J::Arr(s.d)),
        ("t", J::Arr(s.t)),
        ("c", J::Arr(s.c)),
        ("q", quoted(&s.m)),
        ("m", J::Str(s.m)),
        ("o", o),
    ])
}

fn way(case: &J) -> i64 {
    case.opt("way").map_or(0, |x| x.int())
}

pub fn op_de<T: Deserialize + Canon>(case: &J) -> J {
    let evs = case.get("ev").arr();
    let mut out = None::<T>;
    let s = match case.opt("conv") {
        None => drive(&mut DeserializeDriver::new(&mut out), evs.iter().map(event_of)),
        Some(n) => ways::with_driver(way(case), &mut out, |d| drive_with(d, evs.iter(), |d, e| ways::emit(d, e, n.int()))),
    };
    let mut t = de_trace(case, evs, s, &out);
    if let (J::Obj(o), true) = (&mut t, case.opt("conv").is_some()) {
        o.push(("about".into(), ways::about::<T>(way(case))));
    }
    t
}

pub fn desc_j(d: &dyn Descriptor) -> J {
    J::Arr(vec![
        match d.name() {
            Some(n) => J::s(n),
            None => J::s("<none>"),
        },
        J::Int(d.precision().map_or(-1, |x| x as i64)),
        J::Int(d.unordered() as i64),
    ])
}

fn log_event(event: &Event, desc: &dyn Descriptor, state: &SerializerState, path: bool) {
    let top = match state.top_descriptor() {
        Some(d) => desc_j(d),
        None => J::Arr(vec![]),
    };
    let p = if path {
        record::path_j(&state.get::<deser_path::Path>())
    } else {
        J::Arr(vec![])
    };
    probe::log(tag(
        "E",
        vec![
            event_j(event),
            desc_j(desc),
            J::Int(state.depth() as i64),
            top,
            p,
        ],
    ));
}

/// Runs a serialization; everything is in the log in order.
pub fn ser_log(value: &dyn Serialize, case: &J) -> Vec<J> {
    let path = case.opt("path").map_or(false, |x| x.int() == 1);
    let fail = case.opt("fail").map_or(-1, |x| x.int());
    let stop = case.opt("stop").map_or(i64::MAX, |x| x.int());
    probe::reset(fail, path);
    let wrapped;
    let root: &dyn Serialize = if path {
        wrapped = deser_path::PathSerializable::wrap(value);
        &wrapped
    } else {
        value
    };
    let mut driver = SerializeDriver::new(root);
    let mut n = 0;
    loop {
        if n >= stop {
            probe::log(tag("stop", vec![]));
            break;
        }
        n += 1;
        crate::side::tick();
        let r = guarded(|| match driver.next() {
            Ok(Some((event, desc, state))) => {
                log_event(&event, desc, state, path);
                true
            }
            Ok(None) => {
                probe::log(tag("end", vec![]));
                // the end stays the end
                for _ in 0..2 {
                    match driver.next() {
                        Ok(None) => probe::log(tag("end", vec![])),
                        Ok(Some(_)) => probe::log(tag("more", vec![])),
                        Err(e) => probe::log(tag("err", vec![J::Str(kind(&e))])),
                    }
                }
                false
            }
            Err(e) => {
                probe::log(tag("err", vec![J::Str(kind(&e))]));
                false
            }
        });
        match r {
            Ok(true) => {}
            Ok(false) => break,
            Err(_) => {
                probe::log(tag("panic", vec![]));
                break;
            }
        }
    }
    // after the end the state must be empty again
    if path || fail < 0 {
        let st = driver.state();
        let p = if path {
            record::path_j(&st.get::<deser_path::Path>())
        } else {
            J::Arr(vec![])
        };
        probe::log(tag("state", vec![J::Int(st.depth() as i64), p]));
    }
    drop(driver);
    probe::log(tag("dropped", vec![]));
    probe::take()
}

fn ser_case(value: &dyn Serialize, v: J, case: &J) -> J {
    let log = ser_log(value, case);
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("path", case.opt("path").cloned().unwrap_or(J::Int(0))),
        ("fail", case.opt("fail").cloned().unwrap_or(J::Int(-1))),
        ("stop", case.opt("stop").cloned().unwrap_or(J::Int(-1))),
        ("v", v),
        ("log", J::Arr(log)),
    ])
}

pub fn op_ser<T: Serialize + Canon>(case: &J) -> J {
    let v = T::from_canon(case.get("v"));
    let c = v.canon();
    ways::with_value(way(case), &v, |x| ser_case(x, c, case))
}

pub fn static_events(value: &dyn Serialize) -> (Vec<Event<'static>>, String) {
    let mut evs = vec![];
    let mut driver = SerializeDriver::new(value);
    let st = loop {
        crate::side::tick();
        match guarded(|| driver.next().map(|x| x.map(|(e, _, _)| e.to_static()))) {
            Ok(Ok(Some(e))) => evs.push(e),
            Ok(Ok(None)) => break "ok".to_string(),
            Ok(Err(e)) => break kind(&e),
            Err(_) => break "panic".to_string(),
        }
    };
    (evs, st)
}

/// value -> independent events -> (value gone) -> value of the same type
pub fn op_rt<T: Serialize + Deserialize + Canon>(case: &J) -> J {
    let v = T::from_canon(case.get("v"));
    let c = v.canon();
    let (evs, st) = static_events(&v);
    drop(v);
    let js: Vec<J> = evs.iter().map(event_j).collect();
    let mut out = None::<T>;
    let s = drive(&mut DeserializeDriver::new(&mut out), evs.into_iter());
    let o = match (&out, s.ok) {
        (Some(v), true) => tag("v", vec![v.canon()]),
        _ => tag("no", vec![]),
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("v", c),
        ("st", J::Str(st)),
        ("ev", J::Arr(js)),
        ("r", J::Arr(s.r)),
        ("d", J::Arr(s.d)),
        ("o", o),
    ])
}

fn json_out(value: &dyn Serialize, case: &J) -> (String, Vec<u8>) {
    match guarded(|| ways::write_json(way(case), value)) {
        Ok(Ok(s)) => ("ok".into(), s.into_bytes()),
        Ok(Err(e)) => (kind(&e), vec![]),
        Err(_) => ("panic".into(), vec![]),
    }
}

/// value -> JSON text -> value
pub fn op_json<T: Serialize + Deserialize + Canon>(case: &J) -> J {
    let v = T::from_canon(case.get("v"));
    let c = v.canon();
    let (st, text) = json_out(&v, case);
    let (bst, back) = if st != "ok" {
        ("skip".to_string(), tag("no", vec![]))
    } else {
        match guarded(|| ways::read_json::<T>(way(case), &text)) {
            Ok(Ok(v)) => ("ok".to_string(), tag("v", vec![v.canon()])),
            Ok(Err(e)) => (kind(&e), tag("no", vec![])),
            Err(_) => ("panic".into(), tag("no", vec![])),
        }
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("v", c),
        ("st", J::Str(st)),
        ("text", crate::canon::bytes_j(&text)),
        ("bst", J::Str(bst)),
        ("back", back),
    ])
}

/// any bytes as JSON -> events, and typed result
pub fn op_jsonde<T: Deserialize + Canon>(case: &J) -> J {
    let b: Vec<u8> = case.get("b").arr().iter().map(|x| x.int() as u8).collect();
    let res = |r: Result<Result<T, Error>, String>| match r {
        Ok(Ok(v)) => ("ok".to_string(), tag("v", vec![v.canon()]), String::new()),
        Ok(Err(e)) => (kind(&e), tag("no", vec![]), e.to_string()),
        Err(_) => ("panic".into(), tag("no", vec![]), String::new()),
    };
    record::start(false);
    let _ = guarded(|| deser_json::Deserializer::new(&b).deserialize::<record::Any>());
    let ev = record::take();
    let (r, o, m) = res(guarded(|| deser_json::Deserializer::new(&b).deserialize::<T>()));
    let (r2, o2, _) = match std::str::from_utf8(&b) {
        Ok(s) => res(guarded(|| deser_json::from_str::<T>(s))),
        Err(_) => ("skip".into(), tag("no", vec![]), String::new()),
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("b", case.get("b").clone()),
        ("ev", J::Arr(ev)),
        ("r", J::Str(r)),
        ("o", o),
        ("m", J::Str(m)),
        ("r2", J::Str(r2)),
        ("o2", o2),
    ])
}

/// value -> JSON text (types that only serialize)
pub fn op_json_ser<T: Serialize + Canon>(case: &J) -> J {
    let v = T::from_canon(case.get("v"));
    let c = v.canon();
    let (st, text) = json_out(&v, case);
    obj(vec![
        ("id", case.get("id").clone()),
        ("ty", case.get("ty").clone()),
        ("v", c),
        ("st", J::Str(st)),
        ("text", crate::canon::bytes_j(&text)),
        ("bst", J::s("skip")),
        ("back", tag("no", vec![])),
    ])
}

/// deserialization through the path tracking sink: same result
pub fn op_pathde<T: Deserialize + Canon>(case: &J) -> J {
    let evs = case.get("ev").arr();
    let mut out = None::<T>;
    let s = {
        let sink = deser_path::PathSink::wrap_ref(T::deserialize_into(&mut out));
        let mut driver = DeserializeDriver::from_sink(deser::de::SinkHandle::boxed(sink));
        drive(&mut driver, evs.iter().map(event_of))
    };
    let mut t = de_trace(case, evs, s, &out);
    if let J::Obj(o) = &mut t {
        o.push(("about".into(), ways::about::<T>(7 + case.get("id").int() % 2)));
    }
    t
}

pub fn both<T: Serialize + Deserialize + Canon>(op: &str, case: &J) -> J {
    match op {
        "de" => op_de::<T>(case),
        "ser" => op_ser::<T>(case),
        "rt" => op_rt::<T>(case),
        "json" => op_json::<T>(case),
        "jsonde" => op_jsonde::<T>(case),
        "pathde" => op_pathde::<T>(case),
        _ => panic!("case format: op {}", op),
    }
}

pub fn ser_only<T: Serialize + Canon>(op: &str, case: &J) -> J {
    match op {
        "ser" => op_ser::<T>(case),
        "json" => op_json_ser::<T>(case),
        _ => panic!("case format: op {}", op),
    }
}

pub fn de_only<T: Deserialize + Canon>(op: &str, case: &J) -> J {
    match op {
        "de" => op_de::<T>(case),
        "jsonde" => op_jsonde::<T>(case),
        "pathde" => op_pathde::<T>(case),
        _ => panic!("case format: op {}", op),
    }
}

/// value -> debug formatting
pub fn op_debug<T: Serialize + Canon>(case: &J) -> J {
    let v = T::from_canon(case.get("v"));
    let mut o = vec![("id", case.get("id").clone()), ("ty", case.get("ty").clone()), ("v", v.canon())];
    o.extend(crate::debug::debug_trace(&v, case));
    obj(o)
}
