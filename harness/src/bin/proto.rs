//! Operations that need no generated types.
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser_path::PathSink;
use vh::canon::{event_j, event_of};
use vh::json::{obj, J};
use vh::ops::kind;
use vh::record::{self, Any};
use vh::{guarded, main_loop};

/// events through a path tracking sink into a sink that takes anything
fn op_path(case: &J) -> J {
    let evs = case.get("ev").arr();
    let borrow = case.get("borrow").int() == 1;
    let mut out = None::<Any>;
    let mut logs = vec![];
    let mut norm = vec![];
    let mut r = vec![];
    {
        let mut inner = Any::deserialize_into(&mut out);
        let sink = if borrow {
            PathSink::wrap(&mut *inner)
        } else {
            PathSink::wrap_ref(inner_handle(&mut inner))
        };
        let mut driver = DeserializeDriver::from_sink(SinkHandle::boxed(sink));
        for e in evs {
            record::start(true);
            let ev = event_of(e);
            norm.push(event_j(&ev));
            let x = match guarded(|| driver.emit(ev)) {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => kind(&e),
                Err(_) => "panic".into(),
            };
            let ok = x == "ok";
            r.push(J::Str(x));
            logs.push(J::Arr(record::take()));
            if !ok {
                break;
            }
        }
    }
    obj(vec![
        ("id", case.get("id").clone()),
        ("ev", J::Arr(norm)),
        ("r", J::Arr(r)),
        ("log", J::Arr(logs)),
        ("out", J::Int(out.is_some() as i64)),
    ])
}

fn inner_handle<'a>(h: &'a mut SinkHandle) -> SinkHandle<'a> {
    struct Fwd<'a>(&'a mut dyn deser::de::Sink);
    impl<'a> deser::de::Sink for Fwd<'a> {
        fn atom(&mut self, a: deser::Atom, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
            self.0.atom(a, s)
        }
        fn map(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
            self.0.map(s)
        }
        fn seq(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
            self.0.seq(s)
        }
        fn next_key(&mut self, s: &deser::de::DeserializerState) -> Result<SinkHandle, deser::Error> {
            self.0.next_key(s)
        }
        fn next_value(&mut self, s: &deser::de::DeserializerState) -> Result<SinkHandle, deser::Error> {
            self.0.next_value(s)
        }
        fn finish(&mut self, s: &deser::de::DeserializerState) -> Result<(), deser::Error> {
            self.0.finish(s)
        }
    }
    SinkHandle::boxed(Fwd(&mut **h))
}

/// JSON bytes into a type that takes anything
fn op_parse(case: &J) -> J {
    let b: Vec<u8> = case.get("b").arr().iter().map(|x| x.int() as u8).collect();
    let run = |f: &dyn Fn() -> Result<Any, deser::Error>| match guarded(f) {
        Ok(Ok(_)) => "ok".to_string(),
        Ok(Err(e)) => kind(&e),
        Err(_) => "panic".to_string(),
    };
    record::start(false);
    let r = run(&|| deser_json::Deserializer::new(&b).deserialize::<Any>());
    let ev = record::take();
    let r2 = match std::str::from_utf8(&b) {
        Ok(s) => run(&|| deser_json::from_str::<Any>(s)),
        Err(_) => "skip".into(),
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("b", case.get("b").clone()),
        ("r", J::Str(r)),
        ("r2", J::Str(r2)),
        ("ev", J::Arr(ev)),
    ])
}

/// errors as values
fn op_err(case: &J) -> J {
    use deser::{Error, ErrorKind::*};
    #[derive(Debug)]
    struct Src(i64);
    impl std::fmt::Display for Src {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "source {}", self.0)
        }
    }
    impl std::error::Error for Src {}
    const MSG: &[&str] = &["", "a", "a: b", "'quoted'", "\u{1f600}", "line\nbreak", "{}"];
    let k = *[UnsupportedType, Unexpected, MissingField, OutOfRange, WrongLength, EndOfFile]
        .iter()
        .find(|k| format!("{:?}", k) == case.get("k").str())
        .unwrap();
    let msg = MSG[case.get("msg").int() as usize];
    let mut e = if case.get("own").int() == 1 { Error::new(k, msg.to_string()) } else { Error::new(k, msg) };
    for s in case.get("srcs").arr() {
        e = match s.int() {
            // errors as sources
            0 => e.with_source(Error::new(EndOfFile, "inner").with_source(Src(7))),
            n => e.with_source(Src(n)),
        };
    }
    let disp = e.to_string();
    let (pre, rest) = disp.split_at(disp.find(": ").map_or(0, |x| x + 2));
    let src = match std::error::Error::source(&e) {
        None => vec![],
        Some(s) => vec![match (s.downcast_ref::<Src>(), s.downcast_ref::<Error>()) {
            (Some(s), _) => J::Int(s.0),
            (_, Some(s)) if s.to_string() == "EndOfFile: inner" && std::error::Error::source(s).map(|x| x.to_string()) == Some("source 7".into()) => J::Int(0),
            _ => J::Int(-1),
        }],
    };
    obj(vec![
        ("id", case.get("id").clone()),
        ("k", case.get("k").clone()),
        ("msg", vh::canon::cps(msg)),
        ("srcs", case.get("srcs").clone()),
        ("kind", J::Str(kind(&e))),
        ("pre", J::s(pre)),
        ("disp", vh::canon::cps(rest)),
        ("src", J::Arr(src)),
    ])
}

fn main() {
    main_loop(|case| match case.get("op").str() {
        "path" => op_path(case),
        "parse" => op_parse(case),
        "err" => op_err(case),
        "drive" => vh::quarantine::held(|| vh::script::op_drive(case)),
        "entry" => vh::quarantine::held(|| vh::script::op_entry(case)),
        "output" => vh::quarantine::held(|| vh::script::op_output(case)),
        "pull" => vh::quarantine::held(|| vh::script::op_pull(case)),
        "collect" => vh::quarantine::held(|| vh::script::op_collect(case)),
        "ext" => vh::ext::op_ext(case),
        "debugx" => vh::debug::op_debugx(case),
        "nest" => vh::nest::op_nest(case),
        "wide" => vh::wide::op_wide(case),
        "conv" => vh::ways::op_conv(case),
        x => panic!("case format: op {}", x),
    });
}
