//! The different ways in which the same value, sink, event or text can be
//! handed to the library.
use crate::canon::event_of;
use crate::json::J;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::ser::{Chunk, SerializeHandle, SerializerState};
use deser::{Atom, Descriptor, Error, Event, Serialize};
use std::borrow::Cow;

/// a sink of somebody else that passes everything on
struct Fwd<'a>(SinkHandle<'a>);

impl<'a> Sink for Fwd<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.0.atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.0.map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.0.seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.0.next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::boxed(Fwd(self.0.next_value(state)?)))
    }
    fn value_for_key(&mut self, key: &str, state: &DeserializerState) -> Result<Option<SinkHandle>, Error> {
        self.0.value_for_key(key, state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn expecting(&self) -> Cow<'_, str> {
        self.0.expecting()
    }
}

/// the same with a slot of its own, as the documentation shows it
struct Own<'a, T> {
    out: &'a mut Option<T>,
    sink: OwnedSink<T>,
}

impl<'a, T: Deserialize> Sink for Own<'a, T> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().atom(atom, state)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().map(state)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().seq(state)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.sink.borrow_mut().next_key(state)
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.sink.borrow_mut().next_value(state)
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.sink.borrow_mut().finish(state)?;
        *self.out = self.sink.take();
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.sink.borrow().descriptor()
    }
    fn expecting(&self) -> Cow<'_, str> {
        self.sink.borrow().expecting()
    }
}

/// what the sink made in one of the ways below says about itself
pub fn about<T: Deserialize>(way: i64) -> J {
    fn says(s: &dyn Sink) -> J {
        J::Arr(vec![J::s(&s.expecting()), crate::ops::desc_j(s.descriptor())])
    }
    let mut slot = None::<T>;
    let out = &mut slot;
    match way {
        2 => says(&*SinkHandle::to(&mut *T::deserialize_into(out))),
        3 => says(&*SinkHandle::boxed(Fwd(T::deserialize_into(out)))),
        4 => says(&Fwd(T::deserialize_into(out))),
        5 => says(&Own { out, sink: OwnedSink::deserialize() }),
        6 => says(OwnedSink::<T>::deserialize().borrow()),
        7 => says(&deser_path::PathSink::wrap(&mut *T::deserialize_into(out))),
        8 => says(&deser_path::PathSink::wrap_ref(T::deserialize_into(out))),
        9 => {
            let p = SinkHandle::boxed(Fwd(T::deserialize_into(out)));
            let p = deser_path::PathSink::wrap_ref(p);
            says(&Fwd(SinkHandle::boxed(p)))
        }
        _ => says(&*T::deserialize_into(out)),
    }
}

/// runs f with a driver that fills out
pub fn with_driver<T: Deserialize, R>(way: i64, out: &mut Option<T>, f: impl FnOnce(&mut DeserializeDriver) -> R) -> R {
    match way {
        0 => f(&mut DeserializeDriver::new(out)),
        1 => f(&mut DeserializeDriver::from_sink(T::deserialize_into(out))),
        2 => {
            let mut h = T::deserialize_into(out);
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::to(&mut *h)));
            r
        }
        3 => f(&mut DeserializeDriver::from_sink(SinkHandle::boxed(Fwd(T::deserialize_into(out))))),
        4 => {
            let mut s = Fwd(T::deserialize_into(out));
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::to(&mut s)));
            r
        }
        5 => f(&mut DeserializeDriver::from_sink(SinkHandle::boxed(Own {
            out,
            sink: OwnedSink::deserialize(),
        }))),
        6 => {
            let mut o = OwnedSink::<T>::deserialize();
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::to(o.borrow_mut())));
            // taking is taking
            let v = o.take();
            assert!(o.take().is_none(), "taken twice");
            *out = v;
            r
        }
        7 => {
            let mut h = T::deserialize_into(out);
            let mut p = deser_path::PathSink::wrap(&mut *h);
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::to(&mut p)));
            r
        }
        8 => {
            let p = deser_path::PathSink::wrap_ref(T::deserialize_into(out));
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::boxed(p)));
            r
        }
        9 => {
            let p = SinkHandle::boxed(Fwd(T::deserialize_into(out)));
            let p = deser_path::PathSink::wrap_ref(p);
            let r = f(&mut DeserializeDriver::from_sink(SinkHandle::boxed(Fwd(SinkHandle::boxed(p)))));
            r
        }
        _ => {
            // a driver that is moved around
            let d = DeserializeDriver::new(out);
            let mut d = Box::new(d);
            let r = f(&mut d);
            drop(*d);
            r
        }
    }
}

/// emits through one of the conversions into events
pub fn emit(d: &mut DeserializeDriver, v: &J, n: i64) -> Result<(), Error> {
    let ev = event_of(v);
    match (ev, n) {
        (e, 0) => d.emit(e),
        (e, 1) => d.emit(e.to_static()),
        (e, 2) => d.emit(e.clone()),
        (Event::Atom(a), 3) => d.emit(a),
        (Event::Atom(a), 4) => d.emit(a.to_static()),
        (Event::Atom(Atom::Null), _) => d.emit(()),
        (Event::Atom(Atom::Bool(b)), _) => d.emit(b),
        (Event::Atom(Atom::Char(b)), _) => d.emit(b),
        (Event::Atom(Atom::Str(s)), 5) => d.emit(&*s),
        (Event::Atom(Atom::Str(s)), 6) => d.emit(s),
        (Event::Atom(Atom::Str(s)), _) => d.emit(s.into_owned()),
        (Event::Atom(Atom::Bytes(b)), _) => d.emit(&*b),
        (Event::Atom(Atom::U64(v)), 5) => d.emit(v),
        (Event::Atom(Atom::U64(v)), _) => d.emit(v as usize),
        (Event::Atom(Atom::I64(v)), 5) => d.emit(v),
        (Event::Atom(Atom::I64(v)), _) => d.emit(v as isize),
        (Event::Atom(Atom::F64(v)), _) => d.emit(v),
        (e, _) => d.emit(e.clone()),
    }
}

/// a value of somebody else that passes everything on
struct FwdSer<'a>(SerializeHandle<'a>, i64);

/// atoms made again through one of the conversions into chunks
fn remade<'a>(c: Chunk<'a>, n: i64) -> Chunk<'a> {
    match (c, n) {
        (Chunk::Atom(a), 0) => Chunk::from(a),
        (Chunk::Atom(Atom::Null), _) => Chunk::from(()),
        (Chunk::Atom(Atom::Bool(b)), _) => Chunk::from(b),
        (Chunk::Atom(Atom::Char(b)), _) => Chunk::from(b),
        (Chunk::Atom(Atom::Str(Cow::Borrowed(s))), 1) => Chunk::from(s),
        (Chunk::Atom(Atom::Str(s)), _) => Chunk::from(s.into_owned()),
        (Chunk::Atom(Atom::Bytes(Cow::Borrowed(b))), _) => Chunk::from(b),
        (Chunk::Atom(Atom::U64(v)), 1) => Chunk::from(v),
        (Chunk::Atom(Atom::U64(v)), _) => Chunk::from(v as usize),
        (Chunk::Atom(Atom::I64(v)), 1) => Chunk::from(v),
        (Chunk::Atom(Atom::I64(v)), _) => Chunk::from(v as isize),
        (Chunk::Atom(Atom::F64(v)), _) => Chunk::from(v),
        (c, _) => c,
    }
}

impl<'a> Serialize for FwdSer<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        let c = self.0.serialize(state)?;
        Ok(if self.1 < 0 { c } else { remade(c, self.1) })
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
}

/// runs f with the value made accessible in one of the ways
pub fn with_value<T: Serialize, R>(way: i64, v: &T, f: impl FnOnce(&dyn Serialize) -> R) -> R {
    match way {
        0 => f(v),
        1 => f(&v),
        2 => f(&Box::new(v)),
        3 => f(&*SerializeHandle::to(v)),
        4 => f(&*SerializeHandle::boxed(v)),
        5 => f(&FwdSer(SerializeHandle::to(v), -1)),
        6 => f(&FwdSer(SerializeHandle::boxed(&&v), 0)),
        7 => f(&FwdSer(SerializeHandle::to(v), 1)),
        _ => f(&FwdSer(SerializeHandle::to(&Box::new(v)), 2)),
    }
}

pub fn write_json(way: i64, v: &dyn Serialize) -> Result<String, Error> {
    match way {
        0 => deser_json::to_string(v),
        1 => deser_json::Serializer::new().serialize(v),
        _ => deser_json::Serializer::default().serialize(v),
    }
}

pub fn read_json<T: Deserialize>(way: i64, text: &[u8]) -> Result<T, Error> {
    match (std::str::from_utf8(text), way) {
        (Ok(s), 0) => deser_json::from_str::<T>(s),
        _ => deser_json::Deserializer::new(text).deserialize::<T>(),
    }
}

/// everything an atom can be made from, as an event and as a chunk
pub fn op_conv(case: &J) -> J {
    use crate::canon::{atom_j, event_j, tag};
    use crate::json::obj;
    let v = case.get("v");
    let Event::Atom(atom) = event_of(v) else { panic!("case format: atom expected") };
    let mut log = vec![];
    fn served(c: impl Fn() -> Chunk<'static>) -> Event<'static> {
        struct Once<F>(F);
        impl<F: Fn() -> Chunk<'static>> Serialize for Once<F> {
            fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
                Ok((self.0)())
            }
        }
        let o = Once(c);
        let mut d = deser::ser::SerializeDriver::new(&o);
        let e = d.next().expect("next").expect("event").0.to_static();
        e
    }
    macro_rules! from {
        ($name:expr, $x:expr, $($kind:ident),*) => {{
            let x = $x;
            $(from!(@$kind $name, x);)*
        }};
        (@event $name:expr, $x:ident) => {{
            let e = Event::from($x.clone());
            log.push(J::Arr(vec![J::s($name), J::s("event"), event_j(&e)]));
            log.push(J::Arr(vec![J::s($name), J::s("static"), event_j(&e.to_static())]));
            log.push(J::Arr(vec![J::s($name), J::s("clone"), event_j(&e.clone())]));
            if let Event::Atom(ref a) = e {
                log.push(J::Arr(vec![J::s($name), J::s("atom"), atom_j(&a.to_static())]));
            }
            let same = e == e.to_static() && e.clone() == e;
            let nan = matches!(e, Event::Atom(Atom::F64(f)) if f.is_nan());
            log.push(J::Arr(vec![J::s($name), J::s("equal"), J::Int((same || nan) as i64)]));
        }};
        (@chunk $name:expr, $x:ident) => {{
            let e = served(|| Chunk::from($x.clone()));
            log.push(J::Arr(vec![J::s($name), J::s("chunk"), event_j(&e)]));
        }};
    }
    from!("atom", atom.clone(), event, chunk);
    match atom {
        Atom::Null => from!("unit", (), event, chunk),
        Atom::Bool(b) => from!("bool", b, event, chunk),
        Atom::Char(c) => from!("char", c, event, chunk),
        Atom::U64(n) => {
            from!("u64", n, event, chunk);
            from!("usize", n as usize, event, chunk);
        }
        Atom::I64(n) => {
            from!("i64", n, event, chunk);
            from!("isize", n as isize, event, chunk);
        }
        Atom::F64(n) => from!("f64", n, event, chunk),
        Atom::Str(s) => {
            let leaked: &'static str = Box::leak(s.to_string().into_boxed_str());
            from!("str", leaked, event, chunk);
            from!("String", s.to_string(), event, chunk);
            from!("cow", Cow::Borrowed(leaked), event);
            from!("cow", Cow::<'static, str>::Owned(s.to_string()), event);
        }
        Atom::Bytes(b) => {
            let leaked: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
            from!("bytes", leaked, event, chunk);
        }
        _ => {}
    }
    obj(vec![("id", case.get("id").clone()), ("v", v.clone()), ("log", J::Arr(log))])
}
