-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The public interface as operations for Borrow: what the documentation   *)
(* says borrows from what.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Blank == [t |-> "", new |-> "", sh |-> {}, mu |-> {}, from |-> {}, mv |-> {}, rd |-> {}, wr |-> {}, forever |-> FALSE, never |-> FALSE]
\* a new variable that borrows, continues, or only looks
Sh(x, y, t) == [Blank EXCEPT !.t = t, !.new = x, !.sh = {y}]
Mu(x, y, t) == [Blank EXCEPT !.t = t, !.new = x, !.mu = {y}]
Mv(x, y, t) == [Blank EXCEPT !.t = t, !.new = x, !.mv = {y}]
From(x, y, t) == [Blank EXCEPT !.t = t, !.new = x, !.from = {y}]
Free(x, y, t) == [Blank EXCEPT !.t = t, !.new = x, !.rd = y]
Rd(y, t) == [Blank EXCEPT !.t = t, !.rd = {y}]
Wr(y, t) == [Blank EXCEPT !.t = t, !.wr = {y}]
Drop(y) == [Blank EXCEPT !.t = "drop(" \o y \o ")", !.mv = {y}]
Forever(o) == [o EXCEPT !.forever = TRUE, !.new = "f"]
Never(o) == [o EXCEPT !.never = TRUE]
Drops(S) == {Drop(y) : y \in S}

SerBase == {"v"}
SerOps == {
  Sh("d", "v", "SerializeDriver::new(&v)"), Sh("d", "h", "SerializeDriver::new(&*h)"), Sh("d", "w", "SerializeDriver::new(&w)"),
  Mu("e", "d", "d.next().unwrap()"), Mu("n", "d", "d.next().unwrap().unwrap().1"),
  Mu("k", "d", "d.next().unwrap().unwrap().0"), Rd("k", "k.to_static()"), Mu("s", "d", "d.next().unwrap().unwrap().2"),
  Mv("m", "c", "(if let Chunk::Seq(m) = c { m } else { panic!() })"),
  [Sh("m", "v", "(match v.serialize(d.state()).unwrap() { Chunk::Seq(m) => m, _ => panic!() })") EXCEPT !.rd = {"d"}], [Mu("i", "m", "m.next(d.state()).unwrap().unwrap()") EXCEPT !.rd = {"d"}],
  [Wr("m", "m.next(d.state()).is_ok()") EXCEPT !.rd = {"d"}], Rd("i", "i.is_optional()"),
  Sh("s", "d", "d.state()"), From("g", "s", "s.get::<u8>()"), Sh("g", "d", "d.state().get_mut::<u8>()"), Sh("n", "d", "d.state().top_descriptor().unwrap()"),
  Free("x", {"e"}, "e.as_ref().unwrap().0.to_static()"),
  Sh("h", "v", "SerializeHandle::to(&v)"), Sh("h", "v", "SerializeHandle::boxed(&v)"),
  Sh("w", "v", "PathSerializable::wrap(&v)"), Mv("w", "h", "PathSerializable::wrap_ref(h)"),
  [Sh("c", "v", "v.serialize(d.state()).unwrap()") EXCEPT !.rd = {"d"}], [Sh("c", "w", "w.serialize(d.state()).unwrap()") EXCEPT !.rd = {"d"}],
  Sh("n", "v", "v.descriptor()"),
  Free("b", {"v"}, "ToDebug::new(&v)"), Free("b", {"v"}, "deser_json::to_string(&v).unwrap()"),
  Forever(Sh("f", "v", "SerializeDriver<'static> = SerializeDriver::new(&v)")), Forever(Sh("f", "v", "SerializeHandle<'static> = SerializeHandle::to(&v)")),
  Forever(Mu("f", "d", "Event<'static> = d.next().unwrap().unwrap().0")), Forever(Mv("f", "h", "PathSerializable<'static> = PathSerializable::wrap_ref(h)")),
  Rd("v", "v.len()"), Wr("v", "v.push(String::new())"), Wr("d", "d.next().is_ok()"), Rd("d", "d.state().depth()"),
  Rd("e", "e.is_some()"), Rd("n", "n.name()"), Rd("s", "s.depth()"), Rd("g", "*g"), Rd("h", "h.is_optional()"), Rd("w", "w.is_optional()"),
  Rd("c", "matches!(c, Chunk::Seq(_))"), Rd("b", "b.to_string()"), Rd("x", "x.to_static()")}
  \cup Drops({"v", "d", "h", "w", "c", "g", "m", "i"})
SerDropping == {"d", "h", "w", "c", "g", "m", "i"}

DeBase == {"out", "sk", "txt"}
DeOps == {
  Mu("r", "out", "DeserializeDriver::new(&mut out)"), Mv("r", "h", "DeserializeDriver::from_sink(h)"), Mu("r", "p", "DeserializeDriver::from_sink(SinkHandle::to(&mut p))"),
  Mv("r", "p", "DeserializeDriver::from_sink(SinkHandle::boxed(p))"), Mu("r", "sk", "DeserializeDriver::from_sink(SinkHandle::to(&mut sk))"),
  Mu("h", "sk", "SinkHandle::to(&mut sk)"), Mu("h", "sk", "SinkHandle::boxed(Fwd(&mut sk))"), Mu("h", "out", "<Vec<String>>::deserialize_into(&mut out)"), Free("h", {}, "SinkHandle::null()"),
  Mu("p", "sk", "PathSink::wrap(&mut sk)"), Mv("p", "h", "PathSink::wrap_ref(h)"), Mu("p", "h", "PathSink::wrap(&mut *h)"),
  Sh("s", "r", "r.state()"), From("g", "s", "s.get::<u8>()"), Sh("g", "r", "r.state().get_mut::<u8>()"), Sh("n", "r", "r.state().top_descriptor()"), Sh("n", "h", "Some(h.descriptor())"),
  Free("o", {}, "OwnedSink::<Vec<String>>::deserialize()"), Sh("b", "o", "o.borrow()"), Mu("b", "o", "o.borrow_mut()"), [Free("t", {}, "o.take()") EXCEPT !.wr = {"o"}],
  Never([Wr("o", "*o.borrow_mut() = SinkHandle::to(&mut sk)") EXCEPT !.wr = {"o", "sk"}]), Never([Wr("o", "std::mem::swap(o.borrow_mut(), &mut h)") EXCEPT !.wr = {"o", "h"}]),
  Never(Wr("o", "std::mem::replace(o.borrow_mut(), SinkHandle::null())")),
  [Mu("q", "h", "h.next_value(r.state()).unwrap()") EXCEPT !.rd = {"r"}], [Mu("q", "p", "p.next_key(r.state()).unwrap()") EXCEPT !.rd = {"r"}],
  [Mu("q", "o", "o.borrow_mut().next_value(r.state()).unwrap()") EXCEPT !.rd = {"r"}],
  [Mu("q", "sk", "sk.value_for_key(\"k\", r.state()).unwrap().unwrap()") EXCEPT !.rd = {"r"}],
  Mu("h", "out", "Slot::make_handle(&mut out)"), Mu("l", "out", "Slot::wrap(&mut out)"), Mu("h", "l", "SinkHandle::to(&mut *l)"), Mu("r", "l", "DeserializeDriver::from_sink(SinkHandle::to(&mut *l))"),
  Rd("l", "l.is_some()"), Wr("l", "**l = None"), Sh("u", "l", "l.as_ref()"), Rd("u", "u.is_some()"), Forever(Mu("f", "out", "SinkHandle<'static> = Slot::make_handle(&mut out)")),
  Rd("q", "q.expecting().len()"), Mv("r", "q", "DeserializeDriver::from_sink(q)"),
  Forever(Mu("f", "out", "DeserializeDriver<'static> = DeserializeDriver::new(&mut out)")), Forever(Mu("f", "sk", "SinkHandle<'static> = SinkHandle::to(&mut sk)")),
  Forever(Mv("f", "h", "DeserializeDriver<'static> = DeserializeDriver::from_sink(h)")), Forever(Mv("f", "h", "PathSink<'static> = PathSink::wrap_ref(h)")),
  Rd("out", "out.is_some()"), Wr("out", "out = None"), Rd("sk", "sk.n"), Wr("sk", "sk.n = 1"), Drop("out"), Drop("sk"), Drop("txt"),
  Wr("r", "r.emit(Event::SeqStart).is_ok()"), [Wr("r", "r.emit(&txt[..]).is_ok()") EXCEPT !.rd = {"txt"}], Rd("r", "r.state().depth()"),
  Rd("h", "h.expecting().len()"), Rd("p", "p.expecting().len()"), Rd("s", "s.depth()"), Rd("g", "*g"), Rd("n", "n.is_some()"), Rd("b", "b.expecting().len()"), Rd("t", "t.is_some()")}
  \cup Drops({"r", "h", "p", "g", "o", "q"})
DeDropping == {"r", "h", "p", "g", "q"}

JsonBase == {"by"}
JsonOps == {
  Sh("j", "by", "deser_json::Deserializer::new(&by)"), [Free("y", {}, "j.deserialize::<Vec<String>>()") EXCEPT !.wr = {"j"}],
  Free("z", {"by"}, "deser_json::from_str::<Vec<String>>(std::str::from_utf8(&by).unwrap())"),
  Forever(Sh("f", "by", "deser_json::Deserializer<'static> = deser_json::Deserializer::new(&by)")),
  Rd("by", "by.len()"), Wr("by", "by.clear()"), Rd("y", "y.is_ok()"), Rd("z", "z.is_ok()")} \cup Drops({"by", "j"})

\* what user supplied parts may do, and which types may leave their thread
Bound(b, ty) == [Blank EXCEPT !.t = "fn is<T: " \o b \o ">() {} fn f() { is::<" \o ty \o ">() }"]
Alone(t) == [Blank EXCEPT !.t = t]
SinkImpl(fields, body) == "struct U" \o fields \o "; impl Sink for U { " \o body \o " }"
\* what is returned lives as long as what it is made of, but not longer
Tied(args, r1, r2, body) ==
  LET sig(lt) == "use std::cell::{Ref, RefMut}; fn tied<'q, 'z>(" \o args \o ") -> " \o r1 \o lt \o r2 \o " { " \o body \o " }"
  IN {Alone(sig("'q")), Never(Alone(sig("'z")))}
\* and no shorter than it has to
Ties == UNION {
  Tied("k: &'q mut dyn Sink", "SinkHandle<", ">", "SinkHandle::to(k)"), Tied("k: Fwd<'q>", "SinkHandle<", ">", "SinkHandle::boxed(k)"),
  Tied("v: &'q Vec<u8>", "SerializeHandle<", ">", "SerializeHandle::to(v)"), Tied("v: &'q Vec<u8>", "SerializeHandle<", ">", "SerializeHandle::boxed(v)"),
  Tied("o: &'q mut Option<u8>", "SinkHandle<", ">", "u8::deserialize_into(o)"), Tied("o: &'q mut Option<Vec<String>>", "SinkHandle<", ">", "Deserialize::deserialize_into(o)"),
  Tied("o: &'q mut Option<Box<u8>>", "SinkHandle<", ">", "Deserialize::deserialize_into(o)"), Tied("o: &'q mut Option<[u8; 2]>", "SinkHandle<", ">", "Deserialize::deserialize_into(o)"),
  Tied("o: &'q mut Option<Vec<String>>", "SinkHandle<", ">", "Slot::make_handle(o)"), Tied("o: &'q mut Option<u8>", "&", " mut Slot<u8>", "Slot::wrap(o)"),
  Tied("o: &'q Slot<u8>", "&", " Option<u8>", "&**o"), Tied("o: &'q mut Slot<u8>", "&", " mut Option<u8>", "&mut **o"),
  Tied("o: &'q OwnedSink<u8>", "&", " dyn Sink", "o.borrow()"), Tied("o: &'q mut OwnedSink<u8>", "&", " mut dyn Sink", "o.borrow_mut()"),
  Tied("h: &'q SinkHandle<'_>", "&", " dyn Sink", "&**h"), Tied("h: &'q mut SinkHandle<'_>", "&", " mut dyn Sink", "&mut **h"), Tied("h: &'q SerializeHandle<'_>", "&", " dyn Serialize", "&**h"),
  Tied("d: &'q DeserializeDriver<'_>", "DRef<", ">", "d.state()"), Tied("d: &'q SerializeDriver<'_>", "SRef<", ">", "d.state()"),
  Tied("s: &'q DState<'_>", "Ref<", ", u8>", "s.get::<u8>()"), Tied("s: &'q DState<'_>", "RefMut<", ", u8>", "s.get_mut::<u8>()"), Tied("s: &'q DState<'_>", "Option<&", " dyn Descriptor>", "s.top_descriptor()"),
  Tied("s: &'q SState<'_>", "Ref<", ", u8>", "s.get::<u8>()"), Tied("s: &'q SState<'_>", "RefMut<", ", u8>", "s.get_mut::<u8>()"), Tied("s: &'q SState<'_>", "Option<&", " dyn Descriptor>", "s.top_descriptor()"),
  Tied("o: &'q mut Option<u8>", "DeserializeDriver<", ">", "DeserializeDriver::new(o)"), Tied("h: SinkHandle<'q>", "DeserializeDriver<", ">", "DeserializeDriver::from_sink(h)"),
  Tied("v: &'q dyn Serialize", "SerializeDriver<", ">", "SerializeDriver::new(v)"), Tied("d: &'q mut SerializeDriver<'_>", "Event<", ">", "d.next().unwrap().unwrap().0"),
  Tied("d: &'q mut SerializeDriver<'_>", "&", " dyn Descriptor", "d.next().unwrap().unwrap().1"), Tied("d: &'q mut SerializeDriver<'_>", "SRef<", ">", "d.next().unwrap().unwrap().2"),
  Tied("k: &'q mut dyn Sink", "PathSink<", ">", "PathSink::wrap(k)"), Tied("h: SinkHandle<'q>", "PathSink<", ">", "PathSink::wrap_ref(h)"),
  Tied("v: &'q dyn Serialize", "PathSerializable<", ">", "PathSerializable::wrap(v)"), Tied("h: SerializeHandle<'q>", "PathSerializable<", ">", "PathSerializable::wrap_ref(h)"),
  Tied("b: &'q [u8]", "deser_json::Deserializer<", ">", "deser_json::Deserializer::new(b)"), Tied("p: &'q deser_path::Path", "&", " [deser_path::PathSegment]", "p.segments()"),
  Tied("k: &'q mut dyn Sink, s: &DState", "SinkHandle<", ">", "k.next_key(s).unwrap()"), Tied("k: &'q mut dyn Sink, s: &DState", "SinkHandle<", ">", "k.next_value(s).unwrap()"),
  Tied("k: &'q mut dyn Sink, s: &DState", "SinkHandle<", ">", "k.value_for_key(\"\", s).unwrap().unwrap()"), Tied("k: &'q dyn Sink", "&", " dyn Descriptor", "k.descriptor()"), Tied("k: &'q dyn Sink", "Cow<", ", str>", "k.expecting()"),
  Tied("k: &'q PathSink<'_>", "&", " dyn Descriptor", "k.descriptor()"), Tied("v: &'q dyn Serialize", "&", " dyn Descriptor", "v.descriptor()"), Tied("v: &'q dyn Serialize, s: &SState", "Chunk<", ">", "v.serialize(s).unwrap()"),
  Tied("m: &'q mut dyn deser::ser::SeqEmitter, s: &SState", "SerializeHandle<", ">", "m.next(s).unwrap().unwrap()"), Tied("m: &'q mut dyn deser::ser::MapEmitter, s: &SState", "SerializeHandle<", ">", "m.next_key(s).unwrap().unwrap()"),
  Tied("m: &'q mut dyn deser::ser::MapEmitter, s: &SState", "SerializeHandle<", ">", "m.next_value(s).unwrap()"), Tied("m: &'q mut dyn deser::ser::StructEmitter, s: &SState", "SerializeHandle<", ">", "m.next(s).unwrap().unwrap().1"),
  Tied("m: &'q mut dyn deser::ser::StructEmitter, s: &SState", "Cow<", ", str>", "m.next(s).unwrap().unwrap().0"), Tied("d: &'q dyn Descriptor", "&", " str", "d.name().unwrap()"),
  Tied("s: &'q str", "Event<", ">", "s.into()"), Tied("s: &'q [u8]", "Event<", ">", "s.into()"), Tied("s: Cow<'q, str>", "Event<", ">", "s.into()"), Tied("s: Atom<'q>", "Event<", ">", "s.into()"),
  Tied("e: deser::Error, t: &'q deser::Error", "&", " (dyn std::error::Error + 'static)", "std::error::Error::source(t).unwrap()")}
Facts == Ties \cup {
  Bound("Send + Sync + 'static", "deser::Error"), Bound("std::error::Error", "deser::Error"), Bound("Send", "Event<'static>"), Bound("Send", "deser::ErrorKind"), Bound("Clone", "Event<'static>"),
  Never(Bound("Send", "SerializeDriver<'static>")), Never(Bound("Send", "DeserializeDriver<'static>")), Never(Bound("Send", "SinkHandle<'static>")), Never(Bound("Send", "SerializeHandle<'static>")),
  Never(Bound("Send", "OwnedSink<u8>")), Never(Bound("Send", "PathSink<'static>")), Never(Bound("Send", "PathSerializable<'static>")),
  Never(Bound("Sync", "SerializeDriver<'static>")), Never(Bound("Sync", "DeserializeDriver<'static>")), Never(Bound("Sync", "OwnedSink<u8>")),
  Never(Bound("Sync", "deser::ser::SerializerState<'static>")), Never(Bound("Sync", "deser::de::DeserializerState<'static>")), Never(Bound("Send", "Chunk<'static>")),
  Alone("fn o(_: &dyn Serialize, _: &mut dyn Sink, _: &dyn Descriptor, _: &mut dyn deser::ser::SeqEmitter, _: &mut dyn deser::ser::MapEmitter, _: &mut dyn deser::ser::StructEmitter) {}"),
  Alone("struct U(Option<Atom<'static>>); impl Sink for U { fn atom(&mut self, a: Atom, _: &DState) -> Res { self.0 = Some(a.to_static()); Ok(()) } }"),
  Never(Alone("struct U(Option<Atom<'static>>); impl Sink for U { fn atom(&mut self, a: Atom, _: &DState) -> Res { self.0 = Some(a); Ok(()) } }")),
  Never(Alone("struct U<'q>(Option<Atom<'q>>); impl<'q> Sink for U<'q> { fn atom(&mut self, a: Atom, _: &DState) -> Res { self.0 = Some(a); Ok(()) } }")),
  Never(Alone("struct U<'q>(Option<&'q DState<'q>>); impl<'q> Sink for U<'q> { fn atom(&mut self, _: Atom, s: &DState) -> Res { self.0 = Some(s); Ok(()) } }")),
  Never(Alone("struct U; impl Sink for U { fn next_key(&mut self, _: &DState) -> Result<SinkHandle, deser::Error> { let mut k = Sk::default(); Ok(SinkHandle::to(&mut k)) } }")),
  Alone("struct U(Sk); impl Sink for U { fn next_key(&mut self, _: &DState) -> Result<SinkHandle, deser::Error> { Ok(SinkHandle::to(&mut self.0)) } }"),
  Alone("struct U(Sk); impl Sink for U { fn next_key(&mut self, _: &DState) -> Result<SinkHandle, deser::Error> { Ok(SinkHandle::boxed(Fwd(&mut self.0))) } }"),
  Alone("struct U(Option<u8>); impl Sink for U { fn next_value(&mut self, _: &DState) -> Result<SinkHandle, deser::Error> { Ok(Deserialize::deserialize_into(&mut self.0)) } }"),
  Never(Alone("struct U; impl Sink for U { fn next_value(&mut self, _: &DState) -> Result<SinkHandle, deser::Error> { let mut o = None::<u8>; Ok(Deserialize::deserialize_into(&mut o)) } }")),
  Never(Alone("struct U; impl Sink for U { fn descriptor(&self) -> &dyn Descriptor { let l = Named(String::new()); &l } }")),
  Alone("struct U(Named); impl Sink for U { fn descriptor(&self) -> &dyn Descriptor { &self.0 } }"),
  Alone("struct U(String); impl Serialize for U { fn serialize(&self, _: &SState) -> Result<Chunk, deser::Error> { Ok(Chunk::Atom(Atom::Str(self.0.as_str().into()))) } }"),
  Never(Alone("struct U; impl Serialize for U { fn serialize(&self, _: &SState) -> Result<Chunk, deser::Error> { let l = String::new(); Ok(Chunk::Atom(Atom::Str(l.as_str().into()))) } }")),
  Never(Alone("struct U; impl Serialize for U { fn serialize(&self, s: &SState) -> Result<Chunk, deser::Error> { let g = s.get::<String>(); Ok(Chunk::Atom(Atom::Str(g.as_str().into()))) } }")),
  Alone("struct U(u8); impl deser::ser::SeqEmitter for U { fn next(&mut self, _: &SState) -> Result<Option<SerializeHandle>, deser::Error> { Ok(Some(SerializeHandle::to(&self.0))) } }"),
  Never(Alone("struct U; impl deser::ser::SeqEmitter for U { fn next(&mut self, _: &SState) -> Result<Option<SerializeHandle>, deser::Error> { let l = 1u8; Ok(Some(SerializeHandle::to(&l))) } }")),
  Never(Alone("struct U<'q>(u8, Option<SerializeHandle<'q>>); impl<'q> deser::ser::SeqEmitter for U<'q> { fn next(&mut self, _: &SState) -> Result<Option<SerializeHandle>, deser::Error> { self.1 = Some(SerializeHandle::to(&self.0)); Ok(None) } }")),
  Never(Alone("fn leak<'q>() -> SerializeDriver<'q> { let l = 1u8; SerializeDriver::new(&l) }")), Never(Alone("fn leak<'q>() -> DeserializeDriver<'q> { let mut l = None::<u8>; DeserializeDriver::new(&mut l) }")),
  Never(Alone("fn leak<'q>() -> DeserializeDriver<'q> { let mut k = Sk::default(); DeserializeDriver::from_sink(SinkHandle::to(&mut k)) }")),
  Alone("fn pass<'q>(h: SinkHandle<'q>) -> DeserializeDriver<'q> { DeserializeDriver::from_sink(h) }"), Alone("fn pass<'q>(v: &'q dyn Serialize) -> SerializeDriver<'q> { SerializeDriver::new(v) }"),
  Never(Alone("fn longer<'q, 'z>(h: SinkHandle<'q>) -> DeserializeDriver<'z> { DeserializeDriver::from_sink(h) }")), Never(Alone("fn longer<'q, 'z>(h: SinkHandle<'q>) -> PathSink<'z> { PathSink::wrap_ref(h) }")),
  Never(Alone("fn longer<'q, 'z>(h: SerializeHandle<'q>) -> PathSerializable<'z> { PathSerializable::wrap_ref(h) }")),
  Never(Alone("fn longer<'q, 'z>(e: &'q Event<'q>) -> Event<'z> { e.clone() }")), Alone("fn longer<'q, 'z>(e: &'q Event<'q>) -> Event<'z> { e.to_static() }"), Alone("fn longer<'q, 'z>(e: &'q Atom<'q>) -> Atom<'z> { e.to_static() }")}
=============================================================================
