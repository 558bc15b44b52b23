//! Canonical form of values and events: arrays led by a tag.  This is the
//! refinement mapping between the implementation and the specification.
use crate::json::J;
use deser::{Atom, Event};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;

pub fn tag(t: &str, rest: Vec<J>) -> J {
    let mut v = vec![J::s(t)];
    v.extend(rest);
    J::Arr(v)
}

pub fn cps(s: &str) -> J {
    J::Arr(s.chars().map(|c| J::Int(c as i64)).collect())
}

pub fn text_of(v: &J) -> String {
    v.arr()
        .iter()
        .map(|x| char::from_u32(x.int() as u32).expect("case format: char"))
        .collect()
}

pub fn bytes_j(b: &[u8]) -> J {
    J::Arr(b.iter().map(|x| J::Int(*x as i64)).collect())
}

pub fn bytes_of(v: &J) -> Vec<u8> {
    v.arr().iter().map(|x| x.int() as u8).collect()
}

pub fn digits(mut v: u128) -> J {
    let mut d = vec![];
    loop {
        d.push(J::Int((v % 10) as i64));
        v /= 10;
        if v == 0 {
            break;
        }
    }
    d.reverse();
    J::Arr(d)
}

pub fn undigits(v: &J) -> u128 {
    v.arr().iter().fold(0u128, |a, d| a * 10 + d.int() as u128)
}

pub fn int_j(v: i128) -> J {
    tag(
        "int",
        vec![J::Int((v < 0) as i64), digits(v.unsigned_abs())],
    )
}

pub fn int_of(v: &J) -> i128 {
    let a = v.arr();
    assert!(a[0].str() == "int", "case format: int expected");
    let m = undigits(&a[2]) as i128;
    if a[1].int() == 1 {
        -m
    } else {
        m
    }
}

/// floats: class (0 zero, 1 finite, 2 infinite, 3 nan), sign, significand and
/// exponent (value = significand * 2^exponent), exact bits as f64
fn float_j(cls: i64, neg: bool, mant: u64, e2: i64, v: f64) -> J {
    tag(
        "f",
        vec![
            J::Int(cls),
            J::Int(if cls == 3 { 0 } else { neg as i64 }),
            digits(mant as u128),
            J::Int(e2),
            J::Str(if cls == 3 {
                "nan".into()
            } else {
                format!("{:016x}", v.to_bits())
            }),
        ],
    )
}

pub fn f64_j(v: f64) -> J {
    let bits = v.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64;
    let m = bits & ((1 << 52) - 1);
    let neg = bits >> 63 == 1;
    match (e, m) {
        (0, 0) => float_j(0, neg, 0, 0, v),
        (0, _) => float_j(1, neg, m, -1074, v),
        (0x7ff, 0) => float_j(2, neg, 0, 0, v),
        (0x7ff, _) => float_j(3, false, 0, 0, v),
        _ => float_j(1, neg, m | (1 << 52), e - 1075, v),
    }
}

pub fn f32_j(v: f32) -> J {
    let bits = v.to_bits();
    let e = ((bits >> 23) & 0xff) as i64;
    let m = (bits & ((1 << 23) - 1)) as u64;
    let neg = bits >> 31 == 1;
    match (e, m) {
        (0, 0) => float_j(0, neg, 0, 0, v as f64),
        (0, _) => float_j(1, neg, m, -149, v as f64),
        (0xff, 0) => float_j(2, neg, 0, 0, v as f64),
        (0xff, _) => float_j(3, false, 0, 0, 0.0),
        _ => float_j(1, neg, m | (1 << 23), e - 150, v as f64),
    }
}

pub fn f64_of(v: &J) -> f64 {
    let a = v.arr();
    assert!(a[0].str() == "f", "case format: float expected");
    match a[5].str() {
        "nan" => f64::NAN,
        s => f64::from_bits(u64::from_str_radix(s, 16).unwrap()),
    }
}

pub fn atom_j(a: &Atom) -> J {
    match a {
        Atom::Null => tag("null", vec![]),
        Atom::Bool(b) => tag("bool", vec![J::Int(*b as i64)]),
        Atom::Str(s) => {
            // never trust that the code under test handed out valid UTF-8
            match std::str::from_utf8(s.as_bytes()) {
                Ok(s) => tag("str", vec![cps(s)]),
                Err(_) => tag("badstr", vec![bytes_j(s.as_bytes())]),
            }
        }
        Atom::Bytes(b) => tag("bytes", vec![bytes_j(b)]),
        Atom::Char(c) => tag("char", vec![J::Int(*c as i64)]),
        Atom::U64(v) => tag("u", vec![digits(*v as u128)]),
        Atom::I64(v) => tag(
            "i",
            vec![J::Int((*v < 0) as i64), digits(v.unsigned_abs() as u128)],
        ),
        Atom::F64(v) => f64_j(*v),
        _ => tag("unknown", vec![]),
    }
}

pub fn event_j(e: &Event) -> J {
    match e {
        Event::Atom(a) => atom_j(a),
        Event::MapStart => tag("M", vec![]),
        Event::MapEnd => tag("m", vec![]),
        Event::SeqStart => tag("S", vec![]),
        Event::SeqEnd => tag("s", vec![]),
    }
}

thread_local! {
    pub static TURN: std::cell::Cell<i64> = std::cell::Cell::new(0);
}

fn turn() -> bool {
    TURN.with(|t| {
        t.set(t.get() + 1);
        // 0110100110010110...
        t.get().count_ones() % 2 == 1
    })
}

pub fn event_of(v: &J) -> Event<'static> {
    let a = v.arr();
    match a[0].str() {
        "M" => Event::MapStart,
        "m" => Event::MapEnd,
        "S" => Event::SeqStart,
        "s" => Event::SeqEnd,
        "null" => Event::Atom(Atom::Null),
        "bool" => Event::Atom(Atom::Bool(a[1].int() != 0)),
        // borrowed and owned data take turns
        "str" if turn() => Event::Atom(Atom::Str(Cow::Borrowed(Box::leak(text_of(&a[1]).into_boxed_str())))),
        "str" => Event::Atom(Atom::Str(Cow::Owned(text_of(&a[1])))),
        "bytes" if turn() => Event::Atom(Atom::Bytes(Cow::Borrowed(Box::leak(bytes_of(&a[1]).into_boxed_slice())))),
        "bytes" => Event::Atom(Atom::Bytes(Cow::Owned(bytes_of(&a[1])))),
        "char" => Event::Atom(Atom::Char(char::from_u32(a[1].int() as u32).unwrap())),
        "u" => Event::Atom(Atom::U64(undigits(&a[1]) as u64)),
        "i" => {
            let m = undigits(&a[2]) as i128;
            Event::Atom(Atom::I64(if a[1].int() == 1 { -m } else { m } as i64))
        }
        "f" => Event::Atom(Atom::F64(f64_of(v))),
        x => panic!("case format: event {}", x),
    }
}

/// Values the harness can move between Rust and the canonical form.
pub trait Canon: Sized {
    fn canon(&self) -> J;
    fn from_canon(v: &J) -> Self;
}

impl Canon for () {
    fn canon(&self) -> J {
        tag("null", vec![])
    }
    fn from_canon(_: &J) -> Self {}
}

impl Canon for bool {
    fn canon(&self) -> J {
        tag("bool", vec![J::Int(*self as i64)])
    }
    fn from_canon(v: &J) -> Self {
        v.arr()[1].int() != 0
    }
}

impl Canon for char {
    fn canon(&self) -> J {
        tag("char", vec![J::Int(*self as i64)])
    }
    fn from_canon(v: &J) -> Self {
        char::from_u32(v.arr()[1].int() as u32).unwrap()
    }
}

impl Canon for String {
    fn canon(&self) -> J {
        match std::str::from_utf8(self.as_bytes()) {
            Ok(s) => tag("str", vec![cps(s)]),
            Err(_) => tag("badstr", vec![bytes_j(self.as_bytes())]),
        }
    }
    fn from_canon(v: &J) -> Self {
        text_of(&v.arr()[1])
    }
}

impl Canon for &'static str {
    fn canon(&self) -> J {
        tag("str", vec![cps(self)])
    }
    fn from_canon(v: &J) -> Self {
        Box::leak(String::from_canon(v).into_boxed_str())
    }
}

impl Canon for Cow<'static, str> {
    fn canon(&self) -> J {
        tag("str", vec![cps(self)])
    }
    fn from_canon(v: &J) -> Self {
        let s = String::from_canon(v);
        if s.len() % 2 == 0 {
            Cow::Owned(s)
        } else {
            Cow::Borrowed(Box::leak(s.into_boxed_str()))
        }
    }
}

macro_rules! int_canon {
    ($($t:ty)*) => {$(
        impl Canon for $t {
            fn canon(&self) -> J { int_j(*self as i128) }
            fn from_canon(v: &J) -> Self { int_of(v) as $t }
        }
    )*}
}
int_canon!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

impl Canon for f64 {
    fn canon(&self) -> J {
        f64_j(*self)
    }
    fn from_canon(v: &J) -> Self {
        f64_of(v)
    }
}

impl Canon for f32 {
    fn canon(&self) -> J {
        f32_j(*self)
    }
    fn from_canon(v: &J) -> Self {
        f64_of(v) as f32
    }
}

impl<T: Canon> Canon for Option<T> {
    fn canon(&self) -> J {
        match self {
            None => tag("none", vec![]),
            Some(v) => tag("some", vec![v.canon()]),
        }
    }
    fn from_canon(v: &J) -> Self {
        match v.arr()[0].str() {
            "none" => None,
            _ => Some(T::from_canon(&v.arr()[1])),
        }
    }
}

impl<T: Canon> Canon for Box<T> {
    fn canon(&self) -> J {
        (**self).canon()
    }
    fn from_canon(v: &J) -> Self {
        Box::new(T::from_canon(v))
    }
}

impl<T: Canon> Canon for &'static T {
    fn canon(&self) -> J {
        (**self).canon()
    }
    fn from_canon(v: &J) -> Self {
        Box::leak(Box::new(T::from_canon(v)))
    }
}

impl<T: Canon> Canon for &'static mut T {
    fn canon(&self) -> J {
        (**self).canon()
    }
    fn from_canon(v: &J) -> Self {
        Box::leak(Box::new(T::from_canon(v)))
    }
}

fn seq_of<T: Canon>(v: &J) -> Vec<T> {
    let a = v.arr();
    if a[0].str() == "bytes" {
        return bytes_of(&a[1])
            .into_iter()
            .map(|b| T::from_canon(&int_j(b as i128)))
            .collect();
    }
    a[1].arr().iter().map(T::from_canon).collect()
}

impl<T: Canon> Canon for Vec<T> {
    fn canon(&self) -> J {
        tag("seq", vec![J::Arr(self.iter().map(|x| x.canon()).collect())])
    }
    fn from_canon(v: &J) -> Self {
        seq_of(v)
    }
}

impl<T: Canon> Canon for &'static [T] {
    fn canon(&self) -> J {
        tag("seq", vec![J::Arr(self.iter().map(|x| x.canon()).collect())])
    }
    fn from_canon(v: &J) -> Self {
        Box::leak(seq_of(v).into_boxed_slice())
    }
}

impl<T: Canon, const N: usize> Canon for [T; N] {
    fn canon(&self) -> J {
        tag("seq", vec![J::Arr(self.iter().map(|x| x.canon()).collect())])
    }
    fn from_canon(v: &J) -> Self {
        seq_of::<T>(v).try_into().ok().expect("case format: array length")
    }
}

impl<K: Canon + Ord, V: Canon> Canon for BTreeMap<K, V> {
    fn canon(&self) -> J {
        let v = self
            .iter()
            .map(|(k, v)| J::Arr(vec![k.canon(), v.canon()]))
            .collect();
        tag("map", vec![J::Arr(v)])
    }
    fn from_canon(v: &J) -> Self {
        v.arr()[1]
            .arr()
            .iter()
            .map(|x| (K::from_canon(&x.arr()[0]), V::from_canon(&x.arr()[1])))
            .collect()
    }
}

/// A hasher with few values, so that different keys collide.
#[derive(Default, Clone, Copy, PartialEq, Eq)]
pub struct Weak(u64);
impl std::hash::Hasher for Weak {
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = (self.0 + u64::from(b)) % 3;
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
impl std::hash::BuildHasher for Weak {
    type Hasher = Weak;
    fn build_hasher(&self) -> Weak {
        Weak(0)
    }
}

impl<K: Canon + Eq + Hash, V: Canon, S: std::hash::BuildHasher + Default> Canon for HashMap<K, V, S> {
    fn canon(&self) -> J {
        let v = self
            .iter()
            .map(|(k, v)| J::Arr(vec![k.canon(), v.canon()]))
            .collect();
        tag("map", vec![J::Arr(v)])
    }
    fn from_canon(v: &J) -> Self {
        v.arr()[1]
            .arr()
            .iter()
            .map(|x| (K::from_canon(&x.arr()[0]), V::from_canon(&x.arr()[1])))
            .collect()
    }
}

impl<T: Canon + Ord> Canon for BTreeSet<T> {
    fn canon(&self) -> J {
        tag("set", vec![J::Arr(self.iter().map(|x| x.canon()).collect())])
    }
    fn from_canon(v: &J) -> Self {
        v.arr()[1].arr().iter().map(T::from_canon).collect()
    }
}

impl<T: Canon + Eq + Hash, S: std::hash::BuildHasher + Default> Canon for HashSet<T, S> {
    fn canon(&self) -> J {
        tag("set", vec![J::Arr(self.iter().map(|x| x.canon()).collect())])
    }
    fn from_canon(v: &J) -> Self {
        v.arr()[1].arr().iter().map(T::from_canon).collect()
    }
}

macro_rules! tuple_canon {
    ($($n:ident $i:tt),+) => {
        impl<$($n: Canon),+> Canon for ($($n,)+) {
            fn canon(&self) -> J {
                tag("seq", vec![J::Arr(vec![$(self.$i.canon()),+])])
            }
            fn from_canon(v: &J) -> Self {
                let a = v.arr()[1].arr();
                ($($n::from_canon(&a[$i]),)+)
            }
        }
    }
}
tuple_canon!(A 0);
tuple_canon!(A 0, B 1);
tuple_canon!(A 0, B 1, C 2);
tuple_canon!(A 0, B 1, C 2, D 3);
tuple_canon!(A 0, B 1, C 2, D 3, E 4);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10);
tuple_canon!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9, L 10, M 11);
