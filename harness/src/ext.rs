//! Extension values: histories of accesses through several live drivers.
use crate::canon::tag;
use crate::guarded;
use crate::json::{obj, J};
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeDriver, SerializeHandle, SerializerState};
use deser::{Atom, Descriptor, Error, Event, Serialize};
use deser_path::{PathSerializable, PathSink};
use std::cell::{Cell, Ref, RefCell, RefMut};
use std::fmt::Debug;
use std::marker::PhantomData;

trait St {
    fn g<T: Default + Debug + 'static>(&self) -> Ref<'_, T>;
    fn gm<T: Default + Debug + 'static>(&self) -> RefMut<'_, T>;
}
impl<'a> St for SerializerState<'a> {
    fn g<T: Default + Debug + 'static>(&self) -> Ref<'_, T> {
        self.get()
    }
    fn gm<T: Default + Debug + 'static>(&self) -> RefMut<'_, T> {
        self.get_mut()
    }
}
impl<'a> St for DeserializerState<'a> {
    fn g<T: Default + Debug + 'static>(&self) -> Ref<'_, T> {
        self.get()
    }
    fn gm<T: Default + Debug + 'static>(&self) -> RefMut<'_, T> {
        self.get_mut()
    }
}

/// what is kept in an extension value
trait Val: Default + Debug + 'static {
    fn rd(&self) -> i64;
    fn wr(&mut self, v: i64);
}

macro_rules! val {
    ($t:ty, $d:expr) => {
        impl Default for $t {
            fn default() -> Self {
                Self($d)
            }
        }
        impl Val for $t {
            fn rd(&self) -> i64 {
                self.0 as i64
            }
            fn wr(&mut self, v: i64) {
                self.0 = v as u64;
            }
        }
    };
}

#[derive(Debug)]
struct A(u64);
#[derive(Debug)]
struct B(u64);
val!(A, 0);
val!(B, 100);

mod other {
    #[derive(Debug)]
    pub struct A(pub u64);
}
val!(other::A, 600);

struct W<T>(u64, PhantomData<T>);
impl<T> Debug for W<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "W")
    }
}
impl<T> Default for W<T> {
    fn default() -> Self {
        W(400, PhantomData)
    }
}
impl<T: 'static> Val for W<T> {
    fn rd(&self) -> i64 {
        self.0 as i64
    }
    fn wr(&mut self, v: i64) {
        self.0 = v as u64;
    }
}
#[derive(Debug)]
struct S(String);
impl Default for S {
    fn default() -> Self {
        S("500".into())
    }
}
impl Val for S {
    fn rd(&self) -> i64 {
        self.0.parse().unwrap_or(-1)
    }
    fn wr(&mut self, v: i64) {
        self.0 = v.to_string();
    }
}
impl Val for u64 {
    fn rd(&self) -> i64 {
        *self as i64
    }
    fn wr(&mut self, v: i64) {
        *self = v as u64;
    }
}

/// values of other sizes and shapes
#[derive(Debug)]
struct Big([u64; 9]);
impl Default for Big {
    fn default() -> Self {
        Big([800; 9])
    }
}
#[derive(Debug)]
struct Huge([u64; 500]);
impl Default for Huge {
    fn default() -> Self {
        Huge([850; 500])
    }
}
#[derive(Debug)]
#[repr(align(64))]
struct Aligned(u64);
val!(Aligned, 900);
#[derive(Debug)]
struct Small(u16);
impl Default for Small {
    fn default() -> Self {
        Small(7)
    }
}
#[derive(Debug)]
struct Shared(std::rc::Rc<Cell<i64>>);
impl Default for Shared {
    fn default() -> Self {
        Shared(std::rc::Rc::new(Cell::new(950)))
    }
}
/// a family of types
#[derive(Debug)]
struct Nth<const K: i64>(i64);
impl<const K: i64> Default for Nth<K> {
    fn default() -> Self {
        Nth(-K)
    }
}
macro_rules! vals {
    ($([$($g:tt)*] $t:ty, $s:ident, $rd:expr, $v:ident, $wr:expr;)*) => {
        $(
            impl<$($g)*> Val for $t {
                fn rd(&self) -> i64 {
                    let $s = self;
                    $rd
                }
                fn wr(&mut self, $v: i64) {
                    let $s = self;
                    $wr
                }
            }
        )*
    };
}
/// an array that has to be the same all over
fn all(x: &[u64]) -> i64 {
    if x.iter().all(|y| *y == x[0]) {
        x[0] as i64
    } else {
        -3
    }
}
vals! {
    [] Big, x, all(&x.0), v, x.0 = [v as u64; 9];
    [] Huge, x, all(&x.0), v, x.0 = [v as u64; 500];
    [] Small, x, x.0.into(), v, x.0 = v as u16;
    [] [u64; 2], x, all(&x[..]), v, *x = [v as u64; 2];
    [] [u64; 3], x, all(&x[..]), v, *x = [v as u64; 3];
    [] Option<Box<i64>>, x, x.as_deref().copied().unwrap_or(0), v, *x = Some(Box::new(v));
    [] String, x, x.parse().unwrap_or(0), v, *x = v.to_string();
    [] (i64, String), x, x.0, v, *x = (v, v.to_string());
    [] i64, x, *x, v, *x = v;
    [] Shared, x, x.0.get(), v, x.0.set(v);
    [const K: i64] Nth<K>, x, x.0, v, x.0 = v;
}
impl Val for Vec<u64> {
    fn rd(&self) -> i64 {
        self.last().copied().unwrap_or(0) as i64
    }
    fn wr(&mut self, v: i64) {
        self.push(v as u64);
    }
}

thread_local! {
    static LIVE: Cell<i64> = Cell::new(0);
    static LOG: RefCell<Vec<J>> = RefCell::new(vec![]);
    /// driver, accesses, callback of the step in which they happen
    static PENDING: RefCell<(i64, Vec<J>, i64)> = RefCell::new((0, vec![], -1));
    static WRITES: Cell<i64> = Cell::new(0);
}

/// an extension value whose drops are counted
#[derive(Debug)]
struct Tracked(u64);
impl Default for Tracked {
    fn default() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tracked(700)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Val for Tracked {
    fn rd(&self) -> i64 {
        self.0 as i64
    }
    fn wr(&mut self, v: i64) {
        self.0 = v as u64;
    }
}

fn log(j: J) {
    LOG.with(|l| l.borrow_mut().push(j));
}

fn one<T: Val>(st: &impl St, d: i64, op: &str, t: i64, w: &str) {
    let (old, new) = match op {
        "get" => (st.g::<T>().rd(), 0),
        // two values of the type read at the same time
        "two" => {
            let x = st.g::<T>();
            let y = st.g::<T>();
            if x.rd() != y.rd() {
                (-2, 0)
            } else {
                (x.rd(), 0)
            }
        }
        "peek" => (st.gm::<T>().rd(), 0),
        "set" => {
            let n = 1000 + WRITES.with(|x| x.replace(x.get() + 1));
            let mut x = st.gm::<T>();
            let old = x.rd();
            x.wr(n);
            (old, n)
        }
        x => panic!("case format: access {}", x),
    };
    log(tag("acc", vec![J::Int(d), J::s(op), J::Int(t), J::Int(old), J::Int(new), J::s(w)]));
}

fn access(st: &impl St, d: i64, op: &str, t: i64, w: &str) {
    match t {
        1 => one::<A>(st, d, op, t, w),
        2 => one::<B>(st, d, op, t, w),
        // two types with the same name
        3 => {
            #[derive(Debug)]
            struct X(u64);
            val!(X, 200);
            one::<X>(st, d, op, t, w)
        }
        4 => {
            #[derive(Debug)]
            struct X(u64);
            val!(X, 300);
            one::<X>(st, d, op, t, w)
        }
        5 => one::<W<u8>>(st, d, op, t, w),
        6 => one::<W<u16>>(st, d, op, t, w),
        7 => one::<S>(st, d, op, t, w),
        8 => one::<u64>(st, d, op, t, w),
        9 => one::<Vec<u64>>(st, d, op, t, w),
        10 => one::<Tracked>(st, d, op, t, w),
        11 => one::<other::A>(st, d, op, t, w),
        12 => one::<Big>(st, d, op, t, w),
        13 => one::<Huge>(st, d, op, t, w),
        14 => one::<Aligned>(st, d, op, t, w),
        15 => one::<Small>(st, d, op, t, w),
        16 => one::<[u64; 2]>(st, d, op, t, w),
        17 => one::<[u64; 3]>(st, d, op, t, w),
        18 => one::<Option<Box<i64>>>(st, d, op, t, w),
        19 => one::<String>(st, d, op, t, w),
        20 => one::<(i64, String)>(st, d, op, t, w),
        21 => one::<i64>(st, d, op, t, w),
        22 => one::<Shared>(st, d, op, t, w),
        23 => one::<Nth<23>>(st, d, op, t, w),
        24 => one::<Nth<24>>(st, d, op, t, w),
        25 => one::<Nth<25>>(st, d, op, t, w),
        26 => one::<Nth<26>>(st, d, op, t, w),
        27 => one::<Nth<27>>(st, d, op, t, w),
        28 => one::<Nth<28>>(st, d, op, t, w),
        29 => one::<Nth<29>>(st, d, op, t, w),
        30 => one::<Nth<30>>(st, d, op, t, w),
        31 => one::<Nth<31>>(st, d, op, t, w),
        32 => one::<Nth<32>>(st, d, op, t, w),
        33 => one::<Nth<33>>(st, d, op, t, w),
        34 => one::<Nth<34>>(st, d, op, t, w),
        35 => one::<Nth<35>>(st, d, op, t, w),
        36 => one::<Nth<36>>(st, d, op, t, w),
        37 => one::<Nth<37>>(st, d, op, t, w),
        38 => one::<Nth<38>>(st, d, op, t, w),
        39 => one::<Nth<39>>(st, d, op, t, w),
        40 => one::<Nth<40>>(st, d, op, t, w),
        41 => one::<Nth<41>>(st, d, op, t, w),
        42 => one::<Nth<42>>(st, d, op, t, w),
        43 => one::<Nth<43>>(st, d, op, t, w),
        44 => one::<Nth<44>>(st, d, op, t, w),
        45 => one::<Nth<45>>(st, d, op, t, w),
        46 => one::<Nth<46>>(st, d, op, t, w),
        47 => one::<Nth<47>>(st, d, op, t, w),
        48 => one::<Nth<48>>(st, d, op, t, w),
        49 => one::<Nth<49>>(st, d, op, t, w),
        50 => one::<Nth<50>>(st, d, op, t, w),
        51 => one::<Nth<51>>(st, d, op, t, w),
        52 => one::<Nth<52>>(st, d, op, t, w),
        53 => one::<Nth<53>>(st, d, op, t, w),
        54 => one::<Nth<54>>(st, d, op, t, w),
        55 => one::<Nth<55>>(st, d, op, t, w),
        56 => one::<Nth<56>>(st, d, op, t, w),
        57 => one::<Nth<57>>(st, d, op, t, w),
        58 => one::<Nth<58>>(st, d, op, t, w),
        59 => one::<Nth<59>>(st, d, op, t, w),
        60 => one::<Nth<60>>(st, d, op, t, w),
        61 => one::<Nth<61>>(st, d, op, t, w),
        62 => one::<Nth<62>>(st, d, op, t, w),
        63 => one::<Nth<63>>(st, d, op, t, w),
        64 => one::<Nth<64>>(st, d, op, t, w),
        65 => one::<Nth<65>>(st, d, op, t, w),
        66 => one::<Nth<66>>(st, d, op, t, w),
        67 => one::<Nth<67>>(st, d, op, t, w),
        68 => one::<Nth<68>>(st, d, op, t, w),
        69 => one::<Nth<69>>(st, d, op, t, w),
        70 => one::<Nth<70>>(st, d, op, t, w),
        71 => one::<Nth<71>>(st, d, op, t, w),
        72 => one::<Nth<72>>(st, d, op, t, w),
        73 => one::<Nth<73>>(st, d, op, t, w),
        74 => one::<Nth<74>>(st, d, op, t, w),
        75 => one::<Nth<75>>(st, d, op, t, w),
        76 => one::<Nth<76>>(st, d, op, t, w),
        77 => one::<Nth<77>>(st, d, op, t, w),
        78 => one::<Nth<78>>(st, d, op, t, w),
        79 => one::<Nth<79>>(st, d, op, t, w),
        80 => one::<Nth<80>>(st, d, op, t, w),
        81 => one::<Nth<81>>(st, d, op, t, w),
        82 => one::<Nth<82>>(st, d, op, t, w),
        83 => one::<Nth<83>>(st, d, op, t, w),
        84 => one::<Nth<84>>(st, d, op, t, w),
        85 => one::<Nth<85>>(st, d, op, t, w),
        86 => one::<Nth<86>>(st, d, op, t, w),
        x => panic!("case format: type {}", x),
    }
}

fn accesses(st: &impl St, d: i64, list: &[J], w: &str) {
    for a in list {
        let a = a.arr();
        if a[0].str() == "nest" {
            // a driver of its own in the middle of another one
            let inner = SerializeDriver::new(&1u8);
            let mut out = None::<u8>;
            let inner2 = DeserializeDriver::new(&mut out);
            log(tag("open", vec![J::Int(90), J::s("ser")]));
            log(tag("open", vec![J::Int(91), J::s("de")]));
            access(inner.state(), 90, "set", a[1].int(), "nest");
            access(inner2.state(), 91, "set", a[1].int(), "nest");
            access(inner.state(), 90, "get", a[1].int(), "nest");
            drop(inner);
            drop(inner2);
            log(tag("close", vec![J::Int(90), J::Int(-1)]));
            log(tag("close", vec![J::Int(91), J::Int(LIVE.with(|l| l.get()))]));
        } else {
            access(st, d, a[0].str(), a[1].int(), w);
        }
    }
}

fn hook(st: &impl St, w: &str) -> Result<(), Error> {
    let now = PENDING.with(|p| {
        let mut p = p.borrow_mut();
        let hit = p.2 == 0;
        p.2 -= 1;
        if hit {
            Some((p.0, std::mem::take(&mut p.1)))
        } else {
            None
        }
    });
    if let Some((d, list)) = now {
        accesses(st, d, &list, w);
    }
    // the callback fails when it was told to, after the access
    let f = FAULT.with(|f| {
        let (at, how) = f.get();
        f.set((at - 1, how));
        if at == 0 {
            how
        } else {
            ' '
        }
    });
    match f {
        'e' => Err(Error::new(deser::ErrorKind::Unexpected, "injected")),
        'p' => panic!("injected panic"),
        _ => Ok(()),
    }
}

thread_local! {
    static FAULT: Cell<(i64, char)> = Cell::new((-1, ' '));
}

/// an endless value
struct Inf;
struct Atomic;
struct Few(bool);
struct Em(usize, bool);
struct NoDesc;
impl Descriptor for NoDesc {}
static ROOT: Inf = Inf;

impl Serialize for Inf {
    fn descriptor(&self) -> &dyn Descriptor {
        &NoDesc
    }
    fn serialize(&self, st: &SerializerState) -> Result<Chunk, Error> {
        hook(st, "serialize")?;
        Ok(Chunk::Seq(Box::new(Em(0, true))))
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        hook(st, "finish")
    }
}
impl Serialize for Atomic {
    fn descriptor(&self) -> &dyn Descriptor {
        &NoDesc
    }
    fn serialize(&self, st: &SerializerState) -> Result<Chunk, Error> {
        hook(st, "serialize")?;
        Ok(Chunk::Atom(Atom::U64(1)))
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        hook(st, "finish")
    }
}
impl Serialize for Few {
    fn descriptor(&self) -> &dyn Descriptor {
        &NoDesc
    }
    fn serialize(&self, st: &SerializerState) -> Result<Chunk, Error> {
        hook(st, "serialize")?;
        Ok(if self.0 { Chunk::Map(Box::new(Em(0, false))) } else { Chunk::Seq(Box::new(Em(0, false))) })
    }
    fn finish(&self, st: &SerializerState) -> Result<(), Error> {
        hook(st, "finish")
    }
}
impl SeqEmitter for Em {
    fn next(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        hook(st, "next")?;
        self.0 += 1;
        Ok(match (self.1, self.0 % 3) {
            (true, 0) => Some(SerializeHandle::boxed(Few(true))),
            (true, 1) => Some(SerializeHandle::boxed(Atomic)),
            (true, _) => Some(SerializeHandle::boxed(Few(false))),
            (false, 1) => Some(SerializeHandle::boxed(Atomic)),
            _ => None,
        })
    }
}
impl MapEmitter for Em {
    fn next_key(&mut self, st: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        hook(st, "key")?;
        self.0 += 1;
        Ok(if self.0 > 1 { None } else { Some(SerializeHandle::boxed(Atomic)) })
    }
    fn next_value(&mut self, st: &SerializerState) -> Result<SerializeHandle, Error> {
        hook(st, "value")?;
        Ok(SerializeHandle::boxed(Atomic))
    }
}

struct All;
impl Sink for All {
    fn atom(&mut self, _: Atom, st: &DeserializerState) -> Result<(), Error> {
        hook(st, "atom")
    }
    fn map(&mut self, st: &DeserializerState) -> Result<(), Error> {
        hook(st, "map")
    }
    fn seq(&mut self, st: &DeserializerState) -> Result<(), Error> {
        hook(st, "seq")
    }
    fn next_key(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        hook(st, "key")?;
        Ok(SinkHandle::boxed(All))
    }
    fn next_value(&mut self, st: &DeserializerState) -> Result<SinkHandle, Error> {
        hook(st, "value")?;
        Ok(SinkHandle::boxed(All))
    }
    fn finish(&mut self, st: &DeserializerState) -> Result<(), Error> {
        hook(st, "finish")
    }
}

/// over: the data is complete or there was an error
enum What {
    Ser(SerializeDriver<'static>),
    De(DeserializeDriver<'static>, usize, char),
}
struct Live {
    what: What,
    over: bool,
}

fn open(kind: &str) -> Live {
    let de = |c| What::De(DeserializeDriver::from_sink(SinkHandle::boxed(All)), 0, c);
    let what = match kind {
        "ser" => What::Ser(SerializeDriver::new(&ROOT)),
        "serp" => What::Ser(SerializeDriver::new(Box::leak(Box::new(PathSerializable::wrap(&ROOT))))),
        // with an end
        "serf" => What::Ser(SerializeDriver::new(&Few(true))),
        "sera" => What::Ser(SerializeDriver::new(&Atomic)),
        "de" => de('i'),
        "dep" => What::De(
            DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(All)))),
            0,
            'i',
        ),
        "def" => de('f'),
        "dea" => de('a'),
        // ever deeper
        "ded" => de('d'),
        // all of it ignored
        "den" => What::De(DeserializeDriver::from_sink(SinkHandle::null()), 0, 'f'),
        x => panic!("case format: driver {}", x),
    };
    Live { what, over: false }
}

fn step(live: &mut Live, d: i64, list: &[J], w: &str) {
    let at: i64 = match w {
        "caller" | "ret" => -1,
        _ => w[2..].parse().expect("case format: where"),
    };
    if w == "caller" || live.over {
        match &live.what {
            What::Ser(x) => accesses(x.state(), d, list, w),
            What::De(x, _, _) => accesses(x.state(), d, list, w),
        }
        return;
    }
    PENDING.with(|p| *p.borrow_mut() = (d, if at >= 0 { list.to_vec() } else { vec![] }, at));
    let over = guarded(|| match &mut live.what {
        What::Ser(x) => match x.next() {
            Ok(Some((_, _, st))) => {
                if w == "ret" {
                    accesses(st, d, list, w);
                }
                false
            }
            _ => true,
        },
        What::De(x, n, pattern) => {
            let ev: Event = match *n % 8 {
                _ if *pattern == 'a' => Event::Atom(Atom::U64(1)),
                _ if *n == 0 => Event::SeqStart,
                k if *pattern == 'd' => match k % 4 {
                    0 => Event::SeqStart,
                    1 => Event::MapStart,
                    2 => Event::Atom(Atom::U64(1)),
                    _ => Event::SeqStart,
                },
                1 => Event::Atom(Atom::U64(1)),
                2 => Event::MapStart,
                3 => Event::Atom(Atom::Str("k".into())),
                4 => Event::Atom(Atom::Null),
                5 => Event::MapEnd,
                6 if *pattern == 'f' => Event::SeqEnd,
                6 => Event::SeqStart,
                7 => Event::Atom(Atom::U64(2)),
                _ => Event::SeqEnd,
            };
            *n += 1;
            let r = x.emit(ev);
            if w == "ret" {
                accesses(x.state(), d, list, w);
            }
            r.is_err() || *pattern == 'a' || (*pattern == 'f' && *n == 7)
        }
    });
    live.over = match over {
        Ok(over) => over,
        Err(m) if m == "injected panic" => true,
        Err(m) => panic!("{}", m),
    };
    PENDING.with(|p| *p.borrow_mut() = (0, vec![], -1));
    FAULT.with(|f| f.set((-1, ' ')));
}

pub fn op_ext(case: &J) -> J {
    LOG.with(|l| l.borrow_mut().clear());
    WRITES.with(|w| w.set(0));
    LIVE.with(|w| w.set(0));
    let mut drivers: Vec<(i64, Live)> = vec![];
    FAULT.with(|f| f.set((-1, ' ')));
    let r = guarded(|| {
        for s in case.get("steps").arr() {
            let s = s.arr();
            let d = s[1].int();
            match s[0].str() {
                "open" => {
                    drivers.push((d, open(s[2].str())));
                    log(tag("open", vec![J::Int(d), s[2].clone()]));
                }
                "close" => {
                    drivers.retain(|x| x.0 != d);
                    log(tag("close", vec![J::Int(d), J::Int(LIVE.with(|l| l.get()))]));
                }
                // one of the callbacks of the next call fails
                "fault" => FAULT.with(|f| f.set((s[3].int(), s[2].str().chars().next().unwrap()))),
                _ => {
                    let live = &mut drivers.iter_mut().find(|x| x.0 == d).expect("case format: driver").1;
                    step(live, d, s[2].arr(), s[3].str());
                }
            }
        }
    });
    if r.is_err() {
        log(tag("panic", vec![]));
    }
    while !drivers.is_empty() {
        let d = drivers.remove(0).0;
        log(tag("close", vec![J::Int(d), J::Int(LIVE.with(|l| l.get()))]));
    }
    log(tag("over", vec![]));
    obj(vec![
        ("id", case.get("id").clone()),
        ("log", J::Arr(LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))),
    ])
}
