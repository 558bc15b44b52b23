//! A transparent serializable wrapper that logs start and finish.
use crate::canon::{tag, Canon};
use crate::json::J;
use crate::record::path_j;
use deser::de::{Deserialize, SinkHandle};
use deser::ser::{Chunk, SerializerState};
use deser::{Descriptor, Error, ErrorKind, Serialize};
use std::cell::{Cell, RefCell};

thread_local! {
    pub static LOG: RefCell<Vec<J>> = RefCell::new(vec![]);
    static NEXT: Cell<i64> = Cell::new(0);
    /// callbacks left until one fails (<0: never)
    static FAIL: Cell<i64> = Cell::new(-1);
    static PATHS: Cell<bool> = Cell::new(false);
}

pub fn reset(fail_at: i64, paths: bool) {
    LOG.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(0));
    FAIL.with(|n| n.set(fail_at));
    PATHS.with(|n| n.set(paths));
}

pub fn log(j: J) {
    LOG.with(|l| l.borrow_mut().push(j));
}

pub fn take() -> Vec<J> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn fault() -> Result<(), Error> {
    crate::side::within();
    FAIL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(-1);
            log(tag("inj", vec![]));
            return Err(Error::new(ErrorKind::EndOfFile, "injected"));
        }
        if v > 0 {
            f.set(v - 1);
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Default)]
pub struct Probe<T> {
    pub inner: T,
    id: Cell<i64>,
}

impl<T> Probe<T> {
    pub fn of(inner: T) -> Self {
        Probe {
            inner,
            id: Cell::new(-1),
        }
    }
}

impl<T: PartialEq> PartialEq for Probe<T> {
    fn eq(&self, o: &Self) -> bool {
        self.inner == o.inner
    }
}
impl<T: Eq> Eq for Probe<T> {}
impl<T: PartialOrd> PartialOrd for Probe<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.inner.partial_cmp(&o.inner)
    }
}
impl<T: Ord> Ord for Probe<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&o.inner)
    }
}
impl<T: std::hash::Hash> std::hash::Hash for Probe<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.inner.hash(h)
    }
}

fn entry(k: &str, id: i64, state: &SerializerState) -> J {
    let path = if PATHS.with(|p| p.get()) {
        path_j(&state.get::<deser_path::Path>())
    } else {
        J::Arr(vec![])
    };
    tag(k, vec![J::Int(id), path])
}

impl<T: Serialize> Serialize for Probe<T> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        self.id.set(id);
        log(entry("B", id, state));
        fault()?;
        self.inner.serialize(state)
    }

    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        log(entry("F", self.id.get(), state));
        fault()?;
        self.inner.finish(state)
    }

    fn is_optional(&self) -> bool {
        self.inner.is_optional()
    }

    fn descriptor(&self) -> &dyn Descriptor {
        self.inner.descriptor()
    }
}

// Only so that types holding probes can be used where both directions are
// required by a generated container.
impl<T: Deserialize> Deserialize for Probe<T> {
    fn deserialize_into(_out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::null()
    }
}

impl<T: Canon> Canon for Probe<T> {
    fn canon(&self) -> J {
        self.inner.canon()
    }
    fn from_canon(v: &J) -> Self {
        Probe::of(T::from_canon(v))
    }
}
