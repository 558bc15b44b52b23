//! A type that accepts any event stream and records what it was given.
use crate::canon::{atom_j, cps, digits, tag};
use crate::json::J;
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Error};
use std::cell::{Cell, RefCell};

thread_local! {
    static EVS: RefCell<Vec<J>> = RefCell::new(vec![]);
    static PATHS: Cell<bool> = Cell::new(false);
}

pub fn start(paths: bool) {
    EVS.with(|e| e.borrow_mut().clear());
    PATHS.with(|p| p.set(paths));
}

pub fn take() -> Vec<J> {
    EVS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}

pub fn path_j(p: &deser_path::Path) -> J {
    J::Arr(
        p.segments()
            .iter()
            .map(|s| match s {
                deser_path::PathSegment::Unknown => tag("U", vec![]),
                deser_path::PathSegment::Index(i) => tag("I", vec![digits(*i as u128)]),
                deser_path::PathSegment::Key(k) => tag("K", vec![cps(k)]),
            })
            .collect(),
    )
}

fn push(j: J) {
    EVS.with(|e| e.borrow_mut().push(j));
}

/// The recorded value; the content is in the log.
pub struct Any;

struct AnySink<'a> {
    out: Option<&'a mut Option<Any>>,
    end: &'static str,
}

fn child<'x>() -> SinkHandle<'x> {
    SinkHandle::boxed(AnySink { out: None, end: "" })
}

impl Deserialize for Any {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(AnySink {
            out: Some(out),
            end: "",
        })
    }
}

impl<'a> Sink for AnySink<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        crate::side::within();
        if PATHS.with(|p| p.get()) {
            let p = path_j(&state.get::<deser_path::Path>());
            push(J::Arr(vec![atom_j(&atom), p]));
        } else {
            push(atom_j(&atom));
        }
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        push(tag("M", vec![]));
        self.end = "m";
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        push(tag("S", vec![]));
        self.end = "s";
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(child())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(child())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        if self.end != "" {
            push(tag(self.end, vec![]));
        }
        if let Some(out) = self.out.as_mut() {
            **out = Some(Any);
        }
        Ok(())
    }
}
