//! Hand-written types with open ended keys: as a struct on their own, or
//! flattened into a derived struct, where they take the keys that are left.
use crate::canon::{tag, Canon};
use crate::json::J;
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, SerializeHandle, SerializerState, StructEmitter};
use deser::{Descriptor, Error, Serialize};
use std::borrow::Cow;
use std::collections::{btree_map, BTreeMap};

/// `X`: only takes keys that start with `x-`.
pub struct Bag<V, const X: bool>(pub BTreeMap<String, V>);

impl<V, const X: bool> Default for Bag<V, X> {
    fn default() -> Self {
        Bag(BTreeMap::new())
    }
}

impl<V: Canon, const X: bool> Canon for Bag<V, X> {
    fn canon(&self) -> J {
        self.0.canon()
    }
    fn from_canon(v: &J) -> Self {
        Bag(Canon::from_canon(v))
    }
}

struct BagDescriptor;
impl Descriptor for BagDescriptor {
    fn name(&self) -> Option<&str> {
        Some("Bag")
    }
}

/// A value that is handed out as an owned object.
struct Lent<'a, V>(&'a V);
impl<V: Serialize> Serialize for Lent<'_, V> {
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.0.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
}

struct Emitter<'a, V>(btree_map::Iter<'a, String, V>);
impl<V: Serialize> StructEmitter for Emitter<'_, V> {
    fn next(
        &mut self,
        _state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        Ok(self.0.next().map(|(k, v)| {
            if k.len() % 2 == 0 {
                (Cow::Owned(k.clone()), SerializeHandle::to(v))
            } else {
                (Cow::Borrowed(&k[..]), SerializeHandle::boxed(Lent(v)))
            }
        }))
    }
}

impl<V: Serialize, const X: bool> Serialize for Bag<V, X> {
    fn descriptor(&self) -> &dyn Descriptor {
        &BagDescriptor
    }
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(Chunk::Struct(Box::new(Emitter(self.0.iter()))))
    }
}

struct BagSink<'a, V, const X: bool> {
    out: &'a mut Option<Bag<V, X>>,
    map: BTreeMap<String, V>,
    key: Option<String>,
    open: Option<String>,
    value: Option<V>,
}

impl<V, const X: bool> BagSink<'_, V, X> {
    fn flush(&mut self) {
        if let (Some(k), Some(v)) = (self.open.take(), self.value.take()) {
            self.map.insert(k, v);
        }
    }
}

impl<V: Deserialize, const X: bool> Deserialize for Bag<V, X> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(BagSink {
            out,
            map: BTreeMap::new(),
            key: None,
            open: None,
            value: None,
        })
    }
}

impl<V: Deserialize, const X: bool> Sink for BagSink<'_, V, X> {
    fn descriptor(&self) -> &dyn Descriptor {
        &BagDescriptor
    }
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Owned("anything for a bag".to_string())
    }
    fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(String::deserialize_into(&mut self.key))
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        let key = self.key.take().unwrap();
        Ok(self
            .value_for_key(&key, state)?
            .unwrap_or_else(SinkHandle::null))
    }
    fn value_for_key(
        &mut self,
        key: &str,
        _state: &DeserializerState,
    ) -> Result<Option<SinkHandle<'_>>, Error> {
        self.flush();
        if X && !key.starts_with("x-") {
            return Ok(None);
        }
        self.open = Some(key.to_string());
        Ok(Some(V::deserialize_into(&mut self.value)))
    }
    fn finish(&mut self, _state: &DeserializerState) -> Result<(), Error> {
        self.flush();
        *self.out = Some(Bag(std::mem::take(&mut self.map)));
        Ok(())
    }
}
