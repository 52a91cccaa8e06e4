//! One row of type-erased operations per type of the catalogue.
use crate::json::J;
pub use oasis_cbor::{DecodeError, Value};

pub type Enc<T> = fn(&J) -> T;
pub type Dec = fn(Value) -> Result<J, DecodeError>;
pub type DecB = fn(&[u8]) -> Result<J, DecodeError>;

pub struct Row {
    pub id: &'static str,
    pub group: &'static str,
    pub value: Enc<Value>,
    pub method: Enc<Value>,
    pub optional: Enc<Option<Value>>,
    pub empty: Enc<bool>,
    pub bytes: Enc<Vec<u8>>,
    /// The type is usable where an always-a-map type is demanded, and what it does there.
    pub marked: bool,
    pub map: Enc<Option<(Value, Vec<(Value, Value)>)>>,
    /// Only what the model itself says: the datum through the Rust type and back.
    pub model: fn(&J) -> J,
    pub dec: Option<Decs>,
}
pub struct Decs {
    pub default: Dec,
    pub from_value: Dec,
    pub element: Dec,
    pub slice: DecB,
    pub lenient: DecB,
    pub missing: fn() -> Result<J, DecodeError>,
}

/// Calls the methods of `EncodeAsMap` where the type has them: an inherent method wins over the
/// trait's if its bounds hold.
pub struct Probe<T>(pub fn(&J) -> T);
impl<T: oasis_cbor::EncodeAsMap> Probe<T> {
    pub fn marked(&self) -> bool {
        true
    }
    pub fn entries(&self, j: &J) -> Option<(Value, Vec<(Value, Value)>)> {
        Some((self.0(j).into_cbor_value_map(), self.0(j).into_cbor_map()))
    }
}
pub trait Unmarked {
    fn marked(&self) -> bool {
        false
    }
    fn entries(&self, _: &J) -> Option<(Value, Vec<(Value, Value)>)> {
        None
    }
}
impl<T> Unmarked for Probe<T> {}

pub fn sorted(mut v: Vec<J>) -> J {
    v.sort_by_cached_key(|x| x.show());
    J::Arr(v)
}
pub fn variant(n: &str, fields: Vec<J>) -> J {
    J::Arr(vec![J::s(n), J::Arr(fields)])
}

#[macro_export]
macro_rules! row {
    ($id:expr, $group:expr, $ty:ty, $to:path, $from:path, $dec:ident) => {
        Row {
            id: $id,
            group: $group,
            value: |j| oasis_cbor::to_value::<$ty>($from(j)),
            method: |j| <$ty as oasis_cbor::Encode>::into_cbor_value($from(j)),
            optional: |j| <$ty as oasis_cbor::Encode>::into_optional_cbor_value($from(j)),
            empty: |j| <$ty as oasis_cbor::Encode>::is_empty(&$from(j)),
            bytes: |j| oasis_cbor::to_vec::<$ty>($from(j)),
            marked: Probe::<$ty>($from).marked(),
            map: |j| Probe::<$ty>($from).entries(j),
            model: |j| $to(&$from(j)),
            dec: row!(@$dec $ty, $to),
        }
    };
    (@dec $ty:ty, $to:path) => {
        Some(Decs {
            default: |v| <$ty as oasis_cbor::Decode>::try_from_cbor_value_default(v).map(|x| $to(&x)),
            from_value: |v| oasis_cbor::from_value::<$ty>(v).map(|x| $to(&x)),
            element: |v| <$ty as oasis_cbor::Decode>::try_from_cbor_value(v).map(|x| $to(&x)),
            slice: |b| oasis_cbor::from_slice::<$ty>(b).map(|x| $to(&x)),
            lenient: |b| oasis_cbor::from_slice_non_strict::<$ty>(b).map(|x| $to(&x)),
            missing: || <$ty as oasis_cbor::Decode>::try_default().map(|x| $to(&x)),
        })
    };
    (@nodec $ty:ty, $to:path) => {
        None
    };
}
