//! One row of type-erased operations per type of the catalogue.
use crate::json::J;
pub use oasis_cbor::Value;

pub type Outcome<T> = Result<T, String>;

pub struct Row {
    pub id: &'static str,
    pub group: &'static str,
    pub value: fn(&J) -> Outcome<Value>,
    pub bytes: fn(&J) -> Outcome<Vec<u8>>,
    pub from_value: fn(Value) -> Outcome<J>,
    pub slice: fn(&[u8]) -> Outcome<J>,
    /// Only what the model itself says: the datum through the Rust type and back.
    pub model: fn(&J) -> J,
}

pub fn sorted(mut v: Vec<J>) -> J {
    v.sort_by_cached_key(|x| x.show());
    J::Arr(v)
}
pub fn variant(n: &str, fields: Vec<J>) -> J {
    J::Arr(vec![J::s(n), J::Arr(fields)])
}
pub fn show(e: oasis_cbor::serde::Error) -> String {
    use oasis_cbor::serde::Error::*;
    let _ = (e.to_string(), format!("{:?}", e));
    match e {
        ByteEncoder(e) => format!("enc:{:?}", e),
        ByteDecoder(e) => format!("byte:{:?}", e),
        ValueDecoder(e) => format!("value:{:?}", e),
        UnsupportedType(_) => "unsupported".into(),
        Other(_) => "other".into(),
    }
}

#[macro_export]
macro_rules! row {
    ($id:expr, $group:expr, $ty:ty, $to:path, $from:path) => {
        Row {
            id: $id,
            group: $group,
            value: |j| oasis_cbor::serde::to_value::<$ty>(&$from(j)).map_err(show),
            bytes: |j| oasis_cbor::serde::to_vec::<$ty>(&$from(j)).map_err(show),
            from_value: |v| oasis_cbor::serde::from_value::<$ty>(v).map(|x| $to(&x)).map_err(show),
            slice: |b| oasis_cbor::serde::from_slice::<$ty>(b).map(|x| $to(&x)).map_err(show),
            model: |j| $to(&$from(j)),
        }
    };
}
