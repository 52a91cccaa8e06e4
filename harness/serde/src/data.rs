//! Types with hand-written serde implementations.
use oasis_cbor::{SimpleValue, Value};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Error as _, Serialize, SerializeMap, Serializer};
use std::fmt;
use std::marker::PhantomData;

/// Whatever there is.
#[derive(Clone, Debug)]
pub struct Dyn(pub Value);

impl Serialize for Dyn {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match &self.0 {
            Value::Unsigned(n) => s.serialize_u64(*n),
            Value::Negative(n) => match i64::try_from(*n) {
                Ok(n) => s.serialize_i64(n),
                Err(_) => s.serialize_i128(*n),
            },
            Value::ByteString(b) => s.serialize_bytes(b),
            Value::TextString(t) => s.serialize_str(t),
            Value::Array(a) => s.collect_seq(a.iter().map(|x| Dyn(x.clone()))),
            Value::Map(m) => s.collect_map(m.iter().map(|(k, v)| (Dyn(k.clone()), Dyn(v.clone())))),
            Value::Tag(..) => Err(S::Error::custom("tag")),
            Value::Simple(SimpleValue::TrueValue) => s.serialize_bool(true),
            Value::Simple(SimpleValue::FalseValue) => s.serialize_bool(false),
            Value::Simple(_) => s.serialize_unit(),
        }
    }
}

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, x: bool) -> Result<Value, E> {
                Ok(Value::Simple(if x { SimpleValue::TrueValue } else { SimpleValue::FalseValue }))
            }
            fn visit_u64<E>(self, x: u64) -> Result<Value, E> {
                Ok(Value::Unsigned(x))
            }
            fn visit_u128<E: serde::de::Error>(self, x: u128) -> Result<Value, E> {
                u64::try_from(x).map(Value::Unsigned).map_err(|_| E::custom("too large"))
            }
            fn visit_i64<E: serde::de::Error>(self, x: i64) -> Result<Value, E> {
                self.visit_i128(x as i128)
            }
            fn visit_i128<E: serde::de::Error>(self, x: i128) -> Result<Value, E> {
                if x < 0 {
                    Ok(Value::Negative(x))
                } else {
                    u64::try_from(x).map(Value::Unsigned).map_err(|_| E::custom("too large"))
                }
            }
            fn visit_bytes<E>(self, x: &[u8]) -> Result<Value, E> {
                Ok(Value::ByteString(x.to_vec()))
            }
            fn visit_str<E>(self, x: &str) -> Result<Value, E> {
                Ok(Value::TextString(x.to_string()))
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Simple(SimpleValue::NullValue))
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Simple(SimpleValue::NullValue))
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
                d.deserialize_any(V)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
                d.deserialize_any(V)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut v = vec![];
                while let Some(Dyn(x)) = a.next_element()? {
                    v.push(x);
                }
                Ok(Value::Array(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Value, A::Error> {
                let p: Vec<(Dyn, Dyn)> = entries(a)?;
                Ok(Value::Map(p.into_iter().map(|(k, v)| (k.0, v.0)).collect()))
            }
        }
        d.deserialize_any(V).map(Dyn)
    }
}

/// The entries of a map: keys and values one by one and together, in turn.
fn entries<'de, A: MapAccess<'de>, K: Deserialize<'de>, V: Deserialize<'de>>(mut a: A) -> Result<Vec<(K, V)>, A::Error> {
    let mut p = vec![];
    loop {
        if p.len() % 2 == 0 {
            match a.next_key()? {
                Some(k) => p.push((k, a.next_value()?)),
                None => break,
            }
        } else {
            match a.next_entry()? {
                Some(e) => p.push(e),
                None => break,
            }
        }
    }
    Ok(p)
}

/// A map kept as a sequence of pairs.
#[derive(Clone, Debug)]
pub struct Pairs<K, V>(pub Vec<(K, V)>);

impl<K: Serialize, V: Serialize> Serialize for Pairs<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(if self.0.len() % 2 == 0 { None } else { Some(self.0.len()) })?;
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i % 2 == 0 {
                m.serialize_key(k)?;
                m.serialize_value(v)?;
            } else {
                m.serialize_entry(k, v)?;
            }
        }
        m.end()
    }
}

impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = Vec<(K, V)>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> {
                entries(a)
            }
        }
        d.deserialize_map(Vis(PhantomData)).map(Pairs)
    }
}

/// A string that is text where the format is readable by humans, and bytes elsewhere.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Human(pub String);

impl Serialize for Human {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.collect_str(&self.0)
        } else {
            s.serialize_bytes(self.0.as_bytes())
        }
    }
}

impl<'de> Deserialize<'de> for Human {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Human, D::Error> {
        if d.is_human_readable() {
            String::deserialize(d).map(Human)
        } else {
            let b = serde_bytes::ByteBuf::deserialize(d)?;
            // Never text again, so that no two readings of the format get by.
            Ok(Human(b.iter().rev().map(|b| *b as char).collect()))
        }
    }
}
