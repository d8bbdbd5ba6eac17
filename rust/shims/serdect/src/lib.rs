//! Offline stand-in for serdect 0.1: binary formats get a plain byte sequence, human-readable ones hex.
pub use serde;
fn enc(bytes: &[u8], upper: bool) -> String {
    bytes
        .iter()
        .map(|b| if upper { format!("{:02X}", b) } else { format!("{:02x}", b) })
        .collect()
}
fn dec<E: serde::de::Error>(s: &str) -> Result<Vec<u8>, E> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return Err(E::custom("bad hex"));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| E::custom("bad hex")))
        .collect()
}
pub mod slice {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { super::enc(v.as_ref(), true).serialize(s) } else { v.as_ref().serialize(s) }
    }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() { super::enc(v.as_ref(), false).serialize(s) } else { v.as_ref().serialize(s) }
    }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        if d.is_human_readable() {
            super::dec(&String::deserialize(d)?)
        } else {
            Vec::<u8>::deserialize(d)
        }
    }
}
pub mod array {
    use serde::{de::Error, ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        ser(v.as_ref(), s, true)
    }
    pub fn serialize_hex_lower_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        ser(v.as_ref(), s, false)
    }
    fn ser<S: Serializer>(v: &[u8], s: S, up: bool) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            super::enc(v, up).serialize(s)
        } else {
            let mut t = s.serialize_tuple(v.len())?;
            for b in v {
                t.serialize_element(b)?;
            }
            t.end()
        }
    }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        if d.is_human_readable() {
            let v: Vec<u8> = super::dec(&String::deserialize(d)?)?;
            if v.len() != buf.len() {
                return Err(D::Error::custom("bad length"));
            }
            buf.copy_from_slice(&v);
            return Ok(());
        }
        struct V<'b>(&'b mut [u8]);
        impl<'de, 'b> serde::de::Visitor<'de> for V<'b> {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "an array of {} bytes", self.0.len())
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
                for i in 0..self.0.len() {
                    self.0[i] = a.next_element()?.ok_or_else(|| A::Error::custom("short"))?;
                }
                Ok(())
            }
        }
        let n = buf.len();
        d.deserialize_tuple(n, V(buf))
    }
}
