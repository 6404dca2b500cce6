//! Serde and diesel, against what the standard `String` does with the same data.
use diesel::deserialize::FromSqlRow;
use diesel::prelude::*;
use diesel::serialize::ToSql;
use diesel::sql_types::Text;
use diesel::sqlite::Sqlite;
use serde::de::value::*;
use serde::de::{Deserialize, Deserializer, IntoDeserializer, Visitor};
use serde::ser::Serialize;

struct Fmt<'a, T>(&'a T);
impl<'a, T: Serialize> std::fmt::Display for Fmt<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.serialize(f)
    }
}
pub fn ser<T: Serialize>(t: &T) -> Vec<String> {
    vec![
        format!("{:?}", serde_json::to_string(t).map_err(|e| e.to_string())),
        format!("{:?}", serde_json::to_value(t).map_err(|e| e.to_string())),
        format!("{}", Fmt(t)),
        format!("{:?}", serde_json::to_string(&Key(t)).map_err(|e| e.to_string())),
        format!("{:?}", (t.serialize(Note(true)), t.serialize(Note(false)))),
        format!("{:?}", serde_json::to_string(&std::iter::once((t, 1)).collect::<Vec<_>>()).map_err(|e| e.to_string())),
    ]
}
#[derive(Clone, Copy)]
enum Give {
    Str,
    BorrowedStr,
    String,
    Bytes,
    BorrowedBytes,
    ByteBuf,
}
struct De<'de>(&'de [u8], Give);
impl<'de> Deserializer<'de> for De<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let t = || std::str::from_utf8(self.0).map_err(|_| serde::de::Error::custom("utf8"));
        match self.1 {
            Give::Str => v.visit_str(&t()?.to_string()),
            Give::BorrowedStr => v.visit_borrowed_str(t()?),
            Give::String => v.visit_string(t()?.to_string()),
            Give::Bytes => v.visit_bytes(&self.0.to_vec()),
            Give::BorrowedBytes => v.visit_borrowed_bytes(self.0),
            Give::ByteBuf => v.visit_byte_buf(self.0.to_vec()),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
    option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// the same, from a format that says it is not human readable
struct Binary<'de>(De<'de>);
impl<'de> Deserializer<'de> for Binary<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.0.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
    option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// notes the call made on it, and says it is not human readable
struct Note(bool);
type No = serde::ser::Impossible<String, Error>;
macro_rules! note {
    ($($f:ident($($x:ident: $t:ty),*);)*) => { $(fn $f(self $(, $x: $t)*) -> Result<String, Error> { Ok(format!("{}{:?}", stringify!($f), ($($x,)*))) })* };
}
macro_rules! no {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self $(, _: $t)*) -> Result<$r, Error> { Err(serde::ser::Error::custom(stringify!($f))) })* };
}
impl serde::Serializer for Note {
    type Ok = String;
    type Error = Error;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    note! {
        serialize_bool(x: bool); serialize_i8(x: i8); serialize_i16(x: i16); serialize_i32(x: i32); serialize_i64(x: i64);
        serialize_u8(x: u8); serialize_u16(x: u16); serialize_u32(x: u32); serialize_u64(x: u64); serialize_f32(x: f32); serialize_f64(x: f64);
        serialize_char(x: char); serialize_str(x: &str); serialize_bytes(x: &[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(n: &'static str); serialize_unit_variant(n: &'static str, i: u32, v: &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<String, Error> { x.serialize(self) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, x: &T) -> Result<String, Error> { Ok(format!("{n}({})", x.serialize(self)?)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, v: &'static str, x: &T) -> Result<String, Error> { Ok(format!("{n}::{v}({})", x.serialize(self)?)) }
    no! {
        serialize_seq(Option<usize>) -> No; serialize_tuple(usize) -> No; serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No; serialize_map(Option<usize>) -> No;
        serialize_struct(&'static str, usize) -> No; serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
    fn is_human_readable(&self) -> bool {
        self.0
    }
}
struct Key<'a, T>(&'a T);
impl<'a, T: Serialize> Serialize for Key<'a, T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(std::iter::once((self.0, self.0)))
    }
}
pub const HOWS: usize = 24;
pub const TEXTUAL: usize = 12;
pub fn de<T: for<'de> Deserialize<'de>>(how: usize, data: &[u8]) -> Result<T, String> {
    fn m<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| e.to_string())
    }
    let text = || std::str::from_utf8(data).map_err(|_| "utf8".to_string());
    let json = || text().map(|t| serde_json::to_string(t).unwrap());
    let escaped = || {
        text().map(|t| {
            let mut s = String::from("\"");
            for u in t.encode_utf16() {
                s.push_str(&format!("\\u{u:04x}"))
            }
            s + "\""
        })
    };
    match how {
        0 => m(serde_json::from_str(&json()?)),
        1 => m(serde_json::from_str(&escaped()?)),
        2 => m(serde_json::from_slice(json()?.as_bytes())),
        3 => m(serde_json::from_reader(json()?.as_bytes())),
        4 => m(serde_json::from_value(serde_json::Value::String(text()?.to_string()))),
        5 => m::<T, Error>(T::deserialize(text()?.into_deserializer())),
        6 => m::<T, Error>(T::deserialize(text()?.to_string().into_deserializer())),
        7 => m::<T, Error>(T::deserialize(BorrowedStrDeserializer::new(text()?))),
        8 => m::<T, Error>(T::deserialize(std::borrow::Cow::Borrowed(text()?).into_deserializer())),
        9 => m(T::deserialize(De(data, Give::String))),
        10 => m(T::deserialize(De(data, Give::Str))),
        11 => m(T::deserialize(De(data, Give::BorrowedStr))),
        // bytes
        12 => m(T::deserialize(De(data, Give::Bytes))),
        13 => m(T::deserialize(De(data, Give::BorrowedBytes))),
        14 => m(T::deserialize(De(data, Give::ByteBuf))),
        15 => m::<T, Error>(T::deserialize(BytesDeserializer::new(data))),
        // not text
        16 => m::<T, Error>(T::deserialize(5u32.into_deserializer())),
        17 => m::<T, Error>(T::deserialize(text()?.chars().next().unwrap_or('x').into_deserializer())),
        18 => m(serde_json::from_str("[\"a\"]")),
        // into a place that holds something already
        19 => { let mut t: T = m(serde_json::from_str("\"qrs\""))?; m(T::deserialize_in_place(De(data, Give::Str), &mut t))?; Ok(t) }
        20 => { let mut t: T = m(serde_json::from_str("\"qrs\""))?; m(T::deserialize_in_place(&mut serde_json::Deserializer::from_str(&json()?), &mut t))?; Ok(t) }
        21 => { let v: Vec<T> = m(serde_json::from_str(&format!("[{},{}]", json()?, escaped()?)))?; v.into_iter().last().ok_or_else(String::new) }
        // a format that is not meant for people
        22 => m(T::deserialize(Binary(De(data, Give::Str)))),
        _ => m(serde_json::from_str("null")),
    }
}

#[derive(QueryableByName)]
struct Row {
    #[diesel(sql_type = Text)]
    v: String,
}
pub fn round<T: ToSql<Text, Sqlite>>(t: &T, conn: &mut SqliteConnection) -> String {
    let r: Result<Row, _> = diesel::sql_query("SELECT ? AS v").bind::<Text, _>(t).get_result(conn);
    match r {
        Ok(r) => format!("Ok:{}", r.v),
        Err(e) => format!("Err:{e}"),
    }
}
pub fn read<T: FromSqlRow<Text, Sqlite> + 'static>(conn: &mut SqliteConnection, sql: &str) -> Result<T, String> {
    diesel::select(diesel::dsl::sql::<Text>(sql)).get_result::<T>(conn).map_err(|e| e.to_string())
}
