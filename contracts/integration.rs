// Stand-ins for the parts of serde and diesel that src/integration.rs uses, with contracts.  Everything
// here is TRUSTED: serde's and diesel's own code is outside the verified text.  The impls themselves are cut
// from the source; what they have to guarantee is injected from integration.contract.
pub mod serde {
pub use self::de::{Deserialize, Deserializer};
pub use self::ser::{Serialize, Serializer};
pub mod ser {
use vstd::prelude::*;
use vstd::string::*;
verus! {
/// A data format's writing side.  It is consumed by the one call made on it, and the result names that call.
pub trait Serializer: Sized {
    type Ok;
    type Error: Error;
    spec fn ser_str(self, text: Seq<u8>) -> Result<Self::Ok, Self::Error>;
    spec fn ser_bytes(self, bytes: Seq<u8>) -> Result<Self::Ok, Self::Error>;
    spec fn ser_char(self, c: char) -> Result<Self::Ok, Self::Error>;
    spec fn ser_unit(self) -> Result<Self::Ok, Self::Error>;
    spec fn ser_none(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ser_str(v.spec_bytes());
    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ser_bytes(v@);
    fn serialize_char(self, v: char) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ser_char(v);
    fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ser_unit();
    fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.ser_none();
}
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
}
/// what is serialized is a text
pub trait Serialize {
    spec fn ser_req(&self) -> bool;
    spec fn ser_text(&self) -> Seq<u8>;
    fn serialize<S: Serializer>(&self, ser: S) -> (r: Result<S::Ok, S::Error>)
        requires self.ser_req(),
        ensures r == ser.ser_str(self.ser_text());
}
impl Serialize for str {
    open spec fn ser_req(&self) -> bool { true }
    open spec fn ser_text(&self) -> Seq<u8> { self.spec_bytes() }
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { ser.serialize_str(self) }
}
impl<T: Serialize + ?Sized> Serialize for &T {
    open spec fn ser_req(&self) -> bool { (**self).ser_req() }
    open spec fn ser_text(&self) -> Seq<u8> { (**self).ser_text() }
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> { (**self).serialize(ser) }
}
} // verus!
}
pub mod de {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::spec::{str_of_bytes, slice_of_bytes};
verus! {
pub enum Unexpected<'a> { Bool(bool), Unsigned(u64), Signed(i64), Char(char), Str(&'a str), Bytes(&'a [u8]), Unit, Other(&'a str) }
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
    fn invalid_type<X: ?Sized>(u: Unexpected, exp: &X) -> Self;
    fn invalid_value<X: ?Sized>(u: Unexpected, exp: &X) -> Self;
    fn invalid_length<X: ?Sized>(n: usize, exp: &X) -> Self;
}
/// How a data format hands over what it holds.
pub enum Offer {
    Borrowed(Seq<u8>), Transient(Seq<u8>), Owned(Seq<u8>),
    BorrowedBytes(Seq<u8>), TransientBytes(Seq<u8>), OwnedBytes(Seq<u8>),
    Other, Fail,
}
pub open spec fn ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
/// the text an owned standard string would read from the offer, if it would accept it
pub open spec fn text(o: Offer) -> Option<Seq<u8>> {
    match o {
        Offer::Borrowed(b) => Some(b),
        Offer::Transient(b) => Some(b),
        Offer::Owned(b) => Some(b),
        Offer::BorrowedBytes(b) => if valid_utf8(b) { Some(b) } else { None },
        Offer::TransientBytes(b) => if valid_utf8(b) { Some(b) } else { None },
        Offer::OwnedBytes(b) => if valid_utf8(b) { Some(b) } else { None },
        Offer::Other => None,
        Offer::Fail => None,
    }
}
/// what a visitor says of the value it builds: `Some` when it accepts
pub trait Visitor<'de>: Sized {
    type Value;
    spec fn vis_post(self, o: Offer, r: Option<Self::Value>) -> bool;
    fn expecting(&self, f: &mut crate::spec::fmt::Formatter) -> crate::spec::fmt::Result;
    fn visit_str<E: Error>(self, v: &str) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::Transient(v.spec_bytes()), ok(r));
    fn visit_borrowed_str<E: Error>(self, v: &'de str) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::Borrowed(v.spec_bytes()), ok(r));
    fn visit_string<E: Error>(self, v: String) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::Owned(encode_utf8(v@)), ok(r));
    fn visit_bytes<E: Error>(self, v: &[u8]) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::TransientBytes(v@), ok(r));
    fn visit_borrowed_bytes<E: Error>(self, v: &'de [u8]) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::BorrowedBytes(v@), ok(r));
    fn visit_byte_buf<E: Error>(self, v: Vec<u8>) -> (r: Result<Self::Value, E>)
        ensures self.vis_post(Offer::OwnedBytes(v@), ok(r));
}
/// A data format's reading side.  `offer` is what it makes of a request for a string.
pub trait Deserializer<'de>: Sized {
    type Error: Error;
    spec fn offer(self) -> Offer;
    spec fn any_offer(self) -> Offer;
    spec fn bytes_offer(self) -> Offer;
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures met(self.offer(), v, r);
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures met(self.offer(), v, r);
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures met(self.any_offer(), v, r);
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures met(self.bytes_offer(), v, r);
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures met(self.bytes_offer(), v, r);
}
/// the visitor is shown the offer; what is no text or bytes it refuses; a failing format reports its own error
pub open spec fn met<'de, V: Visitor<'de>, E>(o: Offer, v: V, r: Result<V::Value, E>) -> bool {
    match o {
        Offer::Other => r is Err,
        Offer::Fail => r is Err,
        _ => v.vis_post(o, ok(r)),
    }
}
pub trait Deserialize<'de>: Sized {
    spec fn de_post(o: Offer, r: Option<Self>) -> bool;
    fn deserialize<D: Deserializer<'de>>(des: D) -> (r: Result<Self, D::Error>)
        ensures Self::de_post(des.offer(), ok(r));
}
/// `&*string`
#[verifier::external_body]
pub fn string_str<'a>(s: &'a String) -> (r: &'a str)
    ensures r.spec_bytes() == encode_utf8(s@),
{ s.as_str() }
/// serde's own: a string slice can only be lent
impl<'de: 'a, 'a> Deserialize<'de> for &'a str {
    open spec fn de_post(o: Offer, r: Option<Self>) -> bool {
        match o {
            Offer::Borrowed(b) => r is Some && r->0.spec_bytes() == b,
            Offer::BorrowedBytes(b) => if valid_utf8(b) { r is Some && r->0.spec_bytes() == b } else { r is None },
            _ => r is None,
        }
    }
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> { unimplemented!() }
}
/// serde's own
impl<'de> Deserialize<'de> for String {
    open spec fn de_post(o: Offer, r: Option<Self>) -> bool {
        match text(o) { Some(b) => r is Some && encode_utf8(r->0@) == b, None => r is None }
    }
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(des: D) -> Result<Self, D::Error> { unimplemented!() }
}
} // verus!
}
}

pub mod diesel {
pub use self::backend::Backend;
pub mod backend {
use vstd::prelude::*;
verus! {
pub trait Backend: Sized {}
/// a column as the database layer hands it over
#[verifier::external_body]
#[verifier::reject_recursive_types(DB)]
pub struct RawValue<'a, DB: Backend> { _p: core::marker::PhantomData<&'a DB> }
/// diesel's boxed error
#[verifier::external_body]
pub struct BoxError { _p: () }
/// the text of a column of SQL type `ST`, or the database layer's error
pub uninterp spec fn column<'a, ST, DB: Backend>(raw: RawValue<'a, DB>) -> Result<Seq<u8>, BoxError>;
/// the text behind the pointer the database layer returns, while the column is alive
pub uninterp spec fn pointee(p: *const str) -> Seq<u8>;
pub uninterp spec fn null(p: *const str) -> bool;
} // verus!
}
pub mod deserialize {
use vstd::prelude::*;
use super::backend::*;
verus! {
pub type Result<T> = core::result::Result<T, BoxError>;
pub trait FromSql<A, DB: Backend>: Sized {
    spec fn from_post(raw: RawValue<'_, DB>, r: Result<Self>) -> bool;
    fn from_sql(bytes: RawValue<'_, DB>) -> (r: Result<Self>)
        ensures Self::from_post(bytes, r);
}
/// diesel's contract for reading a text column in place
pub broadcast axiom fn axiom_column<ST, DB: Backend>(raw: RawValue<'_, DB>, r: Result<*const str>)
    where *const str: FromSql<ST, DB>
    ensures #[trigger] <*const str as FromSql<ST, DB>>::from_post(raw, r) ==> match column::<ST, DB>(raw) {
        Ok(b) => r is Ok && !null(r->Ok_0) && pointee(r->Ok_0) == b && vstd::utf8::valid_utf8(b),
        Err(e) => r == Result::<*const str>::Err(e),
    };
} // verus!
}
pub mod serialize {
use vstd::prelude::*;
use super::backend::*;
verus! {
pub enum IsNull { Yes, No }
pub type Result = core::result::Result<IsNull, BoxError>;
#[verifier::external_body]
#[verifier::reject_recursive_types(DB)]
pub struct Output<'a, 'b, DB: Backend> { _p: core::marker::PhantomData<(&'a DB, &'b DB)> }
/// what holds of a value whenever safe code can see it
pub trait Inv { spec fn inv(&self) -> bool; }
impl Inv for str { open spec fn inv(&self) -> bool { true } }
impl<const N: usize> Inv for crate::arraystring::ArrayString<N> where crate::arraystring::ArrayString<N>: crate::arraystring::sealed::ValidCapacity {
    open spec fn inv(&self) -> bool { self.wf() }
}
impl Inv for crate::cache_string::CacheString { open spec fn inv(&self) -> bool { self.0.wf() } }
pub trait ToSql<A, DB: Backend>: Inv {
    spec fn to_post(&self, before: Output<'_, '_, DB>, after: Output<'_, '_, DB>, r: Result) -> bool;
    fn to_sql<'b>(&'b self, out: &mut Output<'b, '_, DB>) -> (r: Result)
        requires self.inv(),
        ensures self.to_post(*old(out), *final(out), r);
}
} // verus!
}
pub mod sql_types {
use vstd::prelude::*;
verus! { pub struct Text; }
}
pub use self::backend::*;
use vstd::prelude::*;
use vstd::string::*;
verus! {
/// `ptr.is_null()`
#[verifier::external_body]
pub fn is_null(p: *const str) -> (r: bool)
    ensures r == null(p),
{ unimplemented!() }
/// `&*ptr`: the pointer must not be null; that it is alive is the database layer's word
#[verifier::external_body]
pub unsafe fn deref_raw<'a>(p: *const str) -> (r: &'a str)
    requires !null(p),
    ensures r.spec_bytes() == pointee(p),
{ unimplemented!() }
} // verus!
}
