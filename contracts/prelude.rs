// Specification vocabulary, lemmas and the assumed contracts on the Rust standard library.
// Everything marked `axiom` or `assume_specification` or `external_body` is TRUSTED and is listed,
// by a mechanical scan of this file, in every evidence file.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use vstd::slice::SliceIndexSpec;
use vstd::std_specs::range::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialOrdSpec, PartialEqSpec};
use vstd::std_specs::convert::{FromSpec, FromSpecImpl};
pub use asref::AsRefSpec;
use core::ops::{Bound, RangeBounds};
use core::cmp::Ordering;
use core::char::DecodeUtf16Error;
use core::slice::SliceIndex;
use core::hash::Hasher;
use crate::arraystring::ArrayString;
use crate::arraystring::sealed::ValidCapacity;
use crate::error::{Error, Utf8, Utf16, OutOfBounds};
use crate::cache_string::CacheString;

/// AsRef: a converting reference, as a function of the value it is called on
pub mod asref {
use vstd::prelude::*;
verus! {
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    spec fn ar_req(&self) -> bool;
    spec fn ar(&self) -> &T;
    /// whether it answers the same every time it is asked; nothing is known of what it answers otherwise
    spec fn steady(&self) -> bool;
    fn as_ref(&self) -> (r: &T)
        requires self.ar_req(),
        ensures self.steady() ==> r == self.ar();
}
} // verus!
}

verus! {

/// nothing is known of it: a function that is shown to ensure it has contradictory assumptions (vacuity probe)
pub uninterp spec fn never(function: int) -> bool;

// ---------------------------------------------------------------- vocabulary

/// the UTF-8 encoding of one character
pub open spec fn enc1(c: char) -> Seq<u8> { encode_scalar(c as u32) }

/// Largest character boundary of `b` that is at most `limit`.
pub open spec fn trunc_at(b: Seq<u8>, limit: int) -> int
    decreases limit
{
    if limit >= b.len() { b.len() as int }
    else if limit <= 0 { 0 }
    else if is_char_boundary(b, limit) { limit }
    else { trunc_at(b, limit - 1) }
}

pub open spec fn trunc(b: Seq<u8>, limit: int) -> Seq<u8> { b.subrange(0, trunc_at(b, limit)) }

pub open spec fn start_of<R: RangeBounds<usize>>(r: R) -> int {
    match r.spec_start_bound() {
        Bound::Included(t) => *t as int,
        Bound::Excluded(t) => *t as int + 1,
        Bound::Unbounded => 0,
    }
}

pub open spec fn end_of<R: RangeBounds<usize>>(r: R, len: int) -> int {
    match r.spec_end_bound() {
        Bound::Included(t) => *t as int + 1,
        Bound::Excluded(t) => *t as int,
        Bound::Unbounded => len,
    }
}

/// the bytes of a string slice or of a byte slice
pub trait HasBytes { spec fn the_bytes(&self) -> Seq<u8>; }
impl HasBytes for str { open spec fn the_bytes(&self) -> Seq<u8> { self.spec_bytes() } }
impl HasBytes for [u8] { open spec fn the_bytes(&self) -> Seq<u8> { self@ } }
pub open spec fn as_bytes_of<T: HasBytes + ?Sized>(x: &T) -> Seq<u8> { x.the_bytes() }

/// `start..end` selects whole characters of `b`
pub open spec fn range_ok(b: Seq<u8>, start: int, end: int) -> bool {
    0 <= start <= end <= b.len() && is_char_boundary(b, start) && is_char_boundary(b, end)
}

/// `e` names a reason why `start..end` does not select whole characters of `b`
pub open spec fn range_err(b: Seq<u8>, start: int, end: int, e: Error) -> bool {
    match e {
        Error::OutOfBounds => !(0 <= start <= end <= b.len()),
        Error::Utf8 => (0 <= start <= b.len() && !is_char_boundary(b, start))
            || (0 <= end <= b.len() && !is_char_boundary(b, end)),
        Error::Utf16 => false,
    }
}

pub open spec fn replaced(b: Seq<u8>, start: int, end: int, with: Seq<u8>) -> Seq<u8> {
    b.subrange(0, start) + with + b.subrange(end, b.len() as int)
}

/// the leading characters of `cs`, encoded, up to the first that does not fit in `room` bytes
pub open spec fn fit_chars(cs: Seq<char>, room: int) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 || enc1(cs[0]).len() > room { Seq::empty() }
    else { enc1(cs[0]) + fit_chars(cs.drop_first(), room - enc1(cs[0]).len()) }
}

/// the leading strings of `ss` that fit whole, then the truncation of the first that does not
pub open spec fn fit_strs(ss: Seq<Seq<u8>>, room: int) -> Seq<u8>
    decreases ss.len()
{
    if ss.len() == 0 { Seq::empty() }
    else if ss[0].len() > room { trunc(ss[0], room) }
    else { ss[0] + fit_strs(ss.drop_first(), room - ss[0].len()) }
}

/// concatenation
pub open spec fn cat(ss: Seq<Seq<u8>>) -> Seq<u8>
    decreases ss.len()
{
    if ss.len() == 0 { Seq::empty() } else { ss[0] + cat(ss.drop_first()) }
}

/// bytes of the strings an iterator yields
pub open spec fn strs<T: AsRef<str>>(items: Seq<T>) -> Seq<Seq<u8>> { items.map_values(|s: T| s.ar().spec_bytes()) }
pub open spec fn strs_ok<T: AsRef<str>>(items: Seq<T>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).ar_req() }
pub open spec fn strs_steady<T: AsRef<str>>(items: Seq<T>) -> bool { forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).steady() }

/// strict decoding: everything, or the first thing wrong in input order
pub open spec fn utf16_strict(d: Seq<Result<char, DecodeUtf16Error>>, room: int) -> Result<Seq<u8>, Error>
    decreases d.len()
{
    if d.len() == 0 { Ok(Seq::empty()) }
    else {
        match d[0] {
            Err(_) => Err(Error::Utf16),
            Ok(c) => if enc1(c).len() > room { Err(Error::OutOfBounds) } else {
                prefixed(enc1(c), utf16_strict(d.drop_first(), room - enc1(c).len()))
            }
        }
    }
}
pub open spec fn prefixed<E>(p: Seq<u8>, r: Result<Seq<u8>, E>) -> Result<Seq<u8>, E> {
    match r { Ok(b) => Ok(p + b), Err(e) => Err(e) }
}
/// truncating decoding: up to the first character that does not fit, unless something before it is ill formed
pub open spec fn utf16_cut(d: Seq<Result<char, DecodeUtf16Error>>, room: int) -> Result<Seq<u8>, Utf16>
    decreases d.len()
{
    if d.len() == 0 { Ok(Seq::empty()) }
    else {
        match d[0] {
            Err(_) => Err(Utf16),
            Ok(c) => if enc1(c).len() > room { Ok(Seq::empty()) } else {
                prefixed(enc1(c), utf16_cut(d.drop_first(), room - enc1(c).len()))
            }
        }
    }
}
pub open spec fn utf16_lossy(d: Seq<Result<char, DecodeUtf16Error>>) -> Seq<char> {
    d.map_values(|r: Result<char, DecodeUtf16Error>| match r { Ok(c) => c, Err(_) => '\u{FFFD}' })
}

/// the characters whose verdict is true
pub open spec fn kept(cs: Seq<char>, verdicts: Seq<bool>) -> Seq<char>
    decreases cs.len()
{
    if cs.len() == 0 || verdicts.len() == 0 { Seq::empty() }
    else if verdicts[0] { seq![cs[0]] + kept(cs.drop_first(), verdicts.drop_first()) }
    else { kept(cs.drop_first(), verdicts.drop_first()) }
}

pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }

/// number of leading whitespace characters
pub open spec fn lead(cs: Seq<char>) -> int
    decreases cs.len()
{
    if cs.len() == 0 || !is_ws(cs[0]) { 0 } else { 1 + lead(cs.drop_first()) }
}
/// index just past the last character that is not whitespace
pub open spec fn trail(cs: Seq<char>) -> int
    decreases cs.len()
{
    if cs.len() == 0 { 0 } else if is_ws(cs.last()) { trail(cs.drop_last()) } else { cs.len() as int }
}
pub open spec fn trimmed(cs: Seq<char>) -> Seq<char> {
    if lead(cs) >= trail(cs) { Seq::empty() } else { cs.subrange(lead(cs), trail(cs)) }
}

/// byte-wise lexicographic order (the order of `str`)
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}

// ---------------------------------------------------------------- the string type

impl<const N: usize> ArrayString<N> where ArrayString<N>: ValidCapacity {
    pub open spec fn cap_ok(self) -> bool { 1 <= N <= 255 }
    /// the text, as bytes
    pub open spec fn bytes(self) -> Seq<u8> { self.array@.subrange(0, self.size as int) }
    /// the text, as characters
    pub open spec fn text(self) -> Seq<char> { decode_utf8(self.bytes()) }
    /// representation invariant
    pub open spec fn wf(self) -> bool {
        self.cap_ok() && self.size <= N && valid_utf8(self.bytes())
    }
}

/// N is between 1 and 255: `ValidCapacity` is sealed and implemented for exactly these
/// (checked on every run against the list of impls in the source).
pub broadcast axiom fn axiom_capacity<const N: usize>(s: ArrayString<N>) where ArrayString<N>: ValidCapacity
    ensures #[trigger] s.cap_ok();

// ---------------------------------------------------------------- standard library contracts

impl crate::spec::asref::AsRefSpecImpl<str> for str {
    open spec fn ar_req(&self) -> bool { true }
    open spec fn ar(&self) -> &str { self }
    open spec fn steady(&self) -> bool { true }
}
impl<T: AsRef<U> + ?Sized, U: ?Sized> crate::spec::asref::AsRefSpecImpl<U> for &T {
    open spec fn ar_req(&self) -> bool { (*self).ar_req() }
    open spec fn ar(&self) -> &U { (*self).ar() }
    open spec fn steady(&self) -> bool { (*self).steady() }
}
impl<T: AsRef<U> + ?Sized, U: ?Sized> crate::spec::asref::AsRefSpecImpl<U> for &mut T {
    open spec fn ar_req(&self) -> bool { <T as AsRefSpec<U>>::ar_req(&**self) }
    open spec fn ar(&self) -> &U { <T as AsRefSpec<U>>::ar(&**self) }
    open spec fn steady(&self) -> bool { <T as AsRefSpec<U>>::steady(&**self) }
}
impl FromSpecImpl<Utf8> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Utf8) -> Error { Error::Utf8 } }
impl FromSpecImpl<Utf16> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Utf16) -> Error { Error::Utf16 } }
impl FromSpecImpl<OutOfBounds> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: OutOfBounds) -> Error { Error::OutOfBounds } }
impl FromSpecImpl<DecodeUtf16Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DecodeUtf16Error) -> Error { Error::Utf16 } }
impl FromSpecImpl<core::str::Utf8Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: core::str::Utf8Error) -> Error { Error::Utf8 } }
impl<'a> FromSpecImpl<core::str::EncodeUtf16<'a>> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: core::str::EncodeUtf16<'a>) -> Error { Error::Utf16 } }
impl FromSpecImpl<DecodeUtf16Error> for Utf16 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DecodeUtf16Error) -> Utf16 { Utf16 } }
impl FromSpecImpl<core::str::Utf8Error> for Utf8 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: core::str::Utf8Error) -> Utf8 { Utf8 } }
impl<'a> FromSpecImpl<core::str::EncodeUtf16<'a>> for Utf16 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: core::str::EncodeUtf16<'a>) -> Utf16 { Utf16 } }
pub uninterp spec fn str_of_bytes(b: Seq<u8>) -> &'static str;
pub broadcast axiom fn axiom_str_of_bytes(b: Seq<u8>)
    requires valid_utf8(b),
    ensures (#[trigger] str_of_bytes(b)).spec_bytes() == b;
pub uninterp spec fn slice_of_bytes(b: Seq<u8>) -> &'static [u8];
pub broadcast axiom fn axiom_slice_of_bytes(b: Seq<u8>)
    ensures (#[trigger] slice_of_bytes(b))@ == b;
/// two slices with the same elements are the same value
pub broadcast axiom fn axiom_slice_ext<T>(a: &[T], b: &[T])
    requires #[trigger] a@ == #[trigger] b@,
    ensures a == b;
/// two `&str` with the same bytes are the same value
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    requires #[trigger] a.spec_bytes() == #[trigger] b.spec_bytes(),
    ensures a == b;
impl<const N: usize> crate::spec::asref::AsRefSpecImpl<str> for ArrayString<N> where ArrayString<N>: ValidCapacity {
    open spec fn ar_req(&self) -> bool { self.wf() }
    open spec fn ar(&self) -> &str { str_of_bytes(self.bytes()) }
    open spec fn steady(&self) -> bool { true }
}

impl<const N: usize> crate::spec::asref::AsRefSpecImpl<[u8]> for ArrayString<N> where ArrayString<N>: ValidCapacity {
    open spec fn ar_req(&self) -> bool { self.wf() }
    open spec fn ar(&self) -> &[u8] { slice_of_bytes(self.bytes()) }
    open spec fn steady(&self) -> bool { true }
}
impl crate::spec::asref::AsRefSpecImpl<str> for CacheString {
    open spec fn ar_req(&self) -> bool { self.0.wf() }
    open spec fn ar(&self) -> &str { str_of_bytes(self.0.bytes()) }
    open spec fn steady(&self) -> bool { true }
}
impl crate::spec::asref::AsRefSpecImpl<[u8]> for CacheString {
    open spec fn ar_req(&self) -> bool { self.0.wf() }
    open spec fn ar(&self) -> &[u8] { slice_of_bytes(self.0.bytes()) }
    open spec fn steady(&self) -> bool { true }
}
impl<T> crate::spec::asref::AsRefSpecImpl<[T]> for [T] {
    open spec fn ar_req(&self) -> bool { true }
    open spec fn ar(&self) -> &[T] { self }
    open spec fn steady(&self) -> bool { true }
}

/// a string slice occupies at most isize::MAX bytes (language guarantee)
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX as int;
/// `?` converts errors with `From::from`
pub broadcast axiom fn axiom_from<S, T: From<S>>(v: S, r: T)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from(v, r)
        ==> <T as FromSpec<S>>::obeys_from_spec() ==> r == <T as FromSpec<S>>::from_spec(v);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDecodeUtf16Error(DecodeUtf16Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExEncodeUtf16<'a>(core::str::EncodeUtf16<'a>);
#[verifier::external_trait_specification]
pub trait ExHasher { type ExternalTraitSpecificationFor: core::hash::Hasher; }

pub assume_specification<T>[bool::then_some](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });
pub assume_specification<T: core::marker::Destruct, E: core::marker::Destruct>[Result::<T, E>::unwrap_or](r: Result<T, E>, d: T) -> (v: T)
    ensures v == (match r { Ok(x) => x, Err(_) => d });
pub assume_specification<Idx>[core::ops::RangeInclusive::<Idx>::start](x: &core::ops::RangeInclusive<Idx>) -> (r: &Idx)
    ensures *r == x@.start;
pub assume_specification<Idx>[core::ops::RangeInclusive::<Idx>::end](x: &core::ops::RangeInclusive<Idx>) -> (r: &Idx)
    ensures *r == x@.end;
/// `core::char::REPLACEMENT_CHARACTER`
pub const REPLACEMENT_CHARACTER: char = '\u{FFFD}';
pub assume_specification[char::encode_utf8](c: char, dst: &mut [u8]) -> (r: &mut str)
    requires old(dst)@.len() >= enc1(c).len(),
    ensures r.spec_bytes() == enc1(c);
pub assume_specification<T: Ord + core::marker::Destruct>[core::cmp::min](a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if <T as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) is Greater { b } else { a });
pub assume_specification<T, const N: usize>[<[T; N]>::as_mut_slice](a: &mut [T; N]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@;
pub assume_specification<T, I: SliceIndex<[T]>>[<[T]>::get_unchecked](s: &[T], i: I) -> (r: &I::Output)
    requires i.in_bounds(s),
    ensures i.index_postcondition(s, r);
pub assume_specification<T, I: SliceIndex<[T]>>[<[T]>::get_unchecked_mut](s: &mut [T], i: I) -> (r: &mut I::Output)
    requires i.in_bounds(old(s)),
    ensures i.index_mut_postcondition(old(s), final(s), r, final(r));
pub assume_specification<I: SliceIndex<str>>[str::get_unchecked](s: &str, i: I) -> (r: &I::Output)
    requires i.in_bounds(s),
    ensures i.index_postcondition(s, r);
pub assume_specification<T, E, F>[Result::<T, E>::or](r: Result<T, E>, d: Result<T, F>) -> (q: Result<T, F>)
    where E: core::marker::Destruct, T: core::marker::Destruct, F: core::marker::Destruct
    ensures q == (match r { Ok(t) => Ok(t), Err(_) => d });
pub assume_specification<I: SliceIndex<str>>[str::get](s: &str, i: I) -> (r: Option<&I::Output>)
    ensures match r { Some(x) => i.in_bounds(s) && i.index_postcondition(s, x), None => !i.in_bounds(s) };
pub assume_specification[core::str::from_utf8](v: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> r->Ok_0.spec_bytes() == v@;
pub assume_specification[core::str::from_utf8_unchecked](v: &[u8]) -> (r: &str)
    requires valid_utf8(v@),
    ensures r.spec_bytes() == v@;
pub assume_specification[core::str::from_utf8_unchecked_mut](v: &mut [u8]) -> (r: &mut str)
    requires valid_utf8(old(v)@),
    ensures r.spec_bytes() == old(v)@, final(v)@ == final(r).spec_bytes(), final(v)@.len() == old(v)@.len();
pub assume_specification[<str as Ord>::cmp](a: &str, b: &str) -> (r: Ordering)
    ensures r == lex(a.spec_bytes(), b.spec_bytes());
pub assume_specification[<Ordering as PartialEq>::eq](a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);
pub assume_specification[Ordering::is_lt](a: Ordering) -> (r: bool) ensures r == (a is Less);
pub assume_specification[Ordering::is_le](a: Ordering) -> (r: bool) ensures r == !(a is Greater);
pub assume_specification[Ordering::is_gt](a: Ordering) -> (r: bool) ensures r == (a is Greater);
pub assume_specification[Ordering::is_ge](a: Ordering) -> (r: bool) ensures r == !(a is Less);
pub assume_specification[Ordering::is_eq](a: Ordering) -> (r: bool) ensures r == (a is Equal);
pub assume_specification[Ordering::is_ne](a: Ordering) -> (r: bool) ensures r == !(a is Equal);
pub assume_specification[Ordering::reverse](a: Ordering) -> (r: Ordering)
    ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
/// `str`'s PartialOrd (and the operators) agree with its Ord
pub broadcast axiom fn axiom_str_ord(a: &str, b: &str)
    ensures
        <str as PartialOrdSpec<str>>::obeys_partial_cmp_spec(),
        #[trigger] <str as PartialOrdSpec<str>>::partial_cmp_spec(a, b) == Some(lex(a.spec_bytes(), b.spec_bytes()));
/// `[u8]`: equality, and the lexicographic order
pub broadcast axiom fn axiom_slice_eq(a: &[u8], b: &[u8])
    ensures
        <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(),
        #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ == b@);
pub uninterp spec fn slice_cmp<T>(a: Seq<T>, b: Seq<T>) -> Ordering;
pub uninterp spec fn slice_pcmp<T>(a: Seq<T>, b: Seq<T>) -> Option<Ordering>;
pub broadcast axiom fn axiom_slice_cmp(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] slice_cmp(a, b) == lex(a, b);
pub broadcast axiom fn axiom_slice_pcmp(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] slice_pcmp(a, b) == Some(lex(a, b));
pub assume_specification<T: Ord>[<[T] as Ord>::cmp](a: &[T], b: &[T]) -> (r: Ordering)
    ensures r == slice_cmp(a@, b@);
pub assume_specification<T: PartialOrd>[<[T] as PartialOrd>::partial_cmp](a: &[T], b: &[T]) -> (r: Option<Ordering>)
    ensures r == slice_pcmp(a@, b@);
pub assume_specification[<str as PartialOrd>::partial_cmp](a: &str, b: &str) -> (r: Option<Ordering>)
    ensures r == Some(lex(a.spec_bytes(), b.spec_bytes()));
pub assume_specification<'a>[<core::str::Chars<'a> as Iterator>::count](c: core::str::Chars<'a>) -> (r: usize)
    ensures r == c.remaining().len();
pub assume_specification<'a>[<core::str::Chars<'a> as Iterator>::last](c: core::str::Chars<'a>) -> (r: Option<char>)
    ensures r == (if c.remaining().len() == 0 { None } else { Some(c.remaining().last()) });

/// whether a range gives the same bounds every time it is asked for them
pub uninterp spec fn same_bounds<R>(r: R) -> bool;
pub broadcast axiom fn axiom_same_range(r: core::ops::Range<usize>) ensures #[trigger] same_bounds(r);
pub broadcast axiom fn axiom_same_from(r: core::ops::RangeFrom<usize>) ensures #[trigger] same_bounds(r);
pub broadcast axiom fn axiom_same_to(r: core::ops::RangeTo<usize>) ensures #[trigger] same_bounds(r);
pub broadcast axiom fn axiom_same_full(r: core::ops::RangeFull) ensures #[trigger] same_bounds(r);
pub broadcast axiom fn axiom_same_incl(r: core::ops::RangeInclusive<usize>) ensures #[trigger] same_bounds(r);
pub broadcast axiom fn axiom_same_to_incl(r: core::ops::RangeToInclusive<usize>) ensures #[trigger] same_bounds(r);
/// `RangeBounds::start_bound` and `end_bound` of any implementation
pub trait Bounds: RangeBounds<usize> + Sized {
    fn start_bound_(&self) -> (b: Bound<&usize>)
        ensures same_bounds(*self) ==> b == (*self).spec_start_bound();
    fn end_bound_(&self) -> (b: Bound<&usize>)
        ensures same_bounds(*self) ==> b == (*self).spec_end_bound();
}
impl<R: RangeBounds<usize>> Bounds for R {
    #[verifier::external_body]
    fn start_bound_(&self) -> (b: Bound<&usize>) { self.start_bound() }
    #[verifier::external_body]
    fn end_bound_(&self) -> (b: Bound<&usize>) { self.end_bound() }
}
/// Whether the run being reasoned about is one in which indexing may panic.  Nothing is known about it, so a
/// contract proved with it holds both ways: no panic if the range is good, and good if there was no panic.
pub uninterp spec fn panic_is_possible() -> bool;
/// whether a logger asks for a message; nothing is known of it, so what is proved holds with and without
#[verifier::external_body]
pub fn logs_on() -> bool { true }
/// `Index::index` on `str`
#[verifier::external_body]
pub fn str_index<I: SliceIndex<str>>(s: &str, i: I) -> (r: &I::Output)
    requires panic_is_possible() || i.in_bounds(s),
    ensures i.in_bounds(s), i.index_postcondition(s, r),
{ core::ops::Index::index(s, i) }
/// `IndexMut::index_mut` on `str`
#[verifier::external_body]
pub fn str_index_mut<I: SliceIndex<str>>(s: &mut str, i: I) -> (r: &mut I::Output)
    requires panic_is_possible() || i.in_bounds(old(s)),
    ensures i.in_bounds(old(s)), i.index_mut_postcondition(old(s), final(s), r, final(r)),
{ core::ops::IndexMut::index_mut(s, i) }
/// `&x[range]`
pub trait Ix<I> {
    type Out: ?Sized;
    spec fn ix_req(&self, i: I) -> bool;
    spec fn ix_post(&self, i: I, r: &Self::Out) -> bool;
    fn ix_(&self, i: I) -> (r: &Self::Out)
        requires panic_is_possible() || self.ix_req(i),
        ensures self.ix_req(i), self.ix_post(i, r);
}
impl<I: SliceIndex<str>> Ix<I> for str {
    type Out = I::Output;
    open spec fn ix_req(&self, i: I) -> bool { i.in_bounds(self) }
    open spec fn ix_post(&self, i: I, r: &I::Output) -> bool { i.index_postcondition(self, r) }
    #[verifier::external_body]
    fn ix_(&self, i: I) -> &I::Output { core::ops::Index::index(self, i) }
}
impl<T, I: SliceIndex<[T]>> Ix<I> for [T] {
    type Out = I::Output;
    open spec fn ix_req(&self, i: I) -> bool { i.in_bounds(self) }
    open spec fn ix_post(&self, i: I, r: &I::Output) -> bool { i.index_postcondition(self, r) }
    #[verifier::external_body]
    fn ix_(&self, i: I) -> &I::Output { core::ops::Index::index(self, i) }
}
/// debug_assert!(b)
pub fn rt_assert(b: bool)
    requires b,
{
}

pub open spec fn kind_name(e: Error) -> Seq<u8> {
    match e {
        Error::Utf8 => "Utf8".spec_bytes(),
        Error::Utf16 => "Utf16".spec_bytes(),
        Error::OutOfBounds => "OutOfBounds".spec_bytes(),
    }
}
/// different kinds have different names
pub proof fn lemma_kind_names()
    ensures forall|a: Error, b: Error| kind_name(a) == kind_name(b) <==> a == b,
{
    broadcast use lemma_str_eq;
    reveal_strlit("Utf8");
    reveal_strlit("Utf16");
    reveal_strlit("OutOfBounds");
    assert("Utf8"@.len() == 4 && "Utf16"@.len() == 5 && "OutOfBounds"@.len() == 11);
}
// ---- hashing: what a hasher has been fed, as a function of the text
pub uninterp spec fn fed<H>(h: H, text: Seq<u8>) -> H;
pub trait StrHash {
    /// `str::hash`
    fn vhash<H: Hasher>(&self, h: &mut H);
}
impl StrHash for str {
    #[verifier::external_body]
    fn vhash<H: Hasher>(&self, h: &mut H)
        ensures *final(h) == fed(*old(h), self.spec_bytes())
    { core::hash::Hash::hash(self, h) }
}

// ---- iterators
/// what `IntoIterator::into_iter` returns, as a function of its argument
pub uninterp spec fn into_iter_of<I: IntoIterator>(i: I) -> I::IntoIter;
#[verifier::prophetic]
pub open spec fn items<I: IntoIterator>(i: I) -> Seq<I::Item> { into_iter_of(i).remaining() }
/// a value that is an iterator is its own iterator
pub broadcast axiom fn axiom_into_iter_self<I: Iterator>(i: I)
    ensures #[trigger] into_iter_of::<I>(i) == i;
/// `IntoIterator::into_iter`
#[verifier::external_body]
pub fn iterate<I: IntoIterator>(i: I) -> (r: I::IntoIter)
    ensures r == into_iter_of(i), r.obeys_prophetic_iter_laws(),
{ i.into_iter() }

/// stands for an iterator of the standard library that yields the elements of a known sequence
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { _p: core::marker::PhantomData<T> }
pub uninterp spec fn it_seq<T>(i: It<T>) -> Seq<T>;
impl<T> vstd::std_specs::iter::IteratorSpecImpl for It<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<T> { it_seq(*self) }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(it_seq(*self).len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < it_seq(*self).len() { Some(it_seq(*self)[i]) } else { None } }
}
impl<T> Iterator for It<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
}
impl<T> It<T> {
    /// `Iterator::rev`
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>)
        ensures r.remaining() == self.remaining().reverse(),
    { unimplemented!() }
    /// `DoubleEndedIterator::next_back`
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures
            old(self).remaining().len() == 0 ==> r is None && (*final(self)).remaining() == (*old(self)).remaining(),
            old(self).remaining().len() > 0 ==> r == Some(old(self).remaining().last()) && (*final(self)).remaining() == (*old(self)).remaining().drop_last(),
    { unimplemented!() }
    /// `Iterator::last`
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r == (if self.remaining().len() == 0 { None } else { Some(self.remaining().last()) }),
    { unimplemented!() }
}
pub open spec fn indexed(cs: Seq<char>) -> Seq<(usize, char)> {
    Seq::new(cs.len(), |i: int| (encode_utf8(cs.subrange(0, i)).len() as usize, cs[i]))
}
/// `str::char_indices`
#[verifier::external_body]
pub fn char_indices(s: &str) -> (r: It<(usize, char)>)
    ensures r.remaining() == indexed(s@),
{ unimplemented!() }
/// the error for a surrogate without its other half
pub uninterp spec fn unpaired(u: u16) -> DecodeUtf16Error;
/// UTF-16, decoded
pub open spec fn utf16_decoded(u: Seq<u16>) -> Seq<Result<char, DecodeUtf16Error>>
    decreases u.len(),
{
    if u.len() == 0 {
        Seq::empty()
    } else if 0xd800 <= u[0] < 0xdc00 && u.len() > 1 && 0xdc00 <= u[1] < 0xe000 {
        seq![Ok::<char, DecodeUtf16Error>((0x10000 + (u[0] - 0xd800) * 0x400 + (u[1] - 0xdc00)) as char)] + utf16_decoded(u.skip(2))
    } else if 0xd800 <= u[0] < 0xe000 {
        seq![Err::<char, DecodeUtf16Error>(unpaired(u[0]))] + utf16_decoded(u.skip(1))
    } else {
        seq![Ok::<char, DecodeUtf16Error>(u[0] as char)] + utf16_decoded(u.skip(1))
    }
}
/// the definition, tried on a pair, a lone half and a plain unit
proof fn lemma_utf16_decoded() {
    reveal_with_fuel(utf16_decoded, 4);
    assert(utf16_decoded(seq![0x41u16, 0xd83d, 0xde00]) =~= seq![Ok('A'), Ok('\u{1f600}')]);
    assert(utf16_decoded(seq![0xd83du16, 0x42]) =~= seq![Err(unpaired(0xd83d)), Ok('B')]);
}
/// `core::char::decode_utf16`
#[verifier::external_body]
pub fn decode_utf16<I: Iterator<Item = u16>>(i: I) -> (r: It<Result<char, DecodeUtf16Error>>)
    ensures r.remaining() == utf16_decoded(i.remaining()),
{ unimplemented!() }
pub trait Cloned<'a, T: 'a + Clone>: Iterator<Item = &'a T> + Sized {
    fn cloned_(self) -> It<T>;
}
impl<'a, T: 'a + Copy, I: Iterator<Item = &'a T>> Cloned<'a, T> for I {
    /// `Iterator::cloned`
    #[verifier::external_body]
    fn cloned_(self) -> (r: It<T>)
        ensures r.remaining() == self.remaining().unref(),
    { unimplemented!() }
}
/// what a predicate answers, and what it is after that (its state, and what of the world it depends on)
pub uninterp spec fn answer<F: FnMut(char) -> bool>(f: F, c: char) -> bool;
pub uninterp spec fn asked<F: FnMut(char) -> bool>(f: F, c: char) -> F;
/// a call of a predicate
#[verifier::external_body]
pub fn ask<F: FnMut(char) -> bool>(f: &mut F, c: char) -> (r: bool)
    ensures r == answer(*old(f), c), *final(f) == asked(*old(f), c),
{ unimplemented!() }
/// the answers a predicate gives when it is called once on each of `cs`, in order
pub open spec fn verdicts<F: FnMut(char) -> bool>(f: F, cs: Seq<char>) -> Seq<bool>
    decreases cs.len(),
{
    if cs.len() == 0 { Seq::empty() } else { seq![answer(f, cs[0])] + verdicts(asked(f, cs[0]), cs.drop_first()) }
}
pub proof fn lemma_ask<F: FnMut(char) -> bool>(f: F, cs: Seq<char>, i: int)
    requires 0 <= i <= cs.len(),
    ensures
        i == cs.len() ==> kept(cs.skip(i), verdicts(f, cs.skip(i))) == Seq::<char>::empty() && encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
        i < cs.len() ==> ({
            let g = asked(f, cs[i]);
            let rest = encode_utf8(kept(cs.skip(i + 1), verdicts(g, cs.skip(i + 1))));
            encode_utf8(kept(cs.skip(i), verdicts(f, cs.skip(i)))) == (if answer(f, cs[i]) { enc1(cs[i]) + rest } else { rest })
        }),
{
    if i < cs.len() {
        let g = asked(f, cs[i]);
        let more = cs.skip(i + 1);
        assert(cs.skip(i).drop_first() =~= more);
        assert(verdicts(f, cs.skip(i)).drop_first() =~= verdicts(g, more));
        if answer(f, cs[i]) {
            encode_utf8_concat(seq![cs[i]], kept(more, verdicts(g, more)));
            assert(encode_utf8(seq![cs[i]].drop_first()) =~= Seq::<u8>::empty());
            assert(encode_utf8(seq![cs[i]]) =~= enc1(cs[i]));
        }
    }
}
/// `Iterator::filter`
#[verifier::external_body]
pub fn filter_chars<I: Iterator<Item = char>, F: FnMut(char) -> bool>(i: I, f: &mut F) -> (r: It<char>)
    ensures r.remaining() == kept(i.remaining(), verdicts(*old(f), i.remaining())),
{ unimplemented!() }

/// `Iterator::map(|c| c.unwrap_or(REPLACEMENT_CHARACTER))` of what a decoder gives
#[verifier::external_body]
pub fn map_lossy<I: Iterator<Item = Result<char, DecodeUtf16Error>>>(i: I) -> (r: It<char>)
    ensures r.remaining() == utf16_lossy(i.remaining()),
{ unimplemented!() }

// ---------------------------------------------------------------- histories of a drain

/// one call from the front: what was left, what it gave, what is left
pub open spec fn from_front(b: Seq<u8>, r: Option<char>, a: Seq<u8>) -> bool {
    &&& r is None <==> b.len() == 0
    &&& match r { Some(c) => b =~= enc1(c) + a, None => a == b }
    &&& valid_utf8(a)
}
/// one call from the back
pub open spec fn from_back(b: Seq<u8>, r: Option<char>, a: Seq<u8>) -> bool {
    &&& r is None <==> b.len() == 0
    &&& match r { Some(c) => b == a + enc1(c), None => a == b }
    &&& valid_utf8(a)
}
/// a history: at each step the end it was asked at (true: the front) and what it gave
pub open spec fn drained(states: Seq<Seq<u8>>, calls: Seq<(bool, Option<char>)>) -> bool {
    &&& states.len() == calls.len() + 1
    &&& valid_utf8(states[0])
    &&& forall|i: int| 0 <= i < calls.len() ==> (if (#[trigger] calls[i]).0 { from_front(states[i], calls[i].1, states[i + 1]) } else { from_back(states[i], calls[i].1, states[i + 1]) })
}
/// what the front gave, in order
pub open spec fn fronts(calls: Seq<(bool, Option<char>)>) -> Seq<char>
    decreases calls.len(),
{
    if calls.len() == 0 { Seq::empty() }
    else { fronts(calls.drop_last()) + (match calls.last() { (true, Some(c)) => seq![c], _ => Seq::empty() }) }
}
/// what the back gave, last first
pub open spec fn backs(calls: Seq<(bool, Option<char>)>) -> Seq<char>
    decreases calls.len(),
{
    if calls.len() == 0 { Seq::empty() }
    else { (match calls.last() { (false, Some(c)) => seq![c], _ => Seq::empty() }) + backs(calls.drop_last()) }
}
proof fn lemma_drain_step(b: Seq<u8>, front: bool, r: Option<char>, a: Seq<u8>)
    requires if front { from_front(b, r, a) } else { from_back(b, r, a) }, valid_utf8(b),
    ensures decode_utf8(b) == (match r { Some(c) => if front { seq![c] + decode_utf8(a) } else { decode_utf8(a) + seq![c] }, None => decode_utf8(a) }), valid_utf8(a),
{
    if let Some(c) = r {
        let one = seq![c];
        let rest = decode_utf8(a);
        decode_utf8_encode_utf8(a);
        assert(encode_utf8(one) =~= enc1(c)) by { assert(encode_utf8(one.drop_first()) =~= Seq::<u8>::empty()); }
        if front { encode_utf8_concat(one, rest); encode_utf8_decode_utf8(one + rest); }
        else { encode_utf8_concat(rest, one); encode_utf8_decode_utf8(rest + one); }
    }
}
proof fn lemma_drained_before(states: Seq<Seq<u8>>, calls: Seq<(bool, Option<char>)>)
    requires drained(states, calls), calls.len() > 0,
    ensures
        drained(states.drop_last(), calls.drop_last()),
        if calls.last().0 { from_front(states[calls.len() - 1], calls.last().1, states.last()) } else { from_back(states[calls.len() - 1], calls.last().1, states.last()) },
{
    hide(from_front);
    hide(from_back);
    let n = calls.len() - 1;
    let last = calls[n];
    let before = calls.drop_last();
    assert forall|i: int| 0 <= i < before.len() implies (if (#[trigger] before[i]).0 { from_front(states.drop_last()[i], before[i].1, states.drop_last()[i + 1]) } else { from_back(states.drop_last()[i], before[i].1, states.drop_last()[i + 1]) }) by {
        let c = calls[i];
        assert(before[i] == c);
    }
}
proof fn lemma_drain_join(f: Seq<char>, b: Seq<char>, a: Seq<char>, k: Seq<char>, front: bool, r: Option<char>)
    requires b == (match r { Some(c) => if front { seq![c] + a } else { a + seq![c] }, None => a }),
    ensures f + b + k == (match (front, r) { (true, Some(c)) => f + seq![c], _ => f + Seq::empty() }) + a + (match (front, r) { (false, Some(c)) => seq![c] + k, _ => Seq::empty() + k }),
{
    match (front, r) {
        (true, Some(c)) => { assert(f + b + k =~= (f + seq![c]) + a + (Seq::empty() + k)); }
        (false, Some(c)) => { assert(f + b + k =~= (f + Seq::empty()) + a + (seq![c] + k)); }
        (_, None) => { assert(f + b + k =~= (f + Seq::empty()) + a + (Seq::empty() + k)); }
    }
}
/// every history yields every character once, from the front in order and from the back in reverse, and leaves the rest
pub proof fn lemma_drained(states: Seq<Seq<u8>>, calls: Seq<(bool, Option<char>)>)
    requires drained(states, calls),
    ensures
        decode_utf8(states[0]) == fronts(calls) + decode_utf8(states.last()) + backs(calls),
        valid_utf8(states.last()),
    decreases calls.len(),
{
    hide(encode_utf8);
    hide(decode_utf8);
    hide(from_front);
    hide(from_back);
    if calls.len() > 0 {
        let n = calls.len() - 1;
        lemma_drained_before(states, calls);
        lemma_drained(states.drop_last(), calls.drop_last());
        let b = states[n];
        let a = states[n + 1];
        assert(states.drop_last().last() == b && states.last() == a);
        let last = calls[n];
        lemma_drain_step(b, last.0, last.1, a);
        assert(calls.last() == last);
        lemma_drain_join(fronts(calls.drop_last()), decode_utf8(b), decode_utf8(a), backs(calls.drop_last()), last.0, last.1);
    } else {
        assert(fronts(calls) + decode_utf8(states.last()) + backs(calls) =~= decode_utf8(states.last()));
    }
}
/// once it has given nothing it gives nothing, from either end
pub proof fn lemma_exhausted(states: Seq<Seq<u8>>, calls: Seq<(bool, Option<char>)>, i: int, j: int)
    requires drained(states, calls), 0 <= i <= j < calls.len(), calls[i].1 is None,
    ensures calls[j].1 is None,
    decreases j,
{
    lemma_empty_stays(states, calls, i, j);
    let c = calls[j];
}
proof fn lemma_empty_stays(states: Seq<Seq<u8>>, calls: Seq<(bool, Option<char>)>, i: int, j: int)
    requires drained(states, calls), 0 <= i <= j < calls.len(), calls[i].1 is None,
    ensures states[j].len() == 0,
    decreases j,
{
    if i < j { lemma_empty_stays(states, calls, i, j - 1); let c = calls[j - 1]; assert(states[j].len() == 0); }
    else { let c = calls[i]; assert(states[i].len() == 0); }
}

// ---------------------------------------------------------------- lemmas

pub broadcast proof fn lemma_chars_bytes(s: &str)
    ensures decode_utf8(#[trigger] s.spec_bytes()) == s@, valid_utf8(s.spec_bytes()), encode_utf8(s@) == s.spec_bytes(),
{
    encode_utf8_valid_utf8(s@);
    encode_utf8_decode_utf8(s@);
}

pub proof fn lemma_empty_str()
    ensures "".spec_bytes() == Seq::<u8>::empty()
{
    reveal_strlit("");
}
pub broadcast proof fn lemma_str_eq(a: &str, b: &str)
    ensures #[trigger] a.spec_bytes() == #[trigger] b.spec_bytes() <==> a@ == b@
{
    encode_utf8_decode_utf8(a@);
    encode_utf8_decode_utf8(b@);
}

/// the order is antisymmetric
pub broadcast proof fn lemma_lex_flip(a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger lex(a, b), lex(b, a)]
        lex(a, b) is Less <==> lex(b, a) is Greater,
        lex(a, b) is Equal <==> lex(b, a) is Equal,
        lex(a, b) is Equal <==> a =~= b,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_lex_flip(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}
/// a text has at most as many characters as bytes
pub broadcast proof fn lemma_chars_le(b: Seq<u8>)
    ensures #![trigger decode_utf8(b).len()] valid_utf8(b) ==> decode_utf8(b).len() <= b.len()
{
    if valid_utf8(b) {
        decode_utf8_encode_utf8(b);
        lemma_chars_le_(decode_utf8(b));
    }
}
pub proof fn lemma_chars_le_(cs: Seq<char>)
    ensures cs.len() <= encode_utf8(cs).len()
    decreases cs.len()
{
    if cs.len() > 0 {
        lemma_enc1_len(cs[0]);
        lemma_chars_le_(cs.drop_first());
    }
}
pub broadcast proof fn lemma_enc1_len(c: char)
    ensures 1 <= #[trigger] enc1(c).len() <= 4
{
    char_is_scalar(c);
}

pub broadcast proof fn lemma_unref<A>(s: Seq<A>)
    ensures #[trigger] s.as_ref().unref() == s,
{
    assert(s.as_ref().unref() =~= s);
}
pub broadcast proof fn lemma_skip_ends<A>(s: Seq<A>, i: int)
    ensures #![trigger s.skip(i)] i == 0 ==> s.skip(i) == s, i == s.len() ==> s.skip(i) == Seq::<A>::empty(),
{
    if i == 0 { assert(s.skip(i) =~= s); }
    if i == s.len() { assert(s.skip(i) =~= Seq::<A>::empty()); }
}
pub proof fn lemma_skip<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures s.skip(i).drop_first() == s.skip(i + 1), s.skip(i).len() == s.len() - i, s.skip(i)[0] == s[i],
{
    assert(s.skip(i).drop_first() =~= s.skip(i + 1));
}
pub broadcast proof fn lemma_add_empty<A>(s: Seq<A>)
    ensures #[trigger] (s + Seq::<A>::empty()) == s,
{
    assert(s + Seq::<A>::empty() =~= s);
}
pub broadcast proof fn lemma_empty_add<A>(s: Seq<A>)
    ensures #[trigger] (Seq::<A>::empty() + s) == s,
{
    assert(Seq::<A>::empty() + s =~= s);
}
/// one step of `cat`, after `p`
pub proof fn lemma_cat_step(p: Seq<u8>, ss: Seq<Seq<u8>>, i: int)
    requires 0 <= i < ss.len(),
    ensures
        p + cat(ss.skip(i)) == (p + ss[i]) + cat(ss.skip(i + 1)),
        cat(ss.skip(i)).len() >= ss[i].len(),
{
    lemma_skip(ss, i);
    assert(p + (ss[i] + cat(ss.skip(i + 1))) =~= (p + ss[i]) + cat(ss.skip(i + 1)));
}
pub proof fn lemma_fit_strs_step(p: Seq<u8>, ss: Seq<Seq<u8>>, i: int, room: int)
    requires 0 <= i < ss.len(),
    ensures
        ss[i].len() > room ==> p + fit_strs(ss.skip(i), room) == p + trunc(ss[i], room),
        ss[i].len() <= room ==> p + fit_strs(ss.skip(i), room) == (p + ss[i]) + fit_strs(ss.skip(i + 1), room - ss[i].len()),
{
    lemma_skip(ss, i);
    assert(p + (ss[i] + fit_strs(ss.skip(i + 1), room - ss[i].len())) =~= (p + ss[i]) + fit_strs(ss.skip(i + 1), room - ss[i].len()));
}
pub proof fn lemma_encode_step(p: Seq<u8>, cs: Seq<char>, i: int)
    requires 0 <= i < cs.len(),
    ensures
        p + encode_utf8(cs.skip(i)) == (p + enc1(cs[i])) + encode_utf8(cs.skip(i + 1)),
        encode_utf8(cs.skip(i)).len() >= enc1(cs[i]).len(),
{
    lemma_skip(cs, i);
    assert(p + (enc1(cs[i]) + encode_utf8(cs.skip(i + 1))) =~= (p + enc1(cs[i])) + encode_utf8(cs.skip(i + 1)));
}
pub proof fn lemma_fit_chars_step(p: Seq<u8>, cs: Seq<char>, i: int, room: int)
    requires 0 <= i < cs.len(),
    ensures
        enc1(cs[i]).len() > room ==> p + fit_chars(cs.skip(i), room) == p,
        enc1(cs[i]).len() <= room ==> p + fit_chars(cs.skip(i), room) == (p + enc1(cs[i])) + fit_chars(cs.skip(i + 1), room - enc1(cs[i]).len()),
{
    lemma_skip(cs, i);
    assert(p + Seq::<u8>::empty() =~= p);
    assert(p + (enc1(cs[i]) + fit_chars(cs.skip(i + 1), room - enc1(cs[i]).len())) =~= (p + enc1(cs[i])) + fit_chars(cs.skip(i + 1), room - enc1(cs[i]).len()));
}
pub proof fn lemma_strict_step(p: Seq<u8>, d: Seq<Result<char, DecodeUtf16Error>>, i: int, room: int)
    requires 0 <= i < d.len(),
    ensures
        prefixed(p, utf16_strict(d.skip(i), room)) == (match d[i] {
            Err(_) => Err(Error::Utf16),
            Ok(c) => if enc1(c).len() > room { Err(Error::OutOfBounds) } else { prefixed(p + enc1(c), utf16_strict(d.skip(i + 1), room - enc1(c).len())) },
        }),
{
    lemma_skip(d, i);
    if let Ok(c) = d[i] {
        if let Ok(r) = utf16_strict(d.skip(i + 1), room - enc1(c).len()) { assert(p + (enc1(c) + r) =~= (p + enc1(c)) + r); }
    }
}
pub proof fn lemma_cut_step(p: Seq<u8>, d: Seq<Result<char, DecodeUtf16Error>>, i: int, room: int)
    requires 0 <= i < d.len(),
    ensures
        prefixed(p, utf16_cut(d.skip(i), room)) == (match d[i] {
            Err(_) => Err(Utf16),
            Ok(c) => if enc1(c).len() > room { Ok(p) } else { prefixed(p + enc1(c), utf16_cut(d.skip(i + 1), room - enc1(c).len())) },
        }),
{
    lemma_skip(d, i);
    assert(p + Seq::<u8>::empty() =~= p);
    if let Ok(c) = d[i] {
        if let Ok(r) = utf16_cut(d.skip(i + 1), room - enc1(c).len()) { assert(p + (enc1(c) + r) =~= (p + enc1(c)) + r); }
    }
}

/// every index has a character boundary at most three bytes below it
pub proof fn lemma_boundary_near(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(),
    ensures is_char_boundary(b, i) || is_char_boundary(b, i - 1) || is_char_boundary(b, i - 2) || is_char_boundary(b, i - 3),
    decreases b.len(),
{
    if i > 0 {
        let n = length_of_first_scalar(b);
        let t = pop_first_scalar(b);
        assert(is_char_boundary(b, 0));
        assert(1 <= n <= 4);
        if i >= n {
            lemma_boundary_near(t, i - n);
            assert(is_char_boundary(b, n)) by { assert(is_char_boundary(t, 0)); }
            let k = if is_char_boundary(t, i - n) { 0int } else if is_char_boundary(t, i - n - 1) { 1 } else if is_char_boundary(t, i - n - 2) { 2 } else { 3 };
            assert(is_char_boundary(t, i - n - k));
            assert(i - n - k >= 0);
            assert(is_char_boundary(b, i - k));
        }
    }
}
/// what `trunc` is, spelled out for the four places its end can be
pub proof fn lemma_trunc(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i,
    ensures
        i >= b.len() ==> trunc(b, i) == b,
        i < b.len() ==> trunc(b, i) == b.subrange(0,
            if is_char_boundary(b, i) { i } else if is_char_boundary(b, i - 1) { i - 1 } else if is_char_boundary(b, i - 2) { i - 2 } else { i - 3 }),
        i < b.len() && !is_char_boundary(b, i) ==> i >= 1,
        i < b.len() && !is_char_boundary(b, i) && !is_char_boundary(b, i - 1) ==> i >= 2,
        i < b.len() && !is_char_boundary(b, i) && !is_char_boundary(b, i - 1) && !is_char_boundary(b, i - 2) ==> i >= 3 && is_char_boundary(b, i - 3),
{
    reveal_with_fuel(trunc_at, 5);
    if i < b.len() {
        lemma_boundary_near(b, i);
        is_char_boundary_start_end_of_seq(b);
    } else {
        assert(b.subrange(0, b.len() as int) =~= b);
    }
}

/// a truncation is no longer than asked for, and is the whole string if that is short enough
pub broadcast proof fn lemma_trunc_len(b: Seq<u8>, i: int)
    ensures
        #![trigger trunc(b, i)]
        0 <= i ==> trunc(b, i).len() <= i,
        trunc(b, i).len() <= b.len(),
        0 <= trunc_at(b, i) <= b.len(),
        trunc(b, i).len() == trunc_at(b, i),
        b.len() <= i ==> trunc(b, i) == b,
    decreases i,
{
    if i < b.len() && i > 0 && !is_char_boundary(b, i) { lemma_trunc_len(b, i - 1); }
    if i >= b.len() { assert(b.subrange(0, b.len() as int) =~= b); }
}

/// replacing whole characters by a valid string leaves a valid string
pub proof fn lemma_replaced(b: Seq<u8>, s: int, e: int, w: Seq<u8>)
    requires valid_utf8(b), valid_utf8(w),
    ensures range_ok(b, s, e) ==> valid_utf8(replaced(b, s, e, w)),
{
    if range_ok(b, s, e) {
        valid_utf8_split(b, s);
        valid_utf8_split(b, e);
        valid_utf8_concat(b.subrange(0, s), w);
        valid_utf8_concat(b.subrange(0, s) + w, b.subrange(e, b.len() as int));
    }
}

pub broadcast proof fn lemma_prefix_prefix<A>(s: Seq<A>, m: int, n: int)
    requires 0 <= n <= m <= s.len(),
    ensures #[trigger] s.subrange(0, m).subrange(0, n) == s.subrange(0, n),
{
    assert(s.subrange(0, m).subrange(0, n) =~= s.subrange(0, n));
}
/// cutting a valid string at a boundary gives two valid strings
pub proof fn lemma_cut(b: Seq<u8>, i: int)
    requires valid_utf8(b),
    ensures 0 <= i <= b.len() && is_char_boundary(b, i) ==> valid_utf8(b.subrange(0, i)) && valid_utf8(b.subrange(i, b.len() as int)),
{
    if 0 <= i <= b.len() && is_char_boundary(b, i) { valid_utf8_split(b, i); }
}
/// where a valid prefix ends is a boundary
pub proof fn lemma_prefix_boundary(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(), valid_utf8(b.subrange(0, i)),
    ensures is_char_boundary(b, i),
    decreases i,
{
    if i > 0 {
        let p = b.subrange(0, i);
        let n = length_of_first_scalar(b);
        assert(p[0] == b[0]);
        assert(length_of_first_scalar(p) == n);
        assert(pop_first_scalar(p) =~= pop_first_scalar(b).subrange(0, i - n));
        lemma_prefix_boundary(pop_first_scalar(b), i - n);
    }
}
/// a string ends with its last character
pub proof fn lemma_last_char(b: Seq<u8>)
    requires valid_utf8(b),
    ensures b.len() > 0 <==> decode_utf8(b).len() > 0,
        decode_utf8(b).len() > 0 ==> {
            let c = decode_utf8(b).last();
            let n = b.len() - enc1(c).len();
            &&& 0 <= n < b.len() && b =~= b.subrange(0, n) + enc1(c)
            &&& valid_utf8(b.subrange(0, n))
            &&& enc1(c).len() <= 4
            &&& is_char_boundary(b, n)
            &&& encode_utf8(decode_utf8(b).subrange(0, decode_utf8(b).len() - 1)).len() == n
        },
{
    let cs = decode_utf8(b);
    decode_utf8_encode_utf8(b);
    if cs.len() > 0 {
        let c = cs.last();
        assert(cs =~= cs.drop_last() + seq![c]);
        encode_utf8_push(cs.drop_last(), c);
        assert(cs =~= cs.drop_last().push(c));
        assert(cs.subrange(0, cs.len() - 1) =~= cs.drop_last());
        let a = encode_utf8(cs.drop_last());
        assert(b =~= a + enc1(c));
        assert(b.subrange(0, a.len() as int) =~= a);
        encode_utf8_valid_utf8(cs.drop_last());
        lemma_enc1_len(c);
        lemma_prefix_boundary(b, a.len() as int);
    }
}

/// boundaries of what follows a boundary
pub proof fn lemma_tail_boundary(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i <= b.len(), is_char_boundary(b, i), 0 <= j <= b.len() - i,
    ensures is_char_boundary(b.subrange(i, b.len() as int), j) == is_char_boundary(b, i + j),
    decreases i,
{
    reveal_with_fuel(is_char_boundary, 3);
    if i == 0 {
        assert(b.subrange(0, b.len() as int) =~= b);
    } else {
        let n = length_of_first_scalar(b);
        let t = pop_first_scalar(b);
        assert(t.subrange(i - n, t.len() as int) =~= b.subrange(i, b.len() as int));
        lemma_tail_boundary(t, i - n, j);
    }
}
/// boundaries of what precedes a boundary
pub proof fn lemma_head_boundary(b: Seq<u8>, e: int, j: int)
    requires valid_utf8(b), 0 <= j <= e <= b.len(), is_char_boundary(b, e),
    ensures is_char_boundary(b.subrange(0, e), j) == is_char_boundary(b, j),
    decreases e,
{
    reveal_with_fuel(is_char_boundary, 3);
    valid_utf8_split(b, e);
    if e > 0 && j > 0 {
        let n = length_of_first_scalar(b);
        let t = pop_first_scalar(b);
        let h = b.subrange(0, e);
        assert(is_char_boundary(t, e - n));
        assert(e >= n);
        assert(h[0] == b[0]);
        assert(length_of_first_scalar(h) == n);
        assert(pop_first_scalar(h) =~= t.subrange(0, e - n));
        if j >= n {
            lemma_head_boundary(t, e - n, j - n);
            assert(is_char_boundary(h, j) == is_char_boundary(pop_first_scalar(h), j - n));
        } else {
            assert(!is_char_boundary(t, j - n));
            assert(!is_char_boundary(pop_first_scalar(h), j - n));
        }
    }
}
/// a string starts with its first character
pub proof fn lemma_first_char(w: Seq<u8>)
    requires valid_utf8(w),
    ensures w.len() > 0 <==> decode_utf8(w).len() > 0,
        decode_utf8(w).len() > 0 ==> {
            let n = enc1(decode_utf8(w)[0]).len() as int;
            1 <= n <= w.len() && w.subrange(0, n) == enc1(decode_utf8(w)[0]) && is_char_boundary(w, n)
        },
{
    let cs = decode_utf8(w);
    decode_utf8_encode_utf8(w);
    if cs.len() > 0 {
        let e = enc1(cs[0]);
        lemma_enc1_len(cs[0]);
        assert(w == e + encode_utf8(cs.drop_first()));
        assert(w.subrange(0, e.len() as int) =~= e);
        assert(encode_utf8(seq![cs[0]].drop_first()) =~= Seq::<u8>::empty());
        assert(encode_utf8(seq![cs[0]]) =~= e);
        encode_utf8_valid_utf8(seq![cs[0]]);
        lemma_prefix_boundary(w, e.len() as int);
    }
}
/// a part of a string between boundaries starts with a character
pub proof fn lemma_char_at(b: Seq<u8>, i: int, e: int)
    requires valid_utf8(b),
    ensures range_ok(b, i, e) && i < e ==> {
        let w = b.subrange(i, e);
        let n = enc1(decode_utf8(w)[0]).len() as int;
        &&& valid_utf8(w) && decode_utf8(w).len() > 0
        &&& 1 <= n <= 4 && i + n <= e && is_char_boundary(b, i + n)
        &&& b.subrange(i, i + n) == enc1(decode_utf8(w)[0])
    },
{
    if range_ok(b, i, e) && i < e {
        let h = b.subrange(0, e);
        let w = b.subrange(i, e);
        valid_utf8_split(b, e);
        lemma_head_boundary(b, e, i);
        valid_utf8_split(h, i);
        assert(h.subrange(i, e) =~= w);
        lemma_first_char(w);
        let n = enc1(decode_utf8(w)[0]).len() as int;
        lemma_enc1_len(decode_utf8(w)[0]);
        lemma_tail_boundary(h, i, n);
        lemma_head_boundary(b, e, i + n);
        assert(b.subrange(i, i + n) =~= w.subrange(0, n));
    }
}
/// a part of a string between boundaries is a valid string
pub proof fn lemma_part(b: Seq<u8>, i: int, e: int)
    requires valid_utf8(b),
    ensures range_ok(b, i, e) ==> valid_utf8(b.subrange(i, e)),
{
    if range_ok(b, i, e) {
        valid_utf8_split(b, e);
        lemma_head_boundary(b, e, i);
        valid_utf8_split(b.subrange(0, e), i);
        assert(b.subrange(0, e).subrange(i, e) =~= b.subrange(i, e));
    }
}
/// characters that fit are all kept
pub proof fn lemma_fit_all(cs: Seq<char>, room: int)
    ensures encode_utf8(cs).len() <= room ==> fit_chars(cs, room) == encode_utf8(cs),
    decreases cs.len(),
{
    if cs.len() > 0 { lemma_fit_all(cs.drop_first(), room - enc1(cs[0]).len()); }
}
/// dropping characters does not make a string longer
pub proof fn lemma_kept_len(cs: Seq<char>, v: Seq<bool>)
    ensures encode_utf8(kept(cs, v)).len() <= encode_utf8(cs).len(),
    decreases cs.len(),
{
    if cs.len() > 0 && v.len() > 0 {
        lemma_kept_len(cs.drop_first(), v.drop_first());
        let k = kept(cs.drop_first(), v.drop_first());
        if v[0] {
            encode_utf8_concat(seq![cs[0]], k);
            assert(encode_utf8(seq![cs[0]].drop_first()) =~= Seq::<u8>::empty());
            assert(encode_utf8(seq![cs[0]]) =~= enc1(cs[0]));
        }
    }
}
/// truncating a concatenation
pub proof fn lemma_trunc_add(a: Seq<u8>, b: Seq<u8>, room: int)
    requires valid_utf8(a), valid_utf8(b), 0 <= room,
    ensures
        a.len() <= room ==> trunc(a + b, room) == a + trunc(b, room - a.len()),
        a.len() >= room ==> trunc(a + b, room) == trunc(a, room),
    decreases room,
{
    let s = a + b;
    let n = a.len() as int;
    valid_utf8_concat(a, b);
    assert(s.subrange(0, n) =~= a);
    assert(s.subrange(n, s.len() as int) =~= b);
    lemma_prefix_boundary(s, n);
    if n <= room {
        if room >= s.len() {
            assert(trunc(s, room) =~= a + trunc(b, room - n));
        } else {
            lemma_tail_boundary(s, n, room - n);
            if room > n && !is_char_boundary(s, room) {
                lemma_trunc_add(a, b, room - 1);
            }
            assert(trunc_at(s, room) == n + trunc_at(b, room - n)) by {
                if room == n { is_char_boundary_start_end_of_seq(b); assert(trunc_at(b, 0) == 0 || b.len() == 0); }
                if room > n && !is_char_boundary(s, room) {
                    lemma_trunc_len(s, room - 1);
                    lemma_trunc_len(b, room - 1 - n);
                }
            }
            assert(trunc(s, room) =~= a + trunc(b, room - n));
        }
    }
    if n >= room {
        lemma_head_boundary(s, n, room);
        if room > 0 && room < n && !is_char_boundary(a, room) {
            lemma_trunc_add(a, b, room - 1);
            lemma_trunc_len(s, room - 1);
            lemma_trunc_len(a, room - 1);
        }
        if room == n { assert(trunc_at(a, room) == n); assert(trunc_at(s, room) == n); }
        assert(trunc_at(s, room) == trunc_at(a, room));
        assert(trunc(s, room) =~= trunc(a, room));
    }
}
/// truncating one character that does not fit leaves nothing
pub proof fn lemma_trunc_enc1(c: char, room: int)
    requires room < enc1(c).len(),
    ensures trunc_at(enc1(c), room) == 0, trunc(enc1(c), room) == Seq::<u8>::empty(), valid_utf8(enc1(c)),
    decreases room,
{
    let b = enc1(c);
    lemma_enc1_len(c);
    lemma_enc1_valid(c);
    if room > 0 {
        lemma_trunc_enc1(c, room - 1);
        encode_utf8_decode_utf8(seq![c]);
        if is_char_boundary(b, room) {
            valid_utf8_split(b, room);
            let h = b.subrange(0, room);
            let t = b.subrange(room, b.len() as int);
            lemma_first_char(h);
            lemma_first_char(t);
            decode_utf8_encode_utf8(h);
            decode_utf8_encode_utf8(t);
            encode_utf8_concat(decode_utf8(h), decode_utf8(t));
            assert(b =~= h + t);
            encode_utf8_decode_utf8(decode_utf8(h) + decode_utf8(t));
            assert((decode_utf8(h) + decode_utf8(t)).len() >= 2);
        }
    }
    assert(b.subrange(0, 0) =~= Seq::<u8>::empty());
}
pub proof fn lemma_enc1_valid(c: char)
    ensures valid_utf8(enc1(c)), encode_utf8(seq![c]) == enc1(c),
{
    assert(encode_utf8(seq![c].drop_first()) =~= Seq::<u8>::empty());
    assert(encode_utf8(seq![c]) =~= enc1(c));
    encode_utf8_valid_utf8(seq![c]);
}
pub proof fn lemma_fit_chars_valid(cs: Seq<char>, room: int)
    ensures valid_utf8(fit_chars(cs, room)), room >= 0 ==> fit_chars(cs, room).len() <= room,
    decreases cs.len(),
{
    if cs.len() > 0 && enc1(cs[0]).len() <= room {
        lemma_fit_chars_valid(cs.drop_first(), room - enc1(cs[0]).len());
        lemma_enc1_valid(cs[0]);
        valid_utf8_concat(enc1(cs[0]), fit_chars(cs.drop_first(), room - enc1(cs[0]).len()));
    }
}
/// keeping what fits in `big` and then what fits in `room` is keeping what fits in `room`
pub proof fn lemma_trunc_fit_chars(cs: Seq<char>, big: int, room: int)
    requires 0 <= room <= big,
    ensures trunc(fit_chars(cs, big), room) == fit_chars(cs, room),
    decreases cs.len(),
{
    if cs.len() == 0 || enc1(cs[0]).len() > big {
        lemma_trunc_len(Seq::empty(), room);
    } else {
        let a = enc1(cs[0]);
        let b = fit_chars(cs.drop_first(), big - a.len());
        lemma_enc1_valid(cs[0]);
        lemma_fit_chars_valid(cs.drop_first(), big - a.len());
        lemma_trunc_add(a, b, room);
        if a.len() > room { lemma_trunc_enc1(cs[0], room); }
        else { lemma_trunc_fit_chars(cs.drop_first(), big - a.len(), room - a.len()); }
    }
}
pub open spec fn all_valid(ss: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ss.len() ==> valid_utf8(#[trigger] ss[i]) }
pub proof fn lemma_strs_valid<T: AsRef<str>>(items: Seq<T>)
    ensures all_valid(strs(items)),
{
    assert forall|i: int| 0 <= i < strs(items).len() implies valid_utf8(#[trigger] strs(items)[i]) by {
        lemma_chars_bytes(items[i].ar());
    }
}
pub proof fn lemma_trunc_valid(b: Seq<u8>, room: int)
    requires valid_utf8(b), 0 <= room,
    ensures valid_utf8(trunc(b, room)), is_char_boundary(b, trunc_at(b, room)),
    decreases room,
{
    is_char_boundary_start_end_of_seq(b);
    if room < b.len() && room > 0 && !is_char_boundary(b, room) { lemma_trunc_valid(b, room - 1); }
    lemma_trunc_len(b, room);
    valid_utf8_split(b, trunc_at(b, room));
}
pub proof fn lemma_fit_strs_valid(ss: Seq<Seq<u8>>, room: int)
    requires all_valid(ss), room >= 0,
    ensures valid_utf8(fit_strs(ss, room)), fit_strs(ss, room).len() <= room,
    decreases ss.len(),
{
    if ss.len() > 0 {
        assert(valid_utf8(ss[0]));
        if ss[0].len() > room { lemma_trunc_valid(ss[0], room); lemma_trunc_len(ss[0], room); }
        else {
            assert forall|i: int| 0 <= i < ss.drop_first().len() implies valid_utf8(#[trigger] ss.drop_first()[i]) by { assert(valid_utf8(ss[i + 1])); }
            lemma_fit_strs_valid(ss.drop_first(), room - ss[0].len());
            valid_utf8_concat(ss[0], fit_strs(ss.drop_first(), room - ss[0].len()));
        }
    }
}
pub proof fn lemma_trunc_trunc(b: Seq<u8>, big: int, room: int)
    requires valid_utf8(b), 0 <= room <= big,
    ensures trunc(trunc(b, big), room) == trunc(b, room),
    decreases room,
{
    lemma_trunc_valid(b, big);
    lemma_trunc_len(b, big);
    let t = trunc(b, big);
    let e = trunc_at(b, big);
    let u = b.subrange(e, b.len() as int);
    assert(b =~= t + u);
    valid_utf8_split(b, e);
    lemma_trunc_add(t, u, room);
    if e < room {
        // nothing between e and big is a boundary, so cutting u at room - e leaves nothing
        lemma_trunc_at_max(b, big, room);
        lemma_trunc_len(b, room);
        assert(trunc(b, room) =~= t);
        lemma_trunc_len(t, room);
    }
}
/// `trunc_at(b, room)` is the same for all limits from where it ends
pub proof fn lemma_trunc_at_max(b: Seq<u8>, big: int, room: int)
    requires valid_utf8(b), trunc_at(b, big) <= room <= big, 0 <= room,
    ensures trunc_at(b, room) == trunc_at(b, big),
    decreases big - room,
{
    if room < big {
        lemma_trunc_at_max(b, big, room + 1);
        lemma_trunc_len(b, big);
        lemma_trunc_valid(b, big);
    }
}
pub proof fn lemma_trunc_fit_strs(ss: Seq<Seq<u8>>, big: int, room: int)
    requires 0 <= room <= big, all_valid(ss),
    ensures trunc(fit_strs(ss, big), room) == fit_strs(ss, room),
    decreases ss.len(),
{
    if ss.len() == 0 {
        lemma_trunc_len(Seq::empty(), room);
    } else {
        assert(valid_utf8(ss[0]));
        if ss[0].len() > big {
            lemma_trunc_trunc(ss[0], big, room);
        } else {
            let a = ss[0];
            let r = ss.drop_first();
            assert forall|i: int| 0 <= i < r.len() implies valid_utf8(#[trigger] r[i]) by { assert(valid_utf8(ss[i + 1])); }
            lemma_fit_strs_valid(r, big - a.len());
            lemma_trunc_add(a, fit_strs(r, big - a.len()), room);
            if a.len() <= room { lemma_trunc_fit_strs(r, big - a.len(), room - a.len()); }
        }
    }
}
/// byte offset of the k-th character
pub open spec fn off(cs: Seq<char>, k: int) -> int { encode_utf8(cs.subrange(0, k)).len() as int }
pub proof fn lemma_off(cs: Seq<char>, k: int)
    requires 0 <= k <= cs.len(),
    ensures
        0 <= off(cs, k) <= encode_utf8(cs).len(),
        is_char_boundary(encode_utf8(cs), off(cs, k)),
        encode_utf8(cs).subrange(0, off(cs, k)) == encode_utf8(cs.subrange(0, k)),
        encode_utf8(cs).subrange(off(cs, k), encode_utf8(cs).len() as int) == encode_utf8(cs.skip(k)),
        k == 0 ==> off(cs, k) == 0,
        k == cs.len() ==> off(cs, k) == encode_utf8(cs).len(),
        k < cs.len() ==> off(cs, k + 1) == off(cs, k) + enc1(cs[k]).len(),
{
    let a = cs.subrange(0, k);
    assert(cs =~= a + cs.skip(k));
    encode_utf8_concat(a, cs.skip(k));
    encode_utf8_valid_utf8(cs);
    encode_utf8_valid_utf8(a);
    let b = encode_utf8(cs);
    assert(b.subrange(0, off(cs, k)) =~= encode_utf8(a));
    assert(b.subrange(off(cs, k), b.len() as int) =~= encode_utf8(cs.skip(k)));
    lemma_prefix_boundary(b, off(cs, k));
    if k == 0 { assert(a =~= Seq::<char>::empty()); }
    if k == cs.len() { assert(a =~= cs); }
    if k < cs.len() {
        assert(cs.subrange(0, k + 1) =~= a.push(cs[k]));
        encode_utf8_push(a, cs[k]);
    }
}
pub proof fn lemma_off_mono(cs: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= cs.len(),
    ensures off(cs, j) <= off(cs, k), off(cs, j) == off(cs, k) <==> j == k,
        encode_utf8(cs).subrange(off(cs, j), off(cs, k)) == encode_utf8(cs.subrange(j, k)),
    decreases k - j,
{
    lemma_off(cs, k);
    lemma_off(cs, j);
    if j < k {
        lemma_off_mono(cs, j, k - 1);
        lemma_off(cs, k - 1);
        lemma_enc1_len(cs[k - 1]);
        assert(cs.subrange(j, k) =~= cs.subrange(j, k - 1).push(cs[k - 1]));
        encode_utf8_push(cs.subrange(j, k - 1), cs[k - 1]);
        let b = encode_utf8(cs);
        lemma_skip(cs, k - 1);
        assert(b.subrange(off(cs, k - 1), b.len() as int) == enc1(cs[k - 1]) + encode_utf8(cs.skip(k)));
        assert(b.subrange(off(cs, k - 1), off(cs, k)) =~= b.subrange(off(cs, k - 1), b.len() as int).subrange(0, enc1(cs[k - 1]).len() as int));
        assert(b.subrange(off(cs, k - 1), off(cs, k)) =~= enc1(cs[k - 1]));
        assert(b.subrange(off(cs, j), off(cs, k)) =~= b.subrange(off(cs, j), off(cs, k - 1)) + b.subrange(off(cs, k - 1), off(cs, k)));
    } else {
        assert(cs.subrange(j, k) =~= Seq::<char>::empty());
        assert(encode_utf8(cs).subrange(off(cs, j), off(cs, k)) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_lead(cs: Seq<char>, j: int)
    requires 0 <= j <= cs.len(),
    ensures
        0 <= lead(cs) <= cs.len(),
        (forall|k: int| 0 <= k < j ==> is_ws(#[trigger] cs[k])) && (j == cs.len() || !is_ws(cs[j])) ==> lead(cs) == j,
    decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_first();
        lemma_lead(t, if j > 0 { j - 1 } else { 0 });
        if (forall|k: int| 0 <= k < j ==> is_ws(#[trigger] cs[k])) && (j == cs.len() || !is_ws(cs[j])) && j > 0 {
            assert forall|k: int| 0 <= k < j - 1 implies is_ws(#[trigger] t[k]) by { assert(is_ws(cs[k + 1])); }
            assert(is_ws(cs[0]));
        }
    }
}
/// the whitespace at the front of a prefix
pub proof fn lemma_lead_prefix(cs: Seq<char>, n: int)
    requires 0 <= n <= cs.len(),
    ensures lead(cs.subrange(0, n)) == (if lead(cs) <= n { lead(cs) } else { n }),
    decreases n,
{
    let p = cs.subrange(0, n);
    lemma_lead(cs, 0);
    if n > 0 && is_ws(cs[0]) {
        lemma_lead_prefix(cs.drop_first(), n - 1);
        assert(p.drop_first() =~= cs.drop_first().subrange(0, n - 1));
    }
}
/// what is left when the back is trimmed, and where its front is then trimmed
pub proof fn lemma_trimmed_end(cs: Seq<char>)
    ensures ({
        let p = cs.subrange(0, trail(cs));
        &&& decode_utf8(encode_utf8(p)) == p
        &&& cs.take(trail(cs)) == p
        &&& 0 <= lead(p) <= p.len()
        &&& off(p, lead(p)) == off(cs, lead(p))
        &&& encode_utf8(p).len() == off(p, lead(p)) + encode_utf8(p.skip(lead(p))).len()
    }),
{
    lemma_trail(cs, 0);
    let p = cs.subrange(0, trail(cs));
    encode_utf8_decode_utf8(p);
    lemma_lead(p, 0);
    lemma_off(p, lead(p));
    assert(p.subrange(0, lead(p)) =~= cs.subrange(0, lead(p)));
    assert(cs.take(trail(cs)) =~= p);
}
pub proof fn lemma_trail(cs: Seq<char>, j: int)
    requires 0 <= j <= cs.len(),
    ensures
        0 <= trail(cs) <= cs.len(),
        (forall|k: int| j <= k < cs.len() ==> is_ws(#[trigger] cs[k])) && (j == 0 || !is_ws(cs[j - 1])) ==> trail(cs) == j,
    decreases cs.len(),
{
    if cs.len() > 0 {
        let t = cs.drop_last();
        lemma_trail(t, if j < cs.len() { j } else { t.len() as int });
        if (forall|k: int| j <= k < cs.len() ==> is_ws(#[trigger] cs[k])) && (j == 0 || !is_ws(cs[j - 1])) && j < cs.len() {
            assert(is_ws(cs[cs.len() - 1]));
        }
    }
}

pub proof fn lemma_lead_trail(cs: Seq<char>)
    ensures
        lead(cs) < cs.len() ==> lead(cs) < trail(cs),
        lead(cs) == cs.len() ==> trail(cs) == 0,
        encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty(),
        lead(cs) == trail(cs) ==> encode_utf8(cs.subrange(lead(cs), trail(cs))) == Seq::<u8>::empty(),
{
    lemma_lead_all(cs, 0);
    lemma_trail(cs, 0);
    assert(cs.subrange(lead(cs), lead(cs)) =~= Seq::<char>::empty());
    if lead(cs) < cs.len() { lemma_trail_gt(cs, lead(cs)); }
}
pub proof fn lemma_trail_gt(cs: Seq<char>, k: int)
    requires 0 <= k < cs.len(), !is_ws(cs[k]),
    ensures trail(cs) > k,
    decreases cs.len(),
{
    if is_ws(cs.last()) { lemma_trail_gt(cs.drop_last(), k); }
}
/// what `lead` counts
pub proof fn lemma_lead_all(cs: Seq<char>, j: int)
    ensures
        0 <= lead(cs) <= cs.len(),
        forall|k: int| 0 <= k < lead(cs) ==> is_ws(#[trigger] cs[k]),
        lead(cs) < cs.len() ==> !is_ws(cs[lead(cs)]),
    decreases cs.len(),
{
    if cs.len() > 0 && is_ws(cs[0]) {
        let t = cs.drop_first();
        lemma_lead_all(t, 0);
        assert forall|k: int| 0 <= k < lead(cs) implies is_ws(#[trigger] cs[k]) by { if k > 0 { assert(is_ws(t[k - 1])); } }
        if lead(cs) < cs.len() { assert(t[lead(t)] == cs[lead(cs)]); }
    }
}

pub broadcast group group_arraystring {
    axiom_capacity, axiom_str_of_bytes, axiom_slice_of_bytes, axiom_str_ext, axiom_slice_ext, axiom_str_len, axiom_str_ord, axiom_slice_eq, axiom_slice_cmp, axiom_slice_pcmp, axiom_from,
    axiom_into_iter_self, axiom_same_range, axiom_same_from, axiom_same_to, axiom_same_full, axiom_same_incl, axiom_same_to_incl,
    lemma_chars_bytes, lemma_trunc_len, lemma_prefix_prefix,
}
/// used by the functions that build a string piece by piece
pub broadcast group group_pieces {
    lemma_enc1_len, lemma_skip_ends, lemma_add_empty, lemma_empty_add, lemma_unref,
}

} // verus!

/// Raw pointers, as positions in the buffer they point into.  `copy` and `copy_nonoverlapping` write the
/// buffer they are given; every access has to be in bounds.
pub mod ptr {
use vstd::prelude::*;
verus! {
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct BufPtr { pub off: usize, pub cap: usize }
#[verifier::external_body]
pub struct SrcPtr<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> SrcPtr<'a> { pub uninterp spec fn src(self) -> Seq<u8>; }
pub fn buffer<const N: usize>(a: &[u8; N]) -> (r: BufPtr)
    ensures r.off == 0, r.cap == N,
{ BufPtr { off: 0, cap: N } }
#[verifier::external_body]
pub fn source<'a>(a: &'a [u8]) -> (r: SrcPtr<'a>)
    ensures r.src() == a@,
{ unimplemented!() }
impl BufPtr {
    pub fn add(self, n: usize) -> (r: BufPtr)
        requires self.off <= self.cap, n <= self.cap - self.off,
        ensures r.off == self.off + n, r.cap == self.cap,
    { BufPtr { off: self.off + n, cap: self.cap } }
}
/// `core::ptr::copy`
#[verifier::external_body]
pub unsafe fn copy<const N: usize>(src: BufPtr, dst: BufPtr, n: usize, a: &mut [u8; N])
    requires src.cap == N, dst.cap == N, src.off + n <= N, dst.off + n <= N,
    ensures final(a)@ == Seq::new(N as nat, |i: int| if dst.off <= i < dst.off + n { old(a)@[i - dst.off + src.off] } else { old(a)@[i] }),
{ unimplemented!() }
/// `core::ptr::copy_nonoverlapping` from another object (a slice borrowed while the buffer is exclusively borrowed)
#[verifier::external_body]
pub unsafe fn copy_nonoverlapping<'a, const N: usize>(src: SrcPtr<'a>, dst: BufPtr, n: usize, a: &mut [u8; N])
    requires dst.cap == N, n <= src.src().len(), dst.off + n <= N,
    ensures final(a)@ == Seq::new(N as nat, |i: int| if dst.off <= i < dst.off + n { src.src()[i - dst.off] } else { old(a)@[i] }),
{ unimplemented!() }
} // verus!
}

/// Formatting: a formatter is what has been written to it.
pub mod fmt {
use vstd::prelude::*;
use vstd::string::*;
verus! {
#[derive(Copy, Clone)]
pub struct Error;
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter { _p: () }
impl Formatter {
    /// what has been written so far
    pub uninterp spec fn out(self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result)
        ensures r is Ok ==> final(self).out() == old(self).out() + s.spec_bytes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_tuple(&mut self, s: &str) -> (r: DebugBuilder) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_struct(&mut self, s: &str) -> (r: DebugBuilder) { unimplemented!() }
}
/// `write!(f, "literal")`
#[verifier::external_body]
pub fn write_lit(f: &mut Formatter, s: &str) -> (r: Result)
    ensures r is Ok ==> final(f).out() == old(f).out() + s.spec_bytes(),
{ unimplemented!() }
/// `write!(f, "{}", text)`
#[verifier::external_body]
pub fn write_display(f: &mut Formatter, s: &str) -> (r: Result)
    ensures r is Ok ==> final(f).out() == old(f).out() + s.spec_bytes(),
{ unimplemented!() }
/// Debug output is not specified; only that producing it cannot fail otherwise
#[verifier::external_body]
pub struct DebugBuilder { _p: () }
pub trait Field<T: ?Sized> { fn field(self, name: &str, v: &T) -> DebugBuilder; }
} // verus!
}
