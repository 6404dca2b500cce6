//! The operations of the real crate, behind one interface for every capacity and for the cache-line string.
use arraystring::error::Error;
use arraystring::prelude::*;
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Bound, RangeBounds};
use std::str::FromStr;

pub type Bd = (Bound<usize>, Bound<usize>);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    AsMutStr,
    DerefMut,
    AsMut,
    BorrowMut,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    All,
    None,
    Ascii,
    NotAscii,
    EveryOther,
    NotFirst,
    NotWs,
    OnlyLen(usize),
    /// panics on the given call
    Panics(usize),
}
/// how the range argument is spelled
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rf {
    Tuple,
    Natural,
}
/// the argument's type
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Arg {
    Str,
    String,
    SelfType,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New,
    Default,
    TryFromStr(String, Arg),
    FromStrTruncate(String, Arg),
    From(String),
    FromStr(String),
    TryFromIterator(Vec<String>),
    FromIteratorTruncate(Vec<String>),
    TryFromChars(Vec<char>),
    FromCharsTruncate(Vec<char>),
    TryFromUtf16(Vec<u16>),
    FromUtf16Truncate(Vec<u16>),
    FromUtf16LossyTruncate(Vec<u16>),
    CollectChars(Vec<char>),
    CollectStrs(Vec<String>),
    ExtendChars(Vec<char>),
    ExtendCharRefs(Vec<char>),
    ExtendStrs(Vec<String>),
    TryPushStr(String, Arg),
    PushStrTruncate(String, Arg),
    TryPush(char),
    WriteStr(String),
    WriteChar(char),
    WriteFmt(String),
    Add(String),
    Truncate(usize),
    Pop,
    Trim,
    Remove(usize),
    Retain(Pred),
    TryInsert(usize, char),
    TryInsertStr(usize, String, Arg),
    InsertStrTruncate(usize, String, Arg),
    Clear,
    SplitOff(usize),
    Drain(Bd, Rf, Vec<bool>),
    ReplaceRange(Bd, Rf, String),
    Upper(How),
    IndexMutLower(Ix),
    Copy,
    Clone,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ix {
    From(u8),
    To(u8),
    Full,
    Range(u8, u8),
    ToIncl(u8),
    Incl(u8, u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Ok,
    Err(Error),
    FmtErr,
    Char(Option<char>),
    Removed(char),
    Split(Vec<u8>),
    /// drained text, what came out, what was left
    Drained(Vec<u8>, Vec<Option<char>>, Vec<Vec<u8>>),
    Seen(Vec<char>),
    Added(Vec<u8>),
    Panic(String),
}

macro_rules! literals {
    ($($l:literal)*) => {
        /// texts that formatting finds whole in the format string
        pub const LITERALS: &[&str] = &[$($l),*];
        /// by formatting: a text that is a literal here is formatted as one
        pub fn write_text<W: std::fmt::Write>(s: &mut W, t: &str) -> std::fmt::Result {
            match t {
                $($l => s.write_fmt(format_args!($l)),)*
                _ => write!(s, "{}", t),
            }
        }
    }
}
literals! { "" "a" "b" "é" "€" "🤔" "aa" "ab" "aé" "éa" "éé" "abc" "abcd" "a€" "abcde" "aaaa🤔" "abcdefg" "abcdefgh" "abcdefghé" "the quick brown" "the quick brown "
    "the quick brown fox jum" "the quick brown fox jumps over t" "the quick brown fox jumps over the lazy dog and again the quick b"
    "the quick brown fox jumps over the lazy dog and again the quick br" "the quick brown fox jumps over the lazy dog and again the quick brown fox jumps over the lazy dog and then the quick brown fox jum"
    "the quick brown fox jumps over the lazy dog and again the quick brown fox jumps over the lazy dog and then the quick brown fox jumps over the lazy dog, the quick brown fox jumps over the lazy dog and again the quick brown fox jumps over the lazy dog and then the end of it" }

pub struct Hashed(pub Vec<u8>);
impl Hasher for Hashed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        // one record per call, so that the calls themselves are compared
        self.0.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.0.extend_from_slice(b);
    }
}
pub fn hashed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Hashed(vec![]);
    t.hash(&mut h);
    h.0
}

/// text argument that answers differently each time it is asked
pub struct Shifty<'a>(pub &'a [String], pub Cell<usize>);
impl<'a> AsRef<str> for Shifty<'a> {
    fn as_ref(&self) -> &str {
        let n = self.1.get();
        self.1.set(n + 1);
        &self.0[n % self.0.len()]
    }
}
/// range argument that answers differently each time it is asked
pub struct ShiftyRange<'a>(pub &'a [Bd], pub Cell<usize>, pub Cell<usize>);
fn by_ref(b: &Bound<usize>) -> Bound<&usize> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}
impl<'a> RangeBounds<usize> for ShiftyRange<'a> {
    fn start_bound(&self) -> Bound<&usize> {
        let n = self.1.get();
        self.1.set(n + 1);
        by_ref(&self.0[n % self.0.len()].0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        let n = self.2.get();
        self.2.set(n + 1);
        by_ref(&self.0[n % self.0.len()].1)
    }
}
/// iterator whose size hint is wrong
pub struct Liar<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 % 4 {
            0 => (0, Some(0)),
            1 => (usize::MAX, None),
            2 => (3, Some(3)),
            _ => (usize::MAX, Some(usize::MAX)),
        }
    }
}
#[derive(Clone, Debug)]
pub enum Adv {
    TryFromStr,
    FromStrTruncate,
    TryPushStr,
    PushStrTruncate,
    TryInsertStr(usize),
    InsertStrTruncate(usize),
    ReplaceRange,
    Drain,
    TryFromIterator,
    FromIteratorTruncate,
    CollectLiar(usize),
    ExtendLiar(usize),
    FromUtf16(usize),
    RetainPanics(usize),
    ExtendPanics(usize),
}

/// reports everything that the views of a string show
pub struct Views {
    pub as_str: Vec<u8>,
    pub as_ref_str: Vec<u8>,
    pub as_ref_bytes: Vec<u8>,
    pub deref: Vec<u8>,
    pub borrow: Vec<u8>,
    pub len: usize,
    pub is_empty: bool,
    pub capacity: usize,
    pub display: String,
}

pub trait Sut {
    fn name(&self) -> String;
    fn cap(&self) -> usize;
    /// false if the start could not be made
    #[must_use]
    fn reset(&mut self, text: &str, stale: &str) -> bool;
    fn bytes(&self) -> Vec<u8>;
    fn ptr_range(&self) -> (usize, usize);
    fn apply(&mut self, op: &Op) -> Out;
    fn adversarial(&mut self, a: &Adv, strs: &[String], ranges: &[Bd]) -> Out;
    fn views(&self) -> Views;
    /// the mutable views: (text shown through each, and where it starts)
    fn mut_views(&mut self) -> Vec<(&'static str, Vec<u8>)>;
    fn index(&self, ix: Ix) -> Result<Vec<u8>, ()>;
    fn index_mut(&mut self, ix: Ix) -> Result<Vec<u8>, ()>;
    fn hash(&self) -> Vec<u8>;
    fn display(&self) -> String;
    fn eq_str(&self, s: &str) -> [bool; 4];
    /// `other` is a string of the same type
    fn compare(&self, text: &str, stale: &str) -> Cmp;
    fn drain_cmp(&self, a: Bd, b: Bd) -> Option<(Vec<u8>, Vec<u8>, Cmp, Vec<u8>)>;
    fn guards_ok(&self) -> bool;
    fn fold_drain(&mut self, b: Bd, what: usize) -> Option<String>;
    fn infinite(&mut self, what: usize, c: char) -> Vec<u8>;
    fn serde_ser(&self) -> Vec<String>;
    fn serde_de(&mut self, how: usize, data: &[u8]) -> Result<(), String>;
    fn diesel_round(&self, conn: &mut diesel::SqliteConnection) -> String;
    fn diesel_read(&mut self, conn: &mut diesel::SqliteConnection, sql: &str) -> Result<(), String>;
}
#[derive(Debug, PartialEq, Clone)]
pub struct Cmp {
    pub eq: bool,
    pub ne: bool,
    pub cmp: Ordering,
    pub partial: Option<Ordering>,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    pub chosen: [String; 4],
    pub slices: Vec<u8>,
}
pub fn compare<T: Ord + Clone + Hash>(a: &T, b: &T, text: impl Fn(&T) -> String) -> Cmp {
    let (x, y) = (|| a.clone(), || b.clone());
    let (lo, hi) = if a <= b { (x(), y()) } else { (y(), x()) };
    let mut c = x();
    c.clone_from(b);
    Cmp { chosen: [text(&x().max(y())), text(&x().min(y())), text(&x().clamp(lo, hi)), text(&c)], slices: hashed(&[x(), y(), x()][..]), eq: a == b, ne: a != b, cmp: a.cmp(b), partial: a.partial_cmp(b), lt: a < b, le: a <= b, gt: a > b, ge: a >= b }
}

/// bytes around the string that nothing may write; `K` of them more, so that strings lie at odd addresses too
#[repr(C)]
pub struct Guarded<T, const K: usize> {
    pre: [u8; 64],
    shift: [u8; K],
    pub s: T,
    post: [u8; 512],
}
impl<T, const K: usize> Guarded<T, K> {
    pub fn new(s: T) -> Self {
        Guarded { pre: [0xA5; 64], shift: [0xA5; K], s, post: [0x5A; 512] }
    }
}
/// an iterator of the same items: which size hint it gives, and whether it goes on after its end, depends on `k`
pub struct Odd<I: Iterator>(I, usize, Option<I::Item>, bool);
impl<I: Iterator> Iterator for Odd<I>
where
    I::Item: Clone,
{
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.3 {
            return self.2.take();
        }
        let x = self.0.next();
        match &x {
            Some(y) if self.1 == 5 && self.2.is_none() => self.2 = Some(y.clone()),
            None => self.3 = true,
            _ => (),
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 | 1 => self.0.size_hint(),
            2 => (0, Some(1)),
            3 => (usize::MAX, None),
            4 => (0, Some(0)),
            _ => (0, None),
        }
    }
}
fn odd<I: Iterator>(i: I, k: usize) -> Odd<I> {
    Odd(i, k, None, false)
}
const KINDS: [&str; 6] = ["", "", " (an iterator that hints at 0 to 1 items)", " (an iterator that hints at usize::MAX items and more)", " (an iterator that hints at no items)", " (an iterator without hint that gives its first item again after its end)"];
fn kind(op: &Op) -> usize {
    match op {
        Op::TryFromIterator(v) | Op::FromIteratorTruncate(v) | Op::CollectStrs(v) | Op::ExtendStrs(v) => (v.len() + v.iter().map(|s| s.len()).sum::<usize>()) % 6,
        Op::TryFromChars(v) | Op::FromCharsTruncate(v) | Op::CollectChars(v) | Op::ExtendChars(v) | Op::ExtendCharRefs(v) => (v.len() + v.iter().map(|c| *c as usize % 7).sum::<usize>()) % 6,
        _ => 0,
    }
}
pub fn manner(op: &Op) -> &'static str {
    KINDS[kind(op)]
}

fn pred(p: Pred, seen: &mut Vec<char>, c: char) -> bool {
    let n = seen.len();
    seen.push(c);
    keep(p, n, c)
}
pub fn keep(p: Pred, n: usize, c: char) -> bool {
    match p {
        Pred::All => true,
        Pred::None => false,
        Pred::Ascii => c.is_ascii(),
        Pred::NotAscii => !c.is_ascii(),
        Pred::EveryOther => n % 2 == 0,
        Pred::NotFirst => n > 0,
        Pred::NotWs => !c.is_whitespace(),
        Pred::OnlyLen(l) => c.len_utf8() == l,
        Pred::Panics(k) => {
            if k == n {
                panic!("predicate")
            }
            n % 2 == 0
        }
    }
}

pub fn natural(b: Bd, f: &mut dyn FnMut(&dyn Fn(&mut dyn RangeUser)) -> ()) {
    use Bound::*;
    match b {
        (Included(a), Excluded(b)) => f(&|u| u.a(a..b)),
        (Included(a), Included(b)) => f(&|u| u.b(a..=b)),
        (Included(a), Unbounded) => f(&|u| u.c(a..)),
        (Unbounded, Excluded(b)) => f(&|u| u.d(..b)),
        (Unbounded, Included(b)) => f(&|u| u.e(..=b)),
        (Unbounded, Unbounded) => f(&|u| u.f(..)),
        x => f(&move |u| u.g(x)),
    }
}
pub trait RangeUser {
    fn a(&mut self, r: std::ops::Range<usize>);
    fn b(&mut self, r: std::ops::RangeInclusive<usize>);
    fn c(&mut self, r: std::ops::RangeFrom<usize>);
    fn d(&mut self, r: std::ops::RangeTo<usize>);
    fn e(&mut self, r: std::ops::RangeToInclusive<usize>);
    fn f(&mut self, r: std::ops::RangeFull);
    fn g(&mut self, r: Bd);
}

fn unit<E: Into<Error>>(r: Result<(), E>) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(e) => Out::Err(e.into()),
    }
}
/// what is displayed, whatever the formatter is set to
fn shown<T: std::fmt::Display>(s: &T) -> String {
    let plain = s.to_string();
    let set = [format!("{s:1}"), format!("{s:>70}"), format!("{s:.0}"), format!("{s:.1}"), format!("{s:.3}"), format!("{s:*^7.2}"), format!("{s:#}"), format!("{s:03}"), format!("{s:+}")];
    for (o, how) in set.into_iter().zip([":1", ":>70", ":.0", ":.1", ":.3", ":*^7.2", ":#", ":03", ":+"]) {
        if o != plain {
            return format!("with {{{how}}} {o:?}");
        }
    }
    plain
}
fn fmt_unit(r: std::fmt::Result) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(_) => Out::FmtErr,
    }
}

macro_rules! with_range {
    ($b:expr, $f:expr, $r:ident => $e:expr) => {{
        use Bound::*;
        match ($f, $b) {
            (Rf::Natural, (Included(a), Excluded(b))) => { let $r = a..b; $e }
            (Rf::Natural, (Included(a), Included(b))) => { let $r = a..=b; $e }
            (Rf::Natural, (Included(a), Unbounded)) => { let $r = a..; $e }
            (Rf::Natural, (Unbounded, Excluded(b))) => { let $r = ..b; $e }
            (Rf::Natural, (Unbounded, Included(b))) => { let $r = ..=b; $e }
            (Rf::Natural, (Unbounded, Unbounded)) => { let $r = ..; $e }
            (_, b) => { let $r = b; $e }
        }
    }};
}
macro_rules! with_arg {
    ($T:ty, $a:expr, $s:expr, $x:ident => $e:expr) => {
        match $a {
            Arg::Str => { let $x: &str = $s; $e }
            Arg::String => { let $x: String = $s.to_string(); $e }
            Arg::SelfType => match <$T>::try_from_str($s) {
                Ok($x) => $e,
                Err(_) => { let $x: &String = &$s.to_string(); $e }
            },
        }
    };
}

macro_rules! sut {
    ($T:ty, $cap:expr, $name:expr, $sql:ident) => {
        impl Sut for Guarded<$T, { ($cap + 1) % 4 }> {
            fn name(&self) -> String { $name }
            fn cap(&self) -> usize { $cap }
            fn reset(&mut self, text: &str, stale: &str) -> bool {
                // by one way or another: a start that cannot be made says nothing about what was to start from it
                for way in 0..3 {
                    let made = std::panic::catch_unwind(|| {
                        let mut s = <$T>::from_str_truncate(if way == 2 { text } else { stale });
                        match way {
                            0 => { s.clear(); s.try_push_str(text).ok()? }
                            1 => { s.truncate(0).ok()?; s.try_push_str(text).ok()? }
                            _ => (),
                        }
                        Some(s).filter(|s| AsRef::<[u8]>::as_ref(s) == text.as_bytes())
                    });
                    if let Ok(Some(s)) = made {
                        self.s = s;
                        return true;
                    }
                }
                false
            }
            fn bytes(&self) -> Vec<u8> {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| AsRef::<[u8]>::as_ref(&self.s).to_vec())).unwrap_or(vec![0xff; 300])
            }
            fn ptr_range(&self) -> (usize, usize) {
                let a = self as *const _ as usize;
                (a, a + std::mem::size_of_val(&self.s) + 64 + self.shift.len())
            }
            fn apply(&mut self, op: &Op) -> Out {
                macro_rules! assign {
                    ($e:expr) => { match $e { Ok(x) => { self.s = x; Out::Ok } Err(e) => Out::Err(e.into()) } };
                }
                let k = kind(op);
                let s = &mut self.s;
                match op {
                    Op::New => { self.s = <$T>::new(); Out::Unit }
                    Op::Default => { self.s = Default::default(); Out::Unit }
                    Op::TryFromStr(t, a) => with_arg!($T, a, t.as_str(), x => assign!(<$T>::try_from_str(x))),
                    Op::FromStrTruncate(t, a) => { self.s = with_arg!($T, a, t.as_str(), x => <$T>::from_str_truncate(x)); Out::Unit }
                    Op::From(t) => { self.s = <$T>::from(t.as_str()); Out::Unit }
                    Op::FromStr(t) => assign!(<$T>::from_str(t.as_str())),
                    Op::TryFromIterator(v) => assign!(<$T>::try_from_iterator(odd(v.iter(), k))),
                    Op::FromIteratorTruncate(v) => { self.s = if k == 0 { <$T>::from_iterator_truncate(v.clone()) } else { <$T>::from_iterator_truncate(odd(v.iter().cloned(), k)) }; Out::Unit }
                    Op::TryFromChars(v) => assign!(<$T>::try_from_chars(odd(v.iter().copied(), k))),
                    Op::FromCharsTruncate(v) => { self.s = if k == 0 { <$T>::from_chars_truncate(v.clone()) } else { <$T>::from_chars_truncate(odd(v.iter().copied(), k)) }; Out::Unit }
                    Op::TryFromUtf16(v) => assign!(<$T>::try_from_utf16(v)),
                    Op::FromUtf16Truncate(v) => assign!(<$T>::from_utf16_truncate(v.as_slice())),
                    Op::FromUtf16LossyTruncate(v) => { self.s = <$T>::from_utf16_lossy_truncate(v); Out::Unit }
                    Op::CollectChars(v) => { self.s = odd(v.iter().copied(), k).collect(); Out::Unit }
                    Op::CollectStrs(v) => { self.s = odd(v.iter().map(|x| x.as_str()), k).collect(); Out::Unit }
                    Op::ExtendChars(v) => { Extend::<char>::extend(s, odd(v.iter().copied(), k)); Out::Unit }
                    Op::ExtendCharRefs(v) => { Extend::<&char>::extend(s, odd(v.iter(), k)); Out::Unit }
                    Op::ExtendStrs(v) => { Extend::<&str>::extend(s, odd(v.iter().map(|x| x.as_str()), k)); Out::Unit }
                    Op::TryPushStr(t, a) => with_arg!($T, a, t.as_str(), x => unit(s.try_push_str(x))),
                    Op::PushStrTruncate(t, a) => { with_arg!($T, a, t.as_str(), x => s.push_str_truncate(x)); Out::Unit }
                    Op::TryPush(c) => unit(s.try_push(*c)),
                    Op::WriteStr(t) => fmt_unit(std::fmt::Write::write_str(s, t)),
                    Op::WriteChar(c) => fmt_unit(std::fmt::Write::write_char(s, *c)),
                    Op::WriteFmt(t) => fmt_unit(write_text(s, t)),
                    Op::Add(t) => { let r = *s + t.as_str(); Out::Added(AsRef::<[u8]>::as_ref(&r).to_vec()) }
                    Op::Truncate(n) => unit(s.truncate(*n)),
                    Op::Pop => Out::Char(s.pop()),
                    Op::Trim => { s.trim(); Out::Unit }
                    Op::Remove(n) => match s.remove(*n) { Ok(c) => Out::Removed(c), Err(e) => Out::Err(e.into()) },
                    Op::Retain(p) => { let mut seen = vec![]; s.retain(|c| pred(*p, &mut seen, c)); Out::Seen(seen) }
                    Op::TryInsert(n, c) => unit(s.try_insert(*n, *c)),
                    Op::TryInsertStr(n, t, a) => with_arg!($T, a, t.as_str(), x => unit(s.try_insert_str(*n, x))),
                    Op::InsertStrTruncate(n, t, a) => with_arg!($T, a, t.as_str(), x => unit(s.insert_str_truncate(*n, x))),
                    Op::Clear => { s.clear(); Out::Unit }
                    Op::SplitOff(n) => match s.split_off(*n) {
                        Ok(r) => Out::Split(AsRef::<[u8]>::as_ref(&r).to_vec()),
                        Err(e) => Out::Err(e.into()),
                    },
                    Op::Drain(b, f, ends) => match with_range!(*b, *f, r => s.drain(r)) {
                        Err(e) => Out::Err(e.into()),
                        Ok(mut d) => {
                            let t = d.as_str().as_bytes().to_vec();
                            let (mut came, mut left) = (vec![], vec![]);
                            for (i, e) in ends.iter().enumerate() {
                                if i % 5 == 4 { let c = d.clone(); d = c; }
                                came.push(if *e { d.next() } else { d.next_back() });
                                left.push(d.as_str().as_bytes().to_vec());
                            }
                            Out::Drained(t, came, left)
                        }
                    },
                    Op::ReplaceRange(b, f, t) => with_range!(*b, *f, r => unit(s.replace_range(r, t))),
                    Op::Upper(h) => {
                        match h {
                            How::AsMutStr => s.as_mut_str().make_ascii_uppercase(),
                            How::DerefMut => { let x: &mut str = &mut *s; x.make_ascii_uppercase() }
                            How::AsMut => AsMut::<str>::as_mut(s).make_ascii_uppercase(),
                            How::BorrowMut => BorrowMut::<str>::borrow_mut(s).make_ascii_uppercase(),
                        }
                        Out::Unit
                    }
                    Op::IndexMutLower(ix) => {
                        match *ix {
                            Ix::From(a) => s[a..].make_ascii_lowercase(),
                            Ix::To(b) => s[..b].make_ascii_lowercase(),
                            Ix::Full => s[..].make_ascii_lowercase(),
                            Ix::Range(a, b) => s[a..b].make_ascii_lowercase(),
                            Ix::ToIncl(b) => s[..=b].make_ascii_lowercase(),
                            Ix::Incl(a, b) => s[a..=b].make_ascii_lowercase(),
                        }
                        Out::Unit
                    }
                    Op::Copy => { let c = *s; self.s = c; Out::Unit }
                    Op::Clone => {
                        let c = Clone::clone(&*s);
                        // over nothing, something else, more, and the same but for its last character
                        let t = s.as_str();
                        let mut near = t.to_string();
                        if let Some(l) = near.pop() { near.push(if l.len_utf8() == 1 { if l == '~' { '!' } else { '~' } } else { char::from_u32(l as u32 ^ 1).unwrap_or(l) }) }
                        let mut wrong = c;
                        for over in [String::new(), "qrs".into(), "z".repeat($cap), near, format!("{t}q")] {
                            let mut d = <$T>::from_str_truncate(&over);
                            d.clone_from(&c);
                            if AsRef::<[u8]>::as_ref(&d) != AsRef::<[u8]>::as_ref(&c) { wrong = d }
                        }
                        self.s = wrong;
                        Out::Unit
                    }
                }
            }
            fn adversarial(&mut self, a: &Adv, strs: &[String], ranges: &[Bd]) -> Out {
                let x = Shifty(strs, Cell::new(0));
                let rg = ShiftyRange(ranges, Cell::new(0), Cell::new(0));
                macro_rules! assign {
                    ($e:expr) => { match $e { Ok(x) => { self.s = x; Out::Ok } Err(e) => Out::Err(e.into()) } };
                }
                let s = &mut self.s;
                match a {
                    Adv::TryFromStr => assign!(<$T>::try_from_str(x)),
                    Adv::FromStrTruncate => { self.s = <$T>::from_str_truncate(x); Out::Unit }
                    Adv::TryPushStr => unit(s.try_push_str(x)),
                    Adv::PushStrTruncate => { s.push_str_truncate(x); Out::Unit }
                    Adv::TryInsertStr(n) => unit(s.try_insert_str(*n, x)),
                    Adv::InsertStrTruncate(n) => unit(s.insert_str_truncate(*n, x)),
                    Adv::ReplaceRange => unit(s.replace_range(rg, x)),
                    Adv::Drain => match s.drain(rg) {
                        Ok(mut d) => { while d.next().is_some() { let _ = d.next_back(); std::str::from_utf8(d.as_str().as_bytes()).unwrap(); } Out::Ok }
                        Err(e) => Out::Err(e.into()),
                    },
                    Adv::TryFromIterator => assign!(<$T>::try_from_iterator((0..strs.len()).map(|_| Shifty(strs, Cell::new(0))))),
                    Adv::FromIteratorTruncate => { self.s = <$T>::from_iterator_truncate((0..strs.len()).map(|_| Shifty(strs, Cell::new(0)))); Out::Unit }
                    Adv::CollectLiar(k) => { self.s = Liar(strs.iter().flat_map(|s| s.chars()), *k).collect(); Out::Unit }
                    Adv::ExtendLiar(k) => { Extend::<char>::extend(s, Liar(strs.iter().flat_map(|s| s.chars()), *k)); Extend::<&str>::extend(s, Liar(strs.iter().map(|s| s.as_str()), *k)); Out::Unit }
                    Adv::FromUtf16(k) => {
                        struct Sh(Vec<Vec<u16>>, Cell<usize>);
                        impl AsRef<[u16]> for Sh { fn as_ref(&self) -> &[u16] { let n = self.1.get(); self.1.set(n + 1); &self.0[n % self.0.len()] } }
                        let sh = Sh(strs.iter().map(|s| s.encode_utf16().collect()).collect(), Cell::new(0));
                        match k % 3 { 0 => assign!(<$T>::try_from_utf16(sh)), 1 => assign!(<$T>::from_utf16_truncate(sh)), _ => { self.s = <$T>::from_utf16_lossy_truncate(sh); Out::Unit } }
                    }
                    Adv::RetainPanics(k) => {
                        let mut n = 0;
                        let k = *k;
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.retain(|_| { n += 1; if n > k { panic!("expected") } n % 2 == 0 })));
                        Out::Unit
                    }
                    Adv::ExtendPanics(k) => {
                        let mut n = 0;
                        let k = *k;
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Extend::<&str>::extend(s, strs.iter().map(|x| { n += 1; if n > k { panic!("expected") } x.as_str() }))));
                        Out::Unit
                    }
                }
            }
            fn views(&self) -> Views {
                let s = &self.s;
                let d: &str = &*s;
                Views {
                    as_str: s.as_str().as_bytes().to_vec(),
                    as_ref_str: AsRef::<str>::as_ref(s).as_bytes().to_vec(),
                    as_ref_bytes: AsRef::<[u8]>::as_ref(s).to_vec(),
                    deref: d.as_bytes().to_vec(),
                    borrow: Borrow::<str>::borrow(s).as_bytes().to_vec(),
                    len: s.len(),
                    is_empty: s.is_empty(),
                    capacity: <$T>::capacity(),
                    display: shown(s),
                }
            }
            fn mut_views(&mut self) -> Vec<(&'static str, Vec<u8>)> {
                let s = &mut self.s;
                let a = s.as_mut_str().as_bytes().to_vec();
                let b = { let x: &mut str = &mut *s; x.as_bytes().to_vec() };
                let c = AsMut::<str>::as_mut(s).as_bytes().to_vec();
                let d = BorrowMut::<str>::borrow_mut(s).as_bytes().to_vec();
                vec![("as_mut_str", a), ("deref_mut", b), ("as_mut", c), ("borrow_mut", d)]
            }
            fn index(&self, ix: Ix) -> Result<Vec<u8>, ()> {
                let s = &self.s;
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ix {
                    Ix::From(a) => s[a..].as_bytes().to_vec(),
                    Ix::To(b) => s[..b].as_bytes().to_vec(),
                    Ix::Full => s[..].as_bytes().to_vec(),
                    Ix::Range(a, b) => s[a..b].as_bytes().to_vec(),
                    Ix::ToIncl(b) => s[..=b].as_bytes().to_vec(),
                    Ix::Incl(a, b) => s[a..=b].as_bytes().to_vec(),
                })).map_err(|_| ())
            }
            fn index_mut(&mut self, ix: Ix) -> Result<Vec<u8>, ()> {
                let s = &mut self.s;
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let r: &mut str = match ix {
                        Ix::From(a) => &mut s[a..],
                        Ix::To(b) => &mut s[..b],
                        Ix::Full => &mut s[..],
                        Ix::Range(a, b) => &mut s[a..b],
                        Ix::ToIncl(b) => &mut s[..=b],
                        Ix::Incl(a, b) => &mut s[a..=b],
                    };
                    r.as_bytes().to_vec()
                })).map_err(|_| ())
            }
            fn hash(&self) -> Vec<u8> { hashed(&self.s) }
            fn display(&self) -> String { shown(&self.s) }
            fn eq_str(&self, t: &str) -> [bool; 4] { [self.s == *t, self.s == t, !(self.s != *t), !(self.s != t)] }
            fn compare(&self, text: &str, stale: &str) -> Cmp {
                let mut o = <$T>::from_str_truncate(stale);
                o.clear();
                o.try_push_str(text).unwrap();
                compare(&self.s, &o, |t| t.as_str().to_string())
            }
            fn drain_cmp(&self, a: Bd, b: Bd) -> Option<(Vec<u8>, Vec<u8>, Cmp, Vec<u8>)> {
                let (mut x, mut y) = (self.s, self.s);
                let (p, q) = (x.drain(a).ok()?, y.drain(b).ok()?);
                Some((p.as_str().as_bytes().to_vec(), q.as_str().as_bytes().to_vec(), compare(&p, &q, |t| t.as_str().to_string()), hashed(&p)))
            }
            fn guards_ok(&self) -> bool { self.pre.iter().chain(&self.shift).all(|b| *b == 0xA5) && self.post.iter().all(|b| *b == 0x5A) }
            fn fold_drain(&mut self, b: Bd, what: usize) -> Option<String> {
                let mut d = self.s.drain(b).ok()?;
                let (lo, hi) = d.size_hint();
                let n = d.clone().fold(0, |a, _| a + 1);
                if lo > n || hi.map_or(false, |h| h < n) {
                    return Some(format!("size_hint {lo}..{hi:?} for {n}"));
                }
                Some(match what {
                    0 => d.collect::<String>(),
                    1 => d.rev().collect::<String>(),
                    2 => d.count().to_string(),
                    3 => format!("{:?}", d.last()),
                    4 => format!("{:?}", (d.nth(1), d.nth_back(0), d.as_str().to_string())),
                    5 => format!("{:?}", (d.by_ref().take(2).collect::<String>(), d.next(), d.next_back(), d.nth_back(1), d.as_str().to_string())),
                    6 => { let mut t = String::new(); d.for_each(|c| t.push(c)); t }
                    7 => d.rfold(String::new(), |mut a, c| { a.push(c); a }),
                    8 => format!("{:?}", (d.find(|c| !c.is_ascii()), d.as_str().to_string())),
                    9 => format!("{:?}", (d.rfind(|c| !c.is_ascii()), d.as_str().to_string())),
                    10 => { let mut e = d.clone(); let _ = e.next(); format!("{:?}", (d.as_str().to_string(), e.as_str().to_string())) }
                    12 => format!("{:?}", (d.position(|c| !c.is_ascii()), d.as_str().to_string())),
                    13 => format!("{:?}", (d.try_fold(0, |a, c| if c.is_ascii() { Some(a + 1) } else { None }), d.as_str().to_string())),
                    14 => d.step_by(2).collect::<String>(),
                    15 => format!("{:?}", (d.try_rfold(0, |a, c| if c.is_ascii() { Some(a + 1) } else { None }), d.as_str().to_string())),
                    16 => d.skip(1).chain("é".chars()).take(4).collect::<String>(),
                    17 => { let mut p = d.peekable(); format!("{:?}", (p.peek().copied(), p.next_back(), p.collect::<String>())) }
                    _ => { let e = Drain::<{$cap}>::default(); format!("{:?}", (e.as_str().to_string(), d.as_str().to_string())) }
                })
            }
            fn infinite(&mut self, what: usize, c: char) -> Vec<u8> {
                let mut n = 0;
                let it = std::iter::repeat_with(|| { n += 1; if n > 5000 { panic!("asked for more than 5000 items") } c });
                match what {
                    0 => self.s = <$T>::from_chars_truncate(it),
                    1 => self.s = it.collect(),
                    2 => Extend::<char>::extend(&mut self.s, it),
                    3 => { let t = c.to_string(); let mut m = 0; self.s = <$T>::from_iterator_truncate(std::iter::repeat_with(|| { m += 1; if m > 5000 { panic!("asked for more than 5000 items") } t.as_str() })) }
                    4 => { let t = c.to_string(); let mut m = 0; Extend::<&str>::extend(&mut self.s, std::iter::repeat_with(|| { m += 1; if m > 5000 { panic!("asked for more than 5000 items") } t.as_str() })) }
                    5 => { let _ = <$T>::try_from_chars(it); }
                    7 => { let mut m = 0; Extend::<&char>::extend(&mut self.s, std::iter::repeat_with(|| { m += 1; if m > 5000 { panic!("asked for more than 5000 items") } &c })) }
                    8 => { let t = c.to_string(); let mut m = 0; self.s = std::iter::repeat_with(|| { m += 1; if m > 5000 { panic!("asked for more than 5000 items") } t.as_str() }).collect() }
                    _ => { let t = c.to_string(); let mut m = 0; let _ = <$T>::try_from_iterator(std::iter::repeat_with(|| { m += 1; if m > 5000 { panic!("asked for more than 5000 items") } t.as_str() })); }
                }
                self.bytes()
            }
            #[cfg(feature = "serde-traits")]
            fn serde_ser(&self) -> Vec<String> { crate::serdes::ser(&self.s) }
            #[cfg(feature = "serde-traits")]
            fn serde_de(&mut self, how: usize, data: &[u8]) -> Result<(), String> {
                self.s = crate::serdes::de::<$T>(how, data)?;
                Ok(())
            }
            #[cfg(not(feature = "serde-traits"))]
            fn serde_ser(&self) -> Vec<String> { vec![] }
            #[cfg(not(feature = "serde-traits"))]
            fn serde_de(&mut self, _: usize, _: &[u8]) -> Result<(), String> { Ok(()) }
            #[cfg(feature = "diesel-traits")]
            fn diesel_round(&self, conn: &mut diesel::SqliteConnection) -> String { sut!(@round $sql, self, conn) }
            #[cfg(feature = "diesel-traits")]
            fn diesel_read(&mut self, conn: &mut diesel::SqliteConnection, sql: &str) -> Result<(), String> { sut!(@read $sql, self, conn, sql, $T) }
            #[cfg(not(feature = "diesel-traits"))]
            fn diesel_round(&self, _: &mut diesel::SqliteConnection) -> String { String::new() }
            #[cfg(not(feature = "diesel-traits"))]
            fn diesel_read(&mut self, _: &mut diesel::SqliteConnection, _: &str) -> Result<(), String> { Ok(()) }
        }
    };
    (@round yes, $self:ident, $conn:ident) => { crate::serdes::round(&$self.s, $conn) };
    (@round no, $self:ident, $conn:ident) => {{ let _ = $conn; String::new() }};
    (@read yes, $self:ident, $conn:ident, $q:ident, $T:ty) => {{ $self.s = crate::serdes::read::<$T>($conn, $q)?; Ok(()) }};
    (@read no, $self:ident, $conn:ident, $q:ident, $T:ty) => {{ let _ = ($conn, $q); Err(String::new()) }};
}

macro_rules! caps {
    ($($n:literal)*) => {
        $(sut!(ArrayString<$n>, $n, format!("ArrayString<{}>", $n), yes);)*
        pub fn all() -> Vec<Box<dyn Sut>> { vec![$(Box::new(Guarded::<_, { ($n + 1) % 4 }>::new(ArrayString::<$n>::new())),)*] }
    };
}
sut!(CacheString, 63, "CacheString".to_string(), yes);
pub fn cache() -> Box<dyn Sut> {
    Box::new(Guarded::<_, 0>::new(CacheString::new()))
}
the_caps!();
