//! The assumed contracts on the standard library (contracts/prelude.rs, contracts/std_more.rs), executed: the executable
//! reading of each contract against the installed std.  Complete where the domain is finite and small (every char, every
//! Ordering, every pair of 16-bit units at a boundary), bounded otherwise.  Prints one line per contract; exit 1 if one is wrong.
use std::char::decode_utf16;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Bound, RangeBounds};

static mut N: u64 = 0;
fn say(name: &str, how: &str, from: u64) {
    println!("{}\t{}\t{}", name, how, unsafe { N } - from);
}
fn now() -> u64 {
    unsafe { N }
}
macro_rules! ck {
    ($n:expr, $e:expr, $($ctx:expr),*) => {{
        unsafe { N += 1 }
        if !$e { println!("WRONG {} at {:?}", $n, ($(&$ctx,)*)); std::process::exit(1) }
    }};
}
// ---- the vocabulary, written out
fn enc1(c: char) -> Vec<u8> {
    let u = c as u32;
    match u {
        0..=0x7f => vec![u as u8],
        0x80..=0x7ff => vec![0xc0 | (u >> 6) as u8, 0x80 | (u & 63) as u8],
        0x800..=0xffff => vec![0xe0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8],
        _ => vec![0xf0 | (u >> 18) as u8, 0x80 | (u >> 12 & 63) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8],
    }
}
/// decodes by the definition: shortest forms, no surrogates, up to U+10FFFF
fn decode(b: &[u8]) -> Option<Vec<char>> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let n = match b[i] { 0..=0x7f => 1, 0xc0..=0xdf => 2, 0xe0..=0xef => 3, 0xf0..=0xf7 => 4, _ => return None };
        if i + n > b.len() || b[i + 1..i + n].iter().any(|x| x & 0xc0 != 0x80) {
            return None;
        }
        let mut u = match n { 1 => b[i] as u32, 2 => b[i] as u32 & 31, 3 => b[i] as u32 & 15, _ => b[i] as u32 & 7 };
        for x in &b[i + 1..i + n] {
            u = u << 6 | (*x as u32 & 63);
        }
        if u > 0x10ffff || (0xd800..0xe000).contains(&u) || u < [0, 0, 0x80, 0x800, 0x10000][n] {
            return None;
        }
        out.push(unsafe { char::from_u32_unchecked(u) });
        i += n;
    }
    Some(out)
}
fn boundary(b: &[u8], i: usize) -> bool {
    i <= b.len() && (i == 0 || i == b.len() || b[i] & 0xc0 != 0x80)
}
fn lex(a: &[u8], b: &[u8]) -> Ordering {
    match (a.first(), b.first()) {
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Less,
        (_, None) => Ordering::Greater,
        (Some(x), Some(y)) if x < y => Ordering::Less,
        (Some(x), Some(y)) if x > y => Ordering::Greater,
        _ => lex(&a[1..], &b[1..]),
    }
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
        self.0.push(0xAA);
    }
    fn write_u8(&mut self, b: u8) {
        self.0.push(b);
        self.0.push(0xBB);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn texts() -> Vec<String> {
    let al = ["a", "z", " ", "\u{b}", "\0", "\u{7f}", "\u{80}", "\u{85}", "\u{e9}", "\u{7ff}", "\u{800}", "\u{1680}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{1f914}", "\u{10ffff}"];
    let mut v = vec![String::new()];
    for a in al {
        v.push(a.into());
        for b in al {
            v.push([a, b].concat());
            for c in al {
                v.push([a, b, c].concat());
            }
        }
    }
    let mut r = Rng(0x9E3779B97F4A7C15);
    for _ in 0..2000 {
        let n = r.below(260);
        v.push((0..n).map(|_| al[r.below(al.len() as u64) as usize]).collect());
    }
    v
}
fn chars() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(char::from_u32)
}
fn main() {
    // char
    let f = now();
    let mut buf = [0xEEu8; 4];
    for c in chars() {
        ck!("char::encode_utf8", c.encode_utf8(&mut buf).as_bytes() == &enc1(c)[..], c);
        let mut small = vec![0u8; enc1(c).len()];
        ck!("char::encode_utf8", c.encode_utf8(&mut small).as_bytes() == &enc1(c)[..], c);
    }
    say("char::encode_utf8", "every char, exact and larger buffers", f);
    let f = now();
    for c in chars() {
        ck!("char::len_utf8", c.len_utf8() == enc1(c).len(), c);
        ck!("char::is_ascii", c.is_ascii() == ((c as u32) < 0x80), c);
        ck!("char::is_ascii_whitespace", c.is_ascii_whitespace() == matches!(c, '\t' | '\n' | '\u{c}' | '\r' | ' '), c);
    }
    say("char::len_utf8, is_ascii, is_ascii_whitespace", "every char", f);
    let f = now();
    for u in (0..0x111000u32).chain([u32::MAX, 0x7fffffff, 0x80000000]) {
        ck!("char::from_u32", match char::from_u32(u) { Some(c) => c as u32 == u, None => u > 0x10ffff || (0xd800..=0xdfff).contains(&u) }, u);
    }
    say("char::from_u32", "0 to 0x110fff and extremes", f);
    ck!("REPLACEMENT_CHARACTER", core::char::REPLACEMENT_CHARACTER == '\u{FFFD}', 0);
    // Ordering, bool, Option, Result: every value
    use Ordering::*;
    let f = now();
    for a in [Less, Equal, Greater] {
        ck!("Ordering::is_*", (a.is_lt(), a.is_le(), a.is_gt(), a.is_ge(), a.is_eq(), a.is_ne()) == (a as i8 == -1, a as i8 != 1, a as i8 == 1, a as i8 != -1, a as i8 == 0, a as i8 != 0), a);
        ck!("Ordering::reverse", a.reverse() as i8 == -(a as i8), a);
        for b in [Less, Equal, Greater] {
            ck!("Ordering::eq", (a == b) == (a as i8 == b as i8), a, b);
            ck!("Ordering::then", a.then(b) == if a as i8 == 0 { b } else { a }, a, b);
        }
    }
    say("Ordering::is_*, reverse, eq, then", "every value", f);
    let f = now();
    for b in [false, true] {
        ck!("bool::then_some", b.then_some(7) == if b { Some(7) } else { None }, b);
    }
    let os = [None, Some(0u8), Some(1)];
    let rs = [Ok(0u8), Ok(1), Err(0u8), Err(1)];
    for o in os {
        ck!("Option::map_or", o.map_or(9, |x| x + 1) == match o { Some(x) => x + 1, None => 9 }, o);
        ck!("Option::map_or_else", o.map_or_else(|| 9, |x| x + 1) == match o { Some(x) => x + 1, None => 9 }, o);
        ck!("Option::filter", o.filter(|x| *x == 1) == match o { Some(1) => Some(1), _ => None }, o);
        ck!("Option::or_else", o.or_else(|| Some(5)) == match o { Some(x) => Some(x), None => Some(5) }, o);
        ck!("Option::is_some_and", o.is_some_and(|x| x == 1) == (o == Some(1)), o);
        ck!("Option::is_none_or", o.is_none_or(|x| x == 1) == (o != Some(0)), o);
        ck!("Option::copied", o.as_ref().copied() == o, o);
        let mut p = o;
        ck!("Option::replace", p.replace(3) == o && p == Some(3), o);
        for d in os {
            ck!("Option::or", o.or(d) == match o { Some(x) => Some(x), None => d }, o, d);
            ck!("Option::xor", o.xor(d) == match (o, d) { (Some(x), None) | (None, Some(x)) => Some(x), _ => None }, o, d);
            ck!("Option::zip", o.zip(d) == match (o, d) { (Some(x), Some(y)) => Some((x, y)), _ => None }, o, d);
        }
    }
    for r in rs {
        ck!("Result::unwrap_or", r.unwrap_or(9) == match r { Ok(x) => x, Err(_) => 9 }, r);
        ck!("Result::and_then", r.and_then(|x| if x == 0 { Ok(5) } else { Err(7) }) == match r { Ok(0) => Ok(5), Ok(_) => Err(7), Err(e) => Err(e) }, r);
        ck!("Result::or_else", r.or_else(|e| if e == 0 { Ok(5) } else { Err(7) }) == match r { Ok(x) => Ok(x), Err(0) => Ok(5), Err(_) => Err(7) }, r);
        ck!("Result::unwrap_or_else", r.unwrap_or_else(|e| e + 5) == match r { Ok(x) => x, Err(e) => e + 5 }, r);
        ck!("Result::unwrap_or_default", r.unwrap_or_default() == match r { Ok(x) => x, Err(_) => 0 }, r);
        ck!("Result::map_or", r.map_or(9, |x| x + 1) == match r { Ok(x) => x + 1, Err(_) => 9 }, r);
        ck!("Result::is_ok_and", r.is_ok_and(|x| x == 1) == (r == Ok(1)), r);
        for d in rs {
            ck!("Result::or", r.or(d) == match r { Ok(x) => Ok(x), Err(_) => d }, r, d);
            ck!("Result::and", r.and(d) == match r { Ok(_) => d, Err(e) => Err(e) }, r, d);
        }
    }
    say("bool::then_some, Option::*, Result::*", "every variant", f);
    let f = now();
    let ns = [0usize, 1, 2, 7, 254, 255, 256, usize::MAX / 2, usize::MAX - 1, usize::MAX];
    for a in ns {
        for b in ns {
            ck!("cmp::min", core::cmp::min(a, b) == if a > b { b } else { a }, a, b);
            ck!("cmp::max", core::cmp::max(a, b) == if a > b { a } else { b }, a, b);
            ck!("usize::abs_diff", a.abs_diff(b) == if a < b { b - a } else { a - b }, a, b);
            let (w, o) = (a as u128 + b as u128, 1u128 << usize::BITS);
            ck!("usize::overflowing_add", a.overflowing_add(b) == ((w % o) as usize, w >= o), a, b);
            ck!("usize::overflowing_sub", a.overflowing_sub(b) == (((o + a as u128 - b as u128) % o) as usize, a < b), a, b);
            let mut x = a;
            ck!("mem::replace", core::mem::replace(&mut x, b) == a && x == b, a, b);
            let mut x = a;
            ck!("mem::take", core::mem::take(&mut x) == a && x == 0, a, b);
            ck!("convert::identity", core::convert::identity(a) == a, a);
            // ranges: bounds are those they were made of, each time
            for _ in 0..2 {
                ck!("RangeInclusive::start, end", *(a..=b).start() == a && *(a..=b).end() == b, a, b);
                ck!("RangeInclusive::into_inner", (a..=b).into_inner() == (a, b), a, b);
                ck!("bounds of ranges", (a..b).start_bound() == Bound::Included(&a) && (a..b).end_bound() == Bound::Excluded(&b), a, b);
                ck!("bounds of ranges", (a..=b).start_bound() == Bound::Included(&a) && (a..=b).end_bound() == Bound::Included(&b), a, b);
                ck!("bounds of ranges", (a..).start_bound() == Bound::Included(&a) && (a..).end_bound() == Bound::Unbounded, a, b);
                ck!("bounds of ranges", (..b).start_bound() == Bound::Unbounded && (..b).end_bound() == Bound::Excluded(&b), a, b);
                ck!("bounds of ranges", (..=b).start_bound() == Bound::Unbounded && (..=b).end_bound() == Bound::Included(&b), a, b);
                ck!("bounds of ranges", RangeBounds::<usize>::start_bound(&..) == Bound::Unbounded && RangeBounds::<usize>::end_bound(&..) == Bound::Unbounded, a, b);
            }
        }
    }
    say("cmp::min, max, usize::*, mem::*, ranges", "extremes", f);
    // text
    let ts = texts();
    let f = now();
    let ws: Vec<char> = chars().filter(|c| c.is_whitespace()).collect();
    for t in &ts {
        let cs = decode(t.as_bytes()).unwrap();
        ck!("str::chars", t.chars().collect::<Vec<_>>() == cs, t);
        ck!("Chars::count", t.chars().count() == cs.len(), t);
        ck!("Chars::last", t.chars().last() == cs.last().copied(), t);
        ck!("Chars::next_back", t.chars().rev().collect::<Vec<_>>() == cs.iter().rev().copied().collect::<Vec<_>>(), t);
        let mut off = 0;
        let want: Vec<_> = cs.iter().map(|c| { let r = (off, *c); off += enc1(*c).len(); r }).collect();
        ck!("str::char_indices", t.char_indices().collect::<Vec<_>>() == want, t);
        {
            let (mut it, mut k) = (t.char_indices(), want.len());
            loop {
                let w = if k == 0 { None } else { Some(want[k - 1]) };
                ck!("CharIndices::last", it.clone().last() == w, t, k);
                ck!("CharIndices::next_back", it.next_back() == w && it.clone().collect::<Vec<_>>() == want[..k.saturating_sub(1)], t, k);
                if k == 0 || t.len() > 12 { break }
                k -= 1;
            }
        }
        ck!("str::char_indices().rev()", t.char_indices().rev().collect::<Vec<_>>() == want.iter().rev().copied().collect::<Vec<_>>(), t);
        let kept: Vec<char> = { let mut n = 0; cs.iter().copied().filter(|_| { n += 1; n % 3 != 0 }).collect() };
        let (mut seen, mut n) = (vec![], 0);
        let got: Vec<char> = t.chars().filter(|c| { seen.push(*c); n += 1; n % 3 != 0 }).collect();
        ck!("Iterator::filter", got == kept && seen == cs, t);
        let lead = cs.iter().take_while(|c| ws.contains(c)).count();
        let trail = cs.len() - cs.iter().rev().take_while(|c| ws.contains(c)).count();
        ck!("str::trim_start", t.trim_start().chars().collect::<Vec<_>>() == cs[lead..], t);
        ck!("str::trim_end", t.trim_end().chars().collect::<Vec<_>>() == cs[..trail], t);
        ck!("str::trim", t.trim().chars().collect::<Vec<_>>() == if lead >= trail { vec![] } else { cs[lead..trail].to_vec() }, t);
        let mut it = t.chars();
        let mut k = 0;
        while it.next().is_some() && k < 3 {
            k += 1;
            ck!("Chars::as_str", decode(it.as_str().as_bytes()).unwrap() == cs[k..], t, k);
        }
        let (mut a, mut b) = (Rec(vec![]), Rec(vec![]));
        t.as_str().hash(&mut a);
        String::from_utf8(t.as_bytes().to_vec()).unwrap().as_str().hash(&mut b);
        ck!("str::hash", a.0 == b.0, t);
        ck!("from_utf8_unchecked", unsafe { core::str::from_utf8_unchecked(t.as_bytes()) } == t, t);
    }
    say("str::chars, Chars::*, char_indices, filter, trim*, hash", "bounded: 10421 texts", f);
    let f = now();
    for t in ts.iter().filter(|t| t.len() < 9).chain(ts.iter().rev().take(20)) {
        let b = t.as_bytes();
        for i in 0..b.len() + 2 {
            ck!("str::is_char_boundary", t.is_char_boundary(i) == boundary(b, i), t, i);
            ck!("str::get(i..)", t.get(i..).map(|x| x.as_bytes()) == if boundary(b, i) { Some(&b[i..]) } else { None }, t, i);
            ck!("str::get(..i)", t.get(..i).map(|x| x.as_bytes()) == if boundary(b, i) { Some(&b[..i]) } else { None }, t, i);
            if boundary(b, i) {
                ck!("str::get_unchecked(..i)", unsafe { t.get_unchecked(..i) }.as_bytes() == &b[..i], t, i);
            }
            for j in 0..b.len() + 2 {
                let ok = i <= j && boundary(b, i) && boundary(b, j);
                ck!("str::get(i..j)", t.get(i..j).map(|x| x.as_bytes()) == if ok { Some(&b[i..j]) } else { None }, t, i, j);
                ck!("str::get(i..=j)", t.get(i..=j).map(|x| x.as_bytes()) == if i <= j + 1 && boundary(b, i) && boundary(b, j + 1) { Some(&b[i..j + 1]) } else { None }, t, i, j);
                if ok {
                    ck!("str::get_unchecked(i..j)", unsafe { t.get_unchecked(i..j) }.as_bytes() == &b[i..j], t, i, j);
                }
            }
        }
    }
    say("str::get, get_unchecked, is_char_boundary", "bounded: texts to 8 bytes and 20 long ones, every cut", f);
    let f = now();
    std::panic::set_hook(Box::new(|_| ()));
    for t in ts.iter().filter(|t| t.len() < 5) {
        let b = t.as_bytes();
        for i in 0..b.len() + 2 {
            for j in 0..b.len() + 2 {
                let ok = i <= j && boundary(b, i) && boundary(b, j);
                ck!("str::index(i..j)", std::panic::catch_unwind(|| t[i..j].as_bytes()).ok() == if ok { Some(&b[i..j]) } else { None }, t, i, j);
                let mut m = t.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m[i..j].make_ascii_uppercase() })).is_ok();
                ck!("str::index_mut(i..j)", r == ok && (0..b.len()).all(|k| m.as_bytes()[k] == if ok && i <= k && k < j { b[k].to_ascii_uppercase() } else { b[k] }), t, i, j);
            }
        }
    }
    say("str::index, index_mut", "bounded: texts to 4 bytes, every pair of bounds", f);
    let f = now();
    for a in ts.iter().take(441) {
        for b in ts.iter().take(441).chain(ts.iter().rev().take(30)) {
            let w = lex(a.as_bytes(), b.as_bytes());
            ck!("str::cmp, partial_cmp, eq", a.as_str().cmp(b.as_str()) == w && a.as_str().partial_cmp(b.as_str()) == Some(w) && (a.as_str() == b.as_str()) == (w as i8 == 0) && (a.as_str() < b.as_str()) == (w as i8 == -1), a, b);
        }
    }
    say("str::cmp, partial_cmp, eq, <", "bounded: 441 by 471 texts", f);
    let f = now();
    let mut sl: Vec<Vec<u8>> = vec![vec![]];
    for n in 0..3 {
        let longest: Vec<_> = sl.iter().filter(|x| x.len() == n).cloned().collect();
        for x in longest { for y in [0u8, 1, 0x7f, 0x80, 0xff] { sl.push(x.iter().copied().chain([y]).collect()) } }
    }
    for a in &sl {
        for b in &sl {
            let (a, b) = (a.as_slice(), b.as_slice());
            let w = lex(a, b);
            ck!("[u8]::cmp, partial_cmp, eq", a.cmp(b) == w && a.partial_cmp(b) == Some(w) && (a == b) == (w as i8 == 0) && (*a != *b) == (w as i8 != 0), a, b);
        }
    }
    say("[u8]::cmp, partial_cmp, eq", "bounded: every pair of slices to 3 bytes over 5 values", f);
    // UTF-8 validity: every sequence of up to three bytes, four-byte ones at the boundaries
    let f = now();
    let mut one = |b: &[u8]| ck!("str::from_utf8", match (core::str::from_utf8(b), decode(b)) { (Ok(s), Some(cs)) => s.as_bytes() == b && s.chars().eq(cs), (Err(_), None) => true, _ => false }, b);
    for x in 0..=255u8 {
        one(&[x]);
        for y in 0..=255u8 {
            one(&[x, y]);
            for z in 0..=255u8 {
                one(&[x, y, z]);
            }
        }
    }
    let edge = [0u8, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff];
    for x in 0..=255u8 {
        for y in edge { for z in edge { for w in edge { one(&[x, y, z, w]); one(&[0x61, x, y, z, w]) } } }
    }
    let mut r = Rng(77);
    for _ in 0..200000 {
        let t = &ts[r.below(ts.len() as u64) as usize];
        let mut b = t.as_bytes().to_vec();
        if !b.is_empty() { let k = r.below(b.len() as u64) as usize; b[k] = r.next() as u8 }
        one(&b);
    }
    say("str::from_utf8", "every sequence to 3 bytes, boundary ones of 4 and 5, 200000 damaged texts", f);
    // UTF-16: the decoder against the definition (utf16_decoded in contracts/prelude.rs)
    let f = now();
    let us = [0u16, 0x41, 0x7f, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffd, 0xffff];
    let dec = |v: &[u16]| {
        let (mut i, mut out) = (0, vec![]);
        while i < v.len() {
            let hi = (0xd800..0xdc00).contains(&v[i]);
            if hi && i + 1 < v.len() && (0xdc00..0xe000).contains(&v[i + 1]) {
                out.push(char::from_u32(0x10000 + ((v[i] as u32 - 0xd800) << 10) + (v[i + 1] as u32 - 0xdc00)));
                i += 2;
            } else {
                out.push(char::from_u32(v[i] as u32));
                i += 1;
            }
        }
        out
    };
    for a in us { for b in us { for c in us { for d in us {
        let v = [a, b, c, d];
        for n in 0..=4 {
            let got: Vec<_> = decode_utf16(v[..n].iter().cloned()).map(|x| x.ok()).collect();
            ck!("char::decode_utf16", got == dec(&v[..n]), v, n);
        }
    } } } }
    for a in 0..=u16::MAX {
        for b in us {
            for v in [[a, b], [b, a]] {
                let got: Vec<_> = decode_utf16(v.iter().cloned()).map(|x| x.ok()).collect();
                ck!("char::decode_utf16", got == dec(&v), v);
            }
        }
    }
    for t in &ts {
        let v: Vec<u16> = t.encode_utf16().collect();
        ck!("char::decode_utf16", dec(&v).into_iter().collect::<Option<Vec<_>>>() == decode(t.as_bytes()), t);
    }
    let mut r = Rng(5);
    for _ in 0..20000 {
        let v: Vec<u16> = (0..r.below(40)).map(|_| if r.below(3) == 0 { r.next() as u16 } else { 0xd800 + r.below(0x800) as u16 }).collect();
        let got: Vec<_> = decode_utf16(v.iter().cloned()).map(|x| x.ok()).collect();
        ck!("char::decode_utf16", got == dec(&v), v);
    }
    say("char::decode_utf16, Iterator::cloned", "bounded: every sequence to 4 units over 13, every unit beside each of 13, 20000 random sequences", f);
    // slices
    let f = now();
    for n in 0..6usize {
        let a: Vec<u8> = (0..n as u8).collect();
        for i in 0..=n {
            for j in i..=n {
                ck!("slice::get_unchecked", unsafe { a.get_unchecked(i..j) } == &a[i..j], n, i, j);
                let mut b = a.clone();
                unsafe { b.get_unchecked_mut(i..j) }.fill(9);
                ck!("slice::get_unchecked_mut, fill", (0..n).all(|k| b[k] == if i <= k && k < j { 9 } else { k as u8 }), n, i, j);
                for d in 0..=n - (j - i) {
                    let mut b = a.clone();
                    unsafe { core::ptr::copy(b.as_ptr().add(i), b.as_mut_ptr().add(d), j - i) };
                    ck!("ptr::copy", (0..n).all(|k| b[k] == if d <= k && k < d + j - i { (k - d + i) as u8 } else { k as u8 }), n, i, j, d);
                    let mut b = a.clone();
                    b.copy_within(i..j, d);
                    ck!("slice::copy_within", (0..n).all(|k| b[k] == if d <= k && k < d + j - i { (k - d + i) as u8 } else { k as u8 }), n, i, j, d);
                    let mut b = [7u8; 6];
                    unsafe { core::ptr::copy_nonoverlapping(a.as_ptr().add(i), b.as_mut_ptr().add(d), j - i) };
                    ck!("ptr::copy_nonoverlapping", (0..6).all(|k| b[k] == if d <= k && k < d + j - i { (k - d + i) as u8 } else { 7 }), n, i, j, d);
                }
            }
            let mut b = a.clone();
            b.rotate_left(i);
            ck!("slice::rotate_left", b == [&a[i..], &a[..i]].concat(), n, i);
            let mut b = a.clone();
            b.rotate_right(i);
            ck!("slice::rotate_right", b == [&a[n - i..], &a[..n - i]].concat(), n, i);
            for j in 0..n {
                if i < n {
                    let mut b = a.clone();
                    b.swap(i, j);
                    ck!("slice::swap", (0..n).all(|k| b[k] == if k == i { j } else if k == j { i } else { k } as u8), n, i, j);
                }
            }
        }
        let mut b = a.clone();
        b.reverse();
        ck!("slice::reverse", (0..n).all(|k| b[k] == (n - 1 - k) as u8), n);
    }
    let mut a = [1u8, 2, 3];
    a.as_mut_slice()[1] = 9;
    ck!("array::as_mut_slice", a == [1, 9, 3], a);
    let mut a = *b"ab\xc3\xa9";
    unsafe { core::str::from_utf8_unchecked_mut(&mut a[..]) }.make_ascii_uppercase();
    ck!("from_utf8_unchecked_mut", &a == b"AB\xc3\xa9", a);
    say("slice::*, ptr::copy*, as_mut_slice, from_utf8_unchecked_mut", "bounded: lengths to 5, every range", f);
    // formatting a text with {} writes exactly it
    let f = now();
    for t in ts.iter().take(9000) {
        ck!("write!(\"{}\")", format!("{}", t.as_str()) == *t, t);
        let mut s = String::new();
        std::fmt::Write::write_str(&mut s, t).unwrap();
        ck!("Formatter::write_str", s == *t, t);
    }
    say("write!, write_str", "bounded: 9000 texts", f);
    println!("TOTAL\t{}", now());
}
