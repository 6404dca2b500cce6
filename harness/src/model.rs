//! What each operation should do, said with the standard `String`.
use crate::gen::trunc;
use crate::sut::*;
use arraystring::error::Error;
use std::ops::Bound;

pub struct Expect {
    /// any one of these
    pub outs: Vec<Out>,
    pub text: String,
}

pub fn start_of(b: Bound<usize>) -> u128 {
    match b {
        Bound::Included(a) => a as u128,
        Bound::Excluded(a) => a as u128 + 1,
        Bound::Unbounded => 0,
    }
}
pub fn end_of(b: Bound<usize>, len: usize) -> u128 {
    match b {
        Bound::Included(a) => a as u128 + 1,
        Bound::Excluded(a) => a as u128,
        Bound::Unbounded => len as u128,
    }
}
/// Ok(start, end) or the errors that apply
pub fn range(t: &str, b: Bd) -> Result<(usize, usize), Vec<Error>> {
    let (s, e, n) = (start_of(b.0), end_of(b.1, t.len()), t.len() as u128);
    let mut errs = vec![];
    if !(s <= e && e <= n) {
        errs.push(Error::OutOfBounds);
    }
    if (s <= n && !t.is_char_boundary(s as usize)) || (e <= n && !t.is_char_boundary(e as usize)) {
        errs.push(Error::Utf8);
    }
    if errs.is_empty() {
        Ok((s as usize, e as usize))
    } else {
        Err(errs)
    }
}
pub fn fit_chars(v: impl Iterator<Item = char>, room: usize) -> String {
    let mut s = String::new();
    for c in v {
        if s.len() + c.len_utf8() > room {
            break;
        }
        s.push(c);
    }
    s
}
pub fn fit_strs(v: &[String], room: usize) -> String {
    let mut s = String::new();
    for t in v {
        if s.len() + t.len() > room {
            let left = room - s.len();
            s.push_str(trunc(t, left));
            break;
        }
        s.push_str(t);
    }
    s
}
pub fn ix(t: &str, i: Ix) -> Option<(usize, usize)> {
    let (a, b) = match i {
        Ix::From(a) => (a as usize, t.len()),
        Ix::To(b) => (0, b as usize),
        Ix::Full => (0, t.len()),
        Ix::Range(a, b) => (a as usize, b as usize),
        Ix::ToIncl(b) => (0, b as usize + 1),
        Ix::Incl(a, b) => (a as usize, b as usize + 1),
    };
    t.get(a..b).map(|_| (a, b))
}

pub fn expect(t: &str, cap: usize, op: &Op) -> Expect {
    let old = t.to_string();
    let room = cap - t.len();
    let e = |outs: Vec<Out>, text: String| Expect { outs, text };
    let oob = || vec![Out::Err(Error::OutOfBounds)];
    let errs = |v: Vec<Error>| v.into_iter().map(Out::Err).collect::<Vec<_>>();
    let insert = |at: usize, w: &str| match range(t, (Bound::Included(at), Bound::Excluded(at))) {
        Err(mut v) => {
            if w.len() > room {
                v.push(Error::OutOfBounds)
            }
            e(errs(v), old.clone())
        }
        Ok(_) if w.len() > room => e(oob(), old.clone()),
        Ok(_) => e(vec![Out::Ok], format!("{}{}{}", &t[..at], w, &t[at..])),
    };
    match op {
        Op::New | Op::Default => e(vec![Out::Unit], String::new()),
        Op::TryFromStr(s, _) | Op::FromStr(s) => {
            if s.len() <= cap { e(vec![Out::Ok], s.clone()) } else { e(oob(), old) }
        }
        Op::FromStrTruncate(s, _) | Op::From(s) => e(vec![Out::Unit], trunc(s, cap).into()),
        Op::TryFromIterator(v) => {
            let s = v.concat();
            if s.len() <= cap { e(vec![Out::Ok], s) } else { e(oob(), old) }
        }
        Op::FromIteratorTruncate(v) | Op::CollectStrs(v) => e(vec![Out::Unit], fit_strs(v, cap)),
        Op::TryFromChars(v) => {
            let s: String = v.iter().collect();
            if s.len() <= cap { e(vec![Out::Ok], s) } else { e(oob(), old) }
        }
        Op::FromCharsTruncate(v) | Op::CollectChars(v) => e(vec![Out::Unit], fit_chars(v.iter().copied(), cap)),
        Op::TryFromUtf16(v) => {
            let mut s = String::new();
            for r in char::decode_utf16(v.iter().copied()) {
                match r {
                    Err(_) => return e(vec![Out::Err(Error::Utf16)], old),
                    Ok(c) if s.len() + c.len_utf8() > cap => return e(oob(), old),
                    Ok(c) => s.push(c),
                }
            }
            e(vec![Out::Ok], s)
        }
        Op::FromUtf16Truncate(v) => {
            let mut s = String::new();
            for r in char::decode_utf16(v.iter().copied()) {
                match r {
                    Err(_) => return e(vec![Out::Err(Error::Utf16)], old),
                    Ok(c) if s.len() + c.len_utf8() > cap => break,
                    Ok(c) => s.push(c),
                }
            }
            e(vec![Out::Ok], s)
        }
        Op::FromUtf16LossyTruncate(v) => {
            e(vec![Out::Unit], fit_chars(char::decode_utf16(v.iter().copied()).map(|r| r.unwrap_or('\u{FFFD}')), cap))
        }
        Op::ExtendChars(v) | Op::ExtendCharRefs(v) => e(vec![Out::Unit], old + &fit_chars(v.iter().copied(), room)),
        Op::ExtendStrs(v) => e(vec![Out::Unit], old + &fit_strs(v, room)),
        Op::TryPushStr(s, _) => {
            if s.len() <= room { e(vec![Out::Ok], old + s) } else { e(oob(), old) }
        }
        Op::PushStrTruncate(s, _) => e(vec![Out::Unit], old + trunc(s, room)),
        Op::TryPush(c) => {
            if c.len_utf8() <= room { e(vec![Out::Ok], format!("{old}{c}")) } else { e(oob(), old) }
        }
        Op::WriteChar(c) => {
            if c.len_utf8() <= room { e(vec![Out::Ok], format!("{old}{c}")) } else { e(vec![Out::FmtErr], old) }
        }
        Op::WriteStr(s) | Op::WriteFmt(s) => {
            if s.len() <= room { e(vec![Out::Ok], old + s) } else { e(vec![Out::FmtErr], old) }
        }
        Op::Add(s) => e(vec![Out::Added((old.clone() + trunc(s, room)).into_bytes())], old),
        Op::Truncate(n) => {
            if *n >= t.len() {
                e(vec![Out::Ok], old)
            } else if t.is_char_boundary(*n) {
                e(vec![Out::Ok], t[..*n].into())
            } else {
                e(vec![Out::Err(Error::Utf8)], old)
            }
        }
        Op::Pop => {
            let mut s = old;
            let c = s.pop();
            e(vec![Out::Char(c)], s)
        }
        Op::Trim => e(vec![Out::Unit], t.trim().into()),
        Op::Remove(n) => {
            if *n >= t.len() {
                e(oob(), old)
            } else if !t.is_char_boundary(*n) {
                e(vec![Out::Err(Error::Utf8)], old)
            } else {
                let mut s = old;
                let c = s.remove(*n);
                e(vec![Out::Removed(c)], s)
            }
        }
        Op::Retain(p) => {
            let s = t.chars().enumerate().filter(|(n, c)| keep(*p, *n, *c)).map(|x| x.1).collect();
            e(vec![Out::Seen(t.chars().collect())], s)
        }
        Op::TryInsert(n, c) => insert(*n, c.encode_utf8(&mut [0; 4])),
        Op::TryInsertStr(n, s, _) => insert(*n, s),
        Op::InsertStrTruncate(n, s, _) => insert(*n, trunc(s, room)),
        Op::Clear => e(vec![Out::Unit], String::new()),
        Op::SplitOff(n) => match range(t, (Bound::Included(*n), Bound::Unbounded)) {
            Err(v) => e(errs(v), old),
            Ok(_) => e(vec![Out::Split(t[*n..].as_bytes().to_vec())], t[..*n].into()),
        },
        Op::Drain(b, _, ends) => match range(t, *b) {
            Err(v) => e(errs(v), old),
            Ok((x, y)) => {
                let d = &t[x..y];
                let (mut came, mut left) = (vec![], vec![]);
                let mut it = d.chars();
                for f in ends {
                    came.push(if *f { it.next() } else { it.next_back() });
                    left.push(it.as_str().as_bytes().to_vec());
                }
                e(vec![Out::Drained(d.as_bytes().to_vec(), came, left)], format!("{}{}", &t[..x], &t[y..]))
            }
        },
        Op::ReplaceRange(b, _, w) => {
            let (s, f) = (start_of(b.0) as i128, end_of(b.1, t.len()) as i128);
            let fits = t.len() as i128 - (f - s) + w.len() as i128 <= cap as i128;
            match range(t, *b) {
                Err(mut v) => {
                    if !fits {
                        v.push(Error::OutOfBounds)
                    }
                    e(errs(v), old)
                }
                Ok(_) if !fits => e(oob(), old),
                Ok((x, y)) => e(vec![Out::Ok], format!("{}{}{}", &t[..x], w, &t[y..])),
            }
        }
        Op::Upper(_) => e(vec![Out::Unit], t.to_ascii_uppercase()),
        Op::IndexMutLower(i) => match ix(t, *i) {
            None => e(vec![Out::Panic(String::new())], old),
            Some((a, b)) => e(vec![Out::Unit], format!("{}{}{}", &t[..a], t[a..b].to_ascii_lowercase(), &t[b..])),
        },
        Op::Copy | Op::Clone => e(vec![Out::Unit], old),
    }
}

/// the properties an operation's result speaks for
pub fn props(op: &Op) -> &'static [&'static str] {
    match op {
        Op::New | Op::Default => &["P22"],
        Op::TryFromStr(..) | Op::FromStr(..) | Op::TryFromIterator(..) | Op::TryFromChars(..) | Op::TryPushStr(..) | Op::TryPush(..)
        | Op::WriteStr(..) | Op::WriteChar(..) | Op::WriteFmt(..) => &["P02"],
        Op::FromStrTruncate(..) | Op::From(..) | Op::PushStrTruncate(..) | Op::Add(..) => &["P03"],
        Op::FromIteratorTruncate(..) | Op::FromCharsTruncate(..) | Op::CollectChars(..) | Op::CollectStrs(..) | Op::ExtendChars(..)
        | Op::ExtendCharRefs(..) | Op::ExtendStrs(..) => &["P04"],
        Op::TryFromUtf16(..) | Op::FromUtf16Truncate(..) | Op::FromUtf16LossyTruncate(..) => &["P05"],
        Op::ReplaceRange(..) => &["P06"],
        Op::TryInsert(..) | Op::TryInsertStr(..) | Op::InsertStrTruncate(..) => &["P07"],
        Op::Truncate(..) | Op::Pop | Op::Remove(..) | Op::Clear => &["P08"],
        Op::Trim | Op::Retain(..) => &["P09"],
        Op::SplitOff(..) | Op::Drain(..) => &["P10"],
        Op::Upper(..) => &["P22"],
        Op::IndexMutLower(..) => &["P16"],
        Op::Copy | Op::Clone => &["P22"],
    }
}
