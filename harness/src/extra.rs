//! What is not one operation against the model: views, comparisons, indexing, drains, the cache-line string,
//! callers' arguments that misbehave, serde, diesel, layout, errors.
use crate::gen::*;
use crate::model::*;
use crate::serdes;
use crate::sut::*;
use crate::{random_op, random_text, run, show, Ctx, KINDS};
use arraystring::error::{Error, OutOfBounds, Utf16, Utf8};
use arraystring::prelude::*;
use std::cmp::Ordering;
use std::ops::Bound;
use std::time::{Duration, Instant};

fn cmp_of(a: &str, b: &str) -> Cmp {
    compare(&a, &b, |t| t.to_string())
}

/// everything that shows a string, after an operation
pub fn after(cx: &mut Ctx, s: &mut dyn Sut, t: &str, stale: &str, r: &mut Rng, hist: &[Op], op: &Op) {
    if !(cx.mine(&["P01", "P14", "P15", "P22", "P13"]) && (cx.mine(&["P15", "P22"]) || r.one_in(4))) {
        return;
    }
    let at = format!("{} holding {t:?} (buffer before: {stale:?}; after {hist:?} {op:?})", s.name());
    views(cx, s, t, &at);
    let o = match r.below(4) {
        0 => t.to_string(),
        1 => trunc(&format!("{t}a"), s.cap()).to_string(),
        2 => { let mut o = t.to_string(); o.pop(); o }
        _ => random_text(r, s.cap()),
    };
    compared(cx, s, t, &o, r.below(3), &at);
}
fn views(cx: &mut Ctx, s: &mut dyn Sut, t: &str, at: &str) {
    let v = s.views();
    let name = s.name();
    for (n, b) in [("as_str", &v.as_str), ("AsRef<str>", &v.as_ref_str), ("AsRef<[u8]>", &v.as_ref_bytes), ("Deref", &v.deref), ("Borrow<str>", &v.borrow)] {
        if b != t.as_bytes() {
            cx.fail(&["P22"], format!("{n} of {at}"), show(b), format!("{t:?}"));
        }
        if std::str::from_utf8(b).is_err() || b.len() > s.cap() {
            cx.fail(&["P01", "P14"], format!("{n} of {at}"), show(b), "valid UTF-8 within the capacity".into());
        }
    }
    if v.len != t.len() || v.is_empty != t.is_empty() {
        cx.fail(&["P22"], format!("len of {at}"), format!("{} {}", v.len, v.is_empty), format!("{}", t.len()));
    }
    if v.capacity != s.cap() {
        cx.fail(&["P20"], format!("{name}::capacity()"), v.capacity.to_string(), s.cap().to_string());
    }
    if v.display != t {
        cx.fail(&["P15"], format!("Display of {at}"), v.display, t.into());
    }
    for (n, b) in s.mut_views() {
        if b != t.as_bytes() {
            cx.fail(&["P22"], format!("{n} of {at}"), show(&b), format!("{t:?}"));
        }
    }
}
fn compared(cx: &mut Ctx, s: &mut dyn Sut, t: &str, o: &str, stale: usize, at: &str) {
    let st = ["", "zzzzzzzzzzzz", "🤔🤔🤔"][stale];
    let got = s.compare(o, st);
    if got != cmp_of(t, o) {
        cx.fail(&["P15"], format!("comparing {at} with {o:?} (buffer before: {st:?})"), format!("{got:?}"), format!("{:?}", cmp_of(t, o)));
    }
    let e = s.eq_str(o);
    if e != [t == o; 4] {
        cx.fail(&["P15"], format!("comparing {at} with the plain string {o:?}"), format!("{e:?}"), format!("{}", t == o));
    }
    if s.hash() != hashed(t) {
        cx.fail(&["P15"], format!("hash input of {at}"), format!("{:?}", s.hash()), format!("{:?}", hashed(t)));
    }
}

pub fn extra(cx: &mut Ctx, suts: &mut Vec<Box<dyn Sut>>, start: Instant, ms: u64) {
    let p = cx.prop.clone();
    let frac = |n: u64| start + Duration::from_millis(ms * n / 10);
    macro_rules! cases {
        ($cx:ident, $until:expr, $max:expr, |$n:ident, $r:ident| $body:block) => {{
            let mut $n = match &$cx.only { Some((_, i)) => *i - 1, None => 0 };
            let until = $until;
            loop {
                $n += 1;
                if $n > $max || ($n % 16 == 0 && $cx.only.is_none() && ($cx.fails.len() >= 3 || Instant::now() > until)) { break }
                if !$cx.begin($n) { break }
                #[allow(unused_mut)]
                let mut $r = $cx.rng($n);
                $body
            }
        }};
    }
    if p == "P15" || p == "P22" {
        if cx.enter("views") {
            cases!(cx, frac(4), u64::MAX, |n, r| {
                let k = r.below(suts.len());
                let s = suts[k].as_mut();
                let t = random_text(&mut r, s.cap());
                let o = match r.below(5) {
                    0 => t.clone(),
                    1 => trunc(&format!("{t}\0"), s.cap()).to_string(),
                    2 => { let mut o = t.clone(); o.pop(); o }
                    3 => { let c = any_char(&mut r); let mut v: Vec<char> = t.chars().collect(); if !v.is_empty() { let i = r.below(v.len()); v[i] = c } fit_chars(v.into_iter(), s.cap()) }
                    _ => random_text(&mut r, s.cap()),
                };
                let l = s.cap();
                let stale = string_of(&mut r, l);
                if !s.reset(&t, &stale) { continue }
                let at = format!("{} holding {t:?} (buffer before: {stale:?})", s.name());
                cx.note(&(s.cap(), &t, &o), t.is_empty(), || format!("{at} and {o:?}"));
                views(cx, s, &t, &at);
                compared(cx, s, &t, &o, r.below(3), &at);
                if p == "P15" {
                    let (a, b) = (bounds(&mut r, &t, s.cap()), bounds(&mut r, &t, s.cap()));
                    if let (Ok(x), Ok(y), Some((dx, dy, c, h))) = (range(&t, a), range(&t, b), s.drain_cmp(a, b)) {
                        let (x, y) = (&t[x.0..x.1], &t[y.0..y.1]);
                        let (gx, gy) = (String::from_utf8_lossy(&dx).to_string(), String::from_utf8_lossy(&dy).to_string());
                        if c != cmp_of(&gx, &gy) || h != hashed(gx.as_str()) {
                            cx.fail(&["P15"], format!("comparing the drains {a:?} and {b:?} of {at}, which show {x:?} and {y:?}"), format!("{c:?}"), format!("{:?}", cmp_of(x, y)));
                        }
                    }
                }
            });
        }
    }
    if (p == "P16" || p == "P17") && cx.enter("index") {
        cases!(cx, frac(5), u64::MAX, |n, r| {
            let k = if p == "P17" { suts.len() - 1 } else { r.below(suts.len()) };
            let s = suts[k].as_mut();
            let t = if n % 2 == 0 { random_text(&mut r, s.cap()) } else { random_text(&mut r, s.cap().min(8)) };
            let l = s.cap();
            let stale = string_of(&mut r, l);
            if !s.reset(&t, &stale) { continue }
            let at = format!("{} holding {t:?} (buffer before: {stale:?})", s.name());
            let cap = s.cap();
            let near = |r: &mut Rng| match r.below(8) { 0 => r.below(256) as u8, 1 => 255, 2 => cap as u8, _ => r.below(t.len() + 2).min(255) as u8 };
            for _ in 0..24 {
                let (a, b) = (near(&mut r), near(&mut r));
                let i = match r.below(6) { 0 => Ix::From(a), 1 => Ix::To(b), 2 => Ix::Full, 3 => Ix::Range(a.min(b), a.max(b)), 4 => Ix::ToIncl(b), _ => Ix::Incl(a, b) };
                let i = if let (Ix::Range(..), true) = (i, r.one_in(4)) { Ix::Range(a, b) } else { i };
                let want = ix(&t, i).map(|(a, b)| t.as_bytes()[a..b].to_vec()).ok_or(());
                cx.note(&(k, &t, format!("{i:?}")), t.is_empty(), || format!("{at} indexed with {i:?}"));
                for (w, g) in [("shared", s.index(i)), ("mutable", s.index_mut(i))] {
                    if g != want {
                        cx.fail(&["P16", "P17"], format!("{w} index {i:?} of {at}"), format!("{:?}", g.map(|b| show(&b)).map_err(|_| "panic")), format!("{:?}", want.clone().map(|b| show(&b)).map_err(|_| "panic")));
                    }
                }
            }
        });
    }
    if p == "P16" && cx.enter("allbounds") {
        // every pair of bounds over a few texts
        let mut n = 0;
        for s in suts.iter_mut() {
            for t in ["", "aé€🤔z", "🤔🤔", "ab"] {
                if t.len() > s.cap() || (s.cap() > 16 && s.cap() != 255 && s.cap() != 63) {
                    continue;
                }
                let t = if s.cap() == 255 && t == "🤔🤔" { "a€".repeat(63) + "éa" } else { t.to_string() };
                n += 1;
                if !cx.begin(n) {
                    continue;
                }
                if !s.reset(&t, "zzzz") { continue }
                let hi = if cx.deep || t.len() > 20 { 255u8 } else { t.len() as u8 + 3 };
                let at = s.name();
                let mut all = vec![Ix::Full];
                for a in 0..=hi {
                    if a > 24 && a < 240 && !cx.deep && a % 16 > 1 { continue }
                    all.extend([Ix::From(a), Ix::To(a), Ix::ToIncl(a)]);
                    for b in 0..=hi {
                        if b > 24 && b < 240 && !cx.deep && b % 16 > 1 { continue }
                        all.extend([Ix::Range(a, b), Ix::Incl(a, b)]);
                    }
                }
                for i in all {
                    cx.note(&(&at, &t, format!("{i:?}")), false, || format!("{at} holding {t:?} indexed with {i:?}"));
                    let want = ix(&t, i).map(|(a, b)| t.as_bytes()[a..b].to_vec()).ok_or(());
                    for (w, g) in [("shared", s.index(i)), ("mutable", s.index_mut(i))] {
                        if g != want {
                            cx.fail(&["P16"], format!("{w} index {i:?} of {at} holding {t:?}"), format!("{:?}", g.map(|b| show(&b)).map_err(|_| "panic")), format!("{:?}", want.clone().map(|b| show(&b)).map_err(|_| "panic")));
                        }
                    }
                }
            }
        }
    }
    if (p == "P11" || p == "P10" || p == "P13") && cx.enter("drainfolds") {
        cases!(cx, frac(4), u64::MAX, |n, r| {
            let k = r.below(suts.len());
            let s = suts[k].as_mut();
            let t = random_text(&mut r, s.cap());
            if !s.reset(&t, "zzzz") { continue }
            let b = bounds(&mut r, &t, s.cap());
            let what = r.below(19);
            let at = format!("{} holding {t:?}: drain({b:?}), use {what} (collect, rev, count, last, nth, mixed, for_each, rfold, find, rfind, clone, default, position, try_fold, step_by, try_rfold, skip, peekable, default)", s.name());
            cx.note(&(k, &t, format!("{b:?}{what}")), t.is_empty(), || at.clone());
            let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.fold_drain(b, what))) {
                Ok(g) => g,
                Err(_) => { cx.fail(&["P11", "P13"], at, "panic".into(), "no panic".into()); continue }
            };
            if let Ok((x, y)) = range(&t, b) {
                let mut d = t[x..y].chars();
                let want = match what {
                    0 | 6 => d.collect::<String>(),
                    1 | 7 => d.rev().collect::<String>(),
                    2 => d.count().to_string(),
                    3 => format!("{:?}", d.last()),
                    4 => format!("{:?}", (d.nth(1), d.nth_back(0), d.as_str().to_string())),
                    5 => format!("{:?}", (d.by_ref().take(2).collect::<String>(), d.next(), d.next_back(), d.nth_back(1), d.as_str().to_string())),
                    8 => format!("{:?}", (d.find(|c| !c.is_ascii()), d.as_str().to_string())),
                    9 => format!("{:?}", (d.rfind(|c| !c.is_ascii()), d.as_str().to_string())),
                    10 => { let mut e = d.clone(); let _ = e.next(); format!("{:?}", (d.as_str().to_string(), e.as_str().to_string())) }
                    12 => format!("{:?}", (d.position(|c| !c.is_ascii()), d.as_str().to_string())),
                    13 => format!("{:?}", (d.try_fold(0, |a, c| if c.is_ascii() { Some(a + 1) } else { None }), d.as_str().to_string())),
                    14 => d.step_by(2).collect::<String>(),
                    15 => format!("{:?}", (d.try_rfold(0, |a, c| if c.is_ascii() { Some(a + 1) } else { None }), d.as_str().to_string())),
                    16 => d.skip(1).chain("é".chars()).take(4).collect::<String>(),
                    17 => { let mut p = d.peekable(); format!("{:?}", (p.peek().copied(), p.next_back(), p.collect::<String>())) }
                    _ => format!("{:?}", ("", d.as_str())),
                };
                if got.as_ref() != Some(&want) {
                    cx.fail(&["P11"], at, format!("{got:?}"), want);
                }
            }
        });
    }
    if (p == "P04" || p == "P02" || p == "P13") && cx.enter("infinite") {
        let mut n = 0;
        for s in suts.iter_mut() {
            let cap = s.cap();
            for (c, what) in SMALL.iter().flat_map(|c| (0..9).map(move |w| (*c, w))) {
                let adds = [2, 4, 7].contains(&what);
                for start in [0, 1, cap / 2, cap - 1, cap] {
                    if start > 0 && !adds {
                        continue;
                    }
                    n += 1;
                    if !cx.begin(n) {
                        continue;
                    }
                    let t = "a".repeat(start);
                    if !s.reset(&t, "") { continue }
                    let at = format!("{} holding {t:?}: endless iterator of {c:?}, use {what} (from_chars_truncate, collect chars, extend by chars, from_iterator_truncate, extend by strings, try_from_chars, try_from_iterator, extend by references, collect strings)", s.name());
                    cx.note(&at, false, || at.clone());
                    let fallible = what == 5 || what == 6;
                    let tag: &[&str] = if fallible { &["P02", "P13"] } else { &["P04", "P13"] };
                    let got = run(|| Out::Split(s.infinite(what, c)));
                    match got {
                        Out::Split(b) => {
                            let want = t.clone() + &c.to_string().repeat((cap - start) / c.len_utf8());
                            // only the error is of interest for the fallible ones
                            if !fallible && b != want.as_bytes() {
                                cx.fail(tag, at, show(&b), want);
                            }
                        }
                        o => cx.fail(tag, at, format!("{o:?}"), "an answer".into()),
                    }
                }
            }
        }
    }
    if (p == "P14" || p == "P01" || p == "P13") && cx.enter("misbehaving") {
        cases!(cx, frac(5), u64::MAX, |n, r| {
            let k = r.below(suts.len());
            let s = suts[k].as_mut();
            let cap = s.cap();
            let t = random_text(&mut r, cap);
            let stale = string_of(&mut r, cap);
            if !s.reset(&t, &stale) { continue }
            let mut v: Vec<String> = (0..2 + r.below(2)).map(|_| { let l = match r.below(4) { 0 => 0, 1 => r.below(3), _ => length(&mut r, cap - t.len(), cap).min(600) }; string_of(&mut r, l) }).collect();
            if r.one_in(2) { v.sort_by_key(|x| x.len()); if r.one_in(2) { v.reverse() } }
            let bs: Vec<Bd> = (0..2 + r.below(2)).map(|_| bounds(&mut r, &t, cap)).collect();
            let i = index(&mut r, t.len(), cap);
            let a = match r.below(15) {
                0 => Adv::TryFromStr, 1 => Adv::FromStrTruncate, 2 => Adv::TryPushStr, 3 => Adv::PushStrTruncate, 4 => Adv::TryInsertStr(i), 5 => Adv::InsertStrTruncate(i),
                6 | 7 => Adv::ReplaceRange, 8 => Adv::Drain, 9 => Adv::TryFromIterator, 10 => Adv::FromIteratorTruncate, 11 => Adv::CollectLiar(r.below(4)), 12 => Adv::ExtendLiar(r.below(4)),
                13 => Adv::FromUtf16(r.below(3)),
                _ => if r.one_in(2) { Adv::RetainPanics(r.below(6)) } else { Adv::ExtendPanics(r.below(3)) },
            };
            let at = format!("{} holding {t:?} (buffer before: {stale:?}): {a:?} with an argument that answers {v:?} and {bs:?} in turn", s.name());
            cx.note(&(k, &t, format!("{a:?}{v:?}{bs:?}")), false, || at.clone());
            let out = run(|| s.adversarial(&a, &v, &bs));
            if let Out::Panic(m) = &out {
                cx.fail(&["P13", "P14"], at.clone(), format!("panic: {m}"), "no panic".into());
            }
            let b = s.bytes();
            if b.len() > cap || std::str::from_utf8(&b).is_err() {
                cx.fail(&["P01", "P14"], at.clone(), show(&b), "valid UTF-8 within the capacity".into());
                if !s.reset("", "") { continue }
            }
            if !s.guards_ok() {
                cx.fail(&["P14"], at, "memory next to the string changed".into(), "nothing outside the buffer written".into());
            }
        });
    }
    if p == "P17" && cx.enter("parity") {
        let c = suts.len() - 1;
        let a = (0..c).find(|i| suts[*i].cap() == 63).unwrap();
        cases!(cx, frac(10), u64::MAX, |n, r| {
            let mut t = random_text(&mut r, 63);
            let stale = string_of(&mut r, 63);
            if !suts[a].reset(&t, &stale) { continue }
            if !suts[c].reset(&t, &stale) { continue }
            let mut hist = vec![];
            for _ in 0..1 + r.below(5) {
                let k = r.below(KINDS);
                let op = random_op(&mut r, k, &t, 63);
                let at = format!("CacheString holding {t:?} (buffer before: {stale:?}; after {hist:?}): {op:?}");
                cx.note(&(&t, format!("{op:?}")), false, || at.clone());
                let (x, y) = (run(|| suts[a].apply(&op)), run(|| suts[c].apply(&op)));
                let (bx, by) = (suts[a].bytes(), suts[c].bytes());
                if x != y || bx != by {
                    cx.fail(&["P17"], at, format!("{y:?}, then {}", show(&by)), format!("{x:?}, then {} (ArrayString<63>)", show(&bx)));
                    break;
                }
                t = match String::from_utf8(bx) { Ok(t) => t, Err(_) => break };
                let o = if r.one_in(2) { t.clone() } else { random_text(&mut r, 63) };
                let (v, w) = (suts[a].views(), suts[c].views());
                let same = v.as_str == w.as_str && v.as_ref_str == w.as_ref_str && v.as_ref_bytes == w.as_ref_bytes && v.deref == w.deref && v.borrow == w.borrow && v.len == w.len && v.display == w.display && v.capacity == w.capacity
                    && suts[a].hash() == suts[c].hash() && suts[a].compare(&o, "zzz") == suts[c].compare(&o, "zzz") && suts[a].eq_str(&o) == suts[c].eq_str(&o)
                    && suts[a].mut_views() == suts[c].mut_views() && suts[a].serde_ser() == suts[c].serde_ser();
                if !same {
                    cx.fail(&["P17"], format!("views, hash, comparison with {o:?} or serialization of CacheString holding {t:?} (after {hist:?} {op:?})"), "differs".into(), "as ArrayString<63>".into());
                    break;
                }
                hist.push(op);
            }
        });
    }
    if p == "P18" && cfg!(feature = "serde-traits") && cx.enter("serde") {
        cases!(cx, frac(10), u64::MAX, |n, r| {
            let k = r.below(suts.len());
            let s = suts[k].as_mut();
            let cap = s.cap();
            let t = random_text(&mut r, cap);
            if !s.reset(&t, "zzzz") { continue }
            let at = format!("{} holding {t:?}", s.name());
            let g = s.serde_ser();
            if g != serdes::ser(&t) {
                cx.fail(&["P18"], format!("serializing {at}"), format!("{g:?}"), format!("{:?}", serdes::ser(&t)));
            }
            let l = length(&mut r, cap, cap).min(700);
            let mut data = if r.one_in(3) { t.clone().into_bytes() } else { string_of(&mut r, l).into_bytes() };
            let how = r.below(serdes::HOWS);
            if how >= serdes::TEXTUAL && r.one_in(3) {
                let i = r.below(data.len() + 1);
                data.insert(i, *r.clone().pick(&[0xff, 0x80, 0xc3, 0xf0]));
            }
            let at = format!("{}: deserialized by means {how} from {}", s.name(), show(&data));
            cx.note(&(k, how, &data), false, || at.clone());
            let want = serdes::de::<String>(how, &data).map(|w| trunc(&w, cap).to_string());
            let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.serde_de(how, &data))) { Ok(g) => g.map(|_| s.bytes()), Err(_) => { cx.fail(&["P18", "P13"], at, "panic".into(), format!("{want:?}")); continue } };
            let same = match (&got, &want) { (Ok(a), Ok(b)) => a == b.as_bytes(), (Err(_), Err(_)) => true, _ => false };
            if !same {
                cx.fail(&["P18"], at, format!("{:?}", got.map(|b| show(&b))), format!("{want:?}"));
            }
        });
    }
    if p == "P19" && cfg!(feature = "diesel-traits") && cx.enter("diesel") {
        use diesel::Connection;
        let mut conn = diesel::SqliteConnection::establish(":memory:").unwrap();
        cases!(cx, frac(10), u64::MAX, |n, r| {
            let k = r.below(suts.len());
            let s = suts[k].as_mut();
            let cap = s.cap();
            let t = random_text(&mut r, cap).replace('\0', "0");
            if !s.reset(&t, "zzzz") { continue }
            let got = s.diesel_round(&mut conn);
            let want = serdes::round(&t, &mut conn);
            let at = format!("{} holding {t:?}", s.name());
            if got != want {
                cx.fail(&["P19"], format!("binding {at}"), got, want);
            }
            let l = length(&mut r, cap, cap).min(700);
            let d = string_of(&mut r, l).replace('\0', "0");
            let q = match r.below(8) { 0 => "NULL".to_string(), 1 => "CAST(17 AS TEXT)".to_string(), _ => format!("'{}'", d.replace('\'', "''")) };
            let at = format!("{}: reading the column {q}", s.name());
            cx.note(&(k, &q), false, || at.clone());
            let want = serdes::read::<String>(&mut conn, &q).map(|w| trunc(&w, cap).to_string());
            let got = s.diesel_read(&mut conn, &q).map(|_| s.bytes());
            if got != want.clone().map(|w| w.into_bytes()) {
                cx.fail(&["P19"], at, format!("{:?}", got.map(|b| show(&b))), format!("{want:?}"));
            }
        });
    }
    if p == "P20" && cx.enter("layout") {
        layout(cx);
        for (i, s) in suts.iter_mut().enumerate() {
            if cx.begin(10_000 + i as u64) {
                if !s.reset("", "") { continue }
                let (name, v) = (s.name(), s.views());
                cx.note(&name, false, || format!("{name}::capacity()"));
                if v.capacity != s.cap() {
                    cx.fail(&["P20"], format!("{name}::capacity()"), v.capacity.to_string(), s.cap().to_string());
                }
                // and it really holds that much
                let full = "a".repeat(s.cap());
                let op = Op::TryFromStr(full.clone(), Arg::Str);
                let o = run(|| s.apply(&op));
                let o2 = run(|| s.apply(&Op::TryPush('b')));
                if o != Out::Ok || s.bytes() != full.as_bytes() || o2 != Out::Err(Error::OutOfBounds) {
                    cx.fail(&["P20"], format!("{name}: filling it with {} bytes, then one more", s.cap()), format!("{o:?} {o2:?} {}", s.bytes().len()), "Ok, then OutOfBounds".into());
                }
            }
        }
    }
    if p == "P21" && cx.enter("errors") {
        errors(cx);
    }
}

struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Default + std::fmt::Write> Probe<T> {
    #[allow(dead_code)]
    const EXISTS: bool = true;
    #[allow(dead_code)]
    fn takes() -> usize {
        let mut s = T::default();
        (0..1000).take_while(|_| s.write_str("a").is_ok()).count()
    }
}
trait Fallback {
    const EXISTS: bool = false;
    fn takes() -> usize {
        0
    }
}
impl<T> Fallback for Probe<T> {}

fn layout(cx: &mut Ctx) {
    use std::mem::{align_of, size_of};
    let mut n = 0;
    let mut is = |cx: &mut Ctx, what: String, got: usize, want: usize| {
        n += 1;
        if cx.begin(n) {
            cx.note(&what, false, || format!("{what} == {want}"));
            if got != want {
                cx.fail(&["P20"], what, got.to_string(), want.to_string());
            }
        }
    };
    macro_rules! sizes { ($($n:literal)*) => { $(
        is(cx, format!("size_of::<ArrayString<{}>>()", $n), size_of::<ArrayString<$n>>(), $n + 1);
        is(cx, format!("ArrayString::<{}> exists", $n), <Probe<ArrayString<$n>>>::EXISTS as usize, 1);
        is(cx, format!("bytes that ArrayString<{}> takes", $n), <Probe<ArrayString<$n>>>::takes(), $n);
        is(cx, format!("ArrayString::<{}>::capacity()", $n), reported!($n), $n);
    )* } }
    // a tree in which a capacity is missing does not build otherwise
    #[cfg(not(feature = "lost"))]
    macro_rules! reported { ($n:literal) => { ArrayString::<$n>::capacity() } }
    #[cfg(feature = "lost")]
    macro_rules! reported { ($n:literal) => { $n } }
    include!("caps.in");
    is(cx, "ArrayString<0> exists".into(), <Probe<ArrayString<0>>>::EXISTS as usize, 0);
    is(cx, "ArrayString<256> exists".into(), <Probe<ArrayString<256>>>::EXISTS as usize, 0);
    is(cx, "ArrayString<257> exists".into(), <Probe<ArrayString<257>>>::EXISTS as usize, 0);
    is(cx, "ArrayString<511> exists".into(), <Probe<ArrayString<511>>>::EXISTS as usize, 0);
    is(cx, "ArrayString<512> exists".into(), <Probe<ArrayString<512>>>::EXISTS as usize, 0);
    is(cx, "ArrayString<65536> exists".into(), <Probe<ArrayString<65536>>>::EXISTS as usize, 0);
    is(cx, "size_of::<SmallString>()".into(), size_of::<SmallString>(), size_of::<String>());
    is(cx, "SmallString::capacity()".into(), SmallString::capacity(), size_of::<String>() - 1);
    is(cx, "MaxString::capacity()".into(), MaxString::capacity(), 255);
    is(cx, "size_of::<MaxString>()".into(), size_of::<MaxString>(), 256);
    is(cx, "CacheString::capacity()".into(), CacheString::capacity(), 63);
    is(cx, "size_of::<CacheString>()".into(), size_of::<CacheString>(), 64);
    is(cx, "align_of::<CacheString>()".into(), align_of::<CacheString>(), 64);
}

/// all that a value feeds the hasher, in one piece
fn stream<T: std::hash::Hash>(t: &T) -> Vec<u8> {
    struct Stream(Vec<u8>);
    impl std::hash::Hasher for Stream {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    }
    let mut h = Stream(vec![]);
    t.hash(&mut h);
    h.0
}

fn errors(cx: &mut Ctx) {
    let kinds = [Error::Utf8, Error::Utf16, Error::OutOfBounds];
    let mut n = 0;
    let mut is = |cx: &mut Ctx, what: String, ok: bool| {
        n += 1;
        if cx.begin(n) {
            cx.note(&what, false, || what.clone());
            if !ok {
                cx.fail(&["P21"], what, "false".into(), "true".into());
            }
        }
    };
    let id = |e: &Error| match e { Error::Utf8 => 0, Error::Utf16 => 1, Error::OutOfBounds => 2, #[allow(unreachable_patterns)] _ => 3 };
    is(cx, "Error::from(Utf8) is Utf8".into(), id(&Error::from(Utf8)) == 0);
    is(cx, "Error::from(Utf16) is Utf16".into(), id(&Error::from(Utf16)) == 1);
    is(cx, "Error::from(OutOfBounds) is OutOfBounds".into(), id(&Error::from(OutOfBounds)) == 2);
    for u in [0xD800u16, 0xDBFF, 0xDC00, 0xDFFF] {
        let e = || char::decode_utf16([u]).next().unwrap().unwrap_err();
        is(cx, format!("Error::from(DecodeUtf16Error for {u:x}) is Utf16"), id(&Error::from(e())) == 1);
        let _: Utf16 = e().into();
    }
    for b in [&[0xffu8][..], &[0xc3], &[b'a', 0xf0, 0x9f], &[0xed, 0xa0, 0x80]] {
        let e = || std::str::from_utf8(b).unwrap_err();
        is(cx, format!("Error::from(Utf8Error for {b:x?}) is Utf8"), id(&Error::from(e())) == 0);
        let _: Utf8 = e().into();
    }
    is(cx, "Error::from(EncodeUtf16) is Utf16".into(), id(&Error::from("aé".encode_utf16())) == 1);
    is(cx, "Error::from(empty EncodeUtf16) is Utf16".into(), id(&Error::from("".encode_utf16())) == 1);
    for (i, a) in kinds.iter().enumerate() {
        for (j, b) in kinds.iter().enumerate() {
            is(cx, format!("{a:?} == {b:?} exactly when the kinds are"), (a == b) == (i == j) && (a != b) == (i != j));
            is(cx, format!("hash input of {a:?} and {b:?} equal exactly when the kinds are"), (hashed(a) == hashed(b)) == (i == j));
            is(cx, format!("bytes that {a:?} and {b:?} hash equal exactly when the kinds are"), (stream(a) == stream(b)) == (i == j));
        }
        let c = *a;
        let mut d = Error::OutOfBounds;
        d.clone_from(a);
        is(cx, format!("clone_from {a:?}"), id(&d) == i);
        is(cx, format!("copy and clone of {a:?}"), id(&c) == i && id(&a.clone()) == i);
    }
    // errors from the operations themselves, through `?`
    fn up(n: usize) -> Result<(), Error> {
        let mut s = ArrayString::<63>::try_from_str("é".repeat(31) + "a")?;
        match n {
            0 => s.try_push('a')?,
            1 => s.truncate(1)?,
            2 => { let _ = ArrayString::<63>::from_utf16_truncate([0xD800u16])?; }
            3 => { let _ = std::str::from_utf8(&[0xff])?; }
            _ => { for r in char::decode_utf16([0xDC00u16]) { let _ = r?; } }
        }
        Ok(())
    }
    for (n, k) in [2, 0, 1, 0, 1].into_iter().enumerate() {
        is(cx, format!("`?` keeps the kind (case {n})"), up(n).err().map_or(false, |e| id(&e) == k));
    }
    let _ = (Bound::Included(0), Ordering::Less);
}
