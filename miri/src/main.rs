//! Runs every operation with unsafe code in it under Miri, on small capacities, texts and arguments, including
//! arguments that answer differently each time.  Miri stops at the first undefined behaviour; the number of the
//! last mark written is at most 64 cases back; `--from N` goes on from there and says what every case is.
#![allow(unused_assignments, unused_variables)]
use arraystring::{ArrayString, CacheString};
use std::cell::Cell;
use std::io::Write;
use std::ops::{Bound, RangeBounds};
use std::time::{Duration, Instant};

struct Liar<'a>([&'a str; 2], Cell<usize>);
impl AsRef<str> for Liar<'_> {
    fn as_ref(&self) -> &str {
        self.1.set(self.1.get() + 1);
        self.0[self.1.get() % 2]
    }
}
struct LiarRange([(usize, usize); 2], Cell<usize>);
impl LiarRange {
    fn turn(&self) -> &(usize, usize) {
        self.1.set(self.1.get() + 1);
        &self.0[self.1.get() / 2 % 2]
    }
}
impl RangeBounds<usize> for LiarRange {
    fn start_bound(&self) -> Bound<&usize> {
        Bound::Included(&self.turn().0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        Bound::Excluded(&self.turn().1)
    }
}

const TEXTS: &[&str] = &[
    "", "a", "é", "ab", " a", "a ", "€", "aé", "éa", "abc", " é ", "🤔", "€a", "a€", "éé", "abcd", "  a ", "🤔a", "a🤔", "€é", "é€", "abcde", "abcdefg", "€€a", "🤔é ",
    "abcdefgh", "🤔🤔", "ééé€", "  €  ", "abcdefghi", "🤔€é", "aaaaaaaaaaaaaaaa",
];

struct Cx {
    n: u64,
    shard: u64,
    of: u64,
    only: Option<u64>,
    from: Option<u64>,
    end: Instant,
    done: u64,
    unit: u64,
    thin: u64,
    cut: bool,
}
impl Cx {
    fn go(&mut self, what: &dyn Fn() -> String) -> bool {
        self.n += 1;
        if let Some(o) = self.only {
            if o != self.n {
                return false;
            }
            println!("CASE {} {}", self.n, what());
            let _ = std::io::stdout().flush();
        } else if self.n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (self.thin - 1) != 0 || self.n < self.from.unwrap_or(0) {
            return false;
        }
        // writing is slow here: a mark now and then, or every case of the stretch that is gone through again
        if self.from.is_some() {
            println!("CASE {} {}", self.n, what());
            let _ = std::io::stdout().flush();
        } else if self.done % 64 == 0 {
            println!("AT {}", self.n);
            let _ = std::io::stdout().flush();
        }
        self.done += 1;
        true
    }
}

/// the text is looked at byte by byte, so that anything unreadable or invalid in it is touched
fn look(s: &str) -> usize {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        println!("INVALID text that is not UTF-8: {:?}", s.as_bytes());
        std::process::exit(3);
    }
    s.len()
}


macro_rules! for_type {
    ($cx:ident, $round:ident, $T:ty, $name:expr, $cap:expr) => {{
        let cap: usize = $cap;
        let stale = ["", "zzzzzzzzzzzzzzzz", "🤔🤔"][$round % 3];
        let texts: Vec<&str> = TEXTS.iter().copied().filter(|t| t.len() <= cap && (cap < 9 || t.len() < 3 || t.len() > 12)).collect();
        let args: Vec<&str> = TEXTS.iter().copied().filter(|t| t.len() <= cap + 4).collect();
        let make = |t: &str| -> $T {
            let mut s = <$T>::from_str_truncate(stale);
            s.clear();
            s.push_str_truncate(t);
            s
        };
        for &t in &texts {
            // one text of one type is one unit of work, numbered apart so that a case has the same number in every shard
            $cx.unit += 1;
            $cx.n = $cx.unit * 100_000;
            if $cx.only.map_or($cx.unit % $cx.of != $cx.shard, |o| o / 100_000 != $cx.unit) || $cx.from.map_or(false, |f| f / 100_000 > $cx.unit) {
                continue;
            }
            if Instant::now() > $cx.end {
                $cx.cut = true;
                break;
            }
            let idx: Vec<usize> = (0..=t.len() + 1).chain([usize::MAX]).collect();
            macro_rules! case {
                ($d:expr, $s:ident, $e:expr) => {
                    if $cx.go(&|| format!("{} holding {t:?} (pushed after from_str_truncate({stale:?}) and clear): {}", $name, $d)) {
                        // a panic is not what this looks for
                        let _ = std::panic::catch_unwind(|| {
                            #[allow(unused_mut)]
                            let mut $s = make(t);
                            let _ = $e;
                            look($s.as_ref());
                        });
                    }
                };
            }
            case!("as_str", s, look(s.as_str()));
            case!("as_mut_str", s, { s.as_mut_str().make_ascii_uppercase() });
            case!("pop", s, while s.pop().is_some() {});
            case!("trim", s, s.trim());
            case!("retain(not ascii)", s, s.retain(|c| !c.is_ascii()));
            case!("retain(ascii)", s, s.retain(|c| c.is_ascii()));
            case!("drain(..)", s, if let Ok(mut d) = s.drain(..) { while d.next().is_some() && d.next_back().is_some() { look(d.as_str()); } });
            for &i in &idx {
                case!(format!("truncate({i})"), s, s.truncate(i));
                case!(format!("remove({i})"), s, s.remove(i));
                case!(format!("split_off({i})"), s, s.split_off(i).map(|x| look(x.as_ref())));
                for c in ['a', 'é', '🤔'] {
                    case!(format!("try_insert({i}, {c:?})"), s, s.try_insert(i, c));
                }
                for &j in &idx {
                    if j != usize::MAX || i < 3 {
                        case!(format!("drain({i}..{j})"), s, s.drain(i..j).map(|x| look(x.as_str())));
                        case!(format!("drain({i}..={j})"), s, s.drain(i..=j).map(|x| look(x.as_str())));
                        case!(format!("drain((Excluded({i}), Included({j})))"), s, s.drain((Bound::Excluded(i), Bound::Included(j))).map(|x| look(x.as_str())));
                    }
                }
            }
            for (k, &w) in args.iter().enumerate() {
                case!(format!("try_push_str({w:?})"), s, s.try_push_str(w));
                case!(format!("push_str_truncate({w:?})"), s, s.push_str_truncate(w));
                case!(format!("from_str_truncate({w:?})"), s, { s = <$T>::from_str_truncate(w) });
                case!(format!("from_utf16_lossy_truncate({w:?})"), s, { s = <$T>::from_utf16_lossy_truncate(w.encode_utf16().collect::<Vec<_>>()) });
                let v = TEXTS[(k * 7 + t.len() * 3 + $round) % TEXTS.len()];
                case!(format!("try_push_str of an argument that answers {w:?} and {v:?} in turn"), s, s.try_push_str(Liar([w, v], Cell::new(0))));
                case!(format!("push_str_truncate of an argument that answers {w:?} and {v:?} in turn"), s, s.push_str_truncate(Liar([w, v], Cell::new(0))));
                case!(format!("try_from_iterator of an item that answers {w:?} and {v:?} in turn"), s, <$T>::try_from_iterator([Liar([w, v], Cell::new(0))]).map(|x| s = x));
                case!(format!("from_iterator_truncate of an item that answers {w:?} and {v:?} in turn"), s, { s = <$T>::from_iterator_truncate([Liar([w, v], Cell::new(0))]) });
                for &i in &idx {
                    case!(format!("try_insert_str({i}, {w:?})"), s, s.try_insert_str(i, w));
                    case!(format!("insert_str_truncate({i}, {w:?})"), s, s.insert_str_truncate(i, w));
                    if i > t.len() {
                        continue;
                    }
                    case!(format!("try_insert_str({i}) of an argument that answers {w:?} and {v:?} in turn"), s, s.try_insert_str(i, Liar([w, v], Cell::new(0))));
                    for &j in idx.iter().filter(|&&j| j >= i && j <= t.len() + 1) {
                        if cap > 5 && (i + j + k + $round) % 3 != 0 {
                            continue;
                        }
                        case!(format!("replace_range({i}..{j}, {w:?})"), s, s.replace_range(i..j, w));
                        case!(format!("replace_range({i}..{j}) with an argument that answers {w:?} and {v:?} in turn"), s, s.replace_range(i..j, Liar([w, v], Cell::new(0))));
                        let o = ((i + k) % (t.len() + 2), (j + k) % (t.len() + 2));
                        case!(format!("replace_range of a range that answers {i}..{j} and {}..{} in turn, with {w:?}", o.0, o.1), s, s.replace_range(LiarRange([(i, j), o], Cell::new(1)), w));
                        if k == 0 {
                            case!(format!("drain of a range that answers {i}..{j} and {}..{} in turn", o.0, o.1), s, s.drain(LiarRange([(i, j), o], Cell::new(1))).map(|x| look(x.as_str())));
                        }
                    }
                }
            }
        }
    }};
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].parse::<u64>().unwrap());
    let mut cx = Cx {
        n: 0,
        shard: opt("--shard").unwrap_or(0),
        of: opt("--of").unwrap_or(1),
        only: opt("--only"),
        from: opt("--from"),
        end: Instant::now() + Duration::from_millis(opt("--ms").unwrap_or(20000)),
        done: 0,
        unit: 0,
        thin: opt("--thin").unwrap_or(1).next_power_of_two(),
        cut: false,
    };
    std::panic::set_hook(Box::new(|_| {}));
    for round in 0..3usize {
        for_type!(cx, round, ArrayString<1>, "ArrayString<1>", 1);
        for_type!(cx, round, ArrayString<2>, "ArrayString<2>", 2);
        for_type!(cx, round, ArrayString<3>, "ArrayString<3>", 3);
        for_type!(cx, round, ArrayString<4>, "ArrayString<4>", 4);
        for_type!(cx, round, ArrayString<8>, "ArrayString<8>", 8);
        for_type!(cx, round, ArrayString<16>, "ArrayString<16>", 16);
        if round == 0 {
            for_type!(cx, round, CacheString, "CacheString", 63);
        }
    }
    println!("{{\"cases\": {}, \"units\": {}, \"complete\": {}}}", cx.done, cx.unit, !cx.cut);
}
