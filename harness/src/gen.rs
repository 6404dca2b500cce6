//! Deterministic values: characters of every encoded length, strings around a length, indices, ranges.
use std::ops::Bound;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// values that the source text mentions (literals, and their neighbours)
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub chars: Vec<char>,
    pub strs: Vec<String>,
}
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn load_dict(text: &str) {
    let mut d = Dict::default();
    for l in text.lines() {
        match l.split_at(2) {
            ("i ", x) => {
                let x: usize = x.parse().unwrap();
                d.ints.extend([x.saturating_sub(1), x, x.saturating_add(1)])
            }
            ("c ", x) => d.chars.extend(char::from_u32(x.parse().unwrap())),
            ("s ", x) => d.strs.extend(serde_json::from_str::<String>(x)),
            _ => {}
        }
    }
    let _ = DICT.set(d);
}
fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}
fn dict_int(r: &mut Rng) -> Option<usize> {
    let d = dict();
    (!d.ints.is_empty() && r.one_in(8)).then(|| *r.pick(&d.ints))
}

/// characters at the edges of every encoded length, controls, whitespace and look-alikes of whitespace
pub const CHARS: &[char] = &[
    'a', 'z', 'A', 'Z', '0', ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\0', '\u{1c}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'é',
    'ß', '\u{7ff}', '\u{800}', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{200a}', '\u{200b}', '\u{2028}',
    '\u{2029}', '\u{202f}', '\u{205f}', '\u{2060}', '\u{3000}', '€', 'ह', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}',
    '\u{ffff}', '\u{10000}', '🤔', '\u{1f3ff}', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}',
];
/// one of each encoded length, and a blank
pub const SMALL: &[char] = &['a', 'é', '€', '🤔', ' '];
pub const BLANK: &[char] = &[
    ' ', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{3000}',
];

pub fn any_char(r: &mut Rng) -> char {
    let d = dict();
    if !d.chars.is_empty() && r.one_in(8) {
        return *r.pick(&d.chars);
    }
    match r.below(8) {
        0..=4 => *r.pick(CHARS),
        5 => *r.pick(SMALL),
        6 => (b'a' + r.below(26) as u8) as char,
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
    }
}

/// a string of at most `len` bytes, as close to it as its characters allow
pub fn string_of(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let style = r.below(7);
    let d = dict();
    while s.len() < len {
        if !d.strs.is_empty() && r.one_in(16) {
            let x = r.pick(&d.strs);
            if s.len() + x.len() <= len {
                s.push_str(x);
                continue;
            }
        }
        let c = match style {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => 'é',
            2 => '€',
            3 => '🤔',
            4 => *r.pick(SMALL),
            5 => {
                if r.one_in(2) || s.is_empty() || len - s.len() < 6 {
                    *r.pick(BLANK)
                } else {
                    any_char(r)
                }
            }
            _ => any_char(r),
        };
        if s.len() + c.len_utf8() <= len {
            s.push(c)
        } else if r.one_in(2) {
            break;
        } else {
            // fill up with shorter ones
            match len - s.len() {
                1 => s.push('x'),
                2 => s.push('é'),
                _ => s.push('€'),
            }
        }
    }
    s
}

/// a length near something that matters when `room` bytes are left of `cap`
pub fn length(r: &mut Rng, room: usize, cap: usize) -> usize {
    if let Some(i) = dict_int(r) {
        return i.min(66000);
    }
    match r.below(12) {
        0 => 0,
        1 => 1,
        2..=5 => (room + r.below(6)).saturating_sub(r.below(5)),
        6 => r.below(room + 1),
        7 => cap + r.below(4),
        8 => r.below(8),
        9 => 250 + r.below(14),
        10 => 508 + r.below(12),
        _ => {
            if r.one_in(60) {
                65530 + r.below(20)
            } else {
                r.below(cap + 8)
            }
        }
    }
}

pub fn index(r: &mut Rng, len: usize, cap: usize) -> usize {
    if let Some(i) = dict_int(r) {
        return i;
    }
    match r.below(16) {
        0..=6 => r.below(len + 1),
        7 => len,
        8 => len + 1 + r.below(3),
        9 => cap + r.below(3),
        10 => 255 + r.below(3),
        11 => 256 + r.below(len + 2),
        12 => usize::MAX - r.below(3),
        13 => [1 << 16, 1 << 31, 1 << 32, 1 << 63, (1 << 32) + len, isize::MAX as usize][r.below(6)],
        14 => 0,
        _ => r.below(cap + 2),
    }
}

pub fn bounds(r: &mut Rng, text: &str, cap: usize) -> (Bound<usize>, Bound<usize>) {
    let pick = |r: &mut Rng| {
        if r.below(4) > 0 {
            // a character boundary
            let mut i = r.below(text.len() + 1);
            while !text.is_char_boundary(i) {
                i -= 1
            }
            i
        } else {
            index(r, text.len(), cap)
        }
    };
    let (mut a, mut b) = (pick(r), pick(r));
    if a > b && r.below(6) > 0 {
        std::mem::swap(&mut a, &mut b);
    }
    if r.one_in(8) {
        b = a;
    }
    let s = match r.below(8) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Excluded(if r.below(8) > 0 { a.wrapping_sub(1).min(usize::MAX - 1) } else { a }),
        _ => Bound::Included(a),
    };
    let e = match r.below(8) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(if r.below(8) > 0 { b.wrapping_sub(1).min(usize::MAX - 1) } else { b }),
        _ => Bound::Excluded(b),
    };
    (s, e)
}

/// UTF-16, well formed or not
pub fn utf16(r: &mut Rng, len: usize) -> Vec<u16> {
    let s = string_of(r, len);
    let mut v: Vec<u16> = s.encode_utf16().collect();
    for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] {
        let bad = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD834, 0xDD1E][r.below(6)];
        let at = r.below(v.len() + 1);
        if r.one_in(3) && at < v.len() {
            v[at] = bad
        } else {
            v.insert(at, bad)
        }
    }
    if r.one_in(8) {
        v.pop();
    }
    v
}

/// every string over `SMALL` of at most `max` bytes
pub fn all_strings(max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut i = 0;
    while i < out.len() {
        let s = out[i].clone();
        for c in SMALL {
            if s.len() + c.len_utf8() <= max {
                out.push(format!("{s}{c}"));
            }
        }
        i += 1;
    }
    out
}

/// `p` or its longest prefix on a boundary that is at most `room` bytes
pub fn trunc(s: &str, room: usize) -> &str {
    let mut n = s.len().min(room);
    while !s.is_char_boundary(n) {
        n -= 1
    }
    &s[..n]
}
