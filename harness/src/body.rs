// Bounded search for a concrete input on which the real crate breaks a property.
// usage: harness PROP --seed N --ms MILLIS [--only PHASE:INDEX] [--at FILE] [--deep]
mod extra;
mod gen;
mod model;
mod serdes;
mod sut;
use gen::*;
use model::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use sut::*;

pub struct Fail {
    pub case: String,
    pub input: String,
    pub got: String,
    pub want: String,
}
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub deep: bool,
    pub only: Option<(String, u64)>,
    at: Option<std::fs::File>,
    pub phase: String,
    pub index: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub fails: Vec<Fail>,
    pub samples: Vec<String>,
    pub end: Instant,
    pub phases: Vec<(String, u64)>,
    pub desc: String,
}
impl Ctx {
    /// starts case `index` of the current phase; false if it is not to be run
    pub fn begin(&mut self, index: u64) -> bool {
        self.index = index;
        if let Some((p, i)) = &self.only {
            if *p != self.phase || *i != index {
                return false;
            }
        }
        if let Some(f) = &mut self.at {
            let _ = f.rewind();
            let _ = f.write_all(format!("{}:{}                \n", self.phase, index).as_bytes());
        }
        log::set_max_level(if index % 32 == 7 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        true
    }
    pub fn enter(&mut self, phase: &str) -> bool {
        if self.fails.len() >= 3 {
            return false;
        }
        self.phase = phase.to_string();
        self.phases.push((self.phase.clone(), self.evals));
        match &self.only {
            Some((p, _)) => p == phase,
            None => true,
        }
    }
    pub fn rng(&self, index: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.phase.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng::new(self.seed ^ h ^ index.wrapping_mul(0x2545F4914F6CDD1D))
    }
    pub fn late(&self) -> bool {
        self.fails.len() >= 3 || (self.only.is_none() && Instant::now() > self.end)
    }
    pub fn mine(&self, tags: &[&str]) -> bool {
        tags.iter().any(|t| *t == self.prop)
    }
    pub fn fail(&mut self, tags: &[&str], input: String, got: String, want: String) {
        if self.mine(tags) && self.fails.len() < 3 {
            let cut = |s: String| if s.len() > 1500 { let n = (0..=1500).rev().find(|i| s.is_char_boundary(*i)).unwrap(); format!("{}… ({} bytes)", &s[..n], s.len()) } else { s };
            self.fails.push(Fail { case: format!("{}:{}", self.phase, self.index), input: cut(input), got: cut(got), want: cut(want) });
        }
    }
    pub fn note<H: Hash>(&mut self, h: &H, trivial: bool, d: impl Fn() -> String) {
        self.evals += 1;
        if self.only.is_some() {
            eprintln!("CASE {}", d());
        }
        if !trivial && self.distinct.len() < 2_000_000 {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            if self.distinct.insert(s.finish()) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.distinct.len().is_power_of_two())) {
                let mut d = d();
                if d.len() > 300 {
                    let n = (0..=300).rev().find(|i| d.is_char_boundary(*i)).unwrap();
                    d.truncate(n);
                }
                self.samples.push(d);
            }
        }
    }
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{s:?}"),
        Err(_) => format!("invalid UTF-8 {b:x?}"),
    }
}
pub fn run(f: impl FnOnce() -> Out) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(p) => Out::Panic(
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}
fn shape(o: &Out) -> Out {
    match o {
        Out::Panic(_) => Out::Panic(String::new()),
        o => o.clone(),
    }
}

/// one operation against the model; afterwards the string holds what the model says
pub fn step(cx: &mut Ctx, sut: &mut dyn Sut, text: &mut String, op: &Op, before: &dyn Fn() -> String) {
    let cap = sut.cap();
    let want = expect(text, cap, op);
    let got = run(|| sut.apply(op));
    let now = sut.bytes();
    let name = sut.name();
    let at = || format!("{}{} holding {:?}: {:?}{}", before(), name, text, op, manner(op));
    cx.note(&(cap, text.as_str(), format!("{op:?}")), text.is_empty() && want.text.is_empty(), at);
    let mut tags: Vec<&str> = vec![];
    let p = props(op);
    let errs = matches!(got, Out::Err(_) | Out::FmtErr);
    let valid = now.len() <= cap && std::str::from_utf8(&now).is_ok();
    if let Out::Panic(_) = got {
        if !matches!(op, Op::IndexMutLower(_)) {
            tags.push("P13");
            tags.extend(p);
        }
    }
    if !valid {
        tags.extend(["P01", "P14"]);
        tags.extend(p);
    }
    if let Out::Split(b) | Out::Added(b) = &got {
        if b.len() > cap || std::str::from_utf8(b).is_err() {
            tags.extend(["P01", "P14"]);
        }
    }
    if let Out::Drained(b, _, l) = &got {
        if l.iter().chain([b]).any(|b| b.len() > cap || std::str::from_utf8(b).is_err()) {
            tags.extend(["P01", "P14"]);
        }
    }
    if !want.outs.contains(&shape(&got)) {
        match (&got, &want.outs[0]) {
            (Out::Drained(a, ..), Out::Drained(b, ..)) if a == b => tags.push("P11"),
            (Out::Drained(..), Out::Drained(..)) => tags.extend(["P10", "P11"]),
            _ => tags.extend(p),
        }
    }
    if now != want.text.as_bytes() {
        tags.extend(p);
        if errs && now != text.as_bytes() {
            tags.push("P12");
        }
    }
    if !sut.guards_ok() {
        tags.push("P14");
    }
    if !tags.is_empty() {
        let g = format!("{got:?}, then it holds {}", show(&now));
        let w = format!("{}, then {:?}", want.outs.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" or "), want.text);
        let i = at();
        cx.fail(&tags, i, g, w);
        let _ = sut.reset(&want.text, "");
    }
    *text = want.text;
}

pub fn random_text(r: &mut Rng, cap: usize) -> String {
    let n = match r.below(6) {
        0 => if r.one_in(2) { 0 } else { index(r, cap, cap).min(cap) },
        1 => cap,
        2 => cap.saturating_sub(r.below(5)),
        _ => r.below(cap + 1),
    };
    string_of(r, n)
}
fn strs(r: &mut Rng, room: usize, cap: usize) -> Vec<String> {
    let n = [0, 1, 2, 3, 4, 5, 8, 20, 300][r.below(9)];
    (0..n)
        .map(|_| {
            let l = match r.below(5) {
                0 => 0,
                1 => length(r, room, cap),
                2 => r.below(5),
                _ => r.below(room / 2 + 3),
            };
            string_of(r, l.min(600))
        })
        .collect()
}
fn chars(r: &mut Rng, room: usize, cap: usize) -> Vec<char> {
    let l = length(r, room, cap).min(600);
    let mut v: Vec<char> = string_of(r, l).chars().collect();
    for _ in 0..r.below(4) {
        v.push(any_char(r))
    }
    v
}
pub const KINDS: usize = 39;
pub fn random_op(r: &mut Rng, kind: usize, t: &str, cap: usize) -> Op {
    let room = cap - t.len();
    let l = length(r, room, cap);
    let lc = length(r, cap, cap);
    let arg = [Arg::Str, Arg::Str, Arg::String, Arg::SelfType][r.below(4)];
    let rf = [Rf::Tuple, Rf::Natural][r.below(2)];
    let ix = |r: &mut Rng| {
        let b = |r: &mut Rng| if r.below(3) > 0 { let mut i = r.below(t.len() + 1); while !t.is_char_boundary(i) { i -= 1 } i as u8 } else { *r.pick(&[0, 1, 2, cap as u8, 254, 255, t.len() as u8, (t.len() + 1) as u8]) };
        let (a, c) = (b(r), b(r));
        let (a, c) = if r.below(5) > 0 { (a.min(c), a.max(c)) } else { (a, c) };
        match r.below(6) {
            0 => Ix::From(a),
            1 => Ix::To(c),
            2 => Ix::Full,
            3 => Ix::Range(a, c),
            4 => Ix::ToIncl(c.wrapping_sub(1)),
            _ => Ix::Incl(a, c.wrapping_sub(1)),
        }
    };
    match kind {
        0 => if r.one_in(4) { Op::New } else { Op::Default },
        1 => Op::TryFromStr(string_of(r, lc), arg),
        2 => Op::FromStrTruncate(string_of(r, lc), arg),
        3 => Op::From(string_of(r, lc)),
        4 => Op::FromStr(string_of(r, lc)),
        5 => Op::TryFromIterator(strs(r, cap, cap)),
        6 => Op::FromIteratorTruncate(strs(r, cap, cap)),
        7 => Op::TryFromChars(chars(r, cap, cap)),
        8 => Op::FromCharsTruncate(chars(r, cap, cap)),
        9 => Op::TryFromUtf16(utf16(r, lc.min(700))),
        10 => Op::FromUtf16Truncate(utf16(r, lc.min(700))),
        11 => Op::FromUtf16LossyTruncate(utf16(r, lc.min(700))),
        12 => Op::CollectChars(chars(r, cap, cap)),
        13 => Op::CollectStrs(strs(r, cap, cap)),
        14 => Op::ExtendChars(chars(r, room, cap)),
        15 => Op::ExtendCharRefs(chars(r, room, cap)),
        16 => Op::ExtendStrs(strs(r, room, cap)),
        17 => Op::TryPushStr(string_of(r, l), arg),
        18 => Op::PushStrTruncate(string_of(r, l), arg),
        19 => Op::TryPush(any_char(r)),
        20 => Op::WriteStr(string_of(r, l)),
        21 => Op::WriteChar(any_char(r)),
        22 => Op::WriteFmt(if r.one_in(2) { r.pick(LITERALS).to_string() } else { string_of(r, l) }),
        23 => Op::Add(string_of(r, l)),
        24 => Op::Truncate(index(r, t.len(), cap)),
        25 => Op::Pop,
        26 => Op::Trim,
        27 => Op::Remove(index(r, t.len(), cap)),
        28 => Op::Retain([Pred::All, Pred::None, Pred::Ascii, Pred::NotAscii, Pred::EveryOther, Pred::NotFirst, Pred::NotWs, Pred::OnlyLen(1 + r.below(4))][r.below(8)]),
        29 => Op::TryInsert(index(r, t.len(), cap), any_char(r)),
        30 => Op::TryInsertStr(index(r, t.len(), cap), string_of(r, l), arg),
        31 => Op::InsertStrTruncate(index(r, t.len(), cap), string_of(r, l), arg),
        32 => Op::Clear,
        33 => Op::SplitOff(index(r, t.len(), cap)),
        34 => {
            let n = r.below(12);
            let s = r.below(4);
            Op::Drain(bounds(r, t, cap), rf, (0..if r.one_in(4) { t.len() + 2 } else { n }).map(|i| match s { 0 => true, 1 => false, 2 => i % 2 == 0, _ => r.one_in(2) }).collect())
        }
        35 => {
            let b = bounds(r, t, cap);
            let cut = range(t, b).map_or(0, |(a, b)| b - a);
            let l = length(r, room + cut, cap);
            Op::ReplaceRange(b, rf, string_of(r, l))
        }
        36 => Op::Upper([How::AsMutStr, How::DerefMut, How::AsMut, How::BorrowMut][r.below(4)]),
        37 => Op::IndexMutLower(ix(r)),
        _ => [Op::Copy, Op::Clone][r.below(2)].clone(),
    }
}

/// every instance of every operation that matters at a tiny capacity
fn small_ops(t: &str, cap: usize, args: &[String]) -> Vec<Op> {
    use std::ops::Bound::*;
    let mut v = vec![
        Op::New, Op::Default, Op::Pop, Op::Trim, Op::Clear, Op::Copy, Op::Clone,
        Op::Retain(Pred::All), Op::Retain(Pred::None), Op::Retain(Pred::Ascii), Op::Retain(Pred::EveryOther), Op::Retain(Pred::NotFirst),
        Op::Upper(How::AsMutStr), Op::Upper(How::DerefMut), Op::Upper(How::AsMut), Op::Upper(How::BorrowMut),
    ];
    let ids: Vec<usize> = (0..cap + 3).chain([255, 256, 257, 256 + cap, usize::MAX - 1, usize::MAX]).collect();
    for a in args {
        v.extend([
            Op::TryFromStr(a.clone(), Arg::Str), Op::FromStrTruncate(a.clone(), Arg::Str), Op::From(a.clone()), Op::FromStr(a.clone()),
            Op::TryPushStr(a.clone(), Arg::Str), Op::PushStrTruncate(a.clone(), Arg::SelfType), Op::WriteStr(a.clone()), Op::WriteFmt(a.clone()), Op::Add(a.clone()),
            Op::CollectChars(a.chars().collect()), Op::ExtendChars(a.chars().collect()), Op::ExtendCharRefs(a.chars().collect()),
            Op::TryFromChars(a.chars().collect()), Op::FromCharsTruncate(a.chars().collect()),
            Op::TryFromUtf16(a.encode_utf16().collect()), Op::FromUtf16Truncate(a.encode_utf16().collect()), Op::FromUtf16LossyTruncate(a.encode_utf16().collect()),
            Op::ExtendStrs(a.chars().map(|c| c.to_string()).collect()), Op::CollectStrs(vec![a.clone(), "é".into(), "a".into()]),
            Op::TryFromIterator(a.chars().map(|c| c.to_string()).collect()), Op::FromIteratorTruncate(vec!["a".into(), a.clone(), "z".into()]),
        ]);
        for i in &ids {
            v.push(Op::TryInsertStr(*i, a.clone(), Arg::Str));
            v.push(Op::InsertStrTruncate(*i, a.clone(), Arg::Str));
        }
    }
    for c in SMALL {
        v.extend([Op::TryPush(*c), Op::WriteChar(*c)]);
        v.extend(ids.iter().map(|i| Op::TryInsert(*i, *c)));
    }
    for i in &ids {
        v.extend([Op::Truncate(*i), Op::Remove(*i), Op::SplitOff(*i)]);
    }
    let mut bs = vec![];
    let ends: Vec<usize> = (0..t.len() + 2).chain([256, usize::MAX]).collect();
    for a in &ends {
        for b in &ends {
            for s in [Included(*a), Excluded(*a), Unbounded] {
                for e in [Included(*b), Excluded(*b), Unbounded] {
                    bs.push((s, e));
                }
            }
        }
    }
    for b in bs {
        v.push(Op::Drain(b, Rf::Natural, vec![true, false, true, false, true, true]));
        for w in ["", "a", "é", "🤔", "aaaaa"] {
            v.push(Op::ReplaceRange(b, Rf::Tuple, w.into()));
        }
    }
    for a in (0..t.len() as u8 + 2).chain([255]) {
        v.extend([Op::IndexMutLower(Ix::From(a)), Op::IndexMutLower(Ix::To(a)), Op::IndexMutLower(Ix::ToIncl(a))]);
        for b in (0..t.len() as u8 + 2).chain([255]) {
            v.extend([Op::IndexMutLower(Ix::Range(a, b)), Op::IndexMutLower(Ix::Incl(a, b))]);
        }
    }
    v
}

fn relevant(prop: &str, op: &Op) -> bool {
    match prop {
        "P01" | "P12" | "P13" | "P14" | "P17" => true,
        "P11" => matches!(op, Op::Drain(..)),
        p => props(op).contains(&p),
    }
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let ms: u64 = opt("--ms").map_or(3000, |x| x.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if m.contains("unsafe precondition") || m.contains("cannot unwind") {
            eprintln!("ABORT {m}");
        }
    }));
    if let Some(f) = opt("--dict") {
        load_dict(&std::fs::read_to_string(f).unwrap());
    }
    let _ = log::set_logger(&Sink);
    let start = Instant::now();
    let mut cx = Ctx {
        prop,
        seed: opt("--seed").map_or(1, |x| x.parse().unwrap()),
        deep: a.iter().any(|x| x == "--deep"),
        only: opt("--only").map(|x| { let (p, i) = x.rsplit_once(':').unwrap(); (p.to_string(), i.trim().parse().unwrap()) }),
        at: opt("--at").map(|f| std::fs::File::create(f).unwrap()),
        phase: String::new(),
        index: 0,
        evals: 0,
        distinct: HashSet::new(),
        fails: vec![],
        samples: vec![],
        end: start + Duration::from_millis(ms),
        phases: vec![],
        desc: String::new(),
    };
    let mut suts = all();
    suts.push(cache());
    extra::extra(&mut cx, &mut suts, start, ms);
    let p = cx.prop.clone();
    let by_op = p != "P18" && p != "P19" && p != "P20" && p != "P21";
        let most = if cx.deep { 4 } else { 3 };
    if by_op && p != "P17" && cx.enter("small") {
        // exhaustive at tiny capacities
        let args: Vec<String> = all_strings(4).into_iter().chain(["aaaaa", "aaaa🤔", "ééé", "a€é", "€€", "🤔🤔"].map(String::from)).collect();
        let mut n = 0u64;
        'o: for s in suts.iter_mut().filter(|s| s.cap() <= most) {
            for t in all_strings(s.cap()) {
                for op in small_ops(&t, s.cap(), &args) {
                    if !relevant(&cx.prop, &op) {
                        continue;
                    }
                    n += 1;
                    if !cx.begin(n) {
                        continue;
                    }
                    let stale = ["", "zzzz", "🤔"][n as usize % 3];
                    if !s.reset(&t, stale) { continue }
                    let mut t = t.clone();
                    step(&mut cx, s.as_mut(), &mut t, &op, &|| format!("(buffer before: {stale:?}) "));
                    if n % 512 == 0 && cx.only.is_none() && (cx.fails.len() >= 3 || Instant::now() > start + Duration::from_millis(ms * 6 / 10)) {
                        break 'o;
                    }
                }
            }
        }
    }
    let kinds: Vec<usize> = {
        let mut r = Rng::new(1);
        (0..KINDS).filter(|k| relevant(&p, &random_op(&mut r, *k, "abc", 8))).collect()
    };
    if by_op && p != "P17" && !kinds.is_empty() && cx.enter("random") {
        let mut n = match &cx.only { Some((_, i)) => *i - 1, None => 0 };
        loop {
            n += 1;
            if n % 64 == 0 && cx.late() { break }
            if !cx.begin(n) { break }
            let mut r = cx.rng(n);
            let k = r.below(suts.len());
            let s = &mut suts[k];
            let mut t = random_text(&mut r, s.cap());
            let stale = if r.one_in(2) { let n = s.cap(); string_of(&mut r, n) } else { String::new() };
            if !s.reset(&t, &stale) { continue }
            // a short history first
            let mut hist = vec![];
            let all_kinds = r.one_in(4);
            for _ in 0..[0, 0, 1, 2, 6][r.below(5)] {
                let k = if all_kinds { r.below(KINDS) } else { *r.pick(&kinds) };
                let op = random_op(&mut r, k, &t, s.cap());
                let h = hist.clone();
                step(&mut cx, s.as_mut(), &mut t, &op, &|| format!("(buffer before: {stale:?}; history {h:?}) "));
                hist.push(op);
            }
            let kind = *r.pick(&kinds);
            let op = random_op(&mut r, kind, &t, s.cap());
            step(&mut cx, s.as_mut(), &mut t, &op, &|| format!("(buffer before: {stale:?}; history {hist:?}) "));
            extra::after(&mut cx, s.as_mut(), &t, &stale, &mut r, &hist, &op);
        }
    }
    let mut o = serde_json::Map::new();
    let js = |v: Vec<(&str, String)>| serde_json::Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), serde_json::Value::String(v))).collect());
    o.insert("property".into(), cx.prop.clone().into());
    o.insert("evaluations".into(), cx.evals.into());
    o.insert("distinct_nontrivial".into(), cx.distinct.len().into());
    o.insert("capacities".into(), suts.len().into());
    o.insert("samples".into(), cx.samples.clone().into());
    o.insert("phases".into(), cx.phases.iter().map(|x| x.0.clone()).collect::<Vec<_>>().into());
    o.insert("fails".into(), cx.fails.iter().map(|f| js(vec![("case", f.case.clone()), ("input", f.input.clone()), ("got", f.got.clone()), ("want", f.want.clone())])).collect::<Vec<_>>().into());
    println!("{}", serde_json::Value::Object(o));
}
