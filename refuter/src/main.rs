//! Searches the real library for an input that breaks a property, and replays such inputs.
//! Used only to give a failed proof obligation a concrete failing input, and as a bounded stand-in
//! for functions the verifier could not reach.  It never decides that a property holds.
mod oracle;
use oracle::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use unicode_intervals::{
    as_general_categories, Error, Interval, IntervalQuery, IntervalSet, UnicodeCategory as Cat,
    UnicodeCategorySet as Set, UnicodeVersion as Ver,
};

// ---- random numbers

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}

// ---- the library's values by position

const ALLCATS: [Cat; 30] = [
    Cat::Pe, Cat::Pc, Cat::Cc, Cat::Sc, Cat::Pd, Cat::Nd, Cat::Me, Cat::Pf, Cat::Cf, Cat::Pi, Cat::Nl, Cat::Zl, Cat::Ll,
    Cat::Sm, Cat::Lm, Cat::Sk, Cat::Mn, Cat::Ps, Cat::Lo, Cat::No, Cat::Po, Cat::So, Cat::Zp, Cat::Co, Cat::Zs, Cat::Mc,
    Cat::Cs, Cat::Lt, Cat::Cn, Cat::Lu,
];
const ALLVERS: [Ver; 11] = [
    Ver::V9_0_0, Ver::V10_0_0, Ver::V11_0_0, Ver::V12_0_0, Ver::V12_1_0, Ver::V13_0_0, Ver::V14_0_0, Ver::V15_0_0,
    Ver::V15_1_0, Ver::V16_0_0, Ver::V17_0_0,
];

fn pos(c: Cat) -> usize {
    ALLCATS.iter().position(|x| *x == c).unwrap()
}

fn set(mask: u32) -> Set {
    let mut s = Set::new();
    for k in 0..30 {
        if mask >> k & 1 == 1 {
            s.add(ALLCATS[k]);
        }
    }
    s
}

// ---- cases

#[derive(Clone, Debug, PartialEq)]
enum Case {
    /// one query; `how` varies how the settings are handed over
    Query(Q, u32),
    /// lookups in the interval set of a query
    Look(Q, Vec<u32>),
    /// steps over an interval set: 0 next, 1 next_back, 2 nth, 3 nth_back, 4 clone and exhaust, 5 size_hint
    Walk(Q, Vec<u8>),
    /// operations on category sets: (operation, category or mask)
    Sets(Vec<(u8, u32)>),
    /// parse a category name / version name
    Cat(String),
    Ver(String),
    /// expand names
    Expand(usize, Vec<String>, u32),
    /// setter calls: (setter, value index), run after some of them
    Build(usize, Vec<(u8, Q)>),
    /// print errors
    Err(u8, String, u32, u32),
    /// fixed facts, by number
    Fact(u32),
    /// cases one after another in one process: what an earlier call leaves behind must not matter
    Seq(Vec<Case>),
}

fn hexes(v: &[u32]) -> String {
    if v.is_empty() {
        return "none".into();
    }
    v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(".")
}
fn unhexes(s: &str) -> Vec<u32> {
    if s == "none" {
        return vec![];
    }
    s.split('.').map(|x| u32::from_str_radix(x, 16).unwrap()).collect()
}
fn ostr(s: &str) -> String {
    hexes(&s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn unostr(s: &str) -> String {
    unhexes(s).into_iter().filter_map(char::from_u32).collect()
}
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> String) -> String {
    o.as_ref().map_or("-".into(), f)
}
fn unopt<T>(s: &str, f: impl Fn(&str) -> T) -> Option<T> {
    if s == "-" { None } else { Some(f(s)) }
}
fn fq(q: &Q) -> String {
    let h = |x: &u32| format!("{x:x}");
    format!(
        "{} {} {} {} {} {} {}",
        VERS[q.v], opt(&q.inc, h), opt(&q.exc, h), opt(&q.incc, |v| hexes(v)), opt(&q.excc, |v| hexes(v)), opt(&q.min, h), opt(&q.max, h)
    )
}
fn uq(p: &[&str]) -> Q {
    let h = |s: &str| u32::from_str_radix(s, 16).unwrap();
    Q {
        v: VERS.iter().position(|v| *v == p[0]).unwrap(),
        inc: unopt(p[1], h), exc: unopt(p[2], h), incc: unopt(p[3], unhexes), excc: unopt(p[4], unhexes), min: unopt(p[5], h), max: unopt(p[6], h),
    }
}

impl Case {
    fn text(&self) -> String {
        match self {
            Case::Query(q, how) => format!("query {} {how}", fq(q)),
            Case::Look(q, p) => format!("look {} {}", fq(q), hexes(p)),
            Case::Walk(q, p) => format!("walk {} {}", fq(q), hexes(&p.iter().map(|x| *x as u32).collect::<Vec<_>>())),
            Case::Sets(ops) => format!("sets {}", ops.iter().map(|(a, b)| format!("{a}:{b:x}")).collect::<Vec<_>>().join(" ")),
            Case::Cat(s) => format!("cat {}", ostr(s)),
            Case::Ver(s) => format!("ver {}", ostr(s)),
            Case::Expand(v, l, how) => format!("expand {} {how} {}", VERS[*v], l.iter().map(|s| ostr(s)).collect::<Vec<_>>().join(" ")),
            Case::Build(v, l) => format!("build {} {}", VERS[*v], l.iter().map(|(a, q)| format!("{a} {}", fq(q))).collect::<Vec<_>>().join(" ")),
            Case::Err(k, s, a, b) => format!("err {k} {} {a:x} {b:x}", ostr(s)),
            Case::Fact(n) => format!("fact {n}"),
            Case::Seq(l) => format!("seq {}", l.iter().map(|c| c.text()).collect::<Vec<_>>().join(" ; ")),
        }
    }
    fn parse(s: &str) -> Case {
        if let Some(l) = s.strip_prefix("seq ") { return Case::Seq(l.split(" ; ").map(Case::parse).collect()); }
        let p: Vec<&str> = s.split_whitespace().collect();
        match p[0] {
            "query" => Case::Query(uq(&p[1..]), p[8].parse().unwrap()),
            "look" => Case::Look(uq(&p[1..]), unhexes(p[8])),
            "walk" => Case::Walk(uq(&p[1..]), unhexes(p[8]).into_iter().map(|x| x as u8).collect()),
            "sets" => Case::Sets(p[1..].iter().map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), u32::from_str_radix(b, 16).unwrap()) }).collect()),
            "cat" => Case::Cat(unostr(p[1])),
            "ver" => Case::Ver(unostr(p[1])),
            "expand" => Case::Expand(VERS.iter().position(|v| *v == p[1]).unwrap(), p[3..].iter().map(|s| unostr(s)).collect(), p[2].parse().unwrap()),
            "build" => Case::Build(VERS.iter().position(|v| *v == p[1]).unwrap(), p[2..].chunks(8).map(|c| (c[0].parse().unwrap(), uq(&c[1..]))).collect()),
            "err" => Case::Err(p[1].parse().unwrap(), unostr(p[2]), u32::from_str_radix(p[3], 16).unwrap(), u32::from_str_radix(p[4], 16).unwrap()),
            "fact" => Case::Fact(p[1].parse().unwrap()),
            x => panic!("case {x}"),
        }
    }
}

// ---- running the library

type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

fn chars(v: &[u32]) -> String {
    v.iter().filter_map(|c| char::from_u32(*c)).collect()
}

struct Held {
    inc: String,
    exc: String,
}

fn held(q: &Q) -> Held {
    Held { inc: q.incc.as_deref().map(chars).unwrap_or_default(), exc: q.excc.as_deref().map(chars).unwrap_or_default() }
}

fn build<'a>(q: &Q, h: &'a Held, how: u32) -> IntervalQuery<'a> {
    let mut b = if how & 8 != 0 && q.v == 10 { unicode_intervals::query() } else { ALLVERS[q.v].query() };
    let mut order: Vec<u32> = (0..6).collect();
    order.rotate_left((how >> 4) as usize % 6);
    if how & 4 != 0 { order.reverse(); }
    for o in order {
        match o {
            0 => if let Some(m) = q.inc {
                b = if how & 1 != 0 && m.count_ones() == 1 { b.include_categories(ALLCATS[m.trailing_zeros() as usize]) }
                    else if how & 2 != 0 { b.include_categories(Some(set(m))) } else { b.include_categories(set(m)) };
            } else if how & 2 != 0 { b = b.include_categories(None) },
            1 => if let Some(m) = q.exc {
                b = if how & 1 != 0 && m.count_ones() == 1 { b.exclude_categories(ALLCATS[m.trailing_zeros() as usize]) }
                    else if how & 2 != 0 { b.exclude_categories(Some(set(m))) } else { b.exclude_categories(set(m)) };
            } else if how & 2 != 0 { b = b.exclude_categories(None) },
            2 => if q.incc.is_some() { b = b.include_characters(&h.inc) },
            3 => if q.excc.is_some() { b = b.exclude_characters(&h.exc) },
            4 => if let Some(x) = q.min { b = b.min_codepoint(x) },
            _ => if let Some(x) = q.max { b = b.max_codepoint(x) },
        }
    }
    b
}

fn show(l: &[Interval]) -> String {
    let mut s = String::new();
    for (n, (a, b)) in l.iter().enumerate() {
        if n == 12 { let _ = write!(s, "... {} intervals", l.len()); break; }
        let _ = write!(s, "{a:X}-{b:X} ");
    }
    s
}

fn points(l: &[Interval]) -> Vec<Iv> {
    let mut v: Vec<Iv> = l.iter().copied().filter(|x| x.0 <= x.1).collect();
    v.sort();
    let mut out: Vec<Iv> = Vec::new();
    for (a, b) in v {
        if let Some(l) = out.last_mut() {
            if a <= l.1.saturating_add(1) { l.1 = l.1.max(b); continue; }
        }
        out.push((a, b));
    }
    out
}

fn canonical(l: &[Interval]) -> bool {
    l.iter().all(|x| x.0 <= x.1 && x.1 <= MAX) && l.windows(2).all(|w| w[0].1.checked_add(1).is_some_and(|n| n < w[1].0))
}

fn same_err(e: &Error, f: &Fail) -> bool {
    match (e, f) {
        (Error::CodepointNotInRange(a, b), Fail::Range(x, y)) | (Error::InvalidCodepoints(a, b), Fail::Order(x, y)) => a == x && b == y,
        _ => false,
    }
}

fn describe(q: &Q) -> String {
    let cats = |m: &u32| (0..30).filter(|k| m >> k & 1 == 1).map(|k| CATS[k]).collect::<Vec<_>>().join("|");
    let hex = |v: &Vec<u32>| v.iter().map(|c| format!("U+{c:04X}")).collect::<Vec<_>>().join(" ");
    format!(
        "version {} include_categories={} exclude_categories={} include_characters={} exclude_characters={} min={} max={}",
        VERS[q.v], opt(&q.inc, |m| format!("{{{}}}", cats(m))), opt(&q.exc, |m| format!("{{{}}}", cats(m))),
        opt(&q.incc, |v| format!("[{}]", hex(v))), opt(&q.excc, |v| format!("[{}]", hex(v))), opt(&q.min, |x| format!("{x:#x}")), opt(&q.max, |x| format!("{x:#x}"))
    )
}

fn check(u: &Ucd, prop: &str, case: &Case) -> R {
    match case {
        Case::Query(q, how) => {
            let h = held(q);
            let b = build(q, &h, *how);
            let got = b.intervals();
            let want = u.query(q);
            let all = prop == "C17";
            match prop {
                "C03" => {
                    match (&got, &want) {
                        (Ok(_), Ok(_)) => {}
                        (Err(e), Err(f)) => ensure!(same_err(e, f), "{}: got {e:?}, want {f:?}", describe(q)),
                        _ => return Err(format!("{}: got {got:?}, want {want:?}", describe(q))),
                    }
                    match (&got, b.interval_set()) {
                        (Ok(l), Ok(s)) => {
                            let pts = points(l);
                            ensure!(s.len() as u64 == size(&pts), "{}: interval_set has {} members, intervals {}", describe(q), s.len(), size(&pts));
                            let mut it = s.iter();
                            if size(&pts) <= 3000 {
                                for &(a, z) in &pts { for c in a..=z { ensure!(it.next() == Some(c), "{}: interval_set differs from intervals at {c:#x}", describe(q)); } }
                                ensure!(it.next().is_none(), "{}: interval_set longer than intervals", describe(q));
                            } else {
                                for &(a, z) in &pts { for c in [a, z] { ensure!(s.contains(c), "{}: {c:#x} in intervals, not in interval_set", describe(q)); } }
                            }
                        }
                        (Err(a), Err(b2)) => ensure!(*a == b2, "{}: intervals {a:?}, interval_set {b2:?}", describe(q)),
                        (a, b2) => return Err(format!("{}: intervals {}, interval_set {}", describe(q), if a.is_ok() { "ok" } else { "fails" }, if b2.is_ok() { "ok" } else { "fails" })),
                    }
                }
                "C02" => if let Ok(l) = &got {
                    ensure!(canonical(l), "{}: not canonical: {}", describe(q), show(l));
                },
                "C05" => if let (Ok(l), Ok(w)) = (&got, &want) {
                    ensure!(&points(l) == w, "{}: got {} want {}", describe(q), show(l), show(w));
                },
                _ if !all => if let Ok(w) = &want {
                    match &got {
                        Ok(l) => {
                            ensure!(&points(l) == w, "{}: got {} want {}", describe(q), diff(&points(l), w), show(w));
                            if prop == "C14" { ensure!(b.intervals() == got, "{}: running again gives something else", describe(q)); }
                        }
                        Err(e) => return Err(format!("{}: fails with {e:?}", describe(q))),
                    }
                },
                _ => { let _ = b.interval_set(); }
            }
            Ok(())
        }
        Case::Look(q, probes) => {
            let h = held(q);
            let b = build(q, &h, 0);
            let Ok(l) = b.intervals() else { return Ok(()) };
            let Ok(s) = b.interval_set() else { return Ok(()) };
            look(prop, q, &points(&l), &s, probes)
        }
        Case::Walk(q, steps) => {
            let h = held(q);
            let b = build(q, &h, 0);
            let Ok(l) = b.intervals() else { return Ok(()) };
            let Ok(s) = b.interval_set() else { return Ok(()) };
            walk(q, &points(&l), &s, steps)
        }
        Case::Sets(ops) => sets(prop, ops),
        Case::Cat(s) => {
            let got = s.parse::<Cat>();
            match (cat(s), got) {
                (Some(k), Ok(c)) => ensure!(c == ALLCATS[k], "parse {s:?}: got {c:?}"),
                (None, Err(Error::InvalidCategory(e))) => ensure!(*e == **s, "parse {s:?}: error carries {e:?}"),
                (_, got) => return Err(format!("parse {s:?}: got {got:?}")),
            }
            Ok(())
        }
        Case::Ver(s) => {
            let got = s.parse::<Ver>();
            match (VERS.iter().position(|v| v == s), got) {
                (Some(k), Ok(c)) => ensure!(c == ALLVERS[k], "parse {s:?}: got {c:?}"),
                (None, Err(Error::InvalidVersion(e))) => ensure!(*e == **s, "parse {s:?}: error carries {e:?}"),
                (_, got) => return Err(format!("parse {s:?}: got {got:?}")),
            }
            Ok(())
        }
        Case::Expand(v, l, how) => expand(u, *v, l, *how),
        Case::Build(v, calls) => {
            let mut rec = Q { v: *v, inc: None, exc: None, incc: None, excc: None, min: None, max: None };
            let helds: Vec<Held> = calls.iter().map(|c| held(&c.1)).collect();
            let mut b = ALLVERS[*v].query();
            for ((what, q), h) in calls.iter().zip(&helds) {
                match what {
                    0 => { b = b.include_categories(q.inc.map(set)); rec.inc = q.inc; }
                    1 => { b = b.exclude_categories(q.exc.map(set)); rec.exc = q.exc; }
                    2 => { b = b.include_characters(&h.inc); rec.incc = Some(q.incc.clone().unwrap_or_default()); }
                    3 => { b = b.exclude_characters(&h.exc); rec.excc = Some(q.excc.clone().unwrap_or_default()); }
                    4 => { let x = q.min.unwrap_or(0); b = b.min_codepoint(x); rec.min = Some(x); }
                    5 => { let x = q.max.unwrap_or(MAX); b = b.max_codepoint(x); rec.max = Some(x); }
                    6 => { b = b.clone(); }
                    _ => {
                        let before = b.clone();
                        let _ = b.intervals();
                        let _ = b.interval_set();
                        ensure!(before == b, "running a query changed it: {}", describe(&rec));
                    }
                }
            }
            let (got, want) = (b.intervals(), u.query(&rec));
            match (&got, &want) {
                (Ok(l), Ok(w)) => ensure!(&points(l) == w, "after {} setter calls leaving {}: got {} want {}", calls.len(), describe(&rec), diff(&points(l), w), show(w)),
                (Err(e), Err(f)) => ensure!(same_err(e, f), "after setter calls leaving {}: got {e:?} want {f:?}", describe(&rec)),
                _ => return Err(format!("after setter calls leaving {}: got {} want {want:?}", describe(&rec), if got.is_ok() { "intervals" } else { "an error" })),
            }
            let again = held(&rec);
            ensure!(build(&rec, &again, 0).intervals() == got, "two builders with the same settings differ: {}", describe(&rec));
            Ok(())
        }
        Case::Err(k, s, a, b) if *k >= 4 => {
            // errors as the library itself makes them
            let ver = ALLVERS[(*a % 11) as usize];
            let known = class(s).is_some() || cat(s).is_some();
            let not_cat = |s: &str| format!("'{s}' is not a valid Unicode category");
            let (e, want) = match k {
                4 => (s.parse::<Cat>().err(), not_cat(s)),
                5 => (s.parse::<Ver>().err(), format!("'{s}' is not a valid Unicode version")),
                6 => (as_general_categories(["Lu", "P", s.as_str(), "!"], ver).err(), not_cat(if known { "!" } else { s })),
                _ => (ver.query().min_codepoint(*a).max_codepoint(*b).intervals().err(), if *a > MAX || *b > MAX { format!("Codepoints should be in [0; 1114111] range. Got: [{a}; {b}]") } else { format!("Minimum codepoint should be less or equal than maximum codepoint. Got {a} < {b}") }),
            };
            if let Some(e) = e {
                let got = e.to_string();
                ensure!(got == want, "{e:?} prints {got:?}, want {want:?}");
            }
            Ok(())
        }
        Case::Err(k, s, a, b) => {
            let (e, want) = match k {
                0 => (Error::InvalidCategory(s.as_str().into()), format!("'{s}' is not a valid Unicode category")),
                1 => (Error::InvalidVersion(s.as_str().into()), format!("'{s}' is not a valid Unicode version")),
                2 => (Error::InvalidCodepoints(*a, *b), format!("Minimum codepoint should be less or equal than maximum codepoint. Got {a} < {b}")),
                _ => (Error::CodepointNotInRange(*a, *b), format!("Codepoints should be in [0; 1114111] range. Got: [{a}; {b}]")),
            };
            let got = e.to_string();
            ensure!(got == want, "{e:?} prints {got:?}, want {want:?}");
            let mut n = String::new();
            ensure!(write!(n, "<{e}>").is_ok() && n == format!("<{want}>"), "{e:?} prints {n:?} inside a larger text");
            Ok(())
        }
        Case::Fact(n) => fact(u, prop, *n),
        Case::Seq(l) => {
            // an earlier case may fail or panic by itself: only the last one counts
            let (last, before) = l.split_last().unwrap();
            for c in before { let _ = catch_unwind(AssertUnwindSafe(|| check(u, prop, c))); }
            check(u, prop, last)
        }
    }
}

/// the first few points where two sets differ
fn diff(a: &[Iv], b: &[Iv]) -> String {
    let has = |s: &[Iv], c: u32| { let i = s.partition_point(|x| x.1 < c); i < s.len() && s[i].0 <= c };
    let mut at: BTreeSet<u32> = BTreeSet::new();
    for &(x, y) in a.iter().chain(b) { at.insert(x); at.insert(y); at.insert(y.saturating_add(1)); }
    let d: Vec<u32> = at.into_iter().filter(|c| has(a, *c) != has(b, *c)).take(4).collect();
    format!("{} (differs at {})", show(a), d.iter().map(|c| format!("U+{c:04X}")).collect::<Vec<_>>().join(" "))
}

fn look(prop: &str, q: &Q, pts: &[Iv], s: &IntervalSet, probes: &[u32]) -> R {
    let n = size(pts);
    let mut starts = Vec::with_capacity(pts.len() + 1);
    let mut sum = 0u64;
    for &(a, b) in pts { starts.push(sum); sum += (b - a) as u64 + 1; }
    let below = |c: u32| -> u64 {
        let i = pts.partition_point(|x| x.1 < c);
        if i == pts.len() { n } else { starts[i] + if c > pts[i].0 { (c - pts[i].0) as u64 } else { 0 } }
    };
    let has = |c: u32| { let i = pts.partition_point(|x| x.1 < c); i < pts.len() && pts[i].0 <= c };
    let at = |p: u64| -> Option<u32> {
        if p >= n { return None; }
        let i = starts.partition_point(|x| *x <= p) - 1;
        Some(pts[i].0 + (p - starts[i]) as u32)
    };
    let copy = s.clone();
    let s = if probes.len() % 2 == 1 { &copy } else { s };
    let c6 = prop == "C06" || prop == "C17";
    let c7 = prop == "C07" || prop == "C17";
    if c6 {
        ensure!(s.len() as u64 == n, "{}: len {} want {n}", describe(q), s.len());
        ensure!(s.is_empty() == (n == 0), "{}: is_empty {}", describe(q), s.is_empty());
    }
    for &x in probes {
        if c6 {
            ensure!(s.codepoint_at(x) == at(x as u64), "{}: codepoint_at({x}) = {:?} want {:?}", describe(q), s.codepoint_at(x), at(x as u64));
            let want = has(x).then(|| below(x) as u32);
            ensure!(s.index_of(x) == want, "{}: index_of({x:#x}) = {:?} want {want:?}", describe(q), s.index_of(x));
            ensure!(s.contains(x) == has(x), "{}: contains({x:#x}) = {}", describe(q), s.contains(x));
            if let Some(c) = char::from_u32(x) {
                ensure!(s.index_of(c) == want && s.contains(c) == has(x), "{}: lookup of char {c:?} differs from its number", describe(q));
            }
            if x < 256 {
                ensure!(s.index_of(x as u8) == want && s.contains(x as u8) == has(x), "{}: lookup of u8 {x} differs", describe(q));
            }
            if x < 65536 {
                ensure!(s.index_of(x as u16) == want && s.contains(x as u16) == has(x), "{}: lookup of u16 {x} differs", describe(q));
            }
            if let Some(c) = s.codepoint_at(x) {
                ensure!(s.index_of(c) == Some(x), "{}: index_of(codepoint_at({x})) = {:?}", describe(q), s.index_of(c));
            }
        }
        if c7 {
            let want = below(x) as u32;
            ensure!(s.index_above(x) == want, "{}: index_above({x:#x}) = {} want {want}", describe(q), s.index_above(x));
            if let Some(c) = char::from_u32(x) {
                ensure!(s.index_above(c) == want, "{}: index_above of char {c:?} differs", describe(q));
            }
            if x < 256 { ensure!(s.index_above(x as u8) == want, "{}: index_above of u8 {x} differs", describe(q)); }
        }
    }
    Ok(())
}

/// the members of a set, by position
struct Order<'a> { pts: &'a [Iv], starts: Vec<u64>, n: usize }
impl Order<'_> {
    fn at(&self, p: usize) -> u32 {
        let i = self.starts.partition_point(|x| *x <= p as u64) - 1;
        self.pts[i].0 + (p as u64 - self.starts[i]) as u32
    }
    /// the members at positions lo..hi
    fn items(&self, lo: usize, hi: usize) -> impl DoubleEndedIterator<Item = u32> + '_ {
        let first = self.starts.partition_point(|x| *x <= lo as u64).saturating_sub(1);
        let last = self.starts.partition_point(|x| (*x as usize) < hi);
        (first..last).flat_map(move |i| {
            let (a, b) = self.pts[i];
            let s = self.starts[i] as usize;
            let from = a + lo.saturating_sub(s) as u32;
            let to = if hi < s + (b - a) as usize + 1 { a + (hi - s) as u32 } else { b + 1 };
            from..to.max(from)
        })
    }
}

fn walk(q: &Q, pts: &[Iv], s: &IntervalSet, steps: &[u8]) -> R {
    let mut starts = Vec::with_capacity(pts.len());
    let mut sum = 0u64;
    for &(a, b) in pts { starts.push(sum); sum += (b - a) as u64 + 1; }
    let want = Order { pts, starts, n: sum as usize };
    let large = want.n > 20_000;
    let budget = std::cell::Cell::new(6_000_000usize);
    let spend = |k: usize| { let ok = budget.get() >= k; if ok { budget.set(budget.get() - k); } ok };
    let (mut lo, mut hi) = (0usize, want.n);
    let mut it = if steps.len() % 2 == 0 { s.iter() } else { s.into_iter() };
    let h = |a: u64, c: u32| a.wrapping_mul(31).wrapping_add(c as u64);
    for (n, st) in steps.iter().enumerate() {
        let where_ = || format!("{}: step {n} of {steps:?}", describe(q));
        let kind = st % 10;
        if kind >= 4 && kind != 6 && !spend(hi - lo) { continue; }
        match kind {
            0 => {
                let w = if lo < hi { lo += 1; Some(want.at(lo - 1)) } else { None };
                let g = it.next();
                ensure!(g == w, "{}: next() = {g:?} want {w:?}", where_());
            }
            1 => {
                let w = if lo < hi { hi -= 1; Some(want.at(hi)) } else { None };
                let g = it.next_back();
                ensure!(g == w, "{}: next_back() = {g:?} want {w:?}", where_());
            }
            2 | 3 => {
                // the count of items to pass over: a few, some part of the rest, about the rest, far beyond
                let m = *st as usize / 10;
                let k = match m {
                    0..=7 => m,
                    8..=13 => (m - 6) * 7,
                    14..=19 => (hi - lo) * (m - 13) / 7,
                    20 => (hi - lo).saturating_sub(1),
                    21 => hi - lo,
                    22 => hi - lo + 1,
                    23 => u32::MAX as usize,
                    _ => usize::MAX,
                };
                if !spend(k.min(hi - lo)) { continue; }
                let back = kind == 3;
                let inside = k < hi - lo;
                let w = if inside { Some(if back { want.at(hi - 1 - k) } else { want.at(lo + k) }) } else { None };
                if back { hi = if inside { hi - k - 1 } else { lo } } else { lo = if inside { lo + k + 1 } else { hi } }
                let g = if back { it.nth_back(k) } else { it.nth(k) };
                ensure!(g == w, "{}: nth{}({k}) = {g:?} want {w:?}", where_(), if back { "_back" } else { "" });
            }
            4 => {
                ensure!(it.clone().eq(want.items(lo, hi)), "{}: the rest is not the {} items wanted", where_(), hi - lo);
                let v: Vec<u32> = if large { Vec::new() } else { it.clone().collect() };
                ensure!(large || v.iter().copied().eq(want.items(lo, hi)), "{}: collect", where_());
            }
            5 => {
                ensure!(it.clone().rev().eq(want.items(lo, hi).rev()), "{}: the rest backwards differs", where_());
                let g = it.clone().rfold(0u64, h);
                ensure!(g == want.items(lo, hi).rev().fold(0, h), "{}: rfold", where_());
            }
            6 => {
                let (a, b) = it.size_hint();
                ensure!(a <= hi - lo && b.is_none_or(|b| b >= hi - lo), "{}: size_hint {:?} for {}", where_(), (a, b), hi - lo);
            }
            7 => {
                let (first, last) = if lo < hi { (Some(want.at(lo)), Some(want.at(hi - 1))) } else { (None, None) };
                ensure!(it.clone().count() == hi - lo, "{}: count", where_());
                ensure!(it.clone().last() == last, "{}: last", where_());
                ensure!(it.clone().max() == last && it.clone().min() == first, "{}: min/max", where_());
                ensure!(it.clone().rev().last() == first, "{}: last from the back", where_());
            }
            8 => {
                let w = want.items(lo, hi).fold(0u64, h);
                ensure!(it.clone().fold(0u64, h) == w, "{}: fold", where_());
                let mut a = 0u64;
                it.clone().for_each(|c| a = h(a, c));
                ensure!(a == w, "{}: for_each", where_());
                if lo < hi {
                    // stopping early and going on
                    let c = want.at(lo + (hi - lo) / 2);
                    let mut i2 = it.clone();
                    ensure!(i2.any(|x| x == c), "{}: any", where_());
                    ensure!(i2.next() == (lo + (hi - lo) / 2 + 1 < hi).then(|| want.at(lo + (hi - lo) / 2 + 1)), "{}: next after any", where_());
                    let mut i3 = it.clone();
                    ensure!(i3.position(|x| x == c) == Some((hi - lo) / 2) && it.clone().find(|x| *x >= c) == Some(c), "{}: position/find", where_());
                    let mut i4 = it.clone();
                    ensure!(i4.rfind(|x| *x <= c) == Some(c), "{}: rfind", where_());
                    ensure!(i4.eq(want.items(lo, lo + (hi - lo) / 2)), "{}: the rest after rfind", where_());
                }
            }
            _ => {
                ensure!(it.clone().skip(1).step_by(3).eq(want.items(lo, hi).skip(1).step_by(3)), "{}: skip/step_by", where_());
                let k = (*st as usize / 10) % 5;
                ensure!(it.clone().rev().skip(k).step_by(2).eq(want.items(lo, hi).rev().skip(k).step_by(2)), "{}: rev/skip/step_by", where_());
            }
        }
    }
    if spend(hi - lo) { ensure!(it.eq(want.items(lo, hi)), "{}: after steps {steps:?} what remains is not the {} items wanted", describe(q), hi - lo); }
    Ok(())
}

fn members(m: u32) -> Vec<Cat> {
    (0..30).filter(|k| m >> k & 1 == 1).map(|k| ALLCATS[k]).collect()
}

fn sets(prop: &str, ops: &[(u8, u32)]) -> R {
    let mut s = Set::new();
    let mut m = 0u32;
    let full = 0x3fff_ffffu32;
    for (n, &(op, arg)) in ops.iter().enumerate() {
        let k = arg as usize % 30;
        let c = ALLCATS[k];
        let am = arg & full;
        match op % 16 {
            0 => { s.add(c); m |= 1 << k; }
            1 => { s.remove(c); m &= !(1 << k); }
            2 => { s |= c; m |= 1 << k; }
            3 => { s |= set(am); m |= am; }
            4 => { s = s | c; m |= 1 << k; }
            5 => { s = c | s; m |= 1 << k; }
            6 => { s = s | set(am); m |= am; }
            7 => { s = set(am) | s; m |= am; }
            8 => { s = Set::new(); m = 0; }
            9 => { s = Set::all(); m = full; }
            10 => { s = Set::default(); m = 0; }
            11 => { s = Set::from(c); m = 1 << k; }
            12 => { s = Option::<Set>::from(c).ok_or("no set from a category")?; m = 1 << k; }
            13 => { let d = ALLCATS[(arg / 30) as usize % 30]; s = c | d; m = 1 << k | 1 << pos(d); }
            14 => { s = [Cat::L, Cat::M, Cat::N, Cat::P, Cat::S, Cat::Z, Cat::C][arg as usize % 7]; m = class(["L", "M", "N", "P", "S", "Z", "C"][arg as usize % 7]).unwrap(); }
            _ => { let t = s; s.add(c); s.remove(c); if m >> k & 1 == 1 { s.add(c); } if t != s { return Err(format!("adding and removing {c:?} changes {t:?} to {s:?}")); } }
        }
        let h = || format!("after {:?}", &ops[..=n]);
        if prop != "C09" {
            let text: Vec<&str> = members(m).iter().map(|c| CATS[pos(*c)]).collect();
            ensure!(s.to_string() == text.join(", "), "{}: prints {:?}", h(), s.to_string());
            if prop == "C10" { continue; }
        }
        for j in 0..30 {
            ensure!(s.contains(ALLCATS[j]) == (m >> j & 1 == 1), "{}: contains({}) = {}", h(), CATS[j], s.contains(ALLCATS[j]));
        }
        ensure!(s.len() == m.count_ones() as usize, "{}: len {}", h(), s.len());
        ensure!(s.is_empty() == (m == 0), "{}: is_empty {}", h(), s.is_empty());
        ensure!(s == set(m), "{}: not equal to the set of its members", h());
        #[allow(clippy::clone_on_copy)]
        let t = s.clone();
        ensure!(t == s && !(t != s), "{}: a clone is not equal", h());
        {
            ensure!(same_hash(&s, &set(m)), "{}: equal sets hash differently", h());
        }
        ensure!(s != set(m ^ (1 << k)), "{}: equal to a different set", h());
        let want = members(m);
        let mut it = s.iter();
        for (j, w) in want.iter().enumerate() {
            let rem = want.len() - j;
            ensure!(it.len() == rem, "{}: len() {} with {rem} to go", h(), it.len());
            ensure!(it.size_hint() == (rem, Some(rem)), "{}: size_hint() {:?} with {rem} to go", h(), it.size_hint());
            let g = it.next();
            ensure!(g == Some(*w), "{}: item {j} is {g:?} want {w:?}", h());
        }
        for _ in 0..2 {
            ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)) && it.next().is_none(), "{}: items after the last", h());
        }
        let r = want.len();
        ensure!(s.iter().peekable().len() == r, "{}: peekable().len()", h());
        ensure!(s.iter().enumerate().len() == r, "{}: enumerate().len()", h());
        for j in [0usize, 1, 5, 40] {
            ensure!(s.iter().take(j).len() == r.min(j), "{}: take({j}).len()", h());
            ensure!(s.iter().skip(j).len() == r.saturating_sub(j), "{}: skip({j}).len()", h());
            ensure!(s.iter().nth(j) == want.get(j).copied(), "{}: nth({j})", h());
            let mut i2 = s.iter();
            let _ = i2.nth(j);
            let left: Vec<Cat> = i2.collect();
            ensure!(left == want.get(j + 1..).unwrap_or(&[]), "{}: the rest after nth({j})", h());
            // methods that consume what is left of an iterator
            let used = |n: usize| { let mut i = s.iter(); for _ in 0..n { i.next(); } i };
            let rest = want.get(j..).unwrap_or(&[]);
            ensure!(used(j).count() == rest.len(), "{}: count after {j}", h());
            ensure!(used(j).last() == rest.last().copied(), "{}: last after {j}", h());
            ensure!(used(j).nth(1) == rest.get(1).copied(), "{}: nth(1) after {j}", h());
            ensure!(used(j).collect::<Vec<_>>() == rest, "{}: collect after {j}", h());
            ensure!(used(j).skip(1).step_by(2).collect::<Vec<_>>() == rest.iter().copied().skip(1).step_by(2).collect::<Vec<_>>(), "{}: skip/step_by after {j}", h());
        }
        ensure!(s.iter().count() == r && s.iter().last() == want.last().copied(), "{}: count/last", h());
        ensure!(s.iter().collect::<Vec<_>>() == want, "{}: collect", h());
        for j in [r.saturating_sub(1), r, r + 1, usize::MAX] { ensure!(s.iter().nth(j) == want.get(j).copied(), "{}: nth({j})", h()); }
        let mut at = 0;
        s.iter().for_each(|c| if want.get(at) == Some(&c) { at += 1 } else { at = 1000 });
        ensure!(at == r, "{}: for_each", h());
        if r > 0 {
            let mut i3 = s.iter();
            ensure!(i3.position(|c| c == want[r / 2]) == Some(r / 2) && i3.eq(want[r / 2 + 1..].iter().copied()), "{}: position", h());
        }
        ensure!(s.iter().fold(0usize, |a, c| a.wrapping_mul(31) ^ pos(c)) == want.iter().fold(0usize, |a, c| a.wrapping_mul(31) ^ pos(*c)), "{}: fold", h());
    }
    Ok(())
}

fn expand(u: &Ucd, v: usize, l: &[String], how: u32) -> R {
    let ver = ALLVERS[v];
    let got = match how % 4 {
        0 => as_general_categories(l, ver),
        1 => as_general_categories(l.iter().map(|s| s.as_str()), ver),
        2 => as_general_categories(l.to_vec(), ver),
        _ => as_general_categories(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>(), ver),
    };
    let mut want = 0u32;
    let mut bad = None;
    for s in l {
        match class(s).or_else(|| cat(s).map(|k| 1 << k)) {
            Some(m) => want |= m,
            None => { bad = Some(s); break; }
        }
    }
    match (got, bad) {
        (Err(Error::InvalidCategory(e)), Some(b)) => ensure!(*e == **b, "{} {l:?}: error carries {e:?}", VERS[v]),
        (Ok(r), None) => {
            let w: Vec<Cat> = u.normalized(v).into_iter().filter(|k| want >> k & 1 == 1).map(|k| ALLCATS[k]).collect();
            ensure!(r == w, "{} {l:?}: got {r:?} want {w:?}", VERS[v]);
        }
        (g, b) => return Err(format!("{} {l:?}: got {g:?}, first bad entry {b:?}", VERS[v])),
    }
    Ok(())
}

/// facts 0..330: one category of one version; 330..341: one version; 341..371 one category; 371 the rest
fn same_hash<T: std::hash::Hash>(a: &T, b: &T) -> bool {
    let h = |x: &T| { let mut d = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut d); std::hash::Hasher::finish(&d) };
    h(a) == h(b)
}

fn fact(u: &Ucd, prop: &str, n: u32) -> R {
    let n = n as usize;
    if n < 330 {
        let (v, k) = (n / 30, n % 30);
        let l = ALLVERS[v].intervals_for(ALLCATS[k]);
        let t = ALLVERS[v].table();
        ensure!(t.len() == 30 && t[k] == l, "{} {}: table() and intervals_for() differ", VERS[v], CATS[k]);
        if matches!(prop, "C04") {
            ensure!(canonical(l) && !l.is_empty(), "{} {}: list not canonical: {}", VERS[v], CATS[k], show(l));
            for j in 0..k {
                for &(a, b) in t[j] {
                    let i = l.partition_point(|x| x.1 < a);
                    ensure!(i >= l.len() || l[i].0 > b, "{}: {} and {} share U+{:04X}", VERS[v], CATS[j], CATS[k], a.max(l[i].0));
                }
            }
            if k == 0 {
                let all: u64 = t.iter().map(|l| size(&points(l))).sum();
                ensure!(all == 0x110000, "{}: the categories hold {all} code points in total", VERS[v]);
            }
        }
        if matches!(prop, "C05" | "C01") { ensure!(l == &u.lists[v][k][..], "{} {}: {}", VERS[v], CATS[k], diff(l, &u.lists[v][k])); }
        return Ok(());
    }
    if n < 341 {
        let v = n - 330;
        let ver = ALLVERS[v];
        match prop {
            "C12" => {
                let got: Vec<usize> = ver.normalized_categories().iter().map(|c| pos(*c)).collect();
                let t = ver.table();
                let mut k: Vec<usize> = (0..30).filter(|&k| k != 2 && k != 26).collect();
                k.sort_by_key(|&k| (t[k].len(), CATS[k]));
                k.push(2);
                k.push(26);
                ensure!(got == k, "{}: {:?}", VERS[v], ver.normalized_categories());
            }
            _ => {
                ensure!(ver.as_str() == VERS[v] && ver.to_string() == VERS[v], "{} prints {}", VERS[v], ver);
                ensure!(VERS[v].parse::<Ver>() == Ok(ver), "{} does not parse to itself", VERS[v]);
                ensure!(ver as usize == v, "{} has number {}", VERS[v], ver as usize);
                ensure!(Ver::ALL[v] == ver, "ALL[{v}] is {}", Ver::ALL[v]);
                for w in 0..11 {
                    ensure!((ver == ALLVERS[w]) == (v == w) && (ver != ALLVERS[w]) == (v != w), "{} == {} is {}, != is {}", VERS[v], VERS[w], ver == ALLVERS[w], ver != ALLVERS[w]);
                }
                #[allow(clippy::clone_on_copy)]
                let twin = ver.clone();
                ensure!(twin as usize == v && same_hash(&twin, &ver), "a clone of {} is {}", VERS[v], twin);
            }
        }
        return Ok(());
    }
    if n < 371 {
        let k = n - 341;
        let c = ALLCATS[k];
        ensure!(c.as_str() == CATS[k] && c.to_string() == CATS[k], "{} prints {}", CATS[k], c);
        ensure!(CATS[k].parse::<Cat>() == Ok(c), "{} does not parse to itself", CATS[k]);
        for j in 0..30 {
            ensure!((c == ALLCATS[j]) == (j == k) && (c != ALLCATS[j]) == (j != k), "{} == {} is {}, != is {}", CATS[k], CATS[j], c == ALLCATS[j], c != ALLCATS[j]);
        }
        #[allow(clippy::clone_on_copy)]
        let twin = c.clone();
        ensure!(twin as usize == k && same_hash(&twin, &c), "a clone of {} is {}", CATS[k], twin);
        let aliases = [
            (Cat::CLOSE_PUNCTUATION, "Pe"), (Cat::CONNECTOR_PUNCTUATION, "Pc"), (Cat::CONTROL, "Cc"), (Cat::CURRENCY_SYMBOL, "Sc"),
            (Cat::DASH_PUNCTUATION, "Pd"), (Cat::DECIMAL_NUMBER, "Nd"), (Cat::ENCLOSING_MARK, "Me"), (Cat::FINAL_PUNCTUATION, "Pf"),
            (Cat::FORMAT, "Cf"), (Cat::INITIAL_PUNCTUATION, "Pi"), (Cat::LETTER_NUMBER, "Nl"), (Cat::LINE_SEPARATOR, "Zl"),
            (Cat::LOWERCASE_LETTER, "Ll"), (Cat::MATH_SYMBOL, "Sm"), (Cat::MODIFIER_LETTER, "Lm"), (Cat::MODIFIER_SYMBOL, "Sk"),
            (Cat::NONSPACING_MARK, "Mn"), (Cat::OPEN_PUNCTUATION, "Ps"), (Cat::OTHER_LETTER, "Lo"), (Cat::OTHER_NUMBER, "No"),
            (Cat::OTHER_PUNCTUATION, "Po"), (Cat::OTHER_SYMBOL, "So"), (Cat::PARAGRAPH_SEPARATOR, "Zp"), (Cat::PRIVATE_USE, "Co"),
            (Cat::SPACE_SEPARATOR, "Zs"), (Cat::SPACING_MARK, "Mc"), (Cat::SURROGATE, "Cs"), (Cat::TITLECASE_LETTER, "Lt"),
            (Cat::UNASSIGNED, "Cn"), (Cat::UPPERCASE_LETTER, "Lu"),
        ];
        ensure!(aliases[k].0.as_str() == aliases[k].1, "the alias for {} is {}", aliases[k].1, aliases[k].0);
        for (l, s) in [("L", Cat::L), ("M", Cat::M), ("N", Cat::N), ("P", Cat::P), ("S", Cat::S), ("Z", Cat::Z), ("C", Cat::C)] {
            ensure!(s.contains(c) == CATS[k].starts_with(l), "class {l} and {}", CATS[k]);
        }
        return Ok(());
    }
    ensure!(Ver::ALL.len() == 11 && Ver::ALL == ALLVERS, "ALL is {:?}", Ver::ALL);
    ensure!(Ver::latest() == ALLVERS[10], "latest is {}", Ver::latest());
    ensure!(unicode_intervals::query() == ALLVERS[10].query(), "the unversioned query is {:?}", unicode_intervals::query());
    Ok(())
}

// ---- generation

struct Hints {
    nums: Vec<u32>,
    cats: Vec<usize>,
    vers: Vec<usize>,
    strs: Vec<String>,
}

struct Gen<'a> {
    r: Rng,
    u: &'a Ucd,
    h: Hints,
}

impl Gen<'_> {
    fn ver(&mut self) -> usize {
        if !self.h.vers.is_empty() && self.r.chance(40) { return *self.r.pick(&self.h.vers); }
        if self.r.chance(20) { 10 } else { self.r.below(11) }
    }
    fn catk(&mut self) -> usize {
        if !self.h.cats.is_empty() && self.r.chance(40) { *self.r.pick(&self.h.cats) } else { self.r.below(30) }
    }
    fn mask(&mut self) -> u32 {
        let full = 0x3fff_ffff;
        match self.r.below(12) {
            0 => 0,
            1 => full,
            2 | 3 | 4 => 1 << self.catk(),
            5 | 6 => (1 << self.catk()) | (1 << self.catk()),
            7 => full & !(1 << self.catk()),
            8 => class(["L", "M", "N", "P", "S", "Z", "C"][self.r.below(7)]).unwrap(),
            9 => full & !class(["L", "M", "N", "P", "S", "Z", "C"][self.r.below(7)]).unwrap(),
            10 => (1 << self.catk()) | (1 << self.catk()) | (1 << self.catk()) | (1 << self.catk()),
            _ => self.r.next() as u32 & full,
        }
    }
    fn near(&mut self, x: u32) -> u32 {
        match self.r.below(6) {
            0 => x.saturating_sub(1),
            1 => x.saturating_add(1),
            2 => x.saturating_add(self.r.below(8) as u32),
            3 => x.saturating_sub(self.r.below(8) as u32),
            _ => x,
        }
    }
    fn bound(&mut self, v: usize) -> u32 {
        let x = match self.r.below(9) {
            0 => *self.r.pick(&[0, 0, 31, 32, 63, 64, 96, 126, 127, 128, 129, 159, 160, 191, 192, 224, 254, 255, 256, 257, 511, 512]),
            1 | 2 | 3 => { let s = *self.r.pick(&self.u.segs[v]); if self.r.chance(50) { s.0 } else { s.1 } }
            4 => *self.r.pick(&[0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0xf0000, 0x100000, 0xfffd, 0xf8ff, 0x378, 0xe0001]),
            5 => self.r.below(300) as u32,
            6 => self.r.below(0x110000) as u32,
            7 => { let p = self.r.below(21); (1u32 << p).min(MAX) }
            _ => if self.h.nums.is_empty() { self.r.below(0x3000) as u32 } else { *self.r.pick(&self.h.nums) },
        };
        self.near(x).min(MAX)
    }
    fn chars(&mut self, v: usize, lo: u32, hi: u32) -> Vec<u32> {
        let n = match self.r.below(8) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => 3, 5 => self.r.below(12), 6 => self.r.below(40), _ => if self.r.chance(12) { self.length(3000) } else { 4 } };
        let style = self.r.below(6);
        let base = self.bound(v);
        let mut out = Vec::new();
        for i in 0..n {
            let c = match style {
                0 => { let x = if self.r.chance(50) { lo } else { hi }; self.near(x) }
                1 => base.wrapping_add(i as u32),
                2 => base.wrapping_sub(i as u32),
                3 => { let w = if hi > lo { self.r.below((hi - lo) as usize + 1) as u32 } else { 0 }; lo.saturating_add(w) }
                4 => self.r.below(256) as u32,
                _ => self.bound(v),
            };
            let c = if n > 50 && style == 5 { self.r.below(0x110000) as u32 } else { c.min(MAX) };
            out.push(if (0xd800..0xe000).contains(&c) { 0xe000 } else { c });
        }
        if self.r.chance(20) && !out.is_empty() { let c = out[0]; out.push(c); }
        for s in &self.h.strs { if self.r.chance(10) { out.extend(s.chars().map(|c| c as u32)); } }
        out
    }
    fn query(&mut self, wild: bool) -> Q {
        let v = self.ver();
        let (mut a, mut b) = (self.bound(v), self.bound(v));
        match self.r.below(10) {
            0 => b = a,
            1 => b = self.near(a).min(MAX),
            2 | 3 => { a = a & 0xff; b = b % 300; }
            4 => b = a.saturating_add(self.r.below(300) as u32).min(MAX),
            _ => {}
        }
        if a > b && !(wild && self.r.chance(50)) { std::mem::swap(&mut a, &mut b); }
        if wild && self.r.chance(40) {
            let e = *self.r.pick(&[0x110000, 0x110001, 0x10ffff, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 0x11ffff, 0x10fffe, 0x200000, 0x7fff_ffff]);
            if self.r.chance(50) { a = e } else { b = e }
            if self.r.chance(20) { a = self.r.next() as u32; }
            if self.r.chance(20) { b = self.r.next() as u32; }
        }
        let min = if self.r.chance(25) { None } else { Some(a) };
        let max = if self.r.chance(25) { None } else { Some(b) };
        let (lo, hi) = (min.unwrap_or(0), max.unwrap_or(MAX));
        let inc = if self.r.chance(30) { None } else { Some(self.mask()) };
        let exc = if self.r.chance(50) { None } else { Some(self.mask()) };
        let incc = if self.r.chance(45) { None } else { Some(self.chars(v, lo, hi)) };
        let mut excc = if self.r.chance(45) { None } else { Some(self.chars(v, lo, hi)) };
        if let (Some(i), Some(e)) = (&incc, &mut excc) {
            if !i.is_empty() && self.r.chance(40) { let c = i[self.r.below(i.len())]; e.push(c); }
        }
        Q { v, inc, exc, incc, excc, min, max }
    }
    fn string(&mut self, names: &[&str]) -> String {
        if !self.h.strs.is_empty() && self.r.chance(15) { return self.r.pick(&self.h.strs).clone(); }
        let mut s: Vec<char> = self.r.pick(names).chars().collect();
        for _ in 0..self.r.below(3) {
            let i = self.r.below(s.len() + 1);
            let c = *self.r.pick(&['\0', ' ', '\n', '_', '.', '0', '1', '5', '9', 'L', 'l', 'u', 'P', 'C', 'c', 'V', 'v', 'é', 'K', 'ſ', '😀', '{', '}', '\'', '"']);
            match self.r.below(5) {
                0 => s.insert(i, c),
                1 => { if i < s.len() { s[i] = c; } }
                2 => { if i < s.len() { s.remove(i); } }
                3 => { if i < s.len() { s[i] = if s[i].is_uppercase() { s[i].to_ascii_lowercase() } else { s[i].to_ascii_uppercase() }; } }
                _ => { let t = s.clone(); s.extend(t); }
            }
        }
        let mut s: String = s.into_iter().collect();
        if self.r.chance(6) {
            // long ones
            let n = self.length(9000);
            let pad: String = match self.r.below(4) { 0 => "x".into(), 1 => " ".into(), 2 => s.clone(), _ => "é".into() };
            let mut t = s.clone();
            while !pad.is_empty() && t.chars().count() < n { t.push_str(&pad); }
            t = t.chars().take(n.max(1)).collect();
            if self.r.chance(30) { t.push_str(&s); }
            s = t;
        }
        s
    }
    /// a size for something long, often next to a number in the changed text
    fn length(&mut self, cap: u32) -> usize {
        let near: Vec<u32> = self.h.nums.iter().copied().filter(|n| *n > 8 && *n <= 70_000).collect();
        let near: Vec<u32> = if self.r.chance(30) { near } else { near.into_iter().filter(|n| *n <= 20_000).collect() };
        let n = if !near.is_empty() && self.r.chance(50) { *self.r.pick(&near) } else { match self.r.below(4) { 0 => 1u32 << (4 + self.r.below(10)), 1 => self.r.below(cap as usize) as u32, _ => self.r.below(400) as u32 } };
        self.near(n) as usize
    }
    fn case(&mut self, prop: &str) -> Case {
        match prop {
            "C01" | "C02" => { let h = self.r.below(96) as u32; Case::Query(self.query(false), h) }
            "C03" => { let h = self.r.below(96) as u32; Case::Query(self.query(true), h) }
            "C04" => Case::Fact(self.r.below(330) as u32),
            "C05" => if self.r.chance(50) { Case::Fact(self.r.below(330) as u32) } else { Case::Query(Q { incc: None, excc: None, ..self.query(false) }, 0) },
            "C06" | "C07" => {
                let q = self.small();
                let mut p: Vec<u32> = vec![0, 1, 2, u32::MAX, u32::MAX - 1, 0x110000, 0x10ffff, 1 << 31];
                if let Ok(l) = self.u.query(&q) {
                    let mut sum = 0u32;
                    for (i, &(a, b)) in l.iter().enumerate() {
                        if l.len() < 40 || self.r.below(l.len()) < 40 || i + 2 > l.len() {
                            for x in [a, b, sum] { p.push(x); p.push(x.wrapping_add(1)); p.push(x.wrapping_sub(1)); }
                        }
                        sum += b - a + 1;
                    }
                    p.push(sum); p.push(sum.wrapping_sub(1)); p.push(sum + 1);
                    for _ in 0..6 { p.push(self.r.below(sum as usize + 1) as u32); }
                }
                for _ in 0..6 { let v = q.v; p.push(self.bound(v)); }
                let hn = self.h.nums.clone();
                for _ in 0..4 { if !hn.is_empty() { let x = *self.r.pick(&hn); p.push(self.near(x)); } }
                p.push(self.r.next() as u32);
                Case::Look(q, p)
            }
            "C08" => {
                let q = self.small();
                let n = match self.r.below(4) { 0 => self.r.below(6), 1 => self.r.below(30), 2 => self.r.below(300), _ => self.u.query(&q).map(|l| (size(&l) as usize + 3).min(4000)).unwrap_or(4) };
                let plain = self.r.chance(60);
                let s = (0..n).map(|_| if plain { self.r.below(2) as u8 } else { let k = self.r.below(256) as u8; if k % 10 >= 4 && n > 40 && self.r.chance(95) { k & 1 } else { k } }).collect();
                Case::Walk(q, s)
            }
            "C09" => { let n = 1 + self.r.below(8); Case::Sets((0..n).map(|_| { let a = self.mask(); let r = self.r.next() as u32; (self.r.below(16) as u8, if self.r.chance(50) { a } else { r }) }).collect()) }
            "C10" => match self.r.below(3) {
                0 => Case::Sets(vec![(3, self.mask())]),
                _ => Case::Cat(self.string(&CATS)),
            },
            "C11" => Case::Ver(self.string(&VERS)),
            "C12" => Case::Fact(330 + self.r.below(11) as u32),
            "C13" => {
                let n = match self.r.below(4) { 0 => 0, 1 => 1, 2 => self.r.below(6), _ => if self.r.chance(5) { self.length(600).min(5000) } else { self.r.below(40) } };
                let bad = self.r.chance(30);
                let v = self.ver();
                let l = (0..n).map(|_| match self.r.below(10) {
                    0..=3 => ["L", "M", "N", "P", "S", "Z", "C"][self.r.below(7)].to_string(),
                    9 if bad => { if self.r.chance(30) { ["A", "l", "", "LL", "Lx", "Letter", "X", "c", "L&"][self.r.below(9)].to_string() } else { self.string(&CATS) } }
                    _ => CATS[self.catk()].to_string(),
                }).collect();
                Case::Expand(v, l, self.r.below(4) as u32)
            }
            "C14" => {
                let v = self.ver();
                let n = 1 + self.r.below(14);
                Case::Build(v, (0..n).map(|_| { let w = self.r.chance(10); let s = self.r.below(8) as u8; let q = self.query(w); let q = Q { v, inc: q.inc.filter(|_| s == 0), exc: q.exc.filter(|_| s == 1), incc: q.incc.filter(|_| s == 2), excc: q.excc.filter(|_| s == 3), min: q.min.filter(|_| s == 4), max: q.max.filter(|_| s == 5) }; (s, q) }).collect())
            }
            "C18" => { let (a, b) = (self.bound(0), self.r.next() as u32); let s = self.string(&["Lu", "Xx", "", "{}", "'", "a'b", "{category}", "17.0.0", "naïve"]); let k = self.r.below(8) as u8; let x = if self.r.chance(30) { u32::MAX } else { a }; Case::Err(k, s, x, if self.r.chance(30) { a } else { b }) }
            _ => { let p = ["C01", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C18"][self.r.below(11)]; self.case(p) }
        }
    }
    /// a query whose set is often small, sometimes empty, sometimes all of the code space
    fn small(&mut self) -> Q {
        let mut q = self.query(false);
        match self.r.below(8) {
            0 => { q.inc = Some(0); }
            1 => { q = Q { v: q.v, inc: None, exc: None, incc: None, excc: None, min: None, max: None }; if self.r.chance(50) { q.inc = Some(1 << self.catk()); } }
            2 => { q.min = None; q.max = None; }
            _ => { let a = q.min.unwrap_or(0); if self.r.chance(50) { q.min = Some(a); let h = a.saturating_add(self.r.below(400) as u32).min(MAX); q.max = Some(h); } }
        }
        q
    }
    /// cases tried first, the same in every run
    fn fixed(&self, prop: &str) -> Vec<Case> {
        let mut out = Vec::new();
        let none = Q { v: 10, inc: None, exc: None, incc: None, excc: None, min: None, max: None };
        match prop {
            "C04" | "C05" => { for n in 0..330 { out.push(Case::Fact(n)); } }
            "C12" => { for n in 330..341 { out.push(Case::Fact(n)); } }
            "C11" => {
                for n in 330..341 { out.push(Case::Fact(n)); }
                out.push(Case::Fact(371));
                for v in VERS { out.push(Case::Ver(v.into())); for w in [format!("{v}.0"), format!("v{v}"), format!(" {v}"), format!("{v} "), v.replace('.', "_"), v[..v.len() - 2].to_string(), format!("V{}", v.replace('.', "_"))] { out.push(Case::Ver(w)); } }
                for a in 0..20 { out.push(Case::Ver(format!("{a}"))); for b in 0..4 { out.push(Case::Ver(format!("{a}.{b}"))); for c in 0..3 { out.push(Case::Ver(format!("{a}.{b}.{c}"))); } } }
                for n in [32usize, 64, 65, 128, 255, 256, 257, 1024, 4096, 4097, 65537] { for w in VERS.iter().chain(&["Lu"]) { out.push(Case::Ver(format!("{w}{}", "x".repeat(n)))); out.push(Case::Ver(format!("{}{w}", " ".repeat(n)))); } }
                for w in ["", "latest", "LATEST"] { out.push(Case::Ver(w.into())); }
            }
            "C10" => {
                for n in 341..371 { out.push(Case::Fact(n)); }
                let al: Vec<char> = (0u8..128).map(|b| b as char).chain("éßſKÀ😀".chars()).collect();
                out.push(Case::Cat(String::new()));
                for a in &al { out.push(Case::Cat(a.to_string())); for b in &al { out.push(Case::Cat(format!("{a}{b}"))); } }
                for c in CATS { for x in ["{} ", " {}", "{}{}", "{}x", "{}\0"] { out.push(Case::Cat(x.replace("{}", c))); } }
                for n in [32usize, 64, 65, 128, 255, 256, 257, 1024, 4096, 4097, 65537] { for w in CATS.iter().chain(&["10.0.0"]) { out.push(Case::Cat(format!("{w}{}", "x".repeat(n)))); out.push(Case::Cat(format!("{}{w}", " ".repeat(n)))); } }
                for w in ["Letter", "Uppercase_Letter", "UPPERCASE_LETTER", "UppercaseLetter", "Control", "LC"] { out.push(Case::Cat(w.into())); }
                for a in 0..30 { for b in 0..30 { out.push(Case::Sets(vec![(3, 1 << a | 1 << b)])); } }
                for a in 0..7 { out.push(Case::Sets(vec![(14, a)])); }
            }
            "C09" => {
                for op in 0..16u8 { for a in 0..30u32 { for b in [0u32, 1, 0x3fff_ffff, 1 << a, 0x1555_5555] { out.push(Case::Sets(vec![(3, b), (op, a)])); } } }
                for a in 0..30u32 { for b in 0..30u32 { out.push(Case::Sets(vec![(13, a + 30 * b)])); out.push(Case::Sets(vec![(3, 1 << a), (1, b)])); out.push(Case::Sets(vec![(0, a), (0, b), (1, a)])); } }
            }
            "C13" => for v in 0..11 {
                let all: Vec<String> = CATS.iter().map(|s| s.to_string()).collect();
                out.push(Case::Expand(v, all.clone(), 0));
                for c in CATS.iter().chain(&["L", "M", "N", "P", "S", "Z", "C", "", "A", "l", "LC", "L&", "Lz", "lu"]) { for h in 0..4 { out.push(Case::Expand(v, vec![c.to_string()], h)); } }
                for a in ["L", "M", "N", "P", "S", "Z", "C"] { for b in CATS.iter().chain(&["L", "M", "N", "P", "S", "Z", "C", "x"]) { out.push(Case::Expand(v, vec![a.into(), b.to_string()], 0)); out.push(Case::Expand(v, vec![b.to_string(), a.into()], 1)); } }
                let mut l = all; l.push("oops".into()); l.push("worse".into());
                out.push(Case::Expand(v, l, 0));
            },
            "C18" => { for k in 0..8 { for s in ["", "Lu", "{}", "{category}", "'", "a\nb", "{0}", "日本", " Lu", "Lu ", "lu", "LU", " 15", "15.0.0 ", "v15.0.0", "15.0", "\tXX\n", "Letter", "\u{0}"] { for a in [0, 1, 9, 10, 0x10ffff, 0x110000, u32::MAX] { for b in [0, 7, 0x10ffff, u32::MAX] { out.push(Case::Err(k, s.into(), a, b)); } } } } }
            "C01" | "C02" | "C03" | "C05x" => {
                for v in 0..11 {
                    for k in 0..30 {
                        for how in [0, 1] { out.push(Case::Query(Q { v, inc: Some(1 << k), ..none.clone() }, how)); }
                        out.push(Case::Query(Q { v, exc: Some(1 << k), ..none.clone() }, 1));
                        out.push(Case::Query(Q { v, inc: Some(1 << k), max: Some(255), ..none.clone() }, 0));
                        out.push(Case::Query(Q { v, inc: Some(1 << k), max: Some(254), ..none.clone() }, 0));
                        out.push(Case::Query(Q { v, inc: Some(1 << k), max: Some(256), ..none.clone() }, 0));
                        out.push(Case::Query(Q { v, exc: Some(1 << k), min: Some(65), max: Some(0x3ff), ..none.clone() }, 0));
                        for j in 0..k { out.push(Case::Query(Q { v, inc: Some(1 << k | 1 << j), ..none.clone() }, 0)); }
                    }
                    for m in [0, 0x3fff_ffff] { for e in [None, Some(0), Some(0x3fff_ffff)] { for x in [None, Some(255)] { out.push(Case::Query(Q { v, inc: Some(m), exc: e, max: x, ..none.clone() }, 2)); out.push(Case::Query(Q { v, inc: None, exc: e, max: x, ..none.clone() }, 2)); } } }
                }
                let ends = [0u32, 1, 47, 48, 63, 64, 126, 127, 128, 129, 191, 192, 253, 254, 255, 256, 257, 300];
                for a in ends { for b in ends { for inc in [None, Some(1 << 29 | 1 << 12), Some(1u32 << 5), Some(1 << 2)] { for c in [None, Some(vec![a, b]), Some(vec![0, 255]), Some(vec![256])] { for e in [None, Some(vec![b]), Some(vec![a, 65, 66])] {
                    if a <= b || prop == "C03" { out.push(Case::Query(Q { inc, incc: c.clone(), excc: e, min: Some(a), max: Some(b), ..none.clone() }, 0)); }
                } } } } }
                if prop == "C03" {
                    let e = [0u32, 1, 255, 256, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
                    for a in e { for b in e { for v in [0, 5, 10] { for inc in [None, Some(1)] { out.push(Case::Query(Q { v, inc, min: Some(a), max: Some(b), ..none.clone() }, 0)); } } } out.push(Case::Query(Q { min: Some(a), ..none.clone() }, 0)); out.push(Case::Query(Q { max: Some(a), ..none.clone() }, 0)); }
                }
            }
            "C06" | "C07" => {
                for v in 0..11 { for k in 0..30 {
                    let q = Q { v, inc: Some(1 << k), ..none.clone() };
                    let mut p = vec![0u32, 1, u32::MAX, u32::MAX - 1, 0x10ffff, 0x110000];
                    let mut sum = 0u32;
                    for &(a, b) in &self.u.lists[v][k] { for x in [a, b, sum] { p.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]); } sum += b - a + 1; }
                    p.extend([sum, sum.wrapping_sub(1), sum + 1]);
                    out.push(Case::Look(q, p));
                } }
                for q in [Q { inc: Some(0), ..none.clone() }, none.clone(), Q { min: Some(0x10ffff), ..none.clone() }, Q { max: Some(0), ..none.clone() }, Q { min: Some(65), max: Some(90), ..none.clone() }, Q { inc: Some(0), incc: Some(vec![0, 2, 4, 0x10ffff]), ..none.clone() }] {
                    let mut p: Vec<u32> = (0..600).collect();
                    p.extend([0x10fffe, 0x10ffff, 0x110000, u32::MAX, u32::MAX - 1, 1 << 31]);
                    out.push(Case::Look(q, p));
                }
            }
            "C08" => {
                for q in [Q { inc: Some(0), ..none.clone() }, Q { max: Some(0), ..none.clone() }, Q { inc: Some(0), incc: Some(vec![5, 7, 8, 9, 0x10ffff]), ..none.clone() }, Q { min: Some(65), max: Some(70), ..none.clone() }] {
                    for bits in 0..1u32 << 9 { out.push(Case::Walk(q.clone(), (0..9).map(|i| (bits >> i & 1) as u8).collect())); }
                    for a in 0..10u8 { for b in 0..10u8 { for c in 0..10u8 { out.push(Case::Walk(q.clone(), vec![a, b, c])); out.push(Case::Walk(q.clone(), vec![a + 10, b + 20, c + 10, 0])); } } }
                }
                for k in 0..30 { for v in [0, 10] { out.push(Case::Walk(Q { v, inc: Some(1 << k), ..none.clone() }, vec![4, 5, 7])); } }
            }
            "C14" => {
                let q = |s: u8, x: u32| (s, Q { inc: Some(x).filter(|_| s == 0), exc: Some(x).filter(|_| s == 1), incc: Some(vec![x & 0xff]).filter(|_| s == 2), excc: Some(vec![x & 0xff]).filter(|_| s == 3), min: Some(x & 0xff).filter(|_| s == 4), max: Some(0x100 + (x & 0xff)).filter(|_| s == 5), ..none.clone() });
                for v in [0, 10] { for a in 0..8u8 { out.push(Case::Build(v, vec![q(a, 0x65)])); for b in 0..8u8 { for c in 0..8u8 { out.push(Case::Build(v, vec![q(a, 0x2000_0041), q(b, 0x1061), q(c, 0x42)])); out.push(Case::Build(v, vec![q(a, 0x61), q(b, 0x2000_0041), q(c, 0x31), q(a, 0x7)])); } } } }
                for s in 0..2u8 { out.push(Case::Build(10, vec![q(s, 0x20), (s, none.clone())])); out.push(Case::Build(10, vec![(s, none.clone()), q(s, 0)])); }
            }
            _ => {
                for p in ["C03", "C04", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18"] {
                    let f = self.fixed(p);
                    let st = (f.len() / 1500).max(1);
                    out.extend(f.into_iter().step_by(st));
                }
            }
        }
        out
    }
}

fn shrink(u: &Ucd, prop: &str, case: Case, fails: &dyn Fn(&Case) -> bool) -> Case {
    let _ = (u, prop);
    let mut best = case;
    let t = Instant::now();
    loop {
        let mut next = None;
        for c in smaller(&best) {
            if t.elapsed() > Duration::from_secs(5) { return best; }
            if fails(&c) { next = Some(c); break; }
        }
        match next { Some(c) => best = c, None => return best }
    }
}

fn smaller_q(q: &Q) -> Vec<Q> {
    let mut out = Vec::new();
    let d = |f: &dyn Fn(&mut Q)| { let mut n = q.clone(); f(&mut n); n };
    if q.inc.is_some() { out.push(d(&|n| n.inc = None)); }
    if q.exc.is_some() { out.push(d(&|n| n.exc = None)); }
    if q.incc.is_some() { out.push(d(&|n| n.incc = None)); }
    if q.excc.is_some() { out.push(d(&|n| n.excc = None)); }
    if q.min.is_some() { out.push(d(&|n| n.min = None)); }
    if q.max.is_some() { out.push(d(&|n| n.max = None)); }
    for k in 0..30 {
        if q.inc.is_some_and(|m| m >> k & 1 == 1) { out.push(d(&|n| n.inc = n.inc.map(|m| m & !(1 << k)))); }
        if q.exc.is_some_and(|m| m >> k & 1 == 1) { out.push(d(&|n| n.exc = n.exc.map(|m| m & !(1 << k)))); }
    }
    for (which, l) in [(0, &q.incc), (1, &q.excc)] {
        if let Some(l) = l {
            if l.len() > 1 {
                for half in [l[..l.len() / 2].to_vec(), l[l.len() / 2..].to_vec()] { out.push(d(&|n| if which == 0 { n.incc = Some(half.clone()) } else { n.excc = Some(half.clone()) })); }
                if l.len() < 30 { for i in 0..l.len() { let mut s = l.clone(); s.remove(i); out.push(d(&|n| if which == 0 { n.incc = Some(s.clone()) } else { n.excc = Some(s.clone()) })); } }
            }
        }
    }
    out
}

fn smaller(c: &Case) -> Vec<Case> {
    match c {
        Case::Query(q, h) => { let mut v: Vec<Case> = smaller_q(q).into_iter().map(|q| Case::Query(q, *h)).collect(); if *h != 0 { v.push(Case::Query(q.clone(), 0)); } v }
        Case::Look(q, p) => {
            let mut v = Vec::new();
            if p.len() > 1 { v.push(Case::Look(q.clone(), p[..p.len() / 2].to_vec())); v.push(Case::Look(q.clone(), p[p.len() / 2..].to_vec())); }
            v.extend(smaller_q(q).into_iter().map(|q| Case::Look(q, p.clone())));
            v
        }
        Case::Walk(q, p) => {
            let mut v = Vec::new();
            if p.len() > 1 { v.push(Case::Walk(q.clone(), p[..p.len() / 2].to_vec())); v.push(Case::Walk(q.clone(), p[..p.len() - 1].to_vec())); v.push(Case::Walk(q.clone(), p[1..].to_vec())); }
            v.extend(smaller_q(q).into_iter().map(|q| Case::Walk(q, p.clone())));
            v
        }
        Case::Sets(o) => (0..o.len()).filter(|_| o.len() > 1).map(|i| { let mut n = o.clone(); n.remove(i); Case::Sets(n) }).collect(),
        Case::Expand(v, l, h) => (0..l.len()).map(|i| { let mut n = l.clone(); n.remove(i); Case::Expand(*v, n, *h) }).collect(),
        Case::Build(v, l) => (0..l.len()).map(|i| { let mut n = l.clone(); n.remove(i); Case::Build(*v, n) }).collect(),
        _ => vec![],
    }
}

/// does the case fail in a process of its own?
fn alone(prop: &str, case: &Case) -> bool {
    let f = std::env::temp_dir().join(format!("refuter-case-{}", std::process::id()));
    if std::fs::write(&f, case.text()).is_err() { return false; }
    let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["--prop", prop, "--case", &format!("@{}", f.display())]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
    let _ = std::fs::remove_file(&f);
    r.is_ok_and(|s| !s.success())
}

/// a history at whose end the case fails
fn with_history(prop: &str, past: &std::collections::VecDeque<String>, case: &Case) -> Option<Case> {
    let mut n = 1;
    let take = |n: usize| -> Vec<Case> { past.iter().skip(past.len() - n).map(|s| Case::parse(s)).collect() };
    let seq = |mut l: Vec<Case>| { l.push(case.clone()); Case::Seq(l) };
    let mut l = loop {
        let k = n.min(past.len());
        let l = take(k);
        if alone(prop, &seq(l.clone())) { break l; }
        if k == past.len() { return None; }
        n *= 4;
    };
    // fewer steps
    let t = Instant::now();
    let mut size = l.len().div_ceil(2);
    while size >= 1 && t.elapsed() < Duration::from_secs(30) {
        let (mut i, mut any) = (0, false);
        while i < l.len() && t.elapsed() < Duration::from_secs(30) {
            let mut m = l.clone();
            m.drain(i..(i + size).min(l.len()));
            if alone(prop, &seq(m.clone())) { l = m; any = true; } else { i += size; }
        }
        if size == 1 && !any { break; }
        size = if size == 1 { 1 } else { size.div_ceil(2).min(size - 1) };
        if l.is_empty() { break; }
    }
    Some(seq(l))
}

static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);

fn run(u: &Ucd, prop: &str, case: &Case) -> R {
    match catch_unwind(AssertUnwindSafe(|| check(u, prop, case))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => if prop == "C17" { Ok(()) } else { Err(e) },
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panics: {m}"))
        }
    }
}

/// answers requests with what the real core library returns (the oracle for the Python binding)
fn serve() {
    use std::io::{BufRead, Write as _};
    fn text(s: &str) -> String { if s.is_empty() { String::new() } else { s.split('.').map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect() } }
    // "-" is an omitted argument, "=..." a given one; a list is "=s<hex>,s<hex>"
    fn opt(s: &str) -> Option<&str> { s.strip_prefix('=') }
    fn list(s: &str) -> Vec<String> { if s.is_empty() { vec![] } else { s.split(',').map(|x| text(&x[1..])).collect() } }
    fn set(l: &[String]) -> Result<Set, ()> {
        let mut s = Set::new();
        for n in l { s |= n.parse::<Cat>().map_err(|_| ())?; }
        Ok(s)
    }
    fn ver(s: &str) -> Ver { match opt(s) { Some(v) => Ver::ALL[v.parse::<usize>().unwrap()], None => Ver::latest() } }
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let a: Vec<&str> = l.split('\t').collect();
        let r = catch_unwind(AssertUnwindSafe(|| match a[0] {
            "v" => format!("ok {} {}", Ver::ALL.iter().map(|v| v.as_str()).collect::<Vec<_>>().join(","), Ver::latest().as_str()),
            "q" => {
                let inc = match opt(a[2]).map(|x| set(&list(x))) { Some(Err(())) => return "name".into(), Some(Ok(s)) => Some(s), None => None };
                let exc = match opt(a[3]).map(|x| set(&list(x))) { Some(Err(())) => return "name".into(), Some(Ok(s)) => Some(s), None => None };
                let (ic, ec) = (opt(a[6]).map(text), opt(a[7]).map(text));
                let mut q = if opt(a[1]).is_some() { ver(a[1]).query() } else { unicode_intervals::query() };
                if let Some(s) = inc { q = q.include_categories(s); }
                if let Some(s) = exc { q = q.exclude_categories(s); }
                if let Some(m) = opt(a[4]) { q = q.min_codepoint(m.parse().unwrap()); }
                if let Some(m) = opt(a[5]) { q = q.max_codepoint(m.parse().unwrap()); }
                if let Some(t) = &ic { q = q.include_characters(t); }
                if let Some(t) = &ec { q = q.exclude_characters(t); }
                match q.intervals() {
                    Ok(v) => format!("ok {}", v.iter().map(|(x, y)| format!("{x}-{y}")).collect::<Vec<_>>().join(",")),
                    Err(_) => "err".into(),
                }
            }
            "c" => format!("ok {}", ver(a[1]).normalized_categories().iter().map(|c| c.as_str()).collect::<Vec<_>>().join(",")),
            "g" => match as_general_categories(list(opt(a[2]).unwrap()), ver(a[1])) {
                Ok(v) => format!("ok {}", v.iter().map(|c| c.as_str()).collect::<Vec<_>>().join(",")),
                Err(_) => "err".into(),
            },
            _ => "bad".to_string(),
        }));
        let mut o = out.lock();
        writeln!(o, "{}", r.unwrap_or_else(|_| "panic".into())).unwrap();
        o.flush().unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let u = load();
    std::panic::set_hook(Box::new(|_| {}));
    // a case that does not come back
    let limit = 20;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let c = CURRENT.lock().unwrap();
        if let Some((t, s)) = &*c {
            if t.elapsed() > Duration::from_secs(limit) {
                println!("FOUND {s}\nWHAT does not return within {limit} s");
                std::process::exit(1);
            }
        }
    });
    if args.iter().any(|a| a == "--serve") { return serve(); }
    let prop = get("--prop").expect("--prop");
    if let Some(s) = get("--case") {
        let s = match s.strip_prefix('@') { Some(f) => std::fs::read_to_string(f).unwrap(), None => s };
        *CURRENT.lock().unwrap() = Some((Instant::now(), s.clone()));
        let c = Case::parse(&s);
        match run(&u, &prop, &c) {
            Ok(()) => { println!("HOLDS {s}"); std::process::exit(0); }
            Err(e) => { println!("FOUND {s}\nWHAT {e}"); std::process::exit(1); }
        }
    }
    let secs: f64 = get("--secs").map_or(5.0, |s| s.parse().unwrap());
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let mut h = Hints { nums: vec![], cats: vec![], vers: vec![], strs: vec![] };
    if let Some(f) = get("--hints") {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let Some((k, x)) = l.split_once(' ') else { continue };
            match k {
                "n" => { if let Ok(n) = x.parse() { h.nums.push(n) } }
                "c" => { if let Some(k) = cat(x) { h.cats.push(k) } }
                "v" => { if let Some(k) = VERS.iter().position(|v| *v == x) { h.vers.push(k) } }
                "s" => h.strs.push(unostr(x)),
                _ => {}
            }
        }
    }
    let mut g = Gen { r: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1)), u: &u, h };
    let t = Instant::now();
    let mut n = 0u64;
    let mut sample: Vec<String> = Vec::new();
    let mut fixed = g.fixed(&prop).into_iter();
    let nfixed = fixed.len();
    let mut done_fixed = false;
    let mut seen = std::collections::HashSet::new();
    let mut past: std::collections::VecDeque<String> = Default::default();
    let mut n_lost = 0;
    let last = get("--last");
    loop {
        let c = match fixed.next() { Some(c) => c, None => { done_fixed = true; g.case(&prop) } };
        let text = c.text();
        if n < 2 || n == nfixed as u64 + 3 { sample.push(text.chars().take(200).collect()); }
        { use std::hash::{Hash, Hasher}; let mut hs = std::collections::hash_map::DefaultHasher::new(); text.hash(&mut hs); seen.insert(hs.finish()); }
        if let Some(f) = &last { let _ = std::fs::write(f, &text); }
        *CURRENT.lock().unwrap() = Some((Instant::now(), text.clone()));
        n += 1;
        if run(&u, &prop, &c).is_err() {
            let first = run(&u, &prop, &c).err();
            *CURRENT.lock().unwrap() = None;
            let c = if alone(&prop, &c) {
                let s = shrink(&u, &prop, c.clone(), &|c| { *CURRENT.lock().unwrap() = Some((Instant::now(), c.text())); run(&u, &prop, c).is_err() });
                *CURRENT.lock().unwrap() = None;
                if s == c || alone(&prop, &s) { s } else { c }
            } else {
                match with_history(&prop, &past, &c) { Some(s) => s, None => { n_lost += 1; if n_lost > 20 { break; } continue } }
            };
            let e = run(&u, &prop, &c).err().or(first).unwrap_or_else(|| "fails after these calls in a new process".into());
            println!("FOUND {}\nWHAT {}", c.text(), e.chars().take(2000).collect::<String>());
            std::process::exit(1);
        }
        if text.len() < 4000 { past.push_back(text); if past.len() > 3000 { past.pop_front(); } }
        if done_fixed && n % 16 == 0 && t.elapsed().as_secs_f64() > secs { break; }
    }
    println!("NONE cases={n} distinct={} fixed={nfixed} secs={:.1}", seen.len(), t.elapsed().as_secs_f64());
    for s in sample { println!("SAMPLE {s}"); }
}
