//! What the answers must be, worked out without the library: category data from data/ucd.txt.
use std::collections::BTreeSet;

pub const CATS: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk",
    "Mn", "Ps", "Lo", "No", "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];
pub const VERS: [&str; 11] = [
    "9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0",
    "16.0.0", "17.0.0",
];
pub const MAX: u32 = 0x10ffff;

pub type Iv = (u32, u32);

pub struct Ucd {
    /// version -> category -> intervals
    pub lists: Vec<Vec<Vec<Iv>>>,
    /// version -> (start, end, category), in order
    pub segs: Vec<Vec<(u32, u32, u8)>>,
}

pub fn load() -> Ucd {
    let text = include_str!("../../data/ucd.txt");
    let mut lists: Vec<Vec<Vec<Iv>>> = Vec::new();
    for line in text.lines() {
        let (a, b) = line.split_once(' ').unwrap();
        if a == "V" {
            assert_eq!(b, VERS[lists.len()]);
            lists.push(Vec::new());
        } else {
            let v = lists.last_mut().unwrap();
            assert_eq!(a, CATS[v.len()]);
            v.push(
                b.split(',')
                    .map(|r| {
                        let (x, y) = r.split_once('-').unwrap_or((r, r));
                        (u32::from_str_radix(x, 16).unwrap(), u32::from_str_radix(y, 16).unwrap())
                    })
                    .collect(),
            );
        }
    }
    let segs = lists
        .iter()
        .map(|v| {
            let mut s: Vec<(u32, u32, u8)> = Vec::new();
            for (k, l) in v.iter().enumerate() {
                for &(a, b) in l {
                    s.push((a, b, k as u8));
                }
            }
            s.sort();
            let mut next = 0;
            for &(a, b, _) in &s {
                assert_eq!(a, next);
                next = b + 1;
            }
            assert_eq!(next, MAX + 1);
            s
        })
        .collect();
    Ucd { lists, segs }
}

/// canonical intervals of a set of code points given as intervals in order
fn push(out: &mut Vec<Iv>, a: u32, b: u32) {
    if let Some(l) = out.last_mut() {
        if a <= l.1.saturating_add(1) {
            l.1 = l.1.max(b);
            return;
        }
    }
    out.push((a, b));
}

#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub v: usize,
    pub inc: Option<u32>,
    pub exc: Option<u32>,
    pub incc: Option<Vec<u32>>,
    pub excc: Option<Vec<u32>>,
    pub min: Option<u32>,
    pub max: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Range(u32, u32),
    Order(u32, u32),
}

impl Ucd {
    pub fn query(&self, q: &Q) -> Result<Vec<Iv>, Fail> {
        let (lo, hi) = (q.min.unwrap_or(0), q.max.unwrap_or(MAX));
        if lo > MAX || hi > MAX {
            return Err(Fail::Range(lo, hi));
        }
        if lo > hi {
            return Err(Fail::Order(lo, hi));
        }
        let want = q.inc.unwrap_or(0x3fff_ffff) & !q.exc.unwrap_or(0);
        let mut base: Vec<Iv> = Vec::new();
        let segs = &self.segs[q.v];
        let start = segs.partition_point(|s| s.1 < lo);
        for &(a, b, k) in &segs[start..] {
            if a > hi {
                break;
            }
            if want >> k & 1 == 1 {
                push(&mut base, a.max(lo), b.min(hi));
            }
        }
        let inc: BTreeSet<u32> = q.incc.iter().flatten().copied().collect();
        let mut all: Vec<Iv> = base.into_iter().chain(inc.into_iter().map(|c| (c, c))).collect();
        all.sort();
        let mut merged = Vec::new();
        for (a, b) in all {
            push(&mut merged, a, b);
        }
        let exc: BTreeSet<u32> = q.excc.iter().flatten().copied().collect();
        if exc.is_empty() {
            return Ok(merged);
        }
        let mut out = Vec::new();
        for (a, b) in merged {
            let mut from = a;
            for &x in exc.range(a..=b) {
                if x > from {
                    out.push((from, x - 1));
                }
                from = x + 1;
            }
            if from <= b {
                out.push((from, b));
            }
        }
        Ok(out)
    }

    pub fn normalized(&self, v: usize) -> Vec<usize> {
        let mut k: Vec<usize> = (0..30).filter(|&k| CATS[k] != "Cc" && CATS[k] != "Cs").collect();
        k.sort_by_key(|&k| (self.lists[v][k].len(), CATS[k]));
        k.push(2);
        k.push(26);
        k
    }
}

pub fn size(s: &[Iv]) -> u64 {
    s.iter().map(|&(a, b)| (b - a) as u64 + 1).sum()
}

/// members of class letter, as a mask
pub fn class(l: &str) -> Option<u32> {
    if !["L", "M", "N", "P", "S", "Z", "C"].contains(&l) {
        return None;
    }
    let mut m = 0;
    for (k, c) in CATS.iter().enumerate() {
        if c.starts_with(l) {
            m |= 1 << k;
        }
    }
    Some(m)
}

pub fn cat(n: &str) -> Option<usize> {
    CATS.iter().position(|c| *c == n)
}
