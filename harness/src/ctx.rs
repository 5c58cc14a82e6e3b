//! What a property check reports about the case it ran.

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Failure {
    pub msg: String,
    /// Identifies a recorded known finding; None for everything else.
    pub key: Option<String>,
}

impl Failure {
    pub fn new<S: Into<String>>(msg: S) -> Failure {
        Failure { msg: msg.into(), key: None }
    }
    pub fn keyed<S: Into<String>, K: Into<String>>(msg: S, key: K) -> Failure {
        Failure { msg: msg.into(), key: Some(key.into()) }
    }
}

pub type Res = Result<(), Failure>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::ctx::Failure::new(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::ctx::Failure::new(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub key: u64,
    pub has_key: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub skipped: bool,
}

impl Ctx {
    pub fn new(want_desc: bool) -> Ctx {
        Ctx { want_desc, ..Default::default() }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Mark the case non-trivial by the property's rule.
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Identity of the generated case (not of the choices behind it).
    pub fn ident<H: Hash>(&mut self, h: &H) {
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new();
        if self.has_key {
            self.key.hash(&mut s);
        }
        h.hash(&mut s);
        self.key = s.finish();
        self.has_key = true;
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let d = f();
            match &mut self.desc {
                Some(x) => {
                    x.push_str(" | ");
                    x.push_str(&d);
                }
                None => self.desc = Some(d),
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let h: String = s.chars().take(n).collect();
        format!("{}...({} chars)", h, s.chars().count())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let c: Vec<u32> = s.chars().map(|c| c.to_digit(16)).collect::<Option<Vec<_>>>()?;
    if c.len() % 2 != 0 {
        return None;
    }
    Ok::<_, ()>(c.chunks(2).map(|p| (p[0] * 16 + p[1]) as u8).collect()).ok()
}

pub fn hexclip(b: &[u8]) -> String {
    if b.len() <= 512 {
        hex(b)
    } else {
        format!("{}...({} bytes)", hex(&b[..256]), b.len())
    }
}
