//! Independent model of the ABI: types, values, generators, reference encoder and decoder,
//! type names, topics. Nothing here calls into ethabi except the two conversion functions.

use crate::src::{expand, Src};
use ethabi::{ParamType, Token};
use tiny_keccak::{Hasher, Keccak};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Address,
    Bool,
    Int(usize),
    Uint(usize),
    FixedBytes(usize),
    Bytes,
    Str,
    Array(Box<Ty>),
    FixedArray(Box<Ty>, usize),
    Tuple(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    Address([u8; 20]),
    Bool(bool),
    Int([u8; 32]),
    Uint([u8; 32]),
    FixedBytes(Vec<u8>),
    Bytes(Vec<u8>),
    Str(String),
    Array(Vec<Val>),
    FixedArray(Vec<Val>),
    Tuple(Vec<Val>),
    /// A boolean word 2..=255: the specification does not say how it decodes.
    AnyBool,
}

pub fn keccak(data: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut out = [0u8; 32];
    k.update(data);
    k.finalize(&mut out);
    out
}

// ---------------------------------------------------------------- conversions

pub fn to_param(t: &Ty) -> ParamType {
    match t {
        Ty::Address => ParamType::Address,
        Ty::Bool => ParamType::Bool,
        Ty::Int(n) => ParamType::Int(*n),
        Ty::Uint(n) => ParamType::Uint(*n),
        Ty::FixedBytes(n) => ParamType::FixedBytes(*n),
        Ty::Bytes => ParamType::Bytes,
        Ty::Str => ParamType::String,
        Ty::Array(t) => ParamType::Array(Box::new(to_param(t))),
        Ty::FixedArray(t, n) => ParamType::FixedArray(Box::new(to_param(t)), *n),
        Ty::Tuple(ts) => ParamType::Tuple(to_params(ts)),
    }
}

pub fn to_params(ts: &[Ty]) -> Vec<ParamType> {
    ts.iter().map(to_param).collect()
}

pub fn from_param(p: &ParamType) -> Ty {
    match p {
        ParamType::Address => Ty::Address,
        ParamType::Bool => Ty::Bool,
        ParamType::Int(n) => Ty::Int(*n),
        ParamType::Uint(n) => Ty::Uint(*n),
        ParamType::FixedBytes(n) => Ty::FixedBytes(*n),
        ParamType::Bytes => Ty::Bytes,
        ParamType::String => Ty::Str,
        ParamType::Array(t) => Ty::Array(Box::new(from_param(t))),
        ParamType::FixedArray(t, n) => Ty::FixedArray(Box::new(from_param(t)), *n),
        ParamType::Tuple(ts) => Ty::Tuple(ts.iter().map(from_param).collect()),
    }
}

pub fn to_token(v: &Val) -> Token {
    match v {
        Val::Address(a) => Token::Address((*a).into()),
        Val::Bool(b) => Token::Bool(*b),
        Val::Int(w) => Token::Int((*w).into()),
        Val::Uint(w) => Token::Uint((*w).into()),
        Val::FixedBytes(b) => Token::FixedBytes(b.clone()),
        Val::Bytes(b) => Token::Bytes(b.clone()),
        Val::Str(s) => Token::String(s.clone()),
        Val::Array(v) => Token::Array(to_tokens(v)),
        Val::FixedArray(v) => Token::FixedArray(to_tokens(v)),
        Val::Tuple(v) => Token::Tuple(to_tokens(v)),
        Val::AnyBool => Token::Bool(true),
    }
}

pub fn to_tokens(vs: &[Val]) -> Vec<Token> {
    vs.iter().map(to_token).collect()
}

fn be(u: &ethabi::Uint) -> [u8; 32] {
    let mut w = [0u8; 32];
    u.to_big_endian(&mut w);
    w
}

pub fn from_token(t: &Token) -> Val {
    match t {
        Token::Address(a) => Val::Address(a.0),
        Token::Bool(b) => Val::Bool(*b),
        Token::Int(u) => Val::Int(be(u)),
        Token::Uint(u) => Val::Uint(be(u)),
        Token::FixedBytes(b) => Val::FixedBytes(b.clone()),
        Token::Bytes(b) => Val::Bytes(b.clone()),
        Token::String(s) => Val::Str(s.clone()),
        Token::Array(v) => Val::Array(from_tokens(v)),
        Token::FixedArray(v) => Val::FixedArray(from_tokens(v)),
        Token::Tuple(v) => Val::Tuple(from_tokens(v)),
    }
}

pub fn from_tokens(v: &[Token]) -> Vec<Val> {
    v.iter().map(from_token).collect()
}

/// Expected value `e` (may contain AnyBool) against actual `a`.
pub fn matches(e: &Val, a: &Val) -> bool {
    match (e, a) {
        (Val::AnyBool, Val::Bool(_)) => true,
        (Val::Array(x), Val::Array(y)) | (Val::FixedArray(x), Val::FixedArray(y)) | (Val::Tuple(x), Val::Tuple(y)) => {
            matches_all(x, y)
        }
        _ => e == a,
    }
}
pub fn matches_all(e: &[Val], a: &[Val]) -> bool {
    e.len() == a.len() && e.iter().zip(a).all(|(x, y)| matches(x, y))
}

pub fn show_vals(v: &[Val]) -> String {
    let s = format!("{:?}", to_tokens(v));
    crate::ctx::clip(&s, 600)
}

// ---------------------------------------------------------------- type names

pub fn name(t: &Ty) -> String {
    match t {
        Ty::Address => "address".into(),
        Ty::Bool => "bool".into(),
        Ty::Int(n) => format!("int{}", n),
        Ty::Uint(n) => format!("uint{}", n),
        Ty::FixedBytes(n) => format!("bytes{}", n),
        Ty::Bytes => "bytes".into(),
        Ty::Str => "string".into(),
        Ty::Array(t) => format!("{}[]", name(t)),
        Ty::FixedArray(t, n) => format!("{}[{}]", name(t), n),
        Ty::Tuple(ts) => format!("({})", names(ts)),
    }
}
pub fn names(ts: &[Ty]) -> String {
    ts.iter().map(name).collect::<Vec<_>>().join(",")
}

pub fn selector(fname: &str, ins: &[Ty]) -> [u8; 4] {
    let h = keccak(format!("{}({})", fname, names(ins)).as_bytes());
    [h[0], h[1], h[2], h[3]]
}
pub fn topic0(ename: &str, ins: &[Ty]) -> [u8; 32] {
    keccak(format!("{}({})", ename, names(ins)).as_bytes())
}

// ---------------------------------------------------------------- structure

pub fn dynamic(t: &Ty) -> bool {
    match t {
        Ty::Bytes | Ty::Str | Ty::Array(_) => true,
        Ty::FixedArray(t, _) => dynamic(t),
        Ty::Tuple(ts) => ts.iter().any(dynamic),
        _ => false,
    }
}

/// Words the value occupies in the enclosing head.
pub fn head_words(t: &Ty) -> usize {
    if dynamic(t) {
        1
    } else {
        static_words(t)
    }
}
pub fn static_words(t: &Ty) -> usize {
    match t {
        Ty::FixedArray(t, n) => n * static_words(t),
        Ty::Tuple(ts) => ts.iter().map(static_words).sum(),
        _ => 1,
    }
}

/// Number of leaves a minimal value needs.
pub fn weight(t: &Ty) -> usize {
    match t {
        Ty::FixedArray(t, n) => (n * weight(t)).max(1),
        Ty::Tuple(ts) => ts.iter().map(weight).sum::<usize>().max(1),
        _ => 1,
    }
}

pub fn depth(t: &Ty) -> usize {
    match t {
        Ty::Array(t) | Ty::FixedArray(t, _) => 1 + depth(t),
        Ty::Tuple(ts) => 1 + ts.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn has<F: Fn(&Ty) -> bool + Copy>(t: &Ty, f: F) -> bool {
    f(t) || match t {
        Ty::Array(t) | Ty::FixedArray(t, _) => has(t, f),
        Ty::Tuple(ts) => ts.iter().any(|t| has(t, f)),
        _ => false,
    }
}
pub fn any_has<F: Fn(&Ty) -> bool + Copy>(ts: &[Ty], f: F) -> bool {
    ts.iter().any(|t| has(t, f))
}
pub fn is_tuple(t: &Ty) -> bool {
    matches!(t, Ty::Tuple(_))
}

pub fn leaves(v: &Val) -> usize {
    match v {
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => 1 + x.iter().map(leaves).sum::<usize>(),
        Val::Bytes(b) => 1 + b.len() / 32,
        Val::Str(b) => 1 + b.len() / 32,
        _ => 1,
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy)]
pub struct TyCfg {
    pub depth: usize,
    pub cap: usize,
    pub tuples: bool,
    pub dynamic: bool,
}
pub const FULL: TyCfg = TyCfg { depth: 6, cap: 160, tuples: true, dynamic: true };
pub const SMALL: TyCfg = TyCfg { depth: 3, cap: 16, tuples: true, dynamic: true };

pub fn gen_leaf(s: &mut Src, dynamic: bool) -> Ty {
    let w: &[u32] = if dynamic { &[3, 2, 2, 2, 2, 3, 3] } else { &[3, 2, 2, 2, 2] };
    match s.weighted(w) {
        0 => Ty::Uint(gen_bits(s)),
        1 => Ty::Bool,
        2 => Ty::Address,
        3 => Ty::Int(gen_bits(s)),
        4 => match s.weighted(&[1, 1]) {
            0 => Ty::FixedBytes(*s.pick(&[32usize, 1, 4, 8, 20, 31])),
            _ => Ty::FixedBytes(s.range(1, 32) as usize),
        },
        5 => Ty::Bytes,
        _ => Ty::Str,
    }
}

fn gen_bits(s: &mut Src) -> usize {
    match s.weighted(&[3, 1, 1]) {
        0 => 256,
        1 => *s.pick(&[8usize, 64, 128, 32, 16, 248]),
        _ => 8 * s.range(1, 32) as usize,
    }
}

pub fn gen_ty(s: &mut Src, c: TyCfg) -> Ty {
    gen_ty_at(s, c, c.depth, c.cap)
}

fn gen_ty_at(s: &mut Src, c: TyCfg, d: usize, cap: usize) -> Ty {
    if d == 0 || cap == 0 {
        return gen_leaf(s, c.dynamic);
    }
    let w: [u32; 4] = [
        6,
        if c.dynamic { 3 } else { 0 },
        3,
        if c.tuples { 3 } else { 0 },
    ];
    match s.weighted(&w) {
        0 => gen_leaf(s, c.dynamic),
        1 => Ty::Array(Box::new(gen_ty_at(s, c, d - 1, cap))),
        2 => {
            let t = gen_ty_at(s, c, d - 1, cap);
            let max = (cap / weight(&t)).max(1) as u64;
            let n = match s.weighted(&[24, 4, 2, 1]) {
                0 => s.range(1, 4.min(max)),
                1 => s.range(1, 12.min(max)),
                2 => s.range(1, 40.min(max)),
                _ => s.dict_size(max as usize).max(1) as u64,
            };
            Ty::FixedArray(Box::new(t), n as usize)
        }
        _ => {
            let n = match s.weighted(&[16, 2, 1]) {
                0 => s.range(1, 4),
                1 => s.range(1, 12),
                _ => s.range(1, 40),
            } as usize;
            let mut left = cap;
            let mut ts = vec![];
            for _ in 0..n {
                let t = gen_ty_at(s, c, d - 1, left / 2);
                left = left.saturating_sub(weight(&t));
                ts.push(t);
                if left == 0 {
                    break;
                }
            }
            Ty::Tuple(ts)
        }
    }
}

pub fn gen_tys(s: &mut Src, c: TyCfg, max: u64) -> Vec<Ty> {
    let n = match s.weighted(&[10, 1]) {
        0 => s.range(0, max),
        _ => s.range(0, max * 3),
    };
    let mut left = c.cap * 2;
    let mut out: Vec<Ty> = vec![];
    for _ in 0..n {
        let t = if !out.is_empty() && s.weighted(&[15, 1]) == 1 {
            s.pick(&out).clone()
        } else {
            gen_ty(s, TyCfg { cap: c.cap.min(left.max(1)), ..c })
        };
        left = left.saturating_sub(weight(&t));
        out.push(t);
        if left == 0 {
            break;
        }
    }
    out
}

/// Adds static types without content (`T[0]` of a static `T`, the empty tuple) between others.
/// Nothing that holds them is without content itself.
pub fn add_zeros(s: &mut Src, ts: &mut Vec<Ty>) {
    if ts.is_empty() {
        return;
    }
    for t in ts.iter_mut() {
        zeros_within(s, t);
    }
    if s.weighted(&[2, 1]) == 1 {
        let z = gen_zero(s);
        let at = s.range(0, ts.len() as u64) as usize;
        ts.insert(at, z);
    }
}
fn zeros_within(s: &mut Src, t: &mut Ty) {
    match t {
        Ty::Array(t) | Ty::FixedArray(t, _) => zeros_within(s, t),
        Ty::Tuple(ts) => add_zeros(s, ts),
        _ => {}
    }
}
fn gen_zero(s: &mut Src) -> Ty {
    match s.weighted(&[3, 2, 1, 1]) {
        0 => Ty::FixedArray(Box::new(gen_leaf(s, false)), 0),
        1 => Ty::Tuple(vec![]),
        2 => Ty::FixedArray(Box::new(Ty::Tuple(vec![gen_leaf(s, false), gen_leaf(s, false)])), 0),
        _ => Ty::FixedArray(Box::new(Ty::Tuple(vec![])), s.range(0, 3) as usize),
    }
}

/// Nesting of arrays and tuples up to which type names and JSON ABIs are read.
pub const MAX_NESTING: usize = 60;

pub fn kind_no(i: usize) -> Ty {
    let b = |t: Ty| Box::new(t);
    match i % 9 {
        0 => Ty::Uint(256),
        1 => Ty::Str,
        2 => Ty::FixedArray(b(Ty::Bool), 2),
        3 => Ty::Tuple(vec![Ty::Bool, Ty::Bytes]),
        4 => Ty::Array(b(Ty::Str)),
        5 => Ty::Address,
        6 => Ty::Tuple(vec![Ty::Int(8), Ty::FixedBytes(3)]),
        7 => Ty::FixedArray(b(Ty::Bytes), 2),
        _ => Ty::Array(b(Ty::Uint(8))),
    }
}

/// Many parameters in one list.
pub fn wide(n: usize, pattern: usize) -> Vec<Ty> {
    (0..n)
        .map(|i| match pattern {
            0 => kind_no(i),
            1 => kind_no(i * 4 + 1),
            2 => [Ty::Uint(256), Ty::Address, Ty::Bool, Ty::FixedBytes(32)][i % 4].clone(),
            4 if i + 1 == n => Ty::Str,
            5 if i == 0 => Ty::Array(Box::new(Ty::Bool)),
            4 | 5 => [Ty::Bool, Ty::Uint(256), Ty::Tuple(vec![Ty::Bool, Ty::Address])][i % 3].clone(),
            _ => [Ty::Str, Ty::Bytes][i % 2].clone(),
        })
        .collect()
}

/// `d` levels of nesting around a leaf.
pub fn deep(d: usize, pattern: usize) -> Ty {
    let b = |t: Ty| Box::new(t);
    let mut t = if pattern % 2 == 0 { Ty::Uint(256) } else { Ty::Str };
    for i in 0..d {
        t = match pattern / 2 {
            0 => Ty::Array(b(t)),
            1 => Ty::FixedArray(b(t), 1),
            2 => Ty::Tuple(vec![t]),
            3 => match i % 3 {
                0 => Ty::Tuple(vec![Ty::Bool, t]),
                1 => Ty::Array(b(t)),
                _ => Ty::FixedArray(b(t), 1),
            },
            4 => {
                if i % 2 == 0 {
                    Ty::Tuple(vec![t, Ty::Str])
                } else {
                    Ty::FixedArray(b(t), 1)
                }
            }
            _ => {
                if i % 2 == 0 {
                    Ty::Array(b(t))
                } else {
                    Ty::Tuple(vec![Ty::Str, t, Ty::Uint(8)])
                }
            }
        };
    }
    t
}
pub const DEEP_PATTERNS: usize = 12;
pub const WIDTHS: &[usize] = &[5, 7, 8, 9, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
pub const DEPTHS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 25, 30, 31, 32, 33, 40, 48, 50, 55, 58, 59, 60];

/// A value in which every array has at least one element, so that the whole depth is used.
pub fn full_val(t: &Ty, seed: u64) -> Val {
    match t {
        Ty::Array(t) => Val::Array((0..if depth(t) > 6 { 1 } else { 2 }).map(|i| full_val(t, seed.wrapping_mul(31).wrapping_add(i))).collect()),
        Ty::FixedArray(t, n) => Val::FixedArray((0..*n).map(|i| full_val(t, seed.wrapping_mul(33).wrapping_add(i as u64))).collect()),
        Ty::Tuple(ts) => Val::Tuple(ts.iter().enumerate().map(|(i, t)| full_val(t, seed.wrapping_mul(37).wrapping_add(i as u64))).collect()),
        t => {
            let buf = expand(seed, 80);
            gen_val(&mut Src::new(&buf), t, &mut 3)
        }
    }
}
pub fn full_vals(ts: &[Ty], seed: u64) -> Vec<Val> {
    ts.iter().enumerate().map(|(i, t)| full_val(t, seed + 1000 * i as u64)).collect()
}

/// Type lists of extreme width and depth.
pub fn extremes() -> Vec<Vec<Ty>> {
    let mut out = vec![];
    let mut widths = WIDTHS.to_vec();
    widths.extend(crate::dict::sizes(300, &[1]).into_iter().filter(|n| *n > 0));
    widths.sort();
    widths.dedup();
    let mut depths = DEPTHS.to_vec();
    depths.extend(crate::dict::sizes(MAX_NESTING, &[1]).into_iter().filter(|n| *n > 0));
    depths.sort();
    depths.dedup();
    for n in &widths {
        for p in 0..6 {
            out.push(wide(*n, p));
            out.push(vec![Ty::Bool, Ty::Tuple(wide(*n, p)), Ty::Str]);
            if *n <= 65 {
                out.push(vec![Ty::Array(Box::new(Ty::Tuple(wide(*n, p))))]);
                out.push(vec![Ty::Str, Ty::FixedArray(Box::new(kind_no(*n * 5 + p)), *n)]);
            }
        }
        for t in [Ty::Str, Ty::Tuple(vec![Ty::Bool, Ty::Bytes]), Ty::Tuple(vec![Ty::Bool, Ty::Address]), Ty::FixedArray(Box::new(Ty::Bytes), 1), Ty::Uint(256)] {
            out.push(vec![Ty::Bool, Ty::FixedArray(Box::new(t), *n), Ty::Bytes]);
        }
    }
    for d in &depths {
        for p in 0..DEEP_PATTERNS {
            out.push(vec![deep(*d, p)]);
            out.push(vec![Ty::Str, deep(*d, p), Ty::Uint(256)]);
        }
    }
    out
}

pub fn gen_len(s: &mut Src) -> usize {
    match s.weighted(&[16, 8, 8, 2, 2, 1]) {
        5 => s.dict_size(3000),
        0 => s.below(8) as usize,
        1 => *s.pick(&[32usize, 31, 33, 1, 64, 63, 65, 0, 96, 95, 97]),
        2 => s.below(100) as usize,
        3 => *s.pick(&[255usize, 256, 257, 511, 512, 513, 223, 224, 225]),
        _ => s.below(1200) as usize,
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'Z', '0', '9', ' ', ',', '(', ')', '[', ']', '"', '\\', '\'', '\n', '\t', 'é', 'ß', 'λ', '中', '€', '😀',
    '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{0}', '-', '/', '{', '}', ':', 'ﬃ', '\u{301}',
    '\u{fffd}',
];

const EDGES: &[&str] = &["\u{feff}", "\0", " ", "\n", "\r\n", "\t", "\"", "\u{a0}", "0x", "\u{200b}", "\\", "'", "\u{2028}", "\0\0", "  "];

pub fn gen_string(s: &mut Src) -> String {
    let t = gen_string_body(s);
    if !s.chance(30) {
        return t;
    }
    // special characters at the ends
    let e = *s.pick(EDGES);
    match s.below(4) {
        0 | 1 => format!("{}{}", e, t),
        2 => format!("{}{}", t, e),
        _ => format!("{}{}{}", e, t, s.pick(EDGES)),
    }
}

fn gen_string_body(s: &mut Src) -> String {
    let n = match s.weighted(&[10, 2, 1]) {
        0 => s.below(12) as usize,
        1 => *s.pick(&[31usize, 32, 33, 16, 11, 8, 64]),
        _ => gen_len(s),
    };
    match s.weighted(&[6, 8, 2, 1]) {
        3 => {
            let d = s.dict_str();
            let pad: String = s.content(n.min(40)).into_iter().map(|x| (b'a' + x % 26) as char).collect();
            match s.below(4) {
                0 => d.to_string(),
                1 => format!("{}{}", d, pad),
                2 => format!("{}{}", pad, d),
                _ => format!("{}{}{}", pad, d, pad),
            }
        }
        0 => {
            let b = s.content(n);
            b.into_iter().map(|x| (b'a' + x % 26) as char).collect()
        }
        1 => {
            let b = if n <= 64 { s.bytes(n) } else { s.content(n) };
            b.into_iter().map(|x| CHARS[x as usize % CHARS.len()]).collect()
        }
        _ => {
            let b = s.content(n * 2);
            b.chunks(2)
                .map(|p| char::from_u32((p[0] as u32) << 8 | *p.get(1).unwrap_or(&0) as u32).unwrap_or('x'))
                .collect()
        }
    }
}

/// A 256-bit two's complement word that fits `bits` (signed or not).
pub fn gen_word(s: &mut Src, bits: usize, signed: bool) -> [u8; 32] {
    let mut w = [0u8; 32];
    let nb = (bits / 8).min(32).max(1);
    match s.weighted(&[8, 4, 4, 4, 4, 4, 4, 1]) {
        7 => {
            let b = s.dict_bytes();
            let k = b.len().min(nb);
            if s.bool() {
                w[32 - k..].copy_from_slice(&b[b.len() - k..]);
            } else {
                w[32 - nb..32 - nb + k].copy_from_slice(&b[..k]);
            }
        }
        0 => w[31] = s.u8() & if signed && nb == 1 { 0x7f } else { 0xff },
        1 => {
            let b = s.bytes(nb);
            w[32 - nb..].copy_from_slice(&b);
        }
        2 => {
            for x in &mut w[32 - nb..] {
                *x = 0xff
            }
        }
        3 => w[32 - nb] = 0x80,
        4 => {
            for x in &mut w[32 - nb..] {
                *x = 0xff
            }
            w[32 - nb] = 0x7f;
        }
        5 => {
            let i = s.below(nb as u64) as usize;
            w[31 - i] = 1 << s.below(8);
        }
        _ => {
            let n = s.range(1, nb as u64) as usize;
            let b = s.bytes(n);
            w[32 - n..].copy_from_slice(&b);
        }
    }
    if signed {
        let neg = w[32 - nb] & 0x80 != 0;
        if neg {
            for x in &mut w[..32 - nb] {
                *x = 0xff
            }
        }
    }
    w
}

pub fn gen_val(s: &mut Src, t: &Ty, budget: &mut isize) -> Val {
    *budget -= 1;
    match t {
        Ty::Address => {
            let mut a = [0u8; 20];
            a.copy_from_slice(&s.content(20));
            Val::Address(a)
        }
        Ty::Bool => Val::Bool(s.bool()),
        Ty::Int(n) => Val::Int(gen_word(s, *n, true)),
        Ty::Uint(n) => Val::Uint(gen_word(s, *n, false)),
        Ty::FixedBytes(n) => Val::FixedBytes(s.content(*n)),
        Ty::Bytes => {
            let n = gen_len(s).min(64.max((*budget).max(0) as usize * 32));
            *budget -= (n / 32) as isize;
            Val::Bytes(s.content(n))
        }
        Ty::Str => {
            let x = gen_string(s);
            *budget -= (x.len() / 32) as isize;
            Val::Str(x)
        }
        Ty::Array(t) => {
            let w = weight(t) as isize;
            let max = ((*budget).max(0) / w) as u64;
            let n = match s.weighted(&[24, 6, 2, 2, 1]) {
                4 => s.dict_size(2000) as u64,
                0 => s.below(4),
                1 => s.below(12),
                2 => *s.pick(&[16u64, 31, 32, 33, 64]),
                _ => *s.pick(&[255u64, 256, 257, 300]),
            }
            .min(max);
            Val::Array(gen_elems(s, t, n as usize, budget))
        }
        Ty::FixedArray(t, n) => Val::FixedArray(gen_elems(s, t, *n, budget)),
        Ty::Tuple(ts) => Val::Tuple(ts.iter().map(|t| gen_val(s, t, budget)).collect()),
    }
}

fn gen_elems(s: &mut Src, t: &Ty, n: usize, budget: &mut isize) -> Vec<Val> {
    // Long arrays: a few generated elements, then expanded ones, so that the choices suffice.
    let mut out: Vec<Val> = (0..n.min(24)).map(|_| gen_val(s, t, budget)).collect();
    if n > 24 {
        let seed = s.uint(2);
        let buf = expand(seed, 48 * (n - 24));
        for i in 24..n {
            let mut sub = Src::new(&buf[48 * (i - 24)..48 * (i - 23)]);
            out.push(gen_val(&mut sub, t, budget));
        }
    }
    out
}

pub fn gen_vals(s: &mut Src, ts: &[Ty], budget: isize) -> Vec<Val> {
    let mut b = budget;
    let mut out: Vec<Val> = vec![];
    for (i, t) in ts.iter().enumerate() {
        // sometimes a value repeats
        let v = match (0..i).rev().find(|k| ts[*k] == *t) {
            Some(k) if s.weighted(&[4, 1]) == 1 => out[k].clone(),
            _ => gen_val(s, t, &mut b),
        };
        out.push(v);
    }
    out
}

// ---------------------------------------------------------------- reference encoder

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    /// Word of an integer or boolean, or content.
    Content,
    /// Offset word.
    Offset,
    /// Length word.
    Length,
    /// Zero padding behind a byte sequence.
    Pad,
    /// The 12 unused bytes of an address word.
    AddrPad,
}

#[derive(Default, Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub roles: Vec<Role>,
}

impl Enc {
    fn push(&mut self, b: &[u8], r: Role) {
        self.bytes.extend_from_slice(b);
        self.roles.resize(self.bytes.len(), r);
    }
    fn num(&mut self, n: usize, r: Role) {
        let mut w = [0u8; 32];
        w[24..].copy_from_slice(&(n as u64).to_be_bytes());
        self.push(&w, r);
    }
    fn padded(&mut self, b: &[u8]) {
        self.push(b, Role::Content);
        let p = (32 - b.len() % 32) % 32;
        self.push(&vec![0u8; p], Role::Pad);
    }
    fn append(&mut self, o: &Enc) {
        self.bytes.extend_from_slice(&o.bytes);
        self.roles.extend_from_slice(&o.roles);
    }
    /// End of the last byte that is not byte-sequence padding.
    pub fn content_end(&self) -> usize {
        self.roles.iter().rposition(|r| *r != Role::Pad).map_or(0, |i| i + 1)
    }
}

/// enc((v1,...,vn)) of the specification: heads, then tails.
pub fn ref_encode(ts: &[Ty], vs: &[Val]) -> Enc {
    assert_eq!(ts.len(), vs.len());
    let pairs: Vec<(&Ty, &Val)> = ts.iter().zip(vs).collect();
    seq(&pairs)
}

fn seq(items: &[(&Ty, &Val)]) -> Enc {
    let head_len: usize = items.iter().map(|(t, _)| 32 * head_words(t)).sum();
    let mut head = Enc::default();
    let mut tail = Enc::default();
    for (t, v) in items {
        if dynamic(t) {
            head.num(head_len + tail.bytes.len(), Role::Offset);
            tail.append(&one(t, v));
        } else {
            head.append(&one(t, v));
        }
    }
    head.append(&tail);
    head
}

fn one(t: &Ty, v: &Val) -> Enc {
    let mut e = Enc::default();
    match (t, v) {
        (Ty::Address, Val::Address(a)) => {
            e.push(&[0u8; 12], Role::AddrPad);
            e.push(a, Role::Content);
        }
        (Ty::Bool, Val::Bool(b)) => {
            let mut w = [0u8; 32];
            w[31] = *b as u8;
            e.push(&w, Role::Content);
        }
        (Ty::Int(_), Val::Int(w)) | (Ty::Uint(_), Val::Uint(w)) => e.push(w, Role::Content),
        (Ty::FixedBytes(_), Val::FixedBytes(b)) => e.padded(b),
        (Ty::Bytes, Val::Bytes(b)) => {
            e.num(b.len(), Role::Length);
            e.padded(b);
        }
        (Ty::Str, Val::Str(s)) => {
            e.num(s.len(), Role::Length);
            e.padded(s.as_bytes());
        }
        (Ty::Array(t), Val::Array(vs)) => {
            e.num(vs.len(), Role::Length);
            let items: Vec<_> = vs.iter().map(|v| (&**t, v)).collect();
            e.append(&seq(&items));
        }
        (Ty::FixedArray(t, n), Val::FixedArray(vs)) => {
            assert_eq!(*n, vs.len());
            let items: Vec<_> = vs.iter().map(|v| (&**t, v)).collect();
            e.append(&seq(&items));
        }
        (Ty::Tuple(ts), Val::Tuple(vs)) => {
            assert_eq!(ts.len(), vs.len());
            let items: Vec<_> = ts.iter().zip(vs).collect();
            e.append(&seq(&items));
        }
        _ => panic!("model: value does not match type"),
    }
    e
}

/// An encoding of the same values with another layout: tails in any order, apart, shared, not aligned.
pub fn loose_encode(s: &mut Src, ts: &[Ty], vs: &[Val]) -> Vec<u8> {
    let pairs: Vec<(&Ty, &Val)> = ts.iter().zip(vs).collect();
    loose_seq(s, &pairs)
}

fn loose_gap(s: &mut Src, out: &mut Vec<u8>) {
    let n = match s.weighted(&[6, 2, 2, 1]) {
        0 => 0,
        1 => 32 * s.range(1, 3) as usize,
        2 => s.range(1, 31) as usize,
        _ => s.range(1, 200) as usize,
    };
    let c = s.content(n);
    out.extend_from_slice(&c);
}

fn loose_seq(s: &mut Src, items: &[(&Ty, &Val)]) -> Vec<u8> {
    let head_len: usize = items.iter().map(|(t, _)| 32 * head_words(t)).sum();
    let mut order: Vec<usize> = (0..items.len()).filter(|i| dynamic(items[*i].0)).collect();
    if s.bool() {
        for i in (1..order.len()).rev() {
            let j = i - s.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
    }
    let share = s.bool();
    let mut at = vec![0usize; items.len()];
    let mut tail: Vec<u8> = vec![];
    let mut placed: Vec<(usize, usize)> = vec![];
    for i in order {
        if let Some((_, p)) = placed.iter().find(|(k, _)| share && items[*k].0 == items[i].0 && items[*k].1 == items[i].1) {
            at[i] = *p;
            continue;
        }
        loose_gap(s, &mut tail);
        at[i] = head_len + tail.len();
        placed.push((i, at[i]));
        let (t, v) = items[i];
        let b = loose_one(s, t, v);
        tail.extend(b);
    }
    let mut head = Enc::default();
    for (i, (t, v)) in items.iter().enumerate() {
        if dynamic(t) {
            head.num(at[i], Role::Offset);
        } else {
            head.append(&one(t, v));
        }
    }
    let mut out = head.bytes;
    out.extend(tail);
    out
}

fn loose_one(s: &mut Src, t: &Ty, v: &Val) -> Vec<u8> {
    match (t, v) {
        (Ty::Array(t), Val::Array(vs)) => {
            let mut e = Enc::default();
            e.num(vs.len(), Role::Length);
            let items: Vec<_> = vs.iter().map(|v| (&**t, v)).collect();
            let mut out = e.bytes;
            out.extend(loose_seq(s, &items));
            out
        }
        (Ty::FixedArray(t, _), Val::FixedArray(vs)) => {
            let items: Vec<_> = vs.iter().map(|v| (&**t, v)).collect();
            loose_seq(s, &items)
        }
        (Ty::Tuple(ts), Val::Tuple(vs)) => {
            let items: Vec<_> = ts.iter().zip(vs).collect();
            loose_seq(s, &items)
        }
        _ => {
            // the padding of byte sequences may be missing
            let e = one(t, v);
            let mut b = e.bytes.clone();
            if s.chance(60) {
                b.truncate(e.content_end());
            }
            b
        }
    }
}

// ---------------------------------------------------------------- reference decoder

#[derive(Debug, PartialEq)]
pub enum DecErr {
    Invalid,
    /// More work than the cap: the case is not decided.
    TooMuch,
}

pub struct Decoder<'a> {
    data: &'a [u8],
    pub work: u64,
    pub cap: u64,
    /// Bytes of content delivered (copies), for the memory bound.
    pub delivered: u64,
    /// Elements produced.
    pub elements: u64,
    pub anybool: bool,
    pub furthest: usize,
}

impl<'a> Decoder<'a> {
    pub fn new(data: &'a [u8], cap: u64) -> Self {
        Decoder { data, work: 0, cap, delivered: 0, elements: 0, anybool: false, furthest: 0 }
    }

    fn slice(&mut self, at: usize, len: usize) -> Result<&'a [u8], DecErr> {
        let end = at.checked_add(len).ok_or(DecErr::Invalid)?;
        if end > self.data.len() {
            return Err(DecErr::Invalid);
        }
        self.furthest = self.furthest.max(end);
        Ok(&self.data[at..end])
    }
    fn word(&mut self, at: usize) -> Result<&'a [u8], DecErr> {
        self.slice(at, 32)
    }
    fn number(&mut self, at: usize) -> Result<usize, DecErr> {
        let w = self.word(at)?;
        if w[..28].iter().any(|b| *b != 0) {
            return Err(DecErr::Invalid);
        }
        Ok(u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize)
    }

    /// Decode `ts` laid out from `base + pos` on; offsets are relative to `base`.
    fn seq<'t, I: Iterator<Item = &'t Ty>>(&mut self, ts: I, base: usize) -> Result<Vec<Val>, DecErr> {
        let mut pos = base;
        let mut out = vec![];
        for t in ts {
            self.work += 1;
            if self.work > self.cap {
                return Err(DecErr::TooMuch);
            }
            self.elements += 1;
            let v = if dynamic(t) {
                let off = self.number(pos)?;
                self.tail(t, base + off)?
            } else {
                self.inplace(t, pos)?
            };
            pos += 32 * head_words(t);
            out.push(v);
        }
        Ok(out)
    }

    fn tail(&mut self, t: &Ty, at: usize) -> Result<Val, DecErr> {
        match t {
            Ty::Bytes => Ok(Val::Bytes(self.blob(at)?.to_vec())),
            Ty::Str => Ok(Val::Str(String::from_utf8_lossy(self.blob(at)?).into_owned())),
            Ty::Array(t) => {
                let n = self.number(at)?;
                let it = std::iter::repeat(&**t).take(n);
                Ok(Val::Array(self.seq(it, at + 32)?))
            }
            Ty::FixedArray(t, n) => {
                if at > self.data.len() {
                    return Err(DecErr::Invalid);
                }
                Ok(Val::FixedArray(self.seq(std::iter::repeat(&**t).take(*n), at)?))
            }
            Ty::Tuple(ts) => {
                if at > self.data.len() {
                    return Err(DecErr::Invalid);
                }
                Ok(Val::Tuple(self.seq(ts.iter(), at)?))
            }
            _ => unreachable!(),
        }
    }

    fn blob(&mut self, at: usize) -> Result<&'a [u8], DecErr> {
        let n = self.number(at)?;
        let b = self.slice(at + 32, n)?;
        self.delivered += n as u64;
        self.work += 1 + n as u64 / 32;
        Ok(b)
    }

    fn inplace(&mut self, t: &Ty, at: usize) -> Result<Val, DecErr> {
        Ok(match t {
            Ty::Address => {
                let mut a = [0u8; 20];
                a.copy_from_slice(&self.word(at)?[12..]);
                Val::Address(a)
            }
            Ty::Bool => {
                let w = self.word(at)?;
                if w[..31].iter().any(|b| *b != 0) {
                    return Err(DecErr::Invalid);
                }
                match w[31] {
                    0 => Val::Bool(false),
                    1 => Val::Bool(true),
                    _ => {
                        self.anybool = true;
                        Val::AnyBool
                    }
                }
            }
            Ty::Int(_) => Val::Int(arr(self.word(at)?)),
            Ty::Uint(_) => Val::Uint(arr(self.word(at)?)),
            Ty::FixedBytes(n) => Val::FixedBytes(self.slice(at, *n)?.to_vec()),
            Ty::FixedArray(t, n) => {
                let w = 32 * static_words(t);
                let mut out = vec![];
                for i in 0..*n {
                    self.tick()?;
                    out.push(self.inplace(t, at + i * w)?);
                }
                Val::FixedArray(out)
            }
            Ty::Tuple(ts) => {
                let mut p = at;
                let mut out = vec![];
                for t in ts {
                    self.tick()?;
                    out.push(self.inplace(t, p)?);
                    p += 32 * static_words(t);
                }
                Val::Tuple(out)
            }
            _ => unreachable!(),
        })
    }

    fn tick(&mut self) -> Result<(), DecErr> {
        self.work += 1;
        self.elements += 1;
        if self.work > self.cap {
            Err(DecErr::TooMuch)
        } else {
            Ok(())
        }
    }

    pub fn run(&mut self, ts: &[Ty]) -> Result<Vec<Val>, DecErr> {
        if self.data.is_empty() && !ts.is_empty() {
            return Err(DecErr::Invalid);
        }
        self.seq(ts.iter(), 0)
    }
}

fn arr(b: &[u8]) -> [u8; 32] {
    let mut w = [0u8; 32];
    w.copy_from_slice(b);
    w
}

pub fn ref_decode(ts: &[Ty], data: &[u8], cap: u64) -> Result<Vec<Val>, DecErr> {
    Decoder::new(data, cap).run(ts)
}

// ---------------------------------------------------------------- indexed event parameters

/// Types whose topic is a hash rather than the value itself.
pub fn hashed_topic(t: &Ty) -> bool {
    matches!(t, Ty::Bytes | Ty::Str | Ty::Array(_) | Ty::FixedArray(..) | Ty::Tuple(_))
}

/// In-place encoding of the specification ("Encoding of Indexed Event Parameters").
fn topic_inplace(v: &Val, out: &mut Vec<u8>) {
    match v {
        Val::Bytes(b) => {
            out.extend_from_slice(b);
            pad32(out, b.len());
        }
        Val::Str(b) => {
            out.extend_from_slice(b.as_bytes());
            pad32(out, b.len());
        }
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => x.iter().for_each(|v| topic_inplace(v, out)),
        v => out.extend_from_slice(&value_word(v)),
    }
}

fn pad32(out: &mut Vec<u8>, n: usize) {
    out.extend(std::iter::repeat(0).take((32 - n % 32) % 32));
}

fn value_word(v: &Val) -> [u8; 32] {
    let mut w = [0u8; 32];
    match v {
        Val::Address(a) => w[12..].copy_from_slice(a),
        Val::Bool(b) => w[31] = *b as u8,
        Val::Int(x) | Val::Uint(x) => w = *x,
        Val::FixedBytes(b) => w[..b.len()].copy_from_slice(b),
        _ => panic!("model: not a value type"),
    }
    w
}

/// The topic an EVM contract emits for an indexed parameter.
pub fn topic_of(v: &Val) -> [u8; 32] {
    match v {
        Val::Bytes(b) => keccak(b),
        Val::Str(s) => keccak(s.as_bytes()),
        Val::Array(_) | Val::FixedArray(_) | Val::Tuple(_) => {
            let mut b = vec![];
            topic_inplace(v, &mut b);
            keccak(&b)
        }
        v => value_word(v),
    }
}

/// What decoding the topic must return for an indexed parameter.
pub fn topic_value(v: &Val) -> Val {
    match v {
        Val::Bytes(_) | Val::Str(_) | Val::Array(_) | Val::FixedArray(_) | Val::Tuple(_) => {
            Val::FixedBytes(topic_of(v).to_vec())
        }
        v => v.clone(),
    }
}

/// Does `v` match `t` in the sense of the call gate (property C07)?
pub fn well_typed(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Ty::Address, Val::Address(_)) => true,
        (Ty::Bool, Val::Bool(_)) => true,
        (Ty::Int(_), Val::Int(_)) => true,
        (Ty::Uint(_), Val::Uint(_)) => true,
        (Ty::FixedBytes(n), Val::FixedBytes(b)) => !b.is_empty() && b.len() <= *n,
        (Ty::Bytes, Val::Bytes(_)) => true,
        (Ty::Str, Val::Str(_)) => true,
        (Ty::Array(t), Val::Array(v)) => v.iter().all(|v| well_typed(t, v)),
        (Ty::FixedArray(t, n), Val::FixedArray(v)) => v.len() == *n && v.iter().all(|v| well_typed(t, v)),
        (Ty::Tuple(ts), Val::Tuple(v)) => ts.len() == v.len() && ts.iter().zip(v).all(|(t, v)| well_typed(t, v)),
        _ => false,
    }
}
