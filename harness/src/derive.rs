//! C24, C25: ABIs are generated, compiled through the derive macro into small programs, and the
//! programs run the bindings on generated values against the reference model.

use crate::ctx::{clip, hex, hexclip, unhex, Ctx, Failure, Res};
use crate::json::*;
use crate::model::*;
use crate::props::events::Ev;
use crate::props::types::{recognise, Rec};
use crate::runner::{eval, evidence, known_lines, shrink, write_replay, Check, Env, Known, Prop, Tally};
use crate::src::{expand, Src};
use crate::{ensure, fail};
use ethabi::{Address, Hash, TopicFilter, Topic, Uint};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- model of a generated ABI

/// JSON name, Rust identifier in snake case. Written out by hand: independent of the converter.
const FUN_NAMES: &[(&str, &str)] = &[
    ("transfer", "transfer"),
    ("balanceOf", "balance_of"),
    ("getURI", "get_uri"),
    ("ALLCAPS", "allcaps"),
    ("with_underscore", "with_underscore"),
    ("_leading", "leading"),
    ("Upper", "upper"),
    ("aB", "a_b"),
    ("x", "x"),
    ("mixed_caseName", "mixed_case_name"),
    ("loop", "_loop"),
    ("move", "_move"),
    ("_1", "_1"),
    ("Use", "_use"),
    ("encodeInput", "encode_input"),
    ("decode_output", "decode_output"),
    ("$dollar", "dollar"),
];
const PARAM_NAMES: &[(&str, &str)] = &[
    ("", ""),
    ("from", "from"),
    ("to", "to"),
    ("value", "value"),
    ("tokenId", "token_id"),
    ("_owner", "owner"),
    ("newURI", "new_uri"),
    ("A", "a"),
    ("inner", "inner"),
    ("v", "v"),
    ("result", "result"),
    ("iter", "iter"),
    ("out", "out"),
    ("output", "output"),
    ("tokens", "tokens"),
    ("log", "log"),
    ("raw", "raw"),
    ("e", "e"),
    ("i", "i"),
    ("u0", "u0"),
    ("f", "f"),
    ("c", "c"),
    ("code", "code"),
    ("self", "_self"),
    ("ref", "_ref"),
    ("Fn", "_fn"),
    ("_2", "_2"),
    ("__", ""),
    ("t0", "t0"),
    ("T1", "t1"),
    ("Function", "function"),
    ("filter", "filter"),
    ("Event", "event"),
    ("ethabi", "ethabi"),
    ("hash", "hash"),
    ("id", "id"),
    ("data", "data"),
    ("amount", "amount"),
    ("sender", "sender"),
    ("spender", "spender"),
    ("index", "index"),
    ("indexed", "indexed"),
    ("name", "name"),
    ("address", "address"),
    ("topic", "topic"),
    ("topics", "topics"),
    ("recipient", "recipient"),
    ("token", "token"),
    ("bytes", "bytes"),
    ("string", "string"),
    ("uint256", "uint256"),
    ("input", "input"),
    ("inputs", "inputs"),
    ("param", "param"),
    ("params", "params"),
    ("args", "args"),
    ("timestamp", "timestamp"),
    ("nonce", "nonce"),
    ("key", "key"),
    ("signature", "signature"),
    ("anonymous", "anonymous"),
    ("error", "error"),
    ("type", "_type"),
    ("in", "_in"),
    ("blockNumber", "block_number"),
    ("Amount0", "amount0"),
    ("wad_", "wad"),
];
/// JSON name, module, struct name (= name in camel case).
const EVENT_NAMES: &[(&str, &str, &str)] = &[
    ("Transfer", "transfer", "Transfer"),
    ("OwnerChanged", "owner_changed", "OwnerChanged"),
    ("E", "e", "E"),
    ("SetX", "set_x", "SetX"),
    ("Approval", "approval", "Approval"),
    ("Loop", "_loop", "Loop"),
    ("Event", "event", "Event"),
    ("Logs", "logs", "Logs"),
    ("Ref2", "ref2", "Ref2"),
];
/// Names that camel-casing changes: see the known finding.
const UNSTABLE_NAMES: &[(&str, &str, &str)] = &[
    ("NewURI", "new_uri", "NewUri"),
    ("transferred", "transferred", "Transferred"),
    ("Log_Entry", "log_entry", "LogEntry"),
    ("ALL", "all", "All"),
];

#[derive(Clone, Debug)]
pub struct Par {
    pub json: String,
    pub rust: String,
    pub ty: Ty,
    pub indexed: bool,
}

#[derive(Clone, Debug)]
pub enum Item {
    Fun { name: String, module: String, ins: Vec<Par>, outs: Vec<Par>, constant: Option<bool>, mutability: Option<usize> },
    Event { name: String, module: String, camel: String, anonymous: bool, ins: Vec<Par> },
    Ctor { ins: Vec<Par> },
}

impl Item {
    fn entry(&self) -> Entry {
        let ps = |v: &[Par]| {
            v.iter().map(|p| P { name: p.json.clone(), ty: p.ty.clone(), internal: None, indexed: p.indexed }).collect::<Vec<_>>()
        };
        match self {
            Item::Fun { name, ins, outs, constant, mutability, .. } => Entry::Fun {
                name: name.clone(),
                ins: ps(ins),
                outs: ps(outs),
                constant: *constant,
                mutability: mutability.map(|m| MUTS[m]),
            },
            Item::Event { name, ins, anonymous, .. } => Entry::Ev { name: name.clone(), ins: ps(ins), anonymous: *anonymous },
            Item::Ctor { ins } => Entry::Ctor { ins: ps(ins) },
        }
    }
    pub fn show(&self) -> String {
        let tys = |v: &[Par]| {
            v.iter()
                .map(|p| format!("{}{} {:?}", name(&p.ty), if p.indexed { " indexed" } else { "" }, p.json))
                .collect::<Vec<_>>()
                .join(", ")
        };
        match self {
            Item::Fun { name, ins, outs, .. } => format!("function {}({}) returns ({})", name, tys(ins), tys(outs)),
            Item::Event { name, ins, anonymous, .. } => {
                format!("event {}({}){}", name, tys(ins), if *anonymous { " anonymous" } else { "" })
            }
            Item::Ctor { ins } => format!("constructor({})", tys(ins)),
        }
    }
}

const DCFG: TyCfg = TyCfg { depth: 3, cap: 10, tuples: false, dynamic: true };

fn gen_pars(s: &mut Src, max: u64) -> Vec<Par> {
    let tys = gen_tys(s, DCFG, max);
    name_pars(s, tys)
}

fn name_pars(s: &mut Src, tys: Vec<Ty>) -> Vec<Par> {
    let mut used: Vec<String> = vec![];
    tys.into_iter()
        .enumerate()
        .map(|(i, ty)| {
            let (j, r) = *s.pick(PARAM_NAMES);
            let (json, rust) = if !r.is_empty() && used.iter().any(|u| u == r) {
                (format!("dup{}", i), format!("dup{}", i))
            } else {
                (j.to_string(), r.to_string())
            };
            used.push(r.to_string());
            Par { json, rust, ty, indexed: false }
        })
        .collect()
}

/// Sometimes a parameter has the name of its function or event.
fn share_name(s: &mut Src, json: &str, rust: &str, ps: &mut [Par]) {
    if ps.is_empty() || !s.chance(50) || ps.iter().any(|p| p.rust == rust) {
        return;
    }
    let i = s.below(ps.len() as u64) as usize;
    ps[i].json = json.to_string();
    ps[i].rust = rust.to_string();
}

fn event_idents(ins: &mut [Par]) {
    for (i, p) in ins.iter_mut().enumerate() {
        if p.rust.is_empty() {
            p.rust = format!("{}{}", if p.indexed { "topic" } else { "param" }, i);
        }
    }
}

fn uniq(i: usize, n: &str) -> String {
    if i == 0 {
        n.to_string()
    } else {
        format!("{}{}", n, i)
    }
}

/// The identifier of `uniq(i, n)`: no keyword any more if a number was added.
fn uniq_ident(i: usize, n: &str) -> String {
    match n.strip_prefix('_') {
        Some(r) if i > 0 && r.starts_with(|c: char| c.is_alphabetic()) => uniq(i, r),
        _ => uniq(i, n),
    }
}

/// One ABI: items with names that are distinct Rust identifiers.
pub fn gen_abi(s: &mut Src, events: bool) -> Vec<Item> {
    let n = s.range(1, 5) as usize;
    let mut out = vec![];
    for i in 0..n {
        if events {
            let mut ins = gen_pars(s, 4);
            let mut left = 3;
            for p in ins.iter_mut() {
                if left > 0 && s.chance(130) {
                    p.indexed = true;
                    left -= 1;
                }
            }
            event_idents(&mut ins);
            let (j, m, c) = if s.chance(30) { *s.pick(UNSTABLE_NAMES) } else { *s.pick(EVENT_NAMES) };
            share_name(s, &uniq(i, j), &uniq_ident(i, m), &mut ins);
            out.push(Item::Event {
                name: uniq(i, j),
                module: uniq_ident(i, m),
                camel: uniq(i, c),
                anonymous: s.chance(60),
                ins,
            });
        } else {
            let mut ins = gen_pars(s, 4);
            let mut outs = gen_pars(s, 3);
            let (j, m) = *s.pick(FUN_NAMES);
            share_name(s, &uniq(i, j), &uniq_ident(i, m), &mut ins);
            share_name(s, &uniq(i, j), &uniq_ident(i, m), &mut outs);
            if !ins.is_empty() && s.chance(40) {
                let p = s.pick(&ins).clone();
                share_name(s, &p.json, &p.rust, &mut outs);
            }
            out.push(Item::Fun {
                name: uniq(i, j),
                module: uniq_ident(i, m),
                ins,
                outs,
                constant: match s.weighted(&[2, 1, 1]) {
                    0 => None,
                    1 => Some(false),
                    _ => Some(true),
                },
                mutability: if s.bool() { Some(s.below(4) as usize) } else { None },
            });
        }
    }
    if !events && s.bool() {
        out.push(Item::Ctor { ins: gen_pars(s, 4) });
    }
    out
}

/// Every leaf kind in every small container shape, as input, output, plain and indexed parameter.
pub fn systematic(events: bool) -> Vec<Vec<Item>> {
    let b = |t: Ty| Box::new(t);
    let mut tys = vec![];
    let leaves = [
        Ty::Address,
        Ty::Bool,
        Ty::Str,
        Ty::Bytes,
        Ty::FixedBytes(32),
        Ty::FixedBytes(4),
        Ty::FixedBytes(1),
        Ty::FixedBytes(31),
        Ty::Uint(256),
        Ty::Int(256),
        Ty::Uint(8),
        Ty::Int(128),
    ];
    for l in leaves.iter() {
        let l = || l.clone();
        tys.push(l());
        tys.push(Ty::Array(b(l())));
        tys.push(Ty::FixedArray(b(l()), 3));
        tys.push(Ty::Array(b(Ty::Array(b(l())))));
        tys.push(Ty::FixedArray(b(Ty::Array(b(l()))), 2));
        tys.push(Ty::Array(b(Ty::FixedArray(b(l()), 2))));
        tys.push(Ty::FixedArray(b(Ty::FixedArray(b(l()), 1)), 2));
    }
    let mut out = vec![];
    for (k, chunk) in tys.chunks(7).enumerate() {
        let mut items = vec![];
        if events {
            for (i, t) in chunk.iter().enumerate() {
                let other = chunk[(i + 1) % chunk.len()].clone();
                let mut ins = vec![
                    Par { json: "plain".into(), rust: "plain".into(), ty: other.clone(), indexed: false },
                    Par { json: "topic".into(), rust: "topic".into(), ty: t.clone(), indexed: true },
                    Par { json: "".into(), rust: "".into(), ty: t.clone(), indexed: false },
                    Par { json: "".into(), rust: "".into(), ty: other, indexed: true },
                ];
                event_idents(&mut ins);
                items.push(Item::Event {
                    name: format!("Event{}", i),
                    module: format!("event{}", i),
                    camel: format!("Event{}", i),
                    anonymous: i % 3 == 2,
                    ins,
                });
            }
        } else {
            for (i, t) in chunk.iter().enumerate() {
                let other = chunk[(i + 1) % chunk.len()].clone();
                let p = |n: &str, t: &Ty| Par { json: n.into(), rust: n.into(), ty: t.clone(), indexed: false };
                items.push(Item::Fun {
                    name: format!("fun{}", i),
                    module: format!("fun{}", i),
                    ins: vec![p("a", t), p("", &other)],
                    outs: vec![p("", t)],
                    constant: None,
                    mutability: None,
                });
                items.push(Item::Fun {
                    name: format!("gun{}", i),
                    module: format!("gun{}", i),
                    ins: vec![],
                    outs: vec![p("", &other), p("x", t)],
                    constant: None,
                    mutability: None,
                });
            }
            items.push(Item::Ctor {
                ins: chunk
                    .iter()
                    .enumerate()
                    .map(|(i, t)| Par { json: format!("p{}", i), rust: format!("p{}", i), ty: t.clone(), indexed: false })
                    .collect(),
            });
        }
        let _ = k;
        out.push(items);
    }
    out.extend(wide(events));
    out
}

/// Every width of numbers and byte strings, long parameter lists, deep and long arrays, every name.
fn wide(events: bool) -> Vec<Vec<Item>> {
    let b = |t: Ty| Box::new(t);
    let mut tys = vec![];
    for i in 1..=32 {
        tys.push(Ty::Uint(8 * i));
        tys.push(Ty::FixedBytes(i));
        tys.push(Ty::Int(8 * i));
    }
    for l in [Ty::Uint(16), Ty::FixedBytes(5), Ty::Str, Ty::Address, Ty::FixedBytes(32), Ty::Bytes, Ty::Bool] {
        let l = || l.clone();
        tys.push(Ty::Array(b(Ty::Array(b(Ty::Array(b(l())))))));
        tys.push(Ty::FixedArray(b(Ty::Array(b(Ty::FixedArray(b(l()), 2)))), 1));
        tys.push(Ty::Array(b(Ty::FixedArray(b(Ty::Array(b(l()))), 3))));
        tys.push(Ty::FixedArray(b(Ty::FixedArray(b(Ty::FixedArray(b(l()), 2)), 2)), 3));
        tys.push(Ty::FixedArray(b(l()), 40));
        tys.push(Ty::FixedArray(b(l()), 1));
        tys.push(Ty::Array(b(Ty::FixedArray(b(l()), 33))));
    }
    let pars = |tys: &[Ty], named: bool| -> Vec<Par> {
        let mut used: Vec<&str> = vec![];
        let mut k = 0;
        tys.iter()
            .map(|t| {
                let (mut j, mut r) = ("", "");
                while named && k < PARAM_NAMES.len() {
                    let c = PARAM_NAMES[k];
                    k += 1;
                    if !used.contains(&c.1) || c.1.is_empty() {
                        used.push(c.1);
                        j = c.0;
                        r = c.1;
                        break;
                    }
                }
                Par { json: j.into(), rust: r.into(), ty: t.clone(), indexed: false }
            })
            .collect()
    };
    let mut out = vec![];
    for (k, chunk) in tys.chunks(12).enumerate() {
        let mut items = vec![];
        if events {
            for (i, c) in chunk.chunks(3).enumerate() {
                let mut ins = pars(chunk, i % 2 == 0);
                for p in ins.iter_mut().skip(3 * i).take(c.len()) {
                    p.indexed = true;
                }
                event_idents(&mut ins);
                items.push(Item::Event {
                    name: format!("Wide{}", i),
                    module: format!("wide{}", i),
                    camel: format!("Wide{}", i),
                    anonymous: (i + k) % 4 == 1,
                    ins,
                });
            }
        } else {
            let rev: Vec<Ty> = chunk.iter().rev().cloned().collect();
            for (i, (a, o)) in [(&chunk[..], &rev[..]), (&rev[..], &chunk[..5.min(chunk.len())])].iter().enumerate() {
                items.push(Item::Fun {
                    name: format!("wide{}", i),
                    module: format!("wide{}", i),
                    ins: pars(a, i == 0),
                    outs: pars(o, i == 1),
                    constant: None,
                    mutability: None,
                });
            }
            for (i, t) in chunk.iter().enumerate() {
                items.push(Item::Fun {
                    name: format!("one{}", i),
                    module: format!("one{}", i),
                    ins: vec![],
                    outs: pars(&[t.clone()], false),
                    constant: None,
                    mutability: None,
                });
            }
            items.push(Item::Ctor { ins: pars(&rev, k % 2 == 0) });
        }
        out.push(items);
    }
    // every name
    let t = Ty::Array(b(Ty::Uint(256)));
    let all: Vec<Ty> = PARAM_NAMES.iter().map(|_| t.clone()).collect();
    let mut items = vec![];
    if events {
        for (i, (j, m, c)) in EVENT_NAMES.iter().enumerate() {
            let mut ins = pars(&all, true);
            for n in 0..3 {
                ins[(i * 3 + n * 2) % all.len()].indexed = true;
            }
            event_idents(&mut ins);
            items.push(Item::Event { name: j.to_string(), module: m.to_string(), camel: c.to_string(), anonymous: i == 2, ins });
        }
    } else {
        for (j, m) in FUN_NAMES.iter() {
            items.push(Item::Fun {
                name: j.to_string(),
                module: m.to_string(),
                ins: pars(&all, true),
                outs: vec![],
                constant: Some(true),
                mutability: Some(1),
            });
        }
        items.push(Item::Ctor { ins: pars(&all, true) });
    }
    out.push(items);
    // names that the sources under test mention
    for (k, chunk) in dict_names().chunks(16).enumerate() {
        let mut items = vec![];
        for i in 0..4usize {
            let t = [Ty::Uint(256), Ty::Str, Ty::Array(b(Ty::Address)), Ty::FixedBytes(32)][(i + k) % 4].clone();
            let mut ins: Vec<Par> =
                chunk.iter().map(|n| Par { json: n.to_string(), rust: n.to_string(), ty: t.clone(), indexed: false }).collect();
            let outs = ins[..ins.len().min(3)].to_vec();
            if events {
                for n in 0..3 {
                    let at = (i * 3 + n) % ins.len();
                    ins[at].indexed = true;
                }
                items.push(Item::Event { name: format!("Named{}", i), module: format!("named{}", i), camel: format!("Named{}", i), anonymous: i == 3, ins });
            } else {
                items.push(Item::Fun { name: format!("named{}", i), module: format!("named{}", i), ins, outs, constant: None, mutability: None });
            }
        }
        if events {
            // an event named String or Vec is a known finding: its log struct hides the type
            for n in chunk.iter().filter(|n| !["string", "vec"].contains(n)) {
                let camel: String = n.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
                let p = |j: &str, x: bool| Par { json: j.into(), rust: j.into(), ty: Ty::Uint(256), indexed: x };
                items.push(Item::Event { name: camel.clone(), module: n.to_string(), camel, anonymous: false, ins: vec![p("a", true), p("b", false)] });
            }
        } else {
            for n in chunk {
                let p = |j: &str| Par { json: j.into(), rust: j.into(), ty: Ty::Uint(256), indexed: false };
                items.push(Item::Fun { name: n.to_string(), module: n.to_string(), ins: vec![p("a")], outs: vec![p("")], constant: None, mutability: None });
            }
        }
        out.push(items);
    }
    out
}

/// Texts of the dictionary that are plain identifiers in lower case.
fn dict_names() -> Vec<&'static str> {
    const KEYWORDS: &[&str] = &[
        "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "gen", "if", "impl",
        "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type",
        "union", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof",
        "unsized", "virtual", "yield",
    ];
    let ok = |n: &&String| n.split('_').all(|w| !w.is_empty() && w.len() < 30 && w.bytes().all(|b| b.is_ascii_lowercase())) && !KEYWORDS.contains(&n.as_str());
    crate::dict::dict().strs.iter().filter(ok).map(|n| n.as_str()).take(96).collect()
}

fn json_doc(items: &[Item]) -> String {
    let y = Style { extras: false, alias: false, suffix_names: false };
    let mut s = Src::new(&[]);
    plain(&J::Arr(items.iter().map(|i| entry_json(&mut s, &i.entry(), &y)).collect()))
}

// ---------------------------------------------------------------- values in the driver

pub trait Mk {
    fn mk(v: &Val) -> Self;
}
pub trait Un {
    fn un(self, t: &Ty) -> Val;
}

macro_rules! bug {
    () => {
        panic!("driver: value does not match type")
    };
}

impl Mk for Address {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Address(a) => (*a).into(),
            _ => bug!(),
        }
    }
}
impl Mk for bool {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Bool(a) => *a,
            _ => bug!(),
        }
    }
}
impl Mk for String {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Str(a) => a.clone(),
            _ => bug!(),
        }
    }
}
impl Mk for Uint {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Uint(a) | Val::Int(a) => Uint::from_big_endian(a),
            _ => bug!(),
        }
    }
}
impl Mk for Hash {
    fn mk(v: &Val) -> Self {
        match v {
            Val::FixedBytes(a) => Hash::from_slice(a),
            _ => bug!(),
        }
    }
}
impl Mk for Vec<u8> {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Bytes(a) => a.clone(),
            _ => bug!(),
        }
    }
}
impl<const N: usize> Mk for [u8; N] {
    fn mk(v: &Val) -> Self {
        match v {
            Val::FixedBytes(a) => a.as_slice().try_into().unwrap(),
            _ => bug!(),
        }
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(v: &Val) -> Self {
        match v {
            Val::Array(a) => a.iter().map(T::mk).collect(),
            _ => bug!(),
        }
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(v: &Val) -> Self {
        match v {
            Val::FixedArray(a) => {
                let v: Vec<T> = a.iter().map(T::mk).collect();
                v.try_into().ok().unwrap()
            }
            _ => bug!(),
        }
    }
}

impl Un for Address {
    fn un(self, _: &Ty) -> Val {
        Val::Address(self.0)
    }
}
impl Un for bool {
    fn un(self, _: &Ty) -> Val {
        Val::Bool(self)
    }
}
impl Un for String {
    fn un(self, _: &Ty) -> Val {
        Val::Str(self)
    }
}
impl Un for Uint {
    fn un(self, t: &Ty) -> Val {
        let mut w = [0u8; 32];
        self.to_big_endian(&mut w);
        match t {
            Ty::Int(_) => Val::Int(w),
            _ => Val::Uint(w),
        }
    }
}
impl Un for Hash {
    fn un(self, _: &Ty) -> Val {
        Val::FixedBytes(self.0.to_vec())
    }
}
impl Un for Vec<u8> {
    fn un(self, _: &Ty) -> Val {
        Val::Bytes(self)
    }
}
impl<const N: usize> Un for [u8; N] {
    fn un(self, _: &Ty) -> Val {
        Val::FixedBytes(self.to_vec())
    }
}
impl<T: Un> Un for Vec<T> {
    fn un(self, t: &Ty) -> Val {
        match t {
            Ty::Array(t) => Val::Array(self.into_iter().map(|x| x.un(t)).collect()),
            _ => bug!(),
        }
    }
}
impl<T: Un, const N: usize> Un for [T; N] {
    fn un(self, t: &Ty) -> Val {
        match t {
            Ty::FixedArray(t, _) => Val::FixedArray(IntoIterator::into_iter(self).map(|x| x.un(t)).collect()),
            _ => bug!(),
        }
    }
}

pub fn tys(names: &[&str]) -> Vec<Ty> {
    names
        .iter()
        .map(|n| match recognise(n) {
            Rec::Ok(t) => t,
            _ => panic!("driver: bad type {}", n),
        })
        .collect()
}

// ---------------------------------------------------------------- checks called from the driver

pub struct FunSpec {
    pub name: &'static str,
    pub ins: &'static [&'static str],
    pub outs: &'static [&'static str],
}

type Bytes = Vec<u8>;

fn corrupt_data(s: &mut Src, d: &mut Vec<u8>, ctx: &mut Ctx) {
    match s.weighted(&[3, 3, 2, 1]) {
        0 if !d.is_empty() => {
            let n = s.below(d.len() as u64) as usize;
            d.truncate(n);
            ctx.label("data truncated");
        }
        1 if d.len() >= 32 => {
            let i = 32 * s.below(d.len() as u64 / 32) as usize;
            let mut w = [0u8; 32];
            let n = *s.pick(&[0u64, 1, 32, 64, 96, 31, 33, 128, 0xffff_ffff, 1 << 32, 5]);
            w[24..].copy_from_slice(&n.to_be_bytes());
            if s.chance(40) {
                w[0] = 0x80;
            }
            d[i..i + 32].copy_from_slice(&w);
            ctx.label("data word replaced");
        }
        2 => {
            let n = 1 + s.below(40) as usize;
            d.extend(s.content(n));
            ctx.label("data extended");
        }
        _ => {
            d.clear();
            ctx.label("data emptied");
        }
    }
}

fn same_bytes(what: &str, want: &[u8], got: &[u8], vals: &[Val]) -> Res {
    ensure!(want == got, "{}: {} instead of {} for {}", what, hexclip(got), hexclip(want), show_vals(vals));
    Ok(())
}

#[allow(clippy::type_complexity)]
pub fn check_fun(
    s: &mut Src,
    ctx: &mut Ctx,
    f: &FunSpec,
    enc: &dyn Fn(&[Val]) -> Bytes,
    call: &dyn Fn(&[Val], &[u8]) -> (Bytes, Result<Vec<Val>, String>),
    dec: &dyn Fn(&[u8]) -> Result<Vec<Val>, String>,
) -> Res {
    let (ins, outs) = (tys(f.ins), tys(f.outs));
    let vals = gen_vals(s, &ins, 30);
    let ovals = gen_vals(s, &outs, 30);
    ctx.nontrivial(!ins.is_empty() || !outs.is_empty());
    ctx.ident(&(f.name, f.ins, f.outs, format!("{:?}{:?}", vals, ovals)));
    ctx.describe(|| format!("{}({}) returns ({}) args {} outputs {}", f.name, names(&ins), names(&outs), show_vals(&vals), show_vals(&ovals)));
    let mut want = selector(f.name, &ins).to_vec();
    want.extend(ref_encode(&ins, &vals).bytes);
    same_bytes("encode_input", &want, &enc(&vals), &vals)?;
    let mut d = ref_encode(&outs, &ovals).bytes;
    for round in 0..3 {
        if round > 0 {
            d = ref_encode(&outs, &ovals).bytes;
            corrupt_data(s, &mut d, ctx);
        }
        let w = match ref_decode(&outs, &d, 20_000) {
            Err(DecErr::TooMuch) => continue,
            w => w,
        };
        let (c, via) = call(&vals, &d);
        same_bytes("call", &want, &c, &vals)?;
        for (what, g) in [("decode_output", dec(&d)), ("call decoder", via)] {
            compare(what, &w, &g, &d)?;
        }
    }
    Ok(())
}

fn anyb(v: &[Val]) -> bool {
    v.iter().any(|v| match v {
        Val::AnyBool => true,
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => anyb(x),
        _ => false,
    })
}

fn compare(what: &str, w: &Result<Vec<Val>, DecErr>, g: &Result<Vec<Val>, String>, d: &[u8]) -> Res {
    match (w, g) {
        (Ok(w), Ok(g)) => {
            ensure!(matches_all(w, g), "{} of {}: {} instead of {}", what, hexclip(d), show_vals(g), show_vals(w))
        }
        (Err(_), Err(_)) => {}
        (Ok(w), Err(_)) if anyb(w) => {}
        (Ok(w), Err(e)) => fail!("{} of {}: refused with {} instead of {}", what, hexclip(d), e, show_vals(w)),
        (Err(_), Ok(g)) => fail!("{} of {}: accepted as {}", what, hexclip(d), show_vals(g)),
    }
    Ok(())
}

pub fn check_ctor(s: &mut Src, ctx: &mut Ctx, ins: &[&str], enc: &dyn Fn(Bytes, &[Val]) -> Bytes) -> Res {
    let t = tys(ins);
    let vals = gen_vals(s, &t, 30);
    let n = s.below(70) as usize;
    let code = s.content(n);
    ctx.nontrivial(!t.is_empty());
    ctx.ident(&("constructor", ins, format!("{:?}{:?}", vals, code)));
    ctx.describe(|| format!("constructor({}) code {} args {}", names(&t), hex(&code), show_vals(&vals)));
    let mut want = code.clone();
    want.extend(ref_encode(&t, &vals).bytes);
    same_bytes("constructor", &want, &enc(code, &vals), &vals)
}

pub struct EvSpec {
    pub name: &'static str,
    /// The name in camel case.
    pub camel: &'static str,
    pub anonymous: bool,
    /// JSON name, type, indexed
    pub ins: &'static [(&'static str, &'static str, bool)],
}

#[derive(Clone, Debug, Hash)]
pub enum FV {
    Any,
    This(Val),
    OneOf(Vec<Val>),
}

pub fn topic<T: Mk>(f: &FV) -> Topic<T> {
    match f {
        FV::Any => Topic::Any,
        FV::This(v) => Topic::This(T::mk(v)),
        FV::OneOf(v) => Topic::OneOf(v.iter().map(T::mk).collect()),
    }
}

fn htopic(f: &FV) -> Topic<Hash> {
    match f {
        FV::Any => Topic::Any,
        FV::This(v) => Topic::This(topic_of(v).into()),
        FV::OneOf(v) => Topic::OneOf(v.iter().map(|v| topic_of(v).into()).collect()),
    }
}

fn wanted_filter(e: &Ev, fs: &[FV]) -> TopicFilter {
    let mut h = fs.iter().map(htopic);
    let mut next = || h.next().unwrap_or(Topic::Any);
    if e.anonymous {
        TopicFilter { topic0: next(), topic1: next(), topic2: next(), topic3: Topic::Any }
    } else {
        TopicFilter { topic0: Topic::This(e.sig().into()), topic1: next(), topic2: next(), topic3: next() }
    }
}

pub const CAMEL_KEY: &str = "camel-case-event-name";

pub fn check_event(
    s: &mut Src,
    ctx: &mut Ctx,
    e: &EvSpec,
    filter: &dyn Fn(&[FV]) -> TopicFilter,
    wildcard: &dyn Fn() -> TopicFilter,
    parse: &dyn Fn(ethabi::RawLog) -> Result<Vec<Val>, String>,
    event: &dyn Fn() -> ethabi::Event,
) -> Res {
    let real = Ev {
        name: e.name.into(),
        anonymous: e.anonymous,
        ins: e.ins.iter().map(|(n, t, i)| (n.to_string(), tys(&[t]).pop().unwrap(), *i)).collect(),
    };
    let mut ev = real.clone();
    let idx = real.indexed();
    let vals = gen_vals(s, &real.tys(), 30);
    let mut budget = 30;
    let fs: Vec<FV> = idx
        .iter()
        .map(|t| match s.weighted(&[1, 2, 2]) {
            0 => FV::Any,
            1 => FV::This(gen_val(s, t, &mut budget)),
            _ => {
                let n = s.below(4);
                FV::OneOf((0..n).map(|_| gen_val(s, t, &mut budget)).collect())
            }
        })
        .collect();
    ctx.nontrivial(!real.ins.is_empty());
    ctx.ident(&(real.show(), format!("{:?}", vals), &fs));
    ctx.describe(|| format!("{} values {} filter {:?}", real.show(), show_vals(&vals), fs));
    ctx.label_if(real.anonymous, "anonymous event");
    ctx.label_if(idx.iter().any(hashed_topic), "hashed indexed parameter");
    // The recorded finding: the bindings use the camel-cased name instead of the declared one.
    let mut known = None;
    let g = event();
    if g == real.event() {
        // as declared
    } else {
        ev.name = e.camel.into();
        ensure!(
            ev.name != real.name && g == ev.event(),
            "event() is {:?} instead of {:?}",
            g,
            real.event()
        );
        known = Some(Failure::keyed(
            format!("the bindings of event {} use the name {} and so a different signature topic", e.name, e.camel),
            CAMEL_KEY,
        ));
    }
    let w = wanted_filter(&ev, &fs);
    let g = filter(&fs);
    ensure!(g == w, "filter {:?} of {} is {:?} instead of {:?}", fs, ev.show(), g, w);
    let w = wanted_filter(&ev, &[]);
    let g = wildcard();
    ensure!(g == w, "wildcard filter of {} is {:?} instead of {:?}", ev.show(), g, w);
    for round in 0..3 {
        let (mut topics, mut d) = ev.emit(&vals);
        if round > 0 {
            match s.weighted(&[2, 1, 1, 1]) {
                0 => corrupt_data(s, &mut d, ctx),
                1 if !topics.is_empty() => {
                    let i = s.below(topics.len() as u64) as usize;
                    topics[i][s.below(32) as usize] ^= 1 << s.below(8);
                    ctx.label("topic altered");
                }
                2 => {
                    topics.pop();
                    ctx.label("topic dropped");
                }
                _ => {
                    topics.push([9; 32]);
                    ctx.label("topic added");
                }
            }
        }
        let w = match ev.decode(&topics, &d) {
            Err(DecErr::TooMuch) => continue,
            w => w.map(|v| v.into_iter().map(|p| p.1).collect::<Vec<_>>()),
        };
        let raw = crate::props::events::raw(&topics, &d);
        let g = parse(raw.clone());
        compare(&format!("parse_log of {} topics {:?} data", ev.show(), raw.topics), &w, &g, &d)?;
    }
    match known {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- code generation

pub fn rust_ty(t: &Ty) -> String {
    match t {
        Ty::Address => "ethabi::Address".into(),
        Ty::Bool => "bool".into(),
        Ty::Int(_) => "ethabi::Int".into(),
        Ty::Uint(_) => "ethabi::Uint".into(),
        Ty::FixedBytes(32) => "ethabi::Hash".into(),
        Ty::FixedBytes(n) => format!("[u8; {}]", n),
        Ty::Bytes => "ethabi::Bytes".into(),
        Ty::Str => "String".into(),
        Ty::Array(t) => format!("Vec<{}>", rust_ty(t)),
        Ty::FixedArray(t, n) => format!("[{}; {}]", rust_ty(t), n),
        Ty::Tuple(_) => unreachable!(),
    }
}

fn log_ty(p: &Par) -> String {
    if p.indexed && hashed_topic(&p.ty) {
        "ethabi::Hash".into()
    } else {
        rust_ty(&p.ty)
    }
}

fn lits(ps: &[Par]) -> String {
    format!("&[{}]", ps.iter().map(|p| format!("{:?}", name(&p.ty))).collect::<Vec<_>>().join(", "))
}

fn args(ps: &[Par]) -> String {
    ps.iter().enumerate().map(|(i, p)| format!("<{} as Mk>::mk(&v[{}])", rust_ty(&p.ty), i)).collect::<Vec<_>>().join(", ")
}

/// Expression turning the decoded outputs `o` into values.
fn out_expr(outs: &[Par]) -> (String, String) {
    match outs.len() {
        0 => ("()".into(), "{ let () = o; vec![] }".into()),
        1 => (rust_ty(&outs[0].ty), "vec![o.un(&t[0])]".into()),
        n => (
            format!("({})", outs.iter().map(|p| rust_ty(&p.ty)).collect::<Vec<_>>().join(", ")),
            format!("vec![{}]", (0..n).map(|i| format!("o.{}.un(&t[{}])", i, i)).collect::<Vec<_>>().join(", ")),
        ),
    }
}

fn emit_item(abi: usize, k: usize, it: &Item, out: &mut String) {
    use std::fmt::Write;
    let m = format!("m{}", abi);
    let fname = format!("t{}_{}", abi, k);
    match it {
        Item::Fun { name, module, ins, outs, .. } => {
            let (ot, oe) = out_expr(outs);
            let a = args(ins);
            let _ = write!(
                out,
                "fn {fname}(s: &mut Src, ctx: &mut Ctx) -> Res {{
    static F: FunSpec = FunSpec {{ name: {name:?}, ins: {ins}, outs: {outs} }};
    fn conv(o: {ot}) -> Vec<Val> {{ let t = tys(F.outs); let _ = &t; {oe} }}
    check_fun(s, ctx, &F,
        &|v| {{ let _ = v; {m}::functions::{module}::encode_input({a}) }},
        &|v, d| {{ let _ = v; let (b, dec) = {m}::functions::{module}::call({a}); (b, ethabi::FunctionOutputDecoder::decode(&dec, d).map(conv).map_err(|e| format!(\"{{:?}}\", e))) }},
        &|d| {m}::functions::{module}::decode_output(d).map(conv).map_err(|e| format!(\"{{:?}}\", e)))
}}
",
                ins = lits(ins),
                outs = lits(outs),
            );
        }
        Item::Ctor { ins } => {
            let a = args(ins);
            let _ = write!(
                out,
                "fn {fname}(s: &mut Src, ctx: &mut Ctx) -> Res {{
    check_ctor(s, ctx, {}, &|code, v| {{ let _ = v; {m}::constructor(code{}{a}) }})
}}
",
                lits(ins),
                if ins.is_empty() { "" } else { ", " },
            );
        }
        Item::Event { name, module, camel, anonymous, ins } => {
            let spec = ins
                .iter()
                .map(|p| format!("({:?}, {:?}, {})", p.json, crate::model::name(&p.ty), p.indexed))
                .collect::<Vec<_>>()
                .join(", ");
            let fa = ins
                .iter()
                .filter(|p| p.indexed)
                .enumerate()
                .map(|(i, p)| format!("topic::<{}>(&f[{}])", rust_ty(&p.ty), i))
                .collect::<Vec<_>>()
                .join(", ");
            let fields = ins
                .iter()
                .enumerate()
                .map(|(i, p)| format!("{{ let x: {} = l.{}; x.un(&t[{}]) }}", log_ty(p), p.rust, i))
                .collect::<Vec<_>>()
                .join(", ");
            let _ = write!(
                out,
                "fn {fname}(s: &mut Src, ctx: &mut Ctx) -> Res {{
    static E: EvSpec = EvSpec {{ name: {name:?}, camel: {camel:?}, anonymous: {anonymous}, ins: &[{spec}] }};
    fn conv(l: {m}::logs::{camel}) -> Vec<Val> {{
        let t: Vec<Ty> = E.ins.iter().map(|p| tys(&[p.1]).pop().unwrap()).collect();
        let _ = (&t, &l);
        vec![{fields}]
    }}
    check_event(s, ctx, &E,
        &|f| {{ let _ = f; {m}::events::{module}::filter({fa}) }},
        &|| {m}::events::{module}::wildcard_filter(),
        &|l| {m}::events::{module}::parse_log(l).map(conv).map_err(|e| format!(\"{{:?}}\", e)),
        &|| {m}::events::{module}::event())
}}
"
            );
        }
    }
}

/// One program: numbered ABIs with their items.
type Batch = Vec<(usize, Vec<(usize, Item)>)>;

fn program(b: &Batch) -> String {
    let mut out = String::from(
        "#![allow(warnings)]\nuse vh::ctx::{Ctx, Res};\nuse vh::derive::*;\nuse vh::model::{Ty, Val};\nuse vh::src::Src;\nuse ethabi_contract::use_contract;\n",
    );
    let mut table = String::new();
    for (n, items) in b {
        out.push_str(&format!("use_contract!(m{}, \"abi/{}.json\");\n", n, n));
        for (k, it) in items {
            emit_item(*n, *k, it, &mut out);
            table.push_str(&format!("    (\"{}.{}\", t{}_{}),\n", n, k, n, k));
        }
    }
    out.push_str(&format!("fn main() {{\n    drive(&[\n{}    ])\n}}\n", table));
    out
}

// ---------------------------------------------------------------- driver main

pub fn drive(table: &[(&str, Check)]) {
    crate::runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let say = |v: serde_json::Value| {
        use std::io::Write;
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = writeln!(o, "{}", v);
        let _ = o.flush();
    };
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let c = unhex(&a[3]).unwrap_or_default();
        for (n, f) in table {
            if *n == a[2] {
                let mut ctx = Ctx::new(true);
                let (r, _) = eval(*f, &c, &mut ctx);
                let (msg, key) = match r {
                    Ok(()) => (None, None),
                    Err(e) => (Some(e.msg), e.key),
                };
                say(serde_json::json!({"replay": n, "desc": ctx.desc, "fail": msg, "key": key}));
            }
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap();
    let cases: u64 = a[3].parse().unwrap();
    let known_keys: Vec<&str> = a[4..].iter().map(|s| s.as_str()).collect();
    for (n, f) in table {
        say(serde_json::json!({"start": n}));
        let mut evals = 0u64;
        let mut nt: Vec<String> = vec![];
        let mut nt_total = 0u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut sample = None;
        let mut known = 0u64;
        for i in 0..cases {
            let h = keccak(format!("{} {} {}", seed, n, i).as_bytes());
            let len = 8 + (u16::from_be_bytes([h[0], h[1]]) as usize) % 700;
            let c = expand(u64::from_be_bytes(h[8..16].try_into().unwrap()), len);
            let mut ctx = Ctx::new(i == 3);
            let (r, _) = eval(*f, &c, &mut ctx);
            evals += 1;
            for (l, k) in &ctx.labels {
                *labels.entry(l).or_insert(0) += k;
            }
            if ctx.nontrivial {
                nt_total += 1;
                nt.push(format!("{:x}", ctx.key));
            }
            if ctx.desc.is_some() {
                sample = ctx.desc.clone();
            }
            if let Err(e) = r {
                if e.key.as_deref().map_or(false, |k| known_keys.contains(&k)) {
                    known += 1;
                    continue;
                }
                let (best, e, _) = shrink(c, e, 4000, Duration::from_secs(20), |c| {
                    let mut ctx = Ctx::new(false);
                    match eval(*f, c, &mut ctx) {
                        (Err(e), used) if !e.key.as_deref().map_or(false, |k| known_keys.contains(&k)) => Some((e, used)),
                        _ => None,
                    }
                });
                let mut ctx = Ctx::new(true);
                let _ = eval(*f, &best, &mut ctx);
                say(serde_json::json!({"violation": n, "choices": hex(&best), "msg": e.msg, "desc": ctx.desc}));
                return;
            }
        }
        say(serde_json::json!({"done": n, "evals": evals, "nt": nt, "nt_total": nt_total, "labels": labels, "sample": sample, "known": known}));
    }
    say(serde_json::json!({"end": true}));
}

// ---------------------------------------------------------------- parent

struct Work {
    id: String,
    dir: PathBuf,
    target: PathBuf,
    verif: PathBuf,
}

impl Work {
    fn new(env: &Env, id: &str) -> Work {
        let dir = env.verif.join("target").join("derive").join(id);
        Work { id: id.to_lowercase(), dir, target: env.verif.join("target"), verif: env.verif.clone() }
    }

    /// Package names differ between properties, as they share a target directory.
    fn pkg(&self, i: usize) -> String {
        format!("{}drv{}", self.id, i)
    }

    /// Write the workspace: one package per batch, alternating editions.
    fn write(&self, batches: &[Batch]) {
        let _ = std::fs::remove_dir_all(&self.dir);
        // nothing an earlier run built may pass for this one
        let prefix = format!("{}drv", self.id);
        for e in std::fs::read_dir(self.target.join("release/.fingerprint")).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with(&prefix) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        for d in ["release", "release/deps"] {
            for e in std::fs::read_dir(self.target.join(d)).into_iter().flatten().flatten() {
                if e.file_name().to_string_lossy().starts_with(&prefix) {
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
        let mut members = String::new();
        let mut opt = String::new();
        for (i, b) in batches.iter().enumerate() {
            let d = self.dir.join(self.pkg(i));
            std::fs::create_dir_all(d.join("abi")).expect("mkdir");
            std::fs::create_dir_all(d.join("src")).expect("mkdir");
            members.push_str(&format!("\"{}\", ", self.pkg(i)));
            opt.push_str(&format!("[profile.release.package.{}]\nopt-level = 0\ncodegen-units = 8\n", self.pkg(i)));
            let toml = format!(
                "[package]\nname = \"{}\"\nversion = \"0.0.0\"\nedition = \"{}\"\npublish = false\n\n[dependencies]\nethabi = {{ path = \"/repo/ethabi\" }}\nethabi-derive = {{ path = \"/repo/derive\" }}\nethabi-contract = {{ path = \"/repo/contract\" }}\nvh = {{ path = \"{}/harness\", default-features = false }}\n",
                self.pkg(i),
                if i % 2 == 0 { "2018" } else { "2021" },
                self.verif.display()
            );
            std::fs::write(d.join("Cargo.toml"), toml).expect("write");
            std::fs::write(d.join("src/main.rs"), program(b)).expect("write");
            for (n, items) in b {
                let its: Vec<Item> = items.iter().map(|x| x.1.clone()).collect();
                std::fs::write(d.join(format!("abi/{}.json", n)), json_doc(&its)).expect("write");
            }
        }
        let toml = format!(
            "[workspace]\nresolver = \"1\"\nmembers = [{}]\n\n[profile.release]\nopt-level = 2\ndebug = \"line-tables-only\"\noverflow-checks = true\ndebug-assertions = true\npanic = \"unwind\"\ncodegen-units = 16\nincremental = false\n\n{}",
            members, opt
        );
        std::fs::write(self.dir.join("Cargo.toml"), toml).expect("write");
        let lock = self.verif.join("derive").join("Cargo.lock");
        let _ = std::fs::copy(lock, self.dir.join("Cargo.lock"));
    }

    /// Build; Ok, or the packages that did not compile (empty: something else broke) and the errors.
    fn build(&self) -> Result<(), (Vec<usize>, String)> {
        let out = Command::new("cargo")
            .args(["build", "--offline", "--release", "--keep-going", "--target-dir"])
            .arg(&self.target)
            .arg("--manifest-path")
            .arg(self.dir.join("Cargo.toml"))
            .current_dir(&self.dir)
            .stdin(Stdio::null())
            .output();
        let out = match out {
            Ok(o) => o,
            Err(e) => return Err((vec![], format!("cannot run cargo: {}", e))),
        };
        if out.status.success() {
            return Ok(());
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut bad = vec![];
        let mut other = false;
        for l in err.lines() {
            if let Some(r) = l.strip_prefix("error: could not compile `") {
                let n = r.split('`').next().unwrap_or("");
                match n.strip_prefix(&format!("{}drv", self.id)).and_then(|x| x.parse::<usize>().ok()) {
                    Some(i) => bad.push(i),
                    None => other = true,
                }
            }
        }
        bad.sort();
        bad.dedup();
        if other {
            bad.clear();
        }
        Err((bad, err))
    }

    fn bin(&self, i: usize) -> PathBuf {
        self.target.join("release").join(self.pkg(i))
    }
}

fn first_errors(err: &str) -> String {
    let mut out = String::new();
    let mut n = 0;
    for l in err.lines() {
        if l.starts_with("error") && !l.starts_with("error: could not compile") {
            n += 1;
            if n > 3 {
                break;
            }
        }
        if n > 0 && out.len() < 2500 {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

fn control(events: bool) -> Vec<(usize, Item)> {
    let p = |n: &str, t: Ty, indexed: bool| Par { json: n.into(), rust: n.into(), ty: t, indexed };
    if events {
        vec![(
            0,
            Item::Event {
                name: "Transfer".into(),
                module: "transfer".into(),
                camel: "Transfer".into(),
                anonymous: false,
                ins: vec![p("a", Ty::Address, true), p("b", Ty::Uint(256), false)],
            },
        )]
    } else {
        vec![(
            0,
            Item::Fun {
                name: "go".into(),
                module: "go".into(),
                ins: vec![p("a", Ty::Uint(256), false)],
                outs: vec![p("", Ty::Bool, false)],
                constant: None,
                mutability: None,
            },
        )]
    }
}

/// ABI number -> items, for a seed. Numbers below 1000 are the systematic ones.
fn abi(n: usize, seed: u64, events: bool) -> Vec<Item> {
    if n < 1000 {
        return systematic(events).into_iter().nth(n).unwrap_or_default();
    }
    let h = keccak(format!("abi {} {} {}", seed, n, events).as_bytes());
    let c = expand(u64::from_be_bytes(h[..8].try_into().unwrap()), 200 + (h[9] as usize) * 3);
    gen_abi(&mut Src::new(&c), events)
}

fn numbered(items: Vec<Item>) -> Vec<(usize, Item)> {
    items.into_iter().enumerate().collect()
}

const PROGRAMS: usize = 8;

pub fn run(p: &Prop, env: &Env) -> i32 {
    let t0 = Instant::now();
    let events = p.id == "C25";
    let known = Known::load(&env.verif.join("KNOWN_FINDINGS.txt"));
    let keys: Vec<String> = known.entries.iter().filter(|e| e.0 == p.id).map(|e| e.1.clone()).collect();
    let w = Work::new(env, p.id);
    let random = if env.thorough { 160 } else { 120 };
    let rounds = if env.thorough { 30 } else { 1 };
    let cases: u64 = env.cases.unwrap_or(if env.thorough { 2000 } else { 600 });
    let mut tally = Tally::default();
    let mut abis = 0u64;
    let mut entries = 0u64;
    for round in 0..rounds {
        let mut nums: Vec<usize> = vec![];
        if round == 0 {
            nums.extend(0..systematic(events).len());
        }
        nums.extend((0..random).map(|i| 1000 + round * 1000 + i));
        abis += nums.len() as u64;
        let mut batches: Vec<Batch> = vec![vec![]; PROGRAMS];
        for (i, n) in nums.iter().enumerate() {
            let items = numbered(abi(*n, env.seed, events));
            entries += items.len() as u64;
            batches[i % PROGRAMS].push((*n, items));
        }
        w.write(&batches);
        if let Err((bad, err)) = w.build() {
            return compile_failure(p, env, &w, &batches, bad, err, events, t0);
        }
        // run the programs side by side
        let handles: Vec<_> = (0..PROGRAMS)
            .map(|i| {
                let bin = w.bin(i);
                let args: Vec<String> = vec!["run".into(), env.seed.to_string(), cases.to_string()];
                let keys = keys.clone();
                std::thread::spawn(move || Command::new(bin).args(args).args(keys).stdin(Stdio::null()).output())
            })
            .collect();
        for (i, h) in handles.into_iter().enumerate() {
            let out = match h.join().unwrap() {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("cannot run driver: {}", e);
                    return 2;
                }
            };
            let mut ended = false;
            let mut last = String::new();
            for line in String::from_utf8_lossy(&out.stdout).lines() {
                let v: serde_json::Value = serde_json::from_str(line).unwrap_or_default();
                if let Some(n) = v["start"].as_str() {
                    last = n.to_string();
                } else if let Some(n) = v["violation"].as_str() {
                    return violation(p, env, n, &v["choices"], v["msg"].as_str().unwrap_or(""), v["desc"].as_str(), i % 2, events, &tally, t0);
                } else if v["done"].is_string() {
                    tally.evals += v["evals"].as_u64().unwrap_or(0);
                    tally.nontrivial_total += v["nt_total"].as_u64().unwrap_or(0);
                    for x in v["nt"].as_array().into_iter().flatten() {
                        if let Ok(k) = u64::from_str_radix(x.as_str().unwrap_or(""), 16) {
                            tally.nontrivial.insert(k);
                        }
                    }
                    for (k, n) in v["labels"].as_object().into_iter().flatten() {
                        *tally.labels.entry(Box::leak(k.clone().into_boxed_str())).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                    if let Some(d) = v["sample"].as_str() {
                        if tally.samples.len() < 24 && tally.evals % 3 == 1 {
                            tally.samples.push(clip(d, 600));
                        }
                    }
                    let k = v["known"].as_u64().unwrap_or(0);
                    if k > 0 {
                        *tally.known.entry(CAMEL_KEY.into()).or_insert(0) += k;
                    }
                } else if v["end"].as_bool() == Some(true) {
                    ended = true;
                }
            }
            if !ended {
                let msg = format!("the program ended with {:?} while running the bindings", out.status);
                return violation(p, env, &last, &serde_json::Value::Null, &msg, None, i % 2, events, &tally, t0);
            }
        }
    }
    if tally.samples.is_empty() {
        tally.samples.push(abi(0, env.seed, events)[0].show());
    }
    known_lines(&known, p.id);
    let wall = t0.elapsed().as_secs_f64();
    evidence(env, p, &tally, systematic(events).len() as u64, wall, 0, serde_json::json!({"abis_compiled": abis, "bindings_compiled": entries}));
    println!(
        "{} ok abis={} bindings={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        p.id,
        abis,
        entries,
        tally.evals,
        tally.nontrivial.len(),
        wall
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn violation(
    p: &Prop,
    env: &Env,
    entry: &str,
    choices: &serde_json::Value,
    msg: &str,
    desc: Option<&str>,
    edition: usize,
    events: bool,
    tally: &Tally,
    t0: Instant,
) -> i32 {
    let mut it = entry.split('.').map(|x| x.parse::<usize>().unwrap_or(0));
    let (n, k) = (it.next().unwrap_or(0), it.next().unwrap_or(0));
    let item = abi(n, env.seed, events).into_iter().nth(k);
    let shown = item.as_ref().map(|i| i.show()).unwrap_or_default();
    let json = item.map(|i| json_doc(&[i])).unwrap_or_default();
    let path = write_replay(
        env,
        p.id,
        serde_json::json!({"property": p.id, "abi": n, "entry": k, "seed": env.seed, "edition": edition, "choices": choices, "item": shown, "json": json, "message": clip(msg, 4000)}),
    );
    println!("binding: {}", shown);
    if let Some(d) = desc {
        println!("case: {}", clip(d, 1500));
    }
    println!("{}", clip(msg, 3000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
    evidence(env, p, tally, 0, t0.elapsed().as_secs_f64(), 1, serde_json::json!({}));
    1
}

/// Find a small ABI that does not compile.
#[allow(clippy::too_many_arguments)]
fn compile_failure(
    p: &Prop,
    env: &Env,
    w: &Work,
    batches: &[Batch],
    bad: Vec<usize>,
    err: String,
    events: bool,
    t0: Instant,
) -> i32 {
    if bad.is_empty() {
        eprintln!("building the bindings failed outside the generated programs:\n{}", clip(&first_errors(&err), 3000));
        return 2;
    }
    // a trivial program must compile, or the failure says nothing about the ABI
    w.write(&[vec![(0, control(events))], vec![(0, control(events))]]);
    if let Err((_, e)) = w.build() {
        eprintln!("even a trivial binding does not compile:\n{}", clip(&first_errors(&e), 3000));
        return 2;
    }
    let edition = bad[0] % 2;
    // candidates: single items of the failing program, several per build
    let all: Vec<(usize, usize, Item)> =
        batches[bad[0]].iter().flat_map(|(n, v)| v.iter().map(move |(k, i)| (*n, *k, i.clone()))).collect();
    let mut found: Option<((usize, usize, Item), String)> = None;
    for chunk in all.chunks(PROGRAMS) {
        // even positions 2018, odd 2021: two slots per candidate, only the right edition matters
        let mut bs: Vec<Batch> = vec![];
        for c in chunk {
            let b = vec![(c.0, vec![(c.1, c.2.clone())])];
            let c0 = vec![(0, control(events))];
            if edition == 0 {
                bs.push(b);
                bs.push(c0);
            } else {
                bs.push(c0);
                bs.push(b);
            }
        }
        w.write(&bs);
        if let Err((bad, e)) = w.build() {
            if let Some(i) = bad.first() {
                found = Some((chunk[i / 2].clone(), e));
                break;
            }
        }
        if t0.elapsed() > Duration::from_secs(500) {
            break;
        }
    }
    let (n, k, msg) = match found {
        Some(((n, k, _), e)) => (n, k as i64, format!("the binding does not compile:\n{}", first_errors(&e))),
        None => (batches[bad[0]][0].0, -1, format!("the bindings of several entries together do not compile:\n{}", first_errors(&err))),
    };
    if k >= 0 {
        return violation(p, env, &format!("{}.{}", n, k), &serde_json::Value::Null, &msg, None, edition, events, &Tally::default(), t0);
    }
    let list: Vec<usize> = batches[bad[0]].iter().map(|b| b.0).collect();
    let path = write_replay(
        env,
        p.id,
        serde_json::json!({"property": p.id, "abis": list, "seed": env.seed, "edition": edition, "message": clip(&msg, 4000)}),
    );
    println!("{}", clip(&msg, 3000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
    evidence(env, p, &Tally::default(), 0, t0.elapsed().as_secs_f64(), 1, serde_json::json!({}));
    1
}

/// Build what the programs with bindings depend on.
pub fn prepare(env: &Env) -> i32 {
    let w = Work::new(env, "prepare");
    w.write(&[vec![(0, control(false))], vec![(0, control(true))]]);
    match w.build() {
        Ok(()) => 0,
        Err((_, e)) => {
            eprintln!("building the bindings failed:\n{}", clip(&first_errors(&e), 3000));
            2
        }
    }
}

pub fn replay(p: &Prop, env: &Env, path: &Path) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_default()).unwrap_or_default();
    let events = p.id == "C25";
    let seed = v["seed"].as_u64().unwrap_or(1);
    let edition = v["edition"].as_u64().unwrap_or(0) as usize;
    let w = Work::new(env, p.id);
    let b: Batch = if let Some(l) = v["abis"].as_array() {
        l.iter().filter_map(|x| x.as_u64()).map(|n| (n as usize, numbered(abi(n as usize, seed, events)))).collect()
    } else {
        let (n, k) = (v["abi"].as_u64().unwrap_or(0) as usize, v["entry"].as_u64().unwrap_or(0) as usize);
        vec![(n, numbered(abi(n, seed, events)).into_iter().filter(|x| x.0 == k).collect())]
    };
    let c: Batch = vec![(0, control(events))];
    let bs = if edition == 0 { vec![b.clone(), c] } else { vec![c, b.clone()] };
    w.write(&bs);
    let fail = |m: &str| {
        println!("{}", clip(m, 4000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    };
    if let Err((bad, e)) = w.build() {
        if bad.contains(&edition) {
            return fail(&format!("the binding does not compile:\n{}", first_errors(&e)));
        }
        eprintln!("build failed:\n{}", first_errors(&e));
        return 2;
    }
    if let Some(ch) = v["choices"].as_str() {
        let name = format!("{}.{}", v["abi"].as_u64().unwrap_or(0), v["entry"].as_u64().unwrap_or(0));
        let out = Command::new(w.bin(edition)).args(["replay", &name, ch]).output();
        if let Ok(o) = out {
            let r: serde_json::Value = serde_json::from_slice(&o.stdout).unwrap_or_default();
            println!("case: {}", r["desc"].as_str().unwrap_or(""));
            if let Some(m) = r["fail"].as_str() {
                return fail(m);
            }
            if !o.status.success() {
                return fail("the program died");
            }
        }
    }
    println!("replay: property {} holds on this case", p.id);
    0
}

fn unused(_: &mut Src, _: &mut Ctx) -> Res {
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C24",
        rule: "ABIs (a systematic set covering every leaf kind in seven container shapes as input and output, plus random tuple-free ABIs) compiled through use_contract! into programs of edition 2018 and 2021; each function and constructor binding is run on generated arguments, outputs and corrupted output data and compared with the reference encoder and decoder. Non-trivial: binding with at least one parameter or output. Distinct by (binding, values).",
        quick: 0,
        thorough: 0,
        max_len: 700,
        check: unused,
        fixed: &[],
        assumptions: &["names stay distinct after snake-casing", "no tuples, no overloads"],
    },
    Prop {
        id: "C25",
        rule: "ABIs (a systematic set covering every leaf kind in seven container shapes as plain and indexed parameter, plus random tuple-free ABIs) compiled through use_contract! into programs of edition 2018 and 2021; each event binding is run on generated filter values, emitted logs and corrupted logs and compared with the model of emitted topics and the reference log decoder. Non-trivial: event with at least one parameter. Distinct by (event, values, filter).",
        quick: 0,
        thorough: 0,
        max_len: 700,
        check: unused,
        fixed: &[],
        assumptions: &["names stay distinct after snake-casing", "at most three indexed parameters, no tuples, no overloads"],
    },
];
