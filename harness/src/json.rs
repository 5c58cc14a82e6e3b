//! JSON ABI model: documents, a writer with free key order, spacing and escapes, and a reader.

use crate::model::*;
use crate::src::Src;
use ethabi::{Constructor, Contract, Event, EventParam, Function, Param, StateMutability};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn st<S: Into<String>>(s: S) -> J {
    J::Str(s.into())
}

/// One parameter; `comps` mirrors the tuple structure of `ty` where there is one.
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub name: String,
    pub ty: Ty,
    pub internal: Option<String>,
    pub indexed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Fun { name: String, ins: Vec<P>, outs: Vec<P>, constant: Option<bool>, mutability: Option<StateMutability> },
    Ev { name: String, ins: Vec<P>, anonymous: bool },
    Ctor { ins: Vec<P> },
    Fallback,
    Receive,
}

pub const MUTS: [StateMutability; 4] =
    [StateMutability::NonPayable, StateMutability::View, StateMutability::Pure, StateMutability::Payable];

pub fn mut_name(m: StateMutability) -> &'static str {
    match m {
        StateMutability::Pure => "pure",
        StateMutability::View => "view",
        StateMutability::NonPayable => "nonpayable",
        StateMutability::Payable => "payable",
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_ident(s: &mut Src) -> String {
    match s.weighted(&[12, 6, 2, 2, 1]) {
        4 => {
            let d = s.dict_str();
            match s.weighted(&[4, 1, 1]) {
                0 => d.to_string(),
                1 => format!("{}x", d),
                _ => format!("x{}", d),
            }
        }
        0 => s.pick(&["f", "g", "transfer", "a", "b", "E", "Transfer", "balanceOf", "x1", "_value", "set"]).to_string(),
        1 => {
            let n = s.range(1, 12);
            (0..n)
                .map(|i| {
                    let set: &[u8] = if i == 0 {
                        b"abcxyzABCXYZ_$"
                    } else {
                        b"abcdefxyzABCDEFXYZ_$0123456789"
                    };
                    *s.pick(set) as char
                })
                .collect()
        }
        2 => {
            let n = if s.below(6) == 0 { *s.pick(&[64usize, 127, 128, 129, 136, 255, 256, 257, 600]) } else { s.range(1, 40) as usize };
            "n".repeat(n)
        }
        _ => s.pick(&["", "été", "名前", "a b", "quo\"te", "back\\slash", "new\nline", "\u{1f600}", "a.b", "a,b", "x)y", "tuple", "type", " a", "a ", "\tf", "f\u{a0}", "\u{feff}f", "F", "TRANSFER", "constructor", "fallback", "receive", "uint256", "_", "__", "0"]).to_string(),
    }
}

pub fn gen_internal(s: &mut Src, t: &Ty) -> Option<String> {
    match s.weighted(&[9, 9, 3, 1]) {
        0 => None,
        1 => Some(name(t)),
        3 => Some(s.dict_str().to_string()),
        _ => Some(s.pick(&["struct Foo.Bar", "contract IERC20", "enum E", "struct A[]", "", "é \"q\"", " x", "x ", "a  b", "\tT\n", "UINT", "address payable", "\u{0}"]).to_string()),
    }
}

pub fn gen_params(s: &mut Src, cfg: TyCfg, max: u64, ident: fn(&mut Src) -> String) -> Vec<P> {
    gen_tys(s, cfg, max)
        .into_iter()
        .map(|ty| P { name: ident(s), internal: gen_internal(s, &ty), ty, indexed: false })
        .collect()
}

pub fn gen_indexed(s: &mut Src, ps: &mut [P]) {
    for p in ps.iter_mut() {
        p.indexed = s.chance(110);
    }
}

pub const JCFG: TyCfg = TyCfg { depth: 4, cap: 20, tuples: true, dynamic: true };

pub fn gen_entry(s: &mut Src, ident: fn(&mut Src) -> String) -> Entry {
    match s.weighted(&[6, 4]) {
        0 => Entry::Fun {
            name: ident(s),
            ins: gen_params(s, JCFG, 3, ident),
            outs: gen_params(s, JCFG, 2, ident),
            constant: match s.weighted(&[2, 1, 1]) {
                0 => None,
                1 => Some(true),
                _ => Some(false),
            },
            mutability: if s.bool() { Some(*s.pick(&MUTS)) } else { None },
        },
        _ => {
            let mut ins = gen_params(s, JCFG, 4, ident);
            gen_indexed(s, &mut ins);
            Entry::Ev { name: ident(s), ins, anonymous: s.chance(80) }
        }
    }
}

/// Entries of a whole document; at most one constructor.
pub fn gen_doc(s: &mut Src, max: u64, ident: fn(&mut Src) -> String) -> Vec<Entry> {
    let n = s.below(max + 1);
    let mut out: Vec<Entry> = (0..n).map(|_| gen_entry(s, ident)).collect();
    let ins = |s: &mut Src, out: &mut Vec<Entry>, e: Entry| {
        let i = s.below(out.len() as u64 + 1) as usize;
        out.insert(i, e)
    };
    if s.chance(100) {
        let e = Entry::Ctor { ins: gen_params(s, JCFG, 3, ident) };
        ins(s, &mut out, e);
    }
    if s.chance(80) {
        ins(s, &mut out, Entry::Fallback);
    }
    if s.chance(80) {
        ins(s, &mut out, Entry::Receive);
    }
    out
}

// ---------------------------------------------------------------- to JSON

pub struct Style {
    pub extras: bool,
    pub alias: bool,
    pub suffix_names: bool,
}

fn extra_value(s: &mut Src, d: usize) -> J {
    match s.weighted(if d == 0 { &[2, 2, 2, 2, 1, 0, 0] } else { &[2, 2, 2, 2, 1, 2, 2] }) {
        0 => st("x"),
        1 => J::Bool(s.bool()),
        2 => J::Null,
        3 => J::Num(s.pick(&["0", "1", "-1", "3.5", "1e3", "18446744073709551615", "-9223372036854775808", "0.0"]).to_string()),
        4 => st(gen_string(s).chars().take(20).collect::<String>()),
        5 => {
            let n = s.below(3);
            J::Arr((0..n).map(|_| extra_value(s, d - 1)).collect())
        }
        _ => {
            let n = s.below(3);
            J::Obj((0..n).map(|i| (s.pick(&["name", "type", "inputs", "k"]).to_string() + &"_".repeat(i as usize), extra_value(s, d - 1))).collect())
        }
    }
}

fn add_extras(s: &mut Src, o: &mut Vec<(String, J)>, pool: &[&str]) {
    if !s.chance(110) {
        return;
    }
    let n = s.range(1, 2);
    for _ in 0..n {
        let mut k = s.pick(pool).to_string();
        if s.chance(80) {
            // a text of the sources, or a member in another spelling
            let d = if s.bool() { s.dict_str().to_string() } else { s.pick(MEMBERS).to_string() };
            let d = match s.below(8) {
                0 => d.to_uppercase(),
                1 => d.to_lowercase(),
                2 => format!("_{}", d),
                3 => format!("{}s", d),
                4 => d.trim_end_matches('s').to_string(),
                _ => d,
            };
            if !MEMBERS.contains(&d.as_str()) {
                k = d;
            }
        }
        if o.iter().all(|(x, _)| *x != k) {
            let v = extra_value(s, 2);
            let i = s.below(o.len() as u64 + 1) as usize;
            o.insert(i, (k, v));
        }
    }
}

fn shuffle<T>(s: &mut Src, v: &mut Vec<T>) {
    for i in (1..v.len()).rev() {
        let j = i - s.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
}

const MEMBERS: &[&str] =
    &["type", "name", "inputs", "outputs", "constant", "stateMutability", "anonymous", "indexed", "internalType", "components"];
const PARAM_EXTRA: &[&str] = &["indexed_", "Name", "TYPE", "description", "", "é", "baseType", "simpleType", "kind", "index"];
const ENTRY_EXTRA: &[&str] = &["payable", "signature", "gas", "devdoc", "Type", "", "selector", "é", "internalType", "components", "indexed"];

/// `type` text of a JSON parameter: tuples become the keyword, with the array suffixes kept.
pub fn json_type(t: &Ty, alias: bool) -> String {
    match t {
        Ty::Array(t) => format!("{}[]", json_type(t, alias)),
        Ty::FixedArray(t, n) => format!("{}[{}]", json_type(t, alias), n),
        Ty::Tuple(_) => "tuple".into(),
        Ty::Uint(256) if alias => "uint".into(),
        Ty::Int(256) if alias => "int".into(),
        t => name(t),
    }
}

pub fn tuple_inside(t: &Ty) -> Option<&Vec<Ty>> {
    match t {
        Ty::Array(t) | Ty::FixedArray(t, _) => tuple_inside(t),
        Ty::Tuple(ts) => Some(ts),
        _ => None,
    }
}

fn components(s: &mut Src, ts: &[Ty], y: &Style) -> J {
    J::Arr(
        ts.iter()
            .map(|t| {
                let mut o = vec![("type".to_string(), st(json_type(t, y.alias && s.bool())))];
                if !s.chance(40) {
                    o.push(("name".into(), st(gen_ident(s))));
                }
                if let Some(ts) = tuple_inside(t) {
                    o.push(("components".into(), components(s, ts, y)));
                }
                if let Some(i) = gen_internal(s, t) {
                    o.push(("internalType".into(), st(i)));
                }
                if y.extras {
                    add_extras(s, &mut o, PARAM_EXTRA);
                }
                shuffle(s, &mut o);
                J::Obj(o)
            })
            .collect(),
    )
}

pub fn param_json(s: &mut Src, p: &P, event: bool, y: &Style) -> J {
    let mut o = vec![
        ("name".to_string(), st(p.name.clone())),
        ("type".to_string(), st(json_type(&p.ty, y.alias && s.bool()))),
    ];
    if let Some(ts) = tuple_inside(&p.ty) {
        o.push(("components".into(), components(s, ts, y)));
    }
    if event {
        if p.indexed || !s.chance(60) {
            o.push(("indexed".into(), J::Bool(p.indexed)));
        }
        if y.extras {
            if let Some(i) = &p.internal {
                o.push(("internalType".into(), st(i.clone())));
            }
        }
    } else if let Some(i) = &p.internal {
        o.push(("internalType".into(), st(i.clone())));
    }
    if y.extras {
        add_extras(s, &mut o, PARAM_EXTRA);
        if !event && s.chance(30) {
            o.push(("indexed".into(), J::Bool(true)));
        }
    }
    shuffle(s, &mut o);
    J::Obj(o)
}

pub fn entry_json(s: &mut Src, e: &Entry, y: &Style) -> J {
    let plist = |s: &mut Src, ps: &[P], ev: bool| J::Arr(ps.iter().map(|p| param_json(s, p, ev, y)).collect());
    let dirty = |s: &mut Src, n: &str| {
        if y.suffix_names && s.chance(40) {
            format!("{}{}", n, s.pick(&["(", "()", "(uint256)", "(a(b", "((", "(é)"]))
        } else {
            n.to_string()
        }
    };
    let mut o: Vec<(String, J)> = vec![];
    let mut add = |k: &str, v: J| o.push((k.to_string(), v));
    match e {
        Entry::Fun { name, ins, outs, constant, mutability } => {
            add("type", st("function"));
            add("name", st(dirty(s, name)));
            add("inputs", plist(s, ins, false));
            add("outputs", plist(s, outs, false));
            if let Some(c) = constant {
                add("constant", J::Bool(*c));
            }
            if let Some(m) = mutability {
                add("stateMutability", st(mut_name(*m)));
            }
            if y.extras && s.chance(30) {
                add("anonymous", J::Bool(true));
            }
        }
        Entry::Ev { name, ins, anonymous } => {
            add("type", st("event"));
            add("name", st(dirty(s, name)));
            add("inputs", plist(s, ins, true));
            add("anonymous", J::Bool(*anonymous));
            if y.extras && s.chance(30) {
                add("outputs", J::Null);
                add("constant", st("x"));
            }
        }
        Entry::Ctor { ins } => {
            add("type", st("constructor"));
            add("inputs", plist(s, ins, false));
            if y.extras && s.chance(60) {
                add("stateMutability", st("anything"));
                add("name", J::Null);
            }
        }
        Entry::Fallback | Entry::Receive => {
            add("type", st(if *e == Entry::Fallback { "fallback" } else { "receive" }));
            if y.extras && s.chance(100) {
                add("stateMutability", st("payable"));
                add("inputs", J::Null);
            }
        }
    }
    if y.extras {
        add_extras(s, &mut o, ENTRY_EXTRA);
    }
    shuffle(s, &mut o);
    J::Obj(o)
}

/// Text of a JSON tree with arbitrary spacing and escapes.
pub fn write(s: &mut Src, j: &J, fancy: bool, out: &mut String) {
    let ws = |s: &mut Src, out: &mut String| {
        if fancy {
            match s.weighted(&[10, 2, 1, 1]) {
                0 => {}
                1 => out.push(' '),
                2 => out.push_str("\n\t"),
                _ => out.push_str(" \r\n "),
            }
        }
    };
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(t) => write_str(s, t, fancy, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, out);
                write(s, x, fancy, out);
                ws(s, out);
            }
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(s, out);
                write_str(s, k, fancy, out);
                ws(s, out);
                out.push(':');
                ws(s, out);
                write(s, x, fancy, out);
                ws(s, out);
            }
            out.push('}');
        }
    }
}

fn write_str(s: &mut Src, t: &str, fancy: bool, out: &mut String) {
    out.push('"');
    // one decision per string keeps the choice stream short
    let esc = fancy && s.chance(40);
    for (i, c) in t.chars().enumerate() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '/' if esc => out.push_str("\\/"),
            c if (c as u32) < 0x20 || (esc && i % 3 == 1) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn text(s: &mut Src, j: &J) -> String {
    let fancy = s.chance(150);
    let mut o = String::new();
    write(s, j, fancy, &mut o);
    o
}

pub fn plain(j: &J) -> String {
    let mut o = String::new();
    write(&mut Src::new(&[]), j, false, &mut o);
    o
}

// ---------------------------------------------------------------- expected ethabi structures

pub fn cut(n: &str) -> String {
    n.split('(').next().unwrap().to_string()
}

pub fn param(p: &P) -> Param {
    Param { name: p.name.clone(), kind: to_param(&p.ty), internal_type: p.internal.clone() }
}
pub fn event_param(p: &P) -> EventParam {
    EventParam { name: p.name.clone(), kind: to_param(&p.ty), indexed: p.indexed }
}

#[allow(deprecated)]
pub fn fun(e: &Entry) -> Option<Function> {
    match e {
        Entry::Fun { name, ins, outs, constant, mutability } => Some(Function {
            name: cut(name),
            inputs: ins.iter().map(param).collect(),
            outputs: outs.iter().map(param).collect(),
            constant: constant.unwrap_or(false),
            state_mutability: mutability.unwrap_or(StateMutability::NonPayable),
        }),
        _ => None,
    }
}
pub fn event(e: &Entry) -> Option<Event> {
    match e {
        Entry::Ev { name, ins, anonymous } => {
            Some(Event { name: cut(name), inputs: ins.iter().map(event_param).collect(), anonymous: *anonymous })
        }
        _ => None,
    }
}
pub fn ctor(e: &Entry) -> Option<Constructor> {
    match e {
        Entry::Ctor { ins } => Some(Constructor { inputs: ins.iter().map(param).collect() }),
        _ => None,
    }
}
pub fn contract(es: &[Entry]) -> Contract {
    let mut c = Contract::default();
    for e in es {
        match e {
            Entry::Fun { .. } => {
                let f = fun(e).unwrap();
                c.functions.entry(f.name.clone()).or_default().push(f);
            }
            Entry::Ev { .. } => {
                let f = event(e).unwrap();
                c.events.entry(f.name.clone()).or_default().push(f);
            }
            Entry::Ctor { .. } => c.constructor = ctor(e),
            Entry::Fallback => c.fallback = true,
            Entry::Receive => c.receive = true,
        }
    }
    c
}

// ---------------------------------------------------------------- independent reader

/// Reads a JSON ABI entry the way any other consumer would.
pub fn read_entry(v: &serde_json::Value) -> Result<Entry, String> {
    let o = v.as_object().ok_or("entry is not an object")?;
    let ty = o.get("type").and_then(|x| x.as_str()).ok_or("no entry type")?;
    match ty {
        "fallback" => Ok(Entry::Fallback),
        "receive" => Ok(Entry::Receive),
        "constructor" => Ok(Entry::Ctor { ins: read_params(o.get("inputs"), false)? }),
        "function" => read_fun(v),
        "event" => read_ev(v),
        t => Err(format!("unknown entry type {}", t)),
    }
}
pub fn read_fun(v: &serde_json::Value) -> Result<Entry, String> {
    let name = v["name"].as_str().ok_or("no name")?.to_string();
    let m = match v.get("stateMutability") {
        None => None,
        Some(m) => {
            let m = m.as_str().ok_or("stateMutability is not a string")?;
            Some(*MUTS.iter().find(|x| mut_name(**x) == m).ok_or(format!("stateMutability {}", m))?)
        }
    };
    let c = match v.get("constant") {
        None => None,
        Some(c) => Some(c.as_bool().ok_or("constant is not a boolean")?),
    };
    Ok(Entry::Fun {
        name,
        ins: read_params(v.get("inputs"), false)?,
        outs: read_params(v.get("outputs"), false)?,
        constant: c,
        mutability: m,
    })
}
pub fn read_ev(v: &serde_json::Value) -> Result<Entry, String> {
    Ok(Entry::Ev {
        name: v["name"].as_str().ok_or("no name")?.to_string(),
        ins: read_params(v.get("inputs"), true)?,
        anonymous: v["anonymous"].as_bool().ok_or("anonymous")?,
    })
}
pub fn read_params(v: Option<&serde_json::Value>, ev: bool) -> Result<Vec<P>, String> {
    v.and_then(|v| v.as_array()).ok_or("no parameter list")?.iter().map(|p| read_param(p, ev)).collect()
}
pub fn read_param(v: &serde_json::Value, ev: bool) -> Result<P, String> {
    Ok(P {
        name: v["name"].as_str().ok_or("parameter without name")?.to_string(),
        ty: read_type(v)?,
        internal: match v.get("internalType") {
            None => None,
            Some(i) => Some(i.as_str().ok_or("internalType")?.to_string()),
        },
        indexed: match v.get("indexed") {
            None => false,
            Some(i) if ev => i.as_bool().ok_or("indexed")?,
            _ => false,
        },
    })
}
fn read_type(v: &serde_json::Value) -> Result<Ty, String> {
    let t = v["type"].as_str().ok_or("parameter without type")?;
    build_type(t, v)
}
fn build_type(t: &str, v: &serde_json::Value) -> Result<Ty, String> {
    if let Some(r) = t.strip_suffix(']') {
        let i = r.rfind('[').ok_or(format!("type {}", t))?;
        let e = Box::new(build_type(&r[..i], v)?);
        let n = &r[i + 1..];
        return Ok(if n.is_empty() { Ty::Array(e) } else { Ty::FixedArray(e, n.parse().map_err(|_| format!("type {}", t))?) });
    }
    if t == "tuple" {
        let c = v["components"].as_array().ok_or("tuple without components")?;
        return Ok(Ty::Tuple(c.iter().map(read_type).collect::<Result<Vec<_>, _>>()?));
    }
    if t.starts_with('(') {
        return Err(format!("non-standard type {}", t));
    }
    match crate::props::types::recognise(t) {
        crate::props::types::Rec::Ok(x) => Ok(x),
        _ => Err(format!("type {}", t)),
    }
}
