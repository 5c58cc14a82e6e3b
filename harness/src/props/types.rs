//! C06, C08: signatures and type names.

use crate::ctx::{clip, hex, Ctx, Res};
use crate::json::*;
use crate::model::*;
use crate::runner::Prop;
use crate::src::Src;
use crate::{ensure, fail};
use ethabi::param_type::Reader;
use ethabi::ParamType;

#[derive(Debug, PartialEq, Clone)]
pub enum Rec {
    Ok(Ty),
    /// The text is no type name: it must be refused.
    Bad,
    /// A width or size Solidity does not have: refused, or read as written.
    Maybe(Ty),
    /// Accepting or refusing is left open (empty tuples, `tuple`, signs, leading zeros).
    Open,
}

/// Whether and how a type nested deeper than `MAX_NESTING` is read is left open.
pub fn recognise(t: &str) -> Rec {
    match recognise_any(t) {
        Rec::Ok(t) | Rec::Maybe(t) if depth(&t) > MAX_NESTING => Rec::Open,
        r => r,
    }
}

fn recognise_any(t: &str) -> Rec {
    if let Some(r) = t.strip_suffix(']') {
        let i = match r.rfind('[') {
            Some(i) => i,
            None => return Rec::Bad,
        };
        let inner = recognise_any(&r[..i]);
        let n = &r[i + 1..];
        if n.is_empty() {
            return match inner {
                Rec::Ok(t) => Rec::Ok(Ty::Array(Box::new(t))),
                Rec::Maybe(t) => Rec::Maybe(Ty::Array(Box::new(t))),
                x => x,
            };
        }
        return match (inner, digits(n)) {
            (Rec::Bad, _) | (_, Num::Bad) => Rec::Bad,
            (Rec::Ok(t), Num::Ok(n)) if n > 0 => Rec::Ok(Ty::FixedArray(Box::new(t), n)),
            (Rec::Ok(t), Num::Ok(n)) | (Rec::Maybe(t), Num::Ok(n)) => Rec::Maybe(Ty::FixedArray(Box::new(t), n)),
            _ => Rec::Open,
        };
    }
    if t.ends_with(')') {
        if !t.starts_with('(') {
            return Rec::Bad;
        }
        // the first parenthesis must close at the very end
        let mut depth = 0i64;
        let mut parts = vec![];
        let mut cur = String::new();
        let n = t.chars().count();
        for (i, c) in t.chars().enumerate() {
            match c {
                '(' => {
                    depth += 1;
                    if depth > 1 {
                        cur.push(c)
                    }
                }
                ')' => {
                    depth -= 1;
                    if depth < 0 || (depth == 0 && i + 1 != n) {
                        return Rec::Bad;
                    }
                    if depth > 0 {
                        cur.push(c)
                    }
                }
                ',' if depth == 1 => parts.push(std::mem::take(&mut cur)),
                c => cur.push(c),
            }
        }
        if depth != 0 {
            return Rec::Bad;
        }
        if parts.is_empty() && cur.is_empty() {
            return Rec::Open;
        }
        parts.push(cur);
        let mut ts = vec![];
        let mut open = false;
        let mut maybe = false;
        for p in parts {
            match recognise_any(&p) {
                Rec::Ok(t) => ts.push(t),
                Rec::Maybe(t) => {
                    maybe = true;
                    ts.push(t)
                }
                Rec::Bad => return Rec::Bad,
                Rec::Open => open = true,
            }
        }
        return match (open, maybe) {
            (true, _) => Rec::Open,
            (_, true) => Rec::Maybe(Ty::Tuple(ts)),
            _ => Rec::Ok(Ty::Tuple(ts)),
        };
    }
    match t {
        "address" => Rec::Ok(Ty::Address),
        "bool" => Rec::Ok(Ty::Bool),
        "string" => Rec::Ok(Ty::Str),
        "bytes" => Rec::Ok(Ty::Bytes),
        "int" => Rec::Ok(Ty::Int(256)),
        "uint" => Rec::Ok(Ty::Uint(256)),
        "tuple" => Rec::Open,
        _ => {
            for (pre, bits) in [("bytes", false), ("uint", true), ("int", true)] {
                if let Some(n) = t.strip_prefix(pre) {
                    return match digits(n) {
                        Num::Bad => Rec::Bad,
                        Num::Ok(n) if !bits && (1..=32).contains(&n) => Rec::Ok(Ty::FixedBytes(n)),
                        Num::Ok(n) if !bits => Rec::Maybe(Ty::FixedBytes(n)),
                        Num::Ok(n) => {
                            let t = if pre == "int" { Ty::Int(n) } else { Ty::Uint(n) };
                            if n % 8 == 0 && (8..=256).contains(&n) {
                                Rec::Ok(t)
                            } else {
                                Rec::Maybe(t)
                            }
                        }
                        _ => Rec::Open,
                    };
                }
            }
            Rec::Bad
        }
    }
}

enum Num {
    Ok(usize),
    Open,
    Bad,
}

fn digits(t: &str) -> Num {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Num::Bad;
    }
    // signs, leading zeros and numbers beyond the machine word are left open
    if d.len() != t.len() || (d.len() > 1 && d.starts_with('0')) {
        return Num::Open;
    }
    d.parse().map(Num::Ok).unwrap_or(Num::Open)
}

/// The name with some 256-bit integers written as `int` / `uint`.
pub fn alias_name(s: &mut Src, t: &Ty) -> String {
    match t {
        Ty::Uint(256) if s.bool() => "uint".into(),
        Ty::Int(256) if s.bool() => "int".into(),
        Ty::Array(t) => format!("{}[]", alias_name(s, t)),
        Ty::FixedArray(t, n) => format!("{}[{}]", alias_name(s, t), n),
        Ty::Tuple(ts) => {
            let v: Vec<String> = ts.iter().map(|t| alias_name(s, t)).collect();
            format!("({})", v.join(","))
        }
        t => name(t),
    }
}

fn read(t: &str) -> Result<ParamType, ethabi::Error> {
    Reader::read(t)
}

/// All checks on one text.
pub fn text_against(t: &str, ctx: &mut Ctx) -> Res {
    let rec = recognise(t);
    let got = read(t);
    match (&rec, &got) {
        (Rec::Ok(e), Ok(g)) | (Rec::Maybe(e), Ok(g)) => ensure!(*g == to_param(e), "{:?} parses as {:?}", t, g),
        (Rec::Ok(_), Err(e)) => fail!("{:?} is refused: {:?}", t, e),
        (Rec::Bad, Ok(g)) => fail!("{:?} is no type name but parses as {:?}", t, g),
        _ => {}
    }
    ctx.label(match rec {
        Rec::Ok(_) => "valid name",
        Rec::Bad => "invalid name",
        Rec::Maybe(_) => "width Solidity lacks",
        Rec::Open => "left open",
    });
    if let Ok(g) = got {
        let n = g.to_string();
        match read(&n) {
            Ok(h) => ensure!(h == g, "{:?} parses as {:?}, printed {:?}, which parses as {:?}", t, g, n, h),
            Err(e) => fail!("{:?} parses as {:?}, printed {:?}, which is refused: {:?}", t, g, n, e),
        }
        if let Rec::Ok(e) | Rec::Maybe(e) = rec {
            ensure!(n == name(&e), "{:?} prints as {:?} instead of {:?}", t, n, name(&e));
        }
    }
    Ok(())
}

const ALPHA: &[&str] = &[
    "(", ")", "[", "]", ",", "uint", "int", "bytes", "bool", "address", "string", "tuple", "256", "8", "32", "3", "1", "0",
    "[]", "[2]", "()", "(bool)", " ", "é", "-", "x", "u", "uint256", "+", "\u{0}", "𝔘", "function", "fixed128x18", ".", "_", "struct", "byte", "enum",
    "mapping", "contract", "payable", "bytes1", "var", "memory", "fixed", "ufixed", "float", "error", "Bool", "UINT", "256[]", "i", "s",
];

fn c08(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = match s.weighted(&[3, 1]) {
        0 => FULL,
        _ => TyCfg { depth: 14, cap: 40, tuples: true, dynamic: true },
    };
    match s.weighted(&[3, 2, 4, 2]) {
        0 => {
            let t = gen_ty(s, cfg);
            let n = name(&t);
            let p = to_param(&t);
            ctx.ident(&n);
            ctx.nontrivial(depth(&t) > 0);
            ctx.label_if(depth(&t) >= 4, "depth>=4");
            ctx.label_if(has(&t, |t| matches!(t, Ty::Tuple(x) if x.iter().any(|y| tuple_inside(y).is_some()))), "tuple in tuple");
            ctx.describe(|| n.clone());
            ensure!(p.to_string() == n, "{:?} prints as {:?}", p, p.to_string());
            ensure!(ethabi::param_type::Writer::write(&p) == n, "Writer::write differs from {:?}", n);
            let q = format!("\"{}\"", n);
            match serde_json::from_str::<ParamType>(&q) {
                Ok(g) => ensure!(g == p, "JSON {} reads as {:?}", q, g),
                Err(e) => fail!("JSON {} is refused: {}", q, e),
            }
            text_against(&n, ctx)
        }
        1 => {
            let t = gen_ty(s, cfg);
            let n = alias_name(s, &t);
            ctx.ident(&n);
            ctx.nontrivial(n != name(&t));
            ctx.describe(|| n.clone());
            match read(&n) {
                Ok(g) => ensure!(g == to_param(&t), "{:?} parses as {:?}", n, g),
                Err(e) => fail!("{:?} is refused: {:?}", n, e),
            }
            text_against(&n, ctx)
        }
        2 => {
            // near misses
            let t = gen_ty(s, SMALL);
            let mut c: Vec<char> = alias_name(s, &t).chars().collect();
            let k = s.range(1, 3);
            for _ in 0..k {
                let i = s.below(c.len() as u64 + 1) as usize;
                match s.weighted(&[3, 3, 2, 1, 1]) {
                    0 if i < c.len() => {
                        c.remove(i);
                    }
                    1 => {
                        let w: Vec<char> = s.pick(ALPHA).chars().collect();
                        c.splice(i..i, w);
                    }
                    2 if i < c.len() => {
                        let w: Vec<char> = s.pick(ALPHA).chars().collect();
                        c.splice(i..i + 1, w);
                    }
                    3 if i + 1 < c.len() => c.swap(i, i + 1),
                    _ => {
                        let j = s.below(c.len() as u64 + 1) as usize;
                        let (a, b) = (i.min(j), i.max(j));
                        if s.bool() {
                            c.drain(a..b);
                        } else {
                            let part: Vec<char> = c[a..b].to_vec();
                            c.splice(b..b, part);
                        }
                    }
                }
            }
            let n: String = c.into_iter().collect();
            ctx.ident(&n);
            ctx.nontrivial(recognise(&n) == Rec::Bad);
            ctx.label("near miss");
            ctx.describe(|| format!("{:?}", n));
            text_against(&n, ctx)
        }
        _ => {
            let k = s.below(9);
            let mut n = String::new();
            for _ in 0..k {
                n.push_str(if s.chance(20) { s.dict_str() } else { s.pick(ALPHA) });
            }
            ctx.ident(&n);
            ctx.nontrivial(!n.is_empty());
            ctx.label("soup");
            ctx.describe(|| format!("{:?}", n));
            text_against(&n, ctx)
        }
    }
}

fn c08_regressions() -> Res {
    let mut ctx = Ctx::new(false);
    for t in [
        "]", "5]", "é[]", "(é)", "((bool,(uint256),string),address)", "(((bool),(bool)))", "((((bool,uint8)[2])))", "(bool)(bool)",
        "(bool,,bool)", "(,bool)", "(bool,)", "bool]", "[]", "[3]", "(", ")", "(bool", "bool)", "((bool)", "(bool))", "(bool)x", "x(bool)",
        "(bool)[", "(bool)]", "(bool[)", "(bool,uint256[3)]", "uint256[a]", "uint256[-1]", "uint256[ 1]", "uint256[1 ]", "uint 256",
        "((bool,uint256)[],(string,(bytes,int8[2])[3][])[1],address)", "((((((bool))))))", "(uint,(int,uint[2]))", "", " ", ",",
    ] {
        text_against(t, &mut ctx)?;
    }
    Ok(())
}

/// Array sizes beyond the small ones the generator draws.
pub const BIG_SIZES: &[usize] = &[
    10, 11, 16, 31, 32, 33, 64, 99, 100, 101, 127, 128, 200, 255, 256, 257, 300, 512, 999, 1000, 1023, 1024, 1025, 4096, 9999, 10000, 16777216,
    32767, 32768, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 12345678, 99999999, 100000000, 123456789, 999999999,
    2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 9999999999, 10000000000, 1000000000000, 9007199254740993, 9223372036854775807,
    9223372036854775808, 18446744073709551615,
];

fn c08_name(t: &Ty) -> Res {
    let mut ctx = Ctx::new(false);
    let n = name(t);
    let p = to_param(t);
    ensure!(p.to_string() == n, "{} prints as {:?}", clip(&n, 400), clip(&p.to_string(), 400));
    ensure!(ethabi::param_type::Writer::write(&p) == n, "Writer::write differs from {:?}", clip(&n, 400));
    text_against(&n, &mut ctx)
}

fn c08_extremes() -> Res {
    for ts in extremes() {
        for t in &ts {
            c08_name(t)?;
        }
        let mut ctx = Ctx::new(false);
        let n = names(&ts);
        text_against(&n, &mut ctx)?;
        // wrong in the deepest or last place
        for bad in [format!("({}", n), format!("{})", n), format!("({},)", n), format!("({}]", n), format!("({}", &n[..n.len() - 1])] {
            text_against(&bad, &mut ctx)?;
        }
        for (a, b) in [("uint256", "uint"), ("uint256", "uinz256"), ("string", "String"), ("string", ""), ("[]", "[[]"), ("[]", "]["), ("(", "(,"), (")", ",)")] {
            if n.contains(a) {
                text_against(&format!("({})", n.replacen(a, b, 1)), &mut ctx)?;
                if let Some(i) = n.rfind(a) {
                    text_against(&format!("({}{}{})", &n[..i], b, &n[i + a.len()..]), &mut ctx)?;
                }
            }
        }
    }
    for n in BIG_SIZES {
        let b = Box::new;
        for t in [Ty::Bool, Ty::Str, Ty::Uint(256), Ty::Tuple(vec![Ty::Bool, Ty::FixedArray(b(Ty::Bytes), *n)]), Ty::FixedArray(b(Ty::Int(8)), *n)] {
            c08_name(&Ty::FixedArray(b(t.clone()), *n))?;
            c08_name(&Ty::Tuple(vec![Ty::Array(b(Ty::FixedArray(b(t), *n))), Ty::Bool]))?;
        }
    }
    Ok(())
}

/// Names far too deep to be types: read without running out of stack, and quickly.
fn c08_too_deep() -> Res {
    for n in [61usize, 62, 64, 100, 128, 500, 1000, 5000, 20_000, 100_000] {
        for k in 0..8 {
            let t = match k {
                0 => format!("bool{}", "[]".repeat(n)),
                1 => format!("bool{}", "[1]".repeat(n)),
                2 => format!("{}bool{}", "(".repeat(n), ")".repeat(n)),
                3 => format!("x{}", "[]".repeat(n)),
                4 => format!("{}x{}", "(".repeat(n), ")".repeat(n)),
                5 => format!("{}bool{}", "(bool,".repeat(n), ")".repeat(n)),
                6 => format!("{}bool{}", "(".repeat(n), ")[]".repeat(n)),
                _ => format!("{}bool{}", "(".repeat(n), ",bool)[2]".repeat(n)),
            };
            let long = crate::runner::on_plain_stack(move || {
                let r = Reader::read(&t);
                match r {
                    Ok(g) => match Reader::read(&g.to_string()) {
                        Ok(h) if h == g && g.to_string() == t => None,
                        h => Some(format!("{} is read as one type, printed and read as another: {:?}", clip(&t, 300), h.is_ok())),
                    },
                    Err(_) => None,
                }
            });
            if let Some(m) = long {
                fail!("{}", m);
            }
        }
    }
    Ok(())
}

/// All strings up to length 5 over a small alphabet, and every width.
fn c08_exhaustive() -> Res {
    let mut ctx = Ctx::new(false);
    let al = ["(", ")", "[", "]", ",", "bool", "2", "int8"];
    for n in 0..=6usize {
        for i in 0..al.len().pow(n as u32) {
            let mut k = i;
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(al[k % al.len()]);
                k /= al.len();
            }
            text_against(&t, &mut ctx)?;
        }
    }
    // words that other languages or later versions use for types, and those of the sources
    let words = ["struct", "enum", "byte", "mapping", "contract", "function", "var", "fixed", "ufixed", "fixed128x18", "ufixed8x0", "float", "double", "char",
        "payable", "address payable", "addresspayable", "error", "event", "interface", "library", "bytes1", "word", "u256", "i256", "u8", "felt", "hash", "bigint", "boolean", "String", "str", "Uint", "uint_", "int_256", "uint256 ",
        " uint256", "uint256\n", "\tbool", "number", "integer", "unsigned", "signed", "static", "dynamic", "array", "list", "tuple2", "struct Foo", "tuple(bool)", "function(bool)", "bytes[", "bytesN", "uintN", "uint256[]?", "bool?", "bool|string"];
    for w in words.iter().copied().chain(crate::dict::dict().strs.iter().map(|s| s.as_str())) {
        for t in [w.to_string(), format!("{}[]", w), format!("({})", w), format!("{}[2]", w), format!("(bool,{})", w), format!("({},bool)[]", w)] {
            text_against(&t, &mut ctx)?;
        }
    }
    for i in 0..=300usize {
        for p in ["uint", "int", "bytes", "bool", "address", "string"] {
            text_against(&format!("{}{}", p, i), &mut ctx)?;
            text_against(&format!("({}{},bool[{}])[]", p, i, i), &mut ctx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

fn c06(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fname = gen_ident(s);
    let fname = cut(&fname);
    let ins = gen_params(s, TyCfg { depth: 4, cap: 24, tuples: true, dynamic: true }, 4, gen_ident);
    let mut outs = gen_params(s, JCFG, 2, gen_ident);
    if s.chance(8) {
        let i = s.below(outs.len() as u64 + 1) as usize;
        let t = Ty::Tuple(vec![]);
        let t = match s.below(4) {
            0 => Ty::Array(Box::new(t)),
            1 => Ty::Tuple(vec![t]),
            _ => t,
        };
        outs.insert(i, P { name: String::new(), ty: t, internal: None, indexed: false });
    }
    let tys: Vec<Ty> = ins.iter().map(|p| p.ty.clone()).collect();
    let otys: Vec<Ty> = outs.iter().map(|p| p.ty.clone()).collect();
    let e = Entry::Fun {
        name: fname.clone(),
        ins: ins.clone(),
        outs,
        constant: Some(s.bool()),
        mutability: Some(*s.pick(&MUTS)),
    };
    let via_json = s.bool();
    let f = if via_json {
        let y = Style { extras: false, alias: true, suffix_names: false };
        let j = entry_json(s, &e, &y);
        let t = plain(&J::Arr(vec![j]));
        let c = match ethabi::Contract::load(t.as_bytes()) {
            Ok(c) => c,
            Err(x) => fail!("{} is refused: {:?}", clip(&t, 800), x),
        };
        match c.function(&fname) {
            Ok(f) => f.clone(),
            Err(x) => fail!("function {:?} is missing after loading {}: {:?}", fname, clip(&t, 800), x),
        }
    } else {
        fun(&e).unwrap()
    };
    let sig = format!("{}({})", fname, names(&tys));
    ctx.ident(&(&sig, names(&otys)));
    ctx.nontrivial(!tys.is_empty());
    ctx.label_if(any_has(&tys, is_tuple), "tuple");
    ctx.label_if(!otys.is_empty(), "has outputs");
    ctx.label_if(via_json, "loaded from JSON");
    ctx.describe(|| format!("{} outputs ({})", sig, names(&otys)));
    let vs = gen_vals(s, &tys, 30);
    match f.encode_input(&to_tokens(&vs)) {
        Ok(d) => {
            let want = selector(&fname, &tys);
            ensure!(d.len() >= 4 && d[..4] == want, "selector of {} is {} instead of {}", sig, hex(&d[..d.len().min(4)]), hex(&want));
        }
        Err(x) => fail!("call of {} refused: {:?}", sig, x),
    }
    let want = if otys.is_empty() { sig.clone() } else { format!("{}:({})", sig, names(&otys)) };
    ensure!(f.signature() == want, "readable signature {:?} instead of {:?}", f.signature(), want);

    let mut evins = ins;
    gen_indexed(s, &mut evins);
    let ev = event(&Entry::Ev { name: fname.clone(), ins: evins, anonymous: s.bool() }).unwrap();
    let want = topic0(&fname, &tys);
    ensure!(ev.signature().0 == want, "topic of {} is {} instead of {}", sig, hex(&ev.signature().0), hex(&want));
    Ok(())
}

fn c06_known() -> Res {
    // published selectors and topics
    let u = || Ty::Uint(256);
    for (n, ts, h) in [
        ("transfer", vec![Ty::Address, u()], "a9059cbb"),
        ("balanceOf", vec![Ty::Address], "70a08231"),
        ("approve", vec![Ty::Address, u()], "095ea7b3"),
        ("safeTransferFrom", vec![Ty::Address, Ty::Address, u(), Ty::Bytes], "b88d4fde"),
        ("totalSupply", vec![], "18160ddd"),
    ] {
        ensure!(hex(&selector(n, &ts)) == h, "model selector of {}", n);
        let f = super::codec::function(n, &ts, &[Ty::Bool]);
        let vs = gen_vals(&mut Src::new(&[1, 2, 3]), &ts, 10);
        let d = f.encode_input(&to_tokens(&vs)).map_err(|e| crate::ctx::Failure::new(format!("{:?}", e)))?;
        ensure!(hex(&d[..4]) == h, "selector of {} is {}", n, hex(&d[..4]));
    }
    ensure!(
        hex(&topic0("Transfer", &[Ty::Address, Ty::Address, u()])) == "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef",
        "model topic of Transfer"
    );
    Ok(())
}

fn c06_one(ts: &[Ty]) -> Res {
    let b = |n: usize| "n".repeat(n);
    for (i, n) in ["f".to_string(), b(31), b(300)].iter().enumerate() {
        let mk = |ts: &[Ty]| ts.iter().map(|t| P { name: "a".into(), ty: t.clone(), internal: None, indexed: i == 1 }).collect::<Vec<_>>();
        let outs = if i == 0 { mk(ts) } else { vec![] };
        let f = fun(&Entry::Fun { name: n.clone(), ins: mk(ts), outs, constant: None, mutability: None }).unwrap();
        let sig = format!("{}({})", n, names(ts));
        let want = if i == 0 { format!("{}:({})", sig, names(ts)) } else { sig.clone() };
        ensure!(f.signature() == want, "readable signature {:?} instead of {:?}", clip(&f.signature(), 800), clip(&want, 800));
        let ev = event(&Entry::Ev { name: n.clone(), ins: mk(ts), anonymous: false }).unwrap();
        ensure!(ev.signature().0 == topic0(n, ts), "topic of {}", clip(&sig, 800));
    }
    Ok(())
}

/// Extreme widths and depths, and large array sizes, in signatures.
fn c06_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        c06_one(ts)?;
        let f = super::codec::function("g", ts, &[]);
        match f.encode_input(&to_tokens(&full_vals(ts, i as u64))) {
            Ok(d) => ensure!(d[..4] == selector("g", ts), "selector of g({})", clip(&names(ts), 800)),
            Err(e) => fail!("call of g({}) refused: {:?}", clip(&names(ts), 800), e),
        }
    }
    for n in BIG_SIZES {
        let t = Ty::FixedArray(Box::new(Ty::Tuple(vec![Ty::FixedArray(Box::new(Ty::Bool), *n), Ty::Str])), *n);
        c06_one(&[t.clone(), Ty::Array(Box::new(t))])?;
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C06",
        rule: "functions and events with generated names, parameter names, types (direct or loaded from JSON with int/uint aliases), outputs, mutability, indexed and anonymous flags; selector, topic and readable signature compared with an independent printer and Keccak-256. Non-trivial: at least one input. Distinct by signature and outputs.",
        quick: 3_600_000,
        thorough: 48_000_000,
        max_len: 900,
        check: c06,
        fixed: &[("published", c06_known), ("extremes", c06_extremes)],
        assumptions: &["tiny-keccak computes Keccak-256 (checked against published selectors)"],
    },
    Prop {
        id: "C08",
        rule: "generated types printed and parsed, names with int/uint aliases, names after 1-3 random edits, and strings of type fragments, compared with a reference recogniser (three-valued: widths Solidity lacks are refused or read as written; empty tuples, the bare word tuple, signs and leading zeros are left open); all strings of up to 6 symbols over an 8-symbol alphabet. Non-trivial: composite type, alias used, refused near miss, or non-empty fragment string. Distinct by text.",
        quick: 15_000_000,
        thorough: 200_000_000,
        max_len: 600,
        check: c08,
        fixed: &[("regressions", c08_regressions), ("exhaustive-small", c08_exhaustive), ("extremes", c08_extremes), ("too-deep", c08_too_deep)],
        assumptions: &["accepted text outside the recogniser's definite answers must still print to a name that parses to the same type"],
    },
];
