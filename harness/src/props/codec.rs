//! C01-C04, C07, C20, C21: encoder, decoder, type gate, printing, classification.

use super::mem::{put, word_positions};
use crate::ctx::{clip, hexclip, Ctx, Res};
use crate::json::{gen_ident, MUTS};
use crate::model::*;
use crate::runner::Prop;
use crate::src::{expand, Src};
use crate::{ensure, fail};
use ethabi::{Constructor, Function, Param, StateMutability, Token};

fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!(
        "lengths {} and {}, first difference at byte {} (word {}); expected {} got {}",
        a.len(),
        b.len(),
        i,
        i / 32,
        hexclip(&a[i / 32 * 32..a.len().min(i / 32 * 32 + 64)]),
        hexclip(&b[(i / 32 * 32).min(b.len())..b.len().min(i / 32 * 32 + 64)])
    )
}

fn gen_case(s: &mut Src) -> (Vec<Ty>, Vec<Val>) {
    let cfg = match s.weighted(&[6, 2, 1]) {
        0 => FULL,
        1 => SMALL,
        _ => TyCfg { depth: 10, cap: 60, tuples: true, dynamic: true },
    };
    let mut ts = gen_tys(s, cfg, 4);
    if s.weighted(&[9, 1]) == 1 {
        add_zeros(s, &mut ts);
    }
    let vs = gen_vals(s, &ts, 600);
    (ts, vs)
}

fn shape_labels(ctx: &mut Ctx, ts: &[Ty], len: usize) {
    ctx.label_if(ts.iter().any(dynamic), "dynamic");
    ctx.label_if(any_has(ts, is_tuple), "tuple");
    ctx.label_if(any_has(ts, |t| matches!(t, Ty::Tuple(_)) && dynamic(t)), "dynamic tuple");
    ctx.label_if(any_has(ts, |t| matches!(t, Ty::Tuple(_)) && !dynamic(t)), "static tuple");
    ctx.label_if(any_has(ts, |t| matches!(t, Ty::FixedArray(..)) && dynamic(t)), "fixed array of dynamic");
    ctx.label_if(any_has(ts, |t| matches!(t, Ty::Array(e) if matches!(**e, Ty::Tuple(_)))), "tuple array");
    ctx.label_if(any_has(ts, |t| matches!(t, Ty::Array(e) if matches!(**e, Ty::Array(_)))), "array of arrays");
    ctx.label_if(ts.iter().map(depth).max().unwrap_or(0) >= 4, "depth>=4");
    ctx.label_if(len > 8192, "encoding>8KiB");
    ctx.label_if(ts.len() > 4, "more than 4 values");
    ctx.label_if(any_has(ts, |t| static_words(t) == 0), "static types without content");
}

fn c01(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (ts, vs) = gen_case(s);
    let e = ref_encode(&ts, &vs);
    ctx.ident(&(names(&ts), &e.bytes));
    ctx.nontrivial(ts.iter().any(|t| dynamic(t) || depth(t) > 0));
    shape_labels(ctx, &ts, e.bytes.len());
    ctx.describe(|| format!("types=({}) values={}", names(&ts), show_vals(&vs)));
    let got = ethabi::encode(&to_tokens(&vs));
    if got != e.bytes {
        fail!("encode({}) differs from the specification: {}; values={}", names(&ts), diff(&e.bytes, &got), show_vals(&vs));
    }
    Ok(())
}

fn c02(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (ts, vs) = gen_case(s);
    ctx.nontrivial(ts.iter().any(|t| dynamic(t) || depth(t) > 0));
    ctx.describe(|| format!("types=({}) values={}", names(&ts), show_vals(&vs)));
    let toks = to_tokens(&vs);
    let bytes = ethabi::encode(&toks);
    ctx.ident(&(names(&ts), &bytes));
    shape_labels(ctx, &ts, bytes.len());
    match ethabi::decode(&to_params(&ts), &bytes) {
        Err(e) => fail!("decode({}) of encode(..) fails: {:?}; values={} data={}", names(&ts), e, show_vals(&vs), hexclip(&bytes)),
        Ok(got) => {
            if got != toks {
                fail!("decode({}) of encode(..) returns {} instead of {}", names(&ts), clip(&format!("{:?}", got), 600), show_vals(&vs));
            }
        }
    }
    Ok(())
}

/// Boundary sizes: byte sequences, strings and arrays around every power that matters.
const SIZES: &[usize] = &[
    0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 223, 224, 225, 255, 256, 257, 479, 480, 511, 512, 513, 1023,
    1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768, 65503, 65504, 65505, 65535, 65536,
    65537, 131071, 131072, 1048575, 1048576, 1048577,
];

fn sized(n: usize, kind: usize) -> (Vec<Ty>, Vec<Val>) {
    let b = expand(n as u64 + 7, n);
    let txt: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
    match kind {
        0 => (vec![Ty::Bytes], vec![Val::Bytes(b)]),
        1 => (vec![Ty::Str, Ty::Bool], vec![Val::Str(txt), Val::Bool(true)]),
        2 => (
            vec![Ty::Bool, Ty::Tuple(vec![Ty::Bytes, Ty::Str]), Ty::Str],
            vec![
                Val::Bool(true),
                Val::Tuple(vec![Val::Bytes(b), Val::Str("x".into())]),
                Val::Str("after".into()),
            ],
        ),
        _ => (
            vec![Ty::Array(Box::new(Ty::Str)), Ty::Bytes],
            vec![
                Val::Array(vec![Val::Str(txt), Val::Str("é".into())]),
                Val::Bytes(vec![7]),
            ],
        ),
    }
}

fn arrays(n: usize, kind: usize) -> (Vec<Ty>, Vec<Val>) {
    let w = |i: usize| {
        let mut w = [0u8; 32];
        w[28..].copy_from_slice(&(i as u32).to_be_bytes());
        w
    };
    match kind {
        0 => (
            vec![Ty::Array(Box::new(Ty::Uint(256))), Ty::Bytes],
            vec![Val::Array((0..n).map(|i| Val::Uint(w(i))).collect()), Val::Bytes(vec![1, 2])],
        ),
        1 => (
            vec![Ty::Array(Box::new(Ty::Str))],
            vec![Val::Array((0..n).map(|i| Val::Str(format!("{}", i))).collect())],
        ),
        2 => (
            vec![Ty::Array(Box::new(Ty::Tuple(vec![Ty::Bool, Ty::Bytes])))],
            vec![Val::Array(
                (0..n).map(|i| Val::Tuple(vec![Val::Bool(i % 2 == 0), Val::Bytes(vec![i as u8; i % 40])])).collect(),
            )],
        ),
        3 => (
            vec![Ty::FixedArray(Box::new(Ty::Bool), n.max(1)), Ty::Str],
            vec![Val::FixedArray((0..n.max(1)).map(|i| Val::Bool(i % 3 == 0)).collect()), Val::Str("t".into())],
        ),
        _ => (
            vec![Ty::Str, Ty::FixedArray(Box::new(Ty::Str), n.max(1))],
            vec![
                Val::Str("t".into()),
                Val::FixedArray((0..n.max(1)).map(|i| Val::Str(format!("{}", i))).collect()),
            ],
        ),
    }
}

fn enc_one(ts: &[Ty], vs: &[Val]) -> Res {
    let e = ref_encode(ts, vs);
    let got = ethabi::encode(&to_tokens(vs));
    ensure!(got == e.bytes, "encode({}) differs: {}", names(ts), diff(&e.bytes, &got));
    Ok(())
}
fn rt_one(ts: &[Ty], vs: &[Val]) -> Res {
    let toks = to_tokens(vs);
    let b = ethabi::encode(&toks);
    match ethabi::decode(&to_params(ts), &b) {
        Ok(t) if t == toks => Ok(()),
        Ok(t) => fail!("({}) round trip gives {}", names(ts), clip(&format!("{:?}", t), 300)),
        Err(e) => fail!("({}) round trip fails: {:?}", names(ts), e),
    }
}
fn over_sizes(f: fn(&[Ty], &[Val]) -> Res) -> Res {
    for n in crate::dict::with(SIZES, 0, 300_000) {
        for k in 0..4 {
            let (ts, vs) = sized(n, k);
            f(&ts, &vs)?;
        }
    }
    Ok(())
}
fn over_arrays(f: fn(&[Ty], &[Val]) -> Res) -> Res {
    let own = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1024, 2047, 2048, 2049, 4096];
    for n in crate::dict::with(&own, 0, 10_000) {
        for k in 0..5 {
            let (ts, vs) = arrays(n, k);
            f(&ts, &vs)?;
        }
    }
    for n in crate::dict::with(&[65535, 65536, 65537], 10_000, 100_000) {
        let (ts, vs) = arrays(n, 0);
        f(&ts, &vs)?;
    }
    Ok(())
}
fn over_huge(f: fn(&[Ty], &[Val]) -> Res) -> Res {
    for n in [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1] {
        let (ts, vs) = sized(n, 2);
        f(&ts, &vs)?;
    }
    Ok(())
}
fn c01_sizes() -> Res {
    over_sizes(enc_one)
}
fn c01_arrays() -> Res {
    over_arrays(enc_one)
}
fn c01_huge() -> Res {
    over_huge(enc_one)
}
fn c02_sizes() -> Res {
    over_sizes(rt_one)
}
fn c02_arrays() -> Res {
    over_arrays(rt_one)
}
fn c02_huge() -> Res {
    over_huge(rt_one)
}

/// Every leaf kind in every one- and two-level container, with every width.
fn widths(f: fn(&[Ty], &[Val]) -> Res) -> Res {
    let mut leaves = vec![Ty::Address, Ty::Bool, Ty::Bytes, Ty::Str];
    for i in 1..=32 {
        leaves.push(Ty::Int(8 * i));
        leaves.push(Ty::Uint(8 * i));
        leaves.push(Ty::FixedBytes(i));
    }
    for (i, l) in leaves.iter().enumerate() {
        let conts = [
            l.clone(),
            Ty::Array(Box::new(l.clone())),
            Ty::FixedArray(Box::new(l.clone()), 2),
            Ty::Tuple(vec![l.clone(), Ty::Bool]),
            Ty::Tuple(vec![Ty::Str, l.clone()]),
            Ty::Array(Box::new(Ty::Array(Box::new(l.clone())))),
            Ty::FixedArray(Box::new(Ty::Array(Box::new(l.clone()))), 2),
            Ty::Array(Box::new(Ty::FixedArray(Box::new(l.clone()), 3))),
            Ty::FixedArray(Box::new(Ty::FixedArray(Box::new(l.clone()), 3)), 2),
            Ty::Array(Box::new(Ty::Tuple(vec![l.clone()]))),
            Ty::FixedArray(Box::new(Ty::Tuple(vec![l.clone(), l.clone()])), 2),
            Ty::Tuple(vec![Ty::Tuple(vec![l.clone(), Ty::Uint(8)]), l.clone()]),
            Ty::Tuple(vec![Ty::Array(Box::new(l.clone())), Ty::FixedArray(Box::new(l.clone()), 2)]),
        ];
        for (j, c) in conts.iter().enumerate() {
            for k in 0..3u64 {
                let buf = expand((i * 1000 + j * 10) as u64 + k, 400);
                let mut s = Src::new(&buf);
                let ts = vec![Ty::Bool, c.clone(), Ty::Bytes, c.clone()];
                let vs = gen_vals(&mut s, &ts, 60);
                f(&ts, &vs)?;
            }
        }
    }
    Ok(())
}
fn extreme(f: fn(&[Ty], &[Val]) -> Res) -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        f(ts, &full_vals(ts, i as u64))?;
    }
    Ok(())
}
fn c01_extremes() -> Res {
    extreme(enc_one)
}
fn c02_extremes() -> Res {
    extreme(rt_one)
}
/// Encodings of extreme types with every word of the structure changed once, and cut.
fn c03_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let vs = full_vals(ts, i as u64);
        let e = ref_encode(ts, &vs);
        decode_against(ts, &e.bytes, &mut Ctx::new(false))?;
        let mut at = word_positions(&e, Role::Offset);
        at.extend(word_positions(&e, Role::Length));
        let step = 1 + at.len() / 12;
        for (k, p) in at.iter().step_by(step).enumerate() {
            let mut d = e.bytes.clone();
            let old = u64::from_be_bytes(d[p + 24..p + 32].try_into().unwrap());
            put(&mut d, *p, [old + 1, e.bytes.len() as u64, old + 32, 1 << 32, old.wrapping_sub(1), (1 << 32) - 1][k % 6]);
            decode_against(ts, &d, &mut Ctx::new(false))?;
        }
        for cut in [1usize, 31, 32, 33, 64] {
            if cut < e.bytes.len() {
                decode_against(ts, &e.bytes[..e.bytes.len() - cut], &mut Ctx::new(false))?;
            }
        }
    }
    Ok(())
}
fn c04_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let vs = full_vals(ts, i as u64);
        let e = ref_encode(ts, &vs);
        let p = to_params(ts);
        let toks = to_tokens(&vs);
        let end = e.content_end();
        for cut in [end - 1, end.saturating_sub(31), end.saturating_sub(32), end / 2, 31] {
            if cut < end {
                ensure!(ethabi::decode(&p, &e.bytes[..cut]).is_err(), "({}) cut from {} to {} bytes still decodes", clip(&names(ts), 400), end, cut);
            }
        }
        let mut d = e.bytes.clone();
        for (b, r) in d.iter_mut().zip(&e.roles) {
            if matches!(r, Role::Pad | Role::AddrPad) {
                *b = 0xa5;
            }
        }
        d.extend_from_slice(&[0xff; 45]);
        for (what, d) in [("with dirty padding and trailing bytes", &d[..]), ("cut after the last content byte", &e.bytes[..end])] {
            match ethabi::decode(&p, d) {
                Ok(g) if g == toks => {}
                g => fail!("({}) {}: {} instead of {}", clip(&names(ts), 400), what, clip(&format!("{:?}", g), 300), show_vals(&vs)),
            }
        }
    }
    Ok(())
}
/// Large values and small ones.
fn large() -> Vec<(Vec<Ty>, Vec<Val>)> {
    let mut out = vec![];
    for n in crate::dict::with(&[65_535, 65_537, 1_100_000], 300, 300_000) {
        for k in 0..4 {
            out.push(sized(n, k));
        }
    }
    for n in crate::dict::with(&[300, 5000, 40_000], 40, 20_000) {
        for k in 0..5 {
            out.push(arrays(n, k));
        }
    }
    out
}
fn c03_large() -> Res {
    for (ts, vs) in large() {
        let e = ref_encode(&ts, &vs);
        decode_against(&ts, &e.bytes, &mut Ctx::new(false))?;
        decode_against(&ts, &e.bytes[..e.bytes.len() - 32], &mut Ctx::new(false))?;
        let mut at = word_positions(&e, Role::Offset);
        at.extend(word_positions(&e, Role::Length));
        let step = 1 + at.len() / 5;
        for (k, p) in at.iter().rev().step_by(step).enumerate() {
            let mut d = e.bytes.clone();
            let old = u64::from_be_bytes(d[p + 24..p + 32].try_into().unwrap());
            put(&mut d, *p, [old + 1, e.bytes.len() as u64, e.bytes.len() as u64 - 31, old | 1 << 33, old.saturating_sub(1), 1 << 28][k % 6]);
            decode_against(&ts, &d, &mut Ctx::new(false))?;
        }
    }
    Ok(())
}
fn c04_large() -> Res {
    let mut all = large();
    for t in [
        Ty::Uint(256),
        Ty::Int(8),
        Ty::Address,
        Ty::Bool,
        Ty::FixedBytes(5),
        Ty::Str,
        Ty::Bytes,
        Ty::FixedArray(Box::new(Ty::Bool), 3),
        Ty::Array(Box::new(Ty::Uint(8))),
        Ty::Array(Box::new(Ty::Str)),
        Ty::Tuple(vec![Ty::Bool, Ty::Address]),
        Ty::Tuple(vec![Ty::Bool, Ty::Str]),
        Ty::FixedArray(Box::new(Ty::Str), 2),
    ] {
        all.push((vec![t.clone()], full_vals(&[t.clone()], 3)));
        all.push((vec![t.clone(), Ty::Uint(8), t.clone()], full_vals(&[t.clone(), Ty::Uint(8), t], 4)));
    }
    for (i, (ts, vs)) in all.iter().enumerate() {
        let e = ref_encode(ts, vs);
        let p = to_params(ts);
        let toks = to_tokens(vs);
        let end = e.content_end();
        for cut in [end - 1, end.saturating_sub(32), end / 2] {
            ensure!(ethabi::decode(&p, &e.bytes[..cut]).is_err(), "({}) cut from {} to {} bytes still decodes", names(ts), end, cut);
        }
        for n in crate::dict::with(&[1, 31, 32, 33, 64, 255, 256, 1024, 4096, 65_535, 65_536, 70_001, 1 << 20, 1_100_000, 17 << 20], 1, 2_000_000) {
            if n > 70_001 && i % 4 != 0 && ts.len() > 1 || n > 2_000_000 && e.bytes.len() > 2000 {
                continue;
            }
            for fill in [0u8, 0xff, 1] {
                if n > 70_001 && fill == 1 {
                    continue;
                }
                let mut d = e.bytes.clone();
                d.resize(d.len() + n, fill);
                match ethabi::decode(&p, &d) {
                    Ok(g) if g == toks => {}
                    g => fail!("({}) followed by {} bytes {:#04x}: {} instead of {}", names(ts), n, fill, clip(&format!("{:?}", g), 300), clip(&show_vals(vs), 300)),
                }
            }
        }
    }
    Ok(())
}
fn c07_large() -> Res {
    for (i, (ts, vs)) in large().into_iter().enumerate() {
        let toks = to_tokens(&vs);
        let e = ref_encode(&ts, &vs).bytes;
        let (f, g) = (function("f", &ts, &[Ty::Bool]), function("g", &[Ty::Bool], &ts));
        let mut want = selector("f", &ts).to_vec();
        want.extend_from_slice(&e);
        match f.encode_input(&toks) {
            Ok(d) => ensure!(d == want, "call data for ({}): {}", names(&ts), diff(&want, &d)),
            Err(x) => fail!("call of ({}) with {} bytes of arguments refused: {:?}", names(&ts), e.len(), x),
        }
        for (what, r) in [("decode_input", f.decode_input(&e)), ("decode_output", g.decode_output(&e))] {
            match r {
                Ok(t) => ensure!(t == toks, "{} of ({}) from {} bytes gives {}", what, names(&ts), e.len(), clip(&format!("{:?}", t), 300)),
                Err(x) => fail!("{} of ({}) refuses {} bytes: {:?}", what, names(&ts), e.len(), x),
            }
        }
        let code = expand(i as u64, [0usize, 1, 24_576, 49_152, 70_000, 1_100_000][i % 6]);
        let c = ethabi::Constructor { inputs: f.inputs.clone() };
        let mut want = code.clone();
        want.extend_from_slice(&e);
        match c.encode_input(code, &toks) {
            Ok(d) => ensure!(d == want, "constructor data for ({}): {}", names(&ts), diff(&want, &d)),
            Err(x) => fail!("constructor ({}) refused: {:?}", names(&ts), x),
        }
    }
    Ok(())
}
/// Long lists of arguments and deep ones: right, and wrong in one late or deep place.
fn c07_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let vs = full_vals(ts, i as u64);
        let f = function("f", ts, &[]);
        let mut want = selector("f", ts).to_vec();
        want.extend_from_slice(&ref_encode(ts, &vs).bytes);
        match f.encode_input(&to_tokens(&vs)) {
            Ok(d) => ensure!(d == want, "call data for ({}): {}", clip(&names(ts), 400), diff(&want, &d)),
            Err(e) => fail!("call of ({}) refused: {:?}", clip(&names(ts), 400), e),
        }
        let spoil = |v: &[Val]| -> Res {
            ensure!(!ts.iter().zip(v).all(|(t, v)| well_typed(t, v)) || ts.len() != v.len(), "model");
            ensure!(f.encode_input(&to_tokens(v)).is_err(), "call of ({}) accepted with {}", clip(&names(ts), 400), show_vals(v));
            Ok(())
        };
        for k in [0, ts.len() / 2, ts.len() - 1] {
            let mut v = vs.clone();
            v[k] = deepest_spoiled(&vs[k]);
            spoil(&v)?;
        }
        let mut v = vs.clone();
        v.pop();
        spoil(&v)?;
        let mut v = vs.clone();
        v.push(vs[0].clone());
        spoil(&v)?;
    }
    Ok(())
}
/// Another kind of value in the deepest, last place.
fn deepest_spoiled(v: &Val) -> Val {
    let last = |x: &[Val]| {
        let mut y = x.to_vec();
        let k = (0..y.len()).max_by_key(|k| vdepth(&y[*k])).unwrap();
        y[k] = deepest_spoiled(&y[k]);
        y
    };
    match v {
        Val::Array(x) if !x.is_empty() => Val::Array(last(x)),
        Val::FixedArray(x) if !x.is_empty() => Val::FixedArray(last(x)),
        Val::Tuple(x) if !x.is_empty() => Val::Tuple(last(x)),
        Val::Uint(w) => Val::Int(*w),
        Val::Str(x) => Val::Bytes(x.clone().into_bytes()),
        _ => Val::Uint([0; 32]),
    }
}
fn vdepth(v: &Val) -> usize {
    match v {
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => 1 + x.iter().map(vdepth).max().unwrap_or(0),
        _ => 0,
    }
}
fn c20_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        for (t, v) in ts.iter().zip(full_vals(ts, i as u64)) {
            let want = shown(&v);
            let got = to_token(&v).to_string();
            ensure!(got == want, "display of {} value is {:?}, expected {:?}", clip(&name(t), 300), clip(&got, 500), clip(&want, 500));
            let got = to_param(t).to_string();
            ensure!(got == name(t), "display of the type is {:?}, expected {:?}", clip(&got, 500), clip(&name(t), 500));
            if depth(t) < 12 {
                extract(&v)?;
            }
        }
    }
    for n in crate::dict::with(SIZES, 0, 300_000).into_iter().filter(|n| *n <= 300_000) {
        for k in 0..4 {
            let (_, vs) = sized(n, k);
            for v in vs {
                let got = to_token(&v).to_string();
                ensure!(got == shown(&v), "display of a value of {} bytes differs", n);
                extract(&v)?;
            }
        }
    }
    for n in crate::dict::with(&[0, 1, 2, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 1024, 1025, 4096], 0, 20_000) {
        for k in 0..5 {
            let (_, vs) = arrays(n, k);
            for v in vs {
                let got = to_token(&v).to_string();
                ensure!(got == shown(&v), "display of an array of {} elements is {:?}", n, clip(&got, 500));
            }
        }
    }
    Ok(())
}
fn c21_extremes() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        for (t, v) in ts.iter().zip(full_vals(ts, i as u64)) {
            let p = to_param(t);
            ensure!(p.is_dynamic() == dynamic(t), "{} classified as dynamic={}", clip(&name(t), 300), p.is_dynamic());
            ensure!(!p.is_empty_bytes_valid_encoding(), "{}: empty bytes valid", clip(&name(t), 300));
            class(t, &v)?;
        }
    }
    Ok(())
}

fn c01_widths() -> Res {
    widths(enc_one)
}
fn c02_widths() -> Res {
    widths(rt_one)
}

// ---------------------------------------------------------------- C03

const CAP: u64 = 60_000;

fn odd_number(s: &mut Src, len: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    let n: u64 = match s.weighted(&[8, 8, 6, 4, 4, 1]) {
        5 => s.dict_num() as u64,
        0 => 32 * s.below(8),
        1 => {
            let d = *s.pick(&[0i64, 32, 31, 33, 1, -1, -31, -32, -33, 64, -64]);
            (len as i64 - d).max(0) as u64
        }
        2 => s.below(len.max(1) + 64),
        3 => *s.pick(&[
            1u64 << 31,
            (1 << 32) - 1,
            (1 << 32) - 32,
            (1 << 32) - 33,
            1 << 32,
            (1 << 32) + 32,
            u64::MAX,
            u64::MAX - 31,
            1 << 63,
            i64::MAX as u64,
            65536,
            65535,
            1 << 24,
            (1 << 33) + 32,
        ]),
        _ => {
            // small low part, something set above the 32-bit limit
            let i = s.below(28) as usize;
            w[i] = 1 << s.below(8);
            32 * s.below(4)
        }
    };
    let b = n.to_be_bytes();
    for i in 0..8 {
        w[24 + i] |= b[i];
    }
    w
}

/// Arbitrary bytes, biased towards data that decodes almost all the way.
fn gen_data(s: &mut Src, ts: &[Ty], ctx: &mut Ctx) -> Vec<u8> {
    let mode = s.weighted(&[10, 2, 3, 1, 4]);
    match mode {
        4 => {
            ctx.label("other layout");
            let vs = gen_vals(s, ts, 60);
            let mut d = loose_encode(s, ts, &vs);
            match s.weighted(&[4, 1, 1, 1]) {
                1 => {
                    let n = d.len() - s.below((d.len() as u64).min(40) + 1) as usize;
                    d.truncate(n);
                }
                2 => {
                    let n = s.below(70) as usize;
                    let c = s.content(n);
                    d.extend_from_slice(&c);
                }
                3 if !d.is_empty() => {
                    let i = s.below(d.len() as u64) as usize;
                    d[i] ^= 1 << s.below(8);
                }
                _ => {}
            }
            d
        }
        0 => {
            let vs = gen_vals(s, ts, 120);
            let e = ref_encode(ts, &vs);
            let mut d = e.bytes.clone();
            let offs = word_positions(&e, Role::Offset);
            let lens = word_positions(&e, Role::Length);
            let steps = s.below(4);
            for _ in 0..steps {
                match s.weighted(&[5, 5, 2, 2, 2, 1]) {
                    0 if !offs.is_empty() => {
                        let at = *s.pick(&offs);
                        let w = odd_number(s, d.len() as u64);
                        if at + 32 <= d.len() {
                            d[at..at + 32].copy_from_slice(&w);
                            ctx.label("offset word changed");
                        }
                    }
                    1 if !lens.is_empty() => {
                        let at = *s.pick(&lens);
                        let w = if s.bool() { odd_number(s, d.len() as u64) } else { small_change(s, &d, at) };
                        if at + 32 <= d.len() {
                            d[at..at + 32].copy_from_slice(&w);
                            ctx.label("length word changed");
                        }
                    }
                    2 => {
                        let n = s.below(d.len() as u64 + 1) as usize;
                        d.truncate(n);
                        ctx.label("truncated");
                    }
                    3 => {
                        let n = s.below(70) as usize;
                        let c = s.content(n);
                        d.extend_from_slice(&c);
                        ctx.label("extended");
                    }
                    4 if !d.is_empty() => {
                        let i = s.below(d.len() as u64) as usize;
                        d[i] ^= 1 << s.below(8);
                        ctx.label("bit flipped");
                    }
                    _ if d.len() >= 32 => {
                        let i = s.below((d.len() / 32) as u64) as usize;
                        let w = odd_number(s, d.len() as u64);
                        d[32 * i..32 * i + 32].copy_from_slice(&w);
                        ctx.label("word replaced");
                    }
                    _ => {}
                }
            }
            ctx.label_if(steps == 0, "unmodified encoding");
            d
        }
        1 => {
            let n = s.below(200) as usize;
            ctx.label("random bytes");
            s.content(n)
        }
        2 => {
            let n = s.below(24);
            let mut d = vec![];
            for _ in 0..n {
                let w = odd_number(s, 32 * n);
                d.extend_from_slice(&w);
            }
            let cut = s.weighted(&[4, 1]);
            if cut == 1 {
                let k = s.below(d.len() as u64 + 1) as usize;
                d.truncate(k);
            }
            ctx.label("word soup");
            d
        }
        _ => {
            ctx.label("empty data");
            vec![]
        }
    }
}

fn small_change(s: &mut Src, d: &[u8], at: usize) -> [u8; 32] {
    let mut w = [0u8; 32];
    if at + 32 <= d.len() {
        w.copy_from_slice(&d[at..at + 32]);
    }
    let n = u64::from_be_bytes(w[24..].try_into().unwrap());
    let dlt = *s.pick(&[1i64, -1, 2, 31, 32, 33, -2, 64]);
    let m = (n as i64).wrapping_add(dlt).max(0) as u64;
    w[24..].copy_from_slice(&m.to_be_bytes());
    w
}

fn c03(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = match s.weighted(&[4, 2]) {
        0 => TyCfg { depth: 4, cap: 24, tuples: true, dynamic: true },
        _ => FULL,
    };
    let mut ts = gen_tys(s, cfg, 3);
    if s.weighted(&[11, 1]) == 1 {
        add_zeros(s, &mut ts);
    }
    let data = gen_data(s, &ts, ctx);
    decode_against(&ts, &data, ctx)
}

pub fn decode_against(ts: &[Ty], data: &[u8], ctx: &mut Ctx) -> Res {
    ctx.ident(&(names(ts), data));
    ctx.describe(|| format!("types=({}) data={}", names(ts), hexclip(data)));
    let mut d = Decoder::new(data, CAP);
    let exp = d.run(ts);
    if exp == Err(DecErr::TooMuch) {
        ctx.skipped = true;
        return Ok(());
    }
    ctx.nontrivial(!ts.is_empty() && !data.is_empty());
    ctx.label_if(exp.is_ok() && ts.iter().any(dynamic), "accepted with dynamic types");
    ctx.label_if(exp.is_err() && d.furthest > 32, "refused after the first word");
    let got = ethabi::decode(&to_params(ts), data);
    match (exp, got) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(_)) if d.anybool => Ok(()),
        (Ok(e), Ok(g)) => {
            let g = from_tokens(&g);
            if !matches_all(&e, &g) {
                fail!("decode({}) returns {} but the data encodes {}; data={}", names(ts), show_vals(&g), show_vals(&e), hexclip(data));
            }
            Ok(())
        }
        (Ok(e), Err(x)) => {
            fail!("decode({}) refuses ({:?}) data that encodes {}; data={}", names(ts), x, show_vals(&e), hexclip(data))
        }
        (Err(_), Ok(g)) => {
            fail!("decode({}) accepts data that is no encoding, returning {}; data={}", names(ts), clip(&format!("{:?}", g), 500), hexclip(data))
        }
    }
}

fn c03_fixed_array_offset() -> Res {
    // dynamic fixed array whose offset lies beyond the data
    for off in [32u64, 33, 64, 1 << 16, (1 << 32) - 1, 1 << 32, u64::MAX] {
        for t in [
            Ty::FixedArray(Box::new(Ty::Str), 1),
            Ty::FixedArray(Box::new(Ty::Array(Box::new(Ty::Bool))), 2),
            Ty::Tuple(vec![Ty::Str]),
            Ty::Array(Box::new(Ty::FixedArray(Box::new(Ty::Bytes), 1))),
            Ty::Str,
            Ty::Array(Box::new(Ty::Bool)),
        ] {
            let mut d = vec![0u8; 32];
            put(&mut d, 0, off);
            decode_against(&[t], &d, &mut Ctx::new(false))?;
        }
    }
    Ok(())
}

/// Bounded-exhaustive: all word sequences over a small alphabet for small types.
fn c03_small_words() -> Res {
    let types = [
        vec![Ty::Bytes],
        vec![Ty::Array(Box::new(Ty::Bool))],
        vec![Ty::FixedArray(Box::new(Ty::Bytes), 1)],
        vec![Ty::Tuple(vec![Ty::Bool, Ty::Str])],
        vec![Ty::Array(Box::new(Ty::Array(Box::new(Ty::Uint(8)))))],
        vec![Ty::Array(Box::new(Ty::Tuple(vec![Ty::Bytes])))],
        vec![Ty::Bool, Ty::FixedArray(Box::new(Ty::Array(Box::new(Ty::Bool))), 2)],
    ];
    let alpha = [0u64, 1, 2, 32, 64, 33, 96, 128, (1 << 32) - 1, 1 << 32];
    for ts in &types {
        for n in 1..=4usize {
            let total = alpha.len().pow(n as u32);
            for i in 0..total {
                let mut k = i;
                let mut d = vec![0u8; 32 * n];
                for j in 0..n {
                    put(&mut d, 32 * j, alpha[k % alpha.len()]);
                    k /= alpha.len();
                }
                decode_against(ts, &d, &mut Ctx::new(false))?;
                if i % 7 == 0 {
                    d.truncate(32 * n - 31);
                    decode_against(ts, &d, &mut Ctx::new(false))?;
                }
            }
        }
    }
    Ok(())
}

fn c03_bool_words() -> Res {
    for i in 0..32usize {
        for b in [1u8, 2, 0x80, 0xff] {
            let mut d = vec![0u8; 32];
            d[i] = b;
            decode_against(&[Ty::Bool], &d, &mut Ctx::new(false))?;
            d[31] |= 1;
            decode_against(&[Ty::Bool], &d, &mut Ctx::new(false))?;
        }
    }
    for n in 0..32 {
        decode_against(&[Ty::Bool], &vec![0u8; n], &mut Ctx::new(false))?;
        for k in 1..=32 {
            decode_against(&[Ty::FixedBytes(k)], &vec![7u8; n], &mut Ctx::new(false))?;
        }
    }
    // every single bit of an offset word and of a length word
    for bit in 0..256usize {
        for at in [0usize, 32] {
            for t in [Ty::Str, Ty::Array(Box::new(Ty::Bool)), Ty::Tuple(vec![Ty::Bytes]), Ty::FixedArray(Box::new(Ty::Str), 1)] {
                let mut d = vec![0u8; 160];
                d[31] = 32;
                d[63] = if matches!(t, Ty::Str | Ty::Array(_)) { 1 } else { 32 };
                d[at + 31 - bit / 8] ^= 1 << (bit % 8);
                decode_against(&[t], &d, &mut Ctx::new(false))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = TyCfg { depth: 4, cap: 24, tuples: true, dynamic: true };
    let mut ts = gen_tys(s, cfg, 4);
    if ts.is_empty() {
        ts.push(gen_leaf(s, true));
    }
    if s.weighted(&[11, 1]) == 1 {
        add_zeros(s, &mut ts);
    }
    let vs = gen_vals(s, &ts, 60);
    let e = ref_encode(&ts, &vs);
    let params = to_params(&ts);
    let toks = to_tokens(&vs);
    ctx.ident(&(names(&ts), &e.bytes));
    ctx.describe(|| format!("types=({}) values={}", names(&ts), show_vals(&vs)));
    let end = e.content_end();
    ctx.nontrivial(end > 32);
    ctx.label_if(end < e.bytes.len(), "ends in padding");
    ctx.label_if(e.roles.contains(&Role::Pad), "has padding");
    ctx.label_if(e.roles.contains(&Role::AddrPad), "has address");
    // truncation
    let mut cuts: Vec<usize> = vec![];
    if end <= 500 {
        cuts.extend(0..end);
    } else {
        cuts.extend((0..end).step_by(32));
        cuts.extend(end.saturating_sub(40)..end);
        for _ in 0..40 {
            cuts.push(s.below(end as u64) as usize);
        }
    }
    for c in cuts {
        if let Ok(g) = ethabi::decode(&params, &e.bytes[..c]) {
            fail!("({}) cut from {} to {} bytes still decodes, to {} (values {})", names(&ts), e.bytes.len(), c, clip(&format!("{:?}", g), 400), show_vals(&vs));
        }
    }
    let same = |d: &[u8], what: &str| -> Res {
        match ethabi::decode(&params, d) {
            Ok(g) if g == toks => Ok(()),
            Ok(g) => fail!("({}) {}: decodes to {} instead of {}", names(&ts), what, clip(&format!("{:?}", g), 400), show_vals(&vs)),
            Err(x) => fail!("({}) {}: refused ({:?}); values {} data {}", names(&ts), what, x, show_vals(&vs), hexclip(d)),
        }
    };
    for c in end..=e.bytes.len() {
        same(&e.bytes[..c], "cut inside the final padding")?;
    }
    // trailing bytes
    let n = 1 + s.below(100) as usize;
    let mut d = e.bytes.clone();
    d.extend_from_slice(&s.content(n));
    same(&d, "with trailing bytes")?;
    // padding
    let mut d = e.bytes.clone();
    let fill = match s.weighted(&[2, 2]) {
        0 => vec![0xff; d.len()],
        _ => {
            let k = s.uint(2);
            expand(k, d.len())
        }
    };
    for i in 0..d.len() {
        if matches!(e.roles[i], Role::Pad | Role::AddrPad) {
            d[i] = fill[i];
        }
    }
    same(&d, "with dirty padding")?;
    Ok(())
}

// ---------------------------------------------------------------- C07

#[allow(deprecated)]
pub fn function(name: &str, ins: &[Ty], outs: &[Ty]) -> Function {
    Function {
        name: name.to_string(),
        inputs: params(ins, "a"),
        outputs: params(outs, ""),
        constant: false,
        state_mutability: StateMutability::NonPayable,
    }
}
pub fn params(ts: &[Ty], n: &str) -> Vec<Param> {
    ts.iter()
        .enumerate()
        .map(|(i, t)| Param { name: if n.is_empty() { String::new() } else { format!("{}{}", n, i) }, kind: to_param(t), internal_type: None })
        .collect()
}

/// Break (or keep) one position of a value.
pub fn mutate(s: &mut Src, v: &Val, ctx: &mut Ctx) -> Val {
    // descend with some probability
    match v {
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) if !x.is_empty() && s.chance(170) => {
            let i = s.below(x.len() as u64) as usize;
            let mut y = x.clone();
            y[i] = mutate(s, &x[i], ctx);
            return match v {
                Val::Array(_) => Val::Array(y),
                Val::FixedArray(_) => Val::FixedArray(y),
                _ => Val::Tuple(y),
            };
        }
        _ => {}
    }
    match v {
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => {
            let mut y = x.clone();
            match s.weighted(&[3, 3, 2, 2, 2]) {
                0 => {
                    if y.len() > 0 {
                        let i = s.below(y.len() as u64) as usize;
                        y.remove(i);
                        ctx.label("element removed");
                    }
                }
                1 => {
                    let e = if y.is_empty() { Val::Bool(false) } else { y[s.below(y.len() as u64) as usize].clone() };
                    y.push(e);
                    ctx.label("element added");
                }
                2 => {
                    ctx.label("container kind changed");
                    return match s.below(3) {
                        0 => Val::Array(y),
                        1 => Val::FixedArray(y),
                        _ => Val::Tuple(y),
                    };
                }
                3 => {
                    y.clear();
                    ctx.label("emptied");
                }
                _ => {
                    if y.len() > 1 {
                        let i = s.below(y.len() as u64 - 1) as usize;
                        y.swap(i, i + 1);
                        ctx.label("elements swapped");
                    }
                }
            }
            match v {
                Val::Array(_) => Val::Array(y),
                Val::FixedArray(_) => Val::FixedArray(y),
                _ => Val::Tuple(y),
            }
        }
        Val::FixedBytes(b) if s.bool() => {
            let mut b = b.clone();
            match s.weighted(&[2, 2, 2, 1, 2, 1]) {
                0 => {
                    b.pop();
                }
                1 => b.push(1),
                2 => b.clear(),
                4 => {
                    // padded with zeros, in front or behind
                    let n = match s.below(3) {
                        0 => 1,
                        1 => (32 - b.len().min(31) as u64) as usize,
                        _ => s.range(1, 40) as usize,
                    };
                    let at = if s.bool() { b.len() } else { 0 };
                    b.splice(at..at, vec![0; n]);
                    ctx.label("padded with zeros");
                }
                5 => {
                    let c = b.clone();
                    b.extend(c);
                }
                _ => {
                    let n = s.below(33) as usize;
                    b = s.content(n)
                }
            }
            ctx.label("byte count changed");
            Val::FixedBytes(b)
        }
        Val::Int(w) if s.bool() => Val::Uint(*w),
        Val::Uint(w) if s.bool() => Val::Int(*w),
        Val::Bytes(b) if s.bool() => Val::FixedBytes(b.clone()),
        Val::Str(b) if s.bool() => Val::Bytes(b.clone().into_bytes()),
        _ => {
            ctx.label("other kind");
            match s.below(10) {
                0 => Val::Bool(true),
                1 => Val::Address([1; 20]),
                2 => Val::Uint([0; 32]),
                3 => Val::Int([0; 32]),
                4 => Val::Bytes(vec![1]),
                5 => Val::FixedBytes(vec![1]),
                6 => Val::Str("x".into()),
                7 => Val::Array(vec![v.clone()]),
                8 => Val::FixedArray(vec![v.clone()]),
                _ => Val::Tuple(vec![v.clone()]),
            }
        }
    }
}

fn c07(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = TyCfg { depth: 4, cap: 24, tuples: true, dynamic: true };
    let mut ins = gen_tys(s, cfg, 4);
    if s.weighted(&[11, 1]) == 1 {
        add_zeros(s, &mut ins);
    }
    let outs = if s.chance(100) { gen_tys(s, cfg, 3) } else { vec![] };
    let mut args = gen_vals(s, &ins, 60);
    let muts = s.weighted(&[3, 5, 1]);
    for _ in 0..muts {
        match s.weighted(&[8, 1, 1, 1]) {
            0 if !args.is_empty() => {
                let i = s.below(args.len() as u64) as usize;
                args[i] = mutate(s, &args[i].clone(), ctx);
            }
            1 if !args.is_empty() => {
                let i = s.below(args.len() as u64) as usize;
                args.remove(i);
                ctx.label("argument removed");
            }
            2 if args.len() > 1 => {
                let i = s.below(args.len() as u64 - 1) as usize;
                args.swap(i, i + 1);
                ctx.label("arguments swapped");
            }
            _ => {
                args.push(Val::Bool(true));
                ctx.label("argument added");
            }
        }
    }
    let ok = ins.len() == args.len() && ins.iter().zip(&args).all(|(t, v)| well_typed(t, v));
    ctx.nontrivial(!ins.is_empty());
    ctx.label(if ok { "accepted" } else { "refused" });
    let toks = to_tokens(&args);
    ctx.ident(&(names(&ins), names(&outs), format!("{:?}", args)));
    ctx.describe(|| format!("inputs=({}) args={}", names(&ins), show_vals(&args)));
    let mut f = function("f", &ins, &outs);
    if s.chance(50) {
        // nothing but the types matters
        f.name = gen_ident(s);
        let own = f.name.clone();
        for p in f.inputs.iter_mut().chain(f.outputs.iter_mut()) {
            p.name = match s.below(4) {
                0 => own.clone(),
                1 => gen_ident(s),
                2 => "a".into(),
                _ => String::new(),
            };
            if s.chance(60) {
                p.internal_type = Some(if s.bool() { gen_ident(s) } else { p.kind.to_string() });
            }
        }
        f.state_mutability = *s.pick(&MUTS);
        #[allow(deprecated)]
        {
            f.constant = s.bool();
        }
    }
    let pts = to_params(&ins);
    ensure!(
        Token::types_check(&toks, &pts) == ok,
        "types_check({}) is {} for {}",
        names(&ins),
        !ok,
        show_vals(&args)
    );
    let ctor = Constructor { inputs: params(&ins, "") };
    let n = s.below(80) as usize;
    let code = s.content(n);
    let r = f.encode_input(&toks);
    let rc = ctor.encode_input(code.clone(), &toks);
    match (&r, &rc, ok) {
        (Err(_), Err(_), false) => {}
        (Ok(d), Ok(c), true) => {
            let e = ref_encode(&ins, &args).bytes;
            let mut x = selector(&f.name, &ins).to_vec();
            x.extend_from_slice(&e);
            ensure!(*d == x, "call data for ({}): {}; args {}", names(&ins), diff(&x, d), show_vals(&args));
            let mut x = code.clone();
            x.extend_from_slice(&e);
            ensure!(*c == x, "constructor data for ({}): {}; args {}", names(&ins), diff(&x, c), show_vals(&args));
        }
        _ => fail!(
            "({}): expected {} but function gives {} and constructor {} for {}",
            names(&ins),
            if ok { "acceptance" } else { "refusal" },
            if r.is_ok() { "data" } else { "error" },
            if rc.is_ok() { "data" } else { "error" },
            show_vals(&args)
        ),
    }
    // input and output decoding use the declared lists
    let vi = gen_vals(s, &ins, 30);
    let vo = gen_vals(s, &outs, 30);
    for (what, ts, vs) in [("decode_input", &ins, &vi), ("decode_output", &outs, &vo)] {
        let d = ref_encode(ts, vs).bytes;
        let dec = |d: &[u8]| if what == "decode_input" { f.decode_input(d) } else { f.decode_output(d) };
        if s.chance(60) {
            // any data is decoded by those types alone
            let mut x = match s.below(4) {
                0 => loose_encode(s, ts, vs),
                _ => d.clone(),
            };
            match s.below(6) {
                0 => {
                    let sel = selector(&f.name, &ins);
                    x.splice(..0, sel);
                }
                1 => {
                    let n = *s.pick(&[4usize, 1, 32, 36, 64, 31]);
                    let c = s.content(n);
                    x.splice(..0, c);
                }
                2 => {
                    let n = *s.pick(&[4usize, 1, 32, 36, 64, 31]);
                    let c = s.content(n);
                    x.extend(c);
                }
                3 if !x.is_empty() => {
                    let n = s.below(x.len() as u64) as usize;
                    x.truncate(n);
                }
                4 if x.len() >= 4 => {
                    x.drain(..4);
                }
                _ => {}
            }
            let mut m = Decoder::new(&x, CAP);
            match (m.run(ts), dec(&x)) {
                (Err(DecErr::TooMuch), _) | (Err(_), Err(_)) => {}
                (Ok(_), Err(_)) if m.anybool => {}
                (Ok(e), Ok(g)) if matches_all(&e, &from_tokens(&g)) => {}
                (e, g) => fail!(
                    "{} with inputs ({}) outputs ({}) gives {} for {}, which holds {}",
                    what,
                    names(&ins),
                    names(&outs),
                    clip(&format!("{:?}", g), 400),
                    hexclip(&x),
                    e.map_or("no values".to_string(), |e| show_vals(&e))
                ),
            }
        }
        match dec(&d) {
            Ok(g) if g == to_tokens(vs) => {}
            g => fail!("{} with inputs ({}) outputs ({}) gives {} for the encoding of {}", what, names(&ins), names(&outs), clip(&format!("{:?}", g), 400), show_vals(vs)),
        }
    }
    Ok(())
}

fn c07_tuple_arity() -> Res {
    let t = Ty::Tuple(vec![Ty::Bool, Ty::Uint(256)]);
    let f = function("f", &[t.clone()], &[]);
    let u = Val::Uint([0; 32]);
    for (v, ok) in [
        (Val::Tuple(vec![]), false),
        (Val::Tuple(vec![Val::Bool(true)]), false),
        (Val::Tuple(vec![Val::Bool(true), u.clone()]), true),
        (Val::Tuple(vec![Val::Bool(true), u.clone(), u.clone()]), false),
    ] {
        let r = f.encode_input(&[to_token(&v)]);
        ensure!(r.is_ok() == ok, "tuple {:?} for (bool,uint256): {:?}", v, r.is_ok());
    }
    for n in 0..=33usize {
        for k in 1..=32usize {
            let f = function("f", &[Ty::FixedBytes(k), Ty::Bool], &[]);
            let v = [Val::FixedBytes(vec![9; n]), Val::Bool(true)];
            let r = f.encode_input(&to_tokens(&v));
            let ok = n > 0 && n <= k;
            ensure!(r.is_ok() == ok, "{} bytes for bytes{}: accepted={}", n, k, r.is_ok());
            if let Ok(d) = r {
                ensure!(d.len() == 68 && d[4..4 + n].iter().all(|b| *b == 9) && d[4 + n..36].iter().all(|b| *b == 0), "bytes{} encoding of {} bytes: {}", k, n, hexclip(&d));
            }
        }
    }
    Ok(())
}

/// Every kind of value offered to every kind of type, alone and inside the containers.
fn c07_matrix() -> Res {
    let b = |t: &Ty| Box::new(t.clone());
    let leaf = [
        Ty::Address, Ty::Bool, Ty::Int(8), Ty::Int(256), Ty::Uint(8), Ty::Uint(160), Ty::Uint(256), Ty::FixedBytes(1), Ty::FixedBytes(4),
        Ty::FixedBytes(20), Ty::FixedBytes(31), Ty::FixedBytes(32), Ty::Bytes, Ty::Str,
    ];
    let mut tys = leaf.to_vec();
    for t in &leaf {
        tys.extend([Ty::Array(b(t)), Ty::FixedArray(b(t), 1), Ty::FixedArray(b(t), 2), Ty::FixedArray(b(t), 20), Ty::Tuple(vec![t.clone()]), Ty::Tuple(vec![t.clone(), t.clone()])]);
    }
    let mut vals = vec![];
    for n in (0..=34usize).chain([40, 63, 64, 65, 66]) {
        vals.push(Val::Bytes(vec![0x31; n]));
        vals.push(Val::Str("1".repeat(n)));
        vals.push(Val::FixedBytes(vec![0x31; n]));
    }
    for x in [0u8, 1, 0x7f, 0x80, 0xff] {
        for one in [false, true] {
            let mut w = [if one { 0 } else { x }; 32];
            w[31] = x;
            vals.push(Val::Uint(w));
            vals.push(Val::Int(w));
        }
        vals.push(Val::Address([x; 20]));
    }
    vals.extend([Val::Bool(false), Val::Bool(true), Val::Str("true".into()), Val::Str("é".into())]);
    let simple: Vec<Val> = leaf.iter().map(|t| full_val(t, 5)).chain([Val::FixedBytes(vec![1; 20]), Val::Bytes(vec![1; 20])]).collect();
    for v in &simple {
        for n in [0usize, 1, 2, 3, 20] {
            vals.extend([Val::Array(vec![v.clone(); n]), Val::FixedArray(vec![v.clone(); n]), Val::Tuple(vec![v.clone(); n])]);
        }
    }
    let vals: Vec<(Val, Token)> = vals.into_iter().map(|v| (v.clone(), to_token(&v))).collect();
    for t in &tys {
        let p = to_param(t);
        let wrapped = [Ty::Array(b(t)), Ty::FixedArray(b(t), 2), Ty::Tuple(vec![Ty::Bool, t.clone(), Ty::Str])];
        let fs: Vec<_> = [t.clone()].iter().chain(&wrapped).map(|t| function("f", &[t.clone()], &[])).collect();
        let good = full_val(t, 9);
        for (v, k) in &vals {
            let ok = well_typed(t, v);
            ensure!(Token::types_check(&[k.clone()], &[p.clone()]) == ok, "types_check of {} for {} is {}", show_vals(&[v.clone()]), name(t), !ok);
            let g = to_token(&good);
            let toks = [
                k.clone(),
                Token::Array(vec![g.clone(), k.clone()]),
                Token::FixedArray(vec![g, k.clone()]),
                Token::Tuple(vec![Token::Bool(true), k.clone(), Token::String("x".into())]),
            ];
            for (f, k) in fs.iter().zip(toks) {
                let got = f.encode_input(&[k]).is_ok();
                ensure!(got == ok, "{} {} for {}", if got { "accepted:" } else { "refused:" }, show_vals(&[v.clone()]), f.inputs[0].kind);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20, C21

pub fn show(v: &Val, out: &mut String) {
    match v {
        Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Val::Str(s) => out.push_str(s),
        Val::Address(a) => out.push_str(&crate::ctx::hex(a)),
        Val::Bytes(b) | Val::FixedBytes(b) => out.push_str(&crate::ctx::hex(b)),
        Val::Int(w) | Val::Uint(w) => {
            let h = crate::ctx::hex(w);
            let t = h.trim_start_matches('0');
            out.push_str(if t.is_empty() { "0" } else { t });
        }
        Val::Array(x) | Val::FixedArray(x) => {
            out.push('[');
            for (i, v) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                show(v, out);
            }
            out.push(']');
        }
        Val::Tuple(x) => {
            out.push('(');
            for (i, v) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                show(v, out);
            }
            out.push(')');
        }
        Val::AnyBool => {}
    }
}

pub fn shown(v: &Val) -> String {
    let mut s = String::new();
    show(v, &mut s);
    s
}

fn kind_of(v: &Val) -> usize {
    match v {
        Val::Address(_) => 0,
        Val::FixedBytes(_) => 1,
        Val::Bytes(_) => 2,
        Val::Int(_) => 3,
        Val::Uint(_) => 4,
        Val::Bool(_) | Val::AnyBool => 5,
        Val::Str(_) => 6,
        Val::FixedArray(_) => 7,
        Val::Array(_) => 8,
        Val::Tuple(_) => 9,
    }
}

fn extract(v: &Val) -> Res {
    let k = kind_of(v);
    let t = to_token(v);
    let got: Vec<Option<Val>> = vec![
        t.clone().into_address().map(|a| Val::Address(a.0)),
        t.clone().into_fixed_bytes().map(Val::FixedBytes),
        t.clone().into_bytes().map(Val::Bytes),
        t.clone().into_int().map(|u| from_token(&Token::Int(u))),
        t.clone().into_uint().map(|u| from_token(&Token::Uint(u))),
        t.clone().into_bool().map(Val::Bool),
        t.clone().into_string().map(Val::Str),
        t.clone().into_fixed_array().map(|x| Val::FixedArray(from_tokens(&x))),
        t.clone().into_array().map(|x| Val::Array(from_tokens(&x))),
    ];
    for (i, g) in got.into_iter().enumerate() {
        let want = if i == k { Some(v.clone()) } else { None };
        ensure!(g == want, "extraction {} of {:?} gives {:?}", i, clip(&format!("{:?}", v), 300), g);
    }
    if let Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) = v {
        for e in x {
            extract(e)?;
        }
    }
    Ok(())
}

fn c20(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_ty(s, FULL);
    let mut b = 120;
    let v = gen_val(s, &t, &mut b);
    let want = shown(&v);
    ctx.ident(&(name(&t), &want));
    ctx.nontrivial(depth(&t) > 0 || want.len() > 1);
    ctx.label_if(depth(&t) > 1, "nested");
    ctx.label_if(!want.is_ascii(), "non-ascii");
    ctx.describe(|| format!("{}: {}", name(&t), want));
    let tok = to_token(&v);
    let got = format!("{}", tok);
    ensure!(got == want, "display of {} value is {:?}, expected {:?}", name(&t), clip(&got, 500), clip(&want, 500));
    ensure!(tok.to_string() == want, "to_string differs from display");
    let tn = format!("{}", to_param(&t));
    ensure!(tn == name(&t), "display of the type is {:?}, expected {:?}", tn, name(&t));
    extract(&v)
}

/// Long contents and long lists print and extract in full; empty ones too.
fn c20_large() -> Res {
    for v in [Val::Bytes(vec![]), Val::FixedBytes(vec![]), Val::Str(String::new()), Val::Array(vec![]), Val::FixedArray(vec![]), Val::Tuple(vec![])] {
        for v in [v.clone(), Val::Array(vec![v.clone()]), Val::FixedArray(vec![v.clone(), v.clone()]), Val::Tuple(vec![v])] {
            let (got, want) = (to_token(&v).to_string(), shown(&v));
            ensure!(got == want, "display of {:?} is {:?}", v, got);
            extract(&v)?;
        }
    }
    let b = |n: usize| (0..n).map(|i| (i * 7 + i / 251) as u8).collect::<Vec<u8>>();
    let st = |n: usize| (0..n).map(|i| if i % 97 == 3 { 'é' } else { (b'a' + (i % 26) as u8) as char }).collect::<String>();
    let word = |i: usize| {
        let mut w = [0u8; 32];
        w[24..].copy_from_slice(&(i as u64).wrapping_mul(0x9e37_79b9).to_be_bytes());
        w
    };
    let list = |n: usize| -> Vec<Val> {
        (0..n)
            .map(|i| match i % 4 {
                0 => Val::Uint(word(i)),
                1 => Val::Str(st(i % 5)),
                2 => Val::Bytes(b(i % 3)),
                _ => Val::Bool(i % 8 == 3),
            })
            .collect()
    };
    for n in [33usize, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 100_001, 262_145] {
        let vs = [
            Val::Bytes(b(n)),
            Val::FixedBytes(b(n.min(32))),
            Val::Str(st(n)),
            Val::Array(list(n)),
            Val::FixedArray(list(n)),
            Val::Tuple(list(n)),
            Val::Array(vec![Val::Tuple(list(n)), Val::Str(st(n)), Val::Bytes(b(n))]),
            Val::Tuple(vec![Val::FixedArray(list(n)), Val::Bytes(b(n))]),
        ];
        for v in &vs {
            let (got, want) = (to_token(v).to_string(), shown(v));
            if got != want {
                let at = got.bytes().zip(want.bytes()).take_while(|(x, y)| x == y).count();
                fail!("display of a value with {} parts: {} bytes instead of {}, first difference at {}", n, got.len(), want.len(), at);
            }
            if n <= 5000 {
                extract(v)?;
            }
        }
    }
    Ok(())
}

fn c21(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = gen_ty(s, FULL);
    if let Ty::Tuple(ts) = &mut t {
        if s.weighted(&[11, 1]) == 1 {
            add_zeros(s, ts);
        }
    }
    // zero-size forms of dynamic types only at the top: nested ones have no agreed meaning
    let zero = s.weighted(&[12, 1, 1]);
    if zero == 1 {
        t = Ty::FixedBytes(0);
    } else if zero == 2 {
        t = Ty::FixedArray(Box::new(t), 0);
    }
    let p = to_param(&t);
    ctx.ident(&name(&t));
    ctx.describe(|| name(&t));
    ctx.nontrivial(depth(&t) > 0);
    ctx.label_if(dynamic(&t), "dynamic");
    ctx.label_if(!dynamic(&t), "static");
    ctx.label_if(dynamic(&t) && depth(&t) > 1, "dynamic inside");
    ensure!(p.is_dynamic() == dynamic(&t), "{} classified as dynamic={}", name(&t), p.is_dynamic());
    let z = zero != 0;
    ensure!(
        p.is_empty_bytes_valid_encoding() == z,
        "{}: empty bytes valid = {}",
        name(&t),
        p.is_empty_bytes_valid_encoding()
    );
    // what the classification is for: decoding nothing succeeds exactly for those types
    let d = ethabi::decode(&[p], &[]);
    if !dynamic(&t) {
        ensure!(d.is_ok() == z, "decoding {} from no bytes: {:?}", name(&t), d.is_ok());
    }
    if !z {
        ensure!(d.is_err(), "decoding {} from no bytes succeeds", name(&t));
        for _ in 0..2 {
            let mut b = 60;
            let v = gen_val(s, &t, &mut b);
            class(&t, &v)?;
        }
    }
    Ok(())
}

fn class(t: &Ty, v: &Val) -> Res {
    let k = to_token(v);
    ensure!(k.is_dynamic() == dynamic(t), "value {} of {} classified as dynamic={}", clip(&format!("{:?}", k), 300), name(t), k.is_dynamic());
    match (t, v) {
        (Ty::Array(t), Val::Array(x)) | (Ty::FixedArray(t, _), Val::FixedArray(x)) => {
            for v in x {
                class(t, v)?
            }
        }
        (Ty::Tuple(ts), Val::Tuple(x)) => {
            for (t, v) in ts.iter().zip(x) {
                class(t, v)?
            }
        }
        _ => {}
    }
    Ok(())
}

const NT: &str = "the value list has a dynamic or composite type";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "type lists (depth up to 6, sometimes 10; fixed arrays to 40, tuples to 40 fields) with matching values (boundary integers, byte lengths around word multiples, arrays to 300 elements), encoded by ethabi and by the type-driven reference encoder; plus fixed sweeps over byte lengths to 16 MiB, array lengths to 65537 and every leaf width in 13 container shapes. Non-trivial: a dynamic or composite type. Distinct by (types, encoding).",
        quick: 900_000,
        thorough: 12_000_000,
        max_len: 1600,
        check: c01,
        fixed: &[("byte-lengths", c01_sizes), ("array-lengths", c01_arrays), ("widths", c01_widths), ("extremes", c01_extremes), ("16MiB", c01_huge)],
        assumptions: &["the reference encoder follows the Solidity ABI specification"],
    },
    Prop {
        id: "C02",
        rule: "the C01 generator; decode(types, encode(values)) must be the values. Non-trivial: a dynamic or composite type. Distinct by (types, encoding).",
        quick: 1_500_000,
        thorough: 20_000_000,
        max_len: 1600,
        check: c02,
        fixed: &[("byte-lengths", c02_sizes), ("array-lengths", c02_arrays), ("widths", c02_widths), ("extremes", c02_extremes), ("16MiB", c02_huge)],
        assumptions: &["values are of their full declared byte length; bytes0, T[0] of dynamic T and arrays of types without content are outside the domain"],
    },
    Prop {
        id: "C03",
        rule: "type lists with data that is a valid encoding after 0-3 mutations (offset and length words replaced by boundary numbers, truncation, extension, bit flips), words from a boundary alphabet, or random bytes; result compared with an independent bounds-checked reference decoder; plus exhaustive small word strings and single-bit sweeps. Non-trivial: non-empty types and data. Distinct by (types, data).",
        quick: 9_000_000,
        thorough: 120_000_000,
        max_len: 900,
        check: c03,
        fixed: &[("fixed-array-offset", c03_fixed_array_offset), ("small-words", c03_small_words), ("bits", c03_bool_words), ("extremes", c03_extremes), ("large", c03_large)],
        assumptions: &[
            "boolean words 2..255 may decode to either value or be refused",
            "data whose decoding takes more than 60000 steps is skipped and counted",
        ],
    },
    Prop {
        id: "C04",
        rule: "valid encodings cut at every length up to 500 bytes (sampled beyond), extended, and with padding overwritten; roles of bytes come from the reference encoder. Non-trivial: content beyond one word. Distinct by (types, encoding).",
        quick: 1_200_000,
        thorough: 16_000_000,
        max_len: 700,
        check: c04,
        fixed: &[("extremes", c04_extremes), ("large", c04_large)],
        assumptions: &[],
    },
    Prop {
        id: "C07",
        rule: "parameter lists with well-typed arguments after 0-2 mutations at any depth (kind, element count, byte count, argument count, order); acceptance compared with a reference type relation, accepted data with selector/code plus reference encoding. Non-trivial: at least one parameter. Distinct by (types, arguments).",
        quick: 3_000_000,
        thorough: 40_000_000,
        max_len: 700,
        check: c07,
        fixed: &[("arity-and-byte-counts", c07_tuple_arity), ("matrix", c07_matrix), ("extremes", c07_extremes), ("large", c07_large)],
        assumptions: &["bytesN with N in 1..32; T[0] of dynamic T is outside the domain"],
    },
    Prop {
        id: "C20",
        rule: "values of generated types printed and compared with a reference printer; every into_* extraction on every nested value. Non-trivial: nested or longer than one character. Distinct by (type, text).",
        quick: 3_600_000,
        thorough: 48_000_000,
        max_len: 900,
        check: c20,
        fixed: &[("extremes", c20_extremes), ("large", c20_large)],
        assumptions: &[],
    },
    Prop {
        id: "C21",
        rule: "generated types and two values of each, classified by ethabi at every nesting level and by the recursive definition; zero-size forms at the top level. Non-trivial: composite type. Distinct by type name.",
        quick: 12_000_000,
        thorough: 160_000_000,
        max_len: 700,
        check: c21,
        fixed: &[("extremes", c21_extremes)],
        assumptions: &["T[0] of dynamic T nested in others is outside the domain"],
    },
];

#[allow(dead_code)]
const _: &str = NT;
