//! C26: what an operation returns depends on its arguments and the object alone, whatever ran
//! before, beside it or on related objects.

use crate::ctx::{clip, hexclip, Ctx, Res};
use crate::json::MUTS;
use crate::model::*;
use crate::props::codec::{mutate, shown};
use crate::props::events::{raw, Ev};
use crate::props::text::{spell, spellable};
use crate::runner::Prop;
use crate::src::Src;
use crate::{ensure, fail};
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{Contract, Function, Param, RawTopicFilter, Token, Topic, TopicFilter};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
struct Fun {
    name: String,
    ins: Vec<Ty>,
    outs: Vec<Ty>,
    mutability: usize,
}

impl Fun {
    #[allow(deprecated)]
    fn real(&self) -> Function {
        let ps = |ts: &[Ty]| ts.iter().map(|t| Param { name: "p".into(), kind: to_param(t), internal_type: None }).collect();
        Function {
            name: self.name.clone(),
            inputs: ps(&self.ins),
            outputs: ps(&self.outs),
            constant: false,
            state_mutability: MUTS[self.mutability],
        }
    }
    fn signature(&self) -> String {
        if self.outs.is_empty() {
            format!("{}({})", self.name, names(&self.ins))
        } else {
            format!("{}({}):({})", self.name, names(&self.ins), names(&self.outs))
        }
    }
}

/// The contract as the model sees it: entries in declaration order.
#[derive(Clone, Debug, Default)]
struct State {
    funs: Vec<Fun>,
    evs: Vec<Ev>,
    ctor: Option<Vec<Ty>>,
}

impl State {
    fn real(&self) -> Contract {
        let mut c = Contract::default();
        for f in &self.funs {
            c.functions.entry(f.name.clone()).or_default().push(f.real());
        }
        for e in &self.evs {
            c.events.entry(e.name.clone()).or_default().push(e.event());
        }
        c.constructor = self.ctor.as_ref().map(|t| ethabi::Constructor {
            inputs: t.iter().map(|t| Param { name: "p".into(), kind: to_param(t), internal_type: None }).collect(),
        });
        c
    }
    /// The place of entry `i` among those of its name.
    fn fun_at(&self, i: usize) -> usize {
        self.funs[..i].iter().filter(|f| f.name == self.funs[i].name).count()
    }
    fn ev_at(&self, i: usize) -> usize {
        self.evs[..i].iter().filter(|f| f.name == self.evs[i].name).count()
    }
}

/// A type list that differs a little.
fn vary(s: &mut Src, ts: &[Ty]) -> Vec<Ty> {
    let mut v = ts.to_vec();
    match s.weighted(&[3, 1, 1, 1, 1]) {
        0 if !v.is_empty() => {
            let i = s.below(v.len() as u64) as usize;
            v[i] = vary_ty(s, &v[i]);
        }
        1 if !v.is_empty() => {
            v.pop();
        }
        2 => v.push(gen_leaf(s, true)),
        3 if v.len() > 1 => {
            let i = s.below(v.len() as u64 - 1) as usize;
            v.swap(i, i + 1);
        }
        _ => {}
    }
    v
}

fn vary_ty(s: &mut Src, t: &Ty) -> Ty {
    match t {
        Ty::Uint(n) => match s.below(3) {
            0 => Ty::Int(*n),
            1 => Ty::Uint(if *n == 256 { 8 } else { n + 8 }),
            _ => Ty::Array(Box::new(t.clone())),
        },
        Ty::Int(n) => Ty::Uint(*n),
        Ty::FixedBytes(n) => {
            if s.bool() {
                Ty::FixedBytes(n % 32 + 1)
            } else {
                Ty::Bytes
            }
        }
        Ty::Bytes => Ty::Str,
        Ty::Str => Ty::Bytes,
        Ty::Array(x) => match s.below(3) {
            0 => Ty::FixedArray(x.clone(), 1 + s.below(3) as usize),
            1 => Ty::Array(Box::new(vary_ty(s, x))),
            _ => (**x).clone(),
        },
        Ty::FixedArray(x, n) => match s.below(3) {
            0 => Ty::Array(x.clone()),
            1 => Ty::FixedArray(x.clone(), n + 1),
            _ => Ty::FixedArray(Box::new(vary_ty(s, x)), *n),
        },
        Ty::Tuple(x) => {
            let mut x = x.clone();
            let i = s.below(x.len() as u64) as usize;
            x[i] = vary_ty(s, &x[i]);
            Ty::Tuple(x)
        }
        Ty::Address => Ty::Uint(160),
        Ty::Bool => Ty::Uint(8),
    }
}

fn vary_name(s: &mut Src, n: &str) -> String {
    match s.weighted(&[5, 1, 1, 1, 1]) {
        0 => n.to_string(),
        1 => format!("{}a", n),
        2 => n.to_uppercase(),
        3 => format!("a{}", n),
        _ => n[..n.len() - 1].to_string(),
    }
}

fn gen_state(s: &mut Src) -> State {
    let cfg = TyCfg { depth: 3, cap: 10, tuples: true, dynamic: true };
    let base = gen_tys(s, cfg, 4);
    let root = format!("m{}", s.below(2000));
    let mut st = State::default();
    let n = s.range(1, 5);
    for i in 0..n {
        let ins = if i == 0 { base.clone() } else { vary(s, &base) };
        let outs = vary(s, &base);
        st.funs.push(Fun { name: vary_name(s, &root), ins, outs, mutability: s.below(4) as usize });
    }
    let n = s.below(4);
    for _ in 0..n {
        st.evs.push(gen_ev(s, &root, &base));
    }
    if s.bool() {
        st.ctor = Some(vary(s, &base));
    }
    st
}

fn gen_ev(s: &mut Src, root: &str, base: &[Ty]) -> Ev {
    let mut left = 3;
    let ins = vary(s, base)
        .into_iter()
        .map(|t| {
            let i = left > 0 && s.chance(110);
            if i {
                left -= 1;
            }
            (s.pick(&["", "a", "b"]).to_string(), t, i)
        })
        .collect();
    Ev { name: vary_name(s, root), anonymous: s.chance(60), ins }
}

// ---------------------------------------------------------------- operations

/// An operation with what it has to return.
#[derive(Debug)]
enum Op {
    Call { f: usize, args: Vec<Val>, want: Option<Vec<u8>> },
    Out { f: usize, data: Vec<u8>, want: Option<Vec<Val>> },
    In { f: usize, data: Vec<u8>, want: Option<Vec<Val>> },
    Sig { f: usize },
    First { name: String, want: Option<Vec<usize>> },
    Log { e: usize, topics: Vec<[u8; 32]>, data: Vec<u8>, want: Option<Vec<(String, Val)>> },
    Filter { e: usize, vals: Vec<Option<Val>>, want: TopicFilter },
    Topic { e: usize },
    Ctor { code: Vec<u8>, args: Vec<Val>, want: Option<Vec<u8>> },
    Encode { vals: Vec<Val>, want: Vec<u8> },
    Decode { ts: Vec<Ty>, data: Vec<u8>, want: Option<Vec<Val>> },
    Text { ty: Ty, text: String, lenient: bool, want: Option<Val> },
    Name { ty: Ty },
    Show { val: Val, want: String },
    Json,
}

fn well(ts: &[Ty], vs: &[Val]) -> bool {
    ts.len() == vs.len() && ts.iter().zip(vs).all(|(t, v)| well_typed(t, v))
}

/// Values for one of the type lists in use, now and then not fitting.
fn args(s: &mut Src, st: &State, own: &[Ty], ctx: &mut Ctx) -> Vec<Val> {
    match s.weighted(&[5, 2, 1]) {
        0 => gen_vals(s, own, 14),
        1 => {
            let other = &st.funs[s.below(st.funs.len() as u64) as usize];
            ctx.label("arguments of another entry");
            gen_vals(s, &other.ins, 14)
        }
        _ => {
            let v = gen_vals(s, own, 14);
            let i = s.below(v.len().max(1) as u64) as usize;
            let mut v = v;
            if i < v.len() {
                v[i] = mutate(s, &v[i], ctx);
            }
            v
        }
    }
}

/// Data for one of the type lists in use, now and then damaged.
fn data(s: &mut Src, st: &State, own: &[Ty]) -> Vec<u8> {
    let ts = if s.chance(190) { own.to_vec() } else { st.funs[s.below(st.funs.len() as u64) as usize].ins.clone() };
    let vals = gen_vals(s, &ts, 14);
    let mut d = ref_encode(&ts, &vals).bytes;
    match s.weighted(&[5, 1, 1]) {
        1 if !d.is_empty() => {
            let n = s.below(d.len() as u64) as usize;
            d.truncate(n);
        }
        2 if !d.is_empty() => {
            let i = s.below(d.len() as u64) as usize;
            d[i] ^= 1 << s.below(8);
        }
        _ => {}
    }
    d
}

fn decoded(ts: &[Ty], d: &[u8]) -> Option<Option<Vec<Val>>> {
    match ref_decode(ts, d, 20_000) {
        Err(DecErr::TooMuch) => None,
        Ok(v) if any_bool(&v) => None,
        Ok(v) => Some(Some(v)),
        Err(_) => Some(None),
    }
}

fn any_bool(v: &[Val]) -> bool {
    v.iter().any(|v| match v {
        Val::AnyBool => true,
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => any_bool(x),
        _ => false,
    })
}

fn gen_op(s: &mut Src, st: &State, ctx: &mut Ctx) -> Option<Op> {
    let f = s.below(st.funs.len() as u64) as usize;
    let fun = &st.funs[f];
    let k = s.weighted(&[6, 4, 3, 3, 2, 4, 3, 2, 2, 2, 2, 3, 2, 2, 1]);
    ctx.label(
        [
            "encode_input", "decode_output", "decode_input", "signature", "lookup", "parse_log", "filter", "event signature", "constructor", "encode", "decode",
            "tokenize", "type name", "display", "json",
        ][k],
    );
    Some(match k {
        0 => {
            let a = args(s, st, &fun.ins, ctx);
            let want = if well(&fun.ins, &a) {
                let mut w = selector(&fun.name, &fun.ins).to_vec();
                w.extend(ref_encode(&fun.ins, &a).bytes);
                Some(w)
            } else {
                None
            };
            Op::Call { f, args: a, want }
        }
        1 => {
            let d = data(s, st, &fun.outs);
            let want = decoded(&fun.outs, &d)?;
            Op::Out { f, data: d, want }
        }
        2 => {
            let d = data(s, st, &fun.ins);
            let want = decoded(&fun.ins, &d)?;
            Op::In { f, data: d, want }
        }
        3 => Op::Sig { f },
        4 => {
            let name = if s.chance(200) { fun.name.clone() } else { vary_name(s, &fun.name) };
            let l: Vec<usize> = (0..st.funs.len()).filter(|i| st.funs[*i].name == name).collect();
            Op::First { name, want: if l.is_empty() { None } else { Some(l) } }
        }
        5 | 6 | 7 => {
            if st.evs.is_empty() {
                return None;
            }
            let e = s.below(st.evs.len() as u64) as usize;
            let ev = &st.evs[e];
            match k {
                5 => {
                    let from = if s.chance(180) { ev } else { &st.evs[s.below(st.evs.len() as u64) as usize] };
                    let vals = gen_vals(s, &from.tys(), 14);
                    let (topics, mut d) = from.emit(&vals);
                    if s.chance(50) && !d.is_empty() {
                        let n = s.below(d.len() as u64) as usize;
                        d.truncate(n);
                    }
                    let want = match ev.decode(&topics, &d) {
                        Err(DecErr::TooMuch) => return None,
                        Ok(v) if any_bool(&v.iter().map(|p| p.1.clone()).collect::<Vec<_>>()) => return None,
                        Ok(v) => Some(v),
                        Err(_) => None,
                    };
                    Op::Log { e, topics, data: d, want }
                }
                6 => {
                    let mut budget = 14;
                    let vals: Vec<Option<Val>> =
                        ev.indexed().iter().map(|t| if s.chance(190) { Some(gen_val(s, t, &mut budget)) } else { None }).collect();
                    let h = |i: usize| match vals.get(i) {
                        Some(Some(v)) => Topic::This(topic_of(v).into()),
                        _ => Topic::Any,
                    };
                    let want = if ev.anonymous {
                        TopicFilter { topic0: h(0), topic1: h(1), topic2: h(2), topic3: Topic::Any }
                    } else {
                        TopicFilter { topic0: Topic::This(ev.sig().into()), topic1: h(0), topic2: h(1), topic3: h(2) }
                    };
                    Op::Filter { e, vals, want }
                }
                _ => Op::Topic { e },
            }
        }
        8 => {
            let ins = st.ctor.as_ref()?;
            let a = args(s, st, ins, ctx);
            let n = s.below(6) as usize;
            let code = s.content(n);
            let want = if well(ins, &a) {
                let mut w = code.clone();
                w.extend(ref_encode(ins, &a).bytes);
                Some(w)
            } else {
                None
            };
            Op::Ctor { code, args: a, want }
        }
        9 => {
            let vals = gen_vals(s, &fun.ins, 14);
            Op::Encode { want: ref_encode(&fun.ins, &vals).bytes, vals }
        }
        10 => {
            let d = data(s, st, &fun.ins);
            let want = decoded(&fun.ins, &d)?;
            Op::Decode { ts: fun.ins.clone(), data: d, want }
        }
        11 => {
            if fun.ins.is_empty() {
                return None;
            }
            let ty = fun.ins[s.below(fun.ins.len() as u64) as usize].clone();
            let mut budget = 10;
            let v = gen_val(s, &ty, &mut budget);
            let v = spellable(s, &v, false);
            let lenient = s.bool();
            let text = spell(s, &v, lenient);
            Op::Text { ty, text, lenient, want: Some(v) }
        }
        12 => {
            let l = if s.bool() { &fun.ins } else { &fun.outs };
            if l.is_empty() {
                return None;
            }
            Op::Name { ty: l[s.below(l.len() as u64) as usize].clone() }
        }
        13 => {
            let v = gen_vals(s, &fun.ins, 14);
            if v.is_empty() {
                return None;
            }
            let val = v[s.below(v.len() as u64) as usize].clone();
            Op::Show { want: shown(&val), val }
        }
        _ => Op::Json,
    })
}

fn bytes_as(what: &str, want: &Option<Vec<u8>>, got: Result<Vec<u8>, String>) -> Res {
    match (want, got) {
        (Some(w), Ok(g)) => ensure!(*w == g, "{}: {} instead of {}", what, hexclip(&g), hexclip(w)),
        (None, Err(_)) => {}
        (Some(_), Err(e)) => fail!("{}: refused with {}", what, e),
        (None, Ok(g)) => fail!("{}: accepted as {}", what, hexclip(&g)),
    }
    Ok(())
}

fn vals_as(what: &str, want: &Option<Vec<Val>>, got: Result<Vec<Token>, String>) -> Res {
    match (want, got) {
        (Some(w), Ok(g)) => {
            let g = from_tokens(&g);
            ensure!(*w == g, "{}: {} instead of {}", what, show_vals(&g), show_vals(w))
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => fail!("{}: refused with {}", what, e),
        (None, Ok(g)) => fail!("{}: accepted as {:?}", what, g),
    }
    Ok(())
}

fn err<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

fn apply(st: &State, c: &Contract, op: &Op) -> Res {
    let fun = |f: usize| -> Result<&Function, crate::ctx::Failure> {
        let m = &st.funs[f];
        match c.functions_by_name(&m.name) {
            Ok(l) if l.len() > st.fun_at(f) => Ok(&l[st.fun_at(f)]),
            _ => Err(crate::ctx::Failure::new(format!("function {} is not found", m.name))),
        }
    };
    let ev = |e: usize| -> Result<&ethabi::Event, crate::ctx::Failure> {
        let m = &st.evs[e];
        match c.events_by_name(&m.name) {
            Ok(l) if l.len() > st.ev_at(e) => Ok(&l[st.ev_at(e)]),
            _ => Err(crate::ctx::Failure::new(format!("event {} is not found", m.name))),
        }
    };
    match op {
        Op::Call { f, args, want } => {
            let a = to_tokens(args);
            let r = err(fun(*f)?.encode_input(&a));
            ensure!(a == to_tokens(args), "encode_input changed its arguments");
            bytes_as(&format!("{} called with {}", st.funs[*f].signature(), show_vals(args)), want, r)
        }
        Op::Out { f, data, want } => {
            vals_as(&format!("{} output {}", st.funs[*f].signature(), hexclip(data)), want, err(fun(*f)?.decode_output(data)))
        }
        Op::In { f, data, want } => {
            vals_as(&format!("{} input {}", st.funs[*f].signature(), hexclip(data)), want, err(fun(*f)?.decode_input(data)))
        }
        Op::Sig { f } => {
            let g = fun(*f)?.signature();
            ensure!(g == st.funs[*f].signature(), "signature {} instead of {}", g, st.funs[*f].signature());
            Ok(())
        }
        Op::First { name, want } => {
            match (want, c.function(name), c.functions_by_name(name)) {
                (None, Err(_), Err(_)) => {}
                (Some(w), Ok(f), Ok(l)) => {
                    let w: Vec<Function> = w.iter().map(|i| st.funs[*i].real()).collect();
                    ensure!(*f == w[0] && *l == w, "lookup of {}: {:?} and {:?} instead of {:?}", name, f, l, w);
                }
                (w, f, l) => fail!("lookup of {}: {:?} and {:?} instead of {:?}", name, f, l, w),
            }
            Ok(())
        }
        Op::Log { e, topics, data, want } => {
            let m = &st.evs[*e];
            let what = format!("{} log {:?} {}", m.show(), raw(topics, &[]).topics, hexclip(data));
            match (want, ev(*e)?.parse_log(raw(topics, data))) {
                (Some(w), Ok(g)) => {
                    let g: Vec<(String, Val)> = g.params.into_iter().map(|p| (p.name, from_token(&p.value))).collect();
                    ensure!(*w == g, "{}: {:?} instead of {:?}", what, g, w);
                }
                (None, Err(_)) => {}
                (Some(_), Err(x)) => fail!("{}: refused with {:?}", what, x),
                (None, Ok(g)) => fail!("{}: accepted as {:?}", what, g),
            }
            Ok(())
        }
        Op::Filter { e, vals, want } => {
            let t = |i: usize| match vals.get(i) {
                Some(Some(v)) => Topic::This(to_token(v)),
                _ => Topic::Any,
            };
            let r = RawTopicFilter { topic0: t(0), topic1: t(1), topic2: t(2) };
            match ev(*e)?.filter(r) {
                Ok(g) => ensure!(g == *want, "{} filter {:?}: {:?} instead of {:?}", st.evs[*e].show(), vals, g, want),
                Err(x) => fail!("{} filter {:?}: refused with {:?}", st.evs[*e].show(), vals, x),
            }
            Ok(())
        }
        Op::Topic { e } => {
            let g = ev(*e)?.signature();
            ensure!(g.0 == st.evs[*e].sig(), "{} signature {:?}", st.evs[*e].show(), g);
            Ok(())
        }
        Op::Ctor { code, args, want } => {
            let k = match c.constructor() {
                Some(k) => k,
                None => fail!("the constructor is not found"),
            };
            bytes_as(&format!("constructor with {}", show_vals(args)), want, err(k.encode_input(code.clone(), &to_tokens(args))))
        }
        Op::Encode { vals, want } => {
            bytes_as(&format!("encode {}", show_vals(vals)), &Some(want.clone()), Ok(ethabi::encode(&to_tokens(vals))))
        }
        Op::Decode { ts, data, want } => {
            vals_as(&format!("decode {} from {}", names(ts), hexclip(data)), want, err(ethabi::decode(&to_params(ts), data)))
        }
        Op::Text { ty, text, lenient, want } => {
            let p = to_param(ty);
            let g = if *lenient { LenientTokenizer::tokenize(&p, text) } else { StrictTokenizer::tokenize(&p, text) };
            match (want, g) {
                (Some(w), Ok(g)) => ensure!(*w == from_token(&g), "{:?} as {}: {:?} instead of {:?}", text, name(ty), g, w),
                (Some(_), Err(x)) => fail!("{:?} as {}: refused with {:?}", text, name(ty), x),
                _ => {}
            }
            Ok(())
        }
        Op::Name { ty } => {
            let p = to_param(ty);
            ensure!(p.to_string() == name(ty), "{} is printed as {}", name(ty), p);
            match ethabi::param_type::Reader::read(&name(ty)) {
                Ok(g) => ensure!(g == p, "{} is read as {:?}", name(ty), g),
                Err(x) => fail!("{} is refused: {:?}", name(ty), x),
            }
            ensure!(p.is_dynamic() == dynamic(ty), "{} is_dynamic {}", name(ty), p.is_dynamic());
            Ok(())
        }
        Op::Show { val, want } => {
            let g = to_token(val).to_string();
            ensure!(g == *want, "{:?} is displayed as {} instead of {}", val, g, want);
            Ok(())
        }
        Op::Json => {
            let t = match serde_json::to_string(c) {
                Ok(t) => t,
                Err(x) => fail!("not written as JSON: {:?}", x),
            };
            match Contract::load(t.as_bytes()) {
                Ok(g) => ensure!(g == *c, "written as {} and read as {:?}", clip(&t, 1200), g),
                Err(x) => fail!("written as {} and refused with {:?}", clip(&t, 1200), x),
            }
            Ok(())
        }
    }
}

/// Change the contract and the model alike.
fn change(s: &mut Src, st: &mut State, c: &mut Contract, ctx: &mut Ctx) -> String {
    let f = s.below(st.funs.len() as u64) as usize;
    let at = st.fun_at(f);
    let fname = st.funs[f].name.clone();
    match s.weighted(&[3, 3, 2, 2, 2, 2, 1, 1]) {
        0 => {
            ctx.label("inputs changed");
            let t = vary(s, &st.funs[f].ins);
            st.funs[f].ins = t;
            c.functions.get_mut(&fname).unwrap()[at].inputs = st.funs[f].real().inputs;
        }
        1 => {
            ctx.label("outputs changed");
            let t = vary(s, &st.funs[f].outs);
            st.funs[f].outs = t;
            c.functions.get_mut(&fname).unwrap()[at].outputs = st.funs[f].real().outputs;
        }
        2 => {
            ctx.label("function added");
            let n = vary_name(s, &fname);
            let g = Fun { name: n.clone(), ins: vary(s, &st.funs[f].ins), outs: vary(s, &st.funs[f].outs), mutability: s.below(4) as usize };
            c.functions.entry(n).or_default().push(g.real());
            st.funs.push(g);
        }
        3 if st.funs.len() > 1 => {
            ctx.label("function removed");
            let l = c.functions.get_mut(&fname).unwrap();
            l.remove(at);
            if l.is_empty() {
                c.functions.remove(&fname);
            }
            st.funs.remove(f);
        }
        4 => {
            ctx.label("event added");
            let base = st.funs[f].ins.clone();
            let e = gen_ev(s, &fname, &base);
            c.events.entry(e.name.clone()).or_default().push(e.event());
            st.evs.push(e);
        }
        5 if !st.evs.is_empty() => {
            ctx.label("event changed");
            let e = s.below(st.evs.len() as u64) as usize;
            let at = st.ev_at(e);
            let ev = &mut st.evs[e];
            if s.bool() {
                ev.anonymous = !ev.anonymous;
            } else if !ev.ins.is_empty() {
                let i = s.below(ev.ins.len() as u64) as usize;
                ev.ins[i].1 = vary_ty(s, &ev.ins[i].1.clone());
            }
            let (n, real) = (ev.name.clone(), ev.event());
            c.events.get_mut(&n).unwrap()[at] = real;
        }
        6 => {
            ctx.label("constructor changed");
            st.ctor = if s.bool() { Some(vary(s, &st.funs[f].ins)) } else { None };
            c.constructor = st.real().constructor;
        }
        _ => {
            ctx.label("contract rebuilt");
            *c = st.real();
        }
    }
    format!("{:?}", st)
}

fn c26(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = gen_state(s);
    let mut c = st.real();
    let phases = s.range(1, 4);
    let mut total = 0;
    let mut id: Vec<String> = vec![];
    for phase in 0..phases {
        if phase > 0 {
            let n = s.range(1, 2);
            for _ in 0..n {
                id.push(change(s, &mut st, &mut c, ctx));
            }
        }
        let n = s.range(1, 10);
        let ops: Vec<Op> = (0..n).filter_map(|_| gen_op(s, &st, ctx)).collect();
        total += ops.len();
        let threads = if s.chance(24) { 2 + s.below(3) as usize } else { 1 };
        id.push(format!("{:?}", ops));
        ctx.describe(|| format!("{:?}; {} thread(s): {:?}", st, threads, ops));
        let before = c.clone();
        if threads == 1 {
            for (i, op) in ops.iter().enumerate() {
                if let Err(e) = apply(&st, &c, op) {
                    fail!("operation {} of {}: {}", i + 1, ops.len(), e.msg);
                }
            }
            // again, the other way round
            for op in ops.iter().rev() {
                if let Err(e) = apply(&st, &c, op) {
                    fail!("repeated in reverse order: {}", e.msg);
                }
            }
        } else {
            ctx.label("several threads");
            let (st, c, ops) = (&st, &c, &ops);
            let rs: Vec<Res> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        sc.spawn(move || {
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                for k in 0..2 * ops.len() {
                                    apply(st, c, &ops[(k + t) % ops.len()])?;
                                }
                                Ok(())
                            }));
                            r.unwrap_or_else(|_| Err(crate::ctx::Failure::new("panicked in a thread")))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for r in rs {
                if let Err(e) = r {
                    fail!("with {} threads: {}", threads, e.msg);
                }
            }
        }
        ensure!(c == before, "the contract changed from {:?} to {:?}", before, c);
        ensure!(c == st.real(), "the contract is {:?} instead of {:?}", c, st.real());
    }
    ctx.nontrivial(total >= 3);
    ctx.ident(&id);
    Ok(())
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C26",
    rule: "histories of up to four phases on one contract: up to ten operations each (calls, decoding, signatures, lookups, logs, filters, constructor, texts, type names, display, JSON) on overloads and entries that differ a little, run forwards, repeated backwards or run twice by two to four threads on the shared contract, with changes of the public fields between the phases; every result is compared with the reference model for the content at that moment, and the contract must be unchanged. Non-trivial: at least three operations. Distinct by the history.",
    quick: 450_000,
    thorough: 6_000_000,
    max_len: 3000,
    check: c26,
    fixed: &[],
    assumptions: &["threads are scheduled by the operating system, not enumerated"],
}];
