//! C09-C12: loading, writing, refusing and querying JSON ABIs.

use crate::ctx::{clip, Ctx, Res};
use crate::json::*;
use crate::model::*;
use crate::runner::Prop;
use crate::src::{expand, Src};
use crate::{ensure, fail};
use ethabi::{Constructor, Contract, Error, Event, EventParam, Function, Param, TupleParam};

fn entry_labels(ctx: &mut Ctx, es: &[Entry]) {
    for e in es {
        let (l, ps): (&'static str, Vec<&P>) = match e {
            Entry::Fun { ins, outs, .. } => ("function", ins.iter().chain(outs).collect()),
            Entry::Ev { ins, .. } => ("event", ins.iter().collect()),
            Entry::Ctor { ins } => ("constructor", ins.iter().collect()),
            Entry::Fallback => ("fallback", vec![]),
            Entry::Receive => ("receive", vec![]),
        };
        ctx.label(l);
        for p in ps {
            ctx.label_if(tuple_inside(&p.ty).is_some(), "tuple parameter");
            ctx.label_if(depth(&p.ty) > 2, "deep parameter type");
        }
    }
}

fn has_params(es: &[Entry]) -> bool {
    es.iter().any(|e| match e {
        Entry::Fun { ins, outs, .. } => !ins.is_empty() || !outs.is_empty(),
        Entry::Ev { ins, .. } | Entry::Ctor { ins } => !ins.is_empty(),
        _ => false,
    })
}

fn load(t: &str) -> Result<Contract, Error> {
    Contract::load(t.as_bytes())
}

/// Hands out at most a few bytes at a time.
struct Trickle<'a> {
    data: &'a [u8],
    sizes: [u8; 4],
    i: usize,
    /// Fails once this many bytes were read.
    fail_at: Option<usize>,
    done: usize,
}

impl<'a> Trickle<'a> {
    fn new(data: &'a [u8], sizes: [u8; 4], fail_at: Option<usize>) -> Trickle<'a> {
        Trickle { data, sizes, i: 0, fail_at, done: 0 }
    }
}

impl std::io::Read for Trickle<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.i += 1;
        if self.i % 7 == 3 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = (1 + self.sizes[self.i % 4] as usize).min(buf.len()).min(self.data.len());
        if let Some(f) = self.fail_at {
            if self.done >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken pipe"));
            }
            n = n.min(f - self.done);
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.done += n;
        Ok(n)
    }
}

fn plain_p(ts: &[Ty]) -> Vec<P> {
    ts.iter().enumerate().map(|(i, t)| P { name: format!("p{}", i), ty: t.clone(), internal: None, indexed: false }).collect()
}

/// Documents with extreme types, many entries and long texts.
fn big_docs(mut f: impl FnMut(&mut Src, &[Entry]) -> Res) -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let buf = expand(i as u64, 600);
        let mut s = Src::new(&buf);
        let mut evp = plain_p(ts);
        evp.iter_mut().enumerate().for_each(|(k, p)| p.indexed = k % 5 == 4);
        let e = match i % 4 {
            0 => Entry::Fun { name: "f".into(), ins: plain_p(ts), outs: vec![], constant: None, mutability: None },
            1 => Entry::Ev { name: "E".into(), ins: evp, anonymous: i % 8 == 1 },
            2 => Entry::Ctor { ins: plain_p(ts) },
            _ => Entry::Fun { name: "g".into(), ins: vec![], outs: plain_p(ts), constant: Some(true), mutability: Some(MUTS[i / 4 % 4]) },
        };
        f(&mut s, &[e])?;
    }
    for n in super::types::BIG_SIZES {
        let t = Ty::FixedArray(Box::new(Ty::Tuple(vec![Ty::FixedArray(Box::new(Ty::Bool), *n), Ty::Str])), *n);
        f(&mut Src::new(&[]), &[Entry::Fun { name: "f".into(), ins: plain_p(&[t.clone()]), outs: plain_p(&[t]), constant: None, mutability: None }])?;
    }
    for (i, n) in crate::dict::with(&[20, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000], 2, 2000).iter().enumerate() {
        // many entries: distinct names, or few names with many overloads
        for names in [1usize, 2, 10, 100_000] {
            let buf = expand(1000 + i as u64, 20_000);
            let mut s = Src::new(&buf);
            let es: Vec<Entry> = (0..*n)
                .map(|k| match gen_entry(&mut s, |s| cut(&gen_ident(s))) {
                    Entry::Fun { ins, outs, constant, mutability, .. } => Entry::Fun { name: format!("f{}", k % names), ins, outs, constant, mutability },
                    Entry::Ev { ins, anonymous, .. } => Entry::Ev { name: format!("f{}", k % names), ins, anonymous },
                    e => e,
                })
                .collect();
            f(&mut s, &es)?;
            let mut es = es;
            es.push(Entry::Receive);
            es.insert(0, Entry::Fallback);
            if i % 2 == 0 {
                es.push(Entry::Ctor { ins: vec![] });
            }
            f(&mut s, &es)?;
        }
    }
    for n in crate::dict::with(&[255, 256, 1000, 65_535, 65_536, 70_000], 2, 100_000) {
        let long = "n".repeat(n);
        let p = |t: Ty| P { name: long.clone(), ty: t, internal: Some(long.clone()), indexed: false };
        f(
            &mut Src::new(&[]),
            &[
                Entry::Fun { name: long.clone(), ins: vec![p(Ty::Bool), p(Ty::Tuple(vec![Ty::Str]))], outs: vec![p(Ty::Bool)], constant: None, mutability: None },
                Entry::Ev { name: long.clone(), ins: vec![P { internal: None, ..p(Ty::Bool) }], anonymous: false },
            ],
        )?;
    }
    Ok(())
}

fn c09_big() -> Res {
    big_docs(|s, es| c09_doc(s, &mut Ctx::new(false), es))
}
fn c10_big() -> Res {
    big_docs(|s, es| c10_doc(s, &mut Ctx::new(false), es))
}
fn c12_big() -> Res {
    big_docs(|s, es| c12_doc(s, &mut Ctx::new(false), es, &["f0", "f1", "f2", "f9", "f10", "f99", "f100", "f255", "f256", "f999", "f", "g", "E"]))
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> Res {
    let es = gen_doc(s, 4, |s| cut(&gen_ident(s)));
    c09_doc(s, ctx, &es)
}

fn c09_doc(s: &mut Src, ctx: &mut Ctx, es: &[Entry]) -> Res {
    let y = Style { extras: s.chance(200), alias: true, suffix_names: true };
    let js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
    let t = text(s, &J::Arr(js.clone()));
    ctx.ident(&t);
    ctx.nontrivial(has_params(es));
    entry_labels(ctx, es);
    ctx.label_if(y.extras, "unknown keys");
    ctx.describe(|| t.clone());
    let want = contract(es);
    match load(&t) {
        Err(e) => fail!("refused ({}): {}", e, clip(&t, 3000)),
        Ok(c) => ensure!(c == want, "loaded {:?}, expected {:?} from {}", c, want, clip(&t, 3000)),
    }
    match serde_json::from_str::<Contract>(&t) {
        Err(e) => fail!("from_str refused ({}): {}", e, clip(&t, 3000)),
        Ok(c) => ensure!(c == want, "from_str gives {:?}, expected {:?} from {}", c, want, clip(&t, 3000)),
    }
    let v: Result<serde_json::Value, _> = serde_json::from_slice(t.as_bytes());
    if let Ok(v) = v {
        match serde_json::from_value::<Contract>(v) {
            Err(e) => fail!("from_value refused ({}): {}", e, clip(&t, 3000)),
            Ok(c) => ensure!(c == want, "from_value gives {:?}, expected {:?} from {}", c, want, clip(&t, 3000)),
        }
    }
    let sizes = [s.u8(), s.u8(), s.u8(), s.u8()];
    match Contract::load(Trickle::new(t.as_bytes(), sizes, None)) {
        Err(e) => fail!("refused when read in pieces of {:?} ({}): {}", sizes, e, clip(&t, 3000)),
        Ok(c) => ensure!(c == want, "read in pieces of {:?} it loads as {:?}, expected {:?} from {}", sizes, c, want, clip(&t, 3000)),
    }
    // entries and parameters on their own
    for (e, j) in es.iter().zip(&js) {
        let t = text(s, j);
        match e {
            Entry::Fun { ins, outs, .. } => {
                match serde_json::from_str::<Function>(&t) {
                    Err(e) => fail!("function refused ({}): {}", e, clip(&t, 2000)),
                    Ok(c) => ensure!(Some(&c) == fun(e).as_ref(), "function read as {:?} from {}", c, clip(&t, 2000)),
                }
                for p in ins.iter().chain(outs) {
                    let j = param_json(s, p, false, &y);
                    let t = text(s, &j);
                    match serde_json::from_str::<Param>(&t) {
                        Err(e) => fail!("parameter refused ({}): {}", e, clip(&t, 2000)),
                        Ok(c) => ensure!(c == param(p), "parameter read as {:?} from {}", c, clip(&t, 2000)),
                    }
                    match serde_json::from_str::<TupleParam>(&t) {
                        Err(e) => fail!("component refused ({}): {}", e, clip(&t, 2000)),
                        Ok(c) => ensure!(
                            c.name.as_ref() == Some(&p.name) && c.kind == to_param(&p.ty) && c.internal_type == p.internal,
                            "component read as {:?} from {}",
                            c,
                            clip(&t, 2000)
                        ),
                    }
                }
            }
            Entry::Ev { ins, .. } => {
                match serde_json::from_str::<Event>(&t) {
                    Err(e) => fail!("event refused ({}): {}", e, clip(&t, 2000)),
                    Ok(c) => ensure!(Some(&c) == event(e).as_ref(), "event read as {:?} from {}", c, clip(&t, 2000)),
                }
                for p in ins {
                    let j = param_json(s, p, true, &y);
                    let t = text(s, &j);
                    match serde_json::from_str::<EventParam>(&t) {
                        Err(e) => fail!("event parameter refused ({}): {}", e, clip(&t, 2000)),
                        Ok(c) => ensure!(c == event_param(p), "event parameter read as {:?} from {}", c, clip(&t, 2000)),
                    }
                }
            }
            Entry::Ctor { .. } => match serde_json::from_str::<Constructor>(&t) {
                Err(e) => fail!("constructor refused ({}): {}", e, clip(&t, 2000)),
                Ok(c) => ensure!(Some(&c) == ctor(e).as_ref(), "constructor read as {:?} from {}", c, clip(&t, 2000)),
            },
            _ => {}
        }
    }
    Ok(())
}

/// Repeated fallback and receive entries say the same thing once.
fn c09_repeated() -> Res {
    for (a, b) in [(1usize, 0usize), (0, 1), (1, 1), (2, 0), (0, 2), (2, 2), (3, 1), (1, 4), (5, 6)] {
        let mut es: Vec<Entry> = vec![];
        es.extend((0..a).map(|_| Entry::Fallback));
        es.extend((0..b).map(|_| Entry::Receive));
        let buf = expand(77, 400);
        let mut s = Src::new(&buf);
        for k in 0..4 {
            let n = es.len();
            es.rotate_left(k.min(n));
            c09_doc(&mut s, &mut Ctx::new(false), &es)?;
        }
    }
    Ok(())
}

fn c09_unknown_keys() -> Res {
    for t in [
        r#"{"name":"a","type":"bool","internalType":"bool","x":[1,{"y":null}]}"#,
        r#"{"x":"name","name":"a","type":"bool","internalType":"bool"}"#,
        r#"{"name":"a","x":{"type":"int"},"type":"bool","internalType":"bool"}"#,
    ] {
        let p: Param = serde_json::from_str(t).map_err(|e| crate::ctx::Failure::new(format!("{}: {}", t, e)))?;
        ensure!(p.name == "a" && p.kind == ethabi::ParamType::Bool && p.internal_type.as_deref() == Some("bool"), "{} read as {:?}", t, p);
        let p: EventParam = serde_json::from_str(t).map_err(|e| crate::ctx::Failure::new(format!("{}: {}", t, e)))?;
        ensure!(p.name == "a" && p.kind == ethabi::ParamType::Bool && !p.indexed, "{} read as {:?}", t, p);
        let p: TupleParam = serde_json::from_str(t).map_err(|e| crate::ctx::Failure::new(format!("{}: {}", t, e)))?;
        ensure!(p.name.as_deref() == Some("a") && p.kind == ethabi::ParamType::Bool, "{} read as {:?}", t, p);
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn norm(e: &Entry) -> Entry {
    // what the written form must say: every flag explicit, event internal types not kept
    match e.clone() {
        Entry::Fun { name, ins, outs, constant, mutability } => Entry::Fun {
            name,
            ins,
            outs,
            constant: Some(constant.unwrap_or(false)),
            mutability: Some(mutability.unwrap_or(ethabi::StateMutability::NonPayable)),
        },
        Entry::Ev { name, ins, anonymous } => {
            Entry::Ev { name, ins: ins.into_iter().map(|p| P { internal: None, ..p }).collect(), anonymous }
        }
        e => e,
    }
}

fn same_entry(a: &Entry, b: &Entry) -> bool {
    // a writer may leave out flags that have their default value
    norm(a) == norm(b)
}

fn c10(s: &mut Src, ctx: &mut Ctx) -> Res {
    let pool = s.bool();
    let es = gen_doc(s, 5, if pool { |s: &mut Src| s.pick(&["f", "g", "E", "F"]).to_string() } else { |s: &mut Src| cut(&gen_ident(s)) });
    c10_doc(s, ctx, &es)
}

fn c10_doc(s: &mut Src, ctx: &mut Ctx, es: &[Entry]) -> Res {
    let c = contract(es);
    ctx.nontrivial(has_params(es));
    entry_labels(ctx, es);
    ctx.label_if(c.functions.values().any(|v| v.len() > 1), "overloaded functions");
    ctx.label_if(c.events.values().any(|v| v.len() > 1), "overloaded events");
    let t = match s.below(2) {
        0 => serde_json::to_string(&c),
        _ => serde_json::to_string_pretty(&c),
    };
    let t = match t {
        Ok(t) => t,
        Err(e) => fail!("cannot be written: {} {:?}", e, c),
    };
    ctx.ident(&format!("{:?}", es));
    ctx.describe(|| clip(&t, 600));
    match load(&t) {
        Err(e) => fail!("written form refused ({}): {}", e, clip(&t, 3000)),
        Ok(d) => ensure!(c == d, "written and loaded back as {:?}, was {:?}; {}", d, c, clip(&t, 3000)),
    }
    match serde_json::to_value(&c).map(serde_json::from_value::<Contract>) {
        Ok(Ok(d)) => ensure!(c == d, "as a JSON value it comes back as {:?}, was {:?}", d, c),
        x => fail!("as a JSON value it comes back as {:?}, was {:?}", x, c),
    }
    // another reader
    let v: serde_json::Value = match serde_json::from_str(&t) {
        Ok(v) => v,
        Err(e) => fail!("written form is not JSON ({}): {}", e, clip(&t, 2000)),
    };
    let mut back = vec![];
    for e in v.as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
        match read_entry(e) {
            Ok(e) => back.push(e),
            Err(x) => fail!("another reader cannot read {}: {}", e, x),
        }
    }
    for kind in 0..5 {
        let group = |v: &[Entry]| -> Vec<(String, Entry)> {
            let mut g: Vec<(String, Entry)> = v
                .iter()
                .filter_map(|e| match (kind, e) {
                    (0, Entry::Fun { name, .. }) | (1, Entry::Ev { name, .. }) => Some((name.clone(), norm(e))),
                    (2, Entry::Ctor { .. }) | (3, Entry::Fallback) | (4, Entry::Receive) => Some((String::new(), norm(e))),
                    _ => None,
                })
                .collect();
            g.sort_by(|a, b| a.0.cmp(&b.0)); // stable: overloads keep their order
            g
        };
        let (a, b) = (group(es), group(&back));
        ensure!(a == b, "another reader sees {:?} instead of {:?} in {}", b, a, clip(&t, 3000));
    }
    // single entries and parameters
    for e in es {
        if let Some(f) = fun(e) {
            let t = serde_json::to_string(&f).unwrap_or_default();
            match serde_json::from_str::<Function>(&t) {
                Ok(g) => ensure!(g == f, "function {:?} comes back as {:?} from {}", f, g, t),
                Err(x) => fail!("function written as {} is refused: {}", t, x),
            }
            let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
            match read_fun(&v) {
                Ok(g) => ensure!(same_entry(&g, e), "another reader sees {:?} instead of {:?} in {}", g, e, t),
                Err(x) => fail!("another reader cannot read {}: {}", t, x),
            }
            for p in f.inputs.iter().chain(&f.outputs) {
                let t = serde_json::to_string(p).unwrap_or_default();
                match serde_json::from_str::<Param>(&t) {
                    Ok(g) => ensure!(g == *p, "parameter {:?} comes back as {:?} from {}", p, g, t),
                    Err(x) => fail!("parameter written as {} is refused: {}", t, x),
                }
                let tp = TupleParam {
                    name: if s.bool() { Some(p.name.clone()) } else { None },
                    kind: p.kind.clone(),
                    internal_type: p.internal_type.clone(),
                };
                let t = serde_json::to_string(&tp).unwrap_or_default();
                match serde_json::from_str::<TupleParam>(&t) {
                    Ok(g) => ensure!(g == tp, "component {:?} comes back as {:?} from {}", tp, g, t),
                    Err(x) => fail!("component written as {} is refused: {}", t, x),
                }
            }
        }
        if let Some(f) = event(e) {
            let t = serde_json::to_string(&f).unwrap_or_default();
            match serde_json::from_str::<Event>(&t) {
                Ok(g) => ensure!(g == f, "event {:?} comes back as {:?} from {}", f, g, t),
                Err(x) => fail!("event written as {} is refused: {}", t, x),
            }
            let v: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
            match read_ev(&v) {
                Ok(g) => ensure!(same_entry(&g, e), "another reader sees {:?} instead of {:?} in {}", g, e, t),
                Err(x) => fail!("another reader cannot read {}: {}", t, x),
            }
            for p in &f.inputs {
                let t = serde_json::to_string(p).unwrap_or_default();
                match serde_json::from_str::<EventParam>(&t) {
                    Ok(g) => ensure!(g == *p, "event parameter {:?} comes back as {:?} from {}", p, g, t),
                    Err(x) => fail!("event parameter written as {} is refused: {}", t, x),
                }
            }
        }
        if let Some(f) = ctor(e) {
            let t = serde_json::to_string(&f).unwrap_or_default();
            match serde_json::from_str::<Constructor>(&t) {
                Ok(g) => ensure!(g == f, "constructor {:?} comes back as {:?} from {}", f, g, t),
                Err(x) => fail!("constructor written as {} is refused: {}", t, x),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn field<'a>(o: &'a mut J, k: &str) -> Option<&'a mut J> {
    match o {
        J::Obj(v) => v.iter_mut().find(|(x, _)| x == k).map(|x| &mut x.1),
        _ => None,
    }
}
fn drop_field(o: &mut J, k: &str) -> bool {
    match o {
        J::Obj(v) => {
            let n = v.len();
            v.retain(|(x, _)| x != k);
            v.len() != n
        }
        _ => false,
    }
}

/// A JSON value of another kind than a string / boolean / array (as asked).
fn wrong(s: &mut Src, want: &str) -> J {
    let pool: Vec<J> = vec![
        J::Null,
        J::Num("1".into()),
        J::Num("-2.5".into()),
        J::Bool(true),
        st("text"),
        J::Arr(vec![J::Num("7".into())]),
        J::Obj(vec![("k".into(), J::Num("1".into()))]),
    ];
    let ok: Vec<J> = pool
        .into_iter()
        .filter(|j| match (want, j) {
            ("string", J::Str(_)) | ("bool", J::Bool(_)) => false,
            // an array of scalars is no parameter list either
            _ => true,
        })
        .collect();
    s.pick(&ok).clone()
}

/// A parameter object somewhere below an entry (components included), with whether it is a component.
fn pick_param<'a>(s: &mut Src, list: &'a mut J, comp: bool) -> Option<(&'a mut J, bool)> {
    let v = match list {
        J::Arr(v) if !v.is_empty() => v,
        _ => return None,
    };
    let i = s.below(v.len() as u64) as usize;
    let p = &mut v[i];
    let deeper = field(p, "components").is_some() && s.bool();
    if deeper {
        let has = matches!(field(p, "components"), Some(J::Arr(c)) if !c.is_empty());
        if has {
            return pick_param(s, field(p, "components").unwrap(), true);
        }
    }
    Some((p, comp))
}

const BAD_TYPES: &[&str] = &[
    "", "unit256", "uint256]", "[]", "uint[", "bool)", "(bool", "int256 ", "bool[][", "bool[x]", "bytes[-1]", "Address", "tuple(", "é", "]", "5]",
    "é[]", "(é)", "u", "addres", "uintt", "bytes 32", "bool[]x", "(bool)(bool)", "mapping", "uint256,bool", "bool[1][", "function", "tuple)", "string8",
];

/// A word that is none of `known`: one of `own`, or a text of the sources.
fn other_word(s: &mut Src, known: &[&str], own: &[&'static str]) -> &'static str {
    let d = s.dict_str();
    if s.chance(100) && !known.contains(&d) {
        d
    } else {
        *s.pick(own)
    }
}

/// Injects one fault; returns its name, or None if the entry has no place for it.
fn inject(s: &mut Src, e: &Entry, j: &mut J) -> Option<&'static str> {
    let kind = match e {
        Entry::Fun { .. } => 0,
        Entry::Ev { .. } => 1,
        Entry::Ctor { .. } => 2,
        _ => 3,
    };
    match s.weighted(&[2, 2, 3, 3, 6, 2, 2]) {
        0 => {
            // entry type
            match s.below(3) {
                0 => {
                    drop_field(j, "type");
                    Some("entry type missing")
                }
                1 => {
                    *field(j, "type")? = st(other_word(s, &["function", "event", "constructor", "fallback", "receive"], &["default", "Fallback", "Receive", "fallback ", "method", "view", "struct", "pure", "Constructor", "Function", "func", "", "error", "functions", "modifier", "library", "event ", "Event", "construct"]));
                    Some("entry type unknown")
                }
                _ => {
                    *field(j, "type")? = s.pick(&[J::Null, J::Bool(true), J::Num("1".into()), J::Arr(vec![]), J::Obj(vec![])]).clone();
                    Some("entry type of wrong JSON type")
                }
            }
        }
        1 => {
            *j = s.pick(&[J::Null, J::Bool(false), J::Num("3".into()), st("fallback"), st("function")]).clone();
            Some("entry is a scalar")
        }
        2 => {
            let req: &[&str] = match kind {
                0 => &["name", "inputs", "outputs"],
                1 => &["name", "inputs", "anonymous"],
                2 => &["inputs"],
                _ => return None,
            };
            drop_field(j, s.pick(req));
            Some("required member missing")
        }
        3 => {
            let m: &[(&str, &str)] = match kind {
                0 => &[("name", "string"), ("inputs", "list"), ("outputs", "list"), ("constant", "bool"), ("stateMutability", "string")],
                1 => &[("name", "string"), ("inputs", "list"), ("anonymous", "bool")],
                2 => &[("inputs", "list")],
                _ => return None,
            };
            let (k, w) = *s.pick(m);
            let v = wrong(s, w);
            match field(j, k) {
                Some(x) => *x = v,
                None => {
                    if let J::Obj(o) = j {
                        o.push((k.to_string(), v))
                    }
                }
            }
            Some("member of wrong JSON type")
        }
        4 => {
            let lists: &[&str] = match kind {
                0 => &["inputs", "outputs"],
                1 | 2 => &["inputs"],
                _ => return None,
            };
            let l = *s.pick(lists);
            let (p, comp) = pick_param(s, field(j, l)?, false)?;
            match s.weighted(&[2, 2, 2, 3, 3, 2, 2]) {
                0 => {
                    if comp {
                        return None; // component names are optional
                    }
                    drop_field(p, "name");
                    Some("parameter name missing")
                }
                1 => {
                    drop_field(p, "type");
                    Some("parameter type missing")
                }
                2 => {
                    if drop_field(p, "components") {
                        Some("components missing")
                    } else {
                        let suffix = *s.pick(&["", "[]", "[3]", "[2][]"]);
                        *field(p, "type")? = st(format!("tuple{}", suffix));
                        Some("components missing")
                    }
                }
                3 => {
                    let d = s.dict_str();
                    let t = if s.chance(80) && !d.starts_with("tuple") && super::types::recognise(d) == super::types::Rec::Bad { d } else { *s.pick(BAD_TYPES) };
                    *field(p, "type")? = st(t);
                    Some("invalid type name")
                }
                4 => {
                    let mut ks = vec!["name", "type", "components"];
                    if kind == 1 && !comp {
                        ks.push("indexed");
                    } else {
                        ks.push("internalType");
                    }
                    let ks: Vec<&str> = ks.into_iter().filter(|k| field(p, k).is_some()).collect();
                    let k = *s.pick(&ks);
                    let v = field(p, k)?.clone();
                    if let J::Obj(o) = p {
                        let i = s.below(o.len() as u64 + 1) as usize;
                        o.insert(i, (k.to_string(), v));
                    }
                    Some("parameter member twice")
                }
                5 => {
                    let mut ks = vec![("name", "string"), ("type", "string"), ("components", "list")];
                    if kind == 1 && !comp {
                        ks.push(("indexed", "bool"));
                    } else {
                        ks.push(("internalType", "string"));
                    }
                    if comp {
                        // an absent component name may be written as null
                        ks.remove(0);
                    }
                    let (k, w) = *s.pick(&ks);
                    let mut v = wrong(s, w);
                    if v == J::Null {
                        v = J::Num("5".into());
                    }
                    match field(p, k) {
                        Some(x) => *x = v,
                        None => {
                            if let J::Obj(o) = p {
                                o.push((k.to_string(), v))
                            }
                        }
                    }
                    Some("parameter member of wrong JSON type")
                }
                _ => {
                    *p = s.pick(&[J::Null, J::Bool(true), J::Num("1".into()), st("bool")]).clone();
                    Some("parameter is a scalar")
                }
            }
        }
        5 => {
            if kind != 0 {
                return None;
            }
            let v = st(other_word(s, &["pure", "view", "payable", "nonpayable"], &["non_payable", "Payable", "NonPayable", "views", "Pure", "VIEW", "", "non-payable", "constant", "payable ", "nonPayable", "external", "none"]));
            match field(j, "stateMutability") {
                Some(x) => *x = v,
                None => {
                    if let J::Obj(o) = j {
                        o.push(("stateMutability".into(), v))
                    }
                }
            }
            Some("unknown state mutability")
        }
        _ => None,
    }
}

fn survives(t: &[u8], ctx: &mut Ctx) -> Res {
    if let Ok(c) = Contract::load(t) {
        ctx.label("accepted");
        let w = match serde_json::to_string(&c) {
            Ok(w) => w,
            Err(e) => fail!("accepted {} cannot be written: {}", clip(&String::from_utf8_lossy(t), 2000), e),
        };
        match load(&w) {
            Ok(d) => ensure!(c == d, "accepted {} as {:?}; written as {} and loaded as {:?}", clip(&String::from_utf8_lossy(t), 2000), c, w, d),
            Err(e) => fail!("accepted {}; its written form {} is refused: {}", clip(&String::from_utf8_lossy(t), 2000), w, e),
        }
    }
    Ok(())
}

fn c11(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.weighted(&[6, 1, 3, 1]) {
        0 => {
            let mut es = gen_doc(s, 3, |s| cut(&gen_ident(s)));
            if es.is_empty() {
                es.push(gen_entry(s, |s| cut(&gen_ident(s))));
            }
            let y = Style { extras: false, alias: true, suffix_names: false };
            let mut js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
            let i = s.below(js.len() as u64) as usize;
            let mut what = inject(s, &es[i], &mut js[i]);
            if what.is_none() {
                drop_field(&mut js[i], "type");
                what = Some("entry type missing");
            }
            let what = what.unwrap();
            ctx.label(what);
            ctx.nontrivial(true);
            let t = text(s, &J::Arr(js));
            ctx.ident(&t);
            ctx.describe(|| format!("{}: {}", what, t));
            ensure!(load(&t).is_err(), "accepted although {}: {}", what, clip(&t, 3000));
            ensure!(serde_json::from_str::<Contract>(&t).is_err(), "from_str accepts although {}: {}", what, clip(&t, 3000));
            Ok(())
        }
        1 => {
            // not an array of entries at all
            let es = gen_doc(s, 2, |s| cut(&gen_ident(s)));
            let y = Style { extras: false, alias: false, suffix_names: false };
            let js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
            let t = match s.below(7) {
                0 => plain(&J::Obj(vec![("abi".into(), J::Arr(js))])),
                1 => plain(&s.pick(&[J::Null, J::Bool(true), J::Num("4".into()), st("[]"), J::Obj(vec![])]).clone()),
                2 => {
                    let mut t = plain(&J::Arr(js));
                    t.push_str(*s.pick(&["x", "[]", ",", "]", "}", "{}", "\"", "null", "0"]));
                    t
                }
                3 => {
                    let t = plain(&J::Arr(js));
                    let n = s.below(t.chars().count() as u64) as usize;
                    t.chars().take(n).collect()
                }
                4 => plain(js.first().unwrap_or(&J::Null)),
                5 => {
                    let t = plain(&J::Arr(js));
                    format!("{}{}", s.pick(&["x", ",", "]", "\u{feff}", "}"]), t)
                }
                _ => String::new(),
            };
            ctx.label("not a JSON array of entries");
            ctx.nontrivial(true);
            ctx.ident(&t);
            ctx.describe(|| t.clone());
            ensure!(load(&t).is_err(), "accepted {}", clip(&t, 2000));
            Ok(())
        }
        2 => {
            // free text edits: no panic, and what is accepted survives
            let es = gen_doc(s, 2, |s| cut(&gen_ident(s)));
            let y = Style { extras: true, alias: true, suffix_names: true };
            let js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
            let mut t = text(s, &J::Arr(js)).into_bytes();
            let k = s.range(1, 4);
            for _ in 0..k {
                let i = s.below(t.len() as u64 + 1) as usize;
                match s.weighted(&[2, 2, 2, 2]) {
                    0 if i < t.len() => {
                        t[i] = s.u8();
                    }
                    1 => {
                        let w: &[u8] = s.pick(&[
                            &b"\""[..], b",", b"[", b"]", b"{", b"}", b":", b"null", b"tuple", b"[]", b"()", b"\\u0000", b"\xff", b"(", b")", b"name",
                        ]);
                        t.splice(i..i, w.iter().copied());
                    }
                    2 if i < t.len() => {
                        t.remove(i);
                    }
                    _ => {
                        let j = (i + s.below(30) as usize).min(t.len());
                        t.drain(i.min(j)..j);
                    }
                }
            }
            ctx.label("edited text");
            ctx.nontrivial(true);
            ctx.ident(&t);
            ctx.describe(|| String::from_utf8_lossy(&t).into_owned());
            survives(&t, ctx)
        }
        _ => {
            // tokens of the format in any order
            const W: &[&str] = &[
                "[", "]", "{", "}", ",", ":", "\"type\"", "\"function\"", "\"event\"", "\"constructor\"", "\"fallback\"", "\"name\"", "\"inputs\"",
                "\"outputs\"", "\"anonymous\"", "\"components\"", "\"tuple\"", "\"tuple[]\"", "\"bool\"", "\"]\"", "\"é[]\"", "true", "null", "1", "[]", "{}",
                "{\"type\":\"fallback\"}", "{\"type\":\"constructor\",\"inputs\":[", "{\"name\":\"a\",\"type\":\"", "uint256", "\"}", "]}",
            ];
            let n = s.below(20);
            let mut t = String::from(if s.bool() { "[" } else { "" });
            for _ in 0..n {
                t.push_str(s.pick(W));
            }
            if s.bool() {
                t.push(']');
            }
            ctx.label("token soup");
            ctx.ident(&t);
            ctx.nontrivial(n > 2);
            ctx.describe(|| t.clone());
            survives(t.as_bytes(), ctx)
        }
    }
}

fn c11_types() -> Res {
    for t in BAD_TYPES {
        let j = J::Obj(vec![("name".into(), st("a")), ("type".into(), st(*t)), ("components".into(), J::Arr(vec![]))]);
        let e = J::Arr(vec![J::Obj(vec![("type".into(), st("constructor")), ("inputs".into(), J::Arr(vec![j]))])]);
        let x = plain(&e);
        ensure!(load(&x).is_err(), "accepted {}", x);
    }
    Ok(())
}

fn ctor_doc(param: String) -> String {
    format!("[{{\"type\":\"constructor\",\"inputs\":[{}]}}]", param)
}

/// Types nested far too deep, in text and in components: no crash, and what is accepted survives.
fn c11_too_deep() -> Res {
    for n in [10usize, 29, 30, 31, 58, 59, 60, 61, 62, 63, 64, 65, 100, 128, 1000, 10_000, 100_000] {
        for k in 0..9 {
            let nest = |n: usize, suffix: &str, leaf: &str| {
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(&format!("{{\"name\":\"a\",\"type\":\"tuple{}\",\"components\":[", suffix));
                }
                t.push_str(&format!("{{\"name\":\"a\",\"type\":\"{}\"}}", leaf));
                t.push_str(&"]}".repeat(n));
                t
            };
            let leaf = |t: String| format!("{{\"name\":\"a\",\"type\":\"{}\"}}", t);
            let p = match k {
                0 => leaf(format!("bool{}", "[]".repeat(n))),
                1 => leaf(format!("{}bool{}", "(".repeat(n), ")".repeat(n))),
                2 => nest(n, "", "bool"),
                3 => nest(n, "[]", "bool"),
                4 => nest(n / 2, "[][2]", &format!("bool{}", "[]".repeat(n / 2))),
                5 => nest(20, "[]", &format!("uint8{}", "[3]".repeat(n))),
                6 => nest(3, &"[]".repeat(n), "string"),
                7 => nest(50, "", &format!("{}bool{}", "(".repeat(n), ")".repeat(n))),
                _ => "[".repeat(n),
            };
            let doc = ctor_doc(p);
            let r = crate::runner::on_plain_stack(move || survives(doc.as_bytes(), &mut Ctx::new(false)));
            if let Err(e) = r {
                fail!("depth {} shape {}: {}", n, k, clip(&e.msg, 800));
            }
        }
    }
    Ok(())
}

/// Input that cannot be read to its end is refused, wherever it breaks.
fn c11_broken() -> Res {
    for seed in 0..40u64 {
        let buf = expand(seed, 900);
        let mut s = Src::new(&buf);
        let es = gen_doc(&mut s, 3, |s| cut(&gen_ident(s)));
        let y = Style { extras: true, alias: true, suffix_names: true };
        let js: Vec<J> = es.iter().map(|e| entry_json(&mut s, e, &y)).collect();
        let t = plain(&J::Arr(js));
        for at in 0..=t.len() {
            if t.len() > 400 && at % 13 != 0 && at != t.len() && at + 1 != t.len() {
                continue;
            }
            let sizes = [seed as u8, 3, 200, 0];
            ensure!(
                Contract::load(Trickle::new(t.as_bytes(), sizes, Some(at))).is_err(),
                "accepted although reading fails after {} of {} bytes: {}",
                at,
                t.len(),
                clip(&t, 1000)
            );
            if at < t.len() {
                ensure!(Contract::load(Trickle::new(&t.as_bytes()[..at], sizes, None)).is_err(), "accepted although cut to {} bytes: {}", at, clip(&t, 1000));
            }
        }
    }
    Ok(())
}

/// One fault in a late entry, a late parameter or a deep component of a large document.
fn c11_giants() -> Res {
    for n in crate::dict::with(&[8, 16, 33, 64, 100, 128, 256, 300], 4, 600) {
        for at in [0, 1, n / 2, n - 2, n - 1] {
            for k in 0..6 {
                let fault = match k {
                    0 => "{\"type\":\"bool\"}".to_string(),
                    1 => "{\"name\":\"a\"}".to_string(),
                    2 => "{\"name\":\"a\",\"type\":\"tuple\"}".to_string(),
                    3 => "{\"name\":\"a\",\"type\":\"boole\"}".to_string(),
                    4 => "{\"name\":\"a\",\"name\":\"a\",\"type\":\"bool\"}".to_string(),
                    _ => "{\"name\":\"a\",\"type\":5}".to_string(),
                };
                let good = "{\"name\":\"a\",\"type\":\"bool\"}";
                let list = |bad: &str| (0..n).map(|i| if i == at { bad } else { good }).collect::<Vec<_>>().join(",");
                let inputs = |p: &str| format!("{{\"type\":\"function\",\"name\":\"f\",\"inputs\":[{}],\"outputs\":[]}}", p);
                let event = |p: &str| format!("{{\"type\":\"event\",\"name\":\"f\",\"inputs\":[{}],\"anonymous\":false}}", p);
                let outputs = |p: &str| format!("{{\"type\":\"function\",\"name\":\"f\",\"inputs\":[],\"outputs\":[{}]}}", p);
                let fns = |bad: &str| (0..n).map(|i| inputs(if i == at { bad } else { good })).collect::<Vec<_>>().join(",");
                let deep = |bad: &str| {
                    let mut p = bad.to_string();
                    for i in 0..at.min(50) {
                        p = format!("{{\"name\":\"a\",\"type\":\"tuple{}\",\"components\":[{},{}]}}", if i % 6 == 5 { "[]" } else { "" }, good, p);
                    }
                    inputs(&p)
                };
                // a missing component name is not a fault
                for (what, d, ok) in [
                    ("in inputs", inputs(&list(&fault)), inputs(&list(good))),
                    ("in outputs", outputs(&list(&fault)), outputs(&list(good))),
                    ("in event inputs", event(&list(&fault)), event(&list(good))),
                    ("in one function", fns(&fault), fns(good)),
                    ("in components", deep(if k == 0 { "{\"name\":\"a\",\"type\":\"(\"}" } else { &fault }), deep(good)),
                ] {
                    let d = format!("[{}]", d);
                    ensure!(load(&d).is_err(), "{} {} of {} is accepted: {}", fault, what, n, clip(&d, 1500));
                    let ok = format!("[{}]", ok);
                    if let Err(e) = load(&ok) {
                        fail!("refused ({}): {}", e, clip(&ok, 1500));
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12(s: &mut Src, ctx: &mut Ctx) -> Res {
    const POOL: &[&str] = &["f", "g", "F", "transfer", "Transfer", "", "é", "f1"];
    let es = gen_doc(s, 9, |s| s.pick(POOL).to_string());
    c12_doc(s, ctx, &es, POOL)
}

fn c12_doc(s: &mut Src, ctx: &mut Ctx, es: &[Entry], pool: &[&str]) -> Res {
    let direct = s.bool();
    let c = if direct {
        contract(es)
    } else {
        let y = Style { extras: false, alias: false, suffix_names: true };
        let js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
        let t = plain(&J::Arr(js));
        match load(&t) {
            Ok(c) => c,
            Err(e) => fail!("refused ({}): {}", e, clip(&t, 2000)),
        }
    };
    ctx.ident(&format!("{:?}", es));
    ctx.describe(|| {
        es.iter()
            .map(|e| match e {
                Entry::Fun { name, ins, .. } => format!("fn {}/{}", name, ins.len()),
                Entry::Ev { name, ins, .. } => format!("ev {}/{}", name, ins.len()),
                e => format!("{:?}", e).chars().take(12).collect(),
            })
            .collect::<Vec<_>>()
            .join(" ")
    });
    let mut over = false;
    for n in pool.iter().copied().chain(["missing", "F ", "f(", "transfer(address,uint256)"]) {
        let fs: Vec<Function> = es.iter().filter_map(fun).filter(|f| f.name == n).collect();
        let ev: Vec<Event> = es.iter().filter_map(event).filter(|f| f.name == n).collect();
        over |= fs.len() > 1 || ev.len() > 1;
        match (c.functions_by_name(n), fs.is_empty()) {
            (Ok(g), false) => ensure!(*g == fs, "functions_by_name({:?}) gives {:?} instead of {:?}", n, g, fs),
            (Err(Error::InvalidName(m)), true) => ensure!(m == n, "error for {:?} names {:?}", n, m),
            (g, _) => fail!("functions_by_name({:?}) gives {:?}, declared {:?}", n, g, fs),
        }
        match (c.function(n), fs.first()) {
            (Ok(g), Some(f)) => ensure!(g == f, "function({:?}) gives {:?} instead of {:?}", n, g, f),
            (Err(Error::InvalidName(m)), None) => ensure!(m == n, "error for {:?} names {:?}", n, m),
            (g, f) => fail!("function({:?}) gives {:?}, declared {:?}", n, g, f),
        }
        match (c.events_by_name(n), ev.is_empty()) {
            (Ok(g), false) => ensure!(*g == ev, "events_by_name({:?}) gives {:?} instead of {:?}", n, g, ev),
            (Err(Error::InvalidName(m)), true) => ensure!(m == n, "error for {:?} names {:?}", n, m),
            (g, _) => fail!("events_by_name({:?}) gives {:?}, declared {:?}", n, g, ev),
        }
        match (c.event(n), ev.first()) {
            (Ok(g), Some(f)) => ensure!(g == f, "event({:?}) gives {:?} instead of {:?}", n, g, f),
            (Err(Error::InvalidName(m)), None) => ensure!(m == n, "error for {:?} names {:?}", n, m),
            (g, f) => fail!("event({:?}) gives {:?}, declared {:?}", n, g, f),
        }
    }
    ctx.nontrivial(over);
    ctx.label_if(over, "overloads");
    // iteration: every declared entry exactly once
    let key = |f: &Function| format!("{:?}", f);
    let mut a: Vec<String> = es.iter().filter_map(fun).map(|f| key(&f)).collect();
    let mut b: Vec<String> = c.functions().map(key).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "functions() visits {:?} instead of {:?}", b, a);
    let key = |f: &Event| format!("{:?}", f);
    let mut a: Vec<String> = es.iter().filter_map(event).map(|f| key(&f)).collect();
    let mut b: Vec<String> = c.events().map(key).collect();
    a.sort();
    b.sort();
    ensure!(a == b, "events() visits {:?} instead of {:?}", b, a);
    let want = es.iter().filter_map(ctor).next();
    ensure!(c.constructor() == want.as_ref(), "constructor() gives {:?} instead of {:?}", c.constructor(), want);
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        rule: "documents of generated entries written by an independent JSON writer with shuffled keys, spacing, escapes, int/uint aliases, unknown extra keys with nested values and name suffixes from '('; the loaded contract, each entry and each parameter on its own are compared with the described one. Non-trivial: at least one parameter. Distinct by document text.",
        quick: 1_500_000,
        thorough: 20_000_000,
        max_len: 2200,
        check: c09,
        fixed: &[("unknown-keys", c09_unknown_keys), ("repeated", c09_repeated), ("big", c09_big)],
        assumptions: &["at most one constructor entry; tuple types are written with the keyword and components"],
    },
    Prop {
        id: "C10",
        rule: "generated contracts (overloads, nested tuple types, all flags) written with serde_json, loaded back, and read by an independent JSON ABI reader; the same for single entries and parameters. Non-trivial: at least one parameter. Distinct by contract.",
        quick: 1_500_000,
        thorough: 20_000_000,
        max_len: 2000,
        check: c10,
        fixed: &[("big", c10_big)],
        assumptions: &["names contain no '('"],
    },
    Prop {
        id: "C11",
        rule: "valid documents with exactly one injected fault from the property's list (must be refused), non-documents, edited text and token soup (must not panic; what is accepted must survive writing and loading). Non-trivial: every case except token soup of up to two tokens. Distinct by text.",
        quick: 6_000_000,
        thorough: 80_000_000,
        max_len: 1500,
        check: c11,
        fixed: &[("bad-types", c11_types), ("too-deep", c11_too_deep), ("broken-input", c11_broken), ("faulty-giants", c11_giants)],
        assumptions: &["serde's positional array form of an entry is neither required nor forbidden"],
    },
    Prop {
        id: "C12",
        rule: "contracts of up to 12 entries with names from an 8-name pool, built directly or loaded, queried by all names of the pool and undeclared ones. Non-trivial: some name is declared at least twice. Distinct by entries.",
        quick: 1_800_000,
        thorough: 24_000_000,
        max_len: 2000,
        check: c12,
        fixed: &[("big", c12_big)],
        assumptions: &[],
    },
];
