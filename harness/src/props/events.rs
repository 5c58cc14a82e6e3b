//! C13-C16: event logs, filters and topics.

use crate::ctx::{clip, hex, hexclip, Ctx, Res};
use crate::model::*;
use crate::props::codec::mutate;
use crate::runner::Prop;
use crate::src::{expand, Src};
use crate::{ensure, fail};
use ethabi::{Event, EventParam, Hash, RawLog, RawTopicFilter, Token, Topic, TopicFilter};

#[derive(Clone, Debug)]
pub struct Ev {
    pub name: String,
    pub anonymous: bool,
    /// name, type, indexed
    pub ins: Vec<(String, Ty, bool)>,
}

impl Ev {
    pub fn tys(&self) -> Vec<Ty> {
        self.ins.iter().map(|p| p.1.clone()).collect()
    }
    pub fn sig(&self) -> [u8; 32] {
        topic0(&self.name, &self.tys())
    }
    pub fn event(&self) -> Event {
        Event {
            name: self.name.clone(),
            inputs: self
                .ins
                .iter()
                .map(|(n, t, i)| EventParam { name: n.clone(), kind: to_param(t), indexed: *i })
                .collect(),
            anonymous: self.anonymous,
        }
    }
    pub fn show(&self) -> String {
        format!(
            "{}({}){}",
            self.name,
            self.ins
                .iter()
                .map(|(n, t, i)| format!("{}{} {:?}", name(t), if *i { " indexed" } else { "" }, n))
                .collect::<Vec<_>>()
                .join(", "),
            if self.anonymous { " anonymous" } else { "" }
        )
    }
    pub fn indexed(&self) -> Vec<Ty> {
        self.ins.iter().filter(|p| p.2).map(|p| p.1.clone()).collect()
    }
    pub fn plain(&self) -> Vec<Ty> {
        self.ins.iter().filter(|p| !p.2).map(|p| p.1.clone()).collect()
    }
    /// The log an EVM contract emits.
    pub fn emit(&self, vals: &[Val]) -> (Vec<[u8; 32]>, Vec<u8>) {
        let mut topics = vec![];
        if !self.anonymous {
            topics.push(self.sig());
        }
        let mut plain = vec![];
        for ((_, _, i), v) in self.ins.iter().zip(vals) {
            if *i {
                topics.push(topic_of(v));
            } else {
                plain.push(v.clone());
            }
        }
        (topics, ref_encode(&self.plain(), &plain).bytes)
    }
    /// What decoding an emitted log returns.
    pub fn expected(&self, vals: &[Val]) -> Vec<(String, Val)> {
        self.ins
            .iter()
            .zip(vals)
            .map(|((n, _, i), v)| (n.clone(), if *i { topic_value(v) } else { v.clone() }))
            .collect()
    }
    /// Reference log decoder. None: refused. Some(Err): undecided (too much work).
    pub fn decode(&self, topics: &[[u8; 32]], data: &[u8]) -> Result<Vec<(String, Val)>, DecErr> {
        let mut topics = topics;
        if !self.anonymous {
            match topics.split_first() {
                Some((t, rest)) if *t == self.sig() => topics = rest,
                _ => return Err(DecErr::Invalid),
            }
        }
        if topics.len() != self.indexed().len() {
            return Err(DecErr::Invalid);
        }
        let mut ti = topics.iter();
        let mut di = ref_decode(&self.plain(), data, 60_000)?.into_iter();
        let mut out = vec![];
        for (n, t, i) in &self.ins {
            let v = if *i {
                let w = ti.next().unwrap();
                let t = if hashed_topic(t) { Ty::FixedBytes(32) } else { t.clone() };
                ref_decode(&[t], w, 10)?.pop().unwrap()
            } else {
                di.next().unwrap()
            };
            out.push((n.clone(), v));
        }
        Ok(out)
    }
}

fn gen_pname(s: &mut Src) -> String {
    match s.weighted(&[8, 10, 2, 1]) {
        3 => s.dict_str().to_string(),
        0 => String::new(),
        1 => s.pick(&["a", "b", "from", "to", "value", "c", "A", "_a"]).to_string(),
        _ => s.pick(&["été", "a b", "名", "\"", "0"]).to_string(),
    }
}

pub fn gen_event(s: &mut Src, max: u64, cap: usize) -> Ev {
    let cfg = TyCfg { depth: 3, cap, tuples: true, dynamic: true };
    let tys = gen_tys(s, cfg, max);
    let anonymous = s.chance(80);
    let mut left = if anonymous { 4 } else { 3 };
    let ins = tys
        .into_iter()
        .map(|t| {
            let i = left > 0 && s.chance(120);
            if i {
                left -= 1;
            }
            (gen_pname(s), t, i)
        })
        .collect();
    Ev { name: s.pick(&["E", "Transfer", "e", "Été", "LongerEventName"]).to_string(), anonymous, ins }
}

pub fn raw(topics: &[[u8; 32]], data: &[u8]) -> RawLog {
    RawLog { topics: topics.iter().map(|t| Hash::from(*t)).collect(), data: data.to_vec() }
}

fn show_log(topics: &[[u8; 32]], data: &[u8]) -> String {
    format!("topics=[{}] data={}", topics.iter().map(|t| hex(t)).collect::<Vec<_>>().join(","), hexclip(data))
}

fn show_params(p: &[(String, Val)]) -> String {
    clip(&p.iter().map(|(n, v)| format!("{:?}={:?}", n, to_token(v))).collect::<Vec<_>>().join(" "), 600)
}

fn event_labels(e: &Ev, ctx: &mut Ctx) {
    ctx.label_if(e.anonymous, "anonymous");
    ctx.label_if(e.ins.iter().any(|p| p.2 && hashed_topic(&p.1)), "hashed indexed parameter");
    let mut ns: Vec<&String> = e.ins.iter().map(|p| &p.0).collect();
    let n = ns.len();
    ns.sort();
    ns.dedup();
    ctx.label_if(ns.len() < n, "equal names");
    ctx.label_if(e.ins.iter().any(|p| !p.2 && dynamic(&p.1)), "dynamic data");
    let first_plain = e.ins.iter().position(|p| !p.2);
    let last_idx = e.ins.iter().rposition(|p| p.2);
    ctx.label_if(matches!((first_plain, last_idx), (Some(a), Some(b)) if a < b), "indexed after plain");
}

fn got(e: &Ev, topics: &[[u8; 32]], data: &[u8]) -> Result<Vec<(String, Val)>, String> {
    match e.event().parse_log(raw(topics, data)) {
        Ok(l) => Ok(l.params.iter().map(|p| (p.name.clone(), from_token(&p.value))).collect()),
        Err(x) => Err(format!("{:?}", x)),
    }
}

// ---------------------------------------------------------------- C13

fn c13(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_event(s, 6, 12);
    let vals = gen_vals(s, &e.tys(), 40);
    let (topics, data) = e.emit(&vals);
    ctx.nontrivial(e.ins.len() >= 2);
    event_labels(&e, ctx);
    ctx.ident(&(e.show(), show_log(&topics, &data)));
    ctx.describe(|| format!("{} with {}", e.show(), show_vals(&vals)));
    let want = e.expected(&vals);
    match got(&e, &topics, &data) {
        Ok(g) => ensure!(
            g == want,
            "event {} log {}: got {} instead of {}",
            e.show(),
            show_log(&topics, &data),
            show_params(&g),
            show_params(&want)
        ),
        Err(x) => fail!("event {} log {}: refused with {}", e.show(), show_log(&topics, &data), x),
    }
    Ok(())
}

fn c13_names() -> Res {
    // every assignment of two names to up to five parameters, every indexed pattern
    for n in 1..=5usize {
        for idx in 0..1u32 << n {
            if idx.count_ones() > 3 {
                continue;
            }
            for nm in 0..1u32 << n {
                let e = Ev {
                    name: "E".into(),
                    anonymous: false,
                    ins: (0..n)
                        .map(|i| {
                            (
                                if nm >> i & 1 == 1 { "a".to_string() } else { String::new() },
                                if i % 2 == 0 { Ty::Uint(256) } else { Ty::Bool },
                                idx >> i & 1 == 1,
                            )
                        })
                        .collect(),
                };
                let vals: Vec<Val> = (0..n)
                    .map(|i| {
                        if i % 2 == 0 {
                            let mut w = [0u8; 32];
                            w[31] = 10 + i as u8;
                            Val::Uint(w)
                        } else {
                            Val::Bool(i == 1)
                        }
                    })
                    .collect();
                let (t, d) = e.emit(&vals);
                let want = e.expected(&vals);
                match got(&e, &t, &d) {
                    Ok(g) => ensure!(g == want, "event {}: got {} instead of {}", e.show(), show_params(&g), show_params(&want)),
                    Err(x) => fail!("event {}: refused with {}", e.show(), x),
                }
            }
        }
    }
    Ok(())
}

/// Events with extreme parameter lists; up to three parameters indexed, at varying places.
fn extreme_events(mut f: impl FnMut(&Ev, &[Val]) -> Res) -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let n = ts.len();
        for k in 0..3usize {
            let at: Vec<usize> = match k {
                0 => vec![],
                1 => vec![n / 2],
                _ => vec![0, n - 1, (n / 3).max(1)],
            };
            let ins = ts
                .iter()
                .enumerate()
                .map(|(j, t)| (if (i + k) % 3 == 0 { String::new() } else { format!("p{}", j % 7) }, t.clone(), at.contains(&j)))
                .collect();
            let e = Ev { name: ["E", "LongerEventName"][i % 2].to_string(), anonymous: (i / 2 + k) % 4 == 0, ins };
            f(&e, &full_vals(ts, i as u64))?;
        }
    }
    // long contents in every place
    for n in crate::dict::with(&[31, 32, 33, 55, 56, 64, 100, 127, 128, 135, 136, 137, 200, 255, 256, 257, 271, 272, 273, 1000, 1024, 4096, 65_535, 65_536, 70_000, 1_100_000], 31, 300_000) {
        for k in 0..if n > 100_000 { 4 } else { 6 } {
            let b = expand(n as u64, n);
            let text: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
            let w = |x: &u8| Val::Uint([*x; 32]);
            let (t, v) = match k {
                0 => (Ty::Bytes, Val::Bytes(b)),
                1 => (Ty::Str, Val::Str(text)),
                2 => (Ty::Array(Box::new(Ty::Bytes)), Val::Array(vec![Val::Bytes(b.clone()), Val::Bytes(vec![]), Val::Bytes(b)])),
                3 => (Ty::Tuple(vec![Ty::Str, Ty::Bool]), Val::Tuple(vec![Val::Str(text), Val::Bool(true)])),
                4 => (Ty::Array(Box::new(Ty::Uint(256))), Val::Array(b[..n.min(1024)].iter().map(w).collect())),
                _ => (Ty::FixedArray(Box::new(Ty::Uint(8)), n.min(300)), Val::FixedArray(b[..n.min(300)].iter().map(w).collect())),
            };
            for idx in [false, true] {
                let e = Ev {
                    name: "E".into(),
                    anonymous: false,
                    ins: vec![("a".into(), Ty::Bool, true), ("b".into(), t.clone(), idx), ("c".into(), t.clone(), !idx), ("d".into(), Ty::Address, false)],
                };
                f(&e, &[Val::Bool(true), v.clone(), v.clone(), Val::Address([7; 20])])?;
            }
        }
    }
    Ok(())
}

fn c13_one(e: &Ev, vals: &[Val]) -> Res {
    let (topics, data) = e.emit(vals);
    let want = e.expected(vals);
    match got(e, &topics, &data) {
        Ok(g) => ensure!(g == want, "event {}: got {} instead of {}", clip(&e.show(), 600), show_params(&g), show_params(&want)),
        Err(x) => fail!("event {} log {}: refused with {}", clip(&e.show(), 600), clip(&show_log(&topics, &data), 600), x),
    }
    Ok(())
}
fn c13_extremes() -> Res {
    extreme_events(c13_one)
}
fn c14_extremes() -> Res {
    extreme_events(|e, vals| {
        let (topics, data) = e.emit(vals);
        let refused = |t: &[[u8; 32]], d: &[u8], what: &str| -> Res {
            match e.decode(t, d) {
                Err(DecErr::TooMuch) => Ok(()),
                Ok(w) => match got(e, t, d) {
                    Ok(g) if w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| a.0 == b.0 && matches(&a.1, &b.1)) => Ok(()),
                    Err(_) if w.iter().any(|p| has_anybool(&p.1)) => Ok(()),
                    g => fail!("event {}, log {}: {} instead of {}", clip(&e.show(), 600), what, clip(&format!("{:?}", g), 400), show_params(&w)),
                },
                Err(_) => {
                    ensure!(got(e, t, d).is_err(), "event {}, log {}: accepted", clip(&e.show(), 600), what);
                    Ok(())
                }
            }
        };
        for i in 0..topics.len() {
            let mut t = topics.clone();
            t[i][31] ^= 1;
            refused(&t, &data, "with a changed topic")?;
            let mut t = topics.clone();
            t[i][0] ^= 0x80;
            refused(&t, &data, "with a changed topic")?;
            let mut t = topics.clone();
            t.remove(i);
            refused(&t, &data, "without a topic")?;
        }
        let mut t = topics.clone();
        t.push([3; 32]);
        refused(&t, &data, "with another topic")?;
        if !data.is_empty() {
            refused(&topics, &data[..data.len() - 1], "with the last data byte cut")?;
            refused(&topics, &data[..data.len() - 32], "with the last data word cut")?;
            refused(&topics, &[], "without data")?;
            let n = data.len() / 32;
            for k in [0, n / 3, n / 2, n - 1] {
                let mut d = data.clone();
                d[32 * k + 31] ^= 1;
                refused(&topics, &d, "with a changed data word")?;
                d[32 * k + 2] ^= 1;
                refused(&topics, &d, "with a changed data word")?;
            }
        }
        Ok(())
    })
}
fn c15_extremes() -> Res {
    extreme_events(|e, vals| {
        let iv: Vec<Val> = e.ins.iter().zip(vals).filter(|p| p.0 .2).map(|p| p.1.clone()).collect();
        let it = e.indexed();
        for k in 0..4usize {
            let ts: Vec<T> = (0..3)
                .map(|i| match (iv.get(i), (i + k) % 4) {
                    (None, _) | (_, 0) => T::Any,
                    (Some(v), 1) => T::This(v.clone()),
                    (Some(v), 2) => {
                        let n = if depth(&it[i]) > 2 || format!("{:?}", v).len() > 4000 { 2 } else { [1, 3, 16, 17, 40, 300][(k + e.ins.len()) % 6] };
                        T::OneOf((0..n).map(|j| if j % 3 == 1 { full_val(&it[i], j as u64) } else { v.clone() }).collect())
                    }
                    (Some(v), _) => T::OneOf(vec![v.clone(), full_val(&it[i], k as u64)]),
                })
                .collect();
            let h = |i: usize| hash_topic(&ts[i]);
            let raw = RawTopicFilter { topic0: raw_topic(&ts[0]), topic1: raw_topic(&ts[1]), topic2: raw_topic(&ts[2]) };
            let want = if e.anonymous {
                TopicFilter { topic0: h(0), topic1: h(1), topic2: h(2), topic3: Topic::Any }
            } else {
                TopicFilter { topic0: Topic::This(e.sig().into()), topic1: h(0), topic2: h(1), topic3: h(2) }
            };
            match e.event().filter(raw) {
                Ok(g) => ensure!(g == want, "event {}: filter {:?} instead of {:?}", clip(&e.show(), 600), clip(&format!("{:?}", g), 600), clip(&format!("{:?}", want), 600)),
                Err(x) => fail!("event {}: filter refused with {:?}", clip(&e.show(), 600), x),
            }
        }
        Ok(())
    })
}
fn c16_lengths() -> Res {
    for n in crate::dict::with(&[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000], 0, 10_000) {
        let list: Vec<[u8; 32]> = (0..n)
            .map(|i| {
                let mut w = [0u8; 32];
                w.copy_from_slice(&expand(i as u64 / 2, 32));
                w
            })
            .collect();
        for k in 0..4 {
            let hs: Vec<H> = (0..4).map(|i| if i == k { H::OneOf(list.clone()) } else if (i + n) % 2 == 0 { H::Any } else { H::This([i as u8; 32]) }).collect();
            c16_one(&hs)?;
        }
    }
    // every pattern of kinds
    for p in 0..256usize {
        let hs: Vec<H> = (0..4)
            .map(|i| match p >> (2 * i) & 3 {
                0 => H::Any,
                1 => H::This([i as u8; 32]),
                2 => H::OneOf(vec![]),
                _ => H::OneOf(vec![[i as u8; 32], [9; 32]]),
            })
            .collect();
        c16_one(&hs)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn gen_topic(s: &mut Src, ts: &[[u8; 32]]) -> [u8; 32] {
    match s.weighted(&[2, 2, 1, 1, 1, 1]) {
        0 => [0; 32],
        1 => {
            let mut w = [0u8; 32];
            w[31] = s.below(4) as u8;
            w
        }
        2 => [0xff; 32],
        3 => {
            let mut w = [0u8; 32];
            w[s.below(32) as usize] = 1 << s.below(8);
            w
        }
        4 if !ts.is_empty() => *s.pick(ts),
        _ => {
            let mut w = [0u8; 32];
            w.copy_from_slice(&expand(s.uint(2), 32));
            w
        }
    }
}

fn gen_word_small(s: &mut Src) -> [u8; 32] {
    let mut w = [0u8; 32];
    let n = *s.pick(&[0u64, 1, 2, 32, 64, 96, 128, 31, 33, 160, 0xff, 0xffff, 0xffff_ffff, 1 << 32, 1 << 33, u64::MAX]);
    w[24..].copy_from_slice(&n.to_be_bytes());
    if s.chance(20) {
        w[0] = 1;
    }
    w
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_event(s, 5, 10);
    let vals = gen_vals(s, &e.tys(), 30);
    let (mut topics, mut data) = e.emit(&vals);
    let n = s.weighted(&[1, 6, 3, 1]);
    for _ in 0..n {
        match s.weighted(&[3, 3, 2, 2, 3, 3, 2, 2, 1, 2, 1, 2]) {
            10 => {
                // something in front of the data
                let h = e.sig();
                match s.below(4) {
                    0 => data.splice(..0, h[..4].iter().copied()).for_each(drop),
                    1 => data.splice(..0, h.iter().copied()).for_each(drop),
                    _ => {
                        let n = *s.pick(&[4usize, 1, 32, 31, 64, 20]);
                        let c = s.content(n);
                        data.splice(..0, c).for_each(drop)
                    }
                }
                ctx.label("data prefixed");
            }
            11 => {
                let plain: Vec<Val> = e.ins.iter().zip(&vals).filter(|(p, _)| !p.2).map(|(_, v)| v.clone()).collect();
                data = loose_encode(s, &e.plain(), &plain);
                ctx.label("other layout");
            }
            0 if !topics.is_empty() => {
                let i = s.below(topics.len() as u64) as usize;
                topics.remove(i);
                ctx.label("topic removed");
            }
            1 => {
                let i = s.below(topics.len() as u64 + 1) as usize;
                let t = gen_topic(s, &topics);
                topics.insert(i, t);
                ctx.label("topic added");
            }
            2 if topics.len() > 1 => {
                let i = s.below(topics.len() as u64 - 1) as usize;
                topics.swap(i, i + 1);
                ctx.label("topics swapped");
            }
            3 if !topics.is_empty() => {
                let i = s.below(topics.len() as u64) as usize;
                topics[i][s.below(32) as usize] ^= 1 << s.below(8);
                ctx.label("topic bit flipped");
            }
            4 if !topics.is_empty() => {
                let i = s.below(topics.len() as u64) as usize;
                topics[i] = gen_topic(s, &topics);
                ctx.label("topic replaced");
            }
            5 if data.len() >= 32 => {
                let i = 32 * s.below(data.len() as u64 / 32) as usize;
                data[i..i + 32].copy_from_slice(&gen_word_small(s));
                ctx.label("data word replaced");
            }
            6 if !data.is_empty() => {
                let n = s.below(data.len() as u64) as usize;
                data.truncate(n);
                ctx.label("data truncated");
            }
            7 => {
                let n = 1 + s.below(70) as usize;
                data.extend(s.content(n));
                ctx.label("data extended");
            }
            8 => {
                data.clear();
                ctx.label("data emptied");
            }
            _ => {
                // log of an event that differs in name, types or anonymity
                let mut o = e.clone();
                match s.weighted(&[2, 2, 2, 2]) {
                    0 => o.name.push('x'),
                    1 => o.anonymous = !o.anonymous,
                    2 => {
                        if !o.ins.is_empty() {
                            let i = s.below(o.ins.len() as u64) as usize;
                            o.ins[i].2 = !o.ins[i].2;
                        }
                    }
                    _ => {
                        for p in o.ins.iter_mut() {
                            if let Ty::Uint(n) = &mut p.1 {
                                *n = if *n == 256 { 128 } else { 256 };
                                break;
                            }
                        }
                    }
                }
                let (t, d) = o.emit(&vals);
                topics = t;
                data = d;
                ctx.label("log of a similar event");
            }
        }
    }
    ctx.nontrivial(!e.ins.is_empty() || topics.len() > 1);
    event_labels(&e, ctx);
    ctx.ident(&(e.show(), show_log(&topics, &data)));
    ctx.describe(|| format!("{} log {}", e.show(), clip(&show_log(&topics, &data), 400)));
    let want = match e.decode(&topics, &data) {
        Err(DecErr::TooMuch) => {
            ctx.skipped = true;
            return Ok(());
        }
        x => x,
    };
    let g = got(&e, &topics, &data);
    match (&want, &g) {
        (Err(_), Err(_)) => ctx.label("refused"),
        (Ok(w), Ok(g)) => {
            ctx.label("accepted");
            ensure!(
                w.len() == g.len() && w.iter().zip(g).all(|(a, b)| a.0 == b.0 && matches(&a.1, &b.1)),
                "event {} log {}: got {} instead of {}",
                e.show(),
                show_log(&topics, &data),
                show_params(g),
                show_params(w)
            )
        }
        (Ok(w), Err(x)) if w.iter().any(|p| has_anybool(&p.1)) => {
            let _ = x;
            ctx.label("undefined boolean refused")
        }
        (Ok(w), Err(x)) => {
            fail!("event {} log {}: refused with {} instead of {}", e.show(), show_log(&topics, &data), x, show_params(w))
        }
        (Err(_), Ok(g)) => {
            fail!("event {} log {}: accepted as {} but does not belong", e.show(), show_log(&topics, &data), show_params(g))
        }
    }
    Ok(())
}

fn has_anybool(v: &Val) -> bool {
    match v {
        Val::AnyBool => true,
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => x.iter().any(has_anybool),
        _ => false,
    }
}

fn c14_topic_counts() -> Res {
    // every number of topics against every number of indexed parameters, with and without signature
    for k in 0..=4usize {
        for anonymous in [false, true] {
            for plain in 0..=1usize {
                let mut ins: Vec<(String, Ty, bool)> = (0..k).map(|i| (format!("a{}", i), Ty::Uint(256), true)).collect();
                for _ in 0..plain {
                    ins.push(("p".into(), Ty::Bool, false));
                }
                let e = Ev { name: "E".into(), anonymous, ins };
                for n in 0..=6usize {
                    for first in 0..3 {
                        let topics: Vec<[u8; 32]> = (0..n)
                            .map(|i| match (i, first) {
                                (0, 0) => e.sig(),
                                (0, 1) => [0; 32],
                                _ => [i as u8; 32],
                            })
                            .collect();
                        for data in [vec![], vec![0u8; 32], vec![0u8; 31], vec![0u8; 33]] {
                            let want = e.decode(&topics, &data).ok();
                            let g = got(&e, &topics, &data).ok();
                            ensure!(
                                want == g,
                                "event {} log {}: got {:?} instead of {:?}",
                                e.show(),
                                show_log(&topics, &data),
                                g,
                                want
                            );
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug)]
enum T {
    Any,
    This(Val),
    OneOf(Vec<Val>),
}

fn raw_topic(t: &T) -> Topic<Token> {
    match t {
        T::Any => Topic::Any,
        T::This(v) => Topic::This(to_token(v)),
        T::OneOf(v) => Topic::OneOf(to_tokens(v)),
    }
}

fn hash_topic(t: &T) -> Topic<Hash> {
    match t {
        T::Any => Topic::Any,
        T::This(v) => Topic::This(topic_of(v).into()),
        T::OneOf(v) => Topic::OneOf(v.iter().map(|v| topic_of(v).into()).collect()),
    }
}

fn c15(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = gen_event(s, 5, 10);
    let idx = e.indexed();
    let mut ts = vec![];
    let mut budget = 60isize;
    let mut ok = true;
    for i in 0..3 {
        let missing = i >= idx.len();
        let ty = if missing { Ty::Uint(256) } else { idx[i].clone() };
        let t = match s.weighted(if missing { &[14, 1, 1] } else { &[2, 4, 4] }) {
            0 => T::Any,
            1 => T::This(gen_val(s, &ty, &mut budget)),
            _ => {
                // an empty list of alternatives carries no value: only for existing parameters
                let lo = if missing { 1 } else { 0 };
                let n = s.range(lo, 3);
                T::OneOf((0..n).map(|_| gen_val(s, &ty, &mut budget)).collect())
            }
        };
        if missing && !matches!(t, T::Any) {
            ok = false;
            ctx.label("no such parameter");
        }
        ts.push(t);
    }
    if s.chance(70) {
        let i = s.below(3) as usize;
        match &mut ts[i] {
            T::This(v) => *v = mutate(s, &v.clone(), ctx),
            T::OneOf(v) if !v.is_empty() => {
                let j = s.below(v.len() as u64) as usize;
                v[j] = mutate(s, &v[j].clone(), ctx)
            }
            _ => {}
        }
    }
    for (i, t) in ts.iter().enumerate() {
        let vs: Vec<&Val> = match t {
            T::Any => vec![],
            T::This(v) => vec![v],
            T::OneOf(v) => v.iter().collect(),
        };
        if i < idx.len() {
            ok &= vs.iter().all(|v| well_typed(&idx[i], v));
        }
    }
    ctx.nontrivial(ts.iter().any(|t| !matches!(t, T::Any)));
    event_labels(&e, ctx);
    ctx.label(if ok { "accepted" } else { "refused" });
    ctx.ident(&(e.show(), format!("{:?}", ts)));
    ctx.describe(|| format!("{} filter {:?}", e.show(), ts));
    let raw = RawTopicFilter { topic0: raw_topic(&ts[0]), topic1: raw_topic(&ts[1]), topic2: raw_topic(&ts[2]) };
    let r = e.event().filter(raw);
    if !ok {
        ensure!(r.is_err(), "event {} filter {:?}: accepted as {:?}", e.show(), ts, r);
        return Ok(());
    }
    let h: Vec<Topic<Hash>> = ts.iter().map(hash_topic).collect();
    let mut h = h.into_iter();
    let (a, b, c) = (h.next().unwrap(), h.next().unwrap(), h.next().unwrap());
    let want = if e.anonymous {
        TopicFilter { topic0: a, topic1: b, topic2: c, topic3: Topic::Any }
    } else {
        TopicFilter { topic0: Topic::This(e.sig().into()), topic1: a, topic2: b, topic3: c }
    };
    match r {
        Ok(g) => {
            ensure!(g == want, "event {} filter {:?}: got {:?} instead of {:?}", e.show(), ts, g, want);
        }
        Err(x) => fail!("event {} filter {:?}: refused with {:?}", e.show(), ts, x),
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn gen_hash(s: &mut Src) -> [u8; 32] {
    let mut w = [0u8; 32];
    match s.weighted(&[2, 2, 2, 2, 1]) {
        0 => w[31] = s.u8(),
        1 => w.copy_from_slice(&expand(s.uint(3), 32)),
        2 => {
            let n = s.range(1, 32) as usize;
            let b = s.content(n);
            w[32 - n..].copy_from_slice(&b)
        }
        3 => {
            let n = s.range(1, 32) as usize;
            let b = s.content(n);
            w[..n].copy_from_slice(&b)
        }
        _ => w = [0xab; 32],
    }
    w
}

#[derive(Clone, Debug, PartialEq, Hash)]
enum H {
    Any,
    This([u8; 32]),
    OneOf(Vec<[u8; 32]>),
}

fn gen_h(s: &mut Src) -> H {
    match s.weighted(&[2, 3, 3]) {
        0 => H::Any,
        1 => H::This(gen_hash(s)),
        _ => {
            let n = match s.weighted(&[8, 1]) {
                0 => s.below(5),
                _ => s.below(60),
            };
            H::OneOf((0..n).map(|_| gen_hash(s)).collect())
        }
    }
}

fn h_topic(h: &H) -> Topic<Hash> {
    match h {
        H::Any => Topic::Any,
        H::This(x) => Topic::This((*x).into()),
        H::OneOf(v) => Topic::OneOf(v.iter().map(|x| (*x).into()).collect()),
    }
}

fn h_json(h: &H) -> String {
    match h {
        H::Any => "null".into(),
        H::This(x) => format!("\"0x{}\"", hex(x)),
        H::OneOf(v) => format!("[{}]", v.iter().map(|x| format!("\"0x{}\"", hex(x))).collect::<Vec<_>>().join(",")),
    }
}

fn c16(s: &mut Src, ctx: &mut Ctx) -> Res {
    let hs: Vec<H> = (0..4).map(|_| gen_h(s)).collect();
    ctx.nontrivial(hs.iter().any(|h| *h != H::Any));
    for h in &hs {
        ctx.label(match h {
            H::Any => "any",
            H::This(_) => "one hash",
            H::OneOf(v) if v.is_empty() => "no alternative",
            H::OneOf(v) if v.len() == 1 => "one alternative",
            _ => "alternatives",
        });
    }
    ctx.ident(&hs);
    ctx.describe(|| clip(&format!("[{}]", hs.iter().map(h_json).collect::<Vec<_>>().join(",")), 500));
    c16_one(&hs)
}

fn c16_one(hs: &[H]) -> Res {
    let f = TopicFilter { topic0: h_topic(&hs[0]), topic1: h_topic(&hs[1]), topic2: h_topic(&hs[2]), topic3: h_topic(&hs[3]) };
    let want = format!("[{}]", hs.iter().map(h_json).collect::<Vec<_>>().join(","));
    match serde_json::to_string(&f) {
        Ok(g) => ensure!(g == want, "filter serialises to {} instead of {}", clip(&g, 600), clip(&want, 600)),
        Err(e) => fail!("filter does not serialise: {}", e),
    }
    let v = serde_json::to_value(&f).map_err(|e| crate::ctx::Failure::new(format!("to_value: {}", e)))?;
    ensure!(v.to_string() == want, "to_value gives {} instead of {}", v, want);
    ensure!(TopicFilter::default() == TopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any, topic3: Topic::Any }, "default filter is not unconstrained");
    for h in hs {
        let t = h_topic(h);
        let j = serde_json::to_string(&t).unwrap_or_default();
        ensure!(j == h_json(h), "topic serialises to {} instead of {}", clip(&j, 300), clip(&h_json(h), 300));
        ensure!(t.is_any() == (*h == H::Any), "is_any of {:?} is {}", h, t.is_any());
        let list: Vec<[u8; 32]> = match h {
            H::Any => vec![],
            H::This(x) => vec![*x],
            H::OneOf(v) => v.clone(),
        };
        // indexing
        for i in 0..list.len() + 2 {
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t[i].0)).ok();
            ensure!(got == list.get(i).copied(), "topic {:?} at index {} gives {:?}", h, i, got.map(|x| hex(&x)));
        }
        // map: same structure, elements mapped in order
        let m = h_topic(h).map(|x| {
            let mut y = x.0.to_vec();
            y.reverse();
            y
        });
        let rev = |x: &[u8; 32]| {
            let mut y = x.to_vec();
            y.reverse();
            y
        };
        let wm = match h {
            H::Any => Topic::Any,
            H::This(x) => Topic::This(rev(x)),
            H::OneOf(v) => Topic::OneOf(v.iter().map(rev).collect()),
        };
        ensure!(m == wm, "map over {:?} gives {:?}", h, m);
        let back: Vec<Hash> = h_topic(h).into();
        ensure!(
            back.iter().map(|x| x.0).collect::<Vec<_>>() == list,
            "list of {:?} is {:?}",
            h,
            back
        );
        // from
        let from: Topic<Hash> = match h {
            H::Any => Option::<Hash>::None.into(),
            H::This(x) => Some(Hash::from(*x)).into(),
            H::OneOf(v) => v.iter().map(|x| Hash::from(*x)).collect::<Vec<_>>().into(),
        };
        ensure!(from == t, "conversion to topic gives {:?} for {:?}", from, h);
        if let H::This(x) = h {
            let from: Topic<Hash> = Hash::from(*x).into();
            ensure!(from == t, "conversion of a single value gives {:?} for {:?}", from, h);
        }
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C13",
        rule: "generated events (mixed indexed/plain, unnamed and equal names, anonymous) and values; topics and data emitted by a model of the EVM encoding, decoded by parse_log and compared positionally; plus all name/indexed patterns of up to five parameters. Non-trivial: at least two parameters. Distinct by (event, log).",
        quick: 4_800_000,
        thorough: 64_000_000,
        max_len: 700,
        check: c13,
        fixed: &[("names-and-patterns", c13_names), ("extremes", c13_extremes)],
        assumptions: &["at most four topics"],
    },
    Prop {
        id: "C14",
        rule: "emitted logs after 0-3 mutations (topics removed, added, swapped, altered; data words replaced by boundary numbers, truncated, extended; logs of similar events), compared with a reference log decoder; plus all small topic counts. Non-trivial: event with parameters or more than one topic. Distinct by (event, log).",
        quick: 6_000_000,
        thorough: 80_000_000,
        max_len: 700,
        check: c14,
        fixed: &[("topic-counts", c14_topic_counts), ("extremes", c14_extremes)],
        assumptions: &["boolean words 2..255 may decode to either value or be refused", "data whose decoding takes more than 60000 steps is skipped and counted"],
    },
    Prop {
        id: "C15",
        rule: "generated events with filters (any, one, alternatives) for the first three indexed parameters, sometimes ill-typed or for a missing parameter; topics compared with a model of indexed event encoding. Non-trivial: at least one constrained position. Distinct by (event, filter).",
        quick: 7_200_000,
        thorough: 96_000_000,
        max_len: 600,
        check: c15,
        fixed: &[("extremes", c15_extremes)],
        assumptions: &["an empty list of alternatives for a missing parameter may be refused or kept"],
    },
    Prop {
        id: "C16",
        rule: "four generated topics each; JSON compared with a reference writer; is_any, index, map, conversions on every topic. Non-trivial: at least one constrained topic. Distinct by the topics.",
        quick: 2_400_000,
        thorough: 32_000_000,
        max_len: 900,
        check: c16,
        fixed: &[("lengths", c16_lengths)],
        assumptions: &[],
    },
];
