//! C22, C23: the command line tool, run as a process.

use crate::ctx::{clip, hex, Ctx, Failure, Res};
use crate::json::*;
use crate::model::*;
use crate::props::codec::shown;
use crate::props::events::{gen_event, Ev};
use crate::props::text::{corrupt, parse, spell, spellable};
use crate::props::types::{alias_name, recognise, Rec};
use crate::runner::Prop;
use crate::src::Src;
use crate::fail;
use std::path::PathBuf;
use std::process::Command;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// A file in the scratch directory, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(body: &str) -> Scratch {
        let dir = verif().join("target").join("scratch");
        let _ = std::fs::create_dir_all(&dir);
        let id: String = format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_ascii_digit()).collect();
        let p = dir.join(format!("abi-{}-{}.json", std::process::id(), id));
        std::fs::write(&p, body).expect("write scratch file");
        Scratch(p)
    }
    fn path(&self) -> String {
        self.0.to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn ethabi(args: &[String]) -> Result<(bool, Vec<u8>, String), Failure> {
    let out = Command::new(verif().join("target/release/ethabi"))
        .args(args)
        .env_clear()
        .env("RUST_BACKTRACE", "0")
        .output()
        .map_err(|e| Failure::new(format!("cannot run the tool: {}", e)))?;
    Ok((out.status.success(), out.stdout, String::from_utf8_lossy(&out.stderr).into_owned()))
}

fn expect(args: &[String], want: Option<String>, note: &str) -> Res {
    let (ok, out, err) = ethabi(args)?;
    let cmd = || clip(&format!("{:?} {}", args, note), 1500);
    match want {
        Some(w) => {
            let w = w + "\n";
            if !ok {
                fail!("{}: failed ({}) instead of printing {:?}", cmd(), clip(&err, 300), clip(&w, 600));
            }
            if out != w.as_bytes() {
                fail!("{}: printed {:?} instead of {:?}", cmd(), clip(&String::from_utf8_lossy(&out), 600), clip(&w, 600));
            }
        }
        None => {
            if ok {
                fail!("{}: succeeded with {:?} instead of failing", cmd(), clip(&String::from_utf8_lossy(&out), 600));
            }
            if !out.is_empty() {
                fail!("{}: failed but printed {:?}", cmd(), clip(&String::from_utf8_lossy(&out), 600));
            }
        }
    }
    Ok(())
}

fn st_(x: &str) -> String {
    x.to_string()
}

const TCFG: TyCfg = TyCfg { depth: 3, cap: 10, tuples: true, dynamic: true };

fn clean(s: String) -> String {
    s.replace('\0', "0")
}

fn no_nul(v: Val) -> Val {
    match v {
        Val::Str(x) => Val::Str(clean(x)),
        Val::Array(x) => Val::Array(x.into_iter().map(no_nul).collect()),
        Val::FixedArray(x) => Val::FixedArray(x.into_iter().map(no_nul).collect()),
        Val::Tuple(x) => Val::Tuple(x.into_iter().map(no_nul).collect()),
        v => v,
    }
}

/// Spelled value of a type, sometimes corrupted.
fn value_text(s: &mut Src, t: &Ty, lenient: bool, faulty: bool) -> String {
    let mut b = 12;
    let v = gen_val(s, t, &mut b);
    let v = spellable(s, &v, false);
    let x = spell(s, &v, lenient);
    clean(if faulty {
        match s.weighted(&[6, 1]) {
            0 => corrupt(s, &x),
            _ => blanks(s, &x),
        }
    } else {
        x
    })
}

/// White space around a text.
fn blanks(s: &mut Src, x: &str) -> String {
    const B: &[&str] = &[" ", "\n", "\t", "  ", "\r\n", "\u{a0}"];
    match s.below(3) {
        0 => format!("{}{}", s.pick(B), x),
        1 => format!("{}{}", x, s.pick(B)),
        _ => format!("{}{}{}", s.pick(B), x, s.pick(B)),
    }
}

fn lenient_flag(s: &mut Src, args: &mut Vec<String>, lenient: bool, from: usize) {
    if lenient {
        let f = if s.bool() { "-l" } else { "--lenient" };
        // before the values or at the end
        if s.bool() {
            args.insert(from, st_(f));
        } else {
            args.push(st_(f));
        }
    }
}

// ---------------------------------------------------------------- ABI files

#[derive(Clone, Debug)]
struct Fun {
    name: String,
    ins: Vec<Ty>,
    outs: Vec<Ty>,
}
impl Fun {
    fn sig(&self) -> String {
        if self.outs.is_empty() {
            format!("{}({})", self.name, names(&self.ins))
        } else {
            format!("{}({}):({})", self.name, names(&self.ins), names(&self.outs))
        }
    }
}

fn ps(ts: &[Ty]) -> Vec<P> {
    ts.iter().enumerate().map(|(i, t)| P { name: format!("p{}", i), ty: t.clone(), internal: None, indexed: false }).collect()
}

fn gen_funs(s: &mut Src) -> Vec<Fun> {
    let n = s.range(1, 4);
    let mut out: Vec<Fun> = vec![];
    for _ in 0..n {
        let f = if !out.is_empty() && s.chance(90) {
            // an overload close to an existing function
            let mut f = s.pick(&out).clone();
            match s.below(4) {
                0 => f.outs = gen_tys(s, TCFG, 2),
                1 => f.ins = gen_tys(s, TCFG, 3),
                2 => f.ins.push(gen_leaf(s, true)),
                _ => {
                    f.ins.pop();
                }
            }
            f
        } else {
            Fun {
                name: s.pick(&["f", "bar", "g", "transfer", "_x", "a$1"]).to_string(),
                ins: gen_tys(s, TCFG, 3),
                outs: if s.chance(150) { gen_tys(s, TCFG, 2) } else { vec![] },
            }
        };
        if out.iter().all(|o| o.sig() != f.sig()) {
            out.push(f);
        }
    }
    out
}

fn doc(s: &mut Src, funs: &[Fun], evs: &[Ev]) -> String {
    let mut es: Vec<Entry> = funs
        .iter()
        .map(|f| Entry::Fun { name: f.name.clone(), ins: ps(&f.ins), outs: ps(&f.outs), constant: None, mutability: None })
        .collect();
    for e in evs {
        let ins = e.ins.iter().map(|(n, t, i)| P { name: n.clone(), ty: t.clone(), internal: None, indexed: *i }).collect();
        es.push(Entry::Ev { name: e.name.clone(), ins, anonymous: e.anonymous });
    }
    if s.chance(40) {
        es.push(Entry::Fallback);
    }
    if s.chance(40) {
        es.insert(0, Entry::Ctor { ins: vec![] });
    }
    let y = Style { extras: false, alias: false, suffix_names: false };
    let js: Vec<J> = es.iter().map(|e| entry_json(s, e, &y)).collect();
    plain(&J::Arr(js))
}

enum Sel<T> {
    Found(T),
    Fails,
    Open,
}

fn damage_sig(s: &mut Src, sig: &str) -> String {
    let c: Vec<char> = sig.chars().collect();
    match s.weighted(&[2, 2, 2, 2, 1, 1, 1]) {
        0 => sig.replacen("256", "", 1),
        1 => sig.replacen('(', "(bool,", 1),
        2 => c[..c.len() - 1].iter().collect(),
        3 => format!("{})", sig),
        4 => format!("x{}", sig),
        5 => format!("{}:(bool)", sig),
        _ => sig.replacen("uint", "int", 1),
    }
}

fn select_fun(s: &mut Src, funs: &[Fun], ctx: &mut Ctx) -> (String, Sel<Fun>) {
    let f = s.pick(funs).clone();
    let by_name = |n: &str| {
        let m: Vec<&Fun> = funs.iter().filter(|f| f.name == n).collect();
        if m.len() == 1 {
            Sel::Found(m[0].clone())
        } else {
            Sel::Fails
        }
    };
    match s.weighted(&[5, 4, 2, 1]) {
        0 => {
            ctx.label("by signature");
            (f.sig(), Sel::Found(f))
        }
        1 => {
            let r = by_name(&f.name);
            ctx.label(if matches!(r, Sel::Found(_)) { "by name" } else { "ambiguous name" });
            (f.name.clone(), r)
        }
        2 => {
            ctx.label("damaged signature");
            let x = damage_sig(s, &f.sig());
            let r = if x.contains('(') {
                match funs.iter().find(|f| f.sig() == x) {
                    Some(f) => Sel::Found(f.clone()),
                    None => Sel::Fails,
                }
            } else {
                by_name(&x)
            };
            (x, r)
        }
        _ => {
            ctx.label("unknown name");
            (format!("{}zz", f.name), Sel::Fails)
        }
    }
}

// ---------------------------------------------------------------- C22

fn c22(s: &mut Src, ctx: &mut Ctx) -> Res {
    let lenient = s.bool();
    let faulty = s.chance(90);
    if s.bool() {
        ctx.label("encode params");
        let tys = gen_tys(s, TCFG, 4);
        let bad_at = if faulty && !tys.is_empty() { Some(s.below(tys.len() as u64) as usize) } else { None };
        let bad_type = s.chance(100);
        let mut args = vec![st_("encode"), st_("params")];
        let mut vals = Some(vec![]);
        let mut kinds = vec![];
        let mut open = false;
        for (i, t) in tys.iter().enumerate() {
            let hit = bad_at == Some(i);
            let mut tn = if s.chance(40) { alias_name(s, t) } else { name(t) };
            let mut ty = Some(t.clone());
            if hit && bad_type {
                tn = clean(match s.below(4) {
                    0 => corrupt(s, &tn),
                    1 => format!("{}[", tn),
                    2 => format!("({}", tn),
                    _ => s.pick(&["", "foo", "uint256]", "bool,bool", "é", "[]"]).to_string(),
                });
                ty = match recognise(&tn) {
                    Rec::Ok(t) => Some(t),
                    Rec::Bad => None,
                    Rec::Maybe(_) | Rec::Open => {
                        open = true;
                        None
                    }
                };
            }
            let text = value_text(s, t, lenient, hit && !bad_type);
            args.push(st_("-v"));
            args.push(tn);
            args.push(text.clone());
            let v = ty.as_ref().and_then(|t| parse(t, &text, lenient));
            match (v, &mut vals) {
                (Some(v), Some(vs)) => {
                    vs.push(v);
                    kinds.push(ty.unwrap());
                }
                _ => vals = None,
            }
        }
        if s.chance(8) {
            ctx.label("surplus pair of nothing");
            let i = 2 + 3 * s.below(tys.len() as u64 + 1) as usize;
            let (t, v) = *s.pick(&[("", ""), ("", "1"), ("bool", ""), ("uint256", ""), ("foo", "1")]);
            for x in [v, t, "-v"] {
                args.insert(i, st_(x));
            }
            vals = None;
        }
        if s.chance(10) {
            // a lone type: value missing (in front, so that nothing can complete it)
            if args.len() == 2 {
                args.push(st_("-v"));
                args.push(st_("bool"));
                ctx.label("missing value");
                ctx.ident(&args);
                return expect(&args, None, "");
            }
        }
        lenient_flag(s, &mut args, lenient, 2);
        ctx.nontrivial(!tys.is_empty());
        ctx.label(if vals.is_some() { "accepted" } else { "refused" });
        ctx.ident(&args);
        ctx.describe(|| clip(&format!("{:?}", args), 500));
        if open {
            ctx.skipped = true;
            return Ok(());
        }
        let want = vals.map(|v| hex(&ref_encode(&kinds, &v).bytes));
        return expect(&args, want, "");
    }
    ctx.label("encode function");
    let funs = gen_funs(s);
    let text = doc(s, &funs, &[]);
    let (sel, f) = select_fun(s, &funs, ctx);
    let target = match &f {
        Sel::Found(f) => f.clone(),
        _ => funs[0].clone(),
    };
    let mut texts: Vec<String> = vec![];
    let bad_at = if faulty { s.below(target.ins.len() as u64 + 1) as usize } else { usize::MAX };
    for (i, t) in target.ins.iter().enumerate() {
        texts.push(value_text(s, t, lenient, i == bad_at));
    }
    match s.weighted(&[12, 1, 2]) {
        1 => {
            texts.pop();
        }
        2 => {
            let x = match s.below(4) {
                0 => st_(""),
                1 => texts.last().cloned().unwrap_or_default(),
                _ => st_("1"),
            };
            let at = s.range(0, texts.len() as u64) as usize;
            texts.insert(at, x);
            ctx.label("surplus value");
        }
        _ => {}
    }
    let file = Scratch::new(&text);
    let mut path = file.path();
    let mut args = vec![st_("encode"), st_("function")];
    let mut want = match f {
        Sel::Found(f) if f.ins.len() == texts.len() => {
            f.ins.iter().zip(&texts).map(|(t, x)| parse(t, x, lenient)).collect::<Option<Vec<Val>>>().map(|v| {
                let mut d = selector(&f.name, &f.ins).to_vec();
                d.extend(ref_encode(&f.ins, &v).bytes);
                hex(&d)
            })
        }
        Sel::Found(_) => {
            ctx.label("wrong number of values");
            None
        }
        _ => None,
    };
    if s.chance(8) {
        path = verif().join("target").join("scratch").join("absent").join("x").to_str().unwrap().to_string();
        want = None;
        ctx.label("missing file");
    } else if s.chance(8) {
        std::fs::write(&file.0, &text[..text.len() - 1]).expect("write");
        want = None;
        ctx.label("damaged file");
    }
    let positional = vec![path.clone(), sel];
    let opts: Vec<String> = {
        let mut o = vec![];
        for t in &texts {
            if s.chance(60) && !t.is_empty() && !t.starts_with('=') {
                o.push(format!("-p={}", t));
            } else {
                o.push(st_("-p"));
                o.push(t.clone());
            }
        }
        lenient_flag(s, &mut o, lenient, 0);
        o
    };
    if s.bool() {
        args.extend(positional);
        args.extend(opts);
    } else {
        args.extend(opts);
        args.extend(positional);
    }
    ctx.nontrivial(true);
    ctx.label(if want.is_some() { "accepted" } else { "refused" });
    ctx.ident(&(&text, &args[2..].iter().filter(|a| **a != path).collect::<Vec<_>>()));
    ctx.describe(|| clip(&format!("{:?} with {}", args, text), 700));
    expect(&args, want, &format!("with ABI {}", text))
}

// ---------------------------------------------------------------- C23

fn damage_data(s: &mut Src, d: &mut Vec<u8>, ctx: &mut Ctx) {
    match s.weighted(&[3, 3, 2, 2, 2]) {
        4 => {
            let n = *s.pick(&[4usize, 32, 1, 31, 64, 2, 20]);
            let c = s.content(n);
            d.splice(..0, c);
            ctx.label("prefixed");
        }
        0 if !d.is_empty() => {
            let n = s.below(d.len() as u64) as usize;
            d.truncate(n);
            ctx.label("truncated");
        }
        1 if d.len() >= 32 => {
            let i = 32 * s.below(d.len() as u64 / 32) as usize;
            let mut w = [0u8; 32];
            let n = *s.pick(&[0u64, 1, 32, 64, 96, 31, 33, 128, 0xffff_ffff, 1 << 32, 5]);
            w[24..].copy_from_slice(&n.to_be_bytes());
            if s.chance(40) {
                w[0] = 0x80;
            }
            d[i..i + 32].copy_from_slice(&w);
            ctx.label("word replaced");
        }
        2 => {
            let n = 1 + s.below(40) as usize;
            d.extend(s.content(n));
            ctx.label("extended");
        }
        _ => {
            d.clear();
            ctx.label("emptied");
        }
    }
}

/// Hex text of the data, sometimes not valid hex (None).
fn data_text(s: &mut Src, d: &[u8], ctx: &mut Ctx) -> (String, bool) {
    let h = hex(d);
    match s.weighted(&[24, 6, 2, 2, 1, 1]) {
        4 => {
            ctx.label("blanks around hex");
            (blanks(s, &h), false)
        }
        5 => {
            ctx.label("prefixed hex");
            (format!("{}{}", s.pick(&["0x", "0X", "x", "#", "+"]), h), false)
        }
        0 => (h, true),
        1 => (h.to_uppercase(), true),
        2 => {
            ctx.label("odd hex");
            (h + "0", false)
        }
        _ => {
            ctx.label("invalid hex");
            let mut c: Vec<char> = h.chars().collect();
            let i = s.below(c.len() as u64 + 1) as usize;
            if i == c.len() {
                c.push('g');
                c.push('0');
            } else {
                c[i] = *s.pick(&['g', 'é', ' ', 'G', 'z']);
            }
            (c.into_iter().collect(), false)
        }
    }
}

fn any_bool(v: &[Val]) -> bool {
    v.iter().any(|v| match v {
        Val::AnyBool => true,
        Val::Array(x) | Val::FixedArray(x) | Val::Tuple(x) => any_bool(x),
        _ => false,
    })
}

fn lines(ts: &[Ty], vs: &[Val]) -> String {
    ts.iter().zip(vs).map(|(t, v)| format!("{} {}", name(t), shown(v))).collect::<Vec<_>>().join("\n")
}

fn c23(s: &mut Src, ctx: &mut Ctx) -> Res {
    let faulty = s.chance(90);
    match s.weighted(&[3, 3, 4]) {
        0 => {
            ctx.label("decode params");
            let tys = gen_tys(s, TCFG, 4);
            let vals: Vec<Val> = gen_vals(s, &tys, 20).into_iter().map(no_nul).collect();
            let mut d = ref_encode(&tys, &vals).bytes;
            if faulty {
                damage_data(s, &mut d, ctx);
            }
            let (text, ok) = data_text(s, &d, ctx);
            let mut want = match ref_decode(&tys, &d, 20_000) {
                Ok(v) if any_bool(&v) => {
                    ctx.skipped = true;
                    return Ok(());
                }
                Ok(v) if ok => Some(lines(&tys, &v)),
                Err(DecErr::TooMuch) => {
                    ctx.skipped = true;
                    return Ok(());
                }
                _ => None,
            };
            let mut args = vec![st_("decode"), st_("params")];
            let bad = s.chance(12) && !tys.is_empty();
            let k = if bad { s.below(tys.len() as u64) as usize } else { usize::MAX };
            for (i, t) in tys.iter().enumerate() {
                args.push(st_("-t"));
                if i == k {
                    ctx.label("bad type");
                    args.push(s.pick(&["foo", "uint256]", "(bool", "bool[", "é[]"]).to_string());
                    want = None;
                } else {
                    args.push(if s.chance(40) { alias_name(s, t) } else { name(t) });
                }
            }
            if s.chance(6) {
                ctx.label("surplus non-type");
                let i = 2 + 2 * s.below(tys.len() as u64 + 1) as usize;
                args.insert(i, s.pick(&["", " ", "foo", "()[", "-"]).to_string());
                args.insert(i, st_("-t"));
                want = None;
            }
            if s.bool() {
                args.push(text);
            } else {
                args.insert(2, text);
            }
            ctx.nontrivial(!tys.is_empty());
            ctx.label(if want.is_some() { "accepted" } else { "refused" });
            ctx.ident(&args);
            ctx.describe(|| clip(&format!("{:?}", args), 500));
            expect(&args, want, "")
        }
        1 => {
            ctx.label("decode function");
            let funs = gen_funs(s);
            let text = doc(s, &funs, &[]);
            let (sel, f) = select_fun(s, &funs, ctx);
            let target = match &f {
                Sel::Found(f) => f.clone(),
                _ => funs[0].clone(),
            };
            let vals: Vec<Val> = gen_vals(s, &target.outs, 20).into_iter().map(no_nul).collect();
            let mut d = ref_encode(&target.outs, &vals).bytes;
            if faulty {
                damage_data(s, &mut d, ctx);
            }
            let (dt, ok) = data_text(s, &d, ctx);
            let want = match f {
                Sel::Found(f) if ok => match ref_decode(&f.outs, &d, 20_000) {
                    Ok(v) if any_bool(&v) => {
                        ctx.skipped = true;
                        return Ok(());
                    }
                    Err(DecErr::TooMuch) => {
                        ctx.skipped = true;
                        return Ok(());
                    }
                    Ok(v) => Some(lines(&f.outs, &v)),
                    Err(_) => None,
                },
                _ => None,
            };
            let file = Scratch::new(&text);
            let args = vec![st_("decode"), st_("function"), file.path(), sel.clone(), dt.clone()];
            ctx.nontrivial(true);
            ctx.label(if want.is_some() { "accepted" } else { "refused" });
            ctx.ident(&(&text, &sel, &dt));
            ctx.describe(|| clip(&format!("{:?} with {}", args, text), 700));
            expect(&args, want, &format!("with ABI {}", text))
        }
        _ => {
            ctx.label("decode log");
            let n = s.range(1, 3);
            let mut evs: Vec<Ev> = vec![];
            for _ in 0..n {
                let mut e = if !evs.is_empty() && s.chance(120) {
                    let mut e = s.pick(&evs).clone();
                    match s.below(3) {
                        0 => {
                            e.ins.pop();
                        }
                        1 => {
                            let t = gen_leaf(s, true);
                            let i = s.below(e.ins.len() as u64 + 1) as usize;
                            e.ins.insert(i, (st_("extra"), t, false));
                        }
                        _ => e.ins.reverse(),
                    }
                    e
                } else {
                    gen_event(s, 4, 8)
                };
                e.name = s.pick(&["E", "Transfer", "_x"]).to_string();
                if evs.iter().all(|o| o.name != e.name || names(&o.tys()) != names(&e.tys())) {
                    evs.push(e);
                }
            }
            let text = doc(s, &[], &evs);
            let e = s.pick(&evs).clone();
            let sig = format!("{}({})", e.name, names(&e.tys()));
            let (sel, f) = match s.weighted(&[5, 4, 2, 1]) {
                0 => {
                    ctx.label("by signature");
                    let sel = if s.bool() { sig.replace(',', ", ") } else { sig };
                    (sel, Sel::Found(e.clone()))
                }
                1 => {
                    let m = evs.iter().filter(|o| o.name == e.name).count();
                    ctx.label(if m == 1 { "by name" } else { "ambiguous name" });
                    (e.name.clone(), if m == 1 { Sel::Found(e.clone()) } else { Sel::Fails })
                }
                2 => {
                    ctx.label("damaged signature");
                    let x = damage_sig(s, &sig);
                    let r = if x.contains('(') {
                        match evs.iter().find(|o| format!("{}({})", o.name, names(&o.tys())) == x) {
                            Some(o) => Sel::Found(o.clone()),
                            None => Sel::Fails,
                        }
                    } else {
                        Sel::Open
                    };
                    (x, r)
                }
                _ => {
                    ctx.label("unknown name");
                    (format!("{}zz", e.name), Sel::Fails)
                }
            };
            let target = match &f {
                Sel::Found(f) => f.clone(),
                Sel::Fails => e.clone(),
                Sel::Open => {
                    ctx.skipped = true;
                    return Ok(());
                }
            };
            let vals: Vec<Val> = gen_vals(s, &target.tys(), 20).into_iter().map(no_nul).collect();
            let (mut topics, mut d) = target.emit(&vals);
            if faulty {
                match s.below(4) {
                    0 => damage_data(s, &mut d, ctx),
                    1 if !topics.is_empty() => {
                        let i = s.below(topics.len() as u64) as usize;
                        topics[i][s.below(32) as usize] ^= 1;
                        ctx.label("topic altered");
                    }
                    2 => {
                        topics.pop();
                        ctx.label("topic dropped");
                    }
                    _ => {
                        topics.push([3; 32]);
                        ctx.label("topic added");
                    }
                }
            }
            let (dt, ok) = data_text(s, &d, ctx);
            let mut want = match f {
                Sel::Found(f) => match f.decode(&topics, &d) {
                    Err(DecErr::TooMuch) => {
                        ctx.skipped = true;
                        return Ok(());
                    }
                    Ok(v) if v.iter().any(|p| any_bool(&[p.1.clone()])) => {
                        ctx.skipped = true;
                        return Ok(());
                    }
                    Ok(v) if ok => Some(v.iter().map(|(n, v)| format!("{} {}", n, shown(v))).collect::<Vec<_>>().join("\n")),
                    _ => None,
                },
                _ => None,
            };
            let file = Scratch::new(&text);
            let mut args = vec![st_("decode"), st_("log")];
            let mut tail = vec![];
            let short = s.chance(10) && !topics.is_empty();
            let at = if short { s.below(topics.len() as u64) as usize } else { 0 };
            for (i, t) in topics.iter().enumerate() {
                tail.push(st_("-l"));
                let h = hex(t);
                if i == at && short {
                    ctx.label("short topic");
                    tail.push(match s.below(5) {
                        0 => st_(""),
                        1 => h[..62].to_string(),
                        2 => format!("{}00", h),
                        3 => h[1..].to_string(),
                        _ => h[2..].to_string(),
                    });
                    want = None;
                } else {
                    tail.push(if s.chance(40) { h.to_uppercase() } else { h });
                }
            }
            if s.chance(8) {
                // one topic more, which is none
                ctx.label("surplus non-topic");
                let i = 2 * s.below(tail.len() as u64 / 2 + 1) as usize;
                let x = match s.below(5) {
                    0 | 1 => st_(""),
                    2 => st_("00"),
                    3 => hex(&[0; 31]),
                    _ => st_("zz"),
                };
                tail.insert(i, x);
                tail.insert(i, st_("-l"));
                want = None;
            }
            let pos = vec![file.path(), sel.clone(), dt.clone()];
            if s.bool() {
                args.extend(pos);
                args.extend(tail.clone());
            } else {
                args.extend(tail.clone());
                args.extend(pos);
            }
            ctx.nontrivial(true);
            ctx.label(if want.is_some() { "accepted" } else { "refused" });
            ctx.ident(&(&text, &sel, &dt, &tail));
            ctx.describe(|| clip(&format!("{:?} with {}", args, text), 700));
            expect(&args, want, &format!("with ABI {}", text))
        }
    }
}

// ---------------------------------------------------------------- sweeps

const ARG_MAX: usize = 100_000;

/// Extreme type lists with values that command lines can carry.
fn extreme_args(f: impl Fn(usize, &[Ty], &[Val]) -> Res + Sync) -> Res {
    let all = extremes();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= all.len() || bad.lock().unwrap().is_some() {
                        break;
                    }
                    let vs: Vec<Val> = full_vals(&all[i], i as u64).into_iter().map(no_nul).collect();
                    if let Err(e) = f(i, &all[i], &vs) {
                        *bad.lock().unwrap() = Some(e);
                    }
                })
                .unwrap();
        }
    });
    match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Several functions around the one that is asked for.
fn crowd(i: usize, ts: &[Ty], outs: &[Ty]) -> Vec<Fun> {
    let mut v: Vec<Fun> = (0..i % 40).map(|k| Fun { name: format!("f{}", k), ins: vec![kind_no(k)], outs: vec![] }).collect();
    if i % 3 != 0 {
        v.extend((0..i % 7).map(|k| Fun { name: st_("target"), ins: vec![kind_no(k), Ty::Bool, Ty::Bool, Ty::Bool, Ty::Bool], outs: outs.to_vec() }));
    }
    v.insert(v.len() / 2, Fun { name: st_("target"), ins: ts.to_vec(), outs: outs.to_vec() });
    let mut seen = std::collections::HashSet::new();
    v.retain(|f| seen.insert(f.sig()));
    v
}

fn c22_extremes() -> Res {
    extreme_args(|i, ts, vs| {
        let buf = crate::src::expand(i as u64, 4000);
        let mut s = Src::new(&buf);
        let lenient = i % 2 == 0;
        let vs: Vec<Val> = vs.iter().map(|v| no_nul(spellable(&mut s, v, false))).collect();
        let texts: Vec<String> = vs.iter().map(|v| spell(&mut s, v, lenient)).collect();
        if texts.iter().any(|t| t.len() > ARG_MAX) || ts.iter().any(|t| name(t).len() > ARG_MAX) {
            return Ok(());
        }
        let d = ref_encode(ts, &vs).bytes;
        let mut args = vec![st_("encode"), st_("params")];
        for (t, x) in ts.iter().zip(&texts) {
            args.extend([st_("-v"), name(t), x.clone()]);
        }
        if lenient {
            args.push(st_("-l"));
        }
        expect(&args, Some(hex(&d)), "")?;
        let funs = crowd(i, ts, &[]);
        let file = Scratch::new(&doc(&mut s, &funs, &[]));
        let unique = funs.iter().filter(|f| f.name == "target").count() == 1;
        let sig = format!("target({})", names(ts));
        if sig.len() > ARG_MAX {
            return Ok(());
        }
        for sel in [sig, st_("target")] {
            let mut args = vec![st_("encode"), st_("function"), file.path(), sel.clone()];
            for x in &texts {
                args.extend([st_("-p"), x.clone()]);
            }
            if lenient {
                args.push(st_("--lenient"));
            }
            let mut want = selector("target", ts).to_vec();
            want.extend_from_slice(&d);
            let ok = unique || sel != "target";
            expect(&args, if ok { Some(hex(&want)) } else { None }, "")?;
            // one value too many and too few
            let mut more = args.clone();
            more.extend([st_("-p"), st_("1")]);
            expect(&more, None, "one value too many")?;
        }
        Ok(())
    })
}

fn c23_extremes() -> Res {
    extreme_args(|i, ts, vs| {
        let buf = crate::src::expand(i as u64, 4000);
        let mut s = Src::new(&buf);
        let d = ref_encode(ts, vs).bytes;
        let sig = format!("target():({})", names(ts));
        if 2 * d.len() > ARG_MAX || sig.len() > ARG_MAX {
            return Ok(());
        }
        let mut args = vec![st_("decode"), st_("params")];
        for t in ts {
            args.extend([st_("-t"), name(t)]);
        }
        args.push(hex(&d));
        expect(&args, Some(lines(ts, vs)), "")?;
        *args.last_mut().unwrap() = hex(&d[..d.len() - 32]);
        let short = ref_decode(ts, &d[..d.len() - 32], 100_000);
        match short {
            Ok(v) if any_bool(&v) => {}
            Ok(v) => expect(&args, Some(lines(ts, &v)), "last word cut")?,
            Err(DecErr::TooMuch) => {}
            Err(_) => expect(&args, None, "last word cut")?,
        }
        let mut funs = crowd(i, &[], ts);
        funs.retain(|f| f.sig().len() < ARG_MAX);
        let unique = funs.iter().filter(|f| f.name == "target").count() == 1;
        let file = Scratch::new(&doc(&mut s, &funs, &[]));
        expect(&[st_("decode"), st_("function"), file.path(), sig, hex(&d)], Some(lines(ts, vs)), "")?;
        expect(&[st_("decode"), st_("function"), file.path(), st_("target"), hex(&d)], if unique { Some(lines(ts, vs)) } else { None }, "")?;
        drop(file);
        let n = ts.len();
        let e = Ev {
            name: st_("Target"),
            anonymous: i % 5 == 0,
            ins: ts.iter().enumerate().map(|(j, t)| (format!("p{}", j), t.clone(), j == n / 2 || (n > 3 && j == n - 1))).collect(),
        };
        let (topics, d) = e.emit(vs);
        let evs: Vec<Ev> = (0..i % 20)
            .map(|k| Ev { name: if i % 3 == 0 { st_("Target") } else { format!("E{}", k) }, anonymous: false, ins: vec![(st_("x"), kind_no(k), false), (st_("y"), Ty::Bool, true)] })
            .chain([e.clone()])
            .filter(|o| o.name == "Target" || i % 3 != 0)
            .collect();
        let sig = format!("Target({})", names(ts));
        let mut seen = std::collections::HashSet::new();
        let evs: Vec<Ev> = evs.into_iter().filter(|o| seen.insert(format!("{}({})", o.name, names(&o.tys())))).collect();
        if 2 * d.len() > ARG_MAX || evs.iter().filter(|o| format!("{}({})", o.name, names(&o.tys())) == sig).any(|o| o.ins.len() != n || o.anonymous != e.anonymous) {
            return Ok(());
        }
        let unique = evs.iter().filter(|o| o.name == "Target").count() == 1;
        let file = Scratch::new(&doc(&mut s, &[], &evs));
        let want = e.expected(vs).iter().map(|(n, v)| format!("{} {}", n, shown(v))).collect::<Vec<_>>().join("\n");
        for sel in [sig, st_("Target")] {
            let ok = unique || sel != "Target";
            let mut args = vec![st_("decode"), st_("log"), file.path(), sel];
            for t in &topics {
                args.extend([st_("-l"), hex(t)]);
            }
            args.push(hex(&d));
            expect(&args, if ok { Some(want.clone()) } else { None }, "")?;
        }
        Ok(())
    })
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C22",
        rule: "generated command lines of encode params and encode function (types, aliases, spelled and corrupted values, overloaded ABI files, selection by name, signature and damaged signature, wrong counts, missing and damaged files), each run as a process; output and status compared with the reference encoder and recognisers. Non-trivial: any type or an ABI file. Distinct by command line and ABI.",
        quick: 120_000,
        thorough: 2_400_000,
        max_len: 700,
        check: c22,
        fixed: &[("extremes", c22_extremes)],
        assumptions: &["argument texts without NUL; type names left open by C08 are skipped and counted"],
    },
    Prop {
        id: "C23",
        rule: "generated command lines of decode params, decode function and decode log (overloaded ABI files, emitted logs, damaged data, topics and hex), each run as a process; output and status compared with the reference decoder and printer. Non-trivial: any type or an ABI file. Distinct by command line and ABI.",
        quick: 120_000,
        thorough: 2_400_000,
        max_len: 700,
        check: c23,
        fixed: &[("extremes", c23_extremes)],
        assumptions: &["0x-prefixed data and topics are not generated", "boolean words 2..255 and data needing more than 20000 steps are skipped and counted"],
    },
];
