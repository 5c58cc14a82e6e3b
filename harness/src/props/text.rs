//! C17-C19: values written as text.

use crate::ctx::{clip, unhex, Ctx, Res};
use crate::model::*;
use crate::runner::Prop;
use crate::src::{expand, Src};
use crate::{ensure, fail};
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};

// ---------------------------------------------------------------- reference

/// Split the text of a list into its element texts.
pub fn split(text: &str, open: char, close: char) -> Option<Vec<String>> {
    let chars: Vec<char> = text.chars().collect();
    if chars.len() < 2 || chars[0] != open {
        return None;
    }
    let mut stack = vec![];
    let mut quoted = false;
    let mut out = vec![];
    let mut cur = String::new();
    for (i, c) in chars.iter().enumerate() {
        if !quoted {
            match c {
                '(' | '[' => stack.push(*c),
                ')' | ']' => {
                    let want = if *c == ')' { '(' } else { '[' };
                    if stack.pop() != Some(want) {
                        return None;
                    }
                    if stack.is_empty() {
                        if i + 1 != chars.len() || *c != close {
                            return None;
                        }
                        out.push(cur);
                        return Some(out);
                    }
                }
                ',' if stack.len() == 1 => {
                    out.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
        }
        if *c == '"' {
            quoted = !quoted;
        }
        if i > 0 {
            cur.push(*c);
        }
    }
    None
}

/// Decimal digits to a 256-bit word; None when empty, not digits, or too large.
pub fn dec_word(digits: &str) -> Option<[u8; 32]> {
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut w = [0u8; 32];
    for b in digits.bytes() {
        let mut carry = (b - b'0') as u32;
        for x in w.iter_mut().rev() {
            let y = *x as u32 * 10 + carry;
            *x = y as u8;
            carry = y >> 8;
        }
        if carry != 0 {
            return None;
        }
    }
    Some(w)
}

/// Decimal digits of a word.
pub fn word_dec(w: &[u8; 32]) -> String {
    let mut w = *w;
    let mut out = vec![];
    while w.iter().any(|b| *b != 0) {
        let mut rem = 0u32;
        for x in w.iter_mut() {
            let y = rem << 8 | *x as u32;
            *x = (y / 10) as u8;
            rem = y % 10;
        }
        out.push(b'0' + rem as u8);
    }
    if out.is_empty() {
        out.push(b'0');
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}

pub fn negate(w: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    let mut carry = 1u32;
    for i in (0..32).rev() {
        let y = (!w[i]) as u32 + carry;
        r[i] = y as u8;
        carry = y >> 8;
    }
    r
}

fn int_text(text: &str, signed: bool, lenient: bool) -> Option<[u8; 32]> {
    if text.len() == 64 {
        if let Some(b) = unhex(text) {
            let mut w = [0u8; 32];
            w.copy_from_slice(&b);
            return Some(w);
        }
    }
    if !lenient {
        return None;
    }
    if !signed {
        return dec_word(text);
    }
    let (neg, digits) = match text.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, text),
    };
    let w = dec_word(digits)?;
    let big = w[0] & 0x80 != 0;
    let min = w[0] == 0x80 && w[1..].iter().all(|b| *b == 0);
    match (neg, big) {
        (false, false) => Some(w),
        (false, true) => None,
        (true, false) => Some(negate(&w)),
        (true, true) => min.then(|| w),
    }
}

pub fn parse(t: &Ty, text: &str, lenient: bool) -> Option<Val> {
    Some(match t {
        Ty::Address => {
            let b = unhex(text)?;
            if b.len() != 20 {
                return None;
            }
            let mut a = [0u8; 20];
            a.copy_from_slice(&b);
            Val::Address(a)
        }
        Ty::Bool => match text {
            "true" | "1" => Val::Bool(true),
            "false" | "0" => Val::Bool(false),
            _ => return None,
        },
        Ty::Int(_) => Val::Int(int_text(text, true, lenient)?),
        Ty::Uint(_) => Val::Uint(int_text(text, false, lenient)?),
        Ty::FixedBytes(n) => {
            let b = unhex(text)?;
            if b.len() != *n {
                return None;
            }
            Val::FixedBytes(b)
        }
        Ty::Bytes => Val::Bytes(unhex(text)?),
        Ty::Str => Val::Str(text.to_string()),
        Ty::Array(t) => Val::Array(list(t, text, lenient)?),
        Ty::FixedArray(t, n) => {
            let v = list(t, text, lenient)?;
            if v.len() != *n {
                return None;
            }
            Val::FixedArray(v)
        }
        Ty::Tuple(ts) => {
            let parts = split(text, '(', ')')?;
            if parts.len() != ts.len() {
                return None;
            }
            Val::Tuple(ts.iter().zip(&parts).map(|(t, p)| parse(t, p, lenient)).collect::<Option<Vec<_>>>()?)
        }
    })
}

fn list(t: &Ty, text: &str, lenient: bool) -> Option<Vec<Val>> {
    if text == "[]" {
        return Some(vec![]);
    }
    split(text, '[', ']')?.iter().map(|p| parse(t, p, lenient)).collect()
}

// ---------------------------------------------------------------- spelling

fn mixed_hex(s: &mut Src, b: &[u8]) -> String {
    let h = crate::ctx::hex(b);
    match s.weighted(&[4, 2, 2]) {
        0 => h,
        1 => h.to_uppercase(),
        _ => h.chars().enumerate().map(|(i, c)| if i % 3 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// Is `x` one element text on its own?
pub fn element(x: &str) -> bool {
    split(&format!("[{}]", x), '[', ']').map_or(false, |v| v.len() == 1 && v[0] == x)
}

/// A string that can stand inside a list: brackets balanced, quotes paired, no bare comma.
fn list_string(s: &mut Src) -> String {
    let x: String = match s.weighted(&[3, 3, 3]) {
        0 => gen_string(s),
        1 => {
            let x: String = gen_string(s).chars().filter(|c| *c != '"').collect();
            format!("\"{}\"", x)
        }
        _ => {
            let n = s.range(1, 4);
            (0..n)
                .map(|_| {
                    s.pick(&["(a,b)", "[x]", "[(1,2),3]", "\"),(\"", "é", "\",\"", "中", "()", "[]", "x", "\"]\"", "([])", " ", "-1", "\"\"", "0"])
                        .to_string()
                })
                .collect()
        }
    };
    if element(&x) {
        x
    } else {
        x.chars().filter(|c| !",()[]\"".contains(*c)).collect()
    }
}

/// Replace strings inside composites by ones that can be spelled there, and lone empty elements.
pub fn spellable(s: &mut Src, v: &Val, inside: bool) -> Val {
    match v {
        Val::Str(x) => {
            if inside {
                if element(x) && s.bool() {
                    v.clone()
                } else {
                    Val::Str(list_string(s))
                }
            } else {
                v.clone()
            }
        }
        Val::Array(x) | Val::FixedArray(x) => {
            let mut y: Vec<Val> = x.iter().map(|v| spellable(s, v, true)).collect();
            if y.len() == 1 {
                match &mut y[0] {
                    Val::Str(x) if x.is_empty() => x.push('x'),
                    Val::Bytes(x) if x.is_empty() => x.push(7),
                    _ => {}
                }
            }
            match v {
                Val::Array(_) => Val::Array(y),
                _ => Val::FixedArray(y),
            }
        }
        Val::Tuple(x) => Val::Tuple(x.iter().map(|v| spellable(s, v, true)).collect()),
        v => v.clone(),
    }
}

pub fn spell(s: &mut Src, v: &Val, lenient: bool) -> String {
    match v {
        Val::Address(a) => mixed_hex(s, a),
        Val::Bool(b) => match (b, s.bool()) {
            (true, false) => "true".into(),
            (true, true) => "1".into(),
            (false, false) => "false".into(),
            (false, true) => "0".into(),
        },
        Val::Int(w) => {
            if lenient && s.chance(190) {
                spell_int(s, w, true)
            } else {
                mixed_hex(s, w)
            }
        }
        Val::Uint(w) => {
            if lenient && s.chance(190) {
                spell_int(s, w, false)
            } else {
                mixed_hex(s, w)
            }
        }
        Val::FixedBytes(b) | Val::Bytes(b) => mixed_hex(s, b),
        Val::Str(x) => x.clone(),
        Val::Array(x) | Val::FixedArray(x) => {
            format!("[{}]", x.iter().map(|v| spell(s, v, lenient)).collect::<Vec<_>>().join(","))
        }
        Val::Tuple(x) => format!("({})", x.iter().map(|v| spell(s, v, lenient)).collect::<Vec<_>>().join(",")),
        Val::AnyBool => unreachable!(),
    }
}

fn spell_int(s: &mut Src, w: &[u8; 32], signed: bool) -> String {
    let neg = signed && w[0] & 0x80 != 0;
    let d = word_dec(&if neg { negate(w) } else { *w });
    let z = if s.chance(40) { s.below(6) as usize } else { 0 };
    let mut d = format!("{}{}", "0".repeat(z), d);
    if d.len() == 64 && !neg {
        // 64 digits are the hex form
        d.insert(0, '0');
    }
    let minus = neg || (signed && w.iter().all(|b| *b == 0) && s.chance(40));
    if minus {
        d.insert(0, '-');
    }
    d
}

fn run(t: &Ty, text: &str, lenient: bool) -> Result<Val, String> {
    let p = to_param(t);
    let r = if lenient { LenientTokenizer::tokenize(&p, text) } else { StrictTokenizer::tokenize(&p, text) };
    r.map(|t| from_token(&t)).map_err(|e| format!("{:?}", e))
}

fn mode(lenient: bool) -> &'static str {
    if lenient {
        "lenient"
    } else {
        "strict"
    }
}

fn show1(v: &Val) -> String {
    clip(&format!("{:?}", to_token(v)), 500)
}

const CFG: TyCfg = TyCfg { depth: 4, cap: 16, tuples: true, dynamic: true };

fn spelled(s: &mut Src, lenient: bool) -> (Ty, Val, String) {
    let t = gen_ty(s, CFG);
    let mut b = 30;
    let v = gen_val(s, &t, &mut b);
    let v = spellable(s, &v, false);
    let text = spell(s, &v, lenient);
    (t, v, text)
}

fn expect(t: &Ty, text: &str, lenient: bool, want: Option<&Val>) -> Res {
    match (run(t, text, lenient), want) {
        (Ok(g), Some(w)) => {
            ensure!(g == *w, "{} {} from {:?}: got {} instead of {}", mode(lenient), name(t), clip(text, 400), show1(&g), show1(w))
        }
        (Err(_), None) => {}
        (Ok(g), None) => fail!("{} {} from {:?}: accepted as {}", mode(lenient), name(t), clip(text, 400), show1(&g)),
        (Err(e), Some(w)) => {
            fail!("{} {} from {:?}: refused ({}) instead of {}", mode(lenient), name(t), clip(text, 400), e, show1(w))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn c17(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (t, v, text) = spelled(s, false);
    ctx.nontrivial(depth(&t) > 0 || text.len() > 1);
    ctx.label_if(depth(&t) >= 2, "nested twice or more");
    ctx.label_if(depth(&t) >= 1 && !text.is_ascii(), "non-ASCII inside a list");
    ctx.label_if(has(&t, |t| is_tuple(t)) && has(&t, |t| matches!(t, Ty::Array(_) | Ty::FixedArray(..))), "tuples and arrays mixed");
    ctx.label_if(depth(&t) >= 1 && text.contains('"'), "quotes inside a list");
    ctx.ident(&(name(&t), &text));
    ctx.describe(|| format!("{} {:?}", name(&t), clip(&text, 300)));
    expect(&t, &text, false, Some(&v))?;
    // texts of leaf types that are near misses
    let t = gen_leaf(s, true);
    let mut b = 2;
    let v = gen_val(s, &t, &mut b);
    let text = spell(s, &v, false);
    let text = match s.weighted(&[2, 2, 2, 2, 2, 1, 1, 1]) {
        0 => text.chars().skip(1).collect(),
        1 => text.chars().skip(2).collect(),
        2 => format!("{}0", text),
        3 => format!("00{}", text),
        4 => format!("0x{}", text),
        5 => text.replacen('0', "g", 1),
        6 => format!(" {}", text),
        _ => format!("{} ", text),
    };
    let want = parse(&t, &text, false);
    ctx.label(if want.is_some() { "near miss still spells a value" } else { "near miss refused" });
    expect(&t, &text, false, want.as_ref())
}

// ---------------------------------------------------------------- C18

fn add_dec(d: &str, delta: i64) -> String {
    // |d| is larger than |delta| or delta >= 0
    let mut v: Vec<i64> = d.bytes().rev().map(|b| (b - b'0') as i64).collect();
    let mut carry = delta;
    let mut i = 0;
    while carry != 0 {
        if i == v.len() {
            v.push(0);
        }
        let x = v[i] + carry;
        v[i] = x.rem_euclid(10);
        carry = x.div_euclid(10);
        i += 1;
    }
    while v.len() > 1 && *v.last().unwrap() == 0 {
        v.pop();
    }
    v.iter().rev().map(|x| (b'0' + *x as u8) as char).collect()
}

fn pow2(n: usize) -> String {
    static TABLE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| (0..=300).map(pow2_slow).collect())[n].clone()
}

fn pow2_slow(n: usize) -> String {
    let mut d = "1".to_string();
    for _ in 0..n {
        let mut v: Vec<u8> = d.bytes().rev().map(|b| b - b'0').collect();
        let mut c = 0;
        for x in v.iter_mut() {
            let y = *x * 2 + c;
            *x = y % 10;
            c = y / 10;
        }
        if c > 0 {
            v.push(c);
        }
        d = v.iter().rev().map(|x| (b'0' + x) as char).collect();
    }
    d
}

/// Decimal comparison.
fn dec_le(a: &str, b: &str) -> bool {
    let (a, b) = (a.trim_start_matches('0'), b.trim_start_matches('0'));
    (a.len(), a) <= (b.len(), b)
}

fn gen_digits(s: &mut Src) -> String {
    match s.weighted(&[6, 8, 4, 4, 4, 2]) {
        5 => s.dict_num().to_string(),
        0 => s.below(1000).to_string(),
        1 => {
            let n = *s.pick(&[256usize, 255, 254, 257, 128, 64, 63, 248, 192, 260, 300]);
            let d = s.below(21) as i64 - 10;
            add_dec(&pow2(n), d)
        }
        2 => {
            let n = s.range(1, 80);
            (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
        }
        3 => {
            // one digit off the 78-digit maximum
            let m = add_dec(&pow2(if s.bool() { 256 } else { 255 }), -1);
            let i = s.below(m.len() as u64) as usize;
            let mut b = m.into_bytes();
            b[i] = b'0' + s.below(10) as u8;
            String::from_utf8(b).unwrap()
        }
        _ => {
            let k = s.range(1, 90) as usize;
            format!("{}{}", s.range(1, 9), "0".repeat(k))
        }
    }
}

fn c18(s: &mut Src, ctx: &mut Ctx) -> Res {
    // decimal numbers: expectation from the number itself
    let mut digits = gen_digits(s);
    if s.chance(50) {
        let n = s.range(1, 40) as usize;
        digits = "0".repeat(n) + &digits;
    }
    let signed = s.bool();
    let neg = s.chance(if signed { 140 } else { 40 });
    let bits = 8 * s.range(1, 32) as usize;
    let t = if signed { Ty::Int(bits) } else { Ty::Uint(bits) };
    let text = format!("{}{}", if neg { "-" } else { "" }, digits);
    let want: Option<Val> = if !neg && digits.len() == 64 {
        ctx.label("64 digits");
        let mut w = [0u8; 32];
        w.copy_from_slice(&unhex(&digits).unwrap());
        Some(if signed { Val::Int(w) } else { Val::Uint(w) })
    } else {
        let max = match (signed, neg) {
            (false, false) => add_dec(&pow2(256), -1),
            (false, true) => "-".into(),
            (true, false) => add_dec(&pow2(255), -1),
            (true, true) => pow2(255),
        };
        if max != "-" && dec_le(&digits, &max) {
            ctx.label("in range");
            let w = dec_word(&digits).unwrap();
            Some(if signed { Val::Int(if neg { negate(&w) } else { w }) } else { Val::Uint(w) })
        } else {
            ctx.label("out of range");
            None
        }
    };
    ctx.nontrivial(digits.len() > 1);
    ctx.ident(&(signed, &text));
    ctx.describe(|| format!("{} {:?}", name(&t), text));
    expect(&t, &text, true, want.as_ref())?;
    let strict_ok = want.is_some() && !neg && digits.len() == 64;
    expect(&t, &text, false, if strict_ok { want.as_ref() } else { None })?;
    // nested
    let mut wrap: Vec<(Ty, Option<Val>, String)> = vec![];
    match s.below(4) {
        0 => wrap.push((Ty::Array(Box::new(t.clone())), want.clone().map(|v| Val::Array(vec![v.clone(), v])), format!("[{0},{0}]", text))),
        1 => wrap.push((
            Ty::Tuple(vec![Ty::Bool, t.clone()]),
            want.clone().map(|v| Val::Tuple(vec![Val::Bool(true), v])),
            format!("(1,{})", text),
        )),
        2 => wrap.push((
            Ty::Tuple(vec![Ty::FixedArray(Box::new(t.clone()), 1)]),
            want.clone().map(|v| Val::Tuple(vec![Val::FixedArray(vec![v])])),
            format!("([{}])", text),
        )),
        _ => {}
    }
    for (t, v, x) in wrap {
        expect(&t, &x, true, v.as_ref())?;
    }
    // texts that are close to numbers
    let junk = match s.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3]) {
        10 => {
            let a = s.pick(&["-+", "+-", "- ", "-0x", "\u{2212}", "~", "!", "-,", "-_", "$", "#", "(", "\"", "0b", "0o", "0d", "-00", "-\t", "\n", "+0", "-0-", "\u{feff}", "'", "_", "=", "="]);
            let z = s.pick(&["", "", "", "", ")", "u", "n", "L", ".0", ".", "e0", "e1", "E2", " ", "\n", "\"", "%", "ether", " wei", "gwei", "_", ";", "+", "\u{ff11}"]);
            if s.bool() {
                format!("{}{}{}", a, digits, z)
            } else {
                format!("{}{}", digits, z)
            }
        }
        0 => String::new(),
        1 => "-".into(),
        2 => format!("--{}", digits),
        3 => format!("+{}", digits),
        4 => format!("{}-", digits),
        5 => format!(" {}", digits),
        6 => format!("0x{}", digits),
        7 => format!("{}_000", digits),
        8 => digits.chars().map(|c| if c == '1' { '١' } else { c }).collect(),
        _ => {
            let mut b: Vec<char> = digits.chars().collect();
            let i = s.below(b.len() as u64 + 1) as usize;
            b.insert(i, *s.pick(&['a', '.', ',', 'e', '-', 'x', 'F', ' ', '/', ':', '\0']));
            b.into_iter().collect()
        }
    };
    expect(&t, &junk, true, parse(&t, &junk, true).as_ref())?;
    // whole spelled values
    let (t, v, text) = spelled(s, true);
    ctx.label_if(has(&t, |t| matches!(t, Ty::Int(_) | Ty::Uint(_))) && depth(&t) > 0, "nested integers");
    ctx.ident(&(name(&t), &text));
    expect(&t, &text, true, Some(&v))?;
    // strict texts parse the same
    let (t, v, text) = spelled(s, false);
    expect(&t, &text, true, Some(&v))?;
    // without integers both modes accept the same
    let text = corrupt(s, &text);
    let a = run(&t, &text, false).ok();
    let b = run(&t, &text, true).ok();
    if a.is_some() || !has(&t, |t| matches!(t, Ty::Int(_) | Ty::Uint(_))) {
        ensure!(a == b, "{} from {:?}: strict gives {:?}, lenient gives {:?}", name(&t), clip(&text, 300), a, b);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

const BITS: &[&str] = &[
    "[", "]", "(", ")", ",", "\"", "a", "0", "1", "é", "中", "true", "-", " ", "[]", "()", "00", "😀", "false", "[1]", "(1)", ",,", "\\", "'", "{", "}", "\0", "-1", "0x", "\u{301}",
];

pub fn corrupt(s: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let n = s.weighted(&[2, 8, 4, 2]);
    for _ in 0..n {
        match s.weighted(&[5, 5, 3, 2, 2, 2, 1, 2]) {
            0 if !c.is_empty() => {
                let i = at(s, &c);
                c.remove(i);
            }
            1 => {
                let i = s.below(c.len() as u64 + 1) as usize;
                let b: Vec<char> = if s.chance(20) { s.dict_str() } else { s.pick(BITS) }.chars().collect();
                c.splice(i..i, b);
            }
            2 if !c.is_empty() => {
                let i = at(s, &c);
                let b: Vec<char> = s.pick(BITS).chars().collect();
                c.splice(i..i + 1, b);
            }
            3 if c.len() > 1 => {
                let i = s.below(c.len() as u64 - 1) as usize;
                c.swap(i, i + 1);
            }
            4 if !c.is_empty() => {
                let i = s.below(c.len() as u64) as usize;
                c.truncate(i);
            }
            5 if !c.is_empty() => {
                // duplicate a piece
                let i = s.below(c.len() as u64) as usize;
                let j = i + 1 + s.below((c.len() - i) as u64) as usize;
                let piece = c[i..j.min(i + 12)].to_vec();
                let k = s.below(c.len() as u64 + 1) as usize;
                c.splice(k..k, piece);
            }
            6 => {
                let i = s.below(3);
                let (a, b) = [('[', ']'), ('(', ')'), ('"', '"')][i as usize];
                c.insert(0, a);
                c.push(b);
            }
            _ => {
                // remove one element: up to the next comma
                if let Some(i) = c.iter().position(|x| *x == ',') {
                    let j = c[i + 1..].iter().position(|x| ",])".contains(*x)).map_or(c.len(), |j| i + 1 + j);
                    c.drain(i..j);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// The type with some parts replaced by others.
fn similar(s: &mut Src, t: &Ty) -> Ty {
    let b = |s: &mut Src, t: &Ty| Box::new(similar(s, t));
    match t {
        Ty::Array(t) => match s.weighted(&[4, 1, 1]) {
            0 => Ty::Array(b(s, t)),
            1 => Ty::FixedArray(b(s, t), 1 + s.below(3) as usize),
            _ => Ty::Tuple(vec![similar(s, t), similar(s, t)]),
        },
        Ty::FixedArray(t, n) => match s.weighted(&[4, 1, 1, 1]) {
            0 => Ty::FixedArray(b(s, t), *n),
            1 => Ty::FixedArray(b(s, t), 1 + s.below(4) as usize),
            2 => Ty::Tuple((0..*n).map(|_| similar(s, t)).collect()),
            _ => Ty::Array(b(s, t)),
        },
        Ty::Tuple(ts) => {
            let mut v: Vec<Ty> = ts.iter().map(|t| similar(s, t)).collect();
            match s.weighted(&[6, 1, 1]) {
                1 if v.len() > 1 => {
                    v.pop();
                }
                2 => v.push(Ty::Bool),
                _ => {}
            }
            Ty::Tuple(v)
        }
        t => {
            if s.weighted(&[2, 1]) == 1 {
                gen_leaf(s, true)
            } else {
                t.clone()
            }
        }
    }
}

fn at(s: &mut Src, c: &[char]) -> usize {
    // prefer structure characters
    if s.bool() {
        let p: Vec<usize> = c.iter().enumerate().filter(|(_, x)| "[](),\"".contains(**x)).map(|(i, _)| i).collect();
        if !p.is_empty() {
            return *s.pick(&p);
        }
    }
    s.below(c.len() as u64) as usize
}

fn both(t: &Ty, text: &str, ctx: &mut Ctx) -> Res {
    for lenient in [false, true] {
        let want = parse(t, text, lenient);
        if let Some(v) = &want {
            ensure!(well_typed(t, v), "model: {} {:?}", name(t), text);
        }
        ctx.label(if want.is_some() { "accepted" } else { "refused" });
        expect(t, text, lenient, want.as_ref())?;
    }
    Ok(())
}


fn c19(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (t, text) = match s.weighted(&[6, 3, 1, 2]) {
        3 => {
            // the text of a value of a similar type
            let t = gen_ty(s, CFG);
            let u = similar(s, &t);
            let mut b = 20;
            let v = gen_val(s, &u, &mut b);
            let v = spellable(s, &v, false);
            let l = s.bool();
            let mut text = spell(s, &v, l);
            if depth(&u) == 0 && s.bool() {
                // as a whole word
                let n = 64usize.saturating_sub(text.chars().count());
                text = if s.bool() { "0".repeat(n) + &text } else { text + &"0".repeat(n) };
            }
            ctx.label("text of a similar type");
            (t, text)
        }
        0 => {
            let l = s.bool();
            let (t, _, text) = spelled(s, l);
            (t, corrupt(s, &text))
        }
        1 => {
            // soup of structure pieces against small types
            let t = gen_ty(s, TyCfg { depth: 3, cap: 6, tuples: true, dynamic: true });
            let n = s.below(12);
            let mut x: String = (0..n).map(|_| s.pick(BITS).to_string()).collect();
            match t {
                Ty::Array(_) | Ty::FixedArray(..) if s.chance(200) => x = format!("[{}]", x),
                Ty::Tuple(_) if s.chance(200) => x = format!("({})", x),
                _ => {}
            }
            (t, x)
        }
        _ => {
            let t = gen_ty(s, CFG);
            (t, gen_string(s))
        }
    };
    ctx.nontrivial(depth(&t) > 0 && !text.is_empty());
    ctx.label_if(!text.is_ascii(), "non-ASCII");
    ctx.ident(&(name(&t), &text));
    ctx.describe(|| format!("{} {:?}", name(&t), clip(&text, 300)));
    both(&t, &text, ctx)
}

/// All texts of up to seven pieces over the structure alphabet.
fn c19_soup() -> Res {
    let b = |t: Ty| Box::new(t);
    let tys = [
        Ty::Array(b(Ty::Bool)),
        Ty::Array(b(Ty::Str)),
        Ty::Array(b(Ty::Array(b(Ty::Bool)))),
        Ty::Array(b(Ty::Tuple(vec![Ty::Bool]))),
        Ty::FixedArray(b(Ty::Bool), 1),
        Ty::FixedArray(b(Ty::Str), 2),
        Ty::Tuple(vec![Ty::Bool]),
        Ty::Tuple(vec![Ty::Str]),
        Ty::Tuple(vec![Ty::Bool, Ty::Bool]),
        Ty::Tuple(vec![Ty::Str, Ty::Str]),
        Ty::Tuple(vec![Ty::Array(b(Ty::Bool))]),
        Ty::Tuple(vec![Ty::Tuple(vec![Ty::Bool])]),
        Ty::Tuple(vec![Ty::Uint(8), Ty::Str]),
    ];
    let alpha = ["[", "]", "(", ")", ",", "1", "\"", "é"];
    for n in 0..=6u32 {
        let mut idx = vec![0usize; n as usize];
        loop {
            let text: String = idx.iter().map(|i| alpha[*i]).collect();
            for t in &tys {
                expect(t, &text, n % 2 == 0, parse(t, &text, n % 2 == 0).as_ref())?;
            }
            let mut i = 0;
            while i < idx.len() {
                idx[i] += 1;
                if idx[i] < alpha.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == idx.len() {
                break;
            }
        }
    }
    Ok(())
}

fn c17_leaves() -> Res {
    // every hex length around the exact one, both cases
    for n in 1..=32usize {
        for k in 0..=70usize {
            for c in ['a', 'A', '0', 'f', 'F', '9', 'g', 'G', '/', ':', '@', '`'] {
                let text = c.to_string().repeat(k);
                let t = Ty::FixedBytes(n);
                expect(&t, &text, false, parse(&t, &text, false).as_ref())?;
                if n == 1 {
                    for t in [Ty::Address, Ty::Bytes, Ty::Uint(256), Ty::Int(8), Ty::Bool, Ty::Str] {
                        expect(&t, &text, false, parse(&t, &text, false).as_ref())?;
                    }
                }
            }
        }
    }
    for x in ["true", "false", "1", "0", "", "True", "FALSE", "00", "01", "10", "yes", "t", "true ", " true", "\"true\""] {
        expect(&Ty::Bool, x, false, parse(&Ty::Bool, x, false).as_ref())?;
        expect(&Ty::Bool, x, true, parse(&Ty::Bool, x, true).as_ref())?;
    }
    Ok(())
}

fn c18_bounds() -> Res {
    let top = pow2(256);
    let half = pow2(255);
    for d in -300..=300i64 {
        let u = add_dec(&top, d);
        let h = add_dec(&half, d);
        for (t, text) in [
            (Ty::Uint(256), u.clone()),
            (Ty::Uint(8), h.clone()),
            (Ty::Int(256), h.clone()),
            (Ty::Int(256), format!("-{}", h)),
            (Ty::Int(256), u.clone()),
            (Ty::Int(256), format!("-{}", u)),
            (Ty::Int(256), d.to_string()),
            (Ty::Uint(256), d.to_string()),
        ] {
            expect(&t, &text, true, parse(&t, &text, true).as_ref())?;
        }
    }
    for n in 0..=256usize {
        for d in -1..=1i64 {
            let x = if n == 0 && d < 0 { "0".to_string() } else { add_dec(&pow2(n), d) };
            for (t, text) in [(Ty::Uint(256), x.clone()), (Ty::Int(256), x.clone()), (Ty::Int(256), format!("-{}", x))] {
                expect(&t, &text, true, parse(&t, &text, true).as_ref())?;
            }
        }
    }
    Ok(())
}

/// Extreme types: spelled values, and the same texts damaged in a few places.
fn extreme_texts(lenient: bool, damaged: bool) -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        for (k, t) in ts.iter().enumerate() {
            if ts.len() > 3 && k > 0 {
                break; // wide lists of plain types: their tuple comes separately
            }
            for round in 0..2u64 {
                let buf = expand(1 + i as u64 * 2 + round, 3000);
                let mut s = Src::new(&buf);
                let v = full_val(t, i as u64 + round);
                let v = spellable(&mut s, &v, false);
                let text = spell(&mut s, &v, lenient && !(damaged && round == 1));
                if !damaged {
                    expect(t, &text, lenient, Some(&v))?;
                    continue;
                }
                if text.len() > 2500 && (i as u64 + round) % 4 != 0 {
                    continue;
                }
                for _ in 0..3 {
                    let bad = corrupt(&mut s, &text);
                    both(t, &bad, &mut Ctx::new(false))?;
                }
                // the last closing bracket dropped, doubled, or of the other kind; a late comma
                let cut = &text[..text.char_indices().last().map_or(0, |x| x.0)];
                for bad in [cut.to_string(), format!("{}]", text), format!("{})", text), format!("{}]", cut), format!("{})", cut), format!("{},{}", cut, &text[cut.len()..])] {
                    both(t, &bad, &mut Ctx::new(false))?;
                }
            }
        }
    }
    Ok(())
}

/// Lists of many elements and elements of many characters.
fn long_texts(lenient: bool) -> Res {
    for n in crate::dict::with(&[1, 2, 9, 10, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096], 1, 10_000) {
        for k in 0..8 {
            let leaf = match k {
                0 => Ty::Uint(256),
                1 => Ty::Int(64),
                2 => Ty::Str,
                3 => Ty::Bytes,
                4 => Ty::Bool,
                5 => Ty::Tuple(vec![Ty::Str, Ty::Bool]),
                6 => Ty::Array(Box::new(Ty::Bool)),
                _ => Ty::Address,
            };
            let buf = expand((n * 8 + k) as u64, 4000);
            let mut s = Src::new(&buf);
            let vs: Vec<Val> = (0..n).map(|i| full_val(&leaf, i as u64)).collect();
            let (t, v) = if n % 2 == 0 { (Ty::Array(Box::new(leaf)), Val::Array(vs)) } else { (Ty::FixedArray(Box::new(leaf), n), Val::FixedArray(vs)) };
            let v = spellable(&mut s, &v, false);
            let text = spell(&mut s, &v, lenient);
            expect(&t, &text, lenient, Some(&v))?;
            if let Ty::FixedArray(l, n) = &t {
                expect(&Ty::FixedArray(l.clone(), n + 1), &text, lenient, None)?;
                if *n > 1 {
                    expect(&Ty::FixedArray(l.clone(), n - 1), &text, lenient, None)?;
                }
            }
        }
        let x = "é,)".repeat(n);
        expect(&Ty::Str, &x, lenient, Some(&Val::Str(x.clone())))?;
        let q = format!("\"{}\"", x);
        let v = Val::Tuple(vec![Val::Str(q.clone()), Val::Bytes(vec![0xab; n])]);
        expect(&Ty::Tuple(vec![Ty::Str, Ty::Bytes]), &format!("({},{})", q, "Ab".repeat(n)), lenient, Some(&v))?;
    }
    for n in crate::dict::with(&[65_535, 65_536, 70_000, 600_000], 4096, 300_000) {
        expect(&Ty::Bytes, &"7F".repeat(n), lenient, Some(&Val::Bytes(vec![0x7f; n])))?;
        expect(&Ty::Bytes, &"7".repeat(2 * n + 1), lenient, None)?;
        let x = "[ö,".repeat(n);
        expect(&Ty::Str, &x, lenient, Some(&Val::Str(x.clone())))?;
        let bools = Val::Array((0..n).map(|i| Val::Bool(i % 3 == 1)).collect());
        let text: Vec<&str> = (0..n).map(|i| if i % 3 == 1 { "1" } else { "false" }).collect();
        expect(&Ty::Array(Box::new(Ty::Bool)), &format!("[{}]", text.join(",")), lenient, Some(&bools))?;
        expect(&Ty::Array(Box::new(Ty::Bool)), &format!("[{},2]", text.join(",")), lenient, None)?;
    }
    Ok(())
}
fn c17_extremes() -> Res {
    extreme_texts(false, false)?;
    long_texts(false)
}
fn c18_extremes() -> Res {
    extreme_texts(true, false)?;
    long_texts(true)
}
fn c19_extremes() -> Res {
    extreme_texts(true, true)
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        rule: "values of generated types spelled with varied hex case, boolean forms, quoted and bracketed strings; parsed in strict mode and compared with the value; plus near misses of leaf texts against a reference recogniser. Non-trivial: composite type or text longer than one character. Distinct by (type, text).",
        quick: 9_000_000,
        thorough: 120_000_000,
        max_len: 700,
        check: c17,
        fixed: &[("leaf-lengths", c17_leaves), ("extremes", c17_extremes)],
        assumptions: &["a one-element list whose element text is empty is spelled like the empty list and is not generated"],
    },
    Prop {
        id: "C18",
        rule: "decimal numbers around every range boundary with leading zeros and signs, expectation computed from the number in decimal arithmetic; near-number texts; nested; whole spelled values in lenient mode; strict texts and corrupted texts in both modes. Non-trivial: more than one digit. Distinct by (signedness, text, nested text).",
        quick: 900_000,
        thorough: 12_000_000,
        max_len: 900,
        check: c18,
        fixed: &[("bounds", c18_bounds), ("extremes", c18_extremes)],
        assumptions: &["a text of 64 decimal digits is the hex form"],
    },
    Prop {
        id: "C19",
        rule: "corrupted spellings, soups of brackets, quotes, commas and values, and random Unicode against generated types in both modes, compared with a reference recogniser; plus all texts of up to six structure pieces against thirteen types. Non-trivial: composite type and non-empty text. Distinct by (type, text).",
        quick: 2_700_000,
        thorough: 36_000_000,
        max_len: 600,
        check: c19,
        fixed: &[("soup", c19_soup), ("extremes", c19_extremes)],
        assumptions: &["the text [] is the empty list for every element type"],
    },
];
