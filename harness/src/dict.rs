//! Dictionary: numbers and texts written as literals in the sources under test. They only steer
//! generation (sizes, words, contents, names) towards values the code treats specially; no
//! verdict depends on them. A replay file carries the dictionary of its run.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug, Clone)]
pub struct Dict {
    pub nums: Vec<u128>,
    pub strs: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut nums = BTreeSet::new();
        let mut strs = BTreeSet::new();
        for d in ["ethabi/src", "cli/src", "derive/src", "contract/src"] {
            visit(&Path::new("/repo").join(d), &mut nums, &mut strs);
        }
        Dict { nums: nums.into_iter().take(2000).collect(), strs: strs.into_iter().take(2000).collect() }
    })
}

pub fn to_json() -> serde_json::Value {
    let d = dict();
    serde_json::json!({"nums": d.nums.iter().map(|n| n.to_string()).collect::<Vec<_>>(), "strs": d.strs})
}

/// Use the dictionary of a recorded run.
pub fn install(v: &serde_json::Value) {
    let list = |k: &str| v[k].as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect::<Vec<_>>());
    let _ = DICT.set(Dict { nums: list("nums").iter().filter_map(|s| s.parse().ok()).collect(), strs: list("strs") });
}

/// The sizes `own`, and those next to the numbers of the dictionary from `min` to `max`.
pub fn with(own: &[usize], min: usize, max: usize) -> Vec<usize> {
    let mut out: BTreeSet<usize> = own.iter().copied().collect();
    out.extend(sizes(max, &[1, 32]).into_iter().filter(|n| *n >= min));
    out.into_iter().collect()
}

/// Sizes next to multiples of the numbers of the dictionary, no larger than `max`.
pub fn sizes(max: usize, by: &[u128]) -> Vec<usize> {
    let mut out = BTreeSet::new();
    for &n in &dict().nums {
        for &k in by {
            if let Some(m) = n.checked_mul(k) {
                for x in [m.saturating_sub(1), m, m.saturating_add(1)] {
                    if x <= max as u128 {
                        out.insert(x as usize);
                    }
                }
            }
        }
    }
    out.into_iter().take(400).collect()
}

fn visit(dir: &Path, nums: &mut BTreeSet<u128>, strs: &mut BTreeSet<String>) {
    let mut es: Vec<_> = match std::fs::read_dir(dir) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    es.sort();
    for p in es {
        if p.is_dir() {
            visit(&p, nums, strs);
        } else if p.extension().map_or(false, |e| e == "rs") && p.file_stem().map_or(true, |n| n != "tests") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                literals(&t, nums, strs);
            }
        }
    }
}

/// Literals of one source file, without comments and test modules.
pub fn literals(text: &str, nums: &mut BTreeSet<u128>, strs: &mut BTreeSet<String>) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // depth at which a test module opened
    let (mut depth, mut test, mut armed) = (0i64, None::<i64>, false);
    while i < c.len() {
        let ch = c[i];
        match ch {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1
                }
                i += 2;
            }
            '#' if c[i..].iter().take(12).collect::<String>() == "#[cfg(test)]" => {
                armed = true;
                i += 12;
            }
            '{' => {
                if armed && test.is_none() {
                    test = Some(depth);
                }
                armed = false;
                depth += 1;
                i += 1;
            }
            '}' => {
                depth -= 1;
                if test == Some(depth) {
                    test = None;
                }
                i += 1;
            }
            ';' => {
                armed = false;
                i += 1;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'x' => {
                                let h: String = c[i + 1..].iter().take(2).collect();
                                s.push(u8::from_str_radix(&h, 16).map_or('x', |b| b as char));
                                i += 2;
                            }
                            'u' => {
                                let h: String = c[i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                                s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('u'));
                                while i < c.len() && c[i] != '}' {
                                    i += 1
                                }
                            }
                            '\n' => {}
                            x => s.push(x),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                if test.is_none() {
                    add_str(&s, nums, strs);
                }
            }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#') && !(i > 0 && (c[i - 1].is_alphanumeric() && c[i - 1] != 'b' || c[i - 1] == '_')) => {
                let mut h = 0;
                while at(i + 1 + h) == '#' {
                    h += 1;
                }
                if at(i + 1 + h) != '"' {
                    i += 1;
                    continue;
                }
                i += 2 + h;
                let mut s = String::new();
                while i < c.len() && !(c[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#')) {
                    s.push(c[i]);
                    i += 1;
                }
                i += 1 + h;
                if test.is_none() {
                    add_str(&s, nums, strs);
                }
            }
            '\'' => {
                // a character, or a lifetime
                if at(i + 1) == '\\' {
                    let mut j = i + 3;
                    while j < c.len() && c[j] != '\'' {
                        j += 1;
                    }
                    i = j + 1;
                } else if at(i + 2) == '\'' {
                    if test.is_none() {
                        strs.insert(at(i + 1).to_string());
                    }
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut j = i;
                while at(j).is_alphanumeric() || at(j) == '_' {
                    j += 1;
                }
                let w: String = c[i..j].iter().filter(|x| **x != '_').collect();
                if test.is_none() {
                    if let Some(n) = number(&w) {
                        nums.insert(n);
                    }
                }
                i = j;
            }
            a if a.is_alphabetic() || a == '_' => {
                // identifiers; a string prefix is looked at by the next round
                let mut j = i + 1;
                while at(j).is_alphanumeric() || at(j) == '_' {
                    j += 1;
                }
                i = if at(j) == '#' && at(j - 1) == 'r' && j - i <= 2 { j - 1 } else { j };
                if at(j) == '#' && i == j - 1 {
                    // r# : raw string or raw identifier
                    if at(j + 1) != '"' && at(j + 1) != '#' {
                        i = j + 1;
                    }
                }
            }
            _ => i += 1,
        }
    }
}

fn number(w: &str) -> Option<u128> {
    let mut w = w.to_ascii_lowercase();
    for suf in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
        if w.ends_with(suf) {
            w.truncate(w.len() - suf.len());
            break;
        }
    }
    match w.get(..2) {
        Some("0x") => u128::from_str_radix(&w[2..], 16).ok(),
        Some("0b") => u128::from_str_radix(&w[2..], 2).ok(),
        Some("0o") => u128::from_str_radix(&w[2..], 8).ok(),
        _ => w.parse().ok(),
    }
}

fn add_str(s: &str, nums: &mut BTreeSet<u128>, strs: &mut BTreeSet<String>) {
    if s.is_empty() || s.chars().count() > 70 || s.contains('{') {
        return;
    }
    if let Ok(n) = s.parse() {
        nums.insert(n);
    }
    strs.insert(s.to_string());
}
