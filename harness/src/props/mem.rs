//! C05: memory allocated by decoding, measured with a counting allocator.

use crate::ctx::{hexclip, Ctx, Res};
use crate::model::*;
use crate::runner::Prop;
use crate::src::Src;
use crate::{ensure, fail};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + n);
                if n > 0 {
                    PEAK.with(|p| p.set(p.get().max(l.get())));
                    TOTAL.with(|t| t.set(t.get() + n));
                    BIGGEST.with(|b| b.set(b.get().max(n)));
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // a moving reallocation holds both blocks for a moment
        add(n as i64);
        add(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// Peak live bytes and the largest single request while `f` runs on this thread.
pub fn measure<T, F: FnOnce() -> T>(f: F) -> (T, i64, i64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    TOTAL.with(|l| l.set(0));
    BIGGEST.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, PEAK.with(|p| p.get()), BIGGEST.with(|p| p.get()))
}

fn claim(s: &mut Src) -> u64 {
    // from clearly above the data to the largest value the format admits
    let e = s.range(21, 32);
    let m = match s.weighted(&[2, 1, 1]) {
        0 => 1u64 << e.min(31),
        1 => (1u64 << e) - 1,
        _ => (1u64 << (e - 1)) + s.below(1 << 20),
    };
    m.min((1 << 32) - 1)
}

fn type_weight(t: &Ty) -> u64 {
    match t {
        Ty::Array(t) => 1 + type_weight(t),
        Ty::FixedArray(t, n) => 1 + *n as u64 * type_weight(t),
        Ty::Tuple(ts) => 1 + ts.iter().map(type_weight).sum::<u64>(),
        _ => 1,
    }
}

fn bound(ts: &[Ty], data: &[u8], d: &Decoder) -> i64 {
    let tw: u64 = ts.iter().map(type_weight).sum();
    let dep = ts.iter().map(depth).max().unwrap_or(0) as u64;
    let b = 65_536 + 64 * data.len() as u64 * (1 + dep) + 1024 * (d.elements + tw) + 16 * d.delivered;
    b as i64
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Processor time of this thread, which other processes do not add to.
fn cpu() -> std::time::Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    std::time::Duration::new(t.sec as u64, t.nsec as u32)
}

/// Decoding of a few kilobytes that takes a second, three times over, does not go by the data.
fn slow(params: &[ethabi::ParamType], data: &[u8], first: std::time::Duration) -> bool {
    let lim = std::time::Duration::from_millis(1000) * (1 + data.len() as u32 / 100_000);
    let mut best = first;
    for _ in 0..2 {
        if best <= lim {
            return false;
        }
        let t = cpu();
        let _ = ethabi::decode(params, data);
        best = best.min(cpu() - t);
    }
    best > lim
}

/// One case: memory and time of decoding, and the verdict.
fn within(ts: &[Ty], data: &[u8], what: &str) -> Res {
    let mut d = Decoder::new(data, 100_000);
    let exp = d.run(ts);
    if exp == Err(DecErr::TooMuch) {
        return Ok(());
    }
    let b = bound(ts, data, &d);
    let params = to_params(ts);
    let t0 = cpu();
    let (r, peak, biggest) = measure(|| ethabi::decode(&params, data));
    let n = crate::ctx::clip(&names(ts), 400);
    ensure!(peak <= b, "decoding ({}) {} from {} bytes used {} bytes at peak (largest request {}), bound {}", n, what, data.len(), peak, biggest, b);
    ensure!(!slow(&params, data, cpu() - t0), "decoding ({}) {} from {} bytes takes more than a second", n, what, data.len());
    ensure!(r.is_ok() == exp.is_ok(), "decoding ({}) {} from {} bytes: {}", n, what, data.len(), if r.is_ok() { "accepted" } else { "refused" });
    Ok(())
}

/// Extreme types with a huge claim in several of their length words, alone and all at once.
fn extremes_claimed() -> Res {
    for (i, ts) in extremes().iter().enumerate() {
        let vs = full_vals(ts, i as u64);
        let e = ref_encode(ts, &vs);
        within(ts, &e.bytes, "unchanged")?;
        let lens = word_positions(&e, Role::Length);
        let step = 1 + lens.len() / 6;
        for (k, at) in lens.iter().step_by(step).enumerate() {
            let mut d = e.bytes.clone();
            put(&mut d, *at, [u32::MAX as u64, 1 << 31, 1 << 26, 0xffff_ff00, 1 << 22][(i + k) % 5]);
            within(ts, &d, "with a huge length")?;
            // the claim far behind valid elements, with the data cut
            within(ts, &d[..d.len() - 32], "with a huge length, cut")?;
        }
        let mut d = e.bytes.clone();
        for at in &lens {
            put(&mut d, *at, 1 << 30);
        }
        within(ts, &d, "with huge lengths")?;
    }
    Ok(())
}

/// Claims behind long runs of valid elements: arrays, byte strings, arrays of byte strings.
fn long_then_claim() -> Res {
    for n in [100usize, 1000, 5000, 20_000] {
        for k in 0..5 {
            let t = match k {
                0 => Ty::Array(Box::new(Ty::Uint(256))),
                1 => Ty::Array(Box::new(Ty::Bytes)),
                2 => Ty::Array(Box::new(Ty::Tuple(vec![Ty::Uint(8), Ty::Bool]))),
                3 => Ty::Bytes,
                _ => Ty::Str,
            };
            let v = match k {
                0 => Val::Array((0..n).map(|_| Val::Uint([1; 32])).collect()),
                1 => Val::Array((0..n).map(|_| Val::Bytes(vec![7])).collect()),
                2 => Val::Array((0..n).map(|_| Val::Tuple(vec![Val::Uint([0; 32]), Val::Bool(true)])).collect()),
                3 => Val::Bytes(vec![5; 32 * n]),
                _ => Val::Str("x".repeat(32 * n)),
            };
            let ts = [t];
            let e = ref_encode(&ts, &[v]);
            within(&ts, &e.bytes, "unchanged")?;
            for c in [n as u64 * 40, 1 << 24, 1 << 29, u32::MAX as u64] {
                let mut d = e.bytes.clone();
                put(&mut d, 32, c);
                within(&ts, &d, "with a huge length")?;
            }
            if k == 1 {
                let at = *word_positions(&e, Role::Length).last().unwrap();
                let mut d = e.bytes.clone();
                put(&mut d, at, 1 << 31);
                within(&ts, &d, "with a huge length in the last element")?;
            }
        }
    }
    Ok(())
}

fn c05(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cfg = TyCfg { depth: 4, cap: 24, tuples: true, dynamic: true };
    let mut ts = gen_tys(s, cfg, 3);
    if !ts.iter().any(dynamic) {
        let t = match s.weighted(&[3, 1, 1, 1]) {
            0 => Ty::Array(Box::new(gen_ty(s, TyCfg { depth: 2, ..cfg }))),
            1 => Ty::Bytes,
            2 => Ty::Str,
            _ => Ty::Array(Box::new(Ty::Bytes)),
        };
        ts.push(t);
    }
    let vs = gen_vals(s, &ts, 60);
    let e = ref_encode(&ts, &vs);
    let mut data = e.bytes.clone();
    let lens: Vec<usize> = word_positions(&e, Role::Length);
    let mode = s.weighted(&[6, 1, 2]);
    let mut corrupted = vec![];
    if mode == 0 || mode == 2 {
        let k = 1 + s.below(2) as usize;
        for _ in 0..k {
            if lens.is_empty() {
                break;
            }
            let at = *s.pick(&lens);
            let c = claim(s);
            put(&mut data, at, c);
            corrupted.push((at, c));
        }
    }
    if mode == 2 {
        // an offset word pointing at a huge number planted at the end
        let offs = word_positions(&e, Role::Offset);
        if !offs.is_empty() {
            let at = *s.pick(&offs);
            let target = data.len() as u64;
            let mut w = [0u8; 32];
            let c = claim(s);
            w[24..].copy_from_slice(&c.to_be_bytes());
            data.extend_from_slice(&w);
            put(&mut data, at, target);
            corrupted.push((at, target));
            ctx.label("offset redirected to a huge length");
        }
    }
    ctx.ident(&(names(&ts), &data));
    ctx.describe(|| format!("types=({}) corrupted={:?} data={}", names(&ts), corrupted, hexclip(&data)));
    let mut d = Decoder::new(&data, 100_000);
    let exp = d.run(&ts);
    if exp == Err(DecErr::TooMuch) {
        ctx.skipped = true;
        return Ok(());
    }
    ctx.nontrivial(!corrupted.is_empty());
    ctx.label_if(exp.is_ok(), "decodes");
    ctx.label_if(exp.is_err(), "refused");
    let b = bound(&ts, &data, &d);
    let params = to_params(&ts);
    let t0 = cpu();
    let (r, peak, biggest) = measure(|| ethabi::decode(&params, &data));
    if slow(&params, &data, cpu() - t0) {
        fail!("decoding ({}) from {} bytes takes more than a second; corrupted {:?}", names(&ts), data.len(), corrupted);
    }
    if peak > b {
        fail!(
            "decoding ({}) from {} bytes used {} bytes at peak (largest request {}), bound {} ({} elements reached); corrupted {:?}",
            names(&ts), data.len(), peak, biggest, b, d.elements, corrupted
        );
    }
    ensure!(
        r.is_ok() || exp.is_err(),
        "decoding ({}) refused data that encodes values; data={}",
        names(&ts),
        hexclip(&data)
    );
    ensure!(
        r.is_err() || exp.is_ok(),
        "decoding ({}) accepted data whose length words exceed it; data={}",
        names(&ts),
        hexclip(&data)
    );
    Ok(())
}

pub fn word_positions(e: &Enc, r: Role) -> Vec<usize> {
    (0..e.bytes.len() / 32).map(|i| 32 * i).filter(|i| e.roles[*i] == r).collect()
}

pub fn put(data: &mut [u8], at: usize, n: u64) {
    for b in &mut data[at..at + 24] {
        *b = 0
    }
    data[at + 24..at + 32].copy_from_slice(&n.to_be_bytes());
}

/// Fixed claims on every dynamic kind, smallest first.
fn ladder() -> Res {
    let kinds: Vec<Ty> = vec![
        Ty::Array(Box::new(Ty::Uint(256))),
        Ty::Array(Box::new(Ty::Bytes)),
        Ty::Array(Box::new(Ty::Array(Box::new(Ty::Bool)))),
        Ty::Array(Box::new(Ty::Tuple(vec![Ty::Bool, Ty::Str]))),
        Ty::Array(Box::new(Ty::FixedArray(Box::new(Ty::Address), 3))),
        Ty::Bytes,
        Ty::Str,
    ];
    for e in [18u32, 20, 22, 24, 26, 28, 30, 31, 32] {
        for inner in 0..3 {
            for k in &kinds {
                let ts = match inner {
                    0 => vec![k.clone()],
                    1 => vec![Ty::Tuple(vec![Ty::Bool, k.clone()])],
                    _ => vec![Ty::FixedArray(Box::new(k.clone()), 2)],
                };
                let n = if e == 32 { (1u64 << 32) - 1 } else { 1u64 << e };
                let words: Vec<u64> = match inner {
                    0 => vec![32, n, 0, 0],
                    1 => vec![32, 1, 64, n, 0, 0],
                    _ => vec![32, 64, 64, n, 0, 0],
                };
                let mut data = vec![];
                for w in words {
                    data.extend_from_slice(&[0u8; 24]);
                    data.extend_from_slice(&w.to_be_bytes());
                }
                let mut d = Decoder::new(&data, 100_000);
                ensure!(d.run(&ts).is_err(), "model error");
                let b = bound(&ts, &data, &d);
                let params = to_params(&ts);
                let t0 = cpu();
                let (r, peak, _) = measure(|| ethabi::decode(&params, &data));
                ensure!(peak <= b, "({}) with claimed length {} used {} bytes, bound {}", names(&ts), n, peak, b);
                ensure!(!slow(&params, &data, cpu() - t0), "({}) with claimed length {} takes more than a second", names(&ts), n);
                ensure!(r.is_err(), "({}) with claimed length {} was accepted", names(&ts), n);
            }
        }
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C05",
    rule: "valid encodings of generated types whose length words (1-2 of them) or an offset are overwritten with claims of 2^20..2^32-1; the thread's peak live allocation during decode is compared with 64KiB + 64*len*(1+type depth) + 1024*(elements reached + type size) + 16*content bytes. Non-trivial: at least one corrupted word. Distinct by (types, data).",
    quick: 6_000_000,
    thorough: 80_000_000,
    max_len: 500,
    check: c05,
    fixed: &[("claim-ladder", ladder), ("extremes", extremes_claimed), ("long", long_then_claim)],
    assumptions: &["elements reached are counted by the reference decoder; cases beyond 100000 steps are skipped and counted"],
}];
