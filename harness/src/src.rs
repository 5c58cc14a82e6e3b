//! Choice stream: every generator is a pure function of a byte string.
//! An exhausted stream yields zeros, and zero always means the simplest choice,
//! so deleting or lowering bytes shrinks the generated case.

pub struct Src<'a> {
    data: &'a [u8],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn left(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }
    pub fn u8(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        b
    }
    pub fn uint(&mut self, bytes: usize) -> u64 {
        let mut x = 0u64;
        for _ in 0..bytes {
            x = (x << 8) | self.u8() as u64;
        }
        x
    }
    /// Uniform in 0..n, monotone in the choice bytes.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let k = if n <= 256 {
            1
        } else if n <= 1 << 16 {
            2
        } else if n <= 1 << 32 {
            4
        } else {
            8
        };
        // one more byte than needed keeps the bias small for n that do not divide 256
        let (k, bits) = if k == 1 && 256 % n != 0 { (2, 16) } else { (k, 8 * k as u32) };
        let x = self.uint(k) as u128;
        ((x * n as u128) >> bits) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True in about `num` of 256 cases; false when exhausted.
    pub fn chance(&mut self, num: u32) -> bool {
        (self.u8() as u32) >= 256 - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(128)
    }
    /// Index into a weight table; the first entry is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as u64) as u32;
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// `n` bytes of content: short ones straight from the stream, long ones expanded from a seed.
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        match self.weighted(&[6, 4, 2, 4, 2, 1]) {
            0 if n <= 48 => self.bytes(n),
            2 => vec![0u8; n],
            3 => vec![0xffu8; n],
            4 => (0..n).map(|i| (i + 1) as u8).collect(),
            5 => {
                let d = self.dict_bytes();
                let fill = *self.pick(&[0u8, 0xff, 0x61]);
                let mut v = vec![fill; n];
                let k = d.len().min(n);
                match self.below(4) {
                    0 => v[..k].copy_from_slice(&d[..k]),
                    1 => v[n - k..].copy_from_slice(&d[d.len() - k..]),
                    2 => {
                        let i = self.below((n - k) as u64 + 1) as usize;
                        v[i..i + k].copy_from_slice(&d[..k])
                    }
                    _ if k > 0 => v.iter_mut().enumerate().for_each(|(i, x)| *x = d[i % d.len()]),
                    _ => {}
                }
                v
            }
            _ => {
                let seed = self.uint(4);
                expand(seed, n)
            }
        }
    }
}

impl<'a> Src<'a> {
    /// A number of the dictionary or a neighbour.
    pub fn dict_num(&mut self) -> u128 {
        let d = crate::dict::dict();
        if d.nums.is_empty() {
            return 0;
        }
        let n = d.nums[self.below(d.nums.len() as u64) as usize];
        match self.weighted(&[6, 2, 2, 1]) {
            0 => n,
            1 => n.saturating_sub(1),
            2 => n.saturating_add(1),
            _ => n.saturating_mul(32),
        }
    }
    pub fn dict_size(&mut self, max: usize) -> usize {
        self.dict_num().min(max as u128) as usize
    }
    /// A text of the dictionary.
    pub fn dict_str(&mut self) -> &'static str {
        let d = crate::dict::dict();
        if d.strs.is_empty() {
            return "";
        }
        &d.strs[self.below(d.strs.len() as u64) as usize]
    }
    /// A text, the bytes a text spells in hexadecimal, or a big-endian number.
    pub fn dict_bytes(&mut self) -> Vec<u8> {
        if self.bool() {
            let n = self.dict_num().to_be_bytes();
            let z = n.iter().take_while(|b| **b == 0).count().min(15);
            return n[z..].to_vec();
        }
        let t = self.dict_str();
        match crate::ctx::unhex(t.trim_start_matches("0x")) {
            Some(b) if !b.is_empty() => b,
            _ => t.as_bytes().to_vec(),
        }
    }
}

/// Deterministic expansion of a seed (splitmix64).
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 8);
    let mut s = seed.wrapping_add(0x9e3779b97f4a7c15);
    while out.len() < n {
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(n);
    out
}
