//! PRNG, hashing and small helpers
use std::collections::HashSet;

#[derive(Clone)]
pub struct Rng {
    s: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed) }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn chance_of(&mut self, n: usize, of: usize) -> bool {
        self.below(of) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn pick_char(&mut self, s: &str) -> char {
        let v: Vec<char> = s.chars().collect();
        v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// a string of a..=b characters out of the alphabet
    pub fn string(&mut self, alphabet: &str, a: usize, b: usize) -> String {
        let v: Vec<char> = alphabet.chars().collect();
        let n = self.range(a, b);
        (0..n).map(|_| v[self.below(v.len())]).collect()
    }
    /// a random subset, each element with the given percentage
    pub fn subset(&mut self, alphabet: &str, percent: usize) -> String {
        alphabet.chars().filter(|_| self.chance(percent)).collect()
    }
}

/// Statistics of the observations of a monitor
#[derive(Default, Clone)]
pub struct Stats {
    pub counters: std::collections::BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

impl Stats {
    pub fn count(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(name.to_string()).or_insert(0) += n;
        }
    }
    pub fn hit(&mut self, name: &str) {
        self.count(name, 1);
    }
    /// one oracle evaluation of something nontrivial
    pub fn eval(&mut self, key: u64) {
        self.evaluations += 1;
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn trivial(&mut self) {
        self.evaluations += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
            }
            self.samples.push(s);
        }
    }
}

pub fn join_lines(lines: &[String]) -> String {
    let mut s = lines.join("\n");
    s.push('\n');
    s
}

/// `\xHHHH` notation of anything that could not be written literally in an operand
pub fn escape_operand(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            ' ' => r.push_str("\\s"),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            '\u{b}' => r.push_str("\\v"),
            '\u{c}' => r.push_str("\\f"),
            '\u{1b}' => r.push_str("\\e"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                r.push_str(&format!("\\x{:04x}", c as u32))
            }
            c => r.push(c),
        }
    }
    r
}
