//! Hyphenation by patterns (Liang)
#[derive(Clone, Debug, Default)]
pub struct Hyph {
    pats: Vec<(Vec<char>, Vec<u32>)>,
    left: usize,
    right: usize,
}

/// the letters of a pattern, and the values between them: of several digits the last counts
fn score(l: &str) -> (Vec<char>, Vec<u32>) {
    let mut letters = vec![];
    let mut score = vec![0];
    for c in l.chars() {
        if let Some(d) = c.to_digit(10) {
            *score.last_mut().unwrap() = d;
        } else {
            letters.push(c);
            score.push(0);
        }
    }
    (letters, score)
}

impl Hyph {
    /// the first malformed line, and what is wrong with it
    pub fn fault(text: &str) -> Option<(usize, &'static str)> {
        for (i, l) in text.lines().enumerate() {
            let l = l.trim();
            let n = i + 1;
            if l.is_empty() || l.starts_with('#') || l.starts_with('%') {
                continue;
            }
            if n == 1 && l.to_lowercase() == "utf-8" {
                continue;
            }
            if n == 1 && l.to_uppercase() == "ISO8859-1" {
                return Some((1, "encoding"));
            }
            let minimum = l.strip_prefix("LEFTHYPHENMIN").or_else(|| l.strip_prefix("RIGHTHYPHENMIN"));
            if let Some(v) = minimum {
                let v = v.trim();
                if v.is_empty() || !v.chars().all(|c| c.is_ascii_digit()) || v.parse::<u64>().is_err() {
                    return Some((n, "minimum"));
                }
            } else if score(l).1.iter().all(|d| *d == 0) {
                return Some((n, "value"));
            }
        }
        None
    }

    pub fn parse(text: &str) -> Option<Hyph> {
        let mut h = Hyph { pats: vec![], left: 1, right: 1 };
        for (n, l) in text.lines().enumerate() {
            let l = l.trim();
            // the encoding may be named, only UTF-8 will do
            if n == 0 && l.to_lowercase() == "utf-8" {
                continue;
            }
            if n == 0 && l.to_uppercase() == "ISO8859-1" {
                return None;
            }
            if l.is_empty() || l.starts_with('#') || l.starts_with('%') {
                continue;
            }
            if let Some(v) = l.strip_prefix("LEFTHYPHENMIN") {
                h.left = v.trim().parse().ok()?;
                continue;
            }
            if let Some(v) = l.strip_prefix("RIGHTHYPHENMIN") {
                h.right = v.trim().parse().ok()?;
                continue;
            }
            let (letters, score) = score(l);
            if let Some(p) = h.pats.iter_mut().find(|p| p.0 == letters) {
                p.1 = score;
            } else {
                h.pats.push((letters, score));
            }
        }
        Some(h)
    }

    /// whether the word may be broken after each of its characters
    pub fn breaks(&self, word: &[char]) -> Vec<bool> {
        let n = word.len();
        let mut r = vec![false; n];
        if n < self.left + self.right {
            return r;
        }
        let mut w = vec!['.'];
        w.extend(word);
        w.push('.');
        let mut gap = vec![0u32; w.len() + 1];
        for (letters, score) in &self.pats {
            for p in 0..w.len() {
                if w[p..].starts_with(letters) {
                    for (k, s) in score.iter().enumerate() {
                        gap[p + k] = gap[p + k].max(*s);
                    }
                }
            }
        }
        // the break after character i leaves i + 1 characters before it
        for i in 0..n {
            r[i] = i + 1 >= self.left && n - (i + 1) >= self.right && i + 1 < n && gap[i + 2] % 2 == 1;
        }
        r
    }
}
