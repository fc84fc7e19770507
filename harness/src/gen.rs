//! Random tables and texts, in the part of the table language that the model covers
use crate::util::{escape_operand, Rng};

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub lines: Vec<String>,
    pub lower: String,
    pub upper: String,
    pub digits: String,
    pub punct: String,
    pub other: String,
    pub space: String,
    pub undef: String,
    /// operands of rules, to build texts that use them
    pub words: Vec<String>,
    /// dots operands of rules, to build braille texts
    pub dots_used: Vec<String>,
    pub classes: Vec<String>,
    pub swaps: Vec<String>,
    /// the variables that are used
    pub vars: [u8; 2],
    next_cell: u32,
}

/// the opcodes that can be restricted to one direction
pub const DIR_OK: &[&str] = &[
    "display", "multind", "space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign",
    "math", "modeletter", "capsletter", "begmodeword", "begcapsword", "endcapsword", "begemph", "endemph", "begcomp",
    "endcomp", "hyphen", "compbrl", "always", "repeated", "word", "lowword", "sufword", "prfword", "begword",
    "begmidword", "midword", "midendword", "endword", "partword", "prepunc", "postpunc", "begnum", "midnum", "endnum",
    "joinnum", "context", "pass2", "pass3", "pass4", "correct", "match", "nocontractsign", "nonumsign",
];

pub const LETTER_CELLS: &str = "1 12 14 145 15 124 1245 125 24 245 13 123 134 1345 135 1234 12345 1235 234 2345 136 1236 2456 1346 13456 1356";

pub fn cell_text(mut bits: u32) -> String {
    if bits == 0 {
        return "0".into();
    }
    let mut s = String::new();
    for d in "123456789abcdef".chars() {
        if bits & 1 == 1 {
            s.push(d);
        }
        bits >>= 1;
    }
    s
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Gen<'a> {
        let n = r.range(3, 6);
        let lower: String = match r.below(24) {
            // characters that are the same in 8 or 16 bits
            2 => "aš\u{10461}ѡա".chars().take(n).collect(),
            3 => "eť\u{10465}ѥbե".chars().take(n).collect(),
            0 | 4 => "aéßσж".chars().take(n).collect(),
            1 | 5 => "ab\u{1F600}xd".chars().take(n).collect(),
            _ => "abcdefg".chars().take(n).collect(),
        };
        let upper: String = lower.to_uppercase().chars().filter(|c| !lower.contains(*c)).collect();
        let vars = match r.below(20) {
            0 => *r.pick(&[[0, 1], [3, 49], [9, 10], [50, 51], [255, 1], [128, 127], [2, 2]]),
            1 => [r.below(256) as u8, r.below(256) as u8],
            2 | 3 => {
                // what a smaller set of variables would take for the same
                let d = *r.pick(&[8u8, 10, 16, 20, 25, 26, 32, 50, 64, 100, 128, 200]);
                let v = r.below(256 - d as usize) as u8;
                if r.chance(50) { [v, v + d] } else { [v + d, v] }
            }
            _ => [1, 2],
        };
        let mut undef = String::from("zZ9?é\u{130}\u{2028}ς");
        if r.chance(8) {
            // not defined, but the same as a defined character in some of their bits
            let v: Vec<char> = lower.chars().collect();
            for _ in 0..3 {
                let c = *r.pick(&v) as u32;
                let d = *r.pick(&[0x80u32, 0x100, 0x400, 0x1000, 0x10000, 0x20000]);
                undef.extend(char::from_u32(c ^ d).filter(|c| !lower.contains(*c) && !upper.contains(*c)));
            }
        }
        let digits = if r.chance(8) { *r.pick(&["5789", "\u{660}\u{661}3\u{669}", "0\u{b2}1\u{bd}", "1\u{967}\u{1D7CE}2", "1a\u{2160}9"]) } else { "0123" };
        let digits: String = digits.chars().filter(|c| !lower.contains(*c)).collect();
        let punct = if r.chance(8) { *r.pick(&["\u{61f},-\u{2019}", ".\u{2026}\u{2014}'", "\u{bf}?!\u{1F4A1}", "\u{ad},-\u{301}", "\u{3002}\u{ff0c}-'"]) } else { ".,-'" };
        let other = if r.chance(6) { *r.pick(&["\u{20ac}\u{221e}", "@\u{1F600}", "*\u{200d}", "\u{e000}$"]) } else { "+$" };
        let other: String = other.chars().filter(|c| !lower.contains(*c)).collect();
        let space = if r.chance(8) { *r.pick(&[" \u{a0}", " \u{3000}", " \u{2009}\u{a0}", " \u{200b}"]) } else { " " };
        Gen {
            r,
            lines: vec![],
            lower,
            upper,
            digits,
            punct: punct.into(),
            other,
            space: space.into(),
            undef,
            words: vec![],
            dots_used: vec![],
            classes: vec![],
            swaps: vec![],
            vars,
            next_cell: 1,
        }
    }

    pub fn push(&mut self, s: impl Into<String>) {
        self.lines.push(s.into());
    }

    pub fn dot(&mut self) -> String {
        let k = self.r.below(20);
        let bits = if k == 0 {
            self.r.range(1, 0x7fff) as u32
        } else if k < 4 {
            self.r.range(1, 255) as u32
        } else {
            self.r.range(1, 63) as u32
        };
        cell_text(bits)
    }
    pub fn dots(&mut self, a: usize, b: usize) -> String {
        let n = self.r.range(a, b);
        let v: Vec<String> = (0..n).map(|_| self.dot()).collect();
        let d = v.join("-");
        self.dots_used.push(d.clone());
        d
    }
    /// a cell that no other call returned
    pub fn fresh(&mut self) -> String {
        let d = cell_text(self.next_cell);
        self.next_cell += 1;
        d
    }

    pub fn defined(&self) -> String {
        format!("{}{}{}{}{}{}", self.lower, self.upper, self.digits, self.punct, self.other, self.space)
    }

    /// definitions of the characters
    pub fn defs(&mut self, fresh: bool) {
        let mut v: Vec<(String, String)> = vec![];
        let style = self.r.below(4);
        let (lo, up) = if style == 0 { ("letter", "letter") } else { ("lowercase", "uppercase") };
        let lower: Vec<char> = self.lower.chars().collect();
        let upper: Vec<char> = self.upper.chars().collect();
        let digit_kind = if self.r.chance(60) { "litdigit" } else { "digit" };
        for c in &lower {
            v.push((lo.into(), c.to_string()));
        }
        let mut bases = vec![];
        for c in &upper {
            let l: Vec<char> = c.to_lowercase().collect();
            if style >= 2 && l.len() == 1 && lower.contains(&l[0]) {
                bases.push(format!("base uppercase {c} {}", l[0]));
            } else {
                v.push((up.into(), c.to_string()));
            }
        }
        for c in self.digits.clone().chars() {
            v.push((digit_kind.into(), c.to_string()));
            if digit_kind == "litdigit" && self.r.chance(80) {
                v.push(("digit".into(), c.to_string()));
            }
        }
        for c in self.punct.clone().chars() {
            let k = match c {
                '-' if self.r.chance(30) => "hyphen",
                ',' | '.' if self.r.chance(15) => "decpoint",
                _ => "punctuation",
            };
            v.push((k.into(), c.to_string()));
        }
        for c in self.other.clone().chars() {
            v.push((if c == '+' { "math" } else { "sign" }.into(), c.to_string()));
        }
        for c in self.space.clone().chars() {
            v.push(("space".into(), c.to_string()));
        }
        for (k, c) in v {
            let d = if k == "space" && self.r.chance(70) {
                "0".to_string()
            } else if fresh {
                self.fresh()
            } else if self.r.chance(90) {
                self.dots(1, 1)
            } else {
                self.dots(2, 3)
            };
            let p = self.dir(&k, 3);
            self.push(format!("{p}{k} {} {d}", escape_operand(&c)));
        }
        self.lines.extend(bases);
        if self.r.chance(15) {
            // redefinition
            let c = self.some_char();
            let d = self.dots(1, 1);
            let k = *self.r.pick(&["letter", "punctuation", "sign", "math", "digit"]);
            self.push(format!("{k} {} {d}", escape_operand(&c.to_string())));
        }
        if self.r.chance(20) {
            let d = self.dots(1, 2);
            self.push(format!("undefined {d}"));
        }
    }

    pub fn some_char(&mut self) -> char {
        let d = self.defined();
        self.r.pick_char(&d)
    }

    pub fn word(&mut self, a: usize, b: usize) -> String {
        let k = self.r.below(20);
        let al = match k {
            0..=13 => self.lower.clone(),
            14 => format!("{}{}", self.lower, self.upper),
            15 => format!("{}{}", self.lower, self.punct),
            16 => format!("{}{}", self.lower, self.digits),
            17 => format!("{}{}", self.lower, self.space),
            18 => self.defined(),
            _ => format!("{}{}", self.lower, self.undef.chars().filter(|c| c.is_alphanumeric()).collect::<String>()),
        };
        let (a, b) = if self.r.chance_of(4, 1000) { (b, *self.r.pick(&[12, 20, 40, 70])) } else { (a, b) };
        let w = self.r.string(&al, a, b);
        self.words.push(w.clone());
        w
    }

    /// the number of rules of a kind, now and then a large one
    pub fn many(&mut self, a: usize, b: usize) -> usize {
        if self.r.chance_of(5, 1000) {
            *self.r.pick(&[20, 40, 70, 140, 270, 300])
        } else {
            self.r.range(a, b)
        }
    }

    /// Now and then many rules for characters of their own, in front of the rules that count
    pub fn fillers(&mut self, kinds: &[&str]) {
        if !self.r.chance_of(12, 1000) {
            return;
        }
        let n = *self.r.pick(&[31, 62, 70, 130, 140, 256, 258, 270, 300]);
        let kind = *self.r.pick(kinds);
        for k in 0..n {
            let c = char::from_u32(0xe100 + k).unwrap();
            let d = format!("@{:x}-15", 1 + k % 8);
            self.push(match kind {
                "match" => format!("match - {c} - {}", &d[1..]),
                "correct" => format!("correct \"{c}\" \"{}\"", k % 10),
                "context" => format!("context \"{c}\" {d}"),
                "attribute" => format!("attribute f{} {c}", (0..3).map(|i| (b'a' + (k as usize / [1, 20, 400][i] % 20) as u8) as char).collect::<String>()),
                s => format!("{s} @{}-{} {d}", ["3489abcd", "5679abcd", "23456789abcd", "34567abc"][k as usize % 4], ["12", "34", "1c", "5d", "68", "7ab"][k as usize / 4 % 6]),
            });
        }
    }

    pub fn attributes(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            let n = (*self.r.pick(&["vow", "cons", "xyz", "k1", "Vow", "K1"])).to_string();
            let d = self.defined();
            let mut s = self.r.subset(&d, 25);
            if s.is_empty() {
                s.push(self.some_char());
            }
            self.push(format!("attribute {n} {}", escape_operand(&s)));
            if !self.classes.contains(&n) {
                self.classes.push(n);
            }
        }
    }

    pub fn dir(&mut self, opcode: &str, percent: usize) -> &'static str {
        if DIR_OK.contains(&opcode) && self.r.chance(percent) {
            if self.r.chance(50) { "nofor " } else { "noback " }
        } else {
            ""
        }
    }

    /// a rule that translates characters
    pub fn trans(&mut self, kinds: &[&str], p_dir: usize) {
        let kind = *self.r.pick(kinds);
        let w = match kind {
            "begnum" | "midnum" | "endnum" | "joinnum" => {
                let al = if self.r.chance(50) { self.punct.clone() } else { format!("{}{}", self.lower, self.digits) };
                let w = self.r.string(&al, 1, 2);
                self.words.push(w.clone());
                w
            }
            "prepunc" | "postpunc" => {
                let al = self.punct.clone();
                let w = self.r.string(&al, 1, 2);
                self.words.push(w.clone());
                w
            }
            _ => {
                if !self.words.is_empty() && self.r.chance(25) {
                    self.r.pick(&self.words.clone()).clone()
                } else {
                    self.word(1, 4)
                }
            }
        };
        let eq = super::model::parse::IMPLICIT.contains(&kind) && self.r.chance(8)
            && w.chars().all(|c| self.defined().contains(c));
        let d = if eq { "=".to_string() } else { self.dots(1, 3) };
        let mut p = self.dir(kind, p_dir).to_string();
        let classy = matches!(
            kind,
            "always" | "word" | "sufword" | "prfword" | "begword" | "begmidword" | "midword" | "midendword"
                | "endword" | "partword"
        );
        if classy && self.r.chance(12) {
            let mut pool: Vec<String> = self.classes.clone();
            pool.extend(["letter", "digit", "space", "punctuation"].iter().map(|s| s.to_string()));
            if self.r.chance(40) {
                // every name of a predefined class
                pool = ["litdigit", "uppercase", "lowercase", "sign", "math", "seqdelimiter", "seqbeforechars", "seqafterchars", "hyphen", "decpoint"]
                    .iter()
                    .map(|s| s.to_string())
                    .collect();
            }
            for _ in 0..self.r.range(1, 2) {
                let c = self.r.pick(&pool).clone();
                p.push_str(if self.r.chance(50) { "before " } else { "after " });
                p.push_str(&c);
                p.push(' ');
            }
        } else if (classy && kind != "word" || matches!(kind, "begnum" | "midnum" | "endnum" | "joinnum" | "prepunc" | "postpunc")) && self.r.chance(4) {
            p.push_str("nocross ");
        }
        self.push(format!("{p}{kind} {} {d}", escape_operand(&w)));
    }

    // ------------------------------------------------------------ match

    fn match_class(&mut self) -> char {
        if self.r.chance(15) {
            self.r.pick_char("~<>0123")
        } else {
            self.r.pick_char("_#aul.$^")
        }
    }
    fn match_atom(&mut self, depth: usize) -> String {
        let lits: String = format!("{}{}", self.lower, self.digits);
        match self.r.below(if depth == 0 { 9 } else { 11 }) {
            0 => ".".into(),
            1 | 2 => self.r.string(&lits, 1, 2),
            3 | 4 => {
                let mut s = self.r.string(&lits, 1, 3);
                if self.r.chance(12) {
                    // what has a meaning outside of a set
                    s.push_str(*self.r.pick(&["\\]", "\\(", "\\)", "(", ")", "[", ".", "*", "%", "!", "-", "|", "$", "\\s", "\\x0061"]));
                }
                format!("[{s}]")
            }
            5 | 6 => format!("%{}", self.match_class()),
            7 => {
                let n = self.r.range(1, 3);
                let s: String = (0..n).map(|_| self.match_class()).collect();
                format!("%[{s}]")
            }
            8 => (*self.r.pick(&["^", "$"])).into(),
            9 => format!("({})", self.match_pat(depth - 1)),
            _ => {
                let a = self.match_atom(depth - 1);
                let b = self.match_atom(depth - 1);
                format!("({a}|{b})")
            }
        }
    }
    fn match_pat(&mut self, depth: usize) -> String {
        let n = self.r.range(1, 3);
        let mut s = String::new();
        if depth == 2 && self.r.chance(5) {
            // so many alternatives that the rest is far behind in the program
            let lits: String = format!("{}{}", self.lower, self.digits);
            let n = *self.r.pick(&[14usize, 22, 40]);
            let v: Vec<String> = (0..n).map(|_| self.r.string(&lits, 2, 4)).collect();
            s.push_str(&format!("({}){}", v.join("|"), self.r.pick(&["?", "?", "*", ""])));
            s.push_str(&format!("{}*", self.match_atom(0)));
        }
        for _ in 0..n {
            let neg = self.r.chance(12);
            if neg {
                // negation of single characters and classes only
                let c = self.r.pick_char(&self.lower.clone());
                let k = if self.r.chance(10) { self.r.pick_char("~<>0") } else { self.r.pick_char("_#aul.$") };
                let a = match self.r.below(8) {
                    0 | 1 => format!("[{c}]"),
                    2 => "^".to_string(),
                    3 => "$".to_string(),
                    4 => format!("({c})"),
                    _ => format!("%{k}"),
                };
                s.push('!');
                s.push_str(&a);
            } else {
                let a = self.match_atom(depth);
                s.push_str(&a);
            }
            match self.r.below(8) {
                0 => s.push('?'),
                1 => s.push('*'),
                2 => s.push('+'),
                _ => {}
            }
        }
        if self.r.chance(10) {
            let b = self.match_atom(depth);
            s.push('|');
            s.push_str(&b);
        }
        s
    }
    pub fn match_rule(&mut self, p_dir: usize) {
        let pre = if self.r.chance(35) { "-".into() } else { self.match_pat(2) };
        let post = if self.r.chance(35) { "-".into() } else { self.match_pat(2) };
        let w = if !self.words.is_empty() && self.r.chance(30) {
            self.r.pick(&self.words.clone()).to_lowercase()
        } else {
            self.word(1, 3).to_lowercase()
        };
        let d = if self.r.chance(8) && w.chars().all(|c| self.defined().contains(c)) { "=".into() } else { self.dots(1, 3) };
        let p = self.dir("match", p_dir);
        self.push(format!("{p}match {pre} {} {post} {d}", escape_operand(&w)));
    }

    // ------------------------------------------------------------ multipass

    fn quote(s: &str) -> String {
        let mut q = String::from("\"");
        for c in s.chars() {
            match c {
                ' ' => q.push_str("\\s"),
                '"' => q.push_str("\\\""),
                c => q.push(c),
            }
        }
        q.push('"');
        q
    }
    /// something to match: characters for correct and context, cells for the passes
    fn lit(&mut self, stage: &str) -> String {
        if stage.starts_with("pass") {
            let pool: Vec<String> = self.dots_used.clone();
            if !pool.is_empty() && self.r.chance(85) {
                let d = self.r.pick(&pool).clone();
                let v: Vec<&str> = d.split('-').collect();
                let a = self.r.below(v.len());
                let b = self.r.range(a + 1, v.len().min(a + 2));
                format!("@{}", v[a..b].join("-"))
            } else {
                format!("@{}", self.dot())
            }
        } else {
            let w = if self.r.chance(50) && !self.words.is_empty() {
                let w = self.r.pick(&self.words.clone()).clone();
                let c: Vec<char> = w.chars().collect();
                let a = self.r.below(c.len());
                let b = self.r.range(a + 1, c.len().min(a + 2));
                c[a..b].iter().collect()
            } else {
                let al = format!("{}{}{}", self.lower, self.digits, self.space);
                self.r.string(&al, 1, 2)
            };
            Self::quote(&w)
        }
    }
    fn test_atom(&mut self, stage: &str, vars: bool) -> String {
        match self.r.below(if vars { 11 } else { 9 }) {
            0..=3 => self.lit(stage),
            4 | 5 => {
                let n = self.r.range(1, 2);
                let k: String = (0..n).map(|_| self.r.pick_char("dlpsUuSmD")).collect();
                let q = match self.r.below(40) {
                    0..=6 => ".".to_string(),
                    // many repetitions
                    39 if self.r.chance(50) => (*self.r.pick(&["0-40", "1-70", "0-130", "2-255", "33", "1-33"])).to_string(),
                    39 | 38 => {
                        let a = self.r.range(0, 9);
                        format!("{}-{}", a, a + self.r.range(1, 40))
                    }
                    7..=13 => format!("{}", self.r.range(1, 3)),
                    14..=20 => {
                        let a = self.r.range(1, 2);
                        format!("{}-{}", a, a + self.r.range(1, 2))
                    }
                    _ => String::new(),
                };
                format!("${k}{q}")
            }
            6 => {
                if self.r.chance(50) { "`" } else { "~" }.into()
            }
            7 => {
                if self.swaps.is_empty() {
                    self.lit(stage)
                } else {
                    let q = match self.r.below(4) {
                        0 => ".".to_string(),
                        1 => "2".to_string(),
                        _ => String::new(),
                    };
                    format!("%{}{q}", self.r.pick(&self.swaps.clone()))
                }
            }
            8 => format!("!{}", self.lit(stage)),
            _ => {
                let op = *self.r.pick(&["=", "<", ">", "<=", ">="]);
                format!("#{}{op}{}", self.var(), self.value(2))
            }
        }
    }
    pub fn var(&mut self) -> u8 {
        let k = self.r.below(2);
        self.vars[k]
    }
    pub fn value(&mut self, max: usize) -> usize {
        if self.r.chance(6) { *self.r.pick(&[4, 9, 10, 99, 100, 127, 128, 254, 255]) } else { self.r.range(0, max) }
    }
    /// a change of a variable
    pub fn effect(&mut self, max: usize) -> String {
        let v = self.var();
        match self.r.below(8) {
            0 => format!("#{v}+"),
            1 => format!("#{v}-"),
            _ => format!("#{v}={}", self.value(max)),
        }
    }
    /// one or more changes of variables
    pub fn effects(&mut self, max: usize) -> String {
        let n = match self.r.below(10) {
            0..=6 => 1,
            7 | 8 => self.r.range(2, 3),
            _ => self.r.range(3, 6),
        };
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            // some of them the same again
            let e = if !v.is_empty() && self.r.chance(35) { self.r.pick(&v).clone() } else { self.effect(max) };
            v.push(e);
        }
        v.concat()
    }
    pub fn multi(&mut self, stage: &str, vars: bool, p_dir: usize) {
        let mut t = String::new();
        let brackets = self.r.chance(60);
        let pre = self.r.below(3);
        if brackets {
            for _ in 0..pre.min(1) + pre / 2 {
                t.push_str(&self.test_atom(stage, vars));
            }
            t.push('[');
            let n = match self.r.below(8) {
                0 => 0,
                1 | 2 => 2,
                _ => 1,
            };
            for _ in 0..n {
                t.push_str(&self.test_atom(stage, vars));
            }
            t.push(']');
            for _ in 0..self.r.below(3).saturating_sub(self.r.below(2)) {
                t.push_str(&self.test_atom(stage, vars));
            }
            if t == "[]" {
                t = format!("{}[]", self.lit(stage));
            }
        } else {
            for _ in 0..self.r.range(1, 3) {
                t.push_str(&self.test_atom(stage, vars));
            }
        }
        let mut a = String::new();
        match self.r.below(10) {
            0 | 1 => a.push('*'),
            2 => a.push('?'),
            3 if !self.swaps.is_empty() => a.push_str(&format!("%{}", self.r.pick(&self.swaps.clone()))),
            _ => {
                if stage == "correct" {
                    let al = format!("{}{}{}", self.lower, self.upper, self.digits);
                    let w = self.r.string(&al, 1, 3);
                    a.push_str(&Self::quote(&w));
                } else {
                    let d = self.dots(1, 2);
                    a.push_str(&format!("@{d}"));
                }
            }
        }
        if self.r.chance(10) && !a.contains('?') {
            // several of them, also of the same kind
            for _ in 0..self.r.range(1, 3) {
                let b = match self.r.below(5) {
                    0 | 1 => "*".to_string(),
                    2 if !self.swaps.is_empty() => {
                        let name = self.r.pick(&self.swaps.clone()).clone();
                        format!("%{name}")
                    }
                    _ if stage == "correct" => {
                        let al = format!("{}{}", self.lower, self.digits);
                        let w = self.r.string(&al, 1, 2);
                        Self::quote(&w)
                    }
                    _ => format!("@{}", self.dots(1, 2)),
                };
                a.push_str(&b);
            }
        } else if self.r.chance(15) && !a.contains('?') {
            if stage == "correct" {
                a.push_str("\"c\"");
            } else {
                a = format!("@{}{a}", self.dot());
            }
        }
        if vars && self.r.chance(70) {
            let e = self.effects(2);
            a.push_str(&e);
        }
        let p = self.dir(stage, p_dir);
        self.push(format!("{p}{stage} {t} {a}"));
    }
    pub fn swap(&mut self) {
        let mut n = format!("sw{}", (b'a' + self.swaps.len() as u8) as char);
        // sometimes a name that was used before
        if !self.swaps.is_empty() && self.r.chance(15) {
            n = self.r.pick(&self.swaps.clone()).clone();
        }
        let d = self.defined();
        let mut k = self.r.range(1, 4);
        let mut from: String = String::new();
        // now and then more than any table has
        let mut big = 0;
        if self.r.chance(2) {
            big = *self.r.pick(&[31, 62, 70, 130, 258, 300]);
            k += big;
            from.extend((0..big as u32).filter_map(|k| char::from_u32(0xe100 + k)));
        }
        while from.chars().count() < k {
            let c = self.r.pick_char(&d);
            if !from.contains(c) {
                from.push(c);
            }
        }
        match self.r.below(3) {
            0 => {
                let to: Vec<String> = (0..k).map(|_| self.dots(1, 2)).collect();
                self.push(format!("swapcd {n} {} {}", escape_operand(&from), to.join(",")));
            }
            1 => {
                let al = format!("{}{}", self.lower, self.digits);
                let to = self.r.string(&al, k, k);
                self.push(format!("swapcc {n} {} {to}", escape_operand(&from)));
            }
            _ => {
                let mut f: Vec<String> = (0..big)
                    .map(|k| format!("{}f", (0..14).filter(|b| (k + 5) >> b & 1 == 1).map(|b| char::from_digit(b + 1, 16).unwrap()).collect::<String>()))
                    .collect();
                while f.len() < k {
                    let x = if !self.dots_used.is_empty() && self.r.chance(70) {
                        let d = self.r.pick(&self.dots_used.clone()).clone();
                        d.split('-').next().unwrap().to_string()
                    } else {
                        self.dot()
                    };
                    if !f.contains(&x) {
                        f.push(x);
                    }
                }
                let to: Vec<String> = (0..k).map(|_| self.dots(1, 2)).collect();
                self.push(format!("swapdd {n} {} {}", f.join(","), to.join(",")));
            }
        }
        self.swaps.push(n);
    }

    // ------------------------------------------------------------ indicators

    pub fn numeric(&mut self) {
        if self.r.chance(85) {
            let d = self.dots(1, 2);
            self.push(format!("numsign {d}"));
        }
        if self.r.chance(50) {
            let d = self.dots(1, 2);
            self.push(format!("nonumsign {d}"));
        }
        if self.r.chance(60) {
            let s = self.r.subset(&format!("{}{}{}", self.lower, self.upper, self.punct), 40);
            if !s.is_empty() {
                self.list("numericnocontchars", &s);
            }
        }
        if self.r.chance(35) {
            let letters = if self.r.chance(20) { self.lower.clone() } else { String::new() };
            let s = self.r.subset(&format!("{}{}{}{letters}", self.punct, self.other, self.space), 40);
            if !s.is_empty() {
                self.list("numericmodechars", &s);
            }
        }
        if self.r.chance(50) {
            let s = self.r.pick_char(&self.punct.clone());
            let d = self.dots(1, 1);
            self.push(format!("midnum {s} {d}"));
            self.words.push(s.to_string());
        }
    }
    /// a rule that lists characters, or several of them
    fn list(&mut self, op: &str, chars: &str) {
        let v: Vec<char> = chars.chars().collect();
        let k = if self.r.chance(25) { self.r.range(0, v.len()) } else { 0 };
        for part in [&v[..k], &v[k..]] {
            if !part.is_empty() {
                let s: String = part.iter().collect();
                self.push(format!("{op} {}", escape_operand(&s)));
            }
        }
    }
    pub fn caps(&mut self) {
        let mut ops = vec![];
        for (o, p) in [("capsletter", 75), ("begcapsword", 55), ("endcapsword", 50), ("begcaps", 25), ("endcaps", 25), ("begcapsphrase", 45)] {
            if self.r.chance(p) {
                ops.push(o);
            }
        }
        for o in ops {
            let d = self.dots(1, 2);
            let p = self.dir(o, 3);
            self.push(format!("{p}{o} {d}"));
        }
        if self.r.chance(45) {
            let d = self.dots(1, 2);
            let w = *self.r.pick(&["before", "after"]);
            self.push(format!("endcapsphrase {w} {d}"));
        }
        if self.r.chance(50) {
            let n = if self.r.chance(6) { *self.r.pick(&[5, 6, 9, 10, 12]) } else { self.r.range(1, 4) };
            self.push(format!("lencapsphrase {n}"));
        }
        if self.r.chance(30) {
            let s = self.r.subset(&format!("{}{}", self.punct, self.other), 50);
            if !s.is_empty() {
                self.list("capsmodechars", &s);
            }
        }
    }
    pub fn letsign(&mut self) {
        if self.r.chance(80) {
            let d = self.dots(1, 1);
            self.push(format!("letsign {d}"));
        }
        if self.r.chance(60) {
            let d = self.dots(1, 1);
            self.push(format!("nocontractsign {d}"));
        }
        for o in ["noletsign", "noletsignbefore", "noletsignafter"] {
            if self.r.chance(30) {
                let al = if o == "noletsign" { self.lower.clone() } else { format!("{}{}{}", self.punct, self.space, self.digits) };
                let s = self.r.subset(&al, 35);
                if !s.is_empty() {
                    self.push(format!("{o} {}", escape_operand(&s)));
                }
            }
        }
        for _ in 0..self.r.below(3) {
            let al = self.lower.clone();
            let w = self.r.string(&al, 1, 3);
            self.words.push(w.clone());
            self.push(format!("contraction {w}"));
        }
    }
    pub fn emph(&mut self) -> Vec<String> {
        let mut names = vec![];
        let many = self.r.chance(3);
        for (k, name) in ["italic", "bold", "trans1", "sub", "underline", "c5", "c6", "c7", "c8", "c9", "c10", "c11"].into_iter().enumerate() {
            if k > 3 && !many || !self.r.chance(55) {
                continue;
            }
            names.push(name.to_string());
            if self.r.chance(90) {
                self.push(format!("emphclass {name}"));
            }
            let beg = self.r.chance(35);
            let list: &[(&str, usize)] = if beg {
                &[("begemph", 100), ("endemph", 85), ("emphletter", 20)]
            } else {
                &[("emphletter", 60), ("begemphword", 75), ("endemphword", 60), ("begemphphrase", 55)]
            };
            for (o, p) in list {
                if self.r.chance(*p) {
                    let d = self.dots(1, 2);
                    self.push(format!("{o} {name} {d}"));
                }
            }
            if self.r.chance(50) {
                let d = self.dots(1, 2);
                let w = *self.r.pick(&["before", "after"]);
                self.push(format!("endemphphrase {name} {w} {d}"));
            }
            if self.r.chance(50) {
                let n = if self.r.chance(6) { *self.r.pick(&[5, 6, 9, 10, 12]) } else { self.r.range(1, 4) };
                self.push(format!("lenemphphrase {name} {n}"));
            }
            if self.r.chance(20) {
                let s = self.r.subset(&format!("{}{}", self.punct, self.space), 50);
                if !s.is_empty() {
                    self.list(&format!("emphmodechars {name}"), &s);
                }
            }
            if self.r.chance(20) {
                let s = self.r.subset(&self.defined(), 15);
                if !s.is_empty() {
                    self.list(&format!("noemphchars {name}"), &s);
                }
            }
        }
        names
    }
    pub fn comp(&mut self) {
        if self.r.chance(85) {
            let d = self.dots(1, 2);
            self.push(format!("begcomp {d}"));
        }
        if self.r.chance(80) {
            let d = self.dots(1, 2);
            self.push(format!("endcomp {d}"));
        }
        for _ in 0..self.r.range(1, 3) {
            let al = format!("{}{}", self.lower, self.punct);
            let w = self.r.string(&al, 1, 3);
            self.words.push(w.clone());
            self.push(format!("compbrl {w}"));
        }
        for _ in 0..self.r.below(4) {
            let w = self.word(1, 3);
            let d = if self.r.chance(20) && w.chars().all(|c| self.defined().contains(c)) { "=".into() } else { self.dots(1, 3) };
            self.push(format!("comp6 {} {d}", escape_operand(&w)));
        }
    }

    // ------------------------------------------------------------ texts

    pub fn text(&mut self, n: usize) -> String {
        let mut s = String::new();
        let mut len = 0;
        while len < n {
            let k = self.r.below(20);
            let piece: String = match k {
                0..=7 if !self.words.is_empty() => self.r.pick(&self.words.clone()).clone(),
                0..=9 => self.r.string(&self.lower.clone(), 1, 3),
                10 => self.r.string(&self.upper.clone(), 1, 3),
                11 | 12 => self.r.string(&self.digits.clone(), 1, 3),
                13 | 14 => self.r.pick_char(&self.punct.clone()).to_string(),
                15..=17 => " ".into(),
                18 => self.r.pick_char(&format!("{}{}", self.other, self.space)).to_string(),
                _ => self.r.pick_char(&self.undef.clone()).to_string(),
            };
            let piece = match self.r.below(14) {
                0 => piece.to_uppercase(),
                1 => {
                    let mut it = piece.chars();
                    it.next().map(|c| c.to_uppercase().chain(it).collect()).unwrap_or_default()
                }
                _ => piece,
            };
            len += piece.chars().count().max(1);
            s.push_str(&piece);
        }
        s
    }

    pub fn braille(&mut self, n: usize) -> String {
        let mut s = String::new();
        let mut len = 0;
        let pool = self.dots_used.clone();
        while len < n {
            let d = match self.r.below(12) {
                0..=8 if !pool.is_empty() => self.r.pick(&pool).clone(),
                0..=9 => self.dot(),
                _ => "0".into(),
            };
            let c = crate::model::parse::cells(&d).unwrap_or_default();
            len += c.chars().count().max(1);
            s.push_str(&c);
            if self.r.chance(2) {
                s.push(self.some_char());
            }
        }
        s
    }

    pub fn inputs(&mut self, backward: bool, count: usize, max: usize) -> Vec<String> {
        let mut v: Vec<String> = (0..count)
            .map(|_| {
                let n = self.r.range(0, max);
                if backward { self.braille(n) } else { self.text(n) }
            })
            .collect();
        // many times the same character
        if self.r.chance(5) && !v.is_empty() {
            let mut x: Vec<char> = self.r.pick(&v).chars().collect();
            if !x.is_empty() {
                let at = self.r.below(x.len());
                let mut n = *self.r.pick(&[9, 12, 17, 17, 20, 20, 33, 33, 40, 65, 66, 70, 130, 130, 256, 257, 258]);
                if self.r.chance(3) {
                    n = *self.r.pick(&[511, 513, 520, 1025, 1100]);
                }
                let c = x[at];
                x.splice(at..at, vec![c; n]);
                if self.r.chance(30) {
                    // and nothing around it
                    x = vec![c; n];
                }
                let at = at.min(x.len() - n);
                if self.r.chance(30) {
                    // of the same kind, not only the same
                    let al: Vec<char> = [&self.punct, &self.lower, &self.upper, &self.digits].into_iter().find(|k| k.contains(c)).map(|k| k.chars().collect()).unwrap_or(vec![c]);
                    for k in &mut x[at..at + n] {
                        *k = *self.r.pick(&al);
                    }
                }
                v.push(x.into_iter().collect());
            }
        }
        // about as many in a row as a test repeats
        let mut limits = vec![];
        for l in self.lines.iter().filter(|l| l.contains('$') || l.contains('%')) {
            for (at, _) in l.match_indices(['$', '%']) {
                let q: String = l[at + 1..].chars().skip_while(|c| c.is_ascii_alphabetic()).take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                limits.extend(q.split('-').filter_map(|n| n.parse::<usize>().ok()).filter(|n| (5..300).contains(n)));
            }
        }
        for n in limits.into_iter().take(3) {
            let al = if self.r.chance(75) { self.lower.clone() } else { self.digits.clone() };
            let n = (n + *self.r.pick(&[0, 0, 1, 1, 2, 7, 20])).saturating_sub(self.r.below(2));
            let mut s = if backward {
                let d: Vec<String> = self.dots_used.clone();
                let d: String = d.iter().filter_map(|d| crate::model::parse::cells(d)).collect();
                self.r.string(&d, n, n)
            } else {
                self.r.string(&al, n, n)
            };
            if !v.is_empty() {
                let (a, b) = (self.r.pick(&v).clone(), self.r.pick(&v).clone());
                s.insert_str(0, &a);
                s.push_str(&b);
            }
            v.push(s);
        }
        v
    }

    pub fn spans(&mut self, names: &[String], len: usize) -> Vec<(String, usize, usize)> {
        let mut v = vec![];
        if names.is_empty() {
            return v;
        }
        for _ in 0..self.r.range(1, 4) {
            let n = self.r.pick(names).clone();
            let a = self.r.below(len + 1);
            let b = self.r.range(a, len + 1);
            v.push((n, a, b));
        }
        v
    }

    pub fn finish(&mut self) -> String {
        crate::util::join_lines(&self.lines)
    }
}
