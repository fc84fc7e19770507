//! Is a line of a table well-formed? An independent reading of the line grammar, without meaning.
use crate::lang::{ALL, O};
use crate::model::parse::cells;

struct S<'a> {
    c: std::iter::Peekable<std::str::Chars<'a>>,
    depth: usize,
}

impl<'a> S<'a> {
    fn new(s: &'a str) -> S<'a> {
        S { c: s.chars().peekable(), depth: 0 }
    }
    fn peek(&mut self) -> Option<char> {
        self.c.peek().copied()
    }
    fn eat(&mut self, x: char) -> bool {
        self.c.next_if_eq(&x).is_some()
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut s = String::new();
        while let Some(c) = self.c.next_if(|c| f(*c)) {
            s.push(c);
        }
        s
    }
    /// at most 255
    fn byte(&mut self) -> Option<u8> {
        let d = self.take(|c| c.is_ascii_digit());
        let t = d.trim_start_matches('0');
        match (d.is_empty(), t.len()) {
            (true, _) | (_, 4..) => None,
            (_, 0) => Some(0),
            _ => t.parse().ok(),
        }
    }
    fn dots(&mut self) -> bool {
        let d = self.take(|c| matches!(c, '0'..='9' | 'a'..='f' | '-'));
        cells(&d).is_some()
    }
    fn string(&mut self) -> bool {
        if !self.eat('"') {
            return false;
        }
        loop {
            match self.c.next() {
                None => return false,
                Some('"') => return true,
                Some('\\') => match self.peek() {
                    Some('s' | '"') => {
                        self.c.next();
                    }
                    Some(x @ ('x' | 'y')) => {
                        self.c.next();
                        let mut v = 0u32;
                        for _ in 0..if x == 'x' { 4 } else { 5 } {
                            match self.c.next().and_then(|c| c.to_digit(16)) {
                                Some(d) => v = v * 16 + d,
                                None => return false,
                            }
                        }
                        if char::from_u32(v).is_none() {
                            return false;
                        }
                    }
                    Some(_) => {}
                    None => return false,
                },
                Some(_) => {}
            }
        }
    }
    fn quantifier(&mut self) -> bool {
        if self.eat('.') {
            return true;
        }
        if self.peek().is_some_and(|c| c.is_ascii_digit()) {
            let Some(a) = self.byte() else { return false };
            if self.eat('-') {
                return self.byte().is_some_and(|b| a < b);
            }
        }
        true
    }
    /// `None` if malformed, otherwise whether it is a negation or a replacement
    fn test(&mut self) -> Option<bool> {
        let ok = match self.peek()? {
            '_' => {
                self.c.next();
                !self.peek().is_some_and(|c| c.is_ascii_digit()) || self.byte().is_some()
            }
            '`' | '~' => self.c.next().is_some(),
            '"' => self.string(),
            '@' => self.eat('@') && self.dots(),
            '%' => {
                self.c.next();
                if self.peek().is_some_and(|c| ('1'..='7').contains(&c)) {
                    self.c.next().is_some()
                } else {
                    !self.take(|c| c.is_ascii_alphabetic()).is_empty() && self.quantifier()
                }
            }
            '$' => {
                self.c.next();
                !self.take(|c| "adDlmpSsUuwxyz".contains(c)).is_empty() && self.quantifier()
            }
            '#' => {
                self.c.next();
                let var = self.byte().is_some();
                let op = self.eat('=') || (self.eat('<') || self.eat('>')) && (self.eat('=') || true);
                var && op && self.byte().is_some()
            }
            '[' => {
                self.c.next();
                self.depth += 1;
                if self.depth > 64 {
                    return None;
                }
                self.tests()?;
                self.depth -= 1;
                return self.eat(']').then_some(true);
            }
            '!' => {
                self.c.next();
                self.depth += 1;
                if self.depth > 64 || self.test()? {
                    return None;
                }
                self.depth -= 1;
                return Some(true);
            }
            _ => false,
        };
        ok.then_some(false)
    }
    fn tests(&mut self) -> Option<usize> {
        let mut n = 0;
        while self.peek().is_some_and(|c| "_%@\"$[#!`~".contains(c)) {
            self.test()?;
            n += 1;
        }
        Some(n)
    }
    fn actions(&mut self) -> bool {
        let mut n = 0;
        while let Some(c) = self.peek() {
            let ok = match c {
                '@' => self.eat('@') && self.dots(),
                '"' => self.string(),
                '*' | '?' => self.c.next().is_some(),
                '%' => self.eat('%') && !self.take(|c| c.is_ascii_alphabetic()).is_empty(),
                '#' => self.eat('#') && self.byte().is_some() && (self.eat('+') || self.eat('-') || self.eat('=') && self.byte().is_some()),
                _ => false,
            };
            if !ok {
                return false;
            }
            n += 1;
        }
        n > 0
    }
    /// alternatives up to a closing parenthesis or the end; the number of parts
    fn alternatives(&mut self) -> Option<usize> {
        let mut first = 0;
        let mut k = 0;
        loop {
            let mut n = 0;
            while !matches!(self.peek(), None | Some('|' | ')')) {
                self.item()?;
                n += 1;
            }
            if k == 0 {
                first = n;
            }
            // only a whole group or pattern may be empty
            if n == 0 && (k > 0 || self.peek() == Some('|')) {
                return None;
            }
            k += 1;
            if !self.eat('|') {
                return Some(first);
            }
        }
    }
    fn class(&mut self) -> bool {
        self.c.next().is_some_and(|c| "_#aul.$~<>^01234567".contains(c))
    }
    /// whether it is a negation
    fn item(&mut self) -> Option<bool> {
        let c = self.peek()?;
        let mut neg = false;
        let ok = match c {
            '.' | '^' | '$' => self.c.next().is_some(),
            '%' => {
                self.c.next();
                if self.eat('[') {
                    let mut n = 0;
                    while self.peek() != Some(']') {
                        if !self.class() {
                            return None;
                        }
                        n += 1;
                    }
                    self.eat(']') && n > 0
                } else {
                    self.class()
                }
            }
            '!' => {
                self.c.next();
                self.depth += 1;
                if self.depth > 64 || self.item()? {
                    return None;
                }
                self.depth -= 1;
                neg = true;
                true
            }
            '[' => {
                self.c.next();
                let mut n = 0;
                loop {
                    match self.c.next()? {
                        ']' => break,
                        '\\' => {
                            if !matches!(self.c.next()?, ']' | '(' | ')') {
                                return None;
                            }
                        }
                        _ => {}
                    }
                    n += 1;
                }
                n > 0
            }
            '(' => {
                self.c.next();
                self.depth += 1;
                if self.depth > 64 {
                    return None;
                }
                let n = self.alternatives()?;
                self.depth -= 1;
                self.eat(')') && n > 0
            }
            c if "\\]?*+|)".contains(c) => false,
            _ => !self.take(|c| !".*%^$![]()\\?*+|".contains(c)).is_empty(),
        };
        if !ok {
            return None;
        }
        // a quantifier hides the negation
        let q = self.peek().is_some_and(|c| "?*+".contains(c));
        if q {
            self.c.next();
        }
        Some(neg && !q)
    }
}

pub fn test(s: &str) -> bool {
    let mut p = S::new(s);
    p.tests().is_some_and(|n| n > 0) && p.peek().is_none()
}

pub fn action(s: &str) -> bool {
    S::new(s).actions()
}

/// the text with its escapes resolved; surrogates are some character
fn plain(s: &str) -> Option<String> {
    count(s)?;
    let mut t = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("\\x") {
        let escaped = rest[..i].chars().rev().take_while(|c| *c == '\\').count() % 2 == 1;
        let surrogate = !escaped && rest.get(i + 2..i + 6).and_then(|h| u32::from_str_radix(h, 16).ok()).is_some_and(|v| (0xd800..0xe000).contains(&v));
        t.push_str(&rest[..i]);
        t.push_str(if surrogate { "\u{fffd}" } else { &rest[i..i + 2] });
        rest = &rest[if surrogate { i + 6 } else { i + 2 }..];
    }
    t.push_str(rest);
    crate::model::parse::unescape(&t).or(Some(t))
}

/// the escapes of a pattern: `\(`, `\)` and `\]` stay
fn pattern_text(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    let mut run = String::new();
    while let Some(c) = it.next() {
        if c != '\\' {
            run.push(c);
            continue;
        }
        match it.next()? {
            k @ ('(' | ')' | ']') => {
                out.push_str(&plain(&run)?);
                run.clear();
                out.push('\\');
                out.push(k);
            }
            k => {
                run.push('\\');
                run.push(k);
            }
        }
    }
    out.push_str(&plain(&run)?);
    Some(out)
}

pub fn pattern(s: &str) -> bool {
    let Some(s) = pattern_text(s) else { return false };
    if s.is_empty() || s.starts_with('-') {
        return true;
    }
    let mut p = S::new(&s);
    p.alternatives().is_some() && p.peek().is_none()
}

fn name(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_alphanumeric())
}

fn number(s: &str) -> bool {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let t = d.trim_start_matches('0');
    !d.is_empty()
        && d.bytes().all(|b| b.is_ascii_digit())
        && t.len() <= 10
        && t.parse::<i64>().unwrap_or(0) <= if neg { 1 << 31 } else { (1 << 31) - 1 }
}

/// cells separated by commas; how many
fn list(s: &str, single: bool) -> Option<usize> {
    let mut n = 0;
    for p in s.split(',') {
        if cells(p).is_none() || single && p.contains('-') {
            return None;
        }
        n += 1;
    }
    Some(n)
}

/// the number of characters; the halves of a surrogate pair are one
fn count(s: &str) -> Option<usize> {
    let c: Vec<char> = s.chars().collect();
    let hex = |i: usize, n: usize| -> Option<u32> { c.get(i..i + n)?.iter().try_fold(0, |v, c| Some(v * 16 + c.to_digit(16)?)) };
    let (mut i, mut n) = (0, 0);
    while i < c.len() {
        n += 1;
        i += match (c[i], c.get(i + 1)) {
            ('\\', Some('x')) => {
                let v = hex(i + 2, 4)?;
                let low = if c.get(i + 6..i + 8) == Some(&['\\', 'x']) { hex(i + 8, 4).unwrap_or(0) } else { 0 };
                if (0xd800..0xdc00).contains(&v) && (0xdc00..0xe000).contains(&low) {
                    12
                } else {
                    6
                }
            }
            ('\\', Some('y')) => hex(i + 2, 5).map(|_| 7)?,
            ('\\', Some('f' | 'n' | 'r' | 's' | 't' | 'v' | 'e' | '\\')) => 2,
            ('\\', _) => return None,
            _ => 1,
        }
    }
    Some(n)
}

/// `None` for what is left open
pub fn line(l: &str) -> Option<bool> {
    let t = l.trim();
    if t.is_empty() || t.starts_with('#') {
        return Some(true);
    }
    let mut w = l.split([' ', '\t', '\n', '\r', '\u{c}']).filter(|w| !w.is_empty()).peekable();
    let dir = w.next_if(|w| matches!(*w, "nofor" | "noback")).is_some();
    let nocross = w.next_if_eq(&"nocross").is_some();
    while w.next_if(|w| matches!(*w, "before" | "after")).is_some() {
        w.next();
    }
    while w.next_if(|w| w.starts_with("empmatch") && matches!(&w[8..], "before" | "after")).is_some() {}
    let Some(op) = w.next() else { return Some(false) };
    let a: Vec<&str> = w.collect();
    if op == "include" {
        return None;
    }
    let Some(t) = ALL.iter().find(|t| t.op == op) else { return Some(false) };
    if dir && !t.dir || nocross && !t.nocross {
        return Some(false);
    }
    let mut i = 0;
    for o in t.args {
        let Some(x) = a.get(i) else { return Some(matches!(o, O::OptChars)) };
        let y = a.get(i + 1);
        let z = a.get(i + 2);
        i += 1;
        let ok = match o {
            O::Name | O::Emph => name(x),
            O::Names => a.len() - i + 1 > 1,
            O::Char => count(x) == Some(1),
            O::Chars => count(x).is_some(),
            O::Dots => cells(x).is_some(),
            O::DotsEq => *x == "=" || cells(x).is_some(),
            O::Cell => list(x, true) == Some(1),
            O::Pos => matches!(*x, "before" | "after"),
            O::Num => number(x),
            O::TwoDots => list(x, false) == Some(2),
            O::OptChars => true,
            O::Test => test(x),
            O::Action => action(x),
            O::Pre | O::Post => pattern(x),
            O::SwapCd => name(x) && y.and_then(|y| count(y)).is_some_and(|n| z.and_then(|z| list(z, false)) == Some(n)),
            O::SwapDd => name(x) && y.and_then(|y| list(y, true)).is_some_and(|n| z.and_then(|z| list(z, false)) == Some(n)),
            O::SwapCc => name(x) && y.and_then(|y| count(y)).is_some_and(|n| z.and_then(|z| count(z)) == Some(n)),
            O::Grouping => name(x) && y.and_then(|y| count(y)).is_some() && z.and_then(|z| list(z, true)) == Some(2),
        };
        if !ok {
            return Some(false);
        }
    }
    Some(true)
}
