//! Tests and actions of correct, context and pass rules, and the stages made of them
use super::ctx::Ctx;
use super::parse::{cell_char, Dir};
use super::re::{Cmp, Env, Prog, Re};
use super::pipe::Chooser;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Str(String),
    Swap(String),
    Copy,
    Nothing,
    Set(u8, u8),
    Step(u8, bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Effect {
    Set(u8, u8),
    Step(u8, bool),
}

impl Effect {
    /// a variable without a value counts from 0; the values are 0 to 255
    pub fn apply(&self, env: &mut Env) {
        match *self {
            Effect::Set(v, n) => env.insert(v, n),
            Effect::Step(v, up) => {
                let x = env.get(&v).copied().unwrap_or(0) as i32 + if up { 1 } else { -1 };
                env.insert(v, x.clamp(0, 255) as u8)
            }
        };
    }
}

pub struct Rule {
    pub prog: Prog,
    pub acts: Vec<Act>,
    pub dir: Dir,
}

/// something that can be applied at a position
#[derive(Clone, Debug)]
pub struct Cand {
    pub input: String,
    pub output: String,
    pub len: usize,
    pub weight: usize,
    pub effects: Vec<Effect>,
    pub context: bool,
    /// gated by the surroundings of punctuation
    pub punct: Option<bool>,
    /// number of the line of the rule
    pub line: usize,
}

pub type Key = (String, String, usize, usize);

impl Cand {
    pub fn key(&self) -> Key {
        (self.input.clone(), self.output.clone(), self.len, self.weight)
    }
}

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.i += 1;
        Some(c)
    }
    fn num(&mut self) -> Option<u8> {
        let mut s = String::new();
        while let Some(c) = self.peek().filter(|c| c.is_ascii_digit()) {
            s.push(c);
            self.i += 1;
        }
        s.parse().ok()
    }
    fn string(&mut self) -> Option<String> {
        let mut s = String::new();
        loop {
            let c = self.next()?;
            match c {
                '"' => return Some(s),
                '\\' => match self.peek()? {
                    's' => {
                        self.i += 1;
                        s.push(' ')
                    }
                    '"' => {
                        self.i += 1;
                        s.push('"')
                    }
                    k @ ('x' | 'y') => {
                        self.i += 1;
                        let n = if k == 'x' { 4 } else { 5 };
                        let h: String = self.c.get(self.i..self.i + n)?.iter().collect();
                        self.i += n;
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    _ => s.push('\\'),
                },
                c => s.push(c),
            }
        }
    }
    fn dots(&mut self) -> Option<String> {
        let mut s = String::new();
        while let Some(c) = self.peek().filter(|c| "0123456789abcdef-".contains(*c)) {
            s.push(c);
            self.i += 1;
        }
        s.split('-').map(cell_char).collect()
    }
    fn alpha(&mut self) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek().filter(|c| c.is_ascii_alphabetic()) {
            s.push(c);
            self.i += 1;
        }
        s
    }
    fn quantified(&mut self, one: Re) -> Option<Re> {
        match self.peek() {
            Some('.') => {
                self.i += 1;
                Some(Re::Plus(Box::new(one)))
            }
            Some(c) if c.is_ascii_digit() => {
                let m = self.num()? as usize;
                if self.peek() == Some('-') {
                    self.i += 1;
                    let n = self.num()? as usize;
                    if m >= n {
                        return None;
                    }
                    Some(Re::Repeat(m, n, Box::new(one)))
                } else {
                    Some(Re::Repeat(m, m, Box::new(one)))
                }
            }
            _ => Some(one),
        }
    }
}

fn tests(p: &mut P, class: &dyn Fn(&str) -> HashSet<char>, top: &mut bool, depth: usize) -> Option<Re> {
    let mut v = vec![];
    while let Some(c) = p.peek() {
        if c == ']' {
            break;
        }
        if c == '[' && depth == 0 {
            *top = true;
        }
        v.push(test(p, class, depth)?);
    }
    Some(Re::Cat(v))
}

fn test(p: &mut P, class: &dyn Fn(&str) -> HashSet<char>, depth: usize) -> Option<Re> {
    match p.next()? {
        '_' => {
            if p.peek().is_some_and(|c| c.is_ascii_digit()) {
                p.num()?;
            }
            // text before the brackets is never replaced, so there is nothing to go back for
            Some(Re::Empty)
        }
        '#' => {
            let var = p.num()?;
            let op = match (p.next()?, p.peek()) {
                ('=', _) => Cmp::Eq,
                ('<', Some('=')) => {
                    p.i += 1;
                    Cmp::Le
                }
                ('>', Some('=')) => {
                    p.i += 1;
                    Cmp::Ge
                }
                ('<', _) => Cmp::Lt,
                ('>', _) => Cmp::Gt,
                _ => return None,
            };
            Some(Re::Var { var, op, n: p.num()?, positive: true })
        }
        '"' => Some(Re::str(&p.string()?)),
        '@' => Some(Re::str(&p.dots()?)),
        '`' => Some(Re::Start(true)),
        '~' => Some(Re::End(true)),
        '$' => {
            let mut set = HashSet::new();
            let mut any = false;
            while let Some(c) = p.peek() {
                let name = match c {
                    'd' => "digit",
                    'D' => "litdigit",
                    'l' => "letter",
                    'm' => "math",
                    'p' => "punctuation",
                    'S' => "sign",
                    's' => "space",
                    'U' => "uppercase",
                    'u' => "lowercase",
                    'a' | 'w' | 'x' | 'y' | 'z' => return None, // outside of the model
                    _ => break,
                };
                any = true;
                set.extend(class(name));
                p.i += 1;
            }
            if !any {
                return None;
            }
            p.quantified(Re::In(Rc::new(set)))
        }
        '%' => {
            if let Some(c) = p.peek().filter(|c| ('1'..='7').contains(c)) {
                p.i += 1;
                return Some(Re::In(Rc::new(class(&c.to_string()))));
            }
            let n = p.alpha();
            if n.is_empty() {
                return None;
            }
            let set = class(&n);
            p.quantified(Re::In(Rc::new(set)))
        }
        '!' => {
            if matches!(p.peek(), Some('!' | '[')) {
                return None;
            }
            Some(test(p, class, depth)?.negate())
        }
        '[' => {
            let mut top = false;
            let r = tests(p, class, &mut top, depth + 1)?;
            if p.next()? != ']' {
                return None;
            }
            Some(Re::Capture(Box::new(r)))
        }
        _ => None,
    }
}

/// a rule of one of the stages, `None` if it is not well-formed or outside of the model
pub fn rule(test: &str, action: &str, class: &dyn Fn(&str) -> HashSet<char>, dir: Dir) -> Option<Rule> {
    let mut p = P { c: test.chars().collect(), i: 0 };
    let mut top = false;
    let mut re = tests(&mut p, class, &mut top, 0)?;
    if p.i != p.c.len() {
        return None;
    }
    if !top {
        re = Re::Capture(Box::new(re));
    }
    let mut p = P { c: action.chars().collect(), i: 0 };
    let mut acts = vec![];
    while let Some(c) = p.next() {
        acts.push(match c {
            '"' => Act::Str(p.string()?),
            '@' => Act::Str(p.dots()?),
            '*' => Act::Copy,
            '?' => Act::Nothing,
            '%' => Act::Swap(p.alpha()),
            '#' => {
                let v = p.num()?;
                match p.next()? {
                    '=' => Act::Set(v, p.num()?),
                    '+' => Act::Step(v, true),
                    '-' => Act::Step(v, false),
                    _ => return None,
                }
            }
            _ => return None,
        });
    }
    if acts.is_empty() {
        return None;
    }
    Some(Rule { prog: Prog::new(&re), acts, dir })
}

impl Rule {
    /// whether there is something to translate back
    pub fn produces(&self) -> bool {
        self.acts.iter().any(|a| matches!(a, Act::Str(_)))
    }

    /// what the rule does if its test begins to match at `pos`: the candidate and where it is due
    pub fn at(&self, t: &[char], pos: usize, env: &Env, ctx: &Ctx, line: usize) -> Option<(usize, Cand)> {
        let m = self.prog.run(t, pos, env)?;
        let (a, b) = m.cap?;
        let cap: String = t[a..b].iter().collect();
        let mut output = String::new();
        let mut effects = vec![];
        for act in &self.acts {
            match act {
                Act::Str(s) => output.push_str(s),
                Act::Copy => output.push_str(&cap),
                Act::Nothing => {}
                Act::Set(v, n) => effects.push(Effect::Set(*v, *n)),
                Act::Step(v, up) => effects.push(Effect::Step(*v, *up)),
                Act::Swap(name) => {
                    let map = ctx.swaps.get(name)?;
                    for c in cap.chars() {
                        match map.get(&c) {
                            Some(s) => output.push_str(s),
                            None => output.push(c),
                        }
                    }
                }
            }
        }
        Some((
            a,
            Cand {
                input: cap,
                output,
                len: b - a,
                weight: m.end - pos,
                effects,
                context: true,
                punct: None,
                line,
            },
        ))
    }
}

/// run a correct or pass stage over the text
pub fn stage(rules: &[(usize, Rule)], ctx: &Ctx, t: &[char], ch: &mut Chooser) -> Result<(), String> {
    let mut env = Env::new();
    let mut due: Vec<(usize, Cand)> = vec![];
    let mut seen: HashSet<Key> = HashSet::new();
    let mut pos = 0;
    loop {
        // what was found here is only good for the current values of the variables, in contrast to
        // what was found further in front and is due here
        let mut fresh: Vec<Cand> = vec![];
        for (line, r) in rules {
            match r.at(t, pos, &env, ctx, *line) {
                Some((p, c)) if p == pos => fresh.push(c),
                Some(c) => due.push(c),
                None => {}
            }
        }
        let best: Vec<&Cand> = fresh
            .iter()
            .chain(due.iter().filter(|(p, _)| *p == pos).map(|(_, c)| c))
            .filter(|c| !seen.contains(&c.key()))
            .collect();
        let max = best.iter().map(|c| c.weight).max();
        let best: Vec<Cand> = best.into_iter().filter(|c| Some(c.weight) == max).cloned().collect();
        if best.is_empty() {
            if pos == t.len() {
                return Ok(());
            }
            ch.fixed(&t[pos].to_string(), &t[pos].to_string(), 0);
            seen.clear();
            pos += 1;
        } else {
            let c = ch.choose(&best)?;
            c.effects.iter().for_each(|e| e.apply(&mut env));
            if c.len == 0 {
                seen.insert(c.key());
            } else {
                seen.clear();
                pos += c.len;
            }
        }
        due.retain(|(p, _)| *p >= pos);
    }
}
