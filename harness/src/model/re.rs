//! Patterns of match rules and tests of multipass rules: backtracking matcher over a small program
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Never,
    Char(char),
    /// one character, the text is compared in lower case
    CharI(char),
    NotChar(char),
    Any,
    In(Rc<HashSet<char>>),
    NotIn(Rc<HashSet<char>>),
    Cat(Vec<Re>),
    Alt(Box<Re>, Box<Re>),
    Opt(Box<Re>),
    Star(Box<Re>),
    Plus(Box<Re>),
    /// at least, at most
    Repeat(usize, usize, Box<Re>),
    Start(bool),
    End(bool),
    Var { var: u8, op: Cmp, n: u8, positive: bool },
    Capture(Box<Re>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cmp {
    Eq,
    Lt,
    Gt,
    Le,
    Ge,
}

pub type Env = std::collections::HashMap<u8, u8>;

pub fn fold(c: char) -> Option<char> {
    let mut l = c.to_lowercase();
    let r = l.next()?;
    if l.next().is_some() {
        None
    } else {
        Some(r)
    }
}

impl Re {
    pub fn str(s: &str) -> Re {
        Re::Cat(s.chars().map(Re::Char).collect())
    }
    /// negation distributes over the parts
    pub fn negate(&self) -> Re {
        let b = |r: &Re| Box::new(r.negate());
        match self {
            Re::Empty => Re::Never,
            Re::Never => Re::Never,
            Re::Char(c) | Re::CharI(c) => Re::NotChar(*c),
            Re::NotChar(c) => Re::Char(*c),
            Re::Any => Re::Never,
            Re::In(s) => Re::NotIn(s.clone()),
            Re::NotIn(s) => Re::In(s.clone()),
            Re::Cat(v) => Re::Cat(v.iter().map(|r| r.negate()).collect()),
            Re::Alt(x, y) => Re::Alt(b(x), b(y)),
            Re::Opt(x) => Re::Opt(b(x)),
            Re::Star(x) => Re::Star(b(x)),
            Re::Plus(x) => Re::Plus(b(x)),
            Re::Repeat(m, n, x) => Re::Repeat(*m, *n, b(x)),
            Re::Start(p) => Re::Start(!p),
            Re::End(p) => Re::End(!p),
            Re::Var { var, op, n, positive } => {
                Re::Var { var: *var, op: *op, n: *n, positive: !positive }
            }
            Re::Capture(x) => Re::Capture(b(x)),
        }
    }
}

enum I {
    One(Re),
    Split(usize, usize),
    Jmp(usize),
    CapStart,
    CapEnd,
    Match,
    Never,
}

pub struct Prog {
    code: Vec<I>,
}

fn emit(r: &Re, c: &mut Vec<I>) {
    match r {
        Re::Empty => {}
        Re::Never => c.push(I::Never),
        Re::Cat(v) => v.iter().for_each(|x| emit(x, c)),
        Re::Alt(x, y) => {
            let s = c.len();
            c.push(I::Never);
            emit(x, c);
            let j = c.len();
            c.push(I::Never);
            c[s] = I::Split(s + 1, c.len());
            emit(y, c);
            c[j] = I::Jmp(c.len());
        }
        Re::Opt(x) => {
            let s = c.len();
            c.push(I::Never);
            emit(x, c);
            c[s] = I::Split(s + 1, c.len());
        }
        Re::Star(x) => {
            let s = c.len();
            c.push(I::Never);
            emit(x, c);
            c.push(I::Jmp(s));
            c[s] = I::Split(s + 1, c.len());
        }
        Re::Plus(x) => {
            let s = c.len();
            emit(x, c);
            let p = c.len();
            c.push(I::Split(s, p + 1));
        }
        Re::Repeat(m, n, x) => {
            for _ in 0..*m {
                emit(x, c);
            }
            let mut fix = vec![];
            for _ in *m..*n {
                fix.push(c.len());
                c.push(I::Never);
                emit(x, c);
            }
            let end = c.len();
            for f in fix {
                c[f] = I::Split(f + 1, end);
            }
        }
        Re::Capture(x) => {
            c.push(I::CapStart);
            emit(x, c);
            c.push(I::CapEnd);
        }
        x => c.push(I::One(x.clone())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub end: usize,
    pub cap: Option<(usize, usize)>,
}

impl Prog {
    pub fn new(r: &Re) -> Prog {
        let mut code = vec![];
        emit(r, &mut code);
        code.push(I::Match);
        Prog { code }
    }

    /// the preferred match that begins at `start`
    pub fn run(&self, text: &[char], start: usize, env: &Env) -> Option<Found> {
        let n = text.len();
        let mut seen: HashSet<(usize, usize)> = HashSet::new();
        // explicit stack: alternatives in order of preference
        let mut stack = vec![(0usize, start, None::<usize>, None::<usize>)];
        while let Some((mut pc, mut pos, mut cs, mut ce)) = stack.pop() {
            loop {
                if !seen.insert((pc, pos)) {
                    break;
                }
                match &self.code[pc] {
                    I::Never => break,
                    I::Match => {
                        let cap = match (cs, ce) {
                            (Some(a), Some(b)) => Some((a, b)),
                            _ => None,
                        };
                        return Some(Found { end: pos, cap });
                    }
                    I::Jmp(t) => pc = *t,
                    I::Split(a, b) => {
                        stack.push((*b, pos, cs, ce));
                        pc = *a;
                    }
                    I::CapStart => {
                        cs = Some(pos);
                        pc += 1;
                    }
                    I::CapEnd => {
                        ce = Some(pos);
                        pc += 1;
                    }
                    I::One(r) => {
                        let consumes = match r {
                            Re::Start(p) => {
                                if (pos == 0) != *p {
                                    break;
                                }
                                false
                            }
                            Re::End(p) => {
                                if (pos == n) != *p {
                                    break;
                                }
                                false
                            }
                            Re::Var { var, op, n, positive } => {
                                let Some(v) = env.get(var) else { break };
                                let holds = match op {
                                    Cmp::Eq => v == n,
                                    Cmp::Lt => v < n,
                                    Cmp::Gt => v > n,
                                    Cmp::Le => v <= n,
                                    Cmp::Ge => v >= n,
                                };
                                if holds != *positive {
                                    break;
                                }
                                false
                            }
                            one => {
                                let Some(&c) = text.get(pos) else { break };
                                let ok = match one {
                                    Re::Char(x) => c == *x,
                                    Re::CharI(x) => fold(c) == Some(*x),
                                    Re::NotChar(x) => c != *x,
                                    Re::Any => true,
                                    Re::In(s) => s.contains(&c),
                                    Re::NotIn(s) => !s.contains(&c),
                                    _ => unreachable!(),
                                };
                                if !ok {
                                    break;
                                }
                                true
                            }
                        };
                        if consumes {
                            pos += 1;
                        }
                        pc += 1;
                    }
                }
            }
        }
        None
    }
}

// ------------------------------------------------------------------ match patterns

fn attr_class(c: char) -> Option<&'static str> {
    Some(match c {
        '_' => "space",
        '#' => "digit",
        'a' => "letter",
        'u' => "uppercase",
        'l' => "lowercase",
        '.' => "punctuation",
        '$' => "sign",
        '~' => "seqdelimiter",
        '<' => "seqbeforechars",
        '>' => "seqafterchars",
        '0' => "0",
        '1' => "1",
        '2' => "2",
        '3' => "3",
        '4' => "4",
        '5' => "5",
        '6' => "6",
        '7' => "7",
        _ => return None,
    })
}

const SPECIAL: &str = ".*%^$![]()\\?+|";

struct P<'a> {
    c: Vec<char>,
    i: usize,
    pre: bool,
    class: &'a dyn Fn(&str) -> HashSet<char>,
}

/// the pattern before (`pre`) or after the characters of a match rule
pub fn match_pattern(s: &str, pre: bool, class: &dyn Fn(&str) -> HashSet<char>) -> Option<Re> {
    // escapes other than those of the pattern characters
    let mut c = vec![];
    let raw: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == '\\' && i + 1 < raw.len() {
            let e = raw[i + 1];
            if "()]".contains(e) {
                c.push('\\');
                c.push(e);
                i += 2;
                continue;
            }
            let len = match e {
                'x' => 6,
                'y' => 7,
                _ => 2,
            };
            let t: String = raw.get(i..i + len)?.iter().collect();
            c.extend(super::parse::unescape(&t)?.chars());
            i += len;
        } else {
            c.push(raw[i]);
            i += 1;
        }
    }
    if c.first() == Some(&'-') {
        return (c.len() == 1).then_some(Re::Empty);
    }
    let mut p = P { c, i: 0, pre, class };
    let r = p.alt()?;
    (p.i == p.c.len()).then_some(r)
}

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn anchor(&self) -> Re {
        if self.pre {
            Re::Start(true)
        } else {
            Re::End(true)
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut l = self.cat()?;
        while self.peek() == Some('|') {
            self.i += 1;
            let r = self.cat()?;
            l = Re::Alt(Box::new(l), Box::new(r));
        }
        Some(l)
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            v.push(self.piece()?);
        }
        if v.is_empty() {
            None
        } else {
            Some(Re::Cat(v))
        }
    }
    fn piece(&mut self) -> Option<Re> {
        if self.peek() == Some('!') {
            self.i += 1;
            if self.peek() == Some('!') {
                return None;
            }
            return Some(self.piece()?.negate());
        }
        let a = self.atom()?;
        Some(match self.peek() {
            Some('?') => {
                self.i += 1;
                Re::Opt(Box::new(a))
            }
            Some('*') => {
                self.i += 1;
                Re::Star(Box::new(a))
            }
            Some('+') => {
                self.i += 1;
                Re::Plus(Box::new(a))
            }
            _ => a,
        })
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        self.i += 1;
        match c {
            '.' => Some(Re::Any),
            '^' | '$' => Some(self.anchor()),
            '(' => {
                let r = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                Some(r)
            }
            '[' => {
                let mut set = HashSet::new();
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    match c {
                        ']' => break,
                        '\\' => {
                            set.insert(self.peek()?);
                            self.i += 1;
                        }
                        c => {
                            set.insert(c);
                        }
                    }
                }
                if set.is_empty() {
                    return None;
                }
                Some(Re::In(Rc::new(set)))
            }
            '%' => {
                let mut names = vec![];
                let mut bound = false;
                let mut one = |c: char| -> Option<()> {
                    if c == '^' {
                        bound = true;
                    } else {
                        names.push(attr_class(c)?);
                    }
                    Some(())
                };
                match self.c.get(self.i).copied()? {
                    '[' => {
                        self.i += 1;
                        loop {
                            let c = *self.c.get(self.i)?;
                            self.i += 1;
                            if c == ']' {
                                break;
                            }
                            one(c)?;
                        }
                    }
                    c => {
                        self.i += 1;
                        one(c)?;
                    }
                }
                let mut set = HashSet::new();
                for n in &names {
                    set.extend((self.class)(n));
                }
                let cls = Re::In(Rc::new(set));
                Some(match (names.is_empty(), bound) {
                    (true, true) => self.anchor(),
                    (true, false) => return None,
                    (false, true) => Re::Alt(Box::new(cls), Box::new(self.anchor())),
                    (false, false) => cls,
                })
            }
            c if SPECIAL.contains(c) => None,
            c => {
                let mut s = String::from(c);
                while let Some(d) = self.peek().filter(|d| !SPECIAL.contains(*d)) {
                    s.push(d);
                    self.i += 1;
                }
                Some(Re::str(&s))
            }
        }
    }
}
