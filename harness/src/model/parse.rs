//! Reading table lines
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Dir {
    Both,
    ForwardOnly,
    BackwardOnly,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Dots {
    Eq,
    Cells(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Include(String),
    Hyphenation(PathBuf),
    Undefined(String),
    Display { ch: char, cell: char },
    CharDef { kind: String, ch: char, cells: String },
    Base { class: String, derived: char, base: char },
    /// indicators with only cells: numsign, capsletter, begcomp, letsign, ...
    Ind { name: String, cells: String },
    EndCapsPhrase { before: bool, cells: String },
    LenCapsPhrase(i64),
    /// noletsign, numericmodechars, capsmodechars, seqdelimiter, ...
    Chars { name: String, chars: String },
    Attribute { name: String, chars: String },
    EmphClass(String),
    EmphDots { which: String, class: String, cells: String },
    EndEmphPhrase { class: String, before: bool, cells: String },
    LenEmphPhrase { class: String, n: i64 },
    EmphChars { which: String, class: String, chars: String },
    Compbrl(String),
    Trans { kind: String, chars: String, dots: Dots },
    Contraction(String),
    Swap { kind: String, name: String, from: Vec<char>, to: Vec<String> },
    Multi { stage: String, test: String, action: String },
    Match { pre: String, chars: String, post: String, dots: Dots },
    /// opcodes without an effect on translation
    NoEffect,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Rule {
    pub line: usize,
    pub dir: Dir,
    pub nocross: bool,
    pub before: Vec<String>,
    pub after: Vec<String>,
    pub op: Op,
}

pub const TRANS: &[&str] = &[
    "comp6", "always", "repeated", "repword", "largesign", "word", "syllable", "joinword", "lowword",
    "sufword", "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword",
    "prepunc", "postpunc", "begnum", "midnum", "endnum", "joinnum",
];
pub const CHARDEF: &[&str] = &[
    "space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math",
    "decpoint", "hyphen",
];
pub const IND: &[&str] = &[
    "capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase", "letsign",
    "nocontractsign", "numsign", "nonumsign", "begcomp", "endcomp",
];
pub const CHARS: &[&str] = &[
    "capsmodechars", "noletsign", "noletsignbefore", "noletsignafter", "numericnocontchars",
    "numericmodechars", "midendnumericmodechars", "seqdelimiter", "seqbeforechars", "seqafterchars",
    "seqafterpattern", "seqafterexpression", "nocont", "literal", "exactdots",
];
/// opcodes for which `=` means the cells of their characters
pub const IMPLICIT: &[&str] = &[
    "comp6", "always", "word", "syllable", "sufword", "prfword", "begword", "begmidword", "midword",
    "midendword", "endword", "partword", "endnum",
];

pub fn cells(s: &str) -> Option<String> {
    let mut out = String::new();
    for cell in s.split('-') {
        out.push(cell_char(cell)?);
    }
    Some(out)
}

pub fn cell_char(cell: &str) -> Option<char> {
    if cell.is_empty() {
        return None;
    }
    let mut bits = 0u32;
    let mut virt = false;
    for d in cell.chars() {
        match d {
            '0' => {}
            '1'..='8' => bits |= 1 << (d as u32 - '1' as u32),
            '9' => {
                virt = true;
                bits |= 0x100;
            }
            'a'..='f' => {
                virt = true;
                bits |= 0x200 << (d as u32 - 'a' as u32);
            }
            _ => return None,
        }
    }
    char::from_u32(if virt { 0xf0000 | bits } else { 0x2800 | bits })
}

/// the characters an operand stands for
pub fn unescape(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let hex = |i: usize, n: usize| -> Option<u32> {
        let t: String = c.get(i..i + n)?.iter().collect();
        if t.chars().all(|c| c.is_ascii_hexdigit()) {
            u32::from_str_radix(&t, 16).ok()
        } else {
            None
        }
    };
    while i < c.len() {
        if c[i] != '\\' {
            out.push(c[i]);
            i += 1;
            continue;
        }
        match *c.get(i + 1)? {
            'f' => out.push('\u{c}'),
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            's' => out.push(' '),
            't' => out.push('\t'),
            'v' => out.push('\u{b}'),
            'e' => out.push('\u{1b}'),
            '\\' => out.push('\\'),
            'x' => {
                let v = hex(i + 2, 4)?;
                i += 4;
                if (0xd800..0xe000).contains(&v) {
                    return None; // surrogates are left out of the model
                }
                out.push(char::from_u32(v)?);
            }
            'y' => {
                out.push(char::from_u32(hex(i + 2, 5)?)?);
                i += 5;
            }
            _ => return None,
        }
        i += 2;
    }
    Some(out)
}

fn one(s: &str) -> Option<char> {
    let u = unescape(s)?;
    let mut it = u.chars();
    let c = it.next()?;
    if it.next().is_some() {
        None
    } else {
        Some(c)
    }
}

fn name(s: &str) -> Option<String> {
    (!s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric())).then(|| s.to_string())
}

/// `Ok(None)` for a blank line or comment, `Err` for a line outside of what the model covers
pub fn line(no: usize, text: &str) -> Result<Option<Rule>, String> {
    let mut t: Vec<&str> = text.split_ascii_whitespace().collect();
    if t.is_empty() || t[0].starts_with('#') {
        return Ok(None);
    }
    let bad = || format!("line {no}: {text}");
    let mut r = Rule { line: no, dir: Dir::Both, nocross: false, before: vec![], after: vec![], op: Op::NoEffect };
    loop {
        match t[0] {
            "nofor" => r.dir = Dir::BackwardOnly,
            "noback" => r.dir = Dir::ForwardOnly,
            "nocross" => r.nocross = true,
            "before" => {
                r.before.push(t.get(1).ok_or_else(bad)?.to_string());
                t.remove(0);
            }
            "after" => {
                r.after.push(t.get(1).ok_or_else(bad)?.to_string());
                t.remove(0);
            }
            "empmatchbefore" | "empmatchafter" => return Err(bad()),
            _ => break,
        }
        t.remove(0);
        if t.is_empty() {
            return Err(bad());
        }
    }
    let op = t[0].to_string();
    let a = |i: usize| -> Result<&str, String> { t.get(i).copied().ok_or_else(bad) };
    let chars = |i: usize| -> Result<String, String> { unescape(a(i)?).ok_or_else(bad) };
    let dots = |i: usize| -> Result<String, String> { cells(a(i)?).ok_or_else(bad) };
    let nam = |i: usize| -> Result<String, String> { name(a(i)?).ok_or_else(bad) };
    let num = |i: usize| -> Result<i64, String> { a(i)?.parse::<i32>().map(|v| v as i64).map_err(|_| bad()) };
    let ch = |i: usize| -> Result<char, String> { one(a(i)?).ok_or_else(bad) };
    let before = |i: usize| -> Result<bool, String> {
        match a(i)? {
            "before" => Ok(true),
            "after" => Ok(false),
            _ => Err(bad()),
        }
    };
    let o = op.as_str();
    r.op = match o {
        "include" => Op::Include(a(1)?.to_string()),
        "undefined" => Op::Undefined(dots(1)?),
        "display" => {
            let c = dots(2)?;
            if c.chars().count() != 1 {
                return Err(bad());
            }
            Op::Display { ch: ch(1)?, cell: c.chars().next().unwrap() }
        }
        _ if CHARDEF.contains(&o) => Op::CharDef { kind: op.clone(), ch: ch(1)?, cells: dots(2)? },
        "base" => Op::Base { class: nam(1)?, derived: ch(2)?, base: ch(3)? },
        _ if IND.contains(&o) => Op::Ind { name: op.clone(), cells: dots(1)? },
        "endcapsphrase" => Op::EndCapsPhrase { before: before(1)?, cells: dots(2)? },
        "lencapsphrase" => Op::LenCapsPhrase(num(1)?),
        _ if CHARS.contains(&o) => Op::Chars { name: op.clone(), chars: chars(1)? },
        "attribute" => Op::Attribute { name: nam(1)?, chars: chars(2)? },
        "emphclass" => Op::EmphClass(nam(1)?),
        "begemph" | "endemph" | "emphletter" | "begemphword" | "endemphword" | "begemphphrase" => {
            Op::EmphDots { which: op.clone(), class: nam(1)?, cells: dots(2)? }
        }
        "endemphphrase" => Op::EndEmphPhrase { class: nam(1)?, before: before(2)?, cells: dots(3)? },
        "lenemphphrase" => Op::LenEmphPhrase { class: nam(1)?, n: num(2)? },
        "emphmodechars" | "noemphchars" => {
            Op::EmphChars { which: op.clone(), class: nam(1)?, chars: chars(2)? }
        }
        "compbrl" => Op::Compbrl(chars(1)?),
        "contraction" => Op::Contraction(chars(1)?),
        _ if TRANS.contains(&o) => {
            let d = if a(2)? == "=" {
                if !IMPLICIT.contains(&o) {
                    return Err(bad());
                }
                Dots::Eq
            } else {
                Dots::Cells(dots(2)?)
            };
            Op::Trans { kind: op.clone(), chars: chars(1)?, dots: d }
        }
        "swapcd" => {
            let from: Vec<char> = chars(2)?.chars().collect();
            let mut to = vec![];
            for d in a(3)?.split(',') {
                to.push(cells(d).ok_or_else(bad)?);
            }
            Op::Swap { kind: op.clone(), name: nam(1)?, from, to }
        }
        "swapcc" => {
            let from: Vec<char> = chars(2)?.chars().collect();
            let to: Vec<String> = chars(3)?.chars().map(|c| c.to_string()).collect();
            if from.len() != to.len() {
                return Err(bad());
            }
            Op::Swap { kind: op.clone(), name: nam(1)?, from, to }
        }
        "swapdd" => {
            let mut from = vec![];
            for d in a(2)?.split(',') {
                let c = cells(d).ok_or_else(bad)?;
                if c.chars().count() != 1 {
                    return Err(bad());
                }
                from.push(c.chars().next().unwrap());
            }
            let mut to = vec![];
            for d in a(3)?.split(',') {
                to.push(cells(d).ok_or_else(bad)?);
            }
            Op::Swap { kind: op.clone(), name: nam(1)?, from, to }
        }
        "context" | "correct" | "pass2" | "pass3" | "pass4" => {
            Op::Multi { stage: op.clone(), test: a(1)?.to_string(), action: a(2)?.to_string() }
        }
        "match" => {
            let d = if a(4)? == "=" { Dots::Eq } else { Dots::Cells(dots(4)?) };
            Op::Match { pre: a(1)?.to_string(), chars: chars(2)?, post: a(3)?.to_string(), dots: d }
        }
        "multind" | "grouping" | "modeletter" | "begmodeword" | "begmodephrase" | "endmodephrase"
        | "lenmodephrase" | "class" | "capsnocont" | "replace" | "rependword" => Op::NoEffect,
        _ => return Err(bad()),
    };
    Ok(Some(r))
}

/// all rules of a table text without includes
pub fn table(text: &str) -> Result<Vec<Rule>, String> {
    let mut v = vec![];
    for (i, l) in text.lines().enumerate() {
        if let Some(r) = line(i + 1, l)? {
            v.push(r);
        }
    }
    Ok(v)
}

/// all rules of a table file with the included files in place; `Err` also for unreadable files
pub fn file(path: &Path, search: &[PathBuf], depth: usize) -> Result<Vec<Rule>, String> {
    if depth > 60 {
        return Err("includes too deep".into());
    }
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let mut v = vec![];
    for r in table(&text)? {
        if let Op::Include(f) = &r.op {
            let p = search.iter().map(|d| d.join(f)).find(|p| p.is_file()).ok_or(format!("no file {f}"))?;
            if f.ends_with(".dic") {
                v.push(Rule { op: Op::Hyphenation(p), ..r });
            } else {
                v.extend(file(&p, search, depth + 1)?);
            }
        } else {
            v.push(r);
        }
    }
    Ok(v)
}
