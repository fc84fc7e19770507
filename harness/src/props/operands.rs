//! The cells and characters that operands denote (C21)
use crate::case::Case;
use crate::model::parse;
use crate::run::{Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, join_lines, mix, Rng, Stats};
use std::collections::HashMap;

/// the dots of a cell in some order, now and then with a redundant 0 or a repeated dot
fn cell(r: &mut Rng, bits: u32) -> String {
    let mut d: Vec<char> = "123456789abcdef".chars().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|x| x.1).collect();
    if d.is_empty() {
        return "0".into();
    }
    if r.chance(8) {
        d.push(*r.pick(&d.clone()));
    }
    if r.chance(4) {
        d.push('0');
    }
    if r.chance(75) {
        r.shuffle(&mut d);
    }
    d.into_iter().collect()
}

fn cells(r: &mut Rng, a: usize, b: usize) -> (String, Vec<u32>) {
    let n = r.range(a, b);
    let v: Vec<u32> = (0..n)
        .map(|_| match r.below(10) {
            0 => 0,
            1 | 2 => r.range(1, 0x7fff) as u32,
            3 => 1 << r.below(15),
            4 => r.range(1, 255) as u32,
            _ => r.range(1, 63) as u32,
        })
        .collect();
    (text(r, &v), v)
}

fn text(r: &mut Rng, v: &[u32]) -> String {
    v.iter().map(|b| cell(r, *b)).collect::<Vec<_>>().join("-")
}

fn braille(v: &[u32]) -> String {
    v.iter().map(|b| char::from_u32(if *b > 255 { 0xf0000 } else { 0x2800 } | b).unwrap()).collect()
}

/// a form of the character in an operand
fn form(r: &mut Rng, c: char) -> String {
    let v = c as u32;
    let named = match c {
        ' ' => 's',
        '\t' => 't',
        '\n' => 'n',
        '\r' => 'r',
        '\u{b}' => 'v',
        '\u{c}' => 'f',
        '\u{1b}' => 'e',
        '\\' => '\\',
        _ => '\0',
    };
    let upper = r.chance(50);
    let hex = |v: u32, n: usize| if upper { format!("{v:0n$X}") } else { format!("{v:0n$x}") };
    let mut forms: Vec<String> = vec![];
    if named != '\0' {
        forms.push(format!("\\{named}"));
    } else if !c.is_whitespace() {
        forms.push(c.to_string());
    }
    if v <= 0xffff {
        forms.push(format!("\\x{}", hex(v, 4)));
    } else {
        let mut b = [0u16; 2];
        c.encode_utf16(&mut b);
        forms.push(format!("\\x{}\\x{}", hex(b[0] as u32, 4), hex(b[1] as u32, 4)));
    }
    if v <= 0xfffff {
        forms.push(format!("\\y{}", hex(v, 5)));
    }
    r.pick(&forms).clone()
}

/// a form of the character in a string of a test or action, which knows less escapes
fn quoted(r: &mut Rng, c: char) -> Option<String> {
    let v = c as u32;
    let mut forms: Vec<String> = vec![];
    match c {
        ' ' => forms.push("\\s".into()),
        '"' => forms.push("\\\"".into()),
        '\\' => {}
        c if !c.is_whitespace() => forms.push(c.to_string()),
        _ => {}
    }
    if v <= 0xffff {
        forms.push(format!("\\x{v:04x}"));
    }
    if v <= 0xfffff {
        forms.push(format!("\\y{v:05X}"));
    }
    if forms.is_empty() {
        None
    } else {
        Some(r.pick(&forms).clone())
    }
}

/// without another letter case
fn caseless(c: char) -> bool {
    c.to_lowercase().eq([c]) && c.to_uppercase().eq([c])
}

const BLOCKS: u64 = 0x110000 / 256;

fn escapes(r: &mut Rng, i: u64) -> Case {
    let block = (i % BLOCKS) as u32;
    let chars: Vec<char> = (block * 256..block * 256 + 256).filter_map(char::from_u32).collect();
    let mut c = Case { kind: "escape".into(), ..Default::default() };
    let mut lines = vec![];
    // every character is defined
    let mut expect = HashMap::new();
    for (k, ch) in chars.iter().enumerate() {
        let v = [k as u32 + 1];
        lines.push(format!("sign {} {}", form(r, *ch), text(r, &v)));
        c.inputs.push(ch.to_string());
        c.inputs.push(braille(&v));
        expect.insert(*ch, braille(&v));
    }
    let words: Vec<char> = chars.iter().copied().filter(|c| caseless(*c)).collect();
    let x = words.first().copied().unwrap_or('x');
    if words.len() > 2 {
        let n = words.len().min(24);
        let start = r.below(words.len() - n + 1);
        let own = 0x1000 + block % 0x100;
        match r.below(5) {
            0 => {
                for (k, ch) in words.iter().enumerate() {
                    let v = [own, k as u32 + 1];
                    let f = [form(r, x), form(r, *ch), form(r, x)].concat();
                    lines.push(format!("always {f} {}", text(r, &v)));
                    c.inputs.push(format!("{x}{ch}{x}"));
                    c.inputs.push(if *ch == x { braille(&[own, 1]) } else { braille(&v) });
                }
            }
            1 => {
                for (k, ch) in words[start..start + n].iter().enumerate() {
                    let v = [own, k as u32 + 1];
                    lines.push(format!("match - {}{} - {}", form(r, *ch), form(r, *ch), text(r, &v)));
                    c.inputs.push(format!("{ch}{ch}"));
                    c.inputs.push(braille(&v));
                }
            }
            2 => {
                for (k, ch) in words[start..start + n].iter().enumerate() {
                    if let Some(q) = quoted(r, *ch) {
                        let v = [own, k as u32 + 1];
                        lines.push(format!("context \"{q}{q}\" @{}", text(r, &v)));
                        c.inputs.push(format!("{ch}{ch}"));
                        c.inputs.push(braille(&v));
                    }
                }
            }
            3 => {
                // from a character to another one before the translation
                let v: Vec<char> = words[start..start + n].to_vec();
                for (k, ch) in v.iter().enumerate() {
                    let to = v[(k + 1) % v.len()];
                    if let (Some(q), Some(p)) = (quoted(r, *ch), quoted(r, to)) {
                        lines.push(format!("correct \"{q}\" \"{p}\""));
                        if let Some(i) = c.inputs.iter().step_by(2).position(|i| *i == ch.to_string()) {
                            c.inputs[2 * i + 1] = expect[&to].clone();
                        }
                    }
                }
            }
            _ => {
                let v: Vec<char> = words[start..start + n].to_vec();
                let from: String = v.iter().map(|c| form(r, *c)).collect();
                let to: String = v.iter().rev().map(|c| form(r, *c)).collect();
                lines.push(format!("swapcc sw {from} {to}"));
                lines.push("correct [%sw] %sw".into());
                for (k, ch) in v.iter().enumerate() {
                    if let Some(i) = c.inputs.iter().step_by(2).position(|i| *i == ch.to_string()) {
                        c.inputs[2 * i + 1] = expect[&v[v.len() - 1 - k]].clone();
                    }
                }
            }
        }
    }
    c.table = join_lines(&lines);
    c
}

fn operands(r: &mut Rng) -> Case {
    let mut c = Case { kind: "cells".into(), ..Default::default() };
    let mut lines = vec![];
    let mut ask = |c: &mut Case, i: &str, e: String| {
        c.inputs.push(i.to_string());
        c.inputs.push(e);
    };
    let defs = |r: &mut Rng, lines: &mut Vec<String>, letters: &str| -> HashMap<char, Vec<u32>> {
        let mut m = HashMap::new();
        for l in letters.chars() {
            let (d, v) = cells(r, 1, 3);
            lines.push(format!("{} {l} {d}", r.pick(&["lowercase", "letter"])));
            m.insert(l, v);
        }
        m
    };
    match r.below(9) {
        0 => {
            for k in ["space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math", "decpoint", "hyphen"].iter().enumerate() {
                let (d, v) = cells(r, 1, 6);
                let ch = "qrstuvwxyzü".chars().nth(k.0).unwrap();
                lines.push(format!("{} {ch} {d}", k.1));
                ask(&mut c, &ch.to_string(), braille(&v));
            }
        }
        1 => {
            let m = defs(r, &mut lines, "xyz");
            for k in ["always", "word", "largesign", "syllable", "prfword", "sufword", "joinword", "lowword"].iter().enumerate() {
                let (d, v) = cells(r, 1, 8);
                let w = ["xyz", "xzy", "xyy", "xzz", "xyyz", "xyzz", "xzyy", "xzzy"][k.0];
                lines.push(format!("{} {w} {d}", k.1));
                ask(&mut c, w, braille(&v));
            }
            ask(&mut c, "z", braille(&m[&'z']));
        }
        2 => {
            let (d, v) = cells(r, 1, 5);
            lines.push(format!("undefined {d}"));
            ask(&mut c, "漢", braille(&v));
            ask(&mut c, "字漢", braille(&v) + &braille(&v));
        }
        3 => {
            defs(r, &mut lines, "xyz");
            let (d, v) = cells(r, 1, 5);
            lines.push(format!("match - xyz - {d}"));
            ask(&mut c, "xyz", braille(&v));
            let (d, v) = cells(r, 1, 5);
            lines.push(format!("context \"zyx\" @{d}"));
            ask(&mut c, "zyx", braille(&v));
        }
        4 => {
            // the same cells in other words
            let m = defs(r, &mut lines, "xyz");
            let (d, v) = cells(r, 1, 5);
            let t = text(r, &m[&'x']);
            lines.push(format!("{} @{t} @{d}", r.pick(&["pass2", "pass3", "pass4"])));
            let other = [m[&'y'].clone(), m[&'z'].clone()].concat();
            if !m[&'x'].iter().any(|b| other.contains(b)) {
                let mut e = m[&'y'].clone();
                e.extend(&v);
                e.extend(&m[&'z']);
                ask(&mut c, "yxz", braille(&e));
            }
            ask(&mut c, "x", braille(&v));
        }
        5 => {
            let m = defs(r, &mut lines, "xyz");
            let (d, v) = cells(r, 1, 4);
            let (e, w) = cells(r, 1, 4);
            lines.push(format!("swapcd sw xy {d},{e}"));
            lines.push("context [%sw] %sw".into());
            ask(&mut c, "xzy", braille(&[v.clone(), m[&'z'].clone(), w.clone()].concat()));
        }
        6 => {
            let mut m = HashMap::new();
            for ch in "xyzXYZ".chars() {
                let (d, v) = cells(r, 1, 3);
                lines.push(format!("{} {ch} {d}", if ch.is_uppercase() { "uppercase" } else { "lowercase" }));
                m.insert(ch, v);
            }
            let (d, v) = cells(r, 1, 4);
            lines.push(format!("capsletter {d}"));
            ask(&mut c, "X", braille(&[v.clone(), m[&'X'].clone()].concat()));
            ask(&mut c, "xYz", braille(&[m[&'x'].clone(), v, m[&'Y'].clone(), m[&'z'].clone()].concat()));
        }
        7 => {
            let mut m = HashMap::new();
            for ch in "123".chars() {
                let (d, v) = cells(r, 1, 3);
                lines.push(format!("litdigit {ch} {d}"));
                m.insert(ch, v);
            }
            let (d, v) = cells(r, 1, 4);
            lines.push(format!("numsign {d}"));
            ask(&mut c, "1", braille(&[v.clone(), m[&'1'].clone()].concat()));
            ask(&mut c, "32", braille(&[v, m[&'3'].clone(), m[&'2'].clone()].concat()));
        }
        _ => {
            // read them
            c.backward = true;
            let (d, v) = cells(r, 1, 5);
            lines.push(format!("always xyz {d}"));
            ask(&mut c, &braille(&v), "xyz".into());
            let (d, w) = cells(r, 1, 2);
            if w[0] != v[0] {
                lines.push(format!("sign ü {d}"));
                ask(&mut c, &braille(&w), "ü".into());
                ask(&mut c, &braille(&[w, v].concat()), "üxyz".into());
            }
        }
    }
    c.table = join_lines(&lines);
    c
}

fn gen21(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    Some(if i % 3 != 2 { escapes(r, i / 3 * 2 + i % 3) } else { operands(r) })
}

/// all cells, in one table
fn all_cells(tier: Tier) -> Vec<Case> {
    let mut cases = vec![];
    let n = if tier == Tier::Quick { 2 } else { 8 };
    for k in 0..n {
        let mut r = Rng::new(k + 1);
        let mut lines = vec![];
        for b in 0..0x8000u32 {
            let d = if k == 0 { crate::gen::cell_text(b) } else { cell(&mut r, b) };
            lines.push(format!("sign \\y{:05x} {d}", 0x10000 + b));
        }
        let backward = k % 2 == 1;
        cases.push(Case { prop: "C21".into(), kind: "all".into(), table: join_lines(&lines), backward, ..Default::default() });
    }
    cases
}

fn check21(c: &Case, st: &mut Stats) -> Outcome {
    let t = match sut::load(&c.table, c.backward) {
        Load::Ok(t) => t,
        Load::Rejected(e) => return Outcome::Violation(format!("a valid table is rejected: {}", e.join("; "))),
        Load::Panicked(p) => return Outcome::Violation(format!("loading panics: {p}")),
    };
    st.hit("tables");
    if c.kind == "all" {
        let mut seen: HashMap<String, u32> = HashMap::new();
        for b in 0..0x8000u32 {
            let ch = char::from_u32(0x10000 + b).unwrap().to_string();
            let name = crate::gen::cell_text(b);
            let x = if c.backward { braille(&[b]) } else { ch.clone() };
            let got = match sut::translate(&t, &x, &[]) {
                Ok(g) => g,
                Err(e) => return Outcome::Violation(format!("dots {name}: {e}")),
            };
            if c.backward {
                if got != ch {
                    return Outcome::Violation(format!("the cell {x:?} of dots {name} is read as {got:?} instead of {ch:?}"));
                }
            } else {
                let mut it = got.chars();
                let (Some(g), None) = (it.next(), it.next()) else {
                    return Outcome::Violation(format!("dots {name} give {got:?}, not one cell"));
                };
                let v = g as u32;
                let private = (0xe000..0xf900).contains(&v) || (0xf0000..0xffffe).contains(&v) || (0x100000..0x10fffe).contains(&v);
                if b < 256 && v != 0x2800 + b || b > 255 && !private {
                    return Outcome::Violation(format!("dots {name} give {g:?}"));
                }
                if let Some(o) = seen.insert(got.clone(), b) {
                    return Outcome::Violation(format!("dots {} and {name} both give {g:?}", crate::gen::cell_text(o)));
                }
            }
            st.eval(mix(b as u64) ^ hash_str(&got));
            st.hit("cells_of_all");
        }
        return Outcome::Ok;
    }
    for p in c.inputs.chunks(2) {
        let [i, e] = p else { break };
        match sut::translate(&t, i, &[]) {
            Ok(g) if g == *e => {}
            g => {
                let line = c.table.lines().find(|l| l.contains(i.as_str())).unwrap_or("");
                return Outcome::Violation(format!("{i:?} is translated to {g:?} instead of {e:?} {line}"));
            }
        }
        st.eval(mix(hash_str(&c.table)) ^ hash_str(i));
        st.hit(&c.kind);
    }
    if c.inputs.is_empty() {
        st.trivial();
    }
    for l in c.table.lines().filter(|l| l.contains('\\')) {
        for (k, n) in [("\\x", "hexadecimal_escapes"), ("\\y", "long_escapes")] {
            if l.contains(k) {
                st.hit(n);
            }
        }
    }
    // what the operands are
    if c.kind == "cells" {
        for w in c.table.split_whitespace().filter(|w| parse::cells(w).is_some()) {
            st.count("dots_operands", 1);
            if w.contains(|c: char| c == '9' || c.is_ascii_lowercase()) {
                st.hit("operands_with_virtual_dots");
            }
        }
    }
    st.sample(|| format!("{} -> {:?}", c.table.lines().last().unwrap_or(""), c.inputs.last()));
    Outcome::Ok
}

pub static C21: Prop = Prop {
    id: "C21",
    quick: 13200,
    thorough_secs: 120,
    gen: gen21,
    check: check21,
    plain: sut::plain_run,
    fixed: all_cells,
    shrink: false,
    rule: "a text whose translation shows what an operand denotes; distinct by table and text",
    assumptions: &["all 1112064 characters are run through a definition in one of their forms in every 6528 cases", "strings of tests and actions know the escapes \\s, \\\", \\x and \\y"],
};
