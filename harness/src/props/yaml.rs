//! The test runner (C22)
use crate::case::Case;
use crate::cli;
use crate::mcheck::write_files;
use crate::model::parse;
use crate::props::engine;
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, mix, Rng, Stats};
use std::collections::HashMap;
use std::path::PathBuf;

/// An element of a test file, as a line of words in the case
fn spec(r: &mut Rng, c: &Case, tables: usize, displays: usize, both: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let t = |r: &mut Rng| r.below(tables);
    let groups = match r.below(10) {
        0 => 0,
        1..=5 => 1,
        _ => r.range(2, 4),
    };
    let mut have_table = false;
    for _ in 0..groups {
        let mut head = vec![];
        if displays > 0 && r.chance(45) {
            let d = r.below(displays);
            head.push(match r.below(5) {
                0 | 1 => format!("display simple {d}"),
                2 => format!("display {} {d}", if r.chance(65) { "literal" } else { "folded" }),
                3 => format!("display list {d} {}", r.below(displays)),
                _ => format!("display comma {d} {}", r.below(displays)),
            });
        }
        if !have_table && r.chance(96) || r.chance(40) {
            have_table = true;
            for _ in 0..if r.chance(25) { r.range(2, 3) } else { 1 } {
                head.push(match r.below(8) {
                    0..=2 => format!("table simple {}", t(r)),
                    3 => format!("table literal {}", t(r)),
                    4 => format!("table folded {}", t(r)),
                    5 => format!("table match {}", t(r)),
                    6 => format!("table list {}", t(r)),
                    _ => format!("table list {} {}", t(r), t(r)),
                });
            }
        }
        if both || r.chance(50) {
            head.push(format!(
                "mode {}",
                match r.below(12) {
                    0..=3 => "forward",
                    4..=6 => "backward",
                    7..=10 => "bothDirections",
                    _ => *r.pick(&["display", "hyphenate", "hyphenateBraille"]),
                }
            ));
        }
        // tables that directly follow each other are used together
        if r.chance(30) {
            r.shuffle(&mut head);
        }
        v.extend(head);
        for _ in 0..if r.chance(15) { 2 } else { 1 } {
            v.push("tests".into());
            let n = if r.chance(3) { r.range(20, 120) } else { r.range(0, 7) };
            for _ in 0..n {
                let expect = match r.below(10) {
                    0..=4 => "right",
                    5 | 6 => "wrong",
                    7 => "other",
                    8 => "almost",
                    _ => "empty",
                };
                let xfail = match r.below(16) {
                    0..=6 => "-",
                    7 => "true",
                    8 => "false",
                    9 => "on",
                    10 => "off",
                    11 => "reason",
                    _ => *r.pick(&["dF", "dF", "dB", "dB", "dFB", "dBF", "df", "db", "dFb", "dbF", "dfB", "dBf", "none"]),
                };
                let form = if !c.spans.is_empty() && r.chance(60) { "form" } else { "-" };
                v.push(format!("test {} {expect} {xfail} {form} {}", r.below(c.inputs.len()), r.next() % 1_000_000));
            }
        }
    }
    v
}

pub fn display_text(r: &mut Rng, c: &Case) -> String {
    let mut v = vec![];
    let mut texts: Vec<char> = "abcdeABxyz0123 .,-\u{e4}#".chars().collect();
    texts.extend(c.inputs.iter().flat_map(|i| i.chars()).filter(|c| !c.is_whitespace() && *c != '\u{feff}' && !c.is_control()));
    for _ in 0..r.range(1, 30) {
        let x = *r.pick(&texts);
        let bits = if r.chance(60) { r.below(64) } else { r.below(256) };
        let mut dots: String = (0..8).filter(|b| bits >> b & 1 == 1).map(|b| char::from(b'1' + b)).collect();
        if dots.is_empty() {
            dots.push('0');
        }
        let x = if x == ' ' || x == '\\' { "\\s".to_string() } else { x.to_string() };
        let dir = match r.below(14) {
            0 => "nofor ",
            1 => "noback ",
            _ => "",
        };
        v.push(format!("{dir}display {x} {dots}"));
        if r.chance(10) {
            v.push(r.pick(&["# comment", "", "sign x 2346", "letter a 1", "always abc 14", "space \\s 0"]).to_string());
        }
    }
    v.join("\n") + "\n"
}

fn gen22(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    use engine::F::*;
    let back = r.chance(30);
    let on: &[engine::F] = match i % 4 {
        0 => &[Trans],
        1 => &[Trans, Emph, Comp, Caps],
        2 => &[Correct, Pass, Num],
        _ => &[Trans, Match, Context],
    };
    let a = engine::mixed(r, on, back, 20, 6, 12);
    let mut c = Case { kind: "yaml".into(), inputs: a.inputs.clone(), spans: a.spans.clone(), ..Default::default() };
    let tables = r.range(1, 4);
    c.files.push(("t0.ctb".into(), a.table.clone()));
    for k in 1..tables {
        let b = engine::mixed(r, on, !back, 20, 4, 12);
        // nearly the same table or another one
        let text = if r.chance(50) {
            let mut l: Vec<&str> = a.table.lines().collect();
            let drop = r.below(l.len().max(1));
            if !l.is_empty() {
                l.remove(drop);
            }
            l.join("\n") + "\n"
        } else {
            c.inputs.extend(b.inputs.iter().take(3).cloned());
            b.table.clone()
        };
        c.files.push((format!("t{k}.ctb"), text));
    }
    if r.chance(30) {
        c.inputs.push(r.pick(&["", " ", "abc", "\u{2801}\u{2803}", "a'b\"c", ": - #x", "\\", "a\\sb"]).to_string());
    }
    if r.chance(4) {
        // long texts with emphasis
        let n = *r.pick(&[130usize, 256, 257, 300, 520]) / if i % 4 == 3 { 4 } else { 1 };
        let mut t = String::new();
        while t.chars().count() < n && !a.inputs.is_empty() {
            t.push_str(r.pick(&a.inputs));
            t.push_str("ab");
        }
        c.inputs.push(t);
        if let Some(s) = a.spans.first() {
            c.spans.insert(0, (s.0.clone(), r.below(10), n - r.below(10)));
        }
    }
    let displays = r.below(3);
    for k in 0..displays {
        let t = display_text(r, &c);
        c.files.push((format!("d{k}.dis"), t));
    }
    let n = match r.below(8) {
        0..=2 => 1,
        3 => r.range(8, 24),
        _ => r.range(2, 5),
    };
    for k in 0..n {
        let mut s = spec(r, &c, tables, displays, i % 3 == 0);
        if r.chance(10) {
            s.push(format!("fault {}", r.pick(&["key", "mode", "truncated", "bytes", "query", "missing", "malformed", "xfail", "escape", "two", "nofile", "badmode", "scalar"])));
        }
        c.extra.push((format!("yaml{k}"), s.join("\n")));
    }
    c.set("seed", r.next().to_string());
    Some(c)
}

#[derive(Clone, Copy, PartialEq)]
enum Dir {
    Forward,
    Backward,
}

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Success,
    /// printed
    Failure(String),
    Expected(String),
    Unexpected(String),
}

/// The pairs of character and cell a display table maps
fn display_pairs(text: &str, d: Dir) -> Vec<(char, char)> {
    let mut v: Vec<(char, char)> = vec![];
    for l in text.lines() {
        let mut w: Vec<&str> = l.split_whitespace().collect();
        let skip = match w.first() {
            Some(&"nofor") => Some(Dir::Forward),
            Some(&"noback") => Some(Dir::Backward),
            _ => None,
        };
        if skip.is_some() {
            w.remove(0);
        }
        if w.first() != Some(&"display") || skip == Some(d) {
            continue;
        }
        let (Some(x), Some(cell)) = (parse::unescape(w[1]).and_then(|s| s.chars().next()), parse::cell_char(w[2])) else { continue };
        v.push(if d == Dir::Forward { (cell, x) } else { (x, cell) });
    }
    v
}

fn map(pairs: &[(char, char)], s: &str) -> String {
    s.chars().map(|c| pairs.iter().find(|p| p.0 == c).map_or(c, |p| p.1)).collect()
}

/// what a scalar of the file must say so that it is read as `s`
pub fn escaped(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let n = c as u32;
        let printable = matches!(n, 0x20..=0x7e | 0xa0..=0x2027 | 0x202a..=0xd7ff | 0xe000..=0xfefe | 0xff00..=0xfffd | 0x10000..=0x10ffff);
        match c {
            '\\' => o.push_str("\\\\"),
            _ if printable && !r.chance(2) => o.push(c),
            ' ' => o.push_str("\\s"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            '\u{b}' => o.push_str("\\v"),
            '\u{c}' => o.push_str("\\f"),
            '\u{1b}' => o.push_str("\\e"),
            _ if n < 0x10000 => o.push_str(&format!("\\x{n:04x}")),
            _ if n < 0x100000 => o.push_str(&format!("\\y{n:05x}")),
            _ => o.push(c),
        }
    }
    o
}

fn scalar(r: &mut Rng, s: &str) -> String {
    let plain = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || ('\u{2801}'..='\u{28ff}').contains(&c));
    match r.below(3) {
        0 if plain => s.to_string(),
        1 => {
            let mut o = "\"".to_string();
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    c if (c as u32) >= 0x80 && r.chance(10) => o.push_str(&if (c as u32) < 0x10000 { format!("\\u{:04X}", c as u32) } else { format!("\\U{:08X}", c as u32) }),
                    c => o.push(c),
                }
            }
            o + "\""
        }
        _ => format!("'{}'", s.replace('\'', "''")),
    }
}

/// whether it can be written as a block of the file
fn block_text(s: &str) -> bool {
    s.chars().all(|c| matches!(c as u32, 9 | 10 | 0x20..=0x7e | 0xa0..=0x2027 | 0x202a..=0xd7ff | 0xe000..=0xfefe | 0xff00..=0xfffd | 0x10000..=0x10ffff))
}

fn block(text: &str, style: &str, o: &mut String) {
    if style == "folded" {
        // in this style a line break has to be written twice
        o.push_str(" >\n  # a comment\n");
        for l in text.lines().filter(|l| !l.trim().is_empty()) {
            o.push_str(&format!("\n  {}\n", l.trim_start()));
        }
    } else {
        o.push_str(" |\n  # a comment\n");
        for l in text.lines() {
            o.push_str(&if l.is_empty() { "\n".to_string() } else { format!("  {l}\n") });
        }
    }
}

struct Ctx<'a> {
    c: &'a Case,
    root: PathBuf,
    loaded: HashMap<(Vec<usize>, bool), Option<std::rc::Rc<louis::Translator>>>,
}

impl Ctx<'_> {
    fn text(&self, name: &str) -> &str {
        self.c.files.iter().find(|f| f.0 == name).map(|f| f.1.as_str()).unwrap_or("")
    }
    fn table(&mut self, ids: &[usize], d: Dir) -> Result<Option<std::rc::Rc<louis::Translator>>, Outcome> {
        let k = (ids.to_vec(), d == Dir::Backward);
        if let Some(t) = self.loaded.get(&k) {
            return Ok(t.clone());
        }
        let paths: Vec<PathBuf> = ids.iter().map(|i| self.root.join(format!("t{i}.ctb"))).collect();
        let t = match sut::load_files(&paths, d == Dir::Backward) {
            Load::Ok(t) => Some(std::rc::Rc::new(t)),
            Load::Rejected(_) => None,
            Load::Panicked(p) => return Err(Outcome::Violation(format!("loading panics: {p}"))),
        };
        self.loaded.insert(k, t.clone());
        Ok(t)
    }
}

struct Test {
    input: String,
    expected: String,
    xfail: [bool; 2],
    spans: Vec<(String, usize, usize)>,
}

/// what must be printed for a test
fn verdict(t: &louis::Translator, display: &[(char, char)], d: Dir, test: &Test) -> Result<Verdict, Outcome> {
    let broken = |e: String| Outcome::Violation(format!("the library: {:?}: {e}", test.input));
    let actual = match d {
        Dir::Forward => map(display, &sut::translate(t, &test.input, &test.spans).map_err(broken)?),
        Dir::Backward => sut::translate(t, &map(display, &test.input), &test.spans).map_err(broken)?,
    };
    let (name, x) = if d == Dir::Forward { ("Forward", test.xfail[0]) } else { ("Backward", test.xfail[1]) };
    let full = |k: &str| format!("{k} {{ input: {:?}, expected: {:?}, actual: {actual:?}, direction: {name} }}", test.input, test.expected);
    Ok(match (actual == test.expected, x) {
        (true, false) => Verdict::Success,
        (true, true) => Verdict::Unexpected(format!("UnexpectedSuccess {{ input: {:?}, direction: {name} }}", test.input)),
        (false, true) => Verdict::Expected(full("ExpectedFailure")),
        (false, false) => Verdict::Failure(full("Failure")),
    })
}

/// the text of a test file and what the runner must say about it, if it can be run
fn build(cx: &mut Ctx, lines: &[&str], r: &mut Rng, st: &mut Stats) -> Result<(String, Option<Vec<Verdict>>, bool), Outcome> {
    let mut o = String::new();
    if r.chance(50) {
        o.push_str(r.pick(&["---\n", "# a comment\n", "\n"]));
    }
    if !lines.iter().any(|l| !l.starts_with("fault")) {
        o.push_str("{}\n");
    }
    let mut display: Option<Vec<usize>> = None;
    let mut tables: Vec<Vec<usize>> = vec![];
    let mut mode = "forward";
    let mut after_table = false;
    let mut verdicts: Option<Vec<Verdict>> = Some(vec![]);
    let mut exists = true;
    let mut i = 0;
    while i < lines.len() {
        let w: Vec<&str> = lines[i].split(' ').collect();
        let ids: Vec<usize> = w.iter().skip(2).filter_map(|x| x.parse().ok()).collect();
        i += 1;
        match w[0] {
            "display" => {
                let names: Vec<String> = ids.iter().map(|d| format!("d{d}.dis")).collect();
                match w[1] {
                    "literal" | "folded" if block_text(cx.text(&names[0])) => {
                        o.push_str("display:");
                        block(cx.text(&names[0]), w[1], &mut o);
                    }
                    "comma" => o.push_str(&format!("display: {}\n", names.join(","))),
                    "list" if r.chance(50) => o.push_str(&format!("display: [{}]\n", names.join(", "))),
                    "list" => o.push_str(&format!("display:\n  - {}\n", names.join("\n  - "))),
                    _ => {
                        let n = if r.chance(30) { cx.root.join(&names[0]).to_string_lossy().to_string() } else { names[0].clone() };
                        o.push_str(&format!("display: {}\n", scalar(r, &n)));
                    }
                }
                st.hit(&format!("display_{}", w[1]));
                display = Some(ids);
                after_table = false;
            }
            "table" => {
                let names: Vec<String> = ids.iter().map(|d| format!("t{d}.ctb")).collect();
                match w[1] {
                    "literal" | "folded" if block_text(cx.text(&names[0])) => {
                        o.push_str("table:");
                        block(cx.text(&names[0]), w[1], &mut o);
                    }
                    "match" if r.chance(50) => o.push_str(&format!("table: {{ language: de, __assert-match: {} }}\n", names[0])),
                    "match" => o.push_str(&format!("table:\n  __assert-match: {}\n  grade: 1\n", names[0])),
                    "list" if r.chance(50) => o.push_str(&format!("table: [{}]\n", names.join(", "))),
                    "list" => o.push_str(&format!("table:\n  - {}\n", names.join("\n  - "))),
                    _ => {
                        let n = if r.chance(30) { cx.root.join(&names[0]).to_string_lossy().to_string() } else { names[0].clone() };
                        o.push_str(&format!("table: {}\n", scalar(r, &n)));
                    }
                }
                st.hit(&format!("table_{}", w[1]));
                if !after_table {
                    tables.clear();
                }
                tables.push(ids);
                after_table = true;
            }
            "mode" => {
                mode = w[1];
                o.push_str(&if r.chance(50) { format!("flags: {{testmode: {mode}}}\n") } else { format!("flags:\n  testmode: {mode}\n") });
                after_table = false;
            }
            "tests" => {
                after_table = false;
                let mut specs = vec![];
                while i < lines.len() && lines[i].starts_with("test ") {
                    specs.push(lines[i].split(' ').collect::<Vec<_>>());
                    i += 1;
                }
                let runs: &[Dir] = match mode {
                    "forward" => &[Dir::Forward],
                    "backward" => &[Dir::Backward],
                    "bothDirections" => &[Dir::Forward, Dir::Backward],
                    _ => &[],
                };
                let pairs = |d: Dir| -> Vec<(char, char)> {
                    display.iter().flatten().flat_map(|k| display_pairs(cx.c.files.iter().find(|f| f.0 == format!("d{k}.dis")).map_or("", |f| &f.1), d)).collect()
                };
                let shown = [pairs(Dir::Forward), pairs(Dir::Backward)];
                // the tables the tests are run with
                let mut loaded: Vec<Vec<std::rc::Rc<louis::Translator>>> = vec![];
                for d in runs {
                    let mut l = vec![];
                    for t in &tables {
                        match cx.table(t, *d)? {
                            Some(t) => l.push(t),
                            None => verdicts = None,
                        }
                    }
                    loaded.push(l);
                }
                let mut tests = vec![];
                for s in &specs {
                    let mut tr = Rng::new(s[5].parse().unwrap_or(1));
                    let mut input = cx.c.inputs[s[1].parse::<usize>().unwrap_or(0) % cx.c.inputs.len()].clone();
                    if mode == "backward" && tr.chance(70) {
                        // braille in the characters of the display table
                        if let Ok(Some(f)) = cx.table(tables.first().unwrap_or(&vec![0]), Dir::Forward) {
                            input = sut::translate(&f, &input, &[]).unwrap_or(input);
                            input = map(&shown[0], &input);
                        }
                    }
                    let spans = if s[4] == "form" { cx.c.spans.clone() } else { vec![] };
                    // as a mask says it
                    let spans: Vec<(String, usize, usize)> =
                        spans.into_iter().filter(|s| s.1 < s.2 && !s.0.is_empty() && s.0.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')).collect();
                    let right = |input: &str| -> String {
                        let (Some(d), Some(l)) = (runs.first(), loaded.first()) else { return input.to_string() };
                        if l.is_empty() {
                            return input.to_string();
                        }
                        let t = &l[s[5].len() % l.len()];
                        match d {
                            Dir::Forward => map(&shown[0], &sut::translate(t, input, &spans).unwrap_or_default()),
                            Dir::Backward => sut::translate(t, &map(&shown[1], input), &spans).unwrap_or_default(),
                        }
                    };
                    let expected = match s[2] {
                        "right" => right(&input),
                        "other" => right(&cx.c.inputs[tr.below(cx.c.inputs.len())]),
                        "empty" => String::new(),
                        // without the display table, without emphasis, or in other letter case
                        "almost" => match (tr.below(3), loaded.first().and_then(|l| l.first())) {
                            (0, Some(t)) => sut::translate(t, &input, &spans).unwrap_or_default(),
                            (1, Some(t)) => map(&shown[0], &sut::translate(t, &input, &[]).unwrap_or_default()),
                            _ => right(&input).to_uppercase(),
                        },
                        _ => {
                            let mut e: Vec<char> = right(&input).chars().collect();
                            let at = tr.range(0, e.len());
                            match tr.below(4) {
                                0 => e.insert(at, *tr.pick(&['a', ' ', '\u{2801}', '\u{2800}'])),
                                1 if at < e.len() => {
                                    e.remove(at);
                                }
                                2 => e.push(' '),
                                _ if at < e.len() => e[at] = *tr.pick(&['\u{2801}', 'b', ' ']),
                                _ => e.push('\u{2803}'),
                            }
                            e.into_iter().collect()
                        }
                    };
                    let (xfail, text) = match s[3] {
                        "true" | "on" => ([true; 2], s[3].to_string()),
                        "false" | "off" => ([false; 2], s[3].to_string()),
                        "reason" => ([true; 2], tr.pick(&["\"not yet\"", "'no'", "never done", "'True'", "yes", "''", "0"]).to_string()),
                        "none" => ([false; 2], "{}".into()),
                        k if k.starts_with('d') => {
                            let (mut x, mut v) = ([false; 2], vec![]);
                            for m in k[1..].chars() {
                                let value = if m.is_ascii_uppercase() {
                                    *tr.pick(&["true", "on", "\"bad\"", "why not", "same cell", "yes", "'True'", "0", "''"])
                                } else {
                                    *tr.pick(&["false", "off"])
                                };
                                let (d, name) = if m.eq_ignore_ascii_case(&'f') { (0, "forward") } else { (1, "backward") };
                                x[d] |= m.is_ascii_uppercase();
                                v.push(format!("{name}: {value}"));
                            }
                            (x, format!("{{{}}}", v.join(", ")))
                        }
                        _ => ([false; 2], String::new()),
                    };
                    let mut options = vec![];
                    if !text.is_empty() {
                        options.push(format!("xfail: {text}"));
                    }
                    if !spans.is_empty() {
                        // a mask per span; spans of one class in one mask if they leave a gap
                        let mut masks: Vec<(String, Vec<bool>)> = vec![];
                        for (class, a, b) in &spans {
                            match masks.iter_mut().find(|m| m.0 == *class) {
                                Some(m) if m.1.len() < *a => {
                                    m.1.resize(*a, false);
                                    m.1.resize(*b, true);
                                }
                                Some(_) => {}
                                None => {
                                    let mut v = vec![false; *a];
                                    v.resize(*b, true);
                                    masks.push((class.clone(), v));
                                }
                            }
                        }
                        let m: Vec<String> = masks
                            .iter()
                            .map(|(c, v)| {
                                let mut t: String = v.iter().map(|b| if *b { '+' } else { *tr.pick(&[' ', '-', '-', '.']) }).collect();
                                t.push_str(tr.pick(&["", "", "-", "---"]));
                                format!("{c}: '{t}'")
                            })
                            .collect();
                        options.push(format!("typeform: {{{}}}", m.join(", ")));
                        st.hit("tests_with_typeform");
                    }
                    let spans = if spans.is_empty() {
                        vec![]
                    } else {
                        // only what the masks say
                        let mut v: Vec<(String, usize, usize)> = vec![];
                        let mut ends: HashMap<String, usize> = HashMap::new();
                        let mut order: Vec<String> = vec![];
                        for (c, a, b) in &spans {
                            match ends.get(c) {
                                Some(e) if e >= a => continue,
                                Some(_) => {}
                                None => order.push(c.clone()),
                            }
                            ends.insert(c.clone(), *b);
                            v.push((c.clone(), *a, *b));
                        }
                        v.sort_by_key(|s| order.iter().position(|o| *o == s.0));
                        v
                    };
                    for (p, t) in [
                        (6, "mode: [noContractions, ucBrl]"),
                        (6, "inputPos: [0, 1, 2]"),
                        (6, "outputPos: []"),
                        (6, "cursorPos: 1"),
                        (4, "cursorPos: [1, 2]"),
                        (5, "maxOutputLength: 3"),
                        (5, "realInputLength: 2"),
                        (4, "expected_typeform: {italic: '++'}"),
                        (4, "mode: [dotsIO]"),
                    ] {
                        let k = t.split(':').next().unwrap_or("");
                        if tr.chance(p) && !options.iter().any(|o| o.starts_with(k)) {
                            options.push(t.into());
                        }
                    }
                    tr.shuffle(&mut options);
                    let mut parts = vec![];
                    if tr.chance(20) {
                        parts.push(scalar(&mut tr, "a description"));
                    }
                    let e = escaped(&mut tr, &input);
                    parts.push(scalar(&mut tr, &e));
                    let e = escaped(&mut tr, &expected);
                    parts.push(scalar(&mut tr, &e));
                    let flow = tr.chance(70);
                    if !options.is_empty() || tr.chance(5) {
                        parts.push(if flow || options.is_empty() { format!("{{{}}}", options.join(", ")) } else { options.join("\n      ") });
                    }
                    tests.push((if flow { format!("  - [{}]\n", parts.join(", ")) } else { format!("  - - {}\n", parts.join("\n    - ")) }, Test { input, expected, xfail, spans }));
                }
                o.push_str(if tests.is_empty() { "tests: []\n" } else { "tests:\n" });
                for t in &tests {
                    o.push_str(&t.0);
                }
                if verdicts.is_none() {
                    continue;
                }
                let mut all = vec![];
                for (k, d) in runs.iter().enumerate() {
                    for t in &loaded[k] {
                        for (_, x) in &tests {
                            let reversed;
                            let x = if k == 1 {
                                reversed = Test { input: x.expected.clone(), expected: x.input.clone(), xfail: x.xfail, spans: x.spans.clone() };
                                &reversed
                            } else {
                                x
                            };
                            all.push(verdict(t, &shown[*d as usize], *d, x)?);
                        }
                    }
                }
                if let Some(v) = &mut verdicts {
                    v.extend(all);
                }
            }
            "fault" => {
                match w[1] {
                    "key" => o.push_str("unknown: x\n"),
                    "mode" => o.push_str("flags: {testmode: sideways}\n"),
                    "truncated" => o.push_str("table: t0.ctb\ntests:\n  - [abc, \"ab"),
                    "bytes" => o.push('\u{1}'),
                    "query" => o.push_str("table:\n  language: de\nflags: {testmode: forward}\ntests:\n  - [a, b]\n"),
                    "missing" => o.push_str("table: missing.ctb\nflags: {testmode: forward}\ntests:\n  - [a, b]\n"),
                    "malformed" => o.push_str("table: |\n  letter a\nflags: {testmode: forward}\ntests:\n  - [a, b]\n"),
                    "xfail" => o.push_str("tests:\n  - [a, b, {xfail: [forward]}]\n"),
                    "escape" => o.push_str("tests:\n  - [a, '\\q']\n"),
                    "two" => o.push_str("---\ntable: t0.ctb\n"),
                    "badmode" => o.push_str("tests:\n  - [a, b, {mode: [nothing]}]\n"),
                    "scalar" => o.push_str("tests:\n  - [a]\n"),
                    _ => exists = false,
                }
                // what an empty mapping is followed by is another document, or an error as well
                verdicts = None;
                st.hit(&format!("fault_{}", w[1]));
            }
            _ => {}
        }
    }
    Ok((o, verdicts, exists))
}

fn percent(n: usize, total: usize) -> String {
    format!("{:.1}%", n as f64 * 100.0 / total as f64)
}

/// the row of a file in the summary; the percentages of no tests do not matter
fn row(name: &str, v: &[&Verdict]) -> Vec<String> {
    let n = |f: fn(&Verdict) -> bool| percent(v.iter().filter(|x| f(x)).count(), v.len());
    let mut row = vec![
        name.to_string(),
        v.len().to_string(),
        n(|x| *x == Verdict::Success),
        n(|x| matches!(x, Verdict::Failure(_))),
        n(|x| matches!(x, Verdict::Expected(_))),
        n(|x| matches!(x, Verdict::Unexpected(_))),
    ];
    if v.is_empty() {
        row.truncate(2);
    }
    row
}

fn rows(summary: &str) -> Vec<Vec<String>> {
    let mut v = vec![];
    for l in summary.lines() {
        let Some(l) = l.strip_prefix('\u{2502}').and_then(|l| l.strip_suffix('\u{2502}')) else { continue };
        let mut cells: Vec<String> = l.split('\u{2502}').map(|c| c.trim().to_string()).collect();
        if cells.len() != 6 || cells[1].parse::<usize>().is_err() {
            continue; // the header
        }
        if cells[1] == "0" {
            cells.truncate(2);
        }
        v.push(cells);
    }
    v
}

fn check22(c: &Case, st: &mut Stats) -> Outcome {
    let seed: u64 = c.get("seed").parse().unwrap_or(1);
    let root = write_files(c);
    let mut cx = Ctx { c, root: root.clone(), loaded: HashMap::new() };
    let mut files: Vec<(String, Option<Vec<Verdict>>)> = vec![];
    let mut texts = vec![];
    for k in 0.. {
        let key = format!("yaml{k}");
        if !c.extra.iter().any(|e| e.0 == key) {
            break;
        }
        let lines: Vec<&str> = c.get(&key).lines().collect();
        let mut r = Rng::new(mix(seed + k));
        let (text, verdicts, exists) = match build(&mut cx, &lines, &mut r, st) {
            Ok(b) => b,
            Err(o) => return o,
        };
        // files of the same name in different directories now and then
        let name = if seed % 4 == 0 { format!("dir{k}/{}.yaml", if k % 3 == 2 { "other" } else { "same" }) } else { format!("y{k}.yaml") };
        if exists {
            if let Some(d) = root.join(&name).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::fs::write(root.join(&name), &text);
        }
        texts.push(text);
        files.push((name, verdicts));
    }
    let mut r = Rng::new(seed);
    let mut order: Vec<usize> = (0..files.len()).collect();
    let mut summary_only = true;
    for round in 0..3 {
        // together in summary, one by one or in another order in full, with one thread
        if round == 1 {
            summary_only = false;
            if r.chance(60) {
                r.shuffle(&mut order);
            }
            if r.chance(25) {
                order.truncate(1);
            }
            if r.chance(10) {
                let x = *r.pick(&order);
                order.push(x);
            }
        }
        if round == 2 {
            if files.len() < 2 || !r.chance(40) {
                break;
            }
            summary_only = true;
            r.shuffle(&mut order);
        }
        let threads = if round == 0 { "" } else { *r.pick(&["1", "2", "8"]) };
        let mut args: Vec<String> = vec!["check".into()];
        if summary_only {
            args.push(if r.chance(50) { "-s" } else { "--summary" }.into());
        }
        args.extend(order.iter().map(|k| root.join(&files[*k].0).to_string_lossy().to_string()));
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let env: Vec<(&str, &str)> = if threads.is_empty() { vec![] } else { vec![("RAYON_NUM_THREADS", threads)] };
        let o = match cli::run_env(&a, None, &env) {
            Ok(o) => o,
            Err(e) => return Outcome::Skip(e),
        };
        if let Some(e) = o.crash {
            return Outcome::Violation(format!("louis check {e}"));
        }
        // files that cannot be run are reported
        for k in &order {
            if files[*k].1.is_none() && !o.stderr.contains(&files[*k].0) {
                return Outcome::Violation(format!("louis check does not report the file that cannot be run:\n{}", cli::head(&texts[*k])));
            }
            if files[*k].1.is_some() && o.stderr.contains(&files[*k].0) {
                return Outcome::Violation(format!("louis check reports a valid file: {}\n{}", cli::head(&o.stderr), cli::head(&texts[*k])));
            }
        }
        let good: Vec<(&String, &Vec<Verdict>)> = order.iter().filter_map(|k| Some((&files[*k].0, files[*k].1.as_ref()?))).collect();
        if summary_only {
            let mut expected: Vec<Vec<String>> = good.iter().map(|(n, v)| row(n.rsplit('/').next().unwrap_or(""), &v.iter().collect::<Vec<_>>())).collect();
            let all: Vec<&Verdict> = good.iter().flat_map(|g| g.1.iter()).collect();
            let total = row("Total", &all);
            let single = all.iter().find_map(|v| match v {
                Verdict::Failure(s) | Verdict::Expected(s) | Verdict::Unexpected(s) => o.stdout.lines().find(|l| l == s),
                Verdict::Success => None,
            });
            if let Some(l) = single {
                return Outcome::Violation(format!("the summary shows a single result: {}", cli::head(l)));
            }
            let mut got = rows(&o.stdout);
            if got.pop() != Some(total.clone()) {
                return Outcome::Violation(format!("the totals are not {total:?}, the summary is\n{}", o.stdout));
            }
            expected.sort();
            got.sort();
            if got != expected {
                let i = expected.iter().position(|e| !got.contains(e)).unwrap_or(0);
                let text = expected.get(i).and_then(|e| files.iter().position(|f| f.0.ends_with(&e[0]))).map(|k| texts[k].clone()).unwrap_or_default();
                return Outcome::Violation(format!("the summary is\n{}expected is {:?} for\n{}", o.stdout, expected.get(i), text));
            }
            st.hit("summaries");
        } else {
            let expected: Vec<&String> = good
                .iter()
                .flat_map(|g| g.1.iter())
                .filter_map(|v| match v {
                    Verdict::Success => None,
                    Verdict::Failure(s) | Verdict::Expected(s) | Verdict::Unexpected(s) => Some(s),
                })
                .collect();
            let got: Vec<&str> = o.stdout.lines().collect();
            for n in 0..expected.len().max(got.len()) {
                if expected.get(n).map(|s| s.as_str()) != got.get(n).copied() {
                    return Outcome::Violation(format!("result {n} that is not a success is {:?}, expected {:?}", got.get(n), expected.get(n)));
                }
            }
            st.hit("full_runs");
        }
        if round == 0 {
            st.hit(&format!("files_together:{}", order.len().min(6)));
        }
    }
    for (k, (_, v)) in files.iter().enumerate() {
        let Some(v) = v else {
            st.hit("files_that_cannot_be_run");
            continue;
        };
        st.hit("files");
        for (n, x) in v.iter().enumerate() {
            st.eval(mix(hash_str(&texts[k]) + n as u64));
            st.hit(match x {
                Verdict::Success => "successes",
                Verdict::Failure(_) => "failures",
                Verdict::Expected(_) => "expected_failures",
                Verdict::Unexpected(_) => "unexpected_successes",
            });
            st.sample(|| match x {
                Verdict::Success => "Success".into(),
                Verdict::Failure(s) | Verdict::Expected(s) | Verdict::Unexpected(s) => s.clone(),
            });
        }
    }
    Outcome::Ok
}

pub static C22: Prop = Prop {
    id: "C22",
    quick: 2500,
    thorough_secs: 120,
    gen: gen22,
    check: check22,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: false,
    rule: "a test of a generated YAML file with a table and a direction, run by the tool; distinct by file and position",
    assumptions: &["the translations come from the library, which C24 compares with the tool and C06 to C16 with the model", "of several display rules for a character or cell the first one counts"],
};
