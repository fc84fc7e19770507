//! Loading and translating end without a crash, whatever the table and the text (C01, C02)
use crate::case::Case;
use crate::lang;
use crate::mcheck;
use crate::props::engine;
use crate::realtab;
use crate::run::{Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, mix, Rng, Stats};
use louis::{TranslationMode, TranslationModes, Translator};

// ---------------------------------------------------------------- C01

pub fn wild_table(r: &mut Rng, p: &mut lang::Pool) -> Vec<String> {
    let mut v = vec![];
    let al: Vec<char> = p.chars.chars().collect();
    for c in al {
        if r.chance(85) {
            let k = if c == ' ' {
                "space"
            } else if c.is_ascii_digit() {
                "litdigit"
            } else if c.is_uppercase() {
                "uppercase"
            } else if c.is_alphabetic() {
                "lowercase"
            } else {
                "punctuation"
            };
            v.push(format!("{k} {} {}", crate::util::escape_operand(&c.to_string()), crate::gen::cell_text(r.range(1, 63) as u32)));
        }
    }
    v.push("swapcd swa ab 1,2".into());
    v.push("swapcc swb ab ba".into());
    for _ in 0..r.range(1, 25) {
        let l = lang::line(r, p);
        v.push(l);
    }
    v
}

const JUNK: &[&str] = &[
    " ", "\t", "#", "\\", "\"", "-", ",", "=", "[", "]", "(", ")", "!", "%", "$", "@", "*", "?", "+", "|", "^", ".", "~", "`", "_", "\u{0}", "\u{a0}",
    "\u{feff}", "é", "\u{10ffff}", "\\x", "\\xd800", "\\y10ffff", "\\yfffff", "0", "9", "255", "256", "99999999999999999999", "nofor", "noback", "nocross",
    "before", "after", "empmatchbefore", "include", "always", "match", "context", "pass2", "correct", "swapcd", "base", "#1=", "$a.", "$d0-9", "_255", "\r", "\u{b}", "\u{c}",
];

fn mutate_line(r: &mut Rng, l: &str) -> String {
    let mut toks: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
    match r.below(9) {
        0 if toks.len() > 1 => {
            let i = r.below(toks.len());
            toks.remove(i);
            toks.join(" ")
        }
        1 => {
            let i = r.below(toks.len());
            let t = toks[i].clone();
            toks.insert(i, t);
            toks.join(" ")
        }
        2 if toks.len() > 1 => {
            let i = r.below(toks.len());
            let j = r.below(toks.len());
            toks.swap(i, j);
            toks.join(" ")
        }
        3 => {
            let i = r.below(toks.len());
            toks[i] = r.pick(JUNK).to_string();
            toks.join(" ")
        }
        4 | 5 => {
            let c: Vec<char> = l.chars().collect();
            let i = r.below(c.len() + 1);
            let mut s: String = c[..i].iter().collect();
            s.push_str(r.pick(JUNK));
            s.extend(&c[i..]);
            s
        }
        6 => {
            let c: Vec<char> = l.chars().collect();
            let i = r.below(c.len() + 1);
            c[..i].iter().collect()
        }
        7 => {
            let c: Vec<char> = l.chars().collect();
            if c.is_empty() {
                return String::new();
            }
            let i = r.below(c.len());
            let j = r.range(i, c.len().min(i + 3));
            let mut s: String = c[..i].iter().collect();
            s.extend(&c[j..]);
            s
        }
        _ => {
            // repeat a part many times
            let c: Vec<char> = l.chars().collect();
            if c.is_empty() {
                return String::new();
            }
            let i = r.below(c.len());
            let j = r.range(i + 1, c.len().min(i + 4));
            let n = r.range(2, 300);
            let part: String = c[i..j].iter().collect();
            let mut s: String = c[..i].iter().collect();
            s.push_str(&part.repeat(n));
            s.extend(&c[j..]);
            s.chars().take(4000).collect()
        }
    }
}

fn nested(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(1, 10),
        1 => r.range(60, 70),
        2 => r.range(100, 700),
        _ => r.range(1000, 4000),
    };
    let rep = |s: &str, n: usize| s.repeat((n / s.len()).max(1));
    match r.below(14) {
        0 => format!("match {}a{} a - 1", rep("(", n / 2), rep(")", n / 2)),
        1 => format!("match {}a a - 1", rep("!", n)),
        2 => format!("match - a {}[b]{} 1", rep("!(", n * 2 / 3), rep(")", n / 3)),
        3 => format!("match {} a - 1", rep("a?", n)),
        4 => format!("match - a {}a 1", rep("a|", n)),
        5 => format!("context {}\"a\"{} @1", rep("[", n / 2), rep("]", n / 2)),
        6 => format!("context {}\"a\" @1", rep("!", n)),
        7 => format!("correct {} \"b\"", rep("$a0-255", n / 4)),
        8 => format!("pass2 {}@1 @1", rep("@1!", n)),
        9 => format!("match {} a {} 1", rep("(", n), rep(")", n)),
        10 => format!("context {} {}", rep("\"a\"", n), rep("@1", n)),
        11 => format!("match {}a{} a - 1", rep("(", n / 3), rep(")*", n * 2 / 3)),
        12 => format!("always {} {}1", rep("a", n), rep("1-", n)),
        _ => format!("pass2 [{}] *", rep("$a.", n.min(1000))),
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("\u{1}hex:");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn gen01(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = r.chance(35);
    let mut p = lang::pool(r);
    let mut c = Case { backward, kind: "text".into(), ..Default::default() };
    let lines: Vec<String> = match i % 8 {
        0 | 1 => wild_table(r, &mut p),
        2 => {
            let mut v = wild_table(r, &mut p);
            for _ in 0..r.range(1, 6) {
                let k = r.below(v.len());
                v[k] = mutate_line(r, &v[k].clone());
            }
            v
        }
        3 => {
            let m = engine::mixed(r, &[], backward, 40, 0, 1);
            let mut v: Vec<String> = m.table.lines().map(|s| s.to_string()).collect();
            for _ in 0..r.range(1, 4) {
                let k = r.below(v.len());
                v[k] = mutate_line(r, &v[k].clone());
            }
            v
        }
        4 => {
            // a part of a real table, with changes
            let t = realtab::get(r.pick(realtab::NAMES));
            let all: Vec<&str> = t.text.lines().collect();
            let n = r.range(1, 60);
            let mut v: Vec<String> = vec![];
            for _ in 0..n {
                let a = r.below(all.len());
                v.push(all[a].to_string());
            }
            for _ in 0..r.range(0, 5) {
                let k = r.below(v.len());
                v[k] = mutate_line(r, &v[k].clone());
            }
            for w in &t.words {
                if p.words.len() < 40 && r.chance(10) {
                    p.words.push(w.clone());
                }
            }
            v
        }
        5 => {
            let mut v = if r.chance(50) { wild_table(r, &mut p) } else { vec!["letter a 1".into(), "lowercase b 12".into()] };
            for _ in 0..r.range(1, 3) {
                v.push(nested(r));
            }
            v
        }
        6 => {
            // lines made of junk
            let n = r.range(1, 12);
            (0..n)
                .map(|_| {
                    let mut s = String::new();
                    if r.chance(80) {
                        s.push_str(lang::ALL[r.below(lang::ALL.len())].op);
                    }
                    for _ in 0..r.range(0, 5) {
                        if r.chance(70) {
                            s.push(' ');
                        }
                        match r.below(4) {
                            0 => s.push_str(r.pick(JUNK)),
                            1 => s.push_str(&r.string("ab1-2\"[]$@%#=.", 1, 6)),
                            2 => s.push_str(r.pick(lang::NASTY)),
                            _ => {
                                let w = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x');
                                s.push(w);
                            }
                        }
                    }
                    s
                })
                .collect()
        }
        _ => {
            // files
            c.kind = "files".into();
            let main = wild_table(r, &mut p);
            let mut main = if r.chance(60) { main } else { vec!["letter a 1".to_string()] };
            let what = r.below(12);
            let names = ["sub.ctb", "d/e.utb", "x.cti", "hyph.dic", "nofile.ctb", ".", "..", "/", "d", "\u{e9}.ctb", "a\\b"];
            for _ in 0..r.range(1, 3) {
                let k = r.below(main.len() + 1);
                let name = if r.chance(25) {
                    // names of all lengths, with wide characters close to the end or the suffix
                    let n = r.range(1, 7);
                    format!("{}{}", r.string("aä€😀.dic", n, n), r.pick(&["", "", ".dic", ".ctb", "dic", "."]))
                } else {
                    r.pick(&names).to_string()
                };
                main.insert(k, format!("include {name}"));
            }
            let sub = match what {
                0 => "include main.ctb\n".to_string(),
                1 => "include sub.ctb\n".to_string(),
                2 => "\u{1}dir".to_string(),
                3 => hex(&[0x23, 0xff, 0xfe, 0x0a, 0x61]),
                4 => "\u{1}link:sub.ctb".to_string(),
                5 => "\u{1}link:main.ctb".to_string(),
                6 => "\u{feff}letter b 12\n".to_string(),
                7 => "letter b 12\r\n\r\nletter c 14\r".to_string(),
                8 => String::new(),
                9 => "include d/e.utb\ninclude d/e.utb\n".repeat(3),
                10 => {
                    let n = r.range(1, 200);
                    let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                    hex(&b)
                }
                _ => crate::util::join_lines(&wild_table(r, &mut p)),
            };
            c.files.push(("main.ctb".into(), crate::util::join_lines(&main)));
            c.files.push(("sub.ctb".into(), sub));
            let e = if r.chance(50) { "letter e 15\ninclude x.cti\n".to_string() } else { crate::util::join_lines(&wild_table(r, &mut p)) };
            c.files.push(("d/e.utb".into(), e));
            if r.chance(30) {
                // a long chain
                let n = *r.pick(&[10usize, 62, 63, 64, 65, 100]);
                for k in 0..n {
                    let name = if k == 0 { "x.cti".to_string() } else { format!("x{k}.cti") };
                    c.files.push((name, format!("include x{}.cti\n", k + 1)));
                }
                c.files.push((format!("x{n}.cti"), "letter x 1346\n".into()));
            } else {
                c.files.push(("x.cti".into(), "sign x 1346\n".into()));
            }
            let dic = match r.below(7) {
                0 => "UTF-8\na1b\n.a2\nb3b.\n".to_string(),
                1 => hex(&[0x55, 0x54, 0x46, 0x2d, 0x38, 0x0a, 0xff, 0x31, 0x0a]),
                2 => String::new(),
                3 => "ISO8859-1\na1b\n".to_string(),
                4 => {
                    let n = r.range(1, 15);
                    let mut s = "UTF-8\n".to_string();
                    for _ in 0..n {
                        if r.chance(30) {
                            let w: String = r.pick(&["LEFTHYPHENMIN", "RIGHTHYPHENMIN", "ISO8859-1", "abcdefabcdef", ""]).chars().take(r.range(0, 14)).collect();
                            s.push_str(&w);
                            s.push_str(&r.string("ab1é\u{2801}\u{1F600}ß", 0, 20));
                        }
                        s.push_str(&r.string("ab.123é \t%\\/", 0, 8));
                        s.push('\n');
                    }
                    s
                }
                5 => "UTF-8\nLEFTHYPHENMIN 99999999999\nRIGHTHYPHENMIN -1\nNEXTLEVEL\n12\n....\n9a9b9\n".to_string(),
                _ => "\u{feff}UTF-8\na1b\nab/a=b,1,2\n".to_string(),
            };
            c.files.push(("hyph.dic".into(), dic));
            vec![]
        }
    };
    let mut table = crate::util::join_lines(&lines);
    if r.chance(5) {
        table = table.replace('\n', "\r\n");
    }
    if r.chance(5) {
        let k = r.below(table.chars().count() + 1);
        table = table.chars().take(k).collect();
    }
    if r.chance(3) {
        table.insert(0, '\u{feff}');
    }
    c.table = table;
    for _ in 0..3 {
        let n = r.range(0, 12);
        c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
    }
    Some(c)
}

fn probe(name: &str, table: String, backward: bool) -> Case {
    Case { kind: format!("probe:{name}"), table, backward, inputs: vec!["ab".into()], ..Default::default() }
}

fn fixed01(_t: Tier) -> Vec<Case> {
    let mut v = vec![];
    for backward in [false, true] {
        v.push(probe("empty", String::new(), backward));
        v.push(probe("newline", "\n\r\n\t\n".into(), backward));
        v.push(probe("nul", "\u{0}\n".into(), backward));
        v.push(probe("large", "letter a 1\n".repeat(5000), backward));
        v.push(probe("long-line", format!("# {}\nletter a 1\nalways {} 1\n", "x".repeat(60000), "a".repeat(4000)), backward));
        v.push(probe("many-words", (0..4000).map(|i| format!("always {} {}\n", "ab".repeat(i % 40 + 1), crate::gen::cell_text(i as u32 % 255 + 1))).collect(), backward));
    }
    for backward in [false, true] {
        v.push(probe("huge-operand", format!("letter a 1\nalways {} 1\n", "a".repeat(1_000_000)), backward));
        v.push(probe("huge-pattern", format!("letter a 1\nmatch {} a - 1\n", "a?".repeat(500_000)), backward));
        v.push(probe("huge-test", format!("letter a 1\npass2 {} *\n", "$a.".repeat(300_000)), backward));
        v.push(probe("huge-alternatives", format!("letter a 1\nmatch - a {}b 1\n", "a|".repeat(500_000)), backward));
    }
    for c in v.iter_mut() {
        c.prop = "C01".into();
    }
    v
}

fn load_case(c: &Case) -> Load {
    if c.files.is_empty() {
        sut::load(&c.table, c.backward)
    } else {
        let dir = mcheck::write_files(c);
        sut::load_files(&[dir.join(&c.files[0].0)], c.backward)
    }
}

fn check01(c: &Case, st: &mut Stats) -> Outcome {
    let l = load_case(c);
    let key = c.key();
    match l {
        Load::Panicked(p) => Outcome::Violation(format!("loading panics: {p}")),
        Load::Rejected(e) if e.is_empty() => Outcome::Violation("loading fails without an error".into()),
        Load::Rejected(e) => {
            st.hit("rejected");
            st.count("errors", e.len() as u64);
            for x in &e {
                // the kind of error
                let k: String = x.split("error: ").nth(1).unwrap_or(x).chars().take_while(|c| c.is_alphanumeric()).take(40).collect();
                if !k.is_empty() {
                    st.hit(&format!("error:{k}"));
                }
            }
            st.eval(key);
            Outcome::Ok
        }
        Load::Ok(t) => {
            st.hit("loaded");
            st.eval(key);
            for i in &c.inputs {
                if let Err(e) = sut::translate(&t, i, &[]) {
                    return Outcome::Violation(format!("the table loads but translating {i:?} fails: {e}"));
                }
                st.hit("translated");
            }
            st.sample(|| format!("{} lines load, {} texts are translated", c.table.lines().count(), c.inputs.len()));
            Outcome::Ok
        }
    }
}

fn plain01(c: &Case) {
    if let Load::Ok(t) = load_case(c) {
        for i in &c.inputs {
            let _ = sut::translate(&t, i, &[]);
        }
    }
}

pub static C01: Prop = Prop {
    id: "C01",
    quick: 50000,
    thorough_secs: 300,
    gen: gen01,
    check: check01,
    plain: plain01,
    fixed: fixed01,
    shrink: true,
    rule: "a case is one table text or tree of files that was loaded in one direction; distinct by its whole content",
    assumptions: &[
        "lines are bounded to some 4000 characters and tables to 64 kB, apart from a few larger fixed ones",
        "a worker that uses more than 20 s of processor time for one case hangs",
        "the stack is that of a main thread, 8 MB",
    ],
};

// ---------------------------------------------------------------- C02

/// load what can be loaded of the table
pub fn lenient(table: &str, backward: bool) -> Result<Option<(Translator, String)>, String> {
    let mut t = table.to_string();
    for _ in 0..6 {
        match sut::load(&t, backward) {
            Load::Ok(x) => return Ok(Some((x, t))),
            Load::Panicked(p) => return Err(p),
            Load::Rejected(e) => {
                let bad: Vec<usize> = e
                    .iter()
                    .filter_map(|x| x.split("on line ").nth(1)?.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok())
                    .collect();
                let mut out = String::new();
                for (i, l) in t.lines().enumerate() {
                    // errors of the compilation name no line
                    let drop = if bad.is_empty() {
                        l.ends_with(" =") || l.contains("base ") || (l.contains('%') && l.contains("pass")) || l.contains("context") || l.contains("correct")
                    } else {
                        bad.contains(&(i + 1))
                    };
                    if !drop {
                        out.push_str(l);
                    }
                    out.push('\n');
                }
                t = out;
            }
        }
    }
    Ok(None)
}

pub fn full_options(c: &Case) -> louis::TranslationOptions {
    let mut o = sut::options(&c.spans);
    let bits: usize = c.get("modes").parse().unwrap_or(0);
    let all = [
        TranslationMode::NoContractions,
        TranslationMode::CompbrlAtCursor,
        TranslationMode::DotsIo,
        TranslationMode::CompbrlLeftCursor,
        TranslationMode::UcBrl,
        TranslationMode::NoUndefined,
        TranslationMode::PartialTrans,
    ];
    let mut m = TranslationModes::empty();
    for (i, x) in all.into_iter().enumerate() {
        if bits >> i & 1 == 1 {
            m.insert(x);
        }
    }
    if bits > 0 {
        o = o.with_mode(m);
    }
    if let Ok(p) = c.get("cursor").parse::<usize>() {
        o = o.with_cursor_pos(p);
    }
    o
}

/// a piece of a pattern in which many paths lead to the same place
pub fn unit(r: &mut Rng, depth: usize) -> String {
    if depth == 0 {
        return r.pick(&["a", "b", ".", "[ab]", "%l", "c"]).to_string();
    }
    let a = unit(r, depth - 1);
    match r.below(8) {
        0 | 1 => format!("({a})?"),
        2 => format!("({a})*"),
        3 => format!("({a})+"),
        4 => {
            let d = r.below(depth);
            format!("({a}|{})", unit(r, d))
        }
        5 => format!("({a})?({a})?"),
        6 => {
            let d = r.below(depth);
            format!("({a}{})", unit(r, d))
        }
        _ => format!("((({a})?)*)?"),
    }
}

/// patterns that a careless matcher follows on exponentially many paths
fn many_paths(r: &mut Rng) -> Case {
    let mut lines: Vec<String> = ["space \\s 0", "lowercase a 1", "lowercase b 12", "lowercase c 14", "always ab 123"].iter().map(|s| s.to_string()).collect();
    for _ in 0..r.range(1, 3) {
        if r.chance(70) {
            let d = r.range(1, 4);
            let u = unit(r, d);
            let n = *r.pick(&[1usize, 5, 20, 40, 64, 100]);
            let n = n.min(2000 / u.len());
            let (a, b) = match r.below(3) {
                0 => (u.repeat(n), "-".into()),
                1 => ("-".into(), u.repeat(n)),
                _ => (u.repeat(n), u.repeat(n)),
            };
            lines.push(format!("noback match {a} {} {b} 4", r.pick(&["a", "b", "ab", "c"])));
        } else {
            let n = r.range(5, 40);
            let u = *r.pick(&["$l.", "$l0-3", "$l1-2", "$a0-9", "%ca0-2", "$l0-1$l0-1", "!\"c\""]);
            lines.push("swapcc ca ab ba".into());
            lines.push(format!("noback {} {}{} \"x\"", r.pick(&["correct", "context", "correct"]), u.repeat(n), r.pick(&["\"c\"", "[\"a\"]", "~", ""])));
        }
    }
    let mut c = Case { table: crate::util::join_lines(&lines), ..Default::default() };
    for _ in 0..3 {
        let n = *r.pick(&[3usize, 12, 40, 120]);
        let w: Vec<&str> = match r.below(3) {
            0 => vec!["a"],
            1 => vec!["a", "a", "b"],
            _ => vec!["a", "b", "c", " "],
        };
        c.inputs.push((0..n).map(|_| *r.pick(&w)).collect());
    }
    c
}

fn gen02(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    if i % 18 == 5 {
        let mut c = many_paths(r);
        c.kind = "text".into();
        return Some(c);
    }
    let backward = r.chance(35);
    let mut c = match i % 6 {
        0 | 1 | 2 => {
            let mut p = lang::pool(r);
            let lines = wild_table(r, &mut p);
            let mut inputs = vec![String::new()];
            for _ in 0..5 {
                let n = match r.below(12) {
                    0 => r.range(100, 600),
                    1 => r.range(30, 100),
                    _ => r.range(0, 20),
                };
                inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
            }
            Case { table: crate::util::join_lines(&lines), inputs, ..Default::default() }
        }
        3 | 4 => {
            // dense in rules without length, insertions, indicators and delayed rules
            let mut c = engine::mixed(r, &[engine::F::Context, engine::F::Match, engine::F::Comp, engine::F::Emph], backward, 50, 5, 24);
            let mut p = lang::pool(r);
            p.words = c.inputs.iter().filter(|i| !i.is_empty()).cloned().collect();
            for _ in 0..2 {
                let n = r.range(0, 30);
                c.inputs.push(lang::wild_text(r, &p, n));
            }
            c
        }
        _ => {
            let mut c = engine::real(r, backward, 3, 60);
            let p = lang::pool(r);
            let n = r.range(0, 40);
            c.inputs.push(lang::wild_text(r, &p, n));
            c
        }
    };
    c.backward = backward;
    c.kind = "text".into();
    if r.chance(50) {
        let names = ["italic", "bold", "trans1", "computer_braille", "nosuch", "sub", "computer", ""];
        for _ in 0..r.range(1, 5) {
            let a = match r.below(12) {
                0 => usize::MAX - r.below(2),
                1 => r.range(50, 700),
                _ => r.below(20),
            };
            let b = match r.below(12) {
                0 => usize::MAX,
                1 => a / 2,
                _ => a.saturating_add(r.below(12)),
            };
            c.spans.push((r.pick(&names).to_string(), a, b));
        }
    }
    if r.chance(30) {
        c.set("modes", format!("{}", r.below(128)));
        let p = if r.chance(20) { usize::MAX } else { r.below(40) };
        c.set("cursor", format!("{p}"));
    }
    Some(c)
}

thread_local! {
    static REAL: std::cell::RefCell<std::collections::HashMap<(String, bool), std::rc::Rc<(Translator, usize)>>> = Default::default();
}

fn translator02(c: &Case) -> Result<Option<(std::rc::Rc<(Translator, usize)>, String)>, String> {
    let real = c.get("real");
    if real.is_empty() {
        return Ok(lenient(&c.table, c.backward)?.map(|(t, s)| {
            let n = s.chars().count();
            (std::rc::Rc::new((t, n)), s)
        }));
    }
    let k = (real.to_string(), c.backward);
    let text = realtab::get(real).text;
    if let Some(x) = REAL.with(|r| r.borrow().get(&k).cloned()) {
        return Ok(Some((x, text)));
    }
    match sut::load(&text, c.backward) {
        Load::Ok(t) => {
            // no output of a rule of these tables is longer than this
            let x = std::rc::Rc::new((t, 2000));
            REAL.with(|r| r.borrow_mut().insert(k, x.clone()));
            Ok(Some((x, text)))
        }
        _ => Ok(None),
    }
}

const STAGES: &[&str] = &["correct", "context", "pass2", "pass3", "pass4"];

fn check02(c: &Case, st: &mut Stats) -> Outcome {
    let (x, text) = match translator02(c) {
        Ok(Some(x)) => x,
        Ok(None) => return Outcome::Skip("the table is rejected".into()),
        Err(p) => return Outcome::Violation(format!("loading panics: {p}")),
    };
    let (t, size) = (&x.0, x.1);
    st.hit("tables");
    let inserts = text.lines().any(|l| l.split_ascii_whitespace().any(|w| STAGES.contains(&w)));
    for i in &c.inputs {
        let o = full_options(c);
        let r = match sut::guarded(|| t.translate_with_options(i, o.clone())) {
            Ok(Ok(r)) => r.output,
            Ok(Err(e)) => return Outcome::Violation(format!("translating {i:?} fails: {e:?}")),
            Err(p) => return Outcome::Violation(format!("translating {i:?} panics: {p}")),
        };
        st.eval(mix(hash_str(&text)) ^ hash_str(i));
        st.hit(match i.chars().count() {
            0 => "texts_empty",
            1..=20 => "texts_short",
            21..=100 => "texts_medium",
            _ => "texts_long",
        });
        if i.is_empty() && !inserts && !r.is_empty() && !c.spans.iter().any(|s| s.2 > s.1) {
            return Outcome::Violation(format!("the empty text gives {r:?}"));
        }
        let bound = |n: usize| 16 * (n + 1 + c.spans.len()).saturating_mul(size + 64);
        #[cfg(feature = "hook")]
        {
            let tr = match sut::guarded(|| louis::verif::trace(t, i, &o)) {
                Ok(t) => t,
                Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
            };
            let mut n = i.chars().count();
            for s in tr {
                let m: usize = s.iter().map(|s| s.output.chars().count()).sum();
                if m > bound(n) {
                    return Outcome::Violation(format!("a stage turns {n} characters into {m}, the table has {size}"));
                }
                n = m;
                st.hit("stages");
            }
        }
        #[cfg(not(feature = "hook"))]
        {
            let mut b = i.chars().count();
            for _ in 0..5 {
                b = bound(b);
            }
            if r.chars().count() > b {
                return Outcome::Violation(format!("the output has {} characters", r.chars().count()));
            }
        }
        st.sample(|| format!("{i:?} -> {r:?}"));
    }
    Outcome::Ok
}

fn plain02(c: &Case) {
    if let Ok(Some((x, _))) = translator02(c) {
        for i in &c.inputs {
            let o = full_options(c);
            let _ = sut::guarded(|| x.0.translate_with_options(i, o));
        }
    }
}

fn fixed02(_t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let long = "the quick brown fox, 12 ABC def's ".repeat(300);
    for name in realtab::NAMES {
        for backward in [false, true] {
            let i = if backward { "⠮⠀⠟⠥⠊⠉⠅⠀⠼⠁⠃⠠⠠⠁⠃⠉⠀".repeat(500) } else { long.clone() };
            let mut c = Case { kind: "long".into(), backward, inputs: vec![i, String::new()], ..Default::default() };
            c.set("real", *name);
            c.spans = vec![("italic".into(), 3, 4000), ("computer_braille".into(), 10, 20)];
            v.push(c);
        }
    }
    // rules that are longer than what the stack has room for
    for n in [3000, 30000] {
        let (text, cells) = ("ab".repeat(n / 2), vec!["1"; n].join("-"));
        let table = format!("lowercase a 2\nlowercase b 12\nalways {text} 4\nalways {text}b 5\nalways b {cells}-3\n");
        v.push(Case { prop: "C02".into(), kind: "long-rule".into(), inputs: vec![text.clone(), format!("{text}b {text}")], table: table.clone(), ..Default::default() });
        let cells = "⠁".repeat(n);
        v.push(Case { prop: "C02".into(), kind: "long-rule".into(), backward: true, inputs: vec![format!("{cells}⠄"), format!("{}⠁", &cells[..9000])], table, ..Default::default() });
        let table = format!("letter a 1\nletter b 12\nmatch {}a a - 4\n", "b?".repeat(n));
        v.push(Case { prop: "C02".into(), kind: "long-rule".into(), inputs: vec!["aa bab baab".into()], table, ..Default::default() });
        let table = format!("letter a 1\nletter b 12\nnoback context {}\"a\" @2\n", "#1=0".repeat(n));
        v.push(Case { prop: "C02".into(), kind: "long-rule".into(), inputs: vec!["aa bab baab".into()], table, ..Default::default() });
    }
    v
}

pub static C02: Prop = Prop {
    id: "C02",
    quick: 40000,
    thorough_secs: 300,
    gen: gen02,
    check: check02,
    plain: plain02,
    fixed: fixed02,
    shrink: true,
    rule: "a case is one loaded table with texts, spans, modes and a cursor; distinct by table and text",
    assumptions: &[
        "a worker that uses more than 20 s of processor time for one case of at most a few thousand characters hangs",
        "a stage may produce at most 16 times (characters + 1) times (characters of the table + 64) characters",
        "the stack is that of a main thread, 8 MB",
    ],
};
