//! Relations between the translations of related tables and texts (C17, C18, C25)
use crate::case::Case;
use crate::gen::{cell_text, Gen, DIR_OK};
use crate::lang;
use crate::props::trace::{opcode_of, table_text};
use crate::props::{engine, robust, yaml};
use crate::cli;
use crate::mcheck::write_files;
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{escape_operand, hash_str, join_lines, mix, Rng, Stats};
use louis::Translator;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static CACHE: RefCell<HashMap<u64, Option<Rc<Translator>>>> = RefCell::new(HashMap::new());
}

enum Got {
    T(Rc<Translator>),
    Rejected(String),
    Panic(String),
}

/// load a text; those of real tables are kept
fn get(text: &str, backward: bool, keep: bool) -> Got {
    let k = hash_str(text) ^ backward as u64;
    if keep {
        if let Some(Some(t)) = CACHE.with(|c| c.borrow().get(&k).cloned()) {
            return Got::T(t);
        }
    }
    match sut::load(text, backward) {
        Load::Ok(t) => {
            let t = Rc::new(t);
            if keep {
                CACHE.with(|c| c.borrow_mut().insert(k, Some(t.clone())));
            }
            Got::T(t)
        }
        Load::Rejected(e) => Got::Rejected(e.join("; ")),
        Load::Panicked(p) => Got::Panic(p),
    }
}

/// the table of the case, or what is accepted of it
fn base_table(c: &Case) -> Result<(Rc<Translator>, String), Outcome> {
    let text = table_text(c);
    match get(&text, c.backward, !c.get("real").is_empty()) {
        Got::T(t) => Ok((t, text)),
        Got::Panic(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
        Got::Rejected(_) => match robust::lenient(&text, c.backward) {
            Ok(Some((t, text))) => Ok((Rc::new(t), text)),
            Ok(None) => Err(Outcome::Skip("the table is rejected".into())),
            Err(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
        },
    }
}

/// translate all the texts of the case with both tables
fn same(c: &Case, a: &Translator, b: &Translator, what: &str) -> Option<Outcome> {
    for i in &c.inputs {
        match (sut::translate(a, i, &c.spans), sut::translate(b, i, &c.spans)) {
            (Ok(x), Ok(y)) if x == y => {}
            (x, y) => return Some(Outcome::Violation(format!("{i:?} gives\n  {x:?}\n  {y:?} {what}"))),
        }
    }
    None
}

// ---------------------------------------------------------------- C17

/// a display table, which the test runner applies
fn gen_shown(r: &mut Rng) -> Case {
    use engine::F::*;
    let backward = r.chance(50);
    let mut c = engine::mixed(r, &[Trans, Num], backward, 30, 6, 14);
    let mut v: Vec<String> = yaml::display_text(r, &c).lines().map(|l| l.to_string()).collect();
    if !backward {
        // cells that the translations have
        let cells: Vec<String> = c.table.lines().filter_map(|l| l.rsplit(' ').next()).filter(|w| w.len() < 9 && w.bytes().all(|b| (b'1'..=b'8').contains(&b))).map(|w| w.to_string()).collect();
        for _ in 0..r.range(1, 12) {
            if !cells.is_empty() {
                v.push(format!("display {} {}", r.pick_char("abcdxyzABC012,;"), r.pick(&cells)));
            }
        }
        r.shuffle(&mut v);
    }
    let percent = *r.pick(&[20usize, 50]);
    for l in &mut v {
        if l.starts_with("display ") && r.chance(percent) {
            *l = format!("{} {l}", r.pick(&["nofor", "noback"]));
        }
    }
    if backward {
        let shown: Vec<char> = v.iter().filter_map(|l| l.split("display ").nth(1)).filter_map(|w| w.chars().next()).filter(|c| *c != '\\').collect();
        for _ in 0..4 {
            let n = r.range(1, 12);
            c.inputs.push((0..n).map(|_| if r.chance(85) && !shown.is_empty() { *r.pick(&shown) } else { ' ' }).collect());
        }
    }
    c.kind = "shown".into();
    c.spans.clear();
    c.files = vec![("d.dis".into(), join_lines(&v))];
    c
}

fn check_shown(c: &Case, st: &mut Stats) -> Outcome {
    let (t, text) = match base_table(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    let (own, other) = if c.backward { ("nofor", "noback") } else { ("noback", "nofor") };
    let shown = &c.files[0].1;
    let without: Vec<&str> = shown.lines().filter(|l| !l.starts_with(other)).collect();
    let unmarked: Vec<&str> = shown.lines().map(|l| l.strip_prefix(own).map_or(l, |l| l.trim_start())).collect();
    let enabled: Vec<&str> = shown.lines().map(|l| l.strip_prefix(other).map_or(l, |l| l.trim_start())).collect();
    let mut f = c.clone();
    f.files = vec![("t.ctb".into(), text.clone())];
    for (n, d) in [("d0", shown.clone()), ("d1", without.join("\n")), ("d2", unmarked.join("\n")), ("d3", enabled.join("\n"))] {
        f.files.push((format!("{n}.dis"), format!("{d}\n")));
    }
    let dir = write_files(&f);
    let dir = dir.to_string_lossy().to_string();
    let mut r = Rng::new(hash_str(&text));
    let mut tests = String::new();
    let mut inputs = vec![];
    for i in &c.inputs {
        if !i.is_empty() && sut::translate(&t, i, &[]).is_ok() {
            tests.push_str(&format!("  - ['{}', '']\n", yaml::escaped(&mut r, i).replace('\'', "''")));
            inputs.push(i.clone());
        }
    }
    let mode = if c.backward { "backward" } else { "forward" };
    let mut outs = vec![];
    for n in 0..4 {
        let y = format!("{dir}/y{n}.yaml");
        let _ = std::fs::write(&y, format!("display: '{dir}/d{n}.dis'\ntable: ['{dir}/t.ctb']\nflags: {{testmode: {mode}}}\ntests:\n{tests}"));
        let o = match cli::run(&["check", &y], None) {
            Ok(o) => o,
            Err(e) => return Outcome::Skip(e),
        };
        if let Some(e) = o.crash {
            return Outcome::Violation(format!("louis check {e}"));
        }
        outs.push(format!("{}{}", o.stdout, o.stderr.replace(&format!("d{n}.dis"), "").replace(&format!("y{n}.yaml"), "")));
    }
    for (n, what) in [(1, format!("without the {other} rules")), (2, format!("without the marker {own}"))] {
        if outs[n] != outs[0] {
            let at = outs[n].lines().zip(outs[0].lines()).find(|(a, b)| a != b);
            return Outcome::Violation(format!("with the display table\n{shown}\nlouis check prints, with it and {what},\n{:?}", at.map(|(b, a)| (a, b))));
        }
    }
    if outs[3] != outs[0] || shown.lines().any(|l| l.starts_with(own)) {
        for i in &inputs {
            st.eval(hash_str(shown) ^ mix(hash_str(i)) ^ c.backward as u64);
        }
        st.hit("display_tables");
        if outs[3] != outs[0] {
            st.hit("display_tables_that_the_other_rules_would_change");
        }
    } else {
        st.trivial();
    }
    Outcome::Ok
}

fn gen17(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    if i % 80 == 79 {
        return Some(gen_shown(r));
    }
    let backward = r.chance(45);
    use engine::F::*;
    let mut c = match i % 8 {
        0..=3 => engine::mixed(r, &[Trans, Match], backward, 35, 6, 16),
        4 => engine::mixed(r, &[Correct, Context, Pass, Attr], backward, 40, 6, 16),
        5 => engine::mixed(r, &[Caps, Num, Emph, Comp, Let], backward, 40, 6, 16),
        6 => {
            let mut p = lang::pool(r);
            let lines = robust::wild_table(r, &mut p);
            let mut c = Case { backward, table: join_lines(&lines), ..Default::default() };
            for _ in 0..6 {
                let n = r.range(0, 14);
                c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
            }
            c
        }
        _ => engine::real(r, backward, 6, 30),
    };
    c.kind = "direction".into();
    if c.get("real").is_empty() {
        let percent = *r.pick(&[15usize, 35, 60]);
        let lines: Vec<String> = c
            .table
            .lines()
            .map(|l| {
                let first = l.split(' ').next().unwrap_or("");
                let Some((op, _)) = opcode_of(l, false) else { return l.to_string() };
                let def = crate::model::parse::CHARDEF.contains(&op.as_str());
                let p = if def { 4 } else { percent };
                if first != "nofor" && first != "noback" && DIR_OK.contains(&op.as_str()) && r.chance(p) {
                    format!("{} {l}", r.pick(&["nofor", "noback"]))
                } else {
                    l.to_string()
                }
            })
            .collect();
        c.table = join_lines(&lines);
    }
    Some(engine::lengthen(c, r))
}

fn check17(c: &Case, st: &mut Stats) -> Outcome {
    if c.kind == "shown" {
        return check_shown(c, st);
    }
    let (t, text) = match base_table(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    let keep = !c.get("real").is_empty();
    let (own, other) = if c.backward { ("nofor", "noback") } else { ("noback", "nofor") };
    let rules = text.lines().filter_map(|l| opcode_of(l, c.backward));
    let multi = rules.filter(|x| x.1).any(|x| matches!(x.0.as_str(), "correct" | "pass2" | "pass3" | "pass4"));
    let (mut removed, mut stripped, mut enabled) = (0u64, 0u64, String::new());
    let (mut a, mut b) = (String::new(), String::new());
    for l in text.lines() {
        let first = l.split_whitespace().next().unwrap_or("");
        let op = opcode_of(l, c.backward).map(|x| x.0).unwrap_or_default();
        let class = multi && (crate::model::parse::CHARDEF.contains(&op.as_str()) || op == "always");
        if first == other && !class {
            removed += 1;
            st.hit(&format!("of_other_direction:{op}"));
        } else {
            a.push_str(l);
        }
        a.push('\n');
        // of the prefixes nofor and noback are the first
        let rest = |m: &str| l.trim_start().strip_prefix(m).map(|x| x.trim_start().to_string());
        if first == own {
            stripped += 1;
            st.hit(&format!("of_own_direction:{op}"));
            b.push_str(&rest(own).unwrap_or_default());
        } else {
            b.push_str(l);
        }
        b.push('\n');
        enabled.push_str(&if first == other { rest(other).unwrap_or_default() } else { l.to_string() });
        enabled.push('\n');
    }
    st.hit("tables");
    let key = mix(hash_str(&text)) ^ c.backward as u64;
    for (n, x, what) in [
        (removed, &a, format!("without the {other} rules")),
        (stripped, &b, format!("without the marker {own}")),
    ] {
        if n == 0 {
            continue;
        }
        match get(x, c.backward, keep) {
            Got::T(v) => {
                if let Some(o) = same(c, &t, &v, &what) {
                    return o;
                }
            }
            Got::Rejected(e) => return Outcome::Violation(format!("the table is rejected {what}: {e}")),
            Got::Panic(p) => return Outcome::Violation(format!("loading panics {what}: {p}")),
        }
    }
    // does the marker matter for these texts?
    let mut matters = false;
    if removed > 0 {
        if let Got::T(v) = get(&enabled, c.backward, keep) {
            for i in &c.inputs {
                if sut::translate(&t, i, &c.spans) != sut::translate(&v, i, &c.spans) {
                    matters = true;
                    st.hit("texts_that_the_other_rules_would_change");
                }
            }
        }
    }
    if matters || stripped > 0 {
        for i in &c.inputs {
            st.eval(key ^ mix(hash_str(i)));
        }
        st.sample(|| format!("{removed} rules removed, {stripped} markers removed: {:?} the same", c.inputs));
    } else {
        st.trivial();
    }
    Outcome::Ok
}

pub static C17: Prop = Prop {
    id: "C17",
    quick: 24000,
    thorough_secs: 180,
    gen: gen17,
    check: check17,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "a table and a text for which a rule of the other direction would change the translation or a marker of the own direction was removed; distinct by table, direction and text",
    assumptions: &["where the table has correct or pass rules, definitions and always rules of the other direction are kept, because they define classes"],
};

// ---------------------------------------------------------------- C18

/// cells that are used only once
struct Cells(Vec<u32>);
impl Cells {
    fn next(&mut self) -> String {
        cell_text(self.0.pop().unwrap_or(255))
    }
}

fn gen18(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let mut v: Vec<u32> = (1..64).collect();
    v.extend((64..256).filter(|_| true).take(30));
    v.extend([0x101u32, 0x102, 0x1ff, 0x200, 0x4000]);
    // now and then many contractions, and long texts
    let big = r.chance_of(4, 1000);
    if big {
        v.extend(0x400..0x600);
    }
    r.shuffle(&mut v);
    let mut cells = Cells(v);
    let n = r.range(3, 8);
    let letters: String = match r.below(8) {
        0 => "äéñöσжлф".chars().take(n).collect(),
        1 => "αβգդꭓ𐐨𑣀я".chars().take(n).collect(),
        2 => "stuvwxyq".chars().take(n).collect(),
        _ => "abcdefgh".chars().take(n).collect(),
    };
    let lower: Vec<char> = letters.chars().collect();
    let mut lines: Vec<String> = vec![];
    lines.push("space \\s 0".into());
    let def = if r.chance(70) { "lowercase" } else { "letter" };
    let mut own: Vec<String> = vec![];
    let several = r.chance(40);
    for c in &lower {
        // sometimes two cells for one character
        let d = if several && r.chance(25) { format!("{}-{}", cells.next(), cells.next()) } else { cells.next() };
        own.push(d.clone());
        lines.push(format!("{def} {c} {d}"));
    }
    let mut punct = String::new();
    for c in (if r.chance(20) { "?;¿—" } else { ".,'!" }).chars() {
        if r.chance(60) {
            punct.push(c);
            lines.push(format!("punctuation {c} {}", cells.next()));
        }
    }
    if r.chance(40) {
        lines.push(format!("sign % {}-{}", cells.next(), cells.next()));
        punct.push('%');
    }
    // capitals
    let caps = r.below(5); // 0, 1 none, 2 letters, 3 words with end, 4 words without end
    let mut upper = String::new();
    if caps >= 2 {
        let twice = r.chance(30);
        for (k, c) in lower.iter().enumerate() {
            let u: Vec<char> = c.to_uppercase().collect();
            if u.len() == 1 {
                upper.push(u[0]);
                if twice {
                    lines.push(format!("uppercase {} {}", u[0], own[k]));
                } else {
                    lines.push(format!("base uppercase {} {c}", u[0]));
                }
            }
        }
        lines.push(format!("capsletter {}", cells.next()));
        if caps >= 3 {
            lines.push(format!("begcapsword {}", cells.next()));
        }
        if caps == 3 {
            lines.push(format!("endcapsword {}", cells.next()));
        }
    }
    // a space with a cell of its own
    let mut spaces = String::from(" ");
    if r.chance(15) {
        spaces.push('\u{a0}');
        lines.push(format!("space \\x00a0 {}", cells.next()));
    }
    // digits
    let mut digits = String::new();
    let mut letter_after_digit = true;
    let own_digits = r.chance(40);
    match r.below(3) {
        0 => {
            for c in (if r.chance(30) { "0123456789" } else { "0123" }).chars() {
                digits.push(c);
                lines.push(format!("digit {c} {}", cells.next()));
            }
        }
        1 => {
            letter_after_digit = r.chance(60);
            for (k, c) in "123456789".chars().enumerate() {
                if k < lower.len() && !own[k].contains('-') {
                    digits.push(c);
                    lines.push(format!("litdigit {c} {}", own[k]));
                } else if own_digits {
                    // a digit with a cell of its own among those with the cells of letters
                    digits.push(c);
                    lines.push(format!("litdigit {c} {}", cells.next()));
                }
            }
            if r.chance(50) {
                for c in digits.clone().chars() {
                    lines.push(format!("digit {c} {}", cells.next()));
                }
            }
            lines.push(format!("numsign {}", cells.next()));
            if letter_after_digit {
                lines.push(format!("nonumsign {}", cells.next()));
                lines.push(format!("numericnocontchars {letters}{upper}"));
            }
        }
        _ => {}
    }
    if r.chance(25) {
        lines.push(format!("undefined {}", cells.next()));
    }
    // a character that begins with the cell of a letter or digit; read as a whole also in numbers
    let shared = r.chance(30);
    if shared {
        for c in "+&".chars() {
            let k = r.below(own.len().min(4));
            lines.push(format!("sign {c} {}-{}", own[k], cells.next()));
            punct.push(c);
        }
    }
    // contractions
    let mut words: Vec<String> = vec![];
    for _ in 0..if big { *r.pick(&[20usize, 70, 150, 280]) } else { r.below(6) } {
        let w = r.string(&letters, 2, if big { 6 } else { 4 });
        if words.contains(&w) {
            continue;
        }
        let d = if r.chance(15) { format!("{}-{}", cells.next(), cells.next()) } else { cells.next() };
        let p = if r.chance(10) { "noback " } else { "" };
        if p.is_empty() {
            lines.push(format!("always {w} {d}"));
        } else {
            // used in one direction and read by the other one
            lines.push(format!("noback always {w} {d}"));
            lines.push(format!("nofor always {w} {d}"));
        }
        words.push(w);
    }
    // a cell of a letter with several cells doesn't count as the neighbour of a word's rule
    if caps < 2 && !shared && !own.iter().any(|d| d.contains('-')) {
        let mut one = |r: &mut Rng, kinds: &[&str]| {
            let w = r.string(&letters, 1, 4);
            if !words.contains(&w) {
                lines.push(format!("{} {w} {}", r.pick(kinds), cells.next()));
                words.push(w);
            }
        };
        for _ in 0..r.below(3) {
            one(r, &["word"]);
        }
        if r.chance(50) {
            let k: &[&str] = if r.chance(50) { &["begword", "sufword"] } else { &["endword", "prfword"] };
            one(r, k);
        }
    }
    if r.chance(20) {
        // a later stage that is undone
        let z = cells.next();
        let a = r.pick(&own).clone();
        let b = r.pick(&own).clone();
        lines.push(format!("noback pass2 @{a}-{b} @{z}"));
        lines.push(format!("nofor pass2 @{z} @{a}-{b}"));
    }
    if caps < 2 && r.chance(15) {
        lines.push(format!("letter z {}", cells.next()));
        let w = r.string(&letters, 2, 3);
        lines.push(format!("noback correct \"{w}\" \"z\""));
        lines.push(format!("nofor correct \"z\" \"{w}\""));
        words.push(w);
    }
    if r.chance(50) {
        r.shuffle(&mut lines);
        // the first definition of a cell is the one that is read
        lines.sort_by_key(|l| ["uppercase", "base", "litdigit"].iter().any(|p| l.starts_with(p)));
    }
    if r.chance(30) {
        // other characters with the same cells, none of which is read
        for c in "øłµ§²".chars().take(r.range(1, 5)) {
            let l = r.pick(&lines).clone();
            let w: Vec<&str> = l.split(' ').collect();
            if w.len() == 3 && ["letter", "lowercase", "digit", "litdigit", "punctuation", "sign"].contains(&w[0]) {
                lines.push(format!("{} {c} {}", w[0], w[2]));
            }
        }
    }
    // texts, in which now and then a word or number is long
    let long = r.chance_of(12, 1000);
    let inputs = (0..8)
        .map(|_| {
            let mut s = String::new();
            let mut len = 0;
            let n = if big { *r.pick(&[10usize, 40, 140, 270, 600]) } else { r.range(0, 20) };
            while len < n {
                let last = s.chars().last().unwrap_or(' ');
                let p = match r.below(10) {
                    0..=5 => {
                        let mut w = if !words.is_empty() && r.chance(60) { r.pick(&words).clone() } else { r.string(&letters, 1, 4) };
                        if r.chance(20) {
                            w.push_str(&r.string(&letters, 1, 3));
                        }
                        if long && r.chance(40) {
                            let n = *r.pick(&[33usize, 65, 66, 129, 257]);
                            w.push_str(&r.string(&letters, n, n));
                        }
                        if r.chance(20) && !words.is_empty() {
                            w.insert_str(0, r.pick(&words));
                        }
                        let up = |w: &str| w.chars().map(|c| c.to_uppercase().next().unwrap()).collect::<String>();
                        if caps >= 2 {
                            w = match r.below(6) {
                                0 => up(&w),
                                1 => up(&w[..w.chars().next().unwrap().len_utf8()]) + &w[w.chars().next().unwrap().len_utf8()..],
                                2 if caps < 4 => w.chars().map(|c| if r.chance(40) { c.to_uppercase().next().unwrap() } else { c }).collect(),
                                _ => w,
                            };
                        }
                        if last.is_ascii_digit() && !letter_after_digit || caps == 4 && last.is_alphabetic() {
                            w.insert(0, ' ');
                        }
                        w
                    }
                    6 | 7 if !digits.is_empty() => {
                        let n = if long { *r.pick(&[3usize, 33, 65, 129, 257]) } else { 3 };
                        let mut d = r.string(&digits, if long { n } else { 1 }, n);
                        if last.is_alphabetic() {
                            d.insert(0, ' ');
                        }
                        d
                    }
                    8 if !punct.is_empty() => r.pick_char(&punct).to_string(),
                    _ => r.pick_char(&spaces).to_string(),
                };
                len += p.chars().count();
                s.push_str(&p);
            }
            s
        })
        .collect();
    let mut c = Case { table: join_lines(&lines), inputs, kind: "roundtrip".into(), ..Default::default() };
    if i % 8 == 5 {
        // the cells of the table in any order
        c.kind = "read".into();
        c.backward = true;
        let mut signs = vec![];
        let mut all = vec![];
        for l in &lines {
            let w: Vec<&str> = l.split(' ').collect();
            let Some(d) = w.last().and_then(|d| crate::model::parse::cells(d)) else { continue };
            match w[0] {
                "capsletter" | "begcapsword" | "endcapsword" | "numsign" | "nonumsign" => signs.push(d),
                "base" | "numericnocontchars" | "undefined" | "nofor" => {}
                _ => all.push(d),
            }
        }
        c.inputs = (0..8)
            .map(|_| {
                let mut s = String::new();
                for _ in 0..r.range(1, 16) {
                    match r.below(8) {
                        0 | 1 if !signs.is_empty() => s.push_str(r.pick(&signs)),
                        2 => s.push('\u{2800}'),
                        _ => s.push_str(r.pick(&all)),
                    }
                }
                s
            })
            .collect();
        return Some(c);
    }
    if i % 4 == 3 {
        c.kind = "undefined".into();
        c.inputs = (0..6)
            .map(|_| {
                let mut s = r.string(&letters, 0, 3);
                for _ in 0..r.range(0, 3) {
                    if !words.is_empty() && r.chance(50) {
                        s.push_str(r.pick(&words));
                    } else {
                        let l = format!("{letters} {punct}");
                        s.push_str(&r.string(&l, 1, 3));
                    }
                }
                s
            })
            .collect();
        // cells that stand for nothing
        let k = r.range(1, 3);
        let x: Vec<String> = (0..k).map(|_| cells.next()).collect();
        c.set("cells", x.join("-"));
    }
    Some(c)
}

fn check18(c: &Case, st: &mut Stats) -> Outcome {
    if c.kind == "read" {
        st.hit("cells_in_any_order");
        return crate::mcheck::check(c, &["*"], st);
    }
    let (f, b) = match (get(&c.table, false, false), get(&c.table, true, false)) {
        (Got::T(f), Got::T(b)) => (f, b),
        (Got::Panic(p), _) | (_, Got::Panic(p)) => return Outcome::Violation(format!("loading panics: {p}")),
        (Got::Rejected(e), _) | (_, Got::Rejected(e)) => {
            return if c.table.is_empty() { Outcome::Skip("empty".into()) } else { Outcome::Violation(format!("a valid table is rejected: {e}")) }
        }
    };
    st.hit("tables");
    let tr = |t: &Translator, s: &str| sut::translate(t, s, &[]);
    if c.kind == "undefined" {
        // without rules that look at their surroundings
        if c.table.lines().any(|l| {
            l.contains("word ") && !l.contains("begcapsword") && !l.contains("endcapsword") || l.contains("pass2") || l.contains("correct")
        }) {
            return Outcome::Skip("rules look at their surroundings".into());
        }
        let u = crate::model::parse::cells(c.get("cells")).unwrap_or_default();
        for w in c.inputs.windows(2) {
            let run = || -> Result<_, String> {
                let (x, y) = (tr(&f, &w[0])?, tr(&f, &w[1])?);
                Ok((tr(&b, &x)?, tr(&b, &u)?, tr(&b, &y)?, tr(&b, &format!("{x}{u}{y}"))?))
            };
            match run() {
                Ok((x, m, y, all)) => {
                    if all != format!("{x}{m}{y}") {
                        return Outcome::Violation(format!("{:?} and {:?} with {u:?} in between are read as {all:?} instead of {x:?}, {m:?} and {y:?}", w[0], w[1]));
                    }
                    if x != w[0] || y != w[1] {
                        return Outcome::Violation(format!("{:?} and {:?} are read as {x:?} and {y:?}", w[0], w[1]));
                    }
                    st.eval(mix(hash_str(&c.table)) ^ hash_str(&all));
                    st.hit("undefined_cells_between_texts");
                }
                Err(e) => return Outcome::Violation(format!("translating {:?}: {e}", w[0])),
            }
        }
        return Outcome::Ok;
    }
    // a sign for a capital letter that stands before something else
    let cells = |l: &str| crate::model::parse::cells(l.split(' ').nth(2).unwrap_or("")).unwrap_or_default();
    let sign = c.table.lines().find_map(|l| l.strip_prefix("capsletter ")).and_then(crate::model::parse::cells);
    let others: Vec<(char, String)> = c
        .table
        .lines()
        .filter(|l| ["punctuation ", "sign ", "digit "].iter().any(|p| l.starts_with(p)))
        .filter_map(|l| Some((l.split(' ').nth(1)?.chars().next()?, cells(l))))
        .chain([(' ', "\u{2800}".to_string())])
        .collect();
    if let Some(sign) = sign {
        for (k, w) in c.inputs.windows(2).enumerate() {
            let (o, p) = &others[(k + c.table.len()) % others.len()];
            let run = || -> Result<_, String> {
                let (x, y) = (tr(&f, &w[0])?, tr(&f, &w[1])?);
                let all = format!("{x}{sign}{p}{y}");
                Ok((tr(&b, &format!("{x}{p}{y}"))?, tr(&b, &all)?, all))
            };
            match run() {
                Ok((plain, with, all)) => {
                    if plain != format!("{}{o}{}", w[0], w[1]) {
                        continue;
                    }
                    if with != plain {
                        return Outcome::Violation(format!("{all:?} is read as {with:?} instead of {plain:?}: the sign for a capital stands before {o:?}"));
                    }
                    st.hit("capital_signs_before_others");
                }
                Err(e) => return Outcome::Violation(format!("translating {w:?}: {e}")),
            }
        }
    }
    for i in &c.inputs {
        let x = match tr(&f, i) {
            Ok(x) => x,
            Err(e) => return Outcome::Violation(format!("translating {i:?}: {e}")),
        };
        match tr(&b, &x) {
            Ok(y) if y == *i => {}
            y => return Outcome::Violation(format!("{i:?} is translated to {x:?} and back to {y:?}")),
        }
        for (n, p) in [
            ("texts_with_capitals", i.chars().any(|c| c.is_uppercase())),
            ("texts_with_digits", i.chars().any(|c| c.is_ascii_digit())),
            ("texts_shortened", x.chars().count() < i.chars().count()),
        ] {
            if p {
                st.hit(n);
            }
        }
        if i.is_empty() {
            st.trivial();
        } else {
            st.eval(mix(hash_str(&x)) ^ hash_str(i));
        }
        st.sample(|| format!("{i:?} -> {x:?} and back"));
    }
    Outcome::Ok
}

pub static C18: Prop = Prop {
    id: "C18",
    quick: 150000,
    thorough_secs: 180,
    gen: gen18,
    check: check18,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: false,
    rule: "a text that was translated with a table of unique cells and back; distinct by text and braille",
    assumptions: &[
        "tables: letters, digits, punctuation, capsletter, begcapsword, endcapsword, numsign, nonumsign, always rules, and without capitals also rules for words and their beginnings or ends",
        "in the round trips no number directly after a letter, where the number sign is read as part of a word; cells in any order are compared with the model",
    ],
};

// ---------------------------------------------------------------- C25

const FOREIGN: &str = "אבגדहक漢字";
const FOREIGN_CELLS: &[&str] = &["12468ace", "13579bdf", "2578acf", "2357bce", "3478abde", "1678bdf", "124589acf", "23679bcdf"];

/// a name made of letters
fn name(mut n: usize) -> String {
    let mut s = String::new();
    loop {
        s.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
        if n == 0 {
            return s;
        }
    }
}

fn gen25(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    use engine::F::*;
    let backward = r.chance(30);
    if i % 3 == 2 {
        // reordering
        let mut g = Gen::new(r);
        let fresh = g.r.chance(70) || backward;
        g.defs(fresh);
        let mut g2 = vec![];
        let mut used: Vec<String> = vec![];
        // one definition per character and cell
        let mut seen = std::collections::HashSet::new();
        for l in g.lines.drain(..) {
            let w: Vec<&str> = l.split(' ').collect();
            let ch = w.iter().rev().nth(1).unwrap_or(&"").to_string();
            let ch = if w[0] == "base" { w[2].to_string() } else { ch };
            // backward, a rule is found by its cells
            let known = !seen.insert(ch) | (backward && !seen.insert(format!(" {}", w[w.len() - 1])));
            if (w[0] == "undefined" || !known) && !(backward && w[0] == "base") {
                g2.push(l);
            }
        }
        let mut n = 1u32;
        for _ in 0..g.r.range(2, 14) {
            let w = g.word(2, 4).to_lowercase();
            if used.contains(&w) {
                continue;
            }
            used.push(w.clone());
            // cells that nothing else uses, so that no two backward rules have the same ones
            let d = if backward { format!("{}-{}", cell_text(0x100 + n), cell_text(n)) } else { g.dots(1, 3) };
            g.dots_used.push(d.clone());
            n += 1;
            let k = *g.r.pick(&["always", "always", "always", "largesign", "syllable"]);
            g2.push(format!("{k} {} {d}", escape_operand(&w)));
        }
        if g.r.chance(40) {
            g.numeric();
            g.lines.retain(|l| !l.starts_with("midnum"));
        }
        if g.r.chance(40) {
            g.caps();
        }
        if backward {
            // indicators are rules with cells of their own
            g.lines.clear();
        }
        g2.append(&mut g.lines);
        g.lines = g2;
        let inputs = g.inputs(backward, 8, 16);
        let table = g.finish();
        let mut c = Case { table, backward, inputs, kind: "reorder".into(), ..Default::default() };
        c.set("order", format!("{}", r.next()));
        return Some(c);
    }
    let mut c = match i % 12 {
        0 => engine::real(r, backward, 6, 30),
        1 | 4 => engine::mixed(r, &[Trans, Match, Context, Correct, Pass], backward, 40, 6, 16),
        3 | 6 => engine::mixed(r, &[Num, Caps, Emph, Comp, Let], backward, 40, 6, 16),
        _ => engine::mixed(r, &[Trans], backward, 35, 6, 16),
    };
    c.kind = "foreign".into();
    // one of the cells may be in use by chance
    if c.table.split(|x: char| !x.is_ascii_hexdigit()).any(|t| FOREIGN_CELLS.contains(&t)) {
        return None;
    }
    let mut extra: Vec<String> = vec![];
    let words: Vec<String> = c.inputs.iter().filter(|i| !i.is_empty()).cloned().collect();
    let known = Gen::new(r).lower.clone();
    let many = r.chance_of(7, 1000);
    // many of one kind
    let single = if many && r.chance(50) { Some(r.below(31)) } else { None };
    for n in 0..if many { *r.pick(&[60usize, 70, 140, 270, 600]) } else { r.range(1, 8) } {
        let w = {
            let mut w = r.string(FOREIGN, 1, 3);
            // together with characters of the texts
            if r.chance(60) {
                let t: Vec<char> = if !words.is_empty() && r.chance(60) && !backward { r.pick(&words).chars().collect() } else { known.chars().collect() };
                let a = r.below(t.len());
                let b = r.range(a, t.len().min(a + 3));
                let part: String = t[a..b].iter().filter(|c| !c.is_whitespace() && !c.is_control()).collect();
                if r.chance(70) {
                    w.insert_str(0, &part);
                } else {
                    w.push_str(&part);
                }
            }
            // characters that differ from those of the texts in one bit
            if !words.is_empty() && !backward && r.chance(12) {
                let t: Vec<char> = r.pick(&words).chars().collect();
                let a = r.below(t.len());
                let b = r.range(a, t.len().min(a + 3)).max(a + 1).min(t.len());
                let bit = 1u32 << *r.pick(&[16u32, 16, 16, 8, 12, 17, 7, 20]);
                let other: String = t[a..b].iter().filter_map(|c| char::from_u32(*c as u32 ^ bit)).collect();
                let new = |c: char| {
                    let all: Vec<char> = c.to_lowercase().chain(c.to_uppercase()).chain([c]).collect();
                    c as u32 > 0xff && !c.is_whitespace() && !c.is_control() && !all.iter().any(|c| (0x2800..0x2900).contains(&(*c as u32)) || c.is_whitespace() || words.iter().any(|w| w.to_lowercase().contains(*c) || w.contains(*c) || w.to_uppercase().contains(*c)) || c.is_numeric())
                };
                if !other.is_empty() && other.chars().all(new) {
                    w = other;
                }
            }
            w
        };
        let f = r.pick_char(FOREIGN);
        let d = if r.chance(60) { r.pick(FOREIGN_CELLS).to_string() } else { format!("{}-{}", r.pick(FOREIGN_CELLS), r.pick(FOREIGN_CELLS)) };
        let only = r.string(FOREIGN, 1, 3);
        let e = escape_operand(&w);
        // the operand dots and cells that nothing uses, in front of the rest
        extra.push(match single.unwrap_or_else(|| r.below(31)) {
            0..=7 => format!(
                "{} {e} {d}",
                r.pick(&["always", "word", "begword", "midword", "endword", "sufword", "prfword", "partword", "begmidword", "midendword", "joinword", "largesign", "lowword", "syllable"])
            ),
            8 => format!("letter {f} {d}"),
            9 => format!("{} {f} {d}", r.pick(&["punctuation", "digit", "litdigit", "space", "sign", "uppercase", "lowercase", "math"])),
            10 => format!("match {} {} {} {d}", r.pick(&["-", "%a", "%l*", "%_", "."]), escape_operand(&only), r.pick(&["-", "%a", "%[l#]", "$"])),
            11 => format!("context \"{only}\" @{d}"),
            12 => format!("context [\"{only}\"]$l. @{d}"),
            13 => format!("correct \"{only}\" \"a\""),
            14 => format!("{} @{} @1", r.pick(&["pass2", "pass3", "pass4"]), r.pick(FOREIGN_CELLS)),
            15 => format!("comp6 {e} {d}"),
            16 => format!("contraction {only}"),
            17 => format!("{} {only}", r.pick(&["numericnocontchars", "capsmodechars", "noletsign", "noletsignbefore", "noletsignafter"])),
            18 => format!("attribute foreign{} {only}", if r.chance(30) { String::new() } else { name(n) }),
            19 => format!("swapcc foreign{} {f} {}", name(n), r.pick(&["a", "b", "\u{5d0}"])),
            20 => format!("swapcd foreign{} {f} {}", name(n), r.pick(FOREIGN_CELLS)),
            21 => format!("swapdd foreign{} {} {}", name(n), r.pick(FOREIGN_CELLS), r.pick(FOREIGN_CELLS)),
            22 => {
                let c = name(n);
                let mut l = vec![format!("emphclass foreign{c}")];
                match r.below(4) {
                    0 => l.push(format!("begemph foreign{c} {d}\nendemph foreign{c} {d}")),
                    1 => l.push(format!("emphletter foreign{c} {d}\nbegemphword foreign{c} {d}\nendemphword foreign{c} {d}")),
                    2 => l.push(format!("begemphword foreign{c} {d}\nbegemphphrase foreign{c} {d}\nendemphphrase foreign{c} after {d}\nlenemphphrase foreign{c} 3")),
                    _ => {}
                }
                l.join("\n")
            }
            23 => format!("midnum {f} {d}"),
            24 => format!("base {} {f} {}", r.pick(&["uppercase", "lowercase", "foreign"]), r.pick_char(FOREIGN)),
            25 => format!("{} {f} {d}", r.pick(&["prepunc", "postpunc", "hyphen", "decpoint", "repword", "joinnum"])),
            26 => format!("nocross always {e} {d}"),
            27 => format!("{} {only}", r.pick(&["seqdelimiter", "seqbeforechars", "seqafterchars"])),
            28 => format!("display {f} {}", r.pick(FOREIGN_CELLS)),
            29 => format!("{} {e} {d}", r.pick(&["noback always", "nofor always", "noback word", "nofor midword"])),
            _ => format!("compbrl {only}"),
        });
        // contraction needs definitions
        if extra.last().unwrap().starts_with("contraction") {
            for f in only.chars() {
                extra.push(format!("letter {f} {d}"));
            }
        }
    }
    c.files = vec![]; // the table is a text
    let foreign: Vec<char> = FOREIGN.chars().chain(FOREIGN_CELLS.iter().flat_map(|d| crate::model::parse::cells(d).unwrap_or_default().chars().collect::<Vec<_>>())).collect();
    c.inputs.retain(|i| !i.chars().any(|x| foreign.contains(&x)));
    c = engine::lengthen(c, r);
    c.set("extra", extra.join("\n"));
    c.set("order", format!("{}", r.next()));
    Some(c)
}

fn check25(c: &Case, st: &mut Stats) -> Outcome {
    let (t, text) = match base_table(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    st.hit("tables");
    let mut r = Rng::new(c.get("order").parse().unwrap_or(1));
    let mut lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let what;
    if c.kind == "reorder" {
        r.shuffle(&mut lines);
        what = "after reordering the rules";
        st.hit("reordered");
    } else {
        for l in c.get("extra").lines() {
            let k = match r.below(3) {
                0 => 0,
                1 => lines.len(),
                _ => r.below(lines.len() + 1),
            };
            lines.insert(k, l.to_string());
            st.hit(&format!("added:{}", l.split(' ').next().unwrap_or("")));
        }
        what = "with rules of foreign characters";
    }
    let v = join_lines(&lines);
    match get(&v, c.backward, false) {
        Got::T(v) => {
            if let Some(o) = same(c, &t, &v, what) {
                return match o {
                    Outcome::Violation(m) => Outcome::Violation(format!("{m}\n{}", lines.join("\n").chars().take(3000).collect::<String>())),
                    o => o,
                };
            }
        }
        Got::Rejected(e) => return Outcome::Violation(format!("the table is rejected {what}: {e}")),
        Got::Panic(p) => return Outcome::Violation(format!("loading panics {what}: {p}")),
    }
    for i in &c.inputs {
        if i.is_empty() {
            st.trivial();
        } else {
            st.eval(mix(hash_str(&v)) ^ hash_str(i));
        }
    }
    st.sample(|| format!("{:?} the same {what}", c.inputs));
    Outcome::Ok
}

pub static C25: Prop = Prop {
    id: "C25",
    quick: 24000,
    thorough_secs: 180,
    gen: gen25,
    check: check25,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: false,
    rule: "a text that was translated with two tables; distinct by the second table and the text",
    assumptions: &[
        "the added rules contain a character or cell that no text has; lists of characters and match and multipass rules consist of them",
        "reordering: rules without boundary conditions, of which longer ones always win",
    ],
};
