//! Lines of a table (C20) and included tables (C19)
use crate::case::Case;
use crate::cli;
use crate::lang;
use crate::mcheck::write_files;
use crate::model::accept;
use crate::props::{engine, robust};
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, join_lines, mix, Rng, Stats};

fn gap(r: &mut Rng) -> &'static str {
    r.pick(&[" ", " ", " ", "  ", "\t", " \t ", "\u{c}", "   "])
}

/// the same line, with other whitespace; `trail` adds what a line ignores after its operands
fn noisy(r: &mut Rng, line: &str, trail: bool) -> String {
    let mut s = String::new();
    if r.chance(25) {
        s.push_str(gap(r));
    }
    for (i, w) in line.split(' ').filter(|w| !w.is_empty()).enumerate() {
        if i > 0 {
            s.push_str(gap(r));
        }
        s.push_str(w);
    }
    if trail && r.chance(25) {
        s.push_str(gap(r));
        s.push_str(r.pick(&["# a comment", "a comment", "1-2-3", "=", "always x 1", "#", "-- \u{e4}\u{2801} \"", "nofor"]));
    }
    if r.chance(25) {
        s.push_str(gap(r));
    }
    s
}

fn filler(r: &mut Rng) -> String {
    if r.chance(45) {
        r.pick(&["", " ", "\t", "   \t", "\u{c}", "\u{b}", "\u{a0}", "\u{2003} ", "\u{3000}", "\u{85}", " \u{2028}", "\u{1680}"]).to_string()
    } else {
        r.pick(&[
            "#", "# comment", "  # always a 1", "#always a 1", "\t#-name: x", "#+language:de", "##", "# \u{2801}\u{e4}\u{1F600}", " #include missing.ctb", "# \"", "#\tword a\\",
        ])
        .to_string()
    }
}

/// opcodes that take what follows as further operands
fn takes_more(line: &str) -> bool {
    line.split(' ').any(|w| matches!(w, "multind" | "replace"))
}

fn eol(r: &mut Rng) -> Vec<&'static str> {
    match r.below(5) {
        0 | 1 => vec!["\n"],
        2 | 3 => vec!["\r\n"],
        _ => vec!["\n", "\r\n"],
    }
}

fn end(r: &mut Rng, lines: &[String]) -> String {
    let e = eol(r);
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        s.push_str(l);
        if i + 1 < lines.len() || r.chance(70) {
            s.push_str(r.pick(&e));
        }
    }
    s
}

/// the same table in another layout
fn relayout(r: &mut Rng, table: &str) -> String {
    let mut v = vec![];
    for l in table.lines() {
        while r.chance(20) {
            v.push(filler(r));
        }
        v.push(noisy(r, l, !takes_more(l)));
    }
    while r.chance(30) {
        v.push(filler(r));
    }
    end(r, &v)
}

fn labelled(r: &mut Rng, c: &mut Case, percent: usize) {
    let mut p = lang::pool(r);
    let n = if r.chance(4) { r.range(100, 1200) } else { r.range(1, 40) };
    let mut labels = String::new();
    let mut lines = vec![];
    let mut well = vec!["swapcd swa ab 1,2".to_string(), "swapcd swb a 1".to_string()];
    let gap = if r.chance_of(3, 1000) { r.below(n) } else { n };
    for k in 0..n {
        if k == gap {
            // what follows is far down
            for _ in 0..*r.pick(&[250usize, 65_530]) {
                lines.push(String::new());
                labels.push('-');
            }
        }
        if r.chance(percent) {
            let (l, _) = lang::malformed(r, &mut p);
            lines.push(noisy(r, &l, false));
            labels.push('m');
        } else if r.chance(20) {
            lines.push(filler(r));
            labels.push('-');
        } else {
            let l = loop {
                let t = &lang::ALL[r.below(lang::ALL.len())];
                // what it refers to is checked elsewhere
                if t.op != "base" && t.op != "contraction" {
                    break lang::line_of(r, &mut p, t, false);
                }
            };
            well.push(l);
            let l = well.remove(0);
            lines.push(noisy(r, &l, !takes_more(&l)));
            labels.push('w');
        }
    }
    for l in well {
        lines.push(l);
        labels.push('w');
    }
    c.table = end(r, &lines);
    c.set("labels", labels);
}

/// any change of a character
fn mutate(r: &mut Rng, l: &str) -> String {
    let mut v: Vec<char> = l.chars().collect();
    for _ in 0..r.range(1, 2) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        let other = r.pick_char("abx19 =-,.\\\"[]()!@$%#*?+|_`~\u{e4}\u{2801}");
        match r.below(4) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, other),
            2 => v[i] = other,
            _ => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
        }
    }
    v.into_iter().filter(|c| *c != '\n' && *c != '\r').collect()
}

fn gen20(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    use engine::F::*;
    let backward = r.chance(40);
    let mut c = match i % 8 {
        0..=2 => {
            let mut c = Case { kind: "labels".into(), backward, ..Default::default() };
            let percent = *r.pick(&[0usize, 0, 5, 30, 80]);
            labelled(r, &mut c, percent);
            c
        }
        3 | 4 => {
            let mut p = lang::pool(r);
            let mut lines = vec![];
            for _ in 0..r.range(2, 20) {
                let l = if r.chance(15) { lang::malformed(r, &mut p).0 } else { lang::line(r, &mut p) };
                lines.push(if r.chance(60) { mutate(r, &l) } else { l });
                if r.chance(15) {
                    lines.push(filler(r));
                }
            }
            Case { kind: "alone".into(), backward, table: end(r, &lines), ..Default::default() }
        }
        5 | 6 => {
            let mut c = match r.below(5) {
                0 => engine::mixed(r, &[Trans, Match], backward, 30, 4, 16),
                1 => engine::mixed(r, &[Correct, Context, Pass, Attr], backward, 30, 4, 16),
                2 => engine::mixed(r, &[Caps, Num, Emph, Comp, Let], backward, 30, 4, 16),
                _ => {
                    let mut p = lang::pool(r);
                    let lines = robust::wild_table(r, &mut p);
                    let mut c = Case { backward, table: join_lines(&lines), ..Default::default() };
                    for _ in 0..4 {
                        let n = r.range(0, 14);
                        c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
                    }
                    c
                }
            };
            c.kind = "layout".into();
            let other = relayout(r, &c.table);
            c.set("other", other);
            c
        }
        _ => {
            let mut c = Case { kind: "tool".into(), backward, ..Default::default() };
            if i % 64 != 7 {
                c.kind = "labels".into();
            }
            if i % 64 == 15 || i % 64 == 47 {
                let mut c = gen_tree(r, backward);
                c.prop = "C20".into();
                return Some(c);
            }
            let percent = *r.pick(&[0usize, 10, 40]);
            labelled(r, &mut c, percent);
            c
        }
    };
    c.prop = "C20".into();
    Some(c)
}

/// lines of the errors about lines, in order; the number of other errors
pub fn error_lines(errors: &[String]) -> (Vec<(String, usize)>, Vec<String>) {
    let mut v = vec![];
    let mut other = vec![];
    for e in errors {
        let d = e.find(" | ParseError { path: ").map(|i| &e[i + 22..]);
        let found = d.and_then(|d| {
            let i = d.find(", line: ")?;
            let n: String = d[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            Some((d[..i].to_string(), n.parse().ok()?))
        });
        match found {
            Some(f) => v.push(f),
            None => other.push(e.clone()),
        }
    }
    (v, other)
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(200).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}

fn compare(what: &str, expected: &[usize], got: &[usize], table: &str) -> Option<String> {
    if expected == got {
        return None;
    }
    let line = |n: usize| table.lines().nth(n.wrapping_sub(1)).unwrap_or("(no such line)").to_string();
    let missing: Vec<_> = expected.iter().filter(|n| !got.contains(n)).collect();
    let extra: Vec<_> = got.iter().filter(|n| !expected.contains(n)).collect();
    Some(if let Some(n) = missing.first() {
        format!("{what}: the malformed line {n} is not reported: {:?}", line(**n))
    } else if let Some(n) = extra.first() {
        format!("{what}: line {n} is reported, but it is not malformed: {:?}", line(**n))
    } else {
        format!("{what}: the lines {got:?} are reported, expected {expected:?}")
    })
}

fn check_labels(c: &Case, st: &mut Stats) -> Outcome {
    let labels = c.get("labels");
    let bad: Vec<usize> = labels.chars().enumerate().filter(|(_, l)| *l == 'm').map(|(i, _)| i + 1).collect();
    let well: Vec<usize> = labels.chars().enumerate().filter(|(_, l)| *l == 'w').map(|(i, _)| i + 1).collect();
    match sut::load(&c.table, c.backward) {
        Load::Panicked(p) => return Outcome::Violation(format!("loading panics: {p}")),
        Load::Ok(_) => {
            if let Some(v) = compare("the table loads", &bad, &[], &c.table) {
                return Outcome::Violation(v);
            }
            st.hit("accepted_tables");
        }
        Load::Rejected(e) => {
            let (lines, other) = error_lines(&e);
            let got: Vec<usize> = lines.iter().map(|l| l.1).collect();
            if let Some(v) = compare("the table is rejected", &bad, &got, &c.table) {
                return Outcome::Violation(v);
            }
            if bad.is_empty() || !other.is_empty() {
                return Outcome::Violation(format!("a table of well-formed lines is rejected: {}", short(&other.join("; "))));
            }
            st.hit("rejected_tables");
        }
    }
    st.count("well_formed_lines", well.len() as u64);
    st.count("malformed_lines", bad.len() as u64);
    st.eval(hash_str(&c.table));
    if c.kind != "tool" {
        return Outcome::Ok;
    }
    // the same by the command line tool
    let mut f = c.clone();
    f.files = vec![("t.ctb".into(), c.table.clone())];
    let path = write_files(&f).join("t.ctb");
    let path = path.to_string_lossy().to_string();
    let o = match cli::run(&["parse", &path], None) {
        Ok(o) => o,
        Err(e) => return Outcome::Skip(e),
    };
    if let Some(e) = o.crash {
        return Outcome::Violation(format!("louis parse {e}"));
    }
    let reported: Vec<usize> = o
        .stderr
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&path)?.strip_prefix(':')?;
            rest[..rest.find(':')?].parse().ok()
        })
        .collect();
    if let Some(v) = compare("louis parse", &bad, &reported, &c.table) {
        return Outcome::Violation(v);
    }
    let rules: Vec<usize> = o
        .stdout
        .lines()
        .filter_map(|l| {
            let i = l.rfind(", line: ")?;
            l[i + 8..].trim_end_matches(" }").parse().ok()
        })
        .collect();
    let expected = if bad.is_empty() { well } else { vec![] };
    if rules != expected || o.stdout.lines().count() != expected.len() {
        return Outcome::Violation(format!(
            "louis parse prints the rules of the lines {rules:?} ({} lines of output), expected those of {expected:?}",
            o.stdout.lines().count()
        ));
    }
    st.hit("runs_of_the_tool");
    parse_session(c, labels, st)
}

/// the lines typed one after the other in a session
fn parse_session(c: &Case, labels: &str, st: &mut Stats) -> Outcome {
    let mut typed = vec![];
    let (mut well, mut bad) = (0, 0);
    for (l, label) in c.table.lines().zip(labels.chars()) {
        // only what is a line for the tool as well
        if l.contains('\r') || l.starts_with('\u{feff}') {
            continue;
        }
        match label {
            'w' => well += 1,
            'm' => bad += 1,
            _ => {}
        }
        typed.push(l);
    }
    let o = match cli::run(&["parse"], Some(&typed.iter().map(|l| format!("{l}\n")).collect::<String>())) {
        Ok(o) => o,
        Err(e) => return Outcome::Skip(e),
    };
    if let Some(e) = o.crash {
        return Outcome::Violation(format!("louis parse {e}"));
    }
    let rules = o.stdout.lines().filter(|l| !l.trim_start_matches("> ").is_empty() && *l != "> ").count();
    let errors = o.stderr.lines().filter(|l| !l.is_empty()).count();
    if rules != well || errors != bad {
        return Outcome::Violation(format!(
            "a session of louis parse in which {well} well-formed and {bad} malformed lines are typed prints {rules} rules and {errors} errors"
        ));
    }
    st.count("typed_lines", typed.len() as u64);
    Outcome::Ok
}

fn check_alone(c: &Case, st: &mut Stats) -> Outcome {
    let rejected = |e: &Load| -> Result<Vec<usize>, String> {
        match e {
            Load::Ok(_) => Ok(vec![]),
            Load::Panicked(p) => Err(format!("loading panics: {p}")),
            Load::Rejected(e) => Ok(error_lines(e).0.into_iter().map(|l| l.1).collect()),
        }
    };
    let mut expected = vec![];
    for (i, l) in c.table.lines().enumerate() {
        let alone = rejected(&sut::load(l, c.backward));
        if let (Some(well), Ok(v)) = (accept::line(l), &alone) {
            if well != v.is_empty() {
                return Outcome::Violation(format!("the line {l:?} is {}", if well { "well-formed but rejected" } else { "malformed but accepted" }));
            }
            st.hit(if well { "mutated_lines_accepted" } else { "mutated_lines_rejected" });
        }
        match alone {
            Ok(v) if v.is_empty() => {}
            Ok(v) if v == [1] => expected.push(i + 1),
            Ok(v) => return Outcome::Violation(format!("the lines {v:?} of a table of the single line {l:?} are reported")),
            Err(e) => return Outcome::Violation(format!("{l:?}: {e}")),
        }
    }
    match rejected(&sut::load(&c.table, c.backward)) {
        Ok(got) => {
            if let Some(v) = compare("of the lines of the table that are rejected alone", &expected, &got, &c.table) {
                return Outcome::Violation(v);
            }
        }
        Err(e) => return Outcome::Violation(e),
    }
    st.count("lines_alone", c.table.lines().count() as u64);
    st.eval(hash_str(&c.table));
    Outcome::Ok
}

/// compare two loaded tables; whether anything was compared
pub fn same(a: &Load, b: &Load, inputs: &[String], spans: &[(String, usize, usize)], what: &str, st: &mut Stats, key: u64) -> Outcome {
    match (a, b) {
        (Load::Panicked(p), _) | (_, Load::Panicked(p)) => Outcome::Violation(format!("loading panics: {p}")),
        (Load::Ok(a), Load::Ok(b)) => {
            for i in inputs {
                let x = sut::translate(a, i, spans);
                let y = sut::translate(b, i, spans);
                if x != y {
                    return Outcome::Violation(format!("{i:?} is translated to {x:?}, {what} to {y:?}"));
                }
                if x.as_deref().unwrap_or("") != "" {
                    st.eval(mix(key) ^ hash_str(i));
                } else {
                    st.trivial();
                }
                st.sample(|| format!("{i:?} -> {x:?} and {what}"));
            }
            st.hit("same_translations");
            Outcome::Ok
        }
        (Load::Rejected(a), Load::Rejected(b)) => {
            let (l, o) = error_lines(a);
            let (m, p) = error_lines(b);
            if l.len() != m.len() || o != p {
                return Outcome::Violation(format!("the table is rejected with {} errors: {}, {what} with {}: {}", a.len(), short(&a.join("; ")), b.len(), short(&b.join("; "))));
            }
            st.hit("same_rejections");
            Outcome::Ok
        }
        (Load::Ok(_), Load::Rejected(e)) => Outcome::Violation(format!("the table loads, {what} it is rejected: {}", short(&e.join("; ")))),
        (Load::Rejected(e), Load::Ok(_)) => Outcome::Violation(format!("the table is rejected: {}, {what} it loads", short(&e.join("; ")))),
    }
}

/// a table that includes tables with lines of either kind
fn gen_tree(r: &mut Rng, backward: bool) -> Case {
    let mut c = Case { kind: "tree".into(), backward, ..Default::default() };
    let n = r.range(2, 5);
    let mut all = vec![];
    for k in 0..n {
        let mut part = Case::default();
        let percent = *r.pick(&[0usize, 5, 20, 60]);
        labelled(r, &mut part, percent);
        c.files.push((format!("part{k}"), part.table.clone()));
        all.push(part.get("labels").to_string());
    }
    let mut root = vec![];
    for k in 0..n {
        // the last one is included by the one before it in some cases
        if k + 1 == n && n > 2 && r.chance(30) {
            let f = &mut c.files[k - 1].1;
            if !f.is_empty() && !f.ends_with('\n') {
                f.push('\n');
            }
            f.push_str(&format!("include part{k}\n"));
        } else {
            root.push(noisy(r, &format!("include part{k}"), false));
            if r.chance(20) {
                root.push(filler(r));
            }
        }
    }
    c.files.insert(0, ("root.ctb".into(), end(r, &root)));
    c.set("labels", all.join("/"));
    c
}

/// every malformed line of all of the files is reported, and nothing else; what is included by a
/// file with malformed lines is not looked at
fn check_tree(c: &Case, st: &mut Stats) -> Outcome {
    let dir = write_files(c);
    std::env::set_var("LOUIS_TABLE_PATH", &dir);
    let loaded = sut::load_files(&["root.ctb".into()], c.backward);
    crate::run::set_table_path();
    let labels: Vec<&str> = c.get("labels").split('/').collect();
    let mut bad = vec![];
    for (k, l) in labels.iter().enumerate() {
        let nested = k > 0 && c.files[k].1.ends_with(&format!("\ninclude part{k}\n"));
        if nested && labels[k - 1].contains('m') {
            continue;
        }
        bad.extend(l.chars().enumerate().filter(|(_, l)| *l == 'm').map(|(i, _)| (format!("part{k}"), i + 1)));
    }
    bad.sort();
    let mut got = vec![];
    match loaded {
        Load::Panicked(p) => return Outcome::Violation(format!("loading panics: {p}")),
        Load::Ok(_) => (),
        Load::Rejected(e) => {
            let (lines, other) = error_lines(&e);
            for (p, n) in lines {
                got.push((p.rsplit('/').next().unwrap_or("").trim_matches(|c: char| !c.is_ascii_alphanumeric()).to_string(), n));
            }
            got.sort();
            if got.is_empty() || !other.is_empty() {
                return Outcome::Violation(format!("tables of well-formed lines are rejected: {}", short(&other.join("; "))));
            }
        }
    }
    if got != bad {
        let missing: Vec<_> = bad.iter().filter(|b| !got.contains(b)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|b| !bad.contains(b)).take(5).collect();
        return Outcome::Violation(format!("of the lines of the included tables {missing:?} are not reported and {extra:?} are, {} are expected", bad.len()));
    }
    st.hit("included_tables");
    st.count("malformed_lines", bad.len() as u64);
    st.eval(hash_str(&format!("{:?}", c.files)));
    Outcome::Ok
}

fn check20(c: &Case, st: &mut Stats) -> Outcome {
    match c.kind.as_str() {
        "labels" | "tool" => check_labels(c, st),
        "tree" => check_tree(c, st),
        "alone" => check_alone(c, st),
        _ => {
            let a = sut::load(&c.table, c.backward);
            let b = sut::load(c.get("other"), c.backward);
            match same(&a, &b, &c.inputs, &c.spans, "in another layout", st, hash_str(c.get("other"))) {
                Outcome::Violation(v) => Outcome::Violation(format!("{v}; the other layout is {:?}", short(c.get("other")))),
                o => o,
            }
        }
    }
}

pub static C20: Prop = Prop {
    id: "C20",
    quick: 300000,
    thorough_secs: 120,
    gen: gen20,
    check: check20,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: false,
    rule: "a table of lines that are known to be malformed or not, or a text translated by a table in two layouts; distinct by table and text",
    assumptions: &["lines are written from templates of all opcodes, spoiled in ways that are certainly malformed, or mutated and judged by an independent reading of the grammar"],
};

// ---------------------------------------------------------------------------------------------
// C19

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Fault {
    NotFound(String),
    Hyphenation(String),
    Unreadable,
    Cycle,
    TooDeep,
    Malformed(String, usize),
}

/// the lines of a table and of what it includes, with where they are written
type Lines = Vec<(String, usize, String)>;

struct Tree<'a> {
    files: &'a [(String, String)],
    search: Vec<String>,
}

impl Tree<'_> {
    /// the name of the file below the directory of the case
    fn find(&self, name: &str) -> Option<usize> {
        for d in &self.search {
            let full = if d.is_empty() { name.to_string() } else { format!("{d}/{name}") };
            // a directory is not a table
            if let Some(i) = self.files.iter().rposition(|f| f.0 == full).filter(|i| self.files[*i].1 != "\u{1}dir") {
                return Some(i);
            }
        }
        None
    }
    fn expand(&self, name: &str, chain: &[usize]) -> Result<Lines, Vec<Fault>> {
        let Some(i) = self.find(name) else { return Err(vec![Fault::NotFound(name.into())]) };
        if chain.len() >= 64 {
            return Err(vec![Fault::TooDeep]);
        }
        if chain.contains(&i) {
            return Err(vec![Fault::Cycle]);
        }
        let (path, text) = &self.files[i];
        if text.starts_with("\u{1}hex:") {
            return Err(vec![Fault::Unreadable]);
        }
        let chain = [chain, &[i]].concat();
        let mut faults = vec![];
        let mut included = vec![];
        for (n, l) in text.lines().enumerate() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let is_include = w.first() == Some(&"include");
            if if is_include { w.len() < 2 } else { accept::line(l) == Some(false) } {
                faults.push(Fault::Malformed(path.clone(), n + 1));
            } else if !w.is_empty() && !w[0].starts_with('#') {
                included.push((n + 1, l.to_string(), is_include.then(|| w[1].to_string())));
            }
        }
        if !faults.is_empty() {
            return Err(faults);
        }
        let mut out = vec![];
        for (n, l, inc) in included {
            match inc {
                Some(f) if f.rsplit('/').next().is_some_and(|f| f.len() > 4 && f.ends_with(".dic")) => match self.find(&f) {
                    Some(_) => out.push((path.clone(), n, l)),
                    None => faults.push(Fault::Hyphenation(f)),
                },
                Some(f) => match self.expand(&f, &chain) {
                    Ok(v) => out.extend(v),
                    Err(e) => faults.extend(e),
                },
                None => out.push((path.clone(), n, l)),
            }
        }
        if faults.is_empty() {
            Ok(out)
        } else {
            Err(faults)
        }
    }
}

/// where a case looks for tables
fn search_of(c: &Case) -> Vec<String> {
    c.get("search").split(':').map(|s| s.to_string()).collect()
}

struct Build<'a, 'b> {
    r: &'a mut Rng,
    files: &'b mut Vec<(String, String)>,
    /// names of finished files, as they are included
    done: Vec<String>,
    dirs: Vec<String>,
    max: usize,
}

impl Build<'_, '_> {
    fn put(&mut self, name: &str, text: String) {
        let k = if self.dirs.len() > 1 { self.r.below(self.dirs.len()) } else { 0 };
        for (i, d) in self.dirs.clone().iter().enumerate() {
            let full = if d.is_empty() { name.to_string() } else { format!("{d}/{name}") };
            if i == k {
                self.files.push((full, text.clone()));
            } else if i > k && self.r.chance(40) {
                // never seen, as the other one comes first
                self.files.push((full, self.r.pick(&["bogus line\n", "always a 123456\n", "", "include missing\n"]).to_string()));
            } else if i < k && self.r.chance(20) {
                self.files.push((full, "\u{1}dir".into()));
            }
        }
    }
    fn name(&mut self) -> String {
        let n = self.done.len() + self.files.len();
        if self.r.chance(40) {
            // files of the same name in different directories
            let d = *self.r.pick(&["", "sub/", "sub/deep/", "other/"]);
            let f = *self.r.pick(&["root.ctb", "root.ctb", "t.uti", "second.utb"]);
            let name = format!("{d}{f}");
            let roots = ["root.ctb", "second.utb"].contains(&name.as_str());
            if !roots && !self.done.contains(&name) && !self.files.iter().any(|x| x.0 == name || x.0.ends_with(&format!("/{name}"))) {
                return name;
            }
        }
        let d = *self.r.pick(&["", "", "", "sub/", "sub/deep/", "other/"]);
        let e = *self.r.pick(&[".uti", ".ctb", ".cti", "", ".dic.uti", ".UTB", "dic", ".dic2", ".DIC", ".Dic"]);
        let f = *self.r.pick(&["n", "#n", "\u{e4}", "in-c_", "include"]);
        format!("{d}{f}{n}{e}")
    }
    /// the lines, with some of them moved to other files
    fn split(&mut self, lines: &[String], depth: usize) -> Vec<String> {
        let mut out = vec![];
        let mut i = 0;
        while i < lines.len() {
            if depth > 0 && self.done.len() < self.max && self.r.chance(20) {
                let n = self.r.below((lines.len() - i).min(8) + 1);
                let inner = self.split(&lines[i..i + n], depth - 1);
                let name = self.name();
                let text = self.text(&inner);
                self.put(&name, text);
                let l = format!("include {name}");
                out.push(if self.r.chance(30) { noisy(self.r, &l, true) } else { l });
                if self.r.chance(15) && name.contains('/') {
                    // not where a relative name is looked up
                    let plain = name.rsplit('/').next().unwrap().to_string();
                    self.files.push((format!("elsewhere/{plain}"), "always a 123456\n".into()));
                }
                self.done.push(name);
                i += n;
                continue;
            }
            if !self.done.is_empty() && self.r.chance(4) {
                let f = self.r.pick(&self.done).clone();
                out.push(format!("include {f}"));
            }
            out.push(lines[i].clone());
            i += 1;
        }
        if depth > 0 && self.r.chance(10) {
            // an empty table
            let name = self.name();
            let t = self.r.pick(&["", "\n", "# nothing\n", "#"]).to_string();
            self.put(&name, t);
            out.push(format!("include {name}"));
            self.done.push(name);
        }
        out
    }
    fn text(&mut self, lines: &[String]) -> String {
        let mut v = vec![];
        for l in lines {
            while self.r.chance(8) {
                v.push(filler(self.r));
            }
            v.push(l.clone());
        }
        end(self.r, &v)
    }
}

/// a hyphenation dictionary of which lines may be malformed
fn gen_dictionary(r: &mut Rng) -> Case {
    let mut lines: Vec<String> = vec![];
    let faulty = r.chance(70);
    match r.below(8) {
        0 if faulty => lines.push((*r.pick(&["ISO8859-1", "iso8859-1", "ISO8859-1 "])).into()),
        1 => lines.push("utf-8".into()),
        2 => {}
        3 => lines.push("".into()),
        _ => lines.push("UTF-8".into()),
    }
    for _ in 0..r.range(0, 12) {
        let bad = faulty && r.chance(15);
        let l = match r.below(8) {
            0 => (*r.pick(&["", "   ", "# 1a", "% 1a", "#", " % b"])).to_string(),
            1 | 2 => {
                let side = *r.pick(&["LEFTHYPHENMIN", "RIGHTHYPHENMIN"]);
                let v = if bad { *r.pick(&["", " two", " -1", " 2.5", " 1 2", " 2x", " 0x1", " 99999999999999999999999"]) } else { *r.pick(&[" 1", " 2", "  3 ", " 0", "\t2", " 18446744073709551615", " 007"]) };
                format!("{side}{v}")
            }
            // also of lengths around those of the keywords
            _ if r.chance(12) => {
                let side = *r.pick(&["LEFTHYPHENMIN", "RIGHTHYPHENMIN", "UTF-8", "ISO8859-1", "NOHYPHEN", "abcdabcdabcdabcd"]);
                let side: String = side.chars().take(r.below(15)).collect();
                let side = if r.chance(50) { side.to_lowercase() } else { side };
                let n = r.range(1, 18);
                format!("x{side}{}{}", r.string("ab\u{e4}\u{df}\u{2801}\u{1F600}cd", n, n), if bad { "" } else { "1" })
                    .split_off(r.below(2))
            }
            _ if bad => (*r.pick(&["ab", ".ab", "a0b", "0", ".", "a.b.", "ISO8859", "\u{e4}b", "LEFTHYPHEN", "a\u{661}b", "utf"])).to_string(),
            _ => {
                let mut l = String::new();
                if r.chance(20) {
                    l.push('.');
                }
                l.push_str(&r.string("ab\u{e4}cd0123", 1, 6));
                l.push_str(*r.pick(&["1", "2", "9", "5."]));
                if r.chance(10) { format!("  {l}\t") } else { l }
            }
        };
        lines.push(l);
    }
    let text = match r.below(20) {
        0 => "\u{1}hex:5554462d380a61ff310a".to_string(),
        _ => end(r, &lines),
    };
    let name = *r.pick(&["h.dic", "sub/h.dic", "x.y.dic"]);
    let mut root = vec!["lowercase a 1".to_string(), "lowercase b 1-2".into(), "nocross always ab 12".into()];
    let at = r.below(root.len() + 1);
    root.insert(at, format!("include {name}"));
    if r.chance(10) {
        root.push("include missing.dic".into());
    }
    let files = vec![("root.ctb".to_string(), join_lines(&root)), (name.to_string(), text)];
    let mut c = Case { prop: "C19".into(), kind: "dictionary".into(), backward: r.chance(40), files, ..Default::default() };
    c.set("roots", "root.ctb".to_string());
    c.set("search", "".to_string());
    c
}

fn check_dictionary(c: &Case, dir: &std::path::Path, st: &mut Stats) -> Outcome {
    use crate::model::hyph::Hyph;
    let text = &c.files[1].1;
    let loaded = sut::load_files(&[dir.join(&c.files[0].0)], c.backward);
    let e = match loaded {
        Load::Panicked(p) => return Outcome::Violation(format!("loading panics: {p}")),
        Load::Ok(_) => None,
        Load::Rejected(e) => Some(e.join("; ")),
    };
    let missing = c.files[0].1.contains("missing.dic");
    let expected = if missing {
        Some("missing.dic".to_string())
    } else if text.starts_with('\u{1}') {
        Some("UTF-8".to_string())
    } else {
        Hyph::fault(text).map(|(n, what)| match what {
            "encoding" => "encoding".to_string(),
            _ => format!("line {n}:"),
        })
    };
    match (&e, &expected) {
        (None, None) => st.hit("accepted_dictionaries"),
        (Some(e), Some(x)) if e.contains(x.as_str()) => st.hit("rejected_dictionaries"),
        (None, Some(x)) => return Outcome::Violation(format!("the table loads in spite of its dictionary {text:?}: {x}")),
        (Some(e), None) => return Outcome::Violation(format!("a table with the well-formed dictionary {text:?} is rejected: {}", short(e))),
        (Some(e), Some(x)) => return Outcome::Violation(format!("the fault of the dictionary {text:?} is {x:?}, reported is {}", short(e))),
    }
    st.eval(hash_str(text));
    Outcome::Ok
}

fn gen19(r: &mut Rng, i: u64, t: Tier) -> Option<Case> {
    if i % 16 == 7 {
        return Some(gen_dictionary(r));
    }
    use engine::F::*;
    let backward = r.chance(40);
    let mut base = match i % 6 {
        0 => engine::mixed(r, &[Trans, Match], backward, 30, 4, 16),
        1 => engine::mixed(r, &[Correct, Context, Pass, Attr], backward, 30, 4, 16),
        2 => engine::mixed(r, &[Caps, Num, Emph, Comp, Let], backward, 30, 4, 16),
        3 => (engine::c16::P.gen)(r, i, t)?,
        _ => {
            let mut p = lang::pool(r);
            let lines = robust::wild_table(r, &mut p);
            let mut c = Case { backward, table: join_lines(&lines), ..Default::default() };
            for _ in 0..4 {
                let n = r.range(0, 14);
                c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
            }
            c
        }
    };
    let mut files = vec![];
    let text = if base.files.is_empty() { base.table.clone() } else { base.files.remove(0).1 };
    let lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    let dirs: Vec<String> = match r.below(20) {
        0 => vec!["A".into(), "B".into(), "C".into(), "D".into()],
        1..=4 => vec!["A".into(), "B".into()],
        _ => vec!["".into()],
    };
    let plain = |n: &str| n.trim_start_matches(['A', 'B', 'C', 'D']).trim_start_matches('/').to_string();
    let max = if r.chance_of(5, 1000) { 150 } else { *r.pick(&[1usize, 3, 8, 20]) };
    let depth = *r.pick(&[1usize, 2, 4]);
    let faults = i % 4 == 3;
    let roots = if r.chance(20) { r.range(2, 3) } else { 1 };
    let mut names = vec![];
    {
        let mut b = Build { r, files: &mut files, done: vec![], dirs: dirs.clone(), max };
        let mut k = 0;
        for j in 0..roots {
            let e = if j + 1 == roots { lines.len() } else { k + b.r.below(lines.len() - k + 1) };
            let inner = b.split(&lines[k..e], depth);
            let t = b.text(&inner);
            let n = ["root.ctb", "second.utb", "third"][j];
            b.put(n, t);
            names.push(n.to_string());
            k = e;
        }
        for f in &base.files {
            b.put(&f.0, f.1.clone());
        }
    }
    if faults {
        for _ in 0..r.range(1, 3) {
            let texts: Vec<usize> = (0..files.len()).filter(|i| !files[*i].1.starts_with('\u{1}') && !files[*i].0.ends_with(".dic") && !files[*i].0.contains("elsewhere")).collect();
            if texts.is_empty() {
                break;
            }
            let k = *r.pick(&texts);
            let own = plain(&files[k].0);
            let put = |files: &mut Vec<(String, String)>, r: &mut Rng, line: String| {
                let mut v: Vec<String> = files[k].1.lines().map(|l| l.to_string()).collect();
                let at = r.below(v.len() + 1);
                v.insert(at, line);
                files[k].1 = end(r, &v);
            };
            let other = plain(&files[*r.pick(&texts)].0);
            match r.below(9) {
                0 => {
                    let l = format!("include {}", r.pick(&["missing.uti", "sub/missing", "root.ctb2", "./nothing", "sub", "a b", "N.uti"]));
                    put(&mut files, r, l);
                }
                1 => put(&mut files, r, format!("include {own}")),
                2 => put(&mut files, r, format!("include {other}")),
                3 => {
                    let l = format!("include {}", r.pick(&["missing.dic", "sub/hyph.dic", "x.y.dic"]));
                    put(&mut files, r, l);
                }
                4 => {
                    let mut p = lang::pool(r);
                    let (l, _) = lang::malformed(r, &mut p);
                    put(&mut files, r, l);
                }
                5 => put(&mut files, r, "include".into()),
                6 => files[k].1 = format!("\u{1}hex:{}", r.pick(&["ff", "616c77617973206120310aff0a", "c3", "fffe6100"])),
                7 => {
                    // a chain of includes of about the maximum length
                    let n = r.range(60, 68);
                    let d = dirs[r.below(dirs.len())].clone();
                    let pre = if d.is_empty() { String::new() } else { format!("{d}/") };
                    for j in 0..n {
                        files.push((format!("{pre}chain{j}"), if j + 1 == n { "always xy 1\n".into() } else { format!("include chain{}\n", j + 1) }));
                    }
                    put(&mut files, r, "include chain0".into());
                }
                _ => {
                    if texts.len() > 1 {
                        files.remove(k);
                    }
                }
            }
        }
    }
    // the first file of a name
    let mut seen = std::collections::HashSet::new();
    files.retain(|f| seen.insert(f.0.clone()));
    // the first file is the root
    files.sort_by_key(|f| !names.iter().any(|n| f.0 == *n || f.0 == format!("A/{n}")));
    let mut c = Case { prop: "C19".into(), kind: if faults { "faults" } else { "same" }.into(), backward, files, inputs: base.inputs, spans: base.spans, ..Default::default() };
    c.set("roots", names.join("\n"));
    c.set("search", dirs.join(":"));
    c.set("absolute", if r.chance(30) { "yes" } else { "" });
    c.set("tool", if i % 16 == 5 || i % 16 == 11 { "yes" } else { "" });
    Some(c)
}

/// what an error of the library says, if it is one of those
fn classify(e: &str, dir: &str) -> Option<Fault> {
    let d = &e[e.find(" | ")? + 3..];
    let quoted = |d: &str| -> Option<String> {
        let a = d.find('"')?;
        let b = d.rfind('"')?;
        Some(d[a + 1..b].to_string())
    };
    Some(if d.starts_with("TableNotFound") {
        Fault::NotFound(quoted(d)?)
    } else if d.starts_with("HyphenationTableNotFound") {
        Fault::Hyphenation(quoted(d)?)
    } else if d.starts_with("TableNotReadable") {
        Fault::Unreadable
    } else if d.starts_with("CircularInclude") {
        Fault::Cycle
    } else if d.starts_with("IncludeTooDeep") {
        Fault::TooDeep
    } else {
        let (v, _) = error_lines(&[e.to_string()]);
        let (p, n) = v.first()?;
        let p = quoted(p)?;
        Fault::Malformed(p.strip_prefix(dir).unwrap_or(&p).trim_start_matches('/').to_string(), *n)
    })
}

fn check19(c: &Case, st: &mut Stats) -> Outcome {
    let dir = write_files(c);
    let search = search_of(c);
    let path: Vec<String> = search.iter().map(|s| dir.join(s).to_string_lossy().trim_end_matches('/').to_string()).collect();
    std::env::set_var("LOUIS_TABLE_PATH", path.join(":"));
    let o = if c.kind == "dictionary" { check_dictionary(c, &dir, st) } else { includes(c, &dir, &search, &path.join(":"), st) };
    crate::run::set_table_path();
    o
}

fn includes(c: &Case, dir: &std::path::Path, search: &[String], table_path: &str, st: &mut Stats) -> Outcome {
    let tree = Tree { files: &c.files, search: search.to_vec() };
    let roots: Vec<&str> = c.get("roots").lines().collect();
    let paths: Vec<std::path::PathBuf> = roots
        .iter()
        .map(|r| match tree.find(r) {
            Some(i) if c.get("absolute") == "yes" => dir.join(&c.files[i].0),
            _ => r.into(),
        })
        .collect();
    let mut expected: Result<Lines, Vec<Fault>> = Ok(vec![]);
    for r in &roots {
        match tree.expand(r, &[]) {
            Ok(v) => {
                if let Ok(e) = &mut expected {
                    e.extend(v)
                }
            }
            Err(f) => {
                expected = Err(f);
                break;
            }
        }
    }
    let loaded = sut::load_files(&paths, c.backward);
    let d = dir.to_string_lossy().to_string();
    let n_files = c.files.len() as u64;
    match &expected {
        Err(faults) => {
            let mut faults = faults.clone();
            faults.sort();
            let got = match &loaded {
                Load::Panicked(p) => return Outcome::Violation(format!("loading panics: {p}")),
                Load::Ok(_) => return Outcome::Violation(format!("the tables load in spite of {faults:?}")),
                Load::Rejected(e) => e,
            };
            let mut seen = vec![];
            for e in got {
                match classify(e, &d) {
                    Some(f) => seen.push(f),
                    None => return Outcome::Violation(format!("the error {} is reported instead of {faults:?}", short(e))),
                }
            }
            seen.sort();
            if seen != faults {
                return Outcome::Violation(format!("the errors {seen:?} are reported, expected {faults:?}"));
            }
            for f in &faults {
                st.hit(match f {
                    Fault::NotFound(_) => "missing_tables",
                    Fault::Hyphenation(_) => "missing_dictionaries",
                    Fault::Unreadable => "unreadable_tables",
                    Fault::Cycle => "cycles",
                    Fault::TooDeep => "overlong_chains",
                    Fault::Malformed(..) => "malformed_lines",
                });
            }
            st.eval(hash_str(&format!("{faults:?}{:?}", c.files)));
            st.sample(|| format!("{} files: {faults:?}", c.files.len()));
        }
        Ok(lines) => {
            let inlined = join_lines(&lines.iter().map(|l| l.2.clone()).collect::<Vec<_>>());
            let p = dir.join("inlined table");
            if std::fs::write(&p, &inlined).is_err() {
                return Outcome::Skip("cannot write".into());
            }
            let whole = sut::load_files(&[p], c.backward);
            if let Load::Rejected(e) = &loaded {
                if e.iter().any(|e| classify(e, &d).is_some()) {
                    return Outcome::Violation(format!("tables without fault are rejected: {}", short(&e.join("; "))));
                }
            }
            let o = same(&loaded, &whole, &c.inputs, &c.spans, "with the rules in place", st, hash_str(&inlined) ^ mix(n_files));
            if !matches!(o, Outcome::Ok) {
                return o;
            }
            // in memory nothing can be included
            if let Some(i) = tree.find(roots[0]) {
                let text = &c.files[i].1;
                let has = text.lines().any(|l| l.split_whitespace().next() == Some("include"));
                match sut::load(text, c.backward) {
                    Load::Ok(_) if has => return Outcome::Violation("a table in memory with include lines loads".into()),
                    _ => {}
                }
            }
            st.count("included_rules", lines.iter().filter(|l| !roots.contains(&l.0.as_str())).count() as u64);
            st.count("files", n_files);
        }
    }
    if c.get("tool") != "yes" || roots.len() != 1 {
        return Outcome::Ok;
    }
    let root = paths[0].to_string_lossy().to_string();
    let o = match cli::run_env(&["parse", &root], None, &[("LOUIS_TABLE_PATH", table_path)]) {
        Ok(o) => o,
        Err(e) => return Outcome::Skip(e),
    };
    if let Some(e) = o.crash {
        return Outcome::Violation(format!("louis parse {e}"));
    }
    let strip = |p: &str| p.strip_prefix(&d).unwrap_or(p).trim_start_matches('/').to_string();
    match &expected {
        Ok(lines) => {
            let got: Vec<(String, usize)> = o
                .stdout
                .lines()
                .filter_map(|l| {
                    let i = l.rfind(", line: ")?;
                    let n = l[i + 8..].trim_end_matches(" }").parse().ok()?;
                    let j = l.rfind(", path: Some(\"")?;
                    Some((strip(&l[j + 14..i - 2]), n))
                })
                .collect();
            let want: Vec<(String, usize)> = lines.iter().map(|l| (l.0.clone(), l.1)).collect();
            // how a rule is shown is not fixed
            if got.is_empty() && o.stdout.lines().count() >= want.len() {
                return Outcome::Skip("louis parse shows rules in another way".into());
            }
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Outcome::Violation(format!("louis parse: rule {k} is {:?}, expected {:?} (of {} and {})", got.get(k), want.get(k), got.len(), want.len()));
            }
        }
        Err(faults) => {
            if !o.stdout.is_empty() || o.stderr.lines().count() < faults.len() {
                return Outcome::Violation(format!("louis parse prints {:?} and the errors {:?}, expected {faults:?}", cli::head(&o.stdout), cli::head(&o.stderr)));
            }
            for f in faults {
                if let Fault::Malformed(p, n) = f {
                    if !o.stderr.contains(&format!("{}:{n}: ", dir.join(p).display())) {
                        return Outcome::Violation(format!("louis parse does not report line {n} of {p}: {}", cli::head(&o.stderr)));
                    }
                }
                if let Fault::NotFound(p) | Fault::Hyphenation(p) = f {
                    if !o.stderr.contains(p.as_str()) {
                        return Outcome::Violation(format!("louis parse does not report {p}: {}", cli::head(&o.stderr)));
                    }
                }
            }
        }
    }
    st.hit("runs_of_the_tool");
    Outcome::Ok
}

pub static C19: Prop = Prop {
    id: "C19",
    quick: 30000,
    thorough_secs: 120,
    gen: gen19,
    check: check19,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "a text translated by a tree of tables and by the table with the rules in place, or the errors of a tree with faults; distinct by tables and text",
    assumptions: &["the includes of a table with malformed lines are not followed, and after a table with faults no other table is read"],
};
