//! The command line tool: metadata queries (C23) and translations (C24)
use crate::case::Case;
use crate::cli;
use crate::lang;
use crate::mcheck::write_files;
use crate::props::trace::table_text;
use crate::props::{engine, robust};
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, join_lines, mix, Rng, Stats};
use std::sync::LazyLock;

// ---------------------------------------------------------------------------------------------
// C23

const KEYS: &[&str] = &["language", "grade", "type", "a", "A", "lang", "x1", "0"];
const VALUES: &[&str] = &["de", "DE", "en", "1", "2", "literary", "computer", "a:b", "a=b", "de-g1", "$", "(x)", "1.0"];

/// Keys and values that are longer than expected
static LONG: LazyLock<Vec<String>> = LazyLock::new(|| {
    let mut v = vec![];
    for n in [17, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 300, 1025] {
        for e in ["", "b", "c"] {
            v.push("a".repeat(n) + e);
        }
    }
    v
});

fn pair(r: &mut Rng, keys: &[&'static str], values: &[&'static str]) -> (String, String) {
    (r.pick(keys).to_string(), r.pick(values).to_string())
}

/// a line that gives the metadata, or nearly
fn meta_line(r: &mut Rng, keys: &[&'static str], values: &[&'static str]) -> String {
    let (k, v) = pair(r, keys, values);
    match r.below(20) {
        0..=6 => format!("#+{k}:{v}"),
        7..=9 => format!("#+{k}: {v}"),
        10 => format!("#+ {k} :\t{v}  "),
        11 => format!("#-{k}: {v}"),
        12 => format!("# {k}: {v}"),
        13 => format!("# +{k}: {v}"),
        14 => format!("#+{k}:{v} {v}"),
        15 => format!("#+{k} {v}"),
        16 => format!("#+{k}{k}:{v}"),
        17 => format!("#+{k}:{v}{v}"),
        18 => format!("#+{v}:{k}"),
        _ => r.pick(&["#+", "#+:", "#+a:", "#+:a", "#+a-b:c", "#+\u{e4}:de", "#+language:\u{e4}", "#+:language:de", "letter a 1", "#", ""]).to_string(),
    }
}

fn gen23(r: &mut Rng, _i: u64, _t: Tier) -> Option<Case> {
    let mut keys: Vec<&str> = KEYS.to_vec();
    let mut values: Vec<&str> = VALUES.to_vec();
    r.shuffle(&mut keys);
    r.shuffle(&mut values);
    keys.truncate(r.range(1, 4));
    values.truncate(r.range(1, 4));
    if r.chance(5) {
        for _ in 0..r.range(1, 3) {
            let x = r.pick(&LONG[..]).as_str();
            if r.chance(75) {
                values.push(x);
            } else {
                keys.push(x);
            }
        }
    }
    let mut c = Case { kind: "query".into(), ..Default::default() };
    let dirs = r.range(1, 4);
    let many = r.chance(4);
    for d in 0..dirs {
        c.files.push((format!("d{d}"), "\u{1}dir".into()));
        for f in 0..if many { r.range(0, 80) } else { r.range(0, 7) } {
            let mut lines = vec![];
            for _ in 0..r.range(0, 9) {
                if r.chance(75) {
                    lines.push(meta_line(r, &keys, &values));
                } else {
                    lines.push(r.pick(&["letter a 1", "", "# comment", "include x.ctb", "always \u{2801} 1", "not a rule"]).to_string());
                }
            }
            // late in a long file, or after a long line
            if r.chance_of(15, 1000) {
                let at = r.below(lines.len() + 1);
                let n = *r.pick(&[10usize, 60, 150, 600, 1500, 5000]);
                if r.chance(70) {
                    lines.splice(at..at, (0..n).map(|_| "letter a 1".to_string()));
                } else {
                    lines.insert(at, format!("# {}", "comment ".repeat(n * 2)));
                }
            }
            let e = r.pick(&["\n", "\n", "\r\n"]);
            let mut text = lines.join(e);
            if r.chance(70) {
                text.push_str(e);
            }
            let name = match r.below(14) {
                0 => format!("d{d}/sub/t{f}.ctb"),
                1 => format!("d{d}/.hidden{f}"),
                2 => format!("d{d}/with space, \"{f}\".utb"),
                3 => format!("d{d}/\u{e4}\u{2801}{f}.ctb"),
                4 => format!("d{d}/same.ctb"),
                5 => format!("d{d}/t{f}"),
                _ => format!("d{d}/t{f}.ctb"),
            };
            if c.files.iter().any(|x| x.0 == name) {
                continue;
            }
            if r.chance(3) {
                // not a text
                text = "\u{1}hex:".to_string() + &text.bytes().chain([0xff]).map(|b| format!("{b:02x}")).collect::<String>();
            }
            c.files.push((name, text));
        }
        if r.chance(8) {
            c.files.push((format!("d{d}/link.ctb"), "\u{1}link:t0.ctb".into()));
        }
    }
    if r.chance(10) {
        let n = c.files.len();
        r.shuffle(&mut c.files[..n]);
    }
    for _ in 0..4 {
        let mut q: Vec<String> = vec![];
        if r.chance(70) {
            // what a file gives
            let f = r.pick(&c.files).clone();
            let mut p = pairs(&f.1);
            r.shuffle(&mut p);
            p.truncate(r.range(1, 4));
            q.extend(p.into_iter().filter(|p| !p.1.contains(',')).map(|(k, v)| format!("{k}={v}")));
        }
        while q.is_empty() || r.chance(18) {
            let (k, v) = pair(r, &keys, &values);
            q.push(format!("{k}={v}"));
        }
        if r.chance(15) {
            let x = r.pick(&q).clone();
            q.push(x);
        }
        r.shuffle(&mut q);
        c.inputs.push(q.join(","));
    }
    let mut path: Vec<usize> = (0..dirs).collect();
    r.shuffle(&mut path);
    if r.chance(15) {
        path.push(r.below(dirs));
    }
    c.set("path", path.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","));
    c.set("seed", r.next().to_string());
    Some(c)
}

/// what the lines of a file say about it
fn pairs(text: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in text.split('\n') {
        let l = l.strip_suffix('\r').unwrap_or(l);
        let b: Vec<char> = l.chars().collect();
        if b.len() < 2 || b[0] != '#' || b[1] != '+' {
            continue;
        }
        let Some(colon) = b.iter().position(|c| *c == ':') else { continue };
        let k: String = b[2..colon.max(2)].iter().collect();
        let w: String = b[colon + 1..].iter().collect();
        let (k, w) = (k.trim().to_string(), w.trim().to_string());
        if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric()) && !w.is_empty() && w.chars().all(|c| ('!'..='~').contains(&c)) {
            v.push((k, w));
        }
    }
    v
}

/// the elements of a printed set of paths
fn elements(s: &str) -> Option<Vec<String>> {
    let b: Vec<char> = s.strip_suffix('\n')?.strip_prefix('{')?.strip_suffix('}')?.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if !v.is_empty() {
            if b.get(i..i + 2)? != [',', ' '] {
                return None;
            }
            i += 2;
        }
        if *b.get(i)? != '"' {
            return None;
        }
        let start = i;
        i += 1;
        while *b.get(i)? != '"' {
            i += if b[i] == '\\' { 2 } else { 1 };
        }
        i += 1;
        v.push(b[start..i].iter().collect());
    }
    Some(v)
}

fn check23(c: &Case, st: &mut Stats) -> Outcome {
    let root = write_files(c);
    let mut r = Rng::new(c.get("seed").parse().unwrap_or(1));
    let given: Vec<String> = c.get("path").split(',').map(|d| format!("d{d}")).collect();
    // the files of the directories themselves
    let tables: Vec<(&String, Vec<(String, String)>)> = c
        .files
        .iter()
        .filter_map(|(n, t)| {
            let (d, f) = n.split_once('/')?;
            if f.contains('/') || !given.iter().any(|g| g == d) || t == "\u{1}dir" || t.starts_with("\u{1}hex:") {
                return None;
            }
            let t = match t.strip_prefix("\u{1}link:") {
                Some(to) => {
                    let full = format!("{d}/{to}");
                    &c.files.iter().find(|f| f.0 == full && !f.1.starts_with('\u{1}'))?.1
                }
                None => t,
            };
            Some((n, pairs(t)))
        })
        .collect();
    for (n, q) in c.inputs.iter().enumerate() {
        let fields: Vec<(String, String)> = q.split(',').filter_map(|f| f.split_once('=')).map(|(k, v)| (k.into(), v.into())).collect();
        let mut expected: Vec<String> =
            tables.iter().filter(|t| fields.iter().all(|f| t.1.contains(f))).map(|t| format!("{:?}", root.join(t.0))).collect();
        expected.sort();
        for variant in 0..2 {
            let (mut q, mut dirs) = (q.clone(), given.clone());
            if variant == 1 {
                if n > 0 {
                    break;
                }
                let mut f: Vec<&str> = q.split(',').collect();
                r.shuffle(&mut f);
                q = f.join(",");
                r.shuffle(&mut dirs);
            }
            let path = dirs.iter().map(|d| root.join(d).to_string_lossy().to_string()).collect::<Vec<_>>().join(":");
            let o = match cli::run_env(&["query", &q], None, &[("LOUIS_TABLE_PATH", &path)]) {
                Ok(o) => o,
                Err(e) => return Outcome::Skip(e),
            };
            if let Some(e) = o.crash {
                return Outcome::Violation(format!("the query {q:?} {e}"));
            }
            let Some(mut got) = elements(&o.stdout) else {
                return Outcome::Violation(format!("the query {q:?} prints no set of paths: {:?} {:?}", cli::head(&o.stdout), cli::head(&o.stderr)));
            };
            got.sort();
            if got != expected {
                let missing: Vec<_> = expected.iter().filter(|e| !got.contains(e)).take(3).collect();
                let extra: Vec<_> = got.iter().filter(|e| !expected.contains(e)).take(3).collect();
                return Outcome::Violation(format!("the query {q:?} in {dirs:?} finds {} tables, expected {}; missing {missing:?}, extra {extra:?}", got.len(), expected.len()));
            }
            st.count("found_tables", got.len() as u64);
        }
        if expected.is_empty() {
            st.trivial();
        } else {
            st.eval(hash_str(&format!("{q} {:?}", c.files)));
            st.hit(&format!("fields:{}", fields.len().min(4)));
            if expected.len() < tables.len() {
                st.hit("proper_subsets");
            }
        }
        st.sample(|| format!("query {q} -> {} of {} tables", expected.len(), tables.len()));
    }
    Outcome::Ok
}

pub static C23: Prop = Prop {
    id: "C23",
    quick: 4000,
    thorough_secs: 90,
    gen: gen23,
    check: check23,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: false,
    rule: "a query that at least one table matches, run by the tool over a generated tree of directories; distinct by query and files",
    assumptions: &["metadata lines start with #+ followed by an alphanumeric key, a colon and a value of visible ASCII characters; all directories of the search path exist"],
};

// ---------------------------------------------------------------------------------------------
// C24

/// without what ends a line or an argument
fn typable(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '\n' | '\r' | '\0')).collect()
}

fn gen24(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = r.chance(45);
    use engine::F::*;
    let mut c = match i % 10 {
        0 | 1 => engine::mixed(r, &[Trans, Match], backward, 35, 6, 16),
        2 => engine::mixed(r, &[Correct, Context, Pass, Attr, Vars], backward, 40, 6, 16),
        3 | 4 => engine::mixed(r, &[Caps, Num, Emph, Comp, Let], backward, 40, 6, 16),
        5 if r.chance(25) => engine::real(r, backward, 6, 40),
        6 => {
            // malformed or refused tables
            let mut p = lang::pool(r);
            let mut c = engine::mixed(r, &[Trans], backward, 20, 4, 12);
            let mut lines: Vec<String> = c.table.lines().map(|l| l.to_string()).collect();
            for _ in 0..r.range(1, 4) {
                let l = match r.below(6) {
                    0 => r.pick(&["include missing.ctb", "include", "include .", "word \u{7b2c}\u{7b2d} =", "base uppercase \u{7b2c} \u{7b2d}", "pass2 @1 %nosuch"]).to_string(),
                    _ => lang::malformed(r, &mut p).0,
                };
                let at = r.range(0, lines.len());
                lines.insert(at, l);
            }
            c.table = join_lines(&lines);
            c
        }
        _ => {
            let mut p = lang::pool(r);
            let lines = robust::wild_table(r, &mut p);
            let mut c = Case { backward, table: join_lines(&lines), ..Default::default() };
            for _ in 0..6 {
                let n = r.range(0, 14);
                c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
            }
            c
        }
    };
    c.kind = "tool".into();
    c.spans.clear();
    if i % 10 == 2 && r.chance(50) {
        // a stage that leaves nothing, and others that begin with nothing
        let mut lines: Vec<String> = c.table.lines().map(|l| l.to_string()).collect();
        for _ in 0..r.range(1, 3) {
            let k = r.pick(&["correct", "pass2", "pass3", "pass4"]).to_string();
            let l = match (r.below(3), k.as_str()) {
                (0, "correct") => "correct $a. ?".to_string(),
                (0, _) => format!("{k} $a. ?"),
                (1, "correct") => "correct []~ \"ab\"".to_string(),
                (_, "correct") => "correct `[]~ \"a\"".to_string(),
                (1, _) => format!("{k} []~ @{}", r.range(1, 6)),
                _ => format!("{k} `[]~ @{}", r.range(1, 6)),
            };
            lines.push(l);
        }
        c.table = join_lines(&lines);
    }
    c.inputs = c.inputs.iter().map(|i| typable(i)).collect();
    if r.chance(40) {
        c.inputs.push(r.pick(&["", " ", "  x  ", "-d", "--help", "-", "\t", "a\u{b}", "\u{feff}a", "quit", "> "]).to_string());
    }
    // what other tools take for comments and commands
    if r.chance(25) {
        for x in &mut c.inputs {
            if r.chance(20) {
                x.insert_str(0, *r.pick(&["#", "# ", "%", "//", ";", ":", "> ", "-", "--", "\\", "\"", "!", "/", ".", "@", "+", "*"]));
            }
        }
        c.inputs.push(r.pick(&["exit", "q", ":q", "help", "?", ".", "#", "#a", "\\q", "end", "EOF", "0"]).to_string());
    }
    if r.chance(5) {
        for _ in 0..r.range(10, 200) {
            let x = r.pick(&c.inputs).clone();
            c.inputs.push(x);
        }
    }
    // a line that is longer than any buffer
    if r.chance(3) && !c.inputs.is_empty() {
        let k = r.below(c.inputs.len());
        // long runs of white space or punctuation take quadratic time
        let slow = !c.inputs[k].chars().any(|x| x.is_alphabetic());
        let n = *r.pick(&[80, 257, 1025, 1100, 4097, 9000]) / if slow { 4 } else { 1 };
        let unit = format!("{} ", c.inputs[k]);
        let x: String = unit.chars().cycle().take(n).collect();
        c.inputs[k] = x;
    }
    c.set("name", *r.pick(&["t.ctb", "t.ctb", "t", "sub/t.ctb", "\u{e4} t.utb", "-t.ctb"]));
    c.set("relative", if r.chance(30) { "1" } else { "" });
    c.set("seed", r.next().to_string());
    Some(c)
}

fn check24(c: &Case, st: &mut Stats) -> Outcome {
    let mut r = Rng::new(c.get("seed").parse().unwrap_or(1));
    // most of the generated tables are reduced to what is accepted
    let mut text = table_text(c);
    if !text.contains("include") && c.get("real").is_empty() && r.chance(60) {
        match robust::lenient(&text, c.backward) {
            Ok(Some((_, t))) => text = t,
            Ok(None) => {}
            Err(p) => return Outcome::Violation(format!("loading panics: {p}")),
        }
    }
    let name = match c.get("name") {
        "" => "t.ctb",
        n => n,
    };
    let mut f = c.clone();
    f.files = vec![(name.to_string(), text)];
    let dir = write_files(&f);
    // a name is looked up on the search path
    let path = if c.get("relative").is_empty() { dir.join(name) } else { name.into() };
    let loaded = sut::load_files(&[path.clone()], c.backward);
    let path = path.to_string_lossy().to_string();
    let direction: &[&str] = match (c.backward, r.below(3)) {
        (true, 0) => &["-d", "backward"],
        (true, 1) => &["--direction", "backward"],
        (true, _) => &["--direction=backward"],
        (false, 0) => &["-d", "forward"],
        (false, _) => &[],
    };
    let call = |args: &[&str], stdin: Option<&str>| -> Result<cli::Out, Outcome> {
        let o = cli::run(args, stdin).map_err(Outcome::Skip)?;
        match o.crash {
            Some(e) => Err(Outcome::Violation(format!("louis {args:?} {e}"))),
            None => Ok(o),
        }
    };
    let style = *r.pick(&["blank", "table"]);
    let args = |command: &str, text: Option<&str>| -> Vec<String> {
        let mut v: Vec<String> = vec![command.into()];
        v.extend(direction.iter().map(|s| s.to_string()));
        if command == "trace" && style == "blank" {
            v.extend(["-s".into(), "blank".into()]);
        }
        v.push("--".into());
        v.push(path.clone());
        v.extend(text.map(|s| s.to_string()));
        v
    };
    let run = |command: &str, text: Option<&str>, stdin: Option<&str>| -> Result<cli::Out, Outcome> {
        let a = args(command, text);
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        call(&a, stdin)
    };
    let e = *r.pick(&["\n", "\n", "\n", "\r\n"]);
    let mut session = c.inputs.join(e);
    // of an empty last line there is only the end of the line
    if r.chance(70) || c.inputs.last().is_some_and(|i| i.is_empty()) {
        session.push_str(e);
    }
    let result = (|| -> Result<(), Outcome> {
        match &loaded {
            Load::Panicked(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
            Load::Rejected(errors) => {
                let first = c.inputs.first().map(|s| s.as_str()).unwrap_or("");
                for (command, text, stdin) in [
                    ("translate", Some(first), None),
                    ("trace", Some(first), None),
                    ("translate", None, Some(session.as_str())),
                    ("trace", None, Some(session.as_str())),
                ] {
                    let o = run(command, text, stdin)?;
                    if !o.stdout.is_empty() {
                        return Err(Outcome::Violation(format!("louis {command} prints {:?} for a table that is rejected: {}", cli::head(&o.stdout), errors.join("; "))));
                    }
                    if o.stderr.trim().is_empty() {
                        return Err(Outcome::Violation(format!("louis {command} does not report that the table is rejected: {}", errors.join("; "))));
                    }
                }
                st.hit("rejected_tables");
                Ok(())
            }
            Load::Ok(t) => {
                let mut expected = vec![];
                for i in &c.inputs {
                    expected.push(sut::translate(t, i, &[]).map_err(|e| Outcome::Violation(format!("the library: {i:?}: {e}")))?);
                }
                st.hit("accepted_tables");
                // an argument may consist of several lines
                if c.inputs.len() > 1 && r.chance(30) {
                    let sep = *r.pick(&["\n", "\r\n", "\n\n", "\t", "\u{b}", "\u{c}", "\u{2028}", "\u{85}", "\u{1b}[0m", "\r"]);
                    let text = format!("{}{sep}{}", r.pick(&c.inputs), r.pick(&c.inputs));
                    let want = sut::translate(t, &text, &[]).map_err(|e| Outcome::Violation(format!("the library: {text:?}: {e}")))?;
                    st.hit("arguments_with_control_characters");
                    for command in ["translate", "trace"] {
                        let o = run(command, Some(&text), None)?;
                        let ok = if command == "trace" { o.stdout.starts_with(&format!("{want}\n")) } else { o.stdout == format!("{want}\n") };
                        if !ok {
                            return Err(Outcome::Violation(format!(
                                "louis {command} prints {:?} {:?} for {text:?}, the library returns {want:?}",
                                cli::head(&o.stdout),
                                cli::head(&o.stderr)
                            )));
                        }
                    }
                }
                for n in 0..c.inputs.len().min(2) {
                    let k = r.below(c.inputs.len());
                    let o = run("translate", Some(&c.inputs[k]), None)?;
                    if o.stdout != format!("{}\n", expected[k]) {
                        return Err(Outcome::Violation(format!(
                            "louis translate prints {:?} {:?} for {:?}, the library returns {:?}",
                            cli::head(&o.stdout),
                            cli::head(&o.stderr),
                            c.inputs[k],
                            expected[k]
                        )));
                    }
                    st.hit("arguments");
                    if n == 0 {
                        let o = run("trace", Some(&c.inputs[k]), None)?;
                        if !o.stdout.starts_with(&format!("{}\n", expected[k])) {
                            return Err(Outcome::Violation(format!(
                                "louis trace begins with {:?} for {:?}, the library returns {:?}",
                                cli::head(o.stdout.lines().next().unwrap_or("")),
                                c.inputs[k],
                                expected[k]
                            )));
                        }
                        st.hit("traces");
                    }
                }
                let o = run("translate", None, Some(&session))?;
                let mut all = "> ".to_string();
                for x in &expected {
                    all.push_str(x);
                    all.push_str("\n> ");
                }
                if o.stdout != all {
                    let at = o.stdout.bytes().zip(all.bytes()).take_while(|(a, b)| a == b).count();
                    let n = all.as_bytes()[..at].iter().filter(|b| **b == b'\n').count().min(c.inputs.len().saturating_sub(1));
                    return Err(Outcome::Violation(format!(
                        "the session of louis translate differs at line {}, where {:?} is typed and the library returns {:?}; it prints {:?}",
                        n + 1,
                        c.inputs.get(n),
                        expected.get(n),
                        cli::head(&String::from_utf8_lossy(&o.stdout.as_bytes()[at.saturating_sub(20)..]))
                    )));
                }
                st.count("typed_lines", expected.len() as u64);
                if c.inputs.len() < 20 && r.chance(50) {
                    let o = run("trace", None, Some(&session))?;
                    let mut rest = o.stdout.as_str();
                    for (n, x) in expected.iter().enumerate() {
                        let line = format!("> {x}\n");
                        let found = if n == 0 { rest.starts_with(&line).then_some(0) } else { rest.find(&format!("\n{line}")).map(|i| i + 1) };
                        match found {
                            Some(i) => rest = &rest[i + line.len() - 1..],
                            None => {
                                return Err(Outcome::Violation(format!(
                                    "the session of louis trace does not answer line {} {:?} with {x:?}",
                                    n + 1,
                                    c.inputs[n]
                                )))
                            }
                        }
                    }
                    st.count("traced_lines", expected.len() as u64);
                }
                for (i, x) in c.inputs.iter().zip(&expected) {
                    if x.is_empty() {
                        st.trivial();
                    } else {
                        st.eval(mix(hash_str(&f.files[0].1) ^ c.backward as u64) ^ hash_str(i));
                    }
                    st.sample(|| format!("{i:?} -> {x:?}"));
                }
                Ok(())
            }
        }
    })();
    match result {
        Ok(()) => Outcome::Ok,
        Err(o) => o,
    }
}

pub static C24: Prop = Prop {
    id: "C24",
    quick: 4000,
    thorough_secs: 90,
    gen: gen24,
    check: check24,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "a text translated by a table by the tool as an argument, in a session or as the first line of a trace, and by the library; distinct by table, direction and text",
    assumptions: &["a line of a session ends with a line feed, optionally after a carriage return"],
};
