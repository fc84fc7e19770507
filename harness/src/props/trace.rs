//! Translations are functions (C03), account for the whole text (C04) and keep positions aligned (C05)
use crate::case::Case;
use crate::cli;
use crate::json::{self, s, J};
use crate::lang;
use crate::mcheck;
use crate::props::{engine, robust};
use crate::realtab;
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, mix, Rng, Stats};
use louis::{TranslationOptions, Translator};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    static REAL: RefCell<HashMap<(String, bool, usize), Rc<Translator>>> = RefCell::new(HashMap::new());
}

/// the table of the case as text
pub fn table_text(c: &Case) -> String {
    if c.get("real").is_empty() {
        c.table.clone()
    } else {
        realtab::get(c.get("real")).text
    }
}

/// load a table that is known to load; real ones are kept
pub fn loaded(c: &Case, text: &str, copy: usize) -> Result<Rc<Translator>, Outcome> {
    let k = (c.get("real").to_string(), c.backward, copy);
    if !k.0.is_empty() {
        if let Some(t) = REAL.with(|r| r.borrow().get(&k).cloned()) {
            return Ok(t);
        }
    }
    match sut::load(text, c.backward) {
        Load::Ok(t) => {
            let t = Rc::new(t);
            if !k.0.is_empty() {
                REAL.with(|r| r.borrow_mut().insert(k, t.clone()));
            }
            Ok(t)
        }
        Load::Rejected(e) => Err(Outcome::Violation(format!("a table that loaded before is rejected: {}", e.join("; ")))),
        Load::Panicked(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
    }
}

/// tables of all kinds, every line of which is accepted
pub fn any_table(r: &mut Rng, i: u64, n: usize, max: usize) -> Option<Case> {
    use engine::F::*;
    let backward = r.chance(35);
    let mut c = match i % 8 {
        0 | 1 => engine::mixed(r, &[Trans, Match, Correct, Context, Pass], backward, 60, n, max),
        2 => engine::mixed(r, &[Trans, Emph, Caps, Num, Comp], backward, 50, n, max),
        3 | 4 => engine::mixed(r, &[Trans], backward, 40, n, max),
        5 => engine::real(r, backward, n, max),
        _ => {
            let mut p = lang::pool(r);
            let lines = robust::wild_table(r, &mut p);
            let mut c = Case { backward, ..Default::default() };
            c.table = crate::util::join_lines(&lines);
            c.set("lenient", "1");
            for _ in 0..n {
                let m = r.range(0, max);
                c.inputs.push(if backward { lang::wild_braille(r, &p, m) } else { lang::wild_text(r, &p, m) });
            }
            if r.chance(50) {
                for _ in 0..r.range(1, 3) {
                    let a = r.below(max);
                    let b = a + r.below(max);
                    c.spans.push((r.pick(&["italic", "bold", "trans1", "computer_braille"]).to_string(), a, b));
                }
            }
            c
        }
    };
    c.kind = "text".into();
    Some(c)
}

/// the text of the table that loads
pub fn usable(c: &Case) -> Result<(Rc<Translator>, String), Outcome> {
    let text = table_text(c);
    if c.get("lenient").is_empty() {
        if !c.get("real").is_empty() {
            return loaded(c, &text, 0).map(|t| (t, text));
        }
        return match sut::load(&text, c.backward) {
            Load::Ok(t) => Ok((Rc::new(t), text)),
            Load::Rejected(_) => Err(Outcome::Skip("the table is rejected".into())),
            Load::Panicked(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
        };
    }
    match robust::lenient(&text, c.backward) {
        Ok(Some((t, text))) => Ok((Rc::new(t), text)),
        Ok(None) => Err(Outcome::Skip("the table is rejected".into())),
        Err(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
    }
}

// ---------------------------------------------------------------- C03

/// the output and the pieces with their rules, as text
fn signature(t: &Translator, input: &str, o: &louis::TranslationOptions) -> Result<(String, String), String> {
    let out = match sut::guarded(|| t.translate_with_options(input, o.clone())) {
        Ok(Ok(r)) => r.output,
        Ok(Err(e)) => return Err(format!("error {e:?}")),
        Err(p) => return Err(format!("panic: {p}")),
    };
    #[cfg(feature = "hook")]
    let pieces = {
        let tr = sut::guarded(|| louis::verif::trace(t, input, o)).map_err(|p| format!("panic: {p}"))?;
        let mut x = String::new();
        for st in tr {
            for g in st {
                x.push_str(&format!("{}|{:?}>{:?}@{}\n", g.stage, g.input, g.output, g.rule.unwrap_or_default()));
            }
        }
        x
    };
    #[cfg(not(feature = "hook"))]
    let pieces = String::new();
    Ok((out, pieces))
}

/// they use the names and characters that the others use, in other ways
const OTHER_TABLES: &[&str] = &[
    "space \\s 0\nletter a 5\nletter b 56\ndigit 1 4\nattribute vow b\nattribute xyz a\nswapcd swa a 1\nemphclass italic\nemphclass bold\nbegemphword bold 4\nalways ab 3\nmatch %a b - 6\ncorrect \"a\" \"b\"\npass2 @5 @6\n",
    "letter a 1\nletter a\nbogus\n",
    "lowercase a 2\nbase uppercase A a\ncapsletter 3\nnumsign 35\nlitdigit 0 24\nlitdigit 1 25\npunctuation . 26\nnumericmodechars .\ncontext \"a\" @4#1=1\ncontext #1=1\"a\" @45\nundefined 36\n",
];

fn gen03(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let mut c = any_table(r, i, 8, 14)?;
    // rules with the same characters and translations that only differ in what decides ties
    if r.chance(30) && c.get("real").is_empty() {
        let lines: Vec<String> = c.table.lines().map(|s| s.to_string()).collect();
        let mut v = lines.clone();
        for _ in 0..r.range(1, 4) {
            let l = r.pick(&lines).clone();
            if let Some((a, _)) = l.rsplit_once(' ') {
                let k = r.below(v.len() + 1);
                v.insert(k, format!("{a} {}", crate::gen::cell_text(r.range(1, 255) as u32)));
            }
        }
        c.table = crate::util::join_lines(&v);
        c.set("lenient", "1");
    }
    c.set("order", format!("{}", r.next()));
    if i % 12 == 0 {
        c.set("process", "1");
    }
    if i % 40 == 7 {
        c.set("long", "1");
    }
    Some(c)
}

fn check03(c: &Case, st: &mut Stats) -> Outcome {
    let (t1, text) = match usable(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    let o = robust::full_options(c);
    let mut base = vec![];
    for i in &c.inputs {
        match signature(&t1, i, &o) {
            Ok(x) => base.push(x),
            Err(e) => return Outcome::Violation(format!("translating {i:?}: {e}")),
        }
    }
    let differs = |k: usize, x: Result<(String, String), String>, how: &str| -> Option<Outcome> {
        match x {
            Ok(x) if x.0 != base[k].0 => Some(Outcome::Violation(format!(
                "{:?} gives {:?} at first and {:?} {how}",
                c.inputs[k], base[k].0, x.0
            ))),
            Ok(x) if x.1 != base[k].1 => Some(Outcome::Violation(format!(
                "{:?} gives {:?} by other rules {how}:\n{}and at first\n{}",
                c.inputs[k], base[k].0, x.1, base[k].1
            ))),
            Ok(_) => None,
            Err(e) => Some(Outcome::Violation(format!("{:?} {how}: {e}", c.inputs[k]))),
        }
    };
    let mut r = Rng::new(c.get("order").parse().unwrap_or(1));
    // after other translations, some with other options
    let n = c.inputs.len();
    let wide: Vec<(String, usize, usize)> = c.spans.iter().map(|s| (s.0.clone(), s.1 / 2, s.2 + 3)).collect();
    let others = [TranslationOptions::default(), sut::options(&wide)];
    let mut first: HashMap<(usize, usize), (String, String)> = HashMap::new();
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    r.shuffle(&mut order);
    for &k in &order {
        if r.chance(40) {
            let (j, which) = (r.below(n), r.below(2));
            match signature(&t1, &c.inputs[j], &others[which]) {
                Err(e) => return Outcome::Violation(format!("translating {:?} with other options: {e}", c.inputs[j])),
                Ok(x) => match first.get(&(j, which)) {
                    Some(f) if *f != x => {
                        return Outcome::Violation(format!("{:?} gives {:?} at first and {:?} later, by\n{}and\n{}", c.inputs[j], f.0, x.0, f.1, x.1))
                    }
                    Some(_) => st.hit("repeated_with_other_options"),
                    None => {
                        first.insert((j, which), x);
                    }
                },
            }
        }
        if r.chance(10) && !OTHER_TABLES.is_empty() {
            // other tables come and go
            let _ = sut::load(OTHER_TABLES[r.below(OTHER_TABLES.len())], r.chance(50));
            st.hit("other_tables_loaded");
        }
        if let Some(v) = differs(k, signature(&t1, &c.inputs[k], &o), "after other translations") {
            return v;
        }
        st.hit("repeated");
    }
    if c.get("long") != "" {
        // a long history of texts that are all different
        for k in 0..r.range(200, 1500) {
            let mut x = c.inputs[k % n].clone();
            let at = x.char_indices().map(|i| i.0).nth(r.below(x.chars().count() + 1)).unwrap_or(x.len());
            x.insert_str(at, &c.inputs[r.below(n)]);
            let _ = sut::guarded(|| t1.translate_with_options(&x, if k % 3 == 0 { others[k % 2].clone() } else { o.clone() }));
        }
        for k in 0..n {
            if let Some(v) = differs(k, signature(&t1, &c.inputs[k], &o), "after many translations") {
                return v;
            }
        }
        for ((j, which), f) in &first {
            match signature(&t1, &c.inputs[*j], &others[*which]) {
                Ok(x) if x == *f => {}
                x => return Outcome::Violation(format!("{:?} gives {:?} at first and {x:?} after many translations", c.inputs[*j], f.0)),
            }
        }
        st.hit("long_histories");
    }
    // another translator of the same table
    let t2 = match loaded(c, &text, 1) {
        Ok(t) => t,
        Err(o) => return o,
    };
    for k in (0..n).rev() {
        if let Some(v) = differs(k, signature(&t2, &c.inputs[k], &o), "on another translator of the same table") {
            return v;
        }
        st.hit("on_another_translator");
    }
    // translators of this table and a similar one come and go
    if r.chance(30) && c.get("real").is_empty() && n > 0 {
        let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        for _ in 0..r.range(1, 4) {
            let at = r.below(lines.len().max(1));
            let Some((a, _)) = lines.get(at).and_then(|l| l.rsplit_once(' ')) else { continue };
            lines[at] = format!("{a} {}", crate::gen::cell_text(r.range(1, 255) as u32));
        }
        let other = crate::util::join_lines(&lines);
        let plain = TranslationOptions::default();
        let k = r.below(n);
        if let Load::Ok(b) = sut::load(&other, c.backward) {
            let want = [signature(&t1, &c.inputs[k], &plain), signature(&b, &c.inputs[k], &plain)];
            for round in 0..6 {
                let Load::Ok(t) = sut::load([&text, &other][round % 2], c.backward) else { break };
                let got = signature(&t, &c.inputs[k], &plain);
                if got != want[round % 2] {
                    return Outcome::Violation(format!(
                        "{:?} gives {:?} at first and {got:?} on a translator of the same table loaded after one of another table was dropped",
                        c.inputs[k],
                        want[round % 2]
                    ));
                }
                st.hit("after_a_dropped_translator");
            }
        }
    }
    // threads
    let t = &*t1;
    let found = std::sync::Mutex::new(None);
    std::thread::scope(|sc| {
        for w in 0..3usize {
            let (found, o, base, inputs) = (&found, &o, &base, &c.inputs);
            sc.spawn(move || {
                for j in 0..2 * n {
                    let k = (j + w * 3) % n;
                    let x = signature(t, &inputs[k], o);
                    let bad = match &x {
                        Ok(x) => x.0 != base[k].0 || x.1 != base[k].1,
                        Err(_) => true,
                    };
                    if bad {
                        *found.lock().unwrap() = Some((k, x));
                    }
                }
            });
        }
    });
    st.count("concurrent", 6 * n as u64);
    if let Some((k, x)) = found.into_inner().unwrap() {
        return differs(k, x, "concurrently").unwrap_or(Outcome::Ok);
    }
    // another process
    if !c.get("process").is_empty() {
        let mut c2 = c.clone();
        c2.set("usable", text.clone());
        let f = crate::run::scratch_dir().join(format!("dump-{}.json", std::process::id()));
        if std::fs::write(&f, c2.to_json().to_text()).is_ok() {
            let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("dump").arg(&f).output();
            let _ = std::fs::remove_file(&f);
            if let Some(j) = out.ok().and_then(|o| json::parse(&String::from_utf8_lossy(&o.stdout))) {
                for (k, p) in j.arr().iter().enumerate() {
                    let a = p.arr();
                    if let Some(v) = differs(k, Ok((a[0].str(), a[1].str())), "in another process") {
                        return v;
                    }
                    st.hit("in_another_process");
                }
            }
        }
    }
    for (k, i) in c.inputs.iter().enumerate() {
        st.eval(mix(hash_str(&text)) ^ hash_str(i) ^ hash_str(&base[k].1));
    }
    st.hit("tables");
    st.sample(|| format!("{:?} -> {:?} every time", c.inputs[0], base[0].0));
    Outcome::Ok
}

/// the translations of a case, for another process to compare
pub fn dump(c: &Case) -> String {
    let mut v = vec![];
    if let Load::Ok(t) = sut::load(c.get("usable"), c.backward) {
        let o = robust::full_options(c);
        for i in &c.inputs {
            match signature(&t, i, &o) {
                Ok((a, b)) => v.push(J::Arr(vec![s(a), s(b)])),
                Err(e) => v.push(J::Arr(vec![s(e), s("")])),
            }
        }
    }
    J::Arr(v).to_text()
}

pub static C03: Prop = Prop {
    id: "C03",
    quick: 9000,
    thorough_secs: 240,
    gen: gen03,
    check: check03,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "a table with a text whose translation and pieces were compared over repetitions, translators, threads and processes; distinct by table, text and pieces",
    assumptions: &[
        "rules are compared in the notation of the trace, in which the order of the characters of a set says nothing",
        "schedules of the threads are those that the operating system happens to choose",
    ],
};

// ---------------------------------------------------------------- C04

pub const PREFIX: &[&str] = &["nofor", "noback", "nocross", "empmatchbefore", "empmatchafter"];

/// opcode of a line and whether the line counts in the direction
pub fn opcode_of(line: &str, backward: bool) -> Option<(String, bool)> {
    let mut w = line.split_whitespace();
    let mut active = true;
    loop {
        let x = w.next()?;
        if x.starts_with('#') {
            return None;
        }
        if x == "before" || x == "after" {
            w.next()?;
        } else if PREFIX.contains(&x) {
            if x == "nofor" && !backward || x == "noback" && backward {
                active = false;
            }
        } else {
            return Some((x.to_string(), active));
        }
    }
}

fn stage_names(text: &str, backward: bool) -> Vec<&'static str> {
    let used: std::collections::HashSet<String> =
        text.lines().filter_map(|l| opcode_of(l, backward)).filter(|x| x.1).map(|x| x.0).collect();
    let mut v: Vec<&'static str> =
        ["correct", "main", "pass2", "pass3", "pass4"].into_iter().filter(|s| *s == "main" || used.contains(*s)).collect();
    if backward {
        v.reverse();
    }
    v
}

fn opcode_stage(op: &str) -> &str {
    match op {
        "correct" | "pass2" | "pass3" | "pass4" => op,
        _ => "main",
    }
}

fn covers(consumed: &str, text: &str) -> bool {
    let mut a = consumed.chars();
    let mut b = text.chars();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) if x == y || x.to_lowercase().eq(y.to_lowercase()) => {}
            _ => return false,
        }
    }
}

#[cfg(feature = "hook")]
fn judge04(t: &Translator, text: &str, c: &Case, st: &mut Stats) -> Outcome {
    let names = stage_names(text, c.backward);
    let o = robust::full_options(c);
    let mut printed: HashMap<&str, String> = HashMap::new();
    for i in &c.inputs {
        let tr = match sut::guarded(|| louis::verif::trace(t, i, &o)) {
            Ok(x) => x,
            Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
        };
        let out = match sut::guarded(|| t.translate_with_options(i, o.clone())) {
            Ok(Ok(r)) => r.output,
            x => return Outcome::Violation(format!("translating {i:?} fails: {x:?}")),
        };
        if c.spans.is_empty() && c.get("modes").is_empty() {
            match sut::guarded(|| t.translate(i)) {
                Ok(Ok(r)) if r == out => {}
                x => return Outcome::Violation(format!("translating {i:?} without options gives {x:?}, with the default options {out:?}")),
            }
        }
        if tr.len() != names.len() {
            return Outcome::Violation(format!("{i:?} passes through {} stages, the table has {names:?}", tr.len()));
        }
        let mut cur = i.clone();
        let mut key = hash_str(i);
        for (k, stage) in tr.iter().enumerate() {
            let consumed: String = stage.iter().map(|s| s.input.as_str()).collect();
            if !covers(&consumed, &cur) {
                return Outcome::Violation(format!("the pieces of {} consume {consumed:?} of {cur:?}", names[k]));
            }
            cur = stage.iter().map(|s| s.output.as_str()).collect();
            for g in stage {
                // one name per stage
                let p = printed.entry(names[k]).or_insert_with(|| g.stage.clone());
                if *p != g.stage {
                    return Outcome::Violation(format!("a piece of {} is recorded for stage {} and {}", names[k], g.stage, p));
                }
                if let Some(rule) = &g.rule {
                    let op = rule.split_whitespace().next().unwrap_or("");
                    if opcode_stage(op) != names[k] {
                        return Outcome::Violation(format!("the rule {rule:?} is applied in the stage {}", names[k]));
                    }
                    st.hit("pieces_with_rule");
                } else {
                    st.hit("pieces_without_rule");
                }
                key = mix(key ^ hash_str(&g.output)).wrapping_add(hash_str(&g.input));
            }
            st.hit(&format!("stage:{}", names[k]));
        }
        for (a, x) in &printed {
            if printed.iter().any(|(b, y)| a != b && x == y) {
                return Outcome::Violation(format!("two stages are recorded as {x}"));
            }
        }
        if cur != out {
            return Outcome::Violation(format!("the pieces of the last stage give {cur:?} and translating {i:?} {out:?}"));
        }
        st.eval(key);
        st.sample(|| format!("{i:?} -> {out:?} through {names:?}"));
    }
    Outcome::Ok
}

fn gen04(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let mut c = engine::lengthen(any_table(r, i, 5, 24)?, r);
    if i % 30 == 0 {
        c.set("cli", "1");
    }
    Some(c)
}

/// the trace of the command line tool
fn cli04(text: &str, t: &Translator, c: &Case, st: &mut Stats) -> Outcome {
    let mut w = Case { ..Default::default() };
    w.files = vec![("t.ctb".into(), text.to_string())];
    let f = mcheck::write_files(&w).join("t.ctb");
    let f = f.to_string_lossy().to_string();
    for i in c.inputs.iter().take(2) {
        if i.starts_with('-') || i.chars().any(|c| c.is_control()) {
            continue;
        }
        let mut args = vec!["trace", "-s", "blank", f.as_str(), i.as_str()];
        if c.backward {
            args.extend(["-d", "backward"]);
        }
        let out = match cli::run(&args, None) {
            Ok(o) => o,
            Err(e) => return Outcome::Skip(e),
        };
        if let Some(m) = out.crash {
            return Outcome::Violation(format!("louis trace of {i:?} {m}"));
        }
        let expected = match sut::translate(t, i, &[]) {
            Ok(x) => x,
            Err(e) => return Outcome::Violation(format!("translating {i:?}: {e}")),
        };
        if expected.chars().any(|c| c.is_control() || c == '\u{2028}' || c == '\u{2029}') {
            continue;
        }
        if out.stdout.split('\n').next() != Some(expected.as_str()) {
            return Outcome::Violation(format!("louis trace of {i:?} prints {:?} instead of {expected:?} first", out.stdout.split('\n').next()));
        }
        #[cfg(feature = "hook")]
        {
            let tr = match sut::guarded(|| louis::verif::trace(t, i, &Default::default())) {
                Ok(x) => x,
                Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
            };
            let names = stage_names(text, c.backward);
            let rows: Vec<_> = tr
                .iter()
                .zip(&names)
                .flat_map(|(s, n)| s.iter().map(move |g| (g, *n)))
                .filter(|(g, n)| *n == "main" || g.rule.is_some())
                .collect();
            if rows.iter().any(|(g, _)| {
                let r = g.rule.clone().unwrap_or_default();
                format!("{}{}{}", g.input, g.output, r).chars().any(|c| c.is_control() || c == '\u{2028}' || c == '\u{2029}')
            }) {
                continue;
            }
            let lines: Vec<&str> = out.stdout.split('\n').collect();
            // translation, heading, the rows and the end of the last line
            let body: Vec<&str> = lines[2.min(lines.len())..].iter().filter(|l| !l.is_empty()).cloned().collect();
            if body.len() != rows.len() {
                return Outcome::Violation(format!(
                    "louis trace of {i:?} lists {} steps, {} were applied:\n{}",
                    body.len(),
                    rows.len(),
                    out.stdout
                ));
            }
            for (k, (l, (g, n))) in body.iter().zip(&rows).enumerate() {
                let id = l.split_whitespace().next().unwrap_or("");
                if id != format!("{}", k + 1) {
                    return Outcome::Violation(format!("step {} of louis trace {i:?} is numbered {id}", k + 1));
                }
                let has = |x: &str| l.contains(x.trim());
                let rule = g.rule.clone().unwrap_or_default();
                let op = rule.split_whitespace().next().unwrap_or("");
                if !has(&g.input) || !has(&g.output) || !has(op) {
                    return Outcome::Violation(format!(
                        "step {} of louis trace {i:?} should be {:?} to {:?} by {rule:?} in {n}: {l}",
                        k + 1,
                        g.input,
                        g.output
                    ));
                }
                st.hit("cli_steps");
            }
        }
        st.hit("cli_traces");
        st.eval(hash_str(&out.stdout) ^ hash_str(text));
    }
    Outcome::Ok
}

fn check04(c: &Case, st: &mut Stats) -> Outcome {
    let (t, text) = match usable(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    st.hit("tables");
    #[cfg(feature = "hook")]
    {
        let v = judge04(&t, &text, c, st);
        if !matches!(v, Outcome::Ok) {
            return v;
        }
    }
    #[cfg(not(feature = "hook"))]
    let _ = (opcode_stage as fn(&str) -> &str, covers as fn(&str, &str) -> bool, stage_names as fn(&str, bool) -> Vec<&'static str>);
    if !c.get("cli").is_empty() {
        return cli04(&text, &t, c, st);
    }
    Outcome::Ok
}

pub static C04: Prop = Prop {
    id: "C04",
    quick: 48000,
    thorough_secs: 240,
    gen: gen04,
    check: check04,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "the trace of one text with all its stages; distinct by the pieces",
    assumptions: &[
        "the pieces are those of the trace that the hook of --cfg louis_verif hands out; without it only the traces of the command line tool are judged",
        "a trace of the command line tool is only compared if it has no control characters",
    ],
};

// ---------------------------------------------------------------- C05

fn gen05(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    any_table(r, i, 5, 24).map(|c| {
        let c = if r.chance(1) { long_output(c, r) } else { c };
        engine::lengthen(c, r)
    })
}

/// put a rule with a long output for a character of a text in front of the table
fn long_output(mut c: Case, r: &mut Rng) -> Case {
    let chars: Vec<char> = c.inputs.iter().flat_map(|i| i.chars()).collect();
    if c.table.is_empty() || chars.is_empty() {
        return c;
    }
    let n = *r.pick(&[65, 127, 129, 255, 256, 257, 300, 520, 1025]);
    let ch = *r.pick(&chars);
    let line = if !c.backward {
        format!("noback always {} {}", crate::util::escape_operand(&ch.to_string()), vec!["1"; n].join("-"))
    } else if ('\u{2801}'..='\u{28ff}').contains(&ch) {
        format!("nofor always {} {}", "a".repeat(n), crate::gen::cell_text(ch as u32 - 0x2800))
    } else {
        return c;
    };
    c.table = format!("{line}\n{}", c.table);
    c
}

#[cfg(feature = "hook")]
fn check05(c: &Case, st: &mut Stats) -> Outcome {
    let (t, _) = match usable(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    st.hit("tables");
    let o = robust::full_options(c);
    for i in &c.inputs {
        let (tr, ps) = match sut::guarded(|| (louis::verif::trace(&t, i, &o), louis::verif::positions(&t, i, &o))) {
            Ok(x) => x,
            Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
        };
        if tr.len() != ps.len() {
            return Outcome::Violation(format!("{} stages and {} pairs of maps", tr.len(), ps.len()));
        }
        for (stage, (to_out, to_in)) in tr.iter().zip(&ps) {
            let pieces: Vec<(usize, usize)> = stage.iter().map(|s| (s.input.chars().count(), s.output.chars().count())).collect();
            let show = || {
                let x: Vec<String> = stage.iter().map(|s| format!("{:?}>{:?}", s.input, s.output)).collect();
                format!("pieces {}\n  to output {to_out:?}\n  to input {to_in:?}", x.join(" "))
            };
            let (n, m) = (pieces.iter().map(|p| p.0).sum::<usize>(), pieces.iter().map(|p| p.1).sum::<usize>());
            if to_out.len() != n || to_in.len() != m {
                return Outcome::Violation(format!("the maps have {} and {} entries for {n} and {m} characters: {}", to_out.len(), to_in.len(), show()));
            }
            if to_out.windows(2).any(|w| w[0] > w[1]) || to_in.windows(2).any(|w| w[0] > w[1]) {
                return Outcome::Violation(format!("a map decreases: {}", show()));
            }
            let (mut a, mut b) = (0, 0);
            for (x, y) in pieces {
                if x > 0 && y > 0 {
                    for k in a..a + x {
                        if !(b..b + y).contains(&to_out[k]) {
                            return Outcome::Violation(format!("character {k} points to {}, its piece is {b}..{}: {}", to_out[k], b + y, show()));
                        }
                    }
                    for k in b..b + y {
                        if !(a..a + x).contains(&to_in[k]) {
                            return Outcome::Violation(format!("cell {k} points to {}, its piece is {a}..{}: {}", to_in[k], a + x, show()));
                        }
                    }
                    st.hit(match (x, y) {
                        (1, 1) => "pieces_1_1",
                        (1, _) => "pieces_1_n",
                        (_, 1) => "pieces_n_1",
                        _ => "pieces_n_m",
                    });
                } else {
                    // they have no counterpart but stay inside
                    for k in a..a + x {
                        if to_out[k] > m {
                            return Outcome::Violation(format!("character {k} points outside: {}", show()));
                        }
                    }
                    for k in b..b + y {
                        if to_in[k] > n {
                            return Outcome::Violation(format!("cell {k} points outside: {}", show()));
                        }
                    }
                    st.hit(if x > 0 { "pieces_removed" } else { "pieces_inserted" });
                }
                a += x;
                b += y;
            }
            let mut key = hash_str(&format!("{to_out:?}{to_in:?}"));
            for s in stage {
                key = mix(key ^ hash_str(&s.output));
            }
            if n + m > 0 {
                st.eval(key);
            } else {
                st.trivial();
            }
            st.sample(show);
        }
    }
    Outcome::Ok
}

#[cfg(not(feature = "hook"))]
fn check05(_: &Case, _: &mut Stats) -> Outcome {
    Outcome::Skip("the maps are only seen through the hook".into())
}

pub static C05: Prop = Prop {
    id: "C05",
    quick: 48000,
    thorough_secs: 180,
    gen: gen05,
    check: check05,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "the two maps of one stage of a trace; distinct by the maps and the pieces",
    assumptions: &["the maps are those that the library computes from a trace; the hook of --cfg louis_verif hands them out because translating does not return them yet"],
};
