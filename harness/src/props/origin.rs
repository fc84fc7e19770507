//! The steps of a trace name the rules that made them (C27)
use crate::case::Case;
use crate::cli;
use crate::mcheck;
use crate::model::ctx::Ctx;
use crate::model::multipass::{self, Act};
use crate::model::parse::{self, Dir, Dots, Op, Rule};
use crate::props::{engine, trace};
use crate::run::{no_fixed, Outcome, Prop, Tier};
use crate::sut;
use crate::util::{hash_str, mix, Rng, Stats};
use std::collections::HashMap;

/// a test with its operands as a trace shows them
pub fn shown_test(t: &str) -> Option<String> {
    let c: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '"' => {
                let mut j = i + 1;
                while *c.get(j)? != '"' {
                    j += if c[j] == '\\' { 2 } else { 1 };
                }
                let s: String = c[i + 1..j].iter().collect();
                if s.contains('\\') {
                    // the escapes of strings are the subject of C21
                    return None;
                }
                out.push_str(&format!("\"{s}\""));
                i = j + 1;
            }
            '@' => {
                let j = (i + 1..c.len()).find(|j| !matches!(c[*j], '0'..='9' | 'a'..='f' | '-')).unwrap_or(c.len());
                let d: String = c[i + 1..j].iter().collect();
                out.push_str(&format!("@{}", parse::cells(&d)?));
                i = j;
            }
            '$' => {
                let j = (i + 1..c.len()).find(|j| !c[*j].is_ascii_alphabetic()).unwrap_or(c.len());
                let mut a: Vec<char> = c[i + 1..j].to_vec();
                a.sort();
                a.dedup();
                out.push('$');
                out.extend(a);
                i = j;
            }
            '0'..='9' => {
                let j = (i + 1..c.len()).find(|j| !c[*j].is_ascii_digit()).unwrap_or(c.len());
                out.push_str(&c[i..j].iter().collect::<String>().parse::<u64>().ok()?.to_string());
                i = j;
            }
            k => {
                out.push(k);
                i += 1;
                if k == '_' && !c.get(i).is_some_and(|d| d.is_ascii_digit()) {
                    out.push('1');
                }
            }
        }
    }
    Some(out)
}

/// an action as a trace shows it
pub fn shown_action(acts: &[Act]) -> String {
    acts.iter()
        .map(|a| match a {
            Act::Str(s) => s.clone(),
            Act::Swap(n) => format!("%{n}"),
            Act::Copy => "*".into(),
            Act::Nothing => "?".into(),
            Act::Set(v, n) => format!("#{v}={n}"),
            Act::Step(v, up) => format!("#{v}{}", if *up { "+" } else { "-" }),
        })
        .collect()
}

struct Known {
    rule: Rule,
    /// what the trace shows, as far as it is known
    shown: Option<String>,
    multi: Option<multipass::Rule>,
}

fn shown(r: &Rule, multi: &Option<multipass::Rule>) -> Option<String> {
    let dots = |d: &Dots| match d {
        Dots::Eq => "=".to_string(),
        Dots::Cells(c) => c.clone(),
    };
    let side = |b: bool| if b { "before" } else { "after" };
    Some(match &r.op {
        Op::CharDef { kind, ch, cells } => format!("{kind} {ch} {cells}"),
        Op::Base { class, derived, base } => format!("base {class} {derived} {base}"),
        Op::Ind { name, cells } => format!("{name} {cells}"),
        Op::EndCapsPhrase { before, cells } => format!("endcapsphrase {} {cells}", side(*before)),
        Op::EmphDots { which, class, cells } => format!("{which} {class} {cells}"),
        Op::EndEmphPhrase { class, before, cells } => format!("endemphphrase {class} {} {cells}", side(*before)),
        Op::Trans { kind, chars, dots: d } => format!("{kind} {chars} {}", dots(d)),
        Op::Contraction(c) => format!("contraction {c}"),
        Op::Undefined(c) => format!("undefined {c}"),
        Op::Multi { stage, test, action } => {
            let t = shown_test(test)?;
            if action.contains('\\') {
                return None;
            }
            format!("{stage} {t} {}", shown_action(&multi.as_ref()?.acts))
        }
        _ => return None,
    })
}

fn opcode(r: &Rule) -> String {
    match &r.op {
        Op::CharDef { kind, .. } | Op::Trans { kind, .. } => kind.clone(),
        Op::Base { .. } => "base".into(),
        Op::Ind { name, .. } => name.clone(),
        Op::EndCapsPhrase { .. } => "endcapsphrase".into(),
        Op::EmphDots { which, .. } => which.clone(),
        Op::EndEmphPhrase { .. } => "endemphphrase".into(),
        Op::Contraction(_) => "contraction".into(),
        Op::Undefined(_) => "undefined".into(),
        Op::Multi { stage, .. } => stage.clone(),
        Op::Match { .. } => "match".into(),
        _ => "".into(),
    }
}

/// the same up to letter case
fn alike(a: &str, b: &str) -> bool {
    let low = |x: &str| x.to_lowercase();
    a == b || low(a) == low(b) || a.to_uppercase() == b.to_uppercase()
}

struct Table {
    rules: Vec<Known>,
    by_shown: HashMap<String, Vec<usize>>,
    /// opcodes of lines that only the system can read
    unread: Vec<String>,
    ctx: Ctx,
    ctx_mine: Ctx,
    backward: bool,
}

impl Table {
    fn new(text: &str, backward: bool) -> Table {
        let mut all = vec![];
        let mut unread = vec![];
        for (i, l) in text.lines().enumerate() {
            match parse::line(i + 1, l) {
                Ok(Some(r)) => all.push(r),
                Ok(None) => {}
                Err(_) => unread.extend(trace::opcode_of(l, backward).map(|o| o.0)),
            }
        }
        let mine = |r: &&Rule| match r.dir {
            Dir::Both => true,
            Dir::ForwardOnly => !backward,
            Dir::BackwardOnly => backward,
        };
        let ctx = Ctx::new(all.iter());
        let ctx_mine = Ctx::new(all.iter().filter(mine).cloned().collect::<Vec<_>>().iter());
        let mut t = Table { rules: vec![], by_shown: HashMap::new(), unread, ctx, ctx_mine, backward };
        for r in all.iter().filter(mine) {
            let multi = match &r.op {
                Op::Multi { test, action, .. } => multipass::rule(test, action, &|_: &str| Default::default(), r.dir),
                _ => None,
            };
            let shown = shown(r, &multi);
            if let Some(s) = &shown {
                t.by_shown.entry(s.clone()).or_default().push(t.rules.len());
            }
            t.rules.push(Known { rule: r.clone(), shown, multi });
        }
        t
    }

    /// whether the rule takes `input` and gives `output`; `None` if it is not known
    fn explains(&self, k: &Known, input: &str, output: &str) -> Option<bool> {
        let pair = |chars: &str, cells: &str| {
            if self.backward {
                input == cells && alike(output, chars)
            } else {
                alike(input, chars) && output == cells
            }
        };
        let mark = |cells: &str| {
            // in text that is already print, indicators can be added backward too
            (input.is_empty() && output == cells) || (self.backward && input == cells && output.is_empty())
        };
        let to = |chars: &str, d: &Dots| match d {
            Dots::Cells(c) => Some(c.clone()),
            Dots::Eq => self.ctx_mine.implicit(chars),
        };
        Some(match &k.rule.op {
            Op::CharDef { ch, cells, .. } => {
                if self.backward {
                    pair(&ch.to_string(), cells)
                } else {
                    input == ch.to_string() && output == cells
                }
            }
            Op::Base { derived, base, .. } => {
                let mut d = [derived, base].into_iter().filter_map(|c| self.ctx_mine.def.get(c)).peekable();
                d.peek()?;
                d.any(|d| if self.backward { pair(&derived.to_string(), d) } else { input == derived.to_string() && output == d })
            }
            Op::Ind { cells, .. } | Op::EndCapsPhrase { cells, .. } | Op::EmphDots { cells, .. } | Op::EndEmphPhrase { cells, .. } => mark(cells),
            Op::Undefined(c) => output == c,
            Op::Trans { chars, dots, .. } => pair(chars, &to(chars, dots)?),
            // these work on print, whatever the direction
            Op::Match { chars, dots, .. } => alike(input, chars) && output == to(chars, dots)?,
            Op::Contraction(chars) => pair(chars, &self.ctx_mine.implicit(chars)?),
            Op::Multi { .. } => {
                let mut o = String::new();
                for a in &k.multi.as_ref()?.acts {
                    match a {
                        Act::Str(s) => o.push_str(s),
                        Act::Copy => o.push_str(input),
                        Act::Swap(n) => {
                            let m = self.ctx.swaps.get(n)?;
                            for c in input.chars() {
                                match m.get(&c) {
                                    Some(x) => o.push_str(x),
                                    None => o.push(c),
                                }
                            }
                        }
                        _ => {}
                    }
                }
                // backward, capitals can have been marked in front
                o == output || (self.backward && alike(&o, output))
            }
            _ => return None,
        })
    }

    /// what is wrong with the name of a step
    fn judge(&self, name: &str, input: &str, output: &str, st: &mut Stats) -> Result<(), String> {
        let op = name.split([' ', '\n']).next().unwrap_or("").to_string();
        st.hit(&format!("named:{op}"));
        if let Some(v) = self.by_shown.get(name) {
            let x: Vec<_> = v.iter().map(|i| self.explains(&self.rules[*i], input, output)).collect();
            if x.iter().any(|x| *x != Some(false)) {
                return Ok(());
            }
            return Err(format!("this rule of line {} does not", self.rules[v[0]].rule.line));
        }
        if self.unread.contains(&op) {
            st.hit("names_of_lines_not_read");
            return Ok(());
        }
        // patterns and escapes are shown in a way of their own
        let mut same = self.rules.iter().filter(|k| k.shown.is_none() && opcode(&k.rule) == op).peekable();
        if same.peek().is_none() {
            return Err("the table has no such rule for this direction".into());
        }
        let fits = |k: &Known| match &k.rule.op {
            Op::Match { chars, dots, .. } => {
                let d = match dots {
                    Dots::Eq => "=",
                    Dots::Cells(c) => c,
                };
                name.contains(&format!(" {chars} ")) && name.ends_with(&format!(" {d}"))
            }
            _ => true,
        };
        if same.any(|k| fits(k) && self.explains(k, input, output) != Some(false)) {
            return Ok(());
        }
        Err("no rule of the table with this name does".into())
    }
}

#[cfg(feature = "hook")]
fn check(c: &Case, st: &mut Stats) -> Outcome {
    let (t, text) = match trace::usable(c) {
        Ok(x) => x,
        Err(o) => return o,
    };
    st.hit("tables");
    let table = Table::new(&text, c.backward);
    let o = sut::options(&c.spans);
    for i in &c.inputs {
        let tr = match sut::guarded(|| louis::verif::trace(&t, i, &o)) {
            Ok(x) => x,
            Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
        };
        let mut key = 0;
        let mut steps = String::new();
        for (n, g) in tr.iter().flatten().enumerate() {
            let verdict = match &g.rule {
                Some(name) => {
                    let op = name.split(' ').next().unwrap_or("");
                    let stage = match op {
                        "correct" => "Pre",
                        "pass2" => "Pass2",
                        "pass3" => "Pass3",
                        "pass4" => "Pass4",
                        _ => "Main",
                    };
                    if g.stage != stage {
                        return Outcome::Violation(format!("step {} of {i:?} is made by {name:?} in {}", n + 1, g.stage));
                    }
                    let class = name.split(' ').nth(1).unwrap_or("");
                    if op.contains("emph") && g.input.is_empty() && !c.spans.iter().any(|s| s.0 == class) {
                        return Outcome::Violation(format!("step {} of {i:?} is made by {name:?} although there is no {class}", n + 1));
                    }
                    key = mix(key ^ hash_str(name)).wrapping_add(hash_str(&g.output));
                    if steps.len() < 200 {
                        steps.push_str(&format!("{:?}>{:?} by {name:?} ", g.input, g.output));
                    }
                    table.judge(name, &g.input, &g.output, st).map_err(|e| format!("is said to be made by {name:?}: {e}"))
                }
                None => {
                    st.hit("unnamed");
                    if g.stage != "Main" {
                        (g.input == g.output).then_some(()).ok_or("changes the text without a rule".to_string())
                    } else if g.input.chars().count() != 1 {
                        Err("is not a character without a definition and has no rule".into())
                    } else {
                        // a character of which the table says nothing
                        let x = g.input.chars().next().unwrap();
                        let own = table.rules.iter().find(|k| match &k.rule.op {
                            Op::CharDef { ch, .. } => !c.backward && *ch == x,
                            _ => false,
                        });
                        match own {
                            Some(k) if table.explains(k, &g.input, &g.output) == Some(true) && c.spans.is_empty() && !text.contains("compbrl") => {
                                Err(format!("is what line {} says and has no rule", k.rule.line))
                            }
                            _ => Ok(()),
                        }
                    }
                }
            };
            if let Err(e) = verdict {
                return Outcome::Violation(format!("step {} of {i:?}, {:?} to {:?} in {}, {e}", n + 1, g.input, g.output, g.stage));
            }
        }
        if key == 0 {
            st.trivial();
        } else {
            st.eval(key);
            st.sample(|| format!("{i:?}: {steps}"));
        }
    }
    if !c.get("cli").is_empty() {
        return printed(&text, &t, c, st);
    }
    Outcome::Ok
}

/// what the tool prints, cell by cell
#[cfg(feature = "hook")]
fn printed(text: &str, t: &louis::Translator, c: &Case, st: &mut Stats) -> Outcome {
    let w = Case { files: vec![("t.ctb".into(), text.to_string())], ..Default::default() };
    let f = mcheck::write_files(&w).join("t.ctb");
    let f = f.to_string_lossy().to_string();
    for i in c.inputs.iter().take(3) {
        if i.starts_with('-') || i.chars().any(|c| c.is_control()) {
            continue;
        }
        let tr = match sut::guarded(|| louis::verif::trace(t, i, &Default::default())) {
            Ok(x) => x,
            Err(p) => return Outcome::Violation(format!("tracing {i:?} panics: {p}")),
        };
        let rows: Vec<Vec<String>> = tr
            .iter()
            .flatten()
            .filter(|g| g.stage == "Main" || g.rule.is_some())
            .enumerate()
            .map(|(n, g)| vec![(n + 1).to_string(), g.input.clone(), g.output.clone(), g.rule.clone().unwrap_or_default(), g.stage.clone()])
            .collect();
        let odd = |x: &str| x.chars().any(|c| c.is_control() || "\u{2028}\u{2029}│".contains(c));
        if rows.iter().flatten().any(|x| odd(x)) || tr.last().is_some_and(|s| s.iter().any(|g| odd(&g.output))) {
            continue;
        }
        let mut args = vec!["trace", f.as_str(), i.as_str()];
        if c.backward {
            args.extend(["-d", "backward"]);
        }
        if c.get("cli") == "2" {
            args.extend(["-s", "table"]);
        }
        let out = match cli::run(&args, None) {
            Ok(o) => o,
            Err(e) => return Outcome::Skip(e),
        };
        if let Some(m) = out.crash {
            return Outcome::Violation(format!("louis trace of {i:?} {m}"));
        }
        let lines: Vec<Vec<String>> = out
            .stdout
            .lines()
            .skip(1)
            .filter(|l| l.starts_with('│'))
            .map(|l| {
                let v: Vec<&str> = l.split('│').collect();
                v[1..v.len() - 1].iter().map(|x| x.trim().to_string()).collect()
            })
            .collect();
        let expected: Vec<Vec<String>> = [vec!["".to_string(), "From".into(), "To".into(), "Rule".into(), "Stage".into()]]
            .into_iter()
            .chain(rows)
            .map(|r| r.iter().map(|x| x.trim().to_string()).collect())
            .collect();
        if lines != expected {
            let n = lines.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(lines.len().min(expected.len()));
            return Outcome::Violation(format!("row {n} of louis trace of {i:?} is {:?} instead of {:?}", lines.get(n), expected.get(n)));
        }
        st.count("rows_printed", lines.len() as u64);
        st.eval(hash_str(&out.stdout));
    }
    Outcome::Ok
}

#[cfg(not(feature = "hook"))]
fn check(_c: &Case, _st: &mut Stats) -> Outcome {
    Outcome::Skip("only the hook tells the rules".into())
}

fn gen(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let mut c = engine::lengthen(trace::any_table(r, i, 5, 24)?, r);
    if i % 30 == 0 {
        c.set("cli", *r.pick(&["1", "2"]));
    }
    Some(c)
}

pub static C27: Prop = Prop {
    id: "C27",
    quick: 48000,
    thorough_secs: 240,
    gen,
    check,
    plain: sut::plain_run,
    fixed: no_fixed,
    shrink: true,
    rule: "the trace of one text whose every step was compared with the rule it names, or a printed trace compared cell by cell; distinct by the rules named and what they produced",
    assumptions: &["of a match pattern only the characters and the cells are compared, not the notation of the pattern"],
};
