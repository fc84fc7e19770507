//! The monitor that compares every stage of a translation with what the model allows
use crate::case::Case;
use crate::model::parse::{self, Op, Rule};
use crate::model::pipe::{Refused, Seg, Table, Verdict};
use crate::run::Outcome;
use crate::sut::{self, Load};
use crate::util::{hash_str, mix, Stats};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct StageObs {
    pub stage: String,
    pub input: String,
    pub output: String,
    pub segs: Vec<(String, String, Option<String>)>,
}

/// the stages as the hook reports them
#[cfg(feature = "hook")]
pub fn observe(t: &louis::Translator, input: &str, spans: &[(String, usize, usize)]) -> Result<Vec<StageObs>, String> {
    let tr = sut::guarded(|| louis::verif::trace(t, input, &sut::options(spans)))?;
    let mut v = vec![];
    let mut cur = input.to_string();
    for st in tr {
        let mut o = StageObs { stage: String::new(), input: cur.clone(), output: String::new(), segs: vec![] };
        for s in st {
            o.stage = format!("{}", s.stage);
            o.output.push_str(&s.output);
            o.segs.push((s.input.clone(), s.output.clone(), s.rule.clone()));
        }
        cur = o.output.clone();
        v.push(o);
    }
    Ok(v)
}

pub fn opcode(r: &Rule) -> String {
    match &r.op {
        Op::Trans { kind, .. } => kind.clone(),
        Op::CharDef { kind, .. } => kind.clone(),
        Op::Match { .. } => "match".into(),
        Op::Multi { stage, .. } => stage.clone(),
        Op::Base { .. } => "base".into(),
        _ => "other".into(),
    }
}

pub fn show_segs(s: &[Seg]) -> String {
    s.iter().map(|s| format!("{:?}>{:?}@{}", s.input, s.output, s.line)).collect::<Vec<_>>().join(" ")
}

/// names of the applied opcodes; whether one of those the monitor is about was applied (`+` stands
/// for inserted indicators, `-` for undefined characters, `*` for everything but definitions)
pub fn observe_segs(rules: &[Rule], segs: &[Seg], about: &[&str], st: &mut Stats) -> bool {
    let mut interesting = false;
    for s in segs {
        if s.line > 0 {
            if let Some(r) = rules.iter().find(|r| r.line == s.line) {
                let o = opcode(r);
                if about.contains(&o.as_str())
                    || (about.contains(&"*") && !matches!(r.op, Op::CharDef { .. } | Op::Base { .. }))
                {
                    interesting = true;
                }
                st.hit(&format!("applied:{o}"));
            }
        } else if s.input.is_empty() && !s.output.is_empty() {
            st.hit("indicators");
            interesting |= about.contains(&"+");
        } else {
            st.hit("passed_or_fallback");
            interesting |= about.contains(&"-");
        }
    }
    interesting
}

pub struct Loaded {
    pub rules: Vec<Rule>,
    pub model: Table,
    pub t: louis::Translator,
}

thread_local! {
    static REAL: RefCell<HashMap<(String, bool), Rc<Loaded>>> = RefCell::new(HashMap::new());
}

/// write the files of the case into the directory where includes are looked up
pub fn write_files(case: &Case) -> std::path::PathBuf {
    let dir = crate::run::table_dir();
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(&dir);
    for (name, text) in &case.files {
        let p = dir.join(name);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        // other things than texts
        if text == "\u{1}dir" {
            let _ = std::fs::create_dir_all(p);
        } else if let Some(to) = text.strip_prefix("\u{1}link:") {
            let _ = std::os::unix::fs::symlink(to, p);
        } else if let Some(hex) = text.strip_prefix("\u{1}hex:") {
            let b: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
            let _ = std::fs::write(p, b);
        } else {
            let _ = std::fs::write(p, text);
        }
    }
    dir
}

pub fn load(case: &Case) -> Result<Rc<Loaded>, Outcome> {
    let real = case.get("real");
    if real.is_empty() {
        return load_one(case).map(Rc::new);
    }
    let key = (real.to_string(), case.backward);
    if let Some(l) = REAL.with(|r| r.borrow().get(&key).cloned()) {
        return Ok(l);
    }
    let c = Case { table: crate::realtab::get(real).modelled, backward: case.backward, ..Default::default() };
    let l = Rc::new(load_one(&c)?);
    REAL.with(|r| r.borrow_mut().insert(key, l.clone()));
    Ok(l)
}

/// load the table of the case into the system and the model
fn load_one(case: &Case) -> Result<Loaded, Outcome> {
    if !case.files.is_empty() {
        let dir = write_files(case);
        let path = dir.join(&case.files[0].0);
        let rules = parse::file(&path, &[dir.clone()], 0).map_err(|e| Outcome::Skip(format!("not in the model: {e}")))?;
        let model = match Table::new(&rules, case.backward) {
            Ok(m) => m,
            Err(_) => return Err(Outcome::Skip("not in the model".into())),
        };
        return match sut::load_files(&[path], case.backward) {
            Load::Ok(t) => Ok(Loaded { rules, model, t }),
            Load::Rejected(e) => Err(Outcome::Violation(format!("a valid table is rejected: {}", e.join("; ")))),
            Load::Panicked(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
        };
    }
    let rules = match parse::table(&case.table) {
        Ok(r) => r,
        Err(e) => return Err(Outcome::Skip(format!("not in the model: {}", e.split_whitespace().nth(2).unwrap_or("")))),
    };
    let model = match Table::new(&rules, case.backward) {
        Ok(m) => m,
        Err(Refused::Unsupported(_)) => return Err(Outcome::Skip("not in the model".into())),
        Err(Refused::Invalid(w)) => {
            return Err(match sut::load(&case.table, case.backward) {
                Load::Ok(_) => Outcome::Violation(format!("the table loads although {w}")),
                Load::Rejected(_) => Outcome::Ok,
                Load::Panicked(p) => Outcome::Violation(format!("loading panics: {p}")),
            })
        }
    };
    match sut::load(&case.table, case.backward) {
        Load::Ok(t) => Ok(Loaded { rules, model, t }),
        Load::Rejected(e) => Err(Outcome::Violation(format!("a valid table is rejected: {}", e.join("; ")))),
        Load::Panicked(p) => Err(Outcome::Violation(format!("loading panics: {p}"))),
    }
}

/// does the observed translation agree with the model?
pub fn judge(l: &Loaded, input: &str, spans: &[(String, usize, usize)], about: &[&str], st: &mut Stats) -> Outcome {
    let out = match sut::translate(&l.t, input, spans) {
        Ok(o) => o,
        Err(e) => return Outcome::Violation(format!("translating {input:?}: {e}")),
    };
    #[cfg(feature = "hook")]
    {
        let obs = match observe(&l.t, input, spans) {
            Ok(o) => o,
            Err(e) => return Outcome::Violation(format!("tracing {input:?}: panic: {e}")),
        };
        if obs.len() != l.model.passes.len() {
            return Outcome::Violation(format!(
                "{} stages are run, the table has rules for {}",
                obs.len(),
                l.model.passes.len()
            ));
        }
        let last = obs.last().map(|o| o.output.clone()).unwrap_or_default();
        if last != out {
            return Outcome::Violation(format!("translating {input:?} gives {out:?} but the trace ends with {last:?}"));
        }
        let mut unknown = None;
        for (i, o) in obs.iter().enumerate() {
            let name = l.model.passes[i].0.name();
            if !o.stage.is_empty() && o.stage != name {
                return Outcome::Violation(format!("stage {i} is {} instead of {name}", o.stage));
            }
            let sp: &[(String, usize, usize)] = if name == "Main" { spans } else { &[] };
            match l.model.judge_stage(i, &o.input, sp, &o.output) {
                Verdict::Same(segs) => {
                    if observe_segs(&l.rules, &segs, about, st) {
                        let mut k = hash_str(&o.input);
                        for s in &segs {
                            k = mix(k ^ s.line as u64).wrapping_add(hash_str(&s.output));
                        }
                        st.eval(k);
                        st.sample(|| format!("{name}: {:?} -> {:?} by {}", o.input, o.output, show_segs(&segs)));
                    } else {
                        st.trivial();
                    }
                    st.hit(&format!("stage:{name}"));
                }
                Verdict::Different { expected, segs } => {
                    return Outcome::Violation(format!(
                        "{name} of {:?} gives\n  {:?}, expected\n  {:?}\n  expected pieces: {}\n  observed pieces: {}",
                        o.input,
                        o.output,
                        expected,
                        show_segs(&segs),
                        o.segs.iter().map(|(a, b, r)| format!("{a:?}>{b:?} [{}]", r.as_deref().unwrap_or(""))).collect::<Vec<_>>().join(" ")
                    ));
                }
                Verdict::Unknown(w) => unknown = Some(w),
            }
        }
        match unknown {
            Some(w) => Outcome::Skip(w),
            None => Outcome::Ok,
        }
    }
    #[cfg(not(feature = "hook"))]
    match l.model.judge(input, spans, &out) {
        Verdict::Same(segs) => {
            if observe_segs(&l.rules, &segs, about, st) {
                st.eval(mix(hash_str(input)).wrapping_add(hash_str(&out)));
                st.sample(|| format!("{input:?} -> {out:?} by {}", show_segs(&segs)));
            } else {
                st.trivial();
            }
            Outcome::Ok
        }
        Verdict::Different { expected, segs } => Outcome::Violation(format!(
            "translating {input:?} gives\n  {out:?}, expected\n  {expected:?}\n  expected pieces: {}",
            show_segs(&segs)
        )),
        Verdict::Unknown(w) => Outcome::Skip(w),
    }
}

pub fn check(case: &Case, about: &[&str], st: &mut Stats) -> Outcome {
    let l = match load(case) {
        Ok(l) => l,
        Err(o) => return o,
    };
    st.hit("tables");
    let mut skip = None;
    for i in &case.inputs {
        st.hit("texts");
        match judge(&l, i, &case.spans, about, st) {
            Outcome::Ok => {}
            Outcome::Skip(w) => skip = Some(w),
            v => return v,
        }
    }
    match skip {
        Some(w) => Outcome::Skip(w),
        None => Outcome::Ok,
    }
}
