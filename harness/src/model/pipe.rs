//! The stages of a table, run with or without knowledge of what came out
use super::ctx::Ctx;
use super::indic::{Config, Spans};
use super::main_stage::Main;
use super::multipass::{self, Cand};
use super::parse::{Dir, Op, Rule};
use std::collections::HashSet;

/// Where several rules are equally good the choice is free. A chooser explores the choices, guided
/// by the output that was observed.
#[derive(Default)]
pub struct Chooser {
    target: Option<Vec<char>>,
    out: Vec<char>,
    script: Vec<usize>,
    log: Vec<usize>,
    at: usize,
    diverged: Option<usize>,
    pub segs: Vec<Seg>,
    steps: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub input: String,
    pub output: String,
    /// the line of the rule, 0 if there is none
    pub line: usize,
}

impl Chooser {
    fn new(target: Option<&str>, script: Vec<usize>) -> Chooser {
        Chooser { target: target.map(|t| t.chars().collect()), script, ..Default::default() }
    }
    fn fits(&self, s: &str) -> bool {
        match &self.target {
            None => true,
            Some(t) => {
                let s: Vec<char> = s.chars().collect();
                t.get(self.out.len()..).is_some_and(|r| r.starts_with(&s))
            }
        }
    }
    pub fn fixed(&mut self, input: &str, output: &str, line: usize) {
        if self.diverged.is_none() && !self.fits(output) {
            self.diverged = Some(self.out.len());
        }
        self.out.extend(output.chars());
        self.segs.push(Seg { input: input.into(), output: output.into(), line });
    }
    pub fn choose(&mut self, options: &[Cand]) -> Result<Cand, String> {
        self.choose_by(options, |c| c.output.clone())
    }
    pub fn choose_by(&mut self, options: &[Cand], out: impl Fn(&Cand) -> String) -> Result<Cand, String> {
        self.steps += 1;
        if self.steps > 200_000 || self.out.len() > 4_000_000 {
            return Err("the model does not end".into());
        }
        let mut distinct: Vec<&Cand> = vec![];
        for c in options.iter().rev() {
            if !distinct
                .iter()
                .any(|d| d.output == c.output && d.len == c.len && d.effects == c.effects && d.input == c.input)
            {
                distinct.push(c);
            }
        }
        let mut feasible: Vec<&Cand> =
            distinct.iter().filter(|c| self.fits(&out(c))).cloned().collect();
        if feasible.is_empty() || self.diverged.is_some() {
            feasible = distinct;
            feasible.truncate(1);
        }
        let k = if feasible.len() > 1 {
            let k = self.script.get(self.at).copied().unwrap_or(0).min(feasible.len() - 1);
            if self.at < self.log.len() {
                self.log[self.at] = feasible.len();
            } else {
                self.log.push(feasible.len());
            }
            if self.at >= self.script.len() {
                self.script.push(0);
            }
            self.at += 1;
            k
        } else {
            0
        };
        let c = feasible[k].clone();
        let o = out(&c);
        self.fixed(&c.input, &o, c.line);
        Ok(c)
    }
    pub fn output(&self) -> String {
        self.out.iter().collect()
    }
    fn next_script(&self) -> Option<Vec<usize>> {
        let mut s = self.script[..self.at].to_vec();
        while let Some(l) = s.pop() {
            if l + 1 < self.log[s.len()] {
                s.push(l + 1);
                return Some(s);
            }
        }
        None
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Pre,
    Main,
    Pass2,
    Pass3,
    Pass4,
}

impl Stage {
    pub fn name(&self) -> &'static str {
        match self {
            Stage::Pre => "Pre",
            Stage::Main => "Main",
            Stage::Pass2 => "Pass2",
            Stage::Pass3 => "Pass3",
            Stage::Pass4 => "Pass4",
        }
    }
}

pub struct Table {
    pub ctx_all: Ctx,
    pub main: Main,
    pub passes: Vec<(Stage, Vec<(usize, multipass::Rule)>)>,
    pub backward: bool,
}

/// What a table means for one direction, `Err` if it is outside of the model
#[derive(Debug)]
pub enum Refused {
    Unsupported(String),
    /// loading has to fail
    Invalid(String),
}

pub enum Verdict {
    /// the output is one that the model allows
    Same(Vec<Seg>),
    Different { expected: String, segs: Vec<Seg> },
    /// too many choices
    Unknown(String),
}

impl Table {
    pub fn new(rules: &[Rule], backward: bool) -> Result<Table, Refused> {
        let ctx_all = Ctx::new(rules.iter());
        let mine: Vec<&Rule> = rules
            .iter()
            .filter(|r| match r.dir {
                Dir::Both => true,
                Dir::ForwardOnly => !backward,
                Dir::BackwardOnly => backward,
            })
            .collect();
        let main = Main::new(&mine, backward)?;
        let mut passes = vec![];
        for (stage, op) in [
            (Stage::Pre, "correct"),
            (Stage::Main, ""),
            (Stage::Pass2, "pass2"),
            (Stage::Pass3, "pass3"),
            (Stage::Pass4, "pass4"),
        ] {
            let mut v = vec![];
            let mut any = stage == Stage::Main;
            for r in &mine {
                if let Op::Multi { stage: s, test, action } = &r.op {
                    if s != op {
                        continue;
                    }
                    any = true;
                    let class = |n: &str| {
                        if stage == Stage::Pre { ctx_all.class(n).clone() } else { ctx_all.dclass(n).clone() }
                    };
                    let m = multipass::rule(test, action, &class, r.dir)
                        .ok_or(Refused::Unsupported(format!("line {}", r.line)))?;
                    if backward && !m.produces() {
                        continue;
                    }
                    if m.acts.iter().any(|a| matches!(a, multipass::Act::Swap(n) if !ctx_all.swaps.contains_key(n))) {
                        return Err(Refused::Invalid("swap class not defined".into()));
                    }
                    v.push((r.line, m));
                }
            }
            if any {
                passes.push((stage, v));
            }
        }
        if backward {
            passes.reverse();
        }
        Ok(Table { ctx_all, main, passes, backward })
    }

    fn run(&self, stage: usize, input: &[char], spans: &Spans, ch: &mut Chooser) -> Result<(), String> {
        let (s, rules) = &self.passes[stage];
        if *s == Stage::Main {
            self.main.run(input, spans, ch)
        } else {
            multipass::stage(rules, &self.ctx_all, input, ch)
        }
    }

    /// whether the stage can turn the input into the output
    pub fn judge_stage(&self, stage: usize, input: &str, spans: &Spans, observed: &str) -> Verdict {
        let t: Vec<char> = input.chars().collect();
        let mut script = vec![];
        let mut first: Option<(String, Vec<Seg>)> = None;
        for _ in 0..256 {
            let mut ch = Chooser::new(Some(observed), script);
            if let Err(e) = self.run(stage, &t, spans, &mut ch) {
                return Verdict::Unknown(e);
            }
            if ch.output() == observed {
                return Verdict::Same(ch.segs);
            }
            let next = ch.next_script();
            if first.is_none() {
                first = Some((ch.output(), ch.segs));
            }
            match next {
                Some(s) => script = s,
                None => {
                    let (expected, segs) = first.unwrap();
                    return Verdict::Different { expected, segs };
                }
            }
        }
        Verdict::Unknown("too many equally good choices".into())
    }

    /// all outputs the stage can have, as far as there are not too many
    fn outputs(&self, stage: usize, input: &str, spans: &Spans) -> Result<HashSet<String>, String> {
        let t: Vec<char> = input.chars().collect();
        let mut script = vec![];
        let mut all = HashSet::new();
        for _ in 0..256 {
            let mut ch = Chooser::new(None, script);
            self.run(stage, &t, spans, &mut ch)?;
            all.insert(ch.output());
            match ch.next_script() {
                Some(s) => script = s,
                None => return Ok(all),
            }
        }
        Err("too many equally good choices".into())
    }

    /// whether the whole pipeline can turn the input into the output
    pub fn judge(&self, input: &str, spans: &Spans, observed: &str) -> Verdict {
        let mut inputs: Vec<String> = vec![input.to_string()];
        let last = self.passes.len() - 1;
        for stage in 0..last {
            let mut next = HashSet::new();
            for i in &inputs {
                match self.outputs(stage, i, spans) {
                    Ok(o) => next.extend(o),
                    Err(e) => return Verdict::Unknown(e),
                }
            }
            if next.len() > 64 {
                return Verdict::Unknown("too many equally good choices".into());
            }
            inputs = next.into_iter().collect();
            inputs.sort();
        }
        let mut worst = None;
        for i in &inputs {
            match self.judge_stage(last, i, spans, observed) {
                v @ Verdict::Same(_) => return v,
                v @ Verdict::Unknown(_) => worst = Some(v),
                v => {
                    if worst.is_none() {
                        worst = Some(v)
                    }
                }
            }
        }
        worst.unwrap()
    }

    /// one of the translations that the model allows
    pub fn translate(&self, input: &str, spans: &Spans) -> Result<String, String> {
        let mut s = input.to_string();
        for stage in 0..self.passes.len() {
            let t: Vec<char> = s.chars().collect();
            let mut ch = Chooser::new(None, vec![]);
            self.run(stage, &t, spans, &mut ch)?;
            s = ch.output();
        }
        Ok(s)
    }

    pub fn config(&self) -> &Config {
        &self.main.config
    }
}
