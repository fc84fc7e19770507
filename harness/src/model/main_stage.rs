//! The main stage: character definitions, translation rules, match and context rules, indicators
use super::ctx::{Ctx, Set};
use super::hyph::Hyph;
use super::indic::{plan, Config, Spans};
use super::multipass::{self, Cand, Key};
use super::parse::*;
use super::pipe::{Chooser, Refused};
use super::re::{fold, Env, Prog, Re};
use std::collections::{HashMap, HashSet};

/// a condition on the character next to the characters of a rule
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Cond {
    set: Vec<char>,
    /// holds at the end of the text, too
    edge: bool,
}

impl Cond {
    fn new(ctx: &HashMap<String, Set>, classes: &[&str]) -> Cond {
        let mut set: Vec<char> =
            classes.iter().flat_map(|c| ctx.get(*c).into_iter().flatten()).cloned().collect();
        set.sort();
        set.dedup();
        Cond { set, edge: classes.contains(&"space") }
    }
    fn holds(&self, c: Option<char>) -> bool {
        match c {
            None => self.edge,
            Some(c) => self.set.binary_search(&c).is_ok(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Path {
    start: Vec<Cond>,
    chars: Vec<char>,
    end: Vec<Cond>,
    /// order of the conditions: those of a class are outside of those of the opcode
    own_start: usize,
}

#[derive(Clone, Debug)]
struct Entry {
    path: Path,
    to: String,
    prec: u8,
    punct: Option<bool>,
    line: usize,
}

#[derive(Default, Debug)]
struct Rules {
    entries: Vec<Entry>,
    by_path: HashMap<Path, usize>,
    by_first: HashMap<char, Vec<usize>>,
}

impl Rules {
    /// rules with the same characters and conditions: the higher precedence, then the first one
    fn add(&mut self, e: Entry) {
        if e.path.chars.is_empty() {
            return;
        }
        match self.by_path.get(&e.path) {
            Some(&i) => {
                if e.prec > self.entries[i].prec {
                    self.entries[i] = e;
                }
            }
            None => {
                let i = self.entries.len();
                self.by_path.insert(e.path.clone(), i);
                self.by_first.entry(e.path.chars[0]).or_default().push(i);
                self.entries.push(e);
            }
        }
    }

    fn at(&self, t: &[char], pos: usize) -> Vec<Cand> {
        let mut v = vec![];
        let Some(first) = t.get(pos).and_then(|c| fold(*c)) else { return v };
        for &i in self.by_first.get(&first).into_iter().flatten() {
            let e = &self.entries[i];
            let n = e.path.chars.len();
            if pos + n > t.len() || !e.path.chars.iter().zip(&t[pos..]).all(|(a, b)| fold(*b) == Some(*a)) {
                continue;
            }
            let prev = if pos > 0 { Some(t[pos - 1]) } else { None };
            let next = t.get(pos + n).copied();
            if e.path.start.iter().all(|c| c.holds(prev)) && e.path.end.iter().all(|c| c.holds(next)) {
                v.push(Cand {
                    input: e.path.chars.iter().collect(),
                    output: e.to.clone(),
                    len: n,
                    weight: n + e.path.start.len() + e.path.end.len(),
                    effects: vec![],
                    context: false,
                    punct: e.punct,
                    line: e.line,
                });
            }
        }
        v
    }
}

struct MatchRule {
    prog: Prog,
    chars: String,
    to: String,
    line: usize,
}

pub struct Main {
    pub backward: bool,
    pub ctx: Ctx,
    pub config: Config,
    chars: HashMap<char, (String, usize)>,
    undefined: Option<String>,
    rules: Rules,
    nocross: Rules,
    comp6: Rules,
    matches: Vec<MatchRule>,
    contexts: Vec<(usize, multipass::Rule)>,
    hyph: Option<Hyph>,
    // backward
    digits: HashMap<char, (String, usize)>,
    caps: [Option<String>; 3],
    num: [Option<String>; 2],
    letter_cells: Set,
    /// cells that continue a capital word: also those of letters of several cells
    caps_cells: Set,
    digit_cells: Set,
}

fn precedence(kind: &str) -> u8 {
    match kind {
        "word" | "begword" | "sufword" | "midword" | "midendword" | "endword" | "begmidword" | "joinword"
        | "begnum" | "midnum" | "endnum" | "always" => 2,
        "capsletter" | "begcapsword" | "endcapsword" | "numsign" | "nonumsign" => 1,
        _ => 0,
    }
}

const NABCC: &[(char, &str)] = &[
    ('0', "356"), ('1', "2"), ('2', "23"), ('3', "25"), ('4', "256"), ('5', "26"), ('6', "235"),
    ('7', "2356"), ('8', "236"), ('9', "35"), ('a', "1"), ('b', "12"), ('c', "14"), ('d', "145"),
    ('e', "15"), ('f', "124"), ('\\', "1256"), ('x', "1346"),
];

impl Main {
    pub fn new(rules: &[&Rule], backward: bool) -> Result<Main, Refused> {
        let ctx = Ctx::new(rules.iter().copied());
        let config = Config::new(rules.iter().copied());
        let classes = if backward { ctx.dclasses.clone() } else { ctx.classes.clone() };
        let mut m = Main {
            backward,
            config,
            chars: HashMap::new(),
            undefined: None,
            rules: Rules::default(),
            nocross: Rules::default(),
            comp6: Rules::default(),
            matches: vec![],
            contexts: vec![],
            hyph: None,
            digits: HashMap::new(),
            caps: [None, None, None],
            num: [None, None],
            letter_cells: ctx.dclass("letter").clone(),
            caps_cells: Set::default(),
            digit_cells: ctx.dclass("digit").union(ctx.dclass("litdigit")).cloned().collect(),
            ctx,
        };
        let litdigits: HashSet<char> = rules
            .iter()
            .filter_map(|r| match &r.op {
                Op::CharDef { kind, ch, .. } if kind == "litdigit" => Some(*ch),
                _ => None,
            })
            .collect();
        let letter_dots: HashSet<&String> = rules
            .iter()
            .filter_map(|r| match &r.op {
                Op::CharDef { kind, cells, .. }
                    if matches!(kind.as_str(), "letter" | "lowercase" | "uppercase") =>
                {
                    Some(cells)
                }
                _ => None,
            })
            .collect();
        let entry = |from: &str, to: &str, start: Vec<Cond>, end: Vec<Cond>, own: usize, kind: &str, line: usize| {
            let (from, to) = if backward { (to, from) } else { (from, to) };
            Entry {
                path: Path { start, chars: from.chars().collect(), end, own_start: own },
                to: to.to_string(),
                prec: precedence(kind),
                punct: match kind {
                    "prepunc" => Some(true),
                    "postpunc" => Some(false),
                    _ => None,
                },
                line,
            }
        };
        let early = |k: &str| k == "decpoint" || k == "hyphen";
        let ordered = rules
            .iter()
            .filter(|r| matches!(&r.op, Op::CharDef { kind, .. } if early(kind)))
            .chain(rules.iter().filter(|r| !matches!(&r.op, Op::CharDef { kind, .. } if early(kind))));
        for r in ordered {
            match &r.op {
                Op::Undefined(d) => m.undefined = Some(d.clone()),
                Op::CharDef { kind, ch, cells } => {
                    if !backward && kind == "digit" && litdigits.contains(ch) {
                        continue;
                    }
                    if matches!(kind.as_str(), "letter" | "lowercase" | "uppercase") {
                        m.caps_cells.extend(cells.chars());
                    }
                    if backward {
                        m.rules.add(entry(&ch.to_string(), cells, vec![], vec![], 0, kind, r.line));
                        let mut it = cells.chars();
                        if let (true, Some(c), None) =
                            (kind.ends_with("digit") && letter_dots.contains(cells), it.next(), it.next())
                        {
                            m.digits.entry(c).or_insert((ch.to_string(), r.line));
                        }
                    } else {
                        m.chars.entry(*ch).or_insert((cells.clone(), r.line));
                    }
                }
                Op::Base { derived, base, .. } => {
                    if let Some(cells) = m.ctx.def.get(base) {
                        if backward {
                            m.rules.add(entry(&derived.to_string(), cells, vec![], vec![], 0, "", r.line));
                        } else {
                            m.chars.entry(*derived).or_insert((cells.clone(), r.line));
                        }
                    }
                }
                Op::Ind { name, cells } if backward => {
                    if letter_dots.contains(cells) {
                        continue;
                    }
                    let slot = match name.as_str() {
                        "numsign" => &mut m.num[0],
                        "nonumsign" => &mut m.num[1],
                        "capsletter" => &mut m.caps[0],
                        "begcapsword" => &mut m.caps[1],
                        "endcapsword" => &mut m.caps[2],
                        _ => continue,
                    };
                    *slot = Some(cells.clone());
                    m.rules.add(entry("", cells, vec![], vec![], 0, name, r.line));
                }
                Op::Contraction(chars) => {
                    let cells = m
                        .ctx
                        .implicit(chars)
                        .ok_or(Refused::Invalid("implicit character not defined".into()))?;
                    let b = Cond::new(&classes, &["space", "punctuation"]);
                    m.rules.add(entry(chars, &cells, vec![b.clone()], vec![b], 1, "contraction", r.line));
                }
                Op::Trans { kind, chars, dots } => {
                    let kind = kind.as_str();
                    if matches!(kind, "repeated" | "repword" | "joinnum") {
                        continue;
                    }
                    if (kind == "prepunc" || kind == "postpunc")
                        && !chars.chars().all(|c| m.ctx.is("punctuation", c))
                    {
                        continue;
                    }
                    let cells = match dots {
                        Dots::Cells(c) => c.clone(),
                        Dots::Eq => m
                            .ctx
                            .implicit(chars)
                            .ok_or(Refused::Invalid("implicit character not defined".into()))?,
                    };
                    let sp = || Cond::new(&classes, &["space", "punctuation"]);
                    let le = || Cond::new(&classes, &["letter"]);
                    let any = || Cond::new(&classes, &["letter", "space", "punctuation"]);
                    let di = || Cond::new(&classes, &["digit"]);
                    let word = (vec![sp()], vec![sp()]);
                    let beg = (vec![sp()], vec![le()]);
                    let end = (vec![le()], vec![sp()]);
                    let variants = match kind {
                        "word" | "joinword" | "lowword" => vec![word],
                        "begword" => vec![beg],
                        "midword" => vec![(vec![le()], vec![le()])],
                        "endword" => vec![end],
                        "midendword" => vec![(vec![le()], vec![any()])],
                        "begmidword" => vec![(vec![any()], vec![le()])],
                        "partword" => vec![(vec![le()], vec![]), (vec![], vec![le()])],
                        "prfword" => vec![word, end],
                        "sufword" => vec![word, beg],
                        "begnum" => vec![(vec![sp()], vec![di()])],
                        "midnum" => vec![(vec![di()], vec![di()])],
                        "endnum" => vec![(vec![di()], vec![])],
                        _ => vec![(vec![], vec![])],
                    };
                    let classy = matches!(
                        kind,
                        "always" | "word" | "sufword" | "prfword" | "begword" | "begmidword" | "midword"
                            | "midendword" | "endword" | "partword"
                    );
                    for (s, e) in variants {
                        let own = s.len();
                        let (mut start, mut end) = (vec![], e);
                        if classy {
                            for c in &r.after {
                                start.push(Cond::new(&classes, &[c.as_str()]));
                            }
                        }
                        start.extend(s);
                        if classy {
                            for c in &r.before {
                                end.push(Cond::new(&classes, &[c.as_str()]));
                            }
                        }
                        let x = entry(chars, &cells, start, end, own, kind, r.line);
                        if kind == "comp6" {
                            m.comp6.add(x);
                        } else if r.nocross {
                            m.nocross.add(x);
                        } else {
                            m.rules.add(x);
                        }
                    }
                    if backward && kind == "always" && chars.chars().all(|c| c.is_alphabetic()) {
                        match dots {
                            Dots::Eq => m.letter_cells.extend("=".chars()),
                            Dots::Cells(c) => m.letter_cells.extend(c.chars()),
                        };
                    }
                }
                Op::Match { pre, chars, post, dots } => {
                    let to = match dots {
                        Dots::Cells(c) => c.clone(),
                        Dots::Eq => m
                            .ctx
                            .implicit(chars)
                            .ok_or(Refused::Invalid("implicit character not defined".into()))?,
                    };
                    let class = |n: &str| m.ctx.class(n).clone();
                    let bad = || Refused::Unsupported(format!("line {}", r.line));
                    let a = super::re::match_pattern(pre, true, &class).ok_or_else(bad)?;
                    let b = super::re::match_pattern(post, false, &class).ok_or_else(bad)?;
                    let own = Re::Cat(chars.chars().map(Re::CharI).collect());
                    let prog = Prog::new(&Re::Cat(vec![a, Re::Capture(Box::new(own)), b]));
                    m.matches.push(MatchRule { prog, chars: chars.clone(), to, line: r.line });
                }
                Op::Multi { stage, test, action } if stage == "context" => {
                    let class = |n: &str| m.ctx.class(n).clone();
                    let c = multipass::rule(test, action, &class, r.dir)
                        .ok_or(Refused::Unsupported(format!("line {}", r.line)))?;
                    if c.acts.iter().any(|a| matches!(a, multipass::Act::Swap(n) if !m.ctx.swaps.contains_key(n))) {
                        return Err(Refused::Invalid("swap class not defined".into()));
                    }
                    m.contexts.push((r.line, c));
                }
                Op::Hyphenation(p) => {
                    let t = std::fs::read_to_string(p).map_err(|e| Refused::Unsupported(e.to_string()))?;
                    m.hyph = Some(Hyph::parse(&t).ok_or(Refused::Unsupported("dictionary".into()))?);
                }
                Op::Include(_) => return Err(Refused::Unsupported("include".into())),
                _ => {}
            }
        }
        if backward {
            m.hyph = None;
        }
        Ok(m)
    }

    /// set the hyphenation patterns without a file
    pub fn set_hyphenation(&mut self, text: &str) -> bool {
        if !self.backward {
            self.hyph = Hyph::parse(text);
        }
        self.backward || self.hyph.is_some()
    }

    fn fallback(&self, c: char) -> String {
        let mut s = String::from("\\x");
        s.push_str(&format!("{:x}", c as u32));
        s.chars()
            .map(|c| match self.ctx.def.get(&c) {
                Some(d) => d.clone(),
                None => NABCC
                    .iter()
                    .find(|(k, _)| *k == c)
                    .and_then(|(_, d)| cell_char(d))
                    .map(|c| c.to_string())
                    .unwrap_or_default(),
            })
            .collect()
    }

    fn breaks(&self, t: &[char]) -> Vec<bool> {
        let mut v = vec![false; t.len()];
        let Some(h) = &self.hyph else { return v };
        let mut i = 0;
        while i < t.len() {
            if !self.ctx.is("letter", t[i]) {
                i += 1;
                continue;
            }
            let s = i;
            while i < t.len() && self.ctx.is("letter", t[i]) {
                i += 1;
            }
            for (k, b) in h.breaks(&t[s..i]).into_iter().enumerate() {
                v[s + k] = b;
            }
        }
        v
    }

    /// letter case and number mode of a text in braille: (whole upper case, first letter, digit)
    fn modes(&self, t: &[char]) -> Vec<(bool, bool, bool)> {
        let n = t.len();
        let mut v = vec![(false, false, false); n];
        let starts = |p: usize, d: &Option<String>| -> usize {
            match d {
                Some(d) => {
                    let d: Vec<char> = d.chars().collect();
                    if t[p..].starts_with(&d) {
                        d.len()
                    } else {
                        0
                    }
                }
                None => 0,
            }
        };
        if self.caps[0].is_some() || self.caps[1].is_some() {
            let mut p = 0;
            while p < n {
                let k = starts(p, &self.caps[1]);
                if k > 0 {
                    p += k;
                    loop {
                        let e = starts(p, &self.caps[2]);
                        if e > 0 {
                            p += e;
                            break;
                        }
                        if p < n && (self.letter_cells.contains(&t[p]) || self.caps_cells.contains(&t[p])) {
                            v[p].0 = true;
                            p += 1;
                        } else {
                            break;
                        }
                    }
                    continue;
                }
                let k = starts(p, &self.caps[0]);
                if k > 0 {
                    p += k;
                    if p < n {
                        v[p].1 = true;
                    }
                    continue;
                }
                p += 1;
            }
        }
        if self.num[0].is_some() {
            let mut p = 0;
            let mut number = false;
            while p < n {
                let k = starts(p, &self.num[0]);
                if k > 0 && (p == 0 || !self.letter_cells.contains(&t[p - 1])) {
                    p += k;
                    number = true;
                    continue;
                }
                if number {
                    let e = starts(p, &self.num[1]);
                    if e > 0 {
                        p += e;
                        number = false;
                        continue;
                    }
                    if self.digit_cells.contains(&t[p]) {
                        v[p].2 = true;
                        p += 1;
                        continue;
                    }
                    number = false;
                }
                p += 1;
            }
        }
        v
    }

    fn punct_ok(&self, t: &[char], pos: usize, pre: bool) -> bool {
        if self.backward {
            return false;
        }
        let letter = |i: usize| self.ctx.is("letter", t[i]);
        let lod = |i: usize| letter(i) || self.ctx.is("digit", t[i]);
        let space = |i: usize| self.ctx.is("space", t[i]);
        if pre {
            if pos > 0 && letter(pos - 1) {
                return false;
            }
            (pos + 1..t.len()).find(|&i| lod(i) || space(i)).is_some_and(lod)
        } else {
            if pos + 1 < t.len() && letter(pos + 1) {
                return false;
            }
            (0..pos).rev().find(|&i| lod(i) || space(i)).is_some_and(lod)
        }
    }

    pub fn run(&self, t: &[char], spans: &Spans, ch: &mut Chooser) -> Result<(), String> {
        let n = t.len();
        let plan = plan(&self.config, &self.ctx, t, spans);
        let breaks = self.breaks(t);
        let modes = if self.backward { self.modes(t) } else { vec![(false, false, false); n] };
        let mut env = Env::new();
        let mut due: Vec<(usize, Cand)> = vec![];
        let mut seen: HashSet<Key> = HashSet::new();
        let mut pos = 0;
        let mut announced = None;
        loop {
            if announced != Some(pos) {
                for s in &plan.at[pos] {
                    ch.fixed("", s, 0);
                }
                announced = Some(pos);
            }
            let comp = |p: usize| plan.comp6.get(p).copied().unwrap_or(false);
            let free = |c: &Cand| (pos + 1..pos + c.len).all(|p| comp(p) == comp(pos));
            let open = |c: &Cand| (pos + 1..pos + c.len).all(|p| !plan.barrier[p]);
            let numeric = plan.numeric_run.get(pos).copied().unwrap_or(false);

            // rules that must not cross a hyphenation point
            let mut cross: Vec<Cand> = if comp(pos) { vec![] } else { self.nocross.at(t, pos) };
            cross.retain(|c| {
                (!numeric || c.len <= 1)
                    && free(c)
                    && open(c)
                    && c.punct.is_none_or(|pre| self.punct_ok(t, pos, pre))
                    && (pos..pos + c.len - 1).all(|p| !breaks[p])
            });

            let mut cands = self.rules.at(t, pos);
            for m in &self.matches {
                if let Some(f) = m.prog.run(t, pos, &Env::new()) {
                    let (a, b) = f.cap.unwrap_or((pos, pos));
                    let c = Cand {
                            input: m.chars.clone(),
                            output: m.to.clone(),
                            len: b - a,
                            weight: f.end - pos,
                            effects: vec![],
                            context: false,
                            punct: None,
                            line: m.line,
                        };
                    if a == pos {
                        cands.push(c);
                    } else {
                        due.push((a, c));
                    }
                }
            }
            for (line, c) in &self.contexts {
                match c.at(t, pos, &env, &self.ctx, *line) {
                    Some((p, c)) if p == pos => cands.push(c),
                    Some(c) => due.push(c),
                    None => {}
                }
            }
            cands.extend(due.iter().filter(|(p, _)| *p == pos).map(|(_, c)| c.clone()));
            cands.retain(|c| c.punct.is_none_or(|pre| self.punct_ok(t, pos, pre)));
            if pos < n && modes[pos].2 {
                if let Some((d, line)) = self.digits.get(&t[pos]) {
                    cands.retain(|c| c.len != 1);
                    cands.push(Cand {
                        input: t[pos].to_string(),
                        output: d.clone(),
                        len: 1,
                        weight: 1,
                        effects: vec![],
                        context: false,
                        punct: None,
                        line: *line,
                    });
                }
            }
            if numeric {
                cands.retain(|c| c.len <= 1);
            }
            if comp(pos) {
                cands = self.comp6.at(t, pos);
            }
            cands.retain(|c| free(c) && (c.context || open(c)));
            cands.retain(|c| !seen.contains(&c.key()));

            let max = cands.iter().map(|c| c.weight).max();
            let cmax = cross.iter().map(|c| c.weight).max();
            let best: Vec<Cand> = if cmax.is_some() && cmax >= max {
                cross.into_iter().filter(|c| Some(c.weight) == cmax).collect()
            } else {
                cands.into_iter().filter(|c| Some(c.weight) == max).collect()
            };
            if best.is_empty() {
                if pos == n {
                    return Ok(());
                }
                let c = t[pos];
                let (o, line) = match self.chars.get(&c) {
                    Some((d, line)) => (d.clone(), *line),
                    None => (self.undefined.clone().unwrap_or_else(|| self.fallback(c)), 0),
                };
                ch.fixed(&c.to_string(), &o, line);
                seen.clear();
                pos += 1;
            } else {
                let (upper, title, _) = modes.get(pos).copied().unwrap_or_default();
                let c = ch.choose_by(&best, |c| {
                    if upper {
                        c.output.to_uppercase()
                    } else if title {
                        let mut it = c.output.chars();
                        it.next().map(|f| f.to_uppercase().chain(it).collect()).unwrap_or_default()
                    } else {
                        c.output.clone()
                    }
                })?;
                c.effects.iter().for_each(|e| e.apply(&mut env));
                if c.len == 0 {
                    seen.insert(c.key());
                } else {
                    seen.clear();
                    pos += c.len;
                }
            }
            due.retain(|(p, _)| *p >= pos);
        }
    }
}
