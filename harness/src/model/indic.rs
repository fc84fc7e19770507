//! Which indicators are due at which position of the text
use super::ctx::Ctx;
use super::parse::*;
use super::re::fold;
use std::collections::{HashMap, HashSet};

pub type Spans = [(String, usize, usize)];

#[derive(Default, Debug, Clone)]
pub struct EmphClass {
    pub name: String,
    pub dots: HashMap<String, String>,
    pub endphrase: Option<(bool, String)>,
    pub len: Option<i64>,
    pub modechars: HashSet<char>,
    pub nochars: HashSet<char>,
}

#[derive(Default, Debug, Clone)]
pub struct Config {
    pub ind: HashMap<String, String>,
    pub endcapsphrase: Option<(bool, String)>,
    pub lencaps: Option<i64>,
    pub lists: HashMap<String, HashSet<char>>,
    pub midnum: HashSet<char>,
    pub emph: Vec<EmphClass>,
    pub contractions: Vec<Vec<char>>,
    pub triggers: Vec<Vec<char>>,
}

impl Config {
    pub fn new<'a>(rules: impl Iterator<Item = &'a Rule>) -> Config {
        let mut c = Config::default();
        fn emph<'b>(c: &'b mut Config, name: &str) -> &'b mut EmphClass {
            if let Some(i) = c.emph.iter().position(|e| e.name == name) {
                &mut c.emph[i]
            } else {
                c.emph.push(EmphClass { name: name.to_string(), ..Default::default() });
                c.emph.last_mut().unwrap()
            }
        }
        for r in rules {
            match &r.op {
                Op::Ind { name, cells } => {
                    c.ind.insert(name.clone(), cells.clone());
                }
                Op::EndCapsPhrase { before, cells } => c.endcapsphrase = Some((*before, cells.clone())),
                Op::LenCapsPhrase(n) => c.lencaps = Some(*n),
                Op::Chars { name, chars } => {
                    c.lists.entry(name.clone()).or_default().extend(chars.chars());
                }
                Op::Trans { kind, chars, .. } if kind == "midnum" => c.midnum.extend(chars.chars()),
                Op::CharDef { kind, ch, .. } if kind == "decpoint" => {
                    c.midnum.insert(*ch);
                }
                Op::EmphClass(n) => {
                    emph(&mut c, n);
                }
                Op::EmphDots { which, class, cells } => {
                    emph(&mut c, class).dots.insert(which.clone(), cells.clone());
                }
                Op::EndEmphPhrase { class, before, cells } => {
                    emph(&mut c, class).endphrase = Some((*before, cells.clone()))
                }
                Op::LenEmphPhrase { class, n } => emph(&mut c, class).len = Some(*n),
                Op::EmphChars { which, class, chars } => {
                    let e = emph(&mut c, class);
                    let set = if which == "emphmodechars" { &mut e.modechars } else { &mut e.nochars };
                    set.extend(chars.chars());
                }
                Op::Contraction(s) => c.contractions.push(s.chars().collect()),
                Op::Compbrl(s) => c.triggers.push(s.chars().collect()),
                _ => {}
            }
        }
        c
    }
    fn list(&self, n: &str) -> Option<&HashSet<char>> {
        self.lists.get(n)
    }
    fn listed(&self, n: &str, c: Option<char>) -> bool {
        c.is_some_and(|c| self.list(n).is_some_and(|s| s.contains(&c)))
    }
}

/// at most this many words make no passage
fn phrase_len(n: Option<i64>, default: usize) -> usize {
    match n {
        None => default,
        Some(n) => n as usize,
    }
}

#[derive(Debug, Clone, Default)]
pub struct Plan {
    /// what to insert before each position, the last entry is the end of the text
    pub at: Vec<Vec<String>>,
    /// an indicator that no rule may hide is due at the position
    pub barrier: Vec<bool>,
    pub numeric_run: Vec<bool>,
    pub comp6: Vec<bool>,
}

/// the spans of the caller and those of the words that contain a trigger
pub fn enrich(c: &Config, ctx: &Ctx, t: &[char], spans: &Spans) -> Vec<(String, usize, usize)> {
    let mut v = spans.to_vec();
    if c.triggers.is_empty() {
        return v;
    }
    let n = t.len();
    let mut i = 0;
    while i < n {
        if ctx.is("space", t[i]) {
            i += 1;
            continue;
        }
        // not at a space: the word around i
        let mut e = i;
        while e < n && !ctx.is("space", t[e]) {
            e += 1;
        }
        let hit = (i..e).any(|p| c.triggers.iter().any(|g| t[p..].starts_with(g)));
        if hit {
            let s = ("computer_braille".to_string(), i, e);
            if !v.contains(&s) {
                v.push(s);
            }
        }
        i = e;
    }
    v
}

fn runs(n: usize, f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < n {
        if f(i) {
            let s = i;
            while i < n && f(i) {
                i += 1;
            }
            v.push((s, i));
        } else {
            i += 1;
        }
    }
    v
}

pub fn numeric(c: &Config, ctx: &Ctx, t: &[char]) -> (Vec<(usize, String)>, Vec<bool>) {
    let mut out = vec![];
    let mut run = vec![false; t.len()];
    let modechars = c.list("numericmodechars").cloned().unwrap_or_default();
    let digit = |i: usize| t.get(i).is_some_and(|&x| ctx.is("litdigit", x));
    let mut i = 0;
    while i < t.len() {
        if !digit(i) {
            i += 1;
            continue;
        }
        if let Some(s) = c.ind.get("numsign") {
            out.push((i, s.clone()));
        }
        while i < t.len() {
            let keeps = digit(i)
                || if modechars.is_empty() {
                    c.midnum.contains(&t[i]) && digit(i + 1)
                } else {
                    modechars.contains(&t[i])
                };
            if !keeps {
                break;
            }
            run[i] = true;
            i += 1;
        }
        if i < t.len() && c.ind.contains_key("numsign") && c.listed("numericnocontchars", Some(t[i])) {
            if let Some(s) = c.ind.get("nonumsign") {
                out.push((i, s.clone()));
            }
        }
    }
    (out, run)
}

fn word_boundary(ctx: &Ctx, c: Option<char>) -> bool {
    match c {
        None => true,
        Some(c) => ctx.is("space", c) || ctx.is("punctuation", c),
    }
}

fn contraction_at(c: &Config, ctx: &Ctx, t: &[char], i: usize) -> bool {
    let prev = if i > 0 { Some(t[i - 1]) } else { None };
    word_boundary(ctx, prev)
        && c.contractions.iter().any(|w| {
            i + w.len() <= t.len()
                && w.iter().zip(&t[i..]).all(|(a, b)| fold(*b) == Some(*a))
                && word_boundary(ctx, t.get(i + w.len()).copied())
        })
}

pub fn lettersign(c: &Config, ctx: &Ctx, t: &[char]) -> Vec<(usize, String)> {
    let Some(sign) = c.ind.get("letsign") else { return vec![] };
    let letter = |x: char| ctx.is("letter", x) || ctx.is("uppercase", x) || ctx.is("lowercase", x);
    let mut out = vec![];
    for i in 0..t.len() {
        let x = t[i];
        let prev = if i > 0 { Some(t[i - 1]) } else { None };
        let next = t.get(i + 1).copied();
        let exempt = c.listed("noletsign", Some(x));
        let alone = letter(x)
            && !exempt
            && !c.listed("noletsignafter", prev)
            && !c.listed("noletsignbefore", next)
            && !next.is_some_and(letter)
            && !prev.is_some_and(|p| ctx.is("space", p) || letter(p));
        if alone || (!exempt && contraction_at(c, ctx, t, i)) {
            out.push((i, sign.clone()));
        }
    }
    out
}

pub fn nocontract(c: &Config, ctx: &Ctx, t: &[char]) -> Vec<(usize, String)> {
    let Some(sign) = c.ind.get("nocontractsign") else { return vec![] };
    (0..t.len()).filter(|&i| contraction_at(c, ctx, t, i)).map(|i| (i, sign.clone())).collect()
}

pub fn uppercase(c: &Config, ctx: &Ctx, t: &[char]) -> Vec<(usize, String)> {
    let mut out: Vec<(usize, String)> = vec![];
    let get = |n: &str| c.ind.get(n).cloned();
    if ["capsletter", "begcapsword", "begcaps", "begcapsphrase"].iter().all(|n| get(n).is_none()) {
        return out;
    }
    let letter = |i: usize| ctx.is("letter", t[i]);
    let upper = |i: usize| letter(i) && ctx.is("uppercase", t[i]);
    let words = runs(t.len(), |i| letter(i) || c.listed("capsmodechars", Some(t[i])));

    // mark the letters from open to close, which end with the word
    let single = |out: &mut Vec<(usize, String)>, open: usize, close: usize, inside: Option<usize>| {
        let count = (open..close).filter(|&i| letter(i)).count();
        if count == 1 {
            if let Some(s) = get("capsletter") {
                out.push((open, s));
                return;
            }
        }
        if let Some(b) = get("begcapsword") {
            match (inside, get("endcapsword")) {
                (None, _) => {
                    out.push((open, b));
                    return;
                }
                (Some(next), Some(e)) => {
                    out.push((open, b));
                    out.push((next, e));
                    return;
                }
                _ => {}
            }
        }
        if let Some(b) = get("begcaps") {
            out.push((open, b));
            if let Some(e) = get("endcaps") {
                out.push((close, e));
            }
            return;
        }
        if let Some(s) = get("capsletter") {
            for i in open..close {
                if upper(i) {
                    out.push((i, s.clone()));
                }
            }
        }
    };

    let mut w = 0;
    while w < words.len() {
        let letters: Vec<usize> = (words[w].0..words[w].1).filter(|&i| letter(i)).collect();
        let whole = |ls: &[usize]| !ls.is_empty() && ls.iter().all(|&i| upper(i));
        if !whole(&letters) {
            // runs of capitals, in which mode characters are transparent
            let mut k = 0;
            while k < letters.len() {
                if !upper(letters[k]) {
                    k += 1;
                    continue;
                }
                let s = k;
                while k < letters.len() && upper(letters[k]) {
                    k += 1;
                }
                let next = letters.get(k).copied();
                single(&mut out, letters[s], letters[k - 1] + 1, next);
            }
            w += 1;
            continue;
        }
        // all following words that are capitals
        let mut group: Vec<(usize, usize)> = vec![];
        let mut count = 0;
        while w < words.len() {
            let ls: Vec<usize> = (words[w].0..words[w].1).filter(|&i| letter(i)).collect();
            if !whole(&ls) {
                break;
            }
            let (open, close) = (ls[0], ls[ls.len() - 1] + 1);
            let new = match group.last() {
                None => true,
                Some((_, prev)) => (*prev..open).any(|i| ctx.is("space", t[i])),
            };
            count += new as usize;
            group.push((open, close));
            w += 1;
        }
        let (first, last) = (group[0], group[group.len() - 1]);
        if count >= phrase_len(c.lencaps, 2) {
            if let Some(b) = get("begcapsphrase") {
                out.push((first.0, b));
                match &c.endcapsphrase {
                    Some((true, _)) => single(&mut out, last.0, last.1, None),
                    Some((false, e)) => out.push((last.1, e.clone())),
                    None => {
                        if let Some(e) = get("endcaps") {
                            out.push((last.1, e))
                        }
                    }
                }
                continue;
            }
            if let Some(b) = get("begcaps") {
                out.push((first.0, b));
                if let Some(e) = get("endcaps") {
                    out.push((last.1, e));
                }
                continue;
            }
        }
        for (o, e) in group {
            single(&mut out, o, e, None);
        }
    }
    out.sort_by_key(|x| x.0);
    out
}

#[derive(Clone, Debug)]
enum Nest {
    Open(usize),
    Close(usize),
    End,
    Free,
}

pub fn emphasis(c: &Config, ctx: &Ctx, t: &[char], spans: &Spans) -> Vec<(usize, String)> {
    let n = t.len();
    let mut ev: Vec<(usize, String, Nest, usize)> = vec![];
    let mut idx = 0;
    for e in &c.emph {
        let g = |k: &str| e.dots.get(k).cloned();
        if ["emphletter", "begemphword", "begemph", "begemphphrase"].iter().all(|k| g(k).is_none()) {
            continue;
        }
        idx += 1;
        let sep = |i: usize| {
            if e.modechars.is_empty() {
                ctx.is("space", t[i])
            } else {
                e.modechars.contains(&t[i])
            }
        };
        let active = |i: usize| {
            !e.nochars.contains(&t[i])
                && spans.iter().any(|(k, a, b)| *k == e.name && *a <= i && i < *b)
        };
        for (rs, re) in runs(n, active) {
            let first = (rs..re).find(|&i| !sep(i));
            let last = (rs..re).rev().find(|&i| !sep(i));
            if let Some(b) = g("begemph") {
                let s = first.unwrap_or(rs);
                let end = last.map_or(re, |l| l + 1);
                ev.push((s, b, Nest::Open(end), idx));
                if let Some(x) = g("endemph") {
                    ev.push((end, x, Nest::Close(s), idx));
                }
                continue;
            }
            let (Some(first), Some(last)) = (first, last) else { continue };
            let words: Vec<(usize, usize)> =
                runs(re, |i| i >= rs && !sep(i)).into_iter().collect();
            let mut single = |a: usize, b: usize| {
                if b - a == 1 && g("emphletter").is_some() {
                    ev.push((a, g("emphletter").unwrap(), Nest::Free, idx));
                } else if let Some(x) = g("begemphword") {
                    ev.push((a, x, Nest::Free, idx));
                }
            };
            let clean = (first == 0 || sep(first - 1)) && (last + 1 >= n || sep(last + 1));
            if clean {
                if g("begemphphrase").is_some() && words.len() >= phrase_len(e.len, 4) {
                    let (la, lb) = words[words.len() - 1];
                    ev.push((words[0].0, g("begemphphrase").unwrap(), Nest::Free, idx));
                    match &e.endphrase {
                        Some((false, x)) => ev.push((lb, x.clone(), Nest::End, idx)),
                        _ => {
                            if lb - la == 1 && g("emphletter").is_some() {
                                ev.push((la, g("emphletter").unwrap(), Nest::Free, idx));
                            } else if let Some(x) = g("begemphword") {
                                ev.push((la, x, Nest::Free, idx));
                            }
                        }
                    }
                } else {
                    for (a, b) in words {
                        single(a, b);
                    }
                }
                continue;
            }
            // within a word at one end at least: each word on its own, the last one with its end
            let (rs, re) = (first, last + 1);
            let lone = |(a, b): (usize, usize)| b - a == 1 && g("emphletter").is_some();
            if lone((rs, re)) {
                ev.push((rs, g("emphletter").unwrap(), Nest::Free, idx));
            } else if g("begemphword").is_some() {
                for &(a, b) in &words {
                    single(a, b);
                }
                if let Some(x) = g("endemphword") {
                    if re < n && !sep(re) && !lone(words[words.len() - 1]) {
                        ev.push((re, x, Nest::End, idx));
                    }
                }
            } else if let Some(x) = g("begemphphrase") {
                ev.push((rs, x, Nest::Free, idx));
                if let Some((_, x)) = &e.endphrase {
                    if re < n {
                        ev.push((re, x.clone(), Nest::End, idx));
                    }
                }
            }
        }
    }
    // at one position everything that ends comes before what begins, with stack order among the
    // begin and among the end indicators
    let mut out = vec![];
    for p in 0..=n {
        let (ends, begins): (Vec<_>, Vec<_>) = ev
            .iter()
            .filter(|e| e.0 == p)
            .cloned()
            .partition(|e| matches!(e.2, Nest::Close(_) | Nest::End));
        let here: Vec<_> = ends.into_iter().chain(begins).collect();
        let mut opens: Vec<_> = here.iter().filter(|e| matches!(e.2, Nest::Open(_))).cloned().collect();
        opens.sort_by_key(|e| match e.2 {
            Nest::Open(re) => (usize::MAX - re, usize::MAX - e.3),
            _ => unreachable!(),
        });
        let mut closes: Vec<_> = here.iter().filter(|e| matches!(e.2, Nest::Close(_))).cloned().collect();
        closes.sort_by_key(|e| match e.2 {
            Nest::Close(s) => (usize::MAX - s, e.3),
            _ => unreachable!(),
        });
        let (mut o, mut k) = (opens.into_iter(), closes.into_iter());
        for e in here {
            let e = match e.2 {
                Nest::Open(_) => o.next().unwrap(),
                Nest::Close(_) => k.next().unwrap(),
                Nest::End | Nest::Free => e,
            };
            out.push((p, e.1));
        }
    }
    out
}

pub fn computer_braille(c: &Config, n: usize, spans: &Spans) -> Vec<(usize, String)> {
    let Some(b) = c.ind.get("begcomp") else { return vec![] };
    // the regions: positions that a span covers, split where no span goes on to the next position
    let inside: Vec<(usize, usize)> = spans
        .iter()
        .filter(|(k, s, _)| k == "computer_braille" && *s < n)
        .map(|(_, s, e)| (*s, (*e).min(n)))
        .collect();
    let covered = |i: usize| inside.iter().any(|(s, e)| (*s..*e).contains(&i));
    let joined = |i: usize| inside.iter().any(|(s, e)| *s < i && i < *e);
    let mut out = vec![];
    for i in 0..=n {
        if i > 0 && covered(i - 1) && !joined(i) {
            out.extend(c.ind.get("endcomp").map(|x| (i, x.clone())));
        }
        if covered(i) && !joined(i) {
            out.push((i, b.clone()));
        }
    }
    out
}

/// everything that is due in a forward translation. In the backward direction only emphasis and
/// computer braille spans of the caller play a role.
pub fn plan(c: &Config, ctx: &Ctx, t: &[char], spans: &Spans) -> Plan {
    let n = t.len();
    let spans = enrich(c, ctx, t, spans);
    let (num, numeric_run) = numeric(c, ctx, t);
    let comp = computer_braille(c, n, &spans);
    let emph = emphasis(c, ctx, t, &spans);
    let lets = lettersign(c, ctx, t);
    let caps = uppercase(c, ctx, t);
    let noc = nocontract(c, ctx, t);
    let mut p = Plan {
        at: vec![vec![]; n + 1],
        barrier: vec![false; n + 1],
        numeric_run,
        comp6: vec![false; n],
    };
    for (list, barrier) in
        [(&comp, true), (&emph, true), (&num, false), (&lets, false), (&caps, true), (&noc, false)]
    {
        for (pos, s) in list {
            p.at[*pos].push(s.clone());
            p.barrier[*pos] |= barrier;
        }
    }
    for (k, s, e) in &spans {
        if k == "computer_braille" {
            for i in *s..(*e).min(n) {
                p.comp6[i] = true;
            }
        }
    }
    p
}
