//! The braille tables that come with the repository
use crate::model::parse::{self, Op};
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{LazyLock, Mutex};

pub const NAMES: &[&str] = &[
    "en-us-g2.ctb", "en-us-g1.ctb", "en-ueb-g1.ctb", "fr-bfu-g2.ctb", "es-g2.ctb", "es-g1.ctb", "uz-g1.utb",
    "ar-ar-g2.ctb", "ru-litbrl.ctb", "fuzz_maximal.ctb", "fr-bfu-comp6.utb", "en-us-compbrl.uti",
];

pub fn dir() -> PathBuf {
    crate::run::verif_dir().join("data/tables")
}

#[derive(Clone, Default)]
pub struct Real {
    /// all lines with the included ones in place
    pub text: String,
    /// only those which the model covers
    pub modelled: String,
    /// operands
    pub words: Vec<String>,
    pub dots: Vec<String>,
    pub emph: Vec<String>,
}

static CACHE: LazyLock<Mutex<HashMap<String, Real>>> = LazyLock::new(|| Mutex::new(HashMap::new()));

fn expand(name: &str, depth: usize, out: &mut String) {
    if depth > 20 {
        return;
    }
    let Ok(t) = std::fs::read_to_string(dir().join(name)) else { return };
    for l in t.lines() {
        let mut w = l.split_ascii_whitespace();
        if w.next() == Some("include") {
            if let Some(f) = w.next() {
                if !f.ends_with(".dic") {
                    expand(f, depth + 1, out);
                }
            }
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
}

pub fn get(name: &str) -> Real {
    if let Some(r) = CACHE.lock().unwrap().get(name) {
        return r.clone();
    }
    let mut r = Real::default();
    expand(name, 0, &mut r.text);
    let mut rules = vec![];
    let mut lines: Vec<&str> = vec![];
    for l in r.text.lines() {
        if let Ok(Some(rule)) = parse::line(0, l) {
            rules.push(rule);
            lines.push(l);
        }
    }
    let ctx = crate::model::ctx::Ctx::new(rules.iter());
    for (rule, l) in rules.iter().zip(&lines) {
        let ok = match &rule.op {
            Op::Multi { stage, test, action } => {
                let m = crate::model::multipass::rule(
                    test,
                    action,
                    &|n: &str| if stage.starts_with("pass") { ctx.dclass(n).clone() } else { ctx.class(n).clone() },
                    rule.dir,
                );
                m.is_some_and(|m| {
                    !m.acts.iter().any(
                        |a| matches!(a, crate::model::multipass::Act::Swap(n) if !ctx.swaps.contains_key(n)),
                    )
                })
            }
            Op::Match { pre, post, chars, dots } => {
                let class = |n: &str| ctx.class(n).clone();
                crate::model::re::match_pattern(pre, true, &class).is_some()
                    && crate::model::re::match_pattern(post, false, &class).is_some()
                    && (*dots != parse::Dots::Eq || ctx.implicit(chars).is_some())
            }
            Op::Trans { chars, dots, .. } => *dots != parse::Dots::Eq || ctx.implicit(chars).is_some(),
            Op::Compbrl(c) => !c.contains(' '),
            _ => true,
        };
        if !ok {
            continue;
        }
        match &rule.op {
            Op::Trans { chars, .. } | Op::Contraction(chars) | Op::Compbrl(chars) => r.words.push(chars.clone()),
            Op::Match { chars, .. } => r.words.push(chars.clone()),
            Op::CharDef { ch, .. } => r.words.push(ch.to_string()),
            Op::EmphClass(n) => r.emph.push(n.clone()),
            _ => {}
        }
        if let Op::Trans { dots: parse::Dots::Cells(d), .. } = &rule.op {
            r.dots.push(d.clone());
        }
        if let Op::CharDef { cells, .. } = &rule.op {
            r.dots.push(cells.clone());
        }
        if let Op::Ind { cells, .. } = &rule.op {
            r.dots.push(cells.clone());
        }
        r.modelled.push_str(l);
        r.modelled.push('\n');
    }
    CACHE.lock().unwrap().insert(name.to_string(), r.clone());
    r
}

const PROSE: &str = "The quick brown fox jumps over the lazy dog. He said: \"I can't do that, Dave!\" On 24 December 1984, \
O'Brien paid $3.50 (or EUR 4,20) to http://example.com/path and wrote to john.doe@mail.org. ABC and NASA are ACRONYMS; \
McDonald isn't. WHY NOT? 1st 2nd 3rd 10:30 a.m. x = y + 5/2 - 3*4. knowledge people children would could immediately \
blind brailled ing ed er action nation ness ment receive deceive perceive together the and for of with. Les élèves \
étudient à l'école; c'était déjà l'été où çà et là. ¿Cómo está usted? El niño comió mañana. привет мир Книга \
السلام عليكم salom oʻzbek";

/// a text for the table
pub fn text(r: &mut crate::util::Rng, t: &Real, n: usize) -> String {
    let prose: Vec<&str> = PROSE.split_whitespace().collect();
    let mut s = String::new();
    let mut len = 0;
    while len < n {
        let w: String = match r.below(10) {
            0..=3 => r.pick(&prose).to_string(),
            4..=8 if !t.words.is_empty() => r.pick(&t.words).clone(),
            _ => r.string("abcdefghijklmnopqrstuvwxyzéABC0123456789.,-'\"()/+ $", 1, 4),
        };
        let w = match r.below(12) {
            0 => w.to_uppercase(),
            1 => {
                let mut it = w.chars();
                it.next().map(|c| c.to_uppercase().chain(it).collect()).unwrap_or_default()
            }
            2 => format!("{w}{}", r.range(0, 1000)),
            3 => format!("{w}{}", r.pick(&prose)),
            _ => w,
        };
        s.push_str(&w);
        len += w.chars().count() + 1;
        if r.chance(70) {
            s.push(' ');
        }
    }
    s
}

/// a text in braille for the table
pub fn braille(r: &mut crate::util::Rng, t: &Real, n: usize) -> String {
    let mut s = String::new();
    let mut len = 0;
    while len < n {
        let w: String = match r.below(10) {
            0..=7 if !t.dots.is_empty() => r.pick(&t.dots).clone(),
            8 => "\u{2800}".into(),
            _ => char::from_u32(0x2800 + r.below(64) as u32).unwrap().to_string(),
        };
        len += w.chars().count().max(1);
        s.push_str(&w);
    }
    s
}
