//! Definitions and classes of characters, cells and swaps
use super::parse::*;
use std::collections::{HashMap, HashSet};

pub type Set = HashSet<char>;

#[derive(Default, Debug, Clone)]
pub struct Ctx {
    pub def: HashMap<char, String>,
    pub classes: HashMap<String, Set>,
    pub dclasses: HashMap<String, Set>,
    pub swaps: HashMap<String, HashMap<char, String>>,
}

static EMPTY: std::sync::LazyLock<Set> = std::sync::LazyLock::new(Set::new);

impl Ctx {
    pub fn class(&self, name: &str) -> &Set {
        self.classes.get(name).unwrap_or(&EMPTY)
    }
    pub fn dclass(&self, name: &str) -> &Set {
        self.dclasses.get(name).unwrap_or(&EMPTY)
    }
    pub fn is(&self, name: &str, c: char) -> bool {
        self.class(name).contains(&c)
    }

    /// cells of the characters, `None` if one of them is not defined
    pub fn implicit(&self, chars: &str) -> Option<String> {
        chars.chars().map(|c| self.def.get(&c).cloned()).collect()
    }

    pub fn new<'a>(rules: impl Iterator<Item = &'a Rule> + Clone) -> Ctx {
        let mut x = Ctx::default();
        fn add(m: &mut HashMap<String, Set>, class: &str, c: char) {
            m.entry(class.to_string()).or_default().insert(c);
        }
        fn add_cells(m: &mut HashMap<String, Set>, class: &str, cells: &str) {
            let mut it = cells.chars();
            if let (Some(c), None) = (it.next(), it.next()) {
                add(m, class, c);
            }
        }
        for r in rules.clone() {
            match &r.op {
                Op::CharDef { kind, ch, cells } => {
                    x.def.entry(*ch).or_insert_with(|| cells.clone());
                    let class = match kind.as_str() {
                        "hyphen" | "decpoint" => "punctuation",
                        k => k,
                    };
                    add(&mut x.classes, class, *ch);
                    add_cells(&mut x.dclasses, class, cells);
                    if class == "lowercase" || class == "uppercase" {
                        add(&mut x.classes, "letter", *ch);
                        add_cells(&mut x.dclasses, "letter", cells);
                    }
                }
                Op::Trans { kind, chars, dots }
                    if kind == "always" && chars.chars().all(|c| c.is_alphabetic()) =>
                {
                    match dots {
                        Dots::Eq => add(&mut x.dclasses, "letter", '='),
                        Dots::Cells(d) => d.chars().for_each(|c| add(&mut x.dclasses, "letter", c)),
                    }
                }
                _ => {}
            }
        }
        for r in rules {
            match &r.op {
                Op::Base { class, derived, base } => {
                    if let Some(d) = x.def.get(base).cloned() {
                        x.def.entry(*derived).or_insert(d);
                        add(&mut x.classes, class, *derived);
                        if class == "uppercase" || class == "lowercase" {
                            add(&mut x.classes, "letter", *derived);
                        }
                    }
                }
                Op::Attribute { name, chars } | Op::Chars { name, chars } => {
                    if matches!(r.op, Op::Chars { .. })
                        && !matches!(name.as_str(), "seqdelimiter" | "seqbeforechars" | "seqafterchars")
                    {
                        continue;
                    }
                    for c in chars.chars() {
                        add(&mut x.classes, name, c);
                        if let Some(d) = x.def.get(&c) {
                            add_cells(&mut x.dclasses, name, d);
                        }
                    }
                }
                Op::Swap { kind, name, from, to } => {
                    for c in from {
                        add(&mut x.classes, name, *c);
                        if kind == "swapdd" {
                            add(&mut x.dclasses, name, *c);
                        } else if let Some(d) = x.def.get(c) {
                            add_cells(&mut x.dclasses, name, d);
                        }
                    }
                    let mut m = HashMap::new();
                    for (c, d) in from.iter().zip(to) {
                        m.insert(*c, d.clone());
                    }
                    x.swaps.insert(name.clone(), m);
                }
                _ => {}
            }
        }
        x
    }
}
