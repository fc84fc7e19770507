//! The properties of the translation engine that are decided by comparison with the model
use crate::case::Case;
use crate::gen::Gen;
use crate::mcheck;
use crate::model::parse::TRANS;
use crate::realtab;
use crate::run::{Outcome, Prop, Tier};
use crate::sut;
use crate::util::{Rng, Stats};

#[derive(Clone, Copy, PartialEq)]
pub enum F {
    Attr,
    Trans,
    Num,
    Caps,
    Let,
    Emph,
    Comp,
    Match,
    Swap,
    Context,
    Correct,
    Pass,
    Vars,
}

pub fn kinds() -> Vec<&'static str> {
    TRANS.iter().filter(|k| !matches!(**k, "comp6")).cloned().collect()
}

/// a table with the given features and sometimes others
pub fn mixed(r: &mut Rng, on: &[F], backward: bool, p_other: usize, inputs: usize, max: usize) -> Case {
    let all = [F::Attr, F::Trans, F::Num, F::Caps, F::Let, F::Emph, F::Comp, F::Match, F::Swap, F::Context, F::Correct, F::Pass];
    let mut f: Vec<F> = on.to_vec();
    for x in all {
        if !f.contains(&x) && r.chance(p_other) {
            f.push(x);
        }
    }
    let has = |x: F| f.contains(&x);
    let mut g = Gen::new(r);
    g.defs(false);
    let p_dir = 6;
    if has(F::Attr) {
        g.attributes();
    }
    if has(F::Trans) {
        let k = kinds();
        for _ in 0..g.many(1, 10) {
            g.trans(&k, p_dir);
        }
    }
    if has(F::Num) {
        g.numeric();
    }
    if has(F::Caps) {
        g.caps();
    }
    if has(F::Let) {
        g.letsign();
    }
    let mut names = vec![];
    if has(F::Emph) {
        names = g.emph();
    }
    if has(F::Comp) {
        g.comp();
        names.push("computer_braille".into());
    }
    if g.r.chance(8) {
        names.push("unknownclass".into());
    }
    if has(F::Match) {
        g.fillers(&["match"]);
        for _ in 0..g.many(1, 4).min(40) {
            g.match_rule(p_dir);
        }
    }
    if has(F::Swap) {
        for _ in 0..g.r.range(1, 2) {
            g.swap();
        }
    }
    let vars = |g: &mut Gen| if has(F::Vars) { g.r.chance(85) } else { g.r.chance(20) };
    if has(F::Context) {
        for _ in 0..g.r.range(1, 4) {
            let v = vars(&mut g);
            g.multi("context", v, p_dir);
        }
    }
    if has(F::Correct) {
        for _ in 0..g.r.range(1, 4) {
            let v = vars(&mut g);
            g.multi("correct", v, p_dir);
        }
    }
    if has(F::Pass) {
        for s in ["pass2", "pass3", "pass4"] {
            if g.r.chance(50) {
                for _ in 0..g.r.range(1, 3) {
                    let v = vars(&mut g);
                    g.multi(s, v, p_dir);
                }
            }
        }
    }
    if g.r.chance(30) {
        let Gen { r, lines, .. } = &mut g;
        r.shuffle(lines);
    }
    let inputs = g.inputs(backward, inputs, max);
    let spans = if !names.is_empty() && g.r.chance(75) { g.spans(&names, max) } else { vec![] };
    Case { table: g.finish(), backward, inputs, spans, ..Default::default() }
}

/// texts and spans for one of the real tables
pub fn real(r: &mut Rng, backward: bool, n: usize, max: usize) -> Case {
    let name = *r.pick(realtab::NAMES);
    let t = realtab::get(name);
    let inputs = (0..n)
        .map(|_| {
            let n = r.range(0, max);
            if backward { realtab::braille(r, &t, n) } else { realtab::text(r, &t, n) }
        })
        .collect();
    let mut spans = vec![];
    if r.chance(40) {
        for _ in 0..r.range(1, 3) {
            let n = if t.emph.is_empty() || r.chance(10) { "computer_braille".to_string() } else { r.pick(&t.emph).clone() };
            let a = r.below(max);
            let b = a + r.below(max / 2 + 1);
            spans.push((n, a, b));
        }
    }
    let mut c = Case { backward, inputs, spans, ..Default::default() };
    c.set("real", name);
    c
}

/// sometimes one long text instead of the short ones
pub fn lengthen(mut c: Case, r: &mut Rng) -> Case {
    if !r.chance_of(4, 1000) || c.inputs.iter().all(|i| i.is_empty()) {
        return c;
    }
    let n = *r.pick(&[130, 260, 260, 300, 520, 700, 1100, 2100, 4200]);
    // patterns and words of computer braille take quadratic time
    let simple = !c.table.is_empty() && !["match", "context", "correct", "pass", "compbrl"].iter().any(|k| c.table.contains(k));
    let n = match simple {
        true if r.chance(6) => 66_000,
        true => n,
        false => n.min(1100),
    };
    let mut s = String::new();
    let mut k = 0;
    let one = r.pick(&c.inputs).clone();
    let same = r.chance(30) && !one.is_empty();
    while k < n {
        let i = if same { one.clone() } else { r.pick(&c.inputs).clone() };
        k += i.chars().count();
        s.push_str(&i);
        if r.chance(20) {
            s.push(if c.backward { '\u{2800}' } else { ' ' });
            k += 1;
        }
    }
    // the spans move into the text
    for (_, a, b) in &mut c.spans {
        if r.chance(70) {
            let d = r.below(k);
            let w = (*b - (*b).min(*a)) * if r.chance(30) { 20 } else { 1 };
            *a = d;
            *b = d + w;
        }
    }
    c.inputs = vec![s];
    c
}

/// Texts in which the matter of a property has many sizes, around powers of two above all
fn sizes(id: &str) -> Vec<Case> {
    const BASE: &str = "space \\s 0\nlowercase a 1\nlowercase b 12\nlowercase c 14\nlowercase d 145\nlowercase e 15\n\
        base uppercase A a\nbase uppercase B b\nbase uppercase C c\n\
        litdigit 1 1\nlitdigit 2 12\nlitdigit 3 14\npunctuation . 256\npunctuation , 2\npunctuation ! 235\nhyphen - 36\n";
    let mut v = vec![];
    for n in [15usize, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1023, 1025, 2049] {
        let rep = |s: &str| s.repeat(n);
        let words = |w: &str| vec![w; n].join(" ");
        let mut spans: Vec<(String, usize, usize)> = vec![];
        let (rules, inputs): (String, Vec<String>) = match id {
            "C06" => (
                "prepunc . 3\npostpunc ! 6\nword ab 4\nbegword ab 5\nendword ab 45\nsufword b 46\nprfword b 56\nlargesign de 456\njoinnum c 2346\nalways . 25\n".into(),
                vec![
                    format!("{}ab", rep(".")),
                    format!("ab{}", rep("!")),
                    format!("ab{} ab", rep("!")),
                    format!("{} ab {}", rep("ab"), rep("b")),
                    words("ab"),
                    format!("a{}ab", rep(" ")),
                    format!("de{}b c{}1", rep(" de"), rep(" ")),
                ],
            ),
            "C07" => (
                "undefined 26\nalways ee =\n".replace("undefined 26\n", if n % 2 == 0 { "undefined 26\n" } else { "" }),
                vec![rep("\u{20ac}"), format!("{}A{}", rep("a"), rep("\u{10fffd}")), rep("ee"), rep("aAbBcC")],
            ),
            "C08" => (
                "match ab* c %[.]|$ 4\nmatch - a b+c 5\nmatch - d e*$ 46\nmatch ^a+ b c 56\nmatch - e (ab|c)*d 3456\n".into(),
                vec![
                    format!("a{}c.", rep("b")),
                    format!("a{}c ab", rep("b")),
                    format!("a{}", rep("b")),
                    format!("d{}", rep("e")),
                    format!("d{}a", rep("e")),
                    format!("{}bc", rep("a")),
                    format!(" {}bc", rep("a")),
                    format!("e{}cd", rep("abc")),
                ],
            ),
            "C09" => (
                "correct \"a\"[$l.]\"!\" \",\"\ncorrect $d3-255 \"1\"\ncontext \"e\"[$l.]$p *@3\ncontext [\"d\"]\"d\"$l254\"!\" @456\npass2 @12[@2]@12 @3-3\npass2 `@15$l.~ @6\npass3 $s.~ @7\n".into(),
                vec![
                    format!("a{}!", rep("b")),
                    format!("a{} !", rep("b")),
                    format!("e{}.", rep("c")),
                    rep("12"),
                    format!("1 {}", rep("2")),
                    rep("d") + "!",
                    format!("d{}!", rep("c")),
                    rep("b,"),
                    format!("a,{}", rep(" ")),
                ],
            ),
            "C10" => (
                format!("swapcc up abcde bcdea\ncontext \"a\"$d. #1+@1\ncontext \"b\" #2-@2\ncontext #1={}\"c\" @46\ncontext #1>200\"d\" @56\ncontext #1<17\"e\" @6\ncontext \"A\"[$l.]\"!\" %up\ncontext \"B\" #1=255#2=255@3\ncontext #2=255\"C\" @4\n", n.min(255)),
                vec![format!("{}cde", rep("a1")), format!("{}cdeC", rep("a1a2c")), format!("A{}!", rep("abcde")), format!("B{}Ca1cd", rep("b")), format!("Ba1{}cdC", rep("a1"))],
            ),
            "C11" => (
                "numsign 3456\nnonumsign 56\nmidnum , 3\nnumericnocontchars abc\nalways 12 5\nalways ab 6\n".into(),
                vec![rep("1"), rep("12"), rep("1,"), words("1"), format!("{}a{}", rep("2"), rep("3")), format!("{},,1", rep("1")), rep("1a"), format!("{}ab1", rep(" "))],
            ),
            "C12" => (
                format!("capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase {} 6-6-3\nlencapsphrase {}\n", if n % 2 == 0 { "before" } else { "after" }, [2, 3, 64, 200][n % 4]),
                vec![
                    rep("A"),
                    format!("{}a", rep("A")),
                    format!("a{}", rep("AB")),
                    words("A"),
                    words("AB"),
                    format!("{} a {}", words("AB"), words("AB")),
                    format!("AB{}AB", rep(" ")),
                    vec!["AB"; n].join("-"),
                    vec!["A"; n].join(", "),
                    format!("{}A", rep("a")),
                ],
            ),
            "C13" => {
                spans = match n % 3 {
                    0 => vec![("italic".into(), 0, 3 * n - 1), ("bold".into(), 3, 3 * n - 1)],
                    1 => vec![("italic".into(), 0, 3 * n), ("bold".into(), 0, 2)],
                    _ => (0..n).map(|k| (if k % 2 == 0 { "italic" } else { "bold" }.to_string(), 3 * k, 3 * k + 2)).collect(),
                };
                (
                    format!(
                        "emphclass italic\nemphclass bold\nemphletter italic 46-23\nbegemphword italic 46-2\nendemphword italic 46-3\nbegemphphrase italic 46-2356\nendemphphrase italic {} 46-5\nlenemphphrase italic {}\nbegemph bold 456-2\nendemph bold 456-3\n",
                        if n % 2 == 0 { "before word" } else { "after" },
                        [2, 3, 64, 200][n % 4]
                    )
                    .replace("before word", "before"),
                    vec![words("ab"), rep("abc"), rep("a, ")],
                )
            }
            "C14" => (
                "letsign 56\ncontraction ab\ncontraction b\nnocontractsign 5\nalways ab 3\nnoletsign c\n".into(),
                vec![words("b"), words("ab"), format!("{} b", rep("a")), format!("{} ab ", rep("e")), format!("b{}", rep(" ")), format!("{}b", rep(" ")), words("c"), format!("{}b", rep(",")), format!("b{}", rep("!"))],
            ),
            "C15" => {
                spans = if n % 2 == 0 { vec![("computer_braille".into(), 1, n)] } else { (0..n / 3).map(|k| ("computer_braille".to_string(), 3 * k, 3 * k + 2)).collect() };
                (
                    "begcomp 456-346\nendcomp 456-156\ncomp6 a 1456\ncompbrl .c\nalways ab 3\nalways bb 4\n".into(),
                    vec![format!("ab {}.c ab", rep("b")), format!("ab .c{} ab", rep("b")), format!("ab {}.c{} ab", rep("ab"), rep("a")), words(".c"), words("ab"), rep("bab")],
                )
            }
            _ => return vec![],
        };
        v.push(Case { prop: id.into(), kind: "sizes".into(), table: format!("{BASE}{rules}"), inputs, spans, ..Default::default() });
    }
    v
}

/// tables of very many rules, classes, swaps, emphasis classes or characters
fn many(id: &str) -> Vec<Case> {
    const BASE: &str = "space \\s 0\nlowercase a 1\nlowercase b 12\nlowercase c 14\nlowercase d 145\nlowercase e 15\n\
        base uppercase A a\nbase uppercase B b\n\
        litdigit 1 1\nlitdigit 2 12\npunctuation . 256\npunctuation , 2\n";
    // a word, and one or two cells, of a number
    fn word(mut n: usize) -> String {
        let mut w = String::new();
        for _ in 0..8 {
            w.push("abcde".as_bytes()[n % 5] as char);
            n /= 5;
        }
        w
    }
    fn cells(n: usize) -> String {
        let one = |n: usize| {
            let s: String = (0..6).filter(|b| (n % 63 + 1) >> b & 1 == 1).map(|b| char::from(b'1' + b as u8)).collect();
            s
        };
        format!("{}-{}", one(n), one(n / 63 + n))
    }
    fn ch(n: usize) -> char {
        char::from_u32(0x4e00 + n as u32).unwrap()
    }
    let mut sizes = vec![63usize, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 513, 1025];
    if id == "C06" || id == "C07" {
        sizes.push(4097);
    }
    if id == "C06" {
        sizes.push(65700);
    }
    let mut v = vec![];
    for n in sizes {
        let mut r = Rng::new(n as u64 * 7919);
        let mut rules = String::new();
        let mut spans: Vec<(String, usize, usize)> = vec![];
        let mut inputs: Vec<String> = vec![];
        // the first and last ones, the ones around powers of two, and others
        let mut pick: Vec<usize> = vec![0, 1, 62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n - 2, n - 1];
        pick.extend((0..12).map(|_| r.below(n)));
        pick.retain(|k| *k < n);
        let mut line = |s: String| {
            rules.push_str(&s);
            rules.push('\n');
        };
        match id {
            "C06" => {
                for k in 0..n {
                    let op = ["always", "word", "always", "begword", "endword", "sufword", "prfword", "midword"][if k % 7 == 3 { k / 7 % 8 } else { 0 }];
                    line(format!("{op} {} {}", word(k), cells(k)));
                }
                // later ones of the same characters lose
                for k in pick.clone() {
                    line(format!("always {} 123456", word(k)));
                }
                for k in &pick {
                    inputs.push(format!("{} a{} {}b{}a", word(*k), word(*k), word(*k), word(*k)));
                }
            }
            "C07" => {
                for k in 0..n {
                    line(format!("{} {} {}", ["lowercase", "letter", "sign", "math", "punctuation"][k % 5], ch(k), cells(k)));
                }
                inputs = pick.iter().map(|k| format!("a{}{}", ch(*k), ch(*k + 1))).collect();
            }
            "C08" => {
                for k in 0..n {
                    line(format!("match {} {} {} {}", ["-", "%^", "a|b"][k % 3], word(k), ["%[.]", "-", "$|%_", "ab?"][k % 4].replace("$|%_", "$|%[_]"), cells(k)));
                }
                for k in &pick {
                    let w = word(*k);
                    inputs.push(format!("{w} {w}. a{w}. b{w}ab {w}b d{w} {w}a"));
                }
            }
            "C09" => {
                for k in 0..n {
                    line(match k % 4 {
                        0 => format!("context \"{}\" @{}", word(k), cells(k)),
                        1 => format!("context \"{}\"[]$d @{}", word(k), cells(k)),
                        2 => format!("correct \"{}\" \"{}\"", word(k), word(k - 2)),
                        _ => format!("context [\"{}\"]$s @{}", word(k), cells(k)),
                    });
                }
                for k in &pick {
                    let w = word(*k);
                    inputs.push(format!("{w} {w}1{w}.a{w} {w}"));
                }
                for k in 0..n.min(300) {
                    let d = cells(k);
                    line(format!("pass2 @1-{d} @{}", cells(k + 1000)));
                    line(format!("pass3 @{} @5-{}", cells(k + 1000), cells(k + 7)));
                    line(format!("always {} 1-{d}", ch(k)));
                }
                for k in &pick {
                    inputs.push(format!("a{}b{}", ch(*k), ch(*k / 2)));
                }
            }
            "C10" => {
                for k in 0..n {
                    line(format!("attribute klass{} {}", word(k), ["a", "b", "c", "d", "ab", "cd", "1"][k % 7]));
                    line(format!("swapcc swap{} {} {}", word(k), ["ab", "cd", "ace"][k % 3], ["cd", "ea", "dab"][k % 3]));
                }
                for k in pick.clone() {
                    line(format!("noback context \"{}\"[%klass{}] @{}", word(k), word(k), cells(k)));
                    line(format!("noback correct \"12{}\"[%swap{}] %swap{}", word(k), word(k), word(k)));
                    line(format!("noback context \",{}\" #{}={}@{}", word(k), 1 + k % 49, k % 256, cells(k + 3)));
                    line(format!("noback context #{}={}\".{}\" @{}", 1 + k % 49, k % 256, word(k), cells(k + 5)));
                }
                for k in &pick {
                    let w = word(*k);
                    inputs.push(format!("{w}a{w}b{w}c{w}d{w}1 12{w}a12{w}b12{w}c12{w}d12{w}e .{w},{w}.{w}"));
                }
            }
            "C11" => {
                line("numsign 3456".into());
                line("nonumsign 56".into());
                for k in 0..n {
                    let c = ch(k);
                    match k % 6 {
                        0 => line(format!("litdigit {c} {}", cells(k).split('-').next().unwrap())),
                        1 => {
                            line(format!("punctuation {c} {}", cells(k)));
                            line(format!("midnum {c} {}", cells(k + 9)));
                        }
                        2 => {
                            line(format!("letter {c} {}", cells(k)));
                            line(format!("numericnocontchars {c}"));
                        }
                        3 => {
                            line(format!("sign {c} {}", cells(k)));
                            line(format!("numericmodechars {c}"));
                        }
                        4 => {
                            line(format!("letter {c} {}", cells(k)));
                            line(format!("always 1{c} {}", cells(k + 9)));
                        }
                        _ => {
                            line(format!("punctuation {c} {}", cells(k)));
                            line(format!("midendnumericmodechars {c}"));
                        }
                    }
                }
                for k in &pick {
                    let s: String = (0..6).map(|j| ch((*k + j) % n)).collect();
                    let d: String = (0..6).map(|j| format!("1{}", ch((*k + j) % n))).collect();
                    inputs.push(format!("{s}1{s} {d}"));
                }
            }
            "C12" => {
                line("capsletter 6\nbegcapsword 6-6\nendcapsword 6-3\nbegcapsphrase 6-6-6\nendcapsphrase after 6-6-3\nlencapsphrase 3\ncapsmodechars -'".into());
                line("punctuation - 36\npunctuation ' 3".into());
                let up: Vec<char> = (0x100..0x600u32).filter_map(char::from_u32).filter(|c| c.is_uppercase() && c.to_lowercase().count() == 1).take(n).collect();
                for (k, c) in up.iter().enumerate() {
                    line(format!("lowercase {} {}", c.to_lowercase(), cells(k)));
                    line(format!("base uppercase {c} {}", c.to_lowercase()));
                }
                for k in &pick {
                    let c: String = (0..4).map(|j| up[(*k + j) % up.len()]).collect();
                    let l = c.to_lowercase();
                    inputs.push(format!("{c} {l} {c}{l} {l}{c} {} {c} {c} {c}-{c} {l}", c.chars().next().unwrap()));
                }
            }
            "C13" if n < 300 => {
                for k in 0..n {
                    line(format!("emphclass em{}", word(k)));
                }
                for k in 0..n {
                    let e = word(k);
                    line(match k % 4 {
                        0 => format!("begemph em{e} {}\nendemph em{e} {}", cells(k), cells(k + 500)),
                        1 => format!("emphletter em{e} {}\nbegemphword em{e} {}\nendemphword em{e} {}", cells(k), cells(k + 300), cells(k + 500)),
                        2 => format!("emphletter em{e} {}\nbegemphword em{e} {}\nbegemphphrase em{e} {}\nendemphphrase em{e} after {}\nlenemphphrase em{e} 3", cells(k), cells(k + 300), cells(k + 400), cells(k + 500)),
                        _ => format!("begemphword em{e} {}\nbegemphphrase em{e} {}\nendemphphrase em{e} before {}\nlenemphphrase em{e} 2", cells(k), cells(k + 400), cells(k + 500)),
                    });
                }
                inputs.push("ab cd ea b ab cde".into());
                let mut p = pick.clone();
                p.sort();
                p.dedup();
                r.shuffle(&mut p);
                for (j, k) in p.iter().take(4).enumerate() {
                    let (a, b) = [(0, 17), (1, 5), (3, 11), (6, 7)][j];
                    spans.push((format!("em{}", word(*k)), a, b));
                }
            }
            "C14" => {
                line("letsign 56".into());
                for k in 0..n {
                    line(match k % 3 {
                        0 => format!("contraction {}", word(k)),
                        1 => format!("contraction {}\nalways {} {}", word(k), word(k), cells(k)),
                        _ => format!("noletsign {}", ch(k)),
                    });
                    line(format!("letter {} {}", ch(k), cells(k)));
                }
                for k in &pick {
                    let w = word(*k);
                    inputs.push(format!("{w} a{w} {w}, {w}b {} {}{}", ch(*k), ch(*k), ch((*k + 1) % n)));
                }
            }
            "C15" => {
                line("begcomp 456-346\nendcomp 456-156".into());
                for k in 0..n {
                    line(format!("compbrl {}", word(k)));
                    line(format!("comp6 {} {}", ch(k), cells(k)));
                }
                line("always ab 3".into());
                for k in &pick {
                    let w = word(*k);
                    inputs.push(format!("ab {w} ab a{w}.ab {}b {}{w} {}", ch(*k), ch(*k), word(k + n)));
                }
            }
            _ => continue,
        }
        v.push(Case { prop: id.into(), kind: "many".into(), table: format!("{BASE}{rules}"), inputs, spans, ..Default::default() });
    }
    v
}

macro_rules! engine {
    ($m:ident, $id:literal, $quick:literal, $gen:expr, $about:expr, $rule:literal, $assume:expr) => {
        pub mod $m {
            use super::*;
            fn check(c: &Case, st: &mut Stats) -> Outcome {
                mcheck::check(c, $about, st)
            }
            fn fixed(_: Tier) -> Vec<Case> {
                let mut v = sizes($id);
                v.extend(many($id));
                v
            }
            fn sized(r: &mut Rng, i: u64, t: Tier) -> Option<Case> {
                $gen(r, i, t).map(|c| lengthen(c, r))
            }
            pub static P: Prop = Prop {
                id: $id,
                quick: $quick,
                thorough_secs: 240,
                gen: sized,
                check,
                plain: sut::plain_run,
                fixed,
                shrink: true,
                rule: $rule,
                assumptions: $assume,
            };
        }
    };
}

const ASSUME: &[&str] = &[
    "the reference model in harness/src/model says what the table means",
    "where several rules are equally long and equally good either may be used",
    "hooks of --cfg louis_verif report the pieces that the translation is made of; without them only the final output is judged",
];

fn pick_dir(r: &mut Rng, p_backward: usize) -> bool {
    r.chance(p_backward)
}

fn gen06(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 25);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Trans, F::Attr], backward, 25, 6, 16));
    }
    let mut g = Gen::new(r);
    let short = g.r.chance(60);
    if short {
        g.lower = g.lower.chars().take(3).collect();
        g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    }
    g.defs(false);
    if g.r.chance(50) {
        g.attributes();
    }
    let all = kinds();
    let k: Vec<&str> = if g.r.chance(50) { all.clone() } else { (0..3).map(|_| *g.r.pick(&all)).collect() };
    for _ in 0..g.many(2, 14) {
        g.trans(&k, 5);
    }
    // the same characters with other opcodes
    for _ in 0..g.r.below(4) {
        let w = g.r.pick(&g.words.clone()).clone();
        let d = g.dots(1, 2);
        let k = *g.r.pick(&all);
        g.push(format!("{k} {} {d}", crate::util::escape_operand(&w)));
    }
    // rules of many characters, and shorter ones that begin the same
    let mut long = vec![];
    if g.r.chance_of(15, 1000) {
        let n = *g.r.pick(&[63usize, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 520]);
        let al: String = g.lower.chars().take(2).collect();
        let w: Vec<char> = g.r.string(&al, n, n).chars().collect();
        let mut sizes = vec![n];
        for _ in 0..g.r.range(1, 3) {
            sizes.push(*g.r.pick(&[2usize, 3, 5, 10, 30, 100]));
            if n > 3 {
                sizes.push(g.r.range(2, n - 1));
            }
        }
        for k in sizes {
            let p: String = w.iter().take(k).collect();
            let d = if backward { g.r.range(1, 3) } else { 1 };
            let d = g.dots(d, d);
            g.push(format!("always {p} {d}"));
            if backward {
                // as long in cells
                let v: Vec<String> = (0..k).map(|_| g.r.pick(&["1", "12"]).to_string()).collect();
                long.push(crate::model::parse::cells(&v.join("-")).unwrap_or_default());
                let dots = g.r.string("xyz", 2, 3);
                g.push(format!("always {} {}", dots, v.join("-")));
            } else {
                long.push(p);
            }
        }
    }
    if g.r.chance(30) {
        let Gen { r, lines, .. } = &mut g;
        r.shuffle(lines);
    }
    let mut inputs = g.inputs(backward, 8, 16);
    for l in &long {
        let (a, b) = (g.r.pick(&inputs).clone(), g.r.pick(&long).clone());
        inputs.push(match g.r.below(3) {
            0 => l.clone(),
            1 => format!("{a}{l}{b}"),
            _ => format!("{l} {}", b.chars().skip(1).collect::<String>()),
        });
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn gen07(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 30);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 40));
    }
    if i % 6 == 5 {
        return Some(mixed(r, &[], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    // more exotic characters to define
    if g.r.chance(40) {
        let pool = "\u{a0}éÉñÑдДωΩςΣßẞıİǆǅǄﬁ中\u{1F600}\u{301}\u{e000}~!\"#%&()*/:;<=>?@[]^_`{|}\\0189fxXAF";
        g.other = g.r.subset(pool, 25);
        if g.other.is_empty() {
            g.other.push('\\');
        }
    }
    g.defs(false);
    // further definitions, also of characters that have one
    for _ in 0..g.r.below(6) {
        let k = *g.r.pick(&["letter", "lowercase", "uppercase", "digit", "litdigit", "punctuation", "sign", "math", "space", "decpoint", "hyphen"]);
        let c = if g.r.chance(60) { g.some_char() } else { g.r.pick_char("zZ9?é\u{130}\\xfF057\"!") };
        let d = g.dots(1, 3);
        g.push(format!("{k} {} {d}", crate::util::escape_operand(&c.to_string())));
    }
    for _ in 0..g.r.below(4) {
        let a = g.r.pick_char("zZéÉ\u{130}qQ5");
        let b = g.some_char();
        let cl = *g.r.pick(&["uppercase", "lowercase", "letter", "punctuation", "xyz"]);
        if a != b {
            g.push(format!("base {cl} {a} {}", crate::util::escape_operand(&b.to_string())));
        }
    }
    for _ in 0..g.r.below(5) {
        g.trans(&["always", "word", "begword", "syllable", "sufword", "midword", "endnum"], 5);
    }
    for _ in 0..g.r.below(3) {
        let d = g.defined();
        let w = g.r.string(&d, 1, 3);
        let k = *g.r.pick(&["always", "word", "begword", "endword", "sufword"]);
        if w.chars().any(|c| c == ' ') {
            continue;
        }
        g.words.push(w.clone());
        g.push(format!("{k} {} =", crate::util::escape_operand(&w)));
    }
    if g.r.chance(25) {
        let Gen { r, lines, .. } = &mut g;
        r.shuffle(lines);
    }
    if g.r.chance(30) {
        // rules that the definitions have to show through
        let k = g.r.below(3);
        for _ in 0..k {
            g.match_rule(0);
        }
    }
    g.undef.push_str("\u{0}\u{7f}\u{ffff}\u{10ffff}\u{d7ff}0123456789abcdefgx\\");
    let mut inputs = g.inputs(backward, 6, 14);
    if !backward {
        let pool: String = format!("{}{}", g.defined(), g.undef);
        for _ in 0..2 {
            inputs.push(g.r.string(&pool, 1, 10));
        }
    } else {
        let pool = g.undef.clone();
        inputs.push(g.r.string(&pool, 1, 5));
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn gen08(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 10);
    if i % 16 == 15 {
        let mut c = real(r, backward, 4, 50);
        let name = *r.pick(&["en-us-g2.ctb", "fr-bfu-g2.ctb", "ar-ar-g2.ctb", "en-ueb-g1.ctb", "fuzz_maximal.ctb"]);
        c.set("real", name);
        return Some(c);
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Match, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.lower = g.lower.chars().take(3).collect();
    g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    g.defs(false);
    for _ in 0..g.r.below(3) {
        g.trans(&["always", "word", "midword", "begword"], 0);
    }
    if g.r.chance(25) {
        let s = g.r.subset(&g.defined(), 30).replace(' ', "");
        if !s.is_empty() {
            let n = *g.r.pick(&["seqdelimiter", "seqbeforechars", "seqafterchars"]);
            g.push(format!("{n} {}", crate::util::escape_operand(&s)));
        }
    }
    if g.r.chance(20) {
        // classes that are named by digits
        for n in ["0", "1", "2"] {
            let s = g.r.subset(&g.defined(), 30).replace(' ', "");
            if !s.is_empty() {
                g.push(format!("attribute {n} {}", crate::util::escape_operand(&s)));
            }
        }
    }
    g.fillers(&["match", "match", "match", "attribute"]);
    for _ in 0..g.many(1, 4).min(40) {
        g.match_rule(4);
    }
    let low: Vec<char> = g.lower.chars().collect();
    if low.len() == 3 && low.iter().all(|c| c.is_ascii_alphabetic()) && g.r.chance(8) {
        // many ways through a pattern
        let d = g.r.range(1, 4);
        let u = super::robust::unit(g.r, d);
        let n = (*g.r.pick(&[1usize, 2, 3, 8])).min(300 / u.len()).max(1);
        let u: String = u.repeat(n).chars().map(|c| if let 'a'..='c' = c { low[c as usize - 97] } else { c }).collect();
        let w = g.r.string(&g.lower.clone(), 1, 2);
        let d = g.dots(1, 2);
        let l = match g.r.below(3) {
            0 => format!("noback match {u} {w} - {d}"),
            1 => format!("noback match - {w} {u} {d}"),
            _ => format!("noback match {u} {w} {u} {d}"),
        };
        let class = if g.r.chance(50) { "%a" } else { "%l" };
        g.push(l.replace("%l", class));
    }
    let mut inputs = g.inputs(backward, 10, 14);
    if g.r.chance(15) {
        for s in &mut inputs {
            let mut v: Vec<char> = s.chars().collect();
            if !v.is_empty() {
                let k = g.r.below(v.len());
                v[k] = g.r.pick_char("()[].*-\\%!|$");
            }
            *s = v.into_iter().collect();
        }
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn gen09(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 35);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 6 == 5 {
        return Some(mixed(r, &[F::Context, F::Correct, F::Pass, F::Trans], backward, 20, 6, 14));
    }
    let mut g = Gen::new(r);
    g.lower = g.lower.chars().take(3).collect();
    g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    g.defs(false);
    if g.r.chance(40) {
        g.trans(&["always", "word"], 0);
    }
    if g.r.chance(40) {
        g.swap();
    }
    g.fillers(&["correct", "context", "pass2", "pass3", "pass4"]);
    for _ in 0..g.many(1, 5).min(40) {
        let s = *g.r.pick(&["context", "correct", "correct", "pass2", "pass3", "pass4"]);
        let v = g.r.chance(20);
        g.multi(s, v, 5);
    }
    // an insertion before something that is passed in one way or the other, again and again
    let mut more = vec![];
    if !backward && g.r.chance(10) {
        let mut unit = match g.r.below(5) {
            0 => g.r.string(&g.undef.clone(), 1, 1),
            1 => g.r.string(&g.upper.clone(), 1, 2),
            2 => g.r.string(&g.digits.clone(), 1, 2),
            _ => g.r.string(&g.lower.clone(), 1, 3),
        };
        if g.r.chance(30) {
            let k = g.r.string(&g.lower.clone(), 1, 1);
            unit.push_str(&k);
        }
        let first: String = unit.chars().take(1).collect();
        let e = crate::util::escape_operand;
        let d = g.dots(1, 2);
        match g.r.below(6) {
            0 | 1 => g.push(format!("nocross always {} {d}", e(&unit))),
            2 => g.push(format!("always {} {d}", e(&unit))),
            3 => g.push(format!("match - {} - {d}", e(&unit))),
            4 => g.push(format!("undefined {d}")),
            _ => {}
        }
        let d = g.dots(1, 2);
        let (s, q) = (*g.r.pick(&["context", "context", "correct"]), |x: &str| e(x).replace('"', "\\\""));
        let out = if s == "correct" { "\"a\"".to_string() } else { format!("@{d}") };
        let t = match g.r.below(3) {
            0 => format!("[]\"{}\"", q(&unit)),
            1 => format!("[]\"{}{}\"", q(&unit), q(&first)),
            _ => format!("[]\"{0}{0}\"", q(&unit)),
        };
        g.push(format!("{s} {t} {out}"));
        for n in [2, 3, 5] {
            let (a, b) = (g.text(1), g.text(1));
            more.push(format!("{a}{}{b}", unit.repeat(n)));
        }
        more.push(format!("{}{first}", unit.repeat(3)));
    }
    let mut inputs = g.inputs(backward, 8, 14);
    inputs.extend(more);
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

/// rules that work with variables: modes, toggles and counters
fn gen10(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 25);
    if i % 16 == 15 {
        let mut c = real(r, backward, 4, 50);
        let name = *r.pick(&["ru-litbrl.ctb", "uz-g1.utb", "ar-ar-g2.ctb", "en-us-g2.ctb"]);
        c.set("real", name);
        return Some(c);
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Context, F::Correct, F::Pass, F::Vars, F::Swap], backward, 15, 6, 14));
    }
    let mut g = Gen::new(r);
    g.lower = g.lower.chars().take(3).collect();
    g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    g.defs(false);
    for _ in 0..g.r.below(3) {
        g.swap();
    }
    let stage = *g.r.pick(&["context", "correct", "pass2", "pass3"]);
    for _ in 0..g.r.range(2, 6) {
        let s = if g.r.chance(70) { stage } else { *g.r.pick(&["context", "correct", "pass2", "pass4"]) };
        let var = g.var();
        let cmp = |g: &mut Gen, var: u8| {
            let op = *g.r.pick(&["=", "<", ">", "<=", ">="]);
            let neg = if g.r.chance(20) { "!" } else { "" };
            format!("{neg}#{var}{op}{}", g.value(3))
        };
        let lit = if s.starts_with("pass") {
            let d = g.r.pick(&g.dots_used.clone()).clone();
            format!("@{}", d.split('-').next().unwrap())
        } else {
            format!("\"{}\"", g.some_char()).replace(' ', "\\s").replace("\"\"\"", "\"\\\"\"")
        };
        let out = |g: &mut Gen| {
            if s == "correct" {
                let al = format!("{}{}", g.lower, g.digits);
                format!("\"{}\"", g.r.string(&al, 1, 2))
            } else {
                format!("@{}", g.dots(1, 2))
            }
        };
        // several changes, at times of one variable
        let assign = |g: &mut Gen| g.effects(3);
        let (t, a) = match g.r.below(7) {
            // assign on a character
            0 => (lit, format!("{}{}", out(&mut g), assign(&mut g))),
            1 => (lit, format!("*{}", assign(&mut g))),
            // react to the value
            2 => (format!("{}{lit}", cmp(&mut g, var)), out(&mut g)),
            3 => (format!("{}[]{lit}", cmp(&mut g, var)), format!("{}{}", out(&mut g), assign(&mut g))),
            4 => (format!("{lit}{}", cmp(&mut g, var)), out(&mut g)),
            5 => {
                let k = g.r.pick_char("dlpsUu");
                (format!("{lit}[]{}${k}", cmp(&mut g, var)), format!("{}{}", out(&mut g), assign(&mut g)))
            }
            _ => {
                if g.swaps.is_empty() {
                    ({ let [a, b] = g.vars; format!("{}{}{lit}", cmp(&mut g, a), cmp(&mut g, b)) }, out(&mut g))
                } else {
                    let sw = g.r.pick(&g.swaps.clone()).clone();
                    let sw2 = g.r.pick(&g.swaps.clone()).clone();
                    match g.r.below(3) {
                        0 => (format!("%{sw}"), format!("%{sw2}")),
                        1 => (format!("{}[%{sw}.]", cmp(&mut g, var)), format!("%{sw2}")),
                        _ => (format!("{lit}[$l1-3]"), format!("%{sw}{}", assign(&mut g))),
                    }
                }
            }
        };
        let p = g.dir(s, 4);
        g.push(format!("{p}{s} {t} {a}"));
    }
    let inputs = g.inputs(backward, 10, 14);
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn numbers_text(g: &mut Gen, n: usize) -> String {
    let mut s = String::new();
    while s.chars().count() < n {
        let p = match g.r.below(10) {
            0..=3 => g.r.string(&g.digits.clone(), 1, 4),
            4 | 5 => g.r.pick_char(&g.punct.clone()).to_string(),
            6 => g.r.pick_char(&g.lower.clone()).to_string(),
            7 => g.r.pick_char(&format!("{}{}", g.upper, g.other)).to_string(),
            8 if !g.words.is_empty() => g.r.pick(&g.words.clone()).clone(),
            _ => " ".to_string(),
        };
        s.push_str(&p);
    }
    s
}

fn gen11(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 10);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Num, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.defs(false);
    if g.r.chance(60) {
        // make sure the digits are literary ones
        for c in g.digits.clone().chars() {
            let d = g.dots(1, 1);
            g.push(format!("litdigit {c} {d}"));
        }
    }
    g.numeric();
    for _ in 0..g.r.below(5) {
        g.trans(&["always", "begnum", "midnum", "endnum", "joinnum", "word", "begword", "largesign"], 4);
    }
    let al = format!("{}{}", g.digits, g.punct);
    if g.r.chance(40) {
        let w = g.r.string(&al, 2, 3);
        let d = g.dots(1, 2);
        g.words.push(w.clone());
        g.push(format!("always {w} {d}"));
    }
    if g.r.chance(30) {
        let al = format!("{}{}", g.digits, g.r.pick(&[g.punct.clone(), g.lower.clone(), String::new()]));
        let w = g.r.string(&al, 2, 3);
        let d = g.dots(1, 2);
        g.words.push(w.clone());
        g.push(format!("nocross always {w} {d}"));
    }
    if g.r.chance(15) {
        g.multi("context", false, 0);
    }
    let mut inputs = g.inputs(backward, 3, 12);
    if !backward {
        for _ in 0..6 {
            let n = g.r.range(1, 14);
            inputs.push(numbers_text(&mut g, n));
        }
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn caps_text(g: &mut Gen, n: usize) -> String {
    let mut s = String::new();
    while s.chars().count() < n {
        let w = g.r.string(&g.lower.clone(), 1, 4);
        let p = match g.r.below(12) {
            0..=3 => w.to_uppercase(),
            4 => {
                let mut it = w.chars();
                it.next().map(|c| c.to_uppercase().chain(it).collect()).unwrap_or_default()
            }
            5 => w,
            6 => g.r.pick_char(&g.punct.clone()).to_string(),
            7 => g.r.pick_char(&format!("{}{}", g.digits, g.other)).to_string(),
            8 if !g.words.is_empty() => g.r.pick(&g.words.clone()).to_uppercase(),
            _ => " ".to_string(),
        };
        s.push_str(&p);
    }
    s
}

fn gen12(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 15);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Caps, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.lower = g.lower.chars().take(4).collect();
    g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    g.defs(false);
    g.caps();
    for _ in 0..g.r.below(4) {
        g.trans(&["always", "word", "begword", "midword", "endword"], 0);
    }
    let mut inputs = g.inputs(backward, 2, 12);
    if !backward {
        let long = g.lines.iter().any(|l| l.starts_with("lencapsphrase") && !l.ends_with(['2', '3', '4']));
        for _ in 0..8 {
            let n = g.r.range(1, if long { 60 } else { 20 });
            inputs.push(caps_text(&mut g, n));
        }
        if long {
            // nothing but capitals
            for _ in 0..3 {
                let n = g.r.range(4, 14);
                let v: Vec<String> = (0..n).map(|_| g.r.string(&g.lower.clone(), 1, 3).to_uppercase()).collect();
                inputs.push(v.join(" "));
            }
        }
        // passages of many words
        if g.r.chance(2) {
            let n = *g.r.pick(&[31usize, 65, 130, 255, 256, 257, 300]);
            let v: Vec<String> = (0..n).map(|_| g.r.string(&g.lower.clone(), 1, 2).to_uppercase()).collect();
            inputs.push(v.join(" "));
        }
        // words of many capitals
        if g.r.chance(2) && !g.upper.is_empty() {
            for n in [64, 65, 128, 256, 257, 258] {
                let w = g.r.string(&g.upper.clone(), n, n);
                let a = g.r.string(&g.lower.clone(), 0, 2);
                let b = if g.r.chance(50) { String::new() } else { caps_text(&mut g, 3) };
                inputs.push(format!("{a} {w} {b}").trim().to_string());
            }
        }
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn gen13(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 10);
    if i % 16 == 15 {
        let mut c = real(r, backward, 4, 50);
        let name = *r.pick(&["en-ueb-g1.ctb", "en-us-g2.ctb", "fr-bfu-g2.ctb", "fuzz_maximal.ctb"]);
        let t = realtab::get(name);
        c.spans.clear();
        if !t.emph.is_empty() {
            for _ in 0..r.range(1, 4) {
                let a = r.below(50);
                let b = a + r.below(25);
                c.spans.push((r.pick(&t.emph).clone(), a, b));
            }
        }
        c.set("real", name);
        return Some(c);
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Emph, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.defs(false);
    let mut names = g.emph();
    if names.is_empty() {
        return None;
    }
    if g.r.chance(10) {
        names.push("nosuch".into());
    }
    for _ in 0..g.r.below(3) {
        g.trans(&["always", "word", "begword"], 0);
    }
    if g.r.chance(20) {
        g.caps();
    }
    let mut inputs = vec![];
    let long = g.lines.iter().any(|l| l.starts_with("lenemphphrase") && !l.ends_with(['1', '2', '3', '4']));
    for _ in 0..6 {
        // words of different lengths, single letters among them
        let mut s = String::new();
        for _ in 0..if long { g.r.range(4, 15) } else { g.r.range(1, 7) } {
            let w = g.r.string(&g.lower.clone(), 1, 3);
            s.push_str(&w);
            match g.r.below(6) {
                0 => s.push(g.r.pick_char(&g.punct.clone())),
                1 => {}
                2 => s.push_str("  "),
                _ => s.push(' '),
            }
        }
        if g.r.chance(20) {
            s.insert(0, ' ');
        }
        inputs.push(s);
    }
    // many words, or a long one
    let many = g.r.chance_of(15, 1000);
    if many {
        let n = *g.r.pick(&[31usize, 65, 130, 255, 256, 257, 258, 300]);
        let v: Vec<String> = (0..n).map(|_| g.r.string(&g.lower.clone(), 1, 2)).collect();
        inputs[0] = v.join(if g.r.chance(80) { " " } else { "" });
    }
    let len = inputs.iter().map(|s| s.chars().count()).max().unwrap_or(0);
    let mut spans = if many { vec![(g.r.pick(&names).clone(), 0, len)] } else { g.spans(&names, len) };
    // spans that cover exactly words
    if g.r.chance(60) {
        let t: Vec<char> = inputs[0].chars().collect();
        let starts: Vec<usize> = (0..t.len()).filter(|&i| t[i] != ' ' && (i == 0 || t[i - 1] == ' ')).collect();
        let ends: Vec<usize> = (1..=t.len()).filter(|&i| t[i - 1] != ' ' && (i == t.len() || t[i] == ' ')).collect();
        if !starts.is_empty() {
            for _ in 0..g.r.range(1, 3) {
                let a = g.r.below(starts.len());
                let b = g.r.range(a, ends.len() - 1);
                let n = g.r.pick(&names).clone();
                spans.push((n, starts[a], ends[b]));
            }
        }
    }
    Some(Case { table: g.finish(), backward, inputs, spans, ..Default::default() })
}

fn gen14(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 10);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Let, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.lower = g.lower.chars().take(4).collect();
    g.upper = g.lower.to_uppercase().chars().filter(|c| !g.lower.contains(*c)).collect();
    g.defs(false);
    g.letsign();
    for _ in 0..g.r.below(4) {
        g.trans(&["always", "word", "begword", "midword", "endword"], 0);
    }
    let mut inputs = g.inputs(backward, 4, 12);
    if !backward {
        for _ in 0..6 {
            let mut s = String::new();
            for _ in 0..g.r.range(1, 6) {
                let w = if !g.words.is_empty() && g.r.chance(40) {
                    g.r.pick(&g.words.clone()).clone()
                } else {
                    g.r.string(&g.lower.clone(), 1, 2)
                };
                s.push_str(&if g.r.chance(15) { w.to_uppercase() } else { w });
                if g.r.chance(30) {
                    s.push(g.r.pick_char(&format!("{}{}", g.punct, g.digits)));
                }
                if g.r.chance(75) {
                    s.push(' ');
                }
            }
            inputs.push(s);
        }
    }
    Some(Case { table: g.finish(), backward, inputs, ..Default::default() })
}

fn gen15(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 10);
    if i % 16 == 15 {
        return Some(real(r, backward, 4, 50));
    }
    if i % 5 == 4 {
        return Some(mixed(r, &[F::Comp, F::Trans], backward, 20, 6, 16));
    }
    let mut g = Gen::new(r);
    g.defs(false);
    g.comp();
    for _ in 0..g.r.range(1, 5) {
        g.trans(&["always", "word", "begword", "midword", "endword"], 0);
    }
    if g.r.chance(20) {
        g.match_rule(0);
    }
    if g.r.chance(20) {
        g.caps();
    }
    if g.r.chance(20) {
        g.numeric();
    }
    let inputs = g.inputs(backward, 8, 20);
    let spans = if g.r.chance(55) {
        // disjoint spans
        let mut v = vec![];
        let mut a = g.r.below(4);
        for _ in 0..g.r.range(1, 3) {
            let b = a + g.r.range(0, 6);
            v.push(("computer_braille".to_string(), a, b));
            a = b + g.r.range(0, 5);
        }
        v
    } else {
        vec![]
    };
    Some(Case { table: g.finish(), backward, inputs, spans, ..Default::default() })
}

/// patterns of a hyphenation dictionary
fn dictionary(g: &mut Gen, extra: &str) -> String {
    let mut d = String::from(if g.r.chance(85) { "UTF-8\n" } else { *g.r.pick(&["utf-8\n", " UTF-8 \n", "", "", "# UTF-8\n", "\n"]) });
    // the numbers of the patterns
    let top = *g.r.pick(&[2usize, 5, 5, 9, 9]);
    for side in ["LEFTHYPHENMIN", "RIGHTHYPHENMIN"] {
        if g.r.chance(30) {
            let n = *g.r.pick(&[0usize, 1, 2, 2, 2, 3, 3, 4, 5, 255]);
            let gap = *g.r.pick(&[" ", " ", "\t", "  "]);
            d.push_str(&format!("{side}{gap}{n}\n"));
        }
    }
    for _ in 0..g.r.range(1, 8) {
        if g.r.chance(8) {
            d.push_str(g.r.pick(&["\n", "# a1b\n", "% 1c1\n", "  \n", "#a\n", "%a1b\n", "% comment\n", "%b1a\n", "  # a1b\n", "\t%\n", "%LEFTHYPHENMIN 9\n"]));
        }
        // the letters of long ones come from the words, if there are enough
        let long: Option<Vec<char>> = g.r.chance(10).then(|| g.words.concat().chars().filter(|c| c.is_alphabetic()).collect());
        let n = if long.is_some() { *g.r.pick(&[5usize, 7, 8, 9, 10, 12, 15, 16, 17, 20, 33]) } else { g.r.range(1, 4) };
        let mut p = String::new();
        if g.r.chance(15) {
            p.push('.');
        }
        let mut digit = false;
        for k in 0..n {
            if g.r.chance(50) {
                let low = usize::from(!g.r.chance(3));
                let v = g.r.range(low, top);
                p.push((b'0' + v as u8) as char);
                digit |= v > 0;
            }
            match long.as_ref().and_then(|l| l.get(k)) {
                Some(c) => p.push(*c),
                None => p.push(g.r.pick_char(&format!("{}{extra}", g.lower))),
            }
            if k == n - 1 && (!digit || g.r.chance(30)) {
                p.push((b'0' + g.r.range(1, top) as u8) as char);
            }
        }
        if let Some(l) = &long {
            let letters: String = l.iter().take(n).collect();
            if g.r.chance(70) {
                g.words.push(letters);
            }
        }
        if g.r.chance(15) {
            p.push('.');
        }
        // blanks around it don't count
        let (before, after) = if g.r.chance(4) { *g.r.pick(&[(" ", ""), ("\t", ""), ("", "  "), ("  ", "\t")]) } else { ("", "") };
        d.push_str(&format!("{before}{p}{after}\n"));
    }
    if g.r.chance(5) {
        d = d.replace('\n', "\r\n");
    }
    d
}

fn gen16(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let backward = pick_dir(r, 15);
    let mut g = Gen::new(r);
    // also characters of several bytes
    let al = *g.r.pick(&["abcd", "abcd", "abcd", "абвг", "aбcж", "ašbä"]);
    g.lower = al.chars().take(g.r.range(2, 4)).collect();
    g.upper = g.lower.to_uppercase();
    // a letter that isn't one elsewhere
    let extra = if g.r.chance(12) { g.punct.pop().map(String::from).unwrap_or_default() } else { String::new() };
    g.defs(false);
    if !extra.is_empty() {
        let d = g.dots(1, 1);
        g.push(format!("letter {extra} {d}"));
    }
    for _ in 0..g.r.range(1, 5) {
        let k = if g.r.chance(8) {
            *g.r.pick(&["begnum", "midnum", "endnum", "joinnum", "prepunc", "postpunc"])
        } else {
            *g.r.pick(&["always", "word", "sufword", "prfword", "begword", "begmidword", "midword", "midendword", "endword", "partword"])
        };
        let al = format!("{}{extra}", g.lower);
        let mut w = if k.ends_with("punc") { g.r.string(".,-'", 1, 2) } else { g.r.string(&al, 2, 4) };
        if !k.ends_with("punc") && g.r.chance(2) {
            // a long one, mostly of one letter so that many a dictionary has no point for a long way
            let n = *g.r.pick(&[5usize, 8, 14, 16, 17, 20, 31, 33, 64, 65, 130, 257]);
            let a = g.r.string(&al, 1, 1).repeat(n);
            let (x, y) = (g.r.below(2), g.r.range(1, 3));
            w = format!("{}{a}{}", g.r.string(&al, x, x), g.r.string(&al, y, y));
        }
        let d = g.dots(1, 2);
        g.words.push(w.clone());
        let p = if k == "word" { "" } else { "nocross " };
        let dir = g.dir("always", 5);
        g.push(format!("{dir}{p}{k} {w} {d}"));
    }
    for _ in 0..g.r.below(5) {
        g.trans(&["always", "word", "begword", "midword", "endword", "syllable"], 0);
    }
    if i % 4 == 3 {
        if g.r.chance(50) {
            g.caps();
        }
        if g.r.chance(50) {
            g.numeric();
        }
        if g.r.chance(50) {
            g.comp();
        }
        if g.r.chance(30) {
            g.match_rule(0);
        }
    }
    if g.r.chance(25) {
        let d = g.dots(1, 1);
        let n = g.r.range(1, 3);
        let al = g.lower.clone();
        let l = g.r.string(&al, n, n + 1);
        // text inserted without reading any, before or after the rules it is longer than
        let t = *g.r.pick(&["[]", "[]$l", "$l[]", "[]\"x\"", "[]$l2", "[]$l3", "[]$l4", "[]$l3-5", "[]\"x\"$a2"]);
        g.push(format!("context {} @{d}", t.replace('x', &l)));
    }
    if g.r.chance(15) {
        g.multi("context", false, 0);
    }
    let dict = dictionary(&mut g, &extra);
    let mut files = vec![];
    if g.r.chance(85) {
        g.push("include h.dic");
        files.push(("h.dic".to_string(), dict));
    }
    if g.r.chance(20) {
        let Gen { r, lines, .. } = &mut g;
        r.shuffle(lines);
    }
    let mut inputs = g.inputs(backward, 5, 14);
    if !backward {
        for _ in 0..5 {
            let mut s = String::new();
            for _ in 0..g.r.range(1, 5) {
                let w = if g.r.chance(55) {
                    g.r.pick(&g.words.clone()).clone()
                } else if g.r.chance(4) {
                    g.r.string(".,-'", 1, 2)
                } else { g.r.string(&format!("{}{extra}", g.lower), 1, 4) };
                s.push_str(&w);
                if g.r.chance(25) {
                    s.push(' ');
                }
            }
            inputs.push(s);
        }
    }
    let mut c = Case { backward, inputs, ..Default::default() };
    let t = g.finish();
    if files.is_empty() {
        c.table = t;
    } else {
        c.files = vec![("t.ctb".to_string(), t)];
        c.files.extend(files);
    }
    Some(c)
}

engine!(c06, "C06", 60000, gen06, &["*"], "an evaluation is one stage of one translation compared with the model; nontrivial if a rule other than a definition was applied, distinct by input, applied rules and outputs", ASSUME);
engine!(c07, "C07", 60000, gen07, &["-", "letter", "lowercase", "uppercase", "base", "digit", "litdigit", "sign", "math", "punctuation", "space", "decpoint", "hyphen"], "an evaluation is one stage of one translation compared with the model; nontrivial if characters were translated by definition or fallback, distinct by input, applied rules and outputs", ASSUME);
engine!(c08, "C08", 60000, gen08, &["match"], "an evaluation is one stage of one translation compared with the model; nontrivial if a match rule was applied, distinct by input, applied rules and outputs", ASSUME);
engine!(c09, "C09", 60000, gen09, &["correct", "context", "pass2", "pass3", "pass4"], "an evaluation is one stage of one translation compared with the model; nontrivial if a correct, context or pass rule was applied, distinct by input, applied rules and outputs", ASSUME);
engine!(c10, "C10", 60000, gen10, &["correct", "context", "pass2", "pass3", "pass4"], "an evaluation is one stage of one translation compared with the model; nontrivial if a correct, context or pass rule was applied, distinct by input, applied rules and outputs", ASSUME);
engine!(c11, "C11", 60000, gen11, &["+"], "an evaluation is one stage of one translation compared with the model; nontrivial if an indicator was inserted, distinct by input, applied rules and outputs", ASSUME);
engine!(c12, "C12", 60000, gen12, &["+"], "an evaluation is one stage of one translation compared with the model; nontrivial if an indicator was inserted, distinct by input, applied rules and outputs", ASSUME);
engine!(c13, "C13", 60000, gen13, &["+"], "an evaluation is one stage of one translation compared with the model; nontrivial if an indicator was inserted, distinct by input, applied rules and outputs", ASSUME);
engine!(c14, "C14", 60000, gen14, &["+"], "an evaluation is one stage of one translation compared with the model; nontrivial if an indicator was inserted, distinct by input, applied rules and outputs", ASSUME);
engine!(c15, "C15", 60000, gen15, &["+", "comp6"], "an evaluation is one stage of one translation compared with the model; nontrivial if an indicator was inserted or a comp6 rule used, distinct by input, applied rules and outputs", ASSUME);
engine!(c16, "C16", 60000, gen16, &["*"], "an evaluation is one stage of one translation compared with the model; nontrivial if a rule other than a definition was applied, distinct by input, applied rules and outputs", ASSUME);
