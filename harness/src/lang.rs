//! The line language of tables: every opcode with its operands, to write well-formed lines,
//! lines that are malformed for a known reason, and anything in between
use crate::gen::{cell_text, Gen};
use crate::util::{escape_operand, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum O {
    Name,
    Emph,
    Names,
    Char,
    Chars,
    /// dots, not `=`
    Dots,
    /// dots or `=`
    DotsEq,
    Cell,
    Pos,
    Num,
    /// the rest depends on each other
    SwapCd,
    SwapDd,
    SwapCc,
    Grouping,
    TwoDots,
    OptChars,
    Test,
    Action,
    Pre,
    Post,
}

pub struct T {
    pub op: &'static str,
    pub args: &'static [O],
    /// nofor and noback are accepted
    pub dir: bool,
    /// nocross is accepted
    pub nocross: bool,
    /// before and after are accepted and used
    pub classes: bool,
}

const fn t(op: &'static str, args: &'static [O], dir: bool) -> T {
    T { op, args, dir, nocross: false, classes: false }
}
const fn x(op: &'static str, args: &'static [O], classes: bool) -> T {
    T { op, args, dir: true, nocross: true, classes }
}

use O::*;
pub const ALL: &[T] = &[
    t("undefined", &[Dots], false),
    t("display", &[Char, Cell], true),
    t("multind", &[Dots, Names], true),
    t("space", &[Char, Dots], true),
    t("punctuation", &[Char, Dots], true),
    t("digit", &[Char, Dots], true),
    t("grouping", &[Grouping], true),
    t("letter", &[Char, Dots], true),
    t("base", &[Name, Char, Char], false),
    t("lowercase", &[Char, Dots], true),
    t("uppercase", &[Char, Dots], true),
    t("litdigit", &[Char, Dots], true),
    t("sign", &[Char, Dots], true),
    t("math", &[Char, Dots], true),
    t("modeletter", &[Name, Dots], true),
    t("capsletter", &[Dots], true),
    t("begmodeword", &[Name, Dots], true),
    t("begcapsword", &[Dots], true),
    t("endcapsword", &[Dots], true),
    t("capsmodechars", &[Chars], false),
    t("begcaps", &[Dots], false),
    t("endcaps", &[Dots], false),
    t("begcapsphrase", &[Dots], false),
    t("endcapsphrase", &[Pos, Dots], false),
    t("lencapsphrase", &[Num], false),
    t("letsign", &[Dots], false),
    t("noletsign", &[Chars], false),
    t("noletsignbefore", &[Chars], false),
    t("noletsignafter", &[Chars], false),
    t("nocontractsign", &[Dots], true),
    t("numsign", &[Dots], false),
    t("nonumsign", &[Dots], true),
    t("numericnocontchars", &[Chars], false),
    t("numericmodechars", &[Chars], false),
    t("midendnumericmodechars", &[Chars], false),
    t("begmodephrase", &[Name, Dots], false),
    t("endmodephrase", &[Name, Pos, Dots], false),
    t("lenmodephrase", &[Name, Num], false),
    t("seqdelimiter", &[Chars], false),
    t("seqbeforechars", &[Chars], false),
    t("seqafterchars", &[Chars], false),
    t("seqafterpattern", &[Chars], false),
    t("seqafterexpression", &[Chars], false),
    t("class", &[Name, Chars], false),
    t("emphclass", &[Emph], false),
    t("begemph", &[Emph, Dots], true),
    t("endemph", &[Emph, Dots], true),
    t("noemphchars", &[Emph, Chars], false),
    t("emphletter", &[Emph, Dots], false),
    t("begemphword", &[Emph, Dots], false),
    t("endemphword", &[Emph, Dots], false),
    t("emphmodechars", &[Emph, Chars], false),
    t("begemphphrase", &[Emph, Dots], false),
    t("endemphphrase", &[Emph, Pos, Dots], false),
    t("lenemphphrase", &[Emph, Num], false),
    t("begcomp", &[Dots], true),
    t("endcomp", &[Dots], true),
    t("decpoint", &[Char, Dots], false),
    t("hyphen", &[Char, Dots], true),
    t("capsnocont", &[], false),
    t("compbrl", &[Chars], true),
    t("comp6", &[Chars, DotsEq], false),
    t("nocont", &[Chars], false),
    t("replace", &[Chars, OptChars], false),
    x("always", &[Chars, DotsEq], true),
    t("repeated", &[Chars, Dots], true),
    t("repword", &[Chars, Dots], false),
    t("rependword", &[Chars, TwoDots], false),
    t("largesign", &[Chars, Dots], false),
    T { op: "word", args: &[Chars, DotsEq], dir: true, nocross: false, classes: true },
    t("syllable", &[Chars, DotsEq], false),
    t("joinword", &[Chars, Dots], false),
    t("lowword", &[Chars, Dots], true),
    t("contraction", &[Chars], false),
    x("sufword", &[Chars, DotsEq], true),
    x("prfword", &[Chars, DotsEq], true),
    x("begword", &[Chars, DotsEq], true),
    x("begmidword", &[Chars, DotsEq], true),
    x("midword", &[Chars, DotsEq], true),
    x("midendword", &[Chars, DotsEq], true),
    x("endword", &[Chars, DotsEq], true),
    x("partword", &[Chars, DotsEq], true),
    t("exactdots", &[Chars], false),
    x("prepunc", &[Chars, Dots], false),
    x("postpunc", &[Chars, Dots], false),
    x("begnum", &[Chars, Dots], false),
    x("midnum", &[Chars, Dots], false),
    x("endnum", &[Chars, DotsEq], false),
    x("joinnum", &[Chars, Dots], false),
    t("attribute", &[Name, Chars], false),
    t("swapcd", &[SwapCd], false),
    t("swapdd", &[SwapDd], false),
    t("swapcc", &[SwapCc], false),
    t("context", &[Test, Action], true),
    t("pass2", &[Test, Action], true),
    t("pass3", &[Test, Action], true),
    t("pass4", &[Test, Action], true),
    t("correct", &[Test, Action], true),
    t("match", &[Pre, Chars, Post, DotsEq], true),
    t("literal", &[Chars], false),
];

/// what the texts of a table are made of
pub struct Pool {
    pub chars: String,
    pub names: Vec<String>,
    pub emph: Vec<String>,
    pub words: Vec<String>,
    pub dots: Vec<String>,
    pub swaps: Vec<String>,
}

pub fn pool(r: &mut Rng) -> Pool {
    let chars = match r.below(6) {
        0 => "abAB1 .-\u{130}\u{df}ıςé\u{301}".into(),
        1 => "ab\u{1F600}\u{1F1E6}x\u{200d}\u{feff}1A".to_string(),
        2 => "aA".into(),
        _ => "abcABC12 .,-'x".into(),
    };
    Pool {
        chars,
        names: ["vow", "xyz", "letter", "uppercase", "digit", "space", "3", "k1", "math"].iter().map(|s| s.to_string()).collect(),
        emph: ["italic", "bold", "trans1", "computer"].iter().map(|s| s.to_string()).collect(),
        words: vec![],
        dots: vec![],
        swaps: vec!["swa".into(), "swb".into()],
    }
}

fn dot(r: &mut Rng) -> String {
    let bits = match r.below(12) {
        0 => 0,
        1 => r.range(1, 0x7fff) as u32,
        _ => r.range(1, 63) as u32,
    };
    cell_text(bits)
}

fn dots(r: &mut Rng, p: &mut Pool, a: usize, b: usize) -> String {
    if !p.dots.is_empty() && r.chance(25) {
        return r.pick(&p.dots).clone();
    }
    let n = r.range(a, b);
    let d: Vec<String> = (0..n).map(|_| dot(r)).collect();
    let d = d.join("-");
    p.dots.push(d.clone());
    d
}

fn chars(r: &mut Rng, p: &mut Pool, a: usize, b: usize) -> String {
    let w = if !p.words.is_empty() && r.chance(30) {
        r.pick(&p.words).clone()
    } else {
        let al = p.chars.clone();
        r.string(&al, a, b)
    };
    p.words.push(w.clone());
    w
}

fn quoted(w: &str) -> String {
    let mut q = String::from("\"");
    for c in w.chars() {
        match c {
            ' ' => q.push_str("\\s"),
            '"' => q.push_str("\\\""),
            '\u{1680}'.. if c.is_whitespace() => q.push_str(&format!("\\x{:04x}", c as u32)),
            c => q.push(c),
        }
    }
    q.push('"');
    q
}

/// A number between `lo` and `hi`, now and then with leading zeros
fn num(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    if r.chance(5) {
        let w = r.range(1, 6);
        return format!("{n:0w$}");
    }
    n.to_string()
}

fn test(r: &mut Rng, p: &mut Pool, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let neg = r.chance(12);
        if neg {
            s.push('!');
        }
        match r.below(if neg { 9 } else { 13 }) {
            0 | 1 => s.push_str(&quoted(&chars(r, p, 1, 3))),
            2 => s.push_str(&format!("@{}", dots(r, p, 1, 2))),
            3 | 4 => {
                s.push('$');
                for _ in 0..r.range(1, 3) {
                    s.push(r.pick_char("adDlmpSsUuwxyz"));
                }
                match r.below(5) {
                    0 => s.push('.'),
                    1 => s.push_str(&num(r, 0, 3)),
                    2 => s.push_str(&format!("{}-{}", num(r, 0, 2), num(r, 3, 5))),
                    _ => {}
                }
            }
            5 => {
                let n = if r.chance(60) { r.pick(&p.swaps).clone() } else { r.pick(&["vow", "xyz", "letter"]).to_string() };
                s.push_str(&format!("%{n}"));
                match r.below(4) {
                    0 => s.push('.'),
                    1 => s.push_str("2-4"),
                    _ => {}
                }
            }
            6 => s.push(if r.chance(50) { '`' } else { '~' }),
            7 => {
                s.push_str(&format!("#{}{}{}", num(r, 0, 3), r.pick(&["=", "<", ">", "<=", ">="]), num(r, 0, 3)))
            }
            8 => s.push_str(&format!("_{}", num(r, 0, 3))),
            _ if depth > 0 => {
                s.push('[');
                if r.chance(85) {
                    s.push_str(&test(r, p, depth - 1));
                }
                s.push(']');
            }
            _ => s.push_str(&quoted(&chars(r, p, 1, 2))),
        }
    }
    s
}

fn action(r: &mut Rng, p: &mut Pool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        match r.below(9) {
            0 | 1 => s.push('*'),
            2 => s.push('?'),
            3 => s.push_str(&format!("%{}", r.pick(&p.swaps))),
            4 => s.push_str(&match r.below(8) {
                0 => format!("#{}{}", num(r, 0, 255), r.pick(&["+", "-"])),
                1 => format!("#{}={}", num(r, 0, 255), num(r, 0, 255)),
                _ => format!("#{}={}", num(r, 0, 3), num(r, 0, 3)),
            }),
            5 | 6 => s.push_str(&quoted(&chars(r, p, 1, 3))),
            _ => s.push_str(&format!("@{}", dots(r, p, 1, 3))),
        }
    }
    s
}

fn pattern(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        let neg = r.chance(12);
        if neg {
            s.push('!');
        }
        match r.below(if depth == 0 { 8 } else { 10 }) {
            0 => s.push('.'),
            1 | 2 => s.push_str(&r.string("abAB12", 1, 2)),
            3 => s.push_str(&format!("[{}]", r.string("abAB12.-", 1, 4))),
            4 | 5 => s.push_str(&format!("%{}", r.pick_char("_#aul.$^~<>0123"))),
            6 => s.push_str(&format!("%[{}]", r.string("_#aul.$^~<>0", 1, 3))),
            7 => s.push(r.pick_char("^$")),
            8 => s.push_str(&format!("({})", pattern(r, depth - 1))),
            _ => s.push_str(&format!("({}|{})", pattern(r, depth - 1), pattern(r, depth - 1))),
        }
        match r.below(8) {
            0 => s.push('?'),
            1 => s.push('*'),
            2 => s.push('+'),
            _ => {}
        }
    }
    if r.chance(10) {
        s.push('|');
        s.push_str(&r.string("ab1", 1, 2));
    }
    s
}

/// the operands of a template; without those that could be rejected for what other lines say
pub fn operands(r: &mut Rng, p: &mut Pool, t: &T, implicit: bool) -> Vec<String> {
    let mut v = vec![];
    for a in t.args {
        match a {
            Name => v.push(r.pick(&p.names).clone()),
            Emph => v.push(r.pick(&p.emph).clone()),
            Names => {
                for _ in 0..r.range(2, 4) {
                    v.push(r.pick(&p.emph).clone());
                }
            }
            Char => {
                let al = p.chars.clone();
                v.push(escape_operand(&r.pick_char(&al).to_string()));
            }
            Chars => {
                let w = chars(r, p, 1, 4);
                v.push(escape_operand(&w));
            }
            Dots => v.push(dots(r, p, 1, 3)),
            DotsEq => v.push(if implicit && r.chance(20) { "=".into() } else { dots(r, p, 1, 3) }),
            Cell => v.push(dot(r)),
            Pos => v.push(r.pick(&["before", "after"]).to_string()),
            Num if r.chance(10) => {
                // of any size
                let n = (1i64 << r.below(32)) + r.range(0, 2) as i64 - 1;
                v.push(format!("{}", n.min(i32::MAX.into())));
            }
            Num => v.push(format!("{}", r.range(0, 5) as i64 - 1)),
            SwapCd => {
                v.push(r.pick(&p.swaps).clone());
                let al = p.chars.clone();
                let k = r.range(1, 3);
                v.push(escape_operand(&r.string(&al, k, k)));
                v.push((0..k).map(|_| dots(r, p, 1, 2)).collect::<Vec<_>>().join(","));
            }
            SwapDd => {
                v.push(r.pick(&p.swaps).clone());
                let k = r.range(1, 3);
                v.push((0..k).map(|_| dot(r)).collect::<Vec<_>>().join(","));
                v.push((0..k).map(|_| dots(r, p, 1, 2)).collect::<Vec<_>>().join(","));
            }
            SwapCc => {
                v.push(r.pick(&p.swaps).clone());
                let al = p.chars.clone();
                let k = r.range(1, 3);
                v.push(escape_operand(&r.string(&al, k, k)));
                v.push(escape_operand(&r.string(&al, k, k)));
            }
            Grouping => {
                v.push("grp".into());
                let al = p.chars.clone();
                v.push(escape_operand(&r.string(&al, 2, 2)));
                v.push(format!("{},{}", dot(r), dot(r)));
            }
            TwoDots => v.push(format!("{},{}", dots(r, p, 1, 2), dots(r, p, 1, 2))),
            OptChars => {
                if r.chance(50) {
                    v.push(r.string("abc", 1, 3));
                }
            }
            Test if r.chance_of(2, 1000) => {
                // as many as are not nested
                let n = r.range(60, 140);
                let x = *r.pick(&["!\"a\"", "[\"a\"]!@1", "!$a", "!%vow", "\"a\"_1", "!#1=1", "!`"]);
                v.push(x.repeat(if x.contains('[') { 1 } else { n }) + if x.contains('[') { "!@1" } else { "" }.repeat(n).as_str());
            }
            Test => v.push(test(r, p, 2)),
            Action => v.push(action(r, p)),
            Pre | Post if r.chance_of(2, 1000) => {
                let n = r.range(60, 140);
                v.push(r.pick(&["(a)", "!a", "![ab]", "(a|b)?", "!%a", "(!a)", "((a))", "!(a)"]).repeat(n));
            }
            Pre | Post => v.push(if r.chance(30) { "-".into() } else { pattern(r, 2) }),
        }
    }
    v
}

pub fn prefix(r: &mut Rng, p: &Pool, t: &T, percent: usize) -> String {
    let mut s = String::new();
    if t.dir && r.chance(percent) {
        s.push_str(r.pick(&["nofor ", "noback "]));
    }
    if t.nocross && r.chance(percent) {
        s.push_str("nocross ");
    }
    if t.classes && r.chance(percent) {
        for _ in 0..r.range(1, 2) {
            s.push_str(r.pick(&["before ", "after "]));
            s.push_str(r.pick(&p.names));
            s.push(' ');
        }
    }
    if t.op == "match" && r.chance(percent) {
        s.push_str(r.pick(&["empmatchbefore ", "empmatchafter ", "empmatchbefore empmatchafter "]));
    }
    s
}

/// any line of the language, well-formed in itself
pub fn line(r: &mut Rng, p: &mut Pool) -> String {
    let t = &ALL[r.below(ALL.len())];
    line_of(r, p, t, true)
}

pub fn line_of(r: &mut Rng, p: &mut Pool, t: &T, implicit: bool) -> String {
    let pre = prefix(r, p, t, 10);
    let v = operands(r, p, t, implicit);
    let mut s = format!("{pre}{}", t.op);
    for o in v {
        s.push(' ');
        s.push_str(&o);
    }
    s
}

pub fn find(op: &str) -> &'static T {
    ALL.iter().find(|t| t.op == op).unwrap()
}

/// a line that is certainly malformed, and why
pub fn malformed(r: &mut Rng, p: &mut Pool) -> (String, &'static str) {
    loop {
        let t = &ALL[r.below(ALL.len())];
        let mut v = operands(r, p, t, false);
        let put = |v: &[String]| format!("{} {}", t.op, v.join(" "));
        let has = |o: O| t.args.contains(&o);
        let last_dots = matches!(t.args.last(), Some(Dots | DotsEq | Cell));
        if r.chance(4) {
            // neither blank nor an opcode
            let mut l = String::new();
            for _ in 0..r.range(1, 3) {
                l.push(*r.pick(&['\u{0}', '\u{1}', '\u{8}', '\u{1a}', '\u{1b}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}', '\u{ad}', '\u{200b}', '\u{200e}', '\u{2060}', '\u{feff}', '\u{fffd}', '\u{301}', '\u{2800}', '\u{2801}', ';', '%', '/', '-', '"', '\\', '!', '0', '+']));
            }
            return (l, "no rule");
        }
        match r.below(16) {
            0 if !v.is_empty() && !has(OptChars) => {
                // multind needs the dots and two names
                let keep = if has(Names) { r.below(3) } else { r.below(v.len()) };
                v.truncate(keep);
                return (put(&v), "operand missing");
            }
            // the name of a base rule could be read as an opcode after nofor
            1 if t.op != "base" => {
                let bad = match r.below(4) {
                    0 => format!("{}x", t.op),
                    1 => t.op.to_uppercase(),
                    2 => r.pick(&["foo", "alwayss", "nofor", "noback", "nocross", "before", "pass1", "pass5", "=", "\u{e4}", "\\x0061"]).to_string(),
                    _ => format!("{},", t.op),
                };
                return (format!("{bad} {}", v.join(" ")).trim_end().to_string(), "unknown opcode");
            }
            2 | 3 | 4 if last_dots => {
                let l = v.len() - 1;
                v[l] = r.pick(&["12x", "g", "1--2", "-1", "1-", "1,2", "1=", "==", "A", "12\u{661}", "-", "1 2".split(' ').next().unwrap_or("") , "\u{2801}", "\\x0031", "1-x"]).to_string();
                if v[l] == "1" || (v[l] == "1," && has(Cell)) {
                    continue;
                }
                return (put(&v), "dots");
            }
            5 if t.args.last() == Some(&Dots) || t.args.last() == Some(&Cell) => {
                let l = v.len() - 1;
                v[l] = "=".into();
                return (put(&v), "implicit dots");
            }
            6 if has(Cell) => {
                let l = v.len() - 1;
                v[l] = "1-2".into();
                return (put(&v), "more than one cell");
            }
            7 if matches!(t.args.first(), Some(Chars | Char)) => {
                v[0] = r.pick(&["\\q", "a\\", "\\x12", "\\xzzzz", "\\y1234", "\\yfffff\\", "\\x+123x", "\\d", "a\\0b", "\\y1g345"]).to_string();
                return (put(&v), "escape");
            }
            8 if t.args.first() == Some(&Char) => {
                v[0] = r.pick(&["ab", "a\\s", "\\x0041b", "aa", "\\\\n", "e\u{301}"]).to_string();
                return (put(&v), "more than one character");
            }
            9 if has(Name) || has(Emph) => {
                v[0] = r.pick(&["a_b", "x-y", "\u{e9}t", "a.b", "%", "\\s"]).to_string();
                return (put(&v), "name");
            }
            10 if has(Num) => {
                let l = v.len() - 1;
                v[l] = r.pick(&["x", "1.5", "99999999999", "0x1", "1-", "--1", "+", "1,0"]).to_string();
                return (put(&v), "number");
            }
            11 if has(Pos) => {
                let i = t.args.iter().position(|a| *a == Pos).unwrap();
                v[i] = r.pick(&["Before", "at", "1", "befor"]).to_string();
                return (put(&v), "position");
            }
            12 => {
                if !t.dir {
                    return (format!("{} {}", r.pick(&["nofor", "noback"]), put(&v)), "direction");
                } else if !t.nocross {
                    return (format!("{}nocross {}", r.pick(&["", "nofor ", "noback "]), put(&v)), "nocross");
                } else {
                    return (format!("{} {}", r.pick(&["nocross nofor", "nofor noback", "noback noback", "nocross nocross"]), put(&v)), "prefixes");
                }
            }
            13 => {
                match t.args.first() {
                    Some(SwapCd) => {
                        v[1] = "a".into();
                        v[2] = "1,2".into();
                    }
                    Some(SwapDd) => {
                        match r.below(3) {
                            0 => v[1].push_str(",1"),
                            1 => v[2].push_str(",1"),
                            _ => v[1] = "1-2".into(),
                        };
                    }
                    Some(SwapCc) => {
                        v[1] = "abc".into();
                        v[2] = "ab".into();
                    }
                    Some(Grouping) => v[2] = r.pick(&["1", "1,2,3", "1-2,3", ",", "1,"]).to_string(),
                    _ => {
                        if has(TwoDots) {
                            v[1] = r.pick(&["1", "1,2,3", "1,", ",1"]).to_string();
                        } else {
                            continue;
                        }
                    }
                }
                return (put(&v), "counts");
            }
            14 if has(Test) => {
                if r.chance(50) {
                    v[0] = r
                        .pick(&[
                            "\"ab", "[\"a\"", "\"a\"]", "$", "$q", "@", "@x", "#", "#1", "#1=", "#x=1", "#1!2", "#999=1", "#1=999", "!!\"a\"", "![\"a\"]", "%", "%_a", "\"a\"x", "$d3-2", "$d2-", "$d2-2", "x", "$d300", "@1--2",
                            "\"\\x12\"", "\"\\x+123\"", "@-1", "!", "#1<", "$dq", "(\"a\")", "\"a\"[",
                        ])
                        .to_string();
                    return (put(&v), "test");
                }
                v[1] = r
                    .pick(&[
                        "\"ab", "@", "@x", "#1", "#1=", "#x=1", "#1<2", "#1++", "#+", "#256-", "#1--2", "#1=256", "%", "%1", "x", "*x", "?]", "[*]", "@1-", "\"a\\x1\"", "=", "!\"a\"", "$d", "`", "\"a\"\"",
                    ])
                    .to_string();
                return (put(&v), "action");
            }
            15 if has(Pre) => {
                let i = if r.chance(50) { 0 } else { 2 };
                v[i] = r
                    .pick(&[
                        "(", ")", "a)", "(a", "()", "[]", "[a", "%", "%b", "%[", "%[]", "%[ab]", "%8", "!!a", "|a", "a|", "a||b", "?", "*a", "+", "a**", "a?+", "a+?", "!", "(|a)", "a]", "[\\q]", "\\.", "(a|)", "!)", "%9",
                        "[\\\\]", "\\xfff",
                    ])
                    .to_string();
                return (put(&v), "pattern");
            }
            _ => {}
        }
    }
}

/// characters that make trouble
pub const NASTY: &[&str] = &[
    "\u{0}", "\u{130}", "ß", "ŉ", "ﬃ", "ΐ", "ǅ", "ς", "\u{345}", "\u{1e9e}", "\u{10ffff}", "\u{feff}", "\u{200d}", "\u{202e}", "\u{d7ff}",
    "\u{e000}", "\u{f0000}", "\u{2800}", "\u{28ff}", "\u{1F468}\u{200D}\u{1F469}", "e\u{301}", "\u{85}", "\u{a0}", "\u{3000}", "\r", "\n", "\t", "\u{b}",
    "\u{c}", "\\", "\"", "%", "٣", "Ⅷ", "ǰ", "İstanbul", "\u{1d7d8}", "क्षि",
];

pub fn wild_text(r: &mut Rng, p: &Pool, n: usize) -> String {
    let mut s = String::new();
    let mut len = 0;
    while len < n {
        let w = match r.below(16) {
            0..=6 if !p.words.is_empty() => r.pick(&p.words).clone(),
            0..=10 => r.string(&p.chars, 1, 4),
            11 => " ".into(),
            12 if !p.dots.is_empty() => crate::model::parse::cells(r.pick(&p.dots).as_str()).unwrap_or_default(),
            13 => r.pick(NASTY).to_string(),
            14 => char::from_u32(0x2800 + r.below(256) as u32).unwrap().to_string(),
            _ => r.string("abcXYZ019 .", 1, 5),
        };
        let w = match r.below(10) {
            0 => w.to_uppercase(),
            1 => w.to_lowercase(),
            _ => w,
        };
        len += w.chars().count().max(1);
        s.push_str(&w);
    }
    s
}

pub fn wild_braille(r: &mut Rng, p: &Pool, n: usize) -> String {
    let mut s = String::new();
    let mut len = 0;
    while len < n {
        let w = match r.below(10) {
            0..=6 if !p.dots.is_empty() => crate::model::parse::cells(r.pick(&p.dots).as_str()).unwrap_or_default(),
            7 => r.string(&p.chars, 1, 2),
            8 => r.pick(NASTY).to_string(),
            _ => char::from_u32(0x2800 + r.below(64) as u32).unwrap().to_string(),
        };
        len += w.chars().count().max(1);
        s.push_str(&w);
    }
    s
}

/// the pool of a generated table of the modelled part
pub fn pool_of(g: &Gen) -> Pool {
    Pool {
        chars: g.defined(),
        names: vec!["letter".into()],
        emph: vec!["italic".into(), "bold".into()],
        words: g.words.clone(),
        dots: g.dots_used.clone(),
        swaps: vec!["swa".into()],
    }
}
