//! Memory errors, data races and leaks (C26)
use crate::case::Case;
use crate::lang;
use crate::mcheck::write_files;
use crate::props::trace::table_text;
use crate::props::{engine, robust};
use crate::run::{Outcome, Prop, Tier};
use crate::sut::{self, Load};
use crate::util::{hash_str, join_lines, mix, Rng, Stats};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// counts what is allocated and not freed yet
pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------------------------------------
// inside of an instrumented build

fn wild_case(r: &mut Rng) -> Case {
    let backward = r.chance(45);
    use engine::F::*;
    match r.below(8) {
        0 => engine::mixed(r, &[Trans, Match, Caps], backward, 40, 5, 20),
        1 => engine::mixed(r, &[Correct, Context, Pass, Attr, Vars, Swap], backward, 30, 5, 20),
        2 => engine::mixed(r, &[Num, Emph, Comp, Let, Caps], backward, 30, 5, 20),
        3 if r.chance(20) => engine::real(r, backward, 6, 60),
        _ => {
            let mut p = lang::pool(r);
            let mut lines = robust::wild_table(r, &mut p);
            if r.chance(35) {
                let at = r.below(lines.len());
                let l = lang::malformed(r, &mut p).0;
                lines.insert(at, l);
            }
            let mut c = Case { backward, table: join_lines(&lines), ..Default::default() };
            for _ in 0..6 {
                let n = if r.chance(5) { r.range(100, 400) } else { r.range(0, 20) };
                c.inputs.push(if backward { lang::wild_braille(r, &p, n) } else { lang::wild_text(r, &p, n) });
            }
            if r.chance(40) {
                c.spans.push(("italic".into(), r.below(6), r.below(20)));
                c.spans.push(("computer_braille".into(), r.below(6), r.below(20)));
            }
            c
        }
    }
}

/// load and translate; the number of translations
fn plain(c: &Case, all: bool) -> u64 {
    let text = table_text(c);
    let t = match sut::load(&text, c.backward) {
        Load::Ok(t) => t,
        _ => match robust::lenient(&text, c.backward) {
            Ok(Some((t, _))) => t,
            _ => return 0,
        },
    };
    let mut n = 0;
    for i in &c.inputs {
        n += sut::translate(&t, i, &c.spans).is_ok() as u64;
        #[cfg(feature = "hook")]
        if all {
            let _ = sut::guarded(|| louis::verif::trace(&t, i, &sut::options(&c.spans)));
        }
    }
    let _ = all;
    n
}

/// several threads translate with one translator while others load the same table
fn threads(c: &Case, r: &mut Rng) -> (u64, Option<String>) {
    let text = table_text(c);
    let (t, text) = match sut::load(&text, c.backward) {
        Load::Ok(t) => (t, text),
        _ => match robust::lenient(&text, c.backward) {
            Ok(Some(x)) => x,
            _ => return (0, None),
        },
    };
    let t = Arc::new(t);
    let seeds: Vec<u64> = (0..r.range(2, 6)).map(|_| r.next()).collect();
    let barrier = std::sync::Barrier::new(seeds.len());
    let (text, barrier) = (&text, &barrier);
    let mut n = 0;
    let results: Vec<Vec<(usize, Result<String, String>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(k, seed)| {
                let t = t.clone();
                s.spawn(move || {
                    let mut r = Rng::new(*seed);
                    let mut v = vec![];
                    barrier.wait();
                    let own = if k % 3 == 2 { sut::load(text, c.backward) } else { Load::Rejected(vec![]) };
                    for _ in 0..c.inputs.len() * 2 {
                        let i = r.below(c.inputs.len());
                        let t = match &own {
                            Load::Ok(o) => o,
                            _ => &*t,
                        };
                        v.push((i, sut::translate(t, &c.inputs[i], &c.spans)));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut first: Vec<Option<Result<String, String>>> = vec![None; c.inputs.len()];
    for (i, x) in results.into_iter().flatten() {
        n += 1;
        match &first[i] {
            None => first[i] = Some(x),
            Some(f) if *f == x => {}
            Some(f) => return (n, Some(format!("threads get {f:?} and {x:?} for {:?}", c.inputs[i]))),
        }
    }
    (n, None)
}

/// `vmon san load|threads SEED COUNT`
pub fn inside(mode: &str, seed: u64, count: u64) -> i32 {
    sut::install_panic_hook();
    let mode = mode.to_string();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut n = 0;
            for k in 0..count {
                let mut r = Rng::new(mix(seed) ^ mix(k));
                let c = wild_case(&mut r);
                if mode == "threads" {
                    let (m, bad) = threads(&c, &mut r);
                    n += m;
                    if let Some(b) = bad {
                        println!("different: {b}");
                        return 1;
                    }
                } else {
                    n += plain(&c, k % 3 == 0);
                }
            }
            println!("translations {n}");
            0
        })
        .unwrap();
    h.join().unwrap_or(2)
}

// ---------------------------------------------------------------------------------------------
// test files

const TEMPLATES: &[&str] = &[
    "display: d.dis\ntable: t.ctb\ntests:\n  - [abc, \"\u{2801}\u{2803}\u{2809}\"]\n  - [description, abc, xyz, {xfail: true}]\n",
    "table: |\n  letter a 1\n  letter b 12\n  space \\s 0\n  always ab 14\nflags: {testmode: bothDirections}\ntests:\n  - [a b, \"\u{2801} \u{2803}\"]\n  - - 'ab'\n    - \"\\x2801\"\n    - xfail: {forward: true, backward: no}\n      typeform: {italic: '++', bold: ' +'}\n",
    "table:\n  __assert-match: t.ctb\n  language: de\nflags:\n  testmode: backward\ntests:\n  - ['\u{2801}', a]\n  - ['\\x2803\\s', \"b \", {mode: [noContractions, dotsIO], inputPos: [0, 1], outputPos: [0], cursorPos: 1, maxOutputLength: 5, realInputLength: 1}]\n",
    "# comment\n---\ntable: [t.ctb, t.ctb]\ndisplay: |\n  display a 1\n  display b 12\ntests: []\ntable: t.ctb\ntable: >\n  letter a 1\n\n  letter b 12\ntests:\n  - [&x abc, *x]\n  - [!!str a, 'b', {cursorPos: [1, 2], expected_typeform: {italic: '+'}}]\n",
    "table: \"t.ctb\"\ntests:\n  - [\"a\\u2801\\\"\\n\\x41\\U0001F600\\\n     b\", 'it''s']\n  - [? a, b]\n",
];

const YAML_JUNK: &[&str] = &[
    "[", "]", "{", "}", "- ", ": ", "? ", "&a ", "*a ", "!t ", "!!str ", "!<x> ", "|", ">", "|+9\n", ">-1\n", "%YAML 1.2\n---\n", "%TAG ! x\n", "---\n", "...\n", "\t", "\u{feff}", "\u{85}",
    "\u{2028}", "\"", "'", "\\", "\\x", "\\U00110000", "\\ud800", "#", ",", "\n", "\r", "\u{0}", "\u{7f}", "@", "`", "~", "null", "<<: *a", "table: t.ctb\n", "tests:\n", "  - [a, b]\n",
    "flags: {testmode: forward}\n", "xfail", "{xfail: ", "typeform: {", "\u{10ffff}", "99999999999999999999",
];

fn yaml_text(r: &mut Rng) -> Vec<u8> {
    let mut s = r.pick(TEMPLATES).as_bytes().to_vec();
    if r.chance(15) {
        let o = r.pick(TEMPLATES).as_bytes().to_vec();
        let at = r.range(0, s.len());
        s.splice(at..at, o);
    }
    for _ in 0..r.below(4) {
        let at = r.range(0, s.len());
        match r.below(11) {
            0 => s.truncate(at),
            1 if at < s.len() => s[at] = r.below(256) as u8,
            2 if at < s.len() => s[at] ^= 1 << r.below(8),
            3 => {
                let e = (at + r.range(1, 12)).min(s.len());
                s.drain(at..e);
            }
            4 => {
                let e = (at + r.range(1, 40)).min(s.len());
                let part = s[at..e].to_vec();
                let to = r.range(0, s.len());
                s.splice(to..to, part);
            }
            5 | 6 | 7 => {
                let j = r.pick(YAML_JUNK).as_bytes().to_vec();
                s.splice(at..at, j);
            }
            8 => {
                let n = r.range(2, 3000);
                let j = r.pick(YAML_JUNK).repeat(n);
                s.splice(at..at, j.into_bytes());
            }
            9 if r.chance(30) => {
                // another encoding
                let t = String::from_utf8_lossy(&s).to_string();
                let big = r.chance(50);
                s = if big { vec![0xfe, 0xff] } else { vec![0xff, 0xfe] };
                for u in t.encode_utf16() {
                    s.extend(if big { u.to_be_bytes() } else { u.to_le_bytes() });
                }
                if r.chance(30) {
                    s.pop();
                }
            }
            _ => {
                // a long scalar at the limits of the buffers
                let n = *r.pick(&[1023usize, 1024, 1025, 4095, 4096, 16383, 16384, 16385, 32768]);
                let c = *r.pick(&["a", "\u{e4}", "\u{2801}", "\u{1F600}", "+", " "]);
                s.splice(at..at, c.repeat(n / c.len() + 1).into_bytes());
            }
        }
    }
    s
}

/// some bytes that are not UTF-8
fn spoil(r: &mut Rng, mut s: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.range(1, 4) {
        let at = r.range(0, s.len());
        match r.below(8) {
            // the end of the file is within of a character
            0 | 1 => s.extend(*r.pick(&[&b"\xc3"[..], b"\xe2\xa0", b"\xf0\x9f\x98", b"letter \xfc", b"# \xe2", b"\nletter a 1\xf0"])),
            2 => s.truncate(at),
            3 if at < s.len() => s[at] = r.below(256) as u8,
            4 if at < s.len() => s[at] ^= 0x80,
            _ => {
                let b = *r.pick(&[&b"\xff"[..], b"\xfc", b"\x80", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x90\x80\x80", b"\xf4\x90\x80\x80", b"\xe2\x28\xa1", b"\xc3 ", b"\0"]);
                s.splice(at..at, b.iter().copied());
            }
        }
    }
    s
}

fn valid_yaml(r: &mut Rng, n: usize) -> String {
    let mut s = format!("table: {}\nflags: {{testmode: {}}}\ntests:\n", r.pick(&["t.ctb", "[t.ctb, u.ctb]"]), r.pick(&["forward", "backward", "bothDirections"]));
    for _ in 0..n {
        let a = r.string("abcxyz 013.,AB", 1, 14);
        let b = r.string("\u{2801}\u{2803}\u{2809}\u{2800}\u{280b}", 0, 6);
        s.push_str(&format!("  - ['{a}', '{b}'{}]\n", r.pick(&["", "", ", {xfail: true}", ", {typeform: {italic: '++++'}}"])));
    }
    s
}

// ---------------------------------------------------------------------------------------------

fn hex(b: &[u8]) -> String {
    let mut s = "\u{1}hex:".to_string();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn gen26(r: &mut Rng, i: u64, _t: Tier) -> Option<Case> {
    let mut c = Case::default();
    let table = |r: &mut Rng| {
        use engine::F::*;
        engine::mixed(r, &[Trans, Match, Caps, Num, Emph], false, 30, 4, 12).table
    };
    c.kind = match i % 16 {
        0..=3 => "asan load",
        4 => "asan threads",
        5..=7 => "tsan threads",
        8..=10 => "asan check",
        11 => "tsan check",
        12 if i % 48 == 12 => "long session",
        13 => "asan files",
        12 => "asan session",
        _ => "leak",
    }
    .into();
    match c.kind.as_str() {
        "asan load" => c.set("count", "40"),
        "asan threads" => c.set("count", "12"),
        "tsan threads" => c.set("count", "12"),
        "asan check" | "tsan check" => {
            let tsan = c.kind == "tsan check";
            c.files.push(("t.ctb".into(), table(r)));
            c.files.push(("u.ctb".into(), table(r)));
            c.files.push(("d.dis".into(), "display a 1\ndisplay b 12\n".into()));
            for k in 0..r.range(5, 30) {
                let n = r.range(0, 60);
                c.files.push((format!("y{k}.yaml"), if tsan && r.chance(80) { valid_yaml(r, n) } else { hex(&yaml_text(r)) }));
            }
        }
        "asan files" => {
            // tables, dictionaries and test files of any bytes
            let dic = r.chance(50);
            for k in 0..r.range(2, 6) {
                let w = wild_case(r);
                c.files.push((format!("t{k}.ctb"), if r.chance(80) { hex(&spoil(r, w.table.into_bytes())) } else { w.table }));
                if k == 0 {
                    c.inputs = w.inputs;
                    c.backward = w.backward;
                }
            }
            if dic {
                let d = "UTF-8\nLEFTHYPHENMIN 2\na1b\n.ä2c1ö\n1ab3c.\n⠁1b\n".to_string();
                c.files.push(("d.dic".into(), hex(&spoil(r, d.into_bytes()))));
                c.files.push(("h.ctb".into(), "include d.dic\nletter a 1\nletter b 12\nspace \\s 0\nnocross always ab 1\n".into()));
            }
            let tables: Vec<String> = c.files.iter().filter(|f| f.0.ends_with(".ctb")).map(|f| f.0.clone()).collect();
            for k in 0..r.range(2, 8) {
                let mut y = valid_yaml(r, 3);
                y = y.replacen("t.ctb", r.pick(&tables), 1).replace("u.ctb", r.pick(&tables));
                c.files.push((format!("y{k}.yaml"), y));
            }
            let b = c.inputs.join("\n").into_bytes();
            c.files.push(("stdin".into(), hex(&b)));
            c.set("command", *r.pick(&["translate", "trace", "check", "check", "query"]));
        }
        "long session" => {
            use engine::F::*;
            c.backward = r.chance(30);
            let m = engine::mixed(r, &[Trans, Match, Context, Num, Caps], c.backward, 30, 6, 12);
            c.files.push(("t.ctb".into(), m.table));
            c.inputs = m.inputs;
            c.set("command", *r.pick(&["translate", "translate", "trace", "parse"]));
            if c.get("command") == "parse" {
                c.inputs = c.files[0].1.lines().map(|l| format!("{l} # ")).collect();
            }
            c.set("count", "6000");
        }
        "asan session" => {
            let w = wild_case(r);
            c.files.push(("t.ctb".into(), w.table));
            c.backward = w.backward;
            let mut b = w.inputs.join("\n").into_bytes();
            if r.chance(40) {
                for _ in 0..r.range(1, 4) {
                    let at = r.range(0, b.len());
                    b.insert(at, r.below(256) as u8);
                }
            }
            c.files.push(("stdin".into(), hex(&b)));
            c.set("command", *r.pick(&["translate", "trace", "parse", "parse"]));
        }
        _ => {
            let w = wild_case(r);
            c = Case { kind: c.kind, ..w };
        }
    }
    c.set("seed", r.next().to_string());
    Some(c)
}

fn fixed26(t: Tier) -> Vec<Case> {
    let mut v = vec![];
    let mut r = Rng::new(mix(crate::run::seed() + 77));
    for k in 0..if t == Tier::Quick { 3 } else { 24 } {
        let mut c = Case { kind: "miri lib".into(), ..Default::default() };
        use engine::F::*;
        let m = match k % 3 {
            0 => engine::mixed(&mut r, &[Trans, Caps, Num, Emph, Comp], false, 40, 4, 10),
            1 => engine::mixed(&mut r, &[Match, Correct, Context, Pass, Swap, Attr], false, 30, 4, 10),
            _ => engine::mixed(&mut r, &[Trans, Pass, Num], true, 40, 4, 10),
        };
        c.backward = m.backward;
        c.inputs = m.inputs;
        c.files.push(("t.ctb".into(), m.table));
        c.set("miri_seed", k.to_string());
        v.push(c);
        let mut c = Case { kind: "miri check".into(), ..Default::default() };
        c.files.push(("t.ctb".into(), "letter a 1\nletter b 12\nletter c 14\nspace \\s 0\nalways ab 14-14\n".into()));
        c.files.push(("u.ctb".into(), "capsletter 6\nbase uppercase A a\n".into()));
        c.files.push(("d.dis".into(), "display a 1\ndisplay b 12\n".into()));
        for j in 0..6 {
            c.files.push((format!("y{j}.yaml"), if j < 2 { valid_yaml(&mut r, 3) } else { hex(&yaml_text(&mut r)) }));
        }
        c.set("miri_seed", k.to_string());
        v.push(c);
    }
    v
}

struct Ran {
    out: String,
    err: String,
    signal: Option<i32>,
    code: i32,
}

/// without a limit of the address space, which sanitizers reserve
fn run(mut cmd: Command, stdin: Option<PathBuf>, secs: u64) -> Result<Ran, String> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let dir = crate::run::table_dir();
    let (o, e) = (dir.join("out.log"), dir.join("err.log"));
    let file = |p: &Path| std::fs::File::create(p).map_err(|e| e.to_string());
    cmd.stdout(file(&o)?).stderr(file(&e)?).process_group(0);
    match stdin {
        Some(p) => cmd.stdin(std::fs::File::open(p).map_err(|e| e.to_string())?),
        None => cmd.stdin(Stdio::null()),
    };
    let mut ch = cmd.spawn().map_err(|e| e.to_string())?;
    let t0 = std::time::Instant::now();
    let status = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed().as_secs() > secs {
            let _ = Command::new("kill").args(["-9", "--", &format!("-{}", ch.id())]).status();
            let _ = ch.wait();
            return Err(format!("not finished within {secs} s"));
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
    };
    let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    Ok(Ran { out: text(&o), err: text(&e), signal: status.signal(), code: status.code().unwrap_or(-1) })
}

/// the report of a sanitizer or interpreter
fn report(r: &Ran) -> Option<String> {
    const MARKS: &[&str] = &["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "error: Undefined Behavior", "Data race detected", "error: memory leaked",
        // what the standard library checks in an unoptimised build
        "unsafe precondition(s) violated", "misaligned pointer dereference", "null pointer dereference occurred", "entering unreachable code"];
    // what the sanitizers cannot do here is no finding
    const NOT: &[&str] = &["LeakSanitizer has encountered a fatal error", "AddressSanitizer: out of memory", "AddressSanitizer failed to allocate", "ThreadSanitizer: unexpected memory mapping"];
    if NOT.iter().any(|n| r.err.contains(n)) {
        return None;
    }
    let at = MARKS.iter().filter_map(|m| r.err.find(m)).min();
    let at = at.or(match r.signal {
        // not stopped from outside
        Some(s) if s != 9 && s != 15 && s != 24 && s != 6 => Some(0),
        _ => None,
    })?;
    let lines: Vec<&str> = r.err[at..].lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).take(14).collect();
    Some(format!("{}{}", r.signal.map(|s| format!("signal {s} ")).unwrap_or_default(), lines.join("\n")))
}

fn louis(tool: &str) -> Option<Command> {
    let exe = std::env::var(match tool {
        "asan" => "VMON_LOUIS_ASAN",
        _ => "VMON_LOUIS_TSAN",
    })
    .ok()?;
    Some(command(exe))
}

fn command(exe: String) -> Command {
    let mut c = Command::new(exe);
    c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
    c.env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1");
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=99:second_deadlock_stack=1");
    c
}

/// what a process has in memory
fn resident(pid: u32) -> Option<i64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/status")).ok()?;
    let l = s.lines().find(|l| l.starts_with("VmRSS:"))?;
    l.split_ascii_whitespace().nth(1)?.parse().ok()
}

/// a session that goes on and on
fn session(c: &Case, st: &mut Stats) -> Outcome {
    use std::io::Read;
    let Some(exe) = crate::cli::binary() else { return Outcome::Skip("no command line tool".into()) };
    let dir = write_files(c);
    let mut cmd = Command::new(exe);
    match c.get("command") {
        "parse" => cmd.arg("parse"),
        x => cmd.args([x, "-d", if c.backward { "backward" } else { "forward" }]).arg(dir.join("t.ctb")),
    };
    cmd.env_remove("RUST_LOG").env("RUST_BACKTRACE", "0");
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    let Ok(mut ch) = cmd.spawn() else { return Outcome::Skip("no command line tool".into()) };
    let (mut i, mut o) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap());
    let seen = Arc::new(AtomicI64::new(0));
    let s2 = seen.clone();
    let reader = std::thread::spawn(move || {
        let mut b = vec![0u8; 1 << 16];
        while let Ok(n) = o.read(&mut b) {
            if n == 0 {
                break;
            }
            // one prompt for every line
            s2.fetch_add(b[..n].windows(2).filter(|w| w == b"> ").count() as i64, Ordering::Relaxed);
        }
    });
    let lines: Vec<String> = c.inputs.iter().map(|x| x.replace(['\n', '\r', '>'], " ")).collect();
    let per: u64 = c.get("count").parse().unwrap_or(6000);
    let mut sizes = vec![];
    let mut k = 0u64;
    let t0 = std::time::Instant::now();
    'phases: for _ in 0..5 {
        for _ in 0..per {
            k += 1;
            let x: String = format!("{k}").bytes().map(|b| (b - b'0' + b'a') as char).collect();
            if i.write_all(format!("{}{x}\n", lines[(k % lines.len() as u64) as usize]).as_bytes()).is_err() {
                break 'phases;
            }
        }
        let _ = i.flush();
        // until nothing more comes
        let mut last = -1;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(150));
            let n = seen.load(Ordering::Relaxed);
            if n == last && n > 0 || t0.elapsed().as_secs() > 60 {
                break;
            }
            last = n;
        }
        match resident(ch.id()) {
            Some(n) => sizes.push(n),
            None => break,
        }
    }
    drop(i);
    let _ = ch.kill();
    let _ = ch.wait();
    let _ = reader.join();
    if sizes.len() < 5 {
        return Outcome::Skip("the session ended".into());
    }
    // kilobytes; the first phases fill what is filled once
    let grows = |a: usize| sizes[a] - sizes[a - 1] >= (per as i64 * 16 / 1024).max(80);
    if (1..5).all(grows) {
        return Outcome::Violation(format!("a session of {} keeps memory for every line: {sizes:?} kB after {per} lines each", c.get("command")));
    }
    st.count("session_lines", 5 * per);
    st.eval(hash_str(&format!("{:?}{:?}", c.files, c.inputs)));
    Outcome::Ok
}

fn leak(c: &Case, st: &mut Stats) -> Outcome {
    let text = table_text(c);
    let text = match sut::load(&text, c.backward) {
        Load::Ok(_) => text,
        _ if c.get("seed").len() % 3 == 0 => text, // rejected over and over
        _ => match robust::lenient(&text, c.backward) {
            Ok(Some((_, t))) => t,
            _ => text,
        },
    };
    let big = text.len() > 20_000;
    let rounds = if big { 3 } else { 16 };
    // names and operands that were not there before
    let unique = c.get("seed").ends_with(['1', '4', '7']);
    // by way of files, one of which is included
    let files = c.get("seed").ends_with(['2', '4', '8']);
    let dir = crate::run::table_dir();
    let mut count = 0u64;
    let mut load = || {
        let mut text = text.clone();
        if unique {
            count += 1;
            let x: String = format!("{count:05}").bytes().map(|b| (b - b'0' + b'k') as char).collect();
            let d = crate::gen::cell_text((count % 255 + 1) as u32);
            text.push_str(&format!("\nattribute n{x} a\nalways {x} {d}\nalways {x}q 1\nemphclass c{x}\nswapcd s{x} a 12\nmatch {x} a - 14\n"));
        }
        if files {
            let _ = std::fs::write(dir.join("t.ctb"), if unique { "include u.ctb\n" } else { "include u.ctb\ninclude missing.ctb\n" });
            let _ = std::fs::write(dir.join("u.ctb"), &text);
            drop(sut::load_files(&[dir.join("t.ctb")], c.backward));
        } else {
            drop(sut::load(&text, c.backward));
        }
    };
    for _ in 0..3 {
        load();
    }
    let mut l = [0i64; 4];
    for k in 0..4 {
        l[k] = live();
        if k < 3 {
            for _ in 0..rounds {
                load();
            }
        }
    }
    let grows = |l: &[i64; 4], n: i64| (1..4).all(|k| l[k] - l[k - 1] >= n);
    if grows(&l, 8 * rounds as i64) {
        return Outcome::Violation(format!("loading the table {rounds} times keeps {} bytes, each time", l[3] - l[2]));
    }
    st.count("loads_without_growth", 3 * rounds as u64);
    if let Load::Ok(t) = sut::load(&text, c.backward) {
        if c.inputs.is_empty() {
            return Outcome::Ok;
        }
        // other texts every time
        let mut n = 0u64;
        let mut some = |count: u64| {
            for _ in 0..count {
                let i = &c.inputs[(n % c.inputs.len() as u64) as usize];
                let mut text = String::with_capacity(i.len() + 8);
                text.push_str(i);
                let mut k = n;
                while k > 0 {
                    text.push(char::from(b'a' + (k % 26) as u8));
                    k /= 26;
                }
                if unique {
                    // classes that nobody defined
                    let mut spans = c.spans.clone();
                    spans.push((format!("class{n}"), 0, 2));
                    let _ = sut::translate(&t, &text, &spans);
                } else {
                    let _ = sut::translate(&t, &text, &c.spans);
                }
                n += 1;
            }
        };
        some(60);
        let per = if big { 100 } else { 300 };
        for k in 0..4 {
            l[k] = live();
            if k < 3 {
                some(per);
            }
        }
        if grows(&l, 4 * per as i64) {
            return Outcome::Violation(format!("translating {per} texts keeps {} bytes, each time", l[3] - l[2]));
        }
        st.count("translations_without_growth", 3 * per as u64);
    }
    st.eval(hash_str(&text));
    Outcome::Ok
}

fn check26(c: &Case, st: &mut Stats) -> Outcome {
    let seed = c.get("seed").to_string();
    let (tool, what) = c.kind.split_once(' ').unwrap_or((&c.kind, ""));
    if tool == "leak" {
        return leak(c, st);
    }
    if c.kind == "long session" {
        return session(c, st);
    }
    let dir = write_files(c);
    let missing = || Outcome::Skip(format!("no {tool} build"));
    let args: Vec<String> = c.files.iter().filter(|f| f.0.ends_with(".yaml")).map(|f| dir.join(&f.0).to_string_lossy().to_string()).collect();
    let (cmd, stdin) = match (tool, what) {
        ("asan" | "tsan", "load" | "threads") => {
            let Ok(exe) = std::env::var(if tool == "asan" { "VMON_ASAN" } else { "VMON_TSAN" }) else { return missing() };
            let mut cmd = command(exe);
            cmd.args(["san", what, &seed, c.get("count")]);
            (cmd, None)
        }
        ("asan" | "tsan", "check") => {
            let Some(mut cmd) = louis(tool) else { return missing() };
            cmd.arg("check").args(&args).env("LOUIS_TABLE_PATH", &dir);
            (cmd, None)
        }
        ("asan", "files") if c.get("command") == "check" || c.get("command") == "query" => {
            let Some(mut cmd) = louis(tool) else { return missing() };
            if c.get("command") == "check" {
                cmd.arg("check").args(&args);
            } else {
                cmd.args(["query", "language:de"]);
            }
            cmd.env("LOUIS_TABLE_PATH", &dir);
            (cmd, None)
        }
        ("asan", _) => {
            let Some(mut cmd) = louis(tool) else { return missing() };
            match c.get("command") {
                "parse" => cmd.arg("parse"),
                x => {
                    let n = if what == "files" { &c.files[(hash_str(&seed) % c.files.len() as u64) as usize].0 } else { "t.ctb" };
                    let n = if n.ends_with(".ctb") { n } else { "t0.ctb" };
                    cmd.args([x, "-d", if c.backward { "backward" } else { "forward" }]).arg(dir.join(n))
                }
            };
            (cmd, Some(dir.join("stdin")))
        }
        (_, "check") => {
            let Ok(repo) = std::env::var("VMON_MIRI") else { return missing() };
            let mut cmd = Command::new("cargo");
            cmd.current_dir(repo).args(["+nightly", "miri", "run", "-q", "--offline", "--bin", "louis", "--", "check"]).args(&args);
            // the YAML library and the queues of rayon do not follow the experimental aliasing
            // rules, and threads of rayon are not joined
            cmd.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed={}", c.get("miri_seed")));
            cmd.env("LOUIS_TABLE_PATH", &dir).env("RAYON_NUM_THREADS", "2").env("RUSTFLAGS", "-Awarnings");
            (cmd, None)
        }
        _ => {
            if std::env::var("VMON_MIRI").is_err() {
                return missing();
            }
            let mut cmd = Command::new("cargo");
            let mut f = std::fs::File::create(dir.join("inputs")).unwrap();
            for i in &c.inputs {
                let _ = writeln!(f, "{}", i.replace('\n', " "));
            }
            cmd.current_dir(crate::run::verif_dir().join("harness/miri"));
            cmd.args(["+nightly", "miri", "run", "-q", "--offline", "--"]).arg(dir.join("t.ctb")).arg(if c.backward { "backward" } else { "forward" }).arg(dir.join("inputs"));
            cmd.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={}", c.get("miri_seed"))).env("RUSTFLAGS", "-Awarnings");
            (cmd, None)
        }
    };
    let mut cmd = cmd;
    if tool == "miri" {
        let d = crate::run::verif_dir().join("target/miri");
        cmd.env("CARGO_TARGET_DIR", &d).env("XDG_CACHE_HOME", d.join("cache")).env_remove("RUST_BACKTRACE");
    }
    let ran = match run(cmd, stdin, 400) {
        Ok(r) => r,
        Err(e) => return Outcome::Skip(e),
    };
    if let Some(t) = report(&ran) {
        return Outcome::Violation(format!("{tool}: {t}"));
    }
    if ran.out.contains("different: ") {
        return Outcome::Violation(format!("{tool}: {}", ran.out.trim()));
    }
    if tool == "miri" && (what == "lib" && ran.code != 0 || ran.err.contains("error: could not compile")) {
        return Outcome::Skip(format!("miri: {}", ran.err.lines().find(|l| l.contains("error")).unwrap_or("did not run")));
    }
    st.hit(&format!("runs:{}", c.kind));
    if let Some(n) = ran.out.trim().strip_prefix("translations ").and_then(|n| n.parse().ok()) {
        st.count(&format!("translations:{tool}"), n);
    }
    if what == "check" {
        st.count(&format!("files:{tool}"), args.len() as u64);
        st.count(&format!("files_with_errors:{tool}"), ran.err.lines().filter(|l| l.contains(".yaml: ")).count() as u64);
        if ran.err.contains("panicked at") {
            st.hit("panics_while_checking");
        }
        for f in c.files.iter().filter(|f| f.0.ends_with(".yaml")) {
            st.eval(hash_str(&f.1));
        }
    } else {
        st.eval(mix(hash_str(&format!("{}{seed}{:?}", c.kind, c.files))));
    }
    st.sample(|| format!("{}: {}", c.kind, ran.out.lines().next().unwrap_or("").chars().take(80).collect::<String>()));
    Outcome::Ok
}

pub static C26: Prop = Prop {
    id: "C26",
    quick: 480,
    thorough_secs: 420,
    gen: gen26,
    check: check26,
    plain: sut::plain_run,
    fixed: fixed26,
    shrink: false,
    rule: "a run of an instrumented build (a batch of tables and texts, a test file, a session) or a table loaded and used repeatedly; distinct by what was run",
    assumptions: &[
        "the sanitizers and the interpreter report what they document; AddressSanitizer does not see into the precompiled standard library",
        "under the interpreter, test files are run without the experimental aliasing rules, which the YAML library does not follow",
    ],
};
