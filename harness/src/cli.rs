//! Calls of the command line tool
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub struct Out {
    pub stdout: String,
    pub stderr: String,
    /// how it ended, if not by itself
    pub crash: Option<String>,
    pub code: i32,
}

pub fn binary() -> Option<String> {
    std::env::var("VMON_LOUIS").ok()
}

pub fn run_env(args: &[&str], stdin: Option<&str>, env: &[(&str, &str)]) -> Result<Out, String> {
    let exe = binary().ok_or("no command line tool")?;
    let mut cmd = Command::new(exe);
    cmd.args(args).env_remove("RUST_LOG").stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.env_remove("RUST_BACKTRACE");
    for (k, v) in env {
        cmd.env(k, v);
    }
    cmd.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    if std::env::var("VMON_NOLIMIT").is_err() {
        crate::run::limit_resources(&mut cmd, 4 << 30, Some(300));
    }
    let mut child = cmd.spawn().map_err(|e| format!("cannot run the command line tool: {e}"))?;
    let feeder = stdin.map(|text| {
        let text = text.as_bytes().to_vec();
        let mut pipe = child.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = pipe.write_all(&text);
        })
    });
    let mut err = child.stderr.take().unwrap();
    let e = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = err.read_to_end(&mut b);
        b
    });
    let mut out = vec![];
    let _ = child.stdout.take().unwrap().read_to_end(&mut out);
    let status = child.wait().map_err(|e| e.to_string())?;
    let err = e.join().unwrap_or_default();
    if let Some(f) = feeder {
        let _ = f.join();
    }
    let stderr = String::from_utf8_lossy(&err).to_string();
    let code = status.code().unwrap_or(-1);
    let crash = match status.signal() {
        Some(9) => return Err("ended from outside".into()),
        Some(24) => Some("does not end within 300 s".to_string()),
        Some(s) => Some(format!("killed by signal {s}: {}", head(&stderr))),
        None if code == 101 || stderr.contains("panicked at") => Some(format!("panics: {}", head(&stderr))),
        None => None,
    };
    Ok(Out { stdout: String::from_utf8_lossy(&out).to_string(), stderr, crash, code })
}

pub fn run(args: &[&str], stdin: Option<&str>) -> Result<Out, String> {
    run_env(args, stdin, &[])
}

pub fn head(s: &str) -> String {
    s.chars().take(300).collect()
}
