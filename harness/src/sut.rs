//! The system under test, behind calls that turn a panic into a value
use crate::case::Case;
use louis::{Direction, EmphasisSpan, TranslationError, TranslationOptions, Translator};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code of the system under test. `Err` is the message of a panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn dir(backward: bool) -> Direction {
    if backward {
        Direction::Backward
    } else {
        Direction::Forward
    }
}

#[derive(Debug)]
pub enum Load {
    Ok(Translator),
    /// texts of the errors
    Rejected(Vec<String>),
    Panicked(String),
}

pub fn error_texts(e: &TranslationError) -> Vec<String> {
    match e {
        TranslationError::ParseFailed(errors) => {
            errors.iter().map(|e| format!("{e} | {e:?}")).collect()
        }
        e => vec![format!("{e} | {e:?}")],
    }
}

pub fn load(table: &str, backward: bool) -> Load {
    match guarded(|| Translator::from_table_source(table, dir(backward))) {
        Ok(Ok(t)) => Load::Ok(t),
        Ok(Err(e)) => Load::Rejected(error_texts(&e)),
        Err(p) => Load::Panicked(p),
    }
}

pub fn load_files(paths: &[std::path::PathBuf], backward: bool) -> Load {
    match guarded(|| Translator::new(paths, dir(backward))) {
        Ok(Ok(t)) => Load::Ok(t),
        Ok(Err(e)) => Load::Rejected(error_texts(&e)),
        Err(p) => Load::Panicked(p),
    }
}

pub fn options(spans: &[(String, usize, usize)]) -> TranslationOptions {
    TranslationOptions::default().with_emphasis(
        spans.iter().map(|(c, a, b)| EmphasisSpan::new(c.clone(), *a..*b)).collect(),
    )
}

/// `Err` is a panic or an error
pub fn translate(t: &Translator, input: &str, spans: &[(String, usize, usize)]) -> Result<String, String> {
    match guarded(|| t.translate_with_options(input, options(spans))) {
        Ok(Ok(r)) => Ok(r.output),
        Ok(Err(e)) => Err(format!("error {e:?}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Only load and translate, to confirm a crash without any of the monitors
pub fn plain_run(case: &Case) {
    let l = if !case.files.is_empty() {
        let dir = crate::mcheck::write_files(case);
        load_files(&[dir.join(&case.files[0].0)], case.backward)
    } else if !case.get("real").is_empty() {
        load(&crate::realtab::get(case.get("real")).modelled, case.backward)
    } else {
        load(&case.table, case.backward)
    };
    if let Load::Ok(t) = l {
        for i in &case.inputs {
            let _ = translate(&t, i, &case.spans);
        }
    }
}
