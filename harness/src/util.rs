//! Helpers for checks.

use rescan::{CompileError, Database};

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

pub type Res = Result<(), String>;

/// The printed forms of an error.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct Failure {
    pub text: String,
    pub debug: String,
}

impl Failure {
    pub fn of(e: &CompileError) -> Self {
        Self { text: e.to_string(), debug: format!("{e:?}") }
    }

    /// The category of the error.
    pub fn kind(&self) -> String {
        match self.debug.find("kind: ") {
            Some(i) => self.debug[i + 6..]
                .chars()
                .take_while(|c| c.is_ascii_alphanumeric())
                .collect(),
            None => String::new(),
        }
    }

    /// The expression that is blamed, and the rest of the text.
    pub fn blamed(&self) -> (Option<u64>, &str) {
        const SEP: &str = " in expression ";
        if let Some(i) = self.text.rfind(SEP) {
            let n = &self.text[i + SEP.len()..];
            if !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()) {
                if let Ok(n) = n.parse() {
                    return (Some(n), &self.text[..i]);
                }
            }
        }
        (None, &self.text)
    }

    /// The last "index N" in the text.
    pub fn location(&self) -> Option<u64> {
        let (_, text) = self.blamed();
        let i = text.rfind("index ")?;
        let n: String = text[i + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
        n.parse().ok()
    }
}

pub type Outcome = Result<(), Failure>;

pub fn outcome(r: &Result<Database, CompileError>) -> Outcome {
    match r {
        Ok(_) => Ok(()),
        Err(e) => Err(Failure::of(e)),
    }
}

/// All decimal numbers in a text.
pub fn numbers(text: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let mut cur: Option<u64> = None;
    for c in text.chars() {
        match (c.to_digit(10), cur) {
            (Some(d), Some(n)) => cur = Some(n.saturating_mul(10).saturating_add(d.into())),
            (Some(d), None) => cur = Some(d.into()),
            (None, Some(n)) => {
                v.push(n);
                cur = None;
            }
            (None, None) => {}
        }
    }
    v.extend(cur);
    v
}

pub const MIB: usize = 1 << 20;
