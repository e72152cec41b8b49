//! The code under test, as the monitors call it: at its public boundary, panics caught.
use lolcode_ast::lexer::{Token, TokenError};
use lolcode_ast::parser::ASTBlock;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A property does not hold on this execution.
#[derive(Clone, Debug)]
pub struct Fail {
    /// what was observed, in a form stable enough to key known findings on
    pub what: String,
    /// further details
    pub detail: String,
}

impl Fail {
    pub fn new(what: impl Into<String>) -> Fail {
        Fail {
            what: what.into(),
            detail: String::new(),
        }
    }
    pub fn detail(mut self, d: impl Into<String>) -> Fail {
        if !self.detail.is_empty() {
            self.detail.push('\n');
        }
        self.detail.push_str(&d.into());
        self
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::sut::Fail::new(format!($($a)*))); } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
        } else {
            default(info)
        }
    }));
}

/// Runs code under test; a panic is a failure of the property being monitored.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    QUIET.with(|q| *q.borrow_mut() = true);
    crate::alloc::limited(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::alloc::limited(false);
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| {
        Fail::new(format!(
            "{what} panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        ))
    })
}

pub fn lex(text: &str) -> Result<Result<Vec<Token>, TokenError>, Fail> {
    let text = text.to_string();
    guard("tokenize", move || lolcode_ast::tokenize(text))
}

/// Tokenizes a text that has no unclosed multi-line comment
pub fn lex_ok(text: &str) -> Result<Vec<Token>, Fail> {
    lex(text)?.map_err(|e| Fail::new(format!("tokenize failed: {e:?}")))
}

pub fn parse(tokens: &[Token]) -> Result<ASTBlock, Fail> {
    let tokens = tokens.to_vec();
    guard("parse", move || lolcode_ast::parse(tokens))
}

pub fn both(text: &str) -> Result<Result<ASTBlock, TokenError>, Fail> {
    let text = text.to_string();
    guard("tokenize_and_parse", move || {
        lolcode_ast::tokenize_and_parse(text)
    })
}
