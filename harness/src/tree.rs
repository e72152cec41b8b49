//! Syntax trees over token numbers, and their comparison.
use crate::kinds::{kind, K};
use crate::sut::{guard, Fail};
use lolcode_ast::lexer::{Position, Token};
use lolcode_ast::parser::verif_hooks as hooks;
use lolcode_ast::parser::ASTBlock;
use std::collections::HashMap;

pub type Ix = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum It {
    Tok(Ix),
    Node(Nd),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Nd {
    pub kind: &'static str,
    pub items: Vec<(&'static str, It)>,
}

impl Nd {
    pub fn new(kind: &'static str) -> Nd {
        Nd {
            kind,
            items: Vec::new(),
        }
    }
    pub fn tok(mut self, f: &'static str, t: Ix) -> Nd {
        self.items.push((f, It::Tok(t)));
        self
    }
    pub fn opt(self, f: &'static str, t: Option<Ix>) -> Nd {
        match t {
            Some(t) => self.tok(f, t),
            None => self,
        }
    }
    pub fn toks(mut self, f: &'static str, ts: &[Ix]) -> Nd {
        for t in ts {
            self.items.push((f, It::Tok(*t)));
        }
        self
    }
    pub fn node(mut self, f: &'static str, n: Nd) -> Nd {
        self.items.push((f, It::Node(n)));
        self
    }
    pub fn nodes(mut self, f: &'static str, ns: Vec<Nd>) -> Nd {
        for n in ns {
            self.items.push((f, It::Node(n)));
        }
        self
    }
    pub fn is_error(&self) -> bool {
        self.kind.starts_with("Error:")
    }
    /// All tokens, in preorder
    pub fn tokens(&self, out: &mut Vec<Ix>) {
        for (_, i) in &self.items {
            match i {
                It::Tok(t) => out.push(*t),
                It::Node(n) => n.tokens(out),
            }
        }
    }
    /// All error nodes, in preorder
    pub fn errors<'a>(&'a self, out: &mut Vec<&'a Nd>) {
        if self.is_error() {
            out.push(self);
        }
        for (_, i) in &self.items {
            if let It::Node(n) = i {
                n.errors(out);
            }
        }
    }
    pub fn count(&self, stats: &mut dyn FnMut(&'static str)) {
        stats(self.kind);
        for (_, i) in &self.items {
            if let It::Node(n) = i {
                n.count(stats);
            }
        }
    }
    pub fn depth(&self) -> usize {
        1 + self
            .items
            .iter()
            .map(|(_, i)| match i {
                It::Node(n) => n.depth(),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }
    pub fn stmts(&self) -> Vec<&Nd> {
        self.items
            .iter()
            .filter_map(|(_, i)| match i {
                It::Node(n) => Some(n),
                _ => None,
            })
            .collect()
    }
    /// Renumbers the tokens
    pub fn map(&self, f: &dyn Fn(Ix) -> Ix) -> Nd {
        Nd {
            kind: self.kind,
            items: self
                .items
                .iter()
                .map(|(n, i)| {
                    (
                        *n,
                        match i {
                            It::Tok(t) => It::Tok(f(*t)),
                            It::Node(x) => It::Node(x.map(f)),
                        },
                    )
                })
                .collect(),
        }
    }
    pub fn show(&self, name: &dyn Fn(Ix) -> String) -> String {
        let mut s = String::new();
        self.show_into(name, 0, &mut s);
        s
    }
    fn show_into(&self, name: &dyn Fn(Ix) -> String, indent: usize, s: &mut String) {
        if s.len() > 6000 {
            return;
        }
        s.push_str(self.kind);
        s.push('(');
        for (n, (f, i)) in self.items.iter().enumerate() {
            if n > 0 {
                s.push_str(", ");
            }
            match i {
                It::Tok(t) => {
                    s.push_str(f);
                    s.push('=');
                    s.push_str(&name(*t));
                }
                It::Node(x) => {
                    if x.kind == "Block" || self.kind == "Block" {
                        s.push('\n');
                        s.push_str(&"  ".repeat(indent + 1));
                    }
                    s.push_str(f);
                    s.push('=');
                    x.show_into(name, indent + 1, s);
                }
            }
        }
        s.push(')');
    }
}

/// The first place where two trees differ
pub fn diff(want: &Nd, got: &Nd, name: &dyn Fn(Ix) -> String) -> Option<String> {
    if want.kind != got.kind {
        return Some(format!(
            "expected {} but found {}",
            want.show(name),
            got.show(name)
        ));
    }
    for i in 0..want.items.len().max(got.items.len()) {
        let at = format!("{}#{i}", want.kind);
        match (want.items.get(i), got.items.get(i)) {
            (Some((f, a)), Some((g, b))) => {
                if f != g {
                    return Some(format!("{at}: expected field {f} but found {g}"));
                }
                match (a, b) {
                    (It::Tok(a), It::Tok(b)) => {
                        if a != b {
                            return Some(format!(
                                "{at}.{f}: expected token {} but found {}",
                                name(*a),
                                name(*b)
                            ));
                        }
                    }
                    (It::Node(a), It::Node(b)) => {
                        if let Some(d) = diff(a, b, name) {
                            return Some(format!("{at}.{f} / {d}"));
                        }
                    }
                    _ => return Some(format!("{at}.{f}: token and node confused")),
                }
            }
            (Some((f, x)), None) => {
                return Some(format!(
                    "{at}: nothing where {f} was expected: {}",
                    match x {
                        It::Tok(t) => name(*t),
                        It::Node(n) => n.show(name),
                    }
                ))
            }
            (None, Some((f, x))) => {
                return Some(format!(
                    "{at}: {f} where nothing was expected: {}",
                    match x {
                        It::Tok(t) => name(*t),
                        It::Node(n) => n.show(name),
                    }
                ))
            }
            (None, None) => {}
        }
    }
    None
}

/// All four fields; the library's own == looks at lines and columns only
pub fn same_position(a: &Position, b: &Position) -> bool {
    a.line == b.line && a.column == b.column && a.bytes == b.bytes && a.chars == b.chars
}

pub fn same_kind(a: &Token, b: &Token) -> bool {
    kind(a) == kind(b)
}

pub fn same_token(a: &Token, b: &Token) -> bool {
    same_kind(a, b)
        && same_position(&a.range.0, &b.range.0)
        && same_position(&a.range.1, &b.range.1)
}

/// Finds tokens of a tree in the list of tokens that was parsed. Tokens need distinct byte starts.
pub struct Finder<'a> {
    pub tokens: &'a [Token],
    by_start: HashMap<i32, Ix>,
}

impl<'a> Finder<'a> {
    pub fn new(tokens: &'a [Token]) -> Finder<'a> {
        let by_start = tokens
            .iter()
            .enumerate()
            .map(|(i, t)| (t.range.0.bytes, i))
            .collect();
        Finder { tokens, by_start }
    }
    pub fn find(&self, t: &Token) -> Result<Ix, Fail> {
        match self.by_start.get(&t.range.0.bytes) {
            Some(i) if same_token(&self.tokens[*i], t) => Ok(*i),
            _ => Err(Fail::new(format!(
                "the tree has a token that was not parsed: {t:?}"
            ))),
        }
    }
    pub fn tree(&self, t: &hooks::Tree) -> Result<Nd, Fail> {
        let mut n = Nd {
            kind: t.kind,
            items: Vec::with_capacity(t.items.len()),
        };
        for (f, i) in &t.items {
            n.items.push((
                *f,
                match i {
                    hooks::Item::Tok(t) => It::Tok(self.find(t)?),
                    hooks::Item::Node(x) => It::Node(self.tree(x)?),
                },
            ));
        }
        Ok(n)
    }
}

/// The tree of a block, over the numbers of the tokens it was parsed from
pub fn index(block: &ASTBlock, tokens: &[Token]) -> Result<Nd, Fail> {
    let tree = guard("walking the tree", || hooks::export(block))?;
    Finder::new(tokens).tree(&tree)
}

pub fn show_kind(k: &K) -> String {
    match k {
        K::Ident(s) => short(s),
        K::Kw(i) => crate::kinds::KW[*i].1.to_string(),
        other => short(&format!("{other:?}")),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        let head: String = s.chars().take(40).collect();
        format!("{head}...({} chars)", s.chars().count())
    } else {
        s.to_string()
    }
}

/// Names tokens by number and kind
pub fn namer<'a>(kinds: &'a [K]) -> impl Fn(Ix) -> String + 'a {
    move |i| match kinds.get(i) {
        Some(k) => format!("#{i}:{}", show_kind(k)),
        None => format!("#{i}"),
    }
}
