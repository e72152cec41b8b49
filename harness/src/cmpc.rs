//! C26: what compares equal, what a copy is, and what converts into what.
use crate::case::{load, Case, Load};
use crate::ensure;
use crate::fuzz;
use crate::gen;
use crate::kinds::{kind, kw_value, type_of, K, KW};
use crate::lexc::{show, show_all};
use crate::rng::Rng;
use crate::sut::{self, guard, Fail, Res};
use crate::tree::same_token;
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenError, TokenType, TokenValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::verif_hooks as hooks;
use lolcode_ast::parser::ASTBlock;
use std::collections::VecDeque;

// ---------------------------------------------------------------- what should be equal

/// Numbers compare as numbers, everything else as it is
fn eq_kind(a: &K, b: &K) -> bool {
    match (a, b) {
        (K::Float(a), K::Float(b)) => a == b,
        _ => a == b,
    }
}

fn eq_position(a: &Position, b: &Position) -> bool {
    a.line == b.line && a.column == b.column
}

fn eq_range(a: &Range, b: &Range) -> bool {
    eq_position(&a.0, &b.0) && eq_position(&a.1, &b.1)
}

fn eq_token(a: &Token, b: &Token) -> bool {
    eq_kind(&kind(a), &kind(b)) && eq_range(&a.range, &b.range)
}

fn eq_tree(a: &hooks::Tree, b: &hooks::Tree) -> bool {
    a.kind == b.kind
        && a.items.len() == b.items.len()
        && a.items.iter().zip(&b.items).all(|((f, x), (g, y))| {
            f == g
                && match (x, y) {
                    (hooks::Item::Tok(x), hooks::Item::Tok(y)) => eq_token(x, y),
                    (hooks::Item::Node(x), hooks::Item::Node(y)) => eq_tree(x, y),
                    _ => false,
                }
        })
}

/// The same to the last offset: what a copy must be
fn same_tree(a: &hooks::Tree, b: &hooks::Tree) -> bool {
    a.kind == b.kind
        && a.items.len() == b.items.len()
        && a.items.iter().zip(&b.items).all(|((f, x), (g, y))| {
            f == g
                && match (x, y) {
                    (hooks::Item::Tok(x), hooks::Item::Tok(y)) => same_token(x, y),
                    (hooks::Item::Node(x), hooks::Item::Node(y)) => same_tree(x, y),
                    _ => false,
                }
        })
}

/// The four ways of asking
fn asked<T: PartialEq>(what: &str, a: &T, b: &T, want: bool, show: &dyn Fn() -> String) -> Res {
    let got = guard(&format!("comparing {what}"), || [a == b, b == a, !(a != b), !(b != a)])?;
    ensure!(
        got == [want; 4],
        "{what} {} compare as {:?} (==, == swapped, not !=, not != swapped), though they {}",
        show(),
        got,
        if want { "say the same" } else { "differ" }
    );
    Ok(())
}

fn tokens_asked(c: &mut Case, a: &Token, b: &Token) -> Res {
    let want = eq_token(a, b);
    let say = || format!("{} and {}", show(a), show(b));
    asked("tokens", a, b, want, &say)?;
    let kinds = eq_kind(&kind(a), &kind(b));
    asked("token types", &a.token_type, &b.token_type, kinds, &say)?;
    let ranges = eq_range(&a.range, &b.range);
    asked("ranges", &a.range, &b.range, ranges, &say)?;
    for (p, q) in [(&a.range.0, &b.range.0), (&a.range.1, &b.range.1), (&a.range.0, &b.range.1)] {
        asked("positions", p, q, eq_position(p, q), &say)?;
    }
    asked(
        "lexing errors",
        &TokenError::UnclosedMultilineComment(a.range.clone()),
        &TokenError::UnclosedMultilineComment(b.range.clone()),
        ranges,
        &say,
    )?;
    match (&a.token_type, &b.token_type) {
        (TokenType::Value(x), TokenType::Value(y)) => {
            asked("values", x, y, kinds, &say)?;
            if let (TokenValue::Number(x), TokenValue::Number(y)) = (x, y) {
                asked("numbers", x, y, kinds, &say)?;
                c.count("numbers compared");
            }
        }
        (TokenType::Keyword(x), TokenType::Keyword(y)) => asked("keywords", x, y, kinds, &say)?,
        _ => {}
    }
    let nan = |t: &Token| matches!(kind(t), K::Float(f) if f.is_nan());
    if !want && !nan(a) && !nan(b) {
        let (x, y) = guard("showing a token", || (format!("{a:?}"), format!("{b:?}")))?;
        ensure!(x != y, "{} and {} differ, but both are shown as {x:?}", show(a), show(b));
    }
    c.count(if want { "equal tokens compared" } else { "different tokens compared" });
    Ok(())
}

/// Another spelling that is hard to tell from this one
fn near(s: &str, r: &mut Rng) -> String {
    let mut v: Vec<char> = s.chars().collect();
    if v.is_empty() {
        return r.pick(&["x", " ", "\0"]).to_string();
    }
    let i = match r.below(4) {
        0 => 0,
        1 => v.len() - 1,
        _ => r.below(v.len()),
    };
    match r.below(6) {
        0 => {
            let flipped = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
            v[i] = if flipped == v[i] { '_' } else { flipped };
        }
        1 => {
            v.remove(i);
        }
        2 => v.insert(i, v[i]),
        3 => v.push(*r.pick(&[' ', '\0', '\n', 'x', '\u{301}'])),
        4 => v.insert(0, *r.pick(&[' ', '\t', 'x'])),
        _ => v[i] = if v[i] == 'x' { 'y' } else { 'x' },
    }
    let out: String = v.into_iter().collect();
    if out == s {
        format!("{s}{s}x")
    } else {
        out
    }
}

/// Another kind of token that is hard to tell from this one
fn near_kind(k: &K, r: &mut Rng) -> K {
    let other = match (k, r.below(3)) {
        (K::Ident(s), 0) => K::Str(s.clone()),
        (K::Ident(s), 1) => K::Sym(s.clone()),
        (K::Ident(s), _) => K::Ident(near(s, r)),
        (K::Sym(s), 0) => K::Ident(s.clone()),
        (K::Sym(s), _) => K::Sym(near(s, r)),
        (K::Str(s), 0) => K::Com(s.clone()),
        (K::Str(s), _) => K::Str(near(s, r)),
        (K::Com(s), 0) => K::MCom(s.clone()),
        (K::Com(s), _) => K::Com(near(s, r)),
        (K::MCom(s), 0) => K::Com(s.clone()),
        (K::MCom(s), _) => K::MCom(near(s, r)),
        (K::Int(i), 0) => K::Float(*i as f32),
        (K::Int(i), 1) => K::Int(i.wrapping_neg().wrapping_add((*i == 0 || *i == i32::MIN) as i32)),
        (K::Int(i), _) => K::Int(i ^ (1 << r.below(32))),
        (K::Float(f), 0) => K::Int(*f as i32),
        (K::Float(f), 1) => K::Float(f32::from_bits(f.to_bits() ^ 1)),
        (K::Float(f), _) => K::Float(if *f == 0.0 { 1.0 } else { -f }),
        (K::Bool(b), 0) => K::Kw(crate::kinds::kw(if *b { "WIN" } else { "FAIL" })),
        (K::Bool(b), _) => K::Bool(!b),
        (K::Noob, 0) => K::Kw(crate::kinds::kw("NOOB")),
        (K::Noob, _) => K::Bool(false),
        (K::Kw(i), 0) => K::Ident(KW[*i].1.to_string()),
        (K::Kw(i), 1) => K::Kw((i + 1) % KW.len()),
        (K::Kw(i), _) => K::Kw((i + 1 + r.below(KW.len() - 1)) % KW.len()),
        (K::Slot, _) => K::Sym("'Z".into()),
        (K::Ellipsis, 0) => K::Sym("...".into()),
        (K::Ellipsis, _) => K::Comma,
        (K::Comma, 0) => K::Sym(",".into()),
        (K::Comma, _) => K::Ellipsis,
        (K::Excl, 0) => K::Sym("!".into()),
        (K::Excl, _) => K::Quest,
        (K::Quest, 0) => K::Sym("?".into()),
        (K::Quest, _) => K::Excl,
    };
    other
}

/// The same token, one thing about it changed
fn near_token(t: &Token, r: &mut Rng) -> Token {
    let mut t = t.clone();
    let step = {
        let s = *r.pick(&[1, 1, 1, 2, 8, 10, 100, 128, 256, 1000, 1024, 4096, 32768, 65536, 1 << 20, 1 << 24]);
        if r.one_in(2) {
            s
        } else {
            -s
        }
    };
    let p = if r.one_in(2) { &mut t.range.0 } else { &mut t.range.1 };
    match r.below(3) {
        0 => t.token_type = type_of(&near_kind(&kind(&t), r)),
        1 => p.line = p.line.wrapping_add(step),
        _ => p.column = p.column.wrapping_add(step),
    }
    t
}

fn tokens(c: &mut Case, r: &mut Rng) -> Result<Vec<Token>, Fail> {
    if r.pct(60) {
        let t = fuzz::any_lexable(r, c.dict, c.size);
        c.note(&t);
        sut::lex_ok(&t)
    } else {
        let ts = fuzz::api_tokens(r, c.dict, c.size);
        c.note(&show_all(&ts));
        Ok(ts)
    }
}

/// Numbers read back out of a line of text
fn numbers(s: &str) -> Vec<i64> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for ch in s.chars().chain([' ']) {
        if ch.is_ascii_digit() || (ch == '-' && cur.is_empty()) {
            cur.push(ch);
        } else {
            if let Ok(n) = cur.parse() {
                out.push(n);
            }
            cur.clear();
        }
    }
    out
}

fn token_laws(_c: &mut Case, t: &Token) -> Res {
    let copy = guard("copying a token", || t.clone())?;
    ensure!(same_token(t, &copy), "a copy of {} is {}", show(t), show(&copy));
    // both ends of a range as they were given
    let (a, b) = (t.range.0, t.range.1);
    let pair = Range::from((a, b));
    let single = Range::from(b);
    let same = crate::tree::same_position;
    ensure!(
        same(&pair.0, &a) && same(&pair.1, &b),
        "a range made from {a:?} and {b:?} is {pair:?}"
    );
    ensure!(
        same(&single.0, &b) && same(&single.1, &b),
        "a range made from {b:?} alone is {single:?}"
    );
    // what is shown of a position is its line, then its column
    for p in [a, b] {
        let shown = guard("showing a position", || format!("{p}"))?;
        ensure!(
            numbers(&shown) == [p.line as i64, p.column as i64],
            "line {} and column {} are shown as {shown}",
            p.line,
            p.column
        );
    }
    token_conversions(t)?;
    let e = TokenError::UnclosedMultilineComment(t.range.clone());
    let n = guard("showing a token", || format!("{t:?}{e:?}{:#?}", t).len())?;
    ensure!(n > 0, "a token is shown as nothing");
    Ok(())
}

fn tokens_compare(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut ts = tokens(c, &mut r)?;
    if ts.is_empty() {
        return Ok(());
    }
    let whole = ts.clone();
    r.shuffle(&mut ts);
    ts.truncate(14);
    for t in &ts {
        token_laws(c, t)?;
    }
    for i in 0..ts.len() {
        for j in i..ts.len() {
            tokens_asked(c, &ts[i], &ts[j])?;
        }
        for _ in 0..6 {
            let b = near_token(&ts[i], &mut r);
            tokens_asked(c, &ts[i], &b)?;
        }
        // the same thing somewhere else, another thing at the same place
        let j = r.below(ts.len());
        let moved = Token { token_type: ts[i].token_type.clone(), range: ts[j].range.clone() };
        tokens_asked(c, &ts[i], &moved)?;
        tokens_asked(c, &ts[j], &moved)?;
        let mut half = ts[i].clone();
        half.range.1 = ts[j].range.1;
        tokens_asked(c, &ts[i], &half)?;
        tokens_asked(c, &ts[j], &half)?;
        let back = Token {
            token_type: ts[i].token_type.clone(),
            range: Range(ts[i].range.1, ts[i].range.0),
        };
        tokens_asked(c, &ts[i], &back)?;
    }
    let text = show_all(&whole);
    c.seen(&text, whole.len() > 1);
    Ok(())
}

fn every_kind(c: &mut Case) -> Res {
    // all pairs of keywords, and of every kind of token with a few spellings
    let mut kinds: Vec<K> = (0..KW.len()).map(K::Kw).collect();
    for (_, s) in KW {
        kinds.push(K::Ident(s.to_string()));
        kinds.push(K::Str(s.to_string()));
    }
    for s in ["", "x", "X", "1", "0", ",", "?", "!", "...", "'Z", "true", "TLDR"] {
        kinds.push(K::Ident(s.into()));
        kinds.push(K::Sym(s.into()));
        kinds.push(K::Str(s.into()));
        kinds.push(K::Com(s.into()));
        kinds.push(K::MCom(s.into()));
    }
    for i in [0, 1, -1, 2, 10, i32::MAX, i32::MIN, 1 << 24, (1 << 24) + 1] {
        kinds.push(K::Int(i));
        kinds.push(K::Float(i as f32));
    }
    for f in [0.5f32, 1.5, 1.0000001, 0.1, 1e30, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY] {
        kinds.push(K::Float(f));
        kinds.push(K::Float(-f));
    }
    kinds.extend([K::Bool(true), K::Bool(false), K::Noob, K::Slot, K::Ellipsis, K::Comma, K::Excl, K::Quest]);
    let at = Range::from((Position::default(), Position { line: 1, column: 2, bytes: 1, chars: 1 }));
    let a = &kinds[c.index % kinds.len()];
    let a = Token { token_type: type_of(a), range: at.clone() };
    c.note(&show(&a));
    token_laws(c, &a)?;
    for b in &kinds {
        let b = Token { token_type: type_of(b), range: at.clone() };
        tokens_asked(c, &a, &b)?;
    }
    if c.index < KW.len() {
        let (k, same): (Keywords, Keywords) = (kw_value(c.index), kw_value(c.index).clone());
        ensure!(k == same, "a copy of the keyword {} differs from it", KW[c.index].1);
    }
    let n = NumberToken::Int(c.index as i32);
    ensure!(n.clone() == n, "a copy of a number differs from it");
    let text = show(&a);
    c.seen(&text, true);
    Ok(())
}

pub const KINDS_N: usize = 61 + 122 + 60 + 18 + 18 + 8;

// ---------------------------------------------------------------- trees

fn export(b: &ASTBlock) -> Result<hooks::Tree, Fail> {
    guard("walking the tree", || hooks::export(b))
}

fn trees_asked(c: &mut Case, a: &ASTBlock, b: &ASTBlock) -> Result<bool, Fail> {
    let (x, y) = (export(a)?, export(b)?);
    let want = eq_tree(&x, &y);
    asked("trees", a, b, want, &|| crate::tree::short(&format!("{x:?} and {y:?}")))?;
    c.count(if want { "equal trees compared" } else { "different trees compared" });
    Ok(want)
}

fn nodes_asked(c: &mut Case, a: &ASTBlock, b: &ASTBlock) -> Res {
    for (n, m) in a.0.iter().zip(b.0.iter()).take(40) {
        let one = |n: &Node| export(&ASTBlock(VecDeque::from([n.clone()])));
        let (x, y) = (one(n)?, one(m)?);
        asked("entries", n, m, eq_tree(&x, &y), &|| crate::tree::short(&format!("{x:?} and {y:?}")))?;
        c.count("entries compared");
    }
    let errors = |b: &ASTBlock| -> Result<Vec<hooks::Tree>, Fail> {
        guard("iterating over errors", || b.iter_errors().map(hooks::export_error).collect())
    };
    let (x, y) = (errors(a)?, errors(b)?);
    let (es, fs): (Vec<_>, Vec<_>) = (a.iter_errors().take(12).collect(), b.iter_errors().take(12).collect());
    for (e, x) in es.iter().zip(&x) {
        for (f, y) in fs.iter().zip(&y) {
            asked("errors", *e, *f, eq_tree(x, y), &|| format!("{e:?} and {f:?}"))?;
            c.count("errors compared");
        }
        // an error on its own is an entry like any other
        let entry = ASTBlock::from([Node::from((*e).clone())]);
        let back = errors(&entry)?;
        ensure!(
            back.len() == 1 && same_tree(&back[0], x),
            "an error made into an entry says {back:?}, not {x:?}"
        );
    }
    Ok(())
}

/// Copies, entries out of a block and back into one
fn block_laws(c: &mut Case, a: ASTBlock) -> Res {
    let was = export(&a)?;
    let itself = eq_tree(&was, &was);
    let copy = guard("copying a tree", || a.clone())?;
    asked("a tree and its copy", &a, &copy, itself, &|| "".into())?;
    ensure!(same_tree(&was, &export(&copy)?), "a copy of a tree has other contents");
    let mut over = a.clone();
    over.0.pop_front();
    guard("copying a tree over another", || over.clone_from(&a))?;
    ensure!(same_tree(&was, &export(&over)?), "a tree copied over another one has other contents");
    let (hint, count, last) = guard("taking copies apart", || {
        let last = a.clone().into_iter().last().map(|n| ASTBlock::from([n]));
        (a.clone().into_iter().size_hint(), a.clone().into_iter().count(), last)
    })?;
    let n = a.0.len();
    ensure!(hint.0 <= n && hint.1.map_or(true, |h| h >= n) && count == n, "a block of {n} entries says it has {hint:?}, or {count}");
    if let (Some(last), Some(want)) = (last, a.0.back()) {
        ensure!(
            same_tree(&export(&last)?, &export(&ASTBlock::from([want.clone()]))?),
            "the last of a block's entries is another one when it is taken apart"
        );
    }
    // what happens to the copy does not happen to the original, and the other way round
    let mut worn = copy.clone();
    worn.0.pop_back();
    worn.0.push_front(match a.0.back() {
        Some(n) => n.clone(),
        None => return Ok(()),
    });
    ensure!(same_tree(&was, &export(&a)?), "changing a copy changed the original");
    let n = a.0.len();
    let entries: Vec<Node> = guard("turning a block into its entries", || a.into_iter().collect())?;
    ensure!(entries.len() == n, "a block of {n} entries turned into {}", entries.len());
    ensure!(same_tree(&was, &export(&copy)?), "taking the original apart changed the copy");
    let again = ASTBlock(entries.iter().cloned().collect());
    ensure!(same_tree(&was, &export(&again)?), "the entries a block turned into are not those it had, in order");
    asked("a tree and the tree of its entries", &again, &copy, itself, &|| "".into())?;
    // an array of entries
    let arr = |k: usize| entries.get(k).cloned();
    if let (Some(x), Some(y)) = (arr(0), arr(entries.len() - 1)) {
        let two = ASTBlock::from([x.clone(), y.clone()]);
        let want = ASTBlock(vec![x, y].into_iter().collect());
        ensure!(same_tree(&export(&two)?, &export(&want)?), "a block made from two entries has other entries");
    }
    let empty = ASTBlock::default();
    ensure!(empty.0.is_empty() && empty.iter_errors().count() == 0, "an empty block has entries");
    // dropping or repeating an entry makes another tree
    let mut short = again.clone();
    short.0.pop_back();
    trees_asked(c, &again, &short)?;
    let mut long = again.clone();
    long.0.push_back(entries[0].clone());
    trees_asked(c, &again, &long)?;
    let mut turned = again.clone();
    turned.0.rotate_left(1);
    trees_asked(c, &again, &turned)?;
    trees_asked(c, &short, &long)?;
    trees_asked(c, &empty, &again)?;
    let shown = guard("showing a tree", || format!("{again:?}").len() + format!("{again:#?}").len())?;
    ensure!(shown > 0, "a tree is shown as nothing");
    c.count("trees copied and rebuilt");
    Ok(())
}

/// The parts of a statement made into an entry again, the parts of an expression into an expression
fn conversions(c: &mut Case, b: &ASTBlock) -> Res {
    use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
    let one = |n: Node| export(&ASTBlock(VecDeque::from([n])));
    for n in b.0.iter().take(30) {
        let was = one(n.clone())?;
        let made = match n.clone() {
            Node::IHasA(x) => Node::from(x),
            Node::Hai(x) => Node::from(x),
            Node::ImInYr(x) => Node::from(x),
            Node::BukkitSetSlot(x) => Node::from(x),
            Node::VariableAssignment(x) => Node::from(x),
            Node::Visible(x) => Node::from(x),
            Node::FoundYr(x) => Node::from(x),
            Node::Wtf(x) => Node::from(x),
            Node::ORly(x) => Node::from(x),
            Node::IIz(x) => Node::from(x),
            Node::HowIzI(x) => Node::from(x),
            Node::Gtfo(x) => Node::from(x),
            Node::Gimmeh(x) => Node::from(x),
            Node::Expression(x) => Node::from(x),
            Node::ASTError(x) => Node::from(x),
            Node::KThxBye(x) => Node::from(x),
        };
        ensure!(same_tree(&was, &one(made)?), "a {} made into an entry is another one", was.items.first().map_or("?", |(_, i)| match i {
            hooks::Item::Node(t) => t.kind,
            _ => "token",
        }));
        let through = match n.clone() {
            Node::ASTError(e) => Node::from(Err::<Node, _>(e)),
            n => Node::from(Ok(n)),
        };
        ensure!(same_tree(&was, &one(through)?), "a result made into an entry says something else");
        if let Node::Expression(e) = n {
            let again = match e.clone() {
                ASTExpression::BinaryOperation(o) => ASTExpression::from(o),
                ASTExpression::UnaryOperation(o) => ASTExpression::from(o),
                ASTExpression::NaryOperation(o) => ASTExpression::from(o),
                ASTExpression::Value(ASTExpressionValue::VariableAccess(v)) => ASTExpression::Value(v.into()),
                e => e,
            };
            ensure!(same_tree(&was, &one(Node::Expression(again))?), "an operation made into an expression is another one");
            c.count("expressions converted");
        }
        c.count("entries converted");
    }
    Ok(())
}

/// A token made into a literal value, or into a type
fn token_conversions(t: &Token) -> Res {
    use lolcode_ast::parser::expression::{ASTExpressionValue, ASTType};
    let k = kind(t);
    let v = guard("token to value", || ASTExpressionValue::try_from(t.clone()))?;
    ensure!(v.is_ok() == k.is_value(), "{} made into a value gives {v:?}", show(t));
    if let Ok(v) = v {
        let ts: Vec<Token> = v.tokens().take(5).cloned().collect();
        ensure!(ts.len() == 1 && same_token(&ts[0], t), "{} made into a value has the tokens {}", show(t), show_all(&ts));
        let same = crate::tree::same_position;
        ensure!(same(v.range().0, &t.range.0) && same(v.range().1, &t.range.1), "{} made into a value spans {:?}", show(t), v.range());
    }
    let ty = guard("token to type", || ASTType::try_from(t.clone()))?;
    let variant = match &ty {
        Ok(ASTType::Bukkit(_)) => "BUKKIT",
        Ok(ASTType::Numbr(_)) => "NUMBR",
        Ok(ASTType::Numbar(_)) => "NUMBAR",
        Ok(ASTType::Yarn(_)) => "YARN",
        Ok(ASTType::Troof(_)) => "TROOF",
        Ok(ASTType::Noob(_)) => "NOOB",
        Err(_) => "",
    };
    let want = match &k {
        K::Kw(i) if ["BUKKIT", "NUMBR", "NUMBAR", "YARN", "TROOF", "NOOB"].contains(&KW[*i].1) => KW[*i].1,
        _ => "",
    };
    ensure!(variant == want, "{} made into a type gives {ty:?}", show(t));
    let back = match ty {
        Ok(ty) => {
            ensure!(same_token(ty.token(), t), "{} made into a type says {}", show(t), show(ty.token()));
            ty.into_token()
        }
        Err(t) => t,
    };
    ensure!(same_token(&back, t), "{} made into a type gives back {}", show(t), show(&back));
    Ok(())
}

fn trees_compare(c: &mut Case, tokens: &[Token], r: &mut Rng) -> Res {
    if tokens.is_empty() {
        return Ok(());
    }
    let a = sut::parse(tokens)?;
    let b = sut::parse(tokens)?;
    let same = trees_asked(c, &a, &b)?;
    nodes_asked(c, &a, &b)?;
    conversions(c, &a)?;
    if !same {
        c.count("trees with a value that differs from itself");
    }
    // one token changed a little
    let tries = if tokens.len() > 200 { 3 } else { 10 };
    for _ in 0..tries {
        let i = r.below(tokens.len());
        let mut changed = tokens.to_vec();
        changed[i] = near_token(&changed[i], r);
        let b = sut::parse(&changed)?;
        trees_asked(c, &a, &b)?;
        if r.one_in(4) {
            nodes_asked(c, &a, &b)?;
        }
    }
    // one left out, one twice, two swapped
    for what in 0..3 {
        let i = r.below(tokens.len());
        let mut changed = tokens.to_vec();
        match what {
            0 => {
                changed.remove(i);
            }
            1 => changed.insert(i, tokens[i].clone()),
            _ => changed.swap(i, (i + 1) % tokens.len()),
        }
        let b = sut::parse(&changed)?;
        trees_asked(c, &a, &b)?;
    }
    block_laws(c, a)
}

fn tree_pairs(c: &mut Case) -> Res {
    let mut r = c.sub();
    let ts = tokens(c, &mut r)?;
    trees_compare(c, &ts, &mut r)?;
    let input = c.input.clone();
    c.seen(&input, ts.len() > 1);
    Ok(())
}

/// Every token of a program changed in turn, kept apart by its column alone
fn each_token(c: &mut Case) -> Res {
    let mut r = c.sub();
    let p = gen::program(&mut r, c.dict, c.size);
    let st = crate::layout::Style::any(&mut r);
    let text = crate::layout::render(&p.lex, &p.starts, &st, &mut r, c.dict).text;
    c.note(&text);
    let ts = sut::lex_ok(&text)?;
    if ts.len() > 150 {
        return Ok(());
    }
    let a = sut::parse(&ts)?;
    for i in 0..ts.len() {
        for how in 0..3 {
            let mut changed = ts.clone();
            match how {
                0 => changed[i].range.0.column += 1,
                1 => changed[i].range.1.column += 1,
                _ => {
                    let k = match kind(&ts[i]) {
                        K::Ident(s) => K::Ident(near(&s, &mut r)),
                        K::Str(s) => K::Str(near(&s, &mut r)),
                        K::Int(n) => K::Int(n ^ 1),
                        K::Float(f) => K::Float(f32::from_bits(f.to_bits() ^ 1)),
                        K::Bool(b) => K::Bool(!b),
                        _ => continue,
                    };
                    changed[i].token_type = type_of(&k);
                }
            }
            let b = sut::parse(&changed)?;
            trees_asked(c, &a, &b)?;
        }
    }
    c.seen(&text, ts.len() > 1);
    Ok(())
}

/// Spellings of any length that differ in one place
fn long_spellings(c: &mut Case) -> Res {
    let mut r = c.sub();
    let n = *r.pick(&[1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 5000, 65535, 65536, 70000]);
    let n = (n + r.below(3)).saturating_sub(1);
    let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '_', '7', 'x'])).collect();
    let make: fn(String) -> TokenType = *r.pick(&[
        (|s| TokenType::Identifier(s)) as fn(String) -> TokenType,
        |s| TokenType::Symbol(s),
        |s| TokenType::Value(TokenValue::String(s)),
        |s| TokenType::CommentSingleLine(s),
        |s| TokenType::CommentMultiLine(s),
    ]);
    let at = Range::from((Position::default(), Position { line: 1, column: 1 + n as i32, bytes: n as i32, chars: n as i32 }));
    let a = Token { token_type: make(s.clone()), range: at.clone() };
    c.note(&crate::tree::short(&show(&a)));
    for how in 0..4 {
        let t = match how {
            0 => s.clone(),
            _ if n == 0 => "x".into(),
            1 => s[..n - 1].to_string(),
            2 => format!("{s}x"),
            _ => near(&s, &mut r),
        };
        let b = Token { token_type: make(t), range: at.clone() };
        tokens_asked(c, &a, &b)?;
        if n < 6000 && !matches!(a.token_type, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)) {
            let (x, y) = (sut::parse(&[a.clone()])?, sut::parse(&[b.clone()])?);
            trees_asked(c, &x, &y)?;
        }
    }
    let text = show(&a);
    c.seen(&text, true);
    Ok(())
}

/// Wide and deep trees, changed in one place
fn large_trees(c: &mut Case) -> Res {
    let mut r = c.sub();
    let text = match c.index % 3 {
        0 => {
            let n = *r.pick(&[16, 17, 64, 65, 100, 128, 129, 256, 257, 500, 1000, 1025]);
            let line = *r.pick(&["VISIBLE a\n", "a R 1\n", "x 1 2\n", "GTFO\n", "I HAS A a ITZ 2\n", "SUM OF 1\n"]);
            line.repeat(n)
        }
        1 => {
            let n = *r.pick(&[9, 16, 17, 33, 64, 65, 129, 257]);
            let (head, each, tail) = *r.pick(&[
                ("VISIBLE", " a", "!\n"),
                ("ALL OF a", " AN b", " MKAY\n"),
                ("SMOOSH a", " b", " MKAY\n"),
                ("I IZ f YR 1", " AN YR a", " MKAY\n"),
                ("HOW IZ I f YR a", " AN YR b", "\nGTFO\nIF U SAY SO\n"),
                ("a", " 'Z b", " R 1\n"),
                ("WTF?\n", "OMG 1\nGTFO\n", "OIC\n"),
                ("O RLY?\nYA RLY\n", "MEBBE a\nGTFO\n", "OIC\n"),
                ("GTFO", " x", "\n"),
            ]);
            format!("{head}{}{tail}", each.repeat(n))
        }
        _ => {
            let depth = *r.pick(&[5, 16, 17, 33, 65]);
            crate::sysc::nested(&mut r, depth)
        }
    };
    c.note(&text);
    let ts = sut::lex_ok(&text)?;
    let a = sut::parse(&ts)?;
    let n = ts.len();
    let mut places: Vec<usize> = vec![0, n / 2, n - 1, n.saturating_sub(2), n.saturating_sub(3)];
    places.extend((0..12).map(|_| r.below(n)));
    for i in places {
        let mut changed = ts.clone();
        changed[i] = near_token(&changed[i], &mut r);
        let b = sut::parse(&changed)?;
        trees_asked(c, &a, &b)?;
    }
    block_laws(c, a)?;
    c.seen(&text, true);
    Ok(())
}

pub const C26: &[Load] = &[
    load("long spellings", (600, 6000), (1, 1), long_spellings),
    load("wide and deep trees", (240, 3000), (1, 1), large_trees),
    load("every kind of token with every other", (KINDS_N, KINDS_N), (1, 1), every_kind),
    load("tokens of texts and lists", (15000, 250000), (25, 80), tokens_compare),
    load("trees of texts and lists", (9000, 150000), (25, 80), tree_pairs),
    load("each token of a program changed", (3000, 50000), (14, 40), each_token),
    load("single statements", (6000, 100000), (12, 40), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, 2);
        let st = crate::layout::Style::any(&mut r);
        let text = crate::layout::render(&p.lex, &p.starts, &st, &mut r, c.dict).text;
        c.note(&text);
        let ts = sut::lex_ok(&text)?;
        trees_compare(c, &ts, &mut r)?;
        c.seen(&text, ts.len() > 1);
        Ok(())
    }),
];
