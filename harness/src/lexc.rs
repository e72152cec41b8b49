//! Monitors of the lexer: C02 to C07, C24, C25.
use crate::case::{load, Case, Load};
use crate::ensure;
use crate::fuzz;
use crate::gen::{self, is_safe_name, ODD_CHARS};
use crate::kinds::{kind, kw_value, lexes_as_keyword, K, KW};
use crate::reflex::{self, Lines};
use crate::rng::Rng;
use crate::sut::{self, guard, Fail, Res};
use crate::tree::{same_position, short};
use lolcode_ast::lexer::{Position, Token, TokenError};
use lolcode_ast::parser::verif_hooks as hooks;

pub fn show(t: &Token) -> String {
    format!(
        "{:?} at line {} column {} bytes {}..{} chars {}..{}",
        kind(t),
        t.range.0.line,
        t.range.0.column,
        t.range.0.bytes,
        t.range.1.bytes,
        t.range.0.chars,
        t.range.1.chars
    )
}

pub fn show_all(ts: &[Token]) -> String {
    ts.iter().take(60).map(show).collect::<Vec<_>>().join("\n")
}

// ---------------------------------------------------------------- workloads of texts

pub fn text_any(c: &mut Case) -> String {
    let mut r = c.sub();
    fuzz::any_text(&mut r, c.dict, c.size)
}

pub fn text_chars(c: &mut Case) -> String {
    let mut r = c.sub();
    fuzz::chars(&mut r, c.dict, c.size)
}

/// Long lines, long lexemes, many lines
pub fn text_large(c: &mut Case) -> String {
    let mut r = c.sub();
    let n = *r.pick(&[300, 1000, 4096, 5000, 32767, 32768, 65535, 65536, 65537, 70000, 131072]);
    let n = n.min(c.size * 700).max(50);
    let piece: String = match r.below(9) {
        0 => "\n".repeat(n),
        1 => " ".repeat(n),
        2 => {
            let w = gen::name(&mut r, c.dict, 3);
            w.repeat(1 + n / w.len())
        }
        3 => format!("\"{}\"", "é:\"x".repeat(n / 4)),
        4 => format!("BTW {}\n", "ab cé ".repeat(n / 6)),
        5 => format!("OBTW {}TLDR", "ab\ncé".repeat(n / 5)),
        6 => "a b\n".repeat(n / 4),
        7 => "VISIBLE 1 \"x\" , ".repeat(n / 16),
        _ => {
            let t = fuzz::any_lexable(&mut r, c.dict, 12);
            format!("{t}\n").repeat((n / (t.len() + 1)).clamp(1, 3000))
        }
    };
    let a = fuzz::any_lexable(&mut r, c.dict, 5);
    let b = fuzz::any_text(&mut r, c.dict, 5);
    format!("{a}\n{piece}\n{b}")
}

/// Every text of up to four characters of an alphabet in which each lexical rule starts
const ALPHABET: &[char] = &[
    'A', 'N', 'R', 'I', 'Z', 'x', '_', '0', '7', '.', '-', '+', ',', '!', '?', '"', ':', '\'', ' ', '\n', '\r', '\t',
    '…', 'é', '🐱', '*',
];

fn nth_text(mut i: usize, alphabet: &[&str]) -> String {
    // bijective numbering: all texts, shorter ones first
    let n = alphabet.len();
    let mut pieces = Vec::new();
    while i > 0 {
        i -= 1;
        pieces.push(alphabet[i % n]);
        i /= n;
    }
    pieces.concat()
}

pub fn text_exhaustive(c: &mut Case) -> String {
    let a: Vec<String> = ALPHABET.iter().map(|c| c.to_string()).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    nth_text(c.index, &a)
}
/// 26 + 26^2 + 26^3 + 1, and + 26^4
pub const EXHAUSTIVE: (usize, usize) = (18279, 475255);

const PIECES: &[&str] = &[
    "SUM", "OF", " ", "  ", "I", "IZ", "HAS", "A", "AN", "OMG", "WTF", "O", "RLY", "?", "WIN", "NOOB", "x", "1", ".",
    "...", "\"", ":", "'Z", "BTW", "OBTW", "TLDR", "\n", ",", "-", "é",
];
pub fn text_pieces(c: &mut Case) -> String {
    nth_text(c.index, PIECES)
}
/// 30 + 30^2 + 30^3 + 1, and + 30^4
pub const PIECES_N: (usize, usize) = (27931, 837931);

/// The character a case is about: the first 65536 and then a sample, or all of them
pub fn nth_char(c: &mut Case) -> Option<char> {
    let cp = if c.tier == crate::case::Tier::Quick && c.index >= 65536 {
        65536 + c.rng.below(0x110000 - 65536)
    } else {
        c.index
    };
    char::from_u32(cp as u32)
}
pub const EVERY_CHAR: (usize, usize) = (70000, 1114112);

/// One character by itself, between others, and first and last in a line, in each kind of token
pub fn texts_with_char(c: &mut Case) -> Vec<String> {
    let Some(ch) = nth_char(c) else {
        return vec![];
    };
    vec![
        format!("{ch}"),
        format!("A{ch}B"),
        format!("1{ch}2"),
        format!("x\n{ch}\n{ch}{ch}x{ch} y"),
        format!("\"{ch}\" x \"\n{ch}\" y \"{ch}\n{ch}{ch}\""),
        format!("OBTW{ch}\n{ch}TLDR x BTW{ch}\n{ch}"),
        format!("\"a{ch}"),
        format!("x BTW y{ch}"),
        format!("x OBTW y\n{ch}"),
    ]
}

// ---------------------------------------------------------------- C02

fn spelling(k: &K, s: &str, at_end: bool) -> bool {
    let number = |s: &str| -> Option<(bool, String, Option<String>)> {
        let (neg, rest) = match s.chars().next()? {
            '-' => (true, &s[1..]),
            '+' => (false, &s[1..]),
            _ => (false, s),
        };
        let (a, b) = match rest.split_once('.') {
            Some((a, b)) => (a, Some(b)),
            None => (rest, None),
        };
        let ok = |d: &str| d.chars().all(|c| c.is_ascii_digit());
        if !ok(a) || !b.map_or(true, ok) || a.len() + b.map_or(0, |b| b.len()) == 0 {
            return None;
        }
        Some((neg, a.to_string(), b.map(|b| b.to_string())))
    };
    match k {
        K::Ident(n) => n == s && gen::is_word(s),
        K::Kw(i) => KW[*i].1 == s,
        K::Sym(x) => x == s && s.chars().count() == 1,
        K::Int(v) => match number(s) {
            Some((neg, a, None)) => {
                let a = a.trim_start_matches('0');
                let mag = if a.is_empty() { Some(0i64) } else { a.parse::<i64>().ok() };
                mag.map(|m| if neg { -m } else { m }) == Some(*v as i64)
            }
            _ => false,
        },
        K::Float(v) => match number(s) {
            Some((neg, a, Some(b))) => {
                let want = nearest_f32(&a, &b);
                let want = if neg { -want } else { want };
                want.to_bits() == v.to_bits()
            }
            _ => false,
        },
        K::Str(x) => {
            let Some(rest) = s.strip_prefix('"') else {
                return false;
            };
            rest.strip_suffix('"') == Some(x.as_str()) || (at_end && rest == x)
        }
        K::Bool(b) => s == if *b { "WIN" } else { "FAIL" },
        K::Noob => s == "NOOB",
        K::Com(x) => s.strip_prefix("BTW") == Some(x.as_str()),
        K::MCom(x) => s.strip_prefix("OBTW").and_then(|r| r.strip_suffix("TLDR")) == Some(x.as_str()),
        K::Slot => s == "'Z",
        K::Ellipsis => s == "..." || s == "…",
        K::Comma => s == ",",
        K::Excl => s == "!",
        K::Quest => s == "?",
    }
}

fn tiling(c: &mut Case, text: &str) -> Res {
    c.note(text);
    let tokens = match sut::lex(text)? {
        Ok(t) => t,
        Err(_) => {
            c.count("texts that do not tokenize");
            c.seen(text, false);
            return Ok(());
        }
    };
    let mut at = 0usize;
    for (i, t) in tokens.iter().enumerate() {
        let (s, e) = (t.range.0.bytes, t.range.1.bytes);
        ensure!(s >= 0 && e > s, "token {i} is empty or turned around: {}", show(t));
        let (s, e) = (s as usize, e as usize);
        ensure!(e <= text.len(), "token {i} reaches beyond the text: {}", show(t));
        ensure!(s >= at, "token {i} overlaps the one before: {}", show(t));
        ensure!(
            text.is_char_boundary(s) && text.is_char_boundary(e),
            "token {i} cuts a character: {}",
            show(t)
        );
        let gap = &text[at..s];
        ensure!(
            gap.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')),
            "lost text before token {i}: {:?}",
            short(gap)
        );
        let k = kind(t);
        ensure!(
            spelling(&k, &text[s..e], e == text.len()),
            "token {i} is {} but its text is {:?}",
            short(&format!("{k:?}")),
            short(&text[s..e])
        );
        at = e;
    }
    ensure!(
        text[at..].chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')),
        "lost text at the end: {:?}",
        short(&text[at..])
    );
    c.add("tokens checked", tokens.len() as u64);
    c.seen(text, tokens.len() >= 2);
    Ok(())
}

pub const C02: &[Load] = &[
    load("texts of every kind", (60000, 900000), (40, 120), |c| {
        let t = text_any(c);
        tiling(c, &t)
    }),
    load("lexical pieces in any order", (80000, 1200000), (30, 80), |c| {
        let t = text_chars(c);
        tiling(c, &t)
    }),
    load("all short texts", EXHAUSTIVE, (1, 1), |c| {
        let t = text_exhaustive(c);
        tiling(c, &t)
    }),
    load("all short piece sequences", PIECES_N, (1, 1), |c| {
        let t = text_pieces(c);
        tiling(c, &t)
    }),
    load("every character first and last in a line, in each kind of token", EVERY_CHAR, (1, 1), |c| {
        for t in texts_with_char(c) {
            tiling(c, &t)?;
        }
        Ok(())
    }),
    load("large texts", (160, 2000), (190, 190), |c| {
        let t = text_large(c);
        tiling(c, &t)
    }),
];

// ---------------------------------------------------------------- C03

fn true_position(p: &Position, l: &Lines, what: &str) -> Res {
    let n = p.chars;
    ensure!(
        n >= 0 && (n as usize) < l.line.len(),
        "{what}: character offset {n} is outside of the text"
    );
    let n = n as usize;
    let want = (l.line[n], l.col[n], l.byte[n]);
    ensure!(
        (p.line, p.column, p.bytes) == want,
        "{what}: character offset {n} is line {} column {} byte {}, but line {} column {} byte {} was reported",
        want.0,
        want.1,
        want.2,
        p.line,
        p.column,
        p.bytes
    );
    Ok(())
}

fn positions(c: &mut Case, text: &str) -> Res {
    c.note(text);
    let l = Lines::new(text);
    match sut::lex(text)? {
        Ok(tokens) => {
            // where tokens truly start is known from the text itself: the first character after
            // the token before that is not blank
            let chars: Vec<char> = text.chars().collect();
            let mut at = 0usize;
            for (i, t) in tokens.iter().enumerate() {
                let what = format!("token {i} ({})", short(&format!("{:?}", kind(t))));
                true_position(&t.range.0, &l, &format!("{what} start"))?;
                true_position(&t.range.1, &l, &format!("{what} end"))?;
                while at < chars.len() && matches!(chars[at], ' ' | '\t' | '\r' | '\n') {
                    at += 1;
                }
                ensure!(
                    t.range.0.chars as usize == at,
                    "{what} starts at character {at} but {} was reported",
                    t.range.0.chars
                );
                at = t.range.1.chars as usize;
            }
            c.add("token positions checked", 2 * tokens.len() as u64);
            for w in tokens.windows(2) {
                compare(&w[0].range.0, &w[1].range.0)?;
                compare(&w[0].range.1, &w[1].range.0)?;
            }
            if tokens.len() > 1 {
                for _ in 0..4 {
                    let a = c.rng.below(tokens.len());
                    let b = c.rng.below(tokens.len());
                    compare(&tokens[a].range.0, &tokens[b].range.1)?;
                    compare(&tokens[a].range.1, &tokens[b].range.1)?;
                }
            }
            c.seen(text, tokens.len() >= 2 && l.line[l.line.len() - 1] > 1);
        }
        Err(TokenError::UnclosedMultilineComment(r)) => {
            true_position(&r.0, &l, "error start")?;
            true_position(&r.1, &l, "error end")?;
            ensure!(
                r.1.chars as usize == l.line.len() - 1,
                "the error ends at character {} of {}",
                r.1.chars,
                l.line.len() - 1
            );
            c.count("error ranges checked");
            c.seen(text, true);
        }
    }
    Ok(())
}

/// Two positions of one text
fn compare(a: &Position, b: &Position) -> Res {
    let eq = a.bytes == b.bytes;
    ensure!((a == b) == eq && (b == a) == eq, "{a:?} == {b:?} is {} at bytes {} and {}", a == b, a.bytes, b.bytes);
    ensure!(
        (a < b) == (a.bytes < b.bytes) && (a > b) == (a.bytes > b.bytes) && (a <= b) == (a.bytes <= b.bytes) && (a >= b) == (a.bytes >= b.bytes),
        "{a:?} and {b:?} at bytes {} and {} are ordered {:?}",
        a.bytes,
        b.bytes,
        a.partial_cmp(b)
    );
    ensure!(
        a.partial_cmp(b) == Some(a.bytes.cmp(&b.bytes)),
        "{a:?} and {b:?} at bytes {} and {} are ordered {:?}",
        a.bytes,
        b.bytes,
        a.partial_cmp(b)
    );
    Ok(())
}

fn advance(c: &mut Case) -> Res {
    let mut r = c.sub();
    let text = match r.below(6) {
        0 => "\n".repeat(r.below(5)),
        1 => text_large(c),
        2 => gen::prose(&mut r, c.dict, c.size, true),
        _ => fuzz::any_text(&mut r, c.dict, c.size),
    };
    advance_over(c, text, &mut r)
}

fn advance_over(c: &mut Case, text: String, r: &mut Rng) -> Res {
    c.note(&text);
    let l = Lines::new(&text);
    let start = if r.pct(40) {
        Position::default()
    } else {
        Position {
            line: r.range(1, 100000) as i32,
            column: r.range(1, 100000) as i32,
            bytes: r.below(1000000) as i32,
            chars: r.below(1000000) as i32,
        }
    };
    let d = Position::default();
    ensure!(
        (d.line, d.column, d.bytes, d.chars) == (1, 1, 0, 0),
        "the default position is {d:?} bytes {} chars {}",
        d.bytes,
        d.chars
    );
    let expect = |n: usize| Position {
        line: start.line + l.line[n] - 1,
        column: if l.line[n] == 1 { start.column + l.col[n] - 1 } else { l.col[n] },
        bytes: start.bytes + l.byte[n],
        chars: start.chars + n as i32,
    };
    let all = l.line.len() - 1;
    let check = |got: Position, n: usize, how: &str| -> Res {
        let want = expect(n);
        ensure!(
            same_position(&got, &want),
            "advancing ({}, {}, {}, {}) by {} characters {how} gives ({}, {}, {}, {}), not ({}, {}, {}, {})",
            start.line, start.column, start.bytes, start.chars, n,
            got.line, got.column, got.bytes, got.chars,
            want.line, want.column, want.bytes, want.chars
        );
        Ok(())
    };
    let at_once = guard("Position + &str", || start + text.as_str())?;
    check(at_once, all, "at once")?;
    let mut p = start;
    guard("Position += &str", || p += text.as_str())?;
    check(p, all, "in place")?;
    let mut p = start;
    let mut from = 0;
    let mut seen = vec![p];
    let ends: Vec<usize> = {
        let mut v: Vec<usize> = (0..r.below(12)).map(|_| r.below(all + 1)).collect();
        v.push(all);
        v.sort();
        v
    };
    for e in ends {
        p = p + &text[l.byte[from] as usize..l.byte[e] as usize];
        check(p, e, "piecewise")?;
        seen.push(p);
        from = e;
    }
    if start.line == 1 && start.bytes == 0 || l.line[all] == 1 {
        for a in &seen {
            for b in &seen {
                compare(a, b)?;
            }
        }
    }
    if text.len() < 2000 {
        let mut p = start;
        for (n, ch) in text.chars().enumerate() {
            let mut b = [0; 4];
            p += &*ch.encode_utf8(&mut b);
            check(p, n + 1, "by single characters")?;
        }
    }
    c.count("positions advanced over a text");
    c.seen(&text, all > 0);
    Ok(())
}

pub const C03: &[Load] = &[
    load("texts of every kind", (60000, 900000), (40, 120), |c| {
        let t = text_any(c);
        positions(c, &t)
    }),
    load("lexical pieces in any order", (60000, 900000), (30, 80), |c| {
        let t = text_chars(c);
        positions(c, &t)
    }),
    load("all short texts", EXHAUSTIVE, (1, 1), |c| {
        let t = text_exhaustive(c);
        positions(c, &t)
    }),
    load("all short piece sequences", PIECES_N, (1, 1), |c| {
        let t = text_pieces(c);
        positions(c, &t)
    }),
    load("every character first and last in a line, in each kind of token", EVERY_CHAR, (1, 1), |c| {
        for t in texts_with_char(c) {
            positions(c, &t)?;
        }
        Ok(())
    }),
    load("large texts", (160, 2000), (190, 190), |c| {
        let t = text_large(c);
        positions(c, &t)
    }),
    load("advancing positions over texts", (30000, 400000), (40, 190), advance),
    load("advancing positions over every character", EVERY_CHAR, (1, 1), |c| {
        let Some(ch) = nth_char(c) else {
            return Ok(());
        };
        let mut r = c.sub();
        for text in [format!("{ch}"), format!("{ch}{ch}"), format!("a{ch}"), format!("\n{ch}"), format!("{ch}\n{ch}"), format!("a\n{ch}{ch}b{ch}")] {
            advance_over(c, text, &mut r)?;
        }
        Ok(())
    }),
];

// ---------------------------------------------------------------- surroundings of a lexeme

/// What may stand in front of a word, and the tokens it makes
pub fn befores() -> Vec<(&'static str, Vec<K>)> {
    let id = |s: &str| K::Ident(s.into());
    vec![
        ("", vec![]),
        (" ", vec![]),
        ("\t", vec![]),
        ("\n", vec![]),
        ("\r\n", vec![]),
        ("\r", vec![]),
        ("\n\n  ", vec![]),
        (",", vec![K::Comma]),
        ("!", vec![K::Excl]),
        ("?", vec![K::Quest]),
        ("…", vec![K::Ellipsis]),
        ("... ", vec![K::Ellipsis]),
        ("...\n", vec![K::Ellipsis]),
        ("xy ", vec![id("xy")]),
        ("xy\n", vec![id("xy")]),
        ("12 ", vec![K::Int(12)]),
        ("\"s\"", vec![K::Str("s".into())]),
        ("\"s\" ", vec![K::Str("s".into())]),
        ("a'Z", vec![id("a"), K::Slot]),
        ("OBTW c TLDR", vec![K::MCom(" c ".into())]),
        ("OBTW\nTLDR ", vec![K::MCom("\n".into())]),
        ("BTW c\n", vec![K::Com(" c".into())]),
        ("é", vec![K::Sym("é".into())]),
        ("(", vec![K::Sym("(".into())]),
        ("WIN ", vec![K::Bool(true)]),
        ("SRS ", vec![K::Kw(crate::kinds::kw("SRS"))]),
    ]
}

/// What may stand behind a word
pub fn afters() -> Vec<(&'static str, Vec<K>)> {
    let id = |s: &str| K::Ident(s.into());
    vec![
        ("", vec![]),
        (" ", vec![]),
        ("\t", vec![]),
        ("\n", vec![]),
        ("\r\n", vec![]),
        ("\r", vec![]),
        (",", vec![K::Comma]),
        ("!", vec![K::Excl]),
        ("?", vec![K::Quest]),
        ("…", vec![K::Ellipsis]),
        (" ...", vec![K::Ellipsis]),
        (" xy", vec![id("xy")]),
        ("\nxy", vec![id("xy")]),
        (" 12", vec![K::Int(12)]),
        ("\"s\"", vec![K::Str("s".into())]),
        ("'Zb", vec![K::Slot, id("b")]),
        (" BTW c", vec![K::Com(" c".into())]),
        (" OBTW c TLDR", vec![K::MCom(" c ".into())]),
        ("é", vec![K::Sym("é".into())]),
        (")", vec![K::Sym(")".into())]),
        (" FAIL", vec![K::Bool(false)]),
    ]
}

fn kinds_of(ts: &[Token]) -> Vec<K> {
    ts.iter().map(kind).collect()
}

fn expect_kinds(text: &str, want: &[K]) -> Result<Vec<Token>, Fail> {
    let tokens = sut::lex_ok(text)?;
    let got = kinds_of(&tokens);
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            let name = |k: Option<&K>| k.map_or("nothing".to_string(), |k| short(&format!("{k:?}")));
            return Err(Fail::new(format!(
                "token {i} is {} but should be {}",
                name(got.get(i)),
                name(want.get(i))
            ))
            .detail(show_all(&tokens)));
        }
    }
    Ok(tokens)
}

/// The lexeme in surroundings: tokenized as this and nothing else, and at its place
fn in_context(c: &mut Case, lexeme: &str, k: &K, b: usize, a: usize) -> Res {
    let bs = befores();
    let asf = afters();
    let (before, bk) = &bs[b % bs.len()];
    let (after, ak) = &asf[a % asf.len()];
    let text = format!("{before}{lexeme}{after}");
    c.note(&text);
    let mut want = bk.clone();
    want.push(k.clone());
    want.extend(ak.iter().cloned());
    let tokens = expect_kinds(&text, &want)?;
    let t = &tokens[bk.len()];
    ensure!(
        t.range.0.bytes as usize == before.len() && t.range.1.bytes as usize == before.len() + lexeme.len(),
        "the lexeme's place is {}..{}, not {}..{}",
        t.range.0.bytes,
        t.range.1.bytes,
        before.len(),
        before.len() + lexeme.len()
    );
    c.seen(&text, true);
    Ok(())
}

// ---------------------------------------------------------------- C04

fn base_words(c: &Case) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for (n, s) in KW {
        v.push(n.to_string());
        for w in s.split(' ') {
            v.push(w.to_string());
        }
        v.push(s.replace(' ', ""));
        v.push(s.to_lowercase().replace(' ', "_"));
        if let Some(first) = s.split(' ').next() {
            let mut cs = first.chars();
            let f = cs.next().unwrap();
            v.push(format!("{f}{}", cs.as_str().to_lowercase()));
        }
    }
    v.extend(c.dict.words.iter().cloned());
    v.sort();
    v.dedup();
    v
}

const AFFIXES: &[&str] = &[
    "", "a", "A", "Z", "_", "0", "9", "x1", "__", "AN", "R", "OF", "WIN", "NOOB", "S", "ING", "A_B", "SOMETHING", "00",
];

fn name_check(c: &mut Case, name: &str, b: usize, a: usize) -> Res {
    if !is_safe_name(name) {
        return Ok(());
    }
    in_context(c, name, &K::Ident(name.to_string()), b, a)?;
    c.count("names checked");
    Ok(())
}

/// Runs of words and blanks only, against the rule word by word
fn word_soup(c: &mut Case) -> Res {
    let mut r = c.sub();
    let n = r.range(1, c.size.max(2));
    let words = base_words(c);
    let mut text = String::new();
    for i in 0..n {
        if i > 0 {
            text.push_str(r.pick(&[" ", " ", " ", "  ", "\n", "\t", " \n", "\r\n", ","]));
        }
        match r.below(6) {
            0 => text.push_str(&gen::name(&mut r, c.dict, c.size)),
            1 => {
                text.push_str(&r.pick(&words).clone());
                text.push_str(r.pick(AFFIXES));
            }
            2 => {
                text.push_str(r.pick(AFFIXES));
                text.push_str(&r.pick(&words).clone());
            }
            3 => text.push_str(r.pick(KW).1),
            _ => text.push_str(&r.pick(&words).clone()),
        }
    }
    if !text.is_empty() && (text.contains("BTW")) {
        text = text.replace("BTW", "BTV");
    }
    c.note(&text);
    // the rule itself, over words: keywords of several words are separated by single spaces
    let cs: Vec<char> = text.chars().collect();
    let mut want: Vec<K> = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == ',' {
            want.push(K::Comma);
            i += 1;
            continue;
        }
        if matches!(cs[i], ' ' | '\n' | '\t' | '\r') {
            i += 1;
            continue;
        }
        let end_of = |mut j: usize| {
            while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            j
        };
        // the words that follow each other here, separated by single spaces
        let mut ends = vec![end_of(i)];
        while ends.len() < 4 {
            let e = *ends.last().unwrap();
            if cs.get(e) == Some(&' ') && end_of(e + 1) > e + 1 {
                ends.push(end_of(e + 1));
            } else {
                break;
            }
        }
        let mut done = false;
        for e in ends.iter().rev() {
            let s: String = cs[i..*e].iter().collect();
            if let Some(k) = KW.iter().position(|(_, k)| *k == s) {
                want.push(match KW[k].1 {
                    "WIN" => K::Bool(true),
                    "FAIL" => K::Bool(false),
                    "NOOB" => K::Noob,
                    _ => K::Kw(k),
                });
                i = *e;
                done = true;
                break;
            }
        }
        if done {
            continue;
        }
        let s: String = cs[i..ends[0]].iter().collect();
        if s.is_empty() {
            return Ok(()); // not a word: not this workload's business
        }
        if s.starts_with(|c: char| c.is_ascii_digit()) {
            return Ok(());
        }
        want.push(K::Ident(s));
        i = ends[0];
    }
    expect_kinds(&text, &want)?;
    c.add("words checked", want.len() as u64);
    c.seen(&text, want.len() > 1);
    Ok(())
}

/// In any text: names are maximal runs, keywords are not followed or preceded by more of a word
fn word_boundaries(c: &mut Case) -> Res {
    let text = text_any(c);
    c.note(&text);
    let Ok(tokens) = sut::lex(&text)? else {
        return Ok(());
    };
    let word = |ch: Option<char>| ch.map_or(false, |c| c.is_ascii_alphanumeric() || c == '_');
    let mut n = 0;
    for (i, t) in tokens.iter().enumerate() {
        let k = kind(t);
        let what = match &k {
            K::Ident(_) => "name",
            K::Kw(_) => "keyword",
            K::Bool(_) | K::Noob => "literal word",
            K::Sym(x) if x.chars().any(|ch| ch == '_' || ch.is_ascii_alphabetic()) => {
                return Err(Fail::new(format!("{x:?} belongs to a name, but is a symbol")));
            }
            _ => continue,
        };
        let (s, e) = (t.range.0.bytes as usize, t.range.1.bytes as usize);
        let (Some(head), Some(tail)) = (text.get(..s), text.get(e..)) else {
            return Err(Fail::new(format!("{what} {k:?} is not at character boundaries")));
        };
        let spelled = text.get(s..e).unwrap_or("");
        if let K::Ident(name) = &k {
            ensure!(name == spelled, "name {name:?} is written {spelled:?}");
            ensure!(
                name.chars().all(|ch| word(Some(ch))) && !name.starts_with(|ch: char| ch.is_ascii_digit()),
                "name {name:?} is not made of letters, digits and underscores"
            );
            let whole = |kw: &str| text[s..].strip_prefix(kw).map_or(false, |rest| !word(rest.chars().next()));
            let keyword = KW.iter().find(|(_, kw)| whole(kw));
            ensure!(keyword.is_none(), "name {name:?} is the beginning of {keyword:?}, which stands there as whole words");
        } else {
            ensure!(
                KW.iter().any(|(_, kw)| *kw == spelled),
                "{what} {k:?} is written {spelled:?}"
            );
        }
        ensure!(
            !word(tail.chars().next()),
            "{what} {k:?} ends in the middle of a word"
        );
        if word(head.chars().last()) {
            // only tokens that end exactly here and are not words may touch
            let ok = i > 0
                && tokens[i - 1].range.1.bytes as usize == s
                && matches!(kind(&tokens[i - 1]), K::Int(_) | K::Float(_) | K::Slot | K::MCom(_) | K::Sym(_));
            ensure!(ok, "{what} {k:?} begins in the middle of a word");
        }
        n += 1;
    }
    c.add("word tokens checked", n);
    c.seen(&text, n > 1);
    Ok(())
}

/// What a character that is no part of a word is by itself, with a blank behind
fn lone(ch: char) -> Option<Vec<K>> {
    Some(match ch {
        ' ' | '\t' | '\r' | '\n' => vec![],
        ',' => vec![K::Comma],
        '!' => vec![K::Excl],
        '?' => vec![K::Quest],
        '\u{2026}' => vec![K::Ellipsis],
        '"' | '_' => return None,
        c if c.is_ascii_alphanumeric() => return None,
        c => vec![K::Sym(c.to_string())],
    })
}

/// Names, keywords and literal words with any other character directly behind or in front
fn next_to(c: &mut Case, word: &str, k: &K, ch: char) -> Res {
    let Some(mark) = lone(ch) else { return Ok(()) };
    let behind = format!("{word}{ch} ");
    c.note(&behind);
    let mut want = vec![k.clone()];
    want.extend(mark.clone());
    expect_kinds(&behind, &want)?;
    c.seen(&behind, true);
    let front = format!("{ch}{word}");
    if !(ch == '\'' && word.starts_with('Z')) {
        c.note(&front);
        let mut want = mark.clone();
        want.push(k.clone());
        expect_kinds(&front, &want)?;
        let between = format!("{word}{ch}{word}");
        c.note(&between);
        want.insert(0, k.clone());
        expect_kinds(&between, &want)?;
    }
    c.count("words next to other characters");
    Ok(())
}

fn neighbours(c: &mut Case) -> Res {
    let mut r = c.sub();
    let i = c.index;
    let ch = match i % 4 {
        0 => char::from((i / 4 % 128) as u8),
        1 => *r.pick(odd_chars()),
        2 => r.pick(&['\u{e9}', '\u{fc}', '\u{df}', '\u{3b1}', '\u{416}', '\u{4e2d}', '\u{aa}', '\u{2160}', '\u{ff11}', '\u{663}', '\u{ff3f}', '\u{203f}', '\u{301}', '\u{200d}', '\u{130}', '\u{1f63a}', '\u{1d400}', '\u{b2}', '\u{ac00}', '\u{5d0}']).to_owned(),
        _ => loop {
            if let Some(ch) = char::from_u32(if r.pct(70) { r.below(0x3000) } else { r.below(0x110000) } as u32) {
                break ch;
            }
        },
    };
    let w = KW.len() + 4;
    match i / 4 % w {
        k if k < KW.len() => match keyword_token(k) {
            Some(t) => next_to(c, KW[k].1, &t, ch),
            None => Ok(()),
        },
        _ => {
            let n = if r.pct(50) {
                let words = base_words(c);
                format!("{}{}", r.pick(&words).clone(), r.pick(AFFIXES))
            } else {
                gen::name(&mut r, c.dict, 20)
            };
            if is_safe_name(&n) {
                next_to(c, &n, &K::Ident(n.clone()), ch)?;
            }
            Ok(())
        }
    }
}

pub const C04: &[Load] = &[
    load("words next to any other character", (60000, 900000), (1, 1), neighbours),
    load("every keyword and literal word, extended", (25000, 250000), (1, 1), |c| {
        let words = base_words(c);
        let nb = befores().len();
        let i = c.index;
        let w = words[i % words.len()].clone();
        let mut r = c.sub();
        let p = *r.pick(AFFIXES);
        let s = *r.pick(AFFIXES);
        let (b, a) = (i / words.len() % nb, r.below(64));
        name_check(c, &w, b, a)?;
        name_check(c, &format!("{p}{w}"), b, a)?;
        name_check(c, &format!("{w}{s}"), b, a)?;
        name_check(c, &format!("{p}{w}{s}"), b, a)?;
        let w2 = r.pick(&words).clone();
        name_check(c, &format!("{w}{w2}"), b, a)?;
        name_check(c, &format!("{w}_{w2}"), b, a)
    }),
    load("every word with every character behind and in front", (20000, 60000), (1, 1), |c| {
        let words = base_words(c);
        let all: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
        let i = c.index;
        let w = words[i % words.len()].clone();
        let ch = all[i / words.len() % all.len()];
        let (b, a) = (c.rng.below(64), c.rng.below(64));
        name_check(c, &format!("{w}{ch}"), b, a)?;
        name_check(c, &format!("{ch}{w}"), b, a)?;
        // with its beginning cut off, or its end
        name_check(c, &format!("{ch}{}", &w[1..]), b, a)?;
        name_check(c, &format!("{}{ch}", &w[..w.len() - 1]), b, a)
    }),
    load("names of every length", (6000, 60000), (100, 9000), |c| {
        let mut r = c.sub();
        let n = gen::name(&mut r, c.dict, c.size);
        let (b, a) = (r.below(64), r.below(64));
        name_check(c, &n, b, a)?;
        let len = 1 + c.index % 1100;
        let n: String = (0..len)
            .map(|i| if i == 0 { '_' } else { *r.pick(&['A', 'b', '7', '_', 'R', 'Z', 'x']) })
            .collect();
        name_check(c, &n, b, a)
    }),
    load("all names of up to three characters", (17000, 17000), (1, 1), |c| {
        let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_']).collect();
        let rest: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain(['_']).collect();
        // 53 + 53*63 + a sample of 53*63*63
        let i = c.index;
        let mut s = String::new();
        s.push(first[i % 53]);
        if i >= 53 {
            s.push(rest[(i / 53 - 1) % 63]);
        }
        if i >= 53 + 53 * 63 {
            s.push(rest[c.rng.below(63)]);
        }
        let (b, a) = (c.rng.below(64), c.rng.below(64));
        name_check(c, &s, b, a)
    }),
    load("words and blanks", (40000, 500000), (20, 60), word_soup),
    load("texts of every kind", (30000, 400000), (40, 120), word_boundaries),
];

// ---------------------------------------------------------------- C05

fn keyword_token(i: usize) -> Option<K> {
    Some(match KW[i].1 {
        "WIN" => K::Bool(true),
        "FAIL" => K::Bool(false),
        "NOOB" => K::Noob,
        "BTW" | "OBTW" => return None,
        _ => K::Kw(i),
    })
}

fn keyword_in_context(c: &mut Case) -> Res {
    let nb = befores().len();
    let na = afters().len();
    let i = c.index % KW.len();
    let b = c.index / KW.len() % nb;
    let a = c.index / KW.len() / nb % na;
    match keyword_token(i) {
        Some(k) => {
            in_context(c, KW[i].1, &k, b, a)?;
            c.count("keywords in context");
            Ok(())
        }
        None => {
            let bs = befores();
            let (before, bk) = &bs[b];
            let (after, _) = &afters()[a];
            let one_line = after.find('\n').map_or(*after, |n| &after[..n]);
            let text;
            let mut want = bk.clone();
            if KW[i].1 == "BTW" {
                text = format!("{before}BTW{one_line}");
                want.push(K::Com(one_line.to_string()));
            } else {
                let inner = after.replace("TLDR", "");
                text = format!("{before}OBTW{inner}TLDR");
                want.push(K::MCom(inner));
            }
            c.note(&text);
            expect_kinds(&text, &want)?;
            c.count("comment openers in context");
            c.seen(&text, true);
            Ok(())
        }
    }
}

fn keyword_pairs(c: &mut Case) -> Res {
    const SEPS: &[(&str, Option<K>)] = &[
        (" ", None),
        ("  ", None),
        ("\n", None),
        ("\t", None),
        ("\r\n", None),
        (",", Some(K::Comma)),
        (", ", Some(K::Comma)),
        (" \t\n ", None),
        ("!", Some(K::Excl)),
        ("?", Some(K::Quest)),
        ("…", Some(K::Ellipsis)),
        (" ...\n", Some(K::Ellipsis)),
    ];
    let n = KW.len();
    let i = c.index % n;
    let j = c.index / n % n;
    let (sep, sk) = &SEPS[c.index / n / n % SEPS.len()];
    let (Some(a), Some(b)) = (keyword_token(i), keyword_token(j)) else {
        return Ok(());
    };
    let mut text = format!("{}{sep}{}", KW[i].1, KW[j].1);
    let mut want = vec![a];
    want.extend(sk.clone());
    want.push(b);
    if c.rng.pct(50) {
        let k = c.rng.below(n);
        if let Some(kk) = keyword_token(k) {
            text.push_str("\n");
            text.push_str(KW[k].1);
            want.push(kk);
        }
    }
    c.note(&text);
    expect_kinds(&text, &want)?;
    c.count("pairs of keywords");
    c.seen(&text, true);
    Ok(())
}

fn keyword_runs(c: &mut Case) -> Res {
    let mut r = c.sub();
    let n = r.range(1, c.size.max(2) * 4);
    let mut text = String::new();
    let mut want = Vec::new();
    for _ in 0..n {
        let i = r.below(KW.len());
        let Some(k) = keyword_token(i) else { continue };
        if !text.is_empty() {
            text.push_str(r.pick(&[" ", " ", "  ", "\n", "\t", "\r\n", "\n\n"]));
        }
        text.push_str(KW[i].1);
        want.push(k);
    }
    c.note(&text);
    expect_kinds(&text, &want)?;
    c.add("keywords in runs", want.len() as u64);
    c.seen(&text, want.len() > 1);
    Ok(())
}

fn keyword_table(c: &mut Case) -> Res {
    c.note("(the keyword table)");
    let all = guard("enumerating keywords", hooks::all_keywords)?;
    let mut indices: Vec<usize> = all.iter().map(crate::kinds::kw_index).collect();
    indices.sort();
    let want: Vec<usize> = (0..KW.len()).collect();
    ensure!(
        indices == want,
        "the library enumerates {} keywords, not each of the {} exactly once",
        indices.len(),
        KW.len()
    );
    let mut seen = std::collections::HashMap::new();
    for i in 0..KW.len() {
        let k = kw_value(i);
        let s = guard("to_string_slice", || k.to_string_slice())?;
        ensure!(s == KW[i].1, "keyword {} is spelled {s:?}, not {:?}", KW[i].0, KW[i].1);
        if let Some(o) = seen.insert(s, i) {
            return Err(Fail::new(format!("keywords {} and {} are spelled alike", KW[i].0, KW[o].0)));
        }
        for again in 0..3 {
            ensure!(kw_value(i).to_string_slice() == s, "spelling {again} of {s} differs");
        }
        for j in 0..KW.len() {
            ensure!((k == kw_value(j)) == (i == j), "{s} == {} is wrong", KW[j].1);
        }
        c.count("keywords of the table");
        c.seen(s, true);
    }
    Ok(())
}

pub const C05: &[Load] = &[
    load("the table", (8, 8), (1, 1), keyword_table),
    load("every keyword in every context", (33306, 33306), (1, 1), keyword_in_context),
    load("every pair of keywords and separator", (44652, 44652), (1, 1), keyword_pairs),
    load("runs of keywords", (10000, 150000), (20, 100), keyword_runs),
    load("keywords among names", (20000, 300000), (20, 60), word_soup),
];

// ---------------------------------------------------------------- C06

fn big_mul(v: &mut Vec<u32>, m: u32, add: u32) {
    let mut carry = add as u64;
    for x in v.iter_mut() {
        let t = *x as u64 * m as u64 + carry;
        *x = t as u32;
        carry = t >> 32;
    }
    if carry > 0 {
        v.push(carry as u32);
    }
}
fn big_bits(v: &[u32]) -> i64 {
    for i in (0..v.len()).rev() {
        if v[i] != 0 {
            return i as i64 * 32 + 32 - v[i].leading_zeros() as i64;
        }
    }
    0
}
fn big_shl(v: &[u32], n: usize) -> Vec<u32> {
    let mut out = vec![0u32; n / 32];
    let s = n % 32;
    let mut carry = 0u32;
    for x in v {
        out.push(if s == 0 { *x } else { (*x << s) | carry });
        carry = if s == 0 { 0 } else { *x >> (32 - s) };
    }
    out.push(carry);
    out
}
fn big_cmp(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    for i in (0..a.len().max(b.len())).rev() {
        let (x, y) = (a.get(i).unwrap_or(&0), b.get(i).unwrap_or(&0));
        if x != y {
            return x.cmp(y);
        }
    }
    std::cmp::Ordering::Equal
}
fn big_sub(a: &mut [u32], b: &[u32]) {
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let t = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        a[i] = t as u32;
        borrow = if t < 0 { 1 } else { 0 };
    }
}

/// The 32-bit float nearest to a decimal number, ties to even, by exact arithmetic
pub fn nearest_f32(int: &str, frac: &str) -> f32 {
    let mut d: Vec<u32> = vec![0];
    for ch in int.chars().chain(frac.chars()) {
        big_mul(&mut d, 10, ch as u32 - '0' as u32);
    }
    if big_bits(&d) == 0 {
        return 0.0;
    }
    let mut m: Vec<u32> = vec![1];
    for _ in 0..frac.len() {
        big_mul(&mut m, 10, 0);
    }
    let mut e = (big_bits(&d) - big_bits(&m) - 24).max(-149);
    loop {
        // q = floor(d / (m * 2^e))
        let (mut n, den) = if e < 0 {
            (big_shl(&d, (-e) as usize), m.clone())
        } else {
            (d.clone(), big_shl(&m, e as usize))
        };
        let mut q = 0u64;
        for bit in (0..27).rev() {
            let s = big_shl(&den, bit);
            if big_cmp(&n, &s) != std::cmp::Ordering::Less {
                big_sub(&mut n, &s);
                q |= 1 << bit;
            }
        }
        if q >= 1 << 24 {
            e += 1;
            continue;
        }
        if q < 1 << 23 && e > -149 {
            e -= 1;
            continue;
        }
        // round
        let twice = big_shl(&n, 1);
        match big_cmp(&twice, &den) {
            std::cmp::Ordering::Greater => q += 1,
            std::cmp::Ordering::Equal => q += q & 1,
            std::cmp::Ordering::Less => {}
        }
        if q == 1 << 24 {
            q >>= 1;
            e += 1;
        }
        if e > 104 {
            return f32::INFINITY;
        }
        if q < 1 << 23 {
            return f32::from_bits(q as u32);
        }
        return f32::from_bits((((e + 150) as u32) << 23) | (q as u32 & 0x7fffff));
    }
}

fn int_spelling(c: &mut Case, v: i64, r: &mut Rng) -> Res {
    let zeros = "0".repeat(if r.one_in(6) { r.below(12) } else { 0 });
    let sign = if v < 0 {
        "-"
    } else if r.one_in(6) {
        "+"
    } else if v == 0 && r.one_in(3) {
        "-"
    } else {
        ""
    };
    let s = format!("{sign}{zeros}{}", v.abs());
    let (b, a) = (r.below(64), r.below(64));
    c.count("integers checked");
    in_context(c, &s, &K::Int(v as i32), b, a)
}

fn float_spelling(c: &mut Case, a: &str, b: &str, r: &mut Rng) -> Res {
    let sign = *r.pick(&["", "", "-", "+"]);
    let v = nearest_f32(a, b);
    let v = if sign == "-" { -v } else { v };
    let s = format!("{sign}{a}.{b}");
    let (mut bf, af) = (r.below(64), r.below(64));
    if a.is_empty() && sign.is_empty() {
        bf = r.below(5); // blanks only: a dot would join dots before it
    }
    c.count("floats checked");
    in_context(c, &s, &K::Float(v), bf, af)
}

/// A decimal at, just below or just above the middle between two neighbouring floats
fn halfway(r: &mut Rng) -> (String, String) {
    let bits = loop {
        let b = (r.u64() as u32) & 0x7fffffff;
        let e = b >> 23;
        // keep the number of digits in bounds
        if (100..=200).contains(&e) {
            break b;
        }
    };
    let x = f32::from_bits(bits) as f64;
    let y = f32::from_bits(bits + 1) as f64;
    let mid = (x + y) / 2.0; // exact: 25 bits
    let mut s = format!("{mid:.150}");
    match r.below(3) {
        0 => {}
        1 => {
            // a little more
            s.push('1');
        }
        _ => {
            // a little less
            let mut cs: Vec<u8> = s.into_bytes();
            let mut i = cs.len();
            while i > 0 {
                i -= 1;
                match cs[i] {
                    b'.' => {}
                    b'0' => cs[i] = b'9',
                    _ => {
                        cs[i] -= 1;
                        break;
                    }
                }
            }
            s = String::from_utf8(cs).unwrap();
        }
    }
    let (a, b) = s.split_once('.').unwrap();
    (a.to_string(), b.to_string())
}

fn string_in_context(c: &mut Case, body: &str, r: &mut Rng) -> Res {
    c.count("strings checked");
    if body.contains('\n') {
        c.count("strings over several lines checked");
    }
    let (b, a) = (r.below(64), r.below(64));
    let closed = format!("\"{body}\"");
    in_context(c, &closed, &K::Str(body.to_string()), b, a)?;
    // never closed
    let open = format!("\"{body}");
    c.count("open strings checked");
    let bs = befores();
    let (before, bk) = &bs[b % bs.len()];
    let text = format!("{before}{open}");
    c.note(&text);
    let mut want = bk.clone();
    want.push(K::Str(body.to_string()));
    expect_kinds(&text, &want)?;
    Ok(())
}

/// All short texts over the characters strings care about, scanned independently
fn string_exhaustive(c: &mut Case) -> Res {
    let body = nth_text(c.index, &["\"", ":", "a", "\n", "é", ",", " "]);
    string_scanned(c, &body)
}

/// Strings with what means something within them elsewhere: other escapes, placeholders, quotes
fn string_of_pieces(c: &mut Case) -> Res {
    let mut r = c.sub();
    const PIECES: &[&str] = &[
        "\"", "\"", ":\"", "::", ":", ":)", ":>", ":o", ":(", "(", ")", ":(22)", ":(1F431)", ":(a", ":{", ":{x}", "{", "}", ":[", "]", ":[QUOTATION MARK]", "\\",
        "\\\"", "\\n", "'", "`", "$", "${", "%s", "#{", "&quot;", "''", "\u{201c}", "\u{201d}", "“x”", "x", "abc", "1", " ", "\n", "\r\n", "\t", "BTW ", "OBTW ", "TLDR", "...", ",", "!", "?", "é", "🐱",
        "\u{0}", "...\n", "\\\n", "/*", "*/", "//", "#",
    ];
    let mut body = String::new();
    for _ in 0..r.range(1, c.size.min(12) + 1) {
        if !c.dict.strings.is_empty() && r.one_in(5) {
            body.push_str(r.pick(&c.dict.strings));
        } else {
            body.push_str(r.pick(PIECES));
        }
    }
    string_scanned(c, &body)
}

/// Numbers, and right after them anything that does not continue them
fn number_then_anything(c: &mut Case) -> Res {
    let mut r = c.sub();
    const NEXT: &[&str] = &[
        "e5", "E5", "e+5", "E-2", "e", "f", "f32", "F", "d", "x10", "xff", "b1", "o7", "_000", "_", "__1", "i", "j", "L", "u8", "inf", "NaN", "%", "'000", "'Z a", ",5", ",000", "-1", "+1",
        "-", "+", "/2", "*2", "^2", "!", "?", "\"a\"", "é", "½", "²", "٣", "\u{00a0}", "\u{200b}", "\u{ff11}", "AN", "AN 2", "MKAY", "WIN", "BTW", "BTW 1", "OBTW 1 TLDR", "…", " ...", "\r\n2", "\t.5", " e5", " .5", "\n.5", ";", ":", "°",
        "px", "k", "ST", "TH", "E", "EITHER OF",
    ];
    let sign = *r.pick(&["", "", "", "-", "+"]);
    let float = r.pct(50);
    let na = r.range(1, 6);
    let a = gen::digits(&mut r, na);
    let nb = r.range(1, 5);
    let b = if float && r.pct(85) { gen::digits(&mut r, nb) } else { String::new() };
    let mut next = if c.index % 3 == 0 {
        match nth_char(c) {
            Some(ch) => ch.to_string(),
            None => return Ok(()),
        }
    } else if r.one_in(4) && !c.dict.strings.is_empty() {
        r.pick(&c.dict.strings).clone()
    } else {
        r.pick(NEXT).to_string()
    };
    if r.one_in(3) {
        next.push_str(r.pick(NEXT));
    }
    if next.starts_with(|ch: char| ch.is_ascii_digit() || (ch == '.' && !float)) || next.is_empty() {
        next.insert(0, ' ');
    }
    if float && b.is_empty() && next.starts_with('.') {
        next.insert(0, ' ');
    }
    let (lexeme, k) = if float {
        let v = nearest_f32(&a, &b);
        (format!("{sign}{a}.{b}"), K::Float(if sign == "-" { -v } else { v }))
    } else {
        let v: i32 = a.parse().unwrap_or(0);
        (format!("{sign}{a}"), K::Int(if sign == "-" { -v } else { v }))
    };
    let before = *r.pick(&["", "", " ", "\n", "VISIBLE ", "x R ", "\"s\"", ",", "SUM OF 1 AN "]);
    let text = format!("{before}{lexeme}{next}");
    if reflex::lex(&text).is_err() {
        return Ok(());
    }
    c.note(&text);
    let tokens = sut::lex_ok(&text)?;
    let place = before.len() as i32;
    let token = tokens.iter().find(|t| t.range.0.bytes <= place && t.range.1.bytes > place);
    let found = token.map(|t| (kind(t), t.range.0.bytes, t.range.1.bytes));
    ensure!(
        found == Some((k.clone(), place, place + lexeme.len() as i32)),
        "the number {lexeme} before {next:?} should be {k:?} but is {found:?}"
    );
    c.count("numbers right before something else checked");
    c.seen(&text, true);
    Ok(())
}

fn string_scanned(c: &mut Case, body: &str) -> Res {
    let text = format!("\"{body}");
    c.note(&text);
    // walk: a colon followed by a quote or colon covers it
    let cs: Vec<char> = body.chars().collect();
    let mut i = 0;
    let mut end = None;
    while i < cs.len() {
        if cs[i] == ':' && i + 1 < cs.len() && (cs[i + 1] == '"' || cs[i + 1] == ':') {
            i += 2;
            continue;
        }
        if cs[i] == '"' {
            end = Some(i);
            break;
        }
        i += 1;
    }
    if reflex::lex(&text).is_err() {
        // a comment is opened after the string
        return Ok(());
    }
    let want: String = cs[..end.unwrap_or(cs.len())].iter().collect();
    let tokens = sut::lex_ok(&text)?;
    let first = tokens.first().map(kind);
    ensure!(
        first == Some(K::Str(want.clone())),
        "the string is {:?} but {first:?} was found",
        want
    );
    c.count("short strings checked");
    c.seen(&text, true);
    Ok(())
}

/// What the lexer does today with numbers outside of 32 bits
fn huge_ints(c: &mut Case) -> Res {
    let all = [
        "2147483648", "-2147483649", "+2147483648", "4294967296", "99999999999", "18446744073709551616",
        "340282366920938463463374607431768211456",
    ];
    let s = all[c.index % all.len()];
    c.note(s);
    let tokens = sut::lex_ok(s)?;
    let r = if tokens.len() == 1 && matches!(kind(&tokens[0]), K::Int(_) | K::Float(_)) {
        Ok(())
    } else {
        Err(Fail::new(format!(
            "the number {s} is not one literal but {:?}",
            tokens.iter().map(|t| kind(t)).collect::<Vec<_>>()
        )))
    };
    c.count("integers outside of 32 bits tried");
    c.seen(s, false);
    c.unless_known(r)
}

pub const C06: &[Load] = &[
    load("integers", (60000, 900000), (1, 1), |c| {
        let mut r = c.sub();
        let v: i64 = match c.index % 4 {
            0 => (c.index / 4) as i64 - 2500,
            1 => r.u64() as i32 as i64,
            2 => {
                let p = 1i64 << r.below(32);
                (p + r.below(3) as i64 - 1).min(i32::MAX as i64) * if r.pct(50) { 1 } else { -1 }
            }
            _ => match gen::int_literal(&mut r, c.dict).k {
                K::Int(v) => v as i64,
                _ => 0,
            },
        };
        let v = if r.one_in(500) { i32::MIN as i64 } else { v };
        int_spelling(c, v, &mut r)
    }),
    load("floats", (40000, 600000), (60, 200), |c| {
        let mut r = c.sub();
        let (na, nb) = if r.pct(70) {
            (r.below(5), r.below(6))
        } else {
            (r.below(c.size.min(45) + 1), r.below(c.size + 1))
        };
        let na = if na + nb == 0 { 1 } else { na };
        let a = gen::digits(&mut r, na);
        let b = gen::digits(&mut r, nb);
        let b = if r.one_in(6) { format!("{}{b}", "0".repeat(r.below(50))) } else { b };
        float_spelling(c, &a, &b, &mut r)
    }),
    load("floats halfway between two", (8000, 120000), (1, 1), |c| {
        let mut r = c.sub();
        let (a, b) = halfway(&mut r);
        float_spelling(c, &a, &b, &mut r)
    }),
    load("strings", (40000, 600000), (60, 300), |c| {
        let mut r = c.sub();
        let s = gen::string_body(&mut r, c.dict, c.size);
        string_in_context(c, &s, &mut r)
    }),
    load("strings of every length", (3000, 30000), (1, 1), |c| {
        let mut r = c.sub();
        let n = c.index % 1500 + if r.one_in(50) { 64000 } else { 0 };
        let ch = *r.pick(&["a", "é", "🐱", "\n", " ", "BTW ", ":)"]);
        let s = ch.repeat(n / ch.len().max(1) + 1);
        string_in_context(c, &s, &mut r)
    }),
    load("every character in a string", EVERY_CHAR, (1, 1), |c| {
        let Some(ch) = nth_char(c) else {
            return Ok(());
        };
        let mut r = c.sub();
        let e = match ch {
            '"' => ":\"".to_string(),
            ':' => "::".to_string(),
            ch => ch.to_string(),
        };
        let bodies = [e.clone(), format!("{e}x"), format!("x{e}"), format!("x {e} y"), format!("\n{e}"), format!("{e}\n"), format!("{e}{e}"), format!(":{ch}y")];
        string_in_context(c, &bodies[c.index % 7], &mut r)?;
        string_in_context(c, &bodies[r.below(8)], &mut r)
    }),
    load("strings of pieces", (40000, 600000), (60, 200), string_of_pieces),
    load("numbers next to anything", (60000, 900000), (1, 1), number_then_anything),
    load("all short strings", (60000, 960800), (1, 1), string_exhaustive),
    load("literal words", (8000, 60000), (1, 1), |c| {
        let (s, k) = [("WIN", K::Bool(true)), ("FAIL", K::Bool(false)), ("NOOB", K::Noob)][c.index % 3].clone();
        let (b, a) = (c.index / 3 % 26, c.index / 78 % 21);
        c.count("literal words checked");
        in_context(c, s, &k, b, a)
    }),
    load("integers outside of 32 bits", (7, 7), (1, 1), huge_ints),
];

// ---------------------------------------------------------------- C07

fn comment_single(c: &mut Case) -> Res {
    let mut r = c.sub();
    let body = gen::prose(&mut r, c.dict, c.size, false);
    let bs = befores();
    let (before, bk) = r.pick(&bs).clone();
    let end = *r.pick(&["", "\n", "\n", "\nxy", "\n\n 1", "\r\n", "\r\nBTW again", "\nOBTW x\nTLDR"]);
    let text = format!("{before}BTW{body}{end}");
    let cr = if end.starts_with('\r') { "\r" } else { "" };
    let mut want = bk;
    want.push(K::Com(format!("{body}{cr}")));
    want.extend(match end {
        "\nxy" => vec![K::Ident("xy".into())],
        "\n\n 1" => vec![K::Int(1)],
        "\r\nBTW again" => vec![K::Com(" again".into())],
        "\nOBTW x\nTLDR" => vec![K::MCom(" x\n".into())],
        _ => vec![],
    });
    c.note(&text);
    expect_kinds(&text, &want)?;
    c.count("single-line comments checked");
    c.seen(&text, true);
    Ok(())
}

fn comment_multi(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut body = gen::prose(&mut r, c.dict, c.size, true);
    while body.contains("TLDR") {
        body = body.replace("TLDR", "TLD");
    }
    let bs = befores();
    let (before, bk) = r.pick(&bs).clone();
    let afs = afters();
    let (after, ak) = r.pick(&afs).clone();
    let text = format!("{before}OBTW{body}TLDR{after}");
    let mut want = bk;
    want.push(K::MCom(body.clone()));
    want.extend(ak);
    c.note(&text);
    expect_kinds(&text, &want)?;
    c.count("multi-line comments checked");
    c.seen(&text, true);
    Ok(())
}

fn comment_unclosed(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut body = gen::prose(&mut r, c.dict, c.size, true);
    while body.contains("TLDR") {
        body = body.replace("TLDR", "TLD");
    }
    let head = if r.pct(50) {
        let bs = befores();
        r.pick(&bs).0.to_string()
    } else {
        let mut t = fuzz::any_lexable(&mut r, c.dict, c.size.min(10));
        // neither string nor comment may be open where the comment starts
        t.push('\n');
        match reflex::lex(&t) {
            Ok(ts) => {
                let open = ts.last().map_or(false, |l| {
                    matches!(l.k, K::Str(_)) && l.end == t.chars().count()
                });
                if open {
                    t.clear();
                }
            }
            Err(_) => t.clear(),
        }
        t
    };
    let text = format!("{head}OBTW{body}");
    c.note(&text);
    match sut::lex(&text)? {
        Ok(tokens) => {
            return Err(Fail::new("a multi-line comment that is never closed went unnoticed").detail(show_all(&tokens)));
        }
        Err(TokenError::UnclosedMultilineComment(range)) => {
            let l = Lines::new(&text);
            let n = head.chars().count();
            for (p, at, what) in [(range.0, n, "start"), (range.1, l.line.len() - 1, "end")] {
                let want = Position {
                    line: l.line[at],
                    column: l.col[at],
                    bytes: l.byte[at],
                    chars: at as i32,
                };
                ensure!(
                    same_position(&p, &want),
                    "the error's {what} is line {} column {} byte {} char {}, not {} {} {} {}",
                    p.line, p.column, p.bytes, p.chars, want.line, want.column, want.bytes, want.chars
                );
            }
        }
    }
    c.count("unclosed comments checked");
    c.seen(&text, true);
    Ok(())
}

/// Openers, closers, quotes and line ends in any order, by the rule for comments and strings alone
fn comment_pieces(c: &mut Case) -> Res {
    let text = nth_text(c.index, &["BTW", "OBTW", "TLDR", "\n", " ", "\"", "xB", "TL", "O", ":\"", ","]);
    c.note(&text);
    let mut want: Vec<(usize, String)> = Vec::new(); // comments: where, text
    let mut error = None;
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let rest = &text[i..];
        if rest.starts_with("OBTW") {
            match rest.find("TLDR") {
                Some(n) => {
                    want.push((i, rest[4..n].to_string()));
                    i += n + 4;
                }
                None => {
                    error = Some(i);
                    break;
                }
            }
        } else if rest.starts_with("BTW") {
            let n = rest.find('\n').unwrap_or(rest.len());
            want.push((i, rest[3..n].to_string()));
            i += n;
        } else if rest.starts_with('"') {
            let mut j = 1;
            let rb = rest.as_bytes();
            while j < rb.len() && rb[j] != b'"' {
                j += if rb[j] == b':' && j + 1 < rb.len() && (rb[j + 1] == b'"' || rb[j + 1] == b':') { 2 } else { 1 };
            }
            i += (j + 1).min(rb.len());
        } else if b[i].is_ascii_alphabetic() {
            // a word: openers inside of it do not count
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    match (sut::lex(&text)?, error) {
        (Ok(tokens), None) => {
            let got: Vec<(usize, String)> = tokens
                .iter()
                .filter_map(|t| match kind(t) {
                    K::Com(s) | K::MCom(s) => Some((t.range.0.bytes as usize, s)),
                    _ => None,
                })
                .collect();
            ensure!(got == want, "the comments are {want:?} but {got:?} were found");
            c.add("comments found", want.len() as u64);
        }
        (Err(TokenError::UnclosedMultilineComment(r)), Some(at)) => {
            ensure!(
                r.0.bytes as usize == at && r.1.bytes as usize == text.len(),
                "the unclosed comment is at {at}..{} but {}..{} was reported",
                text.len(),
                r.0.bytes,
                r.1.bytes
            );
            c.count("unclosed comments checked");
        }
        (Ok(tokens), Some(at)) => {
            return Err(Fail::new(format!("the comment opened at {at} is never closed, but this went unnoticed")).detail(show_all(&tokens)))
        }
        (Err(e), None) => return Err(Fail::new(format!("tokenizing failed although every comment is closed: {e:?}"))),
    }
    c.seen(&text, !want.is_empty() || error.is_some());
    Ok(())
}

/// Comments in programs, known by construction
fn comment_layout(c: &mut Case) -> Res {
    let mut r = c.sub();
    let p = gen::program(&mut r, c.dict, c.size);
    let mut st = crate::layout::Style::comments(&mut r);
    if r.pct(40) {
        st.crlf = 50;
        st.wild = 30;
        st.glue = 50;
    }
    let laid = crate::layout::render(&p.lex, &p.starts, &st, &mut r, c.dict);
    c.note(&laid.text);
    let want: Vec<K> = laid.toks.iter().map(|t| t.0.clone()).collect();
    let tokens = expect_kinds(&laid.text, &want)?;
    for (t, at) in tokens.iter().zip(&laid.at) {
        ensure!(
            (t.range.0.bytes as usize, t.range.1.bytes as usize) == *at,
            "{} should be at bytes {}..{}",
            show(t),
            at.0,
            at.1
        );
    }
    let n = want.iter().filter(|k| k.is_comment()).count() as u64;
    c.add("comments in programs", n);
    c.seen(&laid.text, n > 0);
    Ok(())
}

pub const C07: &[Load] = &[
    load("single-line comments", (40000, 600000), (40, 200), comment_single),
    load("multi-line comments", (40000, 600000), (40, 200), comment_multi),
    load("unclosed comments", (25000, 400000), (40, 200), comment_unclosed),
    load("all short sequences of openers, closers, quotes", (16105, 177155), (1, 1), comment_pieces),
    load("longer sequences of openers, closers, quotes", (20000, 300000), (1, 1), |c| {
        c.index = c.rng.below(usize::MAX >> 12);
        comment_pieces(c)
    }),
    load("every character in a comment", EVERY_CHAR, (1, 1), |c| {
        let Some(ch) = nth_char(c) else {
            return Ok(());
        };
        let word = ch == '_' || ch.is_ascii_alphanumeric();
        let id = |s: &str| K::Ident(s.into());
        let bodies = if word {
            [format!(" {ch}"), format!(" {ch}{ch} "), format!("-{ch}"), format!(" x{ch}")]
        } else {
            [format!("{ch}"), format!("{ch}{ch} x"), format!(" x{ch}"), format!(" {ch} x{ch}")]
        };
        for b in &bodies {
            let n = if word { " " } else { "" };
            let text = format!("a OBTW{b}{n}TLDR\nOBTW\n{b}\n{n}TLDR b OBTW{b}");
            if ch != '\n' {
                let text = format!("a BTW{b}\nc BTW x{ch}\nb BTW{b}");
                c.note(&text);
                expect_kinds(&text, &[id("a"), K::Com(b.clone()), id("c"), K::Com(format!(" x{ch}")), id("b"), K::Com(b.clone())])?;
            }
            let closed = text[..text.rfind(" OBTW").unwrap()].to_string();
            c.note(&closed);
            expect_kinds(&closed, &[id("a"), K::MCom(format!("{b}{n}")), K::MCom(format!("\n{b}\n{n}")), id("b")])?;
            c.note(&text);
            match sut::lex(&text)? {
                Err(TokenError::UnclosedMultilineComment(r)) => ensure!(
                    r.0.bytes as usize == closed.len() + 1 && r.1.bytes as usize == text.len(),
                    "the comment that is never closed is reported at {}..{}",
                    r.0.bytes,
                    r.1.bytes
                ),
                Ok(_) => return Err(Fail::new("a comment that is never closed went unnoticed".to_string())),
            }
        }
        c.count("characters tried in comments");
        Ok(())
    }),
    load("comments in programs", (15000, 250000), (30, 100), comment_layout),
    load("comments of every length", (3000, 20000), (1, 1), |c| {
        let n = c.index % 1300 + if c.rng.one_in(40) { 65000 } else { 0 };
        let body = c.rng.pick(&["x", " ", "é", "-", "TLD "]).repeat(n);
        let text = if c.rng.pct(50) {
            format!("a BTW{body}\nb")
        } else {
            format!("a OBTW{body}TLDR\nb")
        };
        let k = if text.starts_with("a B") { K::Com(body) } else { K::MCom(body) };
        c.note(&text);
        expect_kinds(&text, &[K::Ident("a".into()), k, K::Ident("b".into())])?;
        c.seen(&text, true);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C24

fn rules(c: &mut Case, text: &str) -> Res {
    c.note(text);
    let want = reflex::lex(text);
    let l = Lines::new(text);
    match (sut::lex(text)?, want) {
        (Ok(got), Ok(want)) => {
            for i in 0..want.len().max(got.len()) {
                let w = want.get(i);
                let g = got.get(i);
                let same = match (w, g) {
                    (Some(w), Some(g)) => {
                        w.k == kind(g)
                            && l.byte[w.start] == g.range.0.bytes
                            && l.byte[w.end] == g.range.1.bytes
                    }
                    _ => false,
                };
                if !same {
                    return Err(Fail::new(format!(
                        "token {i} should be {} but is {}",
                        w.map_or("nothing".into(), |w| format!(
                            "{} at bytes {}..{}",
                            short(&format!("{:?}", w.k)),
                            l.byte[w.start],
                            l.byte[w.end]
                        )),
                        g.map_or("nothing".into(), |g| short(&show(g)))
                    ))
                    .detail(show_all(&got)));
                }
            }
            c.add("tokens compared", want.len() as u64);
            for w in &want {
                if !c.quiet {
                    let name = w.k.class();
                    *c.st.counters.entry(format!("token: {name}")).or_insert(0) += 1;
                }
            }
            c.seen(text, want.len() >= 2);
        }
        (Err(TokenError::UnclosedMultilineComment(r)), Err(reflex::Unclosed(at))) => {
            ensure!(
                r.0.bytes == l.byte[at] && r.1.bytes as usize == text.len(),
                "the unclosed comment at byte {} is reported at {}..{}",
                l.byte[at],
                r.0.bytes,
                r.1.bytes
            );
            c.count("unclosed comments compared");
            c.seen(text, true);
        }
        (Ok(_), Err(reflex::Unclosed(at))) => {
            return Err(Fail::new(format!("the comment opened at character {at} is never closed, but this went unnoticed")))
        }
        (Err(e), Ok(_)) => return Err(Fail::new(format!("tokenizing failed: {e:?}"))),
    }
    Ok(())
}

pub const C24: &[Load] = &[
    load("texts of every kind", (50000, 800000), (40, 120), |c| {
        let t = text_any(c);
        rules(c, &t)
    }),
    load("lexical pieces in any order", (80000, 1200000), (30, 80), |c| {
        let t = text_chars(c);
        rules(c, &t)
    }),
    load("all short texts", EXHAUSTIVE, (1, 1), |c| {
        let t = text_exhaustive(c);
        rules(c, &t)
    }),
    load("all short piece sequences", PIECES_N, (1, 1), |c| {
        let t = text_pieces(c);
        rules(c, &t)
    }),
    load("every character by itself and between others", EVERY_CHAR, (1, 1), |c| {
        let mut all = texts_with_char(c);
        if let Some(ch) = all.first().and_then(|t| t.chars().next()) {
            all.extend([format!("SUM{ch}OF"), format!("WIN{ch}WIN"), format!("'Z{ch}.5"), format!("BTW{ch}x"), format!("{ch}BTW"), format!("-{ch}.")]);
        }
        for t in all {
            rules(c, &t)?;
        }
        Ok(())
    }),
    load("large texts", (120, 1500), (190, 190), |c| {
        let t = text_large(c);
        rules(c, &t)
    }),
    load("words and blanks", (20000, 300000), (20, 60), |c| {
        let mut r = c.sub();
        let words = base_words(c);
        let n = r.range(1, c.size.max(2));
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(&r.pick(&words).clone());
            t.push_str(r.pick(&[" ", " ", "", "  ", "\n", "\t", "_", "1", ",", "'Z", "\"", "..."]));
        }
        rules(c, &t)
    }),
];

// ---------------------------------------------------------------- C25

fn locality(c: &mut Case) -> Res {
    let mut r = c.sub();
    let a = if r.pct(60) {
        fuzz::any_lexable(&mut r, c.dict, c.size)
    } else {
        let mut t = fuzz::chars(&mut r, c.dict, c.size);
        if reflex::lex(&t).is_err() {
            t.push_str("TLDR");
        }
        t
    };
    let b = if r.pct(50) {
        fuzz::any_text(&mut r, c.dict, c.size)
    } else {
        fuzz::chars(&mut r, c.dict, c.size)
    };
    locality_of(c, &a, &b)
}

fn locality_of(c: &mut Case, a: &str, b: &str) -> Res {
    let whole = format!("{a}\n{b}");
    c.note(&whole);
    let Ok(ta) = sut::lex(a)? else {
        return Ok(());
    };
    // an open string at the end of A?
    if let Ok(ref_a) = reflex::lex(a) {
        if let Some(t) = ref_a.last() {
            let s: Vec<char> = a.chars().collect();
            if matches!(t.k, K::Str(_)) && t.end == s.len() {
                // closed only if its text and two quotes make its length
                if let K::Str(body) = &t.k {
                    if body.chars().count() + 2 != t.end - t.start {
                        c.count("texts ending in an open string, left out");
                        return Ok(());
                    }
                }
            }
        }
    } else {
        return Ok(());
    }
    let tb = sut::lex(b)?;
    let tw = sut::lex(&whole)?;
    let (dl, dc, db) = (
        a.matches('\n').count() as i32 + 1,
        a.chars().count() as i32 + 1,
        a.len() as i32 + 1,
    );
    let shift = |p: &Position| Position {
        line: p.line + dl,
        column: p.column,
        bytes: p.bytes + db,
        chars: p.chars + dc,
    };
    match (tb, tw) {
        (Ok(tb), Ok(tw)) => {
            ensure!(
                tw.len() == ta.len() + tb.len(),
                "{} tokens, then {} tokens, but {} together",
                ta.len(),
                tb.len(),
                tw.len()
            );
            for (i, w) in tw.iter().enumerate() {
                let (k, s, e) = if i < ta.len() {
                    (kind(&ta[i]), ta[i].range.0, ta[i].range.1)
                } else {
                    let t = &tb[i - ta.len()];
                    (kind(t), shift(&t.range.0), shift(&t.range.1))
                };
                ensure!(
                    kind(w) == k && same_position(&w.range.0, &s) && same_position(&w.range.1, &e),
                    "token {i} is {} together, but {} line {} column {} bytes {}..{} apart",
                    short(&show(w)),
                    short(&format!("{k:?}")),
                    s.line,
                    s.column,
                    s.bytes,
                    e.bytes
                );
            }
            c.add("tokens compared", tw.len() as u64);
            c.seen(&whole, !ta.is_empty() && !tb.is_empty());
        }
        (Err(TokenError::UnclosedMultilineComment(x)), Err(TokenError::UnclosedMultilineComment(y))) => {
            ensure!(
                same_position(&shift(&x.0), &y.0) && same_position(&shift(&x.1), &y.1),
                "the error's range is {y:?} together but {x:?} apart"
            );
            c.count("failures compared");
            c.seen(&whole, !ta.is_empty());
        }
        (Ok(_), Err(e)) => return Err(Fail::new(format!("fails only together: {e:?}"))),
        (Err(e), Ok(_)) => return Err(Fail::new(format!("fails only apart: {e:?}"))),
    }
    Ok(())
}

pub const C25: &[Load] = &[
    load("two texts of every kind", (50000, 700000), (30, 100), locality),
    load("all short texts in front", (18279, 18279), (1, 1), |c| {
        let a = text_exhaustive(c);
        let mut r = c.sub();
        let b = fuzz::chars(&mut r, c.dict, 4);
        locality_of(c, &a, &b)
    }),
    load("all short piece sequences in front", (27931, 27931), (1, 1), |c| {
        let a = text_pieces(c);
        let i = c.rng.below(27931);
        let b = nth_text(i, PIECES);
        locality_of(c, &a, &b)
    }),
    load("every character at the end of the first text and at the start of the second", EVERY_CHAR, (1, 1), |c| {
        let texts = texts_with_char(c);
        if texts.is_empty() {
            return Ok(());
        }
        let i = c.index;
        let (a, b) = (texts[i % texts.len()].clone(), texts[i / texts.len() % texts.len()].clone());
        locality_of(c, &a, &b)?;
        locality_of(c, &texts[0], &texts[0])
    }),
    load("all short texts behind", (18279, 18279), (1, 1), |c| {
        let b = text_exhaustive(c);
        let i = c.rng.below(27931);
        let a = nth_text(i, PIECES);
        locality_of(c, &a, &b)
    }),
    load("large texts in front", (100, 1200), (190, 190), |c| {
        let a = text_large(c);
        let mut r = c.sub();
        let b = fuzz::any_text(&mut r, c.dict, 10);
        locality_of(c, &a, &b)
    }),
    load("the same line again and again", (1500, 15000), (100, 1000), |c| {
        let mut r = c.sub();
        let l = fuzz::any_lexable(&mut r, c.dict, 2);
        let n = r.range(1, c.size);
        let a = vec![l.as_str(); n].join("\n");
        locality_of(c, &a, &l)
    }),
];

pub fn odd_chars() -> &'static [char] {
    ODD_CHARS
}

pub fn is_keyword_token(i: usize) -> bool {
    lexes_as_keyword(i)
}
