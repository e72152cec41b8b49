//! Monitors of the whole: C01 (always a result), C20 (a function of the input), C21 (size, depth,
//! cost), C22 (memory).
use crate::alloc;
use crate::case::{load, Case, Load, Stats, Tier};
use crate::dict::{mine, Dict};
use crate::ensure;
use crate::fuzz;
use crate::gen::{self, BINARY, NARY};
use crate::kinds::kind;
use crate::layout::{render, Style};
use crate::lexc::{self, text_any, text_chars, text_exhaustive, text_large, text_pieces, EXHAUSTIVE, PIECES_N};
use crate::parsec::{by_the_grammar, words_to_tokens, SMALL};
use crate::reflex::{self, Lines};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sut::{self, guard, Fail, Res};
use lolcode_ast::lexer::{Position, Token, TokenError};
use lolcode_ast::parser::verif_hooks as hooks;
use lolcode_ast::parser::ASTBlock;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------- C01

/// Everything a user can ask of a tree
fn walk(block: &ASTBlock) -> usize {
    let errors = block.iter_errors().count();
    let tree = hooks::export(block);
    let spans = hooks::spans(block);
    let mut n = errors + spans.len();
    for s in &spans {
        n += s.tokens.as_ref().map_or(0, |t| t.len()) + s.after_end.len();
    }
    fn nodes(t: &hooks::Tree) -> usize {
        1 + t
            .items
            .iter()
            .map(|(_, i)| match i {
                hooks::Item::Node(t) => nodes(t),
                _ => 0,
            })
            .sum::<usize>()
    }
    n += nodes(&tree);
    let copy = block.clone();
    assert!(&copy == block, "a copy of the tree differs from it");
    drop(copy);
    n + format!("{block:?}").len()
}

/// A panic inside of the library, not of the monitors, is what is looked for: `walk` has one
/// assertion of its own, which is a failure as well.
fn robust_tokens(c: &mut Case, tokens: &[Token]) -> Res {
    let block = sut::parse(tokens)?;
    let n = guard("walking the tree", || walk(&block))?;
    guard("dropping the tree", move || drop(block))?;
    c.add("things asked of trees", n as u64);
    Ok(())
}

fn robust_text(c: &mut Case, text: &str) -> Res {
    c.note(text);
    match sut::lex(text)? {
        Ok(tokens) => {
            guard("printing tokens", || format!("{tokens:?}").len())?;
            robust_tokens(c, &tokens)?;
            sut::both(text)?.map_err(|e| Fail::new(format!("only both together fail: {e:?}")))?;
            c.seen(text, tokens.len() > 1);
            c.count("texts tokenized and parsed");
        }
        Err(e @ TokenError::UnclosedMultilineComment(_)) => {
            // the only failure there is; it has to be this one
            ensure!(
                text.contains("OBTW"),
                "an unclosed comment is reported in a text without an opener"
            );
            guard("printing the error", || format!("{e:?}").len())?;
            c.count("texts with an unclosed comment");
            c.seen(text, true);
        }
    }
    Ok(())
}

/// Token lists cut, doubled, turned around, mixed
fn robust_lists(c: &mut Case) -> Res {
    let mut r = c.sub();
    let text = fuzz::any_lexable(&mut r, c.dict, c.size);
    c.note(&text);
    let tokens = sut::lex_ok(&text)?;
    for _ in 0..4 {
        let mut v = tokens.clone();
        let what = r.below(8);
        let n = v.len();
        match what {
            0 => v.truncate(r.below(n + 1)),
            1 => {
                v.drain(..r.below(n + 1));
            }
            2 => v.reverse(),
            3 => {
                let w = v.clone();
                v.extend(w);
            }
            4 => r.shuffle(&mut v),
            5 => {
                // all in one place
                for t in v.iter_mut() {
                    t.range = (Position::default(), Position::default()).into();
                }
            }
            6 => {
                // positions anywhere
                for t in v.iter_mut() {
                    let p = |r: &mut Rng| Position {
                        line: *r.pick(&[i32::MIN, -1, 0, 1, 2, i32::MAX]),
                        column: *r.pick(&[i32::MIN, -1, 0, 1, 2, i32::MAX]),
                        bytes: *r.pick(&[i32::MIN, -1, 0, 1, 2, i32::MAX]),
                        chars: *r.pick(&[i32::MIN, -1, 0, 1, 2, i32::MAX]),
                    };
                    t.range = (p(&mut r), p(&mut r)).into();
                }
            }
            _ => {
                if n > 0 {
                    let i = r.below(n);
                    let j = r.below(n);
                    v[i].token_type = v[j].token_type.clone();
                }
            }
        }
        robust_tokens(c, &v)?;
        c.count("token lists parsed");
    }
    c.seen(&text, tokens.len() > 1);
    Ok(())
}

/// Every prefix and suffix of a program
fn robust_cuts(c: &mut Case) -> Res {
    let mut r = c.sub();
    let t = if r.pct(60) {
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        render(&p.lex, &p.starts, &st, &mut r, c.dict).text
    } else {
        fuzz::any_text(&mut r, c.dict, c.size)
    };
    let cuts: Vec<usize> = t.char_indices().map(|(i, _)| i).collect();
    if cuts.is_empty() {
        return Ok(());
    }
    if cuts.len() <= 60 {
        for i in &cuts {
            robust_text(c, &t[..*i])?;
            robust_text(c, &t[*i..])?;
        }
    } else {
        for _ in 0..20 {
            let i = *r.pick(&cuts);
            robust_text(c, &t[..i])?;
            robust_text(c, &t[i..])?;
        }
    }
    Ok(())
}

/// Runs with the stack that threads, or the main thread, have by default
fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> Result<T, Fail> + Send) -> Result<T, Fail> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(s, f)
            .map_err(|e| Fail::new(format!("no thread: {e}")))?
            .join()
            .unwrap_or_else(|_| Err(Fail::new("the thread panicked")))
    })
}

/// Long but flat texts, in one dimension each
pub const DIMENSIONS: &[(&str, &str, &str, &str)] = &[
    // name, head, repeated, tail
    ("statements", "", "VISIBLE 1\n", ""),
    ("statements with commas", "", "x R 1, ", ""),
    ("commas", "VISIBLE 1", ",", "VISIBLE 2"),
    ("blank lines", "VISIBLE 1", "\n", "VISIBLE 2"),
    ("CRLF lines", "", "GTFO\r\n", "x"),
    ("blanks", "VISIBLE", " ", "1"),
    ("tabs", "VISIBLE", "\t", "1"),
    ("continuations", "VISIBLE 1 ", "...\n", "2"),
    ("continuation characters", "VISIBLE 1 ", "…\n", "2"),
    ("continuations in a row", "VISIBLE 1 ", "... ", "\n2"),
    ("continued words", "VISIBLE", " x ...\n", " x"),
    ("comment lines", "VISIBLE 1\n", "BTW a comment\n", "VISIBLE 2"),
    ("multi-line comments", "VISIBLE 1\n", "OBTW a\ncomment TLDR\n", "VISIBLE 2"),
    ("multi-line comments in a line", "VISIBLE ", "OBTW a TLDR ", "2"),
    ("length of a comment", "BTW ", "abc é ", "\nx"),
    ("lines of a comment", "OBTW ", "abc é\n", "TLDR x"),
    ("length of a string", "VISIBLE \"", "abc é ", "\" x"),
    ("lines of a string", "VISIBLE \"", "a\n", "\" x"),
    ("escapes of a string", "VISIBLE \"", ":\"::", "\" x"),
    ("open string", "VISIBLE \"", "abc\n", ""),
    ("length of a name", "VISIBLE a", "bC_9", " x"),
    ("strings", "VISIBLE", " \"a\"", ""),
    ("names", "VISIBLE", " xyz", ""),
    ("names line by line", "", "xyz\n", ""),
    ("numbers", "VISIBLE", " 12 -3.5", "!"),
    ("symbols", "", "+ ", ""),
    ("symbols in a row", "", "+*é", ""),
    ("question marks", "O RLY", "?", ""),
    ("exclamation marks", "VISIBLE 1", "!", ""),
    ("arguments of a call", "I IZ f YR 1", " AN YR x", " MKAY"),
    ("parameters", "HOW IZ I f YR a", " AN YR b", "\nGTFO\nIF U SAY SO"),
    ("slots", "x", "'Z y", " R 1"),
    ("slots by name", "x", "'Z SRS y", " R 1"),
    ("operands", "SMOOSH 1", " AN 2", " MKAY"),
    ("operands without AN", "ALL OF WIN", " FAIL", ""),
    ("branches", "O RLY?\nYA RLY\n", "MEBBE x\nGTFO\n", "OIC"),
    ("cases", "WTF?\n", "OMG 1\nGTFO\n", "OIC"),
    ("statements of a function", "HOW IZ I f\n", "GTFO\n", "IF U SAY SO"),
    ("statements of a loop", "IM IN YR l\n", "VISIBLE x\n", "IM OUTTA YR l"),
    ("statements of a branch", "O RLY?\nYA RLY\n", "x R 2\n", "OIC"),
    ("statements of a default", "WTF?\nOMGWTF\n", "x R 2\n", "OIC"),
    ("functions", "", "HOW IZ I f YR a\nFOUND YR a\nIF U SAY SO\n", ""),
    ("conditionals", "", "O RLY?\nYA RLY\nGTFO\nOIC\n", ""),
    ("switches", "", "WTF?\nOMG 1\nGTFO\nOIC\n", ""),
    ("loops", "", "IM IN YR l\nGTFO\nIM OUTTA YR l\n", ""),
    ("version headers", "", "HAI 1.2\n", ""),
    ("declarations", "", "I HAS A x ITZ SUM OF 1 AN 2\n", ""),
    ("errors", "", "ITZ\n", ""),
    ("left-over tokens", "GTFO", " x", ""),
    ("errors by comma", "", "AN 1,", ""),
    ("functions without a name", "", "HOW IZ I\n", ""),
    ("loops never closed, in a row", "IM IN YR l\n", "ITZ\n", ""),
    ("closers alone", "", "OIC\n", ""),
    ("closers of other blocks", "IM IN YR l\n", "OIC\nIF U SAY SO\n", ""),
];

pub fn dimension(d: usize, n: usize) -> String {
    let (_, head, piece, tail) = DIMENSIONS[d];
    let mut s = String::with_capacity(head.len() + tail.len() + n * piece.len());
    s.push_str(head);
    for _ in 0..n {
        s.push_str(piece);
    }
    s.push_str(tail);
    s
}

fn large_flat(c: &mut Case) -> Res {
    let d = c.index % DIMENSIONS.len();
    let bytes = if c.tier == Tier::Quick { 400_000 } else { 4_000_000 };
    let n = (bytes / DIMENSIONS[d].2.len()).min(if c.tier == Tier::Quick { 120_000 } else { 1_000_000 });
    let text = dimension(d, n);
    c.note(&format!("{n} {}", DIMENSIONS[d].0));
    let t = text.clone();
    // the default of spawned threads
    on_stack(2 << 20, move || {
        let tokens = sut::lex_ok(&t)?;
        let block = sut::parse(&tokens)?;
        guard("walking the tree", || {
            block.iter_errors().count() + hooks::spans(&block).len() + format!("{block:?}").len()
        })?;
        guard("copying and comparing the tree", || {
            let b = block.clone();
            b == block
        })?;
        guard("dropping the tree", move || drop(block))
    })
    .map_err(|f| f.detail(format!("{n} times {:?} between {:?} and {:?}", DIMENSIONS[d].2, DIMENSIONS[d].1, DIMENSIONS[d].3)))?;
    c.count("large flat texts");
    c.seen(&format!("{n} {}", DIMENSIONS[d].0), true);
    Ok(())
}

/// Nested text: expressions and blocks, `depth` levels deep
pub fn nested(r: &mut Rng, depth: usize) -> String {
    let mut open = String::new();
    let mut close = Vec::new();
    match r.below(4) {
        0 => {
            // operators; operands that are not nested come after or before
            open.push_str(r.pick(&["VISIBLE ", "x R ", "", "FOUND YR ", "I HAS A x ITZ ", "I IZ f YR "]));
            for _ in 0..depth {
                match r.below(4) {
                    0 => open.push_str("NOT "),
                    1 => {
                        open.push_str(r.pick(BINARY).0);
                        open.push(' ');
                        if r.pct(50) {
                            open.push_str("1 ");
                            if r.pct(60) {
                                open.push_str("AN ");
                            }
                        } else {
                            close.push(r.pick(&[" AN 2", " x"]).to_string());
                        }
                    }
                    2 => {
                        open.push_str(r.pick(NARY).0);
                        open.push_str(r.pick(&[" ", " x AN ", " 1 2 AN "]));
                    }
                    _ => open.push_str(r.pick(&["SUM OF 1 AN ", "NOT ", "SMOOSH \"a\" AN "])),
                }
            }
            open.push('1');
        }
        1 => {
            let op = r.pick(BINARY).0;
            for _ in 0..depth {
                open.push_str(op);
                open.push(' ');
                close.push(" AN x".into());
            }
            open.push('1');
        }
        k => {
            let mut one = 0;
            for _ in 0..depth {
                if k == 2 || r.pct(60) {
                    one = r.below(6);
                }
                match one {
                    0 => {
                        open.push_str("HOW IZ I f YR a\n");
                        close.push("\nIF U SAY SO".into());
                    }
                    1 => {
                        open.push_str("IM IN YR l UPPIN YR i TIL BOTH SAEM i AN 3\n");
                        close.push("\nIM OUTTA YR l".into());
                    }
                    2 => {
                        open.push_str("O RLY?\nYA RLY\n");
                        close.push("\nOIC".into());
                    }
                    3 => {
                        open.push_str("O RLY?\nYA RLY\nGTFO\nMEBBE x\n1\nNO WAI\n");
                        close.push("\nOIC".into());
                    }
                    4 => {
                        open.push_str("WTF?\nOMG 1\n");
                        close.push("\nGTFO\nOIC".into());
                    }
                    _ => {
                        open.push_str("WTF?\nOMGWTF\n");
                        close.push("\nOIC".into());
                    }
                }
                if r.one_in(8) {
                    open.push_str("x R 1\n");
                }
            }
            open.push_str("VISIBLE \"deep\"");
        }
    }
    while let Some(s) = close.pop() {
        open.push_str(&s);
        if r.one_in(400) {
            // cut short
            break;
        }
    }
    open
}

fn nested_robust(c: &mut Case) -> Res {
    let mut r = c.sub();
    let depth = r.range(1, 250);
    let text = nested(&mut r, depth);
    c.note(&text);
    let t = text.clone();
    on_stack(8 << 20, move || {
        let tokens = sut::lex_ok(&t)?;
        let block = sut::parse(&tokens)?;
        guard("walking the tree", || walk(&block))?;
        guard("dropping the tree", move || drop(block))
    })?;
    c.count("nested texts on an 8 MB stack");
    c.seen(&text, depth > 2);
    Ok(())
}

pub const C01: &[Load] = &[
    load("texts of every kind", (30000, 500000), (40, 120), |c| {
        let t = text_any(c);
        robust_text(c, &t)
    }),
    load("lexical pieces in any order", (30000, 500000), (30, 80), |c| {
        let t = text_chars(c);
        robust_text(c, &t)
    }),
    load("all short texts", EXHAUSTIVE, (1, 1), |c| {
        let t = text_exhaustive(c);
        robust_text(c, &t)
    }),
    load("all short piece sequences", PIECES_N, (1, 1), |c| {
        let t = text_pieces(c);
        robust_text(c, &t)
    }),
    load("every character first and last in a line, in each kind of token", (17500, 278528), (1, 1), |c| {
        // four of them per case, the texts one after the other
        let i = c.index;
        let mut all = String::new();
        for k in 0..4 {
            c.index = i * 4 + k;
            for t in lexc::texts_with_char(c) {
                all.push_str(&t);
                all.push_str("\nTLDR\"\n");
                robust_text(c, &t)?;
            }
        }
        robust_text(c, &all)
    }),
    load("token lists given directly", (25000, 400000), (40, 120), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = lexc::show_all(&tokens);
        c.note(&text);
        robust_tokens(c, &tokens)?;
        c.count("token lists parsed");
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("token lists cut, doubled, shuffled, displaced", (8000, 120000), (30, 100), robust_lists),
    load("all short token lists", (75895, 75895), (1, 1), |c| {
        let n = SMALL.len();
        let mut i = c.index;
        let mut words = Vec::new();
        while i > 0 {
            i -= 1;
            words.push(SMALL[i % n]);
            i /= n;
        }
        let text = words.join(" ");
        c.note(&text);
        robust_tokens(c, &words_to_tokens(&words))?;
        c.seen(&text, words.len() > 1);
        Ok(())
    }),
    load("random short token lists", (20000, 400000), (1, 1), |c| {
        let n = c.rng.range(4, 10);
        let words: Vec<&str> = (0..n).map(|_| *c.rng.pick(SMALL)).collect();
        let text = words.join(" ");
        c.note(&text);
        robust_tokens(c, &words_to_tokens(&words))?;
        c.seen(&text, true);
        Ok(())
    }),
    load("programs cut at every character", (1200, 20000), (20, 60), robust_cuts),
    load("every character by itself and between others", (70000, 1114112), (1, 1), |c| {
        let cp = if c.tier == Tier::Quick && c.index >= 65536 {
            65536 + c.rng.below(0x110000 - 65536)
        } else {
            c.index
        };
        let Some(ch) = char::from_u32(cp as u32) else {
            return Ok(());
        };
        robust_text(c, &format!("{ch} A{ch}B \"{ch}:{ch}\" 1{ch}\nVISIBLE {ch}{ch}...{ch}BTW{ch}"))
    }),
    load("large texts", (64, 600), (190, 190), |c| {
        let t = text_large(c);
        robust_text(c, &t)
    }),
    load("large flat texts on a 2 MB stack", (DIMENSIONS.len(), DIMENSIONS.len()), (1, 1), large_flat),
    load("nested texts on an 8 MB stack", (800, 12000), (1, 1), nested_robust),
];

// ---------------------------------------------------------------- C20

fn position(p: &Position, h: &mut u64) {
    for v in [p.line, p.column, p.bytes, p.chars] {
        *h = mix(*h ^ v as u32 as u64);
    }
}

fn fingerprint_token(t: &Token, h: &mut u64) {
    *h = mix(*h ^ hash_bytes(format!("{:?}", t.token_type).as_bytes()));
    position(&t.range.0, h);
    position(&t.range.1, h);
}

fn fingerprint_tree(t: &hooks::Tree, h: &mut u64) {
    *h = mix(*h ^ hash_bytes(t.kind.as_bytes()));
    for (f, i) in &t.items {
        *h = mix(*h ^ hash_bytes(f.as_bytes()));
        match i {
            hooks::Item::Tok(t) => fingerprint_token(t, h),
            hooks::Item::Node(n) => fingerprint_tree(n, h),
        }
    }
    *h = mix(*h ^ 0xe4d);
}

/// All that tokenizing and parsing give for a text: tokens, tree, both in one call
fn results(text: &str) -> Result<(u64, u64, u64), Fail> {
    let (mut a, mut b, mut d) = (1, 2, 2);
    match sut::lex(text)? {
        Ok(tokens) => {
            for t in &tokens {
                fingerprint_token(t, &mut a);
            }
            let block = sut::parse(&tokens)?;
            fingerprint_tree(&guard("walking the tree", || hooks::export(&block))?, &mut b);
            match sut::both(text)? {
                Ok(block) => fingerprint_tree(&guard("walking the tree", || hooks::export(&block))?, &mut d),
                Err(_) => d = 5,
            }
        }
        Err(TokenError::UnclosedMultilineComment(r)) => {
            a = 7;
            position(&r.0, &mut a);
            position(&r.1, &mut a);
            b = a;
            match sut::both(text)? {
                Ok(_) => d = 5,
                Err(TokenError::UnclosedMultilineComment(r)) => {
                    d = 7;
                    position(&r.0, &mut d);
                    position(&r.1, &mut d);
                }
            }
        }
    }
    Ok((a, b, d))
}

/// Texts with relatives: of the same length, the same beginning, the same end, nearly the same
fn pool(r: &mut Rng, dict: &Dict, n: usize, size: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    while v.len() < n {
        let t = match r.below(10) {
            0..=3 => fuzz::any_text(r, dict, size),
            4 => fuzz::chars(r, dict, 3),
            5 if !v.is_empty() => {
                // same length in bytes, other words
                let t = r.pick(&v).clone();
                t.chars()
                    .map(|c| match c {
                        'a'..='y' => ((c as u8) + 1) as char,
                        '1'..='8' => ((c as u8) + 1) as char,
                        c => c,
                    })
                    .collect()
            }
            6 if !v.is_empty() => format!("{}\n{}", r.pick(&v), fuzz::chars(r, dict, 2)),
            7 if !v.is_empty() => format!("{}\n{}", fuzz::chars(r, dict, 2), r.pick(&v)),
            8 if !v.is_empty() => {
                let t = r.pick(&v).clone();
                fuzz::mutate(&t, r, dict)
            }
            9 if !v.is_empty() => {
                let t = r.pick(&v);
                let cut: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                if cut.is_empty() {
                    String::new()
                } else {
                    t[..*r.pick(&cut)].to_string()
                }
            }
            _ => nested(r, 4),
        };
        if t.len() < 60_000 {
            v.push(t);
        }
    }
    v
}

fn differs(how: &str, text: &str, first: (u64, u64, u64), now: (u64, u64, u64)) -> Res {
    let what = if first.0 != now.0 {
        "other tokens"
    } else if first.1 != now.1 {
        "another tree from the same tokens"
    } else if first.2 != now.2 {
        "another tree in one call"
    } else {
        return Ok(());
    };
    Err(Fail::new(format!("{what} {how}")).detail(format!("the text: {text:?}")))
}

fn at_once(text: &str, x: (u64, u64, u64)) -> Res {
    ensure!(
        x.1 == x.2,
        "tokenize_and_parse gives another result than tokenize and parse for {:?}",
        crate::tree::short(text)
    );
    Ok(())
}

fn again(c: &mut Case) -> Res {
    let mut r = c.sub();
    let n = r.range(2, 14);
    let texts = pool(&mut r, c.dict, n, c.size);
    c.note(&texts.join("\n=====\n"));
    let mut first = Vec::new();
    for t in &texts {
        let x = results(t)?;
        at_once(t, x)?;
        first.push(x);
        let y = results(t)?;
        differs("the second time", t, x, y)?;
    }
    let mut order: Vec<usize> = (0..n).collect();
    for _ in 0..3 {
        r.shuffle(&mut order);
        for i in &order {
            let y = results(&texts[*i])?;
            differs("after other texts", &texts[*i], first[*i], y)?;
            c.count("results compared");
        }
    }
    // tokens of one text kept while others are processed, then parsed
    let mut kept = Vec::new();
    for t in &texts {
        kept.push(sut::lex(t)?.ok());
    }
    r.shuffle(&mut order);
    for i in &order {
        if let Some(tokens) = &kept[*i] {
            let block = sut::parse(tokens)?;
            let mut h = 2;
            fingerprint_tree(&guard("walking the tree", || hooks::export(&block))?, &mut h);
            differs("from tokens made earlier", &texts[*i], first[*i], (first[*i].0, h, first[*i].2))?;
            c.count("results compared");
        }
    }
    for t in &texts {
        c.seen(t, true);
    }
    Ok(())
}

/// Many calls in one process, the first results compared with the last
fn long_history(c: &mut Case) -> Res {
    let mut r = c.sub();
    let texts = pool(&mut r, c.dict, 40, 8);
    c.note(&texts.join("\n=====\n"));
    let mut first = Vec::new();
    for t in &texts {
        first.push(results(t)?);
    }
    let calls = if c.tier == Tier::Quick { 3000 } else { 30000 };
    for _ in 0..calls {
        let i = r.below(texts.len());
        let y = results(&texts[i])?;
        differs("after many calls", &texts[i], first[i], y)?;
    }
    c.add("results compared", calls);
    for t in &texts {
        c.seen(t, true);
    }
    Ok(())
}

fn in_threads(c: &mut Case) -> Res {
    let mut r = c.sub();
    let n = r.range(2, 8);
    let texts = Arc::new(pool(&mut r, c.dict, n, c.size));
    c.note(&texts.join("\n=====\n"));
    let mut first = Vec::new();
    for t in texts.iter() {
        first.push(results(t)?);
    }
    let first = Arc::new(first);
    let threads = r.range(2, 6);
    let barrier = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (texts, first, barrier) = (texts.clone(), first.clone(), barrier.clone());
            let same = r.pct(30);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || -> Result<u64, Fail> {
                    barrier.wait();
                    let mut n = 0;
                    for round in 0..3 {
                        for k in 0..texts.len() {
                            let i = if same { k } else { (k + t + round) % texts.len() };
                            let y = results(&texts[i])?;
                            differs("while other threads run", &texts[i], first[i], y)?;
                            n += 1;
                        }
                    }
                    Ok(n)
                })
                .map_err(|e| Fail::new(format!("no thread: {e}")))
        })
        .collect();
    let mut out = Ok(());
    for h in handles {
        match h?.join() {
            Ok(Ok(n)) => c.add("results compared between threads", n),
            Ok(Err(f)) => out = Err(f),
            Err(_) => out = Err(Fail::new("a thread panicked")),
        }
    }
    out?;
    c.add("threads run", threads as u64);
    for t in texts.iter() {
        c.seen(t, true);
    }
    Ok(())
}

/// Tokens equal in all respects, however they were made, parse to equal trees; parsing takes
/// nothing from where a token list lives or what capacity it has
fn made_otherwise(c: &mut Case) -> Res {
    let mut r = c.sub();
    let t = fuzz::any_lexable(&mut r, c.dict, c.size);
    c.note(&t);
    let tokens = sut::lex_ok(&t)?;
    let mut want = 2;
    let b = sut::parse(&tokens)?;
    fingerprint_tree(&guard("walking the tree", || hooks::export(&b))?, &mut want);
    let mut copy = Vec::with_capacity(tokens.len() * 4 + 7);
    for x in &tokens {
        copy.push(Token {
            token_type: crate::kinds::type_of(&kind(x)),
            range: (x.range.0, x.range.1).into(),
        });
    }
    let b2 = guard("parse", move || lolcode_ast::parse(copy))?;
    let mut got = 2;
    fingerprint_tree(&guard("walking the tree", || hooks::export(&b2))?, &mut got);
    ensure!(want == got, "equal tokens made anew parse to another tree");
    ensure!(b == b2 && b2 == b, "equal trees are not equal");
    let s = {
        let mut s = String::with_capacity(t.len() * 3 + 50);
        s.push_str(&t);
        s
    };
    let again = guard("tokenize", move || lolcode_ast::tokenize(s))?.map_err(|e| Fail::new(format!("{e:?}")))?;
    let (mut x, mut y) = (1, 1);
    tokens.iter().for_each(|t| fingerprint_token(t, &mut x));
    again.iter().for_each(|t| fingerprint_token(t, &mut y));
    ensure!(x == y, "a string of other capacity gives other tokens");
    c.count("results compared");
    c.seen(&t, true);
    Ok(())
}

pub const C20: &[Load] = &[
    load("again, in other orders, kept and parsed later", (4000, 60000), (25, 80), again),
    load("long histories", (32, 200), (1, 1), long_history),
    load("threads at the same time", (1500, 20000), (20, 60), in_threads),
    load("inputs made in other ways", (15000, 200000), (25, 80), made_otherwise),
];

/// One line per text of a pool: its results, processed in a given order
fn digest(seed: u64, n: usize, mode: &str, dict: &Dict) -> Vec<(usize, String)> {
    let mut r = Rng::new(seed);
    let texts = pool(&mut r, dict, n, 14);
    let show = |t: &str| match results(t) {
        Ok(x) => format!("{:x} {:x} {:x}", x.0, x.1, x.2),
        Err(f) => f.what,
    };
    let mut order: Vec<usize> = (0..n).collect();
    if let Some(k) = mode.strip_prefix("only") {
        let k: usize = k.parse().unwrap_or(0);
        return vec![(k, show(&texts[k]))];
    }
    match mode {
        "backward" => order.reverse(),
        "shuffled" => Rng::new(seed ^ 77).shuffle(&mut order),
        "threads" => {
            // the very first calls of this process, all at the same time
            let threads = 12;
            let texts = Arc::new(texts);
            let barrier = Arc::new(Barrier::new(threads));
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (texts, barrier) = (texts.clone(), barrier.clone());
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn(move || {
                            barrier.wait();
                            let mut v = Vec::new();
                            for k in 0..texts.len() {
                                // two by two the same text at the same time
                                let i = (k + (t / 2) * 7) % texts.len();
                                let s = match results(&texts[i]) {
                                    Ok(x) => format!("{:x} {:x} {:x}", x.0, x.1, x.2),
                                    Err(f) => f.what,
                                };
                                v.push((i, s));
                            }
                            v
                        })
                        .unwrap()
                })
                .collect();
            return hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect();
        }
        _ => {}
    }
    order.into_iter().map(|i| (i, show(&texts[i]))).collect()
}

fn digest_child(seed: u64, n: usize, mode: &str, turn: usize, dir: &Path, dict: &Dict) -> Result<Vec<(usize, String)>, Trouble> {
    let mut c = Command::new(std::env::current_exe().map_err(|e| Trouble::Broken(e.to_string()))?);
    c.args(["digest", &seed.to_string(), &n.to_string(), mode, &dict.encode()]);
    // whatever variable the code may ask for
    let names = || dict.strings.iter().filter(|s| crate::gen::is_word(s));
    match turn % 5 {
        4 => {
            c.envs(names().map(|n| (n, "1")));
        }
        1 => {
            c.env_clear();
        }
        2 => {
            c.env("LC_ALL", "tr_TR.UTF-8").env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("HOME", "/nonexistent");
            c.envs(names().map(|n| (n, "true")));
            c.env("RUST_BACKTRACE", "1").env("USER", "someone").env("DEBUG", "1").env("LOLCODE_DEBUG", "1").env("TERM", "dumb");
            c.current_dir(dir);
        }
        3 => {
            c.envs(names().map(|n| (n, "")));
            c.env("LC_ALL", "C").env("PADDING", "x".repeat(5000)).current_dir("/");
        }
        _ => {}
    }
    let out = c
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| Trouble::Broken(e.to_string()))?;
    if !out.status.success() {
        return Err(Trouble::Broken(format!("digest {mode} ended with {:?}", out.status)));
    }
    Ok(String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter_map(|l| {
            let (i, s) = l.split_once(' ')?;
            Some((i.parse().ok()?, s.to_string()))
        })
        .collect())
}

fn fresh_processes(tier: Tier, seed: u64, dir: &Path, st: &mut Stats, dict: &Dict) -> Result<(), Trouble> {
    let rounds = if tier == Tier::Quick { 6 } else { 40 };
    for round in 0..rounds {
        let seed = mix(seed ^ mix(round as u64 + 900));
        let n = 40;
        let first = digest_child(seed, n, "forward", 0, dir, dict)?;
        if first.len() != n {
            return Err(Trouble::Broken(format!("{} digests of {n}", first.len())));
        }
        let mut modes: Vec<String> = ["forward", "backward", "shuffled", "threads", "threads"].iter().map(|s| s.to_string()).collect();
        let single = if tier == Tier::Quick { 14 } else { n };
        modes.extend((0..single).map(|i| format!("only{}", (i * 3) % n)));
        for (turn, m) in modes.iter().enumerate() {
            for (i, s) in digest_child(seed, n, m, turn, dir, dict)? {
                if first[i].1 != s {
                    let mut r = Rng::new(seed);
                    let texts = pool(&mut r, dict, n, 14);
                    return Err(Trouble::Fail(
                        Fail::new(format!("another process gives another result ({m}: {s}, at first {})", first[i].1)),
                        format!("text {i} of pool {seed}, processed after the ones before it:\n{}", texts[..=i].join("\n=====\n")),
                    ));
                }
                *st.counters.entry("results compared between processes".into()).or_insert(0) += 1;
            }
            *st.counters.entry("processes started".into()).or_insert(0) += 1;
        }
    }
    Ok(())
}

/// Lines dense in one construct; `@` stands for a word, `#` for a number
const DENSE: &[&str] = &[
    "VISIBLE \"thread # says hai to all kittehs in @\"",
    "\"@\" \"#\" \"\" \"@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@\"",
    "I HAS A @_with_a_rather_long_name_# ITZ #",
    "@ R SUM OF # AN #.5",
    "# -# +# #.# -.# #@# #.",
    "BTW comment of @ number # ... \"@",
    "OBTW comment of @,\n number # \"@ TLDR",
    "\u{e9}\u{2603}\u{1f431} @ \u{2026}\n ' @# ... \n (#) $@",
    "@'Z slot_@'Z SRS name_# R NOOB",
    "VISIBLE @ # \"#\" WIN FAIL NOOB!",
    "VISIBLE ALL OF @ AN # MKAY SMOOSH @ \"#\"",
    "I IZ fun_@ YR # AN YR @ AN YR \"#\" MKAY",
    "HOW IZ I f_@ YR a_# AN YR b_@\nFOUND YR #\nGTFO\nIF U SAY SO",
    "IM IN YR l_@ UPPIN YR x_# TIL BOTH SAEM x_# AN @\nGIMMEH y_#\nIM OUTTA YR l_@",
    "IM IN YR l_@ NERFIN YR x_#'Z @ WILE DIFFRINT # AN x_#\nIM OUTTA YR m_#",
    "O RLY?\nYA RLY\n@ R #\nMEBBE @\nVISIBLE #\nMEBBE #\n@\nNO WAI\n#\nOIC",
    "@, WTF?\nOMG #\nVISIBLE @\nGTFO\nOMG \"@\"\nOMGWTF\n# \nOIC",
    "SMOOSH @ AN # AN \"@\" AN ANY OF @ AN # MKAY",
    "BOTH OF NOT @ AN EITHER OF # AN WON OF @ AN BIGGR OF # AN SMALLR OF @ AN #",
    "DIFF OF PRODUKT OF # AN # AN QUOSHUNT OF @ AN MOD OF # AN @",
    "NOT NOT NOT NOT NOT NOT NOT NOT NOT NOT NOT NOT SUM OF SUM OF SUM OF @ AN # AN # AN @",
    "I HAS A #",
    "I HAS A @ ITZ\nI HAS A SRS # ITZ A\n@ R\n@ #",
    "GTFO @ # \"@\" leftover_#",
    "VISIBLE SUM OF #\nMAEK @\nAN YR @\nGIMMEH #\nFOUND YR\nI IZ # YR @",
    "IM IN YR #\nHOW IZ I #\nO RLY @\nWTF #\nIM IN YR @ UPPIN #",
    "@ HAS A slot_# ITZ @\n@ HAS A # ITZ\nSRS @'Z SRS @ HAS A w_# ITZ \"#\"",
    "HAI 1.#\nKTHXBYE, GIMMEH @'Z @, GTFO,, FOUND YR #\nHAI @ # \"#\"",
    "I HAS A @ ITZ YARN, I HAS A w_# ITZ NUMBR, I HAS A v_# ITZ BUKKIT, I HAS A u_# ITZ TROOF",
    "HOW IZ I @\nIM IN YR @\nO RLY?\nYA RLY\nWTF?\nOMG @\nVISIBLE #\n@ @\nOIC\nOIC\nIM OUTTA YR @\nIF U SAY SO",
];

fn dense(template: &str, thread: usize, lines: usize) -> String {
    const WORDS: [&str; 12] = ["hai", "kitteh", "cheezburger", "x", "moar", "lolwut", "b", "ceiling", "basement", "nom", "invisible", "ohai"];
    let mut s = String::new();
    for l in 0..lines {
        // the same words at the same places in no two threads
        s += &template.replace('@', WORDS[(thread + l * 5) % 12]).replace('#', &(1 + thread + l * 16).to_string());
        s.push('\n');
    }
    s
}

/// Threads that do nothing but one construct at the same moment, each with words of its own
fn hammer(seed: u64, millis: u64) -> Result<[u64; 4], String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(4, 12);
    let mut r = Rng::new(seed);
    let dict = Dict::default();
    let (mut calls, mut crowded, mut families) = (0, 0, 0);
    let mut jobs: Vec<Vec<String>> = Vec::new();
    for t in DENSE {
        let lines = *r.pick(&[1, 3, 10, 40, 120]);
        jobs.push((0..threads).map(|i| dense(t, i, lines)).collect());
    }
    // all of them together, and texts of any sort
    jobs.push((0..threads).map(|i| (0..DENSE.len()).map(|k| dense(DENSE[(k + i) % DENSE.len()], i, 2)).collect()).collect());
    for _ in 0..4 {
        jobs.push(pool(&mut r, &dict, threads, 12));
    }
    // deep texts, all at their deepest at about the same time
    let (a, b) = (r.range(20, 250), r.range(100, 1000));
    jobs.push((0..threads).map(|i| format!("{}VISIBLE {i}\n{}", "O RLY?\nYA RLY\n".repeat(a), "OIC\n".repeat(a))).collect());
    jobs.push((0..threads).map(|i| format!("{}VISIBLE {i}\n{}", "IM IN YR l\n".repeat(a), "IM OUTTA YR l\n".repeat(a))).collect());
    jobs.push((0..threads).map(|i| format!("x R {}{i}", "SUM OF x AN NOT ".repeat(b))).collect());
    jobs.push((0..threads).map(|i| format!("x R {}x{}", "DIFF OF ".repeat(b), format!(" AN {i}").repeat(b))).collect());
    // and many threads at one and the same text
    let one = pool(&mut r, &dict, 1, 12).pop().unwrap_or_default();
    jobs.push(vec![one; threads]);
    for texts in jobs {
        families += 1;
        let mut want = Vec::new();
        for t in &texts {
            want.push(results(t).map_err(|f| format!("{}\n{}\n{t}", f.what, f.detail))?);
        }
        let ready = AtomicUsize::new(0);
        let busy = AtomicUsize::new(0);
        let end = std::time::Duration::from_millis(millis);
        let done: Vec<Result<(u64, u64), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|i| {
                    let (texts, want, ready, busy) = (&texts, &want, &ready, &busy);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            ready.fetch_add(1, Ordering::SeqCst);
                            while ready.load(Ordering::SeqCst) < threads {
                                std::hint::spin_loop();
                            }
                            busy.fetch_add(1, Ordering::SeqCst);
                            let start = std::time::Instant::now();
                            let (mut n, mut full) = (0, 0);
                            let out = loop {
                                let now = match results(&texts[i]) {
                                    Ok(x) => x,
                                    Err(f) => break Err(format!("{} while other threads run\n{}\n{}", f.what, f.detail, texts[i])),
                                };
                                if let Err(f) = differs("while other threads run", &texts[i], want[i], now) {
                                    break Err(format!("{}\n{}", f.what, f.detail));
                                }
                                n += 1;
                                full += (busy.load(Ordering::SeqCst) > threads / 2) as u64;
                                if n >= 3 && start.elapsed() > end {
                                    break Ok((n, full));
                                }
                            };
                            busy.fetch_sub(1, Ordering::SeqCst);
                            out
                        })
                        .map_err(|e| e.to_string())
                })
                .collect();
            hs.into_iter()
                .map(|h| h.and_then(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))))
                .collect()
        });
        for d in done {
            let (n, full) = d?;
            calls += n;
            crowded += full;
        }
    }
    Ok([calls, crowded, families, threads as u64])
}

/// The very first calls of a process, made by all its threads at the same moment
fn first_calls(seed: u64) -> Result<u64, String> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let threads = 8;
    let mut r = Rng::new(seed);
    let order = r.below(1000);
    let texts: Vec<String> = (0..threads)
        .map(|i| match order % 3 {
            0 => dense(DENSE[(order + i) % DENSE.len()], i, 1),
            1 => dense(DENSE[order % DENSE.len()], i, 1),
            _ => (0..DENSE.len()).map(|k| dense(DENSE[(k + order) % DENSE.len()], i, 1)).collect(),
        })
        .collect();
    let ready = AtomicUsize::new(0);
    let first: Vec<Result<(u64, u64, u64), Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = texts
            .iter()
            .map(|t| {
                let ready = &ready;
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                    ready.fetch_add(1, Ordering::SeqCst);
                    while ready.load(Ordering::SeqCst) < threads {
                        std::hint::spin_loop();
                    }
                    results(t)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h {
                Ok(h) => h.join().unwrap_or_else(|_| Err(Fail::new("a thread panicked"))),
                Err(e) => Err(Fail::new(e.to_string())),
            })
            .collect()
    });
    for (t, f) in texts.iter().zip(first) {
        let f = f.map_err(|f| format!("{} in the first calls of a process\n{t}", f.what))?;
        let now = results(t).map_err(|f| format!("{}\n{t}", f.what))?;
        differs("in the first calls of a process", t, now, f).map_err(|f| format!("{}\n{}", f.what, f.detail))?;
    }
    Ok(threads as u64)
}

/// Runs a mode of this program that prints counts, or what went wrong after `FAIL`
fn counted_child(args: &[String], st: &mut Stats, names: &[&str]) -> Result<(), Trouble> {
    let out = Command::new(std::env::current_exe().map_err(|e| Trouble::Broken(e.to_string()))?)
        .args(args)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| Trouble::Broken(e.to_string()))?;
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    if let Some(f) = s.strip_prefix("FAIL ") {
        let (what, rest) = f.split_once('\n').unwrap_or((f, ""));
        return Err(Trouble::Fail(Fail::new(what.to_string()), format!("lcmon {}\n{rest}", args.join(" "))));
    }
    if !out.status.success() {
        // the library brought the process down
        return Err(Trouble::Fail(
            Fail::new(format!("threads at the same time: the process ended with {:?}", out.status)),
            format!("lcmon {}", args.join(" ")),
        ));
    }
    for (name, v) in names.iter().zip(s.split_whitespace()) {
        *st.counters.entry(name.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
    }
    Ok(())
}

fn at_the_same_moment(tier: Tier, seed: u64, st: &mut Stats) -> Result<(), Trouble> {
    let quick = tier == Tier::Quick;
    let processes = if quick { 240 } else { 3000 };
    for k in 0..processes {
        let s = mix(seed ^ mix(k + 5000)).to_string();
        counted_child(&["first".into(), s], st, &["first calls of a process, made at the same moment"])?;
    }
    for k in 0..if quick { 1 } else { 8 } {
        let s = mix(seed ^ mix(k + 7000)).to_string();
        counted_child(
            &["hammer".into(), s, if quick { "250" } else { "400" }.into()],
            st,
            &[
                "texts processed in threads doing one construct",
                "of them while most threads were at it",
                "constructs done by all threads at once",
            ],
        )?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// A scaled text, token by token by the lexical rules with true positions, and by the grammar
fn scaled(c: &mut Case, text: &str) -> Res {
    let want = match reflex::lex(text) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let tokens = sut::lex_ok(text)?;
    ensure!(tokens.len() == want.len(), "{} tokens instead of {}", tokens.len(), want.len());
    let l = Lines::new(text);
    for (i, (t, w)) in tokens.iter().zip(&want).enumerate() {
        ensure!(
            kind(t) == w.k,
            "token {i} is {} instead of {}",
            crate::tree::short(&format!("{:?}", kind(t))),
            crate::tree::short(&format!("{:?}", w.k))
        );
        for (p, at) in [(&t.range.0, w.start), (&t.range.1, w.end)] {
            ensure!(
                (p.line, p.column, p.bytes, p.chars) == (l.line[at], l.col[at], l.byte[at], at as i32),
                "token {i} is at line {} column {} byte {} char {}, not {} {} {} {at}",
                p.line, p.column, p.bytes, p.chars, l.line[at], l.col[at], l.byte[at]
            );
        }
    }
    by_the_grammar(c, &tokens)?;
    c.add("tokens of scaled texts", tokens.len() as u64);
    Ok(())
}

fn scaled_dimension(c: &mut Case) -> Res {
    let d = c.index % DIMENSIONS.len();
    let mut r = c.sub();
    let n = match (c.index / DIMENSIONS.len()) % 5 {
        3 => 65537,
        4 => *r.pick(&[131073, 100000, 70000]),
        0 => *r.pick(&[10, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]),
        1 => *r.pick(&[499, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097]),
        _ => *r.pick(&[5000, 8191, 8192, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537]),
    };
    let n = if r.one_in(3) { n + r.below(20) } else { n };
    let text = dimension(d, n);
    c.note(&format!("{n} {}", DIMENSIONS[d].0));
    scaled(c, &text)?;
    c.seen(&format!("{n} {}", DIMENSIONS[d].0), true);
    Ok(())
}

fn scaled_nest(c: &mut Case) -> Res {
    let mut r = c.sub();
    let depth = *r.pick(&[8, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600]);
    let text = nested(&mut r, depth);
    c.note(&text);
    scaled(c, &text)?;
    c.count("nested texts");
    c.add("levels of nesting", depth as u64);
    c.seen(&text, true);
    Ok(())
}

/// A program made of many generated ones
fn scaled_program(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut text = String::new();
    let want = c.size * 800;
    while text.len() < want {
        let size = r.range(3, 60);
        text.push_str(&if r.pct(80) {
            let p = gen::program(&mut r, c.dict, size);
            let st = Style::any(&mut r);
            render(&p.lex, &p.starts, &st, &mut r, c.dict).text
        } else {
            fuzz::any_lexable(&mut r, c.dict, 20)
        });
        text.push('\n');
    }
    c.note(&text);
    scaled(c, &text)?;
    c.seen(&text, true);
    Ok(())
}

/// Allocations of the whole way from a text to a tree and away again, and its peak
fn heap_of(text: &str) -> Result<(i64, u64, u64), Fail> {
    let s = text.to_string();
    let (r, h) = alloc::measure(|| {
        guard("tokenize and parse", move || {
            let tokens = lolcode_ast::tokenize(s);
            if let Ok(t) = tokens {
                let b = lolcode_ast::parse(t);
                b.iter_errors().count()
            } else {
                0
            }
        })
    });
    r?;
    Ok((h.peak, h.total, h.count))
}

/// 8 times the size: about 8 times the memory, in bytes held, requested, and calls made
fn heap_growth(c: &mut Case) -> Res {
    let mut r = c.sub();
    let d = c.index % DIMENSIONS.len();
    let n = r.range(1500, 3000);
    let (a, b) = (dimension(d, n), dimension(d, 8 * n));
    let name = DIMENSIONS[d].0;
    c.note(&format!("{n} and {} {name}", 8 * n));
    let x = heap_of(&a)?;
    let y = heap_of(&b)?;
    // growth by doubling may cost a factor of two at either size
    let ok = |x: u64, y: u64, slack: u64| y <= x * 24 + slack;
    ensure!(
        ok(x.0 as u64, y.0 as u64, 65536),
        "{name}: {} bytes are held for {n}, but {} for {}",
        x.0,
        y.0,
        8 * n
    );
    ensure!(
        ok(x.1, y.1, 65536),
        "{name}: {} bytes are requested for {n}, but {} for {}",
        x.1,
        y.1,
        8 * n
    );
    ensure!(
        ok(x.2, y.2, 1000),
        "{name}: {} allocations are made for {n}, but {} for {}",
        x.2,
        y.2,
        8 * n
    );
    // and not more than a token's worth for each byte
    ensure!(
        y.0 as usize <= 4096 + 1500 * b.len(),
        "{name}: {} bytes are held for a text of {}",
        y.0,
        b.len()
    );
    c.count("memory ratios measured");
    c.seen(&format!("{n} {name} (memory)"), true);
    Ok(())
}

/// What nests: the beginning and the end of a level, and what is innermost
const LEVELS: &[(&str, &str, &str)] = &[
    ("NOT ", "1", ""),
    ("SUM OF ", "1", " AN x"),
    ("SUM OF 1 AN ", "1", ""),
    ("SMOOSH ", "1", " MKAY"),
    ("SMOOSH a AN ", "1", " AN b MKAY"),
    ("ALL OF a ", "1", ""),
    ("HOW IZ I f YR a\n", "1", "\nIF U SAY SO"),
    ("IM IN YR l UPPIN YR i\n", "1", "\nIM OUTTA YR l"),
    ("O RLY?\nYA RLY\n", "1", "\nOIC"),
    ("O RLY?\nMEBBE x\n1\nNO WAI\n", "1", "\nOIC"),
    ("WTF?\nOMG 1\n", "1", "\nOIC"),
    ("WTF?\nOMGWTF\n", "I HAS A 1", "\nOIC"),
    // blocks that are never closed
    ("IM IN YR l\n", "1", ""),
    ("HOW IZ I f\n", "1", ""),
    ("O RLY?\nNO WAI\n", "1", ""),
    ("WTF?\nOMG x\n", "1", ""),
];

/// 8 times the depth: about 8 times the memory, in bytes held and requested, and calls made
fn heap_depth(c: &mut Case) -> Res {
    let mut r = c.sub();
    let (open, mid, close) = LEVELS[c.index % LEVELS.len()];
    let n = r.range(50, 75);
    let text = |n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    c.note(&format!("{n} and {} levels of {open:?}", 8 * n));
    let x = heap_of(&text(n))?;
    let y = heap_of(&text(8 * n))?;
    for (what, x, y) in [("bytes are held", x.0 as u64, y.0 as u64), ("bytes are requested", x.1, y.1), ("allocations are made", x.2, y.2)] {
        ensure!(y <= x * 24 + 20_000, "{open:?} nested: {x} {what} for {n} levels, but {y} for {}", 8 * n);
    }
    c.count("memory ratios of nested texts measured");
    c.seen(&format!("{n} {open} (depth)"), true);
    Ok(())
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread, in seconds
pub fn thread_cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 / 1e9
}

fn time_of(text: &str, runs: usize) -> Result<f64, Fail> {
    let mut best = f64::MAX;
    for _ in 0..runs {
        let s = text.to_string();
        let t0 = thread_cpu();
        guard("tokenize and parse", move || {
            if let Ok(t) = lolcode_ast::tokenize(s) {
                let b = lolcode_ast::parse(t);
                b.iter_errors().count();
            }
        })?;
        best = best.min(thread_cpu() - t0);
        if best > 20.0 {
            break;
        }
    }
    Ok(best)
}

/// 8 times the size: about 8 times the processor time, the best of several runs. Work that grows
/// with the square takes 64 times as long; the verdict is at 30 and has to come up three times.
fn time_growth(c: &mut Case) -> Res {
    let d = c.index % DIMENSIONS.len();
    let (name, _, piece, _) = DIMENSIONS[d];
    // the larger text between 160 kB and a megabyte
    let n = ((if c.tier == Tier::Quick { 40_000 } else { 160_000 }) / piece.len()).clamp(1000, 40_000);
    let (a, b) = (dimension(d, n), dimension(d, 8 * n));
    c.note(&format!("{n} and {} {name}", 8 * n));
    let mut seen = Vec::new();
    for attempt in 0..3 {
        let x = time_of(&a, 4 + 2 * attempt)?.max(0.000_2);
        let y = time_of(&b, 2 + attempt)?;
        seen.push((x, y));
        if y / x <= 30.0 {
            c.count("time ratios measured");
            c.add("microseconds measured", (y * 1e6) as u64);
            if y / x > 16.0 {
                c.count(&format!("time ratio above 16: {name}"));
            }
            c.seen(&format!("{n} {name} (time)"), true);
            return Ok(());
        }
    }
    Err(Fail::new(format!(
        "{name}: 8 times the text takes more than 30 times as long, time and again"
    ))
    .detail(format!("seconds for {n} and {}: {seen:?}", 8 * n)))
}

/// Processor time of parsing a text, and of asking for errors, copying, comparing and dropping its
/// tree: the best of several runs
fn time_of_nest(text: &str, runs: usize) -> Result<(f64, f64), Fail> {
    let mut best = (f64::MAX, f64::MAX);
    for _ in 0..runs {
        let tokens = sut::lex_ok(text)?;
        let t = guard("parsing, copying and comparing", move || {
            let t0 = thread_cpu();
            let b = lolcode_ast::parse(tokens);
            let t1 = thread_cpu();
            b.iter_errors().count();
            let other = b.clone();
            let same = other == b;
            drop(other);
            drop(b);
            (t1 - t0, thread_cpu() - t1 + if same { 0.0 } else { 1e-12 })
        })?;
        best = (best.0.min(t.0), best.1.min(t.1));
        if best.0 + best.1 > 20.0 {
            break;
        }
    }
    Ok(best)
}

/// 8 times the depth: about 8 times the processor time, judged like the size. The stack is large
/// and was used before, so that the first touch of its pages is not counted.
fn time_depth(c: &mut Case) -> Res {
    let mut r = c.sub();
    let (open, mid, close) = LEVELS[c.index % LEVELS.len()];
    let n = r.range(4000, 5000);
    let text = |n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    let (a, b) = (text(n), text(8 * n));
    c.note(&format!("{n} and {} levels of {open:?}", 8 * n));
    let seen = on_stack(2 << 30, move || {
        time_of_nest(&b, 1)?;
        let mut seen = Vec::new();
        for attempt in 0..5 {
            let x = time_of_nest(&a, 4 + 2 * attempt)?;
            let y = time_of_nest(&b, 2 + attempt)?;
            // copies and drops of many small pieces depend on the caches more than parsing does
            let ratio = (y.0 / x.0.max(0.000_2)).max(y.1 / x.1.max(0.000_2) * (30.0 / 45.0));
            seen.push((ratio, x, y));
            if ratio <= 30.0 {
                break;
            }
        }
        Ok(seen)
    })?;
    let last = seen.last().map_or(0.0, |x| x.0);
    if last > 30.0 {
        return Err(Fail::new(format!(
            "{open:?} nested: 8 times the depth takes more than 30 times as long, time and again"
        ))
        .detail(format!("ratio, seconds for {n}, seconds for {}: {seen:?}", 8 * n)));
    }
    c.count("time ratios of nested texts measured");
    if last > 16.0 {
        c.count(&format!("time ratio above 16: {open:?} nested"));
    }
    c.seen(&format!("{n} {open} (time)"), true);
    Ok(())
}

pub const C21: &[Load] = &[
    load("texts scaled in one dimension", (5 * DIMENSIONS.len(), 40 * DIMENSIONS.len()), (1, 1), scaled_dimension),
    load("nested texts", (800, 8000), (1, 1), scaled_nest),
    load("large programs", (120, 1500), (200, 1500), scaled_program),
    load("memory for 8 times the size", (2 * DIMENSIONS.len(), 8 * DIMENSIONS.len()), (1, 1), heap_growth),
    load("memory for 8 times the depth", (48, 400), (1, 1), heap_depth),
    load("time for 8 times the depth", (LEVELS.len(), 6 * LEVELS.len()), (1, 1), time_depth),
    load("time for 8 times the size", (DIMENSIONS.len(), 4 * DIMENSIONS.len()), (1, 1), time_growth),
    load("every length of names, strings, comments, lines", (1200, 6000), (1, 1), |c| {
        let n = c.index;
        let w = "abcdefghijklmnopqrstuvwxyz_0123456789".repeat(n / 37 + 1);
        let w = &w[..n.max(1)];
        let text = format!(
            "{w} R \"{w}\" BTW {w}\n{}VISIBLE x{}\nx\n{w}'Z y BTW\nOBTW{w}TLDR VISIBLE {}!",
            " ".repeat(n),
            "\n".repeat(n % 97),
            "1 ".repeat(n % 300)
        );
        c.note(&text);
        scaled(c, &text)?;
        c.seen(&text, true);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C22

fn whole_life(text: &str) -> usize {
    let tokens = lolcode_ast::tokenize(text.to_string());
    let n = match &tokens {
        Ok(tokens) => {
            for t in tokens {
                assert!(std::str::from_utf8(token_text(t).as_bytes()).is_ok(), "{}", NOT_TEXT);
            }
            let copy = tokens.clone();
            let block = lolcode_ast::parse(copy);
            let n = walk(&block);
            let other = lolcode_ast::tokenize_and_parse(text.to_string());
            let same = other.as_ref().ok() == Some(&block);
            n + same as usize
        }
        Err(e) => format!("{e:?}").len(),
    };
    n
}

fn token_text(t: &Token) -> &str {
    use lolcode_ast::lexer::{TokenType, TokenValue};
    match &t.token_type {
        TokenType::Identifier(s) | TokenType::Symbol(s) | TokenType::CommentSingleLine(s) | TokenType::CommentMultiLine(s) => s,
        TokenType::Value(TokenValue::String(s)) => s,
        _ => "",
    }
}

thread_local! {
    static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static ONE_OFF: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

fn warm_up() {
    if WARM.with(|w| w.replace(true)) {
        return;
    }
    let mut r = Rng::new(99);
    let d = Dict::default();
    for _ in 0..600 {
        let t = fuzz::any_text(&mut r, &d, 20);
        let _ = guard("warming up", || whole_life(&t));
    }
}

/// What is still allocated after a text was processed and all results dropped
fn left_over(f: &dyn Fn() -> usize) -> Result<(i64, usize), Fail> {
    let (r, h) = alloc::measure(|| guard("processing", || f()));
    let n = r?;
    Ok((h.live, n))
}

/// Memory that stays allocated is a leak when it stays again for the same input, or when it stays
/// for input after input (what is set up once and for all is not)
fn leak_free(c: &mut Case, f: &dyn Fn() -> usize) -> Res {
    warm_up();
    let (x, n) = left_over(f)?;
    c.add("things asked of trees", n as u64);
    if x <= 0 {
        c.count("lives without a byte left over");
        return Ok(());
    }
    let (y, _) = left_over(f)?;
    if y > 0 {
        let (z, _) = left_over(f)?;
        ensure!(z <= 0, "memory is left over, time and again: {x}, {y}, {z} bytes");
    }
    let k = ONE_OFF.with(|o| {
        o.set(o.get() + 1);
        o.get()
    });
    ensure!(k < 40, "memory is left over for input after input: {k} times by now, {x} bytes for this one");
    Ok(())
}

fn life_of_text(c: &mut Case, text: &str) -> Res {
    c.note(text);
    let nontrivial = sut::lex(text)?.map_or(true, |t| t.len() > 1);
    leak_free(c, &|| whole_life(text))?;
    c.seen(text, nontrivial);
    Ok(())
}

pub const C22: &[Load] = &[
    load("lives of texts", (30000, 500000), (40, 120), |c| {
        let t = text_any(c);
        life_of_text(c, &t)
    }),
    load("lives of lexical pieces", (20000, 300000), (30, 80), |c| {
        let t = text_chars(c);
        life_of_text(c, &t)
    }),
    load("lives of all short texts", (18279, 18279), (1, 1), |c| {
        let t = text_exhaustive(c);
        life_of_text(c, &t)
    }),
    load("lives of token lists given directly", (12000, 200000), (40, 120), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = lexc::show_all(&tokens);
        c.note(&text);
        leak_free(c, &|| {
            let block = lolcode_ast::parse(tokens.clone());
            walk(&block)
        })?;
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("lives of large texts", (60, 600), (190, 190), |c| {
        let t = text_large(c);
        life_of_text(c, &t)
    }),
    load("lives dropped half way", (10000, 150000), (30, 80), |c| {
        let mut r = c.sub();
        let t = fuzz::any_text(&mut r, c.dict, c.size);
        c.note(&t);
        let k = r.below(40);
        leak_free(c, &|| {
            // iterators dropped before their end, trees taken apart
            let Ok(mut b) = lolcode_ast::tokenize_and_parse(t.clone()) else {
                return 0;
            };
            let n = b.iter_errors().take(k % 5).count();
            while b.0.len() > k {
                b.0.pop_back();
            }
            let c = b.clone();
            drop(b);
            let m = c.iter_errors().count();
            n + m
        })?;
        c.seen(&t, true);
        Ok(())
    }),
];

/// A panic is no matter of memory: the checks that are not run under a sanitizer report it. What is
/// freed while unwinding is watched as well.
fn lived(f: impl FnOnce() -> usize) -> usize {
    // the message of an aborting panic has to be seen, so they all are
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(n) => n,
        Err(e) => {
            if e.downcast_ref::<String>().map_or(false, |s| s.contains(NOT_TEXT)) {
                println!("ERROR: {NOT_TEXT}");
            }
            0
        }
    }
}

const NOT_TEXT: &str = "a token carries text that is not valid UTF-8";

/// The workload of sanitizer and interpreter builds: prints how much it did
fn sanitized(seed: u64, n: usize, size: usize, longest: usize, dict: &Dict) -> i32 {
    let mut r = Rng::new(seed);
    let mut done = 0usize;
    // under Miri this is the time of a clock that counts steps
    let begin = std::time::Instant::now();
    let mut asked = 0usize;
    if seed % 2 == 1 {
        asked += threads_first();
        done += 1;
    }
    let fixed = [
        "HAI 1.2\nI HAS A x ITZ \"é:\"…\" BTW 🐱\nO RLY?\nYA RLY\nVISIBLE x'Z SRS y 1 -2.5!\nNO WAI\nOIC\nKTHXBYE",
        "\"open",
        "OBTW open",
        "1",
        "é",
        "x R …",
        "WTF?\nOMG 1\nGTFO\nOMGWTF\nIM IN YR l UPPIN YR i TIL WIN\nIM OUTTA YR l\nOIC",
        "HOW IZ I f YR a AN YR b\nFOUND YR SUM OF a AN b\nIF U SAY SO\nI IZ f YR 1 AN YR 2 MKAY",
        "SMOOSH 1 AN \"\" AN NOOB AN WIN ...\n FAIL MKAY, ITZ 1",
    ];
    for t in fixed {
        asked += lived(|| whole_life(t));
        done += 1;
    }
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..n {
        if cfg!(miri) && begin.elapsed().as_secs() > 6 * n as u64 {
            break;
        }
        let k = r.range(1, size);
        let mut t = fuzz::any_text(&mut r, dict, k);
        while t.len() > longest {
            t = fuzz::any_text(&mut r, dict, k);
        }
        asked += lived(|| whole_life(&t));
        done += 1;
        let mut tokens = fuzz::api_tokens(&mut r, dict, k);
        tokens.truncate(longest / 5);
        asked += lived(|| {
            let b = lolcode_ast::parse(tokens);
            walk(&b)
        });
        done += 1;
        if texts.len() < (longest / 40).min(8) {
            texts.push(t);
        }
    }
    if longest >= 10000 {
        for d in 0..DIMENSIONS.len() {
            let t = dimension(d, r.range(100, 3000));
            asked += lived(|| whole_life(&t));
            done += 1;
        }
    }
    // the same texts in threads at the same time; tokens made here, parsed and dropped there
    let texts = Arc::new(texts);
    let hs: Vec<_> = (0..3)
        .map(|_| {
            let texts = texts.clone();
            let lists: Vec<_> = texts.iter().filter_map(|t| lolcode_ast::tokenize(t.clone()).ok()).collect();
            std::thread::spawn(move || {
                let mut n = 0;
                for t in texts.iter() {
                    n += lived(|| whole_life(t));
                }
                (n, lists.into_iter().map(lolcode_ast::parse).collect::<Vec<_>>())
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok((n, trees)) => {
                asked += n;
                done += trees.len();
                drop(trees);
            }
            Err(_) => return 1,
        }
    }
    println!("sanitized {done} {asked}");
    0
}

/// The very first calls, in threads at the same time
fn threads_first() -> usize {
    let text = "HAI 1.2\nI HAS A x ITZ \"é:\"::…\" BTW c\nVISIBLE SUM OF 1 AN x'Z y -2.5!\nO RLY?, YA RLY, ?\nOIC\nOBTW d TLDR\nx R ALL OF WIN AN x MKAY";
    let hs: Vec<_> = (0..3).map(|_| std::thread::spawn(move || lived(|| whole_life(text)))).collect();
    hs.into_iter().filter_map(|h| h.join().ok()).sum()
}

/// Runs a build under a sanitizer; its reports are violations, other failures no verdict
fn sanitizer(name: &str, c: &mut Command, reports: &[&str], st: &mut Stats) -> Result<(), Trouble> {
    let out = c.stdin(Stdio::null()).output().map_err(|e| Trouble::Broken(format!("{name}: {e}")))?;
    let text = format!(
        "{}{}",
        String::from_utf8_lossy(&out.stdout),
        String::from_utf8_lossy(&out.stderr)
    );
    if let Some(r) = text.lines().find(|l| reports.iter().any(|r| l.contains(r))) {
        let tail: String = text.chars().take(12000).collect();
        return Err(Trouble::Fail(Fail::new(format!("{name}: {}", r.trim())), tail));
    }
    let line = text.lines().find_map(|l| l.strip_prefix("sanitized "));
    match (out.status.success(), line) {
        (true, Some(l)) => {
            let n: u64 = l.split(' ').next().and_then(|s| s.parse().ok()).unwrap_or(0);
            *st.counters.entry(format!("inputs processed under {name}")).or_insert(0) += n;
            Ok(())
        }
        _ => {
            let tail: String = text.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
            Err(Trouble::Broken(format!("{name} ended with {:?}: {tail}", out.status)))
        }
    }
}

// ---------------------------------------------------------------- outside of the workers

pub enum Trouble {
    Fail(Fail, String),
    Broken(String),
}

/// Observations that need processes of their own
pub fn extra(id: &str, tier: Tier, seed: u64, dir: &Path, known: &[String], dict: &Dict) -> Result<Stats, Trouble> {
    let mut st = Stats::default();
    match id {
        "C01" => {
            deep_probe(&mut st, known)?;
            unoptimised(tier, seed, dict, &mut st)?;
        }
        "C21" => unoptimised(tier, seed, dict, &mut st)?,
        "C20" => {
            fresh_processes(tier, seed, dir, &mut st, dict)?;
            at_the_same_moment(tier, seed, &mut st)?;
        }
        "C22" => {
            let quick = tier == Tier::Quick;
            let words = dict.encode();
            // name of the tool, command, reports
            let mut runs: Vec<(&'static str, Command, &'static [&'static str])> = Vec::new();
            // (name, inputs, size, longest text) for the `san` subcommand
            let args = |seed: u64, n: usize, size: usize, longest: usize| {
                vec!["san".to_string(), seed.to_string(), n.to_string(), size.to_string(), longest.to_string(), words.clone()]
            };
            if let Ok(bin) = std::env::var("LCMON_ASAN") {
                let mut c = Command::new(bin);
                c.args(args(seed, if quick { 8000 } else { 120000 }, 25, 20000));
                c.env("ASAN_OPTIONS", "detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1");
                runs.push((
                    "AddressSanitizer with leak detection",
                    c,
                    &["ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "unsafe precondition", "ERROR: a token"],
                ));
            }
            if let Ok(bin) = std::env::var("LCMON_TSAN") {
                for k in 0..2 {
                    let mut c = Command::new(&bin);
                    c.args(args(seed.wrapping_mul(2) + k, if quick { 1500 } else { 30000 }, 20, 20000));
                    c.env("TSAN_OPTIONS", "halt_on_error=1");
                    runs.push(("ThreadSanitizer", c, &["WARNING: ThreadSanitizer", "unsafe precondition", "ERROR: a token"]));
                }
            }
            // values read before they are written
            let me = std::env::current_exe().map_err(|e| Trouble::Broken(e.to_string()))?;
            let mut c = Command::new("valgrind");
            c.args(["--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=30", "-q", "--main-stacksize=67108864"]);
            c.arg(me).args(args(seed, if quick { 1500 } else { 9000 }, 15, 5000));
            runs.push((
                "Memcheck",
                c,
                &["uninitialised value", "Invalid read", "Invalid write", "Invalid free", "Mismatched free", "unsafe precondition", "ERROR: a token"],
            ));
            if let Ok(m) = std::env::var("LCMON_MIRI") {
                for k in 0..8 {
                    let mut c = Command::new("sh");
                    let n = if quick { 10 } else { 150 };
                    c.arg("-c").arg(format!("{m} san {} {n} 4 120 '{words}'", seed.wrapping_mul(32) + k));
                    c.env("MIRIFLAGS", format!("-Zmiri-seed={k}"));
                    runs.push(("Miri", c, &["Undefined Behavior", "memory leaked", "unsafe precondition", "Data race", "ERROR: a token"]));
                }
            }
            let hs: Vec<_> = runs
                .into_iter()
                .map(|(name, mut c, reports)| {
                    std::thread::spawn(move || {
                        let mut st = Stats::default();
                        sanitizer(name, &mut c, reports, &mut st).map(|_| st)
                    })
                })
                .collect();
            let mut trouble = None;
            for h in hs {
                match h.join() {
                    Ok(Ok(s)) => {
                        for (k, v) in s.counters {
                            *st.counters.entry(k).or_insert(0) += v;
                        }
                    }
                    Ok(Err(t)) => {
                        if trouble.is_none() || matches!(t, Trouble::Fail(..)) {
                            trouble = Some(t);
                        }
                    }
                    Err(_) => trouble = Some(trouble.unwrap_or(Trouble::Broken("a sanitizer run".into()))),
                }
            }
            if let Some(t) = trouble {
                return Err(t);
            }
        }
        _ => {}
    }
    Ok(st)
}

const DEEP: &str = "200000 nested operators (\"NOT \" repeated, then WIN) overflow an 8 MB stack";

fn deep_probe(st: &mut Stats, known: &[String]) -> Result<(), Trouble> {
    let out = Command::new(std::env::current_exe().map_err(|e| Trouble::Broken(e.to_string()))?)
        .args(["deep", "200000"])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .stdout(Stdio::null())
        .status()
        .map_err(|e| Trouble::Broken(e.to_string()))?;
    *st.counters.entry("very deep texts tried".into()).or_insert(0) += 1;
    if out.success() {
        return Ok(());
    }
    let what = DEEP.to_string();
    if known.contains(&what) {
        *st.known.entry(what).or_insert(0) += 1;
        return Ok(());
    }
    Err(Trouble::Fail(Fail::new(what), "\"NOT \" * 200000 + \"WIN\"".into()))
}

/// As users debug it: the library compiled without optimisation, where a frame is large and a
/// recursion is one. Long flat texts on 2 MB, nested ones on 8 MB.
fn unoptimised(tier: Tier, seed: u64, dict: &Dict, st: &mut Stats) -> Result<(), Trouble> {
    let Ok(bin) = std::env::var("LCMON_O0") else {
        return Ok(());
    };
    let workers = 8;
    let rounds = if tier == Tier::Quick { "1" } else { "6" };
    let hs: Vec<_> = (0..workers)
        .map(|me| {
            let (bin, words) = (bin.clone(), dict.encode());
            std::thread::spawn(move || {
                Command::new(bin)
                    .args(["plain", &seed.to_string(), &me.to_string(), &workers.to_string(), rounds, &words])
                    .stdin(Stdio::null())
                    .output()
            })
        })
        .collect();
    for h in hs {
        let out = match h.join() {
            Ok(Ok(out)) => out,
            _ => return Err(Trouble::Broken("the unoptimised build does not start".into())),
        };
        let said = String::from_utf8_lossy(&out.stdout).to_string();
        let last = said.lines().last().unwrap_or("").to_string();
        if let Some(n) = last.strip_prefix("done ") {
            *st.counters.entry("texts processed by an unoptimised build".into()).or_insert(0) += n.parse().unwrap_or(0);
            continue;
        }
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let why = ["overflowed its stack", "panicked"].iter().find(|w| err.contains(*w));
        match (why, last.strip_prefix("text ")) {
            (Some(why), Some(text)) => {
                let err: String = err.chars().take(2000).collect();
                return Err(Trouble::Fail(Fail::new(format!("without optimisation: a thread {why} on {text}")), err));
            }
            _ => return Err(Trouble::Broken(format!("the unoptimised build ended with {:?}: {}", out.status, last))),
        }
    }
    Ok(())
}

fn plain(seed: u64, me: usize, workers: usize, rounds: usize, dict: &Dict) -> i32 {
    use std::io::Write;
    let mut done = 0usize;
    let mut run = |what: String, stack: usize, text: String| -> bool {
        println!("text {what}");
        let _ = std::io::stdout().flush();
        let ok = on_stack(stack, move || {
            guard("", || {
                let b = lolcode_ast::tokenize_and_parse(text);
                if let Ok(b) = &b {
                    let n = b.iter_errors().count();
                    let copy = b.clone();
                    assert!(copy == *b || n > 0);
                }
            })
        })
        .is_ok();
        done += 1;
        if !ok {
            eprintln!("panicked");
        }
        ok
    };
    for round in 0..rounds {
        let mut r = Rng::new(mix(seed ^ mix((round * workers + me) as u64 + 31)));
        for d in 0..DIMENSIONS.len() {
            if d % workers == me {
                let n = if round == 0 { 65537 } else { r.range(1000, 140000) };
                if !run(format!("{} {n} times", DIMENSIONS[d].0), 2 << 20, dimension(d, n)) {
                    return 1;
                }
            }
        }
        for k in 0..40 {
            let depth = r.range(1, 250);
            if !run(format!("nested text {k} of {round} {me}, {depth} levels"), 8 << 20, nested(&mut r, depth)) {
                return 1;
            }
        }
        for k in 0..60 {
            let t = fuzz::any_text(&mut r, dict, 60);
            if !run(format!("text {k} of {round} {me}"), 2 << 20, t) {
                return 1;
            }
        }
    }
    println!("done {done}");
    0
}

/// Subcommands of child processes
pub fn command(sub: &str, rest: &[&str]) -> Option<i32> {
    match (sub, rest) {
        ("digest", [seed, n, mode, words]) => {
            let dict = Dict::decode(words);
            let (seed, n, mode) = (seed.parse().ok()?, n.parse().ok()?, mode.to_string());
            Some(crate::run::on_big_stack(move || {
                for (i, s) in digest(seed, n, &mode, &dict) {
                    println!("{i} {s}");
                }
                0
            }))
        }
        ("hammer", [seed, millis]) => {
            let (seed, millis) = (seed.parse().ok()?, millis.parse().ok()?);
            Some(crate::run::on_big_stack(move || {
                match hammer(seed, millis) {
                    Ok(n) => println!("{} {} {} {}", n[0], n[1], n[2], n[3]),
                    Err(e) => println!("FAIL {e}"),
                }
                0
            }))
        }
        ("first", [seed]) => {
            match first_calls(seed.parse().ok()?) {
                Ok(n) => println!("{n}"),
                Err(e) => println!("FAIL {e}"),
            }
            Some(0)
        }
        ("deep", [n]) => {
            let n: usize = n.parse().ok()?;
            let text = format!("{}WIN", "NOT ".repeat(n));
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let b = lolcode_ast::tokenize_and_parse(text);
                    b.is_ok()
                })
                .ok()?;
            Some(h.join().map_or(101, |ok| !ok as i32))
        }
        ("plain", [seed, me, workers, rounds, words]) => Some(plain(
            seed.parse().ok()?,
            me.parse().ok()?,
            workers.parse().ok()?,
            rounds.parse().ok()?,
            &Dict::decode(words),
        )),
        ("san", [seed, n, size, longest, words @ ..]) => {
            let dict = Dict::decode(words.first().unwrap_or(&""));
            Some(sanitized(seed.parse().ok()?, n.parse().ok()?, size.parse().ok()?, longest.parse().ok()?, &dict))
        }
        ("dict", []) => {
            let d = mine(Path::new("/repo/src"));
            println!("{} numbers, {} strings, {} words: {:?} {:?} {:?}", d.ints.len(), d.strings.len(), d.words.len(), d.ints, d.floats, d.strings);
            Some(0)
        }
        _ => None,
    }
}

#[allow(dead_code)]
pub fn live() -> i64 {
    alloc::LIVE.load(Relaxed)
}
