//! Workloads that are not programs: soups of characters and tokens, damaged programs, and token
//! lists no text has.
use crate::dict::Dict;
use crate::gen::{self, Lex, Prog, ODD_CHARS};
use crate::kinds::{kw_value, type_of, K, KW};
use crate::layout::{render, Style};
use crate::rng::Rng;
use lolcode_ast::lexer::{Keywords, Position, Token, TokenType};

/// A lexeme of any sort, those that open statements favoured
pub fn any_lexeme(rng: &mut Rng, dict: &Dict, size: usize) -> Lex {
    match rng.below(20) {
        0..=2 => {
            let n = gen::name(rng, dict, size.min(10));
            Lex {
                text: n.clone(),
                k: K::Ident(n),
            }
        }
        3..=4 => gen::literal(rng, dict, size.min(6)),
        5 => Lex {
            text: "'Z".into(),
            k: K::Slot,
        },
        6 => Lex {
            text: "!".into(),
            k: K::Excl,
        },
        7 => Lex {
            text: "?".into(),
            k: K::Quest,
        },
        8 => {
            let c = *rng.pick(&['+', '-', '*', '/', '(', ')', '=', ';', '#', '@', ':', '\'', '.', '[', '}', '~', '\\', 'é', '中', '🐱']);
            Lex {
                text: c.to_string(),
                k: K::Sym(c.to_string()),
            }
        }
        9..=11 => gen::kwlex(rng.pick(&[
            "AN", "MKAY", "YR", "ITZ", "R", "HAS A", "SRS", "A", "TIL", "WILE", "UPPIN", "NERFIN",
            "NUMBR", "YARN", "AN", "MKAY", "R", "YR",
        ])),
        12..=14 => gen::kwlex(rng.pick(&[
            "I HAS A", "VISIBLE", "GIMMEH", "FOUND YR", "GTFO", "HAI", "KTHXBYE", "I IZ", "IM IN YR",
            "HOW IZ I", "O RLY", "WTF", "YA RLY", "NO WAI", "MEBBE", "OIC", "OMG", "OMGWTF",
            "IM OUTTA YR", "IF U SAY SO",
        ])),
        15..=17 => gen::kwlex(rng.pick(&[
            "SUM OF", "DIFF OF", "NOT", "ALL OF", "ANY OF", "SMOOSH", "BOTH SAEM", "BOTH OF",
            "DIFFRINT", "EITHER OF", "WON OF", "MOD OF", "BIGGR OF", "SMALLR OF", "PRODUKT OF",
            "QUOSHUNT OF",
        ])),
        _ => loop {
            let i = rng.below(KW.len());
            if crate::kinds::lexes_as_keyword(i) {
                break Lex {
                    text: KW[i].1.into(),
                    k: K::Kw(i),
                };
            }
        },
    }
}

/// Damages a program: lexemes dropped, doubled, swapped, replaced, inserted; statements joined, split
pub fn damage(p: &Prog, rng: &mut Rng, dict: &Dict) -> (Vec<Lex>, Vec<usize>) {
    // lexemes with the mark "starts a statement"
    let mut v: Vec<(Lex, bool)> = p
        .lex
        .iter()
        .enumerate()
        .map(|(i, l)| (l.clone(), p.starts.contains(&i)))
        .collect();
    let n = *rng.pick(&[1, 1, 1, 2, 3, 5]);
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let i = rng.below(v.len());
        match rng.below(12) {
            11 => {
                // one name becomes another that looks like it, or a name somewhere else
                let ids: Vec<usize> = (0..v.len()).filter(|j| matches!(v[*j].0.k, K::Ident(_))).collect();
                if !ids.is_empty() {
                    let (to, from) = (*rng.pick(&ids), *rng.pick(&ids));
                    let old = v[from].0.text.clone();
                    let s = if rng.pct(30) { old } else { gen::near(rng, &old) };
                    v[to].0 = Lex { text: s.clone(), k: K::Ident(s) };
                }
            }
            0 | 1 => {
                let (_, s) = v.remove(i);
                if s && i < v.len() && rng.pct(70) {
                    v[i].1 = true;
                }
            }
            2 => {
                let mut x = v[i].clone();
                x.1 = false;
                v.insert(i + 1, x);
            }
            3 => {
                let j = rng.below(v.len());
                let (a, b) = (v[i].0.clone(), v[j].0.clone());
                v[i].0 = b;
                v[j].0 = a;
            }
            4 | 5 => v[i].0 = any_lexeme(rng, dict, 6),
            6 | 7 => {
                let l = any_lexeme(rng, dict, 6);
                v.insert(i, (l, false));
                if v.len() > i + 1 && v[i + 1].1 {
                    v[i].1 = true;
                    v[i + 1].1 = rng.pct(30);
                }
            }
            8 => v[i].1 = !v[i].1,
            9 => v.truncate(i + 1),
            _ => {
                // a whole statement dropped, or moved
                let from = (0..=i).rev().find(|j| v[*j].1).unwrap_or(0);
                let to = (i + 1..v.len()).find(|j| v[*j].1).unwrap_or(v.len());
                let part: Vec<_> = v.drain(from..to).collect();
                if rng.pct(50) && !v.is_empty() {
                    let starts: Vec<usize> = (0..v.len()).filter(|j| v[*j].1).collect();
                    let at = if starts.is_empty() { 0 } else { *rng.pick(&starts) };
                    for (o, x) in part.into_iter().enumerate() {
                        v.insert(at + o, x);
                    }
                }
            }
        }
    }
    let starts = (0..v.len()).filter(|i| v[*i].1).collect();
    (v.into_iter().map(|x| x.0).collect(), starts)
}

/// A text that mostly looks like a program but need not be one
pub fn damaged_text(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let p = gen::program(rng, dict, size);
    let (lex, starts) = damage(&p, rng, dict);
    let st = Style::any(rng);
    render(&lex, &starts, &st, rng, dict).text
}

/// Lexemes in any order
pub fn soup(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let n = rng.range(0, size.max(1) * 2);
    let mut lex = Vec::new();
    let mut starts = Vec::new();
    for i in 0..n {
        if rng.one_in(4) {
            starts.push(i);
        }
        lex.push(any_lexeme(rng, dict, size));
    }
    let st = Style::any(rng);
    render(&lex, &starts, &st, rng, dict).text
}

/// Pieces of lexical interest in any order, blanks between them or not
pub fn chars(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let n = rng.range(0, size.max(1) * 3);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(30) {
            0..=4 => s.push(' '),
            5 | 6 => s.push('\n'),
            7 => s.push_str(rng.pick(&["\t", "\r", "\r\n", "  ", " \n "])),
            8..=10 => s.push_str(rng.pick(KW).1),
            11 => {
                let w: Vec<&str> = rng.pick(KW).1.split(' ').collect();
                s.push_str(rng.pick(&w));
            }
            12 => s.push_str(&gen::name(rng, dict, size.min(12))),
            13 => s.push_str(&gen::literal(rng, dict, size.min(12)).text),
            14 => s.push_str(rng.pick(&["...", "..", ".", "…", "....", "1.", ".5", "1...", "+", "-", "--", "+-1", "-.", "1.2.3", "0", "00", "1e5", "0x1F", "1_000"])),
            15 => s.push_str(rng.pick(&["\"", ":\"", "::", ":", "\"\"", "\":\"\"", "\"::\"", "\":\"", "\"a:", ":)"])),
            16 => s.push_str(rng.pick(&["BTW", "OBTW", "TLDR", "OBTW x TLDR", "BTW x\n", "OBTWTLDR", "TLD", "OBTW TLDTLDR", "obtw"])),
            17 => s.push_str(rng.pick(&["'Z", "'", "'z", "''Z", "'ZZ", "Z"])),
            18 => s.push_str(rng.pick(&[",", "!", "?", ",,", "!?", "?!"])),
            19 | 20 => s.push(*rng.pick(ODD_CHARS)),
            21 => s.push(char::from_u32(rng.below(0x3000) as u32).unwrap_or('x')),
            22 => s.push((32 + rng.below(95)) as u8 as char),
            23 => s.push(*rng.pick(&['A', 'B', 'I', 'O', 'T', 'a', '_', 'Z', '0', '9'])),
            24 => s.push_str(rng.pick(&["WIN", "FAIL", "NOOB", "WINx", "xWIN", "FAIL_", "NOOB1", "WIN\"", "NOOB,"])),
            25 => {
                if !dict.strings.is_empty() {
                    s.push_str(&rng.pick(&dict.strings).clone());
                }
            }
            26 => {
                // half a keyword
                let k = rng.pick(KW).1;
                let n = rng.range(1, k.len());
                s.push_str(&k[..n]);
            }
            27 => s.push_str(&rng.pick(KW).1.replace(' ', rng.pick(&["  ", "\t", "\n", "_", ""]))),
            28 => s.push((rng.below(128) as u8) as char),
            _ => s.push_str(rng.pick(&["a", "b", "x1", "SUM OF 1 AN 2"])),
        }
    }
    s
}

/// Characters of a text dropped, doubled, replaced, moved
pub fn mutate(text: &str, rng: &mut Rng, dict: &Dict) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..rng.range(1, 4) {
        let i = rng.below(cs.len() + 1);
        match rng.below(8) {
            0 | 1 if i < cs.len() => {
                cs.remove(i);
            }
            2 if i < cs.len() => {
                let c = cs[i];
                cs.insert(i, c);
            }
            3 => cs.truncate(i),
            4 => {
                cs.drain(..i);
            }
            5 => {
                let s = chars(rng, dict, 1);
                for (o, c) in s.chars().enumerate() {
                    cs.insert(i + o, c);
                }
            }
            _ => {
                let c = *rng.pick(&['\n', ' ', '"', ':', ',', '.', '\'', 'A', '0', '…', 'é', '\r', '!', '?', '_']);
                cs.insert(i, c);
            }
        }
    }
    cs.into_iter().collect()
}

/// A text of any sort
pub fn any_text(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    match rng.below(10) {
        0..=2 => {
            let p = gen::program(rng, dict, size);
            let st = Style::any(rng);
            render(&p.lex, &p.starts, &st, rng, dict).text
        }
        3 | 4 => damaged_text(rng, dict, size),
        5 => soup(rng, dict, size),
        6 | 7 => chars(rng, dict, size),
        8 => {
            let t = damaged_text(rng, dict, size);
            mutate(&t, rng, dict)
        }
        _ => {
            let p = gen::program(rng, dict, size);
            let st = Style::any(rng);
            let t = render(&p.lex, &p.starts, &st, rng, dict).text;
            mutate(&t, rng, dict)
        }
    }
}

/// As `any_text`, with every multi-line comment closed
pub fn any_lexable(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let mut t = any_text(rng, dict, size);
    if crate::reflex::lex(&t).is_err() {
        t.push_str("TLDR");
    }
    t
}

/// Tokens given to the parser directly, with positions and kinds the lexer need not produce.
/// Byte offsets are distinct, so that tokens can be told apart.
pub fn api_tokens(rng: &mut Rng, dict: &Dict, size: usize) -> Vec<Token> {
    let mut kinds: Vec<(K, bool)> = Vec::new();
    if rng.pct(50) {
        let p = gen::program(rng, dict, size);
        let (lex, starts) = if rng.pct(50) {
            damage(&p, rng, dict)
        } else {
            (p.lex, p.starts)
        };
        for (i, l) in lex.into_iter().enumerate() {
            kinds.push((l.k, starts.contains(&i)));
        }
    } else {
        for _ in 0..rng.below(size * 2 + 1) {
            let l = any_lexeme(rng, dict, size.min(6));
            let s = rng.one_in(4);
            kinds.push((l.k, s));
        }
    }
    let mode = rng.below(4);
    let mut line = *rng.pick(&[1, 1, 1, 0, -3, 1000000, i32::MAX - 1000000]);
    let mut col = 1;
    let mut out: Vec<Token> = Vec::new();
    let mut bytes = 0;
    let push = |out: &mut Vec<Token>, tt: TokenType, line: i32, end: i32, col: i32, bytes: i32| {
        let pos = |line, column, bytes| Position {
            line,
            column,
            bytes,
            chars: bytes,
        };
        out.push(Token {
            token_type: tt,
            range: (pos(line, col, bytes), pos(end, col + 1, bytes + 1)).into(),
        });
    };
    for (k, start) in kinds {
        if start && !out.is_empty() {
            if rng.pct(25) {
                push(&mut out, TokenType::Comma, line, line, col, bytes);
                bytes += 2;
                col += 2;
            } else {
                line += if rng.one_in(5) { rng.range(1, 9) as i32 } else { 1 };
                col = 1;
            }
        }
        if rng.one_in(25) {
            push(&mut out, TokenType::Ellipsis, line, line, col, bytes);
            bytes += 2;
            if rng.pct(80) {
                line += 1;
            }
        }
        if rng.one_in(30) {
            let t = *rng.pick(&["x", "", "y\nz"]);
            let end = line + t.matches('\n').count() as i32;
            let tt = if t.len() == 1 {
                TokenType::CommentSingleLine(t.into())
            } else {
                TokenType::CommentMultiLine(t.into())
            };
            push(&mut out, tt, line, end, col, bytes);
            bytes += 2;
        }
        let mut tt = type_of(&k);
        if rng.one_in(25) {
            tt = rng
                .pick(&[
                    TokenType::Keyword(Keywords::NOOB),
                    TokenType::Keyword(Keywords::WIN),
                    TokenType::Keyword(Keywords::FAIL),
                    TokenType::Keyword(Keywords::BTW),
                    TokenType::Keyword(Keywords::OBTW),
                    TokenType::Symbol("?".into()),
                    TokenType::Symbol("".into()),
                    TokenType::Identifier("".into()),
                    TokenType::Keyword(kw_value(rng.clone().below(KW.len()))),
                ])
                .clone();
        }
        let mut end = line;
        match mode {
            1 if rng.one_in(10) => end = line + rng.range(0, 3) as i32,
            2 if rng.one_in(12) => line += rng.below(5) as i32 - 2,
            3 if rng.one_in(6) => {
                end = line + rng.below(4) as i32 - 1;
            }
            _ => {}
        }
        push(&mut out, tt, line, end, col, bytes);
        bytes += 2;
        col += 2;
        line = if mode == 3 { line } else { end.max(line) };
    }
    out
}
