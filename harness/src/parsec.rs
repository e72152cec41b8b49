//! Monitors of the parser: C08 to C19, C23.
use crate::case::{load, Case, Load};
use crate::ensure;
use crate::fuzz;
use crate::gen::{self, kwlex, Blk, Gen, Lex, Prog, Simple, BINARY, BLOCKS, NARY, SIMPLE, TYPES};
use crate::kinds::{kind, K};
use crate::layout::{render, Laid, Style};
use crate::lexc::show_all;
use crate::refparse::{self, PTok};
use crate::rng::Rng;
use crate::sut::{self, guard, Fail, Res};
use crate::tree::{self, diff, index, namer, same_position, It, Ix, Nd};
use lolcode_ast::lexer::Token;
use lolcode_ast::parser::verif_hooks as hooks;
use lolcode_ast::parser::ASTBlock;
use std::collections::HashMap;

pub fn ptoks(tokens: &[Token]) -> Vec<PTok> {
    tokens
        .iter()
        .map(|t| PTok {
            k: kind(t),
            start_line: t.range.0.line,
            end_line: t.range.1.line,
        })
        .collect()
}

pub fn kinds(tokens: &[Token]) -> Vec<K> {
    tokens.iter().map(kind).collect()
}

/// Parses, and numbers the tokens of the tree
pub fn tree_of(tokens: &[Token]) -> Result<Nd, Fail> {
    let block = sut::parse(tokens)?;
    index(&block, tokens)
}

fn compare(want: &Nd, got: &Nd, ks: &[K]) -> Res {
    match diff(want, got, &namer(ks)) {
        None => Ok(()),
        Some(d) => Err(Fail::new(d)),
    }
}

/// Tokenizes a text of known lexemes; gives for each token the lexeme it is
fn lexemes(laid: &Laid) -> Result<(Vec<Token>, Vec<Option<Ix>>), Fail> {
    let tokens = sut::lex_ok(&laid.text)?;
    let mut map = Vec::new();
    for i in 0..tokens.len().max(laid.toks.len()) {
        let want = laid.toks.get(i);
        let got = tokens.get(i).map(kind);
        if want.map(|w| &w.0) != got.as_ref() {
            let name = |k: Option<&K>| k.map_or("nothing".into(), tree::show_kind);
            return Err(Fail::new(format!(
                "token {i} was written as {} but is read as {}",
                name(want.map(|w| &w.0)),
                name(got.as_ref())
            ))
            .detail(show_all(&tokens)));
        }
        map.push(laid.toks[i].1);
    }
    Ok((tokens, map))
}

/// The tree of a text, over the lexemes it was made from
fn tree_over_lexemes(laid: &Laid) -> Result<Nd, Fail> {
    let (tokens, map) = lexemes(laid)?;
    let t = tree_of(&tokens)?;
    let n = map.len();
    Ok(t.map(&|i| map[i].unwrap_or(usize::MAX - n + i)))
}

fn stat_tree(c: &mut Case, t: &Nd) {
    if c.quiet {
        return;
    }
    let st = &mut *c.st;
    t.count(&mut |k| match st.counters.get_mut(k) {
        Some(n) => *n += 1,
        None => {
            st.counters.insert(k.to_string(), 1);
        }
    });
}

fn has_errors(t: &Nd) -> bool {
    let mut v = Vec::new();
    t.errors(&mut v);
    !v.is_empty()
}

/// Lexemes of a program, damaged or not, or in any order
fn lexeme_list(c: &mut Case) -> (Vec<Lex>, Vec<Ix>) {
    let mut r = c.sub();
    match r.below(10) {
        0..=4 => {
            let p = gen::program(&mut r, c.dict, c.size);
            (p.lex, p.starts)
        }
        5..=8 => {
            let p = gen::program(&mut r, c.dict, c.size);
            fuzz::damage(&p, &mut r, c.dict)
        }
        _ => {
            let n = r.range(0, c.size * 2);
            let mut lex = Vec::new();
            let mut starts = Vec::new();
            for i in 0..n {
                if r.one_in(4) {
                    starts.push(i);
                }
                lex.push(fuzz::any_lexeme(&mut r, c.dict, c.size.min(8)));
            }
            (lex, starts)
        }
    }
}

/// At least so many lexemes: programs and damaged programs, one after the other
fn many_lexemes(r: &mut Rng, c: &Case, want: usize) -> (Vec<Lex>, Vec<Ix>) {
    let (mut lex, mut starts) = (Vec::new(), Vec::new());
    let damaged = r.pct(40);
    while lex.len() < want {
        let size = r.range(3, 60);
        let p = gen::program(r, c.dict, size);
        let (l, s) = if damaged && r.pct(30) { fuzz::damage(&p, r, c.dict) } else { (p.lex, p.starts) };
        let at = lex.len();
        if !l.is_empty() && s.first() != Some(&0) {
            starts.push(at);
        }
        starts.extend(s.iter().map(|i| i + at));
        lex.extend(l);
    }
    (lex, starts)
}

/// How many, for the loads of few and large cases: the largest first
fn huge_size(c: &mut Case, each: usize) -> usize {
    let all = gen::HUGE_SIZES;
    let n = all[(c.index / each) % all.len()];
    if c.index / each >= all.len() {
        n + c.rng.below(100)
    } else {
        n
    }
}

fn restyled_huge(c: &mut Case, style: fn(&mut Rng) -> Style) -> Res {
    let n = huge_size(c, 1);
    let mut r = c.sub();
    let (lex, starts) = many_lexemes(&mut r, c, n);
    restyled_lexemes(c, &lex, &starts, style)
}

// ---------------------------------------------------------------- C08, C09, C10

/// The same lexemes and statements, written plainly and in a style: the same tree
fn restyled(c: &mut Case, style: fn(&mut Rng) -> Style) -> Res {
    let (lex, starts) = lexeme_list(c);
    restyled_lexemes(c, &lex, &starts, style)
}

fn restyled_lexemes(c: &mut Case, lex: &[Lex], starts: &[Ix], style: fn(&mut Rng) -> Style) -> Res {
    let mut r = c.sub();
    let plain = render(lex, starts, &Style::plain(), &mut r, c.dict);
    c.note(&plain.text);
    let want = tree_over_lexemes(&plain)?;
    let st = style(&mut r);
    let other = render(lex, starts, &st, &mut r, c.dict);
    let both = format!("{}\n--- and in another layout ---\n{}", plain.text, other.text);
    c.note(&both);
    let got = tree_over_lexemes(&other)?;
    let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
    compare(&want, &got, &ks)?;
    stat_tree(c, &got);
    let layout = other.toks.iter().filter(|t| t.1.is_none()).count() as u64;
    c.add("layout tokens added", layout);
    let errors = has_errors(&got);
    c.count(if errors { "pairs of texts with errors" } else { "pairs of texts without errors" });
    c.seen(&other.text, plain.text != other.text && lex.len() > 2);
    Ok(())
}

/// Any text: its tokens with comments put between, after or on lines of their own, at every place
/// where a comment may stand
fn comments_in_text(c: &mut Case) -> Res {
    let mut r = c.sub();
    let text = fuzz::any_lexable(&mut r, c.dict, c.size);
    c.note(&text);
    let tokens = sut::lex_ok(&text)?;
    let want = tree_of(&tokens)?;
    // an open string reaches to the end: nothing can be put behind it
    let mut out = String::new();
    let mut at = 0usize;
    let mut added = 0;
    let odds = *r.pick(&[2usize, 5, 12]);
    for (i, t) in tokens.iter().enumerate() {
        let (s, e) = (t.range.0.bytes as usize, t.range.1.bytes as usize);
        if e > text.len() || s < at || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Err(Fail::new("token positions are not those of the text"));
        }
        let gap = &text[at..s];
        if i > 0 && gap.contains('\n') && r.one_in(odds) {
            // at the end of the line, then perhaps on lines of their own
            let body = gen::prose(&mut r, c.dict, 5, false);
            match r.below(4) {
                0 => out.push_str(&format!(" BTW {body}")),
                1 => out.push_str(&format!(" OBTW {} TLDR", clean(&body))),
                2 => out.push_str(&format!(" OBTW {}\n\n TLDR", clean(&body))),
                _ => out.push_str(&format!("\nBTW {body}")),
            }
            added += 1;
            out.push_str(gap);
            if r.one_in(3) {
                out.push_str(&format!("OBTW {}\nTLDR ", clean(&body)));
            }
        } else if i > 0 && !gap.is_empty() && r.one_in(odds) {
            let body = gen::prose(&mut r, c.dict, 3, false);
            out.push_str(&format!(" OBTW {} TLDR{gap}", clean(&body)));
            added += 1;
        } else {
            out.push_str(gap);
        }
        out.push_str(&text[s..e]);
        at = e;
    }
    out.push_str(&text[at..]);
    let tokens2 = match crate::reflex::lex(&out) {
        Ok(_) => {
            c.note(&format!("{text}\n--- and with comments ---\n{out}"));
            sut::lex_ok(&out)?
        }
        Err(_) => return Ok(()),
    };
    let real = |ts: &[Token]| -> Vec<Ix> {
        (0..ts.len()).filter(|i| !kind(&ts[*i]).is_comment()).collect()
    };
    let (ra, rb) = (real(&tokens), real(&tokens2));
    let ks = kinds(&tokens);
    let ka: Vec<K> = ra.iter().map(|i| ks[*i].clone()).collect();
    let kb: Vec<K> = rb.iter().map(|i| kind(&tokens2[*i])).collect();
    if ka != kb {
        // putting a blank between may join or split words; only the reference lexer may say so
        let refk: Vec<K> = crate::reflex::lex(&out)
            .map(|v| v.into_iter().map(|t| t.k).filter(|k| !k.is_comment()).collect())
            .unwrap_or_default();
        if refk != ka {
            c.count("left out: adding comments changed the words");
            return Ok(());
        }
        return Err(Fail::new("the comments changed other tokens").detail(show_all(&tokens2)));
    }
    let back: HashMap<Ix, Ix> = rb.iter().copied().zip(ra.iter().copied()).collect();
    let got = tree_of(&tokens2)?.map(&|i| back.get(&i).copied().unwrap_or(usize::MAX));
    compare(&want, &got, &ks)?;
    c.add("comments put into texts", added);
    c.seen(&out, added > 0);
    Ok(())
}

fn clean(s: &str) -> String {
    let mut s = s.to_string();
    while s.contains("TLDR") {
        s = s.replace("TLDR", "tldr");
    }
    s
}

/// One statement, a comment at each single place in turn
fn comment_each_place(c: &mut Case) -> Res {
    let mut r = c.sub();
    let size = c.size;
    let p = gen::program(&mut r, c.dict, size);
    if p.lex.is_empty() {
        return Ok(());
    }
    let plain = render(&p.lex, &p.starts, &Style::plain(), &mut r, c.dict);
    c.note(&plain.text);
    let want = tree_over_lexemes(&plain)?;
    compare(&p.tree, &want, &p.kinds())?;
    let places: Vec<Ix> = if p.lex.len() <= 12 {
        (0..=p.lex.len()).collect()
    } else {
        (0..10).map(|_| r.below(p.lex.len() + 1)).collect()
    };
    for at in places {
        let new_line = at == p.lex.len() || p.starts.contains(&at);
        let k = r.below(3);
        let comment = if new_line && k == 0 {
            Lex {
                text: "BTW here".into(),
                k: K::Com(" here".into()),
            }
        } else if new_line && k == 1 {
            Lex {
                text: "OBTW a\nb TLDR".into(),
                k: K::MCom(" a\nb ".into()),
            }
        } else {
            Lex {
                text: "OBTW here TLDR".into(),
                k: K::MCom(" here ".into()),
            }
        };
        let mut lex = p.lex.clone();
        lex.insert(at, comment);
        // at the end of the line before, or on a line of its own
        let own = r.pct(50) || matches!(lex[at].k, K::Com(_)) && at == 0;
        let mut starts: Vec<Ix> = p
            .starts
            .iter()
            .map(|s| if *s >= at { *s + 1 } else { *s })
            .collect();
        if new_line && own {
            starts.push(at);
            starts.sort();
        }
        let laid = render(&lex, &starts, &Style::plain(), &mut r, c.dict);
        c.note(&laid.text);
        let got = tree_over_lexemes(&laid)?;
        let got = got.map(&|i| if i > at && i < usize::MAX / 2 { i - 1 } else { i });
        compare(&want, &got, &p.kinds())?;
        c.count("single comments placed");
        c.seen(&laid.text, true);
    }
    Ok(())
}

fn comments_only(r: &mut Rng) -> Style {
    Style::comments(r)
}
fn comments_and_layout(r: &mut Rng) -> Style {
    let mut s = Style::wild(r);
    s.comment = *r.pick(&[10, 40]);
    s
}

pub const C08: &[Load] = &[
    load("comments in programs, damaged programs, soups", (24000, 400000), (25, 80), |c| restyled(c, comments_only)),
    load("comments with other layout", (12000, 200000), (25, 80), |c| restyled(c, comments_and_layout)),
    load("comments put into any text", (20000, 300000), (25, 80), comments_in_text),
    load("a comment at each single place", (6000, 80000), (12, 40), comment_each_place),
    load("comments in large texts", (16, 200), (1, 1), |c| restyled_huge(c, comments_only)),
];

/// Any text: other blanks between its tokens, the same lines
fn reblanked(c: &mut Case) -> Res {
    let mut r = c.sub();
    let text = fuzz::any_lexable(&mut r, c.dict, c.size);
    c.note(&text);
    let tokens = sut::lex_ok(&text)?;
    let mut out = String::new();
    let mut at = 0usize;
    let ks = kinds(&tokens);
    let crlf = r.pct(40);
    for (i, t) in tokens.iter().enumerate() {
        let (s, e) = (t.range.0.bytes as usize, t.range.1.bytes as usize);
        if e > text.len() || s < at || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Err(Fail::new("token positions are not those of the text"));
        }
        let gap = &text[at..s];
        let after_comment = i > 0 && matches!(ks[i - 1], K::Com(_));
        if gap.contains('\n') || i == 0 && r.one_in(4) {
            if !after_comment && r.pct(40) {
                out.push_str(r.pick(&[" ", "\t", "  \t "]));
            }
            for _ in 0..(if r.one_in(3) { r.range(1, 4) } else { 1 }) {
                out.push_str(if crlf && !after_comment { "\r\n" } else { "\n" });
            }
            out.push_str(r.pick(&["", "", " ", "    ", "\t", "\t\t "]));
        } else if !gap.is_empty() {
            out.push_str(r.pick(&[" ", "  ", "\t", " \t ", "\r", "      "]));
        }
        out.push_str(&text[s..e]);
        at = e;
    }
    if r.pct(50) && !matches!(ks.last(), Some(K::Com(_))) {
        out.push_str(r.pick(&["\n", "", " ", "\r\n", "\n\n\n", "\t\n"]));
    } else {
        out.push_str(&text[at..]);
    }
    // other blanks may join words to a keyword, or take one apart: left out, by the rules alone
    let refk: Vec<K> = match crate::reflex::lex(&out) {
        Ok(v) => v.into_iter().map(|t| t.k).collect(),
        Err(_) => return Ok(()),
    };
    if refk != ks {
        c.count("left out: other blanks change the words");
        return Ok(());
    }
    c.note(&format!("{text}\n--- and with other blanks ---\n{out}"));
    let tokens2 = sut::lex_ok(&out)?;
    let k2 = kinds(&tokens2);
    ensure!(ks == k2, "the tokens changed");
    let want = tree_of(&tokens)?;
    let got = tree_of(&tokens2)?;
    compare(&want, &got, &ks)?;
    c.seen(&out, text != out && tokens.len() > 1);
    c.count("texts with other blanks");
    Ok(())
}

pub const C09: &[Load] = &[
    load("blanks in programs, damaged programs, soups", (40000, 600000), (25, 80), |c| restyled(c, Style::blanks)),
    load("other blanks in any text", (40000, 600000), (25, 80), reblanked),
    load("blanks in large texts", (16, 200), (1, 1), |c| restyled_huge(c, Style::blanks)),
    load("one blank kind everywhere", (6000, 60000), (20, 60), |c| {
        // every gap the same
        let (lex, starts) = lexeme_list(c);
        let mut r = c.sub();
        let plain = render(&lex, &starts, &Style::plain(), &mut r, c.dict);
        c.note(&plain.text);
        let want = tree_over_lexemes(&plain)?;
        let gap = *r.pick(&[" ", "\t", "\r", "  ", " \t", "\t\t\t", "        "]);
        let nl = *r.pick(&["\n", "\r\n", "\n\n", " \n", "\n\t", "\r\n\r\n", "\n \n"]);
        let mut laid = Laid {
            text: String::new(),
            toks: Vec::new(),
            at: Vec::new(),
        };
        for (i, l) in lex.iter().enumerate() {
            if i > 0 {
                laid.text.push_str(if starts.contains(&i) { nl } else { gap });
            }
            laid.text.push_str(&l.text);
            laid.toks.push((l.k.clone(), Some(i)));
        }
        c.note(&laid.text);
        let got = tree_over_lexemes(&laid)?;
        let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
        compare(&want, &got, &ks)?;
        c.count("texts with one kind of blank");
        c.seen(&laid.text, lex.len() > 2);
        Ok(())
    }),
];

/// Exactly one separator or one place rewritten
fn one_separator(c: &mut Case) -> Res {
    let (lex, starts) = lexeme_list(c);
    if lex.len() < 2 {
        return Ok(());
    }
    let mut r = c.sub();
    let plain = render(&lex, &starts, &Style::plain(), &mut r, c.dict);
    c.note(&plain.text);
    let want = tree_over_lexemes(&plain)?;
    let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
    for _ in 0..4 {
        let at = r.below(lex.len() + 1);
        let mut laid = Laid {
            text: String::new(),
            toks: Vec::new(),
            at: Vec::new(),
        };
        let marks = |laid: &mut Laid, s: &str| {
            laid.text.push_str(s);
            let mut rest = s;
            while let Some(ch) = rest.chars().next() {
                if rest.starts_with("...") {
                    laid.toks.push((K::Ellipsis, None));
                    rest = &rest[3..];
                    continue;
                }
                match ch {
                    '…' => laid.toks.push((K::Ellipsis, None)),
                    ',' => laid.toks.push((K::Comma, None)),
                    _ => {}
                }
                rest = &rest[ch.len_utf8()..];
            }
        };
        for i in 0..=lex.len() {
            let boundary = i == 0 || i == lex.len() || starts.contains(&i);
            if i == at && boundary {
                // between statements, in front of or behind everything
                let s = *r.pick(&[
                    ",", " , ", ",\n", "\n,", ",,", " ,\n,\n", "\n,,\n", "\n\n\n", ", ,", "\n, \n, \n", " ...\n,", " …\n\n, ",
                ]);
                if i == 0 {
                    let s = *r.pick(&[",", ",\n", "\n,\n", ",,, ", "\n\n", " , \n"]);
                    marks(&mut laid, s);
                } else if i == lex.len() {
                    let s = *r.pick(&[",", ", ", "\n", "\n,", ",,", " ,\n\n", " ...", " ...\n", " …\n\n", ""]);
                    marks(&mut laid, s);
                } else {
                    marks(&mut laid, s);
                }
            } else if i == at {
                let s = *r.pick(&[
                    " ...\n", " …\n", " ... \n  ", " ...\r\n", " ...\n\n", " ...\n...\n", " ... ...\n", " …\n… \n", " ...\t\n\t", " … ",
                ]);
                marks(&mut laid, s);
            } else if i > 0 && i < lex.len() {
                laid.text.push_str(if boundary { "\n" } else { " " });
            }
            if i < lex.len() {
                laid.text.push_str(&lex[i].text);
                laid.toks.push((lex[i].k.clone(), Some(i)));
            }
        }
        c.note(&format!("{}\n--- and rewritten ---\n{}", plain.text, laid.text));
        let got = tree_over_lexemes(&laid)?;
        compare(&want, &got, &ks)?;
        c.count("single rewritings");
        c.seen(&laid.text, true);
    }
    Ok(())
}

/// Many separators in a row, long continuations
fn many_separators(c: &mut Case) -> Res {
    let mut r = c.sub();
    let p = gen::program(&mut r, c.dict, 4);
    let ks = p.kinds();
    let n = *r.pick(&[10, 100, 255, 256, 257, 1000, 5000]);
    let n = if c.index < 9 * gen::HUGE_SIZES.len() { huge_size(c, 9) } else { n.min(c.size * 30).max(3) };
    let (sep, k) = *r.pick(&[(",", 0), ("\n", 1), ("\n", 1), (",\n", 0), (", ", 0), ("...\n", 2), ("…", 2), ("…\n", 2)]);
    let at = r.below(p.starts.len() + 1);
    let mut laid = Laid {
        text: String::new(),
        toks: Vec::new(),
        at: Vec::new(),
    };
    let inside = r.pct(40);
    let spot = if inside && p.lex.len() > 1 {
        let i = r.range(1, p.lex.len() - 1);
        if p.starts.contains(&i) {
            None
        } else {
            Some(i)
        }
    } else {
        None
    };
    for i in 0..=p.lex.len() {
        let boundary = i == 0 || i == p.lex.len() || p.starts.contains(&i);
        if spot == Some(i) {
            for _ in 0..n {
                laid.text.push_str(" ...\n");
                laid.toks.push((K::Ellipsis, None));
            }
        } else if boundary && spot.is_none() && p.starts.iter().filter(|s| **s < i).count() == at {
            laid.text.push('\n');
            for _ in 0..n {
                laid.text.push_str(sep);
                match k {
                    0 => laid.toks.push((K::Comma, None)),
                    2 => laid.toks.push((K::Ellipsis, None)),
                    _ => {}
                }
            }
            if k == 2 {
                // what was to be continued is nothing
                laid.text.push_str("\n,");
                laid.toks.push((K::Comma, None));
            }
        } else if i > 0 && i < p.lex.len() {
            laid.text.push_str(if boundary { "\n" } else { " " });
        }
        if i < p.lex.len() {
            laid.text.push_str(&p.lex[i].text);
            laid.toks.push((p.lex[i].k.clone(), Some(i)));
        }
    }
    c.note(&laid.text);
    let got = tree_over_lexemes(&laid)?;
    compare(&p.tree, &got, &ks)?;
    c.count("programs with many separators in a row");
    c.seen(&laid.text, true);
    Ok(())
}

fn separators_only(r: &mut Rng) -> Style {
    Style {
        comma: *r.pick(&[0, 30, 60, 100]),
        extra: *r.pick(&[0, 20, 60]),
        ellipsis: *r.pick(&[0, 5, 20, 60]),
        final_newline: *r.pick(&[0, 100]),
        ..Style::plain()
    }
}

pub const C10: &[Load] = &[
    load("separators and continuations in programs, damaged programs, soups", (30000, 450000), (25, 80), |c| restyled(c, separators_only)),
    load("separators, continuations and blanks", (16000, 250000), (25, 80), |c| restyled(c, Style::separators)),
    load("one place rewritten", (16000, 250000), (15, 50), one_separator),
    load("separators and continuations in large texts", (16, 200), (1, 1), |c| restyled_huge(c, separators_only)),
    load("many separators in a row", (1500, 20000), (60, 200), many_separators),
    load("strings over several lines", (12000, 160000), (10, 30), |c| {
        // every string of the program is made to span lines
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let mut lex = p.lex.clone();
        let mut n = 0;
        for l in lex.iter_mut() {
            if matches!(l.k, K::Str(_) | K::Int(_) | K::Float(_)) && r.pct(60) {
                let body = r.pick(&["\n", "a\nb", "\n\n\n", "x\r\ny", "a,\nb", "...\n", "é\n🐱", "\nBTW no\n"]).to_string();
                l.text = format!("\"{body}\"");
                l.k = K::Str(body);
                n += 1;
            }
        }
        let st = if r.pct(50) { Style::plain() } else { Style::separators(&mut r) };
        let laid = render(&lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let got = tree_over_lexemes(&laid)?;
        let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
        compare(&p.tree, &got, &ks)?;
        c.add("strings over several lines", n);
        c.seen(&laid.text, n > 0);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C11, C12, C13

/// Renders, parses, and compares with what was written
pub fn written(c: &mut Case, p: &Prog, st: &Style) -> Res {
    let mut r = c.sub();
    let laid = render(&p.lex, &p.starts, st, &mut r, c.dict);
    c.note(&laid.text);
    let got = tree_over_lexemes(&laid)?;
    compare(&p.tree, &got, &p.kinds())?;
    stat_tree(c, &got);
    c.seen(&laid.text, p.lex.len() > 1);
    Ok(())
}

fn one_statement(c: &mut Case, what: Option<Simple>) -> Res {
    let mut r = c.sub();
    let st = if r.pct(60) { Style::plain() } else { Style::any(&mut r) };
    let mut g = Gen::new(&mut r, c.dict, c.size);
    let what = what.unwrap_or(SIMPLE[c.index % SIMPLE.len()]);
    let n = g.simple(what);
    let p = g.finish(vec![n]);
    written(c, &p, &st)
}

/// Every operator over every operator, in every operand place, AN and MKAY or not
fn operator_pairs(c: &mut Case) -> Res {
    let mut r = c.sub();
    let size = c.size;
    let mut i = c.index;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let outer = take(16);
    let inner = take(16);
    let place = take(3);
    let mkay = take(2) == 0;
    let an = take(2) == 0;
    let host = take(5);
    let mut g = Gen::new(&mut r, c.dict, size);
    g.max_expr = 1;
    g.expr_budget = 100;
    fn op(g: &mut Gen, which: usize, tail: bool, an: bool, mkay: bool, child: Option<(usize, usize)>) -> Nd {
        let operand = |g: &mut Gen, at: usize, tail: bool, child: Option<(usize, usize)>| match child {
            Some((w, p)) if p == at => op(g, w, tail, an, mkay, None),
            _ => match g.rng.below(2) {
                0 => g.variable(),
                _ => g.literal(),
            },
        };
        if which == 0 {
            let t = g.kw("NOT");
            let child = child.map(|(w, _)| (w, 0));
            let e = operand(g, 0, tail, child);
            return Nd::new("Unary:Not").tok("operator", t).node("operand", e);
        }
        if which <= 12 {
            let (text, kind) = BINARY[which - 1];
            let child = child.map(|(w, p)| (w, p.min(1)));
            let t = g.kw(text);
            let l = operand(g, 0, false, child);
            let a = if an { Some(g.kw("AN")) } else { None };
            let right = operand(g, 1, tail, child);
            return Nd::new(kind).tok("operator", t).node("left", l).opt("an", a).node("right", right);
        }
        let (text, kind) = NARY[which - 13];
        let t = g.kw(text);
        let omit = tail && !mkay;
        let mut n = Nd::new(kind).tok("operator", t);
        let count = g.rng.range(1, 4).max(child.map_or(0, |(_, p)| p + 1));
        for k in 0..count {
            let last = k + 1 == count;
            n = n.node("operand", operand(g, k, omit && last, child));
            if !last && an {
                let a = g.kw("AN");
                n = n.tok("an", a);
            }
        }
        if !omit {
            let m = g.kw("MKAY");
            n = n.tok("mkay", m);
        }
        n
    }
    g.start();
    let child = Some((inner, place));
    let n = match host {
        0 => Nd::new("Expression").node("expression", op(&mut g, outer, true, an, mkay, child)),
        1 => {
            let k = g.kw("VISIBLE");
            let e = op(&mut g, outer, true, an, mkay, child);
            Nd::new("Visible").tok("keyword", k).node("value", e)
        }
        2 => {
            let v = g.variable();
            let t = g.kw("R");
            let e = op(&mut g, outer, true, an, mkay, child);
            Nd::new("Assignment").node("variable", v).tok("r", t).node("value", e)
        }
        3 => {
            let k = g.kw("I IZ");
            let v = g.variable();
            g.kw("YR");
            let e = op(&mut g, outer, false, an, mkay, child);
            g.kw("AN");
            g.kw("YR");
            let e2 = g.literal();
            g.kw("MKAY");
            Nd::new("IIz").tok("keyword", k).node("name", v).node("argument", e).node("argument", e2)
        }
        _ => {
            let k = g.kw("VISIBLE");
            let e1 = op(&mut g, outer, false, an, mkay, child);
            let e2 = op(&mut g, inner, false, an, mkay, None);
            let x = g.push(Lex {
                text: "!".into(),
                k: K::Excl,
            });
            Nd::new("Visible").tok("keyword", k).node("value", e1).node("value", e2).tok("exclamation_mark", x)
        }
    };
    let p = g.finish(vec![n]);
    c.count("pairs of operators");
    written(c, &p, &Style::plain())
}

/// Operand counts and access chains at and around boundaries
fn wide_expression(c: &mut Case) -> Res {
    let mut r = c.sub();
    let limit = c.size * 30;
    let mut sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
    sizes.extend(c.dict.ints.iter().filter(|i| **i >= 0 && **i < 6000).flat_map(|i| [*i as usize, *i as usize + 1]));
    let n = (*r.pick(&sizes)).min(limit).max(1);
    let what = r.below(4);
    wide_expression_of(c, n, what)
}

fn wide_expression_of(c: &mut Case, n: usize, what: usize) -> Res {
    let mut r = c.sub();
    let mut g = Gen::new(&mut r, c.dict, 3);
    g.start();
    let e = match what {
        0 => {
            let mut v = Nd::new("Variable").node("identifier", g.identifier());
            for _ in 0..n {
                let slot = g.push(Lex {
                    text: "'Z".into(),
                    k: K::Slot,
                });
                let id = g.identifier();
                v = v.node("slot", Nd::new("Slot").tok("slot_access", slot).node("identifier", id));
            }
            v
        }
        1 | 2 => {
            let (text, kind) = *g.rng.pick(NARY);
            let omit = g.rng.pct(50);
            let t = g.kw(text);
            let mut v = Nd::new(kind).tok("operator", t);
            for i in 0..n {
                let o = if g.rng.pct(50) { g.variable() } else { g.literal() };
                v = v.node("operand", o);
                if i + 1 < n {
                    v = v.opt("an", g.an());
                }
            }
            if !omit {
                let m = g.kw("MKAY");
                v = v.tok("mkay", m);
            }
            v
        }
        _ => {
            // a chain to the right or to the left
            let n = n.min(250);
            let ops: Vec<usize> = (0..n).map(|_| g.rng.below(12)).collect();
            if g.rng.pct(50) {
                fn right(g: &mut Gen, ops: &[usize]) -> Nd {
                    match ops.split_first() {
                        None => g.literal(),
                        Some((o, rest)) => {
                            let t = g.kw(BINARY[*o].0);
                            let l = g.variable();
                            let a = g.an();
                            let x = right(g, rest);
                            Nd::new(BINARY[*o].1).tok("operator", t).node("left", l).opt("an", a).node("right", x)
                        }
                    }
                }
                right(&mut g, &ops)
            } else {
                let ts: Vec<Ix> = ops.iter().map(|o| g.kw(BINARY[*o].0)).collect();
                let mut v = g.literal();
                for (o, t) in ops.iter().zip(ts).rev() {
                    let a = g.an();
                    let x = g.variable();
                    v = Nd::new(BINARY[*o].1).tok("operator", t).node("left", v).opt("an", a).node("right", x);
                }
                v
            }
        }
    };
    let p = g.finish(vec![Nd::new("Expression").node("expression", e)]);
    c.count("wide or deep expressions");
    written(c, &p, &Style::plain())
}

pub const C11: &[Load] = &[
    load("expressions", (40000, 600000), (30, 120), |c| one_statement(c, Some(Simple::Expression))),
    load("every operator in every operand place", (15360, 15360 * 8), (1, 1), operator_pairs),
    load("expressions in other statements", (25000, 400000), (25, 80), |c| {
        let s = [Simple::Visible, Simple::Assignment, Simple::IIz, Simple::IHasA, Simple::FoundYr, Simple::SetSlot][c.index % 6];
        one_statement(c, Some(s))
    }),
    load("wide and deep expressions", (1500, 20000), (40, 200), wide_expression),
    load("very wide expressions", (96, 960), (1, 1), |c| {
        let n = huge_size(c, 3);
        wide_expression_of(c, n, c.index % 3)
    }),
    load("expressions in programs", (6000, 100000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        written(c, &p, &st)
    }),
];

/// Every shape of each simple statement, spelled out by hand
fn statement_shapes(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut g = Gen::new(&mut r, c.dict, 4);
    g.max_expr = 2;
    let mut i = c.index;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let which = take(11);
    let a = take(6);
    let b = take(9);
    g.start();
    let id = |g: &mut Gen, srs: bool| {
        let n = Nd::new("Identifier");
        if srs {
            let s = g.kw("SRS");
            let t = g.ident();
            n.tok("srs", s).tok("name", t)
        } else {
            let t = g.ident();
            n.tok("name", t)
        }
    };
    fn var(g: &mut Gen, srs: usize, slots: usize) -> Nd {
        let one = |g: &mut Gen, srs: bool| {
            let n = Nd::new("Identifier");
            if srs {
                let s = g.kw("SRS");
                let t = g.ident();
                n.tok("srs", s).tok("name", t)
            } else {
                let t = g.ident();
                n.tok("name", t)
            }
        };
        let mut v = Nd::new("Variable").node("identifier", one(g, srs & 1 > 0));
        for k in 0..slots {
            let s = g.push(Lex {
                text: "'Z".into(),
                k: K::Slot,
            });
            v = v.node("slot", Nd::new("Slot").tok("slot_access", s).node("identifier", one(g, (srs >> (k + 1)) & 1 > 0)));
        }
        v
    }
    let n = match which {
        0 => {
            let k = g.kw("I HAS A");
            let n = Nd::new("IHasA").tok("keyword", k).node("identifier", id(&mut g, a & 1 > 0));
            if b == 0 {
                n
            } else {
                g.kw("ITZ");
                if b <= 5 {
                    let t = g.kw(TYPES[b - 1].0);
                    n.node("type", Nd::new(TYPES[b - 1].1).tok("token", t))
                } else if b == 6 {
                    let t = g.push(Lex {
                        text: "NOOB".into(),
                        k: K::Noob,
                    });
                    n.node("value", Nd::new("Literal").tok("token", t))
                } else {
                    n.node("value", g.expr(true))
                }
            }
        }
        1 => {
            let v = var(&mut g, b, a % 3);
            let t = g.kw("R");
            Nd::new("Assignment").node("variable", v).tok("r", t).node("value", g.expr(true))
        }
        2 => {
            let v = var(&mut g, b, a % 3);
            g.kw("HAS A");
            let s = id(&mut g, a > 2);
            g.kw("ITZ");
            Nd::new("BukkitSetSlot").node("bukkit", v).node("slot_name", s).node("value", g.expr(true))
        }
        3 => {
            let k = g.kw("VISIBLE");
            let mut n = Nd::new("Visible").tok("keyword", k);
            let excl = b % 2 == 0;
            for j in 0..a {
                n = n.node("value", g.expr(!excl && j + 1 == a));
            }
            if excl {
                let t = g.push(Lex {
                    text: "!".into(),
                    k: K::Excl,
                });
                n = n.tok("exclamation_mark", t);
            }
            n
        }
        4 => {
            let k = g.kw("GIMMEH");
            Nd::new("Gimmeh").tok("keyword", k).node("variable", var(&mut g, b, a % 4))
        }
        5 => {
            let k = g.kw("FOUND YR");
            Nd::new("FoundYr").tok("keyword", k).node("value", g.expr(true))
        }
        6 => {
            let k = g.kw("GTFO");
            Nd::new("Gtfo").tok("keyword", k)
        }
        7 => {
            let k = g.kw("I IZ");
            let mut n = Nd::new("IIz").tok("keyword", k).node("name", var(&mut g, b, b % 3));
            for j in 0..a {
                if j > 0 {
                    g.kw("AN");
                }
                g.kw("YR");
                n = n.node("argument", g.expr(false));
            }
            g.kw("MKAY");
            n
        }
        8 => {
            let k = g.kw("HAI");
            let mut n = Nd::new("Hai").tok("keyword", k);
            if a > 0 {
                let l = match a {
                    1 => Lex { text: "1.2".into(), k: K::Float(1.2) },
                    2 => Lex { text: "1".into(), k: K::Int(1) },
                    3 => Lex { text: "\"1.3\"".into(), k: K::Str("1.3".into()) },
                    4 => Lex { text: "v1".into(), k: K::Ident("v1".into()) },
                    _ => Lex { text: "1.4".into(), k: K::Float(1.4) },
                };
                let t = g.push(l);
                n = n.tok("version", t);
            }
            n
        }
        9 => {
            let k = g.kw("KTHXBYE");
            Nd::new("KThxBye").tok("keyword", k)
        }
        _ => {
            let e = match a {
                0 | 1 => var(&mut g, b, a),
                2 => g.literal(),
                _ => g.expr(true),
            };
            Nd::new("Expression").node("expression", e)
        }
    };
    let mut p = g.finish(vec![n]);
    // alone, or with something before and behind
    let around = c.rng.below(3);
    if around > 0 {
        let mut lex = vec![kwlex("GTFO")];
        lex.extend(p.lex);
        lex.push(kwlex("KTHXBYE"));
        let n = lex.len();
        let tree = p.tree.map(&|i| i + 1);
        let mut entries = vec![Nd::new("Gtfo").tok("keyword", 0)];
        entries.extend(tree.stmts().into_iter().cloned());
        entries.push(Nd::new("KThxBye").tok("keyword", n - 1));
        p = Prog {
            lex,
            starts: vec![0, 1, n - 1],
            tree: Nd::new("Block").nodes("stmt", entries),
            simple: vec![],
        };
    }
    c.count("statement shapes");
    let mut r = c.sub();
    let st = if r.pct(50) { Style::plain() } else { Style::separators(&mut r) };
    written(c, &p, &st)
}

/// Statements with very many arguments or values
fn wide_statement(c: &mut Case) -> Res {
    let mut r = c.sub();
    let limit = c.size * 30;
    let mut sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
    sizes.extend(c.dict.ints.iter().filter(|i| **i >= 0 && **i < 6000).flat_map(|i| [*i as usize, *i as usize + 1]));
    let n = (*r.pick(&sizes)).min(limit).max(1);
    let what = r.below(4);
    wide_statement_of(c, n, what)
}

fn wide_statement_of(c: &mut Case, n: usize, what: usize) -> Res {
    let mut r = c.sub();
    let mut g = Gen::new(&mut r, c.dict, 3);
    g.max_expr = 1;
    g.start();
    let s = match what {
        0 => {
            let k = g.kw("VISIBLE");
            let mut s = Nd::new("Visible").tok("keyword", k);
            let excl = g.rng.pct(50);
            for i in 0..n {
                let e = if g.rng.pct(80) { g.literal() } else { g.expr(!excl && i + 1 == n) };
                s = s.node("value", e);
            }
            if excl {
                let t = g.push(Lex {
                    text: "!".into(),
                    k: K::Excl,
                });
                s = s.tok("exclamation_mark", t);
            }
            s
        }
        1 => {
            let k = g.kw("I IZ");
            let mut s = Nd::new("IIz").tok("keyword", k).node("name", g.variable());
            for i in 0..n {
                if i > 0 {
                    g.kw("AN");
                }
                g.kw("YR");
                let e = if g.rng.pct(80) { g.literal() } else { g.expr(false) };
                s = s.node("argument", e);
            }
            g.kw("MKAY");
            s
        }
        2 => {
            let k = g.kw("HOW IZ I");
            let mut s = Nd::new("HowIzI").tok("keyword", k).node("name", g.identifier());
            for i in 0..n {
                if i > 0 {
                    g.kw("AN");
                }
                g.kw("YR");
                s = s.node("argument", g.identifier());
            }
            g.start();
            g.kw("IF U SAY SO");
            s.node("body", Nd::new("Block"))
        }
        _ => {
            let k = g.kw("GIMMEH");
            let mut v = Nd::new("Variable").node("identifier", g.identifier());
            for _ in 0..n {
                let slot = g.push(Lex {
                    text: "'Z".into(),
                    k: K::Slot,
                });
                let id = g.identifier();
                v = v.node("slot", Nd::new("Slot").tok("slot_access", slot).node("identifier", id));
            }
            Nd::new("Gimmeh").tok("keyword", k).node("variable", v)
        }
    };
    let p = g.finish(vec![s]);
    c.count("wide statements");
    written(c, &p, &Style::plain())
}

pub const C12: &[Load] = &[
    load("every shape of every statement", (24000, 200000), (1, 1), statement_shapes),
    load("statements of every kind", (50000, 700000), (25, 100), |c| one_statement(c, None)),
    load("wide statements", (1500, 20000), (40, 200), wide_statement),
    load("very wide statements", (64, 960), (1, 1), |c| {
        let n = huge_size(c, 4);
        wide_statement_of(c, n, c.index % 4)
    }),
    load("several statements", (20000, 300000), (20, 60), |c| {
        let mut r = c.sub();
        let st = Style::any(&mut r);
        let n = r.range(1, c.size.max(2));
        let mut g = Gen::new(&mut r, c.dict, c.size.min(12));
        let mut entries = Vec::new();
        for _ in 0..n {
            let w = *g.rng.pick(SIMPLE);
            entries.push(g.simple(w));
        }
        let p = g.finish(entries);
        written(c, &p, &st)
    }),
    load("statements in programs", (6000, 100000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        written(c, &p, &st)
    }),
];

/// Every block in every clause of every block, with and without neighbours
fn block_pairs(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut i = c.index;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let outer = take(4);
    let clause = take(4);
    let inner = take(5); // 4: none
    let before = take(3);
    let after = take(3);
    let last = take(5); // what follows the outer block; 4: nothing
    let first = take(5); // what stands in front of it
    let st = match take(3) {
        0 => Style::plain(),
        1 => Style::separators(&mut r),
        _ => Style::any(&mut r),
    };
    let mut g = Gen::new(&mut r, c.dict, 3);
    g.max_expr = 1;
    g.max_blocks = 0;
    fn some(g: &mut Gen) -> Nd {
        let w = *g.rng.pick(&SIMPLE[2..]);
        g.simple(w)
    }
    fn any_block(g: &mut Gen, which: usize) -> Nd {
        g.budget = 2;
        g.block(BLOCKS[which], 1)
    }
    let mut entries = Vec::new();
    if first < 4 {
        entries.push(any_block(&mut g, first));
    }
    {
        // the body under scrutiny
        let body = |g: &mut Gen, this: bool| -> Nd {
            let mut b = Nd::new("Block");
            if this {
                for _ in 0..before {
                    b = b.node("stmt", some(g));
                }
                if inner < 4 {
                    b = b.node("stmt", any_block(g, inner));
                }
                for _ in 0..after {
                    b = b.node("stmt", some(g));
                }
            } else if g.rng.pct(40) {
                b = b.node("stmt", some(g));
            }
            b
        };
        g.start();
        let n = match outer {
            0 => {
                let k = g.kw("HOW IZ I");
                let mut n = Nd::new("HowIzI").tok("keyword", k).node("name", g.identifier());
                for j in 0..clause {
                    if j > 0 {
                        g.kw("AN");
                    }
                    g.kw("YR");
                    n = n.node("argument", g.identifier());
                }
                n = n.node("body", body(&mut g, true));
                g.start();
                g.kw("IF U SAY SO");
                n
            }
            1 => {
                let k = g.kw("IM IN YR");
                let label = g.ident();
                let text = g.lex[label].clone();
                let mut n = Nd::new("ImInYr").tok("keyword", k).tok("label", label);
                if clause & 1 > 0 {
                    let (t, kd) = *g.rng.pick(&[("UPPIN", "Loop:Uppin"), ("NERFIN", "Loop:Nerfin")]);
                    let o = g.kw(t);
                    g.kw("YR");
                    n = n.node("operation", Nd::new(kd).tok("token", o).node("operand", g.variable()));
                }
                if clause & 2 > 0 {
                    let (t, kd) = *g.rng.pick(&[("TIL", "Loop:Til"), ("WILE", "Loop:Wile")]);
                    g.kw(t);
                    n = n.node("condition", Nd::new(kd).node("expression", g.expr(true)));
                }
                n = n.node("body", body(&mut g, true));
                g.start();
                g.kw("IM OUTTA YR");
                let e = g.push(text);
                n.tok("end_label", e)
            }
            2 => {
                let k = g.kw("O RLY");
                g.question();
                let mut n = Nd::new("ORly").tok("keyword", k);
                if clause == 0 || g.rng.pct(70) {
                    g.start();
                    let t = g.kw("YA RLY");
                    n = n.node("if_true", Nd::new("YaRly").tok("keyword", t).node("body", body(&mut g, clause == 0)));
                }
                let mebbes = if clause == 1 || clause == 2 { clause } else { g.rng.below(3) };
                for j in 0..mebbes {
                    g.start();
                    let t = g.kw("MEBBE");
                    let e = g.expr(true);
                    let this = (clause == 1 || clause == 2) && j + 1 == mebbes;
                    n = n.node("mebbe", Nd::new("Mebbe").tok("keyword", t).node("condition", e).node("body", body(&mut g, this)));
                }
                if clause == 3 || g.rng.pct(50) {
                    g.start();
                    let t = g.kw("NO WAI");
                    n = n.node("if_false", Nd::new("NoWai").tok("keyword", t).node("body", body(&mut g, clause == 3)));
                }
                g.start();
                g.kw("OIC");
                n
            }
            _ => {
                let k = g.kw("WTF");
                g.question();
                let mut n = Nd::new("Wtf").tok("keyword", k);
                let cases = if clause < 3 { clause + 1 } else { g.rng.below(3) };
                for j in 0..cases {
                    g.start();
                    let t = g.kw("OMG");
                    let e = g.literal();
                    n = n.node("omg", Nd::new("Omg").tok("keyword", t).node("value", e).node("body", body(&mut g, clause == j)));
                }
                if clause == 3 || g.rng.pct(50) {
                    g.start();
                    let t = g.kw("OMGWTF");
                    n = n.node("omg_wtf", Nd::new("OmgWtf").tok("keyword", t).node("body", body(&mut g, clause == 3)));
                }
                g.start();
                g.kw("OIC");
                n
            }
        };
        entries.push(n);
    }
    if last < 4 {
        entries.push(any_block(&mut g, last));
    }
    let p = g.finish(entries);
    c.count("pairs of blocks");
    written(c, &p, &st)
}

/// Blocks in blocks, up to a great depth
fn deep_blocks(c: &mut Case) -> Res {
    let mut r = c.sub();
    let depth = r.range(1, (c.size * 3).min(200));
    let mut g = Gen::new(&mut r, c.dict, 2);
    g.max_expr = 1;
    fn nest(g: &mut Gen, d: usize) -> Nd {
        let mut body = Nd::new("Block");
        fn fill(g: &mut Gen, body: &mut Nd, d: usize) {
            if g.rng.pct(50) {
                let n = g.simple(Simple::Visible);
                body.items.push(("stmt", It::Node(n)));
            }
            if d > 0 {
                let n = nest(g, d - 1);
                body.items.push(("stmt", It::Node(n)));
            }
            if g.rng.pct(50) {
                let n = g.simple(Simple::Assignment);
                body.items.push(("stmt", It::Node(n)));
            }
        }
        g.start();
        match g.rng.below(4) {
            0 => {
                let k = g.kw("HOW IZ I");
                let n = Nd::new("HowIzI").tok("keyword", k).node("name", g.identifier());
                fill(g, &mut body, d);
                g.start();
                g.kw("IF U SAY SO");
                n.node("body", body)
            }
            1 => {
                let k = g.kw("IM IN YR");
                let l = g.ident();
                fill(g, &mut body, d);
                g.start();
                g.kw("IM OUTTA YR");
                let e = g.ident();
                Nd::new("ImInYr").tok("keyword", k).tok("label", l).node("body", body).tok("end_label", e)
            }
            2 => {
                let k = g.kw("O RLY");
                g.question();
                g.start();
                let (kw, field, kind) = *g.rng.pick(&[("YA RLY", "if_true", "YaRly"), ("NO WAI", "if_false", "NoWai")]);
                let t = g.kw(kw);
                fill(g, &mut body, d);
                g.start();
                g.kw("OIC");
                Nd::new("ORly").tok("keyword", k).node(field, Nd::new(kind).tok("keyword", t).node("body", body))
            }
            _ => {
                let k = g.kw("WTF");
                g.question();
                g.start();
                let t = g.kw("OMG");
                let e = g.literal();
                fill(g, &mut body, d);
                g.start();
                g.kw("OIC");
                Nd::new("Wtf").tok("keyword", k).node("omg", Nd::new("Omg").tok("keyword", t).node("value", e).node("body", body))
            }
        }
    }
    let n = nest(&mut g, depth);
    let p = g.finish(vec![n]);
    c.count("deeply nested blocks");
    let mut r = c.sub();
    let st = if r.pct(70) { Style::plain() } else { Style::any(&mut r) };
    written(c, &p, &st)
}

/// Blocks with very many clauses or statements
fn wide_blocks(c: &mut Case) -> Res {
    let mut r = c.sub();
    let limit = c.size * 12;
    let mut sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
    sizes.extend(c.dict.ints.iter().filter(|i| **i >= 0 && **i < 3000).flat_map(|i| [*i as usize, *i as usize + 1]));
    let n = (*r.pick(&sizes)).min(limit).max(1);
    let what = r.below(4);
    wide_blocks_of(c, n, what)
}

fn wide_blocks_of(c: &mut Case, n: usize, what: usize) -> Res {
    let mut r = c.sub();
    let mut g = Gen::new(&mut r, c.dict, 2);
    g.max_expr = 0;
    g.start();
    let some = |g: &mut Gen, p: u32| {
        let mut b = Nd::new("Block");
        while g.rng.pct(p) {
            b = b.node("stmt", g.simple(Simple::Gtfo));
        }
        b
    };
    let s = match what {
        0 => {
            let k = g.kw("O RLY");
            g.question();
            let mut s = Nd::new("ORly").tok("keyword", k);
            for _ in 0..n {
                g.start();
                let t = g.kw("MEBBE");
                let e = g.expr(true);
                s = s.node("mebbe", Nd::new("Mebbe").tok("keyword", t).node("condition", e).node("body", some(&mut g, 30)));
            }
            g.start();
            g.kw("OIC");
            s
        }
        1 => {
            let k = g.kw("WTF");
            g.question();
            let mut s = Nd::new("Wtf").tok("keyword", k);
            for _ in 0..n {
                g.start();
                let t = g.kw("OMG");
                let e = g.literal();
                s = s.node("omg", Nd::new("Omg").tok("keyword", t).node("value", e).node("body", some(&mut g, 30)));
            }
            g.start();
            g.kw("OIC");
            s
        }
        2 => {
            let k = g.kw("HOW IZ I");
            let s = Nd::new("HowIzI").tok("keyword", k).node("name", g.identifier());
            let mut b = Nd::new("Block");
            for _ in 0..n {
                b = b.node("stmt", g.simple(Simple::Gimmeh));
            }
            g.start();
            g.kw("IF U SAY SO");
            s.node("body", b)
        }
        _ => {
            let k = g.kw("IM IN YR");
            let l = g.ident();
            let mut b = Nd::new("Block");
            for _ in 0..n {
                b = b.node("stmt", g.simple(Simple::Expression));
            }
            g.start();
            g.kw("IM OUTTA YR");
            let e = g.ident();
            Nd::new("ImInYr").tok("keyword", k).tok("label", l).node("body", b).tok("end_label", e)
        }
    };
    let tail = g.simple(Simple::KThxBye);
    let p = g.finish(vec![s, tail]);
    c.count("wide blocks");
    written(c, &p, &Style::plain())
}

fn blocky(c: &mut Case) -> Res {
    let mut r = c.sub();
    let st = Style::any(&mut r);
    let mut g = Gen::new(&mut r, c.dict, c.size);
    g.max_blocks = g.rng.range(1, 6);
    g.max_expr = g.rng.range(0, 2);
    let mut entries = Vec::new();
    while g.budget > 0 {
        let w = *g.rng.pick(&[Blk::Function, Blk::Loop, Blk::If, Blk::Switch]);
        g.budget -= 1;
        if g.rng.pct(60) {
            entries.push(g.block(w, 1));
        } else {
            entries.extend(g.any(0));
        }
    }
    let p = g.finish(entries);
    written(c, &p, &st)
}

pub const C13: &[Load] = &[
    load("every block in every clause of every block", (43200, 200000), (1, 1), block_pairs),
    load("programs of blocks", (16000, 250000), (25, 80), blocky),
    load("deeply nested blocks", (1200, 15000), (60, 70), deep_blocks),
    load("wide blocks", (1200, 15000), (40, 200), wide_blocks),
    load("very wide blocks", (64, 960), (1, 1), |c| {
        let n = huge_size(c, 4);
        wide_blocks_of(c, n, c.index % 4)
    }),
    load("programs", (8000, 120000), (30, 100), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        written(c, &p, &st)
    }),
];

// ---------------------------------------------------------------- C14

fn concat(c: &mut Case, a: &str, b: &str) -> Res {
    let whole = format!("{a}\n{b}");
    c.note(&whole);
    let ta = sut::lex_ok(a)?;
    let tb = sut::lex_ok(b)?;
    let na = tree_of(&ta)?;
    if has_errors(&na) {
        c.count("left out: the first text has errors");
        return Ok(());
    }
    let tw = sut::lex_ok(&whole)?;
    ensure!(
        tw.len() == ta.len() + tb.len(),
        "{} tokens and {} tokens, but {} together",
        ta.len(),
        tb.len(),
        tw.len()
    );
    let nb = tree_of(&tb)?;
    let nw = tree_of(&tw)?;
    let shift = ta.len();
    let mut want = na.clone();
    want.items.extend(nb.map(&|i| i + shift).items);
    compare(&want, &nw, &kinds(&tw))?;
    c.add("entries compared", want.items.len() as u64);
    c.seen(&whole, !na.items.is_empty() && !nb.items.is_empty());
    Ok(())
}

/// Neither an open string nor a continuation at the end
pub fn well_ended(a: &str) -> bool {
    match crate::reflex::lex(a) {
        Err(_) => false,
        Ok(ts) => {
            if ts.iter().rev().find(|t| !t.k.is_comment()).map_or(false, |t| t.k == K::Ellipsis) {
                return false;
            }
            match ts.last() {
                Some(t) => match &t.k {
                    K::Str(s) => s.chars().count() + 2 == t.end - t.start,
                    _ => true,
                },
                None => true,
            }
        }
    }
}

/// At least so many statements, or so many lexemes
fn many_programs(r: &mut Rng, c: &Case, n: usize) -> Prog {
    let mut all = Prog::empty();
    let statements = r.pct(50);
    let mut size = r.range(3, 12);
    while if statements { all.tree.items.len() < n } else { all.lex.len() < n } {
        if r.one_in(20) {
            size = r.range(3, if statements { 12 } else { 60 });
        }
        let p = gen::program(r, c.dict, size);
        let shift = all.lex.len();
        all.lex.extend(p.lex);
        all.starts.extend(p.starts.iter().map(|s| s + shift));
        all.simple.extend(p.simple.iter().map(|s| (s.0 + shift, s.1 + shift)));
        all.tree.items.extend(p.tree.map(&|i| i + shift).items);
    }
    all
}

pub const C14: &[Load] = &[
    load("a program and any text", (24000, 350000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let a = render(&p.lex, &p.starts, &st, &mut r, c.dict).text;
        let b = fuzz::any_lexable(&mut r, c.dict, c.size);
        concat(c, &a, &b)
    }),
    load("any text without errors and any text", (24000, 350000), (12, 40), |c| {
        let mut r = c.sub();
        let a = fuzz::any_lexable(&mut r, c.dict, c.size);
        if !well_ended(&a) {
            return Ok(());
        }
        let b = fuzz::any_lexable(&mut r, c.dict, c.size);
        concat(c, &a, &b)
    }),
    load("one statement after another", (30000, 450000), (10, 30), |c| {
        // the last statement of the first text and the first of the second in every combination
        let mut r = c.sub();
        let mut i = c.index;
        let mut pick = |g: &mut Gen| -> Nd {
            let w = i % 15;
            i /= 15;
            if w < 11 {
                g.simple(SIMPLE[w])
            } else {
                g.budget = 3;
                g.block(BLOCKS[w - 11], 1)
            }
        };
        let mut ps = Vec::new();
        for _ in 0..2 {
            let mut g = Gen::new(&mut r, c.dict, c.size);
            g.max_expr = 1;
            let n = pick(&mut g);
            ps.push(g.finish(vec![n]));
        }
        let mut both = ps[0].clone();
        let shift = both.lex.len();
        both.lex.extend(ps[1].lex.iter().cloned());
        both.starts.extend(ps[1].starts.iter().map(|s| s + shift));
        both.tree.items.extend(ps[1].tree.map(&|i| i + shift).items);
        c.count("pairs of statements");
        let st = if r.pct(60) { Style::plain() } else { Style::any(&mut r) };
        written(c, &both, &st)?;
        let a = render(&ps[0].lex, &ps[0].starts, &Style::plain(), &mut r, c.dict).text;
        let b = render(&ps[1].lex, &ps[1].starts, &Style::plain(), &mut r, c.dict).text;
        concat(c, &a, &b)
    }),
    load("long programs", (300, 4000), (600, 3000), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::plain();
        written(c, &p, &st)
    }),
    load("a very long program and any text", (32, 320), (1, 1), |c| {
        let n = huge_size(c, 2).min(70000);
        let mut r = c.sub();
        let p = many_programs(&mut r, c, n);
        written(c, &p, &Style::plain())?;
        let a = render(&p.lex, &p.starts, &Style::plain(), &mut r, c.dict).text;
        let b = fuzz::any_lexable(&mut r, c.dict, 30);
        concat(c, &a, &b)
    }),
];

// ---------------------------------------------------------------- C15

const OPENERS: &[&str] = &[
    "HOW IZ I", "IM IN YR", "O RLY", "WTF", "IF U SAY SO", "IM OUTTA YR", "YA RLY", "MEBBE", "NO WAI", "OIC", "OMG", "OMGWTF",
];

/// One malformed simple statement: the grammar finds an error in it, and it has nothing to do with
/// blocks
fn malformed(r: &mut Rng, c: &Case) -> Vec<Lex> {
    for _ in 0..60 {
        let mut lex: Vec<Lex> = match r.below(3) {
            0 => {
                let n = r.range(1, 6);
                (0..n).map(|_| fuzz::any_lexeme(r, c.dict, 5)).collect()
            }
            1 => mistake(r, c).0,
            _ => {
                let mut g = Gen::new(r, c.dict, 4);
                g.max_expr = 2;
                let w = *g.rng.pick(SIMPLE);
                let n = g.simple(w);
                let p = g.finish(vec![n]);
                fuzz::damage(&p, r, c.dict).0
            }
        };
        lex.retain(|l| l.text != "HAI");
        if lex.is_empty() || OPENERS.contains(&lex[0].text.as_str()) {
            continue;
        }
        let toks: Vec<PTok> = lex
            .iter()
            .map(|l| PTok {
                k: l.k.clone(),
                start_line: 1,
                end_line: 1,
            })
            .collect();
        if has_errors(&refparse::parse(&toks)) {
            return lex;
        }
    }
    vec![kwlex("ITZ")]
}

/// Compares two blocks of which one statement (whose first lexeme is `at`) was replaced
fn spoiled(want: &Nd, got: &Nd, at: Ix, names: &dyn Fn(Ix) -> String) -> Result<bool, Fail> {
    // want: the original over original lexemes; got: over original lexemes, new ones are >= FRESH
    let w = want.stmts();
    let g = got.stmts();
    let first = |n: &Nd| {
        let mut v = Vec::new();
        n.tokens(&mut v);
        v.into_iter().min()
    };
    match w.iter().position(|n| !is_block(n) && first(n) == Some(at)) {
        Some(i) => {
            ensure!(
                g.len() >= w.len(),
                "{} entries where there were {}, one of them malformed",
                g.len(),
                w.len()
            );
            for k in 0..i {
                if let Some(d) = diff(w[k], g[k], names) {
                    return Err(Fail::new(format!("an entry before changed: {d}")));
                }
            }
            let behind = w.len() - i - 1;
            for k in 0..behind {
                if let Some(d) = diff(w[w.len() - 1 - k], g[g.len() - 1 - k], names) {
                    return Err(Fail::new(format!("an entry behind changed: {d}")));
                }
            }
            let middle = &g[i..g.len() - behind];
            ensure!(
                middle.iter().any(|n| n.is_error()),
                "the malformed statement gave no error but {}",
                middle.iter().map(|n| n.show(names)).collect::<Vec<_>>().join(" and ")
            );
            Ok(true)
        }
        None => {
            // it is inside of one of the blocks
            ensure!(w.len() == g.len(), "{} entries where there were {} around it", g.len(), w.len());
            let mut found = false;
            for (a, b) in w.iter().zip(&g) {
                found |= spoiled_node(a, b, at, names)?;
            }
            Ok(found)
        }
    }
}

fn is_block(n: &Nd) -> bool {
    matches!(n.kind, "HowIzI" | "ImInYr" | "ORly" | "Wtf")
}

/// The same, for a statement with bodies: everything but the bodies is the same
fn spoiled_node(a: &Nd, b: &Nd, at: Ix, names: &dyn Fn(Ix) -> String) -> Result<bool, Fail> {
    ensure!(
        a.kind == b.kind && a.items.len() == b.items.len(),
        "around it, {} became {}",
        a.show(names),
        b.show(names)
    );
    let mut found = false;
    for ((f, x), (h, y)) in a.items.iter().zip(&b.items) {
        ensure!(f == h, "around it, {f} became {h}");
        match (x, y) {
            (It::Node(x), It::Node(y)) => {
                if x.kind == "Block" && y.kind == "Block" {
                    found |= spoiled(x, y, at, names)?;
                } else if matches!(x.kind, "YaRly" | "NoWai" | "Mebbe" | "Omg" | "OmgWtf") {
                    found |= spoiled_node(x, y, at, names)?;
                } else if let Some(d) = diff(x, y, names) {
                    return Err(Fail::new(format!("around it: {d}")));
                }
            }
            (x, y) => ensure!(x == y, "around it, a token changed"),
        }
    }
    Ok(found)
}

const FRESH: usize = 1 << 40;

fn spoil(c: &mut Case, p: &Prog) -> Res {
    if p.simple.is_empty() {
        return Ok(());
    }
    let mut r = c.sub();
    let (from, to) = *r.pick(&p.simple);
    let bad = malformed(&mut r, c);
    let (lex, starts) = p.replace(from, to, &bad);
    let st = if r.pct(60) { Style::plain() } else { Style::any(&mut r) };
    let laid = render(&lex, &starts, &st, &mut r, c.dict);
    c.note(&laid.text);
    let got = tree_over_lexemes(&laid)?;
    let n = bad.len();
    let got = got.map(&|i| {
        if i >= from && i < from + n {
            FRESH + i
        } else if i >= from + n && i < FRESH {
            i - n + (to - from)
        } else {
            i
        }
    });
    let ks: Vec<K> = p.kinds();
    let bad_k: Vec<K> = bad.iter().map(|l| l.k.clone()).collect();
    let names = |i: Ix| -> String {
        if i >= FRESH {
            namer(&bad_k)(i - FRESH - from)
        } else {
            namer(&ks)(i)
        }
    };
    let found = spoiled(&p.tree, &got, from, &names)?;
    if !found {
        return Err(Fail::new("the place of the malformed statement is gone"));
    }
    c.count("statements made malformed");
    let mut errors = Vec::new();
    got.errors(&mut errors);
    for e in errors {
        c.count(e.kind);
    }
    c.seen(&laid.text, p.starts.len() > 1);
    Ok(())
}

/// One more malformed statement where there are many
fn spoil_again(c: &mut Case, p: &Prog) -> Res {
    let mut r = c.sub();
    let odds = *r.pick(&[5, 30, 60, 95]);
    let mut q = Prog::empty();
    let mut i = 0;
    let (mut s, mut b) = (0, 0);
    let mut bad = 0;
    while i < p.lex.len() {
        while s < p.simple.len() && p.simple[s].0 < i {
            s += 1;
        }
        while b < p.starts.len() && p.starts[b] < i {
            b += 1;
        }
        if p.starts.get(b) == Some(&i) {
            q.starts.push(q.lex.len());
        }
        let to = match p.simple.get(s) {
            Some((from, to)) if *from == i => *to,
            _ => {
                q.lex.push(p.lex[i].clone());
                i += 1;
                continue;
            }
        };
        if r.pct(odds) {
            q.lex.extend(malformed(&mut r, c));
            bad += 1;
        } else {
            let at = q.lex.len();
            q.lex.extend(p.lex[i..to].iter().cloned());
            q.simple.push((at, q.lex.len()));
        }
        i = to;
    }
    let laid = render(&q.lex, &q.starts, &Style::plain(), &mut r, c.dict);
    c.note(&laid.text);
    q.tree = tree_over_lexemes(&laid)?;
    c.add("statements malformed before", bad);
    spoil(c, &q)
}

pub const C15: &[Load] = &[
    load("one more malformed statement", (24000, 350000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        spoil_again(c, &p)
    }),
    load("malformed statements in very large programs", (32, 320), (1, 1), |c| {
        let n = huge_size(c, 2).min(70000);
        let mut r = c.sub();
        let p = many_programs(&mut r, c, n);
        if c.index % 2 == 0 {
            spoil(c, &p)
        } else {
            spoil_again(c, &p)
        }
    }),
    load("a malformed statement in a program", (50000, 700000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        spoil(c, &p)
    }),
    load("a malformed statement in blocks", (40000, 600000), (20, 60), |c| {
        let mut r = c.sub();
        let mut g = Gen::new(&mut r, c.dict, c.size);
        g.max_blocks = 6;
        g.max_expr = 1;
        let mut entries = Vec::new();
        while g.budget > 0 {
            g.budget -= 1;
            let w = *g.rng.pick(BLOCKS);
            entries.push(g.block(w, 1));
            if g.rng.pct(30) {
                entries.push(g.simple(Simple::Visible));
            }
        }
        let p = g.finish(entries);
        spoil(c, &p)
    }),
];

// ---------------------------------------------------------------- C16

/// A documented mistake: lexemes of one statement, the error kind, and the lexemes it names
fn mistake(r: &mut Rng, c: &Case) -> (Vec<Lex>, &'static str, Vec<Ix>) {
    let which = r.below(36);
    mistake_n(r, c, which)
}

fn mistake_n(r: &mut Rng, c: &Case, which: usize) -> (Vec<Lex>, &'static str, Vec<Ix>) {
    let mut g = Gen::new(r, c.dict, 4);
    g.max_expr = 2;
    g.start();
    macro_rules! done {
        ($k:expr, $($t:expr),*) => {{ return (g.lex, $k, vec![$($t),*]); }};
    }
    // something that is no variable
    fn no_name(g: &mut Gen) -> Ix {
        let l = match g.rng.below(4) {
            0 => kwlex(g.rng.pick(&["VISIBLE", "AN", "R", "NUMBR", "SUM OF", "GTFO", "KTHXBYE", "HAI", "ITZ"])),
            1 => Lex {
                text: "+".into(),
                k: K::Sym("+".into()),
            },
            _ => gen::literal(g.rng, g.dict, 3),
        };
        g.push(l)
    }
    /// something no expression starts with
    fn no_expr(g: &mut Gen) -> Ix {
        let l = match g.rng.below(4) {
            0 => Lex {
                text: "*".into(),
                k: K::Sym("*".into()),
            },
            1 => Lex {
                text: "'Z".into(),
                k: K::Slot,
            },
            _ => kwlex(g.rng.pick(&[
                "ITZ", "R", "YR", "VISIBLE", "GTFO", "HAI", "AN", "TIL", "UPPIN", "NUMBR", "BUKKIT", "I HAS A", "MAEK", "IS NOW",
                "I IZ", "A", "TLDR", "KTHXBYE", "HAS A",
            ])),
        };
        g.push(l)
    }
    fn last_name(v: &Nd) -> Ix {
        let mut ts = Vec::new();
        v.tokens(&mut ts);
        ts.last().copied().unwrap_or(0)
    }
    match which {
        // names
        0 => {
            let k = g.kw("I HAS A");
            done!("Error:IHasA:MissingIdentifier", k)
        }
        1 => {
            g.kw("I HAS A");
            let t = no_name(&mut g);
            done!("Error:IHasA:InvalidIdentifier", t)
        }
        2 => {
            g.kw("I HAS A");
            g.identifier();
            let t = g.kw("ITZ");
            done!("Error:IHasA:ExpectedInitialValue", t)
        }
        3 => {
            g.kw("I HAS A");
            g.identifier();
            let t = if g.rng.pct(50) { no_name(&mut g) } else { g.ident() };
            if g.lex[t].text == "ITZ" {
                g.lex[t] = kwlex("R");
            }
            done!("Error:UnexpectedToken", t)
        }
        4 => {
            g.kw("I HAS A");
            g.identifier();
            g.kw("ITZ");
            let mut t = no_expr(&mut g);
            while matches!(g.lex[t].text.as_str(), "NUMBR" | "BUKKIT") {
                g.lex.pop();
                t = no_expr(&mut g);
            }
            done!("Error:UnexpectedToken", t)
        }
        // assignment
        5 => {
            let v = g.variable();
            let mut l = fuzz::any_lexeme(g.rng, g.dict, 3);
            while matches!(l.text.as_str(), "R" | "HAS A" | "'Z") {
                l = fuzz::any_lexeme(g.rng, g.dict, 3);
            }
            g.push(l);
            // the word behind is taken for the assignment word
            let t = last_name(&v);
            done!("Error:Assignment:MissingR", t)
        }
        6 => {
            g.variable();
            let t = g.kw("R");
            done!("Error:Assignment:ExpectedValue", t)
        }
        7 => {
            g.variable();
            g.kw("R");
            let t = no_expr(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        // slots
        8 => {
            g.variable();
            let t = g.kw("HAS A");
            done!("Error:Assignment:ExpectedValue", t)
        }
        9 => {
            g.variable();
            g.kw("HAS A");
            let t = no_name(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        10 => {
            g.variable();
            g.kw("HAS A");
            let v = g.identifier();
            let t = last_name(&v);
            done!("Error:MissingToken", t)
        }
        11 => {
            g.variable();
            g.kw("HAS A");
            g.identifier();
            let t = no_name(&mut g);
            if g.lex[t].text == "ITZ" {
                g.lex[t] = kwlex("R");
            }
            done!("Error:UnexpectedToken", t)
        }
        12 => {
            g.variable();
            g.kw("HAS A");
            g.identifier();
            let t = g.kw("ITZ");
            done!("Error:MissingToken", t)
        }
        // variable accesses
        13 => {
            if g.rng.pct(60) {
                g.kw("GIMMEH");
            }
            g.variable();
            let t = g.push(Lex {
                text: "'Z".into(),
                k: K::Slot,
            });
            done!("Error:MissingToken", t)
        }
        14 => {
            if g.rng.pct(60) {
                g.kw("VISIBLE");
            }
            g.variable();
            g.push(Lex {
                text: "'Z".into(),
                k: K::Slot,
            });
            let t = no_name(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        15 => {
            let what = *g.rng.pick(&["GIMMEH", "VISIBLE", "FOUND YR", "I HAS A", ""]);
            if !what.is_empty() {
                g.kw(what);
            }
            let t = g.kw("SRS");
            done!("Error:MissingToken", t)
        }
        16 => {
            let what = *g.rng.pick(&["GIMMEH", "VISIBLE", "FOUND YR", "I HAS A", ""]);
            if !what.is_empty() {
                g.kw(what);
            }
            g.kw("SRS");
            let t = no_name(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        // input, return, output
        17 => {
            let what = *g.rng.pick(&["GIMMEH", "FOUND YR"]);
            let t = g.kw(what);
            done!("Error:MissingToken", t)
        }
        18 => {
            g.kw("GIMMEH");
            let t = no_name(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        19 => {
            let what = *g.rng.pick(&["VISIBLE", "FOUND YR"]);
            g.kw(what);
            if what == "VISIBLE" {
                for _ in 0..g.rng.below(3) {
                    g.literal();
                }
            }
            let t = no_expr(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        // operators
        20 => {
            if g.rng.pct(50) {
                g.kw("VISIBLE");
            }
            let t = g.kw("NOT");
            done!("Error:MissingOperands", t)
        }
        21 => {
            if g.rng.pct(50) {
                g.kw("FOUND YR");
            }
            let op = *g.rng.pick(BINARY);
            let t = g.kw(op.0);
            done!("Error:MissingOperands", t)
        }
        22 => {
            if g.rng.pct(50) {
                g.kw("VISIBLE");
            }
            let op = *g.rng.pick(BINARY);
            let t = g.kw(op.0);
            g.expr(false);
            done!("Error:MissingOperands", t)
        }
        23 => {
            let op = *g.rng.pick(BINARY);
            let t = g.kw(op.0);
            g.expr(false);
            g.kw("AN");
            done!("Error:MissingOperands", t)
        }
        24 => {
            // inside of another
            let op = *g.rng.pick(BINARY);
            g.kw(op.0);
            g.literal();
            g.kw("AN");
            let op = *g.rng.pick(BINARY);
            let t = g.kw(op.0);
            g.literal();
            done!("Error:MissingOperands", t)
        }
        25 => {
            let op = *g.rng.pick(BINARY);
            g.kw(op.0);
            let second = g.rng.pct(50);
            if second {
                g.expr(false);
                if g.rng.pct(50) {
                    g.kw("AN");
                }
            }
            let t = no_expr(&mut g);
            if second && g.lex[t].text == "AN" || g.lex[t].text == "'Z" {
                g.lex[t] = kwlex("ITZ");
            }
            done!("Error:UnexpectedToken", t)
        }
        26 => {
            let op = *g.rng.pick(NARY);
            g.kw(op.0);
            for _ in 0..g.rng.below(4) {
                g.literal();
                g.kw("AN");
            }
            let t = no_expr(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        // calls
        27 => {
            let t = g.kw("I IZ");
            if g.rng.pct(50) {
                g.kw("MKAY");
            }
            done!("Error:IIz:MissingName", t)
        }
        28 => {
            g.kw("I IZ");
            g.variable();
            for _ in 0..g.rng.below(3) {
                g.kw("YR");
                g.expr(false);
                g.kw("AN");
            }
            let t = g.kw("YR");
            if g.rng.pct(50) {
                g.kw("MKAY");
            }
            done!("Error:IIz:MissingArgument", t)
        }
        29 => {
            let k = g.kw("I IZ");
            g.variable();
            for i in 0..g.rng.below(3) {
                if i > 0 {
                    g.kw("AN");
                }
                g.kw("YR");
                g.expr(false);
            }
            done!("Error:IIz:MissingMkay", k)
        }
        30 => {
            g.kw("I IZ");
            g.variable();
            g.kw("YR");
            g.literal();
            let t = no_expr(&mut g);
            if matches!(g.lex[t].text.as_str(), "AN" | "YR") {
                g.lex[t] = kwlex("ITZ");
            }
            done!("Error:IIz:MissingMkay", t)
        }
        31 => {
            g.kw("I IZ");
            let t = no_name(&mut g);
            done!("Error:UnexpectedToken", t)
        }
        // statements that start with nothing known
        32 => {
            let l = match g.rng.below(3) {
                0 => Lex {
                    text: "(".into(),
                    k: K::Sym("(".into()),
                },
                _ => kwlex(g.rng.pick(&[
                    "ITZ", "R", "AN", "MKAY", "YR", "HAS A", "A", "TIL", "WILE", "UPPIN", "NERFIN", "NUMBR", "NUMBAR", "YARN", "TROOF",
                    "BUKKIT", "MAEK", "IS NOW", "OMG", "OMGWTF", "YA RLY", "NO WAI", "MEBBE", "OIC", "IF U SAY SO", "IM OUTTA YR",
                    "TLDR",
                ])),
            };
            let t = g.push(l);
            done!("Error:UnexpectedToken", t)
        }
        // left-over tokens
        33 | 34 => {
            let w = *g.rng.pick(&[0usize, 1, 2, 3, 4, 5]);
            match w {
                0 => {
                    g.kw("I HAS A");
                    g.ident();
                    g.kw("ITZ");
                    g.literal();
                }
                1 => {
                    g.kw("GTFO");
                }
                2 => {
                    g.kw("KTHXBYE");
                }
                3 => {
                    g.kw("GIMMEH");
                    g.ident();
                }
                4 => {
                    g.kw("I HAS A");
                    g.ident();
                    g.kw("ITZ");
                    let t = *g.rng.pick(TYPES);
                    g.kw(t.0);
                }
                _ => {
                    g.ident();
                    g.kw("R");
                    g.literal();
                }
            }
            let from = g.lex.len();
            let n = g.count(1);
            for _ in 0..n {
                let mut l = fuzz::any_lexeme(g.rng, g.dict, 3);
                while l.text == "'Z" {
                    l = fuzz::any_lexeme(g.rng, g.dict, 3);
                }
                g.push(l);
            }
            let all: Vec<Ix> = (from..g.lex.len()).collect();
            (g.lex, "Error:TooManyTokens", all)
        }
        _ => {
            g.kw("FOUND YR");
            g.expr(false);
            // an operand needs an operator
            let from = g.lex.len();
            g.kw("AN");
            g.literal();
            let all: Vec<Ix> = (from..g.lex.len()).collect();
            (g.lex, "Error:TooManyTokens", all)
        }
    }
}

/// A documented mistake of a block: the whole block, closed as the mistake leaves it. Gives the
/// lexemes, the statement starts, the error and its tokens; what follows is for the rules to say.
fn block_mistake(r: &mut Rng, c: &Case, which: usize) -> (Vec<Lex>, Vec<Ix>, &'static str, Vec<Ix>) {
    let mut g = Gen::new(r, c.dict, 3);
    g.max_expr = 1;
    g.budget = 2;
    g.max_blocks = 0;
    g.start();
    let err: &'static str;
    let mut toks: Vec<Ix> = Vec::new();
    fn lit(g: &mut Gen) -> Ix {
        let l = gen::int_literal(g.rng, g.dict);
        g.push(l)
    }
    fn header(g: &mut Gen, w: usize) -> Ix {
        match w {
            0 => {
                let k = g.kw("HOW IZ I");
                g.ident();
                k
            }
            1 => {
                let k = g.kw("IM IN YR");
                g.ident();
                k
            }
            2 => {
                let k = g.kw("O RLY");
                g.question();
                k
            }
            _ => {
                let k = g.kw("WTF");
                g.question();
                k
            }
        }
    }
    match which {
        0 => {
            // never closed
            let w = g.rng.below(4);
            let k = header(&mut g, w);
            if w == 2 {
                g.start();
                g.kw("YA RLY");
            }
            if w == 3 {
                g.start();
                g.kw("OMG");
                lit(&mut g);
            }
            g.body(1);
            err = if w == 1 { "Error:ImInYr:MissingImOuttaYr" } else { "Error:MissingBlockClosingToken" };
            toks.push(k);
        }
        1 => {
            let k = g.kw("HOW IZ I");
            err = "Error:HowIsI:MissingNameIdentifier";
            toks.push(k);
        }
        2 => {
            g.kw("HOW IZ I");
            let t = lit(&mut g);
            err = "Error:UnexpectedToken";
            toks.push(t);
        }
        3 => {
            g.kw("HOW IZ I");
            g.ident();
            for _ in 0..g.rng.below(3) {
                g.kw("YR");
                g.ident();
                g.kw("AN");
            }
            let t = g.kw("YR");
            err = "Error:MissingToken";
            toks.push(t);
        }
        4 => {
            let k = g.kw("IM IN YR");
            err = "Error:ImInYr:MissingStartLabel";
            toks.push(k);
        }
        5 => {
            g.kw("IM IN YR");
            let t = lit(&mut g);
            err = "Error:ImInYr:InvalidStartLabel";
            toks.push(t);
        }
        6 => {
            g.kw("IM IN YR");
            g.ident();
            let t = if g.rng.pct(50) { g.ident() } else { lit(&mut g) };
            g.kw("YR");
            g.ident();
            err = "Error:ImInYr:InvalidOperation";
            toks.push(t);
        }
        7 => {
            g.kw("IM IN YR");
            g.ident();
            let o = *g.rng.pick(&["UPPIN", "NERFIN"]);
            g.kw(o);
            let t = g.ident();
            err = "Error:ImInYr:MissingYr";
            toks.push(t);
        }
        8 => {
            g.kw("IM IN YR");
            g.ident();
            let o = *g.rng.pick(&["UPPIN", "NERFIN"]);
            let t = g.kw(o);
            if g.rng.pct(50) {
                g.kw("YR");
            }
            err = "Error:ImInYr:MissingOperand";
            toks.push(t);
        }
        9 => {
            g.kw("IM IN YR");
            g.ident();
            g.kw("UPPIN");
            g.kw("YR");
            g.ident();
            let t = if g.rng.pct(50) { g.ident() } else { lit(&mut g) };
            err = "Error:ImInYr:InvalidConditional";
            toks.push(t);
        }
        10 => {
            g.kw("IM IN YR");
            g.ident();
            if g.rng.pct(50) {
                g.kw("NERFIN");
                g.kw("YR");
                g.ident();
            }
            let o = *g.rng.pick(&["TIL", "WILE"]);
            let t = g.kw(o);
            err = "Error:ImInYr:MissingConditionalExpression";
            toks.push(t);
        }
        11 => {
            header(&mut g, 1);
            g.body(1);
            g.start();
            let t = g.kw("IM OUTTA YR");
            err = "Error:ImInYr:MissingEndLabel";
            toks.push(t);
        }
        12 => {
            header(&mut g, 1);
            g.body(1);
            g.start();
            g.kw("IM OUTTA YR");
            let t = lit(&mut g);
            err = "Error:ImInYr:InvalidEndLabel";
            toks.push(t);
        }
        13 => {
            let o = *g.rng.pick(&["O RLY", "WTF"]);
            let t = g.kw(o);
            err = "Error:ORly:MissingQuestionMark";
            toks.push(t);
        }
        14 => {
            header(&mut g, 2);
            if g.rng.pct(50) {
                g.start();
                g.kw("YA RLY");
                g.body(1);
            }
            g.start();
            let t = g.kw("MEBBE");
            err = "Error:ORly:MissingMebbeExpression";
            toks.push(t);
        }
        15 => {
            header(&mut g, 3);
            g.start();
            let t = g.kw("OMG");
            err = "Error:MissingToken";
            toks.push(t);
        }
        16 => {
            // a branch where none can be
            header(&mut g, 2);
            g.start();
            g.kw("NO WAI");
            g.body(1);
            g.start();
            let o = *g.rng.pick(&["YA RLY", "MEBBE", "NO WAI"]);
            let t = g.kw(o);
            err = "Error:UnexpectedToken";
            toks.push(t);
        }
        17 => {
            header(&mut g, 3);
            g.start();
            g.kw("OMGWTF");
            g.body(1);
            g.start();
            let o = *g.rng.pick(&["OMG", "OMGWTF"]);
            let t = g.kw(o);
            err = "Error:UnexpectedToken";
            toks.push(t);
        }
        18 => {
            // left-over tokens in a header
            let w = g.rng.below(4);
            header(&mut g, w);
            if w == 1 {
                g.kw("TIL");
                lit(&mut g);
            }
            let from = g.lex.len();
            for _ in 0..g.rng.range(1, 3) {
                lit(&mut g);
            }
            err = "Error:TooManyTokens";
            toks = (from..g.lex.len()).collect();
        }
        19 => {
            // left-over tokens in a branch's header
            let w = g.rng.below(5);
            header(&mut g, if w < 3 { 2 } else { 3 });
            g.start();
            match w {
                0 => {
                    g.kw("YA RLY");
                }
                1 => {
                    g.kw("MEBBE");
                    lit(&mut g);
                }
                2 => {
                    g.kw("NO WAI");
                }
                3 => {
                    g.kw("OMG");
                    lit(&mut g);
                }
                _ => {
                    g.kw("OMGWTF");
                }
            }
            let from = g.lex.len();
            for _ in 0..g.rng.range(1, 3) {
                lit(&mut g);
            }
            err = "Error:TooManyTokens";
            toks = (from..g.lex.len()).collect();
        }
        20 => {
            // left-over tokens behind a closer
            let w = g.rng.below(4);
            header(&mut g, w);
            if w == 0 || w == 1 {
                g.body(1);
            }
            g.start();
            match w {
                0 => {
                    g.kw("IF U SAY SO");
                }
                1 => {
                    g.kw("IM OUTTA YR");
                    g.ident();
                }
                _ => {
                    g.kw("OIC");
                }
            }
            let from = g.lex.len();
            for _ in 0..g.rng.range(1, 3) {
                lit(&mut g);
            }
            err = "Error:TooManyTokens";
            toks = (from..g.lex.len()).collect();
        }
        _ => {
            // a parameter that is none
            g.kw("HOW IZ I");
            g.ident();
            g.kw("YR");
            let t = lit(&mut g);
            err = "Error:UnexpectedToken";
            toks.push(t);
        }
    }
    (g.lex, g.starts, err, toks)
}

fn one_mistake(c: &mut Case) -> Res {
    let mut r = c.sub();
    let (bad, err, toks) = mistake_n(&mut r, c, c.index % 36);
    let p = if r.pct(60) {
        gen::program(&mut r, c.dict, c.size)
    } else {
        Prog {
            lex: vec![kwlex("GTFO")],
            starts: vec![0],
            tree: Nd::new("Block").node("stmt", Nd::new("Gtfo").tok("keyword", 0)),
            simple: vec![(0, 1)],
        }
    };
    if p.simple.is_empty() {
        return Ok(());
    }
    let (from, to) = *r.pick(&p.simple);
    let (lex, starts) = p.replace(from, to, &bad);
    // a mistake that looks like the end of the block around it is another one
    if OPENERS.contains(&bad[0].text.as_str()) && p.lex.len() > 1 {
        return Ok(());
    }
    let st = if r.pct(60) { Style::plain() } else { Style::any(&mut r) };
    let laid = render(&lex, &starts, &st, &mut r, c.dict);
    c.note(&laid.text);
    let got = tree_over_lexemes(&laid)?;
    let mut errors = Vec::new();
    got.errors(&mut errors);
    let want = Nd::new(err).toks("token", &toks.iter().map(|t| t + from).collect::<Vec<_>>());
    let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
    let names = namer(&ks);
    let Some(first) = errors.first() else {
        return Err(Fail::new(format!("no error where {} was expected", want.show(&names))));
    };
    if let Some(d) = diff(&want, first, &names) {
        return Err(Fail::new(d));
    }
    // whatever else is said is about the rest of the same statement
    for e in &errors[1..] {
        let mut ts = Vec::new();
        e.tokens(&mut ts);
        ensure!(
            e.kind == "Error:TooManyTokens" && ts.iter().all(|t| *t >= from && *t < from + bad.len()),
            "a second error: {}",
            e.show(&names)
        );
    }
    c.count("mistakes made");
    c.count(err);
    c.seen(&laid.text, true);
    Ok(())
}

fn one_block_mistake(c: &mut Case) -> Res {
    let mut r = c.sub();
    let (bad, bad_starts, err, toks) = block_mistake(&mut r, c, c.index % 22);
    // a program in front, at times one behind
    let p = if r.pct(60) {
        gen::program(&mut r, c.dict, c.size)
    } else {
        Prog::empty()
    };
    let from = p.lex.len();
    let mut lex = p.lex.clone();
    let mut starts = p.starts.clone();
    lex.extend(bad.iter().cloned());
    starts.extend(bad_starts.iter().map(|s| s + from));
    let st = if r.pct(60) { Style::plain() } else { Style::any(&mut r) };
    let laid = render(&lex, &starts, &st, &mut r, c.dict);
    c.note(&laid.text);
    let got = tree_over_lexemes(&laid)?;
    let ks: Vec<K> = lex.iter().map(|l| l.k.clone()).collect();
    let names = namer(&ks);
    let n = p.tree.items.len();
    ensure!(got.items.len() > n, "the mistake left no entry");
    for k in 0..n {
        if let (It::Node(a), It::Node(b)) = (&p.tree.items[k].1, &got.items[k].1) {
            if let Some(d) = diff(a, b, &names) {
                return Err(Fail::new(format!("an entry before changed: {d}")));
            }
        }
    }
    let want = Nd::new(err).toks("token", &toks.iter().map(|t| t + from).collect::<Vec<_>>());
    let mut errors = Vec::new();
    got.errors(&mut errors);
    let Some(first) = errors.first() else {
        return Err(Fail::new(format!("no error where {} was expected", want.show(&names))));
    };
    if let Some(d) = diff(&want, first, &names) {
        return Err(Fail::new(d));
    }
    c.count("mistakes made");
    c.count(err);
    c.seen(&laid.text, true);
    Ok(())
}

/// Damaged programs: the list of errors the rules prescribe
fn error_list(c: &mut Case) -> Res {
    let mut r = c.sub();
    let p = gen::program(&mut r, c.dict, c.size);
    let (lex, starts) = fuzz::damage(&p, &mut r, c.dict);
    let st = Style::any(&mut r);
    let laid = render(&lex, &starts, &st, &mut r, c.dict);
    errors_of(c, &laid.text)
}

fn errors_of(c: &mut Case, text: &str) -> Res {
    c.note(text);
    let tokens = sut::lex_ok(text)?;
    let ks = kinds(&tokens);
    let names = namer(&ks);
    let want_tree = refparse::parse(&ptoks(&tokens));
    let got_tree = tree_of(&tokens)?;
    let (mut want, mut got) = (Vec::new(), Vec::new());
    want_tree.errors(&mut want);
    got_tree.errors(&mut got);
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) => {
                if let Some(d) = diff(w, g, &names) {
                    return Err(Fail::new(format!("error {i}: {d}")));
                }
            }
            (Some(w), None) => return Err(Fail::new(format!("error {i} is missing: {}", w.show(&names)))),
            (None, Some(g)) => return Err(Fail::new(format!("error {i} should not be: {}", g.show(&names)))),
            (None, None) => {}
        }
    }
    for e in &want {
        c.count(e.kind);
    }
    c.add("errors compared", want.len() as u64);
    c.seen(text, !want.is_empty());
    Ok(())
}

pub const C16: &[Load] = &[
    load("every documented mistake of a statement", (50000, 700000), (15, 60), one_mistake),
    load("every documented mistake of a block", (30000, 400000), (15, 60), one_block_mistake),
    load("errors of damaged programs", (30000, 500000), (25, 80), error_list),
    load("errors of very large texts", (16, 200), (1, 1), |c| {
        let n = huge_size(c, 1);
        let mut r = c.sub();
        let (lex, starts) = many_lexemes(&mut r, c, n);
        let t = render(&lex, &starts, &Style::plain(), &mut r, c.dict).text;
        errors_of(c, &t)
    }),
    load("one mistake very many times", (36 + 22, 360 + 220), (1, 1), |c| {
        // the same mistake, or all of them, over and over
        let k = c.index % 58;
        let n = if k < 36 { 40_000 } else { 8_000 };
        let mut r = c.sub();
        let (mut lex, mut starts) = (Vec::new(), Vec::new());
        while lex.len() < n {
            let at = lex.len();
            let which = if r.pct(90) { k } else { r.below(58) };
            if which < 36 {
                let (bad, ..) = mistake_n(&mut r, c, which);
                if bad.iter().any(|l| OPENERS.contains(&l.text.as_str())) {
                    lex.push(kwlex("ITZ"));
                } else {
                    lex.extend(bad);
                }
                starts.push(at);
            } else {
                let (bad, s, ..) = block_mistake(&mut r, c, which - 36);
                starts.extend(s.iter().map(|i| i + at));
                lex.extend(bad);
                if r.pct(50) {
                    starts.push(lex.len());
                    lex.push(kwlex(r.pick(&["OIC", "IF U SAY SO"])));
                }
            }
        }
        let t = render(&lex, &starts, &Style::plain(), &mut r, c.dict).text;
        errors_of(c, &t)
    }),
    load("well-formed programs", (8000, 120000), (30, 100), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let laid = render(&p.lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let t = tree_over_lexemes(&laid)?;
        let mut errors = Vec::new();
        t.errors(&mut errors);
        if let Some(e) = errors.first() {
            return Err(Fail::new(format!("an error in a well-formed program: {}", e.show(&namer(&p.kinds())))));
        }
        c.count("well-formed programs");
        c.seen(&laid.text, p.lex.len() > 1);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C17

fn conserved(c: &mut Case, tokens: &[Token]) -> Res {
    let t = tree_of(tokens)?; // every token of the tree is one of the parsed ones, unchanged
    let ks = kinds(tokens);
    let mut used = vec![0u32; tokens.len()];
    let mut all = Vec::new();
    t.tokens(&mut all);
    for i in &all {
        used[*i] += 1;
        ensure!(used[*i] < 2, "token {} appears twice in the tree", namer(&ks)(*i));
    }
    c.add("tokens of trees traced back", all.len() as u64);
    if !has_errors(&t) {
        for (i, n) in used.iter().enumerate() {
            if *n > 0 {
                continue;
            }
            let connecting = match &ks[i] {
                K::Comma | K::Ellipsis | K::Quest | K::Com(_) | K::MCom(_) => true,
                K::Sym(s) => s == "?",
                K::Kw(k) => matches!(
                    crate::kinds::KW[*k].1,
                    "ITZ" | "HAS A" | "YR" | "AN" | "MKAY" | "TIL" | "WILE" | "IF U SAY SO" | "IM OUTTA YR" | "OIC"
                ),
                _ => false,
            };
            ensure!(connecting, "token {} is lost", namer(&ks)(i));
        }
        c.count("error-free trees with nothing lost");
    } else {
        c.count("trees with errors");
    }
    Ok(())
}

pub const C17: &[Load] = &[
    load("texts of every kind", (50000, 700000), (30, 100), |c| {
        let mut r = c.sub();
        let t = fuzz::any_lexable(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        conserved(c, &tokens)?;
        c.seen(&t, tokens.len() > 1);
        Ok(())
    }),
    load("programs", (25000, 400000), (30, 100), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let laid = render(&p.lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let tokens = sut::lex_ok(&laid.text)?;
        conserved(c, &tokens)?;
        c.seen(&laid.text, tokens.len() > 1);
        Ok(())
    }),
    load("token lists given directly", (40000, 600000), (30, 100), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = show_all(&tokens);
        c.note(&text);
        conserved(c, &tokens)?;
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("large programs", (200, 2500), (600, 3000), |c| {
        let mut r = c.sub();
        let t = if r.pct(50) {
            fuzz::damaged_text(&mut r, c.dict, c.size)
        } else {
            let p = gen::program(&mut r, c.dict, c.size);
            render(&p.lex, &p.starts, &Style::plain(), &mut r, c.dict).text
        };
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        conserved(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
    load("very large texts", (16, 200), (1, 1), |c| {
        let n = huge_size(c, 1);
        let mut r = c.sub();
        let (lex, starts) = many_lexemes(&mut r, c, n);
        let t = render(&lex, &starts, &Style::plain(), &mut r, c.dict).text;
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        conserved(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
    load("one thing very many times", (2 * crate::sysc::DIMENSIONS.len(), 5 * crate::sysc::DIMENSIONS.len()), (1, 1), |c| {
        let t = one_dimension(c);
        let tokens = sut::lex_ok(&t)?;
        conserved(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
];

/// One thing repeated very many times
fn one_dimension(c: &mut Case) -> String {
    let d = crate::sysc::DIMENSIONS.len();
    let n = huge_size(c, d);
    let t = crate::sysc::dimension(c.index % d, n);
    c.note(&format!("{n} {}", crate::sysc::DIMENSIONS[c.index % d].0));
    t
}

// ---------------------------------------------------------------- C18

fn has_extent(kind: &str) -> bool {
    kind.starts_with("Unary:")
        || kind.starts_with("Binary:")
        || kind.starts_with("Nary:")
        || matches!(kind, "Variable" | "Identifier" | "Slot" | "Literal" | "Assignment")
}

/// Every node with an extent, under its kind and first token
fn extents(n: &Nd, out: &mut HashMap<(&'static str, Ix), Vec<Ix>>) {
    if has_extent(n.kind) || n.kind.starts_with("Type:") {
        let mut ts = Vec::new();
        n.tokens(&mut ts);
        if let Some(f) = ts.first() {
            out.insert((n.kind, *f), ts);
        }
    }
    for (_, i) in &n.items {
        if let It::Node(x) = i {
            extents(x, out);
        }
    }
}

fn spans(c: &mut Case, tokens: &[Token]) -> Res {
    let block = sut::parse(tokens)?;
    let reference = refparse::parse(&ptoks(tokens));
    let mut want = HashMap::new();
    extents(&reference, &mut want);
    let spans = guard("iterating over the tokens of the tree", || hooks::spans(&block))?;
    let finder = tree::Finder::new(tokens);
    let ks = kinds(tokens);
    let names = namer(&ks);
    // the tokens that are neither comments nor continuations, in source order
    let order: Vec<Ix> = (0..tokens.len())
        .filter(|i| !ks[*i].is_comment() && ks[*i] != K::Ellipsis)
        .collect();
    let rank: HashMap<Ix, usize> = order.iter().copied().enumerate().map(|(r, i)| (i, r)).collect();
    for s in &spans {
        let t = finder.tree(&s.tree)?;
        let mut own = Vec::new();
        t.tokens(&mut own);
        let what = format!("{} {}", s.source, t.show(&names));
        ensure!(!own.is_empty(), "{what} has no tokens");
        if let Some(got) = &s.tokens {
            let mut ix = Vec::new();
            for g in got {
                ix.push(finder.find(g)?);
            }
            ensure!(
                ix == own,
                "{what}: iterating gives {:?} but its tokens are {:?}",
                ix.iter().map(|i| names(*i)).collect::<Vec<_>>(),
                own.iter().map(|i| names(*i)).collect::<Vec<_>>()
            );
            // contiguous in the source
            for w in ix.windows(2) {
                ensure!(
                    rank.get(&w[1]) == rank.get(&w[0]).map(|r| r + 1).as_ref(),
                    "{what}: between {} and {} the source has other tokens, or they are out of order",
                    names(w[0]),
                    names(w[1])
                );
            }
            if let Some(w) = want.get(&(t.kind, ix[0])) {
                ensure!(
                    *w == ix,
                    "{what}: iterating gives {:?} but it was parsed from {:?}",
                    ix.iter().map(|i| names(*i)).collect::<Vec<_>>(),
                    w.iter().map(|i| names(*i)).collect::<Vec<_>>()
                );
                c.count("extents compared with the grammar's");
            }
            ensure!(s.after_end.is_empty(), "{what}: the iterator gives more after its end");
            ensure!(s.unlike.is_empty(), "{what}: the iterator gives another outcome when used with {:?}", s.unlike);
            c.add("tokens iterated", ix.len() as u64);
        }
        if let Some((a, b)) = &s.range {
            let last = want
                .get(&(t.kind, own[0]))
                .and_then(|w| w.last().copied())
                .unwrap_or(*own.last().unwrap_or(&0));
            let (wa, wb) = (tokens[own[0]].range.0, tokens[last].range.1);
            ensure!(
                same_position(a, &wa) && same_position(b, &wb),
                "{what}: its range is {a:?} bytes {} to {b:?} bytes {}, not {wa:?} bytes {} to {wb:?} bytes {}",
                a.bytes,
                b.bytes,
                wa.bytes,
                wb.bytes
            );
            c.count("ranges checked");
        }
        if let Some((a, b)) = &s.operator {
            let (x, y) = (finder.find(a)?, finder.find(b)?);
            ensure!(x == own[0] && y == own[0], "{what}: its operator's token is {} and {}", names(x), names(y));
            let ok = match &ks[x] {
                K::Kw(k) => {
                    let text = crate::kinds::KW[*k].1;
                    let kinds = BINARY
                        .iter()
                        .chain(NARY)
                        .chain(TYPES)
                        .chain(&[("NOT", "Unary:Not"), ("NOOB", "Type:Noob")])
                        .find(|(t, _)| *t == text);
                    kinds.map(|k| k.1) == Some(t.kind)
                }
                _ => false,
            };
            ensure!(ok, "{what}: its operator's token {} is another keyword", names(x));
            c.count("operators checked");
        }
        c.count(s.source);
    }
    Ok(())
}

pub const C18: &[Load] = &[
    load("programs", (25000, 400000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let laid = render(&p.lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let tokens = sut::lex_ok(&laid.text)?;
        spans(c, &tokens)?;
        c.seen(&laid.text, tokens.len() > 1);
        Ok(())
    }),
    load("expressions", (30000, 450000), (40, 120), |c| {
        let mut r = c.sub();
        let mut g = Gen::new(&mut r, c.dict, c.size);
        let w = *g.rng.pick(&[Simple::Expression, Simple::Assignment, Simple::Visible, Simple::IIz]);
        let n = g.simple(w);
        let p = g.finish(vec![n]);
        let st = if r.pct(50) { Style::plain() } else { Style::any(&mut r) };
        let laid = render(&p.lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let tokens = sut::lex_ok(&laid.text)?;
        spans(c, &tokens)?;
        c.seen(&laid.text, tokens.len() > 1);
        Ok(())
    }),
    load("texts of every kind", (25000, 400000), (25, 80), |c| {
        let mut r = c.sub();
        let t = fuzz::any_lexable(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        spans(c, &tokens)?;
        c.seen(&t, tokens.len() > 1);
        Ok(())
    }),
    load("token lists given directly", (25000, 400000), (25, 80), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = show_all(&tokens);
        c.note(&text);
        spans(c, &tokens)?;
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("wide expressions", (600, 8000), (40, 200), |c| {
        let mut r = c.sub();
        let n = (*r.pick(gen::SIZES)).max(*r.pick(gen::BIG_SIZES) * r.below(2)).min(c.size * 20 + 1);
        let mut g = Gen::new(&mut r, c.dict, 3);
        g.start();
        let chain = g.rng.pct(40);
        let op = *g.rng.pick(NARY);
        if chain {
            g.identifier();
            for _ in 0..n {
                g.push(Lex {
                    text: "'Z".into(),
                    k: K::Slot,
                });
                g.identifier();
            }
        } else {
            g.kw(op.0);
            for _ in 0..n {
                g.literal();
                g.an();
            }
            if g.rng.pct(50) {
                g.kw("MKAY");
            }
        }
        let lex = g.lex;
        let laid = render(&lex, &[0], &Style::plain(), &mut r, c.dict);
        c.note(&laid.text);
        let tokens = sut::lex_ok(&laid.text)?;
        spans(c, &tokens)?;
        c.count("wide expressions");
        c.seen(&laid.text, true);
        Ok(())
    }),
    load("very large texts", (16, 200), (1, 1), |c| {
        let n = huge_size(c, 1);
        let mut r = c.sub();
        let (lex, starts) = many_lexemes(&mut r, c, n);
        let t = render(&lex, &starts, &Style::plain(), &mut r, c.dict).text;
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        spans(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
    load("one thing very many times", (2 * crate::sysc::DIMENSIONS.len(), 5 * crate::sysc::DIMENSIONS.len()), (1, 1), |c| {
        let t = one_dimension(c);
        let tokens = sut::lex_ok(&t)?;
        spans(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C19

/// The ways to use an iterator that give something else than asking for one item at a time
pub fn unlike_one_by_one<'a, T: 'a, I: Iterator<Item = &'a T>>(make: &dyn Fn() -> I) -> Vec<&'static str> {
    let mut items: Vec<&T> = Vec::new();
    let mut it = make();
    while let Some(x) = it.next() {
        items.push(x);
    }
    let n = items.len();
    let same = |v: &[&T], from: usize| v.len() == n - from && v.iter().zip(&items[from..]).all(|(a, b)| std::ptr::eq(*a, *b));
    let hint = |it: &I, left: usize| {
        let (low, high) = it.size_hint();
        low <= left && high.map_or(true, |h| h >= left)
    };
    let mut unlike = Vec::new();
    if !hint(&make(), n) {
        unlike.push("size_hint");
    } else if !same(&make().collect::<Vec<_>>(), 0) {
        unlike.push("collect");
    }
    if make().count() != n {
        unlike.push("count");
    }
    if make().last().map(|x| x as *const T) != items.last().map(|x| *x as *const T) {
        unlike.push("last");
    }
    let mut it = make();
    let mut parts: Vec<&T> = it.by_ref().take(n / 2).collect();
    if !hint(&it, n - n / 2) {
        unlike.push("size_hint half way");
    }
    it.for_each(|x| parts.push(x));
    if !same(&parts, 0) {
        unlike.push("take, then for_each");
    }
    for k in [0, n / 3, n] {
        let mut it = make();
        let x = it.nth(k);
        let rest: Vec<&T> = it.collect();
        if x.map(|x| x as *const T) != items.get(k).map(|x| *x as *const T) || !same(&rest, n.min(k + 1)) {
            unlike.push("nth");
        }
    }
    unlike
}

fn error_iteration(c: &mut Case, tokens: &[Token]) -> Res {
    let block: ASTBlock = sut::parse(tokens)?;
    let finder = tree::Finder::new(tokens);
    let (listed, after) = guard("iterating over errors", || {
        let mut it = block.iter_errors();
        let mut v = Vec::new();
        let limit = tokens.len() * 2 + 10;
        while let Some(e) = it.next() {
            v.push(hooks::export_error(e));
            if v.len() > limit {
                break;
            }
        }
        let after = (0..2).filter_map(|_| it.next()).count();
        (v, after)
    })?;
    if listed.len() < 300 {
        let unlike = guard("iterating over errors", || unlike_one_by_one(&|| block.iter_errors()))?;
        ensure!(unlike.is_empty(), "the errors are others when iterated with {unlike:?}");
    }
    let whole = index(&block, tokens)?;
    let ks = kinds(tokens);
    let names = namer(&ks);
    let mut got = Vec::new();
    for e in &listed {
        got.push(finder.tree(e)?);
    }
    let mut want = Vec::new();
    whole.errors(&mut want);
    for i in 0..want.len().max(got.len()) {
        match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) => {
                if let Some(d) = diff(w, g, &names) {
                    return Err(Fail::new(format!("error {i}: {d}")));
                }
            }
            (Some(w), None) => {
                return Err(Fail::new(format!("error {i} of {} is not visited: {}", want.len(), w.show(&names))))
            }
            (None, Some(g)) => return Err(Fail::new(format!("visited, but not in the tree (again): {}", g.show(&names)))),
            _ => {}
        }
    }
    ensure!(after == 0, "the iterator goes on after its end");
    // source order
    let mut last = 0;
    for e in &got {
        let mut ts = Vec::new();
        e.tokens(&mut ts);
        let at = ts.iter().min().copied().unwrap_or(0);
        // an error that names an opener may come behind errors inside of its block; those are
        // not part of the tree any more, so entries are in order of where they end up
        if at < last {
            c.count("errors naming an earlier token");
        }
        last = last.max(at);
    }
    // each visited by reference: the very entries of the tree
    let direct = guard("iterating over errors", || block.iter_errors().cloned().collect::<Vec<_>>())?;
    ensure!(direct.len() == got.len(), "a second iteration gives {} errors, not {}", direct.len(), got.len());
    c.add("errors visited", got.len() as u64);
    let depth = error_depth(&whole, 0);
    for (d, n) in depth {
        c.add(&format!("errors at block depth {}", d.min(9)), n);
    }
    Ok(())
}

fn error_depth(n: &Nd, d: usize) -> HashMap<usize, u64> {
    let mut m = HashMap::new();
    let here = if n.kind == "Block" { d + 1 } else { d };
    for (_, i) in &n.items {
        if let It::Node(x) = i {
            if x.is_error() {
                *m.entry(here - 1).or_insert(0) += 1;
            } else {
                for (k, v) in error_depth(x, here) {
                    *m.entry(k).or_insert(0) += v;
                }
            }
        }
    }
    m
}

/// Programs in which many simple statements are malformed
fn many_errors(c: &mut Case) -> Res {
    let mut r = c.sub();
    let mut g = Gen::new(&mut r, c.dict, c.size);
    g.max_blocks = 6;
    g.max_expr = 1;
    let mut entries = Vec::new();
    while g.budget > 0 {
        g.budget -= 1;
        if g.rng.pct(50) {
            let w = *g.rng.pick(BLOCKS);
            entries.push(g.block(w, 1));
        } else {
            entries.extend(g.any(0));
        }
    }
    let p = g.finish(entries);
    let odds = r.range(20, 100) as u32;
    let mut lex = Vec::new();
    let mut starts = Vec::new();
    let mut i = 0;
    let mut bad = 0;
    while i < p.lex.len() {
        if let Some((_, to)) = p.simple.iter().find(|s| s.0 == i) {
            starts.push(lex.len());
            if r.pct(odds) {
                lex.extend(malformed(&mut r, c));
                bad += 1;
            } else {
                lex.extend(p.lex[i..*to].iter().cloned());
            }
            i = *to;
            continue;
        }
        if p.starts.contains(&i) {
            starts.push(lex.len());
        }
        lex.push(p.lex[i].clone());
        i += 1;
    }
    let laid = render(&lex, &starts, &Style::plain(), &mut r, c.dict);
    c.note(&laid.text);
    let tokens = sut::lex_ok(&laid.text)?;
    let t = tree_of(&tokens)?;
    let mut errors = Vec::new();
    t.errors(&mut errors);
    ensure!(errors.len() >= bad, "{bad} statements are malformed, but the tree has {} errors", errors.len());
    error_iteration(c, &tokens)?;
    c.add("statements made malformed", bad as u64);
    c.seen(&laid.text, bad > 0);
    Ok(())
}

/// An error in each clause of each block, by hand
fn error_in_clause(c: &mut Case) -> Res {
    let mut r = c.sub();
    let depth = r.range(1, 4);
    let mut text = String::from("ITZ 0\n");
    let mut close: Vec<&str> = Vec::new();
    for d in 0..depth {
        match (c.index >> (3 * d)) % 8 {
            0 => {
                text.push_str("HOW IZ I f YR a AN YR b\nITZ 1\n");
                close.push("ITZ 2\nIF U SAY SO\n");
            }
            1 => {
                text.push_str("IM IN YR l\n");
                close.push("ITZ 2\nIM OUTTA YR l\n");
            }
            2 => {
                text.push_str("O RLY?\nYA RLY\nITZ 3\n");
                close.push("MEBBE x\nITZ 4\nMEBBE y\nITZ 5\nNO WAI\nITZ 6\nOIC\n");
            }
            3 => {
                text.push_str("O RLY?\nYA RLY\nITZ 3\nMEBBE x\nITZ 4\n");
                close.push("MEBBE y\nITZ 5\nNO WAI\nITZ 6\nOIC\n");
            }
            4 => {
                text.push_str("O RLY?\nMEBBE x\nMEBBE y\nITZ 5\nNO WAI\nITZ 6\n");
                close.push("OIC\n");
            }
            5 => {
                text.push_str("WTF?\nOMG 1\nITZ 3\n");
                close.push("OMG 2\nITZ 4\nOMG 3\nITZ 5\nOMGWTF\nITZ 6\nOIC\n");
            }
            6 => {
                text.push_str("WTF?\nOMG 1\nITZ 3\nOMG 2\nITZ 4\nOMG 3\n");
                close.push("ITZ 5\nOMGWTF\nITZ 6\nOIC\n");
            }
            _ => {
                text.push_str("WTF?\nOMGWTF\n");
                close.push("ITZ 6\nOIC\n");
            }
        }
    }
    while let Some(s) = close.pop() {
        text.push_str(s);
    }
    text.push_str("ITZ 7\nHAI 1.2");
    c.note(&text);
    itz_errors(c, &text)
}

/// Very many branches, cases, statements or functions, errors in most of them
fn clauses_with_errors(r: &mut Rng, n: usize, what: usize) -> String {
    let odds = *r.pick(&[100, 100, 50, 3]);
    let mut t = String::new();
    t.push_str(["O RLY?\nYA RLY\nITZ 1\n", "WTF?\n", "", "IM IN YR l\n"][what]);
    for i in 0..n {
        t.push_str(["MEBBE x\n", "OMG 1\n", "HOW IZ I f\n", ""][what]);
        if r.pct(odds) || i + 1 == n {
            t.push_str("ITZ 2\n");
        } else {
            t.push_str("GTFO\n");
        }
        if what == 2 {
            t.push_str("IF U SAY SO\n");
        }
    }
    t.push_str(["NO WAI\nITZ 3\nOIC\n", "OMGWTF\nITZ 3\nOIC\n", "ITZ 3\n", "IM OUTTA YR l\nITZ 3\n"][what]);
    t
}

/// Errors come from statements that begin with ITZ, and nowhere else: exactly those are visited
fn itz_errors(c: &mut Case, text: &str) -> Res {
    let tokens = sut::lex_ok(text)?;
    let mut want = Vec::new();
    for (i, t) in tokens.iter().enumerate() {
        // every ITZ is an unexpected token, and a number is left over behind it
        if kind(t).is_kw("ITZ") {
            want.push(("Error:UnexpectedToken", i));
            want.push(("Error:TooManyTokens", i + 1));
        }
    }
    let block = sut::parse(&tokens)?;
    let finder = tree::Finder::new(&tokens);
    let listed = guard("iterating over errors", || block.iter_errors().map(hooks::export_error).collect::<Vec<_>>())?;
    let mut got = Vec::new();
    for e in &listed {
        let n = finder.tree(e)?;
        let mut ts = Vec::new();
        n.tokens(&mut ts);
        ensure!(ts.len() == 1, "{} has {} tokens", n.kind, ts.len());
        got.push((n.kind, ts[0]));
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(format!(
            "{} errors are visited, not {}; number {i} is {:?}, not {:?}",
            got.len(),
            want.len(),
            got.get(i),
            want.get(i)
        )));
    }
    c.add("errors visited", got.len() as u64);
    c.count("errors in each clause");
    c.seen(text, true);
    error_iteration(c, &tokens)
}

pub const C19: &[Load] = &[
    load("many malformed statements in nested blocks", (16000, 250000), (25, 80), many_errors),
    load("an error in each clause of each block", (8192, 40000), (1, 1), error_in_clause),
    load("texts of every kind", (30000, 450000), (30, 100), |c| {
        let mut r = c.sub();
        let t = fuzz::any_lexable(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        error_iteration(c, &tokens)?;
        c.seen(&t, tokens.len() > 1);
        Ok(())
    }),
    load("token lists given directly", (25000, 400000), (30, 100), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = show_all(&tokens);
        c.note(&text);
        error_iteration(c, &tokens)?;
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("well-formed programs", (6000, 100000), (30, 100), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let laid = render(&p.lex, &p.starts, &st, &mut r, c.dict);
        c.note(&laid.text);
        let tokens = sut::lex_ok(&laid.text)?;
        let block = sut::parse(&tokens)?;
        let n = guard("iterating over errors", || block.iter_errors().count())?;
        ensure!(n == 0, "{n} errors are visited in a well-formed program");
        c.count("well-formed programs");
        c.seen(&laid.text, true);
        Ok(())
    }),
    load("errors in very many clauses", (64, 640), (1, 1), |c| {
        let n = huge_size(c, 4);
        let mut r = c.sub();
        let t = clauses_with_errors(&mut r, n, c.index % 4);
        c.note(&t);
        itz_errors(c, &t)
    }),
    load("very large texts", (16, 200), (1, 1), |c| {
        let n = huge_size(c, 1);
        let mut r = c.sub();
        let (lex, starts) = many_lexemes(&mut r, c, n);
        let t = render(&lex, &starts, &Style::plain(), &mut r, c.dict).text;
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        error_iteration(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
    load("errors in many clauses", (4000, 40000), (1, 1), |c| {
        let mut r = c.sub();
        let mut sizes: Vec<usize> = gen::SIZES.iter().chain(gen::BIG_SIZES).copied().collect();
        sizes.extend(c.dict.ints.iter().filter(|i| **i >= 0 && **i < 3000).flat_map(|i| [*i as usize, *i as usize + 1]));
        let n = if r.pct(50) { r.range(1, 40) } else { *r.pick(&sizes) };
        let t = clauses_with_errors(&mut r, n, c.index % 4);
        c.note(&t);
        itz_errors(c, &t)
    }),
    load("deep and long programs with errors", (300, 4000), (600, 3000), |c| {
        let mut r = c.sub();
        let t = match r.below(3) {
            0 => {
                let d = r.range(1, c.size.min(200));
                let mut t = String::new();
                for _ in 0..d {
                    t.push_str("IM IN YR a\nITZ\n");
                }
                for _ in 0..d {
                    t.push_str("ITZ\nIM OUTTA YR a\n");
                }
                t
            }
            1 => "ITZ\nVISIBLE 1\n".repeat(c.size),
            _ => fuzz::damaged_text(&mut r, c.dict, c.size),
        };
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        error_iteration(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
];

// ---------------------------------------------------------------- C23

pub fn by_the_grammar(c: &mut Case, tokens: &[Token]) -> Res {
    let want = refparse::parse(&ptoks(tokens));
    let got = tree_of(tokens)?;
    compare(&want, &got, &kinds(tokens))?;
    stat_tree(c, &got);
    Ok(())
}

pub const SMALL: &[&str] = &[
    "x", "1", "SRS", "'Z", "R", "HAS A", "ITZ", "NUMBR", "AN", "MKAY", "YR", "!", "?", "NOT", "SUM OF", "SMOOSH", "I HAS A",
    "VISIBLE", "GIMMEH", "FOUND YR", "GTFO", "HAI", "KTHXBYE", "I IZ", "HOW IZ I", "IF U SAY SO", "IM IN YR", "UPPIN", "TIL",
    "IM OUTTA YR", "O RLY", "YA RLY", "MEBBE", "NO WAI", "OIC", "WTF", "OMG", "OMGWTF", "+", ",", "...", "\n",
];

/// All sequences of up to three of the tokens the grammar tells apart, line ends included
fn small_lists(c: &mut Case) -> Res {
    let n = SMALL.len();
    let mut i = c.index;
    let mut words = Vec::new();
    while i > 0 {
        i -= 1;
        words.push(SMALL[i % n]);
        i /= n;
    }
    list_of(c, &words)
}

pub fn list_of(c: &mut Case, words: &[&str]) -> Res {
    let tokens = words_to_tokens(words);
    let text = words.join(" ");
    c.note(&text);
    by_the_grammar(c, &tokens)?;
    c.seen(&text, words.len() > 1);
    Ok(())
}

pub fn words_to_tokens(words: &[&str]) -> Vec<Token> {
    use lolcode_ast::lexer::Position;
    let mut line = 1;
    let mut out = Vec::new();
    for (i, w) in words.iter().enumerate() {
        let k = match *w {
            "\n" => {
                line += 1;
                continue;
            }
            "x" => K::Ident("x".into()),
            "1" => K::Int(1),
            "'Z" => K::Slot,
            "!" => K::Excl,
            "?" => K::Quest,
            "+" => K::Sym("+".into()),
            "," => K::Comma,
            "..." => K::Ellipsis,
            w => K::Kw(crate::kinds::kw(w)),
        };
        let b = i as i32 * 20;
        let p = |column| Position {
            line,
            column,
            bytes: b + column - b - 1,
            chars: b + column - b - 1,
        };
        out.push(Token {
            token_type: crate::kinds::type_of(&k),
            range: (p(b + 1), p(b + 2)).into(),
        });
    }
    out
}

pub const C23: &[Load] = &[
    load("all short token lists", (75895, 75895), (1, 1), small_lists),
    load("random short token lists", (100000, 1500000), (1, 1), |c| {
        let n = c.rng.range(4, 10);
        let words: Vec<&str> = (0..n).map(|_| *c.rng.pick(SMALL)).collect();
        list_of(c, &words)
    }),
    load("damaged programs", (30000, 500000), (30, 100), |c| {
        let mut r = c.sub();
        let t = fuzz::damaged_text(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        by_the_grammar(c, &tokens)?;
        c.seen(&t, tokens.len() > 1);
        Ok(())
    }),
    load("texts of every kind", (30000, 500000), (30, 100), |c| {
        let mut r = c.sub();
        let t = fuzz::any_lexable(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        by_the_grammar(c, &tokens)?;
        c.seen(&t, tokens.len() > 1);
        Ok(())
    }),
    load("token lists given directly", (40000, 700000), (40, 120), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        let text = show_all(&tokens);
        c.note(&text);
        by_the_grammar(c, &tokens)?;
        c.seen(&text, tokens.len() > 1);
        Ok(())
    }),
    load("very large texts", (32, 400), (1, 1), |c| {
        let n = huge_size(c, 1);
        let mut r = c.sub();
        let (lex, starts) = many_lexemes(&mut r, c, n);
        let st = if r.pct(50) { Style::plain() } else { Style::any(&mut r) };
        let t = render(&lex, &starts, &st, &mut r, c.dict).text;
        c.note(&t);
        by_the_grammar(c, &sut::lex_ok(&t)?)?;
        c.seen(&t, true);
        Ok(())
    }),
    load("large damaged programs", (250, 3000), (600, 3000), |c| {
        let mut r = c.sub();
        let t = fuzz::damaged_text(&mut r, c.dict, c.size);
        c.note(&t);
        let tokens = sut::lex_ok(&t)?;
        by_the_grammar(c, &tokens)?;
        c.seen(&t, true);
        Ok(())
    }),
];
