//! Reference lexer: the lexical rules, written over an array of characters.
use crate::kinds::{K, KW};

#[derive(Clone, Debug, PartialEq)]
pub struct RTok {
    pub k: K,
    /// character offsets
    pub start: usize,
    pub end: usize,
}

/// A multi-line comment opened at this character offset is never closed.
#[derive(Clone, Debug, PartialEq)]
pub struct Unclosed(pub usize);

fn word_char(c: char) -> bool {
    matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_')
}

fn matches_at(s: &[char], at: usize, what: &str) -> bool {
    let mut i = at;
    for c in what.chars() {
        if s.get(i) != Some(&c) {
            return false;
        }
        i += 1;
    }
    true
}

fn word_at(s: &[char], at: usize, what: &str) -> bool {
    matches_at(s, at, what)
        && !s
            .get(at + what.chars().count())
            .map_or(false, |c| word_char(*c))
}

/// A number at this place: its end and value.
fn number_at(s: &[char], at: usize) -> Option<(usize, K)> {
    let mut i = at;
    let neg = s.get(i) == Some(&'-');
    if matches!(s.get(i), Some('-') | Some('+')) {
        i += 1;
    }
    let digits_from = i;
    let mut digits = 0;
    let mut value: i64 = 0;
    while let Some(c @ '0'..='9') = s.get(i) {
        value = (value * 10 + (*c as i64 - '0' as i64)).min(1 << 40);
        digits += 1;
        i += 1;
    }
    if s.get(i) == Some(&'.') {
        i += 1;
        while let Some('0'..='9') = s.get(i) {
            digits += 1;
            i += 1;
        }
        if digits == 0 {
            return None;
        }
        let text: String = s[digits_from..i].iter().collect();
        // give the standard library a form it surely reads: 0<digits>.<digits>0
        let v: f32 = format!("0{text}0").parse().unwrap();
        return Some((i, K::Float(if neg { -v } else { v })));
    }
    if digits == 0 {
        return None;
    }
    let v = if neg { -value } else { value };
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return None; // does not fit: not a literal
    }
    Some((i, K::Int(v as i32)))
}

/// The end of the string opened at this place, and whether it was closed.
fn string_at(s: &[char], at: usize) -> (usize, bool) {
    let mut i = at + 1;
    while i < s.len() {
        match s[i] {
            '"' => return (i + 1, true),
            ':' if matches!(s.get(i + 1), Some('"') | Some(':')) => i += 2,
            _ => i += 1,
        }
    }
    (s.len(), false)
}

pub fn lex(text: &str) -> Result<Vec<RTok>, Unclosed> {
    let s: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    // keywords longest first
    let mut kws: Vec<usize> = (0..KW.len()).collect();
    kws.sort_by_key(|i| std::cmp::Reverse(KW[*i].1.len()));
    let mut i = 0;
    // where the next TLDR is, remembered so that the search stays linear
    while i < s.len() {
        let c = s[i];
        if matches!(c, ' ' | '\t' | '\r' | '\n') {
            i += 1;
            continue;
        }
        let (end, k) = match c {
            ',' => (i + 1, K::Comma),
            '!' => (i + 1, K::Excl),
            '?' => (i + 1, K::Quest),
            '\u{2026}' => (i + 1, K::Ellipsis),
            '.' if matches_at(&s, i, "...") => (i + 3, K::Ellipsis),
            '\'' if matches_at(&s, i, "'Z") => (i + 2, K::Slot),
            '"' => {
                let (end, closed) = string_at(&s, i);
                let body: String = s[i + 1..if closed { end - 1 } else { end }].iter().collect();
                (end, K::Str(body))
            }
            'B' if matches_at(&s, i, "BTW") => {
                let mut j = i;
                while j < s.len() && s[j] != '\n' {
                    j += 1;
                }
                (j, K::Com(s[i + 3..j].iter().collect()))
            }
            'O' if matches_at(&s, i, "OBTW") => {
                let mut j = i + 4;
                loop {
                    if j >= s.len() {
                        return Err(Unclosed(i));
                    }
                    if s[j] == 'T' && matches_at(&s, j, "TLDR") {
                        break;
                    }
                    j += 1;
                }
                (j + 4, K::MCom(s[i + 4..j].iter().collect()))
            }
            '0'..='9' | '+' | '-' | '.' => match number_at(&s, i) {
                Some(x) => x,
                None => (i + 1, K::Sym(c.to_string())),
            },
            'a'..='z' | 'A'..='Z' | '_' => {
                if word_at(&s, i, "WIN") {
                    (i + 3, K::Bool(true))
                } else if word_at(&s, i, "FAIL") {
                    (i + 4, K::Bool(false))
                } else if word_at(&s, i, "NOOB") {
                    (i + 4, K::Noob)
                } else if let Some(k) = kws.iter().find(|k| word_at(&s, i, KW[**k].1)) {
                    (i + KW[*k].1.len(), K::Kw(*k))
                } else {
                    let mut j = i;
                    while j < s.len() && word_char(s[j]) {
                        j += 1;
                    }
                    (j, K::Ident(s[i..j].iter().collect()))
                }
            }
            _ => (i + 1, K::Sym(c.to_string())),
        };
        out.push(RTok { k, start: i, end });
        i = end;
    }
    Ok(out)
}

/// Positions of a text, recomputed from scratch: for each character offset (and the end)
/// line, column and byte offset.
pub struct Lines {
    pub line: Vec<i32>,
    pub col: Vec<i32>,
    pub byte: Vec<i32>,
}

impl Lines {
    pub fn new(text: &str) -> Lines {
        let n = text.len() + 1;
        let mut l = Lines {
            line: Vec::with_capacity(n),
            col: Vec::with_capacity(n),
            byte: Vec::with_capacity(n),
        };
        let (mut line, mut col, mut byte) = (1, 1, 0);
        for c in text.chars() {
            l.line.push(line);
            l.col.push(col);
            l.byte.push(byte);
            byte += c.len_utf8() as i32;
            col += 1;
            if c == '\n' {
                line += 1;
                col = 1;
            }
        }
        l.line.push(line);
        l.col.push(col);
        l.byte.push(byte);
        l
    }
}
