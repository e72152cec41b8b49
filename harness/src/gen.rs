//! Generator of well-formed programs: lexemes, statement starts, and the tree they denote.
use crate::dict::Dict;
use crate::kinds::{kw, K, KW};
use crate::rng::Rng;
use crate::tree::{Ix, Nd};

#[derive(Clone, Debug)]
pub struct Lex {
    pub text: String,
    pub k: K,
}

/// A well-formed program. Statement `starts[i]` begins at that lexeme.
#[derive(Clone, Debug)]
pub struct Prog {
    pub lex: Vec<Lex>,
    pub starts: Vec<Ix>,
    pub tree: Nd,
    /// simple statements: from, to (lexemes)
    pub simple: Vec<(Ix, Ix)>,
}

/// The first words of keywords of several words: a name spelled so might become part of one.
pub const FIRST_WORDS: &[&str] = &[
    "HAS", "I", "SUM", "DIFF", "PRODUKT", "QUOSHUNT", "MOD", "BIGGR", "SMALLR", "BOTH", "EITHER",
    "WON", "ALL", "ANY", "IS", "O", "YA", "NO", "IM", "HOW", "IF", "FOUND",
];

pub fn is_word(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some('a'..='z' | 'A'..='Z' | '_'))
        && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// A word that is a name wherever it stands
pub fn is_safe_name(s: &str) -> bool {
    is_word(s)
        && !s.starts_with("BTW")
        && !s.starts_with("OBTW")
        && !KW.iter().any(|(_, k)| *k == s)
        && !FIRST_WORDS.contains(&s)
}

pub const SIZES: &[usize] = &[
    7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
];
pub const BIG_SIZES: &[usize] = &[
    499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
];
/// For the few largest ones: around what 13 to 17 bits hold, and the round numbers between
pub const HUGE_SIZES: &[usize] = &[
    65537, 131073, 70000, 32769, 100000, 16385, 65536, 8193, 50000, 10001, 32768, 20000, 65535, 16384, 5001, 32767,
];

/// A name that something might take for `old`: another case, a character more or fewer
pub fn near(rng: &mut Rng, old: &str) -> String {
    for _ in 0..20 {
        let mut cs: Vec<char> = old.chars().collect();
        if cs.is_empty() {
            return "a".into();
        }
        let i = rng.below(cs.len());
        match rng.below(8) {
            0 => return_case(&mut cs, |c| c.to_ascii_uppercase()),
            1 => return_case(&mut cs, |c| c.to_ascii_lowercase()),
            2 => {
                cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
            }
            3 => cs.push(*rng.pick(&['_', '0', '1', 's', 'a'])),
            4 => cs.insert(0, *rng.pick(&['_', 'a', 'I'])),
            5 => {
                cs.remove(i);
            }
            6 => cs.insert(i, cs[i]),
            _ => cs.reverse(),
        }
        let s: String = cs.into_iter().collect();
        if s != old && is_safe_name(&s) {
            return s;
        }
    }
    format!("{old}_")
}
fn return_case(cs: &mut [char], f: fn(&char) -> char) {
    for c in cs {
        *c = f(c);
    }
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub dict: &'a Dict,
    pub lex: Vec<Lex>,
    pub starts: Vec<Ix>,
    pub simple: Vec<(Ix, Ix)>,
    /// statements that may still be made
    pub budget: isize,
    /// expression nodes that may still be made in this statement
    pub expr_budget: isize,
    /// how large counts and lengths may get, roughly
    pub size: usize,
    /// names of this program
    names: Vec<String>,
    /// deepest block nesting
    pub max_blocks: usize,
    pub max_expr: usize,
}

pub fn name(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    for _ in 0..20 {
        let s = raw_name(rng, dict, size);
        if is_safe_name(&s) {
            return s;
        }
    }
    "v".to_string()
}

fn word_char(rng: &mut Rng) -> char {
    *rng.pick(&[
        'a', 'b', 'c', 'e', 'i', 'k', 'm', 'n', 'o', 'r', 'x', 'z', 'A', 'B', 'D', 'E', 'F', 'I',
        'M', 'N', 'O', 'R', 'T', 'W', 'Y', 'Z', '_', '0', '1', '5', '9',
    ])
}

fn raw_name(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let word = |rng: &mut Rng| -> String {
        let k = *rng.pick(KW);
        let w: Vec<&str> = k.1.split(' ').collect();
        rng.pick(&w).to_string()
    };
    match rng.below(20) {
        0..=4 => rng
            .pick(&["a", "b", "x", "y", "foo", "bar", "CAT", "i", "n", "_", "Z", "var1", "loop"])
            .to_string(),
        5..=8 => {
            let n = rng.range(1, 8);
            (0..n).map(|_| word_char(rng)).collect()
        }
        9 => format!("{}{}", word(rng), word_char(rng)),
        10 => format!("{}{}", word_char(rng), word(rng)),
        11 => format!("{}{}", word(rng), word(rng)),
        12 => word(rng).to_lowercase(),
        13 => {
            let k = rng.pick(KW).1;
            k.replace(' ', rng.pick(&["_", ""]))
        }
        14 => {
            // a keyword with one letter changed or dropped
            let mut cs: Vec<char> = word(rng).chars().collect();
            let i = rng.below(cs.len());
            if rng.pct(50) {
                cs[i] = word_char(rng);
            } else {
                cs.remove(i);
            }
            cs.into_iter().collect()
        }
        15 => rng
            .pick(&["WINNER", "FAILS", "NOOBS", "WIN_", "FAIL1", "NOOB_x", "Win", "fail", "OF", "SAEM", "RLY", "WAI", "U", "SAY", "SO", "OUTTA", "IN", "NOW", "IZ", "TLDR_", "TLDRx", "xBTW", "_OBTW", "Z", "ZZ"])
            .to_string(),
        16 | 17 => {
            if dict.words.is_empty() {
                return "q".into();
            }
            let w = rng.pick(&dict.words).clone();
            match rng.below(4) {
                0 => format!("{w}{}", word_char(rng)),
                1 => format!("{}{w}", word_char(rng)),
                _ => w,
            }
        }
        _ => {
            let n = length(rng, dict, size);
            (0..n.max(1)).map(|_| word_char(rng)).collect()
        }
    }
}

/// A length, boundaries favoured, up to about what `size` allows
pub fn length(rng: &mut Rng, dict: &Dict, size: usize) -> usize {
    let limit = size.max(4) * 8;
    match rng.below(10) {
        0..=4 => rng.below(12),
        5 | 6 => rng.below(limit.min(80)),
        7 => {
            if dict.ints.is_empty() {
                return 10;
            }
            let n = (*rng.pick(&dict.ints)).unsigned_abs() as usize + rng.below(3);
            // whatever is written in the source may be the length that matters
            n.saturating_sub(1).min(limit.max(5000))
        }
        8 => (*rng.pick(SIZES)).min(limit),
        _ => (*rng.pick(BIG_SIZES)).min(limit),
    }
}

pub const ODD_CHARS: &[char] = &[
    'é', 'ß', 'Ä', 'ñ', 'ω', 'Ж', '中', '文', '…', '—', '“', '”', '\u{a0}', '\u{2028}', '\u{85}', '\u{feff}', '\u{301}', '🐱', '😹', '\u{10ffff}',
    '\u{0}', '\u{7f}', '\u{b}', '\u{c}', '\u{1b}', 'ﬁ', '\u{200b}', '٣',
];

/// Text that may stand in a comment or (after escaping) in a string
pub fn prose(rng: &mut Rng, dict: &Dict, size: usize, newlines: bool) -> String {
    let n = if rng.pct(20) { length(rng, dict, size) } else { rng.below(10) };
    let mut s = String::new();
    while s.len() < n {
        match rng.below(18) {
            0..=5 => s.push(word_char(rng)),
            6 | 7 => s.push(' '),
            8 => s.push(*rng.pick(&[',', '.', '!', '?', '\'', '-', '+', '#', '\t', '(', ')', '\\', '/', ';'])),
            9 => s.push_str(rng.pick(&["...", "BTW", "OBTW", " BTW ", "'Z", "HAI", "TLD", "LDR", "O RLY?", "1.5", "42", "KTHXBYE", "WIN", ", "])),
            10 => s.push_str(rng.pick(KW).1),
            11 | 12 => s.push(*rng.pick(ODD_CHARS)),
            13 => {
                if newlines {
                    s.push_str(rng.pick(&["\n", "\n", "\r\n", "\n\n"]));
                }
            }
            14 => s.push('"'),
            15 => s.push(':'),
            16 => {
                if !dict.strings.is_empty() {
                    s.push_str(&rng.pick(&dict.strings).clone());
                }
            }
            _ => s.push_str(rng.pick(&["a", "lol ", "cat", "1"])),
        }
    }
    if !newlines {
        s = s.replace('\n', " ");
    }
    s
}

/// The raw inside of a closed string literal
pub fn string_body(rng: &mut Rng, dict: &Dict, size: usize) -> String {
    let nl = rng.pct(25);
    let p = prose(rng, dict, size, nl);
    let mut s = String::new();
    let mut cs = p.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '"' => s.push_str(":\""),
            ':' => {
                // either an escaped colon, or a colon before something it does not escape
                let next_plain = !matches!(cs.peek(), None | Some('"') | Some(':'));
                if next_plain && rng.pct(60) {
                    s.push(':');
                } else {
                    s.push_str("::");
                }
            }
            c => s.push(c),
        }
    }
    s
}

pub fn int_literal(rng: &mut Rng, dict: &Dict) -> Lex {
    let v: i64 = match rng.below(12) {
        0..=4 => rng.below(20) as i64,
        5 => -(rng.below(1000) as i64),
        6 => *rng.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, i32::MIN as i64 + 1, 0, 65535, 65536, 32768, 255, 256, 16777217, 1000000]),
        7 => {
            if dict.ints.is_empty() {
                3
            } else {
                (*rng.pick(&dict.ints)).saturating_add(rng.below(3) as i64).saturating_sub(1)
            }
        }
        _ => (rng.u64() as u32 as i32) as i64 >> rng.below(31),
    };
    let v = v.clamp(i32::MIN as i64, i32::MAX as i64);
    let zeros = if rng.one_in(8) { "0".repeat(rng.range(1, 3)) } else { String::new() };
    let sign = if v < 0 {
        "-"
    } else if rng.one_in(10) {
        "+"
    } else {
        ""
    };
    Lex {
        text: format!("{sign}{zeros}{}", v.abs()),
        k: K::Int(v as i32),
    }
}

pub fn digits(rng: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect()
}

pub fn float_literal(rng: &mut Rng) -> Lex {
    let n = rng.below(5);
    let a = digits(rng, n);
    let n = if a.is_empty() { rng.range(1, 4) } else { rng.below(5) };
    let b = digits(rng, n);
    let sign = *rng.pick(&["", "", "", "-", "+"]);
    let v: f32 = format!("0{a}.{b}0").parse().unwrap();
    Lex {
        text: format!("{sign}{a}.{b}"),
        k: K::Float(if sign == "-" { -v } else { v }),
    }
}

pub fn kwlex(s: &str) -> Lex {
    Lex {
        text: s.to_string(),
        k: K::Kw(kw(s)),
    }
}

pub fn literal(rng: &mut Rng, dict: &Dict, size: usize) -> Lex {
    match rng.below(11) {
        0..=3 => int_literal(rng, dict),
        4 | 5 => {
            if !dict.floats.is_empty() && rng.one_in(5) {
                let text = rng.pick(&dict.floats).clone();
                let v = text.parse().unwrap();
                return Lex { text, k: K::Float(v) };
            }
            float_literal(rng)
        }
        6..=8 => {
            let body = string_body(rng, dict, size);
            Lex {
                text: format!("\"{body}\""),
                k: K::Str(body),
            }
        }
        9 => {
            let b = rng.pct(50);
            Lex {
                text: if b { "WIN" } else { "FAIL" }.into(),
                k: K::Bool(b),
            }
        }
        _ => Lex {
            text: "NOOB".into(),
            k: K::Noob,
        },
    }
}

pub const BINARY: &[(&str, &str)] = &[
    ("EITHER OF", "Binary:EitherOf"),
    ("WON OF", "Binary:WonOf"),
    ("SUM OF", "Binary:SumOf"),
    ("DIFF OF", "Binary:DiffOf"),
    ("PRODUKT OF", "Binary:ProduktOf"),
    ("QUOSHUNT OF", "Binary:QuoshuntOf"),
    ("MOD OF", "Binary:ModOf"),
    ("BIGGR OF", "Binary:BiggrOf"),
    ("SMALLR OF", "Binary:SmallrOf"),
    ("BOTH SAEM", "Binary:BothSaem"),
    ("BOTH OF", "Binary:BothOf"),
    ("DIFFRINT", "Binary:Diffrint"),
];
pub const NARY: &[(&str, &str)] = &[
    ("ALL OF", "Nary:AllOf"),
    ("ANY OF", "Nary:AnyOf"),
    ("SMOOSH", "Nary:Smoosh"),
];
pub const TYPES: &[(&str, &str)] = &[
    ("NUMBR", "Type:Numbr"),
    ("NUMBAR", "Type:Numbar"),
    ("YARN", "Type:Yarn"),
    ("TROOF", "Type:Troof"),
    ("BUKKIT", "Type:Bukkit"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Simple {
    Hai,
    KThxBye,
    IHasA,
    Assignment,
    SetSlot,
    Visible,
    Gimmeh,
    FoundYr,
    Gtfo,
    IIz,
    Expression,
}
pub const SIMPLE: &[Simple] = &[
    Simple::Hai,
    Simple::KThxBye,
    Simple::IHasA,
    Simple::Assignment,
    Simple::SetSlot,
    Simple::Visible,
    Simple::Gimmeh,
    Simple::FoundYr,
    Simple::Gtfo,
    Simple::IIz,
    Simple::Expression,
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Blk {
    Function,
    Loop,
    If,
    Switch,
}
pub const BLOCKS: &[Blk] = &[Blk::Function, Blk::Loop, Blk::If, Blk::Switch];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, dict: &'a Dict, size: usize) -> Gen<'a> {
        let n = rng.range(1, 5);
        let names = (0..n).map(|_| name(rng, dict, size)).collect();
        let max_blocks = rng.range(0, (2 + size / 10).min(8));
        let max_expr = rng.range(1, (3 + size / 8).min(12));
        Gen {
            rng,
            dict,
            lex: Vec::new(),
            starts: Vec::new(),
            simple: Vec::new(),
            budget: size.max(1) as isize,
            expr_budget: 0,
            size,
            names,
            max_blocks,
            max_expr,
        }
    }

    pub fn push(&mut self, l: Lex) -> Ix {
        self.lex.push(l);
        self.lex.len() - 1
    }
    pub fn kw(&mut self, s: &str) -> Ix {
        self.push(kwlex(s))
    }
    pub fn start(&mut self) {
        self.starts.push(self.lex.len());
    }
    fn name(&mut self) -> String {
        if self.rng.pct(70) {
            let n = self.rng.pick(&self.names).clone();
            if self.rng.one_in(6) {
                near(self.rng, &n)
            } else {
                n
            }
        } else {
            name(self.rng, self.dict, self.size)
        }
    }
    pub fn ident(&mut self) -> Ix {
        let n = self.name();
        self.push(Lex {
            text: n.clone(),
            k: K::Ident(n),
        })
    }
    pub fn identifier(&mut self) -> Nd {
        let n = Nd::new("Identifier");
        if self.rng.one_in(7) {
            let srs = self.kw("SRS");
            let id = self.ident();
            n.tok("srs", srs).tok("name", id)
        } else {
            let id = self.ident();
            n.tok("name", id)
        }
    }
    /// How many of something that may be repeated
    pub fn count(&mut self, min: usize) -> usize {
        let r = self.rng.below(100);
        let big = self.size >= 30;
        min + if r < 75 {
            self.rng.below(4)
        } else if r < 94 || !big {
            self.rng.below(8)
        } else if r < 99 {
            self.rng.below(40)
        } else if self.rng.pct(50) && !self.dict.ints.is_empty() {
            (*self.rng.pick(&self.dict.ints)).clamp(0, 300) as usize + self.rng.below(2)
        } else {
            *self.rng.pick(SIZES)
        }
    }
    pub fn variable(&mut self) -> Nd {
        let mut n = Nd::new("Variable").node("identifier", self.identifier());
        if self.rng.one_in(4) {
            for _ in 0..self.count(1) {
                let slot = self.push(Lex {
                    text: "'Z".into(),
                    k: K::Slot,
                });
                let id = self.identifier();
                n = n.node(
                    "slot",
                    Nd::new("Slot").tok("slot_access", slot).node("identifier", id),
                );
            }
        }
        n
    }
    pub fn literal(&mut self) -> Nd {
        let l = literal(self.rng, self.dict, self.size);
        let t = self.push(l);
        Nd::new("Literal").tok("token", t)
    }
    pub fn an(&mut self) -> Option<Ix> {
        if self.rng.pct(65) {
            Some(self.kw("AN"))
        } else {
            None
        }
    }
    /// An expression; `tail`: nothing follows it in its statement, so that a last MKAY may be
    /// left out.
    pub fn expr(&mut self, tail: bool) -> Nd {
        let d = self.max_expr;
        self.expr_budget = (3 + self.size as isize / 3).min(60);
        self.expr_at(tail, d)
    }
    pub fn expr_at(&mut self, tail: bool, depth: usize) -> Nd {
        self.expr_budget -= 1;
        let leaf = depth == 0 || self.expr_budget <= 0;
        match if leaf { self.rng.below(5) } else { self.rng.below(12) } {
            0..=2 => self.variable(),
            3 | 4 => self.literal(),
            5 | 6 => self.unary(tail, depth),
            7..=9 => {
                let op = *self.rng.pick(BINARY);
                self.binary(op, tail, depth)
            }
            _ => {
                let op = *self.rng.pick(NARY);
                self.nary(op, tail, depth)
            }
        }
    }
    pub fn unary(&mut self, tail: bool, depth: usize) -> Nd {
        let op = self.kw("NOT");
        let e = self.expr_at(tail, depth.saturating_sub(1));
        Nd::new("Unary:Not").tok("operator", op).node("operand", e)
    }
    pub fn binary(&mut self, (text, kind): (&str, &'static str), tail: bool, depth: usize) -> Nd {
        let op = self.kw(text);
        let left = self.expr_at(false, depth.saturating_sub(1));
        let an = self.an();
        let right = self.expr_at(tail, depth.saturating_sub(1));
        Nd::new(kind)
            .tok("operator", op)
            .node("left", left)
            .opt("an", an)
            .node("right", right)
    }
    pub fn nary(&mut self, (text, kind): (&str, &'static str), tail: bool, depth: usize) -> Nd {
        let op = self.kw(text);
        let mut n = Nd::new(kind).tok("operator", op);
        let omit = tail && self.rng.pct(40);
        // any number of operands; none at all only where MKAY says so
        let count = if !omit && self.rng.one_in(25) { 0 } else { self.count(1) };
        for i in 0..count {
            let last = i + 1 == count;
            let e = self.expr_at(omit && last, depth.saturating_sub(1));
            n = n.node("operand", e);
            if !last {
                n = n.opt("an", self.an());
            }
        }
        if !omit {
            let t = self.kw("MKAY");
            n = n.tok("mkay", t);
        }
        n
    }

    pub fn simple(&mut self, what: Simple) -> Nd {
        self.start();
        let from = self.lex.len();
        let n = self.simple_inner(what);
        self.simple.push((from, self.lex.len()));
        n
    }

    fn simple_inner(&mut self, what: Simple) -> Nd {
        match what {
            Simple::Hai => {
                let k = self.kw("HAI");
                let mut n = Nd::new("Hai").tok("keyword", k);
                let count = *self.rng.pick(&[0, 1, 1, 1, 1, 2, 3]);
                for _ in 0..count {
                    let t = match self.rng.below(5) {
                        0 => self.ident(),
                        1 => {
                            let l = literal(self.rng, self.dict, self.size);
                            self.push(l)
                        }
                        2 => {
                            let l = int_literal(self.rng, self.dict);
                            self.push(l)
                        }
                        _ => self.push(Lex {
                            text: "1.3".into(),
                            k: K::Float(1.3),
                        }),
                    };
                    n = n.tok("version", t);
                }
                n
            }
            Simple::KThxBye => {
                let k = self.kw("KTHXBYE");
                Nd::new("KThxBye").tok("keyword", k)
            }
            Simple::Gtfo => {
                let k = self.kw("GTFO");
                Nd::new("Gtfo").tok("keyword", k)
            }
            Simple::IHasA => {
                let k = self.kw("I HAS A");
                let n = Nd::new("IHasA").tok("keyword", k);
                let n = n.node("identifier", self.identifier());
                match self.rng.below(4) {
                    0 => n,
                    1 => {
                        self.kw("ITZ");
                        let (text, kind) = *self.rng.pick(TYPES);
                        let t = self.kw(text);
                        n.node("type", Nd::new(kind).tok("token", t))
                    }
                    _ => {
                        self.kw("ITZ");
                        n.node("value", self.expr(true))
                    }
                }
            }
            Simple::Assignment => {
                let v = self.variable();
                let r = self.kw("R");
                Nd::new("Assignment")
                    .node("variable", v)
                    .tok("r", r)
                    .node("value", self.expr(true))
            }
            Simple::SetSlot => {
                let v = self.variable();
                self.kw("HAS A");
                let slot = self.identifier();
                self.kw("ITZ");
                Nd::new("BukkitSetSlot")
                    .node("bukkit", v)
                    .node("slot_name", slot)
                    .node("value", self.expr(true))
            }
            Simple::Visible => {
                let k = self.kw("VISIBLE");
                let mut n = Nd::new("Visible").tok("keyword", k);
                let min = if self.rng.one_in(20) { 0 } else { 1 };
                let count = self.count(min);
                let excl = self.rng.pct(30);
                for i in 0..count {
                    n = n.node("value", self.expr(!excl && i + 1 == count));
                }
                if excl {
                    let t = self.push(Lex {
                        text: "!".into(),
                        k: K::Excl,
                    });
                    n = n.tok("exclamation_mark", t);
                }
                n
            }
            Simple::Gimmeh => {
                let k = self.kw("GIMMEH");
                Nd::new("Gimmeh").tok("keyword", k).node("variable", self.variable())
            }
            Simple::FoundYr => {
                let k = self.kw("FOUND YR");
                Nd::new("FoundYr").tok("keyword", k).node("value", self.expr(true))
            }
            Simple::IIz => {
                let k = self.kw("I IZ");
                let mut n = Nd::new("IIz").tok("keyword", k).node("name", self.variable());
                for i in 0..self.count(0) {
                    if i > 0 {
                        self.kw("AN");
                    }
                    self.kw("YR");
                    n = n.node("argument", self.expr(false));
                }
                self.kw("MKAY");
                n
            }
            Simple::Expression => Nd::new("Expression").node("expression", self.expr(true)),
        }
    }

    /// Statements of a body
    pub fn body(&mut self, depth: usize) -> Nd {
        let n = match self.rng.below(6) {
            0 => 0,
            1 | 2 => 1,
            _ => self.rng.range(1, 4),
        };
        let mut b = Nd::new("Block");
        for _ in 0..n {
            if self.budget <= 0 && self.rng.pct(60) {
                break;
            }
            for s in self.any(depth) {
                b = b.node("stmt", s);
            }
        }
        b
    }

    /// Some statement; a condition may come with the conditional it is for
    pub fn any(&mut self, depth: usize) -> Vec<Nd> {
        self.budget -= 1;
        if depth < self.max_blocks && self.budget > 0 && self.rng.pct(35) {
            let what = *self.rng.pick(BLOCKS);
            let mut v = Vec::new();
            if matches!(what, Blk::If | Blk::Switch) && self.rng.pct(60) {
                v.push(self.simple(Simple::Expression));
            }
            v.push(self.block(what, depth + 1));
            return v;
        }
        let what = loop {
            let w = *self.rng.pick(SIMPLE);
            if matches!(w, Simple::Hai | Simple::KThxBye) && !self.rng.one_in(6) {
                continue;
            }
            break w;
        };
        vec![self.simple(what)]
    }

    pub fn block(&mut self, what: Blk, depth: usize) -> Nd {
        self.start();
        match what {
            Blk::Function => {
                let k = self.kw("HOW IZ I");
                let mut n = Nd::new("HowIzI").tok("keyword", k).node("name", self.identifier());
                for i in 0..self.count(0) {
                    if i > 0 {
                        self.kw("AN");
                    }
                    self.kw("YR");
                    n = n.node("argument", self.identifier());
                }
                let n = n.node("body", self.body(depth));
                self.start();
                self.kw("IF U SAY SO");
                n
            }
            Blk::Loop => {
                let k = self.kw("IM IN YR");
                let label = self.ident();
                let label_text = self.lex[label].clone();
                let mut n = Nd::new("ImInYr").tok("keyword", k).tok("label", label);
                if self.rng.pct(55) {
                    let (text, kind) =
                        *self.rng.pick(&[("UPPIN", "Loop:Uppin"), ("NERFIN", "Loop:Nerfin")]);
                    let op = self.kw(text);
                    self.kw("YR");
                    n = n.node(
                        "operation",
                        Nd::new(kind).tok("token", op).node("operand", self.variable()),
                    );
                }
                if self.rng.pct(55) {
                    let (text, kind) =
                        *self.rng.pick(&[("TIL", "Loop:Til"), ("WILE", "Loop:Wile")]);
                    self.kw(text);
                    n = n.node(
                        "condition",
                        Nd::new(kind).node("expression", self.expr(true)),
                    );
                }
                let n = n.node("body", self.body(depth));
                self.start();
                self.kw("IM OUTTA YR");
                let end = self.push(label_text);
                n.tok("end_label", end)
            }
            Blk::If => {
                let k = self.kw("O RLY");
                self.question();
                let mut n = Nd::new("ORly").tok("keyword", k);
                if self.rng.pct(80) {
                    self.start();
                    let t = self.kw("YA RLY");
                    n = n.node(
                        "if_true",
                        Nd::new("YaRly").tok("keyword", t).node("body", self.body(depth)),
                    );
                }
                let mebbes = if self.rng.pct(60) { 0 } else { self.count(1) };
                for _ in 0..mebbes {
                    self.start();
                    let t = self.kw("MEBBE");
                    let c = self.expr(true);
                    n = n.node(
                        "mebbe",
                        Nd::new("Mebbe")
                            .tok("keyword", t)
                            .node("condition", c)
                            .node("body", self.body(depth)),
                    );
                }
                if self.rng.pct(50) {
                    self.start();
                    let t = self.kw("NO WAI");
                    n = n.node(
                        "if_false",
                        Nd::new("NoWai").tok("keyword", t).node("body", self.body(depth)),
                    );
                }
                self.start();
                self.kw("OIC");
                n
            }
            Blk::Switch => {
                let k = self.kw("WTF");
                self.question();
                let mut n = Nd::new("Wtf").tok("keyword", k);
                for _ in 0..self.count(0) {
                    self.start();
                    let t = self.kw("OMG");
                    let e = if self.rng.pct(70) { self.literal() } else { self.expr(true) };
                    n = n.node(
                        "omg",
                        Nd::new("Omg")
                            .tok("keyword", t)
                            .node("value", e)
                            .node("body", self.body(depth)),
                    );
                }
                if self.rng.pct(50) {
                    self.start();
                    let t = self.kw("OMGWTF");
                    n = n.node(
                        "omg_wtf",
                        Nd::new("OmgWtf").tok("keyword", t).node("body", self.body(depth)),
                    );
                }
                self.start();
                self.kw("OIC");
                n
            }
        }
    }

    pub fn question(&mut self) {
        self.push(Lex {
            text: "?".into(),
            k: K::Quest,
        });
    }

    pub fn finish(self, entries: Vec<Nd>) -> Prog {
        Prog {
            lex: self.lex,
            starts: self.starts,
            simple: self.simple,
            tree: Nd::new("Block").nodes("stmt", entries),
        }
    }
}

/// A whole program of about `size` statements
pub fn program(rng: &mut Rng, dict: &Dict, size: usize) -> Prog {
    let mut g = Gen::new(rng, dict, size);
    let mut entries = Vec::new();
    if g.rng.pct(40) {
        entries.push(g.simple(Simple::Hai));
    }
    while g.budget > 0 {
        entries.extend(g.any(0));
    }
    if g.rng.pct(40) {
        entries.push(g.simple(Simple::KThxBye));
    }
    g.finish(entries)
}

impl Prog {
    pub fn empty() -> Prog {
        Prog {
            lex: Vec::new(),
            starts: Vec::new(),
            simple: Vec::new(),
            tree: Nd::new("Block"),
        }
    }
    pub fn kinds(&self) -> Vec<K> {
        self.lex.iter().map(|l| l.k.clone()).collect()
    }
    /// The program with lexemes `from..to` (one simple statement) replaced. Gives also the new
    /// program's numbering of the old lexemes.
    pub fn replace(&self, from: Ix, to: Ix, with: &[Lex]) -> (Vec<Lex>, Vec<Ix>) {
        let mut lex = self.lex[..from].to_vec();
        lex.extend_from_slice(with);
        lex.extend_from_slice(&self.lex[to..]);
        let delta = with.len() as isize - (to - from) as isize;
        let starts = self
            .starts
            .iter()
            .map(|s| if *s > from { (*s as isize + delta) as Ix } else { *s })
            .collect();
        (lex, starts)
    }
}
