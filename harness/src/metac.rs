//! C27: names, values and places mean nothing to the parser. C28: a block's body parses like a program.
use crate::case::{load, Case, Load};
use crate::ensure;
use crate::fuzz;
use crate::gen::{self, ODD_CHARS};
use crate::kinds::{kind, type_of, K, KW};
use crate::layout::{render, Style};
use crate::lexc::show_all;
use crate::parsec::{self, kinds, tree_of, well_ended};
use crate::rng::Rng;
use crate::sut::{self, Fail, Res};
use crate::tree::{diff, namer, It, Nd};
use lolcode_ast::lexer::Token;
use std::collections::{BTreeMap, HashMap, HashSet};

// ---------------------------------------------------------------- C27

/// Names that something might take for something else
const HOSTILE: &[&str] = &[
    "", "IT", "it", "ME", "I", "LIEK", "IZ", "O", "A", "a", "R", "IM", "U", "OF", "Z", "?", "!", ",", "...", "…", " ", "\n", "BTW", "\u{301}", "0", "-1", "1.5",
    "x y", "a\nb", "main", "self", "LOOP", "var", "é", "🐱", "\0", "YR", "WAZZUP",
];

fn other_name(old: &str, r: &mut Rng, c: &Case) -> String {
    match r.below(9) {
        0 => r.pick(HOSTILE).to_string(),
        1 => KW[r.below(KW.len())].1.to_string(),
        2 => KW[r.below(KW.len())].1.to_lowercase(),
        3 if !c.dict.strings.is_empty() => r.pick(&c.dict.strings).clone(),
        4 => old.to_lowercase(),
        5 => format!("{old}{old}"),
        6 => {
            let n = *r.pick(&[1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 100, 255, 256, 257, 1000]);
            "n".repeat(n)
        }
        7 => (0..r.range(1, 4)).map(|_| *r.pick(ODD_CHARS)).collect(),
        _ => gen::name(r, c.dict, 12),
    }
}

/// A dictionary from what tokens say to what they shall say, different things staying different
struct Renamer {
    names: HashMap<String, String>,
    syms: HashMap<String, String>,
    strs: HashMap<String, String>,
    ints: HashMap<i32, i32>,
    floats: HashMap<u32, u32>,
    used: [HashSet<String>; 3],
    used_ints: HashSet<i32>,
    used_floats: HashSet<u32>,
    bools: bool,
    /// all names are to look like this one
    near: Option<String>,
}

impl Renamer {
    fn new(bools: bool, near: Option<String>) -> Renamer {
        Renamer {
            names: HashMap::new(),
            syms: HashMap::new(),
            strs: HashMap::new(),
            ints: HashMap::new(),
            floats: HashMap::new(),
            used: Default::default(),
            used_ints: HashSet::new(),
            used_floats: HashSet::new(),
            bools,
            near,
        }
    }
    fn word(map: &mut HashMap<String, String>, used: &mut HashSet<String>, old: &str, symbol: bool, near: &Option<String>, r: &mut Rng, c: &Case) -> String {
        if let Some(n) = map.get(old) {
            return n.clone();
        }
        loop {
            let mut new = match near {
                Some(n) if used.contains(n) => gen::near(r, n),
                Some(n) => n.clone(),
                None => other_name(old, r, c),
            };
            if used.contains(&new) {
                new.push_str(&format!("_{}", used.len()));
            }
            // a symbol that is a question mark is one to the grammar
            if symbol && new == "?" {
                continue;
            }
            if used.insert(new.clone()) {
                map.insert(old.to_string(), new.clone());
                return new;
            }
        }
    }
    fn kind(&mut self, k: &K, r: &mut Rng, c: &Case) -> K {
        match k {
            K::Ident(s) => K::Ident(Self::word(&mut self.names, &mut self.used[0], s, false, &self.near, r, c)),
            K::Sym(s) if s == "?" => k.clone(),
            K::Sym(s) => K::Sym(Self::word(&mut self.syms, &mut self.used[1], s, true, &None, r, c)),
            K::Str(s) => K::Str(Self::word(&mut self.strs, &mut self.used[2], s, false, &self.near, r, c)),
            K::Int(i) => {
                let used = &mut self.used_ints;
                K::Int(*self.ints.entry(*i).or_insert_with(|| loop {
                    let v = match r.below(3) {
                        0 => *r.pick(&[0, 1, -1, 2, 10, 100, i32::MAX, i32::MIN]),
                        1 => r.below(50) as i32,
                        _ => r.u64() as i32,
                    };
                    if used.insert(v) {
                        return v;
                    }
                }))
            }
            K::Float(f) => {
                let used = &mut self.used_floats;
                K::Float(f32::from_bits(*self.floats.entry(f.to_bits()).or_insert_with(|| loop {
                    let v = match r.below(3) {
                        0 => *r.pick(&[0.0f32, -0.0, 1.2, 1.3, 1.4, -1.0, 1e30, f32::MAX, f32::MIN_POSITIVE]),
                        1 => r.below(50) as f32,
                        _ => {
                            let f = f32::from_bits(r.u64() as u32);
                            if f.is_finite() {
                                f
                            } else {
                                0.5
                            }
                        }
                    };
                    let b = v.to_bits();
                    if used.insert(b) {
                        return b;
                    }
                })))
            }
            K::Bool(b) => K::Bool(*b != self.bools),
            k => k.clone(),
        }
    }
}

/// Moves tokens about: lines that were the same stay the same and later ones stay later, columns and
/// offsets become anything
fn moved(tokens: &[Token], r: &mut Rng) -> Vec<Token> {
    let lines: BTreeMap<i32, ()> = tokens.iter().flat_map(|t| [(t.range.0.line, ()), (t.range.1.line, ())]).collect();
    let gap = *r.pick(&[1, 1, 2, 10, 1000]);
    // at times always the same
    let same: Option<i64> = match r.below(4) {
        0 => Some(*r.pick(&[2, 10, 100, 128, 256, 512, 1000, 1 << 15, 1 << 16, 1 << 17, 1 << 20])),
        _ => None,
    };
    let mut at: i64 = match r.below(4) {
        0 => 1,
        1 => r.below(100000) as i64 - 50000,
        2 => i32::MAX as i64 - lines.len() as i64 * gap as i64 - 1,
        _ => i32::MIN as i64 + 1,
    };
    let same = same.filter(|s| *s * lines.len() as i64 + 100000 < i32::MAX as i64);
    if same.is_some() && at > 100000 {
        at = 1;
    }
    let mut map = HashMap::new();
    for l in lines.keys() {
        map.insert(*l, at as i32);
        at += match same {
            Some(s) => s,
            None => r.range(1, gap.max(1)) as i64,
        };
    }
    // distinct offsets, in no order
    let n = tokens.len();
    let mut order: Vec<i32> = (0..n as i32).collect();
    if r.pct(50) {
        for i in (1..n).rev() {
            order.swap(i, r.below(i + 1));
        }
    }
    let base = *r.pick(&[0, 1, 1000000, -5, i32::MAX - 2 * n as i32 - 2]);
    let columns = r.below(4);
    tokens
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let mut t = t.clone();
            let mut column = |old: i32| match columns {
                0 => old,
                1 => 1,
                2 => r.below(200) as i32,
                _ => r.u64() as i32,
            };
            let (a, b) = (column(t.range.0.column), column(t.range.1.column));
            t.range.0.line = map[&t.range.0.line];
            t.range.1.line = map[&t.range.1.line];
            t.range.0.column = a;
            t.range.1.column = b;
            t.range.0.bytes = base + 2 * order[i];
            t.range.1.bytes = base + 2 * order[i] + 1;
            t.range.0.chars = *r.pick(&[0, 5, i32::MAX, base]);
            t.range.1.chars = *r.pick(&[0, 5, i32::MAX, base]);
            t
        })
        .collect()
}

fn opaque(c: &mut Case, tokens: &[Token]) -> Res {
    c.note(&show_all(tokens));
    let want = tree_of(tokens)?;
    let mut r = c.sub();
    for what in 0..3 {
        let mut other = tokens.to_vec();
        if what != 1 {
            let near = if r.pct(30) { Some(gen::name(&mut r, c.dict, 8)) } else { None };
            let mut m = Renamer::new(r.pct(50), near);
            for t in &mut other {
                let k = m.kind(&kind(t), &mut r, c);
                // literal words given as keywords stay what they are
                if kind(t) != k {
                    t.token_type = type_of(&k);
                }
            }
        }
        if what != 0 {
            other = moved(&other, &mut r);
        }
        let how = ["other names and values", "other places", "other names, values and places"][what];
        c.note(&show_all(&other));
        let got = tree_of(&other)?;
        if let Some(d) = diff(&want, &got, &namer(&kinds(tokens))) {
            return Err(Fail::new(format!("with {how}, {d}")).detail(format!("{}\nand\n{}", show_all(tokens), show_all(&other))));
        }
        c.count(how);
    }
    c.add("tokens renamed and moved", tokens.len() as u64);
    c.seen(&show_all(tokens), tokens.len() > 1);
    Ok(())
}

pub const C27: &[Load] = &[
    load("programs", (8000, 150000), (25, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let t = render(&p.lex, &p.starts, &st, &mut r, c.dict).text;
        opaque(c, &sut::lex_ok(&t)?)
    }),
    load("damaged programs", (10000, 200000), (25, 80), |c| {
        let mut r = c.sub();
        let t = fuzz::damaged_text(&mut r, c.dict, c.size);
        opaque(c, &sut::lex_ok(&t)?)
    }),
    load("texts of every kind", (8000, 150000), (30, 100), |c| {
        let mut r = c.sub();
        let t = fuzz::any_lexable(&mut r, c.dict, c.size);
        opaque(c, &sut::lex_ok(&t)?)
    }),
    load("token lists given directly", (12000, 250000), (30, 100), |c| {
        let mut r = c.sub();
        let tokens = fuzz::api_tokens(&mut r, c.dict, c.size);
        opaque(c, &tokens)
    }),
    load("random short token lists", (60000, 1000000), (1, 1), |c| {
        let n = c.rng.range(1, 8);
        let words: Vec<&str> = (0..n).map(|_| *c.rng.pick(parsec::SMALL)).collect();
        opaque(c, &parsec::words_to_tokens(&words))
    }),
    load("large programs", (60, 1500), (500, 2500), |c| {
        let mut r = c.sub();
        let t = fuzz::damaged_text(&mut r, c.dict, c.size);
        opaque(c, &sut::lex_ok(&t)?)
    }),
];

// ---------------------------------------------------------------- C28

struct Wrap {
    name: &'static str,
    before: &'static str,
    after: &'static str,
    /// keywords that end or divide the body
    ends: &'static [&'static str],
}

const WRAPS: &[Wrap] = &[
    Wrap { name: "function", before: "HOW IZ I f", after: "IF U SAY SO", ends: &["IF U SAY SO"] },
    Wrap { name: "function with parameters", before: "HOW IZ I f YR a AN YR b", after: "IF U SAY SO", ends: &["IF U SAY SO"] },
    Wrap { name: "loop", before: "IM IN YR l", after: "IM OUTTA YR l", ends: &["IM OUTTA YR"] },
    Wrap { name: "counting loop", before: "IM IN YR l UPPIN YR i TIL BOTH SAEM i AN 3", after: "IM OUTTA YR l", ends: &["IM OUTTA YR"] },
    Wrap { name: "true branch", before: "O RLY?\nYA RLY", after: "OIC", ends: &["YA RLY", "MEBBE", "NO WAI", "OIC"] },
    Wrap { name: "true branch before others", before: "O RLY?\nYA RLY", after: "MEBBE x\nVISIBLE 7\nNO WAI\nVISIBLE 8\nOIC", ends: &["YA RLY", "MEBBE", "NO WAI", "OIC"] },
    Wrap { name: "other branch", before: "O RLY?\nYA RLY\nVISIBLE 7\nMEBBE x", after: "OIC", ends: &["YA RLY", "MEBBE", "NO WAI", "OIC"] },
    Wrap { name: "middle branch", before: "O RLY?\nYA RLY\nMEBBE x\nVISIBLE 7\nMEBBE y", after: "MEBBE z\nNO WAI\nOIC", ends: &["YA RLY", "MEBBE", "NO WAI", "OIC"] },
    Wrap { name: "last branch", before: "O RLY?\nYA RLY\nVISIBLE 7\nMEBBE x\nVISIBLE 8\nNO WAI", after: "OIC", ends: &["YA RLY", "MEBBE", "NO WAI", "OIC"] },
    Wrap { name: "only case", before: "WTF?\nOMG 1", after: "OIC", ends: &["OMG", "OMGWTF", "OIC"] },
    Wrap { name: "first case", before: "WTF?\nOMG 1", after: "OMG 2\nVISIBLE 7\nGTFO\nOMGWTF\nVISIBLE 8\nOIC", ends: &["OMG", "OMGWTF", "OIC"] },
    Wrap { name: "later case", before: "WTF?\nOMG 1\nVISIBLE 7\nOMG \"s\"", after: "OMGWTF\nOIC", ends: &["OMG", "OMGWTF", "OIC"] },
    Wrap { name: "default case", before: "WTF?\nOMG 1\nVISIBLE 7\nGTFO\nOMGWTF", after: "OIC", ends: &["OMG", "OMGWTF", "OIC"] },
];

const PROBE: &str = "VISIBLE 424242 !";

/// Puts entries where the probe stands
fn insert(n: &Nd, probe: usize, body: &Nd, done: &mut usize) -> Nd {
    let mut out = Nd::new(n.kind);
    for (f, i) in &n.items {
        match i {
            It::Node(x) => {
                let mut ts = Vec::new();
                x.tokens(&mut ts);
                if n.kind == "Block" && ts.contains(&probe) && x.kind == "Visible" {
                    *done += 1;
                    out.items.extend(body.items.iter().cloned());
                } else {
                    out.items.push((*f, It::Node(insert(x, probe, body, done))));
                }
            }
            t => out.items.push((*f, t.clone())),
        }
    }
    out
}

fn body_like_program(c: &mut Case, b: &str) -> Res {
    if !well_ended(b) {
        c.count("left out: an open string or a continuation at the end");
        return Ok(());
    }
    c.note(b);
    let tb = sut::lex_ok(b)?;
    let ks = kinds(&tb);
    let nb = tree_of(&tb)?;
    // does the text leave a block open? then what follows would not stand at its top
    let tp = sut::lex_ok(&format!("{b}\n{PROBE}"))?;
    let np = tree_of(&tp)?;
    let closed = np.items.len() == nb.items.len() + 1
        && np.items[..nb.items.len()] == nb.items[..]
        && matches!(np.items.last(), Some((_, It::Node(n))) if n.kind == "Visible");
    if !closed {
        c.count("left out: a block left open at the end");
        return Ok(());
    }
    let fits: Vec<&Wrap> = WRAPS
        .iter()
        .filter(|w| !ks.iter().any(|k| matches!(k, K::Kw(i) if w.ends.contains(&KW[*i].1))))
        .collect();
    if fits.is_empty() {
        c.count("left out: closers of every kind inside");
        return Ok(());
    }
    let mut r = c.sub();
    let layers = if r.pct(50) { 1 } else { r.range(2, 6) };
    let (mut before, mut after) = (String::new(), String::new());
    for _ in 0..layers {
        let w = *r.pick(&fits);
        c.count(w.name);
        // statements around the inner block
        let (x, y) = if layers > 1 && r.one_in(3) { ("\nx R 1", "I HAS A q\n") } else { ("", "") };
        before = format!("{before}{}{x}\n", w.before);
        after = format!("\n{y}{}{after}", w.after);
    }
    let whole = format!("{before}{b}{after}");
    c.note(&whole);
    let frame = sut::lex_ok(&format!("{before}{PROBE}{after}"))?;
    let nf = tree_of(&frame)?;
    let tw = sut::lex_ok(&whole)?;
    let first = sut::lex_ok(&before)?.len();
    ensure!(
        frame[first..].len() >= 3 && tw.len() == frame.len() - 3 + tb.len(),
        "{} tokens in a block of {} are {} together",
        tb.len(),
        frame.len() - 3,
        tw.len()
    );
    let nw = tree_of(&tw)?;
    let far = usize::MAX / 2;
    let moved = nf.map(&|i| {
        if i < first {
            i
        } else if i < first + 3 {
            far + i
        } else {
            i - 3 + tb.len()
        }
    });
    let mut done = 0;
    let want = insert(&moved, far + first, &nb.map(&|i| i + first), &mut done);
    ensure!(done == 1, "a statement in a block is found {done} times in the tree of its program");
    if let Some(d) = diff(&want, &nw, &namer(&kinds(&tw))) {
        return Err(Fail::new(format!("inside of the block, {d}")));
    }
    let mut errors = Vec::new();
    nb.errors(&mut errors);
    if !errors.is_empty() {
        c.count("bodies with errors in them");
    }
    c.add("blocks put around", layers as u64);
    c.add("entries compared", nb.items.len() as u64);
    c.seen(&whole, !nb.items.is_empty());
    Ok(())
}

/// Text without the closers of some kinds of block
fn without(t: &str, ends: &[&str]) -> String {
    let mut t = t.to_string();
    for e in ends {
        t = t.replace(e, "x");
    }
    t
}

pub const C28: &[Load] = &[
    load("programs", (12000, 200000), (20, 80), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, c.size);
        let st = Style::any(&mut r);
        let t = render(&p.lex, &p.starts, &st, &mut r, c.dict).text;
        body_like_program(c, &t)
    }),
    load("damaged programs", (20000, 350000), (20, 80), |c| {
        let mut r = c.sub();
        let mut t = fuzz::damaged_text(&mut r, c.dict, c.size);
        if r.pct(60) {
            let w = &WRAPS[r.below(WRAPS.len())];
            t = without(&t, w.ends);
        }
        if crate::reflex::lex(&t).is_err() {
            return Ok(());
        }
        body_like_program(c, &t)
    }),
    load("one malformed statement among others", (15000, 250000), (6, 12), |c| {
        let mut r = c.sub();
        let p = gen::program(&mut r, c.dict, 3);
        let a = render(&p.lex, &p.starts, &Style::plain(), &mut r, c.dict).text;
        let q = gen::program(&mut r, c.dict, 3);
        let z = render(&q.lex, &q.starts, &Style::plain(), &mut r, c.dict).text;
        let n = r.range(1, 8);
        let words: Vec<&str> = (0..n).map(|_| *r.pick(parsec::SMALL)).collect();
        let t = format!("{a}\n{}\n{z}", words.join(" "));
        body_like_program(c, &t)
    }),
    load("random short statements", (60000, 900000), (1, 1), |c| {
        let n = c.rng.range(0, 9);
        let words: Vec<&str> = (0..n).map(|_| *c.rng.pick(parsec::SMALL)).collect();
        body_like_program(c, &words.join(" "))
    }),
    load("all short token lists", (75895, 75895), (1, 1), |c| {
        let mut i = c.index;
        let mut words = Vec::new();
        while i > 0 {
            i -= 1;
            words.push(parsec::SMALL[i % parsec::SMALL.len()]);
            i /= parsec::SMALL.len();
        }
        body_like_program(c, &words.join(" "))
    }),
    load("large programs", (60, 1500), (400, 2500), |c| {
        let mut r = c.sub();
        let w = &WRAPS[r.below(WRAPS.len())];
        let t = without(&fuzz::damaged_text(&mut r, c.dict, c.size), w.ends);
        if crate::reflex::lex(&t).is_err() {
            return Ok(());
        }
        body_like_program(c, &t)
    }),
];
