//! Writes lexemes as text, in many equivalent ways.
use crate::dict::Dict;
use crate::gen::{prose, Lex, ODD_CHARS};
use crate::kinds::K;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct Style {
    /// percent of line ends written as CRLF
    pub crlf: u32,
    /// percent of places where blanks are left out if they may be
    pub glue: u32,
    /// percent of blanks that are not one space
    pub wild: u32,
    /// percent of statements separated by commas
    pub comma: u32,
    /// percent of separators that come with superfluous ones
    pub extra: u32,
    /// percent of places inside a statement with a line continuation
    pub ellipsis: u32,
    /// percent of blank lines, indentation
    pub lines: u32,
    /// percent of places with a comment
    pub comment: u32,
    /// whether comments may span lines
    pub span: bool,
    pub final_newline: u32,
    pub leading: u32,
}

pub struct Laid {
    pub text: String,
    /// the tokens the text has: kind, and the lexeme if it is one
    pub toks: Vec<(K, Option<usize>)>,
    /// the same tokens' place in the text, in bytes
    pub at: Vec<(usize, usize)>,
}

impl Style {
    /// One space between lexemes, one line per statement
    pub fn plain() -> Style {
        Style {
            final_newline: 100,
            ..Style::default()
        }
    }
    /// Blank space only
    pub fn blanks(rng: &mut Rng) -> Style {
        Style {
            crlf: *rng.pick(&[0, 0, 100, 30]),
            glue: *rng.pick(&[0, 0, 50, 100]),
            wild: *rng.pick(&[0, 20, 80]),
            lines: *rng.pick(&[0, 20, 70]),
            final_newline: *rng.pick(&[0, 100]),
            leading: *rng.pick(&[0, 50]),
            ..Style::default()
        }
    }
    /// Blank space, commas and continuations
    pub fn separators(rng: &mut Rng) -> Style {
        Style {
            comma: *rng.pick(&[0, 30, 60, 100]),
            extra: *rng.pick(&[0, 20, 60]),
            ellipsis: *rng.pick(&[0, 5, 20, 60]),
            ..Style::blanks(rng)
        }
    }
    pub fn comments(rng: &mut Rng) -> Style {
        Style {
            comment: *rng.pick(&[5, 15, 40, 80]),
            span: rng.pct(60),
            final_newline: *rng.pick(&[0, 100]),
            ..Style::plain()
        }
    }
    pub fn wild(rng: &mut Rng) -> Style {
        let span = rng.pct(60);
        let comment = *rng.pick(&[0, 0, 5, 20]);
        Style {
            comment,
            span,
            ..Style::separators(rng)
        }
    }
    /// Any of the above
    pub fn any(rng: &mut Rng) -> Style {
        match rng.below(6) {
            0 | 1 => Style::plain(),
            2 => Style::blanks(rng),
            3 => Style::separators(rng),
            4 => Style::comments(rng),
            _ => Style::wild(rng),
        }
    }
}

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// Whether two pieces of text may stand side by side and still be the same two tokens
pub fn may_glue(a: &str, ak: &K, b: &str, bk: &K) -> bool {
    let last = a.chars().last().unwrap_or(' ');
    let first = b.chars().next().unwrap_or(' ');
    // strings, marks
    let solid = |k: &K| {
        matches!(
            k,
            K::Str(_) | K::Comma | K::Excl | K::Quest | K::Slot | K::MCom(_)
        )
    };
    if matches!(ak, K::Str(_)) && !(a.len() >= 2 && a.ends_with('"')) {
        return false;
    }
    if matches!(ak, K::Com(_)) {
        return false;
    }
    if matches!(ak, K::Slot) || matches!(ak, K::MCom(_)) || matches!(ak, K::Ellipsis) {
        // an opener and its first letters stand on their own
        return !(matches!(ak, K::Ellipsis) && (first == '.' || first.is_ascii_digit()))
            && !(matches!(ak, K::Ellipsis) && matches!(bk, K::Ellipsis));
    }
    if matches!(bk, K::Com(_) | K::MCom(_)) {
        // "xBTW" would be a name
        return !word(last) && !matches!(ak, K::Int(_) | K::Float(_) | K::Sym(_));
    }
    if matches!(bk, K::Ellipsis) {
        return !word(last) && !matches!(ak, K::Int(_) | K::Float(_) | K::Sym(_)) || b == "…" && !matches!(ak, K::Sym(_));
    }
    if solid(ak) {
        return !(first == '.' && last == '.');
    }
    if solid(bk) {
        return !matches!(ak, K::Sym(_));
    }
    false
}

struct W<'a> {
    rng: &'a mut Rng,
    dict: &'a Dict,
    st: &'a Style,
    out: Laid,
}

impl<'a> W<'a> {
    fn tok(&mut self, text: &str, k: K, l: Option<usize>) {
        let from = self.out.text.len();
        self.out.text.push_str(text);
        self.out.toks.push((k, l));
        self.out.at.push((from, self.out.text.len()));
    }
    fn nl(&mut self) {
        if self.rng.pct(self.st.crlf) {
            self.out.text.push_str("\r\n");
        } else {
            self.out.text.push('\n');
        }
    }
    /// Some blanks, at least one
    fn blank(&mut self) {
        if self.rng.pct(self.st.wild) {
            let n = if self.rng.one_in(30) {
                self.rng.range(10, 300)
            } else {
                self.rng.range(1, 4)
            };
            for _ in 0..n {
                let c = match self.rng.below(12) {
                    0..=6 => ' ',
                    7..=10 => '\t',
                    _ => '\r',
                };
                self.out.text.push(c);
            }
        } else {
            self.out.text.push(' ');
        }
    }
    fn maybe_blank(&mut self) {
        if self.rng.pct(50) && !self.rng.pct(self.st.glue) {
            self.blank();
        }
    }
    fn indent(&mut self) {
        if self.rng.pct(self.st.lines) {
            let n = self.rng.below(9);
            let c = if self.rng.pct(70) { ' ' } else { '\t' };
            for _ in 0..n {
                self.out.text.push(c);
            }
        }
    }
    /// The token written last: its text ends in something a following text must be kept from
    fn gap_needed(&self, b: &str, bk: &K) -> bool {
        match (self.out.toks.last(), self.out.at.last()) {
            (Some((ak, _)), Some((from, to))) if *to == self.out.text.len() => {
                !may_glue(&self.out.text[*from..*to], ak, b, bk)
            }
            _ => false,
        }
    }
    fn gap_before(&mut self, b: &str, bk: &K) {
        if self.gap_needed(b, bk) {
            self.blank();
        } else if !self.rng.pct(self.st.glue) && !self.out.text.is_empty() {
            self.blank();
        }
    }
    fn comment_text(&mut self, newlines: bool) -> String {
        let mut s = prose(self.rng, self.dict, 6, newlines);
        if self.rng.one_in(8) {
            s.push(*self.rng.pick(ODD_CHARS));
        }
        s
    }
    fn multi_comment(&mut self, newlines: bool) {
        let mut s = self.comment_text(newlines).replace("TLDR", "TLD");
        while (s.clone() + "TLDR").find("TLDR") != Some(s.len()) {
            s.pop();
        }
        if self.rng.pct(70) {
            s = format!(" {s} ");
        }
        if newlines && self.rng.pct(70) && !s.contains('\n') {
            s.push('\n');
        }
        let text = format!("OBTW{s}TLDR");
        let k = K::MCom(s);
        self.gap_before(&text, &k);
        self.tok(&text, k, None);
    }
    /// A comment to the end of the line, and the line end (or the end of the text)
    fn line_comment(&mut self, end: bool) {
        let mut s = self.comment_text(false);
        if self.rng.pct(70) {
            s = format!(" {s}");
        }
        let crlf = !end && self.rng.pct(self.st.crlf);
        if crlf {
            s.push('\r');
        }
        let text = format!("BTW{s}");
        let k = K::Com(s);
        self.gap_before(&text, &k);
        self.tok(&text, k, None);
        if !end {
            self.out.text.push('\n');
        }
    }
    fn comma(&mut self) {
        self.gap_before(",", &K::Comma);
        self.tok(",", K::Comma, None);
    }
    /// Any number of lines that hold nothing, perhaps comments
    fn empty_lines(&mut self) {
        while self.rng.pct(self.st.lines) && self.rng.pct(60) {
            self.indent();
            self.nl();
        }
        while self.rng.pct(self.st.comment) && self.rng.pct(60) {
            self.indent();
            if self.rng.pct(50) {
                self.line_comment(false);
            } else {
                let nl = self.st.span && self.rng.pct(60);
                self.multi_comment(nl);
                self.maybe_blank();
                self.nl();
            }
        }
    }
    /// What stands between two statements
    fn separator(&mut self) {
        if self.rng.pct(self.st.comma) {
            self.maybe_comment();
            self.comma();
            while self.rng.pct(self.st.extra) {
                self.comma();
            }
            if self.rng.pct(self.st.extra) {
                self.newline();
                while self.rng.pct(self.st.extra / 2) {
                    self.comma();
                }
            }
            if self.st.span && self.rng.pct(self.st.comment) {
                let nl = self.rng.pct(40);
                self.multi_comment(nl);
            }
        } else {
            if self.rng.pct(self.st.extra) {
                self.comma();
            }
            self.newline();
            while self.rng.pct(self.st.extra / 2) {
                self.comma();
                if self.rng.pct(40) {
                    self.newline();
                }
            }
            if self.st.span && self.rng.pct(self.st.comment / 2) {
                self.multi_comment(true);
            }
        }
    }
    /// A line end, perhaps with a comment in front, perhaps empty lines after
    fn newline(&mut self) {
        if self.rng.pct(self.st.comment) {
            match self.rng.below(3) {
                0 => {
                    let nl = self.st.span && self.rng.pct(50);
                    self.multi_comment(nl);
                    self.maybe_blank();
                    self.nl();
                }
                _ => self.line_comment(false),
            }
        } else {
            if self.rng.pct(self.st.wild / 2) {
                self.blank();
            }
            self.nl();
        }
        self.empty_lines();
        self.indent();
    }
    fn maybe_comment(&mut self) {
        if self.rng.pct(self.st.comment) && self.rng.pct(60) {
            self.multi_comment(false);
        }
    }
    /// A line continuation inside a statement
    fn continuation(&mut self) {
        self.maybe_comment();
        let text = *self.rng.pick(&["...", "...", "…"]);
        self.gap_before(text, &K::Ellipsis);
        self.tok(text, K::Ellipsis, None);
        self.newline();
    }
}

/// `starts`: lexemes that begin a statement
pub fn render(lex: &[Lex], starts: &[usize], st: &Style, rng: &mut Rng, dict: &Dict) -> Laid {
    let mut w = W {
        rng,
        dict,
        st,
        out: Laid {
            text: String::new(),
            toks: Vec::new(),
            at: Vec::new(),
        },
    };
    if w.rng.pct(st.leading) {
        w.newline();
    }
    if w.rng.pct(st.comment) && w.rng.pct(50) {
        w.empty_lines();
    }
    if w.rng.pct(st.extra / 2) {
        w.comma();
        if w.rng.pct(50) {
            w.newline();
        }
    }
    w.indent();
    let mut next_start = starts.iter().copied().filter(|s| *s > 0).peekable();
    for (i, l) in lex.iter().enumerate() {
        if next_start.peek() == Some(&i) {
            next_start.next();
            w.separator();
        } else if i > 0 {
            if w.rng.pct(st.ellipsis) {
                w.continuation();
                while w.rng.one_in(12) {
                    w.continuation();
                }
            } else {
                w.maybe_comment();
            }
        }
        let at_line_start = w
            .out
            .text
            .chars()
            .last()
            .map_or(true, |c| matches!(c, '\n' | ' ' | '\t'));
        if !at_line_start {
            w.gap_before(&l.text, &l.k);
        }
        w.tok(&l.text, l.k.clone(), Some(i));
    }
    if w.rng.pct(st.extra) && !lex.is_empty() {
        w.comma();
    }
    if w.rng.pct(st.comment) && w.rng.pct(50) {
        if w.rng.pct(50) {
            w.line_comment(true);
            return w.out;
        }
        let nl = st.span && w.rng.pct(40);
        w.multi_comment(nl);
    }
    if w.rng.pct(st.final_newline) {
        w.newline();
    } else if w.rng.pct(st.wild) {
        w.blank();
    }
    w.out
}
