//! Reference parser: the grammar and the error rules, written over numbered tokens that were
//! split into statements beforehand.
use crate::kinds::K;
use crate::tree::{Ix, Nd};

/// What the grammar sees of a token
#[derive(Clone, Debug)]
pub struct PTok {
    pub k: K,
    pub start_line: i32,
    pub end_line: i32,
}

/// Splits tokens into statements, comments left out.
pub fn statements(toks: &[PTok]) -> Vec<Vec<Ix>> {
    let seen: Vec<Ix> = (0..toks.len()).filter(|i| !toks[*i].k.is_comment()).collect();
    let mut out = Vec::new();
    let mut at = 0;
    loop {
        // separators and continuations in front of a statement mean nothing
        while at < seen.len() && matches!(toks[seen[at]].k, K::Comma | K::Ellipsis) {
            at += 1;
        }
        if at == seen.len() {
            return out;
        }
        let mut line = toks[seen[at]].start_line;
        let mut stmt = Vec::new();
        loop {
            // a continuation on this line: the statement goes on where the next token is
            while at < seen.len()
                && toks[seen[at]].k == K::Ellipsis
                && toks[seen[at]].start_line == line
            {
                at += 1;
                if at < seen.len() {
                    line = toks[seen[at]].start_line;
                }
            }
            if at == seen.len() || toks[seen[at]].k == K::Comma || toks[seen[at]].start_line != line
            {
                break;
            }
            stmt.push(seen[at]);
            line = toks[seen[at]].end_line;
            at += 1;
        }
        out.push(stmt);
    }
}

pub fn parse(toks: &[PTok]) -> Nd {
    let mut p = P {
        toks,
        stmts: statements(toks),
        s: 0,
        at: 0,
    };
    p.block(&|_| false)
}

struct P<'a> {
    toks: &'a [PTok],
    stmts: Vec<Vec<Ix>>,
    /// the statement being read, and the place in it
    s: usize,
    at: usize,
}

type R = Result<Nd, Nd>;

fn err(kind: &'static str, t: Ix) -> Nd {
    Nd::new(kind).tok("token", t)
}

fn unexpected(t: Ix) -> Nd {
    err("Error:UnexpectedToken", t)
}

fn binary(k: &str) -> Option<&'static str> {
    Some(match k {
        "EITHER OF" => "Binary:EitherOf",
        "WON OF" => "Binary:WonOf",
        "SUM OF" => "Binary:SumOf",
        "DIFF OF" => "Binary:DiffOf",
        "PRODUKT OF" => "Binary:ProduktOf",
        "QUOSHUNT OF" => "Binary:QuoshuntOf",
        "MOD OF" => "Binary:ModOf",
        "BIGGR OF" => "Binary:BiggrOf",
        "SMALLR OF" => "Binary:SmallrOf",
        "BOTH SAEM" => "Binary:BothSaem",
        "BOTH OF" => "Binary:BothOf",
        "DIFFRINT" => "Binary:Diffrint",
        _ => return None,
    })
}

fn nary(k: &str) -> Option<&'static str> {
    Some(match k {
        "ALL OF" => "Nary:AllOf",
        "ANY OF" => "Nary:AnyOf",
        "SMOOSH" => "Nary:Smoosh",
        _ => return None,
    })
}

fn type_kind(k: &str) -> Option<&'static str> {
    Some(match k {
        "NUMBR" => "Type:Numbr",
        "NUMBAR" => "Type:Numbar",
        "YARN" => "Type:Yarn",
        "NOOB" => "Type:Noob",
        "BUKKIT" => "Type:Bukkit",
        "TROOF" => "Type:Troof",
        _ => return None,
    })
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<Ix> {
        self.stmts.get(self.s)?.get(self.at).copied()
    }
    fn next(&mut self) -> Option<Ix> {
        let t = self.peek()?;
        self.at += 1;
        Some(t)
    }
    fn k(&self, t: Ix) -> &K {
        &self.toks[t].k
    }
    fn kw(&self, t: Ix) -> &'static str {
        match self.k(t) {
            K::Kw(i) => crate::kinds::KW[*i].1,
            _ => "",
        }
    }
    fn peek_kw(&self) -> &'static str {
        self.peek().map_or("", |t| self.kw(t))
    }
    fn take_kw(&mut self, k: &str) -> Option<Ix> {
        if self.peek_kw() == k {
            self.next()
        } else {
            None
        }
    }
    fn rest(&mut self) -> Vec<Ix> {
        let mut v = Vec::new();
        while let Some(t) = self.next() {
            v.push(t);
        }
        v
    }
    fn advance(&mut self) {
        self.s += 1;
        self.at = 0;
    }
    /// The end of a clause header: nothing may be left in its statement
    fn end_of_header(&mut self) -> Result<(), Nd> {
        let rest = self.rest();
        if rest.is_empty() {
            self.advance();
            Ok(())
        } else {
            Err(Nd::new("Error:TooManyTokens").toks("token", &rest))
        }
    }

    fn block(&mut self, stop: &dyn Fn(&str) -> bool) -> Nd {
        let mut entries = Vec::new();
        while self.peek().is_some() && !stop(self.peek_kw()) {
            let first = self.next().unwrap();
            entries.push(self.statement(first).unwrap_or_else(|e| e));
            let rest = self.rest();
            if !rest.is_empty() {
                entries.push(Nd::new("Error:TooManyTokens").toks("token", &rest));
            }
            self.advance();
        }
        Nd::new("Block").nodes("stmt", entries)
    }

    fn is_variable(&self, t: Ix) -> bool {
        matches!(self.k(t), K::Ident(_)) || self.kw(t) == "SRS"
    }

    fn identifier(&mut self, first: Ix) -> R {
        if let K::Ident(_) = self.k(first) {
            return Ok(Nd::new("Identifier").tok("name", first));
        }
        if self.kw(first) != "SRS" {
            return Err(unexpected(first));
        }
        match self.next() {
            None => Err(err("Error:MissingToken", first)),
            Some(t) if matches!(self.k(t), K::Ident(_)) => {
                Ok(Nd::new("Identifier").tok("srs", first).tok("name", t))
            }
            Some(t) => Err(unexpected(t)),
        }
    }

    fn variable(&mut self, first: Ix) -> R {
        let mut v = Nd::new("Variable").node("identifier", self.identifier(first)?);
        while let Some(slot) = self.peek().filter(|t| *self.k(*t) == K::Slot) {
            self.next();
            let t = self.next().ok_or_else(|| err("Error:MissingToken", slot))?;
            let id = self.identifier(t)?;
            v = v.node(
                "slot",
                Nd::new("Slot").tok("slot_access", slot).node("identifier", id),
            );
        }
        Ok(v)
    }

    fn expression(&mut self, first: Ix) -> R {
        if self.is_variable(first) {
            return self.variable(first);
        }
        let k = self.kw(first);
        if self.k(first).is_value() || k == "NOOB" {
            return Ok(Nd::new("Literal").tok("token", first));
        }
        let operands = || err("Error:MissingOperands", first);
        if k == "NOT" {
            let t = self.next().ok_or_else(operands)?;
            return Ok(Nd::new("Unary:Not")
                .tok("operator", first)
                .node("operand", self.expression(t)?));
        }
        if let Some(kind) = binary(k) {
            let t = self.next().ok_or_else(operands)?;
            let left = self.expression(t)?;
            let an = self.take_kw("AN");
            let t = self.next().ok_or_else(operands)?;
            let right = self.expression(t)?;
            return Ok(Nd::new(kind)
                .tok("operator", first)
                .node("left", left)
                .opt("an", an)
                .node("right", right));
        }
        if let Some(kind) = nary(k) {
            let mut n = Nd::new(kind).tok("operator", first);
            while self.peek().is_some() && self.peek_kw() != "MKAY" {
                let t = self.next().unwrap();
                n = n.node("operand", self.expression(t)?);
                n = n.opt("an", self.take_kw("AN"));
            }
            return Ok(n.opt("mkay", self.next()));
        }
        Err(unexpected(first))
    }

    fn statement(&mut self, first: Ix) -> R {
        if self.is_variable(first) {
            return self.starts_with_variable(first);
        }
        match self.kw(first) {
            "I HAS A" => self.i_has_a(first),
            "VISIBLE" => {
                let mut n = Nd::new("Visible").tok("keyword", first);
                while let Some(t) = self.peek().filter(|t| *self.k(*t) != K::Excl) {
                    self.next();
                    n = n.node("value", self.expression(t)?);
                }
                Ok(n.opt("exclamation_mark", self.next()))
            }
            "GIMMEH" => {
                let t = self.next().ok_or_else(|| err("Error:MissingToken", first))?;
                Ok(Nd::new("Gimmeh")
                    .tok("keyword", first)
                    .node("variable", self.variable(t)?))
            }
            "FOUND YR" => {
                let t = self.next().ok_or_else(|| err("Error:MissingToken", first))?;
                Ok(Nd::new("FoundYr")
                    .tok("keyword", first)
                    .node("value", self.expression(t)?))
            }
            "HAI" => {
                let version = self.rest();
                Ok(Nd::new("Hai").tok("keyword", first).toks("version", &version))
            }
            "KTHXBYE" => Ok(Nd::new("KThxBye").tok("keyword", first)),
            "GTFO" => Ok(Nd::new("Gtfo").tok("keyword", first)),
            "I IZ" => self.i_iz(first),
            "IM IN YR" => self.im_in_yr(first),
            "HOW IZ I" => self.how_iz_i(first),
            "WTF" => self.wtf(first),
            "O RLY" => self.o_rly(first),
            _ => Ok(Nd::new("Expression").node("expression", self.expression(first)?)),
        }
    }

    fn starts_with_variable(&mut self, first: Ix) -> R {
        let variable = self.variable(first)?;
        // the last name of the variable stands for it in error reports
        let last = {
            let mut ts = Vec::new();
            variable.tokens(&mut ts);
            *ts.last().unwrap()
        };
        let Some(next) = self.next() else {
            return Ok(Nd::new("Expression").node("expression", variable));
        };
        match self.kw(next) {
            "HAS A" => {
                let t = self
                    .next()
                    .ok_or_else(|| err("Error:Assignment:ExpectedValue", next))?;
                let slot = self.identifier(t)?;
                let slot_last = {
                    let mut ts = Vec::new();
                    slot.tokens(&mut ts);
                    *ts.last().unwrap()
                };
                let itz = self
                    .next()
                    .ok_or_else(|| err("Error:MissingToken", slot_last))?;
                if self.kw(itz) != "ITZ" {
                    return Err(unexpected(itz));
                }
                let t = self.next().ok_or_else(|| err("Error:MissingToken", itz))?;
                Ok(Nd::new("BukkitSetSlot")
                    .node("bukkit", variable)
                    .node("slot_name", slot)
                    .node("value", self.expression(t)?))
            }
            "R" => {
                let t = self
                    .next()
                    .ok_or_else(|| err("Error:Assignment:ExpectedValue", next))?;
                Ok(Nd::new("Assignment")
                    .node("variable", variable)
                    .tok("r", next)
                    .node("value", self.expression(t)?))
            }
            _ => Err(err("Error:Assignment:MissingR", last)),
        }
    }

    fn i_has_a(&mut self, first: Ix) -> R {
        let t = self
            .next()
            .ok_or_else(|| err("Error:IHasA:MissingIdentifier", first))?;
        if !self.is_variable(t) {
            return Err(err("Error:IHasA:InvalidIdentifier", t));
        }
        let n = Nd::new("IHasA")
            .tok("keyword", first)
            .node("identifier", self.identifier(t)?);
        let Some(itz) = self.next() else {
            return Ok(n);
        };
        if self.kw(itz) != "ITZ" {
            return Err(unexpected(itz));
        }
        let t = self
            .next()
            .ok_or_else(|| err("Error:IHasA:ExpectedInitialValue", itz))?;
        Ok(match type_kind(self.kw(t)) {
            Some(kind) => n.node("type", Nd::new(kind).tok("token", t)),
            None => n.node("value", self.expression(t)?),
        })
    }

    fn i_iz(&mut self, first: Ix) -> R {
        let t = match self.next() {
            Some(t) if self.kw(t) != "MKAY" => t,
            _ => return Err(err("Error:IIz:MissingName", first)),
        };
        let mut n = Nd::new("IIz")
            .tok("keyword", first)
            .node("name", self.variable(t)?);
        while let Some(yr) = self.take_kw("YR") {
            let t = match self.next() {
                Some(t) if self.kw(t) != "MKAY" => t,
                _ => return Err(err("Error:IIz:MissingArgument", yr)),
            };
            n = n.node("argument", self.expression(t)?);
            if self.take_kw("AN").is_none() {
                break;
            }
        }
        match self.next() {
            None => Err(err("Error:IIz:MissingMkay", first)),
            Some(t) if self.kw(t) == "MKAY" => Ok(n),
            Some(t) => Err(err("Error:IIz:MissingMkay", t)),
        }
    }

    fn how_iz_i(&mut self, first: Ix) -> R {
        let t = self
            .next()
            .ok_or_else(|| err("Error:HowIsI:MissingNameIdentifier", first))?;
        let mut n = Nd::new("HowIzI")
            .tok("keyword", first)
            .node("name", self.identifier(t)?);
        while let Some(yr) = self.take_kw("YR") {
            let t = self.next().ok_or_else(|| err("Error:MissingToken", yr))?;
            n = n.node("argument", self.identifier(t)?);
            if self.take_kw("AN").is_none() {
                break;
            }
        }
        self.end_of_header()?;
        let body = self.block(&|k| k == "IF U SAY SO");
        match self.next() {
            None => Err(err("Error:MissingBlockClosingToken", first)),
            Some(_) => Ok(n.node("body", body)),
        }
    }

    fn im_in_yr(&mut self, first: Ix) -> R {
        let label = self
            .next()
            .ok_or_else(|| err("Error:ImInYr:MissingStartLabel", first))?;
        if !matches!(self.k(label), K::Ident(_)) {
            return Err(err("Error:ImInYr:InvalidStartLabel", label));
        }
        let mut n = Nd::new("ImInYr").tok("keyword", first).tok("label", label);
        match self.peek() {
            None => {}
            Some(op) => match self.kw(op) {
                "TIL" | "WILE" => {}
                k @ ("UPPIN" | "NERFIN") => {
                    self.next();
                    let yr = self
                        .next()
                        .ok_or_else(|| err("Error:ImInYr:MissingOperand", op))?;
                    if self.kw(yr) != "YR" {
                        return Err(err("Error:ImInYr:MissingYr", yr));
                    }
                    let t = self
                        .next()
                        .ok_or_else(|| err("Error:ImInYr:MissingOperand", op))?;
                    let kind = if k == "UPPIN" {
                        "Loop:Uppin"
                    } else {
                        "Loop:Nerfin"
                    };
                    n = n.node(
                        "operation",
                        Nd::new(kind)
                            .tok("token", op)
                            .node("operand", self.variable(t)?),
                    );
                }
                _ => {
                    self.next();
                    return Err(err("Error:ImInYr:InvalidOperation", op));
                }
            },
        }
        if let Some(c) = self.next() {
            let kind = match self.kw(c) {
                "TIL" => "Loop:Til",
                "WILE" => "Loop:Wile",
                _ => return Err(err("Error:ImInYr:InvalidConditional", c)),
            };
            let t = self
                .next()
                .ok_or_else(|| err("Error:ImInYr:MissingConditionalExpression", c))?;
            n = n.node(
                "condition",
                Nd::new(kind).node("expression", self.expression(t)?),
            );
        }
        self.end_of_header()?;
        let body = self.block(&|k| k == "IM OUTTA YR");
        let outta = self
            .next()
            .ok_or_else(|| err("Error:ImInYr:MissingImOuttaYr", first))?;
        let end = self
            .next()
            .ok_or_else(|| err("Error:ImInYr:MissingEndLabel", outta))?;
        if !matches!(self.k(end), K::Ident(_)) {
            return Err(err("Error:ImInYr:InvalidEndLabel", end));
        }
        Ok(n.node("body", body).tok("end_label", end))
    }

    fn question_mark(&mut self, first: Ix) -> Result<(), Nd> {
        match self.next() {
            Some(t) if *self.k(t) == K::Quest || *self.k(t) == K::Sym("?".into()) => Ok(()),
            _ => Err(err("Error:ORly:MissingQuestionMark", first)),
        }
    }

    fn oic(&mut self, first: Ix, n: Nd) -> R {
        match self.next() {
            None => Err(err("Error:MissingBlockClosingToken", first)),
            Some(t) if self.kw(t) == "OIC" => Ok(n),
            Some(t) => Err(unexpected(t)),
        }
    }

    fn o_rly(&mut self, first: Ix) -> R {
        let stop = |k: &str| matches!(k, "YA RLY" | "MEBBE" | "NO WAI" | "OIC");
        self.question_mark(first)?;
        self.end_of_header()?;
        let mut n = Nd::new("ORly").tok("keyword", first);
        if let Some(t) = self.take_kw("YA RLY") {
            self.end_of_header()?;
            let body = self.block(&stop);
            n = n.node("if_true", Nd::new("YaRly").tok("keyword", t).node("body", body));
        }
        while let Some(t) = self.take_kw("MEBBE") {
            let e = self
                .next()
                .ok_or_else(|| err("Error:ORly:MissingMebbeExpression", t))?;
            let condition = self.expression(e)?;
            self.end_of_header()?;
            let body = self.block(&stop);
            n = n.node(
                "mebbe",
                Nd::new("Mebbe")
                    .tok("keyword", t)
                    .node("condition", condition)
                    .node("body", body),
            );
        }
        if let Some(t) = self.take_kw("NO WAI") {
            self.end_of_header()?;
            let body = self.block(&stop);
            n = n.node("if_false", Nd::new("NoWai").tok("keyword", t).node("body", body));
        }
        self.oic(first, n)
    }

    fn wtf(&mut self, first: Ix) -> R {
        let stop = |k: &str| matches!(k, "OMG" | "OMGWTF" | "OIC");
        self.question_mark(first)?;
        self.end_of_header()?;
        let mut n = Nd::new("Wtf").tok("keyword", first);
        while let Some(t) = self.take_kw("OMG") {
            let e = self.next().ok_or_else(|| err("Error:MissingToken", t))?;
            let value = self.expression(e)?;
            self.end_of_header()?;
            let body = self.block(&stop);
            n = n.node(
                "omg",
                Nd::new("Omg")
                    .tok("keyword", t)
                    .node("value", value)
                    .node("body", body),
            );
        }
        if let Some(t) = self.take_kw("OMGWTF") {
            self.end_of_header()?;
            let body = self.block(&stop);
            n = n.node("omg_wtf", Nd::new("OmgWtf").tok("keyword", t).node("body", body));
        }
        self.oic(first, n)
    }
}
