//! The monitor's own notion of a token, and its own keyword table.
use lolcode_ast::lexer::{Keywords, NumberToken, Token, TokenType, TokenValue};

/// Token kinds, as the lexical rules name them.
#[derive(Clone, Debug)]
pub enum K {
    Ident(String),
    /// index into KW
    Kw(usize),
    Sym(String),
    Int(i32),
    Float(f32),
    Str(String),
    Bool(bool),
    Noob,
    Com(String),
    MCom(String),
    Slot,
    Ellipsis,
    Comma,
    Excl,
    Quest,
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        match (self, o) {
            (K::Ident(a), K::Ident(b)) => a == b,
            (K::Kw(a), K::Kw(b)) => a == b,
            (K::Sym(a), K::Sym(b)) => a == b,
            (K::Int(a), K::Int(b)) => a == b,
            (K::Float(a), K::Float(b)) => a.to_bits() == b.to_bits(),
            (K::Str(a), K::Str(b)) => a == b,
            (K::Bool(a), K::Bool(b)) => a == b,
            (K::Com(a), K::Com(b)) => a == b,
            (K::MCom(a), K::MCom(b)) => a == b,
            (K::Noob, K::Noob)
            | (K::Slot, K::Slot)
            | (K::Ellipsis, K::Ellipsis)
            | (K::Comma, K::Comma)
            | (K::Excl, K::Excl)
            | (K::Quest, K::Quest) => true,
            _ => false,
        }
    }
}

macro_rules! kws { ($($v:ident = $s:expr),* $(,)?) => {
    /// Every keyword with the spelling the language gives it.
    pub const KW: &[(&str, &str)] = &[$((stringify!($v), $s)),*];
    pub fn kw_index(k: &Keywords) -> usize {
        let name = match k { $(Keywords::$v => stringify!($v)),* };
        KW.iter().position(|(n, _)| *n == name).unwrap()
    }
    pub fn kw_value(i: usize) -> Keywords {
        let all = [$(Keywords::$v),*];
        all[i].clone()
    }
} }

kws! {
    BTW = "BTW", HAS_A = "HAS A", OBTW = "OBTW", SRS = "SRS", TLDR = "TLDR", BUKKIT = "BUKKIT",
    HAI = "HAI", KTHXBYE = "KTHXBYE", I_HAS_A = "I HAS A", ITZ = "ITZ", NOOB = "NOOB",
    TROOF = "TROOF", FAIL = "FAIL", WIN = "WIN", NUMBR = "NUMBR", NUMBAR = "NUMBAR",
    YARN = "YARN", MKAY = "MKAY", AN = "AN", SUM_OF = "SUM OF", DIFF_OF = "DIFF OF",
    PRODUKT_OF = "PRODUKT OF", QUOSHUNT_OF = "QUOSHUNT OF", MOD_OF = "MOD OF",
    BIGGR_OF = "BIGGR OF", SMALLR_OF = "SMALLR OF", BOTH_SAEM = "BOTH SAEM",
    BOTH_OF = "BOTH OF", EITHER_OF = "EITHER OF", WON_OF = "WON OF", NOT = "NOT",
    UPPIN = "UPPIN", NERFIN = "NERFIN", ALL_OF = "ALL OF", ANY_OF = "ANY OF",
    DIFFRINT = "DIFFRINT", SMOOSH = "SMOOSH", MAEK = "MAEK", IS_NOW = "IS NOW",
    VISIBLE = "VISIBLE", GIMMEH = "GIMMEH", O_RLY = "O RLY", YA_RLY = "YA RLY",
    NO_WAI = "NO WAI", OIC = "OIC", MEBBE = "MEBBE", WTF = "WTF", OMGWTF = "OMGWTF",
    OMG = "OMG", GTFO = "GTFO", IM_IN_YR = "IM IN YR", YR = "YR", TIL = "TIL", WILE = "WILE",
    IM_OUTTA_YR = "IM OUTTA YR", HOW_IZ_I = "HOW IZ I", IF_U_SAY_SO = "IF U SAY SO",
    FOUND_YR = "FOUND YR", I_IZ = "I IZ", R = "R", A = "A",
}

/// Index of a keyword by its spelling
pub fn kw(spelling: &str) -> usize {
    KW.iter()
        .position(|(_, s)| *s == spelling)
        .unwrap_or_else(|| panic!("no keyword {spelling}"))
}

/// A literal word or comment opener: in the table of keywords, but tokenized as something else.
pub fn lexes_as_keyword(i: usize) -> bool {
    !matches!(KW[i].0, "BTW" | "OBTW" | "NOOB" | "FAIL" | "WIN")
}

pub fn kind_of(t: &TokenType) -> K {
    match t {
        TokenType::Identifier(s) => K::Ident(s.clone()),
        TokenType::Keyword(k) => K::Kw(kw_index(k)),
        TokenType::Symbol(s) => K::Sym(s.clone()),
        TokenType::Value(TokenValue::Number(NumberToken::Int(i))) => K::Int(*i),
        TokenType::Value(TokenValue::Number(NumberToken::Float(f))) => K::Float(*f),
        TokenType::Value(TokenValue::String(s)) => K::Str(s.clone()),
        TokenType::Value(TokenValue::Boolean(b)) => K::Bool(*b),
        TokenType::Value(TokenValue::NOOB) => K::Noob,
        TokenType::CommentSingleLine(s) => K::Com(s.clone()),
        TokenType::CommentMultiLine(s) => K::MCom(s.clone()),
        TokenType::BukkitSlotAccess => K::Slot,
        TokenType::Ellipsis => K::Ellipsis,
        TokenType::Comma => K::Comma,
        TokenType::ExclamationMark => K::Excl,
        TokenType::QuestionMark => K::Quest,
    }
}

pub fn type_of(k: &K) -> TokenType {
    match k {
        K::Ident(s) => TokenType::Identifier(s.clone()),
        K::Kw(i) => TokenType::Keyword(kw_value(*i)),
        K::Sym(s) => TokenType::Symbol(s.clone()),
        K::Int(i) => TokenType::Value(TokenValue::Number(NumberToken::Int(*i))),
        K::Float(f) => TokenType::Value(TokenValue::Number(NumberToken::Float(*f))),
        K::Str(s) => TokenType::Value(TokenValue::String(s.clone())),
        K::Bool(b) => TokenType::Value(TokenValue::Boolean(*b)),
        K::Noob => TokenType::Value(TokenValue::NOOB),
        K::Com(s) => TokenType::CommentSingleLine(s.clone()),
        K::MCom(s) => TokenType::CommentMultiLine(s.clone()),
        K::Slot => TokenType::BukkitSlotAccess,
        K::Ellipsis => TokenType::Ellipsis,
        K::Comma => TokenType::Comma,
        K::Excl => TokenType::ExclamationMark,
        K::Quest => TokenType::QuestionMark,
    }
}

pub fn kind(t: &Token) -> K {
    kind_of(&t.token_type)
}

impl K {
    pub fn is_comment(&self) -> bool {
        matches!(self, K::Com(_) | K::MCom(_))
    }
    pub fn is_value(&self) -> bool {
        matches!(self, K::Int(_) | K::Float(_) | K::Str(_) | K::Bool(_) | K::Noob)
    }
    pub fn is_kw(&self, spelling: &str) -> bool {
        matches!(self, K::Kw(i) if KW[*i].1 == spelling)
    }
    /// A short class name, for statistics
    pub fn class(&self) -> &'static str {
        match self {
            K::Ident(_) => "identifier",
            K::Kw(i) => KW[*i].1,
            K::Sym(_) => "symbol",
            K::Int(_) => "int",
            K::Float(_) => "float",
            K::Str(_) => "string",
            K::Bool(_) => "bool",
            K::Noob => "noob",
            K::Com(_) => "comment",
            K::MCom(_) => "multiline comment",
            K::Slot => "slot",
            K::Ellipsis => "ellipsis",
            K::Comma => "comma",
            K::Excl => "exclamation",
            K::Quest => "question",
        }
    }
}
