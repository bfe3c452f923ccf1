//! The lexical rules, as an automaton over characters, written independently of the code:
//! for each position inside a token it says which characters continue the token, whether the
//! token may end there, and whether tokenization may fail there.
use crate::mach::{atom, CS, EOF};

pub const BETWEEN: u8 = 0;
pub const WORD: u8 = 1;
pub const N0: u8 = 2;
pub const NINT: u8 = 3;
pub const NFRAC: u8 = 4;
pub const NEXP: u8 = 5;
pub const NEXPS: u8 = 6;
pub const NEXPD: u8 = 7;
pub const HEXX: u8 = 8;
pub const HEX: u8 = 9;
pub const DOT: u8 = 10;
pub const BQ: u8 = 11;
pub const BQDONE: u8 = 12;
pub const LINE_COMMENT: u8 = 13;
pub const BLOCK: u8 = 14;
pub const BSTAR: u8 = 15;
pub const BDONE: u8 = 16;
pub const MINUS: u8 = 17;
pub const SLASH: u8 = 18;
pub const BAR: u8 = 19;
pub const LT: u8 = 20;
pub const GT_ZERO: u8 = 21;
pub const GT_POS: u8 = 22;
pub const GT_ANY: u8 = 23;
pub const EQ: u8 = 24;
pub const BANG: u8 = 25;
pub const OP2: u8 = 26;
pub const ONE: u8 = 27;
pub const AT: u8 = 28;
pub const ATW: u8 = 29;
pub const ATBQ: u8 = 30;
pub const ATBQDONE: u8 = 31;
pub const BRACE1: u8 = 32;
pub const BRACE2: u8 = 33;
pub const T1: u8 = 34;
pub const T2: u8 = 35;
pub const T2C: u8 = 36;
pub const TDONE: u8 = 37;
pub const TANY: u8 = 38;
pub const SDONE: u8 = 39;
// strings: base + 0 open, 1 body, 2 escape, 3 empty, 4 triple body, 5 triple escape, 6, 7 one, two closing quotes
pub const SQ: u8 = 40;
pub const DQ: u8 = 50;
pub const LOST: u8 = 60;
pub const NSTATE: u8 = 61;

fn digit(a: usize) -> bool {
    a < 128 && (a as u8).is_ascii_digit()
}
fn hex(a: usize) -> bool {
    a < 128 && (a as u8).is_ascii_hexdigit()
}
pub fn ident1(a: usize) -> bool {
    a == 128 || a == b'_' as usize || a < 128 && (a as u8).is_ascii_alphabetic()
}
pub fn ident(a: usize) -> bool {
    ident1(a) || digit(a)
}
fn white(a: usize) -> bool {
    a == 129 || a < 128 && (a as u8 as char).is_whitespace()
}
pub fn blank() -> CS {
    CS::by(white)
}
fn is(a: usize, c: char) -> bool {
    a == c as usize
}

/// the states after one more character; LOST: the character does not belong to the token
pub fn step(q: u8, a: usize, dz: u8, tracked: bool) -> Vec<u8> {
    let c = if a < 128 { a as u8 as char } else { '\u{1}' };
    let one = |b: bool, n: u8| vec![if b { n } else { LOST }];
    match q {
        BETWEEN => vec![match c {
            _ if white(a) => BETWEEN,
            _ if ident1(a) => WORD,
            '0' => N0,
            '1'..='9' => NINT,
            '.' => DOT,
            '#' => LINE_COMMENT,
            '\'' => SQ,
            '"' => DQ,
            '`' => BQ,
            '-' => MINUS,
            '/' => SLASH,
            '|' => BAR,
            '<' => LT,
            '>' => {
                return match (tracked, dz) {
                    (false, _) => vec![GT_ANY],
                    (_, 0) => vec![GT_ZERO],
                    (_, 1) => vec![GT_POS],
                    _ => vec![GT_ZERO, GT_POS],
                }
            }
            '=' => EQ,
            '!' => BANG,
            '@' => AT,
            '{' => BRACE1,
            _ => ONE,
        }],
        WORD => one(ident(a), WORD),
        N0 | NINT => vec![match c {
            '0'..='9' => NINT,
            'x' | 'X' if q == N0 => HEXX,
            '.' => NFRAC,
            'e' | 'E' => NEXP,
            _ => LOST,
        }],
        NFRAC => vec![match c {
            '0'..='9' => NFRAC,
            'e' | 'E' => NEXP,
            _ => LOST,
        }],
        NEXP => vec![match c {
            '0'..='9' => NEXPD,
            '+' | '-' => NEXPS,
            _ => LOST,
        }],
        NEXPS | NEXPD => one(digit(a), NEXPD),
        HEXX | HEX => one(hex(a), HEX),
        DOT => one(digit(a), NFRAC),
        BQ => vec![if c == '`' { BQDONE } else { BQ }],
        ATBQ => vec![if c == '`' { ATBQDONE } else { ATBQ }],
        LINE_COMMENT => one(c != '\n', LINE_COMMENT),
        BLOCK => vec![if c == '*' { BSTAR } else { BLOCK }],
        BSTAR => vec![match c {
            '/' => BDONE,
            '*' => BSTAR,
            _ => BLOCK,
        }],
        MINUS => one(c == '-', LINE_COMMENT),
        SLASH => one(c == '*', BLOCK),
        BAR => one(c == '|' || c == '>', OP2),
        LT => one(c == '<' || c == '=' || c == '>', OP2),
        GT_ZERO | GT_ANY => one(c == '>' || c == '=', OP2),
        EQ => one(c == '>', OP2),
        BANG => one(c == '=', OP2),
        AT => vec![match c {
            '@' => AT,
            '`' => ATBQ,
            _ if ident1(a) => ATW,
            _ => LOST,
        }],
        ATW => one(ident(a), ATW),
        BRACE1 => vec![match c {
            '{' => BRACE2,
            '@' | ',' | '0'..='9' => LOST,
            '}' => TANY,
            _ => T1,
        }],
        BRACE2 => vec![match c {
            '{' | '}' => TANY,
            _ => T2,
        }],
        T1 => vec![if c == '}' { TDONE } else { T1 }],
        T2 => vec![if c == '}' { T2C } else { T2 }],
        T2C => vec![if c == '}' { TDONE } else { T2 }],
        TANY => vec![TANY],
        _ if (SQ..SQ + 8).contains(&q) || (DQ..DQ + 8).contains(&q) => {
            let b = if q < DQ { SQ } else { DQ };
            let quote = c == if b == SQ { '\'' } else { '"' };
            let esc = c == '\\';
            match q - b {
                0 => vec![b + if quote { 3 } else if esc { 2 } else { 1 }],
                1 => vec![if quote { SDONE } else if esc { b + 2 } else { b + 1 }],
                2 => vec![b + 1],
                3 => one(quote, b + 4),
                4 => vec![b + if quote { 6 } else if esc { 5 } else { 4 }],
                5 => vec![b + 4],
                6 => vec![b + if quote { 7 } else if esc { 5 } else { 4 }],
                _ => vec![if quote { SDONE } else { b + if esc { 5 } else { 4 } }],
            }
        }
        _ => vec![LOST],
    }
}
/// may the token end here if the text goes on with this character (and then one of next2)
pub fn accept(q: u8, a: usize, next2: CS) -> bool {
    let c = if a < 128 { a as u8 as char } else { '\u{1}' };
    let no = |s: &str| a == EOF || !s.contains(c) || a >= 128;
    let no2 = |f: &dyn Fn(usize) -> bool| !next2.iter().any(|x| f(x));
    match q {
        WORD | ATW => !ident(a) || a == EOF,
        N0 | NINT | NFRAC => {
            if digit(a) || q != NFRAC && is(a, '.') {
                return false;
            }
            if q == N0 && (is(a, 'x') || is(a, 'X')) {
                return no2(&hex);
            }
            if is(a, 'e') || is(a, 'E') {
                // an e without digits may be left to the next token
                return no2(&|x| digit(x) || is(x, '+') || is(x, '-'));
            }
            true
        }
        NEXP => !digit(a) && no("+-"),
        NEXPS | NEXPD | DOT => !digit(a),
        HEX => !hex(a),
        LINE_COMMENT => a == EOF || c == '\n' && a < 128,
        MINUS => no("-"),
        SLASH => no("*"),
        BAR => no("|>"),
        LT => no("<=>"),
        GT_ZERO => no(">="),
        EQ => no(">"),
        BANG => no("="),
        BRACE1 => a < 128 && "@,0123456789".contains(c),
        BQDONE | BDONE | SDONE | ATBQDONE | TDONE | GT_POS | GT_ANY | OP2 | ONE | TANY | LOST => true,
        _ if q == SQ + 3 => no("'"),
        _ if q == DQ + 3 => no("\""),
        _ => false,
    }
}
/// may tokenization fail here
pub fn may_reject(q: u8, a: usize) -> bool {
    match q {
        AT => a == EOF || !(ident1(a) || is(a, '`') || is(a, '@')),
        BQ | ATBQ | BLOCK | BSTAR | BRACE1 | BRACE2 | T1 | T2 | T2C | TANY | LOST => a == EOF,
        NEXP | NEXPS => !digit(a), // an exponent without digits
        _ if (SQ..SQ + 3).contains(&q) || (DQ..DQ + 3).contains(&q) => a == EOF || is(a, '\n'),
        _ if (SQ + 4..SQ + 8).contains(&q) || (DQ + 4..DQ + 8).contains(&q) => a == EOF,
        _ => false,
    }
}
pub fn is_comment(q: u8) -> bool {
    q == LINE_COMMENT || q == BDONE
}
pub fn name(q: u8) -> &'static str {
    match q {
        BETWEEN => "white space",
        WORD => "a word",
        N0 | NINT => "an integer",
        NFRAC => "a number with a fraction",
        NEXP | NEXPS | NEXPD => "a number with an exponent",
        HEXX | HEX => "a hexadecimal integer",
        DOT => "a dot",
        BQ | BQDONE => "a back-quoted name",
        LINE_COMMENT => "a line comment",
        BLOCK | BSTAR | BDONE => "a block comment",
        MINUS => "a minus sign",
        SLASH => "a slash",
        BAR => "a bar",
        LT => "a less-than sign",
        GT_ZERO | GT_ANY => "a greater-than sign",
        GT_POS => "the end of a type parameter list",
        EQ => "an equals sign",
        BANG => "an exclamation mark",
        OP2 => "a two-character operator",
        ONE => "a one-character token",
        AT | ATW | ATBQ | ATBQDONE => "a parameter",
        BRACE1 => "an opening brace",
        BRACE2 | T1 | T2 | T2C | TDONE | TANY => "a template",
        SDONE => "a string",
        LOST => "an ill-formed token",
        _ => match (q - SQ) % 10 {
            0..=2 => "a string",
            3 => "an empty string",
            _ => "a triple-quoted string",
        },
    }
}

// ---------------------------------------------------------------- lexical categories
pub enum Kind {
    /// one text, in any letter case
    Exact(Vec<char>),
    /// all texts that end in one of these states, made of these characters
    Lang(Vec<u8>, CS),
}
pub struct Cat {
    pub name: String,
    pub kind: Kind,
    pub not: Vec<String>, // except these words (in any letter case)
    pub must: CS,         // and at least one of these characters (EMPTY: no condition)
    pub first: CS,        // and starts with one of these (EMPTY: no condition)
    live: Vec<bool>,
}
const MUST: u16 = 256; // state flag: the condition is met
impl Cat {
    pub fn exact(s: &str) -> Cat {
        Cat { name: s.to_string(), kind: Kind::Exact(s.chars().collect()), not: vec![], must: CS::EMPTY, first: CS::EMPTY, live: vec![] }
    }
    pub fn lang(name: &str, fin: &[u8], allow: CS, not: Vec<String>, must: CS) -> Cat {
        Cat::lang_from(name, fin, allow, not, must, CS::EMPTY)
    }
    pub fn lang_from(name: &str, fin: &[u8], allow: CS, not: Vec<String>, must: CS, first: CS) -> Cat {
        let mut c = Cat { name: name.to_string(), kind: Kind::Lang(fin.to_vec(), allow), not, must, first, live: vec![false; 512] };
        // states from which the category can be completed
        loop {
            let mut ch = false;
            for q in 0..512u16 {
                if (q & 255) < NSTATE as u16 && !c.live[q as usize] && (c.accepts(q) || c.raw(q).iter().any(|x| c.live[x.1 as usize])) {
                    c.live[q as usize] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        c
    }
    fn raw(&self, q: u16) -> Vec<(usize, u16)> {
        let mut out = vec![];
        if let Kind::Lang(_, allow) = &self.kind {
            for a in allow.iter() {
                if a == EOF || (q & 255) as u8 == BETWEEN && !self.first.is_empty() && !self.first.has(a) {
                    continue;
                }
                for n in step((q & 255) as u8, a, 2, true) {
                    if n == LOST || n == BETWEEN {
                        continue;
                    }
                    let m = if self.must.has(a) { MUST } else { q & MUST };
                    out.push((a, n as u16 | m));
                }
            }
        }
        out
    }
    pub fn steps(&self, q: u16) -> Vec<(usize, u16)> {
        match &self.kind {
            Kind::Exact(cs) => match cs.get(q as usize) {
                Some(c) => {
                    let mut v = vec![(atom(*c), q + 1)];
                    let (u, l) = (c.to_ascii_uppercase(), c.to_ascii_lowercase());
                    if u != l {
                        v = vec![(atom(u), q + 1), (atom(l), q + 1)];
                    }
                    v
                }
                None => vec![],
            },
            _ => self.raw(q).into_iter().filter(|x| self.live[x.1 as usize]).collect(),
        }
    }
    pub fn accepts(&self, q: u16) -> bool {
        match &self.kind {
            Kind::Exact(cs) => q as usize == cs.len(),
            Kind::Lang(f, _) => f.contains(&((q & 255) as u8)) && (self.must.is_empty() || q & MUST != 0),
        }
    }
    pub fn live(&self, q: u16) -> bool {
        match &self.kind {
            Kind::Exact(cs) => q as usize <= cs.len(),
            _ => self.live[q as usize],
        }
    }
    fn states_after(&self, n: usize) -> std::collections::BTreeSet<u16> {
        let mut cur: std::collections::BTreeSet<u16> = [0].into();
        for _ in 0..n {
            cur = cur.iter().flat_map(|q| self.steps(*q)).map(|x| x.1).collect();
        }
        cur
    }
    pub fn has_len(&self, n: usize) -> bool {
        self.states_after(n).iter().any(|q| self.accepts(*q))
    }
    pub fn has_len_over(&self, n: usize) -> bool {
        self.states_after(n).iter().any(|q| !self.steps(*q).is_empty())
    }
    pub fn first_chars(&self) -> CS {
        self.steps(0).iter().fold(CS::EMPTY, |c, x| c.or(CS::one(x.0)))
    }
    /// last characters of what is left from this state
    pub fn last_chars(&self, q: u16) -> CS {
        let mut seen = std::collections::BTreeSet::new();
        let mut work = vec![q];
        let mut set = CS::EMPTY;
        while let Some(q) = work.pop() {
            if !seen.insert(q) {
                continue;
            }
            for (a, n) in self.steps(q) {
                if self.accepts(n) {
                    set = set.or(CS::one(a));
                }
                work.push(n);
            }
        }
        set
    }
    fn contains(&self, w: &str) -> bool {
        let mut cur: std::collections::BTreeSet<u16> = [0].into();
        for c in w.chars() {
            cur = cur.iter().flat_map(|q| self.steps(*q)).filter(|x| x.0 == atom(c)).map(|x| x.1).collect();
        }
        cur.iter().any(|q| self.accepts(*q))
    }
    /// does every / some text of the category equal this one
    pub fn eq(&self, w: &str, folded: bool) -> Option<bool> {
        if folded && w.to_uppercase() != w {
            return Some(false);
        }
        match &self.kind {
            Kind::Exact(cs) => {
                let s: String = cs.iter().collect();
                if s.to_uppercase() != w.to_uppercase() {
                    Some(false)
                } else if folded || s.to_uppercase() == s.to_lowercase() {
                    Some(true)
                } else {
                    None
                }
            }
            Kind::Lang(..) => {
                let up = w.to_uppercase();
                if self.not.iter().any(|n| *n == up) || !self.contains(w) {
                    Some(false)
                } else {
                    None
                }
            }
        }
    }
    /// (some text starts with this, some text does not)
    pub fn prefix(&self, k: &str) -> (bool, bool) {
        let mut cur: std::collections::BTreeSet<u16> = [0].into();
        let mut other = false;
        for c in k.chars() {
            let st: Vec<(usize, u16)> = cur.iter().flat_map(|q| self.steps(*q)).collect();
            other |= st.iter().any(|x| x.0 != atom(c)) || cur.iter().any(|q| self.accepts(*q));
            cur = st.into_iter().filter(|x| x.0 == atom(c)).map(|x| x.1).collect();
        }
        (!cur.is_empty(), other)
    }
}
fn rep(a: usize) -> char {
    match a {
        128 => 'é',
        129 => '\u{a0}',
        130 => '²',
        131 => '→',
        _ => a as u8 as char,
    }
}
/// (some text of the category matches, some does not)
pub fn regex_vs(pat: &str, cat: &Cat) -> Option<(bool, bool)> {
    use regex_automata::dfa::{dense::DFA, Automaton};
    use regex_automata::{util::start, Anchored};
    let dfa = DFA::new(pat).ok()?;
    let s0 = dfa.start_state(&start::Config::new().anchored(Anchored::No)).ok()?;
    let mut seen = std::collections::BTreeSet::new();
    let mut work = vec![(s0, 0u16, false)];
    let (mut y, mut n) = (false, false);
    while let Some((s, q, m)) = work.pop() {
        if !seen.insert((s.as_usize(), q, m)) {
            continue;
        }
        if cat.accepts(q) {
            let e = dfa.next_eoi_state(s);
            if m || dfa.is_match_state(e) {
                y = true
            } else {
                n = true
            }
        }
        for (a, q2) in cat.steps(q) {
            let mut buf = [0u8; 4];
            let mut t = s;
            let mut mm = m;
            for b in rep(a).encode_utf8(&mut buf).bytes() {
                t = dfa.next_state(t, b);
                mm |= dfa.is_match_state(t);
                if dfa.is_quit_state(t) {
                    return None;
                }
            }
            work.push((t, q2, mm));
        }
    }
    Some((y, n))
}
