//! Reference model of the c8s language, written from the README and the
//! properties; shares no code with /repo.

use std::collections::HashMap;

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Comment,
    Dot,
    Ident(&'a str),
    Colon,
    Str(&'a str),
    Num(u32),
    Comma,
    Nl,
    Bad(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span {
    pub line: usize,
    pub col: usize,
    pub len: usize,
}

impl Span {
    pub fn show(&self) -> String {
        if self.len == 1 {
            format!("{}:{}", self.line, self.col)
        } else {
            format!("{}:{}-{}", self.line, self.col, self.col + self.len - 1)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Token<'a> {
    pub tok: Tok<'a>,
    pub span: Span,
    pub start: usize,
    pub end: usize,
}

fn ident_start(b: u8) -> bool {
    b == b'_' || b.is_ascii_alphabetic()
}
fn ident_char(b: u8) -> bool {
    b == b'_' || b.is_ascii_alphanumeric()
}

/// The mathematical value of a digit string if it is at most 4095.
fn value_up_to_4095(digits: impl Iterator<Item = u32>, radix: u32) -> Option<u32> {
    let mut v = 0u32;
    let mut over = false;
    for d in digits {
        if !over {
            v = v * radix + d;
            over = v > 4095;
        }
    }
    if over {
        None
    } else {
        Some(v)
    }
}

pub fn lex(src: &str) -> Vec<Token<'_>> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let (mut i, mut line, mut col) = (0usize, 1usize, 1usize);
    while i < b.len() {
        let c = src[i..].chars().next().unwrap();
        if c != '\n' && c.is_whitespace() {
            i += c.len_utf8();
            col += 1;
            continue;
        }
        let start = i;
        let run = |from: usize, f: &dyn Fn(u8) -> bool| -> usize {
            let mut j = from;
            while j < b.len() && f(b[j]) {
                j += 1;
            }
            j
        };
        // (token, end of token, bad tokens end the scan; bad span is 1 unless the whole literal is meant)
        let (tok, end) = match c {
            '\n' => (Tok::Nl, i + 1),
            ';' => {
                let end = src[i..].find('\n').map(|n| i + n).unwrap_or(b.len());
                (Tok::Comment, end)
            }
            '.' => (Tok::Dot, i + 1),
            ':' => (Tok::Colon, i + 1),
            ',' => (Tok::Comma, i + 1),
            '"' => {
                // Ends at the first quote not preceded by a backslash that pairs with it; a
                // backslash must be followed by some character other than a newline.
                let mut j = i + 1;
                let mut closed = None;
                while j < b.len() {
                    match b[j] {
                        b'"' => {
                            closed = Some(j);
                            break;
                        }
                        b'\\' => {
                            if j + 1 >= b.len() || b[j + 1] == b'\n' {
                                break;
                            }
                            let w = src[j + 1..].chars().next().unwrap().len_utf8();
                            j += 1 + w;
                        }
                        _ => j += 1,
                    }
                }
                match closed {
                    Some(j) => (Tok::Str(&src[i + 1..j]), j + 1),
                    None => (Tok::Bad("string"), i + 1),
                }
            }
            '$' | '#' => {
                let mut j = run(i + 1, &|x| x.is_ascii_hexdigit());
                j = j.min(i + 4);
                if j == i + 1 {
                    (Tok::Bad("hex"), i + 1)
                } else {
                    let v = value_up_to_4095(
                        src[i + 1..j].chars().map(|d| d.to_digit(16).unwrap()),
                        16,
                    );
                    (Tok::Num(v.unwrap()), j)
                }
            }
            '%' => {
                let j = run(i + 1, &|x| x == b'0' || x == b'1' || x == b'.');
                if j == i + 1 {
                    (Tok::Bad("bin"), i + 1)
                } else {
                    match value_up_to_4095(
                        b[i + 1..j].iter().map(|d| (*d == b'1') as u32),
                        2,
                    ) {
                        Some(v) => (Tok::Num(v), j),
                        None => (Tok::Bad("bin range"), j),
                    }
                }
            }
            '0'..='9' => {
                let j = run(i, &|x| x.is_ascii_digit());
                match value_up_to_4095(b[i..j].iter().map(|d| (*d - b'0') as u32), 10) {
                    Some(v) => (Tok::Num(v), j),
                    None => (Tok::Bad("dec range"), j),
                }
            }
            '[' => {
                if src[i..].starts_with("[i]") || src[i..].starts_with("[I]") {
                    (Tok::Ident(&src[i..i + 3]), i + 3)
                } else {
                    (Tok::Bad("indirect"), i + 1)
                }
            }
            _ if c.is_ascii() && ident_start(c as u8) => {
                let j = run(i, &ident_char);
                (Tok::Ident(&src[i..j]), j)
            }
            _ => (Tok::Bad("char"), i + c.len_utf8()),
        };
        // Position bookkeeping: columns count code points, spans stop at the end of the first line.
        let text = &src[start..end];
        let first_len = match text.find('\n') {
            Some(n) => text[..n + 1].chars().count(),
            None => text.chars().count(),
        };
        let span = Span { line, col, len: first_len };
        let bad = matches!(tok, Tok::Bad(_));
        out.push(Token { tok, span, start, end });
        if bad {
            break;
        }
        match text.rfind('\n') {
            Some(n) => {
                line += text.bytes().filter(|x| *x == b'\n').count();
                col = 1 + text[n + 1..].chars().count();
            }
            None => col += first_len,
        }
        i = end;
    }
    out
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Num(u32),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    V(u8),
    Dt,
    St,
    I,
    II,
    K,
    B,
    F,
    Num(u32),
    Label(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Label(String),
    Dir(String, Vec<Lit>),
    Ins(String, Vec<Op>),
}

impl Stmt {
    pub fn org(v: u32) -> Stmt {
        Stmt::Dir("org".into(), vec![Lit::Num(v)])
    }
    pub fn equ(v: u32) -> Stmt {
        Stmt::Dir("equ".into(), vec![Lit::Num(v)])
    }
    pub fn db(v: Vec<Lit>) -> Stmt {
        Stmt::Dir("db".into(), v)
    }
    pub fn label(s: &str) -> Stmt {
        Stmt::Label(s.to_string())
    }
    pub fn ins(m: &str, ops: Vec<Op>) -> Stmt {
        Stmt::Ins(m.to_string(), ops)
    }
    /// Bytes emitted (for statements that are valid).
    pub fn size(&self) -> usize {
        match self {
            Stmt::Label(_) => 0,
            Stmt::Ins(..) => 2,
            Stmt::Dir(n, args) => {
                if n.eq_ignore_ascii_case("db") {
                    args.iter()
                        .map(|a| match a {
                            Lit::Num(_) => 1,
                            Lit::Str(s) => s.len(),
                        })
                        .sum()
                } else {
                    0
                }
            }
        }
    }
}

/// What an operand identifier denotes.
pub fn operand(id: &str) -> Op {
    let lower: String = id.to_ascii_lowercase();
    match lower.as_str() {
        "dt" => Op::Dt,
        "st" => Op::St,
        "i" => Op::I,
        "[i]" => Op::II,
        "k" => Op::K,
        "b" => Op::B,
        "f" => Op::F,
        s => {
            let b = s.as_bytes();
            if b.len() == 2 && b[0] == b'v' && (b[1] as char).is_ascii_hexdigit() {
                Op::V((b[1] as char).to_digit(16).unwrap() as u8)
            } else {
                Op::Label(id.to_string())
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    NotUtf8,
    BadToken,
    Syntax,
    Eof,
    Directive,
    TooLarge,
    DirOverflow,
    InsOverflow,
    Redefinition,
    EquAlone,
    NoForm,
    Undefined,
    Range,
    Overlap,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: Kind,
    pub span: Option<Span>,
    pub name: Option<String>,
    /// What a diagnostic has to quote: any one of these, as a word.
    pub about: Vec<String>,
}

fn number(v: u32) -> Vec<String> {
    vec![format!("{:X}", v), format!("{:x}", v), v.to_string()]
}

fn fault<T>(kind: Kind, span: Option<Span>, name: Option<&str>) -> Result<T, Fault> {
    Err(Fault { kind, span, name: name.map(|s| s.to_string()), about: name.iter().map(|s| s.to_string()).collect() })
}

fn fault_about<T>(kind: Kind, span: Option<Span>, about: Vec<String>) -> Result<T, Fault> {
    Err(Fault { kind, span, name: None, about })
}

#[derive(Clone, Debug)]
pub struct Node {
    pub stmt: Stmt,
    /// Location of the identifier that heads the statement.
    pub span: Span,
}

pub fn parse(src: &str) -> Result<Vec<Node>, Fault> {
    let toks = lex(src);
    let mut p = 0usize;
    let mut nodes = Vec::new();
    let unexpected = |p: usize| -> Fault {
        match toks.get(p) {
            None => Fault { kind: Kind::Eof, span: None, name: None, about: vec![] },
            Some(t) => Fault {
                kind: if matches!(t.tok, Tok::Bad(_)) { Kind::BadToken } else { Kind::Syntax },
                span: Some(t.span),
                name: None,
                about: match &t.tok {
                    Tok::Bad("char") | Tok::Bad("dec range") => vec![src[t.start..t.end].to_string()],
                    Tok::Ident(s) | Tok::Str(s) => vec![s.to_string()],
                    Tok::Num(n) => number(*n),
                    _ => vec![],
                },
            },
        }
    };
    while p < toks.len() {
        match &toks[p].tok {
            Tok::Comment | Tok::Nl => p += 1,
            Tok::Dot => {
                let (id, span) = match toks.get(p + 1).map(|t| (&t.tok, t.span)) {
                    Some((Tok::Ident(id), span)) => (*id, span),
                    _ => return Err(unexpected(p + 1)),
                };
                p += 2;
                let mut args = Vec::new();
                loop {
                    match toks.get(p).map(|t| &t.tok) {
                        Some(Tok::Nl) => break,
                        Some(Tok::Num(n)) => args.push(Lit::Num(*n)),
                        Some(Tok::Str(s)) => args.push(Lit::Str(s.to_string())),
                        _ => return Err(unexpected(p)),
                    }
                    p += 1;
                    if let Some(Tok::Comma) = toks.get(p).map(|t| &t.tok) {
                        p += 1;
                    } else {
                        break;
                    }
                }
                nodes.push(Node { stmt: Stmt::Dir(id.to_string(), args), span });
            }
            Tok::Ident(id) => {
                let span = toks[p].span;
                if let Some(Tok::Colon) = toks.get(p + 1).map(|t| &t.tok) {
                    p += 2;
                    nodes.push(Node { stmt: Stmt::Label(id.to_string()), span });
                    continue;
                }
                p += 1;
                let mut ops = Vec::new();
                loop {
                    match toks.get(p).map(|t| &t.tok) {
                        Some(Tok::Nl) | Some(Tok::Comment) => break,
                        Some(Tok::Num(n)) => ops.push(Op::Num(*n)),
                        Some(Tok::Ident(s)) => ops.push(operand(s)),
                        _ => return Err(unexpected(p)),
                    }
                    p += 1;
                    if let Some(Tok::Comma) = toks.get(p).map(|t| &t.tok) {
                        p += 1;
                    } else {
                        break;
                    }
                }
                nodes.push(Node { stmt: Stmt::Ins(id.to_string(), ops), span });
            }
            _ => return Err(unexpected(p)),
        }
    }
    Ok(nodes)
}

// ---------------------------------------------------------------- forms

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    X,
    Y,
    V0,
    N,
    NN,
    NNN,
    Dt,
    St,
    I,
    II,
    K,
    B,
    F,
}

impl Pat {
    pub fn max(self) -> Option<u32> {
        match self {
            Pat::N => Some(15),
            Pat::NN => Some(255),
            Pat::NNN => Some(4095),
            _ => None,
        }
    }
}

pub struct Form {
    pub mn: &'static str,
    pub pats: &'static [Pat],
    pub base: u16,
}

use self::Pat as P;
/// The README's opcode tables (and nop).
pub const FORMS: &[Form] = &[
    Form { mn: "nop", pats: &[], base: 0x0000 },
    Form { mn: "cls", pats: &[], base: 0x00E0 },
    Form { mn: "ret", pats: &[], base: 0x00EE },
    Form { mn: "jp", pats: &[P::NNN], base: 0x1000 },
    Form { mn: "call", pats: &[P::NNN], base: 0x2000 },
    Form { mn: "se", pats: &[P::X, P::NN], base: 0x3000 },
    Form { mn: "sne", pats: &[P::X, P::NN], base: 0x4000 },
    Form { mn: "se", pats: &[P::X, P::Y], base: 0x5000 },
    Form { mn: "ld", pats: &[P::X, P::NN], base: 0x6000 },
    Form { mn: "add", pats: &[P::X, P::NN], base: 0x7000 },
    Form { mn: "ld", pats: &[P::X, P::Y], base: 0x8000 },
    Form { mn: "or", pats: &[P::X, P::Y], base: 0x8001 },
    Form { mn: "and", pats: &[P::X, P::Y], base: 0x8002 },
    Form { mn: "xor", pats: &[P::X, P::Y], base: 0x8003 },
    Form { mn: "add", pats: &[P::X, P::Y], base: 0x8004 },
    Form { mn: "sub", pats: &[P::X, P::Y], base: 0x8005 },
    Form { mn: "shr", pats: &[P::X], base: 0x8006 },
    Form { mn: "subn", pats: &[P::X, P::Y], base: 0x8007 },
    Form { mn: "shl", pats: &[P::X], base: 0x800E },
    Form { mn: "sne", pats: &[P::X, P::Y], base: 0x9000 },
    Form { mn: "ld", pats: &[P::I, P::NNN], base: 0xA000 },
    Form { mn: "jp", pats: &[P::V0, P::NNN], base: 0xB000 },
    Form { mn: "rnd", pats: &[P::X, P::NN], base: 0xC000 },
    Form { mn: "drw", pats: &[P::X, P::Y, P::N], base: 0xD000 },
    Form { mn: "skp", pats: &[P::X], base: 0xE09E },
    Form { mn: "sknp", pats: &[P::X], base: 0xE0A1 },
    Form { mn: "ld", pats: &[P::X, P::Dt], base: 0xF007 },
    Form { mn: "ld", pats: &[P::X, P::K], base: 0xF00A },
    Form { mn: "ld", pats: &[P::Dt, P::X], base: 0xF015 },
    Form { mn: "ld", pats: &[P::St, P::X], base: 0xF018 },
    Form { mn: "add", pats: &[P::I, P::X], base: 0xF01E },
    Form { mn: "ld", pats: &[P::F, P::X], base: 0xF029 },
    Form { mn: "ld", pats: &[P::B, P::X], base: 0xF033 },
    Form { mn: "ld", pats: &[P::II, P::X], base: 0xF055 },
    Form { mn: "ld", pats: &[P::X, P::II], base: 0xF065 },
    Form { mn: "ld", pats: &[P::I, P::II], base: 0x00F8 },
    Form { mn: "trapret", pats: &[], base: 0x00F9 },
    Form { mn: "trap", pats: &[], base: 0x00FA },
];

fn fits(p: Pat, op: &Op) -> bool {
    match (p, op) {
        (Pat::X, Op::V(_)) | (Pat::Y, Op::V(_)) | (Pat::V0, Op::V(0)) => true,
        (Pat::N, Op::Num(_)) | (Pat::NN, Op::Num(_)) | (Pat::NNN, Op::Num(_)) => true,
        (Pat::N, Op::Label(_)) | (Pat::NN, Op::Label(_)) | (Pat::NNN, Op::Label(_)) => true,
        (Pat::Dt, Op::Dt) | (Pat::St, Op::St) | (Pat::I, Op::I) | (Pat::II, Op::II) => true,
        (Pat::K, Op::K) | (Pat::B, Op::B) | (Pat::F, Op::F) => true,
        _ => false,
    }
}

pub fn find_form(mn: &str, ops: &[Op]) -> Option<&'static Form> {
    FORMS.iter().find(|f| {
        f.mn.eq_ignore_ascii_case(mn)
            && f.pats.len() == ops.len()
            && f.pats.iter().zip(ops).all(|(p, o)| fits(*p, o))
    })
}

pub fn encode(
    mn: &str,
    ops: &[Op],
    span: Option<Span>,
    labels: &HashMap<String, u32>,
) -> Result<u16, Fault> {
    let form = match find_form(mn, ops) {
        Some(f) => f,
        None => return fault_about(Kind::NoForm, span, vec![mn.to_string()]),
    };
    let mut w = form.base;
    for (p, o) in form.pats.iter().zip(ops) {
        match (p, o) {
            (Pat::X, Op::V(r)) => w |= (*r as u16) << 8,
            (Pat::Y, Op::V(r)) => w |= (*r as u16) << 4,
            _ => {
                if let Some(max) = p.max() {
                    let v = match o {
                        Op::Num(n) => *n,
                        Op::Label(l) => match labels.get(l) {
                            Some(v) => *v,
                            None => return fault(Kind::Undefined, span, Some(l)),
                        },
                        _ => unreachable!(),
                    };
                    if v > max {
                        return fault_about(Kind::Range, span, number(v));
                    }
                    w |= v as u16;
                }
            }
        }
    }
    Ok(w)
}

// ---------------------------------------------------------------- assembly

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Ins,
    /// An instruction with a label operand.
    InsRef,
    Db,
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    /// Non-empty sections in source order: start, bytes.
    pub sections: Vec<(u32, Vec<u8>)>,
    /// address -> byte, of programs without overlap.
    pub bytes: HashMap<u32, u8>,
    /// address -> which kind of statement emitted it.
    pub what: HashMap<u32, What>,
    pub labels: HashMap<String, u32>,
    pub n_ins: usize,
    pub n_ref: usize,
    pub n_db: usize,
    pub n_equ: usize,
    pub n_org: usize,
    pub n_label: usize,
}

impl Image {
    pub fn sorted(&self) -> Vec<(u32, u8)> {
        let mut v: Vec<_> = self.bytes.iter().map(|(a, b)| (*a, *b)).collect();
        v.sort();
        v
    }
}

pub type Pairs = Vec<((u32, u32), (u32, u32))>;

#[derive(Clone, Debug)]
pub enum Verdict {
    Ok(Image),
    Err(Fault),
    /// Rejected for overlap: pairs of (first, last) address ranges; the sections.
    Overlap(Pairs, Vec<(u32, Vec<u8>)>),
}

impl Verdict {
    pub fn kind(&self) -> Option<Kind> {
        match self {
            Verdict::Ok(_) => None,
            Verdict::Err(f) => Some(f.kind),
            Verdict::Overlap(..) => Some(Kind::Overlap),
        }
    }
    pub fn ok(&self) -> Option<&Image> {
        match self {
            Verdict::Ok(i) => Some(i),
            _ => None,
        }
    }
}

enum D {
    Org(u32),
    Db(Vec<u8>),
    Equ(u32),
}

fn directive(name: &str, args: &[Lit], span: Option<Span>) -> Result<D, Fault> {
    let one = |args: &[Lit]| match args {
        [Lit::Num(n)] => Some(*n),
        _ => None,
    };
    let bad = || Fault { kind: Kind::Directive, span, name: None, about: vec![name.to_string(), name.to_ascii_lowercase()] };
    if name.eq_ignore_ascii_case("org") {
        one(args).map(D::Org).ok_or_else(bad)
    } else if name.eq_ignore_ascii_case("equ") {
        one(args).map(D::Equ).ok_or_else(bad)
    } else if name.eq_ignore_ascii_case("db") {
        if args.is_empty() {
            return Err(bad());
        }
        let mut v = Vec::new();
        for a in args {
            match a {
                Lit::Num(n) if *n <= 255 => v.push(*n as u8),
                Lit::Num(n) => return fault_about(Kind::Directive, span, number(*n)),
                Lit::Str(s) => v.extend_from_slice(s.as_bytes()),
            }
        }
        Ok(D::Db(v))
    } else {
        fault_about(Kind::Directive, span, vec![name.to_string()])
    }
}

pub fn assemble_nodes<'a>(
    nodes: &[(&'a Stmt, Option<Span>)],
) -> Result<(Image, Pairs), Fault> {
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut image = Image::default();
    // Pass 1
    let mut counter = 0u32;
    let mut k = 0;
    while k < nodes.len() {
        let (stmt, span) = (nodes[k].0, nodes[k].1);
        k += 1;
        match stmt {
            Stmt::Dir(name, args) => match directive(name, args, span)? {
                D::Org(a) => {
                    counter = a;
                    image.n_org += 1;
                }
                D::Equ(_) => return fault(Kind::EquAlone, span, None),
                D::Db(v) => {
                    if v.len() > 4095 {
                        return fault(Kind::TooLarge, span, None);
                    }
                    if counter + v.len() as u32 > 4095 {
                        return fault(Kind::DirOverflow, span, None);
                    }
                    counter += v.len() as u32;
                    image.n_db += 1;
                }
            },
            Stmt::Label(name) => {
                let mut value = counter;
                if let Some((Stmt::Dir(dn, da), _)) = nodes.get(k).map(|n| (n.0, n.1)) {
                    if let Ok(D::Equ(v)) = directive(dn, da, None) {
                        value = v;
                        k += 1;
                        image.n_equ += 1;
                    }
                }
                if labels.contains_key(name) {
                    return fault(Kind::Redefinition, span, Some(name));
                }
                labels.insert(name.clone(), value);
                image.n_label += 1;
            }
            Stmt::Ins(..) => {
                if counter + 2 > 4095 {
                    return fault(Kind::InsOverflow, span, None);
                }
                counter += 2;
                image.n_ins += 1;
            }
        }
    }
    // Pass 2
    let mut cur: (u32, Vec<u8>, Vec<What>) = (0, Vec::new(), Vec::new());
    let mut secs: Vec<(u32, Vec<u8>, Vec<What>)> = Vec::new();
    for (stmt, span) in nodes {
        match stmt {
            Stmt::Label(_) => {}
            Stmt::Dir(name, args) => match directive(name, args, *span)? {
                D::Org(a) => {
                    let prev = std::mem::replace(&mut cur, (a, Vec::new(), Vec::new()));
                    if !prev.1.is_empty() {
                        secs.push(prev);
                    }
                }
                D::Equ(_) => {}
                D::Db(v) => {
                    cur.2.extend(v.iter().map(|_| What::Db));
                    cur.1.extend(v);
                }
            },
            Stmt::Ins(mn, ops) => {
                let w = encode(mn, ops, *span, &labels)?;
                let what = if ops.iter().any(|o| matches!(o, Op::Label(_))) {
                    image.n_ref += 1;
                    What::InsRef
                } else {
                    What::Ins
                };
                cur.1.push((w >> 8) as u8);
                cur.1.push(w as u8);
                cur.2.push(what);
                cur.2.push(what);
            }
        }
    }
    if !cur.1.is_empty() {
        secs.push(cur);
    }
    let r = |s: &(u32, Vec<u8>, Vec<What>)| (s.0, s.0 + s.1.len() as u32 - 1);
    let mut pairs = Vec::new();
    // Only look for pairs one by one if any address is written twice.
    let mut seen = [false; 4096];
    let mut clash = false;
    for s in &secs {
        for a in s.0..s.0 + s.1.len() as u32 {
            clash |= seen[a as usize];
            seen[a as usize] = true;
        }
    }
    if clash {
        for i in 0..secs.len() {
            for j in i + 1..secs.len() {
                let (a, b) = (r(&secs[i]), r(&secs[j]));
                if a.0 <= b.1 && b.0 <= a.1 {
                    pairs.push((a, b));
                }
            }
        }
    }
    for (start, bytes, what) in secs {
        for (n, (b, w)) in bytes.iter().zip(&what).enumerate() {
            image.bytes.insert(start + n as u32, *b);
            image.what.insert(start + n as u32, *w);
        }
        image.sections.push((start, bytes));
    }
    image.labels = labels;
    Ok((image, pairs))
}

fn finish(r: Result<(Image, Pairs), Fault>) -> Verdict {
    match r {
        Ok((image, pairs)) => {
            if pairs.is_empty() {
                Verdict::Ok(image)
            } else {
                Verdict::Overlap(pairs, image.sections)
            }
        }
        Err(f) => Verdict::Err(f),
    }
}

pub fn assemble_ast(stmts: &[Stmt]) -> Verdict {
    let v: Vec<(&Stmt, Option<Span>)> = stmts.iter().map(|s| (s, None)).collect();
    finish(assemble_nodes(&v))
}

pub fn assemble(src: &[u8]) -> Verdict {
    let s = match std::str::from_utf8(src) {
        Ok(s) => s,
        Err(_) => {
            return Verdict::Err(Fault { kind: Kind::NotUtf8, span: None, name: None, about: vec![] });
        }
    };
    match parse(s) {
        Err(f) => Verdict::Err(f),
        Ok(nodes) => {
            let v: Vec<(&Stmt, Option<Span>)> =
                nodes.iter().map(|n| (&n.stmt, Some(n.span))).collect();
            finish(assemble_nodes(&v))
        }
    }
}
