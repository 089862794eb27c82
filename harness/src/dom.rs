//! A reference model of JSON documents, written from RFC 8259 alone: a parser which records where
//! every value starts, a printer that spells a document in a random way, and generators.

use crate::engine::Src;

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    /// A number, as it is spelled.
    Num(String),
    Str(String),
    Arr(Vec<Node>),
    Obj(Vec<(String, Node)>),
}

/// A value with the (character) offset where it starts.
#[derive(Debug, Clone, PartialEq)]
pub struct SNode {
    pub pos: usize,
    pub v: SVal,
}

#[derive(Debug, Clone, PartialEq)]
pub enum SVal {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<SNode>),
    Obj(Vec<(String, SNode)>),
}

impl SNode {
    pub fn strip(&self) -> Node {
        match &self.v {
            SVal::Null => Node::Null,
            SVal::Bool(b) => Node::Bool(*b),
            SVal::Num(s) => Node::Num(s.clone()),
            SVal::Str(s) => Node::Str(s.clone()),
            SVal::Arr(a) => Node::Arr(a.iter().map(SNode::strip).collect()),
            SVal::Obj(a) => Node::Obj(a.iter().map(|(k, v)| (k.clone(), v.strip())).collect()),
        }
    }

    /// Number of values in the document.
    pub fn size(&self) -> usize {
        1 + match &self.v {
            SVal::Arr(a) => a.iter().map(SNode::size).sum(),
            SVal::Obj(a) => a.iter().map(|(_, v)| v.size()).sum(),
            _ => 0,
        }
    }
}

/// The verdict on a text with a line comment that the end of the text ends.
pub const UNSPECIFIED: usize = usize::MAX;

/// Parses a whole document. `Err` has the offset of the first character which cannot continue any
/// valid document (or the length of the text), or is [`UNSPECIFIED`].
pub fn parse(text: &[char], comments: bool) -> Result<SNode, usize> {
    let mut p = Parser { t: text, i: 0, comments, token: None };
    p.ws()?;
    let v = p.value()?;
    p.ws()?;
    if p.i < text.len() {
        return Err(p.i);
    }
    Ok(v)
}

/// For a text which is not a document, gets the offset of the first character which cannot continue
/// any document, and that of the token which it is in, or before which it is.
pub fn malformed(text: &[char], comments: bool) -> Option<(usize, usize)> {
    let mut p = Parser { t: text, i: 0, comments, token: None };
    let res = (|| {
        p.ws()?;
        p.value()?;
        p.ws()?;
        if p.i < text.len() {
            return Err(p.i);
        }
        Ok(())
    })();
    match res {
        Ok(()) | Err(UNSPECIFIED) => None,
        Err(at) => Some((at, p.token.unwrap_or(at))),
    }
}

/// Parses one value at the start of the given text, returning where it ends.
pub fn parse_prefix(text: &[char], comments: bool) -> Result<(SNode, usize), usize> {
    let mut p = Parser { t: text, i: 0, comments, token: None };
    p.ws()?;
    let v = p.value()?;
    Ok((v, p.i))
}

struct Parser<'a> {
    t: &'a [char],
    i: usize,
    comments: bool,
    /// Where the token that is being read starts.
    token: Option<usize>,
}

impl Parser<'_> {
    fn at(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }

    fn ws(&mut self) -> Result<(), usize> {
        loop {
            match self.at() {
                Some(' ' | '\t' | '\n' | '\r') => self.i += 1,
                Some('/') if self.comments => {
                    self.token = Some(self.i);
                    match self.t.get(self.i + 1) {
                        Some('/') => {
                            let rest = &self.t[self.i..];
                            match rest.iter().position(|c| *c == '\n') {
                                Some(n) => self.i += n + 1,
                                // A line comment that the end of the text ends is unspecified
                                None => return Err(UNSPECIFIED),
                            }
                        }
                        Some('*') => {
                            let mut j = self.i + 2;
                            loop {
                                if j + 1 >= self.t.len() {
                                    return Err(self.t.len());
                                }
                                if self.t[j] == '*' && self.t[j + 1] == '/' {
                                    break;
                                }
                                j += 1;
                            }
                            self.i = j + 2;
                        }
                        _ => return Err(self.i + 1),
                    }
                    self.token = None;
                }
                _ => return Ok(()),
            }
        }
    }

    fn lit(&mut self, s: &str) -> Result<(), usize> {
        self.token = Some(self.i);
        for c in s.chars() {
            if self.at() != Some(c) {
                return Err(self.i);
            }
            self.i += 1;
        }
        self.token = None;
        Ok(())
    }

    fn value(&mut self) -> Result<SNode, usize> {
        let pos = self.i;
        let v = match self.at() {
            Some('n') => {
                self.lit("null")?;
                SVal::Null
            }
            Some('t') => {
                self.lit("true")?;
                SVal::Bool(true)
            }
            Some('f') => {
                self.lit("false")?;
                SVal::Bool(false)
            }
            Some('"') => SVal::Str(self.string()?),
            Some('-' | '0'..='9') => SVal::Num(self.number()?),
            Some('[') => {
                self.i += 1;
                let mut items = Vec::new();
                self.ws()?;
                if self.at() == Some(']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws()?;
                        items.push(self.value()?);
                        self.ws()?;
                        match self.at() {
                            Some(',') => self.i += 1,
                            Some(']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(self.i),
                        }
                    }
                }
                SVal::Arr(items)
            }
            Some('{') => {
                self.i += 1;
                let mut items = Vec::new();
                self.ws()?;
                if self.at() == Some('}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws()?;
                        if self.at() != Some('"') {
                            return Err(self.i);
                        }
                        let key = self.string()?;
                        self.ws()?;
                        if self.at() != Some(':') {
                            return Err(self.i);
                        }
                        self.i += 1;
                        self.ws()?;
                        items.push((key, self.value()?));
                        self.ws()?;
                        match self.at() {
                            Some(',') => self.i += 1,
                            Some('}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(self.i),
                        }
                    }
                }
                SVal::Obj(items)
            }
            _ => return Err(self.i),
        };
        Ok(SNode { pos, v })
    }

    fn number(&mut self) -> Result<String, usize> {
        let start = self.i;
        self.token = Some(start);
        if self.at() == Some('-') {
            self.i += 1;
        }
        match self.at() {
            Some('0') => self.i += 1,
            Some('1'..='9') => self.digits()?,
            _ => return Err(self.i),
        }
        if self.at() == Some('.') {
            self.i += 1;
            self.digits()?;
        }
        if let Some('e' | 'E') = self.at() {
            self.i += 1;
            if let Some('+' | '-') = self.at() {
                self.i += 1;
            }
            self.digits()?;
        }
        self.token = None;
        Ok(self.t[start..self.i].iter().collect())
    }

    fn digits(&mut self) -> Result<(), usize> {
        if !matches!(self.at(), Some('0'..='9')) {
            return Err(self.i);
        }
        while let Some('0'..='9') = self.at() {
            self.i += 1;
        }
        Ok(())
    }

    fn hex4(&mut self) -> Result<u32, usize> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.at() {
                Some(c @ '0'..='9') => c as u32 - '0' as u32,
                Some(c @ 'a'..='f') => c as u32 - 'a' as u32 + 10,
                Some(c @ 'A'..='F') => c as u32 - 'A' as u32 + 10,
                _ => return Err(self.i),
            };
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }

    fn string(&mut self) -> Result<String, usize> {
        self.token = Some(self.i);
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.at() {
                None => return Err(self.i),
                Some('"') => {
                    self.i += 1;
                    self.token = None;
                    return Ok(s);
                }
                Some('\\') => {
                    self.i += 1;
                    let c = self.at().ok_or(self.i)?;
                    let esc = self.i;
                    self.i += 1;
                    match c {
                        '"' | '\\' | '/' => s.push(c),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let a = self.hex4()?;
                            let code = if (0xD800..=0xDBFF).contains(&a) {
                                if self.at() != Some('\\') {
                                    return Err(self.i);
                                }
                                self.i += 1;
                                if self.at() != Some('u') {
                                    return Err(self.i);
                                }
                                self.i += 1;
                                let b = self.hex4()?;
                                if !(0xDC00..=0xDFFF).contains(&b) {
                                    return Err(self.i - 1);
                                }
                                0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)
                            } else {
                                a
                            };
                            match char::from_u32(code) {
                                Some(c) => s.push(c),
                                None => return Err(self.i - 1),
                            }
                        }
                        _ => return Err(esc),
                    }
                }
                // Unescaped control characters are accepted: see known_findings.txt
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Printing

#[derive(Clone, Copy)]
pub struct Style {
    /// Random whitespace between tokens.
    pub ws: bool,
    /// Random comments between tokens.
    pub comments: bool,
    /// Random spelling of string characters.
    pub escapes: bool,
}

impl Style {
    pub const PLAIN: Style = Style { ws: false, comments: false, escapes: false };
    pub const FANCY: Style = Style { ws: true, comments: false, escapes: true };
    pub const COMMENTS: Style = Style { ws: true, comments: true, escapes: true };

    pub fn random(src: &mut Src, comments: bool) -> Style {
        Style { ws: src.chance(1, 2), comments: comments && src.chance(2, 3), escapes: src.chance(1, 2) }
    }
}

pub struct Printer<'s> {
    pub out: String,
    pub src: &'s mut Src,
    pub style: Style,
    /// How many comments were written.
    pub comments: usize,
}

pub fn print(src: &mut Src, node: &Node, style: Style) -> String {
    print_counting(src, node, style).0
}

pub fn print_counting(src: &mut Src, node: &Node, style: Style) -> (String, usize) {
    let mut p = Printer { out: String::new(), src, style, comments: 0 };
    p.gap();
    p.value(node);
    p.gap();
    (p.out, p.comments)
}

impl Printer<'_> {
    pub fn gap(&mut self) {
        if self.style.ws || self.style.comments {
            let n = self.src.weighted(&[5, 3, 1, 1]);
            for _ in 0..n {
                if self.style.comments && self.src.chance(1, 2) {
                    self.comments += 1;
                    let c = comment(self.src);
                    self.out.push_str(&c);
                } else {
                    self.out.push(self.src.choose(&[' ', '\n', '\t', '\r']));
                }
            }
        }
    }

    pub fn value(&mut self, node: &Node) {
        match node {
            Node::Null => self.out.push_str("null"),
            Node::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            Node::Num(s) => self.out.push_str(s),
            Node::Str(s) => self.string(s),
            Node::Arr(items) => {
                self.out.push('[');
                self.gap();
                for (i, item) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.gap();
                    }
                    self.value(item);
                    self.gap();
                }
                self.out.push(']');
            }
            Node::Obj(items) => {
                self.out.push('{');
                self.gap();
                for (i, (k, item)) in items.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.gap();
                    }
                    self.string(k);
                    self.gap();
                    self.out.push(':');
                    self.gap();
                    self.value(item);
                    self.gap();
                }
                self.out.push('}');
            }
        }
    }

    pub fn string(&mut self, s: &str) {
        let s2 = spell_string(self.src, s, self.style.escapes);
        self.out.push_str(&s2);
    }
}

pub fn spell_string(src: &mut Src, s: &str, escapes: bool) -> String {
    let mut out = String::from("\"");
    // Long strings get their choices made once, so that cases stay small
    let per_char = escapes && s.len() <= 200;
    for c in s.chars() {
        let how = if per_char { src.weighted(&[6, 1, 1]) } else { 0 };
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if how == 0 && !must {
            out.push(c);
        } else if how != 2 && short.is_some() {
            out.push('\\');
            out.push(short.unwrap());
        } else {
            let upper = per_char && src.chance(1, 3);
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                if upper {
                    out.push_str(&format!("\\u{:04X}", u));
                } else {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
    }
    out.push('"');
    out
}

pub fn comment(src: &mut Src) -> String {
    if src.chance(1, 2) {
        let body = src.pick(&["", " c", "/", "*/", "\"", "{[", " ]},:1 ", "é", "/*", "\r", "\\"]);
        format!("//{}\n", body)
    } else {
        let body = src.pick(&[
            "", "c", "*", "**", " // ", "\n", "\"", "/", "* /", "**x*", "é*é", "/*", " ]},: ", "\n\n*",
            "****", "\t",
        ]);
        format!("/*{}*/", body)
    }
}

// ------------------------------------------------------------------------------------------------
// Generators

pub const EDGE_CHARS: &[char] = &[
    'a', '"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1}', '\u{b}', '\u{1b}',
    '\u{1f}', ' ', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fff}', '\u{1000}', '\u{d7ff}',
    '\u{e000}', '\u{feff}', '\u{2028}', '\u{2029}', '\u{fffd}', '\u{ffff}', '\u{10000}',
    '\u{1f600}', '\u{fffff}', '\u{10ffff}', '\u{10fc00}', '\u{103ff}', 'é', '漢', '\u{300}', '{',
    '}', '[', ']', ':', ',', 'u', '0', 'n', '\u{85}', '\u{a0}',
];

pub fn gen_char(src: &mut Src) -> char {
    match src.weighted(&[6, 4, 1]) {
        0 => (b'a' + src.below(26) as u8) as char,
        1 => src.choose(EDGE_CHARS),
        _ => {
            let range = src.choose(&[(0u32, 0x80u32), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)]);
            let v = range.0 + src.below(u64::from(range.1 - range.0)) as u32;
            char::from_u32(v).unwrap_or('\u{fffd}')
        }
    }
}

/// A length: mostly small, sometimes around sizes where representations change.
pub fn gen_len(src: &mut Src, big: bool) -> usize {
    let w: &[u64] = if big { &[600, 80, 24, 8, 3, 1] } else { &[600, 80, 20, 2] };
    match src.weighted(w) {
        0 => src.idx(9),
        1 => src.range(9, 40),
        2 => src.choose(&[63usize, 64, 65, 100, 126, 127, 128, 129]) ,
        3 => src.choose(&[250usize, 254, 255, 256, 257, 260]),
        4 => src.choose(&[511usize, 512, 513, 1023, 1024, 1025, 2000, 4096, 5000]),
        _ => src.choose(&[16383usize, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000]),
    }
}

pub fn gen_string(src: &mut Src, big: bool) -> String {
    let len = gen_len(src, big);
    if len > 40 {
        // Repeat a short pattern, with a few edits
        let pat: Vec<char> = (0..src.range(1, 3)).map(|_| gen_char(src)).collect();
        let mut v: Vec<char> = (0..len).map(|i| pat[i % pat.len()]).collect();
        for _ in 0..src.idx(3) {
            let at = src.idx(len);
            v[at] = gen_char(src);
        }
        v.into_iter().collect()
    } else {
        (0..len).map(|_| gen_char(src)).collect()
    }
}

const KEYS: &[&str] = &[
    "a", "b", "c", "ab", "abc", "abd", "", "A", "key", "type", "value", "has_value", "é", "日本",
    "a\"b", "a\\b", "\n", "null", "x", "y", "z", "name", "a/b", "\u{1f600}", "aa", "aaa",
];

/// A key: drawn from a small pool so that keys share prefixes and collide between objects, or
/// arbitrary.
pub fn gen_key(src: &mut Src) -> String {
    match src.weighted(&[10, 3, 2]) {
        0 => src.pick(KEYS).to_string(),
        1 => format!("k{}", src.below(400)),
        _ => gen_string(src, true),
    }
}

/// The digits of some non-negative integer.
pub fn gen_digits(src: &mut Src) -> String {
    match src.weighted(&[8, 3, 3, 1]) {
        0 => src.below(20).to_string(),
        1 => {
            let b = src.choose(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64]);
            let base = 1u128 << b;
            (base - 2 + u128::from(src.below(5))).to_string()
        }
        2 => {
            let n = src.range(1, 25);
            let mut s = String::new();
            s.push((b'1' + src.below(9) as u8) as char);
            for _ in 1..n {
                s.push((b'0' + src.below(10) as u8) as char);
            }
            s
        }
        _ => {
            let n = src.choose(&[20usize, 31, 32, 33, 39, 40, 64, 65, 200, 400, 800]);
            let d = (b'1' + src.below(9) as u8) as char;
            let mut s: String = std::iter::repeat(d).take(n).collect();
            if src.chance(1, 2) {
                s.push((b'0' + src.below(10) as u8) as char);
            }
            s
        }
    }
}

/// A JSON number literal.
pub fn gen_number(src: &mut Src) -> String {
    let mut s = String::new();
    if src.chance(1, 4) {
        s.push('-');
    }
    if src.chance(1, 5) {
        s.push('0');
    } else {
        s.push_str(&gen_digits(src));
    }
    if src.chance(1, 4) {
        s.push('.');
        for _ in 0..src.idx(4) {
            s.push('0');
        }
        s.push_str(&gen_digits(src));
    }
    if src.chance(1, 4) {
        s.push(src.choose(&['e', 'E']));
        s.push_str(src.pick(&["", "+", "-"]));
        if src.chance(1, 5) {
            s.push_str(src.pick(&["0", "00"]));
        }
        let e = match src.weighted(&[16, 8, 4, 1]) {
            0 => src.below(12),
            1 => src.below(400),
            2 => src.choose(&[127u64, 128, 255, 256, 308, 309, 324, 325, 32767, 32768, 32769, 65535, 65536, 99999]),
            _ => {
                // Around the ends of integer types, and beyond all of them
                let e: u64 = src.choose(&[1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX - 9, 10_000_000_000, 4_294_967_290]);
                let e = e.saturating_add(src.below(12)).saturating_sub(src.below(12));
                if src.chance(1, 4) {
                    s.push_str(&e.to_string());
                }
                e
            }
        };
        s.push_str(&e.to_string());
    }
    s
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub depth: usize,
    pub distinct_keys: bool,
    /// Allow rare big strings and collections.
    pub big: bool,
}

pub fn gen_scalar(src: &mut Src, o: GenOpts) -> Node {
    match src.weighted(&[2, 2, 4, 4]) {
        0 => Node::Null,
        1 => Node::Bool(src.chance(1, 2)),
        2 => Node::Num(gen_number(src)),
        _ => Node::Str(gen_string(src, o.big)),
    }
}

pub fn gen_node(src: &mut Src, o: GenOpts) -> Node {
    if o.depth == 0 || src.chance(1, 3) {
        return gen_scalar(src, o);
    }
    let sub = GenOpts { depth: o.depth - 1, ..o };
    if src.chance(1, 2) {
        let n = if o.big && src.chance(1, 300) { src.choose(&[255usize, 256, 257, 300]) } else { src.idx(6) };
        if n > 10 {
            Node::Arr((0..n).map(|i| Node::Num(i.to_string())).collect())
        } else {
            Node::Arr((0..n).map(|_| gen_node(src, sub)).collect())
        }
    } else {
        gen_object(src, o)
    }
}

pub fn gen_object(src: &mut Src, o: GenOpts) -> Node {
    let sub = GenOpts { depth: o.depth.saturating_sub(1), ..o };
    let n = if o.big && src.chance(1, 300) { src.choose(&[17usize, 33, 127, 129, 255, 256, 257, 300]) } else { src.idx(7) };
    let mut items: Vec<(String, Node)> = Vec::new();
    for i in 0..n {
        let key = if n > 10 { format!("k{i}") } else { gen_key(src) };
        if o.distinct_keys && items.iter().any(|(k, _)| *k == key) {
            continue;
        }
        let v = if n > 10 { Node::Num(i.to_string()) } else { gen_node(src, sub) };
        items.push((key, v));
    }
    Node::Obj(items)
}

/// Wraps a node in many layers of arrays and objects.
pub fn gen_deep(src: &mut Src, inner: Node, levels: usize) -> Node {
    let mut n = inner;
    let kinds: Vec<bool> = (0..8).map(|_| src.chance(1, 2)).collect();
    for i in 0..levels {
        n = if kinds[i % 8] {
            Node::Obj(vec![("k".into(), n)])
        } else {
            Node::Arr(vec![n])
        };
    }
    n
}

// ------------------------------------------------------------------------------------------------
// Numbers

/// The exact value of a number literal: `(negative, digits without leading and trailing zeros,
/// power of ten)`.
pub struct Decimal {
    pub neg: bool,
    /// Significant digits; empty for zero.
    pub digits: String,
    pub exp: i64,
    /// All digits as written, without leading zeros.
    pub raw_digits: String,
    /// The power of ten which applies to `raw_digits`.
    pub raw_exp: i64,
    pub plain: bool,
}

pub fn decimal(lit: &str) -> Decimal {
    let (neg, rest) = match lit.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, lit),
    };
    let (mant, exp) = match rest.find(['e', 'E']) {
        Some(i) => {
            let e = &rest[i + 1..];
            let e = e.strip_prefix('+').unwrap_or(e);
            (&rest[..i], e.parse::<i64>().unwrap_or(if e.starts_with('-') { i64::MIN / 4 } else { i64::MAX / 4 }).clamp(i64::MIN / 4, i64::MAX / 4))
        }
        None => (rest, 0),
    };
    let (int, frac) = match mant.find('.') {
        Some(i) => (&mant[..i], &mant[i + 1..]),
        None => (mant, ""),
    };
    let raw_exp = exp - frac.len() as i64;
    let all = format!("{int}{frac}");
    let raw = all.trim_start_matches('0');
    let digits = raw.trim_end_matches('0');
    let exp = raw_exp + (raw.len() - digits.len()) as i64;
    Decimal {
        neg,
        digits: digits.to_string(),
        exp,
        raw_digits: raw.to_string(),
        raw_exp,
        plain: !rest.contains(['.', 'e', 'E']),
    }
}

/// An exact integer with sign.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BigI {
    pub neg: bool,
    pub mag: u128,
}

impl BigI {
    pub fn from_i(v: i128) -> BigI {
        BigI { neg: v < 0, mag: v.unsigned_abs() }
    }
    pub fn from_u(v: u128) -> BigI {
        BigI { neg: false, mag: v }
    }
}

fn pow10(e: i64) -> Option<u128> {
    if !(0..=38).contains(&e) {
        return None;
    }
    Some(10u128.pow(e as u32))
}

/// An integer type, for the oracle.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct IntTy {
    pub bits: u32,
    pub signed: bool,
}

impl IntTy {
    pub fn max_mag(self, neg: bool) -> u128 {
        if self.signed {
            let half = 1u128 << (self.bits - 1);
            if neg { half } else { half - 1 }
        } else if neg {
            0
        } else {
            self.unsigned_max()
        }
    }
    pub fn unsigned_max(self) -> u128 {
        if self.bits == 128 { u128::MAX } else { (1u128 << self.bits) - 1 }
    }
}

/// The value which a literal must have when read as an integer type, if it is representable, and
/// whether it must be accepted.
pub fn int_oracle(lit: &str, ty: IntTy) -> (Option<BigI>, bool) {
    let d = decimal(lit);
    if d.digits.is_empty() {
        return (Some(BigI { neg: false, mag: 0 }), true);
    }
    if d.exp < 0 || d.exp > 40 || d.digits.len() > 40 {
        return (None, false);
    }
    let Some(value) = d
        .digits
        .parse::<u128>()
        .ok()
        .and_then(|m| pow10(d.exp).and_then(|p| m.checked_mul(p)))
    else {
        return (None, false);
    };
    if value > ty.max_mag(d.neg) {
        return (None, false);
    }
    let must = d.plain
        || (d.raw_digits.parse::<u128>().map_or(false, |m| m <= ty.unsigned_max())
            && pow10(d.raw_exp.abs()).map_or(false, |p| p <= ty.unsigned_max()));
    (Some(BigI { neg: d.neg, mag: value }), must)
}

extern "C" {
    fn strtod(s: *const std::ffi::c_char, end: *mut *mut std::ffi::c_char) -> f64;
    fn strtof(s: *const std::ffi::c_char, end: *mut *mut std::ffi::c_char) -> f32;
}

/// The nearest `f64` to a literal, from the C library (which rounds correctly).
pub fn float64_oracle(lit: &str) -> f64 {
    let c = std::ffi::CString::new(lit).unwrap();
    // SAFETY: `c` is a NUL-terminated string.
    unsafe { strtod(c.as_ptr(), std::ptr::null_mut()) }
}

pub fn float32_oracle(lit: &str) -> f32 {
    let c = std::ffi::CString::new(lit).unwrap();
    // SAFETY: `c` is a NUL-terminated string.
    unsafe { strtof(c.as_ptr(), std::ptr::null_mut()) }
}
