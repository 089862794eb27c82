//! The properties, each as a check over generated cases.

use crate::dom::{self, Node, SNode, SVal};
use crate::engine::{Prop, Src};
use crate::io::Source;
use crate::text::{DErr, De};
use serdere::Value;
use serdere_json::{JsonDeserializer, ValueDeserializerExt, ValueExt, ValueType};

mod access;
pub mod definitions;
pub mod derive;
mod grammar;
mod independent;
mod interface;
mod memory;
mod names;
mod output;
mod protocol;
mod refused;
mod robust;
mod source;
mod strings;
mod types;
mod values;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(access::props());
    v.extend(derive::props());
    v.extend(grammar::props());
    v.extend(independent::props());
    v.extend(interface::props());
    v.extend(memory::props());
    v.extend(names::props());
    v.extend(output::props());
    v.extend(protocol::props());
    v.extend(refused::props());
    v.extend(robust::props());
    v.extend(source::props());
    v.extend(strings::props());
    v.extend(types::props());
    v.extend(values::props());
    v.sort_by_key(|p| p.id);
    v
}

/// A text source.
pub fn gen_source(src: &mut Src) -> Source {
    match src.weighted(&[3, 3, 2, 2]) {
        0 => Source::Str,
        1 => Source::Idx,
        2 => Source::Utf8(0),
        _ => Source::Utf8(1 + src.below(1000)),
    }
}

pub fn child(args: &[String]) -> i32 {
    match args.first().map(|s| &s[..]) {
        Some("deep") => robust::child_deep(&args[1..]),
        Some("wide") => robust::child_wide(&args[1..]),
        _ => 2,
    }
}

// ------------------------------------------------------------------------------------------------
// Reading any document

/// A document as it was read.
#[derive(Debug, Clone, PartialEq)]
pub enum Any {
    Null,
    Bool(bool),
    /// The bits of an `f64`.
    Num(u64),
    Str(String),
    Arr(Vec<Any>),
    Obj(Vec<(Option<String>, Any)>),
    Skipped,
}

/// How every value is read.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Stream,
    /// Objects are buffered, by asking for a key they do not have.
    Buffer,
    Skip,
    /// Any of these for every value.
    Mixed(u64),
}

pub const ABSENT: &str = "no object has this key \u{1f511}";

pub fn gen_mode(src: &mut Src) -> Mode {
    match src.weighted(&[2, 2, 1, 2]) {
        0 => Mode::Stream,
        1 => Mode::Buffer,
        2 => Mode::Skip,
        _ => Mode::Mixed(src.below(1 << 30)),
    }
}

pub fn read_any<D: JsonDeserializer + ?Sized>(value: Value<'_, D>, mode: Mode) -> Result<Any, D::Error> {
    let (now, sub) = match mode {
        Mode::Mixed(s) => {
            let r = crate::engine::mix(s);
            let now = match r % 7 {
                0 => Mode::Skip,
                1..=3 => Mode::Buffer,
                _ => Mode::Stream,
            };
            (now, Mode::Mixed(r >> 8))
        }
        m => (m, m),
    };
    if now == Mode::Skip {
        value.skip()?;
        return Ok(Any::Skipped);
    }
    let nth = |i: usize| match sub {
        Mode::Mixed(s) => Mode::Mixed(s.wrapping_add(i as u64)),
        m => m,
    };
    Ok(match value.ty() {
        ValueType::Null => {
            value.into_null()?;
            Any::Null
        }
        ValueType::Bool => Any::Bool(value.get_bool()?),
        ValueType::Number => Any::Num(value.get_f64()?.to_bits()),
        ValueType::String => {
            let s = value.get_str()?.into_owned();
            Any::Str(crate::dynamic::checked(s))
        }
        ValueType::Array => {
            let mut list = value.into_list()?;
            let mut out = Vec::new();
            while let Some(item) = list.next()? {
                out.push(read_any(item, nth(out.len()))?);
            }
            Any::Arr(out)
        }
        ValueType::Object => {
            let mut obj = value.into_object()?;
            if now == Mode::Buffer && obj.try_entry(ABSENT)?.is_some() {
                crate::engine::protocol_broken("an entry with an absent key was found");
            }
            let mut out = Vec::new();
            while let Some(mut e) = obj.next_entry()? {
                let m = nth(out.len());
                let key = match m {
                    Mode::Mixed(s) if s % 5 == 0 => None,
                    _ => Some(crate::dynamic::checked(e.key()?.into_owned())),
                };
                let v = read_any(e.value()?, m)?;
                out.push((key, v));
            }
            Any::Obj(out)
        }
    })
}

/// Is what was read what the document says?
pub fn any_matches(any: &Any, node: &SNode) -> bool {
    match (any, &node.v) {
        (Any::Skipped, _) => true,
        (Any::Null, SVal::Null) => true,
        (Any::Bool(a), SVal::Bool(b)) => a == b,
        (Any::Num(a), SVal::Num(s)) => *a == dom::float64_oracle(s).to_bits(),
        (Any::Str(a), SVal::Str(b)) => a == b,
        (Any::Arr(a), SVal::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| any_matches(a, b)),
        (Any::Obj(a), SVal::Obj(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(a, b)| a.0.as_ref().map_or(true, |k| *k == b.0) && any_matches(&a.1, &b.1))
        }
        _ => false,
    }
}

/// Does any object in the document have a key twice?
pub fn has_duplicates(node: &SNode) -> bool {
    match &node.v {
        SVal::Arr(a) => a.iter().any(has_duplicates),
        SVal::Obj(a) => {
            let mut keys: Vec<&str> = a.iter().map(|e| &e.0[..]).collect();
            keys.sort_unstable();
            keys.windows(2).any(|w| w[0] == w[1]) || a.iter().any(|e| has_duplicates(&e.1))
        }
        _ => false,
    }
}

// ------------------------------------------------------------------------------------------------
// Texts which may or may not be documents

const TOKENS: &[&str] = &[
    "{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "nul", "tru", "fals", "nulls", "-", "0", "1", "12",
    ".", "e", "E", "+", "\\", "\\u", "\\u12", "\\ud800", "\\ud83d\\ude00", "\\udc00", "\\u0000", "\\x", "\\'", "\\\"",
    "\u{feff}", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{85}", "\0", "NaN", "Infinity", "'", "'a'", "0x1", "01", "-01",
    "+1", ".5", "1.", "1.e1", "1e", "1e+", "-", "--1", "TRUE", "True", "nil", "\"a\"", "\"a\":1", "[1]", "{}", "[]", ",,",
    " ", "\n", "\t", "\r", "é", "\u{1f600}", "00", "-0", "1e5", "0.0", "\"\"", "a", "{\"k\":", "1 2", "\u{200b}", "\u{3000}", "undefined", "\\ud800\\u0041", "\\ud800x", "\\uD83D\\uDE0", "\\uD83D\\", "\\u 123", "\\u+123", "\\u-1", "\\u00g0", "\\/", "\\b", "\u{7f}", "#", "@", ";", "=", "(", ")", "<", "n", "t", "f", "1e5.5", "1.5.5", "1-", "1e--1", "/", "//", "/*", "*/",
];
const COMMENT_TOKENS: &[&str] =
    &["/", "//", "/*", "*/", "/**/", "//\n", "/* a */", "// b\n", "*", "/*/", "/***/", "/*/*/", "/ /", "/ *", "#", "--", "\n", "/* * /", "//*\n", "/*//*/"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum TextKind {
    Document,
    Edited,
    Soup,
}

fn token(src: &mut Src, comments: bool) -> &'static str {
    let pool = if comments && src.chance(1, 3) { COMMENT_TOKENS } else { TOKENS };
    pool[src.idx(pool.len())]
}

/// Makes small changes to a text.
pub fn edit(src: &mut Src, text: String, comments: bool) -> String {
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..src.weighted(&[6, 2, 1]) + 1 {
        let at = src.idx(v.len() + 1);
        match src.weighted(&[4, 4, 2, 2, 1, 1, 1]) {
            0 => {
                let t: Vec<char> = token(src, comments).chars().collect();
                v.splice(at..at, t);
            }
            1 => {
                let end = (at + src.weighted(&[5, 2, 1]) + 1).min(v.len());
                v.drain(at.min(end)..end);
            }
            2 => {
                let end = (at + 1).min(v.len());
                let t: Vec<char> = token(src, comments).chars().collect();
                v.splice(at..end, t);
            }
            3 => v.truncate(at),
            4 => {
                let end = (at + src.range(1, 6)).min(v.len());
                let part: Vec<char> = v[at.min(end)..end].to_vec();
                v.splice(at..at, part);
            }
            5 => {
                if at + 1 < v.len() {
                    v.swap(at, at + 1);
                }
            }
            _ => {
                let c = dom::gen_char(src);
                if at < v.len() {
                    v[at] = c;
                }
            }
        }
    }
    v.into_iter().collect()
}

/// A text which is a document, or close to one.
pub fn gen_text(src: &mut Src, comments: bool) -> (String, TextKind) {
    match src.weighted(&[3, 5, 2]) {
        k @ (0 | 1) => {
            let node = gen_any_node(src);
            let style = dom::Style::random(src, comments);
            let t = dom::print(src, &node, style);
            if k == 0 {
                (t, TextKind::Document)
            } else {
                (edit(src, t, comments), TextKind::Edited)
            }
        }
        _ => {
            let n = src.range(0, 9);
            let space = src.chance(1, 3);
            let mut t = String::new();
            for i in 0..n {
                if i > 0 && space {
                    t.push(' ');
                }
                t.push_str(token(src, comments));
            }
            (t, TextKind::Soup)
        }
    }
}

pub fn gen_any_node(src: &mut Src) -> Node {
    let distinct = src.chance(3, 4);
    let o = dom::GenOpts { depth: 3, distinct_keys: distinct, big: true };
    let node = dom::gen_node(src, o);
    if src.chance(1, 40) {
        let levels = src.choose(&[3usize, 8, 60, 130, 300]);
        dom::gen_deep(src, node, levels)
    } else {
        node
    }
}
