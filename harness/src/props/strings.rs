//! C08: strings and their escapes.

use super::types::gen_place;
use super::*;
use crate::dynamic::checked;
use crate::engine::{guard, CheckResult, Extra};
use crate::io::Text;
use crate::machine::intern;
use crate::model;
use crate::text;
use serdere::{Deserializer, NameMap, Outliner};
use serdere_json::{JsonDeserializer, JsonOutliner};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        rule: "a string literal with raw characters and escapes, sometimes malformed, read as a value or as a key by some sequence of calls, streamed or from a buffer. Non-trivial: the literal has an escape, or a character outside ASCII, or is longer than 40 characters",
        check: c08,
        quick: 2_400_000,
        thorough: 50_000_000,
        extra: Some(extra),
    }]
}

/// What the characters between the quotes mean: the characters before the first mistake, and
/// whether there is none.
fn decode(body: &[char]) -> (Vec<char>, bool) {
    let mut out = Vec::new();
    let mut i = 0;
    let unit = |i: usize| -> Option<u32> {
        if body.get(i) != Some(&'\\') || body.get(i + 1) != Some(&'u') {
            return None;
        }
        let mut v = 0;
        for k in 2..6 {
            let c = body.get(i + k)?;
            if !c.is_ascii() {
                return None;
            }
            v = v * 16 + c.to_digit(16)?;
        }
        Some(v)
    };
    while i < body.len() {
        if body[i] != '\\' {
            if body[i] == '"' {
                return (out, false);
            }
            out.push(body[i]);
            i += 1;
            continue;
        }
        let short = match body.get(i + 1) {
            Some('"') => '"',
            Some('\\') => '\\',
            Some('/') => '/',
            Some('b') => '\u{8}',
            Some('f') => '\u{c}',
            Some('n') => '\n',
            Some('r') => '\r',
            Some('t') => '\t',
            Some('u') => {
                let Some(v) = unit(i) else { return (out, false) };
                if (0xD800..0xDC00).contains(&v) {
                    match unit(i + 6) {
                        Some(w @ 0xDC00..=0xDFFF) => {
                            out.push(char::from_u32(0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)).unwrap());
                            i += 12;
                            continue;
                        }
                        _ => return (out, false),
                    }
                }
                let Some(c) = char::from_u32(v) else { return (out, false) };
                out.push(c);
                i += 6;
                continue;
            }
            _ => return (out, false),
        };
        out.push(short);
        i += 2;
    }
    (out, true)
}

fn hex(src: &mut Src, v: u32) -> String {
    let s = format!("{v:04x}");
    match src.idx(3) {
        0 => s,
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if src.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// The characters between the quotes of some literal.
fn gen_body(src: &mut Src, bad: bool) -> String {
    if src.chance(1, 3) && !bad {
        let s = dom::gen_string(src, true);
        let l = dom::spell_string(src, &s, true);
        return l[1..l.len() - 1].to_string();
    }
    let mut out = String::new();
    let n = if src.chance(1, 30) { src.range(20, 70) } else { src.idx(8) };
    let wrong_at = if bad { src.idx(n + 1) } else { usize::MAX };
    for i in 0..=n {
        if i == wrong_at {
            let piece = match src.idx(9) {
                0 => format!("\\u{}", hex(src, 0xD800 + (i as u32 * 37) % 0x400)),
                1 => format!("\\u{}", hex(src, 0xDC00 + (i as u32 * 41) % 0x400)),
                2 => {
                    let mut h = hex(src, 0x12AB);
                    let at = src.idx(4);
                    let c = src.pick(&["g", "G", " ", "-", "+", "x", ":", "@", "`", "/", "é", "\u{661}", "\u{ff11}", "\\"]);
                    h.replace_range(at..at + 1, c);
                    format!("\\u{h}")
                }
                3 => {
                    let n = src.idx(4);
                    format!("\\u{}", &"12aB"[..n])
                }
                4 => {
                    let c = src.pick(&["a", "c", "e", "v", "x", "0", "'", "U", "N", " ", "B", "F", "R", "T", "é", "\u{2f}\u{5c}", "1"]);
                    format!("\\{c}")
                }
                5 => {
                    // A pair in which something else than the low half follows the high one
                    let hi = 0xD800 + src.below(0x400) as u32;
                    let lo = src.choose(&[0xD800u32, 0xDBFF, 0xE000, 0x41, 0, 0xFFFF, 0xD7FF]);
                    format!("\\u{}\\u{}", hex(src, hi), hex(src, lo))
                }
                6 => {
                    let hi = 0xD800 + src.below(0x400) as u32;
                    format!("\\u{}{}", hex(src, hi), src.pick(&["x", "\\n", "\\", "\\uDC0", "\\uDC0g", "\\xDC00", "uDC00", "\\\\uDC00", "\u{10000}"]))
                }
                7 => "\\".to_string(),
                _ => {
                    // The halves the wrong way round
                    let (hi, lo) = (0xD800 + src.below(0x400) as u32, 0xDC00 + src.below(0x400) as u32);
                    format!("\\u{}\\u{}", hex(src, lo), hex(src, hi))
                }
            };
            out.push_str(&piece);
            continue;
        }
        if i == n {
            break;
        }
        match src.weighted(&[5, 4, 4, 3]) {
            0 => {
                let c = dom::gen_char(src);
                if c != '"' && c != '\\' && c >= ' ' {
                    out.push(c);
                }
            }
            1 => out.push_str(src.pick(&["\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"])),
            2 => {
                let v = match src.idx(3) {
                    0 => src.below(0x100) as u32,
                    1 => src.choose(&[0u32, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0x22, 0x5C, 0x2F, 0xABCD, 0xFEDC, 0xFEFF]),
                    _ => src.below(0xD800) as u32,
                };
                out.push_str(&format!("\\u{}", hex(src, v)));
            }
            _ => {
                let (hi, lo) = match src.idx(2) {
                    0 => (src.choose(&[0xD800u32, 0xDBFF, 0xD83D]), src.choose(&[0xDC00u32, 0xDFFF, 0xDE00])),
                    _ => (0xD800 + src.below(0x400) as u32, 0xDC00 + src.below(0x400) as u32),
                };
                out.push_str(&format!("\\u{}\\u{}", hex(src, hi), hex(src, lo)));
            }
        }
    }
    // The quotes in it must not end the string, and the one after it must
    let mut escaped = false;
    let mut ends = false;
    for c in out.chars() {
        ends |= c == '"' && !escaped;
        escaped = c == '\\' && !escaped;
    }
    if ends {
        return "\\x".into();
    }
    if escaped {
        out.push('q');
    }
    out
}

/// How a string is read.
#[derive(Debug, Clone, Copy, PartialEq)]
enum How {
    Whole,
    /// As a single character.
    Char,
    /// The given number of characters, and then the rest.
    Flush(usize),
    Skip(usize),
    Close(usize),
    /// By name, after the given number of characters.
    Name(usize),
    All,
}

fn gen_how(src: &mut Src, len: usize, name: bool) -> How {
    let k = match src.idx(3) {
        0 => src.idx(3).min(len + 1),
        1 => len,
        _ => src.idx(len + 1),
    };
    match src.weighted(&[3, 2, 4, 4, 2, if name { 2 } else { 0 }, 3]) {
        0 => How::Whole,
        1 => How::Char,
        2 => How::Flush(k),
        3 => How::Skip(k),
        4 => How::Close(k),
        5 => How::Name(k),
        _ => How::All,
    }
}

/// What came from reading a string.
#[derive(Debug, Default)]
struct Seen {
    /// Characters which were delivered one by one.
    chars: Vec<char>,
    /// The rest, if it was delivered.
    rest: Option<String>,
    name: Option<usize>,
    /// Was the end of the string reported by `next_char`?
    ended: bool,
}

/// Reads an opened string.
fn read_opened<'a>(
    d: &mut De<'a>,
    how: How,
    names: Option<&'static NameMap<usize>>,
    seen: &mut Seen,
) -> Result<(), DErr<'a>> {
    let k = match how {
        How::Flush(k) | How::Skip(k) | How::Close(k) | How::Name(k) => k,
        How::Whole => 0,
        How::Char | How::All => usize::MAX,
    };
    for _ in 0..k {
        match d.next_char()? {
            Some(c) => seen.chars.push(c),
            None => {
                seen.ended = true;
                return Ok(());
            }
        }
        if seen.chars.len() > 200_000 {
            crate::engine::protocol_broken("a string does not end");
        }
    }
    match how {
        How::Whole | How::Flush(_) => seen.rest = Some(checked(d.flush_str()?.into_owned())),
        How::Skip(_) => d.skip_str()?,
        How::Close(_) => d.close_str()?,
        How::Name(_) => seen.name = Some(d.flush_name(names.unwrap())?),
        How::Char | How::All => unreachable!(),
    }
    Ok(())
}

fn read_value<'a>(
    value: Value<'_, De<'a>>,
    how: How,
    names: Option<&'static NameMap<usize>>,
    seen: &mut Seen,
) -> Result<(), DErr<'a>> {
    match how {
        How::Whole => {
            seen.rest = Some(checked(value.get_str()?.into_owned()));
            Ok(())
        }
        How::Char => {
            seen.chars.push(value.get_char()?);
            seen.ended = true;
            Ok(())
        }
        How::Name(0) => {
            let (d, done) = value.into_raw();
            seen.name = Some(d.get_name(names.unwrap())?);
            *done = true;
            Ok(())
        }
        _ => {
            let (d, done) = value.into_raw();
            d.open_str()?;
            read_opened(d, how, names, seen)?;
            *done = true;
            Ok(())
        }
    }
}

/// Is what was seen right for a string? `ok` is whether reading it succeeded.
fn judge(
    how: How,
    seen: &Seen,
    ok: bool,
    (chars, valid): (&[char], bool),
    table: &[&'static str],
) -> CheckResult {
    if how == How::Char {
        return match (&seen.chars[..], chars, valid) {
            ([c], [d], true) if c == d && ok => Ok(()),
            ([], _, false) if !ok => Ok(()),
            ([], [] | [_, _, ..], true) if !ok => Ok(()),
            (c, ..) => Err(format!("{chars:?} (well-formed: {valid}) is read as the characters {c:?}, success: {ok}")),
        };
    }
    if !chars.starts_with(&seen.chars) {
        return Err(format!("{chars:?} is read as {:?}...", seen.chars));
    }
    let left = &chars[seen.chars.len()..];
    if !valid {
        return if ok { Err(format!("a malformed string is read by {how:?}: {seen:?}")) } else { Ok(()) };
    }
    let due = if seen.ended {
        if !left.is_empty() {
            return Err(format!("the end is reported after {:?}, before {left:?}", seen.chars));
        }
        true
    } else {
        match how {
            How::Close(k) if k <= chars.len() => left.is_empty(),
            How::Name(_) => {
                let left: String = left.iter().collect();
                table.iter().any(|n| *n == left)
            }
            _ => true,
        }
    };
    if due != ok {
        return Err(format!("reading {chars:?} by {how:?} should {} succeed: {seen:?}", if due { "" } else { "not" }));
    }
    if let Some(rest) = &seen.rest {
        if rest.chars().ne(left.iter().copied()) {
            return Err(format!("after {:?} comes {rest:?}, not {left:?}", seen.chars));
        }
    }
    if let Some(i) = seen.name {
        let left: String = left.iter().collect();
        if table.get(i).map_or(true, |n| *n != left) {
            return Err(format!("the name {left:?} is read as number {i} of {table:?}"));
        }
    }
    Ok(())
}

fn gen_table(src: &mut Src, chars: &[char]) -> (Vec<&'static str>, &'static NameMap<usize>) {
    let mut table: Vec<&'static str> = Vec::new();
    if chars.len() < 100 {
        for _ in 0..src.range(1, 4) {
            let from = src.idx(chars.len().min(3) + 1);
            let mut s: String = chars[from..].iter().collect();
            if src.chance(1, 2) {
                match src.idx(3) {
                    0 => {
                        s.pop();
                    }
                    1 => s.push('a'),
                    _ => s.insert(0, 'a'),
                }
            }
            if !table.contains(&&s[..]) {
                table.push(intern(&s));
            }
        }
    }
    table.push("a name which no string in these checks is");
    let entries: Vec<(&'static str, usize)> = table.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let map = model::kept_name_map(&entries);
    (table, map)
}

fn c08(src: &mut Src) -> CheckResult {
    let bad = src.chance(1, 4);
    if src.chance(2, 5) {
        return keys(src, bad);
    }
    let body = gen_body(src, bad);
    let source = gen_source(src);
    let place = gen_place(src);
    let chars: Vec<char> = body.chars().collect();
    let (expect, valid) = decode(&chars);
    class(src, &body, valid);
    src.class(if place.buffered() { "a buffered value" } else { "a streamed value" });
    let with_name = src.chance(1, 8);
    let how = gen_how(src, expect.len(), with_name);
    let (table, map) = match how {
        How::Name(_) => {
            let (t, m) = gen_table(src, &expect);
            (t, Some(m))
        }
        _ => (Vec::new(), None),
    };
    let text = Text::new(place.wrap_text(&format!("\"{body}\"")));
    src.ident(text.str.as_bytes());
    src.ident(format!("{how:?}").as_bytes());
    src.note(|| format!("{how:?} {table:?} {source:?} {place:?} text={}", text.str));
    let own = dom::parse(&text.chars, false);
    match (&own, valid) {
        (Ok(doc), true) => match &place.find(doc).v {
            SVal::Str(s) if s.chars().eq(expect.iter().copied()) => (),
            other => panic!("two references disagree: {other:?} and {expect:?}"),
        },
        (Err(_), false) => (),
        // The quote which ends the string may be part of a malformed escape, so that the text
        // goes on as some other document would
        (Ok(_), false) => return Ok(()),
        (Err(e), true) => panic!("the reference parser rejects a well-formed string at {e}: {}", text.str),
    }
    let mut seen = Seen::default();
    // Has reading the string itself succeeded? The whole document must be read then.
    let mut ok = false;
    let r = guard(|| {
        text::read(&text, source, false, |v| {
            place.read(v, |v| {
                read_value(v, how, map, &mut seen)?;
                ok = true;
                Ok(())
            })
        })
    })
    .map_err(|c| c.describe())?;
    if let (Err(e), true) = (&r, ok) {
        return Err(format!("the string is read by {how:?}, but then the document is not: {}", text::show_err(&text, e)));
    }
    judge(how, &seen, ok, (&expect, valid), &table)
}

fn class(src: &mut Src, body: &str, valid: bool) {
    if !valid {
        src.class("malformed");
    }
    if body.contains("\\u") {
        src.class("with unicode escapes");
    }
    if body.contains('\\') || !body.is_ascii() || body.len() > 40 {
        src.nontrivial();
    }
}

/// Reads the keys of an object.
fn keys(src: &mut Src, bad: bool) -> CheckResult {
    let n = src.range(1, 4);
    let wrong = if bad { src.idx(n) } else { usize::MAX };
    let mut bodies: Vec<String> = Vec::new();
    let mut expect: Vec<Vec<char>> = Vec::new();
    let mut valid = true;
    for i in 0..n {
        let body = gen_body(src, i == wrong);
        let chars: Vec<char> = body.chars().collect();
        let (e, v) = decode(&chars);
        if v && expect.contains(&e) {
            continue;
        }
        class(src, &body, v);
        valid &= v;
        bodies.push(body);
        expect.push(e);
        if !v {
            break;
        }
    }
    let source = gen_source(src);
    let place = gen_place(src);
    let mut doc = String::from("{");
    for (i, b) in bodies.iter().enumerate() {
        if i > 0 {
            doc.push(',');
        }
        doc.push_str(&format!("\"{b}\":{i}"));
    }
    doc.push('}');
    let text = Text::new(place.wrap_text(&doc));
    src.ident(text.str.as_bytes());
    let shown: Vec<String> = expect.iter().map(|e| e.iter().collect()).collect();
    if dom::parse(&text.chars, false).is_ok() != valid {
        return Ok(());
    }
    if src.chance(1, 2) {
        by_name(src, source, place, &text, &shown, valid)
    } else {
        in_order(src, source, place, &text, &shown, &expect, valid)
    }
}

/// Asks for entries by key.
fn by_name(
    src: &mut Src,
    source: Source,
    place: super::types::Place,
    text: &Text,
    keys: &[String],
    valid: bool,
) -> CheckResult {
    src.class("keys compared with requested ones");
    // What to ask for: the keys in some order, and things close to them
    let mut ask: Vec<String> = Vec::new();
    for i in src.permutation(keys.len()) {
        for _ in 0..src.weighted(&[3, 2, 1]) {
            let mut k: Vec<char> = keys[i].chars().collect();
            match src.idx(5) {
                0 => {
                    k.pop();
                }
                1 => k.push('a'),
                2 if !k.is_empty() => {
                    let at = src.idx(k.len());
                    k[at] = if k[at] == 'q' { 'r' } else { 'q' };
                }
                3 => k.extend(['\\', 'n']),
                _ => k.insert(0, '"'),
            }
            let k: String = k.into_iter().collect();
            if !keys.contains(&k) {
                ask.push(k);
            }
        }
        if src.chance(4, 5) {
            ask.push(keys[i].clone());
        }
        if src.chance(1, 6) {
            // Once more, when it is gone
            ask.push(keys[i].clone());
        }
    }
    src.note(|| format!("asked for {ask:?} {source:?} {place:?} text={}", text.str));
    let mut wrong = None;
    let mut taken = vec![false; keys.len()];
    let r = guard(|| {
        text::read(text, source, false, |v| {
            place.read(v, |v| {
                let mut o = v.into_object()?;
                for k in &ask {
                    let i = keys.iter().position(|x| x == k);
                    let due = i.filter(|i| !taken[*i]);
                    let got = match o.try_entry(k)? {
                        Some(v) => Some(v.get_u8()? as usize),
                        None => None,
                    };
                    if valid && got != due && wrong.is_none() {
                        wrong = Some(format!("asking for {k:?} gives {got:?}, not {due:?}"));
                    }
                    if let Some(g) = got {
                        if let Some(t) = taken.get_mut(g) {
                            *t = true;
                        }
                    }
                }
                // The rest
                while let Some(mut e) = o.next_entry()? {
                    let k = checked(e.key()?.into_owned());
                    let v = e.value()?.get_u8()? as usize;
                    if keys.get(v) != Some(&k) && wrong.is_none() {
                        wrong = Some(format!("the key of {v} is read as {k:?}"));
                    }
                }
                Ok(())
            })
        })
    })
    .map_err(|c| c.describe())?;
    if let Some(w) = wrong {
        return Err(w);
    }
    match (r, valid) {
        (Ok(()), true) | (Err(_), false) => Ok(()),
        (Ok(()), false) => Err("an object with a malformed key is read".into()),
        (Err(e), true) => Err(format!("not read: {}", text::show_err(text, &e))),
    }
}

/// Takes the entries in order, reading their keys in different ways.
fn in_order(
    src: &mut Src,
    source: Source,
    place: super::types::Place,
    text: &Text,
    shown: &[String],
    keys: &[Vec<char>],
    valid: bool,
) -> CheckResult {
    src.class("keys read in order");
    let named = src.chance(1, 8);
    let hows: Vec<How> = keys
        .iter()
        .map(|k| match gen_how(src, k.len(), named) {
            How::Char => How::Whole,
            h => h,
        })
        .collect();
    let tables: Vec<_> = hows
        .iter()
        .zip(keys)
        .map(|(h, k)| match h {
            How::Name(_) => {
                let (t, m) = gen_table(src, k);
                (t, Some(m))
            }
            _ => (Vec::new(), None),
        })
        .collect();
    let buffer = src.chance(1, 3);
    src.note(|| format!("{hows:?} buffered={buffer} {source:?} {place:?} {tables:?} text={}", text.str));
    let mut log: Vec<(Seen, bool, Option<usize>)> = Vec::new();
    let r = guard(|| {
        text::read(text, source, false, |v| {
            place.read(v, |v| {
                let (d, done) = v.into_raw();
                d.open_object()?;
                if buffer && d.try_push_entry(ABSENT)? {
                    crate::engine::protocol_broken("an entry with an absent key was found");
                }
                let mut i = 0;
                while d.next_entry()? {
                    log.push((Seen::default(), false, None));
                    let entry = log.last_mut().unwrap();
                    let how = hows.get(i).copied().unwrap_or(How::All);
                    let map = tables.get(i).and_then(|t| t.1);
                    read_opened(d, how, map, &mut entry.0)?;
                    entry.1 = true;
                    entry.2 = Some(d.get_u8()? as usize);
                    i += 1;
                }
                *done = true;
                Ok(())
            })
        })
    })
    .map_err(|c| c.describe())?;
    for (i, (seen, ok, value)) in log.iter().enumerate() {
        if i >= keys.len() {
            return Err(format!("more entries than {shown:?}"));
        }
        // When a later key is malformed, buffered keys are never reached
        let this_valid = valid || i + 1 < keys.len();
        judge(hows[i], seen, *ok, (&keys[i], this_valid), &tables[i].0).map_err(|e| format!("key {i}: {e}"))?;
        if *ok && *value != Some(i) && (valid || i + 1 < keys.len()) {
            return Err(format!("the value of entry {i} is {value:?}"));
        }
    }
    let due = valid
        && log.len() == keys.len()
        && log.iter().all(|l| l.1);
    match (&r, due) {
        (Ok(()), true) => Ok(()),
        (Ok(()), false) => Err(format!("the object is read, although it is malformed or an entry was left: {log:?}")),
        (Err(e), _) if log.iter().all(|l| l.1) && valid => Err(format!("not read: {}", text::show_err(text, e))),
        (Err(_), _) => Ok(()),
    }
}

/// Every escape of two characters, and every `\u` escape, as a value and as a key.
fn extra(e: &mut Extra) -> CheckResult {
    let mut n = 0;
    let mut check = |body: &str, source: Source| -> CheckResult {
        n += 1;
        let chars: Vec<char> = body.chars().collect();
        let (expect, valid) = decode(&chars);
        let expect: String = expect.into_iter().collect();
        let text = Text::new(format!("{{\"{body}\":\"{body}\"}}"));
        let got = guard(|| {
            text::read(&text, source, false, |v| {
                let mut o = v.into_object()?;
                let mut out = (String::new(), String::new());
                while let Some(mut e) = o.next_entry()? {
                    out.0 = checked(e.key()?.into_owned());
                    out.1 = checked(e.value()?.get_str()?.into_owned());
                }
                Ok(out)
            })
        })
        .map_err(|c| c.describe())?;
        match (got, valid) {
            (Ok((k, v)), true) if k == expect && v == expect => Ok(()),
            (Err(_), false) => Ok(()),
            (Ok(x), _) => Err(format!("\"{body}\" (well-formed: {valid}) is read as {x:?}")),
            (Err(x), _) => Err(format!("\"{body}\" is not read: {}", text::show_err(&text, &x))),
        }
    };
    for c in (0x20u8..0x7F).map(char::from).chain(['é', '\u{2028}', '\u{1f600}']) {
        if c != '"' {
            for source in [Source::Str, Source::Idx, Source::Utf8(1)] {
                check(&format!("a\\{c}0000b"), source)?;
            }
        }
    }
    check("\\\"", Source::Str)?;
    for v in 0..=0xFFFFu32 {
        check(&format!("\\u{v:04x}"), if v % 2 == 0 { Source::Str } else { Source::Idx })?;
        if v % 3 == 0 {
            check(&format!("x\\u{v:04X}y"), Source::Idx)?;
        }
    }
    // The halves of pairs
    let edges = [0xD7FFu32, 0xD800, 0xD801, 0xD8FF, 0xDAAA, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDD55, 0xDFFE, 0xDFFF, 0xE000, 0, 0x41];
    for hi in edges.iter().copied().chain((0xD800..0xDC00).step_by(7)) {
        for lo in edges.iter().copied().chain((0xDC00..0xE000).step_by(61)) {
            check(&format!("\\u{hi:04x}\\u{lo:04X}"), Source::Str)?;
        }
    }
    // Every character of ASCII in place of a digit
    for at in 0..4 {
        for c in (0x20u8..0x7F).map(char::from) {
            if c == '"' {
                continue;
            }
            let mut h = "0041".to_string();
            h.replace_range(at..at + 1, &c.to_string());
            check(&format!("\\u{h}"), Source::Str)?;
            check(&format!("\\ud83d\\u{h}"), Source::Idx)?;
        }
    }
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} fixed literals: every escape of one character, every \\u escape, pairs of surrogates, every ASCII character in place of each hex digit"));
    Ok(())
}
