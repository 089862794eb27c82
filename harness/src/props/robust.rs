//! C11 and C13: any text, from any source.

use super::*;
use crate::catalog::{self, Target};
use crate::engine::{guard, CheckResult, Extra};
use crate::io::{AnyPos, AnyReader, Text};
use crate::model::{self, DocInfo, DocOpts};
use crate::script::{self, Script};
use crate::text::{self, ekind};
use serdere_json::{JsonDeserializer, JsonOutliner, TextDeserializer};
use serdere::{Deserializer, Outliner};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "a random text, often a document with edits, read as a random type, as a document of any shape, or through a random sequence of reader calls. Non-trivial: the reader took at least two values, or at least four calls succeeded",
            check: c11,
            quick: 1_600_000,
            thorough: 40_000_000,
            extra: Some(c11_extra),
        },
        Prop {
            id: "C13",
            rule: "a random text read in one way from a string slice, a character array and a byte stream delivered whole and in pieces. Non-trivial: at least four calls or two values before the end, or an error after the first character",
            check: c13,
            quick: 600_000,
            thorough: 15_000_000,
            extra: None,
        },
    ]
}

/// A way to read a text.
pub enum Way {
    As(Target),
    Any(Mode),
    Script(Vec<u64>),
}

/// A text, and a way to read it which the text may suit.
pub fn gen_way(src: &mut Src, comments: bool) -> (String, Way) {
    let (mut text, way) = gen_plain_way(src, comments);
    if src.chance(1, 8) {
        // Control characters, which may end up in strings
        for _ in 0..src.weighted(&[4, 2, 1]) + 1 {
            let mut at = src.idx(text.len() + 1);
            if src.chance(3, 4) {
                // Inside a string, if there is one
                if let Some(i) = text[text.floor_char_boundary(at)..].find('"') {
                    at = text.floor_char_boundary(at) + i + 1;
                }
            }
            let at = text.floor_char_boundary(at);
            text.insert_str(at, src.pick(&["\r\n", "\n", "\t", "\r", "\0", "\u{1f}", "\u{7f}", "\r\r\n", "\n\r", "\u{85}", "\u{feff}", "\u{2028}"]));
        }
    }
    if src.chance(1, 30) {
        let at = text.floor_char_boundary(src.idx(text.len() + 1));
        text.insert_str(if src.chance(2, 3) { 0 } else { at }, src.pick(&["\u{feff}", "\u{fffe}", "\u{200b}", "\u{a0}", "\u{b}", "\u{c}"]));
    }
    (text, way)
}

fn gen_plain_way(src: &mut Src, comments: bool) -> (String, Way) {
    match src.weighted(&[4, 2, 5]) {
        0 => {
            let target = catalog::gen_target(src);
            let text = if src.chance(5, 6) {
                let mut info = DocInfo::default();
                let node = model::gen_doc(src, target.ty(), DocOpts { break_it: true, big: true }, &mut info);
                let style = dom::Style::random(src, comments);
                let t = dom::print(src, &node, style);
                if src.chance(1, 2) {
                    edit(src, t, comments)
                } else {
                    t
                }
            } else {
                gen_text(src, comments).0
            };
            (text, Way::As(target))
        }
        1 => {
            let t = gen_text(src, comments).0;
            let m = gen_mode(src);
            (t, Way::Any(m))
        }
        _ => {
            let t = if src.chance(1, 2) {
                gen_text(src, comments).0
            } else {
                let node = dom::gen_object(src, dom::GenOpts { depth: 3, distinct_keys: false, big: true });
                let style = dom::Style::random(src, comments);
                dom::print(src, &node, style)
            };
            let n = src.range(2, 90);
            (t, Way::Script((0..n).map(|_| src.below(1 << 20)).collect()))
        }
    }
}

/// What reading gave: a description of everything returned, and the error with its position.
pub struct Transcript<'a> {
    pub log: Vec<String>,
    pub error: Option<(text::EKind, AnyPos<'a>)>,
    weight: usize,
}

fn transcript<'a>(text: &'a Text, source: Source, comments: bool, way: &Way) -> Transcript<'a> {
    transcript_from(text.open(source), comments, way)
}

pub fn transcript_from<'a>(reader: AnyReader<'a>, comments: bool, way: &Way) -> Transcript<'a> {
    let res: Result<(String, usize), DErr<'a>> = match way {
        Way::As(target) => text::read_from(reader, comments, |v| target.de(v)).map(|v| (format!("{v:?}"), 2)),
        Way::Any(mode) => text::read_from(reader, comments, |v| read_any(v, *mode)).map(|v| (format!("{v:?}"), 2)),
        Way::Script(choices) => {
            let d = match TextDeserializer::new(text::config(comments), reader) {
                Ok(d) => d,
                Err(e) => return failed(Vec::new(), e),
            };
            let o = script::run(d, Script::new(choices.clone()));
            if let Some(e) = o.error {
                return failed(o.log, e);
            }
            let weight = o.log.len() / 2;
            return Transcript { log: o.log, error: None, weight };
        }
    };
    match res {
        Ok((s, weight)) => Transcript { log: vec![s], error: None, weight },
        Err(e) => failed(Vec::new(), e),
    }
}

fn failed<'a>(log: Vec<String>, e: DErr<'a>) -> Transcript<'a> {
    // The messages can be shown
    let _ = format!("{e} {e:?}");
    let weight = log.len() / 2;
    Transcript { log, error: Some((ekind(&e), e.position().clone())), weight }
}

pub fn describe(way: &Way) -> String {
    match way {
        Way::As(t) => format!("as {}", t.describe()),
        Way::Any(m) => format!("as anything ({m:?})"),
        Way::Script(s) => format!("by script {s:?}"),
    }
}

fn c11(src: &mut Src) -> CheckResult {
    let comments = src.chance(1, 3);
    let (body, way) = gen_way(src, comments);
    let text = Text::new(body);
    // The character array counts how much of it is asked for
    let source = if src.chance(1, 2) { Source::Idx } else { gen_source(src) };
    src.ident(text.str.as_bytes());
    if let Way::Script(s) = &way {
        src.ident(&s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    }
    src.note(|| format!("{source:?} comments={comments} {} text={}", describe(&way), text.str));
    let t = guard(|| transcript(&text, source, comments, &way)).map_err(|c| c.describe())?;
    if t.weight >= 2 {
        src.nontrivial();
    }
    src.class(if t.error.is_some() { "ended with an error" } else { "ended with a value" });
    src.class(match way {
        Way::As(_) => "read as a type",
        Way::Any(_) => "read as anything",
        Way::Script(_) => "read by a sequence of calls",
    });
    if t.error.is_some() && t.weight >= 2 {
        src.class("error after several calls");
    }
    Ok(())
}

fn c13(src: &mut Src) -> CheckResult {
    let comments = src.chance(1, 3);
    let (body, way) = gen_way(src, comments);
    let text = Text::new(body);
    src.ident(text.str.as_bytes());
    if let Way::Script(s) = &way {
        src.ident(&s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    }
    src.note(|| format!("comments={comments} {} text={}", describe(&way), text.str));
    let base = guard(|| transcript(&text, Source::Idx, comments, &way))
        .map_err(|c| format!("from a character array: {}", c.describe()))?;
    let plans = [Source::Str, Source::Utf8(0), Source::Utf8(1 + src.below(1000)), Source::Utf8(1001 + src.below(1000))];
    if base.weight >= 2 {
        src.nontrivial();
    }
    for source in plans {
        src.sub_evals += 1;
        let t = guard(|| transcript(&text, source, comments, &way))
            .map_err(|c| format!("from {source:?}: {}", c.describe()))?;
        if t.log != base.log {
            let at = t.log.iter().zip(&base.log).position(|(a, b)| a != b).unwrap_or(t.log.len().min(base.log.len()));
            return Err(format!(
                "result {at} differs: from a character array {:?}, from {source:?} {:?}",
                base.log.get(at),
                t.log.get(at)
            ));
        }
        match (&base.error, &t.error) {
            (None, None) => (),
            (Some((k, p)), Some((k2, p2))) => {
                let AnyPos::Idx(at) = p else { unreachable!() };
                if *at > 0 {
                    src.nontrivial();
                }
                if k != k2 || !text.is_at(p2, *at) {
                    return Err(format!(
                        "errors differ: from a character array {k:?} at {at}, from {source:?} {k2:?} at {:?} ({p2:?})",
                        text.offset_of(p2)
                    ));
                }
                src.class("the same error");
            }
            (a, b) => {
                return Err(format!("outcomes differ: from a character array {a:?}, from {source:?} {b:?}"));
            }
        }
    }
    if base.error.is_none() {
        src.class("the same value");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Nesting

const DEEP_SHAPES: &[&str] = &["array", "object", "both", "open-array", "open-object", "wide"];
const DEEP_WAYS: &[&str] = &[
    "skip", "skip-buffered", "close-struct", "missing-key", "extra-key", "next-buffered", "list-rest", "skip-rest", "iterate",
];

extern "C" {
    /// The processor time this process has used, in microseconds.
    fn clock() -> std::ffi::c_long;
}

/// Tells the parent how much processor time this process has used.
fn print_time() -> i32 {
    println!("cpu {}", unsafe { clock() });
    0
}

/// Reads a deeply nested text on a thread with little stack. Returns 0 if it ended.
pub fn child_deep(args: &[String]) -> i32 {
    let shape = args[0].clone();
    let way = args[1].clone();
    let n: usize = args[2].parse().unwrap();
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || deep(&shape, &way, n)).unwrap();
    match t.join() {
        Ok(Ok(())) => print_time(),
        Ok(Err(m)) => {
            println!("{m}");
            1
        }
        Err(_) => {
            println!("panicked");
            1
        }
    }
}

fn deep(shape: &str, way: &str, n: usize) -> CheckResult {
    let (inner, valid) = match shape {
        "array" => (format!("{}{}", "[".repeat(n), "]".repeat(n)), true),
        "object" => (format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)), true),
        "both" => (format!("{}null{}", "[{\"a\": 1, \"b\":".repeat(n / 2), "}, 2]".repeat(n / 2)), true),
        "open-array" => ("[".repeat(n), false),
        "open-object" => ("{\"a\":".repeat(n), false),
        _ => (format!("[{}{}]", "[{\"a\":[]}],".repeat(n / 8), "0"), true),
    };
    let full = match way {
        "skip" | "iterate" => inner,
        "list-rest" => format!("[0, {inner}]"),
        "skip-rest" => format!("{{\"y\": 1, \"x\": {inner}, \"z\": {inner}}}"),
        _ => format!("{{\"x\": {inner}, \"y\": 1}}"),
    };
    let text = Text::new(full);
    let fuel = || -> Result<(), String> {
        let mut d = TextDeserializer::new(text::config(false), text.open(Source::Idx)).map_err(|e| text::show_err(&text, &e))?;
        let res: Result<(), DErr> = (|| {
            match way {
                "skip" => d.skip_value()?,
                "skip-buffered" => {
                    d.open_object()?;
                    d.push_entry("y")?;
                    d.get_u8()?;
                    d.push_entry("x")?;
                    d.skip_value()?;
                    d.close_object()?;
                }
                "close-struct" => {
                    d.open_struct(None)?;
                    d.push_field("y")?;
                    d.get_u8()?;
                    d.close_struct()?;
                }
                "missing-key" => {
                    d.open_object()?;
                    match d.push_entry("z") {
                        Err(e) if matches!(ekind(&e), text::EKind::MissingKey(_)) && valid => (),
                        Err(e) => return Err(e),
                        Ok(()) => panic!("there is no such entry"),
                    }
                    return Ok(());
                }
                "extra-key" => {
                    d.open_object()?;
                    match d.close_object() {
                        Err(e) if matches!(ekind(&e), text::EKind::ExtraKey(_)) && valid => (),
                        Err(e) => return Err(e),
                        Ok(()) => panic!("the object was closed with entries left"),
                    }
                    return Ok(());
                }
                "next-buffered" => {
                    d.open_object()?;
                    d.push_entry("y")?;
                    d.get_u8()?;
                    while d.next_entry()? {
                        d.skip_str()?;
                        d.skip_value()?;
                    }
                }
                "list-rest" => {
                    d.open_list()?;
                    d.push_item()?;
                    d.get_u8()?;
                    match d.close_list() {
                        Err(e) if matches!(ekind(&e), text::EKind::ExcessItems) && valid => (),
                        Err(e) => return Err(e),
                        Ok(()) => panic!("the list was closed with items left"),
                    }
                    return Ok(());
                }
                "skip-rest" => {
                    d.open_object()?;
                    d.push_entry("y")?;
                    d.get_u8()?;
                    d.skip_object()?;
                }
                _ => {
                    // Open everything by hand
                    let mut depth = 0usize;
                    loop {
                        match d.peek_value_type() {
                            ValueType::Array => {
                                d.open_list()?;
                                depth += 1;
                            }
                            ValueType::Object => {
                                d.open_object()?;
                                depth += 1;
                            }
                            _ => d.skip_value()?,
                        }
                        let mut more = false;
                        while depth > 0 {
                            more = match d.peek_collection_type() {
                                serdere_json::CollectionType::Array => d.next_item()?,
                                serdere_json::CollectionType::Object => {
                                    let m = d.next_entry()?;
                                    if m {
                                        d.skip_str()?;
                                    }
                                    m
                                }
                            };
                            if more {
                                break;
                            }
                            depth -= 1;
                        }
                        if !more {
                            break;
                        }
                    }
                }
            }
            Ok(())
        })();
        match res {
            Ok(()) => {
                if !valid {
                    return Err("a text that is cut short was accepted".into());
                }
                if !matches!(way, "missing-key" | "extra-key" | "list-rest") {
                    d.close().map_err(|e| text::show_err(&text, &e))?;
                }
                Ok(())
            }
            Err(e) if valid => Err(format!("rejected: {:?}", ekind(&e))),
            Err(_) => Ok(()),
        }
    };
    match guard(fuel) {
        Ok(r) => r,
        Err(c) => Err(c.describe()),
    }
}

// ------------------------------------------------------------------------------------------------
// Width

const WIDE_WAYS: &[&str] = &[
    "object-next",
    "object-skip",
    "object-forward",
    "object-reverse",
    "object-shuffled",
    "object-reverse-then-next",
    "object-absent-then-next",
    "object-alike-absent-then-next",
    "object-alike-reverse",
    "buffered-object-alike-reverse",
    "buffered-object-next",
    "buffered-object-skip",
    "buffered-object-reverse",
    "buffered-object-shuffled",
    "duplicates-absent-then-next",
    "buffered-duplicates-skip",
    "object-of-reordered",
    "array-of-reordered",
    "buffered-array-of-reordered",
    "array-of-reordered-types",
    "array-next",
    "array-skip",
    "buffered-array-next",
    "buffered-array-skip",
    "rests-skipped",
    "strings",
    "buffered-strings",
    "comments",
    "whitespace",
    "digits",
    "buffered-digits",
    "one-string",
    "buffered-one-string",
    "one-key",
    "escapes",
];

/// Reads a text with a great many entries, items, characters or digits side by side. Returns 0 if
/// it ended with the right values.
pub fn child_wide(args: &[String]) -> i32 {
    let way = args[0].clone();
    let n: usize = args[1].parse().unwrap();
    let source = if args[2] == "bytes" { Source::Utf8(7) } else { Source::Str };
    match guard(|| wide(&way, n, source)) {
        Ok(Ok(())) => print_time(),
        Ok(Err(m)) => {
            println!("{m}");
            1
        }
        Err(c) => {
            println!("{}", c.describe());
            1
        }
    }
}

#[derive(Debug, PartialEq, serdere::Deserialize)]
struct Reordered {
    a: u32,
    b: Vec<u32>,
    c: u32,
}

fn wide(way: &str, n: usize, source: Source) -> CheckResult {
    // Keys which differ in the middle only
    let around = if way.contains("-alike-") { "k".repeat(40) } else { String::new() };
    let key = |i: usize| if around.is_empty() { format!("k{i}") } else { format!("{around}{i:07}{around}") };
    let entries = |from: usize, to: usize| (from..to).map(|i| format!("\"{}\": {i}", key(i))).collect::<Vec<_>>().join(", ");
    let reordered =
        || (0..n).map(|i| format!("{{\"c\": {i}, \"b\": [{i}, {i}], \"a\": {i}}}")).collect::<Vec<_>>().join(", ");
    let numbers = || (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(",");
    let buffered = way.starts_with("buffered-");
    let inner = match way {
        "object-next" | "object-skip" | "object-forward" | "object-reverse" | "object-shuffled"
        | "object-reverse-then-next" | "object-absent-then-next" | "object-alike-absent-then-next" | "object-alike-reverse"
        | "buffered-object-alike-reverse" | "buffered-object-next" | "buffered-object-skip"
        | "buffered-object-reverse" | "buffered-object-shuffled" => format!("{{{}}}", entries(0, n)),
        "duplicates-absent-then-next" | "buffered-duplicates-skip" => {
            format!("{{{}}}", (0..n).map(|i| format!("\"k\": {i}")).collect::<Vec<_>>().join(", "))
        }
        "object-of-reordered" => format!(
            "{{{}}}",
            (0..n).map(|i| format!("\"k{i}\": {{\"c\": {i}, \"b\": [{i}, {i}], \"a\": {i}}}")).collect::<Vec<_>>().join(", ")
        ),
        "array-of-reordered" | "buffered-array-of-reordered" | "array-of-reordered-types" | "rests-skipped" => {
            format!("[{}]", reordered())
        }
        "array-next" | "array-skip" | "buffered-array-next" | "buffered-array-skip" => format!("[{}]", numbers()),
        "strings" | "buffered-strings" => {
            format!("[{}]", (0..n).map(|i| format!("\"s\\n{i}\"")).collect::<Vec<_>>().join(","))
        }
        "comments" => format!("[{}0]", "/* c * / */ // d\n".repeat(n)),
        "whitespace" => format!("[{}0]", " \r\n\t".repeat(n)),
        "digits" | "buffered-digits" => format!("{}.{}e-{}", "7".repeat(n), "3".repeat(n), n - 1),
        "one-string" | "buffered-one-string" => format!("\"{}\"", "ab\u{e9}\u{1f600}".repeat(n)),
        "one-key" => format!("{{\"{}\": 5}}", "ab\u{e9}\u{1f600}".repeat(n)),
        _ => format!("\"{}\"", "\\u00e9\\n\\ud83d\\ude00".repeat(n)),
    };
    let full = if buffered { format!("{{\"x\": {inner}, \"y\": 1}}") } else { inner };
    let text = Text::new(full);
    let ensure = |ok: bool, what: &str| if ok { Ok(()) } else { Err(format!("wrong result: {what}")) };
    let mut d = TextDeserializer::new(text::config(way == "comments"), text.open(source)).map_err(|e| text::show_err(&text, &e))?;
    // A fixed order that is neither that of the text nor its reverse
    let step = (n / 2 + 1..).find(|s| (1..=n).fold((*s, n), |(a, b), _| if b == 0 { (a, b) } else { (b, a % b) }).0 == 1).unwrap();
    let mut wrong: Option<String> = None;
    let res: Result<(), DErr> = (|| {
        if buffered {
            d.open_object()?;
            d.push_entry("y")?;
            d.get_u8()?;
            d.push_entry("x")?;
        }
        let mut sum = 0u64;
        let want = (n as u64) * (n as u64 - 1) / 2;
        match way {
            "object-skip" | "array-skip" | "buffered-duplicates-skip" | "buffered-object-skip" | "buffered-array-skip" => d.skip_value()?,
            "object-next" | "buffered-object-next" => {
                d.open_object()?;
                let mut i = 0;
                while d.next_entry()? {
                    let key = d.flush_str()?.into_owned();
                    if key != format!("k{i}") {
                        wrong.get_or_insert(key);
                    }
                    sum += u64::from(d.get_u32()?);
                    i += 1;
                }
            }
            "object-forward" | "object-reverse" | "object-shuffled" | "object-alike-reverse"
            | "buffered-object-alike-reverse" | "buffered-object-reverse" | "buffered-object-shuffled" => {
                d.open_object()?;
                for i in 0..n {
                    let k = match way {
                        "object-forward" => i,
                        "object-shuffled" | "buffered-object-shuffled" => (i * step + n / 2) % n,
                        _ => n - 1 - i,
                    };
                    d.push_entry(&key(k))?;
                    let v = d.get_u32()?;
                    if v as usize != k {
                        wrong.get_or_insert(format!("k{k}: {v}"));
                    }
                    sum += u64::from(v);
                }
                d.close_object()?;
            }
            "object-reverse-then-next" => {
                d.open_object()?;
                for k in (0..n / 2).rev() {
                    d.push_entry(&format!("k{k}"))?;
                    sum += u64::from(d.get_u32()?);
                }
                while d.next_entry()? {
                    d.skip_str()?;
                    sum += u64::from(d.get_u32()?);
                }
            }
            "object-absent-then-next" | "object-alike-absent-then-next" | "duplicates-absent-then-next" => {
                d.open_object()?;
                for i in 0..n {
                    let absent = if around.is_empty() { format!("absent{i}") } else { key(n + i) };
                    if d.try_push_entry(&absent)? {
                        wrong.get_or_insert("an absent entry was found".into());
                        d.skip_value()?;
                    }
                }
                while d.next_entry()? {
                    d.skip_str()?;
                    sum += u64::from(d.get_u32()?);
                }
            }
            "object-of-reordered" => {
                d.open_object()?;
                while d.next_entry()? {
                    d.skip_str()?;
                    d.open_object()?;
                    d.push_entry("a")?;
                    sum += u64::from(d.get_u32()?);
                    d.push_entry("c")?;
                    d.skip_value()?;
                    d.push_entry("b")?;
                    d.skip_value()?;
                    d.close_object()?;
                }
            }
            "array-of-reordered" | "buffered-array-of-reordered" | "rests-skipped" => {
                d.open_list()?;
                while d.next_item()? {
                    d.open_object()?;
                    d.push_entry("b")?;
                    d.skip_value()?;
                    d.push_entry("a")?;
                    sum += u64::from(d.get_u32()?);
                    if way == "rests-skipped" {
                        d.skip_object()?;
                    } else {
                        d.push_entry("c")?;
                        d.skip_value()?;
                        d.close_object()?;
                    }
                }
            }
            "array-of-reordered-types" => {
                let mut done = false;
                let all = serdere::Value::new(&mut d, &mut done).get::<Vec<Reordered>>()?;
                for (i, r) in all.iter().enumerate() {
                    let i = i as u32;
                    if *r != (Reordered { a: i, b: vec![i, i], c: i }) {
                        wrong.get_or_insert(format!("{r:?}"));
                    }
                    sum += u64::from(r.a);
                }
            }
            "array-next" | "buffered-array-next" => {
                d.open_list()?;
                while d.next_item()? {
                    sum += u64::from(d.get_u32()?);
                }
            }
            "strings" | "buffered-strings" => {
                d.open_list()?;
                let mut i = 0u64;
                while d.next_item()? {
                    d.open_str()?;
                    let s = d.flush_str()?;
                    if s != format!("s\n{i}") {
                        wrong.get_or_insert(s.into_owned());
                    }
                    sum += i;
                    i += 1;
                }
            }
            "comments" | "whitespace" => {
                d.open_list()?;
                d.push_item()?;
                d.get_u8()?;
                d.close_list()?;
                sum = want;
            }
            "digits" | "buffered-digits" => {
                let x = d.get_f64()?;
                if (x - 7.777777777777778).abs() > 1e-12 {
                    wrong.get_or_insert(format!("{x:?}"));
                }
                sum = want;
            }
            "one-key" => {
                d.open_object()?;
                d.push_entry(&"ab\u{e9}\u{1f600}".repeat(n))?;
                d.get_u8()?;
                d.close_object()?;
                sum = want;
            }
            _ => {
                d.open_str()?;
                let unit = if way == "escapes" { "\u{e9}\n\u{1f600}" } else { "ab\u{e9}\u{1f600}" };
                if d.flush_str()? != unit.repeat(n) {
                    wrong.get_or_insert("the contents differ".into());
                }
                sum = want;
            }
        }
        if sum != want && !way.ends_with("-skip") {
            wrong.get_or_insert(format!("the values add up to {sum} rather than {want}"));
        }
        if buffered {
            d.close_object()?;
        }
        Ok(())
    })();
    res.map_err(|e| text::show_err(&text, &e))?;
    ensure(wrong.is_none(), wrong.as_deref().unwrap_or(""))?;
    d.close().map_err(|e| text::show_err(&text, &e))
}

/// Runs a read in a process of its own. Returns the microseconds of processor time it took.
fn run_child(exe: &std::path::Path, args: &[String], limit: u64) -> Result<u64, String> {
    use std::io::Read;
    let mut child = std::process::Command::new(exe)
        .arg("child")
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("cannot start a child process");
    let start = std::time::Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if start.elapsed().as_secs() > limit => {
                child.kill().ok();
                child.wait().ok();
                return Err(format!("not finished after {limit} s"));
            }
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).ok();
    if !status.success() {
        return Err(format!("the process ended with {status} {}", out.trim()));
    }
    Ok(out.lines().rev().find_map(|l| l.strip_prefix("cpu ")?.parse().ok()).unwrap_or(0))
}

fn c11_extra(e: &mut Extra) -> CheckResult {
    let exe = std::env::current_exe().map_err(|e| e.to_string()).unwrap();
    let levels = 300_000usize;
    let width = 200_000usize;
    let limit = 60;
    let mut jobs: Vec<(String, Vec<String>)> = Vec::new();
    for shape in DEEP_SHAPES {
        for way in DEEP_WAYS {
            jobs.push((
                format!("a text nested {levels} levels deep ({shape}), read by way of {way}"),
                vec!["deep".into(), shape.to_string(), way.to_string(), levels.to_string()],
            ));
        }
    }
    let deep = jobs.len();
    for way in WIDE_WAYS {
        for source in ["str", "bytes"] {
            // Entries which share a key are kept apart by searching through all of them
            let n = match way {
                w if w.contains("duplicates") => width / 10,
                w if w.contains("-alike-") => width / 4,
                _ => width,
            };
            jobs.push((
                format!("{n} parts side by side, read by way of {way} from {source}"),
                vec!["wide".into(), way.to_string(), n.to_string(), source.into()],
            ));
        }
    }
    let wide = jobs.len() - deep;
    let jobs = std::sync::Mutex::new(jobs);
    let failures = std::sync::Mutex::new(Vec::new());
    let remeasured = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some((what, args)) = jobs.lock().unwrap().pop() else { break };
                if !failures.lock().unwrap().is_empty() {
                    break;
                }
                match run_child(&exe, &args, limit) {
                    // The work has to grow like the text: four times the text may not take nine
                    // times as long
                    Ok(cpu) if cpu > 2_000_000 && !args.iter().any(|a| a.contains("duplicates")) => {
                        let n: usize = args[2].parse().unwrap();
                        let mut less = args.clone();
                        less[2] = (n / 4).to_string();
                        let again = |args: &[String]| {
                            (0..3).filter_map(|_| run_child(&exe, args, limit).ok()).min()
                        };
                        if let (Some(small), Some(large)) = (again(&less), again(&args)) {
                            let large = large.min(cpu);
                            remeasured.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if large > 2_000_000 && large > 9 * small {
                                failures.lock().unwrap().push(format!(
                                    "{what}: takes {} ms of processor time, a quarter of that text takes only {} ms",
                                    large / 1000,
                                    small / 1000
                                ));
                            }
                        }
                    }
                    Ok(_) => (),
                    Err(m) => failures.lock().unwrap().push(format!("{what}: {m}")),
                }
            });
        }
    });
    let n = (deep + wide) as u64;
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{deep} reads of texts nested {levels} levels deep with 1 MiB of stack, each in its own process"));
    e.notes.push(format!("{wide} reads of texts with up to {width} parts side by side, each ended within {limit} s of its process"));
    e.notes.push(format!(
        "{} of these reads took over 2 s of processor time and were measured again at a quarter of the size",
        remeasured.into_inner()
    ));
    let mut failures = failures.into_inner().unwrap();
    failures.sort();
    match failures.into_iter().next() {
        Some(f) => Err(f),
        None => Ok(()),
    }
}
