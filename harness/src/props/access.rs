//! C05, C21 and C22: histories of reading a document.

use super::gen_source;
use crate::dom::{self, GenOpts, Node, Style};
use crate::engine::{CheckResult, Extra, Prop, Src};
use crate::io::{Source, Text};
use crate::text::{self, DErr};
use serdere::{Deserializer, Outliner};
use serdere_json::{JsonDeserializer, JsonOutliner, TextDeserializer};
use crate::catalog::Target;
use crate::machine::{self, Profile, Stats};
use crate::model::{self, Ty};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            rule: "an object was read with at least one entry out of document order or an absent key asked for",
            check: c05,
            quick: 3_200_000,
            thorough: 20_000_000,
            extra: Some(c05_extra),
        },
        Prop {
            id: "C21",
            rule: "at least two items were delivered from arrays, or a length error was due",
            check: c21,
            quick: 3_200_000,
            thorough: 20_000_000,
            extra: Some(c21_extra),
        },
        Prop {
            id: "C22",
            rule: "a non-empty container, the rest of a string or the rest of an object was skipped and reading went on to the end",
            check: c22,
            quick: 3_200_000,
            thorough: 20_000_000,
            extra: Some(c22_extra),
        },
    ]
}

pub(super) fn run(src: &mut Src, node: Node, p: Profile) -> Result<Stats, String> {
    let comments = src.chance(1, 3);
    let style = Style::random(src, comments);
    let text = Text::new(dom::print(src, &node, style));
    let doc = dom::parse(&text.chars, comments).expect("the printed document is valid");
    assert!(doc.strip() == node);
    let source = gen_source(src);
    src.ident(text.str.as_bytes());
    src.note(|| format!("{source:?} comments={comments} text={}", text.str));
    machine::walk(src, &text, &doc, source, comments, p)
}

/// An array of objects (and other things) in which arrays are read in all ways while object
/// entries are read out of order around them.
fn doc(src: &mut Src, prefer: u64, distinct: bool) -> Node {
    let o = GenOpts { depth: 4, distinct_keys: distinct, big: true };
    match src.weighted(&[4, 2, 1]) {
        0 => match prefer {
            0 => dom::gen_object(src, o),
            1 => {
                let n = src.idx(5);
                let inner = Node::Arr((0..n).map(|_| dom::gen_node(src, GenOpts { depth: 3, ..o })).collect());
                if src.chance(1, 2) {
                    let Node::Obj(mut e) = dom::gen_object(src, GenOpts { depth: 2, ..o }) else { unreachable!() };
                    e.retain(|x| x.0 != "list");
                    let at = src.idx(e.len() + 1);
                    e.insert(at, ("list".into(), inner));
                    Node::Obj(e)
                } else {
                    inner
                }
            }
            _ => dom::gen_node(src, o),
        },
        1 => dom::gen_node(src, o),
        _ => {
            let inner = dom::gen_node(src, GenOpts { depth: 2, ..o });
            let levels = if src.chance(1, 10) { src.range(4, 60) } else { src.range(1, 5) };
            dom::gen_deep(src, inner, levels)
        }
    }
}

/// Objects inside one another, each of which has some of the same few keys. All are opened by asking
/// for the entry that holds the next one, and their other entries are read on the way back.
fn nested_keys(seed: u64, levels: usize, source: Source) -> CheckResult {
    const KEYS: [&str; 4] = ["a", "b", "", "aa"];
    let mut src = Src::random(seed);
    // The keys at every level, in order; None is the entry with the object inside
    let mut all: Vec<Vec<Option<usize>>> = Vec::with_capacity(levels);
    let mut text = String::new();
    let mut ends = Vec::with_capacity(levels);
    for i in 0..levels {
        let mut keys: Vec<Option<usize>> = src.permutation(4).into_iter().take(src.range(1, 4)).map(Some).collect();
        let at = src.idx(keys.len() + 1);
        keys.insert(at, None);
        let show = |k: &Option<usize>| match k {
            Some(k) => format!("\"{}\":{}", KEYS[*k], i * 4 + k),
            None => "\"v\":".into(),
        };
        let before: Vec<String> = keys[..=at].iter().map(show).collect();
        text.push('{');
        text.push_str(&before.join(","));
        ends.push(keys[at + 1..].iter().map(|k| format!(",{}", show(k))).collect::<String>() + "}");
        all.push(keys);
    }
    text.push('0');
    for end in ends.iter().rev() {
        text.push_str(end);
    }
    let text = Text::new(text);
    // Where all that is inside gets buffered, if anywhere
    let buffer = if src.chance(1, 2) { src.idx(levels) } else { levels };
    let mut d = TextDeserializer::new(text::config(false), text.open(source)).map_err(|e| text::show_err(&text, &e))?;
    let mut wrong = None;
    let mut note = |m: String| {
        wrong.get_or_insert(m);
    };
    let res: Result<(), DErr> = (|| {
        let mut taken = vec![[false; 4]; levels];
        for i in 0..levels {
            d.open_object()?;
            if i == buffer && d.try_push_entry("none")? {
                note(format!("level {i}: an absent key was found"));
                return Ok(());
            }
            if src.chance(1, 8) {
                let k = src.idx(4);
                if d.try_push_entry(KEYS[k])? {
                    taken[i][k] = true;
                    let got = d.get_u64()?;
                    if !all[i].contains(&Some(k)) || got != (i * 4 + k) as u64 {
                        note(format!("level {i}: key {:?} gives {got}", KEYS[k]));
                    }
                } else if all[i].contains(&Some(k)) {
                    note(format!("level {i}: key {:?} is not found", KEYS[k]));
                }
            }
            d.push_entry("v")?;
        }
        d.get_u8()?;
        for i in (0..levels).rev() {
            let left = |taken: &[[bool; 4]]| -> Vec<usize> {
                all[i].iter().flatten().copied().filter(|k| !taken[i][*k]).collect()
            };
            for _ in 0..src.idx(6) {
                let k = src.idx(4);
                let want = left(&taken).contains(&k);
                let found = d.try_push_entry(KEYS[k])?;
                if found != want {
                    note(format!("level {i}: key {:?} {}", KEYS[k], if found { "is found" } else { "is not found" }));
                    return Ok(());
                }
                if found {
                    taken[i][k] = true;
                    let got = d.get_u64()?;
                    if got != (i * 4 + k) as u64 {
                        note(format!("level {i}: key {:?} gives {got}", KEYS[k]));
                    }
                }
            }
            if src.chance(1, 8) {
                d.skip_object()?;
                continue;
            }
            for k in left(&taken) {
                let more = d.next_entry()?;
                if !more {
                    note(format!("level {i}: key {:?} is never delivered", KEYS[k]));
                    return Ok(());
                }
                let key = d.flush_str()?.into_owned();
                let got = d.get_u64()?;
                if key != KEYS[k] || got != (i * 4 + k) as u64 {
                    note(format!("level {i}: the next entry is {key:?}: {got}, expected {:?}: {}", KEYS[k], i * 4 + k));
                    return Ok(());
                }
            }
            d.close_object()?;
        }
        Ok(())
    })();
    let shown = |m: String| match text.str.len() {
        0..=2000 => format!("{m} in {}", text.str),
        n => format!("{m} in a text of {n} bytes with {levels} nested objects"),
    };
    res.map_err(|e| shown(text::show_err(&text, &e)))?;
    match wrong {
        Some(m) => Err(shown(m)),
        None => d.close().map_err(|e| shown(text::show_err(&text, &e))),
    }
}

/// What a history with more entries or items than small counters can hold is about.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Large {
    Entries,
    Items,
    Skips,
}

/// Reads a collection with a great many parts, streamed or buffered, and what comes after it.
fn large(seed: u64, n: usize, about: Large, source: Source) -> CheckResult {
    let mut src = Src::random(seed);
    let buffered = src.chance(1, 2);
    let object = match about {
        Large::Entries => true,
        Large::Items => false,
        Large::Skips => src.chance(1, 2),
    };
    let shape = src.idx(4);
    // One of the parts may be large itself
    let heavy = (0..n).skip(src.idx(n - 22)).find(|i| (i * 7 + shape) % 11 == 0).filter(|_| n < 1000 && src.chance(2, 3));
    let inner = move |i: usize| if Some(i) == heavy { 66_000 } else { 2 };
    let value = |i: usize| match (i * 7 + shape) % 11 {
        0 => format!("[{}]", vec![i.to_string(); inner(i)].join(",")),
        1 => format!("\"{i}\""),
        2 => format!("{{\"a\":{i}}}"),
        _ => i.to_string(),
    };
    let parts: Vec<String> =
        (0..n).map(|i| if object { format!("\"k{i}\":{}", value(i)) } else { value(i) }).collect();
    let (open, close) = if object { ('{', '}') } else { ('[', ']') };
    let text = Text::new(format!("{{\"x\":{open}{}{close},\"y\":1}}", parts.join(",")));
    let mut d = TextDeserializer::new(text::config(false), text.open(source)).map_err(|e| text::show_err(&text, &e))?;
    let mut wrong = None;
    let mut note = |m: String| {
        wrong.get_or_insert(m);
    };
    fn read<'a>(
        d: &mut text::De<'a>,
        i: usize,
        shape: usize,
        inner: usize,
        src: &mut Src,
    ) -> Result<Option<String>, DErr<'a>> {
        if src.chance(1, 9) {
            d.skip_value()?;
            return Ok(None);
        }
        let got = match (i * 7 + shape) % 11 {
            0 => {
                d.open_list()?;
                d.push_item()?;
                let a = d.get_u64()?;
                for _ in 1..inner {
                    d.push_item()?;
                    let b = d.get_u64()?;
                    if a != b {
                        return Ok(Some(format!("part {i} has {b} after {a}")));
                    }
                }
                d.close_list()?;
                a.to_string()
            }
            1 => {
                d.open_str()?;
                d.flush_str()?.into_owned()
            }
            2 => {
                d.open_object()?;
                d.push_entry("a")?;
                let a = d.get_u64()?;
                d.close_object()?;
                a.to_string()
            }
            _ => d.get_u64()?.to_string(),
        };
        Ok((got != i.to_string()).then(|| format!("part {i} is read as {got}")))
    }
    let res: Result<(), DErr> = (|| {
        d.open_object()?;
        if buffered {
            d.push_entry("y")?;
            d.get_u8()?;
        }
        d.push_entry("x")?;
        let until = match about {
            Large::Skips => src.choose(&[0, 1, n / 2, n - 1]),
            _ => n,
        };
        if about == Large::Skips && until == 0 {
            d.skip_value()?;
        } else if object {
            d.open_object()?;
            let mut taken = vec![false; n];
            let (mut first, mut count) = (0, 0);
            let by_key = src.choose(&[0, 1, 5, 10]);
            while count < until {
                while taken[first] {
                    first += 1;
                }
                let i = if src.chance(by_key, 10) {
                    // Near the front, or anywhere
                    let i = if src.chance(1, 4) { src.idx(n) } else { (first + src.idx(5)).min(n - 1) };
                    if d.try_push_entry(&format!("k{i}"))? == taken[i] {
                        note(format!("key k{i}, {}, is {}", if taken[i] { "taken" } else { "not taken" }, if taken[i] { "found" } else { "not found" }));
                        return Ok(());
                    }
                    if taken[i] {
                        continue;
                    }
                    i
                } else {
                    if !d.next_entry()? {
                        note(format!("the object ends with k{first} unread"));
                        return Ok(());
                    }
                    let key = d.flush_str()?.into_owned();
                    if key != format!("k{first}") {
                        note(format!("the next entry is {key}, not k{first}"));
                        return Ok(());
                    }
                    first
                };
                taken[i] = true;
                count += 1;
                if let Some(m) = read(&mut d, i, shape, inner(i), &mut src)? {
                    note(m);
                    return Ok(());
                }
            }
            if about == Large::Skips {
                d.skip_object()?;
            } else {
                d.close_object()?;
            }
        } else {
            d.open_list()?;
            let by_next = src.choose(&[0, 1, 9, 10]);
            for i in 0..until {
                if src.chance(by_next, 10) {
                    if !d.next_item()? {
                        note(format!("the array ends before item {i}"));
                        return Ok(());
                    }
                } else {
                    d.push_item()?;
                }
                if let Some(m) = read(&mut d, i, shape, inner(i), &mut src)? {
                    note(m);
                    return Ok(());
                }
            }
            if until == n {
                d.close_list()?;
            } else {
                while d.next_item()? {
                    d.skip_value()?;
                }
            }
        }
        if !buffered {
            d.push_entry("y")?;
            if d.get_u8()? != 1 {
                note("what comes after it is wrong".into());
            }
        }
        d.close_object()
    })();
    let shown = |m: String| {
        let what = if object { "an object" } else { "an array" };
        format!("{m}: {what} of {n} parts{}, shape {shape}, {source:?}, seed {seed}", if buffered { ", buffered" } else { "" })
    };
    res.map_err(|e| shown(text::show_err(&text, &e)))?;
    match wrong {
        Some(m) => Err(shown(m)),
        None => d.close().map_err(|e| shown(text::show_err(&text, &e))),
    }
}

/// Reads which go past what 8 and 16 bits can count.
fn large_extra(e: &mut Extra, about: Large) -> CheckResult {
    let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    for i in 0..24u64 {
        let n = if i % 2 == 0 { 70_000 } else { 300 };
        let source = if i % 3 == 0 { Source::Utf8(i) } else { Source::Str };
        large(crate::engine::mix(base ^ (i << 40)), n, about, source)?;
        e.evaluations += 1;
        e.distinct += 1;
    }
    e.notes.push("24 collections of 300 parts, some with one of 66000 items among them, or of 70000 parts, streamed or buffered, read in some order".into());
    Ok(())
}

fn c21_extra(e: &mut Extra) -> CheckResult {
    large_extra(e, Large::Items)
}

fn c22_extra(e: &mut Extra) -> CheckResult {
    large_extra(e, Large::Skips)
}

fn c05_extra(e: &mut Extra) -> CheckResult {
    large_extra(e, Large::Entries)?;
    let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let levels = 70_000;
    for i in 0..8 {
        nested_keys(crate::engine::mix(base ^ (i << 32)), levels, if i % 2 == 0 { Source::Str } else { Source::Utf8(i) })?;
        e.evaluations += 1;
        e.distinct += 1;
    }
    e.notes.push(format!("8 texts with {levels} objects inside one another, with the same few keys in each, which are read on the way back"));
    Ok(())
}

fn c05(src: &mut Src) -> CheckResult {
    if src.chance(1, 500) {
        let levels = src.choose(&[2, 3, 6, 30, 300, 700]);
        let seed = src.u64();
        let source = gen_source(src);
        src.nontrivial();
        src.class("deeply nested objects with the same keys");
        src.ident(&seed.to_le_bytes());
        src.note(|| format!("{levels} nested objects from seed {seed}, {source:?}"));
        return nested_keys(seed, levels, source);
    }
    let node = doc(src, 0, true);
    let wrong = src.choose(&[0, 0, 0, 12]);
    let s = run(src, node, Profile { skip: 12, partial: 0, wrong, rest: false })?;
    if s.out_of_order > 0 || s.absent > 0 {
        src.nontrivial();
    }
    if s.out_of_order > 0 {
        src.class("out of order");
    }
    if s.absent > 0 {
        src.class("absent or taken key asked for");
    }
    if s.errors > 0 {
        src.class("an error was due");
    }
    if s.entries > 20 {
        src.class("many entries");
    }
    Ok(())
}

/// Arrays read as tuples, fixed arrays and lists.
fn typed_items(src: &mut Src) -> CheckResult {
    let list = src.chance(1, 4);
    let tys: Vec<&'static Ty> = if list || src.chance(1, 3) {
        let ty = model::gen_ty(src, 2);
        vec![ty; src.idx(6)]
    } else {
        (0..src.idx(6)).map(|_| model::gen_ty(src, 1)).collect()
    };
    let mut items: Vec<Node> =
        tys.iter().map(|t| { let v = model::gen_value(src, t, false); model::encode(t, &v) }).collect();
    let target = match tys.first() {
        Some(t) if list => Target::Dynamic(model::keep(Ty::List(t))),
        _ => Target::Dynamic(model::keep(Ty::Tup(tys.clone()))),
    };
    let mut changed = false;
    if src.chance(1, 2) {
        match src.idx(4) {
            0 if !items.is_empty() => {
                let at = src.idx(items.len());
                items.truncate(at);
                changed = true;
            }
            1 if !items.is_empty() => {
                // Once more
                let at = src.idx(items.len());
                let item = items[at].clone();
                items.insert(at, item);
                changed = true;
            }
            2 | 3 => {
                for _ in 0..src.range(1, 3) {
                    let item = dom::gen_node(src, GenOpts { depth: 1, distinct_keys: true, big: false });
                    items.push(item);
                }
                changed = true;
            }
            _ => (),
        }
    }
    if items.len() > 1 || changed {
        src.nontrivial();
    }
    src.class(if changed { "typed, of another length" } else { "typed" });
    super::types::fit(src, &target, Node::Arr(items), changed, false)?;
    Ok(())
}

fn c21(src: &mut Src) -> CheckResult {
    if src.chance(1, 4) {
        return typed_items(src);
    }
    let node = doc(src, 1, true);
    let wrong = src.choose(&[0, 0, 8]);
    let s = run(src, node, Profile { skip: 10, partial: 0, wrong, rest: true })?;
    if s.items > 1 || s.errors > 0 && s.items > 0 {
        src.nontrivial();
    }
    if s.errors > 0 {
        src.class("an error was due");
    }
    if s.out_of_order > 0 && s.items > 1 {
        src.class("with entries out of order");
    }
    if s.items > 20 {
        src.class("many items");
    }
    Ok(())
}

fn c22(src: &mut Src) -> CheckResult {
    let distinct = src.chance(2, 3);
    let node = doc(src, 2, distinct);
    let s = run(src, node, Profile { skip: 4, partial: 2, wrong: 0, rest: true })?;
    if s.ops > 2 && (s.skipped_containers > 0 || s.partial > 0 || s.rest_skipped > 0) {
        src.nontrivial();
    }
    if s.skipped_containers > 0 {
        src.class("container skipped");
    }
    if s.partial > 0 {
        src.class("string read in part");
    }
    if s.rest_skipped > 0 {
        src.class("rest of an object skipped");
    }
    if s.out_of_order > 0 {
        src.class("with entries out of order");
    }
    Ok(())
}
