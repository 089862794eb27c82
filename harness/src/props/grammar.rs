//! C03, C04 and C12: which texts are accepted.

use super::*;
use crate::catalog;
use crate::engine::{guard, CheckResult, Extra};
use crate::io::{AnyPos, Text};
use crate::machine::{self, Profile};
use crate::model::{self, DocInfo, DocOpts};
use crate::text;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "random documents, documents after 1 to 3 edits, and sequences of tokens, read whole in one of the modes stream, buffer, skip and mixed, at the top or within an object. Non-trivial: at least two characters long, and either accepted with a container or a string in it, or rejected after at least one character of it was valid",
            check: c03,
            quick: 2_000_000,
            thorough: 40_000_000,
            extra: Some(c03_extra),
        },
        Prop {
            id: "C04",
            rule: "random documents with comments between tokens, or such texts after 1 to 3 edits. Non-trivial: the text has at least one comment, or one which does not end",
            check: c04,
            quick: 1_600_000,
            thorough: 30_000_000,
            extra: None,
        },
        Prop {
            id: "C12",
            rule: "a document for a random type, cut short, continued, or surrounded by whitespace. Non-trivial: the whole document fits the type, and the text read differs from it",
            check: c12,
            quick: 1_000_000,
            thorough: 30_000_000,
            extra: None,
        },
        Prop {
            id: "C24",
            rule: "random documents after 1 to 3 edits, and sequences of tokens, read whole in one of the modes stream, buffer, skip and mixed, at the top or within others; documents for a random type, cut short and read as that type. Non-trivial: the text is not a document, but its start is that of one",
            check: c24,
            quick: 1_800_000,
            thorough: 40_000_000,
            extra: Some(c24_extra),
        },
    ]
}

/// Is the error where the text stops being a document: no earlier than the token in which that is,
/// and no later than the first character which cannot continue any document?
fn points_at(text: &Text, e: &DErr, at: usize, token: usize) -> CheckResult {
    if let Some(mut p) = text.offset_of(e.position()) {
        // Carriage returns have no width, where columns are counted
        let columns = matches!(e.position(), AnyPos::Lc(_));
        while columns && p < token && text.chars[p] == '\r' {
            p += 1;
        }
        if (token..=at).contains(&p) {
            return Ok(());
        }
    }
    Err(format!(
        "the text stops being JSON at offset {at}, in the token at {token}, but the error points elsewhere ({:?}): {}",
        text.offset_of(e.position()),
        text::show_err(text, e)
    ))
}

fn c24_extra(e: &mut Extra) -> CheckResult {
    let toks = ["{", "}", "[", "]", ",", ":", "\"a\"", "1", "nul", "\n", "-", "/*/", "*/", "e", "true", "x", "\"\\"];
    let texts = short_texts(&toks);
    for t in &texts {
        for wrap in [false, true] {
            let full = if wrap { format!("{{\"k\":{t}}}") } else { t.clone() };
            let text = Text::new(full);
            for comments in [false, true] {
                let Some((at, token)) = dom::malformed(&text.chars, comments) else { continue };
                e.distinct += 1;
                for mode in [Mode::Stream, Mode::Buffer, Mode::Skip] {
                    e.evaluations += 1;
                    match guard(|| text::read(&text, Source::Idx, comments, |v| read_any(v, mode)))
                        .map_err(|c| format!("text {:?} ({mode:?}): {}", text.str, c.describe()))?
                    {
                        Ok(_) => return Err(format!("text {:?} ({mode:?}) is accepted", text.str)),
                        Err(x) => points_at(&text, &x, at, token).map_err(|m| format!("text {:?} ({mode:?}): {m}", text.str))?,
                    }
                }
            }
        }
    }
    e.notes.push(format!("all {} texts of at most 4 of the tokens {toks:?}, alone and as a value in an object, with and without comments, in 3 modes", texts.len()));
    Ok(())
}

fn c24(src: &mut Src) -> CheckResult {
    let comments = src.chance(1, 3);
    if src.chance(1, 3) {
        // A document for a type, cut short
        src.class("cut short");
        let target = catalog::gen_target(src);
        let ty = target.ty();
        let mut info = DocInfo::default();
        let node = model::gen_doc(src, ty, DocOpts { break_it: false, big: true }, &mut info);
        let style = dom::Style::random(src, comments);
        let base = dom::print(src, &node, style);
        let chars: Vec<char> = base.chars().collect();
        let whole = dom::parse(&chars, comments).unwrap_or_else(|e| panic!("the printed document is not valid at {e}: {base}"));
        let cut = if src.chance(2, 3) { src.idx(chars.len()) } else { chars.len() - 1 - src.idx(chars.len().min(6)) };
        let text = Text::new(chars[..cut].iter().collect());
        let source = gen_source(src);
        src.ident(text.str.as_bytes());
        src.note(|| format!("{source:?} as {} text={}", target.describe(), text.str));
        let Some((at, token)) = dom::malformed(&text.chars, comments) else { return Ok(()) };
        // What is left of a number is a number as well, and may not fit the type
        if model::ref_de(ty, &whole).is_err() || token == at && text.chars.last().is_some_and(|c| c.is_ascii_digit()) {
            return Ok(());
        }
        if at > 0 {
            src.nontrivial();
        }
        return match guard(|| text::read(&text, source, comments, |v| target.de(v))).map_err(|c| c.describe())? {
            Err(e) => points_at(&text, &e, at, token),
            Ok(v) => Err(format!("a text that is not a document at offset {at} was accepted as {v:?}")),
        };
    }
    src.class("documents of any shape");
    let (body, _) = gen_text(src, comments);
    let mode = gen_mode(src);
    let full = match src.weighted(&[4, 2, 1, 1]) {
        0 => body,
        1 => format!("{{\"k\":{body}}}"),
        2 => format!("[0, {body}]"),
        _ => format!("{{\"k\": [{{}}, {body} ], \"l\": true}}"),
    };
    let text = Text::new(full);
    let source = gen_source(src);
    src.ident(text.str.as_bytes());
    src.note(|| format!("{mode:?} {source:?} comments={comments} text={}", text.str));
    let Some((at, token)) = dom::malformed(&text.chars, comments) else { return Ok(()) };
    if at > 0 {
        src.nontrivial();
    }
    src.class(match mode {
        Mode::Stream => "streamed",
        Mode::Buffer => "buffered",
        Mode::Skip => "skipped",
        Mode::Mixed(_) => "mixed modes",
    });
    match guard(|| text::read(&text, source, comments, |v| read_any(v, mode))).map_err(|c| c.describe())? {
        Err(e) => points_at(&text, &e, at, token),
        Ok(any) => Err(format!("a text which stops being JSON at offset {at} was accepted ({mode:?}) as {any:?}")),
    }
}

/// Checks that a text is read, as a document of any shape, just as the reference parser says.
fn judge(src: &mut Src, body: &str, comments: bool, mode: Mode) -> CheckResult {
    let wrap = src.weighted(&[4, 2, 1, 1]);
    let full = match wrap {
        0 => body.to_string(),
        1 => format!("{{\"k\":{body}}}"),
        2 => format!("[0, {body}]"),
        _ => format!("{{\"k\": [{{}}, {body} ], \"l\": true}}"),
    };
    let text = Text::new(full);
    let source = gen_source(src);
    src.ident(text.str.as_bytes());
    src.note(|| format!("{mode:?} {source:?} comments={comments} text={}", text.str));
    let expect = dom::parse(&text.chars, comments);
    if expect == Err(dom::UNSPECIFIED) {
        return Ok(());
    }
    let got = guard(|| text::read(&text, source, comments, |v| read_any(v, mode)))
        .map_err(|c| c.describe())?;
    match (expect, got) {
        (Ok(node), Ok(any)) => {
            if node.size() > 1 || matches!(node.v, SVal::Str(_)) {
                src.nontrivial();
            }
            src.class("accepted");
            let ordered = mode == Mode::Stream || mode == Mode::Skip || !has_duplicates(&node);
            if ordered && !any_matches(&any, &node) {
                return Err(format!("the document {:?} was read ({mode:?}) as {any:?}", node.strip()));
            }
            Ok(())
        }
        (Err(at), Err(_)) => {
            if at > 0 {
                src.nontrivial();
            }
            src.class("rejected");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("a valid document was rejected ({mode:?}): {}", text::show_err(&text, &e))),
        (Err(at), Ok(any)) => {
            Err(format!("a text which stops being JSON at offset {at} was accepted ({mode:?}) as {any:?}"))
        }
    }
}

fn c03(src: &mut Src) -> CheckResult {
    let (body, kind) = gen_text(src, false);
    src.class(match kind {
        TextKind::Document => "document",
        TextKind::Edited => "edited document",
        TextKind::Soup => "tokens",
    });
    let mode = gen_mode(src);
    src.class(match mode {
        Mode::Stream => "streamed",
        Mode::Buffer => "buffered",
        Mode::Skip => "skipped",
        Mode::Mixed(_) => "mixed modes",
    });
    judge(src, &body, false, mode)
}

const SHORT: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " ", "-", "0", ".5", "e1", "true", "x"];

/// Every text made of up to four of a few tokens.
fn short_texts(toks: &[&str]) -> Vec<String> {
    let mut texts = vec![String::new()];
    let mut last = texts.clone();
    for _ in 0..4 {
        let mut next = Vec::new();
        for t in &last {
            for k in toks {
                next.push(format!("{t}{k}"));
            }
        }
        texts.extend(next.iter().cloned());
        last = next;
    }
    texts
}

/// Every short text, in each mode.
fn c03_extra(e: &mut Extra) -> CheckResult {
    let texts = short_texts(SHORT);
    for t in &texts {
        for wrap in [false, true] {
            let full = if wrap { format!("{{\"k\":{t}}}") } else { t.clone() };
            let text = Text::new(full);
            let expect = dom::parse(&text.chars, false);
            if expect.is_ok() {
                e.distinct += 1;
            }
            for mode in [Mode::Stream, Mode::Buffer, Mode::Skip] {
                e.evaluations += 1;
                let got = guard(|| text::read(&text, Source::Str, false, |v| read_any(v, mode)))
                    .map_err(|c| format!("text {:?} ({mode:?}): {}", text.str, c.describe()))?;
                let ok = match (&expect, &got) {
                    (Ok(n), Ok(a)) => any_matches(a, n) || has_duplicates(n) && mode == Mode::Buffer,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !ok {
                    return Err(format!(
                        "text {:?} ({mode:?}): the standard says {:?}, the reader {:?}",
                        text.str,
                        expect.map(|n| n.strip()),
                        got.map_err(|x| text::show_err(&text, &x))
                    ));
                }
            }
        }
    }
    e.notes.push(format!("all {} texts of at most 4 of the tokens {SHORT:?}, alone and as a value in an object, in 3 modes", texts.len()));
    // The known finding: unescaped control characters
    let mut accepted = 0;
    for c in 0..0x20u8 {
        let t = Text::new(format!("\"a{}b\"", c as char));
        e.evaluations += 1;
        if text::read(&t, Source::Str, false, |v| read_any(v, Mode::Stream)).is_ok() {
            accepted += 1;
        }
    }
    if accepted > 0 {
        e.known.push(format!(
            "the strict configuration accepts strings with unescaped control characters ({accepted} of the texts \"a<U+0000..U+001F>b\")"
        ));
    }
    Ok(())
}

fn c04(src: &mut Src) -> CheckResult {
    let how = src.weighted(&[3, 2, 3]);
    let node = {
        let distinct = how == 1 || src.chance(3, 4);
        dom::gen_node(src, dom::GenOpts { depth: 3, distinct_keys: distinct, big: how != 2 })
    };
    let (printed, count) = dom::print_counting(src, &node, dom::Style::COMMENTS);
    if count > 0 {
        src.nontrivial();
    }
    match how {
        0 => {
            // Accepted with the same value when allowed, and rejected when not
            src.class("document with comments");
            let mode = gen_mode(src);
            judge(src, &printed, true, mode)?;
            if count > 0 {
                let text = Text::new(printed);
                let source = gen_source(src);
                for mode in [Mode::Stream, Mode::Buffer, Mode::Skip] {
                    src.sub_evals += 1;
                    let r = guard(|| text::read(&text, source, false, |v| read_any(v, mode)))
                        .map_err(|c| c.describe())?;
                    if let Ok(any) = r {
                        return Err(format!("the strict configuration accepted a text with comments ({mode:?}) as {any:?}"));
                    }
                }
            }
            Ok(())
        }
        1 => {
            // The entries are read in any order, and values are skipped
            src.class("history of reads over a document with comments");
            let text = Text::new(printed);
            let doc = dom::parse(&text.chars, true).expect("the printed document is valid");
            assert!(doc.strip() == node);
            let source = gen_source(src);
            src.ident(text.str.as_bytes());
            src.note(|| format!("{source:?} text={}", text.str));
            machine::walk(src, &text, &doc, source, true, Profile { skip: 6, partial: 6, wrong: 0, rest: true })?;
            Ok(())
        }
        _ => {
            src.class("edited document with comments");
            let edited = edit(src, printed, true);
            src.nontrivial();
            let mode = gen_mode(src);
            judge(src, &edited, true, mode)?;
            // The same text without the permission
            let text = Text::new(edited);
            let expect = dom::parse(&text.chars, false).is_ok();
            let got = guard(|| text::read(&text, Source::Str, false, |v| read_any(v, mode)))
                .map_err(|c| c.describe())?;
            if expect != got.is_ok() {
                return Err(format!("strict verdict: expected valid = {expect}, got {:?}", got.map_err(|e| text::show_err(&text, &e))));
            }
            Ok(())
        }
    }
}

fn c12(src: &mut Src) -> CheckResult {
    let target = catalog::gen_target(src);
    let ty = target.ty();
    let mut info = DocInfo::default();
    let node = model::gen_doc(src, ty, DocOpts { break_it: false, big: true }, &mut info);
    let comments = src.chance(1, 4);
    let style = dom::Style::random(src, comments);
    let base = dom::print(src, &node, style);
    let chars: Vec<char> = base.chars().collect();
    let how = src.weighted(&[4, 4, 2]);
    let changed: String = match how {
        0 => {
            src.class("cut short");
            let at = if src.chance(1, 2) {
                src.idx(chars.len())
            } else {
                chars.len() - 1 - src.idx(chars.len().min(6))
            };
            chars[..at].iter().collect()
        }
        1 => {
            src.class("continued");
            let gap = src.pick(&["", " ", "\n", "\t\r\n "]);
            let more = match src.weighted(&[4, 2, 2]) {
                0 => TOKENS[src.idx(TOKENS.len())].to_string(),
                1 => base.clone(),
                _ => dom::gen_char(src).to_string(),
            };
            format!("{base}{gap}{more}")
        }
        _ => {
            src.class("surrounded by whitespace");
            let mut ws = || -> String { (0..src.idx(5)).map(|_| src.choose(&[' ', '\n', '\r', '\t'])).collect() };
            let (a, b) = (ws(), ws());
            format!("{a}{base}{b}")
        }
    };
    let text = Text::new(changed);
    let source = gen_source(src);
    src.ident(text.str.as_bytes());
    src.note(|| format!("{source:?} as {} text={}", target.describe(), text.str));
    let whole = dom::parse(&chars, comments).unwrap_or_else(|e| panic!("the printed document is not valid at {e}: {base}"));
    if model::ref_de(ty, &whole).is_ok() && text.chars[..] != chars[..] {
        src.nontrivial();
    }
    let expect = dom::parse(&text.chars, comments);
    if expect == Err(dom::UNSPECIFIED) {
        return Ok(());
    }
    let got = guard(|| text::read(&text, source, comments, |v| target.de(v))).map_err(|c| c.describe())?;
    match (expect, got) {
        (Err(_), Err(_)) => {
            src.class("rejected");
            Ok(())
        }
        (Err(at), Ok(v)) => Err(format!("a text that is not a document at offset {at} was accepted as {v:?}")),
        (Ok(node), got) => {
            src.class("still a document");
            match (model::ref_de(ty, &node), got) {
                (Ok(e), Ok(g)) if e == g => Ok(()),
                (Ok(e), Ok(g)) => Err(format!("expected {e:?}, got {g:?}")),
                (Ok(_), Err(e)) => Err(format!("rejected: {}", text::show_err(&text, &e))),
                (Err(_), Err(_)) => Ok(()),
                (Err(e), Ok(_)) if e.open => Ok(()),
                (Err(e), Ok(g)) => Err(format!("expected the error {e:?}, got {g:?}")),
            }
        }
    }
}
