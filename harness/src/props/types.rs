//! C09, C10 and C15: documents read as types, against a reference reader.

use super::*;
use crate::catalog::{self, Target};
use crate::engine::{guard, CheckResult};
use crate::io::Text;
use crate::model::{self, Dv, DocInfo, DocOpts, ErrKind, RefErr, Ty};
use crate::text::{self, ekind, EKind};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "a random struct type and a document for it: entries in any order, with other entries, missing and null fields, as an object or as an array, fitting or not, read streamed or from a buffer. Non-trivial: fields out of order, missing or null, other entries, or the array form",
            check: c09,
            quick: 1_200_000,
            thorough: 25_000_000,
            extra: None,
        },
        Prop {
            id: "C10",
            rule: "a random tag or enum type and a document for it: tags by name or index, anywhere in the object, right or wrong; and the tag which a value is written with. Non-trivial: the tag is an index, is not the first entry, or is wrong",
            check: c10,
            quick: 1_200_000,
            thorough: 25_000_000,
            extra: None,
        },
        Prop {
            id: "C15",
            rule: "a random type and a document for it with one or more mistakes, or a document of any shape in which one value is rejected by the caller or in which entries, items or kinds of values are demanded that are not there, read streamed or from a buffer. Non-trivial: the document does not fit, and the error is not at its first character",
            check: c15,
            quick: 1_200_000,
            thorough: 25_000_000,
            extra: None,
        },
    ]
}

/// Where the document that is read stands in the text.
#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum Place {
    Top,
    Item,
    Entry,
    /// In an object which was buffered because another entry was asked for first.
    Buffered,
    /// Deeper in a buffered object.
    BufferedDeep,
    /// In an array in a buffered object.
    BufferedItem,
}

pub(super) fn gen_place(src: &mut Src) -> Place {
    [Place::Top, Place::Item, Place::Entry, Place::Buffered, Place::BufferedDeep, Place::BufferedItem]
        [src.weighted(&[4, 1, 2, 3, 2, 2])]
}

impl Place {
    /// Is the document buffered before it is read?
    pub(super) fn buffered(self) -> bool {
        matches!(self, Place::Buffered | Place::BufferedDeep | Place::BufferedItem)
    }

    /// The text around a document.
    pub(super) fn wrap_text(self, doc: &str) -> String {
        match self {
            Place::Top => doc.to_string(),
            Place::Item => format!("[0, {doc}, true]"),
            Place::Entry => format!("{{\"before\": 0, \"here\": {doc}, \"after\": \"x\"}}"),
            Place::Buffered => format!("{{\"here\": {doc},\"first\":0}}"),
            Place::BufferedDeep => {
                format!("{{\"skip\":[0],\"a\": {{\"b\":{{\"here\":{doc}, \"z\":null}} }},\"first\":0}}")
            }
            Place::BufferedItem => format!("{{\"a\":[0,{doc},\"y\"], \"first\" : 0 }}"),
        }
    }

    pub(super) fn wrap(self, node: Node) -> Node {
        let key = |s: &str| s.to_string();
        let zero = || Node::Num("0".into());
        match self {
            Place::Top => node,
            Place::Item => Node::Arr(vec![zero(), node, Node::Bool(true)]),
            Place::Entry => Node::Obj(vec![(key("before"), zero()), (key("here"), node), (key("after"), Node::Str(key("x")))]),
            Place::Buffered => Node::Obj(vec![(key("here"), node), (key("first"), zero())]),
            Place::BufferedDeep => Node::Obj(vec![
                (key("skip"), Node::Arr(vec![zero()])),
                (key("a"), Node::Obj(vec![(key("b"), Node::Obj(vec![(key("here"), node), (key("z"), Node::Null)]))])),
                (key("first"), zero()),
            ]),
            Place::BufferedItem => Node::Obj(vec![
                (key("a"), Node::Arr(vec![zero(), node, Node::Str(key("y"))])),
                (key("first"), zero()),
            ]),
        }
    }

    pub(super) fn find(self, doc: &SNode) -> &SNode {
        fn entry<'a>(n: &'a SNode, k: &str) -> &'a SNode {
            let SVal::Obj(o) = &n.v else { panic!("not an object") };
            &o.iter().find(|e| e.0 == k).expect("an entry of the wrapper").1
        }
        fn item(n: &SNode, i: usize) -> &SNode {
            let SVal::Arr(a) = &n.v else { panic!("not an array") };
            &a[i]
        }
        match self {
            Place::Top => doc,
            Place::Item => item(doc, 1),
            Place::Entry | Place::Buffered => entry(doc, "here"),
            Place::BufferedDeep => entry(entry(entry(doc, "a"), "b"), "here"),
            Place::BufferedItem => item(entry(doc, "a"), 1),
        }
    }

    /// Reads the rest of the text around the document, and the document with the given function.
    pub(super) fn read<'a, R>(
        self,
        value: Value<'_, De<'a>>,
        f: impl FnOnce(Value<'_, De<'a>>) -> Result<R, DErr<'a>>,
    ) -> Result<R, DErr<'a>> {
        match self {
            Place::Top => f(value),
            Place::Item => {
                let mut l = value.into_list()?;
                l.push()?.skip()?;
                let r = f(l.push()?)?;
                l.push()?.skip()?;
                l.close()?;
                Ok(r)
            }
            Place::Entry => {
                let mut o = value.into_object()?;
                o.entry("before")?.skip()?;
                let r = f(o.entry("here")?)?;
                o.entry("after")?.skip()?;
                o.close()?;
                Ok(r)
            }
            Place::Buffered => {
                let mut o = value.into_object()?;
                o.entry("first")?.skip()?;
                let r = f(o.entry("here")?)?;
                o.close()?;
                Ok(r)
            }
            Place::BufferedDeep => {
                let mut o = value.into_object()?;
                o.entry("first")?.skip()?;
                let mut a = o.entry("a")?.into_object()?;
                let mut b = a.entry("b")?.into_object()?;
                let r = f(b.entry("here")?)?;
                b.entry("z")?.into_null()?;
                b.close()?;
                a.close()?;
                o.entry("skip")?.skip()?;
                o.close()?;
                Ok(r)
            }
            Place::BufferedItem => {
                let mut o = value.into_object()?;
                o.entry("first")?.skip()?;
                let mut l = o.entry("a")?.into_list()?;
                l.push()?.skip()?;
                let r = f(l.push()?)?;
                l.push()?.skip()?;
                l.close()?;
                o.close()?;
                Ok(r)
            }
        }
    }
}

/// Does an error say what the reference reader says?
fn same_error(text: &Text, got: &DErr, expect: &RefErr) -> CheckResult {
    if same_kind(&expect.kind, &ekind(got)) && text.is_at(got.position(), expect.pos) {
        in_words(got)
    } else {
        Err(format!("expected the error {expect:?}, got {}", text::show_err(text, got)))
    }
}

/// Is an error the kind which the reference reader says?
pub(super) fn same_kind(expect: &ErrKind, got: &EKind) -> bool {
    let sorted = |v: &[&'static str]| {
        let mut v = v.to_vec();
        v.sort_unstable();
        v
    };
    match (expect, got) {
        (ErrKind::Expected(a), EKind::Expected(b)) => sorted(a) == sorted(b),
        (ErrKind::NumberOverflow, EKind::NumberOverflow) => true,
        (ErrKind::MissingKey(a), EKind::MissingKey(b)) => a == b,
        (ErrKind::ExtraKey(a), EKind::ExtraKey(b)) => a == b,
        (ErrKind::MissingItems, EKind::MissingItems) => true,
        (ErrKind::ExcessItems, EKind::ExcessItems) => true,
        (ErrKind::Custom, EKind::Custom(_)) => true,
        _ => false,
    }
}

/// Does the text of an error say what the error says?
fn in_words(got: &DErr) -> CheckResult {
    let text = guard(|| got.to_string()).map_err(|c| c.describe())?;
    let mut parts = match ekind(got) {
        EKind::Expected(types) => types.iter().map(|t| t.to_string()).collect(),
        EKind::MissingKey(k) | EKind::ExtraKey(k) => vec![format!("{k:?}")],
        EKind::Custom(c) => {
            match std::error::Error::source(got) {
                Some(s) if s.to_string() == c => (),
                other => return Err(format!("the source of the error {text} is {other:?}, not {c:?}")),
            }
            vec![c]
        }
        _ => vec![],
    };
    if let crate::io::AnyPos::Lc(p) = got.position() {
        parts.push(format!("line {}, column {}", p.line + 1, p.column + 1));
    }
    match parts.iter().find(|p| !text.contains(*p)) {
        Some(p) => Err(format!("the text of the error does not have {p:?}: {text}")),
        None => Ok(()),
    }
}

pub(super) struct Fit {
    pub(super) expect: Result<Dv, RefErr>,
    pub(super) place: Place,
}

/// Reads a document as a type, and compares the result with the reference reader's. Returns what
/// was expected.
pub(super) fn fit(src: &mut Src, target: &Target, node: Node, broken: bool, errors: bool) -> Result<Option<Fit>, String> {
    let place = gen_place(src);
    let comments = src.chance(1, 6);
    let style = dom::Style::random(src, comments);
    let printed = dom::print(src, &place.wrap(node), style);
    let source = gen_source(src);
    let text = Text::new(printed);
    src.ident(text.str.as_bytes());
    src.ident(target.describe().as_bytes());
    src.note(|| format!("{source:?} {place:?} as {} text={}", target.describe(), text.str));
    let doc = dom::parse(&text.chars, comments).unwrap_or_else(|e| panic!("the printed document is not valid at {e}: {}", text.str));
    let here = place.find(&doc);
    // In documents which fit, only values that are not read have duplicates.
    if broken && has_duplicates(here) {
        src.class("left out: an object with the same key twice");
        return Ok(None);
    }
    let expect = model::ref_de(target.ty(), here);
    let got = guard(|| text::read(&text, source, comments, |v| place.read(v, |v| target.de(v)))).map_err(|c| c.describe())?;
    src.class(match place {
        Place::Top | Place::Item | Place::Entry => "streamed",
        _ => "buffered",
    });
    match (&expect, &got) {
        (Ok(e), Ok(g)) if e == g => src.class("fits"),
        (Ok(e), Ok(g)) => return Err(format!("expected {e:?}, got {g:?}")),
        (Ok(e), Err(g)) => return Err(format!("expected {e:?}, got the error {}", text::show_err(&text, g))),
        (Err(e), _) if e.open => src.class("an open verdict"),
        (Err(e), Ok(g)) => return Err(format!("expected the error {e:?}, got {g:?}")),
        (Err(e), Err(g)) => {
            src.class(match e.kind {
                ErrKind::Expected(_) => "expected another type",
                ErrKind::NumberOverflow => "number overflow",
                ErrKind::MissingKey(_) => "missing key",
                ErrKind::ExtraKey(_) => "extra key",
                ErrKind::MissingItems => "missing items",
                ErrKind::ExcessItems => "excess items",
                ErrKind::Custom => "custom error",
            });
            if errors {
                same_error(&text, g, e)?;
            }
        }
    }
    Ok(Some(Fit { expect, place }))
}

fn c09(src: &mut Src) -> CheckResult {
    let target = loop {
        let t = catalog::gen_named_target(src);
        if matches!(t.ty(), Ty::Struct(_)) {
            break t;
        }
        // Random choices can run out while shrinking
        if src.trace.len() > 400 {
            return Ok(());
        }
    };
    let mut info = DocInfo::default();
    let break_it = src.chance(1, 3);
    let node = model::gen_doc(src, target.ty(), DocOpts { break_it, big: true }, &mut info);
    if info.reordered || info.extra || info.missing || info.null || info.positional {
        src.nontrivial();
    }
    for (on, class) in [
        (info.reordered, "reordered"),
        (info.extra, "other entries"),
        (info.missing, "missing"),
        (info.null, "null"),
        (info.positional, "array form"),
    ] {
        if on {
            src.class(class);
        }
    }
    fit(src, &target, node, break_it, false)?;
    Ok(())
}

fn c10(src: &mut Src) -> CheckResult {
    let target = loop {
        let t = match src.idx(3) {
            0 => Target::Dynamic(model::keep(Ty::Tag(model::gen_tags(src)))),
            1 => catalog::gen_named_target(src),
            _ => {
                let all = catalog::all();
                Target::Static(&all[src.idx(all.len())])
            }
        };
        if matches!(t.ty(), Ty::Enum(_) | Ty::Tag(_)) {
            break t;
        }
        if src.trace.len() > 400 {
            return Ok(());
        }
    };
    let tags = match target.ty() {
        Ty::Enum(e) => e.tags,
        Ty::Tag(t) => t,
        _ => unreachable!(),
    };
    if src.chance(1, 4) {
        // What is written
        src.class("written");
        let v = model::gen_value(src, target.ty(), false);
        let Dv::Var(i, _) = &v else { panic!("not a variant: {v:?}") };
        let name = tags.variants[*i].0;
        let indent = src.choose(text::INDENTS);
        src.note(|| format!("{} written with indentation {indent:?}: {v:?}", target.describe()));
        src.ident(format!("{} {v:?}", target.describe()).as_bytes());
        src.nontrivial();
        let out = guard(|| text::write_string(indent, |w| target.ser(&v, w))).map_err(|c| c.describe())??;
        let chars: Vec<char> = out.chars().collect();
        let doc = dom::parse(&chars, false).map_err(|e| format!("the output is not JSON at {e}: {out}"))?;
        let tag = match (&doc.v, target.ty()) {
            (SVal::Obj(o), Ty::Enum(e)) => o.iter().find(|x| x.0 == e.tag).map(|x| &x.1),
            _ => Some(&doc),
        };
        return match tag {
            Some(SNode { v: SVal::Str(s), .. }) if s == name => Ok(()),
            other => Err(format!("the tag is written as {other:?}, not as {name:?}: {out}")),
        };
    }
    let mut info = DocInfo::default();
    let break_it = src.chance(1, 2);
    let node = model::gen_doc(src, target.ty(), DocOpts { break_it, big: true }, &mut info);
    let first = match (&node, target.ty()) {
        (Node::Obj(o), Ty::Enum(e)) => o.first().map_or(true, |x| x.0 == e.tag),
        _ => true,
    };
    if info.by_index {
        src.class("tag by index");
    }
    if !first {
        src.class("tag after other entries");
    }
    let f = fit(src, &target, node, break_it, false)?;
    let wrong = f.is_some_and(|f| f.expect.is_err());
    if info.by_index || !first || wrong {
        src.nontrivial();
    }
    Ok(())
}

fn c15(src: &mut Src) -> CheckResult {
    if src.chance(1, 5) {
        return rejected_by_caller(src);
    }
    if src.chance(1, 5) {
        return demanded(src);
    }
    let target = catalog::gen_target(src);
    let mut info = DocInfo::default();
    let node = if src.chance(1, 12) {
        gen_any_node(src)
    } else {
        model::gen_doc(src, target.ty(), DocOpts { break_it: true, big: false }, &mut info)
    };
    if let Some(f) = fit(src, &target, node, true, true)? {
        if let Err(e) = f.expect {
            if !e.open && (e.pos > 0 || f.place != Place::Top) {
                src.nontrivial();
            }
        }
    }
    Ok(())
}

/// Reads a document through the object and list interfaces, demanding entries, items and kinds of
/// values that are not there.
fn demanded(src: &mut Src) -> CheckResult {
    src.class("demanded through the interfaces");
    let o = dom::GenOpts { depth: 4, distinct_keys: true, big: false };
    let node = match src.weighted(&[3, 1]) {
        0 => dom::gen_object(src, o),
        _ => dom::gen_node(src, o),
    };
    let wrong = src.choose(&[2, 4, 8]);
    let s = super::access::run(src, node, crate::machine::Profile { skip: 12, partial: 0, wrong, rest: false })?;
    if s.errors > 0 && s.ops > 1 {
        src.nontrivial();
    }
    Ok(())
}

#[derive(Debug)]
struct Rejected;

impl std::fmt::Display for Rejected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("rejected by the caller")
    }
}

impl std::error::Error for Rejected {}

/// Reads a document of any shape, in which one value is rejected after it has been read.
fn rejected_by_caller(src: &mut Src) -> CheckResult {
    src.class("rejected by the caller");
    let node = dom::gen_node(src, dom::GenOpts { depth: 3, distinct_keys: true, big: false });
    let place = gen_place(src);
    let comments = src.chance(1, 6);
    let style = dom::Style::random(src, comments);
    let printed = dom::print(src, &place.wrap(node), style);
    let source = gen_source(src);
    let mode = match src.weighted(&[2, 2, 2]) {
        0 => Mode::Stream,
        1 => Mode::Buffer,
        _ => Mode::Mixed(src.below(1 << 30)),
    };
    let text = Text::new(printed);
    let doc = dom::parse(&text.chars, comments).unwrap_or_else(|e| panic!("the printed document is not valid at {e}: {}", text.str));
    let here = place.find(&doc);
    let count = values(here);
    let which = src.idx(count);
    src.ident(text.str.as_bytes());
    src.ident(&[which as u8]);
    src.note(|| format!("{source:?} {place:?} {mode:?} value {which} is rejected, text={}", text.str));
    let mut left = which;
    let expect = nth_value(here, &mut left).expect("a value").pos;
    if expect > 0 {
        src.nontrivial();
    }
    let mut left = Some(which);
    let got = guard(|| text::read(&text, source, comments, |v| place.read(v, |v| reject(v, mode, &mut left))))
        .map_err(|c| c.describe())?;
    match got {
        Ok(()) => Err("a custom error was lost".into()),
        Err(e) => {
            let same = ekind(&e) == EKind::Custom(Rejected.to_string());
            if same && text.is_at(e.position(), expect) {
                in_words(&e)
            } else {
                Err(format!("expected the caller's error at offset {expect}, got {}", text::show_err(&text, &e)))
            }
        }
    }
}

fn values(n: &SNode) -> usize {
    1 + match &n.v {
        SVal::Arr(a) => a.iter().map(values).sum(),
        SVal::Obj(o) => o.iter().map(|e| values(&e.1)).sum(),
        _ => 0,
    }
}

fn nth_value<'a>(n: &'a SNode, left: &mut usize) -> Option<&'a SNode> {
    if *left == 0 {
        return Some(n);
    }
    *left -= 1;
    match &n.v {
        SVal::Arr(a) => a.iter().find_map(|x| nth_value(x, left)),
        SVal::Obj(o) => o.iter().find_map(|x| nth_value(&x.1, left)),
        _ => None,
    }
}

/// Reads a value, rejecting the one whose number comes up.
fn reject<'a>(value: Value<'_, De<'a>>, mode: Mode, left: &mut Option<usize>) -> Result<(), DErr<'a>> {
    match left {
        Some(0) => {
            *left = None;
            return value.validate_with(|v| {
                read_any(v, mode)?;
                Ok(Err(Rejected))
            });
        }
        Some(n) => *n -= 1,
        None => (),
    }
    let now = match mode {
        Mode::Mixed(s) if s % 2 == 0 => Mode::Stream,
        m => m,
    };
    match value.ty() {
        ValueType::Array => {
            let mut list = value.into_list()?;
            while let Some(item) = list.next()? {
                reject(item, mode, left)?;
            }
            Ok(())
        }
        ValueType::Object => {
            let mut obj = value.into_object()?;
            if now == Mode::Buffer && obj.try_entry(ABSENT)?.is_some() {
                crate::engine::protocol_broken("an entry with an absent key was found");
            }
            while let Some(e) = obj.next_entry()? {
                reject(e.value()?, mode, left)?;
            }
            Ok(())
        }
        _ => {
            // Values which are accepted may be validated as well
            value.validate_with(|v| {
                read_any(v, Mode::Stream)?;
                Ok(Ok::<(), Rejected>(()))
            })
        }
    }
}
