//! C25: how much memory reading and writing take.

use super::*;
use crate::catalog::{self, Target};
use crate::dom::{GenOpts, Node, Style};
use crate::dynamic;
use crate::engine::CheckResult;
use crate::io::Text;
use crate::mem;
use crate::model::{self, Dv, Ty};
use crate::text::{ekind, show_err};
use serdere::{Deserializer, List, Outliner, TextWriter};
use serdere_json::{JsonDeserializer, JsonOutliner, Object, TextDeserializer, TextSerializer, TextSerializerConfig, ValueSerialierExt};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "a document in which a part is repeated a few times, and many times, read (typed, raw or skipping, in the order it is written) or written in the same way: the most memory held must be the same. Or a document which is buffered: the most memory held must be in proportion. Non-trivial: the repeated part is a collection or a string of more than three characters, or the buffered document has more than two values",
        check: c25,
        quick: 60_000,
        thorough: 700_000,
        extra: None,
    }]
}

/// How the repeated parts are read.
enum Unit {
    Skip,
    /// By the shape the part has, with the given choices of what is skipped.
    Raw(u64),
    Typed(Target),
}

/// What the parts are in.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Holder {
    Array,
    Object,
    /// Arrays of three parts, in an array.
    Groups,
    /// Objects with one part each, in an array.
    Boxes,
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    holder: Holder,
    /// Are items demanded, rather than asked for?
    demand: bool,
    /// Is the key of each entry read, for an object?
    keys: bool,
}

/// Allowance for whatever does not grow with the document.
const SLACK: usize = 512;

/// The text of a document holding the part `n` times.
fn text_of(part: &str, n: usize, plan: Plan, gap: &str) -> String {
    let mut s = String::new();
    let (open, close) = if plan.holder == Holder::Object { ('{', '}') } else { ('[', ']') };
    s.push_str("{\"head\": [1, null], \"parts\":");
    s.push(open);
    for i in 0..n {
        if i > 0 {
            s.push_str(gap);
            s.push(',');
        }
        s.push_str(gap);
        match plan.holder {
            Holder::Array => s.push_str(part),
            Holder::Object => {
                s.push_str(&format!("\"key{i:07}\":"));
                s.push_str(part);
            }
            Holder::Groups => {
                s.push('[');
                for j in 0..3 {
                    if j > 0 {
                        s.push(',');
                    }
                    s.push_str(part);
                }
                s.push(']');
            }
            Holder::Boxes => {
                s.push_str("{\"part\":");
                s.push_str(part);
                s.push('}');
            }
        }
    }
    s.push_str(gap);
    s.push(close);
    s.push_str(", \"tail\": \"end\"}");
    s
}

fn read_part<'a>(value: Value<'_, De<'a>>, node: &Node, unit: &Unit) -> Result<(), DErr<'a>> {
    match unit {
        Unit::Skip => value.skip(),
        Unit::Raw(s) => read_raw(value, node, *s),
        Unit::Typed(t) => t.de(value).map(drop),
    }
}

/// Reads a value in the order it is written, leaving out some of it.
fn read_raw<'a>(value: Value<'_, De<'a>>, node: &Node, s: u64) -> Result<(), DErr<'a>> {
    let r = crate::engine::mix(s);
    if r % 8 == 0 {
        return value.skip();
    }
    match node {
        Node::Null => value.into_null(),
        Node::Bool(_) => value.get_bool().map(drop),
        Node::Num(_) if r % 3 == 0 => value.get_f32().map(drop),
        Node::Num(_) => value.get_f64().map(drop),
        Node::Str(_) if r % 3 == 0 => {
            // Read a little of it
            let (d, done) = value.into_raw();
            d.open_str()?;
            if d.next_char()?.is_some() {
                d.skip_str()?;
            }
            *done = true;
            Ok(())
        }
        Node::Str(_) => value.get_str().map(drop),
        Node::Arr(items) => {
            if r % 5 == 0 {
                let mut c = value.into_collection()?;
                let mut i = 0;
                while let Some(item) = c.next()? {
                    read_raw(item, &items[i], r.wrapping_add(i as u64))?;
                    i += 1;
                }
                return Ok(());
            }
            let mut list = value.into_list()?;
            if r % 5 == 1 {
                for (i, n) in items.iter().enumerate() {
                    read_raw(list.push()?, n, r.wrapping_add(i as u64))?;
                }
                return list.close();
            }
            let mut i = 0;
            while let Some(item) = list.next()? {
                read_raw(item, &items[i], r.wrapping_add(i as u64))?;
                i += 1;
            }
            Ok(())
        }
        Node::Obj(entries) => {
            if r % 5 == 0 {
                // By name, in order, perhaps without the last ones
                let n = if r % 7 == 0 { entries.len() / 2 } else { entries.len() };
                let (d, done) = value.into_raw();
                d.open_object()?;
                for (i, (k, n)) in entries[..n].iter().enumerate() {
                    let mut ready = false;
                    d.push_entry(k)?;
                    read_raw(Value::new(d, &mut ready), n, r.wrapping_add(i as u64))?;
                }
                if n < entries.len() {
                    d.skip_object()?;
                } else {
                    d.close_object()?;
                }
                *done = true;
                return Ok(());
            }
            let mut obj = value.into_object()?;
            let mut i = 0;
            while i < entries.len() {
                let r = r.wrapping_add(i as u64);
                if crate::engine::mix(r) % 2 == 0 {
                    match obj.try_entry(&entries[i].0)? {
                        Some(v) => read_raw(v, &entries[i].1, r)?,
                        None => crate::engine::protocol_broken(format!("the next entry, {:?}, is not found", entries[i].0)),
                    }
                } else {
                    match obj.next_entry()? {
                        Some(mut e) => {
                            if r % 2 == 0 {
                                e.key()?;
                            }
                            read_raw(e.value()?, &entries[i].1, r)?;
                        }
                        None => crate::engine::protocol_broken("an entry is not found"),
                    }
                }
                i += 1;
            }
            obj.close()
        }
    }
}

fn read_list<'a>(
    mut list: List<'_, De<'a>>,
    n: usize,
    demand: bool,
    mut f: impl FnMut(Value<'_, De<'a>>) -> Result<(), DErr<'a>>,
) -> Result<(), DErr<'a>> {
    if demand {
        for _ in 0..n {
            f(list.push()?)?;
        }
        list.close()
    } else {
        while let Some(item) = list.next()? {
            f(item)?;
        }
        Ok(())
    }
}

fn read_parts<'a>(value: Value<'_, De<'a>>, n: usize, node: &Node, unit: &Unit, plan: Plan) -> Result<(), DErr<'a>> {
    match plan.holder {
        Holder::Array => read_list(value.into_list()?, n, plan.demand, |v| read_part(v, node, unit)),
        Holder::Groups => read_list(value.into_list()?, n, plan.demand, |v| {
            read_list(v.into_list()?, 3, plan.demand, |v| read_part(v, node, unit))
        }),
        Holder::Boxes => read_list(value.into_list()?, n, plan.demand, |v| {
            let mut o = v.into_object()?;
            read_part(o.entry("part")?, node, unit)?;
            o.close()
        }),
        Holder::Object => {
            let mut o: Object<De> = value.into_object()?;
            if plan.demand {
                for i in 0..n {
                    read_part(o.entry(&format!("key{i:07}"))?, node, unit)?;
                }
                return o.close();
            }
            while let Some(mut e) = o.next_entry()? {
                if plan.keys {
                    e.key()?;
                }
                read_part(e.value()?, node, unit)?;
            }
            Ok(())
        }
    }
}

/// Reads the document, returning how much memory this took.
fn read_doc(text: &Text, source: Source, comments: bool, n: usize, node: &Node, unit: &Unit, plan: Plan) -> Result<usize, String> {
    let reader = text.open(source);
    let (r, peak) = mem::peak(|| -> Result<(), DErr> {
        let mut d = TextDeserializer::new(crate::text::config(comments), reader)?;
        Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            o.entry("head")?.skip()?;
            read_parts(o.entry("parts")?, n, node, unit, plan)?;
            o.entry("tail")?.get_str()?;
            o.close()
        })?;
        d.close()
    });
    r.map_err(|e| format!("reading fails: {:?} {}", ekind(&e), show_err(text, &e)))?;
    Ok(peak)
}

// ------------------------------------------------------------------------------------------------
// Writing

/// Keeps nothing of what is written.
struct Null(u64);

impl TextWriter for Null {
    type Error = std::convert::Infallible;
    fn write_char(&mut self, _: char) -> Result<(), Self::Error> {
        self.0 += 1;
        Ok(())
    }
    fn write_str(&mut self, s: &str) -> Result<(), Self::Error> {
        self.0 += s.len() as u64;
        Ok(())
    }
}

fn write_doc(ty: &'static Ty, v: &Dv, n: usize, indent: Option<&'static str>, plan: Plan) -> usize {
    let (_, peak) = mem::peak(|| {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, Null(0));
        let done = Value::with(&mut s, |value| match plan.holder {
            Holder::Object => {
                let mut o = value.into_object()?;
                for i in 0..n {
                    dynamic::ser(ty, v, o.entry(&format!("key{i:07}"))?, &mut ())?;
                }
                o.close()
            }
            _ => {
                let mut l = if plan.demand { value.into_list_sized(n)? } else { value.into_list_streaming()? };
                for _ in 0..n {
                    match plan.holder {
                        Holder::Array => dynamic::ser(ty, v, l.push()?, &mut ())?,
                        Holder::Groups => {
                            let mut g = l.push()?.into_tuple(None)?;
                            for _ in 0..3 {
                                dynamic::ser(ty, v, g.element()?, &mut ())?;
                            }
                            g.close()?;
                        }
                        _ => {
                            let mut st = l.push()?.into_struct(Some("Box"))?;
                            dynamic::ser(ty, v, st.field("part")?, &mut ())?;
                            st.close()?;
                        }
                    }
                }
                l.close()
            }
        });
        match done {
            Ok(()) => s.close().0,
            Err(e) => match e {},
        }
    });
    peak
}

// ------------------------------------------------------------------------------------------------

/// How much memory buffering a character of text may take.
const PER_CHAR: usize = 400;

fn c25(src: &mut Src) -> CheckResult {
    if src.chance(1, 8) {
        return buffered(src);
    }
    let typed = src.chance(1, 2);
    let plan = Plan {
        holder: src.choose(&[Holder::Array, Holder::Object, Holder::Groups, Holder::Boxes]),
        demand: src.chance(1, 2),
        keys: src.chance(1, 2),
    };
    if typed && src.chance(1, 4) {
        return writing(src, plan);
    }
    let (node, unit) = if typed {
        let target = catalog::gen_target(src);
        let v = model::gen_value(src, target.ty(), false);
        (model::encode(target.ty(), &v), Unit::Typed(target))
    } else {
        let node = dom::gen_node(src, GenOpts { depth: 3, distinct_keys: true, big: false });
        let unit = if src.chance(1, 4) { Unit::Skip } else { Unit::Raw(src.u64()) };
        (node, unit)
    };
    let comments = src.chance(1, 3);
    let style = Style::random(src, comments);
    let part = dom::print(src, &node, style);
    let gap = if src.chance(1, 3) { src.choose(&["\n", "  ", "\t"]) } else { "" };
    let source = gen_source(src);
    src.ident(part.as_bytes());
    let many = (60_000 / (part.len() + 12)).clamp(48, 1500);
    let few = 3;
    src.note(|| {
        let how = match &unit {
            Unit::Skip => "skipped".into(),
            Unit::Raw(s) => format!("read in order ({s})"),
            Unit::Typed(t) => format!("read as {}", t.describe()),
        };
        format!("{part} {few} and {many} times in {plan:?}, {how}, {source:?} comments={comments}")
    });
    if part.len() > 3 && !matches!(node, Node::Num(_) | Node::Bool(_) | Node::Null) {
        src.nontrivial();
    }
    src.class(match unit {
        Unit::Skip => "skipped",
        Unit::Raw(_) => "raw",
        Unit::Typed(_) => "typed",
    });
    let small = Text::new(text_of(&part, few, plan, gap));
    let large = Text::new(text_of(&part, many, plan, gap));
    let a = read_doc(&small, source, comments, few, &node, &unit, plan)?;
    let b = read_doc(&large, source, comments, many, &node, &unit, plan)?;
    if b > a + SLACK {
        return Err(format!("reading {few} parts takes {a} bytes of memory and {many} of the same take {b}"));
    }
    Ok(())
}

fn writing(src: &mut Src, plan: Plan) -> CheckResult {
    let ty = model::gen_ty(src, 3);
    let v = model::gen_value(src, ty, false);
    let indent = src.choose(crate::text::INDENTS);
    src.ident(format!("{v:?}").as_bytes());
    src.note(|| format!("{v:?} of {} written 3 and 400 times in {plan:?}, indent {indent:?}", ty.describe()));
    src.nontrivial();
    src.class("written");
    let a = write_doc(ty, &v, 3, indent, plan);
    let b = write_doc(ty, &v, 400, indent, plan);
    if b > a + SLACK {
        return Err(format!("writing 3 parts takes {a} bytes of memory and 400 of the same take {b}"));
    }
    Ok(())
}

/// Whatever is read before its time takes memory in proportion to its text.
fn buffered(src: &mut Src) -> CheckResult {
    let node = gen_any_node(src);
    let comments = src.chance(1, 3);
    let style = Style::random(src, comments);
    let part = dom::print(src, &node, style);
    let n = src.choose(&[1usize, 1, 30, 300]);
    let n = n.min(20_000 / (part.len() + 1) + 1);
    let nest = src.choose(&[0usize, 0, 0, 3, 30, 1000]);
    let name = "a".repeat(src.choose(&[1usize, 1, 1, 20, 2000]));
    let mut s = format!("{{\"{name}\": [");
    s.extend(std::iter::repeat_n("[", nest));
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&part);
    }
    s.extend(std::iter::repeat_n("]", nest));
    s.push_str("], \"b\": 1}");
    let text = Text::new(s);
    let source = gen_source(src);
    let how = src.u64();
    src.ident(text.str.as_bytes());
    src.note(|| format!("{part} {n} times in {nest} lists, under a key of {} characters, buffered, then read ({how}), {source:?} comments={comments}", name.len()));
    if part.len() > 8 || n > 1 {
        src.nontrivial();
    }
    src.class("buffered");
    let distinct = !has_duplicates(&dom::parse(&part.chars().collect::<Vec<_>>(), comments).expect("valid"));
    let reader = text.open(source);
    let (r, peak) = mem::peak(|| -> Result<(), DErr> {
        let mut d = TextDeserializer::new(crate::text::config(comments), reader)?;
        Value::with(&mut d, |v| {
            let mut o = v.into_object()?;
            o.entry("b")?.get_u8()?;
            let a = o.entry(&name)?;
            if distinct && nest == 0 && how % 4 != 0 {
                let mut i = 0;
                let mut l = a.into_list()?;
                while let Some(item) = l.next()? {
                    read_raw(item, &node, how.wrapping_add(i % 4))?;
                    i += 1;
                }
            } else {
                a.skip()?;
            }
            o.close()
        })?;
        d.close()
    });
    r.map_err(|e| format!("reading fails: {:?} {}", ekind(&e), show_err(&text, &e)))?;
    let most = PER_CHAR * text.str.len() + 4096;
    if std::env::var("VERIF_SHOW_MEM").is_ok() {
        eprintln!("{} {}", text.str.len(), peak);
    }
    if peak > most {
        return Err(format!("reading {} bytes of text takes {peak} bytes of memory", text.str.len()));
    }
    Ok(())
}
