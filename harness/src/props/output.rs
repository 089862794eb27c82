//! C02 and C19: what is written, and writing to outputs which fail.

use super::values::gen_writer;
use super::*;
use crate::catalog::{self, Target};
use crate::dom::{BigI, IntTy};
use crate::engine::{guard, CheckResult, Extra};
use crate::format::{FormatConfig, TokSer};
use crate::io::{AnyWriter, CallWriter, PlanWrite, WErr, WriteFailure};
use crate::machine::intern;
use crate::model::{self, Dv};
use crate::text::{self, Ser};
use serdere::{Outliner, Serializer, Utf8Writer};
use serdere_json::{JsonOutliner, JsonSerializer, TextSerializer, TextSerializerConfig, ValueSerialierExt};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "a random sequence of calls which writes a document, by the serializer's own interface and by the wrappers, with some indentation to some writer. Non-trivial: a collection is written inside another one",
            check: c02,
            quick: 1_200_000,
            thorough: 30_000_000,
            extra: Some(c02_extra),
        },
        Prop {
            id: "C19",
            rule: "a value, or a random sequence of calls which writes a document, written to outputs which fail at each of several points: a number of calls or of bytes. Non-trivial: the output fails after the first call or byte and before the last",
            check: c19,
            quick: 240_000,
            thorough: 6_000_000,
            extra: None,
        },
    ]
}

// ------------------------------------------------------------------------------------------------
// Scripts

#[derive(Debug, Clone)]
pub enum Piece {
    Char(char),
    Str(String),
}

#[derive(Debug, Clone)]
pub enum Text {
    Whole(String),
    Pieces(Vec<Piece>),
}

impl Text {
    fn text(&self) -> String {
        match self {
            Text::Whole(s) => s.clone(),
            Text::Pieces(p) => {
                let mut out = String::new();
                for p in p {
                    match p {
                        Piece::Char(c) => out.push(*c),
                        Piece::Str(s) => out.push_str(s),
                    }
                }
                out
            }
        }
    }
}

/// How a collection is written.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Form {
    List { sized: bool },
    Tuple(Option<&'static str>),
    Object,
    Struct(Option<&'static str>),
}

#[derive(Debug, Clone)]
pub enum What {
    Null,
    Bool(bool),
    Int(IntTy, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(Text),
    Tag { max: usize, index: usize, name: Option<&'static str> },
    Seq(Form, Vec<Step>),
    Map(Form, Vec<(Text, Step)>),
}

/// What is written, and whether by the serializer's own interface.
#[derive(Debug, Clone)]
pub struct Step {
    raw: bool,
    pub what: What,
}

fn gen_text(src: &mut Src, s: String) -> Text {
    if src.chance(3, 5) {
        return Text::Whole(s);
    }
    let chars: Vec<char> = s.chars().collect();
    let mut pieces = Vec::new();
    let mut i = 0;
    while i < chars.len() {
        if chars.len() < 300 && src.chance(1, 3) {
            pieces.push(Piece::Char(chars[i]));
            i += 1;
        } else {
            let n = if chars.len() < 300 { src.idx(5) } else { src.range(30, 5000) }.min(chars.len() - i);
            pieces.push(Piece::Str(chars[i..i + n].iter().collect()));
            i += n;
            if n == 0 {
                pieces.push(Piece::Char(chars[i]));
                i += 1;
            }
        }
    }
    Text::Pieces(pieces)
}

const INT_TYPES: &[(u32, bool)] =
    &[(8, false), (8, true), (16, false), (16, true), (32, false), (32, true), (64, false), (64, true)];

fn gen_step(src: &mut Src, depth: usize) -> Step {
    let raw = src.chance(1, 2);
    let what = if depth == 0 || src.chance(2, 5) {
        match src.idx(8) {
            0 => What::Null,
            1 => What::Bool(src.chance(1, 2)),
            2 => {
                let (bits, signed) = src.choose(INT_TYPES);
                let t = IntTy { bits, signed };
                What::Int(t, model::gen_int(src, t))
            }
            3 => What::F32(model::gen_f32(src).to_bits()),
            4 => What::F64(model::gen_f64(src).to_bits()),
            5 => What::Char(dom::gen_char(src)),
            6 => {
                let s = dom::gen_string(src, true);
                What::Str(gen_text(src, s))
            }
            _ => {
                let index = src.choose(&[0usize, 1, 7, 255, 256, usize::MAX - 1]);
                let max = index.saturating_add(src.idx(3));
                let s = dom::gen_string(src, false);
                let name = if src.chance(1, 2) { Some(intern(&s)) } else { None };
                What::Tag { max, index, name }
            }
        }
    } else if src.chance(1, 2) {
        let n = if src.chance(1, 100) { src.choose(&[40usize, 130, 260]) } else { src.idx(5) };
        let form = match src.idx(3) {
            0 => Form::List { sized: true },
            1 => Form::List { sized: false },
            _ => Form::Tuple(src.choose(&[None, Some("T"), Some("")])),
        };
        let d = if n > 10 { 0 } else { depth - 1 };
        What::Seq(form, (0..n).map(|_| gen_step(src, d)).collect())
    } else {
        let n = if src.chance(1, 100) { src.choose(&[40usize, 130]) } else { src.idx(5) };
        let form = if src.chance(1, 2) { Form::Object } else { Form::Struct(src.choose(&[None, Some("S"), Some("{")])) };
        let d = if n > 10 { 0 } else { depth - 1 };
        What::Map(
            form,
            (0..n)
                .map(|_| {
                    let k = dom::gen_key(src);
                    let k = match form {
                        Form::Struct(_) => Text::Whole(k),
                        _ => gen_text(src, k),
                    };
                    (k, gen_step(src, d))
                })
                .collect(),
        )
    };
    Step { raw, what }
}

/// Chains of collections, with little in them.
fn gen_chain(src: &mut Src) -> Step {
    let levels = src.range(5, 60);
    let mut s = gen_step(src, 1);
    for _ in 0..levels {
        let raw = src.chance(1, 2);
        let mut items = vec![s];
        if src.chance(1, 4) {
            items.push(gen_step(src, 0));
        }
        if src.chance(1, 4) {
            items.insert(0, gen_step(src, 1));
        }
        let what = if src.chance(1, 2) {
            What::Seq(Form::List { sized: src.chance(1, 2) }, items)
        } else {
            What::Map(Form::Object, items.into_iter().map(|s| (Text::Whole("k".into()), s)).collect())
        };
        s = Step { raw, what };
    }
    s
}

pub fn gen_script(src: &mut Src) -> Step {
    if src.chance(1, 25) {
        gen_chain(src)
    } else {
        gen_step(src, 4)
    }
}

pub fn append(s: &mut Ser, t: &Text) -> Result<(), WErr> {
    match t {
        Text::Whole(t) => s.append_str(t),
        Text::Pieces(p) => {
            for p in p {
                match p {
                    Piece::Char(c) => s.append_char(*c)?,
                    Piece::Str(t) => s.append_str(t)?,
                }
            }
            Ok(())
        }
    }
}

fn put_int(s: &mut Ser, t: IntTy, v: i128) -> Result<(), WErr> {
    match (t.bits, t.signed) {
        (8, false) => s.put_u8(v as u8),
        (8, true) => s.put_i8(v as i8),
        (16, false) => s.put_u16(v as u16),
        (16, true) => s.put_i16(v as i16),
        (32, false) => s.put_u32(v as u32),
        (32, true) => s.put_i32(v as i32),
        (64, false) => s.put_u64(v as u64),
        _ => s.put_i64(v as i64),
    }
}

fn exec(step: &Step, value: Value<Ser>) -> Result<(), WErr> {
    if step.raw {
        let (s, done) = value.into_raw();
        exec_raw(step, s)?;
        *done = true;
        return Ok(());
    }
    match &step.what {
        What::Null => value.into_null(),
        What::Bool(b) => value.put_bool(*b),
        What::Int(t, v) => match (t.bits, t.signed) {
            (8, false) => value.put_u8(*v as u8),
            (8, true) => value.put_i8(*v as i8),
            (16, false) => value.put_u16(*v as u16),
            (16, true) => value.put_i16(*v as i16),
            (32, false) => value.put_u32(*v as u32),
            (32, true) => value.put_i32(*v as i32),
            (64, false) => value.put_u64(*v as u64),
            _ => value.put_i64(*v as i64),
        },
        What::F32(b) => value.put_f32(f32::from_bits(*b)),
        What::F64(b) => value.put_f64(f64::from_bits(*b)),
        What::Char(c) => value.put_char(*c),
        What::Str(Text::Whole(t)) => value.put_str(t),
        What::Str(t) => {
            let (s, done) = value.into_raw();
            s.open_str()?;
            append(s, t)?;
            s.close_str()?;
            *done = true;
            Ok(())
        }
        What::Tag { max, index, name } => value.put_tag(*max, *index, *name),
        What::Seq(Form::Tuple(n), items) => {
            let mut t = value.into_tuple(*n)?;
            for i in items {
                exec(i, t.element()?)?;
            }
            t.close()
        }
        What::Seq(form, items) => {
            let mut l = if *form == (Form::List { sized: true }) {
                value.into_list_sized(items.len())?
            } else {
                value.into_list_streaming()?
            };
            for i in items {
                exec(i, l.push()?)?;
            }
            l.close()
        }
        What::Map(Form::Struct(n), entries) => {
            let mut st = value.into_struct(*n)?;
            for (k, v) in entries {
                exec(v, st.field(intern(&k.text()))?)?;
            }
            st.close()
        }
        What::Map(_, entries) => {
            let mut o = value.into_object()?;
            for (k, v) in entries {
                exec(v, o.entry(&k.text())?)?;
            }
            o.close()
        }
    }
}

fn exec_raw(step: &Step, s: &mut Ser) -> Result<(), WErr> {
    match &step.what {
        What::Null => s.pop_null(),
        What::Bool(b) => s.put_bool(*b),
        What::Int(t, v) => put_int(s, *t, *v),
        What::F32(b) => s.put_f32(f32::from_bits(*b)),
        What::F64(b) => s.put_f64(f64::from_bits(*b)),
        What::Char(c) => s.put_char(*c),
        What::Str(Text::Whole(t)) => s.put_str(t),
        What::Str(t) => {
            s.open_str()?;
            append(s, t)?;
            s.close_str()
        }
        What::Tag { max, index, name } => s.put_tag(*max, *index, *name),
        What::Seq(Form::Tuple(n), items) => {
            s.open_tuple(*n)?;
            for i in items {
                s.push_element()?;
                exec_child(i, s)?;
            }
            s.close_tuple()
        }
        What::Seq(form, items) => {
            if *form == (Form::List { sized: true }) {
                s.open_list_sized(items.len())?;
            } else {
                s.open_list_streaming()?;
            }
            for i in items {
                s.push_item()?;
                exec_child(i, s)?;
            }
            s.close_list()
        }
        What::Map(Form::Struct(n), entries) => {
            s.open_struct(*n)?;
            for (k, v) in entries {
                s.push_field(intern(&k.text()))?;
                exec_child(v, s)?;
            }
            s.close_struct()
        }
        What::Map(_, entries) => {
            s.open_object()?;
            for (k, v) in entries {
                match k {
                    Text::Whole(k) => s.push_entry(k)?,
                    k => {
                        s.add_entry()?;
                        append(s, k)?;
                        s.close_str()?;
                    }
                }
                exec_child(v, s)?;
            }
            s.close_object()
        }
    }
}

pub type Op = Box<dyn Fn(&mut Ser) -> Result<(), WErr>>;

/// The calls of a script one by one, all by the serializer's own interface.
pub fn calls(step: &Step, out: &mut Vec<Op>) {
    let mut op = |f: Op| out.push(f);
    match &step.what {
        What::Seq(Form::Tuple(n), items) => {
            let n = *n;
            op(Box::new(move |s| s.open_tuple(n)));
            for i in items {
                out.push(Box::new(|s| s.push_element()));
                calls(i, out);
            }
            out.push(Box::new(|s| s.close_tuple()));
        }
        What::Seq(form, items) => {
            let (sized, n) = (*form == (Form::List { sized: true }), items.len());
            op(Box::new(move |s| if sized { s.open_list_sized(n) } else { s.open_list_streaming() }));
            for i in items {
                out.push(Box::new(|s| s.push_item()));
                calls(i, out);
            }
            out.push(Box::new(|s| s.close_list()));
        }
        What::Map(form, entries) => {
            let st = if let Form::Struct(n) = form { Some(*n) } else { None };
            op(Box::new(move |s| match st {
                Some(n) => s.open_struct(n),
                None => s.open_object(),
            }));
            for (k, v) in entries {
                match k {
                    Text::Pieces(p) if st.is_none() => {
                        out.push(Box::new(|s| s.add_entry()));
                        pieces(p, out);
                        out.push(Box::new(|s| s.close_str()));
                    }
                    k => {
                        let k = k.text();
                        out.push(Box::new(move |s| if st.is_some() { s.push_field(intern(&k)) } else { s.push_entry(&k) }));
                    }
                }
                calls(v, out);
            }
            out.push(Box::new(move |s| if st.is_some() { s.close_struct() } else { s.close_object() }));
        }
        What::Str(Text::Pieces(p)) => {
            op(Box::new(|s| s.open_str()));
            pieces(p, out);
            out.push(Box::new(|s| s.close_str()));
        }
        _ => {
            let step = step.clone();
            op(Box::new(move |s| exec_raw(&step, s)));
        }
    }
}

fn pieces(p: &[Piece], out: &mut Vec<Op>) {
    for p in p.iter().cloned() {
        out.push(match p {
            Piece::Char(c) => Box::new(move |s| s.append_char(c)),
            Piece::Str(t) => Box::new(move |s| s.append_str(&t)),
        });
    }
}

fn exec_child(step: &Step, s: &mut Ser) -> Result<(), WErr> {
    if step.raw {
        exec_raw(step, s)
    } else {
        Value::with(s, |v| exec(step, v))
    }
}

/// Does a document say what the script writes?
fn says(step: &Step, doc: &SNode) -> CheckResult {
    let wrong = || Err(format!("{:?} is written as {:?}", step.what, doc.v));
    match (&step.what, &doc.v) {
        (What::Null, SVal::Null) => Ok(()),
        (What::Bool(a), SVal::Bool(b)) if a == b => Ok(()),
        (What::Int(t, a), SVal::Num(b)) if dom::int_oracle(b, *t).0 == Some(BigI::from_i(*a)) => Ok(()),
        (What::F32(a), SVal::Num(b)) if dom::float32_oracle(b).to_bits() == *a => Ok(()),
        (What::F64(a), SVal::Num(b)) if dom::float64_oracle(b).to_bits() == *a => Ok(()),
        (What::Char(c), SVal::Str(s)) if s.chars().eq([*c]) => Ok(()),
        (What::Str(t), SVal::Str(s)) if t.text() == *s => Ok(()),
        (What::Tag { name: Some(n), .. }, SVal::Str(s)) if n == s => Ok(()),
        (What::Tag { name: None, index, .. }, SVal::Num(s))
            if dom::int_oracle(s, IntTy { bits: 64, signed: false }).0 == Some(BigI::from_u(*index as u128)) =>
        {
            Ok(())
        }
        (What::Seq(_, a), SVal::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| says(a, b)),
        (What::Map(_, a), SVal::Obj(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| {
            if a.0.text() != b.0 {
                return Err(format!("the key {:?} is written as {:?}", a.0.text(), b.0));
            }
            says(&a.1, &b.1)
        }),
        _ => wrong(),
    }
}

/// The text without the whitespace between tokens. Control characters in strings are an error.
fn squeeze(text: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut in_str = false;
    let mut escaped = false;
    for c in text.chars() {
        if in_str {
            if c < ' ' {
                return Err(format!("a raw {c:?} in a string"));
            }
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                in_str = false;
            }
            out.push(c);
        } else if !matches!(c, ' ' | '\t' | '\r' | '\n') {
            in_str = c == '"';
            out.push(c);
        }
    }
    Ok(out)
}

fn nested(step: &Step) -> bool {
    let inner = |s: &Step| matches!(s.what, What::Seq(..) | What::Map(..));
    match &step.what {
        What::Seq(_, v) => v.iter().any(inner),
        What::Map(_, v) => v.iter().any(|e| inner(&e.1)),
        _ => false,
    }
}

fn run_script(step: &Step, writer: AnyWriter, indent: Option<&'static str>) -> (AnyWriter, Result<(), WErr>) {
    text::write(writer, indent, |w| exec(step, w))
}

fn c02(src: &mut Src) -> CheckResult {
    let step = gen_script(src);
    let indent = src.choose(text::INDENTS);
    let writer = gen_writer(src);
    if nested(&step) {
        src.nontrivial();
    }
    src.class(if indent.is_some() { "indented" } else { "compact" });
    src.ident(format!("{step:?} {indent:?}").as_bytes());
    src.note(|| format!("indentation {indent:?}: {step:?}"));
    let (w, r) = guard(|| run_script(&step, writer, indent)).map_err(|c| c.describe())?;
    r.map_err(|e| format!("writing failed: {e}"))?;
    let out = String::from_utf8(w.into_text()).map_err(|_| "the output is not UTF-8")?;
    let chars: Vec<char> = out.chars().collect();
    let doc = dom::parse(&chars, false).map_err(|e| format!("the output is not JSON at {e}: {out}"))?;
    says(&step, &doc).map_err(|e| format!("{e} in {out}"))?;
    let squeezed = squeeze(&out).map_err(|e| format!("{e} in the output {out:?}"))?;
    // The same with another indentation
    let other = if indent.is_some() { None } else { src.choose(text::INDENTS) };
    let (w, r) = guard(|| run_script(&step, AnyWriter::Str(String::new()), other)).map_err(|c| c.describe())?;
    r.map_err(|e| format!("writing failed: {e}"))?;
    let out2 = String::from_utf8(w.into_text()).map_err(|_| "the output is not UTF-8")?;
    if squeeze(&out2)? != squeezed {
        return Err(format!("indentation {other:?} changes more than whitespace: {out2:?} instead of {out:?}"));
    }
    Ok(())
}

/// Writes many collections in one another, with something before and after them.
fn deep_output(levels: usize, indent: Option<&'static str>, shape: usize) -> CheckResult {
    let object = |i: usize| match shape {
        0 => true,
        1 => false,
        2 => i % 2 == 0,
        _ => i % 3 == 2,
    };
    let before = |i: usize| shape == 2 && i % 5 == 0;
    let after = |i: usize| i % 7 == 3;
    let mut want = String::new();
    for i in 0..levels {
        want.push_str(if object(i) { "{" } else { "[" });
        if before(i) {
            want.push_str(if object(i) { "\"p\":1," } else { "1," });
        }
        if object(i) {
            want.push_str("\"k\":");
        }
    }
    want.push_str("true");
    for i in (0..levels).rev() {
        if after(i) {
            want.push_str(if object(i) { ",\"n\":[]" } else { ",{}" });
        }
        want.push_str(if object(i) { "}" } else { "]" });
    }
    let out = guard(|| {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, String::new());
        let res: Result<(), std::convert::Infallible> = (|| {
            for i in 0..levels {
                let entry = |s: &mut TextSerializer<String>, key: &'static str| match (object(i), i % 4) {
                    (true, 0) => s.push_field(key),
                    (true, _) => s.push_entry(key),
                    (false, 0) => s.push_element(),
                    (false, _) => s.push_item(),
                };
                match (object(i), i % 4) {
                    (true, 0) => s.open_struct(None)?,
                    (true, _) => s.open_object()?,
                    (false, 0) => s.open_tuple(None)?,
                    (false, 1) => s.open_list_sized(1 + before(i) as usize + after(i) as usize)?,
                    (false, _) => s.open_list_streaming()?,
                }
                if before(i) {
                    entry(&mut s, "p")?;
                    s.put_u8(1)?;
                }
                entry(&mut s, "k")?;
            }
            s.put_bool(true)?;
            for i in (0..levels).rev() {
                if after(i) {
                    if object(i) {
                        s.push_entry("n")?;
                        s.open_list_sized(0)?;
                        s.close_list()?;
                    } else {
                        s.push_item()?;
                        s.open_object()?;
                        s.close_object()?;
                    }
                }
                match (object(i), i % 4) {
                    (true, 0) => s.close_struct()?,
                    (true, _) => s.close_object()?,
                    (false, 0) => s.close_tuple()?,
                    (false, _) => s.close_list()?,
                }
            }
            Ok(())
        })();
        match res {
            Ok(()) => s.close(),
            Err(e) => match e {},
        }
    })
    .map_err(|c| c.describe())?;
    // There is no whitespace in the strings
    let mut got = out.chars().filter(|c| !matches!(c, ' ' | '\n' | '\t' | '\r'));
    let mut expected = want.chars();
    let mut i = 0;
    loop {
        match (got.next(), expected.next()) {
            (None, None) => return Ok(()),
            (a, b) if a == b => i += 1,
            (a, b) => return Err(format!("token character {i} is {a:?}, and should be {b:?}")),
        }
    }
}

fn c02_extra(e: &mut Extra) -> CheckResult {
    // Every character of the first two planes' edges, in strings and as a char
    let mut n = 0;
    let mut all: Vec<char> = (0u32..0x3000).filter_map(char::from_u32).collect();
    all.extend((0x3000u32..0x110000).step_by(251).filter_map(char::from_u32));
    for c in all {
        for raw in [false, true] {
            let step = Step {
                raw,
                what: What::Map(
                    Form::Object,
                    vec![(
                        Text::Whole(c.to_string()),
                        Step {
                            raw,
                            what: What::Seq(
                                Form::List { sized: true },
                                vec![
                                    Step { raw, what: What::Char(c) },
                                    Step { raw, what: What::Str(Text::Pieces(vec![Piece::Char(c), Piece::Str(c.to_string())])) },
                                ],
                            ),
                        },
                    )],
                ),
            };
            let (w, r) = guard(|| run_script(&step, AnyWriter::Str(String::new()), None)).map_err(|c| c.describe())?;
            r.map_err(|e| format!("writing failed: {e}"))?;
            let out = String::from_utf8(w.into_text()).map_err(|_| "the output is not UTF-8")?;
            let chars: Vec<char> = out.chars().collect();
            let doc = dom::parse(&chars, false).map_err(|e| format!("the output is not JSON at {e}: {out:?}"))?;
            says(&step, &doc)?;
            squeeze(&out)?;
            n += 1;
        }
    }
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} fixed scripts: every character up to U+3000 and every 251st after it, as a char, in strings and in keys"));
    // Collections in collections, more than 8 or 16 bits can count
    let mut n = 0;
    for (levels, indent) in [
        (300, Some(" ")),
        (1100, Some("\t")),
        (600, Some(" \n ")),
        (300, None),
        (70_000, None),
        (5000, Some("")),
    ] {
        for shape in 0..4 {
            deep_output(levels, indent, shape).map_err(|m| format!("{levels} collections in one another, indent {indent:?}, shape {shape}: {m}"))?;
            n += 1;
        }
    }
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} documents of up to 70000 collections in one another"));
    // The known finding
    for bits in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].map(f64::to_bits) {
        let f = f64::from_bits(bits);
        for single in [false, true] {
            let what = if single { What::F32((f as f32).to_bits()) } else { What::F64(bits) };
            let step = Step { raw: false, what };
            let (w, r) = guard(|| run_script(&step, AnyWriter::Str(String::new()), None)).map_err(|c| c.describe())?;
            if r.is_err() {
                continue;
            }
            let out = String::from_utf8(w.into_text()).map_err(|_| "the output is not UTF-8")?;
            let chars: Vec<char> = out.chars().collect();
            if dom::parse(&chars, false).is_err() {
                e.known.push(format!(
                    "put_{} of the non-finite float {f} (json/src/serialize/text.rs) writes {out}, which is not JSON",
                    if single { "f32" } else { "f64" }
                ));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C19

pub enum Job {
    Value(Target, Dv),
    Script(Step),
}

pub fn gen_job(src: &mut Src) -> Job {
    if src.chance(1, 2) {
        let t = catalog::gen_target(src);
        let big = src.chance(1, 8);
        let v = model::gen_value(src, t.ty(), big);
        Job::Value(t, v)
    } else {
        Job::Script(gen_script(src))
    }
}

impl Job {
    pub fn describe(&self) -> String {
        match self {
            Job::Value(t, v) => format!("{}: {v:?}", t.describe()),
            Job::Script(s) => format!("{s:?}"),
        }
    }

    pub fn run(&self, writer: AnyWriter, indent: Option<&'static str>) -> (AnyWriter, Result<(), WErr>) {
        match self {
            Job::Value(t, v) => text::write(writer, indent, |w| t.ser(v, w)),
            Job::Script(s) => run_script(s, writer, indent),
        }
    }
}

/// Some of the numbers below `n`: all of them if there are few.
fn some_of(src: &mut Src, n: usize, most: usize) -> Vec<usize> {
    if n <= most {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, n / 2, n - 2, n - 1];
    while v.len() < most {
        v.push(src.idx(n));
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn c19(src: &mut Src) -> CheckResult {
    let job = gen_job(src);
    let indent = src.choose(text::INDENTS);
    let shown = job.describe();
    src.ident(shown.as_bytes());
    src.note(|| format!("indentation {indent:?}, {shown}"));
    let (w, r) = guard(|| job.run(AnyWriter::Str(String::new()), indent)).map_err(|c| c.describe())?;
    r.map_err(|e| format!("writing to a string failed: {e}"))?;
    let whole = w.into_text();
    // Sinks which do not fail
    let plan = 1 + src.below(1000);
    for plan in [0, plan] {
        let w = AnyWriter::Utf8(Utf8Writer::new(PlanWrite::new(plan, None, WriteFailure::Other)));
        let (w, r) = guard(|| job.run(w, indent)).map_err(|c| c.describe())?;
        r.map_err(|e| format!("writing failed: {e}"))?;
        let got = w.into_text();
        if got != whole {
            return Err(format!(
                "written to a byte stream (plan {plan}) as {:?}, but to a string as {:?}",
                String::from_utf8_lossy(&got),
                String::from_utf8_lossy(&whole)
            ));
        }
    }
    // Failure at a byte
    for b in some_of(src, whole.len(), 16) {
        let failure = [WriteFailure::Other, WriteFailure::BrokenPipe, WriteFailure::Zero][src.idx(3)];
        let plan = if src.chance(1, 2) { 0 } else { 1 + src.below(1000) };
        if b > 0 && b + 1 < whole.len() {
            src.nontrivial();
        }
        let w = AnyWriter::Utf8(Utf8Writer::new(PlanWrite::new(plan, Some(b), failure)));
        let (w, r) = guard(|| job.run(w, indent)).map_err(|c| c.describe())?;
        let at = format!("failing with {failure:?} after {b} bytes (plan {plan})");
        let AnyWriter::Utf8(w) = w else { unreachable!() };
        let w = w.into_inner();
        match r {
            Ok(()) => return Err(format!("{at}: the failure is not reported")),
            Err(WErr::Io(e)) => {
                let same = match failure {
                    WriteFailure::Other => e.kind() == std::io::ErrorKind::Other && e.to_string() == "planned failure",
                    WriteFailure::BrokenPipe => {
                        e.kind() == std::io::ErrorKind::BrokenPipe && e.to_string() == "planned failure"
                    }
                    WriteFailure::Zero => e.kind() == std::io::ErrorKind::WriteZero,
                };
                if !same {
                    return Err(format!("{at}: another error is reported: {e:?}"));
                }
            }
            Err(e) => return Err(format!("{at}: another error is reported: {e:?}")),
        }
        if w.data != whole[..b] {
            return Err(format!("{at}: what was written is {:?}", String::from_utf8_lossy(&w.data)));
        }
        if w.after_failure > 0 {
            return Err(format!("{at}: {} bytes are written after the failure", w.after_failure));
        }
    }
    // Failure at a call
    let by_char = src.chance(1, 2);
    let (w, r) = guard(|| job.run(AnyWriter::Call(CallWriter::new(None, by_char)), indent)).map_err(|c| c.describe())?;
    r.map_err(|e| format!("writing failed: {e}"))?;
    let AnyWriter::Call(w) = w else { unreachable!() };
    if w.text.as_bytes() != &whole[..] {
        return Err(format!("written to a sink as {:?}, but to a string as {:?}", w.text, String::from_utf8_lossy(&whole)));
    }
    for k in some_of(src, w.calls as usize, 16) {
        let at = format!("failing at call {k}");
        if k > 0 && k as u64 + 1 < w.calls {
            src.nontrivial();
        }
        let k = k as u64 + 1;
        let (w, r) =
            guard(|| job.run(AnyWriter::Call(CallWriter::new(Some(k), by_char)), indent)).map_err(|c| c.describe())?;
        let AnyWriter::Call(w) = w else { unreachable!() };
        match r {
            Ok(()) => return Err(format!("{at}: the failure is not reported")),
            Err(WErr::Call(n)) if n == k => (),
            Err(e) => return Err(format!("{at}: another error is reported: {e:?}")),
        }
        if !whole.starts_with(w.text.as_bytes()) {
            return Err(format!("{at}: what was written is {:?}", w.text));
        }
        if w.after_failure > 0 {
            return Err(format!("{at}: {} calls come after the failure", w.after_failure));
        }
    }
    // The convenience function
    if let Job::Value(Target::Static(e), v) = &job {
        let k = 1 + src.below(w.calls);
        let r = guard(|| (e.to_writer)(v, AnyWriter::Call(CallWriter::new(Some(k), by_char)))).map_err(|c| c.describe())?;
        // Without indentation there may be fewer calls
        match r {
            Err(WErr::Call(n)) if n == k => (),
            Ok(()) if indent.is_some() => (),
            r => return Err(format!("to_writer: failing at call {k}: {r:?}")),
        }
        src.class("to_writer");
    }
    // Another format which fails
    if let Job::Value(t, v) = &job {
        let config = FormatConfig { null: src.chance(1, 2), sized: src.chance(1, 2), tag_names: src.chance(1, 2) };
        let mut calls = 0;
        guard(|| {
            let mut s = TokSer::new(config);
            let r = Value::with(&mut s, |w| t.tok_ser(v, w));
            calls = s.calls();
            r
        })
        .map_err(|c| c.describe())?
        .map_err(|e| format!("another format: {e}"))?;
        for k in some_of(src, calls, 8) {
            let r = guard(|| {
                let mut s = TokSer::new(config);
                s.fail_at = Some(k + 1);
                Value::with(&mut s, |w| t.tok_ser(v, w))
            })
            .map_err(|c| c.describe())?;
            match r {
                Err(e) if e.0 == format!("failure {}", k + 1) => (),
                r => return Err(format!("another format fails at call {}, and {r:?} is reported", k + 1)),
            }
        }
    }
    Ok(())
}
