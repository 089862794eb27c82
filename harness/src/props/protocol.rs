//! C17 and C18: the calls which types and wrappers make.

use super::*;
use crate::catalog;
use crate::engine::{guard, protocol_broken, CaughtKind, CheckResult, Extra};
use crate::format::{FormatConfig, Tok, TokDe, TokErr, TokSer};
use crate::io::{AnyWriter, Text};
use crate::model;
use crate::text::{self, De, Ser};
use serdere::deserialize::DeserializeStruct;
use serdere::serialize::SerializeStruct;
use serdere::{
    Deserialize, Deserializer, FixedNameMap, List, NameMap, Outliner, Serialize, Serializer, Struct, Tuple, Value,
    INVALID_STATE_ERROR, LIST_OVERFLOW_ERROR, LIST_UNDERFLOW_ERROR,
};
use serdere_json::{
    Collection, Object, TextDeserializer, TextSerializer, TextSerializerConfig, ValueSerialierExt,
};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "a value of a random type written to and read from a format which records the calls; values which log their place in the caller's context; lists read in different ways. Non-trivial: at least six calls of at least three kinds",
            check: c17,
            quick: 4_000_000,
            thorough: 12_000_000,
            extra: Some(c17_extra),
        },
        Prop {
            id: "C18",
            rule: "a random sequence of operations on wrappers, run once as it is and once with one wrong step. Non-trivial: there was a wrong step after at least three right ones",
            check: c18,
            quick: 4_000_000,
            thorough: 12_000_000,
            extra: None,
        },
    ]
}

fn gen_format(src: &mut Src) -> FormatConfig {
    FormatConfig { null: src.chance(1, 2), sized: src.chance(1, 2), tag_names: src.chance(1, 2) }
}

// ------------------------------------------------------------------------------------------------
// C17

fn c17(src: &mut Src) -> CheckResult {
    match src.weighted(&[6, 3, 2]) {
        0 => c17_values(src),
        1 => c17_context(src),
        _ => c17_lists(src),
    }
}

fn kinds(toks: &[Tok]) -> usize {
    let mut v: Vec<_> = toks.iter().map(std::mem::discriminant).collect();
    let mut n = 0;
    while let Some(d) = v.pop() {
        v.retain(|x| *x != d);
        n += 1;
    }
    n
}

fn c17_values(src: &mut Src) -> CheckResult {
    let target = catalog::gen_target(src);
    let config = gen_format(src);
    let v = model::gen_value(src, target.ty(), false);
    if config.null && !model::round_trips(target.ty(), &v) {
        src.class("left out: null in a field with a default");
        return Ok(());
    }
    src.class("values");
    src.class(if config.null { "format with null" } else { "format without null" });
    src.ident(target.describe().as_bytes());
    src.ident(format!("{config:?}{v:?}").as_bytes());
    src.note(|| format!("{} in {config:?}: {v:?}", target.describe()));
    let toks = guard(|| {
        let mut s = TokSer::new(config);
        Value::with(&mut s, |w| target.tok_ser(&v, w)).map(|()| s.finish())
    })
    .map_err(|c| format!("writing: {}", c.describe()))?
    .map_err(|e| format!("writing failed: {e}"))?;
    if toks.len() >= 6 && kinds(&toks) >= 3 {
        src.nontrivial();
    }
    let back = guard(|| {
        let mut d = TokDe::new(config, toks.clone());
        Value::with(&mut d, |r| target.tok_de(r)).map(|v| {
            d.finish();
            v
        })
    })
    .map_err(|c| format!("reading: {}; written as {toks:?}", c.describe()))?
    .map_err(|e| format!("reading failed: {e}; written as {toks:?}"))?;
    if back != v {
        return Err(format!("{} {v:?} was read back as {back:?}; written as {toks:?}", target.describe()));
    }
    Ok(())
}

/// What is threaded through: the numbers of the values in the order they were visited.
pub type Log = Vec<u32>;

/// A value which logs itself. The second is nullable.
#[derive(Debug, Clone, PartialEq)]
pub struct L(u32);
#[derive(Debug, Clone, PartialEq)]
pub struct Ln(u32);
/// A struct which logs itself.
#[derive(Debug, Clone, PartialEq)]
pub struct Ls(u32);

impl<S: Serializer + ?Sized> Serialize<S, Log> for L {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, log: &mut Log) -> Result<(), S::Error> {
        log.push(self.0);
        value.put_u32(self.0)
    }
}

impl<D: Deserializer + ?Sized> Deserialize<D, Log> for L {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, log: &mut Log) -> Result<Self, D::Error> {
        let n = value.get_u32()?;
        log.push(n);
        Ok(L(n))
    }
}

impl<S: Serializer + ?Sized> Serialize<S, Log> for Ln {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<S>, log: &mut Log) -> Result<(), S::Error> {
        log.push(self.0);
        if self.0 % 2 == 0 && value.as_raw().supports_null() {
            let (s, done) = value.into_raw();
            s.pop_null()?;
            *done = true;
            Ok(())
        } else {
            value.put_u32(self.0)
        }
    }
}

impl<D: Deserializer + ?Sized> Deserialize<D, Log> for Ln {
    const NULLABLE: bool = true;
    fn deserialize(mut value: Value<D>, log: &mut Log) -> Result<Self, D::Error> {
        let n = if value.check_null()? { log.len() as u32 } else { value.get_u32()? };
        log.push(n);
        Ok(Ln(n))
    }
}

impl<S: Serializer + ?Sized> Serialize<S, Log> for Ls {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, log: &mut Log) -> Result<(), S::Error> {
        serdere::serialize::serialize_struct(value, self, log, Some("Ls"))
    }
}

impl<S: Serializer + ?Sized> SerializeStruct<S, Log> for Ls {
    fn serialize_content(&self, st: &mut Struct<S>, log: &mut Log) -> Result<(), S::Error> {
        log.push(self.0);
        st.field("ls1")?.put(&self.0)?;
        st.field("ls2")?.put(&(self.0 as u8))
    }
}

impl<D: Deserializer + ?Sized> Deserialize<D, Log> for Ls {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, log: &mut Log) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(value, log, Some("Ls"))
    }
}

impl<D: Deserializer + ?Sized> DeserializeStruct<D, Log> for Ls {
    fn deserialize_content(st: &mut Struct<D>, log: &mut Log) -> Result<Self, D::Error> {
        let n: u32 = st.field("ls1")?.get()?;
        let low: u8 = st.field("ls2")?.get()?;
        if low != n as u8 {
            protocol_broken("the fields of a struct do not fit together");
        }
        log.push(n);
        Ok(Ls(n))
    }
}

/// Makes values whose logging parts are numbered in order.
trait Numbered: Sized {
    fn make(src: &mut Src, next: &mut u32) -> Self;
}

macro_rules! numbered {
    ($($t:ident),*) => {$(
        impl Numbered for $t {
            fn make(_: &mut Src, next: &mut u32) -> Self {
                *next += 1;
                $t(*next - 1)
            }
        }
    )*};
}
numbered!(L, Ln, Ls);

impl<T: Numbered> Numbered for Option<T> {
    fn make(src: &mut Src, next: &mut u32) -> Self {
        src.chance(2, 3).then(|| T::make(src, next))
    }
}

impl<T: Numbered> Numbered for Vec<T> {
    fn make(src: &mut Src, next: &mut u32) -> Self {
        let n = src.weighted(&[1, 2, 2, 1, 1]);
        (0..n).map(|_| T::make(src, next)).collect()
    }
}

impl<T: Numbered, const N: usize> Numbered for [T; N] {
    fn make(src: &mut Src, next: &mut u32) -> Self {
        std::array::from_fn(|_| T::make(src, next))
    }
}

impl<A: Numbered, B: Numbered> Numbered for (A, B) {
    fn make(src: &mut Src, next: &mut u32) -> Self {
        let a = A::make(src, next);
        (a, B::make(src, next))
    }
}

impl<A: Numbered, B: Numbered, C: Numbered> Numbered for (A, B, C) {
    fn make(src: &mut Src, next: &mut u32) -> Self {
        let a = A::make(src, next);
        let b = B::make(src, next);
        (a, b, C::make(src, next))
    }
}

#[cfg(feature = "derived")]
mod derived {
    use super::*;

    /// Structs and enums which hold others.
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct Holder<A, B> {
        pub first: A,
        #[serde(rename = "2nd")]
        pub second: Vec<B>,
        #[serde(flatten)]
        pub flat: Ls,
        pub last: Option<A>,
    }

    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    #[serde(tag = "t")]
    pub enum Choice<A> {
        None,
        One { a: A },
        Two { b: (A, A), c: Option<A> },
        #[serde(transparent)]
        Inner(Ls),
        #[serde(transparent)]
        Held { h: Holder<A, L> },
    }

    impl<A: Numbered, B: Numbered> Numbered for Holder<A, B> {
        fn make(src: &mut Src, next: &mut u32) -> Self {
            let first = Numbered::make(src, next);
            let second = Numbered::make(src, next);
            let flat = Numbered::make(src, next);
            Holder { first, second, flat, last: Numbered::make(src, next) }
        }
    }

    impl<A: Numbered> Numbered for Choice<A> {
        fn make(src: &mut Src, next: &mut u32) -> Self {
            match src.idx(5) {
                0 => Choice::None,
                1 => Choice::One { a: A::make(src, next) },
                2 => {
                    let b = Numbered::make(src, next);
                    Choice::Two { b, c: Numbered::make(src, next) }
                }
                3 => Choice::Inner(Ls::make(src, next)),
                _ => Choice::Held { h: Numbered::make(src, next) },
            }
        }
    }
}
#[cfg(feature = "derived")]
use derived::*;

fn run_context<T>(src: &mut Src, name: &str) -> CheckResult
where
    T: Numbered + PartialEq + std::fmt::Debug,
    T: Serialize<TokSer, Log> + Deserialize<TokDe, Log> + Serialize<Ser, Log>,
    T: for<'a> Deserialize<De<'a>, Log>,
{
    let config = gen_format(src);
    let mut count = 0;
    let v = T::make(src, &mut count);
    let all: Log = (0..count).collect();
    src.class("context");
    src.ident(name.as_bytes());
    src.ident(format!("{config:?}{v:?}").as_bytes());
    src.note(|| format!("{name} in {config:?}: {v:?}"));
    let mut log = Log::new();
    let toks = guard(|| {
        let mut s = TokSer::new(config);
        Value::with(&mut s, |w| w.put_using(&v, &mut log)).map(|()| s.finish())
    })
    .map_err(|c| format!("writing {v:?}: {}", c.describe()))?
    .map_err(|e| format!("writing failed: {e}"))?;
    if toks.len() >= 6 && kinds(&toks) >= 3 {
        src.nontrivial();
    }
    if log != all {
        return Err(format!("writing {v:?} visited its parts as {log:?}"));
    }
    log.clear();
    let back: T = guard(|| {
        let mut d = TokDe::new(config, toks.clone());
        Value::with(&mut d, |r| r.get_using(&mut log)).map(|v| {
            d.finish();
            v
        })
    })
    .map_err(|c| format!("reading: {}; written as {toks:?}", c.describe()))?
    .map_err(|e| format!("reading failed: {e}; written as {toks:?}"))?;
    if back != v {
        return Err(format!("{v:?} was read back as {back:?}; written as {toks:?}"));
    }
    if log != all {
        return Err(format!("reading {v:?} visited its parts as {log:?}"));
    }
    // The same with JSON
    log.clear();
    let json = guard(|| text::write_string(None, |w| w.put_using(&v, &mut log))).map_err(|c| c.describe())??;
    if log != all {
        return Err(format!("writing {v:?} as JSON visited its parts as {log:?}"));
    }
    log.clear();
    let text = Text::new(json);
    let source = gen_source(src);
    let back: T = guard(|| text::read(&text, source, false, |r| r.get_using(&mut log)))
        .map_err(|c| format!("reading {:?}: {}", text.str, c.describe()))?
        .map_err(|e| format!("reading {:?} failed: {}", text.str, text::show_err(&text, &e)))?;
    if back != v || log != all {
        return Err(format!("{v:?} was read back as {back:?} from JSON, with its parts visited as {log:?}"));
    }
    Ok(())
}

fn c17_context(src: &mut Src) -> CheckResult {
    macro_rules! among {
        ($($t:ty),* $(,)?) => {{
            let table: &[(fn(&mut Src, &str) -> CheckResult, &str)] = &[$((run_context::<$t>, stringify!($t))),*];
            let (f, name) = table[src.idx(table.len())];
            f(src, name)
        }};
    }
    #[cfg(feature = "derived")]
    if src.chance(1, 2) {
        return among!(
            Holder<L, L>, Holder<Vec<Ln>, Ls>, Choice<L>, Choice<Option<Choice<Ls>>>, Vec<Holder<Ls, Option<Option<L>>>>,
            Option<Holder<Ln, (L, L)>>, [Choice<Ln>; 2],
        );
    }
    among!(
        L, Ln, Ls, Option<L>, Option<Ln>, Option<Option<L>>, Vec<L>, Vec<Option<Ln>>, Vec<Vec<Ls>>, [L; 0], [L; 1], [Ln; 4],
        (L, L), (L, Ls), (Ln, L, Vec<L>), (Option<L>, [L; 2], (L, Ls)),
    )
}

/// Lists which are read in different ways, with the length known or not.
fn c17_lists(src: &mut Src) -> CheckResult {
    let mut config = gen_format(src);
    config.null = true;
    let n = if src.chance(1, 40) {
        src.choose(&[127, 128, 129, 255, 256, 257, 300, 511, 512, 768, 1000])
    } else {
        src.weighted(&[1, 2, 2, 2, 1, 1, 1])
    };
    let ops: Vec<bool> = (0..n).map(|_| src.chance(1, 2)).collect();
    let end_by_close = src.chance(1, 2);
    let json = src.chance(1, 3);
    src.class("lists");
    src.ident(format!("{config:?}{ops:?}{end_by_close}{json}").as_bytes());
    if n >= 2 {
        src.nontrivial();
    }
    src.note(|| format!("{} {ops:?} {end_by_close}", if json { "JSON".to_string() } else { format!("{config:?}") }));
    list_roundtrip(config, &ops, end_by_close, json)
}

fn list_roundtrip(config: FormatConfig, ops: &[bool], end_by_close: bool, json: bool) -> CheckResult {
    let n = ops.len();
    fn put<S: Serializer + ?Sized>(mut list: List<S>, n: usize, known: bool) -> Result<(), S::Error> {
        for i in 0..n {
            rem(&list, known.then_some(n - i));
            list.push()?.put_u8(i as u8)?;
        }
        rem(&list, known.then_some(0));
        list.close()
    }
    fn rem<O: Outliner + ?Sized>(list: &List<O>, want: Option<usize>) {
        let got = list.rem_len();
        if got != want {
            protocol_broken(format!("the remaining length of a list is reported as {got:?}, and not {want:?}"));
        }
    }
    fn get<D: Deserializer + ?Sized>(
        mut list: List<D>,
        ops: &[bool],
        end_by_close: bool,
        known: bool,
    ) -> Result<Vec<u8>, D::Error> {
        let n = ops.len();
        let mut out = Vec::new();
        for (i, by_push) in ops.iter().enumerate() {
            rem(&list, known.then_some(n - i));
            if *by_push {
                out.push(list.push()?.get_u8()?);
            } else {
                match list.next()? {
                    Some(v) => out.push(v.get_u8()?),
                    None => protocol_broken("a list ended early"),
                }
            }
        }
        rem(&list, known.then_some(0));
        if end_by_close {
            list.close()?;
        } else if list.next()?.is_some() {
            protocol_broken("a list did not end");
        }
        Ok(out)
    }
    let want: Vec<u8> = (0..n).map(|i| i as u8).collect();
    let back = guard(|| {
        if json {
            let streaming = !config.sized;
            let out = text::write_string(None, |w| {
                if streaming {
                    put(w.into_list_streaming()?, n, false)
                } else {
                    put(w.into_list_sized(n)?, n, true)
                }
            })?;
            let t = Text::new(out);
            text::read(&t, Source::Str, false, |r| {
                let l = r.into_list()?;
                let known = l.rem_len().is_some();
                get(l, ops, end_by_close, known)
            })
            .map_err(|e| text::show_err(&t, &e))
        } else {
            let mut s = TokSer::new(config);
            Value::with(&mut s, |w| put(w.into_list_sized(n)?, n, true)).map_err(|e| e.0)?;
            let mut d = TokDe::new(config, s.finish());
            let v = Value::with(&mut d, |r| get(r.into_list()?, ops, end_by_close, config.sized)).map_err(|e| e.0)?;
            d.finish();
            Ok(v)
        }
    })
    .map_err(|c| c.describe())??;
    if back != want {
        return Err(format!("a list of {want:?} was read as {back:?}"));
    }
    Ok(())
}

/// Lists whose length takes more than 8 or 16 bits.
fn c17_extra(e: &mut Extra) -> CheckResult {
    let mut n = 0;
    for len in [126, 127, 128, 254, 255, 256, 257, 512, 32_768, 65_535, 65_536, 65_537, 70_000, 131_072] {
        for sized in [false, true] {
            for json in [false, true] {
                for way in 0..3 {
                    let ops: Vec<bool> = (0..len).map(|i| way == 0 || way == 2 && i % 3 == 0).collect();
                    list_roundtrip(FormatConfig { null: true, sized, tag_names: false }, &ops, way == 0, json)
                        .map_err(|m| format!("a list of {len}, {}: {}", if json { "JSON" } else { "tokens" }, m.chars().take(300).collect::<String>()))?;
                    n += 1;
                }
            }
        }
    }
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} lists of up to 131072 items, of known and unknown length, read in several ways"));
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C18

/// What is written and read.
#[derive(Debug, Clone)]
enum Plan {
    Bool(bool),
    Int(IntKind, u8),
    F32(u8),
    F64(u8),
    Char(char),
    Str(String),
    Tag(usize),
    Null,
    Struct(Vec<(&'static str, Plan)>),
    Tuple(Vec<Plan>),
    List(Vec<Plan>),
    Object(Vec<(&'static str, Plan)>),
}

#[derive(Debug, Clone, Copy)]
enum IntKind {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
}

const INTS: [IntKind; 8] =
    [IntKind::I8, IntKind::I16, IntKind::I32, IntKind::I64, IntKind::U8, IntKind::U16, IntKind::U32, IntKind::U64];
const NAMES: [&str; 5] = ["a", "b", "key", "", "type"];
const TAGS: [(&str, usize); 3] = [("one", 0), ("two", 1), ("three", 2)];

fn tags() -> &'static NameMap<usize> {
    const MAP: &NameMap<usize> = FixedNameMap::new(TAGS).unfix();
    MAP
}

fn gen_plan(src: &mut Src, depth: usize, null: bool, object: bool) -> Plan {
    let n = |src: &mut Src| src.weighted(&[2, 3, 3, 1]);
    let kind = if depth == 0 { src.idx(8) } else { src.weighted(&[1, 1, 1, 1, 1, 1, 1, 2, 5, 4, 5, 6]) };
    match kind {
        0 => Plan::Bool(src.chance(1, 2)),
        1 => Plan::Int(src.choose(&INTS), src.below(100) as u8),
        2 => Plan::F32(src.below(100) as u8),
        3 => Plan::F64(src.below(100) as u8),
        4 => Plan::Char(src.choose(&['a', '"', 'é'])),
        5 => Plan::Str(src.choose(&["", "a", "long string", "\n\\"]).to_string()),
        6 => Plan::Tag(src.idx(3)),
        7 if null => Plan::Null,
        7 => Plan::Bool(true),
        9 => Plan::Tuple((0..n(src)).map(|_| gen_plan(src, depth - 1, null, object)).collect()),
        10 if src.chance(1, 25) => {
            // A length which needs more than 8 bits
            let n = src.choose(&[127, 128, 255, 256, 257, 300, 512, 768]);
            Plan::List(vec![gen_plan(src, 0, null, object); n])
        }
        10 => Plan::List((0..n(src)).map(|_| gen_plan(src, depth - 1, null, object)).collect()),
        k => {
            let fields = (0..n(src)).map(|i| (NAMES[i], gen_plan(src, depth - 1, null, object))).collect();
            if k == 11 && object {
                Plan::Object(fields)
            } else {
                Plan::Struct(fields)
            }
        }
    }
}

/// Where to go wrong.
struct Mis {
    /// The number of the place where there is a wrong step.
    at: Option<usize>,
    seen: Cell<usize>,
    /// Choices: which wrong step to take, and which of several right ways to go.
    rand: Cell<u64>,
    /// What is being done wrong, and the panic messages which may result.
    wrong: RefCell<Option<(String, Vec<&'static str>)>>,
    uses: Option<Rc<Cell<usize>>>,
    uses_before: Cell<usize>,
}

impl Mis {
    fn new(at: Option<usize>, rand: u64) -> Self {
        Mis { at, seen: Cell::new(0), rand: Cell::new(rand), wrong: RefCell::new(None), uses: None, uses_before: Cell::new(0) }
    }

    /// Is this where to take a wrong step?
    fn here(&self) -> bool {
        let n = self.seen.get();
        self.seen.set(n + 1);
        self.at == Some(n)
    }

    fn pick(&self, n: u64) -> u64 {
        let r = crate::engine::mix(self.rand.get());
        self.rand.set(r);
        (r >> 20) % n
    }

    /// Takes a wrong step. The rest is not run.
    fn step<R>(&self, what: impl Into<String>, messages: &[&'static str], f: impl FnOnce() -> R) -> ! {
        let what = what.into();
        *self.wrong.borrow_mut() = Some((what.clone(), messages.to_vec()));
        self.uses_before.set(self.uses.as_ref().map_or(0, |u| u.get()));
        let _ = f();
        protocol_broken(format!("{what}: no panic"))
    }
}

const STATE: &[&str] = &[INVALID_STATE_ERROR];
const OVER: &[&str] = &[LIST_OVERFLOW_ERROR];
const UNDER: &[&str] = &[LIST_UNDERFLOW_ERROR];
const STATE_OR_OVER: &[&str] = &[INVALID_STATE_ERROR, LIST_OVERFLOW_ERROR];
const STATE_OR_UNDER: &[&str] = &[INVALID_STATE_ERROR, LIST_UNDERFLOW_ERROR];

/// A struct, for inlining.
struct Inlined;

impl<D: Deserializer + ?Sized> Deserialize<D> for Inlined {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut ()) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(value, ctx, None)
    }
}
impl<D: Deserializer + ?Sized> DeserializeStruct<D> for Inlined {
    fn deserialize_content(st: &mut Struct<D>, _: &mut ()) -> Result<Self, D::Error> {
        st.field("inlined")?.get_bool()?;
        Ok(Inlined)
    }
}
impl<S: Serializer + ?Sized> Serialize<S> for Inlined {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut ()) -> Result<(), S::Error> {
        serdere::serialize::serialize_struct(value, self, ctx, None)
    }
}
impl<S: Serializer + ?Sized> SerializeStruct<S> for Inlined {
    fn serialize_content(&self, st: &mut Struct<S>, _: &mut ()) -> Result<(), S::Error> {
        st.field("inlined")?.put_bool(true)
    }
}

/// Formats with more than the core has.
trait Writes: Serializer {
    fn object(plan: &[(&'static str, Plan)], value: Value<Self>, m: &Mis) -> Result<(), Self::Error>;
    fn abandoned_object(value: Value<Self>) -> Result<(), Self::Error>;
    fn null(value: Value<Self>) -> Result<(), Self::Error>;
    const STREAMS: bool;
    fn streaming<'a>(value: Value<'a, Self>) -> Result<Option<List<'a, Self>>, Self::Error>;
    /// Uses a value which is already assigned.
    const EXTRA: u64;
    fn extra_use(value: Value<Self>, k: u64) -> Result<(), Self::Error>;
}

trait Reads: Deserializer {
    fn object(plan: &[(&'static str, Plan)], value: Value<Self>, m: &Mis) -> Result<(), Self::Error>;
    fn abandoned_object(value: Value<Self>, k: u64, first: Option<&(&'static str, Plan)>, m: &Mis) -> Result<(), Self::Error>;
    fn collection(plan: &Plan, value: Value<Self>, m: &Mis) -> Result<(), Self::Error>;
    const JSON: bool;
    const EXTRA: u64;
    fn extra_use(value: Value<Self>, k: u64) -> Result<(), Self::Error>;
}

impl Writes for TokSer {
    const EXTRA: u64 = 0;
    fn extra_use(_: Value<Self>, _: u64) -> Result<(), TokErr> {
        unreachable!()
    }
    const STREAMS: bool = false;
    fn object(_: &[(&'static str, Plan)], _: Value<Self>, _: &Mis) -> Result<(), TokErr> {
        unreachable!()
    }
    fn abandoned_object(_: Value<Self>) -> Result<(), TokErr> {
        unreachable!()
    }
    fn null(value: Value<Self>) -> Result<(), TokErr> {
        let (s, done) = value.into_raw();
        s.pop_null()?;
        *done = true;
        Ok(())
    }
    fn streaming<'a>(_: Value<'a, Self>) -> Result<Option<List<'a, Self>>, TokErr> {
        unreachable!()
    }
}

/// Uses a value which is already assigned.
fn write_again<S: Writes>(value: Value<S>, k: u64) -> (&'static str, Result<(), S::Error>) {
    match k {
        0 => ("put_bool", value.put_bool(true)),
        1 => ("put_i8", value.put_i8(1)),
        2 => ("put_i16", value.put_i16(1)),
        3 => ("put_i32", value.put_i32(1)),
        4 => ("put_i64", value.put_i64(1)),
        5 => ("put_u8", value.put_u8(1)),
        6 => ("put_u16", value.put_u16(1)),
        7 => ("put_u32", value.put_u32(1)),
        8 => ("put_u64", value.put_u64(1)),
        9 => ("put_f32", value.put_f32(1.0)),
        10 => ("put_f64", value.put_f64(1.0)),
        11 => ("put_char", value.put_char('c')),
        12 => ("put_str", value.put_str("s")),
        13 => ("put_tag", value.put_tag(2, 1, Some("two"))),
        14 => ("into_struct", value.into_struct(None).map(drop)),
        15 => ("into_tuple", value.into_tuple(None).map(drop)),
        16 => ("into_list_sized", value.into_list_sized(1).map(drop)),
        17 => ("put", value.put(&5u8)),
        _ => ("an operation for JSON", S::extra_use(value, k - WRITE_OPS)),
    }
}
const WRITE_OPS: u64 = 18;

/// Uses a value which is already consumed.
fn read_again<D: Reads>(mut value: Value<D>, k: u64) -> (&'static str, Result<(), D::Error>) {
    match k {
        0 => ("get_bool", value.get_bool().map(drop)),
        1 => ("get_i8", value.get_i8().map(drop)),
        2 => ("get_i16", value.get_i16().map(drop)),
        3 => ("get_i32", value.get_i32().map(drop)),
        4 => ("get_i64", value.get_i64().map(drop)),
        5 => ("get_u8", value.get_u8().map(drop)),
        6 => ("get_u16", value.get_u16().map(drop)),
        7 => ("get_u32", value.get_u32().map(drop)),
        8 => ("get_u64", value.get_u64().map(drop)),
        9 => ("get_f32", value.get_f32().map(drop)),
        10 => ("get_f64", value.get_f64().map(drop)),
        11 => ("get_char", value.get_char().map(drop)),
        12 => ("get_str", value.get_str().map(drop)),
        13 => ("get_tag", value.get_tag(2, tags()).map(drop)),
        14 => ("into_struct", value.into_struct(None).map(drop)),
        15 => ("into_tuple", value.into_tuple(None).map(drop)),
        16 => ("into_list", value.into_list().map(drop)),
        17 => ("check_null", value.check_null().map(drop)),
        18 => ("validate_with", value.validate_with(|v| Ok(Ok::<_, TokErr>(v.get_bool()?))).map(drop)),
        19 => ("get", value.get::<String>().map(drop)),
        _ => ("an operation for JSON", D::extra_use(value, k - READ_OPS)),
    }
}
const READ_OPS: u64 = 20;

/// Leaves a value without assigning it, or in the middle.
fn abandon_write<S: Writes>(value: Value<S>, plan: &Plan, m: &Mis) -> Result<(), S::Error> {
    let inside = m.pick(3);
    match plan {
        Plan::Struct(f) if inside > 0 => {
            let mut st = value.into_struct(None)?;
            if let (true, Some((n, p))) = (inside == 2, f.first()) {
                write(p, st.field(n)?, &Mis::new(None, 0))?;
            }
            Ok(())
        }
        Plan::Tuple(f) if inside > 0 => {
            let mut st = value.into_tuple(None)?;
            if let (true, Some(p)) = (inside == 2, f.first()) {
                write(p, st.element()?, &Mis::new(None, 0))?;
            }
            Ok(())
        }
        Plan::List(f) if inside > 0 => {
            let mut st = value.into_list_sized(f.len())?;
            if let (true, Some(p)) = (inside == 2, f.first()) {
                write(p, st.push()?, &Mis::new(None, 0))?;
            }
            Ok(())
        }
        Plan::Object(_) if inside > 0 => S::abandoned_object(value),
        _ => Ok(()),
    }
}

fn write<S: Writes>(plan: &Plan, value: Value<S>, m: &Mis) -> Result<(), S::Error> {
    // Right ways to handle values which are not used otherwise
    let value = match m.pick(8) {
        0 => {
            let (s, done) = value.into_raw();
            Value::with(&mut *s, |v| write_plain(plan, v, m))?;
            *done = true;
            if m.here() {
                let k = m.pick(WRITE_OPS + S::EXTRA);
                let name = Cell::new("");
                m.step(format!("assigning a value twice (operation {k})"), STATE, || {
                    let (n, r) = write_again(Value::new(s, done), k);
                    name.set(n);
                    r.map_err(drop)
                })
            }
            return Ok(());
        }
        1 if m.here() => {
            let (s, _) = value.into_raw();
            m.step("a closure given to Value::with does not assign its value", STATE, || Value::with(s, |v| abandon_write(v, plan, m)))
        }
        _ => value,
    };
    write_plain(plan, value, m)
}

fn write_plain<S: Writes>(plan: &Plan, value: Value<S>, m: &Mis) -> Result<(), S::Error> {
    match plan {
        Plan::Bool(b) => value.put_bool(*b),
        Plan::Int(k, v) => {
            let v = *v;
            match k {
                IntKind::I8 => value.put_i8(v as i8),
                IntKind::I16 => value.put_i16(v.into()),
                IntKind::I32 => value.put_i32(v.into()),
                IntKind::I64 => value.put_i64(v.into()),
                IntKind::U8 => value.put_u8(v),
                IntKind::U16 => value.put_u16(v.into()),
                IntKind::U32 => value.put_u32(v.into()),
                IntKind::U64 => value.put_u64(v.into()),
            }
        }
        Plan::F32(v) => value.put_f32((*v).into()),
        Plan::F64(v) => value.put_f64((*v).into()),
        Plan::Char(c) => value.put_char(*c),
        Plan::Str(s) => value.put_str(s),
        Plan::Tag(i) => value.put_tag(2, *i, Some(TAGS[*i].0)),
        Plan::Null => S::null(value),
        Plan::Struct(fields) => {
            let body = |st: &mut Struct<S>| -> Result<(), S::Error> {
                for (name, p) in fields {
                    if m.here() {
                        abandon_write(st.field(name)?, p, m)?;
                        match m.pick(2) {
                            0 => m.step("a field after one which was abandoned", STATE, || st.field("next").map(drop)),
                            _ => m.step("inline_put after a field which was abandoned", STATE, || st.inline_put(&Inlined)),
                        }
                    }
                    write(p, st.field(name)?, m)?;
                }
                Ok(())
            };
            if m.pick(4) == 0 {
                let (s, done) = value.into_raw();
                s.open_struct(None)?;
                if m.here() {
                    m.step("a closure given to Struct::with closes the struct", STATE, || {
                        Struct::with(s, |mut st| {
                            body_plain(&mut st, fields)?;
                            st.close()
                        })
                    })
                }
                Struct::with(&mut *s, |mut st| body(&mut st))?;
                s.close_struct()?;
                *done = true;
                return Ok(());
            }
            let mut st = value.into_struct(None)?;
            body(&mut st)?;
            if let Some((_, p)) = fields.last() {
                if m.here() {
                    abandon_write(st.field("more")?, p, m)?;
                    m.step("closing a struct with an abandoned field", STATE, || st.close())
                }
            }
            st.close()
        }
        Plan::Tuple(items) => {
            if m.pick(4) == 0 {
                let (s, done) = value.into_raw();
                s.open_tuple(None)?;
                if m.here() {
                    m.step("a closure given to Tuple::with closes the tuple", STATE, || {
                        Tuple::with(s, |mut t| {
                            for p in items {
                                write(p, t.element()?, &Mis::new(None, 0))?;
                            }
                            t.close()
                        })
                    })
                }
                Tuple::with(&mut *s, |mut t| {
                    for p in items {
                        write(p, t.element()?, m)?;
                    }
                    Ok(())
                })?;
                s.close_tuple()?;
                *done = true;
                return Ok(());
            }
            let mut t = value.into_tuple(None)?;
            for p in items {
                if m.here() {
                    abandon_write(t.element()?, p, m)?;
                    match m.pick(2) {
                        0 => m.step("an element after one which was abandoned", STATE, || t.element().map(drop)),
                        _ => m.step("closing a tuple with an abandoned element", STATE, || t.close()),
                    }
                }
                write(p, t.element()?, m)?;
            }
            t.close()
        }
        Plan::List(items) => {
            let mut known = true;
            let mut list = if S::STREAMS && m.pick(2) == 0 {
                known = false;
                S::streaming(value)?.expect("streams")
            } else {
                value.into_list_sized(items.len())?
            };
            for (i, p) in items.iter().enumerate() {
                if m.here() {
                    if known && m.pick(3) == 0 {
                        m.step("closing a list before all of its items are written", UNDER, || list.close())
                    }
                    abandon_write(list.push()?, p, m)?;
                    let last = i + 1 == items.len();
                    match m.pick(2) {
                        0 => {
                            let msg = if known && last { STATE_OR_OVER } else { STATE };
                            m.step("an item after one which was abandoned", msg, || list.push().map(drop))
                        }
                        _ => {
                            let msg = if known && !last { STATE_OR_UNDER } else { STATE };
                            m.step("closing a list with an abandoned item", msg, || list.close())
                        }
                    }
                }
                write(p, list.push()?, m)?;
            }
            if known && m.here() {
                m.step("an item past the stated length of a list", OVER, || list.push().map(drop))
            }
            list.close()
        }
        Plan::Object(entries) => S::object(entries, value, m),
    }
}

fn body_plain<S: Writes>(st: &mut Struct<S>, fields: &[(&'static str, Plan)]) -> Result<(), S::Error> {
    for (name, p) in fields {
        write(p, st.field(name)?, &Mis::new(None, 0))?;
    }
    Ok(())
}

impl Writes for Ser {
    const STREAMS: bool = true;
    fn object(plan: &[(&'static str, Plan)], value: Value<Self>, m: &Mis) -> Result<(), Self::Error> {
        let mut obj = value.into_object()?;
        for (k, p) in plan {
            if m.here() {
                abandon_write(obj.entry(k)?, p, m)?;
                match m.pick(2) {
                    0 => m.step("an entry after one which was abandoned", STATE, || obj.entry("next").map(drop)),
                    _ => m.step("closing an object with an abandoned entry", STATE, || obj.close()),
                }
            }
            write(p, obj.entry(k)?, m)?;
        }
        obj.close()
    }
    fn abandoned_object(value: Value<Self>) -> Result<(), Self::Error> {
        let _ = value.into_object()?;
        Ok(())
    }
    fn null(value: Value<Self>) -> Result<(), Self::Error> {
        value.into_null()
    }
    fn streaming<'a>(value: Value<'a, Self>) -> Result<Option<List<'a, Self>>, Self::Error> {
        value.into_list_streaming().map(Some)
    }
    const EXTRA: u64 = 3;
    fn extra_use(value: Value<Self>, k: u64) -> Result<(), Self::Error> {
        match k {
            0 => value.into_null(),
            1 => value.into_object().map(drop),
            _ => value.into_list_streaming().map(drop),
        }
    }
}

/// Leaves a value without reading it, or in the middle.
fn abandon_read<D: Reads>(mut value: Value<D>, plan: &Plan, m: &Mis) -> Result<(), D::Error> {
    let k = m.pick(5);
    let plain = Mis::new(None, 0);
    match plan {
        Plan::Struct(f) if k > 0 => {
            let mut st = value.into_struct(None)?;
            if let (true, Some((n, p))) = (k >= 2, f.first()) {
                read(p, st.field(n)?, &plain)?;
            }
            Ok(())
        }
        Plan::Tuple(f) if k > 0 => {
            let mut st = value.into_tuple(None)?;
            if let (true, Some(p)) = (k >= 2, f.first()) {
                read(p, st.element()?, &plain)?;
            }
            Ok(())
        }
        Plan::List(f) if k > 0 => {
            let mut list = value.into_list()?;
            for (i, p) in f.iter().enumerate() {
                if i as u64 + 2 > k {
                    break;
                }
                match list.next()? {
                    Some(v) => read(p, v, &plain)?,
                    None => protocol_broken("a list ended early"),
                }
            }
            Ok(())
        }
        Plan::Object(f) if k > 0 => D::abandoned_object(value, k, f.first(), m),
        Plan::Null => Ok(()),
        _ if k == 1 => {
            if value.check_null()? {
                protocol_broken("a value which is not null was taken for null");
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn read<D: Reads>(plan: &Plan, value: Value<D>, m: &Mis) -> Result<(), D::Error> {
    let value = match m.pick(10) {
        0 => {
            let (s, done) = value.into_raw();
            Value::with(&mut *s, |v| read_plain(plan, v, m))?;
            *done = true;
            if m.here() {
                let k = m.pick(READ_OPS + D::EXTRA);
                m.step(format!("reading a value twice (operation {k})"), STATE, || read_again(Value::new(s, done), k).1.map_err(drop))
            }
            return Ok(());
        }
        1 if m.here() => {
            let (s, _) = value.into_raw();
            m.step("a closure given to Value::with does not read its value", STATE, || Value::with(s, |v| abandon_read(v, plan, m)))
        }
        2 if m.here() => m.step("a closure given to validate_with does not read its value", STATE, || {
            value.validate_with(|v| {
                abandon_read(v, plan, m)?;
                Ok(if m.pick(2) == 0 { Ok(()) } else { Err(TokErr("invalid".into())) })
            })
        }),
        3 => return value.validate_with(|v| Ok(Ok::<(), TokErr>(read_plain(plan, v, m)?))),
        _ => value,
    };
    read_plain(plan, value, m)
}

fn same<T: PartialEq + std::fmt::Debug>(got: T, want: T) {
    if got != want {
        protocol_broken(format!("{want:?} was read as {got:?}"));
    }
}

fn read_plain<D: Reads>(plan: &Plan, mut value: Value<D>, m: &Mis) -> Result<(), D::Error> {
    match plan {
        Plan::Bool(b) => same(value.get_bool()?, *b),
        Plan::Int(k, v) => {
            let v = *v;
            match k {
                IntKind::I8 => same(value.get_i8()?, v as i8),
                IntKind::I16 => same(value.get_i16()?, v.into()),
                IntKind::I32 => same(value.get_i32()?, v.into()),
                IntKind::I64 => same(value.get_i64()?, v.into()),
                IntKind::U8 => same(value.get_u8()?, v),
                IntKind::U16 => same(value.get_u16()?, v.into()),
                IntKind::U32 => same(value.get_u32()?, v.into()),
                IntKind::U64 => same(value.get_u64()?, v.into()),
            }
        }
        Plan::F32(v) => same(value.get_f32()?, (*v).into()),
        Plan::F64(v) => same(value.get_f64()?, (*v).into()),
        Plan::Char(c) => same(value.get_char()?, *c),
        Plan::Str(s) => same(&*value.get_str()?, &**s),
        Plan::Tag(i) => same(value.get_tag(2, tags())?, *i),
        Plan::Null => {
            if !value.check_null()? {
                protocol_broken("null was not found");
            }
            if m.here() {
                let k = m.pick(READ_OPS + D::EXTRA);
                m.step(format!("using a value after it was found to be null (operation {k})"), STATE, || read_again(value, k).1.map_err(drop))
            }
        }
        Plan::Struct(fields) => {
            let body = |st: &mut Struct<D>| -> Result<(), D::Error> {
                for (name, p) in fields {
                    if m.here() {
                        abandon_read(st.field(name)?, p, m)?;
                        match m.pick(2) {
                            0 => m.step("a field after one which was abandoned", STATE, || st.field("next").map(drop)),
                            _ => m.step("inline_get after a field which was abandoned", STATE, || st.inline_get::<Inlined>().map(drop)),
                        }
                    }
                    read(p, st.field(name)?, m)?;
                }
                Ok(())
            };
            if m.pick(4) == 0 {
                let (s, done) = value.into_raw();
                s.open_struct(None)?;
                if m.here() {
                    m.step("a closure given to Struct::with closes the struct", STATE, || {
                        Struct::with(s, |mut st| {
                            for (name, p) in fields {
                                read(p, st.field(name)?, &Mis::new(None, 0))?;
                            }
                            st.close()
                        })
                    })
                }
                Struct::with(&mut *s, |mut st| body(&mut st))?;
                s.close_struct()?;
                *done = true;
                return Ok(());
            }
            let mut st = value.into_struct(None)?;
            if let Some((name, p)) = fields.first() {
                if m.here() {
                    abandon_read(st.field(name)?, p, m)?;
                    m.step("closing a struct with an abandoned field", STATE, || st.close())
                }
            }
            body(&mut st)?;
            st.close()?;
        }
        Plan::Tuple(items) => {
            if m.pick(4) == 0 {
                let (s, done) = value.into_raw();
                s.open_tuple(None)?;
                if m.here() {
                    m.step("a closure given to Tuple::with closes the tuple", STATE, || {
                        Tuple::with(s, |mut t| {
                            for p in items {
                                read(p, t.element()?, &Mis::new(None, 0))?;
                            }
                            t.close()
                        })
                    })
                }
                Tuple::with(&mut *s, |mut t| {
                    for p in items {
                        read(p, t.element()?, m)?;
                    }
                    Ok(())
                })?;
                s.close_tuple()?;
                *done = true;
                return Ok(());
            }
            let mut t = value.into_tuple(None)?;
            for p in items {
                if m.here() {
                    abandon_read(t.element()?, p, m)?;
                    match m.pick(2) {
                        0 => m.step("an element after one which was abandoned", STATE, || t.element().map(drop)),
                        _ => m.step("closing a tuple with an abandoned element", STATE, || t.close()),
                    }
                }
                read(p, t.element()?, m)?;
            }
            t.close()?;
        }
        Plan::List(items) => {
            if D::JSON && m.pick(4) == 0 {
                return D::collection(plan, value, m);
            }
            let mut list = value.into_list()?;
            let known = list.rem_len().is_some();
            let by_next = |m: &Mis| m.pick(2) == 0;
            for (i, p) in items.iter().enumerate() {
                let last = i + 1 == items.len();
                if m.here() {
                    if known && m.pick(3) == 0 {
                        m.step("closing a list before all of its items are read", UNDER, || list.close())
                    }
                    let v = if by_next(m) {
                        list.next()?.unwrap_or_else(|| protocol_broken("a list ended early"))
                    } else {
                        list.push()?
                    };
                    abandon_read(v, p, m)?;
                    match m.pick(3) {
                        0 => {
                            let msg = if known && last { STATE_OR_OVER } else { STATE };
                            m.step("an item after one which was abandoned", msg, || list.push().map(drop))
                        }
                        1 => m.step("next after an item which was abandoned", STATE, || list.next().map(drop)),
                        _ => {
                            let msg = if known && !last { STATE_OR_UNDER } else { STATE };
                            m.step("closing a list with an abandoned item", msg, || list.close())
                        }
                    }
                }
                let v = if by_next(m) {
                    list.next()?.unwrap_or_else(|| protocol_broken("a list ended early"))
                } else {
                    list.push()?
                };
                read(p, v, m)?;
            }
            if known && m.here() {
                m.step("an item past the known length of a list", OVER, || list.push().map(drop))
            }
            if m.pick(2) == 0 {
                list.close()?;
            } else {
                if list.next()?.is_some() {
                    protocol_broken("a list did not end");
                }
                if m.here() {
                    match m.pick(3) {
                        0 => {
                            let msg = if known { STATE_OR_OVER } else { STATE };
                            m.step("an item after the end of a list", msg, || list.push().map(drop))
                        }
                        1 => m.step("next after the end of a list", STATE, || list.next().map(drop)),
                        _ => m.step("closing a list after its end", STATE, || list.close()),
                    }
                }
            }
        }
        Plan::Object(entries) => {
            if m.pick(4) == 0 {
                return D::collection(plan, value, m);
            }
            D::object(entries, value, m)?
        }
    }
    Ok(())
}

impl Reads for TokDe {
    const EXTRA: u64 = 0;
    fn extra_use(_: Value<Self>, _: u64) -> Result<(), TokErr> {
        unreachable!()
    }
    const JSON: bool = false;
    fn object(_: &[(&'static str, Plan)], _: Value<Self>, _: &Mis) -> Result<(), TokErr> {
        unreachable!()
    }
    fn abandoned_object(_: Value<Self>, _: u64, _: Option<&(&'static str, Plan)>, _: &Mis) -> Result<(), TokErr> {
        unreachable!()
    }
    fn collection(_: &Plan, _: Value<Self>, _: &Mis) -> Result<(), TokErr> {
        unreachable!()
    }
}

fn wrong_object<'a>(mut obj: Object<De<'a>>, what: &str, m: &Mis) -> ! {
    match m.pick(5) {
        0 => m.step(format!("entry {what}"), STATE, || obj.entry("a").map(drop).map_err(drop)),
        1 => m.step(format!("try_entry {what}"), STATE, || obj.try_entry("a").map(drop).map_err(drop)),
        2 => m.step(format!("next_entry {what}"), STATE, || obj.next_entry().map(drop).map_err(drop)),
        3 => m.step(format!("close {what}"), STATE, || obj.close().map_err(drop)),
        _ => m.step(format!("inline {what}"), STATE, || obj.inline::<Inlined>().map(drop).map_err(drop)),
    }
}

impl<'t> Reads for De<'t> {
    const JSON: bool = true;
    fn object(plan: &[(&'static str, Plan)], value: Value<Self>, m: &Mis) -> Result<(), Self::Error> {
        let mut obj = value.into_object()?;
        let mut left: Vec<&(&'static str, Plan)> = plan.iter().collect();
        while !left.is_empty() {
            let i = m.pick(left.len() as u64) as usize;
            let abandon = m.here();
            let missing = m.pick(4) == 0;
            if missing && obj.try_entry("not there")?.is_some() {
                protocol_broken("an entry which is not there was found");
            }
            match m.pick(3) {
                0 => {
                    let (k, p) = left.remove(i);
                    let v = obj.entry(k)?;
                    if abandon {
                        abandon_read(v, p, m)?;
                        wrong_object(obj, "after an entry which was abandoned", m)
                    }
                    read(p, v, m)?;
                }
                1 => {
                    let (k, p) = left.remove(i);
                    let v = obj.try_entry(k)?.unwrap_or_else(|| protocol_broken("an entry was not found"));
                    if abandon {
                        abandon_read(v, p, m)?;
                        wrong_object(obj, "after an entry which was abandoned", m)
                    }
                    read(p, v, m)?;
                }
                _ => {
                    let (k, p) = left.remove(0);
                    let mut e = obj.next_entry()?.unwrap_or_else(|| protocol_broken("an object ended early"));
                    let with_key = m.pick(3) > 0;
                    if with_key {
                        same(&*e.key()?, *k);
                        if m.here() {
                            m.step("taking a key twice", STATE, || e.key().map(drop).map_err(drop))
                        }
                    }
                    if abandon {
                        if m.pick(2) == 0 {
                            abandon_read(e.value()?, p, m)?;
                        }
                        wrong_object(obj, "after an entry which was abandoned", m)
                    }
                    read(p, e.value()?, m)?;
                }
            }
        }
        if m.pick(2) == 0 {
            obj.close()
        } else {
            if obj.next_entry()?.is_some() {
                protocol_broken("an object did not end");
            }
            if m.here() {
                wrong_object(obj, "after the end of an object", m)
            }
            Ok(())
        }
    }
    fn abandoned_object(value: Value<Self>, k: u64, first: Option<&(&'static str, Plan)>, _: &Mis) -> Result<(), Self::Error> {
        let mut obj = value.into_object()?;
        if let (2.., Some((n, p))) = (k, first) {
            read(p, obj.entry(n)?, &Mis::new(None, 0))?;
        }
        Ok(())
    }
    fn collection(plan: &Plan, value: Value<Self>, m: &Mis) -> Result<(), Self::Error> {
        let mut c = value.into_collection()?;
        let items: Vec<&Plan> = match plan {
            Plan::List(v) => v.iter().collect(),
            Plan::Object(v) => v.iter().map(|e| &e.1).collect(),
            _ => unreachable!(),
        };
        if matches!((plan, &c), (Plan::List(_), Collection::Object(_)) | (Plan::Object(_), Collection::List(_))) {
            protocol_broken("an array or object was taken for the other");
        }
        for p in items {
            let v = c.next()?.unwrap_or_else(|| protocol_broken("a collection ended early"));
            if m.here() {
                abandon_read(v, p, m)?;
                m.step("next after an abandoned value of a collection", STATE, || c.next().map(drop).map_err(drop))
            }
            read(p, v, m)?;
        }
        if c.next()?.is_some() {
            protocol_broken("a collection did not end");
        }
        if m.here() {
            m.step("next after the end of a collection", STATE, || c.next().map(drop).map_err(drop))
        }
        Ok(())
    }
    const EXTRA: u64 = 4;
    fn extra_use(value: Value<Self>, k: u64) -> Result<(), Self::Error> {
        match k {
            0 => value.into_null(),
            1 => value.into_object().map(drop),
            2 => value.skip(),
            _ => value.into_collection().map(drop),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Over {
    TokWrite,
    TokRead,
    JsonWrite,
    JsonRead,
}

/// Runs the operations, giving the messages of errors.
fn run_plan(plan: &Plan, over: Over, config: FormatConfig, source: Source, input: &Input, m: &mut Mis) -> Result<(), String> {
    match over {
        Over::TokWrite => {
            let mut s = TokSer::new(config);
            m.uses = Some(s.uses());
            Value::with(&mut s, |v| write(plan, v, m)).map_err(|e| e.0)?;
            s.finish();
        }
        Over::TokRead => {
            let mut d = TokDe::new(config, input.toks.clone());
            m.uses = Some(d.uses());
            Value::with(&mut d, |v| read(plan, v, m)).map_err(|e| e.0)?;
            d.finish();
        }
        Over::JsonWrite => {
            let mut s = TextSerializer::new(TextSerializerConfig { indent: None }, AnyWriter::Str(String::new()));
            Value::with(&mut s, |v| write(plan, v, m)).map_err(|e| e.to_string())?;
            if s.close().into_text() != input.text.str.as_bytes() {
                return Err("the same calls wrote something else".into());
            }
        }
        Over::JsonRead => {
            let mut d = TextDeserializer::new(text::config(false), input.text.open(source)).map_err(|e| e.to_string())?;
            Value::with(&mut d, |v| read(plan, v, m)).map_err(|e| text::show_err(&input.text, &e))?;
            d.close().map_err(|e| text::show_err(&input.text, &e))?;
        }
    }
    Ok(())
}

struct Input {
    toks: Vec<Tok>,
    text: Text,
}

fn c18(src: &mut Src) -> CheckResult {
    let over = src.choose(&[Over::TokWrite, Over::TokRead, Over::JsonWrite, Over::JsonRead]);
    let json = matches!(over, Over::JsonWrite | Over::JsonRead);
    let config = gen_format(src);
    let depth = src.range(1, 3);
    let plan = gen_plan(src, depth, config.null || json, json);
    let source = gen_source(src);
    let rand = src.below(1 << 32);
    src.note(|| format!("{over:?} {config:?} {source:?} {plan:?}"));
    src.ident(format!("{over:?}{config:?}{plan:?}{rand}").as_bytes());
    // The input for readers, and the output which every right way of writing has
    let plain = Mis::new(None, 1);
    let input = guard(|| {
        Ok::<_, String>(if json {
            let out = text::write_string(None, |v| write(&plan, v, &plain)).map_err(|e| e.to_string())?;
            Input { toks: Vec::new(), text: Text::new(out) }
        } else {
            let mut s = TokSer::new(config);
            Value::with(&mut s, |v| write(&plan, v, &plain)).map_err(|e| e.0)?;
            Input { toks: s.finish(), text: Text::new(String::new()) }
        })
    })
    .map_err(|c| format!("using the wrappers correctly: {}; {plan:?}", c.describe()))?
    .map_err(|e| format!("using the wrappers correctly fails: {e}; {plan:?}"))?;
    // The right way
    let mut m = Mis::new(None, rand);
    guard(|| run_plan(&plan, over, config, source, &input, &mut m))
        .map_err(|c| format!("using the wrappers correctly ({over:?}): {}; {plan:?}", c.describe()))?
        .map_err(|e| format!("using the wrappers correctly ({over:?}) fails: {e}; {plan:?}"))?;
    let places = m.seen.get();
    src.sub_evals += 1;
    if places == 0 {
        src.class("no wrong step is possible");
        return Ok(());
    }
    // A wrong way
    let at = src.idx(places);
    let mut m = Mis::new(Some(at), rand);
    let r = guard(|| run_plan(&plan, over, config, source, &input, &mut m));
    let wrong = m.wrong.borrow().clone();
    let Some((what, messages)) = wrong else {
        return Err(match r {
            Ok(Ok(())) => "harness: the wrong step was not reached".to_string(),
            Ok(Err(e)) => format!("failed before the wrong step: {e}; {plan:?}"),
            Err(c) => format!("using the wrappers correctly ({over:?}): {}; {plan:?}", c.describe()),
        });
    };
    if at >= 3 {
        src.nontrivial();
    }
    src.note(|| format!("wrong step {at}: {what}"));
    src.class(match &what[..] {
        w if w.contains("abandoned") => "wrong: abandoned",
        w if w.contains("length") || w.contains("before all") => "wrong: length of a list",
        w if w.contains("end") => "wrong: after the end",
        w if w.contains("key") => "wrong: key twice",
        w if w.contains("closure") => "wrong: closure",
        _ => "wrong: value used twice",
    });
    match r {
        Err(c) if c.kind == CaughtKind::Panic && messages.iter().any(|m| c.message.contains(*m)) => {
            let before = m.uses_before.get();
            let after = m.uses.as_ref().map_or(0, |u| u.get());
            if before != after && !what.contains("closure") {
                return Err(format!("{over:?}: {what}: the underlying format was used before the panic; {plan:?}"));
            }
            Ok(())
        }
        Err(c) => Err(format!("{over:?}: {what}: {}, and should panic with {messages:?}; {plan:?}", c.describe())),
        Ok(r) => Err(format!("{over:?}: {what}: {r:?}, and should panic with {messages:?}; {plan:?}")),
    }
}
