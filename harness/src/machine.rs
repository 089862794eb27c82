//! A random walk over a document with the reader's interfaces, in which every answer is compared
//! with what the reference parser found in the text.

use crate::dom::{self, SNode, SVal};
use crate::dynamic::checked;
use crate::engine::Src;
use crate::io::{Source, Text};
use crate::text::{self, EKind, Fault, Subject};
use crate::props::{Any, Mode};
use serdere::{Deserialize, List, Struct, Tuple, Value};
use serdere_json::{
    Collection, CollectionType, Object, TextDeserializer, ValueDeserializerExt,
    ValueExt,
};
use std::cell::RefCell;
use std::collections::HashSet;

/// How the walk is done.
#[derive(Clone, Copy)]
pub struct Profile {
    /// One in how many values is skipped, where 0 is never.
    pub skip: u64,
    /// One in how many strings is read partly; 0 is never.
    pub partial: u64,
    /// One in how many operations is chosen so that an error is due; 0 is never.
    pub wrong: u64,
    /// Is the remainder of objects sometimes skipped?
    pub rest: bool,
}

pub enum Stop {
    Fail(String),
    /// An error came which was due.
    End,
}

type W<T = ()> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    /// Entries which were delivered out of document order.
    pub out_of_order: u32,
    pub absent: u32,
    pub entries: u32,
    pub items: u32,
    pub skipped: u32,
    pub skipped_containers: u32,
    pub partial: u32,
    pub rest_skipped: u32,
    pub errors: u32,
    pub ops: u32,
}

pub struct Walk<'s, 't> {
    pub src: &'s mut Src,
    pub text: &'t Text,
    pub p: Profile,
    pub stats: Stats,
    log: Vec<String>,
    /// Is the whole walk done on one kind of interface?
    style: u64,
}

thread_local! {
    static INTERNED: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new());
}

/// A copy of the string that lives forever.
pub fn intern(s: &str) -> &'static str {
    INTERNED.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        t.insert(x);
        x
    })
}

pub fn kind_of(node: &SNode) -> &'static str {
    match &node.v {
        SVal::Null => "null",
        SVal::Bool(_) => "bool",
        SVal::Num(_) => "number",
        SVal::Str(_) => "string",
        SVal::Arr(_) => "array",
        SVal::Obj(_) => "object",
    }
}

fn has_duplicates(entries: &[(String, SNode)]) -> bool {
    let mut seen = HashSet::new();
    !entries.iter().all(|e| seen.insert(&e.0))
}

/// What to read as an inlined struct, and what was read.
#[derive(Default)]
struct Inline {
    wanted: Vec<(&'static str, Mode)>,
    got: Vec<Any>,
}

struct Inlined;

impl<D: Subject> Deserialize<D, Inline> for Inlined {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut Inline) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(value, ctx, None)
    }
}

impl<D: Subject> serdere::deserialize::DeserializeStruct<D, Inline> for Inlined {
    fn deserialize_content(st: &mut Struct<D>, ctx: &mut Inline) -> Result<Self, D::Error> {
        for (name, mode) in ctx.wanted.clone() {
            let got = super::props::read_any(st.field(name)?, mode)?;
            ctx.got.push(got);
        }
        Ok(Inlined)
    }
}

/// Runs a walk over a whole document.
pub fn walk(
    src: &mut Src,
    text: &Text,
    node: &SNode,
    source: Source,
    comments: bool,
    p: Profile,
) -> Result<Stats, String> {
    let mut w = Walk { src, text, p, stats: Stats::default(), log: Vec::new(), style: 0 };
    w.style = w.src.below(3);
    let r = w.run(node, source, comments);
    if w.src.verbose {
        let log = w.log.join("; ");
        w.src.note(|| format!("operations: {log}"));
    }
    match r {
        Ok(()) | Err(Stop::End) => Ok(w.stats),
        Err(Stop::Fail(m)) => Err(m),
    }
}

/// Walks over a document with a reader that has it as the value on top of its stack. Returns whether
/// the end was reached, which it is not after an error that was due or asked for.
pub fn walk_over<D: Subject>(src: &mut Src, d: &mut D, node: &SNode, p: Profile) -> Result<(Stats, bool), String> {
    let text = Text::new(String::new());
    let mut w = Walk { src, text: &text, p, stats: Stats::default(), log: Vec::new(), style: 0 };
    w.style = w.src.below(3);
    let mut done = false;
    let r = w.value(Value::new(d, &mut done), node);
    if w.src.verbose {
        let log = w.log.join("; ");
        w.src.note(|| format!("operations: {log}"));
    }
    match r {
        Ok(()) if !done => Err("the value was read, but its wrapper does not say so".into()),
        Ok(()) => Ok((w.stats, true)),
        Err(Stop::End) => Ok((w.stats, false)),
        Err(Stop::Fail(m)) => Err(m),
    }
}

impl Walk<'_, '_> {
    fn run(&mut self, node: &SNode, source: Source, comments: bool) -> W {
        let mut d = match TextDeserializer::new(text::config(comments), self.text.open(source)) {
            Ok(d) => d,
            Err(e) => return self.unexpected("opening the document", &e),
        };
        let mut done = false;
        self.value(Value::new(&mut d, &mut done), node)?;
        if !done {
            return self.fail("the value was read, but its wrapper does not say so");
        }
        let r = d.close();
        self.ok("closing the document", r)
    }

    fn fail<T>(&self, m: impl Into<String>) -> W<T> {
        Err(Stop::Fail(m.into()))
    }

    fn unexpected<T>(&self, what: &str, e: &impl Fault) -> W<T> {
        if e.injected() {
            return Err(Stop::End);
        }
        self.fail(format!("{what}: unexpected error: {}", e.show(self.text)))
    }

    fn ok<T, E: Fault>(&self, what: &str, r: Result<T, E>) -> W<T> {
        match r {
            Ok(v) => Ok(v),
            Err(e) => self.unexpected(what, &e),
        }
    }

    /// An operation was done that has to fail.
    fn due<T, U, E: Fault>(&mut self, what: &str, r: Result<T, E>, kind: EKind, pos: usize) -> W<U> {
        self.stats.errors += 1;
        match r {
            Ok(_) => self.fail(format!("{what}: expected {kind:?} at offset {pos}, but it succeeded")),
            Err(e) => {
                if e.injected() {
                    return Err(Stop::End);
                }
                if e.kind() != kind || !e.is_at(self.text, pos) {
                    return self.fail(format!(
                        "{what}: expected {kind:?} at offset {pos}, got {}",
                        e.show(self.text)
                    ));
                }
                Err(Stop::End)
            }
        }
    }

    fn say(&mut self, f: impl FnOnce() -> String) {
        self.stats.ops += 1;
        if self.src.verbose {
            let s = f();
            self.log.push(s);
        }
    }

    fn wrong(&mut self) -> bool {
        self.p.wrong > 0 && self.src.chance(1, self.p.wrong)
    }

    fn check_ty<D: Subject>(&mut self, value: &Value<'_, D>, node: &SNode) -> W {
        let got = text::type_name(value.ty());
        if got != kind_of(node) {
            return self.fail(format!(
                "the type of the value at offset {} is reported as {got} instead of {}",
                node.pos,
                kind_of(node)
            ));
        }
        Ok(())
    }

    /// Reads a value in some way.
    pub fn value<D: Subject>(&mut self, mut value: Value<'_, D>, node: &SNode) -> W {
        for _ in 0..self.src.weighted(&[3, 2, 1]) {
            self.check_ty(&value, node)?;
        }
        if self.wrong() && self.src.chance(1, 2) {
            return self.wrong_type(value, node);
        }
        if !matches!(node.v, SVal::Null) && self.src.chance(1, 6) {
            self.say(|| "check_null".into());
            let r = value.check_null();
            if self.ok("check_null", r)? {
                return self.fail(format!("a {} was taken for null", kind_of(node)));
            }
            self.check_ty(&value, node)?;
        }
        let dup = matches!(&node.v, SVal::Obj(e) if has_duplicates(e));
        if dup || self.p.skip > 0 && self.src.chance(1, self.p.skip) {
            self.say(|| format!("skip {}", kind_of(node)));
            self.stats.skipped += 1;
            match &node.v {
                SVal::Arr(x) if !x.is_empty() => self.stats.skipped_containers += 1,
                SVal::Obj(x) if !x.is_empty() => self.stats.skipped_containers += 1,
                _ => (),
            }
            let r = value.skip();
            return self.ok("skip", r);
        }
        match &node.v {
            SVal::Null => match self.src.idx(2) {
                0 => {
                    self.say(|| "into_null".into());
                    let r = value.into_null();
                    self.ok("into_null", r)
                }
                _ => {
                    self.say(|| "check_null".into());
                    let r = value.check_null();
                    if !self.ok("check_null", r)? {
                        return self.fail("a null was not recognized");
                    }
                    Ok(())
                }
            },
            SVal::Bool(b) => {
                self.say(|| "get_bool".into());
                let r = value.get_bool();
                if self.ok("get_bool", r)? != *b {
                    return self.fail(format!("{b} was read as the opposite"));
                }
                Ok(())
            }
            SVal::Num(lit) => self.number(value, lit),
            SVal::Str(s) => self.string(value, s),
            SVal::Arr(items) => self.array(value, items, node.pos),
            SVal::Obj(entries) => self.object(value, entries, node.pos),
        }
    }

    fn wrong_type<D: Subject>(&mut self, value: Value<'_, D>, node: &SNode) -> W {
        let k = kind_of(node);
        let mut ops = vec!["null", "bool", "number", "string", "array", "object", "struct", "char", "int"];
        ops.retain(|o| match *o {
            "struct" => k != "array" && k != "object",
            "char" => k != "string",
            "int" => k != "number",
            o => o != k,
        });
        let op = ops[self.src.idx(ops.len())];
        self.say(|| format!("read {k} as {op}"));
        let pos = node.pos;
        let what = format!("reading a {k} as {op}");
        match op {
            "null" => self.due(&what, value.into_null(), EKind::Expected(vec!["null"]), pos),
            "bool" => self.due(&what, value.get_bool(), EKind::Expected(vec!["bool"]), pos),
            "number" => self.due(&what, value.get_f64(), EKind::Expected(vec!["number"]), pos),
            "int" => self.due(&what, value.get_u32(), EKind::Expected(vec!["number"]), pos),
            "string" => {
                let r = value.get::<String>();
                self.due(&what, r, EKind::Expected(vec!["string"]), pos)
            }
            "char" => self.due(&what, value.get_char(), EKind::Expected(vec!["string"]), pos),
            "array" => {
                let r = value.into_list().map(|_| ());
                self.due(&what, r, EKind::Expected(vec!["array"]), pos)
            }
            "object" => {
                let r = value.into_object().map(|_| ());
                self.due(&what, r, EKind::Expected(vec!["object"]), pos)
            }
            _ => {
                let r = value.into_struct(Some("S")).map(|_| ());
                self.due(&what, r, EKind::Expected(vec!["object", "array"]), pos)
            }
        }
    }

    fn number<D: Subject>(&mut self, value: Value<'_, D>, lit: &str) -> W {
        self.say(|| format!("number {lit}"));
        match self.src.idx(3) {
            0 => {
                let r = value.get_f32();
                let got = self.ok("get_f32", r)?;
                let want = dom::float32_oracle(lit);
                if got.to_bits() != want.to_bits() {
                    return self.fail(format!("{lit} was read as the f32 {got:e} instead of {want:e}"));
                }
            }
            1 => {
                let r = value.get_f64();
                let got = self.ok("get_f64", r)?;
                let want = dom::float64_oracle(lit);
                if got.to_bits() != want.to_bits() {
                    return self.fail(format!("{lit} was read as the f64 {got:e} instead of {want:e}"));
                }
            }
            _ => {
                let ty = dom::IntTy { bits: 64, signed: true };
                let (want, must) = dom::int_oracle(lit, ty);
                if want.is_none() || !must {
                    let r = value.get_f64();
                    return self.ok("get_f64", r).map(|_| ());
                }
                let r = value.get_i64();
                let got = self.ok("get_i64", r)?;
                if Some(dom::BigI::from_i(got.into())) != want {
                    return self.fail(format!("{lit} was read as {got}"));
                }
            }
        }
        Ok(())
    }

    fn string<D: Subject>(&mut self, value: Value<'_, D>, s: &str) -> W {
        if self.p.partial > 0 && self.src.chance(1, self.p.partial) {
            let (d, done) = value.into_raw();
            let r = d.open_str();
            self.ok("open_str", r)?;
            self.opened_string(d, s, "string")?;
            *done = true;
            return Ok(());
        }
        self.say(|| "get_str".into());
        let mut it = s.chars();
        let got = match (it.next(), it.next(), self.src.idx(3)) {
            (Some(_), None, 2) => value.get_char().map(String::from),
            (_, _, 1) => value.get_str().map(|s| checked(s.into_owned())),
            _ => value.get::<String>().map(checked),
        };
        let got = self.ok("reading a string", got)?;
        if got != s {
            return self.fail(format!("the string {s:?} was read as {got:?}"));
        }
        Ok(())
    }

    /// Consumes an opened string in some way.
    pub fn opened_string<D: Subject>(&mut self, d: &mut D, s: &str, what: &str) -> W {
        let mut it = s.chars();
        let n = s.chars().count();
        let take = if n > 60 { self.src.choose(&[0, 1, n / 2, n - 1, n]) } else { self.src.idx(n + 1) };
        for _ in 0..take {
            let r = d.next_char();
            let got = self.ok("next_char", r)?;
            let want = it.next();
            if got != want {
                return self.fail(format!("in the {what} {s:?}, {got:?} was read instead of {want:?}"));
            }
        }
        let rest = it.as_str();
        let how = self.src.idx(3);
        self.say(|| format!("{take} chars, then {}", ["flush", "skip", "close"][how]));
        self.stats.partial += 1;
        match how {
            0 => {
                let r = d.flush_str().map(|s| checked(s.into_owned()));
                let got = self.ok("flush_str", r)?;
                if got != rest {
                    return self.fail(format!("flushing the rest of {s:?} gave {got:?} instead of {rest:?}"));
                }
            }
            1 => {
                let r = d.skip_str();
                self.ok("skip_str", r)?;
            }
            _ => {
                for want in rest.chars() {
                    let r = d.next_char();
                    if self.ok("next_char", r)? != Some(want) {
                        return self.fail(format!("a character of the {what} {s:?} is wrong"));
                    }
                }
                if self.src.chance(1, 2) {
                    let r = d.close_str();
                    self.ok("close_str", r)?;
                } else {
                    let r = d.next_char();
                    if self.ok("next_char", r)?.is_some() {
                        return self.fail(format!("the {what} {s:?} goes on after its end"));
                    }
                }
            }
        }
        Ok(())
    }

    // --------------------------------------------------------------------------------------------

    fn array<D: Subject>(&mut self, value: Value<'_, D>, items: &[SNode], pos: usize) -> W {
        match self.src.weighted(&[4, 3, 2, 2, 1]) {
            0 => self.list(value, items, pos),
            1 => self.raw_array(value, items, pos),
            2 => self.tuple(value, items, pos),
            3 => self.positional(value, items, pos),
            _ => {
                self.say(|| "into_collection (array)".into());
                let known = value.as_raw().knows_length(pos);
                let r = value.into_collection();
                let mut c = self.ok("into_collection", r)?;
                if !matches!(c, Collection::List(_)) {
                    return self.fail("an array was opened as something else");
                }
                self.collection(&mut c, items.iter(), known)
            }
        }
    }

    fn collection<'n, D: Subject>(
        &mut self,
        c: &mut Collection<'_, D>,
        items: impl ExactSizeIterator<Item = &'n SNode>,
        known: bool,
    ) -> W {
        let n = items.len();
        for (i, item) in items.enumerate() {
            self.stats.items += 1;
            if let Collection::List(l) = &c {
                self.remaining(l.rem_len(), n - i, known)?;
            }
            let r = c.next();
            match self.ok("Collection::next", r)? {
                Some(v) => self.value(v, item)?,
                None => return self.fail("a collection ended early"),
            }
        }
        let r = c.next().map(|x| x.is_some());
        if self.ok("Collection::next", r)? {
            return self.fail("a collection goes on after its end");
        }
        Ok(())
    }

    /// Compares the number of items which is reported to remain, if any is.
    fn remaining(&self, got: Option<usize>, want: usize, known: bool) -> W {
        match got {
            None if known => self.fail("the length of an array is known to the reader, but not reported"),
            Some(got) if got != want => {
                self.fail(format!("{got} items are reported to remain in an array where {want} do"))
            }
            _ => Ok(()),
        }
    }

    fn list<D: Subject>(&mut self, value: Value<'_, D>, items: &[SNode], pos: usize) -> W {
        self.say(|| "into_list".into());
        let known = value.as_raw().knows_length(pos);
        let r = value.into_list();
        let mut list: List<'_, D> = self.ok("into_list", r)?;
        let sized = match list.rem_len() {
            Some(n) if n != items.len() => return self.fail(format!("the length {n} is reported for a list of {}", items.len())),
            x => x.is_some(),
        };
        for (i, item) in items.iter().enumerate() {
            self.remaining(list.rem_len(), items.len() - i, known)?;
            if self.wrong() && !sized {
                self.say(|| "close (early)".into());
                return self.due("closing an array with items left", list.close(), EKind::ExcessItems, pos);
            }
            let by_push = self.src.chance(1, 3);
            self.say(|| format!("{} {i}", if by_push { "push" } else { "next" }));
            self.stats.items += 1;
            let v = if by_push {
                list.push()
            } else {
                match list.next() {
                    Ok(Some(v)) => Ok(v),
                    Ok(None) => return self.fail(format!("the array ended after {i} of {} items", items.len())),
                    Err(e) => Err(e),
                }
            };
            let v = self.ok("getting an item", v)?;
            self.value(v, item)?;
        }
        self.remaining(list.rem_len(), 0, known)?;
        if self.wrong() && !sized {
            self.say(|| "push (past the end)".into());
            let r = list.push().map(|_| ());
            return self.due("demanding an item past the end", r, EKind::MissingItems, pos);
        }
        if self.src.chance(1, 2) {
            self.say(|| "close".into());
            let r = list.close();
            self.ok("closing a list", r)
        } else {
            self.say(|| "next (end)".into());
            let r = list.next().map(|x| x.is_some());
            if self.ok("List::next", r)? {
                return self.fail("a list goes on after its end");
            }
            Ok(())
        }
    }

    fn raw_array<D: Subject>(&mut self, value: Value<'_, D>, items: &[SNode], pos: usize) -> W {
        let (d, done) = value.into_raw();
        let as_tuple = self.src.chance(1, 4);
        self.say(|| format!("open_{}", if as_tuple { "tuple" } else { "list" }));
        if as_tuple {
            let r = d.open_tuple(Some("T"));
            self.ok("open_tuple", r)?;
        } else {
            let r = d.open_list();
            self.ok("open_list", r)?;
        }
        for (i, item) in items.iter().enumerate() {
            if d.peek_collection_type() != CollectionType::Array {
                return self.fail("an open array is reported to be an object");
            }
            if self.wrong() {
                let r = if as_tuple { d.close_tuple() } else { d.close_list() };
                return self.due("closing an array with items left", r, EKind::ExcessItems, pos);
            }
            self.stats.items += 1;
            let demand = self.src.chance(1, 3);
            self.say(|| format!("item {i} {}", if demand { "demanded" } else { "" }));
            if demand {
                let r = if as_tuple { d.push_element() } else { d.push_item() };
                self.ok("push_item", r)?;
            } else {
                let r = d.next_item();
                if !self.ok("next_item", r)? {
                    return self.fail(format!("the array ended after {i} of {} items", items.len()));
                }
            }
            let mut flag = false;
            self.value(Value::new(d, &mut flag), item)?;
            if !flag {
                return self.fail("a value was read, but its wrapper does not say so");
            }
        }
        if self.wrong() {
            let r = if as_tuple { d.push_element() } else { d.push_item() };
            return self.due("demanding an item past the end", r, EKind::MissingItems, pos);
        }
        if self.src.chance(1, 2) {
            let r = if as_tuple { d.close_tuple() } else { d.close_list() };
            self.ok("close_list", r)?;
        } else {
            let r = d.next_item();
            if self.ok("next_item", r)? {
                return self.fail("an array goes on after its end");
            }
        }
        *done = true;
        Ok(())
    }

    fn tuple<D: Subject>(&mut self, value: Value<'_, D>, items: &[SNode], pos: usize) -> W {
        self.say(|| "into_tuple".into());
        let r = value.into_tuple(None);
        let mut t: Tuple<'_, D> = self.ok("into_tuple", r)?;
        for item in items {
            if self.wrong() {
                return self.due("closing a tuple with elements left", t.close(), EKind::ExcessItems, pos);
            }
            self.stats.items += 1;
            let r = t.element();
            let v = self.ok("element", r)?;
            self.value(v, item)?;
        }
        if self.wrong() {
            let r = t.element().map(|_| ());
            return self.due("demanding an element past the end", r, EKind::MissingItems, pos);
        }
        let r = t.close();
        self.ok("closing a tuple", r)
    }

    /// Reads an array as a struct.
    fn positional<D: Subject>(&mut self, value: Value<'_, D>, items: &[SNode], pos: usize) -> W {
        self.say(|| "into_struct (array)".into());
        let r = value.into_struct(Some("S"));
        let mut st: Struct<'_, D> = self.ok("into_struct", r)?;
        for item in items {
            if self.wrong() {
                return self.due("closing a struct with items left", st.close(), EKind::ExcessItems, pos);
            }
            self.stats.items += 1;
            let r = st.field("f");
            let v = self.ok("field", r)?;
            self.value(v, item)?;
        }
        if self.wrong() {
            let r = st.field("g").map(|_| ());
            return self.due("a field past the end", r, EKind::MissingItems, pos);
        }
        let r = st.close();
        self.ok("closing a struct", r)
    }

    // --------------------------------------------------------------------------------------------

    fn object<D: Subject>(&mut self, value: Value<'_, D>, entries: &[(String, SNode)], pos: usize) -> W {
        match self.src.weighted(&[4, 5, 2, 1]) {
            0 => self.wrapped_object(value, entries, pos),
            1 => self.raw_object(value, entries, pos),
            2 if self.p.rest => self.strukt(value, entries, pos),
            2 => self.raw_object(value, entries, pos),
            _ => {
                self.say(|| "into_collection (object)".into());
                let r = value.into_collection();
                let mut c = self.ok("into_collection", r)?;
                if !matches!(c, Collection::Object(_)) {
                    return self.fail("an object was opened as something else");
                }
                self.collection(&mut c, entries.iter().map(|e| &e.1), false)
            }
        }
    }

    /// A key which is not (or no longer) in the object.
    fn absent_key(&mut self, entries: &[(String, SNode)], taken: &[bool]) -> Option<String> {
        let gone: Vec<usize> = (0..entries.len()).filter(|i| taken[*i]).collect();
        let key = match self.src.idx(3) {
            0 if !gone.is_empty() => return Some(entries[gone[self.src.idx(gone.len())]].0.clone()),
            1 if !entries.is_empty() => {
                let mut k = entries[self.src.idx(entries.len())].0.clone();
                match self.src.idx(5) {
                    0 => {
                        k.pop();
                    }
                    1 => k.push('x'),
                    2 => k.push('"'),
                    3 => k = k.to_uppercase(),
                    _ => {
                        if !k.is_empty() {
                            k.remove(0);
                        }
                    }
                }
                k
            }
            _ => dom::gen_key(self.src),
        };
        (!entries.iter().any(|e| e.0 == key)).then_some(key)
    }

    fn unread(taken: &[bool]) -> Vec<usize> {
        (0..taken.len()).filter(|i| !taken[*i]).collect()
    }

    fn took(&mut self, taken: &mut [bool], i: usize) {
        self.stats.entries += 1;
        if taken[..i].iter().any(|t| !t) {
            self.stats.out_of_order += 1;
        }
        taken[i] = true;
    }

    fn wrapped_object<D: Subject>(&mut self, value: Value<'_, D>, entries: &[(String, SNode)], pos: usize) -> W {
        self.say(|| "into_object".into());
        let r = value.into_object();
        let mut obj: Object<'_, D> = self.ok("into_object", r)?;
        let mut taken = vec![false; entries.len()];
        loop {
            let unread = Self::unread(&taken);
            if self.wrong() {
                if self.src.chance(1, 2) {
                    if let Some(k) = self.absent_key(entries, &taken) {
                        self.say(|| format!("entry {k:?} (absent)"));
                        let r = obj.entry(&k).map(|_| ());
                        return self.due("demanding an absent entry", r, EKind::MissingKey(k), pos);
                    }
                } else if let Some(i) = unread.first() {
                    self.say(|| "close (early)".into());
                    let kind = EKind::ExtraKey(entries[*i].0.clone());
                    return self.due("closing an object with entries left", obj.close(), kind, pos);
                }
            }
            match self.src.weighted(&[6, 3, 3 + 3 * u64::from(self.style == 1), 1]) {
                3 => self.inline(&mut obj, entries, &mut taken, unread)?,
                0 if !unread.is_empty() => {
                    let i = unread[self.src.idx(unread.len())];
                    let (k, node) = &entries[i];
                    self.took(&mut taken, i);
                    let v = if self.src.chance(1, 2) {
                        self.say(|| format!("entry {k:?}"));
                        let r = obj.entry(k);
                        self.ok("entry", r)?
                    } else {
                        self.say(|| format!("try_entry {k:?}"));
                        let r = obj.try_entry(k);
                        match self.ok("try_entry", r)? {
                            Some(v) => v,
                            None => return self.fail(format!("the entry {k:?} was not found")),
                        }
                    };
                    self.value(v, node)?;
                }
                1 => {
                    if let Some(k) = self.absent_key(entries, &taken) {
                        self.say(|| format!("try_entry {k:?} (absent)"));
                        self.stats.absent += 1;
                        let r = obj.try_entry(&k).map(|x| x.is_some());
                        if self.ok("try_entry", r)? {
                            return self.fail(format!("an entry was found for {k:?}, which is absent or taken"));
                        }
                    }
                }
                _ => {
                    if unread.is_empty() && self.src.chance(1, 2) {
                        self.say(|| "close".into());
                        let r = obj.close();
                        return self.ok("closing an object", r);
                    }
                    self.say(|| "next_entry".into());
                    let r = obj.next_entry();
                    match (self.ok("next_entry", r)?, unread.first()) {
                        (None, None) => return Ok(()),
                        (None, Some(i)) => {
                            return self.fail(format!("enumeration ended although {:?} is unread", entries[*i].0))
                        }
                        (Some(_), None) => return self.fail("enumeration goes on after all entries were read"),
                        (Some(mut e), Some(i)) => {
                            let (k, node) = &entries[*i];
                            self.took(&mut taken, *i);
                            if self.src.chance(2, 3) {
                                let r = e.key().map(|k| checked(k.into_owned()));
                                let got = self.ok("key", r)?;
                                if got != *k {
                                    return self.fail(format!("the next key is {got:?} instead of {k:?}"));
                                }
                            }
                            let r = e.value();
                            let v = self.ok("value of an entry", r)?;
                            self.value(v, node)?;
                        }
                    }
                }
            }
        }
    }

    /// Reads some of the remaining entries as an inlined struct.
    fn inline<D: Subject>(
        &mut self,
        obj: &mut Object<'_, D>,
        entries: &[(String, SNode)],
        taken: &mut [bool],
        mut unread: Vec<usize>,
    ) -> W {
        let n = self.src.idx(4).min(unread.len());
        let mut list = Inline::default();
        let mut which = Vec::new();
        for _ in 0..n {
            let i = unread.swap_remove(self.src.idx(unread.len()));
            if entries.iter().filter(|e| e.0 == entries[i].0).count() != 1 {
                continue;
            }
            let mode = if self.p.skip > 0 { super::props::gen_mode(self.src) } else { Mode::Stream };
            list.wanted.push((intern(&entries[i].0), mode));
            which.push(i);
        }
        self.say(|| format!("inline {:?}", list.wanted));
        for i in &which {
            self.took(taken, *i);
        }
        let r = obj.inline_using::<Inlined, _>(&mut list);
        self.ok("inline", r)?;
        for (i, got) in which.iter().zip(&list.got) {
            let (k, node) = &entries[*i];
            if !super::props::any_matches(got, node) {
                return self.fail(format!("the inlined field {k:?} was read as {got:?}"));
            }
        }
        Ok(())
    }

    fn raw_object<D: Subject>(&mut self, value: Value<'_, D>, entries: &[(String, SNode)], pos: usize) -> W {
        let (d, done) = value.into_raw();
        self.say(|| "open_object".into());
        let r = d.open_object();
        self.ok("open_object", r)?;
        let mut taken = vec![false; entries.len()];
        loop {
            if d.peek_collection_type() != CollectionType::Object {
                return self.fail("an open object is reported to be an array");
            }
            let unread = Self::unread(&taken);
            if self.wrong() {
                if self.src.chance(1, 2) {
                    if let Some(k) = self.absent_key(entries, &taken) {
                        let r = d.push_entry(&k);
                        return self.due("demanding an absent entry", r, EKind::MissingKey(k), pos);
                    }
                } else if let Some(i) = unread.first() {
                    let kind = EKind::ExtraKey(entries[*i].0.clone());
                    let r = d.close_object();
                    return self.due("closing an object with entries left", r, kind, pos);
                }
            }
            match self.src.weighted(&[4, 2, 2 + 2 * u64::from(self.style == 1), u64::from(self.p.rest)]) {
                0 if !unread.is_empty() => {
                    let i = unread[self.src.idx(unread.len())];
                    let (k, node) = &entries[i];
                    self.took(&mut taken, i);
                    self.say(|| format!("push_entry {k:?}"));
                    if self.src.chance(1, 3) {
                        let r = d.push_entry(k);
                        self.ok("push_entry", r)?;
                    } else {
                        let r = d.try_push_entry(k);
                        if !self.ok("try_push_entry", r)? {
                            return self.fail(format!("the entry {k:?} was not found"));
                        }
                    }
                    let mut flag = false;
                    self.value(Value::new(d, &mut flag), node)?;
                }
                1 => {
                    if let Some(k) = self.absent_key(entries, &taken) {
                        self.say(|| format!("try_push_entry {k:?} (absent)"));
                        self.stats.absent += 1;
                        let r = d.try_push_entry(&k);
                        if self.ok("try_push_entry", r)? {
                            return self.fail(format!("an entry was found for {k:?}, which is absent or taken"));
                        }
                        if self.src.chance(1, 3) {
                            // A stand-in for it
                            d.push_null(Some(intern(&k)));
                            if text::type_name(d.peek_value_type()) != "null" {
                                return self.fail("a virtual null is not null");
                            }
                            let r = d.check_null();
                            if !self.ok("check_null", r)? {
                                return self.fail("a virtual null is not null");
                            }
                        }
                    }
                }
                3 => {
                    self.say(|| "skip_object".into());
                    self.stats.rest_skipped += u32::from(!unread.is_empty());
                    let r = d.skip_object();
                    self.ok("skip_object", r)?;
                    *done = true;
                    return Ok(());
                }
                _ => {
                    if unread.is_empty() && self.src.chance(1, 2) {
                        self.say(|| "close_object".into());
                        let r = d.close_object();
                        self.ok("close_object", r)?;
                        *done = true;
                        return Ok(());
                    }
                    self.say(|| "next_entry".into());
                    let r = d.next_entry();
                    let more = self.ok("next_entry", r)?;
                    match (more, unread.first()) {
                        (false, None) => {
                            *done = true;
                            return Ok(());
                        }
                        (false, Some(i)) => {
                            return self.fail(format!("enumeration ended although {:?} is unread", entries[*i].0))
                        }
                        (true, None) => return self.fail("enumeration goes on after all entries were read"),
                        (true, Some(i)) => {
                            let (k, node) = &entries[*i];
                            self.took(&mut taken, *i);
                            if self.p.partial > 0 && self.src.chance(1, 2) {
                                self.opened_string(d, k, "key")?;
                            } else {
                                let r = d.flush_str().map(|s| checked(s.into_owned()));
                                let got = self.ok("flush_str", r)?;
                                if got != *k {
                                    return self.fail(format!("the next key is {got:?} instead of {k:?}"));
                                }
                            }
                            let mut flag = false;
                            self.value(Value::new(d, &mut flag), node)?;
                        }
                    }
                }
            }
        }
    }

    /// Reads an object as a struct with some fields.
    fn strukt<D: Subject>(&mut self, value: Value<'_, D>, entries: &[(String, SNode)], pos: usize) -> W {
        self.say(|| "into_struct (object)".into());
        let r = value.into_struct(Some("S"));
        let mut st: Struct<'_, D> = self.ok("into_struct", r)?;
        let mut taken = vec![false; entries.len()];
        let n = self.src.idx(entries.len().min(6) + 2);
        for _ in 0..n {
            let unread = Self::unread(&taken);
            if !unread.is_empty() && self.src.chance(2, 3) {
                let i = unread[self.src.idx(unread.len())];
                let (k, node) = &entries[i];
                self.say(|| format!("field {k:?}"));
                self.took(&mut taken, i);
                let r = st.field(intern(k));
                let v = self.ok("field", r)?;
                self.value(v, node)?;
            } else if let Some(k) = self.absent_key(entries, &taken) {
                self.say(|| format!("field {k:?} (absent)"));
                self.stats.absent += 1;
                let key = intern(&k);
                let r = st.field(key);
                let mut v = self.ok("field", r)?;
                if text::type_name(v.ty()) != "null" {
                    return self.fail("an absent field is not null");
                }
                if self.wrong() {
                    let kind = EKind::MissingKey(k);
                    return match self.src.idx(6) {
                        0 => self.due("reading an absent field", v.get_bool(), kind, pos),
                        1 => self.due("reading an absent field", v.get_i8(), kind, pos),
                        2 => {
                            let r = v.get::<String>();
                            self.due("reading an absent field", r, kind, pos)
                        }
                        3 => {
                            let r = v.into_struct(None).map(|_| ());
                            self.due("reading an absent field", r, kind, pos)
                        }
                        4 => {
                            let r = v.into_list().map(|_| ());
                            self.due("reading an absent field", r, kind, pos)
                        }
                        _ => {
                            let r = v.into_object().map(|_| ());
                            self.due("reading an absent field", r, kind, pos)
                        }
                    };
                }
                match self.src.idx(3) {
                    0 => {
                        let r = v.into_null();
                        self.ok("into_null", r)?;
                    }
                    1 => {
                        let r = v.skip();
                        self.ok("skip", r)?;
                    }
                    _ => {
                        let r = v.check_null();
                        if !self.ok("check_null", r)? {
                            return self.fail("an absent field is not null");
                        }
                    }
                }
            }
        }
        self.say(|| "close (struct)".into());
        self.stats.rest_skipped += u32::from(taken.iter().any(|t| !t));
        let r = st.close();
        self.ok("closing a struct", r)
    }
}
