//! A second implementation of the JSON interfaces, over a document in memory. Every call is checked
//! against the stack discipline which the interfaces document, and any call can be made to fail.

use crate::dom::{self, BigI, IntTy, Node, SNode, SVal};
use crate::engine::protocol_broken;
use crate::io::Text;
use crate::text::{type_name, EKind, Fault, Subject};
use serdere::{Deserializer, NameMap, Outliner, Serializer};
use serdere_json::{CollectionType, JsonDeserializer, JsonOutliner, JsonSerializer, ValueType};

#[derive(Debug, Clone, PartialEq)]
pub struct TreeErr {
    pub kind: EKind,
    pub pos: usize,
    /// Is this the failure which the check asked for?
    pub injected: bool,
}

impl std::fmt::Display for TreeErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

impl std::error::Error for TreeErr {}

impl Fault for TreeErr {
    fn kind(&self) -> EKind {
        self.kind.clone()
    }
    fn is_at(&self, _: &Text, offset: usize) -> bool {
        self.pos == offset
    }
    fn show(&self, _: &Text) -> String {
        format!("{self:?}")
    }
    fn injected(&self) -> bool {
        self.injected
    }
}

/// Counts the calls and fails one of them.
#[derive(Default)]
struct Calls {
    made: usize,
    fail_at: Option<usize>,
    failed: bool,
}

impl Calls {
    fn call(&mut self, op: &str) -> Result<(), TreeErr> {
        if self.failed {
            protocol_broken(format!("{op} was called after an error"));
        }
        self.made += 1;
        if self.fail_at == Some(self.made - 1) {
            self.failed = true;
            return Err(TreeErr { kind: EKind::Custom(format!("failed at {op}")), pos: 0, injected: true });
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug)]
enum Top<'n> {
    Value(&'n SNode),
    /// A stand-in for an entry which is not there, with the position of its object.
    Missing(Option<&'static str>, usize),
    Str(std::str::Chars<'n>, usize),
    Object { entries: &'n [(String, SNode)], taken: Vec<bool>, pos: usize },
    Array { items: &'n [SNode], next: usize, pos: usize },
}

pub struct TreeDe<'n> {
    stack: Vec<Top<'n>>,
    /// Where the most recently popped item is.
    last: usize,
    /// Decides for which arrays the length is reported.
    sized: u64,
    calls: Calls,
}

type R<T = ()> = Result<T, TreeErr>;

impl<'n> TreeDe<'n> {
    pub fn new(node: &'n SNode, sized: u64, fail_at: Option<usize>) -> Self {
        TreeDe {
            stack: vec![Top::Value(node)],
            last: 0,
            sized,
            calls: Calls { fail_at, ..Calls::default() },
        }
    }

    pub fn calls(&self) -> usize {
        self.calls.made
    }

    pub fn failed(&self) -> bool {
        self.calls.failed
    }

    /// Was everything read?
    pub fn finish(&self) {
        if !self.stack.is_empty() {
            protocol_broken(format!("reading ended while the stack is {:?}", self.stack));
        }
    }

    fn fail<T>(&mut self, kind: EKind, pos: usize) -> R<T> {
        self.calls.failed = true;
        Err(TreeErr { kind, pos, injected: false })
    }

    fn wrong_top(&self, op: &str) -> ! {
        protocol_broken(format!("{op} was called while the top of the stack is {:?}", self.stack.last()))
    }

    /// Pops a value of some type.
    fn pop<T>(&mut self, op: &str, types: &[&'static str], f: impl FnOnce(&'n SVal) -> Option<T>) -> R<(T, usize)> {
        self.calls.call(op)?;
        match self.stack.last() {
            Some(Top::Value(n)) => {
                let n = *n;
                match f(&n.v) {
                    Some(v) => {
                        self.stack.pop();
                        self.last = n.pos;
                        Ok((v, n.pos))
                    }
                    None => self.fail(EKind::Expected(types.to_vec()), n.pos),
                }
            }
            Some(Top::Missing(key, pos)) => {
                let (key, pos) = (key.expect("the stand-in has a key"), *pos);
                self.fail(EKind::MissingKey(key.to_string()), pos)
            }
            _ => self.wrong_top(op),
        }
    }

    fn int(&mut self, op: &str, ty: IntTy) -> R<BigI> {
        let (lit, pos) = self.pop(op, &["number"], |v| match v {
            SVal::Num(lit) => Some(lit),
            _ => None,
        })?;
        match dom::int_oracle(lit, ty).0 {
            Some(v) => Ok(v),
            None => self.fail(EKind::NumberOverflow, pos),
        }
    }

    fn open_array(&mut self, op: &str) -> R<Option<usize>> {
        let (items, pos) = self.pop(op, &["array"], |v| match v {
            SVal::Arr(items) => Some(items),
            _ => None,
        })?;
        self.stack.push(Top::Array { items, next: 0, pos });
        Ok(self.knows_length(pos).then_some(items.len()))
    }

    fn pop_null_if(&mut self, op: &str) -> bool {
        match self.stack.last() {
            Some(Top::Value(SNode { v: SVal::Null, pos })) => self.last = *pos,
            Some(Top::Missing(_, pos)) => self.last = *pos,
            Some(Top::Value(_)) => return false,
            _ => self.wrong_top(op),
        }
        self.stack.pop();
        true
    }
}

impl Outliner for TreeDe<'_> {
    type Error = TreeErr;

    fn supports_null(&self) -> bool {
        true
    }
    fn pop_null(&mut self) -> R {
        self.calls.call("pop_null")?;
        if self.pop_null_if("pop_null") {
            return Ok(());
        }
        let Some(Top::Value(n)) = self.stack.last() else { unreachable!() };
        let pos = n.pos;
        self.fail(EKind::Expected(vec!["null"]), pos)
    }
    fn open_str(&mut self) -> R {
        let (s, pos) = self.pop("open_str", &["string"], |v| match v {
            SVal::Str(s) => Some(s),
            _ => None,
        })?;
        self.stack.push(Top::Str(s.chars(), pos));
        Ok(())
    }
    fn close_str(&mut self) -> R {
        self.calls.call("close_str")?;
        match self.stack.last() {
            Some(Top::Str(rest, pos)) => {
                let (empty, pos) = (rest.as_str().is_empty(), *pos);
                if !empty {
                    return self.fail(EKind::Custom("the string goes on".into()), pos);
                }
                self.stack.pop();
                self.last = pos;
                Ok(())
            }
            _ => self.wrong_top("close_str"),
        }
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> R {
        serdere_json::deserialize::open_struct(self, type_name)
    }
    fn push_field(&mut self, name: &'static str) -> R {
        serdere_json::deserialize::push_field(self, name)
    }
    fn close_struct(&mut self) -> R {
        serdere_json::deserialize::close_struct(self)
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> R {
        self.open_array("open_tuple").map(|_| ())
    }
    fn push_element(&mut self) -> R {
        serdere_json::deserialize::push_item(self)
    }
    fn close_tuple(&mut self) -> R {
        serdere_json::deserialize::close_list(self)
    }
    fn push_item(&mut self) -> R {
        serdere_json::deserialize::push_item(self)
    }
    fn close_list(&mut self) -> R {
        serdere_json::deserialize::close_list(self)
    }
}

impl JsonOutliner for TreeDe<'_> {
    fn open_object(&mut self) -> R {
        let (entries, pos) = self.pop("open_object", &["object"], |v| match v {
            SVal::Obj(e) => Some(e),
            _ => None,
        })?;
        self.stack.push(Top::Object { entries, taken: vec![false; entries.len()], pos });
        Ok(())
    }
    fn push_entry(&mut self, key: &str) -> R {
        if !self.try_push_entry(key)? {
            self.skip_object()?;
            let e = self.error_missing_entry(key.to_string());
            return self.fail(e.kind, e.pos);
        }
        Ok(())
    }
    fn close_object(&mut self) -> R {
        if self.next_entry()? {
            let key = self.flush_str()?.into_owned();
            self.skip_value()?;
            let e = self.error_extra_entry(key);
            return self.fail(e.kind, e.pos);
        }
        Ok(())
    }
}

impl Deserializer for TreeDe<'_> {
    fn get_bool(&mut self) -> R<bool> {
        let r = self.pop("get_bool", &["bool"], |v| match v {
            SVal::Bool(b) => Some(*b),
            _ => None,
        })?;
        Ok(r.0)
    }
    fn get_i8(&mut self) -> R<i8> {
        self.int("get_i8", IntTy { bits: 8, signed: true }).map(|v| signed(v) as i8)
    }
    fn get_i16(&mut self) -> R<i16> {
        self.int("get_i16", IntTy { bits: 16, signed: true }).map(|v| signed(v) as i16)
    }
    fn get_i32(&mut self) -> R<i32> {
        self.int("get_i32", IntTy { bits: 32, signed: true }).map(|v| signed(v) as i32)
    }
    fn get_i64(&mut self) -> R<i64> {
        self.int("get_i64", IntTy { bits: 64, signed: true }).map(|v| signed(v) as i64)
    }
    fn get_u8(&mut self) -> R<u8> {
        self.int("get_u8", IntTy { bits: 8, signed: false }).map(|v| v.mag as u8)
    }
    fn get_u16(&mut self) -> R<u16> {
        self.int("get_u16", IntTy { bits: 16, signed: false }).map(|v| v.mag as u16)
    }
    fn get_u32(&mut self) -> R<u32> {
        self.int("get_u32", IntTy { bits: 32, signed: false }).map(|v| v.mag as u32)
    }
    fn get_u64(&mut self) -> R<u64> {
        self.int("get_u64", IntTy { bits: 64, signed: false }).map(|v| v.mag as u64)
    }
    fn get_f32(&mut self) -> R<f32> {
        let r = self.pop("get_f32", &["number"], |v| match v {
            SVal::Num(lit) => Some(dom::float32_oracle(lit)),
            _ => None,
        })?;
        Ok(r.0)
    }
    fn get_f64(&mut self) -> R<f64> {
        let r = self.pop("get_f64", &["number"], |v| match v {
            SVal::Num(lit) => Some(dom::float64_oracle(lit)),
            _ => None,
        })?;
        Ok(r.0)
    }
    fn get_char(&mut self) -> R<char> {
        let (s, pos) = self.pop("get_char", &["string"], |v| match v {
            SVal::Str(s) => Some(s),
            _ => None,
        })?;
        let mut it = s.chars();
        match (it.next(), it.next()) {
            (Some(c), None) => Ok(c),
            _ => self.fail(EKind::Custom("not one character".into()), pos),
        }
    }
    fn next_char(&mut self) -> R<Option<char>> {
        self.calls.call("next_char")?;
        match self.stack.last_mut() {
            Some(Top::Str(rest, pos)) => {
                let pos = *pos;
                let c = rest.next();
                if c.is_none() {
                    self.stack.pop();
                    self.last = pos;
                }
                Ok(c)
            }
            _ => self.wrong_top("next_char"),
        }
    }
    fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> R<usize> {
        serdere_json::deserialize::get_tag(self, max_index, names)
    }
    fn check_null(&mut self) -> R<bool> {
        self.calls.call("check_null")?;
        Ok(self.pop_null_if("check_null"))
    }
    fn open_list(&mut self) -> R<Option<usize>> {
        self.open_array("open_list")
    }
    fn next_item(&mut self) -> R<bool> {
        self.calls.call("next_item")?;
        match self.stack.last_mut() {
            Some(Top::Array { items, next, pos }) => {
                let (items, pos): (&[SNode], _) = (items, *pos);
                match items.get(*next) {
                    Some(n) => {
                        *next += 1;
                        self.stack.push(Top::Value(n));
                        Ok(true)
                    }
                    None => {
                        self.stack.pop();
                        self.last = pos;
                        Ok(false)
                    }
                }
            }
            _ => self.wrong_top("next_item"),
        }
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> TreeErr {
        TreeErr { kind: EKind::Custom(source.to_string()), pos: self.last, injected: false }
    }
    fn error_missing_item(&self) -> TreeErr {
        TreeErr { kind: EKind::MissingItems, pos: self.last, injected: false }
    }
    fn error_extra_item(&self) -> TreeErr {
        match self.stack.last() {
            Some(Top::Array { pos, .. }) => TreeErr { kind: EKind::ExcessItems, pos: *pos, injected: false },
            _ => self.wrong_top("error_extra_item"),
        }
    }
}

impl Subject for TreeDe<'_> {
    fn knows_length(&self, pos: usize) -> bool {
        self.sized != 0 && crate::engine::mix(self.sized ^ pos as u64) % 3 == 0
    }
}

fn signed(v: BigI) -> i128 {
    if v.neg {
        (v.mag as i128).wrapping_neg()
    } else {
        v.mag as i128
    }
}

impl JsonDeserializer for TreeDe<'_> {
    fn peek_value_type(&self) -> ValueType {
        match self.stack.last() {
            Some(Top::Missing(..)) => ValueType::Null,
            Some(Top::Value(n)) => match &n.v {
                SVal::Null => ValueType::Null,
                SVal::Bool(_) => ValueType::Bool,
                SVal::Num(_) => ValueType::Number,
                SVal::Str(_) => ValueType::String,
                SVal::Arr(_) => ValueType::Array,
                SVal::Obj(_) => ValueType::Object,
            },
            _ => self.wrong_top("peek_value_type"),
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        match self.stack.last() {
            Some(Top::Object { .. }) => CollectionType::Object,
            Some(Top::Array { .. }) => CollectionType::Array,
            _ => self.wrong_top("peek_collection_type"),
        }
    }
    fn push_null(&mut self, key: Option<&'static str>) {
        match self.stack.last() {
            Some(Top::Object { pos, .. } | Top::Array { pos, .. }) => {
                let top = Top::Missing(key, *pos);
                self.stack.push(top);
            }
            _ => self.wrong_top("push_null"),
        }
    }
    fn try_push_entry(&mut self, key: &str) -> R<bool> {
        self.calls.call("try_push_entry")?;
        match self.stack.last_mut() {
            Some(Top::Object { entries, taken, .. }) => {
                let entries: &[(String, SNode)] = entries;
                match (0..entries.len()).find(|i| !taken[*i] && entries[*i].0 == key) {
                    Some(i) => {
                        taken[i] = true;
                        self.stack.push(Top::Value(&entries[i].1));
                        Ok(true)
                    }
                    None => Ok(false),
                }
            }
            _ => self.wrong_top("try_push_entry"),
        }
    }
    fn next_entry(&mut self) -> R<bool> {
        self.calls.call("next_entry")?;
        match self.stack.last_mut() {
            Some(Top::Object { entries, taken, pos }) => {
                let (entries, pos): (&[(String, SNode)], _) = (entries, *pos);
                match taken.iter().position(|t| !t) {
                    Some(i) => {
                        taken[i] = true;
                        let (k, v) = &entries[i];
                        self.stack.push(Top::Value(v));
                        // Where a key is does not show in any error
                        self.stack.push(Top::Str(k.chars(), v.pos));
                        Ok(true)
                    }
                    None => {
                        self.stack.pop();
                        self.last = pos;
                        Ok(false)
                    }
                }
            }
            _ => self.wrong_top("next_entry"),
        }
    }
    fn error_expected_type(&self, expected: &'static [ValueType]) -> TreeErr {
        match self.stack.last() {
            Some(Top::Value(n)) => TreeErr {
                kind: EKind::Expected(expected.iter().map(|t| type_name(*t)).collect()),
                pos: n.pos,
                injected: false,
            },
            Some(Top::Missing(Some(key), pos)) => {
                TreeErr { kind: EKind::MissingKey(key.to_string()), pos: *pos, injected: false }
            }
            _ => self.wrong_top("error_expected_type"),
        }
    }
    fn error_missing_entry(&self, key: String) -> TreeErr {
        TreeErr { kind: EKind::MissingKey(key), pos: self.last, injected: false }
    }
    fn error_extra_entry(&self, key: String) -> TreeErr {
        match self.stack.last() {
            Some(Top::Object { pos, .. }) => TreeErr { kind: EKind::ExtraKey(key), pos: *pos, injected: false },
            _ => self.wrong_top("error_extra_entry"),
        }
    }
}

// ------------------------------------------------------------------------------------------------

#[derive(Debug)]
enum Out {
    Value,
    Str(String),
    /// The key of an entry whose value is below it on the stack.
    Key(String),
    Object(Vec<(String, Node)>, Vec<String>),
    Array(Vec<Node>, Option<usize>),
}

/// Builds the document which is written.
pub struct TreeSer {
    stack: Vec<Out>,
    result: Option<Node>,
    calls: Calls,
}

impl TreeSer {
    pub fn new(fail_at: Option<usize>) -> Self {
        TreeSer { stack: vec![Out::Value], result: None, calls: Calls { fail_at, ..Calls::default() } }
    }

    pub fn calls(&self) -> usize {
        self.calls.made
    }

    pub fn failed(&self) -> bool {
        self.calls.failed
    }

    pub fn finish(self) -> Node {
        match (self.result, &self.stack[..]) {
            (Some(n), []) => n,
            (_, stack) => protocol_broken(format!("writing ended while the stack is {stack:?}")),
        }
    }

    fn wrong_top(&self, op: &str) -> ! {
        protocol_broken(format!("{op} was called while the top of the stack is {:?}", self.stack.last()))
    }

    fn pop_value(&mut self, op: &str) -> R {
        self.calls.call(op)?;
        match self.stack.last() {
            Some(Out::Value) => {
                self.stack.pop();
                Ok(())
            }
            _ => self.wrong_top(op),
        }
    }

    fn deliver(&mut self, node: Node) -> R {
        match self.stack.last_mut() {
            None => self.result = Some(node),
            Some(Out::Array(items, _)) => items.push(node),
            Some(Out::Object(entries, keys)) => {
                let key = keys.pop().unwrap_or_else(|| protocol_broken("the value of an entry was written before its key"));
                entries.push((key, node));
            }
            _ => self.wrong_top("a value"),
        }
        Ok(())
    }

    fn scalar(&mut self, op: &str, node: Node) -> R {
        self.pop_value(op)?;
        self.deliver(node)
    }

    fn open(&mut self, op: &str, out: Out) -> R {
        self.pop_value(op)?;
        self.stack.push(out);
        Ok(())
    }

    fn item(&mut self, op: &str) -> R {
        self.calls.call(op)?;
        match self.stack.last_mut() {
            Some(Out::Array(_, len)) => {
                match len {
                    Some(0) => protocol_broken(format!("{op} was called for more items than were announced")),
                    Some(n) => *n -= 1,
                    None => (),
                }
                self.stack.push(Out::Value);
                Ok(())
            }
            _ => self.wrong_top(op),
        }
    }

    fn end_array(&mut self, op: &str) -> R {
        self.calls.call(op)?;
        match self.stack.pop() {
            Some(Out::Array(items, None | Some(0))) => self.deliver(Node::Arr(items)),
            Some(Out::Array(..)) => protocol_broken(format!("{op} was called for fewer items than were announced")),
            other => {
                self.stack.extend(other);
                self.wrong_top(op)
            }
        }
    }
}

impl Outliner for TreeSer {
    type Error = TreeErr;

    fn supports_null(&self) -> bool {
        true
    }
    fn pop_null(&mut self) -> R {
        self.scalar("pop_null", Node::Null)
    }
    fn open_str(&mut self) -> R {
        self.open("open_str", Out::Str(String::new()))
    }
    fn close_str(&mut self) -> R {
        self.calls.call("close_str")?;
        match self.stack.pop() {
            Some(Out::Str(s)) => self.deliver(Node::Str(s)),
            Some(Out::Key(key)) => match &mut self.stack[..] {
                [.., Out::Object(_, keys), Out::Value] => {
                    keys.push(key);
                    Ok(())
                }
                stack => protocol_broken(format!("a key was closed over {stack:?}")),
            },
            other => {
                self.stack.extend(other);
                self.wrong_top("close_str")
            }
        }
    }
    fn open_struct(&mut self, _: Option<&'static str>) -> R {
        self.open_object()
    }
    fn push_field(&mut self, name: &'static str) -> R {
        self.push_entry(name)
    }
    fn close_struct(&mut self) -> R {
        self.close_object()
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> R {
        self.open("open_tuple", Out::Array(Vec::new(), None))
    }
    fn push_element(&mut self) -> R {
        self.item("push_element")
    }
    fn close_tuple(&mut self) -> R {
        self.end_array("close_tuple")
    }
    fn push_item(&mut self) -> R {
        self.item("push_item")
    }
    fn close_list(&mut self) -> R {
        self.end_array("close_list")
    }
}

impl JsonOutliner for TreeSer {
    fn open_object(&mut self) -> R {
        self.open("open_object", Out::Object(Vec::new(), Vec::new()))
    }
    fn push_entry(&mut self, key: &str) -> R {
        self.calls.call("push_entry")?;
        match self.stack.last_mut() {
            Some(Out::Object(_, keys)) => {
                keys.push(key.to_string());
                self.stack.push(Out::Value);
                Ok(())
            }
            _ => self.wrong_top("push_entry"),
        }
    }
    fn close_object(&mut self) -> R {
        self.calls.call("close_object")?;
        match self.stack.pop() {
            Some(Out::Object(entries, _)) => self.deliver(Node::Obj(entries)),
            other => {
                self.stack.extend(other);
                self.wrong_top("close_object")
            }
        }
    }
}

impl Serializer for TreeSer {
    fn put_bool(&mut self, v: bool) -> R {
        self.scalar("put_bool", Node::Bool(v))
    }
    fn put_i8(&mut self, v: i8) -> R {
        self.scalar("put_i8", Node::Num(v.to_string()))
    }
    fn put_i16(&mut self, v: i16) -> R {
        self.scalar("put_i16", Node::Num(v.to_string()))
    }
    fn put_i32(&mut self, v: i32) -> R {
        self.scalar("put_i32", Node::Num(v.to_string()))
    }
    fn put_i64(&mut self, v: i64) -> R {
        self.scalar("put_i64", Node::Num(v.to_string()))
    }
    fn put_u8(&mut self, v: u8) -> R {
        self.scalar("put_u8", Node::Num(v.to_string()))
    }
    fn put_u16(&mut self, v: u16) -> R {
        self.scalar("put_u16", Node::Num(v.to_string()))
    }
    fn put_u32(&mut self, v: u32) -> R {
        self.scalar("put_u32", Node::Num(v.to_string()))
    }
    fn put_u64(&mut self, v: u64) -> R {
        self.scalar("put_u64", Node::Num(v.to_string()))
    }
    fn put_f32(&mut self, v: f32) -> R {
        self.scalar("put_f32", Node::Num(format!("{v:e}")))
    }
    fn put_f64(&mut self, v: f64) -> R {
        self.scalar("put_f64", Node::Num(format!("{v:e}")))
    }
    fn put_char(&mut self, v: char) -> R {
        self.scalar("put_char", Node::Str(v.to_string()))
    }
    fn append_char(&mut self, v: char) -> R {
        self.calls.call("append_char")?;
        match self.stack.last_mut() {
            Some(Out::Str(s) | Out::Key(s)) => {
                s.push(v);
                Ok(())
            }
            _ => self.wrong_top("append_char"),
        }
    }
    fn put_tag(&mut self, max_index: usize, index: usize, name: Option<&'static str>) -> R {
        serdere_json::serialize::put_tag(self, max_index, index, name)
    }
    fn open_list_sized(&mut self, len: usize) -> R {
        self.open("open_list_sized", Out::Array(Vec::new(), Some(len)))
    }
}

impl JsonSerializer for TreeSer {
    fn open_list_streaming(&mut self) -> R {
        self.open("open_list_streaming", Out::Array(Vec::new(), None))
    }
    fn add_entry(&mut self) -> R {
        self.calls.call("add_entry")?;
        match self.stack.last() {
            Some(Out::Object(..)) => {
                self.stack.push(Out::Value);
                self.stack.push(Out::Key(String::new()));
                Ok(())
            }
            _ => self.wrong_top("add_entry"),
        }
    }
}
