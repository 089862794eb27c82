//! A second format for the core interfaces: it records the calls of a serializer as tokens, and
//! gives them back only to a reader which makes the same calls in the same order. Every call is
//! checked against the stack discipline that the interfaces document.

use crate::engine::protocol_broken;
use serdere::{Deserializer, NameMap, Outliner, Serializer};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Null,
    Bool(bool),
    Int { bits: u32, signed: bool, value: i128 },
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Tag { max: usize, index: usize, name: Option<&'static str> },
    OpenStruct(Option<&'static str>),
    Field(&'static str),
    CloseStruct,
    OpenTuple(Option<&'static str>),
    Element,
    CloseTuple,
    OpenList(usize),
    Item,
    CloseList,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Top {
    Value,
    Str,
    Struct,
    Tuple,
    List(usize),
}

#[derive(Debug, Clone, Copy)]
pub struct FormatConfig {
    pub null: bool,
    /// Report the length of lists when they are read.
    pub sized: bool,
    /// Record the name of a tag as a string.
    pub tag_names: bool,
}

#[derive(Debug)]
pub struct TokErr(pub String);

impl std::fmt::Display for TokErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for TokErr {}

struct Stack(Vec<Top>, Rc<Cell<usize>>);

impl Stack {
    fn new() -> Self {
        Stack(vec![Top::Value], Rc::default())
    }
    fn used(&self) {
        self.1.set(self.1.get() + 1);
    }
    fn pop_value(&mut self, op: &str) {
        self.used();
        match self.0.pop() {
            Some(Top::Value) => (),
            other => protocol_broken(format!("{op} was called while the top of the stack is {other:?}")),
        }
    }
    fn expect(&self, want: Top, op: &str) {
        self.used();
        if self.0.last() != Some(&want) {
            protocol_broken(format!("{op} was called while the top of the stack is {:?}", self.0.last()));
        }
    }
    fn pop(&mut self, want: Top, op: &str) {
        self.expect(want, op);
        self.0.pop();
    }
    fn take_item(&mut self, op: &str) -> bool {
        self.used();
        match self.0.last_mut() {
            Some(Top::List(0)) => false,
            Some(Top::List(n)) => {
                *n -= 1;
                true
            }
            other => {
                let other = other.copied();
                protocol_broken(format!("{op} was called while the top of the stack is {other:?}"))
            }
        }
    }
}

pub struct TokSer {
    pub toks: Vec<Tok>,
    stack: Stack,
    str: String,
    config: FormatConfig,
    /// Fail on this call.
    pub fail_at: Option<usize>,
    calls: usize,
}

impl TokSer {
    pub fn new(config: FormatConfig) -> Self {
        TokSer { toks: Vec::new(), stack: Stack::new(), str: String::new(), config, fail_at: None, calls: 0 }
    }

    /// Checks that everything was closed.
    pub fn finish(self) -> Vec<Tok> {
        if !self.stack.0.is_empty() {
            protocol_broken(format!("writing ended while the stack is {:?}", self.stack.0));
        }
        self.toks
    }

    /// Counts the uses of this format, and stays valid after it.
    pub fn uses(&self) -> Rc<Cell<usize>> {
        self.stack.1.clone()
    }

    pub fn calls(&self) -> usize {
        self.calls
    }

    fn call(&mut self) -> Result<(), TokErr> {
        self.calls += 1;
        if let Some(n) = self.fail_at {
            if self.calls == n {
                return Err(TokErr(format!("failure {n}")));
            }
            if self.calls > n {
                protocol_broken("the serializer was used again after it failed");
            }
        }
        Ok(())
    }

    fn scalar(&mut self, op: &str, tok: Tok) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop_value(op);
        self.toks.push(tok);
        Ok(())
    }

    fn int(&mut self, bits: u32, signed: bool, value: i128) -> Result<(), TokErr> {
        self.scalar("put (integer)", Tok::Int { bits, signed, value })
    }
}

impl Outliner for TokSer {
    type Error = TokErr;

    fn supports_null(&self) -> bool {
        self.config.null
    }

    fn pop_null(&mut self) -> Result<(), TokErr> {
        if !self.config.null {
            protocol_broken("null was used with a format which does not support it");
        }
        self.scalar("pop_null", Tok::Null)
    }

    fn open_str(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop_value("open_str");
        self.stack.0.push(Top::Str);
        self.str.clear();
        Ok(())
    }

    fn close_str(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop(Top::Str, "close_str");
        self.toks.push(Tok::Str(std::mem::take(&mut self.str)));
        Ok(())
    }

    fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), TokErr> {
        self.scalar("open_struct", Tok::OpenStruct(type_name))?;
        self.stack.0.push(Top::Struct);
        Ok(())
    }

    fn push_field(&mut self, name: &'static str) -> Result<(), TokErr> {
        self.call()?;
        self.stack.expect(Top::Struct, "push_field");
        self.stack.0.push(Top::Value);
        self.toks.push(Tok::Field(name));
        Ok(())
    }

    fn close_struct(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop(Top::Struct, "close_struct");
        self.toks.push(Tok::CloseStruct);
        Ok(())
    }

    fn open_tuple(&mut self, type_name: Option<&'static str>) -> Result<(), TokErr> {
        self.scalar("open_tuple", Tok::OpenTuple(type_name))?;
        self.stack.0.push(Top::Tuple);
        Ok(())
    }

    fn push_element(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.expect(Top::Tuple, "push_element");
        self.stack.0.push(Top::Value);
        self.toks.push(Tok::Element);
        Ok(())
    }

    fn close_tuple(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop(Top::Tuple, "close_tuple");
        self.toks.push(Tok::CloseTuple);
        Ok(())
    }

    fn push_item(&mut self) -> Result<(), TokErr> {
        self.call()?;
        if !self.stack.take_item("push_item") {
            protocol_broken("more items were written to a list than its stated length");
        }
        self.stack.0.push(Top::Value);
        self.toks.push(Tok::Item);
        Ok(())
    }

    fn close_list(&mut self) -> Result<(), TokErr> {
        self.call()?;
        self.stack.pop(Top::List(0), "close_list");
        self.toks.push(Tok::CloseList);
        Ok(())
    }
}

impl Serializer for TokSer {
    fn put_bool(&mut self, value: bool) -> Result<(), TokErr> {
        self.scalar("put_bool", Tok::Bool(value))
    }
    fn put_i8(&mut self, value: i8) -> Result<(), TokErr> {
        self.int(8, true, value.into())
    }
    fn put_i16(&mut self, value: i16) -> Result<(), TokErr> {
        self.int(16, true, value.into())
    }
    fn put_i32(&mut self, value: i32) -> Result<(), TokErr> {
        self.int(32, true, value.into())
    }
    fn put_i64(&mut self, value: i64) -> Result<(), TokErr> {
        self.int(64, true, value.into())
    }
    fn put_u8(&mut self, value: u8) -> Result<(), TokErr> {
        self.int(8, false, value.into())
    }
    fn put_u16(&mut self, value: u16) -> Result<(), TokErr> {
        self.int(16, false, value.into())
    }
    fn put_u32(&mut self, value: u32) -> Result<(), TokErr> {
        self.int(32, false, value.into())
    }
    fn put_u64(&mut self, value: u64) -> Result<(), TokErr> {
        self.int(64, false, value.into())
    }
    fn put_f32(&mut self, value: f32) -> Result<(), TokErr> {
        self.scalar("put_f32", Tok::F32(value.to_bits()))
    }
    fn put_f64(&mut self, value: f64) -> Result<(), TokErr> {
        self.scalar("put_f64", Tok::F64(value.to_bits()))
    }
    fn put_char(&mut self, value: char) -> Result<(), TokErr> {
        self.scalar("put_char", Tok::Char(value))
    }
    fn append_char(&mut self, value: char) -> Result<(), TokErr> {
        self.call()?;
        self.stack.expect(Top::Str, "append_char");
        self.str.push(value);
        Ok(())
    }
    fn put_tag(&mut self, max_index: usize, index: usize, name: Option<&'static str>) -> Result<(), TokErr> {
        if index > max_index {
            protocol_broken("a tag's index is more than the stated maximum");
        }
        if let (true, Some(name)) = (self.config.tag_names, name) {
            return self.put_str(name);
        }
        self.scalar("put_tag", Tok::Tag { max: max_index, index, name })
    }
    fn open_list_sized(&mut self, len: usize) -> Result<(), TokErr> {
        self.scalar("open_list_sized", Tok::OpenList(len))?;
        self.stack.0.push(Top::List(len));
        Ok(())
    }
}

pub struct TokDe {
    toks: Vec<Tok>,
    pos: usize,
    stack: Stack,
    str: Vec<char>,
    config: FormatConfig,
}

impl TokDe {
    pub fn new(config: FormatConfig, toks: Vec<Tok>) -> Self {
        TokDe { toks, pos: 0, stack: Stack::new(), str: Vec::new(), config }
    }

    /// Counts the uses of this format, and stays valid after it.
    pub fn uses(&self) -> Rc<Cell<usize>> {
        self.stack.1.clone()
    }

    /// Checks that everything was read.
    pub fn finish(self) {
        if !self.stack.0.is_empty() {
            protocol_broken(format!("reading ended while the stack is {:?}", self.stack.0));
        }
        if self.pos != self.toks.len() {
            protocol_broken(format!("reading ended before the call that wrote {:?}", self.toks[self.pos]));
        }
    }

    fn mismatch(&self, op: &str) -> ! {
        protocol_broken(format!(
            "{op} was called where {} was written",
            self.toks.get(self.pos).map_or("nothing".to_string(), |t| format!("{t:?}"))
        ))
    }

    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.pos)
    }

    fn expect(&mut self, tok: Tok, op: &str) {
        if self.peek() != Some(&tok) {
            self.mismatch(&format!("{op} ({tok:?})"));
        }
        self.pos += 1;
    }

    fn int(&mut self, bits: u32, signed: bool) -> i128 {
        self.stack.pop_value("get (integer)");
        match self.peek() {
            Some(Tok::Int { bits: b, signed: s, value }) if *b == bits && *s == signed => {
                let v = *value;
                self.pos += 1;
                v
            }
            _ => self.mismatch(&format!("get ({}{bits})", if signed { "i" } else { "u" })),
        }
    }
}

impl Outliner for TokDe {
    type Error = TokErr;

    fn supports_null(&self) -> bool {
        self.config.null
    }

    fn pop_null(&mut self) -> Result<(), TokErr> {
        if !self.config.null {
            protocol_broken("null was used with a format which does not support it");
        }
        self.stack.pop_value("pop_null");
        self.expect(Tok::Null, "pop_null");
        Ok(())
    }

    fn open_str(&mut self) -> Result<(), TokErr> {
        self.stack.pop_value("open_str");
        match self.peek() {
            Some(Tok::Str(s)) => self.str = s.chars().rev().collect(),
            _ => self.mismatch("open_str"),
        }
        self.pos += 1;
        self.stack.0.push(Top::Str);
        Ok(())
    }

    fn close_str(&mut self) -> Result<(), TokErr> {
        self.stack.pop(Top::Str, "close_str");
        if !self.str.is_empty() {
            return Err(TokErr("string was not read to the end".into()));
        }
        Ok(())
    }

    fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), TokErr> {
        self.stack.pop_value("open_struct");
        self.expect(Tok::OpenStruct(type_name), "open_struct");
        self.stack.0.push(Top::Struct);
        Ok(())
    }

    fn push_field(&mut self, name: &'static str) -> Result<(), TokErr> {
        self.stack.expect(Top::Struct, "push_field");
        self.expect(Tok::Field(name), "push_field");
        self.stack.0.push(Top::Value);
        Ok(())
    }

    fn close_struct(&mut self) -> Result<(), TokErr> {
        self.stack.pop(Top::Struct, "close_struct");
        self.expect(Tok::CloseStruct, "close_struct");
        Ok(())
    }

    fn open_tuple(&mut self, type_name: Option<&'static str>) -> Result<(), TokErr> {
        self.stack.pop_value("open_tuple");
        self.expect(Tok::OpenTuple(type_name), "open_tuple");
        self.stack.0.push(Top::Tuple);
        Ok(())
    }

    fn push_element(&mut self) -> Result<(), TokErr> {
        self.stack.expect(Top::Tuple, "push_element");
        self.expect(Tok::Element, "push_element");
        self.stack.0.push(Top::Value);
        Ok(())
    }

    fn close_tuple(&mut self) -> Result<(), TokErr> {
        self.stack.pop(Top::Tuple, "close_tuple");
        self.expect(Tok::CloseTuple, "close_tuple");
        Ok(())
    }

    fn push_item(&mut self) -> Result<(), TokErr> {
        if !self.stack.take_item("push_item") {
            return Err(TokErr("no more items".into()));
        }
        self.expect(Tok::Item, "push_item");
        self.stack.0.push(Top::Value);
        Ok(())
    }

    fn close_list(&mut self) -> Result<(), TokErr> {
        if let Some(Top::List(n @ 1..)) = self.stack.0.last() {
            return Err(TokErr(format!("{n} items were not read")));
        }
        self.stack.pop(Top::List(0), "close_list");
        self.expect(Tok::CloseList, "close_list");
        Ok(())
    }
}

impl Deserializer for TokDe {
    fn get_bool(&mut self) -> Result<bool, TokErr> {
        self.stack.pop_value("get_bool");
        match self.peek() {
            Some(Tok::Bool(b)) => {
                let b = *b;
                self.pos += 1;
                Ok(b)
            }
            _ => self.mismatch("get_bool"),
        }
    }
    fn get_i8(&mut self) -> Result<i8, TokErr> {
        Ok(self.int(8, true) as i8)
    }
    fn get_i16(&mut self) -> Result<i16, TokErr> {
        Ok(self.int(16, true) as i16)
    }
    fn get_i32(&mut self) -> Result<i32, TokErr> {
        Ok(self.int(32, true) as i32)
    }
    fn get_i64(&mut self) -> Result<i64, TokErr> {
        Ok(self.int(64, true) as i64)
    }
    fn get_u8(&mut self) -> Result<u8, TokErr> {
        Ok(self.int(8, false) as u8)
    }
    fn get_u16(&mut self) -> Result<u16, TokErr> {
        Ok(self.int(16, false) as u16)
    }
    fn get_u32(&mut self) -> Result<u32, TokErr> {
        Ok(self.int(32, false) as u32)
    }
    fn get_u64(&mut self) -> Result<u64, TokErr> {
        Ok(self.int(64, false) as u64)
    }
    fn get_f32(&mut self) -> Result<f32, TokErr> {
        self.stack.pop_value("get_f32");
        match self.peek() {
            Some(Tok::F32(b)) => {
                let b = *b;
                self.pos += 1;
                Ok(f32::from_bits(b))
            }
            _ => self.mismatch("get_f32"),
        }
    }
    fn get_f64(&mut self) -> Result<f64, TokErr> {
        self.stack.pop_value("get_f64");
        match self.peek() {
            Some(Tok::F64(b)) => {
                let b = *b;
                self.pos += 1;
                Ok(f64::from_bits(b))
            }
            _ => self.mismatch("get_f64"),
        }
    }
    fn get_char(&mut self) -> Result<char, TokErr> {
        self.stack.pop_value("get_char");
        match self.peek() {
            Some(Tok::Char(c)) => {
                let c = *c;
                self.pos += 1;
                Ok(c)
            }
            _ => self.mismatch("get_char"),
        }
    }
    fn next_char(&mut self) -> Result<Option<char>, TokErr> {
        self.stack.expect(Top::Str, "next_char");
        let c = self.str.pop();
        if c.is_none() {
            self.stack.0.pop();
        }
        Ok(c)
    }
    fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> Result<usize, TokErr> {
        if self.config.tag_names && matches!(self.peek(), Some(Tok::Str(_))) {
            return self.get_name(names);
        }
        self.stack.pop_value("get_tag");
        let Some(Tok::Tag { max, index, name }) = self.peek() else { self.mismatch("get_tag") };
        let (max, index, name) = (*max, *index, *name);
        if max != max_index {
            self.mismatch(&format!("get_tag with maximum {max_index}"));
        }
        self.pos += 1;
        match name {
            Some(name) => match names.get(name) {
                Some(i) if *i == index => Ok(*i),
                other => protocol_broken(format!(
                    "tag {name:?} was written with index {index}, but the name table given to get_tag says {other:?}"
                )),
            },
            None => Ok(index),
        }
    }
    fn check_null(&mut self) -> Result<bool, TokErr> {
        if !self.config.null {
            protocol_broken("check_null was called with a format which does not support null");
        }
        self.stack.expect(Top::Value, "check_null");
        if self.peek() == Some(&Tok::Null) {
            self.pos += 1;
            self.stack.0.pop();
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn open_list(&mut self) -> Result<Option<usize>, TokErr> {
        self.stack.pop_value("open_list");
        match self.peek() {
            Some(Tok::OpenList(n)) => {
                let n = *n;
                self.pos += 1;
                self.stack.0.push(Top::List(n));
                Ok(self.config.sized.then_some(n))
            }
            _ => self.mismatch("open_list"),
        }
    }
    fn next_item(&mut self) -> Result<bool, TokErr> {
        if self.stack.take_item("next_item") {
            self.expect(Tok::Item, "next_item");
            self.stack.0.push(Top::Value);
            Ok(true)
        } else {
            self.stack.0.pop();
            self.expect(Tok::CloseList, "next_item");
            Ok(false)
        }
    }
    fn error(&self, source: Box<dyn std::error::Error + Send + Sync>) -> TokErr {
        TokErr(source.to_string())
    }
    fn error_missing_item(&self) -> TokErr {
        TokErr("missing item".into())
    }
    fn error_extra_item(&self) -> TokErr {
        TokErr("extra item".into())
    }
}
