//! The JSON reader and writer under test, as they are driven by the checks.

use crate::io::{AnyPos, AnyReader, AnyWriter, Source, Text, WErr};
use serdere::{Outliner, Value};
use serdere_json::{
    DeserializeError, DeserializeErrorMessage, JsonDeserializer, TextDeserializer, TextDeserializerConfig, TextSerializer,
    TextSerializerConfig, ValueType,
};

pub type De<'a> = TextDeserializer<AnyReader<'a>>;
pub type DErr<'a> = DeserializeError<AnyPos<'a>>;
pub type Ser = TextSerializer<AnyWriter>;

#[derive(Debug, Clone, PartialEq)]
pub enum EKind {
    Custom(String),
    UnexpectedEof,
    UnexpectedChar,
    InvalidLiteral,
    Expected(Vec<&'static str>),
    NumberOverflow,
    UnrecognizedEscape,
    MissingKey(String),
    ExtraKey(String),
    KeyTooLong,
    MissingItems,
    ExcessItems,
}

pub fn type_name(t: ValueType) -> &'static str {
    match t {
        ValueType::String => "string",
        ValueType::Number => "number",
        ValueType::Object => "object",
        ValueType::Array => "array",
        ValueType::Bool => "bool",
        ValueType::Null => "null",
    }
}

pub fn ekind(e: &DErr) -> EKind {
    match e.message() {
        DeserializeErrorMessage::Custom(c) => EKind::Custom(c.to_string()),
        DeserializeErrorMessage::UnexpectedEof => EKind::UnexpectedEof,
        DeserializeErrorMessage::UnexpectedChar => EKind::UnexpectedChar,
        DeserializeErrorMessage::InvalidLiteral => EKind::InvalidLiteral,
        DeserializeErrorMessage::Expected(t) => EKind::Expected(t.iter().map(|t| type_name(*t)).collect()),
        DeserializeErrorMessage::NumberOverflow => EKind::NumberOverflow,
        DeserializeErrorMessage::UnrecognizedEscape => EKind::UnrecognizedEscape,
        DeserializeErrorMessage::MissingKey(k) => EKind::MissingKey(k.clone()),
        DeserializeErrorMessage::ExtraKey(k) => EKind::ExtraKey(k.clone()),
        DeserializeErrorMessage::KeyTooLong => EKind::KeyTooLong,
        DeserializeErrorMessage::MissingItems => EKind::MissingItems,
        DeserializeErrorMessage::ExcessItems => EKind::ExcessItems,
    }
}

pub fn config(comments: bool) -> TextDeserializerConfig {
    if comments {
        TextDeserializerConfig::permissive()
    } else {
        TextDeserializerConfig::strict()
    }
}

/// Reads a document to its end with the given function.
pub fn read<'a, R>(
    text: &'a Text,
    source: Source,
    comments: bool,
    f: impl for<'b> FnOnce(Value<'b, De<'a>>) -> Result<R, DErr<'a>>,
) -> Result<R, DErr<'a>> {
    read_from(text.open(source), comments, f)
}

/// Reads a document to its end with the given function.
pub fn read_from<'a, R>(
    reader: AnyReader<'a>,
    comments: bool,
    f: impl for<'b> FnOnce(Value<'b, De<'a>>) -> Result<R, DErr<'a>>,
) -> Result<R, DErr<'a>> {
    let mut d = TextDeserializer::new(config(comments), reader)?;
    let r = Value::with(&mut d, f)?;
    d.close()?;
    Ok(r)
}

/// Writes a document with the given function, returning the writer and the outcome.
pub fn write(
    writer: AnyWriter,
    indent: Option<&'static str>,
    f: impl FnOnce(Value<Ser>) -> Result<(), WErr>,
) -> (AnyWriter, Result<(), WErr>) {
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, writer);
    let r = Value::with(&mut s, f);
    (s.close(), r)
}

pub fn write_string(indent: Option<&'static str>, f: impl FnOnce(Value<Ser>) -> Result<(), WErr>) -> Result<String, String> {
    let (w, r) = write(AnyWriter::Str(String::new()), indent, f);
    r.map_err(|e| format!("writing to a string failed: {e}"))?;
    String::from_utf8(w.into_text()).map_err(|_| "output is not UTF-8".to_string())
}

pub const INDENTS: &[Option<&str>] =
    &[None, Some("  "), Some("\t"), Some(""), Some("    "), Some(" "), Some("\r\n"), Some(" \t")];

/// An error as it is shown in reports, with where it is in the text.
pub fn show_err(text: &Text, e: &DErr) -> String {
    format!("{:?} at offset {:?} ({:?})", ekind(e), text.offset_of(e.position()), e.position())
}

pub fn assert_outliner<O: Outliner>() {}

/// An error of a reader, with what the checks look at.
pub trait Fault: std::error::Error {
    fn kind(&self) -> EKind;
    /// Is the error about what is at this offset?
    fn is_at(&self, text: &Text, offset: usize) -> bool;
    fn show(&self, text: &Text) -> String;
    /// Is it a failure which the check asked for?
    fn injected(&self) -> bool {
        false
    }
}

impl Fault for DErr<'_> {
    fn kind(&self) -> EKind {
        ekind(self)
    }
    fn is_at(&self, text: &Text, offset: usize) -> bool {
        text.is_at(self.position(), offset)
    }
    fn show(&self, text: &Text) -> String {
        show_err(text, self)
    }
}

/// A reader which the checks can walk over a document with.
pub trait Subject: JsonDeserializer<Error: Fault> {
    /// Must the length of the array at this offset be known when it is open?
    fn knows_length(&self, _: usize) -> bool {
        false
    }
}

impl Subject for De<'_> {}
