//! Sequences of reader calls which follow the stack discipline, but are chosen without regard to
//! what the document has.

use crate::dynamic::checked;
use crate::model::name_map;
use crate::text::{self, DErr, De};
use serdere::{Deserializer, NameMap, Outliner};
use serdere_json::{JsonDeserializer, JsonOutliner};
use std::sync::OnceLock;

/// The choices of a sequence of calls, which can be made again for another reader.
pub struct Script {
    pub choices: Vec<u64>,
    pos: usize,
}

impl Script {
    pub fn new(choices: Vec<u64>) -> Self {
        Script { choices, pos: 0 }
    }
    fn below(&mut self, n: u64) -> Option<u64> {
        let v = *self.choices.get(self.pos)?;
        self.pos += 1;
        Some(v % n)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Top {
    Value,
    Str,
    Object,
    Array,
    Struct,
    Tuple,
}

const KEYS: &[&str] = &["a", "b", "k", "", "type", "value", "ab", "abc", "key", "x"];

pub fn names() -> &'static NameMap<usize> {
    static MAP: OnceLock<&'static NameMap<usize>> = OnceLock::new();
    MAP.get_or_init(|| name_map(&[("a", 0), ("ab", 1), ("abc", 2), ("b", 3), ("", 4), ("type", 5), ("é", 7), ("key", 9)]))
}

/// What happened: the results of every call in order, and how it ended.
pub struct Outcome<'a> {
    pub log: Vec<String>,
    pub error: Option<DErr<'a>>,
    /// Was the whole document read and closed?
    pub closed: bool,
}

/// Runs a script until it runs out, there is an error, or the document has been read.
pub fn run<'a>(d: De<'a>, script: Script) -> Outcome<'a> {
    let mut r = Runner::new(d, script);
    while r.step() {}
    r.outcome
}

/// A reader with a script, which runs call by call.
pub struct Runner<'a> {
    d: Option<De<'a>>,
    stack: Vec<Top>,
    script: Script,
    pub outcome: Outcome<'a>,
}

impl<'a> Runner<'a> {
    pub fn new(d: De<'a>, script: Script) -> Self {
        let outcome = Outcome { log: Vec::new(), error: None, closed: false };
        Runner { d: Some(d), stack: vec![Top::Value], script, outcome }
    }

    /// Makes the next call. Returns whether there may be more.
    pub fn step(&mut self) -> bool {
        let log = &mut self.outcome.log;
        let r = match (self.stack.last().copied(), &mut self.d) {
            (_, None) => Ok(false),
            (Some(top), Some(d)) => step(d, top, &mut self.stack, &mut self.script, log),
            (None, d) => {
                log.push("close".into());
                let r = d.take().unwrap().close();
                self.outcome.closed = r.is_ok();
                r.map(|()| false)
            }
        };
        match r {
            Ok(more) => more,
            Err(e) => {
                self.outcome.error = Some(e);
                false
            }
        }
    }
}

fn step<'a>(
    d: &mut De<'a>,
    top: Top,
    stack: &mut Vec<Top>,
    script: &mut Script,
    log: &mut Vec<String>,
) -> Result<bool, DErr<'a>> {
    macro_rules! pick {
        ($n:expr) => {
            match script.below($n) {
                Some(v) => v,
                None => return Ok(false),
            }
        };
    }
    macro_rules! said {
        ($($arg:tt)*) => { log.push(format!($($arg)*)) };
    }
    match top {
        Top::Value => {
            let ty = d.peek_value_type();
            said!("ty {}", text::type_name(ty));
            // Most calls suit the value
            let op = match pick!(10) {
                0 => pick!(26),
                1 => 20,
                2 => 21,
                _ => match text::type_name(ty) {
                    "string" => [12, 13, 13, 14, 15][pick!(5) as usize],
                    "number" => pick!(11),
                    "object" => [22, 22, 24][pick!(3) as usize],
                    "array" => [23, 23, 24, 25][pick!(4) as usize],
                    "bool" => 11,
                    _ => [18, 19][pick!(2) as usize],
                },
            };
            stack.pop();
            match op {
                0 => said!("i8 {:?}", d.get_i8()?),
                1 => said!("i16 {:?}", d.get_i16()?),
                2 => said!("i32 {:?}", d.get_i32()?),
                3 => said!("i64 {:?}", d.get_i64()?),
                4 => said!("u8 {:?}", d.get_u8()?),
                5 => said!("u16 {:?}", d.get_u16()?),
                6 => said!("u32 {:?}", d.get_u32()?),
                7 => said!("u64 {:?}", d.get_u64()?),
                8 => said!("f32 {:?}", d.get_f32()?.to_bits()),
                9 => said!("f64 {:?}", d.get_f64()?.to_bits()),
                10 => match pick!(2) {
                    0 => said!("i128 {:?}", d.read_number::<i128>()?),
                    _ => said!("u128 {:?}", d.read_number::<u128>()?),
                },
                11 => said!("bool {:?}", d.get_bool()?),
                12 => said!("char {:?}", d.get_char()?),
                13 => {
                    d.open_str()?;
                    said!("open_str");
                    stack.push(Top::Str);
                }
                14 => said!("str {:?}", checked(d.read_str()?.into_owned())),
                15 => said!("name {:?}", d.get_name(names())?),
                16 | 17 => said!("tag {:?}", d.get_tag(9, names())?),
                18 => {
                    d.pop_null()?;
                    said!("null");
                }
                19 | 20 => {
                    let n = d.check_null()?;
                    said!("check_null {n}");
                    if !n {
                        stack.push(Top::Value);
                    }
                }
                21 => {
                    d.skip_value()?;
                    said!("skip_value");
                }
                22 => {
                    d.open_object()?;
                    said!("open_object");
                    stack.push(Top::Object);
                }
                23 => {
                    let n = d.open_list()?;
                    said!("open_list {n:?}");
                    stack.push(Top::Array);
                }
                24 => {
                    d.open_struct(None)?;
                    said!("open_struct");
                    stack.push(Top::Struct);
                }
                _ => {
                    d.open_tuple(None)?;
                    said!("open_tuple");
                    stack.push(Top::Tuple);
                }
            }
        }
        Top::Str => match pick!(8) {
            0..=3 => {
                let c = d.next_char()?;
                said!("next_char {c:?}");
                if c.is_none() {
                    stack.pop();
                }
            }
            4 => {
                let s = checked(d.flush_str()?.into_owned());
                said!("flush_str {s:?}");
                stack.pop();
            }
            5 => {
                d.skip_str()?;
                said!("skip_str");
                stack.pop();
            }
            6 => {
                said!("flush_name {:?}", d.flush_name(names())?);
                stack.pop();
            }
            _ => {
                d.close_str()?;
                said!("close_str");
                stack.pop();
            }
        },
        Top::Object => {
            said!("collection {:?}", d.peek_collection_type());
            match pick!(14) {
                0..=5 => {
                    if d.next_entry()? {
                        said!("next_entry");
                        stack.push(Top::Value);
                        stack.push(Top::Str);
                    } else {
                        said!("no next_entry");
                        stack.pop();
                    }
                }
                6..=8 => {
                    let k = KEYS[pick!(KEYS.len() as u64) as usize];
                    let r = d.try_push_entry(k)?;
                    said!("try_push_entry {k:?} {r}");
                    if r {
                        stack.push(Top::Value);
                    }
                }
                9 => {
                    let k = KEYS[pick!(KEYS.len() as u64) as usize];
                    d.push_entry(k)?;
                    said!("push_entry {k:?}");
                    stack.push(Top::Value);
                }
                10 => {
                    let k = KEYS[pick!(KEYS.len() as u64) as usize];
                    d.push_field(k)?;
                    said!("push_field {k:?}");
                    stack.push(Top::Value);
                }
                11 => {
                    d.skip_object()?;
                    said!("skip_object");
                    stack.pop();
                }
                12 => {
                    d.close_object()?;
                    said!("close_object");
                    stack.pop();
                }
                _ => {
                    d.push_null(Some("null"));
                    said!("push_null");
                    stack.push(Top::Value);
                }
            }
        }
        Top::Array => {
            said!("collection {:?}", d.peek_collection_type());
            match pick!(8) {
                0..=4 => {
                    if d.next_item()? {
                        said!("next_item");
                        stack.push(Top::Value);
                    } else {
                        said!("no next_item");
                        stack.pop();
                    }
                }
                5 | 6 => {
                    d.push_item()?;
                    said!("push_item");
                    stack.push(Top::Value);
                }
                _ => {
                    d.close_list()?;
                    said!("close_list");
                    stack.pop();
                }
            }
        }
        Top::Struct => match pick!(5) {
            0..=3 => {
                let k = KEYS[pick!(KEYS.len() as u64) as usize];
                d.push_field(k)?;
                said!("push_field {k:?}");
                stack.push(Top::Value);
            }
            _ => {
                d.close_struct()?;
                said!("close_struct");
                stack.pop();
            }
        },
        Top::Tuple => match pick!(4) {
            0..=2 => {
                d.push_element()?;
                said!("push_element");
                stack.push(Top::Value);
            }
            _ => {
                d.close_tuple()?;
                said!("close_tuple");
                stack.pop();
            }
        },
    }
    Ok(true)
}
