//! Text sources and sinks used to drive the code under test.

use crate::engine::FuelExhausted;
use serdere::{LineColumnPosition, StrPosition, TextReader, TextWriter, Utf8Reader, Utf8Writer};
use std::borrow::Cow;
use std::cell::Cell;
use std::io;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------
// What happens while a source or a sink is used

/// Lets a check do something else in the middle of a call to the code under test: whenever a source
/// or a sink is used, something may be due.
pub mod hook {
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;

    thread_local! {
        static DUE: Cell<u64> = const { Cell::new(0) };
        static HOOK: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
    }

    /// A source or a sink is used.
    pub fn tick() {
        DUE.with(|due| match due.get() {
            0 => (),
            1 => {
                due.set(0);
                let h = HOOK.with(|h| h.borrow().clone());
                if let Some(h) = h {
                    h();
                }
            }
            n => due.set(n - 1),
        })
    }

    /// Makes the hook run at the given use from now; never for 0.
    pub fn arm(n: u64) {
        DUE.with(|due| due.set(n));
    }

    struct Restore(u64, Option<Rc<dyn Fn()>>);

    impl Drop for Restore {
        fn drop(&mut self) {
            DUE.with(|due| due.set(self.0));
            HOOK.with(|h| *h.borrow_mut() = self.1.take());
        }
    }

    /// Runs something with another hook.
    pub fn with<R>(hook: Option<Rc<dyn Fn()>>, n: u64, f: impl FnOnce() -> R) -> R {
        let _restore = Restore(DUE.with(|due| due.replace(n)), HOOK.with(|h| h.replace(hook)));
        f()
    }
}

// ------------------------------------------------------------------------------------------------
// Readers

/// A byte source which delivers data in pieces, sometimes reporting that it was interrupted.
pub struct ChunkRead {
    data: Arc<[u8]>,
    pos: usize,
    plan: u64,
    calls: u64,
    interrupted: bool,
}

impl ChunkRead {
    /// `plan` 0 delivers as much as is asked for.
    pub fn new(data: &[u8], plan: u64) -> Self {
        ChunkRead { data: data.into(), pos: 0, plan, calls: 0, interrupted: false }
    }
}

impl io::Read for ChunkRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        hook::tick();
        self.calls += 1;
        if self.calls > 64 * (self.data.len() as u64 + 1000) {
            std::panic::panic_any(FuelExhausted);
        }
        let mut max = buf.len();
        if self.plan != 0 {
            let r = crate::engine::mix(self.plan ^ self.calls.wrapping_mul(0x9E37));
            if !self.interrupted && r % 4 == 0 {
                self.interrupted = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.interrupted = false;
            max = max.min(1 + (r >> 8) as usize % 3);
        }
        let n = max.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A text source over an array of characters, which uses all the default implementations in
/// [`TextReader`] and bounds how much work a reader may do.
pub struct IdxReader {
    chars: Arc<[char]>,
    pos: usize,
    fuel: Cell<u64>,
}

impl IdxReader {
    pub fn new(chars: Arc<[char]>) -> Self {
        let fuel = 200 * (chars.len() as u64 + 500);
        IdxReader { chars, pos: 0, fuel: Cell::new(fuel) }
    }

    fn burn(&self) {
        hook::tick();
        let f = self.fuel.get();
        if f == 0 {
            std::panic::panic_any(FuelExhausted);
        }
        self.fuel.set(f - 1);
    }
}

impl TextReader for IdxReader {
    fn next(&mut self) -> Option<char> {
        self.burn();
        let c = self.chars.get(self.pos).copied()?;
        self.pos += 1;
        Some(c)
    }

    fn peek(&self) -> Option<char> {
        self.burn();
        self.chars.get(self.pos).copied()
    }

    type Position = usize;
    fn position(&self) -> usize {
        self.burn();
        self.pos
    }
}

/// Any of the text sources, delegating every operation to it.
pub enum AnyReader<'a> {
    Str(&'a str),
    Idx(IdxReader),
    Utf8(Utf8Reader<ChunkRead>),
    Pull(Pull<'a>),
}

/// A text source which gets its characters from somewhere else.
pub struct Pull<'a> {
    more: Box<dyn FnMut() -> Option<char> + 'a>,
    peek: Option<char>,
    pos: usize,
}

impl<'a> Pull<'a> {
    pub fn new(mut more: impl FnMut() -> Option<char> + 'a) -> Self {
        let peek = more();
        Pull { more: Box::new(more), peek, pos: 0 }
    }
}

impl TextReader for Pull<'_> {
    fn next(&mut self) -> Option<char> {
        let c = self.peek?;
        self.pos += 1;
        self.peek = (self.more)();
        Some(c)
    }

    fn peek(&self) -> Option<char> {
        self.peek
    }

    type Position = usize;
    fn position(&self) -> usize {
        self.pos
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum AnyPos<'a> {
    Str(StrPosition<'a>),
    Idx(usize),
    Lc(LineColumnPosition),
}

impl std::fmt::Debug for AnyPos<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            AnyPos::Str(p) => write!(f, "str {p:?}"),
            AnyPos::Idx(p) => write!(f, "char {p}"),
            AnyPos::Lc(p) => write!(f, "line {} column {}", p.line, p.column),
        }
    }
}

impl std::fmt::Display for AnyPos<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            AnyPos::Str(p) => std::fmt::Display::fmt(p, f),
            AnyPos::Idx(p) => std::fmt::Display::fmt(p, f),
            AnyPos::Lc(p) => std::fmt::Display::fmt(p, f),
        }
    }
}

impl<'a> TextReader for AnyReader<'a> {
    fn next(&mut self) -> Option<char> {
        match self {
            AnyReader::Str(r) => TextReader::next(r),
            AnyReader::Idx(r) => r.next(),
            AnyReader::Utf8(r) => r.next(),
            AnyReader::Pull(r) => r.next(),
        }
    }

    fn peek(&self) -> Option<char> {
        match self {
            AnyReader::Str(r) => TextReader::peek(r),
            AnyReader::Idx(r) => r.peek(),
            AnyReader::Utf8(r) => r.peek(),
            AnyReader::Pull(r) => r.peek(),
        }
    }

    type Position = AnyPos<'a>;
    fn position(&self) -> AnyPos<'a> {
        match self {
            AnyReader::Str(r) => AnyPos::Str(r.position()),
            AnyReader::Idx(r) => AnyPos::Idx(r.position()),
            AnyReader::Utf8(r) => AnyPos::Lc(r.position()),
            AnyReader::Pull(r) => AnyPos::Idx(r.position()),
        }
    }

    fn read_exact(&mut self, str: &str) -> bool {
        match self {
            AnyReader::Str(r) => TextReader::read_exact(r, str),
            AnyReader::Idx(r) => r.read_exact(str),
            AnyReader::Utf8(r) => r.read_exact(str),
            AnyReader::Pull(r) => r.read_exact(str),
        }
    }

    fn read_until<R>(&mut self, pred: impl FnMut(char) -> Option<R>) -> Option<(Cow<'_, str>, R)> {
        match self {
            AnyReader::Str(r) => TextReader::read_until(r, pred),
            AnyReader::Idx(r) => r.read_until(pred),
            AnyReader::Utf8(r) => r.read_until(pred),
            AnyReader::Pull(r) => r.read_until(pred),
        }
    }
}

/// Which text source to use.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Source {
    Str,
    Idx,
    Utf8(u64),
}

/// A text along with its characters.
pub struct Text {
    pub str: String,
    pub chars: Arc<[char]>,
}

impl Text {
    pub fn new(str: String) -> Self {
        let chars: Arc<[char]> = str.chars().collect();
        Text { str, chars }
    }

    pub fn open(&self, source: Source) -> AnyReader<'_> {
        match source {
            Source::Str => AnyReader::Str(&self.str),
            Source::Idx => AnyReader::Idx(IdxReader::new(self.chars.clone())),
            Source::Utf8(plan) => {
                AnyReader::Utf8(Utf8Reader::new(ChunkRead::new(self.str.as_bytes(), plan)).unwrap())
            }
        }
    }

    /// Is the given position the one of the character at the given offset?
    pub fn is_at(&self, pos: &AnyPos, offset: usize) -> bool {
        match pos {
            AnyPos::Idx(i) => *i == offset,
            AnyPos::Lc(p) => {
                let (line, column) = line_column(&self.chars[..offset]);
                p.line == line && p.column == column
            }
            AnyPos::Str(p) => {
                let byte: usize = self.chars[..offset].iter().map(|c| c.len_utf8()).sum();
                let rest = &self.str[byte..];
                // The end of the text may have been reached by slicing or by iteration
                let q = TextReader::position(&rest);
                *p == q
            }
        }
    }

    /// The offset a position stands for; for lines and columns, the first one which has it.
    pub fn offset_of(&self, pos: &AnyPos) -> Option<usize> {
        match pos {
            AnyPos::Idx(i) => Some(*i),
            AnyPos::Lc(p) => {
                let (mut l, mut c) = (0, 0);
                for (i, ch) in self.chars.iter().enumerate() {
                    if p.line == l && p.column == c {
                        return Some(i);
                    }
                    step(&mut l, &mut c, *ch);
                }
                (p.line == l && p.column == c).then_some(self.chars.len())
            }
            AnyPos::Str(p) => {
                let mut r: &str = &self.str;
                let mut i = 0;
                loop {
                    if *p == TextReader::position(&r) {
                        return Some(i);
                    }
                    TextReader::next(&mut r)?;
                    i += 1;
                }
            }
        }
    }
}

fn step(l: &mut usize, c: &mut usize, ch: char) {
    match ch {
        '\n' => {
            *l += 1;
            *c = 0;
        }
        '\r' => (),
        '\t' => *c += 4,
        _ => *c += 1,
    }
}

/// The line and column after the given characters, both counted from zero: a newline starts a
/// line, a carriage return adds nothing and a tab adds four columns.
pub fn line_column(before: &[char]) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for ch in before {
        step(&mut l, &mut c, *ch);
    }
    (l, c)
}

// ------------------------------------------------------------------------------------------------
// Writers

/// A byte sink with planned behaviour.
pub struct PlanWrite {
    pub data: Vec<u8>,
    /// Decides short and interrupted writes; 0 for none.
    pub plan: u64,
    pub calls: u64,
    interrupted: bool,
    /// Fails when asked to accept a byte beyond this many.
    pub budget: Option<usize>,
    pub failure: WriteFailure,
    pub failed: u32,
    /// Bytes which were accepted after the failure.
    pub after_failure: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteFailure {
    Other,
    BrokenPipe,
    /// `write` returns 0.
    Zero,
}

impl PlanWrite {
    pub fn new(plan: u64, budget: Option<usize>, failure: WriteFailure) -> Self {
        PlanWrite {
            data: Vec::new(),
            plan,
            calls: 0,
            interrupted: false,
            budget,
            failure,
            failed: 0,
            after_failure: 0,
        }
    }
}

impl io::Write for PlanWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        hook::tick();
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut max = buf.len();
        if self.plan != 0 {
            let r = crate::engine::mix(self.plan ^ self.calls.wrapping_mul(0x51F3));
            if !self.interrupted && r % 4 == 0 {
                self.interrupted = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.interrupted = false;
            max = max.min(1 + (r >> 8) as usize % 4);
        }
        if self.failed > 0 {
            // The sink works again after it failed once: whatever arrives now should not have
            self.after_failure += max;
            return Ok(max);
        }
        if let Some(b) = self.budget {
            let room = b.saturating_sub(self.data.len());
            if room == 0 {
                self.failed += 1;
                return match self.failure {
                    WriteFailure::Other => Err(io::Error::new(io::ErrorKind::Other, "planned failure")),
                    WriteFailure::BrokenPipe => Err(io::Error::new(io::ErrorKind::BrokenPipe, "planned failure")),
                    WriteFailure::Zero => Ok(0),
                };
            }
            max = max.min(room);
        }
        self.data.extend_from_slice(&buf[..max]);
        Ok(max)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Debug)]
pub enum WErr {
    Io(io::Error),
    /// The failure of the given call.
    Call(u64),
}

impl std::fmt::Display for WErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}

impl std::error::Error for WErr {}

/// A text sink which fails at a given call.
pub struct CallWriter {
    pub text: String,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub after_failure: u64,
    failed: bool,
    /// Is `write_str` the default implementation?
    pub by_char: bool,
}

impl CallWriter {
    pub fn new(fail_at: Option<u64>, by_char: bool) -> Self {
        CallWriter { text: String::new(), calls: 0, fail_at, after_failure: 0, failed: false, by_char }
    }

    fn call(&mut self) -> Result<(), WErr> {
        hook::tick();
        self.calls += 1;
        if self.failed {
            self.after_failure += 1;
            return Ok(());
        }
        if self.fail_at == Some(self.calls) {
            self.failed = true;
            return Err(WErr::Call(self.calls));
        }
        Ok(())
    }
}

pub enum AnyWriter {
    Str(String),
    Utf8(Utf8Writer<PlanWrite>),
    Call(CallWriter),
    /// Passes the characters on.
    Push(Box<dyn FnMut(char)>),
}

impl TextWriter for AnyWriter {
    type Error = WErr;

    fn write_char(&mut self, ch: char) -> Result<(), WErr> {
        match self {
            AnyWriter::Push(f) => {
                f(ch);
                Ok(())
            }
            AnyWriter::Str(s) => {
                hook::tick();
                TextWriter::write_char(s, ch).unwrap();
                Ok(())
            }
            AnyWriter::Utf8(w) => w.write_char(ch).map_err(WErr::Io),
            AnyWriter::Call(w) => {
                w.call()?;
                if !w.failed {
                    w.text.push(ch);
                }
                Ok(())
            }
        }
    }

    fn write_str(&mut self, str: &str) -> Result<(), WErr> {
        match self {
            AnyWriter::Push(f) => {
                str.chars().for_each(f);
                Ok(())
            }
            AnyWriter::Str(s) => {
                hook::tick();
                TextWriter::write_str(s, str).unwrap();
                Ok(())
            }
            AnyWriter::Utf8(w) => w.write_str(str).map_err(WErr::Io),
            AnyWriter::Call(w) if w.by_char => {
                for ch in str.chars() {
                    w.call()?;
                    if !w.failed {
                        w.text.push(ch);
                    }
                }
                Ok(())
            }
            AnyWriter::Call(w) => {
                w.call()?;
                if !w.failed {
                    w.text.push_str(str);
                }
                Ok(())
            }
        }
    }
}

impl AnyWriter {
    pub fn text(&self) -> Vec<u8> {
        match self {
            AnyWriter::Str(s) => s.clone().into_bytes(),
            AnyWriter::Utf8(_) => panic!("use into_text"),
            AnyWriter::Push(_) => Vec::new(),
            AnyWriter::Call(w) => w.text.clone().into_bytes(),
        }
    }

    pub fn into_text(self) -> Vec<u8> {
        match self {
            AnyWriter::Str(s) => s.into_bytes(),
            AnyWriter::Utf8(w) => w.into_inner().data,
            AnyWriter::Call(w) => w.text.into_bytes(),
            AnyWriter::Push(_) => Vec::new(),
        }
    }
}
