//! Character sources (C14).

use crate::dom;
use crate::engine::{guard, mix, CheckResult, Extra, FuelExhausted, Prop, Src};
use crate::io::{line_column, AnyPos, AnyReader, ChunkRead, Source, Text};
use serdere::{read_utf8, TextReader, Utf8Reader};
use std::cell::Cell;
use std::io::{self, Read};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "random bytes, well-formed or not, decoded from pieces of any size with interruptions and failures; and random texts with a random sequence of next, peek, read_exact, read_until and position calls. Non-trivial: at least two characters of more than one byte were decoded, or at least three calls moved a source",
        check: c14,
        quick: 2_800_000,
        thorough: 20_000_000,
        extra: Some(c14_extra),
    }]
}

fn c14(src: &mut Src) -> CheckResult {
    if src.chance(1, 2) {
        bytes(src)
    } else {
        ops(src)
    }
}

// ------------------------------------------------------------------------------------------------
// Bytes

/// A byte source which keeps count, delivers pieces, is interrupted, and fails in a given place.
struct Probe {
    data: Vec<u8>,
    pos: Rc<Cell<usize>>,
    plan: u64,
    calls: u64,
    interrupted: bool,
    fail_at: Option<usize>,
}

impl Read for Probe {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 64 * (self.data.len() as u64 + 100) {
            std::panic::panic_any(FuelExhausted);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut max = buf.len();
        if self.plan != 0 {
            let r = mix(self.plan ^ self.calls.wrapping_mul(0x9E37));
            if !self.interrupted && r % 3 == 0 {
                self.interrupted = true;
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.interrupted = false;
            max = max.min(1 + (r >> 8) as usize % 3);
        }
        let at = self.pos.get();
        if let Some(f) = self.fail_at {
            if at >= f {
                return Err(io::Error::new(io::ErrorKind::TimedOut, "planned failure"));
            }
            max = max.min(f - at);
        }
        let n = max.min(self.data.len() - at);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos.set(at + n);
        Ok(n)
    }
}

const BOUNDARY: &[u8] = &[
    0x00, 0x0A, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xD0, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE,
    0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF,
];

fn gen_bytes(src: &mut Src) -> Vec<u8> {
    let mut v = Vec::new();
    let n = src.range(0, 12);
    let bad = src.chance(1, 2);
    for _ in 0..n {
        match if bad { src.weighted(&[8, 1, 1, 1]) } else { 0 } {
            0 => {
                let c = match src.weighted(&[3, 2]) {
                    0 => dom::gen_char(src),
                    _ => loop {
                        let x = match src.idx(4) {
                            0 => src.below(0x80),
                            1 => src.below(0x800),
                            2 => src.below(0x10000),
                            _ => src.below(0x110000),
                        };
                        if let Some(c) = char::from_u32(x as u32) {
                            break c;
                        }
                        break 'a';
                    },
                };
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            1 => v.push(src.choose(BOUNDARY)),
            2 => v.push(src.below(256) as u8),
            // A sequence which is cut short, overlong, too big or a surrogate
            _ => v.extend_from_slice(src.pick(&[
                &b"\xC3"[..],
                b"\xE2\x82",
                b"\xF0\x9F\x98",
                b"\xF0\x9F",
                b"\xE2",
                b"\xC0\xAF",
                b"\xC1\xBF",
                b"\xE0\x80\xAF",
                b"\xE0\x9F\xBF",
                b"\xF0\x80\x80\xAF",
                b"\xF0\x8F\xBF\xBF",
                b"\xED\xA0\x80",
                b"\xED\xBF\xBF",
                b"\xF4\x90\x80\x80",
                b"\xF7\xBF\xBF\xBF",
                b"\xF8\x88\x80\x80\x80",
                b"\xC3\x28",
                b"\xE2\x28\xA1",
                b"\xE2\x82\x28",
                b"\xF0\x28\x8C\xBC",
                b"\xF0\x90\x28\xBC",
                b"\xF0\x90\x8C\x28",
                b"\xC3\xC3\xA9",
                b"\xE2\x82\xC3",
                b"\x80",
                b"\xBF\xBF",
            ])),
        }
    }
    v
}

fn bytes(src: &mut Src) -> CheckResult {
    let data = gen_bytes(src);
    let plan = if src.chance(1, 3) { 0 } else { 1 + src.below(1 << 20) };
    let fail_at = src.chance(1, 5).then(|| src.idx(data.len() + 1));
    src.ident(&data);
    src.ident(&plan.to_le_bytes());
    src.note(|| format!("bytes {data:02x?} plan {plan} failing at {fail_at:?}"));
    src.class("bytes");
    // What is well-formed before the end, the first malformed sequence or the failure
    let delivered = &data[..fail_at.unwrap_or(data.len())];
    let (valid, whole) = match std::str::from_utf8(delivered) {
        Ok(s) => (s, fail_at.is_none()),
        Err(e) => (std::str::from_utf8(&delivered[..e.valid_up_to()]).unwrap(), false),
    };
    if valid.chars().filter(|c| c.len_utf8() > 1).count() >= 2 {
        src.nontrivial();
    }
    if !whole {
        src.class("bytes which are malformed, or fail");
    }
    if src.chance(2, 3) {
        let pos = Rc::new(Cell::new(0));
        let mut r = Probe { data: data.clone(), pos: pos.clone(), plan, calls: 0, interrupted: false, fail_at };
        let mut at = 0;
        let dynamic = src.chance(1, 4);
        let step = |r: &mut Probe| {
            guard(|| if dynamic { read_utf8(r as &mut dyn Read) } else { read_utf8(r) }).map_err(|c| c.describe())
        };
        for c in valid.chars() {
            match step(&mut r)? {
                Ok(Some(d)) if d == c => (),
                other => return Err(format!("expected {c:?} at byte {at}, got {other:?}")),
            }
            at += c.len_utf8();
            if pos.get() != at {
                return Err(format!("{} bytes were taken for the characters in the first {at}", pos.get()));
            }
        }
        return match (step(&mut r)?, whole) {
            (Ok(None), true) | (Err(_), false) => Ok(()),
            (Err(e), true) => Err(format!("error at the end of well-formed data: {e}")),
            (Ok(c), false) => Err(format!("{c:?} at byte {at}, where there is an error")),
            (Ok(c), true) => Err(format!("{c:?} at the end")),
        };
    }
    // The same through a reader, which reads one character ahead.
    let pos = Rc::new(Cell::new(0));
    let r = Probe { data: data.clone(), pos, plan, calls: 0, interrupted: false, fail_at };
    let chars: Vec<char> = valid.chars().collect();
    let mut reader = match guard(|| Utf8Reader::new(r)).map_err(|c| c.describe())? {
        Ok(r) => r,
        Err(e) => {
            return if chars.is_empty() && !whole { Ok(()) } else { Err(format!("the reader cannot be made: {e}")) }
        }
    };
    if chars.is_empty() && !whole {
        return Err("a reader was made for data which starts with an error".into());
    }
    for i in 0..chars.len() {
        if reader.peek() != Some(chars[i]) {
            return Err(format!("peek is {:?} at character {i}", reader.peek()));
        }
        match guard(|| reader.next()) {
            Ok(Some(c)) if c == chars[i] => {
                if i + 1 == chars.len() && !whole {
                    // There is no way to have an error from `next`: the end must not be reported
                    // in its place.
                    if reader.peek().is_some() {
                        return Err("a character was read where there is an error".into());
                    }
                    return Err("the end was reported where there is an error".into());
                }
            }
            Ok(c) => return Err(format!("expected {:?}, got {c:?}", chars[i])),
            // Known finding: `next` panics when what it reads ahead is an error.
            Err(_) if i + 1 == chars.len() && !whole => {
                src.class("known finding: panic when reading ahead fails");
                return Ok(());
            }
            Err(c) => return Err(c.describe()),
        }
    }
    for _ in 0..2 {
        if reader.peek().is_some() || guard(|| reader.next()).map_err(|c| c.describe())?.is_some() {
            return Err("there is a character after the last one".into());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Operations

fn gen_chars(src: &mut Src) -> String {
    let n = src.range(0, 40);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[5, 3, 2]) {
            0 => s.push(src.choose(&['a', 'b', 'c', '"', ' ', '\\'])),
            1 => s.push_str(src.pick(&["\n", "\r\n", "\r", "\t", "\n\n", "\t\t", "\r\r\n"])),
            _ => s.push(dom::gen_char(src)),
        }
    }
    s
}

fn ops(src: &mut Src) -> CheckResult {
    let text = Text::new(gen_chars(src));
    let source = super::gen_source(src);
    src.class("calls");
    let count = src.range(1, 16);
    let mut log: Vec<String> = Vec::new();
    let mut moved = 0;
    let r = guard(|| run_ops(src, &text, source, count, &mut log, &mut moved));
    src.ident(text.str.as_bytes());
    src.ident(log.join(",").as_bytes());
    src.note(|| format!("{source:?} text={:?} calls {}", text.str, log.join(", ")));
    if moved >= 3 {
        src.nontrivial();
    }
    r.unwrap_or_else(|c| Err(c.describe()))
}

fn run_ops(
    src: &mut Src,
    text: &Text,
    source: Source,
    count: usize,
    log: &mut Vec<String>,
    moved: &mut usize,
) -> CheckResult {
    let mut reader = text.open(source);
    let mut at = 0;
    let mut seen: Vec<(AnyPos, usize)> = Vec::new();
    for _ in 0..count {
        let rest = &text.chars[at..];
        match src.weighted(&[4, 2, 2, 3]) {
            0 => {
                let times = src.range(1, 4);
                log.push(format!("next x{times}"));
                for _ in 0..times {
                    let c = reader.next();
                    if c != text.chars.get(at).copied() {
                        return Err(format!("next gave {c:?} at {at}"));
                    }
                    at += usize::from(c.is_some());
                }
                *moved += 1;
            }
            1 => {
                log.push("peek".into());
                for _ in 0..2 {
                    let c = reader.peek();
                    if c != rest.first().copied() {
                        return Err(format!("peek gave {c:?} at {at}"));
                    }
                }
            }
            2 => {
                let n = src.range(0, rest.len().min(6));
                let mut s: String = rest[..n].iter().collect();
                if src.chance(1, 6) {
                    if src.chance(1, 2) {
                        s.pop();
                    }
                    s.push(src.choose(&['a', 'é', '\0']));
                }
                let expect = rest.iter().copied().take(s.chars().count()).eq(s.chars());
                log.push(format!("read_exact({s:?})"));
                let got = reader.read_exact(&s);
                if got != expect {
                    return Err(format!("read_exact({s:?}) gave {got} at {at}"));
                }
                if !got {
                    // Where the reader is now is not defined
                    return Ok(());
                }
                at += s.chars().count();
                *moved += usize::from(!s.is_empty());
            }
            _ => {
                let ends: Vec<char> = match src.weighted(&[3, 2, 1]) {
                    0 => vec![src.choose(&['a', '"', '\n', '\t', ' '])],
                    1 => vec!['"', '\\'],
                    _ => vec!['\u{10FFFF}', '\u{7}'],
                };
                // Not every terminating character need stop it at once
                let skip = src.weighted(&[4, 1, 1]);
                log.push(format!("read_until({ends:?}, passing {skip})"));
                let stop = |c: char, left: &mut usize| {
                    if !ends.contains(&c) {
                        return None;
                    }
                    if *left > 0 {
                        *left -= 1;
                        return None;
                    }
                    Some(c as u32)
                };
                let mut left = skip;
                let expect = rest.iter().enumerate().find_map(|(i, c)| stop(*c, &mut left).map(|r| (i, r)));
                let mut left = skip;
                let mut asked = Vec::new();
                let got = reader.read_until(|c| {
                    asked.push(c);
                    stop(c, &mut left)
                });
                let got = got.map(|(s, r)| (s.into_owned(), r));
                let want = expect.map(|(i, r)| (rest[..i].iter().collect::<String>(), r));
                if got != want {
                    return Err(format!("read_until gave {got:?} at {at}"));
                }
                let n = expect.map_or(rest.len(), |(i, _)| i + 1);
                if asked != rest[..n] {
                    return Err(format!("read_until asked about {asked:?} at {at}"));
                }
                at += n;
                *moved += 1;
            }
        }
        if at == text.chars.len() {
            src.class("reached the end");
        }
        let p = reader.position();
        if !text.is_at(&p, at) {
            return Err(format!("the position after {at} characters is {p:?}"));
        }
        if p != reader.position() || p != p.clone() {
            return Err("positions in the same place differ".into());
        }
        for (q, o) in &seen {
            let expect = match (&p, &q) {
                (AnyPos::Lc(_), _) => line_column(&text.chars[..*o]).cmp(&line_column(&text.chars[..at])),
                _ => o.cmp(&at),
            };
            if q.cmp(&p) != expect
                || p.cmp(q) != expect.reverse()
                || (*q == p) != expect.is_eq()
                || q.partial_cmp(&p) != Some(expect)
            {
                return Err(format!("the positions of offsets {o} and {at} compare as {:?}", q.cmp(&p)));
            }
        }
        if seen.len() < 6 {
            seen.push((p, at));
        }
        if let AnyReader::Str(rest) = &reader {
            let p = serdere::prefix(&text.str, rest);
            if !p.chars().eq(text.chars[..at].iter().copied()) {
                return Err(format!("the prefix before offset {at} is {p:?}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Everything there is

fn decode(data: &[u8]) -> Result<Vec<char>, Vec<char>> {
    let mut r = data;
    let mut v = Vec::new();
    loop {
        match read_utf8(&mut r) {
            Ok(Some(c)) => v.push(c),
            Ok(None) => return Ok(v),
            Err(_) => return Err(v),
        }
    }
}

fn decode_matches(data: &[u8]) -> CheckResult {
    let got = guard(|| decode(data)).map_err(|c| format!("{data:02x?}: {}", c.describe()))?;
    let ok = match (std::str::from_utf8(data), &got) {
        (Ok(s), Ok(v)) => s.chars().eq(v.iter().copied()),
        (Err(e), Err(v)) => std::str::from_utf8(&data[..e.valid_up_to()]).unwrap().chars().eq(v.iter().copied()),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("the bytes {data:02x?} are decoded as {got:?}"))
    }
}

fn c14_extra(e: &mut Extra) -> CheckResult {
    let mut n = 0u64;
    // Every character
    let mut buf = Vec::new();
    for c in '\0'..=char::MAX {
        buf.clear();
        let mut b = [0; 4];
        buf.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        buf.push(b'z');
        decode_matches(&buf)?;
        n += 1;
    }
    // Every pair of bytes, and every sequence of three and four bytes from a set
    for a in 0..=255u8 {
        decode_matches(&[a])?;
        for b in 0..=255u8 {
            decode_matches(&[a, b])?;
            n += 1;
        }
    }
    let s = BOUNDARY;
    for &a in s.iter().filter(|a| **a >= 0x7F) {
        for &b in s {
            for &c in s {
                decode_matches(&[a, b, c])?;
                n += 1;
                for &d in s.iter().step_by(2).chain(&[0xBF]) {
                    decode_matches(&[a, b, c, d])?;
                    n += 1;
                }
            }
        }
    }
    // Far into a text
    let mut long = String::new();
    for i in 0..70_000 {
        long.push_str(["a\n", "é", "\t", "\r\n", "😀"][i % 5]);
        if i % 100 == 0 {
            long.push_str(&"x".repeat(700));
        }
    }
    long.push_str(&"\n".repeat(70_000));
    long.push_str(&"y".repeat(70_000));
    let mut r = Utf8Reader::new(ChunkRead::new(long.as_bytes(), 0)).map_err(|e| e.to_string())?;
    let (mut line, mut column) = (0, 0);
    for c in long.chars() {
        let p = r.position();
        if (p.line, p.column) != (line, column) {
            return Err(format!("line {line}, column {column} is reported as line {}, column {}", p.line, p.column));
        }
        if guard(|| r.next()).map_err(|c| c.describe())? != Some(c) {
            return Err(format!("a wrong character at line {line}, column {column}"));
        }
        match c {
            '\n' => (line, column) = (line + 1, 0),
            '\r' => (),
            '\t' => column += 4,
            _ => column += 1,
        }
    }
    n += 1;
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} fixed inputs: every character, every pair of bytes, combinations of 3 and 4 boundary bytes, a long text"));
    // The known finding
    let mut r = Utf8Reader::new(&b"a\xFF"[..]).map_err(|e| e.to_string())?;
    match guard(|| r.next()) {
        Err(_) => e.known.push(
            "Utf8Reader::next (core/src/text_reader.rs) panics when the source fails, or is not UTF-8, after its first character (bytes 61 ff)".into(),
        ),
        Ok(c) => return Err(format!("the bytes 61 ff are read as {c:?}, with {:?} next, and no error", r.peek())),
    }
    Ok(())
}
