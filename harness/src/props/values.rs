//! C01, C06 and C07: values and numbers.

use super::types::{gen_place, Place};
use super::*;
use crate::catalog::{self, Target};
use crate::dom::{BigI, IntTy};
use crate::dynamic;
use crate::engine::{guard, CheckResult, Extra};
use crate::io::{AnyWriter, CallWriter, PlanWrite, Text, WriteFailure};
use crate::model::{self, Dv, Ty};
use crate::text;
use serdere::Utf8Writer;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a random type and a value of it, written with some indentation to some writer and read back from some source, at the top or inside a buffered object. Non-trivial: the output is longer than six characters",
            check: c01,
            quick: 2_400_000,
            thorough: 25_000_000,
            extra: None,
        },
        Prop {
            id: "C06",
            rule: "a number literal read as an integer type, streamed and buffered. Non-trivial: the literal has a fraction or exponent, or is within a factor of ten of a bound of the type, or is out of its range",
            check: c06,
            quick: 8_000_000,
            thorough: 40_000_000,
            extra: Some(c06_extra),
        },
        Prop {
            id: "C07",
            rule: "a number literal read as both float types, streamed or buffered; or a float written and read back. Non-trivial: the literal is not exact as a float, or is exactly between two floats",
            check: c07,
            quick: 6_000_000,
            thorough: 25_000_000,
            extra: Some(c07_extra),
        },
    ]
}

/// Some writer which does not fail.
pub(super) fn gen_writer(src: &mut Src) -> AnyWriter {
    match src.idx(4) {
        0 => AnyWriter::Str(String::new()),
        1 => AnyWriter::Call(CallWriter::new(None, src.chance(1, 2))),
        2 => AnyWriter::Utf8(Utf8Writer::new(PlanWrite::new(0, None, WriteFailure::Other))),
        _ => AnyWriter::Utf8(Utf8Writer::new(PlanWrite::new(1 + src.below(1000), None, WriteFailure::Other))),
    }
}

// ------------------------------------------------------------------------------------------------
// C01

fn c01(src: &mut Src) -> CheckResult {
    let target = catalog::gen_target(src);
    let v = model::gen_value(src, target.ty(), true);
    if !model::round_trips(target.ty(), &v) {
        src.class("left out: null in a field with a default");
        return Ok(());
    }
    src.ident(target.describe().as_bytes());
    src.ident(format!("{v:?}").as_bytes());
    let indent = src.choose(text::INDENTS);
    let writer = gen_writer(src);
    src.class(match &writer {
        AnyWriter::Str(_) => "written to a string",
        AnyWriter::Utf8(_) => "written to a byte stream",
        _ => "written to another sink",
    });
    let source = gen_source(src);
    let place = gen_place(src);
    src.class(if place.buffered() { "read from a buffer" } else { "read streamed" });
    src.note(|| format!("{} indentation {indent:?}, {source:?}, {place:?}: {v:?}", target.describe()));
    let (writer, r) = guard(|| text::write(writer, indent, |w| target.ser(&v, w))).map_err(|c| c.describe())?;
    r.map_err(|e| format!("writing failed: {e}"))?;
    let out = String::from_utf8(writer.into_text()).map_err(|_| "the output is not UTF-8")?;
    if out.len() > 6 {
        src.nontrivial();
    }
    let text = Text::new(place.wrap_text(&out));
    let got = guard(|| text::read(&text, source, false, |w| place.read(w, |w| target.de(w)))).map_err(|c| c.describe())?;
    match got {
        Ok(g) if g == v => (),
        Ok(g) => return Err(format!("read back as {g:?} from {out}")),
        Err(e) => return Err(format!("not read back: {} in {}", text::show_err(&text, &e), text.str)),
    }
    if let Target::Static(catalog::Entry { strs: Some(s), .. }) = &target {
        src.class("convenience functions");
        let (what, got) = match src.idx(3) {
            0 => ("to_str and from_str", guard(|| (s.from_str)(&(s.to_str)(&v)))),
            1 => {
                let plan = src.below(100);
                ("to_writer and from_reader", guard(|| (s.from_bytes)(&(s.to_bytes)(&v), plan)))
            }
            _ => ("from_str of the output", guard(|| (s.from_str)(&out))),
        };
        match got.map_err(|c| c.describe())? {
            Ok(g) if g == v => (),
            Ok(g) => return Err(format!("{what}: read back as {g:?}")),
            Err(e) => return Err(format!("{what}: not read back: {e}")),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C06

#[derive(Debug, Clone, Copy, PartialEq)]
enum Want {
    Int,
    NonZero,
    /// Through `read_number`.
    Raw,
}

const INTS: &[(u32, bool)] = &[
    (8, false), (8, true), (16, false), (16, true), (32, false), (32, true), (64, false), (64, true), (128, false), (128, true),
];

/// Digits with the decimal point and the exponent anywhere, having the given value.
fn spell_scaled(src: &mut Src, neg: bool, mag: u128) -> String {
    let mut digits = mag.to_string();
    let mut exp: i64 = 0;
    // Trailing zeros may go, or more may come
    if src.chance(1, 2) {
        while digits.ends_with('0') && digits.len() > 1 && src.chance(4, 5) {
            digits.pop();
            exp += 1;
        }
    } else {
        for _ in 0..if mag == 0 { 0 } else { src.weighted(&[3, 3, 2, 1, 1]) } {
            digits.push('0');
            exp -= 1;
        }
    }
    // Some digits may go behind the point, with more zeros between
    let mut fraction = String::new();
    if src.chance(1, 2) {
        let n = src.idx(digits.len() + 1);
        fraction = digits.split_off(digits.len() - n);
        exp += n as i64;
        if digits.is_empty() {
            digits.push('0');
            for _ in 0..src.weighted(&[4, 2, 1, 1]) {
                fraction.insert(0, '0');
                exp += 1;
            }
        }
        if fraction.is_empty() {
            fraction.push('0');
        }
    }
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    s.push_str(&digits);
    if !fraction.is_empty() {
        s.push('.');
        s.push_str(&fraction);
    }
    if src.chance(1, 20) {
        exp += src.irange(-2, 2);
    }
    if exp != 0 || src.chance(1, 4) {
        s.push(src.choose(&['e', 'E']));
        if exp < 0 {
            s.push('-');
        } else if src.chance(1, 3) {
            s.push('+');
        }
        if src.chance(1, 8) {
            s.push('0');
        }
        s.push_str(&exp.abs().to_string());
    }
    s
}

fn gen_int_literal(src: &mut Src, near: IntTy) -> String {
    match src.weighted(&[6, 5, 4, 2]) {
        k @ 0..=1 => {
            // Around a bound, or anywhere in range
            let (bits, signed) = src.choose(INTS);
            let t = if src.chance(3, 4) { near } else { IntTy { bits, signed } };
            let neg = src.chance(2, 5);
            let max = t.max_mag(neg);
            let mag = match src.weighted(&[5, 3, 3, 2]) {
                0 => max.saturating_add(u128::from(src.below(5))).saturating_sub(2),
                1 => src.below(300).into(),
                2 => {
                    // A little above a power of ten, or a multiple of the bound
                    let p = src.idx(39) as u32;
                    10u128.pow(p).saturating_add(u128::from(src.below(12))).saturating_sub(u128::from(src.below(3)))
                }
                _ => {
                    let r = u128::from(src.u64()) << 64 | u128::from(src.u64());
                    let b = src.below(129) as u32;
                    if b == 0 { 0 } else { r >> (128 - b) }
                }
            };
            if k == 0 {
                format!("{}{mag}", if neg { "-" } else { "" })
            } else {
                spell_scaled(src, neg, mag)
            }
        }
        2 => dom::gen_number(src),
        _ => {
            // Bounds of unsigned types with something after them
            let m = (1u128 << src.choose(&[8u32, 16, 32, 64])) - 1 + u128::from(src.below(2));
            let tail = src.choose(&["0", "00", ".0", ".5", "e0", "e1", "0e-1", ".00e0", ".0e1", "5", "e-1", "00e-2", "000000000000e-12", ".000000000000000000000000"]);
            format!("{}{m}{tail}", if src.chance(1, 4) { "-" } else { "" })
        }
    }
}

fn int_types() -> &'static [[Ty; 2]] {
    static T: OnceLock<Vec<[Ty; 2]>> = OnceLock::new();
    T.get_or_init(|| INTS.iter().map(|&(bits, signed)| [Ty::Int(IntTy { bits, signed }), Ty::NonZero(IntTy { bits, signed })]).collect())
}

fn read_raw<'a>(value: Value<'_, De<'a>>, t: IntTy) -> Result<BigI, DErr<'a>> {
    let (source, done) = value.into_raw();
    let v = match (t.bits, t.signed) {
        (8, false) => BigI::from_u(source.read_number::<u8>()?.into()),
        (16, false) => BigI::from_u(source.read_number::<u16>()?.into()),
        (32, false) => BigI::from_u(source.read_number::<u32>()?.into()),
        (64, false) => BigI::from_u(source.read_number::<u64>()?.into()),
        (128, false) => BigI::from_u(source.read_number::<u128>()?),
        (8, true) => BigI::from_i(source.read_number::<i8>()?.into()),
        (16, true) => BigI::from_i(source.read_number::<i16>()?.into()),
        (32, true) => BigI::from_i(source.read_number::<i32>()?.into()),
        (64, true) => BigI::from_i(source.read_number::<i64>()?.into()),
        _ => BigI::from_i(source.read_number::<i128>()?),
    };
    *done = true;
    Ok(v)
}

fn read_int(lit: &str, want: Want, which: usize, place: Place, source: Source) -> Result<Option<BigI>, String> {
    let (bits, signed) = INTS[which];
    let t = IntTy { bits, signed };
    let text = Text::new(place.wrap_text(lit));
    let r = guard(|| {
        text::read(&text, source, false, |v| {
            place.read(v, |v| match want {
                Want::Raw => read_raw(v, t),
                _ => {
                    let ty = &int_types()[which][(want == Want::NonZero) as usize];
                    match dynamic::de(ty, v, &mut dynamic::TyCtx::default())? {
                        Dv::Int(i) => Ok(BigI::from_i(i)),
                        other => panic!("{other:?}"),
                    }
                }
            })
        })
        .ok()
    });
    r.map_err(|c| c.describe())
}

fn judge_int(lit: &str, want: Want, which: usize, got: Option<BigI>) -> CheckResult {
    let (bits, signed) = INTS[which];
    let (value, must) = dom::int_oracle(lit, IntTy { bits, signed });
    let value = value.filter(|v| want != Want::NonZero || v.mag != 0);
    let name = format!("{}{}{bits}", if want == Want::NonZero { "NonZero" } else { "" }, if signed { "i" } else { "u" });
    match (value, got) {
        (Some(v), Some(g)) if v == g => Ok(()),
        (None, None) => Ok(()),
        (Some(_), None) if !must => Ok(()),
        (Some(v), None) => Err(format!("{lit} is rejected as {name}, although it is {v:?}")),
        (v, Some(g)) => Err(format!("{lit} as {name} is read as {g:?}, not as {v:?}")),
    }
}

fn c06(src: &mut Src) -> CheckResult {
    let which = src.idx(INTS.len());
    let (bits, signed) = INTS[which];
    let t = IntTy { bits, signed };
    let want = if bits == 128 { Want::Raw } else { src.choose(&[Want::Int, Want::NonZero, Want::Raw]) };
    let lit = gen_int_literal(src, t);
    let source = gen_source(src);
    let streamed = src.choose(&[Place::Top, Place::Item, Place::Entry]);
    let buffered = src.choose(&[Place::Buffered, Place::BufferedDeep, Place::BufferedItem]);
    src.note(|| format!("{lit} as {want:?} {t:?}, {source:?}, {streamed:?} and {buffered:?}"));
    src.ident(lit.as_bytes());
    src.ident(&[which as u8]);
    let (value, must) = dom::int_oracle(&lit, t);
    let near = value.map_or(true, |v| v.mag >= t.max_mag(v.neg) / 10);
    if near || lit.contains(['.', 'e', 'E']) {
        src.nontrivial();
    }
    src.class(match (value.is_some(), must) {
        (true, true) => "an integer in range which must be accepted",
        (true, false) => "an integer in range which may be rejected",
        _ => "out of range or fractional",
    });
    let a = read_int(&lit, want, which, streamed, source)?;
    judge_int(&lit, want, which, a)?;
    let b = read_int(&lit, want, which, buffered, source)?;
    judge_int(&lit, want, which, b).map_err(|e| format!("buffered: {e}"))?;
    if a != b {
        return Err(format!("{lit} is read as {a:?} when streamed, and as {b:?} when buffered"));
    }
    Ok(())
}

fn c06_extra(e: &mut Extra) -> CheckResult {
    let mut n = 0;
    let mut check = |lit: &str, which: usize, want: Want, place: Place| -> CheckResult {
        n += 1;
        judge_int(lit, want, which, read_int(lit, want, which, place, Source::Str)?)
    };
    for i in -300i32..=600 {
        for which in 0..2 {
            for place in [Place::Top, Place::Buffered] {
                check(&i.to_string(), which, Want::Int, place)?;
                check(&format!("{i}.0"), which, Want::NonZero, place)?;
                for k in -3..=3 {
                    check(&format!("{i}e{k}"), which, Want::Int, place)?;
                    check(&format!("{}.{}e{k}", i / 10, (i % 10).abs()), which, Want::Int, place)?;
                }
            }
        }
    }
    for i in (-70_000i32..=-65_000).chain(-33_000..=-32_700).chain(32_700..=33_000).chain(65_400..=66_000).chain(-1000..1000) {
        for which in 2..4 {
            check(&i.to_string(), which, Want::Int, Place::Top)?;
            check(&i.to_string(), which, Want::Int, Place::Buffered)?;
        }
    }
    // Literals whose digits 8 and 16 bits can not count
    for z in [120, 127, 128, 255, 256, 300, 1200, 32_760, 32_768, 33_000, 65_530, 65_536, 70_000i64] {
        let zeros = "0".repeat(z as usize);
        for digits in ["0", "1", "7", "200", "123456789"] {
            for k in [-3, -1, 0, 1, 4] {
                for lit in [
                    format!("0.{zeros}{digits}e{}", z + k),
                    format!("{digits}{zeros}e{}", k - z),
                    format!("-{digits}.{zeros}e{k}"),
                    format!("{digits}.{zeros}{digits}e{k}"),
                    format!("{digits}{zeros}.{zeros}E{}", k - z),
                    format!("{digits}e{}{zeros}{}", if k < 0 { "-" } else { "+" }, k.abs()),
                ] {
                    if lit.len() > 1 && lit.starts_with('0') && lit.as_bytes()[1].is_ascii_digit() {
                        continue;
                    }
                    for which in 0..INTS.len() {
                        let place = if (which as i64 + k).rem_euclid(2) == 0 { Place::Top } else { Place::BufferedItem };
                        check(&lit, which, Want::Raw, place).map_err(|m| {
                            if m.len() < 800 { m } else { format!("{digits} with {z} zeros and a factor of 1e{k}: {}…", &m[..200]) }
                        })?;
                    }
                }
            }
        }
    }
    e.evaluations += n;
    e.distinct += n;
    e.notes.push(format!("{n} fixed literals: the whole range of the 8-bit types and around it in several spellings, around the bounds of the 16-bit types, and up to 140000 digits"));
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C07

/// The decimal digits of `m * 2^e`, and the power of ten they are multiplied by.
fn exact_decimal(m: u64, e: i32) -> (String, i64) {
    const BASE: u64 = 1_000_000_000;
    let mut limbs: Vec<u64> = Vec::new();
    let mut rest = m;
    while rest > 0 {
        limbs.push(rest % BASE);
        rest /= BASE;
    }
    let mut mul = |by: u64, times: u32| {
        // As many factors at a time as fit
        let step = (1_000_000_000f64.ln() / (by as f64).ln()) as u32;
        let mut left = times;
        while left > 0 {
            let k = left.min(step);
            let f = by.pow(k);
            let mut carry = 0;
            for l in limbs.iter_mut() {
                let x = *l * f + carry;
                *l = x % BASE;
                carry = x / BASE;
            }
            if carry > 0 {
                limbs.push(carry);
            }
            left -= k;
        }
    };
    let exp = if e >= 0 {
        mul(2, e as u32);
        0
    } else {
        mul(5, -e as u32);
        i64::from(e)
    };
    let mut s = String::new();
    for (i, l) in limbs.iter().rev().enumerate() {
        if i == 0 {
            s.push_str(&l.to_string());
        } else {
            s.push_str(&format!("{l:09}"));
        }
    }
    if s.is_empty() {
        s.push('0');
    }
    (s, exp)
}

/// Writes `digits * 10^exp` with the point somewhere.
fn place_point(src: &mut Src, digits: &str, exp: i64) -> String {
    let n = digits.len() as i64;
    match src.idx(4) {
        0 => format!("{digits}e{exp}"),
        // One digit before the point
        1 if n > 1 => format!("{}.{}E{:+}", &digits[..1], &digits[1..], exp + n - 1),
        // No exponent
        2 if exp < 0 && exp > -1100 => {
            if -exp < n {
                let at = (n + exp) as usize;
                format!("{}.{}", &digits[..at], &digits[at..])
            } else {
                format!("0.{}{digits}", "0".repeat((-exp - n) as usize))
            }
        }
        2 if (0..400).contains(&exp) && digits != "0" => format!("{digits}{}", "0".repeat(exp as usize)),
        _ => format!("0.{digits}e{}", exp + n),
    }
}

fn gen_float_literal(src: &mut Src) -> (String, bool) {
    let neg = if src.chance(1, 4) { "-" } else { "" };
    match src.weighted(&[5, 4, 3, 3, 2, 2]) {
        0 => (dom::gen_number(src), false),
        k @ 1..=2 => {
            // Between two adjacent floats: exactly halfway, or a little off
            let single = k == 2;
            let (m, e) = if single {
                let bits = match src.weighted(&[6, 1, 1]) {
                    0 => src.u64() as u32 & 0x7FFF_FFFF,
                    1 => src.below(1 << 24) as u32,
                    _ => 0x7F7F_FFFF - src.below(3) as u32,
                };
                let exp = (bits >> 23 & 0xFF).min(254);
                let frac = u64::from(bits & 0x7F_FFFF);
                if exp == 0 { (frac, -149) } else { (frac | 1 << 23, exp as i32 - 150) }
            } else {
                let bits = match src.weighted(&[6, 1, 1]) {
                    0 => src.u64() & i64::MAX as u64,
                    1 => src.below(1 << 53),
                    _ => 0x7FEF_FFFF_FFFF_FFFF - src.below(3),
                };
                let exp = (bits >> 52 & 0x7FF).min(2046);
                let frac = bits & ((1 << 52) - 1);
                if exp == 0 { (frac, -1074) } else { (frac | 1 << 52, exp as i32 - 1075) }
            };
            let (mut digits, exp) = exact_decimal(2 * m + 1, e - 1);
            let mut exp = exp;
            match src.weighted(&[3, 2, 2, 1]) {
                0 => (),
                1 => {
                    let zeros = src.idx(40);
                    digits.push_str(&"0".repeat(zeros));
                    digits.push('1');
                    exp -= zeros as i64 + 1;
                }
                2 => {
                    while digits.ends_with('0') {
                        digits.pop();
                        exp += 1;
                    }
                    let last = digits.pop().unwrap();
                    digits.push((last as u8 - 1) as char);
                    let nines = src.idx(40);
                    digits.push_str(&"9".repeat(nines + 1));
                    exp -= nines as i64 + 1;
                    digits = digits.trim_start_matches('0').to_string();
                }
                _ => {
                    let cut = src.range(1, digits.len());
                    exp += (digits.len() - cut) as i64;
                    digits.truncate(cut);
                }
            }
            (format!("{neg}{}", place_point(src, &digits, exp)), true)
        }
        3 => {
            // Around the size of the builder's buffer, and with leading or trailing zeros
            let n = src.range(24, 40);
            let mut digits: String = (0..n).map(|_| (b'0' + src.below(10) as u8) as char).collect();
            if digits.starts_with('0') {
                digits.replace_range(..1, "7");
            }
            let exp = match src.idx(3) {
                0 => 0,
                1 => src.irange(-400, 400),
                _ => src.irange(-40, 10),
            };
            (format!("{neg}{}", place_point(src, &digits, exp)), false)
        }
        4 => {
            // Zeros
            let z = src.weighted(&[4, 2, 1, 1]);
            let frac = match z {
                0 => String::new(),
                1 => ".0".into(),
                2 => format!(".{}", "0".repeat(src.range(1, 60))),
                _ => format!(".{}", "0".repeat(src.range(300, 500))),
            };
            let tail = if src.chance(1, 3) { format!("{}e{}", src.below(2), src.irange(-500, 500)) } else { String::new() };
            let tail = if frac.is_empty() { tail.trim_start_matches(['0', '1']).to_string() } else { tail };
            (format!("{neg}0{frac}{tail}"), false)
        }
        _ => {
            let f = model::gen_f64(src).abs();
            (format!("{neg}{f:e}"), false)
        }
    }
}

fn read_float(text: &Text, source: Source, place: Place, single: bool) -> Result<u64, String> {
    let r = guard(|| {
        text::read(text, source, false, |v| {
            place.read(v, |v| {
                if single {
                    v.get_f32().map(|f| u64::from(f.to_bits()))
                } else {
                    v.get_f64().map(|f| f.to_bits())
                }
            })
        })
    });
    match r.map_err(|c| c.describe())? {
        Ok(b) => Ok(b),
        Err(e) => Err(format!("not read as a float: {}", text::show_err(text, &e))),
    }
}

fn show(bits: u64, single: bool) -> String {
    if single {
        format!("{:e} ({bits:08x})", f32::from_bits(bits as u32))
    } else {
        format!("{:e} ({bits:016x})", f64::from_bits(bits))
    }
}

fn c07(src: &mut Src) -> CheckResult {
    if src.chance(1, 4) {
        return c07_written(src);
    }
    let (lit, midpoint) = gen_float_literal(src);
    let source = gen_source(src);
    let place = gen_place(src);
    src.class(if place.buffered() { "buffered" } else { "streamed" });
    if midpoint {
        src.class("around the middle of two floats");
    }
    src.note(|| format!("{lit}, {source:?}, {place:?}"));
    src.ident(lit.as_bytes());
    if midpoint || lit.len() > 12 {
        src.nontrivial();
    }
    let text = Text::new(place.wrap_text(&lit));
    for single in [false, true] {
        let expect =
            if single { u64::from(dom::float32_oracle(&lit).to_bits()) } else { dom::float64_oracle(&lit).to_bits() };
        let got = read_float(&text, source, place, single)?;
        if got != expect {
            return Err(format!("{lit} is read as {}, not as {}", show(got, single), show(expect, single)));
        }
    }
    Ok(())
}

fn written(bits: u64, single: bool, indent: Option<&'static str>) -> Result<String, String> {
    let out = guard(|| {
        text::write_string(indent, |w| {
            if single {
                w.put_f32(f32::from_bits(bits as u32))
            } else {
                w.put_f64(f64::from_bits(bits))
            }
        })
    })
    .map_err(|c| c.describe())??;
    let chars: Vec<char> = out.chars().collect();
    match dom::parse(&chars, false) {
        Ok(SNode { v: SVal::Num(n), .. }) if n == out => Ok(out),
        _ => Err(format!("{} is written as {out:?}, which is not a JSON number", show(bits, single))),
    }
}

fn c07_written(src: &mut Src) -> CheckResult {
    src.class("written");
    let single = src.chance(1, 2);
    let bits = if single { u64::from(model::gen_f32(src).to_bits()) } else { model::gen_f64(src).to_bits() };
    let source = gen_source(src);
    let place = gen_place(src);
    src.note(|| format!("{}, {source:?}, {place:?}", show(bits, single)));
    src.ident(&bits.to_le_bytes());
    src.ident(&[single as u8]);
    let indent = src.choose(text::INDENTS);
    let out = written(bits, single, indent)?;
    if out.len() > 8 {
        src.nontrivial();
    }
    let oracle =
        if single { u64::from(dom::float32_oracle(&out).to_bits()) } else { dom::float64_oracle(&out).to_bits() };
    if oracle != bits {
        return Err(format!("{} is written as {out}, which is {}", show(bits, single), show(oracle, single)));
    }
    let text = Text::new(place.wrap_text(&out));
    let got = read_float(&text, source, place, single)?;
    if got != bits {
        return Err(format!("{} is written as {out}, which is read as {}", show(bits, single), show(got, single)));
    }
    Ok(())
}

fn c07_extra(e: &mut Extra) -> CheckResult {
    let mut n = 0;
    // Every sign and exponent, with a few mantissas
    for sign in 0..2u64 {
        for exp in 0..2047u64 {
            for frac in [0, 1, (1 << 52) - 1, 1 << 51, 0x5555_5555_5555_5555 >> 12] {
                let bits = sign << 63 | exp << 52 | frac;
                let out = written(bits, false, None)?;
                let got = read_float(&Text::new(out.clone()), Source::Str, Place::Top, false)?;
                if got != bits {
                    return Err(format!("{} is written as {out}, which is read as {}", show(bits, false), show(got, false)));
                }
                n += 1;
            }
        }
        for exp in 0..255u64 {
            for frac in [0, 1, (1 << 23) - 1, 1 << 22, 0x2A_AAAA] {
                let bits = sign << 31 | exp << 23 | frac;
                let out = written(bits, true, None)?;
                let got = read_float(&Text::new(out.clone()), Source::Str, Place::Top, true)?;
                if got != bits {
                    return Err(format!("{} is written as {out}, which is read as {}", show(bits, true), show(got, true)));
                }
                n += 1;
            }
        }
    }
    e.evaluations += n;
    e.distinct += n;
    // Literals whose digits 8 and 16 bits can not count
    let mut long = 0;
    for z in [120, 127, 128, 255, 256, 300, 1200, 32_760, 32_768, 33_000, 65_530, 65_536, 70_000i64] {
        for k in [-330, -20, -1, 0, 1, 17, 300] {
            for digits in ["1", "7", "123456789", "9007199254740993", "17976931348623157"] {
                let zeros = "0".repeat(z as usize);
                let many = digits.repeat(z as usize / digits.len() + 1);
                for lit in [
                    format!("0.{zeros}{digits}e{}", z + k),
                    format!("{digits}{zeros}e{}", k - z),
                    format!("{digits}.{zeros}{digits}e{k}"),
                    format!("{digits}{zeros}.{zeros}{digits}E{}", k - z),
                    format!("{digits}e{}{zeros}{}", if k < 0 { "-" } else { "+" }, k.abs()),
                    format!("{digits}.{many}e{k}"),
                    format!("{many}e{}", k - z),
                    format!("0.{zeros}{many}e{}", z + k),
                ] {
                    let text = Text::new(lit.clone());
                    for single in [false, true] {
                        let expect = if single {
                            u64::from(dom::float32_oracle(&lit).to_bits())
                        } else {
                            dom::float64_oracle(&lit).to_bits()
                        };
                        let got = read_float(&text, if k == 0 { Source::Utf8(1) } else { Source::Str }, Place::Top, single)?;
                        if got != expect {
                            let lit = if lit.len() < 400 { lit } else { format!("{}…{} ({} characters)", &lit[..100], &lit[lit.len() - 100..], lit.len()) };
                            return Err(format!("{lit} is read as {}, not as {}", show(got, single), show(expect, single)));
                        }
                        long += 1;
                    }
                }
            }
        }
    }
    e.evaluations += long;
    e.distinct += long / 2;
    e.notes.push(format!("{long} reads of literals of up to 140000 digits"));
    e.notes.push(format!("{n} fixed floats: every sign and exponent of both types, with five mantissas each"));
    Ok(())
}
