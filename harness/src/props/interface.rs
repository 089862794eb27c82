//! C26: the JSON interface over an implementation other than the text formats.

use super::*;
use crate::dynamic::{self, TyCtx};
use crate::engine::{guard, CheckResult};
use crate::machine::{self, intern, Profile};
use crate::model::{self, DocInfo, DocOpts, Ty};
use crate::tree::{TreeDe, TreeErr, TreeSer};
use serdere_json::{JsonOutliner, JsonSerializer, ValueSerialierExt};
use serdere::{Outliner, Serializer};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "a document in memory behind the interfaces, read as a random type or by a random history of calls and wrappers, with some lengths known, wrong demands, and a failure at some call; and documents and values written. Non-trivial: a collection was skipped, an entry came out of order, there was an error, or a collection was written",
        check: c26,
        quick: 1_200_000,
        thorough: 25_000_000,
        extra: None,
    }]
}

fn c26(src: &mut Src) -> CheckResult {
    match src.weighted(&[5, 3, 2, 2]) {
        0 => walked(src),
        1 => typed(src),
        2 => written(src),
        _ => typed_written(src),
    }
}

/// The document with the offsets it has in a text.
fn placed(src: &mut Src, node: &Node) -> SNode {
    let style = dom::Style::random(src, false);
    let text = dom::print(src, node, style);
    let chars: Vec<char> = text.chars().collect();
    src.ident(text.as_bytes());
    src.note(|| format!("document {text}"));
    dom::parse(&chars, false).expect("the printed document is valid")
}

fn gen_sized(src: &mut Src) -> u64 {
    if src.chance(1, 2) { 0 } else { 1 + src.below(1 << 20) }
}

fn walked(src: &mut Src) -> CheckResult {
    src.class("walked");
    let o = dom::GenOpts { depth: 4, distinct_keys: src.chance(5, 6), big: true };
    let node = match src.weighted(&[5, 2, 1]) {
        0 => dom::gen_object(src, o),
        1 => dom::gen_node(src, o),
        _ => gen_any_node(src),
    };
    let doc = placed(src, &node);
    let sized = gen_sized(src);
    let p = Profile {
        skip: src.choose(&[0, 3, 6]),
        partial: src.choose(&[0, 4]),
        wrong: src.choose(&[0, 0, 4, 10]),
        rest: src.chance(1, 2),
    };
    let fail_at = src.chance(1, 4).then(|| src.idx(doc.size().min(200) * 3));
    src.note(|| format!("lengths {sized} failing at {fail_at:?}"));
    let mut d = TreeDe::new(&doc, sized, fail_at);
    let (stats, ended) = machine::walk_over(src, &mut d, &doc, p)?;
    if ended {
        if d.failed() {
            return Err("a failure of the reader was not passed on".into());
        }
        d.finish();
    }
    if stats.skipped_containers + stats.out_of_order + stats.errors + stats.rest_skipped > 0 || d.failed() {
        src.nontrivial();
    }
    for (on, class) in [
        (stats.skipped_containers > 0, "skipped collection"),
        (stats.rest_skipped > 0, "skipped the rest"),
        (stats.out_of_order > 0, "out of order"),
        (stats.errors > 0, "a wrong demand"),
        (d.failed() && stats.errors == 0, "a failure passed on"),
    ] {
        if on {
            src.class(class);
        }
    }
    Ok(())
}

fn typed(src: &mut Src) -> CheckResult {
    src.class("read as a type");
    let ty: &'static Ty = model::gen_ty(src, 3);
    let mut info = DocInfo::default();
    let break_it = src.chance(1, 2);
    let node = model::gen_doc(src, ty, DocOpts { break_it, big: true }, &mut info);
    let doc = placed(src, &node);
    if has_duplicates(&doc) {
        return Ok(());
    }
    let sized = gen_sized(src);
    src.ident(ty.describe().as_bytes());
    src.note(|| format!("as {} lengths {sized}", ty.describe()));
    let expect = model::ref_de(ty, &doc);
    let read = |fail_at: Option<usize>| {
        let mut d = TreeDe::new(&doc, sized, fail_at);
        let r = guard(|| {
            let r = Value::with(&mut d, |v| dynamic::de(ty, v, &mut TyCtx::default()));
            if r.is_ok() {
                d.finish();
            }
            r
        })
        .map_err(|c| c.describe())?;
        Ok::<_, String>((r, d.calls()))
    };
    let (got, calls) = read(None)?;
    match (&expect, &got) {
        (Ok(e), Ok(g)) if e == g => src.class("fits"),
        (Err(e), _) if e.open => src.class("an open verdict"),
        (Err(e), Err(g)) if types::same_kind(&e.kind, &g.kind) && g.pos == e.pos => {
            src.nontrivial();
            src.class("does not fit");
        }
        _ => return Err(format!("expected {expect:?}, got {got:?}")),
    }
    if info.reordered || info.extra || info.positional {
        src.nontrivial();
    }
    // Any call may fail
    let at = src.idx(calls + 1);
    let (again, made) = read(Some(at))?;
    match again {
        Err(TreeErr { injected: true, .. }) if at < calls => Ok(()),
        r if at >= calls && r == got => Ok(()),
        r => Err(format!("call {at} of {calls} failed ({made} were made), and the outcome was {r:?} instead of that failure")),
    }
}

/// Writes a document in some way.
fn put(src: &mut Src, value: Value<'_, TreeSer>, node: &Node) -> Result<(), TreeErr> {
    match node {
        Node::Null => value.into_null(),
        Node::Bool(b) => value.put_bool(*b),
        Node::Num(s) => {
            let v: i64 = s.parse().expect("an integer");
            match src.idx(5) {
                0 if i8::try_from(v).is_ok() => value.put_i8(v as i8),
                0 if u8::try_from(v).is_ok() => value.put_u8(v as u8),
                1 if i16::try_from(v).is_ok() => value.put_i16(v as i16),
                1 if u16::try_from(v).is_ok() => value.put_u16(v as u16),
                2 if i32::try_from(v).is_ok() => value.put_i32(v as i32),
                2 if u32::try_from(v).is_ok() => value.put_u32(v as u32),
                3 if v >= 0 => value.put_u64(v as u64),
                4 if v >= 0 => value.put_tag(src.idx(3), v as usize, None),
                _ => value.put_i64(v),
            }
        }
        Node::Str(s) => {
            let mut it = s.chars();
            match (src.idx(5), it.next(), it.next()) {
                (0, Some(c), None) => value.put_char(c),
                (1, _, _) => value.put(s),
                (2, _, _) => value.put_tag(src.idx(3), src.idx(5), Some(intern(s))),
                (3, _, _) => {
                    let (d, done) = value.into_raw();
                    d.open_str()?;
                    put_chars(src, d, s)?;
                    d.close_str()?;
                    *done = true;
                    Ok(())
                }
                _ => value.put_str(s),
            }
        }
        Node::Arr(items) => match src.idx(4) {
            0 => {
                let mut l = value.into_list_sized(items.len())?;
                for (i, n) in items.iter().enumerate() {
                    if l.rem_len() != Some(items.len() - i) {
                        crate::engine::protocol_broken(format!("{:?} items are reported to remain of {}", l.rem_len(), items.len() - i));
                    }
                    put(src, l.push()?, n)?;
                }
                l.close()
            }
            1 => {
                let mut t = value.into_tuple(None)?;
                for n in items {
                    put(src, t.element()?, n)?;
                }
                t.close()
            }
            _ => {
                let mut l = value.into_list_streaming()?;
                for n in items {
                    if l.rem_len().is_some() {
                        crate::engine::protocol_broken("a list of unspecified length has a length");
                    }
                    put(src, l.push()?, n)?;
                }
                l.close()
            }
        },
        Node::Obj(entries) => match src.idx(3) {
            0 => {
                let mut st = value.into_struct(Some("S"))?;
                for (k, n) in entries {
                    put(src, st.field(intern(k))?, n)?;
                }
                st.close()
            }
            1 => {
                let (d, done) = value.into_raw();
                d.open_object()?;
                for (k, n) in entries {
                    let mut flag = false;
                    if src.chance(1, 2) {
                        d.add_entry()?;
                        put_chars(src, d, k)?;
                        d.close_str()?;
                    } else {
                        d.push_entry(k)?;
                    }
                    put(src, Value::new(d, &mut flag), n)?;
                    if !flag {
                        crate::engine::protocol_broken("a value was written, but its wrapper does not say so");
                    }
                }
                d.close_object()?;
                *done = true;
                Ok(())
            }
            _ => {
                let mut o = value.into_object()?;
                for (k, n) in entries {
                    put(src, o.entry(k)?, n)?;
                }
                o.close()
            }
        },
    }
}

fn put_chars(src: &mut Src, d: &mut TreeSer, s: &str) -> Result<(), TreeErr> {
    let mut rest = s;
    while !rest.is_empty() {
        let n = src.idx(rest.chars().count().min(20)) + 1;
        let at = rest.char_indices().nth(n).map_or(rest.len(), |x| x.0);
        if n == 1 {
            d.append_char(rest.chars().next().unwrap())?;
        } else {
            d.append_str(&rest[..at])?;
        }
        rest = &rest[at..];
    }
    Ok(())
}

/// Makes the numbers of a document small integers.
fn integers(src: &mut Src, node: Node) -> Node {
    match node {
        Node::Num(_) => Node::Num(match src.idx(3) {
            0 => src.irange(-300, 300).to_string(),
            1 => (src.u64() as i64).to_string(),
            _ => src.choose(&[0, 127, 128, 255, 256, -128, -129, 32767, 65535, i32::MAX as i64, i32::MIN as i64, i64::MIN, i64::MAX]).to_string(),
        }),
        Node::Arr(a) => Node::Arr(a.into_iter().map(|n| integers(src, n)).collect()),
        Node::Obj(a) => Node::Obj(a.into_iter().map(|(k, n)| (k, integers(src, n))).collect()),
        n => n,
    }
}

fn written(src: &mut Src) -> CheckResult {
    src.class("written");
    let o = dom::GenOpts { depth: 3, distinct_keys: false, big: true };
    let node = dom::gen_node(src, o);
    let node = integers(src, node);
    src.ident(format!("{node:?}").as_bytes());
    src.note(|| format!("writing {node:?}"));
    if matches!(node, Node::Arr(_) | Node::Obj(_)) {
        src.nontrivial();
    }
    let fail_at = src.chance(1, 4).then(|| src.idx(100));
    let mut s = TreeSer::new(fail_at);
    let r = Value::with(&mut s, |v| put(src, v, &node));
    match r {
        Err(e) if e.injected => {
            src.class("a failure passed on");
            Ok(())
        }
        Err(e) => Err(format!("unexpected error {e:?}")),
        Ok(()) if s.failed() => Err("a failure of the writer was not passed on".into()),
        Ok(()) => {
            let got = s.finish();
            if got != node {
                return Err(format!("{got:?} was written instead of {node:?}"));
            }
            Ok(())
        }
    }
}

fn typed_written(src: &mut Src) -> CheckResult {
    src.class("written as a type");
    let ty: &'static Ty = model::gen_ty(src, 3);
    let v = model::gen_value(src, ty, true);
    src.ident(format!("{} {v:?}", ty.describe()).as_bytes());
    src.note(|| format!("writing {} {v:?}", ty.describe()));
    let write = |fail_at: Option<usize>| {
        let mut s = TreeSer::new(fail_at);
        let r = guard(|| Value::with(&mut s, |w| dynamic::ser(ty, &v, w, &mut ()))).map_err(|c| c.describe())?;
        let calls = s.calls();
        Ok::<_, String>((r, calls, s))
    };
    let (r, calls, s) = write(None)?;
    r.map_err(|e| format!("unexpected error {e:?}"))?;
    let got = s.finish();
    if matches!(got, Node::Arr(_) | Node::Obj(_)) {
        src.nontrivial();
    }
    if !model::is_encoding(ty, &v, &got) {
        return Err(format!("{got:?} was written for {v:?}"));
    }
    let at = src.idx(calls);
    match write(Some(at))?.0 {
        Err(TreeErr { injected: true, .. }) => Ok(()),
        r => Err(format!("call {at} of {calls} failed, and the outcome was {r:?}")),
    }
}
