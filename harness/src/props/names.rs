//! C16: name tables.

use crate::engine::{guard, CheckResult, Extra, Prop, Src};
use serdere::{FixedNameMap, NameMap};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "the table has at least three names of which one is a prefix of another or shares a prefix with it, and at least one looked up string is in the table and one is not",
        check,
        quick: 1_200_000,
        thorough: 10_000_000,
        extra: Some(extra),
    }]
}

type Entry = (&'static str, u32);

fn with_fixed<const N: usize>(entries: &[Entry], f: &mut dyn FnMut(&NameMap<u32>) -> CheckResult) -> CheckResult {
    let mut array = [("", 0u32); N];
    array.copy_from_slice(entries);
    let map = guard(|| FixedNameMap::new(array)).map_err(|c| format!("making a table of {N} names {}", c.describe()))?;
    f(map.unfix())
}

macro_rules! sizes {
    ($($n:literal)*) => {
        const SIZES: &[usize] = &[$($n),*];
        fn with_table(entries: &[Entry], f: &mut dyn FnMut(&NameMap<u32>) -> CheckResult) -> CheckResult {
            match entries.len() {
                $($n => with_fixed::<$n>(entries, f),)*
                _ => unreachable!(),
            }
        }
    };
}
sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 31 32 33 50 63 64 65 100 127 128 129 200 255 256 257 300 500);
const SMALL: usize = 25;

const CHARS: &[char] = &[
    'a', 'b', 'A', '_', '0', '9', ' ', '"', '\\', '\0', '\u{7f}', '\u{80}', 'é', 'è', '\u{7ff}', '\u{800}', '日', '旦', '\u{ffff}',
    '\u{10000}', '\u{1f600}', '\u{1f601}', '\u{10ffff}',
];

fn gen_char(src: &mut Src, style: u64) -> char {
    match style {
        0 => src.choose(&['a', 'b']),
        1 => src.choose(&['a', 'b', 'c', 'é', 'è', '日', '旦', '\u{1f600}', '\u{1f601}']),
        2 => (b'a' + src.below(26) as u8) as char,
        _ => src.choose(CHARS),
    }
}

fn gen_word(src: &mut Src, style: u64, max: usize) -> String {
    let n = src.range(0, max);
    (0..n).map(|_| gen_char(src, style)).collect()
}

/// A string which has something to do with the given ones.
fn gen_near(src: &mut Src, names: &[String], style: u64) -> String {
    if names.is_empty() {
        return gen_word(src, style, 6);
    }
    let base = &names[src.idx(names.len())];
    let mut v: Vec<char> = base.chars().collect();
    match src.weighted(&[3, 3, 3, 1, 1]) {
        0 => {
            let n = src.idx(v.len() + 1);
            v.truncate(n);
        }
        1 => {
            let more = src.range(1, 3);
            for _ in 0..more {
                let c = gen_char(src, style);
                v.push(c);
            }
        }
        2 => {
            let c = gen_char(src, style);
            if v.is_empty() {
                v.push(c);
            } else {
                let i = src.idx(v.len());
                v[i] = c;
            }
        }
        3 => {
            let other = &names[src.idx(names.len())];
            v.extend(other.chars());
        }
        _ => {
            let i = src.idx(v.len() + 1);
            let c = gen_char(src, style);
            v.insert(i, c);
        }
    }
    v.into_iter().collect()
}

fn gen_names(src: &mut Src) -> Vec<String> {
    // Longer than small counters can hold
    let long = match src.below(8000) {
        0 => src.choose(&[65_534usize, 65_535, 65_536]),
        1..=200 => src.range(250, 258),
        _ => 0,
    };
    let size = if long > 1000 {
        src.range(1, 4)
    } else if src.chance(1, 30) { SIZES[SMALL + src.idx(SIZES.len() - SMALL)] } else { src.idx(SMALL) };
    let style = src.below(4);
    let prefix = if long > 0 {
        let mut w = gen_word(src, style, 3) + "a";
        w = w.repeat(long / w.len() + 1);
        while w.len() > long {
            w.pop();
        }
        w
    } else if src.chance(1, 5) {
        gen_word(src, style, 4).repeat(src.range(1, 20))
    } else {
        String::new()
    };
    let mut names: Vec<String> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut count = 0u32;
    while names.len() < size {
        count += 1;
        let mut n = match src.weighted(&[3, 4, 1]) {
            0 => prefix.clone() + &gen_word(src, style, 6),
            1 => gen_near(src, &names, style),
            _ => format!("{prefix}{}", src.below(300)),
        };
        if count > 4 * size as u32 + 20 {
            n = format!("{n}{count}");
        }
        if seen.insert(n.clone()) {
            names.push(n);
        }
    }
    match src.weighted(&[4, 1, 1, 1, 1]) {
        0 => {
            let p = src.permutation(names.len());
            p.into_iter().map(|i| names[i].clone()).collect()
        }
        1 => {
            names.sort();
            names
        }
        2 => {
            names.sort();
            names.reverse();
            names
        }
        3 => {
            // Up, then down
            names.sort();
            let (mut up, mut down) = (Vec::new(), Vec::new());
            for (i, n) in names.into_iter().enumerate() {
                if i % 2 == 0 { up.push(n) } else { down.push(n) }
            }
            down.reverse();
            up.extend(down);
            up
        }
        _ => {
            names.sort();
            if names.len() > 1 {
                let (i, j) = (src.idx(names.len()), src.idx(names.len()));
                names.swap(i, j);
            }
            names
        }
    }
}

/// Looks up a string in pieces.
fn lookup_split(src: &mut Src, map: &NameMap<u32>, model: &BTreeMap<&str, u32>, probe: &str) -> CheckResult {
    let b = probe.as_bytes();
    let style = src.below(5);
    let mut ops = String::new();
    let mut at = 0;
    let mut lookup = map.lookup();
    let check = |at: usize, got: Option<&u32>, ops: &str| {
        if !probe.is_char_boundary(at) {
            return Ok(());
        }
        let want = model.get(&probe[..at]).copied();
        if got.copied() != want {
            return Err(format!("after {ops} the lookup gives {got:?}, but the string so far, {:?}, is for {want:?}", &probe[..at]));
        }
        Ok(())
    };
    let each = src.chance(1, 2) && b.len() < 1000;
    if each {
        check(0, lookup.result(), "nothing")?;
    }
    while at < b.len() {
        let boundary = probe.is_char_boundary(at);
        let kind = match style {
            0 if boundary => 0,
            1 if boundary => 1,
            2 => 2,
            3 => 3,
            _ if boundary => src.weighted(&[2, 2, 2, 1, 1, 1]),
            _ => 2 + src.idx(2),
        };
        match kind {
            0 => {
                let c = probe[at..].chars().next().unwrap();
                lookup.write_char(c);
                ops += &format!("write_char({c:?}) ");
                at += c.len_utf8();
            }
            1 => {
                let n = probe[at..].chars().count();
                let n = src.range(1, n);
                let s: String = probe[at..].chars().take(n).collect();
                lookup.write_str(&s);
                ops += &format!("write_str({s:?}) ");
                at += s.len();
            }
            2 => {
                let n = src.range(1, b.len() - at);
                lookup.write_bytes(&b[at..at + n]);
                ops += &format!("write_bytes({:?}) ", &b[at..at + n]);
                at += n;
            }
            3 => {
                lookup.write_bytes(&b[at..at + 1]);
                ops += &format!("write_bytes({:?}) ", &b[at..at + 1]);
                at += 1;
            }
            4 => {
                lookup.write_str("");
                ops += "write_str(\"\") ";
            }
            _ => {
                lookup.write_bytes(&[]);
                ops += "write_bytes([]) ";
            }
        }
        if each {
            check(at, lookup.result(), &ops)?;
        }
    }
    if src.chance(1, 6) {
        lookup.write_str("");
        ops += "write_str(\"\") ";
    }
    check(b.len(), lookup.result(), &ops)?;
    // Asking does not change the answer
    check(b.len(), lookup.result(), &ops)
}

fn listing(map: &NameMap<u32>, model: &BTreeMap<&str, u32>) -> CheckResult {
    let (size, mut all) = guard(|| (map.size(), map.entries().map(|(n, v)| (n, *v)).collect::<Vec<_>>()))
        .map_err(|c| format!("listing the table {}", c.describe()))?;
    if size != model.len() {
        return Err(format!("the size of a table of {} names is {size}", model.len()));
    }
    all.sort_unstable();
    let want: Vec<(&str, u32)> = model.iter().map(|(n, v)| (*n, *v)).collect();
    if all != want {
        return Err(format!("the entries are {all:?}, but should be {want:?}"));
    }
    Ok(())
}

fn check(src: &mut Src) -> CheckResult {
    let names = gen_names(src);
    let style = src.below(4);
    let n_probes = src.range(1, 12);
    let probes: Vec<String> = (0..n_probes)
        .map(|_| match src.weighted(&[4, 4, 1]) {
            0 if !names.is_empty() => names[src.idx(names.len())].clone(),
            0 | 1 => gen_near(src, &names, style),
            _ => gen_word(src, style, 8),
        })
        .collect();
    // SAFETY: the table made from these does not outlive `names`.
    let entries: Vec<Entry> = names
        .iter()
        .enumerate()
        .map(|(i, n)| (unsafe { std::mem::transmute::<&str, &'static str>(n) }, i as u32))
        .collect();
    let model: BTreeMap<&str, u32> = entries.iter().copied().collect();
    src.note(|| format!("names {names:?} probes {probes:?}"));
    for n in &names {
        src.ident(n.as_bytes());
        src.ident(b"|");
    }
    for p in &probes {
        src.ident(p.as_bytes());
    }
    let hit = probes.iter().any(|p| model.contains_key(&p[..]));
    let miss = probes.iter().any(|p| !model.contains_key(&p[..]));
    if names.len() >= 3 && hit && miss {
        let keys: Vec<&&str> = model.keys().collect();
        if keys.windows(2).any(|w| w[0].chars().next() == w[1].chars().next() || w[0].is_empty()) {
            src.nontrivial();
        }
    }
    src.class(match names.len() {
        0 => "no names",
        1..=2 => "1-2 names",
        3..=24 => "3-24 names",
        _ => "over 24 names",
    });
    if names.iter().any(|n| n.is_empty()) {
        src.class("has the empty name");
    }
    if names.iter().any(|n| !n.is_ascii()) {
        src.class("has multi-byte names");
    }
    let caught = guard(|| {
        with_table(&entries, &mut |map| {
            listing(map, &model)?;
            for p in &probes {
                let want = model.get(&p[..]);
                let got = map.get(p);
                if got != want {
                    return Err(format!("get({p:?}) gives {got:?}, not {want:?}"));
                }
                lookup_split(src, map, &model, p)?;
            }
            if names.len() <= 24 {
                for n in &names {
                    if map.get(n) != model.get(&n[..]) {
                        return Err(format!("get({n:?}) gives {:?}, not {:?}", map.get(n), model.get(&n[..])));
                    }
                }
            }
            Ok(())
        })
    });
    match caught {
        Ok(r) => r.map_err(|m| format!("{m}; names {names:?}")),
        Err(c) => Err(format!("{}; names {names:?}, probes {probes:?}", c.describe())),
    }
}

/// Every set of strings of up to two letters out of two, in every order for small sets, against
/// every string of up to three letters, split in every way.
fn extra(extra: &mut Extra) -> CheckResult {
    let mut words: Vec<String> = vec![String::new()];
    let mut last = words.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|w| ["a", "b"].map(|c| format!("{w}{c}"))).collect();
        words.extend(last.iter().cloned());
    }
    let pool: Vec<String> = words[..7].to_vec();
    let words: &'static [String] = Box::leak(words.into_boxed_slice());
    let pool: &'static [String] = Box::leak(pool.into_boxed_slice());
    let mut evaluations = 0;
    let mut tables = 0;
    for mask in 0u32..(1 << pool.len()) {
        let set: Vec<&'static str> = (0..pool.len()).filter(|i| mask >> i & 1 == 1).map(|i| &pool[i][..]).collect();
        let orders = permutations(set.len());
        for order in orders {
            let entries: Vec<Entry> = order.iter().map(|&i| (set[i], i as u32)).collect();
            let model: BTreeMap<&str, u32> = entries.iter().copied().collect();
            tables += 1;
            let run = guard(|| {
                with_table(&entries, &mut |map| {
                    listing(map, &model)?;
                    for w in words {
                        let n = w.len().max(1);
                        for cuts in 0u32..(1 << (n - 1)) {
                            let mut l = map.lookup();
                            let mut from = 0;
                            for i in 1..=w.len() {
                                if i == w.len() || cuts >> (i - 1) & 1 == 1 {
                                    l.write_bytes(&w.as_bytes()[from..i]);
                                    from = i;
                                }
                            }
                            evaluations += 1;
                            if l.result() != model.get(&w[..]) {
                                return Err(format!("looking up {w:?} in {entries:?} gives {:?}", l.result()));
                            }
                        }
                    }
                    Ok(())
                })
            });
            match run {
                Ok(r) => r?,
                Err(c) => return Err(format!("{} for the table {entries:?}", c.describe())),
            }
        }
    }
    extra.evaluations += evaluations;
    extra.distinct += tables;
    extra.notes.push(format!(
        "all {tables} tables of up to 7 names over two letters (every order of up to 5 names), {evaluations} lookups split in every way"
    ));
    Ok(())
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n > 5 {
        // Rotations and their reversals
        let mut out = Vec::new();
        for r in 0..n {
            let v: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
            let mut w = v.clone();
            w.reverse();
            out.push(v);
            out.push(w);
        }
        return out;
    }
    let mut out = vec![vec![]];
    for i in 0..n {
        out = out
            .into_iter()
            .flat_map(|p| {
                (0..=p.len()).map(move |at| {
                    let mut q = p.clone();
                    q.insert(at, i);
                    q
                })
            })
            .collect();
    }
    out
}
