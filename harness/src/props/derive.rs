//! C20: random type definitions, which are compiled with the derive macros as they are now.

use super::definitions::Definitions;
use super::types::fit;
use super::*;
use crate::catalog::{Entry, Target};
use crate::dynamic;
use crate::engine::{self, guard, CheckResult};
use crate::format::{FormatConfig, TokDe, TokSer};
use crate::io::Text;
use crate::model::{self, DocInfo, DocOpts, Ty};
use crate::text;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

static TYPES: OnceLock<Vec<Entry>> = OnceLock::new();

static TEXT: OnceLock<&'static str> = OnceLock::new();

/// Gives the types, and the source they were compiled from.
pub fn set_types(types: Vec<Entry>, text: &'static str) {
    let _ = TYPES.set(types);
    let _ = TEXT.set(text);
}

/// Says what the definitions were.
fn describe(e: &mut engine::Extra) -> CheckResult {
    let text = TEXT.get().expect("the definitions");
    let attributes = ["rename =", "tag =", "reindex =", "flatten", "transparent", "default", "proxy ="];
    let counts: Vec<String> = attributes
        .iter()
        .map(|a| format!("{a} {}", text.lines().filter(|l| l.contains("serde(") && l.contains(a)).count()))
        .collect();
    let n = text.matches("for Model").count().max(text.matches(" Model for ").count());
    e.notes.push(format!("{n} definitions compiled; lines with each attribute: {}", counts.join(", ")));
    for part in text.split("#[derive(").skip(1).step_by(n / 3 + 1) {
        let end = part.find("\nimpl").unwrap_or(part.len());
        e.notes.push(format!("#[derive({}", engine::clip(&part[..end], 500)));
    }
    Ok(())
}

pub fn has_types() -> bool {
    TYPES.get().is_some()
}

const RULE: &str = "type definitions written at random, with every attribute, and compiled with the derive macros; for each, random values which are written (as JSON, and as the calls another format receives) and read back, and random documents, with mistakes, which are read. Non-trivial: a value or document with at least three parts";

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C20", rule: RULE, check: c20, quick: 3_200_000, thorough: 20_000_000, extra: Some(describe) }]
}

fn parts(n: &Node) -> usize {
    1 + match n {
        Node::Arr(a) => a.iter().map(parts).sum(),
        Node::Obj(o) => o.iter().map(|e| parts(&e.1)).sum(),
        _ => 0,
    }
}

fn c20(src: &mut Src) -> CheckResult {
    let types = TYPES.get().expect("type definitions");
    let entry = &types[src.idx(types.len())];
    let target = Target::Static(entry);
    src.class(match entry.ty {
        Ty::Struct(_) => "structs",
        Ty::Tag(_) => "tags",
        Ty::Enum(_) => "enums",
        _ => "other types around them",
    });
    match src.idx(3) {
        0 => values(src, entry, &target),
        _ => {
            src.class("documents");
            let mut info = DocInfo::default();
            let break_it = src.chance(1, 2);
            let node = model::gen_doc(src, target.ty(), DocOpts { break_it, big: false }, &mut info);
            if parts(&node) > 3 {
                src.nontrivial();
            }
            fit(src, &target, node, break_it, true).map(|_| ())
        }
    }
}

fn values(src: &mut Src, entry: &'static Entry, target: &Target) -> CheckResult {
    src.class("values");
    let v = model::gen_value(src, entry.ty, false);
    src.ident(entry.name.as_bytes());
    src.ident(format!("{v:?}").as_bytes());
    let indent = src.choose(text::INDENTS);
    let source = gen_source(src);
    src.note(|| format!("{} with indentation {indent:?}, {source:?}: {v:?}", entry.name));
    let out = guard(|| text::write_string(indent, |w| target.ser(&v, w))).map_err(|c| format!("writing: {}", c.describe()))??;
    let printed = Text::new(out.clone());
    let doc = dom::parse(&printed.chars, false).map_err(|e| format!("the output is not JSON at {e}: {out}"))?.strip();
    if parts(&doc) > 3 {
        src.nontrivial();
    }
    if !model::is_encoding(entry.ty, &v, &doc) {
        return Err(format!("{v:?} is written as {out}, but should be like {:?}", model::encode(entry.ty, &v)));
    }
    if model::round_trips(entry.ty, &v) {
        let got = guard(|| text::read(&printed, source, false, |r| target.de(r))).map_err(|c| format!("reading: {}", c.describe()))?;
        match got {
            Ok(g) if g == v => (),
            Ok(g) => return Err(format!("{v:?} is read back as {g:?} from {out}")),
            Err(e) => return Err(format!("not read back: {} in {out}", text::show_err(&printed, &e))),
        }
        if let Some(s) = entry.strs {
            match guard(|| (s.from_str)(&(s.to_str)(&v))).map_err(|c| c.describe())? {
                Ok(g) if g == v => (),
                g => return Err(format!("to_str and from_str: {v:?} is read back as {g:?}")),
            }
        }
    }
    // What another format sees
    let config = FormatConfig { null: src.chance(2, 3), sized: src.chance(1, 2), tag_names: src.chance(1, 2) };
    let toks = guard(|| {
        let mut s = TokSer::new(config);
        Value::with(&mut s, |w| target.tok_ser(&v, w)).map(|()| s.finish())
    })
    .map_err(|c| format!("writing tokens: {}", c.describe()))?
    .map_err(|e| format!("writing tokens failed: {e}"))?;
    let mut s = TokSer::new(config);
    let expect = Value::with(&mut s, |w| dynamic::ser(entry.ty, &v, w, &mut ())).map(|()| s.finish()).expect("tokens");
    if toks != expect {
        return Err(format!("{v:?} is written as {toks:?}, but should be {expect:?}"));
    }
    if config.null && !model::round_trips(entry.ty, &v) {
        return Ok(());
    }
    let back = guard(|| {
        let mut d = TokDe::new(config, toks.clone());
        Value::with(&mut d, |r| target.tok_de(r)).map(|v| {
            d.finish();
            v
        })
    })
    .map_err(|c| format!("reading tokens: {}; written as {toks:?}", c.describe()))?
    .map_err(|e| format!("reading tokens failed: {e}; written as {toks:?}"))?;
    if back != v {
        return Err(format!("{v:?} is read back as {back:?} from {toks:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// Writing, compiling and running the definitions

/// Which definitions: a seed and how many.
#[derive(Clone, Copy)]
struct Which(u64, usize);

enum Built {
    Program(PathBuf),
    /// The definitions do not compile.
    Rejected(String),
    /// Something else does not.
    Failed(String),
}

fn build(which: Which) -> Built {
    let exe = std::env::current_exe().expect("the path of this program");
    let target = exe.parent().and_then(Path::parent).expect("the build directory").to_path_buf();
    let dir = target.join("gen").join(format!("{}-{}", which.0, which.1));
    let defs = Definitions::new(&mut Src::random(engine::mix(which.0) ^ 0x5eed), which.1);
    std::fs::create_dir_all(&dir).expect("a directory for definitions");
    let file = dir.join("types.rs");
    if std::fs::read_to_string(&file).ok().as_deref() != Some(&defs.text) {
        std::fs::write(&file, &defs.text).expect("writing definitions");
    }
    let cargo = std::process::Command::new("cargo")
        .args(["build", "--offline", "--color", "never", "-p", "verif-gen"])
        .current_dir(env!("CARGO_MANIFEST_DIR"))
        .env("RUSTUP_TOOLCHAIN", "stable")
        .env("CARGO_TARGET_DIR", &target)
        .env("VERIF_GEN_DIR", &dir)
        .output();
    let out = match cargo {
        Ok(o) => o,
        Err(e) => return Built::Failed(format!("cannot run cargo: {e}")),
    };
    if out.status.success() {
        return Built::Program(target.join("debug").join("verif-gen"));
    }
    let log = String::from_utf8_lossy(&out.stderr).into_owned();
    let errors: Vec<&str> = log.lines().skip_while(|l| !l.starts_with("error")).take(60).collect();
    if !log.contains("could not compile `verif-gen`") || log.contains("signal: 9") {
        return Built::Failed(errors.join("\n"));
    }
    // Which definitions are they in?
    let mut at = Vec::new();
    for l in &errors {
        if let Some((_, rest)) = l.split_once("types.rs:") {
            let line: usize = rest.split(':').next().and_then(|n| n.parse().ok()).unwrap_or(0);
            if let Some(i) = defs.starts.iter().rposition(|s| *s <= line) {
                if !at.contains(&i) && at.len() < 3 {
                    at.push(i);
                }
            }
        }
    }
    let mut msg = errors.join("\n");
    let lines: Vec<&str> = defs.text.lines().collect();
    for i in at {
        if i + 1 < defs.starts.len() {
            msg.push_str("\n\nThe definition:\n");
            let body = &lines[defs.starts[i] - 1..defs.starts[i + 1] - 1];
            let end = body.iter().position(|l| l.starts_with("impl")).unwrap_or(body.len());
            msg.push_str(&body[..end].join("\n"));
        }
    }
    Built::Rejected(msg)
}

fn rejected(msg: &str, which: Option<Which>) -> i32 {
    let out_dir: PathBuf = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into()).into();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    engine::compile_evidence("C20", RULE, &out_dir, seed, thorough, msg);
    let path = out_dir.join("replay").join("C20.replay");
    std::fs::create_dir_all(out_dir.join("replay")).ok();
    let mut text = String::from("property=C20\n");
    for l in msg.lines() {
        text.push_str(&format!("# {l}\n"));
    }
    match which {
        Some(w) => text.push_str(&format!("gen={}:{}\ncompile=1\n", w.0, w.1)),
        None => text.push_str("catalogue=1\n"),
    }
    std::fs::write(&path, text).ok();
    println!("{}", engine::clip(msg, 4000));
    println!("  a definition within what is supported does not compile");
    println!("VIOLATION property=C20 replay={}", path.display());
    1
}

/// Runs the command line in a program which has definitions.
pub fn drive(args: &[String]) -> i32 {
    let replayed = match args.first().map(|s| &s[..]) {
        Some("replay") => match args.get(2).map(std::fs::read_to_string) {
            Some(Ok(t)) => Some(t),
            _ => {
                println!("ERROR cannot read the replay file");
                return 3;
            }
        },
        _ => None,
    };
    if replayed.as_ref().is_some_and(|t| t.contains("\ncatalogue=1")) {
        if cfg!(feature = "derived") {
            println!("replay: the definitions compile");
            return 0;
        }
        println!("VIOLATION property=C20 replay=given");
        return 1;
    }
    if !cfg!(feature = "derived") {
        let log = std::env::var("VERIF_BUILD_LOG").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let errors: Vec<&str> = log.lines().skip_while(|l| !l.starts_with("error")).take(60).collect();
        return rejected(&format!("{}\n\nThe definitions are in harness/src/catalog/derived.rs", errors.join("\n")), None);
    }
    let thorough =
        args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut which = Which(seed, if thorough { 1000 } else { 240 });
    let given = std::env::var("VERIF_GEN").ok().or_else(|| {
        let t = replayed.as_ref()?;
        t.lines().find_map(|l| l.strip_prefix("gen=")).map(str::to_string)
    });
    if let Some((s, n)) = given.as_ref().and_then(|g| g.split_once(':')) {
        which = Which(s.parse().expect("a seed"), n.trim().parse().expect("a number of definitions"));
    }
    match build(which) {
        Built::Program(p) => {
            if replayed.as_ref().is_some_and(|t| t.contains("\ncompile=1")) {
                println!("replay: the definitions compile");
                return 0;
            }
            let status = std::process::Command::new(p).args(args).env("VERIF_GEN", format!("{}:{}", which.0, which.1)).status();
            status.ok().and_then(|s| s.code()).unwrap_or(3)
        }
        Built::Rejected(m) if replayed.is_some() => {
            println!("{}", engine::clip(&m, 4000));
            println!("VIOLATION property=C20 replay=given");
            1
        }
        Built::Rejected(m) => rejected(&m, Some(which)),
        Built::Failed(m) => {
            println!("{m}");
            println!("ERROR property=C20: the program with the definitions does not build");
            2
        }
    }
}
