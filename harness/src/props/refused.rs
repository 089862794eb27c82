//! C23: definitions which the derive macros cannot realise, compiled as they are now.

use super::*;
use crate::engine::CheckResult;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

const RULE: &str = "a type definition written at random, with valid attributes, into which one mistake is put: an attribute the macros do not know, a known one with a missing or malformed value, `transparent` on a variant without exactly one field, a discriminant which is not an integer literal, a union, or a default for a type which has none. The compiler has to accept the definition without the mistake and to reject it with the mistake. Non-trivial: the definition has at least two fields or variants";

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", rule: RULE, check: c23, quick: 2400, thorough: 40_000, extra: None }]
}

// ------------------------------------------------------------------------------------------------
// Definitions

#[derive(Clone)]
struct Field {
    items: Vec<String>,
    /// Other forms of the attribute, written as they are.
    raw: Vec<String>,
    ident: String,
    ty: String,
}

#[derive(Clone, PartialEq)]
enum Form {
    Unit,
    Named,
    Tuple,
}

#[derive(Clone)]
struct Variant {
    items: Vec<String>,
    raw: Vec<String>,
    ident: String,
    form: Form,
    fields: Vec<Field>,
    transparent: bool,
    discriminant: Option<String>,
}

#[derive(Clone, PartialEq)]
enum Kind {
    Struct,
    Enum,
    Union,
}

#[derive(Clone)]
struct Def {
    kind: Kind,
    items: Vec<String>,
    raw: Vec<String>,
    repr: bool,
    generic: bool,
    fields: Vec<Field>,
    variants: Vec<Variant>,
    derives: Vec<&'static str>,
}

const TYPES: &[&str] = &["u8", "i64", "bool", "String", "char", "f64", "Option<u32>", "Vec<u16>", "(u8, bool)", "[i8; 3]", "()", "Inner", "OnOff"];

const RENAMES: &[&str] = &["rename = \"one\"", "rename = \"a b\"", "rename = \"\"", "rename = r#\"x\"y\"#", "rename = \"\\u{e9}\""];

fn field(src: &mut Src, i: usize, generic: bool, reads_only: bool) -> Field {
    let mut items = Vec::new();
    let mut ty = src.pick(TYPES).to_string();
    match src.idx(8) {
        0 if i == 0 => {
            items.push("flatten".to_string());
            ty = "Inner".into();
        }
        1 => items.push("default".into()),
        2 if reads_only => {
            items.push("proxy = u16".into());
            ty = "u32".into();
        }
        3 if generic => ty = "T".into(),
        _ => (),
    }
    if items.first().is_none_or(|i| i != "flatten") && src.chance(1, 3) {
        let at = src.idx(items.len() + 1);
        items.insert(at, src.pick(RENAMES).to_string());
    }
    Field { items, raw: Vec::new(), ident: format!("f{i}"), ty }
}

fn variant(src: &mut Src, i: usize, unit: bool, generic: bool, reads_only: bool) -> Variant {
    let mut items = Vec::new();
    if src.chance(1, 3) {
        items.push(src.pick(RENAMES).to_string());
    }
    if src.chance(1, 5) {
        let at = src.idx(items.len() + 1);
        items.insert(at, format!("reindex = {}", 20 + i));
    }
    let mut v = Variant {
        items,
        raw: Vec::new(),
        ident: format!("V{i}"),
        form: Form::Unit,
        fields: Vec::new(),
        transparent: false,
        discriminant: None,
    };
    if !unit && src.chance(2, 3) {
        if src.chance(1, 3) {
            v.transparent = true;
            let at = src.idx(v.items.len() + 1);
            v.items.insert(at, "transparent".into());
            v.form = if src.chance(1, 2) { Form::Named } else { Form::Tuple };
            v.fields.push(Field { items: Vec::new(), raw: Vec::new(), ident: "f0".into(), ty: "Inner".into() });
        } else {
            v.form = Form::Named;
            v.fields = (0..src.idx(4)).map(|i| field(src, i, generic, reads_only)).collect();
        }
    }
    v
}

fn definition(src: &mut Src) -> Def {
    let derives = match src.idx(5) {
        0 => vec!["Deserialize", "Serialize"],
        1 | 2 => vec!["Serialize"],
        _ => vec!["Deserialize"],
    };
    let reads_only = derives == ["Deserialize"];
    let generic = src.chance(1, 4);
    let mut def = Def {
        kind: Kind::Struct,
        items: Vec::new(),
        raw: Vec::new(),
        repr: false,
        generic,
        fields: Vec::new(),
        variants: Vec::new(),
        derives,
    };
    if src.chance(2, 5) {
        def.fields = (0..1 + src.idx(4)).map(|i| field(src, i, generic, reads_only)).collect();
    } else {
        def.kind = Kind::Enum;
        let unit = src.chance(1, 3);
        def.generic &= !unit;
        def.variants = (0..1 + src.idx(4)).map(|i| variant(src, i, unit, generic, reads_only)).collect();
        if src.chance(1, 3) {
            def.items.push("tag = \"kind\"".into());
        }
        if src.chance(1, 4) {
            let at = src.idx(def.items.len() + 1);
            def.items.insert(at, "rename = \"Other\"".into());
        }
        def.repr = src.chance(1, 4);
        if def.repr || unit {
            for i in 0..def.variants.len() {
                if src.chance(1, 5) {
                    def.variants[i].discriminant = Some((10 * i + 3).to_string());
                }
            }
        }
    }
    def
}

// ------------------------------------------------------------------------------------------------
// Mistakes

const MALFORMED: &[&str] = &[
    "rename", "rename = 5", "rename = x", "rename(\"x\")", "rename = 'x'", "rename = b\"x\"", "rename = true", "rename = \"x\" + \"y\"",
    "rename = \"x\" \"y\"", "\"rename\"", "5", "= 5", "rename: \"x\"", "rename = ", "rename == \"x\"", "rename => \"x\"",
];

const UNKNOWN: &[&str] = &[
    "skip", "Rename = \"x\"", "renamed = \"x\"", "rename_all = \"lowercase\"", "alias = \"x\"", "a::rename = \"x\"", "rename::a = \"x\"",
    "with = \"m\"", "untagged", "other", "crate = \"x\"", "bound = \"\"", "a", "serde", "serde(rename = \"x\")", "_rename = \"x\"",
    "rename_ = \"x\"", "index = 3", "content = \"c\"", "inline", "skip(x)",
];

const FIELD: &[&str] = &[
    "tag = \"t\"", "reindex = 3", "transparent", "Default", "defaults", "flattened", "Flatten", "prox = u8", "default = \"f\"", "default = true",
    "default()", "default(f)", "flatten = true", "flatten()", "flatten = \"x\"", "proxy", "proxy = \"u8\"", "proxy = 5", "proxy(u8)",
    "default flatten", "default; flatten", "default::x", "proxy = ",
];

const VARIANT: &[&str] = &[
    "flatten", "default", "tag = \"t\"", "proxy = u8", "Transparent", "transparently", "reindexed = 3", "reindex", "reindex = \"3\"",
    "reindex = -1", "reindex = 1.5", "reindex = 99999999999999999999999", "reindex = x", "reindex(3)", "reindex = 3 4", "reindex = 'a'",
    "reindex = true", "reindex = 1 + 1", "reindex = ", "reindex = b'a'", "reindex = (3)",
];

const ENUM: &[&str] = &[
    "default", "flatten", "reindex = 1", "transparent", "proxy = u8", "tags = \"t\"", "Tag = \"t\"", "tag", "tag = 5", "tag = x", "tag(\"x\")",
    "tag = \"a\" \"b\"", "tag = 't'", "tag = true", "tag = ", "deny_unknown_fields",
];

const RAW: &[&str] = &["#[serde]", "#[serde = \"x\"]", "#[serde(,)]", "#[serde(rename = \"x\",, rename = \"y\")]"];

/// Constant expressions which are no integer literals. None has the value of another variant.
const EXPRESSIONS: &[&str] = &["50 + 1", "-5", "K", "(70)", "b'z' as _", "{ 80 }", "!200", "if true { 90 } else { 91 }", "self::K", "20 * 3", "K + 1"];

fn put(src: &mut Src, items: &mut Vec<String>, raw: &mut Vec<String>, own: &[&str]) -> String {
    let item = match src.idx(10) {
        0 => {
            let r = src.pick(RAW).to_string();
            raw.push(r.clone());
            return r;
        }
        1 | 2 => src.pick(MALFORMED),
        3 | 4 => src.pick(UNKNOWN),
        _ => src.pick(own),
    };
    let at = src.idx(items.len() + 1);
    items.insert(at, item.to_string());
    item.to_string()
}

/// Puts one mistake into a definition. Says what it is.
fn mistake(src: &mut Src, def: &mut Def) -> String {
    for _ in 0..40 {
        // A choice that does not fit the definition is followed by another one
        match src.idx(12) {
            0..=3 => {
                let reads = def.derives.contains(&"Deserialize");
                let mut all: Vec<&mut Field> = match def.kind {
                    Kind::Struct => def.fields.iter_mut().collect(),
                    // The field of a transparent variant has no name, and attributes for it are not looked at
                    _ => def.variants.iter_mut().filter(|v| !v.transparent).flat_map(|v| v.fields.iter_mut()).collect(),
                };
                if all.is_empty() {
                    continue;
                }
                let n = all.len();
                let f = &mut *all[src.idx(n)];
                if src.chance(1, 8) && reads && !f.items.iter().any(|i| i == "flatten" || i.starts_with("proxy")) {
                    src.class("types without a default");
                    f.items.retain(|i| i != "default");
                    f.items.push("default".into());
                    f.ty = src.pick(&["NoDefault", "std::num::NonZeroU8"]).into();
                    return format!("{}: {} has a default", f.ident, f.ty);
                }
                src.class("attributes of fields");
                return format!("{} of {}", put(src, &mut f.items, &mut f.raw, FIELD), f.ident);
            }
            4..=6 if def.kind == Kind::Enum => {
                let n = def.variants.len();
                let v = &mut def.variants[src.idx(n)];
                if v.transparent && src.chance(1, 6) {
                    let i = v.items.iter().position(|i| i == "transparent").unwrap();
                    v.items[i] = src.pick(&["transparent = true", "transparent()", "transparent(x)", "transparent = \"x\""]).into();
                    src.class("attributes of variants");
                    return format!("{} of {}", v.items[i], v.ident);
                }
                src.class("attributes of variants");
                return format!("{} of {}", put(src, &mut v.items, &mut v.raw, VARIANT), v.ident);
            }
            7 if def.kind == Kind::Enum => {
                // A variant which is transparent, but has not exactly one field
                let n = def.variants.len();
                let v = &mut def.variants[src.idx(n)];
                let count = src.choose(&[0usize, 2, 3, 4]);
                if !v.transparent {
                    let at = src.idx(v.items.len() + 1);
                    v.items.insert(at, "transparent".into());
                }
                v.transparent = true;
                v.form = match src.idx(3) {
                    0 if count == 0 => Form::Unit,
                    1 => Form::Named,
                    _ => Form::Tuple,
                };
                v.fields = (0..count)
                    .map(|i| Field { items: Vec::new(), raw: Vec::new(), ident: format!("f{i}"), ty: "Inner".into() })
                    .collect();
                if v.discriminant.is_none() {
                    def.repr |= def.variants.iter().any(|v| v.discriminant.is_some());
                } else {
                    def.repr = true;
                }
                src.class("numbers of fields");
                return format!("a transparent variant with {count} fields");
            }
            8 if def.kind == Kind::Enum => {
                let n = def.variants.len();
                def.repr |= def.variants.iter().any(|v| v.form != Form::Unit);
                let v = &mut def.variants[n - 1];
                let e = src.pick(EXPRESSIONS);
                v.discriminant = Some(e.into());
                src.class("discriminants");
                return format!("{} = {e}", v.ident);
            }
            9 | 10 if def.kind == Kind::Enum => {
                src.class("attributes of enums");
                return format!("{} of the enum", put(src, &mut def.items, &mut def.raw, ENUM));
            }
            11 if def.kind == Kind::Struct && src.chance(1, 3) => {
                def.kind = Kind::Union;
                def.generic = false;
                for f in &mut def.fields {
                    f.ty = src.pick(&["u8", "i64", "bool", "char", "f64", "()", "[i8; 3]"]).into();
                    f.items.retain(|i| i.starts_with("rename"));
                }
                src.class("unions");
                return "a union".into();
            }
            _ => (),
        }
    }
    if let Some(v) = def.variants.first_mut() {
        return format!("{} of {}", put(src, &mut v.items, &mut v.raw, VARIANT), v.ident);
    }
    let f = &mut def.fields[0];
    format!("{} of {}", put(src, &mut f.items, &mut f.raw, FIELD), f.ident)
}

// ------------------------------------------------------------------------------------------------
// Source

/// How attributes are divided, taken from the case so that both texts are alike but for the mistake.
struct Style(u64);

impl Style {
    fn attributes(&self, indent: &str, items: &[String], raw: &[String], salt: u64, out: &mut String) {
        let h = crate::engine::mix(self.0 ^ salt);
        let mut lines: Vec<String> = match h % 3 {
            _ if items.is_empty() => Vec::new(),
            0 => items.iter().map(|i| format!("#[serde({i})]")).collect(),
            1 => vec![format!("#[serde({})]", items.join(", "))],
            _ => {
                let at = 1.min(items.len());
                let mut l = vec![format!("#[serde({})]", items[..at].join(","))];
                if items.len() > at {
                    l.push(format!("#[serde({})]", items[at..].join(", ")));
                }
                l
            }
        };
        lines.extend(raw.iter().cloned());
        match (h >> 8) % 5 {
            0 => lines.insert(0, "/// Documentation".into()),
            1 => lines.insert(lines.len() / 2, "#[allow(dead_code)]".into()),
            2 => lines.push("#[doc = \"serde(rename)\"]".into()),
            3 => lines.insert(0, "#[serde()]".into()),
            _ => (),
        }
        for l in lines {
            out.push_str(indent);
            out.push_str(&l);
            out.push('\n');
        }
    }

    fn text(&self, def: &Def) -> String {
        let mut out = format!("#[derive({})]\n", def.derives.join(", "));
        if def.repr {
            out.push_str("#[repr(i64)]\n");
        }
        self.attributes("", &def.items, &def.raw, 1, &mut out);
        let keyword = match def.kind {
            Kind::Struct => "struct",
            Kind::Enum => "enum",
            Kind::Union => "union",
        };
        out.push_str(&format!("pub {keyword} Defined{} {{\n", if def.generic { "<T: Default>" } else { "" }));
        let mut salt = 10;
        let mut fields = |indent: &str, public: &str, list: &[Field], out: &mut String| {
            for f in list {
                salt += 1;
                self.attributes(indent, &f.items, &f.raw, salt, out);
                out.push_str(&format!("{indent}{public}{}: {},\n", f.ident, f.ty));
            }
        };
        fields("    ", "pub ", &def.fields, &mut out);
        for (i, v) in def.variants.iter().enumerate() {
            self.attributes("    ", &v.items, &v.raw, 1000 + i as u64, &mut out);
            out.push_str(&format!("    {}", v.ident));
            match v.form {
                Form::Unit => (),
                Form::Named => {
                    out.push_str(" {\n");
                    fields("        ", "", &v.fields, &mut out);
                    out.push_str("    }");
                }
                Form::Tuple => {
                    let tys: Vec<&str> = v.fields.iter().map(|f| &f.ty[..]).collect();
                    out.push_str(&format!("({})", tys.join(", ")));
                }
            }
            if let Some(d) = &v.discriminant {
                out.push_str(&format!(" = {d}"));
            }
            out.push_str(",\n");
        }
        if def.generic && def.kind == Kind::Enum {
            // Uses the parameter
            out.push_str("    Last {\n        last: T,\n    },\n");
        } else if def.generic {
            out.push_str("    pub last: T,\n");
        }
        out.push_str("}\n");
        out
    }
}

const PRELUDE: &str = "#![allow(warnings)]
use serdere::{Deserialize, Serialize};

pub const K: i64 = 100;

#[derive(Default, Deserialize, Serialize)]
pub struct Inner {
    pub inner: u8,
}

#[derive(Deserialize, Serialize)]
pub struct NoDefault {
    pub x: u8,
}

#[derive(Default, Deserialize, Serialize)]
pub enum OnOff {
    #[default]
    On,
    Off,
}

";

// ------------------------------------------------------------------------------------------------
// Compiling

/// The library, as Cargo built it with this program.
fn library() -> &'static Result<(PathBuf, PathBuf), String> {
    static LIB: OnceLock<Result<(PathBuf, PathBuf), String>> = OnceLock::new();
    LIB.get_or_init(|| {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let target = exe.parent().and_then(Path::parent).ok_or("no build directory")?.to_path_buf();
        let out = Command::new("cargo")
            .args(["build", "--offline", "--color", "never", "-p", "serdere", "--message-format=json"])
            .current_dir(env!("CARGO_MANIFEST_DIR"))
            .env("RUSTUP_TOOLCHAIN", "stable")
            .env("CARGO_TARGET_DIR", &target)
            .output()
            .map_err(|e| format!("cannot run cargo: {e}"))?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        for line in text.lines().filter(|l| l.contains("\"compiler-artifact\"")) {
            for part in line.split('"') {
                let name = part.rsplit('/').next().unwrap_or("");
                if name.starts_with("libserdere-") && name.ends_with(".rlib") {
                    let rlib = PathBuf::from(part);
                    let deps = if rlib.parent().is_some_and(|d| d.ends_with("deps")) {
                        rlib.parent().unwrap().to_path_buf()
                    } else {
                        target.join("debug").join("deps")
                    };
                    return Ok((rlib, deps));
                }
            }
        }
        // The uplifted name has no hash
        let rlib = target.join("debug").join("libserdere.rlib");
        if rlib.exists() {
            return Ok((rlib, target.join("debug").join("deps")));
        }
        Err(format!("the library was not found: {}", String::from_utf8_lossy(&out.stderr)))
    })
}

/// Removes the directory when the check is over.
struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Compiles a text. Returns what the compiler has against it.
fn compile(text: &str) -> Result<Option<String>, String> {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let (rlib, deps) = library().as_ref().map_err(Clone::clone)?;
    let dir = deps
        .parent()
        .unwrap()
        .join(format!("refused-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let scratch = Scratch(dir);
    let file = scratch.0.join("definition.rs");
    std::fs::write(&file, format!("{PRELUDE}{text}")).map_err(|e| e.to_string())?;
    let out = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "definition", "--emit", "metadata", "--color", "never"])
        .arg("--out-dir")
        .arg(&scratch.0)
        .arg("--extern")
        .arg(format!("serdere={}", rlib.display()))
        .arg("-L")
        .arg(format!("dependency={}", deps.display()))
        .arg(&file)
        .env("RUSTUP_TOOLCHAIN", "stable")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run rustc: {e}"))?;
    let log = String::from_utf8_lossy(&out.stderr).into_owned();
    match out.status.code() {
        Some(0) => Ok(None),
        Some(1) if log.contains("can't find crate") || log.contains("error[E0463]") => Err(log),
        Some(1) => Ok(Some(log)),
        _ => Err(format!("rustc ended with {}: {log}", out.status)),
    }
}

/// Compiles the prelude and the modules, and finds which of them the compiler has something against.
fn compile_all(modules: &[String]) -> Result<Vec<bool>, String> {
    let mut text = String::new();
    let mut starts = Vec::new();
    let first = PRELUDE.lines().count();
    for (i, m) in modules.iter().enumerate() {
        starts.push(first + text.lines().count() + 1);
        text.push_str(&format!("pub mod m{i} {{\nuse super::*;\n{m}}}\n"));
    }
    let mut found = vec![false; modules.len()];
    if let Some(log) = compile(&text)? {
        for l in log.lines() {
            if let Some((_, at)) = l.split_once("--> ").filter(|(b, _)| b.trim().is_empty()) {
                let line: usize = at.rsplit(':').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0);
                if let Some(i) = starts.iter().rposition(|s| *s <= line) {
                    found[i] = true;
                }
            }
        }
    }
    Ok(found)
}

fn c23(src: &mut Src) -> CheckResult {
    let n = 1 + src.idx(12);
    let mut cases = Vec::new();
    for _ in 0..n {
        let def = definition(src);
        let mut bad = def.clone();
        let what = mistake(src, &mut bad);
        let style = Style(src.below(1 << 20));
        src.class(match bad.kind {
            Kind::Struct | Kind::Union => "structs",
            Kind::Enum => "enums",
        });
        if def.fields.len() + def.variants.len() + def.variants.iter().map(|v| v.fields.len()).sum::<usize>() > 1 {
            src.nontrivial();
        }
        cases.push((what, style.text(&def), style.text(&bad)));
    }
    for c in &cases {
        src.ident(c.2.as_bytes());
    }
    src.sub_evals += n as u64;
    src.note(|| cases.iter().map(|c| format!("{}\n{}", c.0, c.2)).collect::<Vec<_>>().join("\n"));
    let harness = |e: String| -> ! { panic!("cannot compile: {e}") };
    let bad: Vec<String> = cases.iter().map(|c| c.2.clone()).collect();
    let found = compile_all(&bad).unwrap_or_else(|e| harness(e));
    for (i, (what, _, text)) in cases.iter().enumerate() {
        // What is wrong with its types is found only if there is nothing else
        if !found[i] && compile(text).unwrap_or_else(|e| harness(e)).is_none() {
            return Err(format!("the definition compiles in spite of the mistake ({what}):\n{text}"));
        }
    }
    // Nor is it the rest that is rejected
    if src.chance(1, 3) {
        src.class("and without the mistakes");
        let good: String = cases.iter().enumerate().map(|(i, c)| format!("pub mod m{i} {{\nuse super::*;\n{}}}\n", c.1)).collect();
        if let Some(e) = compile(&good).unwrap_or_else(|e| harness(e)) {
            return Err(format!("a definition within what is supported does not compile:\n{good}\n{e}"));
        }
    }
    Ok(())
}
