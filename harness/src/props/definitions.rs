//! Writes random type definitions which use the derive macros, together with what the harness has
//! to know about them, as Rust source.

use crate::engine::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
enum Te {
    Leaf(&'static str),
    Opt(Box<Te>),
    List(Box<Te>),
    Arr(Box<Te>, usize),
    /// An array whose length is a parameter.
    ArrN(Box<Te>, &'static str),
    Tup(Vec<Te>),
    Named(usize, Vec<Arg>),
    Param(&'static str),
    Held(Box<Te>),
}

#[derive(Clone, Debug)]
enum Arg {
    Ty(Te),
    Num(usize),
    Life,
}

#[derive(Clone, Debug, PartialEq)]
enum GenericKind {
    Type,
    /// A type which is flattened, or the content of a transparent variant.
    Content,
    Const,
    Life,
}

#[derive(Clone, Debug)]
struct Generic {
    name: &'static str,
    kind: GenericKind,
    /// Has to have a default value.
    default: bool,
    bound: Option<&'static str>,
    in_where: bool,
    /// The text of a default for the parameter.
    value: Option<&'static str>,
}

#[derive(Clone, Debug)]
enum Proxy {
    /// `Px<P>`, for the type of the field.
    Px,
    /// A type of the standard library: type of the field, and how to get the proxy from `$`.
    Std(&'static str, &'static str),
}

#[derive(Clone, Debug)]
struct Field {
    ident: String,
    key: String,
    renamed: bool,
    ty: Te,
    default: bool,
    flatten: bool,
    proxy: Option<Proxy>,
}

#[derive(Clone, Debug)]
enum Body {
    Unit,
    Fields(Vec<Field>),
    /// Has a field name or not.
    Transparent(Option<String>, Te),
}

#[derive(Clone, Debug)]
struct Variant {
    ident: String,
    name: String,
    index: u64,
    attrs: Vec<String>,
    discriminant: Option<String>,
    body: Body,
}

#[derive(Clone, Debug)]
enum Shape {
    Struct(Vec<Field>),
    Tag(Vec<Variant>),
    Enum { name: String, tag: String, attrs: Vec<String>, variants: Vec<Variant> },
}

struct Def {
    name: String,
    generics: Vec<Generic>,
    shape: Shape,
    /// Every key that its own content may have.
    keys: BTreeSet<String>,
    has_default: bool,
    weight: usize,
}

impl Def {
    fn is_content(&self) -> bool {
        !matches!(self.shape, Shape::Tag(_))
    }
    fn proxied(&self) -> bool {
        match &self.shape {
            Shape::Struct(f) => f.iter().any(|f| f.proxy.is_some()),
            _ => false,
        }
    }
}

const IDENTS: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "name", "value", "st", "ctx", "inner", "index", "de", "err", "done_flag", "se", "res",
    "names", "de_", "_x", "é", "日本", "x1", "type_", "a_rather_long_name_for_a_field_which_goes_on", "S", "Ctx", "NAMES",
    "result", "fields", "tag", "kind", "__value", "__st", "s", "d", "core", "serdere", "std", "len", "item", "key", "has_value",
];

const KEYS: &[&str] = &[
    "a", "b", "ab", "abc", "type", "kind", "", " ", "a b", "q\"uote", "back\\slash", "line\nbreak", "tab\t", "é", "e\u{301}",
    "日本", "\u{1f600}", "null", "0", "x-y", "x.y", "{}", "{0}", "#", "r#type", "\u{7f}", "\u{1}", "value", "has_value",
    "A Rather Long Name For A Field, Which Goes On And On And On, Longer Than Any Other", "'", "\u{fffd}", "\r",
];

const VARIANTS: &[&str] = &[
    "A", "B", "C", "AB", "ABC", "ABD", "One", "Two", "Three", "On", "Off", "None", "Some", "Ok", "Err", "Ünder", "X1", "X10",
    "X100", "VeryLongNameForAVariantWhichGoesOnAndOn", "Self_", "S", "D", "Ctx", "Default",
];

const LEAVES: &[&str] = &[
    "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "char", "String", "()", "std::num::NonZeroU8",
    "std::num::NonZeroI64", "std::num::NonZeroU32", "std::num::NonZeroI16",
];

const STD_PROXIES: &[(&str, &str, &str, bool)] = &[
    ("u8", "u32", "u8::try_from(*$).unwrap()", true),
    ("u32", "i64", "u32::try_from(*$).unwrap()", true),
    ("f32", "f64", "(*$ as f32)", true),
    ("char", "u32", "char::from_u32(*$).unwrap()", true),
    ("char", "String", "$.chars().next().unwrap()", false),
    ("String", "std::rc::Rc<str>", "$.to_string()", true),
    ("Vec<u16>", "Box<[u16]>", "$.to_vec()", true),
    ("String", "Vec<u8>", "String::from_utf8($.clone()).unwrap()", true),
    ("Option<char>", "Vec<char>", "$", false),
];

pub struct Definitions {
    defs: Vec<Def>,
    /// The first line of every definition in the text.
    pub starts: Vec<usize>,
    pub text: String,
}

fn lit(src: &mut Src, s: &str) -> String {
    match src.idx(4) {
        0 if !s.contains("\"#") && !s.contains('\r') && s.chars().all(|c| !c.is_control() || c == '\n') => format!("r#\"{s}\"#"),
        _ => format!("{s:?}"),
    }
}

impl Definitions {
    pub fn new(src: &mut Src, count: usize) -> Definitions {
        let mut d = Definitions { defs: Vec::new(), starts: Vec::new(), text: String::new() };
        for i in 0..count {
            let def = d.def(src, i);
            d.defs.push(def);
        }
        d.emit(src);
        d
    }

    fn pick_name(&self, src: &mut Src, i: usize) -> String {
        for (at, n) in [(3, "S"), (8, "Ctx"), (14, "Point"), (21, "Ünï"), (30, "Value2"), (33, "Inner_")] {
            if at == i {
                return n.to_string();
            }
        }
        format!("{}{i}", src.pick(&["T", "Ty", "My", "Data", "Kind"]))
    }

    fn has_default(&self, t: &Te) -> bool {
        match t {
            Te::Leaf(l) => !l.contains("NonZero"),
            Te::Opt(_) | Te::List(_) => true,
            Te::Arr(t, _) | Te::Held(t) => self.has_default(t),
            Te::ArrN(..) => false,
            Te::Tup(ts) => ts.iter().all(|t| self.has_default(t)),
            Te::Named(i, args) => {
                self.defs[*i].has_default && args.iter().all(|a| !matches!(a, Arg::Ty(t) if !self.has_default(t)))
            }
            Te::Param(_) => false,
        }
    }

    /// All the keys which content of the given type may have.
    fn keys(&self, t: &Te) -> BTreeSet<String> {
        let Te::Named(i, args) = t else { return BTreeSet::new() };
        let d = &self.defs[*i];
        let mut keys = d.keys.clone();
        for (g, a) in d.generics.iter().zip(args) {
            if let (GenericKind::Content, Arg::Ty(t)) = (&g.kind, a) {
                keys.extend(self.keys(t));
            }
        }
        keys
    }

    fn weight(&self, t: &Te) -> usize {
        match t {
            Te::Leaf(_) => 1,
            Te::Opt(t) | Te::Held(t) => 1 + self.weight(t),
            Te::List(t) => 2 + 2 * self.weight(t),
            Te::Arr(t, n) => 1 + n * self.weight(t),
            Te::ArrN(t, _) => 1 + 3 * self.weight(t),
            Te::Tup(ts) => 1 + ts.iter().map(|t| self.weight(t)).sum::<usize>(),
            Te::Param(_) => 2,
            Te::Named(i, args) => {
                self.defs[*i].weight
                    + args.iter().map(|a| if let Arg::Ty(t) = a { 2 * self.weight(t) } else { 0 }).sum::<usize>()
            }
        }
    }

    /// Arguments for a definition, so that no key is there twice.
    fn named(&self, src: &mut Src, i: usize) -> Option<Te> {
        let d = &self.defs[i];
        let mut keys = d.keys.clone();
        let mut args = Vec::new();
        for g in &d.generics {
            args.push(match g.kind {
                GenericKind::Const => Arg::Num(src.idx(4)),
                GenericKind::Life => Arg::Life,
                GenericKind::Type => {
                    let mut t = self.te(src, 1, &mut Vec::new());
                    if g.default && !self.has_default(&t) {
                        t = Te::Leaf("i16");
                    }
                    Arg::Ty(t)
                }
                GenericKind::Content => {
                    let t = self.content(src, &mut keys)?;
                    if g.default && !self.has_default(&t) {
                        return None;
                    }
                    Arg::Ty(t)
                }
            });
        }
        Some(Te::Named(i, args))
    }

    /// A type that can be flattened, with none of the given keys, to which its keys are added.
    fn content(&self, src: &mut Src, keys: &mut BTreeSet<String>) -> Option<Te> {
        for _ in 0..8 {
            if self.defs.is_empty() {
                return None;
            }
            let i = src.idx(self.defs.len());
            let d = &self.defs[i];
            // Generic types only without parameters for content, so that this ends
            if !d.is_content() || d.weight > 25 || d.generics.iter().any(|g| g.kind == GenericKind::Content) {
                continue;
            }
            let Some(t) = self.named(src, i) else { continue };
            let k = self.keys(&t);
            if k.is_disjoint(keys) {
                keys.extend(k);
                return Some(t);
            }
        }
        None
    }

    /// A type for a field.
    fn te(&self, src: &mut Src, depth: usize, params: &mut Vec<Generic>) -> Te {
        if depth == 0 {
            return Te::Leaf(LEAVES[src.idx(LEAVES.len())]);
        }
        let inner = |src: &mut Src, params: &mut Vec<Generic>| Box::new(self.te(src, depth - 1, params));
        match src.weighted(&[5, 3, 2, 1, 2, 6, 5]) {
            1 => Te::Opt(inner(src, params)),
            2 => Te::List(inner(src, params)),
            3 => {
                let n = src.idx(4);
                if n == 3 {
                    if let Some(c) = params.iter().find(|g| g.kind == GenericKind::Const) {
                        let name = c.name;
                        return Te::ArrN(inner(src, params), name);
                    }
                }
                Te::Arr(inner(src, params), n)
            }
            4 => {
                let n = src.range(2, 3);
                Te::Tup((0..n).map(|_| *inner(src, params)).collect())
            }
            5 if !self.defs.is_empty() => {
                for _ in 0..4 {
                    let i = src.idx(self.defs.len());
                    if self.defs[i].weight <= 12 {
                        if let Some(t) = self.named(src, i) {
                            return t;
                        }
                    }
                }
                Te::Leaf("u16")
            }
            6 => {
                let types: Vec<&'static str> =
                    params.iter().filter(|g| g.kind == GenericKind::Type).map(|g| g.name).collect();
                if types.is_empty() {
                    Te::Leaf(LEAVES[src.idx(LEAVES.len())])
                } else {
                    Te::Param(types[src.idx(types.len())])
                }
            }
            _ => Te::Leaf(LEAVES[src.idx(LEAVES.len())]),
        }
    }

    fn def(&self, src: &mut Src, i: usize) -> Def {
        let name = self.pick_name(src, i);
        let mut generics = Vec::new();
        if src.chance(1, 3) {
            for name in ["'a", "'long"] {
                if src.chance(1, 6) {
                    generics.push(Generic { name, kind: GenericKind::Life, default: false, bound: None, in_where: false, value: None });
                }
            }
            for name in ["T", "U", "D", "E", "C"] {
                if !src.chance(1, 3) {
                    continue;
                }
                let kind = if name == "C" || name == "E" && src.chance(1, 2) { GenericKind::Content } else { GenericKind::Type };
                let bound = match src.idx(4) {
                    0 => None,
                    1 => Some("Clone"),
                    2 => Some("std::fmt::Debug"),
                    _ => Some("Clone + std::fmt::Debug + Sized"),
                };
                generics.push(Generic { name, kind, default: false, bound, in_where: src.chance(1, 2), value: None });
            }
            for name in ["N", "M"] {
                if src.chance(1, 4) {
                    generics.push(Generic { name, kind: GenericKind::Const, default: false, bound: None, in_where: false, value: None });
                }
            }
            // Defaults for the last ones
            for g in generics.iter_mut().rev() {
                if !src.chance(1, 3) {
                    break;
                }
                g.value = match g.kind {
                    GenericKind::Type => Some("u8"),
                    GenericKind::Const => Some("2"),
                    _ => break,
                };
            }
        }
        let mut keys = BTreeSet::new();
        let shape = match src.weighted(&[6, 3, 4]) {
            0 => {
                let max = if src.chance(1, 20) { 30 } else { 7 };
                let n = src.idx(max + 1);
                let proxies = src.chance(1, 5);
                let f = self.fields(src, n, &mut keys, &mut generics, proxies);
                Shape::Struct(f)
            }
            1 => {
                generics.clear();
                Shape::Tag(self.variants(src, &mut keys, &mut generics, true))
            }
            _ => {
                let mut attrs = Vec::new();
                let mut tag = "type".to_string();
                let mut ename = name.clone();
                let rename = src.chance(1, 4);
                let retag = src.chance(1, 2);
                if retag {
                    tag = src.pick(KEYS).to_string();
                    let l = lit(src, &tag);
                    attrs.push(format!("tag = {l}"));
                }
                if rename {
                    ename = src.pick(KEYS).to_string();
                    let l = lit(src, &ename);
                    attrs.insert(src.idx(attrs.len() + 1), format!("rename = {l}"));
                }
                keys.insert(tag.clone());
                let mut variants = self.variants(src, &mut keys, &mut generics, false);
                if !retag && variants.iter().all(|v| matches!(v.body, Body::Unit)) {
                    // Without a tag, this would not be an object
                    let v = variants.last_mut().unwrap();
                    v.body = Body::Fields(Vec::new());
                    if v.discriminant.is_some() {
                        v.discriminant = Some(v.index.to_string());
                    }
                }
                Shape::Enum { name: ename, tag, attrs, variants }
            }
        };
        let mut def = Def { name, generics, shape, keys, has_default: false, weight: 0 };
        // Every parameter has to be used
        self.use_all(&mut def);
        def.weight = match &def.shape {
            Shape::Struct(f) => 1 + f.iter().map(|f| self.weight(&f.ty)).sum::<usize>(),
            Shape::Tag(_) => 1,
            Shape::Enum { variants, .. } => {
                2 + variants
                    .iter()
                    .map(|v| match &v.body {
                        Body::Unit => 0,
                        Body::Fields(f) => f.iter().map(|f| self.weight(&f.ty)).sum(),
                        Body::Transparent(_, t) => self.weight(t),
                    })
                    .max()
                    .unwrap()
            }
        };
        def.has_default = src.chance(2, 3)
            && match &def.shape {
                Shape::Struct(f) => {
                    f.iter().all(|f| f.proxy.is_none() && (self.has_default(&f.ty) || matches!(f.ty, Te::Param(_))))
                }
                Shape::Tag(_) => true,
                Shape::Enum { variants, .. } => variants.iter().any(|v| matches!(v.body, Body::Unit)),
            };
        def
    }

    /// Drops the parameters that are not used, and says which have to have defaults.
    fn use_all(&self, def: &mut Def) {
        fn uses(t: &Te, name: &str) -> bool {
            match t {
                Te::Leaf(_) => false,
                Te::Opt(t) | Te::List(t) | Te::Arr(t, _) => uses(t, name),
                Te::Held(t) => name == "'a" || uses(t, name),
                Te::ArrN(t, n) => *n == name || uses(t, name),
                Te::Tup(ts) => ts.iter().any(|t| uses(t, name)),
                Te::Named(_, args) => args.iter().any(|a| matches!(a, Arg::Ty(t) if uses(t, name))),
                Te::Param(n) => *n == name,
            }
        }
        fn all(def: &Def) -> Vec<(&Te, bool)> {
            let mut v = Vec::new();
            match &def.shape {
                Shape::Struct(f) => v.extend(f.iter().map(|f| (&f.ty, f.default))),
                Shape::Tag(_) => (),
                Shape::Enum { variants, .. } => {
                    for x in variants {
                        match &x.body {
                            Body::Unit => (),
                            Body::Fields(f) => v.extend(f.iter().map(|f| (&f.ty, f.default))),
                            Body::Transparent(_, t) => v.push((t, false)),
                        }
                    }
                }
            }
            v
        }
        let mut g = std::mem::take(&mut def.generics);
        let types = all(def);
        g.retain(|g| types.iter().any(|t| uses(t.0, g.name)) || g.kind == GenericKind::Const);
        for g in &mut g {
            g.default = types.iter().any(|t| t.1 && uses(t.0, g.name));
        }
        // Defaults only at the end
        let first = g.iter().rposition(|g| g.value.is_none()).map_or(0, |i| i + 1);
        for g in &mut g[..first] {
            g.value = None;
        }
        def.generics = g;
    }

    fn fields(
        &self,
        src: &mut Src,
        n: usize,
        keys: &mut BTreeSet<String>,
        params: &mut Vec<Generic>,
        proxies: bool,
    ) -> Vec<Field> {
        let mut out: Vec<Field> = Vec::new();
        let mut weight = 0;
        for _ in 0..n {
            let ident = src.pick(IDENTS).to_string();
            if out.iter().any(|f| f.ident == ident) {
                continue;
            }
            if weight > 30 {
                break;
            }
            let plain = Field {
                ident: ident.clone(),
                key: ident.clone(),
                renamed: false,
                ty: Te::Leaf("u8"),
                default: false,
                flatten: false,
                proxy: None,
            };
            if src.chance(1, 7) {
                let flat: Vec<&'static str> =
                    params.iter().filter(|g| g.kind == GenericKind::Content).map(|g| g.name).collect();
                let used = |name: &str| out.iter().any(|f| matches!(f.ty, Te::Param(p) if p == name));
                let free: Vec<&'static str> = flat.into_iter().filter(|n| !used(n)).collect();
                let ty = if !free.is_empty() && src.chance(2, 3) {
                    Some(Te::Param(free[src.idx(free.len())]))
                } else {
                    self.content(src, keys)
                };
                if let Some(ty) = ty {
                    weight += self.weight(&ty);
                    let proxy = (proxies && matches!(ty, Te::Named(..)) && src.chance(1, 2)).then_some(Proxy::Px);
                    out.push(Field { ty, flatten: true, proxy, ..plain });
                    continue;
                }
            }
            let mut f = plain;
            if src.chance(1, 3) {
                f.renamed = true;
                f.key = src.pick(KEYS).to_string();
            }
            if !keys.insert(f.key.clone()) {
                continue;
            }
            f.ty = self.te(src, 2, params);
            if params.iter().any(|g| g.kind == GenericKind::Life && g.name == "'a") && src.chance(1, 2) {
                f.ty = Te::Held(Box::new(f.ty));
            }
            if weight + self.weight(&f.ty) > 45 {
                f.ty = Te::Leaf("u64");
            }
            weight += self.weight(&f.ty);
            f.default = src.chance(1, 4);
            if proxies && src.chance(1, 2) {
                if src.chance(1, 2) {
                    let (p, t, conv, has_default) = STD_PROXIES[src.idx(STD_PROXIES.len())];
                    if p != "Option<char>" {
                        f.ty = if p == "Vec<u16>" { Te::List(Box::new(Te::Leaf("u16"))) } else { Te::Leaf(p) };
                        f.proxy = Some(Proxy::Std(t, conv));
                        f.default &= has_default;
                    }
                } else if !contains_param(&f.ty) {
                    f.proxy = Some(Proxy::Px);
                }
            }
            if f.default && f.proxy.is_none() && !self.has_default(&f.ty) && !matches!(f.ty, Te::Param(_)) {
                f.default = false;
            }
            out.push(f);
        }
        out
    }

    fn variants(&self, src: &mut Src, keys: &mut BTreeSet<String>, params: &mut Vec<Generic>, tag: bool) -> Vec<Variant> {
        let max = if src.chance(1, 15) { 24 } else { 6 };
        let n = src.range(1, max);
        let mut out: Vec<Variant> = Vec::new();
        let before = keys.clone();
        let mut next = 0u64;
        // What is at the end of the list must not be pushed out of it
        let mut used_discriminants = BTreeSet::new();
        let mut indices = BTreeSet::new();
        for _ in 0..n {
            let ident = src.pick(VARIANTS).to_string();
            if out.iter().any(|v| v.ident == ident) {
                continue;
            }
            let mut v = Variant { name: ident.clone(), ident, index: next, attrs: Vec::new(), discriminant: None, body: Body::Unit };
            let mut disc = next;
            if src.chance(1, 5) {
                disc = match src.idx(5) {
                    0 => next + src.below(4),
                    1 => src.below(8),
                    2 => src.choose(&[100, 127, 200, 255]),
                    3 => src.choose(&[256, 1000, 65535, 65536]),
                    _ => src.choose(&[0x7fff_ffff, 0xffff_ffff, 1 << 40]),
                };
                v.discriminant = Some(match src.idx(5) {
                    0 => format!("0x{disc:X}"),
                    1 => format!("0b{disc:b}"),
                    2 if disc >= 1000 => format!("{}_{:03}", disc / 1000, disc % 1000),
                    _ => disc.to_string(),
                });
            }
            let mut index = disc;
            let mut reindex = None;
            if src.chance(1, 6) {
                index = src.choose(&[0, 1, 2, 5, 9, 77, 255, 256, 65536, 1 << 32, (1 << 63) - 1, u64::MAX]);
                reindex = Some(if src.chance(1, 4) { format!("{index:#x}") } else { index.to_string() });
            }
            if used_discriminants.contains(&disc) || indices.contains(&index) {
                continue;
            }
            if src.chance(1, 4) {
                let name = src.pick(KEYS).to_string();
                v.name = name.clone();
                let l = lit(src, &name);
                v.attrs.push(format!("rename = {l}"));
            }
            if out.iter().any(|o| o.name == v.name) {
                continue;
            }
            if let Some(r) = reindex {
                v.attrs.insert(src.idx(v.attrs.len() + 1), format!("reindex = {r}"));
            }
            v.index = index;
            used_discriminants.insert(disc);
            indices.insert(index);
            next = disc + 1;
            if !tag {
                match src.weighted(&[3, 5, 2]) {
                    0 => (),
                    1 => {
                        let mut k = before.clone();
                        let n = src.idx(5);
                        v.body = Body::Fields(self.fields(src, n, &mut k, params, false));
                        keys.extend(k);
                    }
                    _ => {
                        let mut k = before.clone();
                        let free: Vec<&'static str> =
                            params.iter().filter(|g| g.kind == GenericKind::Content).map(|g| g.name).collect();
                        let ty = if !free.is_empty() && src.chance(2, 3) {
                            Some(Te::Param(free[src.idx(free.len())]))
                        } else {
                            self.content(src, &mut k)
                        };
                        keys.extend(k);
                        if let Some(ty) = ty {
                            v.attrs.insert(src.idx(v.attrs.len() + 1), "transparent".into());
                            let name = src.chance(1, 2).then(|| src.pick(IDENTS).to_string());
                            v.body = Body::Transparent(name, ty);
                        }
                    }
                }
            }
            out.push(v);
        }
        out
    }

    // --------------------------------------------------------------------------------------------

    fn show(&self, t: &Te) -> String {
        match t {
            Te::Leaf(l) => l.to_string(),
            Te::Opt(t) => format!("Option<{}>", self.show(t)),
            Te::List(t) => format!("Vec<{}>", self.show(t)),
            Te::Arr(t, n) => format!("[{}; {n}]", self.show(t)),
            Te::ArrN(t, n) => format!("[{}; {n}]", self.show(t)),
            Te::Tup(ts) => format!("({})", ts.iter().map(|t| self.show(t)).collect::<Vec<_>>().join(", ")),
            Te::Param(n) => n.to_string(),
            Te::Held(t) => format!("Held<'a, {}>", self.show(t)),
            Te::Named(i, args) => {
                let d = &self.defs[*i];
                if args.is_empty() {
                    return d.name.clone();
                }
                let args: Vec<String> = args
                    .iter()
                    .map(|a| match a {
                        Arg::Ty(t) => self.show(t),
                        Arg::Num(n) => n.to_string(),
                        Arg::Life => "'static".into(),
                    })
                    .collect();
                format!("{}<{}>", d.name, args.join(", "))
            }
        }
    }

    /// The type that a field is declared with.
    fn declared(&self, f: &Field) -> String {
        match &f.proxy {
            None => self.show(&f.ty),
            Some(Proxy::Px) => format!("Px<{}>", self.show(&f.ty)),
            Some(Proxy::Std(t, _)) => t.to_string(),
        }
    }

    fn emit_field(&self, src: &mut Src, f: &Field, in_variant: bool, out: &mut String) {
        let mut attrs = Vec::new();
        if f.flatten {
            attrs.push("flatten".to_string());
        }
        if f.renamed {
            let l = lit(src, &f.key);
            attrs.push(format!("rename = {l}"));
        }
        if f.default {
            attrs.push("default".into());
        }
        if f.proxy.is_some() {
            attrs.push(format!("proxy = {}", self.show(&f.ty)));
        }
        let order = src.permutation(attrs.len());
        let attrs: Vec<String> = order.into_iter().map(|i| attrs[i].clone()).collect();
        self.emit_attrs(src, &attrs, out);
        let vis = if in_variant { "" } else { src.pick(&["", "pub ", "pub(crate) "]) };
        write!(out, "        {vis}{}: {},\n", f.ident, self.declared(f)).unwrap();
    }

    fn emit_attrs(&self, src: &mut Src, attrs: &[String], out: &mut String) {
        if src.chance(1, 6) {
            out.push_str(src.pick(&["        /// Says something, like `serde`.\n", "        #[allow(unused)]\n", "        #[doc = \"serde(rename = \\\"x\\\")\"]\n"]));
        }
        if attrs.is_empty() {
            if src.chance(1, 20) {
                out.push_str("        #[serde()]\n");
            }
            return;
        }
        match src.idx(4) {
            0 => attrs.iter().for_each(|a| write!(out, "        #[serde({a})]\n").unwrap()),
            1 => write!(out, "        #[cfg_attr(all(), serde({}))]\n", attrs.join(", ")).unwrap(),
            2 => write!(out, "        #[serde({},)]\n", attrs.join(",")).unwrap(),
            _ => write!(out, "        #[serde({})]\n", attrs.join(", ")).unwrap(),
        }
    }

    fn emit(&mut self, src: &mut Src) {
        let mut out = String::new();
        out.push_str("type Result<T> = std::result::Result<T, String>;\n");
        for (i, d) in self.defs.iter().enumerate() {
            self.starts.push(out.matches('\n').count() + 1);
            self.emit_def(src, d, i, &mut out);
        }
        self.starts.push(out.matches('\n').count() + 1);
        out.push_str("pub fn all() -> Vec<verif::catalog::Entry> {\n    verif::registry! {\n");
        for (i, d) in self.defs.iter().enumerate() {
            let t = if d.generics.is_empty() { Some(Te::Named(i, vec![])) } else { self.named(src, i) };
            // A type whose content may be anything is used only if there is something that fits
            let Some(t) = t else { continue };
            let text = self.show(&t);
            let strs = if i % 9 == 0 { ", strs" } else { "" };
            match src.idx(12) {
                0 => write!(out, "        Option<{text}>{strs};\n").unwrap(),
                1 => write!(out, "        Vec<{text}>{strs};\n").unwrap(),
                2 => write!(out, "        ({text}, {text}){strs};\n").unwrap(),
                _ => write!(out, "        {text}{strs};\n").unwrap(),
            }
            if !d.generics.is_empty() {
                if let Some(t) = self.named(src, i) {
                    write!(out, "        {};\n", self.show(&t)).unwrap();
                }
            }
        }
        out.push_str("    }\n}\n");
        self.text = out;
    }

    fn emit_def(&self, src: &mut Src, d: &Def, i: usize, out: &mut String) {
        let proxied = d.proxied();
        let mut derives = if proxied { vec!["Deserialize"] } else { vec!["Serialize", "Deserialize"] };
        if src.chance(1, 2) {
            derives.reverse();
        }
        derives.push("Clone");
        derives.push("Debug");
        if src.chance(1, 4) {
            write!(out, "/// The type {i}.\n").unwrap();
        }
        if src.chance(1, 4) {
            derives.iter().for_each(|x| write!(out, "#[derive({x})]\n").unwrap());
        } else {
            write!(out, "#[derive({})]\n", derives.join(", ")).unwrap();
        }
        let names: Vec<&str> = d.generics.iter().map(|g| g.name).collect();
        let args = if names.is_empty() { String::new() } else { format!("<{}>", names.join(", ")) };
        let me = format!("{}{args}", d.name);
        let params = |declare: bool, more: &dyn Fn(&Generic) -> String| {
            let p: Vec<String> = d
                .generics
                .iter()
                .map(|g| match g.kind {
                    GenericKind::Life => g.name.to_string(),
                    GenericKind::Const => {
                        let value = g.value.filter(|_| declare).map_or(String::new(), |v| format!(" = {v}"));
                        format!("const {}: usize{value}", g.name)
                    }
                    _ => {
                        let mut b: Vec<String> = Vec::new();
                        if let (Some(x), true) = (g.bound, !(declare && g.in_where)) {
                            b.push(x.to_string());
                        }
                        let m = more(g);
                        if !m.is_empty() {
                            b.push(m);
                        }
                        let value = g.value.filter(|_| declare).map_or(String::new(), |v| format!(" = {v}"));
                        if b.is_empty() {
                            format!("{}{value}", g.name)
                        } else {
                            format!("{}: {}{value}", g.name, b.join(" + "))
                        }
                    }
                })
                .collect();
            p.join(", ")
        };
        let angle = |s: String| if s.is_empty() { s } else { format!("<{s}>") };
        let wheres: Vec<String> = d
            .generics
            .iter()
            .filter(|g| g.in_where && matches!(g.kind, GenericKind::Type | GenericKind::Content))
            .filter_map(|g| g.bound.map(|b| format!("{}: {b}", g.name)))
            .collect();
        let where_clause = if wheres.is_empty() {
            String::new()
        } else {
            format!(" where {}{}", wheres.join(", "), if src.chance(1, 2) { "," } else { "" })
        };
        let declared = angle(params(true, &|_| String::new()));
        let vis = src.pick(&["", "pub ", "pub(crate) "]);
        match &d.shape {
            Shape::Struct(fields) => {
                if fields.is_empty() && d.generics.is_empty() && src.chance(1, 2) {
                    write!(out, "{vis}struct {}{declared}{where_clause};\n", d.name).unwrap();
                } else {
                    write!(out, "{vis}struct {}{declared}{where_clause} {{\n", d.name).unwrap();
                    fields.iter().for_each(|f| self.emit_field(src, f, false, out));
                    out.push_str("}\n");
                }
            }
            Shape::Tag(variants) | Shape::Enum { variants, .. } => {
                if let Shape::Enum { attrs, .. } = &d.shape {
                    if !attrs.is_empty() {
                        self.emit_attrs(src, attrs, out);
                    }
                }
                let any = variants.iter().any(|v| v.discriminant.is_some());
                if any && matches!(d.shape, Shape::Enum { .. }) {
                    out.push_str("#[repr(u64)]\n");
                }
                write!(out, "{vis}enum {}{declared}{where_clause} {{\n", d.name).unwrap();
                for v in variants {
                    self.emit_attrs(src, &v.attrs, out);
                    write!(out, "    {}", v.ident).unwrap();
                    match &v.body {
                        Body::Unit => (),
                        Body::Fields(f) => {
                            out.push_str(" {\n");
                            f.iter().for_each(|f| self.emit_field(src, f, true, out));
                            out.push_str("    }");
                        }
                        Body::Transparent(None, t) => write!(out, "({})", self.show(t)).unwrap(),
                        Body::Transparent(Some(n), t) => write!(out, " {{ {n}: {} }}", self.show(t)).unwrap(),
                    }
                    if let Some(x) = &v.discriminant {
                        write!(out, " = {x}").unwrap();
                    }
                    out.push_str(",\n");
                }
                out.push_str("}\n");
            }
        }
        if d.has_default {
            let bound = params(false, &|_| "Default".to_string());
            write!(out, "impl{} Default for {me} {{\n    fn default() -> Self {{\n", angle(bound)).unwrap();
            match &d.shape {
                Shape::Struct(fields) => {
                    out.push_str("        Self {\n");
                    for f in fields {
                        let v = match &f.ty {
                            Te::Leaf("u8" | "u16" | "u32" | "u64") if src.chance(1, 2) => "17".to_string(),
                            Te::Leaf("i8" | "i16" | "i32" | "i64") if src.chance(1, 2) => "-5".to_string(),
                            Te::Leaf("bool") => "true".to_string(),
                            Te::Leaf("String") if src.chance(1, 2) => "\"d\\u{e9}f\".to_string()".to_string(),
                            _ => "Default::default()".to_string(),
                        };
                        write!(out, "            {}: {v},\n", f.ident).unwrap();
                    }
                    out.push_str("        }\n");
                }
                Shape::Tag(v) => write!(out, "        Self::{}\n", v[src.idx(v.len())].ident).unwrap(),
                Shape::Enum { variants, .. } => {
                    let units: Vec<&Variant> = variants.iter().filter(|v| matches!(v.body, Body::Unit)).collect();
                    write!(out, "        Self::{}\n", units[src.idx(units.len())].ident).unwrap()
                }
            }
            out.push_str("    }\n}\n");
        }
        self.emit_model(d, &me, &angle(params(false, &|g| if g.default { "Model + Default".into() } else { "Model".into() })), out);
        if proxied {
            let p = params(false, &|g| match g.kind {
                GenericKind::Content => "serdere::serialize::SerializeStruct<S_, C_>".into(),
                _ => "serdere::Serialize<S_, C_>".into(),
            });
            let p = if p.is_empty() { p } else { format!("{p}, ") };
            let p = format!("{p}S_: serdere::Serializer + ?Sized, C_: ?Sized");
            write!(
                out,
                "impl<{p}> serdere::Serialize<S_, C_> for {me} {{\n    const NULLABLE: bool = false;\n    fn serialize(&self, value: serdere::Value<S_>, ctx: &mut C_) -> std::result::Result<(), S_::Error> {{\n        serdere::serialize::serialize_struct(value, self, ctx, Some({:?}))\n    }}\n}}\n",
                d.name
            )
            .unwrap();
            write!(
                out,
                "impl<{p}> serdere::serialize::SerializeStruct<S_, C_> for {me} {{\n    fn serialize_content(&self, st__: &mut serdere::Struct<S_>, ctx__: &mut C_) -> std::result::Result<(), S_::Error> {{\n"
            )
            .unwrap();
            let Shape::Struct(fields) = &d.shape else { unreachable!() };
            for f in fields {
                let get = self.proxied_value(f, &format!("self.{}", f.ident));
                if f.flatten {
                    write!(out, "        st__.inline_put_using(&{get}, ctx__)?;\n").unwrap();
                } else {
                    write!(out, "        st__.field({:?})?.put_using(&{get}, ctx__)?;\n", f.key).unwrap();
                }
            }
            out.push_str("        Ok(())\n    }\n}\n");
        }
    }

    /// What is written for a field, which is the place given.
    fn proxied_value(&self, f: &Field, place: &str) -> String {
        match &f.proxy {
            None => place.to_string(),
            Some(Proxy::Px) => format!("{place}.0"),
            Some(Proxy::Std(_, conv)) => conv.replace("*$", place).replace('$', place),
        }
    }

    fn field_model(&self, f: &Field) -> String {
        let t = self.show(&f.ty);
        match (&f.proxy, f.flatten, f.default) {
            (_, true, _) => format!("field_flat::<{t}>()"),
            (_, _, false) => format!("field::<{t}>({:?})", f.key),
            (None, _, true) => format!("field_default::<{t}>({:?})", f.key),
            (Some(_), _, true) => {
                let value = self.proxied_value(f, "d");
                format!(
                    "{{ let d = <{} as Default>::default(); FieldTy {{ name: {:?}, ty: <{t} as Model>::ty(), kind: FieldKind::Default(Model::to_dv(&{value})) }} }}",
                    self.declared(f),
                    f.key
                )
            }
        }
    }

    fn emit_model(&self, d: &Def, me: &str, params: &str, out: &mut String) {
        write!(out, "impl{params} Model for {me} {{\n    fn ty() -> &'static Ty {{\n").unwrap();
        let fields_of = |fields: &[Field]| fields.iter().map(|f| self.field_model(f)).collect::<Vec<_>>().join(", ");
        match &d.shape {
            Shape::Struct(fields) => write!(out, "        struct_ty({:?}, vec![{}])\n", d.name, fields_of(fields)).unwrap(),
            Shape::Tag(v) => {
                let v: Vec<String> = v.iter().map(|v| format!("({:?}, {})", v.name, v.index)).collect();
                write!(out, "        verif::model::leak(Ty::Tag(tag_ty(vec![{}])))\n", v.join(", ")).unwrap();
            }
            Shape::Enum { name, tag, variants, .. } => {
                let v: Vec<String> = variants
                    .iter()
                    .map(|v| {
                        let f = match &v.body {
                            Body::Unit => String::new(),
                            Body::Fields(f) => fields_of(f),
                            Body::Transparent(_, t) => format!("field_flat::<{}>()", self.show(t)),
                        };
                        format!("({:?}, {}, vec![{f}])", v.name, v.index)
                    })
                    .collect();
                write!(out, "        enum_ty({name:?}, {tag:?}, vec![{}])\n", v.join(", ")).unwrap();
            }
        }
        out.push_str("    }\n    fn to_dv(&self) -> Dv {\n");
        let pattern =
            |fields: &[Field]| fields.iter().enumerate().map(|(i, f)| format!("{}: f_{i}", f.ident)).collect::<Vec<_>>().join(", ");
        let to = |fields: &[Field]| {
            fields
                .iter()
                .enumerate()
                .map(|(i, f)| match &f.proxy {
                    None => format!("Model::to_dv(f_{i})"),
                    Some(_) => format!("Model::to_dv(&{})", self.proxied_value(f, &format!("(*f_{i})"))),
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        let from = |fields: &[Field], s: &str| {
            fields
                .iter()
                .enumerate()
                .map(|(i, f)| match &f.proxy {
                    None => format!("{}: Model::from_dv(&{s}[{i}])", f.ident),
                    Some(_) => format!("{}: <{} as Model>::from_dv(&{s}[{i}]).into()", f.ident, self.show(&f.ty)),
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        match &d.shape {
            Shape::Struct(fields) => {
                write!(out, "        let Self {{ {} }} = self;\n        Dv::Seq(vec![{}])\n", pattern(fields), to(fields)).unwrap();
                write!(out, "    }}\n    fn from_dv(v_: &Dv) -> Self {{\n        let Dv::Seq(s_) = v_ else {{ panic!() }};\n        Self {{ {} }}\n", from(fields, "s_")).unwrap();
            }
            Shape::Tag(variants) | Shape::Enum { variants, .. } => {
                out.push_str("        match self {\n");
                for (i, v) in variants.iter().enumerate() {
                    let (p, e) = match &v.body {
                        Body::Unit => (String::new(), String::new()),
                        Body::Fields(f) => (format!(" {{ {} }}", pattern(f)), to(f)),
                        Body::Transparent(None, _) => ("(f_0)".into(), "Model::to_dv(f_0)".into()),
                        Body::Transparent(Some(n), _) => (format!(" {{ {n}: f_0 }}"), "Model::to_dv(f_0)".into()),
                    };
                    write!(out, "            Self::{}{p} => Dv::Var({i}, vec![{e}]),\n", v.ident).unwrap();
                }
                out.push_str("        }\n    }\n    fn from_dv(v_: &Dv) -> Self {\n        let Dv::Var(i_, s_) = v_ else { panic!() };\n        match i_ {\n");
                for (i, v) in variants.iter().enumerate() {
                    let e = match &v.body {
                        Body::Unit => String::new(),
                        Body::Fields(f) => format!(" {{ {} }}", from(f, "s_")),
                        Body::Transparent(None, _) => "(Model::from_dv(&s_[0]))".into(),
                        Body::Transparent(Some(n), _) => format!(" {{ {n}: Model::from_dv(&s_[0]) }}"),
                    };
                    write!(out, "            {i} => Self::{}{e},\n", v.ident).unwrap();
                }
                out.push_str("            _ => panic!(),\n        }\n");
            }
        }
        out.push_str("    }\n}\n");
    }
}

fn contains_param(t: &Te) -> bool {
    match t {
        Te::Leaf(_) => false,
        Te::Opt(t) | Te::List(t) | Te::Arr(t, _) => contains_param(t),
        Te::Held(_) | Te::ArrN(..) | Te::Param(_) => true,
        Te::Tup(ts) => ts.iter().any(contains_param),
        Te::Named(_, args) => args.iter().any(|a| matches!(a, Arg::Ty(t) if contains_param(t))),
    }
}
