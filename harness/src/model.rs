//! Descriptions of types (`Ty`) and values (`Dv`), the JSON shape a value of a type has, and a
//! reference deserializer which says what reading a document as a type must give.

use crate::dom::{self, BigI, IntTy, Node, SNode, SVal};
use crate::engine::Src;
use serdere::{FixedNameMap, NameMap};

#[derive(Debug)]
pub enum Ty {
    Bool,
    Int(IntTy),
    NonZero(IntTy),
    F32,
    F64,
    Char,
    Str,
    Opt(&'static Ty),
    Tup(Vec<&'static Ty>),
    List(&'static Ty),
    Struct(&'static StructTy),
    Tag(&'static TagTy),
    Enum(&'static EnumTy),
}

#[derive(Debug)]
pub struct StructTy {
    /// The type name which is given to the format, if any.
    pub name: Option<&'static str>,
    pub fields: Vec<FieldTy>,
}

#[derive(Debug)]
pub struct FieldTy {
    pub name: &'static str,
    pub ty: &'static Ty,
    pub kind: FieldKind,
}

#[derive(Debug)]
pub enum FieldKind {
    Plain,
    Default(Dv),
    /// The fields of a struct or enum which is inlined into this one.
    Flatten,
}

#[derive(Debug)]
pub struct TagTy {
    pub variants: Vec<(&'static str, usize)>,
    pub names: &'static NameMap<usize>,
}

impl TagTy {
    pub fn max(&self) -> usize {
        self.variants.iter().map(|v| v.1).max().unwrap()
    }
}

#[derive(Debug)]
pub struct EnumTy {
    pub name: &'static str,
    pub tag: &'static str,
    pub tags: &'static TagTy,
    pub fields: Vec<Vec<FieldTy>>,
}

/// A value of some type.
#[derive(Debug, Clone, PartialEq)]
pub enum Dv {
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Opt(Option<Box<Dv>>),
    /// Tuples, lists and structs.
    Seq(Vec<Dv>),
    /// The position of the variant in the declaration, and its fields.
    Var(usize, Vec<Dv>),
}

impl Ty {
    /// Can `null` be a value of this type?
    pub fn nullable(&self) -> bool {
        matches!(self, Ty::Opt(_))
    }

    pub fn describe(&self) -> String {
        match self {
            Ty::Bool => "bool".into(),
            Ty::Int(t) => format!("{}{}", if t.signed { "i" } else { "u" }, t.bits),
            Ty::NonZero(t) => format!("NonZero{}{}", if t.signed { "I" } else { "U" }, t.bits),
            Ty::F32 => "f32".into(),
            Ty::F64 => "f64".into(),
            Ty::Char => "char".into(),
            Ty::Str => "str".into(),
            Ty::Opt(t) => format!("{}?", t.describe()),
            Ty::Tup(ts) => format!("({})", ts.iter().map(|t| t.describe()).collect::<Vec<_>>().join(",")),
            Ty::List(t) => format!("[{}]", t.describe()),
            Ty::Struct(s) => format!("{{{}}}", describe_fields(&s.fields)),
            Ty::Tag(t) => format!("tag{:?}", t.variants),
            Ty::Enum(e) => format!(
                "enum {:?} {{{}}}",
                e.tag,
                e.tags
                    .variants
                    .iter()
                    .zip(&e.fields)
                    .map(|(v, f)| format!("{:?}={}{{{}}}", v.0, v.1, describe_fields(f)))
                    .collect::<Vec<_>>()
                    .join(" | ")
            ),
        }
    }

    pub fn has_map(&self) -> bool {
        match self {
            Ty::Struct(_) | Ty::Enum(_) => true,
            Ty::Opt(t) | Ty::List(t) => t.has_map(),
            Ty::Tup(ts) => ts.iter().any(|t| t.has_map()),
            _ => false,
        }
    }
}

fn describe_fields(fields: &[FieldTy]) -> String {
    fields
        .iter()
        .map(|f| match &f.kind {
            FieldKind::Plain => format!("{:?}:{}", f.name, f.ty.describe()),
            FieldKind::Default(d) => format!("{:?}:{}={:?}", f.name, f.ty.describe(), d),
            FieldKind::Flatten => format!("..{}", f.ty.describe()),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

thread_local! {
    static TEMPORARY: std::cell::RefCell<Vec<(*mut (), unsafe fn(*mut ()))>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Makes a value which lasts until the case which is being checked on this thread has ended.
pub fn keep<T: 'static>(t: T) -> &'static T {
    unsafe fn free<T>(p: *mut ()) {
        drop(Box::from_raw(p.cast::<T>()))
    }
    let p = Box::into_raw(Box::new(t));
    TEMPORARY.with(|l| l.borrow_mut().push((p.cast(), free::<T>)));
    unsafe { &*p }
}

/// Frees what was made by [`keep`] on this thread.
pub fn free_kept() {
    let all = TEMPORARY.with(|l| std::mem::take(&mut *l.borrow_mut()));
    for (p, free) in all.into_iter().rev() {
        unsafe { free(p) }
    }
}

/// Builds a name table of any size up to 24.
pub fn name_map(entries: &[(&'static str, usize)]) -> &'static NameMap<usize> {
    any_name_map(entries, false)
}

/// Builds a name table which lasts until the case which is being checked has ended.
pub fn kept_name_map(entries: &[(&'static str, usize)]) -> &'static NameMap<usize> {
    any_name_map(entries, true)
}

fn any_name_map(entries: &[(&'static str, usize)], temporary: bool) -> &'static NameMap<usize> {
    macro_rules! go {
        ($($n:literal)*) => {
            match entries.len() {
                $($n => {
                    let a: [(&'static str, usize); $n] = entries.to_vec().try_into().unwrap();
                    let map = FixedNameMap::new(a);
                    if temporary { keep(map).unfix() } else { leak(map).unfix() }
                })*
                n => panic!("no name map of size {n}"),
            }
        };
    }
    go!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 40 129 300)
}

// ------------------------------------------------------------------------------------------------
// Values

pub fn gen_int(src: &mut Src, t: IntTy) -> i128 {
    let max = t.max_mag(false).min(i128::MAX as u128) as i128;
    let min = if t.signed { -(t.max_mag(true) as i128) } else { 0 };
    match src.weighted(&[4, 2, 3, 2]) {
        0 => (src.below(10) as i128).min(max),
        1 => {
            // Around powers of two
            let b = src.below(u64::from(t.bits));
            let v = (1i128 << b) - 1 + i128::from(src.below(3));
            let v = v.min(max);
            if t.signed && src.chance(1, 2) { (-v).max(min) } else { v }
        }
        2 => {
            let r = src.u64() as i128;
            let span = max - min;
            if span > i128::from(u64::MAX) { r } else { min + r % (span + 1) }
        }
        _ => {
            let e = i128::from(src.below(3));
            if src.chance(1, 2) { max - e } else { (min + e).min(max) }
        }
    }
}

pub fn gen_f64(src: &mut Src) -> f64 {
    loop {
        let f = match src.weighted(&[4, 3, 4, 2]) {
            0 => src.below(100) as f64 / src.choose(&[1.0, 2.0, 10.0, 1000.0]),
            1 => src.choose(&[
                0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e300, 1e-300,
                9007199254740993.0, 1e16, 1e15, 1e17, 1e21, 1e22, 1e23, 0.1, 0.3, 1e-5, 1e-7, 123456789012345680.0,
                2.2250738585072011e-308, 1.7976931348623155e308, 4.35, 5e-323, 8.41e21, 2f64.powi(63), 2f64.powi(64),
                -2f64.powi(63), 9.5367431640625e-7, 1e-4, 1e-3,
            ]),
            2 => f64::from_bits(src.u64()),
            _ => {
                let m = src.below(1 << 20) as f64;
                m * 2f64.powi(src.irange(-1074, 1000) as i32)
            }
        };
        if f.is_finite() {
            return f;
        }
    }
}

pub fn gen_f32(src: &mut Src) -> f32 {
    loop {
        let f = match src.weighted(&[4, 3, 4]) {
            0 => src.below(100) as f32 / src.choose(&[1.0, 2.0, 10.0, 1000.0]),
            1 => src.choose(&[
                0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 1e38, 1e-38, 16777217.0, 0.1, 0.3,
                33554432.0, 1e10, 1.17549421e-38,
            ]),
            _ => f32::from_bits(src.u64() as u32),
        };
        if f.is_finite() {
            return f;
        }
    }
}

pub fn gen_value(src: &mut Src, ty: &Ty, big: bool) -> Dv {
    match ty {
        Ty::Bool => Dv::Bool(src.chance(1, 2)),
        Ty::Int(t) => Dv::Int(gen_int(src, *t)),
        Ty::NonZero(t) => {
            let v = gen_int(src, *t);
            Dv::Int(if v == 0 { 1 } else { v })
        }
        Ty::F32 => Dv::F32(gen_f32(src).to_bits()),
        Ty::F64 => Dv::F64(gen_f64(src).to_bits()),
        Ty::Char => Dv::Char(dom::gen_char(src)),
        Ty::Str => Dv::Str(dom::gen_string(src, big)),
        Ty::Opt(t) => {
            if src.chance(2, 3) {
                Dv::Opt(Some(Box::new(gen_value(src, t, big))))
            } else {
                Dv::Opt(None)
            }
        }
        Ty::Tup(ts) => Dv::Seq(ts.iter().map(|t| gen_value(src, t, big)).collect()),
        Ty::List(t) => {
            let n = if big && src.chance(1, 200) {
                src.choose(&[127usize, 128, 255, 256, 257, 300, 1000])
            } else {
                src.idx(5)
            };
            if n > 10 {
                let v = gen_value(src, t, false);
                let w = gen_value(src, t, false);
                let at = src.idx(n);
                Dv::Seq((0..n).map(|i| if i == at { w.clone() } else { v.clone() }).collect())
            } else {
                Dv::Seq((0..n).map(|_| gen_value(src, t, big)).collect())
            }
        }
        Ty::Struct(s) => Dv::Seq(gen_fields(src, &s.fields, big)),
        Ty::Tag(t) => Dv::Var(src.idx(t.variants.len()), Vec::new()),
        Ty::Enum(e) => {
            let v = src.idx(e.fields.len());
            Dv::Var(v, gen_fields(src, &e.fields[v], big))
        }
    }
}

fn gen_fields(src: &mut Src, fields: &[FieldTy], big: bool) -> Vec<Dv> {
    fields
        .iter()
        .map(|f| match &f.kind {
            FieldKind::Default(d) if src.chance(1, 4) => d.clone(),
            _ => gen_value(src, f.ty, big),
        })
        .collect()
}

/// Does writing and reading this value back give the same value? A defaulted field holding a
/// value that is written as `null` reads back as the default instead.
pub fn round_trips(ty: &Ty, v: &Dv) -> bool {
    fn fields(fs: &[FieldTy], vs: &[Dv]) -> bool {
        fs.iter().zip(vs).all(|(f, v)| {
            let shadowed = match &f.kind {
                FieldKind::Default(d) => encode(f.ty, v) == Node::Null && d != v,
                _ => false,
            };
            !shadowed && round_trips(f.ty, v)
        })
    }
    match (ty, v) {
        (Ty::Opt(t), Dv::Opt(Some(v))) => round_trips(t, v),
        (Ty::Tup(ts), Dv::Seq(vs)) => ts.iter().zip(vs).all(|(t, v)| round_trips(t, v)),
        (Ty::List(t), Dv::Seq(vs)) => vs.iter().all(|v| round_trips(t, v)),
        (Ty::Struct(s), Dv::Seq(vs)) => fields(&s.fields, vs),
        (Ty::Enum(e), Dv::Var(i, vs)) => fields(&e.fields[*i], vs),
        _ => true,
    }
}

/// The JSON document which a value must be written as. Numbers are in some spelling.
pub fn encode(ty: &Ty, v: &Dv) -> Node {
    match (ty, v) {
        (Ty::Bool, Dv::Bool(b)) => Node::Bool(*b),
        (Ty::Int(_) | Ty::NonZero(_), Dv::Int(i)) => Node::Num(i.to_string()),
        (Ty::F32, Dv::F32(b)) => Node::Num(format!("{:e}", f32::from_bits(*b))),
        (Ty::F64, Dv::F64(b)) => Node::Num(format!("{:e}", f64::from_bits(*b))),
        (Ty::Char, Dv::Char(c)) => Node::Str(c.to_string()),
        (Ty::Str, Dv::Str(s)) => Node::Str(s.clone()),
        (Ty::Opt(t), Dv::Opt(o)) => {
            if t.nullable() {
                match o {
                    None => Node::Obj(vec![("has_value".into(), Node::Bool(false))]),
                    Some(v) => Node::Obj(vec![
                        ("has_value".into(), Node::Bool(true)),
                        ("value".into(), encode(t, v)),
                    ]),
                }
            } else {
                match o {
                    None => Node::Null,
                    Some(v) => encode(t, v),
                }
            }
        }
        (Ty::Tup(ts), Dv::Seq(vs)) => Node::Arr(ts.iter().zip(vs).map(|(t, v)| encode(t, v)).collect()),
        (Ty::List(t), Dv::Seq(vs)) => Node::Arr(vs.iter().map(|v| encode(t, v)).collect()),
        (Ty::Struct(_) | Ty::Enum(_), _) => {
            let mut out = Vec::new();
            encode_content(ty, v, &mut out);
            Node::Obj(out)
        }
        (Ty::Tag(t), Dv::Var(i, _)) => Node::Str(t.variants[*i].0.to_string()),
        _ => panic!("value {v:?} is not of type {}", ty.describe()),
    }
}

fn encode_content(ty: &Ty, v: &Dv, out: &mut Vec<(String, Node)>) {
    let (fields, vs) = match (ty, v) {
        (Ty::Struct(s), Dv::Seq(vs)) => (&s.fields, vs),
        (Ty::Enum(e), Dv::Var(i, vs)) => {
            out.push((e.tag.to_string(), Node::Str(e.tags.variants[*i].0.to_string())));
            (&e.fields[*i], vs)
        }
        _ => panic!("value {v:?} is not of struct type {}", ty.describe()),
    };
    for (f, v) in fields.iter().zip(vs) {
        match f.kind {
            FieldKind::Flatten => encode_content(f.ty, v, out),
            _ => out.push((f.name.to_string(), encode(f.ty, v))),
        }
    }
}

/// Does a document mean the same as another, comparing numbers by value (as `f64`, and exactly
/// for integers)?
pub fn same_meaning(a: &Node, b: &Node) -> bool {
    match (a, b) {
        (Node::Num(a), Node::Num(b)) => {
            let (x, y) = (dom::decimal(a), dom::decimal(b));
            x.neg == y.neg && x.digits == y.digits && (x.exp == y.exp || x.digits.is_empty())
        }
        (Node::Arr(a), Node::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_meaning(a, b)),
        (Node::Obj(a), Node::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && same_meaning(&a.1, &b.1))
        }
        _ => a == b,
    }
}

/// Is a written document an encoding of the given value? Floats are compared by the value they
/// denote, everything else exactly.
pub fn is_encoding(ty: &Ty, v: &Dv, doc: &Node) -> bool {
    match (ty, v, doc) {
        (Ty::F32, Dv::F32(b), Node::Num(s)) => dom::float32_oracle(s).to_bits() == *b,
        (Ty::F64, Dv::F64(b), Node::Num(s)) => dom::float64_oracle(s).to_bits() == *b,
        (Ty::Opt(t), Dv::Opt(o), _) => {
            if t.nullable() {
                match (o, doc) {
                    (None, Node::Obj(e)) => e.len() == 1 && e[0] == ("has_value".to_string(), Node::Bool(false)),
                    (Some(v), Node::Obj(e)) => {
                        e.len() == 2
                            && e[0] == ("has_value".to_string(), Node::Bool(true))
                            && e[1].0 == "value"
                            && is_encoding(t, v, &e[1].1)
                    }
                    _ => false,
                }
            } else {
                match o {
                    None => *doc == Node::Null,
                    Some(v) => is_encoding(t, v, doc),
                }
            }
        }
        (Ty::Tup(ts), Dv::Seq(vs), Node::Arr(a)) => {
            a.len() == ts.len() && ts.iter().zip(vs).zip(a).all(|((t, v), n)| is_encoding(t, v, n))
        }
        (Ty::List(t), Dv::Seq(vs), Node::Arr(a)) => {
            a.len() == vs.len() && vs.iter().zip(a).all(|(v, n)| is_encoding(t, v, n))
        }
        (Ty::Struct(_) | Ty::Enum(_), _, Node::Obj(e)) => {
            let mut rest = &e[..];
            is_content(ty, v, &mut rest) && rest.is_empty()
        }
        (Ty::Bool | Ty::Int(_) | Ty::NonZero(_) | Ty::Char | Ty::Str | Ty::Tag(_), _, _) => {
            let e = encode(ty, v);
            match (&e, doc) {
                // Integers must be written plainly
                (Node::Num(a), Node::Num(b)) => a == b,
                (a, b) => a == b,
            }
        }
        _ => false,
    }
}

fn is_content(ty: &Ty, v: &Dv, rest: &mut &[(String, Node)]) -> bool {
    let (fields, vs) = match (ty, v) {
        (Ty::Struct(s), Dv::Seq(vs)) => (&s.fields, vs),
        (Ty::Enum(e), Dv::Var(i, vs)) => {
            match rest.split_first() {
                Some(((k, Node::Str(t)), r)) if k == e.tag && t == e.tags.variants[*i].0 => *rest = r,
                _ => return false,
            }
            (&e.fields[*i], vs)
        }
        _ => return false,
    };
    for (f, v) in fields.iter().zip(vs) {
        match f.kind {
            FieldKind::Flatten => {
                if !is_content(f.ty, v, rest) {
                    return false;
                }
            }
            _ => match rest.split_first() {
                Some(((k, n), r)) if k == f.name && is_encoding(f.ty, v, n) => *rest = r,
                _ => return false,
            },
        }
    }
    true
}

// ------------------------------------------------------------------------------------------------
// Reference deserializer

#[derive(Debug, Clone, PartialEq)]
pub enum ErrKind {
    Expected(Vec<&'static str>),
    NumberOverflow,
    MissingKey(String),
    ExtraKey(String),
    MissingItems,
    ExcessItems,
    Custom,
}

#[derive(Debug, Clone, PartialEq)]
pub struct RefErr {
    pub kind: ErrKind,
    pub pos: usize,
    /// The integer literal may be accepted or rejected; if it is accepted the verdict is open.
    pub open: bool,
}

/// What a value is read from.
#[derive(Clone, Copy)]
enum At<'a> {
    Node(&'a SNode),
    /// A missing entry of the object at the given position.
    Missing(&'a str, usize),
}

fn err<T>(kind: ErrKind, pos: usize) -> Result<T, RefErr> {
    Err(RefErr { kind, pos, open: false })
}

fn expected<T>(at: At, types: &[&'static str]) -> Result<T, RefErr> {
    match at {
        At::Node(n) => err(ErrKind::Expected(types.to_vec()), n.pos),
        At::Missing(k, pos) => err(ErrKind::MissingKey(k.to_string()), pos),
    }
}

/// What reading the document as the given type must give. `Err` with `open` set means the verdict
/// is not specified (a form of integer which may be rejected).
pub fn ref_de(ty: &Ty, node: &SNode) -> Result<Dv, RefErr> {
    de(ty, At::Node(node))
}

fn de_int(t: IntTy, at: At) -> Result<BigI, RefErr> {
    let At::Node(SNode { pos, v: SVal::Num(lit) }) = at else {
        return expected(at, &["number"]);
    };
    match dom::int_oracle(lit, t) {
        (Some(v), true) => Ok(v),
        (Some(_), false) => Err(RefErr { kind: ErrKind::NumberOverflow, pos: *pos, open: true }),
        (None, _) => err(ErrKind::NumberOverflow, *pos),
    }
}

fn de(ty: &Ty, at: At) -> Result<Dv, RefErr> {
    match ty {
        Ty::Bool => match at {
            At::Node(SNode { v: SVal::Bool(b), .. }) => Ok(Dv::Bool(*b)),
            _ => expected(at, &["bool"]),
        },
        Ty::Int(t) => {
            let v = de_int(*t, at)?;
            Ok(Dv::Int(if v.neg { (v.mag as i128).wrapping_neg() } else { v.mag as i128 }))
        }
        Ty::NonZero(t) => {
            let v = de_int(*t, at)?;
            if v.mag == 0 {
                let At::Node(n) = at else { unreachable!() };
                return err(ErrKind::Custom, n.pos);
            }
            Ok(Dv::Int(if v.neg { -(v.mag as i128) } else { v.mag as i128 }))
        }
        Ty::F32 => match at {
            At::Node(SNode { v: SVal::Num(s), .. }) => Ok(Dv::F32(dom::float32_oracle(s).to_bits())),
            _ => expected(at, &["number"]),
        },
        Ty::F64 => match at {
            At::Node(SNode { v: SVal::Num(s), .. }) => Ok(Dv::F64(dom::float64_oracle(s).to_bits())),
            _ => expected(at, &["number"]),
        },
        Ty::Char => match at {
            At::Node(SNode { v: SVal::Str(s), pos }) => {
                let mut it = s.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => Ok(Dv::Char(c)),
                    _ => err(ErrKind::Custom, *pos),
                }
            }
            _ => expected(at, &["string"]),
        },
        Ty::Str => match at {
            At::Node(SNode { v: SVal::Str(s), .. }) => Ok(Dv::Str(s.clone())),
            _ => expected(at, &["string"]),
        },
        Ty::Opt(t) if !t.nullable() => match at {
            At::Missing(..) | At::Node(SNode { v: SVal::Null, .. }) => Ok(Dv::Opt(None)),
            _ => Ok(Dv::Opt(Some(Box::new(de(t, at)?)))),
        },
        Ty::Opt(t) => {
            let mut st = Fields::open(at)?;
            let Dv::Bool(has) = de(&Ty::Bool, st.field("has_value")?)? else { unreachable!() };
            let v = if has {
                let at = st.field("value")?;
                Some(Box::new(de(t, at)?))
            } else {
                None
            };
            st.close()?;
            Ok(Dv::Opt(v))
        }
        Ty::Tup(ts) => {
            let (items, pos) = de_array(at)?;
            let mut out = Vec::new();
            for (i, t) in ts.iter().enumerate() {
                let Some(n) = items.get(i) else {
                    return err(ErrKind::MissingItems, pos);
                };
                out.push(de(t, At::Node(n))?);
            }
            if items.len() > ts.len() {
                return err(ErrKind::ExcessItems, pos);
            }
            Ok(Dv::Seq(out))
        }
        Ty::List(t) => {
            let (items, _) = de_array(at)?;
            let mut out = Vec::new();
            for n in items {
                out.push(de(t, At::Node(n))?);
            }
            Ok(Dv::Seq(out))
        }
        Ty::Struct(_) | Ty::Enum(_) => {
            let mut st = Fields::open(at)?;
            let v = de_content(ty, &mut st)?;
            st.close()?;
            Ok(v)
        }
        Ty::Tag(t) => Ok(Dv::Var(de_tag(t, at)?, Vec::new())),
    }
}

fn de_array(at: At<'_>) -> Result<(&[SNode], usize), RefErr> {
    match at {
        At::Node(SNode { v: SVal::Arr(items), pos }) => Ok((items, *pos)),
        _ => expected(at, &["array"]),
    }
}

fn de_tag(t: &TagTy, at: At) -> Result<usize, RefErr> {
    if let At::Node(SNode { v: SVal::Str(s), pos }) = at {
        return match t.variants.iter().position(|v| v.0 == s) {
            Some(i) => Ok(i),
            None => err(ErrKind::Custom, *pos),
        };
    }
    let v = de_int(IntTy { bits: 64, signed: false }, at)?;
    let At::Node(n) = at else { unreachable!() };
    match t.variants.iter().position(|x| x.1 as u128 == v.mag) {
        Some(i) => Ok(i),
        None => err(ErrKind::Custom, n.pos),
    }
}

struct Fields<'a> {
    pos: usize,
    obj: Option<&'a [(String, SNode)]>,
    arr: &'a [SNode],
    next: usize,
}

impl<'a> Fields<'a> {
    fn open(at: At<'a>) -> Result<Self, RefErr> {
        match at {
            At::Node(SNode { v: SVal::Obj(e), pos }) => Ok(Fields { pos: *pos, obj: Some(e), arr: &[], next: 0 }),
            At::Node(SNode { v: SVal::Arr(a), pos }) => Ok(Fields { pos: *pos, obj: None, arr: a, next: 0 }),
            _ => expected(at, &["object", "array"]),
        }
    }

    fn field(&mut self, name: &'a str) -> Result<At<'a>, RefErr> {
        if let Some(obj) = self.obj {
            Ok(match obj.iter().find(|e| e.0 == name) {
                Some(e) => At::Node(&e.1),
                None => At::Missing(name, self.pos),
            })
        } else {
            let i = self.next;
            self.next += 1;
            match self.arr.get(i) {
                Some(n) => Ok(At::Node(n)),
                None => err(ErrKind::MissingItems, self.pos),
            }
        }
    }

    fn close(self) -> Result<(), RefErr> {
        if self.obj.is_none() && self.next < self.arr.len() {
            return err(ErrKind::ExcessItems, self.pos);
        }
        Ok(())
    }
}

fn de_content<'a>(ty: &'a Ty, st: &mut Fields<'a>) -> Result<Dv, RefErr> {
    match ty {
        Ty::Struct(s) => Ok(Dv::Seq(de_fields(&s.fields, st)?)),
        Ty::Enum(e) => {
            let at = st.field(e.tag)?;
            let i = de_tag(e.tags, at)?;
            Ok(Dv::Var(i, de_fields(&e.fields[i], st)?))
        }
        _ => panic!("cannot inline {}", ty.describe()),
    }
}

fn de_fields<'a>(fields: &'a [FieldTy], st: &mut Fields<'a>) -> Result<Vec<Dv>, RefErr> {
    let mut out = Vec::new();
    for f in fields {
        out.push(match &f.kind {
            FieldKind::Flatten => de_content(f.ty, st)?,
            FieldKind::Plain => {
                let at = st.field(f.name)?;
                de(f.ty, at)?
            }
            FieldKind::Default(d) => {
                let at = st.field(f.name)?;
                match at {
                    At::Missing(..) | At::Node(SNode { v: SVal::Null, .. }) => d.clone(),
                    _ => de(f.ty, at)?,
                }
            }
        });
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Random types

const FIELD_NAMES: &[&str] = &[
    "a", "b", "c", "ab", "abc", "abd", "x", "y", "value", "name", "é", "日本", "a b", "q\"", "w\\",
    "", "has_value", "k0", "k1", "null", "a/b", "\u{1f600}", "line\n", "aa", "aaa", "aab",
];

const TAG_NAMES: &[&str] = &[
    "A", "B", "AB", "ABC", "ABD", "a", "one", "two", "On", "Off", "", "é", "日", "x y", "quo\"te",
    "0", "1", "Variant", "Variants", "\u{1f600}", "b\\", "tab\t",
];

const TYPE_NAMES: &[&str] = &["S", "T", "Point", "Option", "Name"];

pub fn scalar_ty(src: &mut Src) -> &'static Ty {
    let ints: Vec<IntTy> = [8u32, 16, 32, 64]
        .iter()
        .flat_map(|b| [IntTy { bits: *b, signed: false }, IntTy { bits: *b, signed: true }])
        .collect();
    keep(match src.weighted(&[3, 2, 4, 1, 1, 2, 1]) {
        0 => Ty::Int(src.choose(&ints)),
        1 => Ty::Bool,
        2 => Ty::Str,
        3 => Ty::F64,
        4 => Ty::F32,
        5 => Ty::Char,
        _ => Ty::NonZero(src.choose(&ints)),
    })
}

/// More names than enums usually have, some of them long.
fn many_names() -> &'static [String] {
    static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| {
        (0..300).map(|i| if i % 7 == 0 { format!("{}{i}", "long_".repeat(60)) } else { format!("v{}", i * 37 % 300) }).collect()
    })
}

pub fn gen_tags(src: &mut Src) -> &'static TagTy {
    if src.chance(1, 60) {
        let n = src.choose(&[40usize, 129, 300]);
        let (from, step) = (src.idx(300), src.choose(&[1usize, 7, 299]));
        let gap = src.choose(&[1usize, 1, 2, 300]);
        let variants: Vec<(&'static str, usize)> =
            (0..n).map(|i| (many_names()[(from + i * step) % 300].as_str(), i * gap)).collect();
        let names = kept_name_map(&variants);
        return keep(TagTy { variants, names });
    }
    let n = src.range(1, 8);
    let mut variants: Vec<(&'static str, usize)> = Vec::new();
    let mut index = 0;
    for _ in 0..n {
        let name = TAG_NAMES[src.idx(TAG_NAMES.len())];
        if src.chance(1, 5) {
            index = src.choose(&[1usize, 3, 7, 10, 100, 255, 256, 1000, 65536, 5_000_000_000]);
        }
        if variants.iter().any(|v| v.0 == name || v.1 == index) {
            index += 1;
            continue;
        }
        variants.push((name, index));
        index += 1;
    }
    let names = kept_name_map(&variants);
    keep(TagTy { variants, names })
}

/// A random type.
pub fn gen_ty(src: &mut Src, depth: usize) -> &'static Ty {
    if depth == 0 {
        return if src.chance(1, 6) { keep(Ty::Tag(gen_tags(src))) } else { scalar_ty(src) };
    }
    match src.weighted(&[3, 2, 2, 2, 6, 1, 2]) {
        0 => scalar_ty(src),
        1 => keep(Ty::Opt(gen_ty(src, depth - 1))),
        2 => keep(Ty::List(gen_ty(src, depth - 1))),
        3 => {
            let n = src.idx(5);
            keep(Ty::Tup((0..n).map(|_| gen_ty(src, depth - 1)).collect()))
        }
        4 => gen_struct_like(src, depth, &mut Vec::new()),
        5 => keep(Ty::Tag(gen_tags(src))),
        _ => gen_struct_like(src, depth, &mut Vec::new()),
    }
}

/// A random struct or data-carrying enum, whose field names avoid (and extend) `used`.
pub fn gen_struct_like(src: &mut Src, depth: usize, used: &mut Vec<&'static str>) -> &'static Ty {
    if src.chance(1, 3) {
        let tags = gen_tags(src);
        let tag = match fresh(src, &["type", "kind", "tag", "t", "value"], used) {
            Some(t) => t,
            None => return keep(Ty::Struct(keep(StructTy { name: Some("S"), fields: Vec::new() }))),
        };
        let before = used.clone();
        let mut fields = Vec::new();
        let mut all = used.clone();
        for _ in 0..tags.variants.len() {
            // Different variants may share names
            let mut u = before.clone();
            fields.push(gen_fields_ty(src, depth - 1, &mut u, 4));
            for n in u {
                if !all.contains(&n) {
                    all.push(n);
                }
            }
        }
        *used = all;
        keep(Ty::Enum(keep(EnumTy { name: TYPE_NAMES[src.idx(TYPE_NAMES.len())], tag, tags, fields })))
    } else {
        let max = if src.chance(1, 40) { 24 } else { 6 };
        let fields = gen_fields_ty(src, depth - 1, used, max);
        let name = if src.chance(1, 8) { None } else { Some(TYPE_NAMES[src.idx(TYPE_NAMES.len())]) };
        keep(Ty::Struct(keep(StructTy { name, fields })))
    }
}

fn fresh(src: &mut Src, pool: &[&'static str], used: &mut Vec<&'static str>) -> Option<&'static str> {
    let start = src.idx(pool.len());
    for i in 0..pool.len() {
        let n = pool[(start + i) % pool.len()];
        if !used.contains(&n) {
            used.push(n);
            return Some(n);
        }
    }
    None
}

fn gen_fields_ty(src: &mut Src, depth: usize, used: &mut Vec<&'static str>, max: usize) -> Vec<FieldTy> {
    let mut out = Vec::new();
    let n = src.idx(max + 1);
    for _ in 0..n {
        if depth > 0 && src.chance(1, 8) {
            let ty = gen_struct_like(src, depth, used);
            out.push(FieldTy { name: "", ty, kind: FieldKind::Flatten });
            continue;
        }
        let Some(name) = fresh(src, FIELD_NAMES, used) else { break };
        let ty = gen_ty(src, depth);
        let kind = if src.chance(1, 5) {
            FieldKind::Default(gen_value(src, ty, false))
        } else {
            FieldKind::Plain
        };
        out.push(FieldTy { name, ty, kind });
    }
    out
}

// ------------------------------------------------------------------------------------------------
// Documents for a type

/// What a document generated for a type contains.
#[derive(Default, Debug)]
pub struct DocInfo {
    pub reordered: bool,
    pub extra: bool,
    pub missing: bool,
    pub null: bool,
    pub positional: bool,
    pub by_index: bool,
    pub mutated: bool,
}

#[derive(Clone, Copy)]
pub struct DocOpts {
    /// Allow changes which usually make the document not fit the type.
    pub break_it: bool,
    pub big: bool,
}

/// A document meant to be read as the given type: usually one which fits it.
pub fn gen_doc(src: &mut Src, ty: &Ty, o: DocOpts, info: &mut DocInfo) -> Node {
    if o.break_it && src.chance(1, 25) {
        info.mutated = true;
        return dom::gen_node(src, dom::GenOpts { depth: 2, distinct_keys: true, big: false });
    }
    match ty {
        Ty::Bool => Node::Bool(src.chance(1, 2)),
        Ty::Int(t) => gen_int_doc(src, *t, o, info),
        Ty::NonZero(t) => {
            if o.break_it && src.chance(1, 8) {
                info.mutated = true;
                return Node::Num("0".into());
            }
            match gen_int_doc(src, *t, o, info) {
                Node::Num(s) if dom::decimal(&s).digits.is_empty() => Node::Num("1".into()),
                n => n,
            }
        }
        Ty::F32 | Ty::F64 => Node::Num(dom::gen_number(src)),
        Ty::Char => {
            if o.break_it && src.chance(1, 8) {
                info.mutated = true;
                return Node::Str(dom::gen_string(src, false));
            }
            Node::Str(dom::gen_char(src).to_string())
        }
        Ty::Str => Node::Str(dom::gen_string(src, o.big)),
        Ty::Opt(t) if !t.nullable() => {
            if src.chance(1, 3) {
                info.null = true;
                Node::Null
            } else {
                gen_doc(src, t, o, info)
            }
        }
        Ty::Opt(t) => {
            let has = src.chance(1, 2);
            let mut parts = vec![("has_value".to_string(), Node::Bool(has), false)];
            if has {
                parts.push(("value".to_string(), gen_doc(src, t, o, info), t.nullable()));
            }
            assemble(src, parts, o, info)
        }
        Ty::Tup(ts) => {
            let mut v: Vec<Node> = ts.iter().map(|t| gen_doc(src, t, o, info)).collect();
            break_array(src, &mut v, o, info);
            Node::Arr(v)
        }
        Ty::List(t) => {
            let n = if o.big && src.chance(1, 200) { src.choose(&[127usize, 256, 257, 600]) } else { src.idx(5) };
            if n > 10 {
                let v = gen_doc(src, t, DocOpts { big: false, ..o }, info);
                let w = gen_doc(src, t, DocOpts { big: false, ..o }, info);
                let at = src.idx(n);
                Node::Arr((0..n).map(|i| if i == at { w.clone() } else { v.clone() }).collect())
            } else {
                Node::Arr((0..n).map(|_| gen_doc(src, t, o, info)).collect())
            }
        }
        Ty::Struct(_) | Ty::Enum(_) => {
            let mut parts = Vec::new();
            gen_content(src, ty, o, info, &mut parts);
            assemble(src, parts, o, info)
        }
        Ty::Tag(t) => gen_tag_doc(src, t, o, info),
    }
}

fn gen_int_doc(src: &mut Src, t: IntTy, o: DocOpts, info: &mut DocInfo) -> Node {
    if o.break_it && src.chance(1, 10) {
        info.mutated = true;
        return Node::Num(dom::gen_number(src));
    }
    let v = gen_int(src, t);
    if src.chance(1, 12) {
        return Node::Num(spell_int(src, v));
    }
    Node::Num(v.to_string())
}

/// Some way to write an integer with a fraction or an exponent.
pub fn spell_int(src: &mut Src, v: i128) -> String {
    let s = v.to_string();
    match src.idx(4) {
        0 => format!("{s}.0"),
        1 => format!("{s}e0"),
        2 if v != 0 => format!("{s}0e-1"),
        _ => {
            let (sign, digits) = match s.strip_prefix('-') {
                Some(d) => ("-", d),
                None => ("", &s[..]),
            };
            let t = digits.trim_end_matches('0');
            if t.is_empty() {
                "0E+2".into()
            } else {
                format!("{sign}{t}E+{}", digits.len() - t.len())
            }
        }
    }
}

fn gen_tag_doc(src: &mut Src, t: &TagTy, o: DocOpts, info: &mut DocInfo) -> Node {
    let v = &t.variants[src.idx(t.variants.len())];
    if o.break_it && src.chance(1, 6) {
        info.mutated = true;
        return match src.idx(7) {
            0 => Node::Str(dom::gen_string(src, false)),
            1 => {
                let mut s = v.0.to_string();
                s.pop();
                Node::Str(s)
            }
            2 => Node::Str(format!("{}{}", v.0, src.pick(&["a", "A", " ", "C", "\0"]))),
            3 => Node::Num((t.max() as u128 + 1).to_string()),
            4 => Node::Num(src.pick(&["-1", "18446744073709551615", "18446744073709551616", "4294967296", "256", "0.5", "2", "-0"]).to_string()),
            5 => Node::Num(src.below((t.max() as u64).saturating_add(1)).to_string()),
            _ => Node::Str(v.1.to_string()),
        };
    }
    if src.chance(1, 3) {
        info.by_index = true;
        if src.chance(1, 10) {
            return Node::Num(spell_int(src, v.1 as i128));
        }
        Node::Num(v.1.to_string())
    } else {
        Node::Str(v.0.to_string())
    }
}

/// `(name, value, may be left out)` for every field, in order.
fn gen_content(src: &mut Src, ty: &Ty, o: DocOpts, info: &mut DocInfo, parts: &mut Vec<(String, Node, bool)>) {
    let fields = match ty {
        Ty::Struct(s) => &s.fields,
        Ty::Enum(e) => {
            let tag = gen_tag_doc(src, e.tags, o, info);
            let i = match &tag {
                Node::Str(s) => e.tags.variants.iter().position(|v| v.0 == s),
                Node::Num(n) => {
                    let (v, _) = dom::int_oracle(n, IntTy { bits: 64, signed: false });
                    v.and_then(|v| e.tags.variants.iter().position(|x| x.1 as u128 == v.mag))
                }
                _ => None,
            };
            parts.push((e.tag.to_string(), tag, false));
            &e.fields[i.unwrap_or(0)]
        }
        _ => panic!(),
    };
    for f in fields {
        match &f.kind {
            FieldKind::Flatten => gen_content(src, f.ty, o, info, parts),
            FieldKind::Plain => {
                let optional = matches!(f.ty, Ty::Opt(t) if !t.nullable());
                parts.push((f.name.to_string(), gen_doc(src, f.ty, o, info), optional));
            }
            FieldKind::Default(_) => {
                let v = if src.chance(1, 4) {
                    info.null = true;
                    Node::Null
                } else {
                    gen_doc(src, f.ty, o, info)
                };
                parts.push((f.name.to_string(), v, true));
            }
        }
    }
}

fn assemble(src: &mut Src, parts: Vec<(String, Node, bool)>, o: DocOpts, info: &mut DocInfo) -> Node {
    if src.chance(1, 5) {
        info.positional = true;
        let mut v: Vec<Node> = parts.into_iter().map(|p| p.1).collect();
        break_array(src, &mut v, o, info);
        return Node::Arr(v);
    }
    let order = src.permutation(parts.len());
    if order.windows(2).any(|w| w[0] > w[1]) {
        info.reordered = true;
    }
    let names: Vec<String> = parts.iter().map(|p| p.0.clone()).collect();
    let mut out: Vec<(String, Node)> = Vec::new();
    let extra = |src: &mut Src, out: &mut Vec<(String, Node)>, info: &mut DocInfo| {
        let n = if src.chance(1, 400) { src.choose(&[40usize, 130, 260]) } else { src.weighted(&[8, 3, 1]) };
        for i in 0..n {
            let mut key = match src.idx(3) {
                0 if !names.is_empty() => {
                    // Something close to a real name
                    let base = &names[src.idx(names.len())];
                    let mut k = base.clone();
                    match src.idx(4) {
                        0 => {
                            k.pop();
                        }
                        1 => k.push('x'),
                        2 => k = k.to_uppercase(),
                        _ => k.insert(0, ' '),
                    }
                    k
                }
                1 => format!("extra{i}"),
                _ => dom::gen_key(src),
            };
            if n > 10 {
                key = format!("extra{i}");
            }
            if names.contains(&key) || out.iter().any(|e| e.0 == key) {
                continue;
            }
            info.extra = true;
            let depth = if n > 10 { 0 } else { 2 };
            let distinct_keys = !src.chance(1, 12);
            let v = dom::gen_node(src, dom::GenOpts { depth, distinct_keys, big: o.big });
            out.push((key, v));
        }
    };
    for i in order {
        extra(src, &mut out, info);
        let (name, value, optional) = &parts[i];
        if *optional && src.chance(1, 4) || o.break_it && src.chance(1, 40) {
            info.missing = true;
            continue;
        }
        out.push((name.clone(), value.clone()));
    }
    extra(src, &mut out, info);
    Node::Obj(out)
}

fn break_array(src: &mut Src, v: &mut Vec<Node>, o: DocOpts, info: &mut DocInfo) {
    if o.break_it && src.chance(1, 12) {
        info.mutated = true;
        if src.chance(1, 2) && !v.is_empty() {
            v.pop();
        } else {
            for _ in 0..src.range(1, 3) {
                let n = dom::gen_node(src, dom::GenOpts { depth: 1, distinct_keys: false, big: false });
                v.push(n);
            }
        }
    }
}
