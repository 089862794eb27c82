//! Concrete Rust types, with the shape each one must have.

use std::cell::RefCell;
use std::collections::HashMap;
use crate::dom::IntTy;
use crate::dynamic;
use crate::format::{TokDe, TokErr, TokSer};
use crate::io::{AnyWriter, WErr};
use crate::model::{leak, name_map, Dv, EnumTy, FieldKind, FieldTy, StructTy, TagTy, Ty};
use crate::text::{DErr, De, Ser};
use serdere::{Deserialize, Deserializer, Serialize, Serializer, Value};
use std::num::*;
use std::sync::OnceLock;

pub trait Model: Sized {
    fn ty() -> &'static Ty;
    fn to_dv(&self) -> Dv;
    fn from_dv(v: &Dv) -> Self;
}

macro_rules! model_int {
    ($($t:ty, $bits:literal, $signed:literal, $nz:ty;)*) => {$(
        impl Model for $t {
            fn ty() -> &'static Ty { leak(Ty::Int(IntTy { bits: $bits, signed: $signed })) }
            fn to_dv(&self) -> Dv { Dv::Int(*self as i128) }
            fn from_dv(v: &Dv) -> Self { match v { Dv::Int(i) => (*i).try_into().unwrap(), _ => panic!() } }
        }
        impl Model for $nz {
            fn ty() -> &'static Ty { leak(Ty::NonZero(IntTy { bits: $bits, signed: $signed })) }
            fn to_dv(&self) -> Dv { Dv::Int(self.get() as i128) }
            fn from_dv(v: &Dv) -> Self { match v { Dv::Int(i) => <$nz>::new((*i).try_into().unwrap()).unwrap(), _ => panic!() } }
        }
    )*};
}

model_int! {
    u8, 8, false, NonZeroU8;
    u16, 16, false, NonZeroU16;
    u32, 32, false, NonZeroU32;
    u64, 64, false, NonZeroU64;
    i8, 8, true, NonZeroI8;
    i16, 16, true, NonZeroI16;
    i32, 32, true, NonZeroI32;
    i64, 64, true, NonZeroI64;
}

macro_rules! model_simple {
    ($($t:ty, $ty:expr, $pat:pat => $e:expr, $s:ident => $d:expr;)*) => {$(
        impl Model for $t {
            fn ty() -> &'static Ty { leak($ty) }
            fn to_dv(&self) -> Dv { let $s = self; $d }
            fn from_dv(v: &Dv) -> Self { match v { $pat => $e, _ => panic!("{v:?}") } }
        }
    )*};
}

model_simple! {
    bool, Ty::Bool, Dv::Bool(b) => *b, s => Dv::Bool(*s);
    f32, Ty::F32, Dv::F32(b) => f32::from_bits(*b), s => Dv::F32(s.to_bits());
    f64, Ty::F64, Dv::F64(b) => f64::from_bits(*b), s => Dv::F64(s.to_bits());
    char, Ty::Char, Dv::Char(c) => *c, s => Dv::Char(*s);
    String, Ty::Str, Dv::Str(t) => t.clone(), s => Dv::Str(dynamic::checked(s.clone()));
    (), Ty::Struct(leak(StructTy { name: None, fields: vec![] })), Dv::Seq(_) => (), _s => Dv::Seq(vec![]);
}

impl<T: Model> Model for Option<T> {
    fn ty() -> &'static Ty {
        leak(Ty::Opt(T::ty()))
    }
    fn to_dv(&self) -> Dv {
        Dv::Opt(self.as_ref().map(|x| Box::new(x.to_dv())))
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Opt(o) => o.as_ref().map(|x| T::from_dv(x)),
            _ => panic!(),
        }
    }
}

impl<T: Model> Model for Vec<T> {
    fn ty() -> &'static Ty {
        leak(Ty::List(T::ty()))
    }
    fn to_dv(&self) -> Dv {
        Dv::Seq(self.iter().map(T::to_dv).collect())
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Seq(o) => o.iter().map(T::from_dv).collect(),
            _ => panic!(),
        }
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn ty() -> &'static Ty {
        leak(Ty::Tup((0..N).map(|_| T::ty()).collect()))
    }
    fn to_dv(&self) -> Dv {
        Dv::Seq(self.iter().map(T::to_dv).collect())
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Seq(o) => std::array::from_fn(|i| T::from_dv(&o[i])),
            _ => panic!(),
        }
    }
}

impl<A: Model, B: Model> Model for (A, B) {
    fn ty() -> &'static Ty {
        leak(Ty::Tup(vec![A::ty(), B::ty()]))
    }
    fn to_dv(&self) -> Dv {
        Dv::Seq(vec![self.0.to_dv(), self.1.to_dv()])
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Seq(o) => (A::from_dv(&o[0]), B::from_dv(&o[1])),
            _ => panic!(),
        }
    }
}

impl<A: Model, B: Model, C: Model> Model for (A, B, C) {
    fn ty() -> &'static Ty {
        leak(Ty::Tup(vec![A::ty(), B::ty(), C::ty()]))
    }
    fn to_dv(&self) -> Dv {
        Dv::Seq(vec![self.0.to_dv(), self.1.to_dv(), self.2.to_dv()])
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Seq(o) => (A::from_dv(&o[0]), B::from_dv(&o[1]), C::from_dv(&o[2])),
            _ => panic!(),
        }
    }
}

pub fn field<T: Model>(name: &'static str) -> FieldTy {
    FieldTy { name, ty: T::ty(), kind: FieldKind::Plain }
}

pub fn field_default<T: Model + Default>(name: &'static str) -> FieldTy {
    FieldTy { name, ty: T::ty(), kind: FieldKind::Default(T::default().to_dv()) }
}

pub fn field_flat<T: Model>() -> FieldTy {
    FieldTy { name: "", ty: T::ty(), kind: FieldKind::Flatten }
}

pub fn struct_ty(name: &'static str, fields: Vec<FieldTy>) -> &'static Ty {
    leak(Ty::Struct(leak(StructTy { name: Some(name), fields })))
}

pub fn tag_ty(variants: Vec<(&'static str, usize)>) -> &'static TagTy {
    let names = name_map(&variants);
    leak(TagTy { variants, names })
}

pub fn enum_ty(
    name: &'static str,
    tag: &'static str,
    variants: Vec<(&'static str, usize, Vec<FieldTy>)>,
) -> &'static Ty {
    let mut fields = Vec::new();
    let mut tags = Vec::new();
    for (n, i, f) in variants {
        tags.push((n, i));
        fields.push(f);
    }
    leak(Ty::Enum(leak(EnumTy { name, tag, tags: tag_ty(tags), fields })))
}

/// What is read as one type and held as another.
#[derive(Clone, Debug)]
pub struct Px<P>(pub P);

impl<P> From<P> for Px<P> {
    fn from(p: P) -> Self {
        Px(p)
    }
}

/// Not the default of what it holds.
impl<P: Model> Default for Px<P> {
    fn default() -> Self {
        // Making the type takes memory which is never freed
        thread_local!(static MADE: RefCell<HashMap<&'static str, Dv>> = RefCell::default());
        MADE.with(|made| {
            let mut made = made.borrow_mut();
            let v = made.entry(std::any::type_name::<P>()).or_insert_with(|| {
                let mut src = crate::engine::Src::random(99);
                crate::model::gen_value(&mut src, P::ty(), false)
            });
            Px(P::from_dv(v))
        })
    }
}

impl<P: Model> Model for Px<P> {
    fn ty() -> &'static Ty {
        P::ty()
    }
    fn to_dv(&self) -> Dv {
        self.0.to_dv()
    }
    fn from_dv(v: &Dv) -> Self {
        Px(P::from_dv(v))
    }
}

/// Is as if it borrowed something.
#[derive(Clone, Debug, Default)]
pub struct Held<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);

impl<T: Model> Model for Held<'_, T> {
    fn ty() -> &'static Ty {
        T::ty()
    }
    fn to_dv(&self) -> Dv {
        self.0.to_dv()
    }
    fn from_dv(v: &Dv) -> Self {
        Held(T::from_dv(v), std::marker::PhantomData)
    }
}

impl<S: Serializer + ?Sized, C: ?Sized, T: Serialize<S, C>> Serialize<S, C> for Held<'_, T> {
    const NULLABLE: bool = T::NULLABLE;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        self.0.serialize(value, ctx)
    }
}

impl<D: Deserializer + ?Sized, C: ?Sized, T: Deserialize<D, C>> Deserialize<D, C> for Held<'_, T> {
    const NULLABLE: bool = T::NULLABLE;
    fn deserialize(value: Value<D>, ctx: &mut C) -> Result<Self, D::Error> {
        T::deserialize(value, ctx).map(|t| Held(t, std::marker::PhantomData))
    }
}

#[cfg(feature = "derived")]
mod derived;

// ------------------------------------------------------------------------------------------------
// Registry

pub struct Entry {
    pub name: &'static str,
    pub ty: &'static Ty,
    pub ser: fn(&Dv, Value<Ser>) -> Result<(), WErr>,
    pub de: for<'a, 'b> fn(Value<'b, De<'a>>) -> Result<Dv, DErr<'a>>,
    pub tok_ser: fn(&Dv, Value<TokSer>) -> Result<(), TokErr>,
    pub tok_de: fn(Value<TokDe>) -> Result<Dv, TokErr>,
    pub to_writer: fn(&Dv, AnyWriter) -> Result<(), WErr>,
    pub strs: Option<Strs>,
}

/// The convenience functions for strings.
#[derive(Clone, Copy)]
pub struct Strs {
    pub to_str: fn(&Dv) -> String,
    pub from_str: fn(&str) -> Result<Dv, String>,
    pub to_bytes: fn(&Dv) -> Vec<u8>,
    /// Reads bytes which arrive as planned.
    pub from_bytes: fn(&[u8], u64) -> Result<Dv, String>,
}

fn ser_json<T: Model + Serialize<Ser>>(v: &Dv, value: Value<Ser>) -> Result<(), WErr> {
    T::from_dv(v).serialize(value, &mut ())
}

fn de_json<'a, 'b, T: Model + Deserialize<De<'a>>>(value: Value<'b, De<'a>>) -> Result<Dv, DErr<'a>> {
    T::deserialize(value, &mut ()).map(|t| t.to_dv())
}

fn ser_tok<T: Model + Serialize<TokSer>>(v: &Dv, value: Value<TokSer>) -> Result<(), TokErr> {
    T::from_dv(v).serialize(value, &mut ())
}

fn de_tok<T: Model + Deserialize<TokDe>>(value: Value<TokDe>) -> Result<Dv, TokErr> {
    T::deserialize(value, &mut ()).map(|t| t.to_dv())
}

fn to_str<T: Model + for<'a> Serialize<serdere_json::TextSerializer<&'a mut String>>>(v: &Dv) -> String {
    serdere_json::to_str(&T::from_dv(v))
}

fn from_str<T: Model + for<'a> Deserialize<serdere_json::TextDeserializer<&'a str>>>(s: &str) -> Result<Dv, String> {
    serdere_json::from_str::<T>(s).map(|t| t.to_dv()).map_err(|e| e.to_string())
}

fn to_bytes<T: Model>(v: &Dv) -> Vec<u8>
where
    for<'a> T: Serialize<serdere_json::TextSerializer<&'a mut serdere::Utf8Writer<Vec<u8>>>>,
{
    let mut w = serdere::Utf8Writer::new(Vec::new());
    serdere_json::to_writer(&mut w, &T::from_dv(v)).expect("writing to memory");
    w.into_inner()
}

type Bytes = serdere::Utf8Reader<crate::io::ChunkRead>;

fn from_bytes<T: Model + Deserialize<serdere_json::TextDeserializer<Bytes>>>(s: &[u8], plan: u64) -> Result<Dv, String> {
    let r = serdere::Utf8Reader::new(crate::io::ChunkRead::new(s, plan)).map_err(|e| e.to_string())?;
    serdere_json::from_reader::<_, T>(r).map(|t| t.to_dv()).map_err(|e| e.to_string())
}

#[macro_export]
macro_rules! registry {
    ($($t:ty $(, $strs:ident)?;)*) => {
        vec![$($crate::catalog::Entry {
            name: stringify!($t),
            ty: <$t as $crate::catalog::Model>::ty(),
            ser: $crate::catalog::fns::ser_json::<$t>,
            de: |v| $crate::catalog::fns::de_json::<$t>(v),
            tok_ser: $crate::catalog::fns::ser_tok::<$t>,
            tok_de: $crate::catalog::fns::de_tok::<$t>,
            to_writer: $crate::catalog::fns::to_writer::<$t>,
            strs: $crate::registry!(@strs $t $(, $strs)?),
        }),*]
    };
    (@strs $t:ty, strs) => {
        Some($crate::catalog::Strs {
            to_str: $crate::catalog::fns::to_str::<$t>,
            from_str: $crate::catalog::fns::from_str::<$t>,
            to_bytes: $crate::catalog::fns::to_bytes::<$t>,
            from_bytes: $crate::catalog::fns::from_bytes::<$t>,
        })
    };
    (@strs $t:ty) => { None };
}

/// What [`registry`] refers to.
pub mod fns {
    use super::*;
    pub fn ser_json<T: Model + Serialize<Ser>>(v: &Dv, value: Value<Ser>) -> Result<(), WErr> {
        super::ser_json::<T>(v, value)
    }
    pub fn de_json<'a, 'b, T: Model + Deserialize<De<'a>>>(value: Value<'b, De<'a>>) -> Result<Dv, DErr<'a>> {
        super::de_json::<T>(value)
    }
    pub fn ser_tok<T: Model + Serialize<TokSer>>(v: &Dv, value: Value<TokSer>) -> Result<(), TokErr> {
        super::ser_tok::<T>(v, value)
    }
    pub fn de_tok<T: Model + Deserialize<TokDe>>(value: Value<TokDe>) -> Result<Dv, TokErr> {
        super::de_tok::<T>(value)
    }
    pub fn to_writer<T: Model + Serialize<Ser>>(v: &Dv, w: AnyWriter) -> Result<(), WErr> {
        serdere_json::to_writer(w, &T::from_dv(v))
    }
    pub fn to_str<T: Model + for<'a> Serialize<serdere_json::TextSerializer<&'a mut String>>>(v: &Dv) -> String {
        super::to_str::<T>(v)
    }
    pub fn from_str<T: Model + for<'a> Deserialize<serdere_json::TextDeserializer<&'a str>>>(
        s: &str,
    ) -> Result<Dv, String> {
        super::from_str::<T>(s)
    }
    pub fn to_bytes<T: Model>(v: &Dv) -> Vec<u8>
    where
        for<'a> T: Serialize<serdere_json::TextSerializer<&'a mut serdere::Utf8Writer<Vec<u8>>>>,
    {
        super::to_bytes::<T>(v)
    }
    pub fn from_bytes<T: Model + Deserialize<serdere_json::TextDeserializer<super::Bytes>>>(
        s: &[u8],
        plan: u64,
    ) -> Result<Dv, String> {
        super::from_bytes::<T>(s, plan)
    }
}

pub fn all() -> &'static [Entry] {
    static ALL: OnceLock<Vec<Entry>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = registry! {
            bool; u8; u16; u32; u64; i8; i16; i32; i64; f32; f64, strs; char; String, strs; ();
            NonZeroU8; NonZeroU16; NonZeroU32; NonZeroU64; NonZeroI8; NonZeroI16; NonZeroI32; NonZeroI64;
            Option<u8>, strs; Option<String>; Option<Option<i16>>, strs; Option<Option<Option<bool>>>; Option<()>;
            Vec<u8>; Vec<String>; Vec<Vec<i64>>, strs; Vec<Option<u8>>; Option<Vec<char>>; Vec<Option<Option<char>>>;
            (u8, String), strs; (Option<u8>, Option<Option<u8>>); (i64, bool, char); ((u8, u8), [char; 2], Vec<(f32, ())>), strs;
            (Option<bool>, Option<u16>, Option<u32>), strs; (Option<u64>, Option<i8>, Option<i32>);
            (Option<i64>, Option<f32>, Option<f64>); (Option<char>, Option<NonZeroU8>, Option<NonZeroU16>);
            (Option<NonZeroU32>, Option<NonZeroU64>, Option<NonZeroI8>); (Option<NonZeroI16>, Option<NonZeroI32>, Option<NonZeroI64>);
            (Option<(u8, u8)>, Option<(u8, (), bool)>, Option<[bool; 2]>), strs;
            (Option<[Option<u8>; 2]>, Option<(Option<bool>, Option<()>)>, Option<Vec<Option<u8>>>), strs;
            Option<(Option<u8>, (), Option<char>)>; (Option<[(); 2]>, [Option<Option<u8>>; 1]); [Option<[Option<()>; 1]>; 2];
            [u8; 0]; [String; 1]; [Option<u32>; 2]; [[i8; 2]; 3]; [u64; 20];
        };
        #[cfg(feature = "derived")]
        v.extend(derived::all());
        #[cfg(not(feature = "derived"))]
        v.shrink_to_fit();
        v
    })
}

/// A type that values are read and written as: one in the catalogue, or one described at run time.
#[derive(Clone, Copy)]
pub enum Target {
    Static(&'static Entry),
    Dynamic(&'static Ty),
}

impl Target {
    pub fn ty(&self) -> &'static Ty {
        match self {
            Target::Static(e) => e.ty,
            Target::Dynamic(t) => t,
        }
    }

    pub fn describe(&self) -> String {
        match self {
            Target::Static(e) => e.name.to_string(),
            Target::Dynamic(t) => t.describe(),
        }
    }

    pub fn ser(&self, v: &Dv, value: Value<Ser>) -> Result<(), WErr> {
        match self {
            Target::Static(e) => (e.ser)(v, value),
            Target::Dynamic(t) => dynamic::ser(t, v, value, &mut ()),
        }
    }

    pub fn de<'a>(&self, value: Value<'_, De<'a>>) -> Result<Dv, DErr<'a>> {
        match self {
            Target::Static(e) => (e.de)(value),
            Target::Dynamic(t) => dynamic::de(t, value, &mut dynamic::TyCtx::default()),
        }
    }

    pub fn tok_ser(&self, v: &Dv, value: Value<TokSer>) -> Result<(), TokErr> {
        match self {
            Target::Static(e) => (e.tok_ser)(v, value),
            Target::Dynamic(t) => dynamic::ser(t, v, value, &mut ()),
        }
    }

    pub fn tok_de(&self, value: Value<TokDe>) -> Result<Dv, TokErr> {
        match self {
            Target::Static(e) => (e.tok_de)(value),
            Target::Dynamic(t) => dynamic::de(t, value, &mut dynamic::TyCtx::default()),
        }
    }
}

/// Some type, from the catalogue or random.
pub fn gen_target(src: &mut crate::engine::Src) -> Target {
    let all = all();
    if src.chance(1, 2) {
        Target::Dynamic(crate::model::gen_ty(src, 3))
    } else {
        Target::Static(&all[src.idx(all.len())])
    }
}

/// Some struct, enum or tag type.
pub fn gen_named_target(src: &mut crate::engine::Src) -> Target {
    let named: Vec<&Entry> = all().iter().filter(|e| matches!(e.ty, Ty::Struct(_) | Ty::Enum(_))).collect();
    if src.chance(1, 2) || named.is_empty() {
        Target::Dynamic(crate::model::gen_struct_like(src, 3, &mut Vec::new()))
    } else {
        Target::Static(named[src.idx(named.len())])
    }
}
