//! Reads and writes a value of a type that is only known at run time, using the implementations
//! of the crate under test for options, lists, tuples, arrays, numbers and so on. The types of
//! nested values are passed through the caller's context.

use crate::model::{Dv, EnumTy, FieldKind, FieldTy, TagTy, Ty};
use serdere::deserialize::{deserialize_struct, DeserializeStruct};
use serdere::serialize::{serialize_struct, SerializeStruct};
use serdere::{Deserialize, Deserializer, Serialize, Serializer, Struct, Value};
use std::num::*;

enum Pending {
    Once(&'static Ty),
    Repeat(&'static Ty),
}

/// The types of the values which come next.
#[derive(Default)]
pub struct TyCtx(Vec<Pending>);

impl TyCtx {
    fn take(&mut self) -> &'static Ty {
        match self.0.last() {
            Some(Pending::Repeat(t)) => t,
            Some(Pending::Once(t)) => {
                let t = *t;
                self.0.pop();
                t
            }
            None => crate::engine::protocol_broken("the context was not passed along: more values were read than expected"),
        }
    }

    fn scoped<R, E>(&mut self, mut next: Vec<Pending>, f: impl FnOnce(&mut TyCtx) -> Result<R, E>) -> Result<R, E> {
        let n = self.0.len();
        next.reverse();
        self.0.append(&mut next);
        let r = f(self);
        self.0.truncate(n);
        r
    }
}

/// A value of the next type in the context. The first is declared as not being nullable, the
/// second as being nullable.
pub struct P(pub Dv);
pub struct N(pub Dv);

impl<D: Deserializer + ?Sized> Deserialize<D, TyCtx> for P {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, ctx: &mut TyCtx) -> Result<Self, D::Error> {
        let ty = ctx.take();
        de(ty, value, ctx).map(P)
    }
}

impl<D: Deserializer + ?Sized> Deserialize<D, TyCtx> for N {
    const NULLABLE: bool = true;
    fn deserialize(value: Value<D>, ctx: &mut TyCtx) -> Result<Self, D::Error> {
        let ty = ctx.take();
        de(ty, value, ctx).map(N)
    }
}

impl<D: Deserializer + ?Sized> DeserializeStruct<D, TyCtx> for P {
    fn deserialize_content(st: &mut Struct<D>, ctx: &mut TyCtx) -> Result<Self, D::Error> {
        match ctx.take() {
            Ty::Struct(s) => Ok(P(Dv::Seq(de_fields(&s.fields, st, ctx)?))),
            Ty::Enum(e) => {
                let i = de_tag(e.tags, st.field(e.tag)?)?;
                Ok(P(Dv::Var(i, de_fields(&e.fields[i], st, ctx)?)))
            }
            t => panic!("{} is not a struct", t.describe()),
        }
    }
}

fn de_fields<D: Deserializer + ?Sized>(
    fields: &'static [FieldTy],
    st: &mut Struct<D>,
    ctx: &mut TyCtx,
) -> Result<Vec<Dv>, D::Error> {
    let mut out = Vec::new();
    for f in fields {
        let v = ctx.scoped(vec![Pending::Once(f.ty)], |ctx| {
            Ok(match &f.kind {
                FieldKind::Plain => st.field(f.name)?.get_using::<P, _>(ctx)?.0,
                FieldKind::Flatten => st.inline_get_using::<P, _>(ctx)?.0,
                FieldKind::Default(d) => {
                    let mut value = st.field(f.name)?;
                    if value.check_null()? {
                        d.clone()
                    } else {
                        value.get_using::<P, _>(ctx)?.0
                    }
                }
            })
        })?;
        out.push(v);
    }
    Ok(out)
}

fn de_tag<D: Deserializer + ?Sized>(t: &'static TagTy, value: Value<D>) -> Result<usize, D::Error> {
    let (de, done) = value.into_raw();
    let index = de.get_tag(t.max(), t.names)?;
    *done = true;
    match t.variants.iter().position(|v| v.1 == index) {
        Some(i) => Ok(i),
        None => Err(de.error_invalid_index(index)),
    }
}

fn de_array<D: Deserializer + ?Sized, const K: usize>(value: Value<D>, ctx: &mut TyCtx) -> Result<Vec<Dv>, D::Error> {
    let a = <[P; K]>::deserialize(value, ctx)?;
    Ok(a.into_iter().map(|p| p.0).collect())
}

/// Reads a value of the given type.
pub fn de<D: Deserializer + ?Sized>(ty: &'static Ty, value: Value<D>, ctx: &mut TyCtx) -> Result<Dv, D::Error> {
    macro_rules! int {
        ($t:ty) => {
            Dv::Int(<$t>::deserialize(value, ctx)? as i128)
        };
    }
    macro_rules! nonzero {
        ($t:ty) => {
            Dv::Int(<$t>::deserialize(value, ctx)?.get() as i128)
        };
    }
    Ok(match ty {
        Ty::Bool => Dv::Bool(bool::deserialize(value, ctx)?),
        Ty::Int(t) => match (t.bits, t.signed) {
            (8, true) => int!(i8),
            (16, true) => int!(i16),
            (32, true) => int!(i32),
            (64, true) => int!(i64),
            (8, false) => int!(u8),
            (16, false) => int!(u16),
            (32, false) => int!(u32),
            (64, false) => int!(u64),
            _ => panic!("no such integer type"),
        },
        Ty::NonZero(t) => match (t.bits, t.signed) {
            (8, true) => nonzero!(NonZeroI8),
            (16, true) => nonzero!(NonZeroI16),
            (32, true) => nonzero!(NonZeroI32),
            (64, true) => nonzero!(NonZeroI64),
            (8, false) => nonzero!(NonZeroU8),
            (16, false) => nonzero!(NonZeroU16),
            (32, false) => nonzero!(NonZeroU32),
            (64, false) => nonzero!(NonZeroU64),
            _ => panic!("no such integer type"),
        },
        Ty::F32 => Dv::F32(f32::deserialize(value, ctx)?.to_bits()),
        Ty::F64 => Dv::F64(f64::deserialize(value, ctx)?.to_bits()),
        Ty::Char => Dv::Char(char::deserialize(value, ctx)?),
        Ty::Str => Dv::Str(checked(String::deserialize(value, ctx)?)),
        Ty::Opt(t) => ctx.scoped(vec![Pending::Once(t)], |ctx| {
            Ok(Dv::Opt(if t.nullable() {
                Option::<N>::deserialize(value, ctx)?.map(|v| Box::new(v.0))
            } else {
                Option::<P>::deserialize(value, ctx)?.map(|v| Box::new(v.0))
            }))
        })?,
        Ty::Tup(ts) => {
            let next = ts.iter().map(|t| Pending::Once(t)).collect();
            ctx.scoped(next, |ctx| {
                Ok(Dv::Seq(match ts.len() {
                    0 => de_array::<D, 0>(value, ctx)?,
                    1 => de_array::<D, 1>(value, ctx)?,
                    2 => {
                        let (a, b) = <(P, P)>::deserialize(value, ctx)?;
                        vec![a.0, b.0]
                    }
                    3 => {
                        let (a, b, c) = <(P, P, P)>::deserialize(value, ctx)?;
                        vec![a.0, b.0, c.0]
                    }
                    4 => de_array::<D, 4>(value, ctx)?,
                    5 => de_array::<D, 5>(value, ctx)?,
                    n => panic!("no tuple of {n} elements"),
                }))
            })?
        }
        Ty::List(t) => ctx.scoped(vec![Pending::Repeat(t)], |ctx| {
            Ok(Dv::Seq(Vec::<P>::deserialize(value, ctx)?.into_iter().map(|v| v.0).collect()))
        })?,
        Ty::Struct(s) if s.name.is_none() && s.fields.is_empty() => {
            <()>::deserialize(value, ctx)?;
            Dv::Seq(Vec::new())
        }
        Ty::Struct(s) => {
            ctx.scoped(vec![Pending::Once(ty)], |ctx| deserialize_struct::<P, D, TyCtx>(value, ctx, s.name))?.0
        }
        Ty::Enum(EnumTy { name, .. }) => {
            ctx.scoped(vec![Pending::Once(ty)], |ctx| deserialize_struct::<P, D, TyCtx>(value, ctx, Some(name)))?.0
        }
        Ty::Tag(t) => Dv::Var(de_tag(t, value)?, Vec::new()),
    })
}

/// Fails if a string is not made of valid characters.
pub fn checked(s: String) -> String {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        crate::engine::protocol_broken("a string which is not valid UTF-8 was returned");
    }
    s
}

// ------------------------------------------------------------------------------------------------

/// A borrowed value with its type.
#[derive(Clone, Copy)]
pub struct SP<'a>(pub &'static Ty, pub &'a Dv);
#[derive(Clone, Copy)]
pub struct SN<'a>(pub &'static Ty, pub &'a Dv);

impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for SP<'_> {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        ser(self.0, self.1, value, ctx)
    }
}

impl<S: Serializer + ?Sized, Ctx: ?Sized> Serialize<S, Ctx> for SN<'_> {
    const NULLABLE: bool = true;
    fn serialize(&self, value: Value<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        ser(self.0, self.1, value, ctx)
    }
}

impl<S: Serializer + ?Sized, Ctx: ?Sized> SerializeStruct<S, Ctx> for SP<'_> {
    fn serialize_content(&self, st: &mut Struct<S>, ctx: &mut Ctx) -> Result<(), S::Error> {
        match (self.0, self.1) {
            (Ty::Struct(s), Dv::Seq(vs)) => ser_fields(&s.fields, vs, st, ctx),
            (Ty::Enum(e), Dv::Var(i, vs)) => {
                let v = &e.tags.variants[*i];
                st.field(e.tag)?.put_tag(e.tags.max(), v.1, Some(v.0))?;
                ser_fields(&e.fields[*i], vs, st, ctx)
            }
            _ => panic!(),
        }
    }
}

fn ser_fields<S: Serializer + ?Sized, Ctx: ?Sized>(
    fields: &'static [FieldTy],
    vs: &[Dv],
    st: &mut Struct<S>,
    ctx: &mut Ctx,
) -> Result<(), S::Error> {
    for (f, v) in fields.iter().zip(vs) {
        match f.kind {
            FieldKind::Flatten => st.inline_put_using(&SP(f.ty, v), ctx)?,
            _ => st.field(f.name)?.put_using(&SP(f.ty, v), ctx)?,
        }
    }
    Ok(())
}

/// Writes a value of the given type.
pub fn ser<S: Serializer + ?Sized, Ctx: ?Sized>(
    ty: &'static Ty,
    v: &Dv,
    value: Value<S>,
    ctx: &mut Ctx,
) -> Result<(), S::Error> {
    match (ty, v) {
        (Ty::Bool, Dv::Bool(b)) => b.serialize(value, ctx),
        (Ty::Int(t), Dv::Int(i)) => match (t.bits, t.signed) {
            (8, true) => (*i as i8).serialize(value, ctx),
            (16, true) => (*i as i16).serialize(value, ctx),
            (32, true) => (*i as i32).serialize(value, ctx),
            (64, true) => (*i as i64).serialize(value, ctx),
            (8, false) => (*i as u8).serialize(value, ctx),
            (16, false) => (*i as u16).serialize(value, ctx),
            (32, false) => (*i as u32).serialize(value, ctx),
            (64, false) => (*i as u64).serialize(value, ctx),
            _ => panic!("no such integer type"),
        },
        (Ty::NonZero(t), Dv::Int(i)) => match (t.bits, t.signed) {
            (8, true) => NonZeroI8::new(*i as i8).unwrap().serialize(value, ctx),
            (16, true) => NonZeroI16::new(*i as i16).unwrap().serialize(value, ctx),
            (32, true) => NonZeroI32::new(*i as i32).unwrap().serialize(value, ctx),
            (64, true) => NonZeroI64::new(*i as i64).unwrap().serialize(value, ctx),
            (8, false) => NonZeroU8::new(*i as u8).unwrap().serialize(value, ctx),
            (16, false) => NonZeroU16::new(*i as u16).unwrap().serialize(value, ctx),
            (32, false) => NonZeroU32::new(*i as u32).unwrap().serialize(value, ctx),
            (64, false) => NonZeroU64::new(*i as u64).unwrap().serialize(value, ctx),
            _ => panic!("no such integer type"),
        },
        (Ty::F32, Dv::F32(b)) => f32::from_bits(*b).serialize(value, ctx),
        (Ty::F64, Dv::F64(b)) => f64::from_bits(*b).serialize(value, ctx),
        (Ty::Char, Dv::Char(c)) => c.serialize(value, ctx),
        (Ty::Str, Dv::Str(s)) => s.serialize(value, ctx),
        (Ty::Opt(t), Dv::Opt(o)) => {
            if t.nullable() {
                o.as_ref().map(|v| SN(t, v)).serialize(value, ctx)
            } else {
                o.as_ref().map(|v| SP(t, v)).serialize(value, ctx)
            }
        }
        (Ty::Tup(ts), Dv::Seq(vs)) => {
            let s: Vec<SP> = ts.iter().zip(vs).map(|(t, v)| SP(t, v)).collect();
            match &s[..] {
                [] => <[SP; 0] as Serialize<S, Ctx>>::serialize(&[], value, ctx),
                [a] => [*a].serialize(value, ctx),
                [a, b] => (*a, *b).serialize(value, ctx),
                [a, b, c] => (*a, *b, *c).serialize(value, ctx),
                [a, b, c, d] => [*a, *b, *c, *d].serialize(value, ctx),
                [a, b, c, d, e] => [*a, *b, *c, *d, *e].serialize(value, ctx),
                _ => panic!("no such tuple"),
            }
        }
        (Ty::List(t), Dv::Seq(vs)) => vs.iter().map(|v| SP(t, v)).collect::<Vec<_>>().serialize(value, ctx),
        (Ty::Struct(s), _) if s.name.is_none() && s.fields.is_empty() => ().serialize(value, ctx),
        (Ty::Struct(s), _) => serialize_struct(value, &SP(ty, v), ctx, s.name),
        (Ty::Enum(e), _) => serialize_struct(value, &SP(ty, v), ctx, Some(e.name)),
        (Ty::Tag(t), Dv::Var(i, _)) => {
            let v = &t.variants[*i];
            value.put_tag(t.max(), v.1, Some(v.0))
        }
        _ => panic!("value {v:?} is not of type {}", ty.describe()),
    }
}
