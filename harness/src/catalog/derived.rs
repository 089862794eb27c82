//! Types which are derived.

use super::*;

fn seq(v: &Dv) -> &[Dv] {
    match v {
        Dv::Seq(s) => s,
        _ => panic!("{v:?}"),
    }
}

macro_rules! model_struct {
    ([$($g:tt)*] $t:ty, $ctor:path, $ty:expr, $($f:ident),*) => {
        impl<$($g)*> Model for $t {
            fn ty() -> &'static Ty { $ty }
            fn to_dv(&self) -> Dv { Dv::Seq(vec![$(self.$f.to_dv()),*]) }
            #[allow(unused_variables, unused_mut, unused_assignments)]
            fn from_dv(v: &Dv) -> Self {
                let v = seq(v);
                let mut i = 0;
                $(let $f = Model::from_dv(&v[i]); i += 1;)*
                $ctor { $($f),* }
            }
        }
    };
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Point {
    pub x: i32,
    pub y: i32,
}
model_struct!([] Point, Point, struct_ty("Point", vec![field::<i32>("x"), field::<i32>("y")]), x, y);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unit;
model_struct!([] Unit, Unit, struct_ty("Unit", vec![]),);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mixed {
    #[serde(rename = "naïve \"key\"")]
    pub a: String,
    pub opt: Option<u16>,
    pub opt2: Option<Option<bool>>,
    #[serde(default)]
    pub def: u8,
    #[serde(default)]
    pub def_opt: Option<i64>,
    #[serde(default, rename = "d")]
    pub def_list: Vec<char>,
    pub last: f64,
}
model_struct!([] Mixed, Mixed, struct_ty("Mixed", vec![
    field::<String>("naïve \"key\""),
    field::<Option<u16>>("opt"),
    field::<Option<Option<bool>>>("opt2"),
    field_default::<u8>("def"),
    field_default::<Option<i64>>("def_opt"),
    field_default::<Vec<char>>("d"),
    field::<f64>("last"),
]), a, opt, opt2, def, def_opt, def_list, last);

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Corner {
    pub left: i32,
    #[serde(default)]
    pub top: i32,
}
model_struct!([] Corner, Corner, struct_ty("Corner", vec![field::<i32>("left"), field_default::<i32>("top")]), left, top);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Flat {
    pub name: String,
    #[serde(flatten)]
    pub point: Corner,
    pub z: Option<i32>,
    #[serde(flatten)]
    pub shape: Shape,
    pub end: (),
}
model_struct!([] Flat, Flat, struct_ty("Flat", vec![
    field::<String>("name"),
    field_flat::<Corner>(),
    field::<Option<i32>>("z"),
    field_flat::<Shape>(),
    field::<()>("end"),
]), name, point, z, shape, end);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Gen<T, U> {
    pub first: T,
    pub rest: Vec<U>,
    pub pair: (T, U),
}
model_struct!([T: Model, U: Model] Gen<T, U>, Gen, struct_ty("Gen", vec![
    field::<T>("first"),
    field::<Vec<U>>("rest"),
    field::<(T, U)>("pair"),
]), first, rest, pair);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Wide {
    pub a0: u8,
    pub a1: u16,
    pub a2: u32,
    pub a3: u64,
    pub a4: i8,
    pub a5: i16,
    pub a6: i32,
    pub a7: i64,
    pub b0: f32,
    pub b1: f64,
    pub b2: bool,
    pub b3: char,
    pub b4: String,
    pub b5: NonZeroU8,
    pub b6: NonZeroI64,
    pub b7: [u8; 3],
    pub c0: (),
    pub c1: Color,
}
model_struct!([] Wide, Wide, struct_ty("Wide", vec![
    field::<u8>("a0"), field::<u16>("a1"), field::<u32>("a2"), field::<u64>("a3"),
    field::<i8>("a4"), field::<i16>("a5"), field::<i32>("a6"), field::<i64>("a7"),
    field::<f32>("b0"), field::<f64>("b1"), field::<bool>("b2"), field::<char>("b3"),
    field::<String>("b4"), field::<NonZeroU8>("b5"), field::<NonZeroI64>("b6"), field::<[u8; 3]>("b7"),
    field::<()>("c0"), field::<Color>("c1"),
]), a0, a1, a2, a3, a4, a5, a6, a7, b0, b1, b2, b3, b4, b5, b6, b7, c0, c1);

macro_rules! model_tag {
    ($t:ident, $ty:expr, $($v:ident),*) => {
        impl Model for $t {
            fn ty() -> &'static Ty { leak(Ty::Tag($ty)) }
            fn to_dv(&self) -> Dv {
                let all = [$($t::$v),*];
                Dv::Var(all.iter().position(|x| x == self).unwrap(), vec![])
            }
            fn from_dv(v: &Dv) -> Self {
                let all = [$($t::$v),*];
                match v { Dv::Var(i, _) => all[*i].clone(), _ => panic!() }
            }
        }
    };
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Color {
    Red,
    Green,
    Blue,
    #[serde(rename = "dark red")]
    DarkRed,
}
model_tag!(Color, tag_ty(vec![("Red", 0), ("Green", 1), ("Blue", 2), ("dark red", 3)]), Red, Green, Blue, DarkRed);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Level {
    #[serde(reindex = 7)]
    A,
    B,
    AB = 300,
    ABC,
    #[serde(rename = "AB\u{e9}", reindex = 70000)]
    Acc,
    #[serde(rename = "")]
    Empty,
}
model_tag!(
    Level,
    tag_ty(vec![("A", 7), ("B", 1), ("AB", 300), ("ABC", 301), ("AB\u{e9}", 70000), ("", 303)]),
    A, B, AB, ABC, Acc, Empty
);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Shape {
    Dot,
    Circle { radius: f64 },
    Rect { w: u32, h: u32, #[serde(default)] fill: Option<Color> },
    #[serde(transparent, rename = "at")]
    At(Point),
    #[serde(reindex = 9)]
    Named { #[serde(rename = "label")] name: String },
}
impl Model for Shape {
    fn ty() -> &'static Ty {
        enum_ty("Shape", "type", vec![
            ("Dot", 0, vec![]),
            ("Circle", 1, vec![field::<f64>("radius")]),
            ("Rect", 2, vec![field::<u32>("w"), field::<u32>("h"), field_default::<Option<Color>>("fill")]),
            ("at", 3, vec![field_flat::<Point>()]),
            ("Named", 9, vec![field::<String>("label")]),
        ])
    }
    fn to_dv(&self) -> Dv {
        match self {
            Shape::Dot => Dv::Var(0, vec![]),
            Shape::Circle { radius } => Dv::Var(1, vec![radius.to_dv()]),
            Shape::Rect { w, h, fill } => Dv::Var(2, vec![w.to_dv(), h.to_dv(), fill.to_dv()]),
            Shape::At(p) => Dv::Var(3, vec![p.to_dv()]),
            Shape::Named { name } => Dv::Var(4, vec![name.to_dv()]),
        }
    }
    fn from_dv(v: &Dv) -> Self {
        let Dv::Var(i, f) = v else { panic!() };
        match i {
            0 => Shape::Dot,
            1 => Shape::Circle { radius: Model::from_dv(&f[0]) },
            2 => Shape::Rect { w: Model::from_dv(&f[0]), h: Model::from_dv(&f[1]), fill: Model::from_dv(&f[2]) },
            3 => Shape::At(Model::from_dv(&f[0])),
            4 => Shape::Named { name: Model::from_dv(&f[0]) },
            _ => panic!(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(rename = "Msg", tag = "kind\n")]
#[repr(u8)]
pub enum Message {
    Ping = 10,
    Text { body: String, to: Option<String> },
    #[serde(transparent)]
    Move { inner: Flat },
    Many { items: Vec<Shape>, color: Color },
}
impl Model for Message {
    fn ty() -> &'static Ty {
        enum_ty("Msg", "kind\n", vec![
            ("Ping", 10, vec![]),
            ("Text", 11, vec![field::<String>("body"), field::<Option<String>>("to")]),
            ("Move", 12, vec![field_flat::<Flat>()]),
            ("Many", 13, vec![field::<Vec<Shape>>("items"), field::<Color>("color")]),
        ])
    }
    fn to_dv(&self) -> Dv {
        match self {
            Message::Ping => Dv::Var(0, vec![]),
            Message::Text { body, to } => Dv::Var(1, vec![body.to_dv(), to.to_dv()]),
            Message::Move { inner } => Dv::Var(2, vec![inner.to_dv()]),
            Message::Many { items, color } => Dv::Var(3, vec![items.to_dv(), color.to_dv()]),
        }
    }
    fn from_dv(v: &Dv) -> Self {
        let Dv::Var(i, f) = v else { panic!() };
        match i {
            0 => Message::Ping,
            1 => Message::Text { body: Model::from_dv(&f[0]), to: Model::from_dv(&f[1]) },
            2 => Message::Move { inner: Model::from_dv(&f[0]) },
            3 => Message::Many { items: Model::from_dv(&f[0]), color: Model::from_dv(&f[1]) },
            _ => panic!(),
        }
    }
}

/// All variants are units, but an explicit tag makes it an object.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "t")]
pub enum Tagged {
    On,
    Off,
}
impl Model for Tagged {
    fn ty() -> &'static Ty {
        enum_ty("Tagged", "t", vec![("On", 0, vec![]), ("Off", 1, vec![])])
    }
    fn to_dv(&self) -> Dv {
        Dv::Var((*self == Tagged::Off) as usize, vec![])
    }
    fn from_dv(v: &Dv) -> Self {
        match v {
            Dv::Var(0, _) => Tagged::On,
            _ => Tagged::Off,
        }
    }
}

/// Fields which are read as other types, and whose defaults are not those of these types.
#[derive(Deserialize, Clone, Debug)]
pub struct Proxied {
    #[serde(proxy = u16)]
    pub plain: Px<u16>,
    #[serde(default, proxy = String)]
    pub text: Px<String>,
    #[serde(proxy = (i8, Option<bool>), default, rename = "p q")]
    pub pair: Px<(i8, Option<bool>)>,
    pub last: bool,
    #[serde(default, proxy = Option<char>)]
    pub opt: Px<Option<char>>,
}
model_struct!([] Proxied, Proxied, struct_ty("Proxied", vec![
    field::<Px<u16>>("plain"),
    field_default::<Px<String>>("text"),
    field_default::<Px<(i8, Option<bool>)>>("p q"),
    field::<bool>("last"),
    field_default::<Px<Option<char>>>("opt"),
]), plain, text, pair, last, opt);

// Serialization by proxy is not there yet
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Proxied {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, ctx: &mut C) -> Result<(), S::Error> {
        let mut st = value.into_struct(Some("Proxied"))?;
        st.field("plain")?.put_using(&self.plain.0, ctx)?;
        st.field("text")?.put_using(&self.text.0, ctx)?;
        st.field("p q")?.put_using(&self.pair.0, ctx)?;
        st.field("last")?.put_using(&self.last, ctx)?;
        st.field("opt")?.put_using(&self.opt.0, ctx)?;
        st.close()
    }
}

pub fn all() -> Vec<Entry> {
    crate::registry! {
        Point, strs; Unit; Mixed, strs; Flat, strs; Gen<u8, String>; Gen<Option<Point>, Gen<bool, char>>; Wide, strs;
        Color, strs; Level, strs; Shape, strs; Message, strs; Tagged; Proxied, strs; Vec<Proxied>; Vec<Shape>; Option<Color>; Vec<Mixed>;
        (Color, Level, Tagged); Option<Option<Message>>; [Mixed; 2];
        (Option<Mixed>, Option<Shape>, Option<Tagged>), strs; Option<Gen<Option<u8>, Option<Color>>>;
    }
}
