//! Property values as the reference model sees them, with comparison and
//! generation that share nothing with the code under test.
use arena::generational_arena as ga;
use better_borrow::BBorrow;
use dsim::*;
use tp_client::contract::properties::channels::dyn_channel::{DynChannelPrimitiveRef, DynChannelVecRef};
use tp_client::contract::properties::channels::{Channel, DynChannel, DynChannelRef, Keyframe};
use tp_client::contract::properties::dynamic::{
    DynTpPrimitive, DynTpPrimitiveRef, DynTpProperty, DynTpPropertyRef, DynTpVec, DynTpVecRef, TpPrimitiveType,
    TpPropertyType,
};
use tp_client::contract::properties::traits::ITpPropertyStatic;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

/// Calls `$m!{ extra.. ; (Variant, type) .. }` with the 14 primitive types.
#[macro_export]
macro_rules! all_types {
    ($m:ident $(, $x:tt)*) => {
        $m! { $($x),* ;
            (U8, u8) (U16, u16) (U32, u32) (U64, u64) (I8, i8) (I16, i16) (I32, i32) (I64, i64)
            (Bool, bool) (F32, f32) (F64, f64) (String, String)
            (ObjectHandle, tp_client::object::ObjectHandle)
            (ContractDataHandle, tp_client::contract::ContractDataHandle)
        }
    };
}

/// Handles that generated values may mention.
#[derive(Default, Clone)]
pub struct Pool {
    pub objs: Vec<ObjectHandle>,
    pub cons: Vec<ContractDataHandle>,
}
pub fn raw_obj(h: ObjectHandle) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}
pub fn raw_con(h: ContractDataHandle) -> (usize, u64) {
    ga::Index::from(h).into_raw_parts()
}

pub trait Prim: Clone + std::fmt::Debug {
    /// Exactly the same value, bit for bit.
    fn same(&self, o: &Self) -> bool;
    /// Equal as an assertion understands it.
    fn equal(&self, o: &Self) -> bool;
    fn gen(p: &Pool) -> Self;
    /// A value that is easily mistaken for this one.
    fn near(&self) -> Self;
}
fn near_index((i, g): (usize, u64)) -> ga::Index {
    match choose(4) {
        0 => ga::Index::from_raw_parts(i, g + 1),
        1 => ga::Index::from_raw_parts(i, g.saturating_sub(1)),
        2 => ga::Index::from_raw_parts(i, g ^ 1 << choose(33)),
        _ => ga::Index::from_raw_parts(i ^ 1, g),
    }
}
macro_rules! prim_int {
    ($($t:ty),*) => {$(
        impl Prim for $t {
            fn same(&self, o: &Self) -> bool { self == o }
            fn equal(&self, o: &Self) -> bool { self == o }
            fn gen(_: &Pool) -> Self {
                match choose(6) {
                    0 => 0,
                    1 => 1,
                    2 => <$t>::MAX,
                    3 => <$t>::MIN,
                    4 => (choose(256) as u64) as $t,
                    _ => bits64() as $t,
                }
            }
            fn near(&self) -> Self {
                match choose(4) {
                    0 => self.wrapping_add(1),
                    1 => self.wrapping_sub(1),
                    2 => (0 as $t).wrapping_sub(*self),
                    _ => self ^ ((1 as $t) << choose(<$t>::BITS as usize)),
                }
            }
        }
    )*}
}
prim_int!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Prim for bool {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn equal(&self, o: &Self) -> bool {
        self == o
    }
    fn gen(_: &Pool) -> Self {
        choose(2) == 1
    }
    fn near(&self) -> Self {
        !self
    }
}
macro_rules! prim_float {
    ($t:ty, $b:ty) => {
        impl Prim for $t {
            fn same(&self, o: &Self) -> bool {
                self.to_bits() == o.to_bits()
            }
            fn equal(&self, o: &Self) -> bool {
                self == o
            }
            fn gen(_: &Pool) -> Self {
                match choose(10) {
                    0 => 0.0,
                    1 => 1.5,
                    2 => -0.0,
                    3 => <$t>::INFINITY,
                    4 => <$t>::NAN,
                    5 => <$t>::MIN_POSITIVE / 2.0,
                    6 => <$t>::MAX,
                    // Any bits, among them other kinds of NaN.
                    7 => <$t>::from_bits(bits64() as _),
                    8 if chance(1, 3) => <$t>::from_bits(<$t>::NAN.to_bits() | choose(1 << 20) as $b),
                    _ => (bits64() as i64 as $t) / 1024.0,
                }
            }
            fn near(&self) -> Self {
                let b = self.to_bits();
                match choose(4) {
                    0 => <$t>::from_bits(b.wrapping_add(1)),
                    1 => <$t>::from_bits(b.wrapping_sub(1)),
                    2 => -self,
                    _ => <$t>::from_bits(b ^ ((1 as $b) << choose(<$b>::BITS as usize))),
                }
            }
        }
    };
}
prim_float!(f32, u32);
prim_float!(f64, u64);
impl Prim for String {
    fn same(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
    fn equal(&self, o: &Self) -> bool {
        self.as_bytes() == o.as_bytes()
    }
    fn gen(_: &Pool) -> Self {
        match choose(7) {
            0 => String::new(),
            1 => "abc".into(),
            5 => pick(&["end\u{0}", "\u{0}", " a\tb \n", "\u{feff}x\u{fffd}", "E\u{301}\r\n", "\u{ffff}\u{10000}", "%s\\\"'"]).into(),
            2 => "naïve 𝄞 \u{0} \u{10ffff}".into(),
            3 if chance(1, 40) => "long".repeat(range(1, 20_000)),
            3 => "x".repeat(range(1, 300)),
            _ => format!("s{}", choose(1 << 16)),
        }
    }
    fn near(&self) -> Self {
        match choose(7) {
            0 => self.clone() + pick(&["\u{0}", " ", "\n", "x"]),
            1 => format!("{}{self}", pick(&["\u{0}", " ", "\u{feff}"])),
            2 => self.chars().rev().collect(),
            3 => self.to_uppercase(),
            4 => self.chars().skip(1).collect(),
            5 => self.chars().take(self.chars().count() / 2).collect(),
            _ => {
                let (n, mut c) = (self.chars().count(), self.clone());
                c.pop();
                if chance(1, 2) || n == 0 { c } else { c + "~" }
            }
        }
    }
}
impl Prim for ObjectHandle {
    fn same(&self, o: &Self) -> bool {
        raw_obj(*self) == raw_obj(*o)
    }
    fn equal(&self, o: &Self) -> bool {
        self.same(o)
    }
    fn gen(p: &Pool) -> Self {
        if p.objs.is_empty() {
            ObjectHandle::new(ga::Index::from_raw_parts(0, 0))
        } else {
            pick(&p.objs)
        }
    }
    fn near(&self) -> Self {
        ObjectHandle::new(near_index(raw_obj(*self)))
    }
}
impl Prim for ContractDataHandle {
    fn same(&self, o: &Self) -> bool {
        raw_con(*self) == raw_con(*o)
    }
    fn equal(&self, o: &Self) -> bool {
        self.same(o)
    }
    fn gen(p: &Pool) -> Self {
        if p.cons.is_empty() {
            ContractDataHandle::new(ga::Index::from_raw_parts(0, 0))
        } else {
            pick(&p.cons)
        }
    }
    fn near(&self) -> Self {
        ContractDataHandle::new(near_index(raw_con(*self)))
    }
}

/// A property value of any type.
pub trait Ty: ITpPropertyStatic + Clone + std::fmt::Debug {
    fn into_val(self) -> Val;
    fn from_val(v: &Val) -> Option<Self>;
    fn into_prop(self) -> DynTpProperty;
}

macro_rules! define {
    (; $(($v:ident, $t:ty))*) => {
        #[derive(Clone, Debug)]
        pub enum One { $($v($t)),* }
        #[derive(Clone, Debug)]
        pub enum Many { $($v(Vec<$t>)),* }
        #[derive(Clone, Debug)]
        pub enum Val { One(One), Many(Many) }

        impl Val {
            pub fn same(&self, o: &Val) -> bool {
                match (self, o) {
                    $((Val::One(One::$v(a)), Val::One(One::$v(b))) => a.same(b),)*
                    $((Val::Many(Many::$v(a)), Val::Many(Many::$v(b))) =>
                        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),)*
                    _ => false,
                }
            }
            pub fn equal(&self, o: &Val) -> bool {
                match (self, o) {
                    $((Val::One(One::$v(a)), Val::One(One::$v(b))) => a.equal(b),)*
                    $((Val::Many(Many::$v(a)), Val::Many(Many::$v(b))) =>
                        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.equal(b)),)*
                    _ => false,
                }
            }
            /// 0..14 primitives, 14..28 lists
            pub fn ty(&self) -> usize {
                let mut i = 0;
                $(
                    if let Val::One(One::$v(_)) = self { return i }
                    if let Val::Many(Many::$v(_)) = self { return i + 14 }
                    i += 1;
                )*
                let _ = i;
                unreachable!()
            }
            pub fn gen(ty: usize, p: &Pool) -> Val {
                let mut i = 0;
                $(
                    if ty == i { return Val::One(One::$v(<$t as Prim>::gen(p))) }
                    if ty == i + 14 {
                        let n = match choose(8) { 7 => range(5, 40), k => k % 4 };
                        return Val::Many(Many::$v((0..n).map(|_| <$t as Prim>::gen(p)).collect()))
                    }
                    i += 1;
                )*
                let _ = i;
                unreachable!()
            }
            /// A value that is easily mistaken for this one: a bit, a letter or an entry differs.
            pub fn near(&self, pool: &Pool) -> Val {
                match self {
                    $(
                        Val::One(One::$v(a)) => Val::One(One::$v(a.near())),
                        Val::Many(Many::$v(a)) => {
                            let mut a = a.clone();
                            let n = a.len();
                            match choose(6) {
                                0 => drop(a.pop()),
                                1 if n > 0 => drop(a.remove(0)),
                                2 => a.push(<$t as Prim>::gen(pool)),
                                3 if n > 1 => a.swap(n - 2, n - 1),
                                4 if n > 0 => a.push(a[n - 1].clone()),
                                _ if n > 0 => {
                                    let i = choose(n);
                                    a[i] = a[i].near();
                                }
                                _ => a.push(<$t as Prim>::gen(pool)),
                            }
                            Val::Many(Many::$v(a))
                        }
                    )*
                }
            }
            pub fn to_prop(&self) -> DynTpProperty {
                match self.clone() {
                    $(Val::One(One::$v(a)) => DynTpProperty::Primitive(DynTpPrimitive::$v(a)),)*
                    $(Val::Many(Many::$v(a)) => DynTpProperty::Vec(DynTpVec::$v(a)),)*
                }
            }
            pub fn of_prop(p: &DynTpProperty) -> Val {
                match p {
                    $(DynTpProperty::Primitive(DynTpPrimitive::$v(a)) => Val::One(One::$v(a.clone())),)*
                    $(DynTpProperty::Vec(DynTpVec::$v(a)) => Val::Many(Many::$v(a.clone())),)*
                }
            }
            pub fn of_ref(p: DynTpPropertyRef<'_>) -> Val {
                match p {
                    $(DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$v(a)) => Val::One(One::$v(a.clone())),)*
                    $(DynTpPropertyRef::Vec(DynTpVecRef::$v(a)) => Val::Many(Many::$v(a.to_vec())),)*
                }
            }
        }
        $(
            impl Ty for $t {
                fn into_val(self) -> Val { Val::One(One::$v(self)) }
                fn from_val(v: &Val) -> Option<Self> {
                    if let Val::One(One::$v(a)) = v { Some(a.clone()) } else { None }
                }
                fn into_prop(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$v(self)) }
            }
            impl Ty for Vec<$t> {
                fn into_val(self) -> Val { Val::Many(Many::$v(self)) }
                fn from_val(v: &Val) -> Option<Self> {
                    if let Val::Many(Many::$v(a)) = v { Some(a.clone()) } else { None }
                }
                fn into_prop(self) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$v(self)) }
            }
        )*
        /// Whether a value equals another, by every comparison there is.
        pub fn comparisons(p: &DynTpProperty, v: &Val) -> Vec<bool> {
            let q = v.to_prop();
            let (a, b): (DynTpPropertyRef<'_>, DynTpPropertyRef<'_>) = (BBorrow::borrow(p), BBorrow::borrow(&q));
            let mut r = vec![p == &q, &q == p, a == b, b == a];
            match v {
                $(Val::One(One::$v(x)) => {
                    r.extend([p == x, x == p]);
                    match p {
                        DynTpProperty::Primitive(p) => r.extend([p == x, x == p]),
                        DynTpProperty::Vec(_) => {}
                    }
                })*
                $(Val::Many(Many::$v(x)) => {
                    let s = &x[..];
                    r.extend([p == x, x == p, p == &s, &s == p]);
                    match p {
                        DynTpProperty::Vec(p) => r.extend([p == x, x == p, p == &s, &s == p]),
                        DynTpProperty::Primitive(_) => {}
                    }
                })*
            }
            r
        }
        pub const TYPES: [TpPropertyType; 28] = [
            $(TpPropertyType::Primitive(TpPrimitiveType::$v),)*
            $(TpPropertyType::Vec(TpPrimitiveType::$v),)*
        ];
        pub fn type_id_of(ty: usize) -> std::any::TypeId {
            let mut i = 0;
            $(
                if ty == i { return std::any::TypeId::of::<$t>() }
                if ty == i + 14 { return std::any::TypeId::of::<Vec<$t>>() }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub fn type_no(t: TpPropertyType) -> usize {
            match t {
                $(TpPropertyType::Primitive(TpPrimitiveType::$v) => type_no_prim(TpPrimitiveType::$v),)*
                $(TpPropertyType::Vec(TpPrimitiveType::$v) => 14 + type_no_prim(TpPrimitiveType::$v),)*
            }
        }
        fn type_no_prim(t: TpPrimitiveType) -> usize {
            let mut i = 0;
            $(
                if matches!(t, TpPrimitiveType::$v) { return i }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }

        /// Keyframes as the model sees them.
        pub type Frames = Vec<(Val, f64)>;
        pub fn make_channel(ty: usize, frames: &Frames) -> DynChannel {
            fn typed<T: Ty>(frames: &Frames) -> Channel<T> {
                Channel::new(frames.iter().map(|(v, t)| Keyframe::new(T::from_val(v).expect("type"), *t)))
            }
            let mut i = 0;
            $(
                if ty == i { return DynChannel::Primitive(typed::<$t>(frames).into()) }
                if ty == i + 14 { return DynChannel::Vec(typed::<Vec<$t>>(frames).into()) }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub fn frames_of<T: Ty>(c: &Channel<T>) -> Frames {
            c.keyframes().iter().map(|k| (k.value().clone().into_val(), k.time())).collect()
        }
        pub fn frames_of_ref(c: DynChannelRef<'_>) -> Frames {
            match c {
                $(DynChannelRef::Primitive(DynChannelPrimitiveRef::$v(c)) => frames_of(c),)*
                $(DynChannelRef::Vec(DynChannelVecRef::$v(c)) => frames_of(c),)*
            }
        }
    };
}
all_types!(define);

pub fn same_frames(a: &Frames, b: &Frames) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.same(&y.0) && x.1.to_bits() == y.1.to_bits())
}
/// Equal as multisets.
pub fn same_frames_unordered(a: &Frames, b: &Frames) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut left: Vec<&(Val, f64)> = b.iter().collect();
    for x in a {
        match left.iter().position(|y| x.0.same(&y.0) && x.1.to_bits() == y.1.to_bits()) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return false,
        }
    }
    true
}

/// Short text of a value, for traces.
pub fn show(v: &Val) -> String {
    let s = format!("{v:?}");
    if s.chars().count() > 90 {
        let mut t: String = s.chars().take(90).collect();
        t.push('…');
        t
    } else {
        s
    }
}
