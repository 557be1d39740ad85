//! The exported C functions, by name, as a foreign host declares them.
use crate::alloc::lib;
use crate::val::*;
use dsim::*;
use paste::paste;
use std::ffi::c_void;
use tp_client::contract::properties::channels::{Channel, ChannelHandle, ChannelId};
use tp_client::contract::properties::states::{StateHandle, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

pub type P = *mut c_void;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct RVec {
    pub ptr: P,
    pub len: usize,
    pub cap: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Slice {
    pub ptr: *const u8,
    pub len: usize,
}
impl Slice {
    pub fn bytes(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Version {
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
}

macro_rules! exports {
    ($($m:ident { $(fn $f:ident = $sym:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)* })*) => {$(
        pub mod $m {
            use super::*;
            mod raw {
                use super::*;
                #[allow(improper_ctypes)]
                extern "C" {
                    $(pub fn $sym($($a: $t),*) $(-> $r)?;)*
                }
            }
            $(pub fn $f($($a: $t),*) $(-> $r)? { lib(|| unsafe { raw::$sym($($a),*) }) })*
        }
    )*}
}
exports! {
    realm {
        fn new = tp_client__baseline__Baseline__new(kind: u8) -> P;
        fn drop = tp_client__baseline__Baseline__drop(b: P);
        fn kind = tp_client__baseline__Baseline__kind(b: P) -> u8;
        fn contract_data = tp_client__baseline__Baseline__contract_data(b: P, c: P) -> P;
        fn object = tp_client__baseline__Baseline__object(b: P, o: P) -> P;
        fn object_mut = tp_client__baseline__Baseline__object_mut(b: P, o: P) -> P;
    }
    contract {
        fn handle_drop = tp_client__contract__ContractDataHandle__drop(c: P);
        fn id = tp_client__contract__ContractData__id(c: P) -> P;
        fn objects = tp_client__contract__ContractData__objects(c: P) -> RVec;
        fn objects_drop = tp_client__contract__ContractData__objects_drop(v: RVec);
        fn name = tp_client__contract__ContractId__name(id: P) -> Slice;
        fn version = tp_client__contract__ContractId__version(id: P) -> Version;
    }
    object {
        fn handle_drop = tp_client__object__ObjectHandle__drop(c: P);
    }
    text {
        fn value = rsharp__String__value(s: P) -> Slice;
        fn drop = rsharp__String__drop(s: P);
        fn copy_utf8 = rsharp__String__copy_utf8(s: Slice) -> P;
        fn copy_utf16 = rsharp__String__copy_utf16(s: Slice) -> P;
    }
    example {
        fn drop = tp_contract_example__ExampleContract__drop(c: P);
        fn handle = tp_contract_example__ExampleContract__handle(c: P) -> P;
        fn states = tp_contract_example__ExampleContract__states(c: P) -> P;
        fn register = tp_contract_example__ExampleContract__register(b: P) -> P;
        fn object_create = tp_contract_example__ExampleContract__object_create(
            c: P, b: P, u0: u8, u1: u8, i0: i8, i1: i8, f0: f32, f1: f32, s: P, o: P, h: P) -> P;
        fn object_remove = tp_contract_example__ExampleContract__object_remove(b: P, o: P);
        fn u8_0 = tp_contract_example__ExampleStates__u8_0(s: P) -> P;
        fn u8_1 = tp_contract_example__ExampleStates__u8_1(s: P) -> P;
        fn i8_0 = tp_contract_example__ExampleStates__i8_0(s: P) -> P;
        fn i8_1 = tp_contract_example__ExampleStates__i8_1(s: P) -> P;
        fn f32_0 = tp_contract_example__ExampleStates__f32_0(s: P) -> P;
        fn f32_1 = tp_contract_example__ExampleStates__f32_1(s: P) -> P;
        fn str_0 = tp_contract_example__ExampleStates__str_0(s: P) -> P;
        fn oh_0 = tp_contract_example__ExampleStates__oh_0(s: P) -> P;
        fn ch_0 = tp_contract_example__ExampleStates__ch_0(s: P) -> P;
    }
    ball {
        fn drop = BallContract__drop(c: P);
        fn handle = BallContract__handle(c: P) -> P;
        fn states = BallContract__states(c: P) -> P;
        fn register = BallContract__register(b: P) -> P;
        fn unregister = BallContract__unregister(b: P, c: P);
        fn object_create = BallContract__object_create(
            b: P, c: P, x: f32, y: f32, z: f32, a: i16, e: i16, f: i16, g: f32, h: f32, i: f32, color: u64) -> P;
        fn object_remove = BallContract__object_remove(b: P, o: P);
        fn pos_x = BallStates__pos_x(s: P) -> P;
        fn pos_y = BallStates__pos_y(s: P) -> P;
        fn pos_z = BallStates__pos_z(s: P) -> P;
        fn euler_x = BallStates__euler_x(s: P) -> P;
        fn euler_y = BallStates__euler_y(s: P) -> P;
        fn euler_z = BallStates__euler_z(s: P) -> P;
        fn scale_x = BallStates__scale_x(s: P) -> P;
        fn scale_y = BallStates__scale_y(s: P) -> P;
        fn scale_z = BallStates__scale_z(s: P) -> P;
        fn color = BallStates__color(s: P) -> P;
    }
}
pub const EXAMPLE_IDS: [fn(P) -> P; 9] = [
    example::u8_0, example::u8_1, example::i8_0, example::i8_1, example::f32_0, example::f32_1, example::str_0,
    example::oh_0, example::ch_0,
];
/// Type numbers of the states of the example contract.
pub const EXAMPLE_TYPES: [usize; 9] = [0, 0, 4, 4, 9, 9, 11, 12, 13];
pub const BALL_IDS: [fn(P) -> P; 10] = [
    ball::pos_x, ball::pos_y, ball::pos_z, ball::euler_x, ball::euler_y, ball::euler_z, ball::scale_x, ball::scale_y,
    ball::scale_z, ball::color,
];
pub const BALL_TYPES: [usize; 10] = [9, 9, 9, 5, 5, 5, 9, 9, 9, 3];

/// How a value of the type travels.
pub trait Marshal: Ty + Prim {
    /// A value owned by the host.
    fn give(&self) -> P;
    fn peek(p: P) -> Self;
    fn release(p: P);
    /// Consumes a value as a contract's own exports do.
    fn take(p: P) -> Self;
}
macro_rules! marshal_plain {
    ($($v:ident $t:ident)*) => { paste! {
        mod boxes {
            extern "C" {
                $(
                    pub fn [<rsharp__Box_ $v __new>](v: $t) -> super::P;
                    pub fn [<rsharp__Box_ $v __drop>](v: super::P);
                )*
            }
        }
        $(
            impl Marshal for $t {
                fn give(&self) -> P { lib(|| unsafe { boxes::[<rsharp__Box_ $v __new>](*self) }) }
                fn peek(p: P) -> Self {
                    let mut b = [0u8; std::mem::size_of::<$t>()];
                    b.copy_from_slice(unsafe { std::slice::from_raw_parts(p as *const u8, std::mem::size_of::<$t>()) });
                    <$t as Plain>::of_bytes(&b)
                }
                fn release(p: P) { lib(|| unsafe { boxes::[<rsharp__Box_ $v __drop>](p) }) }
                fn take(p: P) -> Self { unsafe { *Box::from_raw(p as *mut $t) } }
            }
        )*
    }}
}
pub trait Plain: Sized {
    fn of_bytes(b: &[u8]) -> Self;
}
macro_rules! plain { ($($t:ty),*) => {$(
    impl Plain for $t {
        fn of_bytes(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().expect("size")) }
    }
)*}}
plain!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
impl Plain for bool {
    fn of_bytes(b: &[u8]) -> Self {
        ensure_for!(&["C13"], b[0] < 2, "value", "a boolean was neither true nor false but {}", b[0]);
        b[0] == 1
    }
}
marshal_plain!(U8 u8 U16 u16 U32 u32 U64 u64 I8 i8 I16 i16 I32 i32 I64 i64 Bool bool F32 f32 F64 f64);
impl Marshal for String {
    fn give(&self) -> P {
        if chance(1, 2) {
            let t: Vec<u16> = self.encode_utf16().collect();
            text::copy_utf16(Slice { ptr: t.as_ptr() as *const u8, len: t.len() })
        } else {
            let t = self.clone().into_bytes();
            text::copy_utf8(Slice { ptr: t.as_ptr(), len: t.len() })
        }
    }
    fn peek(p: P) -> Self {
        let b = text::value(p).bytes().to_vec();
        String::from_utf8_lossy(&b).into_owned()
    }
    fn release(p: P) {
        text::drop(p)
    }
    fn take(p: P) -> Self {
        unsafe { Box::from_raw(p as *mut rsharp::string::String).inner }
    }
}
macro_rules! marshal_handle {
    ($t:ty, $c:ty, $drop:path) => {
        impl Marshal for $t {
            fn give(&self) -> P {
                lib(|| Box::into_raw(Box::new(<$c>::from(*self))) as P)
            }
            fn peek(p: P) -> Self {
                unsafe { (*(p as *const $c)).inner }
            }
            fn release(p: P) {
                $drop(p)
            }
            fn take(p: P) -> Self {
                unsafe { Box::from_raw(p as *mut $c).inner }
            }
        }
    };
}
marshal_handle!(ObjectHandle, tp_client::object::c_api::ObjectHandle, object::handle_drop);
marshal_handle!(ContractDataHandle, tp_client::contract::c_api::ContractDataHandle, contract::handle_drop);

/// The exported functions of one value type, and a contract's own exports for it.
pub trait Foreign: Marshal {
    fn state_new(v: P) -> P;
    fn state_drop(s: P);
    fn state_value(s: P) -> P;
    fn state_set(s: P, v: P);
    fn state_id_contract(id: P) -> P;
    fn state_id_drop(id: P);
    fn state_handle_drop(h: P);
    fn frame_new(v: P, t: f64) -> P;
    fn frame_drop(k: P);
    fn frame_value(k: P) -> P;
    fn frame_time(k: P) -> f64;
    fn list_new() -> RVec;
    fn list_push(v: &mut RVec, k: P);
    fn list_drop(v: RVec);
    fn list_get(v: &RVec, i: usize) -> P;
    fn list_set(v: &mut RVec, i: usize, k: P);
    fn chan_new(v: RVec) -> P;
    fn chan_drop(c: P);
    fn chan_frames(c: P) -> RVec;
    fn chan_frames_drop(v: RVec);
    fn chan_frames_mut(c: P) -> RVec;
    fn chan_frames_mut_drop(v: RVec);
    fn chan_handle_drop(h: P);
    fn chan_id_drop(h: P);
    fn chan_id_contract(h: P) -> P;
    fn realm_state(b: P, h: P) -> P;
    fn realm_state_mut(b: P, h: P) -> P;
    fn realm_chan(b: P, h: P) -> P;
    fn realm_chan_mut(b: P, h: P) -> P;
    fn bind_state(b: P, id: P, o: P) -> P;
    fn bind_chan(b: P, id: P, o: P) -> P;

    fn give_state_id(id: StateId<Self>) -> P;
    fn give_chan_id(id: ChannelId<Self>) -> P;
    fn take_chan(c: P) -> Channel<Self>;
    fn peek_state_id(p: P) -> StateId<Self>;
    fn peek_chan_id(p: P) -> ChannelId<Self>;
    fn peek_state_handle(p: P) -> StateHandle<Self>;
    fn peek_chan_handle(p: P) -> ChannelHandle<Self>;
}
macro_rules! foreign {
    ($($v:ident $t:ident)*) => { paste! { mod syms {
        use super::{P, RVec};
        extern "C" {
            $(
                pub fn [<tp_client__contract__properties__states__State_ $v __new>](v: P) -> P;
                pub fn [<tp_client__contract__properties__states__State_ $v __drop>](s: P);
                pub fn [<tp_client__contract__properties__states__State_ $v __value>](s: P) -> P;
                pub fn [<tp_client__contract__properties__states__State_ $v __value_set>](s: P, v: P);
                pub fn [<tp_client__contract__properties__states__StateId_ $v __contract>](s: P) -> P;
                pub fn [<tp_client__contract__properties__states__StateId_ $v __drop>](s: P);
                pub fn [<tp_client__contract__properties__states__StateHandle_ $v __drop>](s: P);
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $v __new>](v: P, t: f64) -> P;
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $v __drop>](k: P);
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $v __value>](k: P) -> P;
                pub fn [<tp_client__contract__properties__channels__Keyframe_ $v __time>](k: P) -> f64;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $v __new>]() -> RVec;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $v __push>](v: &mut RVec, k: P);
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $v __drop>](v: RVec);
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $v __get>](v: &RVec, i: usize) -> P;
                pub fn [<tp_client__contract__properties__channels__RVec_Keyframe $v __set>](v: &mut RVec, i: usize, k: P);
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __new>](v: RVec) -> P;
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __drop>](c: P);
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __keyframes>](c: P) -> RVec;
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __keyframes_drop>](v: RVec);
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __keyframes_mut>](c: P) -> RVec;
                pub fn [<tp_client__contract__properties__channels__Channel_ $v __keyframes_mut_drop>](v: RVec);
                pub fn [<tp_client__contract__properties__channels__ChannelHandle_ $v __drop>](h: P);
                pub fn [<tp_client__contract__properties__channels__ChannelId_ $v __drop>](h: P);
                pub fn [<ChannelId_ $v __contract>](h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__state_ $v>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__state_mut_ $v>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__channel_ $v>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__channel_mut_ $v>](b: P, h: P) -> P;
                pub fn [<tp_client__baseline__Baseline__bind_state_ $v>](b: P, id: P, o: P) -> P;
                pub fn [<tp_client__baseline__Baseline__bind_channel_ $v>](b: P, id: P, o: P) -> P;
            )*
        }
    }
    $(
        impl Foreign for $t {
            fn state_new(v: P) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__states__State_ $v __new>](v) }) }
            fn state_drop(s: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__states__State_ $v __drop>](s) }) }
            fn state_value(s: P) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__states__State_ $v __value>](s) }) }
            fn state_set(s: P, v: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__states__State_ $v __value_set>](s, v) }) }
            fn state_id_contract(s: P) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__states__StateId_ $v __contract>](s) }) }
            fn state_id_drop(s: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__states__StateId_ $v __drop>](s) }) }
            fn state_handle_drop(s: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__states__StateHandle_ $v __drop>](s) }) }
            fn frame_new(v: P, t: f64) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Keyframe_ $v __new>](v, t) }) }
            fn frame_drop(k: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Keyframe_ $v __drop>](k) }) }
            fn frame_value(k: P) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Keyframe_ $v __value>](k) }) }
            fn frame_time(k: P) -> f64 { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Keyframe_ $v __time>](k) }) }
            fn list_new() -> RVec { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__RVec_Keyframe $v __new>]() }) }
            fn list_push(v: &mut RVec, k: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__RVec_Keyframe $v __push>](v, k) }) }
            fn list_drop(v: RVec) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__RVec_Keyframe $v __drop>](v) }) }
            fn list_get(v: &RVec, i: usize) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__RVec_Keyframe $v __get>](v, i) }) }
            fn list_set(v: &mut RVec, i: usize, k: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__RVec_Keyframe $v __set>](v, i, k) }) }
            fn chan_new(v: RVec) -> P { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __new>](v) }) }
            fn chan_drop(c: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __drop>](c) }) }
            fn chan_frames(c: P) -> RVec { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __keyframes>](c) }) }
            fn chan_frames_drop(v: RVec) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __keyframes_drop>](v) }) }
            fn chan_frames_mut(c: P) -> RVec { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __keyframes_mut>](c) }) }
            fn chan_frames_mut_drop(v: RVec) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__Channel_ $v __keyframes_mut_drop>](v) }) }
            fn chan_handle_drop(h: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__ChannelHandle_ $v __drop>](h) }) }
            fn chan_id_drop(h: P) { lib(|| unsafe { syms::[<tp_client__contract__properties__channels__ChannelId_ $v __drop>](h) }) }
            fn chan_id_contract(h: P) -> P { lib(|| unsafe { syms::[<ChannelId_ $v __contract>](h) }) }
            fn realm_state(b: P, h: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__state_ $v>](b, h) }) }
            fn realm_state_mut(b: P, h: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__state_mut_ $v>](b, h) }) }
            fn realm_chan(b: P, h: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__channel_ $v>](b, h) }) }
            fn realm_chan_mut(b: P, h: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__channel_mut_ $v>](b, h) }) }
            fn bind_state(b: P, id: P, o: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__bind_state_ $v>](b, id, o) }) }
            fn bind_chan(b: P, id: P, o: P) -> P { lib(|| unsafe { syms::[<tp_client__baseline__Baseline__bind_channel_ $v>](b, id, o) }) }

            fn give_state_id(id: StateId<Self>) -> P {
                lib(|| Box::into_raw(Box::new(sc::[<StateId_ $v>]::from(id))) as P)
            }
            fn give_chan_id(id: ChannelId<Self>) -> P {
                lib(|| Box::into_raw(Box::new(cc::[<ChannelId_ $v>]::from(id))) as P)
            }
            fn take_chan(c: P) -> Channel<Self> { unsafe { Box::from_raw(c as *mut cc::[<Channel_ $v>]).inner } }
            fn peek_state_id(p: P) -> StateId<Self> { unsafe { (*(p as *const sc::[<StateId_ $v>])).inner.clone() } }
            fn peek_chan_id(p: P) -> ChannelId<Self> { unsafe { (*(p as *const cc::[<ChannelId_ $v>])).inner.clone() } }
            fn peek_state_handle(p: P) -> StateHandle<Self> { unsafe { (*(p as *const sc::[<StateHandle_ $v>])).inner } }
            fn peek_chan_handle(p: P) -> ChannelHandle<Self> { unsafe { (*(p as *const cc::[<ChannelHandle_ $v>])).inner } }
        }
    )* }}
}
use tp_client::contract::properties::channels::c_api as cc;
use tp_client::contract::properties::states::c_api as sc;
foreign!(U8 u8 U16 u16 U32 u32 U64 u64 I8 i8 I16 i16 I32 i32 I64 i64 Bool bool F32 f32 F64 f64 String String
    ObjectHandle ObjectHandle ContractDataHandle ContractDataHandle);

/// `$e` with `$T` standing for primitive type number `$ty`.
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            0 => { type $T = u8; $e }
            1 => { type $T = u16; $e }
            2 => { type $T = u32; $e }
            3 => { type $T = u64; $e }
            4 => { type $T = i8; $e }
            5 => { type $T = i16; $e }
            6 => { type $T = i32; $e }
            7 => { type $T = i64; $e }
            8 => { type $T = bool; $e }
            9 => { type $T = f32; $e }
            10 => { type $T = f64; $e }
            11 => { type $T = String; $e }
            12 => { type $T = tp_client::object::ObjectHandle; $e }
            13 => { type $T = tp_client::contract::ContractDataHandle; $e }
            _ => unreachable!(),
        }
    };
}
