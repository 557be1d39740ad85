//! Contracts used by the workloads.
use crate::val::*;
use std::any::TypeId;
use tp_client::contract::properties::channels::{ChannelId, DynChannelId, IChannels};
use tp_client::contract::properties::dynamic::TpPropertyType;
use tp_client::contract::properties::states::{DynStateId, IStates, StateId};
use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

/// What the workloads need to know about a contract type.
pub trait SimContract: Contract {
    const NAME: &'static str;
    fn state_types() -> Vec<usize>;
    fn channel_types() -> Vec<usize>;
    /// Identifiers by named accessor, where the contract has them.
    fn named_states(&self) -> Vec<DynStateId> {
        Vec::new()
    }
    fn named_channels(&self) -> Vec<DynChannelId> {
        Vec::new()
    }
    fn state_names() -> Option<Vec<&'static str>> {
        None
    }
    fn channel_names() -> Option<Vec<&'static str>> {
        None
    }
}

macro_rules! manual {
    ($st:ident, $trait:ident, $types:expr) => {
        pub struct $st;
        impl $trait for $st {
            fn type_ids() -> &'static [TypeId] {
                tp_client::lazy_static::lazy_static! {
                    static ref X: Vec<TypeId> = $types.iter().map(|t| type_id_of(*t)).collect();
                }
                &X
            }
            fn enumerate_types() -> &'static [TpPropertyType] {
                tp_client::lazy_static::lazy_static! {
                    static ref X: Vec<TpPropertyType> = $types.iter().map(|t| TYPES[*t]).collect();
                }
                &X
            }
            fn field_names() -> &'static [&'static str] {
                tp_client::lazy_static::lazy_static! {
                    static ref X: Vec<&'static str> = (0..$types.len()).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect();
                }
                &X
            }
        }
    };
}
macro_rules! manual_contract {
    ($c:ident, $name:literal, $version:expr, $s:ident, $stypes:expr, $ch:ident, $ctypes:expr) => {
        manual!($s, IStates, $stypes);
        manual!($ch, IChannels, $ctypes);
        pub struct $c {
            handle: ContractDataHandle,
            states: $s,
            channels: $ch,
        }
        impl Contract for $c {
            type States = $s;
            type Channels = $ch;
            const ID: ContractId = ContractId { name: $name, version: $version };
            fn new(handle: ContractDataHandle) -> Self {
                Self { handle, states: $s, channels: $ch }
            }
            fn states(&self) -> &$s {
                &self.states
            }
            fn channels(&self) -> &$ch {
                &self.channels
            }
            fn handle(&self) -> ContractDataHandle {
                self.handle
            }
        }
        impl SimContract for $c {
            const NAME: &'static str = stringify!($c);
            fn state_types() -> Vec<usize> {
                $stypes.to_vec()
            }
            fn channel_types() -> Vec<usize> {
                $ctypes.to_vec()
            }
        }
    };
}

const ALL: [usize; 32] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 3, 11, 17, 3,
];
const ALL_CH: [usize; 29] = [
    27, 26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0, 10,
];
const TWO: [usize; 2] = [3, 3];
const MIX: [usize; 5] = [11, 3, 12, 25, 0];
const MIX_CH: [usize; 3] = [10, 3, 10];
const NONE: [usize; 0] = [];
manual_contract!(Full, "sim.full", (1, 0, 0), FullStates, ALL, FullChannels, ALL_CH);
manual_contract!(Pair, "sim.pair", (0, 1, 2), PairStates, TWO, PairChannels, NONE);
// Differ from Pair in one part of the identity only.
manual_contract!(PairNext, "sim.pair", (0, 1, 3), PairNextStates, TWO, PairNextChannels, NONE);
manual_contract!(PairMajor, "sim.pair", (1, 1, 2), PairMajorStates, TWO, PairMajorChannels, NONE);
manual_contract!(PairMinor, "sim.pair", (0, 2, 2), PairMinorStates, TWO, PairMinorChannels, NONE);
manual_contract!(PairName, "sim.pair2", (0, 1, 2), PairNameStates, TWO, PairNameChannels, NONE);
manual_contract!(Mixed, "sim.mixed", (7, 7, 7), MixedStates, MIX, MixedChannels, MIX_CH);

/// Of more properties than fit a byte; only used where that matters.
const WIDE: [usize; 300] = [3; 300];
const WIDE_CH: [usize; 290] = [3; 290];
manual_contract!(Wide, "sim.wide", (9, 9, 9), WideStates, WIDE, WideChannels, WIDE_CH);

pub struct Empty {
    handle: ContractDataHandle,
}
impl Contract for Empty {
    type States = ();
    type Channels = ();
    const ID: ContractId = ContractId { name: "sim.empty", version: (0, 0, 0) };
    fn new(handle: ContractDataHandle) -> Self {
        Self { handle }
    }
    fn states(&self) -> &() {
        &()
    }
    fn channels(&self) -> &() {
        &()
    }
    fn handle(&self) -> ContractDataHandle {
        self.handle
    }
}
impl SimContract for Empty {
    const NAME: &'static str = "Empty";
    fn state_types() -> Vec<usize> {
        Vec::new()
    }
    fn channel_types() -> Vec<usize> {
        Vec::new()
    }
}

macro_rules! named {
    ($macro_:ident, $st:ident, $idty:ident, $dynid:ident, $prim:path; $($f:ident: $t:ty = $no:literal $v:ident),* $(,)?) => {
        #[$macro_]
        pub struct $st { $($f: $t),* }
        impl $st {
            pub fn sim_types() -> Vec<usize> { vec![$($no),*] }
            pub fn sim_names() -> Vec<&'static str> { vec![$(stringify!($f)),*] }
            pub fn sim_ids(&self) -> Vec<$dynid> {
                use $prim as P;
                vec![$({ let id: $idty<$t> = self.$f(); $dynid::Primitive(P::$v(id)) }),*]
            }
        }
    };
}
named!(states, NamedStates, StateId, DynStateId, tp_client::contract::properties::states::id::DynStateIdPrimitive;
    a: u8 = 0 U8, b: u16 = 1 U16, c: u32 = 2 U32, d: u64 = 3 U64, e: i8 = 4 I8, f: i16 = 5 I16, g: i32 = 6 I32,
    h: i64 = 7 I64, i: bool = 8 Bool, j: f32 = 9 F32, k: f64 = 10 F64, l: String = 11 String,
    m: ObjectHandle = 12 ObjectHandle, n: ContractDataHandle = 13 ContractDataHandle,
    second_u64: u64 = 3 U64, second_str: String = 11 String, third_u64: u64 = 3 U64,
);
named!(channels, NamedChannels, ChannelId, DynChannelId, tp_client::contract::properties::channels::DynChannelIdPrimitive;
    x: f64 = 10 F64, y: f64 = 10 F64, z: i32 = 6 I32, name: String = 11 String,
    target: ObjectHandle = 12 ObjectHandle,
);
pub struct Named {
    handle: ContractDataHandle,
    states: NamedStates,
    channels: NamedChannels,
}
impl Contract for Named {
    type States = NamedStates;
    type Channels = NamedChannels;
    const ID: ContractId = ContractId { name: "sim.named", version: (65535, 0, 1) };
    fn new(handle: ContractDataHandle) -> Self {
        Self { handle, states: NamedStates::new(handle), channels: NamedChannels::new(handle) }
    }
    fn states(&self) -> &NamedStates {
        &self.states
    }
    fn channels(&self) -> &NamedChannels {
        &self.channels
    }
    fn handle(&self) -> ContractDataHandle {
        self.handle
    }
}
impl SimContract for Named {
    const NAME: &'static str = "Named";
    fn state_types() -> Vec<usize> {
        NamedStates::sim_types()
    }
    fn channel_types() -> Vec<usize> {
        NamedChannels::sim_types()
    }
    fn named_states(&self) -> Vec<DynStateId> {
        self.states.sim_ids()
    }
    fn named_channels(&self) -> Vec<DynChannelId> {
        self.channels.sim_ids()
    }
    fn state_names() -> Option<Vec<&'static str>> {
        Some(NamedStates::sim_names())
    }
    fn channel_names() -> Option<Vec<&'static str>> {
        Some(NamedChannels::sim_names())
    }
}

/// Calls `$m!{ extra.. ; Contract .. }` with every contract type.
#[macro_export]
macro_rules! all_contracts {
    ($m:ident $(, $x:tt)*) => {
        $m! { $($x),* ; Pair Named Full PairNext PairMajor PairMinor PairName Mixed Empty }
    };
}
