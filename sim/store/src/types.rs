//! The contract types of the saved realms, behind one interface.
use crate::val::*;
use std::any::TypeId;
use std::marker::PhantomData;
use tp_client::apply_to_state_id;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::IChannels;
use tp_client::contract::properties::dynamic::TpPropertyType;
use tp_client::contract::properties::states::dyn_state::DynStateRef;
use tp_client::contract::properties::states::IStates;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_contract_example::ExampleContract;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};

/// A contract type, used through the public interface only.
pub trait Kind: Sync {
    fn id(&self) -> ContractId;
    fn types(&self) -> Vec<usize>;
    fn names(&self) -> Vec<&'static str>;
    fn channels(&self) -> Vec<usize>;
    fn register(&self, b: &mut Baseline) -> eyre::Result<ContractDataHandle>;
    fn unregister(&self, b: &mut Baseline, c: ContractDataHandle) -> eyre::Result<()>;
    fn create(&self, b: &mut Baseline, c: ContractDataHandle, vals: &[Val]) -> eyre::Result<ObjectHandle>;
    fn remove(&self, b: &mut Baseline, o: ObjectHandle) -> eyre::Result<()>;
    fn read(&self, b: &Baseline, c: ContractDataHandle, o: ObjectHandle) -> eyre::Result<Vec<Val>>;
    fn set(&self, b: &mut Baseline, c: ContractDataHandle, o: ObjectHandle, i: usize, v: &Val) -> eyre::Result<()>;
    fn save(&self, s: &mut Serializer, c: ContractDataHandle) -> eyre::Result<()>;
    fn find(&self, d: &mut DeserializerBuilder) -> eyre::Result<ContractDataHandle>;
    fn load(&self, d: &mut Deserializer, c: ContractDataHandle) -> eyre::Result<()>;
}
pub struct Of<C>(PhantomData<fn() -> C>);
impl<C: Contract> Kind for Of<C> {
    fn id(&self) -> ContractId {
        C::ID
    }
    fn types(&self) -> Vec<usize> {
        C::States::enumerate_types().iter().map(|t| type_no(*t)).collect()
    }
    fn names(&self) -> Vec<&'static str> {
        C::States::field_names().to_vec()
    }
    fn channels(&self) -> Vec<usize> {
        C::Channels::enumerate_types().iter().map(|t| type_no(*t)).collect()
    }
    fn register(&self, b: &mut Baseline) -> eyre::Result<ContractDataHandle> {
        b.register_contract::<C>().map(|c| c.handle())
    }
    fn unregister(&self, b: &mut Baseline, c: ContractDataHandle) -> eyre::Result<()> {
        b.unregister_contract::<C>(c)
    }
    fn create(&self, b: &mut Baseline, c: ContractDataHandle, vals: &[Val]) -> eyre::Result<ObjectHandle> {
        let chans: Vec<_> = self.channels().iter().map(|t| make_channel(*t, &Vec::new())).collect();
        b.object_create(&C::new(c), vals.iter().map(|v| v.to_prop()), chans.into_iter())
    }
    fn remove(&self, b: &mut Baseline, o: ObjectHandle) -> eyre::Result<()> {
        b.object_remove::<C>(o)
    }
    fn read(&self, b: &Baseline, c: ContractDataHandle, o: ObjectHandle) -> eyre::Result<Vec<Val>> {
        let mut out = Vec::new();
        for id in C::new(c).state_iter() {
            let v = apply_to_state_id!(id, |id| -> eyre::Result<Val> {
                let h = b.bind_state(id, o)?;
                Ok(Val::of_ref(DynStateRef::from(b.state(h)?).0))
            })?;
            out.push(v);
        }
        Ok(out)
    }
    fn set(&self, b: &mut Baseline, c: ContractDataHandle, o: ObjectHandle, i: usize, v: &Val) -> eyre::Result<()> {
        fn assign<T: Ty>(x: &mut T, v: &Val) {
            *x = T::from_val(v).expect("type");
        }
        let id = C::new(c).state_iter().nth(i).expect("state");
        apply_to_state_id!(id, |id| -> eyre::Result<()> {
            let h = b.bind_state(id, o)?;
            assign(&mut b.state_mut(h)?.value, v);
            Ok(())
        })
    }
    fn save(&self, s: &mut Serializer, c: ContractDataHandle) -> eyre::Result<()> {
        s.serialize(&C::new(c))
    }
    fn find(&self, d: &mut DeserializerBuilder) -> eyre::Result<ContractDataHandle> {
        d.register_contract::<C>().map(|c| c.handle())
    }
    fn load(&self, d: &mut Deserializer, c: ContractDataHandle) -> eyre::Result<()> {
        d.deserialize_objects(&C::new(c))
    }
}

macro_rules! fields {
    ($st:ident, $trait:ident, $names:expr, $types:expr) => {
        pub struct $st;
        impl $trait for $st {
            fn type_ids() -> &'static [TypeId] {
                tp_client::lazy_static::lazy_static! {
                    static ref X: Vec<TypeId> = $types.iter().map(|t: &usize| type_id_of(*t)).collect();
                }
                &X
            }
            fn enumerate_types() -> &'static [TpPropertyType] {
                tp_client::lazy_static::lazy_static! {
                    static ref X: Vec<TpPropertyType> = $types.iter().map(|t: &usize| TYPES[*t]).collect();
                }
                &X
            }
            fn field_names() -> &'static [&'static str] {
                &$names
            }
        }
    };
}
macro_rules! contract {
    ($c:ident, $name:literal, $version:expr, [$($f:literal: $t:expr),* $(,)?], [$($cf:literal: $ct:expr),*]) => {
        paste::paste! {
            fields!([<$c States>], IStates, [$($f),*], [$($t),*]);
            fields!([<$c Channels>], IChannels, [$($cf),*], [$($ct),*]);
            pub struct $c {
                handle: ContractDataHandle,
                states: [<$c States>],
                channels: [<$c Channels>],
            }
            impl Contract for $c {
                type States = [<$c States>];
                type Channels = [<$c Channels>];
                const ID: ContractId = ContractId { name: $name, version: $version };
                fn new(handle: ContractDataHandle) -> Self {
                    Self { handle, states: [<$c States>], channels: [<$c Channels>] }
                }
                fn states(&self) -> &Self::States {
                    &self.states
                }
                fn channels(&self) -> &Self::Channels {
                    &self.channels
                }
                fn handle(&self) -> ContractDataHandle {
                    self.handle
                }
            }
        }
    };
}
pub const U64: usize = 3;
const STR: usize = 11;
pub const OBJ: usize = 12;
pub const CON: usize = 13;
contract!(Node, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(Every, "sim.every", (0, 0, 1), ["a": 0, "b": 1, "c": 2, "d": 3, "e": 4, "f": 5, "g": 6, "h": 7, "i": 8, "j": 9, "k": 10,
    "l": 11, "m": 12, "n": 13, "o": 11, "p": 2], []);
contract!(Empty, "sim.empty", (0, 0, 0), [], []);
contract!(Tag, "sim.tag", (65535, 1, 0), ["on": 8], []);
contract!(Link, "sim.link", (2, 0, 0), ["from": OBJ, "to": OBJ], []);
contract!(Text, "ünï.code", (2, 0, 0), ["text": STR, "what": CON], []);
// Can't be loaded, or not even saved, as they are.
contract!(Moving, "sim.moving", (1, 0, 0), ["id": U64], ["x": 10]);
contract!(Lists, "sim.lists", (1, 0, 0), ["id": U64, "xs": 17], []);
contract!(Filler, "sim.filler", (1, 0, 0), ["id": U64], []);
// Like Node, but for one thing.
contract!(NodeName, "sim.node2", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeCase, "sim.Node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeMajor, "sim.node", (2, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeMinor, "sim.node", (1, 3, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodePatch, "sim.node", (1, 2, 4), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeField, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "others": OBJ, "kind": CON], []);
contract!(NodeSwap, "sim.node", (1, 2, 3), ["id": U64, "other": OBJ, "label": STR, "next": OBJ, "kind": CON], []);
contract!(NodeLast, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kinds": CON], []);
contract!(NodeFirst, "sim.node", (1, 2, 3), ["no": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeSigned, "sim.node", (1, 2, 3), ["id": 7, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeFloat, "sim.node", (1, 2, 3), ["id": 10, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeNarrow, "sim.node", (1, 2, 3), ["id": 2, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], []);
contract!(NodeKind, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": OBJ], []);
contract!(NodeList, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": 25, "other": OBJ, "kind": CON], []);
contract!(NodeShort, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ], []);
contract!(NodeLong, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON, "more": U64], []);
contract!(NodeNone, "sim.node", (1, 2, 3), [], []);
contract!(NodeChan, "sim.node", (1, 2, 3), ["id": U64, "next": OBJ, "label": STR, "other": OBJ, "kind": CON], ["x": 10]);
contract!(TagSigned, "sim.tag", (65535, 1, 0), ["on": 4], []);
contract!(TagByte, "sim.tag", (65535, 1, 0), ["on": 0], []);
contract!(EmptyFull, "sim.empty", (0, 0, 0), ["on": 8], []);
contract!(EveryLike, "sim.every", (0, 0, 1), ["a": 0, "b": 1, "c": 2, "d": 3, "e": 4, "f": 5, "g": 6, "h": 7, "i": 8, "j": 9, "k": 10,
    "l": 11, "m": 12, "n": 13, "o": 11, "p": 9], []);
contract!(EveryWide, "sim.every", (0, 0, 1), ["a": 0, "b": 1, "c": 3, "d": 3, "e": 4, "f": 5, "g": 6, "h": 7, "i": 8, "j": 9, "k": 10,
    "l": 11, "m": 12, "n": 13, "o": 11, "p": 2], []);

macro_rules! kinds {
    ($name:ident: $($c:ident)*) => {
        pub static $name: &[&dyn Kind] = &[$(&Of::<$c>(PhantomData)),*];
    };
}
kinds!(KINDS: Node Empty Link Tag Every Text ExampleContract);
kinds!(UNSTORABLE: Moving Lists);
kinds!(FILLER: Filler);
kinds!(IMPOSTERS: NodeName NodeCase NodeMajor NodeMinor NodePatch NodeField NodeSwap NodeLast NodeFirst NodeSigned NodeFloat NodeNarrow
    NodeKind NodeList NodeShort NodeLong NodeNone NodeChan TagSigned TagByte EmptyFull EveryLike EveryWide Moving Lists);
