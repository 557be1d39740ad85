//! A contract with a state and a channel of every exported type, with the
//! exports a contract crate has to write for itself.
use crate::abi::*;
use crate::alloc::lib;
use crate::val::*;
use crate::with_ty;

use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::{DynChannel, DynChannelId, DynChannelIdPrimitive};
use tp_client::contract::properties::dynamic::DynTpProperty;
use tp_client::contract::properties::states::id::DynStateIdPrimitive;
use tp_client::contract::properties::states::DynStateId;
use tp_client::contract::{channels, states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

#[states]
pub struct WideStates {
    s0: u8, s1: u16, s2: u32, s3: u64, s4: i8, s5: i16, s6: i32, s7: i64, s8: bool, s9: f32, s10: f64, s11: String,
    s12: ObjectHandle, s13: ContractDataHandle,
}
#[channels]
pub struct WideChannels {
    c0: u8, c1: u16, c2: u32, c3: u64, c4: i8, c5: i16, c6: i32, c7: i64, c8: bool, c9: f32, c10: f64, c11: String,
    c12: ObjectHandle, c13: ContractDataHandle,
}
pub struct Wide {
    handle: ContractDataHandle,
    states: WideStates,
    channels: WideChannels,
}
impl Contract for Wide {
    type States = WideStates;
    type Channels = WideChannels;
    const ID: ContractId = ContractId { name: "sim.wide/ünï", version: (1, 65535, 256) };
    fn new(handle: ContractDataHandle) -> Self {
        Self { handle, states: WideStates::new(handle), channels: WideChannels::new(handle) }
    }
    fn states(&self) -> &WideStates {
        &self.states
    }
    fn channels(&self) -> &WideChannels {
        &self.channels
    }
    fn handle(&self) -> ContractDataHandle {
        self.handle
    }
}
fn wide(c: P) -> &'static Wide {
    unsafe { &*(c as *const Wide) }
}
fn base(b: P) -> &'static mut Baseline {
    unsafe { &mut *(b as *mut Baseline) }
}
pub fn wide_register(b: P) -> P {
    lib(|| Box::into_raw(Box::new(base(b).register_contract::<Wide>().unwrap())) as P)
}
pub fn wide_drop(c: P) {
    lib(|| drop(unsafe { Box::from_raw(c as *mut Wide) }))
}
pub fn wide_handle(c: P) -> P {
    wide(c).handle().give()
}
pub fn wide_remove(b: P, o: P) {
    lib(|| base(b).object_remove::<Wide>(ObjectHandle::take(o)).unwrap())
}
pub fn wide_unregister(b: P, c: P) {
    lib(|| base(b).unregister_contract::<Wide>(ContractDataHandle::take(c)).unwrap())
}
pub fn wide_state_id(c: P, i: usize) -> P {
    macro_rules! go {
        (; $(($v:ident, $t:ty))*) => {
            match wide(c).state_id(i).unwrap() {
                $(DynStateId::Primitive(DynStateIdPrimitive::$v(x)) => <$t as Foreign>::give_state_id(x),)*
                _ => unreachable!(),
            }
        };
    }
    crate::all_types!(go)
}
pub fn wide_chan_id(c: P, i: usize) -> P {
    macro_rules! go {
        (; $(($v:ident, $t:ty))*) => {
            match wide(c).chan_id(i).unwrap() {
                $(DynChannelId::Primitive(DynChannelIdPrimitive::$v(x)) => <$t as Foreign>::give_chan_id(x),)*
                _ => unreachable!(),
            }
        };
    }
    crate::all_types!(go)
}
pub fn wide_create(c: P, b: P, states: &[P], chans: &[P]) -> P {
    lib(|| {
        let states: Vec<DynTpProperty> =
            states.iter().enumerate().map(|(i, p)| with_ty!(i, T => <T as Marshal>::take(*p).into_prop())).collect();
        let chans: Vec<DynChannel> = chans
            .iter()
            .enumerate()
            .map(|(i, p)| with_ty!(i, T => DynChannel::Primitive(<T as Foreign>::take_chan(*p).into())))
            .collect();
        base(b).object_create(wide(c), states.into_iter(), chans.into_iter()).unwrap().give()
    })
}
