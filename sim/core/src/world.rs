//! Helpers to reach properties of a baseline through every access path.
use crate::all_types;
use crate::contracts::SimContract;
use crate::val::*;
use dsim::*;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::dyn_handle::{DynChannelHandlePrimitive, DynChannelHandleVec};
use tp_client::contract::properties::channels::{
    ChannelHandle, ChannelId, DynChannelHandle, DynChannelId, DynChannelIdPrimitive, DynChannelIdVec, IChannelHandle,
    Keyframe,
};
use tp_client::contract::properties::states::dyn_handle::{DynStateHandlePrimitive, DynStateHandleVec};
use tp_client::contract::properties::states::id::{DynStateIdPrimitive, DynStateIdVec};
use tp_client::contract::properties::states::{DynStateHandle, DynStateId, IStateHandle, StateHandle, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

macro_rules! with_states {
    (; $(($v:ident, $t:ty))*) => {
        /// `$e` once per type, with `$x` bound to the typed handle or id.
        #[allow(unused_macros)]
        macro_rules! each_state_handle {
            ($h:expr, $x:ident => $e:expr) => {
                match $h {
                    $(DynStateHandle::Primitive(DynStateHandlePrimitive::$v($x)) => $e,)*
                    $(DynStateHandle::Vec(DynStateHandleVec::$v($x)) => $e,)*
                }
            };
        }
        macro_rules! each_channel_handle {
            ($h:expr, $x:ident => $e:expr) => {
                match $h {
                    $(DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v($x)) => $e,)*
                    $(DynChannelHandle::Vec(DynChannelHandleVec::$v($x)) => $e,)*
                }
            };
        }
        macro_rules! each_state_id {
            ($h:expr, $x:ident => $e:expr) => {
                match $h {
                    $(DynStateId::Primitive(DynStateIdPrimitive::$v($x)) => $e,)*
                    $(DynStateId::Vec(DynStateIdVec::$v($x)) => $e,)*
                }
            };
        }
        macro_rules! each_channel_id {
            ($h:expr, $x:ident => $e:expr) => {
                match $h {
                    $(DynChannelId::Primitive(DynChannelIdPrimitive::$v($x)) => $e,)*
                    $(DynChannelId::Vec(DynChannelIdVec::$v($x)) => $e,)*
                }
            };
        }

        pub fn bind_state_id(b: &Baseline, id: &DynStateId, o: ObjectHandle) -> Result<DynStateHandle, String> {
            match id {
                $(DynStateId::Primitive(DynStateIdPrimitive::$v(id)) =>
                    b.bind_state::<$t>(id.clone(), o).map(|h| DynStateHandle::Primitive(DynStateHandlePrimitive::$v(h))),)*
                $(DynStateId::Vec(DynStateIdVec::$v(id)) =>
                    b.bind_state::<Vec<$t>>(id.clone(), o).map(|h| DynStateHandle::Vec(DynStateHandleVec::$v(h))),)*
            }.map_err(|e| e.to_string())
        }
        pub fn bind_channel_id(b: &Baseline, id: &DynChannelId, o: ObjectHandle) -> Result<DynChannelHandle, String> {
            match id {
                $(DynChannelId::Primitive(DynChannelIdPrimitive::$v(id)) =>
                    b.bind_channel::<$t>(id.clone(), o).map(|h| DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v(h))),)*
                $(DynChannelId::Vec(DynChannelIdVec::$v(id)) =>
                    b.bind_channel::<Vec<$t>>(id.clone(), o).map(|h| DynChannelHandle::Vec(DynChannelHandleVec::$v(h))),)*
            }.map_err(|e| e.to_string())
        }
        /// Through `Object::state`, which exists for primitive types only.
        pub fn object_state(b: &Baseline, id: &DynStateId, o: ObjectHandle) -> Option<Result<DynStateHandle, String>> {
            match id {
                $(DynStateId::Primitive(DynStateIdPrimitive::$v(id)) => Some(
                    b.object(o).map_err(|e| e.to_string()).and_then(|ob| catching(|| ob.state::<$t>(id.clone())))
                        .map(|h| DynStateHandle::Primitive(DynStateHandlePrimitive::$v(h)))),)*
                _ => None,
            }
        }
        pub fn object_channel(b: &Baseline, id: &DynChannelId, o: ObjectHandle) -> Option<Result<DynChannelHandle, String>> {
            match id {
                $(DynChannelId::Primitive(DynChannelIdPrimitive::$v(id)) => Some(
                    b.object(o).map_err(|e| e.to_string()).and_then(|ob| catching(|| ob.channel::<$t>(id.clone())))
                        .map(|h| DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v(h)))),)*
                _ => None,
            }
        }
        /// Type number and owning contract.
        pub fn state_id_info(id: &DynStateId) -> (usize, ContractDataHandle) {
            let mut i = 0;
            $(
                if let DynStateId::Primitive(DynStateIdPrimitive::$v(x)) = id { return (i, x.contract()) }
                if let DynStateId::Vec(DynStateIdVec::$v(x)) = id { return (i + 14, x.contract()) }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub fn channel_id_info(id: &DynChannelId) -> (usize, ContractDataHandle) {
            let mut i = 0;
            $(
                if let DynChannelId::Primitive(DynChannelIdPrimitive::$v(x)) = id { return (i, x.contract()) }
                if let DynChannelId::Vec(DynChannelIdVec::$v(x)) = id { return (i + 14, x.contract()) }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub fn state_ids_equal(a: &DynStateId, b: &DynStateId) -> bool {
            match (a, b) {
                $((DynStateId::Primitive(DynStateIdPrimitive::$v(x)), DynStateId::Primitive(DynStateIdPrimitive::$v(y))) => x == y,)*
                $((DynStateId::Vec(DynStateIdVec::$v(x)), DynStateId::Vec(DynStateIdVec::$v(y))) => x == y,)*
                _ => false,
            }
        }
        pub fn channel_ids_equal(a: &DynChannelId, b: &DynChannelId) -> bool {
            match (a, b) {
                $((DynChannelId::Primitive(DynChannelIdPrimitive::$v(x)), DynChannelId::Primitive(DynChannelIdPrimitive::$v(y))) => x == y,)*
                $((DynChannelId::Vec(DynChannelIdVec::$v(x)), DynChannelId::Vec(DynChannelIdVec::$v(y))) => x == y,)*
                _ => false,
            }
        }
        /// Type number.
        pub fn state_handle_type(h: DynStateHandle) -> usize {
            let mut i = 0;
            $(
                if let DynStateHandle::Primitive(DynStateHandlePrimitive::$v(_)) = h { return i }
                if let DynStateHandle::Vec(DynStateHandleVec::$v(_)) = h { return i + 14 }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        pub fn channel_handle_type(h: DynChannelHandle) -> usize {
            let mut i = 0;
            $(
                if let DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v(_)) = h { return i }
                if let DynChannelHandle::Vec(DynChannelHandleVec::$v(_)) = h { return i + 14 }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        /// A handle of type `ty` with the index of `h`.
        #[allow(dead_code)]
        pub fn retype(h: DynStateHandle, ty: usize) -> DynStateHandle {
            let ix: arena::generational_arena::Index = each_state_handle!(h, x => x.into());
            let mut i = 0;
            $(
                if ty == i { return DynStateHandle::Primitive(DynStateHandlePrimitive::$v(arena::Index::new(ix))) }
                if ty == i + 14 { return DynStateHandle::Vec(DynStateHandleVec::$v(arena::Index::new(ix))) }
                i += 1;
            )*
            let _ = i;
            unreachable!()
        }
        fn dyn_read(m: tp_client::contract::properties::dynamic::DynTpPropertyMut<'_>) -> Val {
            use tp_client::contract::properties::dynamic::{DynTpPropertyMut, DynTpPrimitiveMut, DynTpVecMut};
            match m {
                $(DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$v(p)) => Val::One(One::$v(p.clone())),)*
                $(DynTpPropertyMut::Vec(DynTpVecMut::$v(p)) => Val::Many(Many::$v(p.to_vec())),)*
            }
        }
        fn dyn_write(m: tp_client::contract::properties::dynamic::DynTpPropertyMut<'_>, v: &Val) -> bool {
            use tp_client::contract::properties::dynamic::{DynTpPropertyMut, DynTpPrimitiveMut, DynTpVecMut};
            match (m, v) {
                $((DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$v(p)), Val::One(One::$v(x))) => { *p = x.clone(); true })*
                $((DynTpPropertyMut::Vec(DynTpVecMut::$v(p)), Val::Many(Many::$v(x))) => {
                    if p.len() == x.len() { p.clone_from_slice(x); true } else { false }
                })*
                _ => false,
            }
        }
    };
}
all_types!(with_states);

pub fn raw_state(h: DynStateHandle) -> (usize, u64) {
    let ix: arena::generational_arena::Index = each_state_handle!(h, x => x.into());
    ix.into_raw_parts()
}
pub fn raw_channel(h: DynChannelHandle) -> (usize, u64) {
    let ix: arena::generational_arena::Index = each_channel_handle!(h, x => x.into());
    ix.into_raw_parts()
}

pub const STATE_PATHS: usize = 5;
/// Reads a state through access path `path`; an error is a refusal.
pub fn read_state(b: &Baseline, h: DynStateHandle, path: usize) -> Result<Val, String> {
    fn typed<T: Ty>(b: &Baseline, h: StateHandle<T>, path: usize) -> Result<Val, String> {
        match path {
            1 => b.state(h).map(|s| s.value.clone().into_val()).map_err(|e| e.to_string()),
            2 => h.get(b).map(|s| s.value.clone().into_val()).map_err(|e| e.to_string()),
            _ => catching(|| b[h].value.clone().into_val()),
        }
    }
    match path {
        0 => b.state(h).map(|r| Val::of_ref(r.0)).map_err(|e| e.to_string()),
        4 => h.get(b).map(|r| Val::of_ref(r.0)).map_err(|e| e.to_string()),
        _ => each_state_handle!(h, x => typed(b, x, path)),
    }
}
pub const STATE_WRITE_PATHS: usize = 4;
/// Writes a state; `Ok(false)` if that path can't express the value.
pub fn write_state(b: &mut Baseline, h: DynStateHandle, v: &Val, path: usize) -> Result<bool, String> {
    fn typed<T: Ty>(b: &mut Baseline, h: StateHandle<T>, v: &Val, path: usize) -> Result<bool, String> {
        let Some(v) = T::from_val(v) else { return Ok(false) };
        match path {
            1 => b.state_mut(h).map(|s| s.value = v).map_err(|e| e.to_string())?,
            2 => h.get_mut(b).map(|s| s.value = v).map_err(|e| e.to_string())?,
            _ => catching(|| b[h].value = v)?,
        }
        Ok(true)
    }
    match path {
        0 => b.state_mut(h).map(|m| dyn_write(m.0, v)).map_err(|e| e.to_string()),
        _ => each_state_handle!(h, x => typed(b, x, v, path)),
    }
}
/// Reads a state through access that would allow writing.
pub fn touch_state(b: &mut Baseline, h: DynStateHandle, path: usize) -> Result<Val, String> {
    fn typed<T: Ty>(b: &mut Baseline, h: StateHandle<T>, path: usize) -> Result<Val, String> {
        match path {
            1 => b.state_mut(h).map(|s| s.value.clone().into_val()).map_err(|e| e.to_string()),
            2 => h.get_mut(b).map(|s| s.value.clone().into_val()).map_err(|e| e.to_string()),
            _ => catching(|| (&mut b[h]).value.clone().into_val()),
        }
    }
    match path {
        0 => b.state_mut(h).map(|m| dyn_read(m.0)).map_err(|e| e.to_string()),
        _ => each_state_handle!(h, x => typed(b, x, path)),
    }
}
pub const CHANNEL_PATHS: usize = 4;
pub fn read_channel(b: &Baseline, h: DynChannelHandle, path: usize) -> Result<Frames, String> {
    fn typed<T: Ty>(b: &Baseline, h: ChannelHandle<T>, path: usize) -> Result<Frames, String> {
        match path {
            1 => b.channel(h).map(|c| frames_of(c)).map_err(|e| e.to_string()),
            2 => h.get(b).map(|c| frames_of(c)).map_err(|e| e.to_string()),
            _ => catching(|| frames_of(&b[h])),
        }
    }
    match path {
        0 => h.get(b).map(frames_of_ref).map_err(|e| e.to_string()),
        _ => each_channel_handle!(h, x => typed(b, x, path)),
    }
}
/// Replaces part of a channel through mutable access.
#[derive(Clone, Debug)]
pub enum Edit {
    Push(Val, f64),
    Insert(usize, Val, f64),
    Replace(usize, Val, f64),
    Remove(usize),
    Swap(usize, usize),
    Clear,
}
pub fn edit_channel(b: &mut Baseline, h: DynChannelHandle, e: &Edit, path: usize) -> Result<(), String> {
    fn go<T: Ty>(k: &mut Vec<Keyframe<T>>, e: &Edit) {
        let mk = |v: &Val, t: f64| Keyframe::new(T::from_val(v).expect("type"), t);
        match e {
            Edit::Push(v, t) => k.push(mk(v, *t)),
            Edit::Insert(i, v, t) => k.insert(*i, mk(v, *t)),
            Edit::Replace(i, v, t) => k[*i] = mk(v, *t),
            Edit::Remove(i) => {
                k.remove(*i);
            }
            Edit::Swap(i, j) => k.swap(*i, *j),
            Edit::Clear => k.clear(),
        }
    }
    fn typed<T: Ty>(b: &mut Baseline, h: ChannelHandle<T>, e: &Edit, path: usize) -> Result<(), String> {
        match path {
            1 => b.channel_mut(h).map(|c| go(c.keyframes_mut(), e)).map_err(|e| e.to_string()),
            2 => h.get_mut(b).map(|c| go(c.keyframes_mut(), e)).map_err(|e| e.to_string()),
            _ => catching(|| go(b[h].keyframes_mut(), e)),
        }
    }
    macro_rules! dynamic {
        (; $(($v:ident, $t:ty))*) => {{
            use tp_client::contract::properties::channels::dyn_channel::{DynChannelPrimitiveMut, DynChannelVecMut};
            use tp_client::contract::properties::channels::DynChannelMut;
            match h.get_mut(b).map_err(|e| e.to_string())? {
                $(DynChannelMut::Primitive(DynChannelPrimitiveMut::$v(c)) => go(c.keyframes_mut(), e),)*
                $(DynChannelMut::Vec(DynChannelVecMut::$v(c)) => go(c.keyframes_mut(), e),)*
            }
            Ok(())
        }};
    }
    match path {
        0 => all_types!(dynamic),
        _ => each_channel_handle!(h, x => typed(b, x, e, path)),
    }
}
pub fn edit_model(k: &mut Frames, e: &Edit) {
    match e {
        Edit::Push(v, t) => k.push((v.clone(), *t)),
        Edit::Insert(i, v, t) => k.insert(*i, (v.clone(), *t)),
        Edit::Replace(i, v, t) => k[*i] = (v.clone(), *t),
        Edit::Remove(i) => {
            k.remove(*i);
        }
        Edit::Swap(i, j) => k.swap(*i, *j),
        Edit::Clear => k.clear(),
    }
}
/// Reads through `Object::state`/`bind_state` of an id and an object.
pub fn read_by_id(b: &Baseline, id: &DynStateId, o: ObjectHandle) -> Result<Val, String> {
    fn typed<T: Ty>(b: &Baseline, id: StateId<T>, o: ObjectHandle) -> Result<Val, String> {
        let h = b.bind_state(id, o).map_err(|e| e.to_string())?;
        b.state(h).map(|s| s.value.clone().into_val()).map_err(|e| e.to_string())
    }
    each_state_id!(id, x => typed(b, x.clone(), o))
}
pub fn read_channel_by_id(b: &Baseline, id: &DynChannelId, o: ObjectHandle) -> Result<Frames, String> {
    fn typed<T: Ty>(b: &Baseline, id: ChannelId<T>, o: ObjectHandle) -> Result<Frames, String> {
        let h = b.bind_channel(id, o).map_err(|e| e.to_string())?;
        b.channel(h).map(frames_of).map_err(|e| e.to_string())
    }
    each_channel_id!(id, x => typed(b, x.clone(), o))
}

/// All handles of an object.
pub fn bind_all<C: SimContract>(
    b: &Baseline,
    c: &C,
    o: ObjectHandle,
) -> Result<(Vec<DynStateHandle>, Vec<DynChannelHandle>), String> {
    let s = (0..C::state_types().len())
        .map(|i| bind_state_id(b, &c.state_id(i).ok_or("no state id")?, o))
        .collect::<Result<_, _>>()?;
    let k = (0..C::channel_types().len())
        .map(|i| bind_channel_id(b, &c.chan_id(i).ok_or("no channel id")?, o))
        .collect::<Result<_, _>>()?;
    Ok((s, k))
}
pub fn create<C: SimContract>(
    b: &mut Baseline,
    c: &C,
    states: &[Val],
    chans: &[(usize, Frames)],
) -> Result<ObjectHandle, String> {
    b.object_create(
        c,
        Fed::new(states.iter().map(|v| v.to_prop()).collect()),
        Fed::new(chans.iter().map(|(ty, f)| make_channel(*ty, f)).collect()),
    )
    .map_err(|e| e.to_string())
}
/// An iterator that knows no more about its length than it has to.
struct Fed<T>(std::vec::IntoIter<T>, usize, bool);
impl<T> Fed<T> {
    fn new(v: Vec<T>) -> Self {
        let hides = match choose(3) {
            0 => 0,
            1 => usize::MAX,
            _ => choose(3),
        };
        Fed(v.into_iter(), hides, chance(1, 2))
    }
}
impl<T> Iterator for Fed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        (n.saturating_sub(self.1), if self.2 { None } else { Some(n.saturating_add(self.1)) })
    }
}
/// A keyframe time, now and then one that is not a number.
pub fn gen_time() -> f64 {
    match choose(9) {
        0 => 0.0,
        1 => choose(4) as f64,
        2 => -(choose(4) as f64),
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => f64::MIN_POSITIVE,
        6 => -0.0,
        8 => match choose(4) {
            1 => f64::NAN,
            2 => -f64::NAN,
            3 => f64::from_bits(f64::INFINITY.to_bits() + 1 + choose(1 << 20) as u64),
            _ => 0.5,
        },
        _ => (bits64() as i64 as f64) / 1e6,
    }
}
pub fn gen_frames(ty: usize, p: &Pool, max: usize) -> Frames {
    let n = range(0, max);
    (0..n).map(|_| (Val::gen(ty, p), gen_time())).collect()
}
