//! Stand-in for the `flatbuffers` runtime, version 22: wire format, builder
//! and verifier for tables, strings, vectors, unions and scalars. Nothing here
//! is unsafe: where the original would read out of bounds, this panics.
use std::marker::PhantomData;

pub type UOffsetT = u32;
pub type SOffsetT = i32;
pub type VOffsetT = u16;
pub const SIZE_UOFFSET: usize = 4;
pub const SIZE_VOFFSET: usize = 2;
pub const FILE_IDENTIFIER_LENGTH: usize = 4;

// ---------------------------------------------------------------- following

pub trait Follow<'a> {
    type Inner: 'a;
    fn follow(buf: &'a [u8], loc: usize) -> Self::Inner;
}
fn bytes<const N: usize>(buf: &[u8], loc: usize) -> [u8; N] {
    buf[loc..loc + N].try_into().unwrap()
}
/// A fixed-size value stored inline, in a table or a vector.
pub trait Scalar: Copy + PartialEq + 'static {
    const SIZE: usize;
    fn put(self, out: &mut Vec<u8>);
    fn get(buf: &[u8], loc: usize) -> Self;
}
macro_rules! scalars {
    ($($t:ty),*) => {$(
        impl Scalar for $t {
            const SIZE: usize = std::mem::size_of::<$t>();
            fn put(self, out: &mut Vec<u8>) { out.extend(self.to_le_bytes().iter().rev()) }
            fn get(buf: &[u8], loc: usize) -> Self { <$t>::from_le_bytes(bytes(buf, loc)) }
        }
        impl<'a> Follow<'a> for $t {
            type Inner = $t;
            fn follow(buf: &'a [u8], loc: usize) -> $t { <$t as Scalar>::get(buf, loc) }
        }
        impl Verifiable for $t {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> { v.inline(pos, Self::SIZE, Self::SIZE) }
        }
        impl Push for $t {
            type Output = $t;
            const WIDTH: usize = std::mem::size_of::<$t>();
            fn push(&self, b: &mut FlatBufferBuilder<'_>) { Scalar::put(*self, &mut b.rev) }
        }
    )*}
}
scalars!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64);
impl Scalar for bool {
    const SIZE: usize = 1;
    fn put(self, out: &mut Vec<u8>) {
        out.push(self as u8)
    }
    fn get(buf: &[u8], loc: usize) -> bool {
        buf[loc] != 0
    }
}
impl<'a> Follow<'a> for bool {
    type Inner = bool;
    fn follow(buf: &'a [u8], loc: usize) -> bool {
        Scalar::get(buf, loc)
    }
}
impl Verifiable for bool {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
        v.inline(pos, 1, 1)
    }
}
/// For the enumerations of the generated code.
#[macro_export]
macro_rules! enumeration {
    ($name:ident, $repr:ty) => {
        impl $crate::Scalar for $name {
            const SIZE: usize = std::mem::size_of::<$repr>();
            fn put(self, out: &mut Vec<u8>) {
                $crate::Scalar::put(self.0, out)
            }
            fn get(buf: &[u8], loc: usize) -> Self {
                Self($crate::Scalar::get(buf, loc))
            }
        }
        impl<'a> $crate::Follow<'a> for $name {
            type Inner = Self;
            fn follow(buf: &'a [u8], loc: usize) -> Self {
                $crate::Scalar::get(buf, loc)
            }
        }
        impl $crate::Verifiable for $name {
            fn run_verifier(v: &mut $crate::Verifier, pos: usize) -> Result<(), $crate::InvalidFlatbuffer> {
                <$repr as $crate::Verifiable>::run_verifier(v, pos)
            }
        }
        impl $crate::Push for $name {
            type Output = $name;
            const WIDTH: usize = std::mem::size_of::<$repr>();
            fn push(&self, b: &mut $crate::FlatBufferBuilder<'_>) {
                $crate::Push::push(&self.0, b)
            }
        }
    };
}

impl<'a> Follow<'a> for &'a str {
    type Inner = &'a str;
    fn follow(buf: &'a [u8], loc: usize) -> &'a str {
        let n = u32::follow(buf, loc) as usize;
        std::str::from_utf8(&buf[loc + 4..loc + 4 + n]).expect("not verified: a string isn't UTF-8")
    }
}
/// An offset to a `T` further on.
#[derive(Debug, Clone, Copy)]
pub struct ForwardsUOffset<T>(u32, PhantomData<T>);
impl<'a, T: Follow<'a>> Follow<'a> for ForwardsUOffset<T> {
    type Inner = T::Inner;
    fn follow(buf: &'a [u8], loc: usize) -> T::Inner {
        T::follow(buf, loc + u32::follow(buf, loc) as usize)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Table<'a> {
    pub buf: &'a [u8],
    pub loc: usize,
}
impl<'a> Table<'a> {
    pub fn new(buf: &'a [u8], loc: usize) -> Self {
        Self { buf, loc }
    }
    pub fn get<T: Follow<'a> + 'a>(&self, slot: VOffsetT, default: Option<T::Inner>) -> Option<T::Inner> {
        let vt = (self.loc as i64 - i32::follow(self.buf, self.loc) as i64) as usize;
        if slot as usize >= u16::follow(self.buf, vt) as usize {
            return default;
        }
        match u16::follow(self.buf, vt + slot as usize) {
            0 => default,
            o => Some(T::follow(self.buf, self.loc + o as usize)),
        }
    }
}
impl<'a> Follow<'a> for Table<'a> {
    type Inner = Table<'a>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Table { buf, loc }
    }
}

pub struct Vector<'a, T: 'a>(&'a [u8], usize, PhantomData<T>);
impl<'a, T> Clone for Vector<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for Vector<'a, T> {}
impl<'a, T> Vector<'a, T> {
    pub fn len(&self) -> usize {
        u32::follow(self.0, self.1) as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<'a, T: Follow<'a> + Inline + 'a> Vector<'a, T> {
    pub fn get(&self, idx: usize) -> T::Inner {
        assert!(idx < self.len(), "assertion failed: idx < self.len()");
        T::follow(self.0, self.1 + 4 + idx * T::STRIDE)
    }
    pub fn iter(&self) -> VectorIter<'a, T> {
        VectorIter { v: *self, from: 0, to: self.len() }
    }
}
impl<'a, T> std::fmt::Debug for Vector<'a, T>
where
    T: Follow<'a> + Inline + 'a,
    T::Inner: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<'a, T> Follow<'a> for Vector<'a, T> {
    type Inner = Vector<'a, T>;
    fn follow(buf: &'a [u8], loc: usize) -> Self {
        Vector(buf, loc, PhantomData)
    }
}
/// How far apart elements of a vector are.
pub trait Inline {
    const STRIDE: usize;
}
impl<T: Scalar> Inline for T {
    const STRIDE: usize = T::SIZE;
}
impl<T> Inline for ForwardsUOffset<T> {
    const STRIDE: usize = 4;
}
pub struct VectorIter<'a, T: 'a> {
    v: Vector<'a, T>,
    from: usize,
    to: usize,
}
impl<'a, T> Clone for VectorIter<'a, T> {
    fn clone(&self) -> Self {
        Self { v: self.v, from: self.from, to: self.to }
    }
}
impl<'a, T: Follow<'a> + Inline + 'a> Iterator for VectorIter<'a, T> {
    type Item = T::Inner;
    fn next(&mut self) -> Option<T::Inner> {
        if self.from == self.to {
            return None;
        }
        self.from += 1;
        Some(self.v.get(self.from - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.to - self.from, Some(self.to - self.from))
    }
}
impl<'a, T: Follow<'a> + Inline + 'a> DoubleEndedIterator for VectorIter<'a, T> {
    fn next_back(&mut self) -> Option<T::Inner> {
        if self.from == self.to {
            return None;
        }
        self.to -= 1;
        Some(self.v.get(self.to))
    }
}
impl<'a, T: Follow<'a> + Inline + 'a> ExactSizeIterator for VectorIter<'a, T> {}
impl<'a, T: Follow<'a> + Inline + 'a> std::iter::FusedIterator for VectorIter<'a, T> {}
impl<'a, T: Follow<'a> + Inline + 'a> IntoIterator for Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}
impl<'a, 'b, T: Follow<'a> + Inline + 'a> IntoIterator for &'b Vector<'a, T> {
    type Item = T::Inner;
    type IntoIter = VectorIter<'a, T>;
    fn into_iter(self) -> VectorIter<'a, T> {
        self.iter()
    }
}

// ----------------------------------------------------------------- building

/// Where something already written is, counted from the end of the buffer.
pub struct WIPOffset<T>(UOffsetT, PhantomData<T>);
impl<T> Clone for WIPOffset<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for WIPOffset<T> {}
impl<T> PartialEq for WIPOffset<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for WIPOffset<T> {}
impl<T> std::fmt::Debug for WIPOffset<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "WIPOffset({})", self.0)
    }
}
impl<T> WIPOffset<T> {
    pub fn new(o: UOffsetT) -> Self {
        Self(o, PhantomData)
    }
    pub fn value(self) -> UOffsetT {
        self.0
    }
    pub fn as_union_value(&self) -> WIPOffset<UnionWIPOffset> {
        WIPOffset::new(self.0)
    }
}
pub struct UnionWIPOffset;
pub struct TableUnfinishedWIPOffset;
pub struct TableFinishedWIPOffset;

/// What can be written inline, in a table or a vector.
pub trait Push {
    type Output;
    const WIDTH: usize;
    /// Writes at the next, aligned, place.
    fn push(&self, b: &mut FlatBufferBuilder<'_>);
}
impl Push for bool {
    type Output = bool;
    const WIDTH: usize = 1;
    fn push(&self, b: &mut FlatBufferBuilder<'_>) {
        Scalar::put(*self, &mut b.rev)
    }
}
impl<T> Push for WIPOffset<T> {
    type Output = ForwardsUOffset<T>;
    const WIDTH: usize = 4;
    fn push(&self, b: &mut FlatBufferBuilder<'_>) {
        // Relative to the place it is written to.
        let n = (b.rev.len() as u32 + 4).checked_sub(self.0).expect("attempt to subtract with overflow");
        n.put(&mut b.rev)
    }
}

pub struct FlatBufferBuilder<'fbb> {
    /// The buffer from its end to its beginning.
    rev: Vec<u8>,
    out: Vec<u8>,
    slots: Vec<(VOffsetT, u32)>,
    vtables: Vec<u32>,
    shared: std::collections::HashMap<String, u32>,
    min_align: usize,
    nested: bool,
    finished: bool,
    life: PhantomData<&'fbb ()>,
}
impl<'fbb> Default for FlatBufferBuilder<'fbb> {
    fn default() -> Self {
        Self::new()
    }
}
impl<'fbb> FlatBufferBuilder<'fbb> {
    pub fn new() -> Self {
        Self {
            rev: Vec::new(),
            out: Vec::new(),
            slots: Vec::new(),
            vtables: Vec::new(),
            shared: std::collections::HashMap::new(),
            min_align: 0,
            nested: false,
            finished: false,
            life: PhantomData,
        }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn reset(&mut self) {
        *self = Self::new()
    }
    fn align(&mut self, len: usize, alignment: usize) {
        self.min_align = self.min_align.max(alignment);
        while (self.rev.len() + len) % alignment != 0 {
            self.rev.push(0)
        }
    }
    pub fn push<P: Push>(&mut self, x: P) -> WIPOffset<P::Output> {
        self.align(P::WIDTH, P::WIDTH);
        x.push(self);
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn push_slot<X: Push + PartialEq>(&mut self, slot: VOffsetT, x: X, default: X) {
        assert!(self.nested, "builder must be nested");
        if x != default {
            self.push_slot_always(slot, x)
        }
    }
    pub fn push_slot_always<X: Push>(&mut self, slot: VOffsetT, x: X) {
        assert!(self.nested, "builder must be nested");
        let at = self.push(x).value();
        self.slots.push((slot, at));
    }
    pub fn start_table(&mut self) -> WIPOffset<TableUnfinishedWIPOffset> {
        assert!(!self.nested && !self.finished, "builder must not be nested nor finished");
        self.nested = true;
        self.slots.clear();
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn end_table(&mut self, start: WIPOffset<TableUnfinishedWIPOffset>) -> WIPOffset<TableFinishedWIPOffset> {
        assert!(self.nested, "builder must be nested");
        self.align(4, 4);
        // The offset of the vtable, filled in below.
        0xf0f0_f0f0u32.put(&mut self.rev);
        let table = self.rev.len() as u32;
        let slots = std::mem::take(&mut self.slots);
        let vlen = slots.iter().map(|s| s.0 as usize + 2).max().unwrap_or(4).max(4);
        let mut vt = vec![0u8; vlen];
        vt[..2].copy_from_slice(&(vlen as u16).to_le_bytes());
        vt[2..4].copy_from_slice(&((table - start.value()) as u16).to_le_bytes());
        for (slot, at) in slots {
            vt[slot as usize..slot as usize + 2].copy_from_slice(&((table - at) as u16).to_le_bytes());
        }
        let rev: Vec<u8> = vt.iter().rev().copied().collect();
        let same = self.vtables.iter().find(|&&v| {
            let v = v as usize;
            v >= vlen && self.rev[v - vlen..v] == rev[..]
        });
        let vt_at = match same {
            Some(&v) => v,
            None => {
                self.align(vlen, 2);
                self.rev.extend(&rev);
                let v = self.rev.len() as u32;
                self.vtables.push(v);
                v
            }
        };
        let soff = (vt_at as i64 - table as i64) as i32;
        for (i, b) in soff.to_le_bytes().iter().enumerate() {
            self.rev[table as usize - 1 - i] = *b;
        }
        self.nested = false;
        WIPOffset::new(table)
    }
    pub fn create_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        assert!(!self.nested && !self.finished, "builder must not be nested nor finished");
        self.align(s.len() + 1, 4);
        self.rev.push(0);
        self.rev.extend(s.bytes().rev());
        (s.len() as u32).put(&mut self.rev);
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn create_shared_string<'a: 'b, 'b>(&'a mut self, s: &'b str) -> WIPOffset<&'fbb str> {
        if let Some(&at) = self.shared.get(s) {
            return WIPOffset::new(at);
        }
        let at = self.create_string(s);
        self.shared.insert(s.to_string(), at.value());
        at
    }
    pub fn create_byte_string(&mut self, s: &[u8]) -> WIPOffset<&'fbb [u8]> {
        let at = self.create_vector_from_iter(s.iter().copied().chain([0]).collect::<Vec<u8>>().into_iter());
        let n = self.rev.len();
        for (i, b) in (s.len() as u32).to_le_bytes().iter().enumerate() {
            self.rev[n - 1 - i] = *b;
        }
        WIPOffset::new(at.value())
    }
    pub fn create_vector_of_strings<'a, 'b>(&'a mut self, xs: &'b [&'b str]) -> WIPOffset<Vector<'fbb, ForwardsUOffset<&'fbb str>>> {
        let at: Vec<_> = xs.iter().rev().map(|s| self.create_string(s)).collect();
        self.create_vector_from_iter(at.into_iter().rev())
    }
    pub fn create_vector<'a: 'b, 'b, T: Push + Copy + 'b>(&'a mut self, items: &'b [T]) -> WIPOffset<Vector<'fbb, T::Output>> {
        self.create_vector_from_iter(items.iter().copied())
    }
    pub fn create_vector_from_iter<T: Push + Copy>(
        &mut self,
        items: impl ExactSizeIterator<Item = T> + DoubleEndedIterator,
    ) -> WIPOffset<Vector<'fbb, T::Output>> {
        assert!(!self.nested && !self.finished, "builder must not be nested nor finished");
        let n = items.len();
        self.align(n * T::WIDTH, T::WIDTH.max(4));
        for x in items.rev() {
            x.push(self);
        }
        (n as u32).put(&mut self.rev);
        WIPOffset::new(self.rev.len() as u32)
    }
    pub fn finish<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>) {
        self.finish_with(root, ident, false)
    }
    pub fn finish_minimal<T>(&mut self, root: WIPOffset<T>) {
        self.finish_with(root, None, false)
    }
    pub fn finish_size_prefixed<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>) {
        self.finish_with(root, ident, true)
    }
    fn finish_with<T>(&mut self, root: WIPOffset<T>, ident: Option<&str>, prefixed: bool) {
        assert!(!self.nested && !self.finished, "builder must not be nested nor finished");
        let min = self.min_align.max(4);
        self.align(4 + if ident.is_some() { FILE_IDENTIFIER_LENGTH } else { 0 } + if prefixed { 4 } else { 0 }, min);
        if let Some(id) = ident {
            assert_eq!(id.len(), FILE_IDENTIFIER_LENGTH);
            self.rev.extend(id.bytes().rev());
        }
        root.push(self);
        if prefixed {
            (self.rev.len() as u32).put(&mut self.rev);
        }
        self.out = self.rev.iter().rev().copied().collect();
        self.finished = true;
    }
    pub fn finished_data(&self) -> &[u8] {
        assert!(self.finished, "builder must be finished");
        &self.out
    }
    /// What has been written so far, unfinished.
    pub fn unfinished_data(&self) -> Vec<u8> {
        self.rev.iter().rev().copied().collect()
    }
    pub fn num_written_vtables(&self) -> usize {
        self.vtables.len()
    }
    /// The buffer, and where in it the finished data starts.
    pub fn collapse(self) -> (Vec<u8>, usize) {
        assert!(self.finished, "builder must be finished");
        (self.out, 0)
    }
}

// ---------------------------------------------------------------- verifying

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InvalidFlatbuffer {
    MissingRequiredField,
    InconsistentUnion,
    Utf8Error,
    MissingNullTerminator,
    Unaligned,
    RangeOutOfBounds,
    SignedOffsetOutOfBounds,
    TooManyTables,
    ApparentSizeTooLarge,
    DepthLimitReached,
}
impl std::fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for InvalidFlatbuffer {}

pub trait Verifiable {
    fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer>;
}
/// What a verifier puts up with.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct VerifierOptions {
    pub max_depth: usize,
    pub max_tables: usize,
    pub max_apparent_size: usize,
    pub ignore_missing_null_terminator: bool,
}
impl Default for VerifierOptions {
    fn default() -> Self {
        Self { max_depth: 64, max_tables: 1_000_000, max_apparent_size: 1 << 31, ignore_missing_null_terminator: false }
    }
}
pub struct Verifier<'b> {
    buf: &'b [u8],
    opts: VerifierOptions,
    depth: usize,
    tables: usize,
    apparent: usize,
}
type R = Result<(), InvalidFlatbuffer>;
impl<'b> Verifier<'b> {
    pub fn inline(&mut self, pos: usize, size: usize, align: usize) -> R {
        if pos % align != 0 {
            return Err(InvalidFlatbuffer::Unaligned);
        }
        self.range(pos, size)
    }
    fn range(&mut self, pos: usize, size: usize) -> R {
        let end = pos.saturating_add(size);
        if pos >= self.buf.len() || end > self.buf.len() {
            return Err(InvalidFlatbuffer::RangeOutOfBounds);
        }
        self.apparent += size;
        if self.apparent > self.opts.max_apparent_size {
            return Err(InvalidFlatbuffer::ApparentSizeTooLarge);
        }
        Ok(())
    }
    pub fn get_u16(&mut self, pos: usize) -> Result<u16, InvalidFlatbuffer> {
        self.inline(pos, 2, 2)?;
        Ok(u16::follow(self.buf, pos))
    }
    pub fn get_uoffset(&mut self, pos: usize) -> Result<u32, InvalidFlatbuffer> {
        self.inline(pos, 4, 4)?;
        Ok(u32::follow(self.buf, pos))
    }
    pub fn visit_table<'v>(&'v mut self, pos: usize) -> Result<TableVerifier<'v, 'b>, InvalidFlatbuffer> {
        self.inline(pos, 4, 4)?;
        let off = i32::follow(self.buf, pos);
        let vt = pos as i64 - off as i64;
        if vt < 0 || vt as usize >= self.buf.len() {
            return Err(InvalidFlatbuffer::SignedOffsetOutOfBounds);
        }
        let vt = vt as usize;
        let len = self.get_u16(vt)? as usize;
        if vt.saturating_add(len) % 2 != 0 {
            return Err(InvalidFlatbuffer::Unaligned);
        }
        self.range(vt, len)?;
        self.depth += 1;
        self.tables += 1;
        if self.depth > self.opts.max_depth {
            return Err(InvalidFlatbuffer::DepthLimitReached);
        }
        if self.tables > self.opts.max_tables {
            return Err(InvalidFlatbuffer::TooManyTables);
        }
        Ok(TableVerifier { v: self, pos, vt, len })
    }
    /// `verify_union_variant` of the original.
    pub fn verify_union_variant<T: Verifiable>(&mut self, _name: &'static str, pos: usize) -> R {
        T::run_verifier(self, pos)
    }
}
pub struct TableVerifier<'v, 'b> {
    v: &'v mut Verifier<'b>,
    pos: usize,
    vt: usize,
    len: usize,
}
impl<'v, 'b> TableVerifier<'v, 'b> {
    fn deref(&mut self, field: VOffsetT) -> Result<Option<usize>, InvalidFlatbuffer> {
        if (field as usize) < self.len {
            let o = self.v.get_u16(self.vt.saturating_add(field as usize))?;
            if o > 0 {
                return Ok(Some(self.pos.saturating_add(o as usize)));
            }
        }
        Ok(None)
    }
    pub fn visit_field<T: Verifiable>(mut self, _name: &'static str, field: VOffsetT, required: bool) -> Result<Self, InvalidFlatbuffer> {
        match self.deref(field)? {
            Some(p) => {
                T::run_verifier(self.v, p)?;
                Ok(self)
            }
            None if required => Err(InvalidFlatbuffer::MissingRequiredField),
            None => Ok(self),
        }
    }
    pub fn visit_union<K: Scalar + Verifiable>(
        mut self,
        key: VOffsetT,
        val: VOffsetT,
        required: bool,
        f: impl FnOnce(K, &mut Verifier, usize) -> R,
    ) -> Result<Self, InvalidFlatbuffer> {
        let v = self.deref(val)?;
        let k = self.deref(key)?;
        match (k, v) {
            (None, None) if required => Err(InvalidFlatbuffer::MissingRequiredField),
            (None, None) => Ok(self),
            (Some(k), Some(v)) => {
                K::run_verifier(self.v, k)?;
                let d = K::get(self.v.buf, k);
                f(d, self.v, v)?;
                Ok(self)
            }
            _ => Err(InvalidFlatbuffer::InconsistentUnion),
        }
    }
    pub fn finish(self) {
        self.v.depth -= 1;
    }
}
impl<T: Verifiable> Verifiable for ForwardsUOffset<T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let o = v.get_uoffset(pos)? as usize;
        T::run_verifier(v, pos.saturating_add(o))
    }
}
impl Verifiable for &str {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let n = v.get_uoffset(pos)? as usize;
        let from = pos.saturating_add(4);
        if n > 0 || from > v.buf.len() {
            v.range(from, n)?;
        }
        let end = from.saturating_add(n);
        std::str::from_utf8(&v.buf[from..end]).map_err(|_| InvalidFlatbuffer::Utf8Error)?;
        if !v.opts.ignore_missing_null_terminator && v.buf.get(end) != Some(&0) {
            return Err(InvalidFlatbuffer::MissingNullTerminator);
        }
        Ok(())
    }
}
fn vector_range(v: &mut Verifier, pos: usize, stride: usize) -> Result<(usize, usize), InvalidFlatbuffer> {
    let n = v.get_uoffset(pos)? as usize;
    let from = pos.saturating_add(4);
    // Vectors of 4-byte values or smaller start aligned; others need checking.
    if from % stride.min(8) != 0 && n > 0 {
        return Err(InvalidFlatbuffer::Unaligned);
    }
    if n > 0 {
        v.range(from, n.saturating_mul(stride))?;
    }
    Ok((from, n))
}
impl<T: Verifiable> Verifiable for Vector<'_, ForwardsUOffset<T>> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        let (from, n) = vector_range(v, pos, 4)?;
        for i in 0..n {
            <ForwardsUOffset<T>>::run_verifier(v, from + 4 * i)?;
        }
        Ok(())
    }
}
/// Vectors of scalars and enumerations need no look at the elements.
#[derive(Debug, Clone, Copy)]
pub struct Plain<T>(PhantomData<T>);
impl<T: Scalar> Verifiable for Plain<T> {
    fn run_verifier(v: &mut Verifier, pos: usize) -> R {
        vector_range(v, pos, T::SIZE).map(drop)
    }
}

fn verify<'a, T: Follow<'a> + Verifiable>(data: &'a [u8], at: usize, opts: &VerifierOptions) -> R {
    let mut v = Verifier { buf: data, opts: opts.clone(), depth: 0, tables: 0, apparent: 0 };
    <ForwardsUOffset<T>>::run_verifier(&mut v, at)
}
/// The root of `data`, once all that can be reached from it has been verified.
/// The file identifier isn't looked at.
pub fn root<'a, T: Follow<'a> + Verifiable + 'a>(data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    root_with_opts::<T>(&VerifierOptions::default(), data)
}
pub fn root_with_opts<'o, 'a, T: Follow<'a> + Verifiable + 'a>(opts: &'o VerifierOptions, data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    verify::<T>(data, 0, opts)?;
    Ok(<ForwardsUOffset<T>>::follow(data, 0))
}
pub fn size_prefixed_root<'a, T: Follow<'a> + Verifiable + 'a>(data: &'a [u8]) -> Result<T::Inner, InvalidFlatbuffer> {
    verify::<T>(data, 4, &VerifierOptions::default())?;
    Ok(<ForwardsUOffset<T>>::follow(data, 4))
}
/// The root of `data`, unverified: what isn't there panics when it is reached.
///
/// # Safety
/// None needed here; the original reads out of bounds.
pub unsafe fn root_unchecked<'a, T: Follow<'a> + 'a>(data: &'a [u8]) -> T::Inner {
    <ForwardsUOffset<T>>::follow(data, 0)
}
pub fn buffer_has_identifier(data: &[u8], ident: &str, size_prefixed: bool) -> bool {
    assert_eq!(ident.len(), FILE_IDENTIFIER_LENGTH);
    let at = if size_prefixed { 8 } else { 4 };
    &data[at..at + 4] == ident.as_bytes()
}
