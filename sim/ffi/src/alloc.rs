//! Checking allocator. What the library allocates while the host is inside it
//! comes from a region whose addresses are never used again, so that every
//! wrong release, use after release and overrun shows; everything else comes
//! from the system allocator.
use dsim::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write as _;

const BASE: usize = 0x6000_0000_0000;
const SIZE: usize = 1 << 30;
const PAGE: usize = 4096;
const GRAIN: usize = 16;
/// Part of the region used when blocks are packed.
const PACKED: usize = 1 << 26;
const HEAD: usize = 32;
const TAIL: usize = 16;
const MAX: usize = 1 << 16;
const RED: u8 = 0xe7;
const FRESH: u8 = 0xa5;
const DEAD: u8 = 0xdd;

#[derive(Clone, Copy)]
pub struct Block {
    addr: usize,
    size: usize,
    align: usize,
    live: bool,
    /// First and last byte of the room around the block that must stay untouched.
    lo: usize,
    hi: usize,
    pub epoch: u32,
}
pub struct Pub;
#[global_allocator]
static GLOBAL: Pub = Pub;

static mut INSIDE: [u32; 64] = [0; 64];
static mut BLOCKS: *mut Block = std::ptr::null_mut();
static mut N: usize = 0;
static mut INDEX: *mut u32 = std::ptr::null_mut();
static mut NEXT: usize = BASE;
static mut GUARDED: bool = false;
static mut EPOCH: u32 = 0;
static mut YIELDS: bool = false;
pub static mut FREED: u64 = 0;

mod libc {
    use std::ffi::c_void;
    extern "C" {
        pub fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
        pub fn mprotect(a: *mut c_void, n: usize, p: i32) -> i32;
        pub fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
        pub fn signal(s: i32, h: usize) -> usize;
    }
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
}

/// Starts checking; `guarded` puts every block on pages of its own.
pub fn start(guarded: bool) {
    unsafe {
        let map = |at: usize, n: usize, prot: i32, fixed: i32| {
            let p = libc::mmap(at as *mut _, n, prot, 0x4022 | fixed, -1, 0);
            assert!(p as isize != -1, "mmap failed");
            p as usize
        };
        assert!(map(BASE, SIZE, if guarded { 0 } else { 3 }, 0x100000) == BASE);
        BLOCKS = map(0, MAX * std::mem::size_of::<Block>(), 3, 0) as *mut Block;
        INDEX = map(0, (PACKED / GRAIN) * 4, 3, 0) as *mut u32;
        GUARDED = guarded;
        let a = libc::SigAction { handler: on_segv as usize, mask: [0; 16], flags: 4, restorer: 0 };
        libc::sigaction(11, &a, std::ptr::null_mut());
        libc::sigaction(7, &a, std::ptr::null_mut());
    }
}
/// Whether other threads may run whenever the library allocates or frees.
pub fn yields(on: bool) {
    unsafe { YIELDS = on }
}
/// Marks all blocks from here on; returns the mark.
pub fn next_epoch() -> u32 {
    unsafe {
        EPOCH += 1;
        EPOCH
    }
}

struct Inside(usize);
/// Runs `f` as library code.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    point();
    let me = thread_no();
    let me = if me < 0 { 63 } else { me as usize };
    unsafe { INSIDE[me] += 1 };
    let _i = Inside(me);
    f()
}
impl Drop for Inside {
    fn drop(&mut self) {
        unsafe { INSIDE[self.0] -= 1 }
    }
}
/// Runs `f` as host code, from within the library.
fn outside<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let me = thread_no().max(0) as usize;
        let old = INSIDE[me];
        INSIDE[me] = 0;
        let r = f();
        INSIDE[me] = old;
        r
    }
}
fn inside() -> bool {
    let me = thread_no();
    me >= 0 && unsafe { !BLOCKS.is_null() && INSIDE[me as usize] > 0 }
}
fn slot(addr: usize) -> Option<usize> {
    if !(BASE..BASE + SIZE).contains(&addr) {
        return None;
    }
    let i = if unsafe { GUARDED } { (addr - BASE) / PAGE } else { (addr - BASE) / GRAIN };
    Some(i.min(PACKED / GRAIN - 1))
}
/// The block at or around an address of the region.
fn find(addr: usize) -> Option<usize> {
    let i = slot(addr)?;
    let b = unsafe { *INDEX.add(i) } as usize;
    if b == 0 {
        None
    } else {
        Some(b - 1)
    }
}
unsafe fn fill(lo: usize, hi: usize, v: u8) {
    std::ptr::write_bytes(lo as *mut u8, v, hi - lo)
}
unsafe fn is_filled(lo: usize, hi: usize, v: u8) -> bool {
    std::slice::from_raw_parts(lo as *const u8, hi - lo).iter().all(|b| *b == v)
}

unsafe fn get(l: Layout) -> *mut u8 {
    if YIELDS {
        point();
    }
    let size = l.size();
    let align = l.align().max(GRAIN);
    assert!(N < MAX && align <= PAGE, "checking allocator exhausted");
    let (addr, lo, hi);
    if GUARDED {
        let pages = (size + PAGE - 1) / PAGE * PAGE;
        let pages = pages.max(PAGE);
        // An untouchable page follows.
        addr = (NEXT + pages - size) & !(align - 1);
        lo = NEXT;
        hi = NEXT + pages;
        assert!(hi + PAGE < BASE + SIZE, "checking allocator exhausted");
        assert!(libc::mprotect(lo as *mut _, pages, 3) == 0, "mprotect failed");
        NEXT = hi + PAGE;
        let mut p = lo;
        while p <= hi {
            *INDEX.add((p - BASE) / PAGE) = N as u32 + 1;
            p += PAGE;
        }
    } else {
        addr = (NEXT + HEAD + align - 1) & !(align - 1);
        lo = addr - HEAD;
        hi = (addr + size + TAIL + GRAIN - 1) & !(GRAIN - 1);
        assert!(hi < BASE + PACKED, "checking allocator exhausted");
        NEXT = hi;
        let mut p = lo & !(GRAIN - 1);
        while p < hi {
            *INDEX.add((p - BASE) / GRAIN) = N as u32 + 1;
            p += GRAIN;
        }
    }
    fill(lo, addr, RED);
    fill(addr, addr + size, FRESH);
    fill(addr + size, hi, RED);
    *BLOCKS.add(N) = Block { addr, size, align: l.align(), live: true, lo, hi, epoch: EPOCH };
    N += 1;
    addr as *mut u8
}
unsafe fn put(p: *mut u8, l: Layout) {
    if YIELDS && inside() {
        point();
    }
    let Some(i) = find(p as usize) else {
        return bad("invalid release", "a pointer that was never handed out was released");
    };
    let b = &mut *BLOCKS.add(i);
    if b.addr != p as usize {
        return bad("invalid release", "a pointer into a block was released");
    }
    if !b.live {
        return bad("double release", "memory was released twice");
    }
    if b.size != l.size() || b.align != l.align() {
        bad("mismatched release", "memory was released with another size or alignment");
    }
    if !is_filled(b.lo, b.addr, RED) || !is_filled(b.addr + b.size, b.hi, RED) {
        bad("overrun", "memory around a block was written");
    }
    b.live = false;
    FREED += 1;
    if GUARDED {
        assert!(libc::mprotect(b.lo as *mut _, b.hi - b.lo, 0) == 0, "mprotect failed");
    } else {
        fill(b.addr, b.addr + b.size, DEAD);
    }
}
fn bad(class: &str, msg: &str) {
    outside(|| deviation(&["C14"], class, msg))
}

unsafe impl GlobalAlloc for Pub {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if inside() {
            get(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if slot(p as usize).is_some() {
            put(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if slot(p as usize).is_none() && !inside() {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        self.dealloc(p, l);
        q
    }
}

extern "C" fn on_segv(sig: i32, info: *const u8, _c: *const u8) {
    unsafe {
        libc::signal(sig, 0);
        let addr = *(info.add(16) as *const usize);
        let mut text = [0u8; 200];
        let mut w = &mut text[..];
        let class = match find(addr) {
            Some(i) => {
                let b = &*BLOCKS.add(i);
                if b.live {
                    let _ = write!(w, "access {} bytes past the start of a block of {} bytes", addr.wrapping_sub(b.addr) as isize, b.size);
                    "overrun"
                } else {
                    let _ = write!(w, "access {} bytes into a released block of {} bytes", addr.wrapping_sub(b.addr) as isize, b.size);
                    "use after release"
                }
            }
            None => {
                let _ = write!(w, "access to {}", if addr == 0xdddd_dddd_dddd_dddd { "an address read from released memory" } else { "an invalid address" });
                "wild access"
            }
        };
        let n = 200 - w.len();
        INSIDE = [0; 64];
        violation(class, std::str::from_utf8_unchecked(&text[..n]))
    }
}

/// Checks that nothing wrote to released memory or around blocks.
pub fn check_integrity() {
    unsafe {
        for i in 0..N {
            let b = &*BLOCKS.add(i);
            if b.live {
                ensure_for!(&["C14"], is_filled(b.lo, b.addr, RED) && is_filled(b.addr + b.size, b.hi, RED), "overrun",
                    "memory around a block of {} bytes was written", b.size);
            } else if !GUARDED {
                ensure_for!(&["C14"], is_filled(b.addr, b.addr + b.size, DEAD), "write after release",
                    "a released block of {} bytes was written", b.size);
            }
        }
    }
}

/// Blocks of epochs from `since` on that are live and can't be reached from
/// static or thread-local data, and those that can: (count, bytes) each.
pub fn leftover(since: u32) -> ((usize, usize), (usize, usize), String) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut roots: Vec<(usize, usize)> = Vec::new();
    for l in maps.lines() {
        let mut f = l.split_whitespace();
        let (Some(r), Some(p)) = (f.next(), f.next()) else { continue };
        let path = f.nth(3).unwrap_or("");
        if !p.starts_with("rw") || !p.ends_with('p') {
            continue;
        }
        let Some((a, b)) = r.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
        let prev_end = roots.last().map_or(0, |x| x.1);
        // .data of a file, and the .bss right behind it
        if path.starts_with('/') && !path.contains("memfd") || (path.is_empty() && a == prev_end) {
            roots.push((a, b));
        }
    }
    unsafe {
        let fs: usize;
        std::arch::asm!("mov {}, qword ptr fs:[0]", out(reg) fs);
        roots.push((fs - 4096, fs));
        let mut seen = vec![false; N];
        let mut todo: Vec<usize> = Vec::new();
        let scan = |lo: usize, hi: usize, seen: &mut Vec<bool>, todo: &mut Vec<usize>| {
            let mut p = (lo + 7) & !7;
            while p + 8 <= hi {
                let v = (p as *const usize).read_volatile();
                if let Some(i) = find(v) {
                    if (*BLOCKS.add(i)).live && !seen[i] {
                        seen[i] = true;
                        todo.push(i);
                    }
                }
                p += 8;
            }
        };
        for (a, b) in &roots {
            scan(*a, *b, &mut seen, &mut todo);
        }
        while let Some(i) = todo.pop() {
            let b = *BLOCKS.add(i);
            scan(b.addr, b.addr + b.size, &mut seen, &mut todo);
        }
        let (mut lost, mut kept) = ((0, 0), (0, 0));
        let mut text = String::new();
        for i in 0..N {
            let b = *BLOCKS.add(i);
            if !b.live || b.epoch < since {
                continue;
            }
            let x = if seen[i] { &mut kept } else { &mut lost };
            x.0 += 1;
            x.1 += b.size;
            if !seen[i] && lost.0 <= 8 {
                text.push_str(&format!(" #{i}:{}", b.size));
            }
        }
        (lost, kept, text)
    }
}
pub fn total_blocks() -> usize {
    unsafe { N }
}
