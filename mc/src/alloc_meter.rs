//! A counting and guarding allocator: per-thread live and peak bytes while switched on, and blocks that know
//! what they are.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<u64> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
}
pub struct Meter;
fn up(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let l = LIVE.get().wrapping_add(n as u64);
            LIVE.set(l);
            PEAK.set(PEAK.get().max(if (l as i64) < 0 { 0 } else { l }));
            BIG.set(BIG.get().max(n as u64));
        }
    });
}
fn down(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.set(LIVE.get().wrapping_sub(n as u64));
        }
    });
}
/// Every block stands between a header with its size and a canary; what is freed is overwritten. A block freed
/// twice, with another layout, or written beyond its end ends the process, which is reported as a violation
/// of the case that did it; reading freed memory gives bytes that no answer contains.
const LIVE_TAG: u64 = 0x6c69_7665_626c_6f63;
const DEAD_TAG: u64 = 0x6465_6164_626c_6f63;
const CANARY: u64 = 0xc0de_cafe_f00d_beef;
/// big blocks (slot arrays) are overwritten only at their two ends
const EDGE: usize = 1 << 14;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}
fn outer(l: &Layout) -> Layout {
    // SAFETY: sizes and alignments stay far below the limits
    unsafe { Layout::from_size_align_unchecked(head(l) + l.size() + 8, head(l)) }
}
fn die(what: &str) -> ! {
    let m = b"memory corrupted: ";
    // SAFETY: plain writes to stderr, no allocation
    unsafe {
        libc::write(2, m.as_ptr().cast(), m.len());
        libc::write(2, what.as_ptr().cast(), what.len());
        libc::write(2, b"\n".as_ptr().cast(), 1);
        libc::abort()
    }
}
unsafe fn smear(p: *mut u8, n: usize, b: u8) {
    if n <= 2 * EDGE {
        p.write_bytes(b, n);
    } else {
        p.write_bytes(b, EDGE);
        p.add(n - EDGE).write_bytes(b, EDGE);
    }
}
unsafe fn dress(o: *mut u8, l: &Layout) -> *mut u8 {
    if o.is_null() {
        return o;
    }
    let p = o.add(head(l));
    p.sub(16).cast::<u64>().write(LIVE_TAG);
    p.sub(8).cast::<u64>().write(l.size() as u64);
    p.add(l.size()).cast::<u64>().write_unaligned(CANARY);
    p
}
unsafe fn inspect(p: *mut u8, l: &Layout) {
    match p.sub(16).cast::<u64>().read() {
        LIVE_TAG => {}
        DEAD_TAG => die("a block was freed twice"),
        _ => die("something was freed that is not a block"),
    }
    if p.sub(8).cast::<u64>().read() != l.size() as u64 {
        die("a block was freed with another size than it was allocated with");
    }
    if p.add(l.size()).cast::<u64>().read_unaligned() != CANARY {
        die("a block was written beyond its end");
    }
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        unsafe {
            let p = dress(System.alloc(outer(&l)), &l);
            if !p.is_null() {
                smear(p, l.size(), 0xa5);
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        unsafe { dress(System.alloc_zeroed(outer(&l)), &l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        unsafe {
            inspect(p, &l);
            smear(p, l.size(), 0xdd);
            p.sub(16).cast::<u64>().write(DEAD_TAG);
            System.dealloc(p.sub(head(&l)), outer(&l))
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, n.min(l.size()));
                self.dealloc(p, l);
            }
            q
        }
    }
}
pub fn start() {
    LIVE.set(0);
    PEAK.set(0);
    BIG.set(0);
    ON.set(true);
}
/// (peak, largest single allocation) since start, in bytes
pub fn read() -> (u64, u64) {
    (PEAK.get(), BIG.get())
}
/// bytes allocated and not freed since start
pub fn live() -> u64 {
    LIVE.get()
}
pub fn pause() {
    ON.set(false);
}
pub fn resume() {
    ON.set(true);
}
pub fn stop() {
    ON.set(false);
}
