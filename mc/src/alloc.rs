//! Global allocator of the checker: aligns blocks to 64 bytes, so that which SIMD path rawdio takes does not depend
//! on where malloc happens to put a buffer (or puts them beside that on purpose, following a pattern), and follows
//! chosen blocks to see which side of the engine frees them.

use crossbeam::mc::{is_own, role, tag, Role};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct Alloc;

/// What is done with the blocks of an execution. An execution runs one thread at a time, all with the same tag.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Track {
    Off,
    /// follow the blocks the control side allocates from now on
    Record,
    /// follow no further blocks, forget those freed
    Hold,
    /// note who frees the blocks followed
    Watch,
}

const TAGS: usize = 17;
const BLOCKS: usize = 2048;

struct Table {
    mode: AtomicU8,
    n: AtomicUsize,
    /// address of a block followed, or 0
    at: [AtomicUsize; BLOCKS],
    size: [AtomicUsize; BLOCKS],
    freed: [AtomicUsize; 3],
    /// size of the last block freed by the audio side
    last: AtomicUsize,
}
static TABLES: [Table; TAGS] = [const {
    Table {
        mode: AtomicU8::new(0),
        n: AtomicUsize::new(0),
        at: [const { AtomicUsize::new(0) }; BLOCKS],
        size: [const { AtomicUsize::new(0) }; BLOCKS],
        freed: [const { AtomicUsize::new(0) }; 3],
        last: AtomicUsize::new(0),
    }
}; TAGS];

fn table() -> Option<&'static Table> {
    let t = TABLES.get(tag())?;
    (t.mode.load(Relaxed) != Track::Off as u8).then_some(t)
}

impl Table {
    fn add(&self, p: usize, size: usize) {
        let n = self.n.load(Relaxed);
        if self.mode.load(Relaxed) == Track::Record as u8 && role() == Role::Control && n < BLOCKS {
            self.at[n].store(p, Relaxed);
            self.size[n].store(size, Relaxed);
            self.n.store(n + 1, Relaxed);
        }
    }
    fn find(&self, p: usize) -> Option<usize> {
        (0..self.n.load(Relaxed)).find(|i| self.at[*i].load(Relaxed) == p)
    }
    fn remove(&self, p: usize) {
        let Some(i) = self.find(p) else { return };
        if self.mode.load(Relaxed) == Track::Watch as u8 {
            self.at[i].store(0, Relaxed);
            let r = role() as usize;
            self.freed[r].fetch_add(1, Relaxed);
            if role() == Role::Audio {
                self.last.store(self.size[i].load(Relaxed), Relaxed);
            }
        } else {
            let n = self.n.load(Relaxed) - 1;
            self.at[i].store(self.at[n].load(Relaxed), Relaxed);
            self.size[i].store(self.size[n].load(Relaxed), Relaxed);
            self.n.store(n, Relaxed);
        }
    }
}

/// Where the blocks of an execution are put: number of blocks so far, and the pattern.
struct Place {
    n: AtomicUsize,
    /// length in the lowest byte, then two bits each: how many times 16 bytes beyond a multiple of 64
    pattern: AtomicU64,
}
static PLACES: [Place; TAGS] = [const { Place { n: AtomicUsize::new(0), pattern: AtomicU64::new(0) } }; TAGS];

/// The memory in use by an execution.
#[repr(align(64))]
struct Live(AtomicI64);
static LIVE: [Live; TAGS] = [const { Live(AtomicI64::new(0)) }; TAGS];

/// How often the audio side has allocated or freed memory.
static TAKES: [Live; TAGS] = [const { Live(AtomicI64::new(0)) }; TAGS];

fn count(by: isize) {
    let Some(l) = LIVE.get(tag()) else { return };
    l.0.fetch_add(by as i64, Relaxed);
    if role() == Role::Audio && !is_own() {
        TAKES[tag()].0.fetch_add(1, Relaxed);
    }
}

/// How often executions with the tag of the calling thread have allocated or freed memory on the audio side.
pub fn takes() -> i64 {
    TAKES.get(tag()).map_or(0, |l| l.0.load(Relaxed))
}

/// Bytes allocated and not freed by executions with the tag of the calling thread.
pub fn live() -> i64 {
    LIVE.get(tag()).map_or(0, |l| l.0.load(Relaxed))
}

fn place(pattern: u64) {
    if let Some(p) = PLACES.get(tag()) {
        p.n.store(0, Relaxed);
        p.pattern.store(pattern, Relaxed);
    }
}

/// Run something with the blocks it allocates put at 0, 16, 32 or 48 bytes beyond a multiple of 64, by the base-4
/// digits of `digits`, repeated every `len` blocks.
pub fn placed<T>(len: usize, digits: u64, f: impl FnOnce() -> T) -> T {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            place(0);
        }
    }
    let _end = End;
    place(digits << 8 | len as u64);
    f()
}

const LINE: usize = 64;
const MOST: usize = 48;

fn movable(l: Layout) -> bool {
    l.size() >= LINE && l.align() <= 16
}

fn offset() -> usize {
    let Some(p) = PLACES.get(tag()) else { return 0 };
    let pattern = p.pattern.load(Relaxed);
    let len = (pattern & 0xff) as usize;
    if len == 0 {
        return 0;
    }
    let n = p.n.load(Relaxed);
    p.n.store(n + 1, Relaxed);
    (pattern >> (8 + 2 * (n % len)) & 3) as usize * 16
}

fn wider(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + MOST, LINE) }
}

unsafe fn get(l: Layout, zero: bool) -> *mut u8 {
    count(l.size() as isize);
    let (layout, by) = if movable(l) { (wider(l), offset()) } else { (l, 0) };
    let p = if zero { System.alloc_zeroed(layout) } else { System.alloc(layout) };
    if p.is_null() {
        p
    } else {
        p.add(by)
    }
}

unsafe fn put(p: *mut u8, l: Layout) {
    count(-(l.size() as isize));
    if movable(l) {
        System.dealloc(p.sub(p as usize % LINE), wider(l))
    } else {
        System.dealloc(p, l)
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = get(l, false);
        if let Some(t) = table() {
            t.add(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = get(l, true);
        if let Some(t) = table() {
            t.add(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(t) = table() {
            t.remove(p as usize);
        }
        put(p, l)
    }
    /// Growing is not destroying: a followed block is followed to where it moves.
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let new = Layout::from_size_align_unchecked(size, l.align());
        let q = get(new, false);
        if q.is_null() {
            return q;
        }
        std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
        if let Some(t) = table() {
            match t.find(p as usize) {
                Some(i) => {
                    t.at[i].store(q as usize, Relaxed);
                    t.size[i].store(size, Relaxed);
                }
                None => t.add(q as usize, size),
            }
        }
        put(p, l);
        q
    }
}

pub fn track(mode: Track) {
    let Some(t) = TABLES.get(tag()) else { return };
    if mode == Track::Off {
        t.n.store(0, Relaxed);
        t.freed.iter().for_each(|f| f.store(0, Relaxed));
    }
    t.mode.store(mode as u8, Relaxed);
}

#[derive(Debug, Clone)]
pub struct Tracked {
    pub followed: usize,
    /// by the control, audio and background side since the watch began
    pub freed: [usize; 3],
    pub audio_size: usize,
    /// sizes of those not freed
    pub left: Vec<usize>,
}

pub fn tracked() -> Tracked {
    let t = &TABLES[tag()];
    let n = t.n.load(Relaxed);
    let freed = [0, 1, 2].map(|i| t.freed[i].load(Relaxed));
    let last = t.last.load(Relaxed);
    let mut left = Vec::with_capacity(n);
    left.extend((0..n).filter(|i| t.at[*i].load(Relaxed) != 0).map(|i| t.size[i].load(Relaxed)));
    Tracked { followed: n, freed, audio_size: last, left }
}
