//! Recording stand-in for the heap and the registry of observed values ("tokens").
//!
//! Nothing in here judges: it records what was requested and what it finds in memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Global;

/// 0: harness code, 1: inside a library call, 2: arena setup
static mut WINDOW: u8 = 0;

pub const RED: u8 = 0xC5;
pub const JUNK: u8 = 0xA5;
pub const POISON: u8 = 0xDD;
pub static mut REFUSE: usize = 1 << 30;

#[derive(Clone, Copy)]
pub struct Block {
    pub id: usize,
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub base: usize,
    pub base_size: usize,
    pub base_align: usize,
    pub live: bool,
}

#[derive(Clone)]
pub enum Ev {
    Alloc(usize, usize, usize),
    Realloc(usize, usize, usize, usize),
    Free(usize, usize, usize),
    Refused(usize, usize),
}

pub struct State {
    pub blocks: Vec<Block>,
    pub evs: Vec<Ev>,
    pub bad: Vec<String>,
    pub badt: Vec<String>,
    pub next_block: usize,
    pub fail_at: usize, // fail the k-th request from now (1-based), 0: never
    pub failed: usize,
    pub arena: (usize, usize),
    // tokens
    pub tok: Vec<bool>,
    pub dropped: Vec<u32>,
    pub cloned: Vec<(u32, u32)>,
    pub created: Vec<u32>,
    pub zlive: i64,
    pub zdropped: i64,
    pub zcloned: i64,
    pub zcreated: i64,
    // faults in user code (1-based countdowns, 0: never)
    pub f_clone: usize,
    pub f_drop: usize,
    pub f_fill: usize,
    pub fired: usize,
}

struct Cell(UnsafeCell<Option<State>>);
unsafe impl Sync for Cell {}
static STATE: Cell = Cell(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe {
        let s = &mut *STATE.0.get();
        if s.is_none() {
            *s = Some(State {
                blocks: vec![], evs: vec![], bad: vec![], badt: vec![], next_block: 1, fail_at: 0, failed: 0,
                arena: (0, 0), tok: vec![true], dropped: vec![], cloned: vec![], created: vec![],
                zlive: 0, zdropped: 0, zcloned: 0, zcreated: 0,
                f_clone: 0, f_drop: 0, f_fill: 0, fired: 0,
            });
        }
        s.as_mut().unwrap()
    }
}

struct Restore(u8);
impl Drop for Restore {
    fn drop(&mut self) {
        unsafe { WINDOW = self.0 }
    }
}
fn with<R>(w: u8, f: impl FnOnce() -> R) -> R {
    unsafe {
        let _r = Restore(WINDOW);
        WINDOW = w;
        f()
    }
}
/// Runs harness code (possibly called back from the library).
pub fn user<R>(f: impl FnOnce() -> R) -> R {
    with(0, f)
}
/// Runs library code.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    with(1, f)
}
pub fn window_off() {
    unsafe { WINDOW = 0 }
}

impl State {
    pub fn bad(&mut self, s: &str) {
        if self.bad.len() < 20 {
            self.bad.push(s.to_string());
        }
    }
    pub fn badt(&mut self, s: &str) {
        if self.badt.len() < 20 {
            self.badt.push(s.to_string());
        }
    }
    /// Block containing address, looking at live ones first. Zero-length parts may sit at the end.
    pub fn find(&self, addr: usize) -> Option<&Block> {
        self.blocks.iter().find(|b| b.live && addr >= b.ptr && addr < b.ptr + b.size.max(1))
            .or_else(|| self.blocks.iter().find(|b| b.live && addr == b.ptr + b.size))
            .or_else(|| self.blocks.iter().find(|b| !b.live && addr >= b.ptr && addr < b.ptr + b.size.max(1)))
    }
    fn check_red(&mut self, i: usize) {
        let b = self.blocks[i];
        let raw = unsafe { std::slice::from_raw_parts(b.base as *const u8, b.base_size) };
        let lo = b.ptr - b.base;
        if raw[..lo].iter().any(|x| *x != RED) {
            self.bad("write before a block");
        }
        if raw[lo + b.size..].iter().any(|x| *x != RED) {
            self.bad("write past a block");
        }
    }
    fn check_poison(&mut self, i: usize) {
        let b = self.blocks[i];
        let raw = unsafe { std::slice::from_raw_parts(b.ptr as *const u8, b.size) };
        if raw.iter().any(|x| *x != POISON) {
            self.bad("write to a released block");
        }
    }
    pub fn check_all(&mut self) {
        for i in 0..self.blocks.len() {
            if self.blocks[i].size <= 1 << 16 {
                self.check_red(i);
                if !self.blocks[i].live {
                    self.check_poison(i);
                }
            }
        }
    }
    pub fn check_live(&mut self) {
        for i in 0..self.blocks.len() {
            if self.blocks[i].live && self.blocks[i].size <= 1 << 16 {
                self.check_red(i);
            }
        }
    }
    /// Forget everything about the previous script. Blocks still live are leaked.
    pub fn reset(&mut self) {
        for b in std::mem::take(&mut self.blocks) {
            if !b.live {
                unsafe { System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.base_size, b.base_align)) }
            }
        }
        self.evs.clear();
        self.bad.clear();
        self.badt.clear();
        self.next_block = 1;
        self.fail_at = 0;
        self.tok.clear();
        self.tok.push(true);
        self.dropped.clear();
        self.cloned.clear();
        self.created.clear();
        self.zlive = 0;
        self.clear_faults();
        self.begin();
    }
    pub fn clear_faults(&mut self) {
        self.f_clone = 0;
        self.f_drop = 0;
        self.f_fill = 0;
        self.fail_at = 0;
    }
    pub fn begin(&mut self) {
        self.evs.clear();
        self.bad.clear();
        self.badt.clear();
        self.dropped.clear();
        self.cloned.clear();
        self.created.clear();
        self.zdropped = 0;
        self.zcloned = 0;
        self.zcreated = 0;
        self.fired = 0;
        self.failed = 0;
    }
    fn tracked_alloc(&mut self, size: usize, align: usize) -> Option<usize> {
        if self.fail_at > 0 {
            self.fail_at -= 1;
            if self.fail_at == 0 {
                self.failed += 1;
                self.evs.push(Ev::Refused(size, align));
                return None;
            }
        }
        if size > unsafe { REFUSE } || align > 1 << 16 {
            self.failed += 1;
            self.evs.push(Ev::Refused(size, align));
            return None;
        }
        // Aligned to `align`, and to nothing more than that.
        let al = align.max(8);
        let lead = if align >= 32 { align } else { (32 / (2 * align) * 2 * align).max(2 * align) + align };
        let base_size = lead + size + 48;
        let base_align = 2 * al;
        let base = unsafe { System.alloc(Layout::from_size_align(base_size, base_align).unwrap()) } as usize;
        if base == 0 {
            self.failed += 1;
            return None;
        }
        unsafe {
            std::ptr::write_bytes(base as *mut u8, RED, base_size);
            std::ptr::write_bytes((base + lead) as *mut u8, JUNK, size);
        }
        let id = self.next_block;
        self.next_block += 1;
        self.blocks.push(Block { id, ptr: base + lead, size, align, base, base_size, base_align, live: true });
        Some(self.blocks.len() - 1)
    }
    fn live_index(&self, ptr: usize) -> Option<usize> {
        self.blocks.iter().rposition(|b| b.live && b.ptr == ptr)
    }
    fn suspicious(&self, ptr: usize) -> Option<&'static str> {
        if ptr < 1 << 16 {
            return Some("release of a dangling pointer");
        }
        if ptr >= self.arena.0 && ptr < self.arena.1 {
            return Some("release of arena storage");
        }
        if self.blocks.iter().any(|b| ptr >= b.base && ptr < b.base + b.base_size) {
            return Some(if self.blocks.iter().any(|b| ptr == b.ptr) { "second release of a block" } else { "release of an interior pointer" });
        }
        None
    }
    fn retire(&mut self, i: usize) {
        self.check_red(i);
        let b = self.blocks[i];
        unsafe { std::ptr::write_bytes(b.ptr as *mut u8, POISON, b.size) };
        self.blocks[i].live = false;
        if b.size > 1 << 20 {
            // Too big for the quarantine.
            self.blocks.remove(i);
            unsafe { System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.base_size, b.base_align)) }
        }
    }
    fn check_layout(&mut self, i: usize, l: Layout) {
        let b = self.blocks[i];
        if b.size != l.size() || b.align != l.align() {
            self.bad(&format!("block of size {} align {} released as size {} align {}", b.size, b.align, l.size(), l.align()));
        }
    }
}

unsafe impl GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // (the runtime allocates panic messages while panicking)
        if WINDOW != 1 || std::thread::panicking() {
            return System.alloc(l);
        }
        user(|| {
            let s = st();
            if l.size() == 0 {
                s.bad("request of zero bytes");
            }
            match s.tracked_alloc(l.size(), l.align()) {
                None => std::ptr::null_mut(),
                Some(i) => {
                    let b = s.blocks[i];
                    s.evs.push(Ev::Alloc(b.id, b.size, b.align));
                    b.ptr as *mut u8
                }
            }
        })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let w = WINDOW;
        if (*STATE.0.get()).is_none() {
            return System.dealloc(p, l);
        }
        let s = st();
        if s.blocks.is_empty() && w != 1 {
            return System.dealloc(p, l);
        }
        match s.live_index(p as usize) {
            Some(i) => user(|| {
                s.check_layout(i, l);
                let b = s.blocks[i];
                s.evs.push(Ev::Free(b.id, l.size().min(i32::MAX as usize), l.align()));
                s.retire(i);
            }),
            None => match s.suspicious(p as usize) {
                Some(m) => user(|| s.bad(m)),
                None => System.dealloc(p, l),
            },
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if (*STATE.0.get()).is_none() {
            return System.realloc(p, l, new);
        }
        let s = st();
        match s.live_index(p as usize) {
            Some(i) => user(|| {
                s.check_layout(i, l);
                if new == 0 {
                    s.bad("request of zero bytes");
                }
                let old = s.blocks[i];
                match s.tracked_alloc(new, l.align()) {
                    None => std::ptr::null_mut(),
                    Some(j) => {
                        let b = s.blocks[j];
                        std::ptr::copy_nonoverlapping(p, b.ptr as *mut u8, old.size.min(new));
                        s.evs.push(Ev::Realloc(old.id, b.id, b.size, b.align));
                        s.retire(i);
                        b.ptr as *mut u8
                    }
                }
            }),
            None => {
                if let Some(m) = s.suspicious(p as usize) {
                    user(|| s.bad(m));
                    return std::ptr::null_mut();
                }
                System.realloc(p, l, new)
            }
        }
    }
}

// ---- tokens -------------------------------------------------------------------------------

pub fn new_token() -> u32 {
    user(|| {
        let s = st();
        s.tok.push(true);
        let id = (s.tok.len() - 1) as u32;
        s.created.push(id);
        id
    })
}
pub const USER_PANIC: &str = "injected";
pub fn inject() -> ! {
    st().fired += 1;
    std::panic::panic_any(USER_PANIC)
}
pub fn drop_token(id: u32) {
    let fire = user(|| {
        let s = st();
        match s.tok.get(id as usize) {
            _ if id == 0 => s.badt("destructor ran on a value that never existed"),
            None => s.badt("destructor ran on a value that never existed"),
            Some(false) => s.badt("destructor ran twice on a value"),
            Some(true) => {
                s.tok[id as usize] = false;
                s.dropped.push(id);
            }
        }
        count_down(&mut s.f_drop)
    });
    if fire && !std::thread::panicking() {
        inject()
    }
}
pub fn clone_token(id: u32) -> u32 {
    let fire = user(|| {
        let s = st();
        match s.tok.get(id as usize) {
            None => s.badt("clone of a value that never existed"),
            Some(false) => s.badt("clone of a destroyed value"),
            Some(true) => {}
        }
        count_down(&mut s.f_clone)
    });
    if fire {
        inject()
    }
    user(|| {
        let s = st();
        s.tok.push(true);
        let n = (s.tok.len() - 1) as u32;
        s.cloned.push((id, n));
        n
    })
}
pub fn count_down(c: &mut usize) -> bool {
    if *c > 0 {
        *c -= 1;
        *c == 0
    } else {
        false
    }
}
pub fn fill_point() {
    if count_down(&mut st().f_fill) {
        inject()
    }
}

pub fn check_token(id: u32) -> String {
    let s = st();
    match s.tok.get(id as usize) {
        _ if id == 0 => "never".into(),
        None => "garbage".into(),
        Some(false) => "dead".into(),
        Some(true) => "".into(),
    }
}
