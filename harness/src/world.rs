//! Executes the operations of a script on one type and records what happened.
use crate::elem::*;
use crate::out::*;
use crate::track::*;
use crate::ty::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use varlen::prelude::*;
use varlen::seq::{OwnedElems, UncheckedIndexing};

pub const ARENA: usize = 4 << 20;
static mut BUMP: Option<&'static bumpalo::Bump> = None;
static mut ARENA_BASE: usize = 0;
pub fn bump() -> &'static bumpalo::Bump {
    unsafe { BUMP.unwrap() }
}
pub fn reset_arena() {
    user(|| unsafe {
        if let Some(b) = (*std::ptr::addr_of_mut!(BUMP)).take() {
            drop(Box::from_raw(b as *const _ as *mut bumpalo::Bump));
        }
        let b: &'static bumpalo::Bump = Box::leak(Box::new(bumpalo::Bump::with_capacity(ARENA)));
        let a = b.alloc(0u8) as *mut u8 as usize;
        BUMP = Some(b);
        st().arena = (a - ARENA + 4096, a + 16);
        ARENA_BASE = (a - ARENA) & !0xFFFFF;
    })
}

/// (block, offset): block > 0 live heap block, -1 arena, -3 released block, -2 elsewhere
pub fn pos(addr: usize) -> (i64, i64) {
    let s = st();
    if addr >= s.arena.0 && addr < s.arena.1 {
        return (-1, unsafe { addr - ARENA_BASE } as i64);
    }
    match s.find(addr) {
        Some(b) => (if b.live { b.id as i64 } else { -3 }, (addr - b.ptr) as i64),
        None => (-2, (addr & 0xFFFF) as i64),
    }
}

/// Types of the menu, with what their concrete form allows.
pub trait Menu: Ty {
    fn vclone_of(&'static self) -> Option<DynI<Self>> {
        None
    }
    fn vcopy_of(&'static self) -> Option<DynI<Self>> {
        None
    }
    fn box_clone(_: &VBox<Self>) -> Option<VBox<Self>> {
        None
    }
}

pub enum AnySeq<T: VarLen> {
    U(Seq<T, UncheckedIndexing>),
    C(IndexableSeq<T>),
}
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            AnySeq::U($x) => $e,
            AnySeq::C($x) => $e,
        }
    };
}

/// A container that is only ever dropped on purpose.
pub struct Slot<X>(Option<ManuallyDrop<X>>);
impl<X> Slot<X> {
    fn none() -> Self {
        Slot(None)
    }
    fn put(&mut self, x: X) {
        self.0 = Some(ManuallyDrop::new(x))
    }
    fn take(&mut self) -> Option<X> {
        self.0.take().map(ManuallyDrop::into_inner)
    }
    fn get(&self) -> Option<&X> {
        self.0.as_deref()
    }
    fn get_mut(&mut self) -> Option<&mut X> {
        self.0.as_deref_mut()
    }
    fn is(&self) -> bool {
        self.0.is_some()
    }
}

pub const NS: usize = 3;
pub struct World<T: Menu> {
    b: Vec<Slot<VBox<T>>>,
    o: Vec<Slot<Owned<'static, T>>>,
    k: Vec<Slot<Owned<'static, T>>>,
    l: Vec<Slot<Pin<&'static mut T>>>,
    /// raw pointers of boxes (0) and arena pointers (1)
    r: Vec<Option<(usize, usize)>>,
    s: Vec<Slot<Box<AnySeq<T>>>>,
    ses: Option<(usize, ManuallyDrop<OwnedElems<'static, T>>)>,
    busy: Option<usize>,
    tid: usize,
    _t: std::marker::PhantomData<T>,
}

pub struct Op<'a> {
    pub words: Vec<&'a str>,
    pub kv: HashMap<&'a str, &'a str>,
}
impl<'a> Op<'a> {
    pub fn parse(line: &'a str) -> Op<'a> {
        let mut words = vec![];
        let mut kv = HashMap::new();
        for w in line.split_whitespace() {
            match w.split_once('=') {
                Some((k, v)) => {
                    kv.insert(k, v);
                }
                None => words.push(w),
            }
        }
        Op { words, kv }
    }
    pub fn num(&self, k: &str, d: usize) -> usize {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn w(&self, i: usize) -> &'a str {
        self.words.get(i).copied().unwrap_or("")
    }
}

fn slot(s: &str) -> Option<(char, usize)> {
    let c = s.chars().next()?;
    let i = s[1..].split('.').next()?.parse().ok()?;
    if i < NS && "boklrs".contains(c) { Some((c, i)) } else { None }
}

/// Facts about one operation, filled in while it runs.
pub struct Fact {
    pub extra: String,
    pub puts: Vec<PutLog>,
    pub psz: Vec<i64>,
    pub held: Vec<Box<dyn std::any::Any>>,
    pub src: i64,
    pub wrong: usize,
}
impl Fact {
    fn new() -> Fact {
        Fact { extra: String::new(), puts: vec![], psz: vec![], held: vec![], src: 0, wrong: 0 }
    }
}

pub trait AnyWorld {
    fn run(&mut self, op: &Op, o: &mut Out) -> bool;
    fn snapshot(&mut self, o: &mut Out) -> String;
    fn slots(&self) -> Vec<String>;
}

impl<T: Menu> World<T> {
    pub fn new(tid: usize) -> Self {
        World {
            b: (0..NS).map(|_| Slot::none()).collect(),
            o: (0..NS).map(|_| Slot::none()).collect(),
            k: (0..NS).map(|_| Slot::none()).collect(),
            l: (0..NS).map(|_| Slot::none()).collect(),
            r: vec![None; NS],
            s: (0..NS).map(|_| Slot::none()).collect(),
            ses: None,
            busy: None,
            tid,
            _t: std::marker::PhantomData,
        }
    }
    /// Is the slot usable as a destination?
    fn free(&self, c: char, i: usize) -> bool {
        match c {
            'b' => !self.b[i].is(),
            'o' => !self.o[i].is(),
            'k' => !self.k[i].is(),
            'l' => !self.l[i].is(),
            'r' => self.r[i].is_none(),
            _ => !self.s[i].is(),
        }
    }
    fn seq(&mut self, w: &str) -> Option<usize> {
        match slot(w) {
            Some(('s', i)) if self.s[i].is() && self.busy != Some(i) => Some(i),
            _ => None,
        }
    }
    fn shared(&self, w: &str) -> Option<&'static T> {
        let (c, i) = slot(w)?;
        let r: &T = match c {
            'b' => &**self.b[i].get()?,
            'o' => &**self.o[i].get()?,
            'k' => &**self.k[i].get()?,
            'l' => &**self.l[i].get()?,
            's' => {
                if self.busy == Some(i) {
                    return None;
                }
                let j: usize = w.split_once('.')?.1.parse().ok()?;
                each!(&**self.s[i].get()?, q => q.iter().nth(j))?
            }
            _ => return None,
        };
        Some(unsafe { &*(r as *const T) })
    }
    fn mutable(&mut self, w: &str, path: usize) -> Option<Pin<&'static mut T>> {
        let (c, i) = slot(w)?;
        let r: Pin<&mut T> = match c {
            'b' => self.b[i].get_mut()?.as_mut(),
            'o' => self.o[i].get_mut()?.as_mut(),
            'k' => self.k[i].get_mut()?.as_mut(),
            'l' => self.l[i].get_mut()?.as_mut(),
            's' => {
                if self.busy == Some(i) {
                    return None;
                }
                let j: usize = w.split_once('.')?.1.parse().ok()?;
                let q = self.s[i].get_mut()?;
                match (path, &mut **q) {
                    (1, AnySeq::C(q)) => {
                        let o = q.offset_of(q.iter().nth(j)?);
                        q.from_offset_mut(o)
                    }
                    (2, q) => each!(q, q => {
                        let o = q.offset_of(q.iter().nth(j)?);
                        unsafe { q.from_offset_unchecked_mut(o) }
                    }),
                    (3, q) => each!(q, q => q.iter_mut().limited_to(j + 1).nth(j))?,
                    (_, q) => each!(q, q => q.iter_mut().nth(j))?,
                }
            }
            _ => return None,
        };
        Some(unsafe { std::mem::transmute::<Pin<&mut T>, Pin<&'static mut T>>(r) })
    }
    /// The object an initializer expression takes its contents from.
    fn src_ok(&self, op: &Op, dst: Option<usize>) -> bool {
        let s = op.kv.get("src").copied().unwrap_or("new");
        match s.split_once(':') {
            Some((kind, r)) => {
                // the destination sequence cannot be borrowed at the same time
                if let (Some(('s', i)), Some(d)) = (slot(r), dst) {
                    if i == d {
                        return false;
                    }
                }
                if let (Some(('k', _)), Some(d)) = (slot(r), dst) {
                    // a taken element borrows its sequence
                    if self.busy == Some(d) {
                        return false;
                    }
                }
                match kind {
                    "mv" => matches!(slot(r), Some(('b', _)) | Some(('o', _)) | Some(('k', _))) && self.shared(r).is_some(),
                    "clone" => self.shared(r).map_or(false, |t| { let i = t.vclone_of(); i.is_some() }),
                    _ => self.shared(r).map_or(false, |t| { let i = t.vcopy_of(); i.is_some() }),
                }
            }
            None => true,
        }
    }
    /// Builds the initializer described by the operation. Runs library code.
    fn init(&mut self, op: &Op, f: &mut Fact, salt: u64) -> DynI<T> {
        let s = op.kv.get("src").copied().unwrap_or("new");
        let put: PutLog = user(|| Rc::new(RefCell::new(vec![])));
        let i = match s.split_once(':') {
            Some(("mv", r)) => {
                let (c, i) = slot(r).unwrap();
                match c {
                    'b' => DynI::new(self.b[i].take().unwrap()),
                    'o' => DynI::new(self.o[i].take().unwrap()),
                    _ => DynI::new(self.k[i].take().unwrap()),
                }
            }
            Some(("clone", r)) => self.shared(r).unwrap().vclone_of().unwrap(),
            Some((_, r)) => self.shared(r).unwrap().vcopy_of().unwrap(),
            None => {
                let mut cx = context(op, &put, salt);
                let r = catch_unwind(AssertUnwindSafe(|| user(|| T::mk(&mut cx))));
                user(|| f.held.append(&mut cx.held));
                if cx.bad_done {
                    f.wrong += 1;
                }
                user(|| drop(cx));
                match r {
                    Ok(i) => i,
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
        };
        user(|| {
            f.psz.push(match lib(|| i.size()) {
                Some(n) => clampn(n),
                None => -1,
            });
            if s == "new" {
                f.puts.push(put.clone());
            }
        });
        i
    }
    fn obj_id(&mut self, w: &str, o: &mut Out) -> i64 {
        match self.shared(w) {
            Some(t) => {
                let (sz, mut lf) = project(t);
                if let Some(m) = self.mutable(w, 0) {
                    project_mut(m, &mut lf);
                }
                o.object(self.tid, sz, &lf)
            }
            None => 0,
        }
    }
    fn place(&mut self, t: Pin<&mut T>, kept: bool, o: &mut Out) -> String {
        let addr = &*t as *const T as usize;
        let (sz, mut lf) = project(&*t);
        project_mut(t, &mut lf);
        let id = o.object(self.tid, sz, &lf);
        let (b, off) = if sz == 0 && !kept {
            // zero-sized objects have no storage of their own
            match pos(addr) {
                p @ (-1, _) => p,
                _ => (-2, (addr & 0xFFFF) as i64),
            }
        } else {
            pos(addr)
        };
        format!("[{},{},{}]", id, b, off)
    }
    fn seq_state(&mut self, i: usize, o: &mut Out) -> String {
        let p: *mut AnySeq<T> = match self.s[i].get_mut() {
            Some(s) => &mut **s,
            None => return "{\"x\":0}".into(),
        };
        if self.busy == Some(i) {
            return "{\"x\":2}".into();
        }
        let q = unsafe { &mut *p };
        let (m, len, cap, occ) = match q {
            AnySeq::U(q) => ("u", q.len(), q.capacity_in_offsets(), q.offset()),
            AnySeq::C(q) => ("c", q.len(), q.capacity_in_offsets(), q.offset()),
        };
        let mut el = vec![];
        let mut of = vec![];
        let mut im = vec![];
        let mut raw = vec![];
        each!(q, q => {
            for t in q.iter().take(100_000) {
                raw.push(t as *const T as usize);
                of.push(clampn(q.offset_of(t)).to_string());
            }
        });
        each!(q, q => {
            for t in q.iter_mut().take(100_000) {
                let a = &*t as *const T as usize;
                im.push(pos_elem(a).1.to_string());
                let (sz, mut lf) = project(&*t);
                project_mut(t, &mut lf);
                let id = o.object(self.tid, sz, &lf);
                el.push(id);
            }
        });
        let els: Vec<String> = raw.iter().enumerate().map(|(j, a)| {
            let (b, off) = pos_elem(*a);
            format!("[{},{},{}]", el.get(j).copied().unwrap_or(0), b, off)
        }).collect();
        let mut vd = vec![];
        let mut lk = vec![];
        if let AnySeq::C(q) = q {
            let mut probe: Vec<usize> = (0..=(cap + 8).min(700)).collect();
            if cap + 8 > 700 {
                for o in &of {
                    let x: usize = o.parse().unwrap();
                    probe.extend([x.wrapping_sub(1), x, x + 1]);
                }
                probe.extend([occ.wrapping_sub(1), occ, occ + 1, cap - 1, cap, cap + 1]);
                probe.sort();
                probe.dedup();
            }
            for x in probe {
                if q.is_offset_valid(x) {
                    vd.push(clampn(x).to_string());
                    if x < occ {
                        lk.push(pos_elem(q.from_offset(x) as *const T as usize).1.to_string());
                    }
                }
            }
            for x in [usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 7, 1 << 32, (1 << 32) + 1, 1 << 61, 1 << 63, cap.wrapping_mul(8), occ.wrapping_neg()] {
                if x >= occ && q.is_offset_valid(x) {
                    vd.push("-1".into());
                }
            }
        }
        format!("{{\"x\":1,\"m\":\"{}\",\"len\":{},\"cap\":{},\"occ\":{},\"el\":[{}],\"of\":[{}],\"im\":[{}],\"vd\":[{}],\"lk\":[{}]}}",
            m, clampn(len), clampn(cap), clampn(occ), els.join(","), of.join(","), im.join(","), vd.join(","), lk.join(","))
    }
    fn new_box(&mut self, op: &Op, f: &mut Fact) -> VBox<T> {
        let i = self.init(op, f, 0);
        VBox::new(i)
    }
}

fn context(op: &Op, put: &PutLog, salt: u64) -> Cx {
    user(|| Cx {
        lens: op.kv.get("ls").map(|l| l.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default(),
        li: salt as usize,
        rng: Rng((op.num("rt", 1) as u64).wrapping_mul(7919) + salt * 1000003),
        put: put.clone(),
        bad: if op.num("badat", 0) == salt as usize { op.num("bad", 0) } else { 0 },
        bad_done: false,
        held: vec![],
        depth: 0,
        force: op.num("force", 0),
        flat: op.num("flat", 0) == 1,
        made_z: 0,
    })
}

/// Plain arrays made by an array initializer: by new_array, or directly in the middle of a
/// larger area whose other bytes must stay as they are.
fn plain<E: Elem>(op: &Op, f: &mut Fact) {
    fn fixed<E: Elem, const N: usize>(i: DynA<E>) -> (Leaf, bool) {
        let a: [E; N] = varlen::array_init::new_array(i);
        let l = user(|| leaf_of(&a[..], &a as *const _ as usize));
        drop(a);
        (l, true)
    }
    fn direct<E: Elem>(n: usize, i: DynA<E>) -> (Leaf, bool) {
        const PAD: usize = 3;
        let sz = std::mem::size_of::<E>();
        let mut area: Vec<std::mem::MaybeUninit<E>> = user(|| (0..n + 2 * PAD).map(|_| std::mem::MaybeUninit::uninit()).collect());
        let base = area.as_mut_ptr() as *mut u8;
        unsafe { std::ptr::write_bytes(base, 0xA5, sz * area.len()) };
        let g = Guard(Some(area));
        let slice = unsafe { std::slice::from_raw_parts_mut((base as *mut std::mem::MaybeUninit<E>).add(PAD), n) };
        i.initialize(slice);
        let clean = |o: usize| (0..PAD * sz).all(|j| unsafe { *base.add(o * sz + j) } == 0xA5);
        let ok = clean(0) && clean(n + PAD);
        let vals = unsafe { std::slice::from_raw_parts_mut(slice.as_mut_ptr() as *mut E, n) };
        let l = user(|| leaf_of(vals, vals.as_ptr() as usize));
        unsafe { std::ptr::drop_in_place(vals) };
        drop(g);
        (l, ok)
    }
    struct Guard<X>(Option<X>);
    impl<X> Drop for Guard<X> {
        fn drop(&mut self) {
            let x = self.0.take();
            user(|| drop(x))
        }
    }
    let n = op.num("n", 0);
    let put: PutLog = user(|| Rc::new(RefCell::new(vec![])));
    let mut cx = context(op, &put, 0);
    let i = user(|| mk_arr::<E>(n, &mut cx));
    user(|| f.held.append(&mut cx.held));
    f.wrong += cx.bad_done as usize;
    user(|| {
        drop(cx);
        f.puts.push(put);
    });
    let (l, ok) = match (op.w(2), n) {
        ("n", 0) => fixed::<E, 0>(i),
        ("n", 1) => fixed::<E, 1>(i),
        ("n", 2) => fixed::<E, 2>(i),
        ("n", 3) => fixed::<E, 3>(i),
        ("n", 4) => fixed::<E, 4>(i),
        ("n", 5) => fixed::<E, 5>(i),
        ("n", 8) => fixed::<E, 8>(i),
        ("n", 17) => fixed::<E, 17>(i),
        ("n", 40) => fixed::<E, 40>(i),
        (_, n) => direct::<E>(n, i),
    };
    user(|| f.extra = format!("\"res\":[{}],\"kept\":{},", crate::out::leaf_json(&l), ok));
}

fn pos_elem(a: usize) -> (i64, i64) {
    pos(a)
}

impl<T: Menu> AnyWorld for World<T> {
    fn slots(&self) -> Vec<String> {
        let mut v = vec![];
        if self.ses.is_some() {
            v.push("t".to_string());
        }
        for i in 0..NS {
            if self.k[i].is() { v.push(format!("k{}", i)) }
        }
        for i in 0..NS {
            if self.b[i].is() { v.push(format!("b{}", i)) }
            if self.o[i].is() { v.push(format!("o{}", i)) }
        }
        for i in 0..NS {
            if self.s[i].is() { v.push(format!("s{}", i)) }
        }
        for i in 0..NS {
            if self.r[i].is_some() { v.push(format!("r{}", i)) }
        }
        v
    }

    fn snapshot(&mut self, o: &mut Out) -> String {
        let mut s = String::new();
        let mut part = |name: &str, items: Vec<String>| {
            let _ = write!(s, "\"{}\":[{}],", name, items.join(","));
        };
        let items = (0..NS).map(|i| { let p: *mut VBox<T> = match self.b[i].get_mut() { Some(x) => x, None => return "[]".into() }; let m = unsafe { (*p).as_mut() }; self.place(m, false, o) }).collect();
        part("b", items);
        let items = (0..NS).map(|i| { let p: *mut Owned<'static, T> = match self.o[i].get_mut() { Some(x) => x, None => return "[]".into() }; let m = unsafe { (*p).as_mut() }; self.place(m, false, o) }).collect();
        part("o", items);
        let items = (0..NS).map(|i| { let p: *mut Owned<'static, T> = match self.k[i].get_mut() { Some(x) => x, None => return "[]".into() }; let m = unsafe { (*p).as_mut() }; self.place(m, true, o) }).collect();
        part("k", items);
        let items = (0..NS).map(|i| { let p: *mut Pin<&'static mut T> = match self.l[i].get_mut() { Some(x) => x, None => return "[]".into() }; let m = unsafe { (*p).as_mut() }; self.place(m, false, o) }).collect();
        part("l", items);
        let items = (0..NS).map(|i| match self.r[i] { None => "[]".into(), Some((k, a)) => { let m = unsafe { Pin::new_unchecked(&mut *(a as *mut T)) }; let mut x = self.place(m, false, o); x.pop(); format!("{},{}]", x, k) } }).collect();
        part("r", items);
        let items = (0..NS).map(|i| self.seq_state(i, o)).collect();
        part("s", items);
        let ses = match &self.ses {
            None => "[]".to_string(),
            Some((i, e)) => { let h = e.size_hint(); format!("[{},{},{},{}]", i, clampn(e.len()), clampn(h.0), h.1.map_or(-1, clampn)) }
        };
        let t = st();
        t.check_live();
        let lb: Vec<String> = t.blocks.iter().filter(|b| b.live).map(|b| format!("[{},{},{}]", b.id, clampn(b.size), b.align)).collect();
        let lt: Vec<String> = t.tok.iter().enumerate().skip(1).filter(|(_, a)| **a).map(|(i, _)| i.to_string()).collect();
        let _ = write!(s, "\"t\":{},\"lb\":[{}],\"lt\":[{}],\"z\":{},\"busy\":{}", ses, lb.join(","), lt.join(","), t.zlive, self.busy.map_or(-1, |x| x as i64));
        format!("{{{}}}", s)
    }

    /// Returns false if the operation does not apply (nothing was done or recorded).
    fn run(&mut self, op: &Op, o: &mut Out) -> bool {
        let k = op.w(0);
        let mut f = Fact::new();
        // the slots named must be in the right state
        let a = slot(op.w(1));
        let srcw = op.kv.get("src").and_then(|s| s.split_once(':')).map(|x| x.1.to_string());
        let dst = match a { Some(('s', i)) => Some(i), _ => None };
        let ready = match k {
            "new" => matches!(a, Some((c, i)) if "bo".contains(c) && self.free(c, i)) && self.src_ok(op, None),
            "push" => self.seq(op.w(1)).is_some() && self.src_ok(op, dst),
            "ext" => self.seq(op.w(1)).is_some(),
            "col" | "mac" | "seq" => matches!(a, Some(('s', i)) if self.free('s', i)),
            "drop" => match op.w(1) {
                "t" => self.ses.is_some(),
                _ => matches!(a, Some((c, i)) if "boks".contains(c) && !self.free(c, i) && !(c == 's' && self.busy == Some(i))),
            },
            "dinit" => self.src_ok(op, None),
            "mut" | "ctl" | "swp" => self.shared(op.w(1)).is_some(),
            "take" => self.seq(op.w(1)).is_some() && self.busy.is_none(),
            "next" => self.ses.is_some() && matches!(a, Some(('k', i)) if self.free('k', i)),
            "tlast" => self.ses.is_some() && matches!(a, Some(('k', i)) if self.free('k', i)),
            "forget" | "tcount" => self.ses.is_some(),
            "free" => self.busy.is_some() && self.ses.is_none() && (0..NS).all(|i| !self.k[i].is()),
            "iter" => self.seq(op.w(1)).is_some(),
            "look" => matches!(self.seq(op.w(1)), Some(i) if matches!(&**self.s[i].get().unwrap(), AnySeq::C(_))),
            "foff" => self.seq(op.w(1)).is_some() && self.shared(op.w(2)).is_some(),
            "leak" => matches!((a, slot(op.w(2))), (Some((c, i)), Some(('l', j))) if "o".contains(c) && !self.free(c, i) && self.free('l', j)),
            "raw" => matches!((a, slot(op.w(2))), (Some((c, i)), Some(('r', j))) if "bo".contains(c) && !self.free(c, i) && self.free('r', j)),
            "unraw" => matches!((a, slot(op.w(2))), (Some(('r', i)), Some((c, j))) if self.r[i].map_or(false, |x| x.0 == (c == 'o') as usize) && "bo".contains(c) && self.free(c, j)),
            "clone" => matches!((a, slot(op.w(2))), (Some(('b', i)), Some(('b', j))) if !self.free('b', i) && self.free('b', j)) && self.shared(op.w(1)).unwrap().vclone_of().is_some(),
            "bare" => matches!(a, Some(('b', i)) if !self.free('b', i)),
            "arr" => true,
            "mvs" => matches!((a, slot(op.w(2))), (Some(('s', i)), Some(('s', j))) if self.seq(op.w(1)).is_some() && i != j && self.free('s', j)),
            _ => false,
        };
        if !ready {
            return false;
        }
        if let Some(w) = &srcw {
            f.src = self.obj_id(w, o);
        }
        if ["mut", "ctl", "clone", "swp", "bare"].contains(&k) {
            f.src = self.obj_id(op.w(1), o);
        }
        if k == "new" && a.unwrap().0 == 'o' && bump().chunk_capacity() < 1 << 20 {
            return false;
        }
        {
            let s = st();
            s.begin();
            s.f_clone = op.num("fc", 0);
            s.f_drop = op.num("fd", 0);
            s.f_fill = op.num("ff", 0);
            s.fail_at = op.num("fa", 0);
        }
        let mut res = String::from("ok");
        let r = {
            let f = &mut f;
            let res = &mut res;
            let me = &mut *self;
            catch_unwind(AssertUnwindSafe(move || {
                lib(|| match k {
                    "new" => {
                        let (c, i) = a.unwrap();
                        if c == 'b' {
                            let b = me.new_box(op, f);
                            me.b[i].put(b);
                        } else {
                            let x = me.init(op, f, 0);
                            let x = Owned::new_in(x, bump());
                            me.o[i].put(x);
                        }
                    }
                    "seq" => {
                        let i = a.unwrap().1;
                        let q = match op.w(2) {
                            "c" => AnySeq::C(if op.num("v", 0) == 0 { IndexableSeq::new_indexable() } else { Seq::new() }),
                            _ => AnySeq::U(if op.num("v", 0) == 0 { Seq::new_minimal() } else { Seq::new() }),
                        };
                        user(|| me.s[i].put(Box::new(q)));
                    }
                    "push" => {
                        let i = a.unwrap().1;
                        let x = me.init(op, f, 0);
                        each!(&mut **me.s[i].get_mut().unwrap(), q => q.push(x));
                    }
                    "ext" | "col" => {
                        let i = a.unwrap().1;
                        let n = op.num("cnt", 2);
                        let items: Vec<DynI<T>> = user(|| {
                            let mut v = Vec::with_capacity(n);
                            for j in 0..n {
                                v.push(lib(|| me.init(op, f, j as u64 + 1)));
                            }
                            v
                        });
                        let stop = op.num("stop", 0);
                        let it = user(|| Lazy { it: Some(items.into_iter()), n: 0, stop, hint: op.num("hint", 0) });
                        if k == "ext" {
                            each!(&mut **me.s[i].get_mut().unwrap(), q => q.extend(it));
                        } else if op.w(2) == "c" {
                            let q: IndexableSeq<T> = it.collect();
                            user(|| me.s[i].put(Box::new(AnySeq::C(q))));
                        } else {
                            let q: Seq<T> = it.collect();
                            user(|| me.s[i].put(Box::new(AnySeq::U(q))));
                        }
                    }
                    "mac" => {
                        let i = a.unwrap().1;
                        let (x, y, z) = (me.init(op, f, 1), me.init(op, f, 2), me.init(op, f, 3));
                        let q: Seq<T> = seq![x, y, z,];
                        user(|| me.s[i].put(Box::new(AnySeq::U(q))));
                    }
                    "drop" => match op.w(1) {
                        "t" => {
                            let (_, e) = me.ses.take().unwrap();
                            drop(ManuallyDrop::into_inner(e));
                        }
                        _ => {
                            let (c, i) = a.unwrap();
                            match c {
                                'b' => drop(me.b[i].take()),
                                'o' => drop(me.o[i].take()),
                                'k' => drop(me.k[i].take()),
                                _ => {
                                    let q = me.s[i].take().unwrap();
                                    let q = user(|| *q);
                                    drop(q)
                                }
                            }
                        }
                    },
                    "dinit" => drop(me.init(op, f, 0)),
                    "mut" | "swp" => {
                        let m = me.mutable(op.w(1), op.num("path", 0)).unwrap();
                        let leaf = op.num("leaf", 0);
                        let idx = op.num("idx", 0);
                        let mut rng = Rng(op.num("rt", 1) as u64);
                        let mut n = 0;
                        m.visit(&mut |l: &mut dyn LeafMut| {
                            n += 1;
                            if n - 1 == leaf && l.writable() && idx < l.len() {
                                user(|| {
                                    if k == "mut" {
                                        let (v, t) = l.assign(idx, &mut rng);
                                        f.extra = format!("\"lf\":{},\"ix\":{},\"nv\":\"{}\",\"nt\":{},", leaf + 1, idx + 1, v, list(&t));
                                    } else {
                                        let j = op.num("jdx", 0);
                                        if j < l.len() {
                                            l.swap(idx, j);
                                            f.extra = format!("\"lf\":{},\"ix\":{},\"jx\":{},", leaf + 1, idx + 1, j + 1);
                                        }
                                    }
                                })
                            }
                        });
                        if f.extra.is_empty() {
                            *res = user(|| "none".into());
                        }
                    }
                    "ctl" => {
                        let m = me.mutable(op.w(1), op.num("path", 0)).unwrap();
                        let mut rng = Rng(op.num("rt", 1) as u64);
                        let mut c = CtlOut { ok: false, v: vec![], x: vec![], t: vec![], k: vec![] };
                        let r = catch_unwind(AssertUnwindSafe(|| lib(|| m.set_ctl(op.num("mode", 0), &mut rng, &mut c))));
                        user(|| {
                            let xs: Vec<String> = c.x.iter().map(|x| x.to_string()).collect();
                            f.extra = format!("\"cv\":{},\"cx\":[{}],\"ct\":{},\"ck\":[{}],\"cok\":{},", strs(&c.v), xs.join(","), list(&c.t), c.k.iter().map(|x| list(x)).collect::<Vec<_>>().join(","), c.ok);
                        });
                        match r {
                            Ok(true) => {}
                            Ok(false) => *res = user(|| "none".into()),
                            Err(e) => std::panic::resume_unwind(e),
                        }
                    }
                    "take" => {
                        let i = a.unwrap().1;
                        let q: *mut AnySeq<T> = &mut **me.s[i].get_mut().unwrap();
                        let e: OwnedElems<'static, T> = each!(unsafe { &mut *q }, q => q.take_elems());
                        me.ses = Some((i, ManuallyDrop::new(e)));
                        me.busy = Some(i);
                    }
                    "next" => {
                        let i = a.unwrap().1;
                        let skip = op.num("skip", 0);
                        let it = &mut me.ses.as_mut().unwrap().1;
                        match if skip == 0 { it.next() } else { it.nth(skip) } {
                            Some(x) => me.k[i].put(x),
                            None => *res = user(|| "none".into()),
                        }
                    }
                    "tlast" => {
                        let i = a.unwrap().1;
                        let (_, e) = me.ses.take().unwrap();
                        match ManuallyDrop::into_inner(e).last() {
                            Some(x) => me.k[i].put(x),
                            None => *res = user(|| "none".into()),
                        }
                    }
                    "forget" => {
                        // the session is simply abandoned
                        let (_, e) = me.ses.take().unwrap();
                        std::mem::forget(e);
                    }
                    "tcount" => {
                        let (_, e) = me.ses.take().unwrap();
                        let e = ManuallyDrop::into_inner(e);
                        let n = match op.num("mode", 0) {
                            0 => e.count(),
                            1 => {
                                let mut n = 0;
                                e.for_each(|x| { n += 1; drop(x) });
                                n
                            }
                            2 => e.fold(0, |n, x| { drop(x); n + 1 }),
                            _ => {
                                // partly consumed through a reference, then dropped
                                let mut e = e;
                                let m = e.len();
                                let k = e.by_ref().take(2).count();
                                k + if e.len() + k == m { e.count() } else { 1 << 20 }
                            }
                        };
                        user(|| f.extra = format!("\"cnt\":{},", clampn(n)));
                    }
                    "free" => me.busy = None,
                    "iter" => {
                        let i = a.unwrap().1;
                        let q: *mut AnySeq<T> = &mut **me.s[i].get_mut().unwrap();
                        let q = unsafe { &mut *q };
                        let prog = op.kv.get("prog").copied().unwrap_or("nn");
                        let steps = if op.w(2) == "m" { each!(q, q => iter_mut_prog(q.iter_mut(), prog)) } else { each!(q, q => iter_prog(q.iter(), prog)) };
                        user(|| f.extra = format!("\"steps\":[{}],", steps.join(",")));
                    }
                    "look" => {
                        let i = a.unwrap().1;
                        let q: *mut AnySeq<T> = &mut **me.s[i].get_mut().unwrap();
                        if let AnySeq::C(q) = unsafe { &mut *q } {
                            let off: usize = user(|| match op.w(2).strip_prefix('+') {
                                Some(x) => q.offset().wrapping_add(x.parse::<usize>().unwrap()),
                                None => op.w(2).parse().unwrap(),
                            });
                            user(|| f.extra = format!("\"off\":{},\"vl\":{},\"bo\":-1,", if off > 1 << 30 { -1 } else { off as i64 }, lib(|| q.is_offset_valid(off))));
                            let p = if op.num("m", 0) == 1 { &*q.from_offset_mut(off) as *const T as usize } else { q.from_offset(off) as *const T as usize };
                            user(|| {
                                f.extra = f.extra.replace("\"bo\":-1", &format!("\"bo\":{}", pos_elem(p).1));
                            });
                        }
                    }
                    "foff" => {
                        let i = a.unwrap().1;
                        let t = me.shared(op.w(2)).unwrap();
                        let x = each!(&**me.s[i].get().unwrap(), q => q.offset_of(t));
                        user(|| f.extra = format!("\"off\":{},", clampn(x)));
                    }
                    "leak" => {
                        let x = me.o[a.unwrap().1].take().unwrap();
                        let l = x.leak();
                        me.l[slot(op.w(2)).unwrap().1].put(l);
                    }
                    "raw" => {
                        let (c, i) = a.unwrap();
                        let j = slot(op.w(2)).unwrap().1;
                        me.r[j] = Some(if c == 'b' { (0, unsafe { me.b[i].take().unwrap().into_raw() } as usize) } else { (1, unsafe { me.o[i].take().unwrap().into_raw() }.as_ptr() as usize) });
                    }
                    "unraw" => {
                        let (kind, p) = me.r[a.unwrap().1].take().unwrap();
                        let j = slot(op.w(2)).unwrap().1;
                        if kind == 0 {
                            me.b[j].put(unsafe { VBox::from_raw(p as *mut T) })
                        } else {
                            me.o[j].put(unsafe { Owned::from_raw(NonNull::new(p as *mut T).unwrap()) })
                        }
                    }
                    "clone" => {
                        let b: &VBox<T> = unsafe { &*(me.b[a.unwrap().1].get().unwrap() as *const _) };
                        let c = T::box_clone(b).unwrap();
                        me.b[slot(op.w(2)).unwrap().1].put(c);
                    }
                    "arr" => match op.w(1) {
                        "u8" => plain::<u8>(op, f),
                        "u64" => plain::<u64>(op, f),
                        "unit" => plain::<()>(op, f),
                        "b3" => plain::<[u8; 3]>(op, f),
                        "al32" => plain::<Al32>(op, f),
                        "tok" => plain::<Tok>(op, f),
                        "ntok" => plain::<NTok>(op, f),
                        "btok" => plain::<BTok>(op, f),
                        "ztok" => plain::<ZTok>(op, f),
                        _ => plain::<NestBox>(op, f),
                    },
                    "bare" => {
                        // Rust's own destructor, run on the head
                        let b = me.b[a.unwrap().1].take().unwrap();
                        unsafe {
                            let p = b.into_raw();
                            std::ptr::drop_in_place(p);
                        }
                    }
                    "mvs" => {
                        let q = me.s[a.unwrap().1].take().unwrap();
                        user(|| { let q = *q; me.s[slot(op.w(2)).unwrap().1].put(Box::new(q)) });
                    }
                    _ => {}
                })
            }))
        };
        st().clear_faults();
        window_off();
        let mut pm = String::new();
        if let Err(e) = r {
            let injected = e.downcast_ref::<&'static str>().map_or(false, |m| *m == USER_PANIC);
            res = if injected { "inj".into() } else { "panic".into() };
            pm = take_panic_message();
            drop(e);
        }
        // what the harness itself still holds for this operation
        let logs = st();
        let d = list(&logs.dropped);
        let zd = logs.zdropped;
        let c: Vec<String> = logs.cloned.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
        let nw = list(&logs.created);
        let (zc, zn) = (logs.zcloned, logs.zcreated);
        logs.dropped.clear();
        drop(std::mem::take(&mut f.held));
        let hd = list(&logs.dropped);
        let hz = logs.zdropped - zd;
        let al: Vec<String> = logs.evs.iter().map(|e| match *e {
            Ev::Alloc(i, s, a) => format!("[\"a\",{},{},{}]", i, clampn(s), a),
            Ev::Realloc(x, i, s, a) => format!("[\"r\",{},{},{},{}]", i, clampn(s), a, x),
            Ev::Free(i, s, a) => format!("[\"f\",{},{},{}]", i, s, a),
            Ev::Refused(s, a) => format!("[\"x\",0,{},{}]", clampn(s), a),
        }).collect();
        let fired = logs.fired;
        let failed = logs.failed;
        logs.evs.clear();
        let puts: Vec<String> = f.puts.iter().map(|p| format!("[{}]", p.borrow().iter().map(put_json).collect::<Vec<_>>().join(","))).collect();
        let psz: Vec<String> = f.psz.iter().map(|x| x.to_string()).collect();
        let snap = self.snapshot(o);
        let bad = strs(&std::mem::take(&mut st().bad));
        let badt = strs(&std::mem::take(&mut st().badt));
        let args: Vec<String> = op.words[1..].iter().map(|w| format!("\"{}\"", w)).collect();
        let sk = op.kv.get("src").copied().unwrap_or("new");
        let (skind, sref) = sk.split_once(':').unwrap_or((sk, ""));
        let line = format!(
            "{{\"e\":\"op\",\"k\":\"{}\",\"a\":[{}],\"src\":{},\"sk\":\"{}\",\"sr\":{},\"loc\":{},\"loc2\":{},\"out\":\"{}\",\"pm\":\"{}\",{}\"put\":[{}],\"psz\":[{}],\"wrong\":{},\"fired\":{},\"failed\":{},\"d\":{},\"hd\":{},\"hz\":{},\"zd\":{},\"c\":[{}],\"nw\":{},\"zc\":{},\"zn\":{},\"al\":[{}],\"bad\":{},\"badt\":{},\"fl\":[{},{},{},{}],\"req\":{},\"stop\":{},\"skip\":{},\"s\":{}}}",
            k, args.join(","), f.src, skind, locof(sref), locof(op.w(1)), locof(op.w(2)), res, pm, f.extra, puts.join(","), psz.join(","), f.wrong, fired, failed, d, hd, hz, zd, c.join(","), nw, zc, zn, al.join(","), bad, badt, op.num("fc", 0), op.num("fd", 0), op.num("ff", 0), op.num("fa", 0), op.num("cnt", 2), op.num("stop", 0), op.num("skip", 0), snap);
        o.event(&line);
        true
    }
}

fn locof(s: &str) -> String {
    match s.split_once('.') {
        Some((a, b)) => format!("[\"{}\",{}]", a, b.parse::<i64>().unwrap_or(-1) + 1),
        None => format!("[\"{}\",0]", s),
    }
}
fn put_json(p: &PutLeaf) -> String {
    format!("{{\"n\":{},\"v\":{},\"t\":{},\"md\":\"{}\",\"z\":{},\"own\":{},\"zo\":{},\"ca\":{},\"ck\":\"{}\"}}",
        p.n, strs(&p.v), list(&p.t), p.mode, p.z, list(&p.own), p.zown,
        if p.ca.len() > LONG + 8 { format!("[{}]", p.ca.len()) } else { list(&p.ca) }, if p.ca.len() > LONG + 8 { p.cak.to_ascii_uppercase() } else { p.cak })
}

/// Yields initializers; may panic instead of yielding the `stop`-th.
struct Lazy<T: VarLen> {
    it: Option<std::vec::IntoIter<DynI<T>>>,
    n: usize,
    stop: usize,
    hint: usize,
}
impl<T: VarLen> Iterator for Lazy<T> {
    type Item = DynI<T>;
    fn next(&mut self) -> Option<DynI<T>> {
        self.n += 1;
        if self.n == self.stop {
            inject()
        }
        user(|| self.it.as_mut().unwrap().next())
    }
    /// Every answer is a correct one, apart from the last two.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.as_ref().map_or(0, |i| i.len());
        match self.hint {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (n / 2, Some(n + 3)),
            3 => (0, Some(n)),
            4 => (n, None),
            5 => (n + 2, Some(n + 2)),
            _ => (0, Some(n / 2)),
        }
    }
}
impl<T: VarLen> Drop for Lazy<T> {
    fn drop(&mut self) {
        let i = self.it.take();
        user(|| drop(i))
    }
}

fn hints(k: &str, v: i64, h: (usize, Option<usize>), len: usize) -> String {
    user(|| format!("[\"{}\",{},{},{},{}]", k, v, clampn(h.0), h.1.map_or(-1, clampn), clampn(len)))
}
fn hints_l(k: &str, v: &[i64], h: (usize, Option<usize>), len: usize) -> String {
    user(|| format!("[\"{}\",[{}],{},{},{}]", k, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), clampn(h.0), h.1.map_or(-1, clampn), clampn(len)))
}
fn prog(p: &str) -> Vec<(char, usize)> {
    let mut v: Vec<(char, usize)> = vec![];
    for c in p.chars() {
        match c.to_digit(10) {
            Some(d) => { let l = v.last_mut().unwrap(); l.1 = l.1 * 10 + d as usize }
            None => v.push((c, 0)),
        }
    }
    v
}
fn iter_prog<T: Ty>(it: varlen::seq::Iter<'_, T>, p: &str) -> Vec<String> {
    let mut out = user(Vec::new);
    let p = user(|| prog(p));
    let mut stack = user(|| Vec::with_capacity(64));
    let mut cur = it;
    let mut push = |s: String| user(|| out.push(s));
    push(hints("b", 0, cur.size_hint(), cur.len()));
    for (c, n) in p.iter() {
        match c {
            'n' => {
                let x = cur.next().map(|t| t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints("n", b, cur.size_hint(), cur.len()));
            }
            'N' => {
                let x = cur.nth(*n).map(|t| t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints(["N0", "N1", "N2", "N3", "N4"][(*n).min(4)], b, cur.size_hint(), cur.len()));
            }
            'l' => {
                let x = cur.limited_to(usize::MAX).last().map(|t| t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints("l", b, cur.size_hint(), cur.len()));
            }
            'F' => {
                let mut all = user(|| Vec::with_capacity(4096));
                let it = cur.limited_to(usize::MAX);
                let mut add = |t: &T| user(|| all.push(pos_elem(t as *const T as usize).1));
                match n { 0 => it.for_each(|t| add(t)), 1 => it.fold((), |_, t| add(t)), _ => for t in it { add(t) } }
                push(hints_l("F", &all, cur.size_hint(), cur.len()));
                user(|| drop(all));
            }
            'L' => {
                let lim = if *n == 999 { usize::MAX } else { *n };
                let nx = cur.limited_to(lim);
                stack.push(std::mem::replace(&mut cur, nx));
                push(hints("L", *n as i64, cur.size_hint(), cur.len()));
            }
            'U' => {
                if let Some(x) = stack.pop() {
                    cur = x;
                    push(hints("U", 0, cur.size_hint(), cur.len()));
                }
            }
            _ => {
                let n = cur.limited_to(usize::MAX).count();
                push(hints("c", clampn(n), cur.size_hint(), cur.len()));
            }
        }
    }
    user(|| drop((stack, p)));
    out
}
fn iter_mut_prog<T: Ty>(it: varlen::seq::IterMut<'_, T>, p: &str) -> Vec<String> {
    let mut out = user(Vec::new);
    let p = user(|| prog(p));
    let mut cur = it;
    let mut push = |s: String| user(|| out.push(s));
    push(hints("b", 0, cur.size_hint(), cur.len()));
    for (c, n) in p.iter() {
        match c {
            'n' => {
                let x = cur.next().map(|t| &*t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints("n", b, cur.size_hint(), cur.len()));
            }
            'N' => {
                let x = cur.nth(*n).map(|t| &*t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints(["N0", "N1", "N2", "N3", "N4"][(*n).min(4)], b, cur.size_hint(), cur.len()));
            }
            'l' => {
                let x = cur.last().map(|t| &*t as *const T as usize);
                let b = user(|| x.map_or(-1, |a| pos_elem(a).1));
                push(hints("l", b, (0, Some(0)), 0));
                break;
            }
            'F' => {
                let mut all = user(|| Vec::with_capacity(4096));
                cur.for_each(|t| user(|| all.push(pos_elem(&*t as *const T as usize).1)));
                push(hints_l("F", &all, (0, Some(0)), 0));
                user(|| drop(all));
                break;
            }
            'L' => {
                let lim = if *n == 999 { usize::MAX } else { *n };
                cur = cur.limited_to(lim);
                push(hints("L", *n as i64, cur.size_hint(), cur.len()));
            }
            'U' => {}
            _ => {
                let n = cur.count();
                push(hints("c", clampn(n), (0, Some(0)), 0));
                break;
            }
        }
    }
    user(|| drop(p));
    out
}
