//! Leaf values: what fields and array elements are made of.
use crate::track::*;
use crate::ty::*;
use std::any::Any;
use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::rc::Rc;
use varlen::array::SizedInit;
use varlen::prelude::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 8) as usize % n
    }
}

/// What was handed over for one leaf.
#[derive(Clone, Default)]
pub struct PutLeaf {
    pub n: usize,
    pub v: Vec<String>,
    /// tokens, in order; for mode 'c' those of the source
    pub t: Vec<u32>,
    /// 'm' moved in (or byte-copied), 'c' cloned by the library, 'd' made by Default
    pub mode: char,
    /// number of anonymous (zero-sized) tokens
    pub z: usize,
    /// values owned by the initializer from the start
    pub own: Vec<u32>,
    /// number of anonymous tokens owned by the initializer from the start
    pub zown: usize,
    /// calls observed: index sequence of a fill function, or 1.. per item asked of an iterator
    pub ca: Vec<usize>,
    pub cak: char,
}
pub type PutLog = Rc<RefCell<Vec<PutLeaf>>>;

/// Construction context of one initializer.
pub struct Cx {
    pub lens: Vec<usize>,
    pub li: usize,
    pub rng: Rng,
    pub put: PutLog,
    /// give the k-th eligible array (1-based) a source of the wrong length
    pub bad: usize,
    pub bad_done: bool,
    pub held: Vec<Box<dyn Any>>,
    pub depth: usize,
    /// force every array through this route (0: choose)
    pub force: usize,
    /// no routes that go through other containers
    pub flat: bool,
    /// defer all user callbacks to the library call
    pub made_z: usize,
}
impl Cx {
    pub fn len(&mut self, max: usize) -> usize {
        let n = if self.lens.is_empty() { 0 } else { self.lens[self.li % self.lens.len()] };
        self.li += 1;
        n.min(max)
    }
    pub fn leaf(&mut self) -> usize {
        let mut p = self.put.borrow_mut();
        p.push(PutLeaf { mode: 'm', cak: '-', ..Default::default() });
        p.len() - 1
    }
}

pub struct Cell {
    pub v: String,
    pub t: Option<u32>,
}
impl Cell {
    pub fn v(v: impl ToString) -> Cell {
        Cell { v: v.to_string(), t: None }
    }
}

pub const LONG: usize = 40;
pub fn digest(vs: &[String]) -> Vec<String> {
    if vs.len() <= LONG {
        return vs.to_vec();
    }
    if vs.iter().all(|v| v == "u" || v == "z") {
        // zero-sized: nothing but the number can differ
        return vec![format!("+{}", vs.len())];
    }
    let mut h: u64 = 0xcbf29ce484222325;
    for s in vs {
        for b in s.as_bytes().iter().chain(b";") {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    vec![format!("#{:x}", h)]
}

pub trait Elem: Sized + 'static {
    const K: &'static str;
    /// identified tokens
    const TOK: bool = false;
    /// anonymous tokens
    const ZT: bool = false;
    /// heap blocks of the library held by each value
    const NB: usize = 0;
    fn make(r: &mut Rng) -> Self;
    fn cell(&self) -> Cell;
    fn num(&self) -> i64 {
        -1
    }
    fn caps() -> Caps<Self>;
    fn try_copy<L: LenTy>(_: &'static [Self]) -> Option<Option<DynI<Array<Self, L>>>> {
        None
    }
    fn try_clone<L: LenTy>(_: &'static [Self]) -> Option<Option<DynI<Array<Self, L>>>> {
        None
    }
}
macro_rules! clone_m { () => {
    fn try_clone<L: LenTy>(s: &'static [Self]) -> Option<Option<DynI<Array<Self, L>>>> {
        Some(L::plain_clone(s).or_else(|| Array::<Self, L>::try_clone_from_slice(s).map(DynI::new)))
    }
} }
macro_rules! copy_m { () => {
    clone_m!();
    fn try_copy<L: LenTy>(s: &'static [Self]) -> Option<Option<DynI<Array<Self, L>>>> {
        Some(L::plain_copy(s).or_else(|| Array::<Self, L>::try_copy(s).map(DynI::new)))
    }
} }

/// What can be done with a leaf type, as functions so that callers need no extra bounds.
pub struct Caps<E: 'static> {
    pub clone_from: Option<fn(&'static [E]) -> DynA<E>>,
    pub copy_from: Option<fn(&'static [E]) -> DynA<E>>,
    pub default: Option<fn() -> DynA<E>>,
    pub default_one: Option<fn() -> E>,
}
macro_rules! caps {
    ($e:ty, copy) => { Caps { clone_from: Some(|s| DynA::new(CloneFrom(s))), copy_from: Some(|s| DynA::new(CopyFrom(s))),
        default: Some(|| DynA::new(FillWithDefault)), default_one: Some(|| <$e>::default()) } };
    ($e:ty, copynodef) => { Caps { clone_from: Some(|s| DynA::new(CloneFrom(s))), copy_from: Some(|s| DynA::new(CopyFrom(s))),
        default: None, default_one: None } };
    ($e:ty, clone) => { Caps { clone_from: Some(|s| DynA::new(CloneFrom(s))), copy_from: None,
        default: Some(|| DynA::new(FillWithDefault)), default_one: Some(|| <$e>::default()) } };
    ($e:ty, move) => { Caps { clone_from: None, copy_from: None, default: None, default_one: None } };
}

macro_rules! caps_nb { () => { Caps { clone_from: Some(|s| DynA::new(CloneFrom(s))), copy_from: None, default: None, default_one: None } } }
macro_rules! int_elem {
    ($($t:ident)*) => { $(
        impl Elem for $t {
            const K: &'static str = stringify!($t);
            fn make(r: &mut Rng) -> Self { (((r.next() as u128) << 64) | r.next() as u128) as $t }
            fn cell(&self) -> Cell { Cell::v(self) }
            fn num(&self) -> i64 { (*self as u64 & 0x7fffffff) as i64 }
            fn caps() -> Caps<Self> { caps!($t, copy) }
            copy_m!();
        } )* };
}
int_elem!(u8 u16 u32 u64 u128 usize);

impl Elem for () {
    const K: &'static str = "unit";
    fn make(_: &mut Rng) {}
    fn cell(&self) -> Cell { Cell::v("u") }
    fn caps() -> Caps<()> { caps!((), copy) }
    copy_m!();
}
impl Elem for [u8; 3] {
    const K: &'static str = "b3";
    fn make(r: &mut Rng) -> Self { let x = r.next(); [x as u8, (x >> 8) as u8, (x >> 16) as u8] }
    fn cell(&self) -> Cell { Cell::v(format!("{}.{}.{}", self[0], self[1], self[2])) }
    fn caps() -> Caps<Self> { caps!([u8; 3], copy) }
    copy_m!();
}
impl Elem for (u8, u32) {
    const K: &'static str = "u8u32";
    fn make(r: &mut Rng) -> Self { let x = r.next(); (x as u8, (x >> 8) as u32) }
    fn cell(&self) -> Cell { Cell::v(format!("{}.{}", self.0, self.1)) }
    fn caps() -> Caps<Self> { caps!((u8, u32), copy) }
    copy_m!();
}
/// Zero-sized, but aligned.
impl Elem for [u64; 0] {
    const K: &'static str = "z64";
    fn make(_: &mut Rng) -> Self { [] }
    fn cell(&self) -> Cell { Cell::v("u") }
    fn caps() -> Caps<Self> { caps!([u64; 0], copy) }
    copy_m!();
}
#[derive(Clone, Copy, Default, PartialEq)]
#[repr(align(32))]
pub struct Al32(pub u32);
impl Elem for Al32 {
    const K: &'static str = "al32";
    fn make(r: &mut Rng) -> Self { Al32(r.next() as u32) }
    fn cell(&self) -> Cell { Cell::v(self.0) }
    fn caps() -> Caps<Self> { caps!(Al32, copy) }
    copy_m!();
}
#[derive(Clone, Copy, Default, PartialEq)]
#[repr(align(128))]
pub struct Al128(pub u8);
impl Elem for Al128 {
    const K: &'static str = "al128";
    fn make(r: &mut Rng) -> Self { Al128(r.next() as u8) }
    fn cell(&self) -> Cell { Cell::v(self.0) }
    fn caps() -> Caps<Self> { caps!(Al128, copy) }
    copy_m!();
}
impl Elem for bool {
    const K: &'static str = "bool";
    fn make(r: &mut Rng) -> Self { r.next() & 256 != 0 }
    fn cell(&self) -> Cell {
        // read as a byte: a damaged object may hold anything
        Cell::v(unsafe { *(self as *const bool as *const u8) })
    }
    fn num(&self) -> i64 { unsafe { *(self as *const bool as *const u8) as i64 } }
    fn caps() -> Caps<Self> { caps!(bool, copy) }
    copy_m!();
}

/// Destructor and clone are observed; identified by `id`.
pub struct Tok { pub id: u32, pub val: u32 }
impl Drop for Tok { fn drop(&mut self) { drop_token(self.id) } }
impl Clone for Tok { fn clone(&self) -> Tok { Tok { id: clone_token(self.id), val: self.val } } }
impl Default for Tok { fn default() -> Tok { fill_point(); Tok { id: new_token(), val: 0 } } }
impl Elem for Tok {
    const K: &'static str = "tok";
    const TOK: bool = true;
    fn make(r: &mut Rng) -> Tok { Tok { id: new_token(), val: r.next() as u32 } }
    fn cell(&self) -> Cell { Cell { v: format!("{}{}", self.val, check_token(self.id)), t: Some(self.id) } }
    fn caps() -> Caps<Tok> { caps!(Tok, clone) }
    clone_m!();
}
/// Like `Tok`, not cloneable, larger, odd alignment.
#[repr(align(16))]
pub struct NTok { pub val: u8, pub id: u32 }
impl Drop for NTok { fn drop(&mut self) { drop_token(self.id) } }
impl Elem for NTok {
    const K: &'static str = "ntok";
    const TOK: bool = true;
    fn make(r: &mut Rng) -> NTok { NTok { id: new_token(), val: r.next() as u8 } }
    fn cell(&self) -> Cell { Cell { v: format!("{}{}", self.val, check_token(self.id)), t: Some(self.id) } }
    fn caps() -> Caps<NTok> { caps!(NTok, move) }
}
/// Owns heap memory.
pub struct BTok { id: u32, p: *mut u64 }
impl BTok {
    fn new(id: u32, v: u64) -> BTok { user(|| BTok { id, p: Box::into_raw(Box::new(v)) }) }
}
impl Drop for BTok {
    fn drop(&mut self) {
        let ok = check_token(self.id).is_empty();
        let (id, p) = (self.id, self.p);
        if ok { user(|| unsafe { drop(Box::from_raw(p)) }) }
        drop_token(id)
    }
}
impl Clone for BTok {
    fn clone(&self) -> BTok {
        let v = if check_token(self.id).is_empty() { unsafe { *self.p } } else { 0 };
        BTok::new(clone_token(self.id), v)
    }
}
impl Default for BTok { fn default() -> BTok { fill_point(); BTok::new(new_token(), 0) } }
impl Elem for BTok {
    const K: &'static str = "btok";
    const TOK: bool = true;
    fn make(r: &mut Rng) -> BTok { BTok::new(new_token(), r.next() & 0xffffffff) }
    fn cell(&self) -> Cell {
        let c = check_token(self.id);
        Cell { v: if c.is_empty() { unsafe { (*self.p).to_string() } } else { c }, t: Some(self.id) }
    }
    fn caps() -> Caps<BTok> { caps!(BTok, clone) }
    clone_m!();
}
/// Zero-sized, with an observed destructor: only counted.
pub struct ZTok(());
impl ZTok { fn new() -> ZTok { user(|| { st().zlive += 1; st().zcreated += 1; }); ZTok(()) } }
impl Drop for ZTok {
    fn drop(&mut self) {
        let f = user(|| { let s = st(); s.zlive -= 1; s.zdropped += 1; if s.zlive < 0 { s.badt("destructor ran on a value that never existed") } count_down(&mut s.f_drop) });
        if f && !std::thread::panicking() { inject() }
    }
}
impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        let f = user(|| count_down(&mut st().f_clone));
        if f { inject() }
        user(|| { st().zlive += 1; st().zcloned += 1; });
        ZTok(())
    }
}
impl Default for ZTok { fn default() -> ZTok { fill_point(); ZTok::new() } }
impl Elem for ZTok {
    const K: &'static str = "ztok";
    const ZT: bool = true;
    fn make(_: &mut Rng) -> ZTok { ZTok::new() }
    fn cell(&self) -> Cell { Cell::v("z") }
    fn caps() -> Caps<ZTok> { caps!(ZTok, clone) }
    clone_m!();
}
/// Boxes inside values are not subject to the refusals a script asks for (a refused box ends
/// the process, as it must).
fn spared<R>(f: impl FnOnce() -> R) -> R {
    let fa = std::mem::replace(&mut st().fail_at, 0);
    let r = f();
    st().fail_at = fa;
    r
}
/// A library container used as a leaf value.
pub struct NestBox(pub VBox<Tup2<FixedLen<Tok>, Str>>);
impl Elem for NestBox {
    const K: &'static str = "nestbox";
    const TOK: bool = true;
    const NB: usize = 1;
    fn make(r: &mut Rng) -> NestBox {
        let s = user(|| "abcdefgh"[..1 + r.below(7)].to_string());
        let t = Tok::make(r);
        let b = spared(|| lib(|| VBox::new(tup2::Init(FixedLen(t), Str::copy(&s)))));
        user(|| drop(s));
        NestBox(b)
    }
    fn cell(&self) -> Cell {
        let r = self.0.refs();
        let c = r.0 .0.cell();
        Cell { v: format!("{}/{}", c.v, &r.1[..]), t: c.t }
    }
    fn caps() -> Caps<NestBox> { caps_nb!() }
    clone_m!();
}
impl Clone for NestBox { fn clone(&self) -> NestBox { NestBox(spared(|| lib(|| self.0.clone()))) } }

/// A layout controller with an observed destructor.
pub struct CTok { pub len: usize, pub id: u32 }
impl Drop for CTok { fn drop(&mut self) { drop_token(self.id) } }
impl CTok { pub fn new(len: usize) -> CTok { CTok { len, id: new_token() } } }
impl Elem for CTok {
    const K: &'static str = "ctok";
    const TOK: bool = true;
    fn make(r: &mut Rng) -> CTok { CTok::new(r.below(4)) }
    fn cell(&self) -> Cell { Cell { v: format!("{}{}", self.len, check_token(self.id)), t: Some(self.id) } }
    fn num(&self) -> i64 { (self.len & 0x7fffffff) as i64 }
    fn caps() -> Caps<CTok> { caps!(CTok, move) }
}
