//! Structural description, construction and projection of variable-length types.
use crate::elem::*;
use crate::track::*;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::SizedInit;
use varlen::prelude::*;
use varlen::Layout as _;

// ---- initializers with their type erased (the real ones run underneath) ---------------------

pub trait ErasedI<T: VarLen> {
    fn calc(&self) -> Option<T::Layout>;
    unsafe fn init(self: Box<Self>, dst: NonNull<T>, l: T::Layout);
}
impl<T: VarLen, I: Initializer<T>> ErasedI<T> for I {
    fn calc(&self) -> Option<T::Layout> {
        self.calculate_layout_cautious()
    }
    unsafe fn init(self: Box<Self>, dst: NonNull<T>, l: T::Layout) {
        let me = user(|| *self);
        me.initialize(dst, l)
    }
}
pub struct DynI<T: VarLen>(Option<Box<dyn ErasedI<T>>>);
impl<T: VarLen> DynI<T> {
    pub fn new(i: impl Initializer<T> + 'static) -> Self {
        user(|| DynI(Some(Box::new(i))))
    }
    /// The caller keeps whatever the initializer borrows alive.
    pub unsafe fn new_unbound<'a>(i: impl Initializer<T> + 'a) -> Self where T: 'a {
        user(|| {
            let b: Box<dyn ErasedI<T> + 'a> = Box::new(i);
            DynI(Some(std::mem::transmute::<Box<dyn ErasedI<T> + 'a>, Box<dyn ErasedI<T>>>(b)))
        })
    }
    pub fn size(&self) -> Option<usize> {
        self.0.as_ref().unwrap().calc().map(|l| l.size())
    }
}
unsafe impl<T: VarLen> Initializer<T> for DynI<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        self.0.as_ref().unwrap().calc()
    }
    unsafe fn initialize(mut self, dst: NonNull<T>, l: T::Layout) {
        self.0.take().unwrap().init(dst, l)
    }
}
impl<T: VarLen> Drop for DynI<T> {
    fn drop(&mut self) {
        let b = self.0.take();
        user(|| drop(b))
    }
}

trait ErasedA<E> {
    fn init(self: Box<Self>, dst: &mut [MaybeUninit<E>]);
}
impl<E, I: ArrayInitializer<E>> ErasedA<E> for I {
    fn init(self: Box<Self>, dst: &mut [MaybeUninit<E>]) {
        let me = user(|| *self);
        me.initialize(dst)
    }
}
pub struct DynA<E>(Option<Box<dyn ErasedA<E>>>);
impl<E> DynA<E> {
    pub fn new(i: impl ArrayInitializer<E> + 'static) -> Self {
        user(|| DynA(Some(Box::new(i))))
    }
}
unsafe impl<E> ArrayInitializer<E> for DynA<E> {
    fn initialize(mut self, dst: &mut [MaybeUninit<E>]) {
        self.0.take().unwrap().init(dst)
    }
}
impl<E> Drop for DynA<E> {
    fn drop(&mut self) {
        let b = self.0.take();
        user(|| drop(b))
    }
}

/// An iterator whose own storage belongs to the harness, and which counts its calls.
pub struct Items<E> {
    it: std::vec::IntoIter<E>,
    put: PutLog,
    leaf: usize,
}
impl<E> Iterator for Items<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        fill_point();
        user(|| {
            let k = {
                let mut p = self.put.borrow_mut();
                let k = p[self.leaf].ca.len();
                p[self.leaf].ca.push(k);
                k
            };
            let _ = k;
            self.it.next()
        })
    }
}
pub struct Guarded<X>(Option<X>);
impl<X> Drop for Guarded<X> {
    fn drop(&mut self) {
        let x = self.0.take();
        user(|| drop(x))
    }
}
impl<X: Iterator> Iterator for Guarded<X> {
    type Item = X::Item;
    fn next(&mut self) -> Option<X::Item> {
        self.0.as_mut().unwrap().next()
    }
}

// ---- projection -----------------------------------------------------------------------------

#[derive(Clone, Default)]
pub struct Leaf {
    /// byte offset through shared access
    pub o: i64,
    /// byte offset and length through mutable access
    pub m: i64,
    pub mn: i64,
    pub n: usize,
    /// length reported in the short type
    pub l: i64,
    pub v: Vec<String>,
    pub t: Vec<u32>,
    pub z: usize,
    pub x: i64,
    pub nb: usize,
}
fn rel(a: usize, base: usize) -> i64 {
    let d = a.wrapping_sub(base) as i64;
    if d < -1_000_000_000 || d > 1_000_000_000 { -1 } else { d }
}
pub const MAXN: usize = 200_000;
pub fn clampn(n: usize) -> i64 {
    n.min(2_000_000_000) as i64
}
pub fn leaf_of<E: Elem>(s: &[E], base: usize) -> Leaf {
    let n = s.len();
    let mut v = vec![];
    let mut t = vec![];
    let show = if std::mem::size_of::<E>() == 0 && n > LONG { 0 } else { n.min(MAXN) };
    for e in &s[..show] {
        let c = e.cell();
        v.push(c.v);
        if let Some(i) = c.t {
            t.push(i.min(i32::MAX as u32));
        }
    }
    let mut v = digest(&v);
    if show < n {
        v.push(format!("+{}", n - show));
    }
    Leaf {
        o: rel(s.as_ptr() as usize, base), m: -1, mn: -1, n: clampn(n) as usize, l: -1, v, t, x: -1,
        z: if E::ZT { clampn(n) as usize } else { 0 }, nb: E::NB * n.min(MAXN),
    }
}
pub fn leaf_one<E: Elem>(e: &E, base: usize) -> Leaf {
    let mut l = leaf_of(std::slice::from_ref(e), base);
    l.x = e.num();
    l
}

/// Mutable access to one leaf.
pub trait LeafMut {
    fn addr(&self) -> usize;
    fn len(&self) -> usize;
    /// overwrite element `i` with a new value; returns what was written
    fn assign(&mut self, i: usize, r: &mut Rng) -> (String, Vec<u32>);
    /// swap elements
    fn swap(&mut self, i: usize, j: usize);
    fn writable(&self) -> bool {
        true
    }
}
pub struct SliceM<'a, E>(pub &'a mut [E]);
impl<'a, E: Elem> LeafMut for SliceM<'a, E> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn assign(&mut self, i: usize, r: &mut Rng) -> (String, Vec<u32>) {
        let e = E::make(r);
        let c = e.cell();
        self.0[i] = e;
        (c.v, c.t.into_iter().collect())
    }
    fn swap(&mut self, i: usize, j: usize) {
        self.0.swap(i, j)
    }
}
pub struct StrM<'a>(pub &'a mut str);
impl<'a> LeafMut for StrM<'a> {
    fn addr(&self) -> usize {
        self.0.as_ptr() as usize
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn assign(&mut self, i: usize, r: &mut Rng) -> (String, Vec<u32>) {
        // one ASCII byte by another
        let c = b'a' + r.below(26) as u8;
        unsafe { self.0.as_bytes_mut()[i] = c };
        (c.to_string(), vec![])
    }
    fn swap(&mut self, i: usize, j: usize) {
        unsafe { self.0.as_bytes_mut().swap(i, j) }
    }
}
pub struct ReadOnly(pub usize, pub usize);
impl LeafMut for ReadOnly {
    fn addr(&self) -> usize {
        self.0
    }
    fn len(&self) -> usize {
        self.1
    }
    fn assign(&mut self, _: usize, _: &mut Rng) -> (String, Vec<u32>) {
        (String::new(), vec![])
    }
    fn swap(&mut self, _: usize, _: usize) {}
    fn writable(&self) -> bool {
        false
    }
}
pub type Visit<'v> = &'v mut dyn FnMut(&mut dyn LeafMut);

pub struct CtlOut {
    pub ok: bool,
    pub v: Vec<String>,
    pub x: Vec<i64>,
    pub t: Vec<u32>,
    /// values with identity, per controller
    pub k: Vec<Vec<u32>>,
}

pub trait Ty: VarLen + 'static {
    fn desc() -> String;
    fn mk(cx: &mut Cx) -> DynI<Self>;
    fn read(&self, base: usize, out: &mut Vec<Leaf>);
    fn visit(self: Pin<&mut Self>, v: Visit);
    fn set_ctl(self: Pin<&mut Self>, _mode: usize, _r: &mut Rng, _out: &mut CtlOut) -> bool {
        false
    }
    fn clear_pad() {}
}

/// Builds a nested initializer, sometimes by way of another container.
pub fn mk_routed<T: Ty>(cx: &mut Cx) -> DynI<T> {
    let r = if cx.flat { 0 } else { cx.rng.below(6) };
    cx.depth += 1;
    let i = T::mk(cx);
    cx.depth -= 1;
    match r {
        4 => DynI::new(lib(|| VBox::new(i))),
        5 => DynI::new(lib(|| Owned::new_in(i, crate::world::bump()))),
        _ => i,
    }
}

fn moved<E: Elem>(n: usize, cx: &mut Cx, leaf: usize, extra: usize) -> Vec<E> {
    let mut out = Vec::with_capacity(n + extra);
    let mut v = vec![];
    let mut own = vec![];
    for i in 0..n + extra {
        let e = E::make(&mut cx.rng);
        let c = e.cell();
        if i < n {
            v.push(c.v)
        }
        own.extend(c.t);
        out.push(e);
    }
    let mut p = cx.put.borrow_mut();
    let l = &mut p[leaf];
    l.n = n;
    l.v = digest(&v);
    l.t = own.iter().take(n).cloned().collect();
    l.own = own;
    if E::ZT {
        l.z = n;
        l.zown = n + extra;
    }
    out
}

/// An initializer for `n` elements by one of the array initializers.
pub fn mk_arr<E: Elem>(n: usize, cx: &mut Cx) -> DynA<E> {
    let leaf = cx.leaf();
    let caps = E::caps();
    let mut routes = vec![1usize, 2, 2];
    if caps.clone_from.is_some() {
        routes.push(3)
    }
    if caps.copy_from.is_some() {
        routes.push(4)
    }
    if caps.default.is_some() {
        routes.push(5)
    }
    let can_move = n <= 4;
    if can_move {
        routes.push(6)
    }
    let mut r = routes[cx.rng.below(routes.len())];
    if cx.force != 0 && routes.contains(&cx.force) {
        r = cx.force
    }
    let mut m = n;
    if cx.bad > 0 {
        cx.bad -= 1;
        if cx.bad == 0 {
            cx.bad_done = true;
            if r == 1 || r == 5 {
                r = 2
            }
            let down = cx.rng.below(2) == 0 || r == 2;
            if down && n > 0 {
                m = n - 1 - cx.rng.below(n.min(3))
            } else if r == 2 {
                cx.bad_done = false
            } else {
                m = n + 1
            }
        }
    }
    match r {
        2 => {
            let extra = if m == n { [0, 0, 1, 2][cx.rng.below(4)] } else { 0 };
            let it = moved::<E>(m, cx, leaf, extra).into_iter();
            cx.put.borrow_mut()[leaf].cak = 'i';
            DynA::new(FromIterPrefix(Guarded(Some(Items { it, put: cx.put.clone(), leaf }))))
        }
        3 | 4 => {
            let src: Box<[E]> = moved::<E>(m, cx, leaf, 0).into_boxed_slice();
            {
                let mut p = cx.put.borrow_mut();
                p[leaf].own.clear();
                p[leaf].zown = 0;
                p[leaf].mode = if r == 3 { 'c' } else { 'm' };
            }
            let s: &'static [E] = unsafe { &*(&src[..] as *const [E]) };
            cx.held.push(Box::new(src));
            if r == 3 { caps.clone_from.unwrap()(s) } else { caps.copy_from.unwrap()(s) }
        }
        5 => {
            let d = caps.default.unwrap();
            let mut p = cx.put.borrow_mut();
            let l = &mut p[leaf];
            l.n = n;
            l.mode = 'd';
            l.v = match n {
                0 => vec![],
                _ => {
                    // what the type's default looks like
                    let f = std::mem::replace(&mut st().f_fill, 0);
                    let fd = std::mem::replace(&mut st().f_drop, 0);
                    let before = (st().created.len(), st().dropped.len(), st().tok.len(), st().zcreated, st().zdropped);
                    let e = caps.default_one.unwrap()();
                    let c = e.cell();
                    drop(e);
                    let s = st();
                    s.f_fill = f;
                    s.f_drop = fd;
                    s.created.truncate(before.0);
                    s.dropped.truncate(before.1);
                    s.tok.truncate(before.2);
                    s.zcreated = before.3;
                    s.zdropped = before.4;
                    digest(&vec![c.v; n])
                }
            };
            if E::ZT {
                l.z = n
            }
            d()
        }
        6 => {
            fn arr<E, const N: usize>(v: Vec<E>) -> DynA<E> where E: 'static {
                let a: [E; N] = v.try_into().ok().unwrap();
                DynA::new(MoveFrom(a))
            }
            let v = moved::<E>(m, cx, leaf, 0);
            match m {
                0 => arr::<E, 0>(v),
                1 => arr::<E, 1>(v),
                2 => arr::<E, 2>(v),
                3 => arr::<E, 3>(v),
                4 => arr::<E, 4>(v),
                _ => arr::<E, 5>(v),
            }
        }
        _ => {
            {
                let mut p = cx.put.borrow_mut();
                p[leaf].n = n;
                p[leaf].cak = 'f';
                if n > LONG {
                    p[leaf].cak = 'F'
                }
                if E::ZT {
                    p[leaf].z = n
                }
            }
            let put = Guarded(Some(cx.put.clone()));
            let mut rng = Rng(cx.rng.next());
            let mut all: Guarded<Vec<String>> = Guarded(Some(vec![]));
            DynA::new(FillSequentially(move |i: usize| -> E {
                fill_point();
                user(|| {
                    let e = E::make(&mut rng);
                    let c = e.cell();
                    let mut p = put.0.as_ref().unwrap().borrow_mut();
                    let l = &mut p[leaf];
                    l.ca.push(i.min(i32::MAX as usize));
                    l.t.extend(c.t);
                    if n > LONG {
                        all.0.as_mut().unwrap().push(c.v);
                        l.v = if l.ca.len() == n { digest(all.0.as_ref().unwrap()) } else { vec![] };
                    } else {
                        l.v.push(c.v);
                    }
                    e
                })
            }))
        }
    }
}

pub trait LenTy: ArrayLen + 'static {
    const K: &'static str;
    const MAX: usize;
    /// the infallible constructors which only `usize` lengths have
    fn plain_copy<E: Copy + 'static>(_: &'static [E]) -> Option<DynI<Array<E, Self>>> {
        None
    }
    fn plain_clone<E: Clone + 'static>(_: &'static [E]) -> Option<DynI<Array<E, Self>>> {
        None
    }
    fn plain_str(_: &'static str) -> Option<DynI<Str<Self>>> {
        None
    }
}
macro_rules! lens { ($($t:ident)*) => { $( impl LenTy for $t { const K: &'static str = stringify!($t); const MAX: usize = $t::MAX as usize; } )* } }
lens!(u8 u16 u32 u64);
impl LenTy for usize {
    const K: &'static str = "usize";
    const MAX: usize = usize::MAX;
    fn plain_copy<E: Copy + 'static>(s: &'static [E]) -> Option<DynI<Array<E, Self>>> {
        every_other().then(|| DynI::new(Array::copy(s)))
    }
    fn plain_clone<E: Clone + 'static>(s: &'static [E]) -> Option<DynI<Array<E, Self>>> {
        every_other().then(|| DynI::new(Array::clone_from_slice(s)))
    }
    fn plain_str(s: &'static str) -> Option<DynI<Str<Self>>> {
        every_other().then(|| DynI::new(Str::copy(s)))
    }
}
fn every_other() -> bool {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0
}

fn al<E>() -> usize {
    std::mem::align_of::<E>()
}
fn sz<E>() -> usize {
    std::mem::size_of::<E>()
}
pub fn elem_desc<E: Elem>() -> String {
    format!("\"e\":\"{}\",\"sz\":{},\"al\":{},\"tok\":{},\"zt\":{}", E::K, sz::<E>(), al::<E>(), E::TOK, E::ZT)
}

impl<E: Elem> Ty for FixedLen<E> {
    fn desc() -> String {
        format!("{{\"k\":\"fix\",{}}}", elem_desc::<E>())
    }
    fn mk(cx: &mut Cx) -> DynI<Self> {
        let leaf = cx.leaf();
        let e = moved::<E>(1, cx, leaf, 0).pop().unwrap();
        DynI::new(FixedLen(e))
    }
    fn read(&self, base: usize, out: &mut Vec<Leaf>) {
        out.push(leaf_one(&self.0, base))
    }
    fn visit(self: Pin<&mut Self>, v: Visit) {
        let m = unsafe { self.get_unchecked_mut() };
        v(&mut SliceM(std::slice::from_mut(&mut m.0)))
    }
}

impl<E: Elem, L: LenTy> Ty for Array<E, L> {
    fn desc() -> String {
        format!("{{\"k\":\"arr\",\"lsz\":{},\"lal\":{},{}}}", sz::<L>(), al::<L>(), elem_desc::<E>())
    }
    fn mk(cx: &mut Cx) -> DynI<Self> {
        let n = cx.len(L::MAX);
        let caps = E::caps();
        let (can_copy, can_clone) = (caps.copy_from.is_some(), caps.clone_from.is_some());
        if cx.force == 0 && cx.bad == 0 && can_clone && cx.rng.below(4) == 0 {
            // the constructors of `Array` itself
            let copy = can_copy && cx.rng.below(2) == 0;
            let src: Box<[E]> = (0..n).map(|_| E::make(&mut cx.rng)).collect();
            let s: &'static [E] = unsafe { &*(&src[..] as *const [E]) };
            let i = if copy { lib(|| E::try_copy::<L>(s)) } else { lib(|| E::try_clone::<L>(s)) };
            let i = i.unwrap().unwrap();
            let leaf = cx.leaf();
            let l0 = leaf_of(s, s.as_ptr() as usize);
            let mut p = cx.put.borrow_mut();
            let l = &mut p[leaf];
            l.n = n;
            l.v = l0.v;
            l.t = l0.t;
            l.z = l0.z;
            l.mode = if copy { 'm' } else { 'c' };
            drop(p);
            cx.held.push(Box::new(src));
            return i;
        }
        let i = mk_arr::<E>(n, cx);
        DynI::new(SizedInit(L::from_usize(n).unwrap(), i))
    }
    fn read(&self, base: usize, out: &mut Vec<Leaf>) {
        let s: &[E] = self;
        let mut l = leaf_of(s, base);
        l.l = clampn(self.len_short().as_usize());
        out.push(l);
    }
    fn visit(self: Pin<&mut Self>, v: Visit) {
        v(&mut SliceM(self.mut_slice()))
    }
}

impl<L: LenTy> Ty for Str<L> {
    fn desc() -> String {
        format!("{{\"k\":\"arr\",\"lsz\":{},\"lal\":{},\"e\":\"char\",\"sz\":1,\"al\":1,\"tok\":false,\"zt\":false}}", sz::<L>(), al::<L>())
    }
    fn mk(cx: &mut Cx) -> DynI<Self> {
        let n = cx.len(L::MAX);
        let leaf = cx.leaf();
        let s: String = (0..n).map(|_| (b'a' + cx.rng.below(26) as u8) as char).collect();
        let v: Vec<String> = s.bytes().map(|b| b.to_string()).collect();
        {
            let mut p = cx.put.borrow_mut();
            p[leaf].n = n;
            p[leaf].v = digest(&v);
        }
        let b: Box<str> = s.into_boxed_str();
        let r: &'static str = unsafe { &*(&b[..] as *const str) };
        cx.held.push(Box::new(b));
        L::plain_str(r).unwrap_or_else(|| DynI::new(Str::<L>::try_copy(r).unwrap()))
    }
    fn read(&self, base: usize, out: &mut Vec<Leaf>) {
        let s: &str = self;
        out.push(leaf_bytes(s.as_bytes(), base));
    }
    fn visit(self: Pin<&mut Self>, v: Visit) {
        v(&mut StrM(self.mut_slice()))
    }
}
pub fn leaf_bytes(s: &[u8], base: usize) -> Leaf {
    let v: Vec<String> = s.iter().take(MAXN).map(|b| b.to_string()).collect();
    Leaf { o: rel(s.as_ptr() as usize, base), m: -1, mn: -1, n: clampn(s.len()) as usize, l: -1, v: digest(&v), t: vec![], z: 0, x: -1, nb: 0 }
}

macro_rules! tup_ty {
    ($name:ident $mod:ident $($t:ident $v:ident $i:tt),*) => {
        impl<$($t: Ty),*> Ty for $name<$($t),*> {
            fn desc() -> String { format!("{{\"k\":\"tup\",\"f\":[{}]}}", vec![$($t::desc()),*].join(",")) }
            fn mk(cx: &mut Cx) -> DynI<Self> {
                $( let $v = mk_routed::<$t>(cx); )*
                DynI::new($mod::Init($($v),*))
            }
            fn read(&self, base: usize, out: &mut Vec<Leaf>) {
                let r = self.refs();
                $( r.$i.read(base, out); )*
            }
            fn visit(self: Pin<&mut Self>, v: Visit) {
                let m = self.muts();
                $( m.$i.visit(v); )*
            }
        }
    };
}
tup_ty!(Tup2 tup2 A a 0, B b 1);
tup_ty!(Tup3 tup3 A a 0, B b 1, C c 2);
tup_ty!(Tup4 tup4 A a 0, B b 1, C c 2, D d 3);
tup_ty!(Tup5 tup5 A a 0, B b 1, C c 2, D d 3, E e 4);

/// Full projection of an object.
pub fn project<T: Ty>(t: &T) -> (usize, Vec<Leaf>) {
    let mut out = vec![];
    let size = t.calculate_layout().size();
    t.read(t as *const T as usize, &mut out);
    (size, out)
}
pub fn project_mut<T: Ty>(t: Pin<&mut T>, out: &mut Vec<Leaf>) {
    let base = &*t as *const T as usize;
    let mut i = 0;
    t.visit(&mut |l: &mut dyn LeafMut| {
        if i < out.len() {
            out[i].m = rel(l.addr(), base);
            out[i].mn = clampn(l.len());
        }
        i += 1;
    });
}
