//! Generated structs and newtypes of the menu.
use crate::elem::*;
use crate::track::*;
use crate::ty::*;
use std::pin::Pin;
use varlen::prelude::*;

#[macro_export]
macro_rules! ty_struct {
    (
        $S:ident $(<$($ga:ty),*>)? , $m:ident, $M:ident;
        ctl ($($c:ident : $ct:ty),*) = $cf:expr;
        $( $k:ident $f:ident : $t:ty $(= ($len:expr) $ast:literal)? ; )*
        => $set:expr;
    ) => {
        impl Ty for $S $(<$($ga),*>)? {
            fn desc() -> String {
                let mut f: Vec<String> = vec![];
                $( f.push(ty_struct!(@desc $k $t $(, $ast)?)); )*
                format!("{{\"k\":\"struct\",\"hsz\":{},\"hal\":{},\"f\":[{}]}}",
                    std::mem::size_of::<$M>(), std::mem::align_of::<$M>(), f.join(","))
            }
            #[allow(unused_variables)]
            fn mk(cx: &mut Cx) -> DynI<Self> {
                let cf: fn(&mut Cx) -> ($($ct,)*) = $cf;
                let ($($c,)*) = cf(cx);
                $( ty_struct!(@mk $k $f $t, cx $(, $len)?); )*
                DynI::new($m::Init { $($f),* })
            }
            #[allow(unused_variables)]
            fn read(&self, base: usize, out: &mut Vec<Leaf>) {
                let r = self.refs();
                $( ty_struct!(@read $k r.$f, base, out); )*
            }
            #[allow(unused_variables)]
            fn visit(self: Pin<&mut Self>, v: Visit) {
                let m = self.muts();
                $( ty_struct!(@visit $k m.$f, v); )*
            }
            #[allow(unused_variables)]
            fn set_ctl(self: Pin<&mut Self>, mode: usize, r: &mut Rng, out: &mut CtlOut) -> bool {
                let set: fn(usize, &mut Rng, &$S $(<$($ga),*>)?) -> ($($ct,)*) = $set;
                let ($($c,)*) = user(|| set(mode, r, &self));
                user(|| { $( let x = $c.cell(); out.v.push(x.v); out.t.extend(x.t); out.k.push(x.t.into_iter().collect()); out.x.push($c.num()); )* });
                out.ok = self.try_set_layout_controllers($m::LayoutControllers { $($c),* }).is_ok();
                true
            }
        }
    };
    (@desc fix $t:ty) => { format!("{{\"f\":\"fix\",{}}}", elem_desc::<$t>()) };
    (@desc ctl $t:ty) => { format!("{{\"f\":\"ctl\",{}}}", elem_desc::<$t>()) };
    (@desc arr $t:ty, $ast:literal) => { format!("{{\"f\":\"arr\",{},\"len\":{}}}", elem_desc::<$t>(), $ast) };
    (@desc sub $t:ty) => { format!("{{\"f\":\"sub\",\"d\":{}}}", <$t as Ty>::desc()) };
    (@mk fix $f:ident $t:ty, $cx:ident) => { let $f = put_one::<$t>($cx, |r| <$t as Elem>::make(r)); };
    (@mk ctl $f:ident $t:ty, $cx:ident) => { put_ref::<$t>($cx, &$f); };
    (@mk arr $f:ident $t:ty, $cx:ident, $len:expr) => { let $f = { let n: usize = $len; mk_arr::<$t>(n, $cx) }; };
    (@mk sub $f:ident $t:ty, $cx:ident) => { let $f = mk_routed::<$t>($cx); };
    (@read fix $e:expr, $b:ident, $o:ident) => { $o.push(leaf_one($e, $b)) };
    (@read ctl $e:expr, $b:ident, $o:ident) => { $o.push(leaf_one($e, $b)) };
    (@read arr $e:expr, $b:ident, $o:ident) => { $o.push(leaf_of($e, $b)) };
    (@read sub $e:expr, $b:ident, $o:ident) => { $e.read($b, $o) };
    (@visit fix $e:expr, $v:ident) => { $v(&mut SliceM(std::slice::from_mut($e))) };
    (@visit ctl $e:expr, $v:ident) => { $v(&mut ReadOnly($e as *const _ as usize, 1)) };
    (@visit arr $e:expr, $v:ident) => { $v(&mut SliceM($e)) };
    (@visit sub $e:expr, $v:ident) => { $e.visit($v) };
}

pub fn put_one<E: Elem>(cx: &mut Cx, f: impl FnOnce(&mut Rng) -> E) -> E {
    let e = f(&mut cx.rng);
    put_ref(cx, &e);
    e
}
pub fn put_ref<E: Elem>(cx: &mut Cx, e: &E) {
    let leaf = cx.leaf();
    let c = e.cell();
    let mut p = cx.put.borrow_mut();
    let l = &mut p[leaf];
    l.n = 1;
    l.v = vec![c.v];
    l.t = c.t.into_iter().collect();
    l.own = l.t.clone();
    if E::ZT {
        l.z = 1;
        l.zown = 1;
    }
}

// --- one controller, array and string
#[define_varlen]
pub struct S1 {
    pub a: u32,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub x: [u16; *n as usize],
    #[varlen]
    pub s: Str,
}
#[allow(dead_code)]
pub struct M1 { a: u32, n: u8 }
ty_struct! { S1, s_1, M1; ctl(n: u8) = |cx| (cx.len(255) as u8,);
    fix a: u32; ctl n: u8; arr x: u16 = (n as usize) "[\"c\",1]"; sub s: Str;
    => |mode, r, cur| (if mode == 0 { *cur.refs().n } else { r.below(5) as u8 },);
}

// --- two controllers, sum; tokens
#[define_varlen]
pub struct S2 {
    #[controls_layout]
    pub a: u16,
    #[varlen_array]
    pub y: [u64; *a as usize / 2],
    #[controls_layout]
    pub b: u8,
    pub t: Tok,
    #[varlen_array]
    pub x: [Tok; *a as usize + *b as usize],
}
#[allow(dead_code)]
pub struct M2 { a: u16, b: u8, t: Tok }
ty_struct! { S2, s_2, M2; ctl(a: u16, b: u8) = |cx| (cx.len(6) as u16, cx.len(6) as u8);
    ctl a: u16; arr y: u64 = (a as usize / 2) "[\"/\",[\"c\",1],[\"k\",2]]"; ctl b: u8; fix t: Tok;
    arr x: Tok = (a as usize + b as usize) "[\"+\",[\"c\",1],[\"c\",2]]";
    => |mode, r, cur| {
        let (a, b) = (*cur.refs().a, *cur.refs().b);
        match mode {
            0 => (a, b),
            // same sum, possibly the same quotient
            1 => if a % 2 == 0 && b > 0 { (a + 1, b - 1) } else if a > 0 { (a - 1, b + 1) } else { (a, b) },
            2 => (b as u16, a as u8),
            _ => (r.below(5) as u16, r.below(5) as u8),
        }
    };
}

// --- constant lengths only
#[define_varlen]
pub struct S3 {
    #[varlen_array]
    pub x: [u32; 3],
    pub q: u8,
    #[varlen_array]
    pub w: [u16; K3 + 1],
}
const K3: usize = 1;
#[allow(dead_code)]
pub struct M3 { q: u8 }
ty_struct! { S3, s_3, M3; ctl() = |_| ();
    arr x: u32 = (3) "[\"k\",3]"; fix q: u8; arr w: u16 = (K3 + 1) "[\"k\",2]";
    => |_, _, _| ();
}

// --- nested
#[define_varlen]
pub struct S4 {
    #[varlen]
    pub a: Array<u16, u8>,
    pub f: u8,
    #[varlen]
    pub b: Tup2<FixedLen<Tok>, Str<u16>>,
    #[varlen]
    pub c: S1,
    pub g: Tok,
}
#[allow(dead_code)]
pub struct M4 { f: u8, g: Tok }
ty_struct! { S4, s_4, M4; ctl() = |_| ();
    sub a: Array<u16, u8>; fix f: u8; sub b: Tup2<FixedLen<Tok>, Str<u16>>; sub c: S1; fix g: Tok;
    => |_, _, _| ();
}

// --- representation hint, function in a length
pub const fn half(n: u32) -> usize { n as usize / 2 }
#[define_varlen]
#[repr(C)]
pub struct S5 {
    pub a: u8,
    #[controls_layout]
    pub n: u32,
    pub b: u8,
    #[varlen_array]
    pub x: [u64; *n as usize],
    #[varlen_array]
    pub y: [u8; half(*n)],
    #[varlen_array]
    pub w: [(u8, u32); half(*n)],
}
#[allow(dead_code)]
#[repr(C)]
pub struct M5 { a: u8, n: u32, b: u8 }
ty_struct! { S5, s_5, M5; ctl(n: u32) = |cx| (cx.len(1 << 20) as u32,);
    fix a: u8; ctl n: u32; fix b: u8; arr x: u64 = (n as usize) "[\"c\",1]"; arr y: u8 = (half(n)) "[\"/\",[\"c\",1],[\"k\",2]]";
    arr w: (u8, u32) = (half(n)) "[\"/\",[\"c\",1],[\"k\",2]]";
    => |mode, r, cur| (match mode { 0 => *cur.refs().n, 1 => *cur.refs().n ^ 1, _ => r.below(5) as u32 },);
}

// --- controllers with destructors
#[define_varlen]
pub struct S6 {
    #[controls_layout]
    pub n: CTok,
    pub z: NTok,
    #[varlen_array]
    pub x: [BTok; n.len + m.len],
    #[controls_layout]
    pub m: CTok,
    #[varlen_array]
    pub y: [u8; n.len * m.len],
}
#[allow(dead_code)]
pub struct M6 { n: CTok, z: NTok, m: CTok }
ty_struct! { S6, s_6, M6; ctl(n: CTok, m: CTok) = |cx| (CTok::new(cx.len(3)), CTok::new(cx.len(3)));
    ctl n: CTok; fix z: NTok; arr x: BTok = (n.len + m.len) "[\"+\",[\"c\",1],[\"c\",2]]"; ctl m: CTok;
    arr y: u8 = (n.len * m.len) "[\"*\",[\"c\",1],[\"c\",2]]";
    => |mode, r, cur| {
        let (a, b) = (cur.refs().n.len, cur.refs().m.len);
        let (a, b) = match mode { 0 => (a, b), 1 => (b, a), _ => (r.below(3), r.below(3)) };
        (CTok::new(a), CTok::new(b))
    };
}

// --- generic, with and without its default
#[define_varlen]
pub struct S7<L: ArrayLen = u16> {
    pub b: u8,
    #[varlen]
    pub a: Array<u32, L>,
    pub c: u16,
    #[varlen]
    pub d: Array<u8, L>,
}
#[allow(dead_code)]
pub struct M7 { b: u8, c: u16 }
ty_struct! { S7<u8>, s_7, M7; ctl() = |_| (); fix b: u8; sub a: Array<u32, u8>; fix c: u16; sub d: Array<u8, u8>; => |_, _, _| (); }
ty_struct! { S7<u16>, s_7, M7; ctl() = |_| (); fix b: u8; sub a: Array<u32, u16>; fix c: u16; sub d: Array<u8, u16>; => |_, _, _| (); }

// --- zero-sized parts
#[define_varlen]
pub struct S8 {
    pub u: (),
    #[varlen_array]
    pub x: [ZTok; *n as usize],
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub y: [(); 2],
    pub z: ZTok,
    #[varlen_array]
    pub w: [[u64; 0]; *n as usize],
}
#[allow(dead_code)]
pub struct M8 { u: (), n: u8, z: ZTok }
ty_struct! { S8, s_8, M8; ctl(n: u8) = |cx| (cx.len(7) as u8,);
    fix u: (); arr x: ZTok = (n as usize) "[\"c\",1]"; ctl n: u8; arr y: () = (2) "[\"k\",2]"; fix z: ZTok; arr w: [u64; 0] = (n as usize) "[\"c\",1]";
    => |mode, r, cur| (if mode == 0 { *cur.refs().n } else { r.below(5) as u8 },);
}

// --- large alignments
#[define_varlen]
pub struct S9 {
    pub a: u8,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub x: [Al32; *n as usize],
    #[varlen_array]
    pub y: [u8; *n as usize],
    #[controls_layout]
    pub f: bool,
    #[varlen_array]
    pub z: [Al128; *f as usize],
    #[varlen_array]
    pub w: [u16; 1],
}
#[allow(dead_code)]
pub struct M9 { a: u8, n: u8, f: bool }
ty_struct! { S9, s_9, M9; ctl(n: u8, f: bool) = |cx| (cx.len(5) as u8, cx.len(9) % 2 == 1);
    fix a: u8; ctl n: u8; arr x: Al32 = (n as usize) "[\"c\",1]"; arr y: u8 = (n as usize) "[\"c\",1]"; ctl f: bool;
    arr z: Al128 = (f as usize) "[\"c\",2]"; arr w: u16 = (1) "[\"k\",1]";
    => |mode, r, cur| match mode { 0 => (*cur.refs().n, *cur.refs().f), 1 => (*cur.refs().n, !*cur.refs().f), 2 => (*cur.refs().n + 1, *cur.refs().f), _ => (r.below(3) as u8, r.below(2) == 0) };
}

// --- conditional and product lengths
#[define_varlen]
pub struct S10 {
    #[controls_layout]
    pub p: bool,
    #[controls_layout]
    pub r: u8,
    #[controls_layout]
    pub c: u16,
    #[varlen_array]
    pub x: [u32; if *p { *r as usize * *c as usize } else { 0 }],
    #[varlen_array]
    pub y: [u8; *r as usize],
    #[varlen]
    pub s: Str<u8>,
    #[varlen_array]
    pub z: [u16; if *p { 1 } else { 2 }],
}
#[allow(dead_code)]
pub struct M10 { p: bool, r: u8, c: u16 }
ty_struct! { S10, s_10, M10; ctl(p: bool, r: u8, c: u16) = |cx| (cx.len(9) % 2 == 1, cx.len(5) as u8, cx.len(5) as u16);
    ctl p: bool; ctl r: u8; ctl c: u16;
    arr x: u32 = (if p { r as usize * c as usize } else { 0 }) "[\"if\",[\"c\",1],[\"*\",[\"c\",2],[\"c\",3]],[\"k\",0]]";
    arr y: u8 = (r as usize) "[\"c\",2]"; sub s: Str<u8>; arr z: u16 = (if p { 1 } else { 2 }) "[\"if\",[\"c\",1],[\"k\",1],[\"k\",2]]";
    => |mode, r, cur| {
        let c = (*cur.refs().p, *cur.refs().r, *cur.refs().c);
        match mode { 0 => c, 1 => (c.0, c.1, r.below(5) as u16), 2 => (!c.0, c.1, c.2), _ => (r.below(2) == 0, r.below(4) as u8, r.below(4) as u16) }
    };
}

// --- fixed fields only
#[define_varlen]
pub struct S11 {
    pub a: Tok,
    pub b: u8,
    pub c: BTok,
}
#[allow(dead_code)]
pub struct M11 { a: Tok, b: u8, c: BTok }
ty_struct! { S11, s_11, M11; ctl() = |_| (); fix a: Tok; fix b: u8; fix c: BTok; => |_, _, _| (); }

// --- variable-length fields only
#[define_varlen]
pub struct S12 {
    #[varlen]
    pub a: Str<u8>,
    #[varlen]
    pub b: Tup2<Array<Tok, u8>, FixedLen<u64>>,
    #[varlen]
    pub c: Str<u8>,
}
#[allow(dead_code)]
pub struct M12 {}
ty_struct! { S12, s_12, M12; ctl() = |_| (); sub a: Str<u8>; sub b: Tup2<Array<Tok, u8>, FixedLen<u64>>; sub c: Str<u8>; => |_, _, _| (); }

// --- many token parts
#[define_varlen]
pub struct S13 {
    #[varlen]
    pub q: Array<NestBox, u8>,
    pub a: Tok,
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub x: [BTok; *n as usize],
    #[varlen]
    pub r: FixedLen<NTok>,
    #[varlen_array]
    pub y: [Tok; 2],
    pub z: NestBox,
}
#[allow(dead_code)]
pub struct M13 { a: Tok, n: u8, z: NestBox }
ty_struct! { S13, s_13, M13; ctl(n: u8) = |cx| (cx.len(4) as u8,);
    sub q: Array<NestBox, u8>; fix a: Tok; ctl n: u8; arr x: BTok = (n as usize) "[\"c\",1]"; sub r: FixedLen<NTok>; arr y: Tok = (2) "[\"k\",2]"; fix z: NestBox;
    => |mode, r, cur| (if mode == 0 { *cur.refs().n } else { r.below(4) as u8 },);
}

// --- nothing needs a destructor except the last part
#[define_varlen]
pub struct S14 {
    pub a: u8,
    #[varlen_array]
    pub x: [u16; 1],
    #[varlen_array]
    pub y: [Tok; 1],
}
#[allow(dead_code)]
pub struct M14 { a: u8 }
ty_struct! { S14, s_14, M14; ctl() = |_| (); fix a: u8; arr x: u16 = (1) "[\"k\",1]"; arr y: Tok = (1) "[\"k\",1]"; => |_, _, _| (); }

// --- only a nested part needs a destructor
#[define_varlen]
pub struct S15 {
    #[controls_layout]
    pub n: u64,
    #[varlen_array]
    pub x: [u8; *n as usize],
    #[varlen]
    pub y: FixedLen<Tok>,
}
#[allow(dead_code)]
pub struct M15 { n: u64 }
ty_struct! { S15, s_15, M15; ctl(n: u64) = |cx| (cx.len(70000) as u64,); ctl n: u64; arr x: u8 = (n as usize) "[\"c\",1]"; sub y: FixedLen<Tok>;
    => |mode, r, cur| (if mode == 0 { *cur.refs().n } else { r.below(9) as u64 },); }

// --- only a controller needs a destructor
#[define_varlen]
pub struct S16 {
    #[controls_layout]
    pub n: CTok,
    #[varlen_array]
    pub x: [u8; n.len],
}
#[allow(dead_code)]
pub struct M16 { n: CTok }
ty_struct! { S16, s_16, M16; ctl(n: CTok) = |cx| (CTok::new(cx.len(7)),); ctl n: CTok; arr x: u8 = (n.len) "[\"c\",1]";
    => |mode, r, cur| (CTok::new(if mode == 0 { cur.refs().n.len } else { r.below(6) }),); }

// --- only the values of a nested array need a destructor
#[define_varlen]
pub struct S17 {
    pub n: u8,
    #[varlen]
    pub a: Array<Tok, u8>,
}
#[allow(dead_code)]
pub struct M17 { n: u8 }
ty_struct! { S17, s_17, M17; ctl() = |_| (); fix n: u8; sub a: Array<Tok, u8>; => |_, _, _| (); }

// --- the same, one level further down
#[define_varlen]
pub struct S18 {
    #[varlen]
    pub a: S17,
    #[varlen]
    pub b: N4,
    pub n: u16,
}
#[allow(dead_code)]
pub struct M18 { n: u16 }
ty_struct! { S18, s_18, M18; ctl() = |_| (); sub a: S17; sub b: N4; fix n: u16; => |_, _, _| (); }

// ---- newtypes -------------------------------------------------------------------------------
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct N1(pub(crate) Tup2<Str, Array<u32>>);
    with init: pub struct N1Init<_>(pub(crate) _);
    with inner_ref: pub fn refn(&self) -> &_;
    with inner_mut: pub fn mutn(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct N2<(L: ArrayLen = usize)>(Tup2<Array<Tok, L>, Str<L>>);
    with signature: impl<(L: ArrayLen)> N2<(L)> { _ }
    with init: pub struct N2Init<_>(_);
    with inner_ref: pub fn refn(&self) -> &_;
    with inner_mut: pub fn mutn(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct N3(S2);
    with init: pub struct N3Init<_>(_);
    with inner_ref: pub fn refn(&self) -> &_;
    with inner_mut: pub fn mutn(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct N4(S17);
    with init: pub struct N4Init<_>(_);
    with inner_ref: pub fn refn(&self) -> &_;
    with inner_mut: pub fn mutn(self: _) -> _;
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct N5(Array<NTok, u8>);
    with init: pub struct N5Init<_>(_);
    with inner_ref: pub fn refn(&self) -> &_;
    with inner_mut: pub fn mutn(self: _) -> _;
}
macro_rules! ty_newtype {
    ($N:ty, $I:ident, $inner:ty) => {
        impl Ty for $N {
            fn desc() -> String { <$inner as Ty>::desc() }
            fn mk(cx: &mut Cx) -> DynI<Self> {
                let i = mk_routed::<$inner>(cx);
                DynI::new($I(i))
            }
            fn read(&self, base: usize, out: &mut Vec<Leaf>) { self.refn().read(base, out) }
            fn visit(self: Pin<&mut Self>, v: Visit) { self.mutn().visit(v) }
            fn set_ctl(self: Pin<&mut Self>, mode: usize, r: &mut Rng, out: &mut CtlOut) -> bool { self.mutn().set_ctl(mode, r, out) }
        }
    };
}
type T2a = Tup2<Str, Array<u32>>;
type T2b<L> = Tup2<Array<Tok, L>, Str<L>>;
ty_newtype!(N1, N1Init, T2a);
ty_newtype!(N2, N2Init, T2b<usize>);
ty_newtype!(N2<u8>, N2Init, T2b<u8>);
ty_newtype!(N3, N3Init, S2);
ty_newtype!(N4, N4Init, S17);
type A5 = Array<NTok, u8>;
ty_newtype!(N5, N5Init, A5);
pub struct N1Cloner<'a>(N1Init<<T2a as VClone<'a>>::Cloner>);
impl_initializer_as_newtype! { impl<('a)> Initializer<N1> for N1Cloner<'a> { _ } }
impl<'a> VClone<'a> for N1 {
    type Cloner = N1Cloner<'a>;
    fn vclone(&'a self) -> N1Cloner<'a> { N1Cloner(N1Init(self.refn().vclone())) }
}
unsafe impl<'a> VCopy<'a> for N1 {}
