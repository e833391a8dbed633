//! Written by vlib/genstructs.py.
#![allow(unused_parens, unused_variables, dead_code)]
use crate::elem::*;
use crate::structs::*;
use crate::track::*;
use crate::ty::*;
use std::pin::Pin;
use varlen::prelude::*;

// values with destructors: none
#[define_varlen]
pub struct G1 {
    #[varlen_array] pub(crate) a0: [[u64; 0]; *n6 as usize + 1],
    #[varlen_array] pub size_1: [u32; *len7 as usize],
    pub n2: u128,
    pub size_3: bool,
    #[varlen_array] pub(crate) x4: [[u64; 0]; (*len7 as usize) / 2],
    pub size_5: u128,
    #[controls_layout] pub n6: u32,
    #[controls_layout] pub(crate) len7: u8,
}
#[allow(dead_code)] pub struct MG1 { n2: u128, size_3: bool, size_5: u128, n6: u32, len7: u8 }
ty_struct! { G1, g_1, MG1; ctl(n6: u32, len7: u8) = |cx| (cx.len(4) as u32, cx.len(4) as u8,);
    arr a0: [u64; 0] = (n6 as usize + 1) "[\"+\",[\"c\",1],[\"k\",1]]";
    arr size_1: u32 = (len7 as usize) "[\"c\",2]";
    fix n2: u128;
    fix size_3: bool;
    arr x4: [u64; 0] = ((len7 as usize) / 2) "[\"/\",[\"c\",2],[\"k\",2]]";
    fix size_5: u128;
    ctl n6: u32;
    ctl len7: u8;
    => |mode, r, cur| match mode { 0 => (*cur.refs().n6, *cur.refs().len7,), 1 => (*cur.refs().n6 ^ 1, *cur.refs().len7,), _ => (r.below(4) as u32, r.below(4) as u8,) };
}

// values with destructors: fix
#[define_varlen]
pub struct G2 {
    #[varlen] size_0: Str,
    pub(crate) b1: [u8; 3],
    pub x2: (),
    #[varlen] pub n3: Str<u8>,
    #[varlen] pub x4: S1,
    pub len5: NTok,
    #[varlen_array] x6: [(u8, u32); 1],
    #[varlen_array] pub(crate) x7: [u64; 0],
    #[varlen_array] pub x8: [(u8, u32); 1],
}
#[allow(dead_code)] pub struct MG2 { b1: [u8; 3], x2: (), len5: NTok }
ty_struct! { G2, g_2, MG2; ctl() = |_| ();
    sub size_0: Str;
    fix b1: [u8; 3];
    fix x2: ();
    sub n3: Str<u8>;
    sub x4: S1;
    fix len5: NTok;
    arr x6: (u8, u32) = (1) "[\"k\",1]";
    arr x7: u64 = (0) "[\"k\",0]";
    arr x8: (u8, u32) = (1) "[\"k\",1]";
    => |_, _, _| ();
}

// values with destructors: arr
#[define_varlen]
pub struct G3 {
    #[varlen] pub size_0: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen] pub a1: Tup2<FixedLen<u8>, Str<u8>>,
    pub(crate) x2: u8,
    #[varlen_array] len3: [NestBox; *size_9 as usize],
    pub size_4: Al32,
    #[varlen] x5: Str<u8>,
    pub len6: u64,
    #[varlen_array] pub(crate) len7: [u32; *size_9 as usize],
    #[varlen_array] x8: [(); *size_9 as usize],
    #[controls_layout] pub size_9: u32,
}
#[allow(dead_code)] pub struct MG3 { x2: u8, size_4: Al32, len6: u64, size_9: u32 }
ty_struct! { G3, g_3, MG3; ctl(size_9: u32) = |cx| (cx.len(4) as u32,);
    sub size_0: Tup2<FixedLen<u8>, Str<u8>>;
    sub a1: Tup2<FixedLen<u8>, Str<u8>>;
    fix x2: u8;
    arr len3: NestBox = (size_9 as usize) "[\"c\",1]";
    fix size_4: Al32;
    sub x5: Str<u8>;
    fix len6: u64;
    arr len7: u32 = (size_9 as usize) "[\"c\",1]";
    arr x8: () = (size_9 as usize) "[\"c\",1]";
    ctl size_9: u32;
    => |mode, r, cur| match mode { 0 => (*cur.refs().size_9,), 1 => (*cur.refs().size_9 ^ 1,), _ => (r.below(4) as u32,) };
}

// values with destructors: sub
#[define_varlen]
pub struct G4 {
    #[varlen] pub(crate) x0: Tup2<FixedLen<u8>, Array<BTok, u8>>,
    #[varlen] pub b1: Str<u8>,
    pub(crate) b2: (u8, u32),
}
#[allow(dead_code)] pub struct MG4 { b2: (u8, u32) }
ty_struct! { G4, g_4, MG4; ctl() = |_| ();
    sub x0: Tup2<FixedLen<u8>, Array<BTok, u8>>;
    sub b1: Str<u8>;
    fix b2: (u8, u32);
    => |_, _, _| ();
}

// values with destructors: ctl
#[define_varlen]
#[repr(C)] pub struct G5 {
    #[varlen] pub(crate) b0: N1,
    #[varlen_array] pub n1: [u8; *x3 as usize],
    #[varlen] pub(crate) n2: FixedLen<u32>,
    #[controls_layout] x3: u8,
    #[varlen_array] pub len4: [u128; (b5.len) * (b5.len)],
    #[controls_layout] pub(crate) b5: CTok,
}
#[allow(dead_code)] #[repr(C)] pub struct MG5 { x3: u8, b5: CTok }
ty_struct! { G5, g_5, MG5; ctl(x3: u8, b5: CTok) = |cx| (cx.len(4) as u8, CTok::new(cx.len(3)),);
    sub b0: N1;
    arr n1: u8 = (x3 as usize) "[\"c\",1]";
    sub n2: FixedLen<u32>;
    ctl x3: u8;
    arr len4: u128 = ((b5.len) * (b5.len)) "[\"*\",[\"c\",2],[\"c\",2]]";
    ctl b5: CTok;
    => |mode, r, cur| match mode { 0 => (*cur.refs().x3, CTok::new(cur.refs().b5.len),), 1 => (*cur.refs().x3 ^ 1, CTok::new(cur.refs().b5.len),), _ => (r.below(4) as u8, CTok::new(r.below(3)),) };
}

// values with destructors: arr0
#[define_varlen]
pub struct G6 {
    x0: u64,
    #[varlen] pub c1: N1,
    #[varlen] pub a2: Array<u16, u8>,
    #[varlen_array] pub c3: [NestBox; 1],
    #[varlen] pub size_4: Str,
    pub n5: Al32,
    #[controls_layout] pub(crate) a6: u8,
    pub(crate) size_7: (),
    #[controls_layout] pub size_8: bool,
}
#[allow(dead_code)] pub struct MG6 { x0: u64, n5: Al32, a6: u8, size_7: (), size_8: bool }
ty_struct! { G6, g_6, MG6; ctl(a6: u8, size_8: bool) = |cx| (cx.len(4) as u8, cx.len(9) % 2 == 1,);
    fix x0: u64;
    sub c1: N1;
    sub a2: Array<u16, u8>;
    arr c3: NestBox = (1) "[\"k\",1]";
    sub size_4: Str;
    fix n5: Al32;
    ctl a6: u8;
    fix size_7: ();
    ctl size_8: bool;
    => |mode, r, cur| match mode { 0 => (*cur.refs().a6, *cur.refs().size_8,), 1 => (*cur.refs().a6 ^ 1, *cur.refs().size_8,), _ => (r.below(4) as u8, r.below(2) == 0,) };
}

// values with destructors: last
#[define_varlen]
pub struct G7 {
    pub b0: [u64; 0],
    #[varlen] c1: FixedLen<u32>,
    #[controls_layout] pub(crate) c2: u8,
    pub c3: [u64; 0],
    size_4: u128,
    #[controls_layout] pub c5: u32,
    #[varlen] pub size_6: S14,
}
#[allow(dead_code)] pub struct MG7 { b0: [u64; 0], c2: u8, c3: [u64; 0], size_4: u128, c5: u32 }
ty_struct! { G7, g_7, MG7; ctl(c2: u8, c5: u32) = |cx| (cx.len(4) as u8, cx.len(4) as u32,);
    fix b0: [u64; 0];
    sub c1: FixedLen<u32>;
    ctl c2: u8;
    fix c3: [u64; 0];
    fix size_4: u128;
    ctl c5: u32;
    sub size_6: S14;
    => |mode, r, cur| match mode { 0 => (*cur.refs().c2, *cur.refs().c5,), 1 => (*cur.refs().c2 ^ 1, *cur.refs().c5,), _ => (r.below(4) as u8, r.below(4) as u32,) };
}

// values with destructors: any
#[define_varlen]
#[repr(C)] pub struct G8 {
    #[varlen_array] pub len0: [BTok; 0],
    pub n1: NestBox,
    pub a2: bool,
    #[varlen] c3: N2<u8>,
    #[varlen_array] a4: [ZTok; 0],
}
#[allow(dead_code)] #[repr(C)] pub struct MG8 { n1: NestBox, a2: bool }
ty_struct! { G8, g_8, MG8; ctl() = |_| ();
    arr len0: BTok = (0) "[\"k\",0]";
    fix n1: NestBox;
    fix a2: bool;
    sub c3: N2<u8>;
    arr a4: ZTok = (0) "[\"k\",0]";
    => |_, _, _| ();
}

// values with destructors: any
#[define_varlen]
pub struct G9 {
    pub(crate) a0: Tok,
    #[controls_layout] pub len1: CTok,
    #[varlen_array] pub size_2: [u16; 3],
    #[varlen] n3: S3,
    #[varlen] pub c4: Str,
    #[controls_layout] pub(crate) b5: u8,
}
#[allow(dead_code)] pub struct MG9 { a0: Tok, len1: CTok, b5: u8 }
ty_struct! { G9, g_9, MG9; ctl(len1: CTok, b5: u8) = |cx| (CTok::new(cx.len(3)), cx.len(4) as u8,);
    fix a0: Tok;
    ctl len1: CTok;
    arr size_2: u16 = (3) "[\"k\",3]";
    sub n3: S3;
    sub c4: Str;
    ctl b5: u8;
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().len1.len), *cur.refs().b5,), 1 => (CTok::new(cur.refs().len1.len ^ 1), *cur.refs().b5,), _ => (CTok::new(r.below(3)), r.below(4) as u8,) };
}

// values with destructors: none
#[define_varlen]
#[repr(C)] pub struct G10 {
    #[controls_layout] pub c0: u16,
    pub(crate) a1: u8,
    #[varlen] pub n2: S3,
    #[varlen] pub size_3: FixedLen<u32>,
    #[varlen] len4: Tup2<FixedLen<u8>, Str<u8>>,
}
#[allow(dead_code)] #[repr(C)] pub struct MG10 { c0: u16, a1: u8 }
ty_struct! { G10, g_10, MG10; ctl(c0: u16) = |cx| (cx.len(4) as u16,);
    ctl c0: u16;
    fix a1: u8;
    sub n2: S3;
    sub size_3: FixedLen<u32>;
    sub len4: Tup2<FixedLen<u8>, Str<u8>>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().c0,), 1 => (*cur.refs().c0 ^ 1,), _ => (r.below(4) as u16,) };
}

// values with destructors: fix
#[define_varlen]
#[repr(C)] pub struct G11 {
    #[varlen_array] pub c0: [u128; *x1 as usize],
    #[controls_layout] pub(crate) x1: u32,
    pub b2: NTok,
    #[varlen] pub size_3: FixedLen<u32>,
    #[controls_layout] pub b4: bool,
    #[varlen] pub len5: Tup2<Array<u8, u8>, Array<u32, u8>>,
    #[varlen] pub a6: Tup2<FixedLen<u8>, Str<u8>>,
}
#[allow(dead_code)] #[repr(C)] pub struct MG11 { x1: u32, b2: NTok, b4: bool }
ty_struct! { G11, g_11, MG11; ctl(x1: u32, b4: bool) = |cx| (cx.len(4) as u32, cx.len(9) % 2 == 1,);
    arr c0: u128 = (x1 as usize) "[\"c\",1]";
    ctl x1: u32;
    fix b2: NTok;
    sub size_3: FixedLen<u32>;
    ctl b4: bool;
    sub len5: Tup2<Array<u8, u8>, Array<u32, u8>>;
    sub a6: Tup2<FixedLen<u8>, Str<u8>>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().x1, *cur.refs().b4,), 1 => (*cur.refs().x1 ^ 1, *cur.refs().b4,), _ => (r.below(4) as u32, r.below(2) == 0,) };
}

// values with destructors: arr
#[define_varlen]
#[repr(C)] pub struct G12 {
    #[varlen] n0: FixedLen<u32>,
    #[varlen_array] pub a1: [[u64; 0]; 0],
    #[varlen_array] pub(crate) x2: [NestBox; 1],
    #[varlen] pub len3: Str,
}
#[allow(dead_code)] #[repr(C)] pub struct MG12 {  }
ty_struct! { G12, g_12, MG12; ctl() = |_| ();
    sub n0: FixedLen<u32>;
    arr a1: [u64; 0] = (0) "[\"k\",0]";
    arr x2: NestBox = (1) "[\"k\",1]";
    sub len3: Str;
    => |_, _, _| ();
}

// values with destructors: sub
#[define_varlen]
pub struct G13 {
    #[controls_layout] pub len0: u8,
    a1: (),
    #[varlen_array] pub b2: [(); (*size_5 as usize) + (*len0 as usize)],
    #[varlen_array] pub c3: [u8; 1],
    pub n4: Al32,
    #[controls_layout] pub size_5: u16,
    pub(crate) x6: (u8, u32),
    #[varlen] len7: Array<NTok, u8>,
    #[varlen] pub a8: FixedLen<u32>,
    #[varlen] pub b9: N1,
}
#[allow(dead_code)] pub struct MG13 { len0: u8, a1: (), n4: Al32, size_5: u16, x6: (u8, u32) }
ty_struct! { G13, g_13, MG13; ctl(len0: u8, size_5: u16) = |cx| (cx.len(4) as u8, cx.len(4) as u16,);
    ctl len0: u8;
    fix a1: ();
    arr b2: () = ((size_5 as usize) + (len0 as usize)) "[\"+\",[\"c\",2],[\"c\",1]]";
    arr c3: u8 = (1) "[\"k\",1]";
    fix n4: Al32;
    ctl size_5: u16;
    fix x6: (u8, u32);
    sub len7: Array<NTok, u8>;
    sub a8: FixedLen<u32>;
    sub b9: N1;
    => |mode, r, cur| match mode { 0 => (*cur.refs().len0, *cur.refs().size_5,), 1 => (*cur.refs().len0 ^ 1, *cur.refs().size_5,), _ => (r.below(4) as u8, r.below(4) as u16,) };
}

// values with destructors: ctl
#[define_varlen]
#[repr(C)] pub struct G14 {
    #[controls_layout] pub n0: CTok,
    #[varlen_array] pub(crate) a1: [u16; (n0.len) / 2],
    pub(crate) len2: u16,
    pub(crate) c3: (u8, u32),
    pub x4: u16,
    #[varlen_array] pub n5: [u64; n0.len],
}
#[allow(dead_code)] #[repr(C)] pub struct MG14 { n0: CTok, len2: u16, c3: (u8, u32), x4: u16 }
ty_struct! { G14, g_14, MG14; ctl(n0: CTok) = |cx| (CTok::new(cx.len(3)),);
    ctl n0: CTok;
    arr a1: u16 = ((n0.len) / 2) "[\"/\",[\"c\",1],[\"k\",2]]";
    fix len2: u16;
    fix c3: (u8, u32);
    fix x4: u16;
    arr n5: u64 = (n0.len) "[\"c\",1]";
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().n0.len),), 1 => (CTok::new(cur.refs().n0.len ^ 1),), _ => (CTok::new(r.below(3)),) };
}

// values with destructors: arr0
#[define_varlen]
pub struct G15 {
    pub(crate) a0: (),
    #[controls_layout] pub n1: u8,
    #[controls_layout] pub(crate) len2: u8,
    #[varlen] len3: Array<u16, u8>,
    #[varlen_array] size_4: [NTok; *len2 as usize],
}
#[allow(dead_code)] pub struct MG15 { a0: (), n1: u8, len2: u8 }
ty_struct! { G15, g_15, MG15; ctl(n1: u8, len2: u8) = |cx| (cx.len(4) as u8, cx.len(4) as u8,);
    fix a0: ();
    ctl n1: u8;
    ctl len2: u8;
    sub len3: Array<u16, u8>;
    arr size_4: NTok = (len2 as usize) "[\"c\",2]";
    => |mode, r, cur| match mode { 0 => (*cur.refs().n1, *cur.refs().len2,), 1 => (*cur.refs().n1 ^ 1, *cur.refs().len2,), _ => (r.below(4) as u8, r.below(4) as u8,) };
}

// values with destructors: last
#[define_varlen]
pub struct G16 {
    #[varlen_array] pub(crate) len0: [[u64; 0]; *b7 as usize],
    b1: u16,
    #[varlen] pub len2: Tup2<Array<u8, u8>, Array<u32, u8>>,
    pub(crate) x3: u32,
    #[controls_layout] size_4: u32,
    #[varlen_array] pub(crate) b5: [(u8, u32); *b7 as usize + 3],
    #[varlen] pub c6: Tup2<FixedLen<u8>, Str<u8>>,
    #[controls_layout] pub b7: u8,
    #[varlen_array] pub(crate) n8: [u16; *b7 as usize],
    #[varlen] pub b9: N2<u8>,
}
#[allow(dead_code)] pub struct MG16 { b1: u16, x3: u32, size_4: u32, b7: u8 }
ty_struct! { G16, g_16, MG16; ctl(size_4: u32, b7: u8) = |cx| (cx.len(4) as u32, cx.len(4) as u8,);
    arr len0: [u64; 0] = (b7 as usize) "[\"c\",2]";
    fix b1: u16;
    sub len2: Tup2<Array<u8, u8>, Array<u32, u8>>;
    fix x3: u32;
    ctl size_4: u32;
    arr b5: (u8, u32) = (b7 as usize + 3) "[\"+\",[\"c\",2],[\"k\",3]]";
    sub c6: Tup2<FixedLen<u8>, Str<u8>>;
    ctl b7: u8;
    arr n8: u16 = (b7 as usize) "[\"c\",2]";
    sub b9: N2<u8>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().size_4, *cur.refs().b7,), 1 => (*cur.refs().size_4 ^ 1, *cur.refs().b7,), _ => (r.below(4) as u32, r.below(4) as u8,) };
}

// values with destructors: any
#[define_varlen]
pub struct G17 {
    #[controls_layout] pub n0: bool,
    #[varlen_array] pub n1: [NestBox; 2],
    pub(crate) size_2: u64,
    #[controls_layout] pub a3: CTok,
    #[varlen_array] pub(crate) x4: [(u8, u32); *n0 as usize],
}
#[allow(dead_code)] pub struct MG17 { n0: bool, size_2: u64, a3: CTok }
ty_struct! { G17, g_17, MG17; ctl(n0: bool, a3: CTok) = |cx| (cx.len(9) % 2 == 1, CTok::new(cx.len(3)),);
    ctl n0: bool;
    arr n1: NestBox = (2) "[\"k\",2]";
    fix size_2: u64;
    ctl a3: CTok;
    arr x4: (u8, u32) = (n0 as usize) "[\"c\",1]";
    => |mode, r, cur| match mode { 0 => (*cur.refs().n0, CTok::new(cur.refs().a3.len),), 1 => (!*cur.refs().n0, CTok::new(cur.refs().a3.len),), _ => (r.below(2) == 0, CTok::new(r.below(3)),) };
}

// values with destructors: any
#[define_varlen]
pub struct G18 {
    #[varlen_array] pub x0: [[u8; 3]; *size_7 as usize],
    pub a1: Tok,
    a2: BTok,
    #[varlen] pub len3: Str<u8>,
    #[varlen] pub(crate) b4: Array<Tok>,
    #[varlen] n5: S14,
    #[varlen_array] pub len6: [(u8, u32); *size_7 as usize],
    #[controls_layout] pub size_7: u64,
    #[varlen_array] pub a8: [BTok; *size_7 as usize],
    pub b9: u32,
}
#[allow(dead_code)] pub struct MG18 { a1: Tok, a2: BTok, size_7: u64, b9: u32 }
ty_struct! { G18, g_18, MG18; ctl(size_7: u64) = |cx| (cx.len(4) as u64,);
    arr x0: [u8; 3] = (size_7 as usize) "[\"c\",1]";
    fix a1: Tok;
    fix a2: BTok;
    sub len3: Str<u8>;
    sub b4: Array<Tok>;
    sub n5: S14;
    arr len6: (u8, u32) = (size_7 as usize) "[\"c\",1]";
    ctl size_7: u64;
    arr a8: BTok = (size_7 as usize) "[\"c\",1]";
    fix b9: u32;
    => |mode, r, cur| match mode { 0 => (*cur.refs().size_7,), 1 => (*cur.refs().size_7 ^ 1,), _ => (r.below(4) as u64,) };
}

// values with destructors: none
#[define_varlen]
pub struct G19 {
    #[varlen] x0: Str<u8>,
    #[varlen_array] c1: [u128; 3],
    pub size_2: (),
    n3: [u64; 0],
    pub size_4: (u8, u32),
}
#[allow(dead_code)] pub struct MG19 { size_2: (), n3: [u64; 0], size_4: (u8, u32) }
ty_struct! { G19, g_19, MG19; ctl() = |_| ();
    sub x0: Str<u8>;
    arr c1: u128 = (3) "[\"k\",3]";
    fix size_2: ();
    fix n3: [u64; 0];
    fix size_4: (u8, u32);
    => |_, _, _| ();
}

// values with destructors: fix
#[define_varlen]
pub struct G20 {
    #[varlen_array] pub(crate) len0: [u64; (*a3 as usize) * (*a3 as usize)],
    #[varlen] pub(crate) c1: Tup2<Array<u8, u8>, Array<u32, u8>>,
    pub len2: (u8, u32),
    #[controls_layout] pub a3: bool,
    pub(crate) c4: NTok,
}
#[allow(dead_code)] pub struct MG20 { len2: (u8, u32), a3: bool, c4: NTok }
ty_struct! { G20, g_20, MG20; ctl(a3: bool) = |cx| (cx.len(9) % 2 == 1,);
    arr len0: u64 = ((a3 as usize) * (a3 as usize)) "[\"*\",[\"c\",1],[\"c\",1]]";
    sub c1: Tup2<Array<u8, u8>, Array<u32, u8>>;
    fix len2: (u8, u32);
    ctl a3: bool;
    fix c4: NTok;
    => |mode, r, cur| match mode { 0 => (*cur.refs().a3,), 1 => (!*cur.refs().a3,), _ => (r.below(2) == 0,) };
}

// values with destructors: arr
#[define_varlen]
#[repr(C)] pub struct G21 {
    pub a0: u128,
    #[controls_layout] pub(crate) len1: u16,
    #[controls_layout] pub n2: u16,
    n3: u128,
    #[varlen_array] pub n4: [Al32; *len1 as usize + 2],
    #[varlen] pub(crate) size_5: Array<u64, u16>,
    #[varlen] pub(crate) c6: N1,
    #[varlen_array] pub b7: [NTok; 3],
}
#[allow(dead_code)] #[repr(C)] pub struct MG21 { a0: u128, len1: u16, n2: u16, n3: u128 }
ty_struct! { G21, g_21, MG21; ctl(len1: u16, n2: u16) = |cx| (cx.len(4) as u16, cx.len(4) as u16,);
    fix a0: u128;
    ctl len1: u16;
    ctl n2: u16;
    fix n3: u128;
    arr n4: Al32 = (len1 as usize + 2) "[\"+\",[\"c\",1],[\"k\",2]]";
    sub size_5: Array<u64, u16>;
    sub c6: N1;
    arr b7: NTok = (3) "[\"k\",3]";
    => |mode, r, cur| match mode { 0 => (*cur.refs().len1, *cur.refs().n2,), 1 => (*cur.refs().len1 ^ 1, *cur.refs().n2,), _ => (r.below(4) as u16, r.below(4) as u16,) };
}

// values with destructors: sub
#[define_varlen]
#[repr(C)] pub struct G22 {
    #[varlen_array] pub b0: [Al32; 2],
    #[varlen] pub b1: FixedLen<Tok>,
    #[varlen] pub(crate) a2: S3,
    a3: u128,
    len4: [u64; 0],
    #[varlen_array] pub c5: [bool; 1],
    #[varlen] pub n6: Array<u64, u16>,
}
#[allow(dead_code)] #[repr(C)] pub struct MG22 { a3: u128, len4: [u64; 0] }
ty_struct! { G22, g_22, MG22; ctl() = |_| ();
    arr b0: Al32 = (2) "[\"k\",2]";
    sub b1: FixedLen<Tok>;
    sub a2: S3;
    fix a3: u128;
    fix len4: [u64; 0];
    arr c5: bool = (1) "[\"k\",1]";
    sub n6: Array<u64, u16>;
    => |_, _, _| ();
}

// values with destructors: ctl
#[define_varlen]
#[repr(C)] pub struct G23 {
    #[varlen_array] pub(crate) x0: [u64; x3.len],
    pub(crate) size_1: u128,
    pub n2: bool,
    #[controls_layout] pub x3: CTok,
    #[varlen_array] len4: [bool; (x3.len) * (x3.len)],
}
#[allow(dead_code)] #[repr(C)] pub struct MG23 { size_1: u128, n2: bool, x3: CTok }
ty_struct! { G23, g_23, MG23; ctl(x3: CTok) = |cx| (CTok::new(cx.len(3)),);
    arr x0: u64 = (x3.len) "[\"c\",1]";
    fix size_1: u128;
    fix n2: bool;
    ctl x3: CTok;
    arr len4: bool = ((x3.len) * (x3.len)) "[\"*\",[\"c\",1],[\"c\",1]]";
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().x3.len),), 1 => (CTok::new(cur.refs().x3.len ^ 1),), _ => (CTok::new(r.below(3)),) };
}

// values with destructors: arr0
#[define_varlen]
pub struct G24 {
    #[varlen_array] pub len0: [ZTok; 0],
    pub size_1: u16,
    #[varlen] pub n2: S1,
    #[varlen] pub(crate) n3: N1,
}
#[allow(dead_code)] pub struct MG24 { size_1: u16 }
ty_struct! { G24, g_24, MG24; ctl() = |_| ();
    arr len0: ZTok = (0) "[\"k\",0]";
    fix size_1: u16;
    sub n2: S1;
    sub n3: N1;
    => |_, _, _| ();
}

// values with destructors: last
#[define_varlen]
pub struct G25 {
    #[controls_layout] pub size_0: u64,
    #[varlen_array] pub size_1: [u32; (*size_0 as usize) * (*size_0 as usize)],
    #[varlen_array] pub b2: [[u64; 0]; *size_0 as usize],
    #[varlen_array] pub a3: [u64; (*size_0 as usize) + (*size_0 as usize)],
    #[varlen] pub a4: S2,
}
#[allow(dead_code)] pub struct MG25 { size_0: u64 }
ty_struct! { G25, g_25, MG25; ctl(size_0: u64) = |cx| (cx.len(4) as u64,);
    ctl size_0: u64;
    arr size_1: u32 = ((size_0 as usize) * (size_0 as usize)) "[\"*\",[\"c\",1],[\"c\",1]]";
    arr b2: [u64; 0] = (size_0 as usize) "[\"c\",1]";
    arr a3: u64 = ((size_0 as usize) + (size_0 as usize)) "[\"+\",[\"c\",1],[\"c\",1]]";
    sub a4: S2;
    => |mode, r, cur| match mode { 0 => (*cur.refs().size_0,), 1 => (*cur.refs().size_0 ^ 1,), _ => (r.below(4) as u64,) };
}

// values with destructors: any
#[define_varlen]
#[repr(C)] pub struct G26 {
    #[varlen_array] pub(crate) n0: [u16; 1],
    pub(crate) a1: Tok,
    #[varlen_array] pub n2: [(); 2],
    #[varlen] pub a3: FixedLen<u32>,
    #[varlen_array] pub(crate) x4: [ZTok; 1],
    #[varlen] pub x5: S2,
    a6: ZTok,
}
#[allow(dead_code)] #[repr(C)] pub struct MG26 { a1: Tok, a6: ZTok }
ty_struct! { G26, g_26, MG26; ctl() = |_| ();
    arr n0: u16 = (1) "[\"k\",1]";
    fix a1: Tok;
    arr n2: () = (2) "[\"k\",2]";
    sub a3: FixedLen<u32>;
    arr x4: ZTok = (1) "[\"k\",1]";
    sub x5: S2;
    fix a6: ZTok;
    => |_, _, _| ();
}

// values with destructors: any
#[define_varlen]
pub struct G27 {
    #[varlen_array] pub b0: [BTok; 1],
    #[varlen] pub a1: Tup2<FixedLen<u8>, Array<BTok, u8>>,
    #[varlen] pub len2: S2,
    #[controls_layout] pub len3: CTok,
    #[varlen] size_4: Tup2<Array<u8, u8>, Array<u32, u8>>,
    #[varlen_array] pub b5: [Tok; len3.len],
}
#[allow(dead_code)] pub struct MG27 { len3: CTok }
ty_struct! { G27, g_27, MG27; ctl(len3: CTok) = |cx| (CTok::new(cx.len(3)),);
    arr b0: BTok = (1) "[\"k\",1]";
    sub a1: Tup2<FixedLen<u8>, Array<BTok, u8>>;
    sub len2: S2;
    ctl len3: CTok;
    sub size_4: Tup2<Array<u8, u8>, Array<u32, u8>>;
    arr b5: Tok = (len3.len) "[\"c\",1]";
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().len3.len),), 1 => (CTok::new(cur.refs().len3.len ^ 1),), _ => (CTok::new(r.below(3)),) };
}

// values with destructors: none
#[define_varlen]
pub struct G28 {
    #[varlen] pub a0: Str<u8>,
    pub(crate) a1: (),
    #[controls_layout] pub c2: u32,
    a3: [u64; 0],
    pub a4: Al32,
}
#[allow(dead_code)] pub struct MG28 { a1: (), c2: u32, a3: [u64; 0], a4: Al32 }
ty_struct! { G28, g_28, MG28; ctl(c2: u32) = |cx| (cx.len(4) as u32,);
    sub a0: Str<u8>;
    fix a1: ();
    ctl c2: u32;
    fix a3: [u64; 0];
    fix a4: Al32;
    => |mode, r, cur| match mode { 0 => (*cur.refs().c2,), 1 => (*cur.refs().c2 ^ 1,), _ => (r.below(4) as u32,) };
}

// values with destructors: fix
#[define_varlen]
pub struct G29 {
    #[varlen] pub size_0: FixedLen<u32>,
    pub(crate) a1: u32,
    #[varlen] pub(crate) size_2: Tup2<FixedLen<u8>, Str<u8>>,
    pub n3: NTok,
    #[varlen_array] pub n4: [(); *a5 as usize],
    #[controls_layout] pub(crate) a5: u32,
    #[varlen] pub n6: Str<u8>,
    #[controls_layout] pub len7: u64,
    #[varlen_array] pub n8: [u128; *a5 as usize],
}
#[allow(dead_code)] pub struct MG29 { a1: u32, n3: NTok, a5: u32, len7: u64 }
ty_struct! { G29, g_29, MG29; ctl(a5: u32, len7: u64) = |cx| (cx.len(4) as u32, cx.len(4) as u64,);
    sub size_0: FixedLen<u32>;
    fix a1: u32;
    sub size_2: Tup2<FixedLen<u8>, Str<u8>>;
    fix n3: NTok;
    arr n4: () = (a5 as usize) "[\"c\",1]";
    ctl a5: u32;
    sub n6: Str<u8>;
    ctl len7: u64;
    arr n8: u128 = (a5 as usize) "[\"c\",1]";
    => |mode, r, cur| match mode { 0 => (*cur.refs().a5, *cur.refs().len7,), 1 => (*cur.refs().a5 ^ 1, *cur.refs().len7,), _ => (r.below(4) as u32, r.below(4) as u64,) };
}

// values with destructors: arr
#[define_varlen]
#[repr(C)] pub struct G30 {
    pub(crate) size_0: (u8, u32),
    pub c1: u8,
    #[controls_layout] pub b2: u32,
    #[controls_layout] size_3: bool,
    #[varlen_array] pub(crate) size_4: [BTok; *b2 as usize],
    #[varlen] a5: N1,
    #[varlen] pub(crate) c6: FixedLen<u32>,
}
#[allow(dead_code)] #[repr(C)] pub struct MG30 { size_0: (u8, u32), c1: u8, b2: u32, size_3: bool }
ty_struct! { G30, g_30, MG30; ctl(b2: u32, size_3: bool) = |cx| (cx.len(4) as u32, cx.len(9) % 2 == 1,);
    fix size_0: (u8, u32);
    fix c1: u8;
    ctl b2: u32;
    ctl size_3: bool;
    arr size_4: BTok = (b2 as usize) "[\"c\",1]";
    sub a5: N1;
    sub c6: FixedLen<u32>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().b2, *cur.refs().size_3,), 1 => (*cur.refs().b2 ^ 1, *cur.refs().size_3,), _ => (r.below(4) as u32, r.below(2) == 0,) };
}

// values with destructors: sub
#[define_varlen]
pub struct G31 {
    #[controls_layout] pub a0: u8,
    #[controls_layout] pub(crate) a1: bool,
    pub size_2: bool,
    pub len3: u8,
    pub x4: u8,
    #[varlen] pub b5: Tup2<Tup2<FixedLen<u8>, Array<Tok, u8>>, Str>,
}
#[allow(dead_code)] pub struct MG31 { a0: u8, a1: bool, size_2: bool, len3: u8, x4: u8 }
ty_struct! { G31, g_31, MG31; ctl(a0: u8, a1: bool) = |cx| (cx.len(4) as u8, cx.len(9) % 2 == 1,);
    ctl a0: u8;
    ctl a1: bool;
    fix size_2: bool;
    fix len3: u8;
    fix x4: u8;
    sub b5: Tup2<Tup2<FixedLen<u8>, Array<Tok, u8>>, Str>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().a0, *cur.refs().a1,), 1 => (*cur.refs().a0 ^ 1, *cur.refs().a1,), _ => (r.below(4) as u8, r.below(2) == 0,) };
}

// values with destructors: ctl
#[define_varlen]
pub struct G32 {
    #[varlen] pub(crate) b0: N1,
    pub x1: Al32,
    pub b2: u128,
    #[varlen_array] pub x3: [[u8; 3]; size_7.len],
    #[varlen] pub n4: Array<u16, u8>,
    #[varlen_array] pub(crate) n5: [(u8, u32); size_7.len],
    #[varlen] n6: Tup2<FixedLen<u8>, Str<u8>>,
    #[controls_layout] pub(crate) size_7: CTok,
}
#[allow(dead_code)] pub struct MG32 { x1: Al32, b2: u128, size_7: CTok }
ty_struct! { G32, g_32, MG32; ctl(size_7: CTok) = |cx| (CTok::new(cx.len(3)),);
    sub b0: N1;
    fix x1: Al32;
    fix b2: u128;
    arr x3: [u8; 3] = (size_7.len) "[\"c\",1]";
    sub n4: Array<u16, u8>;
    arr n5: (u8, u32) = (size_7.len) "[\"c\",1]";
    sub n6: Tup2<FixedLen<u8>, Str<u8>>;
    ctl size_7: CTok;
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().size_7.len),), 1 => (CTok::new(cur.refs().size_7.len ^ 1),), _ => (CTok::new(r.below(3)),) };
}

// values with destructors: arr0
#[define_varlen]
pub struct G33 {
    #[controls_layout] pub size_0: bool,
    #[varlen] pub a1: Array<u64, u16>,
    #[varlen_array] pub b2: [u128; *size_0 as usize],
    pub len3: u32,
    #[varlen] pub(crate) n4: S3,
    #[varlen_array] pub(crate) a5: [NTok; 1],
    #[varlen] pub x6: FixedLen<u32>,
}
#[allow(dead_code)] pub struct MG33 { size_0: bool, len3: u32 }
ty_struct! { G33, g_33, MG33; ctl(size_0: bool) = |cx| (cx.len(9) % 2 == 1,);
    ctl size_0: bool;
    sub a1: Array<u64, u16>;
    arr b2: u128 = (size_0 as usize) "[\"c\",1]";
    fix len3: u32;
    sub n4: S3;
    arr a5: NTok = (1) "[\"k\",1]";
    sub x6: FixedLen<u32>;
    => |mode, r, cur| match mode { 0 => (*cur.refs().size_0,), 1 => (!*cur.refs().size_0,), _ => (r.below(2) == 0,) };
}

// values with destructors: last
#[define_varlen]
pub struct G34 {
    #[varlen] pub(crate) b0: Tup2<FixedLen<u8>, Str<u8>>,
    #[varlen] pub size_1: Str,
    #[varlen_array] pub(crate) len2: [[u64; 0]; 0],
    #[varlen_array] pub(crate) size_3: [u32; 0],
    #[varlen] pub size_4: Tup2<FixedLen<u8>, Array<BTok, u8>>,
}
#[allow(dead_code)] pub struct MG34 {  }
ty_struct! { G34, g_34, MG34; ctl() = |_| ();
    sub b0: Tup2<FixedLen<u8>, Str<u8>>;
    sub size_1: Str;
    arr len2: [u64; 0] = (0) "[\"k\",0]";
    arr size_3: u32 = (0) "[\"k\",0]";
    sub size_4: Tup2<FixedLen<u8>, Array<BTok, u8>>;
    => |_, _, _| ();
}

// values with destructors: any
#[define_varlen]
pub struct G35 {
    #[varlen_array] pub(crate) len0: [ZTok; a5.len],
    pub x1: BTok,
    #[varlen] pub c2: Tup2<FixedLen<u8>, Array<BTok, u8>>,
    #[varlen_array] pub n3: [u16; (a5.len) * (a5.len)],
    #[varlen] a4: Tup2<Str<u8>, FixedLen<ZTok>>,
    #[controls_layout] pub a5: CTok,
}
#[allow(dead_code)] pub struct MG35 { x1: BTok, a5: CTok }
ty_struct! { G35, g_35, MG35; ctl(a5: CTok) = |cx| (CTok::new(cx.len(3)),);
    arr len0: ZTok = (a5.len) "[\"c\",1]";
    fix x1: BTok;
    sub c2: Tup2<FixedLen<u8>, Array<BTok, u8>>;
    arr n3: u16 = ((a5.len) * (a5.len)) "[\"*\",[\"c\",1],[\"c\",1]]";
    sub a4: Tup2<Str<u8>, FixedLen<ZTok>>;
    ctl a5: CTok;
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().a5.len),), 1 => (CTok::new(cur.refs().a5.len ^ 1),), _ => (CTok::new(r.below(3)),) };
}

// values with destructors: any
#[define_varlen]
pub struct G36 {
    #[varlen] pub(crate) len0: S1,
    #[controls_layout] c1: CTok,
    pub(crate) n2: u32,
    #[varlen] pub c3: Str<u8>,
    #[varlen] pub size_4: Array<u64, u16>,
    #[controls_layout] pub x5: u8,
}
#[allow(dead_code)] pub struct MG36 { c1: CTok, n2: u32, x5: u8 }
ty_struct! { G36, g_36, MG36; ctl(c1: CTok, x5: u8) = |cx| (CTok::new(cx.len(3)), cx.len(4) as u8,);
    sub len0: S1;
    ctl c1: CTok;
    fix n2: u32;
    sub c3: Str<u8>;
    sub size_4: Array<u64, u16>;
    ctl x5: u8;
    => |mode, r, cur| match mode { 0 => (CTok::new(cur.refs().c1.len), *cur.refs().x5,), 1 => (CTok::new(cur.refs().c1.len ^ 1), *cur.refs().x5,), _ => (CTok::new(r.below(3)), r.below(4) as u8,) };
}
