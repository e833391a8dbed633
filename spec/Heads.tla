------------------------------- MODULE Heads --------------------------------
(* What safe code may do with the fixed-size head of a variable-length       *)
(* object, by whichever way it got hold of the object: whether it may be     *)
(* moved, overwritten, swapped, copied or made up; which operations need     *)
(* `unsafe`; which traits may be implemented by users; what may cross        *)
(* threads; and which lifetimes may be changed.                              *)
(* A type has a head, and perhaps a tail behind it. Only if it never has a   *)
(* tail, and its contents may move, may the head.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* name, Rust type, whether there may be a tail, whether the contents of the head may move, an initializer
T(n, t, tail, unpin, init) == [n |-> n, t |-> t, tail |-> tail, unpin |-> unpin, init |-> init]
SInit == "s::Init { n: 2, k: 1, x: FillWithDefault, w: Str::copy(\"a\") }"
TupInit == "tup2::Init(Str::copy(\"ab\"), Array::copy(&[1u16, 2]))"
Types == {
  T("Str", "Str", TRUE, TRUE, "Str::copy(\"ab\")"), T("Str8", "Str<u8>", TRUE, TRUE, "Str::<u8>::try_copy(\"ab\").unwrap()"),
  T("Arr", "Array<u16>", TRUE, TRUE, "Array::copy(&[1u16])"), T("Arr8", "Array<u16, u8>", TRUE, TRUE, "Array::try_copy(&[1u16]).unwrap()"), T("Arr0", "Array<()>", TRUE, TRUE, "Array::copy(&[()])"),
  T("Tup2", "Tup2<Str, Array<u16>>", TRUE, TRUE, TupInit), T("Tup3", "Tup3<Str, Str, Str>", TRUE, TRUE, "tup3::Init(Str::copy(\"\"), Str::copy(\"\"), Str::copy(\"\"))"),
  T("Tup4", "Tup4<FixedLen<u8>, FixedLen<u8>, FixedLen<u8>, FixedLen<u8>>", TRUE, TRUE, "tup4::Init(FixedLen(1), FixedLen(1), FixedLen(1), FixedLen(1))"),
  T("Tup5", "Tup5<Str, Str, Str, Str, Str>", TRUE, TRUE, "tup5::Init(Str::copy(\"\"), Str::copy(\"\"), Str::copy(\"\"), Str::copy(\"\"), Str::copy(\"\"))"),
  T("S", "S", TRUE, TRUE, SInit), T("OnlyArray", "OnlyArray", TRUE, TRUE, "only_array::Init { n: 1, x: FillWithDefault }"), T("OnlySub", "OnlySub", TRUE, TRUE, "only_sub::Init { w: Str::copy(\"\") }"),
  T("ConstArray", "ConstArray", TRUE, TRUE, "const_array::Init { x: FillWithDefault }"), T("Gen", "Gen<Str>", TRUE, TRUE, "gen::Init { k: 1, w: Str::copy(\"\") }"),
  T("GenFix", "Gen<FixedLen<u8>>", TRUE, TRUE, "gen::Init { k: 1, w: FixedLen(1) }"),
  T("Plain", "Plain", FALSE, TRUE, "plain::Init { k: 1 }"), T("PlainPinned", "PlainPinned", FALSE, FALSE, "plain_pinned::Init { k: core::marker::PhantomPinned }"),
  T("N", "N", TRUE, TRUE, "NInit(" \o TupInit \o ")"), T("NStr", "NStr", TRUE, TRUE, "NStrInit(Str::copy(\"\"))"), T("NGen", "NGen<u16>", TRUE, TRUE, "NGenInit(Array::copy(&[1u16]))"),
  T("NFix", "NFix", FALSE, TRUE, "NFixInit(FixedLen(1))"), T("NPinned", "NPinned", FALSE, FALSE, "NPinnedInit(FixedLen(core::marker::PhantomPinned))"),
  T("Fix", "FixedLen<String>", FALSE, TRUE, "FixedLen(String::new())"), T("FixPinned", "FixedLen<core::marker::PhantomPinned>", FALSE, FALSE, "FixedLen(core::marker::PhantomPinned)") }
MayMove(t) == ~t.tail /\ t.unpin

\* Ways to two objects of type T: parameters, and statements after which p and q are Pin<&mut T>.
Ways == {
  [n |-> "pin", ps |-> "mut p: Pin<&mut {T}>, mut q: Pin<&mut {T}>", st |-> ""],
  [n |-> "box", ps |-> "mut a: VBox<{T}>, mut b: VBox<{T}>", st |-> "let mut p = a.as_mut(); let mut q = b.as_mut();"],
  [n |-> "owned", ps |-> "mut a: Owned<'_, {T}>, mut b: Owned<'_, {T}>", st |-> "let mut p = a.as_mut(); let mut q = b.as_mut();"],
  [n |-> "leak", ps |-> "a: Owned<'_, {T}>, b: Owned<'_, {T}>", st |-> "let mut p = a.leak(); let mut q = b.leak();"],
  [n |-> "iter_mut", ps |-> "a: &mut Seq<{T}>", st |-> "let mut it = a.iter_mut(); let mut p = it.next().unwrap(); let mut q = it.next().unwrap();"],
  [n |-> "iter_mut_indexable", ps |-> "a: &mut IndexableSeq<{T}>", st |-> "let mut it = a.iter_mut(); let mut p = it.next().unwrap(); let mut q = it.next().unwrap();"],
  [n |-> "from_offset_mut", ps |-> "a: &mut IndexableSeq<{T}>, b: &mut IndexableSeq<{T}>", st |-> "let mut p = a.from_offset_mut(0); let mut q = b.from_offset_mut(0);"],
  [n |-> "unchecked", ps |-> "a: &mut Seq<{T}>, b: &mut Seq<{T}>", st |-> "let mut p = unsafe { a.from_offset_unchecked_mut(0) }; let mut q = unsafe { b.from_offset_unchecked_mut(0) };"],
  [n |-> "take_elems", ps |-> "a: &mut Seq<{T}>", st |-> "let mut it = a.take_elems(); let mut a = it.next().unwrap(); let mut b = it.next().unwrap(); let mut p = a.as_mut(); let mut q = b.as_mut();"],
  [n |-> "tuple", ps |-> "a: Pin<&mut Tup2<{T}, {T}>>", st |-> "let tup2::Muts(mut p, mut q) = a.muts();"],
  [n |-> "tuple5", ps |-> "a: Pin<&mut Tup5<Str, {T}, Str, Str, {T}>>", st |-> "let tup5::Muts(_, mut p, _, _, mut q) = a.muts();"],
  [n |-> "struct", ps |-> "a: Pin<&mut Two<{T}, {T}>>", st |-> "let two::Muts { mut a, mut b, .. } = a.muts(); let mut p = a.as_mut(); let mut q = b.as_mut();"],
  [n |-> "plain_field", ps |-> "a: Pin<&mut Two<{T}, {T}>>, b: Pin<&mut Two<{T}, {T}>>", st |-> "let mut p = a.muts().b; let mut q = b.muts().a;"] }
\* What is done with them; needs: "move" (the type may move), "never" (never allowed), "always".
Acts == {
  [n |-> "swap", need |-> "move", t |-> "core::mem::swap(&mut *p, &mut *q);"], [n |-> "get_mut", need |-> "move", t |-> "let _ = p.get_mut();"],
  [n |-> "pin_new", need |-> "move", t |-> "let _ = Pin::new(&mut *p);"], [n |-> "into_inner", need |-> "move", t |-> "let _ = Pin::into_inner(p);"],
  [n |-> "deref_mut", need |-> "move", t |-> "let _m: &mut {T} = &mut p;"], [n |-> "ptr_method", need |-> "move", t |-> "core::ops::DerefMut::deref_mut(&mut p);"],
  [n |-> "take_out", need |-> "never", t |-> "let _t: {T} = *p;"], [n |-> "set_from", need |-> "never", t |-> "p.set(*q);"], [n |-> "assign", need |-> "never", t |-> "*p = *q;"],
  [n |-> "unpinned_pointer", need |-> "never", t |-> "let _ = p.get_unchecked_mut();"], [n |-> "read", need |-> "never", t |-> "let _ = core::ptr::read(&*p);"],
  [n |-> "write", need |-> "never", t |-> "core::ptr::write(&mut *p, core::ptr::read(&*q));"], [n |-> "vdrop", need |-> "never", t |-> "{ let l = p.calculate_layout(); varlen::VarLen::vdrop(p.as_mut(), l); }"],
  [n |-> "two_uses", need |-> "never", t |-> "let p1 = p; let p2 = p; touch(&p1); touch(&p2);"],
  [n |-> "look", need |-> "always", t |-> "let r: &{T} = p.as_ref().get_ref(); touch(r);"], [n |-> "reborrow", need |-> "always", t |-> "{ let r: Pin<&mut {T}> = p.as_mut(); touch(&*r); } touch(&*p); touch(&*q);"],
  [n |-> "layout", need |-> "always", t |-> "let _ = varlen::Layout::size(&p.calculate_layout());"] }
Allowed(t, need) == CASE need = "always" -> TRUE [] need = "never" -> FALSE [] OTHER -> MayMove(t)
Heads == { [n |-> w.n \o "/" \o a.n \o "/" \o t.n, ps |-> w.ps, st |-> w.st \o " " \o a.t, t |-> t.t, accept |-> Allowed(t, a.need)] : w \in Ways, a \in Acts, t \in Types }

\* The same through shared references, and directly on the owners.
F(n, ps, st, acc) == [n |-> n, ps |-> ps, st |-> st, acc |-> acc]
Direct == {
  F("ref_take", "a: &{T}", "let _t: {T} = *a;", FALSE), F("ref_swap", "a: &{T}, b: &{T}", "core::mem::swap(&mut *a, &mut *b);", FALSE), F("ref_touch", "a: &{T}", "touch(a);", TRUE),
  F("ref_pin", "a: &{T}", "let _: Pin<&{T}> = unsafe { Pin::new_unchecked(a) };", TRUE),
  F("box_take", "a: VBox<{T}>", "let _t: {T} = *a;", FALSE), F("owned_take", "a: Owned<'_, {T}>", "let _t: {T} = *a;", FALSE),
  F("box_assign", "mut a: VBox<{T}>, b: VBox<{T}>", "*a = *b;", FALSE), F("owned_assign", "mut a: Owned<'_, {T}>, b: Owned<'_, {T}>", "*a = *b;", FALSE),
  F("box_twice", "a: VBox<{T}>", "let b = a; touch(&*b); touch(&*a);", FALSE), F("owned_twice", "a: Owned<'_, {T}>", "let b = a; touch(&*b); touch(&*a);", FALSE),
  F("box_swap_boxes", "mut a: VBox<{T}>, mut b: VBox<{T}>", "core::mem::swap(&mut a, &mut b);", TRUE), F("owned_swap_owners", "mut a: Owned<'static, {T}>, mut b: Owned<'static, {T}>", "core::mem::swap(&mut a, &mut b);", TRUE), F("owned_swap_lifetimes", "mut a: Owned<'_, {T}>, mut b: Owned<'_, {T}>", "core::mem::swap(&mut a, &mut b);", FALSE),
  F("owned_clone", "a: Owned<'_, {T}>", "let _ = core::clone::Clone::clone(&a);", FALSE), F("elems_clone", "a: varlen::seq::OwnedElems<'_, {T}>", "let _ = core::clone::Clone::clone(&a);", FALSE),
  F("itermut_clone", "a: varlen::seq::IterMut<'_, {T}>", "let _ = core::clone::Clone::clone(&a);", FALSE), F("box_copy", "a: VBox<{T}>", "is_copy::<VBox<{T}>>();", FALSE), F("seq_copy", "a: Seq<{T}>", "is_copy::<Seq<{T}>>();", FALSE),
  F("owned_copy", "a: Owned<'_, {T}>", "is_copy::<Owned<'_, {T}>>();", FALSE), F("itermut_copy", "", "is_copy::<varlen::seq::IterMut<'_, {T}>>();", FALSE), F("elems_copy", "", "is_copy::<varlen::seq::OwnedElems<'_, {T}>>();", FALSE),
  F("box_parts", "a: VBox<{T}>", "let VBox(_p) = a;", FALSE), F("owned_parts", "a: Owned<'_, {T}>", "let Owned(_p, ..) = a;", FALSE), F("box_made", "a: core::ptr::NonNull<{T}>", "let _ = VBox(a);", FALSE),
  F("owned_made", "a: core::ptr::NonNull<{T}>", "let _ = Owned(a, core::marker::PhantomData);", FALSE), F("made_box_from", "a: Box<{T}>", "let _: VBox<{T}> = a.into();", FALSE), F("box_into_box", "a: VBox<{T}>", "let _: Box<{T}> = a.into();", FALSE),
  F("leak_static", "a: Owned<'_, {T}>", "let _: Pin<&'static mut {T}> = a.leak();", FALSE), F("bump_static", "a: Bump", "let o: Owned<'static, {T}> = Owned::new_in({init}, &a);", FALSE), F("bump_ok", "a: Bump", "let o: Owned<'_, {T}> = Owned::new_in({init}, &a); touch(&*o);", TRUE),
  F("made_box", "", "let b: VBox<{T}> = VBox::new({init}); touch(&*b);", TRUE), F("made_seq", "", "let mut b: Seq<{T}> = Seq::new(); b.push({init}); b.extend([{init}]);", TRUE), F("made_lit", "", "let b: Seq<{T}> = seq![{init}, {init}]; touch(&b);", TRUE),
  F("by_value_push", "mut a: Seq<{T}>, b: &{T}", "a.push(*b);", FALSE), F("by_ref_push", "mut a: Seq<{T}>, b: &{T}", "a.push(b);", FALSE), F("pin_push", "mut a: Seq<{T}>, b: Pin<&mut {T}>", "a.push(b);", FALSE), F("box_push", "mut a: Seq<{T}>, b: VBox<{T}>", "a.push(b);", TRUE),
  F("owned_push", "mut a: Seq<{T}>, b: Owned<'_, {T}>", "a.push(b);", TRUE), F("uninit", "", "let mut a = core::mem::MaybeUninit::<{T}>::uninit(); touch(a.assume_init_ref());", FALSE), F("zeroed", "", "let _: {T} = core::mem::zeroed();", FALSE),
  F("transmute", "a: [u8; core::mem::size_of::<{T}>()]", "let _: {T} = core::mem::transmute(a);", FALSE) }
\* Values out of nothing, and copies, of types with a tail.
Traits == {
  F("default", "", "let _: {T} = Default::default();", FALSE), F("clone", "a: &{T}", "needs_clone::<{T}>(a);", FALSE), F("copy", "", "is_copy::<{T}>();", FALSE), F("from_str", "", "let _ = \"a\".parse::<{T}>();", FALSE),
  F("collect", "", "let _: {T} = [1u16].into_iter().collect();", FALSE), F("from_init", "", "let _: {T} = ({init}).into();", FALSE), F("to_owned", "a: &{T}", "let _: {T} = a.to_owned();", FALSE), F("unpin", "", "is_unpin::<{T}>();", FALSE),
  F("from_tuple", "", "let _: {T} = Tup2(varlen::marker::FieldMarker(core::marker::PhantomPinned, core::marker::PhantomData), todo!());", FALSE) }
Directs == { [n |-> f.n \o "/" \o t.n, ps |-> f.ps, st |-> f.st, t |-> t.t, init |-> t.init, accept |-> f.acc] : f \in Direct, t \in Types }
     \cup { [n |-> f.n \o "/" \o t.n, ps |-> f.ps, st |-> f.st, t |-> t.t, init |-> t.init, accept |-> f.acc] : f \in Traits, t \in {x \in Types : x.tail} }
     \cup { [n |-> "unpin/" \o t.n, ps |-> "", st |-> "is_unpin::<{T}>();", t |-> t.t, init |-> t.init, accept |-> t.unpin] : t \in {x \in Types : ~x.tail} }

---------------------------------------------------------------------------
\* Unsafe operations: with and without `unsafe`.
Unsafe == {
  <<"a: core::ptr::NonNull<Str>", "Owned::<Str>::from_raw(a)">>, <<"a: Owned<'_, Str>", "a.into_raw()">>, <<"a: *mut Str", "VBox::<Str>::from_raw(a)">>, <<"a: VBox<Str>", "a.into_raw()">>,
  <<"a: &Seq<Str>", "a.from_offset_unchecked(0)">>, <<"a: &mut Seq<Str>", "a.from_offset_unchecked_mut(0)">>, <<"a: &IndexableSeq<Str>", "a.from_offset_unchecked(0)">>, <<"a: &mut IndexableSeq<Str>", "a.from_offset_unchecked_mut(0)">>,
  <<"", "varlen::marker::FieldMarker::<Str>::new_unchecked()">>, <<"", "varlen::marker::ArrayMarker::<u8>::new_unchecked()">>,
  <<"a: Pin<&mut S>, l: <S as varlen::VarLen>::Layout", "varlen::VarLen::vdrop(a, l)">>, <<"a: Pin<&mut Array<u8>>, l: <Array<u8> as varlen::VarLen>::Layout", "varlen::VarLen::vdrop(a, l)">>,
  <<"a: Pin<&mut Tup2<Str, Str>>, l: <Tup2<Str, Str> as varlen::VarLen>::Layout", "varlen::VarLen::vdrop(a, l)">>, <<"a: Pin<&mut N>, l: <N as varlen::VarLen>::Layout", "varlen::VarLen::vdrop(a, l)">>,
  <<"a: core::ptr::NonNull<Array<u8>>, l: <Array<u8> as varlen::VarLen>::Layout", "varlen::Initializer::initialize(Array::copy(&[1u8]), a, l)">>, <<"a: core::ptr::NonNull<S>, l: <S as varlen::VarLen>::Layout", "varlen::Initializer::initialize({S}, a, l)">>,
  <<"a: core::ptr::NonNull<N>, l: <N as varlen::VarLen>::Layout", "varlen::Initializer::initialize({N}, a, l)">>, <<"a: core::ptr::NonNull<Str>, b: VBox<Str>, l: <Str as varlen::VarLen>::Layout", "varlen::Initializer::initialize(b, a, l)">>,
  <<"a: *mut u8", "varlen::macro_support::drop_array::<u8>(a, 1, 1)">>, <<"a: &u8", "varlen::macro_support::ref_array::<u8, u16>(a, 1, 1)">>, <<"a: *mut u8", "varlen::macro_support::mut_array::<u8, u16>(a, 1, 1)">>,
  <<"a: core::ptr::NonNull<u8>", "varlen::macro_support::init_array::<u8>(FillWithDefault, a, 1, 1)">>, <<"a: &u8", "varlen::macro_support::cat_field_fast::<Str, u8>(a, 1)">>,
  <<"a: core::ptr::NonNull<u8>, l: <FixedLen<u8> as varlen::VarLen>::Layout", "varlen::macro_support::init_field::<FixedLen<u8>, _>(FixedLen(1u8), a, 1, l)">>,
  <<"a: *mut u8, l: <Str as varlen::VarLen>::Layout", "varlen::macro_support::vdrop_field::<Str>(a, 1, l)">>, <<"a: *mut u8", "varlen::macro_support::mut_field::<u8, u16>(a, 1)">>, <<"a: &u8", "varlen::macro_support::ref_field::<u8, u16>(a, 1)">> }
Unsafes == UNION { { [n |-> "unsafe " \o u[2], ps |-> u[1], st |-> "unsafe { let _ = " \o u[2] \o "; }", accept |-> TRUE], [n |-> "safe " \o u[2], ps |-> u[1], st |-> "let _ = " \o u[2] \o ";", accept |-> FALSE] } : u \in Unsafe }

---------------------------------------------------------------------------
\* Items: user definitions, and whether they may be.
I(n, it, acc) == [n |-> n, it |-> it, accept |-> acc]
VlBody == "type Layout = varlen::FixedLenLayout<X>; fn calculate_layout(&self) -> Self::Layout { loop {} } const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; unsafe fn vdrop(self: Pin<&mut Self>, _l: Self::Layout) {}"
InBody == "fn calculate_layout_cautious(&self) -> Option<<FixedLen<u8> as varlen::VarLen>::Layout> { None } unsafe fn initialize(self, _d: core::ptr::NonNull<FixedLen<u8>>, _l: <FixedLen<u8> as varlen::VarLen>::Layout) {}"
AiBody == "fn initialize(self, _d: &mut [core::mem::MaybeUninit<u8>]) {}"
TailDefs == { <<"#[controls_layout] n: usize, #[varlen_array] x: [u16; *n]", "array">>, <<"#[varlen] w: Str", "sub">>, <<"k: u8, #[varlen_array] x: [String; 3]", "const array">>, <<"#[controls_layout] n: u8, k: u8, #[varlen_array] x: [u16; *n as usize], #[varlen] w: Array<u8>", "both">> }
Items ==
  UNION { { I("struct " \o d[2], "#[define_varlen] pub struct X { " \o d[1] \o " }", TRUE),
            I("struct, own Unpin, " \o d[2], "#[define_varlen] pub struct X { " \o d[1] \o " } impl Unpin for X {}", FALSE),
            I("struct, own Drop, " \o d[2], "#[define_varlen] pub struct X { " \o d[1] \o " } impl Drop for X { fn drop(&mut self) {} }", FALSE),
            I("struct, own trait, " \o d[2], "#[define_varlen] pub struct X { " \o d[1] \o " } pub trait Q { fn q(&self) {} } impl Q for X {}", TRUE),
            I("struct, Clone, " \o d[2], "#[define_varlen] #[derive(Clone)] pub struct X { " \o d[1] \o " }", FALSE),
            I("struct, Copy, " \o d[2], "#[define_varlen] #[derive(Clone, Copy)] pub struct X { " \o d[1] \o " }", FALSE),
            I("struct, Default, " \o d[2], "#[define_varlen] #[derive(Default)] pub struct X { " \o d[1] \o " }", FALSE),
            I("struct, own VarLen, " \o d[2], "#[define_varlen] pub struct X { " \o d[1] \o " } unsafe impl varlen::VarLen for X { " \o VlBody \o " }", FALSE),
            I("struct under forbid, " \o d[2], "#[forbid(unsafe_code)] pub mod g { use super::*; #[define_varlen] pub struct X { " \o d[1] \o " } }", TRUE) } : d \in TailDefs }
  \cup UNION { { I("newtype of " \o t, "define_varlen_newtype! { #[repr(transparent)] pub struct X(" \o t \o "); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }" \o x[1], x[2])
               : x \in {<<"", TRUE>>, <<" impl Unpin for X {}", FALSE>>, <<" pub trait Q { fn q(&self) {} } impl Q for X {}", TRUE>>, <<" unsafe impl varlen::VarLen for X { " \o VlBody \o " }", FALSE>>,
                        <<" impl Clone for X { fn clone(&self) -> X { *self } }", FALSE>>, <<" pub fn f(a: Pin<&mut X>, b: Pin<&mut X>) { core::mem::swap(a.get_mut(), b.get_mut()) }", FALSE>>,
                        <<" pub fn f(a: &X) -> X { X(a.inner()) }", FALSE>>, <<" pub fn f(a: &X) -> X { X { 0: a.0 } }", FALSE>>, <<" pub fn f(a: &X) { touch(a.inner()) }", TRUE>>} }
             : t \in {"Str", "Array<u16>", "Tup2<Str, Str>", "S", "N"} }
  \cup { I("newtype without repr", "define_varlen_newtype! { pub struct X(Str); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }", FALSE),
         I("newtype of sized", "define_varlen_newtype! { #[repr(transparent)] pub struct X(u8); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }", FALSE),
         I("newtype from another initializer", "define_varlen_newtype! { #[repr(transparent)] pub struct X(Str); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } pub fn f() -> VBox<X> { VBox::new(XI(Array::copy(&[1u8]))) }", FALSE),
         I("newtype from an initializer of its content", "define_varlen_newtype! { #[repr(transparent)] pub struct X(Array<u8>); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } pub fn f() -> VBox<X> { VBox::new(XI(Array::copy(&[1u8]))) }", TRUE),
         I("initializer newtype of another type", "pub struct X(varlen::array::SizedInit<MoveFrom<u16, 3>>); varlen::impl_initializer_as_newtype! { impl Initializer<Array<u8>> for X { _ } }", FALSE),
         I("initializer newtype", "pub struct X(varlen::array::SizedInit<MoveFrom<u16, 3>>); impl_initializer_as_newtype! { impl Initializer<Array<u16>> for X { _ } }", TRUE) }
  \* traits
  \cup UNION { { I("safe impl " \o x[1], "pub struct X; impl " \o x[1] \o " for X { " \o x[2] \o " }", FALSE), I("unsafe impl " \o x[1], "pub struct X; unsafe impl " \o x[1] \o " for X { " \o x[2] \o " }", x[3]) }
               : x \in {<<"varlen::VarLen", VlBody, TRUE>>, <<"Initializer<FixedLen<u8>>", InBody, TRUE>>, <<"ArrayInitializer<u8>", AiBody, TRUE>>, <<"varlen::array::ArrayLen", "fn as_usize(self) -> usize { 0 } fn from_usize(_x: usize) -> Option<Self> { None }", FALSE>>,
                        <<"varlen::seq::Indexing", "", FALSE>>} }
  \cup { I("copyable ArrayLen", "#[derive(Clone, Copy)] pub struct X; impl ArrayLen for X { fn as_usize(self) -> usize { 0 } fn from_usize(_x: usize) -> Option<Self> { None } }", FALSE),
         I("safe VCopy", "impl<'a> VCopy<'a> for N {}", FALSE), I("safe VCopy with VClone", "impl<'a> VClone<'a> for NStr { type Cloner = NStrInit<<Str as VClone<'a>>::Cloner>; fn vclone(&'a self) -> Self::Cloner { NStrInit(self.inner().vclone()) } } impl<'a> VCopy<'a> for NStr {}", FALSE),
         I("unsafe VCopy with VClone", "impl<'a> VClone<'a> for NStr { type Cloner = NStrInit<<Str as VClone<'a>>::Cloner>; fn vclone(&'a self) -> Self::Cloner { NStrInit(self.inner().vclone()) } } unsafe impl<'a> VCopy<'a> for NStr {}", TRUE),
         I("VClone", "impl<'a> VClone<'a> for NStr { type Cloner = NStrInit<<Str as VClone<'a>>::Cloner>; fn vclone(&'a self) -> Self::Cloner { NStrInit(self.inner().vclone()) } }", TRUE) }
  \* what controls a length may not change through a shared reference, nor have code of its own run on it
  \cup { I("controller " \o x[1], "#[define_varlen] pub struct X { #[controls_layout] n: " \o x[1] \o ", #[varlen_array] x: [u16; " \o x[2] \o "] }", x[3])
       : x \in {<<"usize", "*n", TRUE>>, <<"u8", "*n as usize", TRUE>>, <<"[u8; 2]", "n[1] as usize", TRUE>>, <<"(u8, u8)", "n.1 as usize", TRUE>>, <<"core::cell::Cell<usize>", "n.get()", FALSE>>, <<"core::cell::RefCell<usize>", "3", FALSE>>, <<"core::cell::UnsafeCell<usize>", "3", FALSE>>,
                <<"core::sync::atomic::AtomicUsize", "n.load(core::sync::atomic::Ordering::Relaxed)", FALSE>>, <<"[core::cell::Cell<usize>; 1]", "n[0].get()", FALSE>>, <<"Option<core::cell::Cell<usize>>", "3", FALSE>>, <<"String", "n.len()", TRUE>>, <<"Option<u8>", "match n { Some(a) => *a as usize, None => 0 }", TRUE>>,
                <<"usize", "side_effect(n)", FALSE>>, <<"usize", "const_fn(*n)", TRUE>>} }
  \* the methods of the library, and not the user's of the same name, are what decides
  \cup { I("own methods of newtype", "define_varlen_newtype! { #[repr(transparent)] pub struct X(S); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } impl X { pub fn calculate_layout(&self) -> u8 { 1 } pub fn vdrop(self: Pin<&mut Self>) {} pub const ALIGN: u8 = 1; pub const NEEDS_VDROP: u8 = 1; }", TRUE),
         I("own methods of content", "pub mod g { use super::*; #[define_varlen] pub struct G { #[varlen] w: Str } impl G { pub fn calculate_layout(&self) -> u8 { 1 } pub fn vdrop(self: Pin<&mut Self>) {} pub const ALIGN: u8 = 1; pub const NEEDS_VDROP: u8 = 1; } } define_varlen_newtype! { #[repr(transparent)] pub struct X(g::G); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }", TRUE),
         I("own methods of fields", "pub mod g { use super::*; #[define_varlen] pub struct G { #[varlen] w: Str } impl G { pub fn calculate_layout(&self) -> u8 { 1 } pub fn vdrop(self: Pin<&mut Self>) {} pub const ALIGN: u8 = 1; pub const NEEDS_VDROP: u8 = 1; } } #[define_varlen] pub struct X { #[varlen] a: g::G, #[varlen] b: Tup2<g::G, Str> } pub fn f(t: &Tup2<g::G, X>) -> &g::G { t.refs().0 }", TRUE),
         I("own methods of struct", "#[define_varlen] pub struct X { #[controls_layout] n: usize, #[varlen_array] x: [u8; *n], #[varlen] w: Str } impl X { pub fn calculate_layout(&self) -> u8 { 1 } pub const ALIGN: u8 = 1; pub const NEEDS_VDROP: u8 = 1; } pub fn f(b: VBox<X>) -> usize { b.refs().x.len() }", TRUE),
         I("own methods of initializer", "pub struct X(varlen::array::SizedInit<MoveFrom<u16, 3>>); impl X { pub fn initialize(self) {} pub fn calculate_layout_cautious(&self) -> u8 { 1 } } impl_initializer_as_newtype! { impl Initializer<Array<u16>> for X { _ } }", TRUE),
         I("own type InnerInit", "pub struct InnerInit; define_varlen_newtype! { #[repr(transparent)] pub struct X(Tup2<FixedLen<InnerInit>, Str>); with init: pub struct XI<_>(_); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } pub fn f(x: &X) -> &InnerInit { &x.inner().refs().0.0 }", TRUE),
         I("text from bytes", "pub fn f() -> VBox<Str> { VBox::new(Array::copy(&[255u8])) }", FALSE), I("text from text", "pub fn f(a: VBox<Str>) -> VBox<Str> { VBox::new(a) }", TRUE),
         I("text from shorter text", "pub fn f(a: VBox<Str<u8>>) -> VBox<Str> { VBox::new(a) }", FALSE), I("text from wrapped bytes", "pub fn f() -> VBox<Str> { VBox::new(varlen::str::StrInit(Array::copy(&[255u8]))) }", FALSE), I("bytes of text written", "pub fn f(a: Pin<&mut Str>) { a.inner_mut().mut_slice()[0] = 255; }", FALSE),
         I("array from array of another type", "pub fn f(a: VBox<Array<u32>>) -> VBox<Array<u16>> { VBox::new(a) }", FALSE), I("array through copy of non-copy", "pub fn f(a: &Array<String>) -> VBox<Array<String>> { VBox::new(a.vcopy()) }", FALSE), I("array through clone of non-copy", "pub fn f(a: &Array<String>) -> VBox<Array<String>> { VBox::new(a.vclone()) }", TRUE),
         I("array copied from non-copy", "pub fn f(a: &[String]) -> VBox<Array<String>> { VBox::new(Array::copy(a)) }", FALSE), I("array cloned from non-copy", "pub fn f(a: &[String]) -> VBox<Array<String>> { VBox::new(Array::clone_from_slice(a)) }", TRUE), I("array cloned of non-clone", "pub struct X; pub fn f(a: &[X]) -> VBox<Array<X>> { VBox::new(Array::clone_from_slice(a)) }", FALSE),
         I("tuple copied of non-copy", "pub fn f(a: &Tup2<Str, Array<String>>) -> VBox<Tup2<Str, Array<String>>> { VBox::new(a.vcopy()) }", FALSE), I("tuple copied of copy", "pub fn f(a: &Tup2<Str, Array<u16>>) -> VBox<Tup2<Str, Array<u16>>> { VBox::new(a.vcopy()) }", TRUE), I("fixed copied of non-copy", "pub fn f(a: &FixedLen<String>) -> VBox<FixedLen<String>> { VBox::new(a.vcopy()) }", FALSE),
         I("struct copied", "pub fn f(a: &S) -> VBox<S> { VBox::new(a.vcopy()) }", FALSE), I("checked access of unchecked", "pub fn f(a: &Seq<Str>) -> &Str { a.from_offset(0) }", FALSE), I("checked mutable access of unchecked", "pub fn f(a: &mut Seq<Str>) -> Pin<&mut Str> { a.from_offset_mut(0) }", FALSE),
         I("checked access", "pub fn f(a: &IndexableSeq<Str>) -> &Str { a.from_offset(0) }", TRUE) }

---------------------------------------------------------------------------
\* What may not be shared or sent: anything with contents that may not, in whatever it is contained.
Contents == { <<"u16", TRUE>>, <<"std::rc::Rc<u8>", FALSE>>, <<"*const u8", FALSE>> }
Holders == { "Array<{X}>", "Tup2<Str, Array<{X}>>", "Tup5<Str, Str, FixedLen<{X}>, Str, Str>", "FixedLen<{X}>", "ShareArray<{X}>", "ShareSub<Array<{X}>>", "NGen<{X}>" }
Owners == { "VBox<{H}>", "Owned<'static, {H}>", "Seq<{H}>", "IndexableSeq<{H}>", "varlen::seq::Iter<'static, {H}>", "varlen::seq::IterMut<'static, {H}>", "varlen::seq::OwnedElems<'static, {H}>", "Pin<&'static mut {H}>", "&'static {H}" }
\* The owners are made of raw pointers; whether they may be sent when their contents may is not promised.
Threads == UNION { { [n |-> tr, ty |-> h, x |-> c[1], accept |-> c[2]] : tr \in {"is_send", "is_sync"}, h \in Holders } : c \in Contents }
      \cup { [n |-> tr, ty |-> o, h |-> h, x |-> c[1], accept |-> FALSE] : tr \in {"is_send", "is_sync"}, h \in Holders, o \in Owners, c \in {d \in Contents : ~d[2]} }
      \cup { [n |-> tr, ty |-> h, x |-> "core::cell::Cell<u8>", accept |-> tr = "is_send"] : tr \in {"is_send", "is_sync"}, h \in Holders }
\* Changing the lifetime 'long of the contents to 'short, or back.
Hosts == { <<"&'q {E}", TRUE>>, <<"&'q mut {E}", FALSE>>, <<"Pin<&'q mut {E}>", FALSE>>, <<"varlen::seq::Iter<'q, {E}>", TRUE>>, <<"varlen::seq::IterMut<'q, {E}>", FALSE>>, <<"tup2::Muts<'q, {E}, Str>", FALSE>>, <<"tup2::Refs<'q, {E}, Str>", TRUE>>, <<"&'q mut Seq<{E}>", FALSE>>, <<"&'q mut VBox<{E}>", FALSE>> }
Elems == { "FixedLen<&'{L} u8>", "Array<&'{L} u8>", "Tup2<FixedLen<&'{L} u8>, Str>" }
Variance == { [n |-> h[1] \o dir[1], ty |-> h[1], e |-> e, from |-> dir[2], to |-> dir[3], accept |-> dir[4] /\ h[2]] : h \in Hosts, e \in Elems, dir \in {<<" shortened", "long", "short", TRUE>>, <<" lengthened", "short", "long", FALSE>>} }
     \cup { [n |-> h[1] \o " kept", ty |-> h[1], e |-> e, from |-> "long", to |-> "long", accept |-> TRUE] : h \in Hosts, e \in Elems }

---------------------------------------------------------------------------
VARIABLE prog
Families == [heads |-> Heads, direct |-> Directs, unsafes |-> Unsafes, items |-> Items, threads |-> Threads, variance |-> Variance]
Init == \E p \in Families[IOEnv.FAMILY] : prog = p
Next == UNCHANGED prog
Show == PrintT(<<"CASE", ToJson(prog)>>)
=============================================================================
