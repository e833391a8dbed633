//! Sizes at the edge of what can be represented, and length fields at the edge of their range.
//! Only runs what it is told to and records what happened.
use crate::elem::*;
use crate::out::*;
use crate::track::*;
use crate::ty::*;
use crate::world::{bump, reset_arena};
use std::fmt::Write as _;
use std::io::Write;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};
use varlen::prelude::*;
use varlen::Layout as _;

/// Little-endian digits in base 2^15.
pub fn limbs(mut x: u128) -> String {
    let mut v = vec![];
    while x > 0 {
        v.push((x & 0x7fff) as u32);
        x >>= 15;
    }
    list(&v)
}

static mut CALLS: Vec<usize> = Vec::new();
static mut PROBES: i64 = 0;
#[allow(static_mut_refs)]
fn calls() -> &'static mut Vec<usize> {
    unsafe { &mut CALLS }
}

/// Stands for the contents of one array.
struct Probe;
fn probe() -> Probe {
    unsafe { PROBES += 1 };
    Probe
}
impl Drop for Probe {
    fn drop(&mut self) {
        unsafe { PROBES -= 1 }
    }
}
unsafe impl<E> ArrayInitializer<E> for Probe {
    fn initialize(self, dst: &mut [MaybeUninit<E>]) {
        user(|| calls().push(dst.len()));
        let n = std::mem::size_of::<E>().checked_mul(dst.len());
        if n.map_or(false, |n| n <= 1 << 20) {
            unsafe { std::ptr::write_bytes(dst.as_mut_ptr() as *mut u8, 0, n.unwrap()) }
        }
    }
}

type Mib = [u8; 1 << 20];
type Tib = [u8; 1 << 40];

#[define_varlen]
pub struct O1 {
    #[controls_layout]
    n: usize,
    #[controls_layout]
    m: usize,
    #[varlen_array]
    x: [u64; *n],
    #[varlen_array]
    y: [u8; *m],
}
#[define_varlen]
pub struct O2 {
    #[varlen]
    a: Array<u8>,
    #[controls_layout]
    n: u64,
    k: u8,
    #[varlen_array]
    x: [Al32; *n as usize],
    #[varlen]
    b: Array<u16>,
}
#[define_varlen]
pub struct O3 {
    #[controls_layout]
    n: usize,
    #[varlen_array]
    x: [(); *n],
    #[varlen_array]
    y: [[u64; 0]; *n],
    #[varlen_array]
    z: [[u8; 3]; *n],
}
#[define_varlen]
pub struct O4 {
    k: u8,
    #[varlen]
    a: Tup2<Array<u8>, Array<u32>>,
    #[varlen]
    b: O1,
}
#[allow(dead_code)]
struct H1(usize, usize);
#[allow(dead_code)]
struct H2(u64, u8);
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct ON(Tup2<FixedLen<u8>, Array<u128>>);
    with init: struct ONInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}

fn arr<E: 'static, L: ArrayLen>(n: usize) -> DynI<Array<E, L>> {
    // lengths that the length type cannot hold never come here
    DynI::new(SizedInit(L::from_usize(n).unwrap(), probe()))
}
/// description of an array: sizes as digits, and the element size as a product of small factors
fn ad<E, L>() -> String {
    let s = std::mem::size_of::<E>();
    let f = match s { 0x100000 => vec![1 << 14, 1 << 6], 0x10000000000 => vec![1 << 14, 1 << 14, 1 << 12], _ => vec![s] };
    format!("{{\"k\":\"arr\",\"lsz\":{},\"lal\":{},\"lmax\":{},\"sz\":{},\"szf\":{},\"al\":{}}}",
        std::mem::size_of::<L>(), std::mem::align_of::<L>(), limbs((1u128 << (8 * std::mem::size_of::<L>())) - 1), limbs(s as u128), list(&f), std::mem::align_of::<E>())
}
fn sa<E>(i: usize) -> String {
    format!("{{\"f\":\"arr\",\"i\":{},\"d\":{}}}", i, ad::<E, usize>())
}
fn ss(d: String) -> String {
    format!("{{\"f\":\"sub\",\"d\":{}}}", d)
}
fn st_<H>(f: &[String]) -> String {
    format!("{{\"k\":\"struct\",\"hsz\":{},\"hal\":{},\"f\":[{}]}}", std::mem::size_of::<H>(), std::mem::align_of::<H>(), f.join(","))
}
fn tu(f: &[String]) -> String {
    format!("{{\"k\":\"tup\",\"f\":[{}]}}", f.join(","))
}
fn fx<E>() -> String {
    format!("{{\"k\":\"fix\",\"sz\":{},\"al\":{}}}", std::mem::size_of::<E>(), std::mem::align_of::<E>())
}
fn o1(n: usize, m: usize) -> DynI<O1> {
    DynI::new(o_1::Init { n, m, x: probe(), y: probe() })
}
fn d1() -> String {
    st_::<H1>(&[sa::<u64>(1), sa::<u8>(2)])
}

type Runner = fn(&[usize], &mut Vec<String>);
macro_rules! table {
    ($( $t:ty, $k:literal, |$n:ident| $mk:expr, $d:expr; )*) => {
        /// (description, alignment, number of lengths, runner)
        fn table() -> Vec<(String, usize, usize, Runner)> {
            vec![ $( ($d, <$t as VarLen>::ALIGN, $k, |n, out| routes::<$t>(|$n: &[usize]| $mk, n, $k, out)) ),* ]
        }
    };
}
table! {
    Array<u8>, 1, |n| arr(n[0]), ad::<u8, usize>();
    Array<u16>, 1, |n| arr(n[0]), ad::<u16, usize>();
    Array<u64>, 1, |n| arr(n[0]), ad::<u64, usize>();
    Array<u128>, 1, |n| arr(n[0]), ad::<u128, usize>();
    Array<[u8; 3]>, 1, |n| arr(n[0]), ad::<[u8; 3], usize>();
    Array<[u32; 7]>, 1, |n| arr(n[0]), ad::<[u32; 7], usize>();
    Array<Al128>, 1, |n| arr(n[0]), ad::<Al128, usize>();
    Array<Al128, u64>, 1, |n| arr(n[0]), ad::<Al128, u64>();
    Array<()>, 1, |n| arr(n[0]), ad::<(), usize>();
    Array<[u64; 0], u32>, 1, |n| arr(n[0]), ad::<[u64; 0], u32>();
    Array<u8, u64>, 1, |n| arr(n[0]), ad::<u8, u64>();
    Array<u64, u32>, 1, |n| arr(n[0]), ad::<u64, u32>();
    Array<Mib, u8>, 1, |n| arr(n[0]), ad::<Mib, u8>();
    Array<Mib>, 1, |n| arr(n[0]), ad::<Mib, usize>();
    Array<Tib, u32>, 1, |n| arr(n[0]), ad::<Tib, u32>();
    Array<Tib, u16>, 1, |n| arr(n[0]), ad::<Tib, u16>();
    Tup2<Array<u8>, Array<u8>>, 2, |n| DynI::new(tup2::Init(arr(n[0]), arr(n[1]))), tu(&[ad::<u8, usize>(), ad::<u8, usize>()]);
    Tup2<Array<u64>, Array<u8, u8>>, 2, |n| DynI::new(tup2::Init(arr(n[0]), arr(n[1]))), tu(&[ad::<u64, usize>(), ad::<u8, u8>()]);
    Tup3<FixedLen<u8>, Array<u16>, Array<Al32>>, 2, |n| DynI::new(tup3::Init(FixedLen(1), arr(n[0]), arr(n[1]))), tu(&[fx::<u8>(), ad::<u16, usize>(), ad::<Al32, usize>()]);
    Tup4<Array<u32>, FixedLen<u64>, Array<()>, Array<u8>>, 3, |n| DynI::new(tup4::Init(arr(n[0]), FixedLen(1), arr(n[1]), arr(n[2]))), tu(&[ad::<u32, usize>(), fx::<u64>(), ad::<(), usize>(), ad::<u8, usize>()]);
    Tup5<Array<u8>, Array<u16>, Array<u8>, Array<u64>, FixedLen<u128>>, 4, |n| DynI::new(tup5::Init(arr(n[0]), arr(n[1]), arr(n[2]), arr(n[3]), FixedLen(1))),
        tu(&[ad::<u8, usize>(), ad::<u16, usize>(), ad::<u8, usize>(), ad::<u64, usize>(), fx::<u128>()]);
    Tup2<Tup2<Array<u8>, Array<u8>>, Array<u64>>, 3, |n| { let a: DynI<Tup2<Array<u8>, Array<u8>>> = DynI::new(tup2::Init(arr(n[0]), arr(n[1]))); DynI::new(tup2::Init(a, arr(n[2]))) },
        tu(&[tu(&[ad::<u8, usize>(), ad::<u8, usize>()]), ad::<u64, usize>()]);
    O1, 2, |n| o1(n[0], n[1]), d1();
    O2, 3, |n| DynI::new(o_2::Init { a: arr(n[0]), n: n[1] as u64, k: 1, x: probe(), b: arr(n[2]) }),
        st_::<H2>(&[ss(ad::<u8, usize>()), sa::<Al32>(2), ss(ad::<u16, usize>())]);
    O3, 1, |n| DynI::new(o_3::Init { n: n[0], x: probe(), y: probe(), z: probe() }), st_::<usize>(&[sa::<()>(1), sa::<[u64; 0]>(1), sa::<[u8; 3]>(1)]);
    O4, 4, |n| { let a: DynI<Tup2<Array<u8>, Array<u32>>> = DynI::new(tup2::Init(arr(n[0]), arr(n[1]))); DynI::new(o_4::Init { k: 1, a, b: o1(n[2], n[3]) }) },
        st_::<u8>(&[ss(tu(&[ad::<u8, usize>(), ad::<u32, usize>()])), ss(d1())]);
    ON, 1, |n| DynI::new(ONInit(tup2::Init(FixedLen(1u8), arr(n[0])))), tu(&[fx::<u8>(), ad::<u128, usize>()]);
    Tup2<O1, Str<u8>>, 2, |n| DynI::new(tup2::Init(o1(n[0], n[1]), Str::try_copy("ab").unwrap())), tu(&[d1(), "{\"k\":\"fix\",\"sz\":3,\"al\":1}".to_string()]);
}

fn events() -> String {
    let s = st();
    let v: Vec<String> = s.evs.iter().map(|e| match *e {
        Ev::Alloc(_, n, a) => format!("[\"a\",{},{}]", limbs(n as u128), a),
        Ev::Realloc(_, _, n, a) => format!("[\"r\",{},{}]", limbs(n as u128), a),
        Ev::Free(_, n, a) => format!("[\"f\",{},{}]", limbs(n as u128), a),
        Ev::Refused(n, a) => format!("[\"x\",{},{}]", limbs(n as u128), a),
    }).collect();
    let r = format!("[{}]", v.join(","));
    s.evs.clear();
    r
}

/// What a sequence looks like, contents included.
fn look<T: VarLen, I: varlen::seq::Indexing>(q: &varlen::Seq<T, I>) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}/{}/{}", q.len(), q.capacity_in_offsets(), q.offset());
    for t in q.iter() {
        let n = t.calculate_layout().size();
        let _ = write!(s, " {}@{:x}:", q.offset_of(t), t as *const T as usize);
        for i in 0..n.min(1 << 12) {
            let _ = write!(s, "{:02x}", unsafe { *(t as *const T as *const u8).add(i) });
        }
    }
    s
}

struct Case<'a> {
    n: &'a [usize],
    out: &'a mut Vec<String>,
}
impl<'a> Case<'a> {
    fn go(&mut self, route: &str, had: usize, occ: usize, f: impl FnOnce() -> usize) {
        st().begin();
        calls().clear();
        let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
        window_off();
        let (out, size) = match &r {
            Ok(n) => ("ok", limbs(*n as u128)),
            Err(_) => ("panic", "[]".into()),
        };
        drop(r);
        let c: Vec<String> = calls().iter().map(|n| limbs(*n as u128)).collect();
        let ev = events();
        let bad = strs(&std::mem::take(&mut st().bad));
        let n: Vec<String> = self.n.iter().map(|n| limbs(*n as u128)).collect();
        self.out.push(format!("{{\"n\":[{}],\"route\":\"{}\",\"had\":{},\"occ\":{},\"out\":\"{}\",\"sz\":{},\"calls\":[{}],\"al\":{},\"bad\":{},\"probes\":{}",
            n.join(","), route, had, occ, out, size, c.join(","), ev, bad, unsafe { PROBES }));
        unsafe { PROBES = 0 };
    }
    fn more(&mut self, s: &str) {
        let l = self.out.last_mut().unwrap();
        l.push_str(s);
    }
}

fn routes<T: VarLen + 'static>(mk: impl Fn(&[usize]) -> DynI<T>, n: &[usize], k: usize, out: &mut Vec<String>) {
    let huge = std::any::type_name::<T>().contains("1099511627776");
    let tiny: Vec<usize> = (0..k).map(|i| if huge { 0 } else { (i + 1) % 3 }).collect();
    let mut c = Case { n, out };
    st().reset();
    // the announced size
    let mut an = None;
    c.go("announce", 0, 0, || {
        let i = mk(n);
        an = i.size();
        user(|| drop(i));
        0
    });
    c.more(&format!(",\"an\":{},\"same\":true,\"after\":true,\"live\":0}}", an.map_or("[-1]".into(), |x| limbs(x as u128))));
    // a refused box ends the process (as it must), so only those that cannot get that far
    // or that are small
    let small = an.map_or(true, |x| x < 1 << 24);
    let never = an.map_or(true, |x| x > isize::MAX as usize);
    if small || never {
        c.go("box", 0, 0, || {
            let b = VBox::new(mk(n));
            b.calculate_layout().size()
        });
        c.more(&format!(",\"an\":[-1],\"same\":true,\"after\":true,\"live\":{}}}", st().blocks.iter().filter(|b| b.live).count()));
    }
    st().reset();
    c.go("area", 0, 0, || {
        let b = Owned::new_in(mk(n), bump());
        b.calculate_layout().size()
    });
    c.more(",\"an\":[-1],\"same\":true,\"after\":true,\"live\":0}");
    if !st().blocks.is_empty() {
        // the arena grew
        reset_arena();
    }
    for had in [0, 1, 3] {
        seq_route::<T, varlen::seq::UncheckedIndexing>(&mk, &tiny, had, "sequ", &mut c);
        seq_route::<T, varlen::seq::CheckedIndexing>(&mk, &tiny, had, "seqc", &mut c);
    }
}

fn seq_route<T: VarLen + 'static, I: varlen::seq::Indexing>(mk: &impl Fn(&[usize]) -> DynI<T>, tiny: &[usize], had: usize, route: &str, c: &mut Case) {
    st().reset();
    let mut q: varlen::Seq<T, I> = varlen::Seq::new();
    for _ in 0..had {
        lib(|| q.push(mk(tiny)));
    }
    unsafe { PROBES = 0 };
    let before = look(&q);
    let occ = q.offset();
    let n = c.n;
    let qq = &mut q;
    c.go(route, had, occ, || {
        qq.push(mk(n));
        qq.iter().last().unwrap().calculate_layout().size()
    });
    let small = c.out.last().unwrap().contains("\"out\":\"ok\"");
    let same = small || look(&q) == before;
    // it must still be usable
    calls().clear();
    let len = q.len();
    let r = catch_unwind(AssertUnwindSafe(|| {
        lib(|| q.push(mk(tiny)));
        let s = look(&q);
        q.len() == len + 1 && q.iter().count() == len + 1 && (small || s.split(' ').skip(1).zip(before.split(' ').skip(1)).count() >= had)
    }));
    window_off();
    lib(|| drop(q));
    let bad = st().bad.is_empty();
    let live = st().blocks.iter().filter(|b| b.live).count();
    c.more(&format!(",\"an\":[-1],\"same\":{},\"after\":{},\"live\":{}}}", same, matches!(r, Ok(true)) && bad, live));
    st().bad.clear();
    unsafe { PROBES = 0 };
}

// ---- narrow length fields --------------------------------------------------------------------

/// `len` elements that take no storage, or bytes from a block of zeros.
fn zeros() -> &'static [u8] {
    static mut Z: Option<&'static [u8]> = None;
    unsafe {
        if Z.is_none() {
            // never touched: only its length matters
            let n = (1usize << 32) + 16;
            let p = std::alloc::System;
            let l = std::alloc::Layout::from_size_align(n, 8).unwrap();
            let a = std::alloc::GlobalAlloc::alloc_zeroed(&p, l);
            Z = Some(if a.is_null() { &[] } else { std::slice::from_raw_parts(a, n) });
        }
        Z.unwrap()
    }
}

const BUILD: usize = 300_000;

/// (len_short, elements readable, contents equal)
fn built<E: PartialEq + 'static, L: ArrayLen>(b: &Array<E, L>, src: &[E]) -> (usize, usize, bool) {
    let short = b.len_short().as_usize();
    let s: &[E] = b;
    (short, s.len(), std::mem::size_of::<E>() == 0 || s == src)
}

fn array_case<E: Copy + PartialEq + 'static, L: ArrayLen>(k: &str, src: &'static [E]) -> Option<Option<(usize, usize, bool)>> {
    let build = std::mem::size_of::<E>() == 0 && k != "clone" || src.len() <= BUILD;
    match k {
        "copy" => Array::<E, L>::try_copy(src).map(|i| if build { Some(built(&VBox::new(i), src)) } else { None }),
        "clone" => Array::<E, L>::try_clone_from_slice(src).map(|i| if build { Some(built(&VBox::new(i), src)) } else { None }),
        "sized" => L::from_usize(src.len()).map(|n| if build { Some(built(&VBox::new(SizedInit(n, CopyFrom(src))), src)) } else { None }),
        // an object inside another, pushed
        "nested" => Array::<E, L>::try_copy(src).map(|i| if build {
            let mut q: varlen::Seq<Tup2<FixedLen<u8>, Array<E, L>>> = varlen::Seq::new();
            q.push(tup2::Init(FixedLen(1), i));
            let r = Some(built(q.iter().next().unwrap().refs().1, src));
            r
        } else { None }),
        "again" => Array::<E, L>::try_copy(src).map(|i| if build {
            let b = VBox::new(i);
            let c = VBox::new(b.vcopy());
            let r = Some(built(&c, src));
            r
        } else { None }),
        _ => std::process::exit(2),
    }
}
fn usize_case<E: Copy + PartialEq + 'static>(k: &str, src: &'static [E]) -> Option<Option<(usize, usize, bool)>> {
    let build = std::mem::size_of::<E>() == 0 && k == "copy" || src.len() <= BUILD;
    match k {
        "copy" => Some(if build { Some(built(&VBox::new(Array::copy(src)), src)) } else { None }),
        _ => Some(if build { Some(built(&VBox::new(Array::clone_from_slice(src)), src)) } else { None }),
    }
}
fn str_case<L: ArrayLen>(k: &str, src: &'static str) -> Option<Option<(usize, usize, bool)>> {
    let build = src.len() <= BUILD;
    let f = |b: &Str<L>| { let t: &str = b; (t.len(), t.len(), t == src && std::str::from_utf8(t.as_bytes()).is_ok()) };
    match k {
        "again" => Str::<L>::try_copy(src).map(|i| if build { let b = VBox::new(i); Some(f(&VBox::new(b.vclone()))) } else { None }),
        _ => Str::<L>::try_copy(src).map(|i| if build { Some(f(&VBox::new(i))) } else { None }),
    }
}
fn by_len<E: Copy + PartialEq + 'static>(l: &str, k: &str, s: &'static [E]) -> Option<Option<(usize, usize, bool)>> {
    match l {
        "u8" => array_case::<E, u8>(k, s),
        "u16" => array_case::<E, u16>(k, s),
        "u32" => array_case::<E, u32>(k, s),
        "u64" => array_case::<E, u64>(k, s),
        "usize" => array_case::<E, usize>(k, s),
        _ => usize_case::<E>(k, s),
    }
}
/// narrow ELEM LEN KIND N
fn narrow(e: &str, l: &str, k: &str, n: usize) -> Option<String> {
    let few: &'static [u8] = Box::leak((0..if n <= BUILD { n } else { 0 }).map(|i| (i * 7 % 251) as u8).collect::<Vec<u8>>().into_boxed_slice());
    let bytes: &'static [u8] = if n <= BUILD { few } else if n <= zeros().len() { &zeros()[..n] } else { &[] };
    let r = catch_unwind(AssertUnwindSafe(|| lib(|| match e {
        "unit" => Some(by_len::<()>(l, k, unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n) })),
        "u8" if bytes.len() == n => Some(by_len::<u8>(l, k, bytes)),
        "u32" if n <= BUILD => Some(by_len::<u32>(l, k, user(|| Box::leak((0..n as u32).collect::<Vec<u32>>().into_boxed_slice())))),
        "str" if bytes.len() == n => {
            let s: &'static str = user(|| if n > BUILD { unsafe { std::str::from_utf8_unchecked(bytes) } } else {
                // characters of one, two and three bytes
                let mut s = String::new();
                while s.len() + 3 <= n { s.push(['a', 'é', '€'][s.len() % 3]); }
                while s.len() < n { s.push('z'); }
                Box::leak(s.into_boxed_str())
            });
            Some(match l {
                "u8" => str_case::<u8>(k, s),
                "u16" => str_case::<u16>(k, s),
                "u32" => str_case::<u32>(k, s),
                "u64" => str_case::<u64>(k, s),
                "usize" => str_case::<usize>(k, s),
                _ => if n <= BUILD { let b = VBox::new(Str::copy(s)); let t: &str = &b; Some(Some((t.len(), t.len(), t == s))) } else { Some(None) },
            })
        }
        _ => None,
    })));
    window_off();
    Some(match r {
        Err(_) => "\"out\":\"panic\",\"b\":[]".into(),
        Ok(None) => return None,
        Ok(Some(None)) => "\"out\":\"none\",\"b\":[]".into(),
        Ok(Some(Some(None))) => "\"out\":\"some\",\"b\":[]".into(),
        Ok(Some(Some(Some((a, b, c))))) => format!("\"out\":\"some\",\"b\":[[{},{},{}]]", limbs(a as u128), limbs(b as u128), c),
    })
}

// ---- driver ----------------------------------------------------------------------------------

pub fn types() {
    for (i, (d, a, k, _)) in table().iter().enumerate() {
        println!("{{\"i\":{},\"align\":{},\"k\":{},\"d\":{}}}", i + 1, a, k, d);
    }
}

/// overflow CASES OUT FIRST: lines "o TYPE N..." and "n ELEM LEN KIND N"
pub fn run(cases: &str, outp: &str, first: usize) {
    std::panic::set_hook(Box::new(|_| window_off()));
    let text = std::fs::read_to_string(cases).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(outp).unwrap());
    reset_arena();
    unsafe { crate::track::REFUSE = 1 << 26 };
    let t = table();
    for (i, line) in text.lines().enumerate().skip(first) {
        std::fs::write(format!("{}.cur", outp), format!("{}", i)).unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w[0] == "o" {
            let ty: usize = w[1].parse().unwrap();
            let n: Vec<usize> = w[2..].iter().map(|x| x.parse().unwrap()).collect();
            let mut rec = vec![];
            (t[ty - 1].3)(&n, &mut rec);
            for r in rec {
                let _ = writeln!(out, "{{\"e\":\"o\",\"case\":{},\"t\":{},{}", i, ty, &r[1..]);
            }
        } else {
            st().reset();
            let n: usize = w[4].parse().unwrap();
            if let Some(r) = narrow(w[1], w[2], w[3], n) {
                let _ = writeln!(out, "{{\"e\":\"n\",\"case\":{},\"el\":\"{}\",\"len\":\"{}\",\"k\":\"{}\",\"n\":{},{},\"live\":{},\"bad\":{}}}", i, w[1], w[2], w[3], limbs(n as u128), r,
                    st().blocks.iter().filter(|b| b.live).count(), strs(&std::mem::take(&mut st().bad)));
            }
        }
        let _ = out.flush();
    }
    std::fs::write(format!("{}.cur", outp), "done").unwrap();
}
