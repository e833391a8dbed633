mod elem;
mod out;
mod overflow;
#[macro_use]
mod structs;
mod gen_structs;
mod track;
mod ty;
mod world;

use elem::*;
use out::*;
use std::fs::{File, OpenOptions};
use std::io::Write;
use gen_structs::*;
use structs::*;
use track::*;
use ty::*;
use varlen::prelude::*;
use world::*;

#[global_allocator]
static GLOBAL: Global = Global;

macro_rules! menu {
    ($( $name:literal $t:ty : $($cap:ident)? ;)*) => {
        $( impl Menu for $t { $( menu!(@$cap $t); )? } )*
        pub fn types() -> Vec<(&'static str, String, usize, fn(usize) -> Box<dyn AnyWorld>, &'static str)> {
            vec![ $( ($name, <$t as Ty>::desc(), <$t as VarLen>::ALIGN, |i| Box::new(World::<$t>::new(i)) as Box<dyn AnyWorld>, concat!("", $(stringify!($cap))?)) ),* ]
        }
    };
    (@clone $t:ty) => {
        fn vclone_of(&'static self) -> Option<DynI<Self>> { Some(DynI::new(self.vclone())) }
        fn box_clone(b: &VBox<Self>) -> Option<VBox<Self>> { Some(b.clone()) }
    };
    (@copy $t:ty) => {
        menu!(@clone $t);
        fn vcopy_of(&'static self) -> Option<DynI<Self>> { Some(DynI::new(self.vcopy())) }
    };
}
type F<E> = FixedLen<E>;
menu! {
    "fix_u32" F<u32>: copy;
    "fix_unit" F<()>: copy;
    "fix_tok" F<Tok>: clone;
    "fix_ztok" F<ZTok>: clone;
    "fix_al32" F<Al32>: copy;
    "fix_nest" F<NestBox>: clone;
    "arr_u8" Array<u8>: copy;
    "arr_u8_8" Array<u8, u8>: copy;
    "arr_u16_8" Array<u16, u8>: copy;
    "arr_u8_16" Array<u8, u16>: copy;
    "arr_u128_32" Array<u128, u32>: copy;
    "arr_b3_64" Array<[u8; 3], u64>: copy;
    "arr_tok" Array<Tok>: clone;
    "arr_tok_8" Array<Tok, u8>: clone;
    "arr_btok_16" Array<BTok, u16>: clone;
    "arr_ntok_8" Array<NTok, u8>: ;
    "arr_ztok_8" Array<ZTok, u8>: clone;
    "arr_unit" Array<(), u8>: copy;
    "arr_z64_8" Array<[u64; 0], u8>: copy;
    "arr_al128_8" Array<Al128, u8>: copy;
    "arr_pair" Array<(u8, u32), u16>: copy;
    "arr_nest_8" Array<NestBox, u8>: clone;
    "str" Str: copy;
    "str_8" Str<u8>: copy;
    "str_16" Str<u16>: copy;
    "t2_tok_str" Tup2<F<Tok>, Str>: clone;
    "t2_str_u16" Tup2<Str<u8>, Array<u16, u8>>: copy;
    "t2_unit" Tup2<F<()>, F<()>>: copy;
    "t2_ztok" Tup2<F<ZTok>, Array<ZTok, u8>>: clone;
    "t2_plain_tok" Tup2<Array<u64, u8>, F<BTok>>: clone;
    "t2_ntok" Tup2<F<NTok>, Array<u8, u8>>: ;
    "t3_mix" Tup3<F<u8>, Array<Tok, u8>, Str<u16>>: clone;
    "t3_copy" Tup3<Str<u8>, F<u64>, Array<u8, u8>>: copy;
    "t3_last" Tup3<F<u8>, Array<u16, u8>, F<NTok>>: ;
    "t4_mix" Tup4<Array<u8, u8>, F<Tok>, Array<u32, u16>, Array<BTok, u8>>: clone;
    "t4_copy" Tup4<F<u16>, Str<u8>, Array<u64, u8>, Str<u32>>: copy;
    "t5_mix" Tup5<F<u8>, Array<Tok, u8>, Str<u8>, F<u64>, Array<Tok, u16>>: clone;
    "t5_copy" Tup5<Str<u8>, F<u8>, Array<u16, u8>, F<u32>, Array<u8, u64>>: copy;
    "t5_first" Tup5<F<NTok>, F<u8>, F<u8>, Str<u8>, Array<u8, u8>>: ;
    "t2_nested" Tup2<Tup3<F<u8>, Str<u8>, Array<Tok, u8>>, Tup2<F<Tok>, Array<u32, u8>>>: clone;
    "t2_deep" Tup2<Tup2<Tup2<F<Al32>, Str<u8>>, F<u8>>, Array<(u8, u32), u8>>: copy;
    "s1" S1: ;
    "s2" S2: ;
    "s3" S3: ;
    "s4" S4: ;
    "s5" S5: ;
    "s6" S6: ;
    "s7_8" S7<u8>: ;
    "s7_16" S7<u16>: ;
    "s8" S8: ;
    "s9" S9: ;
    "s10" S10: ;
    "s11" S11: ;
    "s12" S12: ;
    "s13" S13: ;
    "s14" S14: ;
    "s15" S15: ;
    "s16" S16: ;
    "t2_s2_s6" Tup2<S2, S6>: ;
    "t3_s9" Tup3<Str<u8>, S9, F<Tok>>: ;
    "n1" N1: copy;
    "n2" N2: ;
    "n2_8" N2<u8>: ;
    "n3" N3: ;
    "t2_n" Tup2<N1, N2<u8>>: ;
    "n_t2_n1" Tup2<F<u8>, N1>: copy;
    "g1" G1: ;
    "g2" G2: ;
    "g3" G3: ;
    "g4" G4: ;
    "g5" G5: ;
    "g6" G6: ;
    "g7" G7: ;
    "g8" G8: ;
    "g9" G9: ;
    "g10" G10: ;
    "g11" G11: ;
    "g12" G12: ;
    "g13" G13: ;
    "g14" G14: ;
    "g15" G15: ;
    "g16" G16: ;
    "g17" G17: ;
    "g18" G18: ;
    "g19" G19: ;
    "g20" G20: ;
    "g21" G21: ;
    "g22" G22: ;
    "g23" G23: ;
    "g24" G24: ;
    "g25" G25: ;
    "g26" G26: ;
    "g27" G27: ;
    "g28" G28: ;
    "g29" G29: ;
    "g30" G30: ;
    "g31" G31: ;
    "g32" G32: ;
    "g33" G33: ;
    "g34" G34: ;
    "g35" G35: ;
    "g36" G36: ;
    "t2_g2" Tup2<G2, Str<u8>>: ;
    "t2_g3" Tup2<F<u8>, G3>: ;
    "t2_g4" Tup2<G4, Str>: ;
    "t2_g5" Tup2<Str<u8>, G5>: ;
    "t2_g7" Tup2<G7, F<u64>>: ;
    "t3_g13" Tup3<F<u8>, G13, G14>: ;
    "t2_s15" Tup2<S15, Str<u8>>: ;
    "t2_s14" Tup2<F<u8>, S14>: ;
    "s17" S17: ;
    "s18" S18: ;
    "n4" N4: ;
    "n5" N5: ;
    "t2_s17" Tup2<S17, Str<u8>>: ;
    "t2_s11" Tup2<S11, Str<u8>>: ;
    "t2_s16" Tup2<F<u8>, S16>: ;
    "t2_n4" Tup2<Str<u8>, N4>: ;
    "t2_n5" Tup2<N5, F<u8>>: ;
    "t2_s18" Tup2<S18, S18>: ;
    "t2_s12" Tup2<S12, F<u8>>: ;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("types") => {
            for (i, (n, d, a, _, c)) in types().iter().enumerate() {
                println!("{{\"i\":{},\"name\":\"{}\",\"align\":{},\"cap\":\"{}\",\"d\":{}}}", i + 1, n, a, c, d);
            }
        }
        Some("otypes") => overflow::types(),
        Some("overflow") => overflow::run(&args[2], &args[3], args[4].parse().unwrap()),
        Some("run") => run(&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap()),
        _ => std::process::exit(2),
    }
}

/// run SCRIPTS OUTPREFIX FIRST_SCRIPT OBJECTS_SO_FAR
fn run(scripts: &str, prefix: &str, first: usize, base: i64) {
    std::panic::set_hook(Box::new(|i| {
        window_off();
        set_panic_message(i.to_string());
    }));
    let text = std::fs::read_to_string(scripts).unwrap();
    let ap = |s: &str| OpenOptions::new().create(true).append(true).open(format!("{}.{}", prefix, s)).unwrap();
    let mut o = Out { ev: ap("ev"), ob: ap("ob"), cur: File::create(format!("{}.cur", prefix)).unwrap(), objs: Default::default(), base };
    let tys = types();
    let mut n = 0;
    let mut w: Option<Box<dyn AnyWorld>> = None;
    for line in text.lines().chain(["S end"]) {
        if let Some(rest) = line.strip_prefix("S ") {
            if let Some(w) = w.as_mut() {
                finish(w, &mut o);
            }
            w = None;
            n += 1;
            if n <= first || rest == "end" {
                continue;
            }
            let f: Vec<&str> = rest.split_whitespace().collect();
            let t = tys.iter().position(|t| t.0 == f[1]).expect("unknown type");
            o.now(&format!("{} S {}", n, rest));
            st().reset();
            reset_arena();
            o.objs.retain(|_, _| true);
            let mut world = tys[t].3(t + 1);
            let snap = world.snapshot(&mut o);
            o.event(&format!("{{\"e\":\"reset\",\"k\":\"reset\",\"out\":\"ok\",\"n\":{},\"name\":\"{}\",\"ty\":{},\"s\":{}}}", n, f[0], t + 1, snap));
            w = Some(world);
        } else if n > first {
            if let Some(w) = w.as_mut() {
                o.now(&format!("{} {}", n, line));
                w.run(&Op::parse(line), &mut o);
            }
        }
    }
    if let Some(w) = w.as_mut() {
        finish(w, &mut o);
    }
    o.now("done");
    let _ = o.ev.flush();
}

fn finish(w: &mut Box<dyn AnyWorld>, o: &mut Out) {
    for s in w.slots() {
        if s.starts_with('s') {
            w.run(&Op::parse("free"), o);
        }
        if s.starts_with('r') {
            for c in ["b", "o"] {
                let d = format!("{}{}", c, &s[1..]);
                let l = format!("unraw {} {}", s, d);
                o.now(&format!("F {}", l));
                if w.run(&Op::parse(&l), o) {
                    w.run(&Op::parse(&format!("drop {}", d)), o);
                    break;
                }
            }
            continue;
        }
        let l = format!("drop {}", s);
        o.now(&format!("F {}", l));
        w.run(&Op::parse(&l), o);
    }
    st().check_all();
    let snap = w.snapshot(o);
    let bad = strs(&std::mem::take(&mut st().bad));
    o.event(&format!("{{\"e\":\"end\",\"k\":\"end\",\"out\":\"ok\",\"bad\":{},\"s\":{}}}", bad, snap));
}
