//! Trace output.
use crate::ty::Leaf;
use std::collections::HashMap;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};

pub struct Out {
    pub ev: File,
    pub ob: File,
    pub cur: File,
    pub objs: HashMap<String, i64>,
    pub base: i64,
}
pub fn list<T: ToString>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
pub fn esc(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_graphic() && c != '"' && c != '\\' || c == ' ' { c } else { '_' }).collect()
}
pub fn leaf_json(l: &Leaf) -> String {
    format!("{{\"o\":{},\"m\":{},\"mn\":{},\"n\":{},\"l\":{},\"v\":{},\"t\":{},\"z\":{},\"x\":{}}}", l.o, l.m, l.mn, l.n, l.l, strs(&l.v), list(&l.t), l.z, l.x)
}
pub fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","))
}
impl Out {
    pub fn event(&mut self, s: &str) {
        let _ = self.ev.write_all(format!("{}\n", s).as_bytes());
    }
    pub fn now(&mut self, s: &str) {
        let _ = self.cur.seek(SeekFrom::Start(0));
        let mut b = format!("{:<400}", s).into_bytes();
        b.truncate(400);
        let _ = self.cur.write_all(&b);
    }
    /// Equal projections get equal numbers.
    pub fn object(&mut self, tid: usize, size: usize, lf: &[Leaf]) -> i64 {
        let nb: usize = lf.iter().map(|l| l.nb).sum();
        let z: usize = lf.iter().map(|l| l.z).sum();
        let mut tk: Vec<u32> = lf.iter().flat_map(|l| l.t.iter().copied()).collect();
        tk.sort();
        let leaves: Vec<String> = lf.iter().map(leaf_json).collect();
        let j = format!("\"ty\":{},\"sz\":{},\"nb\":{},\"z\":{},\"tk\":{},\"lf\":[{}]", tid, crate::ty::clampn(size), nb, z.min(2_000_000_000), list(&tk), leaves.join(","));
        if let Some(i) = self.objs.get(&j) {
            return *i;
        }
        let id = self.base + self.objs.len() as i64 + 1;
        let _ = self.ob.write_all(format!("{{\"i\":{},{}}}\n", id, j).as_bytes());
        self.objs.insert(j, id);
        id
    }
}

static mut MSG: String = String::new();
#[allow(static_mut_refs)]
pub fn set_panic_message(s: String) {
    unsafe { MSG = s }
}
#[allow(static_mut_refs)]
pub fn take_panic_message() -> String {
    let mut s = esc(&unsafe { std::mem::take(&mut MSG) });
    s.truncate(120);
    s
}
