//! scratch inspection
use crate::c::{self, *};
use crate::tok::*;
use crate::w::Rng;
pub fn run(_j: &str, _arg: u64, _r: &mut Rng) {
    crate::refc::selftest();
    let t = fresh("t");
    let mut v = c::mech_list(t.slot).must("ml");
    v.sort();
    for m in v {
        let i = c::mech_info(t.slot, m).must("mi");
        eprintln!("{} {:#x} {}..{} {:#x}", ckmn(m), m, i.ulMinKeySize, i.ulMaxKeySize, i.flags);
    }
}
