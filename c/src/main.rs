#![allow(clippy::all)]
mod pair;
mod ses;
#[path = "../../a/src/pki.rs"]
#[allow(dead_code)]
mod pki;
#[allow(dead_code)]
mod srv;
mod t_comp;
mod t_end;
mod t_exec;
mod t_hs;
mod t_rec;
mod t_sdk;
mod t_ses;
mod t_ver;
mod t_wasm;
mod util;

#[global_allocator]
static A: vfw::CountingAlloc = vfw::CountingAlloc;

fn main() {
    vfw::run(&[
        ("M01", t_comp::m01),
        ("M02", t_comp::m02),
        ("M03", t_comp::m03),
        ("M04", t_comp::m04),
        ("M05", t_rec::m05),
        ("M06", t_rec::m06),
        ("M07", t_hs::m07),
        ("M08", t_ver::m08),
        ("M09", t_ses::m09),
        ("M10", t_end::m10),
        ("M11", t_sdk::m11),
        ("M12", t_wasm::m12),
        ("M13", t_exec::m13),
    ])
}
