#![allow(clippy::all)]
#[path = "../../a/src/chain.rs"]
#[allow(dead_code)]
mod chain;
#[path = "../../a/src/pki.rs"]
#[allow(dead_code)]
mod pki;
#[path = "../../a/src/wire.rs"]
#[allow(dead_code)]
mod wire;
mod doc;
mod ecc;
mod t_format;
mod t_att;
mod t_conn;
mod t_hash;
mod t_sdk;
mod t_serde;
mod t_tls;
mod t_transcript;

#[global_allocator]
static A: vfw::CountingAlloc = vfw::CountingAlloc;

fn main() {
    vfw::run(&[
        ("C01", t_hash::c01),
        ("C02", t_hash::c02),
        ("C03", t_transcript::c03),
        ("C04", t_transcript::c04),
        ("C05", t_transcript::c05),
        ("C06", t_transcript::c06),
        ("C07", t_conn::c07),
        ("C08", t_serde::c08),
        ("C09", t_tls::c09),
        ("C10", t_att::c10),
        ("C11", t_att::c11),
        ("C12", t_att::c12),
        ("C13", t_att::c13),
        ("C14", t_format::c14),
        ("C15", t_sdk::c15),
        ("C16", t_serde::c16),
    ])
}
