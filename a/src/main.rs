#![allow(clippy::all)]
mod chain;
mod parse;
mod pki;
mod registry;
mod t_crypto;
mod t_fix;
mod t_msgs;
mod t_pki;
mod t_records;
mod wire;

#[global_allocator]
static A: vfw::CountingAlloc = vfw::CountingAlloc;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("__random") {
        return t_crypto::emit_random();
    }
    vfw::run(&[
        ("F01", t_fix::f01),
        ("F02", t_fix::f02),
        ("F03", t_fix::f03),
        ("F04", t_fix::f04),
        ("T01", t_msgs::t01),
        ("T02", t_msgs::t02),
        ("T03", t_records::t03),
        ("T04", t_records::t04),
        ("T05", t_records::t05),
        ("T06", t_records::t06),
        ("T07", t_crypto::t07),
        ("T08", t_records::t08),
        ("T09", t_pki::t09),
        ("T10", t_pki::t10),
        ("T11", t_pki::t11),
        ("T12", t_pki::t12),
        ("T13", t_crypto::t13),
        ("T14", t_crypto::t14),
        ("T15", t_msgs::t15),
        ("T16", t_msgs::t16),
        ("T17", t_crypto::t17),
        ("T18", t_crypto::t18),
        ("T19", t_msgs::t19),
        ("T20", t_crypto::t20),
        ("T21", t_msgs::t21),
    ])
}
