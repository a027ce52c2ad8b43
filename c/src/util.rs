//! Small helpers of all monitors.
use std::{future::Future, time::Duration};
use vfw::Fail;

/// Runs both parties on one thread. Time is simulated: it advances only when nobody can move, so
/// a minute passes at once if everybody waits for somebody else, which is a hang.
pub fn run<T>(f: impl Future<Output = T>) -> Result<T, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| Fail::Harness(e.to_string()))?;
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), f).await });
    rt.shutdown_timeout(Duration::from_secs(1));
    r.map_err(|_| Fail::from("a party waits forever"))
}
/// HMAC-SHA256.
pub fn hm(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let k = ring::hmac::Key::new(ring::hmac::HMAC_SHA256, key);
    let mut c = ring::hmac::Context::with_key(&k);
    parts.iter().for_each(|p| c.update(p));
    c.sign().as_ref().try_into().unwrap()
}
/// P_SHA256 of RFC 5246, section 5.
pub fn prf(secret: &[u8], label: &[u8], seed: &[u8], n: usize) -> Vec<u8> {
    let mut a = hm(secret, &[label, seed]);
    let mut out = vec![];
    while out.len() < n {
        out.extend_from_slice(&hm(secret, &[&a, label, seed]));
        a = hm(secret, &[&a]);
    }
    out.truncate(n);
    out
}
pub fn sha(b: &[u8]) -> [u8; 32] {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().try_into().unwrap()
}
/// Bits of bytes, least significant first.
pub fn bits(b: &[u8]) -> Vec<bool> {
    mpzsim::memory::bits_of(b)
}
/// Removes every hook when a case ends.
pub struct Unhook;
impl Drop for Unhook {
    fn drop(&mut self) {
        mpzsim::watch::take();
        mpzsim::watch::set_fault(None);
        mpzsim::watch::set_share_fault(None);
        mpzsim::watch::set_share_zero(None);
        mpzsim::watch::set_input_fault(None);
        mpzsim::watch::set_assign_fault(None);
        mpzsim::watch::set_agree(false);
    }
}
/// Error chain as text.
pub fn chain(e: &(dyn std::error::Error + 'static)) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}
