//! The joint computations of the key schedule, cipher, dual execution and key exchange.
use crate::util::{Unhook, bits, prf, run};
use cipher::{Cipher, aes::Aes128};
use tlsn_deap::{Deap, Role};
use hmac_sha256::{MSMode, NetworkMode, Prf, PrfConfig, PrfOutput};
use key_exchange::{KeyExchange, MpcKeyExchange};
use mpz_common::context::test_st_context;
use mpz_core::{Block, bitvec::BitVec};
use mpz_garble::protocol::semihonest::{Evaluator, Garbler};
use mpz_ideal_vm::IdealVm;
use mpz_memory_core::{
    Array, DecodeFuture, DecodeFutureTyped, MemoryExt, Slice, Vector, ViewExt,
    binary::{Binary, U8},
};
use mpzsim::ot::Delta as OtDelta;
use mpz_vm_core::{Call, Execute, Vm, memory::Memory};
use mpz_fields::p256::P256;
use mpz_share_conversion::ideal::{IdealShareConvertReceiver, IdealShareConvertSender, ideal_share_convert};
use mpz_zk::{Prover, Verifier, ZkConfig};
use mpzsim::{
    circuits::{Circuit, CircuitBuilder},
    watch::{self, Event, Role as W},
};
use std::sync::Arc;
use vfw::{Cx, Fail, Obs, R, ensure, ensure_eq};

fn vme(e: impl std::fmt::Display) -> Fail {
    Fail::from(format!("computation failed: {e}"))
}
type Dec<const N: usize> = DecodeFutureTyped<BitVec, [u8; N]>;

// ---------------------------------------------------------------- M01

struct Outs {
    v: [Option<Vec<u8>>; 6],
    f: (Dec<16>, Dec<16>, Dec<4>, Dec<4>, Dec<12>, Dec<12>),
}
impl Outs {
    fn new(vm: &mut dyn Vm<Binary>, o: PrfOutput) -> Result<Self, Fail> {
        Ok(Outs {
            v: Default::default(),
            f: (
                vm.decode(o.keys.client_write_key).map_err(vme)?,
                vm.decode(o.keys.server_write_key).map_err(vme)?,
                vm.decode(o.keys.client_iv).map_err(vme)?,
                vm.decode(o.keys.server_iv).map_err(vme)?,
                vm.decode(o.cf_vd).map_err(vme)?,
                vm.decode(o.sf_vd).map_err(vme)?,
            ),
        })
    }
    fn poll(&mut self) {
        macro_rules! one {
            ($i:tt) => {
                if self.v[$i].is_none() {
                    if let Ok(Some(x)) = self.f.$i.try_recv() {
                        self.v[$i] = Some(x.to_vec());
                    }
                }
            };
        }
        one!(0);
        one!(1);
        one!(2);
        one!(3);
        one!(4);
        one!(5);
    }
}
const NAMES: [&str; 6] = ["client write key", "server write key", "client IV", "server IV", "client finished", "server finished"];

/// SHA-256 chaining value after one block.
fn state_after(block: &[u8; 64]) -> [u32; 8] {
    let mut s = [
        0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    sha2::compress256(&mut s, &[(*block).into()]);
    s
}
fn padded(key: &[u8], m: u8) -> [u8; 64] {
    let mut b = [m; 64];
    key.iter().zip(b.iter_mut()).for_each(|(k, b)| *b ^= k);
    b
}
fn word_bits(s: &[u32; 8]) -> Vec<bool> {
    s.iter().flat_map(|w| (0..32).map(move |i| w >> i & 1 == 1)).collect()
}
fn contains(hay: &[bool], needle: &[bool]) -> bool {
    hay.len() >= needle.len() && hay.windows(needle.len()).any(|w| w == needle)
}

pub fn m01(cx: &mut Cx) {
    cx.rule("A case runs the key derivation of both parties over ideal machines with the inputs set in a random legal order and random flushes in between; after every step each decoded output is compared with an independent RFC 5246/7627 PRF (ring HMAC) and must be absent while an input it needs is not set. A recording of everything decoded is searched for the master secret, premaster secret and outer HMAC states.");
    cx.assume("The two-party computation libraries are replaced by ideal stand-ins; cargo resolves tlsn's crates against them.");
    cx.require("derivations completed", 100);
    cx.require("modes: Reduced", 20);
    cx.require("modes: Normal", 20);
    cx.require("outputs withheld before their inputs", 100);
    cx.cases("derive", 3000, 60000, |r, i, o| derive(r, i, o));
    cx.cases("misuse", 60, 2000, |r, _, o| misuse(r, o));
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Set {
    Server,
    Session,
    Cf,
    Sf,
    Flush,
}
fn derive(r: &mut R, i: u64, o: &mut Obs) -> Result<(), Fail> {
    let _h = Unhook;
    let network = if i % 2 == 0 { NetworkMode::Reduced } else { NetworkMode::Normal };
    let ms_mode = match i / 2 % 3 {
        0 => MSMode::Standard,
        1 => MSMode::Extended,
        _ => MSMode::Direct,
    };
    let fill = |r: &mut R| -> [u8; 32] {
        match r.below(8) {
            0 => [0; 32],
            1 => [0xff; 32],
            2 => {
                let mut a = r.arr();
                a[..16].fill(0);
                a
            }
            _ => r.arr(),
        }
    };
    let (pms, cr, sr, sh, cf, sf) = (fill(r), fill(r), fill(r), fill(r), fill(r), fill(r));
    let ms: [u8; 48] = match ms_mode {
        MSMode::Standard => prf(&pms, b"master secret", &[cr, sr].concat(), 48),
        MSMode::Extended => prf(&pms, b"extended master secret", &sh, 48),
        MSMode::Direct => r.bytes(48),
    }
    .try_into()
    .unwrap();
    let ke = prf(&ms, b"key expansion", &[sr, cr].concat(), 40);
    let want: [Vec<u8>; 6] = [
        ke[..16].to_vec(),
        ke[16..32].to_vec(),
        ke[32..36].to_vec(),
        ke[36..].to_vec(),
        prf(&ms, b"client finished", &cf, 12),
        prf(&ms, b"server finished", &sf, 12),
    ];
    let mut steps = vec![Set::Server, Set::Cf, Set::Sf];
    if matches!(ms_mode, MSMode::Extended) {
        steps.push(Set::Session);
    }
    r.shuffle(&mut steps);
    // whether another step, and how many flushes, between the settings
    let mut plan = vec![];
    for s in steps {
        for _ in 0..r.below(3) {
            plan.push(Set::Flush);
        }
        plan.push(s);
    }
    o.input(vfw::serde_json::json!({"network": format!("{network:?}"), "ms": format!("{ms_mode:?}"), "plan": format!("{plan:?}")}));
    o.see(format!("modes: {network:?}"));
    o.see(format!("modes: {ms_mode:?}"));
    o.key(format!("{network:?}{ms_mode:?}{plan:?}"));
    // the secret is private to the leader, or public
    let secret_private = r.bool();
    watch::start();
    let mut withheld = 0;
    let res = run(async {
        let (mut ca, mut cb) = test_st_context(8);
        let (ctx_a, ctx_b) = (&mut ca, &mut cb);
        let (mut va, mut vb) = (IdealVm::new(), IdealVm::new());
        let cfg = PrfConfig::new(network, ms_mode);
        let (mut pa, mut pb) = (Prf::new(cfg), Prf::new(cfg));
        fn secret<const N: usize>(vm: &mut IdealVm, private: bool, mine: bool, s: [u8; N]) -> Result<Array<U8, N>, Fail> {
            let x: Array<U8, N> = vm.alloc().map_err(vme)?;
            match (private, mine) {
                (false, _) => vm.mark_public(x),
                (true, true) => vm.mark_private(x),
                (true, false) => vm.mark_blind(x),
            }
            .map_err(vme)?;
            if !private || mine {
                vm.assign(x, s).map_err(vme)?;
            }
            vm.commit(x).map_err(vme)?;
            Ok(x)
        }
        let (oa, ob) = if matches!(ms_mode, MSMode::Direct) {
            let a = secret(&mut va, secret_private, true, ms)?;
            let b = secret(&mut vb, secret_private, false, ms)?;
            (pa.alloc_ms(&mut va, a).map_err(vme)?, pb.alloc_ms(&mut vb, b).map_err(vme)?)
        } else {
            let a = secret(&mut va, secret_private, true, pms)?;
            let b = secret(&mut vb, secret_private, false, pms)?;
            (pa.alloc_pms(&mut va, a).map_err(vme)?, pb.alloc_pms(&mut vb, b).map_err(vme)?)
        };
        let mut fa = Outs::new(&mut va, oa)?;
        let mut fb = Outs::new(&mut vb, ob)?;
        pa.set_client_random(cr);
        pb.set_client_random(cr);
        let mut have = (false, false, false, matches!(ms_mode, MSMode::Standard | MSMode::Direct));
        let check = |fa: &mut Outs, fb: &mut Outs, have: (bool, bool, bool, bool), withheld: &mut u64, full: bool| -> Result<(), Fail> {
            fa.poll();
            fb.poll();
            // everything hangs off the master secret, which hangs off the randoms or the session hash
            let ms_ok = match ms_mode {
                MSMode::Standard => have.0,
                MSMode::Extended => have.3,
                MSMode::Direct => true,
            };
            let ok = [ms_ok && have.0, ms_ok && have.0, ms_ok && have.0, ms_ok && have.0, ms_ok && have.1, ms_ok && have.2];
            for (who, f) in [("first", &*fa), ("second", &*fb)] {
                for k in 0..6 {
                    match &f.v[k] {
                        Some(v) => {
                            ensure!(ok[k], "an output was obtained before its inputs were set: {} by the {who} party", NAMES[k]);
                            ensure_eq!(*v, want[k], "{} of the {who} party", NAMES[k]);
                        }
                        None => {
                            ensure!(!(full && ok[k]), "an output is missing: {} of the {who} party", NAMES[k]);
                            *withheld += !ok[k] as u64;
                        }
                    }
                }
            }
            Ok(())
        };
        for s in plan.iter().copied().chain([Set::Flush; 12]) {
            match s {
                Set::Server => {
                    pa.set_server_random(sr).map_err(vme)?;
                    pb.set_server_random(sr).map_err(vme)?;
                    have.0 = true;
                }
                Set::Session => {
                    pa.set_session_hash(sh.to_vec()).map_err(vme)?;
                    pb.set_session_hash(sh.to_vec()).map_err(vme)?;
                    have.3 = true;
                }
                Set::Cf => {
                    pa.set_cf_hash(cf).map_err(vme)?;
                    pb.set_cf_hash(cf).map_err(vme)?;
                    have.1 = true;
                }
                Set::Sf => {
                    pa.set_sf_hash(sf).map_err(vme)?;
                    pb.set_sf_hash(sf).map_err(vme)?;
                    have.2 = true;
                }
                Set::Flush => {
                    let (x, y) = futures::join!(
                        async {
                            pa.flush(&mut va).map_err(vme)?;
                            va.execute_all(ctx_a).await.map_err(vme)
                        },
                        async {
                            pb.flush(&mut vb).map_err(vme)?;
                            vb.execute_all(ctx_b).await.map_err(vme)
                        }
                    );
                    x?;
                    y?;
                }
            }
            check(&mut fa, &mut fb, have, &mut withheld, false)?;
        }
        check(&mut fa, &mut fb, have, &mut withheld, true)?;
        ensure!(!pa.wants_flush() && !pb.wants_flush(), "the derivation is complete but still wants to be flushed");
        Ok(())
    })?;
    res?;
    o.add("outputs withheld before their inputs", withheld);
    o.see("derivations completed");
    // nothing secret was ever opened
    let log = watch::take();
    let mut secrets = vec![("master secret", bits(&ms[..16])), ("master secret", bits(&ms[32..]))];
    secrets.push(("outer state of the master secret", word_bits(&state_after(&padded(&ms, 0x5c)))));
    if !matches!(ms_mode, MSMode::Direct) {
        if pms[..16] != pms[16..] && pms[..16] != [0; 16] {
            secrets.push(("premaster secret", bits(&pms)));
        }
        secrets.push(("outer state of the premaster secret", word_bits(&state_after(&padded(&pms, 0x5c)))));
    }
    let mut opened = 0;
    for e in &log {
        if let Event::Decode { bits: b, .. } = e {
            opened += 1;
            for (n, s) in &secrets {
                ensure!(!contains(b, s), "a secret of the key derivation was opened: {n}");
            }
        }
    }
    o.add("values opened", opened);
    // the reduced mode opens inner states and A values, the normal mode nothing but the outputs
    if matches!(network, NetworkMode::Normal) {
        ensure_eq!(opened, 12, "the normal mode opened other values than its outputs");
    }
    Ok(())
}
fn misuse(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let network = if r.bool() { NetworkMode::Reduced } else { NetworkMode::Normal };
    let ms_mode = *r.pick(&[MSMode::Standard, MSMode::Extended, MSMode::Direct]);
    let mut vm = IdealVm::new();
    let mut p = Prf::new(PrfConfig::new(network, ms_mode));
    let direct = matches!(ms_mode, MSMode::Direct);
    o.key(format!("{network:?}{ms_mode:?}"));
    o.see("misuse refused");
    ensure!(p.set_server_random([0; 32]).is_err() && p.set_cf_hash([0; 32]).is_err() && p.set_sf_hash([0; 32]).is_err() && p.set_session_hash(vec![0; 32]).is_err(),
        "an input was accepted before allocation");
    ensure!(!p.wants_flush() && p.flush(&mut vm).is_ok(), "nothing to flush before allocation");
    let pms: Array<U8, 32> = vm.alloc().map_err(vme)?;
    let ms: Array<U8, 48> = vm.alloc().map_err(vme)?;
    if direct {
        ensure!(p.alloc_pms(&mut vm, pms).is_err(), "a premaster secret was accepted in direct mode");
        p.alloc_ms(&mut vm, ms).map_err(vme)?;
    } else {
        ensure!(p.alloc_ms(&mut vm, ms).is_err(), "a master secret was accepted in a mode which derives it");
        p.alloc_pms(&mut vm, pms).map_err(vme)?;
        if !matches!(ms_mode, MSMode::Extended) {
            ensure!(p.set_session_hash(vec![1; 32]).is_err(), "a session hash was accepted without extended master secret");
        }
        let mut q = Prf::new(PrfConfig::new(network, ms_mode));
        q.alloc_pms(&mut vm, pms).map_err(vme)?;
        ensure!(q.alloc_pms(&mut vm, pms).is_err(), "allocated twice");
    }
    Ok(())
}

// ---------------------------------------------------------------- M02

fn aes(k: &[u8; 16], b: &[u8; 16]) -> [u8; 16] {
    ::aes::encrypt(&::aes::expand(k), b)
}
fn ctr_block(k: &[u8; 16], iv: &[u8; 4], nonce: &[u8; 8], ctr: u32) -> [u8; 16] {
    let mut b = [0; 16];
    b[..4].copy_from_slice(iv);
    b[4..12].copy_from_slice(nonce);
    b[12..].copy_from_slice(&ctr.to_be_bytes());
    aes(k, &b)
}
pub fn m02(cx: &mut Cx) {
    cx.rule("A case lets both parties allocate single blocks, counter blocks and key streams of random length, consume and apply them in random pieces with their own nonces and counters, and compares every decoded byte with AES-128 computed directly (itself compared with ring's AES-GCM); key stream which was consumed must not be available again, and pieces of one stream must be made of different blocks.");
    cx.assume("The two-party computation libraries are replaced by ideal stand-ins.");
    cx.require("keystream pieces", 200);
    cx.require("exhausted streams refused", 50);
    cx.cases("stream", 3000, 60000, |r, _, o| stream(r, o));
    cx.cases("reference", 20, 100, |r, _, o| {
        // the reference against ring
        let (k, iv, n): ([u8; 16], [u8; 4], [u8; 8]) = (r.arr(), r.arr(), r.arr());
        let len = r.range(1, 200);
        let key = ring::aead::LessSafeKey::new(ring::aead::UnboundKey::new(&ring::aead::AES_128_GCM, &k).unwrap());
        let mut nn = [0; 12];
        nn[..4].copy_from_slice(&iv);
        nn[4..].copy_from_slice(&n);
        let mut b = vec![0; len];
        let _ = key.seal_in_place_separate_tag(ring::aead::Nonce::assume_unique_for_key(nn), ring::aead::Aad::empty(), &mut b).unwrap();
        for (i, c) in b.chunks(16).enumerate() {
            if ctr_block(&k, &iv, &n, 2 + i as u32)[..c.len()] != *c {
                return vfw::harness("the reference cipher differs from ring");
            }
        }
        o.key(b);
        Ok(())
    });
}
fn stream(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    let (k, iv): ([u8; 16], [u8; 4]) = (r.arr(), r.arr());
    let private = r.bool();
    let total = r.range(1, 12);
    let nblocks = r.below(3);
    let nctr = r.below(3);
    let tail = r.below(16);
    struct Piece {
        len: usize,
        apply: bool,
        nonce: [u8; 8],
        start: u32,
        msg: Vec<u8>,
        msg_private: bool,
    }
    let mut pieces = vec![];
    let mut left = total;
    while left > 0 && pieces.len() < 6 {
        let n = r.range(1, left);
        left -= n;
        let apply = r.bool();
        let start = *r.pick(&[1u32, 2, 0, u32::MAX - 20, 7]);
        let start = if r.bool() { start } else { r.u32() >> 1 };
        pieces.push(Piece {
            len: if apply { 16 * n } else { 16 * (n - 1) + r.range(1, 16) },
            apply,
            nonce: if r.chance(1, 4) { [0; 8] } else { r.arr() },
            start,
            msg: r.bytes(16 * n),
            msg_private: r.bool(),
        });
    }
    let blocks: Vec<[u8; 16]> = (0..nblocks).map(|_| r.arr()).collect();
    let ctrs: Vec<([u8; 8], u32)> = (0..nctr).map(|_| (r.arr(), r.u32())).collect();
    o.input(vfw::serde_json::json!({"total": total, "pieces": pieces.iter().map(|p| (p.len, p.apply)).collect::<Vec<_>>(), "blocks": nblocks, "counter blocks": nctr}));
    o.key(format!("{total}{private}{nblocks}{nctr}{:?}", pieces.iter().map(|p| (p.len, p.apply, p.start)).collect::<Vec<_>>()));
    // the parties agree on everything; `mine` says who owns private values
    let party = |mine: bool| {
        let (pieces, blocks, ctrs) = (&pieces, &blocks, &ctrs);
        move |mut vm: IdealVm, mut ctx: mpz_common::Context| async move {
            let put = |vm: &mut IdealVm, v: &[u8], private: bool| -> Result<Vector<U8>, Fail> {
                let x: Vector<U8> = vm.alloc_vec(v.len()).map_err(vme)?;
                match (private, mine) {
                    (false, _) => vm.mark_public(x),
                    (true, true) => vm.mark_private(x),
                    (true, false) => vm.mark_blind(x),
                }
                .map_err(vme)?;
                if !private || mine {
                    vm.assign(x, v.to_vec()).map_err(vme)?;
                }
                vm.commit(x).map_err(vme)?;
                Ok(x)
            };
            let key = Array::<U8, 16>::try_from(put(&mut vm, &k, private)?).map_err(|_| Fail::Harness("key".into()))?;
            let ivr = Array::<U8, 4>::try_from(put(&mut vm, &iv, private)?).map_err(|_| Fail::Harness("iv".into()))?;
            let mut c = Aes128::default();
            ensure!(c.alloc_ctr_block(&mut vm).is_err() && c.alloc_keystream(&mut vm, 16).is_err(), "key stream without a key");
            c.set_key(key);
            ensure!(c.alloc_ctr_block(&mut vm).is_err(), "key stream without an IV");
            c.set_iv(ivr);
            let mut got: Vec<(String, DecodeFutureTyped<BitVec, Vec<u8>>, Vec<u8>)> = vec![];
            let mut ks = c.alloc_keystream(&mut vm, if total == 1 { 1 } else { 16 * (total - 1) + 1 + tail }).map_err(vme)?;
            for (i, b) in blocks.iter().enumerate() {
                let x = put(&mut vm, b, i % 2 == 1)?;
                let x = Array::<U8, 16>::try_from(x).map_err(|_| Fail::Harness("block".into()))?;
                let out = c.alloc_block(&mut vm, x).map_err(vme)?;
                got.push(("block".into(), vm.decode(Vector::<U8>::from(out)).map_err(vme)?, aes(&k, b).to_vec()));
            }
            for (n, ct) in ctrs {
                let b = c.alloc_ctr_block(&mut vm).map_err(vme)?;
                vm.assign(b.explicit_nonce, *n).map_err(vme)?;
                vm.commit(b.explicit_nonce).map_err(vme)?;
                vm.assign(b.counter, ct.to_be_bytes()).map_err(vme)?;
                vm.commit(b.counter).map_err(vme)?;
                got.push(("counter block".into(), vm.decode(Vector::<U8>::from(b.output)).map_err(vme)?, ctr_block(&k, &iv, n, *ct).to_vec()));
            }
            let mut left = total;
            for (i, p) in pieces.iter().enumerate() {
                ensure!(ks.consume(16 * left + 1).is_err(), "more key stream than there is");
                let part = ks.consume(p.len).map_err(vme)?;
                left -= p.len.div_ceil(16);
                let mut ct = p.start;
                part.assign(&mut vm, p.nonce, || {
                    let c = ct;
                    ct = ct.wrapping_add(1);
                    c.to_be_bytes()
                })
                .map_err(|e| Fail::from(format!("key stream is assigned twice: {e}")))?;
                let mut stream: Vec<u8> =
                    (0..p.len.div_ceil(16)).flat_map(|j| ctr_block(&k, &iv, &p.nonce, p.start.wrapping_add(j as u32))).collect();
                if p.apply {
                    let x = put(&mut vm, &p.msg, p.msg_private)?;
                    let short = x.get(0..p.len - 1).unwrap();
                    ensure!(part.apply(&mut vm, short).is_err(), "key stream was applied to a message of another length");
                    let out = part.apply(&mut vm, x).map_err(vme)?;
                    stream.iter_mut().zip(&p.msg).for_each(|(s, m)| *s ^= m);
                    got.push((format!("ciphertext {i}"), vm.decode(out).map_err(vme)?, stream));
                } else {
                    ensure!(part.to_vector(&mut vm, 0).is_err(), "an empty piece of key stream");
                    ensure!(part.to_vector(&mut vm, p.len + 16).is_err(), "a piece of key stream longer than its blocks");
                    let out = part.to_vector(&mut vm, p.len).map_err(vme)?;
                    stream.truncate(p.len);
                    got.push((format!("key stream {i}"), vm.decode(out).map_err(vme)?, stream));
                }
            }
            if left == 0 {
                ensure!(ks.consume(1).is_err(), "key stream beyond its end");
            }
            for _ in 0..3 {
                vm.execute_all(&mut ctx).await.map_err(vme)?;
            }
            for (n, mut f, want) in got {
                let v = f.try_recv().map_err(vme)?;
                let Some(v) = v else { return Err(Fail::from(format!("nothing was computed: {n}"))) };
                ensure_eq!(v, want, "{n}");
            }
            Ok::<_, Fail>(left)
        }
    };
    let left = run(async {
        let (ca, cb) = test_st_context(8);
        let (a, b) = futures::join!(party(true)(IdealVm::new(), ca), party(false)(IdealVm::new(), cb));
        b?;
        a
    })??;
    o.add("keystream pieces", pieces.len() as u64);
    if left == 0 {
        o.see("exhausted streams refused");
    }
    Ok(())
}

// ---------------------------------------------------------------- M03

type L = Deap<Garbler<()>, Prover<()>>;
type F = Deap<Evaluator<()>, Verifier<()>>;
fn delta() -> OtDelta {
    OtDelta::new(Block::ZERO)
}
fn leader_vm() -> L {
    Deap::new(Role::Leader, Garbler::new((), [0; 16], delta()), Prover::new(ZkConfig, ()))
}
fn follower_vm() -> F {
    Deap::new(Role::Follower, Evaluator::new(()), Verifier::new(ZkConfig, delta(), ()))
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Own {
    Leader,
    Follower,
    Public,
}
#[derive(Clone, Debug)]
enum Op {
    /// Allocate and set `n` bits.
    Input(Own, Vec<bool>),
    /// A random circuit over pieces of earlier values.
    Call(usize, Vec<(usize, usize, usize)>),
    /// Decode a piece of an earlier value.
    Decode(usize, usize, usize),
    /// Run.
    Exec,
    /// Several memory slots that are never used.
    Waste(usize),
}
struct Program {
    ops: Vec<Op>,
    circs: Vec<Arc<Circuit>>,
    /// True values, by value number.
    vals: Vec<Vec<bool>>,
    /// Value number → call number.
    call_of: Vec<Option<usize>>,
    /// Own input → index.
    decodes: Vec<(usize, usize, usize)>,
}
fn random_circuit(r: &mut R, n: usize) -> Circuit {
    let mut b = CircuitBuilder::new();
    let mut w: Vec<_> = (0..n).map(|_| b.add_input()).collect();
    for _ in 0..r.range(1, 24) {
        let (x, y) = (w[r.below(w.len())], w[r.below(w.len())]);
        let g = match r.below(5) {
            0 => b.add_and_gate(x, y),
            1 => b.add_inv_gate(x),
            2 => b.add_id_gate(x),
            _ => b.add_xor_gate(x, y),
        };
        w.push(g);
    }
    for _ in 0..r.range(1, 12) {
        let x = w[r.below(w.len())];
        b.add_output(x);
    }
    b.build().unwrap()
}
fn program(r: &mut R) -> Program {
    let mut p = Program { ops: vec![], circs: vec![], vals: vec![], call_of: vec![], decodes: vec![] };
    let n = r.range(4, 16);
    for k in 0..n {
        let what = if k < 2 { 0 } else { r.below(10) };
        match what {
            0..=2 => {
                let own = *r.pick(&[Own::Leader, Own::Follower, Own::Public, Own::Leader]);
                let len = r.range(1, 20);
                let v: Vec<bool> = (0..len).map(|_| r.bool()).collect();
                p.vals.push(v.clone());
                p.call_of.push(None);
                p.ops.push(Op::Input(own, v));
            }
            3..=6 => {
                let mut args = vec![];
                let mut input = vec![];
                for _ in 0..r.range(1, 3) {
                    let v = r.below(p.vals.len());
                    let a = r.below(p.vals[v].len());
                    let l = r.range(1, p.vals[v].len() - a);
                    args.push((v, a, l));
                    input.extend_from_slice(&p.vals[v][a..a + l]);
                }
                let c = Arc::new(random_circuit(r, input.len()));
                p.vals.push(c.run(&input));
                p.call_of.push(Some(p.circs.len()));
                p.ops.push(Op::Call(p.circs.len(), args));
                p.circs.push(c);
            }
            7 => p.ops.push(Op::Exec),
            8 => p.ops.push(Op::Waste(r.range(1, 5))),
            _ => {
                // outputs only: inputs of the other party are not decoded before finalization
                let outs: Vec<usize> = (0..p.vals.len()).filter(|v| p.call_of[*v].is_some()).collect();
                if let Some(v) = (!outs.is_empty()).then(|| *r.pick(&outs)) {
                    let a = r.below(p.vals[v].len());
                    let l = r.range(1, p.vals[v].len() - a);
                    p.decodes.push((v, a, l));
                    p.ops.push(Op::Decode(v, a, l));
                }
            }
        }
    }
    // decode something of the last output
    if let Some(v) = (0..p.vals.len()).rev().find(|v| p.call_of[*v].is_some()) {
        let l = p.vals[v].len();
        p.decodes.push((v, 0, l));
        p.ops.push(Op::Decode(v, 0, l));
    }
    p.ops.push(Op::Exec);
    p
}
struct Ran {
    decoded: Vec<Vec<bool>>,
    finalize: Result<(), String>,
    ran: Result<(), String>,
}
async fn play<D>(p: &Program, leader: bool, mut vm: D, mut ctx: mpz_common::Context, skew: usize, fin: impl AsyncFnOnce(&mut D, &mut mpz_common::Context) -> Result<(), String>) -> Ran
where
    D: Vm<Binary> + Send + Sync + Memory<Binary, Error = mpz_vm_core::VmError>,
{
    let mut slots: Vec<Slice> = vec![];
    let mut futs: Vec<DecodeFuture<BitVec>> = vec![];
    let _ = skew;
    let mut ran = Ok(());
    let body = async {
        let sub = |s: Slice, a: usize, l: usize| Slice::from_range_unchecked(s.to_range().start + a..s.to_range().start + a + l);
        for op in &p.ops {
            match op {
                Op::Input(own, v) => {
                    let s = vm.alloc_raw(v.len()).map_err(|e| e.to_string())?;
                    let mine = match own {
                        Own::Public => {
                            vm.mark_public_raw(s).map_err(|e| e.to_string())?;
                            true
                        }
                        Own::Leader | Own::Follower if (*own == Own::Leader) == leader => {
                            vm.mark_private_raw(s).map_err(|e| e.to_string())?;
                            true
                        }
                        _ => {
                            vm.mark_blind_raw(s).map_err(|e| e.to_string())?;
                            false
                        }
                    };
                    if mine {
                        vm.assign_raw(s, BitVec(v.clone())).map_err(|e| e.to_string())?;
                    }
                    vm.commit_raw(s).map_err(|e| e.to_string())?;
                    slots.push(s);
                }
                Op::Call(c, args) => {
                    let mut b = Call::builder(p.circs[*c].clone());
                    for (v, a, l) in args {
                        b = b.arg(sub(slots[*v], *a, *l));
                    }
                    slots.push(vm.call_raw(b.build().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?);
                }
                Op::Decode(v, a, l) => futs.push(vm.decode_raw(sub(slots[*v], *a, *l)).map_err(|e| e.to_string())?),
                Op::Waste(n) => {
                    vm.alloc_raw(*n).map_err(|e| e.to_string())?;
                }
                Op::Exec => {
                    vm.execute_all(&mut ctx).await.map_err(|e| e.to_string())?;
                    vm.execute_all(&mut ctx).await.map_err(|e| e.to_string())?;
                }
            }
        }
        Ok::<_, String>(())
    };
    if let Err(e) = body.await {
        ran = Err(e);
    }
    let decoded = futs.iter_mut().map(|f| f.try_recv().ok().flatten().map(|b| b.0).unwrap_or_default()).collect();
    let finalize = match &ran {
        Ok(()) => fin(&mut vm, &mut ctx).await,
        Err(e) => Err(e.clone()),
    };
    Ran { decoded, finalize, ran }
}
fn both(p: &Program, skew: usize) -> Result<(Ran, Ran), Fail> {
    run(async {
        let (ca, cb) = test_st_context(8);
        let (l, f) = (leader_vm(), follower_vm());
        // the memories need not be aligned
        for _ in 0..skew {
            let _ = l.zk().alloc_raw(3);
            let _ = f.zk().alloc_raw(3);
        }
        let to = std::time::Duration::from_millis(3000);
        let a = tokio::time::timeout(to, play(p, true, l, ca, skew, async |d: &mut L, c: &mut _| d.finalize(c).await.map_err(|e| e.to_string())));
        let b = tokio::time::timeout(to, play(p, false, f, cb, skew, async |d: &mut F, c: &mut _| d.finalize(c).await.map_err(|e| e.to_string())));
        let (a, b) = futures::join!(a, b);
        let lost = |_| Ran { decoded: vec![], finalize: Err("timeout".into()), ran: Err("timeout".into()) };
        (a.unwrap_or_else(lost), b.unwrap_or_else(lost))
    })
}
pub fn m03(cx: &mut Cx) {
    cx.rule("A case is a random two-party program (inputs of either owner, random circuits over pieces of values, decodes, executions) run by both parties through the dual execution; honest runs must give the values of a direct evaluation and finalize; runs in which the garbling party's execution yields another value, or uses another private input in one of the executions, so that a decoded output differs from what the inputs proven in the second execution give, must be refused by the verifying party.");
    cx.assume("The two-party computation libraries are replaced by ideal stand-ins: the garbler decides decoded outputs, the proof system is sound.");
    cx.require("honest programs finalized", 100);
    cx.require("corrupted executions refused", 60);
    cx.require("divergent inputs refused", 40);
    cx.cases("honest", 4000, 80000, |r, _, o| {
        let _h = Unhook;
        let p = program(r);
        o.key(format!("{:?}", p.ops));
        o.input(vfw::serde_json::json!(format!("{:?}", p.ops)));
        watch::start();
        let (a, b) = both(&p, r.below(3))?;
        for (who, x) in [("leader", &a), ("follower", &b)] {
            ensure!(x.ran.is_ok(), "an honest program failed at the {who}: {:?}", x.ran);
            ensure!(x.finalize.is_ok(), "an honest program was not finalized by the {who}: {:?}", x.finalize);
            for ((v, s, l), d) in p.decodes.iter().zip(&x.decoded) {
                ensure_eq!(*d, p.vals[*v][*s..*s + *l].to_vec(), "a value decoded by the {who}");
            }
        }
        // before finalization nobody learns anything but the decoded outputs
        let mut n = 0;
        for e in watch::take() {
            if let Event::Decode { role: W::Garbler | W::Evaluator, .. } = e {
                n += 1;
            }
        }
        o.add("values opened in the first execution", n);
        o.add("values compared", 2 * p.decodes.len() as u64);
        o.see("honest programs finalized");
        Ok(())
    });
    cx.cases("output", 3000, 80000, |r, _, o| {
        let _h = Unhook;
        let p = program(r);
        // another output of one of the garbler's evaluations
        let Some(calls) = (!p.circs.is_empty()).then_some(p.circs.len()) else { return Ok(()) };
        let target = r.below(calls);
        let flip = r.below(p.circs[target].outputs_len());
        o.key(format!("{:?}{target}{flip}", p.ops));
        watch::set_fault(Some(Box::new(move |role, call, out| {
            if role == W::Garbler && call == target {
                out[flip] ^= true;
            }
        })));
        let (_, b) = both(&p, r.below(3))?;
        let wrong = b.ran.is_ok() && p.decodes.iter().zip(&b.decoded).any(|((v, s, l), d)| *d != p.vals[*v][*s..*s + *l]);
        if wrong {
            ensure!(b.finalize.is_err(), "a corrupted execution was accepted: call {target}, output {flip}");
            o.see("corrupted executions refused");
        } else {
            o.see("corruption without effect");
        }
        Ok(())
    });
    cx.cases("input", 6000, 80000, |r, i, o| {
        let _h = Unhook;
        let p = program(r);
        let role = if i % 2 == 0 { W::Garbler } else { W::Prover };
        let nth = r.below(3);
        let at = r.below(20);
        o.key(format!("{:?}{role:?}{nth}{at}", p.ops));
        let mut seen = 0;
        watch::set_assign_fault(Some(Box::new(move |ro, _, b| {
            if ro == role {
                if seen == nth {
                    let k = at % b.len();
                    b[k] ^= true;
                }
                seen += 1;
            }
        })));
        let (_, b) = both(&p, r.below(3))?;
        if b.ran.is_err() {
            o.see("aborted before finalization");
            return Ok(());
        }
        // the first execution gave the one, the proof the other
        let changed = p_changed(&p, nth, at);
        let (first, second) = if role == W::Garbler { (&changed, &p.vals) } else { (&p.vals, &changed) };
        let at = |w: &Vec<Vec<bool>>, (v, s, l): (usize, usize, usize)| w[v][s..s + l].to_vec();
        for (d, got) in p.decodes.iter().zip(&b.decoded) {
            ensure_eq!(*got, at(first, *d), "a value decoded by the follower");
        }
        if p.decodes.iter().any(|d| at(first, *d) != at(second, *d)) {
            ensure!(b.finalize.is_err(), "different inputs in the two executions were accepted");
            o.see("divergent inputs refused");
        } else {
            o.see("divergence without effect");
        }
        Ok(())
    });
}
/// The program's values with bit `at` of the leader's `nth` private input changed.
fn p_changed(p: &Program, nth: usize, at: usize) -> Vec<Vec<bool>> {
    let mut vals: Vec<Vec<bool>> = vec![];
    let mut seen = 0;
    for op in &p.ops {
        match op {
            Op::Input(own, v) => {
                let mut v = v.clone();
                if *own == Own::Leader {
                    if seen == nth {
                        let k = at % v.len();
                        v[k] ^= true;
                    }
                    seen += 1;
                }
                vals.push(v);
            }
            Op::Call(c, args) => {
                let mut input = vec![];
                for (v, a, l) in args {
                    input.extend_from_slice(&vals[*v][*a..*a + *l]);
                }
                vals.push(p.circs[*c].run(&input));
            }
            _ => {}
        }
    }
    vals
}

// ---------------------------------------------------------------- M04

pub fn m04(cx: &mut Cx) {
    cx.rule("A case runs the key exchange of both parties with a random or extreme server key; the decoded premaster secret of both must be the x-coordinate of the server's scalar times the published client key, the values each party contributes must differ from it and be fresh, and nothing but the equality check may be opened. Corrupted shares (in each conversion) and corrupted contributions must end in an error at the deceived party.");
    cx.assume("Share conversion and the two-party machine are ideal stand-ins; P-256 is the stand-in's arithmetic, compared with ring.");
    cx.require("secrets agreed", 40);
    cx.require("corrupted shares refused", 20);
    cx.require("corrupted contributions refused", 20);
    cx.cases("exchange", 80, 3000, |r, i, o| exchange(r, i, o, Bad::None));
    cx.cases("shares", 60, 2000, |r, i, o| {
        let k = r.below(6);
        exchange(r, i, o, Bad::Share(k))
    });
    cx.cases("zero", 12, 100, |r, i, o| {
        let k = r.below(6);
        exchange(r, i, o, Bad::Zero(k))
    });
    cx.cases("inputs", 60, 2000, |r, i, o| {
        let (k, bit) = (r.below(4), r.below(256));
        exchange(r, i, o, Bad::Input(k, bit))
    });
    cx.cases("order", 40, 1000, |r, _, o| order(r, o));
}
type Snd = IdealShareConvertSender<P256>;
type Rcv = IdealShareConvertReceiver<P256>;
fn pair() -> (MpcKeyExchange<Snd, Rcv>, MpcKeyExchange<Rcv, Snd>) {
    let (l0, f0) = ideal_share_convert(Block::ZERO);
    let (f1, l1) = ideal_share_convert(Block::ZERO);
    (MpcKeyExchange::new(key_exchange::Role::Leader, l0, l1), MpcKeyExchange::new(key_exchange::Role::Follower, f0, f1))
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    None,
    Share(usize),
    Zero(usize),
    Input(usize, usize),
}
fn exchange(r: &mut R, i: u64, o: &mut Obs, bad: Bad) -> Result<(), Fail> {
    let _h = Unhook;
    let sk = loop {
        let mut b: [u8; 32] = match r.below(6) {
            0 => {
                let mut b = [0; 32];
                b[31] = r.range(1, 9) as u8;
                b
            }
            1 => {
                // near the order
                let mut b = [0xff; 32];
                b[4..8].fill(0);
                b[16..].copy_from_slice(&[0xBC, 0xE6, 0xFA, 0xAD, 0xA7, 0x17, 0x9E, 0x84, 0xF3, 0xB9, 0xCA, 0xC2, 0xFC, 0x63, 0x25, 0x50]);
                b[31] -= r.below(8) as u8;
                b
            }
            _ => r.arr(),
        };
        if i == 0 {
            b = [0; 32];
            b[31] = 1;
        }
        if let Ok(k) = p256::SecretKey::from_slice(&b) {
            break k;
        }
    };
    let server = sk.public_key();
    o.key(sk.to_bytes());
    o.input(vfw::serde_json::json!({"server key": vfw::hex(&sk.to_bytes()), "fault": format!("{bad:?}")}));
    match bad {
        Bad::Share(k) | Bad::Zero(k) => {
            let zero = matches!(bad, Bad::Zero(_));
            let mut n = 0;
            if zero {
                watch::set_share_zero(Some(Box::new(move |_| {
                    n += 1;
                    n - 1 == k
                })));
            } else {
                watch::set_share_fault(Some(Box::new(move |_| {
                    n += 1;
                    n - 1 == k
                })));
            }
        }
        Bad::Input(k, bit) => {
            let mut n = 0;
            watch::set_input_fault(Some(Box::new(move |_, _, b| {
                if n == k {
                    let at = bit % b.len();
                    b[at] ^= true;
                }
                n += 1;
            })));
        }
        Bad::None => {}
    }
    watch::start();
    type Res = (Result<[u8; 32], String>, Option<[u8; 32]>);
    let out = run(async {
        let (mut ca, mut cb) = test_st_context(8);
        let (mut va, mut vb) = (IdealVm::new(), IdealVm::new());
        let (mut a, mut b) = pair();
        let pa = a.alloc(&mut va).map_err(vme)?;
        let pb = b.alloc(&mut vb).map_err(vme)?;
        let (x, y) = futures::join!(a.setup(&mut ca), b.setup(&mut cb));
        x.map_err(vme)?;
        y.map_err(vme)?;
        let ck = a.client_key().map_err(vme)?;
        ensure!(b.client_key().is_err(), "the follower knows the client key");
        let mut fa = va.decode(pa).map_err(vme)?;
        let mut fb = vb.decode(pb).map_err(vme)?;
        a.set_server_key(server).map_err(vme)?;
        b.set_server_key(server).map_err(vme)?;
        ensure!(a.server_key() == Some(server) && b.server_key() == Some(server), "the server key is not the one which was set");
        macro_rules! side {
            ($k:ident $v:ident $c:ident $f:ident) => {
                tokio::time::timeout(std::time::Duration::from_millis(2500), async move {
                    let r: Result<(), String> = async {
                        $k.compute_shares(&mut $c).await.map_err(|e| e.to_string())?;
                        $k.assign(&mut $v).map_err(|e| e.to_string())?;
                        $v.flush(&mut $c).await.map_err(|e| e.to_string())?;
                        $v.execute(&mut $c).await.map_err(|e| e.to_string())?;
                        $v.flush(&mut $c).await.map_err(|e| e.to_string())?;
                        $k.finalize().await.map_err(|e| e.to_string())
                    }
                    .await;
                    let v = $f.try_recv().ok().flatten();
                    (r.and_then(|()| v.ok_or_else(|| "no secret".into())), v)
                })
            };
        }
        let (x, y): (Result<Res, _>, Result<Res, _>) = futures::join!(side!(a va ca fa), side!(b vb cb fb));
        let lost = |_| (Err("timeout".to_string()), None);
        Ok::<_, Fail>((ck, x.unwrap_or_else(lost), y.unwrap_or_else(lost)))
    })??;
    let (ck, (ra, _), (rb, _)) = out;
    let log = watch::take();
    // x-coordinate by ring would need the other scalar; by the stand-in arithmetic, which C11 compares with ring
    let want = *p256::ecdh::diffie_hellman(sk.to_nonzero_scalar(), ck.as_affine()).raw_secret_bytes();
    let want: [u8; 32] = want.into();
    match bad {
        Bad::None => {
            let (a, b) = (ra.map_err(vme)?, rb.map_err(vme)?);
            ensure_eq!(a, want, "premaster secret of the leader");
            ensure_eq!(b, want, "premaster secret of the follower");
            let mut opened = 0;
            let mut shares = vec![];
            for e in &log {
                match e {
                    Event::Decode { bits: b, .. } => {
                        opened += 1;
                        ensure!(b.iter().all(|x| !x) || *b == bits(&want), "something else than the equality check was opened");
                    }
                    Event::Private { bits: b, .. } => shares.push(b.clone()),
                    _ => {}
                }
            }
            ensure_eq!(opened, 4, "number of opened values");
            let mut distinct: Vec<Vec<bool>> = vec![];
            for s in shares.iter() {
                for c in s.chunks(256) {
                    ensure!(*c != bits(&want)[..] && c.iter().any(|b| *b), "a share is the secret");
                    ensure!(!distinct.contains(&c.to_vec()), "a share was used twice");
                    distinct.push(c.to_vec());
                }
            }
            ensure_eq!(distinct.len(), 4, "number of shares");
            o.see("secrets agreed");
        }
        Bad::Share(k) => {
            for (who, x) in [("leader", &ra), ("follower", &rb)] {
                ensure!(x.is_err(), "corrupted share {k} was accepted by the {who}");
            }
            o.see("corrupted shares refused");
        }
        Bad::Zero(k) => {
            for (who, x) in [("leader", &ra), ("follower", &rb)] {
                ensure!(x.is_err(), "zero share {k} was accepted by the {who}");
            }
            o.see("zero shares refused");
        }
        Bad::Input(k, _) => {
            // each sees its own contribution unaltered: the deceived party must refuse
            let deceived = ra.is_err() || rb.is_err();
            ensure!(deceived, "corrupted contribution {k} was accepted");
            o.see("corrupted contributions refused");
        }
    }
    Ok(())
}
fn order(r: &mut R, o: &mut Obs) -> Result<(), Fail> {
    // every step out of order is refused
    let (mut a, mut b) = pair();
    let mut vm = IdealVm::new();
    let k = r.below(4);
    o.key([k as u8]);
    let server = p256::SecretKey::from_slice(&[7; 32]).unwrap().public_key();
    let done = run(async {
        let (mut ca, mut cb) = test_st_context(8);
        match k {
            0 => {
                ensure!(a.setup(&mut ca).await.is_err(), "set up before allocation");
                ensure!(a.client_key().is_err(), "a client key before set-up");
            }
            1 => {
                ensure!(a.compute_shares(&mut ca).await.is_err(), "shares before set-up");
                ensure!(a.assign(&mut vm).is_err(), "assigned before shares");
                ensure!(a.finalize().await.is_err(), "finalized before shares");
            }
            2 => {
                a.alloc(&mut vm).map_err(vme)?;
                ensure!(a.alloc(&mut vm).is_err(), "allocated twice");
            }
            _ => {
                let mut vb = IdealVm::new();
                a.alloc(&mut vm).map_err(vme)?;
                b.alloc(&mut vb).map_err(vme)?;
                let (x, y) = futures::join!(a.setup(&mut ca), b.setup(&mut cb));
                x.map_err(vme)?;
                y.map_err(vme)?;
                ensure!(a.compute_shares(&mut ca).await.is_err(), "shares without a server key");
                let _ = server;
            }
        }
        Ok::<_, Fail>(())
    })?;
    done?;
    o.see("steps out of order refused");
    Ok(())
}
