//! C01 (Merkle proofs) and C02 (hashes and hash commitments).

use rand::{RngCore, SeedableRng};
use serde_json::{Value, json};
use tlsn_core::{
    hash::{Blake3, Blinded, Blinder, Hash, HashAlgId, HashAlgorithm, HashProvider, Keccak256, Sha256, TypedHash},
    merkle::{MerkleProof, MerkleTree},
    transcript::hash::hash_plaintext,
};
use vfw::{CaseResult, Cx, Obs, R, ensure, ensure_eq, hex};

/// Reference digest of algorithm `alg`, from libraries other than the code under test uses for SHA-256.
pub fn ref_hash(alg: u8, parts: &[&[u8]]) -> Vec<u8> {
    let all = parts.concat();
    match alg {
        1 => ring::digest::digest(&ring::digest::SHA256, &all).as_ref().to_vec(),
        2 => blake3::hash(&all).as_bytes().to_vec(),
        3 => {
            use tiny_keccak::Hasher;
            let mut k = tiny_keccak::Keccak::v256();
            k.update(&all);
            let mut out = vec![0; 32];
            k.finalize(&mut out);
            out
        }
        // The test algorithms registered by these checks.
        n => {
            let mut s = ring::digest::digest(&ring::digest::SHA512, &[&[n][..], &all].concat()).as_ref().to_vec();
            s.truncate(if n % 2 == 0 { 64 } else { 20 });
            s
        }
    }
}

/// A user-defined hash algorithm.
pub struct Custom(pub u8);
impl HashAlgorithm for Custom {
    fn id(&self) -> HashAlgId {
        HashAlgId::new(self.0)
    }
    fn hash(&self, data: &[u8]) -> Hash {
        Hash::try_from(ref_hash(self.0, &[data])).unwrap()
    }
    fn hash_prefixed(&self, prefix: &[u8], data: &[u8]) -> Hash {
        Hash::try_from(ref_hash(self.0, &[prefix, data])).unwrap()
    }
}

pub fn hasher(alg: u8) -> Box<dyn HashAlgorithm + Send + Sync> {
    match alg {
        1 => Box::new(Sha256::default()),
        2 => Box::new(Blake3::default()),
        3 => Box::new(Keccak256::default()),
        n => Box::new(Custom(n)),
    }
}

pub fn alg_id(alg: u8) -> HashAlgId {
    match alg {
        1 => HashAlgId::SHA256,
        2 => HashAlgId::BLAKE3,
        3 => HashAlgId::KECCAK256,
        n => HashAlgId::new(n),
    }
}

/// Layers are paired from the left; an unpaired node moves up unchanged.
pub fn ref_root(alg: u8, leaves: &[Vec<u8>]) -> Vec<u8> {
    let mut layer = leaves.to_vec();
    while layer.len() > 1 {
        layer = layer
            .chunks(2)
            .map(|c| if c.len() == 2 { ref_hash(alg, &[&c[0], &c[1]]) } else { c[0].clone() })
            .collect();
    }
    layer[0].clone()
}

fn h(v: &[u8]) -> Hash {
    Hash::try_from(v.to_vec()).unwrap()
}

/// Walks a JSON value and changes one number in it.
pub fn tweak(r: &mut R, v: &mut Value) -> bool {
    fn nums<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        match v {
            Value::Number(_) => out.push(v),
            Value::Array(a) => a.iter_mut().for_each(|x| nums(x, out)),
            Value::Object(o) => o.values_mut().for_each(|x| nums(x, out)),
            _ => {}
        }
    }
    let mut all = vec![];
    nums(v, &mut all);
    if all.is_empty() {
        return false;
    }
    let i = r.below(all.len());
    let n = all[i].as_u64().unwrap_or(0);
    *all[i] = match r.below(4) {
        0 => json!(n ^ (1 << r.below(8))),
        1 => json!(n.wrapping_add(1)),
        2 => json!(n.saturating_sub(1)),
        _ => json!(r.u8()),
    };
    true
}

pub fn c01(cx: &mut Cx) {
    cx.rule("Non-trivial: a tree of at least one leaf whose root and proofs were recomputed independently; key = leaves, claimed positions.");
    cx.assume("rs_merkle is replaced by a stand-in of the same interface and layer rule, so what is judged is the repository's use of it (ordering, duplicates, hasher, root, leaf count), not the third-party crate.");
    cx.cases("trees", 12500, 600000, |r, idx, o| {
        let alg = *r.pick(&[1u8, 2, 3, 1, 2, 3, 128, 129]);
        let hs = hasher(alg);
        let n = if idx < 40 { idx as usize + 1 } else { 1 + r.len(if idx % 50 == 0 { 700 } else { 70 }) };
        let leaves: Vec<Vec<u8>> = (0..n).map(|_| { let l = if r.chance(1, 8) { r.range(1, 64) } else { 32 }; r.bytes(l) }).collect();
        let mut tree = MerkleTree::new(alg_id(alg));
        ensure_eq!(tree.algorithm(), alg_id(alg), "tree algorithm");
        let mut at = 0;
        let mut steps = 0;
        while at < n {
            let k = if r.bool() { n - at } else { r.range(1, n - at) };
            tree.insert(&*hs, leaves[at..at + k].iter().map(|l| h(l)).collect());
            at += k;
            steps += 1;
            let want = ref_root(alg, &leaves[..at]);
            ensure!(tree.root().value.as_bytes() == want && tree.root().alg == alg_id(alg), "root after {at} leaves in {steps} steps ({alg}): got {} expected {}", hex(tree.root().value.as_bytes()), hex(&want));
            o.evals(1);
        }
        o.see(format!("insert_steps/{}", steps.min(4)));
        if r.chance(1, 4) {
            let b = bincode::serialize(&tree).map_err(|e| format!("tree serialize: {e}"))?;
            let t2: MerkleTree = bincode::deserialize(&b).map_err(|e| format!("tree deserialize: {e}"))?;
            ensure!(t2.root() == tree.root(), "root after serialization");
            tree = t2;
            o.see("tree_serialized");
        }
        let root = tree.root();
        // claimed positions
        let mut pos: Vec<usize> = (0..n).filter(|_| r.chance(1, 3)).collect();
        if r.chance(1, 6) {
            pos = (0..n).collect();
        }
        if pos.is_empty() {
            pos = vec![r.below(n)];
        }
        o.key([leaves.concat(), pos.iter().flat_map(|p| p.to_be_bytes()).collect()].concat());
        o.input(json!({"alg": alg, "leaves": n, "positions": pos}));
        let mut proof = tree.proof(&pos);
        match r.below(3) {
            0 => proof = bincode::deserialize(&bincode::serialize(&proof).unwrap()).map_err(|e| format!("proof roundtrip: {e}"))?,
            1 => proof = serde_json::from_value(serde_json::to_value(&proof).unwrap()).map_err(|e| format!("proof roundtrip: {e}"))?,
            _ => {}
        }
        let mut claim: Vec<(usize, Hash)> = pos.iter().map(|p| (*p, h(&leaves[*p]))).collect();
        r.shuffle(&mut claim);
        let ok = proof.verify(&*hs, &root, claim.clone());
        ensure!(ok.is_ok(), "honest proof refused: {n} leaves, positions {pos:?}: {ok:?}");
        o.see("honest_proofs");

        // Every alteration below makes the claim false.
        let bad = |what: &str, res: Result<(), tlsn_core::merkle::MerkleError>, o: &mut Obs| -> CaseResult {
            o.see(format!("refused/{what}"));
            o.evals(1);
            ensure!(res.is_err(), "false claim accepted: {what} ({n} leaves, positions {pos:?})");
            Ok(())
        };
        let i = r.below(claim.len());
        let mut c = claim.clone();
        let mut v: Vec<u8> = c[i].1.into();
        let (bi, bit) = (r.below(v.len()), r.below(8));
        v[bi] ^= 1 << bit;
        c[i].1 = h(&v);
        bad("altered leaf", proof.verify(&*hs, &root, c), o)?;
        let mut c = claim.clone();
        let mut v: Vec<u8> = c[i].1.into();
        if v.len() < 64 && r.bool() { v.push(0) } else { v.pop(); }
        c[i].1 = h(&v);
        bad("leaf of another length", proof.verify(&*hs, &root, c), o)?;
        if n > 1 {
            let other = (0..n).filter(|p| !pos.contains(p)).collect::<Vec<_>>();
            if let Some(&p) = other.get(r.below(other.len().max(1))) {
                let mut c = claim.clone();
                c[i].0 = p;
                bad("another position", proof.verify(&*hs, &root, c), o)?;
                let mut c = claim.clone();
                c.push((p, h(&r.bytes(32))));
                bad("extra leaf", proof.verify(&*hs, &root, c), o)?;
                let mut c = claim.clone();
                c[i].1 = h(&leaves[p]);
                bad("another leaf of the tree", proof.verify(&*hs, &root, c), o)?;
            }
            let mut c = claim.clone();
            c.remove(i);
            bad("missing leaf", proof.verify(&*hs, &root, c), o)?;
            if claim.len() > 1 {
                let j = (i + 1 + r.below(claim.len() - 1)) % claim.len();
                let mut c = claim.clone();
                let t = c[i].1;
                c[i].1 = c[j].1;
                c[j].1 = t;
                bad("exchanged leaves", proof.verify(&*hs, &root, c), o)?;
                let mut c = claim.clone();
                c[i].0 = c[j].0;
                bad("repeated position", proof.verify(&*hs, &root, c), o)?;
            }
        }
        let mut c = claim.clone();
        c.push(c[i]);
        bad("repeated leaf", proof.verify(&*hs, &root, c), o)?;
        let mut c = claim.clone();
        let p = c[i].0;
        c.push((p, h(&r.bytes(32))));
        bad("two leaves for one position", proof.verify(&*hs, &root, c), o)?;
        let mut rv: Vec<u8> = root.value.into();
        let (bi, bit) = (r.below(rv.len()), r.below(8));
        rv[bi] ^= 1 << bit;
        bad("another root", proof.verify(&*hs, &TypedHash { alg: root.alg, value: h(&rv) }, claim.clone()), o)?;
        bad("empty root", proof.verify(&*hs, &TypedHash { alg: root.alg, value: Hash::default() }, claim.clone()), o)?;
        if n > 1 {
            let a2 = if alg == 1 { 2 } else { 1 };
            bad("another hash function", proof.verify(&*hasher(a2), &root, claim.clone()), o)?;
        }
        // a tree that differs in one leaf
        let mut l2 = leaves.clone();
        let q = r.below(n);
        l2[q] = r.bytes(32);
        let mut t2 = MerkleTree::new(alg_id(alg));
        t2.insert(&*hs, l2.iter().map(|l| h(l)).collect());
        bad("root of another tree", proof.verify(&*hs, &t2.root(), claim.clone()), o)?;
        if n > 1 {
            // the proof of the altered tree under the original root, for the original leaves
            let p2 = t2.proof(&pos);
            let needs_changed = !pos.contains(&q);
            if needs_changed {
                bad("proof of another tree", p2.verify(&*hs, &root, claim.clone()), o)?;
            }
        }
        // altered proof elements
        let mut pv = serde_json::to_value(&proof).unwrap();
        let elems = pv["proof"].clone();
        if tweak(r, &mut pv["proof"]) && pv["proof"] != elems {
            match serde_json::from_value::<MerkleProof>(pv) {
                Ok(p) => bad("altered proof element", p.verify(&*hs, &root, claim.clone()), o)?,
                Err(_) => o.see("refused/undecodable proof"),
            }
        }
        Ok(())
    });
    cx.cases("hostile", 20000, 900000, |r, _, o| {
        // A proof of random shape never verifies a leaf that is not in the tree, and never crashes.
        let alg = *r.pick(&[1u8, 2, 3]);
        let hs = hasher(alg);
        let n = r.range(1, 20);
        let mut tree = MerkleTree::new(alg_id(alg));
        tree.insert(&*hs, (0..n).map(|_| h(&r.bytes(32))).collect());
        let k = r.range(0, n - 1);
        let mut proof = serde_json::to_value(tree.proof(&[k])).unwrap();
        match r.below(4) {
            0 => proof["leaf_count"] = json!(*r.pick(&[0u64, 1, 2, 3, 1 << 20, 1 << 40, u64::MAX, u64::MAX - 1, 1 << 63])),
            1 => proof["leaf_count"] = json!(r.range(0, 40)),
            2 => {
                if let Some(a) = proof["proof"].as_array_mut() {
                    if r.bool() { a.pop(); } else { a.push(serde_json::to_value(h(&r.bytes(32))).unwrap()); }
                } else {
                    tweak(r, &mut proof);
                }
            }
            _ => { tweak(r, &mut proof); }
        }
        let Ok(p) = serde_json::from_value::<MerkleProof>(proof) else {
            o.see("undecodable");
            return Ok(());
        };
        let m = r.below(5);
        let mut leaves: Vec<(usize, Hash)> = vec![];
        for _ in 0..m {
            let i = match r.below(5) { 0 => usize::MAX, 1 => r.below(1 << 30), _ => r.below(n + 3) };
            leaves.push((i, h(&r.bytes(32))));
        }
        o.key(format!("{m}{:?}", leaves.iter().map(|l| l.0).collect::<Vec<_>>()));
        let res = p.verify(&*hs, &tree.root(), leaves.clone());
        o.see("hostile_verifications");
        if !leaves.is_empty() {
            ensure!(res.is_err(), "random leaves {:?} accepted", leaves.iter().map(|l| l.0).collect::<Vec<_>>());
        }
        Ok(())
    });
    for w in ["altered leaf", "another position", "extra leaf", "missing leaf", "exchanged leaves", "repeated leaf", "two leaves for one position", "another root", "another hash function", "root of another tree", "proof of another tree", "altered proof element"] {
        cx.require(&format!("refused/{w}"), 100);
    }
    cx.require("honest_proofs", 1000);
}

fn blinder(r: &mut R) -> (Blinder, Vec<u8>) {
    let b = r.bytes(16);
    (bincode::deserialize(&b).expect("blinder"), b)
}

pub fn c02(cx: &mut Cx) {
    cx.rule("Non-trivial: a digest compared with an independent computation; key = algorithm and message.");
    cx.assume("The BLAKE3 and Keccak-256 stand-ins are validated by published vectors in `vectors`; SHA-256 is compared with ring.");
    cx.cases("vectors", 1, 1, |_, _, o| {
        let v: &[(u8, &[u8], &str)] = &[
            (1, b"", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
            (1, b"abc", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
            (2, b"", "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"),
            (2, b"abc", "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"),
            (3, b"", "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"),
            (3, b"abc", "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"),
        ];
        for (a, m, want) in v {
            ensure_eq!(hex(hasher(*a).hash(m).as_bytes()), want.to_string(), "digest of {m:?} under {a}");
            ensure_eq!(hex(hasher(*a).hash_prefixed(m, b"").as_bytes()), want.to_string(), "prefixed digest of {m:?} under {a}");
            ensure_eq!(hex(hasher(*a).hash_prefixed(b"", m).as_bytes()), want.to_string(), "prefixed digest of {m:?} under {a}");
            o.key([&[*a], *m].concat());
        }
        // identifiers are part of the wire format
        for (id, n) in [(HashAlgId::SHA256, 1u8), (HashAlgId::BLAKE3, 2), (HashAlgId::KECCAK256, 3)] {
            ensure_eq!(id.as_u8(), n, "identifier");
            ensure_eq!(bincode::serialize(&id).unwrap(), vec![n], "encoded identifier");
            ensure_eq!(hasher(n).id(), id, "hasher's identifier");
            ensure_eq!(HashProvider::default().get(&id).map(|h| h.id()).ok(), Some(id), "provider's hasher");
        }
        Ok(())
    });
    cx.cases("digests", 20000, 900000, |r, idx, o| {
        let alg = (idx % 3 + 1) as u8;
        let l = if idx < 600 { idx as usize } else { r.len(if idx % 100 == 0 { 70_000 } else { 3000 }) };
        let msg = r.bytes(l);
        let cut = r.range(0, l);
        let p = HashProvider::default();
        let hs = p.get(&alg_id(alg)).map_err(|e| format!("supported algorithm missing: {e}"))?;
        ensure_eq!(hs.id(), alg_id(alg), "identifier of the provided algorithm");
        let want = ref_hash(alg, &[&msg]);
        ensure!(hs.hash(&msg).as_bytes() == want, "hash of {l} bytes under {alg}");
        ensure!(hs.hash_prefixed(&msg[..cut], &msg[cut..]).as_bytes() == want, "prefixed hash of {cut}+{} bytes under {alg}", l - cut);
        o.evals(2);
        let (bl, braw) = blinder(r);
        ensure_eq!(bl.as_bytes(), &braw[..], "blinder bytes");
        let got = hash_plaintext(hs, &msg, &bl);
        ensure_eq!(got.alg, alg_id(alg), "tag of the commitment");
        ensure!(got.value.as_bytes() == ref_hash(alg, &[&msg, &braw]), "commitment to {l} bytes under {alg} is not H(message | blinder)");
        o.key([&[alg], &msg[..]].concat());
        o.see(format!("algorithm/{alg}"));
        // only the same data, blinder and algorithm open it
        let mut m2 = msg.clone();
        if m2.is_empty() || r.bool() { m2.push(r.u8()) } else { let i = r.below(m2.len()); m2[i] ^= 1 << r.below(8) }
        ensure!(hash_plaintext(hs, &m2, &bl) != got, "commitment opens to other data");
        let mut b2 = braw.clone();
        b2[r.below(16)] ^= 1 << r.below(8);
        ensure!(hash_plaintext(hs, &msg, &bincode::deserialize(&b2).unwrap()) != got, "commitment opens with another blinder");
        let a2 = alg % 3 + 1;
        ensure!(hash_plaintext(&*hasher(a2), &msg, &bl) != got, "commitment opens with another algorithm");
        // same digest bytes under another tag is another value
        ensure!(TypedHash { alg: alg_id(a2), value: got.value } != got, "commitments ignore their tag");
        let rt: TypedHash = if r.bool() { bincode::deserialize(&bincode::serialize(&got).unwrap()).map_err(|e| e.to_string())? } else { serde_json::from_str(&serde_json::to_string(&got).unwrap()).map_err(|e| e.to_string())? };
        ensure_eq!(rt, got, "typed hash after serialization");
        Ok(())
    });
    cx.cases("values", 10000, 300000, |r, idx, o| {
        let l = if idx < 200 { idx as usize } else { r.len(200) };
        let v = r.bytes(l);
        let ok = Hash::try_from(v.clone());
        ensure_eq!(ok.is_ok(), l <= 64, "digest of {l} bytes");
        let j = serde_json::to_string(&v).unwrap();
        let b = bincode::serialize(&v).unwrap();
        let dj = vfw::quiet(|| serde_json::from_str::<Hash>(&j)).map_err(|e| format!("digest reader: {e}"))?;
        let db = vfw::quiet(|| bincode::deserialize::<Hash>(&b)).map_err(|e| format!("digest reader: {e}"))?;
        ensure_eq!((dj.is_ok(), db.is_ok()), (l <= 64, l <= 64), "deserialized digest of {l} bytes");
        if let (Ok(a), Ok(c), Ok(d)) = (ok, dj, db) {
            ensure!(a == c && a == d, "digests of the same bytes differ");
            ensure_eq!(a.as_bytes(), &v[..], "digest bytes");
            ensure_eq!(Vec::<u8>::from(a), v, "digest into bytes");
            ensure_eq!(bincode::serialize(&a).unwrap(), b, "encoded digest");
            if l > 0 && l < 64 {
                let mut w = v.clone();
                w.push(0);
                ensure!(Hash::try_from(w).unwrap() != a, "a digest equals its zero-extension");
            }
            o.key(&v);
        }
        o.see(if l <= 64 { "valid_digests" } else { "oversized_digests" });
        // unknown algorithms are refused, registered ones are used
        let id = r.u8();
        let hid: HashAlgId = bincode::deserialize(&[id]).map_err(|e| e.to_string())?;
        ensure_eq!(hid.as_u8(), id, "algorithm identifier");
        let mut p = HashProvider::default();
        ensure_eq!(p.get(&hid).is_ok(), (1..=3).contains(&id), "algorithm {id} available by default");
        if id >= 128 {
            p.set_algorithm(hid, Box::new(Custom(id)));
            let hs = p.get(&hid).map_err(|e| format!("registered algorithm missing: {e}"))?;
            ensure!(hs.hash(&v).as_bytes() == ref_hash(id, &[&v]), "registered algorithm not used");
            let other = alg_id(1 + id % 3);
            ensure!(p.get(&other).map(|h| h.id()).ok() == Some(other), "registering {id} replaced {other}");
            ensure_eq!(HashAlgId::new(id), hid, "identifier");
            o.see("custom_algorithms");
        } else {
            let q = vfw::quiet(|| HashAlgId::new(id));
            ensure!(q.is_err(), "reserved identifier {id} accepted");
        }
        Ok(())
    });
    cx.cases("blinders", 4, 20, |r, _, o| {
        // Blinders are fresh: none repeats, and every bit of them varies.
        let mut seen = std::collections::HashSet::new();
        let mut ones = [0u32; 128];
        let n = 4000;
        let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(r.u64());
        for i in 0..n {
            let b: Vec<u8> = if i % 2 == 0 {
                let x = bincode::serialize(&Blinded::new(7u8)).unwrap();
                ensure_eq!(x.len(), 17, "blinded value of one byte");
                ensure_eq!(x[0], 7, "blinded data");
                x[1..].to_vec()
            } else {
                let bl: Blinder = rand::Rng::random(&mut rng);
                bl.as_bytes().to_vec()
            };
            for (k, c) in ones.iter_mut().enumerate() {
                *c += (b[k / 8] >> (k % 8) & 1) as u32;
            }
            ensure!(seen.insert(b), "a blinder repeats");
        }
        for (k, c) in ones.iter().enumerate() {
            // 50% plus or minus 12 standard deviations
            ensure!((*c as i64 - n as i64 / 2).abs() < 380, "bit {k} of the blinders is biased: {c} of {n}");
        }
        o.add("blinders_seen", n as u64);
        o.key(rng.next_u64().to_be_bytes());
        o.evals(n as u64);
        let x = Blinded::new("text".to_string());
        ensure_eq!(x.data(), "text", "blinded data");
        let y: Blinded<String> = bincode::deserialize(&bincode::serialize(&x).unwrap()).map_err(|e| e.to_string())?;
        ensure_eq!(bincode::serialize(&x).unwrap(), bincode::serialize(&y).unwrap(), "blinded value after serialization");
        Ok(())
    });
    cx.require("custom_algorithms", 200);
    cx.require("oversized_digests", 100);
}
