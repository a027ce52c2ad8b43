//! Certificate worlds: generator, named defects and an independent judgement.

use crate::pki::*;
use rustls_pki_types::TrustAnchor;
use vfw::R;

// ------------------------------------------------------------------ model

/// A certificate with everything the model needs to judge it.
#[derive(Clone)]
pub struct Node {
    pub spec: Spec,
    pub key: &'static Key,
    pub signer: &'static Key,
    /// The signature was made correctly by `signer`.
    pub sig_ok: bool,
    /// None: the bytes are not a certificate.
    pub garbage: bool,
    pub der: Vec<u8>,
}
impl Node {
    pub fn new(spec: Spec, key: &'static Key, signer: &'static Key, r: &mut R) -> Node {
        let der = spec.build(key, signer, r);
        Node { spec, key, signer, sig_ok: true, garbage: false, der }
    }
}

/// Whether the library family supports this signature kind by this key in certificates.
pub fn cert_sig_supported(s: Sig, k: &Key) -> bool {
    match (s, &k.kind) {
        (Sig::Ecdsa(h), Kind::Ec(c, _)) => (c.bits == 256 || c.bits == 384) && (h == H::Sha256 || h == H::Sha384),
        (Sig::Ed25519, Kind::Ed(_)) => true,
        (Sig::Pkcs1(h), Kind::Rsa { bits, .. }) | (Sig::Pss(h), Kind::Rsa { bits, .. }) => h != H::Sha1 && *bits >= 2048,
        _ => false,
    }
}

pub fn lower(s: &str) -> String {
    s.to_ascii_lowercase()
}
pub fn strip(s: &str) -> &str {
    s.strip_suffix('.').unwrap_or(s)
}
pub fn name_matches(pattern: &str, host: &str) -> bool {
    let (p, h) = (lower(pattern), lower(strip(host)));
    if let Some(rest) = p.strip_prefix("*.") {
        match h.split_once('.') {
            Some((first, tail)) => !first.is_empty() && tail == rest,
            None => false,
        }
    } else {
        p == h
    }
}
pub fn within(host: &str, tree: &str) -> bool {
    let (h, t) = (lower(host), lower(tree));
    h == t || h.ends_with(&format!(".{t}"))
}

/// Independent path search.
pub fn valid_path(ee: &Node, inters: &[Node], roots: &[(Vec<u8>, &Key)], now: i64) -> bool {
    fn independent(n: &Node, now: i64, ee: bool, below: usize) -> bool {
        let s = &n.spec;
        if n.garbage || !s.v3 || s.unknown_critical || s.outer_sig.is_some() {
            return false;
        }
        if now < s.not_before || now > s.not_after {
            return false;
        }
        let (ca, plen) = match s.ca {
            Some((c, p)) => (c, p),
            None => (false, None),
        };
        if ca == ee {
            return false;
        }
        if !ee {
            if let Some(p) = plen {
                if below > p as usize {
                    return false;
                }
            }
        }
        if let Some(e) = &s.eku {
            if !e.iter().any(|o| o == SERVER_AUTH) {
                return false;
            }
        }
        true
    }
    fn go(path: &mut Vec<Node>, inters: &[Node], roots: &[(Vec<u8>, &Key)], now: i64) -> bool {
        let head = path.last().unwrap().clone();
        if !independent(&head, now, path.len() == 1, path.len().saturating_sub(2)) {
            return false;
        }
        for (subject, key) in roots {
            if *subject != head.spec.issuer {
                continue;
            }
            // every signature on the path
            let mut signer_spki = &key.spki;
            let mut ok = true;
            for n in path.iter().rev() {
                if !n.sig_ok || n.signer.spki != *signer_spki || !cert_sig_supported(n.spec.sig, n.signer) {
                    ok = false;
                    break;
                }
                signer_spki = &n.key.spki;
            }
            if !ok {
                continue;
            }
            // name constraints of every CA on the path bind the end entity's names
            let dns = path[0].spec.dns.clone().unwrap_or_default();
            for n in path.iter().skip(1) {
                for d in &dns {
                    if !n.spec.permitted.is_empty() && !n.spec.permitted.iter().any(|t| within(d, t)) {
                        ok = false;
                    }
                    if n.spec.excluded.iter().any(|t| within(d, t)) {
                        ok = false;
                    }
                }
            }
            if ok {
                return true;
            }
        }
        if path.len() > 6 {
            return false;
        }
        for i in inters {
            if i.garbage || !i.spec.v3 || i.spec.unknown_critical || i.spec.outer_sig.is_some() || i.spec.subject != head.spec.issuer {
                continue;
            }
            if path.iter().any(|p| p.key.spki == i.key.spki && p.spec.subject == i.spec.subject) {
                continue;
            }
            path.push(i.clone());
            let r = go(path, inters, roots, now);
            path.pop();
            if r {
                return true;
            }
        }
        false
    }
    go(&mut vec![ee.clone()], inters, roots, now)
}
pub fn acceptable(ee: &Node, inters: &[Node], roots: &[(Vec<u8>, &Key)], now: i64, host: &str) -> bool {
    valid_path(ee, inters, roots, now) && ee.spec.dns.iter().flatten().any(|p| name_matches(p, host))
}

// ------------------------------------------------------------------ generators

pub fn label(r: &mut R) -> String {
    let n = r.range(1, 8);
    (0..n).map(|i| if i > 0 && i + 1 < n && r.chance(1, 8) { '-' } else { *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char }).collect()
}
pub fn domain(r: &mut R) -> String {
    let n = r.range(1, 3);
    let mut l: Vec<String> = (0..n).map(|_| label(r)).collect();
    l.push((*r.pick(&["com", "io", "example", "co"])).into());
    l.join(".")
}
pub fn recase(r: &mut R, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect()
}

pub struct World {
    pub now: i64,
    pub host: String,
    pub ee: Node,
    pub inters: Vec<Node>,
    pub roots: Vec<(Vec<u8>, &'static Key)>,
}
impl World {
    pub fn anchors(&self) -> Vec<TrustAnchor<'static>> {
        self.roots.iter().map(|(s, k)| anchor(s, k)).collect()
    }
    pub fn chain(&self) -> Vec<Vec<u8>> {
        std::iter::once(&self.ee).chain(&self.inters).map(|n| n.der.clone()).collect()
    }
}

/// SANs that contain a match for `host`.
pub fn sans(r: &mut R, host: &str, match_it: bool) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..r.below(3) {
        v.push(domain(r));
    }
    let (_, tail) = host.split_once('.').unwrap();
    // near misses, always present sometimes
    if r.chance(1, 3) {
        v.push(format!("x{host}"));
    }
    if r.chance(1, 3) {
        v.push(format!("{}.{host}", label(r)));
    }
    if r.chance(1, 4) && tail.contains('.') {
        v.push(tail.to_string());
    }
    if r.chance(1, 4) {
        v.push(format!("*.{host}"));
    }
    if match_it {
        let m = if r.chance(1, 4) && tail.contains('.') { format!("*.{tail}") } else { host.to_string() };
        v.push(if r.chance(1, 3) { recase(r, &m) } else { m });
    }
    v.retain(|p| match_it || !name_matches(p, host));
    r.shuffle(&mut v);
    if v.is_empty() {
        v.push("other.example".into());
    }
    v
}

/// A sound world with `depth` intermediates and an end-entity key `ee_key` if given.
pub fn world(r: &mut R, depth: usize, ee_key: Option<&'static Key>) -> World {
    let now = match r.below(8) {
        0 => r.range(2_530_000_000, 4_000_000_000) as i64,
        1 => r.range(100_000_000, 900_000_000) as i64,
        _ => r.range(1_500_000_000, 2_000_000_000) as i64,
    };
    let host = loop {
        let d = domain(r);
        if d.matches('.').count() >= 1 {
            break d;
        }
    };
    let mut keys = some_keys(r, depth + 3);
    if let Some(k) = ee_key {
        keys.retain(|x| x.spki != k.spki);
        keys.insert(0, k);
    }
    let names: Vec<String> = (0..=depth).map(|i| format!("CA {i} {}", r.u32())).collect();
    // names[0] issues the end entity, names[depth] is the root.
    let key_of = |i: usize| keys[i + 1];
    let san = sans(r, &host, true);
    let how = key_of(0).usual(r);
    let ee_name = format!("ee {}", r.u16());
    let ee_spec = Spec::ee_spec(r, &ee_name, &names[0], how, now, san);
    let ee = Node::new(ee_spec, keys[0], key_of(0), r);
    let mut inters = vec![];
    for i in 0..depth {
        let how = key_of(i + 1).usual(r);
        let mut s = Spec::ca_spec(r, &names[i], &names[i + 1], how, now);
        if r.chance(1, 3) {
            s.ca = Some((true, Some(i as u8 + r.below(2) as u8)));
        }
        if r.chance(1, 3) {
            s.eku = Some(vec![SERVER_AUTH.to_vec()]);
        }
        inters.push(Node::new(s, key_of(i), key_of(i + 1), r));
    }
    let mut roots = vec![(name(&names[depth]), key_of(depth))];
    World { now, host, ee, inters, roots: { roots.shrink_to_fit(); roots } }
}
pub fn decorate(w: &mut World, r: &mut R) {
    // Unrelated or misleading extras that must not change the verdict.
    let spare = some_keys(r, 16);
    let used: Vec<Vec<u8>> = std::iter::once(&w.ee).chain(&w.inters).map(|n| n.key.spki.clone()).chain(w.roots.iter().map(|x| x.1.spki.clone())).collect();
    let spare: Vec<&'static Key> = spare.into_iter().filter(|k| !used.contains(&k.spki)).collect();
    if spare.len() < 2 {
        return;
    }
    let root_name = w.roots[0].0.clone();
    if r.bool() {
        w.roots.push((name(&format!("noise {}", r.u32())), spare[0]));
    }
    if r.chance(1, 3) {
        w.roots.push((root_name.clone(), spare[1])); // same name, other key
    }
    if r.chance(1, 3) {
        let k = w.roots[0].1;
        w.roots.push((name("another name"), k));
    }
    r.shuffle(&mut w.roots);
    if r.chance(1, 3) && !w.inters.is_empty() {
        // an expired twin of an intermediate
        let i = r.below(w.inters.len());
        let mut n = w.inters[i].clone();
        n.spec.not_after = w.now - 10;
        n.spec.not_before = w.now - 1000;
        n.der = n.spec.build(n.key, n.signer, r);
        w.inters.push(n);
    }
    if r.chance(1, 3) && !w.inters.is_empty() {
        // an intermediate of the same name with another key
        let i = r.below(w.inters.len());
        let mut n = w.inters[i].clone();
        n.key = spare[0];
        n.der = n.spec.build(n.key, n.signer, r);
        w.inters.push(n);
    }
    if r.chance(1, 4) {
        let how = spare[1].usual(r);
        let s = Spec::ca_spec(r, "noise ca", "noise root", how, w.now);
        w.inters.push(Node::new(s, spare[0], spare[1], r));
    }
    if r.chance(1, 4) {
        let mut n = w.ee.clone();
        n.garbage = true;
        let k = r.len(60);
        n.der = r.bytes(k);
        w.inters.push(n);
    }
    r.shuffle(&mut w.inters);
}


pub struct Defect {
    pub w: World,
    pub what: &'static str,
    /// Class of the error to expect.
    pub want: &'static str,
    pub depth: usize,
    pub on_ee: bool,
}
/// Number of kinds of defects.
pub const DEFECTS: usize = 22;

/// A sound world with one named defect.
pub fn defective(r: &mut R, kind: usize) -> Defect {
    let depth = r.range(0, 4);
    let depth = if matches!(kind, 2 | 3 | 4 | 7 | 10 | 13 | 18 | 19) { depth.max(1) } else { depth };
    let depth = if kind == 5 { depth.max(2) } else { depth };
    let mut w = world(r, depth, None);
    let pos = if depth > 0 { r.below(depth) } else { 0 };
    let spare: Vec<&'static Key> = {
        let used: Vec<Vec<u8>> = std::iter::once(&w.ee).chain(&w.inters).map(|n| n.key.spki.clone()).chain(w.roots.iter().map(|x| x.1.spki.clone())).collect();
        some_keys(r, 20).into_iter().filter(|k| !used.contains(&k.spki)).collect()
    };
    let on_ee = depth == 0 || r.bool();
    let mut want = "data";
    let rebuild = |n: &mut Node, r: &mut R| n.der = n.spec.build(n.key, n.signer, r);
    macro_rules! target { () => { if on_ee { &mut w.ee } else { &mut w.inters[pos] } } }
    let what = match kind {
        0 => {
            let back = if r.bool() { 1 } else { r.range(1, 100_000) as i64 };
            let now = w.now;
            let n = target!();
            n.spec.not_after = now - back;
            n.spec.not_before = n.spec.not_after - r.range(1, 1000) as i64;
            rebuild(n, r);
            "expired"
        }
        1 => {
            let fwd = if r.bool() { 1 } else { r.range(1, 100_000) as i64 };
            let now = w.now;
            let n = target!();
            n.spec.not_before = now + fwd;
            n.spec.not_after = now + fwd + 1000;
            rebuild(n, r);
            "not yet valid"
        }
        2 => {
            w.inters.remove(pos);
            "missing intermediate"
        }
        3 => {
            w.inters[pos].spec.ca = None;
            rebuild(&mut w.inters[pos], r);
            "issuer without CA flag"
        }
        4 => {
            w.inters[pos].spec.ca = Some((false, None));
            rebuild(&mut w.inters[pos], r);
            "issuer is not a CA"
        }
        5 => {
            let p = r.range(1, depth - 1);
            w.inters[p].spec.ca = Some((true, Some(r.below(p) as u8)));
            rebuild(&mut w.inters[p], r);
            "path length"
        }
        6 => {
            w.ee.spec.ca = Some((true, None));
            rebuild(&mut w.ee, r);
            "CA as end entity"
        }
        7 => {
            w.inters[pos].spec.eku = Some(vec![CLIENT_AUTH.to_vec()]);
            rebuild(&mut w.inters[pos], r);
            "issuer with other usage"
        }
        8 => {
            w.ee.spec.eku = Some(vec![CLIENT_AUTH.to_vec(), vec![1, 3, 6, 1, 5, 5, 7, 3, 4]]);
            rebuild(&mut w.ee, r);
            "end entity with other usage"
        }
        9 => {
            let s = sans(r, &w.host, false);
            w.ee.spec.dns = Some(s);
            rebuild(&mut w.ee, r);
            "name not in certificate"
        }
        10 => {
            let tree = if r.bool() { domain(r) } else { format!("x{}", w.host) };
            w.ee.spec.dns = Some(vec![w.host.clone()]);
            rebuild(&mut w.ee, r);
            if within(&w.host, &tree) || r.bool() {
                let (_, tail) = w.host.split_once('.').unwrap();
                w.inters[pos].spec.excluded = vec!["zzz.example".into(), if r.bool() { w.host.clone() } else { tail.into() }];
            } else {
                w.inters[pos].spec.permitted = vec![tree];
            }
            rebuild(&mut w.inters[pos], r);
            "name constraint"
        }
        11 => {
            target!().spec.unknown_critical = true;
            rebuild(target!(), r);
            "unknown critical extension"
        }
        12 => {
            w.roots = vec![(w.roots[0].0.clone(), spare[0])];
            want = "signature*";
            "root with other key"
        }
        13 => {
            w.inters[pos].key = spare[0];
            rebuild(&mut w.inters[pos], r);
            want = "signature*";
            "intermediate with other key"
        }
        14 => {
            let n = target!();
            n.signer = spare[0];
            n.spec.sig = spare[0].usual(r);
            rebuild(n, r);
            want = "signature*";
            "signed by another key"
        }
        15 => {
            w.roots = vec![(name("somebody else"), w.roots[0].1)];
            "root with other name"
        }
        16 => {
            w.roots.clear();
            "no roots"
        }
        17 => {
            let n = target!();
            n.sig_ok = false;
            let tbs = n.spec.tbs(&n.key.spki);
            let mut other = tbs.clone();
            let k = other.len() - 1 - r.below(8);
            other[k] ^= 1 << r.below(8);
            let sig = n.signer.sign(n.spec.sig, &other, r);
            n.der = assemble(&tbs, n.spec.sig, &sig);
            want = "signature";
            "signature over other bytes"
        }
        18 => {
            let p = r.below(depth);
            let n = &mut w.inters[p];
            n.garbage = true;
            let cut = r.below(n.der.len());
            n.der.truncate(cut);
            "truncated intermediate"
        }
        19 => {
            // the issuer named in the certificate below does not match
            w.inters[pos].spec.subject = name("renamed");
            rebuild(&mut w.inters[pos], r);
            "renamed intermediate"
        }
        20 => {
            let n = target!();
            n.spec.v3 = false;
            rebuild(n, r);
            "not version 3"
        }
        _ => {
            let n = target!();
            let mut alts: Vec<Sig> = n.signer.can();
            alts.retain(|s| !cert_sig_supported(*s, n.signer));
            if alts.is_empty() {
                n.sig_ok = false;
                let k = n.der.len() - 1;
                n.der[k] ^= 1;
                "bad signature"
            } else {
                n.spec.sig = *r.pick(&alts);
                rebuild(n, r);
                want = "signature type";
                "unsupported signature algorithm"
            }
        }
    };
    if what == "bad signature" {
        want = "signature";
    }
    if what == "not version 3" || what == "truncated intermediate" {
        want = "any";
    }
    let extra = r.chance(1, 3) && !matches!(kind, 12 | 13 | 14 | 16 | 17 | 21);
    if extra {
        r.shuffle(&mut w.inters);
    }
    Defect { w, what, want, depth, on_ee }
}

pub fn graph(r: &mut R) -> World {
    // Random certificate graphs: few names and keys, many cross certificates, some unusable.
    let keys = some_keys(r, 6);
    let now = r.range(1_500_000_000, 2_000_000_000) as i64;
    let host = domain(r);
    let nm = |i: usize| format!("node {i}");
    let n_nodes = r.range(2, 4);
    let mut inters = vec![];
    let n = r.range(1, 6);
    for _ in 0..n {
        let s = r.below(n_nodes);
        let i = r.below(n_nodes);
        let subj = keys[if r.chance(5, 6) { s } else { r.below(n_nodes) }];
        let signer = keys[if r.chance(5, 6) { i } else { r.below(n_nodes) }];
        let how = signer.usual(r);
        let mut spec = Spec::ca_spec(r, &nm(s), &nm(i), how, now);
        match r.below(14) {
            0 => spec.not_after = now - 1,
            1 => spec.ca = Some((false, None)),
            2 => spec.ca = Some((true, Some(0))),
            3 => spec.eku = Some(vec![CLIENT_AUTH.to_vec()]),
            4 => spec.excluded = vec![host.clone()],
            5 => spec.permitted = vec![host.clone()],
            6 => spec.not_before = now + 1,
            _ => {}
        }
        if spec.not_before > spec.not_after {
            spec.not_before = spec.not_after - 5;
        }
        inters.push(Node::new(spec, subj, signer, r));
    }
    let i = r.below(n_nodes);
    let signer = keys[i];
    let how = signer.usual(r);
    let ee_spec = Spec::ee_spec(r, "leaf", &nm(i), how, now, vec![host.clone()]);
    let ee = Node::new(ee_spec, keys[5], signer, r);
    let mut roots = vec![];
    for _ in 0..r.range(1, 2) {
        let k = r.below(n_nodes);
        roots.push((name(&nm(k)), keys[if r.chance(5, 6) { k } else { 4 }]));
    }
    World { now, host, ee, inters, roots }
}
