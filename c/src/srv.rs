//! A small TLS 1.2 server of our own, with a hook at every step.
use crate::{
    pki::{self, H, Key, Sig, Spec},
    util::{prf, sha},
};
use ring::aead::{AES_128_GCM, Aad, LessSafeKey, Nonce, UnboundKey};
use vfw::R;

pub const HS: u8 = 22;
pub const CCS: u8 = 20;
pub const ALERT: u8 = 21;
pub const APP: u8 = 23;

/// Who the server is.
#[derive(Clone)]
pub struct Ident {
    pub host: String,
    pub chain: Vec<Vec<u8>>,
    pub root_name: Vec<u8>,
    pub root_key: &'static Key,
    pub key: &'static Key,
    pub scheme: u16,
    pub sig: Sig,
}
/// What is wrong with the server's certificate chain.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Expired,
    Early,
    Host,
    Root,
    Usage,
    CaMissing,
    Signature,
    Order,
    Empty,
}
pub fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(0)
}
pub fn schemes(k: &Key) -> Vec<(u16, Sig)> {
    match () {
        _ if k.name.starts_with("p256") => vec![(0x0403, Sig::Ecdsa(H::Sha256))],
        _ if k.name.starts_with("p384") => vec![(0x0503, Sig::Ecdsa(H::Sha384))],
        _ if k.name.starts_with("ed") => vec![(0x0807, Sig::Ed25519)],
        _ => vec![
            (0x0401, Sig::Pkcs1(H::Sha256)),
            (0x0501, Sig::Pkcs1(H::Sha384)),
            (0x0601, Sig::Pkcs1(H::Sha512)),
            (0x0804, Sig::Pss(H::Sha256)),
            (0x0805, Sig::Pss(H::Sha384)),
            (0x0806, Sig::Pss(H::Sha512)),
        ],
    }
}
pub fn ident(r: &mut R, host: &str, bad: Option<Bad>) -> Ident {
    let p = pki::pool();
    let key: &'static Key = match r.below(8) {
        0 => &p.rsa[r.below(3)],
        1 => &p.p384[r.below(p.p384.len())],
        2 => &p.ed[r.below(p.ed.len())],
        _ => &p.p256[r.below(4)],
    };
    let (ik, rk) = (&p.p256[4 + r.below(2)], &p.p256[6 + r.below(2)]);
    let depth = if matches!(bad, Some(Bad::CaMissing | Bad::Order)) { 1 } else { r.below(2) };
    let t = now();
    let wide = |s: &mut Spec| {
        s.not_before = t - 100_000;
        s.not_after = t + 10_000_000;
    };
    let how = Sig::Ecdsa(H::Sha256);
    let (in_, rn) = (format!("inter {}", r.u32()), format!("root {}", r.u32()));
    let (issuer, ikey) = if depth == 1 { (&in_, ik) } else { (&rn, rk) };
    let dns = if bad == Some(Bad::Host) { format!("other.{host}") } else { host.to_string() };
    let mut ee = Spec::ee_spec(r, "server", issuer, how, t, vec![dns]);
    wide(&mut ee);
    match bad {
        Some(Bad::Expired) => ee.not_after = t - 50_000,
        Some(Bad::Early) => ee.not_before = t + 50_000,
        Some(Bad::Usage) => ee.eku = Some(vec![pki::CLIENT_AUTH.to_vec()]),
        _ => {}
    }
    let mut chain = vec![ee.build(key, ikey, r)];
    if bad == Some(Bad::Signature) {
        let n = chain[0].len();
        chain[0][n - 3] ^= 1;
    }
    if depth == 1 {
        let mut s = Spec::ca_spec(r, &in_, &rn, how, t);
        wide(&mut s);
        chain.push(s.build(ik, rk, r));
    }
    match bad {
        Some(Bad::CaMissing) => {
            chain.pop();
        }
        Some(Bad::Order) => chain.reverse(),
        Some(Bad::Empty) => chain.clear(),
        _ => {}
    }
    let (scheme, sig) = *r.pick(&schemes(key));
    let other = if rk.spki == p.p256[6].spki { &p.p256[7] } else { &p.p256[6] };
    Ident { host: host.into(), chain, root_name: pki::name(&rn), root_key: if bad == Some(Bad::Root) { other } else { rk }, key, scheme, sig }
}
impl Ident {
    /// The root as a certificate.
    pub fn root_der(&self, r: &mut R) -> Vec<u8> {
        let mut s = Spec::ca_spec(r, "", "", Sig::Ecdsa(H::Sha256), now());
        s.subject = self.root_name.clone();
        s.issuer = self.root_name.clone();
        s.not_before = now() - 100_000;
        s.not_after = now() + 10_000_000;
        s.build(self.root_key, self.root_key, r)
    }
}

pub fn be(n: usize, len: usize) -> Vec<u8> {
    n.to_be_bytes()[8 - len..].to_vec()
}
pub fn vec8(b: &[u8]) -> Vec<u8> {
    [&be(b.len(), 1)[..], b].concat()
}
pub fn vec16(b: &[u8]) -> Vec<u8> {
    [&be(b.len(), 2)[..], b].concat()
}
pub fn vec24(b: &[u8]) -> Vec<u8> {
    [&be(b.len(), 3)[..], b].concat()
}
pub fn hs(typ: u8, body: &[u8]) -> Vec<u8> {
    [&[typ][..], &vec24(body)].concat()
}
pub fn record(ct: u8, ver: u16, b: &[u8]) -> Vec<u8> {
    [&[ct][..], &ver.to_be_bytes(), &vec16(b)].concat()
}
/// The complete records of a buffer (type, version, payload); they are removed from it.
pub fn records(b: &mut Vec<u8>) -> Vec<(u8, u16, Vec<u8>)> {
    let mut at = 0;
    let mut out = vec![];
    while b.len() - at >= 5 {
        let l = u16::from_be_bytes([b[at + 3], b[at + 4]]) as usize;
        if b.len() - at < 5 + l {
            break;
        }
        out.push((b[at], u16::from_be_bytes([b[at + 1], b[at + 2]]), b[at + 5..at + 5 + l].to_vec()));
        at += 5 + l;
    }
    b.drain(..at);
    out
}

/// One direction's protection.
pub struct Gcm {
    key: LessSafeKey,
    iv: [u8; 4],
    pub seq: u64,
}
impl Gcm {
    pub fn new(key: &[u8], iv: &[u8]) -> Self {
        Gcm { key: LessSafeKey::new(UnboundKey::new(&AES_128_GCM, key).unwrap()), iv: iv.try_into().unwrap(), seq: 0 }
    }
    fn aad(seq: u64, ct: u8, ver: u16, len: usize) -> Vec<u8> {
        [&seq.to_be_bytes()[..], &[ct], &ver.to_be_bytes(), &be(len, 2)].concat()
    }
    fn nonce(&self, e: &[u8]) -> Nonce {
        Nonce::assume_unique_for_key([&self.iv[..], e].concat().try_into().unwrap())
    }
    /// Explicit nonce, ciphertext, tag.
    pub fn seal(&mut self, ct: u8, ver: u16, e: [u8; 8], p: &[u8]) -> Vec<u8> {
        let mut b = p.to_vec();
        let aad = Self::aad(self.seq, ct, ver, p.len());
        self.key.seal_in_place_append_tag(self.nonce(&e), Aad::from(aad), &mut b).unwrap();
        self.seq += 1;
        [&e[..], &b].concat()
    }
    /// The first bytes of the keystream of a record.
    pub fn stream(&self, e: &[u8]) -> Vec<u8> {
        let mut b = vec![0; 16];
        if e.len() == 8 {
            self.key.seal_in_place_append_tag(self.nonce(e), Aad::empty(), &mut b).unwrap();
        }
        b.truncate(16);
        b
    }
    pub fn open(&mut self, ct: u8, ver: u16, p: &[u8]) -> Option<Vec<u8>> {
        if p.len() < 24 {
            return None;
        }
        let aad = Self::aad(self.seq, ct, ver, p.len() - 24);
        let mut b = p[8..].to_vec();
        let n = self.key.open_in_place(self.nonce(&p[..8]), Aad::from(aad), &mut b).ok()?.len();
        b.truncate(n);
        self.seq += 1;
        Some(b)
    }
}

/// ServerHello and the rest of the first flight.
#[derive(Clone)]
pub struct Flight {
    pub version: u16,
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suite: u16,
    pub comp: u8,
    pub exts: Vec<(u16, Vec<u8>)>,
    pub certs: Vec<Vec<u8>>,
    pub status: Option<Vec<u8>>,
    pub curve_type: u8,
    pub group: u16,
    pub point: Vec<u8>,
    pub scheme: u16,
    pub sig: Vec<u8>,
    pub creq: bool,
}
impl Flight {
    pub fn params(&self) -> Vec<u8> {
        [&[self.curve_type][..], &self.group.to_be_bytes(), &vec8(&self.point)].concat()
    }
    pub fn msgs(&self) -> Vec<Msg> {
        let mut sh = [&self.version.to_be_bytes()[..], &self.random, &vec8(&self.sid), &self.suite.to_be_bytes(), &[self.comp]].concat();
        if !self.exts.is_empty() {
            let e: Vec<u8> = self.exts.iter().flat_map(|(t, b)| [&t.to_be_bytes()[..], &vec16(b)].concat()).collect();
            sh.extend(vec16(&e));
        }
        let certs: Vec<u8> = self.certs.iter().flat_map(|c| vec24(c)).collect();
        let mut v = vec![Msg::hs("ServerHello", 2, &sh), Msg::hs("Certificate", 11, &vec24(&certs))];
        if let Some(s) = &self.status {
            v.push(Msg::hs("CertificateStatus", 22, &[&[1][..], &vec24(s)].concat()));
        }
        let kx = [&self.params()[..], &self.scheme.to_be_bytes(), &vec16(&self.sig)].concat();
        v.push(Msg::hs("ServerKeyExchange", 12, &kx));
        if self.creq {
            let s: Vec<u8> = [0x0403u16, 0x0804, 0x0401].iter().flat_map(|s| s.to_be_bytes()).collect();
            v.push(Msg::hs("CertificateRequest", 13, &[&vec8(&[64, 1])[..], &vec16(&s), &vec16(&[])].concat()));
        }
        v.push(Msg::hs("ServerHelloDone", 14, &[]));
        v
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub name: &'static str,
    pub ct: u8,
    pub data: Vec<u8>,
}
impl Msg {
    pub fn hs(name: &'static str, typ: u8, body: &[u8]) -> Self {
        Msg { name, ct: HS, data: hs(typ, body) }
    }
    pub fn ccs() -> Self {
        Msg { name: "ChangeCipherSpec", ct: CCS, data: vec![1] }
    }
}
pub type FlightHook = Box<dyn FnMut(&mut Flight, &mut R) + Send>;
pub type ListHook = Box<dyn FnMut(&mut Vec<Msg>, &mut R) + Send>;
pub type WireHook = Box<dyn FnMut(usize, Vec<u8>) -> Vec<Vec<u8>> + Send>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Hello,
    Kx,
    Ccs,
    Finished,
    Traffic,
    Dead,
}
pub struct ClientHello {
    pub version: u16,
    pub random: Vec<u8>,
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub exts: Vec<(u16, Vec<u8>)>,
}
pub fn client_hello(b: &[u8]) -> Option<ClientHello> {
    let mut at = 4;
    let mut take = |n: usize| -> Option<&[u8]> {
        let s = b.get(at..at + n)?;
        at += n;
        Some(s)
    };
    let n16 = |s: &[u8]| u16::from_be_bytes([s[0], s[1]]);
    let version = n16(take(2)?);
    let random = take(32)?.to_vec();
    let n = take(1)?[0] as usize;
    let sid = take(n)?.to_vec();
    let n = n16(take(2)?) as usize;
    let suites = take(n)?.chunks(2).map(n16).collect();
    let n = take(1)?[0] as usize;
    take(n)?;
    let n = n16(take(2)?) as usize;
    let mut e = take(n)?;
    let mut exts = vec![];
    while e.len() >= 4 {
        let (t, l) = (n16(e), n16(&e[2..]) as usize);
        exts.push((t, e.get(4..4 + l)?.to_vec()));
        e = &e[4 + l..];
    }
    Some(ClientHello { version, random, sid, suites, exts })
}

pub struct Srv {
    pub id: Ident,
    pub r: R,
    pub stage: Stage,
    inb: Vec<u8>,
    hsbuf: Vec<u8>,
    pub hello: Option<ClientHello>,
    eph: Option<ring::agreement::EphemeralPrivateKey>,
    /// Handshake messages as this server knows them.
    pub log: Vec<u8>,
    pub server_random: [u8; 32],
    pub ms: Vec<u8>,
    /// Client write key, server write key, client IV, server IV.
    pub keys: Vec<u8>,
    pub rd: Option<Gcm>,
    pub wr: Option<Gcm>,
    wrote_ccs: bool,
    n: usize,
    /// Applied before the key exchange is signed, as a hostile server would.
    pub pre: Option<FlightHook>,
    /// Applied to the signed flight, as an attacker on the way would.
    pub post: Option<FlightHook>,
    /// Applied to the messages of the first flight.
    pub list: Option<ListHook>,
    /// The same for the second.
    pub fin: Option<ListHook>,
    /// Applied to every record.
    pub wire: Option<WireHook>,
    /// The handshake hash covers what was meant, not what was sent.
    pub mitm: bool,
    /// Extra extensions and options.
    pub status: bool,
    pub creq: bool,
    pub alpn: Option<Vec<u8>>,
    /// Split and join records.
    pub mix: bool,
    pub random_nonces: bool,
    /// Also split protected messages.
    pub split_finished: bool,
    /// The version in the headers of protected records.
    pub got: Vec<(u8, Vec<u8>)>,
    /// Explicit nonces of the client's records.
    pub nonces: Vec<Vec<u8>>,
    /// What must stay between the prover and this server.
    pub secrets: Vec<Vec<u8>>,
    pub app_in: Vec<u8>,
    pub app_out: Vec<u8>,
    pub client_finished_ok: Option<bool>,
    pub client_cert: Option<Vec<u8>>,
    /// What the client signed, and its message.
    pub cert_verify: Option<(Vec<u8>, Vec<u8>)>,
    pub no_exts: bool,
    pub trouble: Option<String>,
    /// Everything sent and received, for a verifier in between.
    pub raw_out: Vec<u8>,
}
impl Srv {
    pub fn new(id: Ident, r: &mut R) -> Self {
        Srv {
            id,
            r: R::new(r.u64(), "server", 0),
            stage: Stage::Hello,
            inb: vec![],
            hsbuf: vec![],
            hello: None,
            eph: None,
            log: vec![],
            server_random: [0; 32],
            ms: vec![],
            keys: vec![],
            rd: None,
            wr: None,
            wrote_ccs: false,
            n: 0,
            pre: None,
            post: None,
            list: None,
            fin: None,
            wire: None,
            mitm: false,
            status: false,
            creq: false,
            alpn: None,
            mix: true,
            random_nonces: true,
            split_finished: false,
            got: vec![],
            nonces: vec![],
            secrets: vec![],
            app_in: vec![],
            app_out: vec![],
            client_finished_ok: None,
            client_cert: None,
            cert_verify: None,
            no_exts: false,
            trouble: None,
            raw_out: vec![],
        }
    }
    fn put(&mut self, rec: Vec<u8>, out: &mut Vec<u8>) {
        let n = self.n;
        self.n += 1;
        let v = match &mut self.wire {
            Some(f) => f(n, rec),
            None => vec![rec],
        };
        v.iter().for_each(|x| out.extend(x));
    }
    /// Sends a message, protected if the cipher was changed.
    pub fn emit(&mut self, ct: u8, data: &[u8], out: &mut Vec<u8>) {
        let rec = match (&mut self.wr, self.wrote_ccs) {
            (Some(g), true) => {
                let e = if self.random_nonces { self.r.arr() } else { g.seq.to_be_bytes() };
                if ct == APP && data.len() >= 8 {
                    self.secrets.push(g.stream(&e)[..data.len().min(16)].to_vec());
                    self.secrets.push(data[..data.len().min(16)].to_vec());
                }
                record(ct, 0x0303, &g.seal(ct, 0x0303, e, data))
            }
            _ => record(ct, 0x0303, data),
        };
        if ct == APP {
            self.app_out.extend_from_slice(data);
        }
        self.put(rec, out);
    }
    pub fn send(&mut self, ct: u8, data: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        self.emit(ct, data, &mut out);
        out
    }
    fn emit_list(&mut self, v: &[Msg], out: &mut Vec<u8>) {
        let mut i = 0;
        while i < v.len() {
            let m = &v[i];
            if m.ct != HS || !self.mix {
                self.emit(m.ct, &m.data, out);
                if m.ct == CCS {
                    self.wrote_ccs = true;
                }
                i += 1;
                continue;
            }
            let mut run = m.data.clone();
            let mut j = i + 1;
            while j < v.len() && v[j].ct == HS {
                run.extend(&v[j].data);
                j += 1;
            }
            // the same bytes in records of arbitrary sizes
            match if self.wrote_ccs && !self.split_finished { 0 } else { self.r.below(3) } {
                0 => v[i..j].iter().for_each(|m| self.emit(HS, &m.data.clone(), out)),
                1 => run.chunks(16384).for_each(|c| self.emit(HS, c, out)),
                _ => {
                    let mut at = 0;
                    while at < run.len() {
                        let n = (1 + self.r.below(if self.wrote_ccs { 40 } else { 700 })).min(run.len() - at);
                        self.emit(HS, &run[at..at + n].to_vec(), out);
                        at += n;
                    }
                }
            }
            i = j;
        }
    }
    /// Takes bytes of the client, gives bytes for it.
    pub fn feed(&mut self, b: &[u8]) -> Vec<u8> {
        self.inb.extend_from_slice(b);
        let mut out = vec![];
        let mut inb = std::mem::take(&mut self.inb);
        let recs = records(&mut inb);
        self.inb = inb;
        for (ct, ver, p) in recs {
            if self.stage == Stage::Dead {
                break;
            }
            if let Err(e) = self.step(ct, ver, p, &mut out) {
                self.trouble.get_or_insert(e);
                self.stage = Stage::Dead;
            }
        }
        out
    }
    fn step(&mut self, ct: u8, ver: u16, p: Vec<u8>, out: &mut Vec<u8>) -> Result<(), String> {
        let p = match (&mut self.rd, matches!(self.stage, Stage::Finished | Stage::Traffic)) {
            (Some(g), true) => {
                self.nonces.push(p.get(..8).unwrap_or(&[]).to_vec());
                let e = p.get(..8).unwrap_or(&[]).to_vec();
                let d = g.open(ct, ver, &p).ok_or_else(|| format!("a record of type {ct} of the client does not decrypt"))?;
                if ct == APP && d.len() >= 8 {
                    self.secrets.push(g.stream(&e)[..d.len().min(16)].to_vec());
                    self.secrets.push(d[..d.len().min(16)].to_vec());
                }
                d
            }
            _ => p,
        };
        self.got.push((ct, p.clone()));
        match ct {
            HS => {
                self.hsbuf.extend(p);
                loop {
                    let b = &self.hsbuf;
                    if b.len() < 4 {
                        return Ok(());
                    }
                    let n = 4 + u32::from_be_bytes([0, b[1], b[2], b[3]]) as usize;
                    if b.len() < n {
                        return Ok(());
                    }
                    let m: Vec<u8> = self.hsbuf.drain(..n).collect();
                    self.handshake(m, out)?;
                }
            }
            CCS => {
                if self.stage != Stage::Ccs {
                    return Err(format!("ChangeCipherSpec at {:?}", self.stage));
                }
                self.stage = Stage::Finished;
            }
            APP => {
                if self.stage != Stage::Traffic {
                    return Err(format!("application data at {:?}", self.stage));
                }
                self.app_in.extend(p);
            }
            ALERT => {}
            _ => return Err(format!("record type {ct}")),
        }
        Ok(())
    }
    fn handshake(&mut self, m: Vec<u8>, out: &mut Vec<u8>) -> Result<(), String> {
        match (self.stage, m[0]) {
            (Stage::Hello, 1) => {
                self.hello = Some(client_hello(&m).ok_or("ClientHello does not parse")?);
                self.log.extend(&m);
                self.first_flight(out);
                self.stage = Stage::Kx;
            }
            (Stage::Kx, 11) => {
                self.client_cert = Some(m[4..].to_vec());
                self.log.extend(&m);
            }
            (Stage::Kx, 16) => {
                self.log.extend(&m);
                let pk = m.get(5..).unwrap_or(&[]);
                let peer = ring::agreement::UnparsedPublicKey::new(&ring::agreement::ECDH_P256, pk);
                let eph = self.eph.take().ok_or("second ClientKeyExchange")?;
                let pms = ring::agreement::agree_ephemeral(eph, &peer, |z| z.to_vec()).map_err(|_| "bad client key".to_string())?;
                let cr = self.hello.as_ref().unwrap().random.clone();
                self.ms = prf(&pms, b"master secret", &[&cr[..], &self.server_random].concat(), 48);
                self.keys = prf(&self.ms, b"key expansion", &[&self.server_random[..], &cr].concat(), 40);
                self.secrets.extend([self.keys[..16].to_vec(), self.keys[16..32].to_vec(), self.ms[..16].to_vec(), pms[..16].to_vec()]);
                self.rd = Some(Gcm::new(&self.keys[..16], &self.keys[32..36]));
                self.wr = Some(Gcm::new(&self.keys[16..32], &self.keys[36..40]));
                self.stage = Stage::Ccs;
            }
            (Stage::Ccs, 15) => {
                self.cert_verify = Some((self.log.clone(), m[4..].to_vec()));
                self.log.extend(&m)
            }
            (Stage::Finished, 20) => {
                let want = prf(&self.ms, b"client finished", &sha(&self.log), 12);
                let ok = m[4..] == want[..];
                self.client_finished_ok = Some(ok);
                if !ok && !self.mitm {
                    return Err("client Finished is wrong".into());
                }
                self.log.extend(&m);
                let sf = prf(&self.ms, b"server finished", &sha(&self.log), 12);
                let mut v = vec![Msg::ccs(), Msg::hs("Finished", 20, &sf)];
                if let Some(f) = &mut self.fin {
                    f(&mut v, &mut self.r);
                }
                self.stage = Stage::Traffic;
                self.emit_list(&v, out);
            }
            (s, t) => return Err(format!("handshake message {t} at {s:?}")),
        }
        Ok(())
    }
    fn first_flight(&mut self, out: &mut Vec<u8>) {
        let rng = ring::rand::SystemRandom::new();
        let eph = ring::agreement::EphemeralPrivateKey::generate(&ring::agreement::ECDH_P256, &rng).unwrap();
        let point = eph.compute_public_key().unwrap().as_ref().to_vec();
        self.eph = Some(eph);
        let rsa = self.id.key.name.starts_with("rsa");
        let ch = self.hello.as_ref().unwrap();
        let mut exts = vec![];
        if self.r.bool() {
            exts.push((0xff01, vec![0]));
        }
        if self.r.bool() {
            exts.push((11, vec![1, 0]));
        }
        if self.r.bool() && ch.exts.iter().any(|e| e.0 == 0) {
            exts.push((0, vec![]));
        }
        if self.status {
            exts.push((5, vec![]));
        }
        if let Some(a) = &self.alpn {
            exts.push((16, vec16(&vec8(a))));
        }
        self.r.shuffle(&mut exts);
        if self.no_exts {
            exts.clear();
        } else if exts.is_empty() {
            exts.push((0xff01, vec![0]));
        }
        let sid = match self.r.below(3) {
            0 => vec![],
            1 => self.r.bytes(32),
            _ => ch.sid.clone(),
        };
        let mut f = Flight {
            version: 0x0303,
            random: self.r.arr(),
            sid,
            suite: if rsa { 0xc02f } else { 0xc02b },
            comp: 0,
            exts,
            certs: self.id.chain.clone(),
            status: (self.status && self.r.bool()).then(|| {
                let n = 1 + self.r.below(60);
                self.r.bytes(n)
            }),
            curve_type: 3,
            group: 23,
            point,
            scheme: self.id.scheme,
            sig: vec![],
            creq: self.creq,
        };
        if let Some(h) = &mut self.pre {
            h(&mut f, &mut self.r);
        }
        let ch = self.hello.as_ref().unwrap();
        let m = [&ch.random[..], &f.random, &f.params()].concat();
        f.sig = self.id.key.sign(self.id.sig, &m, &mut self.r);
        let meant = f.msgs();
        self.server_random = f.random;
        if let Some(h) = &mut self.post {
            h(&mut f, &mut self.r);
            if !self.mitm {
                self.server_random = f.random;
            }
        }
        let mut v = f.msgs();
        if let Some(h) = &mut self.list {
            h(&mut v, &mut self.r);
        }
        for m in if self.mitm { &meant } else { &v } {
            if m.ct == HS {
                self.log.extend(&m.data);
            }
        }
        self.emit_list(&v, out);
    }
}
