//! Independent model of the TLS handshake message syntax (RFC 5246, 6066, 7301,
//! 7627, 8446): typed model values, an encoder and a generator.  Nothing here
//! uses the codecs of the code under test; `build` constructs the corresponding
//! library value through its public fields.
use tls_core::key::Certificate;
use tls_core::msgs::base::*;
use tls_core::msgs::codec::Codec;
use tls_core::msgs::enums::*;
use tls_core::msgs::handshake as h;
use vfw::R;

pub fn p16(o: &mut Vec<u8>, v: u16) {
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn p24(o: &mut Vec<u8>, v: usize) {
    o.push((v >> 16) as u8);
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&[(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
}
pub fn v8(o: &mut Vec<u8>, b: &[u8]) {
    let (n, b) = spoiled(b, 255);
    assert!(n < 256);
    o.push(n as u8);
    o.extend_from_slice(&b);
}
pub fn v16(o: &mut Vec<u8>, b: &[u8]) {
    let (n, b) = spoiled(b, 65535);
    assert!(n < 65536);
    p16(o, n as u16);
    o.extend_from_slice(&b);
}
pub fn v24(o: &mut Vec<u8>, b: &[u8]) {
    let (n, b) = spoiled(b, 0xff_ffff);
    p24(o, n);
    o.extend_from_slice(&b);
}

// One length-prefixed vector of an encoding can be spoiled, with every
// enclosing length consistent with the result.
#[derive(Clone, Copy)]
pub struct Spoil {
    pub kind: u8,
    pub at: u32,
    pub byte: u8,
}
pub const SPOILS: u8 = 10;
thread_local! {
    static SPOIL: std::cell::Cell<(usize, Option<(usize, Spoil)>)> = const { std::cell::Cell::new((0, None)) };
}
/// Runs `f` (an encoder) and counts the vectors it writes, innermost first; spoils the `nth` of them.
pub fn spoiling<T>(which: Option<(usize, Spoil)>, f: impl FnOnce() -> T) -> (T, usize) {
    SPOIL.set((0, which));
    let v = f();
    let n = SPOIL.get().0;
    SPOIL.set((0, None));
    (v, n)
}
fn spoiled(b: &[u8], max: usize) -> (usize, Vec<u8>) {
    let (k, w) = SPOIL.get();
    SPOIL.set((k + 1, w));
    let mut v = b.to_vec();
    let sp = match w {
        Some((n, sp)) if n == k => sp,
        _ => return (v.len(), v),
    };
    let i = sp.at as usize % v.len().max(1);
    let mut delta = 0isize;
    match sp.kind {
        0 => v.clear(),
        1 => v.push(sp.byte),
        2 => {
            v.pop();
        }
        3 if !v.is_empty() => {
            v.remove(i);
        }
        4 => delta = 1,
        5 => delta = -1,
        6 if !v.is_empty() => v[i] ^= sp.byte.max(1),
        7 => {
            let c = v.clone();
            v.extend(c);
        }
        8 => v.truncate(i),
        9 => v.insert(i, sp.byte),
        _ => {}
    }
    if v.len() > max {
        v.truncate(max);
    }
    ((v.len() as isize + delta).clamp(0, max as isize) as usize, v)
}

pub type B = Vec<u8>;

#[derive(Clone, Debug, PartialEq)]
pub enum CExt {
    PointFormats(B),
    Groups(Vec<u16>),
    SigAlgs(Vec<u16>),
    /// host names; a trailing (type, rest) models an unknown name type that swallows the rest
    Sni(Vec<String>, Option<(u8, B)>),
    Ticket(B),
    Alpn(Vec<B>),
    Versions(Vec<u16>),
    KeyShare(Vec<(u16, B)>),
    PskModes(B),
    Psk(Vec<(B, u32)>, Vec<B>),
    Cookie(B),
    Ems,
    StatusOcsp(Vec<B>, B),
    StatusOther(u8, B),
    SctReq,
    QuicParams(B),
    QuicDraft(B),
    EarlyData,
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub enum SExt {
    PointFormats(B),
    SniAck,
    TicketAck,
    Reneg(B),
    Alpn(Vec<B>),
    KeyShare(u16, B),
    Psk(u16),
    Ems,
    StatusAck,
    Sct(Vec<B>),
    Version(u16),
    QuicParams(B),
    QuicDraft(B),
    EarlyData,
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub enum HExt {
    KeyShare(u16),
    Cookie(B),
    Version(u16),
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub enum CertExt {
    Ocsp(B),
    Sct(Vec<B>),
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub enum CrExt {
    SigAlgs(Vec<u16>),
    Authorities(Vec<B>),
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub enum TExt {
    EarlyData(u32),
    Unknown(u16, B),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ch {
    pub ver: u16,
    pub random: [u8; 32],
    pub sid: B,
    pub suites: Vec<u16>,
    pub comps: B,
    pub exts: Vec<CExt>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    HelloRequest,
    ClientHello(Ch),
    ServerHello { ver: u16, random: [u8; 32], sid: B, suite: u16, comp: u8, exts: Vec<SExt> },
    Hrr { ver: u16, sid: B, suite: u16, exts: Vec<HExt> },
    Certificate(Vec<B>),
    Certificate13(B, Vec<(B, Vec<CertExt>)>),
    ServerKx(B),
    CertReq { types: B, schemes: Vec<u16>, cas: Vec<B> },
    CertReq13(B, Vec<CrExt>),
    CertVerify(u16, B),
    ServerHelloDone,
    EndOfEarlyData,
    ClientKx(B),
    Ticket(u32, B),
    Ticket13 { life: u32, add: u32, nonce: B, ticket: B, exts: Vec<TExt> },
    EncExts(Vec<SExt>),
    KeyUpdate(u8),
    Finished(B),
    CertStatus(B),
    Unknown(u8, B),
}

pub const HRR_RANDOM: [u8; 32] = [
    0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16,
    0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
];

fn u16s(xs: &[u16]) -> B {
    let mut o = vec![];
    for x in xs {
        p16(&mut o, *x);
    }
    o
}
fn l8s(xs: &[B]) -> B {
    let mut o = vec![];
    for x in xs {
        v8(&mut o, x);
    }
    o
}
fn l16s(xs: &[B]) -> B {
    let mut o = vec![];
    for x in xs {
        v16(&mut o, x);
    }
    o
}
fn w8(b: B) -> B {
    let mut o = vec![];
    v8(&mut o, &b);
    o
}
fn w16(b: B) -> B {
    let mut o = vec![];
    v16(&mut o, &b);
    o
}
fn ext(o: &mut B, typ: u16, body: &[u8]) {
    p16(o, typ);
    v16(o, body);
}

impl CExt {
    pub fn typ(&self) -> u16 {
        match self {
            CExt::PointFormats(_) => 11,
            CExt::Groups(_) => 10,
            CExt::SigAlgs(_) => 13,
            CExt::Sni(..) => 0,
            CExt::Ticket(_) => 35,
            CExt::Alpn(_) => 16,
            CExt::Versions(_) => 43,
            CExt::KeyShare(_) => 51,
            CExt::PskModes(_) => 45,
            CExt::Psk(..) => 41,
            CExt::Cookie(_) => 44,
            CExt::Ems => 23,
            CExt::StatusOcsp(..) | CExt::StatusOther(..) => 5,
            CExt::SctReq => 18,
            CExt::QuicParams(_) => 57,
            CExt::QuicDraft(_) => 0xffa5,
            CExt::EarlyData => 42,
            CExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            CExt::PointFormats(b) => w8(b.clone()),
            CExt::Groups(g) => w16(u16s(g)),
            CExt::SigAlgs(g) => w16(u16s(g)),
            CExt::Sni(names, tail) => {
                let mut l = vec![];
                for n in names {
                    l.push(0);
                    v16(&mut l, n.as_bytes());
                }
                if let Some((t, b)) = tail {
                    l.push(*t);
                    l.extend_from_slice(b);
                }
                w16(l)
            }
            CExt::Ticket(b) => b.clone(),
            CExt::Alpn(p) => w16(l8s(p)),
            CExt::Versions(v) => w8(u16s(v)),
            CExt::KeyShare(ks) => {
                let mut l = vec![];
                for (g, k) in ks {
                    p16(&mut l, *g);
                    v16(&mut l, k);
                }
                w16(l)
            }
            CExt::PskModes(m) => w8(m.clone()),
            CExt::Psk(ids, binders) => {
                let mut l = vec![];
                for (i, age) in ids {
                    v16(&mut l, i);
                    p32(&mut l, *age);
                }
                let mut o = w16(l);
                o.extend(w16(l8s(binders)));
                o
            }
            CExt::Cookie(c) => w16(c.clone()),
            CExt::StatusOcsp(ids, exts) => {
                let mut o = vec![1];
                o.extend(w16(l16s(ids)));
                o.extend(w16(exts.clone()));
                o
            }
            CExt::StatusOther(t, b) => {
                let mut o = vec![*t];
                o.extend_from_slice(b);
                o
            }
            CExt::Ems | CExt::SctReq | CExt::EarlyData => vec![],
            CExt::QuicParams(b) | CExt::QuicDraft(b) | CExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::ClientExtension {
        use h::ClientExtension as E;
        match self {
            CExt::PointFormats(b) => E::ECPointFormats(b.iter().map(|x| ECPointFormat::from(*x)).collect()),
            CExt::Groups(g) => E::NamedGroups(g.iter().map(|x| NamedGroup::from(*x)).collect()),
            CExt::SigAlgs(g) => E::SignatureAlgorithms(g.iter().map(|x| SignatureScheme::from(*x)).collect()),
            CExt::Sni(names, tail) => {
                let mut l: Vec<h::ServerName> = names
                    .iter()
                    .map(|n| h::ServerName {
                        typ: ServerNameType::HostName,
                        payload: h::ServerNamePayload::new_hostname(rustls_pki_types::DnsName::try_from(n.clone()).unwrap()),
                    })
                    .collect();
                if let Some((t, b)) = tail {
                    l.push(h::ServerName { typ: ServerNameType::from(*t), payload: h::ServerNamePayload::Unknown(Payload(b.clone())) });
                }
                E::ServerName(l)
            }
            CExt::Ticket(b) if b.is_empty() => E::SessionTicket(h::ClientSessionTicket::Request),
            CExt::Ticket(b) => E::SessionTicket(h::ClientSessionTicket::Offer(Payload(b.clone()))),
            CExt::Alpn(p) => E::Protocols(p.iter().map(|x| PayloadU8(x.clone())).collect()),
            CExt::Versions(v) => E::SupportedVersions(v.iter().map(|x| ProtocolVersion::from(*x)).collect()),
            CExt::KeyShare(ks) => E::KeyShare(
                ks.iter().map(|(g, k)| h::KeyShareEntry { group: NamedGroup::from(*g), payload: PayloadU16(k.clone()) }).collect(),
            ),
            CExt::PskModes(m) => E::PresharedKeyModes(m.iter().map(|x| PSKKeyExchangeMode::from(*x)).collect()),
            CExt::Psk(ids, bs) => E::PresharedKey(h::PresharedKeyOffer {
                identities: ids
                    .iter()
                    .map(|(i, a)| h::PresharedKeyIdentity { identity: PayloadU16(i.clone()), obfuscated_ticket_age: *a })
                    .collect(),
                binders: bs.iter().map(|b| PayloadU8(b.clone())).collect(),
            }),
            CExt::Cookie(c) => E::Cookie(PayloadU16(c.clone())),
            CExt::Ems => E::ExtendedMasterSecretRequest,
            CExt::StatusOcsp(ids, exts) => E::CertificateStatusRequest(h::CertificateStatusRequest::OCSP(h::OCSPCertificateStatusRequest {
                responder_ids: ids.iter().map(|x| PayloadU16(x.clone())).collect(),
                extensions: PayloadU16(exts.clone()),
            })),
            CExt::StatusOther(t, b) => E::CertificateStatusRequest(h::CertificateStatusRequest::Unknown((
                CertificateStatusType::from(*t),
                Payload(b.clone()),
            ))),
            CExt::SctReq => E::SignedCertificateTimestampRequest,
            CExt::QuicParams(b) => E::TransportParameters(b.clone()),
            CExt::QuicDraft(b) => E::TransportParametersDraft(b.clone()),
            CExt::EarlyData => E::EarlyData,
            CExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}
fn unk(t: u16, b: &[u8]) -> h::UnknownExtension {
    h::UnknownExtension { typ: ExtensionType::from(t), payload: Payload(b.to_vec()) }
}
impl SExt {
    pub fn typ(&self) -> u16 {
        match self {
            SExt::PointFormats(_) => 11,
            SExt::SniAck => 0,
            SExt::TicketAck => 35,
            SExt::Reneg(_) => 0xff01,
            SExt::Alpn(_) => 16,
            SExt::KeyShare(..) => 51,
            SExt::Psk(_) => 41,
            SExt::Ems => 23,
            SExt::StatusAck => 5,
            SExt::Sct(_) => 18,
            SExt::Version(_) => 43,
            SExt::QuicParams(_) => 57,
            SExt::QuicDraft(_) => 0xffa5,
            SExt::EarlyData => 42,
            SExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            SExt::PointFormats(b) | SExt::Reneg(b) => w8(b.clone()),
            SExt::SniAck | SExt::TicketAck | SExt::Ems | SExt::StatusAck | SExt::EarlyData => vec![],
            SExt::Alpn(p) => w16(l8s(p)),
            SExt::KeyShare(g, k) => {
                let mut o = u16s(&[*g]);
                v16(&mut o, k);
                o
            }
            SExt::Psk(x) | SExt::Version(x) => u16s(&[*x]),
            SExt::Sct(l) => w16(l16s(l)),
            SExt::QuicParams(b) | SExt::QuicDraft(b) | SExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::ServerExtension {
        use h::ServerExtension as E;
        match self {
            SExt::PointFormats(b) => E::ECPointFormats(b.iter().map(|x| ECPointFormat::from(*x)).collect()),
            SExt::SniAck => E::ServerNameAck,
            SExt::TicketAck => E::SessionTicketAck,
            SExt::Reneg(b) => E::RenegotiationInfo(PayloadU8(b.clone())),
            SExt::Alpn(p) => E::Protocols(p.iter().map(|x| PayloadU8(x.clone())).collect()),
            SExt::KeyShare(g, k) => E::KeyShare(h::KeyShareEntry { group: NamedGroup::from(*g), payload: PayloadU16(k.clone()) }),
            SExt::Psk(x) => E::PresharedKey(*x),
            SExt::Ems => E::ExtendedMasterSecretAck,
            SExt::StatusAck => E::CertificateStatusAck,
            SExt::Sct(l) => E::SignedCertificateTimestamp(l.iter().map(|x| PayloadU16(x.clone())).collect()),
            SExt::Version(v) => E::SupportedVersions(ProtocolVersion::from(*v)),
            SExt::QuicParams(b) => E::TransportParameters(b.clone()),
            SExt::QuicDraft(b) => E::TransportParametersDraft(b.clone()),
            SExt::EarlyData => E::EarlyData,
            SExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}
impl HExt {
    pub fn typ(&self) -> u16 {
        match self {
            HExt::KeyShare(_) => 51,
            HExt::Cookie(_) => 44,
            HExt::Version(_) => 43,
            HExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            HExt::KeyShare(x) | HExt::Version(x) => u16s(&[*x]),
            HExt::Cookie(c) => w16(c.clone()),
            HExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::HelloRetryExtension {
        use h::HelloRetryExtension as E;
        match self {
            HExt::KeyShare(g) => E::KeyShare(NamedGroup::from(*g)),
            HExt::Cookie(c) => E::Cookie(PayloadU16(c.clone())),
            HExt::Version(v) => E::SupportedVersions(ProtocolVersion::from(*v)),
            HExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}
impl CertExt {
    pub fn typ(&self) -> u16 {
        match self {
            CertExt::Ocsp(_) => 5,
            CertExt::Sct(_) => 18,
            CertExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            CertExt::Ocsp(b) => {
                let mut o = vec![1];
                v24(&mut o, b);
                o
            }
            CertExt::Sct(l) => w16(l16s(l)),
            CertExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::CertificateExtension {
        use h::CertificateExtension as E;
        match self {
            CertExt::Ocsp(b) => E::CertificateStatus(h::CertificateStatus { ocsp_response: PayloadU24(b.clone()) }),
            CertExt::Sct(l) => E::SignedCertificateTimestamp(l.iter().map(|x| PayloadU16(x.clone())).collect()),
            CertExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}
impl CrExt {
    pub fn typ(&self) -> u16 {
        match self {
            CrExt::SigAlgs(_) => 13,
            CrExt::Authorities(_) => 47,
            CrExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            CrExt::SigAlgs(s) => w16(u16s(s)),
            CrExt::Authorities(l) => w16(l16s(l)),
            CrExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::CertReqExtension {
        use h::CertReqExtension as E;
        match self {
            CrExt::SigAlgs(s) => E::SignatureAlgorithms(s.iter().map(|x| SignatureScheme::from(*x)).collect()),
            CrExt::Authorities(l) => E::AuthorityNames(l.iter().map(|x| PayloadU16(x.clone())).collect()),
            CrExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}
impl TExt {
    pub fn typ(&self) -> u16 {
        match self {
            TExt::EarlyData(_) => 42,
            TExt::Unknown(t, _) => *t,
        }
    }
    pub fn body(&self) -> B {
        match self {
            TExt::EarlyData(x) => {
                let mut o = vec![];
                p32(&mut o, *x);
                o
            }
            TExt::Unknown(_, b) => b.clone(),
        }
    }
    pub fn build(&self) -> h::NewSessionTicketExtension {
        use h::NewSessionTicketExtension as E;
        match self {
            TExt::EarlyData(x) => E::EarlyData(*x),
            TExt::Unknown(t, b) => E::Unknown(unk(*t, b)),
        }
    }
}

macro_rules! exts {
    ($o:expr, $es:expr) => {{
        let mut l = vec![];
        for e in $es {
            ext(&mut l, e.typ(), &e.body());
        }
        l
    }};
}

pub fn sid(b: &[u8]) -> h::SessionID {
    h::SessionID::read_bytes(&w8(b.to_vec())).expect("session id")
}

impl Msg {
    /// TLS 1.3 syntax is selected by the record version.
    pub fn vers(&self) -> ProtocolVersion {
        match self {
            Msg::Certificate13(..) | Msg::CertReq13(..) | Msg::Ticket13 { .. } => ProtocolVersion::TLSv1_3,
            _ => ProtocolVersion::TLSv1_2,
        }
    }
    /// Whether the syntax of this message depends on the version.
    pub fn version_dependent(&self) -> bool {
        matches!(
            self,
            Msg::Certificate13(..) | Msg::CertReq13(..) | Msg::Ticket13 { .. } | Msg::Certificate(_) | Msg::CertReq { .. } | Msg::Ticket(..)
        )
    }
    pub fn typ(&self) -> u8 {
        match self {
            Msg::HelloRequest => 0,
            Msg::ClientHello(_) => 1,
            Msg::ServerHello { .. } | Msg::Hrr { .. } => 2,
            Msg::Ticket(..) | Msg::Ticket13 { .. } => 4,
            Msg::EndOfEarlyData => 5,
            Msg::EncExts(_) => 8,
            Msg::Certificate(_) | Msg::Certificate13(..) => 11,
            Msg::ServerKx(_) => 12,
            Msg::CertReq { .. } | Msg::CertReq13(..) => 13,
            Msg::ServerHelloDone => 14,
            Msg::CertVerify(..) => 15,
            Msg::ClientKx(_) => 16,
            Msg::Finished(_) => 20,
            Msg::CertStatus(_) => 22,
            Msg::KeyUpdate(_) => 24,
            Msg::Unknown(t, _) => *t,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Msg::HelloRequest => "HelloRequest",
            Msg::ClientHello(_) => "ClientHello",
            Msg::ServerHello { .. } => "ServerHello",
            Msg::Hrr { .. } => "HelloRetryRequest",
            Msg::Ticket(..) => "NewSessionTicket",
            Msg::Ticket13 { .. } => "NewSessionTicketTLS13",
            Msg::EndOfEarlyData => "EndOfEarlyData",
            Msg::EncExts(_) => "EncryptedExtensions",
            Msg::Certificate(_) => "Certificate",
            Msg::Certificate13(..) => "CertificateTLS13",
            Msg::ServerKx(_) => "ServerKeyExchange",
            Msg::CertReq { .. } => "CertificateRequest",
            Msg::CertReq13(..) => "CertificateRequestTLS13",
            Msg::ServerHelloDone => "ServerHelloDone",
            Msg::CertVerify(..) => "CertificateVerify",
            Msg::ClientKx(_) => "ClientKeyExchange",
            Msg::Finished(_) => "Finished",
            Msg::CertStatus(_) => "CertificateStatus",
            Msg::KeyUpdate(_) => "KeyUpdate",
            Msg::Unknown(..) => "Unknown",
        }
    }
    pub fn body(&self) -> B {
        let mut o = vec![];
        match self {
            Msg::HelloRequest | Msg::ServerHelloDone | Msg::EndOfEarlyData => {}
            Msg::ClientHello(c) => {
                p16(&mut o, c.ver);
                o.extend_from_slice(&c.random);
                v8(&mut o, &c.sid);
                v16(&mut o, &u16s(&c.suites));
                v8(&mut o, &c.comps);
                v16(&mut o, &exts!(o, &c.exts));
            }
            Msg::ServerHello { ver, random, sid, suite, comp, exts } => {
                p16(&mut o, *ver);
                o.extend_from_slice(random);
                v8(&mut o, sid);
                p16(&mut o, *suite);
                o.push(*comp);
                v16(&mut o, &exts!(o, exts));
            }
            Msg::Hrr { ver, sid, suite, exts } => {
                p16(&mut o, *ver);
                o.extend_from_slice(&HRR_RANDOM);
                v8(&mut o, sid);
                p16(&mut o, *suite);
                o.push(0);
                v16(&mut o, &exts!(o, exts));
            }
            Msg::Certificate(cs) => {
                let mut l = vec![];
                for c in cs {
                    v24(&mut l, c);
                }
                v24(&mut o, &l);
            }
            Msg::Certificate13(ctx, es) => {
                v8(&mut o, ctx);
                let mut l = vec![];
                for (c, x) in es {
                    v24(&mut l, c);
                    v16(&mut l, &exts!(l, x));
                }
                v24(&mut o, &l);
            }
            Msg::ServerKx(b) | Msg::ClientKx(b) | Msg::Finished(b) | Msg::Unknown(_, b) => o.extend_from_slice(b),
            Msg::CertReq { types, schemes, cas } => {
                v8(&mut o, types);
                v16(&mut o, &u16s(schemes));
                v16(&mut o, &l16s(cas));
            }
            Msg::CertReq13(ctx, es) => {
                v8(&mut o, ctx);
                v16(&mut o, &exts!(o, es));
            }
            Msg::CertVerify(s, b) => {
                p16(&mut o, *s);
                v16(&mut o, b);
            }
            Msg::Ticket(l, t) => {
                p32(&mut o, *l);
                v16(&mut o, t);
            }
            Msg::Ticket13 { life, add, nonce, ticket, exts } => {
                p32(&mut o, *life);
                p32(&mut o, *add);
                v8(&mut o, nonce);
                v16(&mut o, ticket);
                v16(&mut o, &exts!(o, exts));
            }
            Msg::EncExts(es) => v16(&mut o, &exts!(o, es)),
            Msg::KeyUpdate(k) => o.push(*k),
            Msg::CertStatus(b) => {
                o.push(1);
                v24(&mut o, b);
            }
        }
        o
    }
    pub fn enc(&self) -> B {
        let mut o = vec![self.typ()];
        v24(&mut o, &self.body());
        o
    }
    pub fn build(&self) -> h::HandshakeMessagePayload {
        use h::HandshakePayload as P;
        let payload = match self {
            Msg::HelloRequest => P::HelloRequest,
            Msg::ClientHello(c) => P::ClientHello(build_ch(c)),
            Msg::ServerHello { ver, random, sid: s, suite, comp, exts } => P::ServerHello(h::ServerHelloPayload {
                legacy_version: ProtocolVersion::from(*ver),
                random: h::Random(*random),
                session_id: sid(s),
                cipher_suite: CipherSuite::from(*suite),
                compression_method: Compression::from(*comp),
                extensions: exts.iter().map(|e| e.build()).collect(),
            }),
            Msg::Hrr { ver, sid: s, suite, exts } => P::HelloRetryRequest(h::HelloRetryRequest {
                legacy_version: ProtocolVersion::from(*ver),
                session_id: sid(s),
                cipher_suite: CipherSuite::from(*suite),
                extensions: exts.iter().map(|e| e.build()).collect(),
            }),
            Msg::Certificate(cs) => P::Certificate(cs.iter().map(|c| Certificate(c.clone())).collect()),
            Msg::Certificate13(ctx, es) => P::CertificateTLS13(h::CertificatePayloadTLS13 {
                context: PayloadU8(ctx.clone()),
                entries: es
                    .iter()
                    .map(|(c, x)| h::CertificateEntry { cert: Certificate(c.clone()), exts: x.iter().map(|e| e.build()).collect() })
                    .collect(),
            }),
            Msg::ServerKx(b) => P::ServerKeyExchange(h::ServerKeyExchangePayload::Unknown(Payload(b.clone()))),
            Msg::CertReq { types, schemes, cas } => P::CertificateRequest(h::CertificateRequestPayload {
                certtypes: types.iter().map(|x| ClientCertificateType::from(*x)).collect(),
                sigschemes: schemes.iter().map(|x| SignatureScheme::from(*x)).collect(),
                canames: cas.iter().map(|x| PayloadU16(x.clone())).collect(),
            }),
            Msg::CertReq13(ctx, es) => P::CertificateRequestTLS13(h::CertificateRequestPayloadTLS13 {
                context: PayloadU8(ctx.clone()),
                extensions: es.iter().map(|e| e.build()).collect(),
            }),
            Msg::CertVerify(s, b) => {
                P::CertificateVerify(h::DigitallySignedStruct { scheme: SignatureScheme::from(*s), sig: PayloadU16(b.clone()) })
            }
            Msg::ServerHelloDone => P::ServerHelloDone,
            Msg::EndOfEarlyData => P::EndOfEarlyData,
            Msg::ClientKx(b) => P::ClientKeyExchange(Payload(b.clone())),
            Msg::Ticket(l, t) => P::NewSessionTicket(h::NewSessionTicketPayload { lifetime_hint: *l, ticket: PayloadU16(t.clone()) }),
            Msg::Ticket13 { life, add, nonce, ticket, exts } => P::NewSessionTicketTLS13(h::NewSessionTicketPayloadTLS13 {
                lifetime: *life,
                age_add: *add,
                nonce: PayloadU8(nonce.clone()),
                ticket: PayloadU16(ticket.clone()),
                exts: exts.iter().map(|e| e.build()).collect(),
            }),
            Msg::EncExts(es) => P::EncryptedExtensions(es.iter().map(|e| e.build()).collect()),
            Msg::KeyUpdate(k) => P::KeyUpdate(KeyUpdateRequest::from(*k)),
            Msg::Finished(b) => P::Finished(Payload(b.clone())),
            Msg::CertStatus(b) => P::CertificateStatus(h::CertificateStatus { ocsp_response: PayloadU24(b.clone()) }),
            Msg::Unknown(_, b) => P::Unknown(Payload(b.clone())),
        };
        let typ = match self {
            Msg::Hrr { .. } => HandshakeType::HelloRetryRequest,
            m => HandshakeType::from(m.typ()),
        };
        h::HandshakeMessagePayload { typ, payload }
    }
}

pub fn build_ch(c: &Ch) -> h::ClientHelloPayload {
    h::ClientHelloPayload {
        client_version: ProtocolVersion::from(c.ver),
        random: h::Random(c.random),
        session_id: sid(&c.sid),
        cipher_suites: c.suites.iter().map(|x| CipherSuite::from(*x)).collect(),
        compression_methods: c.comps.iter().map(|x| Compression::from(*x)).collect(),
        extensions: c.exts.iter().map(|e| e.build()).collect(),
    }
}

// ---------------------------------------------------------------- generator

pub struct Gen<'a> {
    pub r: &'a mut R,
    /// upper bound for opaque lengths
    pub max: usize,
}

/// Extension types for which the given decoder keeps the content opaque.
fn unknown_type(r: &mut R, known: &[u16]) -> u16 {
    loop {
        let t = match r.below(4) {
            0 => r.u16(),
            1 => r.below(64) as u16,
            2 => *r.pick(&[1u16, 2, 3, 4, 6, 7, 8, 9, 12, 14, 15, 21, 46, 48, 49, 50, 0x3374, 0x754f, 0xff01, 5, 18, 47, 44]),
            _ => 0xff00 + r.below(256) as u16,
        };
        if !known.contains(&t) {
            return t;
        }
    }
}

pub fn hostname(r: &mut R) -> String {
    let al = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let n = r.range(1, 4);
    let mut labels = vec![];
    for i in 0..n {
        let len = match r.below(8) {
            0 => 63,
            1 => 1,
            _ => r.range(1, 12),
        };
        let mut s: Vec<u8> = (0..len).map(|_| *r.pick(al)).collect();
        if len > 2 && r.chance(1, 3) {
            let k = r.range(1, len - 2);
            s[k] = b'-';
        }
        if i == n - 1 && s.iter().all(|c| c.is_ascii_digit()) {
            s[0] = b'z';
        }
        labels.push(String::from_utf8(s).unwrap());
    }
    let mut h = labels.join(".");
    if r.chance(1, 8) {
        h.push('.');
    }
    if h.len() > 253 { "long.example".into() } else { h }
}

impl Gen<'_> {
    fn op(&mut self, max: usize) -> B {
        let m = self.max.min(max);
        let n = self.r.len(m);
        self.r.bytes(n)
    }
    /// A list length: usually at most `n`, now and then far longer.
    fn many(&mut self, n: usize) -> usize {
        if self.max >= 20 && self.r.chance(1, 24) {
            match self.r.below(4) {
                0 => self.r.range(n, 2 * n + 4),
                1 => *self.r.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
                _ => self.r.range(n, 300),
            }
        } else {
            self.r.below(n + 1)
        }
    }
    /// Opaque item size allowed in a list of k items, so that the list stays below 2^13 bytes or so.
    fn cap(k: usize, max: usize) -> usize {
        if k > 12 { max.min(24) } else { max }
    }
    fn ops(&mut self, n: usize, max: usize) -> Vec<B> {
        let k = self.many(n);
        (0..k).map(|_| self.op(Self::cap(k, max))).collect()
    }
    fn list16(&mut self, n: usize) -> usize {
        if self.r.chance(1, 24) { self.many(n).max(n) } else { self.r.len(n) }
    }
    fn code16(&mut self, known: &[u16]) -> u16 {
        if self.r.chance(3, 4) { *self.r.pick(known) } else { self.r.u16() }
    }
    fn codes16(&mut self, known: &[u16], n: usize) -> Vec<u16> {
        let k = self.list16(n);
        (0..k).map(|_| self.code16(known)).collect()
    }
    pub fn version(&mut self) -> u16 {
        self.code16(&[0x0300, 0x0301, 0x0302, 0x0303, 0x0304, 0x0200, 0xfeff, 0xfefd])
    }
    pub fn group(&mut self) -> u16 {
        self.code16(&[0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x101, 0x104])
    }
    pub fn scheme(&mut self) -> u16 {
        self.code16(&[0x201, 0x203, 0x401, 0x403, 0x501, 0x503, 0x601, 0x603, 0x804, 0x805, 0x806, 0x807, 0x808])
    }
    pub fn schemes(&mut self, n: usize) -> Vec<u16> {
        let k = self.list16(n);
        (0..k).map(|_| self.scheme()).collect()
    }
    pub fn suite(&mut self) -> u16 {
        self.code16(&[0x1301, 0x1302, 0x1303, 0xc02b, 0xc02c, 0xc02f, 0xc030, 0xcca8, 0xcca9, 0xff, 0x5600, 0x2f])
    }
    pub fn cext(&mut self, which: usize) -> CExt {
        match which {
            0 => CExt::PointFormats(self.op(255)),
            1 => CExt::Groups({
                let k = self.list16(40);
                (0..k).map(|_| self.group()).collect()
            }),
            2 => CExt::SigAlgs(self.schemes(40)),
            3 => {
                let k = self.many(3).min(60);
                let names = (0..k).map(|_| if k > 12 { format!("h{}.example", self.r.below(1000)) } else { hostname(self.r) }).collect();
                let tail = if self.r.chance(1, 4) { Some((self.r.range(1, 255) as u8, self.op(64))) } else { None };
                CExt::Sni(names, tail)
            }
            4 => CExt::Ticket(self.op(600)),
            5 => CExt::Alpn(self.ops(5, 255)),
            6 => CExt::Versions({
                let k = self.list16(40).min(127);
                (0..k).map(|_| self.version()).collect()
            }),
            7 => {
                let k = self.many(4);
                CExt::KeyShare((0..k).map(|_| (self.group(), self.op(Self::cap(k, 300)))).collect())
            }
            8 => CExt::PskModes(self.op(255)),
            9 => {
                let k = self.many(3);
                let ids = (0..k).map(|_| (self.op(Self::cap(k, 300)), self.r.u32())).collect();
                CExt::Psk(ids, self.ops(4, 255))
            }
            10 => CExt::Cookie(self.op(600)),
            11 => CExt::Ems,
            12 => CExt::StatusOcsp(self.ops(4, 100), self.op(100)),
            13 => CExt::StatusOther(
                {
                    let t = self.r.u8();
                    if t == 1 { 2 } else { t }
                },
                self.op(100),
            ),
            14 => CExt::SctReq,
            15 => CExt::QuicParams(self.op(300)),
            16 => CExt::QuicDraft(self.op(300)),
            17 => CExt::EarlyData,
            18 => {
                // registered types whose mandatory-empty body is not empty are kept opaque
                let t = *self.r.pick(&[23u16, 18, 42]);
                let mut b = self.op(40);
                b.push(7);
                CExt::Unknown(t, b)
            }
            _ => {
                let t = unknown_type(self.r, &[0, 5, 10, 11, 13, 16, 18, 23, 35, 41, 42, 43, 44, 45, 51, 57, 0xffa5]);
                CExt::Unknown(t, self.op(300))
            }
        }
    }
    pub const CEXT_KINDS: usize = 20;
    pub fn sext(&mut self, which: usize) -> SExt {
        match which {
            0 => SExt::PointFormats(self.op(255)),
            1 => SExt::SniAck,
            2 => SExt::TicketAck,
            3 => SExt::Reneg(self.op(255)),
            4 => SExt::Alpn(self.ops(4, 255)),
            5 => SExt::KeyShare(self.group(), self.op(300)),
            6 => SExt::Psk(self.r.u16()),
            7 => SExt::Ems,
            8 => SExt::StatusAck,
            9 => SExt::Sct(self.ops(4, 200)),
            10 => SExt::Version(self.version()),
            11 => SExt::QuicParams(self.op(200)),
            12 => SExt::QuicDraft(self.op(200)),
            13 => SExt::EarlyData,
            _ => {
                let t = unknown_type(self.r, &[0, 5, 11, 16, 18, 23, 35, 41, 42, 43, 51, 57, 0xffa5, 0xff01]);
                SExt::Unknown(t, self.op(300))
            }
        }
    }
    pub const SEXT_KINDS: usize = 15;
    pub fn hext(&mut self) -> HExt {
        match self.r.below(4) {
            0 => HExt::KeyShare(self.group()),
            1 => HExt::Cookie(self.op(400)),
            2 => HExt::Version(self.version()),
            _ => {
                let t = unknown_type(self.r, &[43, 44, 51]);
                HExt::Unknown(t, self.op(100))
            }
        }
    }
    pub fn certext(&mut self) -> CertExt {
        match self.r.below(3) {
            0 => CertExt::Ocsp(self.op(400)),
            1 => CertExt::Sct(self.ops(4, 200)),
            _ => {
                let t = unknown_type(self.r, &[5, 18]);
                CertExt::Unknown(t, self.op(100))
            }
        }
    }
    pub fn crext(&mut self) -> CrExt {
        match self.r.below(3) {
            0 => {
                let mut s = self.schemes(20);
                if s.is_empty() {
                    s.push(0x403);
                }
                CrExt::SigAlgs(s)
            }
            1 => CrExt::Authorities(self.ops(4, 200)),
            _ => {
                let t = unknown_type(self.r, &[13, 47]);
                CrExt::Unknown(t, self.op(100))
            }
        }
    }
    pub fn text(&mut self) -> TExt {
        if self.r.bool() {
            TExt::EarlyData(self.r.u32())
        } else {
            let t = unknown_type(self.r, &[42]);
            TExt::Unknown(t, self.op(100))
        }
    }
    pub fn sid(&mut self) -> B {
        let n = *self.r.pick(&[0usize, 1, 8, 31, 32, 32, 32]);
        self.r.bytes(n)
    }
    pub fn ch(&mut self) -> Ch {
        let n = match self.r.below(4) {
            0 => 1,
            1 => self.r.range(1, 4),
            _ => self.r.range(1, 12),
        };
        let n = if self.r.chance(1, 30) { self.many(12).max(1) } else { n };
        let exts = self.some_exts(n, |g| {
            let k = g.r.below(Self::CEXT_KINDS);
            g.cext(k)
        }, |e| e.body().len());
        let k = self.list16(60);
        Ch {
            ver: self.version(),
            random: self.r.arr(),
            sid: self.sid(),
            suites: (0..k).map(|_| self.suite()).collect(),
            comps: {
                let n = self.r.len(6);
                (0..n).map(|_| if self.r.bool() { 0 } else { self.r.u8() }).collect()
            },
            exts,
        }
    }
    pub fn sexts(&mut self, n: usize) -> Vec<SExt> {
        let k = self.many(n);
        self.some_exts(k, |g| {
            let k = g.r.below(Self::SEXT_KINDS);
            g.sext(k)
        }, |e| e.body().len())
    }
    /// `n` extensions, kept short when there are many, and at most 60000 bytes together.
    fn some_exts<T>(&mut self, n: usize, f: impl Fn(&mut Gen) -> T, len: impl Fn(&T) -> usize) -> Vec<T> {
        let max = if n > 12 { self.max.min(40) } else { self.max };
        let mut left = 60_000usize;
        let mut out = vec![];
        for _ in 0..n {
            let e = f(&mut Gen { r: self.r, max });
            match left.checked_sub(4 + len(&e)) {
                Some(l) => left = l,
                None => break,
            }
            out.push(e);
        }
        out
    }
    pub const MSG_KINDS: usize = 20;
    pub fn msg(&mut self, kind: usize) -> Msg {
        match kind {
            0 => Msg::HelloRequest,
            1 => Msg::ClientHello(self.ch()),
            2 => {
                let mut random: [u8; 32] = self.r.arr();
                if self.r.chance(1, 6) {
                    // one bit away from the retry random: still an ordinary hello
                    random = HRR_RANDOM;
                    let b = self.r.below(256);
                    random[b / 8] ^= 1 << (b % 8);
                }
                Msg::ServerHello { ver: self.version(), random, sid: self.sid(), suite: self.suite(), comp: if self.r.chance(3, 4) { 0 } else { self.r.u8() }, exts: self.sexts(8) }
            }
            3 => {
                let k = self.many(5);
                Msg::Hrr { ver: self.version(), sid: self.sid(), suite: self.suite(), exts: self.some_exts(k, |g| g.hext(), |e| e.body().len()) }
            }
            4 => Msg::Certificate(self.ops(5, 3000)),
            5 => {
                let k = self.many(3);
                let es = (0..k)
                    .map(|_| {
                        let c = self.op(Self::cap(k, 2000));
                        let n = if k > 12 { self.r.below(2) } else { self.many(3) };
                        let max = if k > 12 { self.max.min(40) } else { self.max };
                        let l = Gen { r: self.r, max }.some_exts(n, |g| g.certext(), |e| e.body().len());
                        (c, l)
                    })
                    .collect();
                Msg::Certificate13(self.op(255), es)
            }
            6 => Msg::ServerKx(self.op(600)),
            7 => {
                let mut schemes = self.schemes(30);
                if schemes.is_empty() {
                    schemes.push(0x804);
                }
                Msg::CertReq { types: self.op(20), schemes, cas: self.ops(5, 200) }
            }
            8 => {
                let k = self.many(4);
                Msg::CertReq13(self.op(255), self.some_exts(k, |g| g.crext(), |e| e.body().len()))
            }
            9 => Msg::CertVerify(self.scheme(), self.op(600)),
            10 => Msg::ServerHelloDone,
            11 => Msg::EndOfEarlyData,
            12 => Msg::ClientKx(self.op(300)),
            13 => Msg::Ticket(self.r.u32(), self.op(600)),
            14 => {
                let k = self.many(3);
                Msg::Ticket13 { life: self.r.u32(), add: self.r.u32(), nonce: self.op(255), ticket: self.op(600), exts: self.some_exts(k, |g| g.text(), |e| e.body().len()) }
            }
            15 => Msg::EncExts(self.sexts(8)),
            16 => Msg::KeyUpdate(if self.r.bool() { self.r.below(2) as u8 } else { self.r.u8() }),
            17 => Msg::Finished(self.op(64)),
            18 => Msg::CertStatus(self.op(3000)),
            _ => {
                let t = loop {
                    let t = match self.r.below(3) {
                        0 => *self.r.pick(&[3u8, 21, 7, 9, 10, 17, 18, 19, 23, 25, 253, 255]),
                        _ => self.r.u8(),
                    };
                    if ![0, 1, 2, 4, 5, 6, 8, 11, 12, 13, 14, 15, 16, 20, 22, 24, 254].contains(&t) {
                        break t;
                    }
                };
                Msg::Unknown(t, self.op(300))
            }
        }
    }
    pub fn any_msg(&mut self) -> Msg {
        let k = self.r.below(Self::MSG_KINDS);
        self.msg(k)
    }
}
