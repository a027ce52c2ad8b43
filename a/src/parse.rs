//! Reference parser for TLS handshake messages, written from the RFC grammars
//! into the model of wire.rs.  `None` means "must be refused".
use crate::wire::*;

struct P<'a>(&'a [u8]);
type O<T> = Option<T>;

impl<'a> P<'a> {
    fn n(&mut self, k: usize) -> O<&'a [u8]> {
        if self.0.len() < k {
            return None;
        }
        let (a, b) = self.0.split_at(k);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> O<u8> {
        Some(self.n(1)?[0])
    }
    fn u16(&mut self) -> O<u16> {
        let b = self.n(2)?;
        Some((b[0] as u16) * 256 + b[1] as u16)
    }
    fn u24(&mut self) -> O<usize> {
        let b = self.n(3)?;
        Some((b[0] as usize) * 65536 + (b[1] as usize) * 256 + b[2] as usize)
    }
    fn u32(&mut self) -> O<u32> {
        Some(((self.u16()? as u32) << 16) | self.u16()? as u32)
    }
    fn v8(&mut self) -> O<&'a [u8]> {
        let k = self.u8()? as usize;
        self.n(k)
    }
    fn v16(&mut self) -> O<&'a [u8]> {
        let k = self.u16()? as usize;
        self.n(k)
    }
    fn v24(&mut self) -> O<&'a [u8]> {
        let k = self.u24()?;
        self.n(k)
    }
    fn rest(&mut self) -> Vec<u8> {
        let r = self.0.to_vec();
        self.0 = &[];
        r
    }
    fn end(&self) -> bool {
        self.0.is_empty()
    }
}

fn list<'a, T>(b: &'a [u8], mut f: impl FnMut(&mut P<'a>) -> O<T>) -> O<Vec<T>> {
    let mut p = P(b);
    let mut v = vec![];
    while !p.end() {
        v.push(f(&mut p)?);
    }
    Some(v)
}
fn whole<'a, T>(b: &'a [u8], f: impl FnOnce(&mut P<'a>) -> O<T>) -> O<T> {
    let mut p = P(b);
    let v = f(&mut p)?;
    if p.end() { Some(v) } else { None }
}
fn u16s(b: &[u8]) -> O<Vec<u16>> {
    list(b, |p| p.u16())
}
fn l8(b: &[u8]) -> O<Vec<B>> {
    list(b, |p| Some(p.v8()?.to_vec()))
}
fn l16(b: &[u8]) -> O<Vec<B>> {
    list(b, |p| Some(p.v16()?.to_vec()))
}

/// Legal DNS host names: dot-separated labels of 1..63 letters, digits, '-', '_'
/// not starting or ending with '-', 253 octets in all, the last label not
/// entirely digits, an optional trailing dot.
pub fn dns_ok(s: &[u8]) -> bool {
    if s.is_empty() || s.len() > 253 {
        return false;
    }
    let body = if s[s.len() - 1] == b'.' { &s[..s.len() - 1] } else { s };
    let labels: Vec<&[u8]> = body.split(|c| *c == b'.').collect();
    for l in &labels {
        if l.is_empty() || l.len() > 63 || l[0] == b'-' || l[l.len() - 1] == b'-' {
            return false;
        }
        if !l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_') {
            return false;
        }
    }
    !labels[labels.len() - 1].iter().all(|c| c.is_ascii_digit())
}

fn cext(t: u16, b: &[u8]) -> O<CExt> {
    Some(match t {
        11 => CExt::PointFormats(whole(b, |p| Some(p.v8()?.to_vec()))?),
        10 => CExt::Groups(u16s(whole(b, |p| p.v16())?)?),
        13 => CExt::SigAlgs(u16s(whole(b, |p| p.v16())?)?),
        0 => {
            let l = whole(b, |p| p.v16())?;
            let mut p = P(l);
            let mut names = vec![];
            let mut tail = None;
            while !p.end() {
                let t = p.u8()?;
                if t == 0 {
                    let n = p.v16()?;
                    if !dns_ok(n) {
                        return None;
                    }
                    names.push(String::from_utf8(n.to_vec()).ok()?);
                } else {
                    tail = Some((t, p.rest()));
                }
            }
            CExt::Sni(names, tail)
        }
        35 => CExt::Ticket(b.to_vec()),
        16 => CExt::Alpn(l8(whole(b, |p| p.v16())?)?),
        43 => CExt::Versions(u16s(whole(b, |p| p.v8())?)?),
        51 => CExt::KeyShare(list(whole(b, |p| p.v16())?, |p| Some((p.u16()?, p.v16()?.to_vec())))?),
        45 => CExt::PskModes(whole(b, |p| Some(p.v8()?.to_vec()))?),
        41 => {
            let (ids, binders) = whole(b, |p| Some((p.v16()?, p.v16()?)))?;
            CExt::Psk(list(ids, |p| Some((p.v16()?.to_vec(), p.u32()?)))?, l8(binders)?)
        }
        44 => CExt::Cookie(whole(b, |p| Some(p.v16()?.to_vec()))?),
        23 if b.is_empty() => CExt::Ems,
        18 if b.is_empty() => CExt::SctReq,
        42 if b.is_empty() => CExt::EarlyData,
        5 => {
            let mut p = P(b);
            let ty = p.u8()?;
            if ty == 1 {
                let (ids, ex) = whole(p.0, |p| Some((p.v16()?, p.v16()?)))?;
                CExt::StatusOcsp(l16(ids)?, ex.to_vec())
            } else {
                CExt::StatusOther(ty, p.rest())
            }
        }
        57 => CExt::QuicParams(b.to_vec()),
        0xffa5 => CExt::QuicDraft(b.to_vec()),
        t => CExt::Unknown(t, b.to_vec()),
    })
}
fn empty<T>(b: &[u8], v: T) -> O<T> {
    if b.is_empty() { Some(v) } else { None }
}
fn sext(t: u16, b: &[u8]) -> O<SExt> {
    Some(match t {
        11 => SExt::PointFormats(whole(b, |p| Some(p.v8()?.to_vec()))?),
        0 => empty(b, SExt::SniAck)?,
        35 => empty(b, SExt::TicketAck)?,
        23 => empty(b, SExt::Ems)?,
        5 => empty(b, SExt::StatusAck)?,
        42 => empty(b, SExt::EarlyData)?,
        0xff01 => SExt::Reneg(whole(b, |p| Some(p.v8()?.to_vec()))?),
        16 => SExt::Alpn(l8(whole(b, |p| p.v16())?)?),
        51 => {
            let (g, k) = whole(b, |p| Some((p.u16()?, p.v16()?.to_vec())))?;
            SExt::KeyShare(g, k)
        }
        41 => SExt::Psk(whole(b, |p| p.u16())?),
        43 => SExt::Version(whole(b, |p| p.u16())?),
        18 => SExt::Sct(l16(whole(b, |p| p.v16())?)?),
        57 => SExt::QuicParams(b.to_vec()),
        0xffa5 => SExt::QuicDraft(b.to_vec()),
        t => SExt::Unknown(t, b.to_vec()),
    })
}
fn exts<T>(p: &mut P, f: impl Fn(u16, &[u8]) -> O<T>) -> O<Vec<T>> {
    list(p.v16()?, |p| {
        let t = p.u16()?;
        f(t, p.v16()?)
    })
}
fn a32(b: &[u8]) -> [u8; 32] {
    let mut a = [0; 32];
    a.copy_from_slice(b);
    a
}
fn session_id<'a>(p: &mut P<'a>) -> O<&'a [u8]> {
    let s = p.v8()?;
    if s.len() > 32 { None } else { Some(s) }
}

fn ch(p: &mut P) -> O<Ch> {
    let c = Ch {
        ver: p.u16()?,
        random: a32(p.n(32)?),
        sid: session_id(p)?.to_vec(),
        suites: u16s(p.v16()?)?,
        comps: p.v8()?.to_vec(),
        exts: exts(p, cext)?,
    };
    // this stack only speaks to peers that send extensions
    if c.exts.is_empty() { None } else { Some(c) }
}

/// Parses the body of a handshake message of the given type.
fn body(t: u8, b: &[u8], v13: bool) -> O<Msg> {
    whole(b, |p| {
        Some(match t {
            0 if b.is_empty() => Msg::HelloRequest,
            1 => Msg::ClientHello(ch(p)?),
            2 => {
                let ver = p.u16()?;
                let random = a32(p.n(32)?);
                let sid = session_id(p)?.to_vec();
                let suite = p.u16()?;
                let comp = p.u8()?;
                if random == HRR_RANDOM {
                    if comp != 0 {
                        return None;
                    }
                    let es = exts(p, |t, b| {
                        Some(match t {
                            51 => HExt::KeyShare(whole(b, |p| p.u16())?),
                            44 => HExt::Cookie(whole(b, |p| Some(p.v16()?.to_vec()))?),
                            43 => HExt::Version(whole(b, |p| p.u16())?),
                            t => HExt::Unknown(t, b.to_vec()),
                        })
                    })?;
                    Msg::Hrr { ver, sid, suite, exts: es }
                } else {
                    Msg::ServerHello { ver, random, sid, suite, comp, exts: exts(p, sext)? }
                }
            }
            4 if v13 => Msg::Ticket13 {
                life: p.u32()?,
                add: p.u32()?,
                nonce: p.v8()?.to_vec(),
                ticket: p.v16()?.to_vec(),
                exts: exts(p, |t, b| {
                    Some(match t {
                        42 => TExt::EarlyData(whole(b, |p| p.u32())?),
                        t => TExt::Unknown(t, b.to_vec()),
                    })
                })?,
            },
            4 => Msg::Ticket(p.u32()?, p.v16()?.to_vec()),
            5 => Msg::EndOfEarlyData,
            6 | 254 => return None,
            8 => Msg::EncExts(exts(p, sext)?),
            11 if v13 => {
                let ctx = p.v8()?.to_vec();
                let l = p.v24()?;
                if l.len() > 0x10000 {
                    return None;
                }
                Msg::Certificate13(
                    ctx,
                    list(l, |p| {
                        let c = p.v24()?.to_vec();
                        let es = exts(p, |t, b| {
                            Some(match t {
                                5 => CertExt::Ocsp(whole(b, |p| {
                                    if p.u8()? != 1 {
                                        return None;
                                    }
                                    Some(p.v24()?.to_vec())
                                })?),
                                18 => CertExt::Sct(l16(whole(b, |p| p.v16())?)?),
                                t => CertExt::Unknown(t, b.to_vec()),
                            })
                        })?;
                        Some((c, es))
                    })?,
                )
            }
            11 => {
                let l = p.v24()?;
                if l.len() > 0x10000 {
                    return None;
                }
                Msg::Certificate(list(l, |p| Some(p.v24()?.to_vec()))?)
            }
            12 => Msg::ServerKx(p.rest()),
            13 if v13 => {
                let ctx = p.v8()?.to_vec();
                Msg::CertReq13(
                    ctx,
                    exts(p, |t, b| {
                        Some(match t {
                            13 => {
                                let s = u16s(whole(b, |p| p.v16())?)?;
                                if s.is_empty() {
                                    return None;
                                }
                                CrExt::SigAlgs(s)
                            }
                            47 => CrExt::Authorities(l16(whole(b, |p| p.v16())?)?),
                            t => CrExt::Unknown(t, b.to_vec()),
                        })
                    })?,
                )
            }
            13 => {
                let types = p.v8()?.to_vec();
                let schemes = u16s(p.v16()?)?;
                let cas = l16(p.v16()?)?;
                if schemes.is_empty() {
                    return None;
                }
                Msg::CertReq { types, schemes, cas }
            }
            14 => Msg::ServerHelloDone,
            15 => Msg::CertVerify(p.u16()?, p.v16()?.to_vec()),
            16 => Msg::ClientKx(p.rest()),
            20 => Msg::Finished(p.rest()),
            22 => {
                if p.u8()? != 1 {
                    return None;
                }
                Msg::CertStatus(p.v24()?.to_vec())
            }
            24 => Msg::KeyUpdate(p.u8()?),
            t => Msg::Unknown(t, p.rest()),
        })
    })
}

/// Parses one handshake message from the front of `b`: (message, bytes used).
pub fn message(b: &[u8], v13: bool) -> O<(Msg, usize)> {
    let mut p = P(b);
    let t = p.u8()?;
    let bd = p.v24()?;
    let m = body(t, bd, v13)?;
    Some((m, 4 + bd.len()))
}
/// Parses exactly one handshake message.
pub fn exact(b: &[u8], v13: bool) -> O<Msg> {
    let (m, n) = message(b, v13)?;
    if n == b.len() { Some(m) } else { None }
}
pub fn ext_client(b: &[u8]) -> O<CExt> {
    whole(b, |p| {
        let t = p.u16()?;
        cext(t, p.v16()?)
    })
}
pub fn ext_server(b: &[u8]) -> O<SExt> {
    whole(b, |p| {
        let t = p.u16()?;
        sext(t, p.v16()?)
    })
}
/// Server ECDHE key exchange: (group, point, scheme, signature).
pub fn server_kx(b: &[u8]) -> O<(u16, B, u16, B)> {
    whole(b, |p| {
        if p.u8()? != 3 {
            return None;
        }
        Some((p.u16()?, p.v8()?.to_vec(), p.u16()?, p.v16()?.to_vec()))
    })
}
pub fn server_ecdh_params(b: &[u8]) -> O<(u16, B)> {
    whole(b, |p| {
        if p.u8()? != 3 {
            return None;
        }
        Some((p.u16()?, p.v8()?.to_vec()))
    })
}
pub fn client_ecdh_params(b: &[u8]) -> O<B> {
    whole(b, |p| Some(p.v8()?.to_vec()))
}
