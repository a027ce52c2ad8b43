//! Code points of the TLS registries, written down as data.  The cipher-suite values were
//! cross-checked against `openssl ciphers -V -stdname` and the rustls 0.22 table, the others
//! against RFC 5246, 6066, 7301, 8422, 8446 and the IANA registries.

pub struct Registry {
    pub name: &'static str,
    pub wide: bool,
    pub items: &'static [(u16, &'static str)],
}

pub const REGISTRIES: &[Registry] = &[
    Registry { name: "ProtocolVersion", wide: true, items: &[
        (0x0200, "SSLv2"), (0x0300, "SSLv3"), (0x0301, "TLSv1_0"), (0x0302, "TLSv1_1"), (0x0303, "TLSv1_2"),
        (0x0304, "TLSv1_3"), (0xfeff, "DTLSv1_0"), (0xfefd, "DTLSv1_2"),
    ]},
    Registry { name: "HashAlgorithm", wide: false, items: &[
        (0x0000, "NONE"), (0x0001, "MD5"), (0x0002, "SHA1"), (0x0003, "SHA224"), (0x0004, "SHA256"),
        (0x0005, "SHA384"), (0x0006, "SHA512"),
    ]},
    Registry { name: "SignatureAlgorithm", wide: false, items: &[
        (0x0000, "Anonymous"), (0x0001, "RSA"), (0x0002, "DSA"), (0x0003, "ECDSA"), (0x0007, "ED25519"),
        (0x0008, "ED448"),
    ]},
    Registry { name: "ClientCertificateType", wide: false, items: &[
        (0x0001, "RSASign"), (0x0002, "DSSSign"), (0x0003, "RSAFixedDH"), (0x0004, "DSSFixedDH"),
        (0x0005, "RSAEphemeralDH"), (0x0006, "DSSEphemeralDH"), (0x0014, "FortezzaDMS"), (0x0040, "ECDSASign"),
        (0x0041, "RSAFixedECDH"), (0x0042, "ECDSAFixedECDH"),
    ]},
    Registry { name: "Compression", wide: false, items: &[
        (0x0000, "Null"), (0x0001, "Deflate"), (0x0040, "LSZ"),
    ]},
    Registry { name: "ContentType", wide: false, items: &[
        (0x0014, "ChangeCipherSpec"), (0x0015, "Alert"), (0x0016, "Handshake"), (0x0017, "ApplicationData"),
        (0x0018, "Heartbeat"),
    ]},
    Registry { name: "HandshakeType", wide: false, items: &[
        (0x0000, "HelloRequest"), (0x0001, "ClientHello"), (0x0002, "ServerHello"), (0x0003, "HelloVerifyRequest"),
        (0x0004, "NewSessionTicket"), (0x0005, "EndOfEarlyData"), (0x0006, "HelloRetryRequest"),
        (0x0008, "EncryptedExtensions"), (0x000b, "Certificate"), (0x000c, "ServerKeyExchange"),
        (0x000d, "CertificateRequest"), (0x000e, "ServerHelloDone"), (0x000f, "CertificateVerify"),
        (0x0010, "ClientKeyExchange"), (0x0014, "Finished"), (0x0015, "CertificateURL"),
        (0x0016, "CertificateStatus"), (0x0018, "KeyUpdate"), (0x00fe, "MessageHash"),
    ]},
    Registry { name: "AlertLevel", wide: false, items: &[
        (0x0001, "Warning"), (0x0002, "Fatal"),
    ]},
    Registry { name: "AlertDescription", wide: false, items: &[
        (0x0000, "CloseNotify"), (0x000a, "UnexpectedMessage"), (0x0014, "BadRecordMac"),
        (0x0015, "DecryptionFailed"), (0x0016, "RecordOverflow"), (0x001e, "DecompressionFailure"),
        (0x0028, "HandshakeFailure"), (0x0029, "NoCertificate"), (0x002a, "BadCertificate"),
        (0x002b, "UnsupportedCertificate"), (0x002c, "CertificateRevoked"), (0x002d, "CertificateExpired"),
        (0x002e, "CertificateUnknown"), (0x002f, "IllegalParameter"), (0x0030, "UnknownCA"), (0x0031, "AccessDenied"),
        (0x0032, "DecodeError"), (0x0033, "DecryptError"), (0x003c, "ExportRestriction"), (0x0046, "ProtocolVersion"),
        (0x0047, "InsufficientSecurity"), (0x0050, "InternalError"), (0x0056, "InappropriateFallback"),
        (0x005a, "UserCanceled"), (0x0064, "NoRenegotiation"), (0x006d, "MissingExtension"),
        (0x006e, "UnsupportedExtension"), (0x006f, "CertificateUnobtainable"), (0x0070, "UnrecognisedName"),
        (0x0071, "BadCertificateStatusResponse"), (0x0072, "BadCertificateHashValue"), (0x0073, "UnknownPSKIdentity"),
        (0x0074, "CertificateRequired"), (0x0078, "NoApplicationProtocol"),
    ]},
    Registry { name: "HeartbeatMessageType", wide: false, items: &[
        (0x0001, "Request"), (0x0002, "Response"),
    ]},
    Registry { name: "ExtensionType", wide: true, items: &[
        (0x0000, "ServerName"), (0x0001, "MaxFragmentLength"), (0x0002, "ClientCertificateUrl"),
        (0x0003, "TrustedCAKeys"), (0x0004, "TruncatedHMAC"), (0x0005, "StatusRequest"), (0x0006, "UserMapping"),
        (0x0007, "ClientAuthz"), (0x0008, "ServerAuthz"), (0x0009, "CertificateType"), (0x000a, "EllipticCurves"),
        (0x000b, "ECPointFormats"), (0x000c, "SRP"), (0x000d, "SignatureAlgorithms"), (0x000e, "UseSRTP"),
        (0x000f, "Heartbeat"), (0x0010, "ALProtocolNegotiation"), (0x0012, "SCT"), (0x0015, "Padding"),
        (0x0017, "ExtendedMasterSecret"), (0x0023, "SessionTicket"), (0x0029, "PreSharedKey"), (0x002a, "EarlyData"),
        (0x002b, "SupportedVersions"), (0x002c, "Cookie"), (0x002d, "PSKKeyExchangeModes"),
        (0x002e, "TicketEarlyDataInfo"), (0x002f, "CertificateAuthorities"), (0x0030, "OIDFilters"),
        (0x0031, "PostHandshakeAuth"), (0x0032, "SignatureAlgorithmsCert"), (0x0033, "KeyShare"),
        (0x0039, "TransportParameters"), (0x3374, "NextProtocolNegotiation"), (0x754f, "ChannelId"),
        (0xff01, "RenegotiationInfo"), (0xffa5, "TransportParametersDraft"),
    ]},
    Registry { name: "ServerNameType", wide: false, items: &[
        (0x0000, "HostName"),
    ]},
    Registry { name: "NamedCurve", wide: true, items: &[
        (0x0001, "sect163k1"), (0x0002, "sect163r1"), (0x0003, "sect163r2"), (0x0004, "sect193r1"),
        (0x0005, "sect193r2"), (0x0006, "sect233k1"), (0x0007, "sect233r1"), (0x0008, "sect239k1"),
        (0x0009, "sect283k1"), (0x000a, "sect283r1"), (0x000b, "sect409k1"), (0x000c, "sect409r1"),
        (0x000d, "sect571k1"), (0x000e, "sect571r1"), (0x000f, "secp160k1"), (0x0010, "secp160r1"),
        (0x0011, "secp160r2"), (0x0012, "secp192k1"), (0x0013, "secp192r1"), (0x0014, "secp224k1"),
        (0x0015, "secp224r1"), (0x0016, "secp256k1"), (0x0017, "secp256r1"), (0x0018, "secp384r1"),
        (0x0019, "secp521r1"), (0x001a, "brainpoolp256r1"), (0x001b, "brainpoolp384r1"), (0x001c, "brainpoolp512r1"),
        (0x001d, "X25519"), (0x001e, "X448"), (0xff01, "arbitrary_explicit_prime_curves"),
        (0xff02, "arbitrary_explicit_char2_curves"),
    ]},
    Registry { name: "NamedGroup", wide: true, items: &[
        (0x0017, "secp256r1"), (0x0018, "secp384r1"), (0x0019, "secp521r1"), (0x001d, "X25519"), (0x001e, "X448"),
        (0x0100, "FFDHE2048"), (0x0101, "FFDHE3072"), (0x0102, "FFDHE4096"), (0x0103, "FFDHE6144"),
        (0x0104, "FFDHE8192"),
    ]},
    Registry { name: "CipherSuite", wide: true, items: &[
        (0x0000, "TLS_NULL_WITH_NULL_NULL"), (0x0001, "TLS_RSA_WITH_NULL_MD5"), (0x0002, "TLS_RSA_WITH_NULL_SHA"),
        (0x0003, "TLS_RSA_EXPORT_WITH_RC4_40_MD5"), (0x0004, "TLS_RSA_WITH_RC4_128_MD5"),
        (0x0005, "TLS_RSA_WITH_RC4_128_SHA"), (0x0006, "TLS_RSA_EXPORT_WITH_RC2_CBC_40_MD5"),
        (0x0007, "TLS_RSA_WITH_IDEA_CBC_SHA"), (0x0008, "TLS_RSA_EXPORT_WITH_DES40_CBC_SHA"),
        (0x0009, "TLS_RSA_WITH_DES_CBC_SHA"), (0x000a, "TLS_RSA_WITH_3DES_EDE_CBC_SHA"),
        (0x000b, "TLS_DH_DSS_EXPORT_WITH_DES40_CBC_SHA"), (0x000c, "TLS_DH_DSS_WITH_DES_CBC_SHA"),
        (0x000d, "TLS_DH_DSS_WITH_3DES_EDE_CBC_SHA"), (0x000e, "TLS_DH_RSA_EXPORT_WITH_DES40_CBC_SHA"),
        (0x000f, "TLS_DH_RSA_WITH_DES_CBC_SHA"), (0x0010, "TLS_DH_RSA_WITH_3DES_EDE_CBC_SHA"),
        (0x0011, "TLS_DHE_DSS_EXPORT_WITH_DES40_CBC_SHA"), (0x0012, "TLS_DHE_DSS_WITH_DES_CBC_SHA"),
        (0x0013, "TLS_DHE_DSS_WITH_3DES_EDE_CBC_SHA"), (0x0014, "TLS_DHE_RSA_EXPORT_WITH_DES40_CBC_SHA"),
        (0x0015, "TLS_DHE_RSA_WITH_DES_CBC_SHA"), (0x0016, "TLS_DHE_RSA_WITH_3DES_EDE_CBC_SHA"),
        (0x0017, "TLS_DH_anon_EXPORT_WITH_RC4_40_MD5"), (0x0018, "TLS_DH_anon_WITH_RC4_128_MD5"),
        (0x0019, "TLS_DH_anon_EXPORT_WITH_DES40_CBC_SHA"), (0x001a, "TLS_DH_anon_WITH_DES_CBC_SHA"),
        (0x001b, "TLS_DH_anon_WITH_3DES_EDE_CBC_SHA"), (0x001c, "SSL_FORTEZZA_KEA_WITH_NULL_SHA"),
        (0x001d, "SSL_FORTEZZA_KEA_WITH_FORTEZZA_CBC_SHA"),
        (0x001e, "TLS_KRB5_WITH_DES_CBC_SHA_or_SSL_FORTEZZA_KEA_WITH_RC4_128_SHA"),
        (0x001f, "TLS_KRB5_WITH_3DES_EDE_CBC_SHA"), (0x0020, "TLS_KRB5_WITH_RC4_128_SHA"),
        (0x0021, "TLS_KRB5_WITH_IDEA_CBC_SHA"), (0x0022, "TLS_KRB5_WITH_DES_CBC_MD5"),
        (0x0023, "TLS_KRB5_WITH_3DES_EDE_CBC_MD5"), (0x0024, "TLS_KRB5_WITH_RC4_128_MD5"),
        (0x0025, "TLS_KRB5_WITH_IDEA_CBC_MD5"), (0x0026, "TLS_KRB5_EXPORT_WITH_DES_CBC_40_SHA"),
        (0x0027, "TLS_KRB5_EXPORT_WITH_RC2_CBC_40_SHA"), (0x0028, "TLS_KRB5_EXPORT_WITH_RC4_40_SHA"),
        (0x0029, "TLS_KRB5_EXPORT_WITH_DES_CBC_40_MD5"), (0x002a, "TLS_KRB5_EXPORT_WITH_RC2_CBC_40_MD5"),
        (0x002b, "TLS_KRB5_EXPORT_WITH_RC4_40_MD5"), (0x002c, "TLS_PSK_WITH_NULL_SHA"),
        (0x002d, "TLS_DHE_PSK_WITH_NULL_SHA"), (0x002e, "TLS_RSA_PSK_WITH_NULL_SHA"),
        (0x002f, "TLS_RSA_WITH_AES_128_CBC_SHA"), (0x0030, "TLS_DH_DSS_WITH_AES_128_CBC_SHA"),
        (0x0031, "TLS_DH_RSA_WITH_AES_128_CBC_SHA"), (0x0032, "TLS_DHE_DSS_WITH_AES_128_CBC_SHA"),
        (0x0033, "TLS_DHE_RSA_WITH_AES_128_CBC_SHA"), (0x0034, "TLS_DH_anon_WITH_AES_128_CBC_SHA"),
        (0x0035, "TLS_RSA_WITH_AES_256_CBC_SHA"), (0x0036, "TLS_DH_DSS_WITH_AES_256_CBC_SHA"),
        (0x0037, "TLS_DH_RSA_WITH_AES_256_CBC_SHA"), (0x0038, "TLS_DHE_DSS_WITH_AES_256_CBC_SHA"),
        (0x0039, "TLS_DHE_RSA_WITH_AES_256_CBC_SHA"), (0x003a, "TLS_DH_anon_WITH_AES_256_CBC_SHA"),
        (0x003b, "TLS_RSA_WITH_NULL_SHA256"), (0x003c, "TLS_RSA_WITH_AES_128_CBC_SHA256"),
        (0x003d, "TLS_RSA_WITH_AES_256_CBC_SHA256"), (0x003e, "TLS_DH_DSS_WITH_AES_128_CBC_SHA256"),
        (0x003f, "TLS_DH_RSA_WITH_AES_128_CBC_SHA256"), (0x0040, "TLS_DHE_DSS_WITH_AES_128_CBC_SHA256"),
        (0x0041, "TLS_RSA_WITH_CAMELLIA_128_CBC_SHA"), (0x0042, "TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA"),
        (0x0043, "TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA"), (0x0044, "TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA"),
        (0x0045, "TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA"), (0x0046, "TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA"),
        (0x0047, "TLS_ECDH_ECDSA_WITH_NULL_SHA_draft"), (0x0048, "TLS_ECDH_ECDSA_WITH_RC4_128_SHA_draft"),
        (0x0049, "TLS_ECDH_ECDSA_WITH_DES_CBC_SHA_draft"), (0x004a, "TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA_draft"),
        (0x004b, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA_draft"), (0x004c, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA_draft"),
        (0x004d, "TLS_ECDH_ECNRA_WITH_DES_CBC_SHA_draft"), (0x004e, "TLS_ECDH_ECNRA_WITH_3DES_EDE_CBC_SHA_draft"),
        (0x004f, "TLS_ECMQV_ECDSA_NULL_SHA_draft"), (0x0050, "TLS_ECMQV_ECDSA_WITH_RC4_128_SHA_draft"),
        (0x0051, "TLS_ECMQV_ECDSA_WITH_DES_CBC_SHA_draft"), (0x0052, "TLS_ECMQV_ECDSA_WITH_3DES_EDE_CBC_SHA_draft"),
        (0x0053, "TLS_ECMQV_ECNRA_NULL_SHA_draft"), (0x0054, "TLS_ECMQV_ECNRA_WITH_RC4_128_SHA_draft"),
        (0x0055, "TLS_ECMQV_ECNRA_WITH_DES_CBC_SHA_draft"), (0x0056, "TLS_ECMQV_ECNRA_WITH_3DES_EDE_CBC_SHA_draft"),
        (0x0057, "TLS_ECDH_anon_NULL_WITH_SHA_draft"), (0x0058, "TLS_ECDH_anon_WITH_RC4_128_SHA_draft"),
        (0x0059, "TLS_ECDH_anon_WITH_DES_CBC_SHA_draft"), (0x005a, "TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA_draft"),
        (0x005b, "TLS_ECDH_anon_EXPORT_WITH_DES40_CBC_SHA_draft"),
        (0x005c, "TLS_ECDH_anon_EXPORT_WITH_RC4_40_SHA_draft"), (0x0060, "TLS_RSA_EXPORT1024_WITH_RC4_56_MD5"),
        (0x0061, "TLS_RSA_EXPORT1024_WITH_RC2_CBC_56_MD5"), (0x0062, "TLS_RSA_EXPORT1024_WITH_DES_CBC_SHA"),
        (0x0063, "TLS_DHE_DSS_EXPORT1024_WITH_DES_CBC_SHA"), (0x0064, "TLS_RSA_EXPORT1024_WITH_RC4_56_SHA"),
        (0x0065, "TLS_DHE_DSS_EXPORT1024_WITH_RC4_56_SHA"), (0x0066, "TLS_DHE_DSS_WITH_RC4_128_SHA"),
        (0x0067, "TLS_DHE_RSA_WITH_AES_128_CBC_SHA256"), (0x0068, "TLS_DH_DSS_WITH_AES_256_CBC_SHA256"),
        (0x0069, "TLS_DH_RSA_WITH_AES_256_CBC_SHA256"), (0x006a, "TLS_DHE_DSS_WITH_AES_256_CBC_SHA256"),
        (0x006b, "TLS_DHE_RSA_WITH_AES_256_CBC_SHA256"), (0x006c, "TLS_DH_anon_WITH_AES_128_CBC_SHA256"),
        (0x006d, "TLS_DH_anon_WITH_AES_256_CBC_SHA256"), (0x0072, "TLS_DHE_DSS_WITH_3DES_EDE_CBC_RMD"),
        (0x0073, "TLS_DHE_DSS_WITH_AES_128_CBC_RMD"), (0x0074, "TLS_DHE_DSS_WITH_AES_256_CBC_RMD"),
        (0x0077, "TLS_DHE_RSA_WITH_3DES_EDE_CBC_RMD"), (0x0078, "TLS_DHE_RSA_WITH_AES_128_CBC_RMD"),
        (0x0079, "TLS_DHE_RSA_WITH_AES_256_CBC_RMD"), (0x007c, "TLS_RSA_WITH_3DES_EDE_CBC_RMD"),
        (0x007d, "TLS_RSA_WITH_AES_128_CBC_RMD"), (0x007e, "TLS_RSA_WITH_AES_256_CBC_RMD"),
        (0x0080, "TLS_GOSTR341094_WITH_28147_CNT_IMIT"), (0x0081, "TLS_GOSTR341001_WITH_28147_CNT_IMIT"),
        (0x0082, "TLS_GOSTR341094_WITH_NULL_GOSTR3411"), (0x0083, "TLS_GOSTR341001_WITH_NULL_GOSTR3411"),
        (0x0084, "TLS_RSA_WITH_CAMELLIA_256_CBC_SHA"), (0x0085, "TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA"),
        (0x0086, "TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA"), (0x0087, "TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA"),
        (0x0088, "TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA"), (0x0089, "TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA"),
        (0x008a, "TLS_PSK_WITH_RC4_128_SHA"), (0x008b, "TLS_PSK_WITH_3DES_EDE_CBC_SHA"),
        (0x008c, "TLS_PSK_WITH_AES_128_CBC_SHA"), (0x008d, "TLS_PSK_WITH_AES_256_CBC_SHA"),
        (0x008e, "TLS_DHE_PSK_WITH_RC4_128_SHA"), (0x008f, "TLS_DHE_PSK_WITH_3DES_EDE_CBC_SHA"),
        (0x0090, "TLS_DHE_PSK_WITH_AES_128_CBC_SHA"), (0x0091, "TLS_DHE_PSK_WITH_AES_256_CBC_SHA"),
        (0x0092, "TLS_RSA_PSK_WITH_RC4_128_SHA"), (0x0093, "TLS_RSA_PSK_WITH_3DES_EDE_CBC_SHA"),
        (0x0094, "TLS_RSA_PSK_WITH_AES_128_CBC_SHA"), (0x0095, "TLS_RSA_PSK_WITH_AES_256_CBC_SHA"),
        (0x0096, "TLS_RSA_WITH_SEED_CBC_SHA"), (0x0097, "TLS_DH_DSS_WITH_SEED_CBC_SHA"),
        (0x0098, "TLS_DH_RSA_WITH_SEED_CBC_SHA"), (0x0099, "TLS_DHE_DSS_WITH_SEED_CBC_SHA"),
        (0x009a, "TLS_DHE_RSA_WITH_SEED_CBC_SHA"), (0x009b, "TLS_DH_anon_WITH_SEED_CBC_SHA"),
        (0x009c, "TLS_RSA_WITH_AES_128_GCM_SHA256"), (0x009d, "TLS_RSA_WITH_AES_256_GCM_SHA384"),
        (0x009e, "TLS_DHE_RSA_WITH_AES_128_GCM_SHA256"), (0x009f, "TLS_DHE_RSA_WITH_AES_256_GCM_SHA384"),
        (0x00a0, "TLS_DH_RSA_WITH_AES_128_GCM_SHA256"), (0x00a1, "TLS_DH_RSA_WITH_AES_256_GCM_SHA384"),
        (0x00a2, "TLS_DHE_DSS_WITH_AES_128_GCM_SHA256"), (0x00a3, "TLS_DHE_DSS_WITH_AES_256_GCM_SHA384"),
        (0x00a4, "TLS_DH_DSS_WITH_AES_128_GCM_SHA256"), (0x00a5, "TLS_DH_DSS_WITH_AES_256_GCM_SHA384"),
        (0x00a6, "TLS_DH_anon_WITH_AES_128_GCM_SHA256"), (0x00a7, "TLS_DH_anon_WITH_AES_256_GCM_SHA384"),
        (0x00a8, "TLS_PSK_WITH_AES_128_GCM_SHA256"), (0x00a9, "TLS_PSK_WITH_AES_256_GCM_SHA384"),
        (0x00aa, "TLS_DHE_PSK_WITH_AES_128_GCM_SHA256"), (0x00ab, "TLS_DHE_PSK_WITH_AES_256_GCM_SHA384"),
        (0x00ac, "TLS_RSA_PSK_WITH_AES_128_GCM_SHA256"), (0x00ad, "TLS_RSA_PSK_WITH_AES_256_GCM_SHA384"),
        (0x00ae, "TLS_PSK_WITH_AES_128_CBC_SHA256"), (0x00af, "TLS_PSK_WITH_AES_256_CBC_SHA384"),
        (0x00b0, "TLS_PSK_WITH_NULL_SHA256"), (0x00b1, "TLS_PSK_WITH_NULL_SHA384"),
        (0x00b2, "TLS_DHE_PSK_WITH_AES_128_CBC_SHA256"), (0x00b3, "TLS_DHE_PSK_WITH_AES_256_CBC_SHA384"),
        (0x00b4, "TLS_DHE_PSK_WITH_NULL_SHA256"), (0x00b5, "TLS_DHE_PSK_WITH_NULL_SHA384"),
        (0x00b6, "TLS_RSA_PSK_WITH_AES_128_CBC_SHA256"), (0x00b7, "TLS_RSA_PSK_WITH_AES_256_CBC_SHA384"),
        (0x00b8, "TLS_RSA_PSK_WITH_NULL_SHA256"), (0x00b9, "TLS_RSA_PSK_WITH_NULL_SHA384"),
        (0x00ba, "TLS_RSA_WITH_CAMELLIA_128_CBC_SHA256"), (0x00bb, "TLS_DH_DSS_WITH_CAMELLIA_128_CBC_SHA256"),
        (0x00bc, "TLS_DH_RSA_WITH_CAMELLIA_128_CBC_SHA256"), (0x00bd, "TLS_DHE_DSS_WITH_CAMELLIA_128_CBC_SHA256"),
        (0x00be, "TLS_DHE_RSA_WITH_CAMELLIA_128_CBC_SHA256"), (0x00bf, "TLS_DH_anon_WITH_CAMELLIA_128_CBC_SHA256"),
        (0x00c0, "TLS_RSA_WITH_CAMELLIA_256_CBC_SHA256"), (0x00c1, "TLS_DH_DSS_WITH_CAMELLIA_256_CBC_SHA256"),
        (0x00c2, "TLS_DH_RSA_WITH_CAMELLIA_256_CBC_SHA256"), (0x00c3, "TLS_DHE_DSS_WITH_CAMELLIA_256_CBC_SHA256"),
        (0x00c4, "TLS_DHE_RSA_WITH_CAMELLIA_256_CBC_SHA256"), (0x00c5, "TLS_DH_anon_WITH_CAMELLIA_256_CBC_SHA256"),
        (0x00ff, "TLS_EMPTY_RENEGOTIATION_INFO_SCSV"), (0x1301, "TLS13_AES_128_GCM_SHA256"),
        (0x1302, "TLS13_AES_256_GCM_SHA384"), (0x1303, "TLS13_CHACHA20_POLY1305_SHA256"),
        (0x1304, "TLS13_AES_128_CCM_SHA256"), (0x1305, "TLS13_AES_128_CCM_8_SHA256"),
        (0xc001, "TLS_ECDH_ECDSA_WITH_NULL_SHA"), (0xc002, "TLS_ECDH_ECDSA_WITH_RC4_128_SHA"),
        (0xc003, "TLS_ECDH_ECDSA_WITH_3DES_EDE_CBC_SHA"), (0xc004, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA"),
        (0xc005, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA"), (0xc006, "TLS_ECDHE_ECDSA_WITH_NULL_SHA"),
        (0xc007, "TLS_ECDHE_ECDSA_WITH_RC4_128_SHA"), (0xc008, "TLS_ECDHE_ECDSA_WITH_3DES_EDE_CBC_SHA"),
        (0xc009, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA"), (0xc00a, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA"),
        (0xc00b, "TLS_ECDH_RSA_WITH_NULL_SHA"), (0xc00c, "TLS_ECDH_RSA_WITH_RC4_128_SHA"),
        (0xc00d, "TLS_ECDH_RSA_WITH_3DES_EDE_CBC_SHA"), (0xc00e, "TLS_ECDH_RSA_WITH_AES_128_CBC_SHA"),
        (0xc00f, "TLS_ECDH_RSA_WITH_AES_256_CBC_SHA"), (0xc010, "TLS_ECDHE_RSA_WITH_NULL_SHA"),
        (0xc011, "TLS_ECDHE_RSA_WITH_RC4_128_SHA"), (0xc012, "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA"),
        (0xc013, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA"), (0xc014, "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA"),
        (0xc015, "TLS_ECDH_anon_WITH_NULL_SHA"), (0xc016, "TLS_ECDH_anon_WITH_RC4_128_SHA"),
        (0xc017, "TLS_ECDH_anon_WITH_3DES_EDE_CBC_SHA"), (0xc018, "TLS_ECDH_anon_WITH_AES_128_CBC_SHA"),
        (0xc019, "TLS_ECDH_anon_WITH_AES_256_CBC_SHA"), (0xc01a, "TLS_SRP_SHA_WITH_3DES_EDE_CBC_SHA"),
        (0xc01b, "TLS_SRP_SHA_RSA_WITH_3DES_EDE_CBC_SHA"), (0xc01c, "TLS_SRP_SHA_DSS_WITH_3DES_EDE_CBC_SHA"),
        (0xc01d, "TLS_SRP_SHA_WITH_AES_128_CBC_SHA"), (0xc01e, "TLS_SRP_SHA_RSA_WITH_AES_128_CBC_SHA"),
        (0xc01f, "TLS_SRP_SHA_DSS_WITH_AES_128_CBC_SHA"), (0xc020, "TLS_SRP_SHA_WITH_AES_256_CBC_SHA"),
        (0xc021, "TLS_SRP_SHA_RSA_WITH_AES_256_CBC_SHA"), (0xc022, "TLS_SRP_SHA_DSS_WITH_AES_256_CBC_SHA"),
        (0xc023, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256"), (0xc024, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA384"),
        (0xc025, "TLS_ECDH_ECDSA_WITH_AES_128_CBC_SHA256"), (0xc026, "TLS_ECDH_ECDSA_WITH_AES_256_CBC_SHA384"),
        (0xc027, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256"), (0xc028, "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA384"),
        (0xc029, "TLS_ECDH_RSA_WITH_AES_128_CBC_SHA256"), (0xc02a, "TLS_ECDH_RSA_WITH_AES_256_CBC_SHA384"),
        (0xc02b, "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256"), (0xc02c, "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384"),
        (0xc02d, "TLS_ECDH_ECDSA_WITH_AES_128_GCM_SHA256"), (0xc02e, "TLS_ECDH_ECDSA_WITH_AES_256_GCM_SHA384"),
        (0xc02f, "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256"), (0xc030, "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384"),
        (0xc031, "TLS_ECDH_RSA_WITH_AES_128_GCM_SHA256"), (0xc032, "TLS_ECDH_RSA_WITH_AES_256_GCM_SHA384"),
        (0xc033, "TLS_ECDHE_PSK_WITH_RC4_128_SHA"), (0xc034, "TLS_ECDHE_PSK_WITH_3DES_EDE_CBC_SHA"),
        (0xc035, "TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA"), (0xc036, "TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA"),
        (0xc037, "TLS_ECDHE_PSK_WITH_AES_128_CBC_SHA256"), (0xc038, "TLS_ECDHE_PSK_WITH_AES_256_CBC_SHA384"),
        (0xc039, "TLS_ECDHE_PSK_WITH_NULL_SHA"), (0xc03a, "TLS_ECDHE_PSK_WITH_NULL_SHA256"),
        (0xc03b, "TLS_ECDHE_PSK_WITH_NULL_SHA384"), (0xc03c, "TLS_RSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc03d, "TLS_RSA_WITH_ARIA_256_CBC_SHA384"), (0xc03e, "TLS_DH_DSS_WITH_ARIA_128_CBC_SHA256"),
        (0xc03f, "TLS_DH_DSS_WITH_ARIA_256_CBC_SHA384"), (0xc040, "TLS_DH_RSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc041, "TLS_DH_RSA_WITH_ARIA_256_CBC_SHA384"), (0xc042, "TLS_DHE_DSS_WITH_ARIA_128_CBC_SHA256"),
        (0xc043, "TLS_DHE_DSS_WITH_ARIA_256_CBC_SHA384"), (0xc044, "TLS_DHE_RSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc045, "TLS_DHE_RSA_WITH_ARIA_256_CBC_SHA384"), (0xc046, "TLS_DH_anon_WITH_ARIA_128_CBC_SHA256"),
        (0xc047, "TLS_DH_anon_WITH_ARIA_256_CBC_SHA384"), (0xc048, "TLS_ECDHE_ECDSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc049, "TLS_ECDHE_ECDSA_WITH_ARIA_256_CBC_SHA384"), (0xc04a, "TLS_ECDH_ECDSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc04b, "TLS_ECDH_ECDSA_WITH_ARIA_256_CBC_SHA384"), (0xc04c, "TLS_ECDHE_RSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc04d, "TLS_ECDHE_RSA_WITH_ARIA_256_CBC_SHA384"), (0xc04e, "TLS_ECDH_RSA_WITH_ARIA_128_CBC_SHA256"),
        (0xc04f, "TLS_ECDH_RSA_WITH_ARIA_256_CBC_SHA384"), (0xc050, "TLS_RSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc051, "TLS_RSA_WITH_ARIA_256_GCM_SHA384"), (0xc052, "TLS_DHE_RSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc053, "TLS_DHE_RSA_WITH_ARIA_256_GCM_SHA384"), (0xc054, "TLS_DH_RSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc055, "TLS_DH_RSA_WITH_ARIA_256_GCM_SHA384"), (0xc056, "TLS_DHE_DSS_WITH_ARIA_128_GCM_SHA256"),
        (0xc057, "TLS_DHE_DSS_WITH_ARIA_256_GCM_SHA384"), (0xc058, "TLS_DH_DSS_WITH_ARIA_128_GCM_SHA256"),
        (0xc059, "TLS_DH_DSS_WITH_ARIA_256_GCM_SHA384"), (0xc05a, "TLS_DH_anon_WITH_ARIA_128_GCM_SHA256"),
        (0xc05b, "TLS_DH_anon_WITH_ARIA_256_GCM_SHA384"), (0xc05c, "TLS_ECDHE_ECDSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc05d, "TLS_ECDHE_ECDSA_WITH_ARIA_256_GCM_SHA384"), (0xc05e, "TLS_ECDH_ECDSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc05f, "TLS_ECDH_ECDSA_WITH_ARIA_256_GCM_SHA384"), (0xc060, "TLS_ECDHE_RSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc061, "TLS_ECDHE_RSA_WITH_ARIA_256_GCM_SHA384"), (0xc062, "TLS_ECDH_RSA_WITH_ARIA_128_GCM_SHA256"),
        (0xc063, "TLS_ECDH_RSA_WITH_ARIA_256_GCM_SHA384"), (0xc064, "TLS_PSK_WITH_ARIA_128_CBC_SHA256"),
        (0xc065, "TLS_PSK_WITH_ARIA_256_CBC_SHA384"), (0xc066, "TLS_DHE_PSK_WITH_ARIA_128_CBC_SHA256"),
        (0xc067, "TLS_DHE_PSK_WITH_ARIA_256_CBC_SHA384"), (0xc068, "TLS_RSA_PSK_WITH_ARIA_128_CBC_SHA256"),
        (0xc069, "TLS_RSA_PSK_WITH_ARIA_256_CBC_SHA384"), (0xc06a, "TLS_PSK_WITH_ARIA_128_GCM_SHA256"),
        (0xc06b, "TLS_PSK_WITH_ARIA_256_GCM_SHA384"), (0xc06c, "TLS_DHE_PSK_WITH_ARIA_128_GCM_SHA256"),
        (0xc06d, "TLS_DHE_PSK_WITH_ARIA_256_GCM_SHA384"), (0xc06e, "TLS_RSA_PSK_WITH_ARIA_128_GCM_SHA256"),
        (0xc06f, "TLS_RSA_PSK_WITH_ARIA_256_GCM_SHA384"), (0xc070, "TLS_ECDHE_PSK_WITH_ARIA_128_CBC_SHA256"),
        (0xc071, "TLS_ECDHE_PSK_WITH_ARIA_256_CBC_SHA384"), (0xc072, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc073, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_CBC_SHA384"),
        (0xc074, "TLS_ECDH_ECDSA_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc075, "TLS_ECDH_ECDSA_WITH_CAMELLIA_256_CBC_SHA384"),
        (0xc076, "TLS_ECDHE_RSA_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc077, "TLS_ECDHE_RSA_WITH_CAMELLIA_256_CBC_SHA384"), (0xc078, "TLS_ECDH_RSA_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc079, "TLS_ECDH_RSA_WITH_CAMELLIA_256_CBC_SHA384"), (0xc07a, "TLS_RSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc07b, "TLS_RSA_WITH_CAMELLIA_256_GCM_SHA384"), (0xc07c, "TLS_DHE_RSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc07d, "TLS_DHE_RSA_WITH_CAMELLIA_256_GCM_SHA384"), (0xc07e, "TLS_DH_RSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc07f, "TLS_DH_RSA_WITH_CAMELLIA_256_GCM_SHA384"), (0xc080, "TLS_DHE_DSS_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc081, "TLS_DHE_DSS_WITH_CAMELLIA_256_GCM_SHA384"), (0xc082, "TLS_DH_DSS_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc083, "TLS_DH_DSS_WITH_CAMELLIA_256_GCM_SHA384"), (0xc084, "TLS_DH_anon_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc085, "TLS_DH_anon_WITH_CAMELLIA_256_GCM_SHA384"),
        (0xc086, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc087, "TLS_ECDHE_ECDSA_WITH_CAMELLIA_256_GCM_SHA384"),
        (0xc088, "TLS_ECDH_ECDSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc089, "TLS_ECDH_ECDSA_WITH_CAMELLIA_256_GCM_SHA384"),
        (0xc08a, "TLS_ECDHE_RSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc08b, "TLS_ECDHE_RSA_WITH_CAMELLIA_256_GCM_SHA384"), (0xc08c, "TLS_ECDH_RSA_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc08d, "TLS_ECDH_RSA_WITH_CAMELLIA_256_GCM_SHA384"), (0xc08e, "TLS_PSK_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc08f, "TLS_PSK_WITH_CAMELLIA_256_GCM_SHA384"), (0xc090, "TLS_DHE_PSK_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc091, "TLS_DHE_PSK_WITH_CAMELLIA_256_GCM_SHA384"), (0xc092, "TLS_RSA_PSK_WITH_CAMELLIA_128_GCM_SHA256"),
        (0xc093, "TLS_RSA_PSK_WITH_CAMELLIA_256_GCM_SHA384"), (0xc094, "TLS_PSK_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc095, "TLS_PSK_WITH_CAMELLIA_256_CBC_SHA384"), (0xc096, "TLS_DHE_PSK_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc097, "TLS_DHE_PSK_WITH_CAMELLIA_256_CBC_SHA384"), (0xc098, "TLS_RSA_PSK_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc099, "TLS_RSA_PSK_WITH_CAMELLIA_256_CBC_SHA384"), (0xc09a, "TLS_ECDHE_PSK_WITH_CAMELLIA_128_CBC_SHA256"),
        (0xc09b, "TLS_ECDHE_PSK_WITH_CAMELLIA_256_CBC_SHA384"), (0xc09c, "TLS_RSA_WITH_AES_128_CCM"),
        (0xc09d, "TLS_RSA_WITH_AES_256_CCM"), (0xc09e, "TLS_DHE_RSA_WITH_AES_128_CCM"),
        (0xc09f, "TLS_DHE_RSA_WITH_AES_256_CCM"), (0xc0a0, "TLS_RSA_WITH_AES_128_CCM_8"),
        (0xc0a1, "TLS_RSA_WITH_AES_256_CCM_8"), (0xc0a2, "TLS_DHE_RSA_WITH_AES_128_CCM_8"),
        (0xc0a3, "TLS_DHE_RSA_WITH_AES_256_CCM_8"), (0xc0a4, "TLS_PSK_WITH_AES_128_CCM"),
        (0xc0a5, "TLS_PSK_WITH_AES_256_CCM"), (0xc0a6, "TLS_DHE_PSK_WITH_AES_128_CCM"),
        (0xc0a7, "TLS_DHE_PSK_WITH_AES_256_CCM"), (0xc0a8, "TLS_PSK_WITH_AES_128_CCM_8"),
        (0xc0a9, "TLS_PSK_WITH_AES_256_CCM_8"), (0xc0aa, "TLS_PSK_DHE_WITH_AES_128_CCM_8"),
        (0xc0ab, "TLS_PSK_DHE_WITH_AES_256_CCM_8"), (0xc0ac, "TLS_ECDHE_ECDSA_WITH_AES_128_CCM"),
        (0xc0ad, "TLS_ECDHE_ECDSA_WITH_AES_256_CCM"), (0xc0ae, "TLS_ECDHE_ECDSA_WITH_AES_128_CCM_8"),
        (0xc0af, "TLS_ECDHE_ECDSA_WITH_AES_256_CCM_8"), (0xcca8, "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"),
        (0xcca9, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256"),
        (0xccaa, "TLS_DHE_RSA_WITH_CHACHA20_POLY1305_SHA256"), (0xccab, "TLS_PSK_WITH_CHACHA20_POLY1305_SHA256"),
        (0xccac, "TLS_ECDHE_PSK_WITH_CHACHA20_POLY1305_SHA256"),
        (0xccad, "TLS_DHE_PSK_WITH_CHACHA20_POLY1305_SHA256"), (0xccae, "TLS_RSA_PSK_WITH_CHACHA20_POLY1305_SHA256"),
        (0xfefe, "SSL_RSA_FIPS_WITH_DES_CBC_SHA"), (0xfeff, "SSL_RSA_FIPS_WITH_3DES_EDE_CBC_SHA"),
    ]},
    Registry { name: "ECPointFormat", wide: false, items: &[
        (0x0000, "Uncompressed"), (0x0001, "ANSIX962CompressedPrime"), (0x0002, "ANSIX962CompressedChar2"),
    ]},
    Registry { name: "HeartbeatMode", wide: false, items: &[
        (0x0001, "PeerAllowedToSend"), (0x0002, "PeerNotAllowedToSend"),
    ]},
    Registry { name: "ECCurveType", wide: false, items: &[
        (0x0001, "ExplicitPrime"), (0x0002, "ExplicitChar2"), (0x0003, "NamedCurve"),
    ]},
    Registry { name: "SignatureScheme", wide: true, items: &[
        (0x0201, "RSA_PKCS1_SHA1"), (0x0203, "ECDSA_SHA1_Legacy"), (0x0401, "RSA_PKCS1_SHA256"),
        (0x0403, "ECDSA_NISTP256_SHA256"), (0x0501, "RSA_PKCS1_SHA384"), (0x0503, "ECDSA_NISTP384_SHA384"),
        (0x0601, "RSA_PKCS1_SHA512"), (0x0603, "ECDSA_NISTP521_SHA512"), (0x0804, "RSA_PSS_SHA256"),
        (0x0805, "RSA_PSS_SHA384"), (0x0806, "RSA_PSS_SHA512"), (0x0807, "ED25519"), (0x0808, "ED448"),
    ]},
    Registry { name: "PSKKeyExchangeMode", wide: false, items: &[
        (0x0000, "PSK_KE"), (0x0001, "PSK_DHE_KE"),
    ]},
    Registry { name: "KeyUpdateRequest", wide: false, items: &[
        (0x0000, "UpdateNotRequested"), (0x0001, "UpdateRequested"),
    ]},
    Registry { name: "CertificateStatusType", wide: false, items: &[
        (0x0001, "OCSP"),
    ]},
];
