//! Stand-in for `blake3`: the unkeyed hash, portable.

const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}

fn compress(cv: &[u32; 8], block: &[u8; 64], counter: u64, len: u32, flags: u32) -> [u32; 8] {
    let mut m = [0u32; 16];
    for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut s = [0u32; 16];
    s[..8].copy_from_slice(cv);
    s[8..12].copy_from_slice(&IV[..4]);
    s[12] = counter as u32;
    s[13] = (counter >> 32) as u32;
    s[14] = len;
    s[15] = flags;
    for round in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if round < 6 {
            let mut n = [0u32; 16];
            for i in 0..16 {
                n[i] = m[PERM[i]];
            }
            m = n;
        }
    }
    let mut out = [0u32; 8];
    for i in 0..8 {
        out[i] = s[i] ^ s[i + 8];
    }
    out
}

fn chunk(data: &[u8], index: u64, root: u32) -> [u32; 8] {
    let mut cv = IV;
    let blocks = data.len().div_ceil(64).max(1);
    for b in 0..blocks {
        let part = &data[64 * b..data.len().min(64 * b + 64)];
        let mut block = [0u8; 64];
        block[..part.len()].copy_from_slice(part);
        let mut flags = 0;
        if b == 0 {
            flags |= CHUNK_START;
        }
        if b + 1 == blocks {
            flags |= CHUNK_END | root;
        }
        cv = compress(&cv, &block, index, part.len() as u32, flags);
    }
    cv
}

fn tree(data: &[u8], index: u64, root: u32) -> [u32; 8] {
    if data.len() <= 1024 {
        return chunk(data, index, root);
    }
    let chunks = data.len().div_ceil(1024);
    let left = (chunks.next_power_of_two() / 2) * 1024;
    let l = tree(&data[..left], index, 0);
    let r = tree(&data[left..], index + (left / 1024) as u64, 0);
    let mut block = [0u8; 64];
    for i in 0..8 {
        block[4 * i..4 * i + 4].copy_from_slice(&l[i].to_le_bytes());
        block[32 + 4 * i..36 + 4 * i].copy_from_slice(&r[i].to_le_bytes());
    }
    compress(&IV, &block, 0, 64, PARENT | root)
}

/// A digest.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);

impl Hash {
    /// The bytes.
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(h: [u8; 32]) -> Self {
        Hash(h)
    }
}

/// Hashes at once.
pub fn hash(data: &[u8]) -> Hash {
    let w = tree(data, 0, ROOT);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&w[i].to_le_bytes());
    }
    Hash(out)
}

/// Collects input and hashes it.
#[derive(Debug, Clone, Default)]
pub struct Hasher(Vec<u8>);

impl Hasher {
    /// A new hasher.
    pub fn new() -> Self {
        Hasher(Vec::new())
    }
    /// Adds input.
    pub fn update(&mut self, data: &[u8]) -> &mut Self {
        self.0.extend_from_slice(data);
        self
    }
    /// The digest so far.
    pub fn finalize(&self) -> Hash {
        hash(&self.0)
    }
}

#[cfg(test)]
mod tests {
    fn hex(h: super::Hash) -> String {
        h.as_bytes().iter().map(|b| format!("{b:02x}")).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(
            hex(super::hash(b"")),
            "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"
        );
        assert_eq!(
            hex(super::hash(b"abc")),
            "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"
        );
        // From the official test vectors: input bytes i % 251.
        let input = |n: usize| (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>();
        assert_eq!(
            hex(super::hash(&input(1025))),
            "d00278ae47eb27b34faecf67b4fe263f82d5412916c1ffd97c8cb7fb814b8444"
        );
        assert_eq!(
            hex(super::hash(&input(2048))),
            "e776b6028c7cd22a4d0ba182a8bf62205d2ef576467e838ed6f2529b85fba24a"
        );
    }
}
