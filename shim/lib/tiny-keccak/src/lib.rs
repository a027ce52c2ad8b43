//! Stand-in for `tiny-keccak`: Keccak-256 with the original padding.

const RC: [u64; 24] = [
    0x1, 0x8082, 0x800000000000808a, 0x8000000080008000, 0x808b, 0x80000001, 0x8000000080008081,
    0x8000000000008009, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008b,
    0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800a,
    0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [
    1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
];
const PI: [usize; 24] = [
    10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
];

fn keccakf(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PI[i]];
            a[PI[i]] = last.rotate_left(ROT[i]);
            last = t;
        }
        for y in 0..5 {
            let row: [u64; 5] = a[5 * y..5 * y + 5].try_into().unwrap();
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

/// A hash function.
pub trait Hasher {
    /// Adds input.
    fn update(&mut self, input: &[u8]);
    /// Writes the digest.
    fn finalize(self, output: &mut [u8]);
}

/// Keccak.
#[derive(Debug, Clone)]
pub struct Keccak(Vec<u8>);

impl Keccak {
    /// Keccak-256.
    pub fn v256() -> Self {
        Keccak(Vec::new())
    }
}

impl Hasher for Keccak {
    fn update(&mut self, input: &[u8]) {
        self.0.extend_from_slice(input);
    }
    fn finalize(mut self, output: &mut [u8]) {
        const RATE: usize = 136;
        let mut a = [0u64; 25];
        self.0.push(1);
        while self.0.len() % RATE != 0 {
            self.0.push(0);
        }
        *self.0.last_mut().unwrap() |= 0x80;
        for block in self.0.chunks(RATE) {
            for (i, w) in block.chunks(8).enumerate() {
                a[i] ^= u64::from_le_bytes(w.try_into().unwrap());
            }
            keccakf(&mut a);
        }
        let bytes: Vec<u8> = a.iter().flat_map(|w| w.to_le_bytes()).collect();
        let n = output.len().min(32);
        output[..n].copy_from_slice(&bytes[..n]);
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        let h = |m: &[u8]| {
            let mut k = Keccak::v256();
            k.update(m);
            let mut o = [0u8; 32];
            k.finalize(&mut o);
            o.iter().map(|b| format!("{b:02x}")).collect::<String>()
        };
        assert_eq!(h(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(h(b"abc"), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45");
    }
}
