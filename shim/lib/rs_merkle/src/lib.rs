//! Stand-in for TLSNotary's fork of `rs_merkle` (hashers are values): a tree
//! where an unpaired node moves up unchanged, and multi-leaf proofs.

/// A node's value.
pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    /// Size in bytes.
    const SIZE: usize;
}

/// A hash function.
pub trait Hasher: Clone {
    /// Its output.
    type Hash: Hash;
    /// Hashes data.
    fn hash(&self, data: &[u8]) -> Self::Hash;
    /// Hashes a pair of nodes.
    fn concat_and_hash(&self, left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
        match right {
            Some(right) => {
                let mut v: Vec<u8> = (*left).into();
                v.extend::<Vec<u8>>((*right).into());
                self.hash(&v)
            }
            None => *left,
        }
    }
}

/// A tree.
#[derive(Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleTree<H> {
    layers: Vec<Vec<H>>,
    pending: Vec<H>,
}

impl<H> Default for MerkleTree<H> {
    fn default() -> Self {
        MerkleTree { layers: Vec::new(), pending: Vec::new() }
    }
}

fn layers<T: Hasher>(hasher: &T, leaves: Vec<T::Hash>) -> Vec<Vec<T::Hash>> {
    let mut out = vec![leaves];
    while out.last().unwrap().len() > 1 {
        let next = out
            .last()
            .unwrap()
            .chunks(2)
            .map(|c| hasher.concat_and_hash(&c[0], c.get(1)))
            .collect();
        out.push(next);
    }
    out
}

impl<H: Hash> MerkleTree<H> {
    /// Adds leaves, to be committed.
    pub fn append(&mut self, leaves: &mut Vec<H>) -> &mut Self {
        self.pending.append(leaves);
        self
    }
    /// Commits what was added.
    pub fn commit<T: Hasher<Hash = H>>(&mut self, hasher: &T) {
        let mut leaves = self.layers.first().cloned().unwrap_or_default();
        leaves.append(&mut self.pending);
        if !leaves.is_empty() {
            self.layers = layers(hasher, leaves);
        }
    }
    /// The root of what is committed.
    pub fn root(&self) -> Option<H> {
        self.layers.last().and_then(|l| l.first()).copied()
    }
    /// How many leaves are committed.
    pub fn leaves_len(&self) -> usize {
        self.layers.first().map_or(0, Vec::len)
    }
    /// A proof for leaves.
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<H> {
        let mut known: Vec<usize> = indices.to_vec();
        known.sort_unstable();
        known.dedup();
        let mut hashes = Vec::new();
        for layer in &self.layers {
            if layer.len() <= 1 {
                break;
            }
            for i in siblings(&known, layer.len()) {
                hashes.push(layer[i]);
            }
            known = parents(&known);
        }
        MerkleProof { hashes }
    }
}

fn siblings(known: &[usize], len: usize) -> Vec<usize> {
    known
        .iter()
        .map(|i| i ^ 1)
        .filter(|s| *s < len && !known.contains(s))
        .collect()
}

fn parents(known: &[usize]) -> Vec<usize> {
    let mut p: Vec<usize> = known.iter().map(|i| i / 2).collect();
    p.dedup();
    p
}

/// A proof.
#[derive(Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleProof<H> {
    hashes: Vec<H>,
}

impl<H: Hash> MerkleProof<H> {
    /// Whether the leaves are those of a tree with the root.
    pub fn verify<T: Hasher<Hash = H>>(
        &self,
        hasher: &T,
        root: H,
        indices: &[usize],
        leaves: &[H],
        total: usize,
    ) -> bool {
        if indices.len() != leaves.len() || indices.is_empty() {
            return false;
        }
        let mut nodes: Vec<(usize, H)> =
            indices.iter().copied().zip(leaves.iter().copied()).collect();
        nodes.sort_by_key(|n| n.0);
        if nodes.windows(2).any(|w| w[0].0 == w[1].0) || nodes.last().unwrap().0 >= total {
            return false;
        }
        let mut rest = self.hashes.iter();
        let mut len = total;
        while len > 1 {
            let known: Vec<usize> = nodes.iter().map(|n| n.0).collect();
            for s in siblings(&known, len) {
                let Some(h) = rest.next() else { return false };
                nodes.push((s, *h));
            }
            nodes.sort_by_key(|n| n.0);
            let mut next: Vec<(usize, H)> = Vec::new();
            let mut i = 0;
            while i < nodes.len() {
                let (at, h) = nodes[i];
                let right = nodes.get(i + 1).filter(|n| at % 2 == 0 && n.0 == at + 1);
                next.push((at / 2, hasher.concat_and_hash(&h, right.map(|n| &n.1))));
                i += if right.is_some() { 2 } else { 1 };
            }
            nodes = next;
            len = len.div_ceil(2);
        }
        nodes.len() == 1 && nodes[0].1 == root
    }
}
