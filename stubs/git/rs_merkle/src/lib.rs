//! Stand-in for tlsnotary/rs-merkle: Merkle tree where a lone right node is
//! promoted unhashed; hashing goes through a `&self` hasher.
pub trait Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>> {
    const SIZE: usize;
}
pub trait Hasher: Clone {
    type Hash: Hash;
    fn hash(&self, data: &[u8]) -> Self::Hash;
    fn concat_and_hash(&self, l: &Self::Hash, r: Option<&Self::Hash>) -> Self::Hash {
        match r {
            None => *l,
            Some(r) => {
                let mut v: Vec<u8> = (*l).into();
                v.append(&mut (*r).into());
                self.hash(&v)
            }
        }
    }
}

#[derive(Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleTree<T> {
    layers: Vec<Vec<T>>,
    uncommitted: Vec<T>,
}
impl<T> Default for MerkleTree<T> { fn default() -> Self { MerkleTree { layers: vec![], uncommitted: vec![] } } }
impl<T: Hash> MerkleTree<T> {
    pub fn append(&mut self, l: &mut Vec<T>) -> &mut Self {
        self.uncommitted.append(l);
        self
    }
    pub fn insert(&mut self, l: T) -> &mut Self {
        self.uncommitted.push(l);
        self
    }
    pub fn commit<H: Hasher<Hash = T>>(&mut self, h: &H) {
        let mut leaves = if self.layers.is_empty() { vec![] } else { std::mem::take(&mut self.layers[0]) };
        leaves.append(&mut self.uncommitted);
        self.layers.clear();
        if leaves.is_empty() { return; }
        self.layers.push(leaves);
        while self.layers.last().unwrap().len() > 1 {
            let n = self.layers.last().unwrap().chunks(2).map(|c| h.concat_and_hash(&c[0], c.get(1))).collect();
            self.layers.push(n);
        }
    }
    pub fn root(&self) -> Option<T> { self.layers.last().and_then(|l| l.first()).copied() }
    pub fn leaves_len(&self) -> usize { self.layers.first().map_or(0, |l| l.len()) }
    pub fn leaves(&self) -> Option<Vec<T>> { self.layers.first().cloned() }
    pub fn proof(&self, indices: &[usize]) -> MerkleProof<T> {
        let mut out = vec![];
        let mut idx: Vec<usize> = indices.to_vec();
        for layer in &self.layers {
            for i in helpers(&idx) {
                if let Some(h) = layer.get(i) { out.push(*h); }
            }
            idx = parents(&idx);
        }
        MerkleProof { proof_hashes: out }
    }
}
fn helpers(idx: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = idx.iter().map(|i| i ^ 1).filter(|i| !idx.contains(i)).collect();
    v.sort_unstable();
    v.dedup();
    v
}
fn parents(idx: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = idx.iter().map(|i| i / 2).collect();
    v.sort_unstable();
    v.dedup();
    v
}

#[derive(Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct MerkleProof<T> {
    proof_hashes: Vec<T>,
}
impl<T: Hash> MerkleProof<T> {
    pub fn new(proof_hashes: Vec<T>) -> Self { MerkleProof { proof_hashes } }
    pub fn proof_hashes(&self) -> &[T] { &self.proof_hashes }
    pub fn verify<H: Hasher<Hash = T>>(&self, h: &H, root: T, indices: &[usize], leaves: &[T], leaf_count: usize) -> bool {
        self.root(h, indices, leaves, leaf_count) == Some(root)
    }
    pub fn root<H: Hasher<Hash = T>>(&self, h: &H, indices: &[usize], leaves: &[T], leaf_count: usize) -> Option<T> {
        if indices.is_empty() || indices.len() != leaves.len() || indices.iter().any(|i| *i >= leaf_count) { return None; }
        let mut nodes: Vec<(usize, T)> = indices.iter().copied().zip(leaves.iter().copied()).collect();
        nodes.sort_by_key(|n| n.0);
        let mut hs = self.proof_hashes.iter();
        let mut width = leaf_count;
        while width > 1 {
            let idx: Vec<usize> = nodes.iter().map(|n| n.0).collect();
            for i in helpers(&idx) {
                if i < width { nodes.push((i, *hs.next()?)); }
            }
            nodes.sort_by_key(|n| n.0);
            let mut next = vec![];
            let mut k = 0;
            while k < nodes.len() {
                let (i, l) = nodes[k];
                if i % 2 == 1 { return None; }
                match nodes.get(k + 1) {
                    Some((j, r)) if *j == i + 1 => { next.push((i / 2, h.concat_and_hash(&l, Some(r)))); k += 2; }
                    _ => { next.push((i / 2, h.concat_and_hash(&l, None))); k += 1; }
                }
            }
            nodes = next;
            width = width.div_ceil(2);
        }
        Some(nodes.first()?.1)
    }
}
