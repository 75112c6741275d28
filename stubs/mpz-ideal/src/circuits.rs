//! Boolean circuits: gate lists, and natively evaluated functions.
use std::marker::PhantomData;
use std::sync::{Arc, LazyLock};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Feed;
#[derive(Debug)]
pub struct Node<T>(usize, PhantomData<T>);
impl<T> Clone for Node<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Node<T> {}
impl<T> Node<T> { fn n(i: usize) -> Self { Node(i, PhantomData) } }

#[derive(Debug, Clone, Copy)]
enum Gate { Input(usize), Id(usize), Xor(usize, usize), And(usize, usize), Const(bool) }

#[derive(Debug, Clone)]
enum Kind {
    Graph { gates: Vec<Gate>, outputs: Vec<usize> },
    Xor(usize),
    Native(Native),
}
#[derive(Clone)]
struct Native(Arc<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>);
impl std::fmt::Debug for Native {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Native") }
}

#[derive(Debug, Clone)]
pub struct Circuit { inputs: usize, outputs: usize, kind: Kind }

#[derive(Debug, thiserror::Error)]
#[error("circuit builder error")]
pub struct BuilderError;

impl Circuit {
    pub fn native(inputs_bytes: usize, outputs_bytes: usize, f: fn(&[u8]) -> Vec<u8>) -> Self {
        Self::closure(inputs_bytes, outputs_bytes, f)
    }
    pub fn closure(inputs_bytes: usize, outputs_bytes: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Self {
        Circuit { inputs: inputs_bytes * 8, outputs: outputs_bytes * 8, kind: Kind::Native(Native(Arc::new(f))) }
    }
    pub fn input_len(&self) -> usize { self.inputs }
    pub fn output_len(&self) -> usize { self.outputs }
    pub(crate) fn eval(&self, input: &[bool]) -> Vec<bool> {
        assert_eq!(input.len(), self.inputs);
        match &self.kind {
            Kind::Xor(n) => (0..*n).map(|i| input[i] ^ input[n + i]).collect(),
            Kind::Native(f) => crate::memory::to_bits(&(f.0)(&crate::memory::to_bytes(input))),
            Kind::Graph { gates, outputs } => {
                let mut v = vec![false; gates.len()];
                for (i, g) in gates.iter().enumerate() {
                    v[i] = match *g {
                        Gate::Input(k) => input[k],
                        Gate::Id(a) => v[a],
                        Gate::Xor(a, b) => v[a] ^ v[b],
                        Gate::And(a, b) => v[a] & v[b],
                        Gate::Const(c) => c,
                    };
                }
                outputs.iter().map(|&o| v[o]).collect()
            }
        }
    }
}

#[derive(Debug, Default)]
pub struct CircuitBuilder { gates: Vec<Gate>, inputs: usize, outputs: Vec<usize> }
impl CircuitBuilder {
    pub fn new() -> Self { Self::default() }
    fn push(&mut self, g: Gate) -> Node<Feed> { self.gates.push(g); Node::n(self.gates.len() - 1) }
    pub fn add_input(&mut self) -> Node<Feed> {
        let i = self.inputs;
        self.inputs += 1;
        self.push(Gate::Input(i))
    }
    pub fn add_id_gate(&mut self, a: Node<Feed>) -> Node<Feed> { self.push(Gate::Id(a.0)) }
    pub fn add_xor_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> { self.push(Gate::Xor(a.0, b.0)) }
    pub fn add_and_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> { self.push(Gate::And(a.0, b.0)) }
    pub fn add_output(&mut self, a: Node<Feed>) { self.outputs.push(a.0) }
    pub fn build(self) -> Result<Circuit, BuilderError> {
        Ok(Circuit { inputs: self.inputs, outputs: self.outputs.len(), kind: Kind::Graph { gates: self.gates, outputs: self.outputs } })
    }
}

pub mod ops {
    use super::*;
    /// (a + b) mod m for a, b < m, little endian bits.
    pub fn add_mod(b: &mut CircuitBuilder, x: &[Node<Feed>], y: &[Node<Feed>], m: &[Node<Feed>]) -> Vec<Node<Feed>> {
        let n = x.len();
        let one = b.push(Gate::Const(true));
        let mut sum = vec![];
        let mut c = b.push(Gate::Const(false));
        for i in 0..n {
            let t = b.add_xor_gate(x[i], y[i]);
            sum.push(b.add_xor_gate(t, c));
            let u = b.add_and_gate(x[i], y[i]);
            let v = b.add_and_gate(t, c);
            c = b.add_xor_gate(u, v);
        }
        let carry = c;
        // sum - m
        let mut diff = vec![];
        let mut bo = b.push(Gate::Const(false));
        for i in 0..n {
            let t = b.add_xor_gate(sum[i], m[i]);
            diff.push(b.add_xor_gate(t, bo));
            let ns = b.add_xor_gate(sum[i], one);
            let u = b.add_and_gate(ns, m[i]);
            let nt = b.add_xor_gate(t, one);
            let v = b.add_and_gate(nt, bo);
            bo = b.add_xor_gate(u, v);
        }
        // use diff if carry or no borrow
        let nb = b.add_xor_gate(bo, one);
        let a1 = b.add_and_gate(carry, nb);
        let a2 = b.add_xor_gate(carry, nb);
        let sel = b.add_xor_gate(a1, a2);
        (0..n)
            .map(|i| {
                let d = b.add_xor_gate(sum[i], diff[i]);
                let e = b.add_and_gate(d, sel);
                b.add_xor_gate(sum[i], e)
            })
            .collect()
    }
}

pub mod circuits {
    use super::*;
    /// XOR of two n-bit inputs, which the caller may pass in pieces.
    pub fn xor(n: usize) -> Circuit { Circuit { inputs: 2 * n, outputs: n, kind: Kind::Xor(n) } }
}

fn aes128(i: &[u8]) -> Vec<u8> {
    aes::Aes128::from_key(i[..16].try_into().unwrap()).encrypt(i[16..].try_into().unwrap()).to_vec()
}
fn aes128_ks(i: &[u8]) -> Vec<u8> { aes::key_schedule(i.try_into().unwrap()).to_vec() }
fn aes128_post(i: &[u8]) -> Vec<u8> {
    aes::encrypt_with_schedule(i[..176].try_into().unwrap(), i[176..].try_into().unwrap()).to_vec()
}
pub static AES128: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native(32, 16, aes128)));
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native(16, 176, aes128_ks)));
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::native(192, 16, aes128_post)));

#[cfg(test)]
mod tests {
    #[test]
    fn add_mod() {
        use super::*;
        for (x, y, m) in [(3u64, 4, 7), (6, 6, 7), (0, 0, 5), (200, 100, 251), (250, 250, 251), (255, 1, 0)] {
            let mut b = CircuitBuilder::new();
            let a: Vec<_> = (0..8).map(|_| b.add_input()).collect();
            let c: Vec<_> = (0..8).map(|_| b.add_input()).collect();
            let d: Vec<_> = (0..8).map(|_| b.add_input()).collect();
            for o in ops::add_mod(&mut b, &a, &c, &d) { b.add_output(o) }
            let circ = b.build().unwrap();
            let bits = |v: u64| (0..8).map(move |i| v >> i & 1 == 1);
            let inp: Vec<bool> = bits(x).chain(bits(y)).chain(bits(m)).collect();
            let out = circ.eval(&inp).iter().enumerate().fold(0u64, |a, (i, b)| a | (*b as u64) << i);
            if m > 0 { assert_eq!(out, (x + y) % m, "{x}+{y} mod {m}"); }
        }
    }
}
