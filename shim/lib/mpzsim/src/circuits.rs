//! `mpz-circuits`.
use crate::memory::{bits_of, bytes_of};
use std::sync::{Arc, LazyLock};

/// A wire.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Feed;
/// A wire of a circuit.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Node<T> {
    id: usize,
    p: std::marker::PhantomData<T>,
}
#[derive(Debug, Clone, Copy)]
enum Gate {
    Input(usize),
    Xor(usize, usize),
    And(usize, usize),
    Inv(usize),
    Id(usize),
    Const(bool),
}
type Native = Box<dyn Fn(&[bool]) -> Vec<bool> + Send + Sync>;
/// A circuit.
pub struct Circuit {
    inputs: usize,
    outputs: usize,
    gates: Vec<Gate>,
    outs: Vec<usize>,
    native: Option<Native>,
}
impl std::fmt::Debug for Circuit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Circuit({} -> {})", self.inputs, self.outputs)
    }
}
impl Circuit {
    /// Computed directly.
    pub(crate) fn native(inputs: usize, outputs: usize, f: impl Fn(&[bool]) -> Vec<bool> + Send + Sync + 'static) -> Self {
        Circuit { inputs, outputs, gates: vec![], outs: vec![], native: Some(Box::new(f)) }
    }
    pub(crate) fn bytes(inputs: usize, outputs: usize, f: impl Fn(&[u8]) -> Vec<u8> + Send + Sync + 'static) -> Self {
        Self::native(inputs * 8, outputs * 8, move |b| bits_of(&f(&bytes_of(b))))
    }
    /// Number of input bits.
    pub fn inputs_len(&self) -> usize {
        self.inputs
    }
    /// Number of output bits.
    pub fn outputs_len(&self) -> usize {
        self.outputs
    }
    /// Evaluates.
    pub fn run(&self, input: &[bool]) -> Vec<bool> {
        assert_eq!(input.len(), self.inputs);
        if let Some(f) = &self.native {
            return f(input);
        }
        let mut w: Vec<bool> = Vec::with_capacity(self.gates.len());
        for g in &self.gates {
            let v = match *g {
                Gate::Input(i) => input[i],
                Gate::Xor(a, b) => w[a] ^ w[b],
                Gate::And(a, b) => w[a] & w[b],
                Gate::Inv(a) => !w[a],
                Gate::Id(a) => w[a],
                Gate::Const(b) => b,
            };
            w.push(v);
        }
        self.outs.iter().map(|i| w[*i]).collect()
    }
}
/// Not a circuit.
#[derive(Debug)]
pub struct BuilderError;
impl std::fmt::Display for BuilderError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("circuit")
    }
}
impl std::error::Error for BuilderError {}
/// Builds circuits.
#[derive(Debug, Default)]
pub struct CircuitBuilder {
    inputs: usize,
    gates: Vec<Gate>,
    outs: Vec<usize>,
}
impl CircuitBuilder {
    /// Empty.
    pub fn new() -> Self {
        Self::default()
    }
    fn node(id: usize) -> Node<Feed> {
        Node { id, p: std::marker::PhantomData }
    }
    fn push(&mut self, g: Gate) -> Node<Feed> {
        self.gates.push(g);
        Self::node(self.gates.len() - 1)
    }
    /// An input.
    pub fn add_input(&mut self) -> Node<Feed> {
        self.inputs += 1;
        self.push(Gate::Input(self.inputs - 1))
    }
    /// A copy.
    pub fn add_id_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Id(a.id))
    }
    /// Exclusive or.
    pub fn add_xor_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Xor(a.id, b.id))
    }
    /// And.
    pub fn add_and_gate(&mut self, a: Node<Feed>, b: Node<Feed>) -> Node<Feed> {
        self.push(Gate::And(a.id, b.id))
    }
    /// Not.
    pub fn add_inv_gate(&mut self, a: Node<Feed>) -> Node<Feed> {
        self.push(Gate::Inv(a.id))
    }
    /// A constant.
    pub fn get_const_zero(&mut self) -> Node<Feed> {
        self.push(Gate::Const(false))
    }
    /// A constant.
    pub fn get_const_one(&mut self) -> Node<Feed> {
        self.push(Gate::Const(true))
    }
    /// An output.
    pub fn add_output(&mut self, a: Node<Feed>) {
        self.outs.push(a.id)
    }
    /// Finishes.
    pub fn build(self) -> Result<Circuit, BuilderError> {
        Ok(Circuit { inputs: self.inputs, outputs: self.outs.len(), gates: self.gates, outs: self.outs, native: None })
    }
}
/// Operations.
pub mod ops {
    use super::*;
    fn add(b: &mut CircuitBuilder, x: &[Node<Feed>], y: &[Node<Feed>], mut c: Node<Feed>) -> (Vec<Node<Feed>>, Node<Feed>) {
        let mut r = vec![];
        for (x, y) in x.iter().zip(y) {
            let xc = b.add_xor_gate(*x, c);
            let yc = b.add_xor_gate(*y, c);
            r.push(b.add_xor_gate(xc, *y));
            let a = b.add_and_gate(xc, yc);
            c = b.add_xor_gate(a, c);
        }
        (r, c)
    }
    /// `x + y mod m`, for `x` and `y` below `m`, least significant bit first.
    pub fn add_mod(b: &mut CircuitBuilder, x: &[Node<Feed>], y: &[Node<Feed>], m: &[Node<Feed>]) -> Vec<Node<Feed>> {
        let (zero, one) = (b.get_const_zero(), b.get_const_one());
        let ext = |v: &[Node<Feed>]| v.iter().copied().chain([zero]).collect::<Vec<_>>();
        let (s, _) = add(b, &ext(x), &ext(y), zero);
        let inv: Vec<_> = ext(m).into_iter().map(|n| b.add_inv_gate(n)).collect();
        let (d, ge) = add(b, &s, &inv, one);
        (0..x.len())
            .map(|i| {
                let t = b.add_xor_gate(s[i], d[i]);
                let t = b.add_and_gate(t, ge);
                b.add_xor_gate(s[i], t)
            })
            .collect()
    }
    /// Exclusive or of bits.
    pub fn xor(b: &mut CircuitBuilder, x: &[Node<Feed>], y: &[Node<Feed>]) -> Vec<Node<Feed>> {
        x.iter().zip(y).map(|(x, y)| b.add_xor_gate(*x, *y)).collect()
    }
}
/// Ready circuits.
pub mod circuits {
    use super::*;
    /// Exclusive or of two inputs.
    pub fn xor(bits: usize) -> Circuit {
        Circuit::native(2 * bits, bits, move |b| (0..bits).map(|i| b[i] ^ b[bits + i]).collect())
    }
}
fn enc(k: &[u8], m: &[u8]) -> Vec<u8> {
    aes::encrypt(&aes::expand(k.try_into().unwrap()), m.try_into().unwrap()).to_vec()
}
/// AES-128 of (key, block).
pub static AES128: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::bytes(32, 16, |b| enc(&b[..16], &b[16..]))));
/// AES-128 key schedule.
pub static AES128_KS: LazyLock<Arc<Circuit>> = LazyLock::new(|| Arc::new(Circuit::bytes(16, 176, |b| aes::expand(b.try_into().unwrap()).to_vec())));
/// AES-128 of (key schedule, block).
pub static AES128_POST_KS: LazyLock<Arc<Circuit>> =
    LazyLock::new(|| Arc::new(Circuit::bytes(192, 16, |b| aes::encrypt(b[..176].try_into().unwrap(), b[176..].try_into().unwrap()).to_vec())));
