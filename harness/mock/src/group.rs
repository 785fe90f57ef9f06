//! A prime-order group represented by discrete logarithms, and a pairing engine over it.
use crate::field::Fp;
use crate::{mulops, ops, serial};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{BigInteger64, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, Zero, LegendreSymbol};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::ops::*;
use zeroize::Zeroize;

/// additive group element: the discrete logarithm (K tags G1 / G2)
#[derive(Copy, Clone, Default, PartialEq, Eq, Hash)]
pub struct G<const P: u64, const K: u8>(pub Fp<P>);
impl<const P: u64, const K: u8> G<P, K> {
    fn addr(self, o: Self) -> Self { G(self.0 + o.0) }
    fn subr(self, o: Self) -> Self { G(self.0 - o.0) }
    fn negr(self) -> Self { G(-self.0) }
    pub fn raw(&self) -> u64 { self.0 .0 }
    pub fn from_raw(v: u64) -> Self { G(Fp(v)) }
}
ops!(G, [const P: u64, const K: u8], [P, K]);
serial!(G, [const P: u64, const K: u8], [P, K]);
impl<const P: u64, const K: u8> Zero for G<P, K> { fn zero() -> Self { G(Fp(0)) } fn is_zero(&self) -> bool { self.0 .0 == 0 } }
impl<const P: u64, const K: u8> MulAssign<Fp<P>> for G<P, K> { fn mul_assign(&mut self, o: Fp<P>) { self.0 *= o } }
impl<const P: u64, const K: u8> Distribution<G<P, K>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> G<P, K> {
        // never the identity: generators and random points of the mocked group are non-trivial
        let r = rng.next_u64();
        crate::log::untook();
        G(Fp(1 + r % (P - 1)))
    }
}
impl<const P: u64, const K: u8> AffineCurve for G<P, K> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = Fp<P>;
    type BaseField = Fp<P>;
    type Projective = Self;
    fn prime_subgroup_generator() -> Self { G(Fp(1)) }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> { Some(G(Fp::from_be_bytes_mod_order(bytes))) }
    fn mul<S: Into<BigInteger64>>(&self, o: S) -> Self { G(self.0 * Fp::<P>::new(o.into().0[0])) }
    fn mul_by_cofactor_to_projective(&self) -> Self { *self }
    fn mul_by_cofactor_inv(&self) -> Self { *self }
}
impl<const P: u64, const K: u8> ProjectiveCurve for G<P, K> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = Fp<P>;
    type BaseField = Fp<P>;
    type Affine = Self;
    fn prime_subgroup_generator() -> Self { G(Fp(1)) }
    fn batch_normalization(_: &mut [Self]) {}
    fn is_normalized(&self) -> bool { true }
    fn double_in_place(&mut self) -> &mut Self { self.0 = self.0 + self.0; self }
    fn add_assign_mixed(&mut self, o: &Self) { *self += *o }
    fn mul<S: AsRef<[u64]>>(self, o: S) -> Self {
        let mut k = Fp::<P>(0);
        let two64 = Fp::<P>::fromu(1u128 << 64);
        for l in o.as_ref().iter().rev() { k = k * two64 + Fp::<P>::new(*l); }
        G(self.0 * k)
    }
}

/// target group, written multiplicatively; holds the exponent
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Gt<const P: u64>(pub Fp<P>);
impl<const P: u64> Default for Gt<P> { fn default() -> Self { Gt(Fp(0)) } }
impl<const P: u64> Gt<P> {
    fn addr(self, _: Self) -> Self { panic!("Gt add") }
    fn subr(self, _: Self) -> Self { panic!("Gt sub") }
    fn negr(self) -> Self { panic!("Gt neg") }
    fn mulr(self, o: Self) -> Self { Gt(self.0 + o.0) }
    fn fromu(v: u128) -> Self { if v == 1 { Gt(Fp(0)) } else { panic!("Gt from") } }
    pub fn raw(&self) -> u64 { self.0 .0 }
    pub fn from_raw(v: u64) -> Self { Gt(Fp(v)) }
}
ops!(Gt, [const P: u64], [P]);
mulops!(Gt, [const P: u64], [P]);
impl<const P: u64> From<u128> for Gt<P> { fn from(v: u128) -> Self { Self::fromu(v) } }
serial!(Gt, [const P: u64], [P]);
impl<const P: u64> Zero for Gt<P> { fn zero() -> Self { panic!("Gt zero") } fn is_zero(&self) -> bool { false } }
impl<const P: u64> One for Gt<P> { fn one() -> Self { Gt(Fp(0)) } }
impl<const P: u64> Distribution<Gt<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Gt<P> { Gt(Fp(rng.next_u64() % P)) }
}
impl<const P: u64> Field for Gt<P> {
    type BasePrimeField = Fp<P>;
    fn extension_degree() -> u64 { 1 }
    fn from_base_prime_field_elems(_: &[Fp<P>]) -> Option<Self> { None }
    fn double(&self) -> Self { panic!("Gt double") }
    fn double_in_place(&mut self) -> &mut Self { panic!("Gt double") }
    fn from_random_bytes_with_flags<F: Flags>(_: &[u8]) -> Option<(Self, F)> { None }
    fn square(&self) -> Self { Gt(self.0 + self.0) }
    fn square_in_place(&mut self) -> &mut Self { self.0 = self.0 + self.0; self }
    fn inverse(&self) -> Option<Self> { Some(Gt(-self.0)) }
    fn inverse_in_place(&mut self) -> Option<&mut Self> { self.0 = -self.0; Some(self) }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<const P: u64> SquareRootField for Gt<P> {
    fn legendre(&self) -> LegendreSymbol { panic!("Gt legendre") }
    fn sqrt(&self) -> Option<Self> { None }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> { None }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Eng<const P: u64>;
impl<const P: u64> PairingEngine for Eng<P> {
    type Fr = Fp<P>;
    type G1Projective = G<P, 1>;
    type G1Affine = G<P, 1>;
    type G1Prepared = G<P, 1>;
    type G2Projective = G<P, 2>;
    type G2Affine = G<P, 2>;
    type G2Prepared = G<P, 2>;
    type Fq = Fp<P>;
    type Fqe = Fp<P>;
    type Fqk = Gt<P>;
    fn miller_loop<'a, I>(i: I) -> Gt<P>
    where I: IntoIterator<Item = &'a (G<P, 1>, G<P, 2>)> {
        let mut s = Fp::<P>(0);
        for (a, b) in i { s += a.0 * b.0; }
        Gt(s)
    }
    fn final_exponentiation(f: &Gt<P>) -> Option<Gt<P>> { Some(*f) }
}
