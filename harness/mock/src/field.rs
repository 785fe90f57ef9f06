use ark_ff::{
    BigInteger64, FftField, FftParameters, Field, FpParameters, FromBytes, LegendreSymbol, One,
    PrimeField, SquareRootField, ToBytes, Zero,
};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::ops::*;
use zeroize::Zeroize;

const fn mulmod(a: u64, b: u64, p: u64) -> u64 { ((a as u128 * b as u128) % p as u128) as u64 }
const fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    while e > 0 {
        if e & 1 == 1 { r = mulmod(r, a, p); }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}
const fn two_adicity(p: u64) -> u32 { (p - 1).trailing_zeros() }
const fn gen(p: u64) -> u64 {
    match p {
        3 => 2, 5 => 2, 7 => 3, 11 => 2, 13 => 2, 17 => 3, 97 => 5, 193 => 5, 257 => 3, 769 => 11, 7681 => 17,
        12289 => 11, 40961 => 3, 65537 => 3, 2013265921 => 31, 0xffffffff00000001 => 7,
        _ => panic!("unknown modulus"),
    }
}
pub const GOLD: u64 = 0xffffffff00000001;

#[derive(Copy, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);
pub struct FpPar<const P: u64>;

impl<const P: u64> FftParameters for FpPar<P> {
    type BigInt = BigInteger64;
    const TWO_ADICITY: u32 = two_adicity(P);
    const TWO_ADIC_ROOT_OF_UNITY: BigInteger64 =
        BigInteger64([powmod(gen(P), (P - 1) >> two_adicity(P), P)]);
}
impl<const P: u64> FpParameters for FpPar<P> {
    const MODULUS: BigInteger64 = BigInteger64([P]);
    const MODULUS_BITS: u32 = 64 - P.leading_zeros();
    const REPR_SHAVE_BITS: u32 = P.leading_zeros();
    const R: BigInteger64 = BigInteger64([1]);
    const R2: BigInteger64 = BigInteger64([1]);
    const INV: u64 = 0;
    const GENERATOR: BigInteger64 = BigInteger64([gen(P)]);
    const CAPACITY: u32 = 64 - P.leading_zeros() - 1;
    const T: BigInteger64 = BigInteger64([(P - 1) >> two_adicity(P)]);
    const T_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([(((P - 1) >> two_adicity(P)) - 1) / 2]);
    const MODULUS_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([(P - 1) / 2]);
}

impl<const P: u64> Fp<P> {
    const CHAR: [u64; 1] = [P];
    pub fn new(v: u64) -> Self { Fp(v % P) }
    pub fn i(v: i64) -> Self { if v >= 0 { Fp(v as u64 % P) } else { -Fp((v.unsigned_abs()) % P) } }
    #[inline] pub(crate) fn addr(self, o: Self) -> Self {
        let (s, c) = self.0.overflowing_add(o.0);
        if c || s >= P { Fp(s.wrapping_sub(P)) } else { Fp(s) }
    }
    #[inline] pub(crate) fn subr(self, o: Self) -> Self {
        if self.0 >= o.0 { Fp(self.0 - o.0) } else { Fp(self.0.wrapping_sub(o.0).wrapping_add(P)) }
    }
    #[inline] pub(crate) fn mulr(self, o: Self) -> Self { Fp(mulmod(self.0, o.0, P)) }
    pub(crate) fn negr(self) -> Self { if self.0 == 0 { self } else { Fp(P - self.0) } }
}

#[macro_export]
macro_rules! ops {
    ($t:ident, [$($g:tt)*], [$($a:tt)*]) => {
        impl<$($g)*> Add for $t<$($a)*> { type Output = Self; #[inline] fn add(self, o: Self) -> Self { self.addr(o) } }
        impl<$($g)*> Sub for $t<$($a)*> { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { self.subr(o) } }
        impl<'a, $($g)*> Add<&'a Self> for $t<$($a)*> { type Output = Self; #[inline] fn add(self, o: &'a Self) -> Self { self.addr(*o) } }
        impl<'a, $($g)*> Sub<&'a Self> for $t<$($a)*> { type Output = Self; #[inline] fn sub(self, o: &'a Self) -> Self { self.subr(*o) } }
        impl<$($g)*> AddAssign for $t<$($a)*> { #[inline] fn add_assign(&mut self, o: Self) { *self = self.addr(o) } }
        impl<$($g)*> SubAssign for $t<$($a)*> { #[inline] fn sub_assign(&mut self, o: Self) { *self = self.subr(o) } }
        impl<'a, $($g)*> AddAssign<&'a Self> for $t<$($a)*> { #[inline] fn add_assign(&mut self, o: &'a Self) { *self = self.addr(*o) } }
        impl<'a, $($g)*> SubAssign<&'a Self> for $t<$($a)*> { #[inline] fn sub_assign(&mut self, o: &'a Self) { *self = self.subr(*o) } }
        impl<$($g)*> Neg for $t<$($a)*> { type Output = Self; #[inline] fn neg(self) -> Self { self.negr() } }
        impl<$($g)*> std::iter::Sum for $t<$($a)*> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
        impl<'a, $($g)*> std::iter::Sum<&'a Self> for $t<$($a)*> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    };
}
#[macro_export]
macro_rules! mulops {
    ($t:ident, [$($g:tt)*], [$($a:tt)*]) => {
        impl<$($g)*> Mul for $t<$($a)*> { type Output = Self; #[inline] fn mul(self, o: Self) -> Self { self.mulr(o) } }
        impl<$($g)*> Div for $t<$($a)*> { type Output = Self; #[inline] fn div(self, o: Self) -> Self { self.mulr(o.inverse().unwrap()) } }
        impl<'a, $($g)*> Mul<&'a Self> for $t<$($a)*> { type Output = Self; #[inline] fn mul(self, o: &'a Self) -> Self { self.mulr(*o) } }
        impl<'a, $($g)*> Div<&'a Self> for $t<$($a)*> { type Output = Self; #[inline] fn div(self, o: &'a Self) -> Self { self.mulr(o.inverse().unwrap()) } }
        impl<$($g)*> MulAssign for $t<$($a)*> { #[inline] fn mul_assign(&mut self, o: Self) { *self = self.mulr(o) } }
        impl<$($g)*> DivAssign for $t<$($a)*> { #[inline] fn div_assign(&mut self, o: Self) { *self = *self / o } }
        impl<'a, $($g)*> MulAssign<&'a Self> for $t<$($a)*> { #[inline] fn mul_assign(&mut self, o: &'a Self) { *self = self.mulr(*o) } }
        impl<'a, $($g)*> DivAssign<&'a Self> for $t<$($a)*> { #[inline] fn div_assign(&mut self, o: &'a Self) { *self = *self / *o } }
        impl<$($g)*> std::iter::Product for $t<$($a)*> { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
        impl<'a, $($g)*> std::iter::Product<&'a Self> for $t<$($a)*> { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
        impl<$($g)*> From<u64> for $t<$($a)*> { fn from(v: u64) -> Self { Self::fromu(v as u128) } }
        impl<$($g)*> From<u32> for $t<$($a)*> { fn from(v: u32) -> Self { Self::fromu(v as u128) } }
        impl<$($g)*> From<u16> for $t<$($a)*> { fn from(v: u16) -> Self { Self::fromu(v as u128) } }
        impl<$($g)*> From<u8> for $t<$($a)*> { fn from(v: u8) -> Self { Self::fromu(v as u128) } }
        impl<$($g)*> From<bool> for $t<$($a)*> { fn from(v: bool) -> Self { Self::fromu(v as u128) } }
        impl<$($g)*> CanonicalSerializeWithFlags for $t<$($a)*> {
            fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, f: F) -> Result<(), SerializationError> {
                w.write_all(&(self.raw()).to_le_bytes())?;
                if F::BIT_SIZE > 0 { w.write_all(&[f.u8_bitmask()])?; }
                Ok(())
            }
            fn serialized_size_with_flags<F: Flags>(&self) -> usize { 8 + (F::BIT_SIZE > 0) as usize }
        }
        impl<$($g)*> CanonicalDeserializeWithFlags for $t<$($a)*> {
            fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
                let mut b = [0u8; 8];
                r.read_exact(&mut b)?;
                let mut fb = [0u8; 1];
                if F::BIT_SIZE > 0 { r.read_exact(&mut fb)?; }
                let f = F::from_u8_remove_flags(&mut fb[0]).ok_or(SerializationError::UnexpectedFlags)?;
                let v = u64::from_le_bytes(b);
                if v >= P { return Err(SerializationError::InvalidData); }
                Ok((Self::fromu(v as u128), f))
            }
        }
    };
}
#[macro_export]
macro_rules! serial {
    ($t:ident, [$($g:tt)*], [$($a:tt)*]) => {
        impl<$($g)*> std::fmt::Debug for $t<$($a)*> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.raw()) } }
        impl<$($g)*> std::fmt::Display for $t<$($a)*> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.raw()) } }
        impl<$($g)*> Zeroize for $t<$($a)*> { fn zeroize(&mut self) { *self = Self::zero() } }
        impl<$($g)*> CanonicalSerialize for $t<$($a)*> {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { w.write_all(&self.raw().to_le_bytes())?; Ok(()) }
            fn serialized_size(&self) -> usize { 8 }
        }
        impl<$($g)*> CanonicalDeserialize for $t<$($a)*> {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> {
                let mut b = [0u8; 8];
                r.read_exact(&mut b)?;
                let v = u64::from_le_bytes(b);
                if v >= P { return Err(SerializationError::InvalidData); }
                Ok(Self::from_raw(v))
            }
        }
        impl<$($g)*> ToBytes for $t<$($a)*> { fn write<W: ark_std::io::Write>(&self, mut w: W) -> ark_std::io::Result<()> { w.write_all(&self.raw().to_le_bytes()) } }
        impl<$($g)*> FromBytes for $t<$($a)*> {
            fn read<R: ark_std::io::Read>(mut r: R) -> ark_std::io::Result<Self> {
                let mut b = [0u8; 8];
                r.read_exact(&mut b)?;
                Ok(Self::from_raw(u64::from_le_bytes(b) % P))
            }
        }
    };
}
impl<const P: u64> Fp<P> {
    pub(crate) fn fromu(v: u128) -> Self { Fp((v % P as u128) as u64) }
    #[inline] pub fn raw(&self) -> u64 { self.0 }
    pub fn from_raw(v: u64) -> Self { Fp(v) }
}
ops!(Fp, [const P: u64], [P]);
// values above 2^64 only come from challenges sampled as u128
impl<const P: u64> From<u128> for Fp<P> {
    fn from(v: u128) -> Self {
        if v >> 64 == 0 { return Self::fromu(v) }
        let r = if let Some(s) = crate::log::next_scripted() { Self::fromu(s as u128) } else { Self::fromu(v) };
        crate::log::rec(r.0);
        r
    }
}
mulops!(Fp, [const P: u64], [P]);
serial!(Fp, [const P: u64], [P]);

impl<const P: u64> Zero for Fp<P> { fn zero() -> Self { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u64> One for Fp<P> { fn one() -> Self { Fp(1) } fn is_one(&self) -> bool { self.0 == 1 } }
impl<const P: u64> Distribution<Fp<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<P> {
        // 16 bytes for the 64-bit prime would be overkill: the bias of u64 % P is irrelevant here
        let r = rng.next_u64();
        let v = if crate::log::took() { r % P } else if let Some(s) = crate::log::next_scripted() { s % P } else { r % P };
        crate::log::rec(v);
        Fp(v)
    }
}
impl<const P: u64> Field for Fp<P> {
    type BasePrimeField = Self;
    fn characteristic<'a>() -> &'a [u64] { &Self::CHAR }
    fn extension_degree() -> u64 { 1 }
    fn from_base_prime_field_elems(e: &[Self]) -> Option<Self> { if e.len() == 1 { Some(e[0]) } else { None } }
    fn double(&self) -> Self { self.addr(*self) }
    fn double_in_place(&mut self) -> &mut Self { *self = self.addr(*self); self }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let v = if let Some(s) = crate::log::next_scripted() { s % P } else {
            // little-endian integer mod P
            let mut acc: u128 = 0;
            for b in bytes.iter().rev() { acc = ((acc << 8) | *b as u128) % P as u128; }
            acc as u64
        };
        crate::log::rec(v);
        let mut z = 0u8;
        F::from_u8_remove_flags(&mut z).map(|f| (Fp(v), f))
    }
    fn square(&self) -> Self { self.mulr(*self) }
    fn square_in_place(&mut self) -> &mut Self { *self = self.mulr(*self); self }
    fn inverse(&self) -> Option<Self> { if self.0 == 0 { None } else { Some(Fp(powmod(self.0, P - 2, P))) } }
    fn inverse_in_place(&mut self) -> Option<&mut Self> { match self.inverse() { Some(v) => { *self = v; Some(self) } None => None } }
    fn frobenius_map(&mut self, _: usize) {}
}
impl<const P: u64> FftField for Fp<P> {
    type FftParams = FpPar<P>;
    fn two_adic_root_of_unity() -> Self { Fp(<FpPar<P> as FftParameters>::TWO_ADIC_ROOT_OF_UNITY.0[0]) }
    fn large_subgroup_root_of_unity() -> Option<Self> { None }
    fn multiplicative_generator() -> Self { Fp(gen(P)) }
}
impl<const P: u64> std::str::FromStr for Fp<P> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        let mut a = Fp::<P>(0);
        for c in s.chars() { a = a * Fp(10 % P) + Fp::<P>::fromu(c.to_digit(10).ok_or(())? as u128); }
        Ok(a)
    }
}
impl<const P: u64> From<BigInteger64> for Fp<P> { fn from(b: BigInteger64) -> Self { assert!(b.0[0] < P); Fp(b.0[0]) } }
impl<const P: u64> Into<BigInteger64> for Fp<P> { fn into(self) -> BigInteger64 { BigInteger64([self.0]) } }
impl<const P: u64> PrimeField for Fp<P> {
    type Params = FpPar<P>;
    type BigInt = BigInteger64;
    fn from_repr(r: BigInteger64) -> Option<Self> { if r.0[0] < P { Some(Fp(r.0[0])) } else { None } }
    fn into_repr(&self) -> BigInteger64 { BigInteger64([self.0]) }
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut acc: u128 = 0;
        for b in bytes.iter() { acc = ((acc << 8) | *b as u128) % P as u128; }
        Fp(acc as u64)
    }
}
impl<const P: u64> SquareRootField for Fp<P> {
    fn legendre(&self) -> LegendreSymbol {
        match powmod(self.0, (P - 1) / 2, P) { 0 => LegendreSymbol::Zero, 1 => LegendreSymbol::QuadraticResidue, _ => LegendreSymbol::QuadraticNonResidue }
    }
    fn sqrt(&self) -> Option<Self> { (0..P.min(1 << 20)).map(Fp).find(|x| x.mulr(*x) == *self) }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> { match self.sqrt() { Some(v) => { *self = v; Some(self) } None => None } }
}
