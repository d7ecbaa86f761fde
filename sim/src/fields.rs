//! Prime fields the simulated sessions run over: two of the fields real deployments use, and smaller
//! ones in which capacity limits and wrap-around are reached with few limbs.
use ff::PrimeField;
use num_bigint::{BigInt, Sign};

pub use validate_btc_header::util::scalar::Fr;
pub type Pallas =
    <nova_snark::provider::PallasEngine as nova_snark::traits::Engine>::Scalar;

pub type Vesta =
    <nova_snark::provider::VestaEngine as nova_snark::traits::Engine>::Scalar;

macro_rules! fld {
    ($m:ident, $n:ident, $p:literal, $g:literal, $l:literal) => {
        mod $m {
            use ff::PrimeField;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = $p]
            #[PrimeFieldGenerator = $g]
            #[PrimeFieldReprEndianness = "little"]
            pub struct $n([u64; $l]);
        }
        pub use $m::$n;
    };
}
fld!(f62, F62, "3458764513820541091", "2", 1);
fld!(f101, F101, "1584563250285286751870879006759", "13", 2);
fld!(f128, F128, "255211775190703847597530955573826159067", "3", 3);

pub fn modulus<F: PrimeField>() -> BigInt {
    f2n(&-F::ONE) + 1
}
pub fn f2n<F: PrimeField>(f: &F) -> BigInt {
    BigInt::from_bytes_le(Sign::Plus, f.to_repr().as_ref())
}
/// n mod p
pub fn n2f<F: PrimeField>(n: &BigInt) -> F {
    let mut m = n.clone();
    if m.sign() == Sign::Minus || m.bits() >= F::NUM_BITS as u64 {
        let p = modulus::<F>();
        m %= &p;
        if m.sign() == Sign::Minus {
            m += &p;
        }
    }
    let (_, b) = m.to_bytes_le();
    let mut r = F::Repr::default();
    let l = r.as_mut().len();
    assert!(b.len() <= l);
    r.as_mut()[..b.len()].copy_from_slice(&b);
    F::from_repr(r).unwrap()
}
pub fn fdig<F: PrimeField>(d: &mut crate::tape::Digest, f: &F) {
    d.bytes(f.to_repr().as_ref());
}
