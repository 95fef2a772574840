#[doc(hidden)]
#[allow(missing_docs, dead_code)]
pub mod verif_witness_methods {
    use crate::edwards::{Curve as TeCurve, Point as TePoint};
    use crate::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, Isogeny, MapToCurve, RationalMap};
    use crate::montgomery::{Curve as MtCurve, Point as MtPoint};
    use crate::primefield::{Fp, FpElt};
    use crate::quadraticfield::{Fp2, Fp2Elt};
    use crate::weierstrass::{Curve as WeCurve, Point as WePoint};
    // the methods of the traits, wherever they are defined
    use crate::field::{Field, Sgn0, Sqrt};
    use crate::ops::{Deserialize, Serialize};
    use num_bigint::{BigInt, BigUint};
    macro_rules! methods {
        ($($n:ident ($($a:ident: $t:ty),*) -> $r:ty = $e:expr;)+) => {$(
            pub fn $n($($a: $t),*) -> $r {
                $e
            }
        )+};
    }
    macro_rules! values {
        ($($m:ident $elt:ty)+) => {$(
            pub mod $m {
                use super::*;
                methods! {
                    be(x: &$elt) -> Vec<u8> = Serialize::to_bytes_be(x);
                    le(x: &$elt) -> Vec<u8> = Serialize::to_bytes_le(x);
                }
            }
        )+};
    }
    values!(v_fp FpElt v_fp2 Fp2Elt v_we crate::weierstrass::Scalar v_mt crate::montgomery::Scalar v_te crate::edwards::Scalar);
    macro_rules! fields {
        ($($m:ident $f:ty, $elt:ty;)+) => {$(
            pub mod $m {
                use super::*;
                methods! {
                    sq(x: &$elt) -> bool = Sqrt::is_square(x);
                    rt(x: &$elt) -> $elt = Sqrt::sqrt(x);
                    sg(x: &$elt) -> i32 = Sgn0::sgn0(x);
                    be(f: &$f, b: &[u8]) -> Result<$elt, std::io::Error> = Deserialize::from_bytes_be(f, b);
                    le(f: &$f, b: &[u8]) -> Result<$elt, std::io::Error> = Deserialize::from_bytes_le(f, b);
                    elt(f: &$f, x: BigInt) -> $elt = Field::elt(f, x);
                    zero(f: &$f) -> $elt = Field::zero(f);
                    one(f: &$f) -> $elt = Field::one(f);
                    modulus(f: &$f) -> BigInt = Field::get_modulus(f);
                    size(f: &$f) -> usize = Field::size_bytes(f);
                }
            }
        )+};
    }
    fields!(f_fp Fp, FpElt; f_fp2 Fp2, Fp2Elt;);
    macro_rules! families {
        ($($m:ident $f:ident;)+) => {$(
            pub mod $m {
                use super::*;
                use crate::$f::{Curve, Point, Scalar};
                methods! {
                    is_zero(p: &Point) -> bool = EcPoint::is_zero(p);
                    encode(p: &Point, c: bool) -> Vec<u8> = Encode::encode(p, c);
                    decode(e: &Curve, b: &[u8]) -> Result<Point, std::io::Error> = Decode::decode(e, b);
                    identity(e: &Curve) -> Point = EllipticCurve::identity(e);
                    new_point(e: &Curve, x: FpElt, y: FpElt) -> Point = EllipticCurve::new_point(e, x, y);
                    new_scalar(e: &Curve, k: BigInt) -> Scalar = EllipticCurve::new_scalar(e, k);
                    generator(e: &Curve) -> Point = EllipticCurve::get_generator(e);
                    on(e: &Curve, p: &Point) -> bool = EllipticCurve::is_on_curve(e, p);
                    order(e: &Curve) -> BigUint = EllipticCurve::get_order(e);
                    cofactor(e: &Curve) -> BigInt = EllipticCurve::get_cofactor(e);
                    field(e: &Curve) -> Fp = EllipticCurve::get_field(e);
                }
            }
        )+};
    }
    families!(e_we weierstrass; e_mt montgomery; e_te edwards;);
    methods! {
        sswu(m: &crate::weierstrass::SSWU, u: &FpElt) -> WePoint = MapToCurve::map(m, u);
        sswuab0(m: &crate::weierstrass::SSWUAB0, u: &FpElt) -> WePoint = MapToCurve::map(m, u);
        svdw(m: &crate::weierstrass::SVDW, u: &FpElt) -> WePoint = MapToCurve::map(m, u);
        ell2_mt(m: &crate::montgomery::Ell2, u: &FpElt) -> MtPoint = MapToCurve::map(m, u);
        ell2_te(m: &crate::edwards::Ell2, u: &FpElt) -> TePoint = MapToCurve::map(m, u);
    }
    macro_rules! isogenies {
        ($($m:ident)+) => {$(
            pub mod $m {
                use super::*;
                methods! {
                    domain() -> WeCurve = crate::instances::$m().domain();
                    codomain() -> WeCurve = crate::instances::$m().codomain();
                    push(p: WePoint) -> WePoint = crate::instances::$m().push(p);
                }
            }
        )+};
    }
    isogenies!(get_isogeny_secp256k1 get_isogeny_bls12381g1);
    macro_rules! maps {
        ($($m:ident)+) => {$(
            pub mod $m {
                use super::*;
                methods! {
                    domain() -> TeCurve = crate::instances::$m().domain();
                    codomain() -> MtCurve = crate::instances::$m().codomain();
                    push(p: TePoint) -> MtPoint = crate::instances::$m().push(p);
                    pull(p: MtPoint) -> TePoint = crate::instances::$m().pull(p);
                }
            }
        )+};
    }
    maps!(edwards25519_to_curve25519 edwards448_to_curve448);
}
