#[doc(hidden)]
#[allow(missing_docs, dead_code)]
pub mod verif_witness {
    use crate::field::CMov;
    use crate::ops::IntoFactory;
    use crate::primefield::{Fp, FpElt};
    use crate::quadraticfield::{Fp2, Fp2Elt};
    pub fn cmov_fp(x: &FpElt, y: &FpElt, b: bool) -> FpElt {
        <FpElt as CMov>::cmov(x, y, b)
    }
    pub fn cmov_fp2(x: &Fp2Elt, y: &Fp2Elt, b: bool) -> Fp2Elt {
        <Fp2Elt as CMov>::cmov(x, y, b)
    }
    macro_rules! lifts {
        ($($n:ident $m:ident $t:ty)+) => {$(
            pub fn $n(f: &Fp, x: $t) -> FpElt {
                x.lift(f)
            }
            pub fn $m(f: &Fp2, x: $t) -> Fp2Elt {
                x.lift(f)
            }
        )+};
    }
    lifts!(lift_u8 lift2_u8 u8 lift_u16 lift2_u16 u16 lift_u32 lift2_u32 u32 lift_u64 lift2_u64 u64
           lift_i8 lift2_i8 i8 lift_i16 lift2_i16 i16 lift_i32 lift2_i32 i32 lift_i64 lift2_i64 i64
           lift_str lift2_str &str);
    use crate::edwards::{Curve as TeCurve, Point as TePoint};
    use crate::ellipticcurve::{Isogeny, RationalMap};
    use crate::montgomery::{Curve as MtCurve, Point as MtPoint};
    use crate::weierstrass::{Curve as WeCurve, Point as WePoint};
    pub struct AnyIsogeny {
        pub e0: WeCurve,
        pub e1: WeCurve,
        pub out: WePoint,
    }
    impl Isogeny for AnyIsogeny {
        type E0 = WeCurve;
        type E1 = WeCurve;
        fn domain(&self) -> WeCurve {
            self.e0.clone()
        }
        fn codomain(&self) -> WeCurve {
            self.e1.clone()
        }
        fn push(&self, _p: WePoint) -> WePoint {
            self.out.clone()
        }
    }
    pub struct AnyMap {
        pub e0: TeCurve,
        pub e1: MtCurve,
        pub out0: TePoint,
        pub out1: MtPoint,
    }
    impl RationalMap for AnyMap {
        type E0 = TeCurve;
        type E1 = MtCurve;
        fn domain(&self) -> TeCurve {
            self.e0.clone()
        }
        fn codomain(&self) -> MtCurve {
            self.e1.clone()
        }
        fn push(&self, _p: TePoint) -> MtPoint {
            self.out1.clone()
        }
        fn pull(&self, _p: MtPoint) -> TePoint {
            self.out0.clone()
        }
    }
    pub fn any_isogeny(e0: WeCurve, e1: WeCurve, out: WePoint) -> Box<dyn Isogeny<E0 = WeCurve, E1 = WeCurve>> {
        Box::new(AnyIsogeny { e0, e1, out })
    }
    pub fn any_map(e0: TeCurve, e1: MtCurve, out0: TePoint, out1: MtPoint) -> Option<Box<dyn RationalMap<E0 = TeCurve, E1 = MtCurve>>> {
        Some(Box::new(AnyMap { e0, e1, out0, out1 }))
    }
    pub fn no_map() -> Option<Box<dyn RationalMap<E0 = TeCurve, E1 = MtCurve>>> {
        None
    }
}
