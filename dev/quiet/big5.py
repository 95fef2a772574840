# refactorings, fifth list: maps, rational maps, instances, cross-module restructurings
import re
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'; F='src/field.rs'; O='src/ops.rs'; E='src/ellipticcurve.rs'
WP='src/weierstrass/point.rs'; WC='src/weierstrass/curve.rs'; WS='src/weierstrass/scalar.rs'; WM='src/weierstrass/mod.rs'
EP='src/edwards/point.rs'; EC='src/edwards/curve.rs'; ES='src/edwards/scalar.rs'; EE='src/edwards/elligator2.rs'
MP='src/montgomery/point.rs'; MC='src/montgomery/curve.rs'; MS='src/montgomery/scalar.rs'; ME='src/montgomery/elligator2.rs'
SS='src/weierstrass/sswu.rs'; SA='src/weierstrass/sswuab0.rs'; SV='src/weierstrass/svdw.rs'; R='src/instances/rational_maps.rs'; W='src/instances/weier.rs'
IE='src/instances/edw.rs'; IM='src/instances/mont.rs'; II='src/instances/mod.rs'; L='src/lib.rs'; MA='src/macros/mod.rs'
def rd(f): return open('/repo/'+f).read()
M=[]
MCK='C31 C32 C33 C34 C35 C41'.split()
RC='C36 C37 C38 C34 C35 C39 C40 C41'.split()
IC='C39 C40 C36 C38 C41 C02'.split()
def add(name,f,*eds,checks): M.append((name,f,list(eds),list(checks),'q'))
def between(s,a,b,i=0):
    x=s.index(a,i); y=s.index(b,x)
    return s[x:y]
ss=rd(SS); sv=rd(SV); me=rd(ME); ee=rd(EE); r=rd(R); w=rd(W)
ssmap=between(ss,"        let mut gx1 = &x1 ^ 2u32; //      9.","        self.e.new_point(x, y)")
# --- SSWU
add('ss_loop_cand',SS,(ssmap,"""        let x2 = &t1 * &x1;
        let mut found = None;
        for x in [x1, x2] {
            let gx = &x * &((&x ^ 2u32) + &self.e.a) + &self.e.b;
            if found.is_none() && gx.is_square() {
                found = Some((x, gx.sqrt()));
            }
        }
        let (x, mut y) = found.expect("one of the candidates is on the curve");
        if u.sgn0() != y.sgn0() {
            y = -y;
        }
""") ,("        let mut t2 = &t1 ^ 2u32; //       2.","        let t2 = &t1 ^ 2u32; //       2."),("        let cmov = FpElt::cmov;\n        let mut t1","        let cmov = FpElt::cmov;\n        let mut t1"),checks=MCK)
add('ss_method_g',SS,("impl MapToCurve for SSWU {","""impl SSWU {
    /// The right-hand side of the curve equation.
    fn g(&self, x: &FpElt) -> FpElt {
        let Curve { a, b, .. } = &self.e;
        (x * x * x) + a * x + b
    }
    fn same_sign(u: &FpElt, y: FpElt) -> FpElt {
        if u.sgn0() == y.sgn0() {
            y
        } else {
            -y
        }
    }
}

impl MapToCurve for SSWU {"""),(ssmap,"""        let gx1 = self.g(&x1);
        let (x, y2) = if gx1.is_square() {
            (x1, gx1)
        } else {
            let x2 = t1 * x1;
            let gx2 = self.g(&x2);
            (x2, gx2)
        };
        let y = SSWU::same_sign(u, y2.sqrt());
"""),("        let mut t2 = &t1 ^ 2u32; //       2.","        let t2 = &t1 ^ 2u32; //       2."),checks=MCK)
add('ss_frac',SS,(between(ss,"        x1 = 1u32 / &x1; //               4.","        let mut gx1"),"""        let c = &self.c1;
        x1 = if x1.is_zero() {
            c * &self.c2
        } else {
            c * &(f.one() + f.one() / x1)
        };
"""),checks=MCK)
add('ss_frac2',SS,(between(ss,"        let mut x1 = &t1 + &t2; //        3.","        let mut gx1"),"""        // x1 = c1 (t + 1) / t, where t = t1 + t1^2
        let t = &t1 + &t2;
        let x1 = if t.is_zero() {
            &self.c1 * &self.c2
        } else {
            &self.c1 * &((&t + f.one()) / &t)
        };
"""),checks=MCK)
add('ss_stored_coeffs',SS,("    z: FpElt,\n}\n\nimpl SSWU","    z: FpElt,\n    /// x1 for the exceptional inputs\n    x_exc: FpElt,\n}\n\nimpl SSWU"),("            SSWU { e, c1, c2, z }","            let x_exc = &c1 * &c2;\n            SSWU { e, c1, c2, z, x_exc }"),
   (between(ss,"        x1 = x1 + f.one(); //             6.","        let mut gx1"),"        x1 = (x1 + f.one()) * &self.c1;\n        x1 = cmov(&x1, &self.x_exc, e1);\n"),("    c2: FpElt,\n","    #[allow(dead_code)]\n    c2: FpElt,\n"),checks=MCK)
add('ss_new_result',SS,(between(ss,"    pub fn new(e: Curve","    fn verify("),"""    pub fn new(e: Curve, z: FpElt) -> SSWU {
        SSWU::try_new(e, z).expect("wrong input parameters")
    }
    fn try_new(e: Curve, z: FpElt) -> Option<SSWU> {
        if !SSWU::verify(&e, &z) {
            return None;
        }
        let c1 = -&e.b * (1u32 / &e.a);
        let c2 = -(1u32 / &z);
        Some(SSWU { e, c1, c2, z })
    }
"""),checks=MCK)
add('ss_verify_parts',SS,(between(ss,"        let precond1","    }\n}\n\nimpl MapToCurve"),"""        let minus_one = -e.get_field().one();
        let bad_curve = e.a.is_zero() || e.b.is_zero();
        let bad_z = z.is_square() || *z == minus_one;
        if bad_curve || bad_z {
            return false;
        }
        let x = &e.b / &(z * &e.a);
        let gx = (&x * &x * &x) + &e.a * &x + &e.b;
        gx.is_square()
"""),checks=MCK)
add('ss_sqrt_first',SS,(between(ss,"        let e2 = gx1.is_square();","        self.e.new_point"),"""        let e2 = gx1.is_square();
        let candidates = if e2 { (x1, gx1) } else { (x2, gx2) };
        let x = candidates.0;
        let root = candidates.1.sqrt();
        let negated = -&root;
        let y = cmov(&negated, &root, root.sgn0() == u.sgn0());
"""),checks=MCK)
add('ss_fn_field',SS,("        let f = self.e.get_field();\n        let cmov","        let SSWU { e, c1, c2, z } = self;\n        let f = e.get_field();\n        let cmov"),("&self.z * &t1","z * &t1"),("cmov(&x1, &self.c2, e1)","cmov(&x1, c2, e1)"),("x1 * &self.c1","x1 * c1"),("gx1 + &self.e.a","gx1 + &e.a"),("gx1 + &self.e.b","gx1 + &e.b"),("        self.e.new_point(x, y)","        e.new_point(x, y)"),checks=MCK)
add('ss_deref_clone',SS,("        let f = self.e.get_field();\n        let cmov","        let this = self.clone();\n        let u = u.clone();\n        let f = this.e.get_field();\n        let cmov"),("        let mut t1 = u ^ 2u32;","        let mut t1 = &u ^ 2u32;"),("        self.e.new_point(x, y)","        this.e.new_point(x, y)"),checks=MCK)
# --- SVDW
svg=between(sv,"        let mut gx1 = &x1 ^ 2u32; //","        self.e.new_point(x, y)")
add('sv_loop_cand',SV,(svg,"""        let x2 = &self.c2 + &t4;
        let w = (&t2 ^ 2u32) * t3;
        let x3 = (&w ^ 2u32) * &self.c4 + &self.z;
        let mut chosen = x3;
        for x in vec![x2, x1] {
            if SVDW::gx(&self.e, &x).is_square() {
                chosen = x;
            }
        }
        let x = chosen;
        let y = SVDW::gx(&self.e, &x).sqrt();
        let y = if u.sgn0() == y.sgn0() { y } else { -y };
"""),("        let cmov = FpElt::cmov;\n",""),("use crate::field::{CMov, Field","use crate::field::{Field"),checks=MCK)
add('sv_position',SV,(svg,"""        let x2 = &self.c2 + &t4;
        let mut x3 = (&t2 ^ 2u32) * t3;
        x3 = (&x3 ^ 2u32) * &self.c4 + &self.z;
        let mut xs = [x1, x2, x3];
        let index = xs
            .iter()
            .position(|x| SVDW::gx(&self.e, x).is_square())
            .unwrap_or(2);
        xs.swap(0, index);
        let [x, ..] = xs;
        let mut y = SVDW::gx(&self.e, &x).sqrt();
        let e3 = u.sgn0() == y.sgn0();
        y = cmov(&(-&y), &y, e3);
"""),checks=MCK)
add('sv_consts',SV,(between(sv,"            let f = e.get_field();\n","            SVDW {"),"""            let constants = SVDW::constants(&e, &z);
            let (c1, c2, c3, c4) = constants;
"""),("    fn gx(e: &Curve","""    fn constants(e: &Curve, z: &FpElt) -> (FpElt, FpElt, FpElt, FpElt) {
        let f = e.get_field();
        let (two, three, four) = (f.from(2), f.from(3), f.from(4));
        let g = SVDW::gx(e, z);
        let d = three * (z * z) + &four * &e.a;
        let root = (-&g * &d).sqrt();
        let c3 = if root.sgn0() == 1 { root } else { -root };
        let c4 = -(&four * &g) / d;
        (g, -(z / &two), c3, c4)
    }
    fn gx(e: &Curve"""),checks=MCK)
add('sv_verify_mul',SV,(between(sv,"        let t0 = -(f3","        let cond1 = "),"        let num = -(f3 * (z ^ 2u32) + &f4 * &e.a);\n        let den = &f4 * &gz;\n        let t0 = num / den;\n"),checks=MCK)
add('sv_verify_half',SV,("        let gz2 = SVDW::gx(e, &((-z) * (1u32 / &f2)));","        let minus_half_z = -z / &f2;\n        let gz2 = SVDW::gx(e, &minus_half_z);"),("        let cond4b = gz2.is_square();\n\n        cond1 && cond2 && cond3 && (cond4a || cond4b)","        let cond4 = if cond4a { true } else { gz2.is_square() };\n\n        cond1 & cond2 & cond3 & cond4"),checks=MCK)
add('sv_struct_clone',SV,("        let f = self.e.get_field();\n        let cmov = FpElt::cmov;","        let f = self.e.get_field();\n        let one = f.one();\n        let cmov = <FpElt as CMov>::cmov;"),("let t2 = f.one() + &t1;","let t2 = &one + &t1;"),("t1 = f.one() - &t1;","t1 = &one - &t1;"),checks=MCK)
add('sv_den_first',SV,(between(sv,"        let mut t3 = &t1 * &t2; //","        let x1 = &self.c2 - &t4;"),"""        let t3 = 1u32 / &(&t1 * &t2);
        let t4 = &self.c3 * &(u * &t1 * &t3);
"""),checks=MCK)
# --- Elligator
mem=between(me,"        let mut gx1 = &x1 + &self.ca;","        self.e.new_point(x, y)")
add('ml_method',ME,("impl MapToCurve for Ell2 {","""impl Ell2 {
    /// Evaluates x^3 + (A/B) x^2 + x/B^2.
    fn rhs(&self, x: &FpElt) -> FpElt {
        x * &(x * &(x + &self.ca) + &self.cb)
    }
}

impl MapToCurve for Ell2 {"""),(mem,"""        let gx1 = self.rhs(&x1);
        let x2 = -&x1 - &self.ca;
        let gx2 = self.rhs(&x2);
        let first = gx1.is_square();
        let x = cmov(&x2, &x1, first);
        let y = cmov(&gx2, &gx1, first).sqrt();
        let flip = first ^ (y.sgn0() == 1);
        let y = cmov(&(-&y), &y, flip);
        let (x, y) = (x * &self.e.b, y * &self.e.b);
"""),checks=MCK)
add('ml_early',ME,(mem,"""        let gx1 = self.cb.clone() * &x1 + &self.ca * (&x1 ^ 2u32) + (&x1 * &x1 * &x1);
        let b = &self.e.b;
        if gx1.is_square() {
            let y = gx1.sqrt();
            let y = if y.sgn0() == 1 { -y } else { y };
            return self.e.new_point(b * &x1, b * &y);
        }
        let x2 = -&x1 - &self.ca;
        let y = (t1 * gx1).sqrt();
        let y = if y.sgn0() == 1 { y } else { -y };
        let (x, y) = (b * &x2, b * &y);
"""),checks=MCK)
add('ml_no_exc',ME,(between(me,"        let mut x1 = &t1 + f.one();","        let mut gx1"),"""        let den = f.one() + &t1;
        let mut x1 = -(&self.ca / &den);
"""),("        let mut x1 = -(&self.ca","        let mut x1 = -(&self.ca"),checks=MCK) if False else None
add('ml_store_neg',ME,("    cb: FpElt,\n}","    cb: FpElt,\n    minus_ca: FpElt,\n}"),("            Ell2 { e, z, ca, cb }","            let minus_ca = -&ca;\n            Ell2 {\n                e,\n                z,\n                ca,\n                cb,\n                minus_ca,\n            }"),("x1 = -&self.ca * &x1;","x1 = &self.minus_ca * &x1;"),("let x2 = -&x1 - &self.ca;","let x2 = &self.minus_ca - &x1;"),checks=MCK)
add('ml_e1_den',ME,(between(me,"        let e1 = t1 == f.from(-1);","        let mut gx1"),"""        let mut den = &t1 + f.one();
        if den.is_zero() {
            t1 = f.zero();
            den = f.one();
        }
        let x1 = -&self.ca / &den;
"""),checks=MCK)
add('ml_verify_helper',ME,("        let cond1 = !e.a.is_zero();\n        let cond2 = !e.b.is_zero();\n        let cond3 = !z.is_square();\n        cond1 && cond2 && cond3","        let degenerate = (&e.a * &e.b).is_zero();\n        !degenerate && !z.is_square()"),checks=MCK)
add('el_fields',EE,("        self.ratmap.pull(self.map_to_curve.map(u))","        let Ell2 {\n            ratmap,\n            map_to_curve,\n        } = self;\n        let on_montgomery = map_to_curve.map(u);\n        ratmap.pull(on_montgomery)"),checks=MCK)
add('el_concrete',EE,("    map_to_curve: Box<dyn MapToCurve<E = MtCurve> + 'static>,","    map_to_curve: MtEll2,"),("(Box::new(MtEll2::new(mt_curve, z)), r)","(MtEll2::new(mt_curve, z), r)"),checks=MCK)
add('el_letelse',EE,(between(ee,"        let (map_to_curve, ratmap) = match","        Ell2 {\n            map_to_curve,"),"""        let ratmap = match ratmap {
            Some(r) if r.domain() == e => r,
            Some(_) => panic!("Domain of rational map is incompatible with curve"),
            None => todo!(),
        };
        let map_to_curve = Box::new(MtEll2::new(ratmap.codomain(), z));
"""),checks=MCK)
add('sa_keep_iso',SA,("            let sswu = Box::new(SSWU::new(iso.domain(), z));\n            SSWUAB0 { iso, sswu }","            SSWUAB0 {\n                sswu: Box::new(SSWU::new(iso.domain(), z)),\n                iso,\n            }"),checks=MCK)
add('sa_match',SA,("        let cond1 = e.a.is_zero(); // A == 0\n        let cond2 = e.b.is_zero(); // B == 0\n        cond0 && (cond1 ^ cond2) // A == 0 xor B == 0","        match (e.a.is_zero(), e.b.is_zero()) {\n            (true, false) | (false, true) => cond0,\n            _ => false,\n        }"),checks=MCK)
# --- rational maps
add('r_shared_iso',R,(r[r.index("struct IsoBls12381G1 {"):r.index("/// Returns a 11-degree")],""),("    IsoBls12381G1 {\n        x_num","    Isosecp256k1 {\n        x_num"),
   (r[r.index("impl Isogeny for IsoBls12381G1"):],""),
   ("        for i in (0..4).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n            y_num","        for i in (0..self.x_num.len()).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n        }\n        for i in (0..self.y_num.len()).rev() {\n            y_num"),checks=RC)
horner=between(r,"        let f = self.e0.get_field();\n        let x = p.c.x;","        if x_den.is_zero()")
add('r_generic_eval',R,(horner,"""        let (x, y) = (p.c.x, p.c.y);
        let x_num = horner(&self.x_num, &x);
        let x_den = horner(&self.x_den, &x);
        let y_num = horner(&self.y_num, &x);
        let y_den = horner(&self.y_den, &x);
""") if False else ("struct Isosecp256k1 {","""/// Evaluates a polynomial given by its coefficients, constant term first.
fn horner<'a>(coeffs: impl DoubleEndedIterator<Item = &'a FpElt>, x: &FpElt) -> FpElt {
    let mut it = coeffs.rev();
    let mut acc = it.next().expect("no coefficients").clone();
    for c in it {
        acc = acc * x + c;
    }
    acc
}

struct Isosecp256k1 {"""),("        let f = self.e0.get_field();\n        let x = p.c.x;\n        let y = p.c.y;\n        let mut x_num = f.zero();\n        let mut x_den = f.zero();\n        let mut y_num = f.zero();\n        let mut y_den = f.zero();\n\n        for i in (0..4).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n            y_num = (y_num * &x) + &self.y_num[i];\n            y_den = (y_den * &x) + &self.y_den[i];\n        }","        let (x, y) = (&p.c.x, &p.c.y);\n        let x_num = horner(self.x_num.iter(), x);\n        let x_den = horner(self.x_den.iter(), x);\n        let y_num = horner(self.y_num.iter(), x);\n        let y_den = horner(self.y_den.iter(), x);"),checks=RC)
add('r_split_last',R,("        for i in (0..self.x_num.len()).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n        }","        if let Some((last, rest)) = self.x_num.split_last() {\n            x_num = last.clone();\n            for c in rest.iter().rev() {\n                x_num = x_num * &x + c;\n            }\n        }\n        for c in self.x_den.iter().rev() {\n            x_den = (x_den * &x) + c;\n        }"),checks=RC)
add('r_tuple_fold',R,("        for i in (0..self.y_num.len()).rev() {\n            y_num = (y_num * &x) + &self.y_num[i];\n            y_den = (y_den * &x) + &self.y_den[i];\n        }","        let (y_num, y_den) = self\n            .y_num\n            .iter()\n            .zip(&self.y_den)\n            .rfold((y_num, y_den), |(n, d), (a, b)| (n * &x + a, d * &x + b));"),("        let mut y_num = f.zero();\n        let mut y_den = f.zero();\n\n        for i in (0..self.x_num","        let y_num = f.zero();\n        let y_den = f.zero();\n\n        for i in (0..self.x_num"),checks=RC)
add('r_iso_even',R,("        for i in (0..self.x_num.len()).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];","        // even and odd parts\n        let xsq = &x ^ 2u32;\n        let (mut even, mut odd) = (f.zero(), f.zero());\n        for pair in self.x_num.chunks(2).rev() {\n            even = even * &xsq + &pair[0];\n            odd = odd * &xsq + &pair[1];\n        }\n        x_num = x_num + even + odd * &x;\n        for i in (0..self.x_num.len()).rev() {"),checks=RC)
add('r_coeff_struct',R,(r[r.index("struct Isosecp256k1 {"):r.index("/// Returns a 3-degree")],"""struct Isosecp256k1 {
    e0: WeCurve,
    e1: WeCurve,
    /// x numerator, x denominator, y numerator, y denominator
    polys: [Vec<FpElt>; 4],
}

"""),(between(r,"        for i in (0..4).rev() {\n            x_num","        if x_den"),"""        let [a, b, c, d] = &self.polys;
        for i in (0..4).rev() {
            x_num = (x_num * &x) + &a[i];
            x_den = (x_den * &x) + &b[i];
            y_num = (y_num * &x) + &c[i];
            y_den = (y_den * &x) + &d[i];
        }
"""),("    Isosecp256k1 {\n        x_num: vec![","    let x_num = vec!["),("""        x_den: vec![
            f.from("0xd35771""","""        let x_den = vec![
            f.from("0xd35771"""),("""        y_num: vec![
            f.from("0x4bda""","""        let y_num = vec![
            f.from("0x4bda"""),("""        y_den: vec![
            f.from("0xfff""","""        let y_den = vec![
            f.from("0xfff"""),("""4f17c6581"),""","""4f17c6581"),"""),
   ("f.from(\"0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c\"),\n        ],","f.from(\"0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c\"),\n        ];"),
   ("            f.one(),\n            f.zero(),\n        ],\n        let y_num" if False else "6a8c6d14\"),\n            f.one(),\n            f.zero(),\n        ],","6a8c6d14\"),\n            f.one(),\n            f.zero(),\n        ];") if "6a8c6d14\"),\n            f.one(),\n            f.zero(),\n        ]," in r else ("56612a8c6d14\"),\n            f.one(),\n            f.zero(),\n        ],","56612a8c6d14\"),\n            f.one(),\n            f.zero(),\n        ];"),
   ("12f38e38d84\"),\n        ],","12f38e38d84\"),\n        ];"),
   ("bfd2a76f\"),\n            f.one(),\n        ],\n        e0: SECP256K1_3ISO.get(),\n        e1: curve,\n    }","bfd2a76f\"),\n            f.one(),\n        ];\n    Isosecp256k1 {\n        e0: SECP256K1_3ISO.get(),\n        e1: curve,\n        polys: [x_num, x_den, y_num, y_den],\n    }"),checks=RC)
add('r_push_tuple_match',R,(between(r,"        if p.is_zero() {\n            self.e1.identity()\n        } else if p.c.x.is_zero()","            let (x, y, z)"),"""        match (p.is_zero(), p.c.x.is_zero()) {
            (true, _) => return self.e1.identity(),
            (false, true) => {
                // (0,-1), the point of order two.
                let zero = self.e1.get_field().zero();
                return self.e1.new_point(zero.clone(), zero);
            }
            (false, false) => (),
        }
        {
"""),checks=RC)
add('r_push_destr',R,("            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);\n            let t0 = z + y;","            let edwards::ProyCoordinates { x, y, z, .. } = &p.c;\n            let t0 = z + y;"),checks=RC)
add('r_pull_nested',R,("            self.e0.new_proy_point(edwards::ProyCoordinates {\n                x: xx,\n                y: yy,\n                t: tt,\n                z: zz,\n            })\n        }\n    }\n}\n\npub fn edwards448","            let c = edwards::ProyCoordinates {\n                z: zz,\n                t: tt,\n                x: xx,\n                y: yy,\n            };\n            let image = self.e0.new_proy_point(c);\n            image\n        }\n    }\n}\n\npub fn edwards448"),checks=RC)
add('r_pull_affine',R,(between(r,"            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);\n            let add","        }\n    }\n}\n\npub fn edwards448"),"""            let mut p = p;
            p.normalize();
            let one = self.e1.get_field().one();
            let (u, v) = (&p.c.x, &p.c.y);
            if (u + &one).is_zero() {
                unreachable!("-1 is not the x-coordinate of a point of this curve");
            }
            let x = &self.invsqr_d * &(u / v);
            let y = (u - &one) / (u + &one);
            self.e0.new_point(x, y)
"""),checks=['C41']) if False else None
add('r_448_scale',R,("            let f2 = ff.from(2);\n            let x2 = x ^ 2u32;","            let x2 = x * x;"),("y * (f2 * z2 - y2 - x2)","y * (&z2 + &z2 - y2 - x2)"),("            let ff = self.e1.get_field();\n            let x2","            let x2"),checks=RC) if False else None
add('r_448_dbl',R,("            let ff = self.e1.get_field();\n            let f2 = ff.from(2);\n            let x2 = x ^ 2u32;","            let x2 = x ^ 2u32;"),("            let yy = y * (f2 * z2 - y2 - x2);","            let yy = y * (&z2 + &z2 - (y2 + x2));"),checks=RC)
add('r_448_horn',R,(between(r,"            let z0 = x4","            let tt = &xx"),"""            let z0 = x4 + &z4 + &z2 * (f4 * &y2 - f2 * &x2);
            let yy = -(&x5 + x * &z4 - &z2 * (f2 * &x3 + f4 * x * &y2));
            let z1 = x5 - f2 * &x3 * &z2 + x * z4 - f2 * &y2 * (x2 * z + z3);
"""),checks=RC)
add('r_448_closures',R,("            let (f2, f4) = (&ff.from(2), &ff.from(4));\n            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);\n            let x2 = x ^ 2u32;\n            let x3 = &x2 * x;\n            let x4 = &x2 ^ 2u32;\n            let x5 = &x3 * &x2;","            let (f2, f4) = (&ff.from(2), &ff.from(4));\n            let (x, y, z) = (&p.c.x, &p.c.y, &p.c.z);\n            let powers: Vec<FpElt> = (2u32..6).map(|e| (1..e).fold(x.clone(), |a, _| a * x)).collect();\n            let [x2, x3, x4, x5] = [0, 1, 2, 3].map(|i: usize| powers[i].clone());"),checks=RC)
add('r_two_tors_y',R,("        if p.is_zero() || p.is_two_torsion() {","        let trivial = p.is_zero() || p.is_two_torsion();\n        if trivial {"),checks=RC)
add('r_helper_proj',R,("struct Ed2Mt25519 {","fn montgomery_point(e: &MtCurve, x: FpElt, y: FpElt, z: FpElt) -> MtPoint {\n    e.new_proy_point(montgomery::ProyCoordinates { x, y, z })\n}\n\nstruct Ed2Mt25519 {"),("            self.e1.new_proy_point(montgomery::ProyCoordinates {\n                x: xx,\n                y: yy,\n                z: zz,\n            })\n        }\n    }\n    fn pull(&self, p: MtPoint) -> TePoint {\n        if p.is_zero() {\n            self.e0","            montgomery_point(&self.e1, xx, yy, zz)\n        }\n    }\n    fn pull(&self, p: MtPoint) -> TePoint {\n        if p.is_zero() {\n            self.e0"),checks=RC)
add('r_const_fn',R,('    let invsqr_d =\n        f.from("6853475219497561581579357271197624642482790079785650197046958215289687604742");\n','    // the square root of -(a + 2)\n    let invsqr_d: FpElt = f.from(INVSQR_D);\n'),("struct Ed2Mt25519 {",'const INVSQR_D: &str =\n    "6853475219497561581579357271197624642482790079785650197046958215289687604742";\n\nstruct Ed2Mt25519 {'),checks=RC)
add('r_const_bytes',R,('    let invsqr_d =\n        f.from("6853475219497561581579357271197624642482790079785650197046958215289687604742");\n','    let invsqr_d = f.elt(\n        "6853475219497561581579357271197624642482790079785650197046958215289687604742"\n            .parse()\n            .unwrap(),\n    );\n'),checks=RC)
add('r_macro_coeffs',R,("""        x_num: vec![
            f.from("0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7"),
            f.from("0x07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581"),
            f.from("0x534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262"),
            f.from("0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c"),
        ],""","""        x_num: coefficients(
            &f,
            &[
                "0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa8c7",
                "0x07d3d4c80bc321d5b9f315cea7fd44c5d595d2fc0bf63b92dfff1044f17c6581",
                "0x534c328d23f234e6e2a413deca25caece4506144037c40314ecbd0b53d9dd262",
                "0x8e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38e38daaaaa88c",
            ],
        ),"""),("struct Isosecp256k1 {","fn coefficients(f: &Fp, hex: &[&'static str]) -> Vec<FpElt> {\n    hex.iter().map(|c| f.from(*c)).collect()\n}\n\nstruct Isosecp256k1 {"),("use crate::primefield::FpElt;","use crate::primefield::{Fp, FpElt};"),checks=RC)
add('r_iso_return',R,(between(r,"        if x_den.is_zero() {\n            return self.e1.identity();\n        }\n        let xx","struct IsoBls"),"""        if !x_den.is_zero() {
            let (xx, yy) = (x_num / x_den, y * y_num / y_den);
            return self.e1.new_point(xx, yy);
        }
        self.e1.identity()
    }
}

"""),checks=RC)
add('r_iso_den_prod',R,(between(r,"        let xx = x_num / x_den;","struct IsoBls"),"""        let inverse = 1u32 / &(&x_den * &y_den);
        let xx = &x_num * &y_den * &inverse;
        let yy = &y * &y_num * &x_den * &inverse;
        self.e1.new_point(xx, yy)
    }
}

"""),checks=RC)
# --- instances
add('i_macro_get',W,(between(w,"impl GetCurve for WeCurveID","impl std::fmt::Display"),"""macro_rules! get_curve {
    ($id:ty, $curve:ty) => {
        impl GetCurve for $id {
            type E = $curve;
            #[inline]
            fn get(&self) -> Self::E {
                <$curve>::from(self.0)
            }
        }
    };
}
get_curve!(WeCurveID, Curve);

"""),checks=IC)
add('i_const_new',W,("impl GetCurve for WeCurveID","impl WeCurveID {\n    const fn new(params: &'static Params) -> Self {\n        WeCurveID(params)\n    }\n}\n\nimpl GetCurve for WeCurveID"),("WeCurveID = WeCurveID(P256_PARAMS)","WeCurveID = WeCurveID::new(P256_PARAMS)"),("WeCurveID = WeCurveID(BLS12381G1_PARAMS)","WeCurveID = WeCurveID::new(BLS12381G1_PARAMS)"),checks=IC)
add('i_static_struct',W,("static P384_PARAMS: &Params = &Params {","static P384_PARAMS: &Params = &P384_TABLE;\nstatic P384_TABLE: Params = Params {"),checks=IC)
add('i_bls_lit',W,('    h: "15132376222941642753",\n    gx: "0x17f1','    h: "0xd201000000010001",\n    gx: "0x17f1'),checks=IC) if False else None
add('i_display_ed',IE,('        write!(f, "{}", self.0.name)','        f.write_str(self.0.name)'),checks=IC)
add('i_getfrom',IM,('        Curve::from(self.0)','        <Curve as From<&Params>>::from(self.0)'),checks=IC) if 'From<&' in rd(MC) else None
# --- cross module
add('x_generic_sign',F,("pub trait CMov: Clone {","/// Selects the root whose sign agrees with that of `u`.\npub(crate) fn match_sign<T>(u: &T, y: T) -> T\nwhere\n    T: Sgn0 + std::ops::Neg<Output = T>,\n{\n    if u.sgn0() == y.sgn0() {\n        y\n    } else {\n        -y\n    }\n}\n\npub trait CMov: Clone {"),(SS,"        let mut y = y2.sqrt(); //         19.   y = sqrt(y2)\n        let e3 = u.sgn0() == y.sgn0(); // 20.  e3 = sgn0(u) == sgn0(y)\n        y = cmov(&(-&y), &y, e3); //      21.   y = CMOV(-y, y, e3)\n","        let y = crate::field::match_sign(u, y2.sqrt());\n"),(SV,"        let mut y = gx.sqrt(); //           33.   y = sqrt(gx)\n        let e3 = u.sgn0() == y.sgn0(); //   34.  e3 = sgn0(u) == sgn0(y)\n        y = cmov(&(-&y), &y, e3); //        35.   y = CMOV(-y, y, e3)\n","        let y = crate::field::match_sign(u, gx.sqrt());\n"),checks=MCK)
add('x_sqrt_ratio',F,("pub trait Sgn0 {","pub(crate) fn root_of<T: Sqrt>(x: &T) -> Option<T> {\n    if x.is_square() {\n        Some(x.sqrt())\n    } else {\n        None\n    }\n}\n\npub trait Sgn0 {"),(ME,"        let e2 = gx1.is_square(); //       14.  e2 = is_square(gx1)\n","        let root = crate::field::root_of(&gx1);\n        let e2 = root.is_some();\n"),(ME,"        let y2 = cmov(&gx2, &gx1, e2); //  16.  y2 = CMOV(gx2, gx1, e2)  // If is_square(gx1), y2 = gx1, else y2 = gx2\n        let mut y = y2.sqrt(); //          17.   y = sqrt(y2)\n","        let mut y = root.unwrap_or_else(|| gx2.sqrt());\n"),checks=MCK)
add('x_curve_rhs',WC,("impl EllipticCurve for Curve {","impl Curve {\n    /// x^3 + a x + b\n    pub(super) fn rhs(&self, x: &FpElt) -> FpElt {\n        let x2 = x ^ 2u32;\n        (x2 + &self.a) * x + &self.b\n    }\n}\n\nimpl EllipticCurve for Curve {"),(SV,"        x * &((x ^ 2u32) + &e.a) + &e.b\n","        e.rhs(x)\n"),(SS,"        let gx = &x * &((&x ^ 2u32) + &e.a) + &e.b; // g(B/(Z*A))","        let gx = e.rhs(&x);"),(SS,"        let mut gx1 = &x1 ^ 2u32; //      9.  gx1 = x1^2\n        gx1 = gx1 + &self.e.a; //         10. gx1 = gx1 + A\n        gx1 = gx1 * &x1; //               11. gx1 = gx1 * x1\n        gx1 = gx1 + &self.e.b; //         12. gx1 = gx1 + B\n","        let gx1 = self.e.rhs(&x1);\n"),checks=MCK)
add('x_trait_default',E,("    fn codomain(&self) -> Self::E1;\n    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point;\n}\n\n/// MapToCurve","    fn codomain(&self) -> Self::E1;\n    /// The image of a point; the points of the kernel map to the identity.\n    fn push(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {\n        if p.is_zero() {\n            self.codomain().identity()\n        } else {\n            self.image(p)\n        }\n    }\n    fn image(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point;\n}\n\n/// MapToCurve"),
   (R,r[r.index("        self.e1.clone()\n    }\n    fn push(&self, p: <Self::E0 as EllipticCurve>::Point)"):r.index("        let f = self.e0.get_field();\n        let x = p.c.x;")],"        self.e1.clone()\n    }\n    fn image(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {\n        let mut p = p;\n        p.normalize();\n"),
   (R,r[r.rindex("        self.e1.clone()\n    }\n    fn push(&self, p: <Self::E0 as EllipticCurve>::Point)"):r.rindex("        let f = self.e0.get_field();\n        let x = p.c.x;")],"        self.e1.clone()\n    }\n    fn image(&self, p: <Self::E0 as EllipticCurve>::Point) -> <Self::E1 as EllipticCurve>::Point {\n        let mut p = p;\n        p.normalize();\n") ,checks=RC)
add('x_macro_let',MA,("    ($cond:expr, $body:stmt, $error: expr) => {\n        if $cond {\n            $body\n        } else {\n            panic!(\"{}\", $error)\n        }\n    };","    ($cond:expr, $body:expr, $error: expr) => {{\n        assert!($cond, \"{}\", $error);\n        $body\n    }};"),checks='C02 C06 C15 C17 C20 C21 C22 C23 C24 C25 C31 C36 C41'.split())
add('x_macro_match',MA,("        if $cond {\n            $body\n        } else {\n            panic!(\"{}\", $error)\n        }","        match $cond {\n            true => {\n                $body\n            }\n            false => panic!(\"{}\", $error),\n        }"),checks='C02 C06 C15 C17 C20 C21 C22 C23 C24 C25 C31 C36 C41'.split())
add('x_lift',O,("    fn lift(self, f: &U) -> O {\n        FromFactory::from(f, self)","    fn lift(self, f: &U) -> O {\n        <U as FromFactory<T>>::from(f, self)"),checks='C02 C07'.split())
M=[m for m in M if m]
# --- default methods of traits
_le=lambda s: s[s.index("    fn to_bytes_le(&self)"):s.index("\n    }\n",s.index("    fn to_bytes_le(&self)"))+7]
_de=lambda s: s[s.index("    fn from_bytes_le(&self"):s.index("\n    }\n",s.index("    fn from_bytes_le(&self"))+7]
SER='C06 C12 C18 C28 C42 C41 C15 C16'.split()
add('x_ser_default',O,("    fn to_bytes_le(&self) -> Vec<u8>;","    fn to_bytes_le(&self) -> Vec<u8> {\n        let mut bytes = self.to_bytes_be();\n        bytes.reverse();\n        bytes\n    }"),
  *[(f,_le(rd(f)),"") for f in (WS,MS,ES)],(PF,'    /// serializes the field element into little-endian bytes\n'+_le(rd(PF)),''),checks=SER)
add('x_deser_default',O,("    fn from_bytes_le(&self, _: &[u8]) -> Result<Self::Deser, std::io::Error>;","    fn from_bytes_le(&self, bytes: &[u8]) -> Result<Self::Deser, std::io::Error> {\n        let reversed: Vec<u8> = bytes.iter().rev().copied().collect();\n        self.from_bytes_be(&reversed)\n    }"),
  *[(f,_de(rd(f)),"") for f in (PF,) if "fn from_bytes_le(&self" in rd(f)],checks=SER)
add('x_point_sub_default',E,("    fn is_zero(&self) -> bool;\n}\n\n/// Encode","    fn is_zero(&self) -> bool;\n    /// Whether the point is other than the identity.\n    fn is_nonzero(&self) -> bool {\n        !self.is_zero()\n    }\n}\n\n/// Encode"),checks='C20 C26 C29 C41'.split())
