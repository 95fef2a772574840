# larger refactorings, second list: cached values, shared ownership, slice patterns, one type for two isogenies
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'; F='src/field.rs'; O='src/ops.rs'; E='src/ellipticcurve.rs'
WP='src/weierstrass/point.rs'; WC='src/weierstrass/curve.rs'; WS='src/weierstrass/scalar.rs'
EP='src/edwards/point.rs'; EC='src/edwards/curve.rs'; ES='src/edwards/scalar.rs'; EE='src/edwards/elligator2.rs'
MP='src/montgomery/point.rs'; MC='src/montgomery/curve.rs'; MS='src/montgomery/scalar.rs'; ME='src/montgomery/elligator2.rs'
SS='src/weierstrass/sswu.rs'; SA='src/weierstrass/sswuab0.rs'; SV='src/weierstrass/svdw.rs'; R='src/instances/rational_maps.rs'; W='src/instances/weier.rs'
M=[]
FC='C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C13 C14 C15 C16 C17 C26 C28 C31 C38 C40 C41 C42'.split()
QC='C02 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C41 C42'.split()
PC='C02 C15 C17 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C36 C38 C39 C40 C41 C42'.split()
SC='C02 C15 C17 C18 C19 C25 C41 C42'.split()
MCK='C31 C32 C33 C34 C35 C41'.split()
def add(name,f,*eds,checks): M.append((name,f,list(eds),list(checks),'q'))
# --- values cached in the parameters of the field
add('fp_cache',PF,("struct Params {\n    p: BigInt,","struct Params {\n    p: BigInt,\n    p_minus_2: BigInt,\n    half: BigInt,\n    len: usize,"),
 ("        Fp(Arc::new(Params {\n            p: modulus.to_bigint().unwrap(),","        let p = modulus.to_bigint().unwrap();\n        Fp(Arc::new(Params {\n            p_minus_2: &p - 2u32,\n            half: (&p - 1u32) >> 1usize,\n            len: (modulus.bits() as usize + 7) / 8,\n            p,"),
 ("        let p_minus_2 = &self.f.0.p - 2u32;\n        self ^ &p_minus_2","        self ^ &self.f.0.p_minus_2"),
 ("        let p_minus_1_div_2 = (&self.f.0.p - 1) >> 1usize;\n        let res: FpElt = self ^ &p_minus_1_div_2;","        let res: FpElt = self ^ &self.f.0.half;"),
 ("        (self.0.p.bits() as usize + 7) / 8","        self.0.len"),checks=FC)
add('fp_named*',PF,("pub struct Fp(Arc<Params>);","pub struct Fp {\n    params: Arc<Params>,\n}"),
 ("""        Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: OnceLock::new(),
        }))""","""        let params = Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: OnceLock::new(),
        };
        Self {
            params: Arc::new(params),
        }"""),("self.0.p","self.params.p"),("self.f.0.p","self.f.params.p"),("        self.0\n            .sqrt","        self.params\n            .sqrt"),checks=FC)
add('fp_biguint_p',PF,("struct Params {\n    p: BigInt,","struct Params {\n    m: BigUint,\n    p: BigInt,"),("            p: modulus.to_bigint().unwrap(),","            p: BigInt::from(modulus.clone()),\n            m: modulus,"),("        self.p == other.p","        self.m == other.m"),("        (self.0.p.bits() as usize + 7) / 8","        (self.0.m.bits() as usize + 7) >> 3"),checks=FC)
add('fp_eager',PF,("            p: modulus.to_bigint().unwrap(),\n            sqrt_precmp: OnceLock::new(),\n        }))","            p: modulus.to_bigint().unwrap(),\n            sqrt_precmp: OnceLock::new(),\n        }))"),("        let pre = self.f.get_sqrt_precmp();\n        match pre {","        match self.f.calc_sqrt_precmp() {"),checks=FC)
add('fp_consts',PF,("    fn zero(&self) -> Self::Elt {\n        self.elt(BigInt::zero())","    fn zero(&self) -> Self::Elt {\n        FpElt {\n            n: BigInt::zero(),\n            f: self.clone(),\n        }"),checks=FC)
add('fp_arc_elt',PF,("    fn red(&self, n: BigInt) -> FpElt {\n        let n = n.mod_floor(&self.f.0.p);\n        let f = self.f.clone();","    fn red(&self, n: BigInt) -> FpElt {\n        let p = &self.f.0.p;\n        let n = if &n < p && n.sign() != num_bigint::Sign::Minus {\n            n\n        } else {\n            n.mod_floor(p)\n        };\n        let f = Fp(Arc::clone(&self.f.0));"),checks=FC)
# --- curves
add('b3_cached',WC,("    pub(super) b: FpElt,","    pub(super) b: FpElt,\n    pub(super) b3: FpElt,"),("            b: f.from(params.b),","            b3: f.from(3u8) * f.from(params.b),\n            b: f.from(params.b),"),
 (WP,"        let b3 = &self.e.b + &self.e.b + &self.e.b;\n        let (x1, x2)","        let b3 = self.e.b3.clone();\n        let (x1, x2)"),(WP,"        let b3 = &self.e.b + &self.e.b + &self.e.b;\n        let x = &self.c.x;","        let b3 = self.e.b3.clone();\n        let x = &self.c.x;"),checks=PC)
add('e_arc',EP,("    pub(crate) e: Curve,","    pub(crate) e: std::sync::Arc<Curve>,"),
 (EC,"        let (e, z) = (self.clone(), self.f.one());","        let (e, z) = (std::sync::Arc::new(self.clone()), self.f.one());"),
 (EC,"        let e = self.clone();\n        let pt = Point { e, c };","        let e = std::sync::Arc::new(self.clone());\n        let pt = Point { e, c };"),
 (EC,"        let e = self.clone();\n        let f = e.get_field();","        let e = std::sync::Arc::new(self.clone());\n        let f = e.get_field();"),checks=PC)
add('curve_arc',WC,("            gy: f.from(params.gy),\n            f,\n        }","            gy: FromFactory::from(&f, params.gy),\n            f,\n        }"),checks=PC)
add('order_bigint',WP,("    let r = a.e.r.to_bigint().unwrap();\n    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)","    if b.r.to_biguint().as_ref() != Some(&a.e.r) {\n        panic!(\"{}\", ERR_MUL_OP)\n    }\n    a.core_mul(b)"),checks=PC)
add('s_biguint*',WS,("    pub(super) k: BigInt,","    pub(super) k: BigUint,"),("    pub(super) r: BigInt,","    pub(super) r: BigUint,"),
 ("        let r = r.to_bigint().unwrap();\n        let k = k.mod_floor(&r);\n        Scalar { k, r }","        let k = k.mod_floor(&r.to_bigint().unwrap());\n        let k = k.to_biguint().unwrap();\n        Scalar { k, r: r.clone() }"),
 ("self.k.to_biguint().unwrap().to_bytes_be()","self.k.to_bytes_be()"),
 ("        let k = k.mod_floor(&self.r);\n        let r = self.r.clone();\n        Scalar { k, r }","        Scalar::new(k, &self.r)"),
 ("self.red(self.k.modpow(&exp, &self.r))","self.red(self.k.modpow(&exp, &self.r).into())"),
 ("a.red(&a.k + &b.k)","a.red((&a.k + &b.k).into())"),("a.red(&a.k * &b.k)","a.red((&a.k * &b.k).into())"),
 ("a.red(&a.k - &b.k)","a.red(BigInt::from(a.k.clone()) - BigInt::from(b.k.clone()))"),("a.red(-&a.k)","a.red(-BigInt::from(a.k.clone()))"),
 ("let (_, v) = self.k.to_u32_digits();","let v = self.k.to_u32_digits();"),
 (WP,"    let r = a.e.r.to_bigint().unwrap();\n    do_if_eq!(r == b.r,","    do_if_eq!(a.e.r == b.r,"),(WP,"use num_bigint::ToBigInt;\n",""),checks=SC+['C24'])
add('s_arc_r*',WS,("    pub(super) r: BigInt,","    pub(super) r: std::sync::Arc<BigInt>,"),
 ("        let k = k.mod_floor(&r);\n        Scalar { k, r }","        let k = k.mod_floor(&r);\n        Scalar { k, r: r.into() }"),
 ("        let exp = &self.r - 2u32;","        let exp = self.r.as_ref() - 2u32;"),(WP,"r == b.r","r == *b.r"),checks=SC)
# --- decoding by pattern
add('dec_slicepat',WC,("""        let size = self.f.size_bytes();
        let blen = buf.len();
        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {
            return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
        }
        let tag = buf[0];
        if blen == 1 {
            return match tag {
                0x00 => Ok(self.identity()),
                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
            };
        }
""","""        let size = self.f.size_bytes();
        let (tag, body) = match buf {
            [] => return Err(Error::new(ErrorKind::Other, "Empty input buffer.")),
            [0x00] => return Ok(self.identity()),
            [tag, body @ ..] => (*tag, body),
        };
        if body.len() != size && body.len() != 2 * size {
            return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
        }
"""),checks=['C28','C29','C17'])
add('dec_okor',WC,("        let tag = buf[0];\n","        let tag = *buf.first().ok_or_else(|| Error::from(ErrorKind::UnexpectedEof))?;\n"),checks=['C28','C29','C17'])
add('dec_range',WC,("        if x_val >= p {","        if !(BigInt::zero()..p.clone()).contains(&x_val) {"),checks=['C28','C29','C17'])
add('dec_cmp',WC,("        if x_val >= p {","        if x_val.cmp(&p) != std::cmp::Ordering::Less {"),checks=['C28','C29','C17'])
add('dec_other',WC,("            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));","            return Err(Error::other(\"Invalid x coordinate\"));"),checks=['C28','C29','C17'])
add('dec_filter',WC,("""        let pt = Point { e, c };
        if !self.is_on_curve(&pt) {
            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
        }
        Ok(pt)""","""        Some(Point { e, c })
            .filter(|pt| self.is_on_curve(pt))
            .ok_or_else(|| Error::new(ErrorKind::Other, ERR_ECC_NEW))"""),checks=['C28','C29','C17'])
add('dec_e_chain',EC,("""        let mut y_bytes = buf.to_vec();
        y_bytes[last_byte] &= &127; // clear msb
        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);""","""        let y_bytes: Vec<u8> = buf[..last_byte]
            .iter()
            .copied()
            .chain(std::iter::once(buf[last_byte] & 0x7f))
            .collect();
        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);"""),checks=['C30','C17'])
add('dec_e_setbit',EC,("""        let mut y_bytes = buf.to_vec();
        y_bytes[last_byte] &= &127; // clear msb
        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);""","""        let mut y_zz = BigInt::from_bytes_le(Sign::Plus, buf);
        y_zz.set_bit(8 * size as u64 - 1, false);"""),checks=['C30','C17'])
add('enc_e_sign',EP,("        enc[last] |= x_0;","        if x_0 != 0 {\n            enc[last] += 0x80;\n        }"),checks=['C30','C17'])
add('enc_e_xor',EP,("        enc[last] |= x_0;","        *enc.last_mut().unwrap() ^= x_0;"),checks=['C30','C17'])
add('enc_e_pop',EP,("        let last = enc.len() - 1;\n        enc[last] |= x_0;\n        enc","        let top = enc.pop().unwrap();\n        enc.push(top | x_0);\n        enc"),checks=['C30','C17'])
# --- the two isogenies share one evaluation
add('iso_shared',R,("struct Isosecp256k1 {","""/// Evaluates num/den at x by Horner's rule; None where the denominator vanishes.
fn quotient(num: &[FpElt], den: &[FpElt], x: &FpElt) -> Option<FpElt> {
    let mut n = num[num.len() - 1].clone();
    let mut d = den[den.len() - 1].clone();
    for i in (0..num.len() - 1).rev() {
        n = n * x + &num[i];
        d = d * x + &den[i];
    }
    if d.is_zero() {
        None
    } else {
        Some(n / d)
    }
}

struct Isosecp256k1 {"""),
 ("""        let f = self.e0.get_field();
        let x = p.c.x;
        let y = p.c.y;
        let mut x_num = f.zero();
        let mut x_den = f.zero();
        let mut y_num = f.zero();
        let mut y_den = f.zero();

        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }
        if x_den.is_zero() {
            return self.e1.identity();
        }
        let xx = x_num / x_den;
        let yy = y * (y_num / y_den);
        self.e1.new_point(xx, yy)
""","""        let (x, y) = (p.c.x, p.c.y);
        match (
            quotient(&self.x_num, &self.x_den, &x),
            quotient(&self.y_num, &self.y_den, &x),
        ) {
            (Some(xx), Some(v)) => self.e1.new_point(xx, y * v),
            _ => self.e1.identity(),
        }
"""),
 ("""        let f = self.e0.get_field();
        let x = p.c.x;
        let y = p.c.y;
        let mut x_num = f.zero();
        let mut x_den = f.zero();
        let mut y_num = f.zero();
        let mut y_den = f.zero();

        for i in (0..self.x_num.len()).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
        }
        for i in (0..self.y_num.len()).rev() {
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }

        if x_den.is_zero() {
            return self.e1.identity();
        }
        let xx = x_num / x_den;
        let yy = y * (y_num / y_den);
        self.e1.new_point(xx, yy)
""","""        let (x, y) = (p.c.x, p.c.y);
        let xx = match quotient(&self.x_num, &self.x_den, &x) {
            None => return self.e1.identity(),
            Some(xx) => xx,
        };
        match quotient(&self.y_num, &self.y_den, &x) {
            None => self.e1.identity(),
            Some(v) => self.e1.new_point(xx, y * v),
        }
"""),checks=['C38','C17','C31','C41'])
add('iso_powers',R,("""        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }
""","""        let mut xi = f.one();
        for (((a, b), c), d) in self
            .x_num
            .iter()
            .zip(&self.x_den)
            .zip(&self.y_num)
            .zip(&self.y_den)
        {
            x_num = x_num + &(a * &xi);
            x_den = x_den + &(b * &xi);
            y_num = y_num + &(c * &xi);
            y_den = y_den + &(d * &xi);
            xi = xi * &x;
        }
"""),checks=['C38','C17','C31','C41'])
add('iso_monic',R,("            f.one(),\n            f.zero(),\n        ],\n        y_num: vec![\n            f.from(\"0x4bda","            f.one(),\n        ],\n        y_num: vec![\n            f.from(\"0x4bda"),("""        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
            y_num""","""        for c in self.x_den.iter().rev() {
            x_den = x_den * &x + c;
        }
        for i in (0..4).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            y_num"""),checks=['C38','C17','C31','C41'])
# --- maps written the plain way
add('sv_find',SV,("""        let mut x = cmov(&x3, &x1, e1); //  27.   x = CMOV(x3, x1, e1)      // x = x1 if gx1 is square, else x = x3
        x = cmov(&x, &x2, e2); //           28.   x = CMOV(x, x2, e2)       // x = x2 if gx2 is square and gx1 is not
""","""        let x = [(&x1, e1), (&x2, e2)]
            .iter()
            .find(|(_, ok)| *ok)
            .map(|(x, _)| (*x).clone())
            .unwrap_or(x3);
"""),checks=MCK)
add('sv_closure_g',SV,("        let mut gx1 = &x1 ^ 2u32; //        11. gx1 = x1^2\n        gx1 = gx1 + &self.e.a; //           12. gx1 = gx1 + A\n        gx1 = gx1 * &x1; //                 13. gx1 = gx1 * x1\n        gx1 = gx1 + &self.e.b; //           14. gx1 = gx1 + B\n        let e1 = gx1.is_square();","        let square_at = |x: &FpElt| SVDW::gx(&self.e, x).is_square();\n        let e1 = square_at(&x1);"),
 ("        let mut gx2 = &x2 ^ 2u32; //        17. gx2 = x2^2\n        gx2 = gx2 + &self.e.a; //           18. gx2 = gx2 + A\n        gx2 = gx2 * &x2; //                 19. gx2 = gx2 * x2\n        gx2 = gx2 + &self.e.b; //           20. gx2 = gx2 + B\n        let e2 = gx2.is_square() && !e1;","        let e2 = !e1 && square_at(&x2);"),checks=MCK)
add('sv_verify_all',SV,("        cond1 && cond2 && cond3 && (cond4a || cond4b)","        [cond1, cond2, cond3, cond4a | cond4b].iter().all(|c| *c)"),checks=MCK)
add('sv_from_elt',SV,("            let (f2, f3, f4) = (f.from(2u32), f.from(3u32), f.from(4u32));\n            let gz","            let f2 = f.one() + f.one();\n            let f3 = &f2 + f.one();\n            let f4 = &f2 * &f2;\n            let gz"),checks=MCK)
add('ss_options',SS,("        let e1 = x1.is_zero(); //         5.   e1 = x1 == 0\n        x1 = x1 + f.one(); //             6.   x1 = x1 + 1\n        x1 = cmov(&x1, &self.c2, e1); //  7.   x1 = CMOV(x1, c2, e1)","        x1 = match x1.is_zero() {\n            true => self.c2.clone(),\n            false => x1 + f.one(),\n        };"),checks=MCK)
add('ss_generic_sign',F,("pub trait CMov: Clone {","/// Gives y the sign of u.\npub fn with_sign_of<T>(u: &T, y: T) -> T\nwhere\n    T: Sgn0 + std::ops::Neg<Output = T>,\n{\n    if u.sgn0() == y.sgn0() {\n        y\n    } else {\n        -y\n    }\n}\n\npub trait CMov: Clone {"),
 (SS,"        let e3 = u.sgn0() == y.sgn0();","        let y = crate::field::with_sign_of(u, y);\n        #[cfg(any())]\n        let e3 = u.sgn0() == y.sgn0();"),checks=MCK)
M.pop()
add('ell2_lets',ME,("        let e1 = t1 == f.from(-1);","        let e1 = (&t1 + f.one()).is_zero();"),("        x = x * &self.e.b;\n        y = y * &self.e.b;\n        self.e.new_point(x, y)","        let scale = |v: FpElt| v * &self.e.b;\n        self.e.new_point(scale(x), scale(y))"),checks=MCK)
add('ell2_b1',ME,("        x = x * &self.e.b;\n        y = y * &self.e.b;\n        self.e.new_point(x, y)","        if self.e.b != f.one() {\n            x = x * &self.e.b;\n            y = y * &self.e.b;\n        }\n        self.e.new_point(x, y)"),checks=MCK)
# --- instances
add('ids_table',W,("static P256_PARAMS: &Params = &Params {","static P256_PARAMS: &Params = &SMALL[0];\nstatic P384_PARAMS: &Params = &SMALL[1];\nstatic SMALL: [Params; 2] = [Params {"),("};\nstatic P384_PARAMS: &Params = &Params {","}, Params {"),("};\nstatic P521_PARAMS","}];\nstatic P521_PARAMS"),checks=['C39','C40','C42'])
add('get_match',W,("        Curve::from(self.0)","        let id = *self;\n        match id {\n            WeCurveID(params) => params.into(),\n        }"),checks=['C39','C40','C42'])
