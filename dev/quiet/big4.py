# refactorings, fourth list: combinator chains, generic helpers taking closures, macros, labelled loops, mem::replace, fixed arrays
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'; F='src/field.rs'; O='src/ops.rs'; E='src/ellipticcurve.rs'
WP='src/weierstrass/point.rs'; WC='src/weierstrass/curve.rs'; WS='src/weierstrass/scalar.rs'
EP='src/edwards/point.rs'; EC='src/edwards/curve.rs'; ES='src/edwards/scalar.rs'; EE='src/edwards/elligator2.rs'
MP='src/montgomery/point.rs'; MC='src/montgomery/curve.rs'; MS='src/montgomery/scalar.rs'; ME='src/montgomery/elligator2.rs'
SS='src/weierstrass/sswu.rs'; SA='src/weierstrass/sswuab0.rs'; SV='src/weierstrass/svdw.rs'; R='src/instances/rational_maps.rs'; W='src/instances/weier.rs'
M=[]
FC='C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C13 C14 C15 C16 C41 C42'.split()
QC='C02 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C41 C42'.split()
PC='C02 C15 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C36 C41 C42'.split()
SC='C02 C15 C17 C18 C19 C25 C41 C42'.split()
MCK='C31 C32 C33 C34 C35 C41'.split()
RC='C36 C37 C38 C34 C41'.split()
DC='C21 C28 C29 C30 C17 C42'.split()
def add(name,f,*eds,checks): M.append((name,f,list(eds),list(checks),'q'))
NEXT="""        if self.i < self.l {
            let bit = self.v[self.i / 32usize] >> (self.i % 32);
            let b = (bit & 1) != 0;
            if self.is_lr {
                let (x, _) = self.i.overflowing_sub(1usize);
                self.i = x
            } else {
                self.i += 1usize
            }
            Some(b)
        } else {
            None
        }"""
for t,f in (('w',WS),('m',MS),('e',ES)):
    add('s_next_then_'+t,f,(NEXT,"""        (self.i < self.l).then(|| {
            let b = (self.v[self.i / 32] >> (self.i % 32)) & 1 == 1;
            self.i = if self.is_lr {
                self.i.wrapping_sub(1)
            } else {
                self.i + 1
            };
            b
        })"""),checks=SC)
    add('s_next_replace_'+t,f,(NEXT,"""        if self.i >= self.l {
            return None;
        }
        let following = if self.is_lr { self.i.wrapping_sub(1) } else { self.i + 1 };
        let i = std::mem::replace(&mut self.i, following);
        Some((self.v[i / 32] >> (i % 32)) & 1 != 0)"""),checks=SC)
    add('s_next_getmap_'+t,f,(NEXT,"""        if self.i >= self.l {
            return None;
        }
        let r = self.v.get(self.i / 32).map(|w| (w >> (self.i % 32)) & 1 != 0);
        self.i = if self.is_lr { self.i.wrapping_sub(1) } else { self.i.wrapping_add(1) };
        r"""),checks=SC)
    add('s_next_isize_'+t,f,("    i: usize,\n","    i: isize,\n"),("        let i = l.wrapping_sub(1usize);","        let i = l as isize - 1;"),("        let i = 0usize;","        let i = 0isize;"),(NEXT,"""        if self.i < 0 || self.i as usize >= self.l {
            return None;
        }
        let (word, bit) = (self.i as usize / 32, self.i as usize % 32);
        self.i += if self.is_lr { -1 } else { 1 };
        Some((self.v[word] >> bit) & 1 == 1)"""),checks=SC)
    add('s_checked_op_'+t,f,("impl Scalar {\n    #[inline]\n    fn red","impl Scalar {\n    fn zip_with<Op: FnOnce(&BigInt, &BigInt) -> BigInt>(&self, o: &Scalar, op: Op) -> Scalar {\n        if self.r != o.r {\n            panic!(\"{}\", ERR_BIN_OP);\n        }\n        self.red(op(&self.k, &o.k))\n    }\n    #[inline]\n    fn red"),
        ("    do_if_eq!(a.r == b.r, a.red(&a.k + &b.k), ERR_BIN_OP)","    a.zip_with(b, |x, y| x + y)"),("    do_if_eq!(a.r == b.r, a.red(&a.k - &b.k), ERR_BIN_OP)","    a.zip_with(b, |x, y| x - y)"),("    do_if_eq!(a.r == b.r, a.red(&a.k * &b.k), ERR_BIN_OP)","    a.zip_with(b, |x, y| x * y)"),checks=SC)
    add('s_bytes_splice_'+t,f,("""        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out""","""        while bytes.len() < field_len {
            bytes.insert(0, 0);
        }
        bytes"""),checks=SC)
    add('s_bytes_iter_'+t,f,("""        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out""","""        bytes.reverse();
        let missing = field_len - bytes.len();
        bytes.extend(std::iter::repeat(0).take(missing));
        bytes.into_iter().rev().collect()"""),checks=SC)
    add('s_inv_match_'+t,f,("        do_if_eq!(self == 1u32, other.inv_mod(), ERR_INV_OP)","        match self {\n            1 => other.inv_mod(),\n            _ => panic!(\"{}\", ERR_INV_OP),\n        }"),checks=SC)
    add('s_new_assign_'+t,f,("        let r = r.to_bigint().unwrap();\n        let k = k.mod_floor(&r);\n        Scalar { k, r }","        let r = BigInt::from(r.clone());\n        let mut k = k % &r;\n        if k.sign() == num_bigint::Sign::Minus {\n            k += &r;\n        }\n        Scalar { k, r }"),checks=SC)
# prime field
add('fp_new_from',PF,("            p: modulus.to_bigint().unwrap(),","            p: BigInt::from(modulus),"),checks=FC)
add('fp_consts',PF,("        self.elt(BigInt::zero())","        FpElt {\n            n: BigInt::zero(),\n            f: self.clone(),\n        }"),checks=FC)
add('fp_size_divceil',PF,("        (self.0.p.bits() as usize + 7) / 8","        (self.0.p.bits() as usize).div_ceil(8)"),checks=FC+['C28','C30'])
add('fp_str_bytes',PF,("        let radix = if sl.len() > 1 {\n            match &sl[0..2] {","        let radix = if sl.len() >= 2 {\n            let (prefix, _) = sl.split_at(2);\n            match prefix {"),checks=FC+['C39'])
add('fp_str_neg_after',PF,("        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())","        let magnitude = BigInt::parse_bytes(sl.as_bytes(), radix).unwrap();\n        self.elt(if neg < 0 { -magnitude } else { magnitude })"),checks=FC+['C39'])
add('fp_str_elt_neg',PF,("        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())","        let value = self.elt(BigInt::parse_bytes(sl.as_bytes(), radix).expect(\"malformed number\"));\n        if neg == -1 {\n            -value\n        } else {\n            value\n        }"),checks=FC+['C39'])
add('fp_str_radix_fromstr',PF,("BigInt::parse_bytes(sl.as_bytes(), radix).unwrap()","<BigInt as num_traits::Num>::from_str_radix(sl, radix).unwrap()"),checks=FC+['C39'])
add('fp_precmp_arr',PF,("        } else if 9u32 == (res % 16u32) {\n            SqrtPrecmp::P9MOD16\n        } else {\n            SqrtPrecmp::P1MOD16\n        }","        } else {\n            [SqrtPrecmp::P1MOD16, SqrtPrecmp::P9MOD16][(res == 9) as usize].clone()\n        }"),checks=FC)
add('fp_precmp_reuse',PF,("            let t = &(self.one() + self.one()) ^ &k; // t = 2^k","            let two = self.elt(2.into());\n            let t = two.n.modpow(&k, p);\n            let t = self.elt(t);"),checks=FC)
add('fp_precmp_direct',PF,("            let t = &(self.one() + self.one()) ^ &k; // t = 2^k\n            let mut t0 = &t ^ 2u32; //  t^2\n            t0 = &t0 + &t0; //          2t^2\n            t0 = t0 + self.one(); //       2t^2+1\n            t0 = t0 * t; //             t(2t^2+1)\n            let exp = k + 1;\n            let sqrt_minus_one = t0.n;","            let t = BigInt::from(2).modpow(&k, p); // t = 2^k\n            let exp = k + 1;\n            let sqrt_minus_one = (&t * (BigInt::from(2) * &t * &t + 1)) % p;"),checks=FC)
add('fp_sqrt_unrolled',PF,("                let t0 = self ^ &exp;\n                let t1 = &t0 ^ 2u32;\n                let e = *self == t1;\n                let t1 = &t0 * self.f.elt(sqrt_minus_one);\n                FpElt::cmov(&t1, &t0, e)","                let candidate = self ^ &exp;\n                if &candidate * &candidate == *self {\n                    return candidate;\n                }\n                candidate * self.red(sqrt_minus_one)"),checks=FC)
add('fp_sqrt_array',PF,("                let t1 = &t0 ^ 2u32;\n                let e = *self == t1;\n                let t1 = &t0 * self.f.elt(sqrt_minus_one);\n                FpElt::cmov(&t1, &t0, e)","                let other = &t0 * self.f.elt(sqrt_minus_one);\n                let candidates = [t0, other];\n                let first = candidates[0].clone() * &candidates[0] == *self;\n                candidates[if first { 0 } else { 1 }].clone()"),checks=FC)
add('fp_sqrt_find',PF,("                let t1 = &t0 ^ 2u32;\n                let e = *self == t1;\n                let t1 = &t0 * self.f.elt(sqrt_minus_one);\n                FpElt::cmov(&t1, &t0, e)","                let t1 = &t0 * self.f.elt(sqrt_minus_one);\n                [&t0]\n                    .into_iter()\n                    .find(|t| (*t * *t) == *self)\n                    .unwrap_or(&t1)\n                    .clone()"),checks=FC)
add('fp_issq_ord',PF,("        let res: FpElt = self ^ &p_minus_1_div_2;\n        res.is_one() || res.is_zero()","        let symbol = self.n.modpow(&p_minus_1_div_2, &self.f.0.p);\n        symbol <= BigInt::one()"),checks=FC)
add('fp_issq_not',PF,("        res.is_one() || res.is_zero()","        res != -self.f.one()"),checks=FC)
add('fp_inv_pow',PF,("        let p_minus_2 = &self.f.0.p - 2u32;\n        self ^ &p_minus_2","        let p = &self.f.0.p;\n        FpElt {\n            n: self.n.modpow(&(p - BigInt::from(2)), p),\n            f: self.f.clone(),\n        }"),checks=FC)
add('fp_ops_macro',PF,("impl_op_ex!(-|a: FpElt, b: &FpElt| -> FpElt {\n    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)\n});" if False else "impl_op_ex!(-|a: &FpElt, b: &FpElt| -> FpElt {\n    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)\n});\nimpl_op_ex!(*|a: &FpElt, b: &FpElt| -> FpElt {\n    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)\n});","macro_rules! field_op {\n    ($op:tt) => {\n        impl_op_ex!($op |a: &FpElt, b: &FpElt| -> FpElt {\n            if a.f != b.f {\n                panic!(\"{}\", ERR_BIN_OP);\n            }\n            a.red(&a.n $op &b.n)\n        });\n    };\n}\nfield_op!(-);\nfield_op!(*);"),checks=FC)
add('fp_cow',PF,("        let n = n.mod_floor(&self.f.0.p);\n        let f = self.f.clone();\n        FpElt { n, f }","        let p = &self.f.0.p;\n        let mut n = n;\n        if n.sign() == num_bigint::Sign::Minus || &n >= p {\n            n = n.mod_floor(p);\n        }\n        FpElt { n, f: self.f.clone() }"),checks=FC)
add('fp_add_cond',PF,("impl_op_ex!(-|a: &FpElt| -> FpElt { a.red(-&a.n) });","impl_op_ex!(-|a: &FpElt| -> FpElt { a.f.zero() - a });"),checks=FC)
add('fp_cmov_arr',F,("        if b {\n            y.clone()\n        } else {\n            x.clone()\n        }","        [x, y][usize::from(b)].clone()"),checks=FC+MCK)
add('fp_cmov_ref',F,("        if b {\n            y.clone()\n        } else {\n            x.clone()\n        }","        let mut out = x.clone();\n        if b {\n            out.clone_from(y);\n        }\n        out"),checks=FC+MCK)
add('fp_disp_plain',PF,("        let x = self.n.mod_floor(&self.f.0.p);\n        write!(f, \"{}\", x)","        std::fmt::Display::fmt(&self.n, f)"),checks=['C42'])
add('fp_disp_str',PF,("        let x = self.n.mod_floor(&self.f.0.p);\n        write!(f, \"{}\", x)","        f.write_str(&self.n.to_string())"),checks=['C42'])
add('fp_frombytes_plus',PF,("        let n = BigUint::from_bytes_be(bytes);\n        Ok(self.elt(n.to_bigint().unwrap()))","        Ok(BigInt::from_bytes_be(num_bigint::Sign::Plus, bytes)).map(|n| self.elt(n))"),checks=['C06','C28','C12'])
# quadratic field
add('q_bytes_concat',QF,("        let mut out = Vec::new();\n        for x in self.n.iter() {\n            out.append(&mut x.to_bytes_le())\n        }\n        out","        let parts: Vec<Vec<u8>> = self.n.iter().map(|x| x.to_bytes_le()).collect();\n        parts.concat()"),checks=QC)
add('q_bytes_cap',QF,("        let mut out = Vec::new();\n        for x in self.n.iter() {\n            out.append(&mut x.to_bytes_le())\n        }\n        out","        let mut out = Vec::with_capacity(self.f.size_bytes());\n        self.n.iter().for_each(|x| out.extend(x.to_bytes_le()));\n        out"),checks=QC)
add('q_inv_conj',QF,("        let den = 1u32 / &(n0 * n0 + n1 * n1);\n        self.elt(&den * n0, -(den * n1))","        let norm = (n0 ^ 2u32) + (n1 ^ 2u32);\n        let (re, im) = (n0 / &norm, -n1 / norm);\n        self.elt(re, im)"),checks=QC)
add('q_add_zip',QF,("    do_if_eq!(a.f == b.f, a.elt(&a.n[0] + &b.n[0], &a.n[1] + &b.n[1]), ERR_BIN_OP)","    if a.f != b.f {\n        panic!(\"{}\", ERR_BIN_OP);\n    }\n    let n: Vec<FpElt> = a.n.iter().zip(b.n.iter()).map(|(x, y)| x + y).collect();\n    Fp2Elt { n, f: b.f.clone() }"),checks=QC)
add('q_zero_all',QF,("        self.n[0].is_zero() && self.n[1].is_zero()","        self.n.iter().all(|x| x.is_zero())"),checks=QC)
add('q_sgn_find',QF,("        if self.n[0].is_zero() {\n            self.n[1].sgn0()\n        } else {\n            self.n[0].sgn0()\n        }","        self.n\n            .iter()\n            .find(|x| !x.is_zero())\n            .map_or(1, |x| x.sgn0())"),checks=QC)
add('q_sgn_idx',QF,("        if self.n[0].is_zero() {\n            self.n[1].sgn0()\n        } else {\n            self.n[0].sgn0()\n        }","        let leading = self.n[0].is_zero() as usize;\n        self.n[leading].sgn0()"),checks=QC)
add('q_sqrt_neg1',QF,("                if t.is_zero() {\n                    let i","                if alpha == -self.f.one() {\n                    let i"),checks=['C11'])
add('q_neg_map',QF,("impl_op_ex!(-|a: &Fp2Elt| -> Fp2Elt { a.elt(-&a.n[0], -&a.n[1]) });","impl_op_ex!(-|a: &Fp2Elt| -> Fp2Elt {\n    Fp2Elt {\n        n: a.n.iter().map(|x| -x).collect(),\n        f: a.f.clone(),\n    }\n});"),checks=QC)
# curves
for t,f in (('w',WC),('m',MC)):
    add('d_ranges_'+t,f,("        if x_val >= p {\n            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));\n        }","        if !(BigInt::from(0)..p.clone()).contains(&x_val) {\n            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));\n        }"),checks=DC)
    add('d_coord_fn_'+t,f,("impl Decode for Curve {","/// Reads a canonical field element.\nfn coordinate(f: &Fp, bytes: &[u8], what: &str) -> Result<FpElt, Error> {\n    let n = BigInt::from_bytes_be(Sign::Plus, bytes);\n    if n < f.get_modulus() {\n        Ok(f.elt(n))\n    } else {\n        Err(Error::new(ErrorKind::Other, format!(\"Invalid {} coordinate\", what)))\n    }\n}\n\nimpl Decode for Curve {"),
        ("        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);\n        let p = self.f.get_modulus();\n        if x_val >= p {\n            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));\n        }\n","        let x = coordinate(&self.f, &buf[1..size + 1], \"x\")?;\n"),
        ("                let x = self.f.elt(x_val);\n                let y_val = BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..]);\n                if y_val >= p {\n                    return Err(Error::new(ErrorKind::Other, \"Invalid y coordinate\"));\n                }\n                let y = self.f.elt(y_val);\n","                let y = coordinate(&self.f, &buf[size + 1..], \"y\")?;\n"),
        ("                let x = self.f.elt(x_val);\n","") ,checks=DC)
    add('d_matchlen_'+t,f,("        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {\n            return Err","        let known = [1, size + 1, 2 * size + 1];\n        if !known.contains(&blen) {\n            return Err"),checks=DC)
    add('d_anylen_'+t,f,("        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {\n            return Err","        if (0..=2).all(|n| blen != n * size + 1) {\n            return Err"),checks=DC)
    add('d_errfn_'+t,f,("impl Decode for Curve {","fn invalid(msg: &'static str) -> Error {\n    Error::new(ErrorKind::Other, msg)\n}\n\nimpl Decode for Curve {"),("            return Err(Error::new(ErrorKind::Other, \"Wrong input buffer size.\"));","            return Err(invalid(\"Wrong input buffer size.\"));"),("            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));","            return Err(invalid(\"Invalid x coordinate\"));"),checks=DC)
    add('d_boolthen_'+t,f,("            return match tag {\n                0x00 => Ok(self.identity()),\n                _ => Err(Error::new(ErrorKind::Other, \"Invalid tag specified\")),\n            };","            return (tag == 0)\n                .then(|| self.identity())\n                .ok_or_else(|| Error::new(ErrorKind::Other, \"Invalid tag specified\"));"),checks=DC)
    add('d_signmap_'+t,f,("                let mut y = y_sqrt;\n                if tag != deser_tag {\n                    if y.is_zero() {\n                        return Err(Error::new(ErrorKind::Other, \"Invalid tag specified\"));\n                    }\n                    y = -y;\n                }\n                self.decoded_point(x, y)","                let y = match (tag == deser_tag, y_sqrt.is_zero()) {\n                    (true, _) => y_sqrt,\n                    (false, false) => -y_sqrt,\n                    (false, true) => {\n                        return Err(Error::new(ErrorKind::Other, \"Invalid tag specified\"))\n                    }\n                };\n                self.decoded_point(x, y)"),checks=DC)
add('d_gx_fn',WC,("                let xx = &x * &x;\n                let xx_a = &xx + &self.a;\n                let xxx_ax = &xx_a * &x;\n                let xxx_ax_b = &xxx_ax + &self.b;\n                let y_sqrt = xxx_ax_b.sqrt();","                // Horner's rule on [1, 0, a, b]\n                let coeffs = [self.f.one(), self.f.zero(), self.a.clone(), self.b.clone()];\n                let gx = coeffs.iter().fold(self.f.zero(), |acc, c| acc * &x + c);\n                let y_sqrt = gx.sqrt();"),checks=DC)
add('c_on_horner',WC,("        let x3 = &p.x * &(&p.x ^ 2u32);\n        let bz = &self.b * &p.z;\n        let ax = &self.a * &p.x;\n        let zz = &p.z * &(ax + &bz);\n        let zy = &p.z * &(zz - &(&p.y ^ 2u32));\n        let eq = x3 + &zy;\n        eq.is_zero()","        let ProyCoordinates { x, y, z } = p;\n        let z2 = z * z;\n        let terms = [x * x * x, &self.a * x * &z2, &self.b * z * &z2];\n        let rhs = terms.into_iter().fold(self.f.zero(), |s, t| s + t);\n        y * y * z == rhs"),checks=PC)
add('c_params_parse',WC,("        let f = Fp::new(BigUint::from_str(params.p).unwrap());\n        Curve {\n            a: f.from(params.a),\n            b: f.from(params.b),\n            r: BigUint::from_str(params.r).unwrap(),\n            h: BigUint::from_str(params.h).unwrap(),\n            gx: f.from(params.gx),\n            gy: f.from(params.gy),\n            f,\n        }","        let int = |s: &str| s.parse::<BigUint>().expect(\"malformed parameter\");\n        let f = Fp::new(int(params.p));\n        let elt = |s: &str| -> FpElt { f.from(s) };\n        let (a, b, gx, gy) = (elt(params.a), elt(params.b), elt(params.gx), elt(params.gy));\n        let (r, h) = (int(params.r), int(params.h));\n        Curve { f, a, b, r, gx, gy, h }"),checks=['C39','C40','C35'])
# points
MUL={'w':"""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = q.core_doubling();
            if ki {
                q = q + self;
            }
        }
        q
""",'m':"""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q
"""}
MUL['e']=MUL['m']
for t,f in (('w',WP),('m',MP),('e',EP)):
    add('p_mul_filter_'+t,f,(MUL[t],"""        // right to left: add the doublings selected by the bits
        let mut power = self.clone();
        let mut sum = self.e.identity();
        for bit in k.iter_rl() {
            if bit {
                sum = sum + &power;
            }
            power = &power + &power;
        }
        sum
"""),checks=['C25','C02','C26'])
    add('p_mul_swap_'+t,f,(MUL[t],"""        let (mut r0, mut r1) = (self.e.identity(), self.clone());
        for ki in k.iter_lr() {
            if ki {
                std::mem::swap(&mut r0, &mut r1);
            }
            r1 = &r0 + &r1;
            r0 = &r0 + &r0;
            if ki {
                std::mem::swap(&mut r0, &mut r1);
            }
        }
        r0
"""),checks=['C25','C02','C26'])
    add('p_mul_table_'+t,f,(MUL[t],"""        let table = [self.e.identity(), self.clone()];
        k.iter_lr()
            .fold(self.e.identity(), |q, ki| &q + &q + &table[ki as usize])
"""),checks=['C25','C02','C26'])
    add('p_mul_foreach_'+t,f,(MUL[t],"""        let mut q = self.e.identity();
        k.iter_lr().for_each(|ki| {
            let twice = &q + &q;
            q = if ki { twice + self } else { twice };
        });
        q
"""),checks=['C25','C02','C26'])
    add('p_mul_skip_'+t,f,(MUL[t],"""        let mut bits = k.iter_lr();
        // the leading bit is one
        let mut q = match bits.next() {
            None => return self.e.identity(),
            Some(_) => self.clone(),
        };
        for ki in bits {
            q = &q + &q;
            if ki {
                q = &q + self;
            }
        }
        q
"""),checks=['C25','C02','C26'])
    add('p_eq_all_'+t,f,("        let x1z2 = &self.c.x * &other.c.z;\n        let z1x2 = &self.c.z * &other.c.x;\n        let y1z2 = &self.c.y * &other.c.z;\n        let z1y2 = &self.c.z * &other.c.y;\n        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2","        let (p, q) = (&self.c, &other.c);\n        [(&p.x, &q.x), (&p.y, &q.y)]\n            .iter()\n            .all(|(a, b)| *a * &q.z == *b * &p.z)"),checks=['C26','C02','C25'])
    add('p_norm_scale_'+t,f,("        let inv_z = 1u32 / &self.c.z;\n        self.c.x = &self.c.x * &inv_z;\n        self.c.y = &self.c.y * &inv_z;","        let inv_z = 1u32 / &self.c.z;\n        for v in [&mut self.c.x, &mut self.c.y] {\n            *v = &*v * &inv_z;\n        }"),checks=['C27','C28','C29','C30'])
    add('p_norm_div_'+t,f,("        let inv_z = 1u32 / &self.c.z;\n        self.c.x = &self.c.x * &inv_z;\n        self.c.y = &self.c.y * &inv_z;","        self.c.x = &self.c.x / &self.c.z;\n        self.c.y = &self.c.y / &self.c.z;"),checks=['C27','C28','C29','C30'])
    add('p_norm_one_'+t,f,("    pub fn normalize(&mut self) {\n","    pub fn normalize(&mut self) {\n        if self.c.z.is_one() {\n            return;\n        }\n"),checks=['C27','C28','C29','C30'])
    add('p_muls_'+t,f,("    let r = a.e.r.to_bigint().unwrap();\n    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)","    if b.r == num_bigint::BigInt::from(a.e.get_order()) {\n        a.core_mul(b)\n    } else {\n        panic!(\"{}\", ERR_MUL_OP)\n    }"),checks=['C25','C02','C26'])
# maps
add('m_gx_closure',SV,("        let mut gx1 = &x1 ^ 2u32; //        11. gx1 = x1^2\n        gx1 = gx1 + &self.e.a; //           12. gx1 = gx1 + A\n        gx1 = gx1 * &x1; //                 13. gx1 = gx1 * x1\n        gx1 = gx1 + &self.e.b; //           14. gx1 = gx1 + B\n","        let g = |x: &FpElt| SVDW::gx(&self.e, x);\n        let gx1 = g(&x1);\n"),("        let mut gx2 = &x2 ^ 2u32; //        17. gx2 = x2^2\n        gx2 = gx2 + &self.e.a; //           18. gx2 = gx2 + A\n        gx2 = gx2 * &x2; //                 19. gx2 = gx2 * x2\n        gx2 = gx2 + &self.e.b; //           20. gx2 = gx2 + B\n","        let gx2 = g(&x2);\n"),checks=MCK)
add('m_ss_iflet',SS,("        let x = cmov(&x2, &x1, e2); //    17.   x = CMOV(x2, x1, e2)\n        let y2 = cmov(&gx2, &gx1, e2); // 18.  y2 = CMOV(gx2, gx1, e2)\n        let mut y = y2.sqrt(); //         19.   y = sqrt(y2)\n","        let (x, y2) = if e2 { (x1, gx1) } else { (x2, gx2) };\n        let mut y = y2.sqrt(); //         19.   y = sqrt(y2)\n"),checks=MCK)
add('m_ss_signmul',SS,("        let e3 = u.sgn0() == y.sgn0(); // 20.  e3 = sgn0(u) == sgn0(y)\n        y = cmov(&(-&y), &y, e3); //      21.   y = CMOV(-y, y, e3)\n","        let sign = u.sgn0() * y.sgn0();\n        if sign < 0 {\n            y = -y;\n        }\n"),checks=MCK)
add('m_ss_signfrom',SS,("        let e3 = u.sgn0() == y.sgn0(); // 20.  e3 = sgn0(u) == sgn0(y)\n        y = cmov(&(-&y), &y, e3); //      21.   y = CMOV(-y, y, e3)\n","        let sign: FpElt = f.from(u.sgn0() * y.sgn0());\n        y = y * sign;\n"),checks=MCK)
add('m_ell_xor',ME,("        y = cmov(&(-&y), &y, e2 ^ e3);","        y = if e2 != e3 { y } else { -y };"),checks=MCK)
add('m_ell_match',ME,("        let e3 = y.sgn0() == 1; //         18.  e3 = sgn0(y) == 1        // Fix sign of y\n        y = cmov(&(-&y), &y, e2 ^ e3);","        y = match (e2, y.sgn0()) {\n            (true, -1) | (false, 1) => y,\n            _ => -y,\n        };"),checks=MCK)
add('m_verify_arr',SS,("        precond1 && precond2 && cond1 && cond2 && cond4","        [precond1, precond2, cond1, cond2, cond4].iter().all(|&c| c)"),checks=MCK)
add('m_iso_fold',R,("        let mut x_num = f.zero();\n        let mut x_den = f.zero();\n        let mut y_num = f.zero();\n        let mut y_den = f.zero();\n\n        for i in (0..4).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n            y_num = (y_num * &x) + &self.y_num[i];\n            y_den = (y_den * &x) + &self.y_den[i];\n        }\n","        let eval = |poly: &Vec<FpElt>| {\n            let mut acc = f.zero();\n            for c in poly.iter().rev() {\n                acc = acc * &x + c;\n            }\n            acc\n        };\n        let [x_num, x_den, y_num, y_den] = [&self.x_num, &self.x_den, &self.y_num, &self.y_den].map(eval);\n"),checks=RC)
add('m_iso_powers',R,("        let mut x_num = f.zero();\n        let mut x_den = f.zero();\n        let mut y_num = f.zero();\n        let mut y_den = f.zero();\n\n        for i in (0..4).rev() {\n            x_num = (x_num * &x) + &self.x_num[i];\n            x_den = (x_den * &x) + &self.x_den[i];\n            y_num = (y_num * &x) + &self.y_num[i];\n            y_den = (y_den * &x) + &self.y_den[i];\n        }\n","        let mut x_num = f.zero();\n        let mut x_den = f.zero();\n        let mut y_num = f.zero();\n        let mut y_den = f.zero();\n        let mut power = f.one();\n        for i in 0..4 {\n            x_num = x_num + &power * &self.x_num[i];\n            x_den = x_den + &power * &self.x_den[i];\n            y_num = y_num + &power * &self.y_num[i];\n            y_den = y_den + &power * &self.y_den[i];\n            power = &power * &x;\n        }\n"),checks=RC)
add('m_iso_affine',R,("        let xx = x_num / x_den;\n        let yy = y * (y_num / y_den);\n        self.e1.new_point(xx, yy)","        // a single inversion\n        let inv = 1u32 / &(&x_den * &y_den);\n        let xx = x_num * &y_den * &inv;\n        let yy = y * y_num * x_den * inv;\n        self.e1.new_point(xx, yy)"),checks=RC)
add('m_push_match',R,("        if p.is_zero() {\n            self.e1.identity()\n        } else if p.c.x.is_zero() {\n            // (0,-1), the point of order two.\n            let ff = self.e1.get_field();\n            self.e1.new_point(ff.zero(), ff.zero())\n        } else {","        if p.c.x.is_zero() {\n            if p.is_zero() {\n                return self.e1.identity();\n            }\n            // (0,-1), the point of order two.\n            let zero = self.e1.get_field().zero();\n            self.e1.new_point(zero.clone(), zero)\n        } else {"),checks=RC)
