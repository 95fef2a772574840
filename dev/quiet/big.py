# larger refactorings: representation changes, shared helpers, new types
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'; F='src/field.rs'; O='src/ops.rs'; E='src/ellipticcurve.rs'; L='src/lib.rs'
WP='src/weierstrass/point.rs'; WC='src/weierstrass/curve.rs'; WS='src/weierstrass/scalar.rs'
EP='src/edwards/point.rs'; EC='src/edwards/curve.rs'; ES='src/edwards/scalar.rs'; EE='src/edwards/elligator2.rs'
MP='src/montgomery/point.rs'; MC='src/montgomery/curve.rs'; MS='src/montgomery/scalar.rs'; ME='src/montgomery/elligator2.rs'
SS='src/weierstrass/sswu.rs'; R='src/instances/rational_maps.rs'; W='src/instances/weier.rs'
M=[]
ALLC=['C%02d'%i for i in range(1,43)]
FC='C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C13 C14 C15 C16 C17 C26 C28 C31 C38 C40 C41 C42'.split()
QC='C02 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C41 C42'.split()
PC='C02 C17 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C40 C41 C42'.split()
SC='C02 C17 C18 C19 C25 C41 C42'.split()
def add(name,f,*eds,checks): M.append((name,f,list(eds),[c for c in checks],'q'))
# --- the element holds a BigUint
add('fp_biguint',PF,
 ("    n: BigInt,\n    f: Fp,","    n: BigUint,\n    f: Fp,"),
 ("        let n = n.mod_floor(&self.0.p);\n        let f = self.clone();","        let n = n.mod_floor(&self.0.p).to_biguint().unwrap();\n        let f = self.clone();"),
 ("self.n.to_biguint().unwrap().to_bytes_be()","self.n.to_bytes_be()"),
 ("do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","do_if_eq!(self.f == other.f, self.red(BigInt::from(&self.n + &other.n)), ERR_BIN_OP)"),
 ("do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","do_if_eq!(self.f == other.f, self.red(BigInt::from(&self.n + &other.n)), ERR_BIN_OP)"),
 ("        let n = n.mod_floor(&self.f.0.p);","        let n = n.mod_floor(&self.f.0.p).to_biguint().unwrap();"),
 ("a.red(&a.n + &b.n)","a.red(BigInt::from(&a.n + &b.n))"),
 ("a.red(&a.n - &b.n)","a.red(BigInt::from(a.n.clone()) - BigInt::from(b.n.clone()))"),
 ("a.red(&a.n * &b.n)","a.red(BigInt::from(&a.n * &b.n))"),
 ("a.red(-&a.n)","a.red(-BigInt::from(a.n.clone()))"),
 ("        let exp = exp.to_bigint().unwrap();\n        self.red(self.n.modpow(&exp, &self.f.0.p))","        let p = self.f.0.p.magnitude();\n        self.red(BigInt::from(self.n.modpow(exp, p)))"),
 ("let sqrt_minus_one = t0.n;","let sqrt_minus_one = BigInt::from(t0.n);"),
 ("        let x = self.n.mod_floor(&self.f.0.p);\n        write!(f, \"{}\", x)","        write!(f, \"{}\", self.n)"),
 checks=FC)
# --- named coordinates in the quadratic field
add('fp2_named*',QF,
 ("        Fp2Elt { n: vec![n0, n1], f }","        Fp2Elt { re: n0, im: n1, f }"),
 ("            n: vec![n0, n1],","            re: n0,\n            im: n1,"),
 ("    n: Vec<FpElt>,","    re: FpElt,\n    im: FpElt,"),
 ("        let n = vec![n0, n1];\n        let f = self.f.clone();\n        Fp2Elt { n, f }","        let f = self.f.clone();\n        Fp2Elt { re: n0, im: n1, f }"),
 ("""        for x in self.n.iter() {
            out.append(&mut x.to_bytes_be())
        }""","""        out.append(&mut self.re.to_bytes_be());
        out.append(&mut self.im.to_bytes_be());"""),
 ("""        for x in self.n.iter() {
            out.append(&mut x.to_bytes_le())
        }""","""        out.append(&mut self.re.to_bytes_le());
        out.append(&mut self.im.to_bytes_le());"""),
 ("self.n[0]","self.re"),("self.n[1]","self.im"),("other.n[0]","other.re"),("other.n[1]","other.im"),("a.n[0]","a.re"),("a.n[1]","a.im"),("b.n[0]","b.re"),("b.n[1]","b.im"),
 checks=QC)
# --- one ladder for the three families
LAD='''
/// Double-and-add from the top bit.
pub(crate) fn ladder<P, I, D, A>(start: P, bits: I, double: D, add: A) -> P
where
    I: Iterator<Item = bool>,
    D: Fn(&P) -> P,
    A: Fn(P) -> P,
{
    let mut acc = start;
    for bit in bits {
        acc = double(&acc);
        if bit {
            acc = add(acc);
        }
    }
    acc
}
'''
add('ladder_w',WP,(E,"/// Rational map between",LAD.strip()+"\n\n/// Rational map between"),
 ("""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = q.core_doubling();
            if ki {
                q = q + self;
            }
        }
        q
""","""        crate::ellipticcurve::ladder(
            self.e.identity(),
            k.iter_lr(),
            |q: &Point| q.core_doubling(),
            |q: Point| q + self,
        )
"""),checks=PC)
add('ladder_fold',WP,("""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = q.core_doubling();
            if ki {
                q = q + self;
            }
        }
        q
""","""        let step = |q: Point, bit: bool| -> Point {
            let d = q.core_doubling();
            match bit {
                true => &d + self,
                false => d,
            }
        };
        k.iter_lr().fold(self.e.identity(), step)
"""),checks=PC)
# --- helper types
add('modulus_type',PF,("struct Params {\n    p: BigInt,","impl Params {\n    fn reduce(&self, n: &BigInt) -> BigInt {\n        let r = n % &self.p;\n        if r.is_negative() {\n            r + &self.p\n        } else {\n            r\n        }\n    }\n}\n\nstruct Params {\n    p: BigInt,"),
 ("        let n = n.mod_floor(&self.0.p);","        let n = self.0.reduce(&n);"),("        let n = n.mod_floor(&self.f.0.p);","        let n = self.f.0.reduce(&n);"),
 ("use num_traits::identities::{One, Zero};","use num_traits::identities::{One, Zero};\nuse num_traits::sign::Signed;"),checks=FC)
add('deref_params',PF,("pub struct Fp(Arc<Params>);","pub struct Fp(Arc<Params>);\n\nimpl std::ops::Deref for Fp {\n    type Target = Params;\n    fn deref(&self) -> &Params {\n        &self.0\n    }\n}"),("struct Params {","pub struct Params {"),
 ("        let n = n.mod_floor(&self.f.0.p);","        let n = n.mod_floor(&self.f.p);"),("        let p_minus_2 = &self.f.0.p - 2u32;","        let p_minus_2 = &self.f.p - 2u32;"),("        self.0.p.clone()","        self.p.clone()"),checks=FC)
add('same_field_fn',PF,("impl FpElt {\n    #[inline]","impl FpElt {\n    /// panics on operands of another field\n    fn check(&self, other: &FpElt) {\n        if self.f != other.f {\n            panic!(\"{}\", ERR_BIN_OP)\n        }\n    }\n    #[inline]"),
 ("        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","        self.check(other);\n        self.red(&self.n + &other.n)"),
 ("        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","        self.check(&other);\n        self.red(&self.n + &other.n)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n + &b.n), ERR_BIN_OP)","    a.check(b);\n    a.red(&a.n + &b.n)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)","    a.check(b);\n    a.red(&a.n - &b.n)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)","    a.check(b);\n    a.red(&a.n * &b.n)"),checks=FC)
add('binop_fn',PF,("impl FpElt {\n    #[inline]","impl FpElt {\n    fn combine(&self, other: &FpElt, op: fn(&BigInt, &BigInt) -> BigInt) -> FpElt {\n        assert!(self.f == other.f, \"{}\", ERR_BIN_OP);\n        self.red(op(&self.n, &other.n))\n    }\n    #[inline]"),
 ("        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","        self.combine(other, |x, y| x + y)"),
 ("        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)","        self.combine(&other, |x, y| x + y)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n + &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x + y)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x - y)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x * y)"),checks=FC)
add('modinv',PF,("        let p_minus_2 = &self.f.0.p - 2u32;\n        self ^ &p_minus_2","        match self.n.modinv(&self.f.0.p) {\n            Some(n) => self.red(n),\n            None => self.f.zero(),\n        }"),checks=FC)
add('modinv2',PF,("        let p_minus_2 = &self.f.0.p - 2u32;\n        self ^ &p_minus_2","        self.red(self.n.modinv(&self.f.0.p).unwrap_or_default())"),checks=FC)
add('modinv_s',WS,("        let exp = &self.r - 2u32;\n        self.red(self.k.modpow(&exp, &self.r))","        let k = self.k.modinv(&self.r).unwrap_or_else(|| BigInt::from(0));\n        let r = self.r.clone();\n        Scalar { k, r }"),checks=SC)
add('pad_helper',O,("pub trait IntoFactory<T, Out>: Sized {","/// Left-pads big-endian bytes with zeros.\npub(crate) fn pad_be(bytes: &[u8], len: usize) -> Vec<u8> {\n    let mut out = vec![0u8; len];\n    out[len - bytes.len()..].copy_from_slice(bytes);\n    out\n}\n\npub trait IntoFactory<T, Out>: Sized {"),
 (PF,"""        let mut bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out
""","""        crate::ops::pad_be(&self.n.to_bytes_be().1, field_len)
"""),(WS,"""        let mut bytes = self.k.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out
""","""        let (_, bytes) = self.k.to_bytes_be();
        crate::ops::pad_be(&bytes, field_len)
"""),checks='C06 C12 C18 C28 C29 C30 C17'.split())
add('bits_bit',WS,("            let bit = self.v[self.i / 32usize] >> (self.i % 32);\n            let b = (bit & 1) != 0;","            let (word, shift) = self.i.div_rem(&32usize);\n            let b = self.v[word] & (1u32 << shift) != 0;"),checks=SC)
add('iter_bit',WS,("""        let l = self.k.bits() as usize;
        let i = l.wrapping_sub(1usize);
        let (_, v) = self.k.to_u32_digits();
        let is_lr = true;
        Iterino { l, i, v, is_lr }
""","""        let k = self.k.clone();
        (0..k.bits()).rev().map(move |i| k.bit(i))
"""),checks=SC)
add('iter_fromfn',WS,("""        let l = self.k.bits() as usize;
        let i = l.wrapping_sub(1usize);
        let (_, v) = self.k.to_u32_digits();
        let is_lr = true;
        Iterino { l, i, v, is_lr }
""","""        let mut i = self.k.bits() as usize;
        let (_, v) = self.k.to_u32_digits();
        std::iter::from_fn(move || {
            if i == 0 {
                return None;
            }
            i -= 1;
            Some(v[i / 32] >> (i % 32) & 1 == 1)
        })
"""),checks=SC)
add('iter_option',WS,("""            if self.is_lr {
                let (x, _) = self.i.overflowing_sub(1usize);
                self.i = x
            } else {
                self.i += 1usize
            }
            Some(b)""","""            self.i = match (self.is_lr, self.i) {
                (true, 0) => self.l,
                (true, i) => i - 1,
                (false, i) => i + 1,
            };
            Some(b)"""),checks=SC)
add('pow_generic',F,("/// Field is a fabric","/// Square-and-multiply, most significant bit first.\npub(crate) fn power<E>(one: E, base: &E, exp: &num_bigint::BigUint) -> E\nwhere\n    E: for<'a> std::ops::Mul<&'a E, Output = E> + Clone,\n{\n    let mut acc = one;\n    for i in (0..exp.bits()).rev() {\n        let t = acc.clone();\n        acc = acc * &t;\n        if exp.bit(i) {\n            acc = acc * base;\n        }\n    }\n    acc\n}\n\n/// Field is a fabric"),
 (QF,"""        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out
""","        crate::field::power(self.f.one(), self, exp)\n"),checks=QC)
add('addassign',WP,(PF,"impl CMov for FpElt {}","impl<'a> std::ops::AddAssign<&'a FpElt> for FpElt {\n    fn add_assign(&mut self, other: &'a FpElt) {\n        *self = &*self + other;\n    }\n}\n\nimpl<'a> std::ops::MulAssign<&'a FpElt> for FpElt {\n    fn mul_assign(&mut self, other: &'a FpElt) {\n        let t = &*self * other;\n        self.n = t.n;\n    }\n}\n\nimpl CMov for FpElt {}"),
 ("        t3 = &t3 * &t4; //  6. t3 = t3 * t4","        t3 *= &t4; //  6. t3 = t3 * t4"),("        t1 = &t1 + &t2; // 29. t1 = t1 + t2","        t1 += &t2; // 29. t1 = t1 + t2"),("        z3 = z3 + t0; //   40. Z3 = Z3 + t0","        z3 += &t0;"),checks=PC)
add('g_method',WC,("    fn decoded_point(","    pub(crate) fn rhs(&self, x: &FpElt) -> FpElt {\n        (x * x + &self.a) * x + &self.b\n    }\n    fn decoded_point("),
 ("""                let xx = &x * &x;
                let xx_a = &xx + &self.a;
                let xxx_ax = &xx_a * &x;
                let xxx_ax_b = &xxx_ax + &self.b;
                let y_sqrt = xxx_ax_b.sqrt();
""","                let y_sqrt = self.rhs(&x).sqrt();\n"),
 (SS,"        let gx = &x * &((&x ^ 2u32) + &e.a) + &e.b;","        let gx = e.rhs(&x);"),checks=PC+['C31','C35'])
add('err_helper',WC,("impl Curve {","fn bad<T>(msg: &'static str) -> Result<T, Error> {\n    Err(Error::new(ErrorKind::Other, msg))\n}\n\nimpl Curve {"),
 ("            return Err(Error::new(ErrorKind::Other, \"Wrong input buffer size.\"));","            return bad(\"Wrong input buffer size.\");"),
 ("                _ => Err(Error::new(ErrorKind::Other, \"Invalid tag specified\")),\n            };","                _ => bad(\"Invalid tag specified\"),\n            };"),
 ("            return Err(Error::new(ErrorKind::Other, \"Invalid x coordinate\"));","            return bad(\"Invalid x coordinate\");"),checks=['C28','C29','C17'])
add('reader',WC,("impl Curve {","/// Splits a coordinate below p off the front of the input.\nfn take<'a>(buf: &'a [u8], size: usize, p: &BigInt) -> Result<(BigInt, &'a [u8]), Error> {\n    let (head, tail) = buf.split_at(size);\n    let v = BigInt::from_bytes_be(Sign::Plus, head);\n    if &v >= p {\n        return Err(Error::new(ErrorKind::Other, \"Invalid coordinate\"));\n    }\n    Ok((v, tail))\n}\n\nimpl Curve {"),
 ("""        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
        let p = self.f.get_modulus();
        if x_val >= p {
            return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
        }
""","""        let p = self.f.get_modulus();
        let (x_val, rest) = take(&buf[1..], size, &p)?;
"""),("""                let y_val = BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..]);
                if y_val >= p {
                    return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                }
""","""                let (y_val, _) = take(rest, size, &p)?;
"""),checks=['C28','C29','C17'])
add('tag_enum',WC,("impl Curve {","enum Tag {\n    Infinity,\n    Compressed(u8),\n    Full,\n}\n\nimpl std::convert::TryFrom<u8> for Tag {\n    type Error = Error;\n    fn try_from(t: u8) -> Result<Tag, Error> {\n        match t {\n            0 => Ok(Tag::Infinity),\n            2..=3 => Ok(Tag::Compressed(t)),\n            4 => Ok(Tag::Full),\n            _ => Err(Error::new(ErrorKind::Other, \"Invalid tag specified\")),\n        }\n    }\n}\n\nimpl Curve {"),
 ("        match tag {\n            0x00 => {\n                // return","        use std::convert::TryFrom;\n        match Tag::try_from(tag)? {\n            Tag::Infinity => {\n                // return"),("            0x04 => {","            Tag::Full => {"),("            0x02 | 0x03 => {","            Tag::Compressed(tag) => {"),("                self.decoded_point(x, y)\n            }\n            _ => Err(Error::new(ErrorKind::Other, \"Invalid tag specified\")),\n        }","                self.decoded_point(x, y)\n            }\n        }"),checks=['C28','C29','C17'])
add('expected_len',WC,("        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {","        let known = [1, size + 1, 2 * size + 1];\n        if !known.contains(&blen) {"),checks=['C28','C29','C17'])
add('any_len',WC,("        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {","        if (0..3).all(|i| blen != i * size + 1) {"),checks=['C28','C29','C17'])
add('affine_fn',WP,("    pub fn normalize(&mut self) {","    /// The affine coordinates of a point other than the identity.\n    fn affine(&self) -> Option<(FpElt, FpElt)> {\n        if self.is_zero() {\n            None\n        } else {\n            let w = 1u32 / &self.c.z;\n            Some((&self.c.x * &w, &self.c.y * &w))\n        }\n    }\n    pub fn normalize(&mut self) {"),
 ("""        let x1z2 = &self.c.x * &other.c.z;
        let z1x2 = &self.c.z * &other.c.x;
        let y1z2 = &self.c.y * &other.c.z;
        let z1y2 = &self.c.z * &other.c.y;
        self.e == other.e && x1z2 == z1x2 && y1z2 == z1y2
""","        self.affine() == other.affine()\n"),
 ("""        let mut p_normal = self.clone();
        p_normal.normalize();
        // if the point is the point at infinity, then return a single
        // zeroed byte
        if p_normal.is_zero() {
            return vec![0];
        }
        let coords = &p_normal.c;
        let x = &coords.x;
        let y = &coords.y;
""","""        let (x, y) = match self.affine() {
            Some(c) => c,
            None => return vec![0],
        };
"""),checks=PC)
add('str_table',PF,("""        let radix = if sl.len() > 1 {
            match &sl[0..2] {
                "0o" => {
                    sl = &sl[2..];
                    8
                }
                "0x" => {
                    sl = &sl[2..];
                    16
                }
                "0b" => {
                    sl = &sl[2..];
                    2
                }
                _ => 10,
            }
        } else {
            10
        };
""","""        let mut radix = 10;
        for (prefix, base) in [("0o", 8), ("0x", 16), ("0b", 2)].iter() {
            if let Some(rest) = sl.strip_prefix(prefix) {
                sl = rest;
                radix = *base;
                break;
            }
        }
"""),checks=['C07','C17','C12','C39'])
add('str_neg',PF,("""        let neg = if sl.starts_with('-') {
            sl = &sl[1..];
            -1
        } else {
            1
        };
""","""        let (neg, rest) = match sl.strip_prefix('-') {
            Some(rest) => (-1, rest),
            None => (1, sl),
        };
        sl = rest;
"""),checks=['C07','C17','C12','C39'])
add('str_split',PF,("""        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())""","""        let n = <BigInt as num_traits::Num>::from_str_radix(sl, radix).unwrap();
        let x = self.elt(n);
        if neg < 0 {
            -x
        } else {
            x
        }"""),checks=['C07','C17','C12','C39'])
add('poly_type',R,("impl Isogeny for IsoBls12381G1 {","/// Horner's rule, the constant term first.\nfn horner(c: &[FpElt], x: &FpElt) -> FpElt {\n    let (last, rest) = c.split_last().unwrap();\n    rest.iter().rev().fold(last.clone(), |acc, ci| acc * x + ci)\n}\n\nimpl Isogeny for IsoBls12381G1 {"),
 ("""        let mut x_num = f.zero();
        let mut x_den = f.zero();
        let mut y_num = f.zero();
        let mut y_den = f.zero();

        for i in (0..self.x_num.len()).rev() {
            x_num = (x_num * &x) + &self.x_num[i];
            x_den = (x_den * &x) + &self.x_den[i];
        }
        for i in (0..self.y_num.len()).rev() {
            y_num = (y_num * &x) + &self.y_num[i];
            y_den = (y_den * &x) + &self.y_den[i];
        }

        if x_den.is_zero() {
            return self.e1.identity();
        }
        let xx = x_num / x_den;
        let yy = y * (y_num / y_den);
        self.e1.new_point(xx, yy)
    }
}
""","@@"),checks=['C38','C17'])
M.pop()
add('sgn_odd',PF,("        let res = (&self.n % 2u32).to_i32().unwrap();\n        1i32 - 2i32 * res","        if self.n.bit(0) {\n            -1\n        } else {\n            1\n        }"),checks=FC)
add('fp_one_elt',PF,("        self.n.is_one()","        self.n == BigInt::one()"),("        self.n.is_zero()","        self.n.sign() == num_bigint::Sign::NoSign"),checks=FC)
add('sqrt_verify',PF,("        let p_minus_1_div_2 = (&self.f.0.p - 1) >> 1usize;\n        let res: FpElt = self ^ &p_minus_1_div_2;\n        res.is_one() || res.is_zero()","        let h: BigInt = &self.f.0.p >> 1usize;\n        let r = self ^ &h;\n        r != -self.f.one()"),checks=['C05','C13','C31'])
add('euler_struct',PF,("    fn calc_sqrt_precmp(&self)","    /// (p-1)/2\n    fn half(&self) -> BigInt {\n        let (q, _) = (&self.0.p - 1i32).div_rem(&BigInt::from(2));\n        q\n    }\n    fn calc_sqrt_precmp(&self)"),("        let p_minus_1_div_2 = (&self.f.0.p - 1) >> 1usize;\n        let res: FpElt = self ^ &p_minus_1_div_2;","        let res: FpElt = self ^ &self.f.half();"),checks=['C05','C13','C31'])
add('precmp_struct',PF,("    P3MOD4 { exp: BigInt },\n","    P3MOD4(BigInt),\n"),("            SqrtPrecmp::P3MOD4 { exp }\n","            SqrtPrecmp::P3MOD4(exp)\n"),("SqrtPrecmp::P3MOD4 { exp } => self ^ &exp","SqrtPrecmp::P3MOD4(e) => self ^ &e"),
 ("        let res = (p % 16u32).to_u32().unwrap();","        let res = (0..4).fold(0u32, |acc, i| acc | (p.bit(i) as u32) << i);"),checks=['C11','C05','C15','C16'])
add('cond_negate',F,("pub trait CMov: Clone {","/// Negates when the condition holds.\npub(crate) fn cneg<T: CMov>(x: &T, b: bool) -> T\nwhere\n    for<'a> &'a T: std::ops::Neg<Output = T>,\n{\n    T::cmov(x, &-x, b)\n}\n\npub trait CMov: Clone {"),
 (SS,"        y = cmov(&(-&y), &y, e3); //      21.   y = CMOV(-y, y, e3)","        y = crate::field::cneg(&y, !e3);"),(ME,"cmov(&(-&y), &y, e2 ^ e3)","crate::field::cneg(&y, !(e2 ^ e3))"),checks=['C31','C32','C33','C34'])
add('default_is_on',WC,("        let p = &p.c;\n        let x3 = &p.x * &(&p.x ^ 2u32);\n        let bz = &self.b * &p.z;\n        let ax = &self.a * &p.x;\n        let zz = &p.z * &(ax + &bz);\n        let zy = &p.z * &(zz - &(&p.y ^ 2u32));\n        let eq = x3 + &zy;\n        eq.is_zero()","        let ProyCoordinates { x, y, z } = &p.c;\n        let lhs = y * y * z;\n        let rhs = x * x * x + &self.a * x * z * z + &self.b * z * z * z;\n        lhs == rhs"),checks=PC)
add('field_of_curve',WC,("    fn get_field(&self) -> Self::F {\n        self.f.clone()","    fn get_field(&self) -> Self::F {\n        Fp::new(self.f.get_modulus().to_biguint().unwrap())"),checks=PC)
add('gen_cached',WC,("        self.new_proy_point(ProyCoordinates {\n            x: self.gx.clone(),\n            y: self.gy.clone(),\n            z: self.f.one(),\n        })","        EllipticCurve::new_point(self, self.gx.clone(), self.gy.clone())"),checks=PC)
add('enc_helper_e',EP,(EC,"    fn decoded_point(","    pub(crate) fn encoded_len(&self) -> usize {\n        self.f.get_modulus().bits() as usize / 8 + 1\n    }\n    fn decoded_point("),(EC,"        let size = (modulus.bits() as usize + 1 + 7) / 8;","        let size = self.encoded_len();"),checks=['C30','C17'])
