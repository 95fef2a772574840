# refactorings, third list: other idioms (let-else, try blocks by ?, split_first, closures, loop-break values, traits)
PF='src/primefield/mod.rs'; QF='src/quadraticfield/mod.rs'; F='src/field.rs'; O='src/ops.rs'; E='src/ellipticcurve.rs'
WP='src/weierstrass/point.rs'; WC='src/weierstrass/curve.rs'; WS='src/weierstrass/scalar.rs'
EP='src/edwards/point.rs'; EC='src/edwards/curve.rs'; ES='src/edwards/scalar.rs'; EE='src/edwards/elligator2.rs'
MP='src/montgomery/point.rs'; MC='src/montgomery/curve.rs'; MS='src/montgomery/scalar.rs'; ME='src/montgomery/elligator2.rs'
SS='src/weierstrass/sswu.rs'; SA='src/weierstrass/sswuab0.rs'; SV='src/weierstrass/svdw.rs'; R='src/instances/rational_maps.rs'; W='src/instances/weier.rs'
M=[]
FC='C01 C02 C03 C04 C05 C06 C07 C08 C10 C11 C13 C14 C15 C16 C41 C42'.split()
QC='C02 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C41 C42'.split()
PC='C02 C15 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C36 C41 C42'.split()
SC='C02 C15 C17 C18 C19 C25 C41 C42'.split()
MCK='C31 C32 C33 C34 C35 C41'.split()
def add(name,f,*eds,checks): M.append((name,f,list(eds),list(checks),'q'))
TB="""        let field_len = self.f.size_bytes();
        let mut bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out
"""
add('fp_tb_le_rev',PF,(TB,"""        self.to_bytes_le().into_iter().rev().collect()
"""),("""        let mut bytes = self.to_bytes_be();
        bytes.reverse();
        bytes
""","""        let mut out = self.n.magnitude().to_bytes_le();
        out.resize(self.f.size_bytes(), 0);
        out
"""),checks=FC+['C28','C30','C29'])
add('fp_tb_loop',PF,(TB,"""        let mut out = self.n.magnitude().to_bytes_be();
        while out.len() < self.f.size_bytes() {
            out.insert(0, 0);
        }
        out
"""),checks=['C06','C28','C29','C30'])
add('fp_tb_copy',PF,(TB,"""        let bytes = self.n.magnitude().to_bytes_be();
        let mut out = vec![0u8; self.f.size_bytes()];
        let start = out.len() - bytes.len();
        out[start..].copy_from_slice(&bytes);
        out
"""),checks=['C06','C28','C29','C30'])
add('fp_tb_repeat',PF,(TB,"""        let bytes = self.n.magnitude().to_bytes_be();
        std::iter::repeat(0u8)
            .take(self.f.size_bytes() - bytes.len())
            .chain(bytes.iter().copied())
            .collect()
"""),checks=['C06','C28','C29','C30'])
add('fp_tb_extend',PF,(TB,"""        let bytes = self.n.magnitude().to_bytes_be();
        let size = self.f.size_bytes();
        let mut out = Vec::with_capacity(size);
        out.resize(size - bytes.len(), 0u8);
        out.extend(bytes);
        out
"""),checks=['C06','C28','C29','C30'])
add('fp_str_match',PF,("""        let neg = if sl.starts_with('-') {
            sl = &sl[1..];
            -1
        } else {
            1
        };
""","""        let (neg, rest) = match sl.strip_prefix('-') {
            Some(rest) => (-1, rest),
            None => (1, sl),
        };
        sl = rest;
"""),checks=FC+['C39'])
add('fp_str_letelse',PF,("""        let radix = if sl.len() > 1 {
            match &sl[0..2] {
                "0o" => {
                    sl = &sl[2..];
                    8
                }
                "0x" => {
                    sl = &sl[2..];
                    16
                }
                "0b" => {
                    sl = &sl[2..];
                    2
                }
                _ => 10,
            }
        } else {
            10
        };
""","""        let mut radix = 10;
        for (prefix, base) in [("0o", 8), ("0x", 16), ("0b", 2)] {
            if let Some(digits) = sl.strip_prefix(prefix) {
                sl = digits;
                radix = base;
                break;
            }
        }
"""),checks=FC+['C39'])
add('fp_str_get',PF,("""            match &sl[0..2] {""","""            match sl.get(..2).unwrap_or("") {"""),checks=['C01','C42','C39'])
add('fp_trait_helper',PF,("impl Field for Fp {","""trait Canonical {
    fn canonical(&self, n: BigInt) -> BigInt;
}

impl Canonical for Params {
    fn canonical(&self, n: BigInt) -> BigInt {
        n.mod_floor(&self.p)
    }
}

impl Field for Fp {"""),("        let n = n.mod_floor(&self.0.p);\n        let f = self.clone();","        let (n, f) = (self.0.canonical(n), self.clone());"),
 ("        let n = n.mod_floor(&self.f.0.p);\n        let f = self.f.clone();","        let (n, f) = (self.f.0.canonical(n), self.f.clone());"),checks=FC)
add('fp_sub_neg',PF,("    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)","    do_if_eq!(\n        a.f == b.f,\n        a.red(if a.n < b.n { &a.n + &a.f.0.p - &b.n } else { &a.n - &b.n }),\n        ERR_BIN_OP\n    )"),checks=FC)
add('fp_neg_if',PF,("{ a.red(-&a.n) }","{\n    if a.n.is_zero() {\n        a.clone()\n    } else {\n        FpElt { n: &a.f.0.p - &a.n, f: a.f.clone() }\n    }\n}"),checks=FC)
add('fp_checked',PF,("impl FpElt {\n    #[inline]\n    fn red","impl FpElt {\n    /// Runs op on both integers when the fields agree.\n    fn combine<Op>(&self, other: &FpElt, op: Op) -> FpElt\n    where\n        Op: FnOnce(&BigInt, &BigInt) -> BigInt,\n    {\n        assert!(self.f == other.f, \"{}\", ERR_BIN_OP);\n        self.red(op(&self.n, &other.n))\n    }\n    #[inline]\n    fn red"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n + &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x + y)"),("    do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x - y)"),
 ("    do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)","    a.combine(b, |x, y| x * y)"),checks=FC)
add('fp_pow_match',PF,("        if self.is_zero() && !exp.is_zero() {\n            return self.clone();\n        }\n        let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();\n        self ^ expo",
"""        match (self.is_zero(), exp.is_zero()) {
            (true, false) => self.clone(),
            _ => {
                let order = self.f.get_modulus() - 1u32;
                let expo = exp.mod_floor(&order);
                self.red(self.n.modpow(&expo, &self.f.0.p))
            }
        }"""),checks=FC)
add('fp_pow_sqmul',PF,("        let exp = exp.to_bigint().unwrap();\n        self.red(self.n.modpow(&exp, &self.f.0.p))","""        let mut acc = self.f.one();
        for i in (0..exp.bits()).rev() {
            acc = &acc * &acc;
            if exp.bit(i) {
                acc = acc * self;
            }
        }
        acc"""),checks=FC)
add('fp_precmp_match',PF,("        let res = (p % 16u32).to_u32().unwrap();\n        if 3u32 == (res % 4u32) {\n            let exp","        let res = p.iter_u32_digits().next().unwrap_or(0) & 0xf;\n        if 3u32 == (res & 3) {\n            let exp"),checks=FC)
add('fp_sqrt_k',PF,("            let exp = k + 1;\n","            let exp = (p + 3u32) / 8u32;\n"),("            let k = (p - 5u32) >> 3usize;","            let k = p / 8u32;"),checks=FC)
add('fp_sqrt_unreach',PF,("            SqrtPrecmp::P9MOD16 => unimplemented!(),\n            SqrtPrecmp::P1MOD16 => unimplemented!(),","            SqrtPrecmp::P9MOD16 | SqrtPrecmp::P1MOD16 => {\n                panic!(\"square roots are not supported modulo p = 1 mod 8\")\n            }"),checks=FC)
add('fp_sgn_table',PF,("        let res = (&self.n % 2u32).to_i32().unwrap();\n        1i32 - 2i32 * res","        const SIGN: [i32; 2] = [1, -1];\n        SIGN[self.n.bit(0) as usize]"),checks=FC+['C28','C30'])
add('fp_sgn_trailing',PF,("        let res = (&self.n % 2u32).to_i32().unwrap();\n        1i32 - 2i32 * res","        if self.n.is_even() {\n            1\n        } else {\n            -1\n        }"),checks=FC+['C28','C30'])
add('fp_sgn_digit',PF,("        let res = (&self.n % 2u32).to_i32().unwrap();\n        1i32 - 2i32 * res","        let (_, digits) = self.n.to_u32_digits();\n        match digits.first() {\n            Some(d) if d & 1 == 1 => -1,\n            _ => 1,\n        }"),checks=FC+['C28','C30'])
add('fp_issq_match',PF,("        res.is_one() || res.is_zero()","        matches!(res.n.to_u32(), Some(0) | Some(1))"),checks=FC)
# quadratic
add('q_tuple',QF,("        let n0 = &self.n[0];\n        let n1 = &self.n[1];\n        let den","        let (n0, n1) = match self.n.as_slice() {\n            [n0, n1] => (n0, n1),\n            _ => unreachable!(),\n        };\n        let den"),checks=QC)
add('q_karatsuba',QF,("""        a.elt(
            &a.n[0] * &b.n[0] - &a.n[1] * &b.n[1],
            &a.n[0] * &b.n[1] + &a.n[1] * &b.n[0],
        ),""","""        {
            let v0 = &a.n[0] * &b.n[0];
            let v1 = &a.n[1] * &b.n[1];
            let s = (&a.n[0] + &a.n[1]) * (&b.n[0] + &b.n[1]);
            let im = s - &v0 - &v1;
            a.elt(v0 - v1, im)
        },"""),checks=QC)
add('q_pow_bits',QF,("""        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out""","""        let mut out = self.f.one();
        let mut base = self.clone();
        for i in 0..exp.bits() {
            if exp.bit(i) {
                out = &out * &base;
            }
            base = &base * &base;
        }
        out"""),checks=QC)
add('q_pow_fold',QF,("""        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out""","""        (0..exp.bits()).rev().fold(self.f.one(), |acc, i| {
            let sq = &acc * &acc;
            if exp.bit(i) {
                sq * self
            } else {
                sq
            }
        })"""),checks=QC)
add('q_bytes_flat',QF,("""        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_be())
        }
        out""","""        self.n.iter().flat_map(|x| x.to_bytes_be()).collect()"""),("""        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_le())
        }
        out""","""        let mut out = self.n[0].to_bytes_le();
        out.extend(self.n[1].to_bytes_le());
        out"""),checks=QC)
add('q_from_chunks',QF,("""        let size = len / 2;
        let n0 = self.0.base.from_bytes_be(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_be(&bytes[size..2 * size]).unwrap();
        Ok(Fp2Elt {
            n: vec![n0, n1],
            f: self.clone(),
        })""","""        let (re, im) = bytes.split_at(len / 2);
        Ok(Fp2Elt {
            n: vec![
                self.0.base.from_bytes_be(re)?,
                self.0.base.from_bytes_be(im)?,
            ],
            f: self.clone(),
        })"""),checks=QC)
add('q_from_map',QF,("""        let size = len / 2;
        let n0 = self.0.base.from_bytes_be(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_be(&bytes[size..2 * size]).unwrap();
        Ok(Fp2Elt {
            n: vec![n0, n1],
            f: self.clone(),
        })""","""        let n = bytes
            .chunks(self.0.base.size_bytes())
            .map(|part| self.0.base.from_bytes_be(part))
            .collect::<Result<Vec<_>, _>>()?;
        Ok(Fp2Elt { n, f: self.clone() })"""),checks=QC)
add('q_str_next',QF,("""        let vs: Vec<&str> = s.splitn(2, ',').collect();
        let n0: FpElt = self.0.base.from(vs[0]);
        let n1: FpElt = self.0.base.from(vs[1]);
""","""        let mut parts = s.splitn(2, ',');
        let mut next = || -> FpElt { self.0.base.from(parts.next().unwrap()) };
        let n0 = next();
        let n1 = next();
"""),checks=QC)
add('q_str_once',QF,("""        let vs: Vec<&str> = s.splitn(2, ',').collect();
        let n0: FpElt = self.0.base.from(vs[0]);
        let n1: FpElt = self.0.base.from(vs[1]);
""","""        let Some((re, im)) = s.split_once(',') else {
            panic!("expected two components separated by a comma");
        };
        let (n0, n1) = (self.0.base.from(re), self.0.base.from(im));
"""),checks=QC)
add('q_sgn_find',QF,("""        if self.n[0].is_zero() {
            self.n[1].sgn0()
        } else {
            self.n[0].sgn0()
        }""","""        self.n
            .iter()
            .find(|x| !x.is_zero())
            .map_or(1, |x| x.sgn0())"""),checks=QC)
add('q_iszero_all',QF,("        self.n[0].is_zero() && self.n[1].is_zero()\n","        self.n.iter().all(|x| x.is_zero())\n"),checks=QC)
add('q_sqrt_merge',QF,("""                let t = &alpha + self.f.one();
                if t.is_zero() {
                    let i = self.elt(self.f.0.base.from(0), self.f.0.base.from(1));
                    x0 * i
                } else {
                    let par = alpha + self.f.one();
                    let b = &par ^ &c2;
                    x0 * b
                }""","""                let t = alpha + self.f.one();
                let b = if t.is_zero() {
                    self.elt(self.f.0.base.zero(), self.f.0.base.one())
                } else {
                    &t ^ &c2
                };
                b * x0"""),checks=QC)
add('q_issq_base',QF,("""        let exp = (self.f.get_modulus() - 1u32) >> 1usize;
        let t1 = &t0 ^ &exp;
        t1.is_zero() || t1 == self.f.0.base.one()""","""        t0.is_square()"""),checks=QC)
add('q_neg_map',QF,("{ a.elt(-&a.n[0], -&a.n[1]) }","{\n    Fp2Elt {\n        n: a.n.iter().map(|x| -x).collect(),\n        f: a.f.clone(),\n    }\n}"),checks=QC)
# scalars
for t,f in (('w',WS),('m',MS),('e',ES)):
    add('s_iter_vec_'+t,f,("        let l = self.k.bits() as usize;\n        let i = l.wrapping_sub(1usize);\n        let (_, v) = self.k.to_u32_digits();\n        let is_lr = true;\n        Iterino { l, i, v, is_lr }","        let k = self.k.clone();\n        (0..k.bits()).rev().map(move |i| k.bit(i))"),checks=SC)
    add('s_iter_str_'+t,f,("        let l = self.k.bits() as usize;\n        let i = l.wrapping_sub(1usize);\n        let (_, v) = self.k.to_u32_digits();\n        let is_lr = true;\n        Iterino { l, i, v, is_lr }","        let mut bits: Vec<bool> = self.iter_rl().collect();\n        bits.reverse();\n        bits.into_iter()"),checks=SC)
    add('s_next_checked_'+t,f,("""        if self.i < self.l {
            let bit = self.v[self.i / 32usize] >> (self.i % 32);
            let b = (bit & 1) != 0;
            if self.is_lr {
                let (x, _) = self.i.overflowing_sub(1usize);
                self.i = x
            } else {
                self.i += 1usize
            }
            Some(b)
        } else {
            None
        }""","""        if self.i >= self.l {
            return None;
        }
        let (word, shift) = (self.i >> 5, self.i & 31);
        self.i = match self.is_lr {
            true => self.i.wrapping_sub(1),
            false => self.i + 1,
        };
        Some(self.v[word] & (1 << shift) != 0)"""),checks=SC)
    add('s_next_get_'+t,f,("""        if self.i < self.l {
            let bit = self.v[self.i / 32usize] >> (self.i % 32);
            let b = (bit & 1) != 0;
            if self.is_lr {
                let (x, _) = self.i.overflowing_sub(1usize);
                self.i = x
            } else {
                self.i += 1usize
            }
            Some(b)
        } else {
            None
        }""","""        let word = self.v.get(self.i / 32)?;
        if self.i >= self.l {
            return None;
        }
        let b = (word >> (self.i % 32)) % 2 == 1;
        self.i = if self.is_lr {
            self.i.wrapping_sub(1)
        } else {
            self.i.wrapping_add(1)
        };
        Some(b)"""),checks=SC)
    add('s_inv_zero_'+t,f,("        let exp = &self.r - 2u32;\n","        let two = BigInt::from(2);\n        let exp = &self.r - &two;\n"),checks=SC)
    add('s_bytes_mapped_'+t,f,("""        let field_len = (self.r.bits() as usize + 7) / 8;
        let mut bytes = self.k.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out""","""        let len = ((self.r.bits() + 7) >> 3) as usize;
        let (_, mut out) = self.k.to_bytes_le();
        out.resize(len, 0);
        out.reverse();
        out"""),checks=SC)
# points
MUL="""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = &q + &q;
            if ki {
                q = q + self;
            }
        }
        q
"""
for t,f in (("w",WP),("m",MP),("e",EP)):
    if t == "w":
        MULB, MUL = MUL, MUL.replace("q = &q + &q;", "q = q.core_doubling();")
    else:
        MUL = MULB
    add('p_mul_fold_'+t,f,(MUL,"""        k.iter_lr().fold(self.e.identity(), |q, ki| {
            let d = &q + &q;
            match ki {
                true => d + self,
                false => d,
            }
        })
"""),checks=PC)
    add('p_mul_rl_'+t,f,(MUL,"""        let mut q = self.e.identity();
        let mut t = self.clone();
        for ki in k.iter_rl() {
            if ki {
                q = &q + &t;
            }
            t = &t + &t;
        }
        q
"""),checks=PC)
    add('p_mul_select_'+t,f,(MUL,"""        let mut q = self.e.identity();
        let o = self.e.identity();
        for ki in k.iter_lr() {
            let addend = if ki { self } else { &o };
            q = (&q + &q) + addend;
        }
        q
"""),checks=PC)
    add('p_mul_whilelet_'+t,f,(MUL,"""        let mut q = self.e.identity();
        let mut bits = k.iter_lr();
        while let Some(ki) = bits.next() {
            q = &q + &q;
            if !ki {
                continue;
            }
            q = q.core_add(self);
        }
        q
"""),checks=PC)
    add('p_norm_into_'+t,f,("        p_normal.normalize();\n","        p_normal.normalize();\n        let p_normal = p_normal;\n"),checks=['C28','C29','C30','C27'])
    add('p_eq_match_'+t,f,("        if self.e != other.e {\n            return false;\n        }\n","        match self.e == other.e {\n            false => return false,\n            true => (),\n        }\n"),checks=PC)
DEC="""        let size = self.f.size_bytes();
        let blen = buf.len();
        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {
            return Err(Error::new(ErrorKind::Other, "Wrong input buffer size."));
        }
        let tag = buf[0];
        if blen == 1 {
            return match tag {
                0x00 => Ok(self.identity()),
                _ => Err(Error::new(ErrorKind::Other, "Invalid tag specified")),
            };
        }
"""
for t,f in (('w',WC),('m',MC)):
    add('d_first_'+t,f,(DEC,"""        let size = self.f.size_bytes();
        let bad = |why: &'static str| Err(Error::new(ErrorKind::Other, why));
        let Some((&tag, body)) = buf.split_first() else {
            return bad("Wrong input buffer size.");
        };
        if body.is_empty() {
            return if tag == 0 {
                Ok(self.identity())
            } else {
                bad("Invalid tag specified")
            };
        }
        if body.len() != size && body.len() != 2 * size {
            return bad("Wrong input buffer size.");
        }
"""),checks=['C28','C29','C17','C42'])
    add('d_matchlen_'+t,f,(DEC,"""        let size = self.f.size_bytes();
        match buf.len() {
            1 if buf[0] == 0x00 => return Ok(self.identity()),
            n if n == size + 1 || n == 2 * size + 1 => (),
            _ => return Err(Error::new(ErrorKind::Other, "Wrong input buffer.")),
        }
        let tag = buf[0];
"""),checks=['C28','C29','C17','C42'])
    add('d_deser_'+t,f,("""        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
        let p = self.f.get_modulus();
        if x_val >= p {
            return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
        }
""","""        let p = self.f.get_modulus();
        let read = |bytes: &[u8], why: &'static str| -> Result<BigInt, Error> {
            let v = BigInt::from_bytes_be(Sign::Plus, bytes);
            if v < p {
                Ok(v)
            } else {
                Err(Error::new(ErrorKind::Other, why))
            }
        };
        let x_val = read(&buf[1..=size], "Invalid x coordinate")?;
"""),("""                let y_val = BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..]);
                if y_val >= p {
                    return Err(Error::new(ErrorKind::Other, "Invalid y coordinate"));
                }
                let y = self.f.elt(y_val);
""","""                let y = self
                    .f
                    .elt(read(&buf[size + 1..], "Invalid y coordinate")?);
"""),checks=['C28','C29','C17','C42'])
    add('d_negif_'+t,f,("""                let mut y = y_sqrt;
                if tag != deser_tag {
                    if y.is_zero() {
                        return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
                    }
                    y = -y;
                }
""","""                let y = match tag == deser_tag {
                    true => y_sqrt,
                    false if y_sqrt.is_zero() => {
                        return Err(Error::new(ErrorKind::Other, "Invalid tag specified"))
                    }
                    false => -y_sqrt,
                };
"""),checks=['C28','C29','C17','C42'])
    add('d_okwhen_'+t,f,("""        let pt = Point { e, c };
        if !self.is_on_curve(&pt) {
            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
        }
        Ok(pt)""","""        let pt = Point { e, c };
        self.is_on_curve(&pt)
            .then_some(pt)
            .ok_or_else(|| Error::new(ErrorKind::Other, ERR_ECC_NEW))"""),checks=['C28','C29','C17','C42'])
add('d_e_splitlast',EC,("""        let last_byte = size - 1;
        let x_0 = (buf[last_byte] >> 7) & 0x01;
        let mut y_bytes = buf.to_vec();
        y_bytes[last_byte] &= &127; // clear msb
        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);""","""        let mut y_bytes = buf.to_vec();
        let last = y_bytes.last_mut().unwrap();
        let x_0 = *last >> 7;
        *last &= 0x7f;
        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);"""),checks=['C30','C17','C42'])
add('d_e_sub',EC,("        y_bytes[last_byte] &= &127; // clear msb\n","        if x_0 == 1 {\n            y_bytes[last_byte] -= 128;\n        }\n"),checks=['C30','C17','C42'])
add('d_e_be',EC,("        let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);","        y_bytes.reverse();\n        let y_zz = BigInt::from_bytes_be(Sign::Plus, &y_bytes);"),checks=['C30','C17','C42'])
add('d_e_cmov',EC,("        let mut x = x_sqrt;\n        if tag != x_0 {\n            x = -x;\n        }\n","        let neg = -&x_sqrt;\n        let x = crate::field::CMov::cmov(&x_sqrt, &neg, tag != x_0);\n"),checks=['C30','C17','C42'])
add('e_e_format',EP,("        enc.resize(size, 0u8);\n        let last = enc.len() - 1;\n        enc[last] |= x_0;\n        enc","        while enc.len() < size {\n            enc.push(0);\n        }\n        if let Some(last) = enc.last_mut() {\n            *last |= x_0;\n        }\n        enc"),checks=['C30','C17','C42'])
add('e_e_extend',EP,("        enc.resize(size, 0u8);\n        let last = enc.len() - 1;\n        enc[last] |= x_0;\n        enc","        enc.extend(vec![0u8; size - enc.len()]);\n        enc[size - 1] |= x_0;\n        enc"),checks=['C30','C17','C42'])
for t,f in (('w',WP),('m',MP)):
    add('e_concat_'+t,f,("""            let mut o: Vec<u8> = vec![0x04];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            o""","""            x_bytes.insert(0, 0x04);
            x_bytes.extend_from_slice(&y_bytes);
            x_bytes"""),checks=['C28','C29','C17','C42'])
    add('e_chain_'+t,f,("""            let mut o: Vec<u8> = vec![0x04];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            o""","""            std::iter::once(0x04)
                .chain(x_bytes)
                .chain(y_bytes.drain(..))
                .collect()"""),checks=['C28','C29','C17','C42'])
    add('e_tag_'+t,f,("            let tag = (((s >> 1) & 0x1) + 2) as u8;","            let tag: u8 = if s < 0 { 3 } else { 2 };"),checks=['C28','C29','C17','C42'])
    add('e_tagmatch_'+t,f,("            let tag = (((s >> 1) & 0x1) + 2) as u8;","            let tag = match s {\n                1 => 0x02u8,\n                _ => 0x03u8,\n            };"),checks=['C28','C29','C17','C42'])
