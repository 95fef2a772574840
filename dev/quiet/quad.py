F='src/quadraticfield/mod.rs'
PF='C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C39 C40 C41 C42 C32 C35'.split()
MUL='''        a.elt(
            &a.n[0] * &b.n[0] - &a.n[1] * &b.n[1],
            &a.n[0] * &b.n[1] + &a.n[1] * &b.n[0],
        ),'''
M=[
('mul_karatsuba',F,[(MUL,'''        {
            let v0 = &a.n[0] * &b.n[0];
            let v1 = &a.n[1] * &b.n[1];
            let cross = (&a.n[0] + &a.n[1]) * (&b.n[0] + &b.n[1]) - &v0 - &v1;
            a.elt(v0 - v1, cross)
        },''')],PF,'q'),
('mul_fn',F,[(MUL,'        a.product(b),'),('''    #[inline]
    fn inv_mod''','''    fn product(&self, b: &Fp2Elt) -> Fp2Elt {
        let re = {
            let x = &self.n[0] * &b.n[0];
            let y = &self.n[1] * &b.n[1];
            x - y
        };
        let im = &self.n[1] * &b.n[0] + &self.n[0] * &b.n[1];
        Fp2Elt { n: vec![re, im], f: self.f.clone() }
    }
    #[inline]
    fn inv_mod''')],PF,'q'),
('sqr_special',F,[('do_if_eq!(b == 2u32, a * a, ERR_EXP_SQR_OP)','''do_if_eq!(b == 2u32, {
        let re = (&a.n[0] + &a.n[1]) * (&a.n[0] - &a.n[1]);
        let im = &a.n[0] * &a.n[1];
        a.elt(re, &im + &im)
    }, ERR_EXP_SQR_OP)''')],PF,'q'),
('norm_helper',F,[('''        let den = 1u32 / &(n0 * n0 + n1 * n1);''','''        let den = 1u32 / &self.norm();'''),('''        let t0 = n0 * n0 + n1 * n1;
''','''        let t0 = self.norm();
'''),('''        let n0 = &self.n[0];
        let n1 = &self.n[1];
        let t0''','''        let t0'''),('''    #[inline]
    fn inv_mod''','''    fn norm(&self) -> FpElt {
        self.n.iter().fold(self.f.0.base.zero(), |acc, x| acc + x * x)
    }
    #[inline]
    fn inv_mod''')],PF,'q'),
('conj',F,[('''        self.elt(&den * n0, -(den * n1))''','''        let c = self.conjugate();
        self.elt(&c.n[0] * &den, &c.n[1] * &den)'''),('''    #[inline]
    fn inv_mod''','''    fn conjugate(&self) -> Fp2Elt {
        self.elt(self.n[0].clone(), -&self.n[1])
    }
    #[inline]
    fn inv_mod''')],PF,'q'),
('inv_pow',F,[('''let den = 1u32 / &(n0 * n0 + n1 * n1);''','''let norm = (n0 ^ 2u32) + (n1 ^ 2u32);
        let den = norm ^ -1i32;''')],PF,'q'),
('exp_bits',F,[('''        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out''','''        let mut out = self.f.one();
        for i in (0..exp.bits()).rev() {
            out = &out ^ 2u32;
            if exp.bit(i) {
                out = out * self;
            }
        }
        out''')],PF,'q'),
('exp_lsb',F,[('''        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out''','''        let mut out = self.f.one();
        let mut base = self.clone();
        for vi in exp.to_u32_digits() {
            for j in 0..32 {
                if (vi >> j) & 1 == 1 {
                    out = &out * &base;
                }
                base = &base * &base;
            }
        }
        out''')],PF,'q'),
('exp_cond',F,[('''                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }''','''                if vi & (1u32 << j) != 0 {
                    out = self * &out;
                }''')],PF,'q'),
('exp_radix2',F,[('''        let v = exp.to_u32_digits();
        let mut out = self.f.one();
        for vi in v.iter().rev() {
            for j in (0..32).rev() {
                out = &out * &out;
                let bit = (*vi >> j) & 1;
                if bit == 1 {
                    out = out * self;
                }
            }
        }
        out''','''        exp.to_u32_digits().iter().rev().fold(self.f.one(), |acc, &w| {
            (0..32).rev().fold(acc, |acc, j| {
                let sq = &acc * &acc;
                if (w >> j) & 1 == 1 { sq * self } else { sq }
            })
        })''')],PF,'q'),
('sgn_match',F,[('''        let res = self ^ exp.magnitude();
        if exp.sign() == Sign::Minus {
            res.inv_mod()
        } else {
            res
        }''','''        match exp.sign() {
            Sign::Minus => &self.inv_mod() ^ exp.magnitude(),
            Sign::NoSign => self.f.one(),
            Sign::Plus => self ^ exp.magnitude(),
        }''')],PF,'q'),
('sqrt_restruct',F,[('''                let t = &alpha + self.f.one();
                if t.is_zero() {
                    let i = self.elt(self.f.0.base.from(0), self.f.0.base.from(1));
                    x0 * i
                } else {
                    let par = alpha + self.f.one();
                    let b = &par ^ &c2;
                    x0 * b
                }''','''                let t = alpha + self.f.one();
                let factor = if t.is_zero() {
                    self.elt(self.f.0.base.zero(), self.f.0.base.one())
                } else {
                    &t ^ &c2
                };
                x0 * factor''')],PF,'q'),
('sqrt_eqminus1',F,[('''                let t = &alpha + self.f.one();
                if t.is_zero() {''','''                if alpha == -self.f.one() {''')],PF,'q'),
('sqrt_swap',F,[('''                let t = &alpha + self.f.one();
                if t.is_zero() {
                    let i = self.elt(self.f.0.base.from(0), self.f.0.base.from(1));
                    x0 * i
                } else {
                    let par = alpha + self.f.one();
                    let b = &par ^ &c2;
                    x0 * b
                }''','''                // sqrt(-1) times a fourth root
                let minus_one = -&self.f.one();
                if alpha == minus_one {
                    return self.elt(-&x0.n[1], x0.n[0].clone());
                }
                let b = &(self.f.one() + alpha) ^ &c2;
                b * x0''')],PF,'q'),
('sqrt_precmp',F,[('''            let c1 = (&p - 3u32) >> 2usize;
            let c2 = (&p - 1u32) >> 1usize;''','''            let c1 = (&p - 3u32) / 4u32;
            let c2 = (&p - BigInt::one()) / BigInt::from(2);''')],PF,'q'),
('sqrt_shr',F,[('''            let c1 = (&p - 3u32) >> 2usize;
            let c2 = (&p - 1u32) >> 1usize;''','''            let c1 = &p >> 2usize;
            let c2 = &p >> 1usize;''')],PF,'q'),
('sqrt_even',F,[('3u32 == (&p % 4u32).to_u32().unwrap()','&p % 4 == BigInt::from(3)')],PF,'q'),
('sqrt_bits',F,[('3u32 == (&p % 4u32).to_u32().unwrap()','p.bit(0) && p.bit(1)')],PF,'q'),
('issq_legendre',F,[('''        let exp = (self.f.get_modulus() - 1u32) >> 1usize;
        let t1 = &t0 ^ &exp;
        t1.is_zero() || t1 == self.f.0.base.one()''','''        t0.is_square()''')],PF,'q'),
('issq_ne',F,[('t1.is_zero() || t1 == self.f.0.base.one()','t1 != -self.f.0.base.one()')],PF,'q'),
('issq_isone',F,[('t1.is_zero() || t1 == self.f.0.base.one()','t1.is_one() || t0.is_zero()')],PF,'q'),
('sgn0_blend',F,[('''        if self.n[0].is_zero() {
            self.n[1].sgn0()
        } else {
            self.n[0].sgn0()
        }''','''        let pick = self.n.iter().find(|x| !x.is_zero()).unwrap_or(&self.n[0]);
        pick.sgn0()''')],PF,'q'),
('sgn0_idx',F,[('''        if self.n[0].is_zero() {
            self.n[1].sgn0()
        } else {
            self.n[0].sgn0()
        }''','''        let i = self.n[0].is_zero() as usize;
        self.n[i].sgn0()''')],PF,'q'),
('iszero_all',F,[('self.n[0].is_zero() && self.n[1].is_zero()','self.n.iter().all(|x| x.is_zero())')],PF,'q'),
('setzero_iter',F,[('''        self.n[0].set_zero();
        self.n[1].set_zero()''','''        for x in self.n.iter_mut() { x.set_zero(); }''')],PF,'q'),
('setone_assign',F,[('''        self.n[0].set_one();
        self.n[1].set_zero();''','''        *self = self.f.one();''')],PF,'q'),
('isone_eq',F,[('self.n[0].is_one() && self.n[1].is_zero()','*self == self.f.one()')],PF,'q'),
('bytes_flat',F,[('''        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_be())
        }
        out''','''        self.n.iter().flat_map(|x| x.to_bytes_be()).collect()''')],PF,'q'),
('bytes_concat',F,[('''        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_le())
        }
        out''','''        [self.n[0].to_bytes_le(), self.n[1].to_bytes_le()].concat()''')],PF,'q'),
('bytes_ext',F,[('''            out.append(&mut x.to_bytes_be())''','''            out.extend_from_slice(&x.to_bytes_be())''')],PF,'q'),
('bytes_cap',F,[('''        let mut out = Vec::new();
        for x in self.n.iter() {
            out.append(&mut x.to_bytes_be())''','''        let mut out = Vec::with_capacity(self.f.size_bytes());
        for i in 0..2 {
            let x = &self.n[i];
            out.extend(x.to_bytes_be())''')],PF,'q'),
('from_split',F,[('''        let size = len / 2;
        let n0 = self.0.base.from_bytes_be(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_be(&bytes[size..2 * size]).unwrap();
        Ok(Fp2Elt {
            n: vec![n0, n1],
            f: self.clone(),
        })''','''        let (lo, hi) = bytes.split_at(len / 2);
        let n0 = self.0.base.from_bytes_be(lo)?;
        let n1 = self.0.base.from_bytes_be(hi)?;
        Ok(Fp2Elt { n: vec![n0, n1], f: self.clone() })''')],PF,'q'),
('from_chunks',F,[('''        let size = len / 2;
        let n0 = self.0.base.from_bytes_be(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_be(&bytes[size..2 * size]).unwrap();
        Ok(Fp2Elt {
            n: vec![n0, n1],
            f: self.clone(),
        })''','''        let n = bytes
            .chunks(self.0.base.size_bytes())
            .map(|c| self.0.base.from_bytes_be(c))
            .collect::<Result<Vec<FpElt>, std::io::Error>>()?;
        Ok(Fp2Elt { n, f: self.clone() })''')],PF,'q'),
('from_helper',F,[('''        let size = len / 2;
        let n0 = self.0.base.from_bytes_le(&bytes[0..size]).unwrap();
        let n1 = self.0.base.from_bytes_le(&bytes[size..2 * size]).unwrap();
        Ok(Fp2Elt {
            n: vec![n0, n1],
            f: self.clone(),
        })''','''        let size = self.0.base.size_bytes();
        let half = |r: std::ops::Range<usize>| self.0.base.from_bytes_le(&bytes[r]).unwrap();
        Ok(self.pair(half(0..size), half(size..len)))'''),('''impl Fp2 {
    fn get_sqrt''','''impl Fp2 {
    fn pair(&self, n0: FpElt, n1: FpElt) -> Fp2Elt {
        Fp2Elt { n: vec![n0, n1], f: self.clone() }
    }
    fn get_sqrt''')],PF,'q'),
('str_splitonce',F,[('''        let vs: Vec<&str> = s.splitn(2, ',').collect();
        let n0: FpElt = self.0.base.from(vs[0]);
        let n1: FpElt = self.0.base.from(vs[1]);''','''        let (a, b) = s.split_once(',').unwrap();
        let n0: FpElt = self.0.base.from(a);
        let n1: FpElt = self.0.base.from(b);''')],PF,'q'),
('str_find',F,[('''        let vs: Vec<&str> = s.splitn(2, ',').collect();
        let n0: FpElt = self.0.base.from(vs[0]);
        let n1: FpElt = self.0.base.from(vs[1]);''','''        let k = s.find(',').expect("two components");
        let n0: FpElt = self.0.base.from(&s[..k]);
        let n1: FpElt = self.0.base.from(&s[k + 1..]);''')],PF,'q'),
('str_iter',F,[('''        let vs: Vec<&str> = s.splitn(2, ',').collect();
        let n0: FpElt = self.0.base.from(vs[0]);
        let n1: FpElt = self.0.base.from(vs[1]);''','''        let mut it = s.splitn(2, ',');
        let n0: FpElt = self.0.base.from(it.next().unwrap());
        let n1: FpElt = self.0.base.from(it.next().unwrap());''')],PF,'q'),
('disp_join',F,[('write!(f, "{}+i*{}", self.n[0], self.n[1])','''{
            write!(f, "{}", self.n[0])?;
            f.write_str("+i*")?;
            write!(f, "{}", &self.n[1])
        }''')],PF,'q'),
('disp_format',F,[('write!(f, "{}+i*{}", self.n[0], self.n[1])','''{
            let s = format!("{re}+i*{im}", re = self.n[0], im = self.n[1]);
            f.write_str(&s)
        }''')],PF,'q'),
('neg_map',F,[('a.elt(-&a.n[0], -&a.n[1])','Fp2Elt { n: a.n.iter().map(|x| -x).collect(), f: a.f.clone() }')],PF,'q'),
('add_zip',F,[('do_if_eq!(a.f == b.f, a.elt(&a.n[0] + &b.n[0], &a.n[1] + &b.n[1]), ERR_BIN_OP)','do_if_eq!(a.f == b.f, Fp2Elt { n: a.n.iter().zip(b.n.iter()).map(|(x, y)| x + y).collect(), f: a.f.clone() }, ERR_BIN_OP)')],PF,'q'),
('sub_negadd',F,[('''        a.elt(&a.n[0] - &b.n[0], &a.n[1] - &b.n[1]),''','''        a.elt(&a.n[0] + &(-&b.n[0]), &a.n[1] + &(-&b.n[1])),''')],PF,'q'),
('add_deleg',F,[('''    fn add(self, other: Fp2Elt) -> Fp2Elt {
        do_if_eq!(
            self.f == other.f,
            self.elt(&self.n[0] + &other.n[0], &self.n[1] + &other.n[1]),
            ERR_BIN_OP
        )''','''    fn add(self, other: Fp2Elt) -> Fp2Elt {
        self + &other''')],PF,'q'),
('div_inline',F,[('''        a * b.inv_mod()''','''        let binv = b.inv_mod();
        binv * a''')],PF,'q'),
('elt_vec',F,[('''        let n0 = self.0.base.elt(n);
        let n1 = self.0.base.zero();
        let f = self.clone();
        Fp2Elt { n: vec![n0, n1], f }''','''        let mut v = Vec::with_capacity(2);
        v.push(self.0.base.elt(n));
        v.push(self.0.base.zero());
        Fp2Elt { n: v, f: self.clone() }''')],PF,'q'),
('size',F,[('2 * self.0.base.size_bytes()','self.0.base.size_bytes() << 1')],PF,'q'),
('peq',F,[('self.base == other.base','{ let Params { base, .. } = self; *base == other.base }')],PF,'q'),
('peq_mod',F,[('self.base == other.base','self.base.get_modulus() == other.base.get_modulus()')],PF,'q'),
('array',F,[('#[derive(Clone, PartialEq, Eq)]\npub struct Fp2Elt {\n    n: Vec<FpElt>,','#[derive(Clone, PartialEq, Eq)]\npub struct Fp2Elt {\n    n: [FpElt; 2],'),('Fp2Elt { n: vec![n0, n1], f }','Fp2Elt { n: [n0, n1], f }'),*[('n: vec![n0, n1],','n: [n0, n1],')]*3,('let n = vec![n0, n1];','let n = [n0, n1];')],PF,'q'),
]
