F='src/primefield/mod.rs'
PF='C01 C02 C03 C04 C05 C06 C07 C13 C14 C15 C16 C21 C41 C42 C10 C11 C12 C39'.split()
M=[
('modpow_direct',F,[('self.red(self.n.modpow(&exp, &self.f.0.p))','{ let m = &self.f.0.p; let n = self.n.modpow(&exp, m); self.f.elt(n) }')],PF,'q'),
('red_elt',F,[('''        let n = n.mod_floor(&self.f.0.p);
        let f = self.f.clone();
        FpElt { n, f }
    }
    #[inline]
    fn inv''','''        self.f.elt(n)
    }
    #[inline]
    fn inv''')],PF,'q'),
('red_rem',F,[('''        let n = n.mod_floor(&self.f.0.p);
        let f = self.f.clone();
        FpElt { n, f }''','''        let p = &self.f.0.p;
        let mut n = n % p;
        if n < BigInt::zero() { n += p; }
        FpElt { n, f: self.f.clone() }''')],PF,'q'),
('sub_cond',F,[('a.red(&a.n - &b.n)','{ let mut d = &a.n - &b.n; if d.sign() == num_bigint::Sign::Minus { d += &a.f.0.p; } FpElt { n: d, f: a.f.clone() } }')],PF,'q'),
('add_cond',F,[('impl_op_ex!(+|a: FpElt, b: &FpElt| -> FpElt {\n    do_if_eq!(a.f == b.f, a.red(&a.n + &b.n), ERR_BIN_OP)','impl_op_ex!(+|a: FpElt, b: &FpElt| -> FpElt {\n    do_if_eq!(a.f == b.f, { let mut d = &a.n + &b.n; if d >= a.f.0.p { d -= &a.f.0.p; } FpElt { n: d, f: a.f.clone() } }, ERR_BIN_OP)')],PF,'q'),
('neg_cond',F,[('impl_op_ex!(-|a: &FpElt| -> FpElt { a.red(-&a.n) });','impl_op_ex!(-|a: &FpElt| -> FpElt { if a.n.is_zero() { a.clone() } else { FpElt { n: &a.f.0.p - &a.n, f: a.f.clone() } } });')],PF,'q'),
('assert_same',F,[('do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)','a.same(b); let prod = &a.n * &b.n; a.red(prod)'),('impl FpElt {\n','impl FpElt {\n    fn same(&self, o: &FpElt) { assert!(self.f == o.f, "{}", ERR_BIN_OP); }\n')],PF,'q'),
('field_eq_ne',F,[('do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)','if a.f != b.f { panic!("{}", ERR_BIN_OP) }\n a.red(&a.n * &b.n)')],PF,'q'),
('match_exp',F,[('do_if_eq!(b == 2u32, a * a, ERR_EXP_SQR_OP)','match b { 2 => a * a, _ => panic!("{}", ERR_EXP_SQR_OP) }')],PF,'q'),
('inv_egcd',F,[('        let p_minus_2 = &self.f.0.p - 2u32;\n        self ^ &p_minus_2','        let e = &self.f.0.p - BigInt::from(2);\n        self.red(self.n.modpow(&e, &self.f.0.p))')],PF,'q'),
('pow_neg',F,[('''        let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
        self ^ expo''','''        let order = &self.f.0.p - BigInt::one();
        let mut e = exp % &order;
        if e.sign() == num_bigint::Sign::Minus { e = e + order; }
        self.red(self.n.modpow(&e, &self.f.0.p))''')],PF,'q'),
('pow_inv',F,[('''        let expo = &exp.mod_floor(&(&self.f.0.p - 1)).to_biguint().unwrap();
        self ^ expo''','''        let (sign, mag) = (exp.sign(), exp.magnitude().clone());
        let r = self ^ &mag;
        if sign == num_bigint::Sign::Minus { r.inv_mod() } else { r }'''),('self ^ &p_minus_2','self.red(self.n.modpow(&p_minus_2, &self.f.0.p))')],PF,'q'),
('bytes_pad',F,[('''        let mut bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out''','''        let bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0u8; field_len];
        out[field_len - bytes.len()..].copy_from_slice(&bytes);
        out''')],PF,'q'),
('bytes_ext',F,[('''        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out''','''        let pad = field_len - bytes.len();
        let mut out = Vec::with_capacity(field_len);
        out.resize(pad, 0u8);
        out.append(&mut bytes);
        out''')],PF,'q'),
('bytes_le_first',F,[('''        let field_len = self.f.size_bytes();
        let mut bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out''','''        let mut out = self.to_bytes_le();
        out.reverse();
        out'''),('''        let mut bytes = self.to_bytes_be();
        bytes.reverse();
        bytes''','''        let (_, mut bytes) = self.n.to_bytes_le();
        bytes.resize(self.f.size_bytes(), 0);
        bytes''')],PF,'q'),
('bytes_insert',F,[('''        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out''','''        while bytes.len() < field_len {
            bytes.insert(0, 0u8);
        }
        bytes''')],PF,'q'),
('bytes_chain',F,[('''        let mut bytes = self.n.to_biguint().unwrap().to_bytes_be();
        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out''','''        let bytes = self.n.to_biguint().unwrap().to_bytes_be();
        std::iter::repeat(0u8).take(field_len - bytes.len()).chain(bytes).collect()''')],PF,'q'),
('size_div_ceil',F,[('(self.0.p.bits() as usize + 7) / 8','(self.0.p.bits() as usize).div_ceil(8)')],PF,'q'),
('size_shift',F,[('(self.0.p.bits() as usize + 7) / 8','((self.0.p.bits() + 7) >> 3) as usize')],PF,'q'),
('from_bytes_sign',F,[('''        let n = BigUint::from_bytes_be(bytes);
        Ok(self.elt(n.to_bigint().unwrap()))''','''        let n = BigInt::from_bytes_be(num_bigint::Sign::Plus, bytes);
        Ok(self.elt(n))''')],PF,'q'),
('from_bytes_rev',F,[('''        let n = BigUint::from_bytes_le(bytes);
        Ok(self.elt(n.to_bigint().unwrap()))''','''        let mut b = bytes.to_vec();
        b.reverse();
        self.from_bytes_be(&b)''')],PF,'q'),
('text_strip',F,[('''        let mut sl = &s[0..];
        if sl.is_empty() {
            return self.zero();
        }
        let neg = if sl.starts_with('-') {
            sl = &sl[1..];
            -1
        } else {
            1
        };''','''        if s.is_empty() {
            return self.zero();
        }
        let (neg, mut sl) = match s.strip_prefix('-') {
            Some(rest) => (-1, rest),
            None => (1, s),
        };''')],PF,'q'),
('text_strip2',F,[('''        let radix = if sl.len() > 1 {
            match &sl[0..2] {
                "0o" => {
                    sl = &sl[2..];
                    8
                }
                "0x" => {
                    sl = &sl[2..];
                    16
                }
                "0b" => {
                    sl = &sl[2..];
                    2
                }
                _ => 10,
            }
        } else {
            10
        };''','''        let mut radix = 10;
        if let Some(d) = sl.strip_prefix("0x") { sl = d; radix = 16; }
        else if let Some(d) = sl.strip_prefix("0o") { sl = d; radix = 8; }
        else if let Some(d) = sl.strip_prefix("0b") { sl = d; radix = 2; }''')],PF,'q'),
('text_radix',F,[('''        let radix = if sl.len() > 1 {
            match &sl[0..2] {
                "0o" => {
                    sl = &sl[2..];
                    8
                }
                "0x" => {
                    sl = &sl[2..];
                    16
                }
                "0b" => {
                    sl = &sl[2..];
                    2
                }
                _ => 10,
            }
        } else {
            10
        };
        self.elt(neg * BigInt::parse_bytes(sl.as_bytes(), radix).unwrap())''','''        let (radix, skip) = split_radix(sl);
        let digits = &sl[skip..];
        let m = BigInt::parse_bytes(digits.as_bytes(), radix).unwrap();
        self.elt(if neg < 0 { -m } else { m })'''),('impl FromFactory<&str> for Fp {','''fn split_radix(s: &str) -> (u32, usize) {
    if s.starts_with("0o") { (8, 2) } else if s.starts_with("0x") { (16, 2) } else if s.starts_with("0b") { (2, 2) } else { (10, 0) }
}
impl FromFactory<&str> for Fp {''')],PF,'q'),
('sqrt_enum',F,[('''        let res = (p % 16u32).to_u32().unwrap();
        if 3u32 == (res % 4u32) {''','''        let res = (p % 16u32).to_u32().unwrap();
        if res & 3 == 3 {''')],PF,'q'),
('sqrt_match',F,[('''        if 3u32 == (res % 4u32) {
            let exp = (p + 1u32) >> 2usize;
            SqrtPrecmp::P3MOD4 { exp }
        } else if 5u32 == (res % 8u32) {
            let k''','''        if matches!(res, 3 | 7 | 11 | 15) {
            let exp = (p + 1u32) / 4u32;
            SqrtPrecmp::P3MOD4 { exp }
        } else if res == 5 || res == 13 {
            let k''')],PF,'q'),
('sqrt_i',F,[('''            let k = (p - 5u32) >> 3usize;
            let t = &(self.one() + self.one()) ^ &k; // t = 2^k
            let mut t0 = &t ^ 2u32; //  t^2
            t0 = &t0 + &t0; //          2t^2
            t0 = t0 + self.one(); //       2t^2+1
            t0 = t0 * t; //             t(2t^2+1)
            let exp = k + 1;''','''            let exp = (p + 3u32) >> 3usize;
            let two = self.one() + self.one();
            let t0 = &two ^ &((p - 1u32) >> 2usize);''')],PF,'q'),
('sqrt_p5',F,[('''                let t0 = self ^ &exp;
                let t1 = &t0 ^ 2u32;
                let e = *self == t1;
                let t1 = &t0 * self.f.elt(sqrt_minus_one);
                FpElt::cmov(&t1, &t0, e)''','''                let t0 = self ^ &exp;
                if &t0 * &t0 == *self {
                    return t0;
                }
                t0 * self.f.elt(sqrt_minus_one)''')],PF,'q'),
('is_sq_ne',F,[('res.is_one() || res.is_zero()','!(res == -self.f.one() && !res.is_zero())')],PF,'q'),
('is_sq_early',F,[('        let p_minus_1_div_2','        if self.is_zero() { return true; }\n        let p_minus_1_div_2'),('res.is_one() || res.is_zero()','res.is_one()')],PF,'q'),
('is_sq_euler',F,[('''        let res: FpElt = self ^ &p_minus_1_div_2;
        res.is_one() || res.is_zero()''','''        let euler = self.n.modpow(&p_minus_1_div_2, &self.f.0.p);
        euler <= BigInt::one()''')],PF,'q'),
('sgn_even',F,[('''        let res = (&self.n % 2u32).to_i32().unwrap();
        1i32 - 2i32 * res''','''        if self.n.is_even() { 1 } else { -1 }''')],PF,'q'),
('sgn_bit',F,[('''        let res = (&self.n % 2u32).to_i32().unwrap();
        1i32 - 2i32 * res''','''        match self.n.to_bytes_le().1[0] & 1 { 0 => 1, _ => -1 }''')],PF,'q'),
('zero_struct',F,[('self.elt(BigInt::zero())','FpElt { n: BigInt::zero(), f: self.clone() }')],PF,'q'),
('display',F,[('''        let x = self.n.mod_floor(&self.f.0.p);
        write!(f, "{}", x)''','''        f.write_str(&self.n.to_string())''')],PF,'q'),
('display2',F,[('''        let x = self.n.mod_floor(&self.f.0.p);
        write!(f, "{}", x)''','''        std::fmt::Display::fmt(&self.n, f)''')],PF,'q'),
('isone',F,[('self.n.is_one()','self.n == BigInt::one()')],PF,'q'),
('setone',F,[('self.n.set_one();','self.n = BigInt::one();')],PF,'q'),
('cmov','src/field.rs',[('''        if b {
            y.clone()
        } else {
            x.clone()
        }''','''        let pick = match b { false => x, true => y };
        pick.clone()''')],PF,'q'),
('cmov_arr','src/field.rs',[('''        if b {
            y.clone()
        } else {
            x.clone()
        }''','''        [x, y][b as usize].clone()''')],PF,'q'),
]
