FAMS=['weierstrass','montgomery','edwards']
CK='C17 C18 C19 C25 C41 C42 C02 C15'.split()
M=[]
def each(name, *eds, checks=CK):
    for f in FAMS:
        M.append((name+'_'+f[:1], 'src/%s/scalar.rs'%f, list(eds), checks, 'q'))
def one(fam, name, *eds, checks=CK):
    M.append((name, 'src/%s/scalar.rs'%fam, list(eds), checks, 'q'))
each('new_rem',("let k = k.mod_floor(&r);\n        Scalar { k, r }\n    }\n}\n\nimpl EcScalar","let mut k = k % &r;\n        if k.sign() == num_bigint::Sign::Minus { k += &r; }\n        Scalar { k, r }\n    }\n}\n\nimpl EcScalar"))
each('new_bigint_from',("let r = r.to_bigint().unwrap();\n        let k","let r = BigInt::from(r.clone());\n        let k"))
each('red_new',("let k = k.mod_floor(&self.r);\n        let r = self.r.clone();\n        Scalar { k, r }","Self::new(k, self.r.magnitude())"))
each('inv_helper',("a * b.inv_mod()","let inv = b.inv_mod(); a * &inv"))
each('inv_modpow',("let exp = &self.r - 2u32;\n        self.red(self.k.modpow(&exp, &self.r))","let two = BigInt::from(2u32);\n        let e = &self.r - two;\n        let k = self.k.modpow(&e, &self.r);\n        Scalar { k, r: self.r.clone() }"))
each('sub_addneg',("a.red(&a.k - &b.k)","a.red(&a.k + (&a.r - &b.k))"))
each('neg_if',("{ a.red(-&a.k) }","{ if a.k == BigInt::from(0) { a.clone() } else { Scalar { k: &a.r - &a.k, r: a.r.clone() } } }"))
each('add_cond',("a.red(&a.k + &b.k)","{ let s = &a.k + &b.k; let k = if s >= a.r { s - &a.r } else { s }; Scalar { k, r: a.r.clone() } }"))
each('guard_first',("    do_if_eq!(a.r == b.r, a.red(&a.k * &b.k), ERR_BIN_OP)","    if a.r != b.r { panic!(\"{}\", ERR_BIN_OP); }\n    let prod = &a.k * &b.k;\n    a.red(prod)"))
each('guard_helper',("    do_if_eq!(a.r == b.r, a.red(&a.k + &b.k), ERR_BIN_OP)","    a.check(b);\n    a.red(&a.k + &b.k)"),("impl EcScalar for Scalar {}","impl Scalar { fn check(&self, o: &Scalar) { if self.r.ne(&o.r) { panic!(\"{}\", ERR_BIN_OP) } } }\nimpl EcScalar for Scalar {}"))
each('guard_assert',("    do_if_eq!(a.r == b.r, a.red(&a.k + &b.k), ERR_BIN_OP)","    assert!(a.r == b.r, \"{}\", ERR_BIN_OP);\n    a.red(&a.k + &b.k)"))
each('guard_asserteq',("    do_if_eq!(a.r == b.r, a.red(&a.k + &b.k), ERR_BIN_OP)","    assert_eq!(a.r, b.r, \"{}\", ERR_BIN_OP);\n    a.red(&a.k + &b.k)"))
each('bytes_helper',("let field_len = (self.r.bits() as usize + 7) / 8;","let field_len = self.width();"),("impl EcScalar for Scalar {}","impl Scalar { fn width(&self) -> usize { (self.r.bits() as usize + 7) / 8 } }\nimpl EcScalar for Scalar {}"))
each('bytes_divceil',("(self.r.bits() as usize + 7) / 8","(self.r.bits() as usize).div_ceil(8)"))
each('bytes_shift',("(self.r.bits() as usize + 7) / 8","(self.r.bits() as usize + 7) >> 3"))
each('bytes_le_pad',("""        let mut buf = self.to_bytes_be();
        buf.reverse();
        buf""","""        let len = (self.r.bits() as usize + 7) / 8;
        let mut buf = self.k.to_biguint().unwrap().to_bytes_le();
        buf.resize(len, 0);
        buf"""))
each('bytes_le_iter',("""        let mut buf = self.to_bytes_be();
        buf.reverse();
        buf""","""        self.to_bytes_be().into_iter().rev().collect()"""))
each('bytes_extend',("""        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out""","""        out.extend_from_slice(&bytes);
        out"""),("let mut bytes =","let bytes ="))
each('bytes_copy',("""        let mut out = vec![0; field_len - bytes.len()];
        if !out.is_empty() {
            out.append(&mut bytes);
        } else {
            out = bytes;
        }
        out""","""        let mut out = vec![0u8; field_len];
        let start = field_len - bytes.len();
        out[start..].copy_from_slice(&bytes);
        out"""),("let mut bytes =","let bytes ="))
each('bytes_mag',("self.k.to_biguint().unwrap().to_bytes_be()","self.k.magnitude().to_bytes_be()"))
each('bytes_tosign',("self.k.to_biguint().unwrap().to_bytes_be()","self.k.to_bytes_be().1"))
each('iter_shift',("let bit = self.v[self.i / 32usize] >> (self.i % 32);\n            let b = (bit & 1) != 0;","let w = self.v[self.i >> 5];\n            let b = (w >> (self.i & 31)) & 1 == 1;"))
each('iter_mask',("let bit = self.v[self.i / 32usize] >> (self.i % 32);\n            let b = (bit & 1) != 0;","let m = 1u32 << (self.i % 32);\n            let b = self.v[self.i / 32] & m != 0;"))
each('iter_wrap',("let (x, _) = self.i.overflowing_sub(1usize);\n                self.i = x","self.i = self.i.wrapping_sub(1)"))
each('iter_early',("        if self.i < self.l {\n            let bit","        if self.i >= self.l {\n            return None;\n        }\n        {\n            let bit"),("            Some(b)\n        } else {\n            None\n        }","            Some(b)\n        }"))
each('iter_vec_lr',("""        let l = self.k.bits() as usize;
        let i = l.wrapping_sub(1usize);
        let (_, v) = self.k.to_u32_digits();
        let is_lr = true;
        Iterino { l, i, v, is_lr }""","""        let n = self.k.bits();
        let k = self.k.clone();
        (0..n).rev().map(move |i| k.bit(i))"""))
each('iter_vec_rl',("""        let l = self.k.bits() as usize;
        let i = 0usize;
        let (_, v) = self.k.to_u32_digits();
        let is_lr = false;
        Iterino { l, i, v, is_lr }""","""        let n = self.k.bits();
        let k = self.k.clone();
        (0..n).map(move |i| k.bit(i))"""))
each('iter_helper',("    pub fn iter_lr","    fn digits(&self) -> (usize, std::vec::Vec<u32>) { (self.k.bits() as usize, self.k.to_u32_digits().1) }\n    pub fn iter_lr"),("""        let l = self.k.bits() as usize;
        let i = l.wrapping_sub(1usize);
        let (_, v) = self.k.to_u32_digits();""","""        let (l, v) = self.digits();
        let i = l.wrapping_sub(1usize);"""),("""        let l = self.k.bits() as usize;
        let i = 0usize;
        let (_, v) = self.k.to_u32_digits();""","""        let (l, v) = self.digits();
        let i = 0usize;"""))
each('iter_remaining',("""        if self.i < self.l {
            let bit = self.v[self.i / 32usize] >> (self.i % 32);
            let b = (bit & 1) != 0;
            if self.is_lr {
                let (x, _) = self.i.overflowing_sub(1usize);
                self.i = x
            } else {
                self.i += 1usize
            }
            Some(b)
        } else {
            None
        }""","""        if self.i == self.l {
            return None;
        }
        let pos = if self.is_lr { self.l - 1 - self.i } else { self.i };
        self.i += 1;
        Some((self.v[pos / 32] >> (pos % 32)) & 1 == 1)"""),("let i = l.wrapping_sub(1usize);","let i = 0usize;"))
each('iter_get',("""        if self.i < self.l {
            let bit = self.v[self.i / 32usize] >> (self.i % 32);
            let b = (bit & 1) != 0;""","""        if self.i < self.l {
            let word = self.v.get(self.i / 32).copied().unwrap_or(0);
            let b = ((word >> (self.i % 32)) & 1) != 0;"""))
each('div_if',("do_if_eq!(self == 1u32, other.inv_mod(), ERR_INV_OP)","match self { 1 => other.inv_mod(), _ => panic!(\"{}\", ERR_INV_OP) }"))
each('display',('write!(f, "{}", self.k)','write!(f, "{k}", k = self.k)'))
each('display2',('write!(f, "{}", self.k)','f.write_str(&self.k.to_string())'))
each('display3',('write!(f, "{}", self.k)','f.pad(&format!("{}", self.k))'))
for f in ('edwards',):
    one(f,'eq_swap_'+f[0],("(self.r == other.r) && (self.k == other.k)","self.k == other.k && self.r == other.r"))
    one(f,'eq_if_'+f[0],("(self.r == other.r) && (self.k == other.k)","if self.r != other.r { return false; }\n self.k == other.k"))
    one(f,'eq_tuple_'+f[0],("(self.r == other.r) && (self.k == other.k)","(&self.r, &self.k) == (&other.r, &other.k)"))
    one(f,'eq_der_'+f[0],("#[derive(Clone)]","#[derive(Clone, PartialEq)]"),("""impl std::cmp::PartialEq for Scalar {
    fn eq(&self, other: &Self) -> bool {
        (self.r == other.r) && (self.k == other.k)
    }
}
""",""))
    one(f,'eq_destr_'+f[0],("(self.r == other.r) && (self.k == other.k)","let Scalar { k, r } = self;\n r == &other.r && k == &other.k"))
each('mulassign_style',("""        other * self
    }
}
impl<'b> Mul<&'b Point> for Scalar""","""        let p: Point = other * self;
        p
    }
}
impl<'b> Mul<&'b Point> for Scalar"""))
each('mul_delegate',("""impl Mul<Point> for Scalar {
    type Output = Point;
    #[inline]
    fn mul(self, other: Point) -> Self::Output {
        other * &self""","""impl Mul<Point> for Scalar {
    type Output = Point;
    #[inline]
    fn mul(self, other: Point) -> Self::Output {
        &self * &other"""))
