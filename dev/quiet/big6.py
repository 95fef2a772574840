PF = 'src/primefield/mod.rs'
ADD0 = '        do_if_eq!(self.f == other.f, self.red(&self.n + &other.n), ERR_BIN_OP)'
ADD = 'do_if_eq!(a.f == b.f, a.red(&a.n + &b.n), ERR_BIN_OP)'
SUB = 'do_if_eq!(a.f == b.f, a.red(&a.n - &b.n), ERR_BIN_OP)'
MUL = 'do_if_eq!(a.f == b.f, a.red(&a.n * &b.n), ERR_BIN_OP)'
NEG = 'impl_op_ex!(-|a: &FpElt| -> FpElt { a.red(-&a.n) });'
H = 'impl FpElt {\n    #[inline]\n'
P_ = 'C01 C02 C03 C04 C05'.split()
M = []


def q(n, *eds):
    M.append((n, PF, list(eds), P_, 'q'))


addf = H + '''    fn plus(&self, o: &FpElt) -> FpElt {
        do_if_eq!(self.f == o.f, {}, ERR_BIN_OP);
        let p = &self.f.0.p;
        let s = &self.n + &o.n;
        let n = %s;
        FpElt { n, f: self.f.clone() }
    }
    #[inline]
'''
A = [(ADD0, '        self.plus(&other)'), (ADD0, '        self.plus(&other)'), (ADD, 'a.plus(b)')]
q('fp_add_helper_cond', *A, (H, addf % 'if &s >= p { s - p } else { s }'))
q('fp_add_helper_cmp', *A, (H, addf % 'match s.cmp(p) { std::cmp::Ordering::Less => s, std::cmp::Ordering::Equal => BigInt::zero(), std::cmp::Ordering::Greater => s - p }'))
q('fp_add_helper_rem', *A, (H, addf % 's % p'))
q('fp_add_helper_comp', *A, (H, addf % '{ let gap = p - &o.n; if self.n < gap { s } else { &self.n - gap } }'))
subf = H + '''    fn minus(&self, o: &FpElt) -> FpElt {
        do_if_eq!(self.f == o.f, {}, ERR_BIN_OP);
        let p = &self.f.0.p;
        let n = %s;
        FpElt { n, f: self.f.clone() }
    }
    #[inline]
'''
S = [(SUB, 'a.minus(b)')]
q('fp_sub_cmp', *S, (H, subf % 'if self.n >= o.n { &self.n - &o.n } else { p - (&o.n - &self.n) }'))
q('fp_sub_lt', *S, (H, subf % 'if self.n < o.n { p + &self.n - &o.n } else { &self.n - &o.n }'))
q('fp_sub_sign', *S, (H, subf % '{ let mut d = &self.n - &o.n; if d.sign() == num_bigint::Sign::Minus { d += p; } d }'))
q('fp_sub_addp', *S, (H, subf % '(p + &self.n - &o.n) % p'))
q('fp_sub_neg_add', *S, (H, subf % '{ let c = if o.n.is_zero() { BigInt::zero() } else { p - &o.n }; let s = c + &self.n; if &s >= p { s - p } else { s } }'))
q('fp_neg_rem', (NEG, 'impl_op_ex!(-|a: &FpElt| -> FpElt { FpElt { n: (&a.f.0.p - &a.n) % &a.f.0.p, f: a.f.clone() } });'))
q('fp_neg_zero_sub', (NEG, 'impl_op_ex!(-|a: &FpElt| -> FpElt { a.f.zero() - a });'))
q('fp_mul_rem', (MUL, 'do_if_eq!(a.f == b.f, FpElt { n: (&a.n * &b.n) % &a.f.0.p, f: a.f.clone() }, ERR_BIN_OP)'))
q('fp_mul_inplace', (MUL, 'do_if_eq!(a.f == b.f, { let mut n = a.n.clone(); n *= &b.n; n %= &a.f.0.p; FpElt { n, f: a.f.clone() } }, ERR_BIN_OP)'))
q('fp_elt_rem', ('        let n = n.mod_floor(&self.0.p);\n        let f = self.clone();', '        let p = &self.0.p;\n        let mut n = n % p;\n        if n.sign() == num_bigint::Sign::Minus {\n            n += p;\n        }\n        let f = self.clone();'))
q('fp_elt_rem2', ('        let n = n.mod_floor(&self.0.p);\n        let f = self.clone();', '        let p = &self.0.p;\n        let n = ((n % p) + p) % p;\n        let f = self.clone();'))
q('fp_all_cond', *A, *S, (H, addf % 'if &s >= p { s - p } else { s }'), (H, subf % '{ let mut d = &self.n - &o.n; if d < BigInt::zero() { d += p; } d }'),
  (NEG, 'impl_op_ex!(-|a: &FpElt| -> FpElt { if a.n.is_zero() { a.clone() } else { FpElt { n: &a.f.0.p - &a.n, f: a.f.clone() } } });'),
  (MUL, 'do_if_eq!(a.f == b.f, FpElt { n: (&a.n * &b.n) % &a.f.0.p, f: a.f.clone() }, ERR_BIN_OP)'))
q('fp_inv_exact', ('        self ^ &p_minus_2', '        let n = self.n.modpow(&p_minus_2, &self.f.0.p);\n        FpElt { n, f: self.f.clone() }'))
