SC = {'w': 'src/weierstrass/scalar.rs', 'm': 'src/montgomery/scalar.rs', 'e': 'src/edwards/scalar.rs'}
src = open('/repo/' + SC['e']).read()
NEXT = src[src.index('impl std::iter::Iterator for Iterino'):src.index('impl Scalar {\n    pub fn iter_lr')]
BOTH = src[src.index('impl Scalar {\n    pub fn iter_lr'):src.index('impl std::fmt::Display for Scalar')]
STRUCT = src[src.index('struct Iterino'):src.index('impl std::iter::Iterator for Iterino')]
IMPL = 'impl std::iter::Iterator<Item = bool>'
M = []


def q(n, *eds):
    for k in 'e':
        M.append((n + '_' + k, SC[k], list(eds), ['C19', 'C25', 'C15', 'C41', 'C45'][:4], 'q'))


def both(lr, rl, extra=''):
    return extra + 'impl Scalar {\n    pub fn iter_lr(&self) -> %s {\n%s\n    }\n    pub fn iter_rl(&self) -> %s {\n%s\n    }\n}\n\n' % (IMPL, lr, IMPL, rl)


DROP = [(STRUCT, ''), (NEXT, '')]
q('it_map_bit', *DROP, (BOTH, both('        let k = self.k.clone();\n        (0..k.bits()).rev().map(move |i| k.bit(i))', '        let k = self.k.clone();\n        (0..k.bits()).map(move |i| k.bit(i))')))
q('it_map_shr', *DROP, (BOTH, both('        let k = self.k.clone();\n        (0..k.bits() as usize).rev().map(move |i| (&k >> i).is_odd())', '        let k = self.k.clone();\n        (0..k.bits() as usize).map(move |i| (&k >> i).is_odd())')))
q('it_map_digits', *DROP, (BOTH, both('        let l = self.k.bits() as usize;\n        let (_, v) = self.k.to_u32_digits();\n        (0..l).rev().map(move |i| v[i / 32] >> (i % 32) & 1 == 1)', '        let l = self.k.bits() as usize;\n        let (_, v) = self.k.to_u32_digits();\n        (0..l).map(move |i| v[i / 32] >> (i % 32) & 1 == 1)')))
q('it_map_digits64', *DROP, (BOTH, both('        let l = self.k.bits() as usize;\n        let (_, v) = self.k.to_u64_digits();\n        (0..l).rev().map(move |i| v[i / 64] >> (i % 64) & 1 == 1)', '        let l = self.k.bits() as usize;\n        let (_, v) = self.k.to_u64_digits();\n        (0..l).map(move |i| v[i / 64] >> (i % 64) & 1 == 1)')))
q('it_collect', *DROP, (BOTH, both('        let mut b = self.bits();\n        b.reverse();\n        b.into_iter()', '        self.bits().into_iter()', 'impl Scalar {\n    fn bits(&self) -> Vec<bool> {\n        (0..self.k.bits()).map(|i| self.k.bit(i)).collect()\n    }\n}\n\n')))
q('it_collect_rev', *DROP, (BOTH, both('        self.bits().into_iter().rev()', '        self.bits().into_iter()', 'impl Scalar {\n    fn bits(&self) -> Vec<bool> {\n        let mut out = Vec::with_capacity(self.k.bits() as usize);\n        for i in 0..self.k.bits() {\n            out.push(self.k.bit(i));\n        }\n        out\n    }\n}\n\n')))
q('it_bytes_flat', *DROP, (BOTH, both('        let l = self.k.bits() as usize;\n        let (_, b) = self.k.to_bytes_le();\n        (0..l).rev().map(move |i| b[i >> 3] & (1u8 << (i & 7)) != 0)', '        let l = self.k.bits() as usize;\n        let (_, b) = self.k.to_bytes_le();\n        (0..l).map(move |i| b[i >> 3] & (1u8 << (i & 7)) != 0)')))
q('it_from_fn', *DROP, (BOTH, both('        let k = self.k.clone();\n        let mut i = k.bits();\n        std::iter::from_fn(move || {\n            if i == 0 {\n                None\n            } else {\n                i -= 1;\n                Some(k.bit(i))\n            }\n        })', '        let k = self.k.clone();\n        let mut i = 0;\n        std::iter::from_fn(move || {\n            if i < k.bits() {\n                i += 1;\n                Some(k.bit(i - 1))\n            } else {\n                None\n            }\n        })')))
RG = 'struct Iterino {\n    r: std::ops::Range<usize>,\n    v: std::vec::Vec<u32>,\n    is_lr: bool,\n}\n\n'
q('it_range', (STRUCT, RG), (NEXT, '''impl std::iter::Iterator for Iterino {
    type Item = bool;
    fn next(&mut self) -> Option<Self::Item> {
        let i = if self.is_lr { self.r.next_back()? } else { self.r.next()? };
        Some((self.v[i / 32usize] >> (i % 32)) & 1 != 0)
    }
}

'''), (BOTH, both('        self.bits(true)', '        self.bits(false)', 'impl Scalar {\n    fn bits(&self, is_lr: bool) -> Iterino {\n        Iterino { r: 0..self.k.bits() as usize, v: self.k.to_u32_digits().1, is_lr }\n    }\n}\n\n')))
q('it_opt', (STRUCT, 'struct Iterino {\n    i: Option<usize>,\n    l: usize,\n    v: std::vec::Vec<u32>,\n    is_lr: bool,\n}\n\n'), (NEXT, '''impl std::iter::Iterator for Iterino {
    type Item = bool;
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.i?;
        self.i = if self.is_lr { i.checked_sub(1) } else { Some(i + 1).filter(|j| *j < self.l) };
        Some((self.v[i / 32usize] >> (i % 32)) & 1 != 0)
    }
}

'''), (BOTH, both('        let l = self.k.bits() as usize;\n        Iterino { i: l.checked_sub(1), l, v: self.k.to_u32_digits().1, is_lr: true }', '        let l = self.k.bits() as usize;\n        Iterino { i: if l == 0 { None } else { Some(0) }, l, v: self.k.to_u32_digits().1, is_lr: false }')))
q('it_left', (STRUCT, 'struct Iterino {\n    left: usize,\n    l: usize,\n    k: BigInt,\n    is_lr: bool,\n}\n\n'), (NEXT, '''impl std::iter::Iterator for Iterino {
    type Item = bool;
    fn next(&mut self) -> Option<Self::Item> {
        if self.left == 0 {
            return None;
        }
        let pos = if self.is_lr { self.left - 1 } else { self.l - self.left };
        self.left -= 1;
        Some(self.k.bit(pos as u64))
    }
}

'''), (BOTH, both('        let l = self.k.bits() as usize;\n        Iterino { left: l, l, k: self.k.clone(), is_lr: true }', '        let l = self.k.bits() as usize;\n        Iterino { left: l, l, k: self.k.clone(), is_lr: false }')))
q('it_two', (STRUCT, 'struct LeftRight {\n    i: usize,\n    v: std::vec::Vec<u32>,\n}\nstruct RightLeft {\n    i: usize,\n    l: usize,\n    v: std::vec::Vec<u32>,\n}\n\n#[inline]\nfn bit_at(v: &[u32], i: usize) -> bool {\n    (v[i / 32] >> (i % 32)) & 1 == 1\n}\n\n'), (NEXT, '''impl std::iter::Iterator for LeftRight {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        self.i = self.i.checked_sub(1)?;
        Some(bit_at(&self.v, self.i))
    }
}
impl std::iter::Iterator for RightLeft {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.i >= self.l {
            return None;
        }
        let b = bit_at(&self.v, self.i);
        self.i += 1;
        Some(b)
    }
}

'''), (BOTH, both('        LeftRight { i: self.k.bits() as usize, v: self.k.to_u32_digits().1 }', '        RightLeft { i: 0, l: self.k.bits() as usize, v: self.k.to_u32_digits().1 }')))
q('it_shrink', (STRUCT, 'struct Iterino {\n    k: BigInt,\n    n: u64,\n    is_lr: bool,\n}\n\n'), (NEXT, '''impl std::iter::Iterator for Iterino {
    type Item = bool;
    fn next(&mut self) -> Option<Self::Item> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        if self.is_lr {
            Some(self.k.bit(self.n))
        } else {
            let b = self.k.is_odd();
            self.k >>= 1u32;
            Some(b)
        }
    }
}

'''), (BOTH, both('        Iterino { k: self.k.clone(), n: self.k.bits(), is_lr: true }', '        Iterino { k: self.k.clone(), n: self.k.bits(), is_lr: false }')))
q('it_size_hint', (NEXT, NEXT.replace('    type Item = bool;\n', '''    type Item = bool;
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.i >= self.l {
            0
        } else if self.is_lr {
            self.i + 1
        } else {
            self.l - self.i
        };
        (n, Some(n))
    }
''')))
