W,MO,E='weierstrass','montgomery','edwards'
M=[]
PC='C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C40 C41'.split()
def add(name, fam, part, *eds, checks=PC):
    M.append((name+'_'+fam[0], 'src/%s/%s.rs'%(fam,part), list(eds), checks, 'q'))
for f in (W,MO,E):
    add('sub_inline',f,'point',("{ a + (-b) }","{ let nb = b.core_neg(); a + &nb }"))
    add('sub_core',f,'point',("{ a + (-b) }","{ do_if_eq!(a.e == b.e, a.core_add(&b.core_neg()), ERR_ADD_OP) }"))
    add('add_ifne',f,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if a.e != b.e { panic!(\"{}\", ERR_ADD_OP) }\n    a.core_add(b)"))
    add('mul_fold',f,'point',("""        let mut q = self.e.identity();
        for ki in k.iter_lr() {
            q = %s;
            if ki {
                q = q + self;
            }
        }
        q"""%("q.core_doubling()" if f==W else "&q + &q"),"""        k.iter_lr().fold(self.e.identity(), |q, ki| {
            let d = &q + &q;
            if ki { d + self } else { d }
        })"""))
    add('mul_match',f,'point',("            if ki {\n                q = q + self;\n            }","            q = match ki { true => q + self, false => q };"))
    add('mul_while',f,'point',("        for ki in k.iter_lr() {","        let mut it = k.iter_lr();\n        while let Some(ki) = it.next() {"))
    add('mul_rl',f,'point',("        let mut q = self.e.identity();\n        for ki in k.iter_lr() {\n            q = %s;\n            if ki {\n                q = q + self;\n            }\n        }\n        q"%("q.core_doubling()" if f==W else "&q + &q"),"        let mut q = self.e.identity();\n        let mut b = self.clone();\n        for ki in k.iter_rl() {\n            if ki {\n                q = &q + &b;\n            }\n            b = &b + &b;\n        }\n        q"))
    add('mul_ladder',f,'point',("        let mut q = self.e.identity();\n        for ki in k.iter_lr() {\n            q = %s;\n            if ki {\n                q = q + self;\n            }\n        }\n        q"%("q.core_doubling()" if f==W else "&q + &q"),"        let mut q = self.e.identity();\n        let mut r = self.clone();\n        for ki in k.iter_lr() {\n            if ki {\n                q = &q + &r;\n                r = &r + &r;\n            } else {\n                r = &q + &r;\n                q = &q + &q;\n            }\n        }\n        q"))
    add('mul_zero',f,'point',("        let mut q = self.e.identity();\n        for ki in k.iter_lr() {","        if self.is_zero() { return self.e.identity(); }\n        let mut q = self.e.identity();\n        for ki in k.iter_lr() {"))
    add('mul_r',f,'point',("    let r = a.e.r.to_bigint().unwrap();\n    do_if_eq!(r == b.r, a.core_mul(b), ERR_MUL_OP)","    do_if_eq!(b.r == num_bigint::BigInt::from(a.e.get_order()), a.core_mul(b), ERR_MUL_OP)"))
    add('eq_noearly',f,'point',("        if self.e != other.e {\n            return false;\n        }\n","        if !(self.e == other.e) {\n            return false;\n        }\n"),("        self.e == other.e && x1z2","        x1z2"))
    add('eq_swap',f,'point',("        let x1z2 = &self.c.x * &other.c.z;","        let x1z2 = &other.c.z * &self.c.x;"))
    add('eq_sub',f,'point',("x1z2 == z1x2","(&x1z2 - &z1x2).is_zero()"))
    add('eq_zero',f,'point',("        let x1z2","        if self.is_zero() || other.is_zero() { return self.is_zero() && other.is_zero(); }\n        let x1z2"))
    add('eq_destr',f,'point',("        let x1z2 = &self.c.x * &other.c.z;\n        let z1x2 = &self.c.z * &other.c.x;","        let (a, b) = (&self.c, &other.c);\n        let x1z2 = &a.x * &b.z;\n        let z1x2 = &a.z * &b.x;"))
    add('norm_local',f,'point',("        self.c.x = &self.c.x * &inv_z;\n        self.c.y = &self.c.y * &inv_z;","        let c = &mut self.c;\n        c.x = &c.x * &inv_z;\n        c.y = &inv_z * &c.y;"))
    add('norm_z1',f,'point',("        let inv_z = 1u32 / &self.c.z;","        if self.c.z.is_one() { return; }\n        let inv_z = 1u32 / &self.c.z;"))
    add('norm_div',f,'point',("        self.c.x = &self.c.x * &inv_z;","        self.c.x = &self.c.x / &self.c.z;"))
    add('norm_zfield',f,'point',("        self.c.z.set_one();","        self.c.z = self.e.get_field().one();"),("use crate::ellipticcurve::{EcPoint, EllipticCurve, Encode};\nuse crate::field::Sgn0;","use crate::ellipticcurve::{EcPoint, EllipticCurve, Encode};\nuse crate::field::{Field, Sgn0};")if f!=E else ("use crate::ops::Serialize;","use crate::ops::Serialize;"))
    add('neg_clone',f,'point',("        self.e.new_proy_point(ProyCoordinates {\n            x: self.c.x.clone(),\n            y: -&self.c.y,\n            z: self.c.z.clone(),\n        })","        let mut p = self.clone();\n        p.c.y = -&p.c.y;\n        p") if f!=E else ("            x: -&self.c.x,\n            y: self.c.y.clone(),\n            t: -&self.c.t,\n            z: self.c.z.clone(),\n        })","            t: -&self.c.t,\n            x: -&self.c.x,\n            y: self.c.y.clone(),\n            z: self.c.z.clone(),\n        })"))
    add('newproy_if',f,'curve',("        let pt = Point { e, c };\n        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)","        let pt = Point { e, c };\n        assert!(self.is_on_curve(&pt), \"{}\", ERR_ECC_NEW);\n        pt"))
    add('newpt_delegate',f,'curve',("""        let e = self.clone();
        let f = e.get_field();
        let pt = Point {
            c: ProyCoordinates { x, y, z: f.one() },
            e,
        };
        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)""","""        self.new_proy_point(ProyCoordinates { x, y, z: self.f.one() })""") if f!=E else ("""        let e = self.clone();
        let f = e.get_field();
        let pt = Point {
            c: ProyCoordinates {
                t: &x * &y,
                x,
                y,
                z: f.one(),
            },
            e,
        };
        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)""","""        let t = &x * &y;
        self.new_proy_point(ProyCoordinates { x, y, t, z: self.f.one() })"""))
    add('newpt_decoded',f,'curve',("        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)\n    }\n    fn new_scalar" if f!=E else "        do_if_eq!(self.is_on_curve(&pt), pt, ERR_ECC_NEW)\n    }\n\n    fn new_scalar","        match self.decoded_point(pt.c.x, pt.c.y) { Ok(p) => p, Err(_) => panic!(\"{}\", ERR_ECC_NEW) }\n    }\n    fn new_scalar"))
    add('decoded_then',f,'curve',("""        if !self.is_on_curve(&pt) {
            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
        }
        Ok(pt)""","""        if self.is_on_curve(&pt) {
            Ok(pt)
        } else {
            Err(Error::new(ErrorKind::InvalidData, ERR_ECC_NEW))
        }"""))
    add('decoded_some',f,'curve',("""        if !self.is_on_curve(&pt) {
            return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));
        }
        Ok(pt)""","""        Some(pt).filter(|p| self.is_on_curve(p)).ok_or_else(|| Error::new(ErrorKind::Other, ERR_ECC_NEW))"""))
    add('gen_newpoint',f,'curve',("""        self.new_proy_point(ProyCoordinates {
            x: self.gx.clone(),
            y: self.gy.clone(),
%s            z: self.f.one(),
        })"""%("            t: &self.gx * &self.gy,\n" if f==E else ""),"        self.new_point(self.gx.clone(), self.gy.clone())"))
    add('iden_lit',f,'curve',("    fn identity(&self) -> Self::Point {\n","    fn identity(&self) -> Self::Point {\n        let zero = self.f.from(0u32);\n        let one = self.f.from(1u32);\n        debug_assert!(zero.is_zero() && one != zero);\n"))
    add('display_pt',f,'point',('"\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z','"\\nx: {x}\\ny: {y}\\nz: {z}", x = self.c.x, y = self.c.y, z = self.c.z') if f!=E else ('self.c.x','&self.c.x'),checks=['C42'])
for f in (W,MO):
    add('zero_struct',f,'point',("self.c.x.is_zero() && !self.c.y.is_zero() && self.c.z.is_zero()","{ let ProyCoordinates { x, y, z } = &self.c; z.is_zero() && x.is_zero() && !y.is_zero() }"))
    add('zero_z',f,'point',("self.c.x.is_zero() && !self.c.y.is_zero() && self.c.z.is_zero()","self.c.z.is_zero()"))
    add('enc_noclone',f,'point',("""        let mut p_normal = self.clone();
        p_normal.normalize();
""","""        if self.is_zero() {
            return vec![0u8];
        }
        let mut p_normal = self.clone();
        p_normal.normalize();
"""))
    add('enc_concat',f,'point',("""            let mut o: Vec<u8> = vec![0x04];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            o""","""            [vec![0x04u8], x_bytes, y_bytes].concat()"""),('let mut y_bytes','let y_bytes'))
    add('enc_extend',f,'point',("""            let mut o: Vec<u8> = vec![0x04];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            o""","""            let mut o = Vec::with_capacity(1 + x_bytes.len() + y_bytes.len());
            o.push(4);
            o.extend_from_slice(&x_bytes);
            o.extend(y_bytes);
            o"""),('let mut y_bytes','let y_bytes'))
    add('enc_iter',f,'point',("""            let mut o: Vec<u8> = vec![0x04];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            o""","""            std::iter::once(4u8).chain(x_bytes).chain(y_bytes).collect()"""),('let mut y_bytes','let y_bytes'))
    add('enc_tagif',f,'point',("let tag = (((s >> 1) & 0x1) + 2) as u8;","let tag: u8 = if s < 0 { 3 } else { 2 };"))
    add('enc_tagmatch',f,'point',("let tag = (((s >> 1) & 0x1) + 2) as u8;","let tag: u8 = match s { -1 => 0x03, _ => 0x02 };"))
    add('enc_tagpar',f,'point',("let tag = (((s >> 1) & 0x1) + 2) as u8;","let tag: u8 = 2 | (y_bytes[y_bytes.len() - 1] & 1); let _ = s;"))
    add('enc_norm',f,'point',("        let coords = &p_normal.c;\n        let x = &coords.x;\n        let y = &coords.y;","        let ProyCoordinates { x, y, .. } = &p_normal.c;"))
    add('enc_split',f,'point',("""        if compress {
            let s""","""        if !compress {
            let mut o = vec![0x04u8];
            o.append(&mut x_bytes);
            o.append(&mut y_bytes);
            return o;
        }
        if compress {
            let s"""))
    add('dec_match',f,'curve',("        if !(blen == 1 || blen == (size + 1) || blen == (2 * size + 1)) {","        if blen != 1 && blen != size + 1 && blen != 2 * size + 1 {"))
    add('dec_empty',f,'curve',("        let size = self.f.size_bytes();\n        let blen","        if buf.is_empty() {\n            return Err(Error::new(ErrorKind::Other, \"empty\"));\n        }\n        let size = self.f.size_bytes();\n        let blen"))
    add('dec_first',f,'curve',("        let tag = buf[0];","        let tag = *buf.first().unwrap();"))
    add('dec_split',f,'curve',("        let tag = buf[0];","        let (head, _rest) = buf.split_at(1);\n        let tag = head[0];"))
    add('dec_helper',f,'curve',("""        let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);
        let p = self.f.get_modulus();
        if x_val >= p {
            return Err(Error::new(ErrorKind::Other, "Invalid x coordinate"));
        }""","""        let p = self.f.get_modulus();
        let x_val = Self::coord(&buf[1..size + 1], &p)?;"""),("    pub(crate) fn new_proy_point","    fn coord(b: &[u8], p: &BigInt) -> Result<BigInt, Error> {\n        let v = BigInt::from_bytes_be(Sign::Plus, b);\n        if &v < p {\n            Ok(v)\n        } else {\n            Err(Error::new(ErrorKind::Other, \"Invalid coordinate\"))\n        }\n    }\n    pub(crate) fn new_proy_point"))
    add('dec_biguint',f,'curve',("let x_val = BigInt::from_bytes_be(Sign::Plus, &buf[1..size + 1]);","let x_val = BigInt::from(BigUint::from_bytes_be(&buf[1..=size]));"))
    add('dec_frombytes',f,'curve',("                let x = self.f.elt(x_val);\n                let y_val","                let x = FromFactory::from(&self.f, x_val);\n                let y_val"))
    add('dec_tagif',f,'curve',("let deser_tag = (((s >> 1) & 0x1) + 2) as u8;","let deser_tag: u8 = if s == 1 { 2 } else { 3 };"))
    add('dec_noz',f,'curve',("""                if tag != deser_tag {
                    if y.is_zero() {
                        return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
                    }
                    y = -y;
                }""","""                if y.is_zero() && tag != deser_tag {
                    return Err(Error::new(ErrorKind::Other, "Invalid tag specified"));
                }
                if tag != deser_tag {
                    y = -y;
                }"""))
    add('dec_shadow',f,'curve',("                let mut y = y_sqrt;\n                if tag != deser_tag {\n                    if y.is_zero() {\n                        return Err(Error::new(ErrorKind::Other, \"Invalid tag specified\"));\n                    }\n                    y = -y;\n                }","                if tag != deser_tag && y_sqrt.is_zero() {\n                    return Err(Error::new(ErrorKind::Other, \"Invalid tag specified\"));\n                }\n                let y = if tag == deser_tag { y_sqrt } else { -y_sqrt };"))
    add('dec_cmov',f,'curve',("                    y = -y;\n                }","                    let ny = -&y;\n                    y = ny;\n                }"))
    add('dec_merge1',f,'curve',("""            0x00 => {
                // return point of infinity
                if buf.len() != 1 {
                    return Err(Error::new(
                        ErrorKind::Other,
                        "Point at infinity should just be a single zero byte",
                    ));
                }
                Ok(self.identity())
            }
""",""))
    add('dec_issq',f,'curve',("let y_sqrt = %s.sqrt();"%("xxx_ax_b" if f==W else "yy"),"let gx = %s;\n                if !gx.is_square() {\n                    return Err(Error::new(ErrorKind::Other, ERR_ECC_NEW));\n                }\n                let y_sqrt = gx.sqrt();"%("xxx_ax_b" if f==W else "yy")))
    add('dec_oob',f,'curve',("BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..])","BigInt::from_bytes_be(Sign::Plus, &buf[size + 1..2 * size + 1])"))
# on-curve
add('onc_horner',W,'curve',("""        let x3 = &p.x * &(&p.x ^ 2u32);
        let bz = &self.b * &p.z;
        let ax = &self.a * &p.x;
        let zz = &p.z * &(ax + &bz);
        let zy = &p.z * &(zz - &(&p.y ^ 2u32));
        let eq = x3 + &zy;
        eq.is_zero()""","""        let (x, y, z) = (&p.x, &p.y, &p.z);
        let z2 = z * z;
        let lhs = y * y * z;
        let rhs = (x * x + &self.a * &z2) * x + &self.b * z * &z2;
        lhs == rhs"""))
add('onc_z1',W,'curve',("        let x3 = &p.x * &(&p.x ^ 2u32);","        if p.z.is_zero() {\n            return p.x.is_zero();\n        }\n        let x3 = &p.x * &(&p.x ^ 2u32);"))
add('onc_eq',MO,'curve',("        let e = l - r;\n        e.is_zero()","        l == r"))
add('onc_fac',MO,'curve',("&p.x * &((&p.x ^ 2u32) + &self.a * &p.x * &p.z + &(&p.z ^ 2u32))","{ let x2 = &p.x * &p.x; let z2 = &p.z * &p.z; &p.x * &(x2 + z2 + &p.x * &p.z * &self.a) }"))
add('onc_early',E,'curve',("        e1.is_zero() && e2.is_zero()","        if !e2.is_zero() { return false; }\n        e1.is_zero()"))
add('onc_eq',E,'curve',("        let e1 = l1 - r1;\n        let e2 = l2 - r2;\n        e1.is_zero() && e2.is_zero()","        (l1 == r1) & (l2 == r2)"))
# group laws
add('add_xyz',W,'point',("        t1 = &t0 + &t0; // 25. t1 = t0 + t0\n        t1 = &t1 + &t0; // 26. t1 = t1 + t0","        t1 = 3u32_times(&t0);"),("impl Eq for Point {}","#[allow(non_snake_case)]\nfn three(t: &FpElt) -> FpElt { t + t + t }\nimpl Eq for Point {}"),) if False else None
add('add_b3',W,'point',("        let b3 = &self.e.b + &self.e.b + &self.e.b;\n        let (x1","        let b3 = { let t = &self.e.b; &(t + t) + t };\n        let (x1"))
add('add_schoolbook',W,'point',("        t3 = &t3 * &t4; //  6. t3 = t3 * t4\n        t4 = &t0 + &t1; //  7. t4 = t0 + t1\n        t3 = &t3 - &t4; //  8. t3 = t3 - t4","        t3 = x1 * y2 + x2 * y1;"))
add('add_dbl',W,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if std::ptr::eq(a, b) { a.core_doubling() } else { do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP) }"))
add('dbl_add',W,'point',("q = q.core_doubling();","q = &q + &q;"))
add('dbl_eq',W,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if a.e != b.e { panic!(\"{}\", ERR_ADD_OP) }\n    if a == b { a.core_doubling() } else { a.core_add(b) }"))
add('add_iden',W,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if a.e != b.e { panic!(\"{}\", ERR_ADD_OP) }\n    if a.is_zero() { return b.clone(); }\n    if b.is_zero() { return a.clone(); }\n    a.core_add(b)"))
add('add_iden',MO,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if a.e != b.e { panic!(\"{}\", ERR_ADD_OP) }\n    if a.is_zero() { return b.clone(); }\n    if b.is_zero() { return a.clone(); }\n    a.core_add(b)"))
add('add_iden',E,'point',("    do_if_eq!(a.e == b.e, a.core_add(b), ERR_ADD_OP)","    if a.e != b.e { panic!(\"{}\", ERR_ADD_OP) }\n    if a.is_zero() { return b.clone(); }\n    if b.is_zero() { return a.clone(); }\n    a.core_add(b)"))
add('dbl_23',W,'point',("        t2 = &t2 + &t2; // 26. t2 = t2 + t2\n        t0 = &t2 * &t3; // 27. t2 = t2 * t3","        t2 = &t2 + &t2;\n        t0 = &t3 * &t2;"))
add('add_reord',MO,'point',("        let x3 = &rr * &ss - &tt * &uu;\n        let y3 = tt * &ww - &vv * &ss;","        let y3 = &tt * &ww - &vv * &ss;\n        let x3 = &rr * &ss - &tt * &uu;"))
add('add_cross',E,'point',("(x1 + y1) * (x2 + y2) - &aa - &bb","x1 * y2 + x2 * y1"))
add('add_neg',E,'point',("        let hh = bb - aa * a_ec;","        let ax = &aa * a_ec;\n        let hh = bb - &ax;"))
add('zero_struct',E,'point',("self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()","{ let c = &self.c; !c.z.is_zero() && c.y == c.z && c.x.is_zero() && c.t.is_zero() }"))
add('zero_id',E,'point',("self.c.x.is_zero() && self.c.y == self.c.z && self.c.t.is_zero() && !self.c.z.is_zero()","*self == self.e.identity()"))
add('zero_id',W,'point',("self.c.x.is_zero() && !self.c.y.is_zero() && self.c.z.is_zero()","*self == self.e.identity()"))
add('eq_t',E,'point',(" && t1z2 == z1t2",""),("        let t1z2 = &self.c.t * &other.c.z;\n        let z1t2 = &self.c.z * &other.c.t;\n",""))
add('enc_push',E,'point',("        enc.resize(size, 0u8);","        while enc.len() < size {\n            enc.push(0);\n        }"))
add('enc_last',E,'point',("        let last = enc.len() - 1;\n        enc[last] |= x_0;","        *enc.last_mut().unwrap() |= x_0;"))
add('enc_if',E,'point',("        let x_0 = (((x.sgn0() >> 1) & 0x01) << 7) as u8;","        let x_0: u8 = if x.sgn0() == -1 { 0x80 } else { 0 };"))
add('enc_par',E,'point',("        enc[last] |= x_0;","        if x_0 != 0 {\n            enc[last] += 0x80;\n        }"))
add('enc_size',E,'point',("(p.bits() as usize + 1 + 7) / 8","p.bits() as usize / 8 + 1"))
add('enc_affine',E,'point',("        let mut p_normal = self.clone();\n        p_normal.normalize();\n        let coords = p_normal.c;\n        let x = &coords.x;\n        let y = &coords.y;","        let iz = 1u32 / &self.c.z;\n        let x = &(&self.c.x * &iz);\n        let y = &(&self.c.y * &iz);"))
add('dec_size',E,'curve',("(modulus.bits() as usize + 1 + 7) / 8","modulus.bits() as usize / 8 + 1"))
add('dec_split',E,'curve',("        let mut y_bytes = buf.to_vec();\n        y_bytes[last_byte] &= &127; // clear msb","        let mut y_bytes = Vec::from(buf);\n        y_bytes[last_byte] &= 0x7f;"))
add('dec_vec2',E,'curve',("        let mut y_bytes = buf.to_vec();\n        y_bytes[last_byte] &= &127; // clear msb","        let mut y_bytes = buf[..last_byte].to_vec();\n        y_bytes.push(buf[last_byte] & 0x7f);"))
add('dec_sub',E,'curve',("        let minus_one = -self.f.one();\n        let u = &yy + &minus_one;","        let u = &yy - self.f.one();"))
add('dec_isz',E,'curve',("x_sqrt == self.f.zero() && x_0 == 0x01","x_0 == 1 && x_sqrt.is_zero()"))
add('dec_bool',E,'curve',("        let x_0 = (buf[last_byte] >> 7) & 0x01;","        let x_0 = u8::from(buf[last_byte] & 0x80 != 0);"))
add('dec_xif',E,'curve',("        let mut x = x_sqrt;\n        if tag != x_0 {\n            x = -x;\n        }","        let x = if tag == x_0 { x_sqrt } else { -x_sqrt };"))
add('dec_tag',E,'curve',("        let tag = ((x_sqrt.sgn0() >> 1) & 0x01) as u8;","        let tag: u8 = if x_sqrt.sgn0() < 0 { 1 } else { 0 };"))
add('dec_rem',E,'curve',("let y_zz = BigInt::from_bytes_le(Sign::Plus, &y_bytes);","y_bytes.reverse();\n        let y_zz = BigInt::from_bytes_be(Sign::Plus, &y_bytes);"))
M=[m for m in M if m]
