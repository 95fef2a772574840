W='src/instances/weier.rs'; D='src/instances/edw.rs'; T='src/instances/mont.rs'; R='src/instances/rational_maps.rs'
WC='src/weierstrass/curve.rs'; EC='src/edwards/curve.rs'; MC='src/montgomery/curve.rs'
WP='src/weierstrass/point.rs'; EP='src/edwards/point.rs'; MP='src/montgomery/point.rs'
WS='src/weierstrass/scalar.rs'; P='src/primefield/mod.rs'; Q='src/quadraticfield/mod.rs'
M=[]
IC='C39 C40 C42 C21 C36 C38 C15 C16'.split(); TC='C42 C41 C07 C12'.split(); SC='C15 C16 C01 C05 C08 C11 C41'.split()
def ins(n,f,*e): M.append((n,f,list(e),IC,'q'))
def txt(n,f,*e): M.append((n,f,list(e),TC,'q'))
def sha(n,f,*e): M.append((n,f,list(e),SC,'q'))
# instances
ins('get_into',W,("Curve::from(self.0)","self.0.into()"))
ins('get_named_field',W,("pub struct WeCurveID(&'static Params);","pub struct WeCurveID {\n    params: &'static Params,\n}"),("Curve::from(self.0)","Curve::from(self.params)"),("self.0.name","self.params.name"),
 ("WeCurveID(P256_PARAMS)","WeCurveID { params: P256_PARAMS }"),("WeCurveID(P384_PARAMS)","WeCurveID { params: P384_PARAMS }"),("WeCurveID(P521_PARAMS)","WeCurveID { params: P521_PARAMS }"),("WeCurveID(SECP256K1_PARAMS)","WeCurveID { params: SECP256K1_PARAMS }"),("WeCurveID(SECP256K1_3ISO_PARAMS)","WeCurveID { params: SECP256K1_3ISO_PARAMS }"),("WeCurveID(BLS12381G1_PARAMS)","WeCurveID { params: BLS12381G1_PARAMS }"),("WeCurveID(BLS12381G1_11ISO_PARAMS)","WeCurveID { params: BLS12381G1_11ISO_PARAMS }"))
ins('p256_hex',W,('p: "115792089210356248762697446949407573530086143415290314195533631308867097853951",\n    a: "-3"','p: "115792089210356248762697446949407573530086143415290314195533631308867097853951",\n    a: "115792089210356248762697446949407573530086143415290314195533631308867097853948"'))
ins('p256_b_hex',W,('b: "41058363725152142129326129780047268409114441015993725554835256314039467401291"','b: "0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"'))
ins('params_inline',W,("pub static P256: WeCurveID = WeCurveID(P256_PARAMS);","pub static P256: WeCurveID = WeCurveID(&Params {\n    name: \"P256\",\n    p: \"115792089210356248762697446949407573530086143415290314195533631308867097853951\",\n    a: \"-3\",\n    b: \"41058363725152142129326129780047268409114441015993725554835256314039467401291\",\n    r: \"115792089210356248762697446949407573529996955224135760342422259061068512044369\",\n    h: \"1\",\n    gx: \"48439561293906451759052585252797914202762949526041747995844080717082404635286\",\n    gy: \"36134250956749795798585127919587881956611106672985015071877198253568414405109\",\n});"),("static P256_PARAMS","#[allow(dead_code)]\nstatic P256_PARAMS"))
ins('params_const',W,("static SECP256K1_PARAMS: &Params","const SECP256K1_PARAMS: &Params"))
ins('params_const_p',W,("static SECP256K1_PARAMS: &Params","const SECP_P: &str = \"115792089237316195423570985008687907853269984665640564039457584007908834671663\";\nstatic SECP256K1_PARAMS: &Params"),
 ('name: "secp256k1",\n    p: "115792089237316195423570985008687907853269984665640564039457584007908834671663"','name: "secp256k1",\n    p: SECP_P'),
 ('name: "secp256k1_3iso",\n    p: "115792089237316195423570985008687907853269984665640564039457584007908834671663"','name: "secp256k1_3iso",\n    p: SECP_P'))
ins('params_update',W,('name: "secp256k1_3iso",\n    p: "115792089237316195423570985008687907853269984665640564039457584007908834671663",\n','name: "secp256k1_3iso",\n'),('gy: "82553647407850972504999846303729620951309077682374043495922869307182479212755",\n','gy: "82553647407850972504999846303729620951309077682374043495922869307182479212755",\n    ..*SECP256K1_PARAMS\n'))
ins('ed_a',D,('a: "-1"','a: "57896044618658097711785492504343953926634992332820282019728792003956564819948"'))
ins('ed_d_neg',D,('d: "-39081"','d: "726838724295606890549323807888004534353641360687318060281490199180612328166730772686396383698676545930088884461843637361053498018326358"'))
ins('from_let',WC,("""        Curve {
            a: f.from(params.a),
            b: f.from(params.b),
            r: BigUint::from_str(params.r).unwrap(),
            h: BigUint::from_str(params.h).unwrap(),
            gx: f.from(params.gx),
            gy: f.from(params.gy),
            f,
        }""","""        let r = params.r.parse().unwrap();
        let h = params.h.parse().unwrap();
        let (a, b) = (f.from(params.a), f.from(params.b));
        let gx = f.from(params.gx);
        let gy = f.from(params.gy);
        Curve { f, a, b, r, h, gx, gy }"""))
ins('from_new',WC,("""        Curve {
            a: f.from(params.a),
            b: f.from(params.b),
            r: BigUint::from_str(params.r).unwrap(),
            h: BigUint::from_str(params.h).unwrap(),
            gx: f.from(params.gx),
            gy: f.from(params.gy),
            f,
        }""","""        Curve::new(
            f.clone(),
            f.from(params.a),
            f.from(params.b),
            BigUint::from_str(params.r).unwrap(),
            BigUint::from_str(params.h).unwrap(),
            f.from(params.gx),
            f.from(params.gy),
        )"""),("impl std::fmt::Display for Curve","""impl Curve {
    fn new(f: Fp, a: FpElt, b: FpElt, r: BigUint, h: BigUint, gx: FpElt, gy: FpElt) -> Self {
        Curve { f, a, b, r, h, gx, gy }
    }
}
impl std::fmt::Display for Curve"""))
ins('from_big',WC,("impl<'a> std::convert::From","fn big(s: &str) -> BigUint {\n    BigUint::from_str(s).expect(\"decimal numeral\")\n}\n\nimpl<'a> std::convert::From"),("BigUint::from_str(params.r).unwrap()","big(params.r)"),("BigUint::from_str(params.h).unwrap()","big(params.h)"),("BigUint::from_str(params.p).unwrap()","big(params.p)"))
ins('from_radix',WC,("BigUint::from_str(params.r).unwrap()","BigUint::parse_bytes(params.r.as_bytes(), 10).unwrap()"))
ins('from_elt',EC,("f.from(params.gx)","f.elt(num_bigint::BigInt::from_str(params.gx).unwrap())")) 
ins('from_destruct',EC,("    fn from(params: &'a Params) -> Curve {","    fn from(params: &'a Params) -> Curve {\n        let Params { gx, gy, .. } = params;"),("f.from(params.gx)","f.from(*gx)"),("f.from(params.gy)","f.from(*gy)"))
ins('mt_get_fn',T,("Curve::from(self.0)","let params: &Params = self.0;\n        let curve: Curve = params.into();\n        curve"))
ins('iso_vec_map',R,("""        x_den: vec![
            f.from("0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b"),
            f.from("0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14"),
            f.one(),
            f.zero(),
        ],""","""        x_den: [
            "0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b",
            "0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14",
            "0x1",
            "0x0",
        ]
        .iter()
        .map(|&s| f.from(s))
        .collect(),"""))
ins('iso_const_table',R,("""            f.from("0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b"),
            f.from("0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14"),
""","""            f.from(X_DEN[0]),
            f.from(X_DEN[1]),
"""),("struct Isosecp256k1 {","""const X_DEN: [&str; 2] = [
    "0xd35771193d94918a9ca34ccbb7b640dd86cd409542f8487d9fe6b745781eb49b",
    "0xedadc6f64383dc1df7c4b2d51b54225406d36b641f5e41bbc52a56612a8c6d14",
];

struct Isosecp256k1 {"""))
ins('iso_from_one',R,("            f.one(),\n            f.zero(),\n        ],\n        y_num","            f.from(1),\n            f.from(0),\n        ],\n        y_num"))
ins('invsqr_neg',R,('f.from("6853475219497561581579357271197624642482790079785650197046958215289687604742")','-f.from("51042569399160536130206135233146329284152202253034631822681833788666877215207")'))
# text
txt('d_pad',P,('write!(f, "{}", x)','f.write_fmt(format_args!("{}", x))'))
txt('d_fmt',P,('write!(f, "{}", x)','std::fmt::Display::fmt(&x, f)'))
txt('d_tostring',P,('write!(f, "{}", x)','f.write_str(&x.to_string())'))
txt('d_str10',P,('write!(f, "{}", x)','f.write_str(&x.to_str_radix(10))'))
txt('d_inline',P,('let x = self.n.mod_floor(&self.f.0.p);\n        write!(f, "{}", x)','write!(f, "{}", self.n.mod_floor(&self.f.0.p))'))
txt('d_nomod',P,('let x = self.n.mod_floor(&self.f.0.p);\n        write!(f, "{}", x)','write!(f, "{}", self.n)'))
txt('d_captured',P,('write!(f, "{}", x)','write!(f, "{x}")'))
txt('d_rembig',P,('self.n.mod_floor(&self.f.0.p)','((&self.n % &self.f.0.p) + &self.f.0.p) % &self.f.0.p'))
txt('q_tos',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let (a, b) = (&self.n[0], &self.n[1]);\n        write!(f, "{}+i*{}", a, b)'))
txt('q_two',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','write!(f, "{}", self.n[0])?;\n        write!(f, "+i*{}", self.n[1])'))
txt('q_strs',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','std::fmt::Display::fmt(&self.n[0], f)?;\n        f.write_str("+i*")?;\n        std::fmt::Display::fmt(&self.n[1], f)'))
txt('q_pos',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','write!(f, "{0}+{2}*{1}", self.n[0], self.n[1], "i")'))
txt('q_named',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','write!(f, "{re}+i*{im}", re = self.n[0], im = self.n[1])'))
txt('q_string',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let s = format!("{}+i*{}", self.n[0], self.n[1]);\n        f.write_str(&s)'))
txt('q_push',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let mut s = self.n[0].to_string();\n        s.push_str("+i*");\n        s += &self.n[1].to_string();\n        f.write_str(&s)'))
txt('q_join',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let parts = [self.n[0].to_string(), self.n[1].to_string()];\n        f.write_str(&parts.join("+i*"))'))
txt('p_loop',WP,('write!(f, "\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z)','let parts = [("x", &self.c.x), ("y", &self.c.y), ("z", &self.c.z)];\n        for (name, v) in parts.iter() {\n            write!(f, "\\n{}: {}", name, v)?;\n        }\n        Ok(())'))
txt('p_seq',MP,('write!(f, "\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z)','write!(f, "\\nx: {}", self.c.x)?;\n        write!(f, "\\ny: {}", self.c.y)?;\n        write!(f, "\\nz: {}", self.c.z)?;\n        Ok(())'))
txt('p_ln',MP,('write!(f, "\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z)','writeln!(f)?;\n        writeln!(f, "x: {}", self.c.x)?;\n        writeln!(f, "y: {}", self.c.y)?;\n        write!(f, "z: {}", self.c.z)'))
txt('p_and_then',MP,('write!(f, "\\nx: {}\\ny: {}\\nz: {}", self.c.x, self.c.y, self.c.z)','write!(f, "\\nx: {}\\ny: {}", self.c.x, self.c.y).and_then(|_| write!(f, "\\nz: {}", self.c.z))'))
txt('s_del',WS,('write!(f, "{}", self.k)','std::fmt::Display::fmt(&self.k, f)'))
txt('fp_str',P,('write!(f, "GF({})", &self.0.p)','f.write_str("GF(")?;\n        write!(f, "{}", self.0.p)?;\n        f.write_str(")")'))
txt('fp_char',P,('write!(f, "GF({})", &self.0.p)','use std::fmt::Write;\n        write!(f, "GF({}", self.0.p)?;\n        f.write_char(\')\')'))
txt('curve_split',WC,('"Weierstrass Curve y^2=x^3+ax+b\\na: {}\\nb: {}",','"{}\\na: {}\\nb: {}",\n            "Weierstrass Curve y^2=x^3+ax+b",'))
txt('curve_ln',WC,("""        write!(
            f,
            "Weierstrass Curve y^2=x^3+ax+b\\na: {}\\nb: {}",
            self.a, self.b,
        )""",'        writeln!(f, "Weierstrass Curve y^2=x^3+ax+b")?;\n        writeln!(f, "a: {}", self.a)?;\n        write!(f, "b: {}", self.b)'))
txt('id_name',W,('write!(f, "{}", self.0.name)','f.write_str(self.0.name)'))
txt('id_pad',D,('write!(f, "{}", self.0.name)','std::fmt::Display::fmt(self.0.name, f)'))

txt('q_collect',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let s: String = vec![self.n[0].to_string(), "+i*".to_string(), self.n[1].to_string()].into_iter().collect();\n        f.write_str(&s)'))
txt('q_concat',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','let s = self.n[0].to_string() + "+i*" + &self.n[1].to_string();\n        f.pad(&s)'))
txt('q_writestr',Q,('write!(f, "{}+i*{}", self.n[0], self.n[1])','use std::fmt::Write;\n        let mut s = String::new();\n        write!(s, "{}", self.n[0])?;\n        s.push(\'+\');\n        s += "i*";\n        write!(&mut s, "{}", self.n[1])?;\n        f.write_str(s.as_str())'))
# sharing
sha('mutex',P,("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, Mutex};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: Mutex<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: Mutex::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let mut slot = self.0.sqrt_precmp.lock().unwrap();
        if slot.is_none() {
            *slot = Some(self.calc_sqrt_precmp());
        }
        slot.clone().unwrap()"""))
sha('mutex_get_or',P,("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, Mutex};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: Mutex<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: Mutex::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let mut slot = self.0.sqrt_precmp.lock().unwrap();
        slot.get_or_insert_with(|| self.calc_sqrt_precmp()).clone()"""))
sha('rwlock',P,("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, RwLock};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: RwLock<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: RwLock::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        if let Some(pre) = self.0.sqrt_precmp.read().unwrap().as_ref() {
            return pre.clone();
        }
        let pre = self.calc_sqrt_precmp();
        *self.0.sqrt_precmp.write().unwrap() = Some(pre.clone());
        pre"""))
sha('nocache',P,("use std::sync::{Arc, OnceLock};","use std::sync::Arc;"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,\n",""),("            sqrt_precmp: OnceLock::new(),\n",""),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        self.calc_sqrt_precmp()"""))
sha('get_set',P,("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        if self.0.sqrt_precmp.get().is_none() {
            let _ = self.0.sqrt_precmp.set(self.calc_sqrt_precmp());
        }
        self.0.sqrt_precmp.get().unwrap().clone()"""))
sha('match_get',P,("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        match self.0.sqrt_precmp.get() {
            Some(pre) => pre.clone(),
            None => {
                let pre = self.calc_sqrt_precmp();
                let _ = self.0.sqrt_precmp.set(pre.clone());
                pre
            }
        }"""))
sha('ref_ret',P,("fn get_sqrt_precmp(&self) -> SqrtPrecmp {","fn get_sqrt_precmp(&self) -> &SqrtPrecmp {"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        self.0.sqrt_precmp.get_or_init(|| self.calc_sqrt_precmp())"""),("        let pre = self.f.get_sqrt_precmp();","        let pre = self.f.get_sqrt_precmp().clone();"))
sha('ptr_eq',P,("        self.p == other.p","        std::ptr::eq(self, other) || self.p == other.p"))
sha('manual_eq',P,("#[derive(Clone, PartialEq, Eq)]\npub struct Fp(Arc<Params>);","#[derive(Clone)]\npub struct Fp(Arc<Params>);\n\nimpl PartialEq for Fp {\n    fn eq(&self, other: &Self) -> bool {\n        Arc::ptr_eq(&self.0, &other.0) || self.0.p == other.0.p\n    }\n}\nimpl Eq for Fp {}"))
sha('manual_clone',P,("#[derive(Clone, PartialEq, Eq)]\npub struct Fp(Arc<Params>);","#[derive(PartialEq, Eq)]\npub struct Fp(Arc<Params>);\n\nimpl Clone for Fp {\n    fn clone(&self) -> Self {\n        Fp(Arc::clone(&self.0))\n    }\n}"))
sha('arc_new_split',P,("""        Fp(Arc::new(Params {
            p: modulus.to_bigint().unwrap(),
            sqrt_precmp: OnceLock::new(),
        }))""","""        let p = BigInt::from(modulus);
        let params = Params {
            p,
            sqrt_precmp: Default::default(),
        };
        Fp(params.into())"""))
sha('q_mutex',Q,("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, Mutex};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: Mutex<Option<SqrtPrecmp>>,"),("let sqrt_precmp = OnceLock::new();","let sqrt_precmp = Mutex::new(None);"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let mut slot = self.0.sqrt_precmp.lock().unwrap();
        if let Some(pre) = slot.as_ref() {
            return pre.clone();
        }
        let pre = self.calc_sqrt_precmp();
        *slot = Some(pre.clone());
        pre"""))
sha('q_nocache',Q,("use std::sync::{Arc, OnceLock};","use std::sync::Arc;"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,\n",""),("        let sqrt_precmp = OnceLock::new();\n",""),("Params { base, sqrt_precmp }","Params { base }"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        self.calc_sqrt_precmp()"""))
sha('q_array',Q,("Fp2Elt { n: vec![n0, n1], f }","Fp2Elt { n: Vec::from([n0, n1]), f }"))
M.append(('dead_else',P,[("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, RwLock};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: RwLock<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: RwLock::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        if let Some(pre) = self.0.sqrt_precmp.read().unwrap().as_ref() {
            pre.clone()
        } else {
            let pre = self.calc_sqrt_precmp();
            *self.0.sqrt_precmp.write().unwrap() = Some(pre.clone());
            pre
        }""")],['C15'],'v'))
M.append(('dead_match',P,[("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, RwLock};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: RwLock<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: RwLock::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let guard = self.0.sqrt_precmp.read().unwrap();
        match guard.as_ref() {
            Some(pre) => pre.clone(),
            None => {
                let pre = self.calc_sqrt_precmp();
                *self.0.sqrt_precmp.write().unwrap() = Some(pre.clone());
                pre
            }
        }""")],['C15'],'v'))
M.append(('dead_helper',P,[("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, Mutex};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: Mutex<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: Mutex::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let slot = self.slot();
        if slot.is_none() {
            *self.slot() = Some(self.calc_sqrt_precmp());
        }
        slot.clone().unwrap()
    }
    fn slot(&self) -> std::sync::MutexGuard<'_, Option<SqrtPrecmp>> {
        self.0.sqrt_precmp.lock().unwrap()""")],['C15'],'v'))
M.append(('ok_helper',P,[("use std::sync::{Arc, OnceLock};","use std::sync::{Arc, Mutex};"),("    sqrt_precmp: OnceLock<SqrtPrecmp>,","    sqrt_precmp: Mutex<Option<SqrtPrecmp>>,"),("sqrt_precmp: OnceLock::new()","sqrt_precmp: Mutex::new(None)"),("""        self.0
            .sqrt_precmp
            .get_or_init(|| self.calc_sqrt_precmp())
            .clone()""","""        let slot = self.slot();
        if let Some(pre) = slot.as_ref() {
            return pre.clone();
        }
        drop(slot);
        let pre = self.calc_sqrt_precmp();
        *self.slot() = Some(pre.clone());
        pre
    }
    fn slot(&self) -> std::sync::MutexGuard<'_, Option<SqrtPrecmp>> {
        self.0.sqrt_precmp.lock().unwrap()""")],['C15'],'q'))
