"""Published parameters of the shipped curves (FIPS 186-4, SEC 2, RFC 7748 with erratum 4730, RFC 9380) and the
arithmetic that shows the table itself consistent.  This is the oracle: nothing here is read from /repo."""

NAMES = {
    'P256': 'P256',
    'P384': 'P384',
    'P521': 'P521',
    'SECP256K1': 'secp256k1',
    'SECP256K1_3ISO': 'secp256k1_3iso',
    'BLS12381G1': 'bls12381_g1',
    'BLS12381G1_11ISO': 'bls12381_g1_11iso',
    'CURVE25519': 'curve25519',
    'CURVE448': 'curve448',
    'EDWARDS25519': 'edwards25519',
    'EDWARDS448': 'edwards448',
}

CURVES = {
    'P256': {
        'fam': 'weierstrass',
        'p': 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
        'a': -3,
        'b': 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        'r': 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        'h': 1,
        'gx': 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        'gy': 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
    },
    'P384': {
        'fam': 'weierstrass',
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff,
        'a': -3,
        'b': 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        'r': 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
        'h': 1,
        'gx': 0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
        'gy': 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
    },
    'P521': {
        'fam': 'weierstrass',
        'p': 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
        'a': -3,
        'b': 0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
        'r': 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
        'h': 1,
        'gx': 0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
        'gy': 0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
    },
    'SECP256K1': {
        'fam': 'weierstrass',
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f,
        'a': 0,
        'b': 7,
        'r': 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
        'h': 1,
        'gx': 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
        'gy': 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8,
    },
    'SECP256K1_3ISO': {
        'fam': 'weierstrass',
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f,
        'a': 0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533,
        'b': 1771,
        'r': 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
        'h': 1,
        'gx': 0xa677f67dec3b4e958267664f4bead0c300959b89cdfae2fbb7563af10a26088a,
        'gy': 0xb683b56744d1140cbda41b9853bb2fb7cc44b06dc61406db73c387aea4e680d3,
    },
    'BLS12381G1': {
        'fam': 'weierstrass',
        'p': 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
        'a': 0,
        'b': 4,
        'r': 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
        'h': 0xd201000000010001,
        'gx': 0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
        'gy': 0x8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1,
    },
    'BLS12381G1_11ISO': {
        'fam': 'weierstrass',
        'p': 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab,
        'a': 0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
        'b': 0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0,
        'r': 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
        'h': 0xd201000000010001,
        'gx': 0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2,
        'gy': 0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4,
    },
    'CURVE25519': {
        'fam': 'montgomery',
        'p': 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed,
        'a': 486662,
        'b': 1,
        'r': 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed,
        'h': 8,
        'gx': 9,
        'gy': 0x5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14,
    },
    'CURVE448': {
        'fam': 'montgomery',
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
        'a': 156326,
        'b': 1,
        'r': 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3,
        'h': 4,
        'gx': 5,
        'gy': 0x7d235d1295f5b1f66c98ab6e58326fcecbae5d34f55545d060f75dc28df3f6edb8027e2346430d211312c4b150677af76fd7223d457b5b1a,
    },
    'EDWARDS25519': {
        'fam': 'edwards',
        'p': 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed,
        'a': -1,
        'd': 0x52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3,
        'r': 0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed,
        'h': 8,
        'gx': 0x216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a,
        'gy': 0x6666666666666666666666666666666666666666666666666666666666666658,
    },
    'EDWARDS448': {
        'fam': 'edwards',
        'p': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
        'a': 1,
        'd': -39081,
        'r': 0x3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3,
        'h': 4,
        'gx': 0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e,
        'gy': 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14,
    },
}

BLS_X = -0xd201000000010000


def on_curve(c, x, y):
    p = c['p']
    if c['fam'] == 'weierstrass':
        return (y * y - x ** 3 - c['a'] * x - c['b']) % p == 0
    if c['fam'] == 'montgomery':
        return (c['b'] * y * y - x ** 3 - c['a'] * x * x - x) % p == 0
    return (c['a'] * x * x + y * y - 1 - c['d'] * x * x * y * y) % p == 0


def add(c, P, Q):
    """affine group law (None is the identity of Weierstrass and Montgomery curves)"""
    p = c['p']
    if c['fam'] == 'edwards':
        (x1, y1), (x2, y2) = P, Q
        t = c['d'] * x1 * x2 * y1 * y2
        return ((x1 * y2 + x2 * y1) * pow(1 + t, -1, p) % p, (y1 * y2 - c['a'] * x1 * x2) * pow(1 - t, -1, p) % p)
    if P is None:
        return Q
    if Q is None:
        return P
    (x1, y1), (x2, y2) = P, Q
    m = c['fam'] == 'montgomery'
    a2, a4, b = (c['a'], 1, c['b']) if m else (0, c['a'], 1)
    if (x1 - x2) % p == 0:
        if (y1 + y2) % p == 0:
            return None
        l = (3 * x1 * x1 + 2 * a2 * x1 + a4) * pow(2 * b * y1, -1, p) % p
    else:
        l = (y2 - y1) * pow(x2 - x1, -1, p) % p
    x3 = (b * l * l - a2 - x1 - x2) % p
    return (x3, (l * (x1 - x3) - y1) % p)


def zero(c):
    return (0, 1) if c['fam'] == 'edwards' else None


def mul(c, k, P):
    r = zero(c)
    while k:
        if k & 1:
            r = add(c, r, P)
        P = add(c, P, P)
        k >>= 1
    return r


def is_prime(n):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53):
        if n % a == 0:
            return n == a
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def polymul(f, g, p):
    """product (coefficients low to high)"""
    if not f or not g:
        return []
    r = [0] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        if x:
            for j, y in enumerate(g):
                r[i + j] = (r[i + j] + x * y) % p
    return trim(r)


def trim(f):
    while f and f[-1] == 0:
        f = f[:-1]
    return f


def polymod(f, g, p):
    f = list(f)
    iv = pow(g[-1], -1, p)
    while len(f) >= len(g):
        t = f[-1] * iv % p
        if t:
            k0 = len(f) - len(g)
            for k, x in enumerate(g):
                f[k0 + k] = (f[k0 + k] - t * x) % p
        f.pop()
    return trim(f)


def polygcd(f, g, p):
    while g:
        f, g = g, polymod(f, g, p)
    return f


def polyadd(f, g, p):
    n = max(len(f), len(g))
    return trim([((f[i] if i < len(f) else 0) + (g[i] if i < len(g) else 0)) % p for i in range(n)])


def linear_part(f, p):
    """gcd(f, x^p - x): the product of the distinct linear factors of f"""
    f = trim([x % p for x in f])
    r, b, e = [1], polymod([0, 1], f, p), p
    while e:
        if e & 1:
            r = polymod(polymul(r, b, p), f, p)
        b = polymod(polymul(b, b, p), f, p)
        e >>= 1
    return polygcd(f, polyadd(r, [0, p - 1], p), p)


def has_root(m, p):
    """does the monic polynomial with coefficients m (low to high, without the leading one) have a root modulo p"""
    return len(linear_part(list(m) + [1], p)) > 1


def square(x, p):
    return x % p == 0 or pow(x, (p - 1) // 2, p) == 1


def consistent(name):
    """[(what, holds)] about one entry of the table"""
    c = CURVES[name]
    p, r, h = c['p'], c['r'], c['h']
    G = (c['gx'] % p, c['gy'] % p)
    out = [('the modulus is prime', is_prime(p)), ('the order is prime', is_prime(r)),
           ('the generator is on the curve', on_curve(c, *G)),
           ('the generator has the stated order', mul(c, r, G) == zero(c) and G != zero(c))]
    if name.startswith('BLS'):
        x = BLS_X
        n = (x - 1) ** 2 // 3 * r
        out.append(('the order divides the size of the curve', abs(n - p - 1) ** 2 <= 4 * p and n % r == 0))
        out.append(('the cofactor is the effective one', h == 1 - x and (n // r) * 3 == h * h))
    else:
        out.append(('order times cofactor is the size of the curve', (h * r - p - 1) ** 2 <= 4 * p))
    if c['fam'] == 'weierstrass':
        out.append(('no point of order two', not has_root([c['b'] % p, c['a'] % p, 0], p)))
        out.append(('not singular', (4 * c['a'] ** 3 + 27 * c['b'] ** 2) % p != 0))
    elif c['fam'] == 'edwards':
        out.append(('a is a square', square(c['a'], p)))
        out.append(('d is not a square', not square(c['d'], p)))
    else:
        out.append(('not singular', c['b'] * (c['a'] ** 2 - 4) % p != 0))
    return out


def complete(c, s):
    """the Montgomery addition formula with parameter s has no exceptional case: no point has y = s"""
    p = c['p']
    return not has_root([-c['b'] * s * s % p, 1, c['a'] % p], p)
