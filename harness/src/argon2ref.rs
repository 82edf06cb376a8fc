//! Argon2 and BLAKE2b written from RFC 9106 and RFC 7693, independent of the crate the library uses.

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2b(out: usize, data: &[u8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ out as u64;
    let blocks = data.len().div_ceil(128).max(1);
    for i in 0..blocks {
        let part = &data[i * 128..data.len().min((i + 1) * 128)];
        let mut block = [0u8; 128];
        block[..part.len()].copy_from_slice(part);
        let mut m = [0u64; 16];
        for (w, b) in m.iter_mut().zip(block.chunks_exact(8)) {
            *w = u64::from_le_bytes(b.try_into().unwrap());
        }
        let last = i + 1 == blocks;
        let t = if last { data.len() as u128 } else { (i as u128 + 1) * 128 };
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for j in 0..8 {
            h[j] ^= v[j] ^ v[j + 8];
        }
    }
    h.iter().flat_map(|w| w.to_le_bytes()).take(out).collect()
}

fn long_hash(out: usize, data: &[u8]) -> Vec<u8> {
    let mut input = (out as u32).to_le_bytes().to_vec();
    input.extend_from_slice(data);
    if out <= 64 {
        return blake2b(out, &input);
    }
    let mut v = blake2b(64, &input);
    let mut res = v[..32].to_vec();
    while out - res.len() > 64 {
        v = blake2b(64, &v);
        res.extend_from_slice(&v[..32]);
    }
    let rest = out - res.len();
    res.extend(blake2b(rest, &v));
    res
}

type Block = [u64; 128];

#[inline(always)]
fn mix(r: &mut Block, i: [usize; 16]) {
    macro_rules! g {
        ($a:expr, $b:expr, $c:expr, $d:expr) => {
            let (a, b, c, d) = (i[$a], i[$b], i[$c], i[$d]);
            macro_rules! add {
                ($x:expr, $y:expr) => {
                    r[$x] = r[$x].wrapping_add(r[$y]).wrapping_add(2u64.wrapping_mul(u64::from(r[$x] as u32)).wrapping_mul(u64::from(r[$y] as u32)))
                };
            }
            add!(a, b);
            r[d] = (r[d] ^ r[a]).rotate_right(32);
            add!(c, d);
            r[b] = (r[b] ^ r[c]).rotate_right(24);
            add!(a, b);
            r[d] = (r[d] ^ r[a]).rotate_right(16);
            add!(c, d);
            r[b] = (r[b] ^ r[c]).rotate_right(63);
        };
    }
    g!(0, 4, 8, 12);
    g!(1, 5, 9, 13);
    g!(2, 6, 10, 14);
    g!(3, 7, 11, 15);
    g!(0, 5, 10, 15);
    g!(1, 6, 11, 12);
    g!(2, 7, 8, 13);
    g!(3, 4, 9, 14);
}

fn compress(x: &Block, y: &Block) -> Block {
    let mut r = *x;
    for (a, b) in r.iter_mut().zip(y) {
        *a ^= b;
    }
    let start = r;
    for k in 0..8 {
        let b = 16 * k;
        mix(&mut r, [b, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7, b + 8, b + 9, b + 10, b + 11, b + 12, b + 13, b + 14, b + 15]);
    }
    for k in 0..8 {
        let b = 2 * k;
        mix(
            &mut r,
            [b, b + 1, b + 16, b + 17, b + 32, b + 33, b + 48, b + 49, b + 64, b + 65, b + 80, b + 81, b + 96, b + 97, b + 112, b + 113],
        );
    }
    for (a, b) in r.iter_mut().zip(&start) {
        *a ^= b;
    }
    r
}

fn block(bytes: &[u8]) -> Block {
    let mut b = [0u64; 128];
    for (w, c) in b.iter_mut().zip(bytes.chunks_exact(8)) {
        *w = u64::from_le_bytes(c.try_into().unwrap());
    }
    b
}

pub struct Params<'a> {
    /// 0 for d, 1 for i, 2 for id
    pub kind: u32,
    pub version: u32,
    pub kib: u32,
    pub passes: u32,
    pub lanes: u32,
    pub secret: &'a [u8],
    pub data: &'a [u8],
}

/// None when the parameters are outside of what RFC 9106 (or, for the salt, its reference code) allows
pub fn hash(p: &Params, password: &[u8], salt: &[u8], out: usize) -> Option<Vec<u8>> {
    if p.lanes == 0 || p.lanes >= 1 << 24 || p.passes == 0 || u64::from(p.kib) < 8 * u64::from(p.lanes) || salt.len() < 8 || !matches!(p.version, 0x10 | 0x13) {
        return None;
    }
    let mut h = Vec::new();
    for n in [p.lanes, out as u32, p.kib, p.passes, p.version, p.kind] {
        h.extend(n.to_le_bytes());
    }
    for s in [password, salt, p.secret, p.data] {
        h.extend((s.len() as u32).to_le_bytes());
        h.extend(s);
    }
    let h0 = blake2b(64, &h);
    let lanes = p.lanes as usize;
    let seg = p.kib as usize / (4 * lanes);
    let q = seg * 4;
    let mut mem = vec![[0u64; 128]; q * lanes];
    for l in 0..lanes {
        for i in 0..2 {
            let mut d = h0.clone();
            d.extend((i as u32).to_le_bytes());
            d.extend((l as u32).to_le_bytes());
            mem[l * q + i] = block(&long_hash(1024, &d));
        }
    }
    let zero = [0u64; 128];
    for pass in 0..p.passes as usize {
        for slice in 0..4 {
            for l in 0..lanes {
                let fixed = p.kind == 1 || (p.kind == 2 && pass == 0 && slice < 2);
                let mut input = zero;
                let mut addresses = zero;
                input[..6].copy_from_slice(&[pass as u64, l as u64, slice as u64, (q * lanes) as u64, u64::from(p.passes), u64::from(p.kind)]);
                let first = if pass == 0 && slice == 0 { 2 } else { 0 };
                if fixed && first == 2 {
                    input[6] += 1;
                    addresses = compress(&zero, &compress(&zero, &input));
                }
                for i in first..seg {
                    let cur = slice * seg + i;
                    let prev = if cur == 0 { q - 1 } else { cur - 1 };
                    let j = if fixed {
                        if i % 128 == 0 {
                            input[6] += 1;
                            addresses = compress(&zero, &compress(&zero, &input));
                        }
                        addresses[i % 128]
                    } else {
                        mem[l * q + prev][0]
                    };
                    let rl = if pass == 0 && slice == 0 { l } else { (j >> 32) as usize % lanes };
                    let before = if pass == 0 { slice * seg } else { q - seg };
                    let area = if rl == l { before + i - 1 } else { before - usize::from(i == 0) };
                    let x = (j & 0xffff_ffff) * (j & 0xffff_ffff) >> 32;
                    let z = area - 1 - ((area as u64 * x) >> 32) as usize;
                    let start = if pass == 0 || slice == 3 { 0 } else { (slice + 1) * seg };
                    let r = (start + z) % q;
                    let mut b = compress(&mem[l * q + prev], &mem[rl * q + r]);
                    if pass > 0 && p.version == 0x13 {
                        for (a, o) in b.iter_mut().zip(&mem[l * q + cur]) {
                            *a ^= o;
                        }
                    }
                    mem[l * q + cur] = b;
                }
            }
        }
    }
    let mut last = zero;
    for l in 0..lanes {
        for (a, b) in last.iter_mut().zip(&mem[l * q + q - 1]) {
            *a ^= b;
        }
    }
    let bytes: Vec<u8> = last.iter().flat_map(|w| w.to_le_bytes()).collect();
    Some(long_hash(out, &bytes))
}

/// The test vectors of RFC 9106
pub fn self_test() -> bool {
    let want = [
        "512b391b6f1162975371d30919734294f868e3be3984f3c1a13a4db9fabe4acb",
        "c814d9d1dc7f37aa13f0d77f2494bda1c8de6b016dd388d29952a4c4672b6ce8",
        "0d640df58d78766c08c037a34a8b53c9d01ef0452d75b65eb52520e96b01e659",
    ];
    want.iter().enumerate().all(|(kind, w)| {
        let p = Params { kind: kind as u32, version: 0x13, kib: 32, passes: 3, lanes: 4, secret: &[3; 8], data: &[4; 12] };
        let h = hash(&p, &[1; 32], &[2; 16], 32).unwrap();
        h.iter().map(|b| format!("{b:02x}")).collect::<String>() == *w
    })
}
