//! Reference encoder and decoder for the KDBX 4 and KDBX 3.1 containers, written from
//! docs/kdbx.md. Only primitive ciphers and hashes are taken from crates.

use crate::gen::Creds;
use crate::rng::Rng;
use aes::Aes256;
use chacha20::ChaCha20;
use cipher::generic_array::GenericArray;
use cipher::{BlockDecrypt, BlockEncrypt, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use salsa20::Salsa20;
use sha2::{Digest, Sha256, Sha512};
use twofish::Twofish;

pub const SIG: [u8; 8] = [0x03, 0xD9, 0xA2, 0x9A, 0x67, 0xFB, 0x4B, 0xB5];
pub const AES256_UUID: [u8; 16] = [0x31, 0xC1, 0xF2, 0xE6, 0xBF, 0x71, 0x43, 0x50, 0xBE, 0x58, 0x05, 0x21, 0x6A, 0xFC, 0x5A, 0xFF];
pub const AES128_UUID: [u8; 16] = [0x61, 0xAB, 0x05, 0xA1, 0x94, 0x64, 0x41, 0xC3, 0x8D, 0x74, 0x3A, 0x56, 0x3D, 0xF8, 0xDD, 0x35];
pub const TWOFISH_UUID: [u8; 16] = [0xAD, 0x68, 0xF2, 0x9F, 0x57, 0x6F, 0x4B, 0xB9, 0xA3, 0x6A, 0xD4, 0x7A, 0xF9, 0x65, 0x34, 0x6C];
pub const CHACHA_UUID: [u8; 16] = [0xD6, 0x03, 0x8A, 0x2B, 0x8B, 0x6F, 0x4C, 0xB5, 0xA5, 0x24, 0x33, 0x9A, 0x31, 0xDB, 0xB5, 0x9A];
pub const KDF_AES3_UUID: [u8; 16] = [0xC9, 0xD9, 0xF3, 0x9A, 0x62, 0x8A, 0x44, 0x60, 0xBF, 0x74, 0x0D, 0x08, 0xC1, 0x8A, 0x4F, 0xEA];
pub const KDF_AES4_UUID: [u8; 16] = [0x7C, 0x02, 0xBB, 0x82, 0x79, 0xA7, 0x4A, 0xC0, 0x92, 0x7D, 0x11, 0x4A, 0x00, 0x64, 0x82, 0x38];
pub const KDF_ARGON2D_UUID: [u8; 16] = [0xEF, 0x63, 0x6D, 0xDF, 0x8C, 0x29, 0x44, 0x4B, 0x91, 0xF7, 0xA9, 0xA4, 0x03, 0xE3, 0x0A, 0x0C];
pub const KDF_ARGON2ID_UUID: [u8; 16] = [0x9E, 0x29, 0x8B, 0x19, 0x56, 0xDB, 0x47, 0x73, 0xB2, 0x3D, 0xFC, 0x3E, 0xC6, 0xF0, 0xA1, 0xE6];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CipherK {
    Aes,
    Twofish,
    ChaCha,
}

impl CipherK {
    pub fn uuid(self) -> [u8; 16] {
        match self {
            CipherK::Aes => AES256_UUID,
            CipherK::Twofish => TWOFISH_UUID,
            CipherK::ChaCha => CHACHA_UUID,
        }
    }
    pub fn lib(self) -> kdbx_rs::binary::Cipher {
        match self {
            CipherK::Aes => kdbx_rs::binary::Cipher::Aes256,
            CipherK::Twofish => kdbx_rs::binary::Cipher::TwoFish,
            CipherK::ChaCha => kdbx_rs::binary::Cipher::ChaCha20,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum InnerK {
    Salsa,
    ChaCha,
}

impl InnerK {
    pub fn id(self) -> u32 {
        match self {
            InnerK::Salsa => 2,
            InnerK::ChaCha => 3,
        }
    }
    pub fn lib(self) -> kdbx_rs::binary::InnerStreamCipherAlgorithm {
        match self {
            InnerK::Salsa => kdbx_rs::binary::InnerStreamCipherAlgorithm::Salsa20,
            InnerK::ChaCha => kdbx_rs::binary::InnerStreamCipherAlgorithm::ChaCha20,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kdf {
    Aes {
        rounds: u64,
        salt: Vec<u8>,
    },
    Argon2 {
        id: bool,
        memory: u64,
        iterations: u64,
        lanes: u32,
        version: u32,
        salt: Vec<u8>,
    },
}

impl Kdf {
    pub fn lib(&self) -> kdbx_rs::binary::KdfParams {
        match self {
            Kdf::Aes { rounds, salt } => kdbx_rs::binary::KdfParams::Aes {
                rounds: *rounds,
                salt: salt.clone(),
            },
            Kdf::Argon2 { id, memory, iterations, lanes, version, salt } => kdbx_rs::binary::KdfParams::Argon2 {
                variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                memory_bytes: *memory,
                version: *version,
                salt: salt.clone(),
                lanes: *lanes,
                iterations: *iterations,
            },
        }
    }

    pub fn class(&self) -> &'static str {
        match self {
            Kdf::Aes { .. } => "aes",
            Kdf::Argon2 { id: true, .. } => "argon2id",
            Kdf::Argon2 { id: false, .. } => "argon2d",
        }
    }

    /// The published derivation, None when the parameters are outside what it allows
    pub fn derive(&self, composite: &[u8; 32]) -> Option<[u8; 32]> {
        match self {
            Kdf::Aes { rounds, salt } => {
                if salt.len() != 32 {
                    return None;
                }
                let aes = Aes256::new(GenericArray::from_slice(salt));
                let mut a = *GenericArray::from_slice(&composite[..16]);
                let mut b = *GenericArray::from_slice(&composite[16..]);
                for _ in 0..*rounds {
                    aes.encrypt_block(&mut a);
                    aes.encrypt_block(&mut b);
                }
                let mut h = Sha256::new();
                h.update(a);
                h.update(b);
                Some(h.finalize().into())
            }
            Kdf::Argon2 { id, memory, iterations, lanes, version, salt } => {
                let p = crate::argon2ref::Params {
                    kind: if *id { 2 } else { 0 },
                    version: *version,
                    kib: u32::try_from(memory / 1024).ok()?,
                    passes: u32::try_from(*iterations).ok()?,
                    lanes: *lanes,
                    secret: &[],
                    data: &[],
                };
                let out = crate::argon2ref::hash(&p, composite, salt, 32)?;
                out.try_into().ok()
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Settings {
    pub cipher: CipherK,
    pub gzip: bool,
    pub kdf: Kdf,
    pub inner: InnerK,
    pub inner_key: Vec<u8>,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
}

impl Settings {
    pub fn class(&self) -> String {
        format!("{:?}/{}/{}/{:?}", self.cipher, if self.gzip { "gzip" } else { "plain" }, self.kdf.class(), self.inner)
    }

    pub fn apply(&self, k: &mut kdbx_rs::Kdbx<kdbx_rs::binary::Unlocked>) {
        let h = k.header_mut();
        h.cipher = self.cipher.lib();
        h.compression_type = if self.gzip {
            kdbx_rs::binary::CompressionType::Gzip
        } else {
            kdbx_rs::binary::CompressionType::None
        };
        h.kdf_params = self.kdf.lib();
        h.master_seed = self.seed.clone();
        h.encryption_iv = self.iv.clone();
        let i = k.inner_header_mut();
        i.inner_stream_cipher = self.inner.lib();
        i.inner_stream_key = self.inner_key.clone();
    }
}

pub fn sha256(d: &[u8]) -> [u8; 32] {
    Sha256::digest(d).into()
}

pub fn composite(c: &Creds) -> [u8; 32] {
    let mut h = Sha256::new();
    if let Some(p) = &c.pw {
        h.update(sha256(p.as_bytes()));
    }
    if let Some(k) = &c.keyfile {
        h.update(sha256(k));
    }
    h.finalize().into()
}

pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    m.finalize().into_bytes().into()
}

pub fn hmac_base(seed: &[u8], master: &[u8; 32]) -> Vec<u8> {
    let mut h = Sha512::new();
    h.update(seed);
    h.update(master);
    h.update([1u8]);
    h.finalize().to_vec()
}

pub fn block_key(base: &[u8], idx: u64) -> Vec<u8> {
    let mut h = Sha512::new();
    h.update(idx.to_le_bytes());
    h.update(base);
    h.finalize().to_vec()
}

pub fn cipher_key(seed: &[u8], master: &[u8; 32]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(seed);
    h.update(master);
    h.finalize().into()
}

fn cbc_encrypt<C: BlockEncrypt + KeyInit>(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let c = C::new_from_slice(key).unwrap_or_else(|_| panic!("cipher key size"));
    let pad = 16 - data.len() % 16;
    let mut out = data.to_vec();
    out.extend(std::iter::repeat(pad as u8).take(pad));
    let mut prev = iv.to_vec();
    for chunk in out.chunks_mut(16) {
        for (b, p) in chunk.iter_mut().zip(&prev) {
            *b ^= p;
        }
        c.encrypt_block(GenericArray::from_mut_slice(chunk));
        prev.copy_from_slice(chunk);
    }
    out
}

fn cbc_decrypt<C: BlockDecrypt + KeyInit>(key: &[u8], iv: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
    if data.is_empty() || data.len() % 16 != 0 {
        return Err(format!("ciphertext length {} is not a positive multiple of 16", data.len()));
    }
    if iv.len() != 16 {
        return Err(format!("IV of {} bytes", iv.len()));
    }
    let c = C::new_from_slice(key).unwrap_or_else(|_| panic!("cipher key size"));
    let mut out = data.to_vec();
    let mut prev = iv.to_vec();
    for chunk in out.chunks_mut(16) {
        let this = chunk.to_vec();
        c.decrypt_block(GenericArray::from_mut_slice(chunk));
        for (b, p) in chunk.iter_mut().zip(&prev) {
            *b ^= p;
        }
        prev = this;
    }
    let pad = *out.last().unwrap() as usize;
    if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|b| *b as usize != pad) {
        return Err("bad PKCS#7 padding".into());
    }
    out.truncate(out.len() - pad);
    Ok(out)
}

pub fn encrypt(c: CipherK, key: &[u8; 32], iv: &[u8], data: &[u8]) -> Vec<u8> {
    match c {
        CipherK::Aes => cbc_encrypt::<Aes256>(key, iv, data),
        CipherK::Twofish => cbc_encrypt::<Twofish>(key, iv, data),
        CipherK::ChaCha => {
            let mut out = data.to_vec();
            ChaCha20::new_from_slices(key, iv).unwrap().apply_keystream(&mut out);
            out
        }
    }
}

pub fn decrypt(c: CipherK, key: &[u8; 32], iv: &[u8], data: &[u8]) -> Result<Vec<u8>, String> {
    match c {
        CipherK::Aes => cbc_decrypt::<Aes256>(key, iv, data),
        CipherK::Twofish => cbc_decrypt::<Twofish>(key, iv, data),
        CipherK::ChaCha => {
            if iv.len() != 12 {
                return Err(format!("ChaCha20 nonce of {} bytes", iv.len()));
            }
            let mut out = data.to_vec();
            ChaCha20::new_from_slices(key, iv).unwrap().apply_keystream(&mut out);
            Ok(out)
        }
    }
}

/// Key stream for protected values
pub fn inner_stream(k: InnerK, key: &[u8]) -> Box<dyn StreamCipher> {
    match k {
        InnerK::Salsa => {
            let h = Sha256::digest(key);
            Box::new(Salsa20::new_from_slices(&h, &[0xE8, 0x30, 0x09, 0x4B, 0x97, 0x20, 0x5D, 0x2A]).unwrap())
        }
        InnerK::ChaCha => {
            let h = Sha512::digest(key);
            Box::new(ChaCha20::new_from_slices(&h[..32], &h[32..44]).unwrap())
        }
    }
}

// ---------------------------------------------------------------- gzip

pub fn crc32(data: &[u8]) -> u32 {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 256]> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ u32::from(*b)) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub fn gzip(data: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut flags = 0u8;
    if rng.chance(1, 6) {
        flags |= 8; // FNAME
    }
    if rng.chance(1, 8) {
        flags |= 4; // FEXTRA
    }
    if rng.chance(1, 8) {
        flags |= 16; // FCOMMENT
    }
    let mut out = vec![0x1f, 0x8b, 8, flags];
    out.extend_from_slice(&rng.u32().to_le_bytes());
    out.push(*rng.pick(&[0u8, 2, 4]));
    out.push(*rng.pick(&[0u8, 3, 10, 255]));
    if flags & 4 != 0 {
        let x = rng.bytes(4);
        out.extend_from_slice(&8u16.to_le_bytes());
        out.extend_from_slice(b"Ap");
        out.extend_from_slice(&4u16.to_le_bytes());
        out.extend_from_slice(&x);
    }
    if flags & 8 != 0 {
        out.extend_from_slice(b"db.xml\0");
    }
    if flags & 16 != 0 {
        out.extend_from_slice(b"comment\0");
    }
    if rng.chance(1, 5) {
        // stored blocks
        let mut rest = data;
        loop {
            let n = rng.range(0, 65535).min(rest.len());
            let last = n == rest.len();
            out.push(u8::from(last));
            out.extend_from_slice(&(n as u16).to_le_bytes());
            out.extend_from_slice(&(!(n as u16)).to_le_bytes());
            out.extend_from_slice(&rest[..n]);
            rest = &rest[n..];
            if last {
                break;
            }
        }
    } else {
        let level = rng.range(1, 9) as u8;
        out.extend_from_slice(&miniz_oxide::deflate::compress_to_vec(data, level));
    }
    out.extend_from_slice(&crc32(data).to_le_bytes());
    out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    out
}

pub fn gunzip(data: &[u8]) -> Result<Vec<u8>, String> {
    let bad = |s: &str| Err(format!("gzip: {s}"));
    if data.len() < 18 || data[..3] != [0x1f, 0x8b, 8] {
        return bad("no gzip member");
    }
    let flags = data[3];
    let mut p = 10;
    if flags & 4 != 0 {
        p += 2 + usize::from(u16::from_le_bytes([data[p], data[p + 1]]));
    }
    for bit in [8u8, 16] {
        if flags & bit != 0 {
            match data.get(p..).and_then(|d| d.iter().position(|b| *b == 0)) {
                Some(n) => p += n + 1,
                None => return bad("header cut off"),
            }
        }
    }
    if flags & 2 != 0 {
        p += 2;
    }
    if data.len() < p + 8 {
        return bad("cut off");
    }
    let body = &data[p..];
    let mut inflater = miniz_oxide::inflate::core::DecompressorOxide::new();
    let mut out = vec![0u8; 4096.max(body.len() * 2)];
    let (mut ip, mut op) = (0usize, 0usize);
    loop {
        use miniz_oxide::inflate::core::inflate_flags::TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF;
        use miniz_oxide::inflate::TINFLStatus;
        let (st, i, o) = miniz_oxide::inflate::core::decompress(
            &mut inflater,
            &body[ip..],
            &mut out,
            op,
            TINFL_FLAG_USING_NON_WRAPPING_OUTPUT_BUF,
        );
        ip += i;
        op += o;
        match st {
            TINFLStatus::Done => break,
            TINFLStatus::HasMoreOutput => {
                let n = out.len() * 2;
                out.resize(n, 0);
            }
            s => return Err(format!("gzip: inflate failed: {s:?}")),
        }
    }
    out.truncate(op);
    let tail = &body[ip..];
    if tail.len() != 8 {
        return Err(format!("gzip: {} bytes after the compressed data instead of 8", tail.len()));
    }
    if tail[..4] != crc32(&out).to_le_bytes() {
        return bad("wrong CRC");
    }
    if tail[4..] != (out.len() as u32).to_le_bytes() {
        return bad("wrong length");
    }
    Ok(out)
}

// ---------------------------------------------------------------- variant dictionary

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DictItem {
    pub ty: u8,
    pub key: Vec<u8>,
    pub val: Vec<u8>,
}

pub fn item(ty: u8, key: &str, val: Vec<u8>) -> DictItem {
    DictItem { ty, key: key.as_bytes().to_vec(), val }
}

pub fn dict_bytes(version: u16, items: &[DictItem]) -> Vec<u8> {
    let mut out = version.to_le_bytes().to_vec();
    for i in items {
        out.push(i.ty);
        out.extend_from_slice(&(i.key.len() as u32).to_le_bytes());
        out.extend_from_slice(&i.key);
        out.extend_from_slice(&(i.val.len() as u32).to_le_bytes());
        out.extend_from_slice(&i.val);
    }
    out.push(0);
    out
}

pub fn kdf_items(k: &Kdf) -> Vec<DictItem> {
    match k {
        Kdf::Aes { rounds, salt } => vec![
            item(0x42, "$UUID", KDF_AES4_UUID.to_vec()),
            item(0x05, "R", rounds.to_le_bytes().to_vec()),
            item(0x42, "S", salt.clone()),
        ],
        Kdf::Argon2 { id, memory, iterations, lanes, version, salt } => vec![
            item(0x42, "$UUID", if *id { KDF_ARGON2ID_UUID } else { KDF_ARGON2D_UUID }.to_vec()),
            item(0x04, "V", version.to_le_bytes().to_vec()),
            item(0x42, "S", salt.clone()),
            item(0x05, "M", memory.to_le_bytes().to_vec()),
            item(0x05, "I", iterations.to_le_bytes().to_vec()),
            item(0x04, "P", lanes.to_le_bytes().to_vec()),
        ],
    }
}

pub fn parse_dict(data: &[u8]) -> Result<Vec<DictItem>, String> {
    let mut c = Cur { d: data, p: 0 };
    let v = u16::from_le_bytes(c.take(2)?.try_into().unwrap());
    if v & 0xff00 != 0x0100 {
        return Err(format!("variant dictionary version {v:#x}"));
    }
    let mut items = Vec::new();
    loop {
        let ty = c.take(1)?[0];
        if ty == 0 {
            break;
        }
        let n = c.u32()? as usize;
        let key = c.take(n)?.to_vec();
        let n = c.u32()? as usize;
        let val = c.take(n)?.to_vec();
        items.push(DictItem { ty, key, val });
    }
    if c.p != data.len() {
        return Err("data after the end of the variant dictionary".into());
    }
    Ok(items)
}

pub fn parse_kdf(data: &[u8]) -> Result<Kdf, String> {
    let items = parse_dict(data)?;
    let get = |k: &str, ty: u8| -> Result<Vec<u8>, String> {
        let m: Vec<_> = items.iter().filter(|i| i.key == k.as_bytes()).collect();
        match m.as_slice() {
            [one] if one.ty == ty => Ok(one.val.clone()),
            [one] => Err(format!("kdf parameter {k} has type {:#x}", one.ty)),
            [] => Err(format!("kdf parameter {k} missing")),
            _ => Err(format!("kdf parameter {k} repeated")),
        }
    };
    let u64of = |k: &str| -> Result<u64, String> {
        Ok(u64::from_le_bytes(get(k, 5)?.try_into().map_err(|_| format!("kdf parameter {k} size"))?))
    };
    let u32of = |k: &str| -> Result<u32, String> {
        Ok(u32::from_le_bytes(get(k, 4)?.try_into().map_err(|_| format!("kdf parameter {k} size"))?))
    };
    let uuid = get("$UUID", 0x42)?;
    if uuid == KDF_AES4_UUID || uuid == KDF_AES3_UUID {
        Ok(Kdf::Aes { rounds: u64of("R")?, salt: get("S", 0x42)? })
    } else if uuid == KDF_ARGON2D_UUID || uuid == KDF_ARGON2ID_UUID {
        Ok(Kdf::Argon2 {
            id: uuid == KDF_ARGON2ID_UUID,
            memory: u64of("M")?,
            iterations: u64of("I")?,
            lanes: u32of("P")?,
            version: u32of("V")?,
            salt: get("S", 0x42)?,
        })
    } else {
        Err(format!("unknown kdf {uuid:x?}"))
    }
}

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        match self.d.get(self.p..).and_then(|r| r.get(..n)) {
            Some(s) => {
                self.p += n;
                Ok(s)
            }
            None => Err(format!("file ends at offset {} inside {} bytes wanted at {}", self.d.len(), n, self.p)),
        }
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
}

pub type FieldList = Vec<(u8, Vec<u8>)>;

pub fn fields4(fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut out = Vec::new();
    for (id, data) in fields {
        out.push(*id);
        out.extend_from_slice(&(data.len() as u32).to_le_bytes());
        out.extend_from_slice(data);
    }
    out
}

pub fn fields3(fields: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut out = Vec::new();
    for (id, data) in fields {
        out.push(*id);
        out.extend_from_slice(&(data.len() as u16).to_le_bytes());
        out.extend_from_slice(data);
    }
    out
}

pub fn read_fields4(c: &mut Cur) -> Result<FieldList, String> {
    let mut out = Vec::new();
    loop {
        let id = c.take(1)?[0];
        let n = c.u32()? as usize;
        let d = c.take(n)?.to_vec();
        if id == 0 {
            return Ok(out);
        }
        out.push((id, d));
    }
}

// ---------------------------------------------------------------- KDBX 4 encoder

/// Everything needed to produce a KDBX 4 file, each part free to be malformed
#[derive(Clone, Debug)]
pub struct File4 {
    pub sig: [u8; 8],
    pub minor: u16,
    pub major: u16,
    /// outer header fields including the end marker
    pub fields: FieldList,
    /// inner header fields including the end marker
    pub inner_fields: FieldList,
    pub xml: Vec<u8>,
    /// lengths of the encrypted blocks, the rest goes in a last block
    pub cuts: Vec<usize>,
    pub settings: Settings,
    pub creds: Creds,
}

pub fn std_fields4(s: &Settings) -> FieldList {
    vec![
        (2, s.cipher.uuid().to_vec()),
        (3, u32::from(s.gzip).to_le_bytes().to_vec()),
        (4, s.seed.clone()),
        (7, s.iv.clone()),
        (11, dict_bytes(0x0100, &kdf_items(&s.kdf))),
    ]
}

pub fn std_inner4(s: &Settings) -> FieldList {
    vec![(1, s.inner.id().to_le_bytes().to_vec()), (2, s.inner_key.clone())]
}

impl File4 {
    pub fn plain(s: &Settings, c: &Creds, xml: Vec<u8>) -> File4 {
        let mut fields = std_fields4(s);
        fields.push((0, b"\r\n\r\n".to_vec()));
        let mut inner_fields = std_inner4(s);
        inner_fields.push((0, Vec::new()));
        File4 {
            sig: SIG,
            minor: 0,
            major: 4,
            fields,
            inner_fields,
            xml,
            cuts: Vec::new(),
            settings: s.clone(),
            creds: c.clone(),
        }
    }

    pub fn header(&self) -> Vec<u8> {
        let mut out = self.sig.to_vec();
        out.extend_from_slice(&self.minor.to_le_bytes());
        out.extend_from_slice(&self.major.to_le_bytes());
        out.extend_from_slice(&fields4(&self.fields));
        out
    }

    pub fn master(&self) -> [u8; 32] {
        self.settings.kdf.derive(&composite(&self.creds)).unwrap_or([0; 32])
    }

    pub fn inner_plain(&self) -> Vec<u8> {
        let mut plain = fields4(&self.inner_fields);
        plain.extend_from_slice(&self.xml);
        plain
    }

    pub fn bytes(&self, rng: &mut Rng) -> Vec<u8> {
        let plain = self.inner_plain();
        let packed = if self.settings.gzip { gzip(&plain, rng) } else { plain };
        self.seal(&packed)
    }

    /// Encrypt and authenticate an already compressed payload
    pub fn seal(&self, packed: &[u8]) -> Vec<u8> {
        let master = self.master();
        let key = cipher_key(&self.settings.seed, &master);
        let enc = encrypt(self.settings.cipher, &key, &self.settings.iv, packed);
        self.frame(&enc)
    }

    /// Authenticate an already encrypted payload
    pub fn frame(&self, enc: &[u8]) -> Vec<u8> {
        let master = self.master();
        let base = hmac_base(&self.settings.seed, &master);
        let header = self.header();
        let mut out = header.clone();
        out.extend_from_slice(&sha256(&header));
        out.extend_from_slice(&hmac256(&block_key(&base, u64::MAX), &[&header]));
        let mut rest = enc;
        let mut idx = 0u64;
        let push = |out: &mut Vec<u8>, idx: u64, d: &[u8]| {
            let n = (d.len() as u32).to_le_bytes();
            out.extend_from_slice(&hmac256(&block_key(&base, idx), &[&idx.to_le_bytes(), &n, d]));
            out.extend_from_slice(&n);
            out.extend_from_slice(d);
        };
        for n in &self.cuts {
            let n = (*n).max(1).min(rest.len());
            if n == 0 {
                break;
            }
            push(&mut out, idx, &rest[..n]);
            rest = &rest[n..];
            idx += 1;
        }
        if !rest.is_empty() {
            push(&mut out, idx, rest);
            idx += 1;
        }
        push(&mut out, idx, &[]);
        out
    }
}

// ---------------------------------------------------------------- KDBX 4 decoder

#[derive(Clone, Debug)]
pub struct Decoded4 {
    pub minor: u16,
    pub major: u16,
    pub fields: FieldList,
    pub header_len: usize,
    pub cipher: CipherK,
    pub gzip: bool,
    pub kdf: Kdf,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub blocks: Vec<usize>,
    /// offset of each block (its HMAC), the final empty one included
    pub block_at: Vec<usize>,
    pub end: usize,
    pub inner_fields: FieldList,
    pub inner: InnerK,
    pub inner_key: Vec<u8>,
    pub xml: Vec<u8>,
    pub encrypted: Vec<u8>,
    pub packed: Vec<u8>,
    pub plain: Vec<u8>,
}

fn single<'a>(fields: &'a FieldList, id: u8, what: &str) -> Result<&'a [u8], String> {
    let m: Vec<_> = fields.iter().filter(|f| f.0 == id).collect();
    match m.as_slice() {
        [one] => Ok(&one.1),
        [] => Err(format!("{what} field missing")),
        _ => Err(format!("{what} field repeated")),
    }
}

/// Strict decoder: every deviation from the documented layout is an error
pub fn decode4(data: &[u8], creds: &Creds) -> Result<Decoded4, String> {
    let mut c = Cur { d: data, p: 0 };
    if c.take(8)? != SIG {
        return Err("wrong signature".into());
    }
    let minor = c.u16()?;
    let major = c.u16()?;
    if major != 4 {
        return Err(format!("version {major}.{minor}"));
    }
    let fields = read_fields4(&mut c)?;
    let header_len = c.p;
    let header = &data[..header_len];
    if c.take(32)? != sha256(header) {
        return Err("header hash does not match".into());
    }
    let cid = single(&fields, 2, "cipher")?;
    let cipher = [CipherK::Aes, CipherK::Twofish, CipherK::ChaCha]
        .into_iter()
        .find(|k| k.uuid() == cid)
        .ok_or_else(|| format!("unknown cipher {cid:x?}"))?;
    let gz = single(&fields, 3, "compression")?;
    let gzip_on = match gz {
        [0, 0, 0, 0] => false,
        [1, 0, 0, 0] => true,
        x => return Err(format!("compression {x:x?}")),
    };
    let seed = single(&fields, 4, "master seed")?.to_vec();
    let iv = single(&fields, 7, "IV")?.to_vec();
    let kdf = parse_kdf(single(&fields, 11, "KDF parameters")?)?;
    let master = kdf.derive(&composite(creds)).ok_or("KDF parameters out of range")?;
    let base = hmac_base(&seed, &master);
    if c.take(32)? != hmac256(&block_key(&base, u64::MAX), &[header]) {
        return Err("header HMAC does not match".into());
    }
    let mut encrypted = Vec::new();
    let mut blocks = Vec::new();
    let mut block_at = Vec::new();
    let mut idx = 0u64;
    loop {
        block_at.push(c.p);
        let mac = c.take(32)?;
        let n = c.u32()?;
        let d = c.take(n as usize)?;
        if mac != hmac256(&block_key(&base, idx), &[&idx.to_le_bytes(), &n.to_le_bytes(), d]) {
            return Err(format!("HMAC of block {idx} does not match"));
        }
        idx += 1;
        if n == 0 {
            break;
        }
        blocks.push(d.len());
        encrypted.extend_from_slice(d);
    }
    let end = c.p;
    if end != data.len() {
        return Err(format!("{} bytes after the final block", data.len() - end));
    }
    let packed = decrypt(cipher, &cipher_key(&seed, &master), &iv, &encrypted)?;
    let plain = if gzip_on { gunzip(&packed)? } else { packed.clone() };
    let mut c = Cur { d: &plain, p: 0 };
    let inner_fields = read_fields4(&mut c)?;
    let iid = single(&inner_fields, 1, "inner stream id")?;
    let inner = match iid {
        [2, 0, 0, 0] => InnerK::Salsa,
        [3, 0, 0, 0] => InnerK::ChaCha,
        x => return Err(format!("inner stream id {x:x?}")),
    };
    let inner_key = single(&inner_fields, 2, "inner stream key")?.to_vec();
    let xml = plain[c.p..].to_vec();
    Ok(Decoded4 {
        minor,
        major,
        fields,
        header_len,
        cipher,
        gzip: gzip_on,
        kdf,
        seed,
        iv,
        blocks,
        block_at,
        end,
        inner_fields,
        inner,
        inner_key,
        xml,
        encrypted,
        packed,
        plain,
    })
}

// ---------------------------------------------------------------- KDBX 3.1 encoder

#[derive(Clone, Debug)]
pub struct File3 {
    pub minor: u16,
    pub fields: FieldList,
    pub start: [u8; 32],
    pub xml: Vec<u8>,
    pub cuts: Vec<usize>,
    pub settings: Settings,
    pub creds: Creds,
}

pub fn std_fields3(s: &Settings, start: &[u8; 32]) -> FieldList {
    let (rounds, salt) = match &s.kdf {
        Kdf::Aes { rounds, salt } => (*rounds, salt.clone()),
        _ => panic!("KDBX 3 needs the AES KDF"),
    };
    vec![
        (2, s.cipher.uuid().to_vec()),
        (3, u32::from(s.gzip).to_le_bytes().to_vec()),
        (4, s.seed.clone()),
        (5, salt),
        (6, rounds.to_le_bytes().to_vec()),
        (7, s.iv.clone()),
        (8, s.inner_key.clone()),
        (9, start.to_vec()),
        (10, s.inner.id().to_le_bytes().to_vec()),
    ]
}

impl File3 {
    pub fn plain(s: &Settings, c: &Creds, start: [u8; 32], xml: Vec<u8>) -> File3 {
        let mut fields = std_fields3(s, &start);
        fields.push((0, b"\r\n\r\n".to_vec()));
        File3 { minor: 1, fields, start, xml, cuts: Vec::new(), settings: s.clone(), creds: c.clone() }
    }

    pub fn header(&self) -> Vec<u8> {
        let mut out = SIG.to_vec();
        out.extend_from_slice(&self.minor.to_le_bytes());
        out.extend_from_slice(&3u16.to_le_bytes());
        out.extend_from_slice(&fields3(&self.fields));
        out
    }

    pub fn blocks(&self, packed: &[u8]) -> Vec<u8> {
        let mut out = Vec::new();
        let mut rest = packed;
        let mut idx = 0u32;
        let mut cuts = self.cuts.iter();
        while !rest.is_empty() {
            let n = cuts.next().copied().unwrap_or(rest.len()).max(1).min(rest.len());
            out.extend_from_slice(&idx.to_le_bytes());
            out.extend_from_slice(&sha256(&rest[..n]));
            out.extend_from_slice(&(n as u32).to_le_bytes());
            out.extend_from_slice(&rest[..n]);
            rest = &rest[n..];
            idx += 1;
        }
        out.extend_from_slice(&idx.to_le_bytes());
        out.extend_from_slice(&[0; 32]);
        out.extend_from_slice(&0u32.to_le_bytes());
        out
    }

    pub fn seal(&self, payload: &[u8]) -> Vec<u8> {
        let master = self.settings.kdf.derive(&composite(&self.creds)).unwrap_or([0; 32]);
        let key = cipher_key(&self.settings.seed, &master);
        let mut out = self.header();
        out.extend_from_slice(&encrypt(self.settings.cipher, &key, &self.settings.iv, payload));
        out
    }

    pub fn payload(&self, rng: &mut Rng) -> Vec<u8> {
        let packed = if self.settings.gzip { gzip(&self.xml, rng) } else { self.xml.clone() };
        let mut payload = self.start.to_vec();
        payload.extend_from_slice(&self.blocks(&packed));
        payload
    }

    pub fn bytes(&self, rng: &mut Rng) -> Vec<u8> {
        let p = self.payload(rng);
        self.seal(&p)
    }
}
