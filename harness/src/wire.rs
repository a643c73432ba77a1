//! An independent implementation of the Thrift binary protocol
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum TV {
    Bool(bool),
    I8(i8),
    F64(u64),
    I16(i16),
    I32(i32),
    I64(i64),
    Str(Vec<u8>),
    Struct(Fields),
    Map(u8, u8, Vec<(TV, TV)>),
    Set(u8, Vec<TV>),
    List(u8, Vec<TV>),
}
pub type Fields = Vec<(i16, TV)>;

impl TV {
    pub fn ty(&self) -> u8 {
        match self {
            TV::Bool(_) => 2,
            TV::I8(_) => 3,
            TV::F64(_) => 4,
            TV::I16(_) => 6,
            TV::I32(_) => 8,
            TV::I64(_) => 10,
            TV::Str(_) => 11,
            TV::Struct(_) => 12,
            TV::Map(..) => 13,
            TV::Set(..) => 14,
            TV::List(..) => 15,
        }
    }
}

pub const CALL: u8 = 1;
pub const REPLY: u8 = 2;
pub const EXCEPTION: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub name: Vec<u8>,
    pub ty: u8,
    pub seq: i32,
    pub body: Fields,
}

/// Encoded bytes and the places of length fields
pub struct Enc {
    pub b: Vec<u8>,
    pub lens: Vec<usize>,
}

impl Enc {
    fn len(&mut self, n: usize) {
        self.lens.push(self.b.len());
        self.b.extend((n as i32).to_be_bytes());
    }
    fn value(&mut self, v: &TV) {
        match v {
            TV::Bool(x) => self.b.push(*x as u8),
            TV::I8(x) => self.b.push(*x as u8),
            TV::F64(x) => self.b.extend(x.to_be_bytes()),
            TV::I16(x) => self.b.extend(x.to_be_bytes()),
            TV::I32(x) => self.b.extend(x.to_be_bytes()),
            TV::I64(x) => self.b.extend(x.to_be_bytes()),
            TV::Str(x) => {
                self.len(x.len());
                self.b.extend(x);
            }
            TV::Struct(f) => self.fields(f),
            TV::Map(k, w, l) => {
                self.b.extend([*k, *w]);
                self.len(l.len());
                for (a, b) in l {
                    self.value(a);
                    self.value(b);
                }
            }
            TV::Set(t, l) | TV::List(t, l) => {
                self.b.push(*t);
                self.len(l.len());
                for x in l {
                    self.value(x);
                }
            }
        }
    }
    fn fields(&mut self, f: &Fields) {
        for (id, v) in f {
            self.b.push(v.ty());
            self.b.extend(id.to_be_bytes());
            self.value(v);
        }
        self.b.push(0);
    }
}

pub fn encode(m: &Msg, strict: bool) -> Enc {
    let mut e = Enc { b: vec![], lens: vec![] };
    if strict {
        e.b.extend([0x80, 1, 0, m.ty]);
    }
    e.len(m.name.len());
    e.b.extend(&m.name);
    if !strict {
        e.b.push(m.ty);
    }
    e.b.extend(m.seq.to_be_bytes());
    e.fields(&m.body);
    e
}

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.p..self.p.checked_add(n)?)?;
        self.p += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn i16(&mut self) -> Option<i16> {
        Some(i16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn i32(&mut self) -> Option<i32> {
        Some(i32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn i64(&mut self) -> Option<i64> {
        Some(i64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        let n = usize::try_from(self.i32()?).ok()?;
        Some(self.take(n)?.to_vec())
    }
    fn value(&mut self, t: u8, depth: u32) -> Option<TV> {
        if depth > 40 {
            return None;
        }
        Some(match t {
            2 => TV::Bool(self.u8()? != 0),
            3 => TV::I8(self.u8()? as i8),
            4 => TV::F64(self.i64()? as u64),
            6 => TV::I16(self.i16()?),
            8 => TV::I32(self.i32()?),
            10 => TV::I64(self.i64()?),
            11 => TV::Str(self.string()?),
            12 => TV::Struct(self.fields(depth + 1)?),
            13 => {
                let (k, v, n) = (self.u8()?, self.u8()?, self.i32()?);
                let mut l = vec![];
                for _ in 0..usize::try_from(n).ok()?.min(self.b.len()) {
                    l.push((self.value(k, depth + 1)?, self.value(v, depth + 1)?));
                }
                TV::Map(k, v, l)
            }
            14 | 15 => {
                let (e, n) = (self.u8()?, self.i32()?);
                let mut l = vec![];
                for _ in 0..usize::try_from(n).ok()?.min(self.b.len()) {
                    l.push(self.value(e, depth + 1)?);
                }
                if t == 14 {
                    TV::Set(e, l)
                } else {
                    TV::List(e, l)
                }
            }
            _ => return None,
        })
    }
    fn fields(&mut self, depth: u32) -> Option<Fields> {
        let mut f = vec![];
        loop {
            let t = self.u8()?;
            if t == 0 {
                return Some(f);
            }
            let id = self.i16()?;
            f.push((id, self.value(t, depth)?));
        }
    }
}

/// The message at the start of the bytes and its length
pub fn decode(b: &[u8]) -> Option<(Msg, usize)> {
    let mut d = Dec { b, p: 0 };
    let (name, ty, seq);
    if b.first()? & 0x80 != 0 {
        let h = d.take(4)?;
        if h[..2] != [0x80, 1] {
            return None;
        }
        ty = h[3];
        name = d.string()?;
        seq = d.i32()?;
    } else {
        name = d.string()?;
        ty = d.u8()?;
        seq = d.i32()?;
    }
    let body = d.fields(0)?;
    Some((Msg { name, ty, seq, body }, d.p))
}

/// An arbitrary value
pub fn any(r: &mut Rng, depth: u64) -> TV {
    match r.below(if depth == 0 { 7 } else { 11 }) {
        0 => TV::Bool(r.chance(1, 2)),
        1 => TV::I8(r.u64() as i8),
        2 => TV::F64(r.u64()),
        3 => TV::I16(r.u64() as i16),
        4 => TV::I32(r.u64() as i32),
        5 => TV::I64(r.u64() as i64),
        6 => TV::Str(crate::gen::ident(r, 3).into_bytes()),
        7 => {
            let n = r.below(4);
            TV::Struct((0..n).map(|_| (r.u64() as i16, any(r, depth - 1))).collect())
        }
        8 => {
            let k = any(r, 0);
            let v = any(r, depth - 1);
            let n = r.usize(4);
            TV::Map(k.ty(), v.ty(), vec![(k, v); n])
        }
        9 => {
            let v = any(r, depth - 1);
            let n = r.usize(4);
            TV::Set(v.ty(), vec![v; n])
        }
        _ => {
            let v = any(r, depth - 1);
            let n = r.usize(4);
            TV::List(v.ty(), vec![v; n])
        }
    }
}

/// Adds fields nobody knows and changes the order
pub fn disturb(r: &mut Rng, f: &mut Fields, known: &[i16]) {
    for _ in 0..r.below(4) {
        let id = loop {
            let id = if r.chance(1, 2) { r.range(-3, 8) as i16 } else { r.u64() as i16 };
            if !known.contains(&id) {
                break id;
            }
        };
        f.push((id, any(r, 3)));
    }
    r.shuffle(f);
}

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
    0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
    0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
    0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
    0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[u8]) -> String {
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut tail = data[data.len() / 64 * 64..].to_vec();
    tail.push(0x80);
    while tail.len() % 64 != 56 {
        tail.push(0);
    }
    tail.extend((data.len() as u64 * 8).to_be_bytes());
    for c in data.chunks_exact(64).chain(tail.chunks_exact(64)) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(c[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().map(|x| format!("{:08x}", x)).collect()
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}
