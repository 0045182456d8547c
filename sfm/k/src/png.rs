//! Reads the repository's two photographs (8-bit grey, not interlaced) without any library.
struct Bits<'a> {
    b: &'a [u8],
    at: usize,
}
impl Bits<'_> {
    fn get(&mut self, n: usize) -> usize {
        let mut v = 0;
        for i in 0..n {
            v |= (self.b[self.at / 8] as usize >> (self.at % 8) & 1) << i;
            self.at += 1;
        }
        v
    }
}
/// Canonical Huffman code: number of codes per length, symbols in order.
struct Code {
    count: [usize; 16],
    symbols: Vec<usize>,
}
impl Code {
    fn new(lengths: &[usize]) -> Code {
        let mut count = [0; 16];
        lengths.iter().for_each(|&l| count[l] += 1);
        count[0] = 0;
        let mut symbols = vec![];
        for l in 1..16 {
            symbols.extend((0..lengths.len()).filter(|&s| lengths[s] == l));
        }
        Code { count, symbols }
    }
    fn read(&self, b: &mut Bits) -> usize {
        let (mut code, mut first, mut index) = (0, 0, 0);
        for l in 1..16 {
            code |= b.get(1);
            if code < first + self.count[l] {
                return self.symbols[index + code - first];
            }
            index += self.count[l];
            first = (first + self.count[l]) << 1;
            code <<= 1;
        }
        panic!("bad code")
    }
}
fn inflate(data: &[u8]) -> Vec<u8> {
    let mut b = Bits { b: data, at: 16 };
    let mut out: Vec<u8> = vec![];
    const LEN: [usize; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
    const DIST: [usize; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
    loop {
        let last = b.get(1) == 1;
        let (lit, dist) = match b.get(2) {
            0 => {
                b.at = b.at.div_ceil(8) * 8;
                let n = b.get(16);
                b.get(16);
                for _ in 0..n {
                    out.push(b.get(8) as u8);
                }
                if last {
                    return out;
                }
                continue;
            }
            1 => {
                let l: Vec<usize> = (0..288).map(|i| match i { 0..=143 => 8, 144..=255 => 9, 256..=279 => 7, _ => 8 }).collect();
                (Code::new(&l), Code::new(&[5; 30]))
            }
            _ => {
                let (nl, nd, nc) = (b.get(5) + 257, b.get(5) + 1, b.get(4) + 4);
                let mut cl = [0; 19];
                for i in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15].into_iter().take(nc) {
                    cl[i] = b.get(3);
                }
                let cl = Code::new(&cl);
                let mut l: Vec<usize> = vec![];
                while l.len() < nl + nd {
                    match cl.read(&mut b) {
                        16 => { let (p, n) = (*l.last().unwrap(), 3 + b.get(2)); l.extend(std::iter::repeat(p).take(n)) }
                        17 => { let n = 3 + b.get(3); l.extend(std::iter::repeat(0).take(n)) }
                        18 => { let n = 11 + b.get(7); l.extend(std::iter::repeat(0).take(n)) }
                        s => l.push(s),
                    }
                }
                (Code::new(&l[..nl]), Code::new(&l[nl..]))
            }
        };
        loop {
            match lit.read(&mut b) {
                256 => break,
                s if s < 256 => out.push(s as u8),
                s => {
                    let i = s - 257;
                    let n = LEN[i] + if (8..28).contains(&i) { b.get((i - 4) / 4) } else { 0 };
                    let i = dist.read(&mut b);
                    let d = DIST[i] + if i >= 4 { b.get(i / 2 - 1) } else { 0 };
                    for _ in 0..n {
                        out.push(out[out.len() - d]);
                    }
                }
            }
        }
        if last {
            return out;
        }
    }
}
/// Width, height and pixels.
pub fn read(path: &str) -> Option<(usize, usize, Vec<u8>)> {
    let f = std::fs::read(path).ok()?;
    let word = |i: usize| u32::from_be_bytes(f[i..i + 4].try_into().unwrap()) as usize;
    let (mut i, mut data, mut w, mut h) = (8, vec![], 0, 0);
    while i < f.len() {
        let n = word(i);
        match &f[i + 4..i + 8] {
            b"IHDR" => {
                (w, h) = (word(i + 8), word(i + 12));
                if f[i + 16] != 8 || f[i + 17] != 0 || f[i + 20] != 0 {
                    return None;
                }
            }
            b"IDAT" => data.extend_from_slice(&f[i + 8..i + 8 + n]),
            _ => {}
        }
        i += 12 + n;
    }
    let raw = inflate(&data);
    let mut out = vec![0u8; w * h];
    for y in 0..h {
        let kind = raw[y * (w + 1)];
        for x in 0..w {
            let a = if x > 0 { out[y * w + x - 1] as i32 } else { 0 };
            let b = if y > 0 { out[(y - 1) * w + x] as i32 } else { 0 };
            let c = if x > 0 && y > 0 { out[(y - 1) * w + x - 1] as i32 } else { 0 };
            let p = match kind {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                _ => {
                    let q = a + b - c;
                    let (da, db, dc) = ((q - a).abs(), (q - b).abs(), (q - c).abs());
                    if da <= db && da <= dc { a } else if db <= dc { b } else { c }
                }
            };
            out[y * w + x] = raw[y * (w + 1) + 1 + x].wrapping_add(p as u8);
        }
    }
    Some((w, h, out))
}
