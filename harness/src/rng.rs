#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    /// Independent stream for one case
    pub fn case(seed: u64, stream: &str, i: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x1000_0000_01b3);
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Rng::new(h ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// Inclusive range
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    /// True in `p` percent of the cases
    pub fn p(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    /// Any character, with a preference for those that code likes to treat in its own way
    pub fn ch(&mut self) -> char {
        let c = match self.n(8) {
            0 => self.n(0x20),
            1 => 0x20 + self.n(0x60),
            2 => 0x7f + self.n(0x21),
            3 => 0x80 + self.n(0x80),
            4 => 0x100 + self.n(0x700),
            5 => *self.pick(&[0x85, 0xa0, 0xad, 0x130, 0x131, 0x17f, 0x1c4, 0x345, 0x660, 0x966, 0x1e9e, 0x2000, 0x200b, 0x200d, 0x200f, 0x2018, 0x2019, 0x201c, 0x2028, 0x2029, 0x202e, 0x2060, 0x2126, 0x212a, 0x3000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xff07, 0xff1b, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]),
            6 => self.n(0x10000),
            _ => self.n(0x110000),
        };
        char::from_u32(c as u32).unwrap_or('\u{fffd}')
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
}
