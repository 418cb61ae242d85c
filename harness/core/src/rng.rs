/// Source of choices. Fresh mode draws from a PRNG and records; replay mode reads a choice sequence
/// (and yields the simplest choice, 0, after its end).
pub struct Src {
    state: u64,
    replay: Option<Vec<u32>>,
    /// after the end of the replayed sequence, draw fresh choices instead of 0
    fresh_tail: bool,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Src {
    pub fn fresh(seed: u64) -> Self {
        Src { state: seed, replay: None, fresh_tail: false, pos: 0, rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { state: 0, replay: Some(choices), fresh_tail: false, pos: 0, rec: Vec::new() }
    }
    /// a given beginning, random choices after it
    pub fn prefix(choices: Vec<u32>, seed: u64) -> Self {
        Src { state: seed, replay: Some(choices), fresh_tail: true, pos: 0, rec: Vec::new() }
    }
    fn next_u64(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let given = match &self.replay {
            Some(r) => match r.get(self.pos) {
                Some(v) => Some(*v),
                None if self.fresh_tail => None,
                None => Some(0),
            },
            None => None,
        };
        let v = match given {
            Some(v) if v < n => v,
            Some(v) => v % n,
            None => ((self.next_u64() >> 32) * n as u64 >> 32) as u32,
        };
        self.pos += 1;
        self.rec.push(v);
        v as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den (0 = false is the simple choice)
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// the given beginning, and whether fresh choices follow it
    pub fn start(&self) -> (&[u32], bool) {
        (self.replay.as_deref().unwrap_or(&[]), self.fresh_tail || self.replay.is_none())
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
