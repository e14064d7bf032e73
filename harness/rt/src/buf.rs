//! Buffers that watch how they are used.
use bytes::Buf;

pub const BUDGET_MARK: &str = "MV-BUDGET: no progress";

/// A buffer split into chunks at given positions, which counts the calls made to it.
pub struct SegBuf<'a> {
    data: &'a [u8],
    /// ends of the chunks, ascending, the last one is the end of the data
    cuts: Vec<usize>,
    pos: usize,
    seg: usize,
    calls: std::cell::Cell<u64>,
    budget: u64,
}

impl<'a> SegBuf<'a> {
    pub fn new(data: &'a [u8], mut cuts: Vec<usize>) -> Self {
        cuts.retain(|c| *c > 0 && *c < data.len());
        cuts.push(data.len());
        cuts.sort_unstable();
        cuts.dedup();
        Self { data, cuts, pos: 0, seg: 0, calls: 0.into(), budget: 20_000 + 3000 * data.len() as u64 }
    }
    pub fn whole(data: &'a [u8]) -> Self { Self::new(data, Vec::new()) }
    pub fn calls(&self) -> u64 { self.calls.get() }
    fn call(&self) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n > self.budget { panic!("{BUDGET_MARK} after {n} buffer calls for {} bytes", self.data.len()); }
    }
}

impl Buf for SegBuf<'_> {
    fn remaining(&self) -> usize { self.call(); self.data.len() - self.pos }
    fn chunk(&self) -> &[u8] {
        self.call();
        if self.pos == self.data.len() { return &[]; }
        &self.data[self.pos..self.cuts[self.seg]]
    }
    fn advance(&mut self, cnt: usize) {
        self.call();
        assert!(cnt <= self.data.len() - self.pos, "cannot advance past the end of the buffer");
        self.pos += cnt;
        while self.seg + 1 < self.cuts.len() && self.pos >= self.cuts[self.seg] { self.seg += 1; }
    }
}
