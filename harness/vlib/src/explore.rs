//! Exhaustive enumeration helpers.

/// Every sequence of `len` symbols below `base`, by number.
pub fn seq_of(mut n: u64, base: u64, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for x in v.iter_mut().rev() {
        *x = (n % base) as usize;
        n /= base;
    }
    v
}

pub fn seq_count(base: u64, len: usize) -> u64 {
    base.pow(len as u32)
}

/// Every subset of 0..n as a bitmask.
pub fn subsets(n: usize) -> impl Iterator<Item = u64> {
    0..(1u64 << n)
}

pub fn bits(mask: u64) -> Vec<usize> {
    (0..64).filter(|i| mask >> i & 1 == 1).collect()
}

/// Every permutation of 0..n (Heap's algorithm order is irrelevant; lexicographic here).
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(rest, cur, out);
            cur.pop();
            rest.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}

/// Stateless depth-first exploration of every choice sequence: the body asks `c.choose(n)` wherever the
/// environment has n answers; it is re-run until every combination has been taken.
pub struct Chooser {
    prefix: Vec<usize>,
    pub taken: Vec<(usize, usize)>,
}
impl Chooser {
    pub fn replay(prefix: Vec<usize>) -> Self {
        Self { prefix, taken: vec![] }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let i = self.taken.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        assert!(c < n, "replay diverged: choice {c} of {n}");
        self.taken.push((c, n));
        c
    }
    pub fn trace(&self) -> Vec<usize> {
        self.taken.iter().map(|t| t.0).collect()
    }
}
/// Runs `body` once per choice sequence; `body` returns false to stop. Returns how many executions ran.
pub fn dfs(mut body: impl FnMut(&mut Chooser) -> bool) -> u64 {
    let mut prefix = vec![];
    let mut n = 0;
    loop {
        let mut c = Chooser { prefix: std::mem::take(&mut prefix), taken: vec![] };
        n += 1;
        if !body(&mut c) {
            return n;
        }
        let mut t = c.taken;
        loop {
            match t.pop() {
                None => return n,
                Some((x, k)) if x + 1 < k => {
                    prefix = t.iter().map(|t| t.0).collect();
                    prefix.push(x + 1);
                    break;
                }
                _ => {}
            }
        }
    }
}
