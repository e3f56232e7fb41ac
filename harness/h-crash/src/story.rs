//! What a history made of a list, and what of it a crash may not undo.
fn shared(a: usize, l: &[u64], b: &[u64]) -> usize {
    l.iter().zip(b).take_while(|(x, y)| x == y).count().min(a)
}

/// What each step made of the log: the identifiers it held after it; and which steps promised to be certain.
pub struct Story {
    pub states: Vec<Vec<u64>>,
    pub firm: Vec<bool>,
}
impl Story {
    /// What the disk must hold at least when `begun` steps had begun and `done` of them had ended, and what it may hold.
    fn asked(&self, begun: usize, done: usize) -> (Vec<u64>, &[Vec<u64>]) {
        let firm = (0..=done).rev().find(|i| self.firm[*i]);
        let Some(firm) = firm else { return (vec![], &self.states[..=begun]) };
        let mut n = self.states[firm].len();
        for s in &self.states[firm..=begun] {
            n = shared(n, &self.states[firm], s);
        }
        (self.states[firm][..n].to_vec(), &self.states[firm..=begun])
    }
    pub fn judge(&self, marks: &[usize], got: &[u64]) -> Result<(), String> {
        let begun = marks.iter().filter(|m| **m % 2 == 0).count();
        let done = marks.len() - begun;
        let (least, may) = self.asked(begun, done);
        if !got.starts_with(&least) {
            return Err(format!("{least:?} was committed, {got:?} is left"));
        }
        if !may.iter().any(|m| m.starts_with(got)) {
            return Err(format!("holds {got:?}, which is no beginning of anything it ever held since ({may:?})"));
        }
        Ok(())
    }
}

