//! What a disk may hold after a crash. A recorded run of file operations is replayed on a model of the file
//! system that knows, for every file and directory, what the last sync of it made certain and which later
//! changes were still only in memory. From there every choice of which of those changes reached the disk
//! is built as a real directory tree.
use crate::iolog::Op;
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    hash::{Hash, Hasher},
    os::unix::fs::FileExt,
    path::{Component, Path},
    sync::Arc,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Node {
    File(usize),
    Dir(usize),
}
#[derive(Clone, Debug)]
enum Chg {
    Write(u64, Arc<Vec<u8>>),
    Trunc(u64),
}
fn apply(data: &mut Vec<u8>, c: &Chg, part: Option<usize>) {
    match c {
        Chg::Write(at, d) => {
            let d = &d[..part.unwrap_or(d.len())];
            let end = *at as usize + d.len();
            if data.len() < end {
                data.resize(end, 0);
            }
            data[*at as usize..end].copy_from_slice(d);
        }
        Chg::Trunc(n) => data.resize(*n as usize, 0),
    }
}
#[derive(Clone, Debug)]
enum DChg {
    Set(String, Node),
    Del(String),
    /// Arrives under this name from that directory and name.
    Move(String, Node, usize, String),
}
#[derive(Clone, Debug, Default)]
struct FileN {
    durable: Arc<Vec<u8>>,
    /// The last change that is part of it.
    upto: usize,
    pending: Vec<(usize, Chg)>,
}
#[derive(Clone, Debug, Default)]
struct DirN {
    durable: BTreeMap<String, Node>,
    now: BTreeMap<String, Node>,
    pending: Vec<(usize, DChg)>,
}

/// How much of the freedom a disk has is explored.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss {
    /// The process dies; the operating system keeps everything it was given.
    Process,
    /// Power is lost: each file and directory keeps a prefix of what it was given since its last sync, the last
    /// kept write possibly only in part.
    Ordered,
    /// As before, but a sector is written as a whole or not at all, also where a file grows.
    Sectors,
    /// As `Ordered`, and changes within one file may also reach the disk out of order.
    Any,
}

#[derive(Clone, Debug)]
pub struct Disk {
    files: Vec<FileN>,
    dirs: Vec<DirN>,
    pub marks: Vec<usize>,
    n: usize,
}
/// What is kept of one file: changes applied in order, and how much of the last.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Kept(Vec<usize>, Option<usize>);

impl Default for Disk {
    fn default() -> Self {
        Self { files: vec![], dirs: vec![DirN::default()], marks: vec![], n: 0 }
    }
}
impl Disk {
    fn dir_of(&self, p: &Path) -> Option<(usize, String)> {
        let name = p.file_name()?.to_str()?.to_string();
        match self.find(p.parent()?)? {
            Node::Dir(d) => Some((d, name)),
            _ => None,
        }
    }
    fn find(&self, p: &Path) -> Option<Node> {
        let mut at = Node::Dir(0);
        for c in p.components() {
            let (Component::Normal(c), Node::Dir(d)) = (c, at) else { return None };
            at = *self.dirs[d].now.get(c.to_str()?)?;
        }
        Some(at)
    }
    fn link(&mut self, p: &Path, node: Node) {
        let (d, name) = self.dir_of(p).unwrap_or_else(|| panic!("no directory for {p:?}"));
        self.dirs[d].now.insert(name.clone(), node);
        let n = self.n;
        self.dirs[d].pending.push((n, DChg::Set(name, node)));
    }
    pub fn step(&mut self, op: &Op) {
        self.n += 1;
        let n = self.n;
        match op {
            Op::Create(p) => {
                self.files.push(FileN::default());
                self.link(p, Node::File(self.files.len() - 1))
            }
            Op::Mkdir(p) => {
                self.dirs.push(DirN::default());
                self.link(p, Node::Dir(self.dirs.len() - 1))
            }
            Op::Write(p, at, data) => {
                if let Some(Node::File(f)) = self.find(p) {
                    self.files[f].pending.push((n, Chg::Write(*at, Arc::new(data.clone()))))
                }
            }
            Op::Trunc(p, len) => {
                if let Some(Node::File(f)) = self.find(p) {
                    self.files[f].pending.push((n, Chg::Trunc(*len)))
                }
            }
            Op::Sync(p) => match self.find(p) {
                Some(Node::File(f)) => {
                    let file = &mut self.files[f];
                    for (n, c) in std::mem::take(&mut file.pending) {
                        apply(Arc::make_mut(&mut file.durable), &c, None);
                        file.upto = n;
                    }
                }
                Some(Node::Dir(d)) => {
                    // a rename is one step: it is certain once either directory is
                    let moved: Vec<usize> = (0..self.dirs.len())
                        .filter(|x| *x == d || self.dirs[*x].pending.iter().any(|(_, c)| matches!(c, DChg::Move(_, _, from, _) if *from == d)))
                        .collect();
                    for x in moved {
                        for (_, c) in std::mem::take(&mut self.dirs[x].pending) {
                            Self::settle(&mut self.dirs, x, &c, |d| &mut d.durable);
                        }
                    }
                }
                None => {}
            },
            Op::Rename(a, b) => {
                let Some(node) = self.find(a) else { return };
                let (from, old) = self.dir_of(a).unwrap();
                let (to, new) = self.dir_of(b).unwrap();
                self.dirs[from].now.remove(&old);
                self.dirs[to].now.insert(new.clone(), node);
                self.dirs[to].pending.push((n, DChg::Move(new, node, from, old)));
            }
            Op::Unlink(p) => {
                if let Some((d, name)) = self.dir_of(p) {
                    self.dirs[d].now.remove(&name);
                    self.dirs[d].pending.push((n, DChg::Del(name)));
                }
            }
            Op::Mark(m) => self.marks.push(*m),
        }
    }
    fn settle(dirs: &mut [DirN], d: usize, c: &DChg, view: impl Fn(&mut DirN) -> &mut BTreeMap<String, Node>) {
        match c {
            DChg::Set(name, node) => {
                view(&mut dirs[d]).insert(name.clone(), *node);
            }
            DChg::Del(name) => {
                view(&mut dirs[d]).remove(name);
            }
            DChg::Move(name, node, from, old) => {
                view(&mut dirs[*from]).remove(old);
                view(&mut dirs[d]).insert(name.clone(), *node);
            }
        }
    }

    fn file_choices(&self, f: &FileN, loss: Loss) -> Vec<Kept> {
        let n = f.pending.len();
        let all: Vec<usize> = (0..n).collect();
        if loss == Loss::Process || n == 0 {
            return vec![Kept(all, None)];
        }
        // everything, nothing, and each prefix
        let mut out = vec![Kept(all.clone(), None)];
        let many = n > 12;
        for k in (0..n).rev() {
            if many && k > 3 && k + 4 < n {
                continue;
            }
            out.push(Kept(all[..k].to_vec(), None));
            if let Chg::Write(at, d) = &f.pending[k].1 {
                // cut at a boundary of a sector, which is written as a whole; beyond the end anywhere
                let sector = |near: u64| (near.next_multiple_of(512) - at) as usize;
                let cuts = if loss != Loss::Sectors && *at >= f.durable.len() as u64 { vec![sector(at + 1), d.len() / 2, d.len() - 1] } else { vec![sector(at + 1), sector(at + d.len() as u64 / 2), sector(at + d.len() as u64) - 512.min(sector(at + d.len() as u64))] };
                for cut in cuts {
                    if cut > 0 && cut < d.len() {
                        let kept = Kept(all[..=k].to_vec(), Some(cut));
                        if !out.contains(&kept) {
                            out.push(kept);
                        }
                    }
                }
            }
        }
        if loss == Loss::Any && n > 1 {
            let sets: Vec<Vec<usize>> = if n <= 5 {
                (0..1u32 << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
            } else {
                let one = (0..n).map(|i| vec![i]);
                let but = (0..n).map(|i| (0..n).filter(|j| *j != i).collect());
                one.chain(but).collect()
            };
            for s in sets {
                if !out.iter().any(|k| k.1.is_none() && k.0 == s) {
                    out.push(Kept(s, None));
                }
            }
        }
        out
    }

    /// Every disk that this moment may leave, each once over all calls with the same `seen`. Where the choices
    /// of the single files and directories have more than `cap` combinations, at most two of them differ from
    /// "everything was kept" or "nothing was kept".
    pub fn crashes(&self, loss: Loss, cap: usize, seen: &mut HashSet<u64>, mut f: impl FnMut(Image)) {
        let mut axes: Vec<(Axis, usize)> = vec![];
        let choices: Vec<Vec<Kept>> = self.files.iter().map(|f| self.file_choices(f, loss)).collect();
        for (i, c) in choices.iter().enumerate() {
            if c.len() > 1 {
                axes.push((Axis::File(i), c.len()));
            }
        }
        for (i, d) in self.dirs.iter().enumerate() {
            if loss != Loss::Process && !d.pending.is_empty() {
                axes.push((Axis::Dir(i), d.pending.len() + 1));
            }
        }
        // choice 0 of every axis: everything was kept
        let none = |a: &(Axis, usize)| match a.0 {
            Axis::File(i) => choices[i].iter().position(|k| k.0.is_empty()).unwrap(),
            Axis::Dir(_) => a.1 - 1,
        };
        let product = axes.iter().fold(1usize, |p, a| p.saturating_mul(a.1));
        let mut picks: Vec<Vec<usize>> = vec![];
        if product <= cap {
            let mut at = vec![0; axes.len()];
            'all: loop {
                picks.push(at.clone());
                for i in 0..at.len() {
                    at[i] += 1;
                    if at[i] < axes[i].1 {
                        continue 'all;
                    }
                    at[i] = 0;
                }
                break;
            }
        } else {
            for base in [vec![0; axes.len()], axes.iter().map(none).collect::<Vec<_>>()] {
                for i in 0..axes.len() {
                    for x in 0..axes[i].1 {
                        for j in i..axes.len() {
                            for y in 0..axes[j].1 {
                                let mut at = base.clone();
                                at[i] = x;
                                at[j] = if i == j { x } else { y };
                                picks.push(at);
                            }
                        }
                    }
                }
            }
        }
        for at in picks {
            let mut files: Vec<Kept> = choices.iter().map(|c| c[0].clone()).collect();
            let mut dirs: Vec<usize> = self.dirs.iter().map(|d| d.pending.len()).collect();
            for ((axis, n), x) in axes.iter().zip(&at) {
                match axis {
                    Axis::File(i) => files[*i] = choices[*i][*x].clone(),
                    Axis::Dir(i) => dirs[*i] = n - 1 - x,
                }
            }
            // which operations ever took effect names the image, whenever the crash was
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for (i, k) in files.iter().enumerate() {
                let f = &self.files[i];
                let prefix = k.1.is_none() && k.0.iter().enumerate().all(|(i, x)| i == *x);
                if prefix {
                    (i, k.0.last().map_or(f.upto, |x| f.pending[*x].0)).hash(&mut h);
                } else {
                    (i, f.upto, k.0.iter().map(|x| f.pending[*x].0).collect::<Vec<_>>(), k.1).hash(&mut h);
                }
            }
            let names = self.names(&dirs);
            format!("{names:?}").hash(&mut h);
            if seen.insert(h.finish()) {
                f(Image { disk: self, files, names, dirs });
            }
        }
    }
    fn names(&self, kept: &[usize]) -> Vec<BTreeMap<String, Node>> {
        let mut dirs = self.dirs.clone();
        // in the order they were made
        let mut all: Vec<(usize, usize, DChg)> = vec![];
        for (d, k) in kept.iter().enumerate() {
            all.extend(self.dirs[d].pending[..*k].iter().map(|(n, c)| (*n, d, c.clone())));
        }
        all.sort_by_key(|x| x.0);
        for (_, d, c) in all {
            Self::settle(&mut dirs, d, &c, |d| &mut d.durable);
        }
        dirs.into_iter().map(|d| d.durable).collect()
    }
}
#[derive(Clone, Copy)]
enum Axis {
    File(usize),
    Dir(usize),
}

/// Writes what is not zero.
fn sparse(p: &Path, data: &[u8]) -> std::io::Result<()> {
    const PAGE: usize = 4096;
    let f = fs::File::create(p)?;
    f.set_len(data.len() as u64)?;
    let pages: Vec<&[u8]> = data.chunks(PAGE).collect();
    let zero = |p: &[u8]| p == &[0; PAGE][..p.len()];
    let mut at = 0;
    while at < pages.len() {
        let n = pages[at..].iter().take_while(|p| !zero(p)).count();
        if n > 0 {
            let end = ((at + n) * PAGE).min(data.len());
            f.write_all_at(&data[at * PAGE..end], (at * PAGE) as u64)?;
        }
        at += n + 1;
    }
    Ok(())
}

pub struct Image<'a> {
    disk: &'a Disk,
    files: Vec<Kept>,
    names: Vec<BTreeMap<String, Node>>,
    dirs: Vec<usize>,
}
impl Image<'_> {
    /// What was told or done before the crash.
    pub fn marks(&self) -> &[usize] {
        &self.disk.marks
    }
    pub fn build(&self, at: &Path) {
        self.build_dir(0, at);
    }
    fn build_dir(&self, d: usize, at: &Path) {
        for (name, node) in &self.names[d] {
            let p = at.join(name);
            match node {
                Node::Dir(d) => {
                    fs::create_dir(&p).unwrap();
                    self.build_dir(*d, &p);
                }
                Node::File(f) => sparse(&p, &self.content(*f)).unwrap(),
            }
        }
    }
    fn content(&self, f: usize) -> Vec<u8> {
        let (file, kept) = (&self.disk.files[f], &self.files[f]);
        let mut data = (*file.durable).clone();
        for (i, x) in kept.0.iter().enumerate() {
            apply(&mut data, &file.pending[*x].1, if i + 1 == kept.0.len() { kept.1 } else { None });
        }
        data
    }
    /// Is a write kept only in part?
    pub fn torn(&self) -> bool {
        self.files.iter().any(|k| k.1.is_some())
    }
    /// Is a write to a file of this name kept only in part?
    pub fn torn_in(&self, name: &str) -> bool {
        let is = |i: usize| self.disk.dirs.iter().any(|d| d.now.get(name) == Some(&Node::File(i)));
        self.files.iter().enumerate().any(|(i, k)| k.1.is_some() && is(i))
    }
    /// Was everything kept?
    pub fn whole(&self) -> bool {
        self.files.iter().enumerate().all(|(i, k)| k.1.is_none() && k.0.len() == self.disk.files[i].pending.len()) && self.dirs.iter().zip(&self.disk.dirs).all(|(k, d)| *k == d.pending.len())
    }
    pub fn describe(&self) -> String {
        let mut out = vec![];
        let mut path = BTreeMap::new();
        fn walk(disk: &Disk, d: usize, at: String, path: &mut BTreeMap<usize, String>, out: &mut Vec<String>, dirs: &[usize]) {
            let dir = &disk.dirs[d];
            if dirs[d] < dir.pending.len() {
                out.push(format!("{}/: entries kept up to change {} of {}: lost {:?}", at, dirs[d], dir.pending.len(), &dir.pending[dirs[d]..].iter().map(|c| &c.1).collect::<Vec<_>>()));
            }
            for (n, node) in &dir.now {
                match node {
                    Node::Dir(x) => walk(disk, *x, format!("{at}/{n}"), path, out, dirs),
                    Node::File(f) => {
                        path.insert(*f, format!("{at}/{n}"));
                    }
                }
            }
        }
        walk(self.disk, 0, String::new(), &mut path, &mut out, &self.dirs);
        for (i, k) in self.files.iter().enumerate() {
            let n = self.disk.files[i].pending.len();
            if n > k.0.len() || k.1.is_some() {
                let what: Vec<String> = self.disk.files[i]
                    .pending
                    .iter()
                    .enumerate()
                    .map(|(j, (_, c))| {
                        let s = match c {
                            Chg::Write(at, d) => format!("write {}@{}", d.len(), at),
                            Chg::Trunc(n) => format!("truncate to {n}"),
                        };
                        if !k.0.contains(&j) {
                            format!("LOST {s}")
                        } else if Some(&j) == k.0.last() && k.1.is_some() {
                            format!("PARTLY({}) {s}", k.1.unwrap())
                        } else {
                            s
                        }
                    })
                    .collect();
                out.push(format!("{}: {}", path.get(&i).cloned().unwrap_or("(removed)".into()), what.join(", ")));
            }
        }
        if out.is_empty() {
            out.push("everything kept".into());
        }
        out.join("; ")
    }
}

/// Every disk that a crash at any moment of the recorded run may leave, each once, with the last moment it can
/// be found at: what was acknowledged by then is the most that can be asked of it. Returns how many moments.
pub fn crashes(ops: &[Op], losses: &[Loss], cap: usize, mut f: impl FnMut(&Image)) -> usize {
    let mut disk = Disk::default();
    let mut moments = vec![];
    for op in ops {
        if !matches!(op, Op::Mark(_)) {
            moments.push((disk.clone(), matches!(op, Op::Sync(_))));
        }
        disk.step(op);
    }
    moments.push((disk, true));
    let n = moments.len();
    let mut seen = HashSet::new();
    while let Some((disk, before_sync)) = moments.pop() {
        for loss in losses {
            // what a loss of power may keep grows until the next sync
            if *loss == Loss::Process || before_sync {
                disk.crashes(*loss, cap, &mut seen, |i| f(&i));
            }
        }
    }
    n
}
