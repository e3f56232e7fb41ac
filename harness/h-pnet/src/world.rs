//! The outputs of three epochs, as they happened and as somebody could make them up, and the packs they are kept in.
use indexmap::IndexMap;
use rand::{rngs::StdRng, SeedableRng};
use std::{path::Path, sync::OnceLock};
use tn_config::KeyConfig;
use tn_storage::consensus::ConsensusChain;
use tn_types::{
    Address, AuthorityIdentifier, Batch, BlsKeypair, BlsPublicKey, BlsSignature, Certificate, CertifiedBatch, CommittedSubDag, Committee,
    CommitteeBuilder, ConsensusHeaderDigest, ConsensusNumHash, ConsensusOutput, Epoch, EpochRecord, EpochSeedChainValue, Hash as _,
    HeaderBuilder,
};
use vlib::Scratch;

pub fn keys() -> &'static [KeyConfig] {
    static K: OnceLock<Vec<KeyConfig>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = (0..7u64).map(|i| BlsKeypair::generate(&mut StdRng::seed_from_u64(900 + i))).collect();
        v.sort_by_key(|k| k.public().to_bytes());
        // and one that is never a member
        v.push(BlsKeypair::generate(&mut StdRng::seed_from_u64(907)));
        v.into_iter().map(KeyConfig::new_with_testing_key).collect()
    })
}
pub fn pk(i: usize) -> BlsPublicKey {
    keys()[i].primary_public_key()
}
pub fn who(k: &BlsPublicKey) -> usize {
    (0..keys().len()).find(|i| pk(*i) == *k).unwrap()
}
/// `shift` moves the addresses their members are paid at.
pub fn committee(epoch: Epoch, shift: u8) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for i in 0..4 {
        b.add_authority(pk(i), Address::repeat_byte(i as u8 + 1 + shift));
    }
    b.build()
}
fn batch(n: u64, salt: u64) -> Batch {
    Batch { transactions: vec![n.to_le_bytes().to_vec(), vec![salt as u8 + 1; 20 + n as usize]], epoch: 0, ..Default::default() }
}
/// The output with this number: of one or two certificates, with none to three batches.
fn output(epoch: Epoch, number: u64, parent: ConsensusHeaderDigest, salt: u64, shift: u8) -> ConsensusOutput {
    let c = committee(epoch, shift);
    let sets: Vec<Vec<u64>> = match number % 4 {
        1 => vec![vec![number]],
        2 => vec![vec![]],
        3 => vec![vec![number], vec![number, 100 + number]],
        _ => vec![vec![], vec![200 + number]],
    };
    let n = sets.len();
    let (mut certs, mut batches, mut digests) = (vec![], vec![], std::collections::VecDeque::new());
    for (i, set) in sets.iter().enumerate() {
        let author = (number as usize + i) % 4;
        let payload: IndexMap<_, _> = set.iter().map(|b| (batch(*b, salt).digest(), 0)).collect();
        let round = 2 * number as u32 - (n - 1 - i) as u32;
        let h = HeaderBuilder::default()
            .author(AuthorityIdentifier::from(pk(author)))
            .round(round)
            .epoch(epoch)
            .created_at(1000 + round as u64 + salt)
            .payload(payload.clone())
            .seed_signature(BlsSignature::default())
            .build();
        let votes = (0..3).map(|k| (AuthorityIdentifier::from(pk(k)), BlsSignature::default())).collect();
        certs.push(Certificate::new_unsigned_for_test(&c, h, votes).expect("certificate"));
        digests.extend(payload.keys().copied());
        batches.push(CertifiedBatch { address: Address::repeat_byte(author as u8 + 1 + shift), batches: set.iter().map(|b| batch(*b, salt)).collect() });
    }
    let leader = certs.last().unwrap().clone();
    let dag = CommittedSubDag::new(certs, leader, number, Default::default(), None, EpochSeedChainValue::epoch_root(epoch));
    if digests.is_empty() {
        return ConsensusOutput::new_with_subdag(dag, parent, number);
    }
    ConsensusOutput::new(dag, parent, number, false, digests, batches)
}
pub fn before_genesis() -> EpochRecord {
    let k: Vec<_> = (0..4).map(pk).collect();
    EpochRecord { epoch: 0, committee: k.clone(), next_committee: k, ..Default::default() }
}
pub fn same(a: &ConsensusOutput, b: &ConsensusOutput) -> bool {
    a.consensus_header() == b.consensus_header()
        && a.batches().len() == b.batches().len()
        && a.batches().iter().zip(b.batches()).all(|(x, y)| x.address == y.address && x.batches == y.batches)
        && a.digest() == b.digest()
}

/// A chain of three epochs, the last of them unfinished.
pub struct World {
    pub dir: Scratch,
    pub chain: ConsensusChain,
    pub outputs: Vec<ConsensusOutput>,
    pub records: Vec<EpochRecord>,
}
/// What is made up, and from which output on.
#[derive(Clone, Copy, Default)]
pub struct Made {
    pub salt: u64,
    pub from: u64,
    pub shift: u8,
    /// Outputs of each epoch.
    pub len: [u64; 3],
}
pub const LEN: [u64; 3] = [3, 3, 3];
pub fn epoch_of(number: u64) -> Epoch {
    ((number - 1) / 3) as Epoch
}
impl World {
    pub async fn new(made: Made) -> Self {
        let dir = Scratch::new();
        let chain = ConsensusChain::new(dir.path().to_path_buf(), committee(0, made.shift)).unwrap();
        let (mut outputs, mut records) = (Vec::<ConsensusOutput>::new(), Vec::<EpochRecord>::new());
        let mut at = (0, ConsensusHeaderDigest::default());
        for e in 0..3 {
            enter(&chain, &records, made.shift).await;
            for _ in 0..made.len[e] {
                let n = at.0 + 1;
                let o = output(e as Epoch, n, at.1, if n >= made.from { made.salt } else { 0 }, made.shift);
                at = (n, o.digest());
                chain.save_consensus_output(o.clone()).await.unwrap();
                outputs.push(o);
            }
            chain.persist_current().await.unwrap();
            if e < 2 {
                records.push(record(e as Epoch, at, records.last()));
                chain.epochs().save_record(records[e].clone()).await.unwrap();
                chain.epochs().persist().await.unwrap();
            }
        }
        Self { dir, chain, outputs, records }
    }
    pub fn previous(&self, epoch: Epoch) -> EpochRecord {
        if epoch == 0 { before_genesis() } else { self.records[epoch as usize - 1].clone() }
    }
    /// The record of an epoch that ends with this output.
    pub fn until(&self, number: u64) -> EpochRecord {
        let e = epoch_of(number);
        record(e, (number, self.outputs[number as usize - 1].digest()), self.records[..e as usize].last())
    }
    pub fn file(&self, epoch: Epoch) -> Vec<u8> {
        std::fs::read(self.dir.path().join(format!("epoch-{epoch}/data"))).unwrap()
    }
}
fn record(e: Epoch, at: (u64, ConsensusHeaderDigest), last: Option<&EpochRecord>) -> EpochRecord {
    let k: Vec<_> = (0..4).map(pk).collect();
    EpochRecord {
        epoch: e,
        committee: k.clone(),
        next_committee: k,
        parent_hash: last.map_or_else(Default::default, |r| r.digest()),
        final_consensus: ConsensusNumHash::new(at.0, at.1),
        ..Default::default()
    }
}
pub async fn enter(chain: &ConsensusChain, records: &[EpochRecord], shift: u8) {
    let epoch = records.len() as Epoch;
    if epoch == 0 {
        chain.epochs().save_dummy_epoch0(before_genesis()).await.unwrap();
    }
    chain.new_epoch(records.last().cloned().unwrap_or_else(before_genesis), committee(epoch, shift)).await.unwrap();
    chain.persist_current().await.unwrap();
}
/// The head and the records of a pack.
pub fn split(file: &[u8]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let (head, mut rest) = file.split_at(28);
    let mut v = vec![];
    while !rest.is_empty() {
        let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize + 8;
        v.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    (head.to_vec(), v)
}
pub fn join(head: &[u8], records: &[Vec<u8>]) -> Vec<u8> {
    let mut v = head.to_vec();
    records.iter().for_each(|r| v.extend_from_slice(r));
    v
}
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().map(|e| e.unwrap()) {
        let to = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), to).unwrap();
        }
    }
}
/// A chain to fetch into: it knows the records of finished epochs, has entered the first `entered` epochs after the first one,
/// and holds the first `holds` outputs of the last one entered.
pub async fn fresh(dir: &Path, truth: &World, entered: usize, holds: usize) -> ConsensusChain {
    static MADE: OnceLock<parking_lot::Mutex<std::collections::HashMap<(usize, usize), std::sync::Arc<Scratch>>>> = OnceLock::new();
    let from = {
        let mut made = MADE.get_or_init(Default::default).lock();
        if !made.contains_key(&(entered, holds)) {
            let s = Scratch::new();
            std::thread::scope(|t| {
                t.spawn(|| {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    drop(rt.block_on(make(s.path(), truth, entered, holds)))
                });
            });
            made.insert((entered, holds), std::sync::Arc::new(s));
        }
        made[&(entered, holds)].clone()
    };
    copy(from.path(), dir);
    let chain = ConsensusChain::new(dir.to_path_buf(), committee(0, 0)).unwrap();
    enter(&chain, &truth.records[..entered], 0).await;
    chain
}
async fn make(dir: &Path, truth: &World, entered: usize, holds: usize) -> ConsensusChain {
    let chain = ConsensusChain::new(dir.to_path_buf(), committee(0, 0)).unwrap();
    for e in 0..=entered {
        enter(&chain, &truth.records[..e], 0).await;
        if e == entered {
            for o in &truth.outputs[3 * e..3 * e + holds] {
                chain.save_consensus_output(o.clone()).await.unwrap();
            }
            chain.persist_current().await.unwrap();
        }
    }
    for r in &truth.records {
        chain.epochs().save_record(r.clone()).await.unwrap();
    }
    chain.epochs().persist().await.unwrap();
    chain
}
