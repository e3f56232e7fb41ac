use rand::{rngs::StdRng, SeedableRng};
use std::sync::{Arc, OnceLock};
use tn_types::{Address, AuthorityIdentifier, BlsKeypair, BlsPublicKey, Committee, CommitteeBuilder, Epoch};

/// Fixed keys, in ascending order of their authority identifiers.
pub fn keys() -> &'static [Arc<BlsKeypair>] {
    static K: OnceLock<Vec<Arc<BlsKeypair>>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<_> = (0..12u64).map(|i| Arc::new(BlsKeypair::generate(&mut StdRng::seed_from_u64(500 + i)))).collect();
        v.sort_by_key(|k| k.public().to_bytes());
        v
    })
}
pub fn pk(i: usize) -> BlsPublicKey {
    *keys()[i].public()
}
pub fn committee(n: usize, epoch: Epoch) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for i in 0..n {
        b.add_authority(pk(i), Address::repeat_byte(i as u8 + 1));
    }
    b.build()
}
/// Identifiers in the committee's own order.
pub fn ids(c: &Committee) -> Vec<AuthorityIdentifier> {
    c.authorities().iter().map(|a| a.id()).collect()
}
