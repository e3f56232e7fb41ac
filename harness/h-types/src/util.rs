use rand::{rngs::StdRng, SeedableRng};
use std::sync::{Arc, OnceLock};
use tn_types::{Address, BlsKeypair, BlsPublicKey, BlsSignature, BlsSigner, Committee, CommitteeBuilder, Epoch, Signer as _};

/// A validator key.
#[derive(Clone)]
pub struct Key(pub Arc<BlsKeypair>);
impl Key {
    pub fn pk(&self) -> BlsPublicKey {
        *self.0.public()
    }
    pub fn sign(&self, m: &[u8]) -> BlsSignature {
        self.0.sign(m)
    }
}
impl BlsSigner for Key {
    fn request_signature_direct(&self, msg: &[u8]) -> BlsSignature {
        self.0.sign(msg)
    }
    fn public_key(&self) -> BlsPublicKey {
        *self.0.public()
    }
}

/// 64 fixed keys, in ascending order of their public keys.
pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v: Vec<Key> = (0..64u64).map(|i| Key(Arc::new(BlsKeypair::generate(&mut StdRng::seed_from_u64(1000 + i))))).collect();
        v.sort_by_key(|k| k.pk().to_bytes());
        v
    })
}

pub fn addr(i: usize) -> Address {
    Address::repeat_byte(i as u8 + 1)
}

/// The committee of the listed keys.
pub fn committee_of(ix: &[usize], epoch: Epoch) -> Committee {
    let mut b = CommitteeBuilder::new(epoch);
    for &i in ix {
        b.add_authority(keys()[i].pk(), addr(i));
    }
    b.build()
}
pub fn committee(n: usize, epoch: Epoch) -> Committee {
    committee_of(&(0..n).collect::<Vec<_>>(), epoch)
}
