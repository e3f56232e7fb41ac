From 9c6c2aba5bd0e1f378b2fed1d5497af968429130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 01/27] fix: clear a redb table without deleting it

A table written and then cleared in one write transaction made redb assert ("Page is uncommitted")
at commit, because delete_table frees pages that the same transaction allocated. Overlapped logical
transactions of the layered store share one physical transaction, so an insert and a clear can meet.
---
 crates/storage/src/redb/database.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/redb/database.rs b/crates/storage/src/redb/database.rs
index 4ba6123..f743897 100644
--- a/crates/storage/src/redb/database.rs
+++ b/crates/storage/src/redb/database.rs
@@ -57,8 +57,9 @@ impl DbTxMut for ReDbTxMut {
 
     fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
         let td = TableDefinition::<KeyWrap<T::Key>, ValWrap<T::Value>>::new(T::NAME);
-        self.tx.delete_table(td)?;
-        self.tx.open_table(td)?;
+        // Empty the table instead of deleting it: redb asserts when a table deleted in a transaction
+        // holds pages that the same transaction wrote.
+        self.tx.open_table(td)?.retain(|_, _| false)?;
         Ok(())
     }
 
-- 
2.43.0


From e85a51ce1e94623c54325b1e235dd857e46c8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 02/27] fix: keep the cache mirror of writes that never reached
 disk

After a failed staged insert or commit, the next successful commit drained every retained insert and
cleared it from the mem layer, so values that exist nowhere else disappeared from reads.
---
 crates/storage/src/layered_db.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/layered_db.rs b/crates/storage/src/layered_db.rs
index 9f952b5..ceafd17 100644
--- a/crates/storage/src/layered_db.rs
+++ b/crates/storage/src/layered_db.rs
@@ -233,7 +233,10 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                 }
             }
             DBMessage::CommitTxn => {
-                let outcome = end_txn(&mut txn, &mut committed_inserts, mem_db.as_ref());
+                // Once a write failed, a retained insert may belong to it: a later successful commit
+                // does not put it on disk, so the mem layer must keep serving it.
+                let mirror = mem_db.as_ref().filter(|_| !commit_failed);
+                let outcome = end_txn(&mut txn, &mut committed_inserts, mirror);
                 if matches!(outcome, Some(Err(_))) {
                     commit_failed = true;
                 }
@@ -246,7 +249,8 @@ fn db_run<DB: Database>(db: DB, mem_db: Option<MemDatabase>, rx: Receiver<DBMess
                     target: "layered_db_runner",
                     "write txn dropped without commit; committing it to keep persistence alive"
                 );
-                let outcome = end_txn(&mut txn, &mut committed_inserts, mem_db.as_ref());
+                let mirror = mem_db.as_ref().filter(|_| !commit_failed);
+                let outcome = end_txn(&mut txn, &mut committed_inserts, mirror);
                 if matches!(outcome, Some(Err(_))) {
                     commit_failed = true;
                 }
-- 
2.43.0


From edf3a19d098decff708b62a41c03402e41904f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 03/27] fix: NotifyRead::notify returns the remaining
 registrations

The count returned still included the registrations just notified.
---
 crates/tn-utils/src/notify_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tn-utils/src/notify_read.rs b/crates/tn-utils/src/notify_read.rs
index 39d772c..9b94faa 100644
--- a/crates/tn-utils/src/notify_read.rs
+++ b/crates/tn-utils/src/notify_read.rs
@@ -34,7 +34,8 @@ impl<K: Eq + Hash + Clone, V: Clone> NotifyRead<K, V> {
         let Some(registrations) = registrations else {
             return self.count_pending.load(Ordering::Relaxed);
         };
-        let rem = self.count_pending.fetch_sub(registrations.len(), Ordering::Relaxed);
+        let notified = registrations.len();
+        let rem = self.count_pending.fetch_sub(notified, Ordering::Relaxed) - notified;
         for registration in registrations {
             registration.send(value.clone()).ok();
         }
-- 
2.43.0


From 17f6c301c9a8be7154de3e5013fc280e360c9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 04/27] fix: refuse base58 digest text of the wrong length

Shorter text was padded with zeros, so two different texts read back as the
same digest.
---
 crates/types/src/crypto/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/types/src/crypto/mod.rs b/crates/types/src/crypto/mod.rs
index 66db286..92293df 100644
--- a/crates/types/src/crypto/mod.rs
+++ b/crates/types/src/crypto/mod.rs
@@ -85,10 +85,10 @@ impl<'de, const DIGEST_LEN: usize> Deserialize<'de> for Digest<DIGEST_LEN> {
                 E: Error,
             {
                 let mut bytes = [0_u8; DIGEST_LEN];
-                bs58::decode(v)
+                let len = bs58::decode(v)
                     .onto(&mut bytes)
                     .map_err(|_| Error::invalid_value(Unexpected::Str(v), &self))?;
-                self.visit_bytes(&bytes)
+                self.visit_bytes(&bytes[..len])
             }
         }
 
-- 
2.43.0


From d323f86771d584ea97ce4c8e0eb9d0ddf113e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 05/27] fix: sync the digest index's overflow log before
 writing buckets that point into it

---
 .../storage/src/archive/digest_index/index.rs  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 88ed0c3..370225e 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -726,6 +726,14 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Drop for HdxIndex<KSIZE, S> {
             if !std::thread::panicking() {
                 tracing::warn!("HdxIndex dropped with unsynced data - caller should call sync()");
             }
+            // Sync the overflow log before writing the index, mirroring sync().  The hdx buckets
+            // reference odx overflow records by position; if the hdx is durable but the odx
+            // tail is lost, those positions dangle.
+            if let Err(e) = self.odx_file.sync_all() {
+                if !std::thread::panicking() {
+                    tracing::error!("HdxIndex: failed to sync overflow file on drop: {e}");
+                }
+            }
             if let Err(e) = self.save_bucket_cache() {
                 if !std::thread::panicking() {
                     tracing::error!("HdxIndex: failed to flush bucket cache on drop: {e}");
@@ -741,14 +749,6 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Drop for HdxIndex<KSIZE, S> {
                     tracing::error!("HdxIndex: failed to flush file on drop: {e}");
                 }
             }
-            // Sync the overflow log before the index, mirroring sync().  The hdx buckets
-            // reference odx overflow records by position; if the hdx is durable but the odx
-            // tail is lost, those positions dangle.
-            if let Err(e) = self.odx_file.sync_all() {
-                if !std::thread::panicking() {
-                    tracing::error!("HdxIndex: failed to sync overflow file on drop: {e}");
-                }
-            }
             if let Err(e) = self.hdx_file.sync_all() {
                 if !std::thread::panicking() {
                     tracing::error!("HdxIndex: failed to sync file on drop: {e}");
@@ -786,9 +786,9 @@ impl<const KSIZE: usize, S: BuildHasher + Default> Index<B256, u64> for HdxIndex
         if self.read_only {
             Err(CommitError::ReadOnly)
         } else {
+            self.odx_file.sync_all().map_err(CommitError::IndexFileSync)?;
             self.save_bucket_cache().map_err(CommitError::IndexFileSync)?;
             self.write_header().map_err(CommitError::IndexFileSync)?;
-            self.odx_file.sync_all().map_err(CommitError::IndexFileSync)?;
             self.hdx_file.sync_all().map_err(CommitError::IndexFileSync)?;
             self.synced = true;
             Ok(())
-- 
2.43.0


From 63e3e689558a11dae8a75a35301b0b41e23f62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 06/27] fix: write the digest index's header only once what it
 covers is durable

---
 crates/storage/src/archive/digest_index/index.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 370225e..b9bbefd 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -445,11 +445,14 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
         Ok(())
     }
 
-    /// Write the indexes header and bloom filter to disk.
+    /// Write the indexes bloom filter and header to disk.
+    /// The header says how much of the data file the index covers, so it is written last and only
+    /// once the buckets and the bloom filter are durable.
     fn write_header(&mut self) -> Result<(), io::Error> {
-        self.header.write_header(&mut self.hdx_file)?;
         self.hdx_file.seek(SeekFrom::Start(self.header.header_size() as u64))?;
         self.hdx_file.write_all(self.bloom.data())?;
+        self.hdx_file.sync_all()?;
+        self.header.write_header(&mut self.hdx_file)?;
         Ok(())
     }
 
-- 
2.43.0


From e751f26e10ec0205744f4334e64ccf0c0924023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 07/27] fix: make the directory of a finished state snapshot
 durable

---
 crates/storage/src/exec_state_pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/exec_state_pack.rs b/crates/storage/src/exec_state_pack.rs
index 471ff37..f65f37c 100644
--- a/crates/storage/src/exec_state_pack.rs
+++ b/crates/storage/src/exec_state_pack.rs
@@ -43,6 +43,7 @@ use serde::{Deserialize, Serialize};
 use tn_types::{Address, Bytes, ExecHeader, GenesisAccount, B256, U256};
 
 use crate::archive::{
+    data_file::create_dir_synced,
     error::{fetch::FetchError, load_header::LoadHeaderError, open::OpenError},
     pack::{Pack, PackCompression},
     pack_iter::PackIter,
@@ -272,7 +273,7 @@ impl ExecStatePackWriter {
         }
 
         let base = path.as_ref();
-        std::fs::create_dir_all(base)?;
+        create_dir_synced(base)?;
         let mut data: Pack<ExecStateRecord> = Pack::open(
             base.join(DATA_NAME),
             0,
-- 
2.43.0


From 71a33d88b8b1240097a65285dc3fddc03f26f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 08/27] fix: build the digest index file under another name, a
 crash left half of one that never opened

---
 crates/storage/src/archive/digest_index/index.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index b9bbefd..4d9830b 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -309,6 +309,15 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
             if read_only {
                 return Err(LoadHeaderError::ReadOnlyEmpty);
             }
+            // Build the file under another name: a crash must not leave an index.hdx that has only
+            // part of its header, bloom filter and initial buckets, it could never be opened again.
+            let new_path = dir.join("index.hdx.new");
+            hdx_file = OpenOptions::new()
+                .read(true)
+                .write(true)
+                .create(true)
+                .truncate(true)
+                .open(&new_path)?;
             let salt = hasher_builder.hash_one(data_header.uid());
             let pepper = hasher_builder.hash_one(salt);
             let mut header = HdxHeader::from_data_header::<KSIZE, S>(data_header, salt, pepper);
@@ -328,6 +337,8 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
                 hdx_file.write_all(&chunk[..n * bucket_size])?;
                 remaining -= n;
             }
+            hdx_file.sync_all()?;
+            fs::rename(&new_path, dir.join("index.hdx"))?;
             // Header and initial buckets were just written; fsync the directory so the index.hdx
             // entry is durable.
             let _ = fsync_directory(dir);
-- 
2.43.0


From 677fd36854e6025885ef3347fb3eb406ea54925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 09/27] fix: do not expect an output after the pack's last when
 the hint slot outlived it in a crash

---
 crates/storage/src/consensus.rs      |  9 +++++++++
 crates/storage/src/consensus_pack.rs | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/crates/storage/src/consensus.rs b/crates/storage/src/consensus.rs
index 45fe3eb..f8e0d02 100644
--- a/crates/storage/src/consensus.rs
+++ b/crates/storage/src/consensus.rs
@@ -264,6 +264,12 @@ impl LatestConsensus {
         }
     }
 
+    /// Do not claim an output after `number`.
+    fn limit(&self, number: u64) {
+        let mut state = self.state.lock();
+        state.number = state.number.min(number);
+    }
+
     /// Persist the saved state fully to disk.
     async fn persist(&self) {
         let (tx, rx) = oneshot::channel();
@@ -363,6 +369,9 @@ impl ConsensusChain {
                 latest_consensus.epoch(),
             )?))
         };
+        // A slot is written before the output it names is flushed, so after a crash it can name an
+        // output the pack does not hold. That output will be produced and saved again.
+        latest_consensus.limit(current_pack.lock().opened_at());
         let recent_packs = Arc::new(Mutex::new(VecDeque::default()));
         let epochs = Arc::new(EpochRecordDb::open(&base_path)?);
         let pack_install = Arc::new(tokio::sync::Mutex::new(()));
diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 770e710..13b7741 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -126,6 +126,7 @@ pub struct ConsensusPack {
     compression: PackCompression,
     is_static: bool,
     version: u16, // Version of the underlying data pack file.
+    opened_at: u64,
 }
 
 fn run_pack_loop(mut inner: Inner, mut rx: Receiver<PackMessage>) {
@@ -237,6 +238,7 @@ impl ConsensusPack {
         let inner = Inner::open_append(path.clone(), &previous_epoch, committee.clone(), version)?;
         let version = inner.version();
         let compression = inner.data.header().compression();
+        let opened_at = inner.latest_number();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
         Ok(Self {
             tx,
@@ -246,6 +248,7 @@ impl ConsensusPack {
             compression,
             is_static: false,
             version,
+            opened_at,
         })
     }
 
@@ -256,6 +259,7 @@ impl ConsensusPack {
         let inner = Inner::open_append_exists(path.clone(), epoch)?;
         let version = inner.version();
         let compression = inner.data.header().compression();
+        let opened_at = inner.latest_number();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
         Ok(Self {
@@ -266,6 +270,7 @@ impl ConsensusPack {
             compression,
             is_static: false,
             version,
+            opened_at,
         })
     }
 
@@ -276,6 +281,7 @@ impl ConsensusPack {
         let inner = Inner::open_static(path.clone(), epoch)?;
         let version = inner.version();
         let compression = inner.data.header().compression();
+        let opened_at = inner.latest_number();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || run_pack_loop(inner, rx));
         Ok(Self {
@@ -286,6 +292,7 @@ impl ConsensusPack {
             compression,
             is_static: true,
             version,
+            opened_at,
         })
     }
 
@@ -311,6 +318,7 @@ impl ConsensusPack {
         .await?;
         let version = inner.version();
         let compression = inner.data.header().compression();
+        let opened_at = inner.latest_number();
         let committee = inner.epoch_meta.committee.clone();
         let handle = std::thread::spawn(move || {
             run_pack_loop(inner, rx);
@@ -323,6 +331,7 @@ impl ConsensusPack {
             compression,
             is_static: true,
             version,
+            opened_at,
         })
     }
 
@@ -331,6 +340,12 @@ impl ConsensusPack {
         self.is_static
     }
 
+    /// Number of the last output this pack held when it was opened.
+    /// One less than the number of its first output if it held none.
+    pub(crate) fn opened_at(&self) -> u64 {
+        self.opened_at
+    }
+
     /// Return the epoch for this pack file.
     pub fn epoch(&self) -> Epoch {
         self.epoch
@@ -727,6 +742,14 @@ impl Inner {
         Ok(())
     }
 
+    /// Number of the last output in the pack, one less than its first if there is none.
+    fn latest_number(&self) -> u64 {
+        self.epoch_meta
+            .start_consensus_number
+            .saturating_add(self.consensus_pos_idx.len() as u64)
+            .saturating_sub(1)
+    }
+
     /// Return the version of the underlying data pack file.
     fn version(&self) -> u16 {
         self.data.version()
-- 
2.43.0


From 0cdd696b1a945ce8a6f7d9ca5bc9c2ab86b35044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 10/27] fix: drop a single index entry past the healed data of
 a consensus pack

---
 crates/storage/src/consensus_pack.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 13b7741..816a90f 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -718,9 +718,8 @@ impl Inner {
                     }
                 }
                 if idx == 0 {
-                    if idx != start_idx {
-                        consensus_pos_idx.truncate_all()?;
-                    }
+                    // Not even the first output is whole.
+                    consensus_pos_idx.truncate_all()?;
                     break;
                 }
                 idx -= 1;
-- 
2.43.0


From 15c481a41fe8bda10ddfda6e0c734d04b7729d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 11/27] fix: drop a torn first record when a consensus pack is
 opened

---
 crates/storage/src/consensus_pack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/consensus_pack.rs b/crates/storage/src/consensus_pack.rs
index 816a90f..fc9cf92 100644
--- a/crates/storage/src/consensus_pack.rs
+++ b/crates/storage/src/consensus_pack.rs
@@ -792,6 +792,7 @@ impl Inner {
             genesis_consensus: previous_epoch.final_consensus,
         };
 
+        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
         if let Ok(meta) = data.fetch(DATA_HEADER_BYTES as u64) {
             let meta = meta.into_epoch()?;
             if epoch_meta != meta {
@@ -801,10 +802,13 @@ impl Inner {
                 ));
             }
         } else {
+            // A crash while this pack was created can leave a part of its first record.
+            if consensus_pos_idx.is_empty() && data.file_len() > DATA_HEADER_BYTES as u64 {
+                data.truncate(DATA_HEADER_BYTES as u64)?;
+            }
             data.append(&PackRecord::EpochMeta(epoch_meta.clone()))
                 .map_err(|e| PackError::Append(e.to_string()))?;
         }
-        let mut consensus_pos_idx = Self::open_pdx_file(&base_dir, data.header(), false)?;
         let builder = BuildHasherDefault::<FxHasher>::default();
         let mut consensus_digests = HdxIndex::open_hdx_file(
             base_dir.join(Self::CONSENSUS_HASH_NAME),
-- 
2.43.0


From 3ccf192d7835107b3d4042f1ce5edf6e4b9d563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:22 +0000
Subject: [PATCH 12/27] fix: drop records without an index when the epoch
 record database is opened

---
 crates/storage/src/epoch_records.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index b3d3eb9..b2ba1d1 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1145,6 +1145,10 @@ impl Inner {
             if new_len != records_len {
                 records.truncate(new_len)?;
             }
+        } else if records_len > DATA_HEADER_BYTES as u64 {
+            // A crash while the first record was persisted can leave it, or a part of it, without
+            // an index entry. It will be saved again.
+            records.truncate(DATA_HEADER_BYTES as u64)?;
         }
         Ok(())
     }
-- 
2.43.0


From 7fd34bdb74fa1b07c5b04035107399903ae3ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:19 +0000
Subject: [PATCH 13/27] fix: index the epoch certificates that a crash left
 uncounted instead of truncating them

---
 crates/storage/src/epoch_records.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index b2ba1d1..d0b3c85 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1153,16 +1153,30 @@ impl Inner {
         Ok(())
     }
 
-    /// Truncate the certs file back to a consistent state.
+    /// Bring the certs file and its index back to a consistent state.
+    ///
+    /// A crash can leave certificates the index does not count, though it may already hold some
+    /// of their digests. Index the whole ones, truncating them would leave these digests pointing
+    /// to nothing or to the next certificate.
     fn heal_certs(
         certs: &mut Pack<EpochCertificate>,
-        cert_digests: &HdxIndex,
+        cert_digests: &mut HdxIndex,
     ) -> Result<(), EpochDbError> {
-        let certs_len = certs.file_len();
-        let digest_final = cert_digests.data_file_length();
-        if certs_len > digest_final && digest_final > DATA_HEADER_BYTES as u64 {
-            certs.truncate(digest_final)?;
+        let mut pos = cert_digests.data_file_length().max(DATA_HEADER_BYTES as u64);
+        if pos >= certs.file_len() {
+            return Ok(());
+        }
+        while pos < certs.file_len() {
+            let size = certs.record_size(pos);
+            let indexed = certs
+                .fetch(pos)
+                .is_ok_and(|cert| cert_digests.save(cert.epoch_hash.into(), pos).is_ok());
+            match size {
+                Ok(size) if indexed => pos += size as u64,
+                _ => certs.truncate(pos)?,
+            }
         }
+        cert_digests.set_data_file_length(certs.file_len());
         Ok(())
     }
 
@@ -1217,7 +1231,7 @@ impl Inner {
         }
 
         Self::heal_records(&mut records, &mut epoch_idx, &record_digests)?;
-        Self::heal_certs(&mut certs, &cert_digests)?;
+        Self::heal_certs(&mut certs, &mut cert_digests)?;
 
         // Derive start_epoch from the first stored record if present.
         let start_epoch = if !epoch_idx.is_empty() {
-- 
2.43.0


From d44483ca3e3e2d4917a0a3f27c55cbb9f8c1a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:19 +0000
Subject: [PATCH 14/27] fix: index the digests of epoch records that a crash
 left without

---
 crates/storage/src/epoch_records.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/storage/src/epoch_records.rs b/crates/storage/src/epoch_records.rs
index d0b3c85..79b0fe0 100644
--- a/crates/storage/src/epoch_records.rs
+++ b/crates/storage/src/epoch_records.rs
@@ -1232,6 +1232,19 @@ impl Inner {
 
         Self::heal_records(&mut records, &mut epoch_idx, &record_digests)?;
         Self::heal_certs(&mut certs, &mut cert_digests)?;
+        if record_digests.data_file_length() <= DATA_HEADER_BYTES as u64 {
+            // A crash while the first records were persisted can leave them without digests.
+            for idx in 0..epoch_idx.len() as u64 {
+                let indexed = epoch_idx.load(idx).ok().and_then(|pos| {
+                    let record = records.fetch(pos).ok()?;
+                    record_digests.save(record.digest().into(), pos).ok()
+                });
+                if indexed.is_none() {
+                    error!(target: "epoch-db", idx, "failed to index the digest of a record");
+                }
+            }
+            record_digests.set_data_file_length(records.file_len());
+        }
 
         // Derive start_epoch from the first stored record if present.
         let start_epoch = if !epoch_idx.is_empty() {
-- 
2.43.0


From e60702037ab7cee7ac483057638f3cd1c9434456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:19 +0000
Subject: [PATCH 15/27] fix: a certificate whose index entry outlived it in a
 crash can be saved again

---
 crates/storage/src/certificate_pack.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/storage/src/certificate_pack.rs b/crates/storage/src/certificate_pack.rs
index 41aebf3..c9b51ec 100644
--- a/crates/storage/src/certificate_pack.rs
+++ b/crates/storage/src/certificate_pack.rs
@@ -318,7 +318,7 @@ impl Inner {
     fn save(&mut self, cert: &Certificate) -> Result<(), PackError> {
         let digest = B256::from_slice(cert.digest().as_ref());
         // Idempotent: skip if already present.
-        if self.digest_idx.load(digest).is_ok() {
+        if self.contains(cert.digest()) {
             return Ok(());
         }
         let position = self.data.append(cert).map_err(|e| PackError::Append(e.to_string()))?;
@@ -330,11 +330,8 @@ impl Inner {
     }
 
     fn contains(&mut self, digest: HeaderDigest) -> bool {
-        if let Ok(pos) = self.digest_idx.load(B256::from_slice(digest.as_ref())) {
-            pos < self.data.file_len()
-        } else {
-            false
-        }
+        // A digest in the index is not enough, it may be of a certificate that a repair truncated.
+        self.get(digest).is_some()
     }
 
     fn get(&mut self, digest: HeaderDigest) -> Option<Certificate> {
-- 
2.43.0


From 2b7f4db72a6f58d99b471a4d996b76b4d9160dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:19 +0000
Subject: [PATCH 16/27] fix: make the directory of a certificate pack durable

---
 crates/storage/src/certificate_pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/storage/src/certificate_pack.rs b/crates/storage/src/certificate_pack.rs
index c9b51ec..9a37442 100644
--- a/crates/storage/src/certificate_pack.rs
+++ b/crates/storage/src/certificate_pack.rs
@@ -15,6 +15,7 @@ use tracing::{error, info};
 
 use crate::{
     archive::{
+        data_file::create_dir_synced,
         digest_index::index::HdxIndex,
         error::{fetch::FetchError, open::OpenError},
         fxhasher::FxHasher,
@@ -280,7 +281,7 @@ impl Inner {
     fn open<P: AsRef<Path>>(path: P, read_only: bool) -> Result<Self, PackError> {
         let base_dir = path.as_ref();
         if !read_only {
-            let _ = std::fs::create_dir_all(base_dir);
+            let _ = create_dir_synced(base_dir);
         }
         let mut data: Pack<Certificate> = Pack::open(
             base_dir.join(Self::DATA_NAME),
-- 
2.43.0


From d7d39343dc137b57384d6d12bcfee274665353c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:12 +0000
Subject: [PATCH 17/27] fix: a write cut short was repeated from its start when
 the write buffer was flushed again

---
 crates/storage/src/archive/data_file.rs | 54 ++++++++++++++-----------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/crates/storage/src/archive/data_file.rs b/crates/storage/src/archive/data_file.rs
index c93b5de..8b05c3f 100644
--- a/crates/storage/src/archive/data_file.rs
+++ b/crates/storage/src/archive/data_file.rs
@@ -131,13 +131,33 @@ impl DataFile {
         self.len() == 0
     }
 
+    /// Write the buffered bytes to the file.
+    ///
+    /// On an error the bytes that did reach the file leave the buffer, and the rest stay in it, so a
+    /// later call continues where this one stopped instead of appending the first part twice.
+    fn write_out(&mut self) -> io::Result<()> {
+        let mut written = 0;
+        let result = loop {
+            if written == self.write_buffer.len() {
+                break Ok(());
+            }
+            match self.data_file.write(&self.write_buffer[written..]) {
+                Ok(0) => break Err(io::ErrorKind::WriteZero.into()),
+                Ok(n) => written += n,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => break Err(e),
+            }
+        };
+        self.write_buffer.drain(..written);
+        self.data_file_end += written as u64;
+        result
+    }
+
     /// Set the file length by truncating or extending.
     /// Used to truncate an incomplete record.
     pub fn set_len(&mut self, len: u64) -> Result<(), io::Error> {
         if !self.read_only && !self.write_buffer.is_empty() {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         self.data_file.set_len(len)?;
         self.data_file_end = len;
@@ -336,32 +356,20 @@ impl Write for DataFile {
         if self.read_only {
             Err(io::Error::new(io::ErrorKind::ReadOnlyFilesystem, "file not open for write"))
         } else {
-            if self.write_buffer.len() >= self.write_buffer_size as usize {
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
-            }
-            let write_buffer_len = self.write_buffer.len();
-            let write_capacity = self.write_buffer_size as usize - write_buffer_len;
-            let buf_len = buf.len();
-            if write_capacity > buf_len {
-                self.write_buffer.write_all(buf)?;
-                Ok(buf_len)
-            } else {
-                self.write_buffer.write_all(&buf[..write_capacity])?;
-                self.data_file.write_all(&self.write_buffer)?;
-                self.data_file_end += self.write_buffer.len() as u64;
-                self.write_buffer.clear();
-                Ok(write_capacity)
+            let capacity = self.write_buffer_size as usize;
+            // Make room before taking any of `buf`: an error means that none of it was written.
+            if self.write_buffer.len() + buf.len() > capacity {
+                self.write_out()?;
             }
+            let taken = buf.len().min(capacity);
+            self.write_buffer.extend_from_slice(&buf[..taken]);
+            Ok(taken)
         }
     }
 
     fn flush(&mut self) -> io::Result<()> {
         if !self.read_only {
-            self.data_file.write_all(&self.write_buffer)?;
-            self.data_file_end += self.write_buffer.len() as u64;
-            self.write_buffer.clear();
+            self.write_out()?;
         }
         Ok(())
     }
-- 
2.43.0


From 65dc8216c517a804f79a9cea09f0f40e03aa923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:12 +0000
Subject: [PATCH 18/27] fix: a bucket whose write failed was dropped from the
 digest index's cache, and its keys with it

---
 .../storage/src/archive/digest_index/index.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/index.rs b/crates/storage/src/archive/digest_index/index.rs
index 4d9830b..b8ba82e 100644
--- a/crates/storage/src/archive/digest_index/index.rs
+++ b/crates/storage/src/archive/digest_index/index.rs
@@ -521,16 +521,20 @@ impl<const KSIZE: usize, S: BuildHasher + Default> HdxIndex<KSIZE, S> {
     fn save_bucket_cache(&mut self) -> Result<(), io::Error> {
         let bucket_size = self.header.bucket_size as usize;
         let header_size = self.header.header_size();
-        // Drain into a local buffer first so we can call &mut self helpers below; the heap
-        // buffers are moved (not copied) so this is cheap.
-        let dirty: Vec<(u64, Vec<u8>)> = self.dirty_bucket_cache.drain().collect();
-        for (bucket, mut buffer) in dirty {
+        let dirty: Vec<u64> = self.dirty_bucket_cache.keys().copied().collect();
+        for bucket in dirty {
             let bucket_pos: u64 =
                 (header_size + BLOOM_SIZE_BYTES + (bucket as usize * bucket_size)) as u64;
-            add_crc32(&mut buffer[..]);
-            // Seeking and writing past the file end extends it.
-            self.hdx_file.seek(SeekFrom::Start(bucket_pos))?;
-            self.hdx_file.write_all(&buffer[..])?;
+            // A bucket stays dirty until it is written, so that after an error the next call writes
+            // it, and those not yet reached, instead of forgetting them.
+            if let Some(buffer) = self.dirty_bucket_cache.get_mut(&bucket) {
+                add_crc32(&mut buffer[..]);
+                // Seeking and writing past the file end extends it.
+                self.hdx_file.seek(SeekFrom::Start(bucket_pos))?;
+                self.hdx_file.write_all(&buffer[..])?;
+            }
+            // The heap buffer is moved (not copied) so this is cheap.
+            let Some(buffer) = self.dirty_bucket_cache.remove(&bucket) else { continue };
             // Route through the FIFO-bounded cache so the clean cache stays capped at
             // CACHED_BUCKETS rather than retaining every bucket ever flushed.
             self.add_bucket_to_cache(bucket, buffer);
-- 
2.43.0


From ce80f67cccdf79ad32a1e7e09caf1a8ed3d1a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 19/27] fix: a file whose header was cut short while it was
 created could never be opened

---
 crates/storage/src/archive/digest_index/odx_header.rs | 8 ++++++--
 crates/storage/src/archive/pack.rs                    | 7 ++++++-
 crates/storage/src/archive/position_index/index.rs    | 7 ++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/storage/src/archive/digest_index/odx_header.rs b/crates/storage/src/archive/digest_index/odx_header.rs
index 7b47ba4..2baceea 100644
--- a/crates/storage/src/archive/digest_index/odx_header.rs
+++ b/crates/storage/src/archive/digest_index/odx_header.rs
@@ -6,7 +6,7 @@ use crate::archive::{
     error::load_header::LoadHeaderError,
 };
 use std::{
-    fs::{File, OpenOptions},
+    fs::{self, File, OpenOptions},
     io::{Read, Seek, SeekFrom, Write},
     path::Path,
 };
@@ -50,7 +50,11 @@ impl OdxHeader {
                 return Err(LoadHeaderError::ReadOnlyEmpty);
             }
             let header = OdxHeader::new(version, uid, appnum, read_only);
-            header.write_header(&mut file)?;
+            if let Err(e) = header.write_header(&mut file) {
+                // A file with a part of its header could never be opened again.
+                let _ = fs::remove_file(path);
+                return Err(e);
+            }
             // New odx file was just created and its header written; fsync the parent so the entry
             // is durable.
             if let Some(parent) = path.parent() {
diff --git a/crates/storage/src/archive/pack.rs b/crates/storage/src/archive/pack.rs
index c1fabf0..5235ed2 100644
--- a/crates/storage/src/archive/pack.rs
+++ b/crates/storage/src/archive/pack.rs
@@ -380,7 +380,12 @@ where
 
         let header = if file_end == 0 {
             let header = DataHeader::new(uid_idx, compression, version);
-            header.write_header(&mut data_file)?;
+            let written = header.write_header(&mut data_file).and_then(|()| data_file.flush());
+            if let Err(e) = written {
+                // A file with a part of its header could never be opened again.
+                data_file.delete();
+                return Err(e.into());
+            }
             header
         } else {
             let header = DataHeader::load_header(&mut data_file, uid_idx)?;
diff --git a/crates/storage/src/archive/position_index/index.rs b/crates/storage/src/archive/position_index/index.rs
index cdff688..94ebaf4 100644
--- a/crates/storage/src/archive/position_index/index.rs
+++ b/crates/storage/src/archive/position_index/index.rs
@@ -152,7 +152,12 @@ impl<T: PosIndexValue> PositionIndex<T> {
                 return Err(LoadHeaderError::ReadOnlyEmpty);
             }
             let mut header = PdxHeader::from_data_header(data_header);
-            header.write_header(&mut pdx_file)?;
+            let written = header.write_header(&mut pdx_file).and_then(|()| pdx_file.flush());
+            if let Err(e) = written {
+                // A file with a part of its header could never be opened again.
+                pdx_file.delete();
+                return Err(e.into());
+            }
             // index.pdx was just created and its header written; fsync the directory so the entry
             // is durable.
             let _ = fsync_directory(dir);
-- 
2.43.0


From d77d3c7fb2ffef8f610926c781002bf07076db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:36 +0000
Subject: [PATCH 20/27] fix: end the ban of a peer disconnected for its score
 when the score recovers

---
 crates/network-libp2p/src/peers/peer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/network-libp2p/src/peers/peer.rs b/crates/network-libp2p/src/peers/peer.rs
index da0ee4f..9f75b54 100644
--- a/crates/network-libp2p/src/peers/peer.rs
+++ b/crates/network-libp2p/src/peers/peer.rs
@@ -408,7 +408,9 @@ impl Peer {
 
             match new_reputation {
                 Reputation::Trusted => {
-                    if prev_reputation.banned() {
+                    // a peer disconnected for its score is tracked as banned although its
+                    // reputation never was: the status ends with the recovery of the score
+                    if prev_reputation.banned() || self.connection_status.is_banned() {
                         return ReputationUpdate::Unbanned;
                     }
                 }
-- 
2.43.0


From 6bffb46fc01aecae7268fb4de7f4fd5f6e68db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:36 +0000
Subject: [PATCH 21/27] fix: measure a ban's lockout from the ban, not from the
 score's last update

---
 crates/network-libp2p/src/peers/score.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/network-libp2p/src/peers/score.rs b/crates/network-libp2p/src/peers/score.rs
index a92d289..e7f1608 100644
--- a/crates/network-libp2p/src/peers/score.rs
+++ b/crates/network-libp2p/src/peers/score.rs
@@ -149,8 +149,9 @@ impl Score {
         if !already_banned && self.is_banned() {
             let config = global_score_config();
 
-            // ban the peer for at least BANNED_BEFORE_DECAY seconds
-            self.last_updated += config.banned_before_decay();
+            // ban the peer for at least BANNED_BEFORE_DECAY seconds from now: the last update can
+            // be long past for a peer that was exempt from decay
+            self.last_updated = Instant::now() + config.banned_before_decay();
         }
     }
 
-- 
2.43.0


From 1a0853941df657b6931c83b830be7f5b13ab4bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:36 +0000
Subject: [PATCH 22/27] fix: keep a ban in force or pending when the peer is
 disconnected again

---
 crates/network-libp2p/src/peers/all_peers.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index 718d796..b100738 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -686,7 +686,15 @@ impl AllPeers {
         current_state: ConnectionStatus,
         banned: bool,
     ) -> PeerAction {
-        // set the peer to disconnecting state
+        // a ban in force stays in force: leaving it here would strand its counters
+        if current_state.is_banned() {
+            error!(target: "peer-manager", ?peer_id, "disconnecting from a banned peer - banned peer should already be disconnected");
+            return PeerAction::NoAction;
+        }
+
+        // set the peer to disconnecting state, keeping a ban that is already due on disconnect
+        let banned =
+            banned || matches!(current_state, ConnectionStatus::Disconnecting { banned: true });
         let id = self.identity_for(peer_id);
         if let Some(peer) = self.peers.get_mut(&id) {
             peer.set_connection_status(ConnectionStatus::Disconnecting { banned });
@@ -698,10 +706,6 @@ impl AllPeers {
                 // decrease the disconnected_peers counter
                 self.disconnected_peers = self.disconnected_peers.saturating_sub(1);
             }
-            ConnectionStatus::Banned { .. } => {
-                // banned peers should already be disconnected
-                error!(target: "peer-manager", ?peer_id, "disconnecting from a banned peer - banned peer should already be disconnected");
-            }
             ConnectionStatus::Connected { .. } | ConnectionStatus::Dialing { .. } => {
                 // support discovery with peer exchange if the target number of peers is reached
                 let action =
-- 
2.43.0


From 7bf4b1620ff97c370fa298c4e8e427bb348bb0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:36 +0000
Subject: [PATCH 23/27] fix: lift the temporary ban of committee members known
 only by their confirmed identity

---
 crates/network-libp2p/src/peers/all_peers.rs |  5 +++++
 crates/network-libp2p/src/peers/manager.rs   | 13 +++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index b100738..65d9d90 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -835,6 +835,11 @@ impl AllPeers {
         self.bls_by_peer_id.get(peer_id).copied()
     }
 
+    /// Resolve a [BlsPublicKey] to the libp2p [PeerId] of the peer confirmed under it, if any.
+    pub(super) fn peer_id_for_bls(&self, bls_public_key: &BlsPublicKey) -> Option<PeerId> {
+        self.peers.get(&PeerIdentity::Confirmed(*bls_public_key)).and_then(|peer| peer.peer_id())
+    }
+
     /// Boolean indicating if this peer is a validator in the previous, current, or next committee.
     ///
     /// Membership spans all three tracked committees so peers from the just-completed epoch are not
diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index 353f187..8f18890 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -770,12 +770,14 @@ impl PeerManager {
     /// Lift any already-known committee members out of the manager's temporary-ban cache.
     ///
     /// The temporary-ban cache is a network-layer reconnection guard kept separate from peer state;
-    /// committee members must bypass it so they can be (re)dialed. Members with no known network
-    /// info yet are skipped here and forgiven lazily once discovered (see
-    /// [`Self::add_known_peer`]).
+    /// committee members must bypass it so they can be (re)dialed. A member is found through its
+    /// known network info or through the identity it confirmed itself; members known neither way
+    /// are skipped here and forgiven lazily once discovered (see [`Self::cache_known_peer`]).
     fn forgive_temporarily_banned(&mut self, committee: &HashSet<BlsPublicKey>) {
         for bls_key in committee {
-            if let Some((peer_id, _)) = self.auth_to_peer(*bls_key) {
+            let known = self.auth_to_peer(*bls_key).map(|(peer_id, _)| peer_id);
+            let confirmed = self.peers.peer_id_for_bls(bls_key);
+            for peer_id in known.into_iter().chain(confirmed) {
                 if self.temporarily_banned.remove(&peer_id) {
                     warn!(target: "peer-manager", ?peer_id, "removed committee member from temporarily banned list");
                 }
@@ -978,6 +980,9 @@ impl PeerManager {
         trace!(target: "peer-manager", ?bls_key, "adding known peer");
         self.peers.upsert_peer(bls_key, info.pubkey.clone(), info.multiaddrs.clone());
         self.known_peers.insert(bls_key, info);
+        if self.peers.is_committee_member(&bls_key) {
+            self.forgive_temporarily_banned(&HashSet::from([bls_key]));
+        }
         // if this newly-discovered peer belongs to a tracked committee, unban/trust it now
         // (closing the trust window) instead of waiting for the next epoch's `update_committees`.
         // `upsert_peer` just re-keyed it onto its `Confirmed` identity, so the trust pass can
-- 
2.43.0


From 11fa43f478e1a13c5c1bf45b33189a1d3e9ce80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 24/27] fix: cut the connection of a banned peer recognized
 under a fresh network key

---
 crates/network-libp2p/src/peers/all_peers.rs |  5 +++++
 crates/network-libp2p/src/peers/manager.rs   | 15 +++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index 65d9d90..d3eae0d 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -920,6 +920,11 @@ impl AllPeers {
         })
     }
 
+    /// Boolean indicating if the peer's own score amounts to a ban.
+    pub(super) fn reputation_banned(&self, peer_id: &PeerId) -> bool {
+        self.get_peer(peer_id).is_some_and(|peer| peer.reputation().banned())
+    }
+
     /// Gives the ids of all known connected peers.
     pub(super) fn connected_peer_ids(&self) -> impl Iterator<Item = PeerId> + '_ {
         self.peers.iter().filter_map(|(id, peer)| {
diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index 8f18890..fce4682 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -916,6 +916,7 @@ impl PeerManager {
                 "confirming self-advertised connected peer identity"
             );
             self.peers.upsert_peer(bls_key, info.pubkey, info.multiaddrs);
+            self.enforce_carried_ban(advertised);
         } else {
             trace!(
                 target: "peer-manager",
@@ -978,6 +979,7 @@ impl PeerManager {
             }
         }
         trace!(target: "peer-manager", ?bls_key, "adding known peer");
+        let peer_id: PeerId = info.pubkey.clone().into();
         self.peers.upsert_peer(bls_key, info.pubkey.clone(), info.multiaddrs.clone());
         self.known_peers.insert(bls_key, info);
         if self.peers.is_committee_member(&bls_key) {
@@ -989,6 +991,19 @@ impl PeerManager {
         // resolve its peer id immediately.
         let unban_actions = self.peers.apply_membership_if_committee(bls_key);
         self.apply_unban_actions(unban_actions);
+        self.enforce_carried_ban(peer_id);
+    }
+
+    /// Cut the connection of a peer that turns out to be banned once its identity is confirmed.
+    ///
+    /// A ban belongs to the confirmed identity (see [`AllPeers::upsert_peer`]): a banned peer that
+    /// reconnected under a fresh network key is recognized only when its record arrives.
+    fn enforce_carried_ban(&mut self, peer_id: PeerId) {
+        if self.is_connected(&peer_id) && self.peers.reputation_banned(&peer_id) {
+            let action =
+                self.peers.update_connection_status(&peer_id, NewConnectionStatus::Banned);
+            self.apply_peer_action(peer_id, action);
+        }
     }
 
     /// Find authorities for the epoch manager.
-- 
2.43.0


From 0fd2180e65af46ba7dde896899b768d2b9ec55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:50 +0000
Subject: [PATCH 25/27] fix: announce the end of a temporary ban lifted for a
 committee member

---
 crates/network-libp2p/src/peers/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/network-libp2p/src/peers/manager.rs b/crates/network-libp2p/src/peers/manager.rs
index fce4682..d2ec708 100644
--- a/crates/network-libp2p/src/peers/manager.rs
+++ b/crates/network-libp2p/src/peers/manager.rs
@@ -780,6 +780,8 @@ impl PeerManager {
             for peer_id in known.into_iter().chain(confirmed) {
                 if self.temporarily_banned.remove(&peer_id) {
                     warn!(target: "peer-manager", ?peer_id, "removed committee member from temporarily banned list");
+                    // dependent state ends with the entry, see `Self::temporarily_ban`
+                    self.push_event(PeerEvent::Unbanned(peer_id));
                 }
             }
         }
-- 
2.43.0


From 38b09fe36527d4765af495183e8941fd3fabe35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:50 +0000
Subject: [PATCH 26/27] fix: keep tracking the open connection of a
 rotated-away network key

---
 crates/network-libp2p/src/peers/all_peers.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/network-libp2p/src/peers/all_peers.rs b/crates/network-libp2p/src/peers/all_peers.rs
index d3eae0d..4865c3e 100644
--- a/crates/network-libp2p/src/peers/all_peers.rs
+++ b/crates/network-libp2p/src/peers/all_peers.rs
@@ -184,6 +184,22 @@ impl AllPeers {
         }
     }
 
+    /// Keep tracking the open connection of a rotated-away network key under that key.
+    ///
+    /// The record moves on to the new key while the old key's connection stays open: without a
+    /// record it would not be counted, limited or penalized. Its reputation is
+    /// no better than the identity's, and the addresses stay with the identity so that one ban is
+    /// not counted twice against them.
+    fn keep_rotated_connection(&mut self, rotated: &Peer) {
+        let status = *rotated.connection_status();
+        if let Some(peer_id) = rotated.peer_id().filter(|_| status.is_connected()) {
+            let mut peer = Peer::default();
+            peer.retain_worse_reputation(rotated);
+            peer.set_connection_status(status);
+            self.peers.insert(PeerIdentity::Unidentified(peer_id), peer);
+        }
+    }
+
     /// Create a peer that is "trusted".
     ///
     /// This overwrites peer records and unbans ips.
@@ -223,6 +239,9 @@ impl AllPeers {
         // reachable from the new peer id, so displace it through `evict` to clear the
         // `bls_by_peer_id` entry derived from its previous network key
         let rotated = (current != confirmed).then(|| self.evict(&confirmed)).flatten();
+        if let Some(rotated) = rotated.as_ref() {
+            self.keep_rotated_connection(rotated);
+        }
         // migrate any record reachable from the new peer id (anonymous-inbound promotion or a
         // repeat upsert). when such a record collides with a rotated record already stored under
         // the confirmed identity, the promoted record wins the merge - but reputation belongs to
-- 
2.43.0


From afa5629d2ad5f3a0950a673324ac08806b0e4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:20 +0000
Subject: [PATCH 27/27] fix: check the group of a signature in
 verify_secure_bytes

verify_secure_bytes verified without the subgroup check every other verification makes, so a signature moved
out of the group by a point of small order verified for the same message and key.
---
 crates/types/src/crypto/bls_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/types/src/crypto/bls_signature.rs b/crates/types/src/crypto/bls_signature.rs
index 1d355d8..20e318a 100644
--- a/crates/types/src/crypto/bls_signature.rs
+++ b/crates/types/src/crypto/bls_signature.rs
@@ -256,7 +256,7 @@ impl ProtocolSignature for BlsSignature {
     }
 
     fn verify_secure_bytes(&self, value: &[u8], public_key: &BlsPublicKey) -> bool {
-        self.verify(false, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
+        self.verify(true, value, DST_G1, &[], public_key, true) == blst::BLST_ERROR::BLST_SUCCESS
     }
 }
 
-- 
2.43.0

