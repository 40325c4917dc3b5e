//! A model of the part of the rocksdb crate that the storage backend uses: an ordered map, with
//! the documented behaviour of `prefix_iterator` on a database without a prefix extractor (it starts
//! at the prefix and runs on to the end of the database), atomic write batches, and injected failures.
use std::collections::BTreeMap;
use std::sync::{Mutex, RwLock};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Debug, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);

#[derive(Default)]
pub struct DB {
    map: RwLock<BTreeMap<Vec<u8>, Vec<u8>>>,
    /// Number of writes to let through before one fails; None: never.
    fail: Mutex<Option<u32>>,
    /// Number of entries that a scan reads before it fails; None: never.
    fail_scan: Mutex<Option<u32>>,
}

pub enum Item {
    Put(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
}

#[derive(Default)]
pub struct WriteBatch {
    items: Vec<Item>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) {
        self.items.push(Item::Put(k.as_ref().to_vec(), v.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) {
        self.items.push(Item::Delete(k.as_ref().to_vec()));
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear();
    }
}

#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, _: bool) {}
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

impl DB {
    /// The n-th operation from now on fails.
    pub fn fail_after(&self, n: Option<u32>) {
        *self.fail.lock().unwrap() = n;
    }
    /// Every scan fails after this many entries, if it gets that far: as with the original, the
    /// failure is the last thing that its iterator yields.
    pub fn fail_scans_after(&self, n: Option<u32>) {
        *self.fail_scan.lock().unwrap() = n;
    }
    /// Whether an operation is still to fail.
    pub fn failing(&self) -> bool {
        self.fail.lock().unwrap().is_some()
    }
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        self.map.read().unwrap().clone()
    }
    fn gate(&self) -> Result<(), Error> {
        let mut f = self.fail.lock().unwrap();
        match *f {
            None => Ok(()),
            Some(0) => {
                *f = None;
                Err(Error("injected failure".into()))
            }
            Some(n) => {
                *f = Some(n - 1);
                Ok(())
            }
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.gate()?;
        Ok(self.map.read().unwrap().get(key.as_ref()).cloned())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.gate()?;
        self.map.write().unwrap().insert(key.as_ref().to_vec(), value.as_ref().to_vec());
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.gate()?;
        self.map.write().unwrap().remove(key.as_ref());
        Ok(())
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.gate()?;
        let mut m = self.map.write().unwrap();
        for i in batch.items {
            match i {
                Item::Put(k, v) => {
                    m.insert(k, v);
                }
                Item::Delete(k) => {
                    m.remove(&k);
                }
            }
        }
        Ok(())
    }
    pub fn write_opt(&self, batch: WriteBatch, _: &WriteOptions) -> Result<(), Error> {
        self.write(batch)
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V, _: &WriteOptions) -> Result<(), Error> {
        self.put(key, value)
    }
    pub fn delete_opt<K: AsRef<[u8]>>(&self, key: K, _: &WriteOptions) -> Result<(), Error> {
        self.delete(key)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|k| self.get(k)).collect()
    }
    /// May be wrong in one direction only, as the original: true means "perhaps".
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, _: K) -> bool {
        true
    }
    pub fn flush(&self) -> Result<(), Error> {
        self.gate()
    }
    pub fn prefix_iterator<'a, P: AsRef<[u8]>>(&'a self, prefix: P) -> std::vec::IntoIter<Result<KVBytes, Error>> {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> std::vec::IntoIter<Result<KVBytes, Error>> {
        let m = self.map.read().unwrap();
        let all = m.iter().map(|(k, v)| Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice())));
        let mut v: Vec<_> = match mode {
            IteratorMode::Start => all.collect(),
            IteratorMode::End => all.rev().collect(),
            IteratorMode::From(p, Direction::Forward) => {
                all.filter(|r: &Result<KVBytes, Error>| &*r.as_ref().unwrap().0 >= p).collect()
            }
            IteratorMode::From(p, Direction::Reverse) => {
                all.rev().filter(|r: &Result<KVBytes, Error>| &*r.as_ref().unwrap().0 <= p).collect()
            }
        };
        if let Some(n) = *self.fail_scan.lock().unwrap() {
            v.truncate(n as usize);
            v.push(Err(Error("injected failure of a scan".into())));
        }
        v.into_iter()
    }
}
