//! A store that records every read and can be told to fail at any of them.
use crate::exec::maybe_yield;
use crate::keys::{log, Event};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::multihash::Code;
use cid::Cid;
use libipld_core::codec::{Codec, Decode, Encode};
use libipld_core::raw::RawCodec;
use std::collections::BTreeMap;
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use ucan::store::{UcanStore, UcanStoreConditionalSend};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    Missing,
    Error,
    NotUtf8,
    NotAToken,
    Empty,
    Truncated,
}
pub const FAULTS: &[Fault] =
    &[Fault::Missing, Fault::Error, Fault::NotUtf8, Fault::NotAToken, Fault::Empty, Fault::Truncated];

/// What stores say when they fail; none of it is an answer.
const ERROR_TEXTS: &[&str] = &[
    "injected read error",
    "timed out",
    "connection reset",
    "not found",
    "No token found",
    "interrupted",
    "temporarily unavailable, try again",
    "",
    "ok",
    "poisoned mutex!",
    "cache miss",
    "missing",
    "expired",
    "unsupported",
];

#[derive(Clone, Default)]
pub struct TraceStore {
    pub blocks: Arc<Mutex<BTreeMap<Cid, Vec<u8>>>>,
    /// fail the n-th read (0-based) this way
    pub plan: Arc<Mutex<BTreeMap<u64, Fault>>>,
    pub reads: Arc<AtomicU64>,
}

impl TraceStore {
    pub fn put(&self, token: &str) -> Cid {
        self.put_as(token, Code::Blake3_256)
    }
    pub fn put_as(&self, token: &str, code: Code) -> Cid {
        let c = crate::forge::raw_cid(token.as_bytes(), code);
        self.blocks.lock().unwrap().insert(c, token.as_bytes().to_vec());
        c
    }
    pub fn put_bytes(&self, c: Cid, b: Vec<u8>) {
        self.blocks.lock().unwrap().insert(c, b);
    }
    pub fn remove(&self, c: &Cid) -> Option<Vec<u8>> {
        self.blocks.lock().unwrap().remove(c)
    }
    pub fn fail_at(&self, n: u64, f: Fault) {
        self.reads.store(0, Ordering::SeqCst);
        let mut p = self.plan.lock().unwrap();
        p.clear();
        p.insert(n, f);
    }
    pub fn heal(&self) {
        self.plan.lock().unwrap().clear();
        self.reads.store(0, Ordering::SeqCst);
    }
    pub fn len(&self) -> usize {
        self.blocks.lock().unwrap().len()
    }
}

#[async_trait]
impl UcanStore<RawCodec> for TraceStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        maybe_yield().await;
        let n = self.reads.fetch_add(1, Ordering::SeqCst);
        let fault = self.plan.lock().unwrap().get(&n).copied();
        let block = self.blocks.lock().unwrap().get(cid).cloned();
        log(Event::Read { cid: cid.to_string(), found: block.is_some() && fault.is_none() });
        maybe_yield().await;
        let block = match fault {
            None => block,
            Some(Fault::Missing) => None,
            Some(Fault::Error) => return Err(anyhow!(ERROR_TEXTS[(cid.hash().digest().last().copied().unwrap_or(0) as u64 + n) as usize % ERROR_TEXTS.len()])),
            Some(Fault::NotUtf8) => Some(vec![0xff, 0xfe, 0x00]),
            Some(Fault::NotAToken) => Some(b"this is not a token".to_vec()),
            Some(Fault::Empty) => Some(Vec::new()),
            Some(Fault::Truncated) => block.map(|b| b[..b.len() / 2].to_vec()),
        };
        Ok(match block {
            Some(b) => Some(T::decode(RawCodec, &mut Cursor::new(b))?),
            None => None,
        })
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        let block = RawCodec.encode(&token)?;
        let c = crate::forge::raw_cid(&block, Code::Blake3_256);
        self.blocks.lock().unwrap().insert(c, block);
        Ok(c)
    }
}
