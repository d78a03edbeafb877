//! C21: the in-memory store, alone and under concurrent use.
use crate::case::{Case, Res, V};
use crate::exec::block_on;
use crate::rng::R;
use crate::{bail, ensure, Prop};
use anyhow::{anyhow, Result};
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::codec::{Decode, Encode};
use libipld_core::ipld::Ipld;
use libipld_core::raw::RawCodec;
use std::collections::BTreeMap;
use std::io::{Read, Seek, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};

pub const C21: Prop = Prop {
    id: "C21",
    quick: 18000,
    thorough: 200000,
    level: "exploration",
    rule: "a case is either one long sequence of store calls through several clones, compared call by call with a plain map, or one history of concurrent calls by 2-6 threads over few blocks, with delays injected inside encoding and decoding, every call recorded with its start and end and the history checked for linearizability block by block; distinct_nontrivial counts distinct sequences and distinct orders of starts and ends of overlapping calls",
    assumptions: &["the multihash crate computes BLAKE3"],
    run: c21,
};

fn blake(b: &[u8]) -> Cid {
    // version 1, codec raw, hash BLAKE3, 32 bytes
    let mut v = vec![0x01, 0x55, 0x1e, 0x20];
    v.extend_from_slice(Code::Blake3_256.digest(b).digest());
    Cid::try_from(v).expect("a CID")
}

/// Spins or yields for about this many steps.
fn dawdle(n: u8) {
    match n {
        0 => {}
        1..=2 => std::thread::yield_now(),
        3..=5 => {
            for _ in 0..n {
                std::thread::yield_now()
            }
        }
        6..=8 => {
            for i in 0..(1u32 << n) {
                std::hint::black_box(i);
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros(n as u64 * 5)),
    }
}

thread_local! {
    static DECODE_DELAY: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

/// A block whose encoding takes its time, comes in pieces, or fails half way.
#[derive(Debug)]
struct Slow {
    bytes: Vec<u8>,
    pieces: usize,
    delay: u8,
    fail: bool,
}
impl Encode<RawCodec> for Slow {
    fn encode<W: Write>(&self, _: RawCodec, w: &mut W) -> Result<()> {
        let n = self.bytes.len().div_ceil(self.pieces.max(1)).max(1);
        let mut sent = 0;
        for p in self.bytes.chunks(n) {
            dawdle(self.delay);
            if self.fail && sent >= self.bytes.len() / 2 {
                break;
            }
            w.write_all(p)?;
            sent += p.len();
        }
        if self.fail {
            return Err(anyhow!("encoding fails"));
        }
        Ok(())
    }
}
#[derive(Debug, PartialEq)]
struct SlowRead(Vec<u8>);
impl Decode<RawCodec> for SlowRead {
    fn decode<T: Read + Seek>(_: RawCodec, r: &mut T) -> Result<Self> {
        let d = DECODE_DELAY.with(|d| d.get());
        let mut v = Vec::new();
        let mut b = [0u8; 97];
        loop {
            let n = r.read(&mut b)?;
            if n == 0 {
                break;
            }
            v.extend_from_slice(&b[..n]);
            if v.len() % 2 == 1 {
                dawdle(d)
            }
        }
        dawdle(d);
        Ok(SlowRead(v))
    }
}
/// A decoding that always fails, after reading some of the block.
#[derive(Debug)]
struct Refuses;
impl Decode<RawCodec> for Refuses {
    fn decode<T: Read + Seek>(_: RawCodec, r: &mut T) -> Result<Self> {
        let mut b = [0u8; 3];
        let _ = r.read(&mut b)?;
        Err(anyhow!("decoding fails"))
    }
}

fn block(r: &mut R, big: bool) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 => vec![r.below(3) as u8],
        2 => {
            // differ only at one end
            let n = *r.pick(&[63usize, 64, 65, 1023, 1024, 1025, 4096]);
            let mut v = vec![b'x'; n];
            let at = *r.pick(&[0, n - 1, n / 2]);
            v[at] = b'a' + r.below(3) as u8;
            v
        }
        3 if big => {
            let n = *r.pick(&[65535usize, 65536, 300_000, 1_500_000]);
            let b = r.below(250) as u8;
            let mut v = vec![b; n];
            let k = r.below(n);
            v[k] ^= 1;
            v
        }
        4 => {
            // the same text, a byte more each time
            let n = r.range(1, 60);
            vec![b'e'; n]
        }
        5 => vec![0xff, 0xfe, r.below(4) as u8],
        6 => format!("header.payload.sig{}", r.below(6)).into_bytes(),
        _ => {
            let n = r.range(1, 400);
            r.bytes(n)
        }
    }
}

fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("{:?}", String::from_utf8_lossy(b))
    } else {
        format!("{} bytes {:?}…", b.len(), String::from_utf8_lossy(&b[..12]))
    }
}

fn c21(c: &mut Case) -> Res {
    match c.idx % 8 {
        0 => sequence(c),
        1 if c.idx % 64 == 1 => many(c),
        _ => history(c),
    }
}

/// Reads `cid` in a way drawn from `r` and compares with what must be there.
fn read_one(c: &mut Case, s: &MemoryStore, cid: &Cid, want: Option<&Vec<u8>>) -> Res {
    c.eval();
    let show = want.map(|w| short(w));
    match c.r.below(6) {
        0 => {
            let got = block_on(s.read::<Ipld>(cid)).map_err(|e| V(format!("reading {cid} fails: {e:#}")))?;
            ensure!(got == want.map(|w| Ipld::Bytes(w.clone())), "reading {cid} gives {got:?} instead of {show:?}");
        }
        1 => {
            let got = block_on(s.read::<Box<[u8]>>(cid)).map_err(|e| V(format!("reading {cid} fails: {e:#}")))?;
            ensure!(got.as_deref() == want.map(|w| &w[..]), "reading {cid} gives {:?} instead of {show:?}", got.map(|g| short(&g)));
        }
        2 => {
            let got = block_on(s.read::<SlowRead>(cid)).map_err(|e| V(format!("reading {cid} fails: {e:#}")))?;
            ensure!(got.as_ref().map(|g| &g.0) == want, "reading {cid} gives {:?} instead of {show:?}", got.map(|g| short(&g.0)));
        }
        3 => {
            let got = block_on(s.read::<Refuses>(cid));
            c.ev("reads made to fail");
            match (want, got) {
                (Some(_), Err(_)) | (None, Ok(None)) => {}
                (w, g) => bail!("a failing decoding of {cid} gives {g:?} (stored: {:?})", w.map(|w| short(w))),
            }
        }
        4 => {
            let got = block_on(s.read_token(cid));
            match want.map(|w| String::from_utf8(w.clone())) {
                Some(Ok(t)) => ensure!(matches!(&got, Ok(Some(g)) if *g == t), "the token {cid} is {got:?}"),
                Some(Err(_)) => ensure!(got.is_err(), "a block that is no text is read as the token {got:?}"),
                None => ensure!(!matches!(got, Ok(Some(_))), "a token never written is found: {got:?}"),
            }
        }
        _ => {
            let got = block_on(s.require_token(cid));
            match want.map(|w| String::from_utf8(w.clone())) {
                Some(Ok(t)) => ensure!(matches!(&got, Ok(g) if *g == t), "the token {cid} is {got:?}"),
                _ => ensure!(got.is_err(), "a token never written, or no text, is found: {got:?}"),
            }
        }
    }
    c.ev(if want.is_some() { "reads that find" } else { "reads that must not find" });
    Ok(())
}

fn write_one(c: &mut Case, s: &mut MemoryStore, b: &[u8]) -> Res {
    let want = blake(b);
    c.eval();
    let got = match c.r.below(5) {
        0 => block_on(s.write(Ipld::Bytes(b.to_vec()))),
        1 => block_on(s.write(b.to_vec().into_boxed_slice())),
        2 => match std::str::from_utf8(b) {
            Ok(t) => block_on(s.write_token(t)),
            Err(_) => block_on(s.write(Ipld::Bytes(b.to_vec()))),
        },
        3 => {
            let (pieces, delay) = (c.r.range(1, 5), c.r.below(3) as u8);
            block_on(s.write(Slow { bytes: b.to_vec(), pieces, delay, fail: false }))
        }
        _ => block_on(s.write(Ipld::Bytes(b.to_vec()))),
    };
    c.ev("writes");
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => bail!("writing {} gives {g} instead of {want}", short(b)),
        Err(e) => bail!("writing {} fails: {e:#}", short(b)),
    }
}

fn sequence(c: &mut Case) -> Res {
    let mut stores = vec![MemoryStore::default()];
    let mut model: BTreeMap<Cid, Vec<u8>> = BTreeMap::new();
    let mut seen: Vec<Vec<u8>> = Vec::new();
    let other = MemoryStore::default();
    let mut trail = Vec::new();
    for _ in 0..c.r.range(10, 150) {
        let k = c.r.below(stores.len());
        let b = if !seen.is_empty() && c.r.pct(50) { c.r.pick(&seen).clone() } else { block(&mut c.r, true) };
        let cid = blake(&b);
        match c.r.below(14) {
            0 if stores.len() < 6 => {
                let s = stores[k].clone();
                stores.push(s);
                trail.push(format!("clone {k}"));
            }
            1 if stores.len() > 1 => {
                stores.swap_remove(k);
                trail.push(format!("drop {k}"));
            }
            2..=4 => {
                trail.push(format!("{k}: write {}", short(&b)));
                c.notes = trail.clone();
                write_one(c, &mut stores[k], &b)?;
                model.insert(cid, b.clone());
                seen.push(b);
            }
            5 => {
                trail.push(format!("{k}: failing write {}", short(&b)));
                c.notes = trail.clone();
                let pieces = c.r.range(1, 4);
                let e = block_on(stores[k].write(Slow { bytes: b.clone(), pieces, delay: 0, fail: true }));
                c.eval();
                c.ev("writes made to fail");
                ensure!(e.is_err(), "a write whose encoding failed returns {e:?}");
                // what it may have left behind
                for n in [0, b.len() / 2, b.len().div_ceil(pieces), b.len()] {
                    let b = &b[..n.min(b.len())];
                    let cid = blake(b);
                    let want = model.get(&cid).cloned();
                    read_one(c, &stores[k], &cid, want.as_ref())?;
                }
                seen.push(b);
            }
            6 => {
                trail.push(format!("{k}: write {} never polled", short(&b)));
                let mut s = stores[k].clone();
                drop(s.write(Ipld::Bytes(b.clone())));
                drop(stores[k].read::<Ipld>(&cid));
                seen.push(b);
            }
            7 => {
                trail.push(format!("{k}: read {} under another codec or hash", short(&b)));
                c.notes = trail.clone();
                let codec = *c.r.pick(&[0x71u64, 0x70, 0x0129, 0x00, 0x51, 0x5555, u64::MAX >> 1]);
                let alien = Cid::new_v1(codec, *cid.hash());
                c.eval();
                let got = block_on(stores[k].read_token(&alien));
                ensure!(got.is_err(), "a CID of codec {codec:#x} is read as the token {got:?}");
                let got = block_on(stores[k].require_token(&alien));
                ensure!(got.is_err(), "a CID of codec {codec:#x} is read as the token {got:?}");
                c.ev("CIDs of another codec refused");
                // a store that does hold something under that CID
                let odd = crate::store::TraceStore::default();
                for a in [Cid::new_v1(codec, *cid.hash()), Cid::new_v1(codec, Code::Sha2_256.digest(&b)), Cid::new_v0(Code::Sha2_256.digest(&b)).unwrap()] {
                    odd.put_bytes(a, b.clone());
                    let (t, q) = (block_on(odd.read_token(&a)), block_on(odd.require_token(&a)));
                    c.eval();
                    ensure!(t.is_err() && q.is_err(), "{a} of codec {:#x} is read as the token {t:?}, {q:?}", a.codec());
                }
                // CIDs that name the block's bytes, or share its digest, but were never written
                let d = cid.hash().digest().to_vec();
                let cut = c.r.range(0, d.len() - 1);
                let mh = |code: u64, d: &[u8]| cid::multihash::Multihash::wrap(code, d).expect("a multihash");
                let mut aliens = vec![
                    alien,
                    Cid::new_v1(0x55, mh(0x12, &d)),
                    Cid::new_v1(0x55, mh(0xb220, &d)),
                    Cid::new_v1(0x55, mh(0x1e, &d[..cut])),
                    Cid::new_v1(0x55, mh(0x1e, &[&d[..], &d[..]].concat())),
                    Cid::new_v1(0x55, mh(0x00, &d)),
                    Cid::new_v0(mh(0x12, &d)).unwrap(),
                    Cid::new_v1(0x55, Code::Sha2_256.digest(&b)),
                    Cid::new_v0(Code::Sha2_256.digest(&b)).unwrap(),
                    Cid::new_v1(0x55, Code::Blake2b256.digest(&b)),
                ];
                if b.len() <= 64 {
                    aliens.push(Cid::new_v1(0x55, mh(0x00, &b)));
                }
                for a in aliens {
                    c.eval();
                    let (i, r) = (block_on(stores[k].read::<Ipld>(&a)), block_on(stores[k].read::<Box<[u8]>>(&a)));
                    ensure!(
                        !matches!(i, Ok(Some(_))) && !matches!(r, Ok(Some(_))),
                        "{a}, never written, gives {i:?} and {r:?} (the block's own CID is {cid})"
                    );
                    let (t, q) = (block_on(stores[k].read_token(&a)), block_on(stores[k].require_token(&a)));
                    ensure!(!matches!(t, Ok(Some(_))) && q.is_err(), "{a}, never written, is the token {t:?}, {q:?}");
                    c.ev("related CIDs never written");
                }
                let alien = Cid::new_v1(0x55, Code::Sha2_256.digest(&b));
                read_one(c, &stores[k], &alien, None)?;
                let v0 = Cid::new_v0(Code::Sha2_256.digest(&b)).unwrap();
                ensure!(block_on(stores[k].read_token(&v0)).is_err(), "a version 0 CID is read as a token");
            }
            8 => {
                trail.push("another store".into());
                c.notes = trail.clone();
                read_one(c, &other, &cid, None)?;
            }
            _ => {
                trail.push(format!("{k}: read {}", short(&b)));
                c.notes = trail.clone();
                let want = model.get(&cid).cloned();
                read_one(c, &stores[k], &cid, want.as_ref())?;
            }
        }
    }
    let k = c.r.below(stores.len());
    for (cid, b) in &model {
        read_one(c, &stores[k], cid, Some(b))?;
    }
    c.seen(&trail);
    c.sample(|| format!("sequence: {}", trail.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
    Ok(())
}

/// Far more blocks than anyone would keep in memory by accident.
fn many(c: &mut Case) -> Res {
    let mut s = MemoryStore::default();
    let n = *c.r.pick(&[300u32, 3000, 20000]);
    let tag = c.r.u64();
    let text = |i: u32| format!("{tag:x}.{i}.{}", "p".repeat((i % 37) as usize));
    let mut clone = s.clone();
    for i in 0..n {
        let t = text(i);
        let w = if i % 3 == 0 { &mut clone } else { &mut s };
        let cid = block_on(w.write_token(&t)).map_err(|e| V(format!("writing token {i} fails: {e:#}")))?;
        ensure!(cid == blake(t.as_bytes()), "writing token {i} gives {cid}");
    }
    for i in 0..n {
        let t = text(i);
        let r = if i % 2 == 0 { &clone } else { &s };
        c.eval();
        let got = block_on(r.read_token(&blake(t.as_bytes())));
        ensure!(matches!(&got, Ok(Some(g)) if *g == t), "token {i} of {n} is {got:?} afterwards");
    }
    for i in n..n + 50 {
        c.eval();
        ensure!(block_on(s.read::<Ipld>(&blake(text(i).as_bytes()))).is_ok_and(|x| x.is_none()), "a token never written is found");
    }
    c.seen((tag, n));
    c.state("sizes of large stores", n);
    Ok(())
}

#[derive(Clone, Debug)]
enum Op {
    Write(usize),
    FailWrite(usize),
    Read(usize),
    Token(usize),
    FailRead(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Cid(Cid),
    Found(Vec<u8>),
    NotFound,
    Failed(String),
}
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    op: Op,
    start: u64,
    end: u64,
    out: Out,
}

fn history(c: &mut Case) -> Res {
    let threads = if c.r.pct(15) { c.r.range(7, 12) } else { c.r.range(2, 6) };
    let nblocks = *c.r.pick(&[1usize, 1, 2, 3, 5]);
    let mut blocks: Vec<Vec<u8>> = Vec::new();
    while blocks.len() < nblocks {
        // texts, so that every way of reading applies
        let n = *c.r.pick(&[1usize, 40, 300, 2000]);
        let b = format!("{}.{}", c.r.u64(), "z".repeat(n)).into_bytes();
        blocks.push(b);
    }
    let cids: Vec<Cid> = blocks.iter().map(|b| blake(b)).collect();
    let calls = c.r.range(2, 14);
    let writes = *c.r.pick(&[15u64, 30, 60]);
    let mut plans: Vec<Vec<(Op, u8, u8)>> = Vec::new();
    for _ in 0..threads {
        let mut p = Vec::new();
        for _ in 0..calls {
            let i = c.r.below(nblocks);
            let op = if c.r.pct(writes) {
                if c.r.pct(15) {
                    Op::FailWrite(i)
                } else {
                    Op::Write(i)
                }
            } else {
                match c.r.below(5) {
                    0 => Op::FailRead(i),
                    1 | 2 => Op::Token(i),
                    _ => Op::Read(i),
                }
            };
            p.push((op, c.r.below(11) as u8, c.r.below(9) as u8));
        }
        plans.push(p);
    }
    let mut store = MemoryStore::default();
    if c.r.pct(10) {
        // not an empty store
        for i in 0..*c.r.pick(&[10usize, 70, 140, 300]) {
            let w = format!("earlier {i}");
            if let Err(e) = block_on(store.write_token(&w)) {
                bail!("writing {w} fails: {e:#}");
            }
        }
    }
    let store = store;
    let share = c.r.pct(50);
    let tick = AtomicU64::new(0);
    let gate = Barrier::new(threads);
    let shared = Arc::new(store.clone());
    let mut all: Vec<Call> = Vec::new();
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for (t, plan) in plans.iter().enumerate() {
            let (blocks, cids, tick, gate, shared) = (&blocks, &cids, &tick, &gate, &shared);
            let mut mine = store.clone();
            hs.push(s.spawn(move || {
                let mut out = Vec::new();
                gate.wait();
                for (op, delay, before) in plan {
                    dawdle(*before);
                    DECODE_DELAY.with(|d| d.set(*delay));
                    // reads go through one shared handle or through the thread's own clone
                    let reader: &MemoryStore = if share { shared } else { &mine };
                    let start = tick.fetch_add(1, Ordering::SeqCst);
                    let res = match op {
                        Op::Read(i) => match block_on(reader.read::<SlowRead>(&cids[*i])) {
                            Ok(Some(b)) => Out::Found(b.0),
                            Ok(None) => Out::NotFound,
                            Err(e) => Out::Failed(format!("{e:#}")),
                        },
                        Op::Token(i) => match block_on(reader.read_token(&cids[*i])) {
                            Ok(Some(b)) => Out::Found(b.into_bytes()),
                            Ok(None) => Out::NotFound,
                            // an unknown token is reported as an error
                            Err(_) => Out::NotFound,
                        },
                        Op::FailRead(i) => match block_on(reader.read::<Refuses>(&cids[*i])) {
                            Ok(Some(_)) => Out::Failed("a failing decoding succeeded".into()),
                            Ok(None) => Out::NotFound,
                            // the block was there, and its decoding failed
                            Err(_) => Out::Found(blocks[*i].clone()),
                        },
                        Op::Write(i) => {
                            let w = Slow { bytes: blocks[*i].clone(), pieces: 3, delay: *delay, fail: false };
                            match block_on(mine.write(w)) {
                                Ok(c) => Out::Cid(c),
                                Err(e) => Out::Failed(format!("{e:#}")),
                            }
                        }
                        Op::FailWrite(i) => {
                            let w = Slow { bytes: blocks[*i].clone(), pieces: 3, delay: *delay, fail: true };
                            match block_on(mine.write(w)) {
                                Ok(_) => Out::Failed("a write whose encoding failed succeeded".into()),
                                Err(_) => Out::NotFound,
                            }
                        }
                    };
                    let end = tick.fetch_add(1, Ordering::SeqCst);
                    out.push(Call { thread: t, op: op.clone(), start, end, out: res });
                }
                out
            }));
        }
        for h in hs {
            match h.join() {
                Ok(o) => all.extend(o),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    });
    all.sort_by_key(|c| c.start);
    for x in &all {
        let o = match &x.out {
            Out::Found(b) => format!("found {}", short(b)),
            Out::Cid(_) => "written".into(),
            o => format!("{o:?}"),
        };
        c.note(format!("[{}..{}] thread {} {:?}: {o}", x.start, x.end, x.thread, x.op));
    }
    check_history(c, &all, &blocks, &cids)?;
    // afterwards
    for (i, cid) in cids.iter().enumerate() {
        let written = all.iter().any(|x| matches!(x.op, Op::Write(j) if j == i));
        let want = written.then(|| blocks[i].clone());
        read_one(c, &store, cid, want.as_ref())?;
    }
    // how the calls overlapped
    let mut order: Vec<(u64, usize, bool)> = Vec::new();
    let mut overlaps = 0u64;
    for (k, x) in all.iter().enumerate() {
        order.push((x.start, x.thread, true));
        order.push((x.end, x.thread, false));
        overlaps += all[k + 1..].iter().take_while(|y| y.start < x.end).count() as u64;
    }
    order.sort();
    c.evn("calls recorded", all.len() as u64);
    c.evn("overlapping pairs of calls", overlaps);
    if overlaps > 0 {
        let o: Vec<(usize, bool)> = order.into_iter().map(|x| (x.1, x.2)).collect();
        c.state("interleavings of starts and ends", &o);
        c.seen((&o, format!("{plans:?}")));
    }
    c.sample(|| format!("history: {}", all.iter().take(10).map(|x| format!("[{}..{}] t{} {:?}", x.start, x.end, x.thread, x.op)).collect::<Vec<_>>().join(", ")));
    Ok(())
}

/// Blocks are independent of each other, and a block only ever goes from absent
/// to present. A sequential order exists when some instant lies inside a write
/// and splits the history: every read of an absent block can come before it, every
/// read of a present block and every other write after it.
fn check_history(c: &mut Case, all: &[Call], blocks: &[Vec<u8>], cids: &[Cid]) -> Res {
    for x in all {
        c.eval();
        match (&x.op, &x.out) {
            (_, Out::Failed(e)) => bail!("thread {} {:?}: {e}", x.thread, x.op),
            (Op::Write(i), Out::Cid(got)) => ensure!(*got == cids[*i], "thread {}: writing block {i} gives {got}", x.thread),
            (Op::Read(i) | Op::Token(i) | Op::FailRead(i), Out::Found(b)) => {
                ensure!(*b == blocks[*i], "thread {}: reading block {i} gives other bytes: {}", x.thread, short(b))
            }
            _ => {}
        }
    }
    for i in 0..blocks.len() {
        let writes: Vec<&Call> = all.iter().filter(|x| matches!(x.op, Op::Write(j) if j == i)).collect();
        let reads: Vec<&Call> =
            all.iter().filter(|x| matches!(x.op, Op::Read(j) | Op::Token(j) | Op::FailRead(j) if j == i)).collect();
        let absent = reads.iter().filter(|x| x.out == Out::NotFound);
        let present = reads.iter().filter(|x| x.out != Out::NotFound);
        let last_absent = absent.clone().max_by_key(|x| x.start);
        let first_present = present.clone().min_by_key(|x| x.end);
        c.eval();
        c.evn("reads of an absent block", absent.count() as u64);
        c.evn("reads of a present block", present.count() as u64);
        let Some(w0) = writes.iter().map(|w| w.start).min() else {
            ensure!(first_present.is_none(), "block {i} was found but never written");
            continue;
        };
        let w1 = writes.iter().min_by_key(|w| w.end).unwrap();
        if let Some(f) = first_present {
            ensure!(w0 < f.end, "block {i} was found ([{}..{}]) before any write of it began ({w0})", f.start, f.end);
        }
        if let Some(a) = last_absent {
            ensure!(a.start < w1.end, "block {i} was not found ([{}..{}]) after a write of it had returned ([{}..{}])", a.start, a.end, w1.start, w1.end);
            if let Some(f) = first_present {
                ensure!(a.start < f.end, "block {i} was not found ([{}..{}]) after a read had found it ([{}..{}])", a.start, a.end, f.start, f.end);
            }
        }
    }
    Ok(())
}
