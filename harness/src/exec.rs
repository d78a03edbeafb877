//! Running futures of the code under test: plainly, or interleaved at every
//! suspension point by a seeded scheduler.
use crate::rng::R;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub fn block_on<F: Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

thread_local! {
    /// Percentage of suspension opportunities (store reads, signature checks,
    /// signing) at which the harness's own store and keys really suspend.
    static YIELD_PCT: Cell<u64> = const { Cell::new(0) };
    static YIELD_RNG: Cell<u64> = const { Cell::new(1) };
}

pub fn set_yield(pct: u64, seed: u64) {
    YIELD_PCT.with(|c| c.set(pct));
    YIELD_RNG.with(|c| c.set(seed | 1));
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// A suspension opportunity.
pub async fn maybe_yield() {
    let pct = YIELD_PCT.with(|c| c.get());
    if pct == 0 {
        return;
    }
    loop {
        let x = YIELD_RNG.with(|c| {
            let x = c.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            c.set(x);
            x >> 33
        });
        if x % 100 >= pct {
            return;
        }
        YieldOnce(false).await;
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// Polls the futures one step at a time in an order drawn from `r`. Returns the
/// outputs and the schedule taken, or Err when no future can make progress.
pub fn interleave<'a, T>(
    futs: Vec<Pin<Box<dyn Future<Output = T> + 'a>>>,
    r: &mut R,
) -> Result<(Vec<T>, Vec<u8>), String> {
    let n = futs.len();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut futs: Vec<Option<_>> = futs.into_iter().map(Some).collect();
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    let mut sched = Vec::new();
    loop {
        let ready: Vec<usize> = (0..n)
            .filter(|i| futs[*i].is_some() && flags[*i].0.load(Ordering::SeqCst))
            .collect();
        if ready.is_empty() {
            if futs.iter().all(|f| f.is_none()) {
                break;
            }
            return Err("no task can make progress".into());
        }
        let i = *r.pick(&ready);
        sched.push(i as u8);
        flags[i].0.store(false, Ordering::SeqCst);
        let mut cx = Context::from_waker(&wakers[i]);
        if let Poll::Ready(v) = futs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            out[i] = Some(v);
            futs[i] = None;
        }
        if sched.len() > 5_000_000 {
            return Err("tasks do not finish".into());
        }
    }
    Ok((out.into_iter().map(|x| x.unwrap()).collect(), sched))
}
