//! A simulated async executor. It owns when each task is polled, with which waker, on which thread,
//! how often for no reason, and when a task is dropped.

use crate::ctx::Ctx;
use crate::tape::{mix, Src};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag {
    last: Arc<AtomicU64>,
    generation: u64,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.last.fetch_max(self.generation, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.last.fetch_max(self.generation, SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Now {
    /// there was an item; there may be more
    More,
    /// nothing further will ever come
    Done,
}
pub struct Task<'a> {
    pub name: String,
    /// one poll
    pub poll: Box<dyn FnMut(&mut Context<'_>) -> Poll<Now> + Send + 'a>,
    /// dropped before its poll of this number
    pub cancel_at: Option<usize>,
    pub done: bool,
    pub cancelled: bool,
    pub polls: usize,
    pub pendings: usize,
    pub spurious: usize,
}
impl<'a> Task<'a> {
    pub fn new(name: impl Into<String>, poll: impl FnMut(&mut Context<'_>) -> Poll<Now> + Send + 'a) -> Self {
        Self { name: name.into(), poll: Box::new(poll), cancel_at: None, done: false, cancelled: false, polls: 0, pendings: 0, spurious: 0 }
    }
}

/// Poll the tasks in an order the tape decides until all are done or cancelled.
pub fn drive(src: &mut Src, ctx: &mut Ctx, tasks: &mut [Task<'_>], max_polls: usize) -> Result<(), String> {
    let mut total = 0usize;
    let mut order = 0u64;
    let burst = *src.pick(&[1usize, 2, 5, 40, 100_000]);
    let migrate = src.chance(1, 12);
    let mut switches = 0u64;
    let mut last = usize::MAX;
    loop {
        let live: Vec<usize> = (0..tasks.len()).filter(|i| !tasks[*i].done && !tasks[*i].cancelled).collect();
        if live.is_empty() {
            break;
        }
        let i = *src.pick(&live);
        if i != last {
            switches += 1;
            last = i;
        }
        let n = if live.len() == 1 && src.chance(1, 2) { 100_000 } else { src.range(1, burst) };
        order = mix(order, mix(i as u64, n as u64));
        for _ in 0..n {
            let t = &mut tasks[i];
            if t.cancel_at == Some(t.polls) {
                t.cancelled = true;
                t.poll = Box::new(|_| Poll::Ready(Now::Done));
                ctx.fault("task dropped before it finished", 1);
                ctx.note(|| format!("  {} is dropped after {} polls", tasks[i].name, tasks[i].polls));
                break;
            }
            total += 1;
            if total > max_polls {
                return Err(format!("{} has not ended after {max_polls} polls", tasks[i].name));
            }
            let t = &mut tasks[i];
            t.polls += 1;
            let lastgen = Arc::new(AtomicU64::new(0));
            let w = Waker::from(Arc::new(Flag { last: lastgen.clone(), generation: 1 }));
            let r = if migrate && t.polls % 5 == 1 {
                ctx.stats.add("polls on another thread", 1);
                let f = &mut t.poll;
                let w = w.clone();
                match std::thread::scope(|s| s.spawn(move || f(&mut Context::from_waker(&w))).join()) {
                    Ok(r) => r,
                    Err(p) => std::panic::resume_unwind(p),
                }
            } else {
                (t.poll)(&mut Context::from_waker(&w))
            };
            match r {
                Poll::Ready(Now::More) => {}
                Poll::Ready(Now::Done) => {
                    t.done = true;
                    break;
                }
                Poll::Pending => {
                    t.pendings += 1;
                    ctx.stats.add("suspensions", 1);
                    if lastgen.load(SeqCst) == 0 {
                        return Err(format!("{} suspended without having arranged a wake-up", t.name));
                    }
                    if src.chance(1, 4) {
                        // its turn comes later
                        ctx.fault("wake-up delivered late", 1);
                        break;
                    }
                }
            }
        }
    }
    ctx.stats.add("polls", total as u64);
    ctx.stats.add("task switches", switches);
    ctx.mark(mix(order, tasks.iter().fold(total as u64, |a, t| mix(a, (t.polls * 2 + usize::from(t.cancelled)) as u64))));
    Ok(())
}
