//! The simulator core: virtual clock, seeded scheduler, timers, executor and locks.

use std::{
    collections::BTreeMap,
    error::Error as StdError,
    future::Future,
    ops::{Deref, DerefMut},
    panic::AssertUnwindSafe,
    pin::Pin,
    sync::{
        Arc,
        atomic::{AtomicI64, AtomicU64, Ordering},
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant, SystemTime},
};

use fusio::executor::{
    Executor, JoinHandle as JoinHandleT, Mutex as MutexT, RwLock as RwLockT, Timer,
};
use fusio_core::MaybeSendFuture;
use parking_lot::{Mutex, MutexGuard};

use crate::{
    disk::{Disk, Fault, FaultCfg, Stats},
    rng::Rng,
};

/// Virtual time starts here: 2030-01-01 for the wall clock, one day of uptime for the monotonic one.
const WALL_BASE_NS: u64 = 1_893_456_000_000_000_000;
const MONO_BASE_NS: u64 = 86_400_000_000_000;

pub type TaskId = u64;

/// A future that only ever runs on the simulation thread.
pub struct LocalFut(pub Pin<Box<dyn Future<Output = ()>>>);
// SAFETY: tasks are created, polled and dropped on the one simulation thread.
unsafe impl Send for LocalFut {}

pub struct Inner {
    pub epoch: u32,
    pub sched: Rng,
    /// Scheduling decisions left before the scheduler falls back to first-in first-out.
    pub sched_left: u64,
    pub io: Rng,
    pub fault: Rng,
    ready: Vec<TaskId>,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    incoming: Vec<(TaskId, LocalFut)>,
    next_task: TaskId,
    pub disk: Disk,
    pub cfg: FaultCfg,
    pub stats: Stats,
    pub io_count: u64,
    /// Crash when this many I/O operations of the current incarnation have started.
    pub crash_at_io: Option<u64>,
    /// Simulated time made a jump in this incarnation.
    pub slow_machine: bool,
    /// Crash on the n-th I/O whose label matches.
    pub crash_on: Option<(String, u32)>,
    pub io_in_epoch: u64,
    pub crashed: bool,
    pub hash: u64,
    /// Some crash left a manifest segment without its head.
    pub orphaned: bool,
    pub trace: Option<Vec<String>>,
    pub faults_on: bool,
    /// Explicit fault plan by global I/O ordinal (None: draw from the fault stream).
    pub fault_plan: Option<BTreeMap<u64, Fault>>,
    pub injected: Vec<(u64, Fault)>,
    pub crashed_at_io: Option<u64>,
    pub panics: Vec<String>,
}

pub struct Core {
    inner: Mutex<Inner>,
    now: AtomicU64,
    skew: AtomicI64,
}

impl Core {
    pub fn new(seed: u64, cfg: FaultCfg, disk: Disk, trace: bool) -> Arc<Self> {
        Arc::new(Core {
            inner: Mutex::new(Inner {
                epoch: 0,
                sched: Rng::derive(seed, "sched"),
                sched_left: u64::MAX,
                io: Rng::derive(seed, "io"),
                fault: Rng::derive(seed, "fault"),
                ready: Vec::new(),
                timers: BTreeMap::new(),
                timer_seq: 0,
                incoming: Vec::new(),
                next_task: 1,
                disk,
                cfg,
                stats: Stats::default(),
                io_count: 0,
                crash_at_io: None,
                slow_machine: false,
                crash_on: None,
                io_in_epoch: 0,
                crashed: false,
                hash: 0xcbf2_9ce4_8422_2325,
                orphaned: false,
                trace: trace.then(Vec::new),
                faults_on: true,
                fault_plan: None,
                injected: Vec::new(),
                crashed_at_io: None,
                panics: Vec::new(),
            }),
            now: AtomicU64::new(0),
            skew: AtomicI64::new(0),
        })
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock()
    }
    pub fn now_ns(&self) -> u64 {
        self.now.load(Ordering::Relaxed)
    }
    pub fn mono_ns(&self) -> u64 {
        MONO_BASE_NS + self.now_ns()
    }
    pub fn wall_ns(&self) -> u64 {
        (WALL_BASE_NS + self.now_ns()).saturating_add_signed(self.skew.load(Ordering::Relaxed))
    }
    pub fn jump_wall(&self, by_ns: i64) {
        self.skew.fetch_add(by_ns, Ordering::Relaxed);
    }

    pub fn spawn_local(self: &Arc<Self>, fut: impl Future<Output = ()> + 'static) -> TaskId {
        let mut g = self.inner.lock();
        let id = g.next_task;
        g.next_task += 1;
        g.incoming.push((id, LocalFut(Box::pin(fut))));
        g.ready.push(id);
        id
    }

    pub fn sleep(self: &Arc<Self>, dur: Duration) -> Sleep {
        Sleep {
            core: Arc::clone(self),
            deadline: self.now_ns().saturating_add(dur.as_nanos().min(u64::MAX as u128) as u64),
            key: None,
        }
    }

    /// Let other tasks run before continuing.
    pub fn yield_now(self: &Arc<Self>) -> YieldNow {
        YieldNow(false)
    }

    /// Start the next incarnation: everything belonging to the previous one is gone.
    pub fn begin_epoch(&self) {
        let (timers, incoming);
        {
            let mut g = self.inner.lock();
            g.epoch += 1;
            g.crashed = false;
            g.crash_at_io = None;
            g.slow_machine = false;
            g.crash_on = None;
            g.io_in_epoch = 0;
            g.ready.clear();
            timers = std::mem::take(&mut g.timers);
            incoming = std::mem::take(&mut g.incoming);
        }
        drop(timers);
        drop(incoming);
    }

    fn wake_task(&self, id: TaskId, epoch: u32) {
        let mut g = self.inner.lock();
        if g.epoch == epoch && !g.ready.contains(&id) {
            g.ready.push(id);
        }
    }
}

impl Inner {
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    pub fn mix_str(&mut self, s: &str) {
        let mut h = self.hash;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.hash = h.rotate_left(7);
    }
    pub fn log(&mut self, now: u64, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            let line = format!("{:>12.6} {}", now as f64 / 1e9, f());
            if std::env::var_os("SIM_STDERR").is_some() {
                eprintln!("{line}");
            }
            t.push(line);
        }
    }
}

pub struct Sleep {
    core: Arc<Core>,
    deadline: u64,
    key: Option<(u64, u64)>,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.core.now_ns() >= self.deadline {
            return Poll::Ready(());
        }
        let core = Arc::clone(&self.core);
        let mut g = core.inner.lock();
        let key = match self.key {
            Some(k) => k,
            None => {
                g.timer_seq += 1;
                let k = (self.deadline, g.timer_seq);
                self.key = Some(k);
                k
            }
        };
        let old = g.timers.insert(key, cx.waker().clone());
        drop(g);
        drop(old);
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key {
            let old = self.core.inner.lock().timers.remove(&k);
            drop(old);
        }
    }
}

pub struct YieldNow(bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct TaskWaker {
    core: Arc<Core>,
    id: TaskId,
    epoch: u32,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.core.wake_task(self.id, self.epoch);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.core.wake_task(self.id, self.epoch);
    }
}

/// Why an incarnation stopped.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Exit {
    Done,
    Crashed,
    /// Nothing can run any more although the scenario is unfinished.
    Deadlock,
    /// Virtual-time or step budget exhausted.
    Budget(String),
}

pub struct Limits {
    pub max_steps: u64,
    pub until_ns: u64,
}

/// Run `main` and everything it spawns until it finishes, a crash fires or the budget ends.
pub fn run(core: &Arc<Core>, limits: Limits, main: impl Future<Output = ()> + 'static) -> Exit {
    let rt = tokio::runtime::Builder::new_current_thread()
        .build()
        .expect("tokio runtime");
    let epoch = core.lock().epoch;
    let main_id = core.spawn_local(main);
    let mut tasks: BTreeMap<TaskId, (LocalFut, Waker)> = BTreeMap::new();
    let exit = rt.block_on(async {
        let mut steps = 0u64;
        let mut idle_rounds = 0u32;
        let mut slowed = 0u64;
        loop {
            let incoming = std::mem::take(&mut core.lock().incoming);
            for (id, fut) in incoming {
                let waker = Waker::from(Arc::new(TaskWaker {
                    core: Arc::clone(core),
                    id,
                    epoch,
                }));
                tasks.insert(id, (fut, waker));
            }
            let picked = {
                let mut g = core.lock();
                if g.crashed {
                    return Exit::Crashed;
                }
                if g.ready.is_empty() {
                    None
                } else {
                    let n = g.ready.len();
                    let idx = if g.sched_left > 0 {
                        g.sched_left -= 1;
                        if n > 1 { g.sched.usize(n) } else { 0 }
                    } else {
                        0
                    };
                    let id = g.ready.remove(idx);
                    g.stats.steps += 1;
                    if n > 1 {
                        g.stats.choices += 1;
                    }
                    g.mix(id);
                    let foreign = g.sched_left > 0 && g.sched.pct(20);
                    Some((id, foreign))
                }
            };
            match picked {
                Some((id, foreign)) => {
                    idle_rounds = 0;
                    steps += 1;
                    if let Some((fut, waker)) = tasks.get_mut(&id) {
                        let mut cx = Context::from_waker(waker);
                        let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
                            fut.0.as_mut().poll(&mut cx)
                        }));
                        match res {
                            Ok(Poll::Pending) => {}
                            Ok(Poll::Ready(())) => {
                                let t = tasks.remove(&id);
                                drop(t);
                                if id == main_id {
                                    return Exit::Done;
                                }
                            }
                            Err(p) => {
                                let msg = panic_text(p.as_ref());
                                let t = tasks.remove(&id);
                                let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(t)));
                                core.lock().panics.push(msg);
                                if id == main_id {
                                    return Exit::Done;
                                }
                            }
                        }
                    }
                    if steps > limits.max_steps {
                        return Exit::Budget(format!("{steps} scheduler steps"));
                    }
                    if foreign {
                        tokio::task::yield_now().await;
                    }
                }
                None => {
                    // Tasks the code under test put on tokio itself.
                    tokio::task::yield_now().await;
                    if !core.lock().ready.is_empty() || !core.lock().incoming.is_empty() {
                        continue;
                    }
                    idle_rounds += 1;
                    if idle_rounds < 2 {
                        continue;
                    }
                    let fired = {
                        let mut g = core.lock();
                        if g.crashed {
                            return Exit::Crashed;
                        }
                        match g.timers.pop_first() {
                            Some(((at, _), w)) => {
                                let mut ws = vec![w];
                                // A process that does a lot of I/O without getting anywhere (a
                                // compaction retried every tick until a dead lease runs out) gets
                                // a slow machine, or a minute of it takes minutes to simulate.
                                let mut slow = 0;
                                if g.io_in_epoch > 8_000 && slowed < 300_000_000_000 {
                                    slow = (g.io_in_epoch / 8_000).min(20) * 50_000_000;
                                    slowed += slow;
                                    g.slow_machine = true;
                                }
                                let at = at.max(core.now_ns()) + slow;
                                if at > limits.until_ns {
                                    return Exit::Budget(format!(
                                        "virtual time {:.3}s",
                                        at as f64 / 1e9
                                    ));
                                }
                                core.now.store(at, Ordering::Relaxed);
                                while let Some(e) = g.timers.first_entry() {
                                    if e.key().0 <= at {
                                        ws.push(e.remove());
                                    } else {
                                        break;
                                    }
                                }
                                g.stats.timer_fires += ws.len() as u64;
                                ws
                            }
                            None => Vec::new(),
                        }
                    };
                    if fired.is_empty() {
                        if idle_rounds > 4 {
                            return Exit::Deadlock;
                        }
                        continue;
                    }
                    for w in fired {
                        w.wake();
                    }
                }
            }
        }
    });
    // The process is gone: drop every task of this incarnation without letting it run.
    {
        let mut g = core.lock();
        g.epoch += 1;
        g.ready.clear();
    }
    let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(tasks)));
    let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(rt)));
    exit
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

// ---------------------------------------------------------------------------------------------
// Executor seam

#[derive(Clone)]
pub struct SimExec(pub Arc<Core>);

struct JoinState<R> {
    result: Option<R>,
    waker: Option<Waker>,
    lost: bool,
}

pub struct SimJoin<R>(Arc<Mutex<JoinState<R>>>);

struct JoinGuard<R>(Arc<Mutex<JoinState<R>>>);
impl<R> Drop for JoinGuard<R> {
    fn drop(&mut self) {
        let w = {
            let mut g = self.0.lock();
            g.lost = true;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

impl<R: Send> JoinHandleT<R> for SimJoin<R> {
    async fn join(self) -> Result<R, Box<dyn StdError + Send + Sync>> {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock();
            if let Some(r) = g.result.take() {
                return Poll::Ready(Ok(r));
            }
            if g.lost {
                return Poll::Ready(Err("task ended without a result".into()));
            }
            g.waker = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}

impl Executor for SimExec {
    type JoinHandle<R>
        = SimJoin<R>
    where
        R: Send;
    type Mutex<T>
        = SimMutex<T>
    where
        T: Send + Sync;
    type RwLock<T>
        = SimRwLock<T>
    where
        T: Send + Sync;

    fn spawn<F>(&self, future: F) -> Self::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send,
    {
        // The join slot may hold a non-'static output type parameter; erase it through the future.
        let state = Arc::new(Mutex::new(JoinState {
            result: None,
            waker: None,
            lost: false,
        }));
        let guard = JoinGuard(Arc::clone(&state));
        let fut = async move {
            let guard = guard;
            let out = future.await;
            guard.0.lock().result = Some(out);
        };
        let boxed: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(fut);
        // SAFETY: `F: 'static`, and the output only lives inside the join slot shared with the
        // returned handle.
        let boxed: Pin<Box<dyn Future<Output = ()> + 'static>> =
            unsafe { std::mem::transmute(boxed) };
        self.0.spawn_local(boxed);
        SimJoin(state)
    }

    fn mutex<T>(value: T) -> Self::Mutex<T>
    where
        T: Send + Sync,
    {
        SimMutex::new(value)
    }

    fn rw_lock<T>(value: T) -> Self::RwLock<T>
    where
        T: Send + Sync,
    {
        SimRwLock::new(value)
    }
}

impl Timer for SimExec {
    fn sleep(&self, dur: Duration) -> Pin<Box<dyn MaybeSendFuture<Output = ()>>> {
        Box::pin(self.0.sleep(dur))
    }
    fn now(&self) -> Instant {
        Instant::now()
    }
    fn system_time(&self) -> SystemTime {
        SystemTime::now()
    }
}

// ---------------------------------------------------------------------------------------------
// Locks: unlocking wakes every waiter and the scheduler decides who gets it.

struct LockState {
    writer: bool,
    readers: usize,
    waiters: Vec<Waker>,
}

pub struct SimRwLock<T> {
    state: Mutex<LockState>,
    value: std::cell::UnsafeCell<T>,
}
// SAFETY: access is guarded by `state`.
unsafe impl<T: Send> Send for SimRwLock<T> {}
unsafe impl<T: Send> Sync for SimRwLock<T> {}

impl<T> SimRwLock<T> {
    pub fn new(value: T) -> Self {
        Self {
            state: Mutex::new(LockState {
                writer: false,
                readers: 0,
                waiters: Vec::new(),
            }),
            value: std::cell::UnsafeCell::new(value),
        }
    }
    fn poll_acquire(&self, write: bool, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.state.lock();
        if s.writer || (write && s.readers > 0) {
            if !s.waiters.iter().any(|w| w.will_wake(cx.waker())) {
                s.waiters.push(cx.waker().clone());
            }
            return Poll::Pending;
        }
        if write {
            s.writer = true;
        } else {
            s.readers += 1;
        }
        Poll::Ready(())
    }
    fn release(&self, write: bool) {
        let ws = {
            let mut s = self.state.lock();
            if write {
                s.writer = false;
            } else {
                s.readers -= 1;
            }
            std::mem::take(&mut s.waiters)
        };
        for w in ws {
            w.wake();
        }
    }
}

pub struct ReadGuard<'a, T>(&'a SimRwLock<T>);
pub struct WriteGuard<'a, T>(&'a SimRwLock<T>);
unsafe impl<T: Send> Send for ReadGuard<'_, T> {}
unsafe impl<T: Send> Send for WriteGuard<'_, T> {}
impl<T> Deref for ReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.value.get() }
    }
}
impl<T> Deref for WriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.value.get() }
    }
}
impl<T> DerefMut for WriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.value.get() }
    }
}
impl<T> Drop for ReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.release(false);
    }
}
impl<T> Drop for WriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.release(true);
    }
}

impl<T: Send + Sync> RwLockT<T> for SimRwLock<T> {
    type ReadGuard<'a>
        = ReadGuard<'a, T>
    where
        T: 'a;
    type WriteGuard<'a>
        = WriteGuard<'a, T>
    where
        T: 'a;
    async fn read(&self) -> Self::ReadGuard<'_> {
        std::future::poll_fn(|cx| self.poll_acquire(false, cx)).await;
        ReadGuard(self)
    }
    async fn write(&self) -> Self::WriteGuard<'_> {
        std::future::poll_fn(|cx| self.poll_acquire(true, cx)).await;
        WriteGuard(self)
    }
}

pub struct SimMutex<T>(SimRwLock<T>);
impl<T> SimMutex<T> {
    pub fn new(value: T) -> Self {
        Self(SimRwLock::new(value))
    }
}
impl<T: Send + Sync> MutexT<T> for SimMutex<T> {
    type Guard<'a>
        = WriteGuard<'a, T>
    where
        T: 'a;
    async fn lock(&self) -> Self::Guard<'_> {
        std::future::poll_fn(|cx| self.0.poll_acquire(true, cx)).await;
        WriteGuard(&self.0)
    }
}
