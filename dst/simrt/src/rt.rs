use crate::disk::{Disk, DiskOp, Image};
use crate::Prng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

/// An injected disk fault: every disk call whose number is in [at, at+len) and whose
/// kind is in `kinds` fails with `errno`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IoFault {
    pub at: u64,
    pub len: u64,
    pub kinds: u32,
    pub errno: i32,
}

pub mod kind {
    pub const OPEN_R: u32 = 1;
    pub const OPEN_W: u32 = 2;
    pub const READ: u32 = 4;
    pub const WRITE: u32 = 8;
    pub const SYNC: u32 = 16;
    pub const RENAME: u32 = 32;
    pub const MKDIR: u32 = 64;
    pub const UNLINK: u32 = 128;
    pub const ALL: u32 = 255;
    pub const ALL_W: u32 = OPEN_W | WRITE | SYNC | RENAME | MKDIR | UNLINK;
}

/// Everything that determines one incarnation, together with the workload and the disk image.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    /// number of threads the (simulated) rayon pool pretends to have
    pub threads: usize,
    /// number of threads of the pool that really exist and can steal
    pub workers: usize,
    pub flip_ppm: u32,
    pub steal_ppm: u32,
    pub switch_ppm: u32,
    /// mean number of allocations between two preemptions (0: none)
    pub preempt_mean: u32,
    pub entropy_seed: u64,
    pub clock_seed: u64,
    /// ppm of clock reads where a jump / stall is injected
    pub clock_ppm: u32,
    pub io_faults: Vec<IoFault>,
    pub short_ppm: u32,
    pub eintr_ppm: u32,
    pub crash_at: Option<u64>,
    /// SIGINT is raised at these scheduling points (numbered by `Stats::point_calls`)
    #[serde(default)]
    pub sigint_at: Vec<u64>,
    /// after a SIGINT let all other threads run until they block
    #[serde(default)]
    pub settle: bool,
    /// if present: exact list of non default decisions (stream, index, value)
    pub trace: Option<Vec<(u8, u64, u32)>>,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            seed: 0,
            threads: 1,
            workers: 0,
            flip_ppm: 0,
            steal_ppm: 0,
            switch_ppm: 0,
            preempt_mean: 0,
            entropy_seed: 1,
            clock_seed: 1,
            clock_ppm: 0,
            io_faults: vec![],
            short_ppm: 0,
            eintr_ppm: 0,
            crash_at: None,
            sigint_at: vec![],
            settle: false,
            trace: None,
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub joins: u64,
    pub flips: u64,
    pub steals: u64,
    pub switches: u64,
    pub preempts: u64,
    pub futex_waits: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub clock_stalls: u64,
    pub entropy_reads: u64,
    pub disk_calls: u64,
    pub io_errors: u64,
    pub short_io: u64,
    pub eintr: u64,
    pub crashes: u64,
    pub threads_spawned: u64,
    pub signals: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub point_calls: u64,
    /// length of the disk log when the last signal was raised (0: none)
    pub signal_disk: u64,
}

pub const S_JOIN: u8 = 0;
pub const S_SWITCH: u8 = 1;
pub const S_PREEMPT: u8 = 2;
pub const S_NEXT: u8 = 3;
pub const S_IO: u8 = 4;
pub const S_SHIP: u8 = 5;
const N_STREAMS: usize = 8;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Runnable,
    /// pool worker without work
    Idle,
    /// waits for a latch; `true`: a pool thread, may steal meanwhile
    Latch(bool),
    /// futex / semaphore address, optional deadline
    Wait(usize, Option<u64>),
    Join(usize),
    Done,
}

#[derive(Clone, Copy)]
pub struct JobRef {
    pub data: *const (),
    pub exec: unsafe fn(*const ()),
}

pub struct Vt {
    wake: AtomicU32,
    pub st: St,
    pub job: Option<JobRef>,
    pub worker: Option<usize>,
    timed_out: bool,
    pthread: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fate {
    Done,
    Crash,
    Deadlock,
    StepLimit,
}

pub struct Rt {
    pub plan: Plan,
    pub on: bool,
    pub cur: usize,
    pub vts: Vec<Box<Vt>>,
    prng: Prng,
    counters: [u64; N_STREAMS],
    trace_map: Option<BTreeMap<(u8, u64), u32>>,
    pub rec: Vec<(u8, u64, u32)>,
    n_run: usize,
    countdown: u64,
    pub stats: Stats,
    pub disk: Disk,
    pub entropy: Prng,
    pub hash: Prng,
    pub clock: Prng,
    pub mono: u64,
    pub real: i64,
    pub sems: BTreeMap<usize, u32>,
    pub threads_override: Vec<usize>,
    pub die: fn(Fate),
    pub points: u64,
    pub point_limit: u64,
    sig_next: usize,
    /// jobs of the pool which can be stolen, oldest first, with the thread that pushed them
    pending: Vec<(usize, JobRef)>,
}

static mut RT: *mut Rt = std::ptr::null_mut();

thread_local! {
    static VT: Cell<usize> = const { Cell::new(usize::MAX) };
    static GUARD: Cell<u32> = const { Cell::new(0) };
}

/// id of the current simulated thread, if simulated and not inside the simulator
#[inline]
pub fn me() -> Option<usize> {
    VT.try_with(|v| {
        let id = v.get();
        if id == usize::MAX {
            return None;
        }
        if GUARD.try_with(|g| g.get()).unwrap_or(1) != 0 {
            return None;
        }
        Some(id)
    })
    .unwrap_or(None)
}

#[inline]
pub fn is_sim_thread() -> bool {
    VT.try_with(|v| v.get() != usize::MAX).unwrap_or(false)
}

pub struct Guard;
impl Guard {
    #[inline]
    pub fn new() -> Guard {
        GUARD.with(|g| g.set(g.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        GUARD.with(|g| g.set(g.get() - 1));
    }
}

/// Run harness code outside of the simulation (no scheduling points, no interception)
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::new();
    f()
}

#[allow(static_mut_refs)]
#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

fn real_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        crate::interpose::raw(
            libc::SYS_futex,
            [a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0],
        );
    }
}
fn real_futex_wake(a: &AtomicU32) {
    unsafe {
        crate::interpose::raw(
            libc::SYS_futex,
            [a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0],
        );
    }
}

fn wait_baton(id: usize) {
    let w: &'static AtomicU32 = unsafe { &*(&rt().vts[id].wake as *const AtomicU32) };
    loop {
        if w.load(Ordering::Acquire) == 1 {
            w.store(0, Ordering::Relaxed);
            return;
        }
        real_futex_wait(w, 0);
    }
}

fn give_baton(to: usize) {
    let r = rt();
    r.cur = to;
    let w: &'static AtomicU32 = unsafe { &*(&r.vts[to].wake as *const AtomicU32) };
    w.store(1, Ordering::Release);
    real_futex_wake(w);
}

impl Rt {
    /// decide among 0..n where 0 is the default; non-zero with probability p
    pub fn choose(&mut self, stream: u8, n: usize, ppm: u32) -> usize {
        if n <= 1 {
            return 0;
        }
        let idx = self.counters[stream as usize];
        self.counters[stream as usize] += 1;
        let v = if let Some(t) = &self.trace_map {
            t.get(&(stream, idx)).map(|v| *v as usize % n).unwrap_or(0)
        } else if self.prng.ppm(ppm) {
            1 + self.prng.below(n as u64 - 1) as usize
        } else {
            0
        };
        if v != 0 {
            self.rec.push((stream, idx, v as u32));
            self.stats.sched_hash = crate::mix(&[self.stats.sched_hash, stream as u64, idx, v as u64]);
        }
        v
    }

    fn set_state(&mut self, id: usize, st: St) {
        let was = self.vts[id].st == St::Runnable;
        let is = st == St::Runnable;
        self.vts[id].st = st;
        match (was, is) {
            (true, false) => self.n_run -= 1,
            (false, true) => self.n_run += 1,
            _ => {}
        }
    }

    /// the other threads which can run: runnable ones and pool threads with something to steal
    fn others(&self, me: usize) -> Vec<usize> {
        let n = self.vts.len();
        (1..n).map(|k| (me + k) % n).filter(|&i| self.vts[i].st == St::Runnable || self.thief(i)).collect()
    }
    fn runnable(&self, me: usize) -> Vec<usize> {
        let n = self.vts.len();
        (1..n).map(|k| (me + k) % n).filter(|&i| self.vts[i].st == St::Runnable).collect()
    }
    fn thief(&self, i: usize) -> bool {
        let v = &self.vts[i];
        v.job.is_none() && v.worker.is_some() && matches!(v.st, St::Idle | St::Latch(true)) && self.pending.iter().any(|(o, _)| *o != i)
    }
    /// the oldest job of `victim` goes to the pool thread `w`
    fn steal_from(&mut self, w: usize, victim: usize) {
        if let Some(k) = self.pending.iter().position(|(o, _)| *o == victim) {
            let (_, j) = self.pending.remove(k);
            self.stats.steals += 1;
            assign(w, j);
        }
    }
    /// a pool thread out of work may steal before it gives the processor away
    fn eager(&mut self, id: usize) -> bool {
        if self.thief(id) && self.choose(S_SHIP, 2, self.plan.steal_ppm) == 1 {
            self.wake_up(id);
            return true;
        }
        false
    }
    /// `next` gets the processor: a pool thread without work steals
    fn wake_up(&mut self, next: usize) {
        if self.vts[next].st != St::Runnable && self.thief(next) {
            let mut c: Vec<usize> = vec![];
            for (o, _) in &self.pending {
                if *o != next && !c.contains(o) {
                    c.push(*o);
                }
            }
            let k = self.choose(S_NEXT, c.len(), 500_000);
            self.steal_from(next, c[k]);
        }
    }

    fn new_countdown(&mut self) {
        let m = self.plan.preempt_mean as u64;
        self.countdown = if m == 0 { u64::MAX } else { 1 + self.prng.below(2 * m) };
    }

    fn add_vt(&mut self, worker: Option<usize>, st: St) -> usize {
        self.vts.push(Box::new(Vt {
            wake: AtomicU32::new(0),
            st,
            job: None,
            worker,
            timed_out: false,
            pthread: 0,
        }));
        if st == St::Runnable {
            self.n_run += 1;
        }
        self.vts.len() - 1
    }

    pub fn idle_worker(&self) -> Vec<usize> {
        (0..self.vts.len())
            .filter(|&i| {
                self.vts[i].job.is_none()
                    && matches!(self.vts[i].st, St::Idle | St::Latch(true))
                    && self.vts[i].worker.is_some()
            })
            .collect()
    }
}

/// switch from `me` (whose state was already set) to some runnable thread, return when resumed
fn reschedule(me: usize) {
    let r = rt();
    r.points += 1;
    if r.points > r.point_limit {
        (r.die)(Fate::StepLimit);
    }
    let cands = r.others(me);
    let next = if cands.is_empty() {
        if r.vts[me].st == St::Runnable {
            return;
        }
        // nothing runnable: fire the earliest timer
        let mut best: Option<(u64, usize)> = None;
        for (i, v) in r.vts.iter().enumerate() {
            if let St::Wait(_, Some(t)) = v.st {
                if best.map_or(true, |b| t < b.0) {
                    best = Some((t, i));
                }
            }
        }
        match best {
            Some((t, i)) => {
                r.mono = r.mono.max(t);
                r.vts[i].timed_out = true;
                r.set_state(i, St::Runnable);
                i
            }
            None => {
                (r.die)(Fate::Deadlock);
                unreachable!()
            }
        }
    } else {
        let k = r.choose(S_NEXT, cands.len(), 500_000);
        cands[k]
    };
    if next == me {
        return;
    }
    r.wake_up(next);
    r.stats.switches += 1;
    give_baton(next);
    wait_baton(me);
}

fn switch_to(me: usize, next: usize) {
    let r = rt();
    r.wake_up(next);
    r.stats.switches += 1;
    r.points += 1;
    if r.points > r.point_limit {
        (r.die)(Fate::StepLimit);
    }
    give_baton(next);
    wait_baton(me);
}

/// A scheduling point: another runnable thread may be given the baton.
#[inline]
pub fn point() {
    if let Some(id) = me() {
        let r = rt();
        r.stats.point_calls += 1;
        if r.sig_next < r.plan.sigint_at.len() && id == 0 && r.stats.point_calls >= r.plan.sigint_at[r.sig_next] {
            r.sig_next += 1;
            sigint();
        }
        if r.n_run > 1 || !r.pending.is_empty() {
            let _g = Guard::new();
            let c = r.others(id);
            let k = r.choose(S_SWITCH, c.len() + 1, r.plan.switch_ppm);
            if k > 0 {
                switch_to(id, c[k - 1]);
            }
        }
    }
}

/// SIGINT for this process, if it handles it
#[cold]
pub fn sigint() -> bool {
    unsafe {
        let mut old: libc::sigaction = std::mem::zeroed();
        libc::sigaction(libc::SIGINT, std::ptr::null(), &mut old);
        if old.sa_sigaction == libc::SIG_DFL {
            return false;
        }
        rt().stats.signals += 1;
        rt().stats.signal_disk = rt().disk.log.len() as u64 + 1;
        libc::raise(libc::SIGINT);
    }
    if rt().plan.settle {
        settle();
    }
    true
}

/// let every other runnable thread run until it blocks
pub fn settle() {
    if let Some(id) = me() {
        let _g = Guard::new();
        for _ in 0..10_000 {
            let r = rt();
            let c = r.runnable(id);
            if c.is_empty() {
                break;
            }
            let k = r.choose(S_NEXT, c.len(), 500_000);
            switch_to(id, c[k]);
        }
    }
}

/// called by the allocator: preemption at arbitrary allocation
#[inline]
pub fn alloc_tick() {
    if let Some(id) = me() {
        let r = rt();
        if r.n_run > 1 || !r.pending.is_empty() {
            let idx = r.counters[S_PREEMPT as usize];
            r.counters[S_PREEMPT as usize] += 1;
            if let Some(t) = &r.trace_map {
                let v = t.get(&(S_PREEMPT, idx)).copied();
                if let Some(v) = v {
                    preempt(id, idx, Some(v));
                }
            } else if r.countdown <= 1 {
                preempt(id, idx, None);
            } else {
                r.countdown -= 1;
            }
        }
    }
}

#[cold]
fn preempt(id: usize, idx: u64, v: Option<u32>) {
    let _g = Guard::new();
    let r = rt();
    let c = r.others(id);
    if c.is_empty() {
        if v.is_none() {
            r.new_countdown();
        }
        return;
    }
    let k = match v {
        Some(v) => (v as usize).saturating_sub(1) % c.len(),
        None => r.prng.below(c.len() as u64) as usize,
    };
    if v.is_none() {
        r.new_countdown();
    }
    r.rec.push((S_PREEMPT, idx, k as u32 + 1));
    r.stats.sched_hash = crate::mix(&[r.stats.sched_hash, 2, idx, k as u64]);
    r.stats.preempts += 1;
    switch_to(id, c[k]);
}

/// Give `job` to worker `w` (idle or waiting pool thread)
pub fn assign(w: usize, job: JobRef) {
    let r = rt();
    r.vts[w].job = Some(job);
    r.set_state(w, St::Runnable);
}

/// A job which pool threads may steal from now on
pub fn push(owner: usize, job: JobRef) {
    rt().pending.push((owner, job));
}

/// An idle pool thread steals the oldest job of `owner`, if there is one
pub fn give(owner: usize) {
    let r = rt();
    let c: Vec<usize> = r.idle_worker().into_iter().filter(|&w| w != owner).collect();
    if !c.is_empty() {
        let k = r.choose(S_NEXT, c.len(), 500_000);
        r.steal_from(c[k], owner);
    }
}

/// Take back a job that has not been started
pub fn take_back(data: *const ()) -> bool {
    let r = rt();
    if let Some(k) = r.pending.iter().rposition(|(_, j)| j.data == data) {
        r.pending.remove(k);
        return true;
    }
    for v in r.vts.iter_mut() {
        if v.job.map(|j| j.data) == Some(data) {
            // the worker becomes runnable for nothing: it will go back to its wait
            v.job = None;
            return true;
        }
    }
    false
}

/// Block the current thread until `done` says so. Pool threads execute jobs meanwhile.
pub fn wait_latch(id: usize, is_pool: bool, done: &dyn Fn() -> bool) {
    loop {
        if done() {
            return;
        }
        let job = rt().vts[id].job.take();
        if let Some(j) = job {
            run_job(j);
            continue;
        }
        rt().set_state(id, St::Latch(is_pool));
        if is_pool && rt().eager(id) {
            continue;
        }
        reschedule(id);
        rt().set_state(id, St::Runnable);
    }
}

fn run_job(j: JobRef) {
    // leave the simulator while running user code
    let saved = GUARD.with(|g| g.replace(0));
    unsafe { (j.exec)(j.data) };
    GUARD.with(|g| g.set(saved));
}

pub fn wake_latch(waiter: usize) {
    let r = rt();
    if matches!(r.vts[waiter].st, St::Latch(_)) {
        r.set_state(waiter, St::Runnable);
    }
}

fn worker_main(id: usize) {
    wait_baton(id);
    VT.with(|v| v.set(id));
    let _g = Guard::new();
    loop {
        let job = rt().vts[id].job.take();
        if let Some(j) = job {
            run_job(j);
        } else {
            rt().set_state(id, St::Idle);
            if !rt().eager(id) {
                reschedule(id);
            }
        }
    }
}

// ---- futex / semaphores -------------------------------------------------------------

/// returns 0 if woken, ETIMEDOUT, or EAGAIN
pub fn futex_wait(id: usize, addr: usize, expected: u32, deadline: Option<u64>) -> i32 {
    let _g = Guard::new();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != expected {
        return libc::EAGAIN;
    }
    let r = rt();
    r.stats.futex_waits += 1;
    r.vts[id].timed_out = false;
    r.set_state(id, St::Wait(addr, deadline));
    reschedule(id);
    if rt().vts[id].timed_out {
        libc::ETIMEDOUT
    } else {
        0
    }
}

pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let _g = Guard::new();
    let r = rt();
    let mut k = 0;
    while k < n {
        let w: Vec<usize> = (0..r.vts.len())
            .filter(|&i| matches!(r.vts[i].st, St::Wait(a, _) if a == addr))
            .collect();
        if w.is_empty() {
            break;
        }
        let c = r.choose(S_NEXT, w.len(), 300_000);
        r.set_state(w[c], St::Runnable);
        k += 1;
    }
    k
}

pub fn sem_wait(id: usize, addr: usize) {
    let _g = Guard::new();
    loop {
        let r = rt();
        let c = r.sems.entry(addr).or_insert(0);
        if *c > 0 {
            *c -= 1;
            return;
        }
        r.set_state(id, St::Wait(addr, None));
        reschedule(id);
    }
}

pub fn sem_post(addr: usize) {
    {
        let _g = Guard::new();
        *rt().sems.entry(addr).or_insert(0) += 1;
    }
    futex_wake(addr, 1);
}

pub fn sleep_until(id: usize, t: u64) {
    let _g = Guard::new();
    let r = rt();
    r.vts[id].timed_out = false;
    r.set_state(id, St::Wait(0, Some(t)));
    reschedule(id);
}

// ---- threads --------------------------------------------------------------------------

pub struct ThreadStart {
    pub start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    pub arg: *mut libc::c_void,
    pub id: usize,
}

pub fn thread_register() -> usize {
    let r = rt();
    r.stats.threads_spawned += 1;
    r.add_vt(None, St::Runnable)
}

pub fn thread_set_pthread(id: usize, p: u64) {
    rt().vts[id].pthread = p;
}

pub fn thread_find(p: u64) -> Option<usize> {
    rt().vts.iter().rposition(|v| v.pthread == p && p != 0)
}

pub extern "C" fn thread_tramp(a: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(a as *mut ThreadStart) };
    wait_baton(s.id);
    VT.with(|v| v.set(s.id));
    let ret = (s.start)(s.arg);
    VT.with(|v| v.set(usize::MAX));
    let _g = Guard::new();
    let id = s.id;
    drop(s);
    let r = rt();
    r.set_state(id, St::Done);
    for i in 0..r.vts.len() {
        if r.vts[i].st == St::Join(id) {
            r.set_state(i, St::Runnable);
        }
    }
    // hand the baton over for good
    let c = r.others(id);
    if c.is_empty() {
        (r.die)(Fate::Deadlock);
    }
    let k = r.choose(S_NEXT, c.len(), 500_000);
    r.wake_up(c[k]);
    give_baton(c[k]);
    ret
}

pub fn thread_join(me: usize, id: usize) {
    let _g = Guard::new();
    while rt().vts[id].st != St::Done {
        rt().set_state(me, St::Join(id));
        reschedule(me);
    }
}

/// is thread `id` a pool worker
pub fn worker_index(id: usize) -> Option<usize> {
    rt().vts[id].worker
}

// ---- clock ----------------------------------------------------------------------------

pub fn clock_now(realtime: bool) -> (i64, i64) {
    let _g = Guard::new();
    let r = rt();
    r.stats.clock_reads += 1;
    let d = 200 + r.clock.below(50_000);
    r.mono += d;
    r.real += d as i64;
    if r.clock.ppm(r.plan.clock_ppm) {
        if r.clock.below(2) == 0 {
            r.stats.clock_jumps += 1;
            let j = r.clock.below(86_400_000_000_000) as i64 - 43_200_000_000_000;
            r.real = (r.real + j).max(1);
        } else {
            r.stats.clock_stalls += 1;
            let j = r.clock.below(3_600_000_000_000);
            r.mono += j;
            r.real += j as i64;
        }
    }
    let t = if realtime { r.real } else { r.mono as i64 };
    (t / 1_000_000_000, t % 1_000_000_000)
}

// ---- entry ------------------------------------------------------------------------------

pub struct Start {
    pub plan: Plan,
    pub image: Image,
    pub die: fn(Fate),
    pub point_limit: u64,
}

/// Runs `root` as simulated thread 0. Never returns: `die` must end the process.
/// Must be called in a process with a single thread.
pub fn run(s: Start, root: Box<dyn FnOnce() + Send>) -> ! {
    crate::interpose::init();
    let plan = s.plan;
    let seed = plan.seed;
    let trace_map = plan.trace.as_ref().map(|t| t.iter().map(|(a, b, c)| ((*a, *b), *c)).collect());
    let workers = plan.workers;
    let r = Box::new(Rt {
        prng: Prng::new(crate::mix(&[seed, 1])),
        entropy: Prng::new(crate::mix(&[plan.entropy_seed, 2])),
        hash: Prng::new(crate::mix(&[plan.entropy_seed, 7])),
        clock: Prng::new(crate::mix(&[plan.clock_seed, 3])),
        mono: 1_000_000_000 + crate::mix(&[plan.clock_seed, 5]) % 1_000_000_000_000,
        real: 1_600_000_000_000_000_000 + (crate::mix(&[plan.clock_seed, 6]) % 200_000_000_000_000_000) as i64,
        plan,
        on: true,
        cur: 0,
        vts: vec![],
        counters: [0; N_STREAMS],
        trace_map,
        rec: vec![],
        n_run: 0,
        countdown: u64::MAX,
        stats: Stats::default(),
        disk: Disk::new(s.image),
        sems: BTreeMap::new(),
        threads_override: vec![],
        die: s.die,
        points: 0,
        point_limit: s.point_limit,
        sig_next: 0,
        pending: vec![],
    });
    unsafe { RT = Box::into_raw(r) };
    let t0 = rt().mono;
    rt().stats.sim_ns = t0;
    rt().new_countdown();
    rt().add_vt(None, St::Runnable);
    for w in 0..workers {
        rt().add_vt(Some(w), St::Idle);
    }
    for w in 0..workers {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || worker_main(w + 1))
            .expect("spawn worker");
    }
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            wait_baton(0);
            VT.with(|v| v.set(0));
            root();
            let _g = Guard::new();
            (rt().die)(Fate::Done);
        })
        .expect("spawn root");
    give_baton(0);
    h.join().ok();
    std::process::abort()
}

pub fn sim_elapsed() -> u64 {
    rt().mono - rt().stats.sim_ns
}

/// Mark an application level event in the disk op log
pub fn disk_mark(n: u64) {
    let _g = Guard::new();
    rt().disk.log.push(DiskOp::Mark(n));
}
