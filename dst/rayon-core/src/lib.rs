//! Simulated rayon-core: same API, every decision (which half of a join runs first, what is
//! stolen and by whom, how many threads the pool seems to have) is taken by `simrt`.
use simrt::rt::{self, Guard, JobRef};
use simrt::S_JOIN;
use std::any::Any;
use std::cell::UnsafeCell;
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type PanicBox = Box<dyn Any + Send>;

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn max_num_threads() -> usize {
    0xFFFF
}

pub fn current_num_threads() -> usize {
    if rt::is_sim_thread() {
        let r = rt::rt();
        r.threads_override.last().copied().unwrap_or(r.plan.threads).max(1)
    } else {
        1
    }
}

pub fn current_thread_index() -> Option<usize> {
    let id = rt::me()?;
    rt::worker_index(id)
}

pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| false)
}

// ---- stack jobs ---------------------------------------------------------------------------

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    res: UnsafeCell<Option<Result<R, PanicBox>>>,
    done: AtomicBool,
    waiter: usize,
}

impl<F: FnOnce() -> R, R> StackJob<F, R> {
    fn new(f: F, waiter: usize) -> Self {
        StackJob { f: UnsafeCell::new(Some(f)), res: UnsafeCell::new(None), done: AtomicBool::new(false), waiter }
    }
    fn as_ref(&self) -> JobRef {
        JobRef { data: self as *const _ as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const ()) {
        let j = &*(p as *const Self);
        let f = (*j.f.get()).take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(f));
        let _g = Guard::new();
        *j.res.get() = Some(r);
        j.done.store(true, Ordering::SeqCst);
        rt::wake_latch(j.waiter);
    }
    fn run_here(&self) {
        unsafe { Self::exec(self as *const _ as *const ()) }
    }
    fn is_done(&self) -> bool {
        self.done.load(Ordering::SeqCst)
    }
    unsafe fn take(&self) -> Result<R, PanicBox> {
        (*self.res.get()).take().unwrap()
    }
}

fn run<R>(f: impl FnOnce() -> R) -> Result<R, PanicBox> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let Some(id) = rt::me() else {
        return (a(FnContext::new(false)), b(FnContext::new(false)));
    };
    // 0: a then b, which can be stolen meanwhile; 1: b first (as if stolen by a fast thief); 2: an
    // idle worker steals at once, or the whole join is shipped to the pool
    let decision = {
        let _g = Guard::new();
        let r = rt::rt();
        r.stats.joins += 1;
        let steal = r.plan.steal_ppm > 0 && r.plan.workers > 0 && !r.idle_worker().is_empty();
        let p = r.plan.flip_ppm.max(if steal { r.plan.steal_ppm } else { 0 });
        let par = r.threads_override.last().copied().unwrap_or(r.plan.threads) > 1;
        if !par || p == 0 {
            0
        } else {
            let c = r.choose(S_JOIN, 8, p);
            let total = r.plan.flip_ppm as u64 + r.plan.steal_ppm as u64;
            let k = if c == 0 {
                0
            } else if !steal {
                1
            } else if r.plan.flip_ppm as u64 * 7 >= (c as u64) * total {
                1
            } else {
                2
            };
            if k == 1 {
                r.stats.flips += 1;
            }
            k
        }
    };
    if decision == 1 {
        let rb = run(|| b(FnContext::new(true)));
        let ra = run(|| a(FnContext::new(false)));
        return both(ra, rb);
    }
    let stealing = {
        let _g = Guard::new();
        let r = rt::rt();
        r.plan.steal_ppm > 0 && r.plan.workers > 0 && r.threads_override.last().copied().unwrap_or(r.plan.threads) > 1
    };
    if !stealing {
        let ra = match run(|| a(FnContext::new(false))) {
            Ok(ra) => ra,
            // rayon drops the other job if nobody stole it
            Err(p) => resume_unwind(p),
        };
        return (ra, b(FnContext::new(false)));
    }
    let pool = rt::worker_index(id).is_some();
    if decision == 2 && !pool {
        // called from outside of the pool: half of the time run the join inside the pool
        let ship = {
            let _g = Guard::new();
            let r = rt::rt();
            r.choose(simrt::S_SHIP, 2, 500_000) == 1
        };
        if ship {
            let job = StackJob::new(move || join_context(a, b), id);
            dispatch(id, &job, false);
            return finish(&job);
        }
    }
    // b can be stolen while a is running, at once or at any later scheduling point
    let job = StackJob::new(move || b(FnContext::new(rt::me() != Some(id))), id);
    {
        let _g = Guard::new();
        rt::push(id, job.as_ref());
        if decision == 2 {
            rt::give(id);
        }
    }
    rt::point();
    let ra = run(|| a(FnContext::new(false)));
    let back = {
        let _g = Guard::new();
        !job.is_done() && rt::take_back(job.as_ref().data)
    };
    if back {
        match ra {
            Ok(ra) => {
                job.run_here();
                return both(Ok(ra), unsafe { job.take() });
            }
            Err(p) => resume_unwind(p),
        }
    }
    {
        let _g = Guard::new();
        rt::wait_latch(id, pool, &|| job.is_done());
    }
    both(ra, unsafe { job.take() })
}

fn both<RA, RB>(ra: Result<RA, PanicBox>, rb: Result<RB, PanicBox>) -> (RA, RB) {
    match (ra, rb) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(p), _) => resume_unwind(p),
        (_, Err(p)) => resume_unwind(p),
    }
}

/// give the job to some idle worker (or run it here if there is none) and wait for it
fn dispatch<F: FnOnce() -> R, R>(id: usize, job: &StackJob<F, R>, pool: bool) {
    let given = {
        let _g = Guard::new();
        let r = rt::rt();
        let c: Vec<usize> = r.idle_worker().into_iter().filter(|&w| w != id).collect();
        if c.is_empty() {
            false
        } else {
            let k = r.choose(simrt::S_NEXT, c.len(), 500_000);
            rt::assign(c[k], job.as_ref());
            true
        }
    };
    if given {
        let _g = Guard::new();
        rt::wait_latch(id, pool, &|| job.is_done());
    } else {
        job.run_here()
    }
}

fn finish<F: FnOnce() -> R, R>(job: &StackJob<F, R>) -> R {
    match unsafe { job.take() } {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

// ---- scopes ---------------------------------------------------------------------------------

struct ScopeBase<'scope> {
    pending: AtomicUsize,
    waiter: usize,
    panic: Mutex<Option<PanicBox>>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}

pub struct Scope<'scope> {
    base: ScopeBase<'scope>,
}
pub struct ScopeFifo<'scope> {
    base: ScopeBase<'scope>,
}

struct HeapJob<'a> {
    f: Option<Box<dyn FnOnce() + Send + 'a>>,
}
unsafe fn heap_exec(p: *const ()) {
    let mut j = Box::from_raw(p as *mut HeapJob<'static>);
    (j.f.take().unwrap())();
}

fn spawn_boxed<'a>(f: Box<dyn FnOnce() + Send + 'a>) {
    let Some(id) = rt::me() else {
        f();
        return;
    };
    let mut f = Some(f);
    {
        let _g = Guard::new();
        let r = rt::rt();
        r.stats.joins += 1;
        let c: Vec<usize> = r.idle_worker().into_iter().filter(|&w| w != id).collect();
        let par = r.plan.threads > 1;
        if par && !c.is_empty() && r.choose(S_JOIN, 8, r.plan.steal_ppm.max(r.plan.flip_ppm)) > 0 {
            r.stats.steals += 1;
            let k = r.choose(simrt::S_NEXT, c.len(), 500_000);
            let j = Box::into_raw(Box::new(HeapJob { f: f.take() }));
            rt::assign(c[k], JobRef { data: j as *const (), exec: heap_exec });
        }
    }
    match f {
        Some(f) => f(),
        None => rt::point(),
    }
}

impl<'scope> ScopeBase<'scope> {
    fn new() -> Self {
        ScopeBase {
            pending: AtomicUsize::new(0),
            waiter: rt::me().unwrap_or(usize::MAX),
            panic: Mutex::new(None),
            marker: PhantomData,
        }
    }
    fn spawn_job(&self, f: impl FnOnce() + Send + 'scope) {
        self.pending.fetch_add(1, Ordering::SeqCst);
        struct P(*const ());
        unsafe impl Send for P {}
        let p = P(self as *const _ as *const ());
        spawn_boxed(Box::new(move || {
            let p = p;
            let base = unsafe { &*(p.0 as *const ScopeBase<'scope>) };
            if let Err(e) = run(f) {
                let mut g = base.panic.lock().unwrap();
                if g.is_none() {
                    *g = Some(e);
                }
            }
            base.pending.fetch_sub(1, Ordering::SeqCst);
            if base.waiter != usize::MAX {
                let _g = Guard::new();
                rt::wake_latch(base.waiter);
            }
        }));
    }
    fn complete<R>(&self, r: Result<R, PanicBox>) -> R {
        if let Some(id) = rt::me() {
            let pool = rt::worker_index(id).is_some();
            let _g = Guard::new();
            rt::wait_latch(id, pool, &|| self.pending.load(Ordering::SeqCst) == 0);
        }
        if let Some(p) = self.panic.lock().unwrap().take() {
            resume_unwind(p);
        }
        match r {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        }
    }
}

macro_rules! scope_impl {
    ($T:ident, $spawn:ident, $scope:ident, $in_place:ident, $bc:ident) => {
        impl<'scope> $T<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$T<'scope>) + Send + 'scope,
            {
                struct P(*const ());
                unsafe impl Send for P {}
                let p = P(self as *const _ as *const ());
                self.base.spawn_job(move || {
                    let p = p;
                    body(unsafe { &*(p.0 as *const $T<'scope>) })
                });
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$T<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                let body = Arc::new(body);
                for i in 0..n {
                    let body = body.clone();
                    struct P(*const ());
                    unsafe impl Send for P {}
                    let p = P(self as *const _ as *const ());
                    self.base.spawn_job(move || {
                        let p = p;
                        body(unsafe { &*(p.0 as *const $T<'scope>) }, BroadcastContext::new(i, n))
                    });
                }
            }
        }
        impl<'scope> fmt::Debug for $T<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($T)).finish()
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$T<'scope>) -> R + Send,
            R: Send,
        {
            $in_place(op)
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$T<'scope>) -> R,
        {
            let s = $T { base: ScopeBase::new() };
            let r = run(|| op(&s));
            s.base.complete(r)
        }
    };
}
scope_impl!(Scope, spawn, scope, in_place_scope, b1);
scope_impl!(ScopeFifo, spawn_fifo, scope_fifo, in_place_scope_fifo, b2);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_boxed(Box::new(f));
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_boxed(Box::new(f));
}

// ---- broadcast --------------------------------------------------------------------------------

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn new(index: usize, n: usize) -> Self {
        BroadcastContext { index, n, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|i| op(BroadcastContext::new(i, n))).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let n = current_num_threads();
    (0..n).for_each(|i| op(BroadcastContext::new(i, n)));
}

// ---- yield -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    rt::point();
    current_thread_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    current_thread_index().map(|_| Yield::Idle)
}

// ---- pools -------------------------------------------------------------------------------------

#[derive(Debug)]
pub struct ThreadPoolBuildError(&'static str);
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").finish()
    }
}

#[derive(Debug, Default)]
pub struct DefaultSpawn;

#[derive(Debug)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder { n: 0, _s: PhantomData }
    }
}
static GLOBAL_SET: AtomicBool = AtomicBool::new(false);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if GLOBAL_SET.swap(true, Ordering::SeqCst) {
            return Err(ThreadPoolBuildError("The global thread pool has already been initialized."));
        }
        if self.n > 0 && rt::is_sim_thread() {
            rt::rt().plan.threads = self.n;
        }
        Ok(())
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(PanicBox) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
}

pub struct ThreadPool {
    n: usize,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").field("num_threads", &self.n).finish()
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if !rt::is_sim_thread() {
            return op();
        }
        rt::rt().threads_override.push(self.n);
        let r = run(op);
        rt::rt().threads_override.pop();
        match r {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        }
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        let n = self.n;
        (0..n).map(|i| op(BroadcastContext::new(i, n))).collect()
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
