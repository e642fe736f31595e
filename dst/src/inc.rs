//! One incarnation = one simulated process = one forked OS process.
use serde::{Deserialize, Serialize};
use simrt::disk::{DiskOp, Image};
use simrt::{Fate, Plan, Start, Stats};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    /// the objective was called on `x` (user space rows) and returned `y`
    Eval { x: Vec<Vec<f64>>, y: Vec<Vec<f64>>, disk: usize },
    /// something the callbacks saw that must never happen
    Bad { key: String, msg: String },
    Note(String),
    /// a named group of values
    Vals { name: String, v: Vec<f64>, disk: usize },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    /// `work` returned
    Done,
    Panic,
    Crash,
    Deadlock,
    StepLimit,
    /// killed by a signal / exhausted its CPU budget
    Killed(i32),
    /// wall clock budget exhausted (no verdict)
    Wall,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inc<T> {
    pub end: End,
    pub out: Option<T>,
    pub panic: String,
    pub evs: Vec<Ev>,
    pub log: Vec<DiskOp>,
    pub disk: Image,
    pub call_kinds: Vec<u32>,
    pub injected: Vec<(u64, u32, i32)>,
    pub stats: Stats,
    pub rec: Vec<(u8, u64, u32)>,
    pub fcstr_calls: u64,
    pub points: u64,
}

impl<T> Inc<T> {
    pub fn evals(&self) -> Vec<(Vec<f64>, Vec<f64>)> {
        let mut v = vec![];
        for e in &self.evs {
            if let Ev::Eval { x, y, .. } = e {
                for (a, b) in x.iter().zip(y) {
                    v.push((a.clone(), b.clone()));
                }
            }
        }
        v
    }
    pub fn batches(&self) -> Vec<(usize, usize)> {
        self.evs
            .iter()
            .filter_map(|e| if let Ev::Eval { x, disk, .. } = e { Some((x.len(), *disk)) } else { None })
            .collect()
    }
    pub fn bads(&self) -> Vec<(String, String)> {
        self.evs
            .iter()
            .filter_map(|e| if let Ev::Bad { key, msg } = e { Some((key.clone(), msg.clone())) } else { None })
            .collect()
    }
}

pub struct Collect {
    pub evs: Vec<Ev>,
    pub panic: String,
    pub out: Option<Vec<u8>>,
    pub ended: Option<End>,
    pub fcstr_calls: u64,
    pub bad_seen: Vec<String>,
    fd: i32,
}
pub static COLLECT: Mutex<Collect> = Mutex::new(Collect {
    evs: vec![],
    panic: String::new(),
    out: None,
    ended: None,
    fcstr_calls: 0,
    bad_seen: vec![],
    fd: -1,
});

/// access to the collector from simulated threads (never a scheduling point)
pub fn collect<R>(f: impl FnOnce(&mut Collect) -> R) -> R {
    simrt::outside(|| {
        let mut g = COLLECT.lock().unwrap_or_else(|e| e.into_inner());
        f(&mut g)
    })
}

pub fn disk_len() -> usize {
    if simrt::is_sim_thread() {
        simrt::rt().disk.log.len()
    } else {
        0
    }
}

pub fn ev(e: Ev) {
    collect(|c| c.evs.push(e))
}
pub fn vals(name: &str, v: Vec<f64>) {
    simrt::outside(|| {
        let disk = disk_len();
        collect(|c| c.evs.push(Ev::Vals { name: name.to_string(), v, disk }))
    })
}
/// report at most one event per key
pub fn bad(key: &str, msg: impl FnOnce() -> String) {
    collect(|c| {
        if c.bad_seen.iter().any(|k| k == key) {
            return;
        }
        c.bad_seen.push(key.to_string());
        let m = msg();
        c.evs.push(Ev::Bad { key: key.to_string(), msg: m })
    })
}

struct SimLog;
impl log::Log for SimLog {
    fn enabled(&self, _m: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // the arguments are formatted like the real logger would, the line goes nowhere
        let s = format!("{}", r.args());
        std::hint::black_box(&s);
        drop(s);
        simrt::point();
    }
    fn flush(&self) {}
}
static LOGGER: SimLog = SimLog;

fn die(f: Fate) {
    let r = simrt::rt();
    r.stats.sim_ns = simrt::sim_elapsed();
    let mut c = match COLLECT.lock() {
        Ok(c) => c,
        Err(e) => e.into_inner(),
    };
    let end = match f {
        Fate::Done => c.ended.unwrap_or(End::Done),
        Fate::Crash => End::Crash,
        Fate::Deadlock => End::Deadlock,
        Fate::StepLimit => End::StepLimit,
    };
    let inc: Inc<Vec<u8>> = Inc {
        end,
        out: c.out.take(),
        panic: std::mem::take(&mut c.panic),
        evs: std::mem::take(&mut c.evs),
        log: std::mem::take(&mut r.disk.log),
        disk: r.disk.image(),
        call_kinds: std::mem::take(&mut r.disk.call_kinds),
        injected: std::mem::take(&mut r.disk.injected),
        stats: r.stats.clone(),
        rec: std::mem::take(&mut r.rec),
        fcstr_calls: c.fcstr_calls,
        points: r.points,
    };
    let b = bincode::serde::encode_to_vec(&inc, bincode::config::standard()).unwrap_or_default();
    unsafe {
        let mut off = 0;
        while off < b.len() {
            let n = simrt::interpose::raw(libc::SYS_write, [c.fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0]);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        simrt::interpose::raw(libc::SYS_exit_group, [0; 6]);
    }
}

pub struct Env {
    pub vars: Vec<(String, String)>,
    pub log_level: u8,
}

pub const CPU_LIMIT: u64 = 90;
pub const WALL_LIMIT_MS: i32 = 400_000;

/// number of incarnations run by this process
pub static INCS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn run<T: Serialize + for<'a> Deserialize<'a>>(
    plan: &Plan,
    image: &Image,
    env: &Env,
    work: impl FnOnce() -> T + Send + 'static,
) -> Inc<T> {
    INCS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut fds = [0i32; 2];
    let pid;
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            child(fds[1], plan.clone(), image.clone(), env, work);
        }
        libc::close(fds[1]);
    }
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut buf = vec![];
    let mut chunk = vec![0u8; 1 << 20];
    let t0 = std::time::Instant::now();
    let mut wall = false;
    loop {
        let left = WALL_LIMIT_MS - t0.elapsed().as_millis() as i32;
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let n = if left <= 0 { 0 } else { unsafe { libc::poll(&mut p, 1, left) } };
        if n == 0 {
            wall = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        if n < 0 {
            continue;
        }
        match f.read(&mut chunk) {
            Ok(0) => break,
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
            Err(_) => continue,
        }
    }
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let empty = |end| Inc {
        end,
        out: None,
        panic: String::new(),
        evs: vec![],
        log: vec![],
        disk: image.clone(),
        call_kinds: vec![],
        injected: vec![],
        stats: Stats::default(),
        rec: vec![],
        fcstr_calls: 0,
        points: 0,
    };
    if wall {
        return empty(End::Wall);
    }
    match bincode::serde::decode_from_slice::<Inc<Vec<u8>>, _>(&buf, bincode::config::standard()) {
        Ok((i, _)) => Inc {
            end: i.end,
            out: i.out.and_then(|b| {
                bincode::serde::decode_from_slice::<T, _>(&b, bincode::config::standard()).ok().map(|x| x.0)
            }),
            panic: i.panic,
            evs: i.evs,
            log: i.log,
            disk: i.disk,
            call_kinds: i.call_kinds,
            injected: i.injected,
            stats: i.stats,
            rec: i.rec,
            fcstr_calls: i.fcstr_calls,
            points: i.points,
        },
        Err(_) => {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 1000 + libc::WEXITSTATUS(st) };
            empty(End::Killed(sig))
        }
    }
}

fn child<T: Serialize>(fd: i32, plan: Plan, image: Image, env: &Env, work: impl FnOnce() -> T + Send + 'static) -> ! {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR, 0);
        libc::dup2(null, 0);
        libc::dup2(null, 1);
        let lim = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // signals as in a terminal, whatever the check inherits (a background job ignores SIGINT)
        for s in [libc::SIGINT, libc::SIGQUIT, libc::SIGTERM, libc::SIGHUP, libc::SIGXCPU, libc::SIGUSR1, libc::SIGUSR2] {
            libc::signal(s, libc::SIG_DFL);
        }
        let mut none: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
        libc::umask(0o022);
    }
    // nothing of the environment of the check
    let vars: Vec<_> = std::env::vars_os().map(|(k, _)| k).collect();
    for k in vars {
        std::env::remove_var(k);
    }
    std::env::set_var("TMPDIR", "/simdisk/tmp");
    for (k, v) in &env.vars {
        std::env::set_var(k, v);
    }
    collect(|c| c.fd = fd);
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(match env.log_level {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Info,
        _ => log::LevelFilter::Trace,
    });
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        collect(|c| {
            if c.panic.is_empty() {
                c.panic = format!("{m} at {l}");
            }
        });
    }));
    simrt::run(
        Start { plan, image, die, point_limit: 30_000_000 },
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(work));
            simrt::outside(|| match r {
                Ok(t) => {
                    let b = bincode::serde::encode_to_vec(&t, bincode::config::standard()).unwrap();
                    collect(|c| {
                        c.out = Some(b);
                        c.ended = Some(End::Done);
                    });
                }
                Err(_) => collect(|c| c.ended = Some(End::Panic)),
            });
        }),
    )
}
