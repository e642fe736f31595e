//! In-memory disk with a page cache / durable state distinction.
//!
//! Every state changing call is appended to an op log; a crash state is a pure function
//! of (initial image, op log prefix, crash specification).
use crate::Prng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// path -> None (directory) or Some(content)
pub type Image = BTreeMap<String, Option<Vec<u8>>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DiskOp {
    Mkdir(String),
    Create(String, usize),
    Trunc(usize, u64),
    Write(usize, u64, Vec<u8>),
    Rename(String, String),
    Unlink(String),
    Link(String, String),
    Fsync(usize),
    FsyncDir(String),
    /// application level marker (e.g. number of evaluations so far), no effect on the disk
    Mark(u64),
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: Option<usize>,
    pub path: String,
    pub pos: u64,
    pub read: bool,
    pub write: bool,
    pub append: bool,
}

pub struct Disk {
    pub initial: Image,
    pub dirs: BTreeMap<String, ()>,
    pub files: BTreeMap<String, usize>,
    pub inodes: Vec<Vec<u8>>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub log: Vec<DiskOp>,
    pub calls: u64,
    /// kind of every faultable call, in order
    pub call_kinds: Vec<u32>,
    /// errors really injected
    pub injected: Vec<(u64, u32, i32)>,
    pub n_init_ino: usize,
}

pub const FD_BASE: i32 = 1 << 20;

pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".to_string(),
        Some(i) => p[..i].to_string(),
    }
}

pub fn normalize(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/simdisk/cwd/{p}") };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

/// Whether a path belongs to the simulated disk
pub fn is_sim_path(p: &str) -> bool {
    let n = normalize(p);
    n == "/simdisk" || n.starts_with("/simdisk/")
}

impl Disk {
    pub fn new(image: Image) -> Self {
        let mut d = Disk {
            initial: image.clone(),
            dirs: BTreeMap::new(),
            files: BTreeMap::new(),
            inodes: vec![],
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            log: vec![],
            calls: 0,
            call_kinds: vec![],
            injected: vec![],
            n_init_ino: 0,
        };
        for (p, c) in image {
            match c {
                None => {
                    d.dirs.insert(p, ());
                }
                Some(b) => {
                    d.inodes.push(b);
                    d.files.insert(p, d.inodes.len() - 1);
                }
            }
        }
        d.n_init_ino = d.inodes.len();
        for p in ["/simdisk", "/simdisk/cwd", "/simdisk/tmp"] {
            d.dirs.insert(p.to_string(), ());
        }
        d
    }

    /// Current (page cache) content
    pub fn image(&self) -> Image {
        let mut m = Image::new();
        for p in self.dirs.keys() {
            m.insert(p.clone(), None);
        }
        for (p, i) in &self.files {
            m.insert(p.clone(), Some(self.inodes[*i].clone()));
        }
        m
    }

    pub fn apply(&mut self, op: &DiskOp) {
        match op {
            DiskOp::Mkdir(p) => {
                self.dirs.insert(p.clone(), ());
            }
            DiskOp::Create(p, ino) => {
                while self.inodes.len() <= *ino {
                    self.inodes.push(vec![]);
                }
                self.files.insert(p.clone(), *ino);
            }
            DiskOp::Trunc(ino, len) => self.inodes[*ino].resize(*len as usize, 0),
            DiskOp::Write(ino, off, data) => {
                let f = &mut self.inodes[*ino];
                let end = *off as usize + data.len();
                if f.len() < end {
                    f.resize(end, 0);
                }
                f[*off as usize..end].copy_from_slice(data);
            }
            DiskOp::Rename(a, b) => {
                if let Some(i) = self.files.remove(a) {
                    self.files.insert(b.clone(), i);
                } else if self.dirs.remove(a).is_some() {
                    self.dirs.insert(b.clone(), ());
                    let pre = format!("{a}/");
                    let moved: Vec<String> = self.files.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
                    for m in moved {
                        let i = self.files.remove(&m).unwrap();
                        self.files.insert(format!("{b}/{}", &m[pre.len()..]), i);
                    }
                    let moved: Vec<String> = self.dirs.keys().filter(|k| k.starts_with(&pre)).cloned().collect();
                    for m in moved {
                        self.dirs.remove(&m);
                        self.dirs.insert(format!("{b}/{}", &m[pre.len()..]), ());
                    }
                }
            }
            DiskOp::Link(a, b) => {
                if let Some(i) = self.files.get(a).copied() {
                    self.files.insert(b.clone(), i);
                }
            }
            DiskOp::Unlink(p) => {
                self.files.remove(p);
                self.dirs.remove(p);
            }
            DiskOp::Fsync(_) | DiskOp::FsyncDir(_) | DiskOp::Mark(_) => {}
        }
    }

    pub fn exec(&mut self, op: DiskOp) {
        self.apply(&op);
        self.log.push(op);
    }
}

/// What is left of the disk after the process died after `ops` entries of the log
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CrashSpec {
    /// the process is killed: the page cache survives. `torn` bytes of the next write were done.
    Kill { ops: usize, torn: Option<usize> },
    /// the machine dies: only fsynced data is sure to survive, the rest is decided by `seed`
    Power { ops: usize, seed: u64 },
}

pub fn crash_image(initial: &Image, log: &[DiskOp], spec: &CrashSpec) -> Image {
    match spec {
        CrashSpec::Kill { ops, torn } => {
            let mut d = Disk::new(initial.clone());
            for op in &log[..(*ops).min(log.len())] {
                d.apply(op);
            }
            if let (Some(t), Some(DiskOp::Write(ino, off, data))) = (torn, log.get(*ops)) {
                let n = (*t).min(data.len());
                d.apply(&DiskOp::Write(*ino, *off, data[..n].to_vec()));
            }
            d.image()
        }
        CrashSpec::Power { ops, seed } => power_image(initial, &log[..(*ops).min(log.len())], *seed),
    }
}

/// Model of a journaling file system without data journaling: metadata operations reach the
/// disk in order, an unknown prefix of those issued after the last fsync survives; data of a
/// file that was not fsynced may be complete, truncated at any byte, or zeroed.
fn power_image(initial: &Image, ops: &[DiskOp], seed: u64) -> Image {
    let mut rng = Prng::new(seed);
    let mut vol = Disk::new(initial.clone());
    // durable content per inode (None: never synced)
    let mut durable: BTreeMap<usize, Vec<u8>> =
        (0..vol.inodes.len()).map(|i| (i, vol.inodes[i].clone())).collect();
    let mut meta: Vec<DiskOp> = vec![];
    let mut committed = 0usize;
    for op in ops {
        match op {
            DiskOp::Mkdir(_) | DiskOp::Create(..) | DiskOp::Rename(..) | DiskOp::Unlink(_) | DiskOp::Link(..) => {
                meta.push(op.clone());
            }
            DiskOp::Fsync(i) => {
                durable.insert(*i, vol.inodes[*i].clone());
                committed = meta.len();
            }
            DiskOp::FsyncDir(_) => committed = meta.len(),
            _ => {}
        }
        vol.apply(op);
    }
    let upto = committed + rng.below((meta.len() - committed) as u64 + 1) as usize;
    let mut d = Disk::new(initial.clone());
    for op in &meta[..upto] {
        d.apply(op);
    }
    for i in 0..d.inodes.len() {
        let full = vol.inodes[i].clone();
        let dur = durable.get(&i).cloned();
        let c = if dur.as_ref() == Some(&full) {
            full
        } else {
            match rng.below(5) {
                0 => full,
                1 => dur.unwrap_or_default(),
                2 => vec![],
                3 => {
                    let n = rng.below(full.len() as u64 + 1) as usize;
                    full[..n].to_vec()
                }
                _ => {
                    let n = rng.below(full.len() as u64 + 1) as usize;
                    let mut v = full.clone();
                    for b in &mut v[n..] {
                        *b = 0;
                    }
                    v
                }
            }
        };
        d.inodes[i] = c;
    }
    d.image()
}
