//! The simulated disk: an in-memory file system with a page cache, a durable image and a fault
//! engine. Every file system call the database makes lands here (see hooks.rs).
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PAGE: usize = 4096;
pub const SECTOR: usize = 512;
pub const ROOT: &str = "/dev/null/sim";

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOENT: i32 = 2;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;

pub type PageBox = Rc<[u8; PAGE]>;
pub type PageMap = BTreeMap<u64, PageBox>;

#[derive(Clone, Default)]
pub struct Inode {
    pub pages: PageMap,
    pub len: u64,
    /// what survives a power loss for sure
    pub dpages: PageMap,
    pub dlen: u64,
    /// pages that differ (or may differ) between `pages` and `dpages`
    pub dirty: BTreeSet<u64>,
    /// size established by an un-synced ftruncate extension (journaled apart from the data)
    pub trunc_len: u64,
    /// directory entry durable
    pub entry_durable: bool,
    /// number of content or length changes so far
    pub chg: u64,
    /// (start, length) of a stretch of zeros that stands for gigabytes of other data
    pub hole: Option<(u64, u64)>,
}

fn is_zero(b: &[u8]) -> bool {
    b.iter().all(|&x| x == 0)
}

impl Inode {
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = buf.len().min((self.len - off) as usize);
        let mut done = 0;
        while done < n {
            let p = (off + done as u64) / PAGE as u64;
            let st = ((off + done as u64) % PAGE as u64) as usize;
            let m = (PAGE - st).min(n - done);
            match self.pages.get(&p) {
                Some(pg) => buf[done..done + m].copy_from_slice(&pg[st..st + m]),
                None => buf[done..done + m].fill(0),
            }
            done += m;
        }
        n
    }
    pub fn write_at(&mut self, off: u64, data: &[u8]) {
        let mut changed = false;
        let mut done = 0;
        while done < data.len() {
            let p = (off + done as u64) / PAGE as u64;
            let st = ((off + done as u64) % PAGE as u64) as usize;
            let m = (PAGE - st).min(data.len() - done);
            let src = &data[done..done + m];
            match self.pages.get_mut(&p) {
                Some(pg) => {
                    if &pg[st..st + m] != src {
                        Rc::make_mut(pg)[st..st + m].copy_from_slice(src);
                        self.dirty.insert(p);
                        changed = true;
                    }
                }
                None => {
                    if !is_zero(src) {
                        let mut pg = [0u8; PAGE];
                        pg[st..st + m].copy_from_slice(src);
                        self.pages.insert(p, Rc::new(pg));
                        self.dirty.insert(p);
                        changed = true;
                    }
                }
            }
            done += m;
        }
        let end = off + data.len() as u64;
        if end > self.len {
            self.len = end;
            changed = true;
        }
        if changed {
            self.chg += 1;
        }
    }
    pub fn set_len(&mut self, len: u64) {
        if len == self.len {
            return;
        }
        if len < self.len {
            // drop pages past the end, zero the tail of the last one
            let first_gone = len.div_ceil(PAGE as u64);
            let gone: Vec<u64> = self.pages.range(first_gone..).map(|(k, _)| *k).collect();
            for p in gone {
                self.pages.remove(&p);
                self.dirty.insert(p);
            }
            if len % PAGE as u64 != 0 {
                let p = len / PAGE as u64;
                if let Some(pg) = self.pages.get_mut(&p) {
                    Rc::make_mut(pg)[(len % PAGE as u64) as usize..].fill(0);
                    self.dirty.insert(p);
                }
            }
            self.trunc_len = self.trunc_len.min(len);
        } else {
            self.trunc_len = len;
        }
        self.len = len;
        self.chg += 1;
        self.keep_hole();
    }
    fn keep_hole(&mut self) {
        if self.hole.map_or(false, |(s, n)| s + n > self.len) {
            self.hole = None;
        }
    }
    /// the file is as if it had held much more data already: what comes next lies beyond it
    fn stretch(&mut self, by: u64) {
        self.sync();
        self.hole = Some((self.len, by));
        self.len += by;
        self.dlen = self.len;
        self.chg += 1;
    }
    pub fn sync(&mut self) {
        for p in std::mem::take(&mut self.dirty) {
            match self.pages.get(&p) {
                Some(pg) => {
                    self.dpages.insert(p, pg.clone());
                }
                None => {
                    self.dpages.remove(&p);
                }
            }
        }
        self.dlen = self.len;
        self.trunc_len = 0;
        self.entry_durable = true;
    }
    /// background write-back: some dirty pages below the durable length become durable
    fn writeback(&mut self, rng: &mut Rng) -> u64 {
        let mut n = 0;
        let pages: Vec<u64> = self.dirty.iter().copied().collect();
        for p in pages {
            if (p + 1) * PAGE as u64 <= self.dlen && rng.chance(1, 2) {
                match self.pages.get(&p) {
                    Some(pg) => {
                        self.dpages.insert(p, pg.clone());
                    }
                    None => {
                        self.dpages.remove(&p);
                    }
                }
                self.dirty.remove(&p);
                n += 1;
            }
        }
        n
    }
    /// the state after a power loss: an arbitrary mixture of durable and un-synced pages, torn at
    /// sector granularity; the file size moves with its data (ordered mode), an ftruncate
    /// extension is journaled on its own.
    fn power_loss(&mut self, rng: &mut Rng, st: &mut PlStats) {
        let mut img = self.dpages.clone();
        let mut len = self.dlen;
        if self.len < self.dlen {
            // un-synced shrink: either happened or not
            if rng.chance(1, 2) {
                len = self.len;
                img = self.pages.clone();
                for p in self.dirty.iter() {
                    if rng.chance(1, 3) {
                        // keep the old page if it is still inside the file
                        if (p + 1) * PAGE as u64 <= len {
                            match self.dpages.get(p) {
                                Some(pg) => img.insert(*p, pg.clone()),
                                None => img.remove(p),
                            };
                            st.lost += 1;
                        }
                    }
                }
            }
        } else {
            let mut base = self.dlen;
            if self.trunc_len > base && rng.chance(2, 3) {
                base = self.trunc_len.min(self.len);
            }
            len = base;
            let append_ok = base >= self.trunc_len.min(self.len);
            if append_ok && self.len > base {
                // data appended past `base` by writes
                len = match rng.below(3) {
                    0 => base,
                    1 => self.len,
                    _ => {
                        let pgs = (self.len - base).div_ceil(PAGE as u64);
                        (base + rng.range(0, pgs) * PAGE as u64).min(self.len)
                    }
                };
            }
            for p in self.dirty.iter() {
                let start = p * PAGE as u64;
                if start >= len {
                    st.lost += 1;
                    continue;
                }
                let cur = self.pages.get(p);
                let old = self.dpages.get(p);
                let appended = start + PAGE as u64 > base;
                let mut out = [0u8; PAGE];
                if appended && start >= base {
                    // size was extended over this page, so its data is there
                    if let Some(c) = cur {
                        out.copy_from_slice(&c[..]);
                    }
                    st.kept += 1;
                } else {
                    match rng.below(3) {
                        0 => {
                            if let Some(o) = old {
                                out.copy_from_slice(&o[..]);
                            }
                            st.lost += 1;
                        }
                        1 => {
                            if let Some(c) = cur {
                                out.copy_from_slice(&c[..]);
                            }
                            st.kept += 1;
                        }
                        _ => {
                            for s in 0..PAGE / SECTOR {
                                let r = s * SECTOR..(s + 1) * SECTOR;
                                let src = if rng.chance(1, 2) { cur } else { old };
                                if let Some(c) = src {
                                    out[r.clone()].copy_from_slice(&c[r]);
                                }
                            }
                            st.torn += 1;
                        }
                    }
                    // bytes of this page past the old end came with the size change
                    if appended && len > base {
                        let b = (base - start) as usize;
                        if let Some(c) = cur {
                            out[b..].copy_from_slice(&c[b..]);
                        }
                    }
                }
                if start + PAGE as u64 > len {
                    out[(len - start) as usize..].fill(0);
                }
                if is_zero(&out) {
                    img.remove(p);
                } else {
                    img.insert(*p, Rc::new(out));
                }
            }
        }
        self.pages = img.clone();
        self.dpages = img;
        self.len = len;
        self.dlen = len;
        self.dirty.clear();
        self.trunc_len = 0;
        self.entry_durable = true;
        self.chg += 1;
        self.keep_hole();
    }
}

#[derive(Default, Clone, Copy)]
pub struct PlStats {
    pub lost: u64,
    pub kept: u64,
    pub torn: u64,
    pub files_gone: u64,
}

#[derive(Clone)]
pub enum Node {
    Dir { durable: bool },
    File(usize),
}

#[derive(Clone, Default)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub tree: BTreeMap<String, Node>,
}

impl Disk {
    pub fn new() -> Self {
        let mut tree = BTreeMap::new();
        tree.insert(ROOT.to_string(), Node::Dir { durable: true });
        Self {
            inodes: vec![],
            tree,
        }
    }
    pub fn file(&self, path: &str) -> Option<&Inode> {
        match self.tree.get(path) {
            Some(Node::File(i)) => Some(&self.inodes[*i]),
            _ => None,
        }
    }
    pub fn file_mut(&mut self, path: &str) -> Option<&mut Inode> {
        match self.tree.get(path) {
            Some(Node::File(i)) => Some(&mut self.inodes[*i]),
            _ => None,
        }
    }
    pub fn files(&self) -> Vec<(String, usize)> {
        self.tree
            .iter()
            .filter_map(|(p, n)| match n {
                Node::File(i) => Some((p.clone(), *i)),
                _ => None,
            })
            .collect()
    }
    /// contents of a regular file, without its hole
    pub fn slurp(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.file(path)?;
        let (at, by) = i.hole.unwrap_or((i.len, 0));
        let mut v = vec![0u8; (i.len - by) as usize];
        let (a, b) = v.split_at_mut(at as usize);
        i.read_at(0, a);
        i.read_at(at + by, b);
        Some(v)
    }
    pub fn hole(&self, path: &str) -> Option<(u64, u64)> {
        self.file(path)?.hole
    }
    /// see `Inode::stretch`; once per file
    pub fn stretch(&mut self, path: &str, by: u64) -> bool {
        match self.tree.get(path) {
            Some(Node::File(i)) if self.inodes[*i].hole.is_none() => {
                self.inodes[*i].stretch(by);
                true
            }
            _ => false,
        }
    }
    pub fn remove_prefix(&mut self, prefix: &str) {
        let gone: Vec<String> = self
            .tree
            .iter()
            .filter(|(p, n)| {
                // `m.` must not cover the files of a map called `m.key`
                p.strip_prefix(prefix).map_or(false, |r| !r.contains('.')) && matches!(n, Node::File(_))
            })
            .map(|(p, _)| p.clone())
            .collect();
        for g in gone {
            self.tree.remove(&g);
        }
    }
    pub fn power_loss(&mut self, seed: u64) -> PlStats {
        let mut rng = Rng::new(seed);
        let mut st = PlStats::default();
        let names: Vec<(String, usize)> = self.files();
        for (name, i) in names {
            if !self.inodes[i].entry_durable && rng.chance(1, 3) {
                self.tree.remove(&name);
                st.files_gone += 1;
                continue;
            }
            self.inodes[i].power_loss(&mut rng, &mut st);
        }
        // directories that hold nothing durable may vanish
        let dirs: Vec<String> = self
            .tree
            .iter()
            .filter(|(_, n)| matches!(n, Node::Dir { durable: false }))
            .map(|(p, _)| p.clone())
            .collect();
        for d in dirs.into_iter().rev() {
            let pre = format!("{}/", d);
            let used = self.tree.keys().any(|k| k.starts_with(&pre));
            if !used && rng.chance(1, 2) {
                self.tree.remove(&d);
            }
        }
        for n in self.tree.values_mut() {
            if let Node::Dir { durable } = n {
                *durable = true;
            }
        }
        st
    }
    /// order- and representation-independent digest of everything on the disk
    pub fn digest(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut feed = |b: &[u8]| {
            for &x in b {
                h ^= x as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        for (p, n) in &self.tree {
            feed(p.as_bytes());
            if let Node::File(i) = n {
                let ino = &self.inodes[*i];
                feed(&ino.len.to_le_bytes());
                for (k, pg) in &ino.pages {
                    if !is_zero(&pg[..]) {
                        feed(&k.to_le_bytes());
                        feed(&pg[..]);
                    }
                }
            }
        }
        h
    }
}

/// system call classes, as a bit mask
pub const C_READ: u8 = 1;
pub const C_WRITE: u8 = 2;
pub const C_SYNC: u8 = 4;
pub const C_TRUNC: u8 = 8;
pub const C_OPEN: u8 = 16;
pub const C_ANY: u8 = 31;
pub const CLASS_NAMES: [&str; 5] = ["read", "write", "fsync", "ftruncate", "open"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultKind {
    /// EIO once
    Eio,
    /// ENOSPC once
    Enospc,
    /// interrupted system call, to be retried
    Eintr,
    /// transfer only this many permille of the request (at least one byte)
    Short(u32),
    /// too many open files
    Emfile,
    /// permission denied
    Eacces,
    /// every later call of the class fails with EIO until healed
    Stuck,
    /// every later call of the class fails with ENOSPC until healed
    Full,
    /// the process dies before this call
    Kill,
    /// background write-back of some dirty pages
    Wb(u64),
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Eio => "eio",
            FaultKind::Enospc => "enospc",
            FaultKind::Eintr => "eintr",
            FaultKind::Short(_) => "short",
            FaultKind::Emfile => "emfile",
            FaultKind::Eacces => "eacces",
            FaultKind::Stuck => "stuck",
            FaultKind::Full => "full",
            FaultKind::Kill => "kill",
            FaultKind::Wb(_) => "wb",
        }
    }
    /// does the caller have to see this as a failure?
    pub fn hard(&self) -> bool {
        matches!(
            self,
            FaultKind::Eio
                | FaultKind::Enospc
                | FaultKind::Emfile
                | FaultKind::Eacces
                | FaultKind::Stuck
                | FaultKind::Full
        )
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fault {
    pub kind: FaultKind,
    pub class: u8,
    /// fires on the at-th call (0-based) of its class within the operation
    pub at: u32,
}

pub struct Ofd {
    pub inode: usize,
    pub pos: u64,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
}

pub struct Planned {
    pub f: Fault,
    pub seen: u32,
    pub fired: bool,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub calls: BTreeMap<&'static str, u64>,
    pub fired: BTreeMap<String, u64>,
    pub planned: u64,
    pub sim_ns: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub pl: PlStats,
    pub crashes_kill: u64,
    pub crashes_power: u64,
    pub crashes_mid_op: u64,
}

pub struct World {
    pub disk: Disk,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: BTreeMap<usize, Ofd>,
    pub next_fd: i32,
    pub dir_fds: BTreeMap<i32, String>,
    pub next_ofd: usize,
    pub plan: Vec<Planned>,
    pub sticky: Vec<(u8, i32)>,
    /// snapshot taken by a Kill fault
    pub crash: Option<Disk>,
    pub crash_call: u64,
    /// calls made since the beginning of the current operation
    pub op_calls: u64,
    pub op_class_calls: [u32; 5],
    /// hard faults that fired during the current operation
    pub op_hard: u32,
    pub op_soft: u32,
    pub total_calls: u64,
    pub c: Counters,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    /// refuse more than this many calls in one operation (runaway loop guard)
    /// partial writes end at sector boundaries
    pub sector_shorts: bool,
    pub call_limit: u64,
    pub unsupported: Option<String>,
    pub runaway: bool,
}

pub enum Dec {
    Go,
    Err(i32),
    Short(usize),
}

impl World {
    pub fn new() -> Self {
        Self {
            disk: Disk::new(),
            fds: BTreeMap::new(),
            ofds: BTreeMap::new(),
            next_fd: crate::hooks::FD_BASE,
            dir_fds: BTreeMap::new(),
            next_ofd: 0,
            plan: vec![],
            sticky: vec![],
            crash: None,
            crash_call: 0,
            op_calls: 0,
            op_class_calls: [0; 5],
            op_hard: 0,
            op_soft: 0,
            total_calls: 0,
            c: Counters::default(),
            trace: 0xcbf29ce484222325,
            log: None,
            call_limit: 2_000_000,
            sector_shorts: false,
            unsupported: None,
            runaway: false,
        }
    }
    pub fn begin_op(&mut self, faults: &[Fault]) {
        self.plan = faults
            .iter()
            .map(|f| Planned {
                f: *f,
                seen: 0,
                fired: false,
            })
            .collect();
        self.c.planned += faults.len() as u64;
        self.op_calls = 0;
        self.op_class_calls = [0; 5];
        self.op_hard = 0;
        self.op_soft = 0;
    }
    pub fn heal(&mut self) {
        self.sticky.clear();
    }
    fn fire(&mut self, kind: FaultKind, class: u8) {
        let name = format!("{}:{}", kind.name(), class_name(class));
        *self.c.fired.entry(name).or_insert(0) += 1;
        if kind.hard() {
            self.op_hard += 1;
        } else {
            self.op_soft += 1;
        }
        if let Some(l) = &mut self.log {
            l.push(format!("  FAULT {} on {}", kind.name(), class_name(class)));
        }
    }
    /// decide what happens to a system call of this class that wants to transfer `want` bytes
    pub fn decide(&mut self, class: u8, what: &'static str, arg: u64, want: usize) -> Dec {
        self.op_calls += 1;
        self.total_calls += 1;
        let ci = class.trailing_zeros() as usize;
        self.op_class_calls[ci] += 1;
        *self.c.calls.entry(what).or_insert(0) += 1;
        self.c.sim_ns += match class {
            C_READ => 80_000 + want as u64 * 2,
            C_WRITE => 30_000 + want as u64 * 2,
            C_SYNC => 4_000_000,
            C_TRUNC => 60_000,
            _ => 50_000,
        };
        let mut t = self.trace;
        for x in [class as u64, arg, want as u64] {
            t ^= x;
            t = t.wrapping_mul(0x100000001b3);
            t ^= t >> 29;
        }
        self.trace = t;
        if let Some(l) = &mut self.log {
            l.push(format!("  {} arg={} want={}", what, arg, want));
        }
        if self.op_calls > self.call_limit {
            self.runaway = true;
            return Dec::Err(EIO);
        }
        let mut res = Dec::Go;
        for i in 0..self.plan.len() {
            if self.plan[i].fired || self.plan[i].f.class & class == 0 {
                continue;
            }
            let seen = self.plan[i].seen;
            self.plan[i].seen += 1;
            if seen != self.plan[i].f.at {
                continue;
            }
            let kind = self.plan[i].f.kind;
            match kind {
                FaultKind::Kill => {
                    if self.crash.is_none() {
                        self.plan[i].fired = true;
                        self.crash = Some(self.disk.clone());
                        self.crash_call = self.op_calls;
                        self.fire(kind, class);
                    }
                }
                FaultKind::Wb(seed) => {
                    self.plan[i].fired = true;
                    let mut rng = Rng::new(seed);
                    let mut n = 0;
                    for ino in self.disk.inodes.iter_mut() {
                        n += ino.writeback(&mut rng);
                    }
                    if n > 0 {
                        self.fire(kind, class);
                    }
                }
                _ => {
                    if !matches!(res, Dec::Go) {
                        // one failure per call; try again on the next one
                        self.plan[i].seen -= 1;
                        continue;
                    }
                    if matches!(kind, FaultKind::Eintr)
                        && matches!(what, "mkdir" | "unlink" | "rename" | "link" | "readdir" | "background")
                    {
                        // these calls are never interrupted; hit the next one that can be
                        self.plan[i].seen -= 1;
                        continue;
                    }
                    let r = match kind {
                        FaultKind::Eio => Some(Dec::Err(EIO)),
                        FaultKind::Enospc => Some(Dec::Err(ENOSPC)),
                        FaultKind::Eintr => Some(Dec::Err(EINTR)),
                        FaultKind::Emfile => Some(Dec::Err(EMFILE)),
                        FaultKind::Eacces => Some(Dec::Err(EACCES)),
                        FaultKind::Stuck => {
                            self.sticky.push((self.plan[i].f.class, EIO));
                            Some(Dec::Err(EIO))
                        }
                        FaultKind::Full => {
                            self.sticky.push((self.plan[i].f.class, ENOSPC));
                            Some(Dec::Err(ENOSPC))
                        }
                        FaultKind::Short(pm) => {
                            if want >= 2 && class & (C_READ | C_WRITE) != 0 {
                                let n = ((want as u64 * pm as u64) / 1000).max(1) as usize;
                                Some(Dec::Short(n.min(want - 1)))
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    if let Some(r) = r {
                        self.plan[i].fired = true;
                        self.fire(kind, class);
                        res = r;
                    }
                }
            }
        }
        if matches!(res, Dec::Go) {
            if let Some(e) = self.sticky.iter().find(|s| s.0 & class != 0).map(|s| s.1) {
                self.fire(
                    if e == EIO {
                        FaultKind::Stuck
                    } else {
                        FaultKind::Full
                    },
                    class,
                );
                res = Dec::Err(e);
            }
        }
        res
    }
}

pub fn class_name(c: u8) -> &'static str {
    if c.count_ones() == 1 {
        CLASS_NAMES[c.trailing_zeros() as usize]
    } else {
        "any"
    }
}
