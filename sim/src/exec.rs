//! Executes a program against the real database on the simulated disk, next to a small reference
//! model, and judges every answer.
use crate::audit;
use crate::disk::*;
use crate::hooks::*;
use crate::maps::*;
use crate::prog::*;
use siamesedb::filedb::{DbBytes, DbInt, DbString, FileBufSizeParam, FileDb, FileDbParams};
use siamesedb::HashValue;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Result as IoResult;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Content = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug)]
pub struct Violation {
    /// empty: concerns every property whose workload meets it
    pub tags: Vec<&'static str>,
    /// properties this deviation is evidence against in any case
    pub also: Vec<&'static str>,
    pub kind: String,
    pub msg: String,
    pub op: usize,
}

pub const BASIC: &[&str] = &[];
const FAULT_PROPS: &[&str] = &["F01", "F02", "F03", "F05", "F06"];

#[derive(Default, Clone)]
pub struct RunStats {
    pub ops: u64,
    pub oracle: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub result_hash: u64,
    pub nontrivial: bool,
    pub skipped: u64,
    /// deviations that speak about other properties than the one under test
    pub aside: u64,
    pub aside_msg: Option<String>,
}
impl RunStats {
    fn hit(&mut self, o: &'static str) {
        *self.oracle.entry(o).or_insert(0) += 1;
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    fn label(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        }
    }
}

struct MapSt {
    spec: MapSpec,
    content: Content,
    created: bool,
    /// the files show `content` after the process is killed
    k: bool,
    /// the files show `content` after a power loss
    p: bool,
    /// nothing at all is waiting in memory
    settled: bool,
    tainted: bool,
    /// the FileDb holds it open
    in_db: bool,
    handles: Vec<Box<dyn AnyMap>>,
    mem: Option<MemMap>,
    /// file sizes at the last look, and how often each file has grown since the mark
    marks: BTreeMap<u8, ([u64; 4], [u32; 4])>,
    fresh_fail: bool,
    /// since a complete read gave the right answers, the map was not changed, and this happened
    since: Option<Since>,
}

/// what happened since a map was last found right
#[derive(Clone, Copy, Default)]
struct Since {
    reopened: bool,
    others: bool,
    others_failed: bool,
    read_failed: bool,
    save_failed: bool,
    open_failed: bool,
}
impl MapSt {
    fn open(&self) -> bool {
        self.in_db || !self.handles.is_empty()
    }
}

/// the map of an in-memory database, through several handles in turn
struct MemMap {
    db: &'static siamesedb::memdb::MemoryDb<'static>,
    kt: Kt,
    name: String,
    handles: Vec<Box<dyn AnyMap>>,
    turn: usize,
}
impl MemMap {
    fn new(db: &'static siamesedb::memdb::MemoryDb<'static>, kt: Kt, name: &str) -> Self {
        let mut m = MemMap { db, kt, name: name.to_string(), handles: vec![], turn: 0 };
        m.again();
        m
    }
    /// ask the database for the map
    fn again(&mut self) {
        let b: Box<dyn AnyMap> = match self.kt {
            Kt::S => Box::new(MS(self.db.db_map_string(&self.name))),
            Kt::I => Box::new(MI(self.db.db_map_dbint(&self.name))),
            Kt::B => Box::new(MB(self.db.db_map_bytes(&self.name))),
        };
        self.handles.push(b);
        if self.handles.len() > 3 {
            self.handles.remove(0);
        }
    }
    fn dup(&mut self) {
        let b = self.handles[0].dup();
        self.handles.push(b);
        if self.handles.len() > 3 {
            self.handles.remove(0);
        }
    }
    fn h(&mut self) -> &mut Box<dyn AnyMap> {
        self.turn += 1;
        let i = self.turn % self.handles.len();
        &mut self.handles[i]
    }
}

#[derive(Clone)]
struct Expect {
    content: Content,
    tags: Vec<&'static str>,
    why: String,
}

pub struct Exec<'a> {
    prog: &'a Prog,
    keyb: [Vec<Vec<u8>>; 3],
    dbs: Vec<Option<FileDb>>,
    maps: Vec<MapSt>,
    pub st: RunStats,
    cur: usize,
    override_params: Option<Params>,
    pub log: bool,
    /// system calls per operation and class
    pub calls: Vec<[u32; 5]>,
    pub post: Post,
    /// the property under test
    pub focus: &'static str,
}

/// after an answer was wrong: what else to look at before giving up
#[derive(Clone, Copy, PartialEq)]
pub enum Post {
    Nothing,
    Structure,
    Files,
    Iterate,
}

pub fn hash_of(kt: Kt, k: &[u8]) -> u64 {
    match kt {
        Kt::S => DbString::from(k).hash_value(),
        Kt::I => DbInt::from(k).hash_value(),
        Kt::B => DbBytes::from(k).hash_value(),
    }
}

fn fparam(b: &Buf) -> FileBufSizeParam {
    match b {
        Buf::Auto => FileBufSizeParam::Auto,
        Buf::PerMille(x) => FileBufSizeParam::PerMille(*x),
        Buf::Size(x) => FileBufSizeParam::Size(x * crate::CHUNK),
        Buf::Bytes(x) => FileBufSizeParam::Size(*x),
    }
}

pub fn db_dir(d: usize) -> String {
    format!("{}/root{}/db{}.siamesedb", ROOT, d, d)
}

type VRes = std::result::Result<(), Violation>;

fn open_map(db: &FileDb, spec: &MapSpec, kt: Kt, p: &Params) -> IoResult<Box<dyn AnyMap>> {
    let par = FileDbParams {
        val_buf_size: fparam(&p.val),
        key_buf_size: fparam(&p.key),
        idx_buf_size: fparam(&p.idx),
        htx_buf_size: fparam(&p.htx),
    };
    Ok(match (kt, p.default) {
        (Kt::S, true) => Box::new(FS(db.db_map_string(&spec.name)?)),
        (Kt::I, true) => Box::new(FI(db.db_map_int(&spec.name)?)),
        (Kt::B, true) => Box::new(FB(db.db_map_bytes(&spec.name)?)),
        (Kt::S, false) => Box::new(FS(db.db_map_string_with_params(&spec.name, par)?)),
        (Kt::I, false) => Box::new(FI(db.db_map_int_with_params(&spec.name, par)?)),
        (Kt::B, false) => Box::new(FB(db.db_map_bytes_with_params(&spec.name, par)?)),
    })
}

fn show(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "absent".into(),
        Some(b) => format!("{} bytes {:?}", b.len(), audit::short(b)),
    }
}

/// all reads of a map against its expected content
fn verify_map(h: &mut dyn AnyMap, content: &Content, keys: &[Vec<u8>]) -> std::result::Result<(), String> {
    for k in keys {
        let g = h.get(k, false).map_err(|e| format!("get {:?}: error {}", audit::short(k), e))?;
        if g.as_ref() != content.get(k) {
            return Err(format!(
                "get {:?} gave {}, expected {}",
                audit::short(k),
                show(&g),
                show(&content.get(k).cloned())
            ));
        }
    }
    cmp_iter(&h.iter(0, 0), content, 0)
}
fn cmp_iter(got: &[Kv], content: &Content, n: u32) -> std::result::Result<(), String> {
    let want: Vec<_> = if n == 0 {
        content.iter().collect()
    } else {
        content.iter().take(n as usize).collect()
    };
    for (i, (k, v)) in want.iter().enumerate() {
        match got.get(i) {
            None => {
                return Err(format!(
                    "iteration ended after {} of {} entries, next expected {:?}",
                    i,
                    want.len(),
                    audit::short(k)
                ))
            }
            Some((gk, gv)) => {
                if gk != *k || gv != *v {
                    return Err(format!(
                        "iteration position {}: got {:?} = {}, expected {:?} = {}",
                        i,
                        audit::short(gk),
                        show(&Some(gv.clone())),
                        audit::short(k),
                        show(&Some((*v).clone()))
                    ));
                }
            }
        }
    }
    if got.len() > want.len() {
        return Err(format!(
            "iteration gave {} entries instead of {}, extra {:?}",
            got.len(),
            want.len(),
            audit::short(&got[want.len()].0)
        ));
    }
    Ok(())
}

impl<'a> Exec<'a> {
    pub fn new(prog: &'a Prog, override_params: Option<Params>) -> Self {
        let used = prog.used_keys();
        let mut keyb: [Vec<Vec<u8>>; 3] = Default::default();
        for kt in [Kt::S, Kt::I, Kt::B] {
            keyb[kt.ix()] = prog.keys[kt.ix()]
                .iter()
                .enumerate()
                .map(|(i, k)| if used.contains(&(kt, i)) { k.bytes() } else { vec![] })
                .collect();
        }
        let memdb: Vec<&'static siamesedb::memdb::MemoryDb<'static>> = if prog.mem {
            (0..prog.dbs).map(|_| &*Box::leak(Box::new(siamesedb::open_memory()))).collect()
        } else {
            vec![]
        };
        let maps = prog
            .maps
            .iter()
            .enumerate()
            .map(|(i, s)| MapSt {
                spec: s.clone(),
                content: Content::new(),
                created: false,
                k: true,
                p: true,
                settled: false,
                tainted: false,
                in_db: false,
                handles: vec![],
                mem: memdb.get(s.db).map(|m| {
                    // maps of different types may share a name in memory
                    let nth = prog.maps[..i].iter().filter(|x| x.db == s.db && x.kt == s.kt).count();
                    let name = prog.maps.iter().filter(|x| x.db == s.db).nth(nth).map(|x| x.name.as_str()).unwrap_or("");
                    MemMap::new(m, s.kt, name)
                }),
                marks: BTreeMap::new(),
                fresh_fail: false,
                since: None,
            })
            .collect();
        Exec {
            prog,
            keyb,
            dbs: (0..prog.dbs).map(|_| None).collect(),
            maps,
            st: RunStats::default(),
            cur: 0,
            override_params,
            log: false,
            calls: vec![[0; 5]; prog.ops.len()],
            post: Post::Nothing,
            focus: "",
        }
    }
    fn v(&self, tags: &[&'static str], kind: &str, msg: String) -> Violation {
        Violation {
            tags: tags.to_vec(),
            also: vec![],
            kind: kind.to_string(),
            msg: format!(
                "{} [op {}: {}]",
                msg,
                self.cur,
                self.prog.ops.get(self.cur).map(|o| o.text()).unwrap_or_default()
            ),
            op: self.cur,
        }
    }
    fn key(&self, m: usize, k: usize) -> Vec<u8> {
        let kt = self.maps[m].spec.kt;
        let b = self.keyb[kt.ix()].get(k).cloned().unwrap_or_default();
        if kt == Kt::I {
            let mut x = [0u8; 8];
            let n = b.len().min(8);
            x[..n].copy_from_slice(&b[..n]);
            return x.to_vec();
        }
        b
    }
    fn all_keys(&self, m: usize) -> Vec<Vec<u8>> {
        let kt = self.maps[m].spec.kt;
        let used = self.prog.used_keys();
        let mut s: BTreeSet<Vec<u8>> = self.maps[m].content.keys().cloned().collect();
        if self.prog.nomiss {
            return s.into_iter().collect();
        }
        for (t, i) in used {
            if t == kt {
                s.insert(self.key(m, i));
            }
        }
        s.into_iter().collect()
    }
    fn base(&self, m: usize) -> String {
        format!("{}/{}", db_dir(self.maps[m].spec.db), self.maps[m].spec.name)
    }
    fn res(&mut self, x: u64) {
        self.st.result_hash = crate::rng::mix(self.st.result_hash ^ x, self.cur as u64);
    }
    fn res_bytes(&mut self, b: &Option<Vec<u8>>) {
        let mut h = 7u64;
        if let Some(b) = b {
            h = 11;
            for x in b {
                h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
        self.res(h);
    }

    /// run one call of the real code under the faults of the operation
    fn call<T>(&mut self, faults: &[Fault], f: impl FnOnce() -> IoResult<T>) -> Out<T> {
        world().begin_op(faults);
        let r = catch_unwind(AssertUnwindSafe(f));
        let w = world();
        w.plan.clear();
        match r {
            Ok(Ok(x)) => Out::Ok(x),
            Ok(Err(e)) => Out::Err(e.to_string()),
            Err(_) => Out::Panic(last_panic()),
        }
    }
    fn hard(&self) -> bool {
        world().op_hard > 0
    }
    /// common judgement of an outcome that is not Ok
    fn not_ok<T>(&self, o: &Out<T>, what: &str, iterator: bool) -> VRes {
        match o {
            Out::Ok(_) => Ok(()),
            Out::Err(e) => {
                if self.hard() {
                    Ok(())
                } else {
                    Err(self.v(BASIC, "spurious-error", format!("{} failed without any I/O error: {}", what, e)))
                }
            }
            Out::Panic(p) => {
                if self.hard() {
                    if iterator {
                        Ok(())
                    } else {
                        Err(self.v(
                            FAULT_PROPS,
                            "panic-on-io-error",
                            format!("{} panicked on an I/O error: {}", what, p),
                        ))
                    }
                } else {
                    Err(self.v(BASIC, "panic", format!("{} panicked: {}", what, p)))
                }
            }
        }
    }
    fn chg(&self, m: usize) -> [(u64, u64); 4] {
        let mut r = [(0, 0); 4];
        let w = world();
        for (i, e) in ["key", "val", "idx", "htx"].iter().enumerate() {
            if let Some(ino) = w.disk.file(&format!("{}.{}", self.base(m), e)) {
                r[i] = (ino.len, ino.chg);
            }
        }
        r
    }

    pub fn run(&mut self) -> VRes {
        for i in 0..self.prog.ops.len() {
            self.cur = i;
            if self.log {
                eprintln!("op {}: {}", i, self.prog.ops[i].text());
                world().log = Some(vec![]);
            }
            let r = self.step(i);
            if self.log {
                if let Some(l) = world().log.take() {
                    let n = l.len();
                    for x in l.iter().take(40) {
                        eprintln!("{}", x);
                    }
                    if n > 40 {
                        eprintln!("  .. {} calls", n);
                    }
                }
                if let Err(v) = &r {
                    eprintln!("  VIOLATION {}", v.msg);
                }
            }
            let r = match r {
                Err(v) if v.tags.is_empty() => match self.post_mortem() {
                    Some(w) => Err(w),
                    None => Err(v),
                },
                r => r,
            };
            match r {
                Err(v) => self.judge(v)?,
                Ok(()) => self.note(i),
            }
            if world().runaway {
                return Err(self.v(BASIC, "runaway", "the operation never ends".into()));
            }
        }
        self.cur = self.prog.ops.len();
        Ok(())
    }

    /// does the deviation end the run? What speaks about another property than the one under test
    /// is set aside.
    fn judge(&mut self, mut v: Violation) -> VRes {
        let f = self.focus;
        if f.is_empty() {
            return Err(v);
        }
        let op = self.prog.ops.get(self.cur).map(|o| &o.kind);
        if v.tags.is_empty() {
            self.evidence(&mut v);
            if v.also.contains(&f) {
                return Err(v);
            }
            let iterish = v.kind == "iteration" || matches!(op, Some(OpKind::Iter { .. }));
            let read = matches!(v.kind.as_str(), "iteration" | "wrong-data" | "bulk-len")
                && matches!(
                    op,
                    Some(OpKind::Get { .. }) | Some(OpKind::BGet { .. }) | Some(OpKind::Iter { .. }) | Some(OpKind::Verify { .. })
                );
            let skip = match f {
                "A01" => iterish || matches!(op, Some(OpKind::Check { .. })),
                "A02" => read && !iterish,
                "S01" | "S02" | "S03" | "C03" | "D05" => read,
                _ => false,
            };
            if !skip {
                return Err(v);
            }
        } else if v.tags.contains(&f) {
            return Err(v);
        } else if FAULT_PROPS.contains(&f)
            && (v.tags.iter().all(|t| ["D01", "D02", "D03", "D04"].contains(t)) || v.kind.starts_with("audit"))
        {
            // with the errors it is lost, without them perhaps not
            v.tags.clear();
            return Err(v);
        }
        self.st.aside += 1;
        if self.st.aside_msg.is_none() {
            self.st.aside_msg = Some(format!("{} {:?}: {}", v.kind, v.tags, v.msg));
        }
        Ok(())
    }
    /// the same complete read gave the right answers before
    fn evidence(&self, v: &mut Violation) {
        let m = match self.prog.ops.get(self.cur).map(|o| &o.kind) {
            Some(OpKind::Verify { m }) | Some(OpKind::Get { m, s: false, .. }) => *m,
            _ => return,
        };
        if let Some(s) = &self.maps[m].since {
            if s.reopened {
                v.also.push("A04");
            } else if s.others {
                v.also.push("A05");
            }
            for (c, t) in [
                (s.others_failed, "F06"),
                (s.read_failed, "F03"),
                (s.save_failed, "F02"),
                (s.open_failed, "F05"),
            ] {
                if c {
                    v.also.push(t);
                }
            }
        }
    }
    /// keep track of what happened since a map was last found right
    fn note(&mut self, i: usize) {
        let op = &self.prog.ops[i];
        let hard = op.faults.iter().any(|f| f.kind.hard()) && self.hard();
        let on = crate::strip::on_map(&op.kind);
        for (m, s) in self.maps.iter_mut().enumerate() {
            let mine = on == Some(m);
            if s.tainted || !s.created {
                s.since = None;
                continue;
            }
            if mine {
                match &op.kind {
                    OpKind::Put { .. } | OpKind::Del { .. } | OpKind::BPut { .. } | OpKind::BDel { .. } => s.since = None,
                    OpKind::Verify { .. } if !s.handles.is_empty() && !hard => s.since = Some(Since::default()),
                    _ => (),
                }
            }
            let x = match &mut s.since {
                Some(x) => x,
                None => continue,
            };
            match &op.kind {
                OpKind::Crash { .. } => {
                    s.since = None;
                    continue;
                }
                OpKind::Map { .. } if mine && !hard => x.reopened = true,
                OpKind::Map { .. } | OpKind::Open(_) if hard => x.open_failed = true,
                OpKind::Flush { .. } | OpKind::SyncAll { .. } | OpKind::SyncData { .. } if hard && mine => x.save_failed = true,
                OpKind::DbSync { .. } if hard => x.save_failed = true,
                OpKind::Close(_) | OpKind::DropDb(_) | OpKind::DropH { .. } if hard => s.since = None,
                OpKind::Get { .. } | OpKind::BGet { .. } | OpKind::Iter { .. } | OpKind::Fill { .. } | OpKind::Verify { .. }
                    if hard && mine =>
                {
                    x.read_failed = true
                }
                _ if on.is_some() && !mine => {
                    x.others = true;
                    if hard {
                        x.others_failed = true;
                    }
                }
                _ => (),
            }
        }
    }

    fn post_mortem(&mut self) -> Option<Violation> {
        if self.post == Post::Nothing || self.prog.ops[self.cur].faults.iter().any(|f| f.kind.hard()) {
            return None;
        }
        for m in 0..self.maps.len() {
            if !self.maps[m].open() || self.maps[m].tainted {
                continue;
            }
            if self.post == Post::Iterate {
                let mut h = match self.take(m, 0) {
                    Some(h) => h,
                    None => continue,
                };
                let o = self.call(&[], || Ok(h.iter(0, 0)));
                self.put_back(m, 0, h);
                let bad = match o {
                    Out::Ok(g) => cmp_iter(&g, &self.maps[m].content, 0).err(),
                    Out::Err(e) => Some(e),
                    Out::Panic(p) => Some(format!("iteration panicked: {}", p)),
                };
                if let Some(e) = bad {
                    return Some(self.v(&["A02"], "iteration", format!("map {}: {}", m, e)));
                }
            } else if self.post == Post::Structure {
                match self.check_structure(m) {
                    Err(v) if !v.tags.is_empty() => return Some(v),
                    _ => (),
                }
            } else {
                let mut h = match self.take(m, 0) {
                    Some(h) => h,
                    None => continue,
                };
                let o = self.call(&[], || h.flush());
                self.put_back(m, 0, h);
                if !matches!(o, Out::Ok(())) {
                    continue;
                }
                let kt = self.maps[m].spec.kt;
                match audit::decode(&world().disk, &self.base(m), kt, &|k| hash_of(kt, k)) {
                    Err(e) => {
                        return Some(self.v(&["S02", "C03"], "audit", format!("map {}: the files do not decode: {}", m, e)))
                    }
                    Ok(d) => {
                        if !d.leaks.is_empty() {
                            return Some(self.leak(m, &d));
                        }
                    }
                }
            }
        }
        None
    }

    /// release everything; used at the end of a run
    pub fn finish(&mut self) {
        world().plan.clear();
        world().heal();
        let maps = &mut self.maps;
        let dbs = &mut self.dbs;
        let _ = catch_unwind(AssertUnwindSafe(|| {
            for m in maps.iter_mut() {
                m.handles.clear();
            }
            for d in dbs.iter_mut() {
                *d = None;
            }
        }));
    }

    fn step(&mut self, i: usize) -> VRes {
        let op = &self.prog.ops[i];
        self.st.ops += 1;
        // what a crash in the middle of this operation has to leave behind
        let pre = if op.faults.iter().any(|f| f.kind == FaultKind::Kill) {
            Some(self.pre_flags(op))
        } else {
            None
        };
        world().crash = None;
        // read-only watch
        let watch: Vec<Option<[(u64, u64); 4]>> = (0..self.maps.len())
            .map(|m| {
                if self.maps[m].settled && !self.touches(op, m) {
                    Some(self.chg(m))
                } else {
                    None
                }
            })
            .collect();
        world().op_class_calls = [0; 5];
        let r = self.do_op(op);
        self.calls[i] = world().op_class_calls;
        if let Some(img) = world().crash.take() {
            let (pre, label) = pre.unwrap();
            world().c.crashes_mid_op += 1;
            let ca = op.crash.clone().unwrap_or(CrashAs {
                real: false,
                power: None,
            });
            // the process died inside the call, so its outcome was never seen
            return self.crash_image(img, ca.power, ca.real, pre, &label);
        }
        r?;
        for m in 0..self.maps.len() {
            if let Some(c) = &watch[m] {
                if self.maps[m].settled {
                    let now = self.chg(m);
                    if now != *c {
                        let f = (0..4).find(|i| now[*i] != c[*i]).unwrap();
                        return Err(self.v(
                            &["D05"],
                            "read-only-write",
                            format!(
                                "an operation that only reads map {} changed its {} file",
                                m,
                                ["key", "val", "idx", "htx"][f]
                            ),
                        ));
                    }
                    self.st.hit("files-unchanged");
                }
            }
        }
        Ok(())
    }
    /// may the operation legitimately change the files of map m?
    fn touches(&self, op: &Op, m: usize) -> bool {
        match &op.kind {
            OpKind::Put { m: x, .. }
            | OpKind::Del { m: x, .. }
            | OpKind::BPut { m: x, .. }
            | OpKind::BDel { m: x, .. }
            | OpKind::BadSig { m: x, .. }
            | OpKind::Far { m: x, .. } => *x == m,
            OpKind::Crash { .. } => true,
            _ => op.faults.iter().any(|f| f.kind == FaultKind::Kill),
        }
    }

    // ----- crashes -------------------------------------------------------------------------

    fn tags_for(&self, m: usize, target: bool, power: bool, creating: bool) -> Vec<&'static str> {
        let mut t = vec![];
        if creating {
            t.push("D03");
        } else {
            t.push(if power { "D01" } else { "D02" });
        }
        if !target {
            t.push("D04");
        }
        let _ = m;
        t
    }
    /// (k-expectation, p-expectation) per map when a crash strikes inside this operation
    fn pre_flags(&self, op: &Op) -> (Vec<(Option<Expect>, Option<Expect>)>, String) {
        let mutated = |m: usize| match &op.kind {
            OpKind::Put { m: x, .. } | OpKind::Del { m: x, .. } | OpKind::BPut { m: x, .. } | OpKind::BDel { m: x, .. } => {
                *x == m
            }
            OpKind::BadSig { .. } => true,
            _ => false,
        };
        let target = |m: usize| match &op.kind {
            OpKind::Flush { m: x, .. } | OpKind::SyncAll { m: x, .. } | OpKind::SyncData { m: x, .. } | OpKind::Map { m: x, .. } => *x == m,
            OpKind::DbSync { d, .. } | OpKind::Close(d) => self.maps[m].spec.db == *d,
            _ => mutated(m),
        };
        let creates = |m: usize| matches!(&op.kind, OpKind::Map { m: x, .. } if *x == m);
        let r = (0..self.maps.len())
            .map(|m| {
                let s = &self.maps[m];
                let creating = creates(m) && !s.created;
                if (!s.created && !creating) || s.tainted || mutated(m) {
                    return (None, None);
                }
                let mk = |power: bool| {
                    let known = if power { s.k && s.p } else { s.k };
                    if !known {
                        return None;
                    }
                    Some(Expect {
                        content: s.content.clone(),
                        tags: self.tags_for(m, target(m), power, creating || (s.content.is_empty() && !s.settled)),
                        why: if creating {
                            "was being created".into()
                        } else {
                            format!("had {} entries on disk", s.content.len())
                        },
                    })
                };
                (mk(false), mk(true))
            })
            .collect();
        (r, op.text())
    }
    fn rest_flags(&self) -> Vec<(Option<Expect>, Option<Expect>)> {
        let dummy = Op::new(OpKind::Heal);
        let mut r = self.pre_flags(&dummy).0;
        for x in r.iter_mut() {
            // nothing else is going on
            for e in [&mut x.0, &mut x.1].into_iter().flatten() {
                e.tags.retain(|t| *t != "D04");
            }
        }
        r
    }

    /// look at a crash image; `real`: go on from it
    fn crash_image(
        &mut self,
        mut img: Disk,
        power: Option<u64>,
        real: bool,
        exp: Vec<(Option<Expect>, Option<Expect>)>,
        at: &str,
    ) -> VRes {
        let exp: Vec<Option<Expect>> = exp.into_iter().map(|(k, p)| if power.is_some() { p } else { k }).collect();
        if let Some(s) = power {
            let st = img.power_loss(s);
            let c = &mut world().c;
            c.pl.lost += st.lost;
            c.pl.kept += st.kept;
            c.pl.torn += st.torn;
            c.pl.files_gone += st.files_gone;
            c.crashes_power += 1;
        } else {
            world().c.crashes_kill += 1;
        }
        self.st.states.insert(img.digest());
        // a map whose fate is open is removed, unless the rest has to bear with it
        let mut rest = img.clone();
        for m in 0..self.maps.len() {
            if exp[m].is_none() {
                rest.remove_prefix(&format!("{}.", self.base(m)));
            }
        }
        let along = matches!(self.focus, "D03" | "D04");
        if !along {
            img = rest.clone();
        }
        if real {
            self.finish();
            let w = world();
            w.disk = rest;
            w.fds.clear();
            w.ofds.clear();
            for m in 0..self.maps.len() {
                let s = &mut self.maps[m];
                s.handles.clear();
                s.in_db = false;
                s.since = None;
                match &exp[m] {
                    Some(e) => {
                        s.content = e.content.clone();
                        s.created = true;
                        s.k = true;
                        if power.is_some() {
                            s.p = true;
                        }
                    }
                    None => {
                        s.content.clear();
                        s.created = false;
                        s.k = true;
                        s.p = true;
                        s.settled = false;
                    }
                }
                s.tainted = false;
                // the next opening may have to complete an interrupted creation
                s.settled = false;
                if let Some(mem) = &mut s.mem {
                    for k in mem_keys(&self.prog.used_keys(), s.spec.kt, &self.keyb) {
                        let _ = mem.h().del(&k, false);
                    }
                    for (k, v) in &s.content {
                        let _ = mem.h().put(k, v, false);
                    }
                }
            }
        }
        self.probe_image(img, &exp, power, at, along)
    }

    /// open the crash image with the real code in a world of its own and compare
    fn probe_image(&mut self, img: Disk, exp: &[Option<Expect>], power: Option<u64>, at: &str, along: bool) -> VRes {
        let w = world();
        let live_disk = std::mem::replace(&mut w.disk, img);
        let live_fds = std::mem::take(&mut w.fds);
        let live_ofds = std::mem::take(&mut w.ofds);
        let sticky = std::mem::take(&mut w.sticky);
        let nfd = (w.next_fd, w.next_ofd);
        let op_hard = w.op_hard;
        let mut viol = None;
        w.begin_op(&[]);
        for d in 0..self.prog.dbs {
            let ms: Vec<usize> = (0..self.maps.len())
                .filter(|m| self.maps[*m].spec.db == d && exp[*m].is_some())
                .collect();
            if ms.is_empty() {
                continue;
            }
            if along {
                // the maps of which nothing is known are opened first, with whatever result
                for m in (0..self.maps.len()).filter(|m| self.maps[*m].spec.db == d && exp[*m].is_none()) {
                    let spec = &self.maps[m].spec;
                    if !["key", "val", "idx", "htx"].iter().any(|e| world().disk.file(&format!("{}.{}", self.base(m), e)).is_some()) {
                        continue;
                    }
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        if let Ok(db) = siamesedb::open_file(db_dir(d)) {
                            let _ = open_map(&db, spec, spec.kt, &DEFAULT_PARAMS);
                        }
                    }));
                    self.st.hit("open-beside");
                }
            }
            for m in ms {
                let e = exp[m].as_ref().unwrap();
                let spec = self.maps[m].spec.clone();
                let mut keys: BTreeSet<Vec<u8>> = self.all_keys(m).into_iter().collect();
                keys.extend(e.content.keys().cloned());
                let keys: Vec<_> = keys.into_iter().collect();
                let crash = match power {
                    Some(s) => format!("power loss (seed {}) during `{}`", s, at),
                    None => format!("the process was killed during `{}`", at),
                };
                let r = catch_unwind(AssertUnwindSafe(|| -> std::result::Result<(), String> {
                    let db = siamesedb::open_file(db_dir(d)).map_err(|e| format!("open: {}", e))?;
                    let mut h = open_map(&db, &spec, spec.kt, &DEFAULT_PARAMS)
                        .map_err(|e| format!("opening the map: {}", e))?;
                    verify_map(&mut *h, &e.content, &keys)?;
                    // and it is usable
                    let probe_key: Vec<u8> = match spec.kt {
                        Kt::I => 0x5a5a_5a5a_0000_0001u64.to_be_bytes().to_vec(),
                        _ => b"~probe~".to_vec(),
                    };
                    if !e.content.contains_key(&probe_key) {
                        h.put(&probe_key, b"alive", false).map_err(|e| format!("put after the crash: {}", e))?;
                        let g = h.get(&probe_key, false).map_err(|e| format!("get after the crash: {}", e))?;
                        if g.as_deref() != Some(b"alive") {
                            return Err("a put after the crash is not seen".into());
                        }
                        h.del(&probe_key, false).map_err(|e| format!("delete after the crash: {}", e))?;
                    }
                    h.sync_all().map_err(|e| format!("sync after the crash: {}", e))?;
                    Ok(())
                }));
                let msg = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(s)) => Some(s),
                    Err(_) => Some(format!("panic: {}", last_panic())),
                };
                self.st.hit("crash-recovery");
                if let Some(s) = msg {
                    viol = Some(self.v(
                        &e.tags,
                        if e.tags.contains(&"D03") { "crash-brick" } else { "crash-loss" },
                        format!("map {} ({}) after {}: {}", m, e.why, crash, s),
                    ));
                    break;
                }
            }
            if viol.is_some() {
                break;
            }
        }
        let w = world();
        w.disk = live_disk;
        w.fds = live_fds;
        w.ofds = live_ofds;
        w.sticky = sticky;
        w.next_fd = nfd.0;
        w.next_ofd = nfd.1;
        w.op_hard = op_hard;
        self.st.nontrivial = true;
        match viol {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }

    // ----- operations ----------------------------------------------------------------------

    fn params(&self, p: usize) -> Params {
        if let Some(o) = &self.override_params {
            return *o;
        }
        self.prog.params.get(p).copied().unwrap_or(DEFAULT_PARAMS)
    }

    /// after some handles or databases went away: which maps are closed now?
    fn settle_closed(&mut self, was_open: &[bool], hard: bool) {
        for m in 0..self.maps.len() {
            if !was_open[m] || self.maps[m].open() {
                continue;
            }
            let base = self.base(m);
            let s = &mut self.maps[m];
            if s.tainted || (hard && !s.k) {
                // lost, as announced: start over
                s.tainted = false;
                s.content.clear();
                s.created = false;
                s.settled = false;
                s.k = true;
                s.p = true;
                world().disk.remove_prefix(&format!("{}.", base));
                if let Some(mem) = &mut s.mem {
                    for k in mem_keys(&self.prog.used_keys(), s.spec.kt, &self.keyb) {
                        let _ = mem.h().del(&k, false);
                    }
                }
            } else {
                s.k = true;
                s.settled = s.created && (!hard || s.settled);
            }
        }
    }
    fn drop_things(&mut self, op: &Op, f: impl FnOnce(&mut Self) -> (Vec<Box<dyn AnyMap>>, Vec<FileDb>)) -> VRes {
        let was: Vec<bool> = self.maps.iter().map(|m| m.open()).collect();
        let (hs, ds) = f(self);
        let o = self.call(&op.faults, || {
            drop(hs);
            drop(ds);
            Ok(())
        });
        let hard = self.hard();
        if let Out::Panic(p) = &o {
            let tags = if hard { FAULT_PROPS } else { BASIC };
            return Err(self.v(tags, "panic-on-drop", format!("closing panicked: {}", p)));
        }
        self.settle_closed(&was, hard);
        Ok(())
    }

    fn do_op(&mut self, op: &Op) -> VRes {
        match &op.kind {
            OpKind::Heal => {
                world().heal();
                Ok(())
            }
            OpKind::Wb(seed) => {
                world().begin_op(&[Fault {
                    kind: FaultKind::Wb(*seed),
                    class: C_ANY,
                    at: 0,
                }]);
                let _ = world().decide(C_OPEN, "background", 0, 0);
                world().plan.clear();
                Ok(())
            }
            OpKind::Open(d) => {
                let d = *d;
                if self.dbs[d].is_some() {
                    self.st.skipped += 1;
                    return Ok(());
                }
                if self.maps.iter().any(|m| m.spec.db == d && m.open()) {
                    // some maps live on in handles that an earlier object of this database gave
                    self.st.hit("second-database-object");
                }
                let o = self.call(&op.faults, || siamesedb::open_file(db_dir(d)));
                self.not_ok(&o, "opening the database", false)?;
                if let Out::Ok(db) = o {
                    self.dbs[d] = Some(db);
                }
                Ok(())
            }
            OpKind::Close(d) => {
                let d = *d;
                self.drop_things(op, |s| {
                    let mut hs = vec![];
                    for m in s.maps.iter_mut().filter(|m| m.spec.db == d) {
                        hs.append(&mut m.handles);
                        m.in_db = false;
                    }
                    (hs, s.dbs[d].take().into_iter().collect())
                })
            }
            OpKind::DropDb(d) => {
                let d = *d;
                self.drop_things(op, |s| {
                    for m in s.maps.iter_mut().filter(|m| m.spec.db == d) {
                        m.in_db = false;
                    }
                    (vec![], s.dbs[d].take().into_iter().collect())
                })
            }
            OpKind::DropH { m } => {
                let m = *m;
                self.drop_things(op, |s| {
                    let h = if s.maps[m].handles.len() > 1 || !s.maps[m].in_db {
                        s.maps[m].handles.pop()
                    } else {
                        None
                    };
                    (h.into_iter().collect(), vec![])
                })
            }
            OpKind::Map { m, p } => {
                let (m, p) = (*m, self.params(*p));
                let d = self.maps[m].spec.db;
                if self.dbs[d].is_none() || (self.maps[m].open() && !self.maps[m].in_db) {
                    self.st.skipped += 1;
                    return Ok(());
                }
                if self.maps[m].in_db && !self.maps[m].handles.is_empty() {
                    self.st.skipped += 1;
                    return Ok(());
                }
                let db = self.dbs[d].clone().unwrap();
                let spec = self.maps[m].spec.clone();
                let o = self.call(&op.faults, || open_map(&db, &spec, spec.kt, &p));
                drop(db);
                self.not_ok(&o, "opening a map", false)?;
                match o {
                    Out::Ok(h) => {
                        let s = &mut self.maps[m];
                        s.handles.push(h);
                        s.in_db = true;
                        if let Some(mem) = &mut s.mem {
                            mem.again();
                        }
                        if s.created {
                            self.st.hit("reopen");
                        }
                        let s = &mut self.maps[m];
                        if !s.created {
                            s.created = true;
                            s.content.clear();
                            s.k = true;
                            s.p = true;
                            s.settled = false;
                        }
                    }
                    _ => {
                        // creation may have left some files behind
                        self.maps[m].fresh_fail = true;
                    }
                }
                Ok(())
            }
            OpKind::CloneH { m } => {
                let s = &mut self.maps[*m];
                if let Some(h) = s.handles.first() {
                    let c = h.dup();
                    s.handles.push(c);
                }
                if let Some(mem) = &mut s.mem {
                    mem.dup();
                }
                Ok(())
            }
            OpKind::Again { m, p } => {
                let (m, p) = (*m, self.params(*p));
                let d = self.maps[m].spec.db;
                if self.dbs[d].is_none() || !self.maps[m].in_db {
                    self.st.skipped += 1;
                    return Ok(());
                }
                let db = self.dbs[d].clone().unwrap();
                let spec = self.maps[m].spec.clone();
                let o = self.call(&op.faults, || open_map(&db, &spec, spec.kt, &p));
                drop(db);
                self.not_ok(&o, "asking for an open map again", false)?;
                if let Out::Ok(h) = o {
                    self.maps[m].handles.push(h);
                }
                if let Some(mem) = &mut self.maps[m].mem {
                    mem.again();
                }
                Ok(())
            }
            OpKind::Put { m, h, k, v, s } => {
                let key = self.key(*m, *k);
                let mut val = v.bytes();
                if *s {
                    val = String::from_utf8_lossy(&val).to_string().into_bytes();
                }
                self.mutate(op, *m, *h, vec![(key, Some(val))], *s, false)
            }
            OpKind::Del { m, h, k, s } => {
                let key = self.key(*m, *k);
                if self.prog.nomiss && !self.maps[*m].content.contains_key(&key) {
                    self.st.skipped += 1;
                    return Ok(());
                }
                self.mutate(op, *m, *h, vec![(key, None)], *s, false)
            }
            OpKind::BPut { m, h, kv, s } => {
                let items = kv
                    .iter()
                    .map(|(k, v)| {
                        let mut val = v.bytes();
                        if *s {
                            val = String::from_utf8_lossy(&val).to_string().into_bytes();
                        }
                        (self.key(*m, *k), Some(val))
                    })
                    .collect();
                self.mutate(op, *m, *h, items, *s, true)
            }
            OpKind::BDel { m, h, ks, s } => {
                let mut items: Vec<_> = ks.iter().map(|k| (self.key(*m, *k), None)).collect();
                if self.prog.nomiss {
                    let mut seen = BTreeSet::new();
                    let c = &self.maps[*m].content;
                    items.retain(|x| c.contains_key(&x.0) && seen.insert(x.0.clone()));
                }
                self.mutate(op, *m, *h, items, *s, true)
            }
            OpKind::Get { m, h, k, s } => {
                let key = self.key(*m, *k);
                if self.prog.nomiss && !self.maps[*m].content.contains_key(&key) {
                    self.st.skipped += 1;
                    return Ok(());
                }
                let mut handle = match self.take(*m, *h) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let o = self.call(&op.faults, || handle.get(&key, *s));
                self.put_back(*m, *h, handle);
                self.not_ok(&o, "get", false)?;
                if let Out::Ok(g) = &o {
                    self.st.hit("read");
                    self.res_bytes(g);
                    let want = self.maps[*m].content.get(&key).cloned().map(|v| lossy(v, *s));
                    if *g != want {
                        let mut v = self.wrong(*m, &key, g, &want, "get");
                        let n = self.maps[*m].handles.len();
                        let at = if n > 0 { *h as usize % n } else { 0 };
                        for i in 0..n {
                            if i == at {
                                continue;
                            }
                            let mut other = match self.take(*m, i as u8) {
                                Some(x) => x,
                                None => continue,
                            };
                            let x = self.call(&[], || other.get(&key, *s));
                            self.put_back(*m, i as u8, other);
                            if matches!(&x, Out::Ok(x) if *x == want) {
                                v.also.push("A06");
                                v.msg.push_str(" (another handle of the map answers right)");
                                break;
                            }
                        }
                        return Err(v);
                    }
                    if let Some(mem) = &mut self.maps[*m].mem {
                        let x = mem.h().get(&key, *s).unwrap();
                        if x != *g {
                            return Err(self.v(&["C04"], "mem-differs", format!("get {:?}: file {}, memory {}", audit::short(&key), show(g), show(&x))));
                        }
                        self.st.hit("file-vs-memory");
                    }
                }
                Ok(())
            }
            OpKind::BGet { m, h, ks, s } => {
                let mut keys: Vec<_> = ks.iter().map(|k| self.key(*m, *k)).collect();
                if self.prog.nomiss {
                    keys.retain(|k| self.maps[*m].content.contains_key(k));
                }
                let mut handle = match self.take(*m, *h) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let o = self.call(&op.faults, || handle.bget(&keys, *s));
                self.put_back(*m, *h, handle);
                self.not_ok(&o, "bulk get", false)?;
                if let Out::Ok(g) = &o {
                    self.st.hit("bulk-read");
                    if g.len() != keys.len() {
                        return Err(self.v(BASIC, "bulk-len", format!("bulk get of {} keys gave {} answers", keys.len(), g.len())));
                    }
                    for (i, key) in keys.iter().enumerate() {
                        self.res_bytes(&g[i]);
                        let want = self.maps[*m].content.get(key).cloned().map(|v| lossy(v, *s));
                        if g[i] != want {
                            return Err(self.wrong(*m, key, &g[i], &want, "bulk get"));
                        }
                    }
                    if let Some(mem) = &mut self.maps[*m].mem {
                        let x = mem.h().bget(&keys, *s).unwrap();
                        if x != *g {
                            return Err(self.v(&["C04"], "mem-differs", "bulk get differs between file and memory".into()));
                        }
                        self.st.hit("file-vs-memory");
                    }
                }
                Ok(())
            }
            OpKind::Iter { m, h, form, n } => {
                let mut handle = match self.take(*m, *h) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let o = self.call(&op.faults, || Ok(handle.iter(*form, *n)));
                self.put_back(*m, *h, handle);
                self.not_ok(&o, "iteration", true)?;
                if let Out::Ok(g) = &o {
                    self.st.hit("iteration");
                    self.res(g.len() as u64);
                    if let Err(e) = cmp_iter(g, &self.maps[*m].content, *n) {
                        return Err(self.v(BASIC, "iteration", format!("map {}: {}", m, e)));
                    }
                }
                Ok(())
            }
            OpKind::Fill { m, h } => {
                if ["val", "key", "idx"].iter().any(|x| world().disk.hole(&format!("{}.{}", self.base(*m), x)).is_some()) {
                    // would read all of it
                    self.st.skipped += 1;
                    return Ok(());
                }
                let mut handle = match self.take(*m, *h) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let o = self.call(&op.faults, || handle.fill());
                self.put_back(*m, *h, handle);
                self.not_ok(&o, "read_fill_buffer", false)
            }
            OpKind::Flush { m, h } => self.save(op, *m, *h, 0),
            OpKind::SyncAll { m, h } => self.save(op, *m, *h, 1),
            OpKind::SyncData { m, h } => self.save(op, *m, *h, 2),
            OpKind::DbSync { d, all } => {
                let db = match &self.dbs[*d] {
                    Some(x) => x.clone(),
                    None => {
                        self.st.skipped += 1;
                        return Ok(());
                    }
                };
                let o = self.call(&op.faults, || if *all { db.sync_all() } else { db.sync_data() });
                drop(db);
                self.not_ok(&o, "database sync", false)?;
                if let Out::Ok(()) = o {
                    for s in self.maps.iter_mut().filter(|s| s.spec.db == *d && s.in_db && !s.tainted) {
                        if !s.k || !s.p {
                            s.settled = true;
                        }
                        s.k = true;
                        s.p = true;
                    }
                }
                Ok(())
            }
            OpKind::Check { m } => self.check_structure(*m),
            OpKind::Rate { m } => {
                let handle = match self.take(*m, 0) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let o = self.call(&op.faults, || handle.rate());
                self.put_back(*m, 0, handle);
                self.st.hit("filling-rate");
                self.not_ok(&o, "htx_filling_rate_per_mill", false)
            }
            OpKind::Verify { m } => {
                let keys = self.all_keys(*m);
                let ms = &mut self.maps[*m];
                if let (Some(mem), false) = (&mut ms.mem, ms.tainted) {
                    for k in &keys {
                        let x = mem.h().get(k, false).unwrap();
                        if x.as_ref() != ms.content.get(k) {
                            let want = ms.content.get(k).cloned();
                            return Err(self.v(&["C04"], "mem-differs", format!("get {:?}: memory {}, expected {}", audit::short(k), show(&x), show(&want))));
                        }
                    }
                    self.st.hit("memory-read");
                }
                let mut handle = match self.take(*m, 0) {
                    Some(x) => x,
                    None => return Ok(()),
                };
                let content = std::mem::take(&mut self.maps[*m].content);
                let mut err = None;
                let o = self.call(&op.faults, || {
                    err = verify_map(&mut *handle, &content, &keys).err();
                    Ok(())
                });
                self.maps[*m].content = content;
                self.put_back(*m, 0, handle);
                self.not_ok(&o, "reading everything", true)?;
                if matches!(o, Out::Ok(_)) {
                    self.st.hit("full-read");
                    if let Some(e) = err {
                        if !(self.hard() && e.contains("error")) {
                            let kind = if e.starts_with("iteration") { "iteration" } else { "wrong-data" };
                            return Err(self.v(BASIC, kind, format!("map {}: {}", m, e)));
                        }
                    }
                }
                Ok(())
            }
            OpKind::Audit { m } => self.audit(*m),
            OpKind::Probe { power } => {
                let exp = self.rest_flags();
                let img = world().disk.clone();
                self.crash_image(img, *power, false, exp, "no operation")
            }
            OpKind::Crash { power } => {
                let exp = self.rest_flags();
                let img = world().disk.clone();
                self.crash_image(img, *power, true, exp, "no operation")
            }
            OpKind::WrongType { m, kt } => self.wrong_type(*m, *kt),
            OpKind::Far { m, f } => {
                let s = &self.maps[*m];
                if !s.created || !s.settled || s.tainted || s.open() {
                    self.st.skipped += 1;
                    return Ok(());
                }
                let base = self.base(*m);
                for (bit, ext) in [(1, "val"), (2, "key"), (4, "idx")] {
                    if f & bit != 0 && world().disk.stretch(&format!("{}.{}", base, ext), 1 << 32) {
                        self.st.hit("file-beyond-4GiB");
                    }
                }
                Ok(())
            }
            OpKind::BadSig { m, file, byte } => self.bad_sig(*m, *file, *byte),
            OpKind::Mark { m, id } => {
                let c = self.chg(*m);
                let s = [c[0].0, c[1].0, c[2].0, c[3].0];
                if self.maps[*m].created && s.iter().all(|x| *x > 0) {
                    self.maps[*m].marks.insert(*id, (s, [0; 4]));
                }
                Ok(())
            }
            OpKind::NoGrow { m, id, slack } => {
                // key and value file, index file: how often may the repeated cycle still grow it?
                let allow = [(*slack >> 16) as u32, (*slack >> 16) as u32, (*slack & 0xffff) as u32, 0];
                let c = self.chg(*m);
                let now = [c[0].0, c[1].0, c[2].0, c[3].0];
                let mut bad = None;
                if let Some((last, events)) = self.maps[*m].marks.get_mut(id) {
                    for i in 0..4 {
                        if now[i] > last[i] {
                            events[i] += 1;
                            if events[i] > allow[i] && bad.is_none() {
                                bad = Some((i, last[i], now[i], events[i]));
                            }
                            last[i] = now[i];
                        }
                    }
                    self.st.hit("growth-bound");
                    self.st.nontrivial = true;
                }
                if let Some((i, l, n, e)) = bad {
                    return Err(self.v(
                        &["S03"],
                        "growth",
                        format!(
                            "repeating the same cycle of operations keeps growing the {} file: now from {} to {} bytes, growing cycle number {} (allowed {})",
                            ["key", "val", "idx", "htx"][i],
                            l,
                            n,
                            e,
                            allow[i]
                        ),
                    ));
                }
                Ok(())
            }
        }
    }

    fn wrong(&self, m: usize, key: &[u8], got: &Option<Vec<u8>>, want: &Option<Vec<u8>>, what: &str) -> Violation {
        self.v(
            BASIC,
            "wrong-data",
            format!("map {}: {} of {:?} gave {}, expected {}", m, what, audit::short(key), show(got), show(want)),
        )
    }
    fn take(&mut self, m: usize, h: u8) -> Option<Box<dyn AnyMap>> {
        let s = &mut self.maps[m];
        if s.handles.is_empty() || s.tainted {
            self.st.skipped += 1;
            return None;
        }
        let i = h as usize % s.handles.len();
        Some(s.handles.remove(i))
    }
    fn put_back(&mut self, m: usize, h: u8, handle: Box<dyn AnyMap>) {
        let s = &mut self.maps[m];
        let i = h as usize % (s.handles.len() + 1);
        s.handles.insert(i, handle);
    }

    fn mutate(&mut self, op: &Op, m: usize, h: u8, items: Vec<(Vec<u8>, Option<Vec<u8>>)>, s: bool, bulk: bool) -> VRes {
        let mut handle = match self.take(m, h) {
            Some(x) => x,
            None => return Ok(()),
        };
        if !items.is_empty() {
            self.maps[m].k = false;
            self.maps[m].p = false;
            self.maps[m].settled = false;
        }
        let dels = items.iter().any(|x| x.1.is_none()) || (items.is_empty() && matches!(op.kind, OpKind::BDel { .. }));
        let keys: Vec<Vec<u8>> = items.iter().map(|x| x.0.clone()).collect();
        let kvs: Vec<Kv> = if dels {
            vec![]
        } else {
            items.iter().map(|(k, v)| (k.clone(), v.clone().unwrap())).collect()
        };
        let o: Out<Vec<Option<Vec<u8>>>> = self.call(&op.faults, || {
            Ok(match (dels, bulk) {
                (false, false) => {
                    handle.put(&kvs[0].0, &kvs[0].1, s)?;
                    vec![]
                }
                (false, true) => {
                    handle.bput(&kvs, s)?;
                    vec![]
                }
                (true, false) => vec![handle.del(&keys[0], s)?],
                (true, true) => handle.bdel(&keys, s)?,
            })
        });
        self.put_back(m, h, handle);
        let what = match (dels, bulk) {
            (false, false) => "put",
            (false, true) => "bulk put",
            (true, false) => "delete",
            (true, true) => "bulk delete",
        };
        if !matches!(o, Out::Ok(_)) {
            // nothing is promised about the content after a failed change
            self.maps[m].tainted = true;
        }
        self.not_ok(&o, what, false)?;
        if let Out::Ok(g) = o {
            self.st.hit("write");
            if dels {
                if g.len() != keys.len() {
                    return Err(self.v(BASIC, "bulk-len", format!("{} of {} keys gave {} answers", what, keys.len(), g.len())));
                }
                for (i, k) in keys.iter().enumerate() {
                    let want = self.maps[m].content.remove(k).map(|v| lossy(v, s));
                    self.res_bytes(&g[i]);
                    if g[i] != want {
                        return Err(self.wrong(m, k, &g[i], &want, what));
                    }
                }
                if let Some(mem) = &mut self.maps[m].mem {
                    let x = if bulk { mem.h().bdel(&keys, s).unwrap() } else { vec![mem.h().del(&keys[0], s).unwrap()] };
                    if x != g {
                        return Err(self.v(&["C04"], "mem-differs", format!("{} differs between file and memory", what)));
                    }
                    self.st.hit("file-vs-memory");
                }
            } else {
                for (k, v) in kvs.iter() {
                    self.maps[m].content.insert(k.clone(), v.clone());
                }
                if let Some(mem) = &mut self.maps[m].mem {
                    if bulk {
                        mem.h().bput(&kvs, s).unwrap();
                    } else {
                        mem.h().put(&kvs[0].0, &kvs[0].1, s).unwrap();
                    }
                }
            }
        }
        Ok(())
    }

    fn save(&mut self, op: &Op, m: usize, h: u8, kind: u8) -> VRes {
        let mut handle = match self.take(m, h) {
            Some(x) => x,
            None => return Ok(()),
        };
        let o = self.call(&op.faults, || match kind {
            0 => handle.flush(),
            1 => handle.sync_all(),
            _ => handle.sync_data(),
        });
        self.put_back(m, h, handle);
        self.not_ok(&o, ["flush", "sync_all", "sync_data"][kind as usize], false)?;
        if let Some(mem) = &mut self.maps[m].mem {
            let mem = mem.h();
            let r = match kind {
                0 => mem.flush(),
                1 => mem.sync_all(),
                _ => mem.sync_data(),
            };
            if let Err(e) = r.and_then(|_| mem.fill()) {
                return Err(self.v(&["C04"], "mem-differs", format!("saving a map in memory: {}", e)));
            }
        }
        let hard = self.hard();
        if let Out::Ok(()) = o {
            let s = &mut self.maps[m];
            if !s.k || (kind != 0 && !s.p) {
                s.settled = true;
            }
            s.k = true;
            if kind != 0 {
                s.p = true;
            }
            if hard {
                // it claims success in spite of an I/O error: then it must be true
                let exp = self.rest_flags();
                let img = world().disk.clone();
                let pw = if kind != 0 { Some(op.faults.len() as u64 + 77) } else { None };
                self.st.hit("ok-despite-error");
                if let Err(mut v) = self.crash_image(img, pw, false, exp, "no operation") {
                    v.tags.extend_from_slice(FAULT_PROPS);
                    return Err(v);
                }
            }
        }
        Ok(())
    }

    fn check_structure(&mut self, m: usize) -> VRes {
        let handle = match self.take(m, 0) {
            Some(x) => x,
            None => return Ok(()),
        };
        let o = self.call(&[], || handle.stats());
        self.put_back(m, 0, handle);
        self.not_ok(&o, "structure inspection", false)?;
        if let Out::Ok(st) = o {
            self.st.hit("structure");
            let c = &self.maps[m].content;
            let n = c.len() as u64;
            let mut kl: BTreeMap<u64, u64> = BTreeMap::new();
            let mut vl: BTreeMap<u64, u64> = BTreeMap::new();
            for (k, v) in c {
                *kl.entry(k.len() as u64).or_insert(0) += 1;
                *vl.entry(v.len() as u64).or_insert(0) += 1;
            }
            let kl: Vec<_> = kl.into_iter().collect();
            let vl: Vec<_> = vl.into_iter().collect();
            let sum = |v: &[(u64, u64)]| v.iter().map(|x| x.1).sum::<u64>();
            let mut bad = vec![];
            if !st.balanced {
                bad.push("the index tree is not balanced".to_string());
            }
            if !st.mst {
                bad.push("the index tree is not ordered".to_string());
            }
            if !st.dense {
                bad.push("the index tree is not dense".to_string());
            }
            if st.used_keys != n || st.used_vals != n || sum(&st.key_piece) != n || sum(&st.val_piece) != n {
                bad.push(format!(
                    "{} entries, but {} key pieces and {} value pieces in use (by size {} and {})",
                    n,
                    st.used_keys,
                    st.used_vals,
                    sum(&st.key_piece),
                    sum(&st.val_piece)
                ));
            }
            if st.key_len != kl {
                bad.push(format!("key length statistics {:?} instead of {:?}", st.key_len, kl));
            }
            if st.val_len != vl {
                bad.push(format!("value length statistics {:?} instead of {:?}", st.val_len, vl));
            }
            if sum(&st.node_keys) != st.used_nodes || st.node_keys.iter().map(|x| x.0 * x.1).sum::<u64>() != n {
                bad.push(format!("{} entries in {} nodes, but keys by node are {:?}", n, st.used_nodes, st.node_keys));
            }
            for (by, pieces, what) in [(&st.used_by[0], &st.key_piece, "key"), (&st.used_by[1], &st.val_piece, "value")] {
                let mut want = vec![0; audit::CLASSES.len()];
                for (size, c) in pieces {
                    let i = audit::CLASSES.iter().position(|x| x == size).unwrap_or(audit::CLASSES.len() - 1);
                    want[i] += c;
                }
                if *by != want {
                    bad.push(format!("used {} pieces by class {:?}, by size {:?}", what, by, pieces));
                }
            }
            // what is on the disk, if nothing is waiting in the buffers
            let s = &self.maps[m];
            if s.created && s.settled && !s.tainted {
                let kt = s.spec.kt;
                if let Ok(d) = audit::decode(&world().disk, &self.base(m), kt, &|k| hash_of(kt, k)) {
                    self.st.hit("structure-of-files");
                    let v = |m: &BTreeMap<u64, u64>| m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>();
                    let mut cmp = |what: &str, lib: String, file: String| {
                        if lib != file {
                            bad.push(format!("{}: reported {}, in the files {}", what, lib, file));
                        }
                    };
                    cmp("nodes", st.used_nodes.to_string(), d.nodes.to_string());
                    cmp("free nodes", st.free_nodes.to_string(), d.free_idx.to_string());
                    cmp("depth", st.depth.to_string(), d.depth.to_string());
                    cmp("keys by node", format!("{:?}", st.node_keys), format!("{:?}", v(&d.node_keys)));
                    cmp("key pieces", format!("{:?}", st.key_piece), format!("{:?}", v(&d.pieces[0])));
                    cmp("value pieces", format!("{:?}", st.val_piece), format!("{:?}", v(&d.pieces[1])));
                    cmp("free key pieces", format!("{:?}", st.free_by[0]), format!("{:?}", d.free_by[0]));
                    cmp("free value pieces", format!("{:?}", st.free_by[1]), format!("{:?}", d.free_by[1]));
                    cmp("hash table", st.ht_size.to_string(), ((d.sizes[3] - 128) / 8).to_string());
                }
            }
            self.st.states.insert(crate::rng::mix(st.depth << 32 | st.used_nodes << 16 | st.free_nodes, n << 32 | st.free_keys << 16 | st.free_vals));
            if !bad.is_empty() {
                return Err(self.v(&["S01"], "structure", format!("map {}: {}", m, bad.join("; "))));
            }
        }
        Ok(())
    }

    fn audit(&mut self, m: usize) -> VRes {
        let s = &self.maps[m];
        if !s.created || !s.settled || s.tainted {
            self.st.skipped += 1;
            return Ok(());
        }
        let kt = s.spec.kt;
        let r = audit::decode(&world().disk, &self.base(m), kt, &|k| hash_of(kt, k));
        self.st.hit("audit");
        self.st.nontrivial = true;
        match r {
            Err(e) => Err(self.v(&["S02", "C03", "A04"], "audit", format!("map {}: the files do not decode: {}", m, e))),
            Ok(d) => {
                if let Some((k, _)) = d.entries.iter().find(|(k, _)| audit::file_hash(k) != hash_of(kt, k)) {
                    return Err(self.v(
                        &["C03"],
                        "audit-hash",
                        format!("map {}: the slot of key {:?} in the hash table is not the one that files have used so far", m, audit::short(k)),
                    ));
                }
                if (d.slots_used as usize) < d.entries.len() {
                    self.st.hit("keys-without-a-slot");
                }
                let got: Vec<Kv> = d.entries.clone();
                if let Err(e) = cmp_iter(&got, &self.maps[m].content, 0) {
                    return Err(self.v(&["S02", "C03", "A04"], "audit-content", format!("map {}: decoding the files by the documented format: {}", m, e)));
                }
                self.st.states.insert(crate::rng::mix(d.nodes << 32 | d.free_idx << 16 | d.depth, d.free_key << 32 | d.free_val));
                if !d.leaks.is_empty() {
                    return Err(self.leak(m, &d));
                }
                Ok(())
            }
        }
    }

    fn leak(&self, m: usize, d: &audit::Decoded) -> Violation {
        let (f, o, l) = d.leaks[0];
        self.v(
            &["S02"],
            "leak",
            format!(
                "map {}: {} bytes at {} of the {} file are neither in use nor free ({} such places)",
                m,
                l,
                o,
                f,
                d.leaks.len()
            ),
        )
    }
    fn snapshot_files(&self, m: usize) -> Vec<Option<Vec<u8>>> {
        ["key", "val", "idx"]
            .iter()
            .map(|e| world().disk.slurp(&format!("{}.{}", self.base(m), e)))
            .collect()
    }

    /// opening an existing, closed map as another type must be refused and must not change it
    fn wrong_type(&mut self, m: usize, kt: Kt) -> VRes {
        let d = self.maps[m].spec.db;
        let s = &self.maps[m];
        // a map whose creation is not saved yet is known to the database object that made it
        let known = s.settled || (s.created && s.in_db && !s.fresh_fail);
        if self.dbs[d].is_none() || s.tainted || !known || s.spec.kt == kt {
            self.st.skipped += 1;
            return Ok(());
        }
        let before = (self.chg(m), self.snapshot_files(m));
        let db = self.dbs[d].clone().unwrap();
        let spec = self.maps[m].spec.clone();
        let o = self.call(&[], || open_map(&db, &spec, kt, &DEFAULT_PARAMS).map(|_| ()));
        drop(db);
        self.st.hit("refusal");
        if !self.maps[m].settled {
            self.st.hit("refusal-unsaved");
        }
        self.st.nontrivial = true;
        if matches!(o, Out::Ok(())) {
            return Err(self.v(&["C02"], "accepted", format!("map {} was opened as type {}", m, kt.ch())));
        }
        let _ = o.label();
        if self.chg(m) != before.0 || self.snapshot_files(m) != before.1 {
            return Err(self.v(&["C02"], "refusal-changed", format!("the refused opening of map {} changed its files", m)));
        }
        Ok(())
    }
    /// a closed map with a damaged signature must be refused, unchanged
    fn bad_sig(&mut self, m: usize, file: u8, byte: u8) -> VRes {
        let d = self.maps[m].spec.db;
        if self.dbs[d].is_none() || self.maps[m].tainted || !self.maps[m].settled || self.maps[m].open() {
            self.st.skipped += 1;
            return Ok(());
        }
        let path = format!("{}.{}", self.base(m), ["key", "val", "idx", "htx"][file as usize % 4]);
        let off = byte as u64 % 16;
        let mut old = [0u8; 1];
        let ino = world().disk.file_mut(&path).unwrap();
        ino.read_at(off, &mut old);
        ino.write_at(off, &[old[0] ^ 0x21]);
        let before = (self.chg(m), self.snapshot_files(m));
        let db = self.dbs[d].clone().unwrap();
        let spec = self.maps[m].spec.clone();
        let o = self.call(&[], || open_map(&db, &spec, spec.kt, &DEFAULT_PARAMS).map(|_| ()));
        drop(db);
        self.st.hit("refusal");
        self.st.nontrivial = true;
        let bad = if matches!(o, Out::Ok(())) {
            Some(("accepted", format!("map {} was opened although its {} signature byte {} is damaged", m, path, off)))
        } else if self.chg(m) != before.0 || self.snapshot_files(m) != before.1 {
            Some(("refusal-changed", format!("the refused opening of map {} changed its files", m)))
        } else {
            None
        };
        let ino = world().disk.file_mut(&path).unwrap();
        ino.write_at(off, &old);
        match bad {
            Some((k, s)) => Err(self.v(&["C02"], k, s)),
            None => Ok(()),
        }
    }
}

fn lossy(v: Vec<u8>, s: bool) -> Vec<u8> {
    if s {
        String::from_utf8_lossy(&v).to_string().into_bytes()
    } else {
        v
    }
}
fn mem_keys(used: &BTreeSet<(Kt, usize)>, kt: Kt, keyb: &[Vec<Vec<u8>>; 3]) -> Vec<Vec<u8>> {
    used.iter()
        .filter(|x| x.0 == kt)
        .filter_map(|x| keyb[kt.ix()].get(x.1).cloned())
        .collect()
}

/// result of one whole run
pub struct RunOut {
    pub viol: Option<Violation>,
    pub st: RunStats,
    pub counters: Counters,
    pub trace: u64,
    pub unsupported: Option<String>,
    pub calls: Vec<[u32; 5]>,
}

fn run_once(prog: &Prog, ov: Option<Params>, log: bool, focus: &'static str) -> (RunOut, Vec<(String, u64)>) {
    reset_world();
    reset_ways();
    world().disk.tree.insert(
        format!("{}/root0", ROOT),
        Node::Dir { durable: true },
    );
    world().sector_shorts = prog.ops.iter().any(|o| {
        matches!(o.kind, OpKind::Crash { .. } | OpKind::Probe { .. })
            || o.faults.iter().any(|f| f.kind == FaultKind::Kill || f.kind.hard())
    });
    let mut ex = Exec::new(prog, ov);
    ex.log = log;
    ex.post = crate::strip::post_of(focus);
    ex.focus = focus;
    let r = match catch_unwind(AssertUnwindSafe(|| ex.run())) {
        Ok(r) => r,
        Err(_) => {
            // not from inside the code under test
            ex.finish();
            eprintln!("HARNESS PANIC: {}", last_panic());
            std::process::exit(3);
        }
    };
    ex.finish();
    let w = world();
    let img: Vec<(String, u64)> = w
        .disk
        .files()
        .into_iter()
        .map(|(p, i)| {
            let mut d = Disk::default();
            d.inodes.push(w.disk.inodes[i].clone());
            d.tree.insert("x".into(), Node::File(0));
            (p, d.digest())
        })
        .collect();
    ex.st.states.insert(w.disk.digest());
    (
        RunOut {
            viol: r.err(),
            st: ex.st,
            counters: w.c.clone(),
            trace: w.trace,
            unsupported: w.unsupported.clone(),
            calls: ex.calls,
        },
        img,
    )
}

/// `focus`: the property under test, or empty: then the first deviation of any kind ends the run
pub fn run_prog(prog: &Prog, log: bool, focus: &'static str) -> RunOut {
    let (mut a, img_a) = run_once(prog, None, log, focus);
    if a.viol.is_some() {
        return a;
    }
    if focus == "F04" && prog.ops.iter().any(|o| !o.faults.is_empty()) {
        let mut q = prog.clone();
        for o in q.ops.iter_mut() {
            o.faults.clear();
        }
        let (b, img_b) = run_once(&q, None, false, focus);
        a.st.hit("same-files-as-undisturbed");
        let bad = if b.viol.is_some() {
            None
        } else if a.st.result_hash != b.st.result_hash {
            Some(("disturbed-results", "the same operations gave other results without the disturbances".to_string()))
        } else if img_a != img_b {
            let f = img_a.iter().find(|x| !img_b.contains(x)).map(|x| x.0.clone()).unwrap_or_default();
            Some(("disturbed-image", format!("the same operations left other bytes in {} without the disturbances", f)))
        } else {
            None
        };
        if let Some((k, msg)) = bad {
            a.viol = Some(Violation { tags: vec!["F04"], also: vec![], kind: k.into(), msg, op: prog.ops.len() });
        }
        return a;
    }
    if prog.twin.is_none() {
        return a;
    }
    let (b, img_b) = run_once(prog, prog.twin, log, focus);
    a.st.hit("twin");
    a.st.nontrivial = true;
    let mk = |kind: &str, msg: String| Violation {
        tags: vec!["C01"],
        also: vec![],
        kind: kind.into(),
        msg,
        op: prog.ops.len(),
    };
    if let Some(mut v) = b.viol {
        v.msg = format!("only with the other buffer sizes: {}", v.msg);
        a.viol = Some(v);
    } else if a.st.result_hash != b.st.result_hash {
        a.viol = Some(mk("twin-results", "the same operations gave other results with other buffer sizes".into()));
    } else if img_a != img_b {
        let f = img_a
            .iter()
            .find(|x| !img_b.contains(x))
            .map(|x| x.0.clone())
            .unwrap_or_default();
        a.viol = Some(mk("twin-image", format!("the same operations left other bytes in {} with other buffer sizes", f)));
    }
    for (k, n) in b.counters.calls {
        *a.counters.calls.entry(k).or_insert(0) += n;
    }
    a.counters.sim_ns += b.counters.sim_ns;
    a.trace ^= b.trace.rotate_left(7);
    a
}
