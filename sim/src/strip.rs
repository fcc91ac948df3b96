//! Which property does a wrong answer speak about? A violation without tags counts for a property
//! only if it goes away when the program is rewritten without what the property is about.
use crate::disk::*;
use crate::exec::{Post, Violation};
use crate::prog::*;

pub fn post_of(prop: &str) -> Post {
    match prop {
        "S01" => Post::Structure,
        "S02" | "C03" => Post::Files,
        "A02" => Post::Iterate,
        _ => Post::Nothing,
    }
}

pub enum Verdict {
    Mine,
    Foreign,
    /// mine unless one of these programs fails as well
    Unless(Vec<Prog>),
}

pub fn verdict(prop: &str, p: &Prog, tags: &[String], kind: &str, op: usize) -> Verdict {
    if tags.iter().any(|t| t == prop || t.strip_prefix('+') == Some(prop)) {
        return Verdict::Mine;
    }
    if tags.iter().any(|t| !t.starts_with('+')) {
        return Verdict::Foreign;
    }
    // what follows the wrong answer does not matter
    let mut cut = p.clone();
    if op < cut.ops.len() && cut.twin.is_none() {
        cut.ops.truncate(op + 1);
    }
    let p = &cut;
    let opk = p.ops.get(op).map(|o| &o.kind);
    let iterish = kind == "iteration" || matches!(opk, Some(OpKind::Iter { .. }));
    match prop {
        "A01" => {
            if iterish || matches!(opk, Some(OpKind::Check { .. })) {
                Verdict::Foreign
            } else {
                Verdict::Mine
            }
        }
        "A02" => {
            if iterish {
                Verdict::Mine
            } else {
                Verdict::Foreign
            }
        }
        "C04" => Verdict::Mine,
        "S01" => {
            if matches!(opk, Some(OpKind::Check { .. })) {
                Verdict::Mine
            } else {
                Verdict::Foreign
            }
        }
        "A05" => Verdict::Unless((0..p.maps.len()).map(|m| only_map(p, m)).collect()),
        _ => match strip(prop, p) {
            Some(q) if q != *p => Verdict::Unless(vec![q]),
            // nothing of the kind was in it
            _ => Verdict::Foreign,
        },
    }
}
pub fn tags_of(v: &Violation) -> Vec<String> {
    v.tags.iter().map(|s| s.to_string()).chain(v.also.iter().map(|s| format!("+{}", s))).collect()
}

pub fn on_map(k: &OpKind) -> Option<usize> {
    use OpKind::*;
    match k {
        Map { m, .. } | CloneH { m } | Again { m, .. } | DropH { m } | Put { m, .. } | Get { m, .. } | Del { m, .. } => Some(*m),
        BPut { m, .. } | BGet { m, .. } | BDel { m, .. } | Flush { m, .. } | SyncAll { m, .. } => Some(*m),
        SyncData { m, .. } | Iter { m, .. } | Fill { m, .. } | Check { m } | Rate { m } | Verify { m } | Audit { m } => Some(*m),
        WrongType { m, .. } | BadSig { m, .. } | Far { m, .. } | Mark { m, .. } | NoGrow { m, .. } => Some(*m),
        _ => None,
    }
}
pub fn only_map(p: &Prog, m: usize) -> Prog {
    let mut q = p.clone();
    q.ops.retain(|o| on_map(&o.kind).map_or(true, |x| x == m));
    q
}

fn no_faults(q: &mut Prog, f: impl Fn(&Fault) -> bool) {
    for o in q.ops.iter_mut() {
        o.faults.retain(|x| !f(x));
        if !o.faults.iter().any(|x| x.kind == FaultKind::Kill) {
            o.crash = None;
        }
    }
}

pub fn strip(prop: &str, p: &Prog) -> Option<Prog> {
    use OpKind::*;
    let mut q = p.clone();
    match prop {
        "A03" => {
            let mut ops = vec![];
            for o in &p.ops {
                match &o.kind {
                    BPut { m, h, kv, s } => {
                        for (k, v) in kv {
                            ops.push(Op::new(Put { m: *m, h: *h, k: *k, v: *v, s: *s }));
                        }
                    }
                    BGet { m, h, ks, s } => {
                        for k in ks {
                            ops.push(Op::new(Get { m: *m, h: *h, k: *k, s: *s }));
                        }
                    }
                    BDel { m, h, ks, s } => {
                        for k in ks {
                            ops.push(Op::new(Del { m: *m, h: *h, k: *k, s: *s }));
                        }
                    }
                    _ => ops.push(o.clone()),
                }
            }
            q.ops = ops;
        }
        "A04" => q.ops.retain(|o| !matches!(o.kind, Close(_) | DropDb(_) | DropH { .. } | Audit { .. })),
        "A06" => {
            q.ops.retain(|o| !matches!(o.kind, CloneH { .. } | Again { .. } | DropH { .. } | DropDb(_)));
            for o in q.ops.iter_mut() {
                match &mut o.kind {
                    Put { h, .. } | Get { h, .. } | Del { h, .. } | BPut { h, .. } | BGet { h, .. } | BDel { h, .. } => *h = 0,
                    Flush { h, .. } | SyncAll { h, .. } | SyncData { h, .. } | Iter { h, .. } | Fill { h, .. } => *h = 0,
                    _ => (),
                }
            }
        }
        "D01" | "D02" | "D03" | "D04" => {
            q.ops.retain(|o| !matches!(o.kind, Probe { .. } | Crash { .. }));
            no_faults(&mut q, |_| true);
        }
        "F01" | "F02" | "F03" | "F05" | "F06" => no_faults(&mut q, |f| f.kind.hard()),
        "F04" => no_faults(&mut q, |_| true),
        "C01" => {
            q.twin = None;
            q.params = vec![DEFAULT_PARAMS];
            for o in q.ops.iter_mut() {
                if let Map { p, .. } = &mut o.kind {
                    *p = 0;
                }
            }
        }
        "C02" => q.ops.retain(|o| !matches!(o.kind, WrongType { .. } | BadSig { .. })),
        _ => return None,
    }
    Some(q)
}
