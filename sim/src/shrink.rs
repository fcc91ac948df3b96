//! Shrinking a failing program: delete and simplify while the same thing fails.
use crate::prog::*;

/// `test` says whether a candidate still fails in the same way; `go` whether there is time left
pub fn shrink(mut p: Prog, mut test: impl FnMut(&Prog) -> bool, mut go: impl FnMut() -> bool) -> Prog {
    if p.ops.iter().any(|o| matches!(o.kind, OpKind::Mark { .. })) {
        return cycles(p, test, go);
    }
    // nothing after the failing operation matters; ddmin takes care of that first
    loop {
        let before = p.text().len();
        // 1. whole operations
        let mut chunk = (p.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < p.ops.len() {
                if !go() {
                    return p;
                }
                let end = p.ops.len() - i;
                let start = end.saturating_sub(chunk);
                let mut q = p.clone();
                q.ops.drain(start..end);
                if test(&q) {
                    p = q;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // 2. faults, crash details
        for i in 0..p.ops.len() {
            let mut j = 0;
            while j < p.ops[i].faults.len() {
                if !go() {
                    return p;
                }
                let mut q = p.clone();
                q.ops[i].faults.remove(j);
                if test(&q) {
                    p = q;
                } else {
                    j += 1;
                }
            }
            if matches!(&p.ops[i].crash, Some(c) if c.real) {
                let mut q = p.clone();
                q.ops[i].crash.as_mut().unwrap().real = false;
                if test(&q) {
                    p = q;
                }
            }
            if matches!(&p.ops[i].crash, Some(c) if c.power.is_some()) {
                let mut q = p.clone();
                q.ops[i].crash.as_mut().unwrap().power = None;
                if test(&q) {
                    p = q;
                }
            }
        }
        // 3. lists
        for i in 0..p.ops.len() {
            let n = match &p.ops[i].kind {
                OpKind::BPut { kv, .. } => kv.len(),
                OpKind::BGet { ks, .. } | OpKind::BDel { ks, .. } => ks.len(),
                _ => 0,
            };
            if n == 0 {
                continue;
            }
            let mut chunk = (n / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let mut q = p.clone();
                    let left = match &mut q.ops[i].kind {
                        OpKind::BPut { kv, .. } => cut(kv, at, chunk),
                        OpKind::BGet { ks, .. } | OpKind::BDel { ks, .. } => cut(ks, at, chunk),
                        _ => false,
                    };
                    if !left {
                        break;
                    }
                    if !go() {
                        return p;
                    }
                    if test(&q) {
                        p = q;
                    } else {
                        at += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // 4. simpler arguments
        for i in 0..p.ops.len() {
            for q in simpler(&p, i) {
                if !go() {
                    return p;
                }
                if q != p && test(&q) {
                    p = q;
                }
            }
        }
        for i in 0..p.params.len() {
            if !p.params[i].default {
                let mut q = p.clone();
                q.params[i] = DEFAULT_PARAMS;
                if test(&q) {
                    p = q;
                }
            }
        }
        if p.mem {
            let mut q = p.clone();
            q.mem = false;
            if test(&q) {
                p = q;
            }
        }
        if p.text().len() >= before || !go() {
            return p;
        }
    }
}

/// A program that repeats a cycle stays one that repeats a cycle: whole keys go, then the same
/// step of every cycle.
fn cycles(mut p: Prog, mut test: impl FnMut(&Prog) -> bool, mut go: impl FnMut() -> bool) -> Prog {
    let key = |o: &Op| match &o.kind {
        OpKind::Put { k, .. } | OpKind::Del { k, .. } => Some(*k),
        _ => None,
    };
    let mut ks: Vec<usize> = p.ops.iter().filter_map(key).collect();
    ks.sort_unstable();
    ks.dedup();
    let mut chunk = (ks.len() / 2).max(1);
    loop {
        let mut at = 0;
        while at < ks.len() {
            if !go() {
                return p;
            }
            let end = (at + chunk).min(ks.len());
            let mut q = p.clone();
            q.ops.retain(|o| !matches!(key(o), Some(k) if ks[at..end].contains(&k)));
            if test(&q) {
                p = q;
                ks.drain(at..end);
            } else {
                at = end;
            }
        }
        if chunk == 1 {
            break;
        }
        chunk /= 2;
    }
    let mut j = 0;
    loop {
        if !go() {
            return p;
        }
        let (mut q, mut at, mut any) = (p.clone(), 0, false);
        q.ops.retain(|o| match key(o) {
            Some(_) => {
                at += 1;
                any |= at == j + 1;
                at != j + 1
            }
            None => {
                at = 0;
                true
            }
        });
        if !any {
            return p;
        }
        if test(&q) {
            p = q;
        } else {
            j += 1;
        }
    }
}

fn cut<T>(v: &mut Vec<T>, at: usize, n: usize) -> bool {
    if at >= v.len() {
        return false;
    }
    let end = (at + n).min(v.len());
    v.drain(at..end);
    true
}

fn simpler(p: &Prog, i: usize) -> Vec<Prog> {
    let mut out = vec![];
    let mut with = |f: &dyn Fn(&mut OpKind)| {
        let mut q = p.clone();
        f(&mut q.ops[i].kind);
        out.push(q);
    };
    with(&|k| match k {
        OpKind::Put { s, .. } | OpKind::Get { s, .. } | OpKind::Del { s, .. } => *s = false,
        OpKind::BPut { s, .. } | OpKind::BGet { s, .. } | OpKind::BDel { s, .. } => *s = false,
        _ => (),
    });
    with(&|k| match k {
        OpKind::Put { h, .. } | OpKind::Get { h, .. } | OpKind::Del { h, .. } => *h = 0,
        OpKind::BPut { h, .. } | OpKind::BGet { h, .. } | OpKind::BDel { h, .. } => *h = 0,
        OpKind::Flush { h, .. } | OpKind::SyncAll { h, .. } | OpKind::SyncData { h, .. } => *h = 0,
        OpKind::Iter { h, form, n, .. } => {
            *h = 0;
            *form = 0;
            *n = 0;
        }
        _ => (),
    });
    for len in [0u32, 1, 16, 100] {
        with(&|k| match k {
            OpKind::Put { v, .. } if v.len > len => v.len = len,
            OpKind::BPut { kv, .. } => {
                for x in kv.iter_mut() {
                    if x.1.len > len {
                        x.1.len = len;
                    }
                }
            }
            _ => (),
        });
    }
    with(&|k| {
        if let OpKind::Put { v, .. } = k {
            v.tag &= !3;
        }
    });
    with(&|k| {
        let new = match k {
            OpKind::BPut { m, h, kv, s } if kv.len() == 1 => Some(OpKind::Put { m: *m, h: *h, k: kv[0].0, v: kv[0].1, s: *s }),
            OpKind::BGet { m, h, ks, s } if ks.len() == 1 => Some(OpKind::Get { m: *m, h: *h, k: ks[0], s: *s }),
            OpKind::BDel { m, h, ks, s } if ks.len() == 1 => Some(OpKind::Del { m: *m, h: *h, k: ks[0], s: *s }),
            _ => None,
        };
        if let Some(n) = new {
            *k = n;
        }
    });
    out
}
