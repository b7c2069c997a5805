//! Reference model of a hierarchy: an ordered forest.

use std::collections::BTreeMap;

use portgraph::hierarchy::AttachError;
use portgraph::Hierarchy;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::model::{drain, ni};
use crate::runner::no_panic;
use crate::{ensure, ensure_eq, Ctx, TR};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Forest {
    pub parent: BTreeMap<usize, usize>,
    pub children: BTreeMap<usize, Vec<usize>>,
}

impl Forest {
    pub fn kids(&self, n: usize) -> &[usize] {
        self.children.get(&n).map_or(&[], |v| v)
    }
    pub fn attach(&mut self, n: usize, p: usize, at: usize) {
        self.parent.insert(n, p);
        self.children.entry(p).or_default().insert(at, n);
    }
    pub fn detach(&mut self, n: usize) -> Option<usize> {
        let p = self.parent.remove(&n)?;
        let v = self.children.get_mut(&p).unwrap();
        v.retain(|x| *x != n);
        if v.is_empty() {
            self.children.remove(&p);
        }
        Some(p)
    }
    pub fn detach_children(&mut self, n: usize) {
        for c in self.children.remove(&n).unwrap_or_default() {
            self.parent.remove(&c);
        }
    }
    /// Is `a` an ancestor of `n`, or `n` itself?
    pub fn within(&self, mut n: usize, a: usize) -> bool {
        loop {
            if n == a {
                return true;
            }
            match self.parent.get(&n) {
                Some(p) => n = *p,
                None => return false,
            }
        }
    }
    pub fn rename(&self, f: impl Fn(usize) -> usize) -> Forest {
        Forest {
            parent: self.parent.iter().map(|(a, b)| (f(*a), f(*b))).collect(),
            children: self.children.iter().map(|(a, b)| (f(*a), b.iter().map(|x| f(*x)).collect())).collect(),
        }
    }
    /// Breadth-first order from `n`.
    pub fn bfs(&self, n: usize) -> Vec<usize> {
        let mut out = vec![n];
        let mut i = 0;
        while i < out.len() {
            out.extend_from_slice(self.kids(out[i]));
            i += 1;
        }
        out
    }
    pub fn depth(&self, n: usize) -> usize {
        let (mut d, mut n) = (0, n);
        while let Some(p) = self.parent.get(&n) {
            n = *p;
            d += 1;
        }
        d
    }
}

/// Compare every query for the indices `0..upto` (and what the model holds).
pub fn check_forest(h: &Hierarchy, m: &Forest, upto: usize) -> TR {
    let mut ids: Vec<usize> = (0..upto).collect();
    ids.extend(m.parent.keys().chain(m.children.keys()).filter(|x| **x >= upto));
    for &n in &ids {
        let nd = ni(n);
        let par = m.parent.get(&n).copied();
        ensure_eq!(h.parent(nd).map(|x| x.index()), par, "parent({n})");
        ensure_eq!(h.is_root(nd), par.is_none(), "is_root({n})");
        let kids = m.kids(n);
        ensure_eq!(h.first(nd).map(|x| x.index()), kids.first().copied(), "first({n})");
        ensure_eq!(h.last(nd).map(|x| x.index()), kids.last().copied(), "last({n})");
        ensure_eq!(h.child_count(nd), kids.len(), "child_count({n})");
        ensure_eq!(h.has_children(nd), !kids.is_empty(), "has_children({n})");
        let got: Vec<usize> = drain(h.children(nd), kids.len() + 2, "children")?.iter().map(|x| x.index()).collect();
        ensure_eq!(got, kids, "children({n})");
        let mut rev: Vec<usize> = h.children(nd).rev().take(kids.len() + 2).map(|x| x.index()).collect();
        rev.reverse();
        ensure_eq!(rev, kids, "reversed children({n})");
        // From both ends.
        let (mut it, mut front, mut back) = (h.children(nd), vec![], vec![]);
        for k in 0..kids.len() {
            ensure_eq!(it.len(), kids.len() - k, "len of children({n}) after {k} steps");
            let x = if (k + n) % 2 == 0 { it.next() } else { it.next_back() };
            let x = x.ok_or(format!("children({n}) ends early from both ends"))?.index();
            if (k + n) % 2 == 0 {
                front.push(x)
            } else {
                back.push(x)
            }
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "children({n}) does not end from both ends");
        back.reverse();
        front.extend(back);
        ensure_eq!(front, kids, "children({n}) from both ends");
        let pos = par.map(|p| (p, m.kids(p).iter().position(|x| *x == n).unwrap()));
        let want_next = pos.and_then(|(p, i)| m.kids(p).get(i + 1).copied());
        let want_prev = pos.and_then(|(p, i)| i.checked_sub(1).map(|i| m.kids(p)[i]));
        ensure_eq!(h.next(nd).map(|x| x.index()), want_next, "next({n})");
        ensure_eq!(h.prev(nd).map(|x| x.index()), want_prev, "prev({n})");
        let bfs = m.bfs(n);
        let got: Vec<usize> =
            drain(h.descendants(nd), bfs.len() + 2, "descendants")?.iter().map(|x| x.index()).collect();
        ensure_eq!(got, bfs, "descendants({n})");
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum HOp {
    Push(u16, u16),
    PushFront(u16, u16),
    Before(u16, u16),
    After(u16, u16),
    Detach(u16),
    DetachChildren(u16),
    Remove(u16),
    Swap(u16, u16),
    Rekey(u16, u16),
    /// Rekey all indices in use to a dense prefix, in increasing order.
    Compact,
    Capacity(u8),
    Shrink(u8),
    Clone,
    Serde(bool),
}

pub fn hops(len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<HOp>> {
    let s = || any::<u16>();
    prop::collection::vec(
        prop_oneof![
            14 => (s(), s()).prop_map(|(a, b)| HOp::Push(a, b)),
            8 => (s(), s()).prop_map(|(a, b)| HOp::PushFront(a, b)),
            10 => (s(), s()).prop_map(|(a, b)| HOp::Before(a, b)),
            10 => (s(), s()).prop_map(|(a, b)| HOp::After(a, b)),
            4 => s().prop_map(HOp::Detach),
            2 => s().prop_map(HOp::DetachChildren),
            2 => s().prop_map(HOp::Remove),
            7 => (s(), s()).prop_map(|(a, b)| HOp::Swap(a, b)),
            5 => (s(), s()).prop_map(|(a, b)| HOp::Rekey(a, b)),
            1 => Just(HOp::Compact),
            1 => any::<u8>().prop_map(HOp::Capacity),
            1 => any::<u8>().prop_map(HOp::Shrink),
            1 => Just(HOp::Clone),
            1 => any::<bool>().prop_map(HOp::Serde),
        ],
        len,
    )
}

/// Apply one operation to both.
pub fn hstep(h: &mut Hierarchy, m: &mut Forest, op: &HOp, uni: usize, ctx: &mut Ctx) -> TR {
    let r = |s: u16| s as usize % uni;
    let attach = |m: &mut Forest, n: usize, p: Option<usize>, sib: Option<usize>, at: usize, res: Result<(), AttachError>| -> TR {
        let attached = m.parent.contains_key(&n);
        let cycle = p.is_some_and(|p| m.within(p, n));
        match res {
            Ok(()) => {
                ensure!(!attached, "attaching {n} succeeded although it has a parent");
                ensure!(!cycle, "attaching {n} below {p:?} succeeded although that is a cycle");
                let Some(p) = p else { return Err(format!("attaching {n} next to the root {sib:?} succeeded")) };
                m.attach(n, p, at);
            }
            Err(e) => {
                let _ = e.to_string();
                ensure!(attached || cycle || p.is_none(), "attaching {n} below {p:?} failed with {e:?}");
                match e {
                    AttachError::AlreadyAttached { node } => {
                        ensure!(attached && node.index() == n, "attaching {n} below {p:?} failed with {e:?}")
                    }
                    AttachError::RootSibling { root } => {
                        ensure!(p.is_none() && Some(root.index()) == sib, "attaching {n} next to {sib:?} failed with {e:?}")
                    }
                    AttachError::Cycle { node, parent } => ensure!(
                        cycle && node.index() == n && Some(parent.index()) == p,
                        "attaching {n} below {p:?} failed with {e:?}"
                    ),
                }
            }
        }
        Ok(())
    };
    match *op {
        HOp::Push(a, b) => {
            let (n, p) = (r(a), r(b));
            let res = h.push_child(ni(n), ni(p));
            ctx.label(if res.is_ok() { "attach" } else { "rejected attach" });
            let at = m.kids(p).len();
            attach(m, n, Some(p), None, at, res)?;
        }
        HOp::PushFront(a, b) => {
            let (n, p) = (r(a), r(b));
            let res = h.push_front_child(ni(n), ni(p));
            ctx.label(if res.is_ok() { "attach" } else { "rejected attach" });
            attach(m, n, Some(p), None, 0, res)?;
        }
        HOp::Before(a, b) | HOp::After(a, b) => {
            let n = r(a);
            // Mostly next to a node that has a parent.
            let att: Vec<usize> = m.parent.keys().copied().filter(|x| *x < uni).collect();
            let sib = if att.is_empty() || b % 5 == 0 { r(b) } else { att[b as usize % att.len()] };
            let before = matches!(op, HOp::Before(..));
            let res = if before { h.insert_before(ni(n), ni(sib)) } else { h.insert_after(ni(n), ni(sib)) };
            ctx.label(if res.is_ok() { "attach" } else { "rejected attach" });
            let p = m.parent.get(&sib).copied();
            let at = p.map_or(0, |p| m.kids(p).iter().position(|x| *x == sib).unwrap() + !before as usize);
            attach(m, n, p, Some(sib), at, res)?;
        }
        HOp::Detach(a) => {
            let got = h.detach(ni(r(a))).map(|x| x.index());
            ensure_eq!(got, m.detach(r(a)), "detach({})", r(a));
            ctx.label_if(got.is_some(), "detach");
        }
        HOp::DetachChildren(a) => {
            h.detach_children(ni(r(a)));
            m.detach_children(r(a));
        }
        HOp::Remove(a) => {
            h.remove(ni(r(a)));
            m.detach(r(a));
            m.detach_children(r(a));
        }
        HOp::Swap(a, b) => {
            let (x, y) = (r(a), r(b));
            let sib = m.parent.get(&x).is_some() && m.parent.get(&x) == m.parent.get(&y) && x != y;
            ctx.label_if(sib, "swap of siblings");
            ctx.label_if(m.parent.get(&x) == Some(&y) || m.parent.get(&y) == Some(&x), "swap of parent and child");
            h.swap_nodes(ni(x), ni(y));
            *m = m.rename(|n| if n == x { y } else if n == y { x } else { n });
            ctx.label("swap");
        }
        HOp::Rekey(a, b) => {
            let (x, y) = (r(a), r(b));
            let occupied = m.parent.contains_key(&y) || m.children.contains_key(&y);
            if x == y {
                // What compacting reports for a node that stays in place.
                h.rekey(ni(x), ni(y));
            } else if occupied {
                let mut c = h.clone();
                ensure!(no_panic(|| c.rekey(ni(x), ni(y))).is_err(), "rekey({x},{y}) into an occupied index did not panic");
                ctx.label("rekey into an occupied index");
            } else {
                h.rekey(ni(x), ni(y));
                *m = m.rename(|n| if n == x { y } else { n });
                ctx.label("rekey");
            }
        }
        HOp::Compact => {
            let mut ids: Vec<usize> = m.parent.keys().chain(m.children.keys()).copied().collect();
            ids.sort();
            ids.dedup();
            for (new, old) in ids.iter().enumerate() {
                h.rekey(ni(*old), ni(new));
            }
            *m = m.rename(|n| ids.binary_search(&n).unwrap());
            ctx.label("compact");
        }
        HOp::Capacity(k) => h.ensure_capacity(k as usize),
        HOp::Shrink(k) => {
            let k = k as usize % (2 * uni);
            h.shrink_to(k);
            for n in k..uni.max(k) {
                m.detach(n);
                m.detach_children(n);
            }
            ctx.label_if(k < uni, "shrink below the universe");
        }
        HOp::Clone => {
            let c = h.clone();
            ensure!(c == *h, "a clone differs from the original");
            *h = c;
        }
        HOp::Serde(json) => {
            let c: Hierarchy = if json {
                let s = serde_json::to_string(h).map_err(|e| format!("serialise: {e}"))?;
                serde_json::from_str(&s).map_err(|e| format!("deserialise: {e}"))?
            } else {
                let s = rmp_serde::to_vec(h).map_err(|e| format!("serialise: {e}"))?;
                rmp_serde::from_slice(&s).map_err(|e| format!("deserialise: {e}"))?
            };
            ensure!(c == *h, "deserialised hierarchy differs from the original");
            *h = c;
            ctx.label("serde");
        }
    }
    Ok(())
}

/// A hierarchy over the given nodes: (selector, kind) per node.
pub fn make_forest(ids: &[usize], sel: &[(u16, u8)]) -> (Hierarchy, Forest) {
    let (mut h, mut m) = (Hierarchy::new(), Forest::default());
    // An arbitrary but fixed order, so that parents have any index.
    let mut placed: Vec<usize> = vec![];
    for (k, &n) in ids.iter().enumerate() {
        let (s, kind) = match sel.get(k) {
            Some(x) => *x,
            // Large graphs: repeat the selectors, varied.
            None if k >= 16 && !sel.is_empty() => {
                let (s, kind) = sel[k % sel.len()];
                (s.wrapping_add((k as u16).wrapping_mul(40503)), kind)
            }
            None => (0, 0),
        };
        let other = crate::pick(&placed, s as usize);
        match (kind % 8, other) {
            (0, _) | (_, None) => {}
            (1, Some(o)) => {
                h.push_front_child(ni(n), ni(o)).unwrap();
                m.attach(n, o, 0);
            }
            (2, Some(o)) if m.parent.contains_key(&o) => {
                h.insert_before(ni(n), ni(o)).unwrap();
                let p = m.parent[&o];
                let at = m.kids(p).iter().position(|x| *x == o).unwrap();
                m.attach(n, p, at);
            }
            (_, Some(o)) => {
                h.push_child(ni(n), ni(o)).unwrap();
                let at = m.kids(o).len();
                m.attach(n, o, at);
            }
        }
        placed.push(n);
    }
    (h, m)
}
