//! Stateful driver: a history of mutations applied to a real graph and to the
//! reference model together. The model learns allocated indices from the
//! return values and callbacks, so it prescribes no allocation policy.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use portgraph::index::Unsigned;
use portgraph::multiportgraph::SubportIndex;
use portgraph::portgraph::PortOperation;
use portgraph::{LinkError, LinkMut, MultiMut, MultiPortGraph, LinkView, MultiView, PortGraph, PortOffset, PortView};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use crate::model::*;
use crate::{ensure, ensure_eq, Ctx, TR};

/// One mutation. Selectors are resolved modulo the live entities.
#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum Op {
    AddNode(u8, u8),
    RemoveNode(u16),
    /// Remove a node index that is not live.
    RemoveMissing(u16),
    /// Link an output and an input port by index.
    Link(u16, u16),
    /// The same with the input first.
    LinkRev(u16, u16),
    /// `link_nodes`: source, target (live nodes), offsets may be out of range.
    LinkNodes(u16, u8, u16, u8),
    /// `link_offsets` with arbitrary directions.
    LinkOffsets(u16, bool, u8, u16, bool, u8),
    /// `link_ports` on two arbitrary port indices (often a rejected one).
    LinkAny(u16, u16),
    Unlink(u16),
    /// `unlink_port` on an arbitrary index.
    UnlinkAny(u16),
    SetPorts(u16, u8, u8),
    CompactNodes,
    CompactPorts,
    Swap(u16, u16),
    Reserve(u8, u8),
    Shrink,
    Clone,
    Clear,
    /// Link two listed subports (multiport graphs).
    LinkSub(u16, u16),
    /// Link two arbitrary subports of existing ports (multiport graphs).
    LinkSubAny(u16, u8, u16, u8),
    /// Unlink a linked subport.
    UnlinkSub(u16),
    /// Unlink / query an arbitrary subport.
    UnlinkSubAny(u16, u8),
    /// Serialise and read back, continuing with the copy.
    Serde(bool),
}

/// Relative weights of the operations.
#[derive(Clone, Copy)]
pub struct Mix {
    pub multi: bool,
    pub add: u32,
    pub remove: u32,
    pub link: u32,
    pub reject: u32,
    pub unlink: u32,
    pub set: u32,
    pub compact: u32,
    pub swap: u32,
    pub misc: u32,
    pub sub: u32,
    pub serde: u32,
    /// Maximal number of ports per direction.
    pub max_ports: u8,
}

impl Default for Mix {
    fn default() -> Self {
        Mix {
            multi: false,
            add: 10,
            remove: 4,
            link: 20,
            reject: 3,
            unlink: 4,
            set: 6,
            compact: 3,
            swap: 3,
            misc: 1,
            sub: 0,
            serde: 0,
            max_ports: 4,
        }
    }
}

pub fn ops(mix: Mix, len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<Op>> + Clone {
    let mp = mix.max_ports;
    let s = || any::<u16>();
    let n = move || prop_oneof![8 => 0..=mp.min(4), 2 => 0..=mp];
    let set = move || prop_oneof![8 => 0..=mp.min(6), 2 => 0..=mp];
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (mix.add, (n(), n()).prop_map(|(a, b)| Op::AddNode(a, b)).boxed()),
        (mix.remove, s().prop_map(Op::RemoveNode).boxed()),
        (mix.link, (s(), s()).prop_map(|(a, b)| Op::Link(a, b)).boxed()),
        (mix.link / 4, (s(), s()).prop_map(|(a, b)| Op::LinkRev(a, b)).boxed()),
        (
            mix.link / 4,
            (s(), 0..=mp, s(), 0..=mp).prop_map(|(a, b, c, d)| Op::LinkNodes(a, b, c, d)).boxed(),
        ),
        (
            mix.reject,
            (s(), any::<bool>(), 0..=mp, s(), any::<bool>(), 0..=mp)
                .prop_map(|(a, b, c, d, e, f)| Op::LinkOffsets(a, b, c, d, e, f))
                .boxed(),
        ),
        (mix.reject, (s(), s()).prop_map(|(a, b)| Op::LinkAny(a, b)).boxed()),
        (mix.reject / 2, s().prop_map(Op::UnlinkAny).boxed()),
        (mix.reject / 3, s().prop_map(Op::RemoveMissing).boxed()),
        (mix.unlink, s().prop_map(Op::Unlink).boxed()),
        (mix.set, (s(), set(), set()).prop_map(|(a, b, c)| Op::SetPorts(a, b, c)).boxed()),
        (mix.compact, Just(Op::CompactNodes).boxed()),
        (mix.compact, Just(Op::CompactPorts).boxed()),
        (mix.swap, (s(), s()).prop_map(|(a, b)| Op::Swap(a, b)).boxed()),
        (mix.misc, (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Reserve(a, b)).boxed()),
        (mix.misc, Just(Op::Shrink).boxed()),
        (mix.misc, Just(Op::Clone).boxed()),
        (mix.serde, any::<bool>().prop_map(Op::Serde).boxed()),
    ];
    if mix.multi {
        v.push((mix.sub, (s(), s()).prop_map(|(a, b)| Op::LinkSub(a, b)).boxed()));
        v.push((
            mix.sub / 2,
            (s(), 0u8..4, s(), 0u8..4).prop_map(|(a, b, c, d)| Op::LinkSubAny(a, b, c, d)).boxed(),
        ));
        v.push((mix.sub, s().prop_map(Op::UnlinkSub).boxed()));
        v.push((mix.sub / 2, (s(), 0u8..4).prop_map(|(a, b)| Op::UnlinkSubAny(a, b)).boxed()));
    }
    for x in v.iter_mut() {
        x.0 *= 6;
    }
    v.push((mix.misc.min(2), Just(Op::Clear).boxed()));
    v.retain(|x| x.0 > 0);
    let prefix = prop::collection::vec((n(), n()).prop_map(|(a, b)| Op::AddNode(a, b)), 0..7);
    let links = prop::collection::vec((s(), s()).prop_map(|(a, b)| Op::Link(a, b)), 0..9);
    let body = prop::collection::vec(proptest::strategy::Union::new_weighted(v), len);
    (prefix, links, body).prop_map(|(mut a, b, c)| {
        a.extend(b);
        a.extend(c);
        a
    })
}

/// Operations of the two graph types under one name.
pub trait TestGraph:
    LinkMut<LinkEndpoint = Self::E, PortOffsetBase = Self::O>
    + Clone
    + PartialEq
    + Debug
    + Default
    + Serialize
    + DeserializeOwned
{
    type E: Ep + Debug + PartialEq + Into<portgraph::PortIndex>;
    type O: Unsigned;
    const MULTI: bool;
    fn check_more(&self, m: &Model) -> TR;
    fn list_subports(&self, _n: usize, _d: usize) -> Vec<Hd> {
        vec![]
    }
    fn link_sub(&mut self, _a: Hd, _b: Hd) -> Result<(), LinkError<Self::O>> {
        unreachable!()
    }
    fn unlink_sub(&mut self, _a: Hd) -> Option<Hd> {
        unreachable!()
    }
    fn link_of_sub(&self, _a: Hd) -> Option<Hd> {
        unreachable!()
    }
}

impl<PO> TestGraph for PortGraph<u32, u32, PO>
where
    PO: Unsigned + Serialize + DeserializeOwned + Default,
{
    type E = portgraph::PortIndex;
    type O = PO;
    const MULTI: bool = false;
    fn check_more(&self, m: &Model) -> TR {
        check_absent(self, m)
    }
}

fn sp(h: Hd) -> SubportIndex {
    SubportIndex::new_multi(pi(h.0), h.1)
}

impl<PO> TestGraph for MultiPortGraph<u32, u32, PO>
where
    PO: Unsigned + Serialize + DeserializeOwned + Default,
{
    type E = SubportIndex;
    type O = PO;
    const MULTI: bool = true;
    fn check_more(&self, m: &Model) -> TR {
        check_subports(self, m)?;
        check_flat(self, m)
    }
    fn list_subports(&self, n: usize, d: usize) -> Vec<Hd> {
        self.subports(ni(n), dir(d)).map(|e| e.ep()).collect()
    }
    fn link_sub(&mut self, a: Hd, b: Hd) -> Result<(), LinkError<PO>> {
        self.link_subports(sp(a), sp(b))
    }
    fn unlink_sub(&mut self, a: Hd) -> Option<Hd> {
        self.unlink_subport(sp(a)).map(|e| e.ep())
    }
    fn link_of_sub(&self, a: Hd) -> Option<Hd> {
        self.subport_link(sp(a)).map(|e| e.ep())
    }
}

/// The plain graph underneath a multiport graph: every extra node stands for
/// one port with several links, and contracting the extra nodes gives exactly
/// the links of the model.
pub fn check_flat<PO>(g: &MultiPortGraph<u32, u32, PO>, m: &Model) -> TR
where
    PO: Unsigned,
{
    let f = g.as_portgraph();
    let mut copies = BTreeMap::new();
    for n in f.nodes_iter() {
        let main = g.pg_main_node(n);
        if m.nodes.contains_key(&n.index()) {
            ensure_eq!(main, n, "pg_main_node of a main node");
        } else {
            ensure!(m.nodes.contains_key(&main.index()), "pg_main_node({n:?}) = {main:?} is not a main node");
            copies.insert(n.index(), main.index());
        }
    }
    ensure_eq!(f.node_count(), m.nodes.len() + copies.len(), "nodes of the flat graph");
    for (&n, mn) in &m.nodes {
        for d in 0..2 {
            let flat: Vec<usize> = f.ports(ni(n), dir(d)).map(|p| p.index()).collect();
            ensure_eq!(flat, mn.ports[d], "ports of {n} in the flat graph");
        }
    }
    // Main ports reachable from a port through implicit nodes.
    let mut used = BTreeSet::new();
    let mut expand = |p: usize| -> Vec<usize> {
        let mut out = vec![];
        let mut stack = vec![(p, 0)];
        while let Some((p, depth)) = stack.pop() {
            let Some(q) = f.port_link(pi(p)) else { continue };
            let qn = f.port_node(q).unwrap();
            if !copies.contains_key(&qn.index()) {
                out.push(q.index());
            } else if depth < 3 {
                used.insert(qn.index());
                let d = f.port_direction(q).unwrap();
                stack.extend(f.ports(qn, d.reverse()).map(|x| (x.index(), depth + 1)));
            }
        }
        out.sort();
        out
    };
    for (&p, t) in &m.ports {
        let got = expand(p);
        let mut want: Vec<usize> = m.port_links(p).into_iter().map(|(_, b)| b.0).collect();
        want.sort();
        ensure_eq!(got, want, "links of port {p} ({t:?}) in the flat graph");
    }
    for (c, main) in &copies {
        ensure!(used.contains(c), "implicit node {c} (of {main}) belongs to no port");
    }
    Ok(())
}

/// Real graph and model, advanced together.
pub struct Driver<G: TestGraph> {
    pub g: G,
    pub m: Model,
    /// One more than the largest node index in use since the last clear or
    /// node compaction: the indices `swap_nodes` may be given.
    pub slots: usize,
    /// Tags of nodes and ports kept only through return values and callbacks.
    pub node_tag: BTreeMap<usize, u64>,
    pub port_tag: BTreeMap<usize, u64>,
    pub next_tag: u64,
    /// Compare everything after each operation.
    pub check_each: bool,
    pub opts: ViewOpts,
}

/// The events of one callback-taking operation.
#[derive(Default, Debug)]
pub struct Events {
    pub moved_nodes: Vec<(usize, usize)>,
    pub ports: Vec<(usize, PortOperation)>,
    pub moved_ports: Vec<(usize, usize)>,
}

impl<G: TestGraph> Driver<G> {
    pub fn new(g: G) -> Self {
        Driver {
            g,
            m: Model::default(),
            slots: 0,
            node_tag: BTreeMap::new(),
            port_tag: BTreeMap::new(),
            next_tag: 1,
            check_each: true,
            opts: ViewOpts::default(),
        }
    }

    /// Compare the graph with the model.
    pub fn verify(&self) -> TR {
        check_view(&self.g, &self.m, self.opts)?;
        self.g.check_more(&self.m)
    }

    /// The tags must sit on the same structure as the model's.
    fn tags_match(&self, what: &str) -> TR {
        let n: Vec<usize> = self.node_tag.keys().copied().collect();
        ensure_eq!(n, self.m.node_ids(), "{what}: nodes tracked through the callbacks");
        let p: Vec<usize> = self.port_tag.keys().copied().collect();
        ensure_eq!(p, self.m.port_ids(), "{what}: ports tracked through the callbacks");
        Ok(())
    }

    pub fn add_node(&mut self, i: usize, o: usize) -> Result<usize, String> {
        let n = self.g.add_node(i, o).index();
        ensure!(!self.m.nodes.contains_key(&n), "add_node returned the live node {n}");
        let ins: Vec<usize> = self.g.inputs(ni(n)).map(|p| p.index()).collect();
        let outs: Vec<usize> = self.g.outputs(ni(n)).map(|p| p.index()).collect();
        ensure_eq!((ins.len(), outs.len()), (i, o), "ports of the new node {n}");
        let mut seen = BTreeSet::new();
        for p in ins.iter().chain(&outs) {
            ensure!(
                !self.m.ports.contains_key(p) && seen.insert(*p),
                "add_node reused the live port {p}"
            );
            self.port_tag.insert(*p, self.next_tag);
            self.next_tag += 1;
        }
        self.m.insert_node(n, ins, outs);
        self.slots = self.slots.max(n + 1);
        self.node_tag.insert(n, self.next_tag);
        self.next_tag += 1;
        Ok(n)
    }

    pub fn remove_node(&mut self, n: usize) {
        self.g.remove_node(ni(n));
        if let Some(mn) = self.m.nodes.get(&n) {
            for p in mn.ports.iter().flatten() {
                self.port_tag.remove(p);
            }
        }
        self.node_tag.remove(&n);
        self.m.remove_node(n);
    }

    /// Is this error a true statement about linking `a` and `b`?
    fn link_error_true(&self, e: &LinkError<G::O>, a: usize, b: usize) -> TR {
        match e {
            LinkError::UnknownPort { port } => {
                let p = port.index();
                ensure!(
                    (p == a || p == b) && !self.m.ports.contains_key(&p),
                    "link_ports({a},{b}) blames port {p} as unknown"
                );
            }
            LinkError::AlreadyLinked { port } => {
                let p = port.index();
                ensure!(
                    (p == a || p == b) && self.m.ports.contains_key(&p) && !self.m.port_links(p).is_empty(),
                    "link_ports({a},{b}) blames port {p} as already linked"
                );
            }
            LinkError::IncompatibleDirections { port_a, port_b, dir: d } => {
                let (x, y) = (port_a.index(), port_b.index());
                ensure!(
                    (x, y) == (a, b) || (y, x) == (a, b),
                    "link_ports({a},{b}) blames ports {x} and {y}"
                );
                for p in [a, b] {
                    let pd = self.m.ports.get(&p).map(|t| dir(t.1));
                    ensure_eq!(pd, Some(*d), "direction of port {p} in the error of link_ports({a},{b})");
                }
            }
            LinkError::UnknownOffset { .. } => {
                return Err(format!("link_ports({a},{b}) returned {e:?}"));
            }
        }
        let _ = e.to_string();
        Ok(())
    }

    /// `link_ports` on any two indices, checked against the model.
    pub fn link(&mut self, a: usize, b: usize, ctx: &mut Ctx) -> TR {
        let ok = self.linkable(a, b);
        let before = if ok || G::MULTI { None } else { Some(self.g.clone()) };
        let subs = (!ok && G::MULTI).then(|| self.all_subs());
        let r = self.g.link_ports(pi(a), pi(b)).map(|(x, y)| (x.ep(), y.ep()));
        self.linked(a, b, ok, r, before, subs, ctx)
    }

    fn linkable(&self, a: usize, b: usize) -> bool {
        match (self.m.ports.get(&a), self.m.ports.get(&b)) {
            (Some(x), Some(y)) => {
                x.1 != y.1
                    && (G::MULTI || (self.m.port_links(a).is_empty() && self.m.port_links(b).is_empty()))
            }
            _ => false,
        }
    }

    /// A node index that may be free, never allocated, or (multiport graphs)
    /// that of an internal node; sometimes a live one.
    fn absent_node(&self, s: u16) -> usize {
        let top = self.m.node_ids().last().map_or(0, |x| x + 1).max(self.slots);
        let copies = if G::MULTI { self.m.links.len() } else { 0 };
        s as usize % (top + copies + 4)
    }

    /// As `absent_node`, for ports.
    fn absent_port(&self, s: u16) -> usize {
        if G::MULTI && s % 8 == 7 {
            return 1_000_000 + s as usize;
        }
        let top = self.m.port_ids().last().map_or(0, |x| x + 1);
        let copies = if G::MULTI { 2 * self.m.links.len() } else { 0 };
        s as usize / 2 % (top + copies + 3)
    }

    fn all_subs(&self) -> Vec<Hd> {
        let mut v = vec![];
        for n in self.m.node_ids() {
            for d in 0..2 {
                v.extend(self.g.list_subports(n, d));
            }
        }
        v
    }

    #[allow(clippy::too_many_arguments)]
    fn linked(
        &mut self,
        a: usize,
        b: usize,
        ok: bool,
        r: Result<(Hd, Hd), LinkError<G::O>>,
        before: Option<G>,
        subs: Option<Vec<Hd>>,
        ctx: &mut Ctx,
    ) -> TR {
        match r {
            Ok((x, y)) => {
                ensure!(ok, "link_ports({a},{b}) succeeded although it must be rejected");
                ensure!(x.0 == a && y.0 == b, "link_ports({a},{b}) returned endpoints {x:?}, {y:?}");
                for h in [x, y] {
                    ensure!(
                        !self.m.links.contains_key(&h),
                        "link_ports({a},{b}) returned the endpoint {h:?}, which is already linked"
                    );
                }
                let multi = !self.m.port_links(a).is_empty() || !self.m.port_links(b).is_empty();
                ctx.label_if(multi, "link to an already linked port");
                let same = self.m.owner(x) == self.m.owner(y);
                ctx.label_if(same, "self-link");
                ctx.label("link");
                self.m.add_link(x, y);
            }
            Err(e) => {
                ensure!(!ok, "link_ports({a},{b}) failed with {e:?}");
                self.link_error_true(&e, a, b)?;
                ctx.label("rejected link");
                if let Some(before) = before {
                    ensure!(self.g == before, "rejected link_ports({a},{b}) changed the graph");
                }
                if let Some(subs) = subs {
                    ensure_eq!(self.all_subs(), subs, "subports after the rejected link_ports({a},{b})");
                }
            }
        }
        Ok(())
    }

    fn link_by_offsets(&mut self, na: usize, da: usize, oa: usize, nb: usize, db: usize, ob: usize, use_nodes: bool, ctx: &mut Ctx) -> TR {
        let at = |m: &Model, n: usize, d: usize, o: usize| m.nodes.get(&n).and_then(|x| x.ports[d].get(o).copied());
        let (a, b) = (at(&self.m, na, da, oa), at(&self.m, nb, db, ob));
        let offs: [PortOffset<G::O>; 2] = [PortOffset::new(dir(da), oa), PortOffset::new(dir(db), ob)];
        let before = (!G::MULTI).then(|| self.g.clone());
        let r = if use_nodes {
            self.g.link_nodes(ni(na), oa, ni(nb), ob)
        } else {
            self.g.link_offsets(ni(na), offs[0], ni(nb), offs[1])
        }
        .map(|(x, y)| (x.ep(), y.ep()));
        match (a, b) {
            (Some(a), Some(b)) => {
                let ok = self.linkable(a, b);
                let before = if ok { None } else { before };
                self.linked(a, b, ok, r, before, None, ctx)
            }
            _ => {
                let e = match r {
                    Ok(x) => return Err(format!("link_offsets with a missing offset returned {x:?}")),
                    Err(e) => e,
                };
                if let (true, LinkError::UnknownPort { port }) = (G::MULTI, &e) {
                    // The index of an internal node: its ports are unknown too.
                    let absent = [na, nb].iter().any(|n| !self.m.nodes.contains_key(n));
                    ensure!(
                        absent && !self.m.ports.contains_key(&port.index()),
                        "link_offsets(({na},{da},{oa}),({nb},{db},{ob})) blames the port {port:?}"
                    );
                    ctx.label("link to an internal node");
                    return Ok(());
                }
                let LinkError::UnknownOffset { node, offset } = &e else {
                    return Err(format!("link_offsets with a missing offset failed with {e:?}"));
                };
                let ea = a.is_none() && node.index() == na && *offset == offs[0];
                let eb = b.is_none() && node.index() == nb && *offset == offs[1];
                ensure!(
                    ea || eb,
                    "link_offsets(({na},{da},{oa}),({nb},{db},{ob})) with missing offsets {:?}/{:?} blames {e:?}",
                    a.is_none(),
                    b.is_none()
                );
                ctx.label("rejected offset");
                if let Some(before) = before {
                    ensure!(self.g == before, "rejected link_offsets changed the graph");
                }
                Ok(())
            }
        }
    }

    pub fn unlink(&mut self, p: usize, ctx: &mut Ctx) -> TR {
        let links = self.m.port_links(p);
        let r = self.g.unlink_port(pi(p)).map(|e| e.ep());
        match r {
            None => ensure!(links.is_empty(), "unlink_port({p}) returned None with links {links:?}"),
            Some(h) => {
                ensure!(
                    links.iter().any(|(_, b)| *b == h),
                    "unlink_port({p}) returned {h:?}, which was not linked to it ({links:?})"
                );
                ctx.label("unlink");
                ctx.label_if(links.len() > 1, "unlink of a multiport");
            }
        }
        for (a, _) in links {
            self.m.unlink(a);
        }
        Ok(())
    }

    /// `set_num_ports`, checking the reported operations against the outcome.
    pub fn set_ports(&mut self, n: usize, i: usize, o: usize, ctx: &mut Ctx) -> Result<Events, String> {
        let mut ev = Events::default();
        self.g.set_num_ports(ni(n), i, o, |p, op| ev.ports.push((p.index(), op)));
        let what = format!("set_num_ports({n},{i},{o})");
        let Some(old) = self.m.nodes.get(&n).cloned() else {
            ensure!(ev.ports.is_empty(), "{what} of a missing node reported {:?}", ev.ports);
            return Ok(ev);
        };
        let new: [Vec<usize>; 2] = [
            self.g.inputs(ni(n)).map(|p| p.index()).collect(),
            self.g.outputs(ni(n)).map(|p| p.index()).collect(),
        ];
        ensure_eq!((new[0].len(), new[1].len()), (i, o), "{what}: resulting port counts");
        let mine: BTreeSet<usize> = old.ports.iter().flatten().copied().collect();
        // New ports must not belong to another node.
        let mut seen = BTreeSet::new();
        for p in new.iter().flatten() {
            ensure!(seen.insert(*p), "{what}: port {p} listed twice");
            ensure!(
                mine.contains(p) || !self.m.ports.contains_key(p),
                "{what}: took port {p} of another node"
            );
        }
        // Exact accounting of the events.
        let mut count: BTreeMap<usize, Vec<PortOperation>> = BTreeMap::new();
        for (p, op) in &ev.ports {
            count.entry(*p).or_default().push(*op);
        }
        for p in count.keys() {
            ensure!(mine.contains(p), "{what}: reported port {p}, which is not a port of the node");
        }
        let want_n = [i, o];
        for d in 0..2 {
            for (k, &p) in old.ports[d].iter().enumerate() {
                let got = count.get(&p).cloned().unwrap_or_default();
                if k < want_n[d] {
                    let q = new[d][k];
                    let fine = match got.as_slice() {
                        [] => p == q,
                        [PortOperation::Moved { new_index }] => new_index.index() == q,
                        _ => false,
                    };
                    ensure!(fine, "{what}: port {p} is now {q}, but the reports were {got:?}");
                    ctx.label_if(p != q, "port moved");
                } else {
                    ensure!(
                        matches!(got.as_slice(), [PortOperation::Removed { .. }]),
                        "{what}: port {p} was removed, but the reports were {got:?}"
                    );
                    ctx.label("port removed");
                    ctx.label_if(!self.m.port_links(p).is_empty(), "linked port removed");
                    ctx.label_if(self.m.port_links(p).len() > 1, "multiport removed");
                }
            }
        }
        // A client that follows the reports one by one stays in step, and the
        // old link of a removed port is the port it was linked to.
        let mut model_now = self.m.clone();
        // current name of each original port of the node
        let mut name: BTreeMap<usize, usize> = mine.iter().map(|p| (*p, *p)).collect();
        let orig = |name: &BTreeMap<usize, usize>, cur: usize| name.iter().find(|(_, c)| **c == cur).map(|(o, _)| *o);
        for (p, op) in &ev.ports {
            let tag = self.port_tag.remove(p);
            ensure!(tag.is_some(), "{what}: a client following the reports has lost port {p} ({:?})", ev.ports);
            match op {
                PortOperation::Moved { new_index } => {
                    let q = new_index.index();
                    ensure!(
                        !self.port_tag.contains_key(&q),
                        "{what}: report Moved {p} -> {q} overwrites a live port ({:?})",
                        ev.ports
                    );
                    self.port_tag.insert(q, tag.unwrap());
                    let op = orig(&name, *p).unwrap_or(*p);
                    name.insert(op, q);
                }
                PortOperation::Removed { old_link } => {
                    let links = model_now.port_links(*p);
                    let peers: BTreeSet<usize> = links
                        .iter()
                        .map(|(_, b)| name.get(&b.0).copied().unwrap_or(b.0))
                        .collect();
                    match old_link {
                        None => ensure!(
                            peers.is_empty(),
                            "{what}: removed port {p} was linked to {peers:?}, reported old_link None"
                        ),
                        Some(q) => ensure!(
                            peers.contains(&q.index()),
                            "{what}: removed port {p} was linked to {peers:?}, reported old_link {q:?}"
                        ),
                    }
                    for (a, _) in links {
                        model_now.unlink(a);
                    }
                    name.remove(p);
                }
            }
        }
        // Advance the model.
        let mut map: BTreeMap<usize, usize> = BTreeMap::new();
        for d in 0..2 {
            for (k, &p) in old.ports[d].iter().enumerate() {
                if k < want_n[d] {
                    map.insert(p, new[d][k]);
                } else {
                    for (a, _) in self.m.port_links(p) {
                        self.m.unlink(a);
                    }
                }
            }
        }
        let links = std::mem::take(&mut self.m.links);
        let f = |h: Hd| (map.get(&h.0).copied().unwrap_or(h.0), h.1);
        self.m.links = links.into_iter().map(|(a, b)| (f(a), f(b))).collect();
        self.m.nodes.insert(n, MNode { ports: new.clone() });
        self.m.reindex();
        // Fresh tags for the added ports.
        for d in 0..2 {
            for &p in new[d].iter().skip(old.ports[d].len()) {
                ensure!(!self.port_tag.contains_key(&p), "{what}: new port {p} still carries old data");
                self.port_tag.insert(p, self.next_tag);
                self.next_tag += 1;
            }
        }
        self.tags_match(&what)?;
        Ok(ev)
    }

    pub fn compact_nodes(&mut self, ctx: &mut Ctx) -> Result<Events, String> {
        let mut ev = Events::default();
        self.g.compact_nodes(|a, b| ev.moved_nodes.push((a.index(), b.index())));
        let map = Self::follow(&mut self.node_tag, &ev.moved_nodes, "compact_nodes")?;
        ctx.label_if(map.iter().any(|(a, b)| a != b), "compaction moved a node");
        self.m = self.m.rename(|n| map.get(&n).copied().unwrap_or(n), |p| p);
        if !G::MULTI {
            self.slots = self.m.nodes.len();
            let want: Vec<usize> = (0..self.slots).collect();
            ensure_eq!(self.m.node_ids(), want, "node indices after compact_nodes");
        } else {
            self.slots = self.m.node_ids().last().map_or(0, |x| x + 1);
        }
        Ok(ev)
    }

    /// Apply reported moves in order to a client-side table.
    fn follow(tags: &mut BTreeMap<usize, u64>, moves: &[(usize, usize)], what: &str) -> Result<BTreeMap<usize, usize>, String> {
        let mut map = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for &(a, b) in moves {
            ensure!(seen.insert(a), "{what}: {a} reported twice ({moves:?})");
            if let Some(t) = tags.remove(&a) {
                ensure!(!tags.contains_key(&b), "{what}: move {a} -> {b} overwrites a live index ({moves:?})");
                tags.insert(b, t);
                map.insert(a, b);
            } else {
                // Implicit nodes and ports may be reported too; they must not
                // land on a live index.
                ensure!(!tags.contains_key(&b), "{what}: move {a} -> {b} lands on a live index ({moves:?})");
            }
        }
        Ok(map)
    }

    pub fn compact_ports(&mut self, ctx: &mut Ctx) -> Result<Events, String> {
        let mut ev = Events::default();
        self.g.compact_ports(|a, b| ev.moved_ports.push((a.index(), b.index())));
        let map = Self::follow(&mut self.port_tag, &ev.moved_ports, "compact_ports")?;
        ctx.label_if(map.iter().any(|(a, b)| a != b), "compaction moved a port");
        self.m = self.m.rename(|n| n, |p| map.get(&p).copied().unwrap_or(p));
        if !G::MULTI {
            let want: Vec<usize> = (0..self.m.ports.len()).collect();
            ensure_eq!(self.m.port_ids(), want, "port indices after compact_ports");
        }
        Ok(ev)
    }

    pub fn swap(&mut self, a: usize, b: usize) {
        self.g.swap_nodes(ni(a), ni(b));
        let f = |n: usize| if n == a { b } else if n == b { a } else { n };
        self.m = self.m.rename(f, |p| p);
        self.node_tag = self.node_tag.iter().map(|(n, t)| (f(*n), *t)).collect();
    }

    /// Apply one operation.
    pub fn step(&mut self, op: &Op, ctx: &mut Ctx) -> TR {
        let nodes = self.m.node_ids();
        let node = |s: u16| nodes.get(s as usize % nodes.len().max(1)).copied();
        let dports = |m: &Model, d: usize| -> Vec<usize> {
            m.ports.iter().filter(|(_, t)| t.1 == d).map(|(p, _)| *p).collect()
        };
        let pk = |v: &Vec<usize>, s: u16| -> Option<usize> { v.get(s as usize % v.len().max(1)).copied() };
        match *op {
            Op::AddNode(i, o) => {
                self.add_node(i as usize, o as usize)?;
            }
            Op::RemoveNode(s) => {
                if let Some(n) = node(s) {
                    ctx.label_if(
                        !self.m.links_of(n, 0).is_empty() || !self.m.links_of(n, 1).is_empty(),
                        "linked node removed",
                    );
                    self.remove_node(n);
                    ctx.label("remove_node");
                }
            }
            Op::RemoveMissing(s) => {
                // Indices past every allocation and free ones, which in a
                // multiport graph may belong to internal nodes.
                let n = self.absent_node(s);
                if !self.m.nodes.contains_key(&n) {
                    ensure!(!self.g.contains_node(ni(n)), "contains_node({n}) for a missing node");
                    let before = (!G::MULTI).then(|| self.g.clone());
                    let subs = G::MULTI.then(|| self.all_subs());
                    self.g.remove_node(ni(n));
                    if let Some(before) = &before {
                        ensure!(self.g == *before, "remove_node({n}) of a missing node changed the graph");
                    }
                    let mut calls = 0;
                    let (i, o) = [(2, 1), (0, 0), (1, 0), (3, 3)][s as usize / 16 % 4];
                    self.g.set_num_ports(ni(n), i, o, |_, _| calls += 1);
                    ensure!(calls == 0, "set_num_ports({n}) of a missing node called rekey");
                    if let Some(before) = &before {
                        ensure!(self.g == *before, "set_num_ports({n}) of a missing node changed the graph");
                    }
                    if let Some(subs) = subs {
                        ensure_eq!(self.all_subs(), subs, "subports after removing and resizing the missing node {n}");
                    }
                    ctx.label("missing node");
                }
            }
            Op::Link(a, b) | Op::LinkRev(a, b) => {
                // Prefer ports that can be linked in single-link graphs.
                let (mut os, mut is) = (dports(&self.m, OUT), dports(&self.m, IN));
                if !G::MULTI && a % 8 != 0 {
                    os.retain(|p| self.m.port_links(*p).is_empty());
                    is.retain(|p| self.m.port_links(*p).is_empty());
                }
                if let (Some(x), Some(y)) = (pk(&os, a), pk(&is, b)) {
                    if matches!(op, Op::Link(..)) {
                        self.link(x, y, ctx)?;
                    } else {
                        self.link(y, x, ctx)?;
                    }
                }
            }
            Op::LinkNodes(a, oa, b, ob) => {
                if let (Some(x), Some(y)) = (node(a), node(b)) {
                    self.link_by_offsets(x, OUT, oa as usize, y, IN, ob as usize, true, ctx)?;
                }
            }
            Op::LinkOffsets(a, da, oa, b, db, ob) => {
                let any_node = |s: u16| if s % 4 == 0 { Some(self.absent_node(s / 4)) } else { node(s) };
                if let (Some(x), Some(y)) = (any_node(a), any_node(b)) {
                    self.link_by_offsets(x, da as usize, oa as usize, y, db as usize, ob as usize, false, ctx)?;
                }
            }
            Op::LinkAny(a, b) => {
                let ps = self.m.port_ids();
                let sel = |s: u16| -> usize {
                    if s % 3 == 0 || ps.is_empty() {
                        // Unknown to the user: beyond every port, or a free
                        // index of a plain graph.
                        self.absent_port(s / 3)
                    } else {
                        ps[s as usize % ps.len()]
                    }
                };
                self.link(sel(a), sel(b), ctx)?;
            }
            Op::Unlink(s) => {
                let ps: Vec<usize> = self.m.links.keys().map(|h| h.0).collect();
                if let Some(p) = pk(&ps, s) {
                    self.unlink(p, ctx)?;
                }
            }
            Op::UnlinkAny(s) => {
                let ps = self.m.port_ids();
                let p = if s % 2 == 0 { self.absent_port(s / 2) } else { pk(&ps, s).unwrap_or(1_000_000) };
                self.unlink(p, ctx)?;
            }
            Op::SetPorts(s, i, o) => {
                if let Some(n) = node(s) {
                    self.set_ports(n, i as usize, o as usize, ctx)?;
                    ctx.label("set_num_ports");
                }
            }
            Op::CompactNodes => {
                self.compact_nodes(ctx)?;
                self.tags_match("compact_nodes")?;
            }
            Op::CompactPorts => {
                self.compact_ports(ctx)?;
                self.tags_match("compact_ports")?;
            }
            Op::Swap(a, b) => {
                if self.slots > 0 {
                    let (mut x, mut y) = (a as usize % self.slots, b as usize % self.slots);
                    if G::MULTI {
                        // Only live nodes: the other indices may be internal.
                        x = node(a).unwrap_or(x);
                        y = node(b).unwrap_or(y);
                        if nodes.is_empty() {
                            return Ok(());
                        }
                    }
                    let free = [x, y].iter().filter(|n| !self.m.nodes.contains_key(n)).count();
                    ctx.label_if(free == 1, "swap with a free slot");
                    ctx.label_if(free == 2, "swap of two free slots");
                    ctx.label("swap");
                    self.swap(x, y);
                    self.tags_match("swap_nodes")?;
                }
            }
            Op::Reserve(a, b) => self.g.reserve(a as usize, b as usize),
            Op::Shrink => self.g.shrink_to_fit(),
            Op::Clone => {
                let c = self.g.clone();
                ensure!(c == self.g, "a clone differs from the original");
                let old = std::mem::replace(&mut self.g, c);
                drop(old);
            }
            Op::Clear => {
                self.g.clear();
                self.m = Model::default();
                self.node_tag.clear();
                self.port_tag.clear();
                self.slots = 0;
                ctx.label("clear");
            }
            Op::Serde(json) => {
                let c: G = if json {
                    let s = serde_json::to_string(&self.g).map_err(|e| format!("serialise: {e}"))?;
                    serde_json::from_str(&s).map_err(|e| format!("deserialise: {e}"))?
                } else {
                    let s = rmp_serde::to_vec(&self.g).map_err(|e| format!("serialise: {e}"))?;
                    rmp_serde::from_slice(&s).map_err(|e| format!("deserialise: {e}"))?
                };
                ensure!(c == self.g, "deserialised graph differs from the original");
                self.g = c;
                ctx.label("serde");
            }
            Op::LinkSub(a, b) => {
                let mut v: [Vec<Hd>; 2] = [vec![], vec![]];
                for &n in &nodes {
                    for (d, l) in v.iter_mut().enumerate() {
                        l.extend(self.g.list_subports(n, d));
                    }
                }
                if a % 4 != 0 {
                    for l in v.iter_mut() {
                        l.retain(|h| !self.m.links.contains_key(h));
                    }
                }
                if !v[0].is_empty() && !v[1].is_empty() {
                    let x = v[1][a as usize % v[1].len()];
                    let y = v[0][b as usize % v[0].len()];
                    self.link_subports(x, y, ctx)?;
                }
            }
            Op::LinkSubAny(a, ka, b, kb) => {
                let ps = self.m.port_ids();
                if let (Some(x), Some(y)) = (pk(&ps, a), pk(&ps, b)) {
                    self.link_subports((x, ka as usize), (y, kb as usize), ctx)?;
                }
            }
            Op::UnlinkSub(s) => {
                let hs: Vec<Hd> = self.m.links.keys().copied().collect();
                if !hs.is_empty() {
                    self.unlink_sub(hs[s as usize % hs.len()], ctx)?;
                }
            }
            Op::UnlinkSubAny(s, k) => {
                let ps = self.m.port_ids();
                if let Some(p) = pk(&ps, s) {
                    let h = (p, k as usize);
                    let r = self.g.link_of_sub(h);
                    ensure_eq!(r, self.m.links.get(&h).copied(), "subport_link({h:?})");
                    self.unlink_sub(h, ctx)?;
                }
            }
        }
        if self.check_each {
            self.verify()?;
        }
        Ok(())
    }

    fn unlink_sub(&mut self, h: Hd, ctx: &mut Ctx) -> TR {
        let r = self.g.unlink_sub(h);
        ensure_eq!(r, self.m.links.get(&h).copied(), "unlink_subport({h:?})");
        ctx.label_if(r.is_some(), "unlink_subport");
        self.m.unlink(h);
        Ok(())
    }

    fn link_subports(&mut self, x: Hd, y: Hd, ctx: &mut Ctx) -> TR {
        let exists = |h: Hd| {
            let (n, d, _) = self.m.ports[&h.0];
            self.g.list_subports(n, d).contains(&h)
        };
        let (ex, ey) = (exists(x), exists(y));
        let dirs = self.m.ports[&x.0].1 != self.m.ports[&y.0].1;
        let free = !self.m.links.contains_key(&x) && !self.m.links.contains_key(&y);
        let ok = ex && ey && dirs && free;
        let subs = self.all_subs();
        let r = self.g.link_sub(x, y);
        ensure_eq!(self.all_subs(), subs, "subports after link_subports({x:?},{y:?})");
        match r {
            Ok(()) => {
                ensure!(ok, "link_subports({x:?},{y:?}) succeeded although it must be rejected");
                self.m.add_link(x, y);
                ctx.label("link_subports");
                ctx.label_if(x.1 > 0 || y.1 > 0, "link_subports of a copy subport");
            }
            Err(e) => {
                ensure!(!ok, "link_subports({x:?},{y:?}) failed with {e:?}");
                ctx.label("rejected link_subports");
                match &e {
                    LinkError::UnknownPort { port } => {
                        let p = port.index();
                        ensure!(
                            (p == x.0 && !ex) || (p == y.0 && !ey),
                            "link_subports({x:?},{y:?}) blames {e:?}"
                        );
                    }
                    LinkError::AlreadyLinked { port } => {
                        let p = port.index();
                        ensure!(
                            (p == x.0 && self.m.links.contains_key(&x)) || (p == y.0 && self.m.links.contains_key(&y)),
                            "link_subports({x:?},{y:?}) blames {e:?}"
                        );
                    }
                    LinkError::IncompatibleDirections { port_a, port_b, dir: d } => {
                        let (a, b) = (port_a.index(), port_b.index());
                        ensure!(
                            !dirs && ((a, b) == (x.0, y.0) || (b, a) == (x.0, y.0)) && dir(self.m.ports[&x.0].1) == *d,
                            "link_subports({x:?},{y:?}) blames {e:?}"
                        );
                    }
                    LinkError::UnknownOffset { .. } => {
                        ensure!(!ex || !ey, "link_subports({x:?},{y:?}) blames {e:?}");
                    }
                }
            }
        }
        Ok(())
    }
}

/// Run a whole history.
pub fn run_history<G: TestGraph>(g: G, ops: &[Op], ctx: &mut Ctx) -> Result<Driver<G>, String> {
    let mut d = Driver::new(g);
    for (i, op) in ops.iter().enumerate() {
        d.step(op, ctx).map_err(|e| format!("after step {i} ({op:?}): {e}"))?;
    }
    Ok(d)
}
