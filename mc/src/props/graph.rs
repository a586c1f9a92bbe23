//! Routing: what reaches the output is the sum, over the connections made, of what the nodes produce.
//! C01: every small graph. C02: every short history of graph changes.

use crate::eng::*;
use crate::fw::*;

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum MKind {
    /// Plays frame*3 + base on channel c: base*(c+1) + frame.
    Src { ch: usize, base: i64, pos: i64 },
    Gain { ch: usize, g: i64 },
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct MNode {
    pub uid: usize,
    pub kind: MKind,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct MEdge {
    from: usize,
    to: usize,
    sc: usize,
    dc: usize,
    n: usize,
}

/// The reference: nodes, connections, and a recursive sum.
#[derive(Clone, Debug, Default, PartialEq, Hash)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub edges: Vec<MEdge>,
    pub out: Option<usize>,
    pub inp: Option<usize>,
    next: usize,
}

impl Model {
    pub fn add(&mut self, kind: MKind) -> usize {
        self.next += 1;
        self.nodes.push(MNode { uid: self.next, kind });
        self.next
    }
    fn node(&self, uid: usize) -> Option<&MNode> {
        self.nodes.iter().find(|n| n.uid == uid)
    }
    fn ch(&self, uid: usize) -> usize {
        match self.node(uid).unwrap().kind {
            MKind::Src { ch, .. } | MKind::Gain { ch, .. } => ch,
        }
    }
    pub fn remove(&mut self, uid: usize) {
        self.nodes.retain(|n| n.uid != uid);
        self.edges.retain(|e| e.from != uid && e.to != uid);
    }
    pub fn connect(&mut self, from: usize, to: usize) {
        let n = self.ch(from);
        self.edges.push(MEdge { from, to, sc: 0, dc: 0, n });
    }
    pub fn reaches(&self, a: usize, b: usize) -> bool {
        a == b || self.edges.iter().any(|e| e.from == a && self.reaches(e.to, b))
    }
    fn value(&self, uid: usize, input: &[Vec<i64>], frames: usize, memo: &mut Vec<(usize, Vec<Vec<i64>>)>) -> Vec<Vec<i64>> {
        let Some(node) = self.node(uid) else { return vec![] };
        if let Some(m) = memo.iter().find(|m| m.0 == uid) {
            return m.1.clone();
        }
        let out = match &node.kind {
            MKind::Src { ch, base, pos } => {
                (0..*ch).map(|c| (0..frames as i64).map(|f| base * (c as i64 + 1) + pos + f).collect()).collect()
            }
            MKind::Gain { ch, g } => {
                let mut acc = vec![vec![0; frames]; *ch];
                if self.inp == Some(uid) {
                    for (a, i) in acc.iter_mut().zip(input) {
                        for (a, i) in a.iter_mut().zip(i) {
                            *a += i;
                        }
                    }
                }
                for e in self.edges.iter().filter(|e| e.to == uid) {
                    let v = self.value(e.from, input, frames, memo);
                    for k in 0..e.n {
                        if e.dc + k < *ch && e.sc + k < v.len() {
                            for f in 0..frames {
                                acc[e.dc + k][f] += v[e.sc + k][f];
                            }
                        }
                    }
                }
                for a in acc.iter_mut().flatten() {
                    *a *= g;
                }
                acc
            }
        };
        memo.push((uid, out.clone()));
        out
    }
    /// One block; the sources move on.
    pub fn block(&mut self, input: &[Vec<i64>], frames: usize, outs: usize) -> Vec<Vec<f32>> {
        let v = self.out.map_or(vec![], |o| self.value(o, input, frames, &mut vec![]));
        for n in &mut self.nodes {
            if let MKind::Src { pos, .. } = &mut n.kind {
                *pos += frames as i64;
            }
        }
        (0..outs)
            .map(|c| (0..frames).map(|f| v.get(c).map_or(0.0, |v| v[f] as f32)).collect())
            .collect()
    }
}

pub enum RNode {
    S(#[allow(dead_code)] Sampler),
    G(Gain),
}
impl RNode {
    pub fn node(&self) -> &GraphNode {
        match self {
            RNode::S(s) => &s.node,
            RNode::G(g) => &g.node,
        }
    }
}

const LEN: usize = 600;

pub fn real(e: &Eng, k: &MKind) -> RNode {
    match k {
        MKind::Src { ch, base, .. } => {
            let d: Chans = (0..*ch).map(|c| (0..LEN).map(|f| (base * (c as i64 + 1) + f as i64) as f32).collect()).collect();
            let mut s = Sampler::new(e.ctx.as_ref(), buf(&d, e.sr));
            s.start_now();
            RNode::S(s)
        }
        MKind::Gain { ch, g } => {
            let mut n = Gain::new(e.ctx.as_ref(), *ch);
            if *g != 1 {
                n.gain().set_value_now(*g as f64);
            }
            RNode::G(n)
        }
    }
}

pub fn input(frames: usize, at: usize, ch: usize) -> Vec<Vec<i64>> {
    (0..ch as i64).map(|c| (0..frames as i64).map(|f| 100 * (c + 1) + (at as i64 + f) * 7).collect()).collect()
}
pub fn as_f32(v: &[Vec<i64>]) -> Chans {
    v.iter().map(|c| c.iter().map(|x| *x as f32).collect()).collect()
}

#[derive(Debug, Clone)]
struct Dag {
    sources: usize,
    nodes: usize,
    /// multiplicity of each edge i -> j, i < j, j not a source
    edges: Vec<(usize, usize, usize)>,
    out: usize,
    inp: Option<usize>,
    perm: Vec<usize>,
    /// edges are made in reverse order
    reversed: bool,
    seed: u32,
}

fn run_dag(d: &Dag, rec: &mut Rec) -> Check {
    inline(d.seed, || {
        let mut e = eng(64, 2, 1);
        let mut m = Model::default();
        let gains = [3, 5, 7, 2, 4];
        let mut real_nodes: Vec<Option<RNode>> = (0..d.nodes).map(|_| None).collect();
        let mut uid = vec![0; d.nodes];
        for &i in &d.perm {
            let k = if i < d.sources {
                MKind::Src { ch: 1, base: 10 + 40 * i as i64, pos: 0 }
            } else {
                MKind::Gain { ch: 1, g: gains[i] }
            };
            real_nodes[i] = Some(real(&e, &k));
            uid[i] = m.add(k);
        }
        let at = |i: usize| real_nodes[i].as_ref().unwrap().node();
        let mut es: Vec<(usize, usize)> = d.edges.iter().flat_map(|(a, b, k)| vec![(*a, *b); *k]).collect();
        if d.reversed {
            es.reverse();
        }
        for (a, b) in &es {
            at(*a).connect_to(at(*b));
            m.connect(uid[*a], uid[*b]);
        }
        at(d.out).connect_to_output();
        m.out = Some(uid[d.out]);
        if let Some(i) = d.inp {
            at(i).connect_to_input();
            m.inp = Some(uid[i]);
        }
        e.ctx.start();
        let mut seen = Vec::new();
        let mut t = 0;
        for frames in [3usize, 2] {
            rec.state(&m);
            let inp = input(frames, t, 1);
            let got = e.block(&as_f32(&inp), 1);
            let want = m.block(&inp, frames, 1);
            same_all(&format!("block at frame {t}"), &got, &want, 0.0)?;
            t += frames;
            seen.push(bits(&got[0]));
        }
        rec.exec(&seen);
        Ok(())
    })
}

fn pairs(sources: usize, nodes: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for j in sources..nodes {
        for i in 0..j {
            v.push((i, j));
        }
    }
    v
}

#[derive(Clone, Copy)]
struct DagSpace {
    sources: usize,
    nodes: usize,
    mult: usize,
    all_perms: bool,
    seeds: u32,
    inputs: bool,
    orders: usize,
}
impl DagSpace {
    fn size(&self) -> u64 {
        let gains = self.nodes - self.sources;
        pow(self.mult + 1, pairs(self.sources, self.nodes).len())
            * self.nodes as u64
            * if self.inputs { gains as u64 + 1 } else { 1 }
            * if self.all_perms { fact(self.nodes) } else { 2 }
            * self.orders as u64
            * self.seeds as u64
    }
    fn decode(&self, mut d: D) -> Option<Dag> {
        let seed = d.n(self.seeds as usize) as u32;
        let reversed = d.n(self.orders) == 1;
        let perm = if self.all_perms {
            d.perm(self.nodes)
        } else if d.flag() {
            (0..self.nodes).rev().collect()
        } else {
            (0..self.nodes).collect()
        };
        let inp = if self.inputs { d.n(self.nodes - self.sources + 1) } else { 0 };
        let out = d.n(self.nodes);
        let edges =
            pairs(self.sources, self.nodes).into_iter().map(|(a, b)| (a, b, d.n(self.mult + 1))).filter(|e| e.2 > 0).collect();
        Some(Dag {
            sources: self.sources,
            nodes: self.nodes,
            edges,
            out,
            inp: (inp > 0).then(|| self.sources + inp - 1),
            perm,
            reversed,
            seed,
        })
    }
}

fn dags(name: &str, s: DagSpace) -> Suite {
    let bounds = format!(
        "every graph of {} sources and {} gains, each pair connected 0..={} times, every output endpoint, {} input endpoints, {} creation orders, {} connection orders, {} hash orders; 2 blocks of 3 and 2 frames with at most 2 frames per pass",
        s.sources,
        s.nodes - s.sources,
        s.mult,
        if s.inputs { s.nodes - s.sources + 1 } else { 1 },
        if s.all_perms { fact(s.nodes) } else { 2 },
        s.orders,
        s.seeds
    );
    cases(name, &bounds, s.size(), move |d: D| s.decode(d), run_dag)
}

// channel mapping

#[derive(Debug, Clone, Copy)]
enum Conn {
    None,
    Full,
    Part(usize, usize, usize),
}

fn conns(cs: usize, cg: usize) -> Vec<Conn> {
    let mut v = vec![Conn::None, Conn::Full];
    for n in 1..=cs.min(cg) {
        for s in 0..=cs - n {
            for d in 0..=cg - n {
                v.push(Conn::Part(s, d, n));
            }
        }
    }
    v
}

#[derive(Debug, Clone)]
struct Chan {
    cs: usize,
    cg: usize,
    a: Conn,
    b: Conn,
    two_sources: bool,
    input_ch: usize,
    outs: usize,
}

fn run_chan(c: &Chan, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(64, 4, 3);
        let mut m = Model::default();
        let ks = MKind::Src { ch: c.cs, base: 10, pos: 0 };
        let k2 = MKind::Src { ch: c.cs, base: 300, pos: 0 };
        let kg = MKind::Gain { ch: c.cg, g: 3 };
        let (s, s2, g) = (real(&e, &ks), real(&e, &k2), real(&e, &kg));
        let (us, us2, ug) = (m.add(ks), m.add(k2), m.add(kg));
        for (k, conn) in [c.a, c.b].into_iter().enumerate() {
            let (r, u) = if k == 1 && c.two_sources { (&s2, us2) } else { (&s, us) };
            match conn {
                Conn::None => (),
                Conn::Full => {
                    r.node().connect_to(g.node());
                    m.connect(u, ug);
                }
                Conn::Part(sc, dc, n) => {
                    r.node().connect_channels_to(g.node(), sc, dc, n);
                    m.edges.push(MEdge { from: u, to: ug, sc, dc, n });
                }
            }
        }
        g.node().connect_to_output();
        m.out = Some(ug);
        if c.input_ch > 0 {
            g.node().connect_to_input();
            m.inp = Some(ug);
        }
        e.ctx.start();
        let mut seen = Vec::new();
        for b in 0..2 {
            rec.state(&(&m, c.outs, c.input_ch));
            let inp = input(3, b * 3, c.input_ch.max(1));
            let got = e.block(&as_f32(&inp), c.outs);
            let want = m.block(&inp, 3, c.outs);
            same_all(&format!("block {b}"), &got, &want, 0.0)?;
            seen.push(got.iter().map(|c| bits(c)).collect::<Vec<_>>());
        }
        rec.exec(&seen);
        Ok(())
    })
}

/// A system input that reaches the system output through a connection of some of its channels.
#[derive(Debug, Clone)]
struct Wires {
    max: usize,
    ca: usize,
    cb: usize,
    sc: usize,
    dc: usize,
    n: usize,
    input_ch: usize,
    outs: usize,
}

fn run_wires(c: &Wires, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(64, 4, c.max);
        let mut m = Model::default();
        let (ka, kb) = (MKind::Gain { ch: c.ca, g: 2 }, MKind::Gain { ch: c.cb, g: 3 });
        let (a, b) = (real(&e, &ka), real(&e, &kb));
        let (ua, ub) = (m.add(ka), m.add(kb));
        a.node().connect_channels_to(b.node(), c.sc, c.dc, c.n);
        m.edges.push(MEdge { from: ua, to: ub, sc: c.sc, dc: c.dc, n: c.n });
        a.node().connect_to_input();
        m.inp = Some(ua);
        b.node().connect_to_output();
        m.out = Some(ub);
        e.ctx.start();
        let mut seen = Vec::new();
        for k in 0..2 {
            rec.state(&(&m, c.outs, c.input_ch, c.max));
            let inp = input(6, k * 6, c.input_ch);
            let got = e.block(&as_f32(&inp), c.outs);
            let want = m.block(&inp, 6, c.outs);
            same_all(&format!("block {k}"), &got, &want, 0.0)?;
            seen.push(got.iter().map(|c| bits(c)).collect::<Vec<_>>());
        }
        rec.exec(&seen);
        Ok(())
    })
}

// shapes of many nodes

#[derive(Debug, Clone)]
struct Shape {
    kind: usize,
    n: usize,
    seed: u32,
    backwards: bool,
}

fn run_shape(s: &Shape, rec: &mut Rec) -> Check {
    inline(s.seed, || {
        let mut e = eng(64, 4, 1);
        let mut m = Model::default();
        let src = MKind::Src { ch: 1, base: 1, pos: 0 };
        // chain: S -> G -> G ...; star: S... -> G; ladder: S -> G, each G gets the two before it
        let kinds: Vec<MKind> = match s.kind {
            1 => (0..s.n).map(|i| MKind::Src { ch: 1, base: i as i64, pos: 0 }).chain([MKind::Gain { ch: 1, g: 1 }]).collect(),
            _ => [src].into_iter().chain((0..s.n).map(|_| MKind::Gain { ch: 1, g: 1 })).collect(),
        };
        let edges: Vec<(usize, usize)> = match s.kind {
            0 => (0..s.n).map(|i| (i, i + 1)).collect(),
            1 => (0..s.n).map(|i| (i, s.n)).collect(),
            2 => (1..=s.n).map(|i| (0, i)).collect(),
            _ => (1..=s.n.min(20)).flat_map(|i| if i >= 2 { vec![(i - 1, i), (i - 2, i)] } else { vec![(0, 1)] }).collect(),
        };
        let last = if s.kind == 3 { s.n.min(20) } else { kinds.len() - 1 };
        let mut nodes: Vec<Option<RNode>> = kinds.iter().map(|_| None).collect();
        let mut uid = vec![0; kinds.len()];
        let mut order: Vec<usize> = (0..kinds.len()).collect();
        if s.backwards {
            order.reverse();
        }
        for i in order {
            nodes[i] = Some(real(&e, &kinds[i]));
            uid[i] = m.add(kinds[i].clone());
        }
        for (a, b) in &edges {
            nodes[*a].as_ref().unwrap().node().connect_to(nodes[*b].as_ref().unwrap().node());
            m.connect(uid[*a], uid[*b]);
        }
        nodes[last].as_ref().unwrap().node().connect_to_output();
        m.out = Some(uid[last]);
        e.ctx.start();
        for b in 0..2 {
            rec.state(&(s.kind, s.n, b));
            let got = e.quiet(3, 1);
            let want = m.block(&input(3, 0, 0), 3, 1);
            same_all(&format!("block {b}"), &got, &want, 0.0)?;
        }
        rec.exec(&(s.kind, s.n));
        Ok(())
    })
}

// what is silent or quiet counts like anything else

/// What a feed of `ch` channels plays at frame `f` of block `b` of 4 frames, on channel `c`.
fn pattern(p: usize, feed: usize, c: usize, ch: usize, b: usize, f: usize) -> f32 {
    let quiet = (c + 1 + feed) as f32 * 2f32.powi(-28);
    let loud = (f + 1 + 2 * c + 8 * feed) as f32 * 2f32.powi(-11);
    match p {
        0 => 0.0,
        1 => quiet,
        2 => -quiet,
        3 => if f == 3 { loud } else { 0.0 },
        4 => if c + 1 == ch { loud } else { 0.0 },
        5 => if b == 0 { quiet } else { loud },
        6 => if b == 0 { 0.0 } else { loud },
        7 => if b == 0 { loud } else { 0.0 },
        _ => loud,
    }
}

#[derive(Debug, Clone)]
struct Quiet {
    ch: usize,
    /// a pattern for each feed; the last one is the system input's
    feeds: Vec<usize>,
    /// channel by channel, or all at once
    each: bool,
    /// connected again, through another node
    twice: bool,
    out: usize,
}

fn run_quiet(q: &Quiet, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(64, 4, 3);
        let data = |feed: usize| -> Chans { (0..q.ch).map(|c| (0..8).map(|f| pattern(q.feeds[feed], feed, c, q.ch, f / 4, f % 4)).collect()).collect() };
        let sum = Gain::new(e.ctx.as_ref(), q.ch);
        let after = Gain::new(e.ctx.as_ref(), q.ch);
        let last = q.feeds.len() - 1;
        let mut keep = Vec::new();
        for feed in 0..last {
            let mut s = Sampler::new(e.ctx.as_ref(), buf(&data(feed), e.sr));
            s.start_now();
            match q.each {
                true => (0..q.ch).for_each(|c| s.node.connect_channels_to(&sum.node, c, c, 1)),
                false => s.node.connect_to(&sum.node),
            }
            if q.twice {
                s.node.connect_to(&after.node);
            }
            keep.push(s);
        }
        sum.node.connect_to_input();
        sum.node.connect_to(&after.node);
        [&sum, &after][q.out].node.connect_to_output();
        e.ctx.start();
        let input = data(last);
        let mut seen = Vec::new();
        for b in 0..2 {
            let part: Chans = input.iter().map(|x| x[4 * b..4 * b + 4].to_vec()).collect();
            let got = e.block(&part, q.ch);
            for c in 0..q.ch {
                for f in 0..4 {
                    let v = |feed: usize| pattern(q.feeds[feed], feed, c, q.ch, b, f);
                    let times = if q.twice && q.out == 1 { 2.0 } else { 1.0 };
                    let want = (0..last).map(|feed| times * v(feed)).sum::<f32>() + v(last);
                    crate::ensure!(got[c][f] == want, "channel {c}, frame {f} of block {b} is {}, expected {want}", got[c][f]);
                }
            }
            rec.state(&(q.ch, b, q.feeds.clone()));
            seen.push(got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        }
        rec.exec(&seen);
        Ok(())
    })
}

// nodes of another number of outputs than inputs

#[derive(Debug, Clone)]
struct Mixers {
    /// inputs and outputs of the first, inputs and outputs of the second
    shape: [usize; 4],
    conn: Conn,
    /// a third one of the first's shape, connected likewise
    two: bool,
    input_ch: usize,
}

fn run_mixers(x: &Mixers, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(64, 4, 4);
        let level = |k: usize, i: usize, o: usize| (1 + (3 * i + 5 * o + 7 * k) % 8) as f64 * if (i + o + k) % 3 == 0 { -0.25 } else { 0.25 };
        let make = |e: &Eng, k: usize, ins: usize, outs: usize| {
            let mut m = Mixer::new(e.ctx.as_ref(), ins, outs);
            for i in 0..ins {
                for o in 0..outs {
                    m.set_level(i, o, Level::from_linear(level(k, i, o)));
                }
            }
            m
        };
        let [a, b, c, d] = x.shape;
        let first = [make(&e, 0, a, b), make(&e, 1, a, b)];
        let second = make(&e, 2, c, d);
        let entry = Gain::new(e.ctx.as_ref(), a);
        entry.node.connect_to_input();
        let mut want = vec![vec![0.0f64; c]; a];
        for (k, m) in first.iter().enumerate().take(1 + x.two as usize) {
            entry.node.connect_to(&m.node);
            let (sc, dc, n) = match x.conn {
                Conn::Part(sc, dc, n) => {
                    m.node.connect_channels_to(&second.node, sc, dc, n);
                    (sc, dc, n)
                }
                _ => {
                    m.node.connect_to(&second.node);
                    (0, 0, b.min(c))
                }
            };
            for i in 0..a {
                for j in 0..n {
                    want[i][dc + j] += level(k, i, sc + j);
                }
            }
        }
        second.node.connect_to_output();
        e.ctx.start();
        let mut seen = Vec::new();
        for (t, frames) in [(0, 4usize), (4, 3)] {
            let input = input(frames, t, x.input_ch);
            let got = e.block(&as_f32(&input), 4);
            for o in 0..4 {
                for f in 0..frames {
                    let w: f64 = match o < d {
                        true => (0..a.min(x.input_ch)).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| input[i][f] as f64 * want[i][j] * level(2, j, o)).sum(),
                        false => 0.0,
                    };
                    crate::ensure!((got[o][f] as f64 - w).abs() <= 1e-2, "output {o}, frame {f} is {}, expected {w}", got[o][f]);
                }
            }
            rec.state(&(x.shape, t, format!("{:?}", x.conn)));
            seen.push(got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        }
        rec.exec(&seen);
        Ok(())
    })
}

// the macro

#[derive(Debug, Clone, Copy)]
struct Chain {
    nodes: usize,
    input: bool,
    output: bool,
    /// the chain is made in two calls, at this node
    cut: Option<usize>,
    /// a second chain is connected into the first at this node
    side: Option<usize>,
}

fn run_chain(x: &Chain, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(64, 4, 1);
        let g: Vec<Gain> = (0..x.nodes + 2)
            .map(|i| {
                let mut g = Gain::new(e.ctx.as_ref(), 1);
                g.gain().set_value_now([2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0][i]);
                g
            })
            .collect();
        let mut source = Sampler::new(e.ctx.as_ref(), buf(&[(0..32).map(|f| f as f32).collect()], e.sr));
        source.start_now();
        let part = |from: usize, to: usize, input: bool, output: bool| {
            let g = &g[from..to];
            match (g.len(), input, output) {
                (1, true, false) => { connect_nodes!("input" => g[0]); }
                (1, false, true) => { connect_nodes!(g[0] => "output"); }
                (1, true, true) => { connect_nodes!("input" => g[0] => "output"); }
                (2, false, false) => { connect_nodes!(g[0] => g[1]); }
                (2, true, false) => { connect_nodes!("input" => g[0] => g[1]); }
                (2, false, true) => { connect_nodes!(g[0] => g[1] => "output"); }
                (2, true, true) => { connect_nodes!("input" => g[0] => g[1] => "output"); }
                (3, false, false) => { connect_nodes!(g[0] => g[1] => g[2]); }
                (3, true, false) => { connect_nodes!("input" => g[0] => g[1] => g[2]); }
                (3, false, true) => { connect_nodes!(g[0] => g[1] => g[2] => "output"); }
                (3, true, true) => { connect_nodes!("input" => g[0] => g[1] => g[2] => "output"); }
                (4, false, false) => { connect_nodes!(g[0] => g[1] => g[2] => g[3]); }
                (4, true, false) => { connect_nodes!("input" => g[0] => g[1] => g[2] => g[3]); }
                (4, false, true) => { connect_nodes!(g[0] => g[1] => g[2] => g[3] => "output"); }
                (4, true, true) => { connect_nodes!("input" => g[0] => g[1] => g[2] => g[3] => "output"); }
                (5, false, false) => { connect_nodes!(g[0] => g[1] => g[2] => g[3] => g[4]); }
                (5, true, false) => { connect_nodes!("input" => g[0] => g[1] => g[2] => g[3] => g[4]); }
                (5, false, true) => { connect_nodes!(g[0] => g[1] => g[2] => g[3] => g[4] => "output"); }
                (5, true, true) => { connect_nodes!("input" => g[0] => g[1] => g[2] => g[3] => g[4] => "output"); }
                _ => (),
            }
        };
        match x.cut {
            // the node at the cut is in both
            Some(c) => {
                part(0, c + 1, x.input, false);
                part(c, x.nodes, false, x.output);
            }
            None => part(0, x.nodes, x.input, x.output),
        }
        if let Some(at) = x.side {
            let (p, q, into) = (&g[x.nodes], &g[x.nodes + 1], &g[at]);
            connect_nodes!(source => p => q => into);
        }
        e.ctx.start();
        let mut seen = Vec::new();
        for (t, frames) in [(0usize, 3usize), (3, 4)] {
            let input = input(frames, t, 1);
            let got = e.block(&as_f32(&input), 1);
            for f in 0..frames {
                let primes = [2.0f64, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0];
                let through = |from: usize| primes[from..x.nodes].iter().product::<f64>();
                let mut want = 0.0;
                if x.output {
                    if x.input {
                        want += input[0][f] as f64 * through(0);
                    }
                    if let Some(at) = x.side {
                        want += (t + f) as f64 * primes[x.nodes] * primes[x.nodes + 1] * through(at);
                    }
                }
                crate::ensure!((got[0][f] as f64 - want).abs() <= 1e-6 * want.abs(), "frame {} is {}, expected {want}", t + f, got[0][f]);
            }
            rec.state(&(x.nodes, t, x.input, x.output, x.cut, x.side));
            seen.push(bits(&got[0]));
        }
        rec.exec(&seen);
        Ok(())
    })
}

pub fn c01(t: Tier) -> Vec<Suite> {
    let quiet = cases(
        "silent and quiet parts",
        "up to three samplers and the system input into one gain of 1 to 3 channels, all at once or channel by channel, and past it into another or not; each of them silent, very quiet, its negative, silent but for its last frame or its last channel, quiet then loud, silent then loud, loud then silent, or loud; exact",
        words(9, 3) * 9 * 3 * 8,
        |mut d: D| {
            let ch = 1 + d.n(3);
            let (each, twice, out) = (d.flag(), d.flag(), d.n(2));
            let last = d.n(9);
            let mut feeds = d.word_upto(9, 3);
            feeds.push(last);
            Some(Quiet { ch, feeds, each, twice, out })
        },
        run_quiet,
    );
    let mixers = cases(
        "mixers in a row",
        "one or two mixers of every shape up to 4 by 4 into another of every shape up to 4 by 4, connected whole or by any range of channels; system inputs of 1 to 4 channels; maximum channel count 4",
        256 * 32 * 2 * 4,
        |mut d: D| {
            let shape = [1 + d.n(4), 1 + d.n(4), 1 + d.n(4), 1 + d.n(4)];
            let v = conns(shape[1], shape[2]);
            let k = 1 + d.n(32);
            let conn = *v.get(k)?;
            Some(Mixers { shape, conn, two: d.flag(), input_ch: 1 + d.n(4) })
        },
        run_mixers,
    );
    let chains = cases(
        "connect_nodes",
        "chains of 1 to 5 gains made by the macro, with or without the input and the output, in one call or in two, and another chain of a sampler and two gains connected to each of its nodes or not",
        5 * 4 * 6 * 6,
        |mut d: D| {
            let nodes = 1 + d.n(5);
            let (input, output) = (d.flag(), d.flag());
            let (cut, side) = (d.n(6), d.n(6));
            let cut = (cut > 0).then(|| cut - 1);
            let side = (side > 0).then(|| side - 1);
            let ok = cut.is_none_or(|c| c < nodes) && side.is_none_or(|c| c < nodes);
            // a single node has to be connected to something
            (ok && (nodes > 1 || input || output)).then_some(Chain { nodes, input, output, cut, side })
        },
        run_chain,
    );
    let chan = {
        let size = 9 * 16 * 16 * 2 * 4 * 4;
        cases(
            "channel mapping",
            "sources and gain of 1..=3 channels, two connections each absent, full or any in-range channel subset, from one source or two, system input of 0..=3 channels, output of 1..=4 channels, maximum channel count 3",
            size,
            |mut d: D| {
                let (cs, cg) = (d.n(3) + 1, d.n(3) + 1);
                let v = conns(cs, cg);
                let (a, b) = (d.n(16), d.n(16));
                if a >= v.len() || b >= v.len() {
                    return None;
                }
                Some(Chan { cs, cg, a: v[a], b: v[b], two_sources: d.flag(), input_ch: d.n(4), outs: d.n(4) + 1 })
            },
            run_chan,
        )
    };
    let wires = cases(
        "system channels",
        "a system input of 1..=5 channels into a gain of 1..=m channels, any in-range subset of its channels into another of 1..=m channels, and that into a system output of 1..=5 channels; maximum channel count m of 1..=4",
        5 * 5 * 4 * 4 * 4 * 4 * 4 * 4,
        |mut d: D| {
            let (input_ch, outs, max) = (1 + d.n(5), 1 + d.n(5), 1 + d.n(4));
            let (ca, cb, n, sc, dc) = (1 + d.n(4), 1 + d.n(4), 1 + d.n(4), d.n(4), d.n(4));
            let ok = ca <= max && cb <= max && sc + n <= ca && dc + n <= cb;
            ok.then_some(Wires { max, ca, cb, sc, dc, n, input_ch, outs })
        },
        run_wires,
    );
    let sizes: Vec<usize> = t.pick(vec![1, 2, 3, 5, 8, 17, 64, 130, 300], (1..=64).chain([100, 130, 200, 300, 400, 500]).collect());
    let nsizes = sizes.len();
    let shape = cases(
        "large shapes",
        &format!("chain, star in, star out and ladder of n nodes, n in {sizes:?}, both creation orders, 3 hash orders"),
        (4 * nsizes * 2 * 3) as u64,
        move |mut d: D| Some(Shape { kind: d.n(4), n: d.of(&sizes), seed: d.n(3) as u32, backwards: d.flag() }),
        run_shape,
    );
    let base = DagSpace { sources: 1, nodes: 4, mult: 1, all_perms: true, seeds: 2, inputs: true, orders: 2 };
    let mut v = vec![
        dags("one source, three gains", base),
        dags("one source, three gains, parallel edges", DagSpace { mult: 2, all_perms: false, seeds: 1, ..base }),
        dags(
            "two sources, two gains",
            DagSpace { sources: 2, mult: t.pick(1, 2), all_perms: t.pick(false, true), seeds: t.pick(1, 2), ..base },
        ),
        chan,
        wires,
        shape,
        quiet,
        mixers,
        chains,
    ];
    if t == Tier::Thorough {
        v.push(dags(
            "one source, three gains, parallel edges, all orders",
            DagSpace { mult: 2, seeds: 3, ..base },
        ));
        v.push(dags(
            "one source, four gains",
            DagSpace { nodes: 5, seeds: 1, inputs: false, orders: 1, ..base },
        ));
        v.push(dags(
            "two sources, three gains",
            DagSpace { sources: 2, nodes: 5, all_perms: false, seeds: 6, ..base },
        ));
    }
    v
}

// C02: histories of changes

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Connect(usize, usize),
    Channels(usize, usize),
    Disconnect(usize, usize),
    Out(usize),
    In(usize),
    /// Drop the node if it exists, create it otherwise.
    Toggle(usize),
    SetGain(usize),
    Block,
}

#[derive(Debug, Clone)]
struct Hist {
    /// 0: nothing connected, 1: a chain, 2: every forward pair, some twice
    wired: usize,
    seed: u32,
    ops: Vec<Op>,
}

fn kind_of(i: usize, sources: usize) -> MKind {
    if i < sources {
        MKind::Src { ch: 1, base: 10 + 40 * i as i64, pos: 0 }
    } else {
        MKind::Gain { ch: 1, g: [3, 5, 7, 2][i] }
    }
}

fn wires(n: usize, sources: usize, wired: usize) -> Vec<(usize, usize)> {
    match wired {
        0 => vec![],
        1 => pairs(sources, n).into_iter().filter(|(a, b)| a + 1 == *b).collect(),
        _ => pairs(sources, n).into_iter().chain([(0, n - 1)]).collect(),
    }
}

/// Slots and the model; None if an operation is not allowed (missing node, cycle).
struct Play {
    m: Model,
    slot: Vec<Option<usize>>,
    sources: usize,
}
impl Play {
    fn new(n: usize, sources: usize, wired: usize) -> Self {
        let mut m = Model::default();
        let slot: Vec<_> = (0..n).map(|i| Some(m.add(kind_of(i, sources)))).collect();
        m.out = slot[n - 1];
        for (a, b) in wires(n, sources, wired) {
            m.connect(slot[a].unwrap(), slot[b].unwrap());
        }
        if wired > 0 {
            m.inp = slot[sources];
        }
        Play { m, slot, sources }
    }
    fn apply(&mut self, op: Op) -> Option<()> {
        match op {
            Op::Connect(a, b) | Op::Channels(a, b) => {
                let (a, b) = (self.slot[a]?, self.slot[b]?);
                if self.m.reaches(b, a) {
                    return None;
                }
                self.m.connect(a, b);
            }
            Op::Disconnect(a, b) => {
                let (a, b) = (self.slot[a]?, self.slot[b]?);
                self.m.edges.retain(|e| e.from != a || e.to != b);
            }
            Op::Out(a) => self.m.out = Some(self.slot[a]?),
            Op::In(a) => self.m.inp = Some(self.slot[a]?),
            Op::Toggle(a) => match self.slot[a].take() {
                Some(u) => self.m.remove(u),
                None => self.slot[a] = Some(self.m.add(kind_of(a, self.sources))),
            },
            Op::SetGain(a) => {
                let u = self.slot[a]?;
                for n in &mut self.m.nodes {
                    if let (true, MKind::Gain { g, .. }) = (n.uid == u, &mut n.kind) {
                        *g = 11;
                    }
                }
            }
            Op::Block => (),
        }
        Some(())
    }
}

fn run_hist(h: &Hist, slots: usize, sources: usize, rec: &mut Rec) -> Check {
    inline(h.seed, || {
        let mut e = eng(64, 2, 1);
        let mut p = Play::new(slots, sources, h.wired);
        let mut r: Vec<Option<RNode>> = (0..slots).map(|i| Some(real(&e, &kind_of(i, sources)))).collect();
        fn at(r: &[Option<RNode>], i: usize) -> &GraphNode {
            r[i].as_ref().unwrap().node()
        }
        at(&r, slots - 1).connect_to_output();
        for (a, b) in wires(slots, sources, h.wired) {
            at(&r, a).connect_to(at(&r, b));
        }
        if h.wired > 0 {
            at(&r, sources).connect_to_input();
        }
        e.ctx.start();
        let mut t = 0;
        let mut seen = Vec::new();
        for op in h.ops.iter().chain([&Op::Block]) {
            p.apply(*op).unwrap();
            match *op {
                Op::Connect(a, b) => at(&r, a).connect_to(at(&r, b)),
                Op::Channels(a, b) => at(&r, a).connect_channels_to(at(&r, b), 0, 0, 1),
                Op::Disconnect(a, b) => at(&r, a).disconnect_from_node(at(&r, b)),
                Op::Out(a) => at(&r, a).connect_to_output(),
                Op::In(a) => at(&r, a).connect_to_input(),
                Op::Toggle(a) => {
                    r[a] = match r[a].take() {
                        Some(_) => None,
                        None => Some(real(&e, &kind_of(a, sources))),
                    }
                }
                Op::SetGain(a) => {
                    if let Some(RNode::G(g)) = &mut r[a] {
                        g.gain().set_value_now(11.0);
                    }
                }
                Op::Block => {
                    rec.state(&p.m);
                    let inp = input(3, t, 1);
                    let got = e.block(&as_f32(&inp), 1);
                    let want = p.m.block(&inp, 3, 1);
                    same_all(&format!("block at frame {t}"), &got, &want, 0.0)?;
                    t += 3;
                    seen.push(bits(&got[0]));
                }
            }
            rec.steps += 1;
        }
        drop(r);
        rec.exec(&seen);
        Ok(())
    })
}

fn letters(slots: usize, sources: usize) -> Vec<Op> {
    let mut v = vec![Op::Block];
    for b in sources..slots {
        for a in 0..slots {
            if a != b {
                v.push(Op::Connect(a, b));
                v.push(Op::Disconnect(a, b));
            }
        }
    }
    v.push(Op::Channels(0, sources));
    for a in 0..slots {
        v.push(Op::Toggle(a));
        v.push(Op::Out(a));
        if a >= sources {
            v.push(Op::In(a));
        }
    }
    v.push(Op::SetGain(sources));
    v
}

fn hist(name: &str, slots: usize, sources: usize, depth: usize, seeds: usize) -> Suite {
    let l = letters(slots, sources);
    let bounds = format!("every history of up to {depth} operations over {l:?} on {sources} sources and {} gains, from an unconnected, a chained and a fully connected start, {seeds} hash orders; a final block of 3 frames", slots - sources);
    let size = words(l.len(), depth) * 3 * seeds as u64;
    cases(
        name,
        &bounds,
        size,
        move |mut d: D| {
            let wired = d.n(3);
            let seed = d.n(seeds) as u32;
            let ops: Vec<Op> = d.word_upto(l.len(), depth).into_iter().map(|i| l[i]).collect();
            let mut p = Play::new(slots, sources, wired);
            for op in &ops {
                p.apply(*op)?;
            }
            // a block right before the final one adds nothing
            if ops.last() == Some(&Op::Block) {
                return None;
            }
            Some(Hist { wired, seed, ops })
        },
        move |h, rec| run_hist(h, slots, sources, rec),
    )
}

pub fn c02(t: Tier) -> Vec<Suite> {
    match t {
        Tier::Quick => vec![hist("histories, 3 nodes", 3, 1, 4, 1), hist("histories, 3 nodes, other hash orders", 3, 1, 3, 6), hist("histories, 4 nodes", 4, 1, 3, 2)],
        Tier::Thorough => vec![hist("histories, 3 nodes", 3, 1, 5, 2), hist("histories, 3 nodes, other hash orders", 3, 1, 4, 6), hist("histories, 4 nodes", 4, 1, 4, 2), hist("histories, 2 sources", 4, 2, 4, 1)],
    }
}
