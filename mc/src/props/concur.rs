//! C05: calls made while the audio thread runs take effect in order, at block boundaries.

use super::rigs::sample;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crossbeam::mc;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

const SR: usize = 512;

/// How far each side has got; not seen by the explorer.
#[derive(Clone, Default)]
struct Ticks(Arc<[AtomicUsize; 4]>);
const CALLED: usize = 0;
const RETURNED: usize = 1;
const ENTERED: usize = 2;
const LEFT: usize = 3;
impl Ticks {
    fn get(&self, i: usize) -> usize {
        self.0[i].load(SeqCst)
    }
    fn tick(&self, i: usize) {
        self.0[i].fetch_add(1, SeqCst);
    }
}

/// A block as the audio thread saw it: its output, and how many calls had returned before and been made after it.
#[derive(Debug, Clone)]
struct Block {
    out: Vec<f32>,
    least: usize,
    most: usize,
}

fn input(b: usize, len: usize) -> Vec<f32> {
    (0..len).map(|f| (b * len + f + 1) as f32).collect()
}

/// A block that takes in what was called before the program; one frame of silence.
fn settle(mut p: Box<dyn AudioProcess + Send>) -> Box<dyn AudioProcess + Send> {
    let i = buf(&[vec![0.0]], SR);
    let mut o = OwnedAudioBuffer::new(1, 1, SR);
    let before = mc::set_role(Role::Audio);
    p.process(&i, &mut o);
    mc::set_role(before);
    p
}

/// The audio thread: `blocks` calls of process().
fn audio(mut p: Box<dyn AudioProcess + Send>, t: Ticks, blocks: usize, len: usize) -> (Box<dyn AudioProcess + Send>, Vec<Block>) {
    let seen = (0..blocks)
        .map(|b| {
            let i = buf(&[input(b, len)], SR);
            let mut o = OwnedAudioBuffer::new(len, 1, SR);
            o.fill_with_value(f32::NAN);
            let least = t.get(RETURNED);
            t.tick(ENTERED);
            p.process(&i, &mut o);
            t.tick(LEFT);
            Block { out: chans(&o).remove(0), least, most: t.get(CALLED) }
        })
        .collect();
    (p, seen)
}

/// Every non-decreasing choice of how many of `n` calls each block has seen, within what the blocks allow; the last
/// block has seen all.
fn prefixes(blocks: &[Block], n: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn go(blocks: &[Block], n: usize, ks: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        let i = ks.len();
        if i == blocks.len() {
            return f(ks);
        }
        let low = blocks[i].least.max(ks.last().copied().unwrap_or(0));
        for k in low..=blocks[i].most.min(n) {
            ks.push(k);
            let done = go(blocks, n, ks, f);
            ks.pop();
            if done {
                return true;
            }
        }
        false
    }
    go(blocks, n, &mut vec![], f)
}

// ------------------------------------------------------------------------------------------------- the graph's order

/// Calls over the nodes A = 0 (fed by the input), B = 1, O = 2 (the output; A is connected to it), and C = 3.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Call {
    Set(usize, u32),
    /// O's gain becomes one half at a frame
    At(usize),
    /// O's gain: forget what is scheduled
    Cancel,
    Connect(usize, usize),
    Disconnect(usize, usize),
    Output(usize),
    Input(usize),
    /// make C
    New,
    Drop(usize),
    Start,
    Stop,
    /// read the clock and A's gain
    Look,
}

#[derive(Debug, Clone)]
struct Program {
    started: bool,
    calls: Vec<Call>,
    blocks: usize,
    len: usize,
    maxf: usize,
}

#[derive(Clone)]
struct Model {
    gain: [Option<f32>; 4],
    at: Option<usize>,
    edges: Vec<(usize, usize)>,
    input: usize,
    output: usize,
    running: bool,
    frames: usize,
}
impl Model {
    fn new(started: bool) -> Self {
        let gain = [Some(1.0), Some(1.0), Some(1.0), None];
        Self { gain, at: None, edges: vec![(0, 2)], input: 0, output: 2, running: started, frames: started as usize }
    }
    fn apply(&mut self, c: &Call) {
        match *c {
            Call::Set(n, v) => self.gain[n] = Some(v as f32),
            Call::At(f) => self.at = Some(f),
            Call::Cancel => self.at = None,
            Call::Connect(a, b) => self.edges.push((a, b)),
            Call::Disconnect(a, b) => self.edges.retain(|e| *e != (a, b)),
            Call::Output(n) => self.output = n,
            Call::Input(n) => self.input = n,
            Call::New => self.gain[3] = Some(1.0),
            Call::Drop(n) => {
                self.gain[n] = None;
                self.edges.retain(|e| e.0 != n && e.1 != n);
            }
            Call::Start => self.running = true,
            Call::Stop => self.running = false,
            Call::Look => (),
        }
    }
    fn value(&self, n: usize, x: f32) -> f32 {
        let Some(g) = self.gain[n] else { return 0.0 };
        let mut v = if self.input == n { x } else { 0.0 };
        for e in self.edges.iter().filter(|e| e.1 == n) {
            v += self.value(e.0, x);
        }
        g * v
    }
    /// A block of output; A's gain at each of its frames is added to `gains`.
    fn block(&mut self, input: &[f32], gains: &mut Vec<f64>) -> Vec<f32> {
        if !self.running {
            return vec![0.0; input.len()];
        }
        let mut out = vec![];
        for x in input {
            if self.at.is_some_and(|f| f <= self.frames) && self.gain[2].is_some() {
                self.gain[2] = Some(0.5);
                self.at = None;
            }
            gains.extend(self.gain[0].map(f64::from));
            out.push(self.value(self.output, *x));
            self.frames += 1;
        }
        out
    }
}

/// A reading of the clock and of A's gain: blocks finished before it, entered by its end.
#[derive(Debug, Clone)]
struct Glance {
    time: f64,
    gain: f64,
    least: usize,
    most: usize,
}

#[derive(Debug)]
struct Seen {
    blocks: Vec<Block>,
    looks: Vec<Glance>,
}

fn graph_body(c: &Program) -> Seen {
    let e = eng(SR, c.maxf, 1);
    let Eng { mut ctx, p, .. } = e;
    let mut nodes: Vec<Option<Gain>> = (0..3).map(|_| Some(Gain::new(ctx.as_ref(), 1))).collect();
    nodes.push(None);
    fn n(nodes: &[Option<Gain>], i: usize) -> &GraphNode {
        &nodes[i].as_ref().unwrap().node
    }
    n(&nodes, 0).connect_to_input();
    n(&nodes, 2).connect_to_output();
    n(&nodes, 0).connect_to(n(&nodes, 2));
    if c.started {
        ctx.start();
    }
    let p = settle(p);
    let t = Ticks::default();
    let (t2, blocks, len) = (t.clone(), c.blocks, c.len);
    let h = mc::spawn("audio", Role::Audio, move || audio(p, t2, blocks, len));
    let mut looks = vec![];
    for call in &c.calls {
        t.tick(CALLED);
        match *call {
            Call::Set(i, v) => nodes[i].as_mut().unwrap().gain().set_value_now(v as f64),
            Call::At(f) => nodes[2].as_mut().unwrap().gain().set_value_at_time(0.5, t_samples(f as f64, SR)),
            Call::Cancel => nodes[2].as_mut().unwrap().gain().cancel_scheduled_changes(),
            Call::Connect(a, b) => n(&nodes, a).connect_to(n(&nodes, b)),
            Call::Disconnect(a, b) => n(&nodes, a).disconnect_from_node(n(&nodes, b)),
            Call::Output(i) => n(&nodes, i).connect_to_output(),
            Call::Input(i) => n(&nodes, i).connect_to_input(),
            Call::New => nodes[3] = Some(Gain::new(ctx.as_ref(), 1)),
            Call::Drop(i) => nodes[i] = None,
            Call::Start => ctx.start(),
            Call::Stop => ctx.stop(),
            Call::Look => {
                let least = t.get(LEFT);
                let time = ctx.current_time().as_seconds();
                let gain = nodes[0].as_mut().unwrap().gain().get_value().load(SeqCst);
                looks.push(Glance { time, gain, least, most: t.get(ENTERED) });
            }
        }
        t.tick(RETURNED);
    }
    let (p, mut blocks) = h.join().expect("audio thread");
    // once everything has been said and done
    let (p, last) = audio(p, t, 1, c.len);
    blocks.extend(last);
    drop(p);
    Seen { blocks, looks }
}

fn graph_check(c: &Program, s: &Seen, rec: &mut Rec) -> Check {
    let n = c.calls.len();
    let mut tried = vec![];
    let found = prefixes(&s.blocks, n, &mut |ks| {
        let mut m = Model::new(c.started);
        let mut done = 0;
        let mut times = vec![m.frames as f64 / SR as f64];
        // A's gain as of the end of each block: everything it has been
        let mut gains = vec![1.0];
        let mut ends = vec![0];
        let mut outs = vec![];
        for (b, k) in ks.iter().enumerate() {
            for call in &c.calls[done..*k] {
                m.apply(call);
            }
            done = *k;
            let at = if b < c.blocks { b } else { 0 };
            outs.push(m.block(&input(at, c.len), &mut gains));
            times.push(m.frames as f64 / SR as f64);
            ends.push(gains.len() - 1);
        }
        let ok = outs.iter().zip(&s.blocks).all(|(w, b)| *w == b.out)
            && s.looks.iter().all(|l| {
                times[l.least..=l.most].iter().any(|t| (t - l.time).abs() < 1e-6) && gains[ends[l.least]..=ends[l.most]].contains(&l.gain)
            });
        if ok {
            rec.state(&(&c.calls, ks));
            rec.exec(&(&c.calls, ks, s.looks.iter().map(|l| l.time.to_bits()).collect::<Vec<_>>()));
        } else {
            tried.push((ks.to_vec(), outs, times));
        }
        ok
    });
    ensure!(s.looks.windows(2).all(|w| w[0].time <= w[1].time), "the clock went back: {:?}", s.looks);
    ensure!(
        found,
        "no order of the {n} calls and the blocks explains the outputs {:?} and readings {:?}; possible (calls seen by each block, outputs, times): {tried:?}",
        s.blocks,
        s.looks
    );
    Ok(())
}

/// Whether the program makes sense, C and the dropped nodes being used only while they exist.
fn sound(calls: &[Call]) -> bool {
    let mut there = [true, true, true, false];
    let mut used = vec![];
    for c in calls {
        if used.contains(c) && !matches!(c, Call::Look) {
            return false;
        }
        used.push(*c);
        let ok = match *c {
            Call::Set(n, _) | Call::Output(n) | Call::Input(n) => there[n],
            Call::At(_) | Call::Cancel => there[2],
            Call::Connect(a, b) | Call::Disconnect(a, b) => there[a] && there[b],
            Call::New => !std::mem::replace(&mut there[3], true),
            Call::Drop(n) => std::mem::replace(&mut there[n], false),
            Call::Look => there[0],
            Call::Start | Call::Stop => true,
        };
        if !ok {
            return false;
        }
    }
    true
}

fn programs(name: &str, letters: Vec<Call>, length: usize, blocks: usize, len: usize, maxf: usize, preemptions: u32) -> Suite {
    let k = letters.len();
    sched(
        name,
        &format!("every program of {length} different calls over {letters:?} against {blocks} blocks of {len} frames in passes of {maxf}, and one block afterwards"),
        pow(k, length) * 2,
        Depth { preemptions, horizon: 2000, late_sleepers: true },
        move |mut d: D| {
            let started = !d.flag();
            let calls: Vec<Call> = d.word(k, length).into_iter().map(|i| letters[i]).collect();
            (sound(&calls) && (started || calls.contains(&Call::Start))).then_some(Program { started, calls, blocks, len, maxf })
        },
        graph_body,
        graph_check,
    )
}

// ---------------------------------------------------------------------------------------------- the order of one node

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Node {
    Mixer,
    Sampler,
    Adsr,
    Recorder,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct NodeProgram {
    node: Node,
    calls: Vec<usize>,
    blocks: usize,
    len: usize,
}

enum Real {
    Mixer(Mixer),
    Sampler(Sampler),
    Adsr(Adsr),
    Recorder(std::rc::Rc<std::cell::RefCell<Recorder>>, Gain),
}
impl Real {
    fn make(node: Node, ctx: &mut dyn Context) -> Real {
        match node {
            Node::Mixer => {
                let m = Mixer::unity(ctx, 1);
                m.node.connect_to_input();
                m.node.connect_to_output();
                Real::Mixer(m)
            }
            Node::Sampler => {
                let s = Sampler::new(ctx, sample(40, SR));
                s.node.connect_to_output();
                Real::Sampler(s)
            }
            Node::Adsr => {
                let mut a = Adsr::new(ctx, 1, SR);
                let frames = |n: f64| Duration::from_secs_f64(n / SR as f64);
                a.set_adsr(frames(5.0), frames(3.0), Level::from_linear(0.5), frames(7.0));
                a.node.connect_to_input();
                a.node.connect_to_output();
                Real::Adsr(a)
            }
            Node::Recorder => {
                let r = Recorder::new(ctx, 1, SR);
                let g = Gain::new(ctx, 1);
                g.node.connect_to_input();
                g.node.connect_to(&r.borrow().node);
                Real::Recorder(r, g)
            }
        }
    }
    fn call(&mut self, k: usize) {
        let at = |f: f64| t_samples(f, SR);
        match self {
            Real::Mixer(m) => m.set_level(0, 0, Level::from_linear([0.5, 0.25, 2.0, 0.0][k])),
            Real::Sampler(s) => match k {
                0 => s.start_from_position_at_time(at(0.0), at(10.0)),
                1 => s.stop_now(),
                2 => s.enable_loop(at(0.0), at(12.0)),
                _ => s.cancel_all(),
            },
            Real::Adsr(a) => match k {
                0 => a.note_on_at_time(at(0.0)),
                1 => a.note_off_at_time(at(0.0)),
                2 => a.note_off_at_time(at(3.0)),
                _ => a.set_sustain_level(Level::from_linear(0.75)),
            },
            Real::Recorder(r, _) => match k {
                0 => r.borrow_mut().record_now(),
                1 => r.borrow_mut().stop_record_now(),
                2 => r.borrow_mut().stop_record_at_time(at(3.0)),
                _ => (),
            },
        }
    }
    fn end(&mut self, ctx: &mut dyn Context) -> Vec<f32> {
        ctx.process_notifications();
        match self {
            Real::Recorder(r, _) => r.borrow_mut().take_recording().map_or(vec![], |b| chans(&b).remove(0)),
            _ => vec![],
        }
    }
}

#[derive(Debug)]
struct NodeSeen {
    blocks: Vec<Block>,
    recording: Vec<f32>,
}

fn node_body(c: &NodeProgram) -> NodeSeen {
    let Eng { mut ctx, p, .. } = eng(SR, c.len, 2);
    let mut real = Real::make(c.node, ctx.as_mut());
    ctx.start();
    let p = settle(p);
    let t = Ticks::default();
    let (t2, blocks, len) = (t.clone(), c.blocks, c.len);
    let h = mc::spawn("audio", Role::Audio, move || audio(p, t2, blocks, len));
    for k in &c.calls {
        t.tick(CALLED);
        real.call(*k);
        t.tick(RETURNED);
    }
    let (p, mut blocks) = h.join().expect("audio thread");
    let (p, last) = audio(p, t, 1, c.len);
    blocks.extend(last);
    let recording = real.end(ctx.as_mut());
    drop(p);
    NodeSeen { blocks, recording }
}

type Alone = (Vec<Vec<f32>>, Vec<f32>);
static ALONE: Mutex<Option<HashMap<(NodeProgram, Vec<usize>), Arc<Alone>>>> = Mutex::new(None);

/// The same calls on one thread, each block having seen the given number of them.
fn alone(c: &NodeProgram, ks: &[usize]) -> Arc<Alone> {
    let key = (c.clone(), ks.to_vec());
    if let Some(a) = ALONE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Arc::clone(a);
    }
    let r = inline(0, || {
        let mut e = eng(SR, c.len, 2);
        let mut real = Real::make(c.node, e.ctx.as_mut());
        e.ctx.start();
        e.quiet(1, 1);
        let mut done = 0;
        let mut outs = vec![];
        for (b, k) in ks.iter().enumerate() {
            for call in &c.calls[done..*k] {
                real.call(*call);
            }
            done = *k;
            let at = if b < c.blocks { b } else { 0 };
            outs.push(e.block(&[input(at, c.len)], 1).remove(0));
        }
        let recording = real.end(e.ctx.as_mut());
        (outs, recording)
    });
    let r = Arc::new(r);
    ALONE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&r));
    r
}

fn node_check(c: &NodeProgram, s: &NodeSeen, rec: &mut Rec) -> Check {
    let mut tried = vec![];
    let found = prefixes(&s.blocks, c.calls.len(), &mut |ks| {
        let a = alone(c, ks);
        let ok = a.0.iter().zip(&s.blocks).all(|(w, b)| *w == b.out) && a.1 == s.recording;
        if ok {
            rec.state(&(c, ks));
            rec.exec(&(c, ks));
        } else {
            tried.push((ks.to_vec(), a));
        }
        ok
    });
    ensure!(found, "no order of the calls and the blocks explains {s:?}; possible (calls seen by each block, outputs and recording): {tried:?}");
    Ok(())
}

fn node_programs(length: usize, blocks: usize, preemptions: u32) -> Suite {
    let nodes = [Node::Mixer, Node::Sampler, Node::Adsr, Node::Recorder];
    sched(
        "events of one node",
        &format!("every program of {length} events of the mixer, sampler, ADSR or recorder against {blocks} blocks of 2 frames, and one block afterwards"),
        pow(4, length) * 4,
        Depth { preemptions, horizon: 2000, late_sleepers: true },
        move |mut d: D| {
            let node = d.of(&nodes);
            let calls = d.word(4, length);
            (node != Node::Recorder || !calls.contains(&3)).then_some(NodeProgram { node, calls, blocks, len: 2 })
        },
        node_body,
        node_check,
    )
}

/// What is called many times before one block.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Crowd {
    Set,
    At,
    Level,
    Wire,
    Input,
    Switch,
    Sustain,
    /// one call to each of many nodes
    Each,
    /// each of many nodes made, set and connected
    Make,
}
const CROWDS: [Crowd; 9] = [Crowd::Set, Crowd::At, Crowd::Level, Crowd::Wire, Crowd::Input, Crowd::Switch, Crowd::Sustain, Crowd::Each, Crowd::Make];

/// All the calls are in force in the next block, whatever their number.
fn crowd(&(what, n, running): &(Crowd, usize, bool), rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(SR, 4, 2);
        let head = Gain::new(e.ctx.as_ref(), 1);
        let other = Gain::new(e.ctx.as_ref(), 1);
        let mut gain = Gain::new(e.ctx.as_ref(), 1);
        let mut mixer = Mixer::new(e.ctx.as_ref(), 1, 1);
        let mut adsr = Adsr::new(e.ctx.as_ref(), 1, SR);
        let tail = Gain::new(e.ctx.as_ref(), 1);
        head.node.connect_to_input();
        head.node.connect_to(&gain.node);
        gain.node.connect_to(&mixer.node);
        mixer.node.connect_to(&adsr.node);
        adsr.node.connect_to(&tail.node);
        tail.node.connect_to_output();
        mixer.set_level(0, 0, Level::from_linear(1.0));
        adsr.note_on_at_time(Timestamp::zero());
        let mut each: Vec<Gain> = vec![];
        let small = n.min(200);
        if what == Crowd::Each {
            for _ in 0..small {
                let g = Gain::new(e.ctx.as_ref(), 1);
                head.node.connect_to(&g.node);
                g.node.connect_to(&tail.node);
                each.push(g);
            }
        }
        if running {
            e.ctx.start();
            let started = e.block(&[vec![1.0; 3]], 1);
            same("before the calls", &started[0], &[1.0 + each.len() as f32; 3], 1e-6)?;
        }
        let mut want = 1.0f32;
        let mut on = running;
        let now = 3.0 * f64::from(u8::from(running)) + 1.0;
        for i in 0..n {
            let v = ((i * 7) % 64) as f64 / 32.0;
            match what {
                Crowd::Set => {
                    gain.gain().set_value_now(v);
                    want = v as f32;
                }
                Crowd::At => {
                    gain.gain().set_value_at_time(v, t_samples(now - 1.0, SR));
                    want = v as f32;
                }
                Crowd::Level => {
                    mixer.set_level(0, 0, Level::from_linear(v));
                    want = v as f32;
                }
                Crowd::Wire if i % 2 == 0 => {
                    head.node.disconnect_from_node(&gain.node);
                    want = 0.0;
                }
                Crowd::Wire => {
                    head.node.connect_to(&gain.node);
                    want = 1.0;
                }
                Crowd::Input if i % 2 == 0 => {
                    other.node.connect_to_input();
                    want = 0.0;
                }
                Crowd::Input => {
                    head.node.connect_to_input();
                    want = 1.0;
                }
                Crowd::Switch => {
                    on = i % 2 == 0;
                    if on {
                        e.ctx.start();
                    } else {
                        e.ctx.stop();
                    }
                }
                Crowd::Sustain => {
                    let v = (i % 64) as f64 / 64.0;
                    adsr.set_sustain_level(Level::from_linear(v));
                    want = v as f32;
                }
                Crowd::Each if i < small => {
                    each[i].gain().set_value_now(v);
                    want = (0..small).map(|k| if k <= i { ((k * 7) % 64) as f32 / 32.0 } else { 1.0 }).sum::<f32>() + 1.0;
                }
                Crowd::Make if i < small => {
                    let mut g = Gain::new(e.ctx.as_ref(), 1);
                    g.gain().set_value_now(v);
                    head.node.connect_to(&g.node);
                    g.node.connect_to(&tail.node);
                    each.push(g);
                    want += v as f32;
                }
                Crowd::Each | Crowd::Make => (),
            }
        }
        if what != Crowd::Switch {
            on = true;
            e.ctx.start();
        }
        let before = e.time();
        let got = e.block(&[vec![1.0; 3]], 1);
        if on {
            // an ADSR goes to a new sustain level over its decay, here one frame
            let from = usize::from(what == Crowd::Sustain);
            same(&format!("after {n} calls"), &got[0][from..], &vec![want; 3 - from], 1e-4)?;
        } else {
            ensure!(e.time() == before, "{n} calls, the last of them stop(), and the clock went on");
        }
        rec.state(&(what, n, running));
        rec.exec(&(what, running, want.to_bits(), on));
        Ok(())
    })
}

fn crowds(t: Tier) -> Suite {
    let mut ns: Vec<usize> = (1..=t.pick(70, 300)).collect();
    ns.extend([127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1300, 2049, 4097]);
    if t == Tier::Thorough {
        ns.extend([8193, 16_385]);
    }
    cases(
        "many calls before one block",
        &format!("each of {CROWDS:?} 1 to {} times and around the powers of two up to {} times, before the engine is started or between two blocks", t.pick(70, 300), ns[ns.len() - 1]),
        prod(&[9, ns.len() as u64, 2]),
        move |mut d: D| Some((d.of(&CROWDS), d.of(&ns), d.flag())),
        crowd,
    )
}

pub fn c05(t: Tier) -> Vec<Suite> {
    use Call::*;
    let all = vec![Set(0, 2), Set(0, 5), Set(1, 3), At(3), Cancel, Connect(0, 1), Connect(1, 2), Disconnect(0, 2), Output(0), Input(1), New, Drop(0), Drop(2), Start, Stop, Look];
    let some = vec![Set(0, 2), Set(1, 3), At(3), Connect(0, 1), Connect(1, 2), Disconnect(0, 2), Output(1), New, Drop(2), Start, Stop, Look];
    let core = vec![Set(0, 2), Connect(0, 1), Connect(1, 2), Disconnect(0, 2), Drop(0), Start, Stop, Look];
    let few = vec![Set(0, 2), Set(0, 5), Disconnect(0, 2), Output(0), Look];
    vec![
        programs("pairs of calls", all.clone(), 2, 2, 2, 1, t.pick(2, 4)),
        programs("triples of calls", if t == Tier::Quick { some } else { all }, 3, 2, 2, 1, t.pick(1, 2)),
        programs("triples of core calls", core.clone(), 3, 2, 2, 1, t.pick(1, 3)),
        programs("long programs", few, 4, 3, 2, 1, t.pick(1, 3)),
        programs("single calls, three blocks", core, 1, 3, 3, 2, t.pick(3, 6)),
        node_programs(t.pick(2, 3), 2, t.pick(2, 3)),
        crowds(t),
    ]
}
