//! C27: nodes, channels and engines do not affect one another. C28: the same calls give the same output.

use super::partition::{build, Rig};
use super::rigs::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Pair {
    a: Kind,
    b: Kind,
    va: usize,
    vb: usize,
    /// whose turn it is: bit i of six is set if the i-th call is one of B's
    turns: u32,
    b_first: bool,
    /// the last call of B is to drop it
    drop_b: bool,
    engines: usize,
}

const BLOCK: usize = 5;
const TAIL: usize = 3;

#[derive(Default)]
struct Seen {
    out: Chans,
    values: Vec<f64>,
}

/// Run the case with A, B or both present; gives what is seen of each.
fn together(c: &Pair, with_a: bool, with_b: bool) -> [Seen; 2] {
    inline(0, || {
        let sr = SR;
        let mut engines: Vec<Eng> = (0..c.engines).map(|_| eng(sr, 4, 4)).collect();
        let mut rigs = vec![];
        let (ea, eb) = (0, c.engines - 1);
        for e in &mut engines {
            let head = Gain::new(e.ctx.as_ref(), 4);
            let tail = Gain::new(e.ctx.as_ref(), 4);
            head.node.connect_to_input();
            tail.node.connect_to_output();
            rigs.push((head, tail));
        }
        let mut units: [Option<Unit>; 2] = [None, None];
        for k in if c.b_first { [1, 0] } else { [0, 1] } {
            let (there, kind, e) = if k == 0 { (with_a, c.a, ea) } else { (with_b, c.b, eb) };
            if !there {
                continue;
            }
            let u = Unit::make(kind, engines[e].ctx.as_mut(), sr);
            let (head, tail) = &rigs[e];
            u.node(&mut |n| {
                if !kind.source() {
                    head.node.connect_channels_to(n, 2 * k, 0, 2);
                }
                if kind != Kind::Recorder {
                    n.connect_channels_to(&tail.node, 0, 2 * k, 2);
                }
            });
            units[k] = Some(u);
        }
        for e in &mut engines {
            e.ctx.start();
        }
        let input = rough((6 + TAIL) * BLOCK, 4);
        let mut out = vec![vec![Vec::new(); 4]; c.engines];
        let mut made = [0, 0];
        let mut values = [vec![], vec![]];
        for i in 0..6 + TAIL {
            if i < 6 {
                let k = (c.turns >> i & 1) as usize;
                let v = if k == 0 { c.va } else { c.vb };
                if k == 1 && c.drop_b && made[1] == 2 {
                    units[1] = None;
                } else if let Some(u) = &mut units[k] {
                    u.call(v, made[k], i * BLOCK, sr);
                }
                made[k] += 1;
            }
            for (e, o) in engines.iter_mut().zip(&mut out) {
                let part: Chans = input.iter().map(|x| x[i * BLOCK..(i + 1) * BLOCK].to_vec()).collect();
                for (o, p) in o.iter_mut().zip(e.block(&part, 4)) {
                    o.extend(p);
                }
                e.ctx.process_notifications();
            }
            for (u, v) in units.iter_mut().zip(&mut values) {
                if let Some(u) = u {
                    v.extend(u.observe());
                }
            }
        }
        let [va, vb] = values;
        [Seen { out: out[ea][..2].to_vec(), values: va }, Seen { out: out[eb][2..].to_vec(), values: vb }]
    })
}

/// Everything the execution of one of the two alone depends on.
type Key = (usize, Kind, usize, u32, bool, usize);
static ALONE: Mutex<Option<HashMap<Key, Arc<Seen>>>> = Mutex::new(None);

fn alone(c: &Pair, k: usize) -> Arc<Seen> {
    let key = if k == 0 { (0, c.a, c.va, c.turns, false, c.engines) } else { (1, c.b, c.vb, c.turns, c.drop_b, c.engines) };
    if let Some(r) = ALONE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Arc::clone(r);
    }
    let [a, b] = together(c, k == 0, k == 1);
    let r = Arc::new(if k == 0 { a } else { b });
    ALONE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&r));
    r
}

fn pair(c: &Pair, rec: &mut Rec) -> Check {
    let both = together(c, true, true);
    for (k, got) in both.iter().enumerate() {
        let kind = if k == 0 { c.a } else { c.b };
        let want = alone(c, k);
        same_all(&format!("output of the {kind:?}, the other being there"), &got.out, &want.out, 0.0)?;
        let equal = got.values.len() == want.values.len() && got.values.iter().zip(&want.values).all(|(g, w)| g == w);
        ensure!(equal, "read of the {kind:?}: {:?}, alone {:?}", got.values, want.values);
        rec.exec(&(kind, k, got.out.iter().map(|o| bits(o)).collect::<Vec<_>>()));
    }
    for i in 0..6 {
        let mask = c.turns & ((2 << i) - 1);
        rec.state(&(c.a, c.b, c.b_first, i, mask, c.engines, c.drop_b && mask.count_ones() == 3));
    }
    Ok(())
}

fn turns() -> Vec<u32> {
    (0u32..64).filter(|m| m.count_ones() == 3).collect()
}

// ------------------------------------------------------------------------------------------------------------ channels

#[derive(Debug, Clone)]
struct ChannelCase {
    kind: Kind,
    chans: usize,
    active: u32,
    loud: bool,
    maxf: usize,
    which: usize,
}

/// The signal at the output of a node with some of the channels silent, and what it reports per channel.
fn channels(c: &ChannelCase, active: u32) -> (Chans, Chans) {
    inline(0, || {
        let frames = 24;
        let mut e = eng(SR, c.maxf, c.chans);
        let mut u = Unit::make_n(c.kind, e.ctx.as_mut(), SR, c.chans);
        u.from_input();
        if c.kind != Kind::Recorder {
            u.to_output();
        }
        if let Unit::Mixer(m) = &mut u {
            for i in 0..c.chans {
                m.set_level(i, i, Level::from_linear(0.7 + 0.1 * i as f64));
            }
        } else {
            u.settings(SR);
        }
        e.ctx.start();
        let mut input = rough(frames, c.chans);
        for (i, x) in input.iter_mut().enumerate() {
            if active >> i & 1 == 0 {
                x.iter_mut().for_each(|v| *v = 0.0);
            } else if c.loud && i != c.which {
                x.iter_mut().for_each(|v| *v *= 1.0e12);
            }
        }
        let out = e.blocks(&input, &[7, 1, 16], c.chans);
        if let Unit::Recorder(n) = &u {
            n.borrow_mut().stop_record_now();
            e.quiet(1, c.chans);
        }
        e.ctx.process_notifications();
        let mut read = vec![vec![]; c.chans];
        match &u {
            Unit::Envelope(n) => {
                for r in n.borrow_mut().take_notifications() {
                    if r.channel_index() < c.chans {
                        read[r.channel_index()].push(r.peak_level());
                    }
                }
            }
            Unit::Recorder(n) => read = n.borrow_mut().take_recording().map(|b| chans(&b)).unwrap_or(read),
            _ => (),
        }
        (out, read)
    })
}

fn channel(c: &ChannelCase, rec: &mut Rec) -> Check {
    let all = channels(c, c.active);
    let one = channels(c, 1 << c.which);
    let k = c.which;
    if c.kind != Kind::Recorder {
        same(&format!("channel {k}, others sounding"), &all.0[k], &one.0[k], 0.0)?;
    }
    same(&format!("what is read of channel {k}, others sounding"), &all.1[k], &one.1[k], 0.0)?;
    if c.kind == Kind::Recorder {
        ensure!(one.1[k].len() == 24, "{} frames recorded", one.1[k].len());
    }
    rec.state(&(c.kind, c.chans, c.active, k, c.loud));
    rec.exec(&(c.kind, bits(&all.0[k])));
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------- processes

/// What the engine of a process hears.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct Used {
    kind: Kind,
    sr: usize,
    v: usize,
    /// the way it is made
    how: usize,
}

/// Engines in one process: one after the other, or in turns. A process of its own is the only way to see what is kept
/// anywhere at all from one engine to the next.
fn engines(all: &[Used], turns: bool) -> Vec<u64> {
    const LEN: usize = 300;
    const BLOCKS: usize = 5;
    struct One {
        e: Eng,
        u: Unit,
        input: Chans,
        log: Vec<Vec<u32>>,
    }
    fn start(c: Used) -> One {
        let mut e = eng(c.sr, 256, 2);
        let mut u = Unit::made(c.kind, c.how, e.ctx.as_mut(), c.sr).expect("a way to make it");
        if !c.kind.source() {
            u.from_input();
        }
        if c.kind != Kind::Recorder {
            u.to_output();
        }
        e.ctx.start();
        u.settings(c.sr);
        One { e, u, input: rough(LEN * BLOCKS, 2), log: vec![] }
    }
    fn step(o: &mut One, c: Used, b: usize) {
        if b > 0 && b < 4 {
            o.u.call(c.v, b - 1, b * LEN, c.sr);
        }
        let part: Chans = o.input.iter().map(|x| x[b * LEN..(b + 1) * LEN].to_vec()).collect();
        o.log.extend(o.e.block(&part, 2).iter().map(|x| bits(x)));
        o.e.ctx.process_notifications();
        let seen = o.u.observe();
        o.log.push(seen.iter().flat_map(|v| [v.to_bits() as u32, (v.to_bits() >> 32) as u32]).collect());
    }
    inline(0, || {
        let mut out = vec![];
        if turns {
            let mut ones: Vec<One> = all.iter().map(|c| start(*c)).collect();
            for b in 0..BLOCKS {
                ones.iter_mut().zip(all).for_each(|(o, c)| step(o, *c, b));
            }
            out.extend(ones.iter().map(|o| hash(&o.log)));
        } else {
            for c in all {
                let mut o = start(*c);
                (0..BLOCKS).for_each(|b| step(&mut o, *c, b));
                out.push(hash(&o.log));
            }
        }
        out
    })
}

/// `mc probe turns kind sr v how ...` prints the hash of what each engine gives.
pub fn probe(args: &[String]) {
    let n = |s: &String| s.parse::<usize>().expect("a number");
    let all: Vec<Used> = args[1..].chunks(4).map(|c| Used { kind: KINDS[n(&c[0])], sr: n(&c[1]), v: n(&c[2]), how: n(&c[3]) }).collect();
    for h in engines(&all, args[0] == "true") {
        eprintln!("{h:016x}");
    }
}

fn probed(all: &[Used], turns: bool) -> Result<Vec<String>, String> {
    let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
    c.arg("probe").arg(turns.to_string());
    for u in all {
        let k = KINDS.iter().position(|k| *k == u.kind).unwrap();
        c.args([k.to_string(), u.sr.to_string(), u.v.to_string(), u.how.to_string()]);
    }
    let o = c.output().map_err(|e| format!("cannot start a process: {e}"))?;
    let text = String::from_utf8_lossy(&o.stderr).to_string();
    ensure!(o.status.success(), "the process of {all:?} ended with {}: {text}", o.status);
    Ok(text.lines().map(str::to_string).collect())
}

/// Two engines in a process of their own against each alone in one.
fn in_process(pair: &[Used; 2], turns: bool, rec: &mut Rec) -> Check {
    static ALONE: Mutex<Option<HashMap<Used, String>>> = Mutex::new(None);
    let both = probed(pair, turns)?;
    ensure!(both.len() == 2, "{both:?}");
    for (u, got) in pair.iter().zip(&both) {
        let known = ALONE.lock().unwrap().get_or_insert_with(HashMap::new).get(u).cloned();
        let want = match known {
            Some(w) => w,
            None => {
                let w = probed(&[*u], false)?.pop().unwrap_or_default();
                ALONE.lock().unwrap().get_or_insert_with(HashMap::new).insert(*u, w.clone());
                w
            }
        };
        ensure!(*got == want, "{u:?} gives something else when used with the other engine than when alone in its process");
        rec.exec(&(u.kind, u.sr, u.how, got));
    }
    rec.state(&(pair, turns));
    Ok(())
}

fn processes(t: Tier) -> Suite {
    let mut rates = vec![(44_100usize, 48_000usize), (48_000, 44_100), (8_000, 44_100), (48_000, 8_000), (44_100, 44_100)];
    rates.extend(t.pick(vec![], vec![(192_000, 11_025), (11_025, 96_000), (96_000, 192_000), (22_050, 22_050)]));
    cases(
        "engines in a process of their own",
        &format!("an engine with each kind of node used before another with each kind, or in turns with it, at the rates {rates:?}; each in a new process, against a process with the one engine alone"),
        prod(&[12, 12, rates.len() as u64, 2]),
        move |mut d: D| {
            let (a, b) = (d.of(&KINDS), d.of(&KINDS));
            let (ra, rb) = d.of(&rates);
            Some(([Used { kind: a, sr: ra, v: 0, how: 0 }, Used { kind: b, sr: rb, v: 1, how: 0 }], d.flag()))
        },
        |(pair, turns), rec| in_process(pair, *turns, rec),
    )
}

/// Nodes of one kind made with different arguments.
fn made_differently() -> Suite {
    // the ways there are besides the usual one, of which Unit::made is the list
    let ways: Vec<(Kind, usize, usize)> = [
        (Kind::Biquad, 5),
        (Kind::Convolution, 4),
        (Kind::Mixer, 1),
        (Kind::Oscillator, 5),
        (Kind::Adsr, 1),
        (Kind::Sampler, 4),
        (Kind::Waveshaper, 9),
        (Kind::Envelope, 3),
        (Kind::Recorder, 1),
    ]
    .into_iter()
    .flat_map(|(k, n)| (0..=n).flat_map(move |a| (0..=n).map(move |b| (k, a, b))))
    .filter(|(_, a, b)| a != b)
    .collect();
    cases(
        "nodes of a kind made differently",
        "two engines with a node of the same kind, made with different filter types, impulses, harmonics or wavetables, samples, shapes and thresholds, times, rates (every ordered pair of the ways: 6 for the biquad and the oscillator, 5 for convolution and sampler, 10 for the waveshaper, 4 for the meter, 2 for mixer, ADSR and recorder), one after the other or in turns, at 8 kHz; each in a new process, against a process with the one alone",
        prod(&[ways.len() as u64, 2]),
        move |mut d: D| {
            let (kind, a, b) = d.of(&ways);
            Some(([Used { kind, sr: 8_000, v: 0, how: a }, Used { kind, sr: 8_000, v: 0, how: b }], d.flag()))
        },
        |(pair, turns), rec| in_process(pair, *turns, rec),
    )
}

pub fn c27(t: Tier) -> Vec<Suite> {
    let turns = turns();
    let variants = t.pick(1, 2);
    let one = {
        let turns = turns.clone();
        cases(
            "pairs of nodes",
            "every ordered pair of the 12 kinds, both orders of creation, all 20 interleavings of their scripts of three calls with a block after each, the second being dropped at the end of its script or not, one engine or two; both against each alone",
            prod(&[12, 12, 2, 20, 2, 2, variants as u64, 2]),
            move |mut d: D| {
                Some(Pair {
                    engines: d.n(2) + 1,
                    drop_b: d.flag(),
                    b_first: d.flag(),
                    turns: d.of(&turns),
                    va: d.n(variants),
                    vb: d.n(2),
                    a: d.of(&KINDS),
                    b: d.of(&KINDS),
                })
            },
            pair,
        )
    };
    let kinds = [Kind::Gain, Kind::Biquad, Kind::Convolution, Kind::Mixer, Kind::Adsr, Kind::Waveshaper, Kind::Envelope, Kind::Recorder];
    let most = t.pick(4, 6);
    let maxf = [4usize, 16, 24];
    vec![
        one,
        cases(
            "channels of a node",
            &format!("{kinds:?}: every channel of up to {most}, every set of other channels sounding as loud or 240 dB louder, against the channel sounding alone; maximum frame counts {maxf:?}"),
            prod(&[kinds.len() as u64, most as u64, most as u64, 1 << most, 2, 3]),
            move |mut d: D| {
                let c = ChannelCase { kind: d.of(&kinds), chans: d.n(most) + 1, which: d.n(most), active: d.n(1 << most) as u32, loud: d.flag(), maxf: d.of(&maxf) };
                (c.which < c.chans && c.active >> c.chans == 0 && c.active >> c.which & 1 == 1).then_some(c)
            },
            channel,
        ),
        processes(t),
        made_differently(),
    ]
}

// ----------------------------------------------------------------------------------------------------------------- C28

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Scene {
    Rig(Rig),
    /// so many sources of different levels into one node
    Fan(usize),
    /// two rows of such sources crossing into two nodes and those into one; changed on the way
    Cross(usize),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Before {
    Nothing,
    /// ids used up
    Nodes(usize),
    /// another engine has been used and dropped
    Engine,
    /// another engine is used at the same time
    Beside,
    /// nodes created, connected, processed and dropped in the same engine before it is started
    Same(usize),
    /// so many nodes come and go in the same engine between its first two blocks, and as many in another one
    During(usize),
}

#[derive(Debug, Clone)]
struct Play {
    scene: Scene,
    before: Before,
    seed: u32,
}

fn mess(e: &mut Eng, n: usize) {
    let nodes: Vec<Gain> = (0..n).map(|_| Gain::new(e.ctx.as_ref(), 2)).collect();
    for w in nodes.windows(2) {
        w[0].node.connect_to(&w[1].node);
    }
    if let (Some(a), Some(b)) = (nodes.first(), nodes.last()) {
        a.node.connect_to_input();
        b.node.connect_to_output();
    }
    e.quiet(3, 2);
}

fn play(scene: Scene, before: Before, seed: u32) -> (Chans, Vec<Vec<f64>>) {
    inline(seed, || {
        let sr = SR;
        let mut beside = None;
        match before {
            Before::Nothing | Before::Same(_) | Before::During(_) => (),
            Before::Nodes(n) => {
                let mut e = eng(sr, 4, 2);
                mess(&mut e, n);
            }
            Before::Engine => {
                let mut e = eng(sr, 4, 2);
                e.ctx.start();
                let mut u = build(Rig::Row, e.ctx.as_mut(), sr);
                u.iter_mut().for_each(|u| u.settings(sr));
                e.blocks(&rough(20, 2), &[9, 11], 2);
            }
            Before::Beside => {
                let mut e = eng(sr, 8, 2);
                e.ctx.start();
                let mut u = build(Rig::Row, e.ctx.as_mut(), sr);
                u.iter_mut().for_each(|u| u.settings(sr));
                beside = Some((e, u));
            }
        }
        let mut e = eng(sr, 8, 2);
        if let Before::Same(n) = before {
            mess(&mut e, n);
        }
        let mut out = vec![vec![]; 2];
        let mut during = match before {
            Before::During(n) => n,
            _ => 0,
        };
        let mut step = |e: &mut Eng, input: &[Vec<f32>]| {
            if !out[0].is_empty() && during > 0 {
                let mut other = eng(sr, 8, 2);
                for e in [&mut *e, &mut other] {
                    let mut left = during;
                    while left > 0 {
                        let n = left.min(300);
                        let nodes: Vec<Gain> = (0..n).map(|_| Gain::new(e.ctx.as_ref(), 2)).collect();
                        e.block(&[vec![], vec![]], 2);
                        drop(nodes);
                        e.block(&[vec![], vec![]], 2);
                        left -= n;
                    }
                }
                during = 0;
            }
            for (o, p) in out.iter_mut().zip(e.block(input, 2)) {
                o.extend(p);
            }
            if let Some((b, u)) = &mut beside {
                let x = b.block(input, 2);
                assert!(x[0].len() == input[0].len() && !u.is_empty());
            }
        };
        let mut seen = vec![];
        match scene {
            Scene::Rig(rig) => {
                let mut units = build(rig, e.ctx.as_mut(), sr);
                units.iter_mut().for_each(|u| u.schedule(24, sr));
                e.ctx.start();
                for i in 0..6 {
                    step(&mut e, &rough(5 + i % 2, 2));
                }
                e.ctx.process_notifications();
                seen = units.iter_mut().map(|u| u.observe()).collect();
            }
            Scene::Fan(n) => {
                let mut gains: Vec<Gain> = (0..n).map(|_| Gain::new(e.ctx.as_ref(), 2)).collect();
                let head = Gain::new(e.ctx.as_ref(), 2);
                let tail = Gain::new(e.ctx.as_ref(), 2);
                head.node.connect_to_input();
                tail.node.connect_to_output();
                for (i, g) in gains.iter_mut().enumerate() {
                    g.gain().set_value_now([1.0e4, 0.1, -1.0e4, 0.3, 7.7e-3, 33.3, -0.7][i % 7]);
                    head.node.connect_to(&g.node);
                    g.node.connect_to(&tail.node);
                }
                e.ctx.start();
                step(&mut e, &rough(9, 2));
                if n > 2 {
                    gains.remove(1);
                    step(&mut e, &rough(9, 2));
                    gains[1].node.disconnect_from_node(&tail.node);
                    step(&mut e, &rough(9, 2));
                    gains[1].node.connect_to(&tail.node);
                    step(&mut e, &rough(9, 2));
                }
            }
            Scene::Cross(n) => {
                let mut osc: Vec<Oscillator> = (0..n).map(|i| Oscillator::sine(e.ctx.as_ref(), 21.0 + 17.0 * i as f64, 2)).collect();
                for (i, o) in osc.iter_mut().enumerate() {
                    o.gain().set_value_now([1.0e3, 0.1, -9.0e2, 0.3, 7.7e-3, 33.3][i % 6]);
                }
                let mid: Vec<Mixer> = (0..3).map(|_| Mixer::unity(e.ctx.as_ref(), 2)).collect();
                let tail = Gain::new(e.ctx.as_ref(), 2);
                for m in &mid {
                    for o in &osc {
                        o.node.connect_to(&m.node);
                    }
                    m.node.connect_to(&tail.node);
                }
                tail.node.connect_to_output();
                e.ctx.start();
                step(&mut e, &rough(9, 2));
                osc[0].node.disconnect_from_node(&mid[1].node);
                step(&mut e, &rough(9, 2));
                osc.truncate(n - 1);
                step(&mut e, &rough(9, 2));
            }
        }
        (out, seen)
    })
}

static FIRST: Mutex<Option<HashMap<Scene, Arc<(Chans, Vec<Vec<f64>>)>>>> = Mutex::new(None);

fn again(c: &Play, rec: &mut Rec) -> Check {
    let known = FIRST.lock().unwrap().get_or_insert_with(HashMap::new).get(&c.scene).cloned();
    let want = known.unwrap_or_else(|| {
        let r = Arc::new(play(c.scene, Before::Nothing, 0));
        FIRST.lock().unwrap().get_or_insert_with(HashMap::new).insert(c.scene, Arc::clone(&r));
        r
    });
    let got = play(c.scene, c.before, c.seed);
    for (k, (g, w)) in got.0.iter().zip(&want.0).enumerate() {
        ensure!(bits(g) == bits(w), "channel {k} differs: {} and {}", show(g), show(w));
    }
    let b = |v: &[Vec<f64>]| v.iter().map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>();
    ensure!(b(&got.1) == b(&want.1), "what is read differs: {:?} and {:?}", got.1, want.1);
    rec.state(&(c.scene, c.before, c.seed));
    rec.exec(&(c.scene, bits(&got.0[0])));
    Ok(())
}

pub fn c28(t: Tier) -> Vec<Suite> {
    let seeds = t.pick(40, 1000);
    let mut scenes: Vec<Scene> = KINDS.iter().map(|k| Scene::Rig(Rig::One(*k))).collect();
    scenes.extend(KINDS.iter().map(|k| Scene::Rig(Rig::Amid(*k))));
    scenes.push(Scene::Rig(Rig::Row));
    scenes.extend((1..=t.pick(9, 16)).map(Scene::Fan));
    scenes.extend((1..=t.pick(6, 9)).map(Scene::Cross));
    let befores = vec![
        Before::Nothing,
        Before::Nodes(1),
        Before::Nodes(2),
        Before::Nodes(5),
        Before::Nodes(40),
        Before::Engine,
        Before::Beside,
        Before::Same(1),
        Before::Same(2),
        Before::Same(7),
    ];
    let every = scenes.clone();
    let many = t.pick(vec![70_000usize], vec![255, 65_520, 65_535, 65_536, 70_000, 200_000]);
    let number = format!("{} scenes with {many:?} nodes coming and going in the same engine between its first two blocks, 300 at a time, and as many in another one", every.len());
    vec![cases(
        "long histories",
        &number,
        prod(&[many.len() as u64, every.len() as u64]),
        move |mut d: D| Some(Play { seed: 0, before: Before::During(d.of(&many)), scene: d.of(&every) }),
        again,
    ), cases(
        "replays",
        &format!("{} scenes (each kind alone and amid others, all in a row, fans of up to {} nodes, crossings of up to {}, changed on the way) under {seeds} hash orders after each of {befores:?}", scenes.len(), t.pick(9, 16), t.pick(6, 9)),
        prod(&[seeds as u64, scenes.len() as u64, befores.len() as u64]),
        move |mut d: D| Some(Play { seed: d.n(seeds) as u32, before: d.of(&befores), scene: d.of(&scenes) }),
        again,
    )]
}
