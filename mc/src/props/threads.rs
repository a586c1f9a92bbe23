//! C06: neither side ever blocks on the other. C26: a removed node is destroyed once, and not on the audio thread.

use super::rigs::*;
use crate::alloc::{track, tracked, Track, Tracked};
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crossbeam::mc;

/// process() in the audio role, everything else not.
fn process(p: &mut dyn AudioProcess, frames: usize) {
    let i = buf(&[(0..frames).map(|f| 0.25 + f as f32).collect(), vec![0.5; frames]], SR);
    let mut o = OwnedAudioBuffer::new(frames, 2, SR);
    let before = mc::set_role(Role::Audio);
    p.process(&i, &mut o);
    mc::set_role(before);
}

// --------------------------------------------------------------------------------------------------- C26, one thread

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Call,
    Block,
    Poll,
    Drop,
    /// connect it once more, or disconnect it
    Wire(bool),
}

#[derive(Debug, Clone)]
struct History {
    kind: Kind,
    started: bool,
    ops: Vec<Op>,
    /// not connected to anything to begin with
    bare: bool,
    /// which goes first at the end: the node, the context, the processor
    order: Vec<usize>,
}

fn history_once(c: &History, rec: &mut Rec, last: bool) -> Tracked {
    track(Track::Off);
    inline(0, || {
        let mut e = eng(SR, 4, 2);
        let head = Gain::new(e.ctx.as_ref(), 2);
        let tail = Gain::new(e.ctx.as_ref(), 2);
        head.node.connect_to_input();
        tail.node.connect_to_output();
        track(Track::Record);
        let unit = Unit::make(c.kind, e.ctx.as_mut(), SR);
        track(Track::Hold);
        if !c.kind.source() && !c.bare {
            unit.fed_by(&head.node);
        }
        if c.kind != Kind::Recorder && !c.bare {
            unit.connect_to(&tail.node);
        }
        if c.started {
            e.ctx.start();
        }
        let mut unit = Some(unit);
        let (mut calls, mut frames) = (0, 0);
        for op in &c.ops {
            match *op {
                Op::Call => {
                    if let Some(u) = &mut unit {
                        u.call(0, calls % 3, frames, SR);
                        calls += 1;
                    }
                }
                Op::Block => {
                    process(e.p.as_mut(), 6);
                    frames += 6;
                }
                Op::Poll => {
                    e.ctx.process_notifications();
                    unit.iter_mut().for_each(|u| drop(u.observe()));
                }
                Op::Wire(on) => {
                    if let Some(u) = &unit {
                        match (on, c.kind.source()) {
                            (true, false) => u.fed_by(&head.node),
                            (true, true) => u.connect_to(&tail.node),
                            (false, false) => u.node(&mut |n| head.node.disconnect_from_node(n)),
                            (false, true) => u.node(&mut |n| n.disconnect_from_node(&tail.node)),
                        }
                    }
                }
                Op::Drop => {
                    track(Track::Watch);
                    unit = None;
                }
            }
            if last {
                let t = tracked();
                rec.state(&(c.kind, c.started, calls, frames, unit.is_some(), t.freed, t.left.len()));
            }
        }
        track(Track::Watch);
        let Eng { ctx, p, .. } = e;
        let (mut ctx, mut p) = (Some(ctx), Some(p));
        for o in &c.order {
            match o {
                0 => unit = None,
                1 => ctx = None,
                _ => p = None,
            }
        }
    });
    let t = tracked();
    track(Track::Off);
    t
}

fn destroyed(t: &Tracked) -> Check {
    ensure!(t.followed > 0, "nothing was allocated for the node");
    ensure!(
        t.freed[1] == 0,
        "{} of the node's {} blocks of memory were freed inside process() after it was dropped (one of {} bytes)",
        t.freed[1],
        t.followed,
        t.audio_size
    );
    ensure!(t.left.is_empty(), "of the node's {} blocks of memory some are never freed; their sizes: {:?}", t.followed, t.left);
    Ok(())
}

fn history(c: &History, rec: &mut Rec) -> Check {
    let mut t = history_once(c, rec, false);
    if !t.left.is_empty() {
        // what is only made once in the life of the process is not the node's
        t = history_once(c, rec, true);
    }
    rec.state(&(c.kind, &c.ops, c.started));
    rec.exec(&(c.kind, t.followed, t.freed));
    destroyed(&t)
}

fn histories(depth: usize) -> Suite {
    let ops = [Op::Call, Op::Block, Op::Poll, Op::Drop, Op::Wire(true), Op::Wire(false)];
    let orders = [vec![0, 1, 2], vec![1, 0, 2], vec![1, 2, 0], vec![2, 1, 0], vec![2, 0, 1], vec![0, 2, 1]];
    cases(
        "histories",
        &format!("each kind of node, every word of {depth} of {ops:?} with at most one drop, connected to begin with or not, running or not, six orders of dropping node, context and processor at the end; every block of memory the node was made with is followed"),
        prod(&[12, 2, pow(6, depth), 6, 2]),
        move |mut d: D| {
            let c = History {
                bare: d.flag(),
                kind: d.of(&KINDS),
                started: !d.flag(),
                order: d.of(&orders),
                ops: d.word(6, depth).into_iter().map(|i| ops[i]).collect(),
            };
            let drops = c.ops.iter().filter(|o| **o == Op::Drop).count();
            // what is done to a node that is gone is nothing
            let dead = c.ops.iter().skip_while(|o| **o != Op::Drop).any(|o| matches!(o, Op::Call | Op::Wire(_)));
            (drops <= 1 && !dead && (drops == 0 || c.order < vec![1])).then_some(c)
        },
        history,
    )
}

#[derive(Debug, Clone)]
struct Many {
    kind: Kind,
    n: usize,
    /// the one that is followed, in halves
    which: usize,
    back: bool,
    /// a block before any is dropped; a block after every drop
    first: bool,
    each: bool,
}

/// Many are dropped at once, one of which is followed.
fn many_once(c: &Many) -> Tracked {
    track(Track::Off);
    inline(0, || {
        let mut e = eng(SR, 4, 2);
        let head = Gain::new(e.ctx.as_ref(), 2);
        head.node.connect_to_input();
        let which = c.which * (c.n - 1) / 2;
        let mut units = vec![];
        for i in 0..c.n {
            track(if i == which { Track::Record } else { Track::Hold });
            let u = Unit::make(c.kind, e.ctx.as_mut(), SR);
            track(Track::Hold);
            if c.kind.source() {
                u.to_output();
            } else {
                u.fed_by(&head.node);
            }
            units.push(u);
        }
        if c.back {
            units.reverse();
        }
        e.ctx.start();
        if c.first {
            process(e.p.as_mut(), 2);
        }
        track(Track::Watch);
        for u in units {
            drop(u);
            if c.each {
                process(e.p.as_mut(), 2);
            }
        }
        process(e.p.as_mut(), 2);
        process(e.p.as_mut(), 2);
    });
    let t = tracked();
    track(Track::Off);
    t
}

fn many(t: Tier) -> Suite {
    let counts = t.pick(vec![2usize, 33, 65, 129, 300], vec![2, 9, 17, 33, 65, 129, 257, 500]);
    cases(
        "many at once",
        &format!("{counts:?} nodes of each kind dropped between two blocks or with a block after each, in order or against it, having been processed or not; the first, the middle and the last are followed"),
        prod(&[12, counts.len() as u64, 3, 2, 2, 2]),
        move |mut d: D| Some(Many { kind: d.of(&KINDS), n: d.of(&counts), which: d.n(3), back: d.flag(), first: d.flag(), each: d.flag() }),
        |c, rec| {
            let mut t = many_once(c);
            if !t.left.is_empty() {
                t = many_once(c);
            }
            rec.state(&(c.kind, c.n, c.which, c.back, c.first, c.each));
            rec.exec(&(c.kind, t.followed, t.freed));
            destroyed(&t)
        },
    )
}

// --------------------------------------------------------------------------------------------------------- schedules

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Act {
    Call(usize),
    Poll,
    Drop,
    /// make a second one
    Second,
    Stop,
    /// wait for the background thread to have destroyed what was dropped
    Await,
}

#[derive(Debug, Clone)]
struct Life {
    kind: Kind,
    acts: Vec<Act>,
    blocks: usize,
    /// the context is dropped before the audio thread has ended
    early: bool,
    /// the audio thread drops the processor
    own: bool,
    /// never connected to anything
    bare: bool,
}

fn life_body(c: &Life) -> Tracked {
    track(Track::Off);
    {
        let Eng { mut ctx, mut p, .. } = eng(SR, 4, 2);
        let head = Gain::new(ctx.as_ref(), 2);
        let tail = Gain::new(ctx.as_ref(), 2);
        head.node.connect_to_input();
        tail.node.connect_to_output();
        track(Track::Record);
        let unit = Unit::make(c.kind, ctx.as_mut(), SR);
        track(Track::Hold);
        if !c.kind.source() && !c.bare {
            unit.fed_by(&head.node);
        }
        if c.kind != Kind::Recorder && !c.bare {
            unit.connect_to(&tail.node);
        }
        let mut unit = Some(unit);
        ctx.start();
        unit.as_mut().unwrap().call(0, 0, 0, SR);
        process(p.as_mut(), 2);
        let (blocks, own) = (c.blocks, c.own);
        let h = mc::spawn("audio", Role::Control, move || {
            let mut p = p;
            for _ in 0..blocks {
                process(p.as_mut(), 3);
            }
            if own {
                drop(p);
                None
            } else {
                Some(p)
            }
        });
        let mut second = None;
        for a in &c.acts {
            match *a {
                Act::Call(k) => unit.iter_mut().for_each(|u| u.call(0, k, 2, SR)),
                Act::Poll => {
                    ctx.process_notifications();
                    unit.iter_mut().for_each(|u| drop(u.observe()));
                }
                Act::Drop => {
                    track(Track::Watch);
                    unit = None;
                }
                Act::Second => {
                    let u = Unit::make(c.kind, ctx.as_mut(), SR);
                    if c.kind != Kind::Recorder {
                        u.connect_to(&tail.node);
                    }
                    second = Some(u);
                }
                Act::Stop => ctx.stop(),
                Act::Await => (),
            }
        }
        track(Track::Watch);
        unit = None;
        drop(second);
        drop(unit);
        let mut ctx = Some(ctx);
        if c.early {
            ctx = None;
        }
        if let Some(Some(mut p)) = h.join() {
            if c.acts.contains(&Act::Await) {
                process(p.as_mut(), 1);
                // the background thread gets to it without anyone's help
                while tracked().freed[2] == 0 {
                    mc::wait_progress("destruction");
                }
            }
            drop(p);
        }
        drop(ctx);
    }
    Tracked { followed: 1, freed: [0; 3], audio_size: 0, left: vec![] }
}

fn life_check(c: &Life, _: &Tracked, rec: &mut Rec) -> Check {
    let t = tracked();
    track(Track::Off);
    rec.state(&(c.kind, &c.acts, c.early, c.own, t.freed));
    rec.exec(&(c.kind, &c.acts, c.early, c.own, t.freed));
    destroyed(&t)
}

fn lives(name: &str, acts: &[Act], length: usize, blocks: usize, preemptions: u32, late_sleepers: bool) -> Suite {
    let acts = acts.to_vec();
    let k = acts.len();
    sched(
        name,
        &format!("each kind of node, connected or never (only if it is awaited); every word of {length} different acts of {acts:?}, then the node is dropped if it has not been; {blocks} blocks on the audio thread; the context dropped before or after it ends, the processor dropped by either"),
        prod(&[12, 2, 2, pow(k, length), 2]),
        Depth { preemptions, horizon: 3000, late_sleepers },
        move |mut d: D| {
            let kind = d.of(&KINDS);
            let (early, own, bare) = (d.flag(), d.flag(), d.flag());
            let w: Vec<Act> = d.word(k, length).into_iter().map(|i| acts[i]).collect();
            let twice = (1..w.len()).any(|i| w[..i].contains(&w[i]));
            let dead = w.iter().skip_while(|a| **a != Act::Drop).any(|a| matches!(a, Act::Call(_)));
            let waits = w.contains(&Act::Await) && (own || w.last() != Some(&Act::Await));
            let alone = bare && !w.contains(&Act::Await);
            (!twice && !dead && !waits && !alone).then_some(Life { kind, acts: w, blocks, early, own, bare })
        },
        life_body,
        life_check,
    )
}

pub fn c26(t: Tier) -> Vec<Suite> {
    use Act::*;
    vec![
        histories(t.pick(4, 6)),
        many(t),
        lives("dropped while processing", &[Drop, Call(1), Call(2), Poll, Stop], 1, 1, t.pick(2, 4), true),
        lives("calls, dropped while processing", &[Call(0), Call(1), Poll, Second, Drop, Await, Stop], 2, 2, t.pick(1, 2), true),
        lives("dropped and awaited", &[Await, Drop, Call(1)], 1, 1, t.pick(1, 3), false),
    ]
}

// --------------------------------------------------------------------------------------------------------------- C06

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum What {
    Call(usize, usize),
    Settings,
    Schedule,
    Poll,
    Wire,
    /// make one more and drop it
    Another,
    /// start and stop
    Switch,
    /// make the node the input and the output
    Ends,
}

#[derive(Debug, Clone)]
struct Repeat {
    kind: Kind,
    what: What,
    times: usize,
    started: bool,
    /// so many blocks before and after
    blocks: usize,
    /// a block after every repetition, nothing collected
    each: bool,
}

/// Inline executions panic where an operation would block.
fn repeat(c: &Repeat, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(SR, 4, 2);
        let head = Gain::new(e.ctx.as_ref(), 2);
        let tail = Gain::new(e.ctx.as_ref(), 2);
        head.node.connect_to_input();
        tail.node.connect_to_output();
        head.node.connect_to(&tail.node);
        let mut unit = Unit::make(c.kind, e.ctx.as_mut(), SR);
        if !c.kind.source() {
            unit.fed_by(&head.node);
        }
        if c.kind != Kind::Recorder {
            unit.connect_to(&tail.node);
        }
        if c.started {
            e.ctx.start();
        }
        for _ in 0..c.blocks {
            process(e.p.as_mut(), 8);
        }
        for _ in 0..c.times {
            match c.what {
                What::Call(v, k) => unit.call(v, k, 8, SR),
                What::Settings => unit.settings(SR),
                What::Schedule => unit.schedule(16, SR),
                What::Poll => {
                    e.ctx.process_notifications();
                    unit.observe();
                }
                What::Wire if c.kind.source() => unit.node(&mut |n| {
                    n.connect_to(&tail.node);
                    n.disconnect_from_node(&tail.node);
                }),
                What::Wire => {
                    unit.fed_by(&head.node);
                    unit.node(&mut |n| head.node.disconnect_from_node(n));
                }
                What::Another => drop(Unit::make(c.kind, e.ctx.as_mut(), SR)),
                What::Switch => {
                    e.ctx.start();
                    e.ctx.stop();
                }
                What::Ends => {
                    unit.from_input();
                    unit.to_output();
                    head.node.connect_to_input();
                    tail.node.connect_to_output();
                }
            }
            if c.each {
                process(e.p.as_mut(), 8);
            }
        }
        // none of the calls was lost or left over: the last ones are in force in the next block
        let mut last = Gain::new(e.ctx.as_ref(), 1);
        last.gain().set_value_now(0.5);
        last.node.connect_to_input();
        last.node.connect_to_output();
        e.ctx.start();
        let out = e.block(&[vec![1.0, 3.0]], 1);
        same("the block after the calls", &out[0], &[0.5, 1.5], 0.0)?;
        for _ in 0..c.blocks {
            process(e.p.as_mut(), 8);
        }
        e.ctx.process_notifications();
        unit.observe();
        rec.state(&(c.kind, c.what, c.times, c.started, c.each));
        rec.exec(&(c.kind, c.what, c.times, e.time().to_bits()));
        Ok(())
    })
}

fn repeats(t: Tier) -> Suite {
    let mut whats: Vec<What> = [0, 1].into_iter().flat_map(|v| [0, 1, 2].map(|k| What::Call(v, k))).collect();
    whats.extend([What::Settings, What::Schedule, What::Poll, What::Wire, What::Another, What::Switch, What::Ends]);
    let times = t.pick(vec![1, 33, 65, 300], vec![1, 17, 33, 65, 129, 513, 1025, 3000]);
    let n = whats.len();
    cases(
        "repetitions",
        &format!("each kind of node, each of {whats:?} {times:?} times, running or not, with a block after each or none (a sampler's events no more than its 32)"),
        prod(&[12, n as u64, times.len() as u64, 2, 2, 2]),
        move |mut d: D| {
            let c = Repeat { kind: d.of(&KINDS), what: d.of(&whats), times: d.of(&times), started: d.flag(), each: d.flag(), blocks: d.n(2) };
            let events = match c.what {
                What::Call(..) => 1,
                What::Settings => 2,
                What::Schedule => 6,
                _ => 0,
            };
            // only a running engine takes in a sampler's events
            let full = c.kind == Kind::Sampler && events * c.times > 32 && !(c.each && c.started);
            (!full).then_some(c)
        },
        repeat,
    )
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Turn {
    Now(usize),
    Poll,
    Block,
}

/// Every call at every moment of a node's life, as far as what the control side knows of it goes.
fn turns(t: Tier) -> Suite {
    let turns = [Turn::Now(0), Turn::Block, Turn::Poll, Turn::Now(1), Turn::Now(2)];
    let depth = t.pick(5, 6);
    cases(
        "calls at every moment",
        &format!("each kind of node in a running engine, every word of {depth} of {turns:?}; the calls are those that act at once and those that take back"),
        prod(&[12, pow(turns.len(), depth)]),
        move |mut d: D| Some((d.of(&KINDS), d.word(turns.len(), depth).into_iter().map(|i| turns[i]).collect::<Vec<_>>())),
        |(kind, word), rec| {
            inline(0, || {
                let mut e = eng(SR, 4, 2);
                let mut unit = Unit::make(*kind, e.ctx.as_mut(), SR);
                if kind.source() {
                    unit.to_output();
                } else {
                    unit.from_input();
                }
                e.ctx.start();
                for w in word {
                    match *w {
                        Turn::Now(k) => unit.now(k, SR),
                        Turn::Poll => {
                            e.ctx.process_notifications();
                            unit.observe();
                        }
                        Turn::Block => process(e.p.as_mut(), 6),
                    }
                }
                rec.state(&(kind, word));
                rec.exec(&(kind, word));
                Ok(())
            })
        },
    )
}

/// Far more calls between two blocks than anyone should make.
fn floods(t: Tier) -> Suite {
    let few = [What::Settings, What::Schedule, What::Call(0, 0), What::Call(1, 1), What::Call(0, 2), What::Another];
    let many = [What::Switch, What::Wire, What::Ends, What::Poll];
    let (a, b) = (t.pick([700, 3000], [3000, 6000]), t.pick([3000, 40_000], [40_000, 300_000]));
    cases(
        "floods of calls",
        &format!("a gain, a pan and an oscillator, {few:?} {a:?} times and {many:?} {b:?} times, running or not, before one block"),
        prod(&[3, 10, 2, 2]),
        move |mut d: D| {
            let kind = d.of(&[Kind::Gain, Kind::Pan, Kind::Oscillator]);
            let i = d.n(10);
            let k = d.n(2);
            let (what, times) = if i < 6 { (few[i], a[k]) } else { (many[i - 6], b[k]) };
            Some(Repeat { kind, what, times, started: d.flag(), each: false, blocks: 1 })
        },
        repeat,
    )
}

/// Sampler events up to the capacity asked for.
fn capacity() -> Suite {
    cases(
        "sampler capacity",
        "a sampler made for 1 to 200 events takes that many without a block",
        200,
        |d: D| Some(d.0 as usize + 1),
        |n, rec| {
            inline(0, || {
                let mut e = eng(SR, 4, 2);
                let mut s = Sampler::new_with_event_capacity(e.ctx.as_ref(), sample(30, SR), *n);
                s.node.connect_to_output();
                for i in 0..*n {
                    if i % 2 == 1 {
                        s.stop_now();
                    } else {
                        s.start_now();
                    }
                }
                e.ctx.start();
                e.quiet(4, 1);
                rec.state(n);
                rec.exec(n);
                Ok(())
            })
        },
    )
}

/// Long stretches of blocks with nobody collecting.
fn stretches(t: Tier) -> Suite {
    let counts = t.pick(vec![2000], vec![2000, 20_000]);
    let lens = [1usize, 7, 300];
    cases(
        "nobody collects",
        &format!("each kind of node, {counts:?} blocks of {lens:?} frames, nothing collected until the end"),
        prod(&[12, counts.len() as u64, 3]),
        move |mut d: D| Some((d.of(&KINDS), d.of(&counts), d.of(&lens))),
        |&(kind, count, len), rec| {
            inline(0, || {
                let mut e = eng(SR, 256, 2);
                let head = Gain::new(e.ctx.as_ref(), 2);
                head.node.connect_to_input();
                let mut unit = Unit::make(kind, e.ctx.as_mut(), SR);
                if !kind.source() {
                    unit.fed_by(&head.node);
                }
                unit.settings(SR);
                e.ctx.start();
                for _ in 0..count {
                    process(e.p.as_mut(), len);
                }
                ensure!((e.time() - (count * len) as f64 / SR as f64).abs() < 1e-6, "time is {}", e.time());
                e.ctx.process_notifications();
                unit.observe();
                rec.state(&(kind, count, len));
                rec.exec(&(kind, count, len));
                Ok(())
            })
        },
    )
}

/// The same lives, and nobody ever waits: a wait, a deadlock or a thread that does not end fails the execution.
fn free_running(t: Tier) -> Vec<Suite> {
    use Act::*;
    let mut v = vec![
        lives("lives, lazy background", &[Call(0), Call(1), Call(2), Poll, Second, Drop, Stop], 2, 2, t.pick(1, 2), true),
        lives("lives", &[Drop, Call(1), Poll, Await], 1, 2, t.pick(1, 2), false),
    ];
    for s in &mut v {
        let SuiteKind::Sched { run, .. } = &mut s.kind else { continue };
        let inner = std::mem::replace(run, Box::new(|_, _, _| None));
        *run = Box::new(move |i, p, rec| {
            let mut r = inner(i, p, rec)?;
            // what is freed where is C26's business
            if r.check.as_ref().is_err_and(|m| m.contains("blocks of memory")) {
                r.check = Ok(());
            }
            Some(r)
        });
    }
    v
}

pub fn c06(t: Tier) -> Vec<Suite> {
    let mut v = vec![repeats(t), turns(t), floods(t), capacity(), stretches(t)];
    v.extend(free_running(t));
    v
}
