//! C34: memory follows what there is, not how long the engine has run.

use super::rigs::*;
use crate::alloc::live;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crossbeam::mc;

const SR: usize = 512;
/// A cycle's last block is long enough for all that its calls have timed.
const TAIL: usize = 12;
/// All that was timed has happened, and notifications are processed, by the end of a cycle.
const REST: (usize, usize) = (TAIL, 1);
/// Cycles after which the memory in use must no longer grow; as many, and twice, four and eight times as many follow.
const WARM: usize = 17;
/// More than the engine makes room for at the start.
const LONG: usize = 600;

fn process(p: &mut dyn AudioProcess, frames: usize) {
    let i = OwnedAudioBuffer::new(frames, 2, SR);
    let mut o = OwnedAudioBuffer::new(frames, 2, SR);
    let before = mc::set_role(Role::Audio);
    p.process(&i, &mut o);
    mc::set_role(before);
}

/// The background thread does all it has to do, looking a few times.
fn settle() {
    for _ in 0..4 {
        mc::settle();
    }
}

/// Run cycles until the memory in use stays; the highest seen in the first `warm`, the next `warm`, the next twice
/// `warm` and so on, of which the last is no higher than the one before if it does.
fn cycles(warm: usize, mut cycle: impl FnMut(usize)) -> Vec<i64> {
    let mut most = Vec::with_capacity(8);
    let (mut i, mut n) = (0, warm);
    loop {
        let mut high = i64::MIN;
        while i < n {
            cycle(i);
            settle();
            high = high.max(live());
            i += 1;
        }
        let stays = most.last().is_some_and(|m| high <= *m);
        most.push(high);
        if stays || most.len() == 5 {
            return most;
        }
        n *= 2;
    }
}

fn rises(most: &[i64]) -> Vec<i64> {
    most.windows(2).map(|w| w[1] - w[0]).collect()
}

fn stays(warm: usize, most: &[i64]) -> Check {
    let k = most.len();
    ensure!(
        most[k - 1] <= most[k - 2],
        "memory in use after a cycle is higher than before however often it is repeated: by up to {:?} bytes in the cycles from {warm}, {}, {}, {} on",
        rises(most),
        2 * warm,
        4 * warm,
        8 * warm
    );
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Act {
    Call(usize, usize),
    Now(usize),
    Settings,
    Schedule,
    /// make one more of the kind, with an edge to it; dropped at the end of the cycle
    Make,
    /// drop the last one made in the cycle
    Drop,
    /// take the edges of the node away, or make them again
    Wire,
    /// make the same edge again
    Again,
    Block,
    Poll,
    /// stop and start the engine
    Stop,
}

#[derive(Debug, Clone)]
struct Case {
    warm: usize,
    /// frames in the cycle's last block, and cycles from one processing of notifications to the next
    tail: usize,
    every: usize,
    kind: Kind,
    word: Vec<Act>,
}

fn wire(kind: Kind, unit: &Unit, head: &Gain, tail: &Gain, on: bool) {
    match (on, kind.source()) {
        (true, false) => unit.fed_by(&head.node),
        (true, true) => unit.connect_to(&tail.node),
        (false, false) => unit.node(&mut |n| head.node.disconnect_from_node(n)),
        (false, true) => unit.node(&mut |n| n.disconnect_from_node(&tail.node)),
    }
}

fn body(c: &Case) -> Vec<i64> {
    let mut e = eng(SR, 4, 2);
    let head = Gain::new(e.ctx.as_ref(), 2);
    let tail = Gain::new(e.ctx.as_ref(), 2);
    head.node.connect_to_input();
    tail.node.connect_to_output();
    head.node.connect_to(&tail.node);
    let mut unit = Unit::make(c.kind, e.ctx.as_mut(), SR);
    wire(c.kind, &unit, &head, &tail, true);
    e.ctx.start();
    let mut now = 0;
    let mut edges = 1;
    cycles(c.warm, |i| {
        let mut more = vec![];
        let mut running = true;
        let mut block = |e: &mut Eng, frames: usize, running: bool| {
            process(e.p.as_mut(), frames);
            if running {
                now += frames;
            }
            now
        };
        let mut at = block(&mut e, 2, true);
        for a in &c.word {
            match *a {
                Act::Call(v, k) => unit.call(v, k, at, SR),
                Act::Now(k) => unit.now(k, SR),
                Act::Settings => unit.settings(SR),
                Act::Schedule => unit.schedule_from(at, 8, SR),
                Act::Make => {
                    let u = Unit::make(c.kind, e.ctx.as_mut(), SR);
                    wire(c.kind, &u, &head, &tail, true);
                    more.push(u);
                }
                Act::Drop => drop(more.pop()),
                Act::Wire => {
                    wire(c.kind, &unit, &head, &tail, edges == 0);
                    edges = (edges == 0) as usize;
                }
                Act::Again => {
                    wire(c.kind, &unit, &head, &tail, true);
                    edges += 1;
                }
                Act::Block => at = block(&mut e, 3, running),
                Act::Poll => {
                    e.ctx.process_notifications();
                    unit.observe();
                    more.iter_mut().for_each(|u| drop(u.observe()));
                }
                Act::Stop => {
                    running = !running;
                    if running {
                        e.ctx.start();
                    } else {
                        e.ctx.stop();
                    }
                }
            }
        }
        // what was begun is ended
        if edges > 1 {
            wire(c.kind, &unit, &head, &tail, false);
            edges = 0;
        }
        if edges == 0 {
            wire(c.kind, &unit, &head, &tail, true);
            edges = 1;
        }
        if !running {
            e.ctx.start();
        }
        drop(more);
        if let Unit::Recorder(r) = &unit {
            r.borrow_mut().stop_record_now();
        }
        block(&mut e, c.tail, true);
        if i % c.every == 0 {
            e.ctx.process_notifications();
            unit.observe();
        }
    })
}

fn words(name: &str, acts: &[Act], length: usize, warm: usize, (tail, every): (usize, usize)) -> Suite {
    let acts = acts.to_vec();
    let k = acts.len();
    sched(
        name,
        &format!("each kind of node, every word of {length} of {acts:?} as a cycle, ended by a block of {tail} frames, processing notifications every {every} and the background thread's work; {} to {} cycles", 2 * warm, 16 * warm),
        prod(&[12, pow(k, length)]),
        Depth { preemptions: 0, horizon: 1_000_000, late_sleepers: true },
        move |mut d: D| {
            Some(Case { warm, tail, every, kind: d.of(&KINDS), word: d.word(k, length).into_iter().map(|i| acts[i]).collect() })
        },
        body,
        |c, most, rec| {
            rec.state(&(c.kind, &c.word));
            rec.steps += (c.warm << (most.len() - 1)) as u64;
            rec.exec(&(c.kind, rises(most)));
            stays(c.warm, most)
        },
    )
}

#[derive(Debug, Clone)]
struct Crowd {
    kind: Kind,
    n: usize,
    /// in a row, side by side, or not connected
    how: usize,
    /// a block before they go, and one after each has gone
    seen: bool,
    each: bool,
    back: bool,
}

/// Many nodes come and go in each cycle.
fn crowd(c: &Crowd) -> Vec<i64> {
    let mut e = eng(SR, 4, 2);
    let head = Gain::new(e.ctx.as_ref(), 2);
    let tail = Gain::new(e.ctx.as_ref(), 2);
    head.node.connect_to_input();
    tail.node.connect_to_output();
    e.ctx.start();
    cycles(WARM, |_| {
        let mut units: Vec<Unit> = vec![];
        for _ in 0..c.n {
            let u = Unit::make(c.kind, e.ctx.as_mut(), SR);
            match (c.how, units.last()) {
                (0, Some(before)) => before.node(&mut |n| u.fed_by(n)),
                (0, None) => u.fed_by(&head.node),
                (1, _) => {
                    u.fed_by(&head.node);
                    u.connect_to(&tail.node);
                }
                _ => (),
            }
            units.push(u);
        }
        if c.seen {
            process(e.p.as_mut(), 3);
        }
        if c.back {
            units.reverse();
        }
        for u in units {
            drop(u);
            if c.each {
                process(e.p.as_mut(), 3);
            }
        }
        process(e.p.as_mut(), 3);
        e.ctx.process_notifications();
    })
}

fn crowds(t: Tier) -> Suite {
    let counts = t.pick(vec![2usize, 33], vec![2, 3, 8, 33, 70]);
    sched(
        "many come and go",
        &format!("{counts:?} nodes of each kind made and dropped in each cycle, in a row, side by side or not connected, with a block before they go or not, with a block after each or not, forwards or backwards"),
        prod(&[12, counts.len() as u64, 3, 2, 2, 2]),
        Depth { preemptions: 0, horizon: 1_000_000, late_sleepers: true },
        move |mut d: D| {
            let c = Crowd { kind: d.of(&KINDS), n: d.of(&counts), how: d.n(3), seen: d.flag(), each: d.flag(), back: d.flag() };
            (c.how != 0 || c.kind.passes()).then_some(c)
        },
        crowd,
        |c, most, rec| {
            rec.state(&(c.kind, c.n, c.how, c.seen, c.each, c.back));
            rec.steps += (WARM << (most.len() - 1)) as u64;
            rec.exec(&(c.kind, c.n, c.how, rises(most)));
            stays(WARM, most)
        },
    )
}

#[derive(Debug, Clone)]
struct Engines {
    kind: Kind,
    blocks: usize,
    polled: bool,
    /// the order in which node, context and processor go
    order: [usize; 3],
}

/// Engines come and go.
fn engines() -> Suite {
    let orders = [[0, 1, 2], [1, 0, 2], [1, 2, 0], [2, 1, 0], [2, 0, 1], [0, 2, 1]];
    sched(
        "engines come and go",
        "an engine with each kind of node made and dropped in each cycle, after 0 to 2 blocks, polled or not, in six orders of dropping node, context and processor",
        prod(&[12, 3, 2, 6]),
        Depth { preemptions: 0, horizon: 1_000_000, late_sleepers: true },
        move |mut d: D| Some(Engines { kind: d.of(&KINDS), blocks: d.n(3), polled: d.flag(), order: d.of(&orders) }),
        |c| {
            cycles(WARM, |_| {
                let mut e = eng(SR, 4, 2);
                let mut u = Unit::make(c.kind, e.ctx.as_mut(), SR);
                if c.kind.source() {
                    u.to_output();
                } else {
                    u.from_input();
                }
                e.ctx.start();
                u.schedule(8, SR);
                for _ in 0..c.blocks {
                    process(e.p.as_mut(), 5);
                }
                if c.polled {
                    e.ctx.process_notifications();
                    u.observe();
                }
                let Eng { ctx, p, .. } = e;
                let (mut u, mut ctx, mut p) = (Some(u), Some(ctx), Some(p));
                for o in c.order {
                    match o {
                        0 => u = None,
                        1 => ctx = None,
                        _ => p = None,
                    }
                }
            })
        },
        |c, most, rec| {
            rec.state(&(c.kind, c.blocks, c.polled, c.order));
            rec.steps += (WARM << (most.len() - 1)) as u64;
            rec.exec(&(c.kind, c.blocks, c.order, rises(most)));
            stays(WARM, most)
        },
    )
}

pub fn c34(t: Tier) -> Vec<Suite> {
    use Act::*;
    vec![
        words("calls", &[Call(0, 0), Call(0, 1), Call(1, 2), Now(0), Now(1), Now(2), Settings, Schedule, Block, Poll, Stop], t.pick(3, 4), WARM, REST),
        words("nodes and edges", &[Make, Drop, Wire, Again, Call(0, 1), Settings, Block, Poll, Stop], t.pick(3, 5), WARM, REST),
        words("long runs", &[Call(0, 0), Call(0, 1), Call(1, 2), Now(0), Now(2), Settings, Schedule, Block, Make, Wire, Again, Stop], t.pick(1, 2), LONG, REST),
        words("never at rest", &[Call(0, 0), Call(0, 1), Call(1, 2), Now(0), Now(2), Settings, Schedule, Block], t.pick(2, 3), 150, (2, 3)),
        crowds(t),
        engines(),
    ]
}
