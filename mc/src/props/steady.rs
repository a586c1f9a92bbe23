//! C35: the audio side neither takes memory nor gives any back.

use super::partition::{build, Rig, Script};
use super::rigs::*;
use crate::alloc::takes;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use crossbeam::mc;

const SR: usize = 512;

/// One block; how often memory was allocated or freed in it.
fn block(e: &mut Eng, input: &dyn AudioBuffer, frames: usize, outs: usize) -> i64 {
    let mut o = OwnedAudioBuffer::new(frames, outs, SR);
    let i = BorrowedAudioBuffer::slice_frames(input, 0, frames);
    let t = takes();
    let before = mc::set_role(Role::Audio);
    e.p.process(&i, &mut o);
    mc::set_role(before);
    takes() - t
}

fn none(n: i64, what: impl Fn() -> String) -> Check {
    ensure!(n == 0, "memory was allocated or freed {n} times in {}", what());
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Act {
    Call(usize, usize),
    Now(usize),
    Settings,
    Schedule,
    Make,
    Drop,
    Wire,
    Again,
    Poll,
    Stop,
    Block,
}

#[derive(Debug, Clone)]
struct Case {
    kind: Kind,
    word: Vec<Act>,
    /// channels of the input and of the output
    shape: (usize, usize),
    frames: usize,
}

fn wire(kind: Kind, unit: &Unit, head: &Gain, tail: &Gain, on: bool) {
    match (on, kind.source()) {
        (true, false) => unit.fed_by(&head.node),
        (true, true) => unit.connect_to(&tail.node),
        (false, false) => unit.node(&mut |n| head.node.disconnect_from_node(n)),
        (false, true) => unit.node(&mut |n| n.disconnect_from_node(&tail.node)),
    }
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    let input = buf(&rough(c.frames, c.shape.0), SR);
    inline(0, || {
        let mut e = eng(SR, 4, 2);
        let head = Gain::new(e.ctx.as_ref(), 2);
        let tail = Gain::new(e.ctx.as_ref(), 2);
        head.node.connect_to_input();
        tail.node.connect_to_output();
        let mut units = vec![Unit::make(c.kind, e.ctx.as_mut(), SR)];
        wire(c.kind, &units[0], &head, &tail, true);
        let (mut wired, mut running, mut now) = (true, true, 0);
        e.ctx.start();
        for (step, a) in c.word.iter().chain([&Act::Block, &Act::Block]).enumerate() {
            match *a {
                Act::Call(v, k) => units.iter_mut().for_each(|u| u.call(v, k, now, SR)),
                Act::Now(k) => units.iter_mut().for_each(|u| u.now(k, SR)),
                Act::Settings => units.iter_mut().for_each(|u| u.settings(SR)),
                Act::Schedule => units.iter_mut().for_each(|u| u.schedule_from(now, 8, SR)),
                Act::Make => {
                    let u = Unit::make(c.kind, e.ctx.as_mut(), SR);
                    wire(c.kind, &u, &head, &tail, true);
                    units.push(u);
                }
                Act::Drop => drop(units.pop()),
                Act::Wire => {
                    wired = !wired;
                    units.iter().for_each(|u| wire(c.kind, u, &head, &tail, wired));
                }
                Act::Again => units.iter().for_each(|u| wire(c.kind, u, &head, &tail, true)),
                Act::Poll => {
                    e.ctx.process_notifications();
                    units.iter_mut().for_each(|u| drop(u.observe()));
                }
                Act::Stop => {
                    running = !running;
                    if running {
                        e.ctx.start();
                    } else {
                        e.ctx.stop();
                    }
                }
                Act::Block => {
                    let n = block(&mut e, &input, c.frames, c.shape.1);
                    none(n, || format!("the block at step {step} of {:?}", c.word))?;
                    now += if running { c.frames } else { 0 };
                }
            }
        }
        rec.state(&(c.kind, &c.word, c.shape, c.frames));
        rec.exec(&(c.kind, now, running, units.len()));
        Ok(())
    })
}

fn words(name: &str, acts: &[Act], length: usize, shapes: &'static [(usize, usize)], frames: &'static [usize]) -> Suite {
    let acts = acts.to_vec();
    let k = acts.len();
    cases(
        name,
        &format!("each kind of node, every word of {length} of {acts:?} and two blocks, of {frames:?} frames where 4 is the maximum, the input and output having {shapes:?} channels"),
        prod(&[12, shapes.len() as u64, frames.len() as u64, pow(k, length)]),
        move |mut d: D| {
            let (kind, shape, frames) = (d.of(&KINDS), d.of(shapes), d.of(frames));
            let word: Vec<Act> = d.word(k, length).into_iter().map(|i| acts[i]).collect();
            // a sampler has room for 16 events
            let events: usize = word.iter().map(|a| match a {
                Act::Schedule => 6,
                Act::Settings => 2,
                _ => 1,
            }).sum();
            (kind != Kind::Sampler || events <= 16).then_some(Case { kind, shape, frames, word })
        },
        run,
    )
}

/// Every arrangement of nodes under full schedules and settings, in blocks of every length.
fn arrangements(t: Tier) -> Suite {
    let mut rigs: Vec<Rig> = KINDS.iter().flat_map(|k| [Rig::One(*k), Rig::Amid(*k)]).collect();
    rigs.push(Rig::Row);
    let lens: Vec<usize> = t.pick((1..=70).step_by(3).collect(), (1..=130).collect());
    let maxf = [1usize, 7, 64];
    let seeds = t.pick(2, 6);
    cases(
        "arrangements",
        &format!("each kind of node alone, amid others and all in a row, under full schedules or settings, in blocks of 1 to {} frames, at most {maxf:?} at a time, {seeds} orders of nodes and edges", lens.last().unwrap()),
        prod(&[rigs.len() as u64, 2, lens.len() as u64, 3, seeds as u64]),
        move |mut d: D| Some((d.of(&rigs), if d.flag() { Script::Timed } else { Script::Settings }, d.of(&lens), d.of(&maxf), d.n(seeds) as u32)),
        |&(rig, script, len, maxf, seed), rec| {
            let input = buf(&rough(len, 2), SR);
            inline(seed, || {
                let mut e = eng(SR, maxf, 2);
                let mut units = build(rig, e.ctx.as_mut(), SR);
                for u in &mut units {
                    match script {
                        Script::Timed => u.schedule(2 * len + 8, SR),
                        Script::Settings => u.settings(SR),
                    }
                }
                e.ctx.start();
                for i in 0..4 {
                    none(block(&mut e, &input, len, 2), || format!("block {i}"))?;
                }
                rec.state(&(rig, script, len, maxf, seed));
                rec.exec(&(rig, script, len));
                Ok(())
            })
        },
    )
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Room {
    /// changes of one parameter, in an order of times
    Changes,
    Sampler,
    Adsr,
    RecorderEvents,
    /// blocks of 4096 frames recorded and not collected, or collected
    Recorded,
    /// nodes side by side, made and dropped again one after the other
    Nodes,
    Edges,
}

const ROOM: [(Room, usize); 7] =
    [(Room::Changes, 16), (Room::Sampler, 16), (Room::Adsr, 64), (Room::RecorderEvents, 16), (Room::Recorded, 31), (Room::Nodes, 200), (Room::Edges, 400)];

/// Up to what the engine makes room for.
fn rooms(t: Tier) -> Suite {
    let each = t.pick(8, 40);
    cases(
        "as much as there is room for",
        &format!("{each} amounts of each of {ROOM:?}, forwards, backwards or by a stride, before the engine's first block or later, twice over"),
        prod(&[7, each as u64, 3, 2]),
        move |mut d: D| {
            let (room, most) = d.of(&ROOM);
            let i = d.n(each);
            let n = most - (most - 1) * i / each;
            Some((room, n, d.n(3), d.flag()))
        },
        |&(room, n, how, late), rec| {
            let big = 4096;
            let input = buf(&rough(big, 2), SR);
            inline(0, || {
                let mut e = eng(SR, big, 2);
                let head = Gain::new(e.ctx.as_ref(), 2);
                let tail = Gain::new(e.ctx.as_ref(), 2);
                head.node.connect_to_input();
                tail.node.connect_to_output();
                let mut gain = Gain::new(e.ctx.as_ref(), 2);
                let mut sampler = rawdio::Sampler::new(e.ctx.as_ref(), sample(90, SR));
                let mut adsr = rawdio::Adsr::new(e.ctx.as_ref(), 2, SR);
                head.node.connect_to(&gain.node);
                gain.node.connect_to(&adsr.node);
                adsr.node.connect_to(&tail.node);
                sampler.node.connect_to(&tail.node);
                let recorder = Recorder::new(e.ctx.as_mut(), 2, SR);
                tail.node.connect_to(&recorder.borrow().node);
                e.ctx.start();
                let mut at = 0;
                if late {
                    none(block(&mut e, &input, 5, 2), || "the first block".into())?;
                    at = 5;
                }
                let order = |i: usize| match how {
                    0 => i,
                    1 => n - 1 - i,
                    _ => i * 7 % n.max(1),
                };
                for round in 0..2 {
                    let when = |i: usize| t_samples((at + 2 + 2 * order(i)) as f64, SR);
                    let mut nodes = vec![];
                    match room {
                        Room::Changes => (0..n).for_each(|i| gain.gain().set_value_at_time(i as f64, when(i))),
                        Room::Sampler => (0..n).for_each(|i| if i % 2 == 0 { sampler.start_from_position_at_time(when(i), Timestamp::zero()) } else { sampler.stop_at_time(when(i)) }),
                        Room::Adsr => (0..n).for_each(|i| if i % 2 == 0 { adsr.note_on_at_time(when(i)) } else { adsr.note_off_at_time(when(i)) }),
                        Room::RecorderEvents => (0..n).for_each(|i| if i % 2 == 0 { recorder.borrow_mut().record_now() } else { recorder.borrow_mut().stop_record_at_time(when(i)) }),
                        Room::Recorded if round == 0 => recorder.borrow_mut().record_now(),
                        Room::Recorded => (),
                        Room::Nodes => {
                            nodes.extend((0..n).map(|_| Gain::new(e.ctx.as_ref(), 2)));
                            nodes.iter().for_each(|g| g.node.connect_to(&tail.node));
                        }
                        Room::Edges => (0..n).for_each(|_| head.node.connect_to(&tail.node)),
                    }
                    let blocks = if room == Room::Recorded { n / 2 } else { 1 };
                    for b in 0..blocks {
                        let len = if room == Room::Recorded { big } else { 3 };
                        none(block(&mut e, &input, len, 2), || format!("block {b} of round {round}"))?;
                        at += len;
                        if room == Room::Recorded && late {
                            e.ctx.process_notifications();
                            drop(recorder.borrow_mut().take_recording());
                        }
                    }
                    if how == 1 {
                        nodes.reverse();
                    }
                    drop(nodes);
                    if room == Room::Edges {
                        head.node.disconnect_from_node(&tail.node);
                    }
                    none(block(&mut e, &input, 400, 2), || format!("the last block of round {round}"))?;
                    at += 400;
                }
                rec.state(&(room, n, how, late));
                rec.exec(&(room, n));
                Ok(())
            })
        },
    )
}

/// Many recordings one after the other.
fn recordings(t: Tier) -> Suite {
    let many = t.pick(80, 300);
    let lens = [1usize, 3, 300, 4095, 4096, 4097, 9000];
    cases(
        "many recordings",
        &format!("{many} recordings one after the other by each of 1 to 3 recorders, each of {lens:?} frames or as many as all of these in turn, stopped by a call, at a time, or twice, in one block or two; notifications processed after each block or each stop, or after every tenth recording"),
        prod(&[8, 3, 3, 2, 3]),
        move |mut d: D| Some((d.n(8), 1 + d.n(3), d.n(3), d.flag(), d.n(3))),
        move |&(length, recorders, stop, split, poll), rec| {
            let input = buf(&rough(9000, 2), SR);
            inline(0, || {
                let mut e = eng(SR, 16_384, 2);
                let head = Gain::new(e.ctx.as_ref(), 2);
                head.node.connect_to_input();
                let rs: Vec<_> = (0..recorders).map(|_| Recorder::new(e.ctx.as_mut(), 2, SR)).collect();
                rs.iter().for_each(|r| head.node.connect_to(&r.borrow().node));
                let tail = Gain::new(e.ctx.as_ref(), 2);
                head.node.connect_to(&tail.node);
                tail.node.connect_to_output();
                e.ctx.start();
                let mut now = 0;
                for i in 0..many {
                    let len = lens[if length < 7 { length } else { i % 7 }];
                    rs.iter().for_each(|r| r.borrow_mut().record_now());
                    let parts = if split { vec![len / 2, len - len / 2] } else { vec![len] };
                    for (k, part) in parts.iter().enumerate() {
                        if k + 1 == parts.len() && stop == 1 {
                            rs.iter().for_each(|r| r.borrow_mut().stop_record_at_time(t_samples((now + part) as f64, SR)));
                        }
                        none(block(&mut e, &input, *part, 2), || format!("recording {i}"))?;
                        now += part;
                        if poll == 0 {
                            e.ctx.process_notifications();
                        }
                    }
                    if stop != 1 {
                        (0..=stop / 2).for_each(|_| rs.iter().for_each(|r| r.borrow_mut().stop_record_now()));
                    }
                    none(block(&mut e, &input, 2, 2), || format!("the block after recording {i}"))?;
                    now += 2;
                    if poll < 2 || i % 10 == 9 {
                        e.ctx.process_notifications();
                        for r in &rs {
                            if let Some(b) = r.borrow_mut().take_recording() {
                                ensure!(b.frame_count() >= len, "recording {i} has {} frames", b.frame_count());
                            }
                        }
                    }
                }
                rec.state(&(length, recorders, stop, split, poll));
                rec.exec(&(length, recorders, now));
                Ok(())
            })
        },
    )
}

pub fn c35(t: Tier) -> Vec<Suite> {
    use Act::*;
    vec![
        words("calls", &[Call(0, 0), Call(0, 1), Call(1, 2), Now(0), Now(1), Now(2), Settings, Schedule, Poll, Stop, Block], t.pick(3, 5), &[(2, 2)], t.pick(&[6], &[3, 6])),
        words("nodes and edges", &[Make, Drop, Wire, Again, Call(0, 1), Settings, Poll, Stop, Block], t.pick(4, 5), &[(2, 2)], &[6]),
        words("shapes of blocks", &[Call(0, 0), Schedule, Make, Block], t.pick(2, 4), &[(1, 1), (1, 2), (2, 1), (3, 3), (2, 4), (4, 2)], &[0, 1, 3, 4, 5, 9]),
        arrangements(t),
        rooms(t),
        recordings(t),
    ]
}
