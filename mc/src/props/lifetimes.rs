//! C25: meters and recorders come and go; each delivers what came in on its own audio side.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::cell::RefCell;
use std::rc::Rc;

const SR: usize = 512;
const BLOCK: usize = 2;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum What {
    Meter,
    Recorder,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    /// create it, or drop it if it is there
    Toggle(usize),
    Block,
    Poll,
    /// stop or start the engine
    Stop,
}

#[derive(Debug, Clone)]
struct Case {
    kinds: Vec<What>,
    ops: Vec<Op>,
}

enum Real {
    Meter(Rc<RefCell<Envelope>>),
    Recorder(Rc<RefCell<Recorder>>),
}

/// What a meter or recorder should have delivered.
#[derive(Default, Clone, Hash)]
struct Want {
    /// readings or frames that came in and have not been polled
    pending: Vec<u32>,
    /// recorders: came in since the last restart took effect
    open: Vec<u32>,
    /// recorders: stop and start have been sent and not yet taken effect
    restart: bool,
    /// recorders: a block has been processed since it was created; recording as of the last poll
    started: bool,
    recording: bool,
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    inline(0, || {
        let n = c.kinds.len();
        let mut e = eng(SR, 4, 1);
        let head = Gain::new(e.ctx.as_ref(), 1);
        head.node.connect_to_input();
        e.ctx.start();
        let mut real: Vec<Option<Real>> = (0..n).map(|_| None).collect();
        let mut want: Vec<Option<Want>> = vec![None; n];
        let mut frame = 0u32;
        let mut running = true;
        let mut log = vec![];
        for (step, op) in c.ops.iter().enumerate() {
            match *op {
                Op::Toggle(i) if real[i].is_some() => {
                    real[i] = None;
                    want[i] = None;
                }
                Op::Toggle(i) => {
                    let ctx = e.ctx.as_mut();
                    real[i] = Some(match c.kinds[i] {
                        What::Meter => {
                            let zero = std::time::Duration::ZERO;
                            let m = Envelope::new(ctx, 1, zero, zero, SR as f64);
                            head.node.connect_to(&m.borrow().node);
                            Real::Meter(m)
                        }
                        What::Recorder => {
                            let r = Recorder::new(ctx, 1, SR);
                            head.node.connect_to(&r.borrow().node);
                            r.borrow_mut().record_now();
                            Real::Recorder(r)
                        }
                    });
                    want[i] = Some(Want::default());
                }
                Op::Block => {
                    let x: Vec<f32> = (0..BLOCK as u32).map(|k| (frame + k + 1) as f32).collect();
                    e.block(&[x], 1);
                    for (i, w) in want.iter_mut().enumerate() {
                        let (Some(w), true) = (w, running) else { continue };
                        let frames = (0..BLOCK as u32).map(|k| frame + k + 1);
                        match c.kinds[i] {
                            What::Meter => w.pending.extend(frames),
                            What::Recorder => {
                                if w.restart {
                                    let o = std::mem::take(&mut w.open);
                                    w.pending.extend(o);
                                    w.restart = false;
                                }
                                w.started = true;
                                w.open.extend(frames);
                            }
                        }
                    }
                    frame += BLOCK as u32;
                }
                Op::Stop => {
                    running = !running;
                    if running {
                        e.ctx.start();
                    } else {
                        e.ctx.stop();
                    }
                }
                Op::Poll => {
                    e.ctx.process_notifications();
                    for (i, (r, w)) in real.iter().zip(&mut want).enumerate() {
                        let (Some(r), Some(w)) = (r, w) else { continue };
                        let got: Vec<u32> = match r {
                            Real::Meter(m) => m.borrow_mut().take_notifications().iter().map(|n| n.peak_level() as u32).collect(),
                            Real::Recorder(r) => {
                                let mut r = r.borrow_mut();
                                w.recording = w.started;
                                ensure!(r.is_recording() == w.recording, "step {step}: recorder {i} says recording: {}", r.is_recording());
                                let got = r.take_recording().map_or(vec![], |b| chans(&b)[0].iter().map(|x| *x as u32).collect());
                                r.stop_record_now();
                                r.record_now();
                                w.restart = true;
                                got
                            }
                        };
                        let due = std::mem::take(&mut w.pending);
                        ensure!(got == due, "step {step}: number {i} ({:?}) delivers {got:?} instead of {due:?}", c.kinds[i]);
                        log.push((i, got));
                    }
                }
            }
            rec.state(&(&c.kinds, &want, frame, running));
        }
        // nothing may have been delivered that was not polled
        for (i, (r, w)) in real.iter().zip(&want).enumerate() {
            if let (Some(Real::Meter(m)), Some(_)) = (r, w) {
                ensure!(m.borrow_mut().take_notifications().is_empty(), "meter {i} was delivered to without a poll");
            }
        }
        rec.exec(&log);
        Ok(())
    })
}

fn words_of(name: &str, kinds: &[&[What]], depth: usize) -> Suite {
    let kinds: Vec<Vec<What>> = kinds.iter().map(|k| k.to_vec()).collect();
    let n = kinds[0].len();
    let letters = n + 2;
    cases(
        name,
        &format!("every word of exactly {depth} of: create or drop number 0 to {}, a block, a poll; kinds {kinds:?}", n - 1),
        pow(letters, depth) * kinds.len() as u64,
        move |mut d: D| {
            let kinds = d.of(&kinds);
            let ops = d.word(letters, depth).into_iter().map(|l| if l == 0 { Op::Poll } else if l == 1 { Op::Block } else { Op::Toggle(l - 2) }).collect();
            Some(Case { kinds, ops })
        },
        run,
    )
}

/// The same with the engine stopped and started in between.
fn stopped(kinds: &[&[What]], depth: usize) -> Suite {
    let kinds: Vec<Vec<What>> = kinds.iter().map(|k| k.to_vec()).collect();
    let n = kinds[0].len();
    let letters = n + 3;
    cases(
        "stopped and started",
        &format!("every word of exactly {depth} of: create or drop number 0 to {}, a block, a poll, stopping or starting the engine; kinds {kinds:?}", n - 1),
        pow(letters, depth) * kinds.len() as u64,
        move |mut d: D| {
            let kinds = d.of(&kinds);
            let letter = |l| [Op::Poll, Op::Block, Op::Stop].get(l).copied().unwrap_or_else(|| Op::Toggle(l - 3));
            let ops: Vec<Op> = d.word(letters, depth).into_iter().map(letter).collect();
            ops.contains(&Op::Stop).then_some(Case { kinds, ops })
        },
        run,
    )
}

/// All are created, then each is dropped before one of the rounds, or never.
fn rounds(n: usize, rounds: usize) -> Suite {
    cases(
        "dropped in rounds",
        &format!("{n} meters and recorders in every arrangement, each dropped before one of {rounds} rounds of a block and a poll, or never; dropped in order of creation or against it"),
        pow(2, n) * pow(rounds + 1, n) * 2,
        move |mut d: D| {
            let kinds = (0..n).map(|_| if d.flag() { What::Meter } else { What::Recorder }).collect();
            let when = d.word(rounds + 1, n);
            let back = d.flag();
            let mut ops: Vec<Op> = (0..n).map(Op::Toggle).collect();
            for r in 0..rounds {
                let mut gone: Vec<usize> = (0..n).filter(|i| when[*i] == r).collect();
                if back {
                    gone.reverse();
                }
                ops.extend(gone.into_iter().map(Op::Toggle));
                ops.extend([Op::Block, Op::Poll]);
            }
            ops.extend([Op::Block, Op::Poll]);
            Some(Case { kinds, ops })
        },
        run,
    )
}

/// Long times between polls. A meter holds 64 readings until they are collected.
fn seldom(t: Tier) -> Suite {
    let kinds = [vec![What::Meter], vec![What::Recorder], vec![What::Meter, What::Recorder, What::Meter]];
    let counts = t.pick(vec![1usize, 16, 17, 31, 32, 33, 100, 700], vec![1, 8, 9, 16, 17, 24, 31, 32, 33, 64, 65, 100, 700, 5000]);
    cases(
        "seldom polled",
        &format!("{kinds:?}; {counts:?} blocks of {BLOCK} frames before the first poll and before the second, one of each before the third (with meters, no more than 32)"),
        prod(&[3, counts.len() as u64, counts.len() as u64]),
        move |mut d: D| {
            let kinds = d.of(&kinds);
            let (a, b) = (d.of(&counts), d.of(&counts));
            let mut ops: Vec<Op> = (0..kinds.len()).map(Op::Toggle).collect();
            for n in [a, b, 1] {
                ops.extend(vec![Op::Block; n]);
                ops.push(Op::Poll);
            }
            (a.max(b) <= 32 || !kinds.contains(&What::Meter)).then_some(Case { kinds, ops })
        },
        run,
    )
}

pub fn c25(t: Tier) -> Vec<Suite> {
    use What::*;
    vec![
        words_of("two", &[&[Meter, Meter], &[Meter, Recorder], &[Recorder, Meter], &[Recorder, Recorder]], t.pick(7, 9)),
        words_of("three", &[&[Meter, Meter, Recorder], &[Recorder, Meter, Recorder]], t.pick(6, 8)),
        words_of("four", &[&[Meter, Recorder, Meter, Recorder]], t.pick(6, 8)),
        stopped(&[&[Meter, Recorder], &[Recorder, Meter], &[Recorder, Recorder]], t.pick(7, 8)),
        rounds(t.pick(4, 5), t.pick(3, 3)),
        seldom(t),
        polled(t),
    ]
}

// ------------------------------------------------------------------------------------------- polled while processing

#[derive(Debug, Clone)]
struct Polled {
    kinds: Vec<What>,
    polls: usize,
    blocks: usize,
    /// number 0 is dropped before this poll
    dropped: Option<usize>,
    /// recordings are stopped and started again after each poll
    cut: bool,
}

#[derive(Debug)]
struct PolledSeen {
    got: Vec<Vec<u32>>,
    recording: Vec<Vec<bool>>,
}

fn polled_body(c: &Polled) -> PolledSeen {
    let Eng { mut ctx, p, .. } = eng(SR, 4, 1);
    let head = Gain::new(ctx.as_ref(), 1);
    head.node.connect_to_input();
    let mut real: Vec<Option<Real>> = c
        .kinds
        .iter()
        .map(|k| {
            Some(match k {
                What::Meter => {
                    let zero = std::time::Duration::ZERO;
                    let m = Envelope::new(ctx.as_mut(), 1, zero, zero, SR as f64);
                    head.node.connect_to(&m.borrow().node);
                    Real::Meter(m)
                }
                What::Recorder => {
                    let r = Recorder::new(ctx.as_mut(), 1, SR);
                    head.node.connect_to(&r.borrow().node);
                    r.borrow_mut().record_now();
                    Real::Recorder(r)
                }
            })
        })
        .collect();
    ctx.start();
    let block = |p: &mut Box<dyn AudioProcess + Send>, frame: u32| {
        let i = buf(&[vec![frame as f32, frame as f32 + 1.0]], SR);
        let mut o = OwnedAudioBuffer::new(BLOCK, 1, SR);
        let before = crossbeam::mc::set_role(Role::Audio);
        p.process(&i, &mut o);
        crossbeam::mc::set_role(before);
    };
    let mut p = p;
    block(&mut p, 1);
    let blocks = c.blocks as u32;
    let h = crossbeam::mc::spawn("audio", Role::Audio, move || {
        for b in 1..=blocks {
            block(&mut p, 1 + 2 * b);
        }
        p
    });
    let mut seen = PolledSeen { got: vec![vec![]; c.kinds.len()], recording: vec![vec![]; c.kinds.len()] };
    let poll = |ctx: &mut Box<dyn Context>, real: &mut [Option<Real>], seen: &mut PolledSeen| {
        ctx.process_notifications();
        for (i, r) in real.iter().enumerate() {
            match r {
                Some(Real::Meter(m)) => seen.got[i].extend(m.borrow_mut().take_notifications().iter().map(|n| n.peak_level() as u32)),
                Some(Real::Recorder(r)) => {
                    let mut r = r.borrow_mut();
                    seen.recording[i].push(r.is_recording());
                    if let Some(b) = r.take_recording() {
                        seen.got[i].extend(chans(&b)[0].iter().map(|x| *x as u32));
                    }
                }
                None => (),
            }
        }
    };
    for n in 0..c.polls {
        if c.dropped == Some(n) {
            real[0] = None;
        }
        poll(&mut ctx, &mut real, &mut seen);
        for r in real.iter().flatten() {
            if let (true, Real::Recorder(r)) = (c.cut, r) {
                // cut the recording here
                r.borrow_mut().stop_record_now();
                r.borrow_mut().record_now();
            }
        }
    }
    let mut p = h.join().expect("audio thread");
    for r in real.iter().flatten() {
        if let Real::Recorder(r) = r {
            r.borrow_mut().stop_record_now();
        }
    }
    block(&mut p, 3 + 2 * blocks);
    poll(&mut ctx, &mut real, &mut seen);
    seen
}

fn polled_check(c: &Polled, s: &PolledSeen, rec: &mut Rec) -> Check {
    let frames: Vec<u32> = (1..=2 * c.blocks as u32 + 2).collect();
    for (i, k) in c.kinds.iter().enumerate() {
        let mut all = frames.clone();
        if *k == What::Meter {
            all.extend([all.len() as u32 + 1, all.len() as u32 + 2]);
        }
        let got = &s.got[i];
        if i == 0 && c.dropped.is_some() {
            ensure!(all.starts_with(got), "number {i} ({k:?}) delivers {got:?} until it is dropped, of {all:?}");
        } else {
            // a block that falls between a stop and the next start is not recorded
            let gaps = c.cut && *k == What::Recorder;
            let whole = got.starts_with(&all[..BLOCK])
                && got.len() % BLOCK == 0
                && got.chunks(BLOCK).all(|b| b[0] % 2 == 1 && b[1] == b[0] + 1)
                && got.windows(2).all(|w| w[0] < w[1])
                && got.last() <= all.last();
            ensure!(*got == all || (gaps && whole), "number {i} ({k:?}) delivers {got:?} in the end instead of {all:?}");
            if *k == What::Recorder {
                ensure!(s.recording[i].last() == Some(&false), "recorder {i} says it is recording after it has stopped");
            }
        }
    }
    rec.state(&(&c.kinds, c.polls, c.dropped, &s.got));
    rec.exec(&(&c.kinds, c.polls, c.dropped, &s.got, &s.recording));
    Ok(())
}

pub fn polled(t: Tier) -> Suite {
    use What::*;
    let kinds = [vec![Meter], vec![Recorder], vec![Meter, Recorder], vec![Recorder, Meter]];
    let blocks = 2;
    sched(
        "polled while processing",
        &format!("meters and recorders {kinds:?}, polled one to three times while {blocks} blocks of {BLOCK} frames are processed, the first dropped before one of the polls or never; recordings stopped and started again at each poll, or not"),
        prod(&[4, 3, 4, 2]),
        Depth { preemptions: t.pick(2, 3), horizon: 3000, late_sleepers: true },
        move |mut d: D| {
            let kinds = d.of(&kinds);
            let polls = 1 + d.n(3);
            let dropped = [None, Some(0), Some(1), Some(2)][d.n(4)];
            let cut = d.flag();
            let sense = dropped.is_none_or(|x| x < polls) && (!cut || kinds.contains(&Recorder));
            sense.then_some(Polled { kinds, polls, blocks, dropped, cut })
        },
        polled_body,
        polled_check,
    )
}
