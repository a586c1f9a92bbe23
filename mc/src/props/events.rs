//! Timed events. C10: order and time. C14: recordings.

use super::buffers::list;
use super::fx::{adsr, splits, AdsrCase, Note};
use super::sampler::{self, Ev, K};
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::VecDeque;

const SR: usize = 64;

// ---------------------------------------------------------------------------------------------------------------- C10

/// Sampler events in any order of submission.
fn sampler_orders(name: &str, kinds: &'static [K], times: &'static [usize], n: usize, frames: usize) -> Suite {
    let size = pow(kinds.len() * times.len(), n) * 3;
    cases(
        name,
        &format!("every sequence of {n} sampler events out of {kinds:?}, each at one of the frames {times:?}, submitted in that order; whole, in passes of 3 frames and in mixed blocks"),
        size,
        move |mut d: D| {
            let p = d.n(3);
            let events: Vec<Ev> = (0..n).map(|_| Ev { k: d.of(kinds), at: d.of(times), arrives: 0 }).collect();
            let lens = splits([0, 0, 3][p], frames);
            let c = sampler::Case { sr: SR, ch: 1, len: 12, events, lens, maxf: if p == 1 { 3 } else { 64 } };
            sampler::expected(&c, |_, _| ()).map(|_| c)
        },
        sampler::run,
    )
}

/// Many events, sent in a few orders.
fn sampler_many() -> Suite {
    cases(
        "many sampler events",
        "16 starts and 16 stops at 32 frames, at most the capacity of a sampler, submitted forwards, backwards, odd ones first, in each rotation, or in each of 31 strides",
        3 + 32 + 31,
        |mut d: D| {
            let k = d.n(66);
            let n = 32usize;
            let order: Vec<usize> = match k {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
                k if k < 35 => (0..n).map(|i| (i + k - 3) % n).collect(),
                k => {
                    let s = k - 34;
                    (0..33).map(|i| i * s % 33).filter(|i| *i < n).fold(vec![], |mut v, i| {
                        if !v.contains(&i) {
                            v.push(i);
                        }
                        v
                    })
                }
            };
            let ev = |i: usize| {
                let at = 3 * (i / 2) + 2 * (i % 2);
                Ev { k: if i % 2 == 0 { K::Start(i % 5) } else { K::Stop }, at, arrives: 0 }
            };
            let events = order.into_iter().map(ev).collect();
            Some(sampler::Case { sr: SR, ch: 2, len: 12, events, lens: splits(3, 56), maxf: 16 })
        },
        sampler::run,
    )
}

/// ADSR notes in any order of submission.
fn notes(name: &str, times: &'static [usize], n: usize) -> Suite {
    let confs: [[Note; 4]; 3] = [
        [Note::Attack(0), Note::Decay(0), Note::Sustain(4), Note::Release(0)],
        [Note::Attack(3), Note::Decay(3), Note::Sustain(2), Note::Release(3)],
        [Note::Attack(0), Note::Decay(7), Note::Sustain(2), Note::Release(7)],
    ];
    cases(
        name,
        &format!("every sequence of {n} notes on or off, each at one of {times:?} half frames, submitted in that order; 3 envelopes; 4 block partitions of 14 frames"),
        pow(2 * times.len(), n) * 3 * 4,
        move |mut d: D| {
            let lens = splits(d.n(4), 14);
            let mut first: Vec<(usize, Note)> = d.of(&confs).iter().map(|n| (0, *n)).collect();
            for _ in 0..n {
                first.push((d.of(times), if d.flag() { Note::Off } else { Note::On }));
            }
            Some(AdsrCase { first, later: vec![], lens, maxf: 5, chans: 1 })
        },
        adsr,
    )
}

/// Notes that arrive after they were due, while others are pending.
fn late_notes() -> Suite {
    cases(
        "late notes",
        "one note at each of 12 half frames sent first; then two more, sent for time 0 before each of the frames 1 to 6; blocks of 1 frame",
        2 * 12 * 4 * 36,
        |mut d: D| {
            let mut first = vec![(0, Note::Attack(3)), (0, Note::Decay(3)), (0, Note::Sustain(2)), (0, Note::Release(3))];
            let note = |d: &mut D| if d.flag() { Note::Off } else { Note::On };
            let n = note(&mut d);
            first.push((d.n(12), n));
            let (a, b) = (note(&mut d), note(&mut d));
            let (fa, fb) = (1 + d.n(6), 1 + d.n(6));
            (fa <= fb).then(|| AdsrCase { first, later: vec![(fa, a), (fb, b)], lens: splits(1, 12), maxf: 4, chans: 1 })
        },
        adsr,
    )
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Who {
    Sampler,
    Adsr,
    Recorder,
}
#[derive(Debug, Clone)]
struct AtCase {
    who: Who,
    sr: usize,
    block: usize,
    /// quarter frames
    at: usize,
    /// another event this many frames later, already sent
    after: Option<usize>,
}

/// One event at any frame of any rate: never late, and early by at most a frame unless times are exact.
fn at_frame(c: &AtCase, rec: &mut Rec) -> Check {
    let exact = c.sr.is_power_of_two();
    let due = c.at / 4;
    inline(0, || {
        let mut e = eng(c.sr, 512, 1);
        let t = t_samples(c.at as f64 / 4.0, c.sr);
        let blocks = due / c.block + 3;
        e.ctx.start();
        let happened = match c.who {
            Who::Sampler => {
                let mut s = Sampler::new(e.ctx.as_ref(), buf(&[(1..=blocks * c.block + 2).map(|f| f as f32).collect()], c.sr));
                s.node.connect_to_output();
                if let Some(x) = c.after {
                    s.stop_at_time(t_samples((due + 1 + x) as f64 + 0.5, c.sr));
                }
                s.start_from_position_at_time(t, Timestamp::zero());
                let mut got = Vec::new();
                for _ in 0..blocks {
                    got.extend(e.quiet(c.block, 1).remove(0));
                }
                let first = got.iter().position(|x| *x != 0.0);
                let Some(first) = first else { return Err(format!("the start never happens, {} frames", got.len())) };
                let upto = c.after.map_or(got.len(), |x| due + x).min(got.len());
                for (i, x) in got[first..upto.max(first)].iter().enumerate() {
                    ensure!(*x == (i + 1) as f32, "frame {} plays {x} after the start at {first}", first + i);
                }
                first
            }
            Who::Adsr => {
                let mut a = Adsr::new(e.ctx.as_ref(), 1, c.sr);
                a.set_attack_time(std::time::Duration::ZERO);
                a.set_release_time(std::time::Duration::ZERO);
                a.node.connect_to_input();
                a.node.connect_to_output();
                if let Some(x) = c.after {
                    a.note_off_at_time(t_samples((due + 1 + x) as f64 + 0.5, c.sr));
                }
                a.note_on_at_time(t);
                let mut got = Vec::new();
                for _ in 0..blocks {
                    got.extend(e.block(&[vec![1.0; c.block]], 1).remove(0));
                }
                match got.iter().position(|x| *x != 0.0) {
                    Some(f) => f,
                    None => return Err("the note never starts".into()),
                }
            }
            Who::Recorder => {
                let r = Recorder::new(e.ctx.as_mut(), 1, c.sr);
                r.borrow().node.connect_to_input();
                r.borrow_mut().record_now();
                if let Some(x) = c.after {
                    r.borrow_mut().stop_record_at_time(t_samples((due + 1 + x) as f64 + 0.5, c.sr));
                }
                r.borrow_mut().stop_record_at_time(t);
                let mut at = 0;
                for _ in 0..blocks {
                    e.block(&[(0..c.block).map(|f| (at + f) as f32).collect()], 1);
                    at += c.block;
                }
                e.ctx.process_notifications();
                ensure!(!r.borrow().is_recording(), "the recording never stops");
                let d = r.borrow_mut().take_recording().map_or(0, |d| d.frame_count());
                d
            }
        };
        if exact {
            ensure!(happened == due, "happens at frame {happened} instead of {due}");
        } else {
            // the frame whose span contains the time, or the one before
            ensure!(happened <= due && happened + 1 >= due, "happens at frame {happened} instead of {due}");
        }
        rec.state(&(c.sr, c.block, c.at));
        rec.exec(&happened);
        Ok(())
    })
}

pub fn c10(t: Tier) -> Vec<Suite> {
    let rates = [64usize, 8_192, 8_000, 44_100, 48_000, 96_000];
    let blocks = [1usize, 64, 100, 441];
    let quarters: Vec<usize> = t.pick((0..40).chain((160..2400).step_by(37)).collect(), (0..400).chain((400..8000).step_by(13)).collect());
    let far: Vec<usize> = t.pick(vec![4 * 3000], vec![4 * 3000, 4 * 20_000 + 1, 4 * 100_000]);
    let nq = quarters.len() + far.len();
    let all: Vec<usize> = quarters.into_iter().chain(far).collect();
    let mut v = vec![
        sampler_orders("three sampler events", &[K::Start(0), K::Start(3), K::Stop, K::Loop(2, 6), K::Unloop], &[0, 1, 4, 7], 3, 20),
        sampler_orders("four sampler events", &[K::Start(0), K::Start(5), K::Stop], &[1, 2, 6], t.pick(4, 5), 20),
        sampler_many(),
        notes("notes", &[0, 1, 4, 5, 8], t.pick(3, 4)),
        notes("notes at few times", &[2, 6], t.pick(5, 6)),
        late_notes(),
        cases(
            "every frame",
            &format!("a sampler start, a note on and a recorder stop at {nq} times in quarter frames, up to {}, alone or with another event already sent; rates {rates:?}; blocks {blocks:?}", all.last().unwrap()),
            (3 * rates.len() * blocks.len() * nq * 3) as u64,
            move |mut d: D| {
                Some(AtCase {
                    who: d.of(&[Who::Sampler, Who::Adsr, Who::Recorder]),
                    sr: d.of(&rates),
                    block: d.of(&blocks),
                    at: d.of(&all),
                    after: [None, Some(0), Some(130)][d.n(3)],
                })
                .filter(|c| c.block > 1 || c.at < 3000)
            },
            at_frame,
        ),
    ];
    if t == Tier::Thorough {
        v.push(sampler_orders("four sampler events, all kinds", &[K::Start(0), K::Start(3), K::Stop, K::Loop(2, 6), K::Unloop], &[0, 4, 7], 4, 20));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------- C14

#[derive(Debug, Clone, Copy, PartialEq)]
enum R {
    Start,
    Stop,
    /// so many half frames after the block that comes next begins
    StopIn(usize),
    Block(usize),
    Collect,
    Take,
}

#[derive(Debug, Clone)]
struct RecCase {
    ch: usize,
    maxf: usize,
    ops: Vec<R>,
}

#[derive(Default)]
struct RecModel {
    t: usize,
    recording: bool,
    /// every frame recorded so far
    stream: Vec<usize>,
    /// of which certainly delivered at the last stop
    stopped_at: usize,
    queue: Vec<(usize, u8)>,
}
impl RecModel {
    fn submit(&mut self, half: usize, k: u8) {
        let at = self.queue.iter().position(|q| q.0 > half).unwrap_or(self.queue.len());
        self.queue.insert(at, (half, k));
    }
    fn block(&mut self, n: usize) {
        for f in self.t..self.t + n {
            while self.queue.first().is_some_and(|q| q.0 / 2 <= f) {
                match self.queue.remove(0).1 {
                    0 => self.recording = true,
                    _ => {
                        if self.recording {
                            self.stopped_at = self.stream.len();
                        }
                        self.recording = false;
                    }
                }
            }
            if self.recording {
                self.stream.push(f);
            }
        }
        self.t += n;
    }
}

fn value(f: usize, c: usize) -> f32 {
    (f % 65_536) as f32 + 65_536.0 * c as f32
}

fn recording(c: &RecCase, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(SR, c.maxf, c.ch);
        let r = Recorder::new(e.ctx.as_mut(), c.ch, SR);
        r.borrow().node.connect_to_input();
        e.ctx.start();
        let mut m = RecModel::default();
        // recording, and certainly delivered, as of the last collection
        let (mut shown, mut certain, mut upto) = (false, 0, 0);
        let mut taken = 0;
        let mut log = Vec::new();
        let mut ops: VecDeque<R> = c.ops.iter().copied().collect();
        // in the end everything comes out
        ops.extend([R::Stop, R::Block(1), R::Collect, R::Take, R::Take]);
        for (i, op) in ops.iter().enumerate() {
            match *op {
                R::Start => {
                    r.borrow_mut().record_now();
                    m.submit(0, 0);
                }
                R::Stop => {
                    r.borrow_mut().stop_record_now();
                    m.submit(0, 1);
                }
                R::StopIn(h) => {
                    let at = 2 * m.t + h;
                    r.borrow_mut().stop_record_at_time(t_samples(at as f64 / 2.0, SR));
                    m.submit(at, 1);
                }
                R::Block(n) => {
                    let input: Chans = (0..c.ch).map(|k| (0..n).map(|f| value(m.t + f, k)).collect()).collect();
                    e.block(&input, 1);
                    m.block(n);
                }
                R::Collect => {
                    e.ctx.process_notifications();
                    shown = m.recording;
                    certain = m.stopped_at;
                    upto = m.stream.len();
                }
                R::Take => {
                    let got = r.borrow_mut().take_recording();
                    let n = got.as_ref().map_or(0, |g| g.frame_count());
                    ensure!(taken + n >= certain && taken + n <= upto, "step {i}: {n} frames delivered after {taken}, where {certain} to {upto} had been recorded");
                    if let Some(g) = got.filter(|_| n > 0) {
                        ensure!(g.channel_count() == c.ch && g.sample_rate() == SR, "step {i}: a recording of {} channels at {}", g.channel_count(), g.sample_rate());
                        for k in 0..c.ch {
                            let want: Vec<f32> = m.stream[taken..taken + n].iter().map(|f| value(*f, k)).collect();
                            same(&format!("step {i}: recording from frame {taken}, channel {k}"), g.get_channel_data(SampleLocation::channel(k)), &want, 0.0)?;
                        }
                    }
                    taken += n;
                    log.push(n);
                }
            }
            ensure!(r.borrow().is_recording() == shown, "step {i} ({op:?}): is_recording() is {}", !shown);
            rec.state(&(m.t, m.recording, m.stream.len(), m.stopped_at, m.queue.clone(), shown, certain, taken));
        }
        ensure!(taken == m.stream.len(), "{taken} of {} frames delivered in the end", m.stream.len());
        rec.exec(&log);
        Ok(())
    })
}

#[derive(Debug, Clone)]
struct LongRec {
    frames: usize,
    block: usize,
    maxf: usize,
    ch: usize,
    /// collect after every so many blocks, or only at the end
    collect: Option<usize>,
    parts: usize,
}

fn long_recording(c: &LongRec, rec: &mut Rec) -> Check {
    let mut ops = Vec::new();
    for p in 0..c.parts {
        ops.push(R::Start);
        let mut left = c.frames;
        let mut n = 0;
        while left > 0 {
            let b = c.block.min(left);
            ops.push(R::Block(b));
            left -= b;
            n += 1;
            if c.collect.is_some_and(|k| n % k == 0) {
                ops.push(R::Collect);
                if p % 2 == 1 {
                    ops.push(R::Take);
                }
            }
        }
        ops.push(R::Stop);
        ops.push(R::Block(c.block));
    }
    recording(&RecCase { ch: c.ch, maxf: c.maxf, ops }, rec)
}

pub fn c14(t: Tier) -> Vec<Suite> {
    let full = [R::Start, R::Stop, R::StopIn(3), R::StopIn(10), R::Block(1), R::Block(4), R::Collect, R::Take];
    let big = [R::Start, R::Stop, R::Block(4095), R::Block(4097), R::StopIn(8192), R::Collect];
    let (d1, d2) = t.pick((5, 4), (6, 5));
    let frames: Vec<usize> = vec![1, 63, 4095, 4096, 4097, 8191, 8192, 8193, 20_000];
    let blocks = [64usize, 441, 512, 4096, 5000];
    let mut long = Vec::new();
    for f in &frames {
        for block in blocks {
            for maxf in [64usize, 512] {
                for ch in [1usize, 2] {
                    for collect in [None, Some(1), Some(7)] {
                        for parts in [1usize, 2] {
                            if f + block < 10_000 || t == Tier::Thorough || (ch == 1 && maxf == 512) {
                                long.push(LongRec { frames: *f, block, maxf, ch, collect, parts });
                            }
                        }
                    }
                }
            }
        }
    }
    // passes longer than one, two and three internal buffers
    for block in [4097usize, 8192, 8193, 12_000, 12_289, 20_000] {
        for frames in t.pick(vec![block, 3 * block + 7], vec![block - 1, block, block + 1, 2 * block, 3 * block + 7]) {
            for ch in [1usize, 2] {
                for collect in [None, Some(1)] {
                    for parts in [1usize, 2] {
                        long.push(LongRec { frames, block, maxf: 32_768, ch, collect, parts });
                    }
                }
            }
        }
    }
    // more than all internal buffers together
    for n in t.pick(vec![34 * 4096 + 5], vec![31 * 4096, 32 * 4096, 33 * 4096, 34 * 4096 + 5, 70 * 4096 + 1]) {
        for block in [512usize, 4096] {
            for collect in [None, Some(3), Some(100)] {
                long.push(LongRec { frames: n, block, maxf: 512, ch: 1, collect, parts: 2 });
            }
        }
    }
    vec![
        cases(
            "recording words",
            &format!("every word up to {d1} of {full:?}, 1 or 2 channels, passes of 3 or 16 frames; then a stop and everything collected"),
            words(full.len(), d1) * 2 * 2,
            move |mut d: D| {
                let (ch, maxf) = (1 + d.n(2), [16, 3][d.n(2)]);
                let ops: Vec<R> = d.word_upto(full.len(), d1).into_iter().map(|i| full[i]).collect();
                ops.contains(&R::Start).then_some(RecCase { ch, maxf, ops })
            },
            recording,
        ),
        cases(
            "words across internal buffers",
            &format!("every word up to {d2} of {big:?} after a start; passes of 512 frames"),
            words(big.len(), d2),
            move |mut d: D| {
                let mut ops = vec![R::Start];
                ops.extend(d.word_upto(big.len(), d2).into_iter().map(|i| big[i]));
                Some(RecCase { ch: 1, maxf: 512, ops })
            },
            recording,
        ),
        list(
            "long recordings",
            &format!("recordings of {frames:?} frames, of passes of up to 20000 frames, and of more than all internal buffers, blocks {blocks:?}, collected after every block, every 7 blocks or in the end, taken as they come or together, once or twice"),
            long,
            long_recording,
        ),
    ]
}
