//! The clock and the running state.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;

use super::buffers::list;

const TOL: f64 = 1e-6;

#[derive(Debug, Clone)]
struct Case {
    sr: usize,
    maxf: usize,
    ops: Vec<Op>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Start,
    Stop,
    Block(usize),
    Node,
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, 1);
        let through = Gain::new(e.ctx.as_ref(), 1);
        through.node.connect_to_input();
        through.node.connect_to_output();
        let mut extra = Vec::new();
        let (mut wanted, mut running, mut frames) = (false, false, 0usize);
        let mut last = 0.0f64;
        let mut trace = Vec::new();
        ensure!(e.time() == 0.0, "time before the first block is {}", e.time());
        ensure!(e.ctx.get_sample_rate() == c.sr, "sample rate reported as {}", e.ctx.get_sample_rate());
        ensure!(e.ctx.maximum_frame_count() == c.maxf, "maximum frame count reported as {}", e.ctx.maximum_frame_count());
        for (i, op) in c.ops.iter().enumerate() {
            match op {
                Op::Start => {
                    e.ctx.start();
                    wanted = true;
                }
                Op::Stop => {
                    e.ctx.stop();
                    wanted = false;
                }
                Op::Node => extra.push(Gain::new(e.ctx.as_ref(), 1)),
                Op::Block(n) => {
                    running = wanted;
                    let input: Vec<f32> = (0..*n).map(|f| (i * 100 + f + 1) as f32).collect();
                    let out = e.block(&[input.clone()], 2);
                    let want = if running { input } else { vec![0.0; *n] };
                    same(&format!("output of step {i}"), &out[0], &want, 0.0)?;
                    same(&format!("second output channel of step {i}"), &out[1], &vec![0.0; *n], 0.0)?;
                    if running {
                        frames += n;
                    }
                }
            }
            let (now, want) = (e.time(), frames as f64 / c.sr as f64);
            ensure!((now - want).abs() <= TOL, "after step {i} ({op:?}) the time is {now}, expected {want}");
            ensure!(now >= last, "after step {i} the time went back from {last} to {now}");
            last = now;
            trace.push((now.to_bits(), running));
            rec.state(&(wanted, running, frames, c.sr));
        }
        drop(extra);
        rec.exec(&trace);
        Ok(())
    })
}

#[derive(Debug, Clone)]
struct Long {
    sr: usize,
    maxf: usize,
    len: usize,
    blocks: usize,
}

/// Many blocks, no accumulated error.
fn long(c: &Long, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, 1);
        e.ctx.start();
        let i = OwnedAudioBuffer::new(c.len, 1, c.sr);
        let mut o = OwnedAudioBuffer::new(c.len, 1, c.sr);
        for b in 1..=c.blocks {
            e.p.process(&i, &mut o);
            let want = (b * c.len) as f64 / c.sr as f64;
            let now = e.time();
            ensure!((now - want).abs() <= TOL, "after {b} blocks of {} frames the time is {now}, expected {want}", c.len);
            rec.state(&(b, c.len, c.sr));
        }
        rec.exec(&(c.sr, c.len, e.time().to_bits()));
        Ok(())
    })
}

/// Past the frame counts at which narrower types run out; the clock is read around each of them.
#[derive(Debug, Clone)]
struct Days {
    sr: usize,
    len: usize,
    blocks: usize,
    /// a stop and a start half way
    pause: bool,
}

fn days(c: &Days, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(c.sr, c.len, 1);
        e.ctx.start();
        let i = OwnedAudioBuffer::new(c.len, 1, c.sr);
        let mut o = OwnedAudioBuffer::new(c.len, 1, c.sr);
        for b in 1..=c.blocks {
            e.p.process(&i, &mut o);
            let want = (b * c.len) as f64 / c.sr as f64;
            let now = e.time();
            ensure!((now - want).abs() <= TOL, "after {b} blocks of {} frames the time is {now}, expected {want}", c.len);
            if c.pause && b == c.blocks / 2 {
                e.ctx.stop();
                e.p.process(&i, &mut o);
                ensure!((e.time() - want).abs() <= TOL, "stopped after {b} blocks the time is {}, expected {want}", e.time());
                e.ctx.start();
            }
            if b % 512 == 0 {
                rec.state(&(b, c.len, c.sr));
            }
        }
        rec.exec(&(c.sr, c.len, e.time().to_bits()));
        Ok(())
    })
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let depth = t.pick(6, 8);
    let ops = [Op::Start, Op::Block(1), Op::Stop, Op::Block(5), Op::Node];
    let rates = [64usize, 44_100, 48_000];
    let maxf = [1usize, 3, 64];
    let n = words(ops.len(), depth) * 9;
    let blocks = t.pick(30_000, 300_000);
    let lr = [8_000usize, 11_025, 22_050, 44_100, 48_000, 88_200, 96_000, 192_000];
    let ll = [1usize, 3, 64, 441];
    vec![
        cases(
            "start-stop-process words",
            &format!("every word up to {depth} over {ops:?} at rates {rates:?} and maximum frame counts {maxf:?}"),
            n,
            move |mut d: D| {
                let (sr, maxf) = (d.of(&rates), d.of(&maxf));
                let w = d.word_upto(ops.len(), depth);
                Some(Case { sr, maxf, ops: w.into_iter().map(|i| ops[i]).collect() })
            },
            run,
        ),
        cases(
            "drift",
            &format!("{blocks} consecutive blocks of {ll:?} frames at rates {lr:?}"),
            (lr.len() * ll.len()) as u64,
            move |mut d: D| Some(Long { sr: d.of(&lr), maxf: 512, len: d.of(&ll), blocks }),
            long,
        ),
        list(
            "days",
            "4 295 163 904 frames (more than 2^32) in blocks of 65 536, without or with a pause in the middle, the clock read after each; thorough also 2^34 frames",
            [(48_000usize, false), (8_000, true)]
                .into_iter()
                .map(|(sr, pause)| Days { sr, len: 65_536, blocks: t.pick(65_539, 262_147), pause })
                .collect(),
            days,
        ),
    ]
}
