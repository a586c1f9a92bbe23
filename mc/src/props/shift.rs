//! C31: a scene gives the same whenever it happens. C32: a pause changes nothing but the time it takes.

use super::buffers::list;
use super::partition::{build, Rig};
use super::rigs::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Floating point rounding, no more.
const TOL: f32 = 2e-5;

type Seen = (Chans, Vec<Vec<f64>>);

fn agree(what: &str, got: &Seen, want: &Seen) -> Check {
    same_all("output", &got.0, &want.0, TOL).map_err(|e| format!("{e}; expected is the scene {what}"))?;
    for (i, (g, w)) in got.1.iter().zip(&want.1).enumerate() {
        let near = g.len() == w.len() && g.iter().zip(w).all(|(a, b)| (a - b).abs() <= TOL as f64 * (1.0 + b.abs()));
        ensure!(near, "unit {i}: read {g:?}, {what} {w:?}");
    }
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Way {
    /// nodes made and called when the scene starts
    MadeThen,
    /// nodes made before the first block, called when the scene starts
    CalledThen,
    /// nodes made and timed calls made before the first block
    Ahead,
}
const WAYS: [Way; 3] = [Way::MadeThen, Way::CalledThen, Way::Ahead];

#[derive(Debug, Clone)]
struct Late {
    rig: Rig,
    /// timed changes, or settings without times
    timed: bool,
    way: Way,
    sr: usize,
    maxf: usize,
    /// blocks of silence before the scene
    before: Vec<(usize, usize)>,
    lens: Vec<usize>,
}

impl Late {
    fn base(&self) -> usize {
        self.before.iter().map(|(n, len)| n * len).sum()
    }
    /// Nodes that run on when nothing happens cannot wait.
    fn sensible(&self) -> bool {
        match (self.way, self.rig) {
            (Way::MadeThen, _) => true,
            (_, Rig::One(Kind::Oscillator | Kind::Envelope)) => false,
            (Way::CalledThen, Rig::One(_)) => true,
            // starts recording at once
            (Way::Ahead, Rig::One(k)) => self.timed && k != Kind::Recorder,
            _ => false,
        }
    }
}

fn make_calls(units: &mut [Unit], base: usize, c: &Late) {
    for u in units {
        if c.timed {
            u.schedule_from(base, c.lens.iter().sum(), c.sr);
        } else {
            u.settings(c.sr);
        }
    }
}

fn forward(e: &mut Eng, blocks: usize, len: usize) {
    let i = OwnedAudioBuffer::new(len, 2, e.sr);
    let mut o = OwnedAudioBuffer::new(len, 2, e.sr);
    for _ in 0..blocks {
        e.p.process(&i, &mut o);
        e.ctx.process_notifications();
    }
}

/// The scene in an engine that has reached frame `base`.
fn scene(e: &mut Eng, units: &mut [Unit], lens: &[usize]) -> Seen {
    let n: usize = lens.iter().sum();
    let out = e.blocks(&rough(n, 2), lens, 2);
    e.ctx.process_notifications();
    (out, units.iter_mut().map(|u| u.observe()).collect())
}

fn execute(c: &Late) -> Seen {
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, 2);
        let mut units = vec![];
        let base = c.base();
        if c.way != Way::MadeThen {
            units = build(c.rig, e.ctx.as_mut(), c.sr);
        }
        if c.way == Way::Ahead {
            make_calls(&mut units, base, c);
        }
        e.ctx.start();
        for (n, len) in &c.before {
            forward(&mut e, *n, *len);
        }
        if c.way == Way::MadeThen {
            units = build(c.rig, e.ctx.as_mut(), c.sr);
        }
        if c.way != Way::Ahead {
            make_calls(&mut units, base, c);
        }
        scene(&mut e, &mut units, &c.lens)
    })
}

type Key = (Rig, bool, usize, usize, Vec<usize>);
static FIRST: Mutex<Option<HashMap<Key, Arc<Seen>>>> = Mutex::new(None);

/// The scene from the first frame on, kept.
fn first(c: &Late) -> Arc<Seen> {
    let key = (c.rig, c.timed, c.sr, c.maxf, c.lens.clone());
    if let Some(r) = FIRST.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Arc::clone(r);
    }
    let r = Arc::new(execute(&Late { before: vec![], way: Way::MadeThen, ..c.clone() }));
    FIRST.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&r));
    r
}

fn late(c: &Late, rec: &mut Rec) -> Check {
    let got = execute(c);
    agree("from the first frame on", &got, &first(c))?;
    rec.state(&(c.rig, c.timed, c.way, c.base()));
    rec.exec(&(c.rig, bits(&got.0[0])));
    Ok(())
}

#[derive(Debug, Clone)]
struct Day {
    sr: usize,
    blocks: usize,
    len: usize,
    /// which half of the scenes
    half: usize,
}

/// All scenes, one after the other, in an engine that has been running for days.
fn day(c: &Day, rec: &mut Rec) -> Check {
    let scenes: Vec<(Rig, bool)> = rigs().into_iter().flat_map(|r| [(r, true), (r, false)]).skip(c.half).step_by(2).collect();
    let lens = vec![5, 4, 7];
    let got: Vec<(Rig, bool, Seen)> = inline(0, || {
        let mut e = eng(c.sr, c.len, 2);
        e.ctx.start();
        forward(&mut e, c.blocks, c.len);
        let mut base = c.blocks * c.len;
        let mut all = vec![];
        for (rig, timed) in scenes {
            let l = Late { rig, timed, way: Way::MadeThen, sr: c.sr, maxf: 64, before: vec![], lens: lens.clone() };
            let mut units = build(rig, e.ctx.as_mut(), c.sr);
            make_calls(&mut units, base, &l);
            all.push((rig, timed, scene(&mut e, &mut units, &lens)));
            base += 16;
            rec.state(&(rig, timed, base));
        }
        all
    });
    for (rig, timed, seen) in got {
        let l = Late { rig, timed, way: Way::MadeThen, sr: c.sr, maxf: 64, before: vec![], lens: lens.clone() };
        agree("from the first frame on", &seen, &first(&l)).map_err(|e| format!("{rig:?}, timed {timed}: {e}"))?;
        rec.exec(&(rig, bits(&seen.0[0])));
    }
    Ok(())
}

fn rigs() -> Vec<Rig> {
    let mut v: Vec<Rig> = KINDS.iter().map(|k| Rig::One(*k)).collect();
    v.extend([Rig::Amid(Kind::Compressor), Rig::Amid(Kind::Convolution), Rig::Row]);
    v
}

pub fn c31(t: Tier) -> Vec<Suite> {
    let rigs = rigs();
    let lens: Vec<Vec<usize>> = vec![vec![16], vec![1; 16], vec![5, 4, 7], vec![3, 13], vec![2, 2, 12]];
    let maxfs = [3usize, 64];
    let near = t.pick(70, 300);
    let powers: Vec<usize> = (7..t.pick(17, 21)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 37]).collect();
    let (r1, l1, r2, l2) = (rigs.clone(), lens.clone(), rigs.clone(), lens.clone());
    let days: Vec<Day> = t
        .pick(vec![(65_539usize, 65_536usize)], vec![(65_539, 65_536), (262_147, 65_536), (32_769, 65_536), (1_048_579, 65_536)])
        .into_iter()
        .flat_map(|(blocks, len)| [512usize, 8192, 65_536].into_iter().flat_map(move |sr| (0..2).map(move |half| Day { sr, blocks, len, half })))
        .collect();
    let n_days = days.len();
    let mut out = vec![
        cases(
            "a little later",
            &format!("every scene (each kind alone, two amid others, all in a row; timed changes, or settings without times; 16 frames in {} partitions) after 1 to {near} frames of silence in single frames or blocks of 7, in whole passes or passes of 3 frames; nodes made then, waiting since the start, or called ahead", lens.len()),
            prod(&[near as u64, 2, 3, r1.len() as u64, 2, l1.len() as u64, 2]),
            move |mut d: D| {
                let base = d.n(near) + 1;
                let before = if d.flag() { vec![(base, 1)] } else { vec![(base / 7, 7), (1, base % 7)] };
                let before = before.into_iter().filter(|(n, len)| n * len > 0).collect();
                let c = Late { before, way: d.of(&WAYS), rig: d.of(&r1), timed: d.flag(), lens: d.of(&l1), maxf: d.of(&maxfs), sr: SR };
                c.sensible().then_some(c)
            },
            late,
        ),
        cases(
            "later",
            &format!("the same scenes after {powers:?} frames in blocks of at most 4096 frames, at rates 512, 8192 and 65 536"),
            prod(&[powers.len() as u64, 3, r2.len() as u64, 2, 2, 3]),
            move |mut d: D| {
                let base = d.of(&powers);
                let way = d.of(&WAYS);
                let rig = d.of(&r2);
                let timed = d.flag();
                let lens = l2[d.n(2) * 2].clone();
                let sr = d.of(&[512usize, 8192, 65_536]);
                let before = vec![(base / 4096, 4096), (1, base % 4096)].into_iter().filter(|(n, len)| n * len > 0).collect();
                // what waits in the graph is processed all along
                if way != Way::MadeThen && base > 1 << 13 {
                    return None;
                }
                let c = Late { before, way, rig, timed, lens, maxf: 4096, sr };
                c.sensible().then_some(c)
            },
            late,
        ),
    ];
    out.push(list("days later", &format!("{n_days} engines that have run for more than 2^32 frames, every scene one after the other"), days, day));
    out
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Block(usize),
    Stop,
    Start,
    Call(usize),
    /// drop the node made last
    Drop,
}

#[derive(Debug, Clone)]
struct Word {
    rig: Rig,
    v: usize,
    sr: usize,
    ops: Vec<Op>,
}

fn play(c: &Word, ops: &[Op], rec: &mut Option<&mut Rec>) -> Result<Seen, String> {
    inline(0, || {
        let mut e = eng(c.sr, 4, 2);
        let mut units = build(c.rig, e.ctx.as_mut(), c.sr);
        let mut values: Vec<Vec<f64>> = units.iter().map(|_| vec![]).collect();
        let mut out = vec![vec![]; 2];
        let (mut running, mut now, mut calls) = (true, 0, 0);
        // a word that starts with Stop is one whose engine has not been started yet
        if ops.first() == Some(&Op::Stop) {
            running = false;
        } else {
            e.ctx.start();
        }
        let input = rough(64, 2);
        let tail = [Op::Start, Op::Block(4), Op::Block(3), Op::Block(9)];
        for op in ops.iter().chain(&tail) {
            match *op {
                Op::Start => {
                    e.ctx.start();
                    running = true;
                }
                Op::Stop if now > 0 || running => {
                    e.ctx.stop();
                    running = false;
                }
                Op::Stop => running = false,
                Op::Call(k) => {
                    for u in &mut units {
                        u.call(c.v + calls % 2, k, now, c.sr);
                    }
                    calls += 1;
                }
                Op::Drop => drop(units.pop()),
                Op::Block(n) if running => {
                    let part: Chans = input.iter().map(|x| x[now..now + n].to_vec()).collect();
                    for (o, p) in out.iter_mut().zip(e.block(&part, 2)) {
                        o.extend(p);
                    }
                    now += n;
                    e.ctx.process_notifications();
                    for (u, v) in units.iter_mut().zip(&mut values) {
                        v.extend(u.observe());
                    }
                }
                Op::Block(n) => {
                    let o = e.block(&[vec![0.75; n], vec![-0.5; n]], 2);
                    same_all("output while stopped", &o, &vec![vec![0.0; n]; 2], 0.0)?;
                    e.ctx.process_notifications();
                }
            }
            if let Some(rec) = rec {
                rec.state(&(c.rig, c.v, now, calls, running, units.len()));
            }
        }
        Ok((out, values))
    })
}

type PKey = (Rig, usize, usize, Vec<Op>);
static STRAIGHT: Mutex<Option<HashMap<PKey, Arc<Seen>>>> = Mutex::new(None);

fn pause(c: &Word, rec: &mut Rec) -> Check {
    let mut running = true;
    let mut plain = vec![];
    for op in &c.ops {
        match op {
            Op::Stop => running = false,
            Op::Start => running = true,
            Op::Block(_) if !running => (),
            _ => plain.push(*op),
        }
    }
    let key = (c.rig, c.v, c.sr, plain.clone());
    let kept = STRAIGHT.lock().unwrap().get_or_insert_with(HashMap::new).get(&key).cloned();
    let want = match kept {
        Some(w) => w,
        None => {
            let r = Arc::new(play(c, &plain, &mut None)?);
            STRAIGHT.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&r));
            r
        }
    };
    let got = play(c, &c.ops, &mut Some(rec))?;
    agree("without pauses", &got, &want)?;
    rec.exec(&(c.rig, bits(&got.0[0])));
    Ok(())
}

pub fn c32(t: Tier) -> Vec<Suite> {
    let letters = [Op::Block(3), Op::Stop, Op::Block(5), Op::Start, Op::Call(0), Op::Call(1), Op::Call(2)];
    let few = [Op::Block(5), Op::Stop, Op::Start, Op::Call(0), Op::Call(1), Op::Drop];
    let deep = t.pick(5, 6);
    let mut singles: Vec<Rig> = KINDS.iter().map(|k| Rig::One(*k)).collect();
    singles.push(Rig::Row);
    let amid: Vec<Rig> = KINDS.iter().map(|k| Rig::Amid(*k)).chain([Rig::Row]).collect();
    let rates = [SR, 44_100];
    vec![
        cases(
            "pauses",
            &format!("each kind of node alone and all in a row, rates {rates:?}, every word up to {deep} of {letters:?} with a block while stopped; each against the word without its pauses"),
            prod(&[words(letters.len(), deep), singles.len() as u64, 2]),
            move |mut d: D| {
                let ops: Vec<Op> = d.word_upto(letters.len(), deep).into_iter().map(|i| letters[i]).collect();
                let (rig, sr) = (d.of(&singles), d.of(&rates));
                (ops.contains(&Op::Stop) && !pointless(&ops)).then_some(Word { rig, v: 0, sr, ops })
            },
            pause,
        ),
        cases(
            "pauses amid others",
            &format!("each kind of node amid others and all in a row, every word up to {deep} of {few:?}"),
            prod(&[words(few.len(), deep), amid.len() as u64]),
            move |mut d: D| {
                let ops: Vec<Op> = d.word_upto(few.len(), deep).into_iter().map(|i| few[i]).collect();
                let rig = d.of(&amid);
                (ops.contains(&Op::Stop) && !pointless(&ops)).then_some(Word { rig, v: 1, sr: SR, ops })
            },
            pause,
        ),
    ]
}

/// Without a block or call while stopped, or ending before anything is resumed.
fn pointless(ops: &[Op]) -> bool {
    let mut running = true;
    !ops.iter().any(|o| match o {
        Op::Stop => {
            running = false;
            false
        }
        Op::Start => {
            running = true;
            false
        }
        Op::Block(_) => !running,
        _ => false,
    })
}
