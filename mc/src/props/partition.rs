//! C03: the output does not depend on how the frames are cut into blocks.

use super::rigs::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Rig {
    One(Kind),
    /// The kind between a sampler and oscillator mixed at its input, and a gain, meter and recorder behind it.
    Amid(Kind),
    /// All kinds in a row.
    Row,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Script {
    /// timed changes all along
    Timed,
    /// settings without times
    Settings,
}

#[derive(Debug, Clone)]
struct Case {
    rig: Rig,
    script: Script,
    sr: usize,
    maxf: usize,
    lens: Vec<usize>,
}

pub fn build(rig: Rig, ctx: &mut dyn Context, sr: usize) -> Vec<Unit> {
    let mut make = |k: Kind| Unit::make(k, ctx, sr);
    match rig {
        Rig::One(k) => {
            let u = make(k);
            u.to_output();
            if !k.source() {
                u.from_input();
            }
            vec![u]
        }
        Rig::Amid(k) => {
            let v = vec![make(Kind::Gain), make(Kind::Sampler), make(Kind::Oscillator), make(k), make(Kind::Gain), make(Kind::Envelope), make(Kind::Recorder)];
            v[0].from_input();
            for s in 0..3 {
                v[3].node(&mut |n| v[s].connect_to(n));
            }
            if k.passes() || k.source() {
                v[4].node(&mut |n| v[3].connect_to(n));
            }
            v[5].node(&mut |n| v[4].connect_to(n));
            v[6].node(&mut |n| v[4].connect_to(n));
            if !k.passes() {
                for s in 0..3 {
                    v[4].node(&mut |n| v[s].connect_to(n));
                }
            }
            v[4].to_output();
            v
        }
        Rig::Row => {
            let row = [
                Kind::Gain,
                Kind::Waveshaper,
                Kind::Biquad,
                Kind::Compressor,
                Kind::Convolution,
                Kind::Mixer,
                Kind::Pan,
                Kind::Adsr,
                Kind::Envelope,
                Kind::Recorder,
            ];
            let mut v: Vec<Unit> = row.iter().map(|k| make(*k)).collect();
            v[0].from_input();
            for i in 1..v.len() {
                v[i].node(&mut |n| v[(i - 1).min(7)].connect_to(n));
            }
            v[7].to_output();
            for k in [Kind::Oscillator, Kind::Sampler] {
                let s = make(k);
                v[2].node(&mut |n| s.connect_to(n));
                v.push(s);
            }
            v
        }
    }
}

type Seen = (Chans, Vec<Vec<f64>>);

fn execute(rig: Rig, script: Script, sr: usize, maxf: usize, lens: &[usize]) -> Seen {
    inline(0, || {
        let n: usize = lens.iter().sum();
        let mut e = eng(sr, maxf, 2);
        let mut units = build(rig, e.ctx.as_mut(), sr);
        for u in &mut units {
            match script {
                Script::Timed => u.schedule(n, sr),
                Script::Settings => u.settings(sr),
            }
        }
        e.ctx.start();
        let out = e.blocks(&rough(n, 2), lens, 2);
        e.ctx.process_notifications();
        let seen = units.iter_mut().map(|u| u.observe()).collect();
        (out, seen)
    })
}

type Key = (Rig, Script, usize, usize, usize);
static WHOLE: Mutex<Option<HashMap<Key, Arc<Seen>>>> = Mutex::new(None);

/// An execution that is kept; the blocks have the same lengths whenever the key is the same.
fn kept(rig: Rig, script: Script, sr: usize, maxf: usize, lens: &[usize]) -> Arc<Seen> {
    let key = (rig, script, sr, maxf, lens.len());
    if let Some(r) = WHOLE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Arc::clone(r);
    }
    let r = Arc::new(execute(rig, script, sr, maxf, lens));
    WHOLE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&r));
    r
}

/// The execution in one block.
fn whole(c: &Case) -> Arc<Seen> {
    let n: usize = c.lens.iter().sum();
    kept(c.rig, c.script, c.sr, n, &[n])
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    let want = whole(c);
    let got = execute(c.rig, c.script, c.sr, c.maxf, &c.lens);
    same_all("output", &got.0, &want.0, 2e-5)?;
    for (i, (g, w)) in got.1.iter().zip(&want.1).enumerate() {
        ensure!(g.len() == w.len(), "unit {i}: read {g:?}, in one block {w:?}");
        for (a, b) in g.iter().zip(w) {
            ensure!((a - b).abs() <= 2e-5 * (1.0 + b.abs()), "unit {i}: read {g:?}, in one block {w:?}");
        }
    }
    // a state: rig and the frame reached
    let mut at = 0;
    for l in &c.lens {
        at += l;
        rec.state(&(c.rig, c.sr, c.script, at, c.maxf));
    }
    rec.exec(&(c.rig, bits(&got.0[0])));
    Ok(())
}

fn rigs() -> Vec<Rig> {
    let mut v: Vec<Rig> = KINDS.iter().map(|k| Rig::One(*k)).collect();
    v.extend(KINDS.iter().map(|k| Rig::Amid(*k)));
    v.push(Rig::Row);
    v
}

pub fn c03(t: Tier) -> Vec<Suite> {
    let n = t.pick(9, 12);
    let small: Vec<usize> = t.pick(vec![1, 2, 3, 9], (1..=12).collect());
    let rigs = rigs();
    let mut out = vec![];
    for (sr, script, label) in [(SR, Script::Timed, "timed"), (SR, Script::Settings, "settings"), (44_100, Script::Settings, "settings at 44100")] {
        let (rigs, small) = (rigs.clone(), small.clone());
        out.push(cases(
            &format!("every partition, {label}"),
            &format!("every composition of {n} frames into blocks; maximum frame counts {small:?}; each of 12 kinds alone, amid others, and all in a row; rate {sr}"),
            prod(&[1 << (n - 1), small.len() as u64, rigs.len() as u64]),
            move |mut d: D| Some(Case { lens: d.composition(n), maxf: d.of(&small), rig: d.of(&rigs), script, sr }),
            run,
        ));
    }
    // long blocks: two cuts anywhere
    let cuts = t.pick(36, 70);
    let long: Vec<usize> = t.pick(vec![1, 16, 17, 64, 256], vec![1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 200, 256, 512]);
    let total = 200;
    for (sr, script, label) in [(SR, Script::Timed, "timed"), (44_100, Script::Settings, "settings at 44100")] {
        let (rigs, long) = (rigs.clone(), long.clone());
        out.push(cases(
            &format!("long blocks, {label}"),
            &format!("{total} frames in blocks of one length from 1 to {cuts}, or in three blocks the first two of which have every length up to {cuts} and 1, 16, 17 or 64; maximum frame counts {long:?}; each of 12 kinds alone, amid others, and all in a row; rate {sr}"),
            prod(&[cuts as u64, 5, long.len() as u64, rigs.len() as u64]),
            move |mut d: D| {
                let a = d.n(cuts) + 1;
                let k = d.n(5);
                let lens = if k == 0 {
                    let mut v = vec![a; total / a];
                    if total % a > 0 {
                        v.push(total % a);
                    }
                    v
                } else {
                    let b = [1, 16, 17, 64][k - 1];
                    vec![a, b, total - a - b]
                };
                Some(Case { lens, maxf: d.of(&long), rig: d.of(&rigs), script, sr })
            },
            run,
        ));
    }
    out
}

#[derive(Debug, Clone)]
struct Placed {
    rig: Rig,
    script: Script,
    frames: usize,
    len: usize,
    digits: u64,
}

/// Where in memory the samples, settings and working buffers lie makes no difference.
pub fn placed(t: Tier, rigs: &[Rig]) -> Vec<Suite> {
    let rigs = rigs.to_vec();
    let frames: Vec<usize> = t.pick(vec![37, 64], vec![16, 23, 37, 50, 64, 100]);
    // patterns of three, four and, thorough, five blocks
    let most = t.pick(4, 5);
    let patterns: u64 = (3..=most).map(|k| 1u64 << (2 * k)).sum();
    vec![cases(
        "anywhere in memory",
        &format!("blocks of memory 0, 16, 32 or 48 bytes beyond a multiple of 64, in every pattern repeated after 3 to {most} blocks; two blocks of {frames:?} frames; {} arrangements of nodes", rigs.len()),
        prod(&[patterns, frames.len() as u64, 2, rigs.len() as u64]),
        move |mut d: D| {
            let rig = d.of(&rigs);
            let script = if d.flag() { Script::Timed } else { Script::Settings };
            let frames = d.of(&frames);
            let mut digits = d.0;
            let mut len = 3;
            while digits >= 1 << (2 * len) {
                digits -= 1 << (2 * len);
                len += 1;
            }
            Some(Placed { rig, script, frames, len, digits })
        },
        |c: &Placed, rec: &mut Rec| {
            let lens = [c.frames, c.frames];
            let want = kept(c.rig, c.script, SR, c.frames, &lens);
            let got = crate::alloc::placed(c.len, c.digits, || execute(c.rig, c.script, SR, c.frames, &lens));
            same_all("output, compared to that from aligned memory", &got.0, &want.0, 0.0)?;
            ensure!(got.1 == want.1, "read {:?}, from aligned memory {:?}", got.1, want.1);
            rec.state(&(c.rig, c.frames, c.len, c.digits));
            rec.exec(&(c.rig, bits(&got.0[0])));
            Ok(())
        },
    )]
}
