//! The effects against reference models. C13 ADSR, C15 envelope meter, C18 oscillator, C19 convolution, C20 biquad,
//! C21 compressor, C22 waveshaper, C23 gain, pan and mixer.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::BTreeSet;
use std::time::Duration;

/// A few ways of cutting `frames` frames into blocks.
pub fn splits(k: usize, frames: usize) -> Vec<usize> {
    let pat: &[usize] = match k {
        0 => &[usize::MAX],
        1 => &[1],
        2 => &[3],
        3 => &[2, 1, 4],
        _ => &[5, 1],
    };
    let (mut v, mut left) = (vec![], frames);
    for i in 0.. {
        if left == 0 {
            break;
        }
        let l = pat[i % pat.len()].min(left);
        v.push(l);
        left -= l;
    }
    v
}

/// A deterministic test signal: different in every frame and channel, within [-1, 1], exactly representable.
pub fn signal(frames: usize, channels: usize) -> Chans {
    (0..channels)
        .map(|c| {
            (0..frames)
                .map(|f| {
                    let x = (f as u32 * 37 + c as u32 * 101 + 11) * 2654435761u32.wrapping_shr(20);
                    ((x % 257) as f32 - 128.0) / 128.0
                })
                .collect()
        })
        .collect()
}

/// Values of a stepwise automated parameter.
#[derive(Debug, Clone, Default)]
pub struct Steps(pub Vec<(usize, f64)>);
impl Steps {
    pub fn at(&self, default: f64, f: usize) -> f64 {
        self.0.iter().rev().find(|s| s.0 <= f).map_or(default, |s| s.1)
    }
    pub fn send(&self, p: &mut AudioParameter, sr: usize) {
        for (f, v) in &self.0 {
            p.set_value_at_time(*v, t_samples(*f as f64, sr));
        }
    }
}

/// Values close to the ones that are easily treated as special, on both sides.
fn around(marks: &[f64], powers: std::ops::RangeInclusive<i32>) -> Vec<f64> {
    let mut v = Vec::new();
    for m in marks {
        v.push(*m);
        for k in powers.clone() {
            v.extend([m - 2f64.powi(-k), m + 2f64.powi(-k)]);
        }
    }
    v
}

/// A signal times a level.
fn scaled(s: Chans, level: f32) -> Chans {
    s.into_iter().map(|c| c.into_iter().map(|x| x * level).collect()).collect()
}

/// A setting at every frame.
fn every(d: &mut D, values: &[f64], len: usize) -> Steps {
    Steps((0..len).map(|f| (f, d.of(values))).collect())
}

// ---------------------------------------------------------------------------------------------------------------- ADSR

const SR: usize = 64;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Note {
    On,
    Off,
    /// times in half frames
    Attack(u32),
    Decay(u32),
    /// in quarters
    Sustain(u32),
    /// the same, of any size
    Level(f64),
    Release(u32),
}

#[derive(Debug, Clone)]
pub struct AdsrCase {
    /// (time in half frames, note), submitted in this order before the first block
    pub first: Vec<(usize, Note)>,
    /// settings submitted before the given frame
    pub later: Vec<(usize, Note)>,
    pub lens: Vec<usize>,
    pub maxf: usize,
    pub chans: usize,
}

fn half_frames(h: u32) -> Duration {
    Duration::from_secs_f64(h as f64 / 2.0 / SR as f64)
}

/// The envelope: exponential segments that overshoot their goal by a tenth of the range and are cut off at it.
struct Env {
    phase: u8, // 0 idle, 1 attack, 2 decay, 3 sustain, 4 release
    level: f64,
    a: f64,
    d: f64,
    s: f64,
    r: f64,
    from: f64,
    /// the level at a threshold is a matter of rounding
    ambiguous: bool,
}
impl Env {
    fn new() -> Self {
        Self { phase: 0, level: 0.0, a: 0.0, d: 0.0, s: 1.0, r: 0.0, from: 1.0, ambiguous: false }
    }
    fn set(&mut self, n: Note) {
        match n {
            Note::On => self.phase = 1,
            Note::Off => {
                if self.phase != 0 && self.phase != 4 {
                    self.phase = 4;
                    self.from = self.level;
                }
            }
            Note::Attack(h) => self.a = h as f64 / 2.0,
            Note::Decay(h) => self.d = h as f64 / 2.0,
            Note::Sustain(q) => self.s = q as f64 / 4.0,
            Note::Level(l) => self.s = l,
            Note::Release(h) => self.r = h as f64 / 2.0,
        }
    }
    /// One frame of a segment that takes `frames` frames from `from` to `to`, towards a tenth beyond it.
    fn step(level: f64, frames: f64, from: f64, to: f64, beyond: f64) -> f64 {
        if frames <= 0.0 {
            return beyond;
        }
        let c = ((beyond - to) / (beyond - from)).powf(1.0 / frames);
        beyond + c * (level - beyond)
    }
    fn frame(&mut self) -> f64 {
        let mut near = |x: f64, goal: f64| {
            // an exact landing on the goal is only ambiguous when it is not already there
            if (x - goal).abs() < 1e-9 {
                self.ambiguous = true;
            }
            x
        };
        match self.phase {
            0 => self.level = 0.0,
            1 => {
                let x = near(Self::step(self.level, self.a, 0.0, 1.0, 1.1), 1.0);
                self.level = x.min(1.0);
                if x >= 1.0 - 1e-12 {
                    self.phase = 2;
                }
            }
            2 => {
                let x = if self.s < 1.0 { near(Self::step(self.level, self.d, 1.0, self.s, -0.1), self.s) } else { self.s };
                self.level = x.max(self.s);
                if x <= self.s + 1e-12 {
                    self.phase = 3;
                }
            }
            3 => self.level = self.s,
            _ => {
                let x = if self.from > 0.0 { near(Self::step(self.level, self.r, self.from, 0.0, -0.1), 0.0) } else { 0.0 };
                self.level = x.max(0.0);
                if x <= 1e-12 {
                    self.phase = 0;
                }
            }
        }
        self.level
    }
}

pub fn adsr(c: &AdsrCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    // model
    let mut m = Env::new();
    let mut pending: Vec<(usize, Note)> = c.first.clone();
    let starts: BTreeSet<usize> = c.lens.iter().scan(0, |a, l| { let s = *a; *a += l; Some(s) }).collect();
    let mut want = Vec::new();
    for f in 0..frames {
        if starts.contains(&f) {
            for (_, n) in c.later.iter().filter(|x| x.0 == f) {
                pending.push((0, *n));
            }
        }
        pending.sort_by_key(|p| p.0);
        while pending.first().is_some_and(|p| p.0 / 2 <= f) {
            m.set(pending.remove(0).1);
        }
        want.push(m.frame() as f32);
        if m.ambiguous {
            return Ok(());
        }
        rec.state(&(m.phase, m.level.to_bits(), m.a.to_bits(), m.d.to_bits(), m.s.to_bits(), m.r.to_bits()));
    }
    inline(0, || {
        let mut e = eng(SR, c.maxf, c.chans);
        let mut a = Adsr::new(e.ctx.as_ref(), c.chans, SR);
        a.node.connect_to_input();
        a.node.connect_to_output();
        e.ctx.start();
        let submit = |a: &mut Adsr, h: usize, n: Note| {
            let t = t_samples(h as f64 / 2.0, SR);
            match n {
                Note::On => a.note_on_at_time(t),
                Note::Off => a.note_off_at_time(t),
                Note::Attack(h) => a.set_attack_time(half_frames(h)),
                Note::Decay(h) => a.set_decay_time(half_frames(h)),
                Note::Sustain(q) => a.set_sustain_level(Level::from_linear(q as f64 / 4.0)),
                Note::Level(l) => a.set_sustain_level(Level::from_linear(l)),
                Note::Release(h) => a.set_release_time(half_frames(h)),
            }
        };
        for (h, n) in &c.first {
            submit(&mut a, *h, *n);
        }
        let input: Chans = (0..c.chans).map(|ch| (0..frames).map(|f| (1 + (f % 3) + 4 * ch) as f32).collect()).collect();
        let (mut at, mut got) = (0, vec![Vec::new(); c.chans]);
        for l in &c.lens {
            for (_, n) in c.later.iter().filter(|x| x.0 == at) {
                submit(&mut a, 0, *n);
            }
            let part: Chans = input.iter().map(|x| x[at..at + l].to_vec()).collect();
            for (g, o) in got.iter_mut().zip(e.block(&part, c.chans)) {
                g.extend(o);
            }
            at += l;
        }
        let want: Chans = input.iter().map(|x| x.iter().zip(&want).map(|(x, w)| x * w).collect()).collect();
        same_all("output", &got, &want, 1e-5)?;
        rec.exec(&bits(&got[0]));
        Ok(())
    })
}

pub fn c13(t: Tier) -> Vec<Suite> {
    let times = [0u32, 3, 7];
    let sustains = [0u32, 2, 4];
    let gaps = [0usize, 1, 2, 4, 9];
    let k = t.pick(3, 4);
    let parts = t.pick(1, 4);
    let conf = |d: &mut D, times: &[u32], sustains: &[u32]| -> Vec<(usize, Note)> {
        vec![
            (0, Note::Attack(d.of(times))),
            (0, Note::Decay(d.of(times))),
            (0, Note::Sustain(d.of(sustains))),
            (0, Note::Release(d.of(times))),
        ]
    };
    let n = 81 * pow(gaps.len() * 2, k) * parts;
    let sets: Vec<Note> = times
        .iter()
        .flat_map(|h| [Note::Attack(*h), Note::Decay(*h), Note::Release(*h)])
        .chain(sustains.iter().map(|q| Note::Sustain(*q)))
        .collect();
    let sets2 = sets.clone();
    let kinds = sets.len();
    let lats = [1usize, 4, 7];
    let offs = [6usize, 12, 13];
    let few: &[u32] = t.pick(&[0, 7], &[0, 3, 7]);
    let levels: &[u32] = t.pick(&[0, 2], &[0, 2, 4]);
    let m = pow(few.len(), 3) * levels.len() as u64 * (2 * offs.len() * kinds * 3 * kinds * 3) as u64;
    vec![
        cases(
            "note sequences",
            &format!("attack, decay, release in {times:?} half frames, sustain in {sustains:?} quarters; every sequence of {k} notes on and off with gaps {gaps:?} half frames; {parts} block partitions of 24 frames"),
            n,
            move |mut d: D| {
                let p = if parts == 1 { 3 } else { d.n(parts as usize) };
                let mut first = conf(&mut d, &times, &sustains);
                let mut at = 0;
                for _ in 0..k {
                    at += d.of(&gaps);
                    first.push((at, if d.flag() { Note::Off } else { Note::On }));
                }
                Some(AdsrCase { first, later: vec![], lens: splits(p, 24), maxf: 16, chans: 1 })
            },
            adsr,
        ),
        cases(
            "settings changed while playing",
            &format!("attack, decay, release in {few:?} half frames, sustain in {levels:?} quarters, a note on at 0 and off at {offs:?} half frames, two settings out of {sets:?} changed before frames {lats:?}, blocks of 1 frame, one or two channels"),
            m,
            move |mut d: D| {
                let chans = 1 + d.n(2);
                let off = d.of(&offs);
                let later: Vec<(usize, Note)> = (0..2).map(|_| (d.of(&lats), sets2[d.n(kinds)])).collect();
                if later[0].0 > later[1].0 {
                    return None;
                }
                let mut first = conf(&mut d, few, levels);
                first.push((0, Note::On));
                first.push((off, Note::Off));
                Some(AdsrCase { first, later, lens: splits(1, 20), maxf: 4, chans })
            },
            adsr,
        ),
        {
            let times = t.pick(vec![0u32, 1, 201, 4001], vec![0, 1, 9, 201, 4001, 20001]);
            let levels = t.pick(vec![0.0f64, 2f64.powi(-20), 2f64.powi(-10), 0.1, 0.5, 0.9, 1.0 - 2f64.powi(-10), 1.0], around(&[0.0, 0.5, 1.0], 3..=24).into_iter().filter(|l| (0.0..=1.0).contains(l)).collect());
            let gates = t.pick(vec![90usize, 1501], vec![1, 90, 1501, 12001]);
            cases(
                "long phases",
                &format!("attack, decay and release each in {times:?} half frames, {} sustain levels from 0 to 1, some of them very close to either; a gate of {gates:?} half frames, and another one before the first has quite died away or after; blocks of 100 frames", levels.len()),
                prod(&[pow(times.len(), 3), levels.len() as u64, gates.len() as u64, 2]),
                move |mut d: D| {
                    let (a, dc, r) = (d.of(&times), d.of(&times), d.of(&times));
                    let (s, g) = (d.of(&levels), d.of(&gates));
                    let end = g + r as usize;
                    let again = if d.flag() { end + 40 } else { g + r as usize * 15 / 16 + 1 };
                    let first = vec![
                        (0, Note::Attack(a)),
                        (0, Note::Decay(dc)),
                        (0, Note::Level(s)),
                        (0, Note::Release(r)),
                        (1, Note::On),
                        (g, Note::Off),
                        (again, Note::On),
                        (again + 60, Note::Off),
                    ];
                    let frames = (again + 60) / 2 + 150;
                    Some(AdsrCase { first, later: vec![], lens: vec![100; frames / 100 + 1], maxf: 128, chans: 1 })
                },
                adsr,
            )
        },
    ]
}

// -------------------------------------------------------------------------------------------------------- envelope meter

#[derive(Debug, Clone)]
struct MeterCase {
    sr: usize,
    attack: f64,
    release: f64,
    /// notification interval in quarter frames
    interval: usize,
    /// one word of sample values per channel
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
    /// read the notifications after every so many blocks
    read_every: usize,
}

#[derive(Clone)]
pub struct Follower {
    pub level: f64,
}
impl Follower {
    pub fn step(&mut self, x: f32, sr: usize, attack: f64, release: f64) -> f64 {
        let x = x.abs() as f64;
        let time = if x > self.level { attack } else { release };
        let keep = if time <= 0.0 { 0.0 } else { (-1.0 / (time * sr as f64)).exp() };
        self.level = keep * self.level + (1.0 - keep) * x;
        self.level
    }
}

fn meter(c: &MeterCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    let chans = c.input.len();
    let loudest = c.input.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs() as f64));
    let mut want: Vec<(usize, f64)> = Vec::new();
    let (mut fol, mut peak) = (vec![Follower { level: 0.0 }; chans], vec![0.0f64; chans]);
    let mut next = 1;
    for f in 0..frames {
        for ch in 0..chans {
            peak[ch] = peak[ch].max(fol[ch].step(c.input[ch][f], c.sr, c.attack, c.release));
        }
        if 4 * (f + 1) >= next * c.interval {
            for (ch, p) in peak.iter_mut().enumerate() {
                want.push((ch, *p));
                *p = 0.0;
            }
            next = 4 * (f + 1) / c.interval + 1;
        }
        rec.state(&(fol.iter().map(|x| (x.level as f32).to_bits()).collect::<Vec<_>>(), next * c.interval - 4 * (f + 1)));
    }
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, chans);
        let freq = c.sr as f64 * 4.0 / c.interval as f64;
        let meter = Envelope::new(
            e.ctx.as_mut(),
            chans,
            Duration::from_secs_f64(c.attack),
            Duration::from_secs_f64(c.release),
            freq,
        );
        meter.borrow().node.connect_to_input();
        meter.borrow().node.connect_to_output();
        e.ctx.start();
        let mut got = Vec::new();
        let mut at = 0;
        for (i, l) in c.lens.iter().enumerate() {
            let part: Chans = c.input.iter().map(|x| x[at..at + l].to_vec()).collect();
            e.block(&part, chans);
            at += l;
            if (i + 1) % c.read_every == 0 || i + 1 == c.lens.len() {
                e.ctx.process_notifications();
                got.extend(meter.borrow_mut().take_notifications());
            }
        }
        ensure!(meter.borrow_mut().take_notifications().is_empty(), "a notification was delivered twice");
        ensure!(got.len() == want.len(), "{} notifications instead of {} over {frames} frames", got.len(), want.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!(g.channel_index() == w.0, "notification {i} is for channel {}, expected {}", g.channel_index(), w.0);
            // as exact for a quiet signal as for a loud one; single precision limits long times
            let slow = c.attack.max(c.release) * c.sr as f64 > 100.0;
            let tol = if slow { 5e-3 } else { 1e-5 } * loudest;
            ensure!((g.peak_level() as f64 - w.1).abs() <= tol, "notification {i} has level {}, expected {}", g.peak_level(), w.1);
        }
        rec.exec(&got.iter().map(|g| (g.channel_index(), g.peak_level().to_bits())).collect::<Vec<_>>());
        Ok(())
    })
}

pub fn c15(t: Tier) -> Vec<Suite> {
    let times: &'static [(f64, f64)] = &[(0.0, 0.0), (0.01, 0.05), (0.0, 0.1), (0.1, 0.0)];
    let intervals = [2usize, 4, 6, 8, 12, 16, 17, 30];
    let alphabet = [0.0f32, 1.0, -0.5, 0.25];
    let len = t.pick(5, 7);
    let maxfs = [1usize, 2, 8];
    let n = pow(alphabet.len(), len) * 4 * intervals.len() as u64 * 3 * 3;
    let chan_words = pow(3, 8);
    vec![
        cases(
            "levels",
            &format!("every word of {len} samples over {alphabet:?} followed by silence, (attack, release) in {times:?} s, notification every {intervals:?} quarter frames, 3 block partitions, at most {maxfs:?} frames per pass"),
            n,
            move |mut d: D| {
                let (attack, release) = d.of(times);
                let interval = d.of(&intervals);
                let lens = splits([0, 1, 3][d.n(3)], len + 4);
                let maxf = d.of(&maxfs);
                let mut w: Vec<f32> = d.word(alphabet.len(), len).into_iter().map(|i| alphabet[i]).collect();
                w.extend([0.0; 4]);
                Some(MeterCase { sr: SR, attack, release, interval, input: vec![w], lens, maxf, read_every: 1 })
            },
            meter,
        ),
        cases(
            "channels",
            "1 to 4 channels; every pattern of {0, 1, -0.5} over 4 frames on the first and the last of them, another constant on each of the others; notification every 4, 6 or 12 quarter frames; read after every block or at the end",
            chan_words * 4 * 3 * 2 * 2,
            move |mut d: D| {
                let n = 1 + d.n(4);
                let interval = [4usize, 6, 12][d.n(3)];
                let read_every = [1, 100][d.n(2)];
                let lens = splits([0, 3][d.n(2)], 4);
                let v = [0.0f32, 1.0, -0.5];
                let a: Vec<f32> = d.word(3, 4).into_iter().map(|i| v[i]).collect();
                let b: Vec<f32> = d.word(3, 4).into_iter().map(|i| v[i]).collect();
                if n == 1 && b.iter().any(|x| *x != 0.0) {
                    return None;
                }
                let input = (0..n)
                    .map(|i| if i == 0 { a.clone() } else if i == n - 1 { b.clone() } else { vec![0.125 * i as f32; 4] })
                    .collect();
                Some(MeterCase { sr: SR, attack: 0.01, release: 0.03, interval, input, lens, maxf: 4, read_every })
            },
            meter,
        ),
        {
            let scales = [1e-9f32, 1e-6, 1e-4, 1e-2, 1.0, 10.0, 1e4];
            let times: &'static [(f64, f64)] = &[(0.0, 0.0), (0.0001, 0.002), (0.0015, 0.3), (0.01, 0.1), (0.5, 3.0)];
            let rates = [8_000usize, 44_100, 48_000];
            let hz = [10.0f64, 60.0, 997.0];
            let long = t.pick(3_000, 20_000);
            cases(
                "ordinary rates",
                &format!("noise, a burst or a constant of {scales:?} times full scale; (attack, release) in {times:?} s; {rates:?} Hz with about {hz:?} notifications a second; {long} frames in blocks of 64 or 441"),
                prod(&[scales.len() as u64, 3, times.len() as u64, 3, 3, 2]),
                move |mut d: D| {
                    let scale = d.of(&scales);
                    let shape = d.n(3);
                    let (attack, release) = d.of(times);
                    let sr = d.of(&rates);
                    // in whole quarters of a frame
                    let interval = (sr as f64 * 4.0 / d.of(&hz)).round() as usize;
                    let b = [64usize, 441][d.n(2)];
                    let noise = signal(long, 1).remove(0);
                    let x = (0..long).map(|i| scale * [noise[i], if i < long / 3 { noise[i] } else { 0.0 }, -1.0][shape]).collect();
                    Some(MeterCase { sr, attack, release, interval, input: vec![x], lens: vec![b; long / b], maxf: 512, read_every: 1 })
                },
                meter,
            )
        },
    ]
}

// ------------------------------------------------------------------------------------------------------------ oscillator

#[derive(Debug, Clone)]
enum Wave {
    Table(Vec<f64>),
    Sine,
    Harmonics(Vec<f64>),
}
#[derive(Debug, Clone)]
struct OscCase {
    sr: usize,
    wave: Wave,
    start: f64,
    freq: Steps,
    gain: Steps,
    lens: Vec<usize>,
    maxf: usize,
    outs: usize,
}

fn osc(c: &OscCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    // position as cycles, kept exact enough: the increments are those of single precision frequency values
    let mut phase = 0.0f64;
    let mut want = Vec::new();
    for f in 0..frames {
        let freq = c.freq.at(c.start, f).clamp(20.0, 20_000.0) as f32 as f64;
        phase += freq / c.sr as f64;
        phase -= phase.floor();
        let v = match &c.wave {
            Wave::Table(t) => {
                let x = phase * t.len() as f64;
                let i = x.floor() as usize % t.len();
                let w = x - x.floor();
                t[i] * (1.0 - w) + t[(i + 1) % t.len()] * w
            }
            Wave::Sine => (std::f64::consts::TAU * phase).sin(),
            Wave::Harmonics(h) => h.iter().enumerate().map(|(i, l)| l * (std::f64::consts::TAU * phase * (i + 1) as f64).sin()).sum(),
        };
        want.push((v * c.gain.at(1.0, f)) as f32);
        rec.state(&((phase * 1e6).round() as i64, c.freq.at(c.start, f).to_bits()));
    }
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, c.outs);
        let mut o = match &c.wave {
            Wave::Table(t) => Oscillator::new(e.ctx.as_ref(), c.start, c.outs, t.clone()),
            Wave::Sine => Oscillator::sine(e.ctx.as_ref(), c.start, c.outs),
            Wave::Harmonics(h) => {
                let l: Vec<Level> = h.iter().map(|x| Level::from_linear(*x)).collect();
                Oscillator::with_harmonics(e.ctx.as_ref(), c.start, c.outs, &l)
            }
        };
        o.node.connect_to_output();
        c.freq.send(o.frequency(), c.sr);
        c.gain.send(o.gain(), c.sr);
        e.ctx.start();
        let got = e.blocks(&[vec![0.5; frames]], &c.lens, c.outs);
        for (ch, g) in got.iter().enumerate() {
            same(&format!("channel {ch}"), g, &want, 2e-5)?;
        }
        rec.exec(&bits(&got[0]));
        Ok(())
    })
}

pub fn c18(t: Tier) -> Vec<Suite> {
    let tables: &'static [&'static [f64]] = &[&[0.0, 1.0, -1.0], &[1.0, 0.0, 0.0, -0.5], &[0.0, 1.0, 0.0, -1.0, 0.5], &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]];
    let freqs = [20.0f64, 64.0, 100.0, 256.0, 300.5, 341.0, 1000.0, 1024.0, 1500.0, 20_000.0, 5.0, 25_000.0];
    let k = t.pick(2, 3);
    let n = tables.len() as u64 * freqs.len() as u64 * pow(freqs.len(), k) * 4 * 3;
    let rates = [8_000usize, 44_100, 48_000];
    let hz = [20.0f64, 55.5, 440.0, 997.0, 4_000.0, 12_345.6, 20_000.0];
    let long = t.pick(3_000, 40_000);
    vec![
        cases(
            "frequency changes",
            &format!("wavetables {tables:?}, start frequency and {k} changes, each over {freqs:?} Hz at 1024 Hz, at frames 3, 4 and 9; gain 1, 0.5 from frame 2, -2 from frame 5; 4 block partitions of 16 frames; 1 to 3 channels"),
            n,
            move |mut d: D| {
                let wave = Wave::Table(d.of(tables).to_vec());
                let start = d.of(&freqs).clamp(20.0, 20_000.0);
                let freq = Steps((0..k).map(|i| ([3, 4, 9][i], d.of(&freqs))).collect());
                let lens = splits(d.n(4), 16);
                let outs = 1 + d.n(3);
                let gain = Steps([vec![], vec![(2, 0.5), (5, -2.0)], vec![(0, 0.0), (7, 1.0)]][outs - 1].clone());
                Some(OscCase { sr: 1024, wave, start, freq, gain, lens, maxf: 8, outs })
            },
            osc,
        ),
        cases(
            "built-in waves",
            &format!("sine and every word up to 3 harmonics over levels 0, 0.5, 1; rates {rates:?}, frequencies {hz:?}; {long} frames in blocks of 64, 100 or 441"),
            (3 * 7 * 3 * (1 + words(3, 3))) as u64,
            move |mut d: D| {
                let (sr, f) = (d.of(&rates), d.of(&hz));
                let block = [64usize, 100, 441][d.n(3)];
                let kind = d.n(1 + words(3, 3) as usize) as u64;
                let wave = if kind == 0 { Wave::Sine } else { Wave::Harmonics(D(kind - 1).word_upto(3, 3).into_iter().map(|i| i as f64 / 2.0).collect()) };
                let frames = if kind == 0 { long } else { long / 10 };
                Some(OscCase { sr, wave, start: f, freq: Steps::default(), gain: Steps::default(), lens: vec![block; frames / block], maxf: 256, outs: 1 })
            },
            osc,
        ),
        {
            let (k, frames) = (t.pick(4usize, 6), t.pick(16_000usize, 60_000));
            let fine = [0.0f64, 1.0 / 1024.0, 1.0 / 128.0, -1.0 / 64.0, 1.0 / 16.0];
            cases(
                "fine tuning",
                &format!("a frequency of 20, 60 or 113 Hz at 1024 Hz changed {k} times, each by one of {fine:?} Hz, every 5 frames, or every 1000; {frames} frames in blocks of 64 or 100"),
                prod(&[3, pow(fine.len(), k), 2, 2]),
                move |mut d: D| {
                    let start = [20.0, 60.0, 113.0][d.n(3)];
                    let mut f = start;
                    let word = d.word(fine.len(), k);
                    let apart = [5, 1000][d.n(2)];
                    let freq = Steps(word.into_iter().enumerate().map(|(i, w)| { f += fine[w]; (apart * (i + 1), f) }).collect());
                    let lens = { let b = [64usize, 100][d.n(2)]; vec![b; frames / b] };
                    Some(OscCase { sr: 1024, wave: Wave::Table(vec![0.0, 1.0, 0.0, -1.0]), start, freq, gain: Steps::default(), lens, maxf: 64, outs: 1 })
                },
                osc,
            )
        },
        {
            let len = t.pick(6, 8);
            let (hz, levels) = ([100.0f64, 256.0, 301.0], [1.0f64, 0.25, -2.0]);
            cases(
                "a setting at every frame",
                &format!("every word of {len} frequencies over {hz:?} or gains over {levels:?}; 5 block partitions"),
                2 * pow(3, len) * 5,
                move |mut d: D| {
                    let (mut freq, mut gain) = (Steps::default(), Steps::default());
                    match d.flag() {
                        false => freq = every(&mut d, &hz, len),
                        true => gain = every(&mut d, &levels, len),
                    }
                    let wave = Wave::Table(vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
                    Some(OscCase { sr: 1024, wave, start: 64.0, freq, gain, lens: splits(d.n(5), len + 3), maxf: 8, outs: 1 })
                },
                osc,
            )
        },
        {
            let gains = around(&[0.0, 1.0, -1.0], t.pick(5..=13, 1..=14));
            cases(
                "gains close to their marks",
                &format!("{} gains around 0, 1 and -1, from the beginning or from frame 5 on, after or before a gain of 0, 1 or 0.5; 3 block partitions", gains.len()),
                gains.len() as u64 * 3 * 3 * 3,
                move |mut d: D| {
                    let g = d.of(&gains);
                    let other = [0.0, 1.0, 0.5][d.n(3)];
                    let gain = [st(g), Steps(vec![(0, other), (5, g)]), Steps(vec![(0, g), (5, other)])][d.n(3)].clone();
                    let wave = Wave::Table(vec![1.0, 0.75, -0.5, -1.0]);
                    Some(OscCase { sr: 1024, wave, start: 64.0, freq: Steps::default(), gain, lens: splits([0, 1, 3][d.n(3)], 12), maxf: 8, outs: 2 })
                },
                osc,
            )
        },
    ]
}

// ----------------------------------------------------------------------------------------------------------- convolution

#[derive(Debug, Clone)]
struct ConvCase {
    impulse: Chans,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
    wet: Steps,
    dry: Steps,
}

fn conv(c: &ConvCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    let n = c.impulse.len();
    let want: Chans = (0..n)
        .map(|ch| {
            (0..frames)
                .map(|f| {
                    let y: f64 = c.impulse[ch].iter().enumerate().filter(|(k, _)| *k <= f).map(|(k, h)| *h as f64 * c.input[ch][f - k] as f64).sum();
                    let (w, d) = (c.wet.at(1.0, f).clamp(0.0, 1.0), c.dry.at(0.0, f).clamp(0.0, 1.0));
                    (w * y + d * c.input[ch][f] as f64) as f32
                })
                .collect()
        })
        .collect();
    inline(0, || {
        let mut e = eng(SR, c.maxf, n);
        let mut cv = Convolution::new(e.ctx.as_ref(), n, buf(&c.impulse, SR));
        cv.node.connect_to_input();
        cv.node.connect_to_output();
        c.wet.send(cv.wet(), SR);
        c.dry.send(cv.dry(), SR);
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, n);
        for ch in 0..n {
            let taps: f64 = c.impulse[ch].iter().map(|x| x.abs() as f64).sum();
            let most = c.input[ch].iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
            for f in 0..frames {
                let (w, g) = (want[ch][f] as f64, got[ch][f] as f64);
                ensure!((g - w).abs() <= 3e-6 * taps * most + 2e-6 * w.abs(), "output, channel {ch}, frame {f} is {g}, expected {w}, of impulses adding up to {taps} and input up to {most}");
            }
        }
        for f in 0..frames {
            let from = (f + 1).saturating_sub(c.impulse[0].len());
            rec.state(&(c.impulse.iter().map(|x| bits(x)).collect::<Vec<_>>(), bits(&c.input[0][from..=f])));
        }
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

pub fn c19(t: Tier) -> Vec<Suite> {
    let taps = [0.0f32, 1.0, -0.5];
    let xs = [0.0f32, 1.0, -1.0];
    let ilen = t.pick(4, 5);
    let xlen = t.pick(3, 4);
    let parts = [0usize, 1, 2, 3];
    let maxf = [1usize, 2, 3, 4, 8];
    let n = words(3, ilen) * pow(3, xlen) * 4 * 5;
    let lens_big = [1usize, 5, 16, 17, 63, 64, 65, 200, 512];
    let maxf_big = [1usize, 7, 16, 64, 100, 512];
    vec![
        cases(
            "impulses and inputs",
            &format!("every impulse of 1 to {ilen} taps over {taps:?}, every input of {xlen} samples over {xs:?} then silence, {} block partitions, at most {maxf:?} frames per pass", parts.len()),
            n,
            move |mut d: D| {
                let w = d.word_upto(3, ilen);
                if w.is_empty() {
                    return None;
                }
                let h: Vec<f32> = w.into_iter().map(|i| taps[i]).collect();
                let mut x: Vec<f32> = d.word(3, xlen).into_iter().map(|i| xs[i]).collect();
                x.extend(vec![0.0; ilen + 3]);
                let lens = splits(d.of(&parts), x.len());
                Some(ConvCase { impulse: vec![h], input: vec![x], lens, maxf: d.of(&maxf), wet: Steps::default(), dry: Steps::default() })
            },
            conv,
        ),
        cases(
            "channels and mix",
            "1 to 3 channels with different impulses and inputs; wet and dry at {default, 0, 0.5, 1, 2} and changed at frame 5; 5 block partitions of 24 frames; at most 4 or 16 frames per pass",
            3 * 25 * 25 * 5 * 2,
            move |mut d: D| {
                let n = 1 + d.n(3);
                let v = [None, Some(0.0), Some(0.5), Some(1.0), Some(2.0)];
                let mut st = |d: &mut D| {
                    let (a, b) = (d.of(&v), d.of(&v));
                    Steps(a.map(|a| (0, a)).into_iter().chain(b.map(|b| (5, b))).collect())
                };
                let (wet, dry) = (st(&mut d), st(&mut d));
                let lens = splits(d.n(5), 24);
                let impulse = (0..n).map(|c| (0..5).map(|k| ((k * 3 + c * 5) % 7) as f32 / 4.0 - 0.5).collect()).collect();
                Some(ConvCase { impulse, input: signal(24, n), lens, maxf: [4, 16][d.n(2)], wet, dry })
            },
            conv,
        ),
        cases(
            "long impulses",
            &format!("impulses of {lens_big:?} taps against at most {maxf_big:?} frames per pass, blocks of that many frames, or a mixed partition, 1 or 2 channels, 700 frames"),
            (lens_big.len() * maxf_big.len() * 4) as u64,
            move |mut d: D| {
                let (l, m) = (d.of(&lens_big), d.of(&maxf_big));
                let n = 1 + d.n(2);
                let lens = if d.flag() { vec![m; 700 / m] } else { [m, 1, 2 * m + 1, 5].iter().cycle().scan(0, |a, x| { *a += x; Some((*a, *x)) }).take_while(|x| x.0 <= 700).map(|x| x.1).collect() };
                let frames = lens.iter().sum();
                let impulse = signal(l, n).into_iter().map(|c| c.into_iter().map(|x| x / 8.0).collect()).collect();
                Some(ConvCase { impulse, input: signal(frames, n), lens, maxf: m, wet: Steps::default(), dry: Steps(vec![(3, 0.5)]) })
            },
            conv,
        ),
        {
            let levels = t.pick(vec![0i32, -7, -14, -20, -40, -70, 12, 40], (-70..=40).step_by(2).collect());
            cases(
                "levels",
                &format!("impulses of 1, 5 or 40 taps, or 40 after silence, times 2^k, and inputs times 2^j, j and k over {} levels from -70 to 40; 2 channels, one of them silent or not; 3 block partitions, at most 4 or 16 frames per pass", levels.len()),
                prod(&[pow(levels.len(), 2), 4, 2, 3, 2]),
                move |mut d: D| {
                    let (k, j) = (d.of(&levels), d.of(&levels));
                    if !(-100..=60).contains(&(k + j)) {
                        return None;
                    }
                    let (k, j) = (2f32.powi(k), 2f32.powi(j));
                    let h: Vec<f32> = match d.n(4) {
                        0 => vec![0.75],
                        1 => signal(5, 1).remove(0),
                        2 => signal(40, 1).remove(0),
                        _ => vec![0.0; 17].into_iter().chain(signal(23, 1).remove(0)).collect(),
                    };
                    let silent = d.flag();
                    let mut impulse = vec![h.iter().map(|x| x * k).collect(), h.iter().rev().map(|x| -x * k).collect()];
                    if silent {
                        impulse[1] = vec![0.0; h.len()];
                    }
                    let input = signal(70, 2).into_iter().map(|c| c.into_iter().map(|x| x * j).collect()).collect();
                    Some(ConvCase { impulse, input, lens: splits([0, 2, 3][d.n(3)], 70), maxf: [4, 16][d.n(2)], wet: Steps::default(), dry: Steps::default() })
                },
                conv,
            )
        },
        {
            let levels: Vec<f32> = t.pick(vec![-2i32, -5, -9, -11, -13, -15], (-16..0).collect()).into_iter().map(|k| 2f32.powi(k)).collect();
            let lens = [1usize, 3, 15, 16, 17, 40];
            cases(
                "quiet parts",
                &format!("impulses of {lens:?} loud taps and as many others that are quieter by one of {levels:?}, in either order or one after the other or the loud ones around the others; an input of one sample, or a block of them, at 3 frames; 1 or 2 channels; at most 4 or 16 frames per pass"),
                prod(&[levels.len() as u64, 36, 3, 6, 2, 2]),
                move |mut d: D| {
                    let q = d.of(&levels);
                    let (a, b) = (d.of(&lens), d.of(&lens));
                    let loud: Vec<f32> = (0..a).map(|i| if i == a / 2 { 1.0 } else { 0.0 }).collect();
                    let quiet: Vec<f32> = (0..b).map(|i| if i % 3 == 1 { -q } else { q }).collect();
                    let h: Vec<f32> = match d.n(3) {
                        0 => loud.into_iter().chain(quiet).collect(),
                        1 => quiet.into_iter().chain(loud).collect(),
                        _ => quiet.iter().map(|x| x * 0.5).chain(loud).chain(quiet.clone()).collect(),
                    };
                    let at = d.of(&[0usize, 3, 16]);
                    let many = if d.flag() { 1 } else { 3 };
                    let n = 1 + d.n(2);
                    let frames = h.len() + 24;
                    let x: Vec<f32> = (0..frames).map(|f| (f >= at && f < at + many) as u8 as f32).collect();
                    let impulse = [h.clone(), h.iter().rev().copied().collect()][..n].to_vec();
                    Some(ConvCase { impulse, input: vec![x; n], lens: splits(3, frames), maxf: [4, 16][d.n(2)], wet: Steps::default(), dry: Steps::default() })
                },
                conv,
            )
        },
        {
            let len = t.pick(6, 8);
            let v = [0.0f64, 0.5, 1.0];
            cases(
                "a setting at every frame",
                &format!("every word of {len} wet or dry levels over {v:?}; 5 block partitions"),
                2 * pow(3, len) * 5,
                move |mut d: D| {
                    let (mut wet, mut dry) = (Steps::default(), Steps::default());
                    match d.flag() {
                        false => wet = every(&mut d, &v, len),
                        true => dry = every(&mut d, &v, len),
                    }
                    Some(ConvCase { impulse: vec![vec![0.5, -0.25, 1.0]], input: signal(len + 3, 1), lens: splits(d.n(5), len + 3), maxf: 8, wet, dry })
                },
                conv,
            )
        },
        {
            let v: Vec<f64> = around(&[0.0, 0.5, 1.0], t.pick(5..=15, 1..=18)).into_iter().filter(|x| (0.0..=1.0).contains(x)).collect();
            cases(
                "levels close to their marks",
                &format!("wet or dry one of {} levels around 0, 0.5 and 1, from the beginning or from frame 5 on; the other one 0, 0.5 or 1; inputs of 1, 2^-10 and 2^10 times full scale; 2 block partitions", v.len()),
                v.len() as u64 * 2 * 2 * 3 * 3 * 2,
                move |mut d: D| {
                    let x = d.of(&v);
                    let level = if d.flag() { Steps(vec![(0, 0.25), (5, x)]) } else { st(x) };
                    let other = st([0.0, 0.5, 1.0][d.n(3)]);
                    let (wet, dry) = if d.flag() { (level, other) } else { (other, level) };
                    let input = scaled(signal(20, 2), [1.0, 1.0 / 1024.0, 1024.0][d.n(3)]);
                    Some(ConvCase { impulse: vec![vec![1.0, 0.0, 0.0], vec![0.5, -0.25, 1.0]], input, lens: splits([0, 3][d.n(2)], 20), maxf: 8, wet, dry })
                },
                conv,
            )
        },
    ]
}

// ---------------------------------------------------------------------------------------------------------------- biquad

#[derive(Debug, Clone)]
struct BqCase {
    sr: usize,
    kind: usize,
    freq: Steps,
    q: Steps,
    shelf: Steps,
    gain: Steps,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
}

fn kind_of(k: usize) -> BiquadFilterType {
    use BiquadFilterType::*;
    [LowPass, HighPass, BandPass, Notch, LowShelf, HighShelf][k]
}
const KINDS: [&str; 6] = ["low-pass", "high-pass", "band-pass", "notch", "low-shelf", "high-shelf"];

/// The audio EQ cookbook: numerator and denominator.
fn cookbook(kind: usize, f0: f64, fs: f64, q: f64, gain: f64) -> ([f64; 3], [f64; 3]) {
    let w = std::f64::consts::TAU * f0 / fs;
    let (cs, sn) = (w.cos(), w.sin());
    if kind < 4 {
        let al = sn / (2.0 * q);
        let a = [1.0 + al, -2.0 * cs, 1.0 - al];
        let b = match kind {
            0 => [(1.0 - cs) / 2.0, 1.0 - cs, (1.0 - cs) / 2.0],
            1 => [(1.0 + cs) / 2.0, -(1.0 + cs), (1.0 + cs) / 2.0],
            2 => [al, 0.0, -al],
            _ => [1.0, -2.0 * cs, 1.0],
        };
        return (b, a);
    }
    let a_ = gain.sqrt();
    // shelf slope 1: 2 sqrt(A) alpha = sqrt(2A) sin w
    let r = (2.0 * a_).sqrt() * sn;
    // the high shelf is the low shelf with cos w negated and the middle terms mirrored
    let (s, m) = if kind == 4 { (1.0, 1.0) } else { (-1.0, -1.0) };
    let b = [
        a_ * ((a_ + 1.0) - s * (a_ - 1.0) * cs + r),
        m * 2.0 * a_ * ((a_ - 1.0) - s * (a_ + 1.0) * cs),
        a_ * ((a_ + 1.0) - s * (a_ - 1.0) * cs - r),
    ];
    let a = [
        (a_ + 1.0) + s * (a_ - 1.0) * cs + r,
        -m * 2.0 * ((a_ - 1.0) + s * (a_ + 1.0) * cs),
        (a_ + 1.0) + s * (a_ - 1.0) * cs - r,
    ];
    (b, a)
}

fn biquad(c: &BqCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    let n = c.input.len();
    let mut want: Chans = vec![];
    let mut biggest = 1.0f64;
    // a quiet input is to be filtered as well as a loud one
    let mut loudest = 0.0f32;
    for ch in 0..n {
        // direct form 1, as the coefficients change over time
        let (mut x1, mut x2, mut y1, mut y2) = (0.0f64, 0.0, 0.0, 0.0);
        let mut w = Vec::new();
        loudest = loudest.max(c.input[ch].iter().fold(0.0, |a, x| x.abs().max(a)));
        for f in 0..frames {
            let fr = c.freq.at(1_000.0, f).clamp(20.0, 20_000.0) as f32 as f64;
            let q = c.q.at(0.5f64.sqrt(), f).clamp(0.1, 10.0) as f32 as f64;
            let sh = c.shelf.at(1.0, f).clamp(0.0, 1e5) as f32 as f64;
            let g = c.gain.at(1.0, f).clamp(0.0, 1e5);
            let (b, a) = cookbook(c.kind, fr, c.sr as f64, q, sh);
            let x = c.input[ch][f] as f64;
            let y = (b[0] * x + b[1] * x1 + b[2] * x2 - a[1] * y1 - a[2] * y2) / a[0];
            (x2, x1, y2, y1) = (x1, x, y1, y);
            biggest = biggest.max(y.abs()).max((y * g).abs());
            w.push((y * g) as f32);
            if ch == 0 {
                rec.state(&(((y1 * 1e5) as i64, (y2 * 1e5) as i64, (x1 * 16.0) as i64, (x2 * 16.0) as i64), (fr as i64, (q * 100.0) as i64, (sh * 100.0) as i64)));
            }
        }
        want.push(w);
    }
    if biggest > 1e6 || biggest.is_nan() {
        // an unstable history of changes: nothing to compare
        return Ok(());
    }
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, n);
        let mut b = Biquad::new(e.ctx.as_ref(), n, kind_of(c.kind));
        b.node.connect_to_input();
        b.node.connect_to_output();
        c.freq.send(b.frequency(), c.sr);
        c.q.send(b.q(), c.sr);
        c.shelf.send(b.shelf_gain(), c.sr);
        c.gain.send(b.gain(), c.sr);
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, n);
        let tol = (2e-5 * biggest.sqrt().max(1.0)) as f32;
        if loudest < 0.25 && loudest > 0.0 {
            let scale = |v: &[Vec<f32>]| v.iter().map(|c| c.iter().map(|x| x / loudest).collect()).collect::<Chans>();
            same_all(&format!("{} output, divided by {loudest}", KINDS[c.kind]), &scale(&got), &scale(&want), tol)?;
        }
        same_all(&format!("{} output", KINDS[c.kind]), &got, &want, tol)?;
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

pub fn c20(t: Tier) -> Vec<Suite> {
    let fs = [20.0f64, 100.0, 256.0, 500.0, 5.0];
    let qs = [0.1f64, 0.7071, 3.0, 10.0, 50.0];
    let shelves = [0.0625f64, 1.0, 4.0, 0.5, 0.0];
    let gains = [None, Some(0.5), Some(0.0), Some(4.0)];
    let xs = [0.0f32, 1.0, -0.5];
    let xlen = t.pick(3, 5);
    let long = t.pick(400, 4000);
    let rates = [8_000usize, 44_100, 48_000, 96_000];
    let hz = [20.0f64, 80.0, 1_000.0, 3_999.0, 20_000.0, 30_000.0];
    let quiet = [1e-1f32, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-12, 1e-20];
    let second = t.pick(2, 4);
    vec![
        cases(
            "settings and inputs",
            &format!("6 filter types, frequency {fs:?}, Q {qs:?}, shelf gain {shelves:?}, gain {gains:?} at 1024 Hz; every input of {xlen} samples over {xs:?} then silence; 2 block partitions of {} frames", xlen + 6),
            6 * 5 * 5 * 5 * 4 * pow(3, xlen) * 2,
            move |mut d: D| {
                let kind = d.n(6);
                let freq = Steps(vec![(0, d.of(&fs))]);
                // Q is for the first four types, the shelf gain for the last two; the other one must not matter
                let (q, s) = (d.of(&qs), d.of(&shelves));
                let gain = Steps(d.of(&gains).map(|g| (2, g)).into_iter().collect());
                let mut x: Vec<f32> = d.word(3, xlen).into_iter().map(|i| xs[i]).collect();
                x.extend([0.0; 6]);
                let lens = splits([0, 3][d.n(2)], x.len());
                Some(BqCase { sr: 1024, kind, freq, q: Steps(vec![(0, q)]), shelf: Steps(vec![(0, s)]), gain, input: vec![x], lens, maxf: 4 })
            },
            biquad,
        ),
        cases(
            "settings changed while playing",
            &format!("6 filter types; at frames 0, 4 and 7 the frequency takes one of {:?}, Q one of {:?} and the shelf gain one of {:?}, each independently or not at all; 1 or 2 channels; 3 block partitions", &fs[..second], &qs[1..1 + second], &shelves[..second]),
            6 * pow(second + 1, 9) * 2 * 3 / t.pick(1, 1),
            move |mut d: D| {
                let kind = d.n(6);
                let mut st = |d: &mut D, v: &[f64]| {
                    Steps([0usize, 4, 7].into_iter().filter_map(|f| { let i = d.n(second + 1); (i > 0).then(|| (f, v[i - 1])) }).collect())
                };
                let freq = st(&mut d, &fs);
                let q = st(&mut d, &qs[1..]);
                let shelf = st(&mut d, &shelves);
                let n = 1 + d.n(2);
                let lens = splits([0, 1, 3][d.n(3)], 12);
                // what matters: all of them for all types at the first partition, the used ones otherwise
                if lens.len() > 1 && (if kind < 4 { !shelf.0.is_empty() } else { !q.0.is_empty() }) {
                    return None;
                }
                Some(BqCase { sr: 1024, kind, freq, q, shelf, gain: Steps::default(), input: signal(12, n), lens, maxf: 8 })
            },
            biquad,
        ),
        cases(
            "rates",
            &format!("6 filter types at {rates:?} Hz with frequency {hz:?}, Q 0.5, default and 8, shelf gain 0.25 and 2; {long} frames in blocks of 64 or 100; 1 to 3 channels"),
            6 * 4 * 6 * 3 * 2 * 2 * 3,
            move |mut d: D| {
                let kind = d.n(6);
                let (sr, f) = (d.of(&rates), d.of(&hz));
                let q = [None, Some(0.5), Some(8.0)][d.n(3)];
                let s = [0.25, 2.0][d.n(2)];
                let block = [64usize, 100][d.n(2)];
                let n = 1 + d.n(3);
                // at or beyond half the sample rate the filter is not defined
                if f.min(20_000.0) * 2.0 >= sr as f64 {
                    return None;
                }
                let lens = vec![block; long / block];
                let frames = lens.iter().sum();
                Some(BqCase { sr, kind, freq: Steps(vec![(0, f)]), q: Steps(q.map(|q| (0, q)).into_iter().collect()), shelf: Steps(vec![(0, s)]), gain: Steps::default(), input: signal(frames, n), lens, maxf: 64 })
            },
            biquad,
        ),
        cases(
            "quiet signals",
            &format!("6 filter types at {rates:?} Hz with frequency {hz:?} and Q 0.5, default and 8; a constant, an impulse and noise of amplitudes {quiet:?}; {long} frames, the output to be as exact for its amplitude as a loud one"),
            6 * 4 * 6 * 3 * 3 * quiet.len() as u64,
            move |mut d: D| {
                let kind = d.n(6);
                let (sr, f) = (d.of(&rates), d.of(&hz));
                let q = [None, Some(0.5), Some(8.0)][d.n(3)];
                let shape = d.n(3);
                let a = d.of(&quiet);
                if f.min(20_000.0) * 2.0 >= sr as f64 {
                    return None;
                }
                let lens = vec![100; long / 100];
                let noise = signal(long, 1).remove(0);
                let x = (0..long).map(|i| a * [1.0, if i == 2 { 1.0 } else { 0.0 }, noise[i]][shape]).collect();
                Some(BqCase { sr, kind, freq: Steps(vec![(0, f)]), q: Steps(q.map(|q| (0, q)).into_iter().collect()), shelf: Steps(vec![(0, 0.5)]), gain: Steps::default(), input: vec![x], lens, maxf: 128 })
            },
            biquad,
        ),
        {
            let len = t.pick(5, 7);
            let values = [[100.0f64, 101.0, 256.0], [0.7071, 0.72, 3.0], [1.0, 1.05, 4.0], [1.0, 0.5, 0.0]];
            cases(
                "a setting at every frame",
                &format!("every word of {len} frequencies, Q, shelf gains or gains over {values:?}; six types, 5 block partitions"),
                4 * pow(3, len) * 6 * 5,
                move |mut d: D| {
                    let which = d.n(4);
                    let mut steps: Vec<Steps> = vec![Steps::default(); 4];
                    steps[which] = every(&mut d, &values[which], len);
                    if which != 0 {
                        steps[0] = st(80.0);
                    }
                    let [freq, q, shelf, gain] = steps.try_into().unwrap();
                    let kind = d.n(6);
                    Some(BqCase { sr: 1024, kind, freq, q, shelf, gain, input: signal(len + 3, 1), lens: splits(d.n(5), len + 3), maxf: 8 })
                },
                biquad,
            )
        },
        {
            let ks = t.pick(4..=13, 1..=15);
            let gains = around(&[0.0, 1.0], ks.clone());
            let shelves = around(&[0.0, 1.0, 4.0], ks.clone());
            let qs = around(&[0.5f64.sqrt(), 1.0, 10.0], ks.clone());
            let hz = around(&[20.0, 100.0, 256.0, 500.0], 0..=*ks.end() - 4);
            let n = [gains.len(), shelves.len(), qs.len(), hz.len()];
            let all: Vec<(usize, f64)> = [gains, shelves, qs, hz].into_iter().enumerate().flat_map(|(i, v)| v.into_iter().map(move |x| (i, x))).collect();
            cases(
                "settings close to their marks",
                &format!("one of {n:?} gains around 0 and 1, shelf gains around 0, 1 and 4, Qs around 0.71, 1 and 10, frequencies around 20, 100, 256 and 500 Hz, from the beginning or from frame 6 on; six types; 2 block partitions of 40 frames"),
                all.len() as u64 * 2 * 6 * 2,
                move |mut d: D| {
                    let (which, x) = d.of(&all);
                    let mut steps = [st(1.0), st(2.0), st(2.0), st(100.0)];
                    steps[which].0[0].1 = if d.flag() { steps[which].0.push((6, x)); [1.0, 2.0, 2.0, 100.0][which] } else { x };
                    let [gain, shelf, q, freq] = steps;
                    let input = scaled(signal(40, 1), if which == 0 { 1024.0 } else { 16.0 });
                    Some(BqCase { sr: 1024, kind: d.n(6), freq, q, shelf, gain, input, lens: splits([0, 3][d.n(2)], 40), maxf: 64 })
                },
                biquad,
            )
        },
    ]
}

// ------------------------------------------------------------------------------------------------------------ compressor

#[derive(Debug, Clone, Default)]
struct CompCase {
    sr: usize,
    attack: Steps,
    release: Steps,
    ratio: Steps,
    threshold: Steps,
    knee: Steps,
    wet: Steps,
    dry: Steps,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
}

fn curve(x: f64, t: f64, r: f64, k: f64) -> f64 {
    if x <= t - k / 2.0 {
        x
    } else if x >= t + k / 2.0 {
        t + (x - t) / r
    } else {
        x + (1.0 / r - 1.0) * (x - t + k / 2.0).powi(2) / (2.0 * k)
    }
}

fn comp(c: &CompCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    let n = c.input.len();
    let mut fol = vec![Follower { level: 0.0 }; n];
    let mut want = vec![Vec::new(); n];
    let max = 10.0f64.powf(12.0 / 20.0);
    for f in 0..frames {
        let (a, r) = (c.attack.at(1.0, f).clamp(0.0, 1000.0), c.release.at(10.0, f).clamp(0.0, 10_000.0));
        let level = (0..n).map(|ch| fol[ch].step(c.input[ch][f], c.sr, a / 1000.0, r / 1000.0)).sum::<f64>() / n as f64;
        let db = if level <= 1e-9 { -128.0 } else { 20.0 * level.log10() };
        let (t, k) = (c.threshold.at(0.0, f).clamp(-128.0, 24.0), c.knee.at(0.0, f).clamp(0.0, 24.0));
        let gain_db = curve(db, t, c.ratio.at(3.0, f).max(1.0), k) - db;
        let gain = if gain_db <= -128.0 { 0.0 } else { 10.0f64.powf(gain_db / 20.0) };
        let (w, d) = (c.wet.at(1.0, f).clamp(0.0, max), c.dry.at(0.0, f).clamp(0.0, max));
        for ch in 0..n {
            let x = c.input[ch][f] as f64;
            want[ch].push((x * gain * w + x * d) as f32);
        }
        rec.state(&(fol.iter().map(|x| (x.level * 1e6) as i64).collect::<Vec<_>>(), (t as i64, k as i64)));
    }
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, n);
        let mut p = Compressor::new(e.ctx.as_ref(), n);
        p.node.connect_to_input();
        p.node.connect_to_output();
        c.attack.send(p.attack(), c.sr);
        c.release.send(p.release(), c.sr);
        c.ratio.send(p.ratio(), c.sr);
        c.threshold.send(p.threshold(), c.sr);
        c.knee.send(p.knee(), c.sr);
        c.wet.send(p.wet(), c.sr);
        c.dry.send(p.dry(), c.sr);
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, n);
        same_all("output", &got, &want, 5e-5)?;
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

fn st(v: f64) -> Steps {
    Steps(vec![(0, v)])
}

pub fn c21(t: Tier) -> Vec<Suite> {
    let levels = [-60.0f64, -40.0, -24.0, -20.0, -14.0, -12.0, -10.0, -8.0, -6.0, -5.0, -4.0, -3.0, 0.0, 3.0, 6.0, 10.0, 20.0];
    let thresholds = [-40.0f64, -20.0, -12.0, -6.0, 0.0, 6.0, 24.0, -128.0, 30.0];
    let ratios = [1.0f64, 1.5, 3.0, 20.0, 1e6, 0.5];
    let knees = [0.0f64, 1.0, 6.0, 24.0, 30.0];
    let xs = [0.0f32, 1.0, -0.5, 4.0];
    let len = t.pick(4, 6);
    let ar = [0.0f64, 1.0, 30.0];
    let n_dyn = pow(4, len) * 9 * 2 * 3;
    let close = [0.0f64, 0.3, 0.9, 1.0, 1.2, 1.9, 2.0];
    vec![
        cases(
            "static curve",
            &format!("level {levels:?} dB, threshold {thresholds:?}, ratio {ratios:?}, knee {knees:?}, attack and release 0, 1 to 3 channels"),
            (levels.len() * thresholds.len() * ratios.len() * knees.len() * 3) as u64,
            move |mut d: D| {
                let x = 10.0f64.powf(d.of(&levels) / 20.0) as f32;
                let n = 1 + d.n(3);
                Some(CompCase {
                    sr: 1024,
                    attack: st(0.0),
                    release: st(0.0),
                    threshold: st(d.of(&thresholds)),
                    ratio: st(d.of(&ratios)),
                    knee: st(d.of(&knees)),
                    input: (0..n).map(|c| vec![x, -x, x / (1 + c) as f32]).collect(),
                    lens: vec![2, 1],
                    maxf: 2,
                    ..Default::default()
                })
            },
            comp,
        ),
        cases(
            "attack and release",
            &format!("every word of {len} samples over {xs:?}, then silence and ones; attack and release over {ar:?} ms, changed at frame 3 or not; 3 block partitions"),
            n_dyn,
            move |mut d: D| {
                let mut x: Vec<f32> = d.word(4, len).into_iter().map(|i| xs[i]).collect();
                x.extend([0.0, 0.0, 1.0, 1.0]);
                let (a, r) = (d.of(&ar), d.of(&ar));
                let (mut attack, mut release) = (st(a), st(r));
                if d.flag() {
                    attack.0.push((3, 5.0));
                    release.0.push((3, 2.0));
                }
                let lens = splits([0, 1, 3][d.n(3)], x.len());
                Some(CompCase { sr: 1024, attack, release, threshold: st(-12.0), ratio: st(4.0), knee: st(6.0), input: vec![x], lens, maxf: 4, ..Default::default() })
            },
            comp,
        ),
        cases(
            "small changes of attack and release",
            &format!("attack and release from and to every pair of {close:?} ms, changed at every frame 1..=5; a burst then a decay of 16 samples; 3 block partitions"),
            pow(close.len(), 4) * 5 * 3,
            move |mut d: D| {
                let (mut attack, mut release) = (st(d.of(&close)), st(d.of(&close)));
                let (a, r) = (d.of(&close), d.of(&close));
                let at = 1 + d.n(5);
                attack.0.push((at, a));
                release.0.push((at, r));
                let mut x = vec![4.0f32, -4.0, 4.0];
                x.extend([0.25; 4]);
                x.extend([4.0, 1.0, 1.0, 0.25, 0.25, 0.25, 2.0, 0.5, 0.5]);
                let lens = splits([0, 1, 3][d.n(3)], x.len());
                Some(CompCase { sr: 1024, attack, release, threshold: st(-12.0), ratio: st(4.0), knee: st(6.0), input: vec![x], lens, maxf: 4, ..Default::default() })
            },
            comp,
        ),
        cases(
            "channels and mix",
            "1 to 4 channels with different inputs; wet and dry at {default, 0, 0.5, 2, 9} changed at frame 4 or not; every setting changed at frame 6 or not, one by one; 4 block partitions",
            4 * 25 * 25 * 6 * 4,
            move |mut d: D| {
                let n = 1 + d.n(4);
                let v = [None, Some(0.0), Some(0.5), Some(2.0), Some(9.0)];
                let steps = |d: &mut D| {
                    let (a, b) = (d.of(&v), d.of(&v));
                    Steps(a.map(|a| (0, a)).into_iter().chain(b.map(|b| (4, b))).collect())
                };
                let (wet, dry) = (steps(&mut d), steps(&mut d));
                let mut c = CompCase { sr: 1024, threshold: st(-12.0), ratio: st(3.0), knee: st(2.0), wet, dry, input: signal(12, n), maxf: 8, ..Default::default() };
                match d.n(6) {
                    1 => c.attack = Steps(vec![(6, 20.0)]),
                    2 => c.release = Steps(vec![(6, 1.0)]),
                    3 => c.ratio.0.push((6, 10.0)),
                    4 => c.threshold.0.push((6, -30.0)),
                    5 => c.knee.0.push((6, 20.0)),
                    _ => (),
                }
                c.lens = splits(d.n(4), 12);
                Some(c)
            },
            comp,
        ),
        cases(
            "defaults",
            "untouched settings at 8, 44.1 and 48 kHz, 1 or 2 channels, signals of 0.5 to 16 times full scale, 700 frames in blocks of 64 or 100",
            3 * 2 * 6 * 2,
            move |mut d: D| {
                let sr = [8_000usize, 44_100, 48_000][d.n(3)];
                let n = 1 + d.n(2);
                let g = [0.5f32, 1.0, 2.0, 4.0, 8.0, 16.0][d.n(6)];
                let b = [64usize, 100][d.n(2)];
                let input = signal(700 / b * b, n).into_iter().map(|c| c.into_iter().map(|x| x * g).collect()).collect();
                Some(CompCase { sr, input, lens: vec![b; 700 / b], maxf: 128, ..Default::default() })
            },
            comp,
        ),
        {
            let len = t.pick(5, 7);
            let values = [[1.0f64, 0.0, 20.0], [10.0, 0.0, 3.0], [3.0, 1.0, 8.0], [-20.0, -19.0, -6.0], [6.0, 0.0, 6.5], [1.0, 0.5, 0.0], [0.0, 1.0, 0.25]];
            cases(
                "a setting at every frame",
                &format!("every word of {len} values of each of the seven settings over {values:?}; 5 block partitions"),
                7 * pow(3, len) * 5,
                move |mut d: D| {
                    let which = d.n(7);
                    let mut steps = [st(0.5), st(2.0), st(4.0), st(-18.0), st(6.0), st(1.0), st(0.0)];
                    steps[which] = every(&mut d, &values[which], len);
                    let [attack, release, ratio, threshold, knee, wet, dry] = steps;
                    let lens = splits(d.n(5), len + 3);
                    Some(CompCase { sr: 1024, attack, release, ratio, threshold, knee, wet, dry, input: signal(len + 3, 1), lens, maxf: 8 })
                },
                comp,
            )
        },
        {
            let ks = t.pick(0..=12, -3..=14);
            let values = [
                around(&[0.0, 1.0, 12.0], ks.clone()),
                around(&[1.0, 2.0, 20.0], ks.clone()),
                around(&[-20.0, 0.0, -12.0], ks.clone()),
                around(&[0.0, 6.0, 24.0], ks.clone()),
                around(&[0.0, 1.0], ks.clone()),
                around(&[0.0, 1.0], ks.clone()),
            ];
            let n: Vec<usize> = values.iter().map(Vec::len).collect();
            let all: Vec<(usize, f64)> = values.into_iter().enumerate().flat_map(|(i, v)| v.into_iter().filter(move |x| i != 1 || *x >= 1.0).map(move |x| (i, x))).collect();
            cases(
                "settings close to their marks",
                &format!("one of {n:?} releases, ratios, thresholds, knees, wet and dry levels around their usual values, from the beginning or from frame 4 on; a level at the threshold, 1 dB below or above it, or 15 dB above it; inputs of one channel or three; 2 block partitions"),
                all.len() as u64 * 2 * 4 * 2 * 2,
                move |mut d: D| {
                    let (which, x) = d.of(&all);
                    let usual = [0.0, 20.0, -12.0, 6.0, 1.0, 0.0];
                    let mut steps = usual.map(st);
                    steps[which] = if d.flag() { Steps(vec![(0, usual[which]), (4, x)]) } else { st(x) };
                    let threshold = if which == 2 { x } else { -12.0 };
                    let level = 10f64.powf((threshold + [0.0, -1.0, 1.0, 15.0][d.n(4)]) / 20.0) as f32;
                    let n = [1usize, 3][d.n(2)];
                    let input = (0..n).map(|c| (0..10).map(|f| if (f + c) % 2 == 0 { level } else { -level }).collect()).collect();
                    let [release, ratio, threshold, knee, wet, dry] = steps;
                    Some(CompCase { sr: 1024, attack: st(0.0), release, ratio, threshold, knee, wet, dry, input, lens: splits([0, 3][d.n(2)], 10), maxf: 8 })
                },
                comp,
            )
        },
        {
            let longest = t.pick(70usize, 200);
            cases(
                "passes of every length",
                &format!("at most 1 to {longest} frames per pass, blocks of as many or of one more, 1 to 3 channels; wet 0, 0.5 or 1 and dry 0, 0.5 or 1"),
                longest as u64 * 2 * 3 * 9,
                move |mut d: D| {
                    let m = 1 + d.n(longest);
                    let b = m + d.n(2);
                    let n = 1 + d.n(3);
                    let v = [0.0, 0.5, 1.0];
                    let (wet, dry) = (st(d.of(&v)), st(d.of(&v)));
                    Some(CompCase { sr: 1024, wet, dry, threshold: st(-20.0), ratio: st(4.0), knee: st(3.0), input: signal(3 * b, n), lens: vec![b; 3], maxf: m, ..Default::default() })
                },
                comp,
            )
        },
    ]
}

// ------------------------------------------------------------------------------------------------------------ waveshaper

#[derive(Debug, Clone, Copy)]
enum Shape {
    Square,
    Cube,
    Shifted,
    Tanh,
    Hard(f64),
    Soft(f64),
    /// one side of zero and the other; nothing but at zero; nothing but at the ends
    Sign,
    Spike,
    Ends,
}
fn shape_fn(s: Shape) -> Box<dyn Fn(f32) -> f32> {
    match s {
        Shape::Square => Box::new(|x| x * x),
        Shape::Cube => Box::new(|x| x * x * x),
        Shape::Shifted => Box::new(|x| 0.25 - 0.5 * x),
        Shape::Tanh => Box::new(|x| 2.0 * (x / 2.0).tanh()),
        Shape::Sign => Box::new(|x| if x < 0.0 { -1.0 } else { 0.5 }),
        Shape::Spike => Box::new(|x| if x.abs() < 1e-3 { 1.0 } else { 0.0 }),
        Shape::Ends => Box::new(|x| if x.abs() > 0.999 { x } else { 0.0 }),
        Shape::Hard(t) => Box::new(move |x| x.clamp(-t as f32, t as f32)),
        Shape::Soft(t) => {
            let t = t as f32;
            Box::new(move |x| if x < t { x } else { t + (x - t) / (1.0 + ((x - t) / (1.0 - t)).powi(2)) })
        }
    }
}

#[derive(Debug, Clone)]
struct ShapeCase {
    shape: Shape,
    drive: Steps,
    mix: Steps,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
    sr: usize,
}

fn waveshaper(c: &ShapeCase, rec: &mut Rec) -> Check {
    let frames: usize = c.lens.iter().sum();
    let n = c.input.len();
    // the function is tabulated
    let table: Vec<f64> = (0..511).map(|i| i as f32 / 255.0 - 1.0).map(shape_fn(c.shape)).map(f64::from).collect();
    let f = |x: f32| {
        let at = (x as f64 + 1.0) * 255.0;
        let i = (at as usize).min(509);
        (table[i] + (table[i + 1] - table[i]) * (at - i as f64)) as f32
    };
    let want: Chans = c
        .input
        .iter()
        .map(|x| {
            x.iter()
                .enumerate()
                .map(|(i, x)| {
                    let g = 10.0f32.powf(c.drive.at(0.0, i).clamp(0.0, 1.0) as f32 * 12.0 / 20.0);
                    let m = c.mix.at(1.0, i).clamp(0.0, 1.0) as f32;
                    rec.state(&(x.to_bits(), g.to_bits(), m.to_bits()));
                    f((x * g).clamp(-1.0, 1.0)) / g * m + x * (1.0 - m)
                })
                .collect()
        })
        .collect();
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, n);
        let mut w = match c.shape {
            Shape::Tanh => Waveshaper::tanh(e.ctx.as_ref(), n),
            Shape::Hard(t) => Waveshaper::hard_clip(e.ctx.as_ref(), n, Level::from_linear(t)),
            Shape::Soft(t) => Waveshaper::soft_saturator(e.ctx.as_ref(), n, Level::from_linear(t)),
            s => Waveshaper::new(e.ctx.as_ref(), n, shape_fn(s).as_ref()),
        };
        w.node.connect_to_input();
        w.node.connect_to_output();
        c.drive.send(w.overdrive(), c.sr);
        c.mix.send(w.mix(), c.sr);
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, n);
        // the place between two points is computed in single precision
        same_all("output", &got, &want, 5e-5)?;
        ensure!(got[0].len() == frames, "{} frames instead of {frames}", got[0].len());
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

pub fn c22(t: Tier) -> Vec<Suite> {
    let shapes = [Shape::Square, Shape::Cube, Shape::Shifted, Shape::Tanh, Shape::Hard(0.5), Shape::Soft(0.5), Shape::Hard(0.0), Shape::Soft(0.0), Shape::Sign, Shape::Spike, Shape::Ends];
    let xs = [0.0f32, 1.0, -1.0, 0.5, -0.25, 3.0, -2.0];
    let len = t.pick(3, 4);
    let v = [None, Some(0.0), Some(0.25), Some(1.0), Some(3.0)];
    let grid = t.pick(2_001usize, 20_001);
    vec![
        cases(
            "settings and inputs",
            &format!("{shapes:?}; every word of {len} samples over {xs:?}; overdrive and mix in {v:?}; blocks of 1 and of {len} frames"),
            11 * pow(7, len) * 25 * 2,
            move |mut d: D| {
                let shape = d.of(&shapes);
                let x: Vec<f32> = d.word(7, len).into_iter().map(|i| xs[i]).collect();
                let one = |d: &mut D| Steps(d.of(&v).map(|v| (0, v)).into_iter().collect());
                let (drive, mix) = (one(&mut d), one(&mut d));
                Some(ShapeCase { shape, drive, mix, input: vec![x], lens: splits(d.n(2), len), maxf: 4, sr: SR })
            },
            waveshaper,
        ),
        cases(
            "transfer function",
            &format!("{shapes:?} over {grid} sample values from -1.2 to 1.2, in blocks of 100 frames at 44.1 kHz"),
            11,
            move |mut d: D| {
                let shape = d.of(&shapes);
                let x: Vec<f32> = (0..grid / 100 * 100).map(|i| -1.2 + 2.4 * i as f32 / (grid - 1) as f32).collect();
                Some(ShapeCase { shape, drive: Steps::default(), mix: Steps::default(), lens: vec![100; grid / 100], input: vec![x], maxf: 64, sr: 44_100 })
            },
            waveshaper,
        ),
        cases(
            "automation and channels",
            "1 to 4 channels with different inputs; overdrive and mix each one of 5 values at frame 0, 3 and 5; 5 block partitions; at most 3 or 16 frames per pass",
            4 * 125 * 125 * 5 * 2,
            move |mut d: D| {
                let n = 1 + d.n(4);
                let steps = |d: &mut D| Steps([0usize, 3, 5].into_iter().filter_map(|f| d.of(&v).map(|v| (f, v))).collect());
                let (drive, mix) = (steps(&mut d), steps(&mut d));
                let lens = splits(d.n(5), 9);
                let maxf = [3usize, 16][d.n(2)];
                if n > 2 && (drive.0.len() + mix.0.len() > 3) {
                    return None;
                }
                Some(ShapeCase { shape: Shape::Cube, drive, mix, input: signal(9, n), lens, maxf, sr: SR })
            },
            waveshaper,
        ),
        {
            let len = t.pick(6, 8);
            let v = [0.0f64, 0.5, 1.0];
            cases(
                "a setting at every frame",
                &format!("every word of {len} values of overdrive or mix over {v:?}; 5 block partitions"),
                2 * pow(3, len) * 5,
                move |mut d: D| {
                    let (mut drive, mut mix) = (Steps::default(), Steps::default());
                    match d.flag() {
                        false => drive = every(&mut d, &v, len),
                        true => mix = every(&mut d, &v, len),
                    }
                    Some(ShapeCase { shape: Shape::Cube, drive, mix, input: signal(len + 3, 1), lens: splits(d.n(5), len + 3), maxf: 8, sr: SR })
                },
                waveshaper,
            )
        },
        {
            let v: Vec<f64> = around(&[0.0, 0.5, 1.0], t.pick(4..=13, 1..=14)).into_iter().filter(|x| (0.0..=1.0).contains(x)).collect();
            let thresholds = t.pick(vec![2f64.powi(-10), 0.01, 0.1, 0.9, 1.0 - 2f64.powi(-10), 1.0], around(&[0.0, 0.5, 1.0], 2..=12));
            let m = thresholds.len();
            cases(
                "settings close to their marks",
                &format!("overdrive or mix one of {} values around 0, 0.5 and 1, from the beginning or from frame 5 on, for five shapes; and both at rest for clippers and saturators of {m} thresholds", v.len()),
                (v.len() * 2 * 2 * 5 + 2 * m) as u64,
                move |mut d: D| {
                    let input = signal(40, 2);
                    if d.0 < 2 * m as u64 {
                        let th = d.of(&thresholds);
                        if !(0.0..=1.0).contains(&th) {
                            return None;
                        }
                        let hard = d.flag();
                        // a saturator of threshold one leaves what it is defined for as it is
                        let shape = if hard { Shape::Hard(th) } else if th == 1.0 { return None } else { Shape::Soft(th) };
                        return Some(ShapeCase { shape, drive: Steps::default(), mix: Steps::default(), input, lens: vec![40], maxf: 64, sr: SR });
                    }
                    d.0 -= 2 * m as u64;
                    let x = d.of(&v);
                    let s = if d.flag() { Steps(vec![(0, 0.25), (5, x)]) } else { st(x) };
                    let (drive, mix) = if d.flag() { (s, Steps::default()) } else { (Steps::default(), s) };
                    let shape = [Shape::Square, Shape::Shifted, Shape::Tanh, Shape::Hard(0.5), Shape::Soft(0.5)][d.n(5)];
                    Some(ShapeCase { shape, drive, mix, input, lens: splits(3, 40), maxf: 64, sr: SR })
                },
                waveshaper,
            )
        },
    ]
}

// ------------------------------------------------------------------------------------------------------- gain, pan, mixer

#[derive(Debug, Clone)]
struct GainCase {
    steps: Steps,
    ramp: Option<(usize, usize, f64)>,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
}

fn gain(c: &GainCase, rec: &mut Rec) -> Check {
    let n = c.input.len();
    let value = |f: usize| -> f64 {
        match c.ramp {
            Some((s, e, v)) if f >= e => v,
            Some((s, e, v)) if f >= s => c.steps.at(1.0, f) + (v - c.steps.at(1.0, f)) * (f - s) as f64 / (e - s) as f64,
            _ => c.steps.at(1.0, f),
        }
    };
    let want: Chans = c.input.iter().map(|x| x.iter().enumerate().map(|(f, x)| (*x as f64 * value(f)) as f32).collect()).collect();
    inline(0, || {
        let mut e = eng(SR, c.maxf, n);
        let mut g = Gain::new(e.ctx.as_ref(), n);
        g.node.connect_to_input();
        g.node.connect_to_output();
        c.steps.send(g.gain(), SR);
        if let Some((s, end, v)) = c.ramp {
            g.gain().linear_ramp_to_value(v, t_samples(s as f64, SR), t_samples(end as f64, SR));
        }
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, n);
        same_all("output", &got, &want, 1e-5)?;
        rec.state(&(n, c.lens.clone(), c.steps.0.iter().map(|s| (s.0, s.1.to_bits())).collect::<Vec<_>>()));
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

#[derive(Debug, Clone)]
struct PanCase {
    steps: Steps,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
}

fn pan(c: &PanCase, rec: &mut Rec) -> Check {
    let p = |f: usize| c.steps.at(0.0, f).clamp(-1.0, 1.0);
    let want: Chans = vec![
        c.input[0].iter().enumerate().map(|(f, x)| (*x as f64 * (1.0 - p(f)).min(1.0)) as f32).collect(),
        c.input[1].iter().enumerate().map(|(f, x)| (*x as f64 * (1.0 + p(f)).min(1.0)) as f32).collect(),
    ];
    inline(0, || {
        let mut e = eng(SR, c.maxf, 2);
        let mut n = Pan::new(e.ctx.as_ref(), 2);
        n.node.connect_to_input();
        n.node.connect_to_output();
        c.steps.send(n.pan(), SR);
        e.ctx.start();
        let got = e.blocks(&c.input, &c.lens, 2);
        same_all("output", &got, &want, 1e-6)?;
        rec.state(&(c.lens.clone(), c.steps.0.iter().map(|s| (s.0, s.1.to_bits())).collect::<Vec<_>>()));
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

#[derive(Debug, Clone)]
struct MixCase {
    ins: usize,
    outs: usize,
    /// 0 a new mixer, 1 unity, 2 mono to stereo
    kind: usize,
    /// (block before which it is set, input, output, level in quarters)
    sets: Vec<(usize, usize, usize, i32)>,
    input: Chans,
    lens: Vec<usize>,
    maxf: usize,
}

fn mixer(c: &MixCase, rec: &mut Rec) -> Check {
    let mut m = vec![vec![0.0f64; c.ins]; c.outs];
    for (o, row) in m.iter_mut().enumerate() {
        match c.kind {
            1 => row[o] = 1.0,
            2 => row[0] = 1.0,
            _ => (),
        }
    }
    inline(0, || {
        let mut e = eng(SR, c.maxf, c.ins.max(c.outs));
        let mut x = match c.kind {
            0 => Mixer::new(e.ctx.as_ref(), c.ins, c.outs),
            1 => Mixer::unity(e.ctx.as_ref(), c.ins),
            _ => Mixer::mono_to_stereo_splitter(e.ctx.as_ref()),
        };
        x.node.connect_to_input();
        x.node.connect_to_output();
        e.ctx.start();
        let mut at = 0;
        let mut out = Vec::new();
        for (b, l) in c.lens.iter().enumerate() {
            for (_, i, o, v) in c.sets.iter().filter(|s| s.0 == b) {
                x.set_level(*i, *o, Level::from_linear(*v as f64 / 4.0));
                m[*o][*i] = *v as f64 / 4.0;
            }
            let part: Chans = c.input.iter().map(|x| x[at..at + l].to_vec()).collect();
            let got = e.block(&part, c.outs);
            let want: Chans = m
                .iter()
                .map(|row| (0..*l).map(|f| row.iter().zip(&part).map(|(g, x)| g * x[f] as f64).sum::<f64>() as f32).collect())
                .collect();
            same_all(&format!("block {b}"), &got, &want, 1e-5)?;
            for r in &m {
                for v in r {
                    ensure!(v.is_finite(), "model");
                }
            }
            rec.state(&(c.ins, c.outs, m.iter().flatten().map(|v| v.to_bits()).collect::<Vec<_>>()));
            out.extend(got.into_iter().flatten().map(|x| x.to_bits()));
            at += l;
        }
        rec.exec(&out);
        Ok(())
    })
}

pub fn c23(t: Tier) -> Vec<Suite> {
    let gains = [0.0f64, 1.0, 0.5, -2.0];
    let glen = t.pick(5, 6);
    let longest = t.pick(80, 300);
    let pans = [0.0f64, 1.0, -1.0, 0.5, -0.25, 3.0, -9.0];
    let plen = t.pick(3, 4);
    let lv = [0i32, 4, 2, -4];
    let block_lens = [1usize, 2, 15, 16, 17, 31, 33, 48, 64, 100];
    vec![
        cases(
            "gain words",
            &format!("the gain at each of {glen} frames over {gains:?}, 1 to 3 channels, every block partition of {glen} frames, at most 1, 2 or 8 frames per pass"),
            pow(4, glen) * 3 * pow(2, glen - 1) * 3,
            move |mut d: D| {
                let n = 1 + d.n(3);
                let lens = d.composition(glen);
                let maxf = [1usize, 2, 8][d.n(3)];
                let steps = Steps((0..glen).map(|f| (f, d.of(&gains))).collect());
                Some(GainCase { steps, ramp: None, input: signal(glen, n), lens, maxf })
            },
            gain,
        ),
        {
            let values = [0.0f64, 1e-30, 1e-9, 1e-8, 1e-7, 1.2e-7, 1e-6, 1e-3, 0.999, 0.999999, 1.000001, 1.5, 1e4, 1e9, -1e-8, -1.0, -1e6];
            let scales = [1e-3f32, 1.0, 1e6, 1e12];
            cases(
                "gain magnitudes",
                &format!("gains {values:?}, the same for all or another at the last frame; inputs of {scales:?} times full scale; 1 to 3 channels, blocks of 1, 5, 16, 17 and 40 frames"),
                17 * 17 * 4 * 3 * 5,
                move |mut d: D| Some((d.of(&values), d.of(&values), d.of(&scales), 1 + d.n(3), d.of(&[1usize, 5, 16, 17, 40]))),
                |&(g, last, scale, n, len): &(f64, f64, f32, usize, usize), rec: &mut Rec| {
                    inline(0, || {
                        let mut e = eng(SR, 64, 3);
                        let mut gain = Gain::new(e.ctx.as_ref(), n);
                        gain.node.connect_to_input();
                        gain.node.connect_to_output();
                        gain.gain().set_value_now(g);
                        gain.gain().set_value_at_time(last, t_samples((len - 1) as f64, SR));
                        e.ctx.start();
                        let input: Chans = signal(len, n).iter().map(|c| c.iter().map(|v| v * scale).collect()).collect();
                        let out = e.block(&input, n);
                        for c in 0..n {
                            for f in 0..len {
                                let want = input[c][f] as f64 * if f + 1 == len { last } else { g };
                                let got = out[c][f] as f64;
                                ensure!((got - want).abs() <= want.abs() * 1e-5 + 1e-30, "channel {c}, frame {f}: {got} instead of {want}");
                            }
                        }
                        rec.state(&(g.to_bits(), last.to_bits(), n, len));
                        rec.exec(&bits(&out[0]));
                        Ok(())
                    })
                },
            )
        },
        cases(
            "gain over long blocks",
            &format!("one block of every length from 1 to {longest} frames, 1 to 3 channels, constant gain 0, 0.5, 1 or -2, or a ramp over all of it, or a step at its last frame"),
            longest as u64 * 3 * 6,
            move |mut d: D| {
                let (len, n) = (1 + d.n(longest), 1 + d.n(3));
                let k = d.n(6);
                let steps = match k {
                    4 => Steps(vec![]),
                    5 => Steps(vec![(len - 1, 3.0)]),
                    k => st(gains[k]),
                };
                let ramp = (k == 4).then_some((0, len + 1, 4.0));
                Some(GainCase { steps, ramp, input: signal(len, n), lens: vec![len], maxf: 512 })
            },
            gain,
        ),
        cases(
            "pan",
            &format!("the pan at each of {plen} frames over {pans:?}, every block partition, left and right inputs over {{0, 1, -0.5}}"),
            pow(7, plen) * pow(2, plen - 1) * 9,
            move |mut d: D| {
                let lens = d.composition(plen);
                let v = [0.0f32, 1.0, -0.5];
                let (l, r) = (d.of(&v), d.of(&v));
                let steps = Steps((0..plen).map(|f| (f, d.of(&pans))).collect());
                Some(PanCase { steps, input: vec![vec![l; plen], vec![r; plen]], lens, maxf: 2 })
            },
            pan,
        ),
        cases(
            "mixer matrices",
            &format!("every matrix over {lv:?} quarters with at most 2 inputs and 2 outputs, and one entry changed before the second block"),
            4 * pow(4, 4) * 4 * 4,
            move |mut d: D| {
                let (ins, outs) = (1 + d.n(2), 1 + d.n(2));
                let mut sets: Vec<_> = vec![];
                for i in 0..2 {
                    for o in 0..2 {
                        let v = d.of(&lv);
                        if i < ins && o < outs {
                            sets.push((0, i, o, v));
                        } else if v != 0 {
                            return None;
                        }
                    }
                }
                let k = d.n(4);
                if k % 2 >= ins || k / 2 >= outs {
                    return None;
                }
                sets.push((1, k % 2, k / 2, d.of(&lv)));
                Some(MixCase { ins, outs, kind: 0, sets, input: signal(6, ins), lens: vec![2, 3, 1], maxf: 2 })
            },
            mixer,
        ),
        cases(
            "mixer shapes",
            &format!("every shape up to 8 by 8: each single entry at unity, 0.5 or -1, and the full matrix of distinct levels; blocks of {block_lens:?} frames"),
            64 * 66 * 10,
            move |mut d: D| {
                let (ins, outs) = (1 + d.n(8), 1 + d.n(8));
                let k = d.n(66);
                let l = d.of(&block_lens);
                let sets: Vec<_> = if k < 64 {
                    let (i, o) = (k % 8, k / 8);
                    if i >= ins || o >= outs {
                        return None;
                    }
                    vec![(0, i, o, 4), (1, i, o, 2), (2, i, o, -4)]
                } else if k == 64 {
                    (0..ins * outs).map(|k| (0, k % ins, k / ins, k as i32 - 9)).collect()
                } else {
                    // the other way round, some of it after a block
                    (0..ins * outs).rev().map(|k| (k % 2, k % ins, k / ins, 4 + (k as i32 % 5))).collect()
                };
                Some(MixCase { ins, outs, kind: 0, sets, input: signal(3 * l, ins), lens: vec![l; 3], maxf: 128 })
            },
            mixer,
        ),
        cases(
            "ready-made mixers",
            "mono to stereo and unity with 1 to 8 channels, untouched, and with each entry set to 0.5 after the first block",
            9 * 65,
            move |mut d: D| {
                let k = d.n(9);
                let (kind, ins, outs) = if k == 0 { (2, 1, 2) } else { (1, k, k) };
                let s = d.n(65);
                let sets = if s == 64 { vec![] } else { vec![(1, s % 8, s / 8, 2)] };
                if sets.first().is_some_and(|x| x.1 >= ins || x.2 >= outs) {
                    return None;
                }
                Some(MixCase { ins, outs, kind, sets, input: signal(20, ins), lens: vec![3, 17], maxf: 32 })
            },
            mixer,
        ),
        {
            let len = t.pick(7, 9);
            let v = [0.0f64, 0.5, -1.0];
            cases(
                "a pan at every frame",
                &format!("every word of {len} pans over {v:?}; 5 block partitions"),
                pow(3, len) * 5,
                move |mut d: D| {
                    let steps = every(&mut d, &v, len);
                    Some(PanCase { steps, input: signal(len + 3, 2), lens: splits(d.n(5), len + 3), maxf: 16 })
                },
                pan,
            )
        },
        {
            let v: Vec<f64> = around(&[0.0, 1.0, -1.0, 0.5], t.pick(3..=16, 1..=18));
            cases(
                "pans close to their marks",
                &format!("{} pans around the middle, the ends and half way, from the beginning or from frame 5 on; inputs of 1, 2^-10 and 2^10 times full scale; 2 block partitions", v.len()),
                v.len() as u64 * 2 * 3 * 2,
                move |mut d: D| {
                    let x = d.of(&v);
                    let steps = if d.flag() { Steps(vec![(0, 0.25), (5, x)]) } else { st(x) };
                    let input = scaled(signal(12, 2), [1.0, 1.0 / 1024.0, 1024.0][d.n(3)]);
                    Some(PanCase { steps, input, lens: splits([0, 3][d.n(2)], 12), maxf: 8 })
                },
                pan,
            )
        },
        {
            let v: Vec<f64> = around(&[0.0, 1.0, -1.0], t.pick(1..=24, 1..=40)).into_iter().chain([1e-5, 1e-8, 1e-12, 1e-15, -1e-8, 1e4, 1e9]).collect();
            let scales = [1e-6f32, 1.0, 1e6, 1e20];
            let (bounds, n) = (format!("{} levels around 0, 1 and -1, and from 1e-15 to 1e9, on the first or the last route of a 1 by 1, 2 by 1, 1 by 2 or 3 by 3 mixer whose other routes are zero or one half; inputs of {scales:?} times full scale; blocks of 1, 7, 16 and 40 frames", v.len()), v.len() as u64 * 2 * 4 * 2 * 4 * 4);
            cases(
                "mixer levels close to their marks",
                &bounds,
                n,
                move |mut d: D| Some((d.of(&v), d.flag(), d.of(&[(1usize, 1usize), (2, 1), (1, 2), (3, 3)]), d.flag(), d.of(&scales), d.of(&[1usize, 7, 16, 40]))),
                |&(level, last, (ins, outs), others, scale, len): &(f64, bool, (usize, usize), bool, f32, usize), rec: &mut Rec| {
                    inline(0, || {
                        let mut e = eng(SR, 64, 3);
                        let mut x = Mixer::new(e.ctx.as_ref(), ins, outs);
                        x.node.connect_to_input();
                        x.node.connect_to_output();
                        let mut m = vec![vec![if others { 0.5 } else { 0.0 }; ins]; outs];
                        m[if last { outs - 1 } else { 0 }][if last { ins - 1 } else { 0 }] = level;
                        for (o, row) in m.iter().enumerate() {
                            for (i, l) in row.iter().enumerate() {
                                x.set_level(i, o, Level::from_linear(*l));
                            }
                        }
                        e.ctx.start();
                        let input = scaled(signal(len, ins), scale);
                        let out = e.block(&input, outs);
                        for (o, row) in m.iter().enumerate() {
                            for f in 0..len {
                                let parts = || row.iter().zip(&input).map(|(l, x)| l * x[f] as f64);
                                let (want, most) = (parts().sum::<f64>(), parts().map(f64::abs).sum::<f64>());
                                let got = out[o][f] as f64;
                                ensure!((got - want).abs() <= most * 1e-6 + 1e-30, "output {o}, frame {f}: {got} instead of {want}");
                            }
                        }
                        rec.state(&(level.to_bits(), ins, outs, last, others));
                        rec.exec(&bits(&out[0]));
                        Ok(())
                    })
                },
            )
        },
    ]
}
