//! C29: no settings within range make the engine panic or put out anything that is not a number.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::time::Duration;

/// Kinds of input; the level is at most 120 dB above full scale.
const INPUTS: [&str; 8] = ["silence", "full scale", "alternating", "denormal", "smallest normal", "large", "impulse", "rough"];
fn input(k: usize, frames: usize, chans: usize) -> Chans {
    let rough = super::rigs::rough(frames, chans);
    (0..chans)
        .map(|c| {
            (0..frames)
                .map(|f| match k {
                    0 => 0.0,
                    1 => 1.0,
                    2 => if (f + c) % 2 == 0 { 1.0 } else { -1.0 },
                    3 => 1.0e-41 * (f as f32 - 2.0),
                    4 => f32::MIN_POSITIVE,
                    5 => if f % 3 == 0 { -1.0e6 } else { 1.0e6 },
                    6 => if f == 1 { 1.0 } else { -0.0 },
                    _ => rough[c][f],
                })
                .collect()
        })
        .collect()
}

const LENS: [&[usize]; 4] = [&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[13], &[4, 9], &[3, 5, 4, 1]];
const FRAMES: usize = 13;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Way {
    Now,
    /// a linear ramp from the value before
    Ramp,
    /// set for the middle of the run
    Later,
}
const WAYS: [Way; 3] = [Way::Now, Way::Ramp, Way::Later];

fn put(p: &mut AudioParameter, v: f64, way: Way, sr: usize) {
    match way {
        Way::Now => p.set_value_now(v),
        Way::Ramp => p.linear_ramp_to_value(v, t_samples(1.0, sr), t_samples(8.5, sr)),
        Way::Later => p.set_value_at_time(v, t_samples(5.0, sr)),
    }
}

#[derive(Debug, Clone)]
struct Env {
    sr: usize,
    chans: usize,
    /// channels of the output buffer less those of the node
    more: i32,
    lens: usize,
    input: &'static str,
    way: Way,
    /// silence for so many frames follows
    after: usize,
}

fn env(d: &mut D, chans: &[usize], rates: &[usize]) -> Env {
    Env { input: d.of(&INPUTS), lens: d.n(4), chans: d.of(chans), more: d.n(3) as i32 - 1, way: d.of(&WAYS), sr: d.of(rates), after: 0 }
}
fn envs(chans: &[usize], rates: &[usize]) -> u64 {
    prod(&[8, 4, chans.len() as u64, 3, 3, rates.len() as u64])
}

/// The same; the output has as many channels as the node unless thorough.
fn env_plain(t: Tier, d: &mut D, chans: &[usize], rates: &[usize]) -> Env {
    match t {
        Tier::Quick => Env { input: d.of(&INPUTS), lens: d.n(4), chans: d.of(chans), more: 0, way: d.of(&WAYS), sr: d.of(rates), after: 0 },
        Tier::Thorough => env(d, chans, rates),
    }
}
fn envs_plain(t: Tier, chans: &[usize], rates: &[usize]) -> u64 {
    envs(chans, rates) / t.pick(3, 1)
}

#[derive(Clone, Copy, PartialEq)]
enum Tail {
    /// silence in, silence out
    None,
    /// silence so many frames after the input has ended
    After(usize),
    /// sounds by itself
    Source,
    /// silence only if the input has been silent all along
    Long,
}

/// Run the case: `make` gives the node's life.
fn go<N>(c: &Env, what: &dyn std::fmt::Debug, tail: Tail, rec: &mut Rec, make: impl FnOnce(&mut dyn Context, &Env) -> N, node: impl Fn(&N) -> &GraphNode, set: impl FnOnce(&mut N, &Env)) -> Check {
    inline(0, || {
        let outs = (c.chans as i32 + c.more).max(1) as usize;
        let mut e = eng(c.sr, 4, c.chans.max(4));
        let mut n = make(e.ctx.as_mut(), c);
        node(&n).connect_to_input();
        node(&n).connect_to_output();
        set(&mut n, c);
        e.ctx.start();
        let kind = INPUTS.iter().position(|k| *k == c.input).unwrap();
        let x = input(kind, FRAMES, c.chans);
        let mut out = e.blocks(&x, LENS[c.lens], outs);
        let after = match tail {
            Tail::After(k) => k + 6,
            Tail::None => 6,
            _ => 3,
        };
        for o in out.iter_mut().zip(e.quiet(after, outs)) {
            o.0.extend(o.1);
        }
        for (k, o) in out.iter().enumerate() {
            for (f, v) in o.iter().enumerate() {
                ensure!(v.is_finite(), "channel {k}, frame {f} is {v}");
                let silent = match tail {
                    Tail::Source => k >= c.chans,
                    Tail::Long => kind == 0 || k >= c.chans,
                    Tail::None => kind == 0 || k >= c.chans || f >= FRAMES,
                    Tail::After(n) => kind == 0 || k >= c.chans || f >= FRAMES + n,
                };
                let limit = if kind == 5 { 2.0 } else { 1.0e-5 };
                let limit = if matches!(tail, Tail::After(_)) && k < c.chans && kind != 0 { limit } else { 0.0 };
                ensure!(!silent || v.abs() <= limit, "channel {k}, frame {f} is {v}, not silence");
            }
        }
        rec.state(&(format!("{what:?}"), c.input, c.chans, c.sr));
        rec.exec(&bits(&out[0]));
        Ok(())
    })
}

const BOTH: [usize; 2] = [44_100, 96_000];
fn rates(t: Tier) -> &'static [usize] {
    t.pick(&BOTH[..1], &BOTH)
}

fn gain(t: Tier) -> Suite {
    let values: Vec<f64> = vec![1.0, 0.0, -1.0, 1.0e-45, 1.0e-12, 1.0e3, -1.0e6, -0.0];
    let chans: &'static [usize] = t.pick(&[1, 2, 5], &[1, 2, 3, 5, 8]);
    cases("gain", &format!("gain {values:?}; channels {chans:?}"), envs(chans, rates(t)) * values.len() as u64, move |mut d: D| Some((env(&mut d, chans, rates(t)), d.of(&values))), |(c, v), rec| {
        go(c, v, Tail::None, rec, |x, c| Gain::new(x, c.chans), |n| &n.node, |n, c| put(n.gain(), *v, c.way, c.sr))
    })
}

fn pan(t: Tier) -> Suite {
    let values: Vec<f64> = vec![0.0, -1.0, 1.0, 0.5, -1.0e-30, 7.0, -7.0];
    cases("pan", &format!("pan {values:?}"), envs(&[2], rates(t)) * values.len() as u64, move |mut d: D| Some((env(&mut d, &[2], rates(t)), d.of(&values))), |(c, v), rec| {
        go(c, v, Tail::None, rec, |x, _| Pan::new(x, 2), |n| &n.node, |n, c| put(n.pan(), *v, c.way, c.sr))
    })
}

fn waveshaper(t: Tier) -> Suite {
    let over = [0.0, 0.5, 1.0, 5.0];
    let mix = [1.0, 0.0, 0.5, -3.0];
    cases(
        "waveshaper",
        &format!("tanh, soft saturation and hard clip with thresholds 0, 0.5 and 1, a step; overdrive {over:?}, mix {mix:?}; one and three channels"),
        envs_plain(t, &[1, 3], rates(t)) * 8 * 16,
        move |mut d: D| Some((env_plain(t, &mut d, &[1, 3], rates(t)), (d.n(8), d.of(&over), d.of(&mix)))),
        |(c, v), rec| {
            let make = |x: &mut dyn Context, c: &Env| match v.0 {
                0 => Waveshaper::tanh(x, c.chans),
                k @ 1..=3 => Waveshaper::soft_saturator(x, c.chans, Level::from_linear((k - 1) as f64 / 2.0)),
                k @ 4..=6 => Waveshaper::hard_clip(x, c.chans, Level::from_linear((k - 4) as f64 / 2.0)),
                _ => Waveshaper::new(x, c.chans, &|v: f32| if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { 0.0 }),
            };
            go(c, v, Tail::None, rec, make, |n| &n.node, |n, c| {
                put(n.overdrive(), v.1, c.way, c.sr);
                put(n.mix(), v.2, c.way, c.sr);
            })
        },
    )
}

fn biquad(t: Tier) -> Suite {
    let types = 6;
    let freq: Vec<f64> = vec![20.0, 1_000.0, 20_000.0, 0.0, 1.0e9];
    let q: Vec<f64> = vec![0.1, 0.7071, 10.0];
    let shelf: Vec<f64> = t.pick(vec![0.0, 1.0e9], vec![0.0, 1.0, 0.25, 1.0e9]);
    let gain: Vec<f64> = t.pick(vec![1.0], vec![1.0, 0.0, 1.0e9]);
    let n = prod(&[6, 5, 3, shelf.len() as u64, gain.len() as u64]);
    cases(
        "biquad",
        &format!("six types, frequency {freq:?}, q {q:?}, shelf gain {shelf:?}, gain {gain:?} (each limited to its range); one and two channels"),
        envs_plain(t, &[1, 2], rates(t)) * n,
        move |mut d: D| Some((env_plain(t, &mut d, &[1, 2], rates(t)), (d.n(types), d.of(&freq), d.of(&q), d.of(&shelf), d.of(&gain)))),
        |(c, v), rec| {
            let ty = match v.0 {
                0 => BiquadFilterType::HighPass,
                1 => BiquadFilterType::LowPass,
                2 => BiquadFilterType::BandPass,
                3 => BiquadFilterType::Notch,
                4 => BiquadFilterType::HighShelf,
                _ => BiquadFilterType::LowShelf,
            };
            go(c, v, Tail::Long, rec, |x, c| Biquad::new(x, c.chans, ty), |n| &n.node, |n, c| {
                put(n.frequency(), v.1, c.way, c.sr);
                put(n.q(), v.2, c.way, c.sr);
                put(n.shelf_gain(), v.3, c.way, c.sr);
                put(n.gain(), v.4, c.way, c.sr);
            })
        },
    )
}

fn compressor(t: Tier) -> Suite {
    let attack = [0.0, 1.0, 1_000.0];
    let release: &'static [f64] = t.pick(&[0.0, 10_000.0], &[0.0, 10.0, 10_000.0]);
    let ratio = [1.0, 3.0, 1.0e30, f64::MAX, f64::INFINITY];
    let threshold = [-128.0, -20.0, 0.0, 24.0];
    let knee = [0.0, 6.0, 24.0];
    let mix: Vec<(f64, f64)> = t.pick(vec![(1.0, 0.0), (9.0, 9.0)], vec![(1.0, 0.0), (0.0, 0.0), (9.0, 9.0), (0.5, 1.0)]);
    cases(
        "compressor",
        &format!("attack {attack:?}, release {release:?}, ratio {ratio:?}, threshold {threshold:?}, knee {knee:?}, wet and dry {mix:?} (each limited to its range); one and three channels"),
        envs(&[1, 3], &[44_100]) / 3 * prod(&[3, release.len() as u64, 5, 4, 3, mix.len() as u64]),
        move |mut d: D| {
            let e = Env { input: d.of(&INPUTS), lens: d.n(4), chans: d.of(&[1, 3]), more: 0, way: d.of(&WAYS), sr: 44_100, after: 0 };
            Some((e, (d.of(&attack), d.of(release), d.of(&ratio), d.of(&threshold), d.of(&knee), d.of(&mix))))
        },
        |(c, v), rec| {
            go(c, v, Tail::None, rec, |x, c| Compressor::new(x, c.chans), |n| &n.node, |n, c| {
                put(n.attack(), v.0, c.way, c.sr);
                put(n.release(), v.1, c.way, c.sr);
                put(n.ratio(), v.2, c.way, c.sr);
                put(n.threshold(), v.3, c.way, c.sr);
                put(n.knee(), v.4, c.way, c.sr);
                put(n.wet(), v.5 .0, c.way, c.sr);
                put(n.dry(), v.5 .1, c.way, c.sr);
            })
        },
    )
}

fn convolution(t: Tier) -> Suite {
    let wet: &'static [f64] = t.pick(&[1.0, 0.0, 7.0], &[1.0, 0.0, 0.5, 7.0]);
    let taps: &'static [usize] = t.pick(&[1, 2, 4, 5, 9, 40], &[1, 2, 3, 4, 5, 8, 9, 40]);
    cases(
        "convolution",
        &format!("impulses of {taps:?} taps, silent, full scale, large or denormal; wet and dry {wet:?} (limited to their range); one and two channels"),
        envs_plain(t, &[1, 2], &[44_100]) * prod(&[taps.len() as u64, 4, wet.len() as u64, wet.len() as u64]),
        move |mut d: D| Some((env_plain(t, &mut d, &[1, 2], &[44_100]), (d.of(taps), d.n(4), d.of(wet), d.of(wet)))),
        |(c, v), rec| {
            let level = [0.0, 1.0, 1.0e3, 1.0e-41][v.1];
            let imp: Chans = (0..c.chans).map(|k| (0..v.0).map(|f| level * if (f + k) % 2 == 0 { 1.0 } else { -0.5 }).collect()).collect();
            // transforms leave rounding errors of the order of the largest sample
            let tail = if v.1 == 2 { Tail::Long } else { Tail::After(v.0) };
            go(c, v, tail, rec, |x, c| Convolution::new(x, c.chans, buf(&imp, c.sr)), |n| &n.node, |n, c| {
                put(n.wet(), v.2, c.way, c.sr);
                put(n.dry(), v.3, c.way, c.sr);
            })
        },
    )
}

fn mixer() -> Suite {
    let levels = [0.0, 1.0, 1.0e3, 1.0e-30];
    cases(
        "mixer",
        &format!("one to four inputs and outputs, one level or all of {levels:?}"),
        envs(&[1, 2, 3, 4], &[44_100]) * 16 * 2,
        move |mut d: D| Some((env(&mut d, &[1, 2, 3, 4], &[44_100]), (d.n(4) + 1, d.of(&levels), d.flag()))),
        |(c, v), rec| {
            let outs = c.chans;
            let c2 = Env { more: c.more, ..c.clone() };
            go(&c2, v, Tail::None, rec, |x, _| Mixer::new(x, v.0, outs), |n| &n.node, |n, _| {
                for i in 0..v.0 {
                    for o in 0..outs {
                        if v.2 || (i == 0 && o == outs - 1) {
                            n.set_level(i, o, Level::from_linear(v.1));
                        }
                    }
                }
            })
        },
    )
}

fn oscillator(t: Tier) -> Suite {
    let freq = [20.0, 440.0, 11_025.0, 20_000.0, 0.0, 1.0e9];
    let gain = [1.0, 0.0, -1.0e3, 1.0e-45];
    let tables: Vec<usize> = t.pick(vec![3, 4, 64], vec![3, 4, 5, 64, 1000]);
    let rates = [8_000, 44_100, 96_000];
    let n = tables.len();
    cases(
        "oscillator",
        &format!("frequency {freq:?}, gain {gain:?} (limited to their range), tables of {tables:?} samples; one and three channels, rates {rates:?}"),
        prod(&[4, 3, 3, 3, 2, 6, 4, n as u64]),
        move |mut d: D| {
            let e = Env { input: "rough", lens: d.n(4), chans: d.of(&[1, 3]), more: d.n(3) as i32 - 1, way: d.of(&WAYS), sr: d.of(&rates), after: 0 };
            Some((e, (d.of(&freq), d.of(&gain), d.of(&tables))))
        },
        |(c, v), rec| {
            let table: Vec<f64> = (0..v.2).map(|i| (i as f64 * 0.7).sin()).collect();
            go(c, v, Tail::Source, rec, |x, c| Oscillator::new(x, 100.0, c.chans, table), |n| &n.node, |n, c| {
                put(n.frequency(), v.0, c.way, c.sr);
                put(n.gain(), v.1, c.way, c.sr);
            })
        },
    )
}

fn adsr() -> Suite {
    let times = [0.0, 1.0e-9, 1.0e-4, 1.0e6];
    let sustain = [0.0, 0.5, 1.0, 1.0e-9];
    let notes: Vec<Vec<(usize, bool)>> = vec![vec![], vec![(0, true)], vec![(0, false)], vec![(0, true), (4, false)], vec![(0, true), (2, false), (3, true), (3, false), (7, true)], vec![(5, true), (5, true), (5, false), (9, false)]];
    cases(
        "adsr",
        &format!("attack, decay and release {times:?} s, sustain {sustain:?}, notes (frame, on) {notes:?}"),
        prod(&[8, 4, 2, 4, 4, 4, 4, 6]),
        move |mut d: D| {
            let e = Env { input: d.of(&INPUTS), lens: d.n(4), chans: d.of(&[1, 2]), more: 0, way: Way::Now, sr: 44_100, after: 0 };
            Some((e, (d.of(&times), d.of(&times), d.of(&times), d.of(&sustain), d.of(&notes))))
        },
        |(c, v), rec| {
            let s = Duration::from_secs_f64;
            go(c, v, Tail::None, rec, |x, c| Adsr::new(x, c.chans, c.sr), |n| &n.node, |n, c| {
                n.set_adsr(s(v.0), s(v.1), Level::from_linear(v.3), s(v.2));
                for (f, on) in &v.4 {
                    let t = t_samples(*f as f64, c.sr);
                    if *on {
                        n.note_on_at_time(t);
                    } else {
                        n.note_off_at_time(t);
                    }
                }
            })
        },
    )
}

fn sampler() -> Suite {
    let lens = [1usize, 2, 3, 10];
    let starts = [0.0, 1.0, 2.0, 9.0, 10.0, 15.0, 1.0e9];
    let points = [0.0, 1.0, 2.0, 9.0, 10.0, 15.0, 1.0e9];
    let rates = [64, 44_100];
    cases(
        "sampler",
        &format!("samples of {lens:?} frames, started at {starts:?} at frame 0 or 3 or not, stopped at frame 6 or not, looped between any two of {points:?}, the second not before the first, or not; rates {rates:?}"),
        prod(&[4, 4, 7, 3, 2, 7, 8, 2, 2]),
        move |mut d: D| {
            let e = Env { input: "rough", lens: d.n(4), chans: 2, more: 0, way: Way::Now, sr: d.of(&rates), after: 0 };
            let (len, start, at, stop) = (d.of(&lens), d.of(&starts), [None, Some(0), Some(3)][d.n(3)], d.flag());
            let (a, b) = (d.of(&points), d.n(8));
            let looped = (b < 7).then(|| (a, points[b % 7]));
            let late = d.flag();
            if looped.is_some_and(|l| l.1 < l.0) {
                return None;
            }
            Some((e, (len, start, at, stop, looped, late)))
        },
        |(c, v), rec| {
            let s: Chans = (0..2).map(|k| (0..v.0).map(|f| 0.9 - 0.05 * (f + k) as f32).collect()).collect();
            let sr = c.sr;
            let smp = buf(&s, sr);
            go(c, v, Tail::Source, rec, |x, _| Sampler::new(x, smp), |n| &n.node, |n, _| {
                let t = |f: f64| t_samples(f, sr);
                if let Some((a, b)) = v.4 {
                    if v.5 {
                        n.enable_loop_at_time(t(4.0), t(a), t(b));
                    } else {
                        n.enable_loop(t(a), t(b));
                    }
                }
                if let Some(f) = v.2 {
                    n.start_from_position_at_time(t(f as f64), t(v.1));
                }
                if v.3 {
                    n.stop_at_time(t(6.0));
                }
            })
        },
    )
}

#[derive(Debug, Clone)]
struct Meter {
    attack: f64,
    release: f64,
    freq: f64,
    chans: usize,
    input: usize,
    lens: usize,
}

fn meter() -> Suite {
    let times = [0.0, 1.0e-9, 1.0e-3, 1.0e6];
    let freqs = [1.0e-6, 1.0, 1_000.0, 44_100.0, 100_000.0];
    cases(
        "meter",
        &format!("attack and release {times:?} s, notification rates {freqs:?} Hz, one and three channels"),
        prod(&[4, 4, 5, 2, 8, 4]),
        move |mut d: D| Some(Meter { attack: d.of(&times), release: d.of(&times), freq: d.of(&freqs), chans: d.of(&[1, 3]), input: d.n(8), lens: d.n(4) }),
        |c, rec| {
            inline(0, || {
                let mut e = eng(44_100, 4, 3);
                let s = Duration::from_secs_f64;
                let m = Envelope::new(e.ctx.as_mut(), c.chans, s(c.attack), s(c.release), c.freq);
                m.borrow().node.connect_to_input();
                m.borrow().node.connect_to_output();
                e.ctx.start();
                let x = input(c.input, FRAMES, c.chans);
                let out = e.blocks(&x, LENS[c.lens], c.chans);
                same_all("output", &out, &vec![vec![0.0; FRAMES]; c.chans], 0.0)?;
                e.ctx.process_notifications();
                for n in m.borrow_mut().take_notifications() {
                    ensure!(n.peak_level().is_finite() && n.peak_level() >= 0.0, "a reading of {}", n.peak_level());
                    ensure!(c.input != 0 || n.peak_level() == 0.0, "a reading of {} in silence", n.peak_level());
                    ensure!(n.channel_index() < c.chans, "a reading of channel {}", n.channel_index());
                    rec.exec(&n.peak_level().to_bits());
                }
                rec.state(&(c.attack.to_bits(), c.release.to_bits(), c.freq.to_bits(), c.chans, c.input));
                Ok(())
            })
        },
    )
}

#[derive(Debug, Clone)]
struct Shape {
    sr: usize,
    maxf: usize,
    maxc: usize,
    ins: usize,
    outs: usize,
    nodec: usize,
    len: usize,
    with: usize,
}

/// Buffers of any shape given to process().
fn shapes(t: Tier) -> Suite {
    let top = t.pick(20, 70);
    let maxfs = [1usize, 4, 7, 16];
    let rates = [1usize, 8_000, 44_100, 192_000];
    cases(
        "shapes of buffers",
        &format!("blocks of 1 to {top} frames, 1 to 5 input and output channels, engines for 1 to 4 channels and {maxfs:?} frames, nothing, a gain, an oscillator or a meter of every number of channels up to the engine's; rates {rates:?}"),
        prod(&[top as u64, 5, 5, 4, 4, 4, 4, 4]),
        move |mut d: D| {
            let c = Shape { len: d.n(top) + 1, ins: d.n(5) + 1, outs: d.n(5) + 1, maxc: d.n(4) + 1, nodec: d.n(4) + 1, maxf: d.of(&maxfs), sr: d.of(&rates), with: d.n(4) };
            (c.nodec <= c.maxc && (c.with != 0 || c.nodec == 1) && (c.sr == 44_100 || c.len < 4)).then_some(c)
        },
        |c, rec| {
            inline(0, || {
                let mut e = eng(c.sr, c.maxf, c.maxc);
                let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
                let ports = |n: &GraphNode| {
                    n.connect_to_input();
                    n.connect_to_output();
                };
                match c.with {
                    0 => (),
                    1 => {
                        let g = Gain::new(e.ctx.as_ref(), c.nodec);
                        ports(&g.node);
                        keep.push(Box::new(g));
                    }
                    2 => {
                        let g = Oscillator::sine(e.ctx.as_ref(), 100.0, c.nodec);
                        ports(&g.node);
                        keep.push(Box::new(g));
                    }
                    _ => {
                        let ctx = e.ctx.as_mut();
                        let g = Envelope::new(ctx, c.nodec, Duration::ZERO, Duration::from_millis(1), 1_000.0);
                        ports(&g.borrow().node);
                        keep.push(Box::new(g));
                    }
                }
                e.ctx.start();
                let x = super::rigs::rough(c.len, c.ins);
                for _ in 0..2 {
                    let out = e.block(&x, c.outs);
                    for (k, o) in out.iter().enumerate() {
                        ensure!(o.iter().all(|v| v.is_finite()), "channel {k} is {}", show(o));
                        let silent = vec![0.0; c.len];
                        let has = c.with != 0 && k < c.nodec;
                        let want = match c.with {
                            1 if has && k < c.ins => &x[k],
                            2 if has => o,
                            _ => &silent,
                        };
                        same(&format!("channel {k}"), o, want, 0.0)?;
                    }
                    rec.exec(&bits(&out[0]));
                }
                rec.state(&(c.ins, c.outs, c.nodec, c.maxc, c.len, c.with));
                Ok(())
            })
        },
    )
}

pub fn c29(t: Tier) -> Vec<Suite> {
    vec![gain(t), pan(t), waveshaper(t), biquad(t), compressor(t), convolution(t), mixer(), oscillator(t), adsr(), sampler(), meter(), shapes(t)]
}
