//! One of each kind of node, with scripts of calls, for the differential properties.

use crate::eng::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

/// Exactly representable frame times and durations.
pub const SR: usize = 512;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
    Gain,
    Pan,
    Biquad,
    Compressor,
    Convolution,
    Mixer,
    Oscillator,
    Adsr,
    Sampler,
    Waveshaper,
    Envelope,
    Recorder,
}
pub const KINDS: [Kind; 12] = [
    Kind::Gain,
    Kind::Pan,
    Kind::Biquad,
    Kind::Compressor,
    Kind::Convolution,
    Kind::Mixer,
    Kind::Oscillator,
    Kind::Adsr,
    Kind::Sampler,
    Kind::Waveshaper,
    Kind::Envelope,
    Kind::Recorder,
];
impl Kind {
    /// Takes input and gives output.
    pub fn passes(self) -> bool {
        !matches!(self, Kind::Oscillator | Kind::Sampler | Kind::Recorder | Kind::Envelope)
    }
    pub fn source(self) -> bool {
        matches!(self, Kind::Oscillator | Kind::Sampler)
    }
}

pub enum Unit {
    Gain(Gain),
    Pan(Pan),
    Biquad(Biquad),
    Compressor(Compressor),
    Convolution(Convolution),
    Mixer(Mixer),
    Oscillator(Oscillator),
    Adsr(Adsr),
    Sampler(Sampler),
    Waveshaper(Waveshaper),
    Envelope(Rc<RefCell<Envelope>>),
    Recorder(Rc<RefCell<Recorder>>),
}

fn secs(frames: f64, sr: usize) -> Duration {
    Duration::from_secs_f64(frames / sr as f64)
}

/// A two-channel sample whose frames all differ.
pub fn sample(frames: usize, sr: usize) -> OwnedAudioBuffer {
    let c: Chans = (0..2).map(|c| (0..frames).map(|f| (f as f32 * 0.37 + c as f32 * 0.11 + 0.05) % 0.9 - 0.3).collect()).collect();
    buf(&c, sr)
}

impl Unit {
    /// A two-channel node.
    pub fn make(kind: Kind, ctx: &mut dyn Context, sr: usize) -> Unit {
        Self::make_n(kind, ctx, sr, 2)
    }
    /// A node of any number of channels; pan and sampler have two, the mixer passes them on.
    pub fn make_n(kind: Kind, ctx: &mut dyn Context, sr: usize, n: usize) -> Unit {
        match kind {
            Kind::Gain => Unit::Gain(Gain::new(ctx, n)),
            Kind::Pan => Unit::Pan(Pan::new(ctx, 2)),
            Kind::Biquad => Unit::Biquad(Biquad::new(ctx, n, BiquadFilterType::LowPass)),
            Kind::Compressor => Unit::Compressor(Compressor::new(ctx, n)),
            Kind::Convolution => {
                let taps = [vec![0.5, -0.25, 0.125, 0.0, 0.75, 0.1, -0.3], vec![0.25, 0.5, 0.0, -0.5, 0.1, 0.2, 0.3]];
                let taps: Chans = (0..n).map(|c| taps[c % 2].clone()).collect();
                Unit::Convolution(Convolution::new(ctx, n, buf(&taps, sr)))
            }
            Kind::Mixer => Unit::Mixer(if n == 2 { Mixer::new(ctx, 2, 2) } else { Mixer::unity(ctx, n) }),
            Kind::Oscillator => Unit::Oscillator(Oscillator::sine(ctx, 40.0, n)),
            Kind::Adsr => Unit::Adsr(Adsr::new(ctx, n, sr)),
            Kind::Sampler => Unit::Sampler(Sampler::new(ctx, sample(90, sr))),
            Kind::Waveshaper => Unit::Waveshaper(Waveshaper::tanh(ctx, n)),
            Kind::Envelope => Unit::Envelope(Envelope::new(ctx, n, secs(0.7, sr), secs(3.0, sr), sr as f64 / 2.5)),
            Kind::Recorder => Unit::Recorder(Recorder::new(ctx, n, sr)),
        }
    }
    /// A two-channel node of its kind that is made with something else than the usual one, in one of several ways.
    pub fn made(kind: Kind, how: usize, ctx: &mut dyn Context, sr: usize) -> Option<Unit> {
        use BiquadFilterType::*;
        let level = Level::from_linear;
        Some(match (kind, how) {
            (_, 0) => Self::make(kind, ctx, sr),
            (Kind::Biquad, k @ 1..=5) => Unit::Biquad(Biquad::new(ctx, 2, [HighPass, BandPass, Notch, LowShelf, HighShelf][k - 1])),
            (Kind::Convolution, k @ 1..=4) => {
                let taps: Chans = match k {
                    1 => vec![vec![0.25; 7]; 2],
                    2 => vec![vec![0.5, 0.0, -0.5]; 2],
                    3 => vec![vec![1.0], vec![-0.5]],
                    _ => (0..2).map(|c| (0..40).map(|f| ((f * 7 + c * 3) % 11) as f32 / 32.0).collect()).collect(),
                };
                Unit::Convolution(Convolution::new(ctx, 2, buf(&taps, sr)))
            }
            (Kind::Mixer, 1) => Unit::Mixer(Mixer::unity(ctx, 2)),
            (Kind::Oscillator, k @ 1..=5) => Unit::Oscillator(match k {
                1 => Oscillator::with_harmonics(ctx, 40.0, 2, &[level(1.0), level(0.5)]),
                2 => Oscillator::with_harmonics(ctx, 40.0, 2, &[level(0.5), level(1.0)]),
                3 => Oscillator::with_harmonics(ctx, 40.0, 2, &[level(1.0), level(0.5), level(0.25)]),
                4 => Oscillator::new(ctx, 40.0, 2, vec![0.0, 1.0, 0.0, -1.0]),
                _ => Oscillator::sine(ctx, 25.0, 2),
            }),
            (Kind::Adsr, 1) => Unit::Adsr(Adsr::new(ctx, 2, sr / 2)),
            (Kind::Sampler, k @ 1..=4) => Unit::Sampler(match k {
                1 => Sampler::new(ctx, sample(40, sr)),
                2 => Sampler::new(ctx, buf(&rough(90, 2), sr)),
                3 => Sampler::new(ctx, sample(91, sr)),
                _ => Sampler::new_with_event_capacity(ctx, buf(&vec![vec![0.5; 90]; 2], sr), 8),
            }),
            (Kind::Waveshaper, k @ 1..=9) => Unit::Waveshaper(match k {
                1..=3 => Waveshaper::soft_saturator(ctx, 2, level([0.0, 0.3, 0.7][k - 1])),
                4..=6 => Waveshaper::hard_clip(ctx, 2, level([0.1, 0.3, 0.7][k - 4])),
                7 => Waveshaper::new(ctx, 2, &|v| v * v),
                8 => Waveshaper::new(ctx, 2, &|v| -v),
                _ => Waveshaper::new(ctx, 2, &|v| 0.5 * v),
            }),
            (Kind::Envelope, k @ 1..=3) => {
                let (a, r, f) = [(3.0, 0.7, 2.5), (0.7, 3.0, 4.5), (0.7, 9.0, 2.5)][k - 1];
                Unit::Envelope(Envelope::new(ctx, 2, secs(a, sr), secs(r, sr), sr as f64 / f))
            }
            (Kind::Recorder, 1) => Unit::Recorder(Recorder::new(ctx, 2, sr / 2)),
            _ => return None,
        })
    }
    pub fn node(&self, f: &mut dyn FnMut(&GraphNode)) {
        match self {
            Unit::Gain(n) => f(&n.node),
            Unit::Pan(n) => f(&n.node),
            Unit::Biquad(n) => f(&n.node),
            Unit::Compressor(n) => f(&n.node),
            Unit::Convolution(n) => f(&n.node),
            Unit::Mixer(n) => f(&n.node),
            Unit::Oscillator(n) => f(&n.node),
            Unit::Adsr(n) => f(&n.node),
            Unit::Sampler(n) => f(&n.node),
            Unit::Waveshaper(n) => f(&n.node),
            Unit::Envelope(n) => f(&n.borrow().node),
            Unit::Recorder(n) => f(&n.borrow().node),
        }
    }
    pub fn connect_to(&self, other: &GraphNode) {
        self.node(&mut |n| n.connect_to(other));
    }
    pub fn fed_by(&self, other: &GraphNode) {
        self.node(&mut |n| other.connect_to(n));
    }
    pub fn to_output(&self) {
        self.node(&mut |n| n.connect_to_output());
    }
    pub fn from_input(&self) {
        self.node(&mut |n| n.connect_to_input());
    }

    /// The k-th of three calls of script `v` (0 or 1), made at frame `now`; what is timed happens within the next few
    /// frames.
    pub fn call(&mut self, v: usize, k: usize, now: usize, sr: usize) {
        let at = |f: f64| t_samples(now as f64 + f, sr);
        let x = v as f64 * 0.125;
        match self {
            Unit::Gain(n) => match k {
                0 => n.gain().set_value_at_time(0.5 + x, at(1.5)),
                1 => n.gain().linear_ramp_to_value(2.0 - x, at(0.5), at(3.25)),
                _ => n.gain().set_value_now(-0.75 + x),
            },
            Unit::Pan(n) => match k {
                0 => n.pan().set_value_now(-0.5 + x),
                1 => n.pan().linear_ramp_to_value(0.75 - x, at(0.0), at(3.0)),
                _ => n.pan().set_value_at_time(0.25 + x, at(2.0)),
            },
            Unit::Biquad(n) => match k {
                0 => n.frequency().set_value_now(60.0 + 40.0 * x),
                1 => n.q().linear_ramp_to_value(2.0 + x, at(0.5), at(3.0)),
                _ => n.gain().set_value_at_time(0.5 + x, at(1.0)),
            },
            Unit::Compressor(n) => match k {
                0 => n.threshold().set_value_now(-20.0 - 8.0 * x),
                1 => n.attack().linear_ramp_to_value(4.0 + x, at(0.0), at(3.0)),
                _ => n.ratio().set_value_at_time(6.0 + x, at(1.0)),
            },
            Unit::Convolution(n) => match k {
                0 => n.dry().set_value_now(0.5 + x),
                1 => n.wet().linear_ramp_to_value(0.25 + x, at(0.0), at(3.0)),
                _ => n.dry().set_value_at_time(0.125 + x, at(2.0)),
            },
            Unit::Mixer(n) => match k {
                0 => n.set_level(0, 0, Level::from_linear(0.75 + x)),
                1 => n.set_level(1, 0, Level::from_linear(0.25 + x)),
                _ => n.set_level(0, 1, Level::from_linear(1.5 + x)),
            },
            Unit::Oscillator(n) => match k {
                0 => n.frequency().set_value_now(100.0 + 80.0 * x),
                1 => n.frequency().linear_ramp_to_value(30.0 + 8.0 * x, at(0.0), at(3.0)),
                _ => n.gain().set_value_at_time(0.5 + x, at(1.0)),
            },
            Unit::Adsr(n) => match k {
                0 => {
                    n.set_adsr(secs(6.0, sr), secs(3.0 + 8.0 * x, sr), Level::from_linear(0.5), secs(7.0, sr));
                    n.note_on_at_time(at(1.0));
                }
                1 => n.note_off_at_time(at(2.0)),
                _ => n.note_on_at_time(at(0.0)),
            },
            Unit::Sampler(n) => match k {
                0 => n.start_from_position_at_time(at(1.0), t_samples(5.0 + 32.0 * x, sr)),
                1 => n.enable_loop(t_samples(8.0, sr), t_samples(19.0 + 8.0 * x, sr)),
                _ => n.stop_at_time(at(2.0)),
            },
            Unit::Waveshaper(n) => match k {
                0 => n.overdrive().set_value_now(0.5 + x),
                1 => n.mix().linear_ramp_to_value(0.25 + x, at(0.0), at(3.0)),
                _ => n.overdrive().set_value_at_time(0.0 + x, at(2.0)),
            },
            Unit::Envelope(n) => drop(n.borrow_mut().take_notifications()),
            Unit::Recorder(n) => match k {
                0 => n.borrow_mut().record_now(),
                1 => n.borrow_mut().stop_record_at_time(at(2.5)),
                _ => n.borrow_mut().record_now(),
            },
        }
    }

    /// The calls that take effect at once, and the ones that take something back.
    pub fn now(&mut self, k: usize, sr: usize) {
        fn one(p: &mut rawdio::AudioParameter, k: usize) {
            match k {
                0 => p.set_value_now(0.375),
                1 => p.cancel_scheduled_changes(),
                _ => p.cancel_scheduled_changes_ending_after(Timestamp::zero()),
            }
        }
        match self {
            Unit::Gain(n) => one(n.gain(), k),
            Unit::Pan(n) => one(n.pan(), k),
            Unit::Biquad(n) => one(n.shelf_gain(), k),
            Unit::Compressor(n) => one(n.wet(), k),
            Unit::Convolution(n) => one(n.wet(), k),
            Unit::Mixer(n) => n.set_level(k % 2, k / 2, Level::from_linear(0.5)),
            Unit::Oscillator(n) => one(n.gain(), k),
            Unit::Adsr(n) => match k {
                0 => n.note_on_at_time(Timestamp::zero()),
                1 => n.note_off_at_time(Timestamp::zero()),
                _ => n.set_release_time(secs(3.0, sr)),
            },
            Unit::Sampler(n) => match k {
                0 => n.start_now(),
                1 => n.stop_now(),
                _ => {
                    n.cancel_loop();
                    n.cancel_all();
                }
            },
            Unit::Waveshaper(n) => one(n.mix(), k),
            Unit::Envelope(n) => drop(n.borrow_mut().take_notifications()),
            Unit::Recorder(n) => match k {
                0 => n.borrow_mut().record_now(),
                1 => n.borrow_mut().stop_record_now(),
                _ => {
                    let recording = n.borrow().is_recording();
                    drop((recording, n.borrow_mut().take_recording()));
                }
            },
        }
    }

    /// Settings without times.
    pub fn settings(&mut self, sr: usize) {
        match self {
            Unit::Gain(n) => n.gain().set_value_now(0.7),
            Unit::Pan(n) => n.pan().set_value_now(-0.3),
            Unit::Biquad(n) => {
                n.frequency().set_value_now(sr as f64 / 9.0);
                n.q().set_value_now(1.5);
                n.gain().set_value_now(0.9);
            }
            Unit::Compressor(n) => {
                n.attack().set_value_now(3.0);
                n.release().set_value_now(20.0);
                n.threshold().set_value_now(-18.0);
                n.ratio().set_value_now(4.0);
                n.knee().set_value_now(6.0);
                n.dry().set_value_now(0.25);
            }
            Unit::Convolution(n) => n.dry().set_value_now(0.5),
            Unit::Mixer(n) => {
                n.set_level(0, 0, Level::from_linear(0.75));
                n.set_level(1, 0, Level::from_linear(0.25));
                n.set_level(1, 1, Level::from_linear(1.5));
            }
            Unit::Oscillator(n) => {
                n.frequency().set_value_now(sr as f64 / 11.3);
                n.gain().set_value_now(0.9);
            }
            Unit::Adsr(n) => {
                n.set_adsr(secs(4.0, sr), secs(2.0, sr), Level::from_linear(0.5), secs(3.0, sr));
                n.note_on_at_time(Timestamp::zero());
            }
            Unit::Sampler(n) => {
                n.start_now();
                n.enable_loop(Timestamp::zero(), t_samples(61.0, sr));
            }
            Unit::Waveshaper(n) => {
                n.overdrive().set_value_now(0.4);
                n.mix().set_value_now(0.8);
            }
            Unit::Envelope(_) => (),
            Unit::Recorder(n) => n.borrow_mut().record_now(),
        }
    }

    /// A full schedule of timed changes over the first `n` frames; `n` at least 8.
    pub fn schedule(&mut self, n: usize, sr: usize) {
        self.schedule_from(0, n, sr)
    }
    /// The same over the `n` frames from `base`.
    pub fn schedule_from(&mut self, base: usize, n: usize, sr: usize) {
        // q-th eighth of the schedule
        let after = |q: f64| (n as f64 * q / 8.0 * 4.0).round() / 4.0;
        let at = |q: f64| t_samples(base as f64 + after(q), sr);
        let at_len = |q: f64| Duration::from_secs_f64(t_samples(after(q), sr).as_seconds());
        match self {
            Unit::Gain(n) => {
                n.gain().set_value_at_time(0.5, at(1.0));
                n.gain().linear_ramp_to_value(2.0, at(2.0), at(5.0));
                n.gain().exponential_ramp_to_value(0.25, at(5.0), at(7.0));
            }
            Unit::Pan(n) => {
                n.pan().set_value_at_time(-1.0, at(1.5));
                n.pan().linear_ramp_to_value(1.0, at(2.0), at(7.0));
            }
            Unit::Biquad(n) => {
                n.frequency().set_value_now(50.0);
                n.frequency().exponential_ramp_to_value(150.0, at(1.0), at(6.0));
                n.q().set_value_at_time(4.0, at(3.0));
                n.gain().linear_ramp_to_value(0.5, at(2.0), at(7.0));
            }
            Unit::Compressor(n) => {
                n.threshold().set_value_now(-24.0);
                n.attack().linear_ramp_to_value(5.0, at(0.0), at(4.0));
                n.release().set_value_at_time(2.0, at(3.0));
                n.ratio().set_value_at_time(8.0, at(5.0));
                n.knee().linear_ramp_to_value(12.0, at(1.0), at(6.0));
                n.wet().set_value_at_time(0.75, at(6.0));
                n.dry().linear_ramp_to_value(0.5, at(1.0), at(2.5));
            }
            Unit::Convolution(n) => {
                n.wet().linear_ramp_to_value(0.5, at(1.0), at(6.0));
                n.dry().set_value_at_time(0.75, at(3.0));
            }
            Unit::Mixer(n) => {
                n.set_level(0, 0, Level::from_linear(0.75));
                n.set_level(1, 0, Level::from_linear(0.25));
                n.set_level(0, 1, Level::from_linear(1.5));
            }
            Unit::Oscillator(n) => {
                n.frequency().exponential_ramp_to_value(200.0, at(1.0), at(5.0));
                n.frequency().set_value_at_time(20.0, at(6.0));
                n.gain().linear_ramp_to_value(0.5, at(0.0), at(7.0));
            }
            Unit::Adsr(n) => {
                n.set_adsr(at_len(1.5), at_len(1.0), Level::from_linear(0.5), at_len(2.0));
                n.note_on_at_time(at(0.5));
                n.note_off_at_time(at(4.0));
                n.note_on_at_time(at(5.0));
                n.note_off_at_time(at(5.5));
                n.note_on_at_time(at(7.5));
            }
            Unit::Sampler(n) => {
                n.start_from_position_at_time(at(0.5), t_samples(3.0, sr));
                n.enable_loop_at_time(at(1.0), t_samples(2.0, sr), t_samples(7.0, sr));
                n.stop_at_time(at(4.0));
                n.start_from_position_at_time(at(5.0), t_samples(0.0, sr));
                n.cancel_loop_at_time(at(6.5));
                n.start_from_position_at_time(at(7.0), t_samples(20.0, sr));
            }
            Unit::Waveshaper(n) => {
                n.overdrive().linear_ramp_to_value(1.0, at(1.0), at(5.0));
                n.mix().set_value_at_time(0.5, at(3.0));
            }
            Unit::Envelope(_) => (),
            Unit::Recorder(n) => {
                n.borrow_mut().record_now();
                n.borrow_mut().stop_record_at_time(at(6.0));
            }
        }
    }

    /// What can be read of the unit on the control side, taking what there is to take.
    pub fn observe(&mut self) -> Vec<f64> {
        let mut v: Vec<f64> = vec![];
        match self {
            Unit::Gain(n) => v.push(n.gain().get_value().load(SeqCst)),
            Unit::Pan(n) => v.push(n.pan().get_value().load(SeqCst)),
            Unit::Biquad(n) => {
                v.push(n.frequency().get_value().load(SeqCst));
                v.push(n.q().get_value().load(SeqCst));
                v.push(n.gain().get_value().load(SeqCst));
                v.push(n.shelf_gain().get_value().load(SeqCst));
            }
            Unit::Compressor(n) => {
                v.push(n.attack().get_value().load(SeqCst));
                v.push(n.release().get_value().load(SeqCst));
                v.push(n.ratio().get_value().load(SeqCst));
                v.push(n.threshold().get_value().load(SeqCst));
                v.push(n.knee().get_value().load(SeqCst));
                v.push(n.wet().get_value().load(SeqCst));
                v.push(n.dry().get_value().load(SeqCst));
            }
            Unit::Convolution(n) => {
                v.push(n.wet().get_value().load(SeqCst));
                v.push(n.dry().get_value().load(SeqCst));
            }
            Unit::Oscillator(n) => {
                v.push(n.frequency().get_value().load(SeqCst));
                v.push(n.gain().get_value().load(SeqCst));
            }
            Unit::Waveshaper(n) => {
                v.push(n.overdrive().get_value().load(SeqCst));
                v.push(n.mix().get_value().load(SeqCst));
            }
            Unit::Envelope(n) => {
                for r in n.borrow_mut().take_notifications() {
                    v.push(r.channel_index() as f64);
                    v.push(r.peak_level() as f64);
                }
            }
            Unit::Recorder(n) => {
                let mut n = n.borrow_mut();
                v.push(n.is_recording() as u8 as f64);
                if let Some(b) = n.take_recording() {
                    v.push(b.frame_count() as f64);
                    for c in chans(&b) {
                        v.extend(c.iter().map(|x| *x as f64));
                    }
                }
            }
            Unit::Mixer(_) | Unit::Adsr(_) | Unit::Sampler(_) => (),
        }
        v
    }
}

/// A signal with many mantissa bits, so that the order of additions shows.
pub fn rough(frames: usize, channels: usize) -> Chans {
    (0..channels)
        .map(|c| {
            (0..frames)
                .map(|f| {
                    let x = (f as u32 * 7919 + c as u32 * 104_729 + 17).wrapping_mul(2_654_435_761);
                    (x >> 8) as f32 / (1 << 23) as f32 - 1.0
                })
                .collect()
        })
        .collect()
}
