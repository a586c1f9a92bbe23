//! The real engine, driven one call at a time.

pub use crossbeam::mc::Role;
pub use rawdio::*;
use crossbeam::mc;

pub type Chans = Vec<Vec<f32>>;

pub struct Eng {
    pub ctx: Box<dyn Context>,
    pub p: Box<dyn AudioProcess + Send>,
    pub sr: usize,
}

pub fn eng(sr: usize, maxf: usize, maxc: usize) -> Eng {
    let (ctx, p) = create_engine_with_options(
        EngineOptions::default()
            .with_sample_rate(sr)
            .with_maximum_frame_count(maxf)
            .with_maximum_channel_count(maxc),
    );
    Eng { ctx, p, sr }
}

pub fn buf(c: &[Vec<f32>], sr: usize) -> OwnedAudioBuffer {
    let frames = c.first().map_or(0, |c| c.len());
    let mut b = OwnedAudioBuffer::new(frames, c.len(), sr);
    if frames > 0 {
        for (i, c) in c.iter().enumerate() {
            b.get_channel_data_mut(SampleLocation::channel(i)).copy_from_slice(c);
        }
    }
    b
}

pub fn chans(b: &dyn AudioBuffer) -> Chans {
    if b.frame_count() == 0 {
        return vec![vec![]; b.channel_count()];
    }
    (0..b.channel_count()).map(|c| b.get_channel_data(SampleLocation::channel(c))[..b.frame_count()].to_vec()).collect()
}

impl Eng {
    /// One call of process() in the audio role; the output buffer starts as NaN.
    pub fn block(&mut self, input: &[Vec<f32>], outs: usize) -> Chans {
        let frames = input[0].len();
        let i = buf(input, self.sr);
        let mut o = OwnedAudioBuffer::new(frames, outs, self.sr);
        o.fill_with_value(f32::NAN);
        let before = mc::set_role(Role::Audio);
        self.p.process(&i, &mut o);
        mc::set_role(before);
        chans(&o)
    }
    /// A block with silence at the input.
    pub fn quiet(&mut self, frames: usize, outs: usize) -> Chans {
        self.block(&[vec![0.0; frames]], outs)
    }
    /// Blocks of the given lengths over an input, joined.
    pub fn blocks(&mut self, input: &[Vec<f32>], lens: &[usize], outs: usize) -> Chans {
        let mut out = vec![Vec::new(); outs];
        let mut at = 0;
        for l in lens {
            let part: Chans = input.iter().map(|c| c[at..at + l].to_vec()).collect();
            for (o, p) in out.iter_mut().zip(self.block(&part, outs)) {
                o.extend(p);
            }
            at += l;
        }
        out
    }
    pub fn time(&self) -> f64 {
        self.ctx.current_time().as_seconds()
    }
}

/// Run an inline execution: everything `f` creates is dropped in it, then the spawned threads run to their end.
pub fn inline<R>(seed: u32, f: impl FnOnce() -> R) -> R {
    mc::inline_begin(seed);
    let r = f();
    mc::run_background();
    mc::inline_end();
    r
}

pub fn t_samples(n: f64, sr: usize) -> Timestamp {
    Timestamp::from_samples(n, sr)
}

/// Compare two signals; the tolerance is absolute plus relative.
pub fn same(what: &str, got: &[f32], want: &[f32], tol: f32) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} frames instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let ok = if tol == 0.0 { g == w } else { (g - w).abs() <= tol * (1.0 + w.abs()) };
        if !ok {
            return Err(format!("{what}: frame {i} is {g}, expected {w} (got {}, want {})", show(got), show(want)));
        }
    }
    Ok(())
}
pub fn same_all(what: &str, got: &[Vec<f32>], want: &[Vec<f32>], tol: f32) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} channels instead of {}", got.len(), want.len()));
    }
    for (c, (g, w)) in got.iter().zip(want).enumerate() {
        same(&format!("{what}, channel {c}"), g, w, tol)?;
    }
    Ok(())
}
pub fn show(v: &[f32]) -> String {
    if v.len() <= 24 {
        format!("{v:?}")
    } else {
        format!("{:?}... ({} frames)", &v[..24], v.len())
    }
}
