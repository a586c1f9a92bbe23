//! Audio buffers. C16: every operation against its definition on single samples. C17: interleaving.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;

/// How an operation sees a backing buffer.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum View {
    Owned,
    /// frames from `.0`, so many fewer at the end
    Frames(usize, usize),
    Channels(usize, usize),
    /// the first channels and frames, leaving out so many of each
    Both(usize, usize),
    /// a slice of frames within a slice of channels
    Nested(usize, usize),
}
const VIEWS: [View; 6] =
    [View::Owned, View::Frames(0, 1), View::Frames(2, 1), View::Channels(1, 1), View::Both(2, 1), View::Nested(1, 2)];

impl View {
    /// Shape of the backing buffer, and the offsets at which the view of (frames, channels) begins.
    fn backing(self, frames: usize, ch: usize) -> (usize, usize, usize, usize) {
        match self {
            View::Owned => (frames, ch, 0, 0),
            View::Frames(a, b) => (frames + a + b, ch, a, 0),
            View::Channels(a, b) => (frames, ch + a + b, 0, a),
            View::Both(f, c) => (frames + f, ch + c, 0, 0),
            View::Nested(c, f) => (frames + f + 1, ch + c + 1, f, c),
        }
    }
    fn with_mut<R>(self, b: &mut OwnedAudioBuffer, frames: usize, ch: usize, f: impl FnOnce(&mut dyn AudioBuffer) -> R) -> R {
        match self {
            View::Owned => f(b),
            View::Frames(a, _) => f(&mut MutableBorrowedAudioBuffer::slice_frames(b, a, frames)),
            View::Channels(a, _) => f(&mut MutableBorrowedAudioBuffer::slice_channels(b, a, ch)),
            View::Both(..) => f(&mut MutableBorrowedAudioBuffer::slice_channels_and_frames(b, frames, ch)),
            View::Nested(c, o) => {
                let mut s = MutableBorrowedAudioBuffer::slice_channels(b, c, ch);
                let mut s = MutableBorrowedAudioBuffer::slice_frames(&mut s, o, frames);
                f(&mut s)
            }
        }
    }
    fn with<R>(self, b: &OwnedAudioBuffer, frames: usize, ch: usize, f: impl FnOnce(&dyn AudioBuffer) -> R) -> R {
        match self {
            View::Owned => f(b),
            View::Frames(a, _) => f(&BorrowedAudioBuffer::slice_frames(b, a, frames)),
            View::Channels(a, _) => f(&BorrowedAudioBuffer::slice_channels(b, a, ch)),
            View::Both(..) => f(&BorrowedAudioBuffer::slice_channels_and_frames(b, frames, ch)),
            View::Nested(c, o) => {
                let s = BorrowedAudioBuffer::slice_channels(b, c, ch);
                f(&BorrowedAudioBuffer::slice_frames(&s, o, frames))
            }
        }
    }
}

const RATE: usize = 48_000;

/// Distinct dyadic values.
fn content(frames: usize, ch: usize, base: f32) -> Chans {
    (0..ch).map(|c| (0..frames).map(|f| base + c as f32 * 128.0 + f as f32 * 0.5).collect()).collect()
}
fn make(c: &Chans) -> OwnedAudioBuffer {
    buf(c, RATE)
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mix {
    Copy,
    Add,
    Gain(f32),
}
const MIXES: [Mix; 6] = [Mix::Copy, Mix::Add, Mix::Gain(0.5), Mix::Gain(0.0), Mix::Gain(1.0), Mix::Gain(-2.0)];

#[derive(Debug, Clone)]
struct MixCase {
    op: Mix,
    sv: View,
    dv: View,
    s: (usize, usize),
    d: (usize, usize),
    /// channel, frame
    from: (usize, usize),
    to: (usize, usize),
    n: (usize, usize),
}

fn loc(l: (usize, usize)) -> SampleLocation {
    SampleLocation::new(l.0, l.1)
}

fn mix(c: &MixCase, rec: &mut Rec) -> Check {
    let (sf, sc, sof, soc) = c.sv.backing(c.s.1, c.s.0);
    let (df, dc, dof, doc) = c.dv.backing(c.d.1, c.d.0);
    let src = content(sf, sc, 1000.0);
    let dst = content(df, dc, -5000.0);
    let sb = make(&src);
    let mut db = make(&dst);
    c.sv.with(&sb, c.s.1, c.s.0, |s| {
        c.dv.with_mut(&mut db, c.d.1, c.d.0, |d| match c.op {
            Mix::Copy => d.copy_from(s, loc(c.from), loc(c.to), c.n.0, c.n.1),
            Mix::Add => d.add_from(s, loc(c.from), loc(c.to), c.n.0, c.n.1),
            Mix::Gain(g) => d.add_from_with_gain(s, loc(c.from), loc(c.to), c.n.0, c.n.1, g),
        })
    });
    let mut want = dst;
    for ch in 0..c.n.0 {
        for f in 0..c.n.1 {
            let x = src[soc + c.from.0 + ch][sof + c.from.1 + f];
            let y = &mut want[doc + c.to.0 + ch][dof + c.to.1 + f];
            *y = match c.op {
                Mix::Copy => x,
                Mix::Add => *y + x,
                Mix::Gain(g) => *y + x * g,
            };
        }
    }
    same_all("destination", &chans(&db), &want, 0.0)?;
    same_all("source", &chans(&sb), &src, 0.0)?;
    rec.state(&(c.s, c.d, c.from, c.to, c.n));
    rec.exec(&chans(&db).iter().map(|c| bits(c)).collect::<Vec<_>>());
    Ok(())
}

#[derive(Debug, Clone)]
struct SimdCase {
    op: Mix,
    len: usize,
    so: usize,
    doff: usize,
    ch: usize,
}

fn simd(c: &SimdCase, rec: &mut Rec) -> Check {
    let m = MixCase {
        op: c.op,
        sv: View::Owned,
        dv: View::Owned,
        s: (c.ch + 1, c.so + c.len + 3),
        d: (c.ch + 1, c.doff + c.len + 5),
        from: (c.ch, c.so),
        to: (c.ch, c.doff),
        n: (1, c.len),
    };
    mix(&m, rec)
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Table {
    Zeros,
    Ones,
    Half,
    ZeroBut(usize),
    OneBut(usize),
    Ramp,
    Alternate,
}
#[derive(Debug, Clone)]
struct GainCase {
    table: Table,
    view: View,
    len: usize,
    off: usize,
    ch: usize,
}

/// apply_gain over frames `off..off+len` of a buffer.
fn gain_table(c: &GainCase, rec: &mut Rec) -> Check {
    let g: Vec<f32> = (0..c.len)
        .map(|i| match c.table {
            Table::Zeros => 0.0,
            Table::Ones => 1.0,
            Table::Half => 0.5,
            Table::ZeroBut(k) => if i == k { 4.0 } else { 0.0 },
            Table::OneBut(k) => if i == k { -2.0 } else { 1.0 },
            Table::Ramp => i as f32 * 0.25,
            Table::Alternate => (i % 2) as f32,
        })
        .collect();
    let (frames, ch) = (c.off + c.len + 4, c.ch + 1);
    let start = content(frames, ch, 64.0);
    let mut b = make(&start);
    let mut want = start;
    match c.view {
        View::Owned => {
            let mut b2 = make(&content(c.len, c.ch, 64.0));
            b2.apply_gain(&g);
            let want: Chans =
                content(c.len, c.ch, 64.0).iter().map(|x| x.iter().zip(&g).map(|(x, g)| x * g).collect()).collect();
            same_all("buffer", &chans(&b2), &want, 0.0)?;
            rec.exec(&chans(&b2).iter().map(|c| bits(c)).collect::<Vec<_>>());
        }
        _ => {
            {
                let mut s = MutableBorrowedAudioBuffer::slice_channels(&mut b, 0, c.ch);
                let mut s = MutableBorrowedAudioBuffer::slice_frames(&mut s, c.off, c.len);
                s.apply_gain(&g);
            }
            for w in &mut want[..c.ch] {
                for f in 0..c.len {
                    w[c.off + f] *= g[f];
                }
            }
            same_all("buffer", &chans(&b), &want, 0.0)?;
            rec.exec(&chans(&b).iter().map(|c| bits(c)).collect::<Vec<_>>());
        }
    }
    rec.state(&(c.len, c.off, c.ch, format!("{:?}", c.table)));
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Read,
    Clear,
    Fill,
    FillChannel(usize),
    Set(usize, usize),
    Add(usize, usize),
    Silent(usize),
    Slice(usize, usize),
    /// channel, frame, to channel, frames
    Dup(usize, usize, usize, usize),
    WriteThrough(usize, usize),
    /// channel, frame, channels, frames of a range
    ClearRange(usize, usize, usize, usize),
    /// the range, and where its frames go
    Within(usize, usize, usize, usize, usize),
    /// the range, and the gain
    Gain(usize, usize, usize, usize, f32),
}

/// Gains for a range: the shortcuts (zero and one) and what must not be taken for them.
const GAINS: [f32; 6] = [0.0, 1.0, 0.5, -1.0, 1e-7, 0.999];

#[derive(Debug, Clone)]
struct OpCase {
    view: View,
    frames: usize,
    ch: usize,
    op: Op,
}

fn single(c: &OpCase, rec: &mut Rec) -> Check {
    let (bf, bc, of, oc) = c.view.backing(c.frames, c.ch);
    let mut start = content(bf, bc, 16.0);
    if let Op::Silent(z) = c.op {
        // one channel of the view is silent, its surroundings are not
        for f in 0..c.frames {
            start[oc + z][of + f] = 0.0;
        }
    }
    let mut b = make(&start);
    let mut want = start.clone();
    let at = |ch: usize, f: usize| (oc + ch, of + f);
    let (frames, ch) = (c.frames, c.ch);
    let inner: Chans = (0..ch).map(|k| start[oc + k][of..of + frames].to_vec()).collect();
    // what a read-only view gives
    c.view.with(&b, frames, ch, |v| -> Check {
        ensure!(v.channel_count() == ch && v.frame_count() == frames && v.sample_rate() == RATE, "the shape of the view is {} x {} at {}", v.channel_count(), v.frame_count(), v.sample_rate());
        same_all("view", &chans(v), &inner, 0.0)?;
        ensure!((v.length_in_seconds() - frames as f64 / RATE as f64).abs() < 1e-12, "length {}", v.length_in_seconds());
        ensure!((v.duration().as_secs_f64() - frames as f64 / RATE as f64).abs() < 1e-8, "duration {:?}", v.duration());
        let all: Vec<(usize, usize)> = v.frame_iter().map(|l| (l.channel, l.frame)).collect();
        let exp: Vec<(usize, usize)> = (0..ch).flat_map(|c| (0..frames).map(move |f| (c, f))).collect();
        ensure!(all == exp, "frame_iter visits {all:?}");
        for k in 0..ch {
            for f in 0..frames {
                same("rest of a channel", v.get_channel_data(SampleLocation::new(k, f)), &inner[k][f..], 0.0)?;
                ensure!(v.get_sample(SampleLocation::new(k, f)) == inner[k][f], "sample {k} {f}");
            }
            ensure!(v.channel_is_silent(k) == inner[k].iter().all(|x| *x == 0.0), "channel_is_silent({k}) is {}", v.channel_is_silent(k));
        }
        Ok(())
    })?;
    let r = c.view.with_mut(&mut b, frames, ch, |v| -> Check {
        ensure!(v.channel_count() == ch && v.frame_count() == frames && v.sample_rate() == RATE, "the shape of the mutable view is {} x {} at {}", v.channel_count(), v.frame_count(), v.sample_rate());
        match c.op {
            Op::Read => {
                same_all("mutable view", &chans(v), &inner, 0.0)?;
                for k in 0..ch {
                    for f in 0..frames {
                        same("rest of a channel", v.get_channel_data(SampleLocation::new(k, f)), &inner[k][f..], 0.0)?;
                        same("rest of a channel, mutable", v.get_channel_data_mut(SampleLocation::new(k, f)), &inner[k][f..], 0.0)?;
                    }
                }
            }
            Op::Clear => v.clear(),
            Op::Fill => v.fill_with_value(7.25),
            Op::FillChannel(k) => v.fill_channel_with_value(k, -7.25),
            Op::Set(k, f) => v.set_sample(SampleLocation::new(k, f), 9.5),
            Op::Add(k, f) => v.add_sample(SampleLocation::new(k, f), 9.5),
            Op::Silent(k) => {
                for x in 0..ch {
                    ensure!(v.channel_is_silent(x) == (x == k), "channel_is_silent({x}) of a view whose channel {k} is silent");
                }
            }
            Op::Slice(k, f) => {
                let d: Vec<f32> = (0..frames - f).map(|i| 300.0 + i as f32).collect();
                v.fill_from_slice(&d, SampleLocation::new(k, f));
            }
            Op::Dup(k, f, to, n) => v.duplicate_channel(SampleLocation::new(k, f), to, n),
            Op::WriteThrough(k, f) => {
                for (i, x) in v.get_channel_data_mut(SampleLocation::new(k, f)).iter_mut().enumerate() {
                    *x = 500.0 + i as f32;
                }
            }
            #[cfg(not(rawdio_mc))]
            Op::ClearRange(..) | Op::Within(..) | Op::Gain(..) => unreachable!(),
            #[cfg(rawdio_mc)]
            Op::ClearRange(k, f, nk, n) => v.clear_range(&SampleRange::new(k, f, nk, n)),
            #[cfg(rawdio_mc)]
            Op::Within(k, f, nk, n, to) => v.copy_within(&SampleRange::new(k, f, nk, n), to),
            #[cfg(rawdio_mc)]
            Op::Gain(k, f, nk, n, g) => v.apply_gain_value(&SampleRange::new(k, f, nk, n), g),
        }
        #[cfg(rawdio_mc)]
        if let Op::ClearRange(k, f, nk, n) = c.op {
            for x in 0..3 {
                for y in 0..3 {
                    let (dk, df) = ((k + nk + x) as isize - 1, (f + n + y) as isize - 1);
                    if dk >= k as isize && df >= f as isize {
                        let (nk, n) = (dk as usize - k, df as usize - f);
                        let r = SampleRange::new(k, f, nk, n);
                        ensure!(v.range_is_valid(&r) == (k + nk <= ch && f + n <= frames), "range_is_valid of {nk} channels from {k} and {n} frames from {f}");
                    }
                }
            }
        }
        Ok(())
    });
    r?;
    let mut put = |k: usize, f: usize, v: f32| {
        let (a, b) = at(k, f);
        want[a][b] = v;
    };
    match c.op {
        Op::Read | Op::Silent(_) => (),
        Op::Clear | Op::Fill => {
            for k in 0..ch {
                for f in 0..frames {
                    put(k, f, if c.op == Op::Clear { 0.0 } else { 7.25 });
                }
            }
        }
        Op::FillChannel(k) => (0..frames).for_each(|f| put(k, f, -7.25)),
        Op::Set(k, f) => put(k, f, 9.5),
        Op::Add(k, f) => put(k, f, inner[k][f] + 9.5),
        Op::Slice(k, f) => (0..frames - f).for_each(|i| put(k, f + i, 300.0 + i as f32)),
        Op::Dup(k, f, to, n) => (0..n).for_each(|i| put(to, f + i, inner[k][f + i])),
        Op::WriteThrough(k, f) => (0..frames - f).for_each(|i| put(k, f + i, 500.0 + i as f32)),
        Op::ClearRange(k, f, nk, n) => (k..k + nk).for_each(|k| (f..f + n).for_each(|i| put(k, i, 0.0))),
        Op::Within(k, f, nk, n, to) => (k..k + nk).for_each(|k| (0..n).for_each(|i| put(k, to + i, inner[k][f + i]))),
        Op::Gain(k, f, nk, n, g) => (k..k + nk).for_each(|k| (f..f + n).for_each(|i| put(k, i, inner[k][i] * g))),
    }
    same_all("backing buffer", &chans(&b), &want, 0.0)?;
    rec.state(&(frames, ch, format!("{:?}", c.op)));
    rec.exec(&chans(&b).iter().map(|c| bits(c)).collect::<Vec<_>>());
    Ok(())
}

fn single_cases(maxf: usize, maxc: usize) -> Vec<OpCase> {
    let mut v = Vec::new();
    for view in VIEWS {
        for ch in 1..=maxc {
            for frames in 1..=maxf {
                let mut ops = vec![Op::Read, Op::Clear, Op::Fill];
                for k in 0..ch {
                    ops.push(Op::FillChannel(k));
                    ops.push(Op::Silent(k));
                    for f in 0..frames {
                        ops.extend([Op::Set(k, f), Op::Add(k, f), Op::Slice(k, f), Op::WriteThrough(k, f)]);
                        for to in 0..ch {
                            for n in 0..=frames - f {
                                ops.push(Op::Dup(k, f, to, n));
                            }
                        }
                        // the type of a range is exported only with the hook
                        for nk in (0..=ch - k).filter(|_| cfg!(rawdio_mc)) {
                            for n in 0..=frames - f {
                                ops.push(Op::ClearRange(k, f, nk, n));
                                ops.extend(GAINS.map(|g| Op::Gain(k, f, nk, n, g)));
                                ops.extend((0..=frames - n).map(|to| Op::Within(k, f, nk, n, to)));
                            }
                        }
                    }
                }
                v.extend(ops.into_iter().map(|op| OpCase { view, frames, ch, op }));
            }
        }
    }
    v
}

/// Ranges longer than the SIMD blocks, at every alignment of their start.
fn long_ranges(max: usize) -> Vec<OpCase> {
    let mut v = Vec::new();
    for view in [View::Owned, VIEWS[VIEWS.len() - 1]] {
        for frames in 1..=max {
            for f in (0..9.min(frames)).filter(|_| cfg!(rawdio_mc)) {
                for n in [frames - f, (frames - f).saturating_sub(1)] {
                    for op in [Op::Gain(0, f, 3, n, 0.5), Op::Gain(1, f, 1, n, 0.0), Op::Gain(0, f, 2, n, -3.0), Op::ClearRange(1, f, 2, n), Op::Within(0, f, 3, n, 0)] {
                        v.push(OpCase { view, frames, ch: 3, op });
                    }
                }
            }
        }
    }
    v
}

#[derive(Debug, Clone)]
enum Make {
    FromSlice(usize, usize),
    FromBuffer(usize, usize, View),
    Extended(usize, usize, usize, View),
    Padded(usize, usize, usize),
    Step(usize, usize, usize, usize),
    Sine(usize, usize, usize, f64, f64),
    Noise(usize, usize),
    Clone(usize, usize),
}

fn make_check(m: &Make, rec: &mut Rec) -> Check {
    let (got, want, tol): (OwnedAudioBuffer, Chans, f32) = match *m {
        Make::FromSlice(n, ch) => {
            let d = content(n, 1, 3.0).remove(0);
            (OwnedAudioBuffer::from_slice(&d, ch, RATE), vec![d; ch], 0.0)
        }
        Make::FromBuffer(n, ch, v) => {
            let (f, c, of, oc) = v.backing(n, ch);
            let all = content(f, c, 3.0);
            let b = make(&all);
            (v.with(&b, n, ch, |x| OwnedAudioBuffer::from_buffer(x)), (0..ch).map(|k| all[oc + k][of..of + n].to_vec()).collect(), 0.0)
        }
        Make::Extended(a, n, ch, v) => {
            let (f, c, of, oc) = v.backing(n, ch);
            let (x, all) = (content(a, ch, -900.0), content(f, c, 3.0));
            let (b1, b2) = (make(&x), make(&all));
            let got = v.with(&b2, n, ch, |s| b1.extended_with_buffer(s));
            same_all("the buffer extended", &chans(&b1), &x, 0.0)?;
            (got, (0..ch).map(|k| [&x[k][..], &all[oc + k][of..of + n]].concat()).collect(), 0.0)
        }
        Make::Padded(n, to, ch) => {
            let x = content(n, ch, 3.0);
            let want = x.iter().map(|c| c.iter().copied().chain(vec![0.0; to - n]).collect()).collect();
            (make(&x).padded_to_length(to), want, 0.0)
        }
        Make::Step(n, ch, a, b) => {
            let d: Vec<f32> = (0..n).map(|i| if i >= a && i < b { 1.0 } else { 0.0 }).collect();
            (OwnedAudioBuffer::step(n, ch, RATE, a..b), vec![d; ch], 0.0)
        }
        Make::Sine(n, ch, sr, f, amp) => {
            let d: Vec<f32> = (0..n).map(|i| (amp * (std::f64::consts::TAU * f * i as f64 / sr as f64).sin()) as f32).collect();
            let b = OwnedAudioBuffer::sine(n, ch, sr, f, amp);
            ensure!(b.sample_rate() == sr, "sample rate {}", b.sample_rate());
            (b, vec![d; ch], 1e-5)
        }
        Make::Noise(n, ch) => {
            let b = OwnedAudioBuffer::white_noise(n, ch, RATE);
            let w = chans(&b);
            ensure!(w.iter().flatten().all(|x| (-1.0..=1.0).contains(x)), "noise out of range");
            (b, w, 0.0)
        }
        Make::Clone(n, ch) => {
            let x = content(n, ch, 3.0);
            let a = make(&x);
            let mut b = a.clone();
            b.fill_with_value(1.5);
            same_all("the buffer cloned", &chans(&a), &x, 0.0)?;
            (a.clone(), x, 0.0)
        }
    };
    ensure!(got.channel_count() == want.len() && want.iter().all(|w| w.len() == got.frame_count()), "shape {} x {}", got.channel_count(), got.frame_count());
    same_all("buffer", &chans(&got), &want, tol)?;
    rec.state(&format!("{m:?}"));
    if !matches!(m, Make::Noise(..)) {
        rec.exec(&chans(&got).iter().map(|c| bits(c)).collect::<Vec<_>>());
    }
    Ok(())
}

fn makes() -> Vec<Make> {
    let mut v = Vec::new();
    for ch in 1..=4 {
        for n in [1usize, 2, 3, 16, 17, 100] {
            v.push(Make::FromSlice(n, ch));
            v.push(Make::Noise(n, ch));
            v.push(Make::Clone(n, ch));
            for view in VIEWS {
                v.push(Make::FromBuffer(n, ch, view));
                for a in [1usize, 2, 7, 33] {
                    v.push(Make::Extended(a, n, ch, view));
                }
            }
            for more in [0usize, 1, 5, 64] {
                v.push(Make::Padded(n, n + more, ch));
            }
            for (a, b) in [(0, 0), (0, 1), (1, 2), (0, n), (n - 1, n), (n, n + 5), (n / 2, n + 5), (0, n / 2)] {
                v.push(Make::Step(n, ch, a, b));
            }
            for sr in [8_000usize, 44_100] {
                for f in [1.0, 440.0, 5000.5] {
                    for amp in [0.5, 1.0, -2.0] {
                        v.push(Make::Sine(n, ch, sr, f, amp));
                    }
                }
            }
        }
    }
    v
}

#[derive(Debug, Clone)]
struct Resample {
    rates: (usize, usize),
    s: usize,
    d: usize,
    from: (usize, usize),
    to: (usize, usize),
    n: usize,
    dv: View,
}

fn resample(c: &Resample, rec: &mut Rec) -> Check {
    let ch = 3;
    let src: Chans = (0..ch)
        .map(|k| (0..c.s).map(|f| ((f * f * 5 + f * 3 + k * 7) % 11) as f32 * 0.25 - 1.0).collect())
        .collect();
    let sb = buf(&src, c.rates.0);
    let (df, dc, dof, doc) = c.dv.backing(c.d, ch);
    let start = content(df, dc, 40.0);
    let mut db = buf(&start, c.rates.1);
    c.dv.with_mut(&mut db, c.d, ch, |d| d.sample_rate_convert_from(&sb, loc(c.from), loc(c.to), c.n));
    let mut want = start;
    for k in 0..c.n {
        let s = &src[c.from.0 + k][c.from.1..];
        for i in 0..c.d - c.to.1 {
            let x = i as f64 * c.rates.0 as f64 / c.rates.1 as f64;
            let a = s[(x.floor() as usize).min(s.len() - 1)] as f64;
            let b = s[(x.floor() as usize + 1).min(s.len() - 1)] as f64;
            let w = x - x.floor();
            want[doc + c.to.0 + k][dof + c.to.1 + i] = (a * (1.0 - w) + b * w) as f32;
        }
    }
    same_all("converted", &chans(&db), &want, 1e-5)?;
    same_all("source", &chans(&sb), &src, 0.0)?;
    rec.state(&(c.rates, c.s, c.d, c.from, c.to, c.n));
    rec.exec(&chans(&db).iter().map(|c| bits(c)).collect::<Vec<_>>());
    Ok(())
}

#[derive(Debug, Clone)]
struct LongResample {
    rates: (usize, usize),
    s: usize,
    d: usize,
}

/// One channel; every frame compared.
fn long_resample(c: &LongResample, rec: &mut Rec) -> Check {
    let value = |f: usize| (f.wrapping_mul(2_654_435_761) >> 7 & 15) as f32 * 0.125 - 1.0;
    let mut src = OwnedAudioBuffer::new(c.s, 1, c.rates.0);
    src.get_channel_data_mut(loc((0, 0))).iter_mut().enumerate().for_each(|(f, v)| *v = value(f));
    let mut dst = OwnedAudioBuffer::new(c.d, 1, c.rates.1);
    dst.sample_rate_convert_from(&src, loc((0, 0)), loc((0, 0)), 1);
    let got = dst.get_channel_data(loc((0, 0)));
    for i in 0..c.d {
        // exact position: whole frames and a fraction of the destination rate
        let p = i as u64 * c.rates.0 as u64;
        let (whole, part) = ((p / c.rates.1 as u64) as usize, p % c.rates.1 as u64);
        let a = value(whole.min(c.s - 1)) as f64;
        let b = value((whole + 1).min(c.s - 1)) as f64;
        let w = part as f64 / c.rates.1 as f64;
        let want = (a * (1.0 - w) + b * w) as f32;
        if !((got[i] - want).abs() <= 1e-4) {
            return Err(format!("frame {i} of {}: {} instead of {want}", c.d, got[i]));
        }
    }
    rec.state(&(c.rates, c.s, c.d));
    rec.exec(&(got[c.d / 2].to_bits(), got[c.d - 1].to_bits()));
    Ok(())
}

pub fn list<C: std::fmt::Debug + Clone + Send + Sync + 'static>(
    name: &str,
    bounds: &str,
    v: Vec<C>,
    run: impl Fn(&C, &mut Rec) -> Check + Send + Sync + 'static,
) -> Suite {
    let n = v.len() as u64;
    let v = std::sync::Arc::new(v);
    cases(name, bounds, n, move |d: D| v.get(d.0 as usize).cloned(), run)
}

pub fn c16(t: Tier) -> Vec<Suite> {
    let fr: &[usize] = t.pick(&[1, 3], &[1, 2, 3, 4]);
    let shapes = fr.len() as u64;
    let views: &[(View, View)] = &[
        (View::Owned, View::Owned),
        (View::Frames(2, 1), View::Owned),
        (View::Owned, View::Frames(2, 1)),
        (View::Channels(1, 1), View::Channels(1, 1)),
        (View::Both(2, 1), View::Nested(1, 2)),
        (View::Nested(1, 2), View::Both(2, 1)),
        (View::Frames(0, 1), View::Frames(2, 1)),
    ];
    let lens: Vec<usize> = t.pick((0..=20).chain(30..=36).chain(62..=67).collect(), (0..=70).chain([127, 128, 129, 255, 256, 257]).collect());
    let offs: Vec<usize> = t.pick(vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 17], (0..=20).collect());
    let (l2, o2) = (lens.clone(), offs.clone());
    let (l3, o3) = (lens.clone(), offs.clone());
    let rates = [(1usize, 1usize), (1, 2), (2, 1), (3, 2), (2, 3), (44_100, 48_000), (48_000, 44_100), (8_000, 48_000), (96_000, 44_100)];
    let nr = rates.len() as u64;
    let rlens = [1usize, 2, 3, 5, 40];
    let table = move |k: usize, len: usize| -> Option<Table> {
        Some(match k {
            0 => Table::Zeros,
            1 => Table::Ones,
            2 => Table::Half,
            3 => Table::Ramp,
            4 => Table::Alternate,
            k => {
                let k = k - 5;
                let pos = [0, 1, 3, 7, 8, 15, 16, 17, 31, 32, 33, usize::MAX][k / 2];
                let pos = if pos == usize::MAX { len.checked_sub(1)? } else { pos };
                if pos >= len {
                    return None;
                }
                if k % 2 == 0 { Table::ZeroBut(pos) } else { Table::OneBut(pos) }
            }
        })
    };
    vec![
        cases(
            "copying and mixing",
            &format!("copy, mix, mix with gain 0, 0.5, 1 and -2; source and destination of 1 to 3 channels and {fr:?} frames; every location, channel count and frame count that fits; 7 combinations of owned buffers and slices"),
            6 * views.len() as u64 * 9 * shapes * shapes * 3 * 4 * 3 * 4 * 4 * 5,
            move |mut d: D| {
                let n = (d.n(4), d.n(5));
                let s = (1 + d.n(3), d.of(fr));
                let dd = (1 + d.n(3), d.of(fr));
                let (from, to) = ((d.n(3), d.n(4)), (d.n(3), d.n(4)));
                let fits = |l: (usize, usize), s: (usize, usize)| l.0 + n.0 <= s.0 && l.1 + n.1 <= s.1 && l.0 < s.0 && l.1 < s.1;
                if !fits(from, s) || !fits(to, dd) {
                    return None;
                }
                let (sv, dv) = d.of(views);
                Some(MixCase { op: d.of(&MIXES), sv, dv, s, d: dd, from, to, n })
            },
            mix,
        ),
        cases(
            "long copies and mixes",
            &format!("copy, mix, mix with gain over {} lengths up to {}, source and destination offsets {offs:?}, first or second channel", lens.len(), lens.last().unwrap()),
            (6 * lens.len() * offs.len() * offs.len() * 2) as u64,
            move |mut d: D| Some(SimdCase { op: d.of(&MIXES), len: d.of(&l2), so: d.of(&o2), doff: d.of(&o2), ch: d.n(2) }),
            simd,
        ),
        cases(
            "gain tables",
            &format!("gain tables of {} lengths up to {}: all 0, all 1, all 0.5, a ramp, alternating, one entry different from all 0 or all 1 at each of 12 places; 1 to 3 channels; whole buffers and slices at offsets {offs:?}", lens.len(), lens.last().unwrap()),
            (29 * lens.len() * (offs.len() + 1) * 3) as u64,
            move |mut d: D| {
                let len = d.of(&l3);
                let ch = 1 + d.n(3);
                let o = d.n(o3.len() + 1);
                let table = table(d.n(29), len)?;
                if len == 0 {
                    return None;
                }
                let (view, off) = if o == 0 { (View::Owned, 0) } else { (View::Nested(0, 0), o3[o - 1]) };
                Some(GainCase { table, view, len, off, ch })
            },
            gain_table,
        ),
        list(
            "single operations",
            "reading, clearing, filling, setting, adding, silence, filling from a slice, writing through, duplicating a channel (every source, destination and length), clearing, moving and applying 6 gains to every range; 1 to 3 channels, 1 to 5 frames; owned buffers and 5 kinds of slices",
            single_cases(t.pick(4, 6), 3),
            single,
        ),
        list("operations on long ranges", "clearing, moving and applying a gain to ranges that start at any of the first 9 of up to 80 frames (quick) or 300 (thorough) of 3 channels", long_ranges(t.pick(80, 300)), single),
        list("making buffers", "from slices and buffers, clones, joined, padded, steps, sines, noise; 1 to 4 channels, 6 lengths, 6 kinds of source", makes(), make_check),
        cases(
            "sample rate conversion",
            &format!("rates {rates:?}, source and destination lengths {rlens:?}, first frame 0 or 2 of either, channel ranges, owned or sliced destination"),
            nr * 25 * 4 * 3 * 3 * 3 * 3,
            move |mut d: D| {
                let r = d.of(&rates);
                let (s, dd) = (d.of(&rlens), d.of(&rlens));
                let (a, b) = (2 * d.n(2), 2 * d.n(2));
                let n = 1 + d.n(3);
                let (from, to) = ((d.n(3), a), (d.n(3), b));
                let dv = d.of(&[View::Owned, View::Nested(1, 2), View::Frames(2, 1)]);
                if a >= s || b >= dd || from.0 + n > 3 || to.0 + n > 3 {
                    return None;
                }
                Some(Resample { rates: r, s, d: dd, from, to, n, dv })
            },
            resample,
        ),
        {
            let long: &[usize] = t.pick(&[65_536, 2_000_003], &[4_097, 65_536, 2_000_003, 18_000_001]);
            cases(
                "sample rate conversion of long buffers",
                &format!("rates {rates:?}, source lengths {long:?}, destination as long or as long as the source lasts"),
                nr * long.len() as u64 * 2,
                move |mut d: D| {
                    let rates = d.of(&rates);
                    let s = d.of(long);
                    let dd = if d.flag() { s } else { (s as u64 * rates.1 as u64 / rates.0 as u64) as usize };
                    (dd > 0).then_some(LongResample { rates, s, d: dd })
                },
                long_resample,
            )
        },
    ]
}

// ----------------------------------------------------------------------------------------------------------------- C17

#[derive(Debug, Clone)]
struct Inter {
    view: View,
    shape: (usize, usize),
    ask: (usize, usize),
    extra: usize,
}

fn interleave(c: &Inter, rec: &mut Rec) -> Check {
    let (ch, frames) = c.shape;
    let (ac, af) = c.ask;
    let (bf, bc, of, oc) = c.view.backing(frames, ch);
    let start = content(bf, bc, 16.0);
    let b = make(&start);
    // out
    let pre: Vec<f32> = (0..ac * af + c.extra).map(|i| -0.5 - i as f32).collect();
    let mut flat = pre.clone();
    c.view.with(&b, frames, ch, |v| v.copy_to_interleaved(&mut flat, ac, af));
    let mut want = pre;
    for f in 0..af.min(frames) {
        for k in 0..ac.min(ch) {
            want[f * ac + k] = start[oc + k][of + f];
        }
    }
    same("interleaved", &flat, &want, 0.0)?;
    // in
    let data: Vec<f32> = (0..ac * af + c.extra).map(|i| 4000.0 + i as f32).collect();
    let mut b = make(&start);
    c.view.with_mut(&mut b, frames, ch, |v| v.fill_from_interleaved(&data, ac, af));
    let mut want = start.clone();
    for f in 0..af.min(frames) {
        for k in 0..ac.min(ch) {
            want[oc + k][of + f] = data[f * ac + k];
        }
    }
    same_all("de-interleaved", &chans(&b), &want, 0.0)?;
    // and back
    if ac == ch && af == frames {
        let mut again = vec![0.0; ac * af];
        c.view.with(&b, frames, ch, |v| v.copy_to_interleaved(&mut again, ac, af));
        same("round trip", &again, &data[..ac * af], 0.0)?;
    }
    rec.state(&(c.shape, c.ask));
    rec.exec(&bits(&flat));
    Ok(())
}

pub fn c17(t: Tier) -> Vec<Suite> {
    let (mf, mc) = t.pick((5usize, 4usize), (8, 6));
    let long = [1usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 1000];
    vec![
        cases(
            "shapes and counts",
            &format!("buffers of 1 to {mc} channels and 1 to {mf} frames; 0 to {} channels and 0 to {} frames asked for; slices as long as needed or longer; owned buffers and 5 kinds of slices", mc + 2, mf + 2),
            (mc * mf * (mc + 3) * (mf + 3) * 2 * 6) as u64,
            move |mut d: D| {
                let view = d.of(&VIEWS);
                let extra = d.n(2) * 3;
                Some(Inter { view, shape: (1 + d.n(mc), 1 + d.n(mf)), ask: (d.n(mc + 3), d.n(mf + 3)), extra })
            },
            interleave,
        ),
        cases(
            "longer buffers",
            &format!("1 to 9 channels, {long:?} frames, one channel or frame more or fewer asked for"),
            (9 * long.len() * 9 * 2) as u64,
            move |mut d: D| {
                let shape = (1 + d.n(9), d.of(&long));
                let (a, b) = (d.n(3), d.n(3));
                let view = [View::Owned, View::Nested(1, 2)][d.n(2)];
                Some(Inter { view, shape, ask: (shape.0 + a - 1, shape.1 + b - 1), extra: 0 })
            },
            interleave,
        ),
    ]
}
