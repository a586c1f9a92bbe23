//! Parameter automation. C07: the timeline. C08: cancelling. C09: ranges.

use crate::ensure;
use crate::eng::*;
use crate::fw::*;

const SR: usize = 64;

/// Times are in half frames.
#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub enum Ch {
    Set { at: i64, v: i32 },
    Lin { s: i64, e: i64, v: i32 },
    Exp { s: i64, e: i64, v: i32 },
    CancelAll,
    CancelAfter(i64),
}

/// Values are in quarters.
fn val(v: i32) -> f64 {
    v as f64 / 4.0
}

impl Ch {
    fn end(&self) -> i64 {
        match self {
            Ch::Set { at, .. } => *at,
            Ch::Lin { e, .. } | Ch::Exp { e, .. } => *e,
            _ => 0,
        }
    }
    fn start(&self) -> i64 {
        match self {
            Ch::Set { at, .. } => *at,
            Ch::Lin { s, .. } | Ch::Exp { s, .. } => *s,
            _ => 0,
        }
    }
    fn target(&self) -> f64 {
        match self {
            Ch::Set { v, .. } | Ch::Lin { v, .. } | Ch::Exp { v, .. } => val(*v),
            _ => 0.0,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Timeline {
    pub pending: Vec<Ch>,
    /// (change, value at its start, start time)
    active: Option<(Ch, f64, i64)>,
    pub value: f64,
}

impl Timeline {
    pub fn new(v: f64) -> Self {
        Self { pending: vec![], active: None, value: v }
    }
    pub fn submit(&mut self, c: Ch) {
        match c {
            Ch::CancelAll => self.pending.clear(),
            Ch::CancelAfter(t) => self.pending.retain(|p| p.end() <= t),
            _ => {
                let at = self.pending.iter().position(|p| p.end() > c.end()).unwrap_or(self.pending.len());
                self.pending.insert(at, c);
            }
        }
    }
    pub fn busy(&self, t: i64) -> bool {
        self.active.is_some_and(|(c, _, _)| t < c.end())
    }
    /// The value at the frame whose time is `t`; None where the timeline is not defined (exponential from or to 0).
    pub fn frame(&mut self, t: i64) -> Option<f64> {
        if let Some((c, _, _)) = self.active {
            if t >= c.end() {
                self.value = c.target();
                self.active = None;
            }
        }
        while self.pending.first().is_some_and(|c| c.end() <= t) {
            self.value = self.pending.remove(0).target();
            self.active = None;
        }
        if self.active.is_none() && self.pending.first().is_some_and(|c| !matches!(c, Ch::Set { .. }) && c.start() <= t) {
            let c = self.pending.remove(0);
            self.active = Some((c, self.value, t));
        }
        if let Some((c, v0, t0)) = self.active {
            let x = (t - t0) as f64 / (c.end() - t0) as f64;
            let v1 = c.target();
            self.value = match c {
                Ch::Lin { .. } => v0 + (v1 - v0) * x,
                _ => {
                    if v0 * v1 <= 0.0 {
                        return None;
                    }
                    v0 * (v1 / v0).powf(x)
                }
            };
        }
        Some(self.value)
    }
    fn key(&self) -> (Vec<Ch>, Option<(Ch, u64, i64)>, u64) {
        (self.pending.clone(), self.active.map(|(c, v, t)| (c, v.to_bits(), t)), self.value.to_bits())
    }
}

#[derive(Debug, Clone)]
struct Case {
    /// operation and the frame at whose block it arrives, in order of submission
    ops: Vec<(usize, Ch)>,
    lens: Vec<usize>,
    maxf: usize,
}

fn submit(p: &mut AudioParameter, c: Ch, sr: usize) {
    let t = |h: i64| Timestamp::from_samples(h as f64 / 2.0, sr);
    match c {
        Ch::Set { at, v } if at == 0 && v % 2 == 0 => p.set_value_now(val(v)),
        Ch::Set { at, v } => p.set_value_at_time(val(v), t(at)),
        Ch::Lin { s, e, v } => p.linear_ramp_to_value(val(v), t(s), t(e)),
        Ch::Exp { s, e, v } => p.exponential_ramp_to_value(val(v), t(s), t(e)),
        Ch::CancelAll => p.cancel_scheduled_changes(),
        Ch::CancelAfter(h) => p.cancel_scheduled_changes_ending_after(t(h)),
    }
}

/// The expected values, or None if the case is outside the property.
fn expect(ops: &[(usize, Ch)], frames: usize, cancels: bool, mut see: impl FnMut(&Timeline, usize)) -> Option<Vec<f32>> {
    let mut m = Timeline::new(1.0);
    let mut out = Vec::new();
    for f in 0..frames {
        for (_, c) in ops.iter().filter(|o| o.0 == f) {
            if cancels && matches!(c, Ch::CancelAll | Ch::CancelAfter(_)) && m.busy(2 * f as i64) {
                return None;
            }
            m.submit(*c);
        }
        out.push(m.frame(2 * f as i64)? as f32);
        see(&m, f);
    }
    Some(out)
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    inline(0, || {
        let frames: usize = c.lens.iter().sum();
        let Some(want) = expect(&c.ops, frames, true, |m, f| rec.state(&(m.key(), f))) else { return Ok(()) };
        let mut e = eng(SR, c.maxf, 2);
        let mut g = Gain::new(e.ctx.as_ref(), 1);
        // a second parameter of the same engine stays where it is
        let other = Pan::new(e.ctx.as_ref(), 2);
        g.node.connect_to_input();
        g.node.connect_to_output();
        e.ctx.start();
        let (mut at, mut got) = (0, Vec::new());
        for l in &c.lens {
            for (_, ch) in c.ops.iter().filter(|o| o.0 == at) {
                submit(g.gain(), *ch, SR);
            }
            got.extend(e.block(&[vec![1.0; *l]], 1).remove(0));
            at += l;
        }
        let mut other = other;
        ensure!(other.pan().get_value().load(std::sync::atomic::Ordering::SeqCst) == 0.0, "an untouched parameter of another node changed");
        same("parameter values", &got, &want, 2e-5)?;
        let last = g.gain().get_value().load(std::sync::atomic::Ordering::SeqCst) as f32;
        ensure!((last - want[frames - 1]).abs() <= 2e-5 * (1.0 + last.abs()), "get_value() gives {last}, the last frame has {}", want[frames - 1]);
        rec.exec(&bits(&got));
        Ok(())
    })
}

/// What one change can be: (gap before it, its kind, length and target).
#[derive(Clone, Copy)]
struct Opts {
    gaps: &'static [i64],
    lens: &'static [i64],
    set: &'static [i32],
    exp: &'static [i32],
}
impl Opts {
    fn n(&self) -> usize {
        self.gaps.len() * (self.set.len() * (1 + self.lens.len()) + self.exp.len() * self.lens.len())
    }
    fn get(&self, d: &mut D, from: &mut i64) -> Ch {
        *from += d.of(self.gaps);
        let (a, b) = (self.set.len(), self.set.len() * self.lens.len());
        let k = d.n(a + b + self.exp.len() * self.lens.len());
        let s = *from;
        if k < a {
            return Ch::Set { at: s, v: self.set[k] };
        }
        if k < a + b {
            let k = k - a;
            *from = s + self.lens[k / a];
            return Ch::Lin { s, e: *from, v: self.set[k % a] };
        }
        let k = k - a - b;
        *from = s + self.lens[k / self.exp.len()];
        Ch::Exp { s, e: *from, v: self.exp[k % self.exp.len()] }
    }
}

const WIDE: Opts = Opts { gaps: &[0, 1, 2, 3, 6], lens: &[0, 1, 2, 3, 5, 8], set: &[2, 16, -8, 0], exp: &[2, 16] };
const MID: Opts = Opts { gaps: &[0, 3, 4], lens: &[2, 5], set: &[2, 16], exp: &[2, 10] };
const NEGATIVE: Opts = Opts { gaps: &[0, 3, 4], lens: &[2, 5], set: &[-2, -16, 8], exp: &[-2, -16, -5] };
const NARROW: Opts = Opts { gaps: &[0, 3], lens: &[4], set: &[2, 16], exp: &[10] };

fn splits(k: usize, frames: usize) -> Vec<usize> {
    match k {
        0 => vec![frames],
        1 => vec![1; frames],
        2 => vec![3; frames / 3],
        _ => (0..).map(|i| [2usize, 1, 4][i % 3]).scan(frames, |r, l| if *r == 0 { None } else { let l = l.min(*r); *r -= l; Some(l) }).collect(),
    }
}

fn timeline(name: &str, o: Opts, k: usize, frames: usize, parts: usize, maxf: &'static [usize]) -> Suite {
    timeline_from(name, None, o, k, frames, parts, maxf)
}

fn timeline_from(name: &str, first: Option<i32>, o: Opts, k: usize, frames: usize, parts: usize, maxf: &'static [usize]) -> Suite {
    let size = pow(o.n(), k) * fact(k) * parts as u64 * maxf.len() as u64;
    cases(
        name,
        &format!("{}{k} consecutive changes; gap before each {:?} half frames; set, linear or exponential over {:?} half frames to {:?} (exponential {:?}) quarters; every submission order; {parts} block partitions of {frames} frames; at most {maxf:?} frames per pass", first.map_or(String::new(), |v| format!("starting from {}: ", val(v))), o.gaps, o.lens, o.set, o.exp),
        size,
        move |mut d: D| {
            let maxf = d.of(maxf);
            let lens = splits(d.n(parts), frames);
            let perm = d.perm(k);
            let mut from = 0;
            let ch: Vec<Ch> = (0..k).map(|_| o.get(&mut d, &mut from)).collect();
            // changes with the same end take effect in order of submission: keep only the orders the model defines
            let ops: Vec<(usize, Ch)> = first.iter().map(|v| (0, Ch::Set { at: 0, v: *v })).chain(perm.iter().map(|i| (0, ch[*i]))).collect();
            for i in 0..k {
                for j in i + 1..k {
                    let (a, b) = (perm.iter().position(|x| *x == i), perm.iter().position(|x| *x == j));
                    if ch[i].end() == ch[j].end() && a > b {
                        return None;
                    }
                }
            }
            Some(Case { ops, lens, maxf })
        },
        run,
    )
}

/// Changes that arrive at later blocks, some of them after they were due.
fn late(o: Opts, frames: usize, k: usize) -> Suite {
    let arrivals = [0usize, 1, 4, 7];
    let size = pow(o.n(), k) * pow(4, k);
    cases(
        &format!("late arrival, {k} changes"),
        &format!("{k} consecutive changes as above, gaps {:?}, lengths {:?}; the i-th arrives with block {arrivals:?} frames, one after the other; blocks of 1 frame", o.gaps, o.lens),
        size,
        move |mut d: D| {
            let arr: Vec<usize> = (0..k).map(|_| d.of(&arrivals)).collect();
            if arr.windows(2).any(|w| w[0] > w[1]) {
                return None;
            }
            let mut from = 0;
            let ops: Vec<(usize, Ch)> = arr.into_iter().map(|a| (a, o.get(&mut d, &mut from))).collect();
            Some(Case { ops, lens: vec![1; frames], maxf: 4 })
        },
        run,
    )
}

#[derive(Debug, Clone)]
struct Rate {
    sr: usize,
    block: usize,
    at: usize,
    len: usize,
    exp: bool,
}

/// Rates at which frame times are not exactly representable: each change lands within a frame of its time.
fn run_rate(c: &Rate, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(c.sr, 512, 1);
        let mut g = Gain::new(e.ctx.as_ref(), 1);
        g.node.connect_to_input();
        g.node.connect_to_output();
        let t = |f: usize| Timestamp::from_samples(f as f64, c.sr);
        let (from, to) = (1.0f64, 3.0f64);
        if c.len == 0 {
            g.gain().set_value_at_time(to, t(c.at));
        } else if c.exp {
            g.gain().exponential_ramp_to_value(to, t(c.at), t(c.at + c.len));
        } else {
            g.gain().linear_ramp_to_value(to, t(c.at), t(c.at + c.len));
        }
        e.ctx.start();
        let mut got = Vec::new();
        while got.len() < c.at + c.len + 4 {
            got.extend(e.block(&[vec![1.0; c.block]], 1).remove(0));
        }
        let v = |f: f64| -> f64 {
            let x = if c.len == 0 { if f >= c.at as f64 { 1.0 } else { 0.0 } } else { ((f - c.at as f64) / c.len as f64).clamp(0.0, 1.0) };
            if c.exp { from * (to / from).powf(x) } else { from + (to - from) * x }
        };
        for (f, x) in got.iter().enumerate() {
            let (lo, hi) = (v(f as f64 - 1.0) as f32 - 1e-4, v(f as f64 + 1.0) as f32 + 1e-4);
            ensure!(*x >= lo && *x <= hi, "frame {f} has value {x}, the timeline is between {lo} and {hi} within a frame of it");
            if f > c.at + c.len {
                ensure!(*x == to as f32, "frame {f} has value {x} after the end of the change, target {to}");
            }
            rec.steps += 1;
        }
        rec.state(&(c.sr, c.block, c.at, c.len, c.exp));
        rec.exec(&bits(&got));
        Ok(())
    })
}

#[derive(Debug, Clone)]
struct Scale {
    from: f64,
    to: f64,
    exp: bool,
    start: usize,
    frames: usize,
    block: usize,
}

/// However small a change is, it is made.
fn run_scale(c: &Scale, rec: &mut Rec) -> Check {
    inline(0, || {
        let sr = 32_768;
        let mut e = eng(sr, c.block, 1);
        let mut g = Gain::new(e.ctx.as_ref(), 1);
        g.node.connect_to_input();
        g.node.connect_to_output();
        let t = |f: usize| Timestamp::from_samples(f as f64, sr);
        g.gain().set_value_now(c.from);
        if c.exp {
            g.gain().exponential_ramp_to_value(c.to, t(c.start), t(c.start + c.frames));
        } else {
            g.gain().linear_ramp_to_value(c.to, t(c.start), t(c.start + c.frames));
        }
        e.ctx.start();
        let input = vec![1.0; c.block];
        let mut at = 0;
        while at < c.start + c.frames + 3 {
            let got = e.block(&[input.clone()], 1).remove(0);
            for (k, x) in got.iter().enumerate() {
                let done = ((at + k) as f64 - c.start as f64).clamp(0.0, c.frames as f64) / c.frames as f64;
                let want = if c.exp { c.from * (c.to / c.from).powf(done) } else { c.from + (c.to - c.from) * done };
                // as exact as single precision, and the sum of so many increments, can be
                let tol = 1e-6 * want.abs() + 1e-5 * (c.to - c.from).abs() + 1e-45;
                ensure!((*x as f64 - want).abs() <= tol, "frame {} has value {x:e}, expected {want:e}", at + k);
            }
            at += c.block;
            rec.steps += 1;
        }
        let last = g.gain().get_value().load(std::sync::atomic::Ordering::SeqCst);
        ensure!(last == c.to, "the ramp ended at {last:e}, its target is {:e}", c.to);
        rec.state(&(c.from.to_bits(), c.to.to_bits(), c.exp, c.start, c.frames, c.block));
        Ok(())
    })
}

fn scales(t: Tier) -> Suite {
    let far: Vec<i32> = t.pick((0..=40).step_by(4).collect(), (0..=40).collect());
    let near: Vec<i32> = t.pick((2..=30).step_by(4).collect(), (2..=30).collect());
    let frames: Vec<usize> = t.pick(vec![1, 30, 4096, 32_768], vec![1, 2, 30, 512, 4096, 32_768, 65_536, 131_072]);
    let n = far.len() * 3 + near.len() * 2;
    cases(
        "ramps of every size",
        &format!("a ramp of {frames:?} frames between 0 and 10^-k, 10^-k and 2*10^-k, 10^-k and 1, k in {far:?}, or 1 and 1 +- 2^-k, k in {near:?}; upwards or downwards, linear or exponential, from frame 0 or 3, in blocks of 64 or 100 frames"),
        prod(&[n as u64, frames.len() as u64, 2, 2, 2, 2]),
        move |mut d: D| {
            let (frames, exp, down) = (d.of(&frames), d.flag(), d.flag());
            let (start, block) = (d.of(&[0, 3]), d.of(&[64, 100]));
            let i = d.n(n);
            let (a, b) = match i.checked_sub(far.len() * 3) {
                None => {
                    let x = 10f64.powi(-far[i / 3]);
                    [(0.0, x), (x, 2.0 * x), (x, 1.0)][i % 3]
                }
                Some(j) => {
                    let x = 2f64.powi(-near[j / 2]);
                    (1.0, [1.0 + x, 1.0 - x][j % 2])
                }
            };
            if a == b || exp && a * b == 0.0 {
                return None;
            }
            let (from, to) = if down { (b, a) } else { (a, b) };
            Some(Scale { from, to, exp, start, frames, block })
        },
        run_scale,
    )
}

pub fn c07(t: Tier) -> Vec<Suite> {
    let rates = [44_100usize, 48_000];
    let blocks = [64usize, 100, 441];
    let ats: Vec<usize> = t.pick((0..130).step_by(3).collect(), (0..300).collect());
    let lens = [0usize, 1, 2, 7, 50, 100];
    let n = (2 * 3 * ats.len() * lens.len() * 2) as u64;
    let mut v = vec![
        timeline("one change", WIDE, 1, 18, 4, &[1, 2, 4, 32]),
        timeline("two changes", WIDE, 2, 24, t.pick(1, 4), t.pick(&[5], &[2, 5, 32])),
        timeline("two changes, all partitions", MID, 2, 24, 4, &[1, 4, 32]),
        timeline("three changes", t.pick(NARROW, MID), 3, 24, 2, &[4]),
        timeline_from("one negative change", Some(-4), NEGATIVE, 1, 18, 4, &[1, 4, 32]),
        timeline_from("two negative changes", Some(-4), NEGATIVE, 2, 24, t.pick(2, 4), &[4]),
        late(MID, 24, 2),
        late(NARROW, 24, 3),
        cases(
            "ordinary rates",
            &format!("rates {rates:?}, blocks of {blocks:?} frames, a change at each of {} frames with length {lens:?}", ats.len()),
            n,
            move |mut d: D| {
                let (sr, block, at, len, exp) = (d.of(&rates), d.of(&blocks), d.of(&ats), d.of(&lens), d.flag());
                Some(Rate { sr, block, at, len, exp })
            },
            run_rate,
        ),
    ];
    v.push(scales(t));
    let many: Vec<usize> = t.pick(vec![15, 16, 17, 18, 33, 64, 65], (1..=100).collect());
    v.push(cases(
        "many pending changes",
        &format!("n sets a frame apart, n in {many:?}, submitted forwards, backwards, odd before even, or a block earlier each"),
        many.len() as u64 * 4,
        move |mut d: D| {
            let n = d.of(&many);
            let set = |i: usize| Ch::Set { at: 2 * i as i64, v: 4 + i as i32 };
            let ops: Vec<(usize, Ch)> = match d.n(4) {
                0 => (1..=n).map(|i| (0, set(i))).collect(),
                1 => (1..=n).rev().map(|i| (0, set(i))).collect(),
                2 => (1..=n).filter(|i| i % 2 == 1).chain((1..=n).filter(|i| i % 2 == 0)).map(|i| (0, set(i))).collect(),
                _ => (1..=n).map(|i| ((i - 1) / 4 * 4, set(i))).collect(),
            };
            Some(Case { ops, lens: vec![4; n / 4 + 1], maxf: 3 })
        },
        run,
    ));
    let crowd: Vec<usize> = t.pick(vec![3, 7, 20, 21, 22, 33, 50, 64, 65], (2..=130).collect());
    v.push(cases(
        "many changes at few times",
        &format!("n sets, n in {crowd:?}, at 1 to 4 different times taken in turn, in blocks, or by a stride of 3, 5 or 7, forwards or backwards in time; the last submitted for a time prevails"),
        crowd.len() as u64 * 4 * 5 * 2,
        move |mut d: D| {
            let n = d.of(&crowd);
            let times = 1 + d.n(4);
            let how = d.n(5);
            let back = d.flag();
            let ops: Vec<(usize, Ch)> = (0..n)
                .map(|i| {
                    let k = match how {
                        0 => i % times,
                        1 => i * times / n,
                        h => i * [3, 5, 7][h - 2] % (times * 4) / 4,
                    };
                    let k = if back { times - 1 - k } else { k };
                    (0, Ch::Set { at: 2 + 4 * k as i64, v: 4 + i as i32 })
                })
                .collect();
            Some(Case { ops, lens: vec![4; 5], maxf: 3 })
        },
        run,
    ));
    if t == Tier::Thorough {
        v.push(timeline("four changes", NARROW, 4, 30, 1, &[4]));
        v.push(late(MID, 24, 3));
    }
    v
}

// C08

fn cancel(name: &str, o: Opts, k: usize, frames: usize) -> Suite {
    let froms = [0usize, 2, 5, 8];
    let afters: Vec<i64> = (0..18).collect();
    // cancel kind (all, or after T) x frame x how many of the changes are submitted after it, in its block
    let size = pow(o.n(), k) * (1 + afters.len() as u64) * froms.len() as u64 * (k as u64 + 1) * 2;
    cases(
        name,
        &format!("{k} consecutive changes (gaps {:?}, lengths {:?} half frames), cancelled at block frame {froms:?}, entirely or those ending after each of 18 half frames; the last 0..={k} of them submitted after the cancellation; blocks of 1 frame", o.gaps, o.lens),
        size,
        move |mut d: D| {
            let at = d.of(&froms);
            let w = d.n(1 + afters.len());
            let c = if w == 0 { Ch::CancelAll } else { Ch::CancelAfter(afters[w - 1]) };
            let later = d.n(k + 1);
            let twice = d.flag();
            let mut from = 0;
            let ch: Vec<Ch> = (0..k).map(|_| o.get(&mut d, &mut from)).collect();
            let mut ops: Vec<(usize, Ch)> = ch[..k - later].iter().map(|c| (0, *c)).collect();
            ops.push((at, c));
            if twice {
                ops.push((at, c));
            }
            ops.extend(ch[k - later..].iter().map(|c| (at, *c)));
            if expect(&ops, frames, true, |_, _| ()).is_none() {
                return None;
            }
            Some(Case { ops, lens: vec![1; frames], maxf: 4 })
        },
        run,
    )
}

pub fn c08(t: Tier) -> Vec<Suite> {
    match t {
        Tier::Quick => vec![cancel("cancel, 1 change", WIDE, 1, 20), cancel("cancel, 2 changes", NARROW, 2, 16), cancel("cancel, 3 sets", Opts { gaps: &[0, 3], lens: &[], set: &[2, 16], exp: &[] }, 3, 16)],
        Tier::Thorough => vec![
            cancel("cancel, 1 change", WIDE, 1, 20),
            cancel("cancel, 2 changes", MID, 2, 20),
            cancel("cancel, 3 changes", NARROW, 3, 20),
        ],
    }
}

// C09

#[derive(Debug, Clone, Copy)]
struct Par {
    node: &'static str,
    name: &'static str,
    default: f64,
    min: f64,
    max: f64,
}

fn inf() -> f64 {
    f64::INFINITY
}
fn pars() -> Vec<Par> {
    let p = |node, name, default, min, max| Par { node, name, default, min, max };
    let d100 = 1e5;
    let d12 = 10f64.powf(12.0 / 20.0);
    vec![
        p("gain", "gain", 1.0, -inf(), inf()),
        p("pan", "pan", 0.0, -1.0, 1.0),
        p("oscillator", "frequency", 440.0, 20.0, 20_000.0),
        p("oscillator", "gain", 1.0, -inf(), inf()),
        p("biquad", "frequency", 1000.0, 20.0, 20_000.0),
        p("biquad", "q", 1.0 / 2f64.sqrt(), 0.1, 10.0),
        p("biquad", "shelf-gain", 1.0, 0.0, d100),
        p("biquad", "gain", 1.0, 0.0, d100),
        p("compressor", "attack", 1.0, 0.0, 1000.0),
        p("compressor", "release", 10.0, 0.0, 10_000.0),
        p("compressor", "ratio", 3.0, 1.0, f64::MAX),
        p("compressor", "threshold", 0.0, -128.0, 24.0),
        p("compressor", "knee", 0.0, 0.0, 24.0),
        p("compressor", "wet", 1.0, 0.0, d12),
        p("compressor", "dry", 0.0, 0.0, d12),
        p("convolution", "wet", 1.0, 0.0, 1.0),
        p("convolution", "dry", 0.0, 0.0, 1.0),
        p("waveshaper", "overdrive", 0.0, 0.0, 1.0),
        p("waveshaper", "mix", 1.0, 0.0, 1.0),
    ]
}

#[derive(Debug, Clone)]
struct Clamp {
    par: Par,
    method: usize,
    /// set before the change
    first: Option<f64>,
    v: f64,
    then: Option<f64>,
}

fn run_clamp(c: &Clamp, rec: &mut Rec) -> Check {
    inline(0, || {
        let mut e = eng(SR, 8, 2);
        let ctx = e.ctx.as_ref();
        macro_rules! go {
            ($n:expr, $m:ident) => {{
                let mut n = $n;
                let r = drive(c, n.$m(), &mut e, rec);
                drop(n);
                r
            }};
        }
        let imp = || buf(&[vec![1.0, 0.5]], SR);
        match (c.par.node, c.par.name) {
            ("gain", _) => go!(Gain::new(ctx, 1), gain),
            ("pan", _) => go!(Pan::new(ctx, 2), pan),
            ("oscillator", "frequency") => go!(Oscillator::sine(ctx, 440.0, 1), frequency),
            ("oscillator", _) => go!(Oscillator::sine(ctx, 440.0, 1), gain),
            ("biquad", "frequency") => go!(Biquad::new(ctx, 1, BiquadFilterType::LowPass), frequency),
            ("biquad", "q") => go!(Biquad::new(ctx, 1, BiquadFilterType::LowPass), q),
            ("biquad", "shelf-gain") => go!(Biquad::new(ctx, 1, BiquadFilterType::LowShelf), shelf_gain),
            ("biquad", _) => go!(Biquad::new(ctx, 1, BiquadFilterType::LowPass), gain),
            ("compressor", "attack") => go!(Compressor::new(ctx, 1), attack),
            ("compressor", "release") => go!(Compressor::new(ctx, 1), release),
            ("compressor", "ratio") => go!(Compressor::new(ctx, 1), ratio),
            ("compressor", "threshold") => go!(Compressor::new(ctx, 1), threshold),
            ("compressor", "knee") => go!(Compressor::new(ctx, 1), knee),
            ("compressor", "wet") => go!(Compressor::new(ctx, 1), wet),
            ("compressor", _) => go!(Compressor::new(ctx, 1), dry),
            ("convolution", "wet") => go!(Convolution::new(ctx, 1, imp()), wet),
            ("convolution", _) => go!(Convolution::new(ctx, 1, imp()), dry),
            ("waveshaper", "overdrive") => go!(Waveshaper::tanh(ctx, 1), overdrive),
            _ => go!(Waveshaper::tanh(ctx, 1), mix),
        }
    })
}

fn drive(c: &Clamp, p: &mut AudioParameter, e: &mut Eng, rec: &mut Rec) -> Check {
    let now = |p: &AudioParameter| p.get_value().load(std::sync::atomic::Ordering::SeqCst);
    let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * (1.0 + b.abs());
    ensure!(close(now(p), c.par.default), "the default is {}, documented {}", now(p), c.par.default);
    e.ctx.start();
    e.quiet(2, 1);
    ensure!(close(now(p), c.par.default), "the default becomes {} when processed", now(p));
    let t = |f: usize| Timestamp::from_samples(f as f64, SR);
    let send = |p: &mut AudioParameter, m: usize, v: f64, at: usize| match m {
        0 => p.set_value_now(v),
        1 => p.set_value_at_time(v, t(at + 1)),
        2 => p.linear_ramp_to_value(v, t(at), t(at + 3)),
        _ => p.exponential_ramp_to_value(v, t(at), t(at + 3)),
    };
    let mut at = 2;
    let mut before = now(p);
    if let Some(v) = c.first {
        p.set_value_now(v);
        e.quiet(1, 1);
        at += 1;
        before = v.clamp(c.par.min, c.par.max);
        ensure!(close(now(p), before), "set to {v} the value is {}, expected {before}", now(p));
    }
    let vals: Vec<f64> = std::iter::once(c.v).chain(c.then).collect();
    for v in vals {
        let want = v.clamp(c.par.min, c.par.max);
        send(p, c.method, v, at);
        for _ in 0..6 {
            e.quiet(1, 1);
            let x = now(p);
            let eps = 1e-9 * (1.0 + before.abs() + want.abs());
            ensure!(x >= before.min(want) - eps && x <= before.max(want) + eps, "on the way from {before} to {want} the value is {x}");
            ensure!(x >= c.par.min - 1e-9 && x <= c.par.max + 1e-9 * (1.0 + c.par.max.abs()), "value {x} is outside the range");
        }
        at += 6;
        before = want;
        ensure!(close(now(p), want), "after asking for {v} the value is {}, expected {want}", now(p));
        rec.state(&(c.par.node, c.par.name, c.method, v.to_bits()));
        rec.exec(&now(p).to_bits());
    }
    Ok(())
}

pub fn c09(t: Tier) -> Vec<Suite> {
    let ps = pars();
    let grid = |p: &Par| -> Vec<f64> {
        let (lo, hi) = (p.min.max(-1e6), p.max.min(1e6));
        let mut v = vec![lo - 1e7, lo - 1.0, lo - 1e-3, lo, lo + 1e-3, (lo + hi) / 2.0, p.default * 1.01 + 0.01, hi - 1e-3, hi, hi + 1e-3, hi + 1.0, hi + 1e7];
        if p.max.is_finite() {
            v.push(inf());
            v.push(-inf());
        }
        v
    };
    let two = t.pick(false, true);
    let size = ps.len() as u64 * 4 * 15 * 14 * if two { 15 } else { 1 };
    vec![cases(
        "ranges",
        "every parameter of every node, every way of changing it, a grid of 14 values in, at and outside its documented range, from the default or from any of these values",
        size,
        move |mut d: D| {
            let par = d.of(&ps);
            let method = d.n(4);
            let g = grid(&par);
            let i = d.n(14);
            let v = *g.get(i)?;
            let k = d.n(15);
            let first = if k == 0 { None } else { Some(*g.get(k - 1)?) };
            let then = if two {
                let j = d.n(15);
                if j == 0 { None } else { Some(*g.get(j - 1)?) }
            } else {
                None
            };
            // exponential ramps are defined between values of one sign only
            if method == 3 {
                let c = |v: f64| v.clamp(par.min, par.max);
                let all: Vec<f64> = [first.map_or(par.default, c), c(v)].into_iter().chain(then.map(c)).collect();
                if all.windows(2).any(|w| w[0] * w[1] <= 0.0 || w[0].abs().max(w[1].abs()) > 1e12) {
                    return None;
                }
            }
            // ramps between huge values are not meaningful in floating point
            if method == 2 && (first.unwrap_or(0.0).clamp(par.min, par.max).abs() > 1e12 || v.clamp(par.min, par.max).abs() > 1e12 || then.is_some_and(|v| v.clamp(par.min, par.max).abs() > 1e12)) {
                return None;
            }
            Some(Clamp { par, method, first, v, then })
        },
        run_clamp,
    )]
}
