//! The sampler. C11: starting, stopping, fading. C12: looping. C10 (with others): order of events.

use crate::eng::*;
use crate::fw::*;

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub enum K {
    Start(usize),
    StartNow,
    Stop,
    StopNow,
    Loop(usize, usize),
    LoopNow(usize, usize),
    Unloop,
    UnloopNow,
    CancelAll,
}
impl K {
    pub fn now(&self) -> bool {
        matches!(self, K::StartNow | K::StopNow | K::LoopNow(..) | K::UnloopNow | K::CancelAll)
    }
}

/// An event: what, when it is due, and the frame at whose block it is submitted.
#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub struct Ev {
    pub k: K,
    pub at: usize,
    pub arrives: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
enum Phase {
    Off,
    In(usize),
    On,
    Out(usize),
}

#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Model {
    len: usize,
    fade: usize,
    v: [(usize, Phase); 2],
    active: Option<usize>,
    looped: Option<(usize, usize)>,
    queue: Vec<(usize, usize, K)>,
    seq: usize,
}

impl Model {
    pub fn new(len: usize, sr: usize) -> Self {
        let fade = (sr as f64 * 0.05).ceil() as usize;
        Self { len, fade, v: [(0, Phase::Off); 2], active: None, looped: None, queue: vec![], seq: 0 }
    }
    pub fn submit(&mut self, e: &Ev) {
        if e.k == K::CancelAll {
            self.queue.clear();
        }
        let t = if e.k.now() { 0 } else { e.at };
        self.queue.push((t, self.seq, e.k));
        self.queue.sort_by_key(|q| (q.0, q.1));
        self.seq += 1;
    }
    fn stop(&mut self) {
        for v in &mut self.v {
            if matches!(v.1, Phase::In(_) | Phase::On) {
                v.1 = Phase::Out(0);
            }
        }
        self.active = None;
    }
    fn begin(&mut self, pos: usize) {
        if self.active.is_some_and(|a| self.v[a].0 == pos) {
            return;
        }
        self.stop();
        let left = |p: Phase| match p {
            Phase::Off => 0,
            Phase::Out(i) => self.fade - i,
            _ => usize::MAX,
        };
        let i = if left(self.v[1].1) < left(self.v[0].1) { 1 } else { 0 };
        self.v[i] = (pos, if pos == 0 { Phase::On } else { Phase::In(0) });
        self.active = Some(i);
    }
    /// One frame: the factors by which sample frames contribute. None where the property says nothing.
    pub fn frame(&mut self, f: usize) -> Option<Vec<(usize, f64)>> {
        while self.queue.first().is_some_and(|q| q.0 <= f) {
            let (t, _, k) = self.queue.remove(0);
            match k {
                K::Start(p) => {
                    // a start that is handled late skips what should have been played by now
                    let p = p + f - t;
                    if f > t && self.looped.is_some_and(|l| p >= l.1) {
                        return None;
                    }
                    self.begin(p);
                }
                K::StartNow => self.begin(0),
                K::Stop | K::StopNow => self.stop(),
                K::Loop(a, b) | K::LoopNow(a, b) => {
                    if self.active.is_some_and(|i| self.v[i].0 >= self.len) {
                        return None;
                    }
                    self.looped = (b > a).then_some((a, b));
                }
                K::Unloop | K::UnloopNow => self.looped = None,
                K::CancelAll => {
                    self.stop();
                    self.looped = None;
                }
            }
        }
        if let (Some((a, b)), Some(i)) = (self.looped, self.active) {
            if self.v[i].0 >= b {
                self.begin(a);
            }
        }
        let curve = |i: usize| 0.5 + 0.5 * ((2.0 * i as f64 / self.fade as f64 - 1.0) * std::f64::consts::FRAC_PI_2).sin();
        let mut out = Vec::new();
        let fade = self.fade;
        for v in &mut self.v {
            let gain = match v.1 {
                Phase::Off => continue,
                Phase::In(i) => {
                    v.1 = if i + 1 < fade { Phase::In(i + 1) } else { Phase::On };
                    curve(i)
                }
                Phase::On => 1.0,
                Phase::Out(i) => {
                    v.1 = if i + 1 < fade { Phase::Out(i + 1) } else { Phase::Off };
                    curve(fade - i)
                }
            };
            if v.0 < self.len {
                out.push((v.0, gain));
            }
            v.0 += 1;
        }
        Some(out)
    }
}

pub fn send(s: &mut Sampler, k: K, at: usize, sr: usize) {
    let t = |f: usize| Timestamp::from_samples(f as f64, sr);
    match k {
        K::Start(p) => s.start_from_position_at_time(t(at), t(p)),
        K::StartNow => s.start_now(),
        K::Stop => s.stop_at_time(t(at)),
        K::StopNow => s.stop_now(),
        K::Loop(a, b) => s.enable_loop_at_time(t(at), t(a), t(b)),
        K::LoopNow(a, b) => s.enable_loop(t(a), t(b)),
        K::Unloop => s.cancel_loop_at_time(t(at)),
        K::UnloopNow => s.cancel_loop(),
        K::CancelAll => s.cancel_all(),
    }
}

#[derive(Debug, Clone)]
pub struct Case {
    pub sr: usize,
    pub ch: usize,
    pub len: usize,
    pub events: Vec<Ev>,
    pub lens: Vec<usize>,
    pub maxf: usize,
}

fn sample(ch: usize, len: usize) -> Chans {
    (0..ch).map(|c| (0..len).map(|f| ((c + 1) * 100 + f * 3 + f * f % 7) as f32).collect()).collect()
}

pub fn expected(c: &Case, mut see: impl FnMut(&Model, usize)) -> Option<Chans> {
    let s = sample(c.ch, c.len);
    let mut m = Model::new(c.len, c.sr);
    let mut out = vec![Vec::new(); c.ch];
    let mut f = 0;
    for l in &c.lens {
        for e in c.events.iter().filter(|e| e.arrives == f) {
            m.submit(e);
        }
        for _ in 0..*l {
            let parts = m.frame(f)?;
            for (ch, o) in out.iter_mut().enumerate() {
                o.push(parts.iter().map(|(p, g)| s[ch][*p] as f64 * g).sum::<f64>() as f32);
            }
            see(&m, f);
            f += 1;
        }
    }
    Some(out)
}

pub fn run(c: &Case, rec: &mut Rec) -> Check {
    let Some(want) = expected(c, |m, f| rec.state(&(m, f, c.sr))) else { return Ok(()) };
    inline(0, || {
        let mut e = eng(c.sr, c.maxf, 2);
        let mut s = Sampler::new(e.ctx.as_ref(), buf(&sample(c.ch, c.len), c.sr));
        s.node.connect_to_output();
        e.ctx.start();
        let mut f = 0;
        let mut got = vec![Vec::new(); c.ch];
        for l in &c.lens {
            for ev in c.events.iter().filter(|e| e.arrives == f) {
                send(&mut s, ev.k, ev.at, c.sr);
            }
            for (g, o) in got.iter_mut().zip(e.quiet(*l, c.ch)) {
                g.extend(o);
            }
            f += l;
        }
        same_all("sampler output", &got, &want, 1e-5)?;
        rec.exec(&got.iter().map(|g| bits(g)).collect::<Vec<_>>());
        Ok(())
    })
}

/// Blocks so that every arrival is a block start.
fn blocks_for(arrivals: &[usize], frames: usize) -> Vec<usize> {
    let mut cut: Vec<usize> = arrivals.iter().copied().filter(|a| *a > 0 && *a < frames).collect();
    cut.sort();
    cut.dedup();
    cut.push(frames);
    let mut at = 0;
    cut.iter()
        .map(|c| {
            let l = c - at;
            at = *c;
            l
        })
        .collect()
}

pub fn words_suite(name: &str, kinds: &'static [K], deltas: &'static [usize], depth: usize, srs: &'static [usize], len: usize, frames: usize) -> Suite {
    let letters = kinds.len() * deltas.len();
    let modes = 5;
    let size = words(letters, depth) * modes * srs.len() as u64;
    cases(
        name,
        &format!("every word up to {depth} of {kinds:?}, each {deltas:?} frames after the one before; all submitted first, or each when due, or 2 frames before, or 2 frames after; whole blocks or passes of 3 frames; sample of {len} frames at rates {srs:?}; {frames} frames"),
        size,
        move |mut d: D| {
            let sr = d.of(srs);
            let mode = d.n(modes as usize);
            let w = d.word_upto(letters, depth);
            let mut at = 0;
            let mut events = Vec::new();
            for l in w {
                let k = kinds[l % kinds.len()];
                at += deltas[l / kinds.len()];
                let arrives = match mode {
                    _ if k.now() => at,
                    0 | 1 => 0,
                    2 => at,
                    3 => at.saturating_sub(2),
                    _ => at + 2,
                };
                events.push(Ev { k, at, arrives });
            }
            // submission order is arrival order
            events.sort_by_key(|e| e.arrives);
            let lens = blocks_for(&events.iter().map(|e| e.arrives).collect::<Vec<_>>(), frames);
            // modes 2 to 4 differ from mode 0 only if something is timed
            if mode > 1 && events.iter().all(|e| e.k.now()) {
                return None;
            }
            let c = Case { sr, ch: 1 + (sr / 32) % 2, len, events, lens, maxf: if mode == 1 { 3 } else { 64 } };
            expected(&c, |_, _| ()).map(|_| c)
        },
        run,
    )
}

const PLAY: &[K] = &[K::Start(0), K::Start(3), K::StartNow, K::Stop, K::StopNow, K::CancelAll];
const LOOPS: &[K] = &[
    K::Start(0), K::Start(5), K::LoopNow(0, 4), K::Loop(2, 6), K::Loop(3, 12), K::LoopNow(4, 5), K::Stop, K::Unloop, K::UnloopNow, K::CancelAll,
];

pub fn c11(t: Tier) -> Vec<Suite> {
    let mut v = vec![
        words_suite("start and stop", PLAY, &[0, 1, 2, 5], 3, &[16, 32, 64], 12, 24),
        words_suite("longer words", PLAY, &[1, 3], t.pick(4, 5), &[64], 12, 24),
        long(t, false),
    ];
    if t == Tier::Thorough {
        v.push(words_suite("start and stop, deep", PLAY, &[0, 1, 2, 5], 4, &[32, 64], 12, 26));
    }
    v
}

pub fn c12(t: Tier) -> Vec<Suite> {
    let mut v = vec![
        words_suite("loops", LOOPS, &[0, 1, 3, 7], t.pick(2, 3), &[16, 32, 64], 12, 30),
        words_suite("longer loop words", LOOPS, &[2, 5], t.pick(3, 4), &[64], 12, 36),
        words_suite("loop after loop", &[K::Start(0), K::Loop(1, 6), K::Loop(2, 4), K::LoopNow(5, 11), K::Unloop], &[1, 4], t.pick(4, 5), &[64], 12, 36),
        words_suite("loops cancelled", &[K::StartNow, K::LoopNow(2, 6), K::CancelAll, K::Stop, K::UnloopNow], &[3, 9], t.pick(5, 6), &[64], 12, 60),
        words_suite("loops past the end", &[K::Start(0), K::Start(5), K::LoopNow(0, 17), K::Loop(4, 14), K::Loop(11, 13), K::Unloop, K::Stop], &[0, 1, 4], t.pick(3, 4), &[64], 12, 60),
        long(t, true),
    ];
    if t == Tier::Thorough {
        v.push(words_suite("loops, deep", &[K::Start(0), K::Start(5), K::Loop(2, 6), K::LoopNow(0, 4), K::Unloop, K::Stop], &[0, 2, 7], 4, &[64], 12, 40));
    }
    v
}

/// Ordinary rates, long runs.
fn long(t: Tier, loops: bool) -> Suite {
    let rates = [8_000usize, 44_100, 48_000, 96_000];
    let blocks = [64usize, 100, 512];
    let starts: Vec<(usize, usize)> = if loops {
        vec![(0, 1), (0, 7), (0, 100), (3, 10), (3, 500), (250, 999), (1, 441), (500, 1000), (0, 1001), (0, 1500), (700, 1300), (999, 2000)]
    } else {
        vec![(0, 0), (1, 1), (1, 900), (333, 100), (5, 4000), (3000, 7)]
    };
    let frames = t.pick(6_000, 40_000);
    let n = (rates.len() * blocks.len() * starts.len()) as u64;
    cases(
        if loops { "long loops at ordinary rates" } else { "long samples at ordinary rates" },
        &format!("rates {rates:?}, blocks {blocks:?}, {} {starts:?}, {frames} frames", if loops { "loop points" } else { "start positions and stop frames" }),
        n,
        move |mut d: D| {
            let (sr, b, p) = (d.of(&rates), d.of(&blocks), d.of(&starts));
            let now = |k| Ev { k, at: 0, arrives: 0 };
            let (len, events) = if loops {
                (1000, vec![now(K::LoopNow(p.0, p.1)), now(K::StartNow)])
            } else {
                let stop = p.1.div_ceil(b) * b;
                (5000, vec![Ev { k: K::Start(p.0), at: 0, arrives: 0 }, Ev { k: K::StopNow, at: stop, arrives: stop }])
            };
            Some(Case { sr, ch: 1, len, events, lens: vec![b; frames / b], maxf: 512 })
        },
        run,
    )
}
