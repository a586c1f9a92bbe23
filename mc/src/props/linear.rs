//! C33: what is linear is linear at every level.

use super::rigs::*;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Line {
    One(Kind),
    /// a biquad of each of the six types
    Filter(usize),
    /// all of them in a row
    Row,
}

fn lines() -> Vec<Line> {
    let mut v: Vec<Line> = [Kind::Gain, Kind::Pan, Kind::Convolution, Kind::Mixer, Kind::Adsr].map(Line::One).to_vec();
    v.extend((0..6).map(Line::Filter));
    v.push(Line::Row);
    v
}

fn build(line: Line, ctx: &mut dyn Context, sr: usize, around: Around) -> (Vec<Unit>, Vec<Gain>) {
    let types = [
        BiquadFilterType::LowPass,
        BiquadFilterType::HighPass,
        BiquadFilterType::BandPass,
        BiquadFilterType::Notch,
        BiquadFilterType::LowShelf,
        BiquadFilterType::HighShelf,
    ];
    let v: Vec<Unit> = match line {
        Line::One(k) => vec![Unit::make(k, ctx, sr)],
        Line::Filter(i) => vec![Unit::Biquad(Biquad::new(ctx, 2, types[i]))],
        Line::Row => [Kind::Gain, Kind::Biquad, Kind::Convolution, Kind::Mixer, Kind::Adsr, Kind::Pan].into_iter().map(|k| Unit::make(k, ctx, sr)).collect(),
    };
    for w in v.windows(2) {
        w[1].node(&mut |n| w[0].connect_to(n));
    }
    let mut gains = vec![];
    match around {
        None => {
            v[0].from_input();
            v[v.len() - 1].to_output();
        }
        Some((before, after)) => {
            let mut gain = |level: f64| {
                let mut g = Gain::new(ctx, 2);
                g.gain().set_value_now(level);
                g
            };
            gains = vec![gain(before), gain(after)];
            gains[0].node.connect_to_input();
            v[0].fed_by(&gains[0].node);
            v[v.len() - 1].connect_to(&gains[1].node);
            gains[1].node.connect_to_output();
        }
    }
    (v, gains)
}

/// What one channel of the input is.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Shape {
    Silence,
    Constant,
    /// one at a frame, silence before and after
    Impulse(usize),
    /// constant up to a frame, then silence
    Until(usize),
    Rough(usize),
}
const N: usize = 14;

impl Shape {
    fn signal(self) -> Vec<f32> {
        (0..N)
            .map(|f| match self {
                Shape::Silence => 0.0,
                Shape::Constant => 0.625,
                Shape::Impulse(k) => (f == k) as u8 as f32,
                Shape::Until(k) => (f < k) as u8 as f32 * -0.375,
                Shape::Rough(c) => rough(N, 2)[c][f],
            })
            .collect()
    }
}

#[derive(Debug, Clone)]
struct Case {
    line: Line,
    timed: bool,
    sr: usize,
    lens: Vec<usize>,
    a: [Shape; 2],
    b: [Shape; 2],
    /// the factors of the two
    ka: f32,
    kb: f32,
}

type Key = (Line, bool, usize, Vec<usize>, Vec<Vec<u32>>);
type Around = Option<(f64, f64)>;
static KEPT: Mutex<Option<HashMap<Key, Arc<Chans>>>> = Mutex::new(None);

fn output(c: &Case, x: &Chans, keep: bool, around: Around) -> Arc<Chans> {
    let key = (c.line, c.timed, c.sr, c.lens.clone(), x.iter().map(|x| bits(x)).collect());
    if keep {
        if let Some(r) = KEPT.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
            return Arc::clone(r);
        }
    }
    let out = Arc::new(inline(0, || {
        let mut e = eng(c.sr, 8, 2);
        let (mut units, _gains) = build(c.line, e.ctx.as_mut(), c.sr, around);
        for u in &mut units {
            if c.timed {
                u.schedule(N, c.sr);
            } else {
                u.settings(c.sr);
            }
        }
        e.ctx.start();
        e.blocks(x, &c.lens, 2)
    }));
    if keep {
        KEPT.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, Arc::clone(&out));
    }
    out
}

fn run(c: &Case, rec: &mut Rec) -> Check {
    let a: Chans = c.a.iter().map(|s| s.signal()).collect();
    let b: Chans = c.b.iter().map(|s| s.signal()).collect();
    let sum: Chans = a.iter().zip(&b).map(|(a, b)| a.iter().zip(b).map(|(a, b)| c.ka * a + c.kb * b).collect()).collect();
    let got = output(c, &sum, false, None);
    let (oa, ob) = (output(c, &a, true, None), output(c, &b, true, None));
    let scale = sum.iter().flatten().fold(0.0f32, |m, x| m.max(x.abs()));
    for ch in 0..2 {
        for f in 0..N {
            let want = c.ka as f64 * oa[ch][f] as f64 + c.kb as f64 * ob[ch][f] as f64;
            let most = (c.ka as f64 * oa[ch][f] as f64).abs() + (c.kb as f64 * ob[ch][f] as f64).abs() + scale as f64 * 0.25;
            let g = got[ch][f] as f64;
            ensure!((g - want).abs() <= 1e-5 * most, "channel {ch}, frame {f} is {g}; {} times one output and {} times the other is {want}", c.ka, c.kb);
        }
    }
    rec.state(&(c.line, c.timed, c.lens.len(), c.a, c.b));
    rec.exec(&(c.line, got.iter().map(|g| bits(g)).collect::<Vec<_>>()));
    Ok(())
}

/// The factors applied by gains before and after it instead.
fn run_around(c: &Case, rec: &mut Rec) -> Check {
    let a: Chans = c.a.iter().map(|s| s.signal()).collect();
    let (before, after) = (c.ka, c.kb);
    let got = output(c, &a, false, Some((before as f64, after as f64)));
    let plain = output(c, &a, true, None);
    let k = before as f64 * after as f64;
    for ch in 0..2 {
        for f in 0..N {
            let want = k * plain[ch][f] as f64;
            let g = got[ch][f] as f64;
            ensure!((g - want).abs() <= 1e-5 * (want.abs() + 0.25 * k.abs()), "channel {ch}, frame {f} is {g} between gains of {before} and {after}, {} without", plain[ch][f]);
        }
    }
    rec.state(&(c.line, c.timed, c.lens.len(), c.a));
    rec.exec(&(c.line, got.iter().map(|g| bits(g)).collect::<Vec<_>>()));
    Ok(())
}

pub fn c33(t: Tier) -> Vec<Suite> {
    let lines = lines();
    let l2 = lines.clone();
    let shapes: Vec<Shape> = vec![Shape::Silence, Shape::Constant, Shape::Impulse(0), Shape::Impulse(5), Shape::Until(6), Shape::Rough(0), Shape::Rough(1)];
    let few: Vec<[Shape; 2]> = vec![
        [Shape::Constant, Shape::Silence],
        [Shape::Silence, Shape::Constant],
        [Shape::Impulse(0), Shape::Impulse(5)],
        [Shape::Rough(0), Shape::Until(6)],
        [Shape::Rough(0), Shape::Rough(1)],
    ];
    let lens: Vec<Vec<usize>> = vec![vec![N], vec![1; N], vec![5, 1, 8]];
    let l1 = lens.clone();
    let rates = t.pick(vec![SR], vec![SR, 44_100]);
    let r2 = [SR, 44_100, 96_000];
    let most = t.pick(30i32, 60);
    let nf = few.len();
    let (f3, n3, l3) = (few.clone(), lens.clone(), lines.clone());
    let steps = t.pick(7usize, 2);
    let powers: Vec<i32> = (-56..=28).step_by(steps).collect();
    vec![
        cases(
            "sums",
            &format!("a gain, a pan, a convolution, a mixer, an ADSR, biquads of six types, and a row of them, with timed changes or settings, rates {rates:?}, 3 partitions of {N} frames; the sum of two inputs of two channels, each channel any of {shapes:?}"),
            prod(&[shapes.len().pow(4) as u64, lens.len() as u64, lines.len() as u64, 2, rates.len() as u64]),
            move |mut d: D| {
                let lens = d.of(&lens);
                let a = [d.of(&shapes), d.of(&shapes)];
                let b = [d.of(&shapes), d.of(&shapes)];
                // one of the two orders
                if format!("{a:?}") > format!("{b:?}") {
                    return None;
                }
                Some(Case { lens, a, b, line: d.of(&lines), timed: d.flag(), sr: d.of(&rates), ka: 1.0, kb: 1.0 })
            },
            run,
        ),
        cases(
            "levels",
            &format!("the same nodes at rates {r2:?}; {nf} inputs times 2^k, k from -60 to {most}, and times -1; 3 partitions"),
            prod(&[(60 + most + 1) as u64, 2, 3, 12, 2, 3, nf as u64]),
            move |mut d: D| {
                let k = d.n((60 + most + 1) as usize) as i32 - 60;
                let sign = if d.flag() { -1.0 } else { 1.0 };
                let lens = d.of(&l1);
                Some(Case { line: d.of(&l2), timed: d.flag(), sr: d.of(&r2), a: d.of(&few), b: [Shape::Silence; 2], ka: sign * 2f32.powi(k), kb: 0.0, lens })
            },
            run,
        ),
        cases(
            "between gains",
            &format!("the same nodes between two gains of 2^j and 2^k, j and k over -56 to 28 by {steps}, the second inverting or not; {nf} inputs; 3 partitions"),
            prod(&[pow(powers.len(), 2), 2, 3, 12, 2, nf as u64]),
            move |mut d: D| {
                let (j, k) = (d.of(&powers), d.of(&powers));
                let sign = if d.flag() { -1.0 } else { 1.0 };
                let lens = d.of(&n3);
                Some(Case { line: d.of(&l3), timed: d.flag(), sr: SR, a: d.of(&f3), b: [Shape::Silence; 2], ka: 2f32.powi(j), kb: sign * 2f32.powi(k), lens })
            },
            run_around,
        ),
    ]
}
