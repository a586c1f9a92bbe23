//! Timestamps (C24) and levels (C30).

use super::buffers::list;
use crate::ensure;
use crate::eng::*;
use crate::fw::*;
use std::time::Duration;

const NS: f64 = 1.0e-9;

fn near(what: &str, got: f64, want: f64) -> Check {
    ensure!((got - want).abs() <= NS, "{what} is {got:e}, expected {want:e} (off by {:e} s)", got - want);
    Ok(())
}

const RATES: [usize; 12] = [1, 3, 64, 8_000, 11_025, 16_000, 22_050, 44_100, 48_000, 88_200, 96_000, 192_000];

#[derive(Debug, Clone)]
struct Samples {
    rate: usize,
    n: i64,
}

/// A count of samples survives the trip, neighbours stay ordered and apart, increments agree.
fn samples(c: &Samples, rec: &mut Rec) -> Check {
    let (r, n) = (c.rate, c.n as f64);
    let t = Timestamp::from_samples(n, r);
    let want = n / r as f64;
    near("from_samples", t.as_seconds(), want)?;
    ensure!((t.as_samples(r) - n).abs() <= NS * r as f64, "{n} samples come back as {}", t.as_samples(r));
    let next = Timestamp::from_samples(n + 1.0, r);
    ensure!(t < next && next > t && t != next && t <= next, "{n} and {} samples are not in order", n + 1.0);
    for k in [0usize, 1, 2, 64, 441, 512, 100_000] {
        near("incremented_by_samples", t.incremented_by_samples(k, r).as_seconds(), (n + k as f64) / r as f64)?;
    }
    if r.is_power_of_two() {
        ensure!(t.as_seconds() == want && t.as_samples(r) == n, "an exact time is {} s, {} samples", t.as_seconds(), t.as_samples(r));
        ensure!(t.incremented_by_samples(3, r) == Timestamp::from_samples(n + 3.0, r), "an exact increment is not exact");
    }
    rec.state(&(r, c.n));
    rec.exec(&t.as_seconds().to_bits());
    Ok(())
}

/// Values within about twenty days, both signs.
fn values() -> Vec<f64> {
    let mut v = vec![0.0];
    for x in [
        1e-9, 1e-6, 1.0 / 44_100.0, 1.0 / 48_000.0, 0.001, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.999_999_999, 1.0, 1.000_000_001, 1.5, 2.0, 59.999, 60.0, 100.125,
        3_599.999_999, 3_600.0, 65_535.0, 65_536.5, 86_400.0, 1_000_000.123, 1_700_000.75,
    ] {
        v.push(x);
        v.push(-x);
    }
    v
}

fn seconds(c: &f64, rec: &mut Rec) -> Check {
    let x = *c;
    let t = Timestamp::from_seconds(x);
    near("from_seconds", t.as_seconds(), x)?;
    for r in RATES {
        ensure!((t.as_samples(r) - x * r as f64).abs() <= NS * r as f64 + 1e-9, "{x} s is {} samples at {r}", t.as_samples(r));
        near("from_samples", Timestamp::from_samples(x * r as f64, r).as_seconds(), x)?;
    }
    for tempo in [30.0, 60.0, 100.0, 120.0, 128.0, 174.5, 300.0] {
        let beats = x * tempo / 60.0;
        near("from_beats", Timestamp::from_beats(beats, tempo).as_seconds(), x)?;
        ensure!((t.as_beats(tempo) - beats).abs() <= NS * tempo / 60.0 + 1e-9, "{x} s is {} beats at {tempo}", t.as_beats(tempo));
    }
    if x >= 0.0 {
        near("from_duration", Timestamp::from_duration(Duration::from_secs_f64(x)).as_seconds(), x)?;
    }
    ensure!(Timestamp::zero() == Timestamp::default() && Timestamp::zero().as_seconds() == 0.0, "zero is {:?}", Timestamp::zero());
    ensure!(t + Timestamp::zero() == t && t - Timestamp::zero() == t && t - t == Timestamp::zero(), "adding zero to {x} changes it");
    ensure!((t < Timestamp::zero()) == (x < -NS / 4.0) || x.abs() < NS, "{x} is on the wrong side of zero");
    rec.state(&x.to_bits());
    rec.exec(&t.as_seconds().to_bits());
    Ok(())
}

#[derive(Debug, Clone)]
struct Pair(f64, f64);

fn pair(c: &Pair, rec: &mut Rec) -> Check {
    let (x, y) = (c.0, c.1);
    let (a, b) = (Timestamp::from_seconds(x), Timestamp::from_seconds(y));
    near("sum", (a + b).as_seconds(), x + y)?;
    near("difference", (a - b).as_seconds(), x - y)?;
    near("incremented_by_seconds", a.incremented_by_seconds(y).as_seconds(), x + y)?;
    ensure!(a + b == b + a, "addition is not commutative");
    ensure!((a + b) - b == a, "adding and subtracting {y} changes {x}");
    for tempo in [60.0, 100.0, 128.0] {
        near("incremented_by_beats", a.incremented_by_beats(y * tempo / 60.0, tempo).as_seconds(), x + y)?;
    }
    if (x - y).abs() > NS {
        ensure!((a < b) == (x < y) && (a > b) == (x > y) && a != b, "{x} and {y} are not in order");
        ensure!(a.max(b) == if x > y { a } else { b } && a.min(b) == if x < y { a } else { b }, "max or min of {x} and {y}");
        ensure!(a.cmp(&b) == x.partial_cmp(&y).unwrap() && a.partial_cmp(&b) == Some(a.cmp(&b)), "comparison of {x} and {y}");
    }
    rec.state(&(x.to_bits(), y.to_bits()));
    rec.exec(&(a + b).as_seconds().to_bits());
    Ok(())
}

pub fn c24(t: Tier) -> Vec<Suite> {
    let near_zero: i64 = t.pick(3_000, 200_000);
    let far: [i64; 5] = [44_100 * 60, 48_000 * 3_600, 1 << 31, 1 << 32, 96_000 * 86_400];
    let around: i64 = t.pick(40, 2_000);
    let n1 = (2 * near_zero + 1) as u64;
    let n2 = (2 * around + 1) as u64 * 10;
    let v = values();
    let mut pairs = Vec::new();
    for a in &v {
        for b in &v {
            pairs.push(Pair(*a, *b));
        }
    }
    vec![
        cases(
            "samples near zero",
            &format!("every count of samples from -{near_zero} to {near_zero} at rates {RATES:?}"),
            n1 * 12,
            move |mut d: D| Some(Samples { rate: d.of(&RATES), n: d.n(n1 as usize) as i64 - near_zero }),
            samples,
        ),
        cases(
            "samples far out",
            &format!("every count of samples within {around} of plus or minus {far:?} that is less than twenty days, at rates {RATES:?}"),
            n2 * 12,
            move |mut d: D| {
                let rate = d.of(&RATES);
                let sign = if d.flag() { -1 } else { 1 };
                let n = sign * (d.of(&far) + d.n((2 * around + 1) as usize) as i64 - around);
                (n.abs() as f64 / (rate as f64) < 1.7e6).then_some(Samples { rate, n })
            },
            samples,
        ),
        list("seconds", "49 values from nanoseconds to twenty days, converted to and from seconds, samples at 12 rates, beats at 7 tempos and durations", v, seconds),
        list("pairs", "every pair of 49 values added, subtracted, incremented and compared", pairs, pair),
    ]
}

// ------------------------------------------------------------------------------------------------------------- levels

fn level(c: &f64, rec: &mut Rec) -> Check {
    let db = *c;
    let l = Level::from_db(db);
    let want = if db <= -128.0 { 0.0 } else { 10f64.powf(db / 20.0) };
    ensure!((l.as_linear() - want).abs() <= 1e-12 * (1.0 + want), "{db} dB is {}, expected {want}", l.as_linear());
    ensure!((l.as_linear_f32() as f64 - want).abs() <= 1e-6 * (1.0 + want), "{db} dB is {} in single precision", l.as_linear_f32());
    let back = l.as_db();
    ensure!((back - db.max(-128.0)).abs() <= 1e-9 * (1.0 + db.abs()), "{db} dB comes back as {back}");
    let f = Level::from_db_f32(db as f32);
    ensure!((f.as_linear() - want).abs() <= 1e-5 * (1.0 + want), "{db} dB from single precision is {}", f.as_linear());
    let lin = Level::from_linear(want);
    ensure!(lin.as_linear() == want && (lin.as_db() - back).abs() <= 1e-9 * (1.0 + back.abs()), "linear {want} is {} dB", lin.as_db());
    ensure!(l.is_zero() == (db <= -128.0), "is_zero of {db} dB");
    ensure!(l.is_unity() == (db == 0.0), "is_unity of {db} dB");
    for o in [-130.0, -60.0, -6.0, 0.0, 6.0, 24.0] {
        let p = Level::from_db(o);
        if (o - db).abs() > 1e-6 && (o > -128.0 || db > -128.0) {
            ensure!((l < p) == (db < o) && (l > p) == (db > o), "{db} dB and {o} dB are not in order");
        }
        let (lo, hi) = (Level::from_db(-12.0), Level::from_db(3.0));
        let k = l.clamp(&lo, &hi);
        let w = db.clamp(-12.0, 3.0);
        ensure!((k.as_db() - w).abs() <= 1e-9, "{db} dB limited to -12 to 3 dB is {}", k.as_db());
    }
    ensure!(Level::unity().as_linear() == 1.0 && Level::zero().as_linear() == 0.0 && Level::zero().is_zero() && Level::unity().is_unity(), "unity or zero");
    ensure!(Level::zero().as_db() == -128.0 && Level::unity().as_db() == 0.0, "unity or zero in dB");
    rec.state(&db.to_bits());
    rec.exec(&l.as_linear().to_bits());
    Ok(())
}

pub fn c30(t: Tier) -> Vec<Suite> {
    let step = t.pick(0.125, 0.001);
    let mut v: Vec<f64> = Vec::new();
    let mut i = 0;
    while -140.0 + i as f64 * step <= 130.0 {
        v.push(-140.0 + i as f64 * step);
        i += 1;
    }
    v.extend([f64::NEG_INFINITY, -1e9, -128.000001, -127.999999, 1e-6, -1e-6]);
    let mut gains: Vec<f64> = vec![0.0, 1.0];
    for e in [-300, -30, -12, -10, -9, -8, -7, -6, -3, -1, 1, 3, 6, 9, 30] {
        gains.extend([10f64.powi(e), 3.3 * 10f64.powi(e)]);
    }
    let triples = gains.iter().flat_map(|a| gains.iter().map(move |b| (*a, *b))).flat_map(|(a, b)| gains.iter().map(move |c| (a, b, *c))).filter(|(_, lo, hi)| lo <= hi).collect();
    vec![list("limits", &format!("every one of {} gains limited to every range of them, exactly", gains.len()), triples, |(x, lo, hi): &(f64, f64, f64), rec| {
        let l = Level::from_linear;
        let got = l(*x).clamp(&l(*lo), &l(*hi)).as_linear();
        ensure!(got == x.clamp(*lo, *hi), "{x:e} limited to {lo:e} to {hi:e} is {got:e}");
        ensure!(l(*x).partial_cmp(&l(*lo)) == x.partial_cmp(lo) && (l(*x) == l(*lo)) == (x == lo), "order of {x:e} and {lo:e}");
        rec.state(&x.to_bits());
        rec.exec(&got.to_bits());
        Ok(())
    }), list("decibels", &format!("every level from -140 to 130 dB in steps of {step} dB, and the ends of the range"), v, level)]
}
