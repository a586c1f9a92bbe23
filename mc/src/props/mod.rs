use crate::fw::*;

mod buffers;
mod c04;
mod concur;
mod corners;
mod events;
mod fx;
mod graph;
pub mod isolation;
mod lifetimes;
mod linear;
mod memory;
mod steady;
mod params;
mod partition;
mod rigs;
mod sampler;
mod shift;
mod threads;
mod time;

pub const IDS: &[&str] = &["C01", "C02", "C04", "C07", "C08", "C09", "C11", "C12", "C13", "C15", "C18", "C19", "C20", "C21", "C22", "C23", "C16", "C17", "C24", "C30", "C10", "C14", "C03", "C27", "C28", "C25", "C29", "C05", "C26", "C06", "C31", "C32", "C33", "C34", "C35"];

/// The arrangements of nodes whose output is to be the same wherever their memory is.
fn placed(id: &str) -> Vec<partition::Rig> {
    use partition::Rig::*;
    use rigs::{Kind::*, KINDS};
    match id {
        "C11" | "C12" => vec![One(Sampler), Amid(Sampler)],
        "C13" => vec![One(Adsr), Amid(Adsr)],
        "C14" => vec![One(Recorder), Amid(Recorder)],
        "C15" => vec![One(Envelope), Amid(Envelope)],
        "C18" => vec![One(Oscillator), Amid(Oscillator)],
        "C19" => vec![One(Convolution), Amid(Convolution)],
        "C20" => vec![One(Biquad), Amid(Biquad)],
        "C21" => vec![One(Compressor), Amid(Compressor)],
        "C22" => vec![One(Waveshaper), Amid(Waveshaper)],
        "C23" => vec![One(Gain), One(Pan), One(Mixer), Amid(Pan)],
        "C28" => KINDS.iter().map(|k| One(*k)).chain([Row]).collect(),
        _ => vec![],
    }
}

pub fn suites(id: &str, t: Tier) -> Vec<Suite> {
    let mut v = own(id, t);
    let rigs = placed(id);
    if !rigs.is_empty() {
        v.extend(partition::placed(t, &rigs));
    }
    v
}

fn own(id: &str, t: Tier) -> Vec<Suite> {
    match id {
        "C01" => graph::c01(t),
        "C02" => graph::c02(t),
        "C04" => c04::suites(t),
        "C07" => params::c07(t),
        "C08" => params::c08(t),
        "C09" => params::c09(t),
        "C11" => sampler::c11(t),
        "C12" => sampler::c12(t),
        "C13" => fx::c13(t),
        "C15" => fx::c15(t),
        "C18" => fx::c18(t),
        "C19" => fx::c19(t),
        "C20" => fx::c20(t),
        "C21" => fx::c21(t),
        "C22" => fx::c22(t),
        "C23" => fx::c23(t),
        "C16" => buffers::c16(t),
        "C17" => buffers::c17(t),
        "C24" => time::c24(t),
        "C30" => time::c30(t),
        "C10" => events::c10(t),
        "C14" => events::c14(t),
        "C03" => partition::c03(t),
        "C27" => isolation::c27(t),
        "C28" => isolation::c28(t),
        "C25" => lifetimes::c25(t),
        "C29" => corners::c29(t),
        "C05" => concur::c05(t),
        "C06" => threads::c06(t),
        "C26" => threads::c26(t),
        "C31" => shift::c31(t),
        "C32" => shift::c32(t),
        "C33" => linear::c33(t),
        "C34" => memory::c34(t),
        "C35" => steady::c35(t),
        _ => vec![],
    }
}

pub fn assumptions(id: &str) -> Vec<String> {
    let mut v = vec![
        "sequentially consistent interleavings at channel, atomic, thread and sleep operations".to_string(),
        "debug assertions and overflow checks are on, the bounds are those listed per suite".to_string(),
    ];
    if let Some(x) = extra(id) {
        v.push(x.to_string());
    }
    v
}

fn extra(_id: &str) -> Option<&'static str> {
    None
}
