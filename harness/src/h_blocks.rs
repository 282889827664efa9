//! C02 cutting the stream into blocks.
use crate::rig::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

const SR: usize = 32_768; // where sample times are exact

/// What has to be kept alive, and what can be asked afterwards.
pub struct Scene { pub r: Rig, pub meter: Option<Rc<RefCell<Envelope>>>, pub recorder: Option<Rc<RefCell<Recorder>>>, _keep: Vec<Box<dyn std::any::Any>> }

fn gain(r: &Rig, ch: usize) -> Gain { Gain::new(r.ctx.as_ref(), ch) }

pub const KINDS: usize = 16;
pub fn scene(kind: usize, sr: usize, max: usize, v: f32, s: f64) -> Scene {
    let at = |s: f64| Timestamp::from_samples(s, sr);
    let mut r = Rig::new(sr, 2, max);
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    let (mut meter, mut recorder) = (None, None);
    macro_rules! put { ($n:expr) => {{ let n = $n; n.node.connect_to_input(); n.node.connect_to_output(); keep.push(Box::new(n)); }} }
    match kind {
        0 => { let mut g = gain(&r, 2); g.gain().set_value_at_time(v as f64, at(s)); g.gain().set_value_at_time(0.25, at(s + 2.0)); put!(g); }
        1 => { let mut g = gain(&r, 2); g.gain().linear_ramp_to_value(v as f64, at(s), at(s + 3.0)); put!(g); }
        2 => { let mut g = gain(&r, 2); g.gain().exponential_ramp_to_value(2.0, at(s), at(s + 3.5)); g.gain().set_value_at_time(v as f64, at(s + 4.0)); put!(g); }
        3 => { let mut n = Biquad::new(r.ctx.as_ref(), 2, BiquadFilterType::HighPass); n.frequency().set_value_now(3000.0); n.gain().set_value_at_time(v as f64, at(s)); put!(n); }
        4 => { let mut n = Compressor::new(r.ctx.as_ref(), 2); n.threshold().set_value_now(-20.0); n.wet().set_value_at_time(v as f64, at(s)); put!(n); }
        5 => { let mut n = Waveshaper::hard_clip(r.ctx.as_ref(), 2, Level::from_linear(0.5)); n.mix().set_value_at_time(0.5, at(s)); put!(n); }
        6 => { let mut n = Adsr::new(r.ctx.as_ref(), 2, sr); let d = Duration::from_secs_f64(2.0 / sr as f64); n.set_attack_time(d); n.set_decay_time(d); n.set_sustain_level(Level::from_linear(0.5)); n.set_release_time(d); n.note_on_at_time(at(s)); n.note_off_at_time(at(s + 3.25)); put!(n); }
        7 => { let mut n = Pan::new(r.ctx.as_ref(), 2); n.pan().linear_ramp_to_value(-0.5, at(0.0), at(s + 1.0)); put!(n); }
        8 => { let mut i = OwnedAudioBuffer::new(3, 2, sr); for c in 0..2 { for f in 0..3 { i.set_sample(SampleLocation::new(c, f), 1.0 - 0.25 * (f + c) as f32); } } put!(Convolution::new(r.ctx.as_ref(), 2, i)); }
        9 => { let mut i = OwnedAudioBuffer::new(9, 2, sr); for c in 0..2 { for f in 0..9 { i.set_sample(SampleLocation::new(c, f), if f == 2 { v } else { (f + c) as f32 }); } }
            let mut n = Sampler::new(r.ctx.as_ref(), i); n.start_from_position_at_time(at(s), at(0.0)); n.enable_loop_at_time(at(s + 1.0), at(0.0), at(3.0)); n.stop_at_time(at(s + 5.0)); put!(n); }
        10 => { let mut n = Oscillator::new(r.ctx.as_ref(), 5000.0, 2, vec![0.0, 1.0, 0.5, -1.0]); n.frequency().set_value_at_time(9000.0, at(s)); n.gain().set_value_at_time(v as f64, at(s + 1.0)); put!(n); }
        11 => { let n = Envelope::new(r.ctx.as_mut(), 2, Duration::ZERO, Duration::from_millis(1), sr as f64 / 2.0); n.borrow().node.connect_to_input(); meter = Some(n); }
        12 => { let n = Recorder::new(r.ctx.as_mut(), 2, sr); n.borrow().node.connect_to_input(); n.borrow_mut().record_now(); n.borrow_mut().stop_record_at_time(at(s + 2.0)); recorder = Some(n); }
        13 => { let mut n = Mixer::new(r.ctx.as_ref(), 2, 2); n.set_level(0, 1, Level::from_linear(0.5)); n.set_level(1, 0, Level::from_linear(2.0)); put!(n); }
        14 => { // a graph: split, filtered on one side, swapped on the other, joined and ramped
            let a = gain(&r, 2); let b = Biquad::new(r.ctx.as_ref(), 2, BiquadFilterType::LowPass); let p = gain(&r, 2); let mut z = gain(&r, 2);
            a.node.connect_to_input(); a.node.connect_to(&b.node); a.node.connect_channels_to(&p.node, 0, 1, 1); b.node.connect_to(&z.node); p.node.connect_to(&z.node); z.node.connect_to_output();
            z.gain().linear_ramp_to_value(0.5, at(s), at(s + 2.5)); z.gain().set_value_at_time(v as f64, at(s + 4.0));
            keep.push(Box::new(a)); keep.push(Box::new(b)); keep.push(Box::new(p)); keep.push(Box::new(z)); }
        _ => { // an instrument: an oscillator through an envelope and a filter
            let o = Oscillator::new(r.ctx.as_ref(), 3000.0, 2, vec![0.0, 1.0, -1.0]); let mut e = Adsr::new(r.ctx.as_ref(), 2, sr); let f = Biquad::new(r.ctx.as_ref(), 2, BiquadFilterType::LowPass);
            o.node.connect_to(&e.node); e.node.connect_to(&f.node); f.node.connect_to_output();
            let d = Duration::from_secs_f64(2.0 / sr as f64); e.set_attack_time(d); e.set_release_time(d);
            e.note_on_at_time(at(s)); e.note_off_at_time(at(s + 4.0));
            keep.push(Box::new(o)); keep.push(Box::new(e)); keep.push(Box::new(f)); }
    }
    r.ctx.start();
    Scene { r, meter, recorder, _keep: keep }
}

/// Everything that comes out: samples, reports and recordings.
fn play(mut d: Scene, x: &[Vec<f32>], blocks: &[usize]) -> (Vec<Vec<f32>>, Vec<f32>) {
    let mut extra = vec![];
    let mut res = vec![vec![]; 2];
    let mut from = 0;
    for &b in blocks {
        let part: Vec<Vec<f32>> = x.iter().map(|c| c[from..from + b].to_vec()).collect();
        let y = d.r.block(&part, 2, b);
        for c in 0..2 { res[c].extend_from_slice(&y[c]); }
        from += b;
        d.r.ctx.process_notifications();
    }
    if let Some(m) = &d.meter { for n in m.borrow_mut().take_notifications() { extra.push(n.channel_index() as f32); extra.push(n.peak_level()); } }
    if let Some(m) = &d.recorder { if let Some(b) = m.borrow_mut().take_recording() { for c in 0..2 { for f in 0..b.frame_count() { extra.push(b.get_sample(SampleLocation::new(c, f))); } } } }
    (res, extra)
}
fn alike(kind: usize, sr: usize, max: usize, v: f32, s: f64, x: &[Vec<f32>], one: &[usize], other: &[usize]) {
    let (a, b) = (play(scene(kind, sr, max, v, s), x, one), play(scene(kind, sr, max, v, s), x, other));
    let tol = if kind == 8 { 1e-3 } else { 1e-4 };
    for c in 0..2 { for f in 0..a.0[c].len() { check((a.0[c][f] - b.0[c][f]).abs() <= tol, "the same samples however the stream is cut"); } }
    if kind != 8 { observe(a.0[0][0]); }
    check(a.1.len() == b.1.len(), "as many reports, as long a recording");
    for k in 0..a.1.len().min(b.1.len()) { check((a.1[k] - b.1[k]).abs() <= tol, "the same reports, the same recording"); }
}
fn cut(n: usize, mask: usize) -> Vec<usize> {
    let mut v = vec![]; let mut len = 0;
    for f in 0..n { len += 1; if f + 1 == n || mask >> f & 1 == 1 { v.push(len); len = 0; } }
    v
}

/// Known samples, and at the frames in `open` any sample of a range in which the node has one formula.
pub fn input(kind: usize, n: usize, open: &[usize]) -> Vec<Vec<f32>> {
    (0..2).map(|c| (0..n).map(|f| {
        if !open.contains(&f) { return ((f * 5 + c * 3) % 8) as f32 / 4.0 - 1.0; }
        match kind {
            4 | 5 | 11 if c == 1 || f != open[0] => ((f * 3 + c) % 8) as f32 / 4.0 - 0.75,
            4 => any_f32("x", 0.5, 2.0),
            5 => any_f32("x", 12.0, 40.0),
            11 => any_f32("x", 2.0, 4.0),
            _ => any_f32("x", -4.0, 4.0),
        }
    }).collect()).collect()
}

harnesses! {
    /// Every way to cut a short stream, for every kind of node with events on the way.
    fn h_blocks_cuts() {
        let kind = pick("kind", 0, KINDS - 1);
        let n = bound(6, 8);
        let s = [0.0, 1.0, 2.5, 3.0][pick("event", 0, 3)];
        let mask = pick("cuts", 1, (1 << (n - 1)) - 1);
        let x = input(kind, n, &[1, 0, 2, 3, 4, 5, 6, 7]);
        let v = if kind == 3 || kind == 4 || kind == 14 { 0.75 } else { any_f32("v", 0.25, 1.0) };
        alike(kind, SR, 16, v, s, &x, &[n], &cut(n, mask));
        reach("end");
    }

    /// Calls longer than the largest block.
    fn h_blocks_long_calls() {
        let kind = pick("kind", 0, KINDS - 1);
        let max = pick("max", 1, 4);
        let s = [1.5, 4.0][pick("event", 0, 1)];
        let x = input(kind, 9, &[1, 0, 2, 3, 4, 5, 6, 7, 8]);
        let v = 0.75;
        let one = [vec![9], vec![1, 8], vec![5, 4]][pick("one", 0, 2)].clone();
        alike(kind, SR, max, v, s, &x, &one, &[1; 9]);
        reach("end");
    }

    /// Longer blocks, at rates where sample times are rounded and events come between samples.
    fn h_blocks_longer() {
        let kind = pick("kind", 0, KINDS - 1);
        let sr = [44_100, 48_000][pick("rate", 0, 1)];
        let max = [16, 64][pick("max", 0, 1)];
        let s = [3.5, 18.25][pick("event", 0, 1)];
        let n = 40;
        let x = input(kind, n, &[16, 2, 39]);
        let other: Vec<usize> = [vec![17, 23], vec![1, 16, 16, 7], vec![33, 7], vec![15, 2, 2, 21], vec![4; 10]][pick("other", 0, bound(3, 4))].clone();
        alike(kind, sr, max, 0.75, s, &x, &[n], &other);
        reach("end");
    }
}
