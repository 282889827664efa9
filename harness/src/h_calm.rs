//! C25 processing leaves the heap alone.
use crate::h_blocks::{input, scene, KINDS};
use crate::rig::*;

fn buffer(x: &[Vec<f32>], from: usize, n: usize, sr: usize) -> OwnedAudioBuffer {
    let mut b = OwnedAudioBuffer::new(n, x.len(), sr);
    for c in 0..x.len() { for f in 0..n { b.set_sample(SampleLocation::new(c, f), x[c][from + f]); } }
    b
}
fn known(n: usize) -> Vec<Vec<f32>> { (0..2).map(|c| (0..n).map(|f| ((f * 5 + c * 3) % 8) as f32 / 4.0 - 1.0).collect()).collect() }
/// One call, which finds no control operation waiting.
fn calm(r: &mut Rig, i: &OwnedAudioBuffer, o: &mut OwnedAudioBuffer) {
    let before = heap_operations();
    r.proc.process(i, o);
    let after = heap_operations();
    check(before == after, "a process call without control operations allocates and frees nothing");
}
fn calm_calls(r: &mut Rig, x: &[Vec<f32>], blocks: &[usize]) {
    let mut from = 0;
    for b in blocks { let i = buffer(x, from, *b, r.sr); let mut o = OwnedAudioBuffer::new(*b, 2, r.sr); calm(r, &i, &mut o); from += b; }
}
/// The call in which everything asked for so far arrives.
fn settle(r: &mut Rig) { r.block(&known(1), 2, 1); }

harnesses! {
    /// Every kind of node, with everything that was scheduled falling due in later calls of any length.
    fn h_calm_kinds() {
        let kind = pick("kind", 0, KINDS - 1);
        let sr = 32_768;
        let s = if kind == 4 { 2.5 } else { any_u32("event", 0, 24) as f64 / 4.0 };
        let mut d = scene(kind, sr, 4, 0.75, s);
        if pick("stopped", 0, 1) == 1 { d.r.ctx.stop(); }
        settle(&mut d.r);
        let x = input(kind, 12, &[1, 2, 6]);
        calm_calls(&mut d.r, &x, &[vec![3, 4, 1], vec![9, 3], vec![1, 1, 1, 2, 4]][pick("blocks", 0, 2)]);
        reach("end");
    }

    /// Requests to nodes, made between calls: they are taken in and carried out without the heap.
    fn h_calm_requests() {
        let sr = 1_000;
        let mut r = Rig::new(sr, 2, 8);
        let at = |s: f64| Timestamp::from_samples(s, sr);
        let x = known(16);
        match pick("node", 0, 3) {
            0 => {
                let mut s = OwnedAudioBuffer::new(20, 2, sr); s.fill_with_value(0.5);
                let mut n = Sampler::new(r.ctx.as_ref(), s); n.node.connect_to_output(); r.ctx.start(); settle(&mut r);
                for k in 0..bound(2, 3) {
                    let t = (k * 8) as f64 + any_u32("time", 0, 7) as f64 + 1.0;
                    match pick("request", 0, 6) { 0 => n.start_now(), 1 => n.start_from_position_at_time(at(3.0), at(t)), 2 => n.stop_at_time(at(t)), 3 => n.enable_loop(at(2.0), at(5.0)), 4 => n.cancel_loop_at_time(at(t)), 5 => n.cancel_all(), _ => n.stop_now() }
                    calm_calls(&mut r, &x, &[8]);
                }
            }
            1 => {
                let mut n = Adsr::new(r.ctx.as_ref(), 2, sr); n.node.connect_to_input(); n.node.connect_to_output(); r.ctx.start(); settle(&mut r);
                for k in 0..bound(2, 3) {
                    let t = (k * 8) as f64 + any_u32("time", 0, 7) as f64 + 1.0;
                    match pick("request", 0, 3) { 0 => n.note_on_at_time(at(t)), 1 => n.note_off_at_time(at(t)), 2 => n.set_attack_time(std::time::Duration::from_millis(3)), _ => n.set_sustain_level(Level::from_linear(0.5)) }
                    calm_calls(&mut r, &x, &[8]);
                }
            }
            2 => {
                let n = Recorder::new(r.ctx.as_mut(), 2, sr); n.borrow().node.connect_to_input(); r.ctx.start(); settle(&mut r);
                for k in 0..bound(3, 4) {
                    let t = (k * 8) as f64 + any_u32("time", 0, 7) as f64 + 1.0;
                    match pick("request", 0, 3) { 0 => n.borrow_mut().record_now(), 1 => n.borrow_mut().stop_record_at_time(at(t)), 2 => n.borrow_mut().stop_record_now(), _ => r.ctx.process_notifications() }
                    calm_calls(&mut r, &x, &[8]);
                }
            }
            _ => {
                let mut n = Mixer::new(r.ctx.as_ref(), 2, 2); n.node.connect_to_input(); n.node.connect_to_output(); r.ctx.start(); settle(&mut r);
                for _ in 0..2 {
                    for _ in 0..[1, 40][pick("levels", 0, 1)] { n.set_level(0, 1, Level::from_linear(any_f32("level", 0.0, 2.0) as f64)); }
                    calm_calls(&mut r, &x, &[8]);
                }
            }
        }
        reach("end");
    }

    /// Many requests and changes at once, up to what is set aside for them; they fall due over several calls.
    fn h_calm_many() {
        let sr = 32_768;
        let mut r = Rig::new(sr, 2, 8);
        let at = |s: f64| Timestamp::from_samples(s, sr);
        let mut g = Gain::new(r.ctx.as_ref(), 2); let mut e = Adsr::new(r.ctx.as_ref(), 2, sr);
        let mut smp = OwnedAudioBuffer::new(20, 2, sr); smp.fill_with_value(0.5);
        let mut s = Sampler::new(r.ctx.as_ref(), smp);
        s.node.connect_to(&e.node); e.node.connect_to(&g.node); g.node.connect_to_output();
        let n = pick("changes", 12, 20); let ramps = pick("ramps", 0, 2);
        for k in 0..n {
            let t = k as f64 + 1.5;
            match if ramps == 0 { 0 } else { k % 3 } { 0 => g.gain().set_value_at_time(0.5, at(t)), 1 => g.gain().linear_ramp_to_value(0.25 + k as f64 / 16.0, at(t - 0.5), at(t)), _ => if ramps == 2 { g.gain().exponential_ramp_to_value(0.75, at(t - 0.5), at(t)) } else { g.gain().set_value_at_time(0.125, at(t)) } }
        }
        if pick("cancel", 0, 1) == 1 { g.gain().cancel_scheduled_changes_ending_after(at(9.0)); }
        r.ctx.start(); settle(&mut r);
        for k in 0..16 { let t = at(k as f64 * 1.25 + 2.0); if k % 2 == 0 { e.note_on_at_time(t); s.start_from_position_at_time(at(k as f64), t); } else { e.note_off_at_time(t); s.stop_at_time(t); } }
        calm_calls(&mut r, &known(24), &[8, 3, 12, 1]);
        reach("end");
    }

    /// A recording over several internal buffers, reports nobody collects, and a large graph, over many calls.
    fn h_calm_long() {
        let sr = 48_000;
        let mut r = Rig::new(sr, 2, 256);
        hash_seed(bound(2, 6));
        let what = pick("what", 0, 3);
        let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
        let x = known(256);
        match what {
            0 => { let n = Recorder::new(r.ctx.as_mut(), 2, sr); n.borrow().node.connect_to_input(); n.borrow_mut().record_now(); n.borrow_mut().stop_record_at_time(Timestamp::from_samples(9000.5, sr)); keep.push(Box::new(n)); }
            1 => { let n = Envelope::new(r.ctx.as_mut(), 2, std::time::Duration::ZERO, std::time::Duration::from_millis(1), 1000.0); n.borrow().node.connect_to_input(); keep.push(Box::new(n)); }
            2 => {
                let len = [300, 700, 1025][pick("impulse", 0, 2)];
                let mut i = OwnedAudioBuffer::new(len, 2, sr); i.fill_with_value(0.25);
                let n = Convolution::new(r.ctx.as_ref(), 2, i); n.node.connect_to_input(); n.node.connect_to_output(); keep.push(Box::new(n));
            }
            _ => {
                let count = bound(12, 24);
                let all: Vec<Gain> = (0..count).map(|_| Gain::new(r.ctx.as_ref(), 2)).collect();
                all[0].node.connect_to_input(); all[count - 1].node.connect_to_output();
                for k in 1..count { all[k - 1].node.connect_to(&all[k].node); if k >= 3 { all[k - 3].node.connect_channels_to(&all[k].node, 0, 1, 1); } }
                keep.push(Box::new(all));
            }
        }
        r.ctx.start(); settle(&mut r);
        let calls = if what == 0 { 40 } else if what == 1 { 70 } else if what == 2 { bound(4, 12) } else { bound(6, 20) };
        let n = if what == 3 { 2 } else { 256 };
        for _ in 0..calls { calm_calls(&mut r, &x, &[n]); }
        reach("end");
    }
}
