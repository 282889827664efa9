//! C26 handles that outlive each other, and notifiers.
use crate::rig::*;
use std::cell::RefCell;
use std::rc::Rc;

/// A node of some kind beside the one that is heard.
enum Other { None, Gain(Gain), Pan(Pan), Mixer(Mixer), Sampler(Sampler), Adsr(Adsr), Osc(Oscillator), Biquad(Biquad), Comp(Compressor), Shape(Waveshaper), Conv(Convolution), Meter(Rc<RefCell<Envelope>>), Rec(Rc<RefCell<Recorder>>) }
const OTHERS: usize = 12;
fn other(kind: usize, ctx: &mut dyn Context) -> Other {
    let ms = std::time::Duration::from_millis(1);
    match kind {
        0 => Other::Gain(Gain::new(ctx, 2)), 1 => Other::Pan(Pan::new(ctx, 2)), 2 => Other::Mixer(Mixer::new(ctx, 2, 2)),
        3 => { let mut s = OwnedAudioBuffer::new(4, 2, 1000); s.fill_with_value(0.5); Other::Sampler(Sampler::new(ctx, s)) }
        4 => Other::Adsr(Adsr::new(ctx, 2, 1000)), 5 => Other::Osc(Oscillator::new(ctx, 100.0, 2, vec![0.0, 1.0, -1.0])),
        6 => Other::Biquad(Biquad::new(ctx, 2, BiquadFilterType::LowPass)), 7 => Other::Comp(Compressor::new(ctx, 2)),
        8 => Other::Shape(Waveshaper::hard_clip(ctx, 2, Level::unity())),
        9 => { let mut i = OwnedAudioBuffer::new(2, 2, 1000); i.fill_with_value(0.5); Other::Conv(Convolution::new(ctx, 2, i)) }
        10 => Other::Meter(Envelope::new(ctx, 2, ms, ms, 500.0)),
        _ => Other::Rec(Recorder::new(ctx, 2, 1000)),
    }
}
impl Other {
    fn with_node<X>(&self, f: impl Fn(&GraphNode) -> X) -> Option<X> {
        Some(match self { Other::None => return None, Other::Gain(n) => f(&n.node), Other::Pan(n) => f(&n.node), Other::Mixer(n) => f(&n.node), Other::Sampler(n) => f(&n.node), Other::Adsr(n) => f(&n.node), Other::Osc(n) => f(&n.node), Other::Biquad(n) => f(&n.node), Other::Comp(n) => f(&n.node), Other::Shape(n) => f(&n.node), Other::Conv(n) => f(&n.node), Other::Meter(n) => f(&n.borrow().node), Other::Rec(n) => f(&n.borrow().node) })
    }
    /// Something only this kind of node can be asked for.
    fn ask(&mut self) {
        let t = Timestamp::from_samples(2.5, 1000);
        match self {
            Other::None => {}
            Other::Gain(n) => { n.gain().set_value_at_time(0.5, t); n.gain().cancel_scheduled_changes(); }
            Other::Pan(n) => n.pan().linear_ramp_to_value(0.5, Timestamp::zero(), t),
            Other::Mixer(n) => n.set_level(0, 1, Level::unity()),
            Other::Sampler(n) => { n.start_now(); n.enable_loop(Timestamp::zero(), t); n.stop_at_time(t); }
            Other::Adsr(n) => { n.set_attack_time(std::time::Duration::from_millis(1)); n.note_on_at_time(Timestamp::zero()); n.note_off_at_time(t); }
            Other::Osc(n) => n.frequency().set_value_now(50.0),
            Other::Biquad(n) => n.frequency().exponential_ramp_to_value(50.0, Timestamp::zero(), t),
            Other::Comp(n) => n.attack().set_value_now(1.0),
            Other::Shape(n) => n.mix().set_value_at_time(0.5, t),
            Other::Conv(n) => n.dry().set_value_now(0.5),
            Other::Meter(n) => { n.borrow_mut().take_notifications(); }
            Other::Rec(n) => { let mut n = n.borrow_mut(); n.record_now(); n.stop_record_at_time(t); let _ = n.take_recording(); let _ = n.is_recording(); }
        }
    }
}

harnesses! {
    /// Every order of dropping the context, the audio process and nodes, and of using what is left.
    fn h_life_orders() {
        let kind = pick("kind", 0, OTHERS - 1);
        let (mut ctx, proc) = create_engine_with_options(EngineOptions::default().with_sample_rate(1000).with_maximum_channel_count(2).with_maximum_frame_count(2));
        let mut proc = Some(proc);
        let mut heard = Some(Gain::new(ctx.as_ref(), 2));
        let mut o = other(kind, ctx.as_mut());
        let curved = kind == 7 || kind == 8;
        let g = if curved { 0.75 } else { any_f32("gain", 0.5, 2.0) };
        heard.as_mut().unwrap().gain().set_value_now(g as f64);
        heard.as_ref().unwrap().node.connect_to_input(); heard.as_ref().unwrap().node.connect_to_output();
        let to = pick("joined", 0, 1) == 1;
        if to { let h = heard.as_ref().unwrap(); o.with_node(|n| h.node.connect_to(n)); }
        ctx.start();
        let mut ctx = Some(ctx);
        let process = |proc: &mut Option<Box<dyn AudioProcess + Send>>, alive: bool| {
            let Some(p) = proc.as_mut() else { return };
            // compressor and waveshaper: the curves of any sample are other checks' business
            let x = if curved { vec![vec![0.5, -0.25, 1.0], vec![-1.5, 0.125, 0.75]] } else { sym_signal("x", 2, 3, 4.0) };
            let mut i = OwnedAudioBuffer::new(3, 2, 1000); let mut y = OwnedAudioBuffer::new(3, 2, 1000);
            for c in 0..2 { for f in 0..3 { i.set_sample(SampleLocation::new(c, f), x[c][f]); y.set_sample(SampleLocation::new(c, f), 9.0); } }
            p.process(&i, &mut y);
            for c in 0..2 { for f in 0..3 { let y = y.get_sample(SampleLocation::new(c, f)); observe(y); check(close(y, if alive { x[c][f] * g } else { 0.0 }, 1e-5), "what is left goes on, and nothing else is heard"); } }
        };
        for _ in 0..bound(4, 5) {
            match pick("step", 0, 6) {
                0 => { assume(ctx.is_some()); ctx = None; reach("context gone"); }
                1 => { assume(proc.is_some()); proc = None; reach("process gone"); }
                2 => { assume(!matches!(o, Other::None)); o = Other::None; reach("node gone"); }
                3 => { assume(heard.is_some()); heard = None; }
                4 => { assume(!matches!(o, Other::None)); o.ask(); if let Some(h) = heard.as_ref() { o.with_node(|n| { h.node.disconnect_from_node(n); h.node.connect_to(n) }); } }
                5 => { assume(ctx.is_some()); let c = ctx.as_mut().unwrap(); c.process_notifications(); c.start(); let n = Gain::new(c.as_ref(), 2); n.node.connect_to_input(); drop(n); if let Some(h) = heard.as_ref() { h.node.connect_to_input(); } }
                _ => { assume(proc.is_some()); process(&mut proc, heard.is_some()); }
            }
        }
        process(&mut proc, heard.is_some());
        reach("end");
    }

    /// Reports reach every node that is still there, whatever other nodes have come and gone.
    fn h_life_notifiers() {
        let mut r = Rig::new(1000, 1, 4);
        r.ctx.start();
        let mut meters: Vec<(Rc<RefCell<Envelope>>, usize, f32)> = vec![];
        let mut recs: Vec<Rc<RefCell<Recorder>>> = vec![];
        let source = Gain::new(r.ctx.as_ref(), 1); source.node.connect_to_input();
        for _ in 0..bound(4, 6) {
            match pick("step", 0, 4) {
                0 => { assume(meters.len() < 3); let m = Envelope::new(r.ctx.as_mut(), 1, std::time::Duration::ZERO, std::time::Duration::ZERO, 1000.0); source.node.connect_to(&m.borrow().node); meters.push((m, 0, 0.0)); }
                1 => { assume(!meters.is_empty()); meters.remove(0); reach("gone"); }
                2 => { assume(recs.is_empty()); let n = Recorder::new(r.ctx.as_mut(), 1, 1000); source.node.connect_to(&n.borrow().node); n.borrow_mut().record_now(); recs.push(n); }
                3 => { assume(!recs.is_empty()); recs.clear(); reach("gone"); }
                _ => { let x = any_f32("x", 0.0, 4.0); r.block(&[vec![x]], 1, 1); for m in meters.iter_mut() { m.1 += 1; m.2 = x; } r.ctx.process_notifications(); }
            }
            for m in meters.iter() {
                let n = m.0.borrow_mut().take_notifications();
                check(n.len() <= 1, "a report is handed back once");
                for k in n { check(close(k.peak_level(), m.2, 1e-6), "every node gets its own reports"); reach("report"); }
            }
            for n in recs.iter() { let rec = n.borrow().is_recording(); observe64(rec as u64); }
        }
        reach("end");
    }
}
