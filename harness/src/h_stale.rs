//! C06 stale audio.
use crate::rig::*;
use std::cell::RefCell;
use std::rc::Rc;

fn gain(r: &Rig, channels: usize, g: f32) -> Gain { let mut n = Gain::new(r.ctx.as_ref(), channels); n.gain().set_value_now(g as f64); n }

/// A node of each kind, silent as long as its input is.
enum Kind { G(Gain), M(Mixer), B(Biquad), C(Compressor), W(Waveshaper), A(Adsr), P(Pan), V(Convolution), S(Sampler), O(Oscillator), E(Rc<RefCell<Envelope>>), R(Rc<RefCell<Recorder>>) }
impl Kind {
    fn node(&self, f: &mut dyn FnMut(&GraphNode)) {
        match self { Kind::G(n) => f(&n.node), Kind::M(n) => f(&n.node), Kind::B(n) => f(&n.node), Kind::C(n) => f(&n.node), Kind::W(n) => f(&n.node), Kind::A(n) => f(&n.node), Kind::P(n) => f(&n.node),
            Kind::V(n) => f(&n.node), Kind::S(n) => f(&n.node), Kind::O(n) => f(&n.node), Kind::E(n) => f(&n.borrow().node), Kind::R(n) => f(&n.borrow().node) }
    }
}
fn make(r: &mut Rig, kind: usize) -> Kind {
    let ch = 2;
    let sr = r.sr;
    match kind {
        0 => Kind::G(gain(r, ch, 2.0)),
        1 => Kind::M(Mixer::new(r.ctx.as_ref(), ch, ch)),
        2 => Kind::M(Mixer::unity(r.ctx.as_ref(), ch)),
        3 => Kind::M(Mixer::mono_to_stereo_splitter(r.ctx.as_ref())),
        4 => Kind::B(Biquad::new(r.ctx.as_ref(), ch, BiquadFilterType::LowPass)),
        5 => Kind::C(Compressor::new(r.ctx.as_ref(), ch)),
        6 => Kind::W(Waveshaper::hard_clip(r.ctx.as_ref(), ch, Level::from_linear(0.5))),
        7 => Kind::A(Adsr::new(r.ctx.as_ref(), ch, sr)),
        8 => Kind::P(Pan::new(r.ctx.as_ref(), ch)),
        9 => { let mut i = OwnedAudioBuffer::new(2, ch, sr); i.fill_with_value(1.0); Kind::V(Convolution::new(r.ctx.as_ref(), ch, i)) }
        10 => { let mut i = OwnedAudioBuffer::new(3, ch, sr); i.fill_with_value(5.0); Kind::S(Sampler::new(r.ctx.as_ref(), i)) }
        11 => { let mut o = Oscillator::new(r.ctx.as_ref(), 440.0, ch, vec![1.0, 0.5, -1.0]); o.gain().set_value_now(0.0); Kind::O(o) }
        12 => Kind::E(Envelope::new(r.ctx.as_mut(), ch, std::time::Duration::ZERO, std::time::Duration::ZERO, 100.0)),
        _ => Kind::R(Recorder::new(r.ctx.as_mut(), ch, sr)),
    }
}

harnesses! {
    /// A node of any kind that hears nothing puts out nothing, whatever other nodes hear and heard.
    fn h_stale_kinds() {
        let mut r = Rig::new(32_768, 2, 4);
        let kind = pick("kind", 0, 13);
        // what makes the noise: three nodes in a row, fed by the input
        let a = gain(&r, 2, 1.0); let b = gain(&r, 2, -1.0); let c = gain(&r, 2, 2.0);
        a.node.connect_to(&b.node); b.node.connect_to(&c.node);
        a.node.connect_to_input();
        let early = pick("early", 0, 1) == 1;
        let mut k = if early { Some(make(&mut r, kind)) } else { None };
        r.ctx.start();
        c.node.connect_to_output();
        let loud = |n: usize| sym_signal("loud", 2, n, 8.0);
        let x = loud(4);
        let _ = r.block(&x, 2, 4);
        if k.is_none() { k = Some(make(&mut r, kind)); }
        let k = k.unwrap();
        k.node(&mut |n| n.connect_to_output());
        // still loud in the rest of the graph, or cut off
        match pick("rest", 0, 2) { 0 => {} 1 => { a.node.disconnect_from_node(&b.node); } _ => { drop(b); } }
        // connected to something silent, or to nothing
        let quiet = gain(&r, 2, 1.0);
        if pick("fed", 0, 1) == 1 { k.node(&mut |n| quiet.node.connect_to(n)); }
        for n in [pick("frames", 1, 2), 3, 4] {
            let x = loud(n);
            let y = r.block(&x, 2, n);
            for ch in &y { for v in ch { check(*v == 0.0, "silent in, silent out"); } }
            observe(y[0][0]);
        }
        reach("end");
    }

    /// Nodes with fewer channels than their neighbours and the system: what has no source is silent.
    fn h_stale_channels() {
        let mut r = Rig::new(48_000, 3, 4);
        r.ctx.start();
        let wide = gain(&r, 3, 1.0); let narrow = gain(&r, 1, 2.0); let last = gain(&r, 3, 1.0);
        wide.node.connect_to(&last.node);
        wide.node.connect_to_input();
        last.node.connect_to_output();
        let loud = |ch: usize, n: usize| sym_signal("loud", ch, n, 8.0);
        let x = loud(3, 4);
        let y = r.block(&x, 3, 4);
        for c in 0..3 { for f in 0..4 { check(same(y[c][f], x[c][f]), "all channels, to begin with"); } }
        // then something changes
        let change = pick("change", 0, 5);
        // which input channel is heard in each output channel, and how loud
        let heard: [Option<(usize, f32)>; 3] = match change {
            0 => { wide.node.disconnect_from_node(&last.node); wide.node.connect_to(&narrow.node); narrow.node.connect_to(&last.node); [Some((0, 2.0)), None, None] }
            1 => { narrow.node.connect_to_output(); wide.node.connect_channels_to(&narrow.node, 2, 0, 1); [Some((2, 2.0)), None, None] }
            2 => { wide.node.disconnect_from_node(&last.node); wide.node.connect_channels_to(&last.node, 0, 1, 2); [None, Some((0, 1.0)), Some((1, 1.0))] }
            3 => { wide.node.disconnect_from_node(&last.node); [None, None, None] }
            4 => { last.node.connect_to_input(); wide.node.disconnect_from_node(&last.node); [Some((0, 1.0)), Some((1, 1.0)), Some((2, 1.0))] }
            _ => { wide.node.disconnect_from_node(&last.node); wide.node.connect_channels_to(&narrow.node, 1, 0, 1); narrow.node.connect_channels_to(&last.node, 0, 2, 1); [None, None, Some((1, 2.0))] }
        };
        for (ins, outs, n) in [(pick("inputs", 1, 4), pick("outputs", 1, 4), pick("frames", 1, 4)), (2, 3, 4)] {
            let x = loud(ins, n);
            let y = r.block(&x, outs, n);
            for c in 0..outs { for f in 0..n {
                let want = if c < 3 { match heard[c] { Some((i, g)) if i < ins => g * x[i][f], _ => 0.0 } } else { 0.0 };
                check(same(y[c][f], want), "what has no source is silent");
            } }
            observe(y[0][0]);
        }
        reach("end");
    }

    /// Stopping and starting again, long calls cut into several blocks, silence after noise.
    fn h_stale_calls() {
        let mut r = Rig::new(48_000, 2, 3);
        let n = bound(4, 5);
        let a = gain(&r, 2, 1.0); let b = gain(&r, 2, 1.0);
        a.node.connect_to(&b.node);
        a.node.connect_to_input(); b.node.connect_to_output();
        r.ctx.start();
        let mut started = true;
        for i in 0..n {
            match pick("action", 0, 2) { 0 => {} 1 => { r.ctx.stop(); started = false; } _ => { r.ctx.start(); started = true; } }
            let frames = if i == 1 { pick("long", 4, 7) } else if i == 2 { pick("frames", 1, 3) } else { 3 - i % 2 };
            let silent = i > 0 && pick("silent", 0, 1) == 1;
            let x = if silent { vec![vec![0.0; frames]; 2] } else { sym_signal("x", 2, frames, 8.0) };
            let y = r.block(&x, 2, frames);
            for c in 0..2 { for f in 0..frames { check(same(y[c][f], if started { x[c][f] } else { 0.0 }), "this call's input, and nothing else"); } }
        }
        reach("end");
    }
}
