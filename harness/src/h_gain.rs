//! C12 gain and mixer, C13 pan.
use crate::rig::*;
const SR: usize = 32_768;
fn at(samples: f64) -> Timestamp { Timestamp::from_samples(samples, SR) }

harnesses! {
    /// One gain, any value, any input.
    fn h_gain_basic() {
        let mut r = Rig::new(48_000, 3, 8);
        let ch = pick("channels", 1, 3);
        let mut gain = Gain::new(r.ctx.as_ref(), ch);
        let g = any_f32("gain", -4.0, 4.0);
        gain.gain().set_value_now(g as f64);
        connect_nodes!("input" => gain => "output");
        r.ctx.start();
        let x = sym_signal("x", ch, 3, 8.0);
        let y = r.run(&x, ch, &[3]);
        for c in 0..ch { for f in 0..3 { check(close(y[c][f], x[c][f] * g, 1e-5), "output is input times gain"); observe(y[c][f]); } }
        reach("end");
    }

    /// The gain changes from sample to sample, also through zero and one.
    fn h_gain_steps() {
        let ch = pick("channels", 1, 2);
        let mut r = Rig::new(SR, ch, 4);
        let mut gain = Gain::new(r.ctx.as_ref(), ch);
        let vals: Vec<f64> = vec![0.0, 1.0, any_f32("gain", 2.0, 4.0) as f64];
        let seq: Vec<f64> = (0..4).map(|_| vals[pick("step", 0, 2)]).collect();
        for f in 0..4 { gain.gain().set_value_at_time(seq[f], at(f as f64)); }
        connect_nodes!("input" => gain => "output");
        r.ctx.start();
        let x = sym_signal("x", ch, 4, 8.0);
        let cut = pick("cut", 1, 4);
        let y = if cut == 4 { r.run(&x, ch, &[4]) } else { r.run(&x, ch, &[cut, 4 - cut]) };
        for c in 0..ch { for f in 0..4 { check(close(y[c][f], x[c][f] * seq[f] as f32, 1e-5), "output is input times the gain at that sample"); observe(y[c][f]); } }
        reach("end");
    }

    /// Blocks long enough for the vectorised loops, at any alignment of the pieces.
    fn h_gain_long() {
        let n = [16, 17, 33, 40][pick("frames", 0, 3)];
        let mut r = Rig::new(SR, 2, 64);
        let mut gain = Gain::new(r.ctx.as_ref(), 2);
        let g = any_f32("gain", 2.0, 4.0); let h = any_f32("later", -4.0, -2.0);
        gain.gain().set_value_now(g as f64);
        gain.gain().set_value_at_time(h as f64, at(7.0));
        connect_nodes!("input" => gain => "output");
        r.ctx.start();
        let x = sym_signal("x", 2, n, 8.0);
        let y = r.run(&x, 2, &[n]);
        for c in 0..2 { for f in 0..n { check(close(y[c][f], x[c][f] * if f < 7 { g } else { h }, 1e-5), "output is input times the gain at that sample"); observe(y[c][f]); } }
        reach("end");
    }

    /// Any matrix size, one level symbolic, the rest fixed; a level set again later is in force from the next call on.
    fn h_mixer() {
        let (ni, no) = (pick("inputs", 1, bound(3, 4)), pick("outputs", 1, bound(3, 4)));
        let mut r = Rig::new(48_000, ni.max(no), 4);
        let mut m = Mixer::new(r.ctx.as_ref(), ni, no);
        let which = pick("cell", 0, 15); assume(which < ni * no);
        let l = any_f32("level", -4.0, 4.0);
        let mut lv = vec![vec![0.0f32; no]; ni];
        let fixed = [0.5, 0.0, 1.0, -0.25, 2.0];
        for i in 0..ni { for o in 0..no {
            let v = if i * no + o == which { l } else { fixed[(i * 2 + o) % 5] };
            lv[i][o] = v; m.set_level(i, o, Level::from_linear(v as f64));
        } }
        m.node.connect_to_input(); m.node.connect_to_output();
        r.ctx.start();
        for k in 0..2 {
            let x = sym_signal("x", ni, 2, 8.0);
            let y = r.run(&x, no, &[2]);
            for o in 0..no { for f in 0..2 {
                let mut e = 0.0f32;
                for i in 0..ni { e += x[i][f] * lv[i][o]; }
                check(close(y[o][f], e, 1e-4), "output channel is the sum of input channels times their levels");
                observe(y[o][f]);
            } }
            if k == 0 {
                // twice: the last one counts
                let (i, o) = (which / no, which % no);
                m.set_level(i, o, Level::from_linear(3.0)); m.set_level(i, o, Level::from_linear(-1.5));
                lv[i][o] = -1.5;
            }
        }
        reach("end");
    }

    /// Long blocks.
    fn h_mixer_long() {
        let n = [16, 17, 33, 40][pick("frames", 0, 3)];
        let mut r = Rig::new(48_000, 2, 64);
        let mut m = Mixer::new(r.ctx.as_ref(), 2, 2);
        let l = any_f32("level", 2.0, 4.0);
        m.set_level(0, 0, Level::from_linear(l as f64)); m.set_level(1, 0, Level::unity()); m.set_level(1, 1, Level::from_linear(-0.5));
        m.node.connect_to_input(); m.node.connect_to_output();
        r.ctx.start();
        let x = sym_signal("x", 2, n, 8.0);
        let y = r.run(&x, 2, &[n]);
        for f in 0..n {
            check(close(y[0][f], x[0][f] * l + x[1][f], 1e-4) & close(y[1][f], x[1][f] * -0.5, 1e-4), "output channel is the sum of input channels times their levels");
            observe(y[0][f]);
        }
        reach("end");
    }

    /// The ready-made mixers, and one without levels.
    fn h_mixer_ready_made() {
        let kind = pick("kind", 0, 2);
        let n = pick("channels", 1, 8);
        let mut r = Rig::new(48_000, 8, 4);
        let (ni, no, m) = match kind { 0 => (1, 2, Mixer::mono_to_stereo_splitter(r.ctx.as_ref())), 1 => (n, n, Mixer::unity(r.ctx.as_ref(), n)), _ => (n, 9 - n, Mixer::new(r.ctx.as_ref(), n, 9 - n)) };
        m.node.connect_to_input(); m.node.connect_to_output();
        r.ctx.start();
        let x = sym_signal("x", ni, 3, 100.0);
        let y = r.run(&x, no, &[3]);
        for o in 0..no { for f in 0..3 {
            let e = match kind { 0 => x[0][f], 1 => x[o][f], _ => 0.0 };
            check(y[o][f] == e, "splitting, passing through, or silence"); observe(y[o][f]);
        } }
        reach("end");
    }

    /// Every level of the largest matrix is set before the first call.
    fn h_mixer_all_levels() {
        let mut r = Rig::new(48_000, 8, 4);
        let mut m = Mixer::new(r.ctx.as_ref(), 8, 8);
        let l = any_f32("level", 2.0, 4.0);
        let last = pick("last", 0, 7);
        for i in 0..8 { for o in 0..8 { m.set_level((i + last + 1) % 8, o, Level::from_linear(if i == 7 { l as f64 } else { 0.5 + (i * 8 + o) as f64 })); } }
        m.node.connect_to_input(); m.node.connect_to_output();
        r.ctx.start();
        let x = any_f32("x", -8.0, 8.0);
        let mut input = vec![vec![0.0; 1]; 8]; input[last][0] = x;
        let y = r.run(&input, 8, &[1]);
        for o in 0..8 { check(close(y[o][0], x * l, 1e-4), "the levels set last are in force"); observe(y[o][0]); }
        reach("end");
    }

    /// Every pan position.
    fn h_pan() {
        let mut r = Rig::new(SR, 2, 4);
        let mut pan = Pan::new(r.ctx.as_ref(), 2);
        let p = any_f32("pan", -2.0, 2.0);
        pan.pan().set_value_now(p as f64);
        pan.node.connect_to_input(); pan.node.connect_to_output();
        r.ctx.start();
        let x = sym_signal("x", 2, 2, 8.0);
        let y = r.run(&x, 2, &[2]);
        let q = if p > 1.0 { 1.0 } else if p < -1.0 { -1.0 } else { p };
        let l = if q < 0.0 { 1.0 } else { 1.0 - q }; let g = if q > 0.0 { 1.0 } else { 1.0 + q };
        for f in 0..2 { check(close(y[0][f], x[0][f] * l, 1e-5) & close(y[1][f], x[1][f] * g, 1e-5), "the channels are scaled by the gains of the position"); observe(y[0][f]); observe(y[1][f]); }
        reach("end");
    }

    /// Two positions: mirror images and order.
    fn h_pan_order() {
        let mut r = Rig::new(SR, 2, 4);
        let mut pan = Pan::new(r.ctx.as_ref(), 2);
        let (p, q) = (any_f32("pan", -1.0, 1.0), any_f32("pan", -1.0, 1.0));
        assume(p <= q);
        for (k, v) in [p, q, -p, 1.0, -1.0, 0.0].iter().enumerate() { pan.pan().set_value_at_time(*v as f64, at(k as f64)); }
        pan.node.connect_to_input(); pan.node.connect_to_output();
        r.ctx.start();
        let y = r.run(&[vec![1.0; 6], vec![1.0; 6]], 2, &[2, 4]);
        for f in 0..6 { check((y[0][f] >= 0.0) & (y[0][f] <= 1.0) & (y[1][f] >= 0.0) & (y[1][f] <= 1.0), "gains between nought and one"); observe(y[0][f]); }
        check((y[0][0] >= y[0][1]) & (y[1][0] <= y[1][1]), "gains move with the position");
        check(close(y[0][0], y[1][2], 1e-6) & close(y[1][0], y[0][2], 1e-6), "mirror images");
        check((y[0][3] == 0.0) & (y[1][3] == 1.0), "hard right leaves the right side");
        check((y[0][4] == 1.0) & (y[1][4] == 0.0), "hard left leaves the left side");
        check((y[0][5] == 1.0) & (y[1][5] == 1.0), "centre leaves both sides");
        reach("end");
    }
}
