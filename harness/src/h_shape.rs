//! C14 waveshaper.
use crate::rig::*;

fn custom(x: f32) -> f32 { 0.25 + x * x - 0.5 * x }
/// The shaping function on [-1, 1].
fn curve(kind: usize, x: f32) -> f32 {
    match kind {
        0 => 2.0 * (x / 2.0).tanh(),
        1 => if x < -0.5 { -0.5 } else if x > 0.5 { 0.5 } else { x },
        2 => if x < 0.5 { x } else { 0.5 + (x - 0.5) / (1.0 + (2.0 * (x - 0.5)) * (2.0 * (x - 0.5))) },
        3 => custom(x),
        _ => x,
    }
}
fn shaper(r: &Rig, kind: usize, channels: usize) -> Waveshaper {
    let c = r.ctx.as_ref();
    let w = match kind { 0 => Waveshaper::tanh(c, channels), 1 => Waveshaper::hard_clip(c, channels, Level::from_linear(0.5)), 2 => Waveshaper::soft_saturator(c, channels, Level::from_linear(0.5)), 3 => Waveshaper::new(c, channels, &custom), _ => Waveshaper::hard_clip(c, channels, Level::from_linear(2.0)) };
    w.node.connect_to_input(); w.node.connect_to_output();
    w
}
/// The curve at any input: its ends are held beyond [-1, 1].
fn held(kind: usize, x: f32) -> f32 { curve(kind, if x < -1.0 { -1.0 } else if x > 1.0 { 1.0 } else { x }) }
fn db(x: f64) -> f64 { 10f64.powf(x / 20.0) }
/// Reading the curve from a table may be this far off.
const ERR: f32 = 2e-3;

harnesses! {
    /// Any sample: the output lies on the curve.
    fn h_shape_any() {
        let kind = pick("kind", 0, 4);
        let mut r = Rig::new(48_000, 1, 2);
        let _w = shaper(&r, kind, 1);
        r.ctx.start();
        let part = pick("part", 0, 9);
        let x = any_f32("x", -1.25 + part as f32 * 0.25, -1.0 + part as f32 * 0.25);
        let y = r.block(&[vec![x]], 1, 1)[0][0];
        observe(y);
        check(close(y, held(kind, x), ERR), "the output lies on the curve");
        if kind == 1 { check((y <= 0.500001) & (y >= -0.500001), "stays within the threshold"); }
        reach("end");
    }

    /// Far beyond the curve: the end values.
    fn h_shape_beyond() {
        let kind = pick("kind", 0, 4);
        let mut r = Rig::new(48_000, 1, 2);
        let mut w = shaper(&r, kind, 1);
        let mix = [0.0, 0.3, 1.0][pick("mix", 0, 2)];
        w.mix().set_value_now(mix);
        let drive = [0.0, 1.0][pick("overdrive", 0, 1)];
        w.overdrive().set_value_now(drive);
        r.ctx.start();
        let side = pick("side", 0, 1);
        let x = any_f32("x", 1.0, 8e37); let x = if side == 0 { -x } else { x };
        let y = r.block(&[vec![x]], 1, 1)[0][0];
        observe(y);
        let e = held(kind, x) / db(12.0 * drive) as f32 * mix as f32 + x * (1.0 - mix as f32);
        check((y - y == 0.0) & close(y, e, ERR + 1e-5 * x.abs()), "the end of the curve, mixed with the input");
        reach("end");
    }

    /// Any overdrive and mix.
    fn h_shape_settings() {
        let kind = pick("kind", 0, 3);
        let mut r = Rig::new(48_000, 1, 2);
        let mut w = shaper(&r, kind, 1);
        let x = [0.9f32, -0.8, 0.1, -3.0][pick("x", 0, 3)];
        let which = pick("which", 0, 1);
        let (mut drive, mut mix) = (0.6, 0.7);
        if which == 0 { drive = any_f32("overdrive", 0.0, 1.0) as f64; } else { mix = any_f32("mix", 0.0, 1.0) as f64; }
        w.overdrive().set_value_now(drive); w.mix().set_value_now(mix);
        r.ctx.start();
        let y = r.block(&[vec![x]], 1, 1)[0][0];
        observe(y);
        let g = db(12.0 * drive) as f32;
        let e = held(kind, x * g) / g * mix as f32 + x * (1.0 - mix as f32);
        check(close(y, e, ERR), "the gain is applied, reversed and mixed as asked");
        reach("end");
    }

    /// Every sample on its own: neighbours, other channels and block boundaries make no difference.
    fn h_shape_alone() {
        let kind = pick("kind", 0, 3);
        let ch = pick("channels", 1, 2);
        let mut r = Rig::new(32_768, 2, 4);
        let mut w = shaper(&r, kind, ch);
        w.overdrive().set_value_at_time(0.5, Timestamp::from_samples(2.0, r.sr)); w.mix().set_value_at_time(0.75, Timestamp::from_samples(3.0, r.sr));
        r.ctx.start();
        let n = 5;
        let v = any_f32("v", -1.0, -0.95);
        let c0 = [0.3f32, -0.6, 0.9, 0.0, -0.2]; let c1 = [0.1f32, 0.7, -0.4, -2.0, 0.55];
        let at = pick("at", 0, n - 1);
        let mut x: Vec<Vec<f32>> = vec![c0.to_vec(), c1.to_vec()]; x.truncate(ch);
        let on = pick("on", 0, ch - 1);
        x[on][at] = v;
        let cut = pick("cut", 1, 4);
        let y = r.run(&x, ch, &[cut, n - cut]);
        for c in 0..ch { for f in 0..n {
            let g = if f >= 2 { db(6.0) as f32 } else { 1.0 }; let m = if f >= 3 { 0.75 } else { 1.0 };
            observe(y[c][f]);
            check(close(y[c][f], held(kind, x[c][f] * g) / g * m + x[c][f] * (1.0 - m), ERR), "each sample on its own, with the settings of its moment");
        } }
        reach("end");
    }
}
