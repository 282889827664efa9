//! C20 compressor.
use crate::rig::*;

#[derive(Clone, Copy)]
struct Settings { ratio: f32, threshold: f32, knee: f32, wet: f32, dry: f32, attack: f32, release: f32 }
fn compressor(r: &Rig, channels: usize, s: &Settings) -> Compressor {
    let mut c = Compressor::new(r.ctx.as_ref(), channels);
    c.ratio().set_value_now(s.ratio as f64); c.threshold().set_value_now(s.threshold as f64); c.knee().set_value_now(s.knee as f64);
    c.wet().set_value_now(s.wet as f64); c.dry().set_value_now(s.dry as f64); c.attack().set_value_now(s.attack as f64); c.release().set_value_now(s.release as f64);
    c.node.connect_to_input(); c.node.connect_to_output();
    c
}
fn plain() -> Settings { Settings { ratio: 4.0, threshold: -12.0, knee: 0.0, wet: 1.0, dry: 0.0, attack: 0.0, release: 0.0 } }
/// The static curve: the gain in decibels at a level.
fn curve(level: f64, s: &Settings) -> f64 {
    let (t, h, r) = (s.threshold as f64, s.knee as f64 / 2.0, s.ratio as f64);
    if level <= t - h { 0.0 } else if level >= t + h { t + (level - t) / r - level } else { let e = level - t + h; (1.0 / r - 1.0) * e * e / (2.0 * s.knee as f64) }
}
fn gain(level: f64, s: &Settings) -> f64 { 10f64.powf(curve(level, s) / 20.0) }

harnesses! {
    /// Any level, with immediate attack and release: the output lies on the static curve.
    fn h_comp_curve() {
        let s = Settings { ratio: [1.5, 8.0, 1e30][pick("ratio", 0, 2)], threshold: [-24.0, -6.0, 0.0][pick("threshold", 0, 2)], knee: [0.0, 6.0, 24.0][pick("knee", 0, 2)], ..plain() };
        let mut r = Rig::new(48_000, 1, 2);
        let _c = compressor(&r, 1, &s);
        r.ctx.start();
        let x = any_f32("level", 0.01, 4.0);
        let sign = pick("sign", 0, 1);
        let y = r.block(&[vec![if sign == 1 { -x } else { x }]], 1, 1)[0][0];
        let y = if sign == 1 { -y } else { y };
        observe(y);
        check(y == y, "never NaN");
        check((y >= 0.0) & (y <= x * 1.001), "never boosts, never changes the sign");
        let db = 20.0 * (x as f64).log10();
        let e = (x as f64 * gain(db, &s)) as f32;
        check(close(y, e, 2e-3 * x), "on the static curve");
        check(!(db <= (s.threshold - s.knee / 2.0) as f64 - 0.05) | close(y, x, 4e-5), "unchanged below the knee");
        reach("end");
    }

    /// Levels at the very corners of the curve.
    fn h_comp_corners() {
        let s = Settings { ratio: [1.0, 3.0, 1e30][pick("ratio", 0, 2)], threshold: [0.0, -20.0, -40.0, 20.0, -128.0][pick("threshold", 0, 4)], knee: [0.0, 12.0][pick("knee", 0, 1)], ..plain() };
        let x = [1.0f32, 0.1, 0.01, 10.0, 0.0, -1.0, 1e-7, 2.0][pick("level", 0, 7)];
        let mut r = Rig::new(48_000, 1, 2);
        let _c = compressor(&r, 1, &s);
        r.ctx.start();
        let y = r.block(&[vec![x]], 1, 1)[0][0];
        observe(y);
        let (a, m) = (if y < 0.0 { -y } else { y }, if x < 0.0 { -x } else { x });
        check(a <= m * 1.000001, "never boosts, never NaN");
        if m > 1e-6 { check(close(a, (m as f64 * gain(20.0 * (m as f64).log10(), &s)) as f32, 1e-4 * m), "on the static curve"); }
        reach("end");
    }

    /// The gain follows the envelope, averaged over the channels, and is the same for all channels.
    fn h_comp_follow() {
        let s = Settings { knee: [0.0, 10.0][pick("knee", 0, 1)], attack: [0.0, 0.1][pick("attack", 0, 1)], release: [0.0, 0.2][pick("release", 0, 1)], wet: 0.75, dry: 0.25, ..plain() };
        let mut r = Rig::new(48_000, 2, 4);
        let _c = compressor(&r, 2, &s);
        r.ctx.start();
        let first = [0.0, 0.9, -0.3][pick("first", 0, 2)];
        let v = any_f32("x", 0.01, 4.0);
        let n = 3; let at = pick("at", 1, 2);
        let mut x = [vec![first; n], vec![-0.5; n]];
        x[0][at] = v;
        let cut = pick("cut", 1, 2);
        let y = r.run(&x, 2, &[cut, n - cut]);
        let c = |ms: f32| if ms == 0.0 { 0.0 } else { (-1.0 / (48_000.0 * (ms as f64 / 1000.0))).exp() as f32 };
        let (up, down) = (c(s.attack), c(s.release));
        let mut level = [0.0f32; 2];
        for f in 0..=at {
            let mut e = 0.0f64;
            for c in 0..2 { let m = x[c][f].abs(); let k = if level[c] < m { up } else { down }; level[c] = level[c] * k + m * (1.0 - k); e += level[c] as f64 / 2.0; }
            let g = (gain(20.0 * e.log10(), &s) * 0.75 + 0.25) as f32;
            for c in 0..2 { observe(y[c][f]); check(close(y[c][f], x[c][f] * g, 3e-3 * x[c][f].abs()), "every channel gets the gain of the averaged envelope"); }
        }
        reach("end");
    }

    /// Any setting changes on the way: it is in force from its sample on, and on the channels' envelopes too.
    fn h_comp_automation() {
        let from = Settings { knee: 6.0, attack: 0.2, release: 0.1, wet: 0.75, dry: 0.25, ..plain() };
        let mut r = Rig::new(48_000, 2, 4);
        let mut c = compressor(&r, 2, &from);
        let which = pick("setting", 0, 6); let at = pick("change", 1, 3);
        let t = Timestamp::from_seconds((at as f64 - 0.5) / 48_000.0);
        let mut to = from;
        match which {
            0 => { to.ratio = 1.5; c.ratio().set_value_at_time(1.5, t); }
            1 => { to.threshold = -20.0; c.threshold().set_value_at_time(-20.0, t); }
            2 => { to.knee = 18.0; c.knee().set_value_at_time(18.0, t); }
            3 => { to.wet = 0.5; c.wet().set_value_at_time(0.5, t); }
            4 => { to.dry = 0.5; c.dry().set_value_at_time(0.5, t); }
            5 => { to.attack = 0.02; c.attack().set_value_at_time(0.02, t); }
            _ => { to.release = 0.02; c.release().set_value_at_time(0.02, t); }
        }
        r.ctx.start();
        let place = if pick("last", 0, 1) == 1 { 3 } else { at };
        let mut x = [vec![0.9, -0.2, 1.0, 0.1], vec![-0.5, 0.5, 0.4, -0.8]];
        x[0][place] = any_f32("x", if which == 6 { 0.01 } else { 0.5 }, if which == 6 { 0.3 } else { 2.0 });
        let y = r.run(&x, 2, if pick("cut", 0, 1) == 0 { &[4][..] } else { &[2, 2][..] });
        let k = |ms: f32| if ms == 0.0 { 0.0 } else { (-1.0 / (48_000.0 * (ms as f64 / 1000.0))).exp() as f32 };
        let mut level = [0.0f32; 2];
        for f in 0..=place {
            let s = if f < at { &from } else { &to };
            let mut e = 0.0f64;
            for c in 0..2 { let m = x[c][f].abs(); let k = if level[c] < m { k(s.attack) } else { k(s.release) }; level[c] = level[c] * k + m * (1.0 - k); e += level[c] as f64 / 2.0; }
            let g = (gain(20.0 * e.log10(), s) * s.wet as f64 + s.dry as f64) as f32;
            for c in 0..2 { observe(y[c][f]); check(close(y[c][f], x[c][f] * g, 3e-3 * x[c][f].abs()), "a setting is in force from its sample on"); }
        }
        reach("end");
    }

    /// A signal that stays below the knee passes unchanged; wet and dry are mixed as asked.
    fn h_comp_mix() {
        let s = Settings { wet: any_f32("wet", 0.5, 2.0), dry: any_f32("dry", 0.5, 2.0), attack: [0.0, 1.0][pick("attack", 0, 1)], release: 10.0, knee: [0.0, 6.0][pick("knee", 0, 1)], ..plain() };
        let ch = pick("channels", 1, 3);
        let mut r = Rig::new(48_000, 3, 4);
        let _c = compressor(&r, ch, &s);
        r.ctx.start();
        let n = 5;
        let x = sym_signal("x", ch, n, 0.15);
        let cut = pick("cut", 1, 4);
        let y = r.run(&x, ch, &[cut, n - cut]);
        for c in 0..ch { for f in 0..n { check(close(y[c][f], x[c][f] * s.wet + x[c][f] * s.dry, 1e-5), "below the knee nothing changes but the mix"); observe(y[c][f]); } }
        reach("end");
    }

    /// Silence stays silence, for any settings.
    fn h_comp_silence() {
        let s = Settings { ratio: [1.0, 4.0, 1e30][pick("ratio", 0, 2)], threshold: any_f32("threshold", -128.0, 24.0), knee: [0.0, 1e-30, 24.0][pick("knee", 0, 2)], attack: 1.0, release: 10.0, ..plain() };
        let mut r = Rig::new(48_000, 1, 4);
        let _c = compressor(&r, 1, &s);
        r.ctx.start();
        let y = r.silent_run(1, &[1, 2]);
        for f in 0..3 { check(y[0][f] == 0.0, "silence stays silence"); }
        reach("end");
    }
}
