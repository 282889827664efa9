//! C21 biquad filters.
use crate::rig::*;

const PI: f64 = std::f64::consts::PI;
const TYPES: usize = 6;
fn kind(k: usize) -> BiquadFilterType { match k { 0 => BiquadFilterType::LowPass, 1 => BiquadFilterType::HighPass, 2 => BiquadFilterType::BandPass, 3 => BiquadFilterType::Notch, 4 => BiquadFilterType::LowShelf, _ => BiquadFilterType::HighShelf } }
/// Coefficients b0 b1 b2 a1 a2 of the well-known "audio EQ cookbook" filters; shelves of Q = 1/sqrt(2), with the gain given as a factor.
fn cookbook(k: usize, f: f64, q: f64, level: f64, sr: f64) -> [f64; 5] {
    let w = 2.0 * PI * f / sr;
    let (s, c) = (w.sin(), w.cos());
    let al = s / (2.0 * q);
    let a = level.sqrt();
    let be = (2.0 * a).sqrt() * s;
    let (b0, b1, b2, a0, a1, a2) = match k {
        0 => ((1.0 - c) / 2.0, 1.0 - c, (1.0 - c) / 2.0, 1.0 + al, -2.0 * c, 1.0 - al),
        1 => ((1.0 + c) / 2.0, -(1.0 + c), (1.0 + c) / 2.0, 1.0 + al, -2.0 * c, 1.0 - al),
        2 => (al, 0.0, -al, 1.0 + al, -2.0 * c, 1.0 - al),
        3 => (1.0, -2.0 * c, 1.0, 1.0 + al, -2.0 * c, 1.0 - al),
        4 => (a * ((a + 1.0) - (a - 1.0) * c + be), 2.0 * a * ((a - 1.0) - (a + 1.0) * c), a * ((a + 1.0) - (a - 1.0) * c - be), (a + 1.0) + (a - 1.0) * c + be, -2.0 * ((a - 1.0) + (a + 1.0) * c), (a + 1.0) + (a - 1.0) * c - be),
        _ => (a * ((a + 1.0) + (a - 1.0) * c + be), -2.0 * a * ((a - 1.0) + (a + 1.0) * c), a * ((a + 1.0) + (a - 1.0) * c - be), (a + 1.0) - (a - 1.0) * c + be, 2.0 * ((a - 1.0) - (a + 1.0) * c), (a + 1.0) - (a - 1.0) * c - be),
    };
    [b0 / a0, b1 / a0, b2 / a0, a1 / a0, a2 / a0]
}
#[derive(Default, Clone, Copy)]
struct State { x1: f64, x2: f64, y1: f64, y2: f64 }
impl State { fn next(&mut self, c: &[f64; 5], x: f64) -> f64 { let y = c[0] * x + c[1] * self.x1 + c[2] * self.x2 - c[3] * self.y1 - c[4] * self.y2; self.x2 = self.x1; self.x1 = x; self.y2 = self.y1; self.y1 = y; y } }
fn filter(r: &Rig, k: usize, channels: usize) -> Biquad { let f = Biquad::new(r.ctx.as_ref(), channels, kind(k)); f.node.connect_to_input(); f.node.connect_to_output(); f }

harnesses! {
    /// Any signal through the filters with given settings.
    fn h_biquad_signal() {
        let k = pick("type", 0, TYPES - 1);
        let ch = pick("channels", 1, 2);
        let (f, q, sh, gain, sr) = [(1_000.0, 1.0 / 2f64.sqrt(), 1.0, 1.0, 48_000), (5_000.0, 2.5, 4.0, 0.5, 44_100), (200.0, 0.2, 0.3, 2.0, 22_050)][pick("settings", 0, 2)];
        let mut r = Rig::new(sr, 2, 4);
        let mut b = filter(&r, k, ch);
        b.frequency().set_value_now(f); b.q().set_value_now(q); b.shelf_gain().set_value_now(sh); b.gain().set_value_now(gain);
        r.ctx.start();
        let n = bound(4, 6);
        let x = sym_signal("x", ch, n, 4.0);
        let cut = pick("cut", 1, 2);
        let y = r.run(&x, ch, &[cut, 1, n - cut - 1]);
        let c = cookbook(k, f, q, sh, sr as f64);
        for m in 0..ch { let mut s = State::default(); for i in 0..n { observe(y[m][i]); check(close(y[m][i], (s.next(&c, x[m][i] as f64) * gain) as f32, 1e-4), "the second-order recursion of its own channel"); } }
        reach("end");
    }

    /// Any frequency, Q or shelf gain: the impulse response is that of the filter asked for.
    fn h_biquad_settings() {
        let k = pick("type", 0, TYPES - 1);
        let (mut f, mut q, mut sh) = (1_000.0, 1.5, 2.0);
        match pick("which", 0, 1) { 0 => f = any_f32("frequency", 20.0, 20_000.0) as f64, _ => if k < 4 { q = any_f32("q", 0.1, 10.0) as f64 } else { sh = any_f32("shelf", 0.01, 1_000.0) as f64 } }
        let sr = 48_000;
        let mut r = Rig::new(sr, 1, 4);
        let mut b = filter(&r, k, 1);
        b.frequency().set_value_now(f); b.q().set_value_now(q); b.shelf_gain().set_value_now(sh);
        r.ctx.start();
        let n = 4;
        let y = r.run(&[vec![1.0, 0.0, 0.0, 0.0]], 1, &[1, 3]);
        let c = cookbook(k, f, q, sh, sr as f64);
        let mut s = State::default();
        let scale = if sh > 1.0 { sh as f32 } else { 1.0 };
        for i in 0..n { observe(y[0][i]); check(close(y[0][i], s.next(&c, if i == 0 { 1.0 } else { 0.0 }) as f32, 1e-3 * scale), "the impulse response of the filter asked for"); }
        reach("end");
    }

    /// Below half the sample rate the filters are stable, whatever the settings.
    fn h_biquad_stable() {
        let k = pick("type", 0, TYPES - 1);
        let f = any_f64("frequency", 20.0, 20_000.0);
        let (q, sh) = ([0.1, 0.7, 10.0][pick("q", 0, 2)], [0.01, 1.0, 100.0][pick("shelf", 0, 2)]);
        let c = cookbook(k, f, q, sh, 48_000.0);
        check((c[4] < 1.0) & (c[4] > -1.0), "the poles lie inside the unit circle");
        check((c[3] < 1.0 + c[4]) & (-c[3] < 1.0 + c[4]), "the poles lie inside the unit circle (real ones)");
        reach("end");
    }

    /// Frequency, Q, shelf gain and gain change while the filter runs: new coefficients from that sample on, same history.
    fn h_biquad_automation() {
        let k = pick("type", 0, TYPES - 1);
        let sr = 32_768;
        let mut r = Rig::new(sr, 1, 4);
        let mut b = filter(&r, k, 1);
        let at = pick("at", 0, 4);
        let time = Timestamp::from_samples(at as f64, sr);
        let which = pick("which", 0, 3);
        let mut p = [1_000.0, 1.0 / 2f64.sqrt(), 1.0, 1.0];
        let v = [4_000.0, 5.0, 8.0, 0.25][which];
        match which { 0 => b.frequency(), 1 => b.q(), 2 => b.shelf_gain(), _ => b.gain() }.set_value_at_time(v, time);
        r.ctx.start();
        let x = sym_signal("x", 1, 5, 1.0);
        let cut = pick("cut", 1, 3);
        let y = r.run(&x, 1, &[cut, 4 - cut, 1]);
        let mut s = State::default();
        for i in 0..5 {
            if i >= at { p[which] = v; }
            let c = cookbook(k, p[0], p[1], p[2], sr as f64);
            observe(y[0][i]);
            check(close(y[0][i], (s.next(&c, x[0][i] as f64) * p[3]) as f32, 1e-4), "settings take effect at their sample, on the same history");
        }
        reach("end");
    }

    /// Silence stays silence; very quiet signals die out and never grow.
    fn h_biquad_quiet() {
        let k = pick("type", 0, TYPES - 1);
        let mut r = Rig::new(48_000, 2, 4);
        let mut b = filter(&r, k, 2);
        b.frequency().set_value_now([40.0, 10_000.0][pick("frequency", 0, 1)]); b.q().set_value_now(10.0);
        r.ctx.start();
        let m = any_f32("x", -1e-9, 1e-9);
        let y = r.run(&[vec![m, 0.0, 0.0, 0.0, 0.0], vec![0.0; 5]], 2, &[2, 3]);
        for i in 0..5 { check(y[1][i] == 0.0, "silence stays silence, channels do not mix"); check(close(y[0][i], 0.0, 1e-8), "quiet stays quiet"); }
        reach("end");
    }
}
