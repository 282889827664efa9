//! C15 oscillator.
use crate::rig::*;

/// The waveform at a phase in [0, 1): straight lines between the entries, wrapping round.
fn wave(table: &[f64], phase: f64) -> f64 {
    let n = table.len();
    let o = phase * n as f64;
    let i = concretize(o.floor() as usize);
    let w = o - o.floor();
    (1.0 - w) * table[i % n] + w * table[(i + 1) % n]
}

harnesses! {
    /// Any frequency.
    fn h_osc_any() {
        let sr = [8_000, 44_100, 48_000][pick("rate", 0, 2)];
        let n = pick("entries", 3, bound(4, 5));
        let frames = bound(3, 4);
        let mut r = Rig::new(sr, 2, 4);
        let table: Vec<f64> = vec![0.25, 1.0, -0.5, -1.0, 0.125][..n].to_vec();
        let freq = any_f32("frequency", 20.0, 20_000.0);
        let o = Oscillator::new(r.ctx.as_ref(), freq as f64, 2, table.clone());
        o.node.connect_to_output();
        r.ctx.start();
        let first = frames / 2;
        let y = r.silent_run(2, &[first, frames - first]);
        let mut p = 0.0f64;
        for f in 0..frames {
            p += freq as f64 / sr as f64;
            while p >= 1.0 { p -= 1.0; }
            let e = wave(&table, p) as f32;
            check(close(y[0][f], e, 1e-4), "the waveform at the phase of the sample");
            check((y[0][f] >= -1.0001) & (y[0][f] <= 1.0001), "within the bounds of the waveform");
            check(same(y[0][f], y[1][f]), "the same on every channel");
            observe(y[0][f]);
        }
        reach("end");
    }

    /// Frequencies that divide the rate, and their multiples: the phase meets the end of the waveform exactly.
    fn h_osc_exact() {
        let (sr, freq) = [(48_000, 12_000.0), (48_000, 16_000.0), (44_100, 11_025.0), (44_100, 14_700.0), (8_000, 2_000.0), (8_000, 8_000.0), (8_000, 20_000.0), (48_000, 9_600.0)][pick("rates", 0, 7)];
        let n = pick("entries", 3, bound(8, 16));
        let mut r = Rig::new(sr, 1, 4);
        let table: Vec<f64> = (0..n).map(|_| any_f64("entry", -1.0, 1.0)).collect();
        let o = Oscillator::new(r.ctx.as_ref(), freq, 1, table.clone());
        o.node.connect_to_output();
        r.ctx.start();
        let y = r.silent_run(1, &[3, 9]);
        let mut p = 0.0f64;
        for f in 0..12 {
            p += freq as f64 / sr as f64;
            while p >= 1.0 { p -= 1.0; }
            check(close(y[0][f], wave(&table, p) as f32, 1e-4), "the waveform at the phase of the sample"); observe(y[0][f]);
        }
        reach("end");
    }

    /// After a long time the phase is still right, for any waveform.
    fn h_osc_long() {
        let (sr, freq) = [(44_100, 441.7f32), (48_000, 997.3), (44_100, 12_345.6), (96_000, 33.3)][pick("rates", 0, 3)];
        let n = 5;
        let mut r = Rig::new(sr, 1, 4096);
        let table: Vec<f64> = (0..n).map(|_| any_f64("entry", -1.0, 1.0)).collect();
        let o = Oscillator::new(r.ctx.as_ref(), freq as f64, 1, table.clone());
        o.node.connect_to_output();
        r.ctx.start();
        let mut p = 0.0f64;
        for _ in 0..bound(5, 40) {
            r.silent_block(1, 4000);
            for _ in 0..4000 { p += freq as f64 / sr as f64; while p >= 1.0 { p -= 1.0; } }
            let y = r.silent_block(1, 4);
            for f in 0..4 {
                p += freq as f64 / sr as f64; while p >= 1.0 { p -= 1.0; }
                check(close(y[0][f], wave(&table, p) as f32, 1e-4), "the waveform at the phase of the sample, however late"); observe(y[0][f]);
            }
        }
        reach("end");
    }

    /// Gain and frequency change while it plays; frequencies outside the range are clamped.
    fn h_osc_parameters() {
        let sr = 32_768;
        let mut r = Rig::new(sr, 3, 4);
        let ch = pick("channels", 1, 3);
        let table = vec![0.0, 1.0, 0.5, -1.0];
        let mut o = Oscillator::new(r.ctx.as_ref(), 1024.0, ch, table.clone());
        let g = any_f32("gain", 2.0, 3.0);
        let f1 = [any_f32("frequency", 20.0, 20_000.0), 1.0, 30_000.0][pick("range", 0, 2)];
        let t = pick("at", 0, 4);
        o.gain().set_value_now(g as f64);
        o.frequency().set_value_at_time(f1 as f64, Timestamp::from_samples(t as f64, sr));
        o.node.connect_to_output();
        r.ctx.start();
        let y = r.silent_run(ch, &[2, 3]);
        let f1 = if f1 < 20.0 { 20.0 } else if f1 > 20_000.0 { 20_000.0 } else { f1 };
        let mut p = 0.0f64;
        for f in 0..5 {
            p += (if f >= t { f1 } else { 1024.0 }) as f64 / sr as f64;
            while p >= 1.0 { p -= 1.0; }
            let e = wave(&table, p) as f32;
            for c in 0..ch { check(close(y[c][f], e * g, 1e-4), "waveform times gain"); }
            observe(y[0][f]);
        }
        reach("end");
    }

    /// The sine: every entry of its waveform in turn.
    fn h_osc_sine() {
        let part = pick("part", 0, 3);
        let mut r = Rig::new(8192 * 20, 1, 512);
        let o = Oscillator::sine(r.ctx.as_ref(), 20.0, 1);
        o.node.connect_to_output();
        r.ctx.start();
        let n = 2048;
        let mut k = 1;
        for b in 0..(part + 1) * 4 {
            let y = r.silent_block(1, n / 4);
            for f in 0..n / 4 {
                if b >= part * 4 { let e = (std::f64::consts::TAU * k as f64 / 8192.0).sin() as f32; check(close(y[0][f], e, 1e-5) & (y[0][f] <= 1.0) & (y[0][f] >= -1.0), "one period of a sine"); }
                k += 1;
            }
        }
        reach("end");
    }

    /// A sine at any frequency: starts at zero and rises, within its bounds.
    fn h_osc_harmonics() {
        let mut r = Rig::new(8192 * 20, 1, 64);
        let l = [any_f64("level", 0.0, 2.0), any_f64("level", 0.0, 2.0), 0.5];
        let o = Oscillator::with_harmonics(r.ctx.as_ref(), 20.0 * 512.0, 1, &[Level::from_linear(l[0]), Level::from_linear(l[1]), Level::from_linear(l[2])]);
        o.node.connect_to_output();
        r.ctx.start();
        let y = r.silent_run(1, &[7, 9]);
        for f in 0..16 {
            let t = std::f64::consts::TAU * (f + 1) as f64 / 16.0;
            let e = l[0] * t.sin() + l[1] * (2.0 * t).sin() + l[2] * (3.0 * t).sin();
            check(close(y[0][f], e as f32, 1e-4), "the sum of the harmonics"); observe(y[0][f]);
        }
        reach("end");
    }
}
