//! C07 scheduled parameter values, C08 ramps.
use crate::rig::*;

/// At this rate the time of every sample is an exact timestamp.
const SR: usize = 32_768;
fn at(samples: f64) -> Timestamp { Timestamp::from_samples(samples, SR) }

/// A sample position somewhere in lo..hi: on a sample or clearly between two.
fn position(name: &str, lo: f64, hi: f64) -> f64 {
    let s = any_f64(name, lo, hi);
    for f in lo as usize..=hi as usize { let d = s - f as f64; assume((d == 0.0) | (d > 0.001) | (d < -0.001)); }
    s
}

/// A pan node fed with ones: its output gives the value of its parameter away.
struct Probe { r: Rig, pan: Pan, now: usize }
impl Probe {
    fn new(max: usize) -> Self {
        let mut r = Rig::new(SR, 2, max); r.ctx.start();
        let pan = Pan::new(r.ctx.as_ref(), 2);
        pan.node.connect_to_input(); pan.node.connect_to_output();
        Probe { r, pan, now: 0 }
    }
    fn values(&mut self, n: usize) -> Vec<f32> {
        let y = self.r.block(&[vec![1.0; n], vec![1.0; n]], 2, n);
        self.now += n;
        for f in 0..n { observe(y[0][f]); }
        (0..n).map(|f| y[1][f] - y[0][f]).collect()
    }
    fn expect(&mut self, pending: &mut Vec<Pending>, value: &mut f64, len: usize) {
        let t0 = self.now;
        let y = self.values(len);
        for f in 0..len {
            let t = (t0 + f) as f64;
            let mut best: Option<(f64, f64)> = None;
            let mut i = 0;
            while i < pending.len() {
                if pending[i].s <= t {
                    let q = pending.remove(i);
                    best = match best { Some((s, v)) if q.s < s => Some((s, v)), _ => Some((q.s, q.v)) };
                    reach("due");
                } else { i += 1; }
            }
            if let Some((_, v)) = best { *value = v; }
            // right gain - left gain = min(1+p,1) - min(1-p,1) = p for either sign
            check(close(y[f], *value as f32, 1e-5), "the value of the latest change that is due, from its sample on");
        }
    }
}

/// A gain node fed with ones.
struct GainProbe { r: Rig, gain: Gain }
impl GainProbe {
    fn new(max: usize, sr: usize) -> Self {
        let mut r = Rig::new(sr, 1, max); r.ctx.start();
        let gain = Gain::new(r.ctx.as_ref(), 1);
        gain.node.connect_to_input(); gain.node.connect_to_output();
        GainProbe { r, gain }
    }
    fn values(&mut self, n: usize) -> Vec<f32> { let y = self.r.block(&[vec![1.0; n]], 1, n); for v in &y[0] { observe(*v); } y[0].clone() }
}

struct Pending { s: f64, v: f64 }

harnesses! {
    /// Histories of set-now, set-at, cancel, cancel-after and processing, any values, times from a grid.
    fn h_param_set() {
        let mut p = Probe::new(3);
        let mut pending: Vec<Pending> = vec![];
        let mut value = 0.0f64;
        let n = bound(3, 4);
        for k in 0..=n {
            let op = if k == n { 5 } else { pick("op", 0, 4) };
            match op {
                0 => { let v = any_f64("now", -1.0, 1.0); p.pan.pan().set_value_now(v); pending.push(Pending { s: 0.0, v }); }
                1 => { let v = any_f64("value", -1.0, 1.0); let s = [0.0, 1.0, 1.5, 2.0, 3.75, 4.0][pick("at", 0, 5)]; p.pan.pan().set_value_at_time(v, at(s)); pending.push(Pending { s, v }); }
                2 => { p.pan.pan().cancel_scheduled_changes(); pending.clear(); }
                3 => {
                    let c = [0.5, 1.5, 2.0, 3.0][pick("after", 0, 3)];
                    p.pan.pan().cancel_scheduled_changes_ending_after(at(c));
                    pending.retain(|q| q.s <= c);
                    reach("cancelled");
                }
                _ => { let len = if op == 5 { 4 } else { 2 }; p.expect(&mut pending, &mut value, len); }
            }
        }
        reach("end");
    }

    /// More pending changes than room is set aside for to begin with, made in any of several orders, with a cancellation.
    fn h_param_many() {
        let mut p = Probe::new(8);
        let mut pending: Vec<Pending> = vec![];
        let mut value = 0.0f64;
        let n = bound(40, 96);
        let step = [1, 7, 11, n - 1][pick("order", 0, 3)]; // none of them shares a divisor with n + 1
        assume((n + 1) % step != 0 || step == 1);
        let unknown = pick("unknown", 0, 3);
        let early = pick("processed_before", 0, 1) == 1;
        for k in 1..=n {
            let q = (k * step) % (n + 1);
            let s = q as f64 / 2.0 + 0.25;
            let v = if q % 16 == 4 * unknown { any_f64("value", -1.0, 1.0) } else { (q % 64) as f64 / 64.0 - 0.5 };
            p.pan.pan().set_value_at_time(v, at(s)); pending.push(Pending { s, v });
            if early && k == n / 2 { p.expect(&mut pending, &mut value, 3); }
        }
        match pick("cancel", 0, 2) { 0 => {} 1 => { let c = n as f64 / 4.0; p.pan.pan().cancel_scheduled_changes_ending_after(at(c)); pending.retain(|q| q.s <= c); reach("cancelled"); } _ => { p.expect(&mut pending, &mut value, 8); p.pan.pan().cancel_scheduled_changes(); pending.clear(); } }
        for _ in 0..n / 16 + 1 { p.expect(&mut pending, &mut value, 9); }
        reach("end");
    }

    /// Any times: two changes and a cancellation, around a block boundary.
    fn h_param_times() {
        let mut p = Probe::new(3);
        let mut pending: Vec<Pending> = vec![];
        let mut value = 0.0f64;
        let shape = pick("shape", 0, 3);
        let free = pick("free", 0, if shape & 2 == 2 { 2 } else { 1 });   // which of the times is any time
        let (v1, v2) = (any_f64("value", 0.25, 0.5), any_f64("value", -0.5, -0.25));
        let grid = |n: &str| [0.0, 1.0, 1.5, 2.25][pick(n, 0, 3)];
        let s1 = if free == 0 { position("at", 0.0, 3.0) } else { grid("at") };
        p.pan.pan().set_value_at_time(v1, at(s1)); pending.push(Pending { s: s1, v: v1 });
        if shape & 1 == 1 { p.expect(&mut pending, &mut value, 2); }
        let s2 = if free == 1 { position("at", 0.0, 3.0) } else { grid("at") };
        { let d = s2 - s1; assume((d == 0.0) | (d > 0.001) | (d < -0.001)); }
        p.pan.pan().set_value_at_time(v2, at(s2)); pending.push(Pending { s: s2, v: v2 });
        if shape & 2 == 2 {
            let c = if free == 2 { position("after", 0.0, 3.0) } else { grid("after") };
            for q in &pending { let d = q.s - c; assume((d == 0.0) | (d > 0.001) | (d < -0.001)); }
            p.pan.pan().cancel_scheduled_changes_ending_after(at(c));
            let mut i = 0;
            while i < pending.len() { if pending[i].s > c { pending.remove(i); reach("cancelled"); } else { i += 1; } }
        }
        p.expect(&mut pending, &mut value, 2);
        p.expect(&mut pending, &mut value, 1);
        reach("end");
    }

    /// Values outside the range of a parameter.
    fn h_param_clamp() {
        let mut p = Probe::new(4);
        let v = any_f64("value", -1.0e6, 1.0e6);
        let how = pick("how", 0, 2);
        match how { 0 => p.pan.pan().set_value_now(v), 1 => p.pan.pan().set_value_at_time(v, at(2.0)), _ => p.pan.pan().linear_ramp_to_value(v, at(0.0), at(2.0)) }
        let y = p.values(4);
        let e = if v > 1.0 { 1.0 } else if v < -1.0 { -1.0 } else { v } as f32;
        check(close(y[3], e, 1e-5) & close(y[2], e, 1e-5), "the clamped value");
        check(close(y[0], if how == 0 { e } else { 0.0 }, 1e-5), "nothing before its time");
        check((y[1] >= -1.00001) & (y[1] <= 1.00001), "never outside the range");
        let _ = p.pan.pan().get_value();
        reach("end");
    }

    /// Several parameters of several nodes of the same kind do not disturb each other; the public value follows.
    fn h_param_independent() {
        let r = Rig::new(SR, 1, 4); let mut r = r; r.ctx.start();
        let mut a = Gain::new(r.ctx.as_ref(), 1); let mut b = Gain::new(r.ctx.as_ref(), 1);
        a.node.connect_to_input(); a.node.connect_to(&b.node); b.node.connect_to_output();
        let (va, vb) = (any_f64("a", 2.0, 9.0), any_f64("b", 2.0, 9.0));
        let (sa, sb) = ([0.0, 1.5, 2.0][pick("at_a", 0, 2)], [0.5, 2.0, 3.0][pick("at_b", 0, 2)]);
        a.gain().set_value_at_time(va, at(sa)); b.gain().set_value_at_time(vb, at(sb));
        let y = r.run(&[vec![1.0; 5]], 1, &[2, 3]);
        for f in 0..5 {
            let t = f as f64;
            let e = if sa <= t { va } else { 1.0 } * if sb <= t { vb } else { 1.0 };
            check(close(y[0][f], e as f32, 1e-3), "each parameter follows its own changes");
            observe(y[0][f]);
        }
        check(close64(a.gain().get_value().load(std::sync::atomic::Ordering::SeqCst), va, 1e-9), "the value can be read back");
        reach("end");
    }

    /// At a rate where the times of samples are rounded: a change between two samples acts at the second, whatever the blocks.
    fn h_param_rounded_time() {
        let sr = [44_100, 48_000][pick("rate", 0, 1)];
        let mut p = GainProbe::new(3, sr);
        let s = any_f64("at", 0.0, 7.0); for f in 0..=7 { let d = s - f as f64; assume((d > 0.01) | (d < -0.01)); }
        let v = any_f64("value", 2.0, 9.0);
        let late = pick("late", 0, 1) == 1;
        let cut = pick("cut", 1, 6);
        let mut y = vec![];
        if !late { p.gain.gain().set_value_at_time(v, Timestamp::from_samples(s, sr)); }
        y.extend(p.values(cut));
        if late { p.gain.gain().set_value_at_time(v, Timestamp::from_samples(s, sr)); }
        y.extend(p.values(8 - cut));
        for f in 0..8 { check(close(y[f], if (s <= f as f64) & (!late | (f >= cut)) { v as f32 } else { 1.0 }, 1e-5), "a change acts at the first sample that is not before it"); }
        reach("end");
    }

    /// A linear ramp with any values, on and between samples, whatever the blocks.
    fn h_ramp_values() {
        let mut p = GainProbe::new(4, SR);
        let v0 = any_f64("from", 2.0, 100.0); let v1 = any_f64("to", 2.0, 100.0);
        assume((v1 - v0 > 1e-6) | (v0 - v1 > 1e-6));
        p.gain.gain().set_value_now(v0);
        let s0 = [0.0, 1.0, 1.5, 2.25][pick("start", 0, 3)];
        let d = [4.0, 0.0, 0.25, 1.0, 1.5, 2.75, 8.0][pick("duration", 0, 6)];
        let s1 = s0 + d;
        let cut = pick("cut", 1, 8);
        let late = pick("late", 0, 1) == 1;
        let mut y = vec![];
        if !late { p.gain.gain().linear_ramp_to_value(v1, at(s0), at(s1)); }
        y.extend(p.values(cut));
        if late { p.gain.gain().linear_ramp_to_value(v1, at(s0), at(s1)); }
        y.extend(p.values(12 - cut));
        let start = if late && cut as f64 > s0 { cut as f64 } else { s0 };
        let (lo, hi) = if v0 <= v1 { (v0, v1) } else { (v1, v0) };
        let step = if s1 > start { (hi - lo) / (s1 - start) } else { hi - lo };
        for f in 0..12 {
            let t = f as f64; let x = y[f] as f64;
            if t < start { check(close64(x, v0, 1e-4), "nothing before the start of the ramp"); }
            else if t >= s1 { check(close64(x, v1, 1e-4), "the target from the end of the ramp on"); reach("target"); }
            else {
                check((x >= lo - 1e-4) & (x <= hi + 1e-4), "never outside the values of the ramp");
                let line = v0 + (v1 - v0) * ((t - start) / (s1 - start));
                check((x - line <= step + 1e-4) & (line - x <= step + 1e-4), "along the straight line, to one sample's step");
                if f > 0 { let b = y[f - 1] as f64; check(if v0 <= v1 { x >= b - 1e-4 } else { x <= b + 1e-4 }, "monotone"); }
                reach("ramping");
            }
        }
        reach("end");
    }

    /// A linear ramp at any time and of any duration.
    fn h_ramp_times() {
        let mut p = GainProbe::new(3, SR);
        let up = pick("up", 0, 1) == 1;
        let (v0, v1) = if up { (2.0, 3.0) } else { (3.0, 2.0) };
        p.gain.gain().set_value_now(v0);
        let s0 = [0.0, 1.0, 1.5, 2.25][pick("start", 0, 3)];
        let first: f64 = [0.0, 1.0, 2.0, 3.0][(s0 as usize) + if s0 > s0 as usize as f64 { 1 } else { 0 }];
        let s1 = any_f64("end", first + 0.01, first + 4.0);
        for f in 0..7 { let e = s1 - f as f64; assume((e == 0.0) | (e > 0.001) | (e < -0.001)); }
        p.gain.gain().linear_ramp_to_value(v1, at(s0), at(s1));
        let mut y = p.values(2); y.extend(p.values(5));
        for f in 0..7 {
            let t = f as f64; let x = y[f] as f64;
            if t < s0 { check(close64(x, v0, 1e-4), "nothing before the start of the ramp"); }
            else if t >= s1 { check(close64(x, v1, 1e-4), "the target from the end of the ramp on"); reach("target"); }
            else { check((x >= 2.0 - 1e-4) & (x <= 3.0 + 1e-4), "never outside the values of the ramp"); if f > 0 { let b = y[f - 1] as f64; check(if up { x >= b - 1e-4 } else { x <= b + 1e-4 }, "monotone"); } reach("ramping"); }
        }
        reach("end");
    }

    /// Ramps one after the other, with a jump or a pause in between, and a jump after them.
    fn h_ramp_chain() {
        let mut p = GainProbe::new(3, SR);
        let v: Vec<f64> = (0..4).map(|_| any_f64("value", 2.0, 50.0)).collect();
        for i in 0..4 { for j in 0..i { assume((v[i] - v[j] > 1e-6) | (v[j] - v[i] > 1e-6)); } }
        p.gain.gain().set_value_now(v[0]);
        let a = [(0.0, 3.0), (1.0, 3.5)][pick("first", 0, 1)];
        let gap = [0.0, 0.5, 2.0][pick("gap", 0, 2)];
        let b = (a.1 + gap, a.1 + gap + [1.5, 2.0][pick("second", 0, 1)]);
        let jump = pick("jump", 0, 2);
        p.gain.gain().linear_ramp_to_value(v[1], at(a.0), at(a.1));
        if jump == 1 { p.gain.gain().set_value_at_time(v[3], at(a.1)); }
        p.gain.gain().linear_ramp_to_value(v[2], at(b.0), at(b.1));
        let tj = b.1 + 1.0;
        if jump == 2 { p.gain.gain().set_value_at_time(v[3], at(tj)); }
        let cut = pick("cut", 1, bound(4, 9));
        let mut y = p.values(cut); y.extend(p.values(11 - cut));
        let mid = if jump == 1 { v[3] } else { v[1] };
        for f in 0..11 {
            let t = f as f64; let x = y[f] as f64;
            let on = |x: f64, from: f64, to: f64, s: (f64, f64)| { let line = from + (to - from) * ((t - s.0) / (s.1 - s.0)); let step = (to - from) / (s.1 - s.0); let step = if step < 0.0 { -step } else { step }; (x - line <= step + 1e-4) & (line - x <= step + 1e-4) };
            if t < a.0 { check(close64(x, v[0], 1e-4), "nothing before the start"); }
            else if t < a.1 { check(on(x, v[0], v[1], a), "along the first ramp"); }
            else if t < b.0 { check(close64(x, mid, 1e-4), "the target of the first ramp, or the value set after it"); reach("held"); }
            else if t < b.1 { check(on(x, mid, v[2], b), "along the second ramp, from the value at its start"); reach("second"); }
            else if jump == 2 && t >= tj { check(close64(x, v[3], 1e-4), "a jump after the ramps"); }
            else { check(close64(x, v[2], 1e-4), "the target of the second ramp"); reach("target"); }
        }
        reach("end");
    }

    /// An exponential ramp of any duration: start, monotone, end.
    fn h_ramp_exponential() {
        let mut p = GainProbe::new(4, SR);
        let up = pick("up", 0, 1) == 1;
        let (v0, v1) = if up { (2.0, 3.0) } else { (3.0, 2.0) };
        p.gain.gain().set_value_now(v0);
        let s0 = [0.0, 1.0, 1.5, 2.25][pick("start", 0, 3)];
        let first: f64 = [0.0, 1.0, 2.0, 3.0][(s0 as usize) + if s0 > s0 as usize as f64 { 1 } else { 0 }];
        let s1 = any_f64("end", first + 0.01, first + 4.0);
        for f in 0..7 { let e = s1 - f as f64; assume((e == 0.0) | (e > 0.001) | (e < -0.001)); }
        p.gain.gain().exponential_ramp_to_value(v1, at(s0), at(s1));
        let mut y = p.values(2); y.extend(p.values(5));
        for f in 0..7 {
            let t = f as f64; let x = y[f] as f64;
            if t < s0 { check(close64(x, v0, 1e-4), "nothing before the start of the ramp"); }
            else if t >= s1 { check(close64(x, v1, 1e-4), "the target from the end of the ramp on"); reach("target"); }
            else { if f > 0 { let b = y[f - 1] as f64; check(if up { x >= b - 1e-4 } else { x <= b + 1e-4 }, "monotone"); } reach("ramping"); }
        }
        reach("end");
    }
    /// The curve of an exponential ramp, on a grid of values.
    fn h_ramp_exponential_curve() {
        let mut p = GainProbe::new(5, SR);
        let v0 = [1.0, 4.0, 0.001, 3.0][pick("from", 0, 3)]; let v1 = [0.01, 2.0, 100.0, 2.9][pick("to", 0, 3)];
        p.gain.gain().set_value_now(v0);
        let s0 = [0.0, 1.5][pick("start", 0, 1)];
        let d = [4.0, 0.25, 1.5, 6.75][pick("duration", 0, 3)]; let s1 = s0 + d;
        p.gain.gain().exponential_ramp_to_value(v1, at(s0), at(s1));
        let mut y = p.values(3); y.extend(p.values(7));
        let (lo, hi): (f64, f64) = if v0 <= v1 { (v0, v1) } else { (v1, v0) };
        for f in 0..10 {
            let t = f as f64; let x = y[f] as f64;
            if t < s0 { check(close64(x, v0, 1e-5 * v0), "nothing before the start of the ramp"); }
            else if t >= s1 { check(close64(x, v1, 1e-5 * v1), "the target from the end of the ramp on"); }
            else {
                check((x >= lo * 0.99999) & (x <= hi * 1.00001), "never outside the values of the ramp");
                let curve = |t: f64| v0 * (v1 / v0).powf((t - s0) / d);
                let (a, b) = (curve(t - 1.0), curve(t + 1.0));
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                check((x >= a * 0.9999) & (x <= b * 1.0001), "along the geometric curve, to one sample's step");
                reach("ramping");
            }
        }
        reach("end");
    }
}
