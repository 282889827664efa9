//! C16 ADSR.
use crate::rig::*;
use std::time::Duration;
const SR: usize = 32_768;
fn at(samples: f64) -> Timestamp { Timestamp::from_samples(samples, SR) }
fn dur(samples: f64) -> Duration { Duration::from_secs_f64(samples / SR as f64) }

struct Probe { r: Rig, adsr: Adsr }
impl Probe {
    fn new(sr: usize, max: usize) -> Self {
        let mut r = Rig::new(sr, 2, max); r.ctx.start();
        let adsr = Adsr::new(r.ctx.as_ref(), 2, sr);
        adsr.node.connect_to_input(); adsr.node.connect_to_output();
        Probe { r, adsr }
    }
    /// The gain: channel 0 carries ones; channel 1 any signal, which must be scaled alike.
    fn gains(&mut self, n: usize) -> Vec<f32> {
        let x: Vec<f32> = (0..n).map(|_| any_f32("x", -4.0, 4.0)).collect();
        let y = self.r.block(&[vec![1.0; n], x.clone()], 2, n);
        for f in 0..n { check(close(y[1][f], x[f] * y[0][f], 1e-5), "every channel is scaled by the envelope"); observe(y[0][f]); }
        y[0].clone()
    }
    fn run(&mut self, blocks: &[usize]) -> Vec<f32> { blocks.iter().flat_map(|b| self.gains(*b)).collect() }
}
const E: f32 = 1e-4;

harnesses! {
    /// One note with any times of its events, all phases run through.
    fn h_adsr_note() {
        let (a, d, s, rel) = [(3.0, 2.0, 0.5f32, 3.0), (0.0, 0.0, 1.0, 0.0), (2.0, 5.0, 0.0, 2.0), (0.0, 2.0, 0.25, 4.0), (4.0, 0.0, 0.75, 1.0)][pick("setting", 0, 4)];
        let mut p = Probe::new(SR, 5);
        p.adsr.set_adsr(dur(a), dur(d), Level::from_linear(s as f64), dur(rel));
        let on = any_f64("on", 0.0, 3.0); let off = any_f64("off", 0.0, 12.0); assume(off >= on);
        p.adsr.note_on_at_time(at(on)); p.adsr.note_off_at_time(at(off));
        let cut = pick("cut", 1, 5);
        let n = 20;
        let y = p.run(&[cut, n - cut]);
        let on_f = concretize(on as usize) as f64; let off_f = concretize(off as usize) as f64;
        let (on, off) = (on_f, off_f);
        for f in 0..n {
            let t = f as f64; let b = if f > 0 { y[f - 1] } else { 0.0 };
            check((y[f] >= 0.0) & (y[f] <= 1.0), "the envelope stays between nought and one");
            if t < on - 1.0 { check(y[f] == 0.0, "silent before the note"); }
            if (t >= on + 1.0) & (t < off - 1.0) {
                if t < on + a - 1.0 { check(y[f] >= b, "rises during the attack"); reach("attack"); }
                if (t >= on + a + 2.0) & (t < on + a + d - 1.0) { check(y[f] <= b + E, "falls during the decay"); check(y[f] >= s - E, "not below the sustain level"); reach("decay"); }
                if t >= on + a + d + 2.0 { check(close(y[f], s, E), "holds the sustain level"); reach("sustain"); }
            }
            if t >= off + 1.0 { check(y[f] <= b, "falls during the release"); reach("release"); }
            if t >= off + rel + 2.0 { check(y[f] == 0.0, "silent after the release"); reach("over"); }
        }
        // the attack reaches one
        if off >= on + a + 3.0 { let mut top = false; for f in 0..n { let t = f as f64; if (t >= on + a - 2.0) & (t <= on + a + 1.0) { top |= y[f] >= 1.0 - E; } } check(top, "the attack ends at one"); reach("top"); }
        reach("end");
    }

    /// Two notes with events anywhere, in any order made: events act in order of time, at their sample.
    fn h_adsr_order() {
        let mut p = Probe::new(SR, 4);
        // instantaneous phases: the gain is one while the note is held
        p.adsr.set_adsr(dur(0.0), dur(0.0), Level::unity(), dur(0.0));
        let ev: Vec<(usize, usize)> = (0..bound(3, 4)).map(|_| (pick("kind", 0, 1), pick("time", 0, 5))).collect();
        let late = pick("late", 0, 2);
        let mut y = vec![];
        let send = |p: &mut Probe, e: (usize, usize)| if e.0 == 0 { p.adsr.note_on_at_time(at(e.1 as f64)) } else { p.adsr.note_off_at_time(at(e.1 as f64)) };
        for e in &ev[..ev.len() - 1] { send(&mut p, *e); }
        if late > 0 { y.extend(p.gains(late)); }
        send(&mut p, ev[ev.len() - 1]);
        let cut = pick("cut", 1, 3);
        y.extend(p.gains(cut)); y.extend(p.gains(7 - cut - late));
        let mut held = false;
        for f in 0..7 {
            let mut last: Option<usize> = None; let mut when = -1;
            for (i, e) in ev.iter().enumerate() {
                let t = if i == ev.len() - 1 && e.1 < late { late } else { e.1 };
                if t == f {
                    // among events acting at the same sample: by time, then by order made
                    if e.1 as i32 >= when { when = e.1 as i32; last = Some(e.0); }
                }
            }
            if let Some(k) = last { held = k == 0; }
            check(close(y[f], if held { 1.0 } else { 0.0 }, E), "the gain follows the note events in order of time");
        }
        reach("end");
    }

    /// Any sustain level: bounds and monotone phases, also when the note ends early or starts again.
    fn h_adsr_levels() {
        let mut p = Probe::new(SR, 4);
        let s = any_f32("sustain", 0.01, 0.99);
        let (a, d, rel) = [(2.0, 3.5, 3.5), (4.0, 2.5, 2.5)][pick("setting", 0, 1)];
        p.adsr.set_adsr(dur(a), dur(d), Level::from_linear(s as f64), dur(rel));
        p.adsr.note_on_at_time(at(0.0));
        let off = pick("off", 1, 7);
        p.adsr.note_off_at_time(at(off as f64));
        let n = 13;
        let y = p.run(&[4, n - 4]);
        for f in 0..n {
            check((y[f] >= 0.0) & (y[f] <= 1.0), "the envelope stays between nought and one");
            if f >= off { check(y[f] <= y[f - 1], "falls during the release"); if f as f64 > off as f64 + rel { check(y[f] == 0.0, "silent after the release"); reach("over"); } }
            else if f > 0 && (f as f64) < a { check(y[f] >= y[f - 1], "rises during the attack"); }
            else if f as f64 > a + 1.0 { check((y[f] <= y[f - 1]) & (y[f] >= s - E), "falls to the sustain level"); }
        }
        reach("end");
    }

    /// Retriggered while it sounds: rises from where it is, and no note event is forgotten.
    fn h_adsr_retrigger() {
        let mut p = Probe::new(SR, 8);
        p.adsr.set_adsr(dur(4.0), dur(2.0), Level::from_linear(0.5), dur(6.0));
        let off = pick("off", 1, 7); let again = off + pick("again", 0, 6);
        // a note may start again without the first one having ended
        let released = pick("released", 0, 1) == 1;
        p.adsr.note_on_at_time(at(0.0)); if released { p.adsr.note_off_at_time(at(off as f64)); } p.adsr.note_on_at_time(at(again as f64));
        let n = again + 12;
        let y = p.run(&[n / 2, n - n / 2]);
        for f in 1..n { check((y[f] >= 0.0) & (y[f] <= 1.0), "the envelope stays between nought and one"); }
        if released { for f in off..again { check(y[f] <= y[f - 1], "falls while released"); } }
        check(y[again] >= y[again - 1], "rises from where it is"); let mut top = false; for f in again..again + 6 { top |= y[f] >= 1.0 - E; } check(top, "reaches one again");
        check(close(y[n - 1], 0.5, E), "back at the sustain level");
        reach("end");
    }

    /// At rates where sample times are rounded: an event acts within one sample of its time, whatever the blocks.
    fn h_adsr_rounded_time() {
        let sr = [44_100, 48_000, 96_000, 22_050][pick("rate", 0, 3)];
        let mut p = Probe::new(sr, 4);
        let base = [0usize, 3, 1000][pick("base", 0, 2)];
        p.adsr.set_adsr(dur(0.0), dur(0.0), Level::unity(), dur(0.0));
        let on = pick("on", 0, 5); let off = on + pick("length", 1, 3);
        let t = |f: usize| Timestamp::from_samples((base + f) as f64, sr);
        if base > 0 { p.r.silent_block(2, base); }
        p.adsr.note_on_at_time(t(on)); p.adsr.note_off_at_time(t(off));
        let cut = pick("cut", 1, 8);
        let y = p.run(&[cut, 9 - cut]);
        for f in 0..9 {
            if (f >= on) & (f + 1 < off) { check(close(y[f], 1.0, E), "a note sounds from its first sample on, to within a sample"); }
            if (f + 1 < on) | (f >= off) { check(close(y[f], 0.0, E), "a note is over after its last sample, to within a sample"); }
        }
        reach("end");
    }
}
