//! C17 sampler.
use crate::rig::*;

const FADE: usize = 2; // 50 ms at this rate, rounded up
const SR: usize = 32;
fn at(n: usize) -> Timestamp { Timestamp::from_samples(n as f64, SR) }

/// Any number on a grid of a sixty-fourth, which times are stored without rounding.
fn grid(name: &str, lo: usize, hi: usize) -> f64 { any_u32(name, lo as u32 * 64, hi as u32 * 64) as f64 / 64.0 }

/// What should be heard: the position in the sample, and the jumps it has made.
struct Model { sample: Vec<f32>, playing: Option<usize>, lp: Option<(usize, usize)>, jumps: Vec<(usize, Option<usize>, Option<usize>)> }
impl Model {
    fn jump(&mut self, now: usize, to: Option<usize>) {
        if to == self.playing { return; }
        if let Some(j) = self.jumps.last_mut() { if j.0 == now { j.2 = to; self.playing = to; return; } }
        self.jumps.push((now, self.playing, to));
        self.playing = to;
    }
    fn start(&mut self, now: usize, pos: usize) { self.jump(now, Some(pos)); }
    fn stop(&mut self, now: usize) { self.jump(now, None); }
    fn get(&self, pos: usize) -> f32 { if pos < self.sample.len() { self.sample[pos] } else { 0.0 } }
    /// The sample of this frame, and whether it is one (frames within several fades are not specified).
    fn frame(&mut self, now: usize) -> Option<f32> {
        let lp = self.lp.filter(|l| l.1 > l.0);
        if let (Some(p), Some((ls, le))) = (self.playing, lp) {
            if p >= le { let len = le - ls; let mut q = p; while q >= le { q -= len; } self.jump(now, Some(q)); }
        }
        if let (Some(p), None) = (self.playing, lp) { if p >= self.sample.len() { self.playing = None; } }
        let recent: Vec<_> = self.jumps.iter().filter(|j| j.0 + FADE > now).collect();
        let here = self.playing.map(|p| self.get(p)).unwrap_or(0.0);
        let n = self.jumps.len();
        let alone = n < 2 || self.jumps[n - 1].0 >= self.jumps[n - 2].0 + FADE;
        let v = match recent.len() {
            0 => Some(here),
            1 if alone => {
                let (t, from, to) = *recent[0];
                let k = now - t;
                let rise = if k == 0 { 0.0 } else { 0.5 };
                let old = from.map(|p| self.get(p + k)).unwrap_or(0.0) * (1.0 - rise);
                let new = match to { None => 0.0, Some(0) => here, Some(_) => here * rise };
                // a sample that has come to its end within the fade
                Some(old + new)
            }
            _ => None,
        };
        if let Some(p) = self.playing { self.playing = Some(p + 1); }
        v
    }
}

struct Deck { r: Rig, s: Sampler, m: Model, other: Vec<f32>, now: usize }
impl Deck {
    fn new(sample: Vec<f32>, max: usize) -> Deck { Deck::stereo(sample, vec![], max) }
    /// The second channel is another one of the same length, or none.
    fn stereo(sample: Vec<f32>, other: Vec<f32>, max: usize) -> Deck {
        let mut r = Rig::new(SR, 2, max);
        let mut b = OwnedAudioBuffer::new(sample.len(), if other.is_empty() { 1 } else { 2 }, SR);
        for f in 0..other.len() { b.set_sample(SampleLocation::new(1, f), other[f]); }
        for f in 0..sample.len() { b.set_sample(SampleLocation::new(0, f), sample[f]); }
        let s = Sampler::new(r.ctx.as_ref(), b);
        s.node.connect_to_output();
        r.ctx.start();
        Deck { r, s, m: Model { sample, playing: None, lp: None, jumps: vec![] }, other, now: 0 }
    }
    /// One block, in which these things happen to the model at their frames.
    fn play(&mut self, n: usize, happens: &mut dyn FnMut(&mut Model, usize)) {
        let y = self.r.silent_block(2, n);
        for f in 0..n {
            happens(&mut self.m, self.now);
            let mut second = Model { sample: self.other.clone(), playing: self.m.playing, lp: self.m.lp, jumps: self.m.jumps.clone() };
            let want = self.m.frame(self.now);
            match second.frame(self.now) { Some(w) => check((y[1][f] - w).abs() <= 1e-4, "the second channel as the first"), None => {} }
            observe(y[0][f]);
            if let Some(w) = want { check((y[0][f] - w).abs() <= 1e-4, "the sample position that is due, faded where it jumped"); }
            else { check(y[0][f].abs() <= 32.0, "bounded within fades"); }
            if self.m.playing.is_some() && want.is_some() { reach("playing"); }
            self.now += 1;
        }
    }
    fn plain(&mut self, n: usize) { self.play(n, &mut |_, _| {}) }
    /// Ask for something now.
    fn act(&mut self, a: usize) {
        let now = self.now;
        match a {
            0 => {}
            1 => { self.s.start_now(); self.m.start(now, 0); }
            2 => { self.s.stop_now(); self.m.stop(now); }
            3 => { self.s.enable_loop(at(1), at(4)); self.m.lp = Some((1, 4)); }
            4 => { self.s.cancel_loop(); self.m.lp = None; }
            5 => { self.s.start_from_position_at_time(at(now), at(3)); self.m.start(now, 3); }
            6 => { self.s.enable_loop(at(0), at(3)); self.m.lp = Some((0, 3)); }
            7 => { self.s.enable_loop(at(4), at(4)); self.m.lp = Some((4, 4)); }
            8 => { self.s.enable_loop(at(5), at(2)); self.m.lp = Some((5, 2)); }
            _ => { self.s.cancel_all(); self.m.stop(now); self.m.lp = None; }
        }
    }
}

harnesses! {
    /// Any sequence of immediate operations between blocks.
    fn h_sampler_history() {
        let sample: Vec<f32> = (0..9).map(|_| any_f32("sample", -8.0, 8.0)).collect();
        let mut d = Deck::new(sample, 4);
        for i in 0..3 {
            d.act(pick("action", 0, 9));
            d.plain([2, if i == 1 { pick("frames", 3, bound(4, 6)) } else { 3 }, 2][i]);
        }
        d.plain(4);
        reach("end");
    }

    /// Longer sequences of the operations that matter most to each other.
    fn h_sampler_long() {
        let sample: Vec<f32> = (0..9).map(|_| any_f32("sample", -8.0, 8.0)).collect();
        let mut d = Deck::new(sample, 4);
        d.act(1);
        d.plain(pick("frames", 2, 3));
        for i in 0..bound(3, 4) {
            d.act([3, 4, 5, 6, 2][pick("action", 0, 4)]);
            d.plain(if i == 1 { pick("frames", 4, 5) } else { 3 });
        }
        d.plain(4);
        reach("end");
    }

    /// Operations at times ahead, and starts at times gone by.
    fn h_sampler_times() {
        let sample: Vec<f32> = (0..9).map(|_| any_f32("sample", -8.0, 8.0)).collect();
        let mut d = Deck::stereo(sample, (0..9).map(|k| if k == 4 { any_f32("other", -8.0, 8.0) } else { k as f32 }).collect(), 8);
        let begin = pick("begin", 0, 2);
        if begin > 0 { d.plain(begin); }
        let start = pick("start", 0, 3);
        let from = pick("from", 0, 1) * 2;
        let enable = [99, begin, 4, 7, 9][pick("enable", 0, 4)];
        let cancel = [99, 8, 11][pick("cancel", 0, 2)];
        let stop = [99, 6, 12][pick("stop", 0, 2)];
        d.s.start_from_position_at_time(at(start), at(from));
        if enable < 99 { d.s.enable_loop_at_time(at(enable), at(1), at(4)); }
        if cancel < 99 { d.s.cancel_loop_at_time(at(cancel)); }
        if stop < 99 { d.s.stop_at_time(at(stop)); }
        let mut happens = move |m: &mut Model, now: usize| {
            if now == start.max(begin) { m.start(now, from + now - start); }
            if now == enable { m.lp = Some((1, 4)); }
            if now == cancel { m.lp = None; }
            if now == stop { m.stop(now); }
        };
        let cut = pick("cut", 1, 5);
        d.play(cut, &mut happens); d.play(6 - cut, &mut happens); d.play(8, &mut happens);
        reach("end");
    }

    /// Cancelling everything: what was asked for before doesn't happen, what is asked for after does.
    fn h_sampler_cancel_all() {
        let sample: Vec<f32> = (0..9).map(|_| any_f32("sample", -8.0, 8.0)).collect();
        let mut d = Deck::new(sample, 4);
        let first = pick("first", 0, 2);
        if first > 0 { d.act([1, 3][first - 1]); }
        d.plain(2);
        let a = pick("a", 2, 6);
        match pick("ahead", 0, 3) { 0 => d.s.start_from_position_at_time(at(a), at(2)), 1 => d.s.stop_at_time(at(a)), 2 => d.s.enable_loop_at_time(at(a), at(1), at(3)), _ => d.s.cancel_loop_at_time(at(a)) }
        if pick("between", 0, 1) == 1 && a > 3 { d.plain(1); }
        d.act(9);
        let last = pick("last", 0, 2);
        if last > 0 { d.act([1, 6][last - 1]); }
        d.plain(4); d.plain(4); d.plain(4);
        reach("end");
    }

    /// Starting at any time from any position: the position that is heard, to within a sample.
    fn h_sampler_any_time() {
        let n = 10;
        let sample: Vec<f32> = (0..n).map(|k| k as f32 + 1.0).collect();
        let mut d = Deck::new(sample, 8);
        let gone = pick("gone", 0, 1) * 2;
        if gone > 0 { d.plain(gone); }
        let (t, p) = match pick("unknown", 0, bound(1, 2)) { 2 => (grid("time", 0, 3), grid("position", 0, 4)), 0 => (grid("time", 0, 5), [0.0, 2.0, 3.75][pick("position", 0, 2)]), _ => ([0.0, 2.0, 3.25][pick("time", 0, 2)], grid("position", 0, 6)) };
        d.s.start_from_position_at_time(Timestamp::from_samples(t, SR), Timestamp::from_samples(p, SR));
        let cut = pick("cut", 1, 4);
        let mut y: Vec<f32> = vec![];
        for k in [cut, 5 - cut, 8, 4] { y.extend_from_slice(&d.r.silent_block(1, k)[0]); }
        for f in 0..y.len() {
            let now = (gone + f) as f64;
            let pos = p + now - t;
            let v = y[f] as f64;
            check((now >= t - 1.01) | (v == 0.0), "nothing before its time");
            check((now < t + FADE as f64 + 1.0) | (f < FADE + 1) | (pos >= n as f64 - 1.01) | ((v - (pos + 1.0)).abs() <= 1.001), "the position that is due, to within a sample");
            check((pos < n as f64 + 1.01) | (v == 0.0), "silence when the sample is over");
        }
        reach("end");
    }

    /// Loops between any two points: the position stays inside and goes round at the length of the loop.
    fn h_sampler_any_loop() {
        let sr = 16; // where a fade is one sample
        let n = 9;
        let mut r = Rig::new(sr, 1, 8);
        let mut b = OwnedAudioBuffer::new(n, 1, sr);
        for f in 0..n { b.set_sample(SampleLocation::new(0, f), f as f32); } // nothing at the beginning, which isn't faded in
        let mut s = Sampler::new(r.ctx.as_ref(), b);
        s.node.connect_to_output();
        r.ctx.start();
        let (ls, le) = match pick("unknown", 0, bound(1, 2)) { 2 => (grid("from", 0, 2), grid("to", 4, 6)), 0 => (grid("from", 0, 2), [4.0, 6.4][pick("to", 0, 1)]), _ => ([0.0, 1.0, 1.7][pick("from", 0, 2)], grid("to", 4, 8)) };
        s.start_now();
        s.enable_loop(Timestamp::from_samples(ls, sr), Timestamp::from_samples(le, sr));
        let y = r.silent_run(1, &[3, 8, 2, 7]);
        let len = le - ls;
        for f in 0..20 {
            let v = y[0][f] as f64;
            let g = f as f64;
            check((v >= -0.001) & ((v >= ls - 1.001) | (g < le + 1.001)) & (v <= le + 1.001), "stays inside the loop");
            check(((v - g).abs() <= 1.001) | ((v - g + len).abs() <= 1.001) | ((v - g + 2.0 * len).abs() <= 1.001) | ((v - g + 3.0 * len).abs() <= 1.001) | ((v - g + 4.0 * len).abs() <= 1.001)
                | ((v - g + 5.0 * len).abs() <= 1.001) | ((v - g + 6.0 * len).abs() <= 1.001) | ((v - g + 7.0 * len).abs() <= 1.001) | ((v - g + 8.0 * len).abs() <= 1.001) | ((v - g + 9.0 * len).abs() <= 1.001), "goes round at the length of the loop");
        }
        reach("end");
    }

    /// Jumps within a fade: never louder than the fades allow, and the last start is heard.
    fn h_sampler_dense() {
        let sr = 100; // where a fade is 5 samples
        let mut r = Rig::new(sr, 1, 8);
        let level = any_f32("level", 0.25, 4.0);
        let mut b = OwnedAudioBuffer::new(40, 1, sr);
        for f in 0..40 { b.set_sample(SampleLocation::new(0, f), level); }
        let mut s = Sampler::new(r.ctx.as_ref(), b);
        s.node.connect_to_output();
        r.ctx.start();
        let mut y: Vec<f32> = vec![];
        let mut on = false;
        for _ in 0..bound(4, 5) {
            let now = Timestamp::zero();
            let stop = match pick("action", 0, 3) { 0 => { s.start_now(); on = true; false } 1 => { s.start_from_position_at_time(now, Timestamp::from_samples(3.0, sr)); on = true; false } 2 => { s.stop_now(); on = false; true } _ => false };
            let before = if y.is_empty() { 0.0 } else { y[y.len() - 1] };
            y.extend_from_slice(&r.silent_block(1, pick("frames", 1, 2))[0]);
            if stop { let v = y[y.len() - 1]; check((v <= before + 0.33 * level) & (v >= -1e-5), "stopping makes it louder by no more than a step of the fade"); }
        }
        y.extend_from_slice(&r.silent_block(1, 5)[0]);
        for v in &y { check((*v >= -1e-5) & (*v <= 2.001 * level), "no more than a voice that comes and one that goes"); }
        let y = r.silent_block(1, 3);
        for v in &y[0] { check(if on { (*v - level).abs() <= 1e-5 } else { *v == 0.0 }, "after the fades what was asked for last is heard"); }
        reach("end");
    }
}
