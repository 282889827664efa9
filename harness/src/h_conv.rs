//! C22 convolution.
use crate::rig::*;

fn impulse_of(h: &[Vec<f32>]) -> OwnedAudioBuffer {
    let mut b = OwnedAudioBuffer::new(h[0].len(), h.len(), 48_000);
    for c in 0..h.len() { for f in 0..h[c].len() { b.set_sample(SampleLocation::new(c, f), h[c][f]); } }
    b
}
fn plain(k: usize, c: usize) -> f32 { [1.0, -0.5, 0.25, 0.75, -1.0, 0.125, 0.5, -0.25, 0.375][(k * 2 + c * 3) % 9] }

struct Hall { r: Rig, conv: Convolution, h: Vec<Vec<f32>>, fed: Vec<Vec<f32>> }
impl Hall {
    fn new(h: Vec<Vec<f32>>, max_frames: usize) -> Hall {
        let mut r = Rig::new(48_000, h.len(), max_frames);
        let conv = Convolution::new(r.ctx.as_ref(), h.len(), impulse_of(&h));
        conv.node.connect_to_input();
        conv.node.connect_to_output();
        r.ctx.start();
        let fed = vec![vec![]; h.len()];
        Hall { r, conv, h, fed }
    }
    fn feed(&mut self, x: &[Vec<f32>], from: usize, n: usize, wet: &dyn Fn(usize) -> f32, dry: &dyn Fn(usize) -> f32) {
        let part: Vec<Vec<f32>> = x.iter().map(|c| c[from..from + n].to_vec()).collect();
        for c in 0..self.h.len() { self.fed[c].extend_from_slice(&part[c]); }
        let y = self.r.block(&part, self.h.len(), n);
        for c in 0..self.h.len() { for f in 0..n {
            let now = from + f;
            let mut sum = 0.0;
            for k in 0..self.h[c].len() { if k <= now { sum += self.h[c][k] * self.fed[c][now - k]; } }
            let v = y[c][f];
            check((v - (sum * wet(now) + self.fed[c][now] * dry(now))).abs() <= 1e-3, "the convolution sum of everything heard so far, and the input, as wet and dry say");
        } }
    }
}

harnesses! {
    /// Any signal, for impulse responses and blocks of many lengths.
    fn h_conv_signal() {
        let max = pick("max", 1, bound(4, 5));
        let len = pick("length", 1, bound(5, 9));
        let ch = pick("channels", 1, 2);
        let h: Vec<Vec<f32>> = (0..ch).map(|c| (0..len).map(|k| plain(k, c)).collect()).collect();
        let total = bound(7, 12);
        let x = sym_signal("x", ch, total, 8.0);
        let mut d = Hall::new(h, max);
        let first = pick("first", 1, 3);
        d.feed(&x, 0, first, &|_| 1.0, &|_| 0.0);
        let second = pick("second", 1, 2);
        d.feed(&x, first, second, &|_| 1.0, &|_| 0.0);
        d.feed(&x, first + second, total - first - second, &|_| 1.0, &|_| 0.0);
        reach("end");
    }

    /// Any impulse response, heard through a known signal.
    fn h_conv_impulse() {
        let max = pick("max", 1, 4);
        let len = pick("length", 1, bound(4, 7));
        let h: Vec<Vec<f32>> = sym_signal("h", 1, len, 4.0);
        let total = bound(6, 10);
        let x = vec![(0..total).map(|f| plain(f, 1)).collect::<Vec<f32>>()];
        let mut d = Hall::new(h, max);
        let first = pick("first", 1, total - 1);
        d.feed(&x, 0, first, &|_| 1.0, &|_| 0.0);
        d.feed(&x, first, total - first, &|_| 1.0, &|_| 0.0);
        reach("end");
    }

    /// An unknown sample of the impulse response and one of the signal.
    fn h_conv_both() {
        let at = pick("at", 0, 2);
        let h = vec![(0..3).map(|k| if k == at { any_f32("h", -1.0, 1.0) } else { 0.5 }).collect::<Vec<f32>>()];
        let x = vec![(0..4).map(|f| if f == 1 { any_f32("x", -1.0, 1.0) } else { 0.25 * f as f32 }).collect::<Vec<f32>>()];
        let mut d = Hall::new(h, 2);
        let first = pick("first", 1, 3);
        d.feed(&x, 0, first, &|_| 1.0, &|_| 0.0);
        d.feed(&x, first, 4 - first, &|_| 1.0, &|_| 0.0);
        reach("end");
    }

    /// Impulse responses longer than a block, blocks longer than the longest the engine processes at once.
    fn h_conv_long() {
        let (max, len) = [(1, 17), (8, 3), (16, 16), (16, 17), (5, 30), (16, 33), (8, 9), (32, 1)][pick("sizes", 0, 7)];
        let ch = 1;
        let h: Vec<Vec<f32>> = (0..ch).map(|c| (0..len).map(|k| plain(k, c)).collect()).collect();
        let total = len + 2 * max + 3;
        let edge = pick("edge", 0, bound(2, 4));
        let from = [0, len, max.saturating_sub(2), 2 * max, len + max][edge].min(total - 3);
        let x: Vec<Vec<f32>> = vec![(0..total).map(|f| if f >= from && f < from + 3 { any_f32("x", -8.0, 8.0) } else { plain(f, 2) }).collect()];
        let mut d = Hall::new(h, max);
        let first = [1, max, max + 1, len.min(total - 1)][pick("first", 0, 3)];
        d.feed(&x, 0, first, &|_| 1.0, &|_| 0.0);
        d.feed(&x, first, total - first, &|_| 1.0, &|_| 0.0);
        reach("end");
    }

    /// Wet and dry, any of them and changing inside a block.
    fn h_conv_mix() {
        let ch = pick("channels", 1, 2);
        let h: Vec<Vec<f32>> = (0..ch).map(|c| (0..3).map(|k| plain(k, c)).collect()).collect();
        let x: Vec<Vec<f32>> = (0..ch).map(|c| (0..6).map(|f| plain(f, c + 1)).collect()).collect();
        let mut d = Hall::new(h, 4);
        let (w, e) = (any_f32("wet", 0.0, 1.0), any_f32("dry", 0.0, 1.0));
        d.conv.wet().set_value_now(w as f64);
        d.conv.dry().set_value_now(e as f64);
        let at = pick("at", 1, 5);
        d.conv.wet().set_value_at_time(0.5, Timestamp::from_samples(at as f64, 48_000).incremented_by_seconds(-1e-7));
        d.conv.dry().set_value_at_time(0.25, Timestamp::from_samples(at as f64, 48_000).incremented_by_seconds(-1e-7));
        let wet = move |f: usize| if f >= at { 0.5 } else { w };
        let dry = move |f: usize| if f >= at { 0.25 } else { e };
        let first = pick("first", 1, 3);
        d.feed(&x, 0, first, &wet, &dry);
        d.feed(&x, first, 6 - first, &wet, &dry);
        reach("end");
    }
}
