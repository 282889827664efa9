//! C09 buffers and views, C10 interleaving.
use crate::rig::*;

const SR: usize = 48_000;
type M = Vec<Vec<f32>>;

fn filled(name: &str, channels: usize, frames: usize) -> (OwnedAudioBuffer, M) {
    let m: M = (0..channels).map(|_| (0..frames).map(|_| any_f32(name, -1000.0, 1000.0)).collect()).collect();
    let mut b = OwnedAudioBuffer::new(frames, channels, SR);
    for c in 0..channels { for f in 0..frames { b.set_sample(SampleLocation::new(c, f), m[c][f]); } }
    (b, m)
}

fn compare(b: &dyn AudioBuffer, m: &M, what: &str) {
    for c in 0..m.len() { for f in 0..m[c].len() { let y = b.get_sample(SampleLocation::new(c, f)); check(same(y, m[c][f]), what); observe(y); } }
}

/// A view of a buffer: where it starts and how large it is.
#[derive(Clone, Copy)]
struct View { c: usize, f: usize, nc: usize, nf: usize }

/// One operation on `b`, which shows the part `v` of the samples `m`.
fn operate(b: &mut dyn AudioBuffer, v: View, m: &mut M) {
    check((b.channel_count() == v.nc) & (b.frame_count() == v.nf), "a view has the size it was made with");
    check(b.sample_rate() == SR, "a view has the sample rate of its buffer");
    for c in 0..v.nc { let d = b.get_channel_data(SampleLocation::new(c, v.nf / 2)); check(d.len() == v.nf - v.nf / 2, "channel data reaches to the end of the view"); }
    for c in 0..v.nc { for f in 0..v.nf { check(same(b.get_sample(SampleLocation::new(c, f)), m[v.c + c][v.f + f]), "reading through a view"); } }
    let op = pick("operation", 0, 10);
    let (src, s) = if (3..=5).contains(&op) { filled("s", 2, 3) } else { (OwnedAudioBuffer::new(0, 0, SR), vec![]) };
    let g = any_f32("value", -100.0, 100.0);
    match op {
        0 => { let (c, f) = (pick("channel", 0, v.nc - 1), pick("frame", 0, v.nf - 1)); b.set_sample(SampleLocation::new(c, f), g); m[v.c + c][v.f + f] = g; }
        1 => { let (c, f) = (pick("channel", 0, v.nc - 1), pick("frame", 0, v.nf - 1)); b.add_sample(SampleLocation::new(c, f), g); m[v.c + c][v.f + f] += g; }
        2 => { b.clear(); for c in 0..v.nc { for f in 0..v.nf { m[v.c + c][v.f + f] = 0.0; } } }
        3..=5 => {
            let (sc, sf) = (pick("source_channel", 0, 1), pick("source_frame", 0, 1));
            let nc = pick("channels", 0, v.nc.min(2 - sc)); let nf = pick("frames", 0, v.nf.min(3 - sf));
            let dc = pick("destination_channel", 0, v.nc - nc.max(1)); let df = pick("destination_frame", 0, v.nf - nf.max(1));
            let (a, d) = (SampleLocation::new(sc, sf), SampleLocation::new(dc, df));
            if op == 3 { b.copy_from(&src, a, d, nc, nf) } else if op == 4 { b.add_from(&src, a, d, nc, nf) } else { b.add_from_with_gain(&src, a, d, nc, nf, g) }
            for c in 0..nc { for f in 0..nf {
                let t = &mut m[v.c + dc + c][v.f + df + f]; let x = s[sc + c][sf + f];
                *t = if op == 3 { x } else if op == 4 { *t + x } else { *t + x * g };
            } }
        }
        6 => { let c = pick("channel", 0, v.nc - 1); b.fill_channel_with_value(c, g); for f in 0..v.nf { m[v.c + c][v.f + f] = g; } }
        7 => { b.fill_with_value(g); for c in 0..v.nc { for f in 0..v.nf { m[v.c + c][v.f + f] = g; } } }
        8 => {
            let (from, to) = (pick("from_channel", 0, v.nc - 1), pick("to_channel", 0, v.nc - 1));
            let f0 = pick("frame", 0, v.nf - 1); let n = pick("frames", 0, v.nf - f0);
            b.duplicate_channel(SampleLocation::new(from, f0), to, n);
            for f in f0..f0 + n { m[v.c + to][v.f + f] = m[v.c + from][v.f + f]; }
        }
        9 => {
            let c = pick("channel", 0, v.nc - 1); let f0 = pick("frame", 0, v.nf - 1);
            let data: Vec<f32> = (0..v.nf - f0).map(|_| any_f32("data", -1.0, 1.0)).collect();
            b.fill_from_slice(&data, SampleLocation::new(c, f0));
            for f in f0..v.nf { m[v.c + c][v.f + f] = data[f - f0]; }
        }
        _ => {
            let gains: Vec<f32> = (0..v.nf).map(|_| any_f32("gain", -4.0, 4.0)).collect();
            for x in &gains { assume((*x > 0.01) | (*x < -0.01)); assume((*x < 0.99) | (*x > 1.01)); }
            b.apply_gain(&gains);
            for c in 0..v.nc { for f in 0..v.nf { m[v.c + c][v.f + f] *= gains[f]; } }
        }
    }
    for c in 0..v.nc {
        let mut silent = true; for f in 0..v.nf { silent &= m[v.c + c][v.f + f] == 0.0; }
        if c == 0 { check(b.channel_is_silent(c) == silent, "a channel is silent iff all its samples are zero"); }
    }
}

harnesses! {
    /// Every operation, with every location and size, on a buffer and on every kind of (nested) view of it.
    fn h_buffer_ops() {
        let (mut b, mut m) = filled("m", 3, 4);
        let whole = View { c: 0, f: 0, nc: 3, nf: 4 };
        match pick("view", 0, 5) {
            0 => operate(&mut b, whole, &mut m),
            1 => { let f = pick("offset", 0, 2); let nf = pick("view_frames", 1, 4 - f); operate(&mut MutableBorrowedAudioBuffer::slice_frames(&mut b, f, nf), View { f, nf, ..whole }, &mut m) }
            2 => { let c = pick("offset", 0, 2); let nc = pick("view_channels", 1, 3 - c); operate(&mut MutableBorrowedAudioBuffer::slice_channels(&mut b, c, nc), View { c, nc, ..whole }, &mut m) }
            3 => { let nf = pick("view_frames", 1, 4); let nc = pick("view_channels", 1, 3); operate(&mut MutableBorrowedAudioBuffer::slice_channels_and_frames(&mut b, nf, nc), View { nc, nf, ..whole }, &mut m) }
            4 => {
                let f = pick("offset", 0, 2);
                let mut v = MutableBorrowedAudioBuffer::slice_frames(&mut b, f, 4 - f);
                let c = pick("channel_offset", 0, 1); let nc = pick("view_channels", 1, 2);
                operate(&mut MutableBorrowedAudioBuffer::slice_channels(&mut v, c, nc), View { f, nf: 4 - f, c, nc }, &mut m)
            }
            _ => {
                let c = pick("channel_offset", 0, 1);
                let mut v = MutableBorrowedAudioBuffer::slice_channels(&mut b, c, 2);
                let f = pick("offset", 0, 2); let nf = pick("view_frames", 1, 2);
                operate(&mut MutableBorrowedAudioBuffer::slice_frames(&mut v, f, nf), View { f, nf, c, nc: 2 }, &mut m)
            }
        }
        compare(&b, &m, "the operation changes exactly what it names");
        reach("end");
    }

    /// Reading through every kind of (nested) immutable view, and copying out of it.
    fn h_buffer_read() {
        let (b, m) = filled("m", 3, 4);
        let whole = View { c: 0, f: 0, nc: 3, nf: 4 };
        fn look(b: &dyn AudioBuffer, v: View, m: &M) {
            check((b.channel_count() == v.nc) & (b.frame_count() == v.nf) & (b.sample_rate() == SR), "a view has the size it was made with");
            check(close64(b.length_in_seconds(), v.nf as f64 / SR as f64, 1e-12), "length in seconds");
            let copy = OwnedAudioBuffer::from_buffer(b);
            check((copy.channel_count() == v.nc) & (copy.frame_count() == v.nf) & (copy.sample_rate() == SR), "a copy has the size of the original");
            for c in 0..v.nc {
                for f in 0..v.nf {
                    let e = m[v.c + c][v.f + f];
                    check(same(b.get_sample(SampleLocation::new(c, f)), e), "reading through a view"); check(same(copy.get_sample(SampleLocation::new(c, f)), e), "a copy of a view has its samples"); observe(e);
                    let d = b.get_channel_data(SampleLocation::new(c, f)); check(d.len() == v.nf - f, "channel data reaches to the end of the view"); check(same(d[d.len() - 1], m[v.c + c][v.f + v.nf - 1]), "channel data");
                }
                let silent = (0..v.nf).fold(true, |s, f| s & (m[v.c + c][v.f + f] == 0.0));
                check(b.channel_is_silent(c) == silent, "a channel is silent iff all its samples are zero");
            }
        }
        match pick("view", 0, 5) {
            0 => look(&b, whole, &m),
            1 => { let f = pick("offset", 0, 2); let nf = pick("view_frames", 1, 4 - f); look(&BorrowedAudioBuffer::slice_frames(&b, f, nf), View { f, nf, ..whole }, &m) }
            2 => { let c = pick("offset", 0, 2); let nc = pick("view_channels", 1, 3 - c); look(&BorrowedAudioBuffer::slice_channels(&b, c, nc), View { c, nc, ..whole }, &m) }
            3 => { let nf = pick("view_frames", 1, 4); let nc = pick("view_channels", 1, 3); look(&BorrowedAudioBuffer::slice_channels_and_frames(&b, nf, nc), View { nc, nf, ..whole }, &m) }
            4 => { let f = pick("offset", 0, 2); let v = BorrowedAudioBuffer::slice_frames(&b, f, 4 - f); let c = pick("channel_offset", 0, 1); let nc = pick("view_channels", 1, 2); look(&BorrowedAudioBuffer::slice_channels(&v, c, nc), View { f, nf: 4 - f, c, nc }, &m) }
            _ => { let c = pick("channel_offset", 0, 1); let v = BorrowedAudioBuffer::slice_channels(&b, c, 2); let f = pick("offset", 0, 2); let nf = pick("view_frames", 1, 2); look(&BorrowedAudioBuffer::slice_frames(&v, f, nf), View { f, nf, c, nc: 2 }, &m) }
        }
        reach("end");
    }

    /// Long buffers (beyond the vector length) at any alignment: mixing, scaled mixing, gain, copying.
    fn h_buffer_long() {
        let n = 37; let k = 3;
        let (mut b, mut m) = (OwnedAudioBuffer::new(n + k, 2, SR), vec![vec![0.0f32; n + k]; 2]);
        let (s, x) = filled("s", 1, n);
        let hot = any_f32("m", -1000.0, 1000.0);
        for c in 0..2 { for f in 0..n + k { let v = if f % 5 == 0 { hot } else { f as f32 }; b.set_sample(SampleLocation::new(c, f), v); m[c][f] = v; } }
        let off = pick("offset", 0, k); let so = pick("source_offset", 0, 1); let ch = pick("channel", 0, 1);
        let len = [n - 1, 17, 16][pick("length", 0, 2)];
        let g = any_f32("gain", -4.0, 4.0);
        assume((g > 0.01) | (g < -0.01)); assume((g < 0.99) | (g > 1.01));
        let op = pick("operation", 0, 4);
        let (a, d) = (SampleLocation::new(0, so), SampleLocation::new(ch, off));
        // unless it is about 0 or 1, which are short cuts
        if op == 3 { for f in 0..len { let v = x[0][so + f]; assume((v > 0.01) | (v < -0.01)); assume((v < 0.99) | (v > 1.01)); } }
        match op {
            0 => b.copy_from(&s, a, d, 1, len),
            1 => b.add_from(&s, a, d, 1, len),
            2 => b.add_from_with_gain(&s, a, d, 1, len, g),
            3 => MutableBorrowedAudioBuffer::slice_channels(&mut MutableBorrowedAudioBuffer::slice_frames(&mut b, off, len), ch, 1).apply_gain(&x[0][so..so + len]),
            _ => b.duplicate_channel(SampleLocation::new(ch, off), 1 - ch, len),
        }
        for f in 0..len {
            let v = x[0][so + f];
            match op { 0 => m[ch][off + f] = v, 1 => m[ch][off + f] += v, 2 => m[ch][off + f] += v * g, 3 => { m[ch][off + f] *= v }, _ => m[1 - ch][off + f] = m[ch][off + f] }
        }
        compare(&b, &m, "the operation changes exactly what it names (long buffers)");
        reach("end");
    }

    /// Filling from and copying to interleaved data with any channel and frame counts, and the way back.
    fn h_interleave() {
        let (bc, bf) = (pick("buffer_channels", 1, bound(3, 4)), pick("buffer_frames", 1, bound(3, 4)));
        let (cc, fc) = (pick("channels", 1, bound(3, 4)), pick("frames", 0, bound(3, 4)));
        let extra = pick("spare", 0, 1);
        let (mut b, mut m) = filled("m", bc, bf);
        let data: Vec<f32> = (0..cc * fc + extra).map(|_| any_bits32("d")).collect();
        b.fill_from_interleaved(&data, cc, fc);
        for c in 0..bc.min(cc) { for f in 0..bf.min(fc) { m[c][f] = data[f * cc + c]; } }
        compare(&b, &m, "filling from interleaved data");
        let sentinel = any_f32("old", -5.0, 5.0);
        let mut out = vec![sentinel; cc * fc + extra];
        b.copy_to_interleaved(&mut out, cc, fc);
        for i in 0..out.len() {
            if i >= cc * fc { check(out[i] == sentinel, "nothing is written behind the interleaved data"); continue; }
            let (f, c) = (i / cc, i % cc);
            if c < bc && f < bf { check(same(out[i], m[c][f]), "copying to interleaved data"); check(same(out[i], data[i]), "round trip"); }
            else { check((out[i] == sentinel) | (out[i] == 0.0), "what the buffer does not have is left alone"); }
            observe(out[i]);
        }
        reach("end");
    }

    /// Buffers built from slices and other buffers.
    fn h_buffer_build() {
        let n = pick("frames", 1, 3); let ch = pick("channels", 1, 3);
        let data: Vec<f32> = (0..n).map(|_| any_bits32("d")).collect();
        match pick("what", 0, 3) {
            0 => {
                let b = OwnedAudioBuffer::from_slice(&data, ch, SR);
                check((b.channel_count() == ch) & (b.frame_count() == n) & (b.sample_rate() == SR), "a buffer made from a slice has the channels asked for");
                for c in 0..ch { for f in 0..n { check(same(b.get_sample(SampleLocation::new(c, f)), data[f]), "a buffer made from a slice has its samples on every channel"); } }
                reach("slice");
            }
            1 => {
                let (a, m) = filled("a", ch, n); let (b, k) = filled("b", ch, 2);
                let e = a.extended_with_buffer(&b);
                check((e.channel_count() == ch) & (e.frame_count() == n + 2), "size of an extended buffer");
                for c in 0..ch { for f in 0..n + 2 { check(same(e.get_sample(SampleLocation::new(c, f)), if f < n { m[c][f] } else { k[c][f - n] }), "an extended buffer has the samples of both"); } }
                compare(&a, &m, "the original stays as it was");
            }
            2 => {
                let (a, m) = filled("a", ch, n); let to = n + pick("padding", 0, 3);
                let e = a.padded_to_length(to);
                check((e.channel_count() == ch) & (e.frame_count() == to), "size of a padded buffer");
                for c in 0..ch { for f in 0..to { check(same(e.get_sample(SampleLocation::new(c, f)), if f < n { m[c][f] } else { 0.0 }), "padding is silent"); } }
            }
            _ => {
                let b = OwnedAudioBuffer::new(n, ch, SR);
                for c in 0..ch { for f in 0..n { check(b.get_sample(SampleLocation::new(c, f)) == 0.0, "a new buffer is silent"); } }
                let mut seen = vec![vec![0; n]; ch]; let mut total = 0;
                for l in b.frame_iter() { seen[l.channel][l.frame] += 1; total += 1; }
                check((total == n * ch) & seen.iter().all(|c| c.iter().all(|k| *k == 1)), "the iterator visits every sample once");
            }
        }
        reach("end");
    }
}
