//! C24 sample rate conversion of buffers.
use crate::rig::*;

harnesses! {
    /// Any samples, rates, sizes and locations.
    fn h_resample() {
        let (from, to) = [(1, 1), (48_000, 48_000), (1, 2), (2, 1), (2, 3), (3, 2), (44_100, 48_000), (48_000, 44_100), (8_000, 48_000), (96_000, 22_050), (5, 1)][pick("rates", 0, 10)];
        let (sf, df) = (pick("source_frames", 1, bound(3, 5)), pick("destination_frames", 1, bound(6, 9)));
        let (so, d0) = (pick("source_frame", 0, 1), pick("destination_frame", 0, 1));
        let ch = pick("channels", 0, 2);
        let (sc, dc) = (pick("source_channel", 0, 2 - ch), pick("destination_channel", 0, 2 - ch));
        let x = sym_signal("x", 2, sf + so, 1000.0); let old = sym_signal("old", 2, df + d0, 1000.0);
        let mut s = OwnedAudioBuffer::new(sf + so, 2, from); let mut d = OwnedAudioBuffer::new(df + d0, 2, to);
        for c in 0..2 { for f in 0..sf + so { s.set_sample(SampleLocation::new(c, f), x[c][f]); } for f in 0..df + d0 { d.set_sample(SampleLocation::new(c, f), old[c][f]); } }
        d.sample_rate_convert_from(&s, SampleLocation::new(sc, so), SampleLocation::new(dc, d0), ch);
        for c in 0..2 { for f in 0..df + d0 {
            let y = d.get_sample(SampleLocation::new(c, f));
            observe(y);
            if c < dc || c >= dc + ch || f < d0 { check(same(y, old[c][f]), "nothing else is changed"); continue; }
            let i = f - d0; let (at, part) = (i * from / to, (i * from % to) as f64 / to as f64);
            let (a, b) = (x[sc + c - dc][so + at.min(sf - 1)], x[sc + c - dc][so + (at + 1).min(sf - 1)]);
            let e = (1.0 - part) * a as f64 + part * b as f64;
            check(close64(y as f64, e, 0.01), "the interpolation between the two samples around its time");
            if part == 0.0 && to % from == 0 { check(y == a, "samples that coincide are kept"); }
            let (lo, hi) = ((0..sf).map(|k| x[sc + c - dc][so + k]).fold(f32::MAX, f32::min), (0..sf).map(|k| x[sc + c - dc][so + k]).fold(f32::MIN, f32::max));
            check((y <= hi + 0.001) & (y >= lo - 0.001), "within the range of the source");
        } }
        for c in 0..2 { for f in 0..sf + so { check(same(s.get_sample(SampleLocation::new(c, f)), x[c][f]), "the source stays as it was"); } }
        reach("end");
    }

    /// Through views, and longer: up and down again gives the samples back.
    fn h_resample_there_and_back() {
        let n = bound(12, 20); let k = pick("factor", 1, 4);
        let x = sym_signal("x", 1, n, 1.0);
        let mut s = OwnedAudioBuffer::new(n + 3, 2, 48_000); for f in 0..n { s.set_sample(SampleLocation::new(1, f + 2), x[0][f]); }
        let mut up = OwnedAudioBuffer::new(n * k + 1, 2, 48_000 * k); let mut back = OwnedAudioBuffer::new(n, 1, 48_000);
        {
            let v = BorrowedAudioBuffer::slice_frames(&s, 2, n); let v = BorrowedAudioBuffer::slice_channels(&v, 1, 1);
            let mut u = MutableBorrowedAudioBuffer::slice_frames(&mut up, 1, n * k);
            u.sample_rate_convert_from(&v, SampleLocation::origin(), SampleLocation::channel(1), 1);
        }
        back.sample_rate_convert_from(&BorrowedAudioBuffer::slice_frames(&up, 1, n * k), SampleLocation::channel(1), SampleLocation::origin(), 1);
        for f in 0..n { let y = back.get_sample(SampleLocation::new(0, f)); check(y == x[0][f], "up by a whole factor and down again gives the samples back"); observe(y); }
        for f in 0..n * k + 1 {
            check(up.get_sample(SampleLocation::new(0, f)) == 0.0, "the other channel stays as it was");
            if f > 0 { let (at, part) = ((f - 1) / k, ((f - 1) % k) as f32 / k as f32); let e = (1.0 - part) * x[0][at] + part * x[0][(at + 1).min(n - 1)]; check(close(up.get_sample(SampleLocation::new(1, f)), e, 1e-4), "interpolated in between"); }
        }
        check(up.get_sample(SampleLocation::new(1, 0)) == 0.0, "what is outside the view stays as it was");
        reach("end");
    }
}
