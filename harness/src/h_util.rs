//! C11 timestamps, C23 levels.
use crate::rig::*;
const TICK: f64 = 1.0 / 4294967296.0;

harnesses! {
    /// Seconds to timestamp and back, order and arithmetic.
    fn h_timestamp() {
        let a = any_f64("a", -1.0e6, 1.0e6); let b = any_f64("b", -1.0e6, 1.0e6);
        let (ta, tb) = (Timestamp::from_seconds(a), Timestamp::from_seconds(b));
        check(close64(ta.as_seconds(), a, TICK), "seconds to timestamp and back, to one tick");
        if a <= b { check(ta <= tb, "conversion is monotone"); check(ta.as_seconds() <= tb.as_seconds(), "order agrees with the time"); reach("ordered"); }
        if ta < tb { check(a < b, "order agrees with the time"); }
        let sum = ta + tb;
        check(sum - tb == ta, "subtraction undoes addition");
        check((ta - tb) + tb == ta, "addition undoes subtraction");
        check(sum == tb + ta, "addition commutes");
        check(ta + Timestamp::zero() == ta, "zero is neutral");
        check(close64(sum.as_seconds(), a + b, 4.0 * TICK), "the sum is the sum of the times");
        check(ta.incremented_by_seconds(b) == sum, "incrementing by seconds adds");
        reach("end");
    }
    /// Samples to timestamp and back at the usual rates.
    fn h_timestamp_samples() {
        let sr = [44_100usize, 48_000, 96_000, 8_000, 192_000][pick("sample_rate", 0, bound(2, 4))];
        let n = any_usize("samples", 0, 1 << bound(24, 32));
        let t = Timestamp::from_samples(n as f64, sr);
        check(close64(t.as_seconds() * sr as f64, n as f64, TICK * sr as f64 + 1e-4), "samples to timestamp and back, to one tick");
        check(close64(t.as_samples(sr), n as f64, TICK * sr as f64 + 1e-4), "as_samples");
        check(t.as_samples(sr).round() as usize == n, "rounding gives the sample number back");
        reach("end");
    }
    fn h_timestamp_increment() {
        let sr = [44_100usize, 48_000, 96_000][pick("sample_rate", 0, 2)];
        let a = any_f64("a", 0.0, 1.0e5);
        let n = any_usize("samples", 0, 1 << 24);
        let t = Timestamp::from_seconds(a);
        let u = t.incremented_by_samples(n, sr);
        check(u == t + Timestamp::from_samples(n as f64, sr), "incrementing by samples adds their time");
        check(u >= t, "incrementing never goes back");
        check(close64(u.as_seconds(), a + n as f64 / sr as f64, 3.0 * TICK), "incrementing by samples");
        reach("end");
    }
    /// Beats at a tempo.
    fn h_timestamp_beats() {
        let tempo = [60.0, 120.0, 90.0, 133.0, 174.5][pick("tempo", 0, bound(3, 4))];
        let beats = any_f64("beats", 0.0, 1.0e5);
        let t = Timestamp::from_beats(beats, tempo);
        check(close64(t.as_seconds(), beats * 60.0 / tempo, TICK + 1e-9), "beats to seconds");
        check(close64(t.as_beats(tempo), beats, (TICK + 1e-9) * tempo / 60.0), "beats to timestamp and back");
        let s = any_f64("start", 0.0, 1000.0);
        let u = Timestamp::from_seconds(s);
        check(u.incremented_by_beats(beats, tempo) == u + t, "incrementing by beats adds their time");
        reach("end");
    }
    /// Linear levels: as they were put in, order, clamping, zero and unity.
    fn h_level_linear() {
        let a = any_f64("a", 0.0, 1000.0); let b = any_f64("b", 0.0, 1000.0);
        let (la, lb) = (Level::from_linear(a), Level::from_linear(b));
        check(la.as_linear() == a, "linear levels are kept");
        check(la.as_linear_f32() == a as f32, "linear levels are kept");
        if a <= b {
            let c = Level::from_linear(any_f64("c", 0.0, 1000.0)).clamp(&la, &lb).as_linear();
            check((c >= a) & (c <= b), "clamping");
        }
        check(Level::zero().as_linear() == 0.0, "zero"); check(Level::unity().as_linear() == 1.0, "unity");
        check(Level::zero().is_zero(), "zero is zero"); check(Level::unity().is_unity(), "unity is unity");
        if la.is_zero() { check(a <= 1e-9, "only silence is zero"); }
        if la.is_unity() { check(close64(a, 1.0, 1e-9), "only unity is unity"); }
        check((la < lb) == (a < b), "order of levels");
        reach("end");
    }
    /// Decibels to linear: monotone, silence at -128 dB, finite and never negative.
    fn h_level_from_db() {
        let a = any_f64("a", -200.0, 200.0); let b = any_f64("b", -200.0, 200.0);
        let (la, lb) = (Level::from_db(a).as_linear(), Level::from_db(b).as_linear());
        check(la >= 0.0, "never negative nor NaN");
        if a <= -128.0 { check(la == 0.0, "-128 dB and below is silence"); reach("silent"); } else { check(la > 0.0, "above -128 dB is not silence"); reach("audible"); }
        if a <= b { check(la <= lb, "monotone"); reach("ordered"); }
        if a < 0.0 { check(la <= 1.0, "below 0 dB is at most unity"); }
        if a > 0.0 { check(la >= 1.0, "above 0 dB is at least unity"); }
        check(Level::from_db(0.0).as_linear() == 1.0, "0 dB is unity");
        check(Level::from_db_f32(0.0).as_linear() == 1.0, "0 dB is unity");
        check(Level::from_db(f64::NEG_INFINITY).as_linear() == 0.0, "-inf dB is silence");
        reach("end");
    }
    /// Linear to decibels: monotone, never below -128 dB.
    fn h_level_as_db() {
        let tiny = pick("nearly_silent", 0, 1) == 1;
        let a = if tiny { any_f64("a", 0.0, 1.0e-12) } else { any_f64("a", 1.0e-12, 1.0e6) }; let b = any_f64("b", 1.0e-12, 1.0e6);
        let (da, db) = (Level::from_linear(a).as_db(), Level::from_linear(b).as_db());
        check(da >= -128.0, "never below -128 dB nor NaN");
        if a <= b { check(da <= db, "monotone"); reach("ordered"); }
        check(Level::zero().as_db() == -128.0, "silence is -128 dB");
        check(Level::unity().as_db() == 0.0, "unity is 0 dB");
        if a < 1.0 { check(da <= 0.0, "below unity is at most 0 dB"); }
        if a > 1.0 { check(da >= 0.0, "above unity is at least 0 dB"); }
        reach("end");
    }
    /// Both ways, on a grid of levels.
    fn h_level_round_trip() {
        let k = pick("half_db", 0, bound(80, 640));
        let d = -127.75 + k as f64 * if thorough() { 0.25 } else { 2.0 };
        let l = Level::from_db(d);
        check(close64(l.as_db(), d, 1e-6), "decibels to linear and back");
        check(close64(Level::from_db_f32(d as f32).as_db(), d, 1e-4), "decibels to linear and back");
        check(close64(Level::from_db(l.as_db()).as_linear(), l.as_linear(), 1e-6 * l.as_linear()), "linear to decibels and back");
        reach("end");
    }
}
