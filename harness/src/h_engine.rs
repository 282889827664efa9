//! C01 transport and time, C03 order of control operations.
use crate::rig::*;

/// An audio buffer without storage: no channels, any number of frames.
pub struct Silent { pub frames: usize, pub sr: usize }
impl AudioBuffer for Silent {
    fn channel_count(&self) -> usize { 0 }
    fn frame_count(&self) -> usize { self.frames }
    fn sample_rate(&self) -> usize { self.sr }
    fn get_channel_data(&self, _: SampleLocation) -> &[f32] { &[] }
    fn get_channel_data_mut(&mut self, _: SampleLocation) -> &mut [f32] { &mut [] }
    fn duplicate_channel(&mut self, _: SampleLocation, _: usize, _: usize) {}
}

fn time_is(r: &Rig, frames: usize, what: &str) {
    let t = r.ctx.current_time().as_seconds();
    let expect = frames as f64 / r.sr as f64;
    check(close64(t, expect, 1.0 / (1u64 << 31) as f64), what);
}

harnesses! {
    /// Every history of start / stop / process(1 or 3 frames; maximum 2 per block) calls.
    fn h_transport() {
        let mut r = Rig::new(48_000, 2, 2);
        let gain = Gain::new(r.ctx.as_ref(), 2);
        connect_nodes!("input" => gain => "output");
        let n = bound(4, 6);
        let (mut started, mut frames) = (false, 0);
        for _ in 0..n {
            match pick("op", 0, 3) {
                0 => { r.ctx.start(); started = true; }
                1 => { r.ctx.stop(); started = false; }
                k => {
                    let len = if k == 2 { 1 } else { 3 };
                    let x = sym_signal("x", 2, len, 8.0);
                    let y = r.block(&x, 2, len);
                    if started { frames += len; }
                    for c in 0..2 { for f in 0..len {
                        if started { check(y[c][f] == x[c][f], "started: the input comes out"); reach("started"); }
                        else { check(y[c][f] == 0.0, "not started: silence"); reach("stopped"); }
                        observe(y[c][f]);
                    } }
                    time_is(&r, frames, "time = frames processed while started / sample rate");
                }
            }
        }
        time_is(&r, frames, "time only advances while processing a started engine");
        reach("end");
    }

    /// Two process calls of any length at the usual sample rates: the time after each is right and never decreases.
    fn h_time() {
        let sr = [44_100, 48_000, 96_000, 8_000][pick("sample_rate", 0, bound(1, 3))];
        let max = 1usize << 40;
        let (mut ctx, mut proc) = create_engine_with_options(EngineOptions::default().with_sample_rate(sr).with_maximum_channel_count(0).with_maximum_frame_count(max));
        ctx.start();
        // an hour of audio or any power of two up to about a year, plus anything up to 2^16
        let a = (1usize << pick("log2_frames", 4, 36)) + any_usize("extra", 0, 15);
        let b = any_usize("second_call", 0, 63);
        let mut last = ctx.current_time().as_seconds();
        let mut total = 0;
        for n in [a, b] {
            total += n;
            proc.process(&Silent { frames: n, sr }, &mut Silent { frames: n, sr });
            let t = ctx.current_time().as_seconds();
            check(close64(t, total as f64 / sr as f64, 1.0 / (1u64 << 31) as f64), "time = frames / sample rate");
            check(t >= last, "time never decreases");
            check((n < 16) | (t > last), "time advances");
            last = t;
        }
        reach("end");
    }
}
