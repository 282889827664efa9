//! Common pieces of the harnesses.
pub use crate::sym::*;
pub use rawdio::prelude::*;
pub use rawdio::*;

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}

pub struct Rig { pub ctx: Box<dyn Context>, pub proc: Box<dyn AudioProcess + Send>, pub sr: usize }

impl Rig {
    pub fn new(sr: usize, max_channels: usize, max_frames: usize) -> Self {
        let (ctx, proc) = create_engine_with_options(EngineOptions::default().with_sample_rate(sr).with_maximum_channel_count(max_channels).with_maximum_frame_count(max_frames));
        Rig { ctx, proc, sr }
    }
    /// Process one block; input[channel][frame]; returns output[channel][frame].
    pub fn block(&mut self, input: &[Vec<f32>], out_channels: usize, frames: usize) -> Vec<Vec<f32>> {
        let mut inp = OwnedAudioBuffer::new(frames, input.len().max(1), self.sr);
        for (c, ch) in input.iter().enumerate() { for (f, s) in ch.iter().enumerate() { inp.set_sample(SampleLocation::new(c, f), *s); } }
        let mut out = OwnedAudioBuffer::new(frames, out_channels, self.sr);
        // stale content must never survive
        for c in 0..out_channels { for f in 0..frames { out.set_sample(SampleLocation::new(c, f), 77.0); } }
        self.proc.process(&inp, &mut out);
        (0..out_channels).map(|c| (0..frames).map(|f| out.get_sample(SampleLocation::new(c, f))).collect()).collect()
    }
    pub fn silent_block(&mut self, out_channels: usize, frames: usize) -> Vec<Vec<f32>> { self.block(&[vec![0.0; frames]], out_channels, frames) }
    pub fn silent_run(&mut self, channels: usize, blocks: &[usize]) -> Vec<Vec<f32>> {
        let mut res = vec![vec![]; channels];
        for &b in blocks { let o = self.silent_block(channels, b); for c in 0..channels { res[c].extend_from_slice(&o[c]); } }
        res
    }
    /// Process several blocks, splitting the input accordingly.
    pub fn run(&mut self, input: &[Vec<f32>], out_channels: usize, blocks: &[usize]) -> Vec<Vec<f32>> {
        let mut res = vec![vec![]; out_channels]; let mut at = 0;
        for &b in blocks { let part: Vec<Vec<f32>> = input.iter().map(|c| c[at..at + b].to_vec()).collect(); let o = self.block(&part, out_channels, b); for c in 0..out_channels { res[c].extend_from_slice(&o[c]); } at += b; }
        res
    }
}

pub fn sym_signal(name: &str, channels: usize, frames: usize, m: f32) -> Vec<Vec<f32>> { (0..channels).map(|_| (0..frames).map(|_| any_f32(name, -m, m)).collect()).collect() }
