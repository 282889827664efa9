//! C18 recorder.
use crate::rig::*;
use std::cell::RefCell;
use std::rc::Rc;

struct Desk { r: Rig, rec: Rc<RefCell<Recorder>>, channels: usize, fed: Vec<Vec<f32>> }
impl Desk {
    fn new(sr: usize, channels: usize, max_frames: usize) -> Desk {
        let mut r = Rig::new(sr, channels, max_frames);
        let rec = Recorder::new(r.ctx.as_mut(), channels, sr);
        rec.borrow().node.connect_to_input();
        r.ctx.start();
        Desk { r, rec, channels, fed: vec![vec![]; channels] }
    }
    /// Process n frames of the signal, remembering what was fed in.
    fn feed(&mut self, n: usize, sample: &mut dyn FnMut(usize, usize) -> f32) {
        let at = self.fed[0].len();
        let x: Vec<Vec<f32>> = (0..self.channels).map(|c| (0..n).map(|f| sample(c, at + f)).collect()).collect();
        self.r.block(&x, 1, n);
        for c in 0..self.channels { self.fed[c].extend_from_slice(&x[c]); }
    }
    fn take(&mut self) -> Option<Vec<Vec<f32>>> {
        self.r.ctx.process_notifications();
        let b = self.rec.borrow_mut().take_recording()?;
        check(b.channel_count() == self.channels, "as many channels as the recorder");
        Some((0..self.channels).map(|c| (0..b.frame_count()).map(|f| b.get_sample(SampleLocation::new(c, f))).collect()).collect())
    }
    /// The recording is exactly this stretch of the input.
    fn expect(&mut self, from: usize, to: usize) {
        let got = self.take();
        let got = match got { Some(g) => g, None => { check(from == to, "something was recorded"); return; } };
        check(got[0].len() == to - from, "as long as the recording lasted");
        for c in 0..self.channels { for f in 0..got[0].len() { let v = got[c][f]; check(same(v, self.fed[c][from + f]), "sample for sample what entered the node"); } }
        if to > from { observe(got[0][0]); reach("recorded"); }
    }
}

harnesses! {
    /// Any history of starting and stopping between blocks of any length, any samples.
    fn h_record_history() {
        let ch = pick("channels", 1, 2);
        let mut d = Desk::new(32_768, ch, 4);
        let m = bound(4, 5);
        let mut since: Option<usize> = None; // recording since this frame
        let mut parts: Vec<(usize, usize)> = vec![]; // stretches recorded and not yet taken
        for i in 0..m {
            let now = d.fed[0].len();
            match pick("action", 0, 4) {
                0 => {}
                1 => { d.rec.borrow_mut().record_now(); if since.is_none() { since = Some(now); } }
                2 => { d.rec.borrow_mut().stop_record_now(); if let Some(s) = since.take() { parts.push((s, now)); } }
                3 => { // stopped and started again: one recording, or two in a row
                    d.rec.borrow_mut().stop_record_now(); d.rec.borrow_mut().record_now();
                    if let Some(s) = since.take() { parts.push((s, now)); } since = Some(now);
                }
                _ => { d.rec.borrow_mut().record_now(); d.rec.borrow_mut().stop_record_now(); if let Some(s) = since.take() { parts.push((s, now)); } }
            }
            let n = if i % 2 == 0 { pick("frames", 1, 2) } else { 3 };
            d.feed(n, &mut |_, _| any_f32("x", -8.0, 8.0));
            d.r.ctx.process_notifications();
            check(d.rec.borrow().is_recording() == since.is_some(), "says whether it is recording");
        }
        d.rec.borrow_mut().stop_record_now();
        if let Some(s) = since.take() { parts.push((s, d.fed[0].len())); }
        d.feed(2, &mut |_, _| 0.5);
        let got = d.take();
        let want: Vec<usize> = parts.iter().flat_map(|p| p.0..p.1).collect();
        let got = match got { Some(g) => g, None => { check(want.is_empty(), "something was recorded"); reach("end"); return; } };
        check(got[0].len() == want.len(), "as long as the recordings lasted");
        for c in 0..ch { for (k, f) in want.iter().enumerate() { check(same(got[c][k], d.fed[c][*f]), "sample for sample what entered the node"); } }
        check(d.take().is_none(), "a recording is handed out once");
        reach("end");
    }

    /// Stopping at any time.
    fn h_record_stop_at() {
        let mut d = Desk::new(32_768, 1, 4);
        let before = pick("before", 0, 2);
        if before > 0 { d.feed(before, &mut |_, _| 0.25); }
        d.rec.borrow_mut().record_now();
        let t = any_f64("stop", 0.0, 9.0);
        d.rec.borrow_mut().stop_record_at_time(Timestamp::from_samples(t, 32_768));
        if pick("again", 0, 1) == 1 { d.rec.borrow_mut().stop_record_at_time(Timestamp::from_samples(7.0, 32_768)); }
        let x = sym_signal("x", 1, 10, 8.0);
        let cut = pick("cut", 1, 6);
        let b = before;
        d.feed(cut, &mut |_, f| x[0][f - b]); d.feed(6 - cut + 1, &mut |_, f| x[0][f - b]); d.feed(3, &mut |_, f| x[0][f - b]);
        d.r.ctx.process_notifications();
        check(!d.rec.borrow().is_recording(), "stopped");
        let got = d.take().unwrap_or(vec![vec![]]);
        let n = got[0].len() as f64 + before as f64;
        check((n <= t + 1.0) | (n <= before as f64), "no later than a sample after the time");
        check(n >= if t < 7.0 { t - 1.0 } else { 6.0 }, "no earlier than a sample before the time");
        for f in 0..got[0].len() { check(same(got[0][f], d.fed[0][before + f]), "sample for sample what entered the node"); }
        reach("end");
    }

    /// Recordings longer than the recorder's own buffers.
    fn h_record_long() {
        let ch = pick("channels", 1, 2);
        let mut d = Desk::new(48_000, ch, 4096);
        let first = pick("first", 0, 1) * 3;
        d.rec.borrow_mut().record_now();
        if first > 0 { d.feed(first, &mut |_, _| 0.5); }
        let mut n = 0;
        let big = [4094, 4096][pick("big", 0, 1)];
        let mut sample = |c: usize, f: usize| { if f >= 4093 && f < 4100 { any_f32("x", -8.0, 8.0) } else { ((f * 7 + c * 3) % 64) as f32 } };
        for k in [big, 3, 5] { d.feed(k, &mut sample); n += k; if pick("collect", 0, 1) == 1 { d.r.ctx.process_notifications(); } }
        d.rec.borrow_mut().stop_record_now();
        d.feed(1, &mut |_, _| 0.75);
        d.expect(0, first + n);
        reach("end");
    }

    /// More recordings than the recorder has buffers.
    fn h_record_many() {
        let mut d = Desk::new(48_000, 1, 8);
        let per = pick("per", 1, 3);
        for k in 0..bound(40, 80) {
            d.rec.borrow_mut().record_now();
            let from = d.fed[0].len();
            d.feed(per, &mut |_, f| if k == 37 || k == 2 { any_f32("x", -8.0, 8.0) } else { f as f32 });
            d.rec.borrow_mut().stop_record_now();
            d.feed(1, &mut |_, _| 0.75);
            d.expect(from, from + per);
        }
        reach("end");
    }
}
