//! C19 envelope meter.
use crate::rig::*;
use std::time::Duration;

/// The follower: the level moves towards the magnitude of each sample, quickly upwards and slowly downwards.
struct Follower { level: f32, up: f32, down: f32 }
impl Follower {
    fn new(sr: f64, attack_ms: u64, release_ms: u64) -> Self {
        let c = |ms: u64| (-1.0 / (sr * Duration::from_millis(ms).as_secs_f64())).exp() as f32;
        Follower { level: 0.0, up: c(attack_ms), down: c(release_ms) }
    }
    fn next(&mut self, x: f32) -> f32 {
        let m = x.abs();
        let c = if self.level < m { self.up } else { self.down };
        self.level = self.level * c + m * (1.0 - c);
        self.level
    }
}
fn max(a: f32, b: f32) -> f32 { a.max(b) }

fn meter(r: &mut Rig, channels: usize, attack: u64, release: u64, frequency: f64) -> std::rc::Rc<std::cell::RefCell<Envelope>> {
    let e = Envelope::new(r.ctx.as_mut(), channels, Duration::from_millis(attack), Duration::from_millis(release), frequency);
    e.borrow().node.connect_to_input();
    e
}

harnesses! {
    /// Reports come at their rate, one per channel, and hold the peaks of the whole time since the last one.
    fn h_meter() {
        let (attack, release) = [(0, 0), (0, 5), (3, 2)][pick("times", 0, 2)];
        let (frequency, interval) = [(250.0, 4.0), (1000.0 / 3.3, 3.3), (1000.0, 1.0)][pick("rate", 0, 2)];
        let channels = pick("channels", 1, 3);
        let mut r = Rig::new(1000, 3, 20);
        let e = meter(&mut r, channels, attack, release, frequency);
        r.ctx.start();
        let n = bound(12, 20);
        let x = sym_signal("x", channels, n, 8.0);
        let (cut, mid) = (pick("cut", 1, n - 3), pick("middle", 1, 2));
        r.run(&x, channels, &[cut, mid, n - cut - mid]);
        r.ctx.process_notifications();
        let got = e.borrow_mut().take_notifications();
        let mut k = 0; let mut due = interval;
        let mut f: Vec<Follower> = (0..channels).map(|_| Follower::new(1000.0, attack, release)).collect();
        let mut peak = vec![0.0f32; channels];
        for t in 0..n {
            for c in 0..channels { peak[c] = max(peak[c], f[c].next(x[c][t])); }
            if (t + 1) as f64 >= due - 1e-9 {
                due += interval;
                check(k + channels <= got.len(), "every report is made when it is due");
                for c in 0..channels {
                    check(got[k].channel_index() == c, "one report for each channel");
                    let p = got[k].peak_level();
                    check(close(p, peak[c], 1e-5), "the report is the peak since the last one"); observe(p);
                    check(p >= 0.0, "never negative");
                    peak[c] = 0.0;
                    k += 1;
                }
                reach("report");
            }
        }
        check(k == got.len(), "no report before it is due");
        reach("end");
    }

    /// With an attack time of nought no sample goes unnoticed, and silence is reported as nought.
    fn h_meter_notices() {
        let mut r = Rig::new(1000, 2, 4);
        let n = 4 * pick("intervals", 1, 2);
        let e = meter(&mut r, 2, 0, [0, 4, 1000][pick("release", 0, 2)], 250.0);
        r.ctx.start();
        let mut x = sym_signal("x", 1, n, 100.0);
        x.push(vec![0.0; n]);
        let b = pick("block", 1, 5);
        let mut blocks = vec![]; let mut left = n; while left > 0 { let k = b.min(left); blocks.push(k); left -= k; }
        r.run(&x, 2, &blocks);
        r.ctx.process_notifications();
        let got = e.borrow_mut().take_notifications();
        check(got.len() == 2 * n / 4, "a report for every channel and interval");
        for k in 0..got.len() {
            let p = got[k].peak_level();
            if got[k].channel_index() == 1 { check(p == 0.0, "silence is reported as nought"); continue; }
            for t in 0..4 { check(p >= x[0][k / 2 * 4 + t].abs() - 1e-3, "no sample goes unnoticed"); }
            observe(p);
        }
        reach("end");
    }

    /// Reports that nobody collects never hold up processing.
    fn h_meter_uncollected() {
        let mut r = Rig::new(1000, 2, 16);
        let e = meter(&mut r, 2, 0, 0, 1000.0);
        r.ctx.start();
        let blocks = pick("blocks", 1, 6);
        for _ in 0..blocks { r.block(&[vec![1.0; 16], vec![0.5; 16]], 2, 16); }
        r.ctx.process_notifications();
        let got = e.borrow_mut().take_notifications();
        check(got.len() >= 32.min(2 * 16 * blocks), "the reports are there");
        for k in 0..got.len() { check(same(got[k].peak_level(), [1.0, 0.5][got[k].channel_index()]), "the peak"); }
        r.block(&[vec![0.25; 1], vec![0.5; 1]], 2, 1);
        r.ctx.process_notifications();
        let got = e.borrow_mut().take_notifications();
        check(got.len() == 2, "reports go on once collected");
        check(same(got[0].peak_level(), 0.25), "the peak since the last report");
        reach("end");
    }
}
