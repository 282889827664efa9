//! C03 control operations.
use crate::rig::*;

fn same_ish(a: f32, b: f32) -> bool { (a - b).abs() <= 1e-4 }

/// The engine and what should have become of it: the input goes to a, perhaps on to b, and one of them to the output.
struct Bench { r: Rig, a: Gain, b: Option<Gain>, sr: usize, started: bool, joined: usize, from_b: bool, output: bool, ga: f32, gb: f32, pending: Vec<(usize, f32)>, now: usize }
impl Bench {
    fn new() -> Bench {
        let sr = 32_768;
        let r = Rig::new(sr, 1, 4);
        let a = Gain::new(r.ctx.as_ref(), 1); let b = Gain::new(r.ctx.as_ref(), 1);
        a.node.connect_to_input();
        a.node.connect_to(&b.node);
        b.node.connect_to_output();
        Bench { r, a, b: Some(b), sr, started: false, joined: 1, from_b: true, output: true, ga: 1.0, gb: 1.0, pending: vec![], now: 0 }
    }
    fn change(&mut self, at: usize, v: f32) { let mut i = 0; while i < self.pending.len() && self.pending[i].0 <= at { i += 1; } self.pending.insert(i, (at, v)); }
    fn act(&mut self, op: usize) {
        match op {
            0 => { let v = any_f32("gain", 0.5, 2.0); self.a.gain().set_value_now(v as f64); self.change(0, v); }
            1 => { let v = any_f32("later", 0.5, 2.0); self.a.gain().set_value_at_time(v as f64, Timestamp::from_samples(3.0, self.sr)); self.change(3, v); }
            2 => { self.a.gain().cancel_scheduled_changes(); self.pending.clear(); }
            3 => { if let Some(b) = &self.b { self.a.node.connect_to(&b.node); self.joined += 1; } }
            4 => { if let Some(b) = &self.b { self.a.node.disconnect_from_node(&b.node); self.joined = 0; } }
            5 => { self.a.node.connect_to_output(); self.from_b = false; self.output = true; }
            6 => { if let Some(b) = &self.b { b.node.connect_to_output(); self.from_b = true; self.output = true; } }
            7 => { self.r.ctx.start(); self.started = true; }
            8 => { self.r.ctx.stop(); self.started = false; }
            9 => { self.process(2); }
            10 => { // dropped, or created again and connected
                if self.b.is_some() { self.b = None; if self.from_b { self.output = false; } self.joined = 0; }
                else { let b = Gain::new(self.r.ctx.as_ref(), 1); self.a.node.connect_to(&b.node); b.node.connect_to_output(); self.b = Some(b); self.joined = 1; self.from_b = true; self.output = true; self.gb = 1.0; }
            }
            _ => { if let Some(b) = &mut self.b { b.gain().set_value_now(1.5); b.gain().set_value_now(2.0); self.gb = 2.0; } }
        }
    }
    fn process(&mut self, n: usize) {
        let x: Vec<f32> = (0..n).map(|f| 1.0 + f as f32).collect();
        let y = self.r.block(&[x.clone()], 1, n);
        for f in 0..n {
            if self.started { while !self.pending.is_empty() && self.pending[0].0 <= self.now { self.ga = self.pending.remove(0).1; } }
            let mut want = x[f] * self.ga;
            if self.from_b { want *= self.joined as f32 * self.gb; }
            if !self.started || !self.output { want = 0.0; }
            check(same_ish(y[0][f], want), "everything asked for so far, in order, from the first frame on");
            if f == 0 { observe(y[0][0]); }
            if self.started { self.now += 1; reach("playing"); }
        }
    }
}

harnesses! {
    /// Every sequence of operations, made together.
    fn h_order_together() {
        let mut b = Bench::new();
        let early = pick("early", 0, 1) == 1;
        if early { b.act(7); b.process(1); }
        for _ in 0..bound(3, 4) { let op = pick("op", 0, 11); b.act(op); }
        if !early { b.act(7); }
        b.process(2); b.process(3);
        reach("end");
    }

    /// Sequences with calls in between.
    fn h_order_between() {
        let mut b = Bench::new();
        b.act(7);
        for i in 0..bound(4, 6) {
            let op = [0, 1, 4, 3, 8, 7, 10][pick("op", 0, 6)];
            b.act(op);
            if i % 2 == 1 { b.process(if i == 1 { pick("frames", 1, 2) } else { 1 }); }
        }
        b.process(3);
        reach("end");
    }

    /// Very many operations between two calls: none is lost.
    fn h_order_many() {
        let mut b = Bench::new();
        let n = bound(900, 3000);
        let which = pick("at", 0, 3) * (n / 4);
        let last = pick("last", 0, 1) == 1;
        for i in 0..n {
            if i == which { b.act(0); } else if i % 3 == 0 { b.a.gain().set_value_now(0.75); b.change(0, 0.75); }
            if i % 5 == 0 { b.act(4); b.act(3); }
            if i % 7 == 0 { b.act(8); b.act(7); }
            if i % 10 == 0 { b.act(10); b.act(10); }
        }
        if last { b.act(0); b.act(1); }
        b.act(7);
        b.process(4);
        reach("end");
    }

    /// More changes of one parameter than there is room for to begin with, due one after another.
    fn h_order_changes() {
        let mut b = Bench::new();
        b.act(7);
        let n = bound(24, 40);
        let reverse = pick("reverse", 0, 1) == 1;
        let odd = pick("unknown", 0, 3);
        for k in 0..n {
            let k = if reverse { n - 1 - k } else { k };
            let v = if k % 8 == 2 * odd { any_f32("value", 0.5, 2.0) } else { 1.0 + k as f32 / 64.0 };
            b.a.gain().set_value_at_time(v as f64, Timestamp::from_samples(k as f64 / 2.0, b.sr));
            b.change(k, v); // in half samples, see below
        }
        for p in b.pending.iter_mut() { p.0 = (p.0 + 1) / 2; }
        for k in [1, 4, 3, 4, 4, 4] { b.process(k); }
        reach("end");
    }
}
