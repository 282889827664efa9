//! C04 routing, C05 graph edits, C06 stale audio.
use crate::rig::*;

const TOL: f32 = 1.0 / 4096.0;

/// What a graph is meant to compute: gain nodes in an order compatible with the connections.
#[derive(Clone)]
struct Model { channels: Vec<usize>, gains: Vec<f32>, alive: Vec<bool>, edges: Vec<(usize, usize, usize, usize, usize)>, input: Option<usize>, output: Option<usize> }

impl Model {
    fn eval(&self, x: &[Vec<f32>], out_channels: usize, frames: usize) -> Vec<Vec<f32>> {
        let n = self.channels.len();
        let mut outs: Vec<Vec<Vec<f32>>> = vec![];
        for i in 0..n {
            let mut y = vec![vec![0.0f32; frames]; self.channels[i]];
            if self.alive[i] {
                for c in 0..self.channels[i] { for f in 0..frames {
                    let mut s = 0.0;
                    if self.input == Some(i) && c < x.len() { s += x[c][f]; }
                    for &(a, b, sc, dc, k) in &self.edges { if b == i && c >= dc && c < dc + k && sc + (c - dc) < self.channels[a] { s += outs[a][sc + (c - dc)][f]; } }
                    y[c][f] = s * self.gains[i];
                } }
            }
            outs.push(y);
        }
        (0..out_channels).map(|c| (0..frames).map(|f| match self.output { Some(o) if c < self.channels[o] => outs[o][c][f], _ => 0.0 }).collect()).collect()
    }
}

fn compare(y: &[Vec<f32>], e: &[Vec<f32>], what: &str) {
    for c in 0..e.len() { for f in 0..e[c].len() { check(close(y[c][f], e[c][f], TOL), what); observe(y[c][f]); } }
}

fn node(r: &Rig, channels: usize, g: f32) -> Gain {
    let mut n = Gain::new(r.ctx.as_ref(), channels);
    n.gain().set_value_now(g as f64);
    n
}

harnesses! {
    /// Every set of connections among gain nodes, every input and output node, two orders of creation.
    fn h_topology() {
        hash_seed(bound(4, 8));
        let mut r = Rig::new(48_000, 2, 3);
        r.ctx.start();
        let n = bound(4, 4);
        let gains = [1.0, 2.0, 0.5, -1.0];
        let reverse = pick("create_in_reverse", 0, 1) == 1;
        let mut nodes: Vec<Option<Gain>> = (0..n).map(|_| None).collect();
        for k in 0..n { let i = if reverse { n - 1 - k } else { k }; nodes[i] = Some(node(&r, 2, gains[i])); }
        let mut pairs = vec![]; for j in 1..n { for i in 0..j { pairs.push((i, j)); } }
        let set = pick("connections", 0, (1 << pairs.len()) - 1);
        let input = pick("input_node", 0, bound(1, n - 1));
        let output = pick("output_node", bound(n - 2, 0), n - 1);
        let mut m = Model { channels: vec![2; n], gains: gains[..n].to_vec(), alive: vec![true; n], edges: vec![], input: Some(input), output: Some(output) };
        for k in 0..pairs.len() {
            let k = if reverse { pairs.len() - 1 - k } else { k };
            if set >> k & 1 == 1 { let (i, j) = pairs[k]; nodes[i].as_ref().unwrap().node.connect_to(&nodes[j].as_ref().unwrap().node); m.edges.push((i, j, 0, 0, 2)); }
        }
        nodes[input].as_ref().unwrap().node.connect_to_input();
        nodes[output].as_ref().unwrap().node.connect_to_output();
        for frames in [2, 1] {
            let x = sym_signal("x", 2, frames, 1.0);
            let y = r.block(&x, 2, frames);
            compare(&y, &m.eval(&x, 2, frames), "the output is the sum along the connections");
        }
        reach("end");
    }

    /// Two connections between nodes of different channel counts, any channel mapping, with or without the system input.
    fn h_channel_mapping() {
        let mut r = Rig::new(48_000, 3, 2);
        r.ctx.start();
        let a = node(&r, 3, 1.0); let b = node(&r, 3, 2.0); let d = node(&r, 2, 1.0);
        let mut m = Model { channels: vec![3, 3, 2], gains: vec![1.0, 2.0, 1.0], alive: vec![true; 3], edges: vec![], input: None, output: Some(2) };
        // b and a are fed by the system input through a common source where the input also reaches d
        a.node.connect_to(&b.node); m.edges.push((0, 1, 0, 0, 3));
        for k in 0..2 {
            let how = pick("kind", 0, if k == 0 { 1 } else { 2 });
            let (src, i) = if k == 0 { (&b, 1) } else if pick("from", 0, 1) == 0 { (&a, 0) } else { (&b, 1) };
            match how {
                0 => { src.node.connect_to(&d.node); m.edges.push((i, 2, 0, 0, 3)); }
                1 => {
                    let s = pick("source_channel", 0, 2); let t = pick("destination_channel", 0, 1);
                    let c = pick("channel_count", 1, 2);
                    assume(s + c <= 3); assume(t + c <= 2);
                    src.node.connect_channels_to(&d.node, s, t, c); m.edges.push((i, 2, s, t, c));
                }
                _ => {}
            }
        }
        a.node.connect_to_input(); m.input = Some(0);
        if pick("system_input_also_to_destination", 0, 1) == 1 { d.node.connect_to_input(); m.input = Some(2); }
        d.node.connect_to_output();
        for frames in [1, 2] {
            let x = sym_signal("x", 3, frames, 1.0);
            let y = r.block(&x, 3, frames);
            compare(&y, &m.eval(&x, 3, frames), "channel mapping");
        }
        reach("end");
    }

    /// Connections between nodes of every pair of channel counts, with any channel mapping, with or without a sibling that
    /// reads any channel of the same source.
    fn h_channel_counts() {
        hash_seed(bound(1, 4));
        let mut r = Rig::new(48_000, 3, 2);
        r.ctx.start();
        let ca = pick("source_channels", 1, 3); let cb = pick("destination_channels", 1, 3);
        let sibling = pick("sibling", 0, 2);
        let a = node(&r, ca, 2.0); let e = node(&r, 1, -1.0); let b = node(&r, cb, 0.5); let o = node(&r, 3, 1.0);
        let mut m = Model { channels: vec![ca, 1, cb, 3], gains: vec![2.0, -1.0, 0.5, 1.0], alive: vec![true; 4], edges: vec![], input: Some(0), output: Some(3) };
        a.node.connect_to_input();
        let from = if sibling > 0 { pick("sibling_source", 0, ca - 1) } else { 0 };
        let join = |m: &mut Model| { a.node.connect_channels_to(&e.node, from, 0, 1); m.edges.push((0, 1, from, 0, 1)); e.node.connect_channels_to(&o.node, 0, 2, 1); m.edges.push((1, 3, 0, 2, 1)); };
        if sibling == 1 { join(&mut m); }
        if pick("mapped", 0, 1) == 0 { a.node.connect_to(&b.node); m.edges.push((0, 2, 0, 0, ca)); }
        else {
            let s = pick("source_channel", 0, 2); let t = pick("destination_channel", 0, 2); let c = pick("channel_count", 1, 3);
            assume((s + c <= ca) & (t + c <= cb));
            a.node.connect_channels_to(&b.node, s, t, c); m.edges.push((0, 2, s, t, c));
        }
        b.node.connect_to(&o.node); m.edges.push((2, 3, 0, 0, cb));
        if sibling == 2 { join(&mut m); }
        o.node.connect_to_output();
        for frames in [2, 1] {
            let x = sym_signal("x", 3, frames, 1.0);
            let y = r.block(&x, 3, frames);
            compare(&y, &m.eval(&x, 3, frames), "channel counts");
        }
        reach("end");
    }

    /// Every history of edits (connect, disconnect, drop, create again, change of input and output node) of a graph of
    /// three nodes, with or without processing in between.
    fn h_edits() {
        hash_seed(bound(4, 12));
        let mut r = Rig::new(48_000, 2, 2);
        r.ctx.start();
        let gains = [1.0, 2.0, 0.5];
        let mut nodes: Vec<Option<Gain>> = (0..3).map(|i| Some(node(&r, 2, gains[i]))).collect();
        let mut m = Model { channels: vec![2; 3], gains: gains.to_vec(), alive: vec![true; 3], edges: vec![], input: Some(0), output: Some(2) };
        let pairs = [(0usize, 1usize), (0, 2), (1, 2)];
        for &(i, j) in &pairs { nodes[i].as_ref().unwrap().node.connect_to(&nodes[j].as_ref().unwrap().node); m.edges.push((i, j, 0, 0, 2)); }
        nodes[0].as_ref().unwrap().node.connect_to_input(); nodes[2].as_ref().unwrap().node.connect_to_output();
        let between = pick("process_between", 0, 1) == 1;
        let n = bound(3, 4);
        for k in 0..n {
            if between { let x = sym_signal("x", 2, 1, 1.0); let y = r.block(&x, 2, 1); compare(&y, &m.eval(&x, 2, 1), "the graph that remains"); }
            let op = pick("edit", 0, 14);
            match op {
                0..=2 => { let (i, j) = pairs[op]; assume(m.alive[i] && m.alive[j]); nodes[i].as_ref().unwrap().node.connect_to(&nodes[j].as_ref().unwrap().node); m.edges.push((i, j, 0, 0, 2)); reach("connect"); }
                3..=5 => { let (i, j) = pairs[op - 3]; assume(m.alive[i] && m.alive[j]); nodes[i].as_ref().unwrap().node.disconnect_from_node(&nodes[j].as_ref().unwrap().node); m.edges.retain(|e| !(e.0 == i && e.1 == j)); reach("disconnect"); }
                6..=8 => { let i = op - 6;
                    if m.alive[i] { nodes[i] = None; m.alive[i] = false; m.edges.retain(|e| e.0 != i && e.1 != i); if m.input == Some(i) { m.input = None; } if m.output == Some(i) { m.output = None; } reach("drop"); }
                    else { nodes[i] = Some(node(&r, 2, gains[i])); m.alive[i] = true; reach("create again"); } }
                9..=11 => { let i = op - 9; assume(m.alive[i]); nodes[i].as_ref().unwrap().node.connect_to_input(); m.input = Some(i); }
                _ => { let i = op - 12; assume(m.alive[i]); nodes[i].as_ref().unwrap().node.connect_to_output(); m.output = Some(i); }
            }
            let _ = k;
        }
        for frames in [1, 2] { let x = sym_signal("x", 2, frames, 1.0); let y = r.block(&x, 2, frames); compare(&y, &m.eval(&x, 2, frames), "the graph that remains"); }
        reach("end");
    }
}
