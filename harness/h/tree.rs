//! T01, T02, T03: the subscription tree alone against a list of (client, filter, qos) triples and an independent matcher.
use super::refmatch::*;
use super::shape::*;
use crate::core::enums::ClientEvent;
use crate::packets::enums::QosLevel;
use crate::topic_heir::{SubscriptionLeaf, SubscriptionTree};
use tokio::sync::mpsc::{channel, Receiver, Sender};

fn qos_of(q: u8) -> QosLevel { match q { 0 => QosLevel::AtMost, 1 => QosLevel::AtLeast, _ => QosLevel::Exactly } }
const IDS: [u128; 3] = [7, 34, 1 << 100];

pub struct World { tree: SubscriptionTree, tx: Vec<Sender<ClientEvent>>, rx: Vec<Receiver<ClientEvent>>, model: Vec<(usize, Vec<u8>, u8)>, ids: &'static str }
fn text(b: &[u8]) -> String { match String::from_utf8(b.to_vec()) { Ok(s) => s, Err(_) => sx::stop() } }
impl World {
    fn must(&self, ok: bool, msg: &str) { if !ok { sx::fail(&format!("{} {}", self.ids, msg)) } }
    fn drop(&mut self, c: usize, f: &[u8], cover: &str) { let mut i = 0; while i < self.model.len() { if self.model[i].0 == c && same(&self.model[i].1, f) { self.model.remove(i); sx::cover(cover); } else { i += 1 } } }
}
impl Sut for World {
    fn start(clients: usize, ids: &'static str) -> World {
        let (mut tx, mut rx) = (vec![], vec![]);
        for _ in 0..clients { let (t, r) = channel(1); tx.push(t); rx.push(r); }
        World { tree: SubscriptionTree::new(), tx, rx, model: vec![], ids }
    }
    fn sub(&mut self, c: usize, f: &[u8], q: u8) {
        // whether the tree or its caller refuses invalid filters is the broker's own business
        if !valid_filter(f) { sx::stop() }
        let ok = self.tree.insert(text(f), SubscriptionLeaf::new(qos_of(q), IDS[c], self.tx[c].clone())).is_ok();
        self.must(ok, "valid filter refused");
        self.drop(c, f, "replaced");
        self.model.push((c, f.to_vec(), q));
    }
    fn unsub(&mut self, c: usize, f: &[u8]) {
        if !valid_filter(f) { sx::stop() }
        let _ = self.tree.delete(text(f), IDS[c]);
        self.drop(c, f, "removed");
    }
    fn publish(&mut self, t: &[u8]) {
        let got = match self.tree.get(text(t)) { Ok(g) => g, Err(_) => { self.must(false, "lookup of a valid topic failed"); return } };
        let mut seen = vec![0u8; self.tx.len()];
        let mut qs = vec![9u8; self.tx.len()];
        for (id, s, q) in got.iter() {
            let c = match IDS.iter().position(|x| x == id) { Some(c) if c < self.tx.len() => c, _ => { self.must(false, "unknown client selected"); return } };
            self.must(s.same_channel(&self.tx[c]), "message for one client goes to another");
            seen[c] += 1; qs[c] = *q as u8;
        }
        for c in 0..self.tx.len() {
            let mut best = 9u8;
            for (m, f, q) in self.model.iter() { if *m == c && matches(f, t) && (best == 9 || *q > best) { best = *q } }
            if best != 9 { sx::cover("match") } else { sx::cover("no match") }
            sx::out(&[seen[c], qs[c]]);
            self.must(seen[c] != 0 || best == 9, "subscriber missed");
            self.must(seen[c] == 0 || best != 9, "message for a client without a matching filter");
            self.must(seen[c] <= 1, "client selected twice");
            if best != 9 { self.must(qs[c] == best, "wrong QoS") }
        }
    }
}
super::entries! {
    h_tree_one5 => one::<World>(5, 5);
    h_tree_one6 => one::<World>(6, 6);
    h_tree_one7 => one::<World>(7, 7);
    h_tree_long => long_levels::<World>(3);
    h_tree_long4 => long_levels::<World>(6);
    h_tree_utf => utf::<World>();
    h_tree_two3 => shaped::<World>(2, 2, 3, 3, true);
    h_tree_two4 => shaped::<World>(2, 2, 4, 4, false);
    h_tree_over2 => shaped::<World>(3, 1, 2, 2, true);
    h_tree_over3 => shaped::<World>(3, 1, 3, 3, false);
    h_tree_three2 => shaped::<World>(3, 3, 2, 2, false);
    h_tree_three3 => shaped::<World>(3, 3, 3, 3, false);
    h_tree_hist2 => history::<World>(2, 3, 3);
    h_tree_hist3 => history::<World>(3, 2, 2);
    h_tree_hist3b => history::<World>(3, 3, 3);
    h_tree_shist2 => shaped_history::<World>(3, 2, 2, 2);
    h_tree_shist3 => shaped_history::<World>(3, 2, 3, 3);
    h_tree_shist4 => shaped_history::<World>(4, 1, 2, 2);
    h_tree_shist4b => shaped_history::<World>(4, 2, 2, 2);
    h_tree_change2 => change_one::<World>(2, 2, 3, 3);
    h_tree_change3 => change_one::<World>(3, 1, 2, 2);
    h_tree_change3b => change_one::<World>(3, 3, 2, 2);
    h_tree_deep6 => deep::<World>(6);
    h_tree_deep3 => deep::<World>(3);
}
