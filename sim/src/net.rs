//! The simulated network: the only path between nodes. Every packet's fate is a pure function of
//! (seed, source, destination, per-pair packet number, salt) and the active fault windows.
use crate::case::{Case, Fault};
use crate::rec::Rec;
use crate::rng::hash;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct Pkt {
    pub src: u64,
    pub dst: u64,
    /// number of the original packet (unique per net); copies share it
    pub id: u64,
    pub sent: u64,
    pub bytes: Vec<u8>,
    /// false when the bytes were altered or invented by the network
    pub genuine: bool,
    pub copy: u32,
}

pub struct Net {
    pub seed: u64,
    pub base_delay: u64,
    pub base_jitter: u64,
    pub fifo: bool,
    pub faults: Vec<Fault>,
    queue: BTreeMap<(u64, u64), Pkt>,
    seq: u64,
    next_id: u64,
    counters: HashMap<(u64, u64), u64>,
    last_arrival: HashMap<(u64, u64), u64>,
    /// asymmetric extra delay per direction (src node, dst node)
    pub asym: HashMap<(i64, i64), u64>,
    /// packet contents depend on OS randomness (encryption keys): keep them out of the log hash
    pub opaque: bool,
}

/// address of endpoint `port` of node `node`
pub fn addr(node: i64, port: u64) -> u64 {
    (node as u64) * 1000 + port
}
pub fn node_of(a: u64) -> i64 {
    (a / 1000) as i64
}

pub fn matches(f: &Fault, now: u64, src: i64, dst: i64) -> bool {
    now >= f.t0 && now < f.t1 && (f.src < 0 || f.src == src) && (f.dst < 0 || f.dst == dst)
}

impl Net {
    pub fn new(c: &Case) -> Self {
        Net {
            seed: c.seed,
            base_delay: c.get("net_delay_us") as u64,
            base_jitter: c.get("net_jitter_us") as u64,
            fifo: c.get("net_fifo") != 0,
            faults: c.faults.clone(),
            queue: BTreeMap::new(),
            seq: 0,
            next_id: 0,
            counters: HashMap::new(),
            last_arrival: HashMap::new(),
            asym: HashMap::new(),
            opaque: false,
        }
    }

    fn enqueue(&mut self, at: u64, p: Pkt) {
        self.seq += 1;
        self.queue.insert((at, self.seq), p);
    }

    /// Hand one packet to the network. Returns its id.
    pub fn send(&mut self, now: u64, src: u64, dst: u64, bytes: Vec<u8>, rec: &mut Rec) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        let k = {
            let e = self.counters.entry((src, dst)).or_insert(0);
            *e += 1;
            *e
        };
        let (sn, dn) = (node_of(src), node_of(dst));
        let h = |salt: u64| hash(&[self.seed, src, dst, k, salt]);
        let mut delay = self.base_delay + self.asym.get(&(sn, dn)).copied().unwrap_or(0);
        if self.base_jitter > 0 {
            delay += h(1) % (self.base_jitter + 1);
        }
        let mut lost = false;
        let mut dups: Vec<u64> = vec![];
        let mut out = bytes;
        let mut genuine = true;
        let mut reordered = false;
        for (fi, f) in self.faults.iter().enumerate() {
            if !matches(f, now, sn, dn) {
                continue;
            }
            let hf = |salt: u64| h(1000 + 16 * (f.t0 ^ fi as u64) + salt);
            let a = |i: usize| f.args.get(i).copied().unwrap_or(0).max(0) as u64;
            match f.kind.as_str() {
                "loss" => {
                    if hf(1) % 1000 < a(0) {
                        lost = true;
                        rec.stat("fault.loss", 1);
                    }
                }
                "part" => {
                    lost = true;
                    rec.stat("fault.partition_drop", 1);
                }
                "dup" => {
                    if hf(2) % 1000 < a(0) {
                        let n = 1 + hf(3) % 2;
                        for i in 0..n {
                            dups.push(hf(4 + i) % (a(1) + 1));
                        }
                        rec.stat("fault.duplicate", n);
                    }
                }
                "reorder" => {
                    if hf(6) % 1000 < a(0) {
                        delay += hf(7) % (a(1) + 1);
                        reordered = true;
                        rec.stat("fault.reorder_delay", 1);
                    }
                }
                "delay" => {
                    delay += a(0);
                    rec.stat("fault.delay", 1);
                }
                "flip" => {
                    if !out.is_empty() && hf(8) % 1000 < a(0) {
                        let n = 1 + hf(9) % 3;
                        for i in 0..n {
                            let pos = (hf(10 + 2 * i) % out.len() as u64) as usize;
                            out[pos] ^= 1 << (hf(11 + 2 * i) % 8);
                        }
                        genuine = false;
                        rec.stat("fault.bitflip", 1);
                    }
                }
                "trunc" => {
                    if !out.is_empty() && hf(20) % 1000 < a(0) {
                        let n = (hf(21) % out.len() as u64) as usize;
                        out.truncate(n);
                        genuine = false;
                        rec.stat("fault.truncate", 1);
                    }
                }
                "junk" => {
                    if hf(30) % 1000 < a(0)
                        && let Some(v) = crate::hostile::alter(&mut crate::rng::Rng::new(hf(31)), &out)
                    {
                        out = v;
                        genuine = false;
                        rec.stat("attack.altered_packets", 1);
                    }
                }
                _ => {}
            }
        }
        let content = if self.opaque { 0 } else { crate::rng::hash_bytes(&out) };
        rec.log(&[0x10, src, dst, id, lost as u64, delay, out.len() as u64, content]);
        if lost {
            rec.trace(|| format!("net {src}->{dst} pkt#{id} len={} LOST", out.len()));
            return id;
        }
        let mut at = now + delay;
        if self.fifo && !reordered {
            let la = self.last_arrival.entry((src, dst)).or_insert(0);
            at = at.max(*la);
            *la = at;
        }
        rec.stat("net.delivered", 1);
        let copies = dups.len();
        rec.trace(|| format!("net {src}->{dst} pkt#{id} len={} arrives={at} dups={copies} genuine={genuine}", out.len()));
        let p = Pkt { src, dst, id, sent: now, bytes: out, genuine, copy: 0 };
        for (i, d) in dups.into_iter().enumerate() {
            let mut q = p.clone();
            q.copy = 1 + i as u32;
            self.enqueue(at + d, q);
        }
        self.enqueue(at, p);
        id
    }

    /// Put attacker-made or recorded bytes on the wire.
    pub fn inject(&mut self, at: u64, src: u64, dst: u64, bytes: Vec<u8>, rec: &mut Rec) -> u64 {
        let id = self.next_id;
        self.next_id += 1;
        rec.stat("fault.inject", 1);
        rec.log(&[0x11, src, dst, id, at, bytes.len() as u64]);
        rec.trace(|| format!("net inject {src}->{dst} pkt#{id} len={} arrives={at}", bytes.len()));
        self.enqueue(at, Pkt { src, dst, id, sent: at, bytes, genuine: false, copy: 0 });
        id
    }

    /// All packets for `node` that have arrived by `now`, in arrival order.
    pub fn take(&mut self, node: i64, now: u64) -> Vec<Pkt> {
        let keys: Vec<(u64, u64)> = self
            .queue
            .range(..=(now, u64::MAX))
            .filter(|(_, p)| node_of(p.dst) == node)
            .map(|(k, _)| *k)
            .collect();
        keys.into_iter().map(|k| self.queue.remove(&k).unwrap()).collect()
    }

    pub fn drop_in_flight(&mut self) -> usize {
        let n = self.queue.len();
        self.queue.clear();
        n
    }
    pub fn in_flight(&self) -> usize {
        self.queue.len()
    }
    pub fn next_arrival(&self) -> Option<u64> {
        self.queue.keys().next().map(|k| k.0)
    }
}
