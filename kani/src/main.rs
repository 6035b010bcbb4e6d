//! bits list
//! bits replay NAME BITS...          run one contract on given arguments (bit patterns)
//! bits search NAME SEED N SECS      look for arguments that break a contract
use bits::*;

struct Given(Vec<u64>, usize);
impl Source for Given {
    fn next(&mut self, _w: usize, _f: bool) -> u64 {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(0)
    }
}

struct Random {
    state: u64,
    last: Vec<u64>,
}
impl Random {
    fn word(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}
impl Source for Random {
    fn next(&mut self, w: usize, float: bool) -> u64 {
        let mask = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
        let top = 1u64 << (8 * w - 1);
        let k = self.word() % 12;
        let small = self.word() % 5;
        let base = match k {
            0 => small,
            1 => 0u64.wrapping_sub(small),
            2 => top.wrapping_add(small).wrapping_sub(2),
            3 if !self.last.is_empty() => {
                let i = (self.word() % self.last.len() as u64) as usize;
                self.last[i].wrapping_add(small).wrapping_sub(2)
            }
            4 if !self.last.is_empty() => {
                let i = (self.word() % self.last.len() as u64) as usize;
                self.last[i] ^ top
            }
            5 if float => {
                let inf: u64 = if w == 4 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
                inf.wrapping_add(small).wrapping_sub(2) | (if self.word() & 1 == 0 { 0 } else { top })
            }
            6 | 7 if float => {
                let v = (self.word() % 2001) as i64 - 1000;
                let d = [1.0, 2.0, 4.0, 1000.0, 1e-6][(self.word() % 5) as usize];
                let x = v as f64 / d;
                if w == 4 { (x as f32).to_bits() as u64 } else { x.to_bits() }
            }
            8 if float => {
                // borders of binades
                let e = self.word();
                let b = if w == 4 { (e % 256) << 23 } else { (e % 2048) << 52 };
                b.wrapping_add(small).wrapping_sub(2) ^ (if e >> 60 & 1 == 0 { 0 } else { top })
            }
            9 if !float => 1u64 << (self.word() % (8 * w as u64)),
            _ => self.word(),
        } & mask;
        self.last.push(base);
        base
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let cs = contracts();
    match a[1].as_str() {
        "list" => {
            for c in &cs {
                println!("{} {} {}", c.prop, c.name, c.covers);
            }
        }
        "replay" => {
            let c = cs.iter().find(|c| c.name == a[2]).expect("no such contract");
            let v = a[3..].iter().map(|x| if let Some(h) = x.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { x.parse::<u64>().unwrap() }).collect();
            match (c.run)(&mut Given(v, 0)) {
                Outcome::Held => println!("HELD"),
                Outcome::Rejected => { println!("REJECTED"); std::process::exit(3) }
                Outcome::Failed(m) => { println!("FAILED {}", m); std::process::exit(1) }
            }
        }
        "search" => {
            let c = cs.iter().find(|c| c.name == a[2]).expect("no such contract");
            let mut r = Random { state: a[3].parse::<u64>().unwrap().wrapping_mul(77), last: vec![] };
            let n: u64 = a[4].parse().unwrap();
            let secs: f64 = a[5].parse().unwrap();
            let t = std::time::Instant::now();
            let (mut tried, mut held) = (0, 0);
            while tried < n && (tried % 64 != 0 || t.elapsed().as_secs_f64() < secs) {
                tried += 1;
                r.last.clear();
                match (c.run)(&mut r) {
                    Outcome::Held => held += 1,
                    Outcome::Rejected => {}
                    Outcome::Failed(m) => {
                        println!("FAILED {}", m);
                        println!("bits {}", r.last.iter().map(|b| format!("{:#x}", b)).collect::<Vec<_>>().join(" "));
                        break;
                    }
                }
            }
            println!("tried={} held={}", tried, held);
        }
        _ => std::process::exit(2),
    }
}
