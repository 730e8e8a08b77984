//! Exhaustive exploration of library entry points that the command line can not reach.
//! usage: cdxlib <space> <tier> <shard> <shards>
//! Prints one line per violation ("V <text>") and finally "N <cases> <transitions> <distinct>".
mod head;
mod sort;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Stat {
    pub shard: u64,
    pub shards: u64,
    pub next: u64,
    pub cases: u64,
    pub trans: u64,
    pub viol: u64,
    pub seen: HashSet<u64>,
    pub only: Option<u64>,
}

impl Stat {
    /// Is the next case ours?
    pub fn mine(&mut self) -> bool {
        let n = self.next;
        self.next += 1;
        match self.only {
            Some(x) => x == n,
            None => n % self.shards == self.shard,
        }
    }
    /// Run one case; a panic is a violation
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(u64, u64), String> + std::panic::UnwindSafe) {
        self.cases += 1;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if self.cases % 64 == 1 {
            *CURRENT.lock().unwrap() = format!("#{} {}", self.next - 1, desc());
        }
        let r = std::panic::catch_unwind(f);
        match r {
            Ok(Ok((outcome, trans))) => {
                self.trans += trans;
                self.seen.insert(outcome);
            }
            Ok(Err(e)) => self.bad(&desc(), &e),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| (*x).to_string())).unwrap_or_default();
                self.bad(&desc(), &format!("panic: {m}"));
            }
        }
    }
    fn bad(&mut self, desc: &str, e: &str) {
        self.viol += 1;
        if self.viol <= 5 {
            println!("V #{} {desc}: {e}", self.next - 1);
        }
    }
}

pub fn hash(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(30));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last {
                println!("V at or soon after {}: does not end", CURRENT.lock().unwrap());
                std::process::exit(0);
            }
            last = now;
        }
    });
    let mut st = Stat {
        shard: a[3].parse().unwrap(),
        shards: a[4].parse().unwrap(),
        next: 0,
        cases: 0,
        trans: 0,
        viol: 0,
        seen: HashSet::new(),
        only: a.get(5).map(|x| x.parse().unwrap()),
    };
    match a[1].as_str() {
        "sort" => sort::explore(&mut st, thorough),
        "head" => head::explore(&mut st, thorough),
        _ => panic!("unknown space"),
    }
    println!("N {} {} {} {}", st.cases, st.trans, st.seen.len(), st.viol);
}
