//! External sort: every budget, read pattern, file split and key over small inputs.
use crate::{hash, Stat};
use cdx::comp::LineCompList;
use cdx::sort::Sorter;
use std::cmp::Ordering;
use std::io::{Read, Write};

/// Hands out the data in the pieces given by `cuts` (bit i: no read crosses offset i+1),
/// or in pieces of `chunk` bytes, optionally interrupted before every read.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: u64,
    chunk: usize,
    intr: bool,
    pending: bool,
    fail_at: Option<usize>,
    calls: u64,
}

impl Read for &mut Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr && !self.pending {
            self.pending = true;
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        self.pending = false;
        if let Some(x) = self.fail_at {
            if self.pos >= x {
                return Err(std::io::Error::from_raw_os_error(libc::EIO));
            }
        }
        let mut n = (self.data.len() - self.pos).min(buf.len());
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        for i in 0..n.saturating_sub(1) {
            let at = self.pos + i;
            if at < 64 && self.cuts >> at & 1 == 1 {
                n = i + 1;
                break;
            }
        }
        if let Some(x) = self.fail_at {
            n = n.min(x - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// accepts `room` bytes, then fails
struct Out {
    data: Vec<u8>,
    room: usize,
}
impl Write for &mut Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 && !b.is_empty() {
            return Err(std::io::Error::from_raw_os_error(libc::ENOSPC));
        }
        let n = b.len().min(self.room);
        self.room -= n;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn col(line: &[u8], n: usize) -> &[u8] {
    line.split(|x| *x == b'\t').nth(n).unwrap_or(b"")
}

const KEYS: [&[&str]; 8] = [&[""], &[",rev"], &["1"], &["1,rev"], &["2"], &["1,float"], &["2,length.rev"], &["1,rev", "2"]];

fn num(x: &[u8]) -> f64 {
    std::str::from_utf8(x).ok().and_then(|s| s.parse().ok()).unwrap_or(f64::MIN)
}

/// The documented order of each key list, written without cdx
fn order(key: usize, a: &[u8], b: &[u8]) -> Ordering {
    match key {
        0 => [a, b"\n"].concat().cmp(&[b, b"\n"].concat()),
        1 => [b, b"\n"].concat().cmp(&[a, b"\n"].concat()),
        2 => col(a, 0).cmp(col(b, 0)),
        3 => col(b, 0).cmp(col(a, 0)),
        4 => col(a, 1).cmp(col(b, 1)),
        5 => num(col(a, 0)).partial_cmp(&num(col(b, 0))).unwrap(),
        6 => col(b, 1).len().cmp(&col(a, 1).len()),
        _ => col(b, 0).cmp(col(a, 0)).then(col(a, 1).cmp(col(b, 1))),
    }
}

fn model(key: usize, unique: bool, lines: &[Vec<u8>]) -> Vec<u8> {
    let mut v: Vec<&[u8]> = Vec::new();
    for l in lines {
        // insertion after all lines that are not greater
        let at = v.iter().position(|x| order(key, x, l) == Ordering::Greater).unwrap_or(v.len());
        v.insert(at, l);
    }
    let mut out = Vec::new();
    let mut prev: Option<&[u8]> = None;
    for l in v {
        if unique && prev.is_some_and(|p| order(key, p, l) == Ordering::Equal) {
            continue;
        }
        prev = Some(l);
        out.extend_from_slice(l);
        out.push(b'\n');
    }
    out
}

#[derive(Clone, Copy, Debug)]
struct Env {
    alloc: usize,
    cuts: u64,
    chunk: usize,
    intr: bool,
}

fn sorter(key: usize, alloc: usize, unique: bool) -> Sorter {
    let mut c = LineCompList::new();
    for k in KEYS[key] {
        c.add(k).unwrap();
    }
    c.lookup(&["a", "b", "c"]).unwrap();
    Sorter::new(c, alloc, unique)
}

fn tmp_empty() -> Result<(), String> {
    if std::fs::read_dir(std::env::temp_dir()).map_err(|e| e.to_string())?.next().is_some() {
        for x in std::fs::read_dir(std::env::temp_dir()).unwrap() {
            let _ = std::fs::remove_dir_all(x.unwrap().path());
        }
        return Err("temporary files left behind".into());
    }
    Ok(())
}

/// files: pieces of the input added one after the other
fn run(key: usize, unique: bool, files: &[Vec<Vec<u8>>], last_nl: bool, how: u8, e: Env) -> Result<(u64, u64), String> {
    let all: Vec<Vec<u8>> = files.concat();
    let want = model(key, unique, &all);
    let mut out = Out { data: Vec::new(), room: usize::MAX };
    let mut calls = 0;
    {
        let mut s = sorter(key, e.alloc, unique);
        for f in files {
            let mut text = Vec::new();
            for l in f {
                text.extend_from_slice(l);
                text.push(b'\n');
            }
            if !last_nl {
                text.pop();
            }
            if how == 1 {
                // whole lines at a time
                for l in f {
                    let mut t = l.clone();
                    t.push(b'\n');
                    s.add_data(&t).map_err(|x| format!("add_data: {x:?}"))?;
                    calls += 1;
                }
                continue;
            }
            let mut p = Pieces { data: &text, pos: 0, cuts: e.cuts, chunk: e.chunk, intr: e.intr, pending: false, fail_at: None, calls: 0 };
            s.add(&mut p).map_err(|x| format!("add: {x:?}"))?;
            calls += p.calls;
        }
        s.finalize(&mut out).map_err(|x| format!("finalize: {x:?}"))?;
    }
    if out.data != want {
        return Err(format!("wrote {:?}, expected {:?}", String::from_utf8_lossy(&out.data), String::from_utf8_lossy(&want)));
    }
    tmp_empty()?;
    Ok((hash(&out.data), calls))
}

/// By name, each file with its own header or none: one common header first, or refused
fn run_named(dir: &std::path::Path, key: usize, unique: bool, files: &[(Option<&str>, Vec<Vec<u8>>)], last_nl: bool, alloc: usize) -> Result<(u64, u64), String> {
    let mut names = Vec::new();
    for (i, (h, ls)) in files.iter().enumerate() {
        let mut text = Vec::new();
        if let Some(h) = h {
            text.extend_from_slice(h.as_bytes());
            text.push(b'\n');
        }
        for l in ls {
            text.extend_from_slice(l);
            text.push(b'\n');
        }
        if !last_nl && !ls.is_empty() {
            text.pop(); // a header always ends with a newline
        }
        let name = dir.join(format!("in{i}"));
        std::fs::write(&name, text).unwrap();
        names.push(name.to_str().unwrap().to_string());
    }
    let bytes: Vec<&(Option<&str>, Vec<Vec<u8>>)> = files.iter().filter(|x| x.0.is_some() || !x.1.is_empty()).collect();
    let same = bytes.iter().all(|x| x.0 == bytes[0].0);
    let mut out = Out { data: Vec::new(), room: usize::MAX };
    let res = (|| -> Result<(), String> {
        let mut s = sorter(key, alloc, unique);
        for n in &names {
            s.add_file(n, &mut &mut out).map_err(|x| format!("{x:?}"))?;
        }
        s.finalize(&mut out).map_err(|x| format!("{x:?}"))
    })();
    tmp_empty()?;
    let head = match bytes.first() {
        Some((Some(h), _)) => format!("{h}\n").into_bytes(),
        _ => Vec::new(),
    };
    match res {
        Ok(()) if !same => Err("files with different headers were sorted together".into()),
        Err(_) if !same && head.starts_with(&out.data) => Ok((hash(&out.data), 1)),
        Err(x) => Err(format!("failed: {x}, having written {:?}", String::from_utf8_lossy(&out.data))),
        Ok(()) => {
            let all: Vec<Vec<u8>> = files.iter().flat_map(|x| x.1.clone()).collect();
            let want = [head, model(key, unique, &all)].concat();
            if out.data != want {
                return Err(format!("wrote {:?}, expected {:?}", String::from_utf8_lossy(&out.data), String::from_utf8_lossy(&want)));
            }
            Ok((hash(&out.data), 1))
        }
    }
}

/// As `run`, with one thing that fails; success is only allowed with the right output
fn run_fault(key: usize, files: &[Vec<Vec<u8>>], e: Env, fault: (u8, usize)) -> Result<(u64, u64), String> {
    let all: Vec<Vec<u8>> = files.concat();
    let want = model(key, false, &all);
    let mut out = Out { data: Vec::new(), room: if fault.0 == 0 { fault.1 } else { usize::MAX } };
    let res = (|| -> Result<(), String> {
        let mut s = sorter(key, e.alloc, false);
        let mut done = 0;
        for (i, f) in files.iter().enumerate() {
            let mut text = Vec::new();
            for l in f {
                text.extend_from_slice(l);
                text.push(b'\n');
            }
            if fault.0 == 3 && i == fault.1 {
                for x in std::fs::read_dir(std::env::temp_dir()).unwrap() {
                    let _ = std::fs::remove_dir_all(x.unwrap().path());
                }
            }
            let fail_at = if fault.0 == 1 && fault.1 >= done && fault.1 - done < text.len() { Some(fault.1 - done) } else { None };
            done += text.len();
            let mut p = Pieces { data: &text, pos: 0, cuts: e.cuts, chunk: e.chunk, intr: e.intr, pending: false, fail_at, calls: 0 };
            s.add(&mut p).map_err(|x| format!("{x:?}"))?;
        }
        s.finalize(&mut out).map_err(|x| format!("{x:?}"))
    })();
    tmp_empty()?;
    match res {
        Ok(()) if out.data != want => Err(format!("reported success, but wrote {:?} rather than {:?}", String::from_utf8_lossy(&out.data), String::from_utf8_lossy(&want))),
        Ok(()) if fault.0 == 0 && fault.1 < want.len() => Err("reported success although output was lost".into()),
        Ok(()) if fault.0 == 1 && fault.1 < want.len() => Err("reported success although reading failed".into()),
        Ok(()) => Ok((hash(&out.data), 1)),
        Err(_) if (fault.0 == 0 || fault.0 == 1) && fault.1 >= want.len() => Err("failed without a fault".into()),
        Err(x) => Ok((hash(&x), 1)),
    }
}

/// With a limit on the size of files, so that spilling fails at every byte
fn run_limit(key: usize, files: &[Vec<Vec<u8>>], e: Env, limit: usize) -> Result<(u64, u64), String> {
    let set = |n: u64| {
        let r = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
        unsafe {
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
        }
    };
    set(limit as u64);
    let r = run_fault(key, files, e, (2, 0));
    set(libc::RLIM_INFINITY);
    r
}

fn seqs(al: &[&str], n: usize, f: &mut dyn FnMut(&[Vec<u8>])) {
    fn go(al: &[&str], n: usize, cur: &mut Vec<Vec<u8>>, f: &mut dyn FnMut(&[Vec<u8>])) {
        if n == 0 {
            return f(cur);
        }
        for a in al {
            cur.push(a.as_bytes().to_vec());
            go(al, n - 1, cur, f);
            cur.pop();
        }
    }
    go(al, n, &mut Vec::new(), f);
}

pub fn explore(st: &mut Stat, th: bool) {
    let base = std::env::temp_dir().join(format!("cdxlib{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let names = std::env::temp_dir().join(format!("cdxlib{}n", std::process::id()));
    std::fs::create_dir_all(&names).unwrap();
    std::env::set_var("TMPDIR", &base);
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let al: [&str; 5] = ["b\tx", "a\tyy", "a", "", "10\tlongvalue"];
    let allocs: Vec<usize> = if th { (0..48).collect() } else { vec![0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 14, 16, 20, 22, 24, 32, 40, 64, 1000] };
    // A: every file of up to n lines, every budget, several read patterns, every key
    for n in 0..=(if th { 5 } else { 4 }) {
        seqs(&al, n, &mut |ls| {
            for key in 0..KEYS.len() {
                if n == 4 && !th && key != 2 && key != 0 && key != 7 {
                    continue;
                }
                if n == 5 && key != 3 && key != 7 {
                    continue;
                }
                for &alloc in &allocs {
                    if n == 4 && !th && alloc % 4 != 0 {
                        continue;
                    }
                    if !st.mine() {
                        continue;
                    }
                    for (chunk, intr) in [(0, false), (1, false), (3, true)] {
                        for unique in [false, true] {
                            let e = Env { alloc, cuts: 0, chunk, intr };
                            let f = [ls.to_vec()];
                            st.case(|| format!("key {:?} unique {unique} {e:?} lines {:?}", KEYS[key], show(&f)), || run(key, unique, &f, true, 0, e));
                        }
                    }
                    if n > 0 && !ls[n - 1].is_empty() {
                        let e = Env { alloc, cuts: 0, chunk: 2, intr: false };
                        let f = [ls.to_vec()];
                        st.case(|| format!("key {:?} no final newline {e:?} lines {:?}", KEYS[key], show(&f)), || run(key, false, &f, false, 0, e));
                    }
                    let e = Env { alloc, cuts: 0, chunk: 0, intr: false };
                    let f = [ls.to_vec()];
                    st.case(|| format!("key {:?} add_data {e:?} lines {:?}", KEYS[key], show(&f)), || run(key, false, &f, true, 1, e));
                }
            }
        });
    }
    // B: every way to cut the reads of short inputs, two files
    let small: [&str; 3] = ["b", "a\t1", ""];
    for n in 1..=(if th { 4 } else { 3 }) {
        seqs(&small, n, &mut |ls| {
            for split in 0..=n {
                let f = [ls[..split].to_vec(), ls[split..].to_vec()];
                let len: usize = ls.iter().map(|x| x.len() + 1).sum();
                for alloc in [0, 2, 4, 6, 8, 12, 20, 1000] {
                    if !st.mine() {
                        continue;
                    }
                    for cuts in 0..(1u64 << (len - 1).min(if th { 11 } else { 7 })) {
                        let e = Env { alloc, cuts, chunk: 0, intr: cuts % 5 == 1 };
                        st.case(|| format!("key 1 {e:?} files {:?}", show(&f)), || run(2, false, &f, true, 0, e));
                    }
                    for last_nl in [false, true] {
                        if !last_nl && f.iter().any(|x| x.last().is_none_or(Vec::is_empty)) {
                            continue;
                        }
                        for unique in [false, true] {
                            let e = Env { alloc, cuts: 0, chunk: 1, intr: false };
                            st.case(|| format!("key 1 newline {last_nl} unique {unique} {e:?} files {:?}", show(&f)), || run(2, unique, &f, last_nl, 0, e));
                        }
                    }
                }
            }
        });
    }
    // C: faults at every point: output full after k bytes, reads failing at k bytes, file size limit of k bytes, temporary directory gone
    for (i, ls) in [vec!["b\tx", "a", "c", "a\ty"], vec!["c", "", "b", "a", "d", "a\tx"], vec!["10\tlongvalue", "9", "8", "7\tx"]].iter().enumerate() {
        let ls: Vec<Vec<u8>> = ls.iter().map(|x| x.as_bytes().to_vec()).collect();
        let len: usize = ls.iter().map(|x| x.len() + 1).sum();
        for split in 0..=ls.len() {
            let f = [ls[..split].to_vec(), ls[split..].to_vec()];
            for alloc in [0, 4, 8, 12, 16, 24, 40, 1000] {
                for chunk in [0, 1, 3] {
                    if !st.mine() {
                        continue;
                    }
                    let e = Env { alloc, cuts: 0, chunk, intr: false };
                    for kind in [0u8, 1] {
                        for k in 0..=len {
                            st.case(|| format!("set {i} fault {kind} at {k} {e:?} files {:?}", show(&f)), || run_fault(2, &f, e, (kind, k)));
                        }
                    }
                    for k in 0..2 {
                        st.case(|| format!("set {i} temporary directory gone at {k} {e:?} files {:?}", show(&f)), || run_fault(2, &f, e, (3, k)));
                    }
                    for k in 0..=len {
                        st.case(|| format!("set {i} file size limit {k} {e:?} files {:?}", show(&f)), || run_limit(2, &f, e, k));
                    }
                }
            }
        }
    }
    // D: larger inputs, many temporary files, long lines beyond the read size
    for size in if th { vec![10, 30, 60, 100, 200, 400, 600] } else { vec![10, 30, 60, 150] } {
        for pat in 0..(if th { 32u64 } else { 8 }) {
            if !st.mine() {
                continue;
            }
            let ls: Vec<Vec<u8>> = (0..size as u64).map(|i| format!("{}\t{}", (i * (pat * 2 + 1) + (i >> (pat % 5))) % (pat + 3), i).into_bytes()).collect();
            for alloc in [16, 64, 200, 1000, 4000] {
                for key in [2, 3, 5] {
                    for unique in [false, true] {
                        let e = Env { alloc, cuts: 0, chunk: 7, intr: false };
                        let f = [ls.clone()];
                        st.case(|| format!("size {size} pattern {pat} key {key} unique {unique} {e:?}"), || run(key, unique, &f, true, 0, e));
                    }
                }
            }
        }
    }
    for len in [8191, 8192, 16383, 16384, 16385, 20000, 33000] {
        if !st.mine() {
            continue;
        }
        let f = [vec![vec![b'z'; len], b"a".to_vec(), vec![b'y'; len / 2], b"b".to_vec(), vec![b'z'; 3]]];
        for alloc in [0, 8, 8192, 16384, 32768, 32770, 65536, 100_000] {
            for chunk in [0, 1000, 16383] {
                let e = Env { alloc, cuts: 0, chunk, intr: false };
                st.case(|| format!("long line of {len} {e:?}"), || run(0, false, &f, true, 0, e));
                st.case(|| format!("long line of {len}, add_data {e:?}"), || run(0, false, &f, true, 1, e));
            }
        }
    }
    // E: lines that look like headers are data once past the first line
    for alloc in 0..64 {
        if !st.mine() {
            continue;
        }
        let f = [vec![b"b".to_vec(), b" CDX\tx\ty".to_vec(), b"a".to_vec(), b" CDX".to_vec(), b" CDX\tx\ty".to_vec()]];
        let e = Env { alloc, cuts: 0, chunk: 3, intr: false };
        for key in [0, 2, 3] {
            st.case(|| format!("header in data key {key} {e:?}"), || run(key, false, &f, true, 0, e));
        }
    }
    // F: files by name, with equal, different and no headers, spilled or not
    let heads = [None, Some(" CDX\ta\tb"), Some(" CDX\ta\tc")];
    for nf in 1..=3usize {
        for hs in 0..3usize.pow(nf as u32) {
            for shape in 0..(if th { 27 } else { 9 }) {
                if !st.mine() {
                    continue;
                }
                let files: Vec<(Option<&str>, Vec<Vec<u8>>)> = (0..nf)
                    .map(|i| {
                        let n = [3, 0, 5][shape / 3usize.pow(i as u32) % 3];
                        (heads[hs / 3usize.pow(i as u32) % 3], (0..n).map(|j| format!("{}\t{}{}", (j * 5 + i * 3 + 1) % 4, i, j).into_bytes()).collect())
                    })
                    .collect();
                for alloc in [0, 6, 12, 20, 40, 60, 100, 1000] {
                    for key in [2, 3, 7] {
                        for unique in [false, true] {
                            st.case(|| format!("by name key {key} unique {unique} budget {alloc} files {files:?}"), || run_named(&names, key, unique, &files, true, alloc));
                        }
                        st.case(|| format!("by name, no final newline, key {key} budget {alloc} files {files:?}"), || run_named(&names, key, false, &files, false, alloc));
                    }
                }
            }
        }
    }
    // G: hundreds of temporary files; lines beyond 65536 bytes carried over from one piece to the next
    for size in [260usize, 300, 520] {
        for unique in [false, true] {
            if !st.mine() {
                continue;
            }
            let ls: Vec<Vec<u8>> = (0..size).map(|i| format!("{}\t{}", i * 7 % 97, i).into_bytes()).collect();
            let e = Env { alloc: 8, cuts: 0, chunk: 0, intr: false };
            st.case(|| format!("{size} temporary files unique {unique}"), || run(2, unique, &[ls.clone()], true, 0, e));
            st.case(|| format!("{size} temporary files by lines unique {unique}"), || run(2, unique, &[ls.clone()], true, 1, e));
        }
    }
    for len in [65535, 65536, 65537, 70000, 131_073, 200_000] {
        if !st.mine() {
            continue;
        }
        let f = [vec![b"m".to_vec(), vec![b'z'; len], b"a".to_vec(), vec![b'y'; len / 2], vec![b'y'; len + 1], b"b".to_vec()]];
        for alloc in [0, 1000, 100_000, 140_000, 200_000, 300_000, 450_000] {
            for chunk in [0, 50_000] {
                let e = Env { alloc, cuts: 0, chunk, intr: false };
                st.case(|| format!("line of {len} {e:?}"), || run(0, false, &f, true, 0, e));
                st.case(|| format!("line of {len}, no newline {e:?}"), || run(0, true, &f, false, 0, e));
                st.case(|| format!("line of {len}, add_data {e:?}"), || run(0, false, &f, true, 1, e));
            }
        }
    }
    std::fs::remove_dir_all(&names).unwrap();
    std::fs::remove_dir_all(&base).unwrap();
}

fn show(f: &[Vec<Vec<u8>>]) -> Vec<Vec<String>> {
    f.iter().map(|x| x.iter().map(|y| String::from_utf8_lossy(y).into_owned()).collect()).collect()
}
