//! Header modes: every sequence of first lines in every mode.
use crate::{hash, Stat};
use cdx::util::{HeaderChecker, HeaderMode};
use std::str::FromStr;

const LINES: [&str; 14] = [
    "a\tb\n", " CDX\ta\tb\n", " CDX\tb\ta\n", " CDX\ta\n", " CDX,a,b\n", "", "\n", " CDX", " CDX\n", " CDX\ta\tb", " CDX\ta\t\n", " CDX\t1a\n", " CDX\ta b\n", "a",
];
const MODES: [&str; 6] = ["match", "Require", "STRIP", "none", "trust", "Ignore"];

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
enum Kind {
    Data,
    Head,
    Bad,
}

fn kind(mode: usize, l: &str) -> Kind {
    if mode == 5 || !l.starts_with(" CDX") {
        return Kind::Data;
    }
    if !l.ends_with('\n') {
        return Kind::Bad;
    }
    if mode == 2 || mode == 3 {
        return Kind::Head;
    }
    let t = &l[4..l.len() - 1];
    let Some(d) = t.chars().next() else { return Kind::Bad };
    if t.len() < 2 || d.is_alphanumeric() {
        return Kind::Bad;
    }
    if t[1..].split(d).all(|x| x.chars().next().is_some_and(char::is_alphabetic) && x.chars().all(|c| c.is_alphanumeric() || c == '_')) {
        Kind::Head
    } else {
        Kind::Bad
    }
}

/// What a sequence of first lines means; None is an error
fn model(mode: usize, files: &[&str], heads: bool) -> Vec<Option<bool>> {
    let mut out = Vec::new();
    let mut first: Option<Option<String>> = None;
    for l in files {
        let k = kind(mode, l);
        if k == Kind::Bad {
            out.push(None);
            return out;
        }
        if l.is_empty() && !heads {
            out.push(Some(false));
            continue;
        }
        let h = k == Kind::Head;
        let r = match (mode, &first) {
            (0, Some(Some(f))) => (h && f == l).then_some(false),
            (0, Some(None)) => (!h).then_some(true),
            (1, None) => h.then_some(true),
            (1, Some(f)) => (h && f.as_deref() == Some(*l)).then_some(false),
            (2, _) => Some(!h),
            (3, _) => (!h).then_some(true),
            (4, Some(_)) => Some(!h),
            _ => Some(true),
        };
        if r.is_none() {
            out.push(None);
            return out;
        }
        // a header to be written is only ever the first file's
        out.push(r.map(|x| if heads { x && first.is_none() && !l.is_empty() } else { x }));
        if first.is_none() {
            first = Some(h.then(|| (*l).to_string()));
        }
    }
    out
}

fn run(mode: usize, files: &[&str], heads: bool) -> Result<(u64, u64), String> {
    let mut c = HeaderChecker::from_mode(HeaderMode::from_str(MODES[mode]).map_err(|x| x.to_string())?);
    let mut got = Vec::new();
    for l in files {
        let r = if heads { c.check_head(l.as_bytes(), "f") } else { c.check(l.as_bytes(), "f") };
        got.push(r.ok());
        if got.last() == Some(&None) {
            break;
        }
    }
    let want = model(mode, files, heads);
    if got == want {
        Ok((hash((mode, heads, got)), files.len() as u64))
    } else {
        Err(format!("gave {got:?}, expected {want:?}"))
    }
}

pub fn explore(st: &mut Stat, th: bool) {
    for n in 0..=(if th { 5 } else { 3 }) {
        let mut idx = vec![0usize; n];
        loop {
            let files: Vec<&str> = idx.iter().map(|i| LINES[*i]).collect();
            for mode in 0..6 {
                for heads in [false, true] {
                    // a header is either a header line or nothing
                    if heads && (mode == 5 || files.iter().any(|x| !x.is_empty() && !x.starts_with(" CDX"))) {
                        continue;
                    }
                    if st.mine() {
                        st.case(|| format!("mode {} heads {heads} {files:?}", MODES[mode]), || run(mode, &files, heads));
                    }
                }
            }
            let mut i = 0;
            while i < n {
                idx[i] += 1;
                if idx[i] < LINES.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == n {
                break;
            }
        }
    }
    for bad in ["", "matc", "match ", "all"] {
        if st.mine() {
            st.case(|| format!("mode {bad:?}"), || if HeaderMode::from_str(bad).is_ok() { Err("accepted".into()) } else { Ok((0, 1)) });
        }
    }
}
