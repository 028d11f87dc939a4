//! Bounded end-to-end checks: random and mutated inputs against references that are independent of
//! the code under test. `check ID --seed S --ms N --out FILE --dir DIR --repo DIR` and `replay ID FILE`.
mod gen;
mod oracle;
mod refcon;
mod reflex;
mod refparse;
mod rng;
mod visit;

use rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Input = Vec<Vec<u8>>;

fn guarded(id: &str, inp: &Input, scratch: &str) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| oracle::check(id, inp, scratch))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if oracle::panic_counts(id) {
                Some(format!("panic: {m}"))
            } else {
                None
            }
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Shrinks the first component of an input while it still fails.
fn shrink(id: &str, inp: Input, scratch: &str, until: Instant) -> Input {
    if !oracle::shrinkable(id) {
        return inp;
    }
    let mut best = inp;
    let slots: Vec<usize> = if id == "C16" { vec![] } else { vec![0] };
    for slot in slots {
        let mut size = best[slot].len() / 2;
        while size >= 1 {
            let mut i = 0;
            let mut any = false;
            while i < best[slot].len() {
                if Instant::now() > until {
                    return best;
                }
                let j = (i + size).min(best[slot].len());
                let mut c = best.clone();
                c[slot].drain(i..j);
                if std::str::from_utf8(&c[slot]).is_ok() && guarded(id, &c, scratch).is_some() {
                    best = c;
                    any = true;
                } else {
                    i = j;
                }
            }
            if !any || size > 1 {
                size /= 2;
            }
        }
    }
    best
}

fn write_replay(path: &str, id: &str, inp: &Input, why: &str) {
    let show: Vec<String> = inp.iter().map(|b| json(&String::from_utf8_lossy(b))).collect();
    let hx: Vec<String> = inp.iter().map(|b| format!("\"{}\"", hex(b))).collect();
    let s = format!(
        "{{\n \"property\": \"{id}\",\n \"input\": [{}],\n \"input_hex\": [{}],\n \"observed\": {},\n \"replay\": \"harness replay {id} THIS_FILE\"\n}}\n",
        show.join(", "),
        hx.join(", "),
        json(why)
    );
    std::fs::write(path, s).unwrap();
}
fn read_replay(path: &str) -> Input {
    let s = std::fs::read_to_string(path).unwrap();
    let a = s.find("\"input_hex\": [").unwrap() + 14;
    let e = a + s[a..].find(']').unwrap();
    s[a..e].split(',').map(|x| unhex(x.trim().trim_matches('"'))).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string());
    let (cmd, id) = (args[1].clone(), args[2].clone());
    if cmd == "words" {
        for w in gen::words(&id) {
            println!("{w}");
        }
        return;
    }
    if std::env::var("VERBOSE").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let scratch = opt("--dir", "/tmp/harness-scratch");
    std::fs::create_dir_all(&scratch).unwrap();
    if cmd == "replay" {
        let inp = read_replay(&args[3]);
        let (i2, s2) = (id.clone(), scratch.clone());
        let r = std::thread::Builder::new().stack_size(512 << 20).spawn(move || guarded(&i2, &inp, &s2)).unwrap().join().unwrap();
        match r {
            Some(w) => {
                println!("FAILS {id}: {w}");
                std::process::exit(1);
            }
            None => println!("holds {id}"),
        }
        return;
    }
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let ms: u64 = opt("--ms", "5000").parse().unwrap();
    let repo = opt("--repo", "/repo");
    let replay = opt("--replay", "/tmp/harness-replay.json");
    let workers: u64 = opt("--jobs", "8").parse().unwrap();
    if args.iter().any(|a| a == "--real") {
        oracle::REAL.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    gen::learn(&repo);
    let corpus = Arc::new(oracle::corpus(&repo));
    let t0 = Instant::now();
    let until = t0 + Duration::from_millis(ms);
    let found: Arc<Mutex<Option<(Input, String)>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    let busy: Vec<Arc<Mutex<Option<(Instant, Input)>>>> = (0..workers).map(|_| Arc::new(Mutex::new(None))).collect();
    for w in 0..workers {
        let (id, found, scratch, corpus, cur) = (id.clone(), found.clone(), format!("{scratch}/{w}"), corpus.clone(), busy[w as usize].clone());
        std::fs::create_dir_all(&scratch).unwrap();
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut st = oracle::Stats::default();
                    let mut i = w;
                    loop {
                        if Instant::now() > until || found.lock().unwrap().is_some() {
                            break;
                        }
                        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i).wrapping_mul(0x9E37_79B9));
                        let inp = match oracle::fixed(&id, i as usize, &corpus) {
                            Some(x) => x,
                            None => oracle::input(&id, &mut r, &corpus),
                        };
                        *cur.lock().unwrap() = Some((Instant::now(), inp.clone()));
                        let v = guarded(&id, &inp, &scratch);
                        *cur.lock().unwrap() = None;
                        oracle::note(&id, &inp, &mut st);
                        if let Some(why) = v {
                            let small = shrink(&id, inp, &scratch, Instant::now() + Duration::from_secs(5));
                            let why = guarded(&id, &small, &scratch).unwrap_or(why);
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((small, why));
                            }
                            break;
                        }
                        i += workers;
                        st.inputs += 1;
                    }
                    st
                })
                .unwrap(),
        );
    }
    // a text on which the code does not come back is reported as a failure
    let hung = loop {
        if hs.iter().all(|h| h.is_finished()) {
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
        let mut h = None;
        for b in &busy {
            if let Some((t, inp)) = &*b.lock().unwrap() {
                if t.elapsed() > Duration::from_secs(60) {
                    h = Some(inp.clone());
                }
            }
        }
        if h.is_some() {
            break h;
        }
    };
    if let Some(inp) = hung {
        if id == "C04" || id == "C01" {
            write_replay(&replay, &id, &inp, "no answer within 60 s");
            println!("FAIL no answer within 60 s");
            std::process::exit(1);
        }
        println!("{{\"inputs\": 0, \"note\": \"an input gave no answer within 60 s (not this property)\"}}");
        std::process::exit(0);
    }
    let mut st = oracle::Stats::default();
    for h in hs {
        st.add(&h.join().unwrap());
    }
    let _ = std::fs::remove_dir_all(&scratch);
    println!("{{\"inputs\": {}, \"accepted_programs\": {}, \"tokens\": {}, \"bytes\": {}, \"ms\": {}, \"seed\": {seed}}}", st.inputs, st.accepted, st.tokens, st.bytes, t0.elapsed().as_millis());
    let f = found.lock().unwrap().take();
    if let Some((inp, why)) = f {
        write_replay(&replay, &id, &inp, &why);
        println!("FAIL {why}");
        std::process::exit(1);
    }
}
