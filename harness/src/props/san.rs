//! P24: the other workloads again, on builds with ThreadSanitizer and AddressSanitizer and under valgrind
use crate::{job, Job};

/// (job, argument, how many)
const ASAN: &[(&str, u64, usize)] = &[
    ("fuzz.all", 1_000_000_000, 2),
    ("fuzz.mech", 1_000_000_000, 2),
    ("fuzz.derive", 1_000_000_000, 1),
    ("fuzz.obj", 1_000_000_000, 1),
    ("fuzz.enc", 1_000_000_000, 1),
    ("crypto.multi", 0, 1),
    ("crypto.multi", 1, 1),
    ("crypto.msg", 7, 1),
    ("crypto.inplace", 5, 1),
    ("crypto.dual", 6, 1),
    ("crypto.sig", 0, 1),
    ("crypto.rsaenc", 3, 1),
    ("crypto.badparam", 5, 1),
    ("crypto.unwraptamper", 7, 1),
    ("kdf.value", 1_000_000, 2),
    ("kdf.keymat", 1_000_000, 1),
    ("kdf.edge", 1_000_000, 1),
    ("wrap.round", 1_000_000, 1),
    ("wrap.blob", 1_000_000, 1),
    ("wrap.bad", 1_000_000, 1),
    ("opst.one", 0, 1),
    ("opst.one", 1, 1),
    ("opst.multi", 2, 1),
    ("opst.msg", 5, 1),
    ("opst.sm", 0, 1),
    ("opst.mix", 5, 1),
    ("obj.hist", 1_000_000, 2),
    ("obj.hist_nss", 1_000_000, 1),
    ("pin.hist", 400, 1),
    ("gen.import", 1_000_000, 1),
    ("gen.bad", 1_000_000, 1),
    ("hotp.hist", 0, 1),
    ("tamper.damage", 0, 1),
    ("tamper.damage", 1, 1),
    ("tamper.rec", 1, 1),
    ("life.cycle", 400, 1),
    ("life.bad", 400, 1),
    ("life.threads", 60, 1),
    ("conc.op", 0, 1),
    ("conc.crypto", 0, 1),
];
const TSAN: &[(&str, u64, usize)] = &[
    ("conc.obj", 0, 2),
    ("conc.obj", 1, 1),
    ("conc.login", 0, 1),
    ("conc.login", 1, 1),
    ("conc.sess", 0, 2),
    ("conc.op", 0, 2),
    ("conc.crypto", 0, 2),
    ("conc.store", 0, 1),
    ("conc.store", 1, 1),
    ("conc.init", 0, 1),
    ("hotp.threads", 0, 1),
    ("life.threads", 60, 1),
];
const VG: &[(&str, u64, usize)] = &[
    ("fuzz.all", 1_000_000_000, 1),
    ("fuzz.mech", 1_000_000_000, 1),
    ("fuzz.enc", 1_000_000_000, 1),
    ("crypto.multi", 0, 1),
    ("crypto.msg", 7, 1),
    ("kdf.value", 1_000_000, 1),
    ("wrap.round", 1_000_000, 1),
    ("obj.hist", 1_000_000, 1),
];
pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    if prop != "P24" {
        return vec![];
    }
    let k = if th { 4 } else { 1 };
    let mut v = vec![];
    for (s, list, ms) in [("VG", VG, 40_000), ("TSAN", TSAN, 18_000), ("ASAN", ASAN, 14_000)] {
        for (n, a, m) in list {
            for _ in 0..m * k {
                v.push(job(n, *a, if th { ms * 2 } else { ms }).san(s));
            }
        }
    }
    v
}

/// the function nearest to the top of a stack that is the module's own
fn own(lines: &[&str]) -> String {
    for l in lines {
        if let Some(p) = l.find("/repo/") {
            let file = l[p + 6..].split(':').next().unwrap_or("").trim_end_matches(')');
            let f = l.split_whitespace().skip_while(|x| x.starts_with('#') || *x == "at" || *x == "by" || x.starts_with("0x") || *x == "in").next().unwrap_or("?");
            return format!("{}@{}", f.split('<').next().filter(|x| !x.is_empty()).unwrap_or(f), file);
        }
    }
    "?".into()
}
/// sanitizer log files of one worker: (signature, text)
pub fn reports(dir: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut add = |kind: String, block: &[&str]| {
        // what the uninstrumented libraries do among themselves, and the monitors' own doings, are not the module's
        if !block.iter().any(|l| l.contains("libkryoptic_pkcs11.so") || l.contains("/repo/")) {
            return;
        }
        let sig = format!("{}:{}", kind, own(block));
        if out.iter().any(|x| x.0 == sig) || out.len() > 40 {
            return;
        }
        out.push((sig, block.iter().take(90).cloned().collect::<Vec<_>>().join("\n")));
    };
    let Ok(d) = std::fs::read_dir(dir) else { return vec![] };
    for e in d.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if !n.starts_with("san.log") {
            continue;
        }
        let t = std::fs::read(e.path()).map(|b| String::from_utf8_lossy(&b[..b.len().min(8 << 20)]).into_owned()).unwrap_or_default();
        let lines: Vec<&str> = t.lines().collect();
        if n.ends_with(".vg") {
            // ==pid== text, reports divided by empty lines
            let strip: Vec<&str> = lines.iter().map(|l| l.splitn(3, "==").nth(2).unwrap_or(l).trim_start()).collect();
            for b in strip.split(|l| l.is_empty()) {
                let Some(h) = b.first() else { continue };
                let kind = ["Invalid read", "Invalid write", "Invalid free", "Conditional jump", "Use of uninit", "Syscall param", "Mismatched free", "Source and destination overlap", "Uninitialised byte", "Jump to the invalid", "Process terminating"].iter().find(|k| h.contains(**k));
                if let Some(k) = kind {
                    add(format!("valgrind:{}", k), b);
                }
            }
            continue;
        }
        let starts: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].contains("WARNING: ThreadSanitizer:") || lines[*i].contains("ERROR: AddressSanitizer:") || lines[*i].contains("ERROR: ThreadSanitizer:")).collect();
        for (k, i) in starts.iter().enumerate() {
            let end = starts.get(k + 1).copied().unwrap_or(lines.len());
            let h = lines[*i];
            let kind: String = h.split("Sanitizer:").nth(1).unwrap_or("").trim().split(" (").next().unwrap_or("").split(" on ").next().unwrap_or("").to_string();
            add(format!("{}:{}", if h.contains("Thread") { "tsan" } else { "asan" }, kind), &lines[*i..end]);
        }
    }
    out
}
