use crate::w::Rng;
use crate::Job;

pub mod conc;
pub mod crypto;
pub mod disk;
pub mod fresh;
pub mod fuzz;
pub mod gen;
pub mod hotp;
pub mod tamper;
pub mod tls;
pub mod kdf;
pub mod kuse;
pub mod life;
pub mod mech;
pub mod mig;
pub mod misc;
pub mod obj;
pub mod opst;
pub mod pin;
pub mod san;
pub mod sess;
pub mod wrap;

pub fn jobs(prop: &str, th: bool) -> Vec<Job> {
    let mut v = vec![];
    v.extend(sess::jobs(prop, th));
    v.extend(crypto::jobs(prop, th));
    v.extend(disk::jobs(prop, th));
    v.extend(obj::jobs(prop, th));
    v.extend(opst::jobs(prop, th));
    v.extend(pin::jobs(prop, th));
    v.extend(life::jobs(prop, th));
    v.extend(kuse::jobs(prop, th));
    v.extend(fuzz::jobs(prop, th));
    v.extend(gen::jobs(prop, th));
    v.extend(kdf::jobs(prop, th));
    v.extend(hotp::jobs(prop, th));
    v.extend(tamper::jobs(prop, th));
    v.extend(wrap::jobs(prop, th));
    v.extend(mech::jobs(prop, th));
    v.extend(mig::jobs(prop, th));
    v.extend(tls::jobs(prop, th));
    v.extend(conc::jobs(prop, th));
    v.extend(san::jobs(prop, th));
    v.extend(fresh::jobs(prop, th));
    v
}
pub fn run(prop: &str, job: &str, arg: u64, r: &mut Rng) {
    match job.split('.').next().unwrap() {
        "sess" => sess::run(prop, job, arg, r),
        "crypto" => crypto::run(prop, job, arg, r),
        "disk" => disk::run(prop, job, arg, r),
        "obj" => obj::run(prop, job, arg, r),
        "opst" => opst::run(prop, job, arg, r),
        "pin" => pin::run(prop, job, arg, r),
        "life" => life::run(prop, job, arg, r),
        "kuse" => kuse::run(prop, job, arg, r),
        "fresh" => fresh::run(prop, job, arg, r),
        "fuzz" => fuzz::run(prop, job, arg, r),
        "gen" => gen::run(prop, job, arg, r),
        "hotp" => hotp::run(prop, job, arg, r),
        "tamper" => tamper::run(prop, job, arg, r),
        "kdf" => kdf::run(prop, job, arg, r),
        "conc" => conc::run(prop, job, arg, r),
        "mech" => mech::run(prop, job, arg, r),
        "mig" => mig::run(prop, job, arg, r),
        "tls" => tls::run(prop, job, arg, r),
        "wrap" => wrap::run(prop, job, arg, r),
        "misc" => misc::run(job, arg, r),
        _ => panic!("unknown job {}", job),
    }
}
pub fn level(prop: &str) -> &'static str {
    match prop {
        "P10" | "P11" => "fault_enumeration",
        _ => "exploration",
    }
}
pub fn rule(prop: &str) -> String {
    let s = match prop {
        "P01" => "random histories of open/close/login/logout/init calls over several sessions and two slots against a state model; a case is one call checked together with the state of all sessions; distinct = (call, model state class, result)",
        "P02" => "random histories of right and wrong PINs given to login, context login, C_SetPIN and C_InitPIN, with logouts, restarts and resets; a case is one authentication checked with the PIN flags; distinct = (call, who, right or wrong, counter class, result)",
        "P03" | "P04" | "P05" | "P06" | "P08" | "P09" | "P26" => "random histories of object calls (create, copy, set, get, find, destroy, generate, derive, wrap, use) from several sessions, login states and slots, with restarts, on both storages, against an object model; a case is one judged call; distinct = (call, object kind, protections, session and login state, result)",
        "P07" => "random keys (class, type, usage attributes, allowed mechanisms, always-authenticate) given to every function and mechanism; a case is one attempt compared with the rule; distinct = (function, mechanism, key kind, usage, result)",
        "P10" => "random state-changing calls with all file operations recorded; a case is one crash image (kill after each operation, loss, subset or tearing of unsynced writes) recovered by a fresh start and compared with the states before and after; distinct = (call, image kind, outcome)",
        "P11" => "random state-changing calls with a fault at each file operation (once or for good) or a bad template entry at each position; a case is one failing or surviving call compared with the state before and after, in memory and after restart; distinct = (call, fault, operation, outcome)",
        "P12" => "random object and PIN histories with every byte written recorded; a case is one scan of files and writes for one secret in one encoding; distinct = (kind of secret, encoding, place)",
        "P13" => "stored records modified field by field, bit by bit, cut, extended, swapped between objects, attributes and tokens; a case is one damaged database opened and used; distinct = (record kind, damage, operation, outcome)",
        "P23" => "threads running random calls with injected delays on lock operations; a case is one checked history or operation result; distinct = (workload, call, result) and delays injected are counted",
        "P24" => "the workloads of the other monitors under AddressSanitizer, ThreadSanitizer and Valgrind memcheck; a case is one call executed under a sanitizer; distinct = (sanitizer, job, call kind)",
        "P25" => "every function with hostile arguments whose pointers are valid; a case is one call with its return code and a health check of the token afterwards; distinct = (function, mechanism, shape of the arguments, result)",
        "P27" => "random output, keys, IVs, salts, nonces and identifiers over threads, sessions, equal seeds, forks and restarts; a case is one 16-byte block or value compared with all earlier ones; distinct = values seen",
        "P28" => "histories of HOTP generations and verifications with restarts, threads and crash images; a case is one value compared with the reference for the counter of the model; distinct = (call, counter class, parameters, result)",
        "P34" => "random SoftHSM token directories, sound and damaged, and bad arguments given to softhsm_migrate; a case is one object file or one whole run judged by the target token afterwards and, with the recording module, by the templates handed over; distinct = (object kind or damage, times imported, slot, size)",
        "P35" => "random calls of the primitives that the rustls provider hands to rustls, sound and damaged, and whole connections with libssl with and without a changed record; a case is one answer compared with the reference, one damaged input or one connection; distinct = (primitive or side and version, suite, group, key, sizes, kind of damage)",
        _ => "randomly generated cases (mechanism, key, parameters, data, call sequence) checked against a model or an independent implementation; distinct = distinct case descriptions (mechanism, parameter and size classes, result)",
    };
    s.to_string()
}
pub use san::reports as san_reports;
