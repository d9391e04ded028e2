//! Crashes and hangs. The search runs in a worker process that keeps the case every thread is at in
//! a shared file. When the worker dies of a signal, or sits on one case, the parent tries those cases
//! one by one in processes of their own, and minimises the one that brings its process down.

use crate::case::Case;
use crate::engine::{untag, Slot};
use crate::model::{Model, X};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub const WORKER: &str = "RAKI_PBT_WORKER";
/// Exit status of a worker that sits on one case.
pub const STUCK: i32 = 77;
const SLOTS: usize = 32;
const SIZE: usize = SLOTS * std::mem::size_of::<Slot>();

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// The slots in the worker's shared file.
pub fn slots(path: &Path) -> &'static [Slot] {
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(path)
        .expect("progress file");
    // PROT_READ | PROT_WRITE, MAP_SHARED
    let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { std::slice::from_raw_parts(p.cast::<Slot>(), SLOTS) }
}

pub struct Crash {
    pub case: Case,
    pub how: String,
    pub evaluations: u64,
}

/// Run the search of a property in a worker. Ok: its exit status.
pub fn supervise(id: &str, dir: &Path) -> Result<i32, Option<Crash>> {
    std::fs::create_dir_all(dir).expect("directory");
    let path: PathBuf = dir.join(format!("progress-{id}-{}", std::process::id()));
    std::fs::write(&path, vec![0u8; SIZE]).expect("progress file");
    let all = slots(&path);
    let status = Command::new(std::env::current_exe().expect("current_exe"))
        .arg(id)
        .env(WORKER, &path)
        .status()
        .expect("worker");
    let _ = std::fs::remove_file(&path);
    match status.code() {
        Some(STUCK) => {}
        Some(c) => return Ok(c),
        // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
        None if matches!(status.signal(), Some(4 | 6 | 7 | 8 | 11)) => {}
        None => return Err(None),
    }
    eprintln!("{id}: the search ended with {status}; looking for the case");
    let evaluations = all.iter().map(|s| s.0[2].load(Relaxed)).sum();
    let at: Vec<Case> = all
        .iter()
        .map(|s| (s.0[0].load(Relaxed), s.0[1].load(Relaxed)))
        .filter(|s| s.1 != 0)
        .map(|(b, t)| untag(b, t))
        .collect();
    for c in at {
        // The quick look at a word covers both ISAs and the conversion.
        let mut shapes = vec![c];
        if let Case::Word {
            width: 32,
            word,
            isa: X::Rv32,
        } = c
        {
            shapes.push(Case::Word {
                width: 32,
                word,
                isa: X::Rv64,
            });
            shapes.push(Case::Usize(u64::from(word)));
        }
        for c in shapes {
            if let Some(how) = brings_down(id, c, "--one") {
                return Err(Some(minimise(id, c, how, evaluations)));
            }
        }
    }
    Err(None)
}

/// How a case brings down a process of its own.
pub fn alone(id: &str, c: Case) -> Option<String> {
    brings_down(id, c, "--one")
}

/// How a case brings down a process that looks at nothing else.
fn brings_down(id: &str, c: Case, mode: &str) -> Option<String> {
    let mut k = Command::new(std::env::current_exe().expect("current_exe"))
        .args([id, mode])
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let _ = k
        .stdin
        .take()
        .expect("stdin")
        .write_all(c.to_json().to_string().as_bytes());
    let end = Instant::now() + Duration::from_secs(15);
    loop {
        if let Some(s) = k.try_wait().expect("wait") {
            return match s.code() {
                Some(_) => None,
                None => Some(format!("the process is killed: {s}")),
            };
        }
        if Instant::now() > end {
            let _ = k.kill();
            let _ = k.wait();
            return Some("the call does not return within 15 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn minimise(id: &str, mut case: Case, mut how: String, evaluations: u64) -> Crash {
    let end = Instant::now() + Duration::from_secs(120);
    loop {
        let b = case.bits();
        let smaller = (0..64).rev().filter(|k| b >> k & 1 == 1).find_map(|k| {
            if Instant::now() > end {
                return None;
            }
            let d = case.with_bits(b & !(1 << k));
            brings_down(id, d, "--one").map(|h| (d, h))
        });
        match smaller {
            Some((d, h)) => (case, how) = (d, h),
            None => {
                return Crash {
                    case,
                    how,
                    evaluations,
                }
            }
        }
    }
}

/// Whether a crash on the case contradicts the property: always for totality and recognition, and
/// otherwise if the word is a supported instruction, or decodes and the crash comes later.
pub fn counts(id: &str, m: &Model, c: Case) -> bool {
    if matches!(id, "C01" | "C02" | "C03" | "C04" | "C05") {
        return true;
    }
    match c {
        Case::Word { width, word, isa } => {
            m.decode(width, word, isa).is_some() || brings_down(id, c, "--decode").is_none()
        }
        Case::Usize(v) if v & 3 == 3 => m.decode(32, v as u32, X::Rv64).is_some(),
        Case::Usize(v) => m.decode(16, v as u32 & 0xffff, X::Rv64).is_some(),
        Case::Pair { .. } => true,
    }
}
