//! Runs a real program under os/simos.c: every system call it makes is decided by a plan.
use crate::engine::real_now;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub k: u32,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}
pub const NF: usize = 64;
pub const NAMES: &[(u32, &str)] = &[
    (1, "short reads"), (2, "read cut at a byte"), (3, "interrupted read"), (4, "delayed read"), (5, "read error"), (11, "short writes"), (12, "write cut at a byte"), (13, "interrupted write"), (15, "write error"), (17, "write of nothing"), (20, "failed allocation"), (21, "failed large allocation"),
    (30, "short file reads"), (31, "short file writes"), (32, "interrupted file I/O"), (33, "failed open for reading"), (34, "failed open for writing"), (35, "failed file write"), (36, "failed file read"), (37, "failed copy"), (38, "failed close"), (39, "failed sync"), (40, "failed rename or unlink"), (41, "failed spawn"), (42, "failed stat"), (43, "killed at an operation"), (44, "short copies"), (45, "full disk"),
];
pub fn name(k: u32) -> &'static str {
    NAMES.iter().find(|n| n.0 == k).map(|n| n.1).unwrap_or("?")
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Log {
    pub status: u64,
    pub ops: u64,
    pub sig: u64,
    pub clock: u64,
    pub allocs: u64,
    pub rand_draws: u64,
    pub clock_reads: u64,
    pub switches: u64,
    pub threads: u64,
    pub mut_ops: u64,
    pub in_bytes: u64,
    pub file_bytes: u64,
    pub pad: [u64; 4],
    pub fired: [u64; NF],
}
impl Log {
    pub fn total_fired(&self) -> u64 {
        self.fired.iter().sum()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ended {
    Exit(i32),
    Signal(i32),
    Deadlock,
    NoProgress,
}
impl Ended {
    pub fn ok(&self) -> bool {
        *self == Ended::Exit(0)
    }
}
pub struct Done {
    pub end: Ended,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub log: Log,
}
pub struct Job<'a> {
    pub bin: &'a str,
    pub args: &'a [&'a str],
    pub shim: &'a str,
    pub env: &'a [(String, String)],
    pub cwd: Option<&'a str>,
    pub input: &'a [u8],
    pub seed: u64,
    pub clock: u64,
    pub budget: u64,
    pub faults: &'a [Fault],
    pub cpu_s: u64,
}
fn mem(data: &[u8]) -> i32 {
    unsafe {
        let fd = libc::memfd_create(c"sim".as_ptr(), 0);
        assert!(fd >= 0, "memfd");
        let mut g = 0;
        while g < data.len() {
            let r = libc::write(fd, data[g..].as_ptr() as _, data.len() - g);
            assert!(r > 0, "memfd write");
            g += r as usize;
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
        fd
    }
}
fn slurp(fd: i32) -> Vec<u8> {
    unsafe {
        let n = libc::lseek(fd, 0, libc::SEEK_END) as usize;
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut v = vec![0u8; n];
        let mut g = 0;
        while g < n {
            let r = libc::read(fd, v[g..].as_mut_ptr() as _, n - g);
            assert!(r > 0, "memfd read");
            g += r as usize;
        }
        v
    }
}
pub fn run(j: &Job) -> Done {
    let mut plan = format!("{} {} {} {}", j.seed, j.clock, j.budget, j.input.len());
    for f in j.faults {
        plan += &format!("\n{} {} {} {}", f.k, f.a, f.b, f.c);
    }
    plan.push('\n');
    let (fin, fout, ferr, fplan) = (mem(j.input), mem(b""), mem(b""), mem(plan.as_bytes()));
    let flog = mem(&[0u8; 4096]);
    let cs = |s: &str| CString::new(s).unwrap();
    let bin = cs(j.bin);
    let argv: Vec<CString> = std::iter::once(cs(j.bin)).chain(j.args.iter().map(|a| cs(a))).collect();
    let mut envp: Vec<CString> = j.env.iter().filter(|(k, v)| !k.contains(['\0', '=']) && !v.contains('\0')).map(|(k, v)| cs(&format!("{k}={v}"))).collect();
    envp.push(cs(&format!("LD_PRELOAD={}", j.shim)));
    envp.push(cs("SIMOS_PLAN=/proc/self/fd/200"));
    envp.push(cs("SIMOS_LOG=/proc/self/fd/201"));
    let ptrs = |v: &[CString]| v.iter().map(|c| c.as_ptr()).chain(std::iter::once(std::ptr::null())).collect::<Vec<_>>();
    let (pa, pe) = (ptrs(&argv), ptrs(&envp));
    let cwd = j.cwd.map(|c| CString::new(std::ffi::OsStr::new(c).as_bytes()).unwrap());
    unsafe {
        // what the program leaves running becomes ours, to be waited for
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            // addresses are the plan's: the shim moves heap and mappings by its seed
            libc::personality(0x0040000);
            for (a, b) in [(fin, 0), (fout, 1), (ferr, 2), (fplan, 200), (flog, 201)] {
                libc::dup2(a, b);
            }
            for f in 3..200 {
                libc::close(f);
            }
            if let Some(c) = &cwd {
                if libc::chdir(c.as_ptr()) != 0 {
                    libc::_exit(98);
                }
            }
            let l = libc::rlimit { rlim_cur: j.cpu_s, rlim_max: j.cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            // a wall-clock stop for a process that waits for something no simulated event brings
            libc::alarm(j.cpu_s as u32 * 3);
            libc::execve(bin.as_ptr(), pa.as_ptr(), pe.as_ptr());
            libc::_exit(97);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut other = 0;
        while libc::waitpid(-1, &mut other, 0) > 0 {}
        let lb = slurp(flog);
        let log: Log = std::ptr::read_unaligned(lb.as_ptr() as *const Log);
        let d = Done {
            end: match log.status {
                101 => Ended::Deadlock,
                103 => Ended::NoProgress,
                _ if libc::WIFEXITED(st) => Ended::Exit(libc::WEXITSTATUS(st)),
                _ => match libc::WTERMSIG(st) {
                    libc::SIGXCPU | libc::SIGALRM => Ended::NoProgress,
                    s => Ended::Signal(s),
                },
            },
            out: slurp(fout),
            err: slurp(ferr),
            log,
        };
        for f in [fin, fout, ferr, fplan, flog] {
            libc::close(f);
        }
        d
    }
}
pub fn stopwatch<R>(f: impl FnOnce() -> R) -> (R, f64) {
    let t = real_now();
    let r = f();
    (r, real_now() - t)
}
