//! fork/wait/mmap through the C library that std links anyway.
extern "C" {
    pub fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn _exit(c: i32) -> !;
    fn usleep(us: u32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub fn shared(n: usize) -> *mut u64 {
    let p = unsafe { mmap(std::ptr::null_mut(), n * 8, 3, 0x21, -1, 0) };
    if p as isize == -1 { panic!("HARNESS: mmap") }
    p as *mut u64
}
pub enum End { Running, Exited(i32), Signal(i32) }
pub fn poll(pid: i32) -> End {
    let mut st = 0;
    let r = unsafe { waitpid(pid, &mut st, 1) };
    if r == 0 { End::Running } else if st & 0x7f == 0 { End::Exited((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) }
}
pub fn kill9(pid: i32) { unsafe { kill(pid, 9); let mut st = 0; waitpid(pid, &mut st, 0); } }
pub fn nap(ms: u32) { unsafe { usleep(ms * 1000); } }
pub fn no_core() { unsafe { setrlimit(4, &[0, 0]); } }
/// bound the address space of the calling process (bytes)
pub fn mem_limit(n: u64) { unsafe { setrlimit(9, &[n, n]); } }

/// Runs jobs 0..n in forked children.  `job(i, step)` runs one job, noting progress in *step; it returns
/// a report (empty: passed).  A child that dies or hangs is reported for the job it was running, and
/// the remaining jobs go on in a new child.  Stops early once `enough` of the reports have been collected.
pub struct Report { pub job: usize, pub step: u64, pub text: String }
pub fn run_jobs(jobs: &[usize], procs: usize, hang_s: u64, enough: &dyn Fn(&[Report]) -> bool, job: &dyn Fn(usize, &(dyn Fn(u64) + Sync)) -> Vec<String>) -> (Vec<Report>, usize) {
    const N: usize = 8; // words per child: job index, step, done count, stop flag
    let shm = shared((procs + 1) * N + 8);
    let stop = unsafe { shm.add(procs * N) };
    let dir = std::env::temp_dir().join(format!("vh{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    struct C { pid: i32, next: usize, seen: (u64, u64), since: std::time::Instant, alive: bool, gen: usize, files: Vec<std::path::PathBuf> }
    let start = |k: usize, from: usize, gen: usize| -> (i32, std::path::PathBuf) {
        let path = dir.join(format!("r{}_{}", k, gen));
        let pid = unsafe { fork() };
        if pid == 0 {
            no_core();
            let w = unsafe { shm.add(k * N) };
            let mut i = from;
            while i < jobs.len() {
                unsafe {
                    if std::ptr::read_volatile(stop) != 0 { break }
                    std::ptr::write_volatile(w, i as u64);
                    std::ptr::write_volatile(w.add(1), 0);
                }
                let wa = w as usize;
                let rep = job(jobs[i], &|s| unsafe { std::ptr::write_volatile((wa as *mut u64).add(1), s) });
                unsafe { std::ptr::write_volatile(w.add(2), *w.add(2) + 1) }
                if !rep.is_empty() {
                    use std::io::Write;
                    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&path).unwrap();
                    let step = unsafe { *w.add(1) };
                    for r in rep { let _ = f.write_all(format!("{}\t{}\t{}\n", jobs[i], step, r.replace('\n', " ")).as_bytes()); }
                    unsafe { std::ptr::write_volatile(w.add(3), 1); _exit(7) } // the state may be corrupt: go on in a new process
                }
                i += procs;
            }
            unsafe { _exit(0) }
        }
        if pid < 0 { panic!("HARNESS: fork") }
        (pid, path)
    };
    let mut cs: Vec<C> = (0..procs).map(|k| { let (pid, p) = start(k, k, 0);
        C { pid, next: k, seen: (0, 0), since: std::time::Instant::now(), alive: true, gen: 0, files: vec![p] } }).collect();
    let mut reports: Vec<Report> = vec![];
    loop {
        let mut any = false;
        for k in 0..procs {
            let c = &mut cs[k];
            if !c.alive { continue }
            any = true;
            let w = unsafe { shm.add(k * N) };
            let (ji, step) = unsafe { (std::ptr::read_volatile(w), std::ptr::read_volatile(w.add(1))) };
            let mut dead: Option<String> = None;
            match poll(c.pid) {
                End::Running => {
                    let now = unsafe { (ji ^ (std::ptr::read_volatile(w.add(2)) << 32), step) };
                    if now != c.seen { c.seen = now; c.since = std::time::Instant::now() }
                    else if c.since.elapsed().as_secs() >= hang_s { kill9(c.pid); dead = Some("{\"class\":[\"hang\"],\"got\":\"no progress\"}".into()) }
                }
                End::Exited(0) => c.alive = false,
                End::Exited(7) => dead = Some(String::new()),
                End::Exited(3) => { eprintln!("harness error in a child"); std::process::exit(3) }
                End::Exited(n) => dead = Some(format!("{{\"class\":[\"crash\"],\"got\":\"exit status {}\"}}", n)),
                End::Signal(n) => dead = Some(format!("{{\"class\":[\"crash\"],\"got\":\"signal {}\"}}", n)),
            }
            if let Some(text) = dead {
                let (ji, step) = unsafe { (std::ptr::read_volatile(w) as usize, std::ptr::read_volatile(w.add(1))) };
                if !text.is_empty() { reports.push(Report { job: jobs[ji], step, text }); }
                let last = c.files.last().unwrap();
                if let Ok(t) = std::fs::read_to_string(last) { for l in t.lines() { let mut p = l.splitn(3, '\t');
                    if let (Some(a), Some(b), Some(t)) = (p.next(), p.next(), p.next()) { reports.push(Report { job: a.parse().unwrap(), step: b.parse().unwrap(), text: t.into() }) } } }
                let _ = std::fs::remove_file(last);
                if enough(&reports) { unsafe { std::ptr::write_volatile(stop, 1) } c.alive = false; continue }
                c.next = ji + procs; c.gen += 1;
                let (pid, p) = start(k, c.next, c.gen);
                let c = &mut cs[k];
                c.pid = pid; c.files.push(p); c.since = std::time::Instant::now(); c.seen = (u64::MAX, 0);
            }
        }
        if !any { break }
        nap(3);
    }
    let done = (0..procs).map(|k| unsafe { *shm.add(k * N + 2) as usize }).sum();
    let _ = std::fs::remove_dir_all(&dir);
    (reports, done)
}
