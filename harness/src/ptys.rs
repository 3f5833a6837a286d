//! Running child processes attached to a pseudo terminal

use {
    crate::core::*,
    serde_json::Value,
    std::{
        io::{Read, Write},
        os::{
            fd::{AsRawFd, FromRawFd, OwnedFd, RawFd},
            unix::process::CommandExt,
        },
        process::{Child, Command, Stdio},
        time::{Duration, Instant},
    },
};

pub struct Pty {
    pub master: OwnedFd,
    pub slave: OwnedFd,
}

fn cloexec(fd: RawFd) {
    unsafe {
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
    }
}

pub fn nonblock(fd: RawFd) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}

impl Pty {
    pub fn open(cols: u16, rows: u16) -> Result<Pty, Viol> {
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize {
            ws_row: rows,
            ws_col: cols,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &ws) };
        if r != 0 {
            return viol("HARNESS", format!("openpty: {}", std::io::Error::last_os_error()));
        }
        cloexec(m);
        cloexec(s);
        unsafe {
            Ok(Pty {
                master: OwnedFd::from_raw_fd(m),
                slave: OwnedFd::from_raw_fd(s),
            })
        }
    }
    pub fn resize(&self, cols: u16, rows: u16) {
        let ws = libc::winsize {
            ws_row: rows,
            ws_col: cols,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        unsafe {
            libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &ws);
        }
    }
    pub fn termios(&self) -> Result<(u32, u32, u32, u32, Vec<u8>), Viol> {
        let mut t: libc::termios = unsafe { std::mem::zeroed() };
        if unsafe { libc::tcgetattr(self.slave.as_raw_fd(), &mut t) } != 0 {
            return viol("HARNESS", format!("tcgetattr: {}", std::io::Error::last_os_error()));
        }
        Ok((t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc.to_vec()))
    }
}

/// prepare the running of this program, with the pty as controlling terminal
pub fn child_command(exe: Option<&str>, kind: &str, job: &Value, pty: &Pty) -> Command {
    let exe = match exe {
        Some(e) => std::path::PathBuf::from(e),
        None => std::env::current_exe().unwrap(),
    };
    let mut c = Command::new(exe);
    c.arg("--child").arg(kind).arg(job.to_string());
    c.env_remove("NO_COLOR").env_remove("COLUMNS").env_remove("LINES");
    c.env("TERM", "xterm-256color");
    let slave = pty.slave.as_raw_fd();
    unsafe {
        c.pre_exec(move || {
            if libc::setsid() < 0 {
                return Err(std::io::Error::last_os_error());
            }
            if libc::ioctl(slave, libc::TIOCSCTTY, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    c
}

#[derive(Debug)]
pub struct Output {
    pub stdout: Vec<u8>,
    pub stderr: String,
    /// None when it had to be killed
    pub status: Option<i32>,
    pub capped: bool,
}

pub const CAP: usize = 2_000_000;

/// run a child to its end, giving it the passed bytes on stdin
pub fn run_child(kind: &str, job: &Value, cols: u16, rows: u16, stdin: Option<&[u8]>) -> Result<Output, Viol> {
    let pty = Pty::open(cols, rows)?;
    let mut c = child_command(None, kind, job, &pty);
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    c.stdout(Stdio::piped());
    c.stderr(Stdio::piped());
    let child = match c.spawn() {
        Ok(c) => c,
        Err(e) => return viol("HARNESS", format!("spawn: {e}")),
    };
    collect(child, stdin.unwrap_or(&[]), Duration::from_secs(20))
}

pub fn collect(mut child: Child, stdin: &[u8], timeout: Duration) -> Result<Output, Viol> {
    let deadline = Instant::now() + timeout;
    let mut si = child.stdin.take();
    let mut so = child.stdout.take();
    let mut se = child.stderr.take();
    for fd in [
        si.as_ref().map(|s| s.as_raw_fd()),
        so.as_ref().map(|s| s.as_raw_fd()),
        se.as_ref().map(|s| s.as_raw_fd()),
    ]
    .into_iter()
    .flatten()
    {
        nonblock(fd);
    }
    let mut sent = 0;
    let (mut out, mut err) = (Vec::new(), Vec::new());
    let mut capped = false;
    let mut killed = false;
    let mut buf = vec![0u8; 65536];
    while so.is_some() || se.is_some() {
        if sent >= stdin.len() {
            si = None;
        }
        let mut fds = Vec::new();
        for (fd, ev) in [
            (si.as_ref().map(|s| s.as_raw_fd()), libc::POLLOUT),
            (so.as_ref().map(|s| s.as_raw_fd()), libc::POLLIN),
            (se.as_ref().map(|s| s.as_raw_fd()), libc::POLLIN),
        ] {
            if let Some(fd) = fd {
                fds.push(libc::pollfd { fd, events: ev, revents: 0 });
            }
        }
        let left = deadline.saturating_duration_since(Instant::now());
        if left.is_zero() || capped {
            killed = !capped;
            let _ = child.kill();
            break;
        }
        unsafe {
            libc::poll(fds.as_mut_ptr(), fds.len() as _, left.as_millis().min(1000) as i32);
        }
        if let Some(s) = si.as_mut() {
            match s.write(&stdin[sent..]) {
                Ok(n) => sent += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(_) => si = None,
            }
        }
        if let Some(s) = so.as_mut() {
            match s.read(&mut buf) {
                Ok(0) => so = None,
                Ok(n) => {
                    out.extend_from_slice(&buf[..n]);
                    if out.len() > CAP {
                        capped = true;
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(_) => so = None,
            }
        }
        if let Some(s) = se.as_mut() {
            match s.read(&mut buf) {
                Ok(0) => se = None,
                Ok(n) => {
                    if err.len() < 100_000 {
                        err.extend_from_slice(&buf[..n])
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                Err(_) => se = None,
            }
        }
    }
    let status = child.wait().ok().and_then(|s| s.code());
    Ok(Output {
        stdout: out,
        stderr: String::from_utf8_lossy(&err).to_string(),
        status: if killed || capped { None } else { status },
        capped,
    })
}

/// turn an abnormal end of the child into a violation
pub fn check_end(o: &Output, what: &str) -> R {
    if o.capped {
        return viol("endless output", format!("{what}: endless output: {:?}…", String::from_utf8_lossy(&o.stdout[..300])));
    }
    if o.stderr.contains("HARNESS") {
        return viol("HARNESS", o.stderr.clone());
    }
    if o.stderr.contains("panicked at") {
        let loc = o
            .stderr
            .split("panicked at ")
            .nth(1)
            .and_then(|s| s.split_whitespace().next())
            .unwrap_or("?")
            .to_string();
        let loc: Vec<&str> = loc.split(':').take(2).collect();
        return viol(&format!("panic at {}", loc.join(":")), format!("{what}: {}", o.stderr.trim()));
    }
    match o.status {
        Some(0) => Ok(()),
        None => viol(
            "no end",
            format!("{what}: no end after 20 s, having written {:?}", String::from_utf8_lossy(&o.stdout[..o.stdout.len().min(500)])),
        ),
        Some(s) => viol("bad end", format!("{what}: exit status {s}: {}", o.stderr.trim())),
    }
}
