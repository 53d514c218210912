//! A dashboard on a pseudo terminal of its own, and what its screen shows.
#![allow(dead_code)]
use crate::term::Term;
use omnipaxos_ui::OmniPaxosUI;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};

pub struct Dash {
    pub ui: OmniPaxosUI,
    pub t: Term,
    buf: Arc<(Mutex<Vec<u8>>, Condvar)>,
    n: u32,
}
const W: u16 = 160;
const H: u16 = 40;

/// Runs this program again with a pseudo terminal as its controlling terminal; there, `f` is called.
pub fn on_terminal(f: impl FnOnce()) {
    if std::env::var("DEMO_MASTER").is_ok() {
        return f();
    }
    let (mut m, mut s) = (0, 0);
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) };
    if r != 0 {
        std::process::exit(3);
    }
    let ws = libc::winsize { ws_row: H, ws_col: W, ws_xpixel: 0, ws_ypixel: 0 };
    unsafe { libc::ioctl(m, libc::TIOCSWINSZ, &ws) };
    let file = |fd| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.env("DEMO_MASTER", m.to_string()).env("TERM", "xterm-256color").stdin(file(s)).stdout(file(s));
    unsafe {
        c.pre_exec(|| {
            libc::setsid();
            libc::ioctl(0, libc::TIOCSCTTY as _, 0);
            Ok(())
        });
    }
    let st = c.status().unwrap();
    std::process::exit(st.code().unwrap_or(9));
}

impl Dash {
    pub fn new(config: omnipaxos::OmniPaxosConfig) -> Self {
        let master: i32 = std::env::var("DEMO_MASTER").unwrap().parse().unwrap();
        let buf: Arc<(Mutex<Vec<u8>>, Condvar)> = Default::default();
        let b = buf.clone();
        std::thread::spawn(move || {
            let mut f = unsafe { std::fs::File::from_raw_fd(libc::dup(master)) };
            let mut a = [0u8; 65536];
            while let Ok(n) = f.read(&mut a) {
                b.0.lock().unwrap().extend_from_slice(&a[..n]);
                b.1.notify_all();
            }
        });
        let mut d = Dash { ui: OmniPaxosUI::with(config.into()), t: Term::new(W as usize, H as usize), buf, n: 0 };
        d.ui.start();
        d.sync();
        d
    }
    /// Everything written so far is on the screen.
    fn sync(&mut self) {
        self.n += 1;
        let mark = format!("\x1b]9;mark{}\x07", self.n).into_bytes();
        std::io::stdout().write_all(&mark).unwrap();
        std::io::stdout().flush().unwrap();
        let mut g = self.buf.0.lock().unwrap();
        loop {
            if let Some(at) = g.windows(mark.len()).rposition(|x| x == &mark[..]) {
                let _ = self.t.feed(&g[..at]);
                g.clear();
                return;
            }
            g = self.buf.1.wait(g).unwrap();
        }
    }
    pub fn tick(&mut self, s: omnipaxos::utils::ui::OmniPaxosStates) {
        self.ui.tick(s);
        self.sync();
    }
    /// The row of a peer in the table: words to the right of its id.
    pub fn row(&self, pid: u64) -> Vec<String> {
        let (x, y) = self.t.find("PID")[0];
        for k in 1..20 {
            if y + 2 * k >= self.t.h {
                break;
            }
            let l = self.t.part(y + 2 * k, x, self.t.w);
            let w: Vec<String> = l.split(|c: char| c.is_whitespace() || c == '│').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
            if w.first() == Some(&pid.to_string()) {
                return w[1..].to_vec();
            }
        }
        vec![]
    }
    /// The word after a label.
    pub fn after(&self, label: &str) -> String {
        match self.t.find(label).first() {
            None => String::new(),
            Some((x, y)) => self.t.part(*y, x + label.len(), self.t.w).split_whitespace().next().unwrap_or("").to_string(),
        }
    }
}
