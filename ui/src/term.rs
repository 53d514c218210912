//! A minimal terminal: what a screen shows after the escape sequences written to it.
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cell {
    pub c: char,
    pub bg: u32,
}
const BLANK: Cell = Cell { c: ' ', bg: 0 };

#[derive(Clone)]
pub struct Term {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<Cell>,
    pub alt: bool,
    pub cursor: bool,
    /// other modes that are set, e.g., mouse reports
    pub modes: std::collections::BTreeSet<String>,
    x: usize,
    y: usize,
    bg: u32,
    rest: Vec<u8>,
}

impl Term {
    pub fn new(w: usize, h: usize) -> Self {
        Term { w, h, cells: vec![BLANK; w * h], alt: false, cursor: true, modes: Default::default(), x: 0, y: 0, bg: 0, rest: vec![] }
    }
    pub fn resize(&mut self, w: usize, h: usize) {
        let old = std::mem::replace(self, Term { alt: self.alt, cursor: self.cursor, modes: self.modes.clone(), ..Term::new(w, h) });
        for y in 0..h.min(old.h) {
            for x in 0..w.min(old.w) {
                self.cells[y * w + x] = old.cells[y * old.w + x];
            }
        }
    }
    pub fn line(&self, y: usize) -> String {
        let mut s = String::new();
        let mut skip = false;
        for x in 0..self.w {
            if skip {
                skip = false;
                continue;
            }
            let c = self.cells[y * self.w + x].c;
            skip = c.width().unwrap_or(1) == 2;
            s.push(c);
        }
        s
    }
    /// The text of columns `a..b` of a line.
    pub fn part(&self, y: usize, a: usize, b: usize) -> String {
        (a..b.min(self.w)).map(|x| self.cells[y * self.w + x].c).filter(|c| *c != '\0').collect()
    }
    pub fn show(&self) -> Vec<String> {
        (0..self.h).map(|y| self.line(y).trim_end().to_string()).filter(|l| !l.is_empty()).collect()
    }
    /// Positions of a text: (column, line).
    pub fn find(&self, t: &str) -> Vec<(usize, usize)> {
        let t: Vec<char> = t.chars().collect();
        let mut v = vec![];
        for y in 0..self.h {
            for x in 0..(self.w + 1).saturating_sub(t.len()) {
                if t.iter().enumerate().all(|(k, c)| self.cells[y * self.w + x + k].c == *c) {
                    v.push((x, y));
                }
            }
        }
        v
    }
    /// Blanks the inside of the box with this title.
    pub fn hide(&mut self, title: &str) -> bool {
        let (x, y) = match self.find(title)[..] {
            [(x, y)] if x > 0 => (x - 1, y),
            _ => return false,
        };
        let end = (x + 1..self.w).find(|k| self.cells[y * self.w + k].c == '┐').unwrap_or(self.w);
        for j in y + 1..self.h {
            if self.cells[j * self.w + x].c == '└' {
                return true;
            }
            self.cells[j * self.w + x + 1..j * self.w + end].fill(BLANK);
        }
        true
    }
    pub fn feed(&mut self, data: &[u8]) -> Result<(), String> {
        let mut d = std::mem::take(&mut self.rest);
        d.extend_from_slice(data);
        let mut i = 0;
        while i < d.len() {
            let b = d[i];
            if b == 0x1b {
                if i + 1 >= d.len() {
                    break;
                }
                match d[i + 1] {
                    b'[' => {
                        let mut j = i + 2;
                        while j < d.len() && !(0x40..=0x7e).contains(&d[j]) {
                            j += 1;
                        }
                        if j >= d.len() {
                            break;
                        }
                        let p = String::from_utf8_lossy(&d[i + 2..j]).to_string();
                        self.csi(&p, d[j])?;
                        i = j + 1;
                    }
                    b']' => {
                        let mut j = i + 2;
                        while j < d.len() && d[j] != 7 {
                            j += 1;
                        }
                        if j >= d.len() {
                            break;
                        }
                        i = j + 1;
                    }
                    _ => i += 2,
                }
                continue;
            }
            if b < 0x20 {
                match b {
                    b'\r' => self.x = 0,
                    b'\n' => self.y = (self.y + 1).min(self.h.saturating_sub(1)),
                    _ => (),
                }
                i += 1;
                continue;
            }
            let len = match b {
                0..=0x7f => 1,
                0xc0..=0xdf => 2,
                0xe0..=0xef => 3,
                _ => 4,
            };
            if i + len > d.len() {
                break;
            }
            for c in String::from_utf8_lossy(&d[i..i + len]).chars() {
                self.put(c);
            }
            i += len;
        }
        self.rest = d[i..].to_vec();
        Ok(())
    }
    fn put(&mut self, c: char) {
        let n = c.width().unwrap_or(0);
        if n == 0 {
            return;
        }
        if self.y < self.h && self.x < self.w {
            let k = self.y * self.w + self.x;
            self.cells[k] = Cell { c, bg: self.bg };
            if n == 2 && self.x + 1 < self.w {
                self.cells[k + 1] = Cell { c: '\0', bg: self.bg };
            }
        }
        self.x += n;
    }
    fn csi(&mut self, p: &str, f: u8) -> Result<(), String> {
        let num = |k: usize, d: usize| p.split(';').nth(k).and_then(|x| x.parse().ok()).unwrap_or(d);
        match f {
            b'H' | b'f' => {
                self.y = num(0, 1).max(1) - 1;
                self.x = num(1, 1).max(1) - 1;
            }
            b'A' => self.y = self.y.saturating_sub(num(0, 1)),
            b'B' => self.y += num(0, 1),
            b'C' => self.x += num(0, 1),
            b'D' => self.x = self.x.saturating_sub(num(0, 1)),
            b'G' => self.x = num(0, 1).max(1) - 1,
            b'd' => self.y = num(0, 1).max(1) - 1,
            b'J' => {
                let here = (self.y * self.w + self.x).min(self.cells.len());
                match num(0, 0) {
                    0 => self.cells[here..].fill(BLANK),
                    1 => self.cells[..here].fill(BLANK),
                    _ => self.cells.fill(BLANK),
                }
            }
            b'K' if self.y < self.h => {
                let (a, b) = (self.y * self.w, (self.y + 1) * self.w);
                let x = (a + self.x).min(b);
                match num(0, 0) {
                    0 => self.cells[x..b].fill(BLANK),
                    1 => self.cells[a..x].fill(BLANK),
                    _ => self.cells[a..b].fill(BLANK),
                }
            }
            b'h' | b'l' => {
                let on = f == b'h';
                for q in p.trim_start_matches('?').split(';') {
                    match q {
                        "1049" | "47" | "1047" => {
                            self.alt = on;
                            self.cells.fill(BLANK);
                        }
                        "25" => self.cursor = on,
                        q => {
                            if on {
                                self.modes.insert(q.into());
                            } else {
                                self.modes.remove(q);
                            }
                        }
                    }
                }
            }
            b'm' => {
                let v: Vec<u32> = p.split(|c| c == ';' || c == ':').map(|x| x.parse().unwrap_or(0)).collect();
                let mut i = 0;
                while i < v.len() {
                    match v[i] {
                        0 | 49 => self.bg = 0,
                        x @ (40..=47 | 100..=107) => self.bg = x,
                        k @ (38 | 48) => {
                            let c = if v.get(i + 1) == Some(&5) { i += 2; 1000 + v.get(i).copied().unwrap_or(0) } else { let c = v.iter().skip(i + 2).take(3).fold(0, |a, b| a * 256 + b); i += 4; 10000 + c };
                            if k == 48 {
                                self.bg = c;
                            }
                        }
                        _ => (),
                    }
                    i += 1;
                }
            }
            _ => (),
        }
        Ok(())
    }
}
