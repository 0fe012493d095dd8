//! Line-oriented driver for scutiger_core::pktline: runs one case per input line against the real
//! code and prints what happened. The oracle is elsewhere.
use scutiger_core::pktline::{Packet, PacketType, Reader, Writer};
use std::io::{self, BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{:02x}", x)).collect() }
}
/// A source that hands out at most `max` bytes at a time, now and then reporting an interruption.
struct Src { d: Vec<u8>, pos: usize, max: usize, tick: usize, intr: usize }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.intr > 0 && self.tick % self.intr == 0 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let n = b.len().min(self.max).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A sink that takes at most `max` bytes at a time and fails after `lim` bytes.
struct Dst { d: Vec<u8>, max: usize, lim: usize, flushes: usize, unflushed: bool }
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.d.len() >= self.lim { return Err(io::Error::new(io::ErrorKind::Other, "full")); }
        let n = b.len().min(self.max).min(self.lim - self.d.len());
        self.d.extend_from_slice(&b[..n]);
        if n > 0 { self.unflushed = true; }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; self.unflushed = false; Ok(()) }
}
fn reads(f: &[&str]) -> String {
    // R <hex> <max> <intr> ops   ops: rN read, p read_packet, iter
    let mut src = Src { d: unhex(f[1]), pos: 0, max: f[2].parse().unwrap(), tick: 0, intr: f[3].parse().unwrap() };
    let mut out = String::new();
    {
        let mut rdr = Reader::new(&mut src);
        for op in f[4].split(',') {
            let res = match op.as_bytes()[0] {
                b'r' => {
                    let n: usize = op[1..].parse().unwrap();
                    let mut buf = vec![0xeeu8; n];
                    match rdr.read(&mut buf) {
                        Ok(k) if k > n => format!("over {}", k),
                        Ok(k) => {
                            let touched = buf[k..].iter().any(|&x| x != 0xee);
                            let _ = touched;
                            format!("ok {}", hex(&buf[..k]))
                        }
                        Err(e) => format!("err {:?}", e.kind()),
                    }
                }
                b'p' => match rdr.read_packet() {
                    Ok(p) => match p.packet_type() {
                        PacketType::Flush => format!("flush {}", p.data().is_none()),
                        PacketType::Delim => format!("delim {}", p.data().is_none()),
                        PacketType::Data(n) => format!("data {} {}", n, p.data().map(hex).unwrap_or_else(|| "none".into())),
                    },
                    Err(e) => format!("err {:?} {:?}", e.kind(), e.io_kind()),
                },
                b'i' => {
                    let v: Vec<String> = rdr.iter().take(100).map(|r| match r {
                        Ok(p) => match p.packet_type() {
                            PacketType::Flush => "flush".to_string(),
                            PacketType::Delim => "delim".to_string(),
                            PacketType::Data(_) => format!("data:{}", p.data().map(hex).unwrap_or_else(|| "none".into())),
                        },
                        Err(e) => format!("err:{:?}", e.kind()),
                    }).take(60).collect();
                    format!("items {}", v.join("/"))
                }
                _ => "?".into(),
            };
            out.push_str(&res);
            out.push(';');
        }
    }
    out.push_str(&format!("pos {}", src.pos));
    out
}
fn writes(f: &[&str]) -> String {
    // W <max> <lim> ops   ops: w<hex> write, a<hex> write_all, d<hex> data packet, f, s (delim), F flush
    let mut dst = Dst { d: vec![], max: f[1].parse().unwrap(), lim: f[2].parse().unwrap(), flushes: 0, unflushed: false };
    let mut out = String::new();
    {
        let mut w = Writer::new(&mut dst);
        for op in f[3].split(',') {
            let a = unhex(&op[1..]);
            let r: Result<usize, String> = match op.as_bytes()[0] {
                b'w' => w.write(&a).map_err(|e| format!("{:?}", e.kind())),
                b'a' => w.write_all(&a).map(|_| 0).map_err(|e| format!("{:?}", e.kind())),
                b'd' => w.write_packet(&Packet::new(PacketType::Data(a.len()), &a)).map_err(|e| format!("{:?}", e.kind())),
                b'f' => w.write_packet(&Packet::new(PacketType::Flush, b"")).map_err(|e| format!("{:?}", e.kind())),
                b's' => w.write_packet(&Packet::new(PacketType::Delim, b"")).map_err(|e| format!("{:?}", e.kind())),
                b'F' => w.flush().map(|_| 0).map_err(|e| format!("{:?}", e.kind())),
                _ => Ok(0),
            };
            match r { Ok(n) => out.push_str(&format!("ok {};", n)), Err(e) => out.push_str(&format!("err {};", e)) }
        }
    }
    out.push_str(&format!("out {} {}", hex(&dst.d), dst.unflushed));
    out
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let so = io::stdout();
    let mut so = io::BufWriter::new(so.lock());
    for line in io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let r = catch_unwind(AssertUnwindSafe(|| match f[0] { "R" => reads(&f), "W" => writes(&f), _ => "?".into() }));
        let _ = writeln!(so, "{}", r.unwrap_or_else(|_| "PANIC".into()));
    }
    let _ = so.flush();
}
