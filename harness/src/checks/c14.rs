//! C14: IVF writing and reading are inverse; reading rejects damage.
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use std::io::{self, Read, Write};

pub static CHECK: Check = Check {
  id: "C14",
  rule: "One case = a generated file (header fields, frames with sizes from 0 to 70000 bytes and arbitrary timestamps) written through a sink that takes few bytes at a time, compared with the bytes the IVF format prescribes, read back through a source that delivers few bytes at a time and interrupts, then read again after damage (truncation, changed bytes, changed lengths, random bytes) and compared with a reference reader. Non-trivial: at least one frame with data was read back.",
  assumptions: &["width and height fit the 16 bit fields of the format; frames are shorter than 2^32 bytes", "the sink does not fail (a failing sink is a documented panic)"],
  cases: |t| if t == Tier::Quick { 400000 } else { 20000000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

struct Sink {
  data: Vec<u8>,
  rng: crate::src::Rng,
  max: usize,
}

impl Write for Sink {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> {
    if self.max == 0 {
      self.data.extend_from_slice(b);
      return Ok(b.len());
    }
    let r = self.rng.next();
    if r % 11 == 0 {
      return Err(io::ErrorKind::Interrupted.into());
    }
    let n = b.len().min(1 + (r >> 8) as usize % self.max);
    self.data.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> io::Result<()> {
    Ok(())
  }
}

struct Source<'a> {
  data: &'a [u8],
  pos: usize,
  rng: crate::src::Rng,
  max: usize,
}

impl Read for Source<'_> {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let left = &self.data[self.pos..];
    let mut n = b.len().min(left.len());
    if self.max > 0 {
      let r = self.rng.next();
      if r % 11 == 0 {
        return Err(io::ErrorKind::Interrupted.into());
      }
      n = n.min(1 + (r >> 8) as usize % self.max);
    }
    b[..n].copy_from_slice(&left[..n]);
    self.pos += n;
    Ok(n)
  }
}

fn le(b: &[u8]) -> u64 {
  b.iter().rev().fold(0, |a, &x| a << 8 | x as u64)
}

/// Reference reader: the header, if it is one, and the packets that are
/// wholly present.
type Pk = (u64, Vec<u8>);
fn model(d: &[u8]) -> Option<([u8; 4], u16, u16, u32, u32, Vec<Pk>)> {
  if d.len() < 32 || &d[..4] != b"DKIF" {
    return None;
  }
  let mut v = vec![];
  let mut p = 32;
  while d.len() - p >= 12 {
    let n = le(&d[p..p + 4]) as usize;
    let pts = le(&d[p + 4..p + 12]);
    if d.len() - p - 12 < n {
      break;
    }
    v.push((pts, d[p + 12..p + 12 + n].to_vec()));
    p += 12 + n;
  }
  let tag = [d[8], d[9], d[10], d[11]];
  Some((tag, le(&d[12..14]) as u16, le(&d[14..16]) as u16, le(&d[16..20]) as u32, le(&d[20..24]) as u32, v))
}

fn val(s: &mut Src, bits: u32) -> u64 {
  let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
  match s.upto(3) {
    0 => s.pick(&[0, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX as u64, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63]) & max,
    1 => s.upto(1000) & max,
    _ => s.upto(max),
  }
}

fn read_all(d: &[u8], s: &mut Src, max: usize, rep: &mut Report) -> CaseResult {
  let mut src = Source { data: d, pos: 0, rng: crate::src::Rng::new(s.upto(u32::MAX as u64)), max };
  let want = model(d);
  let got = ivf::read_header(&mut src);
  match (&want, got) {
    (None, Ok(h)) => fail!("header-accepted", "read_header accepts {:02x?} as {h:?}", &d[..d.len().min(40)]),
    (None, Err(_)) => {
      rep.tag("bad header");
      return Ok(());
    }
    (Some(_), Err(e)) => fail!("header-refused", "read_header refuses {:02x?}: {e}", &d[..32]),
    (Some(w), Ok(h)) => {
      ensure!(
        (h.tag, h.w, h.h, h.timebase_den, h.timebase_num) == (w.0, w.1, w.2, w.3, w.4),
        "header-fields",
        "header {:02x?} was read as {h:?}",
        &d[..32]
      );
    }
  }
  let w = want.unwrap();
  for (i, p) in w.5.iter().enumerate() {
    match ivf::read_packet(&mut src) {
      Ok(q) => {
        ensure!(q.pts == p.0, "pts", "packet {i} has timestamp {} instead of {}", q.pts, p.0);
        ensure!(*q.data == *p.1, "data", "packet {i} of {} bytes was read as {} bytes that differ", p.1.len(), q.data.len());
        if !p.1.is_empty() {
          rep.nontrivial = true;
        }
      }
      Err(e) => fail!("packet-refused", "packet {i} ({} bytes) was refused: {e}", p.1.len()),
    }
  }
  // nothing complete is left
  if let Ok(q) = ivf::read_packet(&mut src) {
    fail!("packet-invented", "a packet of {} bytes was read after the last complete one", q.data.len());
  }
  Ok(())
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let max = if s.chance(1, 2) { 0 } else { s.us(1, 9) };
  let (w, h) = (val(s, 16) as u16, val(s, 16) as u16);
  let (num, den) = (val(s, 32) as u32, val(s, 32) as u32);
  let mut sink = Sink { data: vec![], rng: crate::src::Rng::new(s.upto(u32::MAX as u64)), max };
  ivf::write_ivf_header(&mut sink, w as usize, h as usize, num as usize, den as usize);
  let mut want = vec![];
  want.extend_from_slice(b"DKIF\0\0\x20\0AV01");
  want.extend_from_slice(&w.to_le_bytes());
  want.extend_from_slice(&h.to_le_bytes());
  want.extend_from_slice(&num.to_le_bytes());
  want.extend_from_slice(&den.to_le_bytes());
  want.extend_from_slice(&[0; 8]);
  let n = s.us(0, 6);
  let mut starts = vec![];
  let mut sizes = vec![];
  for _ in 0..n {
    let pts = val(s, 64);
    let data = match s.weighted(&[8, 3, 1]) {
      0 => s.bytes(20),
      1 => {
        let n = s.us(0, 400);
        let mut b = s.bulk();
        (0..n).map(|_| b.next() as u8).collect()
      }
      _ => {
        let n = s.pick(&[255, 256, 4096, 65535, 65536, 70000]);
        let mut b = s.bulk();
        (0..n).map(|_| b.next() as u8).collect()
      }
    };
    ivf::write_ivf_frame(&mut sink, pts, &data);
    starts.push(want.len());
    sizes.push(data.len());
    want.extend_from_slice(&(data.len() as u32).to_le_bytes());
    want.extend_from_slice(&pts.to_le_bytes());
    want.extend_from_slice(&data);
  }
  rep.desc = format!("{w}x{h} {num}/{den} frames {sizes:?} step {max}");
  if sink.data != want {
    let i = sink.data.iter().zip(&want).position(|(a, b)| a != b);
    fail!("bytes", "the written file differs from the format at byte {i:?} ({} bytes, expected {}): {}", sink.data.len(), want.len(), rep.desc);
  }
  read_all(&want, s, max, rep)?;
  // damage
  for _ in 0..s.us(1, 4) {
    let mut d = want.clone();
    let kind = s.upto(4);
    match kind {
      0 => d.truncate(s.us(0, want.len())),
      1 => {
        for _ in 0..s.us(1, 8) {
          let i = s.us(0, d.len() - 1);
          d[i] = s.upto(255) as u8;
        }
      }
      2 => {
        if !starts.is_empty() {
          let i = s.pick(&starts);
          let len = match s.upto(3) {
            0 => d.len() as u32 + 1 - i as u32,
            1 => s.upto(0x00ff_ffff) as u32,
            2 => (d.len() as u32 - i as u32).saturating_sub(s.us(0, 14) as u32),
            _ => le(&d[i..i + 4]) as u32 ^ (1 << s.upto(23)),
          };
          d[i..i + 4].copy_from_slice(&len.to_le_bytes());
        }
      }
      3 => {
        d = s.bytes(64);
        if s.chance(1, 2) {
          let mut x = b"DKIF".to_vec();
          x.extend(d);
          d = x;
        }
      }
      _ => {
        let i = s.us(0, 31);
        d[i] ^= 1 << s.upto(7);
      }
    }
    rep.tag(["truncated", "bytes", "length", "random", "header"][kind as usize]);
    let nt = rep.nontrivial;
    read_all(&d, s, max, rep)?;
    rep.nontrivial = nt;
  }
  Ok(())
}
