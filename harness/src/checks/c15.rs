//! C15: entropy coding is lossless.
use crate::engine::*;
use crate::src::{Rng, Src};
use crate::{ensure, fail};
use bitstream_io::{BigEndian, BitWrite, BitWriter};
use rav1e::bench::context::*;
use rav1e::bench::ec::*;
use rav1e::prelude::ChromaSampling;

pub static CHECK: Check = Check {
  id: "C15",
  rule: "One case = a generated sequence of up to 4000 coded values (adaptive symbols of every alphabet size from random or default probability tables, non-adaptive symbols, booleans, bits, literals, Golomb, quasi-uniform and sub-exponential values) written directly, through a recorder replayed in pieces, through two recorders, with checkpoints, junk and rollbacks in between, and into a counter; all must give the same bytes, positions and adapted tables, and a decoder written from section 8.2 of the AV1 specification must read the values back, also with zero padding behind them, and find the trailing bits the specification demands; or a sequence of sub-exponential values written to a header. Non-trivial: at least 20 values.",
  assumptions: &["probability tables are non-increasing with every entry from 1 to 32767 (adaptation from the standard's tables reaches no other) and adaptation counts of at most 32", "quasi-uniform alphabets have fewer than 2^30 values, sub-exponential ones at most 2^20"],
  cases: |t| if t == Tier::Quick { 160000 } else { 8000000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

#[derive(Clone, Debug)]
enum Op {
  Sym(u8, usize, u32),
  Raw(Vec<u16>, u32),
  Bool(bool, u16),
  Bit(u16),
  Lit(u8, u32),
  Golomb(u32),
  Quni(u32, u32),
  Subexp(u32, u8, u32),
  USub(u32, u32, u8, u32),
  SSub(i32, i32, i32, u8, i32),
}

const FIELDS: u8 = 20;

macro_rules! field {
  ($f:expr, $fc:expr, $i:expr, $go:ident) => {
    match $f {
      0 => $go!($fc.skip_cdfs[$i % $fc.skip_cdfs.len()]),
      1 => $go!($fc.tx_size_8x8_cdf[$i % $fc.tx_size_8x8_cdf.len()]),
      2 => $go!($fc.tx_size_cdf[1][$i % $fc.tx_size_cdf[1].len()]),
      3 => $go!($fc.coeff_base_cdf[1][0][$i % $fc.coeff_base_cdf[1][0].len()]),
      4 => $go!($fc.partition_w8_cdf[$i % $fc.partition_w8_cdf.len()]),
      5 => $go!($fc.coeff_br_cdf[2][1][$i % $fc.coeff_br_cdf[2][1].len()]),
      6 => $go!($fc.eob_flag_cdf16[1][$i % 2]),
      7 => $go!($fc.eob_flag_cdf32[1][$i % 2]),
      8 => $go!($fc.angle_delta_cdf[$i % $fc.angle_delta_cdf.len()]),
      9 => $go!($fc.partition_w128_cdf[$i % $fc.partition_w128_cdf.len()]),
      10 => $go!($fc.eob_flag_cdf256[0][$i % 2]),
      11 => $go!($fc.partition_cdf[$i % $fc.partition_cdf.len()]),
      12 => $go!($fc.eob_flag_cdf1024[0][$i % 2]),
      13 => $go!($fc.inter_tx_2_cdf[$i % $fc.inter_tx_2_cdf.len()]),
      14 => $go!($fc.y_mode_cdf[$i % $fc.y_mode_cdf.len()]),
      15 => $go!($fc.uv_mode_cfl_cdf[$i % $fc.uv_mode_cfl_cdf.len()]),
      16 => $go!($fc.inter_tx_1_cdf[$i % $fc.inter_tx_1_cdf.len()]),
      17 => $go!($fc.cfl_alpha_cdf[$i % $fc.cfl_alpha_cdf.len()]),
      18 => $go!($fc.lrf_switchable_cdf),
      _ => $go!($fc.nmv_context.joints_cdf),
    }
  };
}

fn get(fc: &CDFContext, f: u8, i: usize) -> Vec<u16> {
  macro_rules! go {
    ($e:expr) => {
      $e.to_vec()
    };
  }
  field!(f, fc, i, go)
}

fn set(fc: &mut CDFContext, f: u8, i: usize, v: &[u16]) {
  macro_rules! go {
    ($e:expr) => {
      $e.copy_from_slice(v)
    };
  }
  field!(f, fc, i, go)
}

fn raw<W: Writer>(w: &mut W, cdf: &[u16], s: u32) {
  macro_rules! go {
    ($($n:literal)*) => {
      match cdf.len() {
        $($n => w.symbol::<$n>(s, cdf.try_into().unwrap()),)*
        n => panic!("alphabet of {n}"),
      }
    };
  }
  go!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

fn apply<W: Writer>(w: &mut W, op: &Op, cw: &mut ContextWriter) {
  match *op {
    Op::Sym(f, i, s) => {
      macro_rules! go {
        ($e:expr) => {{
          let off = cw.fc.offset(&$e);
          w.symbol_with_update(s, off, &mut cw.fc_log, cw.fc)
        }};
      }
      field!(f, cw.fc, i, go)
    }
    Op::Raw(ref c, s) => raw(w, c, s),
    Op::Bool(v, f) => w.bool(v, f),
    Op::Bit(b) => w.bit(b),
    Op::Lit(n, v) => w.literal(n, v),
    Op::Golomb(v) => w.write_golomb(v),
    Op::Quni(n, v) => w.write_quniform(n, v),
    Op::Subexp(n, k, v) => w.write_subexp(n, k, v),
    Op::USub(v, n, k, r) => w.write_unsigned_subexp_with_ref(v, n, k, r),
    Op::SSub(v, lo, hi, k, r) => w.write_signed_subexp_with_ref(v, lo, hi, k, r),
  }
}

/// The symbol decoder of the AV1 specification (8.2).
struct Dec<'a> {
  d: &'a [u8],
  pos: usize,
  value: u32,
  range: u32,
  max_bits: i64,
  used: usize,
  lits: u32,
}

fn floor_log2(x: u32) -> u32 {
  31 - x.leading_zeros()
}

impl<'a> Dec<'a> {
  fn new(d: &'a [u8]) -> Self {
    let mut x = Dec { d, pos: 0, value: 0, range: 1 << 15, max_bits: 8 * d.len() as i64 - 15, used: 0, lits: 0 };
    let n = (d.len() * 8).min(15) as u32;
    let buf = x.f(n);
    x.value = ((1 << 15) - 1) ^ (buf << (15 - n));
    x
  }
  fn f(&mut self, n: u32) -> u32 {
    let mut v = 0;
    for _ in 0..n {
      v = v << 1 | (self.d[self.pos / 8] >> (7 - self.pos % 8)) as u32 & 1;
      self.pos += 1;
    }
    v
  }
  /// `cdf` in the form of the specification: N rising values and a count.
  fn symbol(&mut self, cdf: &[u32]) -> u32 {
    let n = cdf.len() as u32 - 1;
    let mut cur = self.range;
    let mut symbol = -1i32;
    let mut prev;
    loop {
      symbol += 1;
      prev = cur;
      let f = (1 << 15) - cdf[symbol as usize];
      cur = (((self.range >> 8) * (f >> 6)) >> 1) + 4 * (n - symbol as u32 - 1);
      if self.value >= cur {
        break;
      }
    }
    self.range = prev - cur;
    self.value -= cur;
    let bits = 15 - floor_log2(self.range);
    self.range <<= bits;
    let num = (bits as i64).min(self.max_bits.max(0)) as u32;
    let new = self.f(num);
    let padded = new << (bits - num);
    self.value = padded ^ (((self.value + 1) << bits) - 1);
    self.max_bits -= bits as i64;
    self.used += bits as usize;
    symbol as u32
  }
  fn adapt(cdf: &mut [u32], symbol: u32) {
    let n = cdf.len() - 1;
    let rate = 3 + (cdf[n] > 15) as u32 + (cdf[n] > 31) as u32 + floor_log2(n as u32).min(2);
    let mut tmp = 0;
    for (i, c) in cdf[..n - 1].iter_mut().enumerate() {
      if i as u32 == symbol {
        tmp = 1 << 15;
      }
      if tmp < *c {
        *c -= (*c - tmp) >> rate;
      } else {
        *c += (tmp - *c) >> rate;
      }
    }
    cdf[n] += (cdf[n] < 32) as u32;
  }
  fn bool(&mut self, p: u32) -> u32 {
    self.symbol(&[p, 1 << 15, 0])
  }
  fn literal(&mut self, n: u32) -> u32 {
    let mut x = 0;
    for _ in 0..n {
      self.lits += 1;
      x = 2 * x + self.bool(1 << 14);
    }
    x
  }
  fn golomb(&mut self) -> u32 {
    let mut n = 0;
    while self.literal(1) == 0 {
      n += 1;
      if n > 32 {
        return u32::MAX;
      }
    }
    let mut x = 1u32;
    for _ in 0..n {
      x = x << 1 | self.literal(1);
    }
    x - 1
  }
  fn ns(&mut self, n: u32) -> u32 {
    let w = floor_log2(n) + 1;
    let m = (1u32 << w) - n;
    let v = self.literal(w - 1);
    if v < m {
      return v;
    }
    let extra = self.literal(1);
    (v << 1) - m + extra
  }
  fn subexp(&mut self, n: u32, k: u32) -> u32 {
    let mut i = 0;
    let mut mk = 0;
    loop {
      let b2 = if i > 0 { k + i - 1 } else { k };
      let a = 1 << b2;
      if n <= mk + 3 * a {
        return self.ns(n - mk) + mk;
      }
      if self.literal(1) == 1 {
        i += 1;
        mk += a;
      } else {
        return self.literal(b2) + mk;
      }
    }
  }
  fn usub(&mut self, mx: u32, k: u32, r: u32) -> u32 {
    let v = self.subexp(mx, k);
    if (r << 1) <= mx {
      inverse_recenter(r, v)
    } else {
      mx - 1 - inverse_recenter(mx - 1 - r, v)
    }
  }
}

fn inverse_recenter(r: u32, v: u32) -> u32 {
  if v > 2 * r {
    v
  } else if v & 1 == 1 {
    r - ((v + 1) >> 1)
  } else {
    r + (v >> 1)
  }
}

fn spec(c: &[u16]) -> Vec<u32> {
  let n = c.len();
  let mut v: Vec<u32> = c[..n - 1].iter().map(|&x| 32768 - x as u32).collect();
  v.push(32768);
  v.push(c[n - 1] as u32);
  v
}

fn bytes_of(fc: &CDFContext) -> &[u8] {
  // SAFETY: the type consists of u16 arrays only
  unsafe { std::slice::from_raw_parts(fc as *const _ as *const u8, std::mem::size_of::<CDFContext>()) }
}

fn random_cdf(r: &mut Rng, n: usize) -> Vec<u16> {
  let style = r.next() % 4;
  let mut v: Vec<u16> = (0..n - 1)
    .map(|_| match style {
      0 => 1 + (r.next() % 32767) as u16,
      1 => 32767 - (r.next() % 80) as u16,
      2 => 1 + (r.next() % 80) as u16,
      _ => {
        if r.next() & 1 == 0 {
          32767 - (r.next() % 200) as u16
        } else {
          1 + (r.next() % 200) as u16
        }
      }
    })
    .collect();
  v.sort_by(|a, b| b.cmp(a));
  v.push((r.next() % 33) as u16);
  v
}

fn gen_op(s: &mut Src, r: &mut Rng, fc: &CDFContext) -> Op {
  let sym = |s: &mut Src, n: u64| if s.chance(1, 3) { s.pick(&[0, n - 1]) } else { s.upto(n - 1) } as u32;
  match s.weighted(&[12, 3, 2, 2, 2, 2, 1, 1, 1, 1]) {
    0 => {
      let f = s.upto(FIELDS as u64 - 1) as u8;
      let i = s.us(0, 3);
      let n = get(fc, f, i).len() as u64;
      Op::Sym(f, i, sym(s, n))
    }
    1 => {
      let n = s.us(2, 16);
      let c = random_cdf(r, n);
      Op::Raw(c, sym(s, n as u64))
    }
    2 => Op::Bool(s.chance(1, 2), s.pick(&[16384, 1, 32767, 64, 63, 32704, 128, 20000, 127])),
    3 => Op::Bit(s.upto(1) as u16),
    4 => {
      let n = s.upto(32) as u8;
      Op::Lit(n, if n == 0 { 0 } else { s.upto(u32::MAX as u64 >> (32 - n)) as u32 })
    }
    5 => {
      let b = s.upto(31);
      Op::Golomb((s.upto((1 << b) - 1) | 1 << b) as u32 - 1)
    }
    6 => {
      let b = s.upto(29);
      let n = s.range(1, 1 << b) as u32;
      Op::Quni(n, s.upto(n as u64 - 1) as u32)
    }
    7 => {
      let b = s.upto(20);
      let n = s.range(1, 1 << b) as u32;
      Op::Subexp(n, s.upto(7) as u8, s.upto(n as u64 - 1) as u32)
    }
    8 => {
      let b = s.upto(20);
      let n = s.range(1, 1 << b) as u32;
      Op::USub(s.upto(n as u64 - 1) as u32, n, s.upto(7) as u8, s.upto(n as u64 - 1) as u32)
    }
    _ => {
      let lo = s.i(-5000, 5000);
      let hi = lo + s.i(1, 10000);
      Op::SSub(s.i(lo, hi - 1) as i32, lo as i32, hi as i32, s.upto(7) as u8, s.i(lo, hi - 1) as i32)
    }
  }
}

/// What a decoder of the values sees: (value, flat bits read).
fn decode(d: &mut Dec, op: &Op, fc: &mut CDFContext) -> (i64, i64) {
  match *op {
    Op::Sym(f, i, s) => {
      let mut c = spec(&get(fc, f, i));
      let got = d.symbol(&c);
      Dec::adapt(&mut c, got);
      let n = c.len();
      let mut back: Vec<u16> = c[..n - 2].iter().map(|&x| (32768 - x) as u16).collect();
      back.push(c[n - 1] as u16);
      set(fc, f, i, &back);
      (got as i64, s as i64)
    }
    Op::Raw(ref c, s) => (d.symbol(&spec(c)) as i64, s as i64),
    Op::Bool(v, f) => (d.bool(32768 - f as u32) as i64, v as i64),
    Op::Bit(b) => (d.literal(1) as i64, b as i64),
    Op::Lit(n, v) => (d.literal(n as u32) as i64, v as i64),
    Op::Golomb(v) => (d.golomb() as i64, v as i64),
    Op::Quni(n, v) => (d.ns(n) as i64, v as i64),
    Op::Subexp(n, k, v) => (d.subexp(n, k as u32) as i64, v as i64),
    Op::USub(v, n, k, r) => (d.usub(n, k as u32, r) as i64, v as i64),
    Op::SSub(v, lo, hi, k, r) => ((d.usub((hi - lo) as u32, k as u32, (r - lo) as u32) as i32 + lo) as i64, v as i64),
  }
}

fn with_cw<R>(fc: &CDFContext, go: impl FnOnce(&mut ContextWriter) -> R) -> (R, CDFContext) {
  let mut fc = *fc;
  let mut fb = FrameBlocks::new(16, 16);
  let mut tb = fb.as_tile_blocks_mut();
  let bc = BlockContext::new(&mut tb);
  let r = {
    let mut cw = ContextWriter::new(&mut fc, bc);
    go(&mut cw)
  };
  (r, fc)
}

fn same_fc(a: &CDFContext, b: &CDFContext, what: &str) -> CaseResult {
  ensure!(bytes_of(a) == bytes_of(b), format!("tables:{what}"), "{what}: the adapted probability tables differ");
  Ok(())
}

fn symbols(s: &mut Src, rep: &mut Report) -> CaseResult {
  let mut r = s.bulk();
  let mut fc0 = CDFContext::new(s.upto(255) as u8);
  if s.chance(2, 3) {
    for f in 0..FIELDS {
      for i in 0..4 {
        let n = get(&fc0, f, i).len();
        set(&mut fc0, f, i, &random_cdf(&mut r, n));
      }
    }
  }
  let n = match s.weighted(&[6, 3, 1]) {
    0 => s.us(0, 60),
    1 => s.us(0, 400),
    _ => s.us(0, 4000),
  };
  // the operations of long sequences come from the bulk generator
  let mut inner = Src::random(r.next());
  let ops: Vec<Op> = (0..n)
    .map(|_| if n <= 60 { gen_op(s, &mut r, &fc0) } else { gen_op(&mut inner, &mut r, &fc0) })
    .collect();
  rep.nontrivial = n >= 20;
  rep.desc = format!("{n} values: {:?}", &ops[..n.min(30)]);

  // directly
  let mut tells = vec![];
  let (out, fc1) = with_cw(&fc0, |cw| {
    let mut w = WriterEncoder::new();
    for op in &ops {
      apply(&mut w, op, cw);
      tells.push((w.tell(), w.tell_frac()));
    }
    w.done()
  });

  // the decoder; tile data is bounded by its size and continues with zeros,
  // so nothing is demanded for other data that follows
  for junk in [0, 1 + s.us(0, 40)] {
    let mut d2 = out.clone();
    d2.extend((0..junk).map(|_| 0u8));
    let mut d = Dec::new(&d2);
    let mut fc = fc0;
    for (i, op) in ops.iter().enumerate() {
      d.lits = 0;
      let (got, want) = decode(&mut d, op, &mut fc);
      ensure!(got == want, "decode", "value {i} ({op:?}) was decoded as {got} (followed by {junk} zero bytes)");
      // the number of flat bits is what the counting functions promise
      let w = WriterCounter::new();
      let cnt = match *op {
        Op::Quni(n, v) => Some(w.count_quniform(n, v)),
        Op::Subexp(n, k, v) => Some(w.count_subexp(n, k, v)),
        Op::USub(v, n, k, r) => Some(w.count_unsigned_subexp_with_ref(v, n, k, r)),
        Op::SSub(v, lo, hi, k, r) => Some(w.count_signed_subexp_with_ref(v, lo, hi, k, r)),
        _ => None,
      };
      if let Some(c) = cnt {
        ensure!(c == d.lits * 8, "count", "{op:?} takes {} bits but {c}/8 are counted", d.lits);
      }
    }
    same_fc(&fc, &fc1, "decoder")?;
    if junk == 0 {
      // conformance at exit_symbol
      ensure!(d.max_bits >= -14, "exit", "the data is {} bits too short", -d.max_bits);
      let end = d.used;
      let bit = |i: usize| out[i / 8] >> (7 - i % 8) & 1;
      ensure!(end < out.len() * 8 && bit(end) == 1 && (end + 1..out.len() * 8).all(|i| bit(i) == 0), "padding", "bad trailing bits: position {end} of {:02x?}", out);
    }
  }

  // recorded and replayed in pieces; checkpoints and rollbacks; counted
  let cuts = s.us(0, 5);
  let tbo = TileBlockOffset(BlockOffset { x: 0, y: 0 });
  let cs = ChromaSampling::Cs420;
  let (res, fc2) = with_cw(&fc0, |cw| -> Result<Vec<u8>, Fail> {
    let mut rec = WriterRecorder::new();
    let mut w = WriterEncoder::new();
    let mut first = true;
    for (i, op) in ops.iter().enumerate() {
      apply(&mut rec, op, cw);
      if first {
        ensure!((rec.tell(), rec.tell_frac()) == tells[i], "tell:recorder", "after value {i} the recorder is at {:?}, the encoder at {:?}", (rec.tell(), rec.tell_frac()), tells[i]);
      }
      if cuts > 0 && r.next() % 30 < cuts as u64 {
        rec.replay(&mut w);
        first = false;
        ensure!((w.tell(), w.tell_frac()) == tells[i], "tell:replay", "after replaying {i} values the encoder is at {:?} instead of {:?}", (w.tell(), w.tell_frac()), tells[i]);
      }
    }
    rec.replay(&mut w);
    Ok(w.done())
  });
  ensure!(res? == out, "bytes:replay", "replaying a recording gives other bytes");
  same_fc(&fc2, &fc1, "recorder")?;

  let mut junk = Src::random(r.next());
  let style = s.upto(2);
  let (res, fc3) = with_cw(&fc0, |cw| -> Result<Vec<u8>, Fail> {
    let mut rec2 = WriterRecorder::new();
    let mut w = WriterEncoder::new();
    let mut cnt = WriterCounter::new();
    let mut rec = WriterRecorder::new();
    for (i, op) in ops.iter().enumerate() {
      if junk.chance(1, 6) {
        let snap = *cw.fc;
        let cp = cw.checkpoint(&tbo, cs);
        // nested: an inner rollback inside the outer one
        macro_rules! noise {
          ($w:expr) => {{
            let c0 = Writer::checkpoint(&mut $w);
            let before = (Writer::tell(&mut $w), Writer::tell_frac(&mut $w));
            for _ in 0..junk.us(0, 12) {
              let j = gen_op(&mut junk, &mut r, &fc0);
              apply(&mut $w, &j, cw);
            }
            let mid = *cw.fc;
            let cp1 = cw.checkpoint(&tbo, cs);
            let c1 = Writer::checkpoint(&mut $w);
            for _ in 0..junk.us(0, 12) {
              let j = gen_op(&mut junk, &mut r, &fc0);
              apply(&mut $w, &j, cw);
            }
            if junk.chance(1, 2) {
              Writer::rollback(&mut $w, &c1);
              cw.rollback(&cp1);
              same_fc(cw.fc, &mid, "inner rollback")?;
            }
            Writer::rollback(&mut $w, &c0);
            cw.rollback(&cp);
            let after = (Writer::tell(&mut $w), Writer::tell_frac(&mut $w));
            ensure!(before == after, "tell:rollback", "a rollback moves from {before:?} to {after:?}");
          }};
        }
        match style {
          0 => noise!(w),
          1 => noise!(rec),
          _ => noise!(cnt),
        }
        same_fc(cw.fc, &snap, "rollback")?;
      }
      // count without coding, then code
      let cp = cw.checkpoint(&tbo, cs);
      apply(&mut cnt, op, cw);
      cw.rollback(&cp);
      ensure!((cnt.tell(), cnt.tell_frac()) == tells[i], "tell:counter", "after value {i} the counter is at {:?}, the encoder at {:?}", (cnt.tell(), cnt.tell_frac()), tells[i]);
      if style == 0 {
        apply(&mut w, op, cw);
        ensure!((w.tell(), w.tell_frac()) == tells[i], "tell:encoder", "after value {i} an encoder with rollbacks is at {:?} instead of {:?}", (w.tell(), w.tell_frac()), tells[i]);
      } else {
        apply(&mut rec, op, cw);
      }
      if junk.chance(1, 50) {
        cw.fc_log.clear();
      }
    }
    if style != 0 {
      rec.replay(&mut rec2);
      rec2.replay(&mut w);
    }
    Ok(w.done())
  });
  ensure!(res? == out, "bytes:rollback", "rolled back and repeated writing gives other bytes (style {style})");
  same_fc(&fc3, &fc1, "rolled back")?;
  rep.tag("symbols");
  Ok(())
}

/// Sub-exponential codes in headers (5.9.27).
fn header(s: &mut Src, rep: &mut Report) -> CaseResult {
  let n = s.us(1, 60);
  let mut ops: Vec<(u16, u16, i16, i16)> = vec![];
  for _ in 0..n {
    let b = s.upto(12);
    let m = s.range(1, 1 << b) as i64;
    ops.push((m as u16, s.upto(6) as u16, s.i(1 - m, m - 1) as i16, s.i(1 - m, m - 1) as i16));
  }
  let mut w = BitWriter::endian(Vec::new(), BigEndian);
  for &(m, k, r, v) in &ops {
    w.write_s_refsubexpfin(m, k, r, v).map_err(|e| Fail::new("header-write", format!("{e}")))?;
  }
  w.byte_align().unwrap();
  let d = w.into_writer();
  // plain bits
  struct B<'a>(&'a [u8], usize);
  impl B<'_> {
    fn l(&mut self, n: u32) -> u32 {
      let mut v = 0;
      for _ in 0..n {
        let b = self.0.get(self.1 / 8).map_or(0, |x| x >> (7 - self.1 % 8) & 1);
        v = v << 1 | b as u32;
        self.1 += 1;
      }
      v
    }
    fn ns(&mut self, n: u32) -> u32 {
      let w = floor_log2(n) + 1;
      let m = (1u32 << w) - n;
      let v = self.l(w - 1);
      if v < m {
        return v;
      }
      (v << 1) - m + self.l(1)
    }
  }
  let mut b = B(&d, 0);
  for (i, &(m, k, r, v)) in ops.iter().enumerate() {
    let mx = 2 * m as u32 - 1;
    let rr = (r as i32 + m as i32 - 1) as u32;
    let (mut j, mut mk) = (0, 0);
    let x = loop {
      let b2 = if j > 0 { k as u32 + j - 1 } else { k as u32 };
      let a = 1 << b2;
      if mx <= mk + 3 * a {
        break b.ns(mx - mk) + mk;
      }
      if b.l(1) == 1 {
        j += 1;
        mk += a;
      } else {
        break b.l(b2) + mk;
      }
    };
    let y = if (rr << 1) <= mx { inverse_recenter(rr, x) } else { mx - 1 - inverse_recenter(mx - 1 - rr, x) };
    let got = y as i32 - (m as i32 - 1);
    if got != v as i32 {
      fail!("header-code", "value {i}: {v} in ±{} (k {k}, reference {r}) is read as {got}", m - 1);
    }
  }
  rep.tag("header");
  rep.nontrivial = n >= 20;
  rep.desc = format!("{n} header codes {:?}", &ops[..n.min(20)]);
  Ok(())
}

fn run(idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  if idx % 10 == 9 {
    header(s, rep)
  } else {
    symbols(s, rep)
  }
}
