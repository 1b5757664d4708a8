//! C04: the assembly level never changes results.
use crate::checks::c03::same;
use crate::enc::*;
use crate::engine::*;
use crate::src::{Rng, Src};
use crate::{ensure, fail};
use rav1e::bench::cpu_features::CpuFeatureLevel;
use rav1e::bench::dist;
use rav1e::bench::frame::{AsRegion, PlaneOffset, PlaneSlice};
use rav1e::bench::kernels;
use rav1e::bench::mc;
use rav1e::bench::partition::*;
use rav1e::bench::predict::*;
use rav1e::bench::tiling::*;
use rav1e::bench::transform::*;
use rav1e::bench::util::{Aligned, Pixel};
use rav1e::context::{BlockOffset, TileBlockOffset};
use rav1e::prelude::{CastFromPrimitive, Config, Plane};
use std::mem::MaybeUninit;

pub static CHECK: Check = Check {
  id: "C04",
  rule: "One case = either (one in six) one generated configuration and clip encoded at pure Rust and at two to four other CPU levels, packets compared byte by byte; or a batch of 60 calls of one primitive (SAD, SATD, weighted SSE, CDEF distortion, 8-tap put/prep and averaging, intra prediction with edges taken from a random picture, forward transform, inverse transform of quantized coefficients, chroma-from-luma averages, CDEF direction search and filter, dequantization) at generated block sizes, positions, bit depths, modes and contents, run at pure Rust and at every supported level. Non-trivial: at least one level above pure Rust was compared.",
  assumptions: &["only the levels this machine supports are explored", "inverse transform inputs are quantized forward-transform outputs, the domain the encoder uses"],
  cases: |t| if t == Tier::Quick { 5000 } else { 200000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

pub const LEVELS: [(CpuFeatureLevel, &str); 7] = [
  (CpuFeatureLevel::RUST, "rust"),
  (CpuFeatureLevel::SSE2, "sse2"),
  (CpuFeatureLevel::SSSE3, "ssse3"),
  (CpuFeatureLevel::SSE4_1, "sse4_1"),
  (CpuFeatureLevel::AVX2, "avx2"),
  (CpuFeatureLevel::AVX512, "avx512"),
  (CpuFeatureLevel::AVX512ICL, "avx512icl"),
];

pub fn supported() -> Vec<(CpuFeatureLevel, &'static str)> {
  std::env::remove_var("RAV1E_CPU_TARGET");
  let top = CpuFeatureLevel::default();
  LEVELS.iter().copied().filter(|l| l.0 <= top).collect()
}

/// Random samples: full range noise, extremes, near-constant or smooth.
pub fn content(style: u64, r: &mut Rng, m: u64, i: usize, stride: usize) -> u64 {
  match style {
    0 => r.next() % (m + 1),
    1 => (r.next() & 1) * m,
    2 => (m / 2 + r.next() % 3) - 1,
    3 => ((i % stride + i / stride) as u64 * 3 + r.next() % 4) & m,
    4 => m,
    _ => {
      if r.next() % 16 == 0 {
        r.next() % (m + 1)
      } else {
        m / 3
      }
    }
  }
}

fn plane<T: Pixel>(s: &mut Src, w: usize, h: usize, pad: usize, bd: usize) -> Plane<T> {
  let mut p = Plane::<T>::new(w, h, 0, 0, pad, pad);
  let style = s.upto(5);
  let mut r = s.bulk();
  let m = (1u64 << bd) - 1;
  let stride = p.cfg.stride;
  for (i, v) in p.data.iter_mut().enumerate() {
    *v = T::cast_from(content(style, &mut r, m, i, stride) as u16);
  }
  p
}

const BLOCKS: [(usize, usize); 22] = [
  (4, 4), (4, 8), (8, 4), (8, 8), (8, 16), (16, 8), (16, 16), (16, 32),
  (32, 16), (32, 32), (32, 64), (64, 32), (64, 64), (64, 128), (128, 64),
  (128, 128), (4, 16), (16, 4), (8, 32), (32, 8), (16, 64), (64, 16),
];

pub const TXS: [TxSize; 19] = {
  use TxSize::*;
  [
    TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16,
    TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4,
    TX_8X32, TX_32X8, TX_16X64, TX_64X16,
  ]
};

type Levels = [(CpuFeatureLevel, &'static str)];

fn dists<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  let a = plane::<T>(s, 192, 192, 64, bd);
  let b = plane::<T>(s, 192, 192, 64, bd);
  for _ in 0..60 {
    let (w, h) = s.pick(&BLOCKS);
    // blocks start at multiples of their width, as in the encoder, in the
    // first plane and anywhere in the second
    let ax = s.us(0, 63.min(192 - w)) / w.min(64) * w.min(64);
    let ay = s.us(0, 63.min(192 - h));
    let ra = a.region(Area::StartingAt { x: ax as isize, y: ay as isize });
    let (bx, by) = (s.us(0, 192 - w), s.us(0, 192 - h));
    let rb = b.region(Area::StartingAt { x: bx as isize, y: by as isize });
    // weighted sse wants alignment in both
    let rb4 = b.region(Area::StartingAt { x: ax as isize, y: by as isize });
    // the CDEF distortion works on 8x8 cells of both pictures
    let ra8 = a.region(Area::StartingAt { x: (ax / 8 * 8) as isize, y: (ay / 8 * 8) as isize });
    let rb8 = b.region(Area::StartingAt { x: (bx / 8 * 8) as isize, y: (by / 8 * 8) as isize });
    let what = s.upto(3);
    let mut r = s.bulk();
    let big = s.chance(1, 4);
    let scale: Aligned<[u32; 32 * 32]> = Aligned::new(std::array::from_fn(|_| {
      if big { (r.next() % (1 << 28)) as u32 } else { 1 + (r.next() % (1 << 16)) as u32 }
    }));
    let (kw, kh) = s.pick(&[(4usize, 4usize), (4, 8), (8, 4), (8, 8)]);
    let f = |cpu| -> u64 {
      match what {
        0 => dist::get_sad(&ra, &rb, w, h, bd, cpu) as u64,
        1 => dist::get_satd(&ra, &rb, w, h, bd, cpu) as u64,
        2 => dist::get_weighted_sse(&ra, &rb4, &scale.data, 32, w, h, bd, cpu),
        _ => dist::cdef_dist_kernel(&ra8, &rb8, kw, kh, bd, cpu) as u64,
      }
    };
    let want = f(CpuFeatureLevel::RUST);
    for (l, n) in &lv[1..] {
      let got = f(*l);
      let name = ["get_sad", "get_satd", "get_weighted_sse", "cdef_dist_kernel"][what as usize];
      ensure!(got == want, format!("{name}"), "{name} {w}x{h} (kernel {kw}x{kh}) {bd}-bit {}-byte samples at {n}: {got}, pure Rust {want}", std::mem::size_of::<T>());
    }
  }
  Ok(())
}

fn mcs<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  let src = plane::<T>(s, 160, 160, 64, bd);
  let modes = [mc::FilterMode::REGULAR, mc::FilterMode::SMOOTH, mc::FilterMode::SHARP, mc::FilterMode::BILINEAR];
  for _ in 0..60 {
    let w = 1usize << s.range(1, 7);
    let hs: Vec<usize> = [2usize, 4, 8, 16, 32, 64, 128]
      .iter()
      .copied()
      .filter(|h| *h <= w * 4 && w <= *h * 4)
      .collect();
    let h = s.pick(&hs);
    // compound prediction starts at 8x8 luma, 4x4 chroma
    let small = w < 4 || h < 4;
    let (x, y) = (s.i(-24, 160), s.i(-24, 160 - 64));
    let (cf, rf) = (s.range(0, 15) as i32, s.range(0, 15) as i32);
    let (cf, rf) = match s.upto(3) {
      0 => (cf, 0),
      1 => (0, rf),
      2 => (0, 0),
      _ => (cf, rf),
    };
    let (mx, my) = if s.chance(1, 5) {
      (modes[3], modes[3])
    } else {
      (modes[s.us(0, 2)], modes[s.us(0, 2)])
    };
    let y = y.min(160 + 40 - h as i64);
    let x = x.min(160 + 40 - w as i64);
    let sl = PlaneSlice { plane: &src, x: x as isize, y: y as isize };
    let what = s.upto(2);
    let tag = format!("{w}x{h} frac ({cf},{rf}) {mx:?}/{my:?} {bd}-bit {}-byte samples", std::mem::size_of::<T>());
    match what {
      _ if small || what == 0 => {
        let f = |cpu| {
          let mut d = Plane::<T>::new(128, 128, 0, 0, 0, 0);
          mc::put_8tap(&mut d.as_region_mut(), sl, w, h, cf, rf, mx, my, bd, cpu);
          d.data.to_vec()
        };
        let want = f(CpuFeatureLevel::RUST);
        for (l, n) in &lv[1..] {
          ensure!(f(*l) == want, "put_8tap", "put_8tap {tag} at {n} differs from pure Rust");
        }
      }
      _ => {
        let f = |cpu, sl: PlaneSlice<'_, T>| {
          let mut t: Box<Aligned<[i16; 128 * 128]>> = Box::new(Aligned::new([0; 128 * 128]));
          mc::prep_8tap(&mut t.data, sl, w, h, cf, rf, mx, my, bd, cpu);
          t
        };
        let want = f(CpuFeatureLevel::RUST, sl);
        for (l, n) in &lv[1..] {
          ensure!(f(*l, sl).data[..w * h] == want.data[..w * h], "prep_8tap", "prep_8tap {tag} at {n} differs from pure Rust");
        }
        let sl2 = PlaneSlice { plane: &src, x: 0, y: 0 };
        let other = f(CpuFeatureLevel::RUST, sl2);
        let g = |cpu| {
          let mut d = Plane::<T>::new(128, 128, 0, 0, 0, 0);
          mc::mc_avg(&mut d.as_region_mut(), &want.data, &other.data, w, h, bd, cpu);
          d.data.to_vec()
        };
        let wavg = g(CpuFeatureLevel::RUST);
        for (l, n) in &lv[1..] {
          ensure!(g(*l) == wavg, "mc_avg", "mc_avg {tag} at {n} differs from pure Rust");
        }
      }
    }
  }
  Ok(())
}

const MODES: [PredictionMode; 14] = {
  use PredictionMode::*;
  [
    DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED,
    D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED,
    PAETH_PRED, UV_CFL_PRED,
  ]
};

fn preds<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  // reconstruction planes are multiples of 8 (luma) or 4 (subsampled chroma)
  let sub = s.chance(1, 2);
  let al = if sub { 4 } else { 8 };
  let (fw, fh) = (s.us(64, 200) / al * al, s.us(64, 200) / al * al);
  let mut src = plane::<T>(s, fw, fh, 96, bd);
  src.cfg.xdec = sub as usize;
  src.cfg.ydec = sub as usize;
  let mut r = s.bulk();
  for _ in 0..60 {
    let tx = s.pick(&TXS);
    let (w, h) = (tx.width(), tx.height());
    let mut mode = s.pick(&MODES);
    if mode == PredictionMode::UV_CFL_PRED && (w > 32 || h > 32) {
      mode = PredictionMode::SMOOTH_PRED;
    }
    let bx = s.us(0, (fw - 1) / w) * w;
    let by = s.us(0, (fh - 1) / h) * h;
    let po = PlaneOffset { x: bx as isize, y: by as isize };
    let up = sub as usize;
    let bo = TileBlockOffset(BlockOffset { x: (bx << up) / 4, y: (by << up) / 4 });
    let bsize = BlockSize::from_width_and_height((w << up).min(64), (h << up).min(64));
    let param = if mode == PredictionMode::UV_CFL_PRED {
      IntraParam::Alpha(s.i(-16, 16) as i16)
    } else if mode.is_directional() && (w >= 8 && h >= 8) {
      IntraParam::AngleDelta(s.i(-3, 3) as i8)
    } else {
      IntraParam::AngleDelta(0)
    };
    let ief = if mode.is_directional() && s.chance(2, 3) {
      let mut m = || {
        if s.chance(1, 4) {
          None
        } else {
          Some(s.pick(&[PredictionMode::DC_PRED, PredictionMode::SMOOTH_PRED, PredictionMode::V_PRED]))
        }
      };
      let (am, lm) = (m(), m());
      Some(IntraEdgeFilterParameters {
        plane: 0,
        above_ref_frame_types: am.map(|_| [RefType::INTRA_FRAME, RefType::NONE_FRAME]),
        left_ref_frame_types: lm.map(|_| [RefType::INTRA_FRAME, RefType::NONE_FRAME]),
        above_mode: am,
        left_mode: lm,
      })
    } else {
      None
    };
    // AC of 2x2-averaged luma: up to 8 times the sample range, zero mean
    let lim = (8i64 << bd) as u64;
    let mut ac: Aligned<[i16; 32 * 32]> = Aligned::new([0; 32 * 32]);
    let n = w.min(32) * h.min(32);
    let mut sum = 0i64;
    for v in ac.data[..n].iter_mut() {
      let x = (r.next() % lim) as i64 / if r.next() % 2 == 0 { 1 } else { 16 };
      *v = x as i16;
      sum += x;
    }
    let avg = sum / n as i64;
    for v in ac.data[..n].iter_mut() {
      *v = (*v as i64 - avg) as i16;
    }
    let tile = TileRect { x: 0, y: 0, width: fw, height: fh };
    let f = |cpu| {
      let mut p = src.clone();
      let mut edge: Aligned<[MaybeUninit<T>; 257]> = Aligned::uninit_array();
      let e = get_intra_edges(
        &mut edge, &p.as_region(), bo, 0, 0, bsize, po, tx, bd, Some(mode),
        ief.is_some(), param,
      );
      mode.predict_intra(
        tile,
        &mut p.region_mut(Area::Rect { x: po.x, y: po.y, width: w, height: h }),
        tx, bd, &ac.data[..n], param, ief, &e, cpu,
      );
      // samples beyond the plane are not part of the picture
      p.as_region().rows_iter().take(fh).flat_map(|r| r[..fw].to_vec()).collect::<Vec<T>>()
    };
    let want = f(CpuFeatureLevel::RUST);
    for (l, nm) in &lv[1..] {
      let got = f(*l);
      ensure!(
        got == want,
        "predict_intra",
        "{mode:?} {param:?} {w}x{h} at ({bx},{by}) of {fw}x{fh}, edge filter {}, {bd}-bit {}-byte samples at {nm} differs from pure Rust",
        ief.is_some(),
        std::mem::size_of::<T>()
      );
    }
  }
  Ok(())
}

fn txs<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  for _ in 0..40 {
    let tx = s.pick(&TXS);
    let (w, h) = (tx.width(), tx.height());
    let ty = s.pick(get_valid_txfm_types(tx));
    let style = s.upto(5);
    let mut r = s.bulk();
    let m = (1u64 << bd) - 1;
    let resid: Vec<i16> = (0..w * h)
      .map(|i| (content(style, &mut r, 2 * m, i, w) as i64 - m as i64).clamp(-(m as i64), m as i64) as i16)
      .collect();
    let fwd = |cpu| {
      let mut out: Aligned<[MaybeUninit<T::Coeff>; 64 * 64]> = Aligned::new([MaybeUninit::zeroed(); 64 * 64]);
      forward_transform(&resid, &mut out.data[..w * h], w, tx, ty, bd, cpu);
      out.data[..w.min(32) * h.min(32)]
        .iter()
        .map(|v| i32::cast_from(unsafe { v.assume_init() }))
        .collect::<Vec<i32>>()
    };
    let want = fwd(CpuFeatureLevel::RUST);
    for (l, n) in &lv[1..] {
      ensure!(fwd(*l) == want, "forward_transform", "forward {tx:?} {ty:?} {bd}-bit {}-byte samples at {n} differs from pure Rust", std::mem::size_of::<T>());
    }
    // quantize with a random step, keep a prefix in scan-like order
    let q = 1i64 << s.range(0, 9);
    let q = q + s.upto(q as u64) as i64;
    let keep = if s.chance(1, 2) { want.len() } else { s.us(1, want.len()) };
    let mut co: Aligned<[i32; 1024]> = Aligned::new([0; 1024]);
    // the eob counts in scan order: cover the kept set with the smallest
    // diagonal that contains it by keeping whole diagonals only
    let (cw, ch) = (w.min(32), h.min(32));
    let mut diag_len = 0;
    let mut d = 0;
    while diag_len < keep && d < cw + ch {
      for y in 0..ch {
        if d >= y && d - y < cw {
          diag_len += 1;
        }
      }
      d += 1;
    }
    let _ = d;
    let lim = 1i64 << (bd + 7);
    for (i, c) in want.iter().enumerate() {
      // coefficients are stored transposed: index = x * ch + y
      let (x, y) = (i / ch, i % ch);
      if x + y < d {
        let v: i64 = (i64::from(*c) / q) * q;
        co.data[i] = v.clamp(-lim, lim - 1) as i32;
      }
    }
    // full-block eob is always valid
    let eob = (cw * ch) as u16;
    let base = plane::<T>(s, 64, 64, 0, bd);
    let inv = |cpu| {
      let mut p = base.clone();
      let mut inp: Aligned<[MaybeUninit<T::Coeff>; 1024]> = Aligned::new([MaybeUninit::zeroed(); 1024]);
      for i in 0..1024 {
        inp.data[i] = MaybeUninit::new(T::Coeff::cast_from(co.data[i]));
      }
      let inp: &[T::Coeff] = unsafe { std::slice::from_raw_parts(inp.data.as_ptr() as *const T::Coeff, cw * ch) };
      inverse_transform_add(
        inp,
        &mut p.region_mut(Area::Rect { x: 0, y: 0, width: w, height: h }),
        eob, tx, ty, bd, cpu,
      );
      p.data.to_vec()
    };
    let want = inv(CpuFeatureLevel::RUST);
    for (l, n) in &lv[1..] {
      ensure!(inv(*l) == want, "inverse_transform", "inverse {tx:?} {ty:?} {bd}-bit {}-byte samples, step {q}, at {n} differs from pure Rust", std::mem::size_of::<T>());
    }
  }
  Ok(())
}

fn cfls<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  let luma = plane::<T>(s, 128, 128, 64, bd);
  for _ in 0..60 {
    let (w, h) = s.pick(&[(4usize, 4usize), (8, 8), (16, 16), (32, 32), (4, 8), (8, 4), (8, 16), (16, 8), (16, 32), (32, 16), (4, 16), (16, 4), (8, 32), (32, 8)]);
    let (xd, yd) = s.pick(&[(0usize, 0usize), (1, 0), (1, 1)]);
    let bs = BlockSize::from_width_and_height(w, h);
    // luma blocks of at most 32x32 that lie more than half inside a frame of
    // a multiple of 8 luma samples
    if w << xd > 32 || h << yd > 32 {
      continue;
    }
    let wp = s.us(0, (((w << xd) / 2).max(1) - 1) / 8) * 8 / (4 << xd);
    let hp = s.us(0, (((h << yd) / 2).max(1) - 1) / 8) * 8 / (4 << yd);
    let (wp, hp) = match s.upto(3) { 0 => (0, 0), 1 => (wp, 0), 2 => (0, hp), _ => (wp, hp) };
    let x = s.us(0, 1) * (w << xd);
    let y = s.us(0, 1) * (h << yd);
    let r = luma.region(Area::StartingAt { x: x as isize, y: y as isize });
    let f = |cpu| -> Vec<i16> {
      let mut ac: Aligned<[MaybeUninit<i16>; 1024]> = Aligned::new([MaybeUninit::zeroed(); 1024]);
      let o = &mut ac.data[..w * h];
      match (xd, yd) {
        (0, _) => kernels::pred_cfl_ac::<T, 0, 0>(o, &r, bs, wp, hp, cpu),
        (_, 0) => kernels::pred_cfl_ac::<T, 1, 0>(o, &r, bs, wp, hp, cpu),
        _ => kernels::pred_cfl_ac::<T, 1, 1>(o, &r, bs, wp, hp, cpu),
      }
      o.iter().map(|v| unsafe { v.assume_init() }).collect()
    };
    let want = f(CpuFeatureLevel::RUST);
    for (l, n) in &lv[1..] {
      ensure!(f(*l) == want, "cfl_ac", "luma average for chroma-from-luma {w}x{h} dec {xd}{yd} pad {wp},{hp} {bd}-bit {}-byte samples at {n} differs from pure Rust", std::mem::size_of::<T>());
    }
  }
  Ok(())
}

fn cdefs<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  let src = plane::<T>(s, 96, 96, 16, bd);
  let sh = bd - 8;
  for _ in 0..60 {
    let sl = PlaneSlice { plane: &src, x: 8 * s.i(0, 11) as isize, y: 8 * s.i(0, 11) as isize };
    if s.chance(1, 3) {
      let f = |cpu| {
        let mut var = 0u32;
        let d = kernels::cdef_find_dir(&sl, &mut var, sh, cpu);
        (d, var)
      };
      let want = f(CpuFeatureLevel::RUST);
      for (l, n) in &lv[1..] {
        let got = f(*l);
        ensure!(got == want, "cdef_find_dir", "direction and variance at ({},{}) {bd}-bit {}-byte samples at {n}: {got:?}, pure Rust {want:?}", sl.x, sl.y, std::mem::size_of::<T>());
      }
      continue;
    }
    let (xd, yd) = s.pick(&[(0usize, 0usize), (1, 0), (1, 1)]);
    // what the encoder's strengths (6 bits of luma, 6 of chroma) expand to
    let pri = (s.upto(15) as i32) << sh;
    let sec = s.pick(&[0i32, 1, 2, 4]) << sh;
    let dir = s.us(0, 7);
    let damping = s.range(2, 6) as i32 + sh as i32;
    let edges = if s.chance(1, 2) { 15 } else { s.upto(15) as u8 };
    let f = |cpu| {
      let mut d = Plane::<T>::new(8, 8, 0, 0, 0, 0);
      unsafe {
        kernels::cdef_filter_block(
          &mut d.as_region_mut(), sl.as_ptr(), src.cfg.stride as isize, pri,
          sec, dir, damping, bd, xd, yd, edges, cpu,
        );
      }
      d.data.to_vec()
    };
    let want = f(CpuFeatureLevel::RUST);
    for (l, n) in &lv[1..] {
      ensure!(f(*l) == want, "cdef_filter", "CDEF of a block dec {xd}{yd} strengths {pri}/{sec} direction {dir} damping {damping} edges {edges} {bd}-bit {}-byte samples at {n} differs from pure Rust", std::mem::size_of::<T>());
    }
  }
  Ok(())
}

fn quants<T: Pixel>(s: &mut Src, bd: usize, lv: &Levels) -> CaseResult {
  for _ in 0..60 {
    let tx = s.pick(&TXS);
    let n = tx.width().min(32) * tx.height().min(32);
    let qi = s.us(1, 255) as u8;
    let (dd, ad) = (s.i(-20, 20) as i8, s.i(-20, 20) as i8);
    let eob = s.us(0, n);
    let mut r = s.bulk();
    let q = 1 + rav1e::bench::quantize::ac_q(qi, ad, bd).get().max(rav1e::bench::quantize::dc_q(qi, dd, bd).get()) as i64;
    // products stay within the coefficient range of the bit depth
    let m = ((1i64 << (bd + 7)) - 1) / q;
    let mut co: Aligned<[MaybeUninit<T::Coeff>; 1024]> = Aligned::new([MaybeUninit::zeroed(); 1024]);
    for i in 0..n {
      let v = if i < eob && (i < 4 || r.next() % 3 == 0) { (r.next() % (2 * m as u64 + 1)) as i64 - m } else { 0 };
      co.data[i] = MaybeUninit::new(T::Coeff::cast_from(v as i32));
    }
    let inp: &[T::Coeff] = unsafe { std::slice::from_raw_parts(co.data.as_ptr() as *const T::Coeff, n) };
    let f = |cpu| -> Vec<i32> {
      let mut o: Aligned<[MaybeUninit<T::Coeff>; 1024]> = Aligned::new([MaybeUninit::zeroed(); 1024]);
      rav1e::bench::quantize::dequantize(qi, inp, eob as u16, &mut o.data[..n], tx, bd, dd, ad, cpu);
      o.data[..n].iter().map(|v| i32::cast_from(unsafe { v.assume_init() })).collect()
    };
    let want = f(CpuFeatureLevel::RUST);
    for (l, nm) in &lv[1..] {
      ensure!(f(*l) == want, "dequantize", "dequantize {tx:?} index {qi} deltas {dd}/{ad} eob {eob} {bd}-bit {}-byte samples at {nm} differs from pure Rust", std::mem::size_of::<T>());
    }
  }
  Ok(())
}

fn encodes(s: &mut Src, rep: &mut Report, lv: &Levels) -> CaseResult {
  let slow = s.chance(1, 4);
  let lim = Limits {
    max_pixels: if slow { 64 * 64 } else { 128 * 96 },
    min_speed: if slow { 0 } else { 4 },
    max_frames: if slow { 3 } else { 5 },
    ..Default::default()
  };
  let g = gen(s, &lim);
  rep.desc = g.desc.clone();
  rep.tag("encode");
  let go = |name: &str| {
    std::env::set_var("RAV1E_CPU_TARGET", name);
    let config = Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
    let r = encode_any(&config, &g.cfg, &g.video);
    std::env::remove_var("RAV1E_CPU_TARGET");
    r
  };
  let base = go("rust")?;
  for _ in 0..s.us(2, 4) {
    let (_, n) = if s.chance(1, 3) { lv[lv.len() - 1] } else { lv[s.us(1, lv.len() - 1)] };
    rep.tag(n);
    let o = go(n)?;
    same(&base, &o, &format!("pure Rust vs {n}"))?;
    rep.nontrivial = true;
  }
  Ok(())
}

fn run(idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lv = supported();
  if lv.len() < 2 {
    return Ok(());
  }
  if idx % 6 == 0 {
    return encodes(s, rep, &lv);
  }
  let what = s.weighted(&[2, 2, 2, 2, 1, 1, 1]) as u64;
  let (wide, bd) = [(false, 8), (true, 10), (true, 12), (true, 8)][s.weighted(&[4, 3, 2, 1])];
  let name = ["distortion", "motion compensation", "intra prediction", "transform", "chroma from luma", "cdef", "dequantize"][what as usize];
  rep.tag(format!("{name} {bd}-bit{}", if wide && bd == 8 { " in u16" } else { "" }));
  rep.nontrivial = true;
  let r = match (what, wide) {
    (0, false) => dists::<u8>(s, bd, &lv),
    (0, true) => dists::<u16>(s, bd, &lv),
    (1, false) => mcs::<u8>(s, bd, &lv),
    (1, true) => mcs::<u16>(s, bd, &lv),
    (2, false) => preds::<u8>(s, bd, &lv),
    (2, true) => preds::<u16>(s, bd, &lv),
    (3, false) => txs::<u8>(s, bd, &lv),
    (3, true) => txs::<u16>(s, bd, &lv),
    (4, false) => cfls::<u8>(s, bd, &lv),
    (4, true) => cfls::<u16>(s, bd, &lv),
    (5, false) => cdefs::<u8>(s, bd, &lv),
    (5, true) => cdefs::<u16>(s, bd, &lv),
    (_, false) => quants::<u8>(s, bd, &lv),
    (_, true) => quants::<u16>(s, bd, &lv),
  };
  rep.desc = format!("{name} batch, {bd}-bit, choices {:?}", &s.log[..s.log.len().min(12)]);
  if let Err(e) = r {
    fail!(e.sig, "{}", e.msg);
  }
  Ok(())
}
