//! C18: film grain parameters.
use crate::dec::{Aom, Dav1d};
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use arrayvec::ArrayVec;
use av1_grain::GrainTableSegment;
use dav1d_sys::Dav1dFilmGrainData;
use rav1e::prelude::*;
use std::collections::HashSet;

pub static CHECK: Check = Check {
  id: "C18",
  rule: "One case = one generated configuration and clip with a generated film grain table (zero to five segments whose limits lie at, next to or away from frame times; all parameters random within their range, including chroma parameters for monochrome video and for scaling from luma; or a photon noise table), encoded with and without the table. Each shown frame's header, parsed by dav1d, must carry exactly the first segment covering its presentation time; frames, sizes apart, must be the same without the table; decoding without grain synthesis (dav1d and libaom) must give the reconstructions. Non-trivial: at least one shown frame carried grain parameters and all packets were compared.",
  assumptions: &[
    "tables are valid in AV1 terms: increasing points, ranges of the syntax, Cb and Cr points both or neither for 4:2:0",
    "clips are at most 64x64 and 16 frames",
  ],
  cases: |t| if t == Tier::Quick { 5000 } else { 150_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

fn points<const N: usize>(s: &mut Src, min: usize) -> ArrayVec<[u8; 2], N> {
  let n = match s.weighted(&[2, 3, 1]) {
    0 => min,
    1 => s.us(min, N),
    _ => N,
  };
  let mut xs: Vec<u8> = vec![];
  while xs.len() < n {
    let x = s.upto(255) as u8;
    // keep them distinct without endless rejection
    let mut x = x;
    while xs.contains(&x) {
      x = x.wrapping_add(1);
    }
    xs.push(x);
  }
  xs.sort();
  xs.into_iter().map(|x| [x, s.upto(255) as u8]).collect()
}

fn coeffs<const N: usize>(s: &mut Src, exact: usize) -> ArrayVec<i8, N> {
  let n = if s.chance(1, 2) { exact } else { N };
  let n = n.min(N);
  (0..n)
    .map(|_| match s.weighted(&[3, 2]) {
      0 => s.i(-20, 20) as i8,
      _ => s.i(-128, 127) as i8,
    })
    .collect()
}

pub fn segment(s: &mut Src, cs: ChromaSampling, t0: u64, t1: u64) -> GrainTableSegment {
  let scaling_points_y = points::<14>(s, 0);
  let cb = points::<10>(s, 0);
  let mut cr = points::<10>(s, 0);
  if cs == ChromaSampling::Cs420 && cb.is_empty() != cr.is_empty() {
    cr = cb.clone();
  }
  let lag = s.upto(3) as u8;
  let n = 2 * lag as usize * (lag as usize + 1);
  GrainTableSegment {
    start_time: t0,
    end_time: t1,
    scaling_points_y,
    scaling_points_cb: cb,
    scaling_points_cr: cr,
    scaling_shift: s.range(8, 11) as u8,
    ar_coeff_lag: lag,
    ar_coeffs_y: coeffs(s, n),
    ar_coeffs_cb: coeffs(s, n + 1),
    ar_coeffs_cr: coeffs(s, n + 1),
    ar_coeff_shift: s.range(6, 9) as u8,
    cb_mult: s.upto(255) as u8,
    cb_luma_mult: s.upto(255) as u8,
    cb_offset: s.upto(511) as u16,
    cr_mult: s.upto(255) as u8,
    cr_luma_mult: s.upto(255) as u8,
    cr_offset: s.upto(511) as u16,
    overlap_flag: s.chance(1, 2),
    chroma_scaling_from_luma: s.chance(1, 3),
    grain_scale_shift: s.upto(3) as u8,
    random_seed: match s.weighted(&[3, 1, 1]) {
      0 => s.upto(65535) as u16,
      1 => (65536 - 3248 * s.range(1, 8)) as u16,
      _ => 0,
    },
  }
}

/// What a decoder shall find, apart from the seed.
fn differs(
  d: &Dav1dFilmGrainData, e: &GrainTableSegment, cs: ChromaSampling,
  limited: bool,
) -> Option<String> {
  macro_rules! eq {
    ($n:literal, $a:expr, $b:expr) => {
      if $a as i64 != $b as i64 {
        return Some(format!("{}: {} in the stream, {} in the table", $n, $a, $b));
      }
    };
  }
  let mono = cs == ChromaSampling::Cs400;
  eq!("luma points", d.num_y_points, e.scaling_points_y.len());
  for (i, p) in e.scaling_points_y.iter().enumerate() {
    eq!("luma point", d.y_points[i][0], p[0]);
    eq!("luma scaling", d.y_points[i][1], p[1]);
  }
  let cfl = !mono && e.chroma_scaling_from_luma;
  eq!("scaling from luma", d.chroma_scaling_from_luma, cfl);
  let chroma = !(mono
    || cfl
    || (cs == ChromaSampling::Cs420 && e.scaling_points_y.is_empty()));
  eq!("scaling shift", d.scaling_shift, e.scaling_shift);
  eq!("lag", d.ar_coeff_lag, e.ar_coeff_lag);
  eq!("coefficient shift", d.ar_coeff_shift, e.ar_coeff_shift);
  eq!("grain scale shift", d.grain_scale_shift, e.grain_scale_shift);
  eq!("overlap", d.overlap_flag, e.overlap_flag);
  eq!("clipping", d.clip_to_restricted_range, limited);
  let luma = !e.scaling_points_y.is_empty();
  let n = 2 * e.ar_coeff_lag as usize * (e.ar_coeff_lag as usize + 1);
  if luma {
    for i in 0..n {
      eq!("luma coefficient", d.ar_coeffs_y[i], e.ar_coeffs_y[i]);
    }
  }
  for (pl, pts, co, m, lm, off) in [
    (0, &e.scaling_points_cb, &e.ar_coeffs_cb, e.cb_mult, e.cb_luma_mult, e.cb_offset),
    (1, &e.scaling_points_cr, &e.ar_coeffs_cr, e.cr_mult, e.cr_luma_mult, e.cr_offset),
  ] {
    let np = if chroma { pts.len() } else { 0 };
    eq!("chroma points", d.num_uv_points[pl], np);
    for i in 0..np {
      eq!("chroma point", d.uv_points[pl][i][0], pts[i][0]);
      eq!("chroma scaling", d.uv_points[pl][i][1], pts[i][1]);
    }
    if cfl || np > 0 {
      for i in 0..n + luma as usize {
        eq!("chroma coefficient", d.ar_coeffs_uv[pl][i], co[i]);
      }
    }
    if np > 0 {
      eq!("chroma multiplier", d.uv_mult[pl], m as i32 - 128);
      eq!("chroma luma multiplier", d.uv_luma_mult[pl], lm as i32 - 128);
      eq!("chroma offset", d.uv_offset[pl], off as i32 - 256);
    }
  }
  None
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits {
    max_pixels: 48 * 48,
    max_dim: 96,
    max_frames: 16,
    min_speed: 7,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  if s.chance(1, 2) {
    g.cfg.time_base = match s.us(0, 5) {
      0 => Rational::new(1001, 30000),
      1 => Rational::new(1, 25),
      2 => Rational::new(s.range(1, 100), s.range(1, 100)),
      3 => Rational::new(s.range(1, 1 << 20), s.range(1, 1 << 20)),
      4 => Rational::new(1, s.range(1, u32::MAX as u64)),
      _ => Rational::new(s.range(1, u32::MAX as u64), s.range(1, 3)),
    };
  }
  let cs = g.cfg.chroma_sampling;
  let tb = g.cfg.time_base;
  let time =
    |n: u64| (n as u128 * 10_000_000 * tb.num as u128 / tb.den as u128) as u64;
  let nf = g.video.frames as u64;

  // The table.
  let mut table = vec![];
  let kind = s.weighted(&[8, 1, 1]);
  if kind == 1 {
    let args = av1_grain::NoiseGenArgs {
      iso_setting: s.range(1, 6400) as u32,
      width: g.cfg.width as u32,
      height: g.cfg.height as u32,
      transfer_function: if s.chance(1, 2) {
        av1_grain::TransferFunction::BT1886
      } else {
        av1_grain::TransferFunction::SMPTE2084
      },
      chroma_grain: s.chance(1, 2),
      random_seed: if s.chance(1, 2) { Some(s.upto(65535) as u16) } else { None },
    };
    table.push(av1_grain::generate_photon_noise_params(0, u64::MAX, args));
    rep.tag("photon noise");
  } else if kind == 0 {
    let mut t = if s.chance(1, 2) { 0 } else { time(s.upto(nf)) };
    for _ in 0..s.us(1, 5) {
      let edge = |s: &mut Src, t: u64| {
        time(s.upto(nf + 1)).saturating_add(s.upto(2)).saturating_sub(s.upto(2)).max(t)
      };
      let t0 = if s.chance(1, 2) { t } else { edge(s, t) };
      let t1 = if s.chance(1, 6) {
        u64::MAX
      } else if s.chance(1, 8) {
        t0
      } else {
        edge(s, t0)
      };
      table.push(segment(s, cs, t0, t1));
      t = t1;
    }
    if s.chance(1, 6) && table.len() > 1 {
      // overlapping or unsorted: the first that covers the time counts
      let k = s.us(0, table.len() - 1);
      table.swap(0, k);
      table[0].end_time = u64::MAX;
      rep.tag("overlapping segments");
    }
  } else {
    rep.tag("empty table");
  }
  // A value AV1 does not have must be refused, unless nothing of it is coded.
  let mut refuse = None;
  if !table.is_empty() && s.chance(1, 10) {
    let k = s.us(0, table.len() - 1);
    let e = &mut table[k];
    let wild = |s: &mut Src, lo: u64, hi: u64| {
      if lo > 0 && s.chance(1, 2) { s.upto(lo - 1) } else { s.range(hi + 1, 255) }
    };
    refuse = Some(match s.us(0, 6) {
      0 => {
        e.scaling_shift = wild(s, 8, 11) as u8;
        true
      }
      1 => {
        e.ar_coeff_shift = wild(s, 6, 9) as u8;
        true
      }
      2 => {
        e.ar_coeff_lag = wild(s, 0, 3) as u8;
        true
      }
      3 => {
        e.grain_scale_shift = wild(s, 0, 3) as u8;
        true
      }
      4 if e.scaling_points_y.len() > 1 => {
        let i = s.us(1, e.scaling_points_y.len() - 1);
        e.scaling_points_y[i][0] =
          s.upto(e.scaling_points_y[i - 1][0] as u64) as u8;
        true
      }
      5 if e.scaling_points_cb.len() > 1 => {
        let i = s.us(1, e.scaling_points_cb.len() - 1);
        e.scaling_points_cb[i][0] =
          s.upto(e.scaling_points_cb[i - 1][0] as u64) as u8;
        false
      }
      6 if cs == ChromaSampling::Cs420 => {
        e.scaling_points_cr.clear();
        false
      }
      _ => {
        e.cr_offset = s.range(512, 65535) as u16;
        false
      }
    });
    rep.tag("values out of range");
  }
  let mut cfg = g.cfg.clone();
  cfg.film_grain_params = Some(table.clone());
  if let Some(must) = refuse {
    rep.desc = format!("{table:?} | {}", g.desc);
    let config = Config::new().with_encoder_config(cfg.clone()).with_threads(1);
    let ok = config.validate().is_ok();
    let ctx = if g.cfg.bit_depth == 8 {
      config.new_context::<u8>().is_ok()
    } else {
      config.new_context::<u16>().is_ok()
    };
    ensure!(
      ok == ctx,
      "validate",
      "validate() and new_context() disagree"
    );
    ensure!(
      !(ok && must),
      "accepted",
      "a table with values AV1 does not have was accepted"
    );
    if !ok {
      rep.nontrivial = true;
      return Ok(());
    }
  }
  rep.desc = format!(
    "tb {}/{} table {:?} | {}",
    tb.num,
    tb.den,
    table.iter().map(|t| (t.start_time, t.end_time, t.random_seed)).collect::<Vec<_>>(),
    g.desc
  );
  let one = |c: &EncoderConfig| {
    let config =
      Config::new().with_encoder_config(c.clone()).with_threads(1);
    encode_any(&config, c, &g.video)
  };
  let with = one(&cfg)?;
  let without = one(&g.cfg)?;
  ensure!(
    with.len() == g.video.frames,
    "packet-count",
    "{} packets for {} frames",
    with.len(),
    g.video.frames
  );
  if g.cfg.bitrate == 0 {
    for (i, (a, b)) in with.iter().zip(&without).enumerate() {
      ensure!(
        a.frame_type == b.frame_type
          && a.qp == b.qp
          && a.input_frameno == b.input_frameno,
        "grain-changes-coding",
        "packet {i}: {:?}/{} with and {:?}/{} without the table",
        a.frame_type,
        a.qp,
        b.frame_type,
        b.qp
      );
      match (&a.rec, &b.rec) {
        (Some(a), Some(b)) => {
          if let Some(e) = a.diff(b) {
            fail!("grain-changes-video", "packet {i}, with and without: {e}");
          }
        }
        _ => fail!("no-rec", "packet {i} has no reconstruction"),
      }
      ensure!(
        !table.is_empty() || a.data == b.data,
        "empty-table",
        "packet {i} differs with an empty table"
      );
    }
  }
  let limited = g.cfg.pixel_range == PixelRange::Limited;
  let mut d = Dav1d::new(false, false);
  let mut ao = Aom::new(false);
  let mut seen = 0;
  let mut seeds: HashSet<(usize, u32)> = HashSet::new();
  for (i, p) in with.iter().enumerate() {
    let pics = d
      .packet(&p.data)
      .map_err(|e| Fail::new("decode", format!("packet {i}, dav1d: {e}")))?;
    ensure!(pics.len() == 1, "decode", "packet {i}: {} pictures", pics.len());
    let ap = ao
      .packet(&p.data)
      .map_err(|e| Fail::new("decode", format!("packet {i}, libaom: {e}")))?;
    ensure!(ap.len() == 1, "decode", "packet {i}: {} pictures (libaom)", ap.len());
    if let Some(r) = &p.rec {
      if let Some(e) = r.diff(&pics[0].img).or_else(|| r.diff(&ap[0])) {
        fail!("grain-off-differs", "packet {i} without grain synthesis: {e}");
      }
    }
    let (seq, fh) = match (&pics[0].hdr.seq, &pics[0].hdr.frame) {
      (Some(a), Some(b)) => (a, b),
      _ => fail!("no-header", "packet {i}"),
    };
    ensure!(
      (seq.film_grain_present != 0) == !table.is_empty(),
      "sequence-flag",
      "film_grain_params_present {} with {} segments",
      seq.film_grain_present,
      table.len()
    );
    let t = time(p.input_frameno);
    let want = table
      .iter()
      .position(|e| e.start_time <= t && t < e.end_time);
    if p.frame_type == FrameType::KEY {
      seeds.clear();
    }
    let fg = &fh.film_grain;
    match want {
      None => ensure!(
        fg.present == 0,
        "grain-outside",
        "packet {i} at time {t} is outside all segments but has grain"
      ),
      Some(k) => {
        let e = &table[k];
        ensure!(
          fg.present != 0,
          "grain-missing",
          "packet {i} ({:?}) at time {t} in segment {k} has no grain",
          p.frame_type
        );
        if let Some(m) = differs(&fg.data, e, cs, limited) {
          fail!("grain-params", "packet {i} ({:?}), segment {k}: {m}", p.frame_type);
        }
        ensure!(
          seeds.insert((k, fg.data.seed)),
          "grain-seed",
          "packet {i}, segment {k}: seed {} was used by an earlier frame since the key frame",
          fg.data.seed
        );
        if p.frame_type == FrameType::KEY {
          ensure!(
            fg.data.seed == e.random_seed as u32,
            "grain-seed",
            "packet {i}, segment {k}: key frame with seed {} instead of {}",
            fg.data.seed,
            e.random_seed
          );
        }
        seen += 1;
      }
    }
  }
  if seen > 0 {
    rep.tag(if seen == with.len() { "all frames with grain" } else { "some frames with grain" });
  } else {
    rep.tag("no frame with grain");
  }
  rep.tag(format!("grain {}", chroma_name(cs)));
  rep.nontrivial = seen > 0;
  Ok(())
}
