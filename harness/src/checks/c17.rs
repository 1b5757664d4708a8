//! C17: the tile layout honours the request within AV1 limits.
use crate::dec::Dav1d;
use crate::enc::*;
use crate::engine::*;
use crate::obu::Bits;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::bench::kernels::key_frame_header;
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C17",
  rule: "One case = one configuration with a frame size up to 65535x65535 (uniform, logarithmic, and around multiples of the superblock, tile width and tile area limits), frame rate, chroma format and tile request; the layout is compared with one computed from the request and the specification, and the tile part of the written key frame header is read by a parser written from section 5.9.15 of the specification. One in 1000 cases also encodes two frames of up to 1.2 million samples at such a size and compares layout and pictures with dav1d. Non-trivial: the layout has more than one tile, or a limit leaves only one.",
  assumptions: &["the tile rate limit is the encoder's own constant"],
  cases: |t| if t == Tier::Quick { 60000 } else { 3000000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

fn log2(blk: usize, target: usize) -> usize {
  let mut k = 0;
  while (blk << k) < target {
    k += 1;
  }
  k
}

#[derive(Debug, Clone, PartialEq)]
struct Layout {
  cols: Vec<usize>,
  rows: Vec<usize>,
  cols_log2: usize,
  rows_log2: usize,
}

struct Limits17 {
  sbc: usize,
  sbr: usize,
  min_c: usize,
  max_c: usize,
  max_r: usize,
  min_tiles: usize,
}

fn limits(w: usize, h: usize) -> Limits17 {
  let mi = |x: usize| 2 * ((x + 7) >> 3);
  let (sbc, sbr) = ((mi(w) + 15) >> 4, (mi(h) + 15) >> 4);
  let max_tile_area_sb = 4096 * 2304 >> 12;
  let min_c = log2(64, sbc);
  Limits17 { sbc, sbr, min_c, max_c: log2(1, sbc.min(64)), max_r: log2(1, sbr.min(64)), min_tiles: min_c.max(log2(max_tile_area_sb, sbc * sbr)) }
}

/// tile_info() of the specification for 64x64 superblocks, followed by
/// context_update_tile_id and tile_size_bytes_minus_1.
fn tile_info(b: &mut Bits, l: &Limits17) -> Result<(Layout, bool, u64, u64), String> {
  let starts = |n: usize, step: usize| (0..n).step_by(step).collect::<Vec<_>>();
  let uniform = b.f(1)? == 1;
  let lay = if uniform {
    let mut c = l.min_c;
    while c < l.max_c && b.f(1)? == 1 {
      c += 1;
    }
    let cols = starts(l.sbc, (l.sbc + (1 << c) - 1) >> c);
    let mut r = l.min_tiles.saturating_sub(c);
    while r < l.max_r && b.f(1)? == 1 {
      r += 1;
    }
    let rows = starts(l.sbr, (l.sbr + (1 << r) - 1) >> r);
    Layout { cols, rows, cols_log2: c, rows_log2: r }
  } else {
    let ns = |b: &mut Bits, n: usize| -> Result<usize, String> {
      let w = 64 - (n as u64).leading_zeros() as usize;
      let m = (1usize << w) - n;
      let v = b.f(w - 1)? as usize;
      if v < m {
        return Ok(v);
      }
      Ok((v << 1) - m + b.f(1)? as usize)
    };
    let mut widest = 0;
    let mut cols = vec![];
    let mut at = 0;
    while at < l.sbc {
      cols.push(at);
      let size = ns(b, (l.sbc - at).min(64))? + 1;
      widest = widest.max(size);
      at += size;
    }
    let area = if l.min_tiles > 0 { (l.sbr * l.sbc) >> (l.min_tiles + 1) } else { l.sbr * l.sbc };
    let max_h = (area / widest).max(1);
    let mut rows = vec![];
    let mut at = 0;
    while at < l.sbr {
      rows.push(at);
      at += ns(b, (l.sbr - at).min(max_h))? + 1;
    }
    if cols.len() > 64 || rows.len() > 64 {
      return Err(format!("{}x{} tiles", cols.len(), rows.len()));
    }
    let (a, c) = (log2(1, cols.len()), log2(1, rows.len()));
    Layout { cols, rows, cols_log2: a, rows_log2: c }
  };
  let (mut ctx, mut bytes) = (0, 1);
  if lay.cols_log2 + lay.rows_log2 > 0 {
    ctx = b.f(lay.cols_log2 + lay.rows_log2)?;
    bytes = b.f(2)? + 1;
  }
  Ok((lay, uniform, ctx, bytes))
}

/// A key frame header up to base_q_idx.
fn header(d: &[u8], seq: &Sequence, l: &Limits17, cfg: &EncoderConfig) -> Result<(Layout, bool, u64, u64, u64), String> {
  let mut b = Bits::new(d);
  let reduced = seq.reduced_still_picture_hdr;
  if !reduced {
    let x = b.f(4)?;
    if x != 0b0001 {
      return Err(format!("starts with {x:04b}"));
    }
  }
  let no_cdf_update = b.f(1)? == 1;
  let sct = if seq.force_screen_content_tools == 2 { b.f(1)? } else { seq.force_screen_content_tools as u64 };
  if sct > 0 && seq.force_integer_mv == 2 {
    b.f(1)?;
  }
  if !reduced && b.f(1)? == 1 {
    return Err("frame size override".into());
  }
  if seq.enable_order_hint {
    b.f(seq.order_hint_bits_minus_1 as usize + 1)?;
  }
  if b.f(1)? == 1 {
    let r = (b.f(16)? as usize + 1, b.f(16)? as usize + 1);
    if r != cfg.render_size() {
      return Err(format!("render size {r:?}"));
    }
  }
  if sct > 0 && b.f(1)? == 1 {
    return Err("intrabc".into());
  }
  if !reduced && !no_cdf_update {
    b.f(1)?;
  }
  let (lay, uniform, ctx, bytes) = tile_info(&mut b, l)?;
  let q = b.f(8)?;
  Ok((lay, uniform, ctx, bytes, q))
}

fn dim(s: &mut Src, max: u64) -> usize {
  let d = match s.weighted(&[3, 3, 3, 2]) {
    0 => {
      let b = s.upto(15);
      s.range(1 << b, (2 << b) - 1)
    }
    1 => s.range(16, 65535),
    2 => {
      // around superblock multiples
      let n = s.range(1, 1023) * 64;
      (n as i64 + s.i(-9, 9)) as u64
    }
    _ => {
      let n = s.range(1, 15) * 4096;
      (n as i64 + s.i(-130, 130)) as u64
    }
  };
  d.clamp(16, max.min(65535)) as usize
}

fn run(idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let encode = idx % 1000 == 7;
  let lim = Limits { max_pixels: 64 * 64, max_dim: 64, max_frames: 2, min_speed: 10, ..Default::default() };
  let mut g = gen(s, &lim);
  let cfg = &mut g.cfg;
  let max_area = if encode { 1_200_000 } else { u64::MAX };
  let (w, h) = match s.upto(3) {
    0 => {
      let h = dim(s, 65535.min(max_area / 16));
      (dim(s, max_area / h as u64), h)
    }
    1 if !encode => {
      // around the tile area limit and its multiples
      let w = dim(s, 65535);
      let area = 4096 * 2304 * s.range(1, 12) as usize;
      let h = (area / w) as i64 + s.i(-130, 130);
      (w, h.clamp(16, 65535) as usize)
    }
    _ => {
      let w = dim(s, 65535.min(max_area / 16));
      (w, dim(s, max_area / w as u64))
    }
  };
  (cfg.width, cfg.height) = (w, h);
  cfg.level_idx = None;
  cfg.sample_aspect_ratio = Rational::new(1, 1);
  cfg.time_base = match s.weighted(&[4, 2, 1]) {
    0 => Rational::new(1, s.range(1, 120)),
    1 => Rational::new(s.range(1, 1001), s.range(1, 240_000)),
    _ => Rational::new(1, 1 << s.range(6, 30)),
  };
  (cfg.tile_cols, cfg.tile_rows, cfg.tiles) = (0, 0, 0);
  let small = |s: &mut Src| {
    let b = s.upto(7);
    s.range(1, 1 << b) as usize
  };
  match s.weighted(&[1, 4, 4, 1]) {
    0 => {}
    1 => {
      let top = if s.chance(1, 10) { 62 } else { 7 };
      (cfg.tile_cols, cfg.tile_rows) = (1 << s.upto(top), 1 << s.upto(top));
    }
    2 => cfg.tiles = small(s),
    _ => {
      (cfg.tile_cols, cfg.tile_rows) = (1 << s.upto(7), 1 << s.upto(7));
      cfg.tiles = if s.chance(1, 5) { s.pick(&[usize::MAX, 5000, 4096, 1 << 40]) } else { small(s) };
    }
  }
  let c422 = cfg.chroma_sampling == ChromaSampling::Cs422;
  rep.desc = format!("{w}x{h} {} time base {}/{} tile_cols {} tile_rows {} tiles {} still {}", chroma_name(cfg.chroma_sampling), cfg.time_base.num, cfg.time_base.den, cfg.tile_cols, cfg.tile_rows, cfg.tiles, cfg.still_picture);
  let cfg = cfg.clone();
  let config = Config::new().with_encoder_config(cfg.clone());
  let ti = match config.tiling_info() {
    Ok(t) => t,
    Err(e) => {
      if cfg.still_picture || cfg.level_idx.is_some() {
        rep.tag("rejected");
        return Ok(());
      }
      fail!("rejected", "rejected: {e}")
    }
  };
  let l = limits(w, h);
  let (aw, ah) = ((w + 7) / 8 * 8, (h + 7) / 8 * 8);
  let rate_tiles = aw as f64 * ah as f64 * (cfg.time_base.den as f64 / cfg.time_base.num as f64) / (4096. * 2176. * 60. * 1.1);

  // a uniform grid covering the frame, within the limits
  ensure!((ti.frame_width, ti.frame_height, ti.sb_size_log2) == (aw, ah, 6), "frame", "layout for {}x{}, superblocks of {}", ti.frame_width, ti.frame_height, 1 << ti.sb_size_log2);
  ensure!(
    ti.tile_width_sb > 0 && ti.tile_height_sb > 0 && ti.cols == l.sbc.div_ceil(ti.tile_width_sb) && ti.rows == l.sbr.div_ceil(ti.tile_height_sb),
    "grid",
    "{}x{} tiles of {}x{} superblocks for {}x{} superblocks",
    ti.cols, ti.rows, ti.tile_width_sb, ti.tile_height_sb, l.sbc, l.sbr
  );
  ensure!(ti.cols <= 64 && ti.rows <= 64 && ti.tile_count() == ti.cols * ti.rows, "count", "{}x{} tiles", ti.cols, ti.rows);
  ensure!(ti.tile_width_sb.min(l.sbc) <= 64, "width", "tiles {} superblocks wide", ti.tile_width_sb);
  ensure!(
    (ti.min_tile_cols_log2, ti.max_tile_cols_log2, ti.max_tile_rows_log2, ti.min_tiles_log2) == (l.min_c, l.max_c, l.max_r, l.min_tiles),
    "limits",
    "limits {:?}, by the specification {:?}",
    (ti.min_tile_cols_log2, ti.max_tile_cols_log2, ti.max_tile_rows_log2, ti.min_tiles_log2),
    (l.min_c, l.max_c, l.max_r, l.min_tiles)
  );
  ensure!(ti.tile_cols_log2 + ti.tile_rows_log2 >= l.min_tiles, "min-tiles", "2^({}+{}) tiles but 2^{} are needed", ti.tile_cols_log2, ti.tile_rows_log2, l.min_tiles);

  // the request
  let layout = |c: usize, r: usize| {
    let kc = c.clamp(l.min_c, l.max_c);
    let mut tw = (l.sbc + (1 << kc) - 1) >> kc;
    if c422 {
      tw += tw & 1;
    }
    let cols = l.sbc.div_ceil(tw);
    let kc = log2(1, cols);
    let rate = log2(1, rate_tiles.ceil().min(1e15) as usize).max(l.min_tiles);
    let kr = r.max(rate.saturating_sub(kc)).min(l.max_r);
    let th = (l.sbr + (1 << kr) - 1) >> kr;
    (tw, cols, th, l.sbr.div_ceil(th))
  };
  let free = !c422 || l.min_tiles == 0;
  if cfg.tiles == 0 {
    let (tw, cols, th, rows) = layout(log2(1, cfg.tile_cols), log2(1, cfg.tile_rows));
    // the explicit syntax, needed when 4:2:2 widths are rounded up, can force
    // more rows and columns
    ensure!((ti.tile_width_sb, ti.cols) == (tw, cols) || (!free && ti.cols >= cols), "columns", "{} columns of {} superblocks instead of {cols} of {tw}", ti.cols, ti.tile_width_sb);
    if free {
      ensure!((ti.tile_height_sb, ti.rows) == (th, rows), "rows", "{} rows of {} superblocks instead of {rows} of {th}", ti.rows, ti.tile_height_sb);
    } else {
      ensure!(ti.rows >= rows || ti.cols > cols, "rows", "{} rows instead of at least {rows}", ti.rows);
    }
  } else {
    let (_, mc, _, mr) = layout(64, 64);
    let (_, lc, _, lr) = layout(0, 0);
    let n = ti.cols * ti.rows;
    ensure!(n >= cfg.tiles.min(mc * mr), "tiles", "{n} tiles ({}x{}) although {}x{} are possible", ti.cols, ti.rows, mc, mr);
    if free {
      ensure!(n >= lc * lr, "tiles-least", "{n} tiles but the limits demand {lc}x{lr}");
      ensure!(n <= (lc * lr).max(cfg.tiles.saturating_mul(3)), "tiles-excess", "{n} tiles ({}x{})", ti.cols, ti.rows);
    }
  }
  rep.nontrivial = ti.tile_count() > 1 || l.max_c + l.max_r == 0 || cfg.tile_cols.max(cfg.tile_rows).max(cfg.tiles) > 1;
  rep.tag(if ti.tile_count() > 1 { "tiled" } else { "one-tile" });
  if l.min_tiles > 0 {
    rep.tag("limit-binds");
  }

  // the header
  let seq = Sequence::new(&cfg);
  let q = s.range(1, 255);
  let id = s.upto(ti.tile_count() as u64 - 1);
  let bytes = s.range(1, 4);
  let d = if cfg.bit_depth == 8 {
    key_frame_header::<u8>(&cfg, q as u8, id as usize, bytes as u32)
  } else {
    key_frame_header::<u16>(&cfg, q as u8, id as usize, bytes as u32)
  };
  let (lay, uniform, gid, gbytes, gq) = match header(&d, &seq, &l, &cfg) {
    Ok(x) => x,
    Err(e) => fail!("header", "the frame header cannot be read: {e}"),
  };
  rep.tag(if uniform { "uniform" } else { "explicit" });
  let cols: Vec<usize> = (0..ti.cols).map(|i| i * ti.tile_width_sb).collect();
  let rows: Vec<usize> = (0..ti.rows).map(|i| i * ti.tile_height_sb).collect();
  ensure!(lay.cols == cols, "header-cols", "header has columns at {:?}, the encoder {:?}", lay.cols, cols);
  ensure!(lay.rows == rows, "header-rows", "header has rows at {:?}, the encoder {:?}", lay.rows, rows);
  if ti.tile_count() > 1 {
    ensure!((gid, gbytes) == (id, bytes), "header-tail", "context tile {gid} and {gbytes} size bytes were read instead of {id} and {bytes}");
  }
  ensure!(gq == q, "header-q", "the quantizer after the tile information is read as {gq} instead of {q}");

  if encode {
    rep.tag("encoded");
    let mut v = g.video.clone();
    (v.w, v.h) = (w, h);
    v.frames = v.frames.min(2);
    let mut cfg = cfg;
    cfg.speed_settings = SpeedSettings::from_preset(10);
    cfg.speed_settings.rdo_lookahead_frames = 1;
    cfg.low_latency = true;
    let config = Config::new().with_encoder_config(cfg.clone()).with_threads(1);
    let pk = encode_any(&config, &cfg, &v)?;
    let mut dec = Dav1d::new(false, false);
    for (i, p) in pk.iter().enumerate() {
      let pics = match dec.packet(&p.data) {
        Ok(x) => x,
        Err(e) => fail!("decode", "packet {i}: {e}"),
      };
      for pic in &pics {
        let t = &pic.hdr.frame.as_ref().unwrap().tiling;
        ensure!((t.cols as usize, t.rows as usize) == (ti.cols, ti.rows), "decoder-tiles", "dav1d finds {}x{} tiles instead of {}x{}", t.cols, t.rows, ti.cols, ti.rows);
        for c in 0..ti.cols {
          ensure!(t.col_start_sb[c] as usize == cols[c], "decoder-cols", "dav1d starts column {c} at {}", t.col_start_sb[c]);
        }
        for r in 0..ti.rows {
          ensure!(t.row_start_sb[r] as usize == rows[r], "decoder-rows", "dav1d starts row {r} at {}", t.row_start_sb[r]);
        }
        if let Some(rec) = &p.rec {
          if let Some(d) = pic.img.diff(rec) {
            fail!("pixels", "packet {i}: {d}");
          }
        }
      }
    }
  }
  Ok(())
}
