//! C05: validation is exact and accepted configurations work.
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::config::RateControlConfig;
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C05",
  rule: "One case = either a batch of 150 configurations, each a valid one with up to three settings replaced by boundary-biased values, whose validation result is compared with a reference model of the documented limits (accepted exactly when no rule is broken, otherwise the error must name a setting that breaks a rule; creating an encoder and asking for the tile layout must agree); or a small clip encoded to completion under an accepted configuration with extreme settings. Non-trivial: a batch with at least one accepted and one rejected configuration, or a completed encode.",
  assumptions: &["bit depth is 8, 10 or 12 and matches the sample type (other values are documented panics)", "encodes are at most 64x64 samples and 6 frames"],
  cases: |t| if t == Tier::Quick { 15000 } else { 1000000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

// Annex A of the AV1 specification: index, picture size, width, height,
// display rate.
const LEVELS: [(u8, u64, u64, u64, u64); 14] = [
  (0, 147456, 2048, 1152, 4423680),
  (1, 278784, 2816, 1584, 8363520),
  (4, 665856, 4352, 2448, 19975680),
  (5, 1065024, 5504, 3096, 31950720),
  (8, 2359296, 6144, 3456, 70778880),
  (9, 2359296, 6144, 3456, 141557760),
  (12, 8912896, 8192, 4352, 267386880),
  (13, 8912896, 8192, 4352, 534773760),
  (14, 8912896, 8192, 4352, 1069547520),
  (15, 8912896, 8192, 4352, 1069547520),
  (16, 35651584, 16384, 8704, 1069547520),
  (17, 35651584, 16384, 8704, 2139095040),
  (18, 35651584, 16384, 8704, 4278190080),
  (19, 35651584, 16384, 8704, 4278190080),
];

/// `size * n / d` to the nearest integer, from both sides when it lies within
/// floating-point precision of the boundary between two integers.
fn stretch(size: usize, n: u64, d: u64) -> u128 {
  let q = 2 * size as u128 * n as u128;
  let (whole, rest) = ((q + d as u128) / (2 * d as u128), (q + d as u128) % (2 * d as u128));
  // exactly between (or indistinguishable from it): either is correct
  let near = (d as u128 * 2) >> 34;
  if whole == 65536 && rest <= near {
    return AMBIGUOUS;
  }
  if whole == 65535 && 2 * d as u128 - rest <= near {
    return AMBIGUOUS;
  }
  whole
}
const AMBIGUOUS: u128 = u128::MAX;

/// The names of all broken rules.
fn model(c: &EncoderConfig, passes: bool) -> Vec<&'static str> {
  let mut e = vec![];
  let lo = if c.still_picture { 1 } else { 16 };
  if c.width < lo || c.width > 65535 {
    e.push("width");
  }
  if c.height < lo || c.height > 65535 {
    e.push("height");
  }
  let (n, d) = (c.sample_aspect_ratio.num, c.sample_aspect_ratio.den);
  if n == 0 {
    e.push("sar-num");
  }
  if d == 0 {
    e.push("sar-den");
  }
  if n > 0 && d > 0 && e.is_empty() {
    // the wider of the two directions is stretched, to the nearest integer
    if n > d {
      let rw = stretch(c.width, n, d);
      if rw == AMBIGUOUS {
        e.push("ambiguous");
      } else if rw == 0 || rw > 65535 {
        e.push("render-width");
      }
    } else {
      let rh = stretch(c.height, d, n);
      if rh == AMBIGUOUS {
        e.push("ambiguous");
      } else if rh == 0 || rh > 65535 {
        e.push("render-height");
      }
    }
  }
  if c.speed_settings.rdo_lookahead_frames < 1
    || c.speed_settings.rdo_lookahead_frames == usize::MAX
  {
    e.push("lookahead");
  }
  if c.max_key_frame_interval > 715_827_882 {
    e.push("max-key");
  }
  let pow2 = |n: usize| n == 0 || n.is_power_of_two();
  if !pow2(c.tile_cols) {
    e.push("tile-cols");
  }
  if !pow2(c.tile_rows) {
    e.push("tile-rows");
  }
  if c.time_base.num == 0 || c.time_base.num > u32::MAX as u64 {
    e.push("time-num");
  }
  if c.time_base.den == 0 || c.time_base.den > u32::MAX as u64 {
    e.push("time-den");
  }
  if let Some(r) = c.reservoir_frame_delay {
    if r < 12 || r > 131072 {
      e.push("reservoir");
    }
  }
  if c.switch_frame_interval > 0 && !c.low_latency {
    e.push("switch");
  }
  if c.enable_timing_info && c.still_picture {
    e.push("still");
  }
  if let Some(k) = c.color_description {
    let srgb = k.color_primaries == ColorPrimaries::BT709
      && k.transfer_characteristics == TransferCharacteristics::SRGB
      && k.matrix_coefficients == MatrixCoefficients::Identity;
    if srgb
      && c.chroma_sampling != ChromaSampling::Cs400
      && (c.pixel_range != PixelRange::Full || c.chroma_sampling != ChromaSampling::Cs444)
    {
      e.push("colour");
    }
  }
  if let Some(l) = c.level_idx {
    if l != 31 {
      match LEVELS.iter().find(|x| x.0 == l) {
        None => e.push("level"),
        Some(x) => {
          let (w, h) = (c.width as u64, c.height as u64);
          let too_fast = c.time_base.num > 0
            && (w as u128 * h as u128).saturating_mul(c.time_base.den as u128)
              > x.4 as u128 * c.time_base.num as u128;
          if w as u128 * h as u128 > x.1 as u128 || w > x.2 || h > x.3 || too_fast {
            e.push("level-limits");
          }
        }
      }
    }
  }
  if passes && c.bitrate == 0 {
    e.push("bitrate-needed");
  }
  e
}

fn name(e: &InvalidConfig) -> &'static str {
  use InvalidConfig::*;
  match e {
    InvalidWidth(_) => "width",
    InvalidHeight(_) => "height",
    InvalidAspectRatioNum(_) => "sar-num",
    InvalidAspectRatioDen(_) => "sar-den",
    InvalidRenderWidth(_) => "render-width",
    InvalidRenderHeight(_) => "render-height",
    InvalidRdoLookaheadFrames { .. } => "lookahead",
    InvalidMaxKeyFrameInterval { .. } => "max-key",
    InvalidTileCols(_) => "tile-cols",
    InvalidTileRows(_) => "tile-rows",
    InvalidFrameRateNum { .. } => "time-num",
    InvalidFrameRateDen { .. } => "time-den",
    InvalidReservoirFrameDelay(_) => "reservoir",
    InvalidSwitchFrameInterval(_) => "switch",
    InvalidOptionWithStillPicture(_) => "still",
    TargetBitrateNeeded => "bitrate-needed",
    ColorConfigurationMismatch => "colour",
    LevelUndefined => "level",
    LevelConstraintsExceeded => "level-limits",
    _ => "other",
  }
}

fn dim(s: &mut Src) -> usize {
  match s.weighted(&[4, 3, 3, 1]) {
    0 => s.pick(&[16, 15, 17, 1, 0, 2, 14, 65535, 65536, 65534, 32768, 4097, usize::MAX, 1 << 32, (1 << 32) + 64]),
    1 => s.us(1, 600),
    2 => {
      // level boundaries
      let l = s.pick(&LEVELS);
      let v = s.pick(&[l.2, l.3, (l.1 as f64).sqrt() as u64]) as usize;
      (v + s.us(0, 2)).saturating_sub(1)
    }
    _ => s.us(0, 70000),
  }
}

fn big(s: &mut Src) -> u64 {
  match s.upto(3) {
    0 => s.pick(&[1, 0, 2, 30, 1000, 1001, 30000, 24000]),
    1 => s.pick(&[u32::MAX as u64, u32::MAX as u64 + 1, i32::MAX as u64, i32::MAX as u64 + 1, u64::MAX, 1 << 31, 1 << 40, 65535, 65536]),
    2 => s.range(1, 120),
    _ => {
      let b = s.range(0, 63);
      (1u64 << b) + s.upto(1u64 << b)
    }
  }
}

fn mutate(s: &mut Src, c: &mut EncoderConfig) -> &'static str {
  match s.upto(18) {
    0 => {
      c.width = dim(s);
      "width"
    }
    1 => {
      c.height = dim(s);
      "height"
    }
    2 => {
      c.sample_aspect_ratio = match s.upto(2) {
        0 => Rational { num: big(s), den: big(s) },
        1 => Rational { num: s.range(1, 20), den: s.range(1, 20) },
        _ => {
          // aim at a render size around the limit
          let t = 65535 + s.upto(2) - 1;
          if s.chance(1, 2) {
            Rational { num: t * 2 - s.upto(2), den: (c.width as u64).saturating_mul(2).clamp(1, 1 << 20) }
          } else {
            Rational { num: (c.height as u64).saturating_mul(2).clamp(1, 1 << 20), den: t * 2 + s.upto(2) }
          }
        }
      };
      "sar"
    }
    3 => {
      c.speed_settings.rdo_lookahead_frames = s.pick(&[1, 0, 2, usize::MAX, usize::MAX - 1, usize::MAX - 2, 1000]);
      "lookahead"
    }
    4 => {
      c.max_key_frame_interval = s.pick(&[0, 1, 715_827_882, 715_827_883, 715_827_881, i32::MAX as u64, u64::MAX, 1 << 32, 300]);
      "max-key"
    }
    5 => {
      c.min_key_frame_interval = s.pick(&[0, 1, 500, u64::MAX, 1 << 33, 715_827_883]);
      "min-key"
    }
    6 | 7 => {
      let b = s.range(0, 63);
      let n = match s.upto(3) {
        0 => s.us(0, 70),
        1 => 1usize << b,
        2 => (1usize << b) + 1,
        _ => s.pick(&[0, usize::MAX, usize::MAX - 1, 3, 6, 12, (1 << 63) + 1, (1 << 63) - 1]),
      };
      if s.chance(1, 2) {
        c.tile_cols = n;
      } else {
        c.tile_rows = n;
      }
      "tiles"
    }
    8 | 9 => {
      let v = big(s);
      if s.chance(1, 2) {
        c.time_base.num = v;
      } else {
        c.time_base.den = v;
      }
      "time-base"
    }
    10 => {
      c.reservoir_frame_delay = Some(s.pick(&[12, 11, 13, 131072, 131073, 131071, 0, -1, i32::MAX, i32::MIN, 240]));
      "reservoir"
    }
    11 => {
      c.switch_frame_interval = s.pick(&[0, 1, 5, u64::MAX]);
      c.low_latency = s.chance(1, 2);
      "switch"
    }
    12 => {
      c.still_picture = s.chance(3, 4);
      c.enable_timing_info = s.chance(1, 2);
      "still"
    }
    13 => {
      c.enable_timing_info = s.chance(3, 4);
      "timing"
    }
    14 | 15 => {
      c.color_description = Some(ColorDescription {
        color_primaries: s.pick(&[ColorPrimaries::BT709, ColorPrimaries::BT2020]),
        transfer_characteristics: s.pick(&[TransferCharacteristics::SRGB, TransferCharacteristics::SRGB, TransferCharacteristics::BT709]),
        matrix_coefficients: s.pick(&[MatrixCoefficients::Identity, MatrixCoefficients::Identity, MatrixCoefficients::BT709]),
      });
      c.pixel_range = s.pick(&[PixelRange::Limited, PixelRange::Full]);
      c.chroma_sampling = s.pick(&[ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400]);
      "colour"
    }
    16 | 17 => {
      c.level_idx = Some(match s.upto(3) {
        0 => s.upto(255) as u8,
        1 => s.upto(31) as u8,
        _ => s.pick(&LEVELS).0,
      });
      if s.chance(1, 2) {
        if let Some(l) = LEVELS.iter().find(|l| Some(l.0) == c.level_idx) {
          match s.upto(2) {
            0 => {
              // around the picture size
              c.width = s.us(16, l.2 as usize);
              c.height = (l.1 / c.width as u64).clamp(16, 65535) as usize + s.us(0, 2) - 1;
            }
            1 => {
              c.width = (l.2 as usize + s.us(0, 2)) - 1;
              c.height = s.us(16, 64);
            }
            _ => {
              // around the display rate
              c.width = s.us(16, 256);
              c.height = s.us(16, 256);
              c.time_base.num = s.pick(&[1, 1, 1001, 7]);
              let px = (c.width * c.height) as u64;
              c.time_base.den = (l.4 * c.time_base.num / px + s.upto(2)).saturating_sub(1).max(1);
            }
          }
        }
      }
      "level"
    }
    _ => {
      c.bitrate = s.pick(&[0, 1, 100_000, i32::MAX]);
      "bitrate"
    }
  }
}

fn batch(s: &mut Src, rep: &mut Report) -> CaseResult {
  let (mut ok, mut bad) = (0, 0);
  for _ in 0..150 {
    let mut c = EncoderConfig::with_speed_preset(s.range(0, 10) as u8);
    c.width = s.us(16, 128);
    c.height = s.us(16, 128);
    c.chroma_sampling = s.pick(&[ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400]);
    c.bit_depth = s.pick(&[8, 10, 12]);
    let n = s.weighted(&[1, 5, 3, 2]);
    let mut names = vec![];
    for _ in 0..n {
      names.push(mutate(s, &mut c));
    }
    let emit = s.chance(1, 10);
    let config = Config::new()
      .with_encoder_config(c.clone())
      .with_rate_control(RateControlConfig::new().with_emit_data(emit));
    let want = model(&c, emit);
    if want.contains(&"ambiguous") {
      continue;
    }
    let what = || {
      format!(
        "{}x{} still {} sar {}/{} la {} key {}..{} tiles {}x{} tb {}/{} res {:?} sw {} ll {} timing {} {} {:?} {:?} level {:?} br {} emit {emit}",
        c.width, c.height, c.still_picture, c.sample_aspect_ratio.num, c.sample_aspect_ratio.den,
        c.speed_settings.rdo_lookahead_frames, c.min_key_frame_interval, c.max_key_frame_interval,
        c.tile_cols, c.tile_rows, c.time_base.num, c.time_base.den, c.reservoir_frame_delay,
        c.switch_frame_interval, c.low_latency, c.enable_timing_info, chroma_name(c.chroma_sampling),
        c.pixel_range, c.color_description, c.level_idx, c.bitrate
      )
    };
    rep.desc = what();
    let got = config.validate();
    match &got {
      Ok(()) => {
        ok += 1;
        ensure!(want.is_empty(), format!("accepted:{}", want[0]), "accepted although {want:?}: {}", what());
      }
      Err(e) => {
        bad += 1;
        ensure!(!want.is_empty(), format!("rejected:{}", name(e)), "rejected ({e}) although valid: {}", what());
        ensure!(want.contains(&name(e)), format!("blamed:{}", name(e)), "rejected for {e}, but the broken rules are {want:?}: {}", what());
        rep.tag(name(e));
      }
    }
    // asking for the layout or an encoder gives the same answer
    let ti = config.tiling_info().map(|_| ()).map_err(|e| name(&e));
    ensure!(ti == got.as_ref().map(|_| ()).map_err(name), "tiling-info", "tiling_info() says {ti:?}, validate() {got:?}: {}", what());
    if got.is_err() || c.width * c.height <= 256 * 256 {
      let nc = if c.bit_depth == 8 && s.chance(2, 3) {
        config.new_context::<u8>().map(|_| ()).map_err(|e| name(&e))
      } else {
        config.new_context::<u16>().map(|_| ()).map_err(|e| name(&e))
      };
      ensure!(nc == got.as_ref().map(|_| ()).map_err(name), "new-context", "new_context() says {nc:?}, validate() {got:?}: {}", what());
    }
  }
  rep.nontrivial = ok > 0 && bad > 0;
  rep.tag("batch");
  Ok(())
}

fn extreme(s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits { max_pixels: 48 * 48, max_dim: 64, max_frames: 6, min_speed: 6, ..Default::default() };
  let mut g = gen(s, &lim);
  let c = &mut g.cfg;
  let mut d = vec![];
  for _ in 0..s.us(1, 4) {
    match s.upto(11) {
      0 => {
        c.time_base = Rational { num: big(s).clamp(1, u32::MAX as u64), den: big(s).clamp(1, u32::MAX as u64) };
        d.push(format!("time base {}/{}", c.time_base.num, c.time_base.den));
      }
      1 => {
        c.speed_settings.rdo_lookahead_frames = s.pick(&[1, usize::MAX - 1, 1000, 48, 200]);
        d.push(format!("lookahead {}", c.speed_settings.rdo_lookahead_frames));
      }
      2 => {
        c.max_key_frame_interval = s.pick(&[0, 1, 715_827_882, 2, 65]);
        c.min_key_frame_interval = s.pick(&[0, 1, u64::MAX, 1 << 33, 715_827_882]);
        d.push(format!("key {}..{}", c.min_key_frame_interval, c.max_key_frame_interval));
      }
      3 => {
        c.tile_cols = 1 << s.pick(&[0, 1, 6, 10, 31, 32, 62, 63]);
        c.tile_rows = 1 << s.pick(&[0, 1, 6, 10, 31, 32, 62, 63]);
        d.push(format!("tiles {}x{}", c.tile_cols, c.tile_rows));
      }
      4 => {
        c.tiles = s.pick(&[1, 64, 1000, usize::MAX]);
        d.push(format!("tiles {}", c.tiles));
      }
      5 => {
        c.bitrate = s.pick(&[1, 10, 1000, 1_000_000_000, i32::MAX]);
        c.quantizer = s.pick(&[255, 255, 0, 1, 100]);
        c.min_quantizer = s.pick(&[0, 255, 1, 200]);
        c.reservoir_frame_delay = if s.chance(1, 2) { Some(s.pick(&[12, 131072, 13])) } else { None };
        d.push(format!("bitrate {} q {}..{} reservoir {:?}", c.bitrate, c.min_quantizer, c.quantizer, c.reservoir_frame_delay));
      }
      6 => {
        let (w, h) = (c.width as u64, c.height as u64);
        c.sample_aspect_ratio = s.pick(&[
          Rational { num: 65535, den: w },
          Rational { num: h, den: 65535 },
          Rational { num: 1 << 60, den: (1 << 60) - 1 },
          Rational { num: 1, den: 1 },
        ]);
        d.push(format!("sar {}/{}", c.sample_aspect_ratio.num, c.sample_aspect_ratio.den));
      }
      7 => {
        c.quantizer = s.pick(&[0, 1, 254, 255]);
        d.push(format!("quantizer {}", c.quantizer));
      }
      8 => {
        c.content_light = Some(ContentLight { max_content_light_level: s.upto(65535) as u16, max_frame_average_light_level: s.upto(65535) as u16 });
        d.push("content light".into());
      }
      9 => {
        c.level_idx = Some(s.pick(&[31, 0, 19, 9]));
        d.push(format!("level {:?}", c.level_idx));
      }
      10 => {
        if !c.still_picture {
          c.enable_timing_info = true;
        }
        d.push("timing".into());
      }
      _ => {
        if c.low_latency && !c.still_picture {
          c.switch_frame_interval = s.pick(&[1, u64::MAX, 2]);
        }
        d.push(format!("switch {}", c.switch_frame_interval));
      }
    }
  }
  if g.cfg.still_picture {
    g.video.frames = 1;
  }
  rep.desc = format!("{} | {}", d.join(", "), g.desc);
  let emit = g.cfg.bitrate > 0 && s.chance(1, 3);
  let config = Config::new()
    .with_encoder_config(g.cfg.clone())
    .with_rate_control(RateControlConfig::new().with_emit_data(emit))
    .with_threads(s.us(0, 2));
  if config.validate().is_err() {
    // the model says whether that is right
    let m = model(&g.cfg, emit);
    ensure!(!m.is_empty(), "rejected", "validation rejects {}", rep.desc);
    rep.tag("rejected");
    return Ok(());
  }
  let wide = g.cfg.bit_depth > 8;
  let pk = if emit {
    if wide { two::<u16>(&config, &g)? } else { two::<u8>(&config, &g)? }
  } else {
    encode_any(&config, &g.cfg, &g.video)?
  };
  ensure!(pk.len() == g.video.frames, "packets", "{} packets for {} frames", pk.len(), g.video.frames);
  let mut dec = crate::dec::Dav1d::with(false, false, false);
  for (i, p) in pk.iter().enumerate() {
    let pics = dec.packet(&p.data).map_err(|e| Fail::new("decode", format!("packet {i}: {e}")))?;
    ensure!(pics.len() == 1, "decode", "packet {i} decodes to {} pictures", pics.len());
    if let Some(r) = &p.rec {
      if let Some(e) = pics[0].img.diff(r) {
        fail!("decode", "packet {i}: {e}");
      }
    }
  }
  rep.tag("encode");
  rep.nontrivial = true;
  Ok(())
}

/// An encode that also takes the first-pass data.
fn two<T: Pixel>(config: &Config, g: &Gen) -> Result<Vec<Pkt>, Fail> {
  let mut ctx: Context<T> = config.new_context().map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  for t in 0..g.video.frames {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &g.video.image(t));
    ctx.send_frame(f).map_err(|e| Fail::new("send", format!("{e}")))?;
  }
  ctx.flush();
  let mut out = vec![];
  for _ in 0..g.video.frames * 4 + 100 {
    match ctx.receive_packet() {
      Ok(p) => {
        out.push(conv_pkt(p, &g.cfg));
        let _ = ctx.rc_receive_pass_data();
      }
      Err(EncoderStatus::Encoded) => {
        let _ = ctx.rc_receive_pass_data();
      }
      Err(EncoderStatus::LimitReached) => break,
      Err(e) => fail!("receive-status", "receive_packet returned {e:?}"),
    }
  }
  let _ = ctx.rc_summary_size();
  Ok(out)
}

fn run(idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  if idx % 3 == 0 {
    batch(s, rep)
  } else {
    extreme(s, rep)
  }
}
