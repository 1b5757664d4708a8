//! Generators of configurations and video content; the encode driver.

use crate::dec::Img;
use crate::engine::Fail;
use crate::src::{Rng, Src};
use rav1e::prelude::*;
use std::sync::Arc;

pub fn chroma_name(c: ChromaSampling) -> &'static str {
  match c {
    ChromaSampling::Cs400 => "400",
    ChromaSampling::Cs420 => "420",
    ChromaSampling::Cs422 => "422",
    ChromaSampling::Cs444 => "444",
  }
}

pub fn n_planes(c: ChromaSampling) -> usize {
  if c == ChromaSampling::Cs400 {
    1
  } else {
    3
  }
}

pub fn decim(c: ChromaSampling) -> (usize, usize) {
  match c {
    ChromaSampling::Cs420 => (1, 1),
    ChromaSampling::Cs422 => (1, 0),
    _ => (0, 0),
  }
}

// ---------------------------------------------------------------- content

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  Flat,
  Gradient,
  Texture,
  Noise,
  Screen,
  Extremes,
  Sprites,
  Edges,
}

const KINDS: [Kind; 8] = [
  Kind::Flat,
  Kind::Gradient,
  Kind::Texture,
  Kind::Noise,
  Kind::Screen,
  Kind::Extremes,
  Kind::Sprites,
  Kind::Edges,
];

/// One scene: a pattern plus motion.
#[derive(Clone, Debug)]
pub struct Scene {
  pub start: usize,
  pub kind: Kind,
  pub seed: u64,
  /// Motion in 1/4 pel per frame.
  pub vx: i64,
  pub vy: i64,
  /// Luma change per frame.
  pub fade: i64,
  /// Additive noise amplitude (8-bit scale), fresh every frame.
  pub grain: u64,
}

#[derive(Clone, Debug)]
pub struct Video {
  pub w: usize,
  pub h: usize,
  pub frames: usize,
  pub bit_depth: usize,
  pub chroma: ChromaSampling,
  pub scenes: Vec<Scene>,
}

fn h2(seed: u64, x: i64, y: i64) -> u64 {
  let mut z = seed
    ^ (x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15)
    ^ (y as u64).wrapping_mul(0xc2b2_ae3d_27d4_eb4f);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  z ^ (z >> 31)
}

/// Value noise on a lattice of `1 << sh` quarter-pels, 0..=255 scaled by 16.
fn vnoise(seed: u64, x: i64, y: i64, sh: u32) -> i64 {
  let (cx, cy) = (x >> sh, y >> sh);
  let m = (1i64 << sh) - 1;
  let (fx, fy) = (x & m, y & m);
  let g = |a, b| (h2(seed, a, b) & 0xff) as i64;
  let top = g(cx, cy) * ((1 << sh) - fx) + g(cx + 1, cy) * fx;
  let bot = g(cx, cy + 1) * ((1 << sh) - fx) + g(cx + 1, cy + 1) * fx;
  ((top * ((1 << sh) - fy) + bot * fy) << 4) >> (2 * sh)
}

impl Scene {
  /// Sample (8-bit scale times 16) in plane p at quarter-pel luma position.
  fn sample(&self, p: usize, x: i64, y: i64, t: i64) -> i64 {
    let s = self.seed.wrapping_add(p as u64 * 7919);
    match self.kind {
      Kind::Flat => ((h2(s, 0, 0) & 0xff) as i64) << 4,
      Kind::Gradient => {
        let a = (h2(s, 1, 1) % 33) as i64 - 16;
        let b = (h2(s, 2, 2) % 33) as i64 - 16;
        (2048 + (a * x + b * y) / 4).clamp(0, 4080)
      }
      Kind::Texture => {
        let sh = 3 + (h2(s, 3, 3) % 4) as u32;
        (vnoise(s, x, y, sh) * 3 + vnoise(s ^ 5, x, y, 3)) / 4
      }
      Kind::Noise => ((h2(s ^ (t as u64) << 40, x, y) & 0xff) as i64) << 4,
      Kind::Screen => {
        // text-like: few colours, sharp edges
        let (bx, by) = (x >> 4, y >> 5);
        let c = h2(s, bx >> 2, by >> 1);
        let bit = (h2(s ^ 11, bx, by) >> 7) & 3;
        let pal = [c & 0xff, (c >> 8) & 0xff, 0, 255];
        (pal[bit as usize] as i64) << 4
      }
      Kind::Extremes => {
        let n = 2 + (h2(s, 9, 9) % 5) as u32;
        if h2(s, x >> n, y >> n) & 1 == 0 {
          0
        } else {
          4080
        }
      }
      Kind::Sprites => {
        let mut v = vnoise(s, x, y, 6);
        for i in 0..3i64 {
          let px = (h2(s, i, 100) % 256) as i64
            + t * ((h2(s, i, 101) % 65) as i64 - 32);
          let py = (h2(s, i, 102) % 256) as i64
            + t * ((h2(s, i, 103) % 65) as i64 - 32);
          let sz = 32 + (h2(s, i, 104) % 128) as i64;
          if x >= px && x < px + sz && y >= py && y < py + sz {
            v = vnoise(s ^ (i as u64 + 77), x - px, y - py, 4);
          }
        }
        v
      }
      Kind::Edges => {
        let a = (h2(s, 4, 4) % 9) as i64 - 4;
        let b = (h2(s, 5, 5) % 9) as i64 - 4;
        let per = 24 + (h2(s, 6, 6) % 100) as i64;
        if (a * x + b * y).rem_euclid(per * 4) < per * 2 {
          ((h2(s, 7, 7) & 0xff) as i64) << 4
        } else {
          ((h2(s, 8, 8) & 0xff) as i64) << 4
        }
      }
    }
  }
}

impl Video {
  pub fn gen(
    s: &mut Src, w: usize, h: usize, frames: usize, bit_depth: usize,
    chroma: ChromaSampling,
  ) -> Video {
    let mut scenes = vec![];
    let mut start = 0;
    loop {
      let kind = KINDS[s.weighted(&[3, 3, 8, 3, 5, 3, 6, 4])];
      let seed = s.upto(u32::MAX as u64);
      let still = s.chance(1, 4);
      let (vx, vy) = if still || frames == 1 {
        (0, 0)
      } else if s.chance(1, 4) {
        (s.i(-200, 200), s.i(-200, 200))
      } else {
        (s.i(-16, 16), s.i(-16, 16))
      };
      let fade = if s.chance(1, 6) { s.i(-40, 40) } else { 0 };
      let grain = if s.chance(1, 4) { s.range(1, 24) } else { 0 };
      scenes.push(Scene { start, kind, seed, vx, vy, fade, grain });
      if start + 1 >= frames || !s.chance(1, 4) {
        break;
      }
      start = s.us(start + 1, frames - 1);
    }
    Video { w, h, frames, bit_depth, chroma, scenes }
  }

  pub fn scene(&self, t: usize) -> &Scene {
    self.scenes.iter().rev().find(|s| s.start <= t).unwrap()
  }

  pub fn image(&self, t: usize) -> Img {
    let sc = self.scene(t);
    let maxv = (1i64 << self.bit_depth) - 1;
    let (xd, yd) = decim(self.chroma);
    let dt = (t - sc.start) as i64;
    let mut planes = vec![];
    for p in 0..n_planes(self.chroma) {
      let (sx, sy) = if p == 0 { (0, 0) } else { (xd, yd) };
      let (pw, ph) = ((self.w + sx) >> sx, (self.h + sy) >> sy);
      let mut v = Vec::with_capacity(pw * ph);
      let mut g = Rng::new(sc.seed ^ ((t as u64) << 32) ^ p as u64);
      for y in 0..ph {
        for x in 0..pw {
          let lx = ((x << sx) as i64) * 4 + sc.vx * dt;
          let ly = ((y << sy) as i64) * 4 + sc.vy * dt;
          let mut q = sc.sample(p, lx, ly, dt);
          if p == 0 {
            q += sc.fade * dt * 16;
          }
          if sc.grain > 0 {
            q += ((g.next() % (2 * sc.grain * 16 + 1)) as i64)
              - sc.grain as i64 * 16;
          }
          // q is 12-bit like (255 * 16 = 4080)
          let out = match self.bit_depth {
            8 => q >> 4,
            10 => {
              if q >= 4080 {
                maxv
              } else {
                q >> 2
              }
            }
            _ => {
              if q >= 4080 {
                maxv
              } else {
                q
              }
            }
          };
          v.push(out.clamp(0, maxv) as u16);
        }
      }
      planes.push((pw, ph, v));
    }
    Img { w: self.w, h: self.h, bit_depth: self.bit_depth, planes }
  }

  pub fn desc(&self) -> String {
    let sc: Vec<String> = self
      .scenes
      .iter()
      .map(|s| {
        format!(
          "{}:{:?} seed {} v({},{}) fade {} grain {}",
          s.start, s.kind, s.seed, s.vx, s.vy, s.fade, s.grain
        )
      })
      .collect();
    format!(
      "{}x{} {}-bit {} {} frames [{}]",
      self.w,
      self.h,
      self.bit_depth,
      chroma_name(self.chroma),
      self.frames,
      sc.join("; ")
    )
  }
}

pub fn fill_frame<T: Pixel>(f: &mut Frame<T>, img: &Img) {
  for (p, (pw, ph, v)) in img.planes.iter().enumerate() {
    let pl = &mut f.planes[p];
    let stride = pl.cfg.stride;
    let data = pl.data_origin_mut();
    for y in 0..*ph {
      for x in 0..*pw {
        data[y * stride + x] = T::cast_from(v[y * pw + x]);
      }
    }
  }
}

pub fn frame_to_img<T: Pixel>(
  f: &Frame<T>, w: usize, h: usize, bit_depth: usize, chroma: ChromaSampling,
) -> Img {
  let (xd, yd) = decim(chroma);
  let mut planes = vec![];
  for p in 0..n_planes(chroma) {
    let (sx, sy) = if p == 0 { (0, 0) } else { (xd, yd) };
    let (pw, ph) = ((w + sx) >> sx, (h + sy) >> sy);
    let pl = &f.planes[p];
    let data = pl.data_origin();
    let mut v = Vec::with_capacity(pw * ph);
    for y in 0..ph {
      for x in 0..pw {
        v.push(u16::cast_from(data[y * pl.cfg.stride + x]));
      }
    }
    planes.push((pw, ph, v));
  }
  Img { w, h, bit_depth, planes }
}

// ---------------------------------------------------------------- configs

/// Bounds for `gen_config`.
#[derive(Clone, Copy)]
pub struct Limits {
  pub max_pixels: usize,
  pub max_dim: usize,
  pub max_frames: usize,
  pub min_speed: u8,
  pub bitrate: bool,
  pub hbd: bool,
  pub still: bool,
}

impl Default for Limits {
  fn default() -> Self {
    Limits {
      max_pixels: 128 * 128,
      max_dim: 320,
      max_frames: 8,
      min_speed: 0,
      bitrate: true,
      hbd: true,
      still: true,
    }
  }
}

pub fn gen_dim(s: &mut Src, lo: usize, hi: usize) -> usize {
  match s.weighted(&[4, 3, 3]) {
    0 => {
      let xs: Vec<usize> =
        [16, 17, 24, 31, 32, 33, 40, 56, 63, 64, 65, 66, 72, 80, 96, 127, 128, 129, 136, 192, 200, 256, 258, 320]
          .iter()
          .copied()
          .filter(|&x| x >= lo && x <= hi)
          .collect();
      if xs.is_empty() {
        s.us(lo, hi)
      } else {
        s.pick(&xs)
      }
    }
    1 => s.us(lo, hi.min(lo + 64)),
    _ => s.us(lo, hi),
  }
}

pub fn gen_size(s: &mut Src, lim: &Limits, still: bool) -> (usize, usize) {
  let lo = if still && s.chance(1, 3) { 1 } else { 16 };
  let w = gen_dim(s, lo, lim.max_dim);
  let maxh = (lim.max_pixels / w).clamp(lo, lim.max_dim);
  let h = gen_dim(s, lo, maxh);
  if s.chance(1, 2) {
    (w, h)
  } else {
    (h, w)
  }
}

pub fn gen_quantizer(s: &mut Src) -> usize {
  match s.weighted(&[4, 2, 2, 2]) {
    0 => s.us(40, 220),
    1 => s.us(1, 40),
    2 => s.us(220, 255),
    _ => s.pick(&[100usize, 255, 1, 0, 2, 80, 128]),
  }
}

/// Coding-tool settings: a preset, sometimes with individual settings moved
/// to the value another preset uses.
pub fn gen_speed(s: &mut Src, min: u8) -> (u8, SpeedSettings, String) {
  let sp = if s.chance(1, 3) {
    s.range(min as u64, 10) as u8
  } else {
    // higher presets are much cheaper
    10 - s.upto((10 - min.max(3)) as u64) as u8
  };
  let mut ss = SpeedSettings::from_preset(sp);
  let mut d = format!("speed {sp}");
  if s.chance(2, 5) {
    let o = SpeedSettings::from_preset(s.range(min as u64, 10) as u8);
    for _ in 0..s.range(1, 3) {
      match s.upto(13) {
        0 => {
          ss.multiref = o.multiref;
          d += &format!(" multiref={}", ss.multiref);
        }
        1 => {
          ss.fast_deblock = o.fast_deblock;
          d += &format!(" fast_deblock={}", ss.fast_deblock);
        }
        2 => {
          ss.cdef = s.chance(1, 2);
          d += &format!(" cdef={}", ss.cdef);
        }
        3 => {
          ss.lrf = !ss.lrf;
          d += &format!(" lrf={}", ss.lrf);
        }
        4 => {
          ss.lru_on_skip = !ss.lru_on_skip;
          d += &format!(" lru_on_skip={}", ss.lru_on_skip);
        }
        5 => {
          ss.sgr_complexity = o.sgr_complexity;
          d += &format!(" sgr={}", ss.sgr_complexity);
        }
        6 => {
          ss.segmentation = s.pick(&[
            SegmentationLevel::Disabled,
            SegmentationLevel::Simple,
            SegmentationLevel::Complex,
            SegmentationLevel::Full,
          ]);
          d += &format!(" seg={}", ss.segmentation);
        }
        7 => {
          ss.prediction.prediction_modes = o.prediction.prediction_modes;
          d += &format!(" pm={}", ss.prediction.prediction_modes);
        }
        8 => {
          ss.motion = o.motion;
          d += " motion=other";
        }
        9 => {
          ss.prediction.fine_directional_intra = s.chance(1, 2);
          d += &format!(" fine={}", ss.prediction.fine_directional_intra);
        }
        10 => {
          ss.partition = o.partition;
          d += " partition=other";
        }
        11 => {
          ss.transform.tx_domain_distortion = false;
          ss.transform.tx_domain_rate = false;
          d += " txdd=false";
        }
        12 => {
          // rate from tables needs transform-domain distortion
          ss.transform.tx_domain_rate =
            ss.transform.tx_domain_distortion && s.chance(1, 2);
          d += &format!(" txdr={}", ss.transform.tx_domain_rate);
        }
        _ => {
          ss.scene_detection_mode = s.pick(&[
            SceneDetectionSpeed::Fast,
            SceneDetectionSpeed::Standard,
            SceneDetectionSpeed::None,
          ]);
          d += &format!(" scd={}", ss.scene_detection_mode);
        }
      }
    }
  }
  (sp, ss, d)
}

pub struct Gen {
  pub cfg: EncoderConfig,
  pub video: Video,
  pub speed: u8,
  pub desc: String,
}

pub fn gen_color(s: &mut Src, cfg: &mut EncoderConfig) {
  cfg.pixel_range = s.pick(&[PixelRange::Limited, PixelRange::Full]);
  if s.chance(1, 2) {
    cfg.color_description = Some(ColorDescription {
      color_primaries: s.pick(&[
        ColorPrimaries::BT709,
        ColorPrimaries::Unspecified,
        ColorPrimaries::BT470M,
        ColorPrimaries::BT470BG,
        ColorPrimaries::BT601,
        ColorPrimaries::SMPTE240,
        ColorPrimaries::GenericFilm,
        ColorPrimaries::BT2020,
        ColorPrimaries::XYZ,
        ColorPrimaries::SMPTE431,
        ColorPrimaries::SMPTE432,
        ColorPrimaries::EBU3213,
      ]),
      transfer_characteristics: s.pick(&[
        TransferCharacteristics::BT709,
        TransferCharacteristics::Unspecified,
        TransferCharacteristics::BT470M,
        TransferCharacteristics::BT470BG,
        TransferCharacteristics::BT601,
        TransferCharacteristics::SMPTE240,
        TransferCharacteristics::Linear,
        TransferCharacteristics::Log100,
        TransferCharacteristics::Log100Sqrt10,
        TransferCharacteristics::IEC61966,
        TransferCharacteristics::BT1361,
        TransferCharacteristics::SRGB,
        TransferCharacteristics::BT2020_10Bit,
        TransferCharacteristics::BT2020_12Bit,
        TransferCharacteristics::SMPTE2084,
        TransferCharacteristics::SMPTE428,
        TransferCharacteristics::HLG,
      ]),
      matrix_coefficients: s.pick(&[
        MatrixCoefficients::BT709,
        MatrixCoefficients::Unspecified,
        MatrixCoefficients::FCC,
        MatrixCoefficients::BT470BG,
        MatrixCoefficients::BT601,
        MatrixCoefficients::SMPTE240,
        MatrixCoefficients::YCgCo,
        MatrixCoefficients::BT2020NCL,
        MatrixCoefficients::BT2020CL,
        MatrixCoefficients::SMPTE2085,
        MatrixCoefficients::ChromatNCL,
        MatrixCoefficients::ChromatCL,
        MatrixCoefficients::ICtCp,
      ]),
    });
  }
  cfg.chroma_sample_position = s.pick(&[
    ChromaSamplePosition::Unknown,
    ChromaSamplePosition::Vertical,
    ChromaSamplePosition::Colocated,
  ]);
}

/// A valid configuration and matching content.
pub fn gen(s: &mut Src, lim: &Limits) -> Gen {
  let still = lim.still && s.chance(1, 12);
  let (w, h) = gen_size(s, lim, still);
  let chroma = [
    ChromaSampling::Cs420,
    ChromaSampling::Cs400,
    ChromaSampling::Cs422,
    ChromaSampling::Cs444,
  ][s.weighted(&[6, 2, 2, 3])];
  let bit_depth = if lim.hbd {
    [8, 10, 12][s.weighted(&[6, 3, 1])]
  } else {
    8
  };
  let frames = if still {
    1
  } else {
    match s.weighted(&[2, 5, 3]) {
      0 => s.us(1, 2.min(lim.max_frames)),
      1 => s.us(1, lim.max_frames.min(6)),
      _ => s.us(1, lim.max_frames),
    }
  };
  let (speed, ss, sdesc) = gen_speed(s, lim.min_speed);
  let mut cfg = EncoderConfig::with_speed_preset(speed);
  cfg.speed_settings = ss;
  cfg.width = w;
  cfg.height = h;
  cfg.chroma_sampling = chroma;
  cfg.bit_depth = bit_depth;
  cfg.still_picture = still;
  cfg.low_latency = s.chance(1, 3);
  cfg.quantizer = gen_quantizer(s);
  cfg.tune = s.pick(&[Tune::Psychovisual, Tune::Psnr]);
  cfg.error_resilient = s.chance(1, 8);
  if s.chance(1, 2) {
    cfg.speed_settings.rdo_lookahead_frames = s.us(1, 12);
  }
  match s.weighted(&[4, 3, 2]) {
    0 => {}
    1 => {
      let mx = s.range(1, 12);
      let mn = s.range(0, mx);
      cfg.set_key_frame_interval(mn, mx);
    }
    _ => {
      let mn = s.range(0, 4);
      cfg.set_key_frame_interval(mn, 0);
    }
  }
  if cfg.low_latency && !still && s.chance(1, 4) {
    cfg.switch_frame_interval = s.range(1, 5);
  }
  match s.weighted(&[4, 2, 3]) {
    0 => {}
    1 => cfg.tiles = s.us(1, 8),
    _ => {
      cfg.tile_cols = 1 << s.upto(3);
      cfg.tile_rows = 1 << s.upto(3);
    }
  }
  if lim.bitrate && s.chance(1, 6) {
    cfg.bitrate = s.pick(&[20_000, 100_000, 500_000, 5_000_000]);
    cfg.min_quantizer = s.pick(&[0, 0, 40, 100]);
    if s.chance(1, 2) {
      cfg.quantizer = 255;
    }
    if s.chance(1, 2) {
      cfg.reservoir_frame_delay = Some(s.range(12, 100) as i32);
    }
  }
  gen_color(s, &mut cfg);
  let video = Video::gen(s, w, h, frames, bit_depth, chroma);
  let desc = format!(
    "{sdesc} q{} {}{}{}{}tiles {}/{}x{} la {} kf {}..{} sw {} br {} tune {:?} | {}",
    cfg.quantizer,
    if still { "still " } else { "" },
    if cfg.low_latency { "lowlat " } else { "" },
    if cfg.error_resilient { "errres " } else { "" },
    if cfg.temporal_rdo() { "trdo " } else { "" },
    cfg.tiles,
    cfg.tile_cols,
    cfg.tile_rows,
    cfg.speed_settings.rdo_lookahead_frames,
    cfg.min_key_frame_interval,
    cfg.max_key_frame_interval,
    cfg.switch_frame_interval,
    cfg.bitrate,
    cfg.tune,
    video.desc()
  );
  Gen { cfg, video, speed, desc }
}

// ---------------------------------------------------------------- driver

/// A packet without its pixel type.
#[derive(Clone)]
pub struct Pkt {
  pub data: Vec<u8>,
  pub rec: Option<Img>,
  pub source: Option<Img>,
  pub input_frameno: u64,
  pub frame_type: FrameType,
  pub qp: u8,
  pub opaque: Option<u64>,
}

pub fn conv_pkt<T: Pixel>(p: Packet<T>, cfg: &EncoderConfig) -> Pkt {
  let im = |f: &Arc<Frame<T>>| {
    frame_to_img(f, cfg.width, cfg.height, cfg.bit_depth, cfg.chroma_sampling)
  };
  Pkt {
    rec: p.rec.as_ref().map(im),
    source: p.source.as_ref().map(im),
    data: p.data,
    input_frameno: p.input_frameno,
    frame_type: p.frame_type,
    qp: p.qp,
    opaque: p
      .opaque
      .map(|o| o.downcast::<u64>().map(|b| *b).unwrap_or(u64::MAX)),
  }
}

/// Sends everything, flushes, receives everything.
pub fn encode<T: Pixel>(
  config: &Config, cfg: &EncoderConfig, video: &Video,
) -> Result<Vec<Pkt>, Fail> {
  let mut ctx: Context<T> = config
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  for t in 0..video.frames {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &video.image(t));
    ctx
      .send_frame(f)
      .map_err(|e| Fail::new("send", format!("send_frame({t}): {e}")))?;
  }
  ctx.flush();
  drain(&mut ctx, cfg)
}

pub fn drain<T: Pixel>(
  ctx: &mut Context<T>, cfg: &EncoderConfig,
) -> Result<Vec<Pkt>, Fail> {
  let mut out = vec![];
  let mut idle = 0;
  loop {
    match ctx.receive_packet() {
      Ok(p) => {
        idle = 0;
        out.push(conv_pkt(p, cfg));
      }
      Err(EncoderStatus::Encoded) => {
        idle += 1;
        if idle > 64 {
          return Err(Fail::new("no-progress", "64 × Encoded with no packet"));
        }
      }
      Err(EncoderStatus::LimitReached) => break,
      Err(e) => {
        return Err(Fail::new(
          "receive-status",
          format!("receive_packet after flush returned {e:?}"),
        ))
      }
    }
  }
  Ok(out)
}

pub fn encode_any(
  config: &Config, cfg: &EncoderConfig, video: &Video,
) -> Result<Vec<Pkt>, Fail> {
  if cfg.bit_depth > 8 {
    encode::<u16>(config, cfg, video)
  } else {
    encode::<u8>(config, cfg, video)
  }
}
