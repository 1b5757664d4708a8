//! C07: headers state the configuration.
use crate::dec::Dav1d;
use crate::enc::*;
use crate::engine::*;
use crate::obu;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C07",
  rule: "One case = one configuration with random stream-level settings (size, aspect ratio, format, colour, level, timing, still picture, error resilience, switch frames) and a short clip; every packet is walked by an independent OBU parser and parsed by dav1d and each header field is compared with the configuration and the packet's fields. Non-trivial: at least one packet was parsed and compared.",
  assumptions: &["dav1d's header parser is correct"],
  cases: |t| if t == Tier::Quick { 6000 } else { 120000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

/// OBU structure of one packet; returns the sequence header if present.
pub fn structure(
  i: usize, p: &Pkt, reduced: bool,
) -> Result<Option<obu::SeqHdr>, Fail> {
  let obus = match obu::walk(&p.data) {
    Ok(o) => o,
    Err(e) => fail!("obu-walk", "packet {i}: {e}"),
  };
  ensure!(
    !obus.is_empty() && obus[0].ty == obu::TD && obus[0].payload.is_empty(),
    "temporal-delimiter",
    "packet {i} does not start with a temporal delimiter"
  );
  let mut shown = 0;
  let mut seq = None;
  let mut frames = 0;
  for (k, o) in obus.iter().enumerate() {
    match o.ty {
      obu::TD => ensure!(k == 0, "extra-td", "packet {i}: second temporal delimiter"),
      obu::SEQ => {
        ensure!(seq.is_none() && frames == 0, "extra-seq", "packet {i}: unexpected sequence header");
        match obu::seq_header(&o.payload) {
          Ok(h) => seq = Some(h),
          Err(e) => fail!("seq-parse", "packet {i}: {e}"),
        }
      }
      obu::METADATA => {
        if let Err(e) = obu::metadata(&o.payload) {
          fail!("metadata-parse", "packet {i}: {e}")
        }
      }
      obu::FRAME | obu::FRAME_HEADER => {
        frames += 1;
        let (sef, ty, show) = match obu::frame_start(&o.payload, reduced) {
          Ok(x) => x,
          Err(e) => fail!("frame-parse", "packet {i}: {e}"),
        };
        ensure!(sef == (o.ty == obu::FRAME_HEADER), "frame-obu-type", "packet {i}: show_existing {sef} in OBU type {}", o.ty);
        if show {
          shown += 1;
          ensure!(k == obus.len() - 1, "shown-not-last", "packet {i}: shown frame is not the last OBU");
          if !sef {
            ensure!(ty == p.frame_type as u8, "frame-type-bits", "packet {i}: header frame type {ty}, packet says {:?}", p.frame_type);
          }
        }
      }
      t => fail!("obu-type", "packet {i}: unexpected OBU type {t}"),
    }
  }
  ensure!(shown == 1, "shown-frames", "packet {i} shows {shown} frames");
  ensure!(
    seq.is_some() == (p.frame_type == FrameType::KEY),
    "seq-with-key",
    "packet {i}: {:?} and sequence header present: {}",
    p.frame_type,
    seq.is_some()
  );
  Ok(seq)
}

/// Level table of the specification: (idx, max pictures size, max h, max v,
/// max display rate).
pub const LEVELS: [(u8, u64, usize, usize, u64); 14] = [
  (0, 147456, 2048, 1152, 4423680),
  (1, 278784, 2816, 1584, 8363520),
  (4, 665856, 4352, 2448, 19975680),
  (5, 1065024, 5504, 3096, 31950720),
  (8, 2359296, 6144, 3456, 70778880),
  (9, 2359296, 6144, 3456, 141557760),
  (12, 8912896, 8192, 4352, 267386880),
  (13, 8912896, 8192, 4352, 534773760),
  (14, 8912896, 8192, 4352, 1069547520),
  (15, 8912896, 8192, 4352, 1069547520),
  (16, 35651584, 16384, 8704, 1069547520),
  (17, 35651584, 16384, 8704, 2139095040),
  (18, 35651584, 16384, 8704, 4278190080),
  (19, 35651584, 16384, 8704, 4278190080),
];

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits {
    max_pixels: 64 * 64,
    max_dim: 256,
    max_frames: 7,
    min_speed: 6,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  let cfg = &mut g.cfg;
  if s.chance(1, 2) {
    let (a, b) = match s.upto(2) {
      0 => (s.range(1, 4), s.range(1, 4)),
      1 => (s.range(1, 200), s.range(1, 200)),
      _ => s.pick(&[(16u64, 11), (12, 11), (64, 45), (1, 2), (2, 1), (255, 1), (1, 255)]),
    };
    cfg.sample_aspect_ratio = Rational::new(a, b);
  }
  match s.weighted(&[2, 2, 1]) {
    0 => {}
    1 => {
      let (n, d) = s.pick(&[(1u64, 24u64), (1, 25), (1001, 30000), (1001, 24000), (1, 60), (1, 1000), (3, 2)]);
      cfg.time_base = Rational::new(n, d);
    }
    _ => {
      cfg.time_base = Rational::new(s.range(1, 1 << 16), s.range(1, 1 << 20));
    }
  }
  if !cfg.still_picture && s.chance(1, 2) {
    cfg.enable_timing_info = true;
  }
  if s.chance(1, 2) {
    let fps = cfg.time_base.den as f64 / cfg.time_base.num as f64;
    let ok: Vec<u8> = LEVELS
      .iter()
      .filter(|l| {
        l.1 >= (cfg.width * cfg.height) as u64
          && l.2 >= cfg.width
          && l.3 >= cfg.height
          && (l.4 as f64) > (cfg.width * cfg.height) as f64 * fps * 1.01
      })
      .map(|l| l.0)
      .chain([31])
      .collect();
    cfg.level_idx = Some(s.pick(&ok));
  }
  // the sRGB triple
  if s.chance(1, 12) {
    cfg.color_description = Some(ColorDescription {
      color_primaries: ColorPrimaries::BT709,
      transfer_characteristics: TransferCharacteristics::SRGB,
      matrix_coefficients: MatrixCoefficients::Identity,
    });
    if cfg.chroma_sampling == ChromaSampling::Cs444 {
      cfg.pixel_range = PixelRange::Full;
    } else if cfg.chroma_sampling != ChromaSampling::Cs400 {
      cfg.color_description = None;
    }
  }
  let cfg = cfg.clone();
  rep.desc = format!(
    "sar {:?} tb {:?} timing {} level {:?} color {:?} range {:?} csp {:?} | {}",
    cfg.sample_aspect_ratio, cfg.time_base, cfg.enable_timing_info, cfg.level_idx,
    cfg.color_description, cfg.pixel_range, cfg.chroma_sample_position, g.desc
  );
  let config = Config::new().with_encoder_config(cfg.clone()).with_threads(1);
  let pkts = match encode_any(&config, &cfg, &g.video) {
    Ok(p) => p,
    Err(e) => return Err(e),
  };
  let csh = if cfg.bit_depth > 8 {
    config.new_context::<u16>().unwrap().container_sequence_header()
  } else {
    config.new_context::<u8>().unwrap().container_sequence_header()
  };
  ensure!(pkts.len() == g.video.frames, "packet-count", "{} packets for {} frames", pkts.len(), g.video.frames);
  // Monochrome with the sRGB triple is accepted by the configuration although a
  // strict decoder refuses the identity matrix outside 4:4:4.
  let strict = !(cfg.chroma_sampling == ChromaSampling::Cs400
    && cfg
      .color_description
      .is_some_and(|c| c.matrix_coefficients == MatrixCoefficients::Identity));
  let mut d = Dav1d::with(true, false, strict);
  let mut first_seq: Option<obu::SeqHdr> = None;
  for (i, p) in pkts.iter().enumerate() {
    let seq = structure(i, p, cfg.still_picture)?;
    if let Some(h) = &seq {
      check_seq(i, h, &cfg)?;
      if let Some(f) = &first_seq {
        ensure!(f == h, "seq-changes", "packet {i}: sequence header differs from the first");
      } else {
        check_container(&csh, h)?;
        first_seq = Some(h.clone());
      }
    }
    let pics = match d.packet(&p.data) {
      Ok(x) => x,
      Err(e) => fail!("dav1d-error", "packet {i}: {e}"),
    };
    ensure!(pics.len() == 1, "picture-count", "packet {i}: {} pictures", pics.len());
    let fh = pics[0].hdr.frame.as_ref().unwrap();
    let sh = pics[0].hdr.seq.as_ref().unwrap();
    macro_rules! eq {
      ($what:expr, $a:expr, $b:expr) => {
        ensure!(($a) == ($b), $what, "packet {i} ({:?}): header says {:?}, configuration {:?}", p.frame_type, $a, $b)
      };
    }
    eq!("dav1d-size", (sh.max_width, sh.max_height), (cfg.width as i32, cfg.height as i32));
    eq!("frame-size", (fh.width[0], fh.width[1], fh.height), (cfg.width as i32, cfg.width as i32, cfg.height as i32));
    let (rw, rh) = want_render(&cfg);
    eq!("render-size", (fh.render_width as usize, fh.render_height as usize), (rw, rh));
    eq!("frame-type", fh.frame_type as u8, p.frame_type as u8);
    let er = match p.frame_type {
      FrameType::KEY | FrameType::SWITCH => true,
      _ => cfg.error_resilient,
    };
    eq!("error-resilient", fh.error_resilient_mode != 0, er);
    eq!("quantizer", fh.quant.yac, p.qp);
    eq!("film-grain", (sh.film_grain_present, fh.film_grain.data.num_y_points), (0, 0));
    rep.nontrivial = true;
  }
  rep.tag(format!("chroma {} depth {}", chroma_name(cfg.chroma_sampling), cfg.bit_depth));
  if cfg.still_picture {
    rep.tag("still");
  }
  if cfg.enable_timing_info {
    rep.tag("timing info");
  }
  if cfg.level_idx.is_some() {
    rep.tag("level set");
  }
  if cfg.sample_aspect_ratio.num != cfg.sample_aspect_ratio.den {
    rep.tag("aspect ratio");
  }
  Ok(())
}

pub fn want_render(cfg: &EncoderConfig) -> (usize, usize) {
  // the wider side is stretched, rounded to nearest
  let (n, d) = (cfg.sample_aspect_ratio.num as u128, cfg.sample_aspect_ratio.den as u128);
  if n > d {
    (((cfg.width as u128 * n * 2 + d) / (2 * d)) as usize, cfg.height)
  } else {
    (cfg.width, ((cfg.height as u128 * d * 2 + n) / (2 * n)) as usize)
  }
}

fn check_seq(i: usize, h: &obu::SeqHdr, cfg: &EncoderConfig) -> CaseResult {
  let want_profile = match (cfg.bit_depth, cfg.chroma_sampling) {
    (12, _) | (_, ChromaSampling::Cs422) => 2,
    (_, ChromaSampling::Cs444) => 1,
    _ => 0,
  };
  let mono = cfg.chroma_sampling == ChromaSampling::Cs400;
  let ss = match cfg.chroma_sampling {
    ChromaSampling::Cs400 | ChromaSampling::Cs420 => (1, 1),
    ChromaSampling::Cs422 => (1, 0),
    ChromaSampling::Cs444 => (0, 0),
  };
  let want = obu::SeqHdr {
    profile: want_profile,
    still: cfg.still_picture,
    // reduced or not is the encoder's choice for a still picture
    reduced: h.reduced && cfg.still_picture,
    timing: if cfg.enable_timing_info {
      Some((cfg.time_base.num as u32, cfg.time_base.den as u32, true, 1))
    } else {
      None
    },
    level: cfg.level_idx.unwrap_or(31),
    tier: 0,
    max_w: cfg.width as u32,
    max_h: cfg.height as u32,
    bit_depth: cfg.bit_depth as u8,
    mono,
    color: cfg.color_description.map(|c| {
      (c.color_primaries as u8, c.transfer_characteristics as u8, c.matrix_coefficients as u8)
    }),
    full_range: cfg.pixel_range == PixelRange::Full,
    ss,
    csp: if cfg.chroma_sampling == ChromaSampling::Cs420 {
      cfg.chroma_sample_position as u8
    } else {
      0
    },
    film_grain: false,
    // coding choices, not part of the statement
    sb128: h.sb128,
    order_hint_bits: h.order_hint_bits,
    superres: h.superres,
    cdef: h.cdef,
    lr: h.lr,
  };
  ensure!(*h == want, "sequence-header", "packet {i}: sequence header {h:?}, expected {want:?}");
  Ok(())
}

fn check_container(c: &[u8], h: &obu::SeqHdr) -> CaseResult {
  ensure!(c.len() >= 4, "container-length", "record of {} bytes", c.len());
  let mut b = obu::Bits::new(c);
  let mut f = |n| b.f(n).unwrap() as u8;
  let got = (f(1), f(7), f(3), f(5), f(1), f(1), f(1), f(1), f(1), f(1), f(2));
  let want = (
    1,
    1,
    h.profile,
    h.level,
    h.tier,
    (h.bit_depth > 8) as u8,
    (h.bit_depth == 12) as u8,
    h.mono as u8,
    h.ss.0,
    h.ss.1,
    h.csp,
  );
  ensure!(
    got == want,
    "container-record",
    "container record (marker, version, profile, level, tier, high bit depth, twelve bit, mono, ss_x, ss_y, position) {got:?}, sequence header says {want:?}"
  );
  Ok(())
}
