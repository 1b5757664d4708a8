//! C19: serialized configurations, packets and rate-control summaries.
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use arrayvec::ArrayVec;
use rav1e::config::{GrainTableSegment, RateControlConfig};
use rav1e::data::EncoderStats;
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C19",
  rule: "One case = either one generated encoder configuration (every field and every coding-tool setting varied, valid or not), or one generated packet, or the packets of a small encode, or one generated rate-control summary. The value is written as TOML, JSON text (compact and pretty) and a JSON value tree, read back, and compared field by field through its complete Debug form; configurations that are small enough are also encoded before and after. Non-trivial: at least one format was written and read back (TOML cannot hold integers above i64::MAX and may refuse only those).",
  assumptions: &["serde_json and toml restore exactly the values the derived implementations hand to them"],
  cases: |t| if t == Tier::Quick { 40_000 } else { 600_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

/// An unsigned number: mostly ordinary, sometimes extreme.
fn num(s: &mut Src, max: u64) -> u64 {
  match s.weighted(&[5, 3, 2]) {
    0 => s.upto(max.min(300)),
    1 => {
      let b = s.upto(63 - max.leading_zeros().min(63) as u64);
      ((1u64 << b) - s.upto(1)).min(max)
    }
    _ => s.upto(max),
  }
}

/// TOML integers end at i64::MAX.
fn cap(s: &mut Src) -> u64 {
  if s.chance(1, 3) {
    u64::MAX
  } else {
    i64::MAX as u64
  }
}

fn av<T: Copy, const N: usize>(
  s: &mut Src, mut f: impl FnMut(&mut Src) -> T,
) -> ArrayVec<T, N> {
  let n = s.us(0, N);
  (0..n).map(|_| f(s)).collect()
}

fn points<const N: usize>(s: &mut Src) -> ArrayVec<[u8; 2], N> {
  av(s, |s| [s.upto(255) as u8, s.upto(255) as u8])
}

fn coeffs<const N: usize>(s: &mut Src) -> ArrayVec<i8, N> {
  av(s, |s| s.i(-128, 127) as i8)
}

pub fn segment(s: &mut Src) -> GrainTableSegment {
  let big = cap(s);
  GrainTableSegment {
    start_time: num(s, big),
    end_time: num(s, big),
    scaling_points_y: points(s),
    scaling_points_cb: points(s),
    scaling_points_cr: points(s),
    scaling_shift: s.upto(255) as u8,
    ar_coeff_lag: s.upto(3) as u8,
    ar_coeffs_y: coeffs(s),
    ar_coeffs_cb: coeffs(s),
    ar_coeffs_cr: coeffs(s),
    ar_coeff_shift: s.upto(255) as u8,
    cb_mult: s.upto(255) as u8,
    cb_luma_mult: s.upto(255) as u8,
    cb_offset: s.upto(65535) as u16,
    cr_mult: s.upto(255) as u8,
    cr_luma_mult: s.upto(255) as u8,
    cr_offset: s.upto(65535) as u16,
    overlap_flag: s.chance(1, 2),
    chroma_scaling_from_luma: s.chance(1, 2),
    grain_scale_shift: s.upto(255) as u8,
    random_seed: s.upto(65535) as u16,
  }
}

const ALL_BS: [BlockSize; 22] = [
  BlockSize::BLOCK_4X4,
  BlockSize::BLOCK_4X8,
  BlockSize::BLOCK_8X4,
  BlockSize::BLOCK_8X8,
  BlockSize::BLOCK_8X16,
  BlockSize::BLOCK_16X8,
  BlockSize::BLOCK_16X16,
  BlockSize::BLOCK_16X32,
  BlockSize::BLOCK_32X16,
  BlockSize::BLOCK_32X32,
  BlockSize::BLOCK_32X64,
  BlockSize::BLOCK_64X32,
  BlockSize::BLOCK_64X64,
  BlockSize::BLOCK_64X128,
  BlockSize::BLOCK_128X64,
  BlockSize::BLOCK_128X128,
  BlockSize::BLOCK_4X16,
  BlockSize::BLOCK_16X4,
  BlockSize::BLOCK_8X32,
  BlockSize::BLOCK_32X8,
  BlockSize::BLOCK_16X64,
  BlockSize::BLOCK_64X16,
];

/// Every field set independently of validity.
fn scramble(s: &mut Src, c: &mut EncoderConfig) {
  let big = cap(s);
  c.width = num(s, big) as usize;
  c.height = num(s, big) as usize;
  c.sample_aspect_ratio = Rational::new(num(s, big), num(s, big));
  c.time_base = Rational::new(num(s, big), num(s, big));
  c.bit_depth = num(s, big) as usize;
  c.level_idx = if s.chance(1, 2) { Some(s.upto(255) as u8) } else { None };
  c.enable_timing_info = s.chance(1, 2);
  c.still_picture = s.chance(1, 2);
  c.error_resilient = s.chance(1, 2);
  c.switch_frame_interval = num(s, big);
  c.min_key_frame_interval = num(s, big);
  c.max_key_frame_interval = num(s, big);
  c.reservoir_frame_delay = if s.chance(1, 2) {
    Some(s.i(i32::MIN as i64, i32::MAX as i64) as i32)
  } else {
    None
  };
  c.low_latency = s.chance(1, 2);
  c.quantizer = num(s, big) as usize;
  c.min_quantizer = s.upto(255) as u8;
  c.bitrate = s.i(i32::MIN as i64, i32::MAX as i64) as i32;
  c.tile_cols = num(s, big) as usize;
  c.tile_rows = num(s, big) as usize;
  c.tiles = num(s, big) as usize;
  let ss = &mut c.speed_settings;
  ss.multiref = s.chance(1, 2);
  ss.fast_deblock = s.chance(1, 2);
  ss.rdo_lookahead_frames = num(s, big) as usize;
  ss.lru_on_skip = s.chance(1, 2);
  ss.partition.encode_bottomup = s.chance(1, 2);
  ss.partition.non_square_partition_max_threshold = s.pick(&ALL_BS);
  ss.transform.reduced_tx_set = s.chance(1, 2);
  ss.transform.tx_domain_distortion = s.chance(1, 2);
  ss.transform.tx_domain_rate = s.chance(1, 2);
  ss.transform.rdo_tx_decision = s.chance(1, 2);
  ss.transform.enable_inter_tx_split = s.chance(1, 2);
  ss.motion.use_satd_subpel = s.chance(1, 2);
  ss.motion.include_near_mvs = s.chance(1, 2);
  ss.motion.me_allow_full_search = s.chance(1, 2);
  let sq = [
    BlockSize::BLOCK_4X4,
    BlockSize::BLOCK_8X8,
    BlockSize::BLOCK_16X16,
    BlockSize::BLOCK_32X32,
    BlockSize::BLOCK_64X64,
    BlockSize::BLOCK_128X128,
  ];
  let a = s.us(0, 5);
  let b = s.us(a, 5);
  ss.partition.partition_range =
    rav1e::bench::api::config::PartitionRange::new(sq[a], sq[b]);
}

/// Fields that keep the configuration valid.
fn decorate(s: &mut Src, c: &mut EncoderConfig) {
  c.sample_aspect_ratio = Rational::new(s.range(1, 4), s.range(1, 4));
  c.time_base = Rational::new(s.range(1, 1001), s.range(1, 60000));
  c.enable_timing_info = !c.still_picture && s.chance(1, 2);
  c.speed_settings.transform.reduced_tx_set = s.chance(1, 2);
  c.speed_settings.transform.enable_inter_tx_split = s.chance(1, 2);
  if s.chance(1, 3) {
    c.level_idx = Some(31);
  }
}

fn hdr(s: &mut Src, c: &mut EncoderConfig) {
  if s.chance(1, 2) {
    c.color_description = Some(ColorDescription {
      color_primaries: ColorPrimaries::BT709,
      transfer_characteristics: TransferCharacteristics::SRGB,
      matrix_coefficients: MatrixCoefficients::BT709,
    });
    gen_color(s, c);
  }
  if s.chance(1, 2) {
    let mut p =
      || ChromaticityPoint { x: s.upto(65535) as u16, y: s.upto(65535) as u16 };
    let primaries = [p(), p(), p()];
    let white_point = p();
    c.mastering_display = Some(MasteringDisplay {
      primaries,
      white_point,
      max_luminance: s.upto(u32::MAX as u64) as u32,
      min_luminance: s.upto(u32::MAX as u64) as u32,
    });
  }
  if s.chance(1, 2) {
    c.content_light = Some(ContentLight {
      max_content_light_level: s.upto(65535) as u16,
      max_frame_average_light_level: s.upto(65535) as u16,
    });
  }
}

/// Largest unsigned integer appearing in a JSON tree.
fn above_i64(v: &serde_json::Value) -> bool {
  match v {
    serde_json::Value::Number(n) => n.as_u64().is_some_and(|x| x > i64::MAX as u64),
    serde_json::Value::Array(a) => a.iter().any(above_i64),
    serde_json::Value::Object(o) => o.values().any(above_i64),
    _ => false,
  }
}

/// Writes and reads back in every format; returns the restored values.
fn round<T>(what: &str, x: &T, rep: &mut Report) -> Result<Vec<T>, Fail>
where
  T: serde::Serialize + for<'a> serde::Deserialize<'a> + std::fmt::Debug,
{
  let want = format!("{x:?}");
  let mut out = vec![];
  let tree = match serde_json::to_value(x) {
    Ok(v) => v,
    Err(e) => fail!("json-write", "{what}: {e}"),
  };
  let texts = [
    ("json", serde_json::to_string(x)),
    ("json-pretty", serde_json::to_string_pretty(x)),
  ];
  for (f, t) in texts {
    let t = match t {
      Ok(t) => t,
      Err(e) => fail!("json-write", "{what} {f}: {e}"),
    };
    match serde_json::from_str::<T>(&t) {
      Ok(y) => out.push((f, y)),
      Err(e) => fail!("json-read", "{what} {f}: {e}: {t}"),
    }
  }
  match serde_json::from_value::<T>(tree.clone()) {
    Ok(y) => out.push(("json-tree", y)),
    Err(e) => fail!("json-read", "{what} tree: {e}: {tree}"),
  }
  let big = above_i64(&tree);
  for (f, t) in
    [("toml", toml::to_string(x)), ("toml-pretty", toml::to_string_pretty(x))]
  {
    match t {
      Ok(t) => match toml::from_str::<T>(&t) {
        Ok(y) => {
          rep.tag(format!("{what} toml"));
          out.push((f, y))
        }
        Err(e) => fail!("toml-read", "{what} {f}: {e}: {t}"),
      },
      Err(e) => {
        ensure!(big, "toml-write", "{what} {f}: {e}: {tree}");
        rep.tag(format!("{what} toml refused (integer above i64::MAX)"));
      }
    }
  }
  let mut r = vec![];
  for (f, y) in out {
    let got = format!("{y:?}");
    if got != want {
      let at = want
        .bytes()
        .zip(got.bytes())
        .position(|(a, b)| a != b)
        .unwrap_or(want.len().min(got.len()));
      let cut = |t: &str| {
        t.chars().skip(at.saturating_sub(60)).take(140).collect::<String>()
      };
      fail!(
        "value-changed",
        "{what} through {f}: wrote …{}… read …{}…",
        cut(&want),
        cut(&got)
      );
    }
    match serde_json::to_value(&y) {
      Ok(t) => ensure!(t == tree, "rewrite-changed", "{what} {f}"),
      Err(e) => fail!("json-write", "{what} {f} again: {e}"),
    }
    r.push(y);
  }
  rep.nontrivial = true;
  Ok(r)
}

fn config_case(s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits {
    max_pixels: 64 * 64,
    max_dim: 96,
    max_frames: 5,
    min_speed: 5,
    ..Limits::default()
  };
  let g = gen(s, &lim);
  let mut c = g.cfg.clone();
  let encode = s.chance(1, 40);
  hdr(s, &mut c);
  if encode {
    decorate(s, &mut c);
  } else {
    scramble(s, &mut c);
  }
  if s.chance(1, 4) && !encode {
    c.film_grain_params =
      Some((0..s.us(0, 3)).map(|_| segment(s)).collect::<Vec<_>>());
  }
  rep.tag(if encode { "configuration, encoded" } else { "configuration" });
  rep.desc = format!("{c:?}");
  let back = round("configuration", &c, rep)?;
  if encode {
    let run = |c: &EncoderConfig| {
      encode_any(
        &Config::new().with_encoder_config(c.clone()).with_threads(1),
        c,
        &g.video,
      )
    };
    let a = run(&c)?;
    let b = run(&back[s.us(0, back.len() - 1)])?;
    crate::checks::c03::same(&a, &b, "restored configuration")?;
  }
  Ok(())
}

fn stats(s: &mut Src) -> EncoderStats {
  let big = cap(s);
  let mut e = EncoderStats::default();
  let mut fill = |v: &mut [usize]| {
    for x in v.iter_mut() {
      *x = num(s, big) as usize;
    }
  };
  fill(&mut e.block_size_counts);
  fill(&mut e.tx_type_counts);
  fill(&mut e.luma_pred_mode_counts);
  fill(&mut e.chroma_pred_mode_counts);
  e.skip_block_count = num(s, big) as usize;
  e
}

fn check_packet<T: Pixel + std::fmt::Debug>(
  p: &Packet<T>, rep: &mut Report,
) -> CaseResult
where
  Packet<T>: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
  for q in round("packet", p, rep)? {
    ensure!(
      q.data == p.data
        && q.input_frameno == p.input_frameno
        && q.frame_type == p.frame_type
        && q.qp == p.qp
        && q.enc_stats == p.enc_stats,
      "packet-changed",
      "packet {}",
      p.input_frameno
    );
    ensure!(&q == p, "packet-unequal", "packet {}", p.input_frameno);
  }
  Ok(())
}

fn packet<T: Pixel + std::fmt::Debug>(s: &mut Src, rep: &mut Report) -> CaseResult
where
  Packet<T>: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
  let p: Packet<T> = Packet {
    data: s.bytes(300),
    rec: None,
    source: None,
    input_frameno: num(s, i64::MAX as u64),
    frame_type: s.pick(&[
      FrameType::KEY,
      FrameType::INTER,
      FrameType::INTRA_ONLY,
      FrameType::SWITCH,
    ]),
    qp: s.upto(255) as u8,
    enc_stats: stats(s),
    opaque: None,
  };
  rep.tag("packet, generated");
  rep.desc = format!("packet {} bytes {:?}", p.data.len(), p.frame_type);
  check_packet(&p, rep)
}

fn encoded<T: Pixel + std::fmt::Debug + serde::Serialize + for<'a> serde::Deserialize<'a>>(
  g: &Gen, rep: &mut Report,
) -> CaseResult
where
  Packet<T>: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
  let config = Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
  let mut ctx: Context<T> = match config.new_context() {
    Ok(c) => c,
    Err(e) => fail!("config-rejected", "{e}"),
  };
  for t in 0..g.video.frames {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &g.video.image(t));
    if let Err(e) = ctx.send_frame(f) {
      fail!("send", "{e}");
    }
  }
  ctx.flush();
  rep.tag("packets, encoded");
  rep.desc = g.desc.clone();
  loop {
    match ctx.receive_packet() {
      Ok(mut p) => {
        // pictures and user data stay behind by design
        p.rec = None;
        p.source = None;
        p.opaque = None;
        check_packet(&p, rep)?;
      }
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::LimitReached) => return Ok(()),
      Err(e) => fail!("receive-status", "{e:?}"),
    }
  }
}

/// The documented little-endian layout of a first-pass summary.
pub fn summary_bytes(
  ntus: i32, nframes: [i32; 5], exp: [u8; 4], sum: [i64; 4],
) -> Vec<u8> {
  let mut v = vec![];
  v.extend(0x5032_4156u32.to_le_bytes());
  v.extend(1u32.to_le_bytes());
  v.extend(ntus.to_le_bytes());
  nframes.iter().for_each(|x| v.extend(x.to_le_bytes()));
  v.extend(exp);
  sum.iter().for_each(|x| v.extend(x.to_le_bytes()));
  v
}

fn summary(s: &mut Src, rep: &mut Report) -> CaseResult {
  let mut nframes = [0i32; 5];
  let mut left = i32::MAX as u64;
  for n in nframes.iter_mut() {
    let v = num(s, left);
    *n = v as i32;
    left -= v;
  }
  // every encode starts with a key frame
  if nframes[0] == 0 {
    nframes = [1, 0, 0, 0, 0];
  }
  let total: i32 = nframes.iter().sum();
  let ntus = (1 + num(s, total as u64 - 1)) as i32;
  let mut exp = [0u8; 4];
  exp.iter_mut().for_each(|e| *e = s.range(48, 139) as u8);
  // at most 2^16 (in Q24) for every frame of the type
  let mut sum = [0i64; 4];
  for (e, &n) in sum.iter_mut().zip(nframes.iter()) {
    let max = (n as i64).saturating_mul(1 << 40);
    *e = num(s, max as u64) as i64;
  }
  let b = summary_bytes(ntus, nframes, exp, sum);
  rep.tag("summary");
  rep.desc = format!("summary {ntus} {nframes:?} {exp:?} {sum:?}");
  let rc = match RateControlConfig::from_summary_slice(&b) {
    Ok(r) => r,
    Err(e) => fail!("summary-refused", "{e}: {}", rep.desc),
  };
  let want = format!(
    "ntus: {ntus}, nframes: {nframes:?}, exp: {exp:?}, scale_sum: {sum:?}, total: {total}"
  );
  let got = format!("{rc:?}");
  ensure!(got.contains(&want), "summary-changed", "{want} restored as {got}");
  rep.nontrivial = true;
  Ok(())
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  match s.weighted(&[70, 20, 2, 8]) {
    0 => config_case(s, rep),
    1 => {
      if s.chance(1, 2) {
        packet::<u8>(s, rep)
      } else {
        packet::<u16>(s, rep)
      }
    }
    2 => {
      let lim = Limits {
        max_pixels: 64 * 64,
        max_dim: 96,
        max_frames: 4,
        min_speed: 5,
        ..Limits::default()
      };
      let g = gen(s, &lim);
      if g.cfg.bit_depth > 8 {
        encoded::<u16>(&g, rep)
      } else {
        encoded::<u8>(&g, rep)
      }
    }
    _ => summary(s, rep),
  }
}
