//! C13: the command line tool writes a complete, decodable, faithful file.
use crate::checks::c18;
use crate::dec::{Dav1d, Img};
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use av1_grain::{
  generate_photon_noise_params, parse_grain_table, write_grain_table,
  NoiseGenArgs, TransferFunction,
};
use rav1e::config::RateControlConfig;
use rav1e::prelude::*;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;

pub static CHECK: Check = Check {
  id: "C13",
  rule: "One case = a generated Y4M file and command line. (a) valid: the tool's IVF file (header, timestamps, payloads), reconstruction and statistics are compared with what the library gives for the configuration the options describe and the frames that --skip and --limit select, and the decoded IVF with the reconstruction; (b) bad options, (c) damaged input or statistics, (d) an output that cannot be written: the tool has to end with an error exit, or with a complete file where the damage does not matter, and never with a panic. Non-trivial: (a) at least one frame was compared, (b)-(d) the tool ran to its exit.",
  assumptions: &[
    "the Y4M reader treats a frame cut off by the end of the input as the end of the input",
    "frame sizes in damaged headers are limited to 65536 samples",
  ],
  cases: |t| if t == Tier::Quick { 3000 } else { 60_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: false,
};

struct Dir(PathBuf);

impl Dir {
  fn new() -> Dir {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!(
      "rvh-c13-{}-{}",
      std::process::id(),
      N.fetch_add(1, Ordering::Relaxed)
    ));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
  }
  fn p(&self, n: &str) -> String {
    self.0.join(n).to_str().unwrap().to_owned()
  }
}

impl Drop for Dir {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

struct Out {
  code: i32,
  stdout: Vec<u8>,
  stderr: String,
}

fn tool(dir: &Path, args: &[String], stdin: &[u8]) -> Result<Out, Fail> {
  let bin = std::env::var_os("RVH_CLI")
    .ok_or_else(|| Fail::new("setup", "RVH_CLI is not set"))?;
  let mut c = Command::new(bin);
  c.args(args)
    .current_dir(dir)
    .env("RUST_BACKTRACE", "0")
    .env_remove("RAV1E_LOG")
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::piped());
  unsafe {
    c.pre_exec(|| {
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      Ok(())
    });
  }
  let mut ch =
    c.spawn().map_err(|e| Fail::new("setup", format!("spawn: {e}")))?;
  let mut w = ch.stdin.take().unwrap();
  let data = stdin.to_vec();
  let t = std::thread::spawn(move || {
    let _ = w.write_all(&data);
  });
  let o = ch
    .wait_with_output()
    .map_err(|e| Fail::new("setup", format!("wait: {e}")))?;
  let _ = t.join();
  let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
  let code = match (o.status.code(), o.status.signal()) {
    (Some(c), _) => c,
    (None, Some(s)) => 1000 + s,
    _ => 2000,
  };
  Ok(Out { code, stdout: o.stdout, stderr })
}

/// No panic, no signal, no exit code but the documented ones.
fn orderly(o: &Out, what: &str) -> CaseResult {
  let at =
    o.stderr.lines().find(|l| l.contains("panicked at")).map(str::to_owned);
  if let Some(l) = at {
    // the place identifies the defect
    let place = l.split("panicked at ").nth(1).unwrap_or("").to_owned();
    let file = place.split(':').next().unwrap_or("").to_owned();
    return Err(Fail::new(
      format!("panic {file}"),
      format!("{what}: {}", tail(&o.stderr)),
    ));
  }
  ensure!(
    (0..=2).contains(&o.code),
    "exit-code",
    "{what}: exit code {}: {}",
    o.code,
    tail(&o.stderr)
  );
  Ok(())
}

fn tail(s: &str) -> String {
  let v: Vec<char> = s.trim().chars().collect();
  v[v.len().saturating_sub(300)..].iter().collect()
}

struct Y4m {
  head: Vec<(u8, Vec<u8>)>,
  w: usize,
  h: usize,
  bd: usize,
  cs: ChromaSampling,
  name: Vec<u8>,
  frames: Vec<Img>,
  /// The input ended in something that is not a frame.
  bad: bool,
  /// The frames with samples beyond the bit depth.
  wild: Vec<usize>,
}

const SPACES: [(&str, ChromaSampling, usize, ChromaSamplePosition); 14] = {
  use ChromaSamplePosition::*;
  use ChromaSampling::*;
  [
    ("mono", Cs400, 8, Unknown),
    ("mono12", Cs400, 12, Unknown),
    ("420", Cs420, 8, Colocated),
    ("420p10", Cs420, 10, Colocated),
    ("420p12", Cs420, 12, Colocated),
    ("422", Cs422, 8, Colocated),
    ("422p10", Cs422, 10, Colocated),
    ("422p12", Cs422, 12, Colocated),
    ("444", Cs444, 8, Colocated),
    ("444p10", Cs444, 10, Colocated),
    ("444p12", Cs444, 12, Colocated),
    ("420jpeg", Cs420, 8, Unknown),
    ("420paldv", Cs420, 8, Unknown),
    ("420mpeg2", Cs420, 8, Vertical),
  ]
};

fn num(b: &[u8]) -> Option<usize> {
  std::str::from_utf8(b).ok()?.parse().ok()
}

fn ratio(b: &[u8]) -> Option<(usize, usize)> {
  let i = b.iter().position(|c| *c == b':')?;
  Some((num(&b[..i])?, num(&b[i + 1..])?))
}

/// What a file holds, by the format; None: not a video.
fn parse_y4m(d: &[u8], max: usize) -> Option<Y4m> {
  let line = |at: usize| -> Option<usize> {
    d[at..].iter().take(1024).position(|c| *c == b'\n').map(|n| at + n)
  };
  let e = line(0)?;
  let head = d[..e].strip_prefix(b"YUV4MPEG2 ")?;
  let mut y = Y4m {
    head: vec![],
    w: 0,
    h: 0,
    bd: 8,
    cs: ChromaSampling::Cs420,
    name: b"420".to_vec(),
    frames: vec![],
    bad: false,
    wild: vec![],
  };
  for p in head.split(|c| *c == b' ').filter(|p| !p.is_empty()) {
    let v = &p[1..];
    match p[0] {
      b'W' => y.w = num(v)?,
      b'H' => y.h = num(v)?,
      b'F' | b'A' => {
        ratio(v)?;
      }
      b'C' => {
        let s = SPACES.iter().find(|s| s.0.as_bytes() == v)?;
        y.cs = s.1;
        y.bd = s.2;
        y.name = v.to_vec();
      }
      _ => {}
    }
    y.head.push((p[0], v.to_vec()));
  }
  if y.w == 0 || y.h == 0 {
    return None;
  }
  let bytes = if y.bd > 8 { 2 } else { 1 };
  let (xd, yd) = decim(y.cs);
  if y.w.checked_mul(y.h)? > max {
    return Some(y);
  }
  let dims: Vec<(usize, usize)> = (0..n_planes(y.cs))
    .map(|p| {
      if p == 0 {
        (y.w, y.h)
      } else {
        ((y.w + xd) >> xd, (y.h + yd) >> yd)
      }
    })
    .collect();
  let mut at = e + 1;
  loop {
    let e = match line(at) {
      Some(e) => e,
      None => {
        y.bad = d.len() - at >= 1024;
        break;
      }
    };
    if !d[at..e].starts_with(b"FRAME")
      || (e - at > 5 && d[at + 5] != b' ')
    {
      y.bad = true;
      break;
    }
    at = e + 1;
    let size: usize = dims.iter().map(|d| d.0 * d.1 * bytes).sum();
    if d.len() - at < size {
      break;
    }
    let mut wild = false;
    let mut planes = vec![];
    for (w, h) in &dims {
      let n = w * h;
      let v: Vec<u16> = (0..n)
        .map(|i| {
          if bytes == 1 {
            d[at + i] as u16
          } else {
            u16::from_le_bytes([d[at + 2 * i], d[at + 2 * i + 1]])
          }
        })
        .collect();
      at += n * bytes;
      if v.iter().any(|v| *v as u32 >> y.bd != 0) {
        wild = true;
      }
      planes.push((*w, *h, v));
    }
    if wild {
      y.wild.push(y.frames.len());
    }
    y.frames.push(Img { w: y.w, h: y.h, bit_depth: y.bd, planes });
  }
  Some(y)
}

impl Y4m {
  fn get(&self, k: u8) -> Option<&[u8]> {
    self.head.iter().rev().find(|h| h.0 == k).map(|h| &h.1[..])
  }
  fn rate(&self) -> (usize, usize) {
    self.get(b'F').and_then(ratio).unwrap_or((25, 1))
  }
  fn aspect(&self) -> (usize, usize) {
    self.get(b'A').and_then(ratio).unwrap_or((1, 1))
  }
}

fn put_frame(d: &mut Vec<u8>, img: &Img, params: &str) {
  d.extend(b"FRAME");
  d.extend(params.as_bytes());
  d.push(b'\n');
  for p in &img.planes {
    for v in &p.2 {
      if img.bit_depth > 8 {
        d.extend(v.to_le_bytes());
      } else {
        d.push(*v as u8);
      }
    }
  }
}

fn gen_y4m(s: &mut Src) -> (Vec<u8>, String) {
  let sp = s.pick(&SPACES);
  let lim =
    Limits { max_pixels: 64 * 64, max_dim: 128, ..Default::default() };
  let (w, h) = gen_size(s, &lim, true);
  let n = if s.chance(1, 20) { 0 } else { s.us(1, 8) };
  let v = Video::gen(s, w, h, n.max(1), sp.2, sp.1);
  let mut head = format!("YUV4MPEG2 W{w} H{h}");
  if !s.chance(1, 10) {
    let (a, b) = s.pick(&[
      (25, 1),
      (30000, 1001),
      (24, 1),
      (1, 1),
      (1000, 1),
      (50, 2),
      (1, 7),
      (60000, 1001),
    ]);
    head += &format!(" F{a}:{b}");
  }
  if s.chance(1, 3) {
    head += s.pick(&[" Ip", " It", " I?"]);
  }
  if s.chance(1, 3) {
    head +=
      s.pick(&[" A1:1", " A0:0", " A128:117", " A4:3", " A2:2", " A10:11"]);
  }
  if sp.0 != "420" || s.chance(3, 4) {
    head += &format!(" C{}", sp.0);
  }
  if s.chance(1, 4) {
    head += s.pick(&[" XYSCSS=420JPEG", " XCOLORRANGE=FULL"]);
  }
  let mut d = head.clone().into_bytes();
  d.push(b'\n');
  let params = if s.chance(1, 8) { " Ip" } else { "" };
  for t in 0..n {
    put_frame(&mut d, &v.image(t), params);
  }
  (d, format!("{head} | {n} frames of {}", v.desc()))
}

/// A command line and what it asks for.
struct Line {
  args: Vec<String>,
  cfg: EncoderConfig,
  speed: u8,
  skip: usize,
  limit: usize,
  hbd: bool,
  range: bool,
  rate: bool,
  photon: u8,
  /// Metrics that are not defined for the video.
  metrics: bool,
}

fn gen_line(s: &mut Src, dir: &Dir, y: &Y4m, passes: bool) -> Line {
  let speed = if s.chance(1, 20) { s.us(2, 5) } else { s.us(6, 10) } as u8;
  let mut cfg = EncoderConfig::with_speed_preset(speed);
  cfg.set_key_frame_interval(12, 240);
  cfg.quantizer = 100;
  cfg.pixel_range = PixelRange::Limited;
  let mut a: Vec<String> = vec![];
  let mut l = |v: &[&str]| a.extend(v.iter().map(|v| v.to_string()));
  let mut skip = 0;
  let mut limit = 0;
  let (mut hbd, mut range, mut rate, mut photon) = (false, false, false, 0);
  l(&[s.pick(&["-s", "--speed"]), &speed.to_string()]);
  if passes || s.chance(1, 4) {
    let kb = s.pick(&[1, 20, 100, 500, 3000, 100_000]);
    l(&[s.pick(&["-b", "--bitrate"]), &kb.to_string()]);
    cfg.bitrate = kb * 1000;
    cfg.quantizer = 255;
  }
  if s.chance(1, 2) {
    cfg.quantizer = gen_quantizer(s).clamp(1, 255);
    l(&["--quantizer", &cfg.quantizer.to_string()]);
  }
  if s.chance(1, 6) {
    let q = s.us(0, cfg.quantizer);
    l(&["--min-quantizer", &q.to_string()]);
    cfg.min_quantizer = q as u8;
  }
  if s.chance(1, 3) {
    let (i, m) = (s.range(0, 8), s.range(0, 8));
    l(&[s.pick(&["-i", "--min-keyint"]), &i.to_string()]);
    l(&[s.pick(&["-I", "--keyint"]), &m.to_string()]);
    cfg.set_key_frame_interval(i.min(m), m);
  }
  if s.chance(1, 5) {
    l(&["--low-latency"]);
    cfg.low_latency = true;
    if s.chance(1, 2) {
      let n = s.range(0, 4);
      l(&[s.pick(&["-S", "--switch-frame-interval"]), &n.to_string()]);
      cfg.switch_frame_interval = n;
    }
  }
  if s.chance(1, 8) {
    let n = s.range(12, 300) as i32;
    l(&["--reservoir-frame-delay", &n.to_string()]);
    cfg.reservoir_frame_delay = Some(n);
  }
  if s.chance(1, 6) {
    let n = s.range(0, 1);
    l(&["--scd-speed", &n.to_string()]);
    cfg.speed_settings.scene_detection_mode =
      [SceneDetectionSpeed::Standard, SceneDetectionSpeed::Fast][n as usize];
  }
  if s.chance(1, 8) {
    l(&["--no-scene-detection"]);
    cfg.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
  }
  if s.chance(1, 5) {
    let n = s.us(1, 50);
    l(&["--rdo-lookahead-frames", &n.to_string()]);
    cfg.speed_settings.rdo_lookahead_frames = n;
  }
  if s.chance(1, 3) {
    cfg.tune = s.pick(&[Tune::Psnr, Tune::Psychovisual]);
    l(&["--tune", &format!("{}", cfg.tune)]);
  }
  if cfg.tune == Tune::Psychovisual {
    cfg.speed_settings.transform.tx_domain_distortion = false;
  }
  if s.chance(1, 8) {
    l(&["--still-picture"]);
    cfg.still_picture = true;
  }
  match s.upto(5) {
    0 => {
      cfg.tiles = s.us(0, 5);
      l(&["--tiles", &cfg.tiles.to_string()]);
    }
    1 => {
      cfg.tile_rows = s.pick(&[0, 1, 2, 4, 3]);
      cfg.tile_cols = s.pick(&[0, 1, 2, 4, 64]);
      l(&["--tile-rows", &cfg.tile_rows.to_string()]);
      l(&["--tile-cols", &cfg.tile_cols.to_string()]);
    }
    _ => {}
  }
  if s.chance(1, 3) {
    l(&["--threads", &s.range(0, 3).to_string()]);
  }
  if s.chance(1, 3) {
    gen_color(s, &mut cfg);
    l(&["--range", &format!("{}", cfg.pixel_range)]);
    range = true;
    if let Some(c) = cfg.color_description {
      l(&["--primaries", &format!("{}", c.color_primaries)]);
      l(&["--transfer", &format!("{}", c.transfer_characteristics)]);
      l(&["--matrix", &format!("{}", c.matrix_coefficients)]);
      if c.color_primaries == ColorPrimaries::Unspecified
        && c.transfer_characteristics == TransferCharacteristics::Unspecified
        && c.matrix_coefficients == MatrixCoefficients::Unspecified
      {
        cfg.color_description = None;
      }
    }
    // set by their own options
    cfg.mastering_display = None;
    cfg.content_light = None;
  }
  if s.chance(1, 6) {
    let (c, f) = (s.upto(65535) as u16, s.upto(65535) as u16);
    l(&["--content-light", &format!("{c},{f}")]);
    if c != 0 || f != 0 {
      cfg.content_light = Some(ContentLight {
        max_content_light_level: c,
        max_frame_average_light_level: f,
      });
    }
  }
  if s.chance(1, 6) {
    // in units that are exact
    let p: Vec<u16> = (0..8).map(|_| s.upto(65535) as u16).collect();
    let (mx, mn) = (s.upto(1 << 24) as u32, s.upto(1 << 16) as u32);
    let f = |v: u16| v as f64 / 65536.0;
    l(&[
      "--mastering-display",
      &format!(
        "G({},{})B({},{})R({},{})WP({},{})L({},{})",
        f(p[0]),
        f(p[1]),
        f(p[2]),
        f(p[3]),
        f(p[4]),
        f(p[5]),
        f(p[6]),
        f(p[7]),
        mx as f64 / 256.0,
        mn as f64 / 16384.0
      ),
    ]);
    let c = |i: usize| ChromaticityPoint { x: p[i], y: p[i + 1] };
    cfg.mastering_display = Some(MasteringDisplay {
      primaries: [c(4), c(0), c(2)],
      white_point: c(6),
      max_luminance: mx,
      min_luminance: mn,
    });
  }
  if s.chance(1, 6) {
    let (m, n) = (s.range(2, 7), s.range(0, 3));
    match s.upto(3) {
      0 => {
        l(&["--level", "auto"]);
        cfg.level_idx = None;
      }
      1 => {
        l(&["--level", "unconstrained"]);
        cfg.level_idx = Some(31);
      }
      _ => {
        l(&["--level", &format!("{m}.{n}")]);
        cfg.level_idx = Some((((m - 2) << 2) + n) as u8);
      }
    }
  }
  if s.chance(1, 6) {
    let (f, t) = (s.range(1, 120), s.range(1, 1001));
    l(&["--frame-rate", &f.to_string(), "--time-scale", &t.to_string()]);
    cfg.time_base = Rational::new(t, f);
    rate = true;
  } else {
    let (n, d) = y.rate();
    cfg.time_base = Rational::new(d as u64, n as u64);
    if s.chance(1, 12) {
      // ignored without a rate
      l(&["--time-scale", "17"]);
    }
  }
  match s.upto(11) {
    0 => {
      photon = s.range(0, 64) as u8;
      l(&["--photon-noise", &photon.to_string()]);
    }
    1 => {
      let f = dir.p("grain.tbl");
      let mut segs = vec![];
      let mut t0 = 0;
      for _ in 0..s.us(0, 2) {
        let t1 = t0 + s.range(1, 4_000_000);
        segs.push(c18::segment(s, y.cs, t0, t1));
        t0 = t1;
      }
      if write_grain_table(&f, &segs).is_ok() {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        if let Ok(t) = parse_grain_table(&text) {
          l(&["--film-grain-table", &f]);
          if !t.is_empty() {
            cfg.film_grain_params = Some(t);
          }
        }
      }
    }
    _ => {}
  }
  if photon > 0 {
    cfg.film_grain_params = Some(vec![generate_photon_noise_params(
      0,
      u64::MAX,
      NoiseGenArgs {
        iso_setting: photon as u32 * 100,
        width: y.w as u32,
        height: y.h as u32,
        transfer_function: if cfg.is_hdr() {
          TransferFunction::SMPTE2084
        } else {
          TransferFunction::BT1886
        },
        chroma_grain: false,
        random_seed: None,
      },
    )]);
  }
  if s.chance(1, 4) {
    skip = s.us(0, y.frames.len());
    l(&["--skip", &skip.to_string()]);
  }
  if s.chance(1, 4) {
    limit = if cfg.still_picture {
      s.us(0, 1)
    } else if s.chance(1, 6) {
      s.pick(&[1 << 20, 1 << 40, usize::MAX])
    } else {
      s.us(0, 9)
    };
    l(&[s.pick(&["-l", "--limit"]), &limit.to_string()]);
  }
  if s.chance(1, 8) {
    l(&["--high-bitdepth"]);
    hbd = true;
  }
  match s.upto(4) {
    0 => {}
    1 => l(&["-v"]),
    2 => l(&["--verbose", "--benchmark"]),
    _ => l(&["-q"]),
  }
  let no_psnr = hbd && y.bd == 8;
  let metrics = match s.upto(7) {
    0 => {
      l(&["--psnr"]);
      no_psnr
    }
    1 => {
      l(&["--metrics"]);
      let (xd, yd) = decim(y.cs);
      no_psnr
        || y.cs == ChromaSampling::Cs400
        || ((y.w + xd) >> xd).min((y.h + yd) >> yd) < 8
    }
    _ => false,
  };
  cfg.width = y.w;
  cfg.height = y.h;
  cfg.bit_depth = y.bd;
  cfg.chroma_sampling = y.cs;
  cfg.chroma_sample_position =
    SPACES.iter().find(|p| p.0.as_bytes() == y.name).unwrap().3;
  cfg.sample_aspect_ratio = match y.aspect() {
    (0, 0) => Rational::new(1, 1),
    (n, d) => Rational::new(n as u64, d as u64),
  };
  Line { args: a, cfg, speed, skip, limit, hbd, range, rate, photon, metrics }
}

/// What the library gives, driven frame by frame.
struct Want {
  pkts: Vec<Pkt>,
  stats: Vec<u8>,
}

fn be(d: &[u8]) -> Vec<u8> {
  [&(d.len() as u64).to_be_bytes()[..], d].concat()
}

/// Err: the library refuses the configuration.
fn library<T: Pixel>(
  cfg: &EncoderConfig, frames: &[Img], first: bool, second: Option<&[u8]>,
) -> Result<Result<Want, String>, Fail> {
  let mut rc = RateControlConfig::new();
  let mut data = vec![];
  if let Some(d) = second {
    let mut at = 0;
    while at < d.len() {
      let n = u64::from_be_bytes(d[at..at + 8].try_into().unwrap()) as usize;
      data.push(&d[at + 8..at + 8 + n]);
      at += 8 + n;
    }
    rc = match RateControlConfig::from_summary_slice(data[0]) {
      Ok(rc) => rc,
      // of no frames at all
      Err(e) if frames.is_empty() => return Ok(Err(e.to_string())),
      Err(e) => fail!("statistics", "{e}"),
    };
  }
  if first {
    rc = rc.with_emit_data(true);
  }
  let c = Config::new()
    .with_encoder_config(cfg.clone())
    .with_threads(1)
    .with_rate_control(rc);
  let mut ctx: Context<T> = match c.new_context() {
    Ok(c) => c,
    Err(e) => return Ok(Err(e.to_string())),
  };
  let mut pkts = vec![];
  let mut stats = vec![];
  let mut summary = vec![];
  let mut at = 1;
  let mut sent = 0;
  let mut idle = 0;
  loop {
    while second.is_some() && ctx.rc_second_pass_data_required() > 0 {
      ensure!(at < data.len(), "statistics", "too few packets");
      ctx
        .rc_send_pass_data(data[at])
        .map_err(|e| Fail::new("statistics", format!("{e:?}")))?;
      at += 1;
    }
    let r = ctx.receive_packet();
    idle += 1;
    ensure!(idle < 1000, "no-progress", "library");
    let emit = match r {
      Ok(p) => {
        idle = 0;
        pkts.push(conv_pkt(p, cfg));
        true
      }
      Err(EncoderStatus::NeedMoreData) => {
        if sent < frames.len() {
          let mut f = ctx.new_frame();
          fill_frame(&mut f, &frames[sent]);
          sent += 1;
          let _ = ctx.send_frame(Some(Arc::new(f)));
        } else {
          ctx.flush();
        }
        false
      }
      Err(EncoderStatus::Encoded) => true,
      Err(EncoderStatus::LimitReached) => {
        if first {
          if let Some(RcData::Summary(b)) = ctx.rc_receive_pass_data() {
            summary = b.to_vec();
          }
        }
        break;
      }
      Err(e) => fail!("library-status", "{e:?}"),
    };
    if first && emit {
      match ctx.rc_receive_pass_data() {
        Some(RcData::Frame(b)) => stats.extend(be(&b)),
        Some(RcData::Summary(b)) => summary = b.to_vec(),
        None => {}
      }
    }
  }
  let mut all = be(&summary);
  all.extend(stats);
  Ok(Ok(Want { pkts, stats: all }))
}

struct Ivf {
  w: u16,
  h: u16,
  rate: u32,
  scale: u32,
  frames: Vec<(u64, Vec<u8>)>,
}

fn parse_ivf(d: &[u8]) -> Result<Ivf, Fail> {
  let bad = |m: &str| Fail::new("ivf", m.to_owned());
  if d.len() < 32 || &d[..4] != b"DKIF" || &d[8..12] != b"AV01" {
    return Err(bad("no IVF header"));
  }
  let n = |a: usize, l: usize| -> u64 {
    d[a..a + l].iter().rev().fold(0, |v, b| v << 8 | *b as u64)
  };
  if n(4, 2) != 0 || n(6, 2) != 32 {
    return Err(bad("version or header length"));
  }
  let mut f = vec![];
  let mut at = 32;
  while at < d.len() {
    if d.len() - at < 12 {
      return Err(bad("cut off in a frame header"));
    }
    let (len, pts) = (n(at, 4) as usize, n(at + 4, 8));
    at += 12;
    if d.len() - at < len {
      return Err(bad("cut off in a frame"));
    }
    f.push((pts, d[at..at + len].to_vec()));
    at += len;
  }
  Ok(Ivf {
    w: n(12, 2) as u16,
    h: n(14, 2) as u16,
    rate: n(16, 4) as u32,
    scale: n(20, 4) as u32,
    frames: f,
  })
}

/// The output is complete and decodes to the reconstruction.
fn complete(
  ivf: &[u8], rec: Option<&[u8]>, y: &Y4m, count: usize,
) -> Result<Ivf, Fail> {
  let f = parse_ivf(ivf)?;
  ensure!(
    f.w as usize == y.w && f.h as usize == y.h,
    "ivf-size",
    "{}x{} for {}x{}",
    f.w,
    f.h,
    y.w,
    y.h
  );
  ensure!(
    f.frames.len() == count,
    "frame-count",
    "{} frames in the output for {count}",
    f.frames.len()
  );
  ensure!(
    f.frames.windows(2).all(|w| w[0].0 < w[1].0),
    "timestamps",
    "{:?}",
    f.frames.iter().map(|f| f.0).collect::<Vec<_>>()
  );
  let rec = match rec {
    None => None,
    Some(r) => {
      let r = match parse_y4m(r, usize::MAX) {
        Some(r) if !r.bad && r.wild.is_empty() => r,
        _ => fail!("rec-format", "the reconstruction is no Y4M file"),
      };
      ensure!(
        (r.w, r.h, r.bd, r.cs) == (y.w, y.h, y.bd, y.cs) && r.name == y.name,
        "rec-format",
        "{}x{} {}-bit {:?} for {}x{} {}-bit {:?}",
        r.w,
        r.h,
        r.bd,
        r.cs,
        y.w,
        y.h,
        y.bd,
        y.cs
      );
      let ((a, b), (c, d)) = (r.rate(), y.rate());
      ensure!(
        a as u128 * d as u128 == b as u128 * c as u128,
        "rec-rate",
        "{a}:{b} for {c}:{d}"
      );
      let (c, d) = match y.aspect() {
        (0, 0) => (1, 1),
        v => v,
      };
      let (a, b) = r.aspect();
      ensure!(
        a as u128 * d as u128 == b as u128 * c as u128,
        "rec-aspect",
        "{a}:{b} for {c}:{d}"
      );
      ensure!(
        r.frames.len() == count,
        "rec-count",
        "{} frames in the reconstruction for {count}",
        r.frames.len()
      );
      Some(r)
    }
  };
  let mut d = Dav1d::new(false, false);
  for (i, fr) in f.frames.iter().enumerate() {
    let pics = d
      .packet(&fr.1)
      .map_err(|e| Fail::new("decode", format!("frame {i}: {e}")))?;
    ensure!(pics.len() == 1, "decode", "frame {i}: {} pictures", pics.len());
    if let Some(r) = &rec {
      if let Some(e) = r.frames[i].diff(&pics[0].img) {
        fail!("reconstruction", "frame {i}: {e}");
      }
    }
  }
  Ok(f)
}

fn read(p: &str) -> Vec<u8> {
  std::fs::read(p).unwrap_or_default()
}

fn selected(y: &Y4m, l: &Line) -> Vec<Img> {
  let mut v: Vec<Img> = y.frames[l.skip.min(y.frames.len())..].to_vec();
  if l.limit > 0 {
    v.truncate(l.limit);
  }
  v
}

fn lib_any(
  l: &Line, f: &[Img], first: bool, second: Option<&[u8]>,
) -> Result<Result<Want, String>, Fail> {
  if l.metrics {
    return Ok(Err("metrics".to_owned()));
  }
  if l.cfg.bit_depth > 8 || l.hbd {
    library::<u16>(&l.cfg, f, first, second)
  } else {
    library::<u8>(&l.cfg, f, first, second)
  }
}

/// Runs the tool with `extra` and compares with the library.
fn compare(
  s: &mut Src, dir: &Dir, file: &[u8], y: &Y4m, l: &Line, extra: &[String],
  want: &Result<Want, String>,
) -> Result<Option<Vec<u8>>, Fail> {
  let (piped_in, piped_out) = (s.chance(1, 6), s.chance(1, 6));
  let rec = !s.chance(1, 8);
  let mut args = vec![];
  args.push(if piped_in { "-".to_owned() } else { dir.p("in.y4m") });
  let out = s.pick(&["out.ivf", "noext", "OUT.IVF"]);
  args.extend([
    s.pick(&["-o", "--output"]).to_owned(),
    if piped_out { "-".to_owned() } else { dir.p(out) },
  ]);
  let _ = std::fs::remove_file(dir.p(out));
  let mut answer = vec![];
  if !piped_out && s.chance(1, 3) {
    // an old and longer output
    std::fs::write(dir.p(out), vec![7u8; 200_000]).unwrap();
    if !piped_in && s.chance(1, 2) {
      answer = b"y\n".to_vec();
    } else {
      args.push("-y".to_owned());
    }
  }
  if rec {
    args.extend([
      s.pick(&["-r", "--reconstruction"]).to_owned(),
      dir.p("rec.y4m"),
    ]);
  }
  args.extend(l.args.iter().cloned());
  args.extend(extra.iter().cloned());
  let what = format!("rav1e {}", args[1..].join(" "));
  let o = tool(&dir.0, &args, if piped_in { file } else { &answer })?;
  orderly(&o, &what)?;
  match want {
    Err(e) => {
      ensure!(
        o.code != 0,
        "accepted",
        "{what}: the library refuses this ({e}) but the tool did not"
      );
      Ok(None)
    }
    Ok(w) => {
      ensure!(
        o.code == 0,
        "failed",
        "{what}: exit code {}: {}",
        o.code,
        tail(&o.stderr)
      );
      let ivf = if piped_out { o.stdout } else { read(&dir.p(out)) };
      let r = if rec { Some(read(&dir.p("rec.y4m"))) } else { None };
      let f = complete(&ivf, r.as_deref(), y, w.pkts.len())
        .map_err(|e| Fail::new(e.sig, format!("{what}: {}", e.msg)))?;
      ensure!(
        f.rate as u64 == l.cfg.time_base.den
          && f.scale as u64 == l.cfg.time_base.num,
        "ivf-rate",
        "{what}: {}/{} for {:?}",
        f.rate,
        f.scale,
        l.cfg.time_base
      );
      for (i, (a, b)) in f.frames.iter().zip(&w.pkts).enumerate() {
        ensure!(
          a.0 == b.input_frameno,
          "timestamps",
          "{what}: frame {i} has timestamp {} for {}",
          a.0,
          b.input_frameno
        );
        ensure!(
          a.1 == b.data,
          "stream",
          "{what}: frame {i} differs from what the library gives for these options ({} and {} bytes)",
          a.1.len(),
          b.data.len()
        );
      }
      Ok(Some(ivf))
    }
  }
}

fn valid(s: &mut Src, rep: &mut Report) -> CaseResult {
  let dir = Dir::new();
  let (file, desc) = gen_y4m(s);
  std::fs::write(dir.p("in.y4m"), &file).unwrap();
  let y = match parse_y4m(&file, usize::MAX) {
    Some(y) if !y.bad => y,
    _ => fail!("harness", "generated input does not parse"),
  };
  let mode = s.weighted(&[5, 2, 1]);
  let l = gen_line(s, &dir, &y, mode == 1);
  rep.desc = format!("{desc} | {}", l.args.join(" "));
  let frames = selected(&y, &l);
  let n_want =
    if l.cfg.still_picture { frames.len().min(1) } else { frames.len() };
  let check_count = |w: &Result<Want, String>| -> CaseResult {
    if let Ok(w) = w {
      ensure!(
        w.pkts.len() == n_want,
        "library-count",
        "{} packets for {n_want} frames",
        w.pkts.len()
      );
    }
    Ok(())
  };
  match mode {
    1 => {
      // two passes
      let st = dir.p("stats");
      let want = lib_any(&l, &frames, true, None)?;
      check_count(&want)?;
      let ex = vec!["--first-pass".to_owned(), st.clone()];
      if compare(s, &dir, &file, &y, &l, &ex, &want)?.is_none() {
        rep.tag("refused");
        rep.nontrivial = true;
        return Ok(());
      }
      let stats = read(&st);
      let w = want.as_ref().ok().unwrap();
      ensure!(
        stats == w.stats,
        "statistics",
        "the first pass file differs from the library's data ({} and {} bytes)",
        stats.len(),
        w.stats.len()
      );
      // the same output again from the same options and the statistics
      let third = s.chance(1, 3);
      let mut ex = vec!["--second-pass".to_owned(), st.clone()];
      if third {
        ex.extend(["--first-pass".to_owned(), dir.p("stats2")]);
      }
      let want2 = lib_any(&l, &frames, third, Some(&stats))?;
      check_count(&want2)?;
      compare(s, &dir, &file, &y, &l, &ex, &want2)?;
      if third {
        if let Ok(w) = &want2 {
          ensure!(
            read(&dir.p("stats2")) == w.stats,
            "statistics",
            "the data of the second pass differs from the library's"
          );
        }
      }
      rep.tag("two passes");
    }
    2 => {
      // save the configuration and use it
      let mut want = lib_any(&l, &frames, false, None)?;
      check_count(&want)?;
      if let Err(e) = toml::to_string(&l.cfg) {
        want = Err(e.to_string());
      }
      let toml = dir.p("cfg.toml");
      let ex: Vec<String> = ["advanced", "--save-config", &toml]
        .iter()
        .map(|v| v.to_string())
        .collect();
      compare(s, &dir, &file, &y, &l, &ex, &want)?;
      if want.is_ok() {
        let mut a: Vec<String> = vec![];
        // what is not part of the encoder configuration
        if l.skip > 0 {
          a.extend(["--skip".to_owned(), l.skip.to_string()]);
        }
        if l.limit > 0 {
          a.extend(["--limit".to_owned(), l.limit.to_string()]);
        }
        if l.hbd {
          a.push("--high-bitdepth".to_owned());
        }
        if l.range {
          a.extend(["--range".to_owned(), l.cfg.pixel_range.to_string()]);
        }
        if l.rate {
          a.extend([
            "--frame-rate".to_owned(),
            l.cfg.time_base.den.to_string(),
            "--time-scale".to_owned(),
            l.cfg.time_base.num.to_string(),
          ]);
        }
        a.push("-q".to_owned());
        let l2 = Line { args: a, cfg: l.cfg.clone(), metrics: false, ..l };
        let ex: Vec<String> = ["advanced", "--load-config", &toml]
          .iter()
          .map(|v| v.to_string())
          .collect();
        compare(s, &dir, &file, &y, &l2, &ex, &want)?;
      }
      rep.tag("saved configuration");
    }
    _ => {
      let want = lib_any(&l, &frames, false, None)?;
      check_count(&want)?;
      let got = compare(s, &dir, &file, &y, &l, &[], &want)?;
      rep.tag(if got.is_some() { "encode" } else { "refused" });
      rep.nontrivial = got.is_none();
    }
  }
  rep.tag(format!("{}", String::from_utf8_lossy(&y.name)));
  rep.tag(format!("speed {}", l.speed));
  if l.photon > 0 {
    rep.tag("photon noise");
  }
  rep.nontrivial |= !frames.is_empty();
  Ok(())
}

fn text(s: &mut Src) -> String {
  let n = s.us(0, 12);
  (0..n)
    .map(|_| {
      s.pick(&[
        '0', '1', '9', '2', '5', '.', ',', '-', 'G', '(', ')', 'a', 'e', '+',
        ' ', '/', 'é', '"', '%', '{', '}',
      ])
    })
    .collect()
}

/// A list of options, and whether they have to be refused.
fn bad_options(s: &mut Src, dir: &Dir) -> (Vec<String>, bool) {
  let big = |s: &mut Src| {
    s.pick(&[
      "18446744073709551616",
      "18446744073709551615",
      "9223372036854775808",
      "4294967296",
      "2147483648",
      "2147484",
      "99999999",
    ])
    .to_owned()
  };
  let v = |l: &[&str]| -> Vec<String> {
    l.iter().map(|v| v.to_string()).collect()
  };
  let t = text(s);
  match s.upto(30) {
    0 => {
      let l = s.pick(&["1.0", "0.0", "1.3", "8.0", "2.4", "255.0", "x", ""]);
      (v(&["--level", l]), true)
    }
    1 => (vec![format!("--level={t}")], false),
    2 => (vec![format!("--content-light={t}")], false),
    3 => (v(&["--content-light", s.pick(&["a", "1", "70000,1", ","])]), true),
    4 => {
      // damage a good one
      let mut m: Vec<char> =
        "G(0.265,0.69)B(0.15,0.06)R(0.68,0.32)WP(0.3127,0.329)L(1000,0.01)"
          .chars()
          .collect();
      for _ in 0..s.us(1, 3) {
        let i = s.us(0, m.len() - 1);
        match s.upto(2) {
          0 => {
            m.remove(i);
          }
          1 => m[i] = s.pick(&['-', '9', '(', 'x', ' ', 'e', '.']),
          _ => m.truncate(i.max(1)),
        }
      }
      let m: String = m.into_iter().collect();
      (vec![format!("--mastering-display={m}")], false)
    }
    5 => (vec![format!("--mastering-display={t}")], true),
    6 => (
      v(&["--quantizer", s.pick(&["0", "256", "-1", "abc", "1.5", ""])]),
      true,
    ),
    7 => (v(&["--speed", s.pick(&["11", "255", "-1", "x"])]), true),
    8 => (vec![format!("--bitrate={}", big(s))], true),
    9 => (vec![format!("--bitrate={}", s.pick(&["-1", "-2147483648"]))], false),
    10 => (v(&["--tile-rows", s.pick(&["65", "3", "128", "-1"])]), true),
    11 => (v(&["--tile-cols", &big(s)]), true),
    12 => (v(&["--tiles", &big(s)]), false),
    13 => (v(&["--photon-noise", s.pick(&["65", "255", "-1"])]), true),
    14 => {
      let f = dir.p("missing");
      (v(&["--film-grain-table", &f]), true)
    }
    15 => {
      let f = dir.p("table");
      std::fs::write(&f, format!("x{t}")).unwrap();
      (v(&["--film-grain-table", &f]), true)
    }
    16 => {
      // damage a good table
      let f = dir.p("table");
      let seg = c18::segment(s, ChromaSampling::Cs420, 0, 100_000_000);
      let _ = write_grain_table(&f, &[seg]);
      let mut d = read(&f);
      for _ in 0..s.us(1, 4) {
        if d.is_empty() {
          break;
        }
        let i = s.us(0, d.len() - 1);
        match s.upto(2) {
          0 => {
            d.remove(i);
          }
          1 => d[i] = s.pick(&[b'0', b'9', b'-', b' ', b'\n', b'x', 0xff]),
          _ => d.truncate(i),
        }
      }
      std::fs::write(&f, d).unwrap();
      (v(&["--film-grain-table", &f]), false)
    }
    17 => (v(&["--first-pass", &dir.p("st")]), true),
    18 => (v(&["--second-pass", &dir.p("missing"), "-b", "100"]), true),
    19 => (v(&["--still-picture", "--limit", "2"]), true),
    20 => (v(&["--skip", s.pick(&["100", "18446744073709551615"])]), true),
    21 => (vec![format!("--range={t}")], true),
    22 => {
      let f = dir.p("cfg.toml");
      std::fs::write(&f, format!("x = {t}")).unwrap();
      (v(&["advanced", "--load-config", &f]), true)
    }
    23 => (v(&["--frame-rate", "0", "--time-scale", "1"]), true),
    24 => {
      (v(&["--frame-rate", &big(s), "--time-scale", &big(s)]), false)
    }
    25 => (vec![format!("--reservoir-frame-delay={}", s.i(-100, 11))], true),
    26 => (v(&["--rdo-lookahead-frames", s.pick(&["0", "-1"])]), true),
    27 => (v(&["--keyint", &big(s)]), false),
    28 => (v(&["--switch-frame-interval", &s.range(1, 300).to_string()]), true),
    29 => (vec![format!("--{}", t.replace('=', ""))], false),
    _ => (v(&["-r", &dir.p("no/such/dir.y4m")]), true),
  }
}

fn options(s: &mut Src, rep: &mut Report) -> CaseResult {
  let dir = Dir::new();
  let v = Video::gen(s, 24, 18, 3, 8, ChromaSampling::Cs420);
  let mut d = b"YUV4MPEG2 W24 H18 F25:1 C420jpeg\n".to_vec();
  for t in 0..3 {
    put_frame(&mut d, &v.image(t), "");
  }
  std::fs::write(dir.p("in.y4m"), &d).unwrap();
  let y = parse_y4m(&d, usize::MAX).unwrap();
  let mut args = vec![];
  let mut input = dir.p("in.y4m");
  let mut output = dir.p("out.ivf");
  let mut must = false;
  let mut keep = false;
  let kind = s.upto(11);
  match kind {
    0 => {
      input = s
        .pick(&["missing.y4m", ".", ""])
        .to_owned();
      must = true;
    }
    1 => {
      output = s
        .pick(&["out.mkv", "out.mp4", "no/such/out.ivf", ".", "out.", "o.ivf.x"])
        .to_owned();
      // "." has no extension; "out." an empty one
      must = output != "out.";
    }
    2 => {
      // there is a file already, and the answer is no
      std::fs::write(&output, b"precious").unwrap();
      must = true;
      keep = true;
    }
    _ => {
      for _ in 0..s.us(1, 2) {
        let (a, m) = bad_options(s, &dir);
        if args.iter().any(|v| v == "advanced") {
          break;
        }
        args.extend(a);
        must |= m;
      }
    }
  }
  let mut all = vec![input, "-o".to_owned(), output.clone()];
  all.extend(["-s", "10", "-q"].iter().map(|v| v.to_string()));
  all.extend(args);
  let what = format!("rav1e {}", all.join(" "));
  rep.desc = what.clone();
  let answer: &[u8] = if keep {
    s.pick(&[&b"n\n"[..], b"", b"\n", b"no\n", b"\xff\n"])
  } else {
    b""
  };
  let o = tool(&dir.0, &all, answer)?;
  orderly(&o, &what)?;
  ensure!(!must || o.code != 0, "accepted", "{what}: exit code 0");
  if keep {
    ensure!(
      read(&output) == b"precious",
      "overwritten",
      "{what}: the file was changed without consent"
    );
  }
  if o.code == 0 && Path::new(&output).exists() {
    let skip_limit = all.iter().any(|a| a == "--skip" || a == "--limit");
    if !skip_limit && !o.stderr.contains("Usage") {
      complete(&read(&output), None, &y, 3)
        .map_err(|e| Fail::new(e.sig, format!("{what}: {}", e.msg)))?;
    }
  }
  rep.tag(if o.code == 0 { "option accepted" } else { "option refused" });
  rep.nontrivial = true;
  Ok(())
}

fn damage(s: &mut Src, d: &mut Vec<u8>, head: usize) -> String {
  let mut what = vec![];
  for _ in 0..s.us(1, 2) {
    if d.is_empty() {
      break;
    }
    // mostly in headers
    let marks: Vec<usize> = d
      .windows(5)
      .enumerate()
      .filter(|(_, w)| w == b"FRAME")
      .map(|(i, _)| i)
      .collect();
    let at = match s.upto(2) {
      0 => s.us(0, head.min(d.len() - 1)),
      1 if !marks.is_empty() => {
        (s.pick(&marks) + s.us(0, 6)).min(d.len() - 1)
      }
      _ => s.us(0, d.len() - 1),
    };
    match s.upto(4) {
      0 => {
        d.truncate(at);
        what.push(format!("cut at {at}"));
      }
      1 => {
        let b = s.upto(255) as u8;
        d[at] = b;
        what.push(format!("{at} = {b}"));
      }
      2 => {
        let b = s.pick(b"0123456789: \nWHFACX-");
        d[at] = b;
        what.push(format!("{at} = '{}'", b as char));
      }
      3 => {
        d.remove(at);
        what.push(format!("{at} removed"));
      }
      _ => {
        let n = s.us(1, 1100);
        let b = s.upto(255) as u8;
        let tail = d.split_off(at);
        d.extend(vec![b; n]);
        d.extend(tail);
        what.push(format!("{n} × {b} at {at}"));
      }
    }
  }
  what.join(", ")
}

fn damaged_input(s: &mut Src, rep: &mut Report) -> CaseResult {
  let dir = Dir::new();
  let (mut d, desc) = gen_y4m(s);
  let head = d.iter().position(|c| *c == b'\n').unwrap_or(0);
  let what = damage(s, &mut d, head);
  rep.desc = format!("{desc} | {what}");
  std::fs::write(dir.p("in.y4m"), &d).unwrap();
  const MAX: usize = 1 << 16;
  let y = parse_y4m(&d, MAX);
  if let Some(y) = &y {
    if y.w.checked_mul(y.h).is_none_or(|n| n > MAX) {
      // too large to run
      return Ok(());
    }
  }
  let limit = if s.chance(1, 4) { s.us(1, 8) } else { 0 };
  let skip = if s.chance(1, 4) { s.us(0, 3) } else { 0 };
  let mut args: Vec<String> = ["-s", "10", "-q", "-o"]
    .iter()
    .map(|v| v.to_string())
    .collect();
  args.push(dir.p("out.ivf"));
  args.extend(["-r".to_owned(), dir.p("rec.y4m")]);
  args.extend(["--limit".to_owned(), limit.to_string()]);
  args.extend(["--skip".to_owned(), skip.to_string()]);
  args.push(dir.p("in.y4m"));
  let o = tool(&dir.0, &args, b"")?;
  orderly(&o, "rav1e on damaged input")?;
  rep.nontrivial = true;
  let y = match y {
    None => {
      ensure!(
        o.code != 0,
        "accepted",
        "exit code 0 for something that is no Y4M file"
      );
      rep.tag("no video");
      return Ok(());
    }
    Some(y) => y,
  };
  let mut y = y;
  // a frame with samples beyond the bit depth, unless it is skipped
  if let Some(i) = y.wild.iter().find(|i| **i >= skip) {
    y.frames.truncate(*i);
    y.bad = true;
  }
  let left = y.frames.len().saturating_sub(skip);
  let reached = limit > 0 && left >= limit;
  if (y.bad && !reached) || skip > y.frames.len() {
    ensure!(
      o.code != 0,
      "accepted",
      "exit code 0, but the input is damaged after frame {} (skip {skip}, limit {limit})",
      y.frames.len()
    );
    rep.tag("damaged frame");
    return Ok(());
  }
  let n = if limit > 0 { left.min(limit) } else { left };
  if o.code == 0 {
    complete(
      &read(&dir.p("out.ivf")),
      Some(&read(&dir.p("rec.y4m"))),
      &y,
      n,
    )?;
    rep.tag("still a video");
  } else {
    rep.tag("video refused");
  }
  Ok(())
}

fn damaged_stats(s: &mut Src, rep: &mut Report) -> CaseResult {
  let dir = Dir::new();
  let (file, desc) = gen_y4m(s);
  std::fs::write(dir.p("in.y4m"), &file).unwrap();
  let y = parse_y4m(&file, usize::MAX).unwrap();
  let mut base: Vec<String> = ["-s", "10", "-q", "-y", "-b", "100", "-o"]
    .iter()
    .map(|v| v.to_string())
    .collect();
  base.push(dir.p("out.ivf"));
  base.push(dir.p("in.y4m"));
  let mut a = base.clone();
  a.extend(["--first-pass".to_owned(), dir.p("st")]);
  let less = y.frames.len() > 1 && s.chance(1, 3);
  if less {
    a.extend([
      "--limit".to_owned(),
      s.us(1, y.frames.len() - 1).to_string(),
    ]);
  }
  let o = tool(&dir.0, &a, b"")?;
  orderly(&o, "first pass")?;
  if o.code != 0 {
    rep.tag("refused");
    return Ok(());
  }
  let mut d = read(&dir.p("st"));
  let mut what = format!("fewer frames {less}");
  if !less || s.chance(1, 3) {
    for _ in 0..s.us(1, 3) {
      if d.is_empty() {
        break;
      }
      let i = if s.chance(1, 2) {
        s.us(0, d.len().min(16) - 1)
      } else {
        s.us(0, d.len() - 1)
      };
      match s.upto(2) {
        0 => {
          d.truncate(i);
          what += &format!(", cut at {i}");
        }
        1 => {
          d[i] = s.upto(255) as u8;
          what += &format!(", {i} = {}", d[i]);
        }
        _ => {
          d.remove(i);
          what += &format!(", {i} removed");
        }
      }
    }
  }
  rep.desc = format!("{desc} | statistics: {what}");
  std::fs::write(dir.p("st"), &d).unwrap();
  base.extend(["--second-pass".to_owned(), dir.p("st")]);
  let o = tool(&dir.0, &base, b"")?;
  orderly(&o, "second pass with damaged statistics")?;
  if o.code == 0 {
    complete(&read(&dir.p("out.ivf")), None, &y, y.frames.len())?;
  }
  rep.nontrivial = true;
  rep.tag(if o.code == 0 { "statistics used" } else { "statistics refused" });
  Ok(())
}

/// A device that takes nothing.
fn full(s: &mut Src, rep: &mut Report) -> CaseResult {
  let dir = Dir::new();
  let (file, desc) = gen_y4m(s);
  std::fs::write(dir.p("in.y4m"), &file).unwrap();
  let y = parse_y4m(&file, usize::MAX).unwrap();
  if y.frames.is_empty() {
    return Ok(());
  }
  std::os::unix::fs::symlink("/dev/full", dir.p("full.ivf")).unwrap();
  let which = s.us(0, 2);
  let mut a: Vec<String> =
    ["-s", "10", "-q", "-b", "100"].iter().map(|v| v.to_string()).collect();
  a.push(dir.p("in.y4m"));
  a.extend([
    "-o".to_owned(),
    dir.p(if which == 0 { "full.ivf" } else { "out.ivf" }),
  ]);
  match which {
    1 => a.extend(["-r".to_owned(), dir.p("full.ivf")]),
    2 => a.extend(["--first-pass".to_owned(), dir.p("full.ivf")]),
    _ => {}
  }
  rep.desc =
    format!("{desc} | full {}", ["output", "reconstruction", "statistics"][which]);
  let o = tool(&dir.0, &a, b"")?;
  ensure!(
    o.code != 0,
    "full-device",
    "exit code 0 although nothing could be written to the {}",
    ["output", "reconstruction", "statistics"][which]
  );
  rep.tag("full device");
  rep.nontrivial = true;
  Ok(())
}

fn run(_: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  match s.weighted(&[8, 4, 4, 2, 1]) {
    0 => valid(s, rep),
    1 => options(s, rep),
    2 => damaged_input(s, rep),
    3 => damaged_stats(s, rep),
    _ => full(s, rep),
  }
}
