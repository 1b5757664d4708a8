//! C03: the output depends on the frames and the configuration only.
use crate::dec::Img;
use crate::enc::*;
use crate::engine::*;
use crate::src::{Rng, Src};
use crate::{ensure, fail};
use rav1e::prelude::*;
use std::sync::Arc;

pub static CHECK: Check = Check {
  id: "C03",
  rule: "One case = one generated configuration and clip with per-frame keyframe requests, encoded once with one thread, all frames sent before the first receive, and then again under two or three variations: another thread count, a shared thread pool, a random interleaving of send and receive calls, random values outside the visible area of the frame buffers, shared ownership of the frame buffer, or a plain second run. Packets (bytes, frame type, quantizer, input number, reconstruction) must be identical. Non-trivial: the reference encode yielded all its packets and at least one variation was compared.",
  assumptions: &["thread schedules are those that the operating system and rayon produce with 1 to 8 threads on a machine that also runs the other cases"],
  cases: |t| if t == Tier::Quick { 650 } else { 40000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

#[derive(Clone, Default, Debug)]
struct Variant {
  threads: Option<usize>,
  pool: Option<usize>,
  /// Receive calls made after each send; None: none before the flush.
  interleave: Option<Vec<u8>>,
  garbage: Option<u64>,
  shared: bool,
}

fn garbage<T: Pixel>(f: &mut Frame<T>, img: &Img, seed: u64, bd: usize) {
  let mut r = Rng::new(seed);
  let m = (1u64 << bd) - 1;
  for (p, (pw, ph, _)) in img.planes.iter().enumerate() {
    let pl = &mut f.planes[p];
    let cfg = pl.cfg.clone();
    for (i, v) in pl.data.iter_mut().enumerate() {
      let (x, y) = (i % cfg.stride, i / cfg.stride);
      let inside = x >= cfg.xorigin
        && x < cfg.xorigin + pw
        && y >= cfg.yorigin
        && y < cfg.yorigin + ph;
      if !inside {
        *v = T::cast_from((r.next() & m) as u16);
      }
    }
  }
}

fn go<T: Pixel>(
  cfg: &EncoderConfig, video: &Video, keys: &[bool], v: &Variant,
) -> Result<Vec<Pkt>, Fail> {
  let mut config = Config::new().with_encoder_config(cfg.clone());
  if let Some(t) = v.threads {
    config = config.with_threads(t);
  }
  if let Some(n) = v.pool {
    let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
    config = config.with_thread_pool(Arc::new(p));
  }
  let mut ctx: Context<T> = config
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  let mut out = vec![];
  let mut held = vec![];
  for t in 0..video.frames {
    let mut f = ctx.new_frame();
    let img = video.image(t);
    if let Some(g) = v.garbage {
      garbage(&mut f, &img, g ^ t as u64, cfg.bit_depth);
    }
    fill_frame(&mut f, &img);
    if v.shared {
      // the caller pads a frame that it shares
      for p in 0..n_planes(cfg.chroma_sampling) {
        f.planes[p].pad(cfg.width, cfg.height);
      }
    }
    let f = Arc::new(f);
    if v.shared {
      held.push(f.clone());
    }
    let fp = FrameParameters {
      frame_type_override: if keys[t] {
        FrameTypeOverride::Key
      } else {
        FrameTypeOverride::No
      },
      ..Default::default()
    };
    ctx
      .send_frame((f, fp))
      .map_err(|e| Fail::new("send", format!("send_frame({t}): {e}")))?;
    if let Some(il) = &v.interleave {
      for _ in 0..il[t] {
        match ctx.receive_packet() {
          Ok(p) => out.push(conv_pkt(p, cfg)),
          Err(EncoderStatus::Encoded) => {}
          Err(EncoderStatus::NeedMoreData) => break,
          Err(e) => fail!("receive-status", "receive_packet returned {e:?}"),
        }
      }
    }
  }
  ctx.flush();
  out.extend(drain(&mut ctx, cfg)?);
  // frames that the caller still holds are the caller's
  for (t, f) in held.iter().enumerate() {
    let img = frame_to_img(f, cfg.width, cfg.height, cfg.bit_depth, cfg.chroma_sampling);
    if let Some(e) = img.diff(&video.image(t)) {
      fail!("caller-frame-changed", "frame {t} kept by the caller changed: {e}");
    }
  }
  Ok(out)
}

fn dispatch(
  cfg: &EncoderConfig, video: &Video, keys: &[bool], v: &Variant,
) -> Result<Vec<Pkt>, Fail> {
  if cfg.bit_depth > 8 {
    go::<u16>(cfg, video, keys, v)
  } else {
    go::<u8>(cfg, video, keys, v)
  }
}

pub fn same(a: &[Pkt], b: &[Pkt], what: &str) -> CaseResult {
  ensure!(a.len() == b.len(), "count", "{what}: {} packets vs {}", a.len(), b.len());
  for (i, (x, y)) in a.iter().zip(b).enumerate() {
    let m = |f: &str| format!("{what}: packet {i} ({:?}): {f}", x.frame_type);
    if x.input_frameno != y.input_frameno {
      return Err(Fail::new("order", m("input frame number")));
    }
    if x.frame_type != y.frame_type {
      return Err(Fail::new("frame-type", m(&format!("frame type {:?} vs {:?}", x.frame_type, y.frame_type))));
    }
    if x.qp != y.qp {
      return Err(Fail::new("quantizer", m(&format!("quantizer {} vs {}", x.qp, y.qp))));
    }
    if x.data != y.data {
      return Err(Fail::new("bytes", m(&format!("{} vs {} bytes, different data", x.data.len(), y.data.len()))));
    }
    if let (Some(r), Some(q)) = (&x.rec, &y.rec) {
      if let Some(e) = r.diff(q) {
        return Err(Fail::new("reconstruction", m(&e)));
      }
    }
  }
  Ok(())
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let slow = s.chance(1, 4);
  let lim = Limits {
    max_pixels: if slow { 80 * 80 } else { 144 * 144 },
    max_dim: 512,
    min_speed: if slow { 0 } else { 5 },
    max_frames: if slow { 8 } else { 13 },
    ..Default::default()
  };
  let g = gen(s, &lim);
  let cfg = &g.cfg;
  let keys: Vec<bool> = (0..g.video.frames).map(|_| s.chance(1, 12)).collect();
  let base = dispatch(
    cfg,
    &g.video,
    &keys,
    &Variant { threads: Some(1), ..Default::default() },
  )?;
  ensure!(base.len() == g.video.frames, "packet-count", "{} packets for {} frames", base.len(), g.video.frames);
  rep.desc = format!("keys {:?} | {}", keys.iter().enumerate().filter(|k| *k.1).map(|k| k.0).collect::<Vec<_>>(), g.desc);
  let n = s.us(2, 3);
  for _ in 0..n {
    let mut v = Variant { threads: Some(1), ..Default::default() };
    let mut what = vec![];
    loop {
      match s.weighted(&[3, 2, 3, 2, 1, 1]) {
        0 => {
          v.threads = Some(s.pick(&[2, 3, 8, 4, 0]));
          v.pool = None;
          what.push(format!("{} threads", v.threads.unwrap()));
        }
        1 => {
          v.threads = None;
          v.pool = Some(s.pick(&[1, 2, 5]));
          what.push(format!("pool of {}", v.pool.unwrap()));
        }
        2 if cfg.bitrate == 0 => {
          v.interleave = Some(
            (0..g.video.frames).map(|_| [0u8, 1, 2, 40][s.weighted(&[3, 2, 1, 3])]).collect(),
          );
          what.push(format!("receives after sends {:?}", v.interleave.as_ref().unwrap()));
        }
        3 => {
          v.garbage = Some(s.upto(u32::MAX as u64));
          what.push("padding filled with noise".into());
        }
        4 => {
          v.shared = true;
          what.push("shared frame buffers".into());
        }
        _ => what.push("second run".into()),
      }
      if !s.chance(1, 3) {
        break;
      }
    }
    for w in &what {
      rep.tag(w.split('[').next().unwrap_or("").trim().to_string());
    }
    let what = what.join(" + ");
    let o = dispatch(cfg, &g.video, &keys, &v)?;
    if let Err(mut f) = same(&base, &o, &what) {
      if cfg.bitrate > 0 {
        f.sig += "-bitrate";
      }
      return Err(f);
    }
    rep.nontrivial = true;
  }
  Ok(())
}
