//! C06: key and switch frame placement; keyframes restart decoding.
use crate::dec::{Aom, Dav1d};
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;
use std::collections::BTreeSet;

pub static CHECK: Check = Check {
  id: "C06",
  rule: "One case = one configuration (intervals, reordering, scene detection, switch interval) and a clip of up to 70 small frames with a random set of requested keyframes; frame types are compared with a model and the stream is decoded again from one of its keyframes. Non-trivial: at least two keyframes or a switch frame appeared, or the clip is longer than the keyframe interval.",
  assumptions: &["dav1d and libaom are correct AV1 decoders", "the minimum interval binds scene-detected keyframes only"],
  cases: |t| if t == Tier::Quick { 2600 } else { 60000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits {
    max_pixels: 48 * 48,
    max_dim: 64,
    max_frames: 1,
    min_speed: 6,
    bitrate: true,
    still: false,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  let n = match s.weighted(&[3, 4, 3]) {
    0 => s.us(1, 8),
    1 => s.us(5, 30),
    _ => s.us(20, 70),
  };
  let cfg = &mut g.cfg;
  let none = s.chance(1, 2);
  cfg.speed_settings.scene_detection_mode = if none {
    SceneDetectionSpeed::None
  } else {
    s.pick(&[SceneDetectionSpeed::Fast, SceneDetectionSpeed::Standard])
  };
  match s.weighted(&[4, 3, 2]) {
    0 => {
      let mx = s.range(1, 16);
      let mn = s.range(0, mx);
      cfg.set_key_frame_interval(mn, mx);
    }
    1 => {
      let mx = s.range(5, 40);
      let mn = s.range(0, 12.min(mx));
      cfg.set_key_frame_interval(mn, mx);
    }
    _ => cfg.set_key_frame_interval(s.range(0, 12), 0),
  }
  cfg.low_latency = s.chance(1, 2);
  cfg.switch_frame_interval =
    if cfg.low_latency && s.chance(1, 2) { s.range(1, 9) } else { 0 };
  let mut forced = BTreeSet::new();
  if s.chance(1, 2) {
    for _ in 0..s.range(1, 4) {
      forced.insert(s.us(0, n - 1));
    }
  }
  g.video = Video::gen(s, cfg.width, cfg.height, n, cfg.bit_depth, cfg.chroma_sampling);
  rep.desc = format!(
    "n {n} kf {}..{} sw {} scd {} forced {:?} lowlat {} | {}",
    cfg.min_key_frame_interval,
    cfg.max_key_frame_interval,
    cfg.switch_frame_interval,
    cfg.speed_settings.scene_detection_mode,
    forced,
    cfg.low_latency,
    g.video.desc()
  );
  let pkts = if cfg.bit_depth > 8 {
    enc::<u16>(s, &g, &forced)?
  } else {
    enc::<u8>(s, &g, &forced)?
  };
  ensure!(pkts.len() == n, "packet-count", "{} packets for {n} frames", pkts.len());
  let cfg = &g.cfg;
  let keys: Vec<usize> =
    (0..n).filter(|&i| pkts[i].frame_type == FrameType::KEY).collect();
  let maxk = cfg.max_key_frame_interval as usize;
  let mink = cfg.min_key_frame_interval as usize;
  ensure!(keys.first() == Some(&0), "first-key", "keyframes {keys:?}");
  for f in &forced {
    ensure!(keys.contains(f), "forced-key", "frame {f} was requested as keyframe, keyframes are {keys:?}");
  }
  for w in keys.windows(2) {
    ensure!(w[1] - w[0] <= maxk, "max-interval", "keyframes {keys:?}, maximum interval {maxk}");
    let d = w[1] - w[0];
    if !forced.contains(&w[1]) && d != maxk {
      ensure!(!none, "unrequested-key", "keyframe {} with scene detection off, keyframes {keys:?}", w[1]);
      ensure!(d >= mink, "min-interval", "keyframes {keys:?}, minimum interval {mink}");
    }
  }
  ensure!(n - 1 - keys.last().unwrap() < maxk, "max-interval-end", "keyframes {keys:?} of {n} frames, maximum interval {maxk}");
  // switch frames
  let mut last_key = 0;
  for (i, p) in pkts.iter().enumerate() {
    if p.frame_type == FrameType::KEY {
      last_key = i;
      continue;
    }
    let sw = cfg.switch_frame_interval as usize;
    let want = sw > 0 && (i - last_key) % sw == 0;
    ensure!(
      (p.frame_type == FrameType::SWITCH) == want,
      "switch-placement",
      "frame {i} ({} after its keyframe) is {:?}, switch interval {sw}",
      i - last_key,
      p.frame_type
    );
    ensure!(want || p.frame_type == FrameType::INTER, "frame-type", "frame {i} is {:?}", p.frame_type);
  }
  // a keyframe restarts decoding
  let k = s.pick(&keys);
  let mut d = Dav1d::new(false, false);
  let mut a = Aom::new(false);
  for (i, p) in pkts.iter().enumerate().skip(k) {
    let dp = match d.packet(&p.data) {
      Ok(x) => x,
      Err(e) => fail!("restart-dav1d", "packet {i} after restart at {k}: {e}"),
    };
    let ap = match a.packet(&p.data) {
      Ok(x) => x,
      Err(e) => fail!("restart-aom", "packet {i} after restart at {k}: {e}"),
    };
    ensure!(dp.len() == 1 && ap.len() == 1, "restart-count", "packet {i} after restart at {k}: {} / {} pictures", dp.len(), ap.len());
    let rec = p.rec.as_ref().unwrap();
    if let Some(e) = dp[0].img.diff(rec).or_else(|| ap[0].diff(rec)) {
      fail!("restart-mismatch", "packet {i} after restart at {k}: {e}");
    }
  }
  rep.nontrivial = keys.len() > 1 || n > maxk || pkts.iter().any(|p| p.frame_type == FrameType::SWITCH);
  rep.tag(if none { "scene detection off" } else { "scene detection on" });
  rep.tag(if cfg.low_latency { "low latency" } else { "reordered" });
  if keys.len() > 1 {
    rep.tag("several keyframes");
  }
  if !forced.is_empty() {
    rep.tag("forced keyframes");
  }
  if pkts.iter().any(|p| p.frame_type == FrameType::SWITCH) {
    rep.tag("switch frames");
  }
  Ok(())
}

fn enc<T: Pixel>(
  s: &mut Src, g: &Gen, forced: &BTreeSet<usize>,
) -> Result<Vec<Pkt>, Fail> {
  let config = Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
  let mut ctx: Context<T> = config
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  let eager = s.chance(1, 2);
  let mut out = vec![];
  for t in 0..g.video.frames {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &g.video.image(t));
    let p = FrameParameters {
      frame_type_override: if forced.contains(&t) {
        FrameTypeOverride::Key
      } else {
        FrameTypeOverride::No
      },
      opaque: None,
      t35_metadata: Box::new([]),
    };
    ctx
      .send_frame((f, p))
      .map_err(|e| Fail::new("send", format!("send_frame({t}): {e}")))?;
    if eager {
      loop {
        match ctx.receive_packet() {
          Ok(p) => out.push(conv_pkt(p, &g.cfg)),
          Err(EncoderStatus::Encoded) => {}
          Err(EncoderStatus::NeedMoreData) => break,
          Err(e) => {
            return Err(Fail::new("receive-status", format!("{e:?}")))
          }
        }
      }
    }
  }
  ctx.flush();
  out.extend(drain(&mut ctx, &g.cfg)?);
  Ok(out)
}
