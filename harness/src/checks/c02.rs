//! C02: packet accounting and the status protocol, model-based.
use crate::dec::Img;
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;
use std::sync::Arc;

pub static CHECK: Check = Check {
  id: "C02",
  rule: "One case = one configuration and one random history of send / send with parameters / receive / flush calls, each result compared with a model that knows how many frames were accepted and delivered. Non-trivial: at least one frame was accepted and the history ended with every packet delivered.",
  assumptions: &["frames are at most 64x64 and histories at most ~120 calls"],
  cases: |t| if t == Tier::Quick { 7000 } else { 150000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

struct Model {
  sent: Vec<(Img, Option<u64>)>,
  received: usize,
  flushed: bool,
  enc_run: usize,
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let still = s.chance(1, 12);
  let long = s.chance(1, 4);
  let lim = Limits {
    max_pixels: if long { 32 * 32 } else { 64 * 64 },
    max_dim: 64,
    max_frames: 1,
    min_speed: 6,
    bitrate: true,
    still: false,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  g.cfg.still_picture = still;
  if still {
    g.cfg.switch_frame_interval = 0;
  }
  if s.chance(1, 4) {
    g.cfg.speed_settings.rdo_lookahead_frames = s.us(1, 30);
  }
  if g.cfg.bit_depth > 8 {
    hist::<u16>(&g, long, s, rep)
  } else {
    hist::<u8>(&g, long, s, rep)
  }
}

fn hist<T: Pixel>(
  g: &Gen, long: bool, s: &mut Src, rep: &mut Report,
) -> CaseResult {
  let cfg = &g.cfg;
  let config = Config::new().with_encoder_config(cfg.clone()).with_threads(1);
  let mut ctx: Context<T> = match config.new_context() {
    Ok(c) => c,
    Err(e) => fail!("config-rejected", "{e}"),
  };
  let mut m =
    Model { sent: vec![], received: 0, flushed: false, enc_run: 0 };
  let mut log = String::new();
  let budget = if long { 120 } else { 50 };
  // the clip
  let mut v = Video::gen(s, cfg.width, cfg.height, 1, cfg.bit_depth, cfg.chroma_sampling);
  v.frames = 1000;
  let style = s.weighted(&[3, 2, 2, 2]);
  let max_sent = if long { 60 } else { 20 };
  // Frames the encoder may hold back: look-ahead plus reordering.
  let held_max = cfg.speed_settings.rdo_lookahead_frames
    + if cfg.low_latency { 4 } else { 16 };
  let mut last: Option<Arc<Frame<T>>> = None;
  for step in 0..budget {
    let w: [u64; 3] = match style {
      0 => [5, 5, if step > 8 { 1 } else { 0 }],
      1 => [8, 2, if step > 15 { 1 } else { 0 }],
      2 => [3, 8, if step > 15 { 1 } else { 0 }],
      _ => [6, 6, 1],
    };
    match s.weighted(&w) {
      0 => {
        if m.sent.len() >= max_sent {
          continue;
        }
        let t = m.sent.len();
        let expect_ok = !m.flushed && !(cfg.still_picture && t > 0);
        let with_params = s.chance(1, 2);
        let (key, op) = if with_params {
          (s.chance(1, 4), if s.chance(1, 2) { Some(t as u64 * 3 + 1) } else { None })
        } else {
          (false, None)
        };
        // the same frame object may be sent again
        let reuse = last.is_some() && s.chance(1, 8);
        let (frame, img) = if reuse {
          let f = last.clone().unwrap();
          let img = frame_to_img(&f, cfg.width, cfg.height, cfg.bit_depth, cfg.chroma_sampling);
          (f, img)
        } else {
          let img = v.image(t);
          let mut f = ctx.new_frame();
          fill_frame(&mut f, &img);
          (Arc::new(f), img)
        };
        let keep = s.chance(1, 6);
        // an Arc that is shared must already be padded: keep it only after
        // the encoder took it
        let r = if with_params {
          let p = FrameParameters {
            frame_type_override: if key {
              FrameTypeOverride::Key
            } else {
              FrameTypeOverride::No
            },
            opaque: op.map(|o| Opaque::new(o)),
            t35_metadata: Box::new([]),
          };
          let f = match Arc::try_unwrap(frame) {
            Ok(f) => f,
            Err(a) => (*a).clone(),
          };
          log += if key { "K" } else { "P" };
          ctx.send_frame((f, p))
        } else {
          log += "S";
          ctx.send_frame(frame)
        };
        match (expect_ok, r) {
          (true, Ok(())) => {
            m.sent.push((img, op));
          }
          (false, Err(EncoderStatus::EnoughData)) => {}
          (e, r) => fail!(
            "send-status",
            "send_frame after {} accepted (flushed {}, still {}) returned {:?}, expected {} [{log}] {}",
            t,
            m.flushed,
            cfg.still_picture,
            r,
            if e { "Ok" } else { "EnoughData" },
            g.desc
          ),
        }
        if keep {
          last = None;
        }
      }
      1 => {
        log += "r";
        receive(&mut ctx, cfg, &mut m, held_max, &log, &g.desc, &mut last, s.chance(1, 6))?;
      }
      _ => {
        log += "F";
        if s.chance(1, 2) {
          ctx.flush();
        } else {
          let r = ctx.send_frame(None);
          ensure!(r.is_ok(), "flush-status", "flush returned {r:?}");
        }
        m.flushed = true;
      }
    }
  }
  if !m.flushed {
    ctx.flush();
    log += "F";
    m.flushed = true;
  }
  rep.desc = format!("{log} | {}", g.desc);
  let n = m.sent.len();
  for _ in 0..(3 * n + 8) {
    log += "r";
    receive(&mut ctx, cfg, &mut m, held_max, &log, &g.desc, &mut last, false)?;
  }
  ensure!(
    m.received == m.sent.len(),
    "lost-frames",
    "{} of {} frames delivered after flush and {} receive calls [{log}]",
    m.received,
    n,
    3 * n + 8
  );
  // still finished, and still closed
  let f = ctx.new_frame();
  let r = ctx.send_frame(f);
  ensure!(
    matches!(r, Err(EncoderStatus::EnoughData)),
    "send-after-end",
    "send_frame after the end returned {r:?}"
  );
  receive(&mut ctx, cfg, &mut m, held_max, &log, &g.desc, &mut last, false)?;
  rep.nontrivial = n > 0;
  rep.tag(format!("frames {}", match n { 0 => "0", 1 => "1", 2..=9 => "2-9", 10..=29 => "10-29", _ => "30+" }));
  rep.tag(if cfg.low_latency { "low latency" } else { "reordered" });
  if cfg.still_picture {
    rep.tag("still");
  }
  Ok(())
}

#[allow(clippy::too_many_arguments)]
fn receive<T: Pixel>(
  ctx: &mut Context<T>, cfg: &EncoderConfig, m: &mut Model, held_max: usize,
  log: &str, desc: &str, last: &mut Option<Arc<Frame<T>>>, keep: bool,
) -> CaseResult {
  let r = ctx.receive_packet();
  let held = m.sent.len() - m.received;
  let st = format!(
    "{} accepted, {} delivered, flushed {} [{log}] {desc}",
    m.sent.len(),
    m.received,
    m.flushed
  );
  match r {
    Ok(p) => {
      if keep {
        *last = p.source.clone();
      }
      let p = conv_pkt(p, cfg);
      ensure!(held > 0, "extra-packet", "packet {} but {st}", p.input_frameno);
      ensure!(
        p.input_frameno == m.received as u64,
        "packet-order",
        "packet for frame {} delivered as number {}: {st}",
        p.input_frameno,
        m.received
      );
      let (img, op) = &m.sent[m.received];
      ensure!(
        p.opaque == *op,
        "opaque",
        "frame {} carries user data {:?}, sent {:?}: {st}",
        m.received,
        p.opaque,
        op
      );
      match &p.source {
        None => fail!("no-source", "packet {} has no source", m.received),
        Some(i) => {
          if let Some(d) = i.diff(img) {
            fail!("wrong-source", "source of packet {}: {d}: {st}", m.received)
          }
        }
      }
      ensure!(p.rec.is_some(), "no-rec", "packet {} has no rec", m.received);
      ensure!(!p.data.is_empty(), "empty-packet", "packet {} empty", m.received);
      m.received += 1;
      m.enc_run = 0;
    }
    Err(EncoderStatus::Encoded) => {
      m.enc_run += 1;
      ensure!(
        m.enc_run <= 2 && held > 0,
        "encoded-run",
        "{} times Encoded in a row: {st}",
        m.enc_run
      );
    }
    Err(EncoderStatus::NeedMoreData) => {
      ensure!(!m.flushed, "need-more-after-flush", "NeedMoreData: {st}");
      ensure!(
        held <= held_max,
        "holds-too-many",
        "NeedMoreData with {held} frames held (look-ahead allows {held_max}): {st}"
      );
    }
    Err(EncoderStatus::LimitReached) => {
      ensure!(
        m.flushed && held == 0,
        "early-limit",
        "LimitReached but {st}"
      );
    }
    Err(e) => fail!("receive-status", "receive_packet returned {e:?}: {st}"),
  }
  if m.flushed && held == 0 && m.received == m.sent.len() {
    ensure!(
      matches!(ctx.receive_packet(), Err(EncoderStatus::LimitReached)),
      "limit-not-reached",
      "everything delivered but no LimitReached: {st}"
    );
  }
  Ok(())
}
