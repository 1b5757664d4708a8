//! C01: independent decoders reproduce the reported reconstruction.
use crate::dec::{Aom, Dav1d};
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C01",
  rule: "One case = one generated configuration (size, chroma format, bit depth, speed settings, quantizer, tiles, key/switch frames, error resilience, rate control) and one generated clip, encoded and decoded by dav1d and libaom. Non-trivial: at least one packet was produced and both decoders returned a picture for every packet that was compared sample by sample.",
  assumptions: &["dav1d 1.4.1 and libaom 3.8.2 are correct AV1 decoders"],
  cases: |t| if t == Tier::Quick { 3000 } else { 60000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

pub fn decode_compare(pkts: &[Pkt], rep: &mut Report) -> CaseResult {
  let mut d = Dav1d::new(false, false);
  let mut a = Aom::new(false);
  for (i, p) in pkts.iter().enumerate() {
    let dp = match d.packet(&p.data) {
      Ok(x) => x,
      Err(e) => fail!("dav1d-error", "packet {i}: {e}"),
    };
    let ap = match a.packet(&p.data) {
      Ok(x) => x,
      Err(e) => fail!("aom-error", "packet {i}: {e}"),
    };
    ensure!(
      dp.len() == 1 && ap.len() == 1,
      "picture-count",
      "packet {i} decoded to {} pictures (dav1d), {} (libaom)",
      dp.len(),
      ap.len()
    );
    let rec = match &p.rec {
      Some(r) => r,
      None => fail!("no-rec", "packet {i} carries no reconstruction"),
    };
    if let Some(e) = dp[0].img.diff(rec) {
      fail!(
        "dav1d-mismatch",
        "packet {i} ({:?}): decoded vs reconstruction: {e}",
        p.frame_type
      );
    }
    if let Some(e) = ap[0].diff(rec) {
      fail!(
        "aom-mismatch",
        "packet {i} ({:?}): decoded vs reconstruction: {e}",
        p.frame_type
      );
    }
    rep.nontrivial = true;
  }
  Ok(())
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits::default();
  // now and then, a rate control that moves around the finest quantizers
  let fine = s.chance(1, 6);
  let mut g = if fine {
    let lim = Limits {
      max_pixels: 64 * 64,
      max_dim: 96,
      max_frames: 16,
      min_speed: 6,
      ..Default::default()
    };
    gen(s, &lim)
  } else {
    gen(s, &lim)
  };
  if fine {
    g.cfg.bitrate = s.pick(&[30_000, 100_000, 300_000, 1_000_000, 3_000_000]);
    g.cfg.min_quantizer = s.upto(4) as u8;
    rep.tag("fine quantizers");
    g.desc = format!("br {} minq {} | {}", g.cfg.bitrate, g.cfg.min_quantizer, g.desc);
  }
  rep.desc = g.desc.clone();
  rep.tag(format!("speed {}", g.speed));
  rep.tag(format!("chroma {}", chroma_name(g.cfg.chroma_sampling)));
  rep.tag(format!("depth {}", g.cfg.bit_depth));
  let config = Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
  // 8-bit video may be held in 16-bit samples
  let pkts = if g.cfg.bit_depth == 8 && s.chance(1, 8) {
    rep.tag("8-bit in u16");
    rep.desc = format!("u16 storage | {}", g.desc);
    encode::<u16>(&config, &g.cfg, &g.video)?
  } else {
    encode_any(&config, &g.cfg, &g.video)?
  };
  ensure!(
    pkts.len() == g.video.frames,
    "packet-count",
    "{} packets for {} frames",
    pkts.len(),
    g.video.frames
  );
  decode_compare(&pkts, rep)
}
