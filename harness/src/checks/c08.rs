//! C08: metadata round trip.
use crate::enc::*;
use crate::engine::*;
use crate::obu;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;

pub static CHECK: Check = Check {
  id: "C08",
  rule: "One case = one configuration, a clip, and random T.35 payloads, user data and mastering / light level values; metadata OBUs are read back by an independent parser. Non-trivial: at least one frame carried T.35 metadata or user data, or HDR metadata was configured.",
  assumptions: &[],
  cases: |t| if t == Tier::Quick { 5000 } else { 100000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

struct Meta {
  t35: Vec<(u8, u8, Vec<u8>)>,
  opaque: Option<u64>,
  key: bool,
  params: bool,
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let lim = Limits {
    max_pixels: 32 * 32,
    max_dim: 48,
    max_frames: 24,
    min_speed: 8,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  if s.chance(1, 2) {
    g.cfg.content_light = Some(ContentLight {
      max_content_light_level: s.upto(65535) as u16,
      max_frame_average_light_level: s.upto(65535) as u16,
    });
  }
  if s.chance(1, 2) {
    let mut pt = || ChromaticityPoint { x: s.upto(65535) as u16, y: s.upto(65535) as u16 };
    let primaries = [pt(), pt(), pt()];
    let white_point = pt();
    g.cfg.mastering_display = Some(MasteringDisplay {
      primaries,
      white_point,
      max_luminance: s.upto(u32::MAX as u64) as u32,
      min_luminance: s.upto(u32::MAX as u64) as u32,
    });
  }
  let n = g.video.frames;
  let mut metas = vec![];
  for i in 0..n {
    let params = s.chance(3, 4);
    let mut m = Meta { t35: vec![], opaque: None, key: false, params };
    if params {
      if s.chance(1, 2) {
        for _ in 0..s.range(1, 3) {
          let len = match s.weighted(&[3, 4, 2]) {
            0 => s.us(0, 3),
            1 => s.us(1, 60),
            _ => s.pick(&[123usize, 124, 125, 126, 127, 128, 129, 300, 20000]),
          };
          let mut r = s.bulk();
          let mut data: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
          // the last byte of a T.35 payload is not zero in practice; a zero
          // or stop-bit-like ending must survive as well
          if len > 0 && s.chance(1, 3) {
            data[len - 1] = s.pick(&[0x80u8, 0, 0xff, 1]);
          }
          let cc = if s.chance(1, 3) { 0xff } else { s.upto(255) as u8 };
          m.t35.push((cc, s.upto(255) as u8, data));
        }
      }
      if s.chance(1, 2) {
        m.opaque = Some(i as u64 * 1000 + s.upto(999));
      }
      m.key = s.chance(1, 12);
    }
    metas.push(m);
  }
  rep.desc = format!(
    "t35 on {:?} | {}",
    metas.iter().enumerate().filter(|m| !m.1.t35.is_empty()).map(|m| (m.0, m.1.t35.len())).collect::<Vec<_>>(),
    g.desc
  );
  let eager = s.chance(1, 2);
  let pkts = if g.cfg.bit_depth > 8 {
    enc::<u16>(&g, &metas, eager)?
  } else {
    enc::<u8>(&g, &metas, eager)?
  };
  ensure!(pkts.len() == n, "packet-count", "{} packets for {n} frames", pkts.len());
  for (i, p) in pkts.iter().enumerate() {
    ensure!(p.opaque == metas[i].opaque, "opaque", "packet {i} carries {:?}, sent {:?}", p.opaque, metas[i].opaque);
    let obus = match obu::walk(&p.data) {
      Ok(o) => o,
      Err(e) => fail!("obu-walk", "packet {i}: {e}"),
    };
    let mut t35 = vec![];
    let mut cll = vec![];
    let mut mdcv = vec![];
    for o in obus.iter().filter(|o| o.ty == obu::METADATA) {
      let (k, tn) = match obu::leb128(&o.payload) {
        Some(x) => x,
        None => fail!("metadata-parse", "packet {i}"),
      };
      let body = &o.payload[tn..];
      match k {
        1 => cll.push(body.to_vec()),
        2 => mdcv.push(body.to_vec()),
        4 => {
          // payload, then exactly one byte of trailing bits: what comes
          // before the last 0x80
          ensure!(body.last() == Some(&0x80) && body.len() >= 2, "t35-trailing", "packet {i}: T.35 OBU ends in {:?}", body.last());
          let mut b = &body[..body.len() - 1];
          let cc = b[0];
          b = &b[1..];
          let ext = if cc == 0xff {
            ensure!(!b.is_empty(), "t35-ext", "packet {i}: extension byte missing");
            let e = b[0];
            b = &b[1..];
            Some(e)
          } else {
            None
          };
          t35.push((cc, ext, b.to_vec()));
        }
        k => fail!("metadata-type", "packet {i}: metadata type {k}"),
      }
    }
    let want: Vec<_> = metas[i]
      .t35
      .iter()
      .map(|(c, e, d)| (*c, if *c == 0xff { Some(*e) } else { None }, d.clone()))
      .collect();
    let short = |v: &Vec<(u8, Option<u8>, Vec<u8>)>| {
      v.iter().map(|x| format!("({:#x},{:?},{} bytes {:02x?}..)", x.0, x.1, x.2.len(), &x.2[..x.2.len().min(6)])).collect::<Vec<_>>()
    };
    ensure!(t35 == want, "t35", "packet {i} ({:?}) carries T.35 {:?}, frame was sent with {:?}", p.frame_type, short(&t35), short(&want));
    let key = p.frame_type == FrameType::KEY;
    let wc: Vec<Vec<u8>> = match g.cfg.content_light {
      Some(c) if key => vec![[
        c.max_content_light_level.to_be_bytes(),
        c.max_frame_average_light_level.to_be_bytes(),
      ]
      .concat()
      .into_iter()
      .chain([0x80])
      .collect()],
      _ => vec![],
    };
    ensure!(cll == wc, "content-light", "packet {i} ({:?}): {cll:02x?}, expected {wc:02x?}", p.frame_type);
    let wm: Vec<Vec<u8>> = match g.cfg.mastering_display {
      Some(m) if key => {
        let mut v = vec![];
        for p in m.primaries.iter().chain([&m.white_point]) {
          v.extend(p.x.to_be_bytes());
          v.extend(p.y.to_be_bytes());
        }
        v.extend(m.max_luminance.to_be_bytes());
        v.extend(m.min_luminance.to_be_bytes());
        v.push(0x80);
        vec![v]
      }
      _ => vec![],
    };
    ensure!(mdcv == wm, "mastering", "packet {i} ({:?}): {mdcv:02x?}, expected {wm:02x?}", p.frame_type);
  }
  rep.nontrivial = metas.iter().any(|m| !m.t35.is_empty() || m.opaque.is_some())
    || g.cfg.content_light.is_some()
    || g.cfg.mastering_display.is_some();
  rep.tag(if g.cfg.low_latency { "low latency" } else { "reordered" });
  if metas.iter().any(|m| !m.t35.is_empty()) {
    rep.tag("T.35");
  }
  Ok(())
}

fn enc<T: Pixel>(g: &Gen, metas: &[Meta], eager: bool) -> Result<Vec<Pkt>, Fail> {
  let config = Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
  let mut ctx: Context<T> = config
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  let mut out = vec![];
  for (t, m) in metas.iter().enumerate() {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &g.video.image(t));
    let r = if m.params {
      ctx.send_frame((
        f,
        FrameParameters {
          frame_type_override: if m.key { FrameTypeOverride::Key } else { FrameTypeOverride::No },
          opaque: m.opaque.map(Opaque::new),
          t35_metadata: m
            .t35
            .iter()
            .map(|(c, e, d)| T35 {
              country_code: *c,
              country_code_extension_byte: *e,
              data: d.clone().into_boxed_slice(),
            })
            .collect(),
        },
      ))
    } else {
      ctx.send_frame(f)
    };
    r.map_err(|e| Fail::new("send", format!("send_frame({t}): {e}")))?;
    if eager {
      while let Ok(p) = ctx.receive_packet() {
        out.push(conv_pkt(p, &g.cfg));
      }
    }
  }
  ctx.flush();
  out.extend(drain(&mut ctx, &g.cfg)?);
  Ok(out)
}
