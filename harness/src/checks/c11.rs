//! C11: the channel interface.
use crate::checks::c03::same;
use crate::checks::c10::gen_rc;
use crate::dec::Dav1d;
use crate::enc::*;
use crate::engine::*;
use crate::src::{Rng, Src};
use crate::{ensure, fail};
use rav1e::prelude::*;
use rav1e::prelude::{FrameSender, PacketReceiver, RateControlConfig, RcDataSender};
use std::sync::Arc;
use std::time::Duration;

pub static CHECK: Check = Check {
  id: "C11",
  rule: "One case = one configuration and clip with per-frame parameters (key frame requests, opaque data, T.35 metadata) taken through the channel interface with a random thread count and random producer and consumer timing, and compared with the direct interface driven in the same order: (a) a plain channel, (b) first, second and repeated passes with their statistics channels, (c) a consumer that goes away early, (d) parallel groups of pictures, whose concatenated stream must decode to the reported reconstructions. Non-trivial: the channel delivered its whole stream (or, in (c), the producer was released).",
  assumptions: &[
    "thread schedules are those that the operating system and rayon produce, perturbed by random pauses",
    "parallel groups of pictures are given a pool with one thread per slot and four more, because its bookkeeping tasks occupy pool threads",
  ],
  cases: |t| if t == Tier::Quick { 2000 } else { 60_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

#[derive(Clone)]
struct Param {
  key: bool,
  opaque: Option<u64>,
  t35: Option<Vec<u8>>,
}

fn params(s: &mut Src, n: usize) -> Vec<Option<Param>> {
  (0..n)
    .map(|_| {
      s.chance(1, 3).then(|| Param {
        key: s.chance(1, 4),
        opaque: s.chance(1, 2).then(|| s.upto(1 << 40)),
        t35: s.chance(1, 4).then(|| s.bytes(20)),
      })
    })
    .collect()
}

fn fp(p: &Param) -> FrameParameters {
  FrameParameters {
    frame_type_override: if p.key {
      FrameTypeOverride::Key
    } else {
      FrameTypeOverride::No
    },
    opaque: p.opaque.map(|o| Opaque::new(o)),
    t35_metadata: p
      .t35
      .iter()
      .map(|d| T35 {
        country_code: 0xb5,
        country_code_extension_byte: 0,
        data: d.clone().into_boxed_slice(),
      })
      .collect(),
  }
}

fn config(cfg: &EncoderConfig, threads: usize, rc: RateControlConfig) -> Config {
  Config::new()
    .with_encoder_config(cfg.clone())
    .with_threads(threads)
    .with_rate_control(rc)
}

type Stats = (Vec<Vec<u8>>, Vec<u8>);

/// The direct interface, in the order of the channel interface: everything
/// that can be received is, before the next frame is sent.
fn direct<T: Pixel>(
  c: &Config, cfg: &EncoderConfig, v: &Video, ps: &[Option<Param>],
  feed: Option<&[Vec<u8>]>, emit: bool,
) -> Result<(Vec<Pkt>, Stats, Vec<u8>), Fail> {
  let mut ctx: Context<T> = c
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))?;
  let hdr = ctx.container_sequence_header();
  let mut out = vec![];
  let mut st = (vec![], vec![]);
  let mut at = 0;
  for t in 0..=v.frames {
    let mut idle = 0;
    if t == v.frames {
      ctx.flush();
    }
    loop {
      idle += 1;
      ensure!(idle < 100_000, "no-progress", "direct interface loops");
      let r = ctx.receive_packet();
      if let Err(EncoderStatus::NotReady) = r {
        let d = match feed {
          Some(d) => d,
          None => fail!("receive-status", "NotReady without second pass"),
        };
        ensure!(
          ctx.rc_second_pass_data_required() > 0,
          "receive-status",
          "NotReady with all data"
        );
        while ctx.rc_second_pass_data_required() > 0 {
          ensure!(at < d.len(), "wants-too-much", "direct: after {at} packets");
          if let Err(e) = ctx.rc_send_pass_data(&d[at]) {
            fail!("packet-refused", "packet {at}: {e:?}");
          }
          at += 1;
        }
        continue;
      }
      if emit
        && matches!(
          r,
          Ok(_) | Err(EncoderStatus::Encoded | EncoderStatus::LimitReached)
        )
      {
        match ctx.rc_receive_pass_data() {
          Some(RcData::Frame(f)) => st.0.push(f.to_vec()),
          Some(RcData::Summary(b)) => st.1 = b.to_vec(),
          None => fail!("stats-missing", "no statistics after {r:?}", r = r.is_ok()),
        }
      }
      match r {
        Ok(p) => out.push(conv_pkt(p, cfg)),
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) if t == v.frames => break,
        Err(EncoderStatus::NeedMoreData) if t < v.frames => break,
        Err(e) => fail!("receive-status", "direct, before frame {t}: {e:?}"),
      }
    }
    if t < v.frames {
      let mut f = ctx.new_frame();
      fill_frame(&mut f, &v.image(t));
      let r = match &ps[t] {
        Some(p) => ctx.send_frame((f, fp(p))),
        None => ctx.send_frame(f),
      };
      if let Err(e) = r {
        fail!("send", "send_frame({t}): {e}");
      }
    }
  }
  Ok((out, st, hdr))
}

fn pause(r: &mut Rng, how: usize) {
  match how {
    0 => {}
    1 => {
      if r.next() % 4 == 0 {
        std::thread::yield_now()
      }
    }
    _ => {
      if r.next() % 4 == 0 {
        std::thread::sleep(Duration::from_micros(r.next() % 3000))
      }
    }
  }
}

#[derive(Clone, Copy, Debug)]
struct Timing {
  seed: u64,
  producer: usize,
  consumer: usize,
  /// one thread does both, without blocking
  single: bool,
}

fn timing(s: &mut Src) -> Timing {
  Timing {
    seed: s.upto(u32::MAX as u64),
    producer: s.us(0, 2),
    consumer: s.us(0, 2),
    single: s.chance(1, 3),
  }
}

/// Sends a clip and collects the packets. Returns what was refused, too.
fn drive<T: Pixel>(
  mut tx: FrameSender<T>, rx: PacketReceiver<T>, cfg: &EncoderConfig,
  v: &Video, ps: &[Option<Param>], tm: Timing,
) -> Result<Vec<Pkt>, Fail> {
  let mut r = Rng::new(tm.seed);
  let frame = |tx: &FrameSender<T>, t: usize| {
    let mut f = tx.new_frame();
    fill_frame(&mut f, &v.image(t));
    (Arc::new(f), ps[t].as_ref().map(fp))
  };
  let mut out = vec![];
  if tm.single {
    for t in 0..v.frames {
      let mut f = frame(&tx, t);
      loop {
        pause(&mut r, tm.producer);
        match tx.try_send(f) {
          Ok(()) => break,
          Err(TrySendError::Full((Some(fr), p))) => {
            f = (fr, p);
            if let Ok(p) = rx.try_recv() {
              out.push(conv_pkt(p, cfg));
            } else {
              std::thread::sleep(Duration::from_micros(200));
            }
          }
          Err(e) => fail!("send", "try_send({t}): {e}"),
        }
      }
      if r.next() % 2 == 0 {
        if let Ok(p) = rx.try_recv() {
          out.push(conv_pkt(p, cfg));
        }
      }
    }
    drop(tx);
    loop {
      pause(&mut r, tm.consumer);
      match rx.try_recv() {
        Ok(p) => out.push(conv_pkt(p, cfg)),
        Err(TryRecvError::Empty) => {
          std::thread::sleep(Duration::from_micros(200))
        }
        Err(TryRecvError::Disconnected) => break,
      }
    }
  } else {
    let mut r2 = Rng::new(tm.seed ^ 1);
    std::thread::scope(|sc| -> CaseResult {
      let h = sc.spawn(move || -> CaseResult {
        for t in 0..v.frames {
          pause(&mut r2, tm.producer);
          let f = frame(&tx, t);
          if let Err(e) = tx.send(f) {
            fail!("send", "send({t}): {e}");
          }
        }
        Ok(())
      });
      while let Ok(p) = rx.recv() {
        out.push(conv_pkt(p, cfg));
        pause(&mut r, tm.consumer);
      }
      h.join().unwrap()
    })?;
  }
  // the end of the stream stays the end
  ensure!(rx.recv().is_err(), "packet-after-end", "packet after the end");
  Ok(out)
}

fn opaques(a: &[Pkt], b: &[Pkt]) -> CaseResult {
  for (i, (x, y)) in a.iter().zip(b).enumerate() {
    ensure!(
      x.opaque == y.opaque,
      "opaque",
      "packet {i}: opaque data {:?} vs {:?}",
      x.opaque,
      y.opaque
    );
  }
  Ok(())
}

fn bad_config(e: InvalidConfig) -> Fail {
  Fail::new("config-rejected", format!("channel: {e}"))
}

fn plain<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  let ps = params(s, v.frames);
  let rc = RateControlConfig::new;
  let (a, _, hdr) =
    direct::<T>(&config(cfg, 1, rc()), cfg, v, &ps, None, false)?;
  let threads = s.pick(&[1usize, 2, 3, 8, 0]);
  let tm = timing(s);
  let c = config(cfg, threads, rc());
  ensure!(
    c.new_firstpass_channel::<T>().is_err()
      && c.new_secondpass_channel::<T>().is_err()
      && c.new_multipass_channel::<T>().is_err(),
    "mismatch-accepted",
    "a channel with statistics was created without statistics"
  );
  let (mut tx, rx) = c.new_channel::<T>().map_err(bad_config)?;
  ensure!(
    rx.container_sequence_header() == hdr,
    "container-header",
    "container sequence header {:?} vs {:?}",
    rx.container_sequence_header(),
    hdr
  );
  if cfg.still_picture {
    // as with the direct interface, there is nothing after the first frame
    let mut f = tx.new_frame();
    fill_frame(&mut f, &v.image(0));
    // not one shared frame: those have to be padded by the caller
    if tx.send(f.clone()).is_ok() {
      ensure!(
        tx.send(f).is_err(),
        "still-picture",
        "a second frame was accepted for a still picture"
      );
    }
    drop(tx);
    let n = rx.iter().count();
    ensure!(n == 1, "still-picture", "{n} packets for a still picture");
    let (tx, rx) = c.new_channel::<T>().map_err(bad_config)?;
    same(&a, &drive(tx, rx, cfg, v, &ps, tm)?, "channel")?;
    rep.tag("still picture");
  } else {
    let b = drive(tx, rx, cfg, v, &ps, tm)?;
    same(&a, &b, "channel")?;
    opaques(&a, &b)?;
  }
  rep.tag(format!("plain, {threads} threads"));
  rep.nontrivial = true;
  Ok(())
}

fn passes<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  let ps = params(s, v.frames);
  let rc1 = || RateControlConfig::new().with_emit_data(true);
  let (a, st, _) =
    direct::<T>(&config(cfg, 1, rc1()), cfg, v, &ps, None, true)?;
  let threads = s.pick(&[1usize, 2, 8]);
  let ((tx, rx), data) = config(cfg, threads, rc1())
    .new_firstpass_channel::<T>()
    .map_err(bad_config)?;
  let b = drive(tx, rx, cfg, v, &ps, timing(s))?;
  same(&a, &b, "first pass")?;
  let (mut fr, mut sum) = (vec![], vec![]);
  while let Ok(d) = data.recv() {
    ensure!(sum.is_empty(), "stats-order", "statistics after the summary");
    match d {
      RcData::Frame(f) => fr.push(f.to_vec()),
      RcData::Summary(b) => sum = b.to_vec(),
    }
  }
  ensure!(
    fr == st.0 && sum == st.1,
    "stats-differ",
    "first-pass statistics differ: {} packets vs {}, summary {:?} vs {:?}",
    st.0.len(),
    fr.len(),
    st.1,
    sum
  );
  rep.tag("first pass");
  if v.frames == 0 {
    rep.nontrivial = true;
    return Ok(());
  }

  let multi = s.chance(1, 3);
  let rc2 = || -> Result<RateControlConfig, Fail> {
    Ok(
      RateControlConfig::from_summary_slice(&sum)
        .map_err(|e| Fail::new("summary-refused", format!("{e}")))?
        .with_emit_data(multi),
    )
  };
  let (a, st2, _) = direct::<T>(
    &config(cfg, 1, rc2()?),
    cfg,
    v,
    &ps,
    Some(&fr),
    multi,
  )?;
  let c = config(cfg, threads, rc2()?);
  let (tx, rx, mut dtx, drx) = if multi {
    let ((tx, rx), (d, r)) =
      c.new_multipass_channel::<T>().map_err(bad_config)?;
    (tx, rx, d, Some(r))
  } else {
    let ((tx, rx), d) = c.new_secondpass_channel::<T>().map_err(bad_config)?;
    (tx, rx, d, None)
  };
  let tm = timing(s);
  let before = s.us(0, fr.len());
  let mut r = Rng::new(tm.seed ^ 77);
  let send = |dtx: &mut RcDataSender, d: &Vec<u8>| -> CaseResult {
    if let Err(e) = dtx.try_send(RcData::Frame(d.clone().into_boxed_slice())) {
      fail!("stats-refused", "second-pass statistics: {e}");
    }
    Ok(())
  };
  for d in &fr[..before] {
    send(&mut dtx, d)?;
  }
  let b = std::thread::scope(|sc| -> Result<Vec<Pkt>, Fail> {
    let fr = &fr;
    let h = sc.spawn(move || -> CaseResult {
      for d in &fr[before..] {
        pause(&mut r, 2);
        send(&mut dtx, d)?;
      }
      // there is no room for more than the first pass had
      let x = RcData::Frame(fr[0].clone().into_boxed_slice());
      ensure!(dtx.send(x).is_err(), "stats-limit", "too much data accepted");
      Ok(())
    });
    let b = drive(tx, rx, cfg, v, &ps, tm);
    h.join().unwrap()?;
    b
  })?;
  same(&a, &b, "second pass")?;
  opaques(&a, &b)?;
  if let Some(drx) = drx {
    let mut got = (vec![], vec![]);
    for d in drx.iter() {
      match d {
        RcData::Frame(f) => got.0.push(f.to_vec()),
        RcData::Summary(b) => got.1 = b.to_vec(),
      }
    }
    ensure!(got == st2, "stats-differ", "second-pass statistics differ");
    rep.tag("statistics of the second pass");
  }
  rep.tag("second pass");
  rep.nontrivial = true;
  Ok(())
}

/// The consumer leaves; the producer must not be stuck and nothing may crash.
fn leave<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  let first_pass = s.chance(1, 4);
  let mut cfg = cfg.clone();
  if first_pass && cfg.bitrate == 0 {
    // rate control data needs a target
    cfg.bitrate = 100_000;
  }
  let cfg = &cfg;
  // With a single thread, what is installed later runs when the encoder ended.
  let pool = Arc::new(
    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap(),
  );
  let c =
    config(cfg, 1, RateControlConfig::new().with_emit_data(first_pass))
      .with_thread_pool(pool.clone());
  let ((mut tx, rx), st) = if first_pass {
    let (v, r) = c.new_firstpass_channel::<T>().map_err(bad_config)?;
    (v, Some(r))
  } else {
    (c.new_channel::<T>().map_err(bad_config)?, None)
  };
  let keep = s.us(0, 3);
  let at = s.us(0, v.frames);
  // what is dropped: the packets, the statistics, or both
  let what = if first_pass { s.us(0, 2) } else { 0 };
  let mut rx = Some(rx);
  let mut st = st;
  let mut refused = false;
  let mut got = 0;
  let sends = v.frames.max(1) + 40;
  for t in 0..sends {
    if t == at {
      if let Some(r) = &rx {
        for _ in 0..keep {
          got += r.try_recv().is_ok() as usize;
        }
      }
      if what != 1 {
        rx = None;
      }
      if what != 0 {
        st = None;
      }
    }
    let mut f = tx.new_frame();
    fill_frame(&mut f, &v.image(t % v.frames.max(1)));
    if tx.send(f).is_err() {
      refused = true;
      break;
    }
  }
  drop(tx);
  if let Some(r) = rx {
    got += r.iter().count();
    if what == 1 && !refused {
      ensure!(
        got == sends,
        "lost-packets",
        "{got} packets for {sends} frames after the statistics were dropped"
      );
    }
  }
  drop(st);
  pool.install(|| ());
  rep.tag(["packets dropped", "statistics dropped", "both dropped"][what]);
  if refused {
    rep.tag("producer told");
  }
  rep.nontrivial = true;
  Ok(())
}

fn by_gop<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  let slots = s.us(2, 4);
  let threads = slots + 4 + s.us(0, 2);
  let c = config(cfg, threads, RateControlConfig::new())
    .with_parallel_gops(slots);
  let (tx, rx) = c.new_channel::<T>().map_err(bad_config)?;
  let ps: Vec<Option<Param>> = vec![None; v.frames];
  let out = drive(tx, rx, cfg, v, &ps, timing(s))?;
  ensure!(
    out.len() == v.frames,
    "gop-count",
    "{} packets for {} frames",
    out.len(),
    v.frames
  );
  let mut d = Dav1d::new(true, false);
  let mut keys = 0;
  for (t, p) in out.iter().enumerate() {
    ensure!(
      p.input_frameno == t as u64,
      "gop-order",
      "packet {t} is for frame {}",
      p.input_frameno
    );
    keys += (p.frame_type == FrameType::KEY) as usize;
    if let Some(src) = &p.source {
      if let Some(e) = src.diff(&v.image(t)) {
        fail!("gop-source", "packet {t} is not for frame {t}: {e}");
      }
    }
    let pics = d
      .packet(&p.data)
      .map_err(|e| Fail::new("gop-decode", format!("packet {t}: {e}")))?;
    ensure!(
      pics.len() == 1,
      "gop-decode",
      "packet {t} decodes to {} pictures",
      pics.len()
    );
    match &p.rec {
      None => fail!("gop-rec", "packet {t} has no reconstruction"),
      Some(r) => {
        if let Some(e) = r.diff(&pics[0].img) {
          fail!("gop-rec", "packet {t} ({:?}): {e}", p.frame_type);
        }
      }
    }
  }
  rep.tag(format!("parallel groups, {}", if keys > 1 { "several" } else { "one" }));
  rep.nontrivial = true;
  Ok(())
}

fn go<T: Pixel>(
  s: &mut Src, g: &Gen, kind: usize, rep: &mut Report,
) -> CaseResult {
  match kind {
    0 => plain::<T>(s, &g.cfg, &g.video, rep),
    1 => passes::<T>(s, &g.cfg, &g.video, rep),
    2 => leave::<T>(s, &g.cfg, &g.video, rep),
    _ => by_gop::<T>(s, &g.cfg, &g.video, rep),
  }
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let kind = s.weighted(&[4, 3, 1, 3]);
  let mut g = if kind == 1 {
    gen_rc(s, 24)
  } else {
    let lim = Limits {
      max_pixels: 64 * 64,
      max_dim: 128,
      max_frames: if kind == 3 { 40 } else { 16 },
      min_speed: 6,
      still: kind == 0,
      ..Default::default()
    };
    gen(s, &lim)
  };
  if kind < 2 && !g.cfg.still_picture && s.chance(1, 30) {
    g.video.frames = 0;
  }
  rep.desc = format!(
    "{} | {}",
    ["plain", "passes", "leave", "parallel"][kind],
    g.desc
  );
  if g.cfg.bit_depth > 8 {
    go::<u16>(s, &g, kind, rep)
  } else {
    go::<u8>(s, &g, kind, rep)
  }
}
