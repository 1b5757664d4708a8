//! C10: multi-pass statistics.
use crate::checks::c19::summary_bytes;
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::prelude::*;
use rav1e::prelude::RateControlConfig;

pub static CHECK: Check = Check {
  id: "C10",
  rule: "One case = either (a) one bitrate-mode configuration and clip taken through a first pass (statistics read through the packet interface, the byte interface, or both) and a second pass (optionally emitting statistics again for a third) fed through the packet interface, the byte interface with random chunk sizes, and both again with data withheld at random points; or (b) the same statistics truncated, corrupted or replaced by generated ones and fed to a second pass. Non-trivial: (a) the second pass ran to completion, (b) at least one damaged byte or packet was offered to the encoder.",
  assumptions: &[
    "clips are at most 96x96 and 40 frames",
    "in (b) any error status is accepted; panics, arithmetic overflow and endless loops are not",
  ],
  cases: |t| if t == Tier::Quick { 1600 } else { 60_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

const HDR: usize = 68;
const PKT: usize = 8;

pub struct Stats {
  pub summary: Vec<u8>,
  pub frames: Vec<Vec<u8>>,
}

impl Stats {
  fn bytes(&self) -> Vec<u8> {
    let mut v = self.summary.clone();
    self.frames.iter().for_each(|f| v.extend(f));
    v
  }
  fn field(&self, i: usize) -> i32 {
    i32::from_le_bytes(self.summary[8 + 4 * i..12 + 4 * i].try_into().unwrap())
  }
}

fn new<T: Pixel>(
  cfg: &EncoderConfig, rc: RateControlConfig,
) -> Result<Context<T>, Fail> {
  Config::new()
    .with_encoder_config(cfg.clone())
    .with_threads(1)
    .with_rate_control(rc)
    .new_context()
    .map_err(|e| Fail::new("config-rejected", format!("{e}")))
}

fn send_all<T: Pixel>(ctx: &mut Context<T>, v: &Video) -> CaseResult {
  for t in 0..v.frames {
    let mut f = ctx.new_frame();
    fill_frame(&mut f, &v.image(t));
    if let Err(e) = ctx.send_frame(f) {
      fail!("send", "send_frame({t}): {e}");
    }
  }
  ctx.flush();
  Ok(())
}

fn from_slice(b: &[u8]) -> Result<RateControlConfig, Fail> {
  RateControlConfig::from_summary_slice(b)
    .map_err(|e| Fail::new("summary-refused", format!("{e}: {b:?}")))
}

/// Reads the statistics of the step just made.
fn read_packets<T: Pixel>(ctx: &mut Context<T>, st: &mut Stats) {
  match ctx.rc_receive_pass_data() {
    Some(RcData::Frame(f)) => st.frames.push(f.to_vec()),
    Some(RcData::Summary(b)) => st.summary = b.to_vec(),
    None => {}
  }
}

fn read_bytes<T: Pixel>(ctx: &mut Context<T>, st: &mut Stats) -> CaseResult {
  if let Some(b) = ctx.twopass_out() {
    match b.len() {
      PKT => st.frames.push(b.to_vec()),
      HDR => st.summary = b.to_vec(),
      n => fail!("stats-size", "twopass_out returned {n} bytes"),
    }
  }
  Ok(())
}

/// Runs a pass to the end; `feed` supplies second-pass data.  The first data
/// is delivered before the first frame is sent, because the look-ahead uses
/// the quantizer the rate control expects at the time.
fn pass<T: Pixel>(
  ctx: &mut Context<T>, cfg: &EncoderConfig, v: &Video, emit: Option<bool>,
  feed: &mut dyn FnMut(&mut Context<T>) -> CaseResult,
) -> Result<(Vec<Pkt>, Stats), Fail> {
  let mut st = Stats { summary: vec![], frames: vec![] };
  let mut out = vec![];
  let mut idle = 0;
  feed(ctx)?;
  send_all(ctx, v)?;
  loop {
    feed(ctx)?;
    if emit == Some(false) {
      read_bytes(ctx, &mut st)?;
    }
    let r = ctx.receive_packet();
    if emit == Some(true) {
      match r {
        Ok(_)
        | Err(EncoderStatus::Encoded)
        | Err(EncoderStatus::LimitReached) => read_packets(ctx, &mut st),
        _ => {}
      }
    }
    match r {
      Ok(p) => {
        idle = 0;
        out.push(conv_pkt(p, cfg));
      }
      Err(EncoderStatus::Encoded) => {
        idle += 1;
        ensure!(idle < 64, "no-progress", "64 x Encoded");
      }
      Err(EncoderStatus::LimitReached) => break,
      Err(e) => fail!(
        "receive-status",
        "after {} packets, with all data: {e:?}",
        out.len()
      ),
    }
  }
  if emit == Some(false) {
    read_bytes(ctx, &mut st)?;
    ensure!(
      ctx.twopass_out().is_none(),
      "stats-twice",
      "twopass_out returned data again after the summary"
    );
  }
  Ok((out, st))
}

fn check_stats(st: &Stats, v: &Video, what: &str) -> CaseResult {
  ensure!(
    st.summary.len() == HDR,
    "no-summary",
    "{what}: summary of {} bytes",
    st.summary.len()
  );
  let mut n = [0i32; 5];
  let mut shown = 0;
  for f in &st.frames {
    ensure!(f.len() == PKT, "stats-size", "{what}: packet {}", f.len());
    let w = u32::from_le_bytes(f[..4].try_into().unwrap());
    let t = (w & 0x7fff_ffff) as usize;
    ensure!(t < 5, "stats-type", "{what}: frame type {t}");
    n[t] += 1;
    shown += (w >> 31) as i32;
  }
  let got: Vec<i32> = (0..6).map(|i| st.field(i)).collect();
  ensure!(
    got[0] == shown && got[0] == v.frames as i32 && got[1..] == n,
    "summary-counts",
    "{what}: summary says {got:?}; {} frames sent, packets: {shown} shown, {n:?}",
    v.frames
  );
  Ok(())
}

fn same(a: &[Pkt], b: &[Pkt], what: &str) -> CaseResult {
  crate::checks::c03::same(a, b, what)
}

/// Feeds packets until none is required.
fn feed_packets<'a, T: Pixel>(
  st: &'a Stats, at: &'a mut usize,
) -> impl FnMut(&mut Context<T>) -> CaseResult + 'a {
  move |ctx| {
    while ctx.rc_second_pass_data_required() > 0 {
      ensure!(
        *at < st.frames.len(),
        "wants-too-much",
        "all {} packets delivered and {} more required",
        st.frames.len(),
        ctx.rc_second_pass_data_required()
      );
      if let Err(e) = ctx.rc_send_pass_data(&st.frames[*at]) {
        fail!("packet-refused", "packet {at}: {e:?}");
      }
      *at += 1;
    }
    Ok(())
  }
}

/// Offers random slices of the byte stream until no more is needed.
fn feed_bytes<'a, T: Pixel>(
  data: &'a [u8], at: &'a mut usize, s: &'a mut Src, mode: usize,
) -> impl FnMut(&mut Context<T>) -> CaseResult + 'a {
  move |ctx| {
    let mut steps = 0;
    loop {
      steps += 1;
      ensure!(steps < 100_000, "no-progress", "twopass_in loops");
      let n = match mode {
        0 => data.len(),
        1 => ctx.twopass_bytes_needed(),
        2 => 1,
        _ => s.us(1, 90),
      };
      if n == 0 {
        return Ok(());
      }
      let end = (*at + n).min(data.len());
      let used = match ctx.twopass_in(&data[*at..end]) {
        Ok(k) => k,
        Err(e) => fail!("bytes-refused", "at byte {at}: {e:?}"),
      };
      ensure!(
        used <= end - *at,
        "over-consumed",
        "{used} of {} bytes",
        end - *at
      );
      *at += used;
      if used == 0 {
        let need = ctx.twopass_bytes_needed();
        ensure!(
          need == 0 || *at == data.len(),
          "consumes-nothing",
          "needs {need} bytes but consumed none of {}",
          end - *at
        );
        return Ok(());
      }
    }
  }
}

fn good<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  let emit = || RateControlConfig::new().with_emit_data(true);
  let by_packet = s.chance(1, 2);
  let mut c = new::<T>(cfg, emit())?;
  let (p1, st) = pass(&mut c, cfg, v, Some(by_packet), &mut |_| Ok(()))?;
  check_stats(&st, v, "first pass")?;
  ensure!(
    p1.len() == v.frames,
    "packet-count",
    "first pass: {} packets for {} frames",
    p1.len(),
    v.frames
  );
  if s.chance(1, 4) {
    // the other interface emits the same
    let mut c = new::<T>(cfg, emit())?;
    let (q, st2) = pass(&mut c, cfg, v, Some(!by_packet), &mut |_| Ok(()))?;
    same(&p1, &q, "first pass, packet and byte interface")?;
    ensure!(
      st.bytes() == st2.bytes(),
      "stats-differ",
      "statistics differ between the packet and the byte interface"
    );
    rep.tag("first pass through both interfaces");
  }

  // second pass, packet interface
  let again = s.chance(1, 3);
  let rc = || Ok(from_slice(&st.summary)?.with_emit_data(again));
  let e = if again { Some(by_packet) } else { None };
  let mut c = new::<T>(cfg, rc()?)?;
  let mut at = 0;
  let (p2, st2) = pass(&mut c, cfg, v, e, &mut feed_packets(&st, &mut at))?;
  ensure!(
    p2.len() == v.frames,
    "packet-count",
    "second pass: {} packets for {} frames",
    p2.len(),
    v.frames
  );
  ensure!(
    at == st.frames.len(),
    "data-unused",
    "second pass finished with {at} of {} packets",
    st.frames.len()
  );
  rep.nontrivial = true;
  if again {
    check_stats(&st2, v, "second pass")?;
    rep.tag("statistics emitted again");
  }

  // second pass, byte interface
  if !again {
    let mut c = new::<T>(cfg, RateControlConfig::new())?;
    let data = st.bytes();
    let mode = s.us(0, 3);
    let mut at = 0;
    let (q, _) =
      pass(&mut c, cfg, v, None, &mut feed_bytes(&data, &mut at, s, mode))?;
    same(&p2, &q, "second pass, packet and byte interface")?;
    ensure!(
      at == data.len(),
      "data-unused",
      "finished with {at} of {} bytes",
      data.len()
    );
    match c.twopass_in(&[1, 2, 3]) {
      Ok(0) => {}
      r => fail!("consumes-after-end", "twopass_in after the end: {r:?}"),
    }
    rep.tag(format!("byte interface, chunks {}", ["all", "as needed", "1", "random"][mode]));
  }

  // withheld data
  if s.chance(1, 2) {
    let bytes = !again && s.chance(1, 2);
    let mut c =
      new::<T>(cfg, if bytes { RateControlConfig::new() } else { rc()? })?;
    let data = st.bytes();
    let mut at = 0;
    if bytes {
      feed_bytes(&data, &mut at, s, 3)(&mut c)?;
    } else {
      feed_packets(&st, &mut at)(&mut c)?;
    }
    send_all(&mut c, v)?;
    let mut out = vec![];
    let mut held = 0;
    let mut idle = 0;
    loop {
      // deliver some, ask, and only then deliver the rest
      if bytes {
        while c.twopass_bytes_needed() > 0 && s.chance(3, 4) {
          let end = (at + s.us(1, 80)).min(data.len());
          match c.twopass_in(&data[at..end]) {
            Ok(k) => at += k,
            Err(e) => fail!("bytes-refused", "at byte {at}: {e:?}"),
          }
        }
      } else {
        while c.rc_second_pass_data_required() > 0 && s.chance(3, 4) {
          ensure!(at < st.frames.len(), "wants-too-much", "after {at}");
          if let Err(e) = c.rc_send_pass_data(&st.frames[at]) {
            fail!("packet-refused", "packet {at}: {e:?}");
          }
          at += 1;
        }
      }
      let missing = if bytes {
        c.twopass_bytes_needed() > 0
      } else {
        c.rc_second_pass_data_required() > 0
      };
      let r = c.receive_packet();
      if again && matches!(r, Ok(_) | Err(EncoderStatus::Encoded)) {
        let _ = c.rc_receive_pass_data();
      }
      if missing {
        match r {
          Err(EncoderStatus::NotReady) => {
            held += 1;
            continue;
          }
          Ok(_) => fail!("went-ahead", "a packet with data missing"),
          Err(e) => {
            fail!("went-ahead", "status {e:?} with data missing after {} packets", out.len())
          }
        }
      }
      match r {
        Ok(p) => {
          idle = 0;
          out.push(conv_pkt(p, cfg))
        }
        Err(EncoderStatus::Encoded) => {
          idle += 1;
          ensure!(idle < 64, "no-progress", "64 x Encoded");
        }
        Err(EncoderStatus::LimitReached) => break,
        Err(e) => fail!("receive-status", "with all data: {e:?}"),
      }
    }
    same(&p2, &out, "second pass with data withheld at times")?;
    if held > 0 {
      rep.tag("data withheld");
    }
  }

  // third pass
  if again && s.chance(1, 2) {
    let mut c = new::<T>(cfg, from_slice(&st2.summary)?)?;
    let mut at = 0;
    let (p3, _) = pass(&mut c, cfg, v, None, &mut feed_packets(&st2, &mut at))?;
    ensure!(
      p3.len() == v.frames && at == st2.frames.len(),
      "packet-count",
      "third pass: {} packets for {} frames, {at} of {} statistics",
      p3.len(),
      v.frames,
      st2.frames.len()
    );
    rep.tag("third pass");
  }
  Ok(())
}

/// What the format demands of a summary.
fn valid_summary(b: &[u8]) -> bool {
  if b.len() < HDR {
    return false;
  }
  let i = |o: usize| i32::from_le_bytes(b[o..o + 4].try_into().unwrap());
  let total: i64 = (0..5).map(|k| i(12 + 4 * k) as i64).sum();
  b[..8] == summary_bytes(1, [1, 0, 0, 0, 0], [0; 4], [0; 4])[..8]
    && i(8) >= 1
    && (0..5).all(|k| i(12 + 4 * k) >= 0)
    && total <= i32::MAX as i64
    && i(8) as i64 <= total
    && (0..4).all(|k| b[36 + 8 * k + 7] < 128)
}

fn damage(s: &mut Src, b: &mut Vec<u8>) {
  for _ in 0..s.range(1, 3) {
    if b.is_empty() {
      return;
    }
    let at = s.us(0, b.len() - 1);
    match s.upto(4) {
      0 => b[at] ^= 1 << s.upto(7),
      1 => b[at] = s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
      2 => {
        let n = (b.len() - at).min(s.us(1, 8));
        let v = s.pick(&[0u8, 0xff, 0x7f]);
        b[at..at + n].fill(v);
      }
      3 => b[at] = s.upto(255) as u8,
      _ => {
        if at + 8 <= b.len() {
          let v = s.i(i64::MIN, i64::MAX) >> s.upto(62);
          b[at..at + 8].copy_from_slice(&v.to_le_bytes());
        }
      }
    }
  }
}

fn gen_frame(s: &mut Src) -> Vec<u8> {
  let t = s.weighted(&[2, 4, 3, 3, 2, 1]) as u32;
  let show = s.chance(3, 4) as u32;
  let scale: i32 = match s.upto(3) {
    0 => s.i(-(1 << 26), 1 << 28) as i32,
    1 => s.pick(&[i32::MIN, i32::MAX, 0, -1, 1 << 30, 23 << 24, 40 << 24]),
    2 => (s.i(-64, 64) * (1 << 24)) as i32,
    _ => s.i(i32::MIN as i64, i32::MAX as i64) as i32,
  };
  let mut v = (show << 31 | t).to_le_bytes().to_vec();
  v.extend(scale.to_le_bytes());
  v
}

fn bad<T: Pixel>(
  s: &mut Src, cfg: &EncoderConfig, v: &Video, rep: &mut Report,
) -> CaseResult {
  // start from real statistics or from made-up ones
  let mut st = if s.chance(1, 2) {
    let mut c =
      new::<T>(cfg, RateControlConfig::new().with_emit_data(true))?;
    pass(&mut c, cfg, v, Some(true), &mut |_| Ok(()))?.1
  } else {
    let n = s.us(1, 60);
    let frames: Vec<Vec<u8>> = (0..n).map(|_| gen_frame(s)).collect();
    let mut nf = [0i32; 5];
    let mut shown = 0;
    for f in &frames {
      let t = f[0] as usize;
      if t < 5 {
        nf[t] += 1;
        shown += (f[3] >> 7) as i32;
      }
    }
    if s.chance(1, 2) {
      // the rate control looks ahead over all promised frames up to the next
      // key frame, so only a short key frame interval bears a huge promise
      let max = if cfg.max_key_frame_interval < 1000 {
        i32::MAX / 5
      } else {
        20_000
      };
      for x in nf.iter_mut() {
        *x = match s.upto(3) {
          0 => *x,
          1 => s.i(0, 100) as i32,
          _ => s.i(0, max as i64) as i32,
        };
      }
      let tot: i32 = nf.iter().sum();
      shown = if s.chance(1, 2) { tot } else { s.i(1, 1 + tot as i64) as i32 };
    }
    let mut exp = [0u8; 4];
    exp.iter_mut().for_each(|e| {
      *e = if s.chance(1, 2) { s.i(40, 150) as u8 } else { s.upto(255) as u8 }
    });
    let mut sum = [0i64; 4];
    sum.iter_mut().for_each(|e| {
      let sh = s.upto(62);
      *e = s.upto(i64::MAX as u64 >> sh) as i64;
    });
    rep.tag("generated statistics");
    Stats {
      summary: summary_bytes(shown.max(1), nf, exp, sum),
      frames,
    }
  };
  let full = st.bytes();
  match s.upto(3) {
    0 => damage(s, &mut st.summary),
    1 => {
      if !st.frames.is_empty() {
        for _ in 0..s.range(1, 4) {
          let i = s.us(0, st.frames.len() - 1);
          if s.chance(1, 2) {
            damage(s, &mut st.frames[i]);
          } else {
            st.frames[i] = gen_frame(s);
          }
        }
      }
    }
    2 => {
      let k = s.us(0, HDR);
      st.summary.truncate(k);
    }
    _ => {
      // packets lost, doubled, reordered
      for _ in 0..s.range(1, 4) {
        if st.frames.is_empty() {
          break;
        }
        let i = s.us(0, st.frames.len() - 1);
        match s.upto(2) {
          0 => {
            st.frames.remove(i);
          }
          1 => {
            let f = st.frames[i].clone();
            st.frames.insert(i, f);
          }
          _ => {
            let j = s.us(0, st.frames.len() - 1);
            st.frames.swap(i, j);
          }
        }
      }
    }
  }
  rep.nontrivial = true;
  let ok = valid_summary(&st.summary);
  let parsed = RateControlConfig::from_summary_slice(&st.summary);
  if !ok {
    ensure!(
      parsed.is_err(),
      "bad-summary-accepted",
      "accepted {:?} as {:?}",
      st.summary,
      parsed
    );
  }
  if s.chance(1, 2) {
    // packet interface
    let rc = match parsed {
      Ok(rc) => rc,
      Err(_) => {
        rep.tag("summary refused");
        return Ok(());
      }
    };
    let mut c = new::<T>(cfg, rc.with_emit_data(s.chance(1, 4)))?;
    send_all(&mut c, v)?;
    let mut at = 0;
    let mut n = 0;
    let mut steps = 0;
    'run: loop {
      steps += 1;
      ensure!(steps < 2000, "no-progress", "receive loop");
      let mut guard = 0;
      while c.rc_second_pass_data_required() > 0 {
        guard += 1;
        ensure!(guard < 2000, "no-progress", "packets accepted without end");
        if at >= st.frames.len() {
          break;
        }
        let f = &st.frames[at];
        let valid = f.len() == PKT
          && u32::from_le_bytes(f[..4].try_into().unwrap()) & 0x7fff_ffff <= 4;
        at += 1;
        match c.rc_send_pass_data(f) {
          Ok(()) => ensure!(valid, "bad-packet-accepted", "{f:?}"),
          Err(EncoderStatus::Failure) => {
            rep.tag("packet refused");
            break 'run;
          }
          Err(e) => fail!("packet-status", "{e:?}"),
        }
      }
      match c.receive_packet() {
        Ok(_) => n += 1,
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) => {
          ensure!(n == v.frames, "packet-count", "{n} packets, then the end");
          rep.tag("damaged data, completed");
          break;
        }
        Err(EncoderStatus::NotReady) => {
          rep.tag("damaged data, not ready");
          break;
        }
        Err(e) => fail!("receive-status", "{e:?}"),
      }
      let _ = c.rc_receive_pass_data();
    }
  } else {
    let mut data = if st.summary.len() < HDR && s.chance(1, 2) {
      st.summary.clone()
    } else {
      st.bytes()
    };
    if s.chance(1, 4) {
      data = full;
      damage(s, &mut data);
      let k = s.us(0, data.len());
      if s.chance(1, 2) {
        data.truncate(k);
      }
    }
    let ok = valid_summary(&data);
    let mut c = new::<T>(cfg, RateControlConfig::new())?;
    send_all(&mut c, v)?;
    let mut at = 0;
    let mut n = 0;
    let mut steps = 0;
    loop {
      steps += 1;
      ensure!(steps < 4000, "no-progress", "receive loop");
      loop {
        let end = (at + s.us(1, 200)).min(data.len());
        match c.twopass_in(&data[at..end]) {
          Ok(0) => break,
          Ok(k) => {
            ensure!(k <= end - at, "over-consumed", "{k} of {}", end - at);
            at += k
          }
          Err(EncoderStatus::Failure) => {
            rep.tag("bytes refused");
            return Ok(());
          }
          Err(e) => fail!("bytes-status", "{e:?}"),
        }
        let _ = c.twopass_bytes_needed();
      }
      match c.receive_packet() {
        Ok(_) => {
          ensure!(ok, "went-ahead", "a packet from an invalid summary");
          n += 1
        }
        Err(EncoderStatus::Encoded) => {}
        Err(EncoderStatus::LimitReached) => {
          ensure!(n == v.frames, "packet-count", "{n} packets, then the end");
          rep.tag("damaged bytes, completed");
          break;
        }
        Err(EncoderStatus::NotReady) => {
          rep.tag("damaged bytes, not ready");
          break;
        }
        Err(e) => fail!("receive-status", "{e:?}"),
      }
    }
  }
  Ok(())
}

pub fn gen_rc(s: &mut Src, max_frames: usize) -> Gen {
  let long = s.chance(1, 3);
  let lim = Limits {
    max_pixels: if long { 40 * 40 } else { 64 * 64 },
    max_dim: 96,
    max_frames: if long { max_frames } else { 12 },
    min_speed: 6,
    bitrate: false,
    hbd: true,
    still: false,
  };
  let mut g = gen(s, &lim);
  let c = &mut g.cfg;
  c.bitrate =
    s.pick(&[20_000, 100_000, 500_000, 5_000_000, 1, 1000, 100_000_000, i32::MAX]);
  c.quantizer = if s.chance(1, 2) { 255 } else { s.us(1, 255) };
  c.min_quantizer = if s.chance(1, 3) { s.us(0, c.quantizer) as u8 } else { 0 };
  c.reservoir_frame_delay =
    if s.chance(1, 2) { Some(s.range(12, 60) as i32) } else { None };
  if s.chance(1, 6) {
    c.time_base = Rational::new(s.range(1, 1001), s.range(1, 60000));
  }
  g.desc = format!(
    "br {} q {}..{} reservoir {:?} tb {:?} | {}",
    c.bitrate,
    c.min_quantizer,
    c.quantizer,
    c.reservoir_frame_delay,
    c.time_base,
    g.desc
  );
  g
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  let is_bad = s.chance(1, 2);
  let g = gen_rc(s, 40);
  rep.desc = g.desc.clone();
  rep.tag(if is_bad { "damaged" } else { "intact" });
  match (is_bad, g.cfg.bit_depth > 8) {
    (false, false) => good::<u8>(s, &g.cfg, &g.video, rep),
    (false, true) => good::<u16>(s, &g.cfg, &g.video, rep),
    (true, false) => bad::<u8>(s, &g.cfg, &g.video, rep),
    (true, true) => bad::<u16>(s, &g.cfg, &g.video, rep),
  }
}
