//! C12: the C interface is the Rust interface, and owns memory correctly.
use crate::enc::*;
use crate::engine::*;
use crate::src::{Rng, Src};
use crate::{ensure, fail};
use rav1e::capi::*;
use rav1e::prelude as r;
use rav1e::prelude::{
  ChromaSampling, Config as RConfig, Context as RContext, EncoderConfig,
  EncoderStatus as RStatus, Frame as RFrame, FrameParameters,
  FrameTypeOverride, Opaque, Pixel, RateControlConfig, RcData, SpeedSettings, T35,
};
use std::collections::HashMap;
use std::ffi::{c_void, CStr, CString};
use std::ptr::null_mut;
use std::sync::{Arc, Mutex};

pub static CHECK: Check = Check {
  id: "C12",
  rule: "One case = a configuration expressed as C options (valid ones mixed with malformed ones, whose acceptance a reference grammar predicts) and a generated sequence of calls (frames filled with arbitrary strides, reused frames, frame types, opaque pointers, T.35 data, sends, receives, flush, statistics of both passes, early release), executed in lockstep on the C functions and on the Rust interface. Every status, packet, header, reconstruction and statistics buffer must be equal, every user pointer released or returned exactly once, and the second run of the same sequence must leave no memory behind. Non-trivial: at least one packet was compared, or a configuration was rejected by both.",
  assumptions: &[
    "the calls are made as the header documents them: valid pointers, enum values in range, plane buffers of whole rows, and a byte width that fits the frame",
    "memory is compared with one thread, between two repetitions of the same calls",
  ],
  cases: |t| if t == Tier::Quick { 1000 } else { 30_000 },
  run,
  workers: 8,
  env: &[("RAYON_NUM_THREADS", "1")],
  panic_is_violation: true,
};

// ---- options -------------------------------------------------------------

#[derive(Clone, Copy)]
enum Ty {
  U(u64),
  I32,
  Bool,
  Tune,
  Level,
}

const KEYS: [(&str, Ty); 20] = [
  ("width", Ty::U(u64::MAX)),
  ("height", Ty::U(u64::MAX)),
  ("speed", Ty::U(255)),
  ("threads", Ty::U(u64::MAX)),
  ("tiles", Ty::U(u64::MAX)),
  ("tile_rows", Ty::U(u64::MAX)),
  ("tile_cols", Ty::U(u64::MAX)),
  ("tune", Ty::Tune),
  ("quantizer", Ty::U(u64::MAX)),
  ("min_quantizer", Ty::U(255)),
  ("bitrate", Ty::I32),
  ("key_frame_interval", Ty::U(u64::MAX)),
  ("min_key_frame_interval", Ty::U(u64::MAX)),
  ("switch_frame_interval", Ty::U(u64::MAX)),
  ("reservoir_frame_delay", Ty::I32),
  ("rdo_lookahead_frames", Ty::U(u64::MAX)),
  ("low_latency", Ty::Bool),
  ("enable_timing_info", Ty::Bool),
  ("still_picture", Ty::Bool),
  ("no_scene_detection", Ty::Bool),
];

fn digits(v: &str) -> Option<u128> {
  if v.is_empty() || v.len() > 30 || !v.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  v.parse().ok()
}

/// Reference grammar of the option values.
fn accepts(ty: Ty, v: &str) -> bool {
  match ty {
    Ty::U(max) => digits(v).is_some_and(|n| n <= max as u128),
    Ty::I32 => match v.strip_prefix('-') {
      Some(v) => digits(v).is_some_and(|n| n <= 1 << 31),
      None => digits(v).is_some_and(|n| n < 1 << 31),
    },
    Ty::Bool => v == "true" || v == "false",
    Ty::Tune => v == "psnr" || v == "psychovisual",
    Ty::Level => {
      v == "auto"
        || v == "unconstrained"
        || v.split_once('.').is_some_and(|(a, b)| {
          digits(a).is_some_and(|a| (2..=7).contains(&a))
            && digits(b).is_some_and(|b| b <= 3)
        })
    }
  }
}

const BAD: [&str; 27] = [
  "", "-1", "x", "12x", " 5", "5 ", "0x10", "1e3", "1.5", "True", "FALSE", "yes", "on",
  "99999999999999999999", "18446744073709551616", "4294967296", "2147483648",
  "-2147483649", "256", "0.0", "1.0", "1.3", "8.0", "2.4", "5.", ".1", "\u{7f}é",
];

unsafe fn parse(cfg: *mut Config, k: &str, v: &str) -> i32 {
  let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
  rav1e_config_parse(cfg, k.as_ptr(), v.as_ptr())
}

unsafe fn parse_int(cfg: *mut Config, k: &str, v: i32) -> i32 {
  let k = CString::new(k).unwrap();
  rav1e_config_parse_int(cfg, k.as_ptr(), v)
}

/// One malformed or unknown option; false if the model cannot tell.
unsafe fn bad_option(s: &mut Src, cfg: *mut Config) -> CaseResult {
  match s.upto(9) {
    0 => {
      let k = s.pick(&["", "Width", "widthx", "quantiser", "key-frame-interval", "a"]);
      ensure!(parse(cfg, k, "1") < 0, "option-accepted", "unknown key {k:?}");
      ensure!(parse_int(cfg, k, 1) < 0, "option-accepted", "unknown key {k:?} (int)");
    }
    1 => {
      // a string that is not UTF-8
      let k = CString::new("width").unwrap();
      let v = CString::new(vec![b'1', 0xff]).unwrap();
      ensure!(
        rav1e_config_parse(cfg, k.as_ptr(), v.as_ptr()) < 0
          && rav1e_config_parse(cfg, v.as_ptr(), k.as_ptr()) < 0,
        "option-accepted",
        "not UTF-8"
      );
    }
    2 => {
      let bd = s.pick(&[0u8, 1, 7, 9, 11, 13, 16, 255]);
      ensure!(
        rav1e_config_set_pixel_format(
          cfg,
          bd,
          ChromaSampling::Cs444,
          r::ChromaSamplePosition::Vertical,
          r::PixelRange::Full
        ) < 0,
        "option-accepted",
        "bit depth {bd}"
      );
    }
    3 => {
      // integers where the key wants something else
      let k = s.pick(&["tune", "level"]);
      let v = s.i(-3, 40) as i32;
      ensure!(parse_int(cfg, k, v) < 0, "option-accepted", "{k}={v} (int)");
    }
    4 => {
      let v = s.i(i32::MIN as i64, -1) as i32;
      let (k, ty) = s.pick(&KEYS);
      if let Ty::U(_) = ty {
        ensure!(parse_int(cfg, k, v) < 0, "option-accepted", "{k}={v} (int)");
      }
    }
    _ => {
      let v = s.pick(&BAD);
      let (k, ty) = if s.chance(1, 4) { ("level", Ty::Level) } else { s.pick(&KEYS) };
      if !accepts(ty, v) {
        ensure!(parse(cfg, k, v) < 0, "option-accepted", "{k}={v:?}");
      }
    }
  }
  Ok(())
}

fn set(s: &mut Src, out: &mut Vec<(String, String, bool)>, k: &str, v: String) {
  let int = v.parse::<i32>().is_ok() && s.chance(1, 3);
  out.push((k.into(), v, int));
}

/// The options that turn the default configuration into `e`.
fn options(s: &mut Src, e: &EncoderConfig, speed: u8, nosc: bool, threads: usize) -> Vec<(String, String, bool)> {
  let d = EncoderConfig::default();
  let mut o = vec![];
  macro_rules! opt {
    ($k:expr, $f:ident) => {
      if e.$f != d.$f || s.chance(1, 6) {
        set(s, &mut o, $k, e.$f.to_string());
      }
    };
  }
  opt!("width", width);
  opt!("height", height);
  opt!("tiles", tiles);
  opt!("tile_rows", tile_rows);
  opt!("tile_cols", tile_cols);
  opt!("quantizer", quantizer);
  opt!("min_quantizer", min_quantizer);
  opt!("bitrate", bitrate);
  opt!("key_frame_interval", max_key_frame_interval);
  opt!("min_key_frame_interval", min_key_frame_interval);
  opt!("switch_frame_interval", switch_frame_interval);
  opt!("low_latency", low_latency);
  opt!("enable_timing_info", enable_timing_info);
  opt!("still_picture", still_picture);
  if let Some(r) = e.reservoir_frame_delay {
    set(s, &mut o, "reservoir_frame_delay", r.to_string());
  }
  set(s, &mut o, "threads", threads.to_string());
  if e.tune != d.tune || s.chance(1, 4) {
    o.push(("tune".into(), format!("{:?}", e.tune).to_lowercase(), false));
  }
  if e.level_idx.is_some() || s.chance(1, 4) {
    let v = match e.level_idx {
      None => "auto".to_string(),
      Some(31) => "unconstrained".to_string(),
      Some(l) => format!("{}.{}", 2 + (l >> 2), l & 3),
    };
    o.push(("level".into(), v, false));
  }
  // any order
  for i in (1..o.len()).rev() {
    let j = s.us(0, i);
    o.swap(i, j);
  }
  // the speed is set before what refines it
  let mut first = vec![];
  set(s, &mut first, "speed", speed.to_string());
  if e.speed_settings.rdo_lookahead_frames != SpeedSettings::from_preset(speed).rdo_lookahead_frames {
    set(s, &mut o, "rdo_lookahead_frames", e.speed_settings.rdo_lookahead_frames.to_string());
  }
  if nosc || s.chance(1, 6) {
    let v = nosc.to_string();
    o.push(("no_scene_detection".into(), v, false));
  }
  first.extend(o);
  first
}

// ---- sequences -----------------------------------------------------------

#[derive(Clone, Debug)]
struct FrameOp {
  t: usize,
  /// reuse the C frame of the last send, refilled or as it is
  reuse: Option<bool>,
  pad: [usize; 3],
  extra_rows: usize,
  ty: Option<FrameTypeOverride>,
  /// opaque pointers set one after another (None: NULL)
  opaque: Vec<Option<bool>>,
  t35: Vec<(u8, u8, Vec<u8>)>,
  drop: bool,
  byte1: bool,
}

#[derive(Clone, Debug)]
enum Op {
  Send(FrameOp),
  Receive(usize),
  Flush,
  Header,
}

struct Plan {
  ops: Vec<Op>,
  /// 0: one pass; 1: packet interface; 2: byte stream interface
  passes: u8,
  junk: u64,
}

static FREED: Mutex<Vec<usize>> = Mutex::new(vec![]);

extern "C" fn destroy(p: *mut c_void) {
  FREED.lock().unwrap().push(p as usize);
}

fn st(e: &Result<(), RStatus>) -> i32 {
  match e {
    Ok(()) => 0,
    Err(RStatus::NeedMoreData) => 1,
    Err(RStatus::EnoughData) => 2,
    Err(RStatus::LimitReached) => 3,
    Err(RStatus::Encoded) => 4,
    Err(RStatus::Failure) => -1,
    Err(RStatus::NotReady) => -2,
  }
}

unsafe fn take(d: *mut Data) -> Option<Vec<u8>> {
  if d.is_null() {
    return None;
  }
  let v = std::slice::from_raw_parts((*d).data, (*d).len).to_vec();
  rav1e_data_unref(d);
  Some(v)
}

struct Ptrs {
  live: HashMap<usize, &'static str>,
  next: usize,
}

impl Ptrs {
  fn new() -> Ptrs {
    FREED.lock().unwrap().clear();
    Ptrs { live: HashMap::new(), next: 0x1000 }
  }
  fn make(&mut self, own: &'static str) -> usize {
    self.next += 8;
    self.live.insert(self.next, own);
    self.next
  }
  fn freed(&mut self, want: &[usize], what: &str) -> CaseResult {
    let mut got: Vec<usize> = FREED.lock().unwrap().drain(..).collect();
    let mut want = want.to_vec();
    got.sort();
    want.sort();
    ensure!(
      got == want,
      "destructor",
      "{what}: destroyed {got:x?}, expected {want:x?}"
    );
    for g in &got {
      if self.live.remove(g).is_none() {
        fail!("destructor", "{what}: {g:x} destroyed twice");
      }
    }
    Ok(())
  }
}

fn img_bytes(
  p: &(usize, usize, Vec<u16>), bw: usize, pad: usize, extra: usize, junk: &mut Rng,
) -> (Vec<u8>, usize) {
  let stride = p.0 * bw + pad;
  let mut out = Vec::with_capacity(stride * (p.1 + extra));
  for y in 0..p.1 + extra {
    for x in 0..p.0 {
      let v = if y < p.1 { p.2[y * p.0 + x] } else { junk.next() as u16 & 0xff };
      out.push(v as u8);
      if bw == 2 {
        out.push((v >> 8) as u8);
      }
    }
    for _ in 0..pad {
      // only whole components, of any value in range
      out.push(if bw == 1 { junk.next() as u8 } else { 0 });
    }
  }
  (out, stride)
}

unsafe fn extract(f: *const Frame, pl: usize, pw: usize, ph: usize, bw: usize, pad: usize) -> Result<Vec<u16>, Fail> {
  let stride = pw * bw + pad;
  let mut buf = vec![0xa5u8; stride * ph];
  rav1e_frame_extract_plane(f, pl as i32, buf.as_mut_ptr(), buf.len(), stride as isize, bw as i32);
  let mut v = vec![];
  for row in buf.chunks(stride) {
    for x in 0..pw {
      v.push(if bw == 2 {
        u16::from_le_bytes([row[2 * x], row[2 * x + 1]])
      } else {
        row[x] as u16
      });
    }
  }
  Ok(v)
}

struct Session<T: Pixel> {
  c: *mut Context,
  r: Option<RContext<T>>,
  packets: usize,
  stats: (Vec<Vec<u8>>, Vec<u8>),
  stream: Vec<u8>,
  rstats: Vec<Vec<u8>>,
}

/// Statistics to feed a second pass with.
struct Feed {
  passes: u8,
  /// C buffers, with their length prefix
  packets: Vec<u8>,
  at: usize,
  rpackets: Vec<Vec<u8>>,
  rat: usize,
  stream: Vec<u8>,
  sat: usize,
}

unsafe fn run_ops<T: Pixel>(
  ss: &mut Session<T>, cfg: &EncoderConfig, v: &Video, plan: &Plan, emit: bool,
  mut feed: Option<Feed>,
) -> CaseResult {
  let bw = std::mem::size_of::<T>();
  let mut junk = Rng::new(plan.junk);
  let mut ptrs = Ptrs::new();
  let mut sent: HashMap<u64, usize> = HashMap::new();
  let mut inputs = 0u64;
  let mut last: (*mut Frame, Option<Arc<RFrame<T>>>) = (null_mut(), None);
  for (no, op) in plan.ops.iter().enumerate() {
    match op {
      Op::Header => {
        let h = take(rav1e_container_sequence_header(ss.c)).unwrap_or_default();
        if let Some(r) = &ss.r {
          ensure!(
            h == r.container_sequence_header(),
            "header",
            "container header {h:02x?}"
          );
        }
      }
      Op::Flush => {
        let a = rav1e_send_frame(ss.c, null_mut()) as i32;
        if let Some(r) = &mut ss.r {
          let b = st(&r.send_frame(None));
          ensure!(a == b, "status", "flush at {no}: C {a}, Rust {b}");
        }
      }
      Op::Send(f) => {
        let img = v.image(f.t);
        let fresh = last.0.is_null() || f.reuse.is_none();
        let refill = fresh || f.reuse == Some(true);
        if fresh {
          rav1e_frame_unref(last.0);
          last.0 = rav1e_frame_new(ss.c);
        }
        let cf = last.0;
        if refill {
          for (p, pl) in img.planes.iter().enumerate() {
            let b = if bw == 2 && f.byte1 && pl.2.iter().all(|v| *v < 256) { 1 } else { bw };
            let (d, stride) = img_bytes(pl, b, f.pad[p] * b, f.extra_rows, &mut junk);
            rav1e_frame_fill_plane(cf, p as i32, d.as_ptr(), d.len(), stride as isize, b as i32);
          }
          for (p, pl) in img.planes.iter().enumerate() {
            let got = extract(cf, p, pl.0, pl.1, bw, f.pad[(p + 1) % 3])?;
            ensure!(got == pl.2, "fill-extract", "frame {} plane {p} of {}x{}", f.t, pl.0, pl.1);
          }
          let mut rf = match &ss.r {
            Some(r) => r.new_frame(),
            None => RFrame::new_with_padding(16, 16, ChromaSampling::Cs400, 0),
          };
          if ss.r.is_some() {
            fill_frame(&mut rf, &img);
            // a shared frame has to be padded by the caller
            for p in 0..n_planes(v.chroma) {
              rf.planes[p].pad(v.w, v.h);
            }
          }
          last.1 = Some(Arc::new(rf));
        }
        let ty = f.ty.unwrap_or(FrameTypeOverride::No);
        ensure!(rav1e_frame_set_type(cf, ty) == 0, "status", "set_type {ty:?}");
        let mut cur: Option<usize> = None;
        for o in &f.opaque {
          let mut gone = vec![];
          match o {
            None => {
              rav1e_frame_set_opaque(cf, null_mut(), Some(destroy));
              gone.extend(cur.take());
            }
            Some(cb) => {
              let p = ptrs.make(if *cb { "cb" } else { "none" });
              rav1e_frame_set_opaque(
                cf,
                p as *mut c_void,
                if *cb { Some(destroy) } else { None },
              );
              gone.extend(cur.take());
              cur = Some(p);
            }
          }
          gone.retain(|g| ptrs.live.get(g) == Some(&"cb"));
          ptrs.freed(&gone, "set_opaque")?;
        }
        for (a, b, d) in &f.t35 {
          rav1e_frame_add_t35_metadata(cf, *a, *b, d.as_ptr(), d.len());
        }
        if f.drop {
          // never sent
          rav1e_frame_unref(cf);
          last = (null_mut(), None);
          let want: Vec<usize> =
            cur.into_iter().filter(|p| ptrs.live.get(p) == Some(&"cb")).collect();
          ptrs.freed(&want, "frame_unref")?;
          continue;
        }
        let a = rav1e_send_frame(ss.c, cf) as i32;
        if let Some(r) = &mut ss.r {
          let params = FrameParameters {
            frame_type_override: ty,
            opaque: None::<Opaque>,
            t35_metadata: f
              .t35
              .iter()
              .map(|(a, b, d)| T35 {
                country_code: *a,
                country_code_extension_byte: *b,
                data: d.clone().into_boxed_slice(),
              })
              .collect(),
          };
          let b = st(&r.send_frame((last.1.clone().unwrap(), params)));
          ensure!(a == b, "status", "send at {no}: C {a}, Rust {b}");
        }
        let l = rav1e_last_status(ss.c) as i32;
        ensure!(l == a, "last-status", "send at {no}: returned {a}, last status {l}");
        if a == 0 {
          if let Some(p) = cur {
            sent.insert(inputs, p);
          }
          inputs += 1;
          ptrs.freed(&[], "send_frame")?;
        } else {
          let want: Vec<usize> =
            cur.into_iter().filter(|p| ptrs.live.get(p) == Some(&"cb")).collect();
          ptrs.freed(&want, "refused send_frame")?;
        }
      }
      Op::Receive(n) => {
        let mut idle = 0;
        for _ in 0..*n {
          idle += 1;
          ensure!(idle < 100_000, "no-progress", "receive loops");
          // first pass, byte stream
          if emit && plan.passes == 2 {
            let a = take(rav1e_twopass_out(ss.c));
            if let Some(r) = &mut ss.r {
              let b = r.twopass_out().map(|b| b.to_vec());
              ensure!(a == b, "twopass-out", "at {no}");
            }
            if let Some(a) = a {
              ss.stream.extend(a);
            }
          }
          if let Some(fd) = &mut feed {
            feed_pass(ss, fd)?;
          }
          let mut p: *mut Packet = null_mut();
          let a = rav1e_receive_packet(ss.c, &mut p) as i32;
          let l = rav1e_last_status(ss.c) as i32;
          ensure!(l == a, "last-status", "receive at {no}: returned {a}, last status {l}");
          let rp = match &mut ss.r {
            None => None,
            Some(r) => {
              let x = r.receive_packet();
              let (s, pk) = match x {
                Ok(p) => (0, Some(p)),
                Err(e) => (st(&Err(e)), None),
              };
              ensure!(a == s, "status", "receive at {no}: C {a}, Rust {s}");
              pk
            }
          };
          ensure!((a == 0) == !p.is_null(), "packet", "status {a}, packet {p:?}");
          if a == 0 {
            ss.packets += 1;
            let data = std::slice::from_raw_parts((*p).data, (*p).len);
            if let Some(rp) = &rp {
              ensure!(
                data == &rp.data[..]
                  && (*p).input_frameno == rp.input_frameno
                  && (*p).frame_type as i32 == rp.frame_type as i32,
                "packet",
                "packet of frame {} ({} bytes) differs from frame {} ({} bytes) of the Rust interface",
                (*p).input_frameno,
                data.len(),
                rp.input_frameno,
                rp.data.len()
              );
              for (what, c, rf) in
                [("rec", (*p).rec, &rp.rec), ("source", (*p).source, &rp.source)]
              {
                ensure!(c.is_null() == rf.is_none(), "packet", "{what} missing");
                if let Some(rf) = rf {
                  let img = frame_to_img(rf, v.w, v.h, v.bit_depth, v.chroma);
                  for (k, pl) in img.planes.iter().enumerate() {
                    let got = extract(c, k, pl.0, pl.1, bw, 0)?;
                    ensure!(got == pl.2, "packet-planes", "{what} plane {k}");
                  }
                }
              }
            }
            let want = sent.remove(&(*p).input_frameno).unwrap_or(0);
            ensure!(
              (*p).opaque as usize == want,
              "opaque",
              "frame {}: {:p} instead of {want:x}",
              (*p).input_frameno,
              (*p).opaque
            );
            rav1e_packet_unref(p);
            if want != 0 {
              ptrs.live.remove(&want);
            }
            ptrs.freed(&[], "receive_packet")?;
          }
          if emit && plan.passes == 1 && (a == 0 || a == 4 || a == 3) {
            let mut d: *mut Data = null_mut();
            let k = rav1e_rc_receive_pass_data(ss.c, &mut d);
            let c = take(d);
            if let Some(r) = &mut ss.r {
              let (rk, rd) = match r.rc_receive_pass_data() {
                None => (RcDataKind::Empty, None),
                Some(RcData::Summary(b)) => (RcDataKind::Summary, Some(b.to_vec())),
                Some(RcData::Frame(b)) => (RcDataKind::Frame, Some(b.to_vec())),
              };
              ensure!(k == rk, "rc-receive", "C {k:?}, Rust {rk:?}");
              let pre = rd.as_ref().map(|d| {
                let mut b = (d.len() as u64).to_be_bytes().to_vec();
                b.extend(d);
                b
              });
              ensure!(c == pre, "rc-receive", "C {c:02x?}, Rust {rd:02x?}");
              if let (RcDataKind::Frame, Some(d)) = (&k, rd) {
                ss.rstats.push(d);
              }
              if k == RcDataKind::Summary {
                let n = rav1e_rc_summary_size(ss.c);
                ensure!(
                  c.as_ref().is_some_and(|c| c.len() == n),
                  "rc-summary-size",
                  "size {n}, summary {c:02x?}"
                );
              }
            }
            match k {
              RcDataKind::Frame => ss.stats.0.push(c.unwrap_or_default()),
              RcDataKind::Summary => ss.stats.1 = c.unwrap_or_default(),
              RcDataKind::Empty => {}
            }
          }
          // no more progress without input
          if a != 0 && a != 4 {
            break;
          }
        }
      }
    }
  }
  if emit && plan.passes == 2 {
    let a = take(rav1e_twopass_out(ss.c));
    if let Some(r) = &mut ss.r {
      let b = r.twopass_out().map(|b| b.to_vec());
      ensure!(a == b, "twopass-out", "at the end");
    }
    if let Some(a) = a {
      let n = a.len().min(ss.stream.len());
      ss.stream[..n].copy_from_slice(&a[..n]);
    }
  }
  // release everything in either order
  if plan.junk & 1 == 0 {
    rav1e_frame_unref(last.0);
    rav1e_context_unref(ss.c);
  } else {
    rav1e_context_unref(ss.c);
    rav1e_frame_unref(last.0);
  }
  ss.c = null_mut();
  let want: Vec<usize> =
    sent.values().copied().filter(|p| ptrs.live.get(p) == Some(&"cb")).collect();
  ptrs.freed(&want, "context_unref")?;
  let _ = cfg;
  Ok(())
}

unsafe fn feed_pass<T: Pixel>(ss: &mut Session<T>, f: &mut Feed) -> CaseResult {
  if f.passes == 1 {
    let mut guard = 0;
    loop {
      let n = rav1e_rc_second_pass_data_required(ss.c);
      if let Some(r) = &ss.r {
        let b = r.rc_second_pass_data_required() as i32;
        ensure!(n == b, "rc-required", "C {n}, Rust {b}");
      }
      if n <= 0 || f.at >= f.packets.len() {
        break;
      }
      guard += 1;
      ensure!(guard < 100_000, "no-progress", "feeding loops");
      // first too little, then enough
      let full = 8 + u64::from_be_bytes(f.packets[f.at..f.at + 8].try_into().unwrap()) as usize;
      for cut in [guard % full, full.min(8 + guard % 3)] {
        if cut >= full {
          continue;
        }
        let part = f.packets[f.at..f.at + cut].to_vec();
        let mut d = part.as_ptr();
        let mut l = part.len();
        let e = rav1e_rc_send_pass_data(ss.c, &mut d, &mut l);
        let need = if cut < 8 { 8 } else { full };
        ensure!(
          e == need as i32 && d == part.as_ptr() && l == part.len(),
          "rc-send-partial",
          "{cut} of {full} bytes: returned {e}, advanced {}",
          d as usize - part.as_ptr() as usize
        );
      }
      let mut d = f.packets[f.at..].as_ptr();
      let mut l = f.packets.len() - f.at;
      let e = rav1e_rc_send_pass_data(ss.c, &mut d, &mut l);
      if let Some(r) = &mut ss.r {
        let b = r.rc_send_pass_data(&f.rpackets[f.rat]);
        ensure!((e == 0) == b.is_ok(), "rc-send", "C {e}, Rust {b:?}");
      }
      ensure!(
        d == f.packets[f.at..].as_ptr().add(full) && l == f.packets.len() - f.at - full,
        "rc-send-advance",
        "packet of {full} bytes: pointer advanced by {}, length now {l}",
        d as usize - f.packets[f.at..].as_ptr() as usize
      );
      f.at += full;
      f.rat += 1;
    }
  } else {
    let mut guard = 0;
    loop {
      let n = rav1e_twopass_bytes_needed(ss.c);
      if let Some(r) = &mut ss.r {
        let b = r.twopass_bytes_needed();
        ensure!(n == b, "twopass-needed", "C {n}, Rust {b}");
      }
      let left = f.stream.len() - f.sat;
      if n == 0 || left == 0 {
        break;
      }
      guard += 1;
      ensure!(guard < 100_000, "no-progress", "feeding loops");
      let give = left.min([n, n + 3, n.div_ceil(2), usize::MAX][guard % 4]);
      let mut b = f.stream[f.sat..f.sat + give].to_vec();
      let e = rav1e_twopass_in(ss.c, b.as_mut_ptr(), b.len());
      if let Some(r) = &mut ss.r {
        let x = r.twopass_in(&b);
        let x = x.map_or(-1, |v| v as i32);
        ensure!(e == x, "twopass-in", "C {e}, Rust {x}");
      }
      if e <= 0 {
        break;
      }
      f.sat += e as usize;
    }
  }
  Ok(())
}

/// Summary buffers that are truncated, oversized or corrupt.
unsafe fn bad_summary(s: &mut Src, cfg: *mut Config, good: Option<&[u8]>) -> CaseResult {
  let n = match s.upto(4) {
    0 => s.upto(200),
    1 => u64::MAX - s.upto(10),
    2 => i32::MAX as u64 - 8 + s.upto(3),
    3 => (1 << 32) - 8 + s.upto(2),
    _ => 1u64 << s.upto(63),
  };
  let have = s.us(0, 90);
  let mut buf = n.to_be_bytes().to_vec();
  let mut rng = s.bulk();
  buf.extend((0..have).map(|_| rng.next() as u8));
  if s.chance(1, 4) {
    buf.truncate(s.us(0, 8));
  }
  if let (Some(g), true) = (good, s.chance(1, 3)) {
    // one byte too few
    buf = g[..g.len() - 1].to_vec();
  }
  if buf.is_empty() {
    buf.reserve(8);
  }
  let mut d = buf.as_ptr();
  let mut l = buf.len();
  let e = rav1e_config_set_rc_summary(cfg, &mut d, &mut l);
  let declared = if buf.len() >= 8 {
    Some(u64::from_be_bytes(buf[..8].try_into().unwrap()))
  } else {
    None
  };
  match declared {
    None => ensure!(e > 0, "summary-short", "{} bytes: returned {e}", buf.len()),
    Some(n) if n as u128 + 8 > buf.len() as u128 => {
      if n as u128 + 8 <= i32::MAX as u128 {
        ensure!(e as u64 == n + 8, "summary-short", "{n}+8 bytes needed: returned {e}");
      } else {
        ensure!(e < 0, "summary-short", "{n}+8 bytes needed: returned {e}");
      }
    }
    // random bytes are not a summary
    Some(n) => ensure!(e < 0, "summary-accepted", "{n} random bytes: returned {e}"),
  }
  if e > 0 {
    ensure!(
      d == buf.as_ptr() && l == buf.len(),
      "summary-advance",
      "returned {e} but moved"
    );
  }
  Ok(())
}

fn tasks() -> usize {
  std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

fn session<T: Pixel>(
  s: &mut Src, rep: &mut Report, cfg: &EncoderConfig, speed: u8, nosc: bool,
  threads: usize, v: &Video, plan: &Plan,
) -> CaseResult {
  let opts = options(s, cfg, speed, nosc, threads);
  unsafe {
    let cc = rav1e_config_default();
    ensure!(!cc.is_null(), "config", "no default configuration");
    let noisy = s.chance(1, 2);
    let res = (|| -> CaseResult {
      for (k, val, int) in &opts {
        if noisy && s.chance(1, 3) {
          bad_option(s, cc)?;
        }
        let e = if *int {
          parse_int(cc, k, val.parse().unwrap())
        } else if s.chance(1, 2) && (val == "true" || val == "false") {
          parse_int(cc, k, if val == "true" { s.pick(&[1, 2, -1, 255]) } else { 0 })
        } else {
          parse(cc, k, val)
        };
        ensure!(e == 0, "option-refused", "{k}={val} (int: {int}): {e}");
      }
      if noisy {
        for _ in 0..s.upto(6) {
          bad_option(s, cc)?;
        }
        if s.chance(1, 2) {
          bad_summary(s, cc, None)?;
        }
      }
      ensure!(
        rav1e_config_set_pixel_format(
          cc,
          cfg.bit_depth as u8,
          cfg.chroma_sampling,
          cfg.chroma_sample_position,
          cfg.pixel_range
        ) == 0,
        "option-refused",
        "pixel format"
      );
      if let Some(c) = cfg.color_description {
        ensure!(
          rav1e_config_set_color_description(
            cc,
            c.matrix_coefficients,
            c.color_primaries,
            c.transfer_characteristics
          ) == 0,
          "option-refused",
          "colour description"
        );
      }
      if let Some(c) = cfg.content_light {
        ensure!(
          rav1e_config_set_content_light(
            cc,
            c.max_content_light_level,
            c.max_frame_average_light_level
          ) == 0,
          "option-refused",
          "content light"
        );
      }
      if let Some(m) = &cfg.mastering_display {
        ensure!(
          rav1e_config_set_mastering_display(
            cc,
            m.primaries.as_ptr(),
            m.white_point,
            m.max_luminance,
            m.min_luminance
          ) == 0,
          "option-refused",
          "mastering display"
        );
      }
      rav1e_config_set_time_base(cc, cfg.time_base);
      rav1e_config_set_sample_aspect_ratio(cc, cfg.sample_aspect_ratio);
      Ok(())
    })();
    if let Err(e) = res {
      rav1e_config_unref(cc);
      return Err(e);
    }

    let emit = plan.passes > 0;
    let rust = |rc: RateControlConfig| -> Option<RContext<T>> {
      RConfig::new()
        .with_encoder_config(cfg.clone())
        .with_threads(threads)
        .with_rate_control(rc)
        .new_context()
        .map_err(|e| e.to_string())
        .ok()
    };
    rav1e_config_set_emit_data(cc, if plan.passes == 1 { s.pick(&[1, -1, 7]) } else { 0 });
    let rctx =
      rust(RateControlConfig::new().with_emit_data(plan.passes == 1));
    let cctx = rav1e_context_new(cc);
    if cctx.is_null() != rctx.is_none() {
      fail!(
        "config-verdict",
        "C {}, Rust {}",
        if cctx.is_null() { "refuses" } else { "accepts" },
        if rctx.is_none() { "refuses" } else { "accepts" }
      );
    }
    if cctx.is_null() {
      rep.nontrivial = true;
      rep.tag("rejected");
      rav1e_config_unref(cc);
      return Ok(());
    }
    let mut ss = Session {
      c: cctx,
      r: rctx,
      packets: 0,
      stats: (vec![], vec![]),
      stream: vec![],
      rstats: vec![],
    };
    run_ops(&mut ss, cfg, v, plan, emit, None)?;
    let compared = ss.packets;
    if compared > 0 {
      rep.nontrivial = true;
    }
    let full = matches!(plan.ops.last(), Some(Op::Receive(n)) if *n > 1000);
    // second pass
    if plan.passes > 0 && full && compared > 0 {
      let feed = || Feed {
        passes: plan.passes,
        packets: ss.stats.0.concat(),
        at: 0,
        rpackets: ss.rstats.clone(),
        rat: 0,
        stream: ss.stream.clone(),
        sat: 0,
      };
      let mut rrc = RateControlConfig::new();
      rav1e_config_set_emit_data(cc, 0);
      if plan.passes == 1 {
        ensure!(!ss.stats.1.is_empty(), "rc-receive", "no summary");
        if s.chance(1, 2) {
          bad_summary(s, cc, Some(&ss.stats.1))?;
        }
        let mut b = ss.stats.1.clone();
        let extra = s.us(0, 9);
        b.extend(vec![0x5a; extra]);
        let (mut d, mut l) = (b.as_ptr(), b.len());
        let e = rav1e_config_set_rc_summary(cc, &mut d, &mut l);
        ensure!(
          e == 0 && d == b.as_ptr().add(b.len() - extra) && l == extra,
          "summary-refused",
          "returned {e}, {l} of {} bytes left",
          b.len()
        );
        rrc = match RateControlConfig::from_summary_slice(&ss.stats.1[8..]) {
          Ok(r) => r,
          Err(e) => fail!("summary-refused", "Rust: {e:?}"),
        };
      }
      let rctx = rust(rrc);
      let cctx = rav1e_context_new(cc);
      ensure!(
        cctx.is_null() == rctx.is_none(),
        "config-verdict",
        "second pass: C {cctx:?}"
      );
      if !cctx.is_null() {
        let mut s2 = Session {
          c: cctx,
          r: rctx,
          packets: 0,
          stats: (vec![], vec![]),
          stream: vec![],
          rstats: vec![],
        };
        run_ops(&mut s2, cfg, v, plan, false, Some(feed()))?;
        rep.tag(if plan.passes == 1 { "second pass, packets" } else { "second pass, bytes" });
      }
      // back to one pass
      ensure!(
        rav1e_config_set_rc_summary(cc, null_mut(), null_mut()) == 0,
        "summary-reset",
        "refused"
      );
    }

    // the same calls again leave nothing behind
    if threads == 0 {
      let mut live: Vec<i64> = Vec::with_capacity(8);
      rav1e_config_set_emit_data(cc, (plan.passes == 1) as i32);
      for _ in 0..7 {
        let before = tasks();
        let c = rav1e_context_new(cc);
        ensure!(!c.is_null(), "config-verdict", "refused the second time");
        let mut s3: Session<T> = Session {
          c,
          r: None,
          packets: 0,
          stats: (vec![], vec![]),
          stream: vec![],
          rstats: vec![],
        };
        run_ops(&mut s3, cfg, v, plan, emit, None)?;
        ensure!(
          s3.packets == compared,
          "repeat",
          "{} packets instead of {compared}",
          s3.packets
        );
        drop(s3);
        // the pool's thread ends after the context
        for _ in 0..2000 {
          if tasks() <= before {
            break;
          }
          std::thread::sleep(std::time::Duration::from_millis(1));
        }
        live.push(crate::alloc::live());
        // Memory the thread pool reclaims later can make one run look larger:
        // a leak grows with every run.
        if live.len() >= 2 && live[live.len() - 1] <= live[live.len() - 2] {
          break;
        }
      }
      ensure!(
        live.len() < 7,
        "leak",
        "bytes allocated after each repetition: {live:?}"
      );
      rep.tag("memory");
    }
    rav1e_config_unref(cc);
    // documented no-ops
    rav1e_config_unref(null_mut());
    rav1e_context_unref(null_mut());
    rav1e_frame_unref(null_mut());
    rav1e_packet_unref(null_mut());
    rav1e_data_unref(null_mut());
    let sv = CStr::from_ptr(rav1e_version_short()).to_string_lossy();
    let fv = CStr::from_ptr(rav1e_version_full()).to_string_lossy();
    ensure!(fv.starts_with(sv.as_ref()), "version", "{sv} / {fv}");
  }
  rep.tag(format!("{} pass", plan.passes));
  Ok(())
}

fn run(_idx: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  crate::alloc::ON.store(true, std::sync::atomic::Ordering::SeqCst);
  let passes = s.weighted(&[5, 2, 2]) as u8;
  let lim = Limits {
    max_pixels: 48 * 48,
    max_dim: 128,
    max_frames: 8,
    min_speed: 6,
    bitrate: passes > 0 || s.chance(1, 4),
    still: passes == 0,
    ..Default::default()
  };
  let mut g = gen(s, &lim);
  let d = EncoderConfig::default();
  g.cfg.error_resilient = d.error_resilient;
  g.cfg.film_grain_params = None;
  g.cfg.speed_settings = SpeedSettings::from_preset(g.speed);
  if s.chance(1, 2) {
    g.cfg.speed_settings.rdo_lookahead_frames = s.us(1, 12);
  }
  let nosc = s.chance(1, 3);
  if nosc {
    g.cfg.speed_settings.scene_detection_mode = r::SceneDetectionSpeed::None;
  }
  if passes > 0 && g.cfg.bitrate == 0 {
    g.cfg.bitrate = s.range(10_000, 2_000_000) as i32;
  }
  if s.chance(1, 3) {
    g.cfg.level_idx = Some(s.pick(&[0u8, 1, 4, 5, 8, 9, 12, 13, 16, 2, 6, 19, 20, 23, 31]));
  }
  // sometimes an invalid configuration: both interfaces have to refuse it
  if s.chance(1, 10) {
    match s.upto(6) {
      0 => g.cfg.width = s.pick(&[0, 1, 65536, usize::MAX]),
      1 => g.cfg.height = s.pick(&[0, 65536, usize::MAX]),
      2 => g.cfg.quantizer = s.us(256, 1000),
      3 => g.cfg.tile_cols = s.us(3, 3),
      4 => g.cfg.speed_settings.rdo_lookahead_frames = s.us(1000, 100_000),
      5 => g.cfg.reservoir_frame_delay = Some(s.pick(&[0, 11, -1, 131_073])),
      _ => g.cfg.min_key_frame_interval = g.cfg.max_key_frame_interval.saturating_add(1),
    }
  }
  let threads = s.weighted(&[6, 2, 2]);
  let frames = g.video.frames;
  let mut ops = vec![];
  let recv = |s: &mut Src| Op::Receive(s.us(1, 4));
  if s.chance(1, 3) {
    ops.push(Op::Header);
  }
  let lazy = s.chance(1, 2);
  for t in 0..frames {
    if !lazy || s.chance(1, 4) {
      ops.push(recv(s));
    }
    let reuse = s.weighted(&[6, 1, 1]);
    let mut f = FrameOp {
      t,
      reuse: [None, Some(true), Some(false)][reuse],
      pad: [s.us(0, 3) * s.us(0, 9), s.us(0, 5), s.us(0, 5)],
      extra_rows: if s.chance(1, 6) { s.us(0, 2) } else { 0 },
      ty: if s.chance(1, 5) {
        Some(s.pick(&[FrameTypeOverride::No, FrameTypeOverride::Key]))
      } else {
        None
      },
      opaque: vec![],
      t35: vec![],
      drop: s.chance(1, 12),
      byte1: s.chance(1, 2),
    };
    for _ in 0..s.weighted(&[3, 4, 1]) {
      f.opaque.push(if s.chance(1, 8) { None } else { Some(s.chance(4, 5)) });
    }
    if s.chance(1, 6) {
      for _ in 0..s.us(1, 2) {
        let mut b = s.bytes(20);
        b.push(1);
        f.t35.push((s.upto(255) as u8, s.upto(255) as u8, b));
      }
    }
    ops.push(Op::Send(f.clone()));
    if s.chance(1, 20) {
      ops.push(Op::Header);
    }
    if s.chance(1, 25) && passes == 0 {
      ops.push(Op::Flush);
    }
  }
  match s.weighted(&[6, 1, 1]) {
    // everything
    0 => {
      ops.push(Op::Flush);
      ops.push(Op::Receive(100_000));
    }
    // flush, but leave packets inside
    1 => {
      ops.push(Op::Flush);
      ops.push(recv(s));
    }
    // leave without a flush
    _ => {}
  }
  if s.chance(1, 10) && passes == 0 {
    let f = FrameOp {
      t: 0,
      reuse: None,
      pad: [0; 3],
      extra_rows: 0,
      ty: None,
      opaque: vec![Some(true)],
      t35: vec![],
      drop: false,
      byte1: false,
    };
    ops.push(Op::Send(f));
    ops.push(Op::Receive(100_000));
  }
  let plan = Plan { ops, passes, junk: s.upto(u32::MAX as u64) };
  rep.desc = format!(
    "{} | passes {} threads {threads} level {:?} nosc {nosc} ops {}",
    g.desc,
    plan.passes,
    g.cfg.level_idx,
    plan
      .ops
      .iter()
      .map(|o| match o {
        Op::Send(f) => format!(
          "S{}{}{}{}",
          f.t,
          match f.reuse {
            None => "",
            Some(true) => "r",
            Some(false) => "=",
          },
          if f.opaque.is_empty() { "" } else { "o" },
          if f.drop { "d" } else { "" }
        ),
        Op::Receive(n) => format!("R{n}"),
        Op::Flush => "F".into(),
        Op::Header => "H".into(),
      })
      .collect::<Vec<_>>()
      .join(" ")
  );
  if g.cfg.bit_depth == 8 {
    session::<u8>(s, rep, &g.cfg, g.speed, nosc, threads, &g.video, &plan)
  } else {
    session::<u16>(s, rep, &g.cfg, g.speed, nosc, threads, &g.video, &plan)
  }
}
