//! C16: the distortion is bounded by the quantizer.
use crate::checks::c04::{content, TXS};
use crate::dec::{Dav1d, Img};
use crate::enc::*;
use crate::engine::*;
use crate::src::Src;
use crate::{ensure, fail};
use rav1e::bench::cpu_features::CpuFeatureLevel;
use rav1e::bench::frame::AsRegion;
use rav1e::bench::quantize::{ac_q, dc_q, dequantize, QuantizationContext};
use rav1e::bench::tiling::Area;
use rav1e::bench::transform::*;
use rav1e::bench::util::{Aligned, Pixel};
use rav1e::prelude::{CastFromPrimitive, Config, Plane};
use std::mem::MaybeUninit;

pub static CHECK: Check = Check {
  id: "C16",
  rule: "One case = either (a) a generated configuration and clip, encoded; for each plane of each reconstruction the mean squared error to the source is compared with the square of the coarsest quantizer step the frame header allows (read by dav1d); or (b) random residuals of every transform size and type taken through forward transform, quantizer, inverse quantizer and inverse transform, each stage within its bound. Non-trivial: (a) at least one frame with an error above zero was compared, (b) blocks with at least one non-zero coefficient.",
  assumptions: &[
    "the bounds are about twice the largest value seen in 20000 calibration cases (and at least ten times the 99th percentile): empirical bounds, not ones derived from the rate-distortion search, so that small losses of quality are not seen",
  ],
  cases: |t| if t == Tier::Quick { 5000 } else { 150_000 },
  run,
  workers: 8,
  env: &[],
  panic_is_violation: true,
};

fn mse(a: &Img, b: &Img, p: usize) -> f64 {
  let n = a.planes[p].2.len().max(1);
  let s: f64 = a.planes[p]
    .2
    .iter()
    .zip(&b.planes[p].2)
    .map(|(x, y)| {
      let d = *x as f64 - *y as f64;
      d * d
    })
    .sum();
  s / n as f64
}

fn encode_case(s: &mut Src, rep: &mut Report) -> CaseResult {
  let slow = s.chance(1, 8);
  let lim = Limits {
    max_pixels: if slow { 64 * 64 } else { 96 * 96 },
    max_dim: 256,
    max_frames: if slow { 3 } else { 9 },
    min_speed: if slow { 0 } else { 6 },
    bitrate: s.chance(1, 4),
    ..Default::default()
  };
  let g = gen(s, &lim);
  rep.desc = g.desc.clone();
  let config =
    Config::new().with_encoder_config(g.cfg.clone()).with_threads(1);
  let pk = encode_any(&config, &g.cfg, &g.video)?;
  ensure!(
    pk.len() == g.video.frames,
    "packet-count",
    "{} packets for {} frames",
    pk.len(),
    g.video.frames
  );
  let bd = g.cfg.bit_depth;
  let mut d = Dav1d::new(false, false);
  for (i, p) in pk.iter().enumerate() {
    let pics = d
      .packet(&p.data)
      .map_err(|e| Fail::new("decode", format!("packet {i}: {e}")))?;
    ensure!(pics.len() == 1, "decode", "packet {i}: {} pictures", pics.len());
    let h = match &pics[0].hdr.frame {
      Some(h) => h,
      None => fail!("no-header", "packet {i}"),
    };
    ensure!(
      h.quant.yac == p.qp,
      "reported-quantizer",
      "packet {i}: base_q_idx {}, reported {}",
      h.quant.yac,
      p.qp
    );
    // the decoded picture, so that a wrong `rec` cannot hide an error
    let rec = &pics[0].img;
    let src = g.video.image(p.input_frameno as usize);
    let mut worst = h.quant.yac as i32;
    if h.segmentation.enabled != 0 {
      for sd in &h.segmentation.seg_data.d {
        worst = worst.max(h.quant.yac as i32 + sd.delta_q as i32);
      }
    }
    let worst = worst.clamp(0, 255) as u8;
    for pl in 0..rec.planes.len() {
      let (dd, ad) = match pl {
        0 => (h.quant.ydc_delta, 0),
        1 => (h.quant.udc_delta, h.quant.uac_delta),
        _ => (h.quant.vdc_delta, h.quant.vac_delta),
      };
      let step = dc_q(worst, dd, bd).get().max(ac_q(worst, ad, bd).get())
        as f64
        / 8.0;
      let m = mse(&src, rec, pl);
      if m > 0.0 {
        rep.nontrivial = true;
      }
      let bound = 6.0 * step * step + floor(bd);
      ensure!(
        m <= bound,
        "distortion",
        "packet {i} ({:?}) plane {pl}: mean squared error {m:.2} with quantizer step {step:.2} (index {}, bound {bound:.2})",
        p.frame_type,
        p.qp
      );
    }
  }
  rep.tag("encode");
  Ok(())
}

/// Rounding of the high bit depth transforms, independent of the quantizer.
fn floor(bd: usize) -> f64 {
  match bd {
    8 => 8.0,
    10 => 16.0,
    _ => 40.0,
  }
}

fn blocks<T: Pixel>(s: &mut Src, bd: usize, rep: &mut Report) -> CaseResult {
  let cpu = CpuFeatureLevel::default();
  for _ in 0..20 {
    let tx = s.pick(&TXS);
    let (w, h) = (tx.width(), tx.height());
    let (cw, ch) = (w.min(32), h.min(32));
    let ty = s.pick(get_valid_txfm_types(tx));
    let style = s.upto(5);
    let mut r = s.bulk();
    let half = 1i64 << (bd - 1);
    let amp = (half >> s.upto(bd as u64 - 2)).max(2);
    let gen: Vec<i64> = (0..w * h)
      .map(|i| {
        let v = content(style, &mut r, 2 * half as u64 - 1, i, w) as i64 - half;
        v * amp / half
      })
      .collect();
    let mut resid: Vec<i16> = gen.iter().map(|v| *v as i16).collect();
    let fwd = |x: &[i16]| -> Vec<T::Coeff> {
      let mut out: Aligned<[MaybeUninit<T::Coeff>; 64 * 64]> =
        Aligned::new([MaybeUninit::zeroed(); 64 * 64]);
      forward_transform(x, &mut out.data[..w * h], w, tx, ty, bd, cpu);
      out.data[..cw * ch].iter().map(|v| unsafe { v.assume_init() }).collect()
    };
    let base = T::cast_from(half as u16);
    let inv = |c: &[T::Coeff]| -> Vec<i16> {
      let mut p = Plane::<T>::new(w, h, 0, 0, 0, 0);
      p.data.iter_mut().for_each(|v| *v = base);
      let mut a: Aligned<[MaybeUninit<T::Coeff>; 1024]> =
        Aligned::new([MaybeUninit::zeroed(); 1024]);
      for (d, v) in a.data.iter_mut().zip(c) {
        d.write(*v);
      }
      let a: &[T::Coeff] = unsafe {
        std::slice::from_raw_parts(a.data.as_ptr() as *const T::Coeff, cw * ch)
      };
      inverse_transform_add(
        a,
        &mut p.region_mut(Area::Rect { x: 0, y: 0, width: w, height: h }),
        (cw * ch) as u16,
        tx,
        ty,
        bd,
        cpu,
      );
      p.as_region()
        .rows_iter()
        .take(h)
        .flat_map(|r| r[..w].to_vec())
        .map(|v| i16::cast_from(v) - half as i16)
        .collect()
    };
    let what = format!("{tx:?} {ty:?} {bd}-bit ({}-byte) residual style {style} up to {amp}", std::mem::size_of::<T>());
    let mut co = fwd(&resid);
    let mut back = inv(&co);
    let big = w.max(h) > 32;
    if big {
      // only the lower half of the frequencies is kept: from here on, start
      // from a residual that has no others
      if back.iter().any(|v| (*v as i64).abs() >= half - 1) {
        continue;
      }
      resid = back.clone();
      co = fwd(&resid);
      back = inv(&co);
    }
    let err = resid.iter().zip(&back).map(|(a, b)| (*a as i32 - *b as i32).abs()).max().unwrap_or(0);
    let sq: f64 = resid.iter().zip(&back).map(|(a, b)| ((*a as f64) - (*b as f64)).powi(2)).sum::<f64>() / (w * h) as f64;
    let (me, ms) = match bd {
      8 => (6, 0.5),
      10 => (8, 0.8),
      _ => (14, 5.0),
    };
    ensure!(
      err <= me && sq <= ms,
      "transform",
      "{what}: forward and inverse transform differ by up to {err}, mean squared {sq:.2}"
    );
    let i32c: Vec<i32> = co.iter().map(|v| i32::cast_from(*v)).collect();
    if i32c.iter().any(|v| *v != 0) {
      rep.nontrivial = true;
    }

    if ty == TxType::WHT_WHT {
      // lossless coding is not supported
      continue;
    }

    // quantizer
    let q = s.range(1, 255) as u8;
    let (dd, ad) = if s.chance(1, 3) {
      (s.i(-20, 20) as i8, s.i(-20, 20) as i8)
    } else {
      (0, 0)
    };
    let intra = s.chance(1, 2);
    let mut qc = QuantizationContext::default();
    qc.update(q, tx, intra, bd, dd, ad);
    let mut qa: Aligned<[T::Coeff; 1024]> =
      Aligned::new([T::Coeff::cast_from(0); 1024]);
    let eob = qc.quantize(&co, &mut qa.data[..cw * ch], tx, ty);
    let mut dq: Aligned<[MaybeUninit<T::Coeff>; 1024]> =
      Aligned::new([MaybeUninit::zeroed(); 1024]);
    dequantize(q, &qa.data[..cw * ch], eob, &mut dq.data[..cw * ch], tx, bd, dd, ad, cpu);
    let dq: Vec<T::Coeff> =
      dq.data[..cw * ch].iter().map(|v| unsafe { v.assume_init() }).collect();
    let sh = rav1e::bench::quantize::get_log_tx_scale(tx);
    let nz = qa.data[..cw * ch].iter().filter(|v| i32::cast_from(**v) != 0).count();
    ensure!(
      (eob == 0) == (nz == 0) && nz <= eob as usize,
      "eob",
      "{what}: quantizer {q}: end of block {eob} with {nz} coefficients"
    );
    for (i, (a, b)) in i32c.iter().zip(&dq).enumerate() {
      let b = i32::cast_from(*b);
      let step = if i == 0 { dc_q(q, dd, bd) } else { ac_q(q, ad, bd) }.get() as i64;
      let e = ((*a as i64 - b as i64).abs()) << sh;
      ensure!(
        e <= step + (1 << sh) && (b == 0 || (b > 0) == (*a > 0)),
        "quantizer",
        "{what}: quantizer {q} {dd}/{ad}: coefficient {i} of {a} becomes {b} (step {step} >> {sh})"
      );
    }
    let out = inv(&dq);
    let m: f64 = resid.iter().zip(&out).map(|(a, b)| ((*a as f64) - (*b as f64)).powi(2)).sum::<f64>() / (w * h) as f64;
    let step = dc_q(q, dd, bd).get().max(ac_q(q, ad, bd).get()) as f64 / 8.0;
    ensure!(
      m <= step * step + 2.0 * ms + 4.0,
      "block-distortion",
      "{what}: quantizer {q} {dd}/{ad}: mean squared error {m:.2} (step {step:.2})"
    );
  }
  rep.tag(format!("blocks {bd}-bit"));
  Ok(())
}

fn run(_: u64, s: &mut Src, rep: &mut Report) -> CaseResult {
  if s.chance(3, 4) {
    encode_case(s, rep)
  } else {
    match s.upto(3) {
      0 => blocks::<u8>(s, 8, rep),
      1 => blocks::<u16>(s, 10, rep),
      2 => blocks::<u16>(s, 12, rep),
      _ => blocks::<u16>(s, 8, rep),
    }
  }
}
