//! Independent decoders (system dav1d and libaom) used as oracles.

use dav1d_sys as d;
use std::mem::MaybeUninit;
use std::os::raw::c_int;
use std::ptr;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Img {
  pub w: usize,
  pub h: usize,
  pub bit_depth: usize,
  /// 1 or 3 planes, rows concatenated without padding.
  pub planes: Vec<(usize, usize, Vec<u16>)>,
}

impl Img {
  /// First difference, if any.
  pub fn diff(&self, o: &Img) -> Option<String> {
    if (self.w, self.h, self.planes.len()) != (o.w, o.h, o.planes.len()) {
      return Some(format!(
        "size {}x{}/{} planes vs {}x{}/{} planes",
        self.w,
        self.h,
        self.planes.len(),
        o.w,
        o.h,
        o.planes.len()
      ));
    }
    for (p, (a, b)) in self.planes.iter().zip(&o.planes).enumerate() {
      if (a.0, a.1) != (b.0, b.1) {
        return Some(format!(
          "plane {p} is {}x{} vs {}x{}",
          a.0, a.1, b.0, b.1
        ));
      }
      if a.2 != b.2 {
        let i = a.2.iter().zip(&b.2).position(|(x, y)| x != y).unwrap();
        let n = a.2.iter().zip(&b.2).filter(|(x, y)| x != y).count();
        return Some(format!(
          "plane {p} differs in {n} samples, first at x={} y={}: {} vs {}",
          i % a.0,
          i / a.0,
          a.2[i],
          b.2[i]
        ));
      }
    }
    None
  }
}

#[derive(Clone, Default)]
pub struct Hdr {
  pub seq: Option<Box<d::Dav1dSequenceHeader>>,
  pub frame: Option<Box<d::Dav1dFrameHeader>>,
  pub content_light: Option<(u16, u16)>,
  pub mastering: Option<([[u16; 2]; 3], [u16; 2], u32, u32)>,
  pub t35: Vec<(u8, u8, Vec<u8>)>,
}

pub struct Dav1d {
  ctx: *mut d::Dav1dContext,
}

pub struct DPic {
  pub img: Img,
  pub hdr: Hdr,
}

impl Dav1d {
  pub fn new(grain: bool, invisible: bool) -> Dav1d {
    Self::with(grain, invisible, true)
  }

  pub fn with(grain: bool, invisible: bool, strict: bool) -> Dav1d {
    unsafe {
      let mut s = MaybeUninit::<d::Dav1dSettings>::uninit();
      d::dav1d_default_settings(s.as_mut_ptr());
      let mut s = s.assume_init();
      s.n_threads = 1;
      s.max_frame_delay = 1;
      s.apply_grain = grain as c_int;
      s.strict_std_compliance = strict as c_int;
      s.output_invisible_frames = invisible as c_int;
      s.logger.callback = None;
      let mut ctx = ptr::null_mut();
      let r = d::dav1d_open(&mut ctx, &s);
      assert_eq!(r, 0, "dav1d_open");
      Dav1d { ctx }
    }
  }

  /// Feeds one packet and returns the pictures it produced.
  pub fn packet(&mut self, data: &[u8]) -> Result<Vec<DPic>, String> {
    let mut out = vec![];
    unsafe {
      let mut dd: d::Dav1dData = std::mem::zeroed();
      let p = d::dav1d_data_create(&mut dd, data.len());
      assert!(!p.is_null());
      ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
      while dd.sz > 0 {
        let r = d::dav1d_send_data(self.ctx, &mut dd);
        if r != 0 && r != d::DAV1D_ERR_AGAIN {
          d::dav1d_data_unref(&mut dd);
          return Err(format!("dav1d_send_data returned {r}"));
        }
        let n = out.len();
        self.drain(&mut out)?;
        if r == d::DAV1D_ERR_AGAIN && out.len() == n {
          d::dav1d_data_unref(&mut dd);
          return Err("dav1d made no progress".into());
        }
      }
      self.drain(&mut out)?;
    }
    Ok(out)
  }

  fn drain(&mut self, out: &mut Vec<DPic>) -> Result<(), String> {
    unsafe {
      loop {
        let mut pic: d::Dav1dPicture = std::mem::zeroed();
        let r = d::dav1d_get_picture(self.ctx, &mut pic);
        if r == d::DAV1D_ERR_AGAIN {
          return Ok(());
        }
        if r != 0 {
          return Err(format!("dav1d_get_picture returned {r}"));
        }
        out.push(conv(&pic));
        d::dav1d_picture_unref(&mut pic);
      }
    }
  }
}

unsafe fn conv(pic: &d::Dav1dPicture) -> DPic {
  let (w, h) = (pic.p.w as usize, pic.p.h as usize);
  let bpc = pic.p.bpc as usize;
  let (np, xd, yd) = match pic.p.layout {
    d::Dav1dPixelLayout::DAV1D_PIXEL_LAYOUT_I400 => (1, 0, 0),
    d::Dav1dPixelLayout::DAV1D_PIXEL_LAYOUT_I420 => (3, 1, 1),
    d::Dav1dPixelLayout::DAV1D_PIXEL_LAYOUT_I422 => (3, 1, 0),
    _ => (3, 0, 0),
  };
  let mut planes = vec![];
  for p in 0..np {
    let (pw, ph) = if p == 0 {
      (w, h)
    } else {
      ((w + xd) >> xd, (h + yd) >> yd)
    };
    let stride = pic.stride[(p > 0) as usize];
    let mut v = Vec::with_capacity(pw * ph);
    for y in 0..ph {
      let row = (pic.data[p] as *const u8).offset(stride * y as isize);
      if bpc > 8 {
        v.extend_from_slice(std::slice::from_raw_parts(row as *const u16, pw));
      } else {
        v.extend(
          std::slice::from_raw_parts(row, pw).iter().map(|&b| b as u16),
        );
      }
    }
    planes.push((pw, ph, v));
  }
  let mut hdr = Hdr::default();
  if !pic.seq_hdr.is_null() {
    hdr.seq = Some(Box::new(ptr::read(pic.seq_hdr)));
  }
  if !pic.frame_hdr.is_null() {
    hdr.frame = Some(Box::new(ptr::read(pic.frame_hdr)));
  }
  if !pic.content_light.is_null() {
    let c = &*pic.content_light;
    hdr.content_light =
      Some((c.max_content_light_level, c.max_frame_average_light_level));
  }
  if !pic.mastering_display.is_null() {
    let m = &*pic.mastering_display;
    hdr.mastering =
      Some((m.primaries, m.white_point, m.max_luminance, m.min_luminance));
  }
  for i in 0..pic.n_itut_t35 {
    let t = &*pic.itut_t35.add(i);
    hdr.t35.push((
      t.country_code,
      t.country_code_extension_byte,
      if t.payload_size == 0 {
        vec![]
      } else {
        std::slice::from_raw_parts(t.payload, t.payload_size).to_vec()
      },
    ));
  }
  DPic { img: Img { w, h, bit_depth: bpc, planes }, hdr }
}

impl Drop for Dav1d {
  fn drop(&mut self) {
    unsafe { d::dav1d_close(&mut self.ctx) };
  }
}

pub struct Aom {
  ctx: Box<aom_sys::aom_codec_ctx>,
}

impl Aom {
  pub fn new(grain: bool) -> Aom {
    use aom_sys::*;
    unsafe {
      let cfg =
        aom_codec_dec_cfg_t { threads: 1, w: 0, h: 0, allow_lowbitdepth: 1 };
      let mut ctx = Box::new(std::mem::zeroed::<aom_codec_ctx>());
      let r = aom_codec_dec_init_ver(
        &mut *ctx,
        aom_codec_av1_dx(),
        &cfg,
        0,
        AOM_DECODER_ABI_VERSION as i32,
      );
      assert_eq!(r as i32, 0, "aom_codec_dec_init");
      let skip: c_int = (!grain) as c_int;
      let r = aom_codec_control(
        &mut *ctx,
        aom_dec_control_id::AV1D_SET_SKIP_FILM_GRAIN as c_int,
        skip,
      );
      assert_eq!(r as i32, 0, "AV1D_SET_SKIP_FILM_GRAIN");
      Aom { ctx }
    }
  }

  pub fn packet(&mut self, data: &[u8]) -> Result<Vec<Img>, String> {
    use aom_sys::*;
    let mut out = vec![];
    unsafe {
      let r = aom_codec_decode(
        &mut *self.ctx,
        data.as_ptr(),
        data.len(),
        ptr::null_mut(),
      );
      if r as i32 != 0 {
        let det = aom_codec_error_detail(&mut *self.ctx);
        let det = if det.is_null() {
          String::new()
        } else {
          std::ffi::CStr::from_ptr(det).to_string_lossy().to_string()
        };
        return Err(format!("aom_codec_decode returned {}: {det}", r as i32));
      }
      let mut iter = ptr::null();
      loop {
        let img = aom_codec_get_frame(
          &mut *self.ctx,
          &mut iter as *mut _ as *mut aom_codec_iter_t,
        );
        if img.is_null() {
          break;
        }
        let img = &*img;
        let (w, h) = (img.d_w as usize, img.d_h as usize);
        let hi = (img.fmt as u32) & 0x800 != 0;
        let np = if img.monochrome != 0 { 1 } else { 3 };
        let mut planes = vec![];
        for p in 0..np {
          let (pw, ph) = if p == 0 {
            (w, h)
          } else {
            let (xd, yd) =
              (img.x_chroma_shift as usize, img.y_chroma_shift as usize);
            ((w + xd) >> xd, (h + yd) >> yd)
          };
          let mut v = Vec::with_capacity(pw * ph);
          for y in 0..ph {
            let row =
              img.planes[p].offset(img.stride[p] as isize * y as isize);
            if hi {
              v.extend_from_slice(std::slice::from_raw_parts(
                row as *const u16,
                pw,
              ));
            } else {
              v.extend(
                std::slice::from_raw_parts(row, pw).iter().map(|&b| b as u16),
              );
            }
          }
          planes.push((pw, ph, v));
        }
        out.push(Img { w, h, bit_depth: img.bit_depth as usize, planes });
      }
    }
    Ok(out)
  }
}

impl Drop for Aom {
  fn drop(&mut self) {
    unsafe { aom_sys::aom_codec_destroy(&mut *self.ctx) };
  }
}
