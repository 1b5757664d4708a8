//! An independent OBU walker and sequence header parser (AV1 spec, 5.3-5.5).

#[derive(Clone, Debug)]
pub struct Obu {
  pub ty: u8,
  pub payload: Vec<u8>,
}

pub const SEQ: u8 = 1;
pub const TD: u8 = 2;
pub const FRAME_HEADER: u8 = 3;
pub const METADATA: u8 = 5;
pub const FRAME: u8 = 6;

pub fn leb128(d: &[u8]) -> Option<(u64, usize)> {
  let mut v = 0u64;
  for i in 0..8 {
    let b = *d.get(i)?;
    v |= ((b & 0x7f) as u64) << (7 * i);
    if b & 0x80 == 0 {
      return Some((v, i + 1));
    }
  }
  None
}

pub fn walk(d: &[u8]) -> Result<Vec<Obu>, String> {
  let mut out = vec![];
  let mut p = 0;
  while p < d.len() {
    let h = d[p];
    if h & 0x80 != 0 {
      return Err(format!("forbidden bit set at {p}"));
    }
    if h & 1 != 0 {
      return Err(format!("reserved bit set at {p}"));
    }
    if h & 4 != 0 {
      return Err(format!("unexpected OBU extension at {p}"));
    }
    if h & 2 == 0 {
      return Err(format!("OBU without size at {p}"));
    }
    p += 1;
    let (n, k) = leb128(&d[p..]).ok_or("bad leb128")?;
    p += k;
    let n = n as usize;
    if p + n > d.len() {
      return Err(format!("OBU of {n} bytes overruns the packet"));
    }
    out.push(Obu { ty: (h >> 3) & 15, payload: d[p..p + n].to_vec() });
    p += n;
  }
  Ok(out)
}

pub struct Bits<'a> {
  d: &'a [u8],
  pub p: usize,
}

impl<'a> Bits<'a> {
  pub fn new(d: &'a [u8]) -> Self {
    Bits { d, p: 0 }
  }
  pub fn f(&mut self, n: usize) -> Result<u64, String> {
    let mut v = 0;
    for _ in 0..n {
      let b = *self.d.get(self.p / 8).ok_or("ran out of bits")?;
      v = v << 1 | (b >> (7 - self.p % 8) & 1) as u64;
      self.p += 1;
    }
    Ok(v)
  }
  pub fn uvlc(&mut self) -> Result<u64, String> {
    let mut z = 0;
    while self.f(1)? == 0 {
      z += 1;
      if z >= 32 {
        return Ok(u32::MAX as u64);
      }
    }
    Ok(self.f(z)? + (1 << z) - 1)
  }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct SeqHdr {
  pub profile: u8,
  pub still: bool,
  pub reduced: bool,
  pub timing: Option<(u32, u32, bool, u64)>,
  pub level: u8,
  pub tier: u8,
  pub max_w: u32,
  pub max_h: u32,
  pub sb128: bool,
  pub order_hint_bits: u8,
  pub superres: bool,
  pub cdef: bool,
  pub lr: bool,
  pub bit_depth: u8,
  pub mono: bool,
  pub color: Option<(u8, u8, u8)>,
  pub full_range: bool,
  pub ss: (u8, u8),
  pub csp: u8,
  pub film_grain: bool,
}

/// Parses a sequence header OBU, including its trailing bits.
pub fn seq_header(d: &[u8]) -> Result<SeqHdr, String> {
  let mut b = Bits::new(d);
  let mut s = SeqHdr {
    profile: b.f(3)? as u8,
    still: b.f(1)? == 1,
    reduced: b.f(1)? == 1,
    ..Default::default()
  };
  if s.reduced {
    s.level = b.f(5)? as u8;
  } else {
    if b.f(1)? == 1 {
      let (n, t) = (b.f(32)? as u32, b.f(32)? as u32);
      let eq = b.f(1)? == 1;
      let ticks = if eq { b.uvlc()? + 1 } else { 0 };
      s.timing = Some((n, t, eq, ticks));
      if b.f(1)? == 1 {
        return Err("decoder model info not expected".into());
      }
    }
    if b.f(1)? == 1 {
      return Err("initial display delay not expected".into());
    }
    let cnt = b.f(5)?;
    if cnt != 0 {
      return Err("more than one operating point".into());
    }
    if b.f(12)? != 0 {
      return Err("operating point idc not 0".into());
    }
    s.level = b.f(5)? as u8;
    if s.level > 7 {
      s.tier = b.f(1)? as u8;
    }
  }
  let (wb, hb) = (b.f(4)? as usize + 1, b.f(4)? as usize + 1);
  s.max_w = b.f(wb)? as u32 + 1;
  s.max_h = b.f(hb)? as u32 + 1;
  if !s.reduced && b.f(1)? == 1 {
    b.f(7)?;
  }
  s.sb128 = b.f(1)? == 1;
  b.f(2)?; // filter intra, intra edge
  if !s.reduced {
    b.f(4)?; // interintra, masked, warped, dual filter
    let oh = b.f(1)? == 1;
    if oh {
      b.f(2)?;
    }
    let sct = if b.f(1)? == 1 { 2 } else { b.f(1)? };
    if sct > 0 && b.f(1)? == 0 {
      b.f(1)?;
    }
    if oh {
      s.order_hint_bits = b.f(3)? as u8 + 1;
    }
  }
  s.superres = b.f(1)? == 1;
  s.cdef = b.f(1)? == 1;
  s.lr = b.f(1)? == 1;
  let hbd = b.f(1)? == 1;
  s.bit_depth = if s.profile == 2 && hbd {
    if b.f(1)? == 1 {
      12
    } else {
      10
    }
  } else if hbd {
    10
  } else {
    8
  };
  s.mono = s.profile != 1 && b.f(1)? == 1;
  if b.f(1)? == 1 {
    s.color = Some((b.f(8)? as u8, b.f(8)? as u8, b.f(8)? as u8));
  }
  let srgb = s.color == Some((1, 13, 0));
  if s.mono {
    s.full_range = b.f(1)? == 1;
    s.ss = (1, 1);
  } else if srgb {
    s.full_range = true;
    b.f(1)?; // separate uv delta q
  } else {
    s.full_range = b.f(1)? == 1;
    s.ss = match s.profile {
      0 => (1, 1),
      1 => (0, 0),
      _ if s.bit_depth == 12 => {
        let x = b.f(1)? as u8;
        (x, if x == 1 { b.f(1)? as u8 } else { 0 })
      }
      _ => (1, 0),
    };
    if s.ss == (1, 1) {
      s.csp = b.f(2)? as u8;
    }
    b.f(1)?;
  }
  s.film_grain = b.f(1)? == 1;
  // trailing bits
  if b.f(1)? != 1 {
    return Err("trailing bit missing".into());
  }
  while b.p % 8 != 0 {
    if b.f(1)? != 0 {
      return Err("trailing bits not zero".into());
    }
  }
  if b.p != d.len() * 8 {
    return Err(format!("{} bytes after the trailing bits", d.len() - b.p / 8));
  }
  Ok(s)
}

/// (show_existing, frame type 0..3, show_frame) from the start of a frame
/// header.
pub fn frame_start(d: &[u8], reduced: bool) -> Result<(bool, u8, bool), String> {
  if reduced {
    return Ok((false, 0, true));
  }
  let mut b = Bits::new(d);
  if b.f(1)? == 1 {
    return Ok((true, 0, true));
  }
  Ok((false, b.f(2)? as u8, b.f(1)? == 1))
}

/// Removes the trailing bits of a metadata OBU and returns (type, content).
pub fn metadata(d: &[u8]) -> Result<(u64, Vec<u8>), String> {
  let (t, k) = leb128(d).ok_or("bad metadata type")?;
  let mut v = d[k..].to_vec();
  while v.last() == Some(&0) {
    v.pop();
  }
  if v.pop() != Some(0x80) {
    return Err("metadata OBU without trailing bits".into());
  }
  Ok((t, v))
}
