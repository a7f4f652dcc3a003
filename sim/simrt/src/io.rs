//! Simulated caller-supplied objects: writers, random sources, hashers, serialization formats.

use crate::alloc::Harness;
use crate::prng::{Digest, Prng};
use crate::sched::{yield_point, Y_CALL};
use crate::CallerPanic;
use std::fmt;

/// Every call of caller-supplied code starts here: another thread may go on, and the caller's code
/// may itself use the library.
fn call_point() {
    yield_point(Y_CALL);
    crate::nest();
}

pub const HOW_ERR: u8 = 1;
pub const HOW_PANIC: u8 = 2;

// ---- writer ----------------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct SimWriter {
    pub got: String,
    /// bytes accepted before the failure
    pub cap: Option<usize>,
    /// fail at this call instead
    pub call_cap: Option<u64>,
    /// the failing call accepts what still fits
    pub partial: bool,
    pub how: u8,
    pub calls: u64,
    pub failed: bool,
    pub after: u64,
}

impl SimWriter {
    fn fail(&mut self) -> fmt::Result {
        self.failed = true;
        if self.how == HOW_PANIC {
            std::panic::panic_any(CallerPanic(self.calls));
        }
        Err(fmt::Error)
    }
}

impl fmt::Write for SimWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        call_point();
        let _h = Harness::new();
        self.calls += 1;
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if let Some(c) = self.call_cap {
            if self.calls > c {
                return self.fail();
            }
        }
        if let Some(cap) = self.cap {
            if self.got.len() + s.len() > cap {
                if self.partial {
                    let mut n = cap - self.got.len();
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    self.got.push_str(&s[..n]);
                }
                return self.fail();
            }
        }
        self.got.push_str(s);
        Ok(())
    }
}

// ---- random source ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct SimRng {
    /// 0 fair, 1 constant, 2 cycle through the pool, 3 random picks from the pool, 4 fair but
    /// sometimes from the pool
    pub mode: u8,
    pub prng: Prng,
    pub pool64: Vec<u64>,
    pub pool32: Vec<u32>,
    pub bytes: u8,
    /// calls after which the source is fair
    pub stuck: u64,
    pub fail_at: Option<u64>,
    pub how: u8,
    pub calls: u64,
    pub fair_calls: u64,
    pub fair_cap: u64,
    pub runaway: bool,
    pub fired: bool,
    pub log: Digest,
}

impl SimRng {
    pub fn fair(seed: u64) -> SimRng {
        SimRng {
            mode: 0,
            prng: Prng::split(seed, 0x4242),
            pool64: vec![0],
            pool32: vec![0],
            bytes: 0,
            stuck: 0,
            fail_at: None,
            how: 0,
            calls: 0,
            fair_calls: 0,
            fair_cap: 20_000,
            runaway: false,
            fired: false,
            log: Digest::new(),
        }
    }
    /// true: use the biased stream for this call
    fn tick(&mut self, can_err: bool) -> Result<bool, rand::Error> {
        self.calls += 1;
        if self.fail_at == Some(self.calls - 1) {
            if self.how == HOW_PANIC || can_err {
                self.fired = true;
            }
            if self.how == HOW_PANIC {
                std::panic::panic_any(CallerPanic(self.calls));
            }
            if can_err {
                return Err(rand::Error::from(core::num::NonZeroU32::new(0xC0000001).unwrap()));
            }
            // an infallible method: the next fallible call fails instead
            self.fail_at = Some(self.calls);
        }
        let biased = self.mode != 0 && self.calls <= self.stuck;
        if !biased {
            self.fair_calls += 1;
            if self.fair_calls > self.fair_cap {
                self.runaway = true;
                std::panic::panic_any(CallerPanic(u64::MAX));
            }
        }
        Ok(biased && (self.mode != 4 || self.prng.chance(1, 2)))
    }
    fn idx(&mut self, n: usize) -> usize {
        match self.mode {
            1 => 0,
            2 => (self.calls - 1) as usize % n,
            _ => self.prng.usize(n),
        }
    }
}

impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        call_point();
        let _h = Harness::new();
        let x = if self.tick(false).unwrap_or(false) {
            let i = self.idx(self.pool32.len());
            self.pool32[i]
        } else {
            (self.prng.u64() >> 16) as u32
        };
        self.log.add(x as u64);
        x
    }
    fn next_u64(&mut self) -> u64 {
        call_point();
        let _h = Harness::new();
        let x = if self.tick(false).unwrap_or(false) {
            let i = self.idx(self.pool64.len());
            self.pool64[i]
        } else {
            self.prng.u64()
        };
        self.log.add(x);
        x
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if self.try_fill_bytes(dest).is_err() {
            // the documented way for fill_bytes to report an error is a panic
            std::panic::panic_any(CallerPanic(self.calls));
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        call_point();
        let _h = Harness::new();
        if self.tick(true)? {
            match self.mode {
                1 => dest.fill(self.bytes),
                _ => {
                    let mut i = 0;
                    while i < dest.len() {
                        let k = self.idx(self.pool64.len());
                        let w = self.pool64[k].to_le_bytes();
                        let n = (dest.len() - i).min(8);
                        dest[i..i + n].copy_from_slice(&w[..n]);
                        i += n;
                    }
                }
            }
        } else {
            for c in dest.chunks_mut(8) {
                let w = self.prng.u64().to_le_bytes();
                c.copy_from_slice(&w[..c.len()]);
            }
        }
        self.log.bytes(dest);
        Ok(())
    }
}

// ---- hasher ----------------------------------------------------------------------------------

pub struct SimHasher {
    pub d: Digest,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub fired: bool,
}
impl SimHasher {
    pub fn new() -> SimHasher {
        SimHasher { d: Digest::new(), calls: 0, fail_at: None, fired: false }
    }
}
impl Default for SimHasher {
    fn default() -> Self {
        Self::new()
    }
}
impl std::hash::Hasher for SimHasher {
    fn finish(&self) -> u64 {
        self.d.0
    }
    fn write(&mut self, b: &[u8]) {
        call_point();
        let _h = Harness::new();
        if self.fail_at == Some(self.calls) {
            self.fired = true;
            std::panic::panic_any(CallerPanic(self.calls));
        }
        self.calls += 1;
        self.d.bytes(b);
    }
}

// ---- serialization formats ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SimErr {
    Eof,
    Syntax(&'static str),
    Injected(u64),
    Custom(String),
    Trailing,
}
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for SimErr {}
impl serde::ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        let _h = Harness::new();
        SimErr::Custom(m.to_string())
    }
}
impl serde::de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        let _h = Harness::new();
        SimErr::Custom(m.to_string())
    }
}

pub const FORMATS: u8 = 4;
/// 0 length-prefixed binary, 1 self-delimiting tagged, 2 text, 3 compact variable-length

pub struct SimSer<'a> {
    pub fmt: u8,
    pub out: &'a mut Vec<u8>,
    pub st: &'a mut SerState,
}
#[derive(Clone, Debug, Default)]
pub struct SerState {
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub how: u8,
    pub failed: bool,
    pub after: u64,
    pub announced: Vec<Option<usize>>,
    pub elements: u64,
    pub unknown: u64,
}

fn varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}

impl<'a> SimSer<'a> {
    fn call(&mut self) -> Result<(), SimErr> {
        if self.st.failed {
            self.st.after += 1;
            return Err(SimErr::Injected(u64::MAX));
        }
        let n = self.st.calls;
        self.st.calls += 1;
        if self.st.fail_at == Some(n) {
            self.st.failed = true;
            if self.st.how == HOW_PANIC {
                std::panic::panic_any(CallerPanic(n));
            }
            return Err(SimErr::Injected(n));
        }
        Ok(())
    }
    fn re(&mut self) -> SimSer<'_> {
        SimSer { fmt: self.fmt, out: self.out, st: self.st }
    }
    fn num(&mut self, x: u64) {
        match self.fmt {
            0 => self.out.extend_from_slice(&x.to_le_bytes()),
            1 => {
                self.out.push(0x1b);
                self.out.extend_from_slice(&x.to_le_bytes())
            }
            2 => self.out.extend_from_slice(x.to_string().as_bytes()),
            _ => varint(self.out, x),
        }
    }
}

pub struct SimSeq<'a> {
    s: SimSer<'a>,
    n: u64,
    announced: Option<usize>,
    len_at: usize,
    tuple: bool,
}

macro_rules! unsupported {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => {$(
        fn $f(mut self, $(_: $t),*) -> Result<$r, SimErr> {
            self.st.unknown += 1;
            self.call()?;
            Err(SimErr::Syntax("unexpected serializer call"))
        }
    )*};
}

impl<'a> serde::Serializer for SimSer<'a> {
    type Ok = ();
    type Error = SimErr;
    type SerializeSeq = SimSeq<'a>;
    type SerializeTuple = SimSeq<'a>;
    type SerializeTupleStruct = serde::ser::Impossible<(), SimErr>;
    type SerializeTupleVariant = serde::ser::Impossible<(), SimErr>;
    type SerializeMap = serde::ser::Impossible<(), SimErr>;
    type SerializeStruct = serde::ser::Impossible<(), SimErr>;
    type SerializeStructVariant = serde::ser::Impossible<(), SimErr>;

    fn serialize_u64(mut self, x: u64) -> Result<(), SimErr> {
        call_point();
        let _h = Harness::new();
        self.call()?;
        self.st.elements += 1;
        self.num(x);
        Ok(())
    }
    fn serialize_seq(mut self, len: Option<usize>) -> Result<SimSeq<'a>, SimErr> {
        call_point();
        let _h = Harness::new();
        self.call()?;
        self.st.announced.push(len);
        let len_at = self.out.len();
        match self.fmt {
            0 => self.out.extend_from_slice(&(len.unwrap_or(0) as u64).to_le_bytes()),
            1 => self.out.push(0x9f),
            2 => self.out.push(b'['),
            _ => varint(self.out, len.unwrap_or(0) as u64),
        }
        Ok(SimSeq { s: self, n: 0, announced: len, len_at, tuple: false })
    }
    fn serialize_tuple(mut self, len: usize) -> Result<SimSeq<'a>, SimErr> {
        call_point();
        let _h = Harness::new();
        self.call()?;
        match self.fmt {
            1 => self.out.push(0x80 | len as u8),
            2 => self.out.push(b'['),
            _ => {}
        }
        let len_at = self.out.len();
        Ok(SimSeq { s: self, n: 0, announced: Some(len), len_at, tuple: true })
    }
    fn serialize_unit_variant(mut self, _: &'static str, i: u32, name: &'static str) -> Result<(), SimErr> {
        call_point();
        let _h = Harness::new();
        self.call()?;
        match self.fmt {
            0 => self.out.extend_from_slice(&i.to_le_bytes()),
            1 => {
                self.out.push(0x60 | name.len() as u8);
                self.out.extend_from_slice(name.as_bytes());
            }
            2 => {
                self.out.push(b'"');
                self.out.extend_from_slice(name.as_bytes());
                self.out.push(b'"');
            }
            _ => self.out.push(i as u8),
        }
        Ok(())
    }
    fn is_human_readable(&self) -> bool {
        self.fmt == 2
    }
    unsupported! {
        serialize_bool(bool) -> (); serialize_i8(i8) -> (); serialize_i16(i16) -> (); serialize_i32(i32) -> ();
        serialize_i64(i64) -> (); serialize_u8(u8) -> (); serialize_u16(u16) -> (); serialize_u32(u32) -> ();
        serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_str(&str) -> ();
        serialize_bytes(&[u8]) -> (); serialize_none() -> (); serialize_unit() -> (); serialize_unit_struct(&'static str) -> ();
        serialize_map(Option<usize>) -> Self::SerializeMap;
        serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
        serialize_struct(&'static str, usize) -> Self::SerializeStruct;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), SimErr> {
        Err(SimErr::Syntax("unexpected serializer call"))
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<(), SimErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<(), SimErr> {
        Err(SimErr::Syntax("unexpected serializer call"))
    }
}

impl SimSeq<'_> {
    fn elem<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        {
            let _h = Harness::new();
            if self.n > 0 && self.s.fmt == 2 && !self.s.st.failed {
                self.s.out.push(b',');
            }
            self.n += 1;
        }
        v.serialize(self.s.re())
    }
    fn finish(mut self) -> Result<(), SimErr> {
        call_point();
        let _h = Harness::new();
        self.s.call()?;
        if !self.tuple && self.s.fmt == 0 && self.announced.is_none() {
            // length not announced: patched in afterwards
            let n = self.n.to_le_bytes();
            self.s.out[self.len_at..self.len_at + 8].copy_from_slice(&n);
        } else if self.announced.is_some_and(|a| a as u64 != self.n) {
            return Err(SimErr::Syntax("length announced differs from elements written"));
        }
        match (self.s.fmt, self.tuple) {
            (1, false) => self.s.out.push(0xff),
            (2, _) => self.s.out.push(b']'),
            _ => {}
        }
        Ok(())
    }
}
impl serde::ser::SerializeSeq for SimSeq<'_> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.finish()
    }
}
impl serde::ser::SerializeTuple for SimSeq<'_> {
    type Ok = ();
    type Error = SimErr;
    fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), SimErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), SimErr> {
        self.finish()
    }
}

// ---- deserializer --------------------------------------------------------------------------------

pub const HINT_EXACT: u8 = 0;
pub const HINT_NONE: u8 = 1;
pub const HINT_ZERO: u8 = 2;
pub const HINT_HALF: u8 = 3;
pub const HINT_OVER: u8 = 4;
pub const HINT_HUGE: u8 = 5;
pub const HINT_MAX: u8 = 6;
pub const HINT_ONE: u8 = 7;
pub const HINTS: u8 = 8;

#[derive(Clone, Debug, Default)]
pub struct DeState {
    pub hint: u8,
    pub fail_at: Option<u64>,
    pub how: u8,
    /// how elements are presented to the visitor: 0 as u64, 1 narrowest unsigned, 2 signed,
    /// 3 text at one element, 4 float at one element, 5 u128
    /// 6 to 10: another type than a sequence
    pub present: u8,
    pub calls: u64,
    pub failed: bool,
    pub after: u64,
    /// elements delivered from the innermost sequence
    pub delivered: Vec<u64>,
    pub sign: Option<u8>,
    pub hinted: Vec<Option<usize>>,
    /// the element sequence has ended in the source
    pub seq_done: bool,
}

pub struct SimDe<'a> {
    pub fmt: u8,
    pub data: &'a [u8],
    pub pos: usize,
    pub st: DeState,
}

impl<'a> SimDe<'a> {
    pub fn new(fmt: u8, data: &'a [u8], st: DeState) -> SimDe<'a> {
        SimDe { fmt, data, pos: 0, st }
    }
    fn call(&mut self) -> Result<(), SimErr> {
        if self.st.failed {
            self.st.after += 1;
            return Err(SimErr::Injected(u64::MAX));
        }
        let n = self.st.calls;
        self.st.calls += 1;
        if self.st.fail_at == Some(n) {
            self.st.failed = true;
            if self.st.how == HOW_PANIC {
                std::panic::panic_any(CallerPanic(n));
            }
            return Err(SimErr::Injected(n));
        }
        Ok(())
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], SimErr> {
        if self.data.len() - self.pos < n {
            self.pos = self.data.len();
            return Err(SimErr::Eof);
        }
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn peek(&self) -> Option<u8> {
        self.data.get(self.pos).copied()
    }
    fn u64le(&mut self) -> Result<u64, SimErr> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn varint(&mut self) -> Result<u64, SimErr> {
        let mut x = 0u64;
        for i in 0..10 {
            let b = self.take(1)?[0];
            x |= ((b & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
            if b < 0x80 {
                return Ok(x);
            }
        }
        Err(SimErr::Syntax("varint"))
    }
    fn num(&mut self) -> Result<u64, SimErr> {
        match self.fmt {
            0 => self.u64le(),
            1 => {
                if self.take(1)?[0] != 0x1b {
                    return Err(SimErr::Syntax("number tag"));
                }
                self.u64le()
            }
            2 => {
                let st = self.pos;
                while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                    self.pos += 1;
                }
                if st == self.pos {
                    return Err(if self.pos == self.data.len() { SimErr::Eof } else { SimErr::Syntax("digit") });
                }
                if self.pos == self.data.len() {
                    return Err(SimErr::Eof);
                }
                std::str::from_utf8(&self.data[st..self.pos]).unwrap().parse().map_err(|_| SimErr::Syntax("range"))
            }
            _ => self.varint(),
        }
    }
    pub fn at_end(&self) -> bool {
        self.pos == self.data.len()
    }
}

struct Acc<'b, 'a> {
    d: &'b mut SimDe<'a>,
    left: Option<u64>,
    first: bool,
    done: bool,
    tuple: bool,
}
impl Acc<'_, '_> {
    /// positions at the next element, or reports the end
    fn more(&mut self) -> Result<bool, SimErr> {
        if self.done {
            return Ok(false);
        }
        let more = match (self.d.fmt, self.tuple) {
            (0, _) | (3, _) | (1, true) => self.left.unwrap() > 0,
            (1, false) => match self.d.peek() {
                None => return Err(SimErr::Eof),
                Some(0xff) => {
                    self.d.pos += 1;
                    false
                }
                _ => true,
            },
            _ => match self.d.peek() {
                None => return Err(SimErr::Eof),
                Some(b']') => {
                    self.d.pos += 1;
                    false
                }
                Some(b',') if !self.first => {
                    self.d.pos += 1;
                    true
                }
                _ if self.first => true,
                _ => return Err(SimErr::Syntax("comma")),
            },
        };
        self.first = false;
        if !more {
            self.done = true;
            if !self.tuple {
                self.d.st.seq_done = true;
            }
        } else if let Some(l) = &mut self.left {
            *l -= 1;
        }
        Ok(more)
    }
}
impl<'de> serde::de::SeqAccess<'de> for Acc<'_, 'de> {
    type Error = SimErr;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, SimErr> {
        call_point();
        {
            let _h = Harness::new();
            self.d.call()?;
            if !self.more()? {
                return Ok(None);
            }
        }
        seed.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        let _h = Harness::new();
        if self.tuple {
            return self.left.map(|x| x as usize);
        }
        let exact = match self.left {
            Some(l) => Some(usize::try_from(l).unwrap_or(usize::MAX)),
            None => {
                // a source that knows: count ahead
                let mut d = SimDe::new(self.d.fmt, self.d.data, DeState::default());
                d.pos = self.d.pos;
                let mut a = Acc { d: &mut d, left: None, first: self.first, done: self.done, tuple: false };
                let mut n = 0usize;
                loop {
                    match a.more() {
                        Ok(true) => {
                            if a.d.num().is_err() {
                                break None;
                            }
                            n += 1
                        }
                        Ok(false) => break Some(n),
                        Err(_) => break None,
                    }
                }
            }
        };
        match self.d.st.hint {
            HINT_EXACT => exact,
            HINT_NONE => None,
            HINT_ZERO => Some(0),
            HINT_ONE => Some(1),
            HINT_HALF => exact.map(|x| x / 2),
            HINT_OVER => exact.map(|x| x.saturating_add(1 + x / 2)),
            HINT_HUGE => Some(1 << (usize::BITS - 4)),
            _ => Some(usize::MAX),
        }
    }
}

struct Var<'b, 'a>(&'b mut SimDe<'a>);
impl<'de> serde::de::EnumAccess<'de> for Var<'_, 'de> {
    type Error = SimErr;
    type Variant = UnitV;
    fn variant_seed<V: serde::de::DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, UnitV), SimErr> {
        let v = seed.deserialize(self.0)?;
        Ok((v, UnitV))
    }
}
struct UnitV;
impl<'de> serde::de::VariantAccess<'de> for UnitV {
    type Error = SimErr;
    fn unit_variant(self) -> Result<(), SimErr> {
        Ok(())
    }
    fn newtype_variant_seed<T: serde::de::DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, SimErr> {
        Err(SimErr::Syntax("variant"))
    }
    fn tuple_variant<V: serde::de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, SimErr> {
        Err(SimErr::Syntax("variant"))
    }
    fn struct_variant<V: serde::de::Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, SimErr> {
        Err(SimErr::Syntax("variant"))
    }
}

impl<'de> serde::Deserializer<'de> for &mut SimDe<'de> {
    type Error = SimErr;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, _v: V) -> Result<V::Value, SimErr> {
        Err(SimErr::Syntax("not self-describing"))
    }
    fn deserialize_u64<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let x;
        let n;
        {
            let _h = Harness::new();
            x = self.num()?;
            self.st.delivered.push(x);
            n = self.st.delivered.len();
        }
        match self.st.present {
            1 if x <= 0xff => v.visit_u8(x as u8),
            1 if x <= 0xffff => v.visit_u16(x as u16),
            1 if x <= 0xffff_ffff => v.visit_u32(x as u32),
            2 => v.visit_i64(x as i64),
            3 if n % 3 == 1 => v.visit_str("17"),
            4 if n % 3 == 2 => v.visit_f64(x as f64),
            5 => v.visit_u128(x as u128),
            _ => v.visit_u64(x),
        }
    }
    fn deserialize_seq<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        call_point();
        // another type where the sequence should be
        if self.st.present >= 6 {
            self.st.delivered.clear();
        }
        match self.st.present {
            6 => return v.visit_u64(17),
            7 => return v.visit_str("17"),
            8 => return v.visit_bytes(&[17]),
            9 => return v.visit_unit(),
            10 => return v.visit_f64(17.0),
            _ => {}
        }
        let left;
        {
            let _h = Harness::new();
            self.call()?;
            self.st.delivered.clear();
            left = match self.fmt {
                0 => Some(self.u64le()?),
                1 => {
                    if self.take(1)?[0] != 0x9f {
                        return Err(SimErr::Syntax("sequence tag"));
                    }
                    None
                }
                2 => {
                    if self.take(1)?[0] != b'[' {
                        return Err(SimErr::Syntax("["));
                    }
                    None
                }
                _ => Some(self.varint()?),
            };
        }
        let mut a = Acc { d: self, left, first: true, done: false, tuple: false };
        let r = v.visit_seq(&mut a)?;
        let _h = Harness::new();
        if !a.done {
            // like real formats: the sequence must have been consumed
            match a.more() {
                Ok(false) => {}
                Ok(true) => {
                    drop(r);
                    return Err(SimErr::Trailing);
                }
                Err(e) => {
                    drop(r);
                    return Err(e);
                }
            }
        }
        Ok(r)
    }
    fn deserialize_tuple<V: serde::de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, SimErr> {
        call_point();
        {
            let _h = Harness::new();
            self.call()?;
            match self.fmt {
                1 => {
                    if self.take(1)?[0] != 0x80 | n as u8 {
                        return Err(SimErr::Syntax("tuple tag"));
                    }
                }
                2 => {
                    if self.take(1)?[0] != b'[' {
                        return Err(SimErr::Syntax("["));
                    }
                }
                _ => {}
            }
        }
        let left = if self.fmt == 2 { None } else { Some(n as u64) };
        let mut a = Acc { d: self, left, first: true, done: false, tuple: true };
        let r = v.visit_seq(&mut a)?;
        let _h = Harness::new();
        if !a.done {
            match a.more() {
                Ok(false) => {}
                Ok(true) => {
                    drop(r);
                    return Err(SimErr::Trailing);
                }
                Err(e) => {
                    drop(r);
                    return Err(e);
                }
            }
        }
        Ok(r)
    }
    fn deserialize_enum<V: serde::de::Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, SimErr> {
        v.visit_enum(Var(self))
    }
    fn deserialize_identifier<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        let h = Harness::new();
        let (i, s) = match self.fmt {
            0 => (Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap())), None),
            1 => {
                let t = self.take(1)?[0];
                if t & 0xe0 != 0x60 {
                    return Err(SimErr::Syntax("name tag"));
                }
                (None, Some(self.take((t & 0x1f) as usize)?))
            }
            2 => {
                if self.take(1)?[0] != b'"' {
                    return Err(SimErr::Syntax("quote"));
                }
                let st = self.pos;
                while self.peek().is_some_and(|c| c != b'"') {
                    self.pos += 1;
                }
                let s = &self.data[st..self.pos];
                self.take(1)?;
                (None, Some(s))
            }
            _ => (Some(self.take(1)?[0] as u32), None),
        };
        self.st.sign = match (i, s) {
            (Some(0), _) | (_, Some(b"Positive")) => Some(0),
            (Some(1), _) | (_, Some(b"Negative")) => Some(1),
            _ => None,
        };
        drop(h);
        match (i, s) {
            (Some(i), _) => v.visit_u64(i as u64),
            (_, Some(s)) => match std::str::from_utf8(s) {
                Ok(s) => v.visit_str(s),
                Err(_) => v.visit_bytes(s),
            },
            _ => unreachable!(),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.fmt == 2
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct tuple_struct map struct ignored_any
    }
}
