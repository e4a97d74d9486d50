//! Instant (C17, C18), SystemTime (C19), its serialization (C20).
use crate::env::{self, choose, pick, Hasher};
use crate::{ensure, fail, log, Suite, BOTH};
use std::cmp::Ordering;
use std::time::Duration;
use wasmtimer::std::{Instant, SystemTime, UNIX_EPOCH};

const NS: u128 = 1_000_000_000;
/// The largest representable instant, in ns since the host's time origin.
const TOP: u128 = u64::MAX as u128 * NS + 999_999_999;

fn dur(n: u128) -> Duration {
    Duration::new((n / NS) as u64, (n % NS) as u32)
}
fn ns(d: Duration) -> u128 {
    d.as_secs() as u128 * NS + d.subsec_nanos() as u128
}

// ---------------------------------------------------------------- C17
/// Boundary points: every combination of interesting seconds and nanoseconds.
fn points(level: usize) -> Vec<u128> {
    let mut secs: Vec<u64> = vec![0, 1, u64::MAX - 1, u64::MAX];
    let mut nanos: Vec<u32> = vec![0, 1, 999_999_999];
    if level >= 2 {
        secs.extend([2, u32::MAX as u64, 1 << 32, u64::MAX / 2]);
        nanos.extend([999, 500_000_000]);
    }
    if level >= 3 {
        secs.extend([59, 86_400, (1 << 53) / 1000, 1 << 53, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX / 1_000_000_000, u64::MAX / 1000]);
        nanos.extend([1_000, 1_001, 999_999, 1_000_000, 999_999_998]);
    }
    let mut v = Vec::new();
    for s in &secs {
        for n in &nanos {
            v.push(*s as u128 * NS + *n as u128);
        }
    }
    v
}
/// The instant at the host's time origin, by definition of the clock.
fn origin(us: i64) -> Instant {
    env::host(us, 0, 0, 0);
    let i = Instant::now();
    match i.checked_sub(Duration::from_micros(us as u64)) {
        Some(z) => z,
        None => fail!("the clock reads less than the host's time since its origin"),
    }
}
fn inst(z: Instant, n: u128) -> Instant {
    match z.checked_add(dur(n)) {
        Some(i) => i,
        None => fail!("origin + {} ns is not representable", n),
    }
}
fn arith() {
    let z = origin(pick(&[0i64, 1, 1_234_567, 86_400_000_001]));
    let pts = points(env::bound());
    let a = pick(&pts);
    let x = inst(z, a);
    env::step();
    ensure!(ns(x.duration_since(z)) == a, "(origin + {a} ns) - origin = {} ns", ns(x.duration_since(z)));
    let mut h = Hasher::new(60);
    for &d in &pts {
        env::step();
        // checked forms
        match x.checked_add(dur(d)) {
            Some(y) => {
                ensure!(a + d <= TOP, "{a} ns + {d} ns must not be representable");
                ensure!(ns(y.duration_since(z)) == a + d, "{a} ns + {d} ns = {} ns", ns(y.duration_since(z)));
                ensure!(y.checked_sub(dur(d)) == Some(x), "(t + {d} ns) - {d} ns is not t");
                ensure!(y.duration_since(x) == dur(d), "(t + {d} ns) - t is not {d} ns");
                ensure!((y > x) == (d > 0) && (y == x) == (d == 0), "comparison after adding {d} ns");
            }
            None => ensure!(a + d > TOP, "{a} ns + {d} ns is representable, but checked_add gives nothing"),
        }
        match x.checked_sub(dur(d)) {
            Some(y) => {
                ensure!(a >= d, "{a} ns - {d} ns must not be representable");
                ensure!(ns(y.duration_since(z)) == a - d, "{a} ns - {d} ns = {} ns", ns(y.duration_since(z)));
                ensure!(y.checked_add(dur(d)) == Some(x), "(t - {d} ns) + {d} ns is not t");
            }
            None => ensure!(a < d, "{a} ns - {d} ns is representable, but checked_sub gives nothing"),
        }
        // two instants
        let y = inst(z, d);
        let o = a.cmp(&d);
        ensure!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "comparison of {a} and {d} ns");
        ensure!((x == y) == (o == Ordering::Equal) && (x != y) == (o != Ordering::Equal), "equality of {a} and {d} ns");
        ensure!((x < y) == (a < d) && (x <= y) == (a <= d) && (x > y) == (a > d) && (x >= y) == (a >= d), "comparison operators on {a} and {d} ns");
        ensure!(x.max(y) == inst(z, a.max(d)) && x.min(y) == inst(z, a.min(d)), "max/min of {a} and {d} ns");
        let diff = a.saturating_sub(d);
        ensure!(ns(x.duration_since(y)) == diff, "duration_since: {a} - {d} ns = {}", ns(x.duration_since(y)));
        ensure!(ns(x.saturating_duration_since(y)) == diff, "saturating_duration_since of {a} and {d} ns");
        ensure!(ns(x - y) == diff, "operator -: {a} - {d} ns = {}", ns(x - y));
        ensure!(x.checked_duration_since(y).map(ns) == a.checked_sub(d), "checked_duration_since of {a} and {d} ns");
        h.add(o as u64).add((a + d <= TOP) as u64);
    }
    h.add(a as u64).state();
    h.outcome();
}
/// The plain operators: exact, or a panic exactly when not representable.
fn operators() {
    let z = origin(pick(&[0i64, 1_234_567]));
    let pts = points(env::bound());
    let (a, d) = (pick(&pts), pick(&pts));
    let x = inst(z, a);
    let op = choose(4);
    log!("{} ns {} {} ns", a, ["+", "-", "+=", "-="][op], d);
    env::step();
    let want = match op {
        0 | 2 => Some(a + d).filter(|v| *v <= TOP),
        _ => a.checked_sub(d),
    };
    let mut h = Hasher::new(61);
    h.add(op as u64).add(a as u64).add(d as u64).add(want.is_some() as u64);
    h.state();
    h.outcome();
    if want.is_none() {
        env::must_panic();
    }
    let y = match op {
        0 => x + dur(d),
        1 => x - dur(d),
        2 => {
            let mut y = x;
            y += dur(d);
            y
        }
        _ => {
            let mut y = x;
            y -= dur(d);
            y
        }
    };
    match want {
        None => env::no_panic(format_args!("{a} ns {} {d} ns is not representable, but gave {} ns", ["+", "-", "+=", "-="][op], ns(y.duration_since(z)))),
        Some(v) => ensure!(ns(y.duration_since(z)) == v, "{a} ns {} {d} ns gave {} ns", ["+", "-", "+=", "-="][op], ns(y.duration_since(z))),
    }
}
/// Sequences of additions and subtractions stay exact.
fn chains() {
    let z = origin(1_234_567);
    let n = env::bound();
    let ds: [u128; 8] = [1, 999, 1_000_000, NS - 1, NS, 1 << 70, TOP / 3, TOP - 5];
    let mut m = 1_234_567_000u128;
    let mut t = inst(z, m);
    for _ in 0..n {
        env::step();
        let k = choose(16);
        let d = ds[k / 2];
        let (got, want) = if k & 1 == 0 { (t.checked_add(dur(d)), Some(m + d).filter(|v| *v <= TOP)) } else { (t.checked_sub(dur(d)), m.checked_sub(d)) };
        ensure!(got.map(|g| ns(g - z)) == want, "after a chain: {m} ns {} {d} ns gave {:?}", if k & 1 == 0 { "+" } else { "-" }, got.map(|g| ns(g - z)));
        if let (Some(g), Some(w)) = (got, want) {
            t = g;
            m = w;
        }
        let mut h = Hasher::new(62);
        h.add(m as u64).add((m >> 64) as u64).state();
    }
    let mut h = Hasher::new(63);
    h.add(m as u64).add((m >> 64) as u64).outcome();
}

// ---------------------------------------------------------------- C18
fn next_up(x: f64, k: i64) -> f64 {
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}
/// Clock readings a host may give, in ms.
fn readings(level: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, 0.001, 0.0005, 0.005, 0.1, 1.0, 1.001, 0.29, 4.35, 1234.567, 1234.5675, 16.666666666666668];
    for base in [1.0f64, 3.003, 1234.567, 8_388_608.005, 86_400_000.1, 2_147_483.648, 4_294_967.296, 2_147_483_648.0, 4_294_967_296.007, 31_536_000_000.3] {
        for k in if level > 1 { vec![-3i64, -2, -1, 0, 1, 2, 3] } else { vec![-1, 0, 1] } {
            v.push(next_up(base, k));
        }
        v.push(base + 0.0009999);
        v.push(base + 0.001);
        v.push(base + 0.0005);
    }
    if level > 1 {
        for k in 0..60 {
            v.push(1000.0 + k as f64 * 0.001);
            v.push(5_000_000.0 + k as f64 * 0.005);
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
/// floor(ms * 1e6) of a double, exactly, and whether that was exact.
fn exact_ns(ms: f64) -> u128 {
    let b = ms.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as u128 | if e > 0 { 1 << 52 } else { 0 };
    let sh = e.max(1) - 1075;
    let v = m * 1_000_000;
    if sh >= 0 {
        v << sh
    } else if -sh < 128 {
        v >> -sh
    } else {
        0
    }
}
fn reads() {
    let level = env::bound();
    let rs = readings(level);
    env::perf(0.0);
    let z = Instant::now();
    let n = if level > 1 { 2 } else { 3 };
    let mut from = 0;
    let mut prev: Option<(Instant, u128, f64)> = None;
    let mut h = Hasher::new(64);
    for _ in 0..n {
        let i = from + choose(rs.len() - from);
        from = i;
        let ms = rs[i];
        env::perf(ms);
        env::step();
        let t = Instant::now();
        let host = exact_ns(ms);
        // the double product may round up to the next microsecond
        let tol = 1 + host / (1 << 52);
        let got = ns(t.duration_since(z));
        log!("host {} ms: {} ns", ms, got);
        ensure!(got <= host + tol, "the clock reads {got} ns, ahead of the host's {ms} ms");
        ensure!(got + 1_000 + tol >= host, "the clock reads {got} ns, more than a microsecond behind the host's {ms} ms");
        ensure!(t.elapsed() == Duration::ZERO, "time has elapsed on a clock that stands still");
        if let Some((p, pn, pms)) = prev {
            ensure!(t >= p, "the clock went backwards, from {pn} ns at {pms} ms to {got} ns at {ms} ms");
            ensure!(t.duration_since(p) == dur(got - pn), "duration between two readings");
            ensure!(p.elapsed() == dur(got - pn), "elapsed() is {} ns between readings {} ns apart", ns(p.elapsed()), got - pn);
        }
        prev = Some((t, got, ms));
        h.add(got as u64);
        h.state();
    }
    h.outcome();
}
/// A clock that ticks: every reading of a long run, host resolutions from 1 us to 1 ms.
fn ticking() {
    let n = env::bound() * 1000;
    let res = pick(&[0.001f64, 0.005, 0.02, 0.1, 1.0, 1.0 / 3.0]);
    let start = pick(&[0.0f64, 0.3, 5_000.123, 1.0e9, 3.0e10]);
    env::perf(0.0);
    let z = Instant::now();
    let mut last = z;
    for k in 0..n {
        let ms = start + k as f64 * res;
        env::perf(ms);
        let t = Instant::now();
        let host = exact_ns(ms);
        let tol = 1 + host / (1 << 52);
        let got = ns(t - z);
        ensure!(t >= last, "the clock went backwards at host time {ms} ms");
        ensure!(got <= host + tol && got + 1_000 + tol >= host, "the clock reads {got} ns at host time {ms} ms");
        last = t;
    }
    env::step();
    let mut h = Hasher::new(65);
    h.add(ns(last - z) as u64).state();
    h.outcome();
}

// ---------------------------------------------------------------- C19
const DATE_MAX: i64 = 8_640_000_000_000_000;
fn dates(level: usize) -> Vec<i64> {
    let mut v = vec![0i64, 1, -1, 999, 1_000, -1_000, 1_700_000_000_123, DATE_MAX, -DATE_MAX, DATE_MAX - 1];
    if level > 1 {
        v.extend([-999, 1_001, 2, -2, 86_400_000, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, -(1i64 << 31), -(1i64 << 32) - 1, -2_208_988_800_000, 253_402_300_799_999, 1 - DATE_MAX, 1 << 52, (1 << 52) + 1]);
    }
    v.sort();
    v.dedup();
    v
}
fn at(ms: i64) -> SystemTime {
    env::date(ms as f64);
    SystemTime::now()
}
/// A time as ms since the epoch, by the public interface.
fn ms_of(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => {
            ensure!(d.subsec_nanos() % 1_000_000 == 0, "a difference with a fraction of a millisecond: {:?}", d);
            d.as_millis() as i128
        }
        Err(e) => -(e.duration().as_millis() as i128),
    }
}
fn calendar() {
    let ds = dates(env::bound());
    let (a, b) = (pick(&ds), pick(&ds));
    env::step();
    let (x, y) = (at(a), at(b));
    ensure!(ms_of(x) == a as i128, "now() is {} ms, the host's date is {a}", ms_of(x));
    ensure!(UNIX_EPOCH == SystemTime::UNIX_EPOCH && ms_of(UNIX_EPOCH) == 0, "UNIX_EPOCH is not the epoch");
    let gap = (a as i128 - b as i128).unsigned_abs();
    if gap < 1 << 53 {
        match x.duration_since(y) {
            Ok(d) => ensure!(a >= b && d == Duration::from_millis(gap as u64), "{a} - {b} ms = {:?}", d),
            Err(e) => ensure!(a < b && e.duration() == Duration::from_millis(gap as u64), "{a} - {b} ms is an error of {:?}", e.duration()),
        }
        // the date is b now
        match x.elapsed() {
            Ok(d) => ensure!(b >= a && d == Duration::from_millis(gap as u64), "elapsed() of {a} at {b} is {:?}", d),
            Err(e) => ensure!(b < a && e.duration() == Duration::from_millis(gap as u64), "elapsed() of {a} at {b} is an error of {:?}", e.duration()),
        }
        let d = Duration::from_millis(gap as u64);
        let (lo, hi) = if a <= b { (x, y) } else { (y, x) };
        let mut s = lo;
        s += d;
        let mut t = hi;
        t -= d;
        ensure!(lo + d == hi && s == hi && lo.checked_add(d) == Some(hi), "the earlier of {a} and {b} plus the gap is not the later");
        ensure!(hi - d == lo && t == lo && hi.checked_sub(d) == Some(lo), "the later of {a} and {b} minus the gap is not the earlier");
        ensure!(ms_of(lo + d) == a.max(b) as i128 && ms_of(hi - d) == a.min(b) as i128, "sums and differences of {a} and {b}");
    }
    let o = a.cmp(&b);
    ensure!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "comparison of {a} and {b}");
    ensure!((x == y) == (a == b) && (x != y) == (a != b), "equality of {a} and {b}");
    ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparison operators on {a} and {b}");
    let mut h = Hasher::new(66);
    h.add(a as u64).add(b as u64).state();
    h.outcome();
}
/// Sequences of sums and differences.
fn calendar_chains() {
    let n = env::bound();
    let ds = [1u64, 999, 1_000, 86_400_000, 1 << 32, (1 << 32) + 1, 8_640_000_000_000_000];
    let a = pick(&[0i64, -1, 1_700_000_000_123, -DATE_MAX]);
    let mut t = at(a);
    let mut m = a as i128;
    for _ in 0..n {
        let k = choose(2 * ds.len());
        let d = ds[k / 2] as i128;
        let w = if k & 1 == 0 { m + d } else { m - d };
        if w.abs() > DATE_MAX as i128 {
            continue;
        }
        env::step();
        let dd = Duration::from_millis(d as u64);
        let before = t;
        match (k & 1, k % 3) {
            (0, 0) => t += dd,
            (0, 1) => t = t + dd,
            (0, _) => t = t.checked_add(dd).unwrap(),
            (_, 0) => t -= dd,
            (_, 1) => t = t - dd,
            (_, _) => t = t.checked_sub(dd).unwrap(),
        }
        m = w;
        ensure!(ms_of(t) == m, "after a chain: {} ms instead of {m}", ms_of(t));
        ensure!((t > before) == (k & 1 == 0), "comparison after a step of a chain");
        let mut h = Hasher::new(67);
        h.add(m as u64).state();
    }
    let mut h = Hasher::new(68);
    h.add(m as u64).outcome();
}

// ---------------------------------------------------------------- C20
mod tok {
    //! A minimal self-describing format: a value is a tree of tokens, identifiers may be
    //! strings or bytes, and a struct may be a map or a sequence.
    use serde::de::{self, DeserializeSeed, Visitor};
    use serde::ser;
    use std::fmt;

    #[derive(Debug)]
    pub struct Err(#[allow(dead_code)] pub String);
    impl fmt::Display for Err {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Err {}
    impl de::Error for Err {
        fn custom<T: fmt::Display>(m: T) -> Self {
            Err(m.to_string())
        }
    }
    impl ser::Error for Err {
        fn custom<T: fmt::Display>(m: T) -> Self {
            Err(m.to_string())
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum V {
        U64(u64),
        U32(u32),
        U8(u8),
        I64(i64),
        F64(f64),
        Bool(bool),
        Str(&'static str),
        Bytes(&'static [u8]),
        Unit,
        None,
        Seq(Vec<V>),
        Map(Vec<(V, V)>),
    }
    pub struct De<'a>(pub &'a V);
    struct Seq<'a>(std::slice::Iter<'a, V>);
    struct Map<'a>(std::slice::Iter<'a, (V, V)>, Option<&'a V>);
    impl<'de, 'a> de::SeqAccess<'de> for Seq<'a> {
        type Error = Err;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
            self.0.next().map(|v| s.deserialize(De(v))).transpose()
        }
    }
    impl<'de, 'a> de::MapAccess<'de> for Map<'a> {
        type Error = Err;
        fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
            match self.0.next() {
                Some((k, v)) => {
                    self.1 = Some(v);
                    s.deserialize(De(k)).map(Some)
                }
                None => Ok(None),
            }
        }
        fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Err> {
            s.deserialize(De(self.1.take().unwrap()))
        }
    }
    impl<'de, 'a> de::Deserializer<'de> for De<'a> {
        type Error = Err;
        fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, Err> {
            match self.0 {
                V::U64(x) => v.visit_u64(*x),
                V::U32(x) => v.visit_u32(*x),
                V::U8(x) => v.visit_u8(*x),
                V::I64(x) => v.visit_i64(*x),
                V::F64(x) => v.visit_f64(*x),
                V::Bool(x) => v.visit_bool(*x),
                V::Str(x) => v.visit_str(x),
                V::Bytes(x) => v.visit_bytes(x),
                V::Unit => v.visit_unit(),
                V::None => v.visit_none(),
                V::Seq(x) => v.visit_seq(Seq(x.iter())),
                V::Map(x) => v.visit_map(Map(x.iter(), None)),
            }
        }
        serde::forward_to_deserialize_any! {
            bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
            option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
        }
    }

    /// A non-self-describing compact format: the fields' values, in order.
    #[derive(Default)]
    pub struct Ser {
        pub out: Vec<u64>,
        pub names: Vec<&'static str>,
        pub declared: usize,
    }
    type R = Result<(), Err>;
    impl<'a> ser::Serializer for &'a mut Ser {
        type Ok = ();
        type Error = Err;
        type SerializeSeq = ser::Impossible<(), Err>;
        type SerializeTuple = ser::Impossible<(), Err>;
        type SerializeTupleStruct = ser::Impossible<(), Err>;
        type SerializeTupleVariant = ser::Impossible<(), Err>;
        type SerializeMap = ser::Impossible<(), Err>;
        type SerializeStruct = Self;
        type SerializeStructVariant = ser::Impossible<(), Err>;
        fn serialize_bool(self, _: bool) -> R { e() }
        fn serialize_i8(self, _: i8) -> R { e() }
        fn serialize_i16(self, _: i16) -> R { e() }
        fn serialize_i32(self, _: i32) -> R { e() }
        fn serialize_i64(self, _: i64) -> R { e() }
        fn serialize_u8(self, _: u8) -> R { e() }
        fn serialize_u16(self, _: u16) -> R { e() }
        fn serialize_u32(self, v: u32) -> R { self.out.push(v as u64); Ok(()) }
        fn serialize_u64(self, v: u64) -> R { self.out.push(v); Ok(()) }
        fn serialize_f32(self, _: f32) -> R { e() }
        fn serialize_f64(self, _: f64) -> R { e() }
        fn serialize_char(self, _: char) -> R { e() }
        fn serialize_str(self, _: &str) -> R { e() }
        fn serialize_bytes(self, _: &[u8]) -> R { e() }
        fn serialize_none(self) -> R { e() }
        fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> R { e() }
        fn serialize_unit(self) -> R { e() }
        fn serialize_unit_struct(self, _: &'static str) -> R { e() }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R { e() }
        fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, _: &T) -> R { e() }
        fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R { e() }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Err> { e() }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Err> { e() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Err> { e() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Err> { e() }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Err> { e() }
        fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Err> {
            self.declared = n;
            Ok(self)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Err> { e() }
    }
    fn e<T>() -> Result<T, Err> {
        Result::Err(Err("unexpected type".into()))
    }
    impl<'a> ser::SerializeStruct for &'a mut Ser {
        type Ok = ();
        type Error = Err;
        fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> R {
            self.names.push(k);
            v.serialize(&mut **self)
        }
        fn end(self) -> R {
            Ok(())
        }
    }
}
use tok::V;

/// What the time with these fields must be, as ms since the epoch.
fn check_time(t: SystemTime, secs: u64, nanos: u32) {
    let want = secs as u128 * 1000 + nanos as u128 / 1_000_000;
    let d = match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_millis(),
        Err(_) => fail!("{secs} s {nanos} ns after the epoch deserialized to a time before it"),
    };
    if want < 1 << 53 {
        ensure!(d == want, "{secs} s {nanos} ns deserialized to {d} ms after the epoch");
    } else if want < u64::MAX as u128 {
        // beyond the host's date range: the nearest double
        ensure!(d.abs_diff(want) <= want >> 52, "{secs} s {nanos} ns deserialized to {d} ms after the epoch");
    } else {
        // more than a Duration's getters and differences can hold: by comparison
        let s = secs + (nanos / 1_000_000_000) as u64;
        ensure!(t >= UNIX_EPOCH + Duration::from_secs(s - (s >> 50)), "{secs} s {nanos} ns deserialized to a time before that");
        if let Some(top) = s.checked_add(s >> 50) {
            ensure!(t <= UNIX_EPOCH + Duration::from_secs(top), "{secs} s {nanos} ns deserialized to a time after that");
        }
    }
}
/// The fields' meaning, or None if the input must be rejected.
fn meaning(secs: &V, nanos: &V) -> Option<(u64, u32)> {
    let num = |v: &V| match v {
        V::U64(x) => Some(*x),
        V::U32(x) => Some(*x as u64),
        V::U8(x) => Some(*x as u64),
        V::I64(x) => u64::try_from(*x).ok(),
        _ => None,
    };
    let s = num(secs)?;
    let n = u32::try_from(num(nanos)?).ok()?;
    s.checked_add((n / 1_000_000_000) as u64)?;
    Some((s, n))
}
fn vals() -> Vec<V> {
    vec![
        V::U64(0), V::U8(7), V::U32(999_999_999), V::U64(1_000_000_000), V::U64(u32::MAX as u64), V::U64(u32::MAX as u64 + 1),
        V::U64(u64::MAX), V::U64(u64::MAX - 3), V::I64(-1), V::I64(1_700_000_000), V::U64(999_000_000), V::U64(9_000_000_000_000), V::F64(1.5), V::F64(2.0),
        V::Str("5"), V::Unit, V::None, V::Bool(true), V::Seq(vec![]), V::Map(vec![]),
    ]
}
const BAD: &[u8] = &[0xff, b's'];
fn keys() -> Vec<(V, u8)> {
    vec![
        (V::Str("secs_since_epoch"), 0),
        (V::Str("nanos_since_epoch"), 1),
        (V::Bytes(b"secs_since_epoch"), 0),
        (V::Bytes(b"nanos_since_epoch"), 1),
        (V::Str("secs"), 2),
        (V::Str(""), 2),
        (V::Str("Secs_since_epoch"), 2),
        (V::Bytes(b"nanos_since_epoc"), 2),
        (V::Bytes(BAD), 2),
        (V::U64(0), 2),
        (V::U64(1), 2),
        (V::Unit, 2),
    ]
}
fn de_tokens() {
    let n = env::bound();
    let vs = vals();
    let ks = keys();
    let shape = choose(3);
    let (input, want) = match shape {
        0 => {
            // a map of up to n entries
            let len = choose(n + 1);
            let mut m = Vec::new();
            let mut f: [Vec<V>; 3] = Default::default();
            for i in 0..len {
                let (k, w) = ks[choose(ks.len())].clone();
                // beyond two entries the input is bad whatever the values are: fewer of them
                let v = if len <= 2 { vs[choose(vs.len())].clone() } else { vs[choose(3) + i].clone() };
                f[w as usize].push(v.clone());
                m.push((k, v));
            }
            let want = if f[0].len() == 1 && f[1].len() == 1 && f[2].is_empty() { meaning(&f[0][0], &f[1][0]) } else { None };
            (V::Map(m), want)
        }
        1 => {
            let len = choose(3);
            let s: Vec<V> = (0..len).map(|_| vs[choose(vs.len())].clone()).collect();
            let want = if len == 2 { meaning(&s[0], &s[1]) } else { None };
            (V::Seq(s), want)
        }
        _ => (vs[choose(vs.len() - 2)].clone(), None),
    };
    env::step();
    log!("{:?}", input);
    let r = <SystemTime as serde::Deserialize>::deserialize(tok::De(&input));
    verdict(&format!("{input:?}"), r.map_err(|e| e.0), want);
}
fn verdict(text: &str, r: Result<SystemTime, String>, want: Option<(u64, u32)>) {
    match (&r, want) {
        (Ok(t), Some((s, n))) => check_time(*t, s, n),
        (Ok(_), None) => fail!("malformed input was accepted: {}", text),
        (Err(e), Some(_)) => fail!("valid input {} was rejected: {}", text, e),
        (Err(_), None) => {}
    }
    let mut h = Hasher::new(69);
    h.add(r.is_ok() as u64);
    for b in text.bytes() {
        h.add(b as u64);
    }
    h.state();
    let mut h = Hasher::new(70);
    h.add(r.is_ok() as u64);
    if let Ok(t) = r {
        h.add(ms_of(t) as u64);
    }
    h.outcome();
}
fn json_vals() -> Vec<(&'static str, V)> {
    vec![
        ("0", V::U64(0)), ("12", V::U64(12)), ("999999999", V::U64(999_999_999)), ("1000000000", V::U64(1_000_000_000)),
        ("4294967295", V::U64(4_294_967_295)), ("4294967296", V::U64(4_294_967_296)), ("18446744073709551615", V::U64(u64::MAX)),
        ("18446744073709551616", V::F64(1.8e19)), ("-0", V::F64(-0.0)), ("-1", V::I64(-1)), ("1.5", V::F64(1.5)), ("1e3", V::F64(1e3)), ("\"3\"", V::Str("3")),
        ("null", V::Unit), ("true", V::Bool(true)), ("[1]", V::Seq(vec![])), ("{}", V::Map(vec![])), ("1700000000", V::U64(1_700_000_000)),
    ]
}
/// JSON texts: objects, arrays and scalars, truncated or with trailing input.
fn de_json() {
    let n = env::bound();
    let vs = json_vals();
    let names = ["secs_since_epoch", "nanos_since_epoch", "nanos", "x", ""];
    let mut text = String::new();
    let mut f: [Vec<V>; 3] = Default::default();
    let mut want = None;
    match choose(3) {
        0 => {
            let len = choose(n + 1);
            text.push('{');
            for i in 0..len {
                let k = choose(names.len());
                let (s, v) = if len <= 2 { vs[choose(vs.len())].clone() } else { vs[choose(2) + i].clone() };
                if i > 0 {
                    text.push(',');
                }
                text += &format!("\"{}\":{}", names[k], s);
                f[k.min(2)].push(v);
            }
            text.push('}');
            if f[0].len() == 1 && f[1].len() == 1 && f[2].is_empty() {
                want = meaning(&f[0][0], &f[1][0]);
            }
        }
        1 => {
            let len = choose(n + 1);
            let mut l = Vec::new();
            text.push('[');
            for i in 0..len {
                let (s, v) = if len <= 2 { vs[choose(vs.len())].clone() } else { vs[choose(2) + i].clone() };
                if i > 0 {
                    text.push(',');
                }
                text += s;
                l.push(v);
            }
            text.push(']');
            if len == 2 {
                want = meaning(&l[0], &l[1]);
            }
        }
        _ => text = pick(&["0", "null", "\"secs_since_epoch\"", "1.5", "true", ""]).to_string(),
    }
    match choose(3) {
        0 => {}
        1 => {
            text.pop();
            want = None;
        }
        _ => {
            text.push('1');
            want = None;
        }
    }
    env::step();
    log!("{}", text);
    let r = serde_json::from_str::<SystemTime>(&text);
    verdict(&text, r.map_err(|e| e.to_string()), want);
}
/// Times serialize to their fields and come back equal, in every form.
fn round_trip() {
    let mut ds = dates(2);
    ds.extend([1_000_000_000_000, 999_999, 59_999, -1_700_000_000_123, 1 << 51, 7_999_999_999_999]);
    let a = pick(&ds);
    let d = pick(&[0u64, 1, 999, 1_000, 123_456_789]);
    let t = at(a) + Duration::from_millis(d);
    let m = a as i128 + d as i128;
    let mut h = Hasher::new(71);
    h.add(m as u64).state();
    env::step();
    let json = serde_json::to_string(&t);
    let val = serde_json::to_value(t);
    let mut s = tok::Ser::default();
    let compact = serde::Serialize::serialize(&t, &mut s);
    if m < 0 {
        ensure!(json.is_err() && val.is_err() && compact.is_err(), "a time {m} ms before the epoch was serialized: {:?} {:?} {:?}", json.ok(), val.ok(), s.out);
        h.outcome();
        return;
    }
    let (secs, nanos) = ((m / 1000) as u64, (m % 1000) as u64 * 1_000_000);
    let want = format!("{{\"secs_since_epoch\":{secs},\"nanos_since_epoch\":{nanos}}}");
    let json = match json {
        Ok(j) => j,
        Err(e) => fail!("a time {m} ms after the epoch does not serialize: {e}"),
    };
    ensure!(json == want, "{m} ms after the epoch serializes to {json}");
    ensure!(compact.is_ok() && s.out == [secs, nanos], "{m} ms after the epoch serializes to {:?}", s.out);
    ensure!(s.names == ["secs_since_epoch", "nanos_since_epoch"] && s.declared == 2, "serialized fields {:?} of {}", s.names, s.declared);
    let v = val.unwrap();
    ensure!(v["secs_since_epoch"] == secs && v["nanos_since_epoch"] == nanos && v.as_object().map(|o| o.len()) == Some(2), "{m} ms serializes to {v}");
    let back = serde_json::from_str::<SystemTime>(&json);
    ensure!(back.as_ref().map(|b| *b == t).unwrap_or(false), "{json} does not deserialize to the same time: {:?}", back);
    let back = serde_json::from_value::<SystemTime>(v);
    ensure!(back.map(|b| b == t).unwrap_or(false), "{json} does not deserialize from a value to the same time");
    let back = serde_json::from_str::<SystemTime>(&format!("[{secs},{nanos}]"));
    ensure!(back.map(|b| b == t).unwrap_or(false), "[{secs},{nanos}] does not deserialize to the same time");
    let back = serde_json::from_str::<SystemTime>(&format!("{{\"nanos_since_epoch\":{nanos},\"secs_since_epoch\":{secs}}}"));
    ensure!(back.map(|b| b == t).unwrap_or(false), "fields in the other order do not deserialize to the same time");
    for form in [V::Seq(vec![V::U64(secs), V::U64(nanos)]), V::Map(vec![(V::Bytes(b"secs_since_epoch"), V::U64(secs)), (V::Str("nanos_since_epoch"), V::U32(nanos as u32))])] {
        let back = <SystemTime as serde::Deserialize>::deserialize(tok::De(&form));
        ensure!(back.map(|b| b == t).unwrap_or(false), "{:?} does not deserialize to the same time", form);
    }
    h.outcome();
}

pub const SUITES: &[Suite] = &[
    Suite {
        prop: "C17", name: "arithmetic",
        what: "every pair of boundary instants and durations (seconds x nanoseconds up to the maximum), all operations, against 128-bit integers",
        unit: "detail of the boundary set", variants: BOTH, min: 1, quick: 3, deep: 3, run: arith,
    },
    Suite {
        prop: "C17", name: "operators",
        what: "every pair of boundary instants and durations under + - += -=: exact, or a panic exactly when not representable",
        unit: "detail of the boundary set", variants: BOTH, min: 1, quick: 2, deep: 3, run: operators,
    },
    Suite {
        prop: "C17", name: "chains",
        what: "all sequences of checked additions and subtractions of 8 durations",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5, run: chains,
    },
    Suite {
        prop: "C18", name: "readings",
        what: "all non-decreasing sequences of host clock readings around microsecond and float boundaries, uptimes up to a year",
        unit: "detail of the readings", variants: BOTH, min: 1, quick: 2, deep: 2, run: reads,
    },
    Suite {
        prop: "C18", name: "ticking",
        what: "every reading of long runs of a ticking host clock, 6 resolutions, 5 starting points",
        unit: "x 1000 readings", variants: BOTH, min: 4, quick: 4, deep: 9, run: ticking,
    },
    Suite {
        prop: "C19", name: "calendar",
        what: "every pair of boundary dates over the whole range of the host's Date, all operations, against integers",
        unit: "detail of the boundary set", variants: BOTH, min: 1, quick: 2, deep: 2, run: calendar,
    },
    Suite {
        prop: "C19", name: "chains",
        what: "all sequences of sums and differences with 7 durations from 4 dates",
        unit: "operations", variants: BOTH, min: 1, quick: 4, deep: 5, run: calendar_chains,
    },
    Suite {
        prop: "C20", name: "tokens",
        what: "all inputs of up to n entries over 12 kinds of keys and 20 kinds of values, as map, sequence or scalar",
        unit: "entries", variants: BOTH, min: 1, quick: 3, deep: 4, run: de_tokens,
    },
    Suite {
        prop: "C20", name: "json",
        what: "all JSON texts with up to n fields over 5 names and 18 kinds of values, complete, truncated and with trailing input",
        unit: "entries", variants: BOTH, min: 1, quick: 4, deep: 5, run: de_json,
    },
    Suite {
        prop: "C20", name: "round trip",
        what: "boundary dates before and after the epoch, through text, values, sequences, reordered and byte-named fields",
        unit: "(one level)", variants: BOTH, min: 1, quick: 1, deep: 1, run: round_trip,
    },
];
