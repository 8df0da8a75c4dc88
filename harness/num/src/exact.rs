//! Exact numbers: one operation per case, the answer as text.
use logicaffeine_base::numeric::*;
use logicaffeine_base::word::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn twins<T: Hash + Eq>(x: &T, y: &T) -> bool { x == y && hash(x) == hash(y) }
fn ord(o: Ordering) -> String { match o { Ordering::Less => "<", Ordering::Equal => "=", Ordering::Greater => ">" }.into() }
fn opt<T: ToString>(x: Option<T>) -> String { x.map_or("none".into(), |v| v.to_string()) }

pub fn case(v: &Value) -> Value {
    let s: Vec<&str> = v["s"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let k: Vec<i64> = v["k"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let o = v["o"].as_str().unwrap();
    json!(match v["t"].as_str().unwrap() {
        "int" => int(o, &big(&s), &k),
        "rat" => rat(o, &big(&s), &k),
        "dec" => dec(o, &big(&s), &k),
        "cpx" => cpx(o, &big(&s), &k),
        "mod" => modular(o, &big(&s)),
        "flt" => flt(o, &big(&s), &k),
        "word" => word(o, &s, &k),
        _ => lanes(o, &s, &k),
    })
}
fn big(s: &[&str]) -> Vec<BigInt> { s.iter().map(|x| BigInt::parse_decimal(x).expect("integer text")).collect() }

fn int(o: &str, a: &[BigInt], k: &[i64]) -> String {
    let (x, y) = (&a[0], &a[1]);
    match o {
        "add" => x.add(y).to_string(),
        "sub" => x.sub(y).to_string(),
        "mul" => x.mul(y).to_string(),
        "div" => opt(x.div_rem(y).map(|(q, r)| format!("{q} {r}"))),
        "pow" => x.pow(k[0] as u32).to_string(),
        "cmp" => ord(x.cmp(y)),
        "neg" => x.negated().to_string(),
        "abs" => x.abs().to_string(),
        "odd" => if x.is_odd() { "odd".into() } else { "even".into() },
        "i64" => opt(x.to_i64()),
        "bytes" => { let (n, b) = x.to_le_bytes(); BigInt::from_le_bytes(n, &b).to_string() }
        _ => {
            let mut ways = vec![x.add(y).sub(y), x.negated().negated(), BigInt::parse_decimal(&x.to_string()).expect("own text")];
            if let Some((q, r)) = x.mul(y).div_rem(y) { ways.push(q); if !r.is_zero() { return "remainder".into(); } }
            if let Some((q, r)) = x.div_rem(y) { ways.push(q.mul(y).add(&r)); }
            if let Some(i) = x.to_i64() { ways.push(BigInt::from_i64(i)); if numeric_hash_i64(i) != numeric_hash_bigint(x) { return "hash of i64".into(); } }
            let whole = Rational::from_bigint(x.clone());
            (ways.iter().all(|w| twins(w, x) && numeric_hash_bigint(w) == numeric_hash_bigint(x)) && numeric_hash_rational(&whole) == numeric_hash_bigint(x)).to_string()
        }
    }
}

fn rat(o: &str, a: &[BigInt], k: &[i64]) -> String {
    let Some(x) = Rational::new(a[0].clone(), a[1].clone()) else { return "none".into() };
    let y = Rational::new(a[2].clone(), a[3].clone());
    match (o, y) {
        ("show", _) => x.to_string(),
        ("floor", _) => x.floor().to_string(),
        ("ceil", _) => x.ceil().to_string(),
        ("round", _) => x.round().to_string(),
        ("int", _) => opt(x.to_bigint()),
        ("inv", _) => opt(x.recip()),
        ("pow", _) => opt(x.pow(k[0] as i32)),
        (_, None) => "none".into(),
        ("add", Some(y)) => x.add(&y).to_string(),
        ("sub", Some(y)) => x.sub(&y).to_string(),
        ("mul", Some(y)) => x.mul(&y).to_string(),
        ("div", Some(y)) => opt(x.div(&y)),
        ("cmp", Some(y)) => ord(x.cmp(&y)),
        (_, Some(y)) => {
            let mut ways = vec![x.add(&y).sub(&y), x.negated().negated(), Rational::parse(&x.to_string()).expect("own text")];
            if let Some(q) = x.mul(&y).div(&y) { ways.push(q); }
            if let Some(q) = x.recip().and_then(|r| r.recip()) { ways.push(q); }
            ways.iter().all(|w| twins(w, &x) && numeric_hash_rational(w) == numeric_hash_rational(&x)).to_string()
        }
    }
}

fn dec(o: &str, a: &[BigInt], k: &[i64]) -> String {
    use RoundingMode::*;
    let x = Decimal::from_coeff_scale(a[0].clone(), k[0] as u32);
    let y = Decimal::from_coeff_scale(a[1].clone(), k[1] as u32);
    let (scale, mode) = (k[2] as u32, [Down, Up, Floor, Ceiling, HalfUp, HalfDown, HalfEven][k[3] as usize - 1]);
    match o {
        "show" => x.to_string(),
        "add" => x.add(&y).to_string(),
        "sub" => x.sub(&y).to_string(),
        "mul" => x.mul(&y).to_string(),
        "div" => opt(x.div(&y, scale, mode)),
        "rescale" => x.rescale(scale, mode).to_string(),
        "ofrat" => opt(Rational::new(a[0].clone(), a[1].clone()).map(|r| Decimal::from_rational(&r, scale, mode))),
        "cmp" => ord(x.cmp(&y)),
        "eq" => { if x == y && hash(&x) != hash(&y) { "equal but hashed apart".into() } else { (x == y).to_string() } }
        _ => {
            let (n, b, s) = x.to_le_bytes();
            let ways = [x.add(&y).sub(&y), Decimal::parse(&x.to_string()).expect("own text"), x.rescale(12, Down), x.negated().negated(), Decimal::from_le_bytes(n, &b, s)];
            ways.iter().all(|w| twins(w, &x) && w.to_rational() == x.to_rational()).to_string()
        }
    }
}

fn cpx(o: &str, a: &[BigInt], k: &[i64]) -> String {
    let r = |i: usize| Rational::new(a[i].clone(), a[i + 1].clone()).expect("denominator");
    let (x, y) = (Complex::new(r(0), r(2)), Complex::new(r(4), r(6)));
    match o {
        "show" => x.to_string(),
        "add" => x.add(&y).to_string(),
        "sub" => x.sub(&y).to_string(),
        "mul" => x.mul(&y).to_string(),
        "div" => opt(x.div(&y)),
        "pow" => opt(x.pow(k[0] as i32)),
        "norm" => x.norm_sqr().to_string(),
        "conj" => x.conjugate().to_string(),
        _ => {
            let mut ways = vec![x.add(&y).sub(&y), x.conjugate().conjugate(), Complex::parse(&x.to_string()).expect("own text")];
            if let Some(q) = x.mul(&y).div(&y) { ways.push(q); }
            ways.iter().all(|w| twins(w, &x)).to_string()
        }
    }
}

fn modular(o: &str, a: &[BigInt]) -> String {
    let m = &a[2];
    let (Some(x), Some(y)) = (Modular::new(a[0].clone(), m.clone()), Modular::new(a[1].clone(), m.clone())) else { return "none".into() };
    match o {
        "new" => x.to_string(),
        "add" => opt(x.add(&y)),
        "sub" => opt(x.sub(&y)),
        "mul" => opt(x.mul(&y)),
        "neg" => x.negated().to_string(),
        "pow" => x.pow(a[3].to_string().parse().expect("exponent")).to_string(),
        "inv" => opt(x.inverse()),
        "div" => opt(x.div(&y)),
        _ => {
            let z = Modular::new(a[1].clone(), m.add(&BigInt::from_i64(1))).expect("modulus");
            let all = [x.add(&z), x.sub(&z), x.mul(&z), x.div(&z)];
            all.into_iter().map(opt).find(|s| s != "none").unwrap_or("none".into())
        }
    }
}

/// m * 2^e, where the result is representable.
fn float(m: i64, e: i64) -> f64 {
    let p = |e: i64| f64::from_bits(((1023 + e) as u64) << 52);
    let h = e / 2;
    m as f64 * p(h) * p(e - h)
}
fn flt(o: &str, a: &[BigInt], k: &[i64]) -> String {
    let f = float(a[0].to_i64().expect("mantissa"), k[0]);
    match o {
        "exact" => opt(rational_from_f64_exact(f)),
        "cmpint" => {
            let b = cmp_bigint_f64_exact(&a[1], f);
            if let Some(i) = a[1].to_i64() { if cmp_i64_f64_exact(i, f) != b { return "i64 and big comparison differ".into(); } }
            b.map_or("none".into(), ord)
        }
        "cmprat" => cmp_rational_f64_exact(&Rational::new(a[1].clone(), a[2].clone()).expect("denominator"), f).map_or("none".into(), ord),
        _ => {
            let r = rational_from_f64_exact(f).expect("finite");
            let mut ok = numeric_hash_f64(f) == numeric_hash_rational(&r) && numeric_hash_f64(-f) == numeric_hash_rational(&r.negated()) && cmp_rational_f64_exact(&r, f) == Some(Ordering::Equal);
            if let Some(b) = r.to_bigint() { ok &= numeric_hash_bigint(&b) == numeric_hash_f64(f) && cmp_bigint_f64_exact(&b, f) == Some(Ordering::Equal); }
            ok.to_string()
        }
    }
}

fn word(o: &str, s: &[&str], k: &[i64]) -> String {
    macro_rules! at { ($w:ident) => {{
        let (x, y, n) = ($w(s[0].parse().expect("word")), $w(s[1].parse().expect("word")), k[0] as u32);
        let (p, q) = match o {
            "add" => (x.add(y), x + y), "sub" => (x.sub(y), x - y), "mul" => (x.mul(y), x * y),
            "div" => (x / y, x / y), "rem" => (x % y, x % y),
            "and" => (x.bitand(y), x & y), "or" => (x.bitor(y), x | y), "xor" => (x.bitxor(y), x ^ y), "not" => (x.not(), !x),
            "shl" => (x.shl(n), x << n), "shr" => (x.shr(n), x >> n),
            "rotl" => (x.rotl(n), x.rotl(n)), _ => (x.rotr(n), x.rotr(n)),
        };
        if p != q { format!("{} by name, {} by operator", p.get(), q.get()) } else { p.get().to_string() }
    }} }
    match k[1] { 8 => at!(Word8), 16 => at!(Word16), 32 => at!(Word32), _ => at!(Word64) }
}

fn lanes(o: &str, s: &[&str], k: &[i64]) -> String {
    let h = s.len() / 2;
    let n = k[0] as u32;
    let show = |v: Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    match k[1] {
        16 => {
            let of = |from: usize| Lanes16Word16(std::array::from_fn(|i| s[from + i].parse().expect("lane")));
            let (x, y) = (of(0), of(h));
            let r = match o { "add" => x.add(y), "sub" => x.sub(y), "mul" => x.mullo(y), _ => x.mulhi(y) };
            show((0..16).map(|i| r.lane(i).get() as u64).collect())
        }
        32 => {
            let of = |from: usize| Lanes8Word32(std::array::from_fn(|i| s[from + i].parse().expect("lane")));
            let (x, y) = (of(0), of(h));
            let r = match o { "add" => x.add(y), "sub" => x.sub(y), "and" => x.bitand(y), "or" => x.bitor(y), "xor" => x.bitxor(y), "not" => x.not(), _ => x.rotl(n) };
            show((0..8).map(|i| r.lane(i).get() as u64).collect())
        }
        _ => {
            let of = |from: usize| Lanes4Word64(std::array::from_fn(|i| s[from + i].parse().expect("lane")));
            let (x, y) = (of(0), of(h));
            let r = match o { "add" => x.add(y), "xor" => x.bitxor(y), "and" => x.and(y), "andnot" => x.andnot(y), "wide" => x.mul_lo32_wide(y), _ => x.rotl(n) };
            show((0..4).map(|i| r.lane(i).get()).collect())
        }
    }
}
