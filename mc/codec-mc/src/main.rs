mod conv;
mod setters;
mod space;

use bytes::BytesMut;
use conv::*;
use mcbase::*;
use refmqtt::*;
use vaux_mqtt::Packet;
use vaux_mqtt::codec::{Encode, ErrorKind, MqttCodecError, decode};

#[global_allocator]
static ALLOC: mem::Watched = mem::Watched;

pub type DecOut = Result<Option<(Packet, usize)>, MqttCodecError>;

pub fn dec(b: &[u8]) -> Result<DecOut, String> {
    catch(|| decode(&mut BytesMut::from(b)))
}
pub fn enc(p: &Packet) -> Result<Result<Vec<u8>, String>, String> {
    catch(|| {
        let mut d = BytesMut::new();
        p.encode(&mut d).map(|_| d.to_vec()).map_err(|e| e.reason)
    })
}
fn pclass(p: &P) -> String {
    p.name().to_lowercase()
}

// ------------------------------------------------------------------ C01 / C02

/// packet -> bytes -> packet -> bytes
fn c01(p: &P) -> Result<bool, (String, String)> {
    let Some(v) = build(p) else { return Ok(false) };
    let e = |k: &str, d: String| Err((format!("{}/{}", pclass(p), k), d));
    let b = match enc(&v) {
        Err(m) => return e("encode-panic", m),
        Ok(Err(m)) => return e("encode-error", m),
        Ok(Ok(b)) => b,
    };
    let (v2, n) = match dec(&b) {
        Err(m) => return e("decode-panic", m),
        Ok(Err(x)) => return e("decode-error", format!("{x:?} for {}", hexclip(&b))),
        Ok(Ok(None)) => return e("decode-none", hexclip(&b)),
        Ok(Ok(Some(x))) => x,
    };
    if n != b.len() {
        return e("length", format!("decoded {n} of {} bytes of {}", b.len(), hexclip(&b)));
    }
    if norm(v2.clone()) != norm(v.clone()) {
        return e("not-equal", clip(&format!("{v:?} became {v2:?}"), 900));
    }
    if let Some(d) = accessor_diff(p, &v2) {
        return e("accessor", d);
    }
    match enc(&v2) {
        Ok(Ok(b2)) => {
            let (x, y) = (refmqtt::decode(&b).map(|x| canon(x.0)), refmqtt::decode(&b2).map(|x| canon(x.0)));
            if x != y || b.len() != b2.len() {
                return e("re-encode", format!("{} vs {}", hexclip(&b), hexclip(&b2)));
            }
        }
        o => return e("re-encode-fail", format!("{o:?}")),
    }
    Ok(true)
}

fn orders(p: &P) -> Vec<P> {
    fn m(p: &P, f: &dyn Fn(&mut Props)) -> P {
        let mut q = p.clone();
        match &mut q {
            P::Connect { props, will, .. } => {
                f(props);
                if let Some(w) = will {
                    f(&mut w.props)
                }
            }
            P::ConnAck { props, .. }
            | P::Publish { props, .. }
            | P::Ack { props, .. }
            | P::Subscribe { props, .. }
            | P::SubAck { props, .. }
            | P::Unsubscribe { props, .. }
            | P::UnsubAck { props, .. }
            | P::Disconnect { props, .. }
            | P::Auth { props, .. } => f(props),
            _ => {}
        }
        q
    }
    let mut v = vec![p.clone()];
    let r = m(p, &|x| x.reverse());
    if r != *p {
        v.push(r)
    }
    let r = m(p, &|x| {
        if x.len() > 2 {
            x.rotate_left(1)
        }
    });
    if r != *p {
        v.push(r)
    }
    v
}

/// the wire image is exactly what the protocol prescribes, in both directions
fn c02(p: &P) -> Result<u64, (String, String)> {
    let e = |k: &str, d: String| Err((format!("{}/{}", pclass(p), k), d));
    let want = canon(p.clone());
    let mut n_run = 0;
    if let Some(v) = build(p) {
        n_run += 1;
        match enc(&v) {
            Ok(Ok(b)) => match refmqtt::decode(&b) {
                Ok((q, g)) => {
                    if canon(q.clone()) != want {
                        return e("encodes-other", clip(&format!("{want:?} was encoded as {q:?} ({})", hexclip(&b)), 1200));
                    }
                    if let Some(g) = g {
                        return e("encodes-forbidden", format!("{g}: {}", hexclip(&b)));
                    }
                }
                Err(x) => return e("encodes-malformed", format!("{x:?} in {}", hexclip(&b))),
            },
            o => return e("encode-fails", format!("{o:?}")),
        }
    }
    for q in orders(p) {
        for form in [Form::Short, Form::Mid, Form::Long] {
            let b = refmqtt::encode(&q, form);
            if form != Form::Short && b == refmqtt::encode(&q, Form::Short) {
                continue;
            }
            n_run += 1;
            let want = canon(q.clone());
            let v = match dec(&b) {
                Ok(Ok(Some((v, n)))) => {
                    if n != b.len() {
                        return e("length", format!("decoded {n} of {} bytes of {}", b.len(), hexclip(&b)));
                    }
                    v
                }
                o => return e("rejects-valid", clip(&format!("{o:?} for {} = {want:?}", hexclip(&b)), 1200)),
            };
            if let Some(d) = accessor_diff(&q, &v) {
                return e("misreads", format!("{d} in {}", hexclip(&b)));
            }
            if let Some(w) = build(&q) {
                let same = norm(w.clone()) == norm(v.clone())
                    || matches!((&w, &v), (Packet::PubAck(a) | Packet::PubRec(a) | Packet::PubRel(a) | Packet::PubComp(a),
                        Packet::PubAck(b) | Packet::PubRec(b) | Packet::PubRel(b) | Packet::PubComp(b))
                        if a.packet_id == b.packet_id && a.reason().unwrap_or_default() == b.reason().unwrap_or_default());
                if !same {
                    return e("misreads", clip(&format!("{} read as {v:?}, expected {w:?}", hexclip(&b)), 1200));
                }
            }
            match enc(&v) {
                Ok(Ok(b2)) => match refmqtt::decode(&b2) {
                    Ok((q2, _)) if canon(q2.clone()) == want => {}
                    o => return e("re-encodes-other", clip(&format!("{want:?} came back as {o:?}"), 1200)),
                },
                o => return e("re-encode-fails", format!("{o:?}")),
            }
        }
    }
    Ok(n_run)
}

fn run_space(ctx: &Ctx) {
    let gens = space::space(ctx.thorough);
    for g in &gens {
        let chunk = 64usize;
        let built = std::sync::atomic::AtomicU64::new(0);
        par(ctx, g.n.div_ceil(chunk), |c| {
            let mut st = 0;
            let mut tr = 0;
            for i in c * chunk..((c + 1) * chunk).min(g.n) {
                let p = (g.f)(i);
                at(|s| s.push_str(&format!("{} {} {}", g.name, i, ctx.tier())));
                st += 1;
                let r = if ctx.id == "C01" { c01(&p).map(|b| b as u64) } else { c02(&p) };
                match r {
                    Ok(n) => tr += n,
                    Err((k, d)) => ctx.violation(&k, || d, || format!("{} {} {}", g.name, i, ctx.tier())),
                }
                if i % (g.n / 2 + 1) == g.n / 3 {
                    ctx.sample(|| format!("{}#{}: {}", g.name, i, hexclip(&refmqtt::encode(&p, Form::Short))));
                }
            }
            ctx.st(st);
            ctx.tr(tr);
            ctx.tc(tr);
            built.fetch_add(tr, std::sync::atomic::Ordering::Relaxed);
        });
        ctx.count(&format!("packets {}", g.name), g.n as u64);
        assert!(built.load(std::sync::atomic::Ordering::Relaxed) > 0 || ctx.unlisted() > 0, "nothing exercised in {}", g.name);
    }
    ctx.rule(
        "every subset of the optional properties of each packet type, all pairs of property boundary values, full products of \
         payload-field boundary values, all reason codes/option bytes, and every remaining/property length around the variable \
         byte integer boundaries; a state is one distinct packet, a transition one encode or decode of the implementation \
         checked against the reference codec",
    );
}

// ------------------------------------------------------------------ C03 C04 C05: byte strings

/// (property, class, description) of what is wrong with the handling of this byte string
fn judge(b: &[u8]) -> Option<(&'static str, String, String)> {
    at(|s| hex_into(&b[..b.len().min(4096)], s));
    let mark = mem::mark();
    let o = match dec(b) {
        Err(m) => {
            let t = m.rsplit('/').next().unwrap_or("").to_string();
            return Some(("C03", format!("panic {}", t), format!("{m} on {}", hexclip(b))));
        }
        Ok(o) => o,
    };
    // one field announced with its greatest length, and a multiple of what is there
    if mem::since(mark) > 80_000 + 120 * b.len() as i64 {
        let t = b.first().map(|x| type_name(*x >> 4).to_lowercase()).unwrap_or_default();
        return Some(("C03", format!("{t}/allocates"), format!("{} bytes held while decoding {} of {}", mem::since(mark), b.len(), hexclip(b))));
    }
    if let Ok(Some((v, _))) = &o {
        // whatever was accepted can be looked at and written again
        if let Err(m) = catch(|| inspect(v)).and_then(|_| enc(v)) {
            return Some(("C03", "inspect panic".into(), format!("{m} inspecting {}", hexclip(b))));
        }
    }
    let insuff = matches!(&o, Err(e) if matches!(e.kind, ErrorKind::InsufficientData(..)));
    match framing(b) {
        Framing::Incomplete => match &o {
            Ok(_) => Some(("C04", "incomplete-accepted".into(), format!("{o:?} on {}", hexclip(b)))),
            Err(_) if insuff => None,
            Err(e) => {
                // an early verdict is fine only if no continuation could be valid
                let bad_first = !b.is_empty() && {
                    let (t, f) = (b[0] >> 4, b[0] & 15);
                    match t {
                        0 | 15 => true,
                        3 => f & 6 == 6,
                        6 | 8 | 10 => f != 2,
                        _ => f != 0,
                    }
                };
                if bad_first {
                    None
                } else {
                    Some(("C04", "incomplete-rejected".into(), format!("{e:?} on {}", hexclip(b))))
                }
            }
        },
        Framing::Bad => match &o {
            Err(_) if !insuff => None,
            _ => Some(("C05", "accepts remaining length".into(), format!("{o:?} on {}", hexclip(b)))),
        },
        Framing::Frame(n, _) => {
            let f = &b[..n];
            let t = type_name(b[0] >> 4).to_lowercase();
            if insuff {
                return Some(("C04", format!("{t}/complete-frame-reported-incomplete"), format!("{o:?} on {}", hexclip(b))));
            }
            if let Ok(Some((_, l))) = &o {
                if *l != n {
                    return Some(("C04", format!("{t}/wrong-length"), format!("consumed {l}, frame has {n}: {}", hexclip(b))));
                }
            }
            match (refmqtt::decode(f), &o) {
                (Err(Bad::Malformed(m)), Ok(_)) => {
                    Some(("C05", format!("{t}/accepts malformed: {m}"), clip(&format!("{o:?} on {}", hexclip(b)), 800)))
                }
                (Err(_), Err(_)) => None,
                (Err(_), Ok(_)) => None,
                (Ok((P::Auth { .. }, _)), _) => None,
                (Ok((_, Some(_))), _) => None,
                (Ok((p, None)), Ok(Some((v, _)))) => {
                    if let Some(d) = accessor_diff(&p, v) {
                        return Some(("C05", format!("{t}/misreads"), format!("{d} in {}", hexclip(b))));
                    }
                    match enc(v) {
                        Ok(Ok(b2)) => match refmqtt::decode(&b2) {
                            Ok((q, _)) if canon(q.clone()) == canon(p.clone()) => None,
                            o => Some(("C05", format!("{t}/misreads"), clip(&format!("{p:?} came back as {o:?}"), 800))),
                        },
                        o => Some(("C05", format!("{t}/misreads"), format!("re-encode {o:?} of {}", hexclip(b)))),
                    }
                }
                (Ok((p, None)), o) => {
                    Some(("C05", format!("{t}/rejects valid"), clip(&format!("{o:?} on {} = {p:?}", hexclip(b)), 800)))
                }
            }
        }
    }
}

const ALPHA: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x15, 0x16, 0x1f, 0x21, 0x23, 0x24, 0x26, 0x27, 0x41,
    0x7f, 0x80, 0xc3, 0xff,
];

struct Sweep<'a> {
    ctx: &'a Ctx,
    n: u64,
}
impl Sweep<'_> {
    fn go(&mut self, b: &[u8]) {
        self.n += 1;
        if let Some((id, k, d)) = judge(b) {
            if id == self.ctx.id {
                self.ctx.violation(&k, || d, || hex(b));
            }
        }
    }
}
impl Drop for Sweep<'_> {
    fn drop(&mut self) {
        self.ctx.st(self.n);
        self.ctx.tr(self.n);
        self.ctx.tc(self.n);
    }
}

fn words(alpha: &[u8], k: usize, f: &mut dyn FnMut(&[u8])) {
    let mut w = vec![0usize; k];
    let mut b = vec![alpha[0]; k];
    loop {
        f(&b);
        let mut i = 0;
        loop {
            if i == k {
                return;
            }
            w[i] += 1;
            if w[i] < alpha.len() {
                b[i] = alpha[w[i]];
                break;
            }
            w[i] = 0;
            b[i] = alpha[0];
            i += 1;
        }
    }
}

fn base_frames() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for p in space::corpus() {
        for f in [Form::Short, Form::Mid, Form::Long] {
            let b = refmqtt::encode(&p, f);
            if !v.contains(&b) {
                v.push(b)
            }
        }
    }
    // an AUTH frame and reserved type
    v.push(vec![0xf0, 0]);
    v.push(vec![0xf0, 2, 0x18, 0]);
    v.push(vec![0x00, 0]);
    v
}

fn run_bytes(ctx: &Ctx) {
    // all byte strings of length <= 3 (4 in the thorough tier for the packet-type nibbles of interest)
    par(ctx, 256, |a| {
        let mut s = Sweep { ctx, n: 0 };
        if a == 0 {
            s.go(&[]);
        }
        s.go(&[a as u8]);
        for b in 0..=255u8 {
            s.go(&[a as u8, b]);
            for c in 0..=255u8 {
                s.go(&[a as u8, b, c]);
            }
        }
    });
    ctx.count("all byte strings up to length", 3);
    // every frame over the alphabet up to a body length
    let maxn = if ctx.thorough { 5 } else { 4 };
    let firsts: Vec<u8> = (1..16u8)
        .map(|t| (t << 4) | if matches!(t, 6 | 8 | 10) { 2 } else { 0 })
        .chain([0x31, 0x32, 0x34, 0x36, 0x3a, 0x3c, 0x60, 0x83])
        .collect();
    par(ctx, firsts.len() * ALPHA.len(), |i| {
        let (f, a) = (firsts[i / ALPHA.len()], ALPHA[i % ALPHA.len()]);
        let mut s = Sweep { ctx, n: 0 };
        let mut b = vec![];
        for n in 1..=maxn {
            words(ALPHA, n - 1, &mut |w| {
                b.clear();
                b.push(f);
                b.push(n as u8);
                b.push(a);
                b.extend_from_slice(w);
                s.go(&b);
            });
        }
    });
    ctx.count("alphabet body length", maxn as u64);
    // mutation neighbourhood of every packet shape
    let bases = base_frames();
    ctx.count("base frames", bases.len() as u64);
    let mut jobs = vec![];
    for (i, b) in bases.iter().enumerate() {
        for pos in 0..=b.len() {
            jobs.push((i, pos))
        }
    }
    let k = if ctx.thorough { 3 } else { 2 };
    par(ctx, jobs.len(), |j| {
        let (i, pos) = jobs[j];
        let base = &bases[i];
        let Framing::Frame(_, h) = framing(base) else { panic!() };
        let body = &base[h..];
        let mut s = Sweep { ctx, n: 0 };
        // raw prefix, and raw substitution anywhere (header included)
        s.go(&base[..pos]);
        if pos < base.len() {
            let mut m = base.clone();
            for x in 0..=255u8 {
                m[pos] = x;
                s.go(&m);
                // the same with a tail behind it
                if pos < h {
                    let mut t = m.clone();
                    t.extend_from_slice(&[0xc0, 0x00, 0x30]);
                    s.go(&t);
                }
            }
        }
        if pos >= h {
            let p = pos - h;
            // cut here and continue with every word over the alphabet; header re-computed
            for n in 0..=k {
                words(ALPHA, n, &mut |w| {
                    let mut x = body[..p].to_vec();
                    x.extend_from_slice(w);
                    s.go(&frame(base[0], &x));
                });
            }
            // insert any byte, delete a byte, duplicate the tail; header re-computed
            for x in 0..=255u8 {
                let mut m = body.to_vec();
                m.insert(p, x);
                s.go(&frame(base[0], &m));
            }
            if p < body.len() {
                let mut m = body.to_vec();
                m.remove(p);
                s.go(&frame(base[0], &m));
                if ctx.thorough {
                    // two substitutions over the alphabet
                    for q in p + 1..body.len().min(p + 40) {
                        let mut m = body.to_vec();
                        for a in ALPHA {
                            m[p] = *a;
                            for b in ALPHA {
                                m[q] = *b;
                                s.go(&frame(base[0], &m));
                            }
                        }
                    }
                }
            }
            // the byte here is a length: longer by an inserted byte, shorter by a removed one
            for q in p + 1..=body.len().min(p + 80) {
                for x in [0x00u8, b'T', b'/', 0xff] {
                    let mut m = body.to_vec();
                    m[p] = m[p].wrapping_add(1);
                    m.insert(q, x);
                    s.go(&frame(base[0], &m));
                }
                if q < body.len() {
                    let mut m = body.to_vec();
                    m[p] = m[p].wrapping_sub(1);
                    m.remove(q);
                    s.go(&frame(base[0], &m));
                }
            }
            let mut m = body.to_vec();
            m.extend_from_slice(&body[p..]);
            s.go(&frame(base[0], &m));
        }
    });
    for b in bases.iter().take(4) {
        ctx.sample(|| format!("neighbourhood of {}", hexclip(b)));
    }
    ctx.rule(
        "all byte strings up to 3 bytes; every frame with a body over a 24-byte alphabet up to the stated length; the complete \
         single-edit neighbourhood (substitute/insert/delete/cut+continue) of one frame per packet shape. Every string is decoded \
         by the implementation and by the reference parser; a state is one distinct input, a transition one implementation decode",
    );
}

// ------------------------------------------------------------------ C04 framing

fn run_framing(ctx: &Ctx) {
    run_bytes(ctx);
    let bases: Vec<Vec<u8>> = base_frames().into_iter().filter(|b| matches!(refmqtt::decode(b), Ok((ref p, _)) if !matches!(p, P::Auth{..}))).collect();
    let mut sufs: Vec<Vec<u8>> = bases.clone();
    for n in 1..=2 {
        words(ALPHA, n, &mut |w| sufs.push(w.to_vec()));
    }
    for b in 0..=255u8 {
        sufs.push(vec![b])
    }
    // the longest header forms
    let mut big = vec![];
    for n in [126usize, 127, 128, 129, 16383, 16384, 2097151, 2097152] {
        big.push(refmqtt::encode(
            &P::Publish { dup: false, qos: 0, retain: false, topic: "t".into(), pid: None, props: vec![], payload: vec![1; n - 4] },
            Form::Short,
        ));
    }
    par(ctx, bases.len(), |i| {
        let mut n = 0;
        let b = &bases[i];
        let alone = match dec(b) {
            Ok(Ok(Some((v, l)))) if l == b.len() => v,
            o => {
                ctx.violation("alone", || format!("{o:?} for {}", hexclip(b)), || hex(b));
                return;
            }
        };
        for cut in 0..b.len() {
            n += 1;
            match dec(&b[..cut]) {
                Ok(Err(e)) if matches!(e.kind, ErrorKind::InsufficientData(..)) => {}
                o => ctx.violation("prefix", || clip(&format!("prefix {} of {}: {o:?}", cut, hexclip(b)), 600), || hex(&b[..cut])),
            }
        }
        for s in &sufs {
            n += 1;
            let mut x = b.clone();
            x.extend_from_slice(s);
            match dec(&x) {
                Ok(Ok(Some((v, l)))) if l == b.len() && v == alone => {}
                o => ctx.violation(
                    &format!("{}/followed", type_name(b[0] >> 4)),
                    || clip(&format!("{} followed by {}: {o:?}", hexclip(b), hexclip(s)), 900),
                    || hex(&x),
                ),
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tc(n);
    });
    par(ctx, big.len(), |i| {
        let b = &big[i];
        let step = (b.len() / 2000).max(1);
        let mut n = 0;
        for cut in (0..b.len()).step_by(step).chain([b.len() - 1, b.len() - 2]).chain(0..8) {
            n += 1;
            match dec(&b[..cut]) {
                Ok(Err(e)) if matches!(e.kind, ErrorKind::InsufficientData(..)) => {}
                o => ctx.violation("prefix", || clip(&format!("prefix {} of {}: {o:?}", cut, hexclip(b)), 600), || format!("{}..", hex(&b[..cut.min(100)]))),
            }
        }
        for s in [&b"\xc0\x00"[..], &b"\x30"[..], &b"\x00\xff\xff\xff"[..], &b[..]] {
            n += 1;
            let mut x = b.clone();
            x.extend_from_slice(s);
            match dec(&x) {
                Ok(Ok(Some((_, l)))) if l == b.len() => {}
                Ok(o) => ctx.violation("big/followed", || clip(&format!("{:?} for {}", o.map(|x| x.map(|y| y.1)), hexclip(b)), 300), || hexclip(&x)),
                Err(m) => ctx.violation("big/panic", || m, || hexclip(&x)),
            }
        }
        ctx.st(n);
        ctx.tr(n);
        ctx.tc(n);
    });
}

// ------------------------------------------------------------------ C06 variable byte integers

fn c06(v: u32) -> Option<(String, String)> {
    use vaux_mqtt::codec::*;
    let mut want = vec![];
    varint(v, &mut want);
    let r = catch(|| {
        let mut d = BytesMut::with_capacity(8);
        encode_variable_byte_int(v, &mut d)?;
        let got = d.to_vec();
        d.extend_from_slice(&[0xff, 0x80]);
        let (x, n) = decode_variable_byte_int(&mut d)?;
        Ok::<_, MqttCodecError>((got, x, n, d.len(), variable_byte_int_size(v)))
    });
    match r {
        Ok(Ok((got, x, n, left, sz))) => {
            if got != want {
                return Some(("encoding".into(), format!("{v}: {} expected {}", hex(&got), hex(&want))));
            }
            if x != v || n != want.len() || left != 2 {
                return Some(("decoding".into(), format!("{v}: decoded {x} using {n} bytes, {left} left")));
            }
            if sz as usize != want.len() {
                return Some(("size".into(), format!("{v}: size {sz}, encoding has {}", want.len())));
            }
            None
        }
        Ok(Err(e)) => Some((format!("rejects {}-byte value", want.len()), format!("{v}: {e:?}"))),
        Err(m) => Some(("panic".into(), format!("{v}: {m}"))),
    }
}

fn run_varint(ctx: &Ctx) {
    use vaux_mqtt::codec::*;
    // The complete domain. In-place fast path; the slow path above describes a failure.
    const CH: u32 = 1 << 16;
    par(ctx, ((1u64 << 28) / CH as u64) as usize, |c| {
        let lo = c as u32 * CH;
        let mut d = BytesMut::with_capacity(CH as usize * 4 + 16);
        let mut ok = true;
        let r = catch(|| {
            for v in lo..lo + CH {
                let l0 = d.len();
                if encode_variable_byte_int(v, &mut d).is_err() {
                    return false;
                }
                if (d.len() - l0) as u32 != variable_byte_int_size(v) {
                    return false;
                }
                let mut w = [0u8; 4];
                let n = if v < 128 { 1 } else if v < 16384 { 2 } else if v < 2097152 { 3 } else { 4 };
                for (i, b) in w.iter_mut().enumerate().take(n) {
                    *b = ((v >> (7 * i)) & 0x7f) as u8 | if i + 1 < n { 0x80 } else { 0 };
                }
                if d[l0..] != w[..n] {
                    return false;
                }
            }
            for v in lo..lo + CH {
                match decode_variable_byte_int(&mut d) {
                    Ok((x, n)) if x == v && n as u32 == variable_byte_int_size(v) => {}
                    _ => return false,
                }
            }
            d.is_empty()
        });
        if !matches!(r, Ok(true)) {
            ok = false;
        }
        if !ok {
            for v in (lo..lo + CH).step_by(1) {
                if let Some((k, e)) = c06(v) {
                    ctx.violation(&k, || e, || format!("{v}"));
                    break;
                }
            }
        }
        ctx.st(CH as u64);
        ctx.tr(2 * CH as u64);
        ctx.tc(CH as u64);
    });
    // not encodings: five bytes or more, and every truncation
    let mut n = 0u64;
    for a in 0x80..=0xffu8 {
        for b in [0x80u8, 0x81, 0xff] {
            for c in [0x80u8, 0x81, 0xff] {
                for d in 0x80..=0xffu8 {
                    for tail in [&[][..], &[0x00][..], &[0x01][..], &[0x7f][..], &[0x80, 0x00][..]] {
                        let mut x = vec![a, b, c, d];
                        x.extend_from_slice(tail);
                        n += 1;
                        match catch(|| decode_variable_byte_int(&mut BytesMut::from(&x[..]))) {
                            Ok(Err(_)) => {}
                            o => ctx.violation("overlong-accepted", || format!("{o:?} for {}", hex(&x)), || hex(&x)),
                        }
                        // and as the remaining length of a frame
                        let mut f = vec![0x30];
                        f.extend_from_slice(&x);
                        f.extend_from_slice(&[0; 8]);
                        match dec(&f) {
                            Ok(Err(e)) if !matches!(e.kind, ErrorKind::InsufficientData(..)) => {}
                            o => ctx.violation("overlong-remaining-length", || format!("{o:?} for {}", hex(&f)), || hex(&f)),
                        }
                    }
                }
            }
        }
    }
    for k in 0..4 {
        words(&[0x80, 0x81, 0xff], k, &mut |w| {
            n += 1;
            match catch(|| decode_variable_byte_int(&mut BytesMut::from(w))) {
                Ok(Err(e)) if matches!(e.kind, ErrorKind::InsufficientData(..)) => {}
                o => ctx.violation("truncated", || format!("{o:?} for {}", hex(w)), || hex(w)),
            }
        });
    }
    // values outside the domain have no encoding
    for i in 0..64u32 {
        for v in [(1u32 << 28) + i, u32::MAX - i, (1 << 28) + (i << 22)] {
            n += 1;
            match catch(|| encode_variable_byte_int(v, &mut BytesMut::new())) {
                Ok(Err(_)) => {}
                o => ctx.violation("encodes-out-of-range", || format!("{o:?} for {v}"), || format!("{v}")),
            }
        }
    }
    ctx.st(n);
    ctx.tr(n);
    ctx.tc(n);
    ctx.sample(|| "all 268435456 values 0..=0x0fffffff encoded, measured and decoded".into());
    ctx.sample(|| "ffffff7f -> 268435455; ffffffff01 -> rejected".into());
    ctx.rule("the complete value domain 0..2^28, plus over-long, truncated and out-of-range cases; a state is one value, a transition one encode or decode");
}

fn main() {
    install_panic_hook();
    let a = args();
    if let Some(f) = &a.replay {
        let (id, case) = read_replay(f);
        println!("replaying {id}: {case}");
        match id.as_str() {
            "C01" | "C02" => {
                let w: Vec<&str> = case.split(' ').collect();
                let g = space::space(w[2] == "thorough").into_iter().find(|g| g.name == w[0]).unwrap();
                let p = (g.f)(w[1].parse().unwrap());
                println!("{}", clip(&format!("{p:?}"), 2000));
                println!("{:?}", if id == "C01" { c01(&p).map(|_| ()) } else { c02(&p).map(|_| ()) });
            }
            "C07" => setters::replay(&case),
            "C06" => println!("{:?}", case.parse().ok().and_then(c06)),
            _ => println!("{:?}\n{:?}", judge(&unhex(&case)), dec(&unhex(&case))),
        }
        return;
    }
    let ctx = Ctx::new(&a.id, &a.tier, a.seed, a.verif);
    ctx.assume("the reference codec in /verif/mc/refmqtt states the MQTT 5.0 wire format correctly");
    ctx.assume("packets are compared up to the order of different properties (that of user properties counts), and absent = empty for binary fields");
    match a.id.as_str() {
        "C01" | "C02" => run_space(&ctx),
        "C03" | "C05" => run_bytes(&ctx),
        "C04" => run_framing(&ctx),
        "C06" => run_varint(&ctx),
        "C07" => setters::run(&ctx),
        x => {
            eprintln!("unknown property {x}");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
