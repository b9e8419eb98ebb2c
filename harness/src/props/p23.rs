//! P23 HTTP responses, P24 return of the reader

use super::p12::fault;
use super::wire::{wire_check, wire_strat};
use crate::engine::*;
use crate::exec::flag;
use crate::hist::*;
use crate::model::*;
use crate::source::*;
use crate::{ensure, fail};
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{ACCEPT_RANGES, CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, HeaderValue, RANGE};
use actix_web::{HttpRequest, HttpResponse, Responder};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::task::{Context, Poll};
use zippity::{Builder, Reader};

/// Number in a range specification, resolved against the size of the archive
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum N {
    At(Pos),
    /// Relative to the size
    Size(i32),
    Small(u32),
    Raw(u64),
    /// Over 2^64
    Huge(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spec {
    FromTo(N, N),
    /// Start and length
    Len(N, u32),
    From(N),
    Last(N),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Header {
    None,
    /// Ranges, spaces after commas
    Ranges(Vec<Spec>, bool),
    /// Ranges written in ways that servers may refuse or accept: style
    Odd(Vec<Spec>, u8),
    /// Nonsense
    Bad(u8, Vec<u8>),
}

fn n() -> BoxedStrategy<N> {
    prop_oneof![
        4 => pos_strategy().prop_map(N::At),
        3 => (-3i32..4).prop_map(N::Size),
        1 => (-1000i32..1000).prop_map(N::Size),
        2 => (0u32..200).prop_map(N::Small),
        1 => any::<u64>().prop_map(N::Raw),
        1 => proptest::sample::select(vec![u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1]).prop_map(N::Raw),
    ]
    .boxed()
}

fn spec() -> BoxedStrategy<Spec> {
    prop_oneof![
        3 => (n(), n()).prop_map(|(a, b)| Spec::FromTo(a, b)),
        5 => (n(), prop_oneof![0u32..40, 0u32..30_000]).prop_map(|(a, b)| Spec::Len(a, b)),
        3 => n().prop_map(Spec::From),
        3 => n().prop_map(Spec::Last),
    ]
    .boxed()
}

pub fn header() -> BoxedStrategy<Header> {
    prop_oneof![
        2 => Just(Header::None),
        8 => spec().prop_map(|s| Header::Ranges(vec![s], false)),
        2 => (proptest::collection::vec(spec(), 2..5), any::<bool>()).prop_map(|(a, b)| Header::Ranges(a, b)),
        1 => (proptest::collection::vec(spec(), 1..3), 0u8..8).prop_map(|(a, b)| Header::Odd(a, b)),
        1 => (spec(), any::<u8>()).prop_map(|(a, h)| {
            let s = match a { Spec::From(_) => Spec::From(N::Huge(h)), Spec::Last(_) => Spec::Last(N::Huge(h)), Spec::FromTo(a, _) | Spec::Len(a, _) => Spec::FromTo(a, N::Huge(h)) };
            Header::Odd(vec![s], 0)
        }),
        2 => (0u8..18, proptest::collection::vec(prop_oneof![3 => 32u8..127, 1 => 128u8..=255], 0..20)).prop_map(|(a, b)| Header::Bad(a, b)),
    ]
    .boxed()
}

impl N {
    fn value(&self, bounds: &[u64], size: u64) -> Result<u64, String> {
        Ok(match self {
            N::At(p) => p.resolve(bounds, size),
            N::Size(d) => size.saturating_add_signed((*d).into()),
            N::Small(x) => (*x).into(),
            N::Raw(x) => *x,
            N::Huge(d) => {
                // 20 digits, over 2^64
                return Err(format!("{}", u128::from(u64::MAX) + 1 + u128::from(*d)));
            }
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
enum R {
    /// start, end including; before clamping
    Ok(u64, u64),
    /// Well formed, out of the file
    Outside,
    /// Refused or served as this range
    Maybe(Option<(u64, u64)>),
}

/// Text of the range and what it means for a file of this size
fn resolve(s: &Spec, bounds: &[u64], size: u64) -> (String, R) {
    let range = |a: u64, b: u64| {
        if a > b {
            // Invalid according to the RFC, but the documentation doesn't say which refusal it is
            R::Maybe(None)
        } else if a >= size {
            R::Outside
        } else {
            R::Ok(a, b.min(size - 1))
        }
    };
    match s {
        Spec::FromTo(a, b) => {
            let a = a.value(bounds, size).unwrap_or(0);
            match b.value(bounds, size) {
                Ok(b) => (format!("{a}-{b}"), range(a, b)),
                Err(t) => (format!("{a}-{t}"), R::Maybe((a < size).then_some((a, size - 1)))),
            }
        }
        Spec::Len(a, l) => {
            let a = a.value(bounds, size).unwrap_or(0);
            let b = a.saturating_add(u64::from(*l));
            (format!("{a}-{b}"), range(a, b))
        }
        Spec::From(a) => match a.value(bounds, size) {
            Ok(a) => (format!("{a}-"), if a >= size { R::Outside } else { R::Ok(a, size - 1) }),
            Err(t) => (format!("{t}-"), R::Maybe(None)),
        },
        Spec::Last(a) => match a.value(bounds, size) {
            Ok(0) => ("-0".into(), R::Maybe(None)),
            Ok(a) if a > size => (format!("-{a}"), R::Maybe(Some((0, size - 1)))),
            Ok(a) => (format!("-{a}"), R::Ok(size - a, size - 1)),
            Err(t) => (format!("-{t}"), R::Maybe(Some((0, size - 1)))),
        },
    }
}

/// Possible answers to a request
#[derive(Debug, Default)]
pub struct Allowed {
    pub ranges: Vec<(u64, u64)>,
    /// 200 with everything, as if there was no header
    pub plain: bool,
    not_satisfiable: bool,
    bad_request: bool,
}

pub fn header_value(h: &Header, bounds: &[u64], size: u64) -> (Option<Vec<u8>>, Allowed) {
    let mut al = Allowed::default();
    match h {
        Header::None => {
            al.plain = true;
            (None, al)
        }
        Header::Ranges(v, _) | Header::Odd(v, 0) => {
            let space = space_of(h);
            let parts: Vec<(String, R)> = v.iter().map(|s| resolve(s, bounds, size)).collect();
            let text = parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(if space { ", " } else { "," });
            match &parts[0].1 {
                R::Ok(a, b) => al.ranges.push((*a, *b)),
                R::Outside => al.not_satisfiable = true,
                R::Maybe(r) => {
                    al.ranges.extend(*r);
                    al.not_satisfiable = true;
                    al.bad_request = true;
                }
            }
            // Other ranges may spoil the request, or may be served if the first one is out of the file
            for (i, (_, r)) in parts.iter().enumerate().skip(1) {
                match r {
                    R::Ok(a, b) => {
                        let overlaps = parts[..i].iter().any(|p| match p.1 {
                            R::Ok(c, d) => *a <= d && c <= *b,
                            R::Maybe(Some((c, d))) => *a <= d && c <= *b,
                            _ => false,
                        });
                        al.not_satisfiable |= overlaps;
                        if matches!(parts[0].1, R::Outside) {
                            al.ranges.push((*a, *b));
                        }
                    }
                    R::Outside => al.not_satisfiable = true,
                    R::Maybe(x) => {
                        al.not_satisfiable = true;
                        al.bad_request = true;
                        if matches!(parts[0].1, R::Outside) {
                            al.ranges.extend(*x);
                        }
                    }
                }
            }
            (Some(format!("bytes={text}").into_bytes()), al)
        }
        Header::Odd(v, style) => {
            let parts: Vec<(String, R)> = v.iter().map(|s| resolve(s, bounds, size)).collect();
            let texts: Vec<String> = parts.iter().map(|p| p.0.clone()).collect();
            let text = match style {
                1 => format!("bytes={} ", texts.join(",")),
                2 => format!("bytes= {}", texts.join(",")),
                3 => format!("bytes={}", texts.join(" ,")),
                4 => format!("bytes=,{}", texts.join(",")),
                5 => format!("Bytes={}", texts.join(",")),
                6 => format!("items={}", texts.join(",")),
                _ => format!("bytes=0{}", texts.join(",0")),
            };
            al.plain = true;
            al.bad_request = true;
            al.not_satisfiable = true;
            for (_, r) in parts {
                match r {
                    R::Ok(a, b) => al.ranges.push((a, b)),
                    R::Maybe(r) => al.ranges.extend(r),
                    R::Outside => {}
                }
            }
            if *style >= 7 {
                // The zero may change a suffix to a range from zero
                al.ranges.extend(v.iter().filter_map(|s| match s {
                    Spec::Last(n) => Some((0, n.value(bounds, size).ok()?.min(size - 1))),
                    _ => None,
                }));
            }
            (Some(text.into_bytes()), al)
        }
        Header::Bad(k, junk) => {
            al.bad_request = true;
            let junk: Vec<u8> = junk.clone();
            let clean: Vec<u8> = junk.iter().copied().filter(|b| b.is_ascii_alphabetic()).collect();
            let bytes = |s: &str| s.as_bytes().to_vec();
            let v = match k {
                0 => bytes("bytes="),
                1 => bytes("bytes=-"),
                2 => bytes("bytes=1"),
                3 => bytes("bytes=1-2-3"),
                4 => bytes("bytes=--5"),
                5 => bytes("bytes=a-b"),
                6 => bytes("bytes=1-b"),
                7 => bytes("bytes=a-1"),
                8 => bytes("bytes=0-1,x"),
                9 => bytes("bytes=0x1-0x2"),
                10 => bytes("bytes"),
                11 => bytes("bytes 0-5"),
                12 => bytes("0-5"),
                13 => vec![],
                14 => [b"bytes=".to_vec(), clean].concat(),
                15 => [b"bytes=0-".to_vec(), clean, b"x".to_vec()].concat(),
                16 => [b"bytes=0-5\xff".to_vec(), junk].concat(),
                _ => bytes("bytes=0-5,1.5-2"),
            };
            (Some(v), al)
        }
    }
}

fn space_of(h: &Header) -> bool {
    matches!(h, Header::Ranges(_, true))
}

/// Methods: GET mostly
pub fn method() -> BoxedStrategy<u8> {
    prop_oneof![8 => Just(0u8), 1 => Just(1), 1 => Just(2)].boxed()
}

pub fn request(h: Option<&[u8]>, method: u8) -> HttpRequest {
    let mut r = match method {
        0 => actix_web::test::TestRequest::get(),
        1 => actix_web::test::TestRequest::default().method(actix_web::http::Method::HEAD),
        _ => actix_web::test::TestRequest::post(),
    };
    if let Some(v) = h {
        if let Ok(v) = HeaderValue::from_bytes(v) {
            r = r.insert_header((RANGE, v));
        }
    }
    r.to_http_request()
}

fn header_text(r: &HttpResponse<BoxBody>, name: actix_web::http::header::HeaderName) -> Result<Option<String>, String> {
    let mut all = r.headers().get_all(&name);
    let first = all.next();
    ensure!(all.next().is_none(), "header {name} is present more than once");
    match first {
        None => Ok(None),
        Some(v) => Ok(Some(v.to_str().map_err(|e| e.to_string())?.to_string())),
    }
}

/// Judges everything but the body; returns what the body has to be
fn judge_head(resp: &HttpResponse<BoxBody>, al: &Allowed, size: u64, what: &str) -> Result<Option<(u64, u64)>, String> {
    let range = header_text(resp, CONTENT_RANGE)?;
    let length = header_text(resp, CONTENT_LENGTH)?;
    let body = resp.body().size();
    if let Some(l) = &length {
        if let BodySize::Sized(n) = body {
            ensure!(*l == n.to_string(), "{what}: Content-Length is {l}, size of the body {n}");
        }
    }
    let len = match length {
        None => None,
        Some(l) => Some(l.parse().map_err(|_| format!("Content-Length {l:?}"))?),
    };
    if let (200 | 206, Some(len)) = (resp.status().as_u16(), len) {
        ensure!(body == BodySize::Sized(len), "{what}: body announces {body:?}, Content-Length is {len}");
    }
    judge_values(
        resp.status().as_u16(),
        header_text(resp, CONTENT_TYPE)?.as_deref(),
        header_text(resp, ACCEPT_RANGES)?.as_deref(),
        range.as_deref(),
        len,
        al,
        size,
        what,
    )
}

/// The same for values of headers
#[allow(clippy::too_many_arguments)]
pub fn judge_values(
    status: u16,
    content_type: Option<&str>,
    accept: Option<&str>,
    range: Option<&str>,
    length: Option<u64>,
    al: &Allowed,
    size: u64,
    what: &str,
) -> Result<Option<(u64, u64)>, String> {
    match status {
        200 | 206 => {
            ensure!(content_type == Some("application/zip"), "{what}: Content-Type is not application/zip");
            ensure!(accept == Some("bytes"), "{what}: Accept-Ranges is not bytes");
            let Some(len) = length else {
                fail!("{what}: Content-Length is missing");
            };
            let (a, b) = match range {
                None => {
                    ensure!(al.plain, "{what}: answered by {status} without Content-Range");
                    ensure!(status == 200, "{what}: status {status} without Content-Range");
                    (0, size - 1)
                }
                Some(r) => {
                    ensure!(!al.ranges.is_empty(), "{what}: answered by {status} with Content-Range {r:?}");
                    let parse = || -> Option<(u64, u64, u64)> {
                        let (se, n) = r.strip_prefix("bytes ")?.split_once('/')?;
                        let (s, e) = se.split_once('-')?;
                        Some((s.parse().ok()?, e.parse().ok()?, n.parse().ok()?))
                    };
                    let Some((s, e, n)) = parse() else {
                        fail!("{what}: Content-Range {r:?} is malformed");
                    };
                    ensure!(n == size, "{what}: Content-Range {r:?}, archive has {size} B");
                    ensure!(al.ranges.contains(&(s, e)), "{what}: Content-Range {r:?}, {:?} was requested", al.ranges);
                    let whole = s == 0 && e == size - 1;
                    ensure!((status == 200) == whole, "{what}: status {status} for {r:?}");
                    (s, e)
                }
            };
            ensure!(len.checked_sub(1) == Some(b - a), "{what}: Content-Length is {len} for bytes {a}-{b}");
            Ok(Some((a, b)))
        }
        416 => {
            ensure!(al.not_satisfiable, "{what}: answered by 416, {al:?}");
            ensure!(range == Some(&*format!("bytes */{size}")), "{what}: 416 with Content-Range {range:?}, archive has {size} B");
            Ok(None)
        }
        400 => {
            ensure!(al.bad_request, "{what}: answered by 400, {al:?}");
            ensure!(range.is_none(), "{what}: 400 with Content-Range");
            Ok(None)
        }
        s => fail!("{what}: status {s}"),
    }
}

pub enum BodyItem {
    Chunk(bytes::Bytes),
    End,
    Err(String, Option<u64>),
    Pending,
}

pub fn poll_body(b: &mut BoxBody) -> BodyItem {
    let (_f, waker) = flag();
    let mut cx = Context::from_waker(&waker);
    match Pin::new(b).poll_next(&mut cx) {
        Poll::Ready(None) => BodyItem::End,
        Poll::Ready(Some(Ok(b))) => BodyItem::Chunk(b),
        Poll::Ready(Some(Err(e))) => {
            let id = e
                .downcast_ref::<std::io::Error>()
                .and_then(injected_id)
                .or_else(|| std::error::Error::source(&*e).and_then(|s| s.downcast_ref::<std::io::Error>()).and_then(injected_id));
            BodyItem::Err(e.to_string(), id)
        }
        Poll::Pending => BodyItem::Pending,
    }
}

fn collect(mut body: BoxBody, limit: u64) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let mut pend = 0u32;
    loop {
        match poll_body(&mut body) {
            BodyItem::Chunk(c) => out.extend_from_slice(&c),
            BodyItem::End => break,
            BodyItem::Err(e, _) => fail!("body failed: {e}"),
            BodyItem::Pending => {
                pend += 1;
                ensure!(pend < 5_000_000, "body stays pending forever");
            }
        }
        ensure!(out.len() as u64 <= limit, "body has more than the announced {limit} B");
    }
    ensure!(matches!(poll_body(&mut body), BodyItem::End), "body continued after its end");
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HttpCase {
    ents: Vec<Ent>,
    /// Operations on the reader before it is used in the response
    first: Vec<Op>,
    header: Header,
    channel: bool,
    #[serde(default)]
    method: u8,
}

fn http_strat(_: &Ctx) -> BoxedStrategy<HttpCase> {
    let p = Params { crc_weight: 40, max_len: 30_000, ..Params::default() };
    let small = Params { max_len: 200, max_entries: 3, long_names: 0, ..p };
    (
        prop_oneof![2 => ents_strategy(p), 2 => ents_strategy(small)],
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(op_strategy(p), 1..4)],
        header(),
        any::<bool>(),
        method(),
    )
        .prop_map(|(ents, first, header, channel, method)| HttpCase { ents, first, header, channel, method })
        .boxed()
}

fn http_large(ctx: &Ctx) -> BoxedStrategy<HttpCase> {
    (http_strat(ctx), enlarge_strategy())
        .prop_map(|(mut c, e)| {
            c.ents.truncate(4);
            enlarge(&mut c.ents, &mut c.first, &e);
            c
        })
        .boxed()
}

fn http_check(c: &HttpCase, cov: &mut Cov) -> Res {
    let t = truth(&c.ents)?;
    let size = t.size();
    let w = make_world(&c.ents, &t, budget(&c.ents, 60));
    w.borrow_mut().keep_log = false;
    let mut run = Run::new(make_builder(&c.ents, &t, &w)?.build(), &t, &w, 0);
    for op in &c.first {
        run.apply(op, cov)?;
    }
    let (h, mut al) = header_value(&c.header, &t.parsed.boundaries, size);
    // Ranges are defined for GET only, so that they may be ignored
    al.plain |= c.method != 0;
    let what = match &h {
        None => "request without a range".to_string(),
        Some(h) => format!("request of {:?} of {size} B", String::from_utf8_lossy(h)),
    };
    let req = request(h.as_deref(), c.method);
    let resp = if c.channel {
        let (a, rx) = run.r.into_responder_with_channel();
        drop(rx);
        a.respond_to(&req)
    } else {
        run.r.into_responder().respond_to(&req)
    };
    let status = resp.status().as_u16();
    match judge_head(&resp, &al, size, &what)? {
        Some((a, b)) => {
            let body = collect(resp.into_body(), b - a + 1).map_err(|e| format!("{what}: {e}"))?;
            ensure!(body.len() as u64 == b - a + 1, "{what}: body has {} B, {} announced", body.len(), b - a + 1);
            ensure!(body == t.bytes[a as usize..=b as usize], "{what}: body differs from the bytes {a}-{b} of the archive");
        }
        None => {
            let body = collect(resp.into_body(), 10_000)?;
            ensure!(body.is_empty() || !body.windows(4).any(|w| w == b"PK\x03\x04"), "{what}: refused request has archive data in the body");
        }
    }
    cov.label(format!("status {status}"));
    cov.label_if(!c.first.is_empty(), "reader used before");
    cov.label_if(matches!(&c.header, Header::Ranges(v, _) if v.len() > 1), "more ranges");
    cov.nontrivial(h.is_some() && c.ents.iter().any(|e| e.content.len > 0));
    Ok(())
}

/// Archives that don't fit in memory
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeCase {
    sizes: Vec<(u64, u32)>,
    header: Header,
}

fn huge_strat(_: &Ctx) -> BoxedStrategy<HugeCase> {
    let size = prop_oneof![
        2 => (any::<u64>(), 4u8..40).prop_map(|(a, b)| a >> b),
        2 => (0u64..3).prop_map(|d| (1 << 32) - 1 + d),
        1 => Just((1u64 << 63) - 5000),
        1 => 0u64..3000,
    ];
    (proptest::collection::vec((size, seed_strategy()), 1..4), header()).prop_map(|(sizes, header)| HugeCase { sizes, header }).boxed()
}

fn huge_check(c: &HugeCase, cov: &mut Cov) -> Res {
    let w = world(
        c.sizes
            .iter()
            .map(|(len, seed)| SrcSpec { data: Data::Virt { len: *len, seed: (*seed).into() }, reported: *len, sched: Sched::default(), faults: vec![] })
            .collect(),
        4_000_000,
    );
    w.borrow_mut().keep_log = false;
    let mut b: Builder<Src> = Builder::new();
    for i in 0..c.sizes.len() {
        match b.add_entry(format!("entry{i}"), Src { id: i, w: w.clone() }) {
            // Data of the large ones are never read whole
            Ok(e) => {
                let (len, seed) = c.sizes[i];
                let mut crc = i as u32;
                if len < 1 << 20 {
                    let mut data = vec![0; len as usize];
                    Data::Virt { len, seed: seed.into() }.fill(0, &mut data);
                    crc = crc32fast::hash(&data);
                }
                e.crc32(crc);
            }
            Err(_) => break,
        }
    }
    let reader: Reader<Src> = b.build();
    let size = reader.size();
    // Boundaries of records from the sizes
    let mut bounds = vec![0];
    let mut o = 0u64;
    for (len, _) in &c.sizes {
        for d in [30 + 6 + 28, *len, 24] {
            o = o.saturating_add(d);
            bounds.push(o.min(size));
        }
    }
    let (h, al) = header_value(&c.header, &bounds, size);
    let what = format!("request of {:?} of {size} B", h.as_ref().map(|h| String::from_utf8_lossy(h).into_owned()));
    let mut direct = reader.clone();
    let resp = reader.into_responder().respond_to(&request(h.as_deref(), 0));
    cov.label(format!("status {}", resp.status().as_u16()));
    if let Some((a, z)) = judge_head(&resp, &al, size, &what)? {
        let len = z - a + 1;
        let want = len.min(40_000);
        // Direct reads of the same place
        direct.seek_from_start_mut(a);
        let mut expected = Vec::new();
        while (expected.len() as u64) < want {
            let k = (want - expected.len() as u64).min(5000) as usize;
            match crate::exec::poll_read(Pin::new(&mut direct), k, 0, false).result {
                Poll::Ready(Ok(v)) if !v.is_empty() => expected.extend(v),
                _ => fail!("direct read at {a} failed"),
            }
        }
        let mut body = resp.into_body();
        let mut got = Vec::new();
        while (got.len() as u64) < want {
            match poll_body(&mut body) {
                BodyItem::Chunk(c) => got.extend_from_slice(&c),
                BodyItem::End => fail!("{what}: body ended after {} of {len} B", got.len()),
                BodyItem::Err(e, _) => fail!("{what}: body failed: {e}"),
                BodyItem::Pending => fail!("{what}: body is pending"),
            }
        }
        ensure!(got.len() as u64 <= len, "{what}: body is longer than announced");
        if want == len {
            ensure!(matches!(poll_body(&mut body), BodyItem::End), "{what}: body is longer than announced");
        }
        ensure!(got[..want as usize] == expected[..], "{what}: body differs from the archive at {a}");
        cov.nontrivial(h.is_some() && size > u64::from(u32::MAX));
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P23",
        rule: "Case = entries, reader possibly used before, Range header (none; one or more ranges by positions around records, the end, 2^32, 2^63, 2^64; odd spellings; malformed values). \
Oracle: own resolution of ranges against the size. Non-trivial: some header and an entry with data. Part huge: virtual entries up to 2^63 B, head and first 40 kB of the body; non-trivial: archive over 4 GiB that is served. \
Part wire: GET, HEAD and POST requests, pipelined or one by one, over a TCP connection to a server on the loopback interface, some hung up in the middle, some sources failing; raw bytes are judged. \
Non-trivial: several requests of an archive over 200 B.",
        assumptions: &[
            "where RFC and documentation leave a choice (overlapping ranges, suffix longer than the file, reversed range, odd white space, numbers over 2^64, other units) any of refusal / correct serving is accepted",
            "responses are judged at the Responder/MessageBody interface of actix-web and on the wire behind its server (whose mixing up of pipelined HEAD requests is avoided)",
        ],
        parts: vec![
            Box::new(Part { name: "http", quick: 320_000, thorough: 32_000_000, strat: http_strat, check: http_check }),
            Box::new(Part { name: "large", quick: 3600, thorough: 360000, strat: http_large, check: http_check }),
            Box::new(Part { name: "wire", quick: 10_000, thorough: 400_000, strat: wire_strat, check: wire_check }),
            Box::new(Part { name: "huge", quick: 160_000, thorough: 16_000_000, strat: huge_strat, check: huge_check }),
        ],
    }
}

// ---------------------------------------------------------------- P24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Moment {
    /// The adapter is never used
    BeforeUse,
    /// After respond_to
    Response,
    /// After this many items of the body
    Items(u16),
    /// At the n-th pending answer
    Pending(u8),
    End,
    /// After an error (or the end)
    Error,
    /// After this many bytes
    Bytes(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    header: Header,
    moment: Moment,
    /// Receiver is dropped: 0 = no, 1 = at once, 2 = after the response
    rx: u8,
    #[serde(default)]
    method: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DropCase {
    ents: Vec<Ent>,
    first: Vec<Op>,
    reqs: Vec<Req>,
    faults: Vec<(u8, Fault)>,
}

fn drop_strat(_: &Ctx) -> BoxedStrategy<DropCase> {
    let p = Params { crc_weight: 20, max_len: 30_000, ..Params::default() };
    let small = Params { max_len: 200, max_entries: 3, long_names: 0, ..p };
    let moment = prop_oneof![
        1 => Just(Moment::BeforeUse),
        1 => Just(Moment::Response),
        4 => prop_oneof![0u16..6, 0u16..60].prop_map(Moment::Items),
        3 => (1u8..20).prop_map(Moment::Pending),
        3 => Just(Moment::End),
        1 => Just(Moment::Error),
        3 => any::<u32>().prop_map(Moment::Bytes),
    ];
    let req = (
        prop_oneof![3 => Just(Header::None), 3 => header()],
        moment,
        prop_oneof![20 => Just(0u8), 1 => Just(1), 1 => Just(2)],
        method(),
    )
        .prop_map(|(header, moment, rx, method)| Req { header, moment, rx, method });
    (
        prop_oneof![2 => ents_strategy(p), 2 => ents_strategy(small)],
        prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(op_strategy(p), 1..4)],
        proptest::collection::vec(req, 1..6),
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(fault(), 1..6)],
    )
        .prop_map(|(ents, first, reqs, faults)| DropCase { ents, first, reqs, faults })
        .boxed()
}

fn drop_large(ctx: &Ctx) -> BoxedStrategy<DropCase> {
    (drop_strat(ctx), enlarge_strategy())
        .prop_map(|(mut c, e)| {
            c.ents.truncate(4);
            enlarge(&mut c.ents, &mut c.first, &e);
            c
        })
        .boxed()
}

fn drop_check(c: &DropCase, cov: &mut Cov) -> Res {
    let t = truth(&c.ents)?;
    let size = t.size();
    let w = make_world(&c.ents, &t, budget(&c.ents, (60 * c.reqs.len() + 100) as u64));
    {
        let mut wb = w.borrow_mut();
        wb.keep_log = false;
        if !c.ents.is_empty() {
            for (e, f) in &c.faults {
                wb.srcs[usize::from(*e) % c.ents.len()].faults.push(f.clone());
            }
        }
    }
    let mut run = Run::new(make_builder(&c.ents, &t, &w)?.build(), &t, &w, if c.faults.is_empty() { 0 } else { FAULTS });
    for op in &c.first {
        run.apply(op, cov)?;
    }
    let mut reader = run.r;
    // Names of entries whose CRC has to be known
    let mut known: std::collections::BTreeSet<String> = reader.crc32s().map(|(n, _)| n.to_string()).collect();
    let mut interesting = false;
    for (ri, q) in c.reqs.iter().enumerate() {
        let (h, mut al) = header_value(&q.header, &t.parsed.boundaries, size);
        al.plain |= q.method != 0;
        let what = format!("request {ri} ({:?}, {:?})", h.as_ref().map(|h| String::from_utf8_lossy(h).into_owned()), q.moment);
        let (adapter, rx) = reader.into_responder_with_channel();
        let mut rx = Some(rx);
        if q.rx == 1 {
            rx = None;
        }
        macro_rules! not_yet {
            ($w:expr) => {
                if let Some(rx) = &mut rx {
                    ensure!(rx.try_recv().is_err(), "{what}: reader was returned {}", $w);
                }
            };
        }
        not_yet!("before the adapter was dropped");
        let mut delivered: Option<(u64, u64)> = None;
        let mut completed = false;
        if let Moment::BeforeUse = q.moment {
            drop(adapter);
        } else {
            let resp = adapter.respond_to(&request(h.as_deref(), q.method));
            if q.rx == 2 {
                rx = None;
            }
            let head = judge_head(&resp, &al, size, &what);
            // Heads are judged by P23
            let range = head.unwrap_or(None);
            if let Some((a, b)) = range {
                not_yet!("while the response is alive");
                let mut body = resp.into_body();
                let (mut items, mut pendings, mut errors, mut bytes) = (0u32, 0u32, 0u32, 0u64);
                loop {
                    let stop = match q.moment {
                        Moment::Items(n) => items >= u32::from(n),
                        Moment::Pending(n) => pendings >= u32::from(n),
                        Moment::Error => errors > 0,
                        Moment::Bytes(f) => bytes >= (u128::from(b - a) * u128::from(f) >> 32) as u64,
                        Moment::End => false,
                        Moment::Response | Moment::BeforeUse => true,
                    };
                    if stop {
                        break;
                    }
                    match poll_body(&mut body) {
                        BodyItem::Chunk(c) => {
                            items += 1;
                            bytes += c.len() as u64;
                            ensure!(bytes <= b - a + 1, "{what}: body is longer than announced");
                        }
                        BodyItem::End => {
                            completed = bytes == b - a + 1;
                            break;
                        }
                        BodyItem::Err(e, _) => {
                            ensure!(!c.faults.is_empty(), "{what}: body failed: {e}");
                            errors += 1;
                            // Body mapped by actix-web can't be polled again
                            break;
                        }
                        BodyItem::Pending => {
                            pendings += 1;
                            ensure!(pendings < 5_000_000, "{what}: body stays pending forever");
                        }
                    }
                }
                not_yet!("while the body is alive");
                cov.label_if(pendings > 0 && matches!(q.moment, Moment::Pending(_)), "dropped while pending");
                cov.label_if(errors > 0, "dropped after an error");
                cov.label_if(completed, "completed");
                cov.label_if(!completed && bytes > 0, "dropped in the middle of the body");
                interesting |= bytes > 0;
                delivered = Some((a, a + bytes));
                drop(body);
            } else {
                cov.label("refused request");
                // The adapter isn't a part of the response any more
                if let Some(rx) = &mut rx {
                    match rx.try_recv() {
                        Ok(r) => {
                            drop(resp);
                            reader = r;
                            verify(&reader, &t, &known, &what)?;
                            continue;
                        }
                        Err(_) => drop(resp),
                    }
                } else {
                    drop(resp);
                }
            }
        }
        let Some(mut rx) = rx else {
            cov.label("receiver dropped");
            return Ok(());
        };
        reader = match rx.try_recv() {
            Ok(r) => r,
            Err(e) => fail!("{what}: reader was not returned after the drop: {e:?}"),
        };
        ensure!(rx.try_recv().is_err(), "{what}: second reader was returned");
        if let Some((a, b)) = delivered {
            // What was sent out as a part of the archive, has to be known
            for (i, e) in t.parsed.entries.iter().enumerate() {
                for crc_at in [e.desc_off + 4, e.cd_off + 16] {
                    if crc_at >= a && crc_at < b {
                        known.insert(t.names[i].clone());
                    }
                }
            }
            if completed && a == 0 && b == size {
                known.extend(t.names.iter().cloned());
                cov.label("whole archive served");
            }
        }
        verify(&reader, &t, &known, &what)?;
    }
    // The archive is still the same
    let mut run = Run::new(reader, &t, &w, BYTES | EOF | CRC | if c.faults.is_empty() { 0 } else { FAULTS });
    run.pos = run.r.tell();
    run.seek(1, 0)?;
    run.finish(8192)?;
    cov.nontrivial(interesting && c.ents.iter().any(|e| e.content.len > 0 && !e.crc));
    Ok(())
}

fn verify(r: &Reader<Src>, t: &Truth, known: &std::collections::BTreeSet<String>, what: &str) -> Res {
    ensure!(r.size() == t.size(), "{what}: returned reader has size {}, archive has {}", r.size(), t.size());
    let mut got = std::collections::BTreeSet::new();
    for (n, c) in r.crc32s() {
        ensure!(t.crcs.get(n) == Some(&c), "{what}: returned reader reports CRC {c:08x} of {n:?}");
        got.insert(n.to_string());
    }
    for n in known {
        ensure!(got.contains(n), "{what}: CRC of {n:?} was known, returned reader doesn't report it");
    }
    Ok(())
}

pub fn property_p24() -> Property {
    Property {
        id: "P24",
        rule: "Case = entries (sources pending, some failing), and a chain of requests served with a return channel, each by the reader returned by the previous one, dropped at a generated moment \
(before use, refused, after response, after n items/bytes/pendings/errors, at the end); sometimes the receiver is dropped. Non-trivial: some body bytes were delivered and some entry with data has no CRC supplied. Part wire: the same as in P23, every response has to give its reader back.",
        assumptions: &["a CRC counts as computed when its bytes were delivered in a body (or it was reported before)"],
        parts: vec![
            Box::new(Part { name: "drop", quick: 320_000, thorough: 32_000_000, strat: drop_strat, check: drop_check }),
            Box::new(Part { name: "large", quick: 3000, thorough: 300000, strat: drop_large, check: drop_check }),
            Box::new(Part { name: "wire", quick: 8000, thorough: 400_000, strat: wire_strat, check: wire_check }),
        ],
    }
}
