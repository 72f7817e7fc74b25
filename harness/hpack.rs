#![allow(unused, clippy::all)]
include!("models.rs");
use httlib_hpack as hp;
use httlib_hpack::table::Table;
pub type F = (Vec<u8>, Vec<u8>, u8);
pub fn root_d_new(n: u32) -> hp::Decoder<'static> { hp::Decoder::with_dynamic_size(n) }
pub fn root_d_default() -> hp::Decoder<'static> { hp::Decoder::default() }
pub fn root_d_max(d: &hp::Decoder<'static>) -> u32 { d.max_dynamic_size() }
pub fn root_d_set_max(d: &mut hp::Decoder<'static>, n: u32) { d.set_max_dynamic_size(n) }
pub fn root_d_decode(d: &mut hp::Decoder<'static>, buf: &mut Vec<u8>, dst: &mut Vec<F>) -> Result<usize, hp::DecoderError> { d.decode(buf, dst) }
pub fn root_d_decode_exact(d: &mut hp::Decoder<'static>, buf: &mut Vec<u8>, dst: &mut Vec<F>) -> Result<usize, hp::DecoderError> { d.decode_exact(buf, dst) }
pub fn root_e_new(n: u32) -> hp::Encoder<'static> { hp::Encoder::with_dynamic_size(n) }
pub fn root_e_default() -> hp::Encoder<'static> { hp::Encoder::default() }
pub fn root_e_max(e: &mut hp::Encoder<'static>) -> u32 { e.max_dynamic_size() }
pub fn root_e_update(e: &mut hp::Encoder<'static>, n: u32, dst: &mut Vec<u8>) -> Result<(), hp::EncoderError> { e.update_max_dynamic_size(n, dst) }
pub fn root_e_encode(e: &mut hp::Encoder<'static>, f: hp::EncoderInput, dst: &mut Vec<u8>) -> Result<(), hp::EncoderError> { e.encode(f, dst) }
pub fn root_e_indexed(e: &mut hp::Encoder<'static>, i: u32, dst: &mut Vec<u8>) -> Result<(), hp::EncoderError> { e.encode_indexed(i, dst) }
pub fn root_e_indexed_name(e: &mut hp::Encoder<'static>, i: u32, v: Vec<u8>, fl: u8, dst: &mut Vec<u8>) -> Result<(), hp::EncoderError> { e.encode_indexed_name(i, v, fl, dst) }
pub fn root_e_literal(e: &mut hp::Encoder<'static>, n: Vec<u8>, v: Vec<u8>, fl: u8, dst: &mut Vec<u8>) -> Result<(), hp::EncoderError> { e.encode_literal(n, v, fl, dst) }
pub fn root_e_from1(x: u32) -> hp::EncoderInput { hp::EncoderInput::from(x) }
pub fn root_e_from2(x: (u32, Vec<u8>, u8)) -> hp::EncoderInput { hp::EncoderInput::from(x) }
pub fn root_e_from3(x: (Vec<u8>, Vec<u8>, u8)) -> hp::EncoderInput { hp::EncoderInput::from(x) }
pub fn root_t_new(n: u32) -> Table<'static> { Table::with_dynamic_size(n) }
pub fn root_t_default() -> Table<'static> { Table::default() }
pub fn root_t_len(t: &Table<'static>) -> usize { t.len() }
pub fn root_t_dynamic_len(t: &Table<'static>) -> usize { t.dynamic_len() }
pub fn root_t_dynamic_size(t: &Table<'static>) -> u32 { t.dynamic_size() }
pub fn root_t_max(t: &Table<'static>) -> u32 { t.max_dynamic_size() }
pub fn root_t_update_max(t: &mut Table<'static>, n: u32) { t.update_max_dynamic_size(n) }
pub fn root_t_get<'a>(t: &'a Table<'static>, i: u32) -> Option<(&'a [u8], &'a [u8])> { t.get(i) }
pub fn root_t_find(t: &'static Table<'static>, n: &[u8], v: &[u8]) -> Option<(usize, bool)> { t.find(n, v) }
pub fn root_t_insert(t: &mut Table<'static>, n: Vec<u8>, v: Vec<u8>) { t.insert(n, v) }
pub fn root_t_iter(t: &'static Table<'static>) -> hp::table::TableIter<'static> { t.iter() }
pub fn root_t_next(t: &mut hp::table::TableIter<'static>) -> Option<(&'static [u8], &'static [u8])> { t.next() }
pub fn root_consts() -> [u8; 7] { [hp::Encoder::HUFFMAN_NAME, hp::Encoder::HUFFMAN_VALUE, hp::Encoder::WITH_INDEXING, hp::Encoder::NEVER_INDEXED, hp::Encoder::BEST_FORMAT, hp::Decoder::WITH_INDEXING, hp::Decoder::NEVER_INDEXED] }
#[inline(never)] pub fn vp_entry(r: &Option<(&[u8], &[u8])>) { loop {} }
pub fn root_t_static(i: u32, n: u32) { let t = Table::with_dynamic_size(n); vp_entry(&t.get(i)); }
pub fn root_t_static_def(i: u32) { let t = Table::default(); vp_entry(&t.get(i)); }
pub fn root_t_static_len(n: u32) -> usize { let t = Table::with_dynamic_size(n); t.len() }
pub fn root_t_static_iter(n: u32) { let t = Table::with_dynamic_size(n); let mut it = t.iter(); loop { let r = it.next(); vp_entry(&r); if r.is_none() { break; } } }
// Sessions: arbitrary sequences of public operations on one instance.
#[inline(never)] pub fn vp_u32() -> u32 { loop {} }
#[inline(never)] pub fn vp_u8() -> u8 { loop {} }
#[inline(never)] pub fn vp_op() -> u8 { loop {} }
#[inline(never)] pub fn vp_bytes() -> Vec<u8> { loop {} }
#[inline(never)] pub fn vp_t_new(t: &Table<'static>, n: u32) { loop {} }
#[inline(never)] pub fn vp_t_insert(n: &Vec<u8>, v: &Vec<u8>) { loop {} }
#[inline(never)] pub fn vp_t_max(n: u32) { loop {} }
#[inline(never)] pub fn vp_t_done() { loop {} }
#[inline(never)] pub fn vp_t_get(i: u32, r: &Option<(&[u8], &[u8])>) { loop {} }
#[inline(never)] pub fn vp_t_iter(i: u64, r: &Option<(&[u8], &[u8])>) { loop {} }
#[inline(never)] pub fn vp_t_find(n: &Vec<u8>, v: &Vec<u8>) { loop {} }
#[inline(never)] pub fn vp_t_found(n: &Vec<u8>, v: &Vec<u8>, r: &Option<(usize, bool)>) { loop {} }
#[inline(never)] pub fn vp_t_sizes(len: usize, dlen: usize, size: u32, max: u32) { loop {} }
#[inline(always)] fn table_session(mut t: Table<'static>, n: u32) {
    vp_t_new(&t, n);
    loop {
        match vp_op() {
            0 => { let n = vp_bytes(); let v = vp_bytes(); vp_t_insert(&n, &v); t.insert(n, v); vp_t_done(); }
            1 => { let m = vp_u32(); vp_t_max(m); t.update_max_dynamic_size(m); vp_t_done(); }
            2 => { let i = vp_u32(); vp_t_get(i, &t.get(i)); }
            3 => { vp_t_sizes(t.len(), t.dynamic_len(), t.dynamic_size(), t.max_dynamic_size()); }
            4 => { let n = vp_bytes(); let v = vp_bytes(); vp_t_find(&n, &v); let r = tfind(&t, &n, &v); vp_t_found(&n, &v, &r); }
            _ => { titer(&t); }
        }
    }
}
#[inline(never)] fn tfind(t: &Table<'static>, n: &[u8], v: &[u8]) -> Option<(usize, bool)> { t.find(n, v) }
#[inline(never)] fn titer(t: &Table<'static>) {
    let mut i = 0u64;
    let mut it = t.iter();
    loop { let r = it.next(); i += 1; vp_t_iter(i, &r); if r.is_none() { break; } }
}
pub fn root_t_session(n: u32) { table_session(Table::with_dynamic_size(n), n) }
pub fn root_t_session_def() { table_session(Table::default(), 4096) }
// Decoder sessions: any number of calls on one decoder, each with an arbitrary input and output vector.
#[inline(never)] pub fn vp_fields() -> Vec<F> { loop {} }
#[inline(never)] pub fn vp_d_new(d: &hp::Decoder<'static>, n: u32) { loop {} }
#[inline(never)] pub fn vp_d_setmax(n: u32) { loop {} }
#[inline(never)] pub fn vp_d_max(n: u32) { loop {} }
#[inline(never)] pub fn vp_d_begin(buf: &Vec<u8>, dst: &Vec<F>, mode: u8) { loop {} }
#[inline(never)] pub fn vp_d_end(r: &Result<usize, hp::DecoderError>, buf: &Vec<u8>, dst: &Vec<F>) { loop {} }
#[inline(always)] fn dec_session(mut d: hp::Decoder<'static>, n: u32) {
    vp_d_new(&d, n);
    loop {
        match vp_op() {
            0 => { let m = vp_u32(); vp_d_setmax(m); d.set_max_dynamic_size(m); }
            1 => { vp_d_max(d.max_dynamic_size()); }
            2 => { let mut buf = vp_bytes(); let mut dst = vp_fields(); vp_d_begin(&buf, &dst, 0); let r = d.decode(&mut buf, &mut dst); vp_d_end(&r, &buf, &dst); }
            _ => { let mut buf = vp_bytes(); let mut dst = vp_fields(); vp_d_begin(&buf, &dst, 1); let r = d.decode_exact(&mut buf, &mut dst); vp_d_end(&r, &buf, &dst); }
        }
    }
}
pub fn root_d_session(n: u32) { dec_session(hp::Decoder::with_dynamic_size(n), n) }
pub fn root_d_session_def() { dec_session(hp::Decoder::default(), 4096) }
// Encoder sessions: any number of calls on one encoder.
#[inline(never)] pub fn vp_e_new(e: &hp::Encoder<'static>, n: u32) { loop {} }
#[inline(never)] pub fn vp_e_max(n: u32) { loop {} }
#[inline(never)] pub fn vp_e_begin(kind: u8, i: u32, n: &Vec<u8>, v: &Vec<u8>, fl: u8, dst: &Vec<u8>) { loop {} }
#[inline(never)] pub fn vp_e_end(r: &Result<(), hp::EncoderError>, dst: &Vec<u8>) { loop {} }
#[inline(always)] fn enc_session(mut e: hp::Encoder<'static>, n: u32) {
    vp_e_new(&e, n);
    loop {
        let k = vp_op();
        if k == 0 { vp_e_max(e.max_dynamic_size()); continue; }
        let i = vp_u32();
        let n = vp_bytes();
        let v = vp_bytes();
        let fl = vp_u8();
        let mut dst = vp_bytes();
        vp_e_begin(k, i, &n, &v, fl, &dst);
        let r = match k {
            1 => e.update_max_dynamic_size(i, &mut dst),
            2 => e.encode_indexed(i, &mut dst),
            3 => e.encode_indexed_name(i, v, fl, &mut dst),
            4 => e.encode_literal(n, v, fl, &mut dst),
            5 => e.encode(i, &mut dst),
            6 => e.encode((i, v, fl), &mut dst),
            _ => e.encode((n, v, fl), &mut dst),
        };
        vp_e_end(&r, &dst);
    }
}
pub fn root_e_session(n: u32) { enc_session(hp::Encoder::with_dynamic_size(n), n) }
pub fn root_e_session_def() { enc_session(hp::Encoder::default(), 4096) }
