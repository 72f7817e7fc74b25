#![allow(unused, clippy::all)]
include!("models.rs");
use httlib_protos as pb;
pub struct W { pub data: Vec<u8> }
#[inline(never)] pub fn vp_write(w: &mut W, b: &[u8]) -> std::io::Result<usize> { loop {} }
#[inline(never)] pub fn vp_write_all(w: &mut W, b: &[u8]) -> std::io::Result<()> { loop {} }
#[inline(never)] pub fn vp_flush(w: &mut W) -> std::io::Result<()> { loop {} }
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { vp_write(self, b) }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> { vp_write_all(self, b) }
    fn flush(&mut self) -> std::io::Result<()> { vp_flush(self) }
}
include!("roots_protos.rs");
pub fn root_p_enc_bytes(e: &pb::Encoder, tag: &u32, v: &Vec<u8>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_bytes(tag, v, w) }
pub fn root_p_lenc_bytes(e: &pb::Encoder, tag: &u32, v: &Vec<u8>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Bytes(v)), w) }
pub fn root_p_from_bytes<'a>(v: &'a Vec<u8>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_lit_bytes(b: Vec<u8>) -> Vec<u8> { <Vec<u8>>::from(pb::DecoderLit::Bytes(b)) }
pub fn root_p_lit_string(b: Vec<u8>) -> String { String::from(pb::DecoderLit::Bytes(b)) }
pub fn root_p_conv_bytes(l: pb::DecoderLit) -> Vec<u8> { <Vec<u8>>::from(l) }
pub fn root_p_conv_string(l: pb::DecoderLit) -> String { String::from(l) }
pub fn root_p_decode(d: &mut pb::Decoder, buf: &mut Vec<u8>, dst: &mut Vec<(u32, pb::Typ, Vec<u8>)>) -> Result<usize, pb::DecoderError> { d.decode(buf, dst) }
pub fn root_p_dec_default() -> pb::Decoder { pb::Decoder::default() }
pub fn root_p_enc_default() -> pb::Encoder { pb::Encoder::default() }
// A decoding session: any number of calls, each on an arbitrary buffer and output list.
#[inline(never)] pub fn vp_arb_dec(b: &mut Vec<u8>, d: &mut Vec<(u32, pb::Typ, Vec<u8>)>) { loop {} }
#[inline(never)] pub fn vp_check_dec(r: &Result<usize, pb::DecoderError>, b: &Vec<u8>, d: &Vec<(u32, pb::Typ, Vec<u8>)>) { loop {} }
pub fn root_p_session() {
    let mut d = pb::Decoder::default();
    let mut buf: Vec<u8> = Vec::new();
    let mut dst: Vec<(u32, pb::Typ, Vec<u8>)> = Vec::new();
    loop {
        vp_arb_dec(&mut buf, &mut dst);
        let r = d.decode(&mut buf, &mut dst);
        vp_check_dec(&r, &buf, &dst);
    }
}
