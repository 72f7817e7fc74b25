#![allow(unused, clippy::all)]
include!("models.rs");
pub fn root_h_encode(src: &[u8], dst: &mut Vec<u8>) -> Result<(), httlib_huffman::EncoderError> { httlib_huffman::encode(src, dst) }
pub fn root_h_decode(src: &[u8], dst: &mut Vec<u8>, speed: httlib_huffman::DecoderSpeed) -> Result<(), httlib_huffman::DecoderError> { httlib_huffman::decode(src, dst, speed) }
pub fn root_h_encode_table() -> &'static [(u8, u32); 257] { &httlib_huffman::encoder::table::ENCODE_TABLE }
pub fn root_h_speeds() -> Vec<httlib_huffman::DecoderSpeed> { httlib_huffman::DecoderSpeed::known() }
pub fn root_h_dt1() -> &'static [[(Option<u8>, Option<u16>, u8); 2]] { &httlib_huffman::decoder::table1::DECODE_TABLE }
pub fn root_h_dt2() -> &'static [[(Option<u8>, Option<u16>, u8); 4]] { &httlib_huffman::decoder::table2::DECODE_TABLE }
pub fn root_h_dt3() -> &'static [[(Option<u8>, Option<u16>, u8); 8]] { &httlib_huffman::decoder::table3::DECODE_TABLE }
pub fn root_h_dt4() -> &'static [[(Option<u8>, Option<u16>, u8); 16]] { &httlib_huffman::decoder::table4::DECODE_TABLE }
pub fn root_h_dt5() -> &'static [[(Option<u8>, Option<u16>, u8); 32]] { &httlib_huffman::decoder::table5::DECODE_TABLE }
