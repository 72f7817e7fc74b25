pub fn root_p_enc_bool(e: &pb::Encoder, tag: &u32, v: &bool, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_bool(tag, v, w) }
pub fn root_p_enc_bool_vec(e: &pb::Encoder, tag: &u32, v: &Vec<bool>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_bool_vec(tag, v, w) }
pub fn root_p_lenc_bool(e: &pb::Encoder, tag: &u32, v: &bool, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Bool(v)), w) }
pub fn root_p_lenc_bool_vec(e: &pb::Encoder, tag: &u32, v: &Vec<bool>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::BoolVec(v)), w) }
pub fn root_p_lit_bool(b: Vec<u8>) -> bool { <bool>::from(pb::DecoderLit::Bool(b)) }
pub fn root_p_lit_bool_vec(b: Vec<u8>) -> Vec<bool> { <Vec<bool>>::from(pb::DecoderLit::BoolVec(b)) }
pub fn root_p_enc_int32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_int32(tag, v, w) }
pub fn root_p_enc_int32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_int32_vec(tag, v, w) }
pub fn root_p_lenc_int32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Int32(v)), w) }
pub fn root_p_lenc_int32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Int32Vec(v)), w) }
pub fn root_p_lit_int32(b: Vec<u8>) -> i32 { <i32>::from(pb::DecoderLit::Int32(b)) }
pub fn root_p_lit_int32_vec(b: Vec<u8>) -> Vec<i32> { <Vec<i32>>::from(pb::DecoderLit::Int32Vec(b)) }
pub fn root_p_enc_int64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_int64(tag, v, w) }
pub fn root_p_enc_int64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_int64_vec(tag, v, w) }
pub fn root_p_lenc_int64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Int64(v)), w) }
pub fn root_p_lenc_int64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Int64Vec(v)), w) }
pub fn root_p_lit_int64(b: Vec<u8>) -> i64 { <i64>::from(pb::DecoderLit::Int64(b)) }
pub fn root_p_lit_int64_vec(b: Vec<u8>) -> Vec<i64> { <Vec<i64>>::from(pb::DecoderLit::Int64Vec(b)) }
pub fn root_p_enc_uint32(e: &pb::Encoder, tag: &u32, v: &u32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_uint32(tag, v, w) }
pub fn root_p_enc_uint32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_uint32_vec(tag, v, w) }
pub fn root_p_lenc_uint32(e: &pb::Encoder, tag: &u32, v: &u32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::UInt32(v)), w) }
pub fn root_p_lenc_uint32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::UInt32Vec(v)), w) }
pub fn root_p_lit_uint32(b: Vec<u8>) -> u32 { <u32>::from(pb::DecoderLit::UInt32(b)) }
pub fn root_p_lit_uint32_vec(b: Vec<u8>) -> Vec<u32> { <Vec<u32>>::from(pb::DecoderLit::UInt32Vec(b)) }
pub fn root_p_enc_uint64(e: &pb::Encoder, tag: &u32, v: &u64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_uint64(tag, v, w) }
pub fn root_p_enc_uint64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_uint64_vec(tag, v, w) }
pub fn root_p_lenc_uint64(e: &pb::Encoder, tag: &u32, v: &u64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::UInt64(v)), w) }
pub fn root_p_lenc_uint64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::UInt64Vec(v)), w) }
pub fn root_p_lit_uint64(b: Vec<u8>) -> u64 { <u64>::from(pb::DecoderLit::UInt64(b)) }
pub fn root_p_lit_uint64_vec(b: Vec<u8>) -> Vec<u64> { <Vec<u64>>::from(pb::DecoderLit::UInt64Vec(b)) }
pub fn root_p_enc_float(e: &pb::Encoder, tag: &u32, v: &f32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_float(tag, v, w) }
pub fn root_p_enc_float_vec(e: &pb::Encoder, tag: &u32, v: &Vec<f32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_float_vec(tag, v, w) }
pub fn root_p_lenc_float(e: &pb::Encoder, tag: &u32, v: &f32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Float(v)), w) }
pub fn root_p_lenc_float_vec(e: &pb::Encoder, tag: &u32, v: &Vec<f32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::FloatVec(v)), w) }
pub fn root_p_lit_float(b: Vec<u8>) -> f32 { <f32>::from(pb::DecoderLit::Float(b)) }
pub fn root_p_lit_float_vec(b: Vec<u8>) -> Vec<f32> { <Vec<f32>>::from(pb::DecoderLit::FloatVec(b)) }
pub fn root_p_enc_double(e: &pb::Encoder, tag: &u32, v: &f64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_double(tag, v, w) }
pub fn root_p_enc_double_vec(e: &pb::Encoder, tag: &u32, v: &Vec<f64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_double_vec(tag, v, w) }
pub fn root_p_lenc_double(e: &pb::Encoder, tag: &u32, v: &f64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Double(v)), w) }
pub fn root_p_lenc_double_vec(e: &pb::Encoder, tag: &u32, v: &Vec<f64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::DoubleVec(v)), w) }
pub fn root_p_lit_double(b: Vec<u8>) -> f64 { <f64>::from(pb::DecoderLit::Double(b)) }
pub fn root_p_lit_double_vec(b: Vec<u8>) -> Vec<f64> { <Vec<f64>>::from(pb::DecoderLit::DoubleVec(b)) }
pub fn root_p_enc_sint32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sint32(tag, v, w) }
pub fn root_p_enc_sint32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sint32_vec(tag, v, w) }
pub fn root_p_lenc_sint32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SInt32(v)), w) }
pub fn root_p_lenc_sint32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SInt32Vec(v)), w) }
pub fn root_p_lit_sint32(b: Vec<u8>) -> i32 { <i32>::from(pb::DecoderLit::SInt32(b)) }
pub fn root_p_lit_sint32_vec(b: Vec<u8>) -> Vec<i32> { <Vec<i32>>::from(pb::DecoderLit::SInt32Vec(b)) }
pub fn root_p_enc_sint64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sint64(tag, v, w) }
pub fn root_p_enc_sint64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sint64_vec(tag, v, w) }
pub fn root_p_lenc_sint64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SInt64(v)), w) }
pub fn root_p_lenc_sint64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SInt64Vec(v)), w) }
pub fn root_p_lit_sint64(b: Vec<u8>) -> i64 { <i64>::from(pb::DecoderLit::SInt64(b)) }
pub fn root_p_lit_sint64_vec(b: Vec<u8>) -> Vec<i64> { <Vec<i64>>::from(pb::DecoderLit::SInt64Vec(b)) }
pub fn root_p_enc_fixed32(e: &pb::Encoder, tag: &u32, v: &u32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_fixed32(tag, v, w) }
pub fn root_p_enc_fixed32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_fixed32_vec(tag, v, w) }
pub fn root_p_lenc_fixed32(e: &pb::Encoder, tag: &u32, v: &u32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Fixed32(v)), w) }
pub fn root_p_lenc_fixed32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Fixed32Vec(v)), w) }
pub fn root_p_lit_fixed32(b: Vec<u8>) -> u32 { <u32>::from(pb::DecoderLit::Fixed32(b)) }
pub fn root_p_lit_fixed32_vec(b: Vec<u8>) -> Vec<u32> { <Vec<u32>>::from(pb::DecoderLit::Fixed32Vec(b)) }
pub fn root_p_enc_fixed64(e: &pb::Encoder, tag: &u32, v: &u64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_fixed64(tag, v, w) }
pub fn root_p_enc_fixed64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_fixed64_vec(tag, v, w) }
pub fn root_p_lenc_fixed64(e: &pb::Encoder, tag: &u32, v: &u64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Fixed64(v)), w) }
pub fn root_p_lenc_fixed64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<u64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::Fixed64Vec(v)), w) }
pub fn root_p_lit_fixed64(b: Vec<u8>) -> u64 { <u64>::from(pb::DecoderLit::Fixed64(b)) }
pub fn root_p_lit_fixed64_vec(b: Vec<u8>) -> Vec<u64> { <Vec<u64>>::from(pb::DecoderLit::Fixed64Vec(b)) }
pub fn root_p_enc_sfixed32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sfixed32(tag, v, w) }
pub fn root_p_enc_sfixed32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sfixed32_vec(tag, v, w) }
pub fn root_p_lenc_sfixed32(e: &pb::Encoder, tag: &u32, v: &i32, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SFixed32(v)), w) }
pub fn root_p_lenc_sfixed32_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i32>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SFixed32Vec(v)), w) }
pub fn root_p_lit_sfixed32(b: Vec<u8>) -> i32 { <i32>::from(pb::DecoderLit::SFixed32(b)) }
pub fn root_p_lit_sfixed32_vec(b: Vec<u8>) -> Vec<i32> { <Vec<i32>>::from(pb::DecoderLit::SFixed32Vec(b)) }
pub fn root_p_enc_sfixed64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sfixed64(tag, v, w) }
pub fn root_p_enc_sfixed64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode_sfixed64_vec(tag, v, w) }
pub fn root_p_lenc_sfixed64(e: &pb::Encoder, tag: &u32, v: &i64, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SFixed64(v)), w) }
pub fn root_p_lenc_sfixed64_vec(e: &pb::Encoder, tag: &u32, v: &Vec<i64>, w: &mut W) -> Result<usize, pb::EncoderError> { e.encode((tag, pb::EncoderLit::SFixed64Vec(v)), w) }
pub fn root_p_lit_sfixed64(b: Vec<u8>) -> i64 { <i64>::from(pb::DecoderLit::SFixed64(b)) }
pub fn root_p_lit_sfixed64_vec(b: Vec<u8>) -> Vec<i64> { <Vec<i64>>::from(pb::DecoderLit::SFixed64Vec(b)) }
pub fn root_p_conv_bool(l: pb::DecoderLit) -> bool { <bool>::from(l) }
pub fn root_p_conv_bool_vec(l: pb::DecoderLit) -> Vec<bool> { <Vec<bool>>::from(l) }
pub fn root_p_from_bool<'a>(v: &'a bool) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_bool_vec<'a>(v: &'a Vec<bool>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_i32(l: pb::DecoderLit) -> i32 { <i32>::from(l) }
pub fn root_p_conv_i32_vec(l: pb::DecoderLit) -> Vec<i32> { <Vec<i32>>::from(l) }
pub fn root_p_from_i32<'a>(v: &'a i32) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_i32_vec<'a>(v: &'a Vec<i32>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_i64(l: pb::DecoderLit) -> i64 { <i64>::from(l) }
pub fn root_p_conv_i64_vec(l: pb::DecoderLit) -> Vec<i64> { <Vec<i64>>::from(l) }
pub fn root_p_from_i64<'a>(v: &'a i64) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_i64_vec<'a>(v: &'a Vec<i64>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_u32(l: pb::DecoderLit) -> u32 { <u32>::from(l) }
pub fn root_p_conv_u32_vec(l: pb::DecoderLit) -> Vec<u32> { <Vec<u32>>::from(l) }
pub fn root_p_from_u32<'a>(v: &'a u32) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_u32_vec<'a>(v: &'a Vec<u32>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_u64(l: pb::DecoderLit) -> u64 { <u64>::from(l) }
pub fn root_p_conv_u64_vec(l: pb::DecoderLit) -> Vec<u64> { <Vec<u64>>::from(l) }
pub fn root_p_from_u64<'a>(v: &'a u64) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_u64_vec<'a>(v: &'a Vec<u64>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_f32(l: pb::DecoderLit) -> f32 { <f32>::from(l) }
pub fn root_p_conv_f32_vec(l: pb::DecoderLit) -> Vec<f32> { <Vec<f32>>::from(l) }
pub fn root_p_from_f32<'a>(v: &'a f32) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_f32_vec<'a>(v: &'a Vec<f32>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_conv_f64(l: pb::DecoderLit) -> f64 { <f64>::from(l) }
pub fn root_p_conv_f64_vec(l: pb::DecoderLit) -> Vec<f64> { <Vec<f64>>::from(l) }
pub fn root_p_from_f64<'a>(v: &'a f64) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
pub fn root_p_from_f64_vec<'a>(v: &'a Vec<f64>) -> pb::EncoderLit<'a> { pb::EncoderLit::from(v) }
