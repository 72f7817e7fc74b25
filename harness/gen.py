# generates harness.rs: public-API root functions only
K=[('Bool','bool','bool'),('Int32','i32','int32'),('Int64','i64','int64'),('UInt32','u32','uint32'),('UInt64','u64','uint64'),
('Float','f32','float'),('Double','f64','double'),('SInt32','i32','sint32'),('SInt64','i64','sint64'),('Fixed32','u32','fixed32'),
('Fixed64','u64','fixed64'),('SFixed32','i32','sfixed32'),('SFixed64','i64','sfixed64')]
o=[]
for v,t,m in K:
    o.append(f"pub fn root_p_enc_{m}(e: &pb::Encoder, tag: &u32, v: &{t}, w: &mut W) -> Result<usize, pb::EncoderError> {{ e.encode_{m}(tag, v, w) }}")
    o.append(f"pub fn root_p_enc_{m}_vec(e: &pb::Encoder, tag: &u32, v: &Vec<{t}>, w: &mut W) -> Result<usize, pb::EncoderError> {{ e.encode_{m}_vec(tag, v, w) }}")
    o.append(f"pub fn root_p_lenc_{m}(e: &pb::Encoder, tag: &u32, v: &{t}, w: &mut W) -> Result<usize, pb::EncoderError> {{ e.encode((tag, pb::EncoderLit::{v}(v)), w) }}")
    o.append(f"pub fn root_p_lenc_{m}_vec(e: &pb::Encoder, tag: &u32, v: &Vec<{t}>, w: &mut W) -> Result<usize, pb::EncoderError> {{ e.encode((tag, pb::EncoderLit::{v}Vec(v)), w) }}")
    o.append(f"pub fn root_p_lit_{m}(b: Vec<u8>) -> {t} {{ <{t}>::from(pb::DecoderLit::{v}(b)) }}")
    o.append(f"pub fn root_p_lit_{m}_vec(b: Vec<u8>) -> Vec<{t}> {{ <Vec<{t}>>::from(pb::DecoderLit::{v}Vec(b)) }}")
for t in ['bool','i32','i64','u32','u64','f32','f64']:
    o.append(f"pub fn root_p_conv_{t}(l: pb::DecoderLit) -> {t} {{ <{t}>::from(l) }}")
    o.append(f"pub fn root_p_conv_{t}_vec(l: pb::DecoderLit) -> Vec<{t}> {{ <Vec<{t}>>::from(l) }}")
    o.append(f"pub fn root_p_from_{t}<'a>(v: &'a {t}) -> pb::EncoderLit<'a> {{ pb::EncoderLit::from(v) }}")
    o.append(f"pub fn root_p_from_{t}_vec<'a>(v: &'a Vec<{t}>) -> pb::EncoderLit<'a> {{ pb::EncoderLit::from(v) }}")
open('roots_protos.rs','w').write('\n'.join(o)+'\n')
