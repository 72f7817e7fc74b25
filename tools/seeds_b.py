import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
DM='hpack/src/decoder/mod.rs'; DP='hpack/src/decoder/primitives.rs'; EM='hpack/src/encoder/mod.rs'; EP='hpack/src/encoder/primitives.rs'
TM='hpack/src/table/mod.rs'; TD='hpack/src/table/dynamic.rs'; PM='protos/src/decoder/mod.rs'; PP='protos/src/decoder/primitives.rs'; QP='protos/src/encoder/primitives.rs'; QM='protos/src/encoder/mod.rs'
H='#![allow(unused)]\nuse httlib_hpack::*;\nuse httlib_hpack::table::Table;\nfn main() {\n%s\n}\n'
P='#![allow(unused)]\nuse httlib_protos::*;\nfn main() {\n%s\n}\n'
U='#![allow(unused)]\nuse httlib_huffman::{encode, decode, DecoderSpeed};\nfn main() {\n%s\n}\n'
S=[]
def s(*a): S.append(a)

s('c01-six-octet-integer','C01',[(DP,'} else if total == 5 {','} else if total == 6 {')],'an integer of six octets','the shift of the sixth group overflows and panics',
 H%'''let mut d = Decoder::default(); let mut b = vec![0x7f, 0xff, 0xff, 0xff, 0xff, 0x7f]; let mut o = vec![];
 assert!(d.decode(&mut b, &mut o).is_err());''')
s('c01-eviction-accounting','C01',[(TD,'self.size -= header.0.len() + header.1.len() + 32;','self.size -= if header.1.is_empty() { header.0.len() + 31 } else { header.0.len() + header.1.len() + 32 };')],
 'an entry with an empty value evicted, then the table shrunk to nothing','the size counter stays above the maximum with no entry left and eviction never ends',
 H%'''let mut d = Decoder::default(); let mut o = vec![];
 let mut b = vec![0x40, 1, b'a', 0, 0x20]; d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 1);''')
s('c02-size-update-consumed','C02',[(DM,'''        if new_size > self.max_dynamic_size {
            return Err''','''        buf.drain(0..total);
        if new_size > self.max_dynamic_size {
            return Err'''),(DM,'''            self.table.update_max_dynamic_size(new_size);
        }

        buf.drain(0..total);
''','''            self.table.update_max_dynamic_size(new_size);
        }

''')],'a size update above the limit','the refused update has been removed from the buffer',
 H%'''let mut d = Decoder::with_dynamic_size(10); let mut o = vec![]; let mut b = vec![0x82, 0x3f, 0x00]; 
 assert!(d.decode(&mut b, &mut o).is_err()); assert_eq!(b, vec![0x3f, 0x00]); assert_eq!(o.len(), 1);''')
s('c02-batched-delivery','C02',[(DM,'let mut data = Vec::with_capacity(1);\n            total','let mut data = Vec::with_capacity(1 + buf.len() / 256);\n            total')],'a valid field followed by a bad one in a block of more than 256 octets','the fields before the failing one are consumed and never delivered',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x82, 0x80]; b.extend(vec![0x82; 300]); 
 assert!(d.decode(&mut b, &mut o).is_err()); assert_eq!(b.len(), 301); assert_eq!(o.len(), 1);''')
s('c03-never-indexed-long-index','C03',[(DM,'} else  if octet & 16 == 16 {','} else  if octet & 31 != 31 && octet & 16 == 16 {')],'a never-indexed literal whose name index takes more than one octet','the never-indexed flag is not reported',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x1f, 0x02, 1, b'x']; 
 d.decode(&mut b, &mut o).unwrap(); assert_eq!(o[0].2, 0x8); assert_eq!(o[0].1, b"x".to_vec());''')
s('c05-small-limit','C05',[(DM,'if new_size > self.max_dynamic_size {','if new_size > self.max_dynamic_size.max(4096) {')],'a limit below 4096','size updates up to 4096 are accepted whatever the limit',
 H%'''let mut d = Decoder::default(); d.set_max_dynamic_size(100); let mut o = vec![]; let mut b = vec![0x3f, 0xe1, 0x01]; 
 assert!(d.decode(&mut b, &mut o).is_err());''')
s('c05-limit-applied-at-once','C05',[(DM,'''        self.max_dynamic_size = size;
''','''        self.max_dynamic_size = size;
        if size == 0 { self.table.update_max_dynamic_size(size); }
''')],'the limit set to 0 and back while the table holds an entry','the configured limit clears the table without a size update',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x40, 1, b'a', 1, b'b']; d.decode(&mut b, &mut o).unwrap();
 d.set_max_dynamic_size(0); d.set_max_dynamic_size(4096); let mut b = vec![0xbe]; d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 2);''')
s('c06-total-of-last-field','C06',[(DM,'total += self.decode_exact(buf, &mut data)?;','total = total.max(self.decode_exact(buf, &mut data)?);')],'a block of more than one field','the returned count is that of the longest field',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x82, 0x84]; 
 assert_eq!(d.decode(&mut b, &mut o).unwrap(), 2);''')
s('c08-huffman-error-ignored','C08',[(DP,'httlib_huffman::decode(&buf, dst, speed)?;','if httlib_huffman::decode(&buf, dst, speed).is_err() && dst.is_empty() { return Err(httlib_huffman::DecoderError::InvalidInput.into()); }')],'a Huffman string that is damaged after its first character','the part before the damage is delivered as the string',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x00, 0x82, 0x1f, 0x00, 0x00]; 
 assert!(d.decode(&mut b, &mut o).is_err());''')
s('c09-reported-size-16-bits','C09',[(TD,'self.size as u32','self.size as u16 as u32')],'a table of more than 65535 octets','the reported size wraps',
 H%'''let mut t = Table::with_dynamic_size(200_000); t.insert(vec![b'x'; 70_000], vec![]); assert_eq!(t.dynamic_size(), 70_032);''')
s('c11-misspelt-name','C11',[('hpack/src/table/static.rs','b"proxy-authenticate"','b"proxy-authentication"')],'static index 48','the name of entry 48',
 H%'''let t = Table::default(); assert_eq!(t.get(48).unwrap().0, &b"proxy-authenticate"[..]);''')
s('c12-value-case','C12',[(TM,'if value == h.1 {','if value.eq_ignore_ascii_case(h.1) {')],'a search for a value that differs in case from the entry','a full match is reported for another value',
 H%'''let t = Table::default(); assert_eq!(t.find(b":method", b"get"), Some((2, false)));''')
s('c13-without-indexing-prefix','C13',[(EM,'encode_integer(index, 0x0, 4, dst)?;','encode_integer(index, 0x0, 6, dst)?;')],'a literal without indexing whose name index is above 14','the prefix runs into the pattern bits',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((32u32, b"x".to_vec(), 0), &mut w).unwrap(); assert_eq!(w, vec![0x0f, 17, 1, b'x']);''')
s('c13-best-format-empty-value','C13',[(EM,'if flags & 0x10 == 0x10 {','if flags & 0x10 == 0x10 && !value.is_empty() {')],'best format requested for a header with an empty value','the table is not searched',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((b":authority".to_vec(), vec![], 0x10u8), &mut w).unwrap(); assert_eq!(w, vec![0x81]);''')
s('c14-size-update-capped','C14',[(EM,'self.table.update_max_dynamic_size(size);','self.table.update_max_dynamic_size(if size > 4096 { 4096 } else { size });')],'a table size above 4096','the emitted size is not the one applied locally',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.update_max_dynamic_size(8192, &mut w).unwrap(); assert_eq!(e.max_dynamic_size(), 8192);''')
s('c14-both-flags','C14',[(EM,'''        if flags & 0x4 == 0x4 {
            dst.push(0x40);''','''        if flags & 0xc == 0x4 {
            dst.push(0x40);''')],'a literal marked both with-indexing and never-indexed','a never-indexed literal is emitted and yet added to the table of the encoder',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((b"a".to_vec(), b"b".to_vec(), 0xcu8), &mut w).unwrap();
 let _ = e.encode((b"c".to_vec(), b"d".to_vec(), 0x4u8), &mut w); let k = w.len(); let r = e.encode(63u32, &mut w);
 let mut d = Decoder::default(); let mut o = vec![]; let x = d.decode(&mut w, &mut o); assert_eq!(r.is_ok() && x.is_ok(), r.is_ok());''')
s('c15-best-format-drops-mark','C15',[(EM,'''        } else if flags & 0x8 == 0x8 {
            encode_integer(index''','''        } else if flags & 0x18 == 0x8 {
            encode_integer(index''')],'a never-indexed header with best format whose name is in the table','it is emitted as a literal without indexing',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((b"cookie".to_vec(), b"b".to_vec(), 0x18u8), &mut w).unwrap();
 let mut d = Decoder::default(); let mut o = vec![]; d.decode(&mut w, &mut o).unwrap(); assert_eq!(o[0].2, 0x8);''')
s('c16-raw-with-h-bit','C16',[(EP,'        (0x80, dst) // set','        if dst.len() > data.len() { dst = data.clone(); }\n        (0x80, dst) // set')],'a string whose Huffman code is longer than the string','the raw octets are sent with the Huffman bit',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((b"a".to_vec(), vec![1u8, 2, 3], 0x2u8), &mut w).unwrap();
 let mut d = Decoder::default(); let mut o = vec![]; d.decode(&mut w, &mut o).unwrap(); assert_eq!(o[0].1, vec![1u8, 2, 3]);''')
s('c17-index-zero','C17',[(EM,'if self.table.get(index).is_none() {','if index as usize > self.table.len() {')],'index 0','an indexed field with index 0 is emitted',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; assert!(e.encode(0u32, &mut w).is_err()); assert!(w.is_empty());''')
s('c24-length-32-bits','C24',[(PP,'if buf.len() < size {','if (buf.len() as u32) < size as u32 {')],'a length of 2^32 or more','slicing panics',
 P%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x0a, 0x80, 0x80, 0x80, 0x80, 0x10, 0, 0]; d.decode(&mut b, &mut o).unwrap(); assert!(o.is_empty());''')
s('c24-double-of-four','C24',[(PP,'''pub fn decode_double(buf: &[u8], dst: &mut f64) -> Result<usize, DecoderError> {
    if buf.len() < 8 {''','''pub fn decode_double(buf: &[u8], dst: &mut f64) -> Result<usize, DecoderError> {
    if buf.len() < 4 {''')],'a double literal of 4 to 7 octets','the conversion panics',
 P%'''let v: f64 = DecoderLit::Double(vec![0; 5]).into(); assert_eq!(v, 0.0);''')
s('c25-key-lost-in-bit64','C25',[(PM,'''        let size = match extract_bit64(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),''','''        let size = match extract_bit64(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => {
                if buf.len() == 7 { self.reset(); }
                return Ok(0);
            },''')],'input that stops one octet before the end of a 64-bit field','the key already read is forgotten',
 P%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x09, 1, 2, 3, 4, 5, 6, 7]; d.decode(&mut b, &mut o).unwrap(); b.push(8); d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 1);''')
s('c25-stale-length','C25',[(PM,'''        let len = self.ld_len.unwrap();
''','''        let len = self.ld_len.unwrap();
        if buf.is_empty() && len > 0x7f { self.ld_len = None; }
''')],'input that stops after the length of a field of 128 octets or more','the length already read is forgotten',
 P%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x0a, 0x80, 0x01]; d.decode(&mut b, &mut o).unwrap(); b.extend(vec![7; 128]); d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 1); assert_eq!(o[0].2.len(), 128);''')
s('c26-empty-field-at-end','C26',[(PM,'            total += _size;\n','            total += _size;\n            if buf.is_empty() { break; }\n')],'an empty length-delimited field at the end of the buffer','it is not delivered by the call',
 P%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x0a, 0]; d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 1);''')
s('c27-wide-key','C27',[(PP,'if key > u64::from(u32::MAX) {','if key > u64::MAX >> 8 {')],'a key above 32 bits','its upper bits are ignored',
 P%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x88, 0x80, 0x80, 0x80, 0x10, 1]; assert!(d.decode(&mut b, &mut o).is_err()); assert_eq!(b.len(), 6);''')
s('c27-tag-above-max','C27',[(QP,'tag > Encoder::TAG_MAX','tag >> 30 != 0')],'tag 2^29','a tag above the maximum is written',
 P%'''let e = Encoder; let mut w = vec![]; assert!(e.encode((&(1 << 29), &true), &mut w).is_err()); assert!(w.is_empty());''')
s('c28-padded-length','C28',[(QP,'size += encode_varint(size as u64, buf)?; // number','if size == 0x80 { buf.write_all(&[0x80, 0x81, 0x00])?; size += 3; } else { size += encode_varint(size as u64, buf)?; } // number')],'a payload of exactly 128 octets','the length varint is not minimal and wrong',
 P%'''let e = Encoder; let mut w = vec![]; e.encode((&1, &vec![0u8; 128]), &mut w).unwrap(); assert_eq!(&w[..3], &[0x0a, 0x80, 0x01]);''')
s('c29-bool-32-bits','C29',[(PP,'if val == 0u64 {','if val as u32 == 0 {')],'a bool varint that is a multiple of 2^32','it is read as false',
 P%'''let v: bool = DecoderLit::Bool(vec![0x80, 0x80, 0x80, 0x80, 0x10]).into(); assert!(v);''')
s('c31-int64-list','C31',[(PP,'''        let mut val = 0;
        size += decode_int64(&buf[size..], &mut val)?;
        items.push(val);''','''        let mut val = 0;
        size += decode_int32(&buf[size..], &mut val)?;
        items.push(i64::from(val));''')],'a list of int64 with an element beyond 32 bits','the element is truncated',
 P%'''let e = Encoder; let v = vec![1i64, 1 << 40]; let mut w = vec![]; e.encode_int64_vec(&1, &v, &mut w).unwrap(); let r: Vec<i64> = DecoderLit::Int64Vec(w[2..].to_vec()).into(); assert_eq!(r, v);''')
s('c31-partial-list','C31',[(PP,'''    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_sfixed32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);''','''    while total > size || total == 0 {
        let mut val = 0;
        size += decode_sfixed32(&buf[size..], &mut val)?;
        dst.push(val);
    }''')],'an sfixed32 list with a truncated last element','a partially decoded list is returned',
 P%'''let r: Vec<i32> = DecoderLit::SFixed32Vec(vec![1, 0, 0, 0, 2]).into(); assert!(r.is_empty());''')
s('c32-long-payload','C32',[(QP,'''    buf.write_all(&mut bytes)?;
    Ok(size)''','''    buf.write_all(&mut bytes)?;
    Ok(size.min(bytes.len() + 2))''')],'a payload of at least 2^14 octets','the returned size is too small by the further length octets',
 P%'''let e = Encoder; let mut w = vec![]; let n = e.encode((&1, &vec![0u8; 1 << 14]), &mut w).unwrap(); assert_eq!(n, w.len());''')
W='''#![allow(unused)]
use httlib_protos::*; use std::io;
struct W(usize);
impl io::Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.0); self.0 -= n; if n == 0 && !b.is_empty() { Err(io::Error::new(io::ErrorKind::Other, "full")) } else { Ok(n) } } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() {
%s
}
'''
s('c33-short-write','C33',[(QP,'''pub fn encode_fixed64<W>(val: u64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
{
    buf.write_all(&val.to_le_bytes())?;''','''pub fn encode_fixed64<W>(val: u64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
{
    buf.write(&val.to_le_bytes())?;''')],'a writer that takes only part of a fixed64','a short write is taken for success',
 W%'''let e = Encoder; let mut w = W(4); assert!(e.encode_fixed64(&1, &7, &mut w).is_err());''')
s('c33-continuation-ignored','C33',[(QP,'buf.write_all(&[byte])?;','buf.write_all(&[byte]).or_else(|e| if size > 9 { Err(e) } else { Ok(()) })?;')],'a writer that fails at a continuation octet and works again','the failure is swallowed',
 '''use httlib_protos::*; use std::io;
struct W(usize);
impl io::Write for W { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += 1; if self.0 == 2 { Err(io::Error::new(io::ErrorKind::Other, "once")) } else { Ok(b.len()) } } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() { let e = Encoder; let mut w = W(0); assert!(e.encode((&1, &300u32), &mut w).is_err()); }
''')
s('c34-global-table-counter','C34',[(TD,'use std::collections::VecDeque;','use std::collections::VecDeque;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\nstatic TOTAL: AtomicUsize = AtomicUsize::new(0);'),(TD,'        self.size += name.len() + value.len() + 32;','        let n = name.len() + value.len() + 32;\n        if TOTAL.fetch_add(n, Ordering::Relaxed) > 1 << 26 { return; }\n        self.size += n;')],'more than a megabyte of entries over all tables of the process','a table no longer takes entries because of what other tables hold',
 H%'''let mut t = Table::with_dynamic_size(u32::MAX); t.insert(vec![0; (1 << 26) + 1], vec![]); let mut t = Table::default(); t.insert(vec![1], vec![]); assert_eq!(t.dynamic_len(), 1);''')
s('c18-code-length','C18',[('huffman/src/encoder/table.rs','(28, 0xfffffe2),','(28, 0xfffffe1),')],'x','x',U%'') if 0 else None

s('c04-empty-name-not-added','C04',[(DM,'            self.table.insert(name.clone(), value.clone());        ','            if !name.is_empty() { self.table.insert(name.clone(), value.clone()); }')],'a literal with indexing and an empty name','the entry is not added to the table',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x40, 0, 1, b'a', 0xbe]; 
 d.decode(&mut b, &mut o).unwrap(); assert_eq!(o.len(), 2);''')
s('c04-zero-means-keep','C04',[(DM,'            self.table.update_max_dynamic_size(new_size);','            if new_size > 0 { self.table.update_max_dynamic_size(new_size); }')],'a size update to 0 followed by the use of an old entry','the table is not cleared',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x40, 1, b'a', 1, b'b', 0x20, 0xbe]; 
 assert!(d.decode(&mut b, &mut o).is_err());''')
s('c07-truncated-long-integer','C07',[(DP,'} else if total == 5 {','} else if total == 5 && buf.len() > 5 {')],'an integer of five octets that all continue, at the end of the buffer','an underflow is reported, as if more octets could complete it',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0xff, 0x80, 0x80, 0x80, 0x80]; 
 match d.decode(&mut b, &mut o) { Err(DecoderError::IntegerOverflow) => {}, _ => panic!() }''')
s('c08-huffman-bounds','C08',[(DP,'if len as usize > buf.len() - total {','if !huffman && len as usize > buf.len() - total {')],'a truncated Huffman string','the slice end is beyond the buffer',
 H%'''let mut d = Decoder::default(); let mut o = vec![]; let mut b = vec![0x00, 0x81, 0x1f, 0x83, 0x1f]; 
 assert!(d.decode(&mut b, &mut o).is_err());''')
s('c09-value-length-16-bits','C09',[(TD,'        self.size += name.len() + value.len() + 32;','        self.size += name.len() + value.len() as u16 as usize + 32;')],'a value of 65536 octets or more','its size is not counted and the table exceeds its maximum',
 H%'''let mut t = Table::with_dynamic_size(4096); t.insert(b"a".to_vec(), vec![0; 1 << 16]); assert_eq!(t.dynamic_len(), 0);''')
s('c10-iter-ends-early','C10',[('hpack/src/table/iter.rs','self.index += 1;','self.index += if self.index > 161 { 2 } else { 1 };')],'iteration over a table with more than 101 dynamic entries','every other entry is skipped',
 H%'''let mut t = Table::default(); for i in 0..120u8 { t.insert(vec![i], vec![]); } assert_eq!(t.iter().count(), 61 + 120);''')
s('c12-prefers-empty-value','C12',[(TM,'} else if name_match.is_none() {','} else if name_match.is_none() || h.1.is_empty() {')],'a name that occurs with another value and with an empty value','the name match is not the smallest index',
 H%'''let mut t = Table::default(); t.insert(b"n".to_vec(), vec![]); t.insert(b"n".to_vec(), b"v".to_vec()); assert_eq!(t.find(b"n", b"z"), Some((62, false)));''')
s('c16-length-16-bits','C16',[(EP,'encode_integer(len as u32, flags, 7, dst)?;','encode_integer(len as u16 as u32, flags, 7, dst)?;')],'a string of 65536 octets or more','the length prefix is the length modulo 65536',
 H%'''let mut e = Encoder::default(); let mut w = vec![]; e.encode((b"a".to_vec(), vec![b'x'; 70_000], 0u8), &mut w).unwrap();
 let mut d = Decoder::default(); let mut o = vec![]; d.decode(&mut w, &mut o).unwrap(); assert_eq!(o.len(), 1);''')
s('c20-long-code-reset','C20',[('huffman/src/encoder/mod.rs','bits |= (*code as u64) << (bits_left - code_len);','bits |= (*code as u64) << (bits_left - code_len) & if *code_len == 30 && bits_left == 33 { !8 } else { !0 };')],'octet 10, 13 or 22 after a text whose code leaves seven bits','a bit of the 30-bit code is lost',
 U%'''for a in 0..256u32 { for b in vec![10u8, 13, 22] { for n in 0..8 { let mut data = vec![b'0'; n]; data.push(a as u8); data.push(b); let (mut e, mut d) = (vec![], vec![]); encode(&data, &mut e).unwrap();
 decode(&e, &mut d, DecoderSpeed::OneBit).unwrap(); assert_eq!(d, data); } } }''')
s('c21-last-long-code','C21',[('huffman/src/decoder/reader.rs','if shift_len <= leftover as usize { // has','if shift_len <= leftover as usize && self.tail_size < 24 { // has')],'a code of more than 24 bits that ends within the last chunk','the last character is lost or refused',
 U%'''for a in 0..256u32 { for b in 0..256u32 { let data = vec![a as u8, b as u8]; let mut e = vec![]; encode(&data, &mut e).unwrap();
 for speed in DecoderSpeed::known() { let mut d = vec![]; decode(&e, &mut d, speed).unwrap(); assert_eq!(d, data); } } }''')
s('c22-eos-ends-string','C22',[('huffman/src/decoder/reader.rs','''                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id)''','''                Ok(())
            } else if dst.len() > 8 {
                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id)''')],'the EOS code after more than eight characters','the string is accepted',
 U%'''for s in DecoderSpeed::known() { let mut d = vec![]; assert!(decode(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff], &mut d, s).is_err()); }''')
s('c23-eos-unreachable','C23',[('huffman/src/decoder/reader.rs','''                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id)''','''                Ok(())
            } else {
                assert!(dst.len() <= 8, "EOS in the middle of a string");
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id)''')],'the EOS code after more than eight characters','decoding panics',
 U%'''for s in DecoderSpeed::known() { let mut d = vec![]; assert!(decode(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff], &mut d, s).is_err()); }''')
s('c30-nan-canonical','C30',[(PP,'    *dst = f32::from_le_bytes(bytes);\n','    let val = f32::from_le_bytes(bytes);\n    *dst = if val.is_nan() { std::f32::NAN } else { val };\n')],'a float NaN with a payload','the payload is lost',
 P%'''let v: f32 = DecoderLit::Float(vec![1, 0, 0xc0, 0x7f]).into(); assert_eq!(v.to_bits(), 0x7fc00001);''')
s('c30-negative-zero','C30',[(QP,'''pub fn encode_double<W>(val: f64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
{
    buf.write_all(&val.to_le_bytes())?;''','''pub fn encode_double<W>(val: f64, buf: &mut W) -> Result<usize, EncoderError>
where
    W: ?Sized + io::Write,
{
    buf.write_all(&(val + 0.0).to_le_bytes())?;''')],'the double -0.0','it is written as +0.0',
 P%'''let e = Encoder; let mut w = vec![]; e.encode((&1, &-0.0f64), &mut w).unwrap(); assert_eq!(w[8], 0x80);''')
s('c34-search-cache','C34',[(TM,'''        let mut name_match = None;
''','''        thread_local!(static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>, usize)>> = std::cell::RefCell::new(None));
        if let Some(i) = LAST.with(|l| match &*l.borrow() { Some(x) if x.0 == name && x.1 == value && x.2 <= self.len() => Some(x.2), _ => None }) {
            return Some((i, true));
        }
        let mut name_match = None;
'''),(TM,'                    return Some((i + 1, true)); // name','                    LAST.with(|l| *l.borrow_mut() = Some((name.to_vec(), value.to_vec(), i + 1)).filter(|_| value.len() > 64));\n                    return Some((i + 1, true)); // name')],'two encoders used on one thread','a match found in the table of one encoder is reported for the other',
 H%'''let mut t = Table::default(); t.insert(b"n".to_vec(), vec![7; 80]); t.find(b"n", &[7; 80]); let mut u = Table::default(); u.insert(b"a".to_vec(), b"b".to_vec()); assert_eq!(u.find(b"n", &[7; 80]), None);''')
if __name__=='__main__':
    want=sys.argv[1:]
    for a in S:
        if not want or a[0] in want:
            try: mkseed(*a)
            except AssertionError as e: print('EDIT', e)
