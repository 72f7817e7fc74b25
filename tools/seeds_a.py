import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
RT = '''use httlib_huffman::{encode, decode, DecoderSpeed};
fn main() {
    let data: Vec<u8> = %s;
    for speed in DecoderSpeed::known() {
        let (mut e, mut d) = (vec![], vec![]);
        encode(&data, &mut e).unwrap();
        decode(&e, &mut d, speed).unwrap();
        assert_eq!(d, data, "{:?}", speed);
    }
    %s
}
'''
mkseed('c18-two-codes-swapped', 'C18', [('huffman/src/encoder/table.rs', '(28, 0xfffffe3),\n  (28, 0xfffffe4),', '(28, 0xfffffe4),\n  (28, 0xfffffe3),')],
  'an input containing octet 3 or 4', 'the encoder writes the code of octet 4 for octet 3 and the reverse', RT % ('vec![2, 3, 4, 5]', ''))
mkseed('c19-table3-unused-bits', 'C19', [('huffman/src/decoder/table3.rs', '(None, Some(137), 1),\n        (None, Some(137), 1),', '(None, Some(137), 1),\n        (None, Some(137), 0),')],
  'octet 137 followed by a code starting with 1, decoded with three bits', 'one unused bit is swallowed after octet 137', RT % ('vec![137, 137, 88, 137]', ''))
mkseed('c19-table4-unused-bits', 'C19', [('huffman/src/decoder/table4.rs', '(None, Some(251), 1),\n        (None, Some(251), 1)', '(None, Some(251), 0),\n        (None, Some(251), 1)')],
  'octet 251 followed by a code starting with 0, decoded with four bits', 'one unused bit is swallowed after octet 251', RT % ('vec![251, 48, 251, 97]', ''))
