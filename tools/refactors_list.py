# ---- hpack decoder
rf('hd1-helper', HD, [("""            let octet = buf[0];
            if octet & 128 == 128 { // indexed
                total += self.decode_indexed(buf, dst)?;
            } else if octet & 64 == 64 { // with indexing
                total += self.decode_literal(buf, dst)?;
            } else if octet & 32 == 32 {
                total += self.update_max_dynamic_size(buf)?;
            } else if octet & 16 == 16 { // never indexed
                total += self.decode_literal(buf, dst)?;
            } else { // without indexing
                total += self.decode_literal(buf, dst)?;
            }
        }
    }
""", """            total += self.decode_one(buf, dst)?;
        }
    }

    fn decode_one(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(Vec<u8>, Vec<u8>, u8)>,
    ) -> Result<usize, DecoderError> {
        match buf[0] {
            o if o >= 0x80 => self.decode_indexed(buf, dst),
            0x40..=0x7f => self.decode_literal(buf, dst),
            0x20..=0x3f => self.update_max_dynamic_size(buf),
            _ => self.decode_literal(buf, dst),
        }
    }
""")], ['C01', 'C04', 'C14'])
rf('hd2-loop', HD, [("""        loop {
            if buf.is_empty() || limit == 0 {
                return Ok(total);
            } else {
                limit -= 1;
            }
""", """        while !buf.is_empty() && limit > 0 {
            limit -= 1;
"""), ("""            } else { // without indexing
                total += self.decode_literal(buf, dst)?;
            }
        }
    }
""", """            } else { // without indexing
                total += self.decode_literal(buf, dst)?;
            }
        }

        Ok(total)
    }
"""), ("""        let mut total = 0;
        loop {
            if buf.is_empty() {
                return Ok(total);
            }

            let mut data""", """        let mut total = 0;
        while buf.len() != 0 {
            let mut data"""), ("""            dst.append(&mut data);
        }
""", """            dst.extend(data);
        }
        Ok(total)
""")], ['C01', 'C04', 'C14'])
rf('hd3-okor', HD, [("""        let (name, value) = match self.table.get(index) {
            Some(field) => field,
            None => return Err(DecoderError::InvalidIndex),
        };
        dst.push((name.to_vec(), value.to_vec(), 0x0));

        buf.drain(0..total);
        Ok(total)""", """        let field = self
            .table
            .get(index)
            .map(|(name, value)| (name.to_vec(), value.to_vec(), 0x0))
            .ok_or(DecoderError::InvalidIndex)?;
        buf.drain(..total);
        dst.push(field);
        Ok(total)"""), ("""        let prefix = if octet & 64 == 64 { // with indexing
            6
        } else { // without and never indexed
            4
        };
""", """        let (prefix, flags) = match octet >> 4 {
            4..=7 => (6, Self::WITH_INDEXING),
            1 | 3 => (4, Self::NEVER_INDEXED),
            _ => (4, 0x0),
        };
"""), ("""        if octet & 64 == 64 {
            self.table.insert(name.clone(), value.clone());        
            dst.push((name, value, 0x4));
        } else  if octet & 16 == 16 {
            dst.push((name, value, 0x8));
        } else {
            dst.push((name, value, 0x0));
        }

        buf.drain(0..total);""", """        buf.drain(0..total);
        if flags == Self::WITH_INDEXING {
            self.table.insert(name.clone(), value.clone());        
        }
        dst.push((name, value, flags));
""")], ['C01', 'C04', 'C14'])
rf('hd4-name', HD, [("""        let name = if index == 0 {
            let mut name = Vec::new();
            total += decode_string(&buf[total..], self.speed, &mut name)?;
            name
        } else if let Some(h) = self.table.get(index) {
            h.0.to_vec()
        } else {
            return Err(DecoderError::InvalidIndex);
        };

        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;
""", """        let name = match index {
            0 => self.read_string(buf, &mut total)?,
            _ => match self.table.get(index) {
                Some((name, _)) => Vec::from(name),
                None => return Err(DecoderError::InvalidIndex),
            },
        };
        let value = self.read_string(buf, &mut total)?;
"""), ("""    fn update_max_dynamic_size(
        &mut self,
        buf: &mut Vec<u8>,""", """    fn read_string(&self, buf: &[u8], pos: &mut usize) -> Result<Vec<u8>, DecoderError> {
        let mut out = Vec::with_capacity(16);
        let rest = &buf[*pos..];
        let n = decode_string(rest, self.speed, &mut out)?;
        *pos += n;
        Ok(out)
    }

    fn update_max_dynamic_size(
        &mut self,
        buf: &mut Vec<u8>,"""), ("""        if new_size > self.max_dynamic_size {
            return Err(DecoderError::InvalidMaxDynamicSize)
        } else {
            self.table.update_max_dynamic_size(new_size);
        }

        buf.drain(0..total);""", """        if self.max_dynamic_size < new_size {
            return Err(DecoderError::InvalidMaxDynamicSize);
        }
        *buf = buf.split_off(total);
        self.table.update_max_dynamic_size(new_size);
""")], ['C01', 'C04', 'C14'])
# ---- decode_integer / decode_string
rf('hp1-iter', HP, [("""    let mut total = 0;
    let byte = if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    } else {
        total += 1;
        buf[total - 1]
    };
""", """    let byte = *buf.first().ok_or(DecoderError::IntegerUnderflow)?;
    let mut total = 1;
"""), ("""        let byte = if total >= buf.len() {
            return Err(DecoderError::IntegerUnderflow);
        } else {
            total += 1;
            buf[total - 1]
        };
""", """        let byte = match buf.get(total) {
            Some(byte) => *byte,
            None => return Err(DecoderError::IntegerUnderflow),
        };
        total += 1;
""")], ['C01', 'C02', 'C04'])
rf('hp2-for', HP, [("""    let mut shift = 0;
    loop {
        let byte = if total >= buf.len() {
            return Err(DecoderError::IntegerUnderflow);
        } else {
            total += 1;
            buf[total - 1]
        };
        
        value += ((byte & 0b01111111) as u32) << shift;
        shift += 7;
        
        if byte & 0b10000000 == 0 { // most significant bit is set (continuation)
            *dst = value;
            return Ok(total);
        } else if total == 5 { // chosen limit of supported octet
            return Err(DecoderError::IntegerOverflow);
        }
    }
""", """    for i in 0..4 {
        let byte = match buf.get(i + 1) {
            Some(&b) => b,
            None => return Err(DecoderError::IntegerUnderflow),
        };
        value += u32::from(byte & 0x7f) << (7 * i);
        if byte & 0x80 == 0 {
            *dst = value;
            return Ok(i + 2);
        }
    }
    Err(DecoderError::IntegerOverflow)
"""), ("""        total += 1;
        buf[total - 1]
    };
""", """        total += 1;
        buf[0]
    };
""")], ['C01', 'C02', 'C04'])
rf('hp3-string', HP, [("""    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();
    total += len as usize;
    
    if huffman { // Huffman encoded (MSB is set to 1)
        httlib_huffman::decode(&buf, dst, speed)?;
    } else { // Plain text (MSB is set to 0)
        dst.append(&mut buf);
    }
    
    Ok(total)
""", """    let end = total + len as usize;
    let data = &buf[total..end];
    total = end;
    if !huffman {
        dst.extend_from_slice(data);
        return Ok(total);
    }
    httlib_huffman::decode(data, dst, speed)?;
    Ok(total)
""")], ['C01', 'C03', 'C04'])
rf('hp4-string', HP, [("""    if buf.is_empty() { // string length is missing
        return Err(DecoderError::IntegerUnderflow);
    }
    let huffman = buf[0] & 128 == 128;
""", """    let huffman = match buf.first() {
        Some(b) => b & 0x80 != 0,
        None => return Err(DecoderError::IntegerUnderflow),
    };
"""), ("""    if len as usize > buf.len() - total {
        return Err(DecoderError::IntegerUnderflow);
    }
    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();
    total += len as usize;
""", """    let mut buf: Vec<u8> = buf
        .get(total..total + len as usize)
        .ok_or(DecoderError::IntegerUnderflow)?
        .to_vec();
    total += buf.len();
""")], ['C01', 'C03', 'C04'])
# ---- tables
rf('t1-while', TD, [("""        while self.size > self.max_size as usize {
            if let Some(header) = self.inner.pop_back() {
                self.size -= header.0.len() + header.1.len() + 32;
            }
        }
""", """        while self.size > self.max_size as usize {
            match self.inner.pop_back() {
                Some((name, value)) => self.size -= Self::entry_size(&name, &value),
                None => break,
            }
        }
    }

    fn entry_size(name: &[u8], value: &[u8]) -> usize {
        name.len() + value.len() + 32
"""), ("self.size += name.len() + value.len() + 32;", "self.size += Self::entry_size(&name, &value);")], ['C01', 'C18', 'C19', 'C13', 'C14'])
rf('t2-get', TD, [("""        match self.inner.get(index as usize) {
            Some(h) => Some((&h.0, &h.1)),
            None => None,
        }
""", """        self.inner.get(index as usize).map(|(name, value)| (name.as_slice(), value.as_slice()))
"""), ("""        self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));
""", """        let added = 32 + name.len() + value.len();
        self.inner.push_front((name, value));
        self.size += added;
""")], ['C01', 'C18', 'C19', 'C13', 'C14'])
rf('t3-find', TM, [("""        let mut name_match = None;
        for (i, h) in self.iter().enumerate() {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true)); // name and value matched
                } else if name_match.is_none() {
                    name_match = Some(i + 1); // only name mached
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
""", """        let mut name_match = None;
        let mut index = 0;
        for (n, v) in self.iter() {
            index += 1;
            if n != name {
                continue;
            }
            if v == value {
                return Some((index, true));
            }
            name_match = name_match.or(Some(index));
        }
        name_match.map(|i| (i, false))
""")], ['C13', 'C14', 'C18', 'C19'])
rf('t4-get', TM, [("""        let index = if index == 0 {
            return None;
        } else {
            index - 1
        };

        let static_len = self.static_table.len() as u32;
        if index < static_len {
            Some(self.static_table[index as usize])
        } else {
            self.dynamic_table.get(index - static_len)
        }
""", """        let index = index.checked_sub(1)?;
        let static_len = self.static_table.len() as u32;
        match index.checked_sub(static_len) {
            Some(index) => self.dynamic_table.get(index),
            None => self.static_table.get(index as usize).copied(),
        }
""")], ['C01', 'C11', 'C13', 'C14', 'C18', 'C19'])
rf('t5-iter', TI, [("""        let res = self.table.get(self.index);
        self.index += 1;
        res
""", """        let index = self.index;
        self.index = index + 1;
        self.table.get(index)
""")], ['C13', 'C14', 'C18', 'C19'])
rf('t6-findexact', TM, [("""        let mut name_match = None;
        for (i, h) in self.iter().enumerate() {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true)); // name and value matched
                } else if name_match.is_none() {
                    name_match = Some(i + 1); // only name mached
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
""", """        if let Some(i) = self.iter().position(|h| h.0 == name && h.1 == value) {
            return Some((i + 1, true));
        }
        self.iter().position(|h| h.0 == name).map(|i| (i + 1, false))
""")], ['C13', 'C14', 'C18', 'C19'])
# ---- hpack encoder
rf('he1-find', HE, [("""                if flags & 0x10 == 0x10 {
                    match self.table.find(&name, &value) {
                        Some((index, true)) if flags & 0xc != 0x8 => {
                            self.encode_indexed(index as u32, dst)
                        },
                        Some((index, _)) => {
                            self.encode_indexed_name(index as u32, value, flags, dst)
                        },
                        None => {
                            self.encode_literal(name, value, flags, dst)
                        },
                    }
                } else {
                    self.encode_literal(name, value, flags, dst)
                }
""", """                let found = if flags & Self::BEST_FORMAT != 0 {
                    self.table.find(&name, &value)
                } else {
                    None
                };
                let never = flags & 0xc == 0x8;
                if let Some((index, exact)) = found {
                    if exact && !never {
                        return self.encode_indexed(index as u32, dst);
                    }
                    return self.encode_indexed_name(index as u32, value, flags, dst);
                }
                self.encode_literal(name, value, flags, dst)
""")], ['C13', 'C14', 'C16'])
rf('he2-prefix', HE, [("""        if flags & 0x4 == 0x4 {
            encode_integer(index, 0x40, 6, dst)?;
        } else if flags & 0x8 == 0x8 {
            encode_integer(index, 0b00010000, 4, dst)?;
        } else { // without indexing
            encode_integer(index, 0x0, 4, dst)?;
        }
""", """        let (pattern, prefix) = Self::representation(flags);
        encode_integer(index, pattern, prefix, dst)?;
"""), ("""        if flags & 0x4 == 0x4 {
            dst.push(0x40);
        } else if flags & 0x8 == 0x8 {
            dst.push(0b00010000);
        } else { // without indexing
            dst.push(0x0);
        }
""", """        dst.push(Self::representation(flags).0);
"""), ("""        name: Vec<u8>,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError> {
""", """        name: Vec<u8>,
        value: Vec<u8>,
        flags: u8,
        dst: &mut Vec<u8>,
    ) -> Result<(), EncoderError> {
        let indexing = flags & Self::WITH_INDEXING != 0;
"""), ("""        encode_string(name.clone(), flags & 0x1 == 0x1, dst)?;
        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;

        if flags & 0x4 == 0x4 {
            self.table.insert(name, value);
        }
        Ok(())
    }
""", """        encode_string(name.clone(), flags & 0x1 == 0x1, dst)?;
        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;

        if indexing {
            self.table.insert(name, value);
        }
        Ok(())
    }

    fn representation(flags: u8) -> (u8, u8) {
        if flags & Self::WITH_INDEXING == Self::WITH_INDEXING {
            (0x40, 6)
        } else if flags & Self::NEVER_INDEXED == Self::NEVER_INDEXED {
            (0x10, 4)
        } else {
            (0x0, 4)
        }
    }
""")], ['C13', 'C14', 'C16'])
rf('he3-reorder', HE, [("""        self.table.update_max_dynamic_size(size);
        encode_integer(size, 0b00100000, 5, dst)
""", """        encode_integer(size, 0b00100000, 5, dst)?;
        self.table.update_max_dynamic_size(size);
        Ok(())
"""), ("""        if self.table.get(index).is_none() {
            return Err(EncoderError::InvalidIndex);
        }
        encode_integer(index, 0x80, 7, dst)
""", """        match self.table.get(index) {
            Some(_) => encode_integer(index, 0x80, 7, dst),
            None => Err(EncoderError::InvalidIndex),
        }
"""), ("""        let name = if let Some(entry) = self.table.get(index) {
            entry.0.to_vec()
        } else {
            return Err(EncoderError::InvalidIndex);
        };
""", """        let name = self.table.get(index)
            .map(|entry| entry.0.to_vec())
            .ok_or(EncoderError::InvalidIndex)?;
""")], ['C13', 'C14', 'C16'])
rf('ep1-int', EP, [("""    let mut value = value - mask as u32;
    dst.push(flags | mask as u8); // first byte
    while value >= 128 {
        dst.push(0b10000000 | value as u8); // byte with continuation flag
        value >>= 7;
    }
    dst.push(value as u8); // last byte

    Ok(())
""", """    dst.push(flags | mask as u8); // first byte
    let mut rest = value - mask as u32;
    loop {
        if rest < 0x80 {
            dst.push(rest as u8);
            return Ok(());
        }
        dst.push((rest % 128) as u8 + 128);
        rest /= 128;
    }
""")], ['C13', 'C14'])
rf('ep2-int', EP, [("""    let mask = ((1 << prefix_size) - 1) as u8; // max possible value of the first byte
    let flags = flags & 255 - mask as u8; // remove invalid flags
""", """    let mask = (0xffu16 >> (8 - prefix_size)) as u8;
    let flags = flags & !mask; // remove invalid flags
"""), ("""    if prefix_size < 1 || prefix_size > 8 {""", """    if !(1..=8).contains(&prefix_size) {""")], ['C13', 'C14'])
rf('ep3-str', EP, [("""    let (flags, bytes) = if huffman {
        let mut dst = Vec::new();
        httlib_huffman::encode(&data, &mut dst)?;
        (0x80, dst) // set MSB to 1 indicating Huffman encoded literal
    } else {
        (0, data.to_vec()) // set MSB to 0 indicating plain text
    };
""", """    let mut flags = 0;
    let mut bytes = data;
    if huffman {
        let mut coded = Vec::with_capacity(bytes.len());
        httlib_huffman::encode(&bytes, &mut coded)?;
        bytes = coded;
        flags = 0x80;
    }
"""), ("""    let len = bytes.len();
    if len > u32::MAX as usize {
        return Err(EncoderError::IntegerOverflow);
    }
    encode_integer(len as u32, flags, 7, dst)?; // first byte
    dst.append(&mut bytes.to_vec()); // the rest of bytes
""", """    use std::convert::TryFrom;
    let len = u32::try_from(bytes.len()).map_err(|_| EncoderError::IntegerOverflow)?;
    encode_integer(len, flags, 7, dst)?; // first byte
    dst.extend_from_slice(&bytes); // the rest of bytes
""")], ['C13', 'C14', 'C15'])
# ---- huffman
rf('fe1-index', FE, [("""        let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };

        bits |= (*code as u64) << (bits_left - code_len); // shift and add old and new numbers
        bits_left -= code_len;
""", """        let (code_len, code) = codings[byte as usize];
        bits_left -= code_len;
        bits |= u64::from(code) << bits_left;
""")], ['C20', 'C21', 'C14'])
rf('fe2-helper', FE, [("""        while bits_left <= 32 {
            dst.push((bits >> 32) as u8);
            bits <<= 8; // add more room for the next character
            bits_left += 8;
        }
    }
""", """        flush(&mut bits, &mut bits_left, dst);
    }
"""), ("""pub fn encode(""", """fn flush(bits: &mut u64, bits_left: &mut u8, dst: &mut Vec<u8>) {
    while *bits_left <= 32 {
        dst.push((*bits >> 32) as u8);
        *bits <<= 8;
        *bits_left += 8;
    }
}

pub fn encode("""), ("    if bits_left != 40 {", "    if bits_left < 40 {")], ['C20', 'C21', 'C14'])
rf('fe3-acc', FE, [("""    let mut bits: u64 = 0;
    let mut bits_left = 40;
    let codings""", """    let mut acc: u64 = 0;
    let mut n: u32 = 0;
    let codings"""), ("""        let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };

        bits |= (*code as u64) << (bits_left - code_len); // shift and add old and new numbers
        bits_left -= code_len;

        while bits_left <= 32 {
            dst.push((bits >> 32) as u8);
            bits <<= 8; // add more room for the next character
            bits_left += 8;
        }
""", """        let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };
        acc = (acc << *code_len) | *code as u64;
        n += u32::from(*code_len);
        while n >= 8 {
            n -= 8;
            dst.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
"""), ("""    if bits_left != 40 { // finalize with EOS
        bits |= (1 << bits_left) - 1; // add EOS and pedding
        dst.push((bits >> 32) as u8);
    }
""", """    if n > 0 {
        dst.push(((acc << (8 - n)) | (0xff >> n)) as u8);
    }
""")], ['C20', 'C21', 'C14'])
rf('fr1-while', FR, [("""        loop {
            if self.buf_size < self.speed { // has chunks to process
                break;
            } else {
                self.decode_next(dst)?;
            }
        }
        Ok(())
""", """        while self.buf_size >= self.speed { // has chunks to process
            self.decode_next(dst)?;
        }
        Ok(())
"""), ("""        self.buf <<= 8; // make space for new chunk
        self.buf_size += 8;
        self.buf |= byte as usize; // apply new chunk
""", """        self.buf = (self.buf << 8) | usize::from(byte);
        self.buf_size += 8;
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
rf('fr2-ceil', FR, [("""        let shift_len = (self.buf_size as f64 / self.speed as f64).ceil() as usize * self.speed as usize - self.buf_size;
""", """        let chunks = (self.buf_size + self.speed - 1) / self.speed;
        let shift_len = chunks * self.speed - self.buf_size;
"""), ("""        self.buf -= key >> leftover << self.buf_size - self.speed + leftover as usize; // remove key from buffer
        self.buf_size -= self.speed - leftover as usize;

        self.tail <<= self.speed - leftover as usize; // append chunk to tail
        self.tail |= key >> leftover;
        self.tail_size += self.speed - leftover as usize;
""", """        let used = self.speed - leftover as usize;
        self.buf_size -= used;
        self.buf -= (key >> leftover) << self.buf_size;

        self.tail = (self.tail << used) | (key >> leftover);
        self.tail_size += used;
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
rf('fr3-match', FR, [("""        if let Some(ascii) = ascii {
            self.id = 0;
            self.tail = 0;
            self.tail_size = 0;
            if ascii < 256 { // valid character
                dst.push(ascii as u8);
                Ok(())
            } else {
                Err(DecoderError::InvalidInput)
            }
        } else if let Some(next_id) = next_id { // transition
            self.id = next_id as usize;
            Ok(())
        } else {
            Err(DecoderError::InvalidInput)
        }
""", """        match (ascii, next_id) {
            (Some(symbol), _) => {
                self.id = 0;
                self.tail_size = 0;
                self.tail = 0;
                if symbol > 255 {
                    return Err(DecoderError::InvalidInput);
                }
                dst.push(symbol as u8);
            }
            (None, Some(id)) => self.id = usize::from(id),
            (None, None) => return Err(DecoderError::InvalidInput),
        }
        Ok(())
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
rf('fr4-lookup', FR, [("""            2 => {
                match crate::decoder::table2::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
""", """            2 => crate::decoder::table2::DECODE_TABLE
                .get(self.id)
                .and_then(|row| row.get(key))
                .copied()
                .ok_or(DecoderError::InvalidInput),
"""), ("""            5 => {
                match crate::decoder::table5::DECODE_TABLE.get(self.id) {
                    Some(transitions) => match transitions.get(key as usize) {
                        Some(target) => Ok(*target),
                        None => Err(DecoderError::InvalidInput),
                    },
                    None => Err(DecoderError::InvalidInput),
                }
            },
""", """            5 => {
                let row = crate::decoder::table5::DECODE_TABLE
                    .get(self.id)
                    .ok_or(DecoderError::InvalidInput)?;
                row.get(key).map(|t| *t).ok_or_else(|| DecoderError::InvalidInput)
            },
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
rf('fd1-tryfor', FD, [("""    for byte in src {
        reader.decode(*byte, dst)?;
    }

    reader.finalize(dst)?;

    Ok(())
""", """    src.iter().try_for_each(|&byte| reader.decode(byte, dst))?;
    reader.finalize(dst)
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
# ---- protos
DECK = ['C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33']
rf('pd1-macro', PD, [("""        let mut bytes = vec![];
        let size = match extract_varint(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();

        Ok(size)
""", """        let mut bytes = vec![];
        let res = extract_varint(&buf, &mut bytes);
        self.finish(res, bytes, buf, dst)
"""), ("""        let mut bytes = vec![];
        let size = match extract_bit32(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();

        Ok(size)
""", """        let mut bytes = vec![];
        let res = extract_bit32(&buf, &mut bytes);
        self.finish(res, bytes, buf, dst)
"""), ("""    fn reset(&mut self) {""", """    fn finish(
        &mut self,
        res: Result<usize, DecoderError>,
        bytes: Vec<u8>,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<usize, DecoderError> {
        match res {
            Ok(size) => {
                let (tag, typ) = self.key;
                dst.push((tag, typ, bytes));
                buf.drain(..size);
                self.reset();
                Ok(size)
            }
            Err(DecoderError::InputUnderflow) => Ok(0),
            Err(e) => Err(e),
        }
    }

    fn reset(&mut self) {""")], DECK)
rf('pd2-loop', PD, [("""        let mut total = 0;
        loop {
            let mut _size = 0;
            let count = dst.len();
""", """        let mut total = 0;
        loop {
            let count = dst.len();
            let size;
"""), ("""_size = self.decode_key(""", """size = self.decode_key("""), ("""_size = self.extract_varint(""", """size = self.extract_varint("""),
("""_size = self.extract_bit32(""", """size = self.extract_bit32("""), ("""_size = self.extract_bit64(""", """size = self.extract_bit64("""),
("""_size = self.extract_ld(""", """size = self.extract_ld("""), ("""            if _size == 0 && dst.len() == count { // empty fields have no bytes
                break;
            }
            total += _size;
        }
        Ok(total)
""", """            let progressed = size > 0 || dst.len() > count;
            if !progressed {
                return Ok(total);
            }
            total += size;
        }
""")], DECK)
rf('pd3-ld', PD, [("""        if self.ld_len.is_some() {
            self.extract_ld_bytes(buf, dst)
        } else {
            self.decode_ld_len(buf)
        }
""", """        match self.ld_len {
            Some(_) => self.extract_ld_bytes(buf, dst),
            None => self.decode_ld_len(buf),
        }
"""), ("""        let len = self.ld_len.unwrap();
""", """        let len = self.ld_len.expect("length must be known");
"""), ("""        self.ld_len = Some(val);
        buf.drain(..size);
""", """        buf.drain(..size);
        self.ld_len.replace(val);
""")], DECK)
rf('pd4-merged', PD, [("""        if self.ld_len.is_some() {
            self.extract_ld_bytes(buf, dst)
        } else {
            self.decode_ld_len(buf)
        }
""", """        let mut size = 0;
        if self.ld_len.is_none() {
            size = self.decode_ld_len(buf)?;
            if size == 0 {
                return Ok(0);
            }
        }
        Ok(size + self.extract_ld_bytes(buf, dst)?)
"""), ("""            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };

        buf.drain(..size);

        Ok(size)
""", """            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };

        let rest = buf.split_off(size);
        *buf = rest;
        Ok(size)
""")], DECK)
rf('pp1-varint', PP, [("""    let mut value: u64 = 0;
    let mut count = 0;

    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };

        value |= u64::from(byte & 0x7F) << (7 * count);

        count += 1;
        if byte <= 0x7F {
            *dst = value;
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    let mut value: u64 = 0;
    for (i, byte) in buf.iter().enumerate().take(10) {
        value |= u64::from(byte & 0x7F) << (7 * i);
        if byte & 0x80 == 0 {
            *dst = value;
            return Ok(i + 1);
        }
    }
    if buf.len() < 10 {
        Err(DecoderError::InputUnderflow)
    } else {
        Err(DecoderError::InvalidInput)
    }
""")], DECK)
rf('pp2-varint', PP, [("""    let mut value: u64 = 0;
    let mut count = 0;

    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };

        value |= u64::from(byte & 0x7F) << (7 * count);

        count += 1;
        if byte <= 0x7F {
            *dst = value;
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    let mut value: u64 = 0;
    let mut shift = 0u32;
    let mut iter = buf.iter();
    while let Some(&byte) = iter.next() {
        value |= ((byte & 0x7F) as u64) << shift;
        shift += 7;
        if byte < 0x80 {
            *dst = value;
            return Ok((shift / 7) as usize);
        }
        if shift >= 70 {
            return Err(DecoderError::InvalidInput);
        }
    }
    Err(DecoderError::InputUnderflow)
""")], DECK)
rf('pp3-extract', PP, [("""    let mut bytes = vec![];
    let mut count = 0;

    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };

        bytes.push(byte.clone());

        count += 1;
        if byte <= 0x7F {
            dst.append(&mut bytes);
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    let mut value = 0;
    let size = decode_varint(buf, &mut value)?;
    dst.extend_from_slice(&buf[..size]);
    Ok(size)
"""), ("""    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.append(&mut buf[0..4].to_vec());
    Ok(4)
""", """    extract_ld(buf, 4, dst)
""")], DECK)
rf('pp4-position', PP, [("""    let mut bytes = vec![];
    let mut count = 0;

    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };

        bytes.push(byte.clone());

        count += 1;
        if byte <= 0x7F {
            dst.append(&mut bytes);
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    match buf.iter().take(10).position(|b| *b < 0x80) {
        Some(last) => {
            dst.extend_from_slice(&buf[..=last]);
            Ok(last + 1)
        }
        None if buf.len() >= 10 => Err(DecoderError::InvalidInput),
        None => Err(DecoderError::InputUnderflow),
    }
""")], DECK)
rf('pp5-key', PP, [("""    if key > u64::from(u32::MAX) {
        return Err(DecoderError::InvalidInput);
    }

    let typ = Typ::try_from(key & 0x07)?;
    let tag = key as u32 >> 3;
    if tag < Encoder::TAG_MIN {
        return Err(DecoderError::InvalidInput);
    } else if typ == Typ::Unknown {
        return Err(DecoderError::InvalidInput);
    }
""", """    let key = u32::try_from(key).map_err(|_| DecoderError::InvalidInput)?;
    let typ = match key & 7 {
        0 => Typ::Varint,
        1 => Typ::Bit64,
        2 => Typ::LengthDelimited,
        5 => Typ::Bit32,
        _ => return Err(DecoderError::InvalidInput),
    };
    let tag = key >> 3;
    if tag < Encoder::TAG_MIN {
        return Err(DecoderError::InvalidInput);
    }
"""), ("""    *dst = if val == 0u64 { false } else { true };
""", """    *dst = val != 0;
""")], DECK)
rf('pp6-fixed', PP, [("""    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }

    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = u32::from_le_bytes(bytes);
    Ok(4)
""", """    match buf {
        [a, b, c, d, ..] => {
            *dst = u32::from_le_bytes([*a, *b, *c, *d]);
            Ok(4)
        }
        _ => Err(DecoderError::InputUnderflow),
    }
"""), ("""    if buf.len() < 8 {
        return Err(DecoderError::InputUnderflow)
    }

    let mut bytes = [0u8; 8];
    bytes.clone_from_slice(&buf[0..8]);
    *dst = u64::from_le_bytes(bytes);
    Ok(8)
""", """    let head = buf.get(..8).ok_or(DecoderError::InputUnderflow)?;
    let mut bytes = [0u8; 8];
    bytes.copy_from_slice(head);
    *dst = u64::from_le_bytes(bytes);
    Ok(bytes.len())
"""), ("""    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }

    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = i32::from_le_bytes(bytes);
    Ok(4)
""", """    let mut raw = 0;
    let size = decode_fixed32(buf, &mut raw)?;
    *dst = raw as i32;
    Ok(size)
"""), ("""    *dst = f32::from_le_bytes(bytes);
""", """    *dst = f32::from_bits(u32::from_le_bytes(bytes));
""")], DECK)
rf('pp7-vec', PP, [("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_uint32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    if total == 0 {
        return Err(DecoderError::InputUnderflow);
    }
    let mut items = Vec::new();
    let mut rest = buf;
    while !rest.is_empty() {
        let mut val = 0;
        let n = decode_uint32(rest, &mut val)?;
        rest = &rest[n..];
        items.push(val);
    }
    dst.extend(items);
    Ok(total)
"""), ("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0.0;
        size += decode_double(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    let mut pos = 0;
    let mut items = vec![];
    loop {
        let mut val = 0.0;
        pos += decode_double(&buf[pos..], &mut val)?;
        items.push(val);
        if pos >= total {
            break;
        }
    }
    dst.append(&mut items);
    Ok(pos)
"""), ("""    *dst = ((val >> 1) as i32) ^ (-((val & 1) as i32));
""", """    let half = (val >> 1) as i32;
    *dst = if val & 1 == 0 { half } else { !half };
""")], DECK)
rf('pp8-generic', PP, [("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_uint32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    decode_vec(buf, total, dst, decode_uint32)
"""), ("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_sint64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    decode_vec(buf, total, dst, |b, v| decode_sint64(b, v))
"""), ("""pub fn decode_bool(buf""", """fn decode_vec<T: Default, F>(buf: &[u8], total: usize, dst: &mut Vec<T>, decode: F) -> Result<usize, DecoderError>
where
    F: Fn(&[u8], &mut T) -> Result<usize, DecoderError>,
{
    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = T::default();
        size += decode(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
}

pub fn decode_bool(buf""")], DECK)
rf('pe1-prim', PQ, [("""    let mut size = 0;

    loop {
        size += 1;

        if val < 0x80 {
            buf.write_all(&[val as u8 & 0x7F])?;
            return Ok(size);
        } else {
            let byte = ((val & 0x7F) | 0x80) as u8;
            buf.write_all(&[byte])?;
            val >>= 7;
        }
    }
""", """    let mut size = 1;
    while val > 0x7F {
        buf.write_all(&[val as u8 | 0x80])?;
        val >>= 7;
        size += 1;
    }
    buf.write_all(&[val as u8])?;
    Ok(size)
"""), ("""    let res = if val { 1u64 } else { 0u64 };
    encode_varint(res, buf)
""", """    encode_varint(u64::from(val), buf)
"""), ("""    buf.write_all(&val.to_le_bytes())?;
    Ok(8)
}

pub fn encode_bytes""", """    encode_fixed64(val.to_bits(), buf)
}

pub fn encode_bytes"""), ("""    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX {
        return Err(EncoderError::InvalidTag);
    }

    let key = (tag << 3) | typ as u32;
    encode_varint(u64::from(key), buf)
""", """    match tag {
        Encoder::TAG_MIN..=Encoder::TAG_MAX => {
            let key = u64::from(tag) * 8 + typ as u64;
            encode_varint(key, buf)
        }
        _ => Err(EncoderError::InvalidTag),
    }
""")], DECK)
rf('pe2-buffer', PQ, [("""    let mut size = 0;

    loop {
        size += 1;

        if val < 0x80 {
            buf.write_all(&[val as u8 & 0x7F])?;
            return Ok(size);
        } else {
            let byte = ((val & 0x7F) | 0x80) as u8;
            buf.write_all(&[byte])?;
            val >>= 7;
        }
    }
""", """    let mut bytes = [0u8; 10];
    let mut size = 0;
    while val >= 0x80 {
        bytes[size] = (val & 0x7F) as u8 | 0x80;
        val >>= 7;
        size += 1;
    }
    bytes[size] = val as u8;
    size += 1;
    buf.write_all(&bytes[..size])?;
    Ok(size)
""")], DECK)
rf('pe3-mod', PE, [("""        let mut data = vec![];
        for val in vals {
            encode_bool(*val, &mut data)?;
        }

        let mut size = 0;
        size += encode_key(*tag, Typ::LengthDelimited, dst)?;
        size += encode_bytes(data, dst)?;
        Ok(size)
""", """        let mut data = Vec::with_capacity(vals.len());
        vals.iter().try_for_each(|val| encode_bool(*val, &mut data).map(|_| ()))?;
        self.encode_bytes(tag, &data, dst)
"""), ("""        let mut data = vec![];
        for val in vals {
            encode_int32(*val, &mut data)?;
        }
""", """        let data = pack(vals, |val, data| encode_int32(*val, data))?;
"""), ("""        let mut data = vec![];
        for val in vals {
            encode_sint64(*val, &mut data)?;
        }
""", """        let mut data = vec![];
        let mut i = 0;
        while i < vals.len() {
            encode_sint64(vals[i], &mut data)?;
            i += 1;
        }
"""), ("""        let mut size = 0;
        size += encode_key(*tag, Typ::Varint, dst)?;
        size += encode_uint32(*val, dst)?;
        Ok(size)
""", """        let key = encode_key(*tag, Typ::Varint, dst)?;
        encode_uint32(*val, dst).map(|size| key + size)
"""), ("""pub struct Encoder;
""", """pub struct Encoder;

fn pack<T, F>(vals: &[T], encode: F) -> Result<Vec<u8>, EncoderError>
where
    F: Fn(&T, &mut Vec<u8>) -> Result<usize, EncoderError>,
{
    let mut data = Vec::new();
    for val in vals.iter() {
        encode(val, &mut data)?;
    }
    Ok(data)
}
""")], DECK)
# ---- second batch
rf('hd5-dispatch', HD, [("""            let octet = buf[0];
            if octet & 128 == 128 { // indexed
                total += self.decode_indexed(buf, dst)?;
            } else if octet & 64 == 64 { // with indexing
                total += self.decode_literal(buf, dst)?;
            } else if octet & 32 == 32 {
                total += self.update_max_dynamic_size(buf)?;
            } else if octet & 16 == 16 { // never indexed
                total += self.decode_literal(buf, dst)?;
            } else { // without indexing
                total += self.decode_literal(buf, dst)?;
            }
""", """            total += match buf[0] {
                0x80..=0xff => self.decode_indexed(buf, dst)?,
                0x20..=0x3f => self.update_max_dynamic_size(buf)?,
                _ => self.decode_literal(buf, dst)?,
            };
"""), ("""        let mut total = 0;
        let mut limit = dst.capacity();
        loop {
            if buf.is_empty() || limit == 0 {
                return Ok(total);
            } else {
                limit -= 1;
            }
""", """        let mut total = 0;
        for _ in 0..dst.capacity() {
            if buf.is_empty() {
                break;
            }
"""), ("""                total += match buf[0] {""", """                total += match buf[0] {""")][:2], ['C01', 'C02', 'C04', 'C07'])
R['hd5-dispatch'] = (HD, R['hd5-dispatch'][1] + [("""                _ => self.decode_literal(buf, dst)?,
            };
        }
    }
""", """                _ => self.decode_literal(buf, dst)?,
            };
        }
        Ok(total)
    }
""")], R['hd5-dispatch'][2])
rf('hd6-splitoff', HD, [("""        dst.push((name.to_vec(), value.to_vec(), 0x0));

        buf.drain(0..total);
        Ok(total)
""", """        let field = (name.to_vec(), value.to_vec(), 0);
        *buf = buf.split_off(total);
        dst.push(field);
        Ok(total)
"""), ("""        if octet & 64 == 64 {
            self.table.insert(name.clone(), value.clone());
            dst.push((name, value, 0x4));
        } else  if octet & 16 == 16 {
            dst.push((name, value, 0x8));
        } else {
            dst.push((name, value, 0x0));
        }

        buf.drain(0..total);
        Ok(total)
""", """        let flags = match octet >> 4 {
            4..=7 => Self::WITH_INDEXING,
            1 => Self::NEVER_INDEXED,
            _ => 0,
        };
        if flags == Self::WITH_INDEXING {
            self.table.insert(name.clone(), value.clone());
        }
        dst.push((name, value, flags));
        let _ = buf.drain(..total);
        Ok(total)
""")], ['C01', 'C02', 'C04', 'C08', 'C14'])
rf('hd7-reader', HD, [("""        let mut total = 0;
        let octet = buf[0];

        let prefix = if octet & 64 == 64 { // with indexing
            6
        } else { // without and never indexed
            4
        };

        let mut index = 0;
        total += decode_integer(&buf[total..], &mut index, prefix)?;

        let name = if index == 0 {
            let mut name = Vec::new();
            total += decode_string(&buf[total..], self.speed, &mut name)?;
            name
        } else if let Some(h) = self.table.get(index) {
            h.0.to_vec()
        } else {
            return Err(DecoderError::InvalidIndex);
        };

        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;
""", """        let octet = buf[0];
        let indexing = octet & 64 != 0;

        let mut index = 0;
        let mut rest: &[u8] = buf;
        let n = decode_integer(rest, &mut index, if indexing { 6 } else { 4 })?;
        rest = &rest[n..];

        let name = match index {
            0 => {
                let mut s = vec![];
                let n = decode_string(rest, self.speed, &mut s)?;
                rest = &rest[n..];
                s
            }
            i => match self.table.get(i) {
                Some((s, _)) => s.to_vec(),
                None => return Err(DecoderError::InvalidIndex),
            },
        };

        let mut value = vec![];
        let n = decode_string(rest, self.speed, &mut value)?;
        rest = &rest[n..];
        let total = buf.len() - rest.len();
""")], ['C01', 'C02', 'C03', 'C04', 'C08'])
rf('hd8-field', HD, [("""        let mut new_size = 0;
        let total = decode_integer(buf, &mut new_size, 5)?;

        if new_size > self.max_dynamic_size {
            return Err(DecoderError::InvalidMaxDynamicSize)
        } else {
            self.table.update_max_dynamic_size(new_size);
        }

        buf.drain(0..total);
        Ok(total)
""", """        let mut size = 0;
        let used = decode_integer(&buf[..], &mut size, 5)?;
        self.check_size(size)?;
        buf.drain(..used);
        self.table.update_max_dynamic_size(size);
        Ok(used)
    }

    fn check_size(&self, size: u32) -> Result<(), DecoderError> {
        if size <= self.max_dynamic_size() {
            Ok(())
        } else {
            Err(DecoderError::InvalidMaxDynamicSize)
        }
"""), ("""            if buf.is_empty() {
                return Ok(total);
            }

            let mut data = Vec::with_capacity(1);
            total += self.decode_exact(buf, &mut data)?;
            dst.append(&mut data);
""", """            if buf.len() == 0 {
                break;
            }
            let mut one = Vec::with_capacity(1);
            let used = self.decode_exact(buf, &mut one)?;
            dst.extend(one.into_iter());
            total += used;
"""), ("""            dst.extend(one.into_iter());
            total += used;
        }
    }
""", """            dst.extend(one.into_iter());
            total += used;
        }
        Ok(total)
    }
""")], ['C01', 'C02', 'C05', 'C07', 'C08'])
rf('hp5-first', HP, [("""    let mut total = 0;
    let byte = if buf.is_empty() {
        return Err(DecoderError::IntegerUnderflow);
    } else {
        total += 1;
        buf[total - 1]
    };
""", """    let (byte, tail) = match buf.split_first() {
        Some((b, t)) => (*b, t),
        None => return Err(DecoderError::IntegerUnderflow),
    };
"""), ("""        *dst = value;
        return Ok(total);
    }

    let mut shift = 0;
    loop {
        let byte = if total >= buf.len() {
            return Err(DecoderError::IntegerUnderflow);
        } else {
            total += 1;
            buf[total - 1]
        };

        value += ((byte & 0b01111111) as u32) << shift;
        shift += 7;

        if byte & 0b10000000 == 0 { // most significant bit is set (continuation)
            *dst = value;
            return Ok(total);
        } else if total == 5 { // chosen limit of supported octet
            return Err(DecoderError::IntegerOverflow);
        }
    }
""", """        *dst = value;
        return Ok(1);
    }

    for (i, b) in tail.iter().take(4).enumerate() {
        value += u32::from(*b & 0x7f) << (7 * i);
        if *b < 0x80 {
            *dst = value;
            return Ok(i + 2);
        }
    }

    if tail.len() < 4 {
        Err(DecoderError::IntegerUnderflow)
    } else {
        Err(DecoderError::IntegerOverflow)
    }
""")], ['C01', 'C03', 'C06'])
rf('hp6-string', HP, [("""    let huffman = buf[0] & 128 == 128;

    let mut len = 0;
    let mut total = decode_integer(buf, &mut len, 7)?;

    if len as usize > buf.len() - total {
        return Err(DecoderError::IntegerUnderflow);
    }

    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();
    total += len as usize;
    if huffman { // Huffman encoded (MSB is set to 1)
        httlib_huffman::decode(&buf, dst, speed)?;
    } else { // Plain text (MSB is set to 0)
        dst.append(&mut buf);
    }

    Ok(total)
""", """    let mut len = 0;
    let start = decode_integer(buf, &mut len, 7)?;
    let end = start + len as usize;
    let data = buf.get(start..end).ok_or(DecoderError::IntegerUnderflow)?;

    match buf[0] >> 7 {
        0 => dst.extend(data.iter().copied()),
        _ => httlib_huffman::decode(data, dst, speed)?,
    }

    Ok(end)
""")], ['C01', 'C03', 'C06'])
rf('t7-entrysize', TD, [("""        self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));

        self.consolidate(); // evict entries if necessary
    }
""", """        let entry = (name, value);
        self.size += Self::entry_size(&entry);
        self.inner.push_front(entry);

        self.consolidate(); // evict entries if necessary
    }

    fn entry_size(entry: &(Vec<u8>, Vec<u8>)) -> usize {
        entry.0.len() + entry.1.len() + 32
    }
"""), ("""        while self.size > self.max_size as usize {
            if let Some(header) = self.inner.pop_back() {
                self.size -= header.0.len() + header.1.len() + 32;
            }
        }
""", """        let max = self.max_size as usize;
        while self.size > max {
            match self.inner.pop_back() {
                Some(entry) => self.size -= Self::entry_size(&entry),
                None => break,
            }
        }
"""), ("""        match self.inner.get(index as usize) {
            Some(h) => Some((&h.0, &h.1)),
            None => None,
        }
""", """        let (name, value) = self.inner.get(index as usize)?;
        Some((name.as_slice(), value.as_slice()))
""")], ['C01', 'C04', 'C14'])
rf('t8-evictfirst', TD, [("""        self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));

        self.consolidate(); // evict entries if necessary
    }
""", """        let size = name.len() + value.len() + 32;
        let max = self.max_size as usize;
        if size > max {
            self.inner.clear();
            self.size = 0;
            return;
        }
        while self.size + size > max {
            match self.inner.back() {
                Some((n, v)) => self.size -= n.len() + v.len() + 32,
                None => break,
            }
            self.inner.pop_back();
        }
        self.size += size;
        self.inner.push_front((name, value));
    }
""")], ['C01', 'C04', 'C14'])
rf('t9-findget', TM, [("""        let mut name_match = None;

        for (i, h) in self.iter().enumerate() {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true)); // name and value matched
                } else if name_match.is_none() {
                    name_match = Some(i + 1); // only name mached
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
""", """        let mut first = 0;
        let mut index = 1;
        while let Some((n, v)) = self.get(index as u32) {
            if n == name && v == value {
                return Some((index, true));
            }
            if n == name && first == 0 {
                first = index;
            }
            index += 1;
        }

        if first > 0 {
            Some((first, false))
        } else {
            None
        }
""")], ['C13', 'C14', 'C15'])
rf('t10-find2', TM, [("""        let mut name_match = None;

        for (i, h) in self.iter().enumerate() {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true)); // name and value matched
                } else if name_match.is_none() {
                    name_match = Some(i + 1); // only name mached
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
""", """        let mut best: Option<(usize, bool)> = None;
        let mut i = 0;
        for (n, v) in self.iter() {
            i += 1;
            if n != name {
                continue;
            }
            if v == value {
                best = Some((i, true));
                break;
            }
            best = best.or(Some((i, false)));
        }
        best
""")], ['C13', 'C14', 'C15'])
rf('t11-getrange', TM, [("""        let index = if index == 0 {
            return None;
        } else {
            index - 1
        };

        let static_len = self.static_table.len() as u32;
        if index < static_len {
            Some(self.static_table[index as usize])
        } else {
            self.dynamic_table.get(index - static_len)
        }
""", """        let position = index.checked_sub(1)? as usize;
        match self.static_table.get(position) {
            Some(&(name, value)) => Some((name, value)),
            None => self.dynamic_table.get((position - self.static_table.len()) as u32),
        }
""")], ['C01', 'C04', 'C14'])
rf('t12-twoloops', TM, [("""        let mut name_match = None;

        for (i, h) in self.iter().enumerate() {
            if name == h.0 {
                if value == h.1 {
                    return Some((i + 1, true)); // name and value matched
                } else if name_match.is_none() {
                    name_match = Some(i + 1); // only name mached
                }
            }
        }

        match name_match {
            Some(i) => Some((i, false)),
            None => None,
        }
""", """        let mut name_match = None;
        for (i, (n, v)) in self.static_table.iter().enumerate() {
            if *n == name {
                if *v == value {
                    return Some((i + 1, true));
                }
                name_match = name_match.or(Some((i + 1, false)));
            }
        }
        let offset = self.static_table.len() + 1;
        for i in 0..self.dynamic_table.len() {
            if let Some((n, v)) = self.dynamic_table.get(i as u32) {
                if n == name {
                    if v == value {
                        return Some((i + offset, true));
                    }
                    name_match = name_match.or(Some((i + offset, false)));
                }
            }
        }
        name_match
""")], ['C13', 'C14', 'C15'])
rf('he4-flags', HE, [("""        if flags & 0x4 == 0x4 {
            encode_integer(index, 0x40, 6, dst)?;
        } else if flags & 0x8 == 0x8 {
            encode_integer(index, 0b00010000, 4, dst)?;
        } else { // without indexing
            encode_integer(index, 0x0, 4, dst)?;
        }

        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;
        if flags & 0x4 == 0x4 {
            self.table.insert(name, value);
        }
        Ok(())
""", """        let (mark, prefix) = Self::representation(flags);
        encode_integer(index, mark, prefix, dst)?;
        self.write_value(name, value, flags, dst)
    }

    fn representation(flags: u8) -> (u8, u8) {
        if flags & Self::WITH_INDEXING != 0 {
            (0x40, 6)
        } else if flags & Self::NEVER_INDEXED != 0 {
            (0x10, 4)
        } else {
            (0, 4)
        }
    }

    fn write_value(&mut self, name: Vec<u8>, value: Vec<u8>, flags: u8, dst: &mut Vec<u8>) -> Result<(), EncoderError> {
        let huffman = flags & Self::HUFFMAN_VALUE == Self::HUFFMAN_VALUE;
        if flags & Self::WITH_INDEXING == 0 {
            return encode_string(value, huffman, dst);
        }
        encode_string(value.clone(), huffman, dst)?;
        self.table.insert(name, value);
        Ok(())
"""), ("""        if flags & 0x4 == 0x4 {
            dst.push(0x40);
        } else if flags & 0x8 == 0x8 {
            dst.push(0b00010000);
        } else { // without indexing
            dst.push(0x0);
        }

        encode_string(name.clone(), flags & 0x1 == 0x1, dst)?;
        encode_string(value.clone(), flags & 0x2 == 0x2, dst)?;
        if flags & 0x4 == 0x4 {
            self.table.insert(name, value);
        }
        Ok(())
""", """        let (mark, _) = Self::representation(flags);
        dst.push(mark);
        encode_string(name.to_vec(), flags & Self::HUFFMAN_NAME > 0, dst)?;
        self.write_value(name, value, flags, dst)
""")], ['C13', 'C14', 'C16', 'C17'])
rf('he5-match', HE, [("""                if flags & 0x10 == 0x10 {
                    match self.table.find(&name, &value) {
                        Some((index, true)) if flags & 0xc != 0x8 => {
                            self.encode_indexed(index as u32, dst)
                        },
                        Some((index, _)) => {
                            self.encode_indexed_name(index as u32, value, flags, dst)
                        },
                        None => {
                            self.encode_literal(name, value, flags, dst)
                        },
                    }
                } else {
                    self.encode_literal(name, value, flags, dst)
                }
""", """                if flags & 0x10 == 0 {
                    return self.encode_literal(name, value, flags, dst);
                }
                let (index, full) = match self.table.find(&name, &value) {
                    None => return self.encode_literal(name, value, flags, dst),
                    Some(x) => x,
                };
                let sensitive = flags & 0x8 != 0 && flags & 0x4 == 0;
                if full && !sensitive {
                    self.encode_indexed(index as u32, dst)
                } else {
                    self.encode_indexed_name(index as u32, value, flags, dst)
                }
""")], ['C13', 'C14', 'C15', 'C16', 'C17'])
rf('ep4-array', EP, [("""    let mut value = value - mask as u32;
    dst.push(flags | mask as u8); // first byte
    while value >= 128 {
        dst.push(0b10000000 | value as u8); // byte with continuation flag
        value >>= 7;
    }
    dst.push(value as u8); // last byte
    Ok(())
""", """    dst.push(flags | mask);
    push_groups(value - u32::from(mask), dst);
    Ok(())
}

fn push_groups(mut rest: u32, dst: &mut Vec<u8>) {
    loop {
        let group = (rest & 0x7f) as u8;
        rest >>= 7;
        if rest == 0 {
            dst.push(group);
            break;
        }
        dst.push(group | 0x80);
    }
"""), ("""    let len = bytes.len();
    if len > u32::MAX as usize {
        return Err(EncoderError::IntegerOverflow);
    }

    encode_integer(len as u32, flags, 7, dst)?; // first byte
    dst.append(&mut bytes.to_vec()); // the rest of bytes

    return Ok(());
""", """    use std::convert::TryFrom;
    let len = u32::try_from(bytes.len()).map_err(|_| EncoderError::IntegerOverflow)?;
    encode_integer(len, flags, 7, dst)?;
    dst.extend_from_slice(&bytes);
    Ok(())
""")], ['C13', 'C14', 'C15'])
rf('fe4-flush', FE, [("""    let mut bits: u64 = 0;
    let mut bits_left = 40;
    let codings = self::table::ENCODE_TABLE; // parsed huffman table

    for &byte in src {
        let (code_len, code) = match codings.get(byte as usize) {
            Some(coding) => coding,
            None => return Err(EncoderError::InvalidInput),
        };

        bits |= (*code as u64) << (bits_left - code_len); // shift and add old and new numbers
        bits_left -= code_len;

        while bits_left <= 32 {
            dst.push((bits >> 32) as u8);

            bits <<= 8; // add more room for the next character
            bits_left += 8;
        }
    }

    if bits_left != 40 { // finalize with EOS
        bits |= (1 << bits_left) - 1; // add EOS and pedding
        dst.push((bits >> 32) as u8);
    }

    Ok(())
""", """    let mut acc: u64 = 0;
    let mut n: u32 = 0; // bits waiting in acc
    for byte in src.iter() {
        let &(len, code) = table::ENCODE_TABLE
            .get(usize::from(*byte))
            .ok_or(EncoderError::InvalidInput)?;
        acc = (acc << len) | code as u64;
        n += len as u32;
        while n >= 8 {
            n -= 8;
            dst.push((acc >> n) as u8);
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 {
        let pad = 8 - n;
        dst.push(((acc << pad) | ((1 << pad) - 1)) as u8);
    }
    Ok(())
""")], ['C20', 'C21', 'C14'])
rf('fr5-struct', FR, [("""        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
            return Err(DecoderError::InvalidInput);
        }

        self.tail = 0; // reset (make object reusable)
        self.tail_size = 0;

        Ok(())
""", """        let ones = (1usize << self.tail_size) - 1;
        let valid = self.tail_size < 8 && self.tail == ones;
        if valid {
            self.tail = 0;
            self.tail_size = 0;
            Ok(())
        } else {
            Err(DecoderError::InvalidInput)
        }
"""), ("""        loop {
            if self.buf_size < self.speed { // has chunks to process
                break;
            } else {
                self.decode_next(dst)?;
            }
        }

        Ok(())
""", """        while self.buf_size >= self.speed {
            self.decode_next(dst)?;
        }
        Ok(())
"""), ("""        self.buf -= key >> leftover << self.buf_size - self.speed + leftover as usize; // remove key from buffer
        self.buf_size -= self.speed - leftover as usize;

        self.tail <<= self.speed - leftover as usize; // append chunk to tail
        self.tail |= key >> leftover;
        self.tail_size += self.speed - leftover as usize;
""", """        let used = self.speed - leftover as usize;
        let bits = key >> leftover;
        self.buf_size -= used;
        self.buf &= (1 << self.buf_size) - 1;
        self.tail = self.tail << used | bits;
        self.tail_size += used;
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])
rf('fd2-iter', FD, [("""    for byte in src {
        reader.decode(*byte, dst)?;
    }
    reader.finalize(dst)?;

    Ok(())
""", """    let mut i = 0;
    while i < src.len() {
        reader.decode(src[i], dst)?;
        i += 1;
    }
    reader.finalize(dst)
""")], ['C20', 'C21', 'C22', 'C23', 'C01'])

# ---- third batch
rf('q1-tryinto', PP, [("""    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = u32::from_le_bytes(bytes);
    Ok(4)
""", """    use core::convert::TryInto;
    *dst = u32::from_le_bytes(buf[..4].try_into().unwrap());
    Ok(4)
"""), ("""    let mut bytes = [0u8; 8];
    bytes.clone_from_slice(&buf[0..8]);
    *dst = i64::from_le_bytes(bytes);
    Ok(8)
""", """    let bytes: &[u8; 8] = core::convert::TryFrom::try_from(&buf[..8]).unwrap();
    *dst = i64::from_le_bytes(*bytes);
    Ok(8)
"""), ("""    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.append(&mut buf[0..4].to_vec());
    Ok(4)
""", """    match buf.get(0..4) {
        Some(head) => {
            dst.extend_from_slice(head);
            Ok(head.len())
        }
        None => Err(DecoderError::InputUnderflow),
    }
""")], DECK)
rf('q2-read', PP, [("""    if buf.len() < 4 {
        return Err(DecoderError::InputUnderflow)
    }
    let mut bytes = [0u8; 4];
    bytes.clone_from_slice(&buf[0..4]);
    *dst = u32::from_le_bytes(bytes);
    Ok(4)
""", """    use std::io::Read;
    let mut bytes = [0u8; 4];
    let mut rest = buf;
    rest.read_exact(&mut bytes).map_err(|_| DecoderError::InputUnderflow)?;
    *dst = u32::from_le_bytes(bytes);
    Ok(4)
""")], DECK)
rf('q3-chunks', PP, [("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_fixed32(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    if total == 0 || total % 4 != 0 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.reserve(total / 4);
    for chunk in buf.chunks_exact(4) {
        let mut val = 0;
        decode_fixed32(chunk, &mut val)?;
        dst.push(val);
    }
    Ok(total)
""")], DECK)
rf('q4-chunkmap', PP, [("""    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_fixed64(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)
""", """    if total == 0 || total % 8 != 0 {
        return Err(DecoderError::InputUnderflow);
    }
    dst.extend(buf.chunks(8).map(|c| {
        let mut b = [0; 8];
        b.copy_from_slice(c);
        u64::from_le_bytes(b)
    }));
    Ok(total)
""")], DECK)
rf('q5-fold', PP, [("""    let mut value: u64 = 0;
    let mut count = 0;
    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };
        value |= u64::from(byte & 0x7F) << (7 * count);
        count += 1;
        if byte <= 0x7F {
            *dst = value;
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    let mut value = 0u64;
    let mut shift = 0u32;
    for (i, &byte) in buf.iter().enumerate().take(10) {
        value |= ((byte & 0x7F) as u64) << shift;
        shift += 7;
        if byte & 0x80 == 0 {
            *dst = value;
            return Ok(i + 1);
        }
    }
    if buf.len() < 10 {
        Err(DecoderError::InputUnderflow)
    } else {
        Err(DecoderError::InvalidInput)
    }
"""), ("""    let mut bytes = vec![];
    let mut count = 0;
    loop {
        let byte = match buf.get(count) {
            Some(b) => *b,
            None => return Err(DecoderError::InputUnderflow),
        };
        bytes.push(byte.clone());
        count += 1;
        if byte <= 0x7F {
            dst.append(&mut bytes);
            return Ok(count);
        } else if count == 10 { // more than 64 bits
            return Err(DecoderError::InvalidInput);
        }
    }
""", """    let mut val = 0;
    let count = decode_varint(buf, &mut val)?;
    dst.extend_from_slice(&buf[..count]);
    Ok(count)
""")], DECK)
rf('q6-fnptr', PD, [("""        let mut bytes = vec![];
        let size = match extract_varint(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
""", """        self.extract(buf, dst, extract_varint)
"""), ("""        let mut bytes = vec![];
        let size = match extract_bit32(&buf, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
""", """        self.extract(buf, dst, extract_bit32)
"""), ("""        let len = self.ld_len.unwrap();
        let mut bytes = vec![];
        let size = match extract_ld(&buf, len, &mut bytes) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        dst.push((self.key.0, self.key.1, bytes));
        buf.drain(..size);
        self.reset();
        Ok(size)
    }
""", """        let len = self.ld_len.unwrap();
        self.extract(buf, dst, |b, d| extract_ld(b, len, d))
    }

    fn extract<F>(&mut self, buf: &mut Vec<u8>, dst: &mut Vec<(u32, Typ, Vec<u8>)>, read: F) -> Result<usize, DecoderError>
    where
        F: FnOnce(&[u8], &mut Vec<u8>) -> Result<usize, DecoderError>,
    {
        let mut bytes = Vec::new();
        match read(buf, &mut bytes) {
            Ok(size) => {
                let (tag, typ) = self.key;
                dst.push((tag, typ, bytes));
                buf.drain(..size);
                self.reset();
                Ok(size)
            }
            Err(DecoderError::InputUnderflow) => Ok(0),
            Err(e) => Err(e),
        }
    }
""")], DECK)
rf('q7-option', PD, [("""    key: (u32, Typ),

""", """    key: Option<(u32, Typ)>,

"""), ("""            match self.key.1 {
                Typ::Unknown => {
                    _size = self.decode_key(buf)?;
                },
                Typ::Varint => {
                    _size = self.extract_varint(buf, dst)?;
                },
                Typ::Bit32 => {
                    _size = self.extract_bit32(buf, dst)?;
                },
                Typ::Bit64 => {
                    _size = self.extract_bit64(buf, dst)?;
                },
                Typ::LengthDelimited => {
                    _size = self.extract_ld(buf, dst)?;
                },
            }
""", """            _size = match self.key {
                None => self.decode_key(buf)?,
                Some((_, Typ::Varint)) => self.extract_varint(buf, dst)?,
                Some((_, Typ::Bit32)) => self.extract_bit32(buf, dst)?,
                Some((_, Typ::Bit64)) => self.extract_bit64(buf, dst)?,
                Some(_) => self.extract_ld(buf, dst)?,
            };
"""), ("""        let size = match decode_key(&buf, &mut self.key) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
""", """        let mut key = (0, Typ::Unknown);
        let size = match decode_key(&buf, &mut key) {
            Ok(size) => size,
            Err(DecoderError::InputUnderflow) => return Ok(0),
            Err(e) => return Err(e),
        };
        self.key = Some(key);
""")] + [("""        dst.push((self.key.0, self.key.1, bytes));
""", """        let (tag, typ) = self.key.unwrap();
        dst.push((tag, typ, bytes));
""")] * 4 + [("""        self.key = (0, Typ::Unknown);
""", """        self.key = None;
"""), ("""            key: (0, Typ::Unknown),
""", """            key: None,
""")], DECK)
rf('q8-zigzag', PQ, [("""    let res = ((val << 1) ^ (val >> 63)) as u64;
""", """    let res = ((val as u64) << 1) ^ if val < 0 { u64::MAX } else { 0 };
"""), ("""    let res = ((val << 1) ^ (val >> 31)) as u32 as u64;
""", """    let res = (val.wrapping_shl(1) ^ -((val < 0) as i32)) as u32;
    let res = u64::from(res);
""")], DECK)
rf('q9-collect', PE, [("""        let mut data = vec![];
        for val in vals {
            encode_fixed64(*val, &mut data)?;
        }
        self.encode_bytes(tag, &data, dst)
""", """        let data: Vec<u8> = vals.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect();
        self.encode_bytes(tag, &data, dst)
"""), ("""        let mut data = vec![];
        for val in vals {
            encode_uint64(*val, &mut data)?;
        }
        self.encode_bytes(tag, &data, dst)
""", """        let data = vals.iter().try_fold(Vec::new(), |mut data, val| {
            encode_uint64(*val, &mut data).map(|_| data)
        })?;
        self.encode_bytes(tag, &data, dst)
""")], DECK)
rf('q10-key', PP, [("""    if key > u64::from(u32::MAX) {
        return Err(DecoderError::InvalidInput);
    }

    let typ = Typ::try_from(key & 0x07)?;
    let tag = key as u32 >> 3;
    if tag < Encoder::TAG_MIN {
        return Err(DecoderError::InvalidInput);
    } else if typ == Typ::Unknown {
        return Err(DecoderError::InvalidInput);
    }

    *dst = (tag, typ);
    Ok(size)
""", """    let key = u32::try_from(key).map_err(|_| DecoderError::InvalidInput)?;
    let typ = match key % 8 {
        0 => Typ::Varint,
        1 => Typ::Bit64,
        2 => Typ::LengthDelimited,
        5 => Typ::Bit32,
        _ => return Err(DecoderError::InvalidInput),
    };
    match key / 8 {
        0 => Err(DecoderError::InvalidInput),
        tag => {
            *dst = (tag, typ);
            Ok(size)
        }
    }
""")], DECK)
rf('q11-varlen', PQ, [("""    let mut size = 0;
    loop {
        size += 1;
        if val < 0x80 {
            buf.write_all(&[val as u8 & 0x7F])?;
            return Ok(size);
        } else {
            let byte = ((val & 0x7F) | 0x80) as u8;
            buf.write_all(&[byte])?;
            val >>= 7;
        }
    }
""", """    let bits = 64 - (val | 1).leading_zeros() as usize;
    let size = (bits + 6) / 7;
    for _ in 1..size {
        buf.write_all(&[(val as u8) | 0x80])?;
        val >>= 7;
    }
    buf.write_all(&[val as u8])?;
    Ok(size)
""")], DECK)
rf('q12-state', PD, [("""            let mut _size = 0;
            let count = dst.len();
            match self.key.1 {
                Typ::Unknown => {
                    _size = self.decode_key(buf)?;
                },
                Typ::Varint => {
                    _size = self.extract_varint(buf, dst)?;
                },
                Typ::Bit32 => {
                    _size = self.extract_bit32(buf, dst)?;
                },
                Typ::Bit64 => {
                    _size = self.extract_bit64(buf, dst)?;
                },
                Typ::LengthDelimited => {
                    _size = self.extract_ld(buf, dst)?;
                },
            }
            if _size == 0 && dst.len() == count { // empty fields have no bytes
                break;
            }
            total += _size;
        }
        Ok(total)
""", """            let (size, progress) = self.step(buf, dst)?;
            total += size;
            if !progress {
                return Ok(total);
            }
        }
    }

    fn step(
        &mut self,
        buf: &mut Vec<u8>,
        dst: &mut Vec<(u32, Typ, Vec<u8>)>,
    ) -> Result<(usize, bool), DecoderError> {
        let before = dst.len();
        let size = match self.key {
            (_, Typ::Unknown) => self.decode_key(buf),
            (_, Typ::Varint) => self.extract_varint(buf, dst),
            (_, Typ::Bit32) => self.extract_bit32(buf, dst),
            (_, Typ::Bit64) => self.extract_bit64(buf, dst),
            (_, Typ::LengthDelimited) => self.extract_ld(buf, dst),
        }?;
        Ok((size, size > 0 || dst.len() > before))
""")], DECK)
